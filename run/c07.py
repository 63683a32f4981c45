"""C07: constant evaluation and run-time evaluation give identical results."""
from ct import *
from enc import ENCS


def chain(rng, mod, top):
    """sizes of pieces, such that every size below top comes at every position modulo mod"""
    left = {p: rng.sample(range(top), top) for p in range(mod)}
    r, p = [], 0
    while any(left.values()):
        if not left[p]:      # go where something is left
            q = min((q for q in left if left[q]), key=lambda q: (q - p) % mod)
            r.append((q - p) % mod)
            p = q
        n = left[p].pop()
        r.append(n)
        p = (p + n) % mod
    return r


def hash_unit(rng, a, wide):
    g = Gen(a)
    B = block(a)
    seeds = [0] if a not in XX else [0, rng.getrandbits(32 if a == "xxh32" else 64)]
    mks = []
    for s in seeds:
        for bits in ([256] if not a.startswith("shake") else [8, 40, 256, 264, 8 * B, 8 * B + 8, 1344 + 64, 2696, 8 * 3 * B]):
            n, code = maker(a, s, bits)
            g.pre.append(code)
            mks.append(n)
    L = LENBYTES.get(a, 16)
    lens = [0, 1, 3, 7, 8, 9, B - L - 2, B - L - 1, B - L, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 5, rng.randrange(0, 2 * B)]
    if a.startswith("shake"):
        lens += [rng.randrange(2 * B) for _ in range(4)]     # more lengths for the many sizes of output
    if wide:
        lens += list(range(0, 2 * B + 2, 3))
    lens = sorted(set(x for x in lens if x >= 0))
    i = 0
    for n in lens:
        for e in (ELEMS if wide else rng.sample(ELEMS, 2) + ["signed char"]):
            mk = mks[i % len(mks)]
            k = rng.choice((rng.randrange(1, 1 << 20), 0, -1, -2, rng.randrange(1, 1 << 20)))
            i += 1
            g.case("ct::hash_case<%s, %s, %d, %d>::run(@ID@);" % (mk, e, k, n), "%s of %d bytes of data %d held in %s" % (mk, n, k, e))
    for e in ELEMS:
        for mk in mks:
            g.case("ct::hash_case<%s, %s, 0, 256>::run(@ID@);" % (mk, e), "%s of all byte values held in %s" % (mk, e))
    for _ in range(12 if not wide else 60):
        ps = [rng.choice((0, 1, 2, 5, 8, B - 1, B, B + 1, rng.randrange(0, 2 * B))) for _ in range(rng.randrange(2, 5))]
        mk, e, k = rng.choice(mks), rng.choice(ELEMS), rng.randrange(1, 1 << 20)
        g.case("ct::hash_case<%s, %s, %d, %s>::run(@ID@);" % (mk, e, k, ", ".join(map(str, ps))), "%s of pieces %s of data %d held in %s" % (mk, ps, k, e))
    for e in (ELEMS if wide else rng.sample(ELEMS, 2)):
        mod = {"xxh32": 16, "xxh64": 32}.get(a, 8)
        c, mk, k = chain(rng, mod, mod + 2), rng.choice(mks), rng.randrange(1, 1 << 20)
        n = "chain_%s_%d" % (a, len(g.pre))
        g.pre.append("struct %s { static constexpr size_t sizes[] = {%s}; };" % (n, ", ".join(map(str, c))))
        g.case("ct::chain_case<%s, %s, %d, %s>::run(@ID@);" % (mk, e, k, n), "%s of %d pieces (every size below %d at every position modulo %d) of data %d held in %s" % (mk, len(c), mod + 2, mod, k, e))
    if not a.startswith("shake"):
        for e in ELEMS:
            for n in (0, 1, rng.randrange(2, B), B, B + rng.randrange(1, B)):
                g.case("ct::oneshot_case<%s, %s, %d, %d>::run(@ID@);" % (mks[-1], e, rng.choice((-1, 0, rng.randrange(1, 1 << 20))), n), "%s in one call, %d bytes held in %s" % (mks[-1], n, e))
    return g


def enc_unit(rng, idx, encs, wide):
    g = Gen("enc%d" % idx)
    for name, t in encs:
        for e in ("unsigned char", "signed char", "char", "std::byte"):
            for n in (range(0, 17) if wide else (0, 1, 2, 3, 4, 5, 6, 8, 10, 11)):
                for k in (rng.randrange(1, 1 << 20), rng.choice((-1, -2))):
                    c = rng.choice(("char", "char", "wchar_t", "char8_t", "char16_t", "char32_t"))
                    g.case("ct::enc_case<cthash::encoding::%s, %s, %s, %d, %d>::run(@ID@);" % (t, c, e, k, n), "%s as %s of %d bytes of data %d held in %s" % (name, c, n, k, e))
    return g


def value_unit(rng):
    """literals, comparisons, texts of digest values"""
    g = Gen("val")
    g.pre.append("using namespace cthash::literals;")
    for n in (1, 2, 7, 20, 32):
        for _ in range(6):
            h = rng.randbytes(n).hex()
            h = "".join(rng.choice((c, c.upper())) for c in h)
            p = rng.choice(("", "u8", "u", "U", "L"))
            g.case('{ CT_CONST auto c = %s"%s"_hash; cthash::fixed_string<char, %d> t{nullptr}; for (size_t i = 0; i != %d; ++i) t[i] = "%s"[i]; asm volatile("" : : "r"(t.data()) : "memory"); '
                   'ct::emit(@ID@, c, cthash::hash_value<%d>(t)); }' % (p, h, 2 * n, 2 * n, h, n), "literal %s" % h)
            g.case('{ CT_CONST auto c = to_fixed_string("%s"_hash); auto v = "%s"_hash; asm volatile("" : : "r"(v.data()) : "memory"); ct::emit(@ID@, c, to_fixed_string(v)); }' % (h, h), "text of %s" % h)
            o = bytearray(bytes.fromhex(h))
            o[rng.randrange(n)] ^= rng.choice((0, 1, 0x80, 0xff))
            g.case('{ CT_CONST auto x = "%s"_hash; CT_CONST auto y = "%s"_hash; CT_CONST std::array<char, 3> c{char(x == y), char(x < y), char(x > y)}; auto v = x; auto w = y; asm volatile("" : : "r"(v.data()), "r"(w.data()) : "memory"); '
                   'std::array<char, 3> r{char(v == w), char(v < w), char(v > w)}; ct::emit(@ID@, c, r); }' % (h, o.hex()), "comparison of %s with %s" % (h, o.hex()))
    return g


def run(ctx):
    rng = ctx.rng
    gens = [hash_unit(rng, a, THOROUGH) for a in TYPES] + [enc_unit(rng, i, ENCS[i::3], THOROUGH) for i in range(3)] + [value_unit(rng)]
    try:
        exe = build_gen(ctx, "ctrt", gens)
    except CompileError as e:
        ctx.log("the compiler rejects a computation; trying without constant evaluation")
        build_gen(ctx, "rt", gens, ["-DVERIF_NO_CT"])      # an error here is not the property's
        ctx.violation("a computation that works at run time is rejected in constant evaluation: " + str(e)[-1500:], {"compiler": str(e)[-6000:]})
        return
    ctx.log("built")
    out, crash = run_gen(ctx, exe, gens)
    tr, names = [], []
    for g in gens:
        t = []
        for i, m in g.meaning.items():
            if i not in out:
                t.append(["crash", m, crash or "?"])
                break
            c, r = out[i]
            t.append(["constant evaluation", m, c[1:]])
            t.append(["run time", m, r[1:]])
        tr.append(t)
        names.append(g.tag)
        if t and t[-1][0] == "crash":
            break

    def describe(i, l):
        e = tr[i][l]
        p = [x for x in tr[i][:l] if x[1] == e[1]]
        return "%s: %s gives %s, but %s" % (e[1], e[0], e[2], p), {"unit": names[i], "event": e, "before": p}
    validate(ctx, "AgreeTrace", tr, describe, cfg=AGREE % "FALSE")
    ctx.cov["computations_compared"] = sum(len(t) for t in tr) // 2
    for t in tr[:1] + tr[-1:]:
        ctx.sample(short(t, 300))
