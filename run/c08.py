"""C08: the digest depends on the bytes alone, not on what carries them."""
from ct import *

VIAS = {0: "span<const byte>", 1: "string_view", 2: "span<const unsigned char>", 3: "span<const char>", 4: "u8string_view", 5: "span<const signed char>",
        6: "vector<byte>", 7: "string", 8: "vector<unsigned char>", 9: "vector<signed char>", 10: "span<const char8_t>", 11: "u8string", 12: "vector<char>", 13: "span<byte>"}
XXVIAS = (0, 1, 2, 3, 4, 5, 10)
DRV = {"sha512_224": "sha512t_224", "sha512_256": "sha512t_256", "sha512_56": "sha512t_56"}


def octal(b, pre=""):
    return pre + '"' + "".join("\\%03o" % c for c in b) + '"'


def near(rng, m):
    """messages that a careless reading of m would confuse with m"""
    out = [m, m + b"\0", b"\0" + m]
    i = rng.randrange(len(m) + 1)
    out.append(m[:i] + b"\0" + m[i:])
    if m:
        j = rng.randrange(len(m))
        out += [m[:j] + bytes([m[j] ^ 0x80]) + m[j + 1:], m[:j] + b"\0" + m[j + 1:], m[:j] + m[j + 1:]]
    return out


def messages(rng, B, n):
    ms = [b"", b"\0", b"\0\0", b"a", b"a\0", b"a\0b", b"\0a", b"\x80", b"\xff", b"\xff\0\x80", b"\x7f", "\u010d\u20ac".encode()]
    for i in range(n):
        L = rng.choice((2, 3, 5, 8, 9, 20, B - 9, B - 1, B, B + 1, 2 * B + 3, rng.randrange(1, 2 * B)))
        m = bytes(rng.choice((0, 0x80, 0xff, rng.randrange(256), rng.randrange(1, 128))) for _ in range(L))
        ms += near(rng, m)
    return list(dict.fromkeys(ms))


PRE = """
template <typename Mk, typename F> [[gnu::noinline]] void one(const char * id, F f) {
	auto h = Mk::make();
	f(h);
	const auto v = Mk::fin(h);
	std::fprintf(ct::out, "%s ", id); ct::hex(v); std::fputc('\\n', ct::out);
}
template <typename F> [[gnu::noinline]] void ready(const char * id, F f) {
	const auto v = f();
	std::fprintf(ct::out, "%s ", id); ct::hex(v); std::fputc('\\n', ct::out);
}
"""


def more(rng, m, lit, u8):
    """carriers that are ranges of bytes without being containers of the usual kind: (declaration, expression, what)"""
    N = len(m)
    uc = "static const unsigned char q[] = {%s};" % ", ".join(map(str, b"\x5a" + m + b"\xa5"))
    vec = "std::vector<unsigned char> v{%s};" % ", ".join(map(str, b"\x5a" + m + b"\xa5"))
    out = [(uc + " std::pmr::vector<unsigned char> v(q + 1, q + %d);" % (N + 1), "v", "pmr::vector"),
           ("std::pmr::string v(%s, %d);" % (lit, N), "v", "pmr::string"),
           (uc + " struct T: std::char_traits<char> { }; std::basic_string_view<char, T> v(reinterpret_cast<const char *>(q + 1), %d);" % N, "v", "string_view with own traits"),
           (uc, "std::basic_string_view<unsigned char>(q + 1, %d)" % N, "string_view of unsigned char"),
           (vec, "std::ranges::subrange(v.begin() + 1, v.end() - 1)", "subrange of a vector"),
           (vec, "std::ranges::subrange(v.data() + 1, v.data() + %d)" % (N + 1), "subrange of pointers"),
           (vec + " auto t = v | std::views::drop(1) | std::views::take(%d);" % N, "t", "part of a vector as a view"),
           ("const std::string v(%s, %d);" % (lit, N), "std::views::all(v)", "view of a string"),
           (uc + " struct R { const unsigned char * b; size_t n; const unsigned char * begin() const { return b; } const unsigned char * end() const { return b + n; } };", "(R{q + 1, %d})" % N, "own range"),
           (vec, "std::as_bytes(std::span(v).subspan(1, %d))" % N, "as_bytes"),
           (vec, "std::as_writable_bytes(std::span(v)).subspan(1, %d)" % N, "as_writable_bytes"),
           (vec, "std::span(v).template subspan<1, %d>()" % N, "fixed-size part of a mutable span"),
           ("char8_t v[%d] = {0}; for (size_t i = 0; i != %d; ++i) v[i] = %s[i];" % (N + 1, N, u8), "std::span(v).first(%d)" % N, "mutable span of char8_t"),
           ("", "std::string(%s, %d)" % (lit, N), "temporary string"),
           (uc, "std::vector<std::byte>(reinterpret_cast<const std::byte *>(q) + 1, reinterpret_cast<const std::byte *>(q) + %d)" % (N + 1), "temporary vector")]
    if N:
        by = ", ".join("std::byte(%d)" % b for b in m)
        out += [("std::initializer_list<unsigned char> v{%s};" % ", ".join(map(str, m)), "v", "initializer_list"),
                ("std::array<unsigned char, %d> v{%s};" % (N, ", ".join(map(str, m))), "v", "mutable array"),
                ("cthash::hash_value<%d> v{}; { const std::byte b[] = {%s}; std::copy_n(b, %d, v.begin()); }" % (N, by, N), "v", "digest value"),
                ("const auto v = [] { cthash::shake128_value<%d> v{}; const std::byte b[] = {%s}; std::copy_n(b, %d, v.begin()); return v; }();" % (8 * N, by, N), "v", "SHAKE digest value"),
                ("const cthash::fixed_string v(%s);" % lit, "v", "fixed_string"),
                ("const cthash::fixed_string v(%s);" % u8, "v", "fixed_string of char8_t")]
        fit = {32: "sha256_value", 28: "sha3_224_value", 64: "sha512_value", 4: "xxhash32_value", 8: "xxhash64_value", 20: "own_tag"}.get(N)
        if fit and fit != "own_tag":
            out.append(("cthash::%s v{}; { const std::byte b[] = {%s}; std::copy_n(b, %d, v.begin()); }" % (fit, by, N), "v", fit))
    if N == 1:
        out.append(("", "std::views::single(static_cast<unsigned char>(%d))" % m[0], "single value as a view"))
    return out


def unit(rng, a, ms, seed):
    g = Gen(a)
    n, code = maker(a, seed)
    g.pre += [PRE, code]
    t, xx = TYPES[a], a in XX
    sd = "" if not xx else ", %d%s" % (seed, "u" if a == "xxh32" else "ull")

    def upd(decl, expr, what, m):
        g.case("one<%s>(@ID@, [](auto & h) { %s h.update(%s); });" % (n, decl, expr), (what, m))

    for m in ms:
        N, lit, u8 = len(m), octal(m), octal(m, "u8")
        upd("", lit, "string literal", m)
        upd("", u8, "u8 string literal", m)
        upd("static constexpr char t[] = %s;" % lit, "t", "constant char array initialised from a literal", m)
        upd("", "std::string_view(%s, %d)" % (octal(m + b"tail"), N), "string_view of the front of a longer text", m)
        upd("", "std::u8string_view(%s, %d)" % (octal(m + b"\0tail", "u8"), N), "u8string_view of the front of a longer text", m)
        if N:
            k = rng.randrange(N)
            g.case("one<%s>(@ID@, [](auto & h) { h.update(%s); h.update(%s); });" % (n, octal(m[:k]), octal(m[k:])), ("two string literals", m))
        if not a.startswith("shake"):
            for e, l in (("", lit), ("u8 ", u8)):
                g.case("ready(@ID@, [] { return cthash::simple<%s>(%s%s); });" % (t, l, sd), ("one call with a %sstring literal" % e, m))
            g.case("ready(@ID@, [] { return cthash::simple<%s>(std::string_view(%s, %d)%s); });" % (t, octal(m + b"x"), N, sd), ("one call with a string_view", m))
        if xx:
            g.case("ready(@ID@, [] { return %s{%s}.update_and_final(%s); });" % (t, sd[2:], lit), ("update_and_final of a string literal", m))
            g.case("ready(@ID@, [] { return %s{%s}.update_and_final(%s); });" % (t, sd[2:], u8), ("update_and_final of a u8 string literal", m))
            g.case("ready(@ID@, [] { return %s{%s}.update_and_final(std::u8string_view(%s, %d)); });" % (t, sd[2:], u8, N), ("update_and_final of a u8string_view", m))
            upd("static const unsigned char q[] = {%s};" % ", ".join(map(str, m + b"\xa5")), "std::basic_string_view<unsigned char>(q, %d)" % N, "string_view of unsigned char", m)
            continue
        M = more(rng, m, lit, u8)
        for decl, expr, what in (M if THOROUGH else rng.sample(M, 10)):
            upd(decl, expr, what, m)
        for e in ELEMS:
            lst = ", ".join("%s(%d)" % ("std::byte" if e == "std::byte" else "(%s)" % e, b if e != "signed char" and e != "char" else b - 256 * (b > 127)) for b in m)
            upd("const std::array<%s, %d> t{%s};" % (e, N, lst), "t", "array<%s>" % e, m)
            if rng.random() < 0.5:
                upd("const std::array<%s, %d> t{%s};" % (e, N, lst), "std::span<const %s, %d>(t)" % (e, N), "fixed-size span<const %s>" % e, m)
            if N and e not in ("char", "char8_t"):
                upd("const %s t[] = {%s};" % (e, lst), "t", "C array of %s" % e, m)
    return g


def run(ctx):
    rng = ctx.rng
    gens, msgs, seeds = [], {}, {}
    for a in TYPES:
        B = block(a)
        msgs[a] = messages(rng, B, 12 if not THOROUGH else 150)
        seeds[a] = rng.getrandbits(32 if a == "xxh32" else 64) if a in XX else 0
        sized = [rng.randbytes(n) for n in (4, 8, 28, 32, 64)]      # as long as digests are
        msgs[a] += sized
        st = msgs[a][:12] + sized + rng.sample(msgs[a][12:], min(len(msgs[a]) - 12, 10 if not THOROUGH else 60))
        gens.append(unit(rng, a, st, seeds[a]))
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(build_gen, ctx, "lit", gens)
        f2 = ex.submit(build, ctx, "drv", units("sha2", "sha3", "sha512t_some", lean=False) + [("alg_shake.cpp", ["-DVERIF_N128=32", "-DVERIF_N256=32"], "shake"), ("alg_xxh.cpp", [], "xxh")], ["-O1"])
        exe, drv = f1.result(), f2.result()
    ctx.log("built")
    out, crash = run_gen(ctx, exe, gens)
    # containers of run-time size
    S, who = [], []
    for a in TYPES:
        for m in msgs[a]:
            for v in (VIAS if a not in XX else XXVIAS):
                al = Alg(a if a not in DRV else "sha512t", 0 if a not in DRV else int(DRV[a].split("_")[1]), seeds[a])
                s = Sess("%s: %s" % (a, VIAS[v])).new(1, al)
                s.upd(1, m, via=v)
                s.fin(1, 32 if al.xof else 0)
                S.append(s)
                who.append((a, VIAS[v], m))
    done = run_driver(ctx, drv, S)
    obs = {a: [] for a in TYPES}
    for s, (a, v, m) in zip(done, who):
        if s.crashed:
            obs[a].append(["crash", v + " of " + m.hex(), "crash"])
        elif s.ev[1] is None:
            obs[a].append([v, "x" + m.hex(), "not accepted"])
        else:
            obs[a].append([v, "x" + m.hex(), s.ev[2][2]])
    for g in gens:
        for i, (v, m) in g.meaning.items():
            if i in out:
                obs[g.tag].append([v, "x" + m.hex(), out[i][0]])
            else:
                obs[g.tag].append(["crash", v + " of " + m.hex(), crash or "?"])
                break
    names = list(TYPES)
    tr = [obs[a] for a in names]

    def describe(i, l):
        e = tr[i][l]
        p = [x for x in tr[i][:l] if x[1] == e[1]][:3] or [x for x in tr[i][:l] if x[2] == e[2]][:3]
        return "%s: bytes %s carried by %s give %s, but %s" % (names[i], e[1], e[0], e[2], short(p)), {"algorithm": names[i], "event": e, "before": p}
    validate(ctx, "AgreeTrace", tr, describe, cfg=AGREE % "TRUE")
    ctx.cov["digests_compared"] = sum(len(t) for t in tr)
    ctx.cov["distinct_messages"] = sum(len(m) for m in msgs.values())
    ctx.cov["kinds_of_carrier"] = len({e[0] for t in tr for e in t})
    for t in tr[:1] + tr[-1:]:
        ctx.sample(short(t, 300))
