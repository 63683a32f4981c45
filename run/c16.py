"""C16: hexadecimal digest text round-trips."""
from val import *
from ct import Gen, build_gen, run_gen

LIT = {"_hash": None, "_sha224": 28, "_sha256": 32, "_sha384": 48, "_sha512": 64, "_sha512_224": 28, "_sha512_256": 32, "_sha3_224": 28, "_sha3_256": 32, "_sha3_384": 48,
       "_sha3_512": 64, "_shake128": None, "_shake256": None, "_xxh32": 4, "_xxh64": 8}


def casing(rng, t):
    k = rng.randrange(3)
    return t if k == 0 else t.upper() if k == 1 else "".join(rng.choice((c, c.upper())) for c in t)


def literals(rng):
    """the user-defined literals and the constructors that deduce the length, in every character width"""
    g = Gen("lits")
    g.pre.append("using namespace cthash::literals;\ntemplate <typename V> [[gnu::noinline]] void ready(const char * id, const V & v) { std::fprintf(ct::out, \"%s x\", id); ct::hex(v); std::fputc('\\n', ct::out); }")
    for lit, n in LIT.items():
        for L in ([n] * 6 if n else [1, 2, 3, 5, 8, 13, 16, 20, 31, 32, 33, 64, 65, 100]):
            for pre in ("", "u8", "u", "U", "L"):
                t = casing(rng, val_bytes(rng, L).hex())
                g.case('ready(@ID@, %s"%s"%s);' % (pre, t, lit), (t, "%s literal with prefix '%s'" % (lit, pre)))
    for L in (1, 2, 3, 7, 16, 20, 33, 64, 100):
        for pre in ("", "u8", "u", "U", "L"):
            t = casing(rng, val_bytes(rng, L).hex())
            g.case('ready(@ID@, cthash::hash_value(%s"%s"));' % (pre, t), (t, "hash_value of a literal with prefix '%s'" % pre))
            g.case('ready(@ID@, cthash::hash_value(cthash::fixed_string(%s"%s")));' % (pre, t), (t, "hash_value of a fixed_string with prefix '%s'" % pre))
    for ty, n in (("sha256_value", 32), ("sha3_224_value", 28), ("xxhash64_value", 8), ("sha512t_value<56>", 7), ("shake256_value<72>", 9), ("shake128_value<128>", 16)):
        for pre in ("", "u8", "u", "U", "L"):
            t = casing(rng, val_bytes(rng, n).hex())
            g.case('ready(@ID@, cthash::%s{%s"%s"});' % (ty, pre, t), (t, "%s of a literal with prefix '%s'" % (ty, pre)))
    return g


def run(ctx):
    rng = ctx.rng
    facts(ctx)
    g = literals(rng)
    with ThreadPoolExecutor(3) as ex:
        f3 = ex.submit(build_alt, ctx, "val20", val_units(lambda g: ["-DVERIF_HEXONLY"], big=True), ("-O0", "-std=c++20"), ())
        f1 = ex.submit(build, ctx, "val", val_units(lambda g: ["-DVERIF_HEXONLY"], big=True), ["-O0"])
        f2 = ex.submit(build_gen, ctx, "lits", [g], ["-O0"])
        exe, lit, exe20 = f1.result(), f2.result(), f3.result()
    ctx.log("built")
    S = []
    for t, n in TYPES.items():
        s = VSess(t + ": every byte value in text")
        for b in range(0, 256, 1 if n < 100 else 16):
            v = bytes((b + 37 * i) % 256 for i in range(n))
            s.parse(t, b % 3, b % 5, casing(rng, v.hex()))
            if defenc(t) == "base16":
                s.show(t, b % 5, b % 2, v)
            s.showas(t, 6, b % 5, "base16", v)
        S.append(s)
        s = VSess(t + ": every digit at every position")
        for i in range(2 * n) if n < 100 else rng.sample(range(2 * n), 40):
            for c in rng.sample("0123456789abcdefABCDEF", 3 if n > 8 else 22):
                x = list(casing(rng, val_bytes(rng, n).hex()))
                x[i] = c
                s.parse(t, rng.randrange(3), rng.randrange(5), "".join(x))
        S.append(s)
        s = VSess(t + ": round trips")
        for i in range((60 if n < 100 else 6) if not THOROUGH else 600):
            v = val_bytes(rng, n)
            for chart in range(5):
                s.parse(t, i % 3, chart, casing(rng, v.hex()))
            for how in range(5):
                if defenc(t) == "base16":
                    s.show(t, how, i % 2, v)
            for how in (0, 1, 2):
                s.showas(t, how, rng.randrange(5), "base16", v)
        S.append(s)
    decide_val(ctx, exe, S, alt=exe20, how="C++20")
    out, crash = run_gen(ctx, lit, [g])
    L = VSess("literals")
    for i, (t, what) in g.meaning.items():
        if i in out:
            L.ev.append(["parse", what, [ord(c) for c in t], list(bytes.fromhex(out[i][0][1:]))])
        else:
            L.ev.append(["crash", what, crash or "?"])
            break
    tr = [L.ev]
    validate(ctx, "ValueTrace", tr, describe_sessions([L], tr), name="ValueTrace-literals")
    ctx.note("observations", len(L.ev))
