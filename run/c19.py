"""C19: all textual renderings agree and encoding names select exactly."""
from val import *
from ct import build_gen, run_gen, Gen
from impl import refine, select

DOCUMENTED = ["base64", "base64_no_padding", "base64url", "base64_url", "base32", "base32_no_padding", "z_base32", "zbase32", "base16", "hexdec", "BASE16", "HEXDEC",
              "base8", "octal", "base4", "base2", "binary"]
ABC = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


def near(rng, thorough):
    """names that are not documented but look like it (a few of them may be: the specification decides)"""
    out = set()
    for n in DOCUMENTED:
        out |= {n[:k] for k in range(1, len(n))}
        out |= {n[k:] for k in range(1, len(n))}
        out |= {n + c for c in ("x", " ", "_", "0", "\0", "\0\0\0", "}}"[:0] + "=", "e")} | {c + n for c in (" ", "x", "\0", ":", "<", "0", "_")}
        for k in range(len(n)):
            out.add(n[:k] + n[k + 1:])
            for c in (rng.sample(ABC, 3) if not thorough else ABC):
                out.add(n[:k] + c + n[k + 1:])
            out.add(n[:k] + n[k].swapcase() + n[k + 1:])
            out.add(n[:k] + "\0" + n[k + 1:])
        out |= {n.upper(), n.lower(), n.capitalize(), n + n, n.replace("_", "-"), n.replace("_", ""), n + "_no_padding", n + "_no_padding_"}
        out |= {n + "A" * k for k in (8, 20, 60, 200, 5000)}
        out.add(n + "\0" * 40)
    for a in DOCUMENTED:
        for b in rng.sample(DOCUMENTED, 4):
            out.add(a + b)
            out.add(a[:len(a) // 2] + b[len(b) // 2:])
    out |= {"x", "s", "d", "X", "#x", "0", "10", ">10", "*^80", ".5", "base1", "base58", "base85", "base36", "base", "hex", "dec", "BASE64", "Base16", "Hexdec", "OCTAL", "BINARY",
            "base32hex", "base32_hex", "z-base-32", "zbase_32", "z_base_32", "crockford", "b64", "url", "raw", "base16_uppercase", "{", "{0", "base64{"}
    return sorted(x for x in out if "}" not in x)


def wide(rng):
    """characters that agree with a documented name only in their low bits"""
    out = set()
    for n in DOCUMENTED:
        for hi in (0x100, 0x2000, 0x10000, 0x80):
            k = rng.randrange(len(n))
            out.add(n[:k] + chr(ord(n[k]) + hi) + n[k + 1:])
            out.add("".join(chr(ord(c) + hi) for c in n))
        out.add(n + chr(0x100))
        out.add(chr(0x100) + n)
    return sorted(out)


def narrow(rng):
    out = set()
    for n in DOCUMENTED:
        k = rng.randrange(len(n))
        out.add(n[:k] + "\x80" + n[k + 1:])
        out.add(n[:k] + "\xff" + n[k + 1:])
        out.add(n[:k] + chr(ord(n[k]) | 0x80) + n[k + 1:])
    return sorted(out)


def c_str(name):
    return '"' + "".join(c if c in ABC else "\\%03o" % ord(c) for c in name) + '"'


def compiled(rng, names):
    """names in format strings checked by the compiler, and std::format with literal format strings"""
    g = Gen("fmt")
    types = [("sha256_value", 32, "base16"), ("shake128_value<72>", 9, "base16"), ("hash_value<3>", 3, "base16"), ("own", 11, "base32")]
    g.pre.append("struct own_tag { static constexpr size_t digest_length = 11; using encoding = cthash::encoding::base32; };\nnamespace cthash { using own = cthash::tagged_hash_value<::own_tag>; }")
    for i, n in enumerate(names):
        for c, L in (("", ""), ("w", "L")):
            g.pre.append("template <typename V> concept takes_%d%s = requires { typename std::bool_constant<(std::%sformat_string<const V &>(%s%s), true)>::type; };" % (i, c, c, L, '"{:' + c_str(n)[1:-1] + '}"'))
    g.pre.append("template <typename V, typename S> void fmt(const char * id, const S & s) { std::fprintf(ct::out, \"%s t\", id); for (auto c: s) std::fprintf(ct::out, \" %lu\", static_cast<unsigned long>(c)); std::fputc('\\n', ct::out); }")
    for i, n in enumerate(names):
        for t, ln, d in types[:2] if len(n) > 20 else types:
            for c in ("", "w"):
                g.case("std::fprintf(ct::out, \"%%s %%d\\n\", @ID@, int(takes_%d%s<cthash::%s>));" % (i, c, t), ("takes", t, d, n, c))
    for n in [""] + DOCUMENTED:
        for t, ln, d in types:
            b = rng.randbytes(ln)
            init = "std::array<unsigned char, %d>{%s}" % (ln, ",".join(map(str, b)))
            for L in ("", "L"):
                fs = '%s"<{%s}|{:%s}>"' % (L, ":" + n if n else "", n)
                g.case("{ cthash::%s v{}; auto a = %s; for (size_t i = 0; i < a.size(); ++i) v[i] = std::byte(a[i]); fmt<int>(@ID@, std::format(%s, v, v)); }" % (t, init, fs),
                       ("text", t, d, "<{%s}|{:%s}>" % (":" + n if n else "", n), b, L))
    return g


def run(ctx):
    rng = ctx.rng
    facts(ctx)
    refine(ctx, [select(6 if not THOROUGH else 7)])
    cnames = rng.sample(near(rng, False), 120) + DOCUMENTED + ["base64_no_paddingX", "base64_no_padding" + "A" * 100, "base3", "BASE64"]
    cnames = sorted({n for n in cnames if len(n) < 200 and all(32 < ord(c) < 127 for c in n) and "{" not in n})
    g = compiled(rng, cnames)
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(build, ctx, "val", val_units(lambda g: [] if g in (0, 7) else ["-DVERIF_FEWCHARS"]), ["-O0"])
        f2 = ex.submit(build_gen, ctx, "fmt", [g], ["-O0"])
        exe, fx = f1.result(), f2.result()
    ctx.log("built")
    S = []
    for t, n in TYPES.items():
        s = VSess(t + ": every way, every encoding")
        for r in range(2 if not THOROUGH else 12):
            v = val_bytes(rng, n)
            for how in range(5):
                for chart in range(2):
                    s.show(t, how, chart, v)
            for enc in NAMES:
                for how in range(9):
                    for chart in range(5):
                        s.showas(t, how, chart, enc, v)
        for enc in NAMES:
            for chart in range(2):
                for f in ("{}", "{:}", "{:%s}" % enc, "{:x}"):
                    s.fmtview(t, chart, chart, enc, f, val_bytes(rng, n))
        S.append(s)
        s = VSess(t + ": fixed strings as strings")
        for enc in NAMES:
            for chart in range(5):
                v = val_bytes(rng, n)
                w = bytearray(v)
                w[rng.choice((0, n - 1, rng.randrange(n)))] ^= 1 << rng.randrange(8)
                tx = lib_text(enc, v)
                k = rng.randrange(len(tx))
                for u, x in ((v, tx), (bytes(w), tx + "\0"), (v, tx[:-1]), (bytes(w), tx + tx[-1]), (v, tx[:k] + chr(ord(tx[k]) ^ 1) + tx[k + 1:]), (v, tx[:k] + "\0" + tx[k + 1:]), (v, "\0" + tx), (v, ""), (v, tx[:-1] + "\0")):
                    s.fseq(t, chart, enc, v, u, x)
        S.append(s)
        s = VSess(t + ": every documented name")
        for name in [""] + DOCUMENTED:
            for chart in range(2):
                v = val_bytes(rng, n)
                for f in ("{:%s}", "{0:%s}", "{2:%s}", "a{:%s}b", "{{{:%s}}}", "{:%s}{:base64}", "{:base2}{:%s}{}", "{1:%s}{1}", "{:%s", "{:%s}}", "{{:%s}", "{{:%s}}", "{9:%s}", "{:%s}{:%s}{:%s}{}", "{:%s}{:wrong}"):
                    s.format(t, rng.randrange(4), chart, f.replace("%s", name), v)
        S.append(s)
    types = list(TYPES)
    names = near(rng, THOROUGH)
    for lo in range(0, len(names), 100):
        s = VSess("nearly documented names %d.." % lo)
        for name in names[lo:lo + 100]:
            for chart in range(2):
                t = rng.choice(("hash_value<3>", "sha256_value", "shake128_value<256>", "own_tag_value", "xxhash32_value"))
                s.format(t, 0, chart, "{:%s}" % name, val_bytes(rng, TYPES[t]))
        S.append(s)
    s = VSess("characters of other widths")
    for name in wide(rng):
        s.format("hash_value<2>", 0, 1, "{:%s}" % name, val_bytes(rng, 2)).format("sha256_value", 0, 1, "{:%s}" % name, val_bytes(rng, 32))
    for name in narrow(rng):
        s.format("hash_value<2>", 0, 0, "{:%s}" % name, val_bytes(rng, 2))
    S.append(s)
    s = VSess("random names")
    for _ in range(300 if not THOROUGH else 5000):
        name = "".join(rng.choice(ABC) for _ in range(rng.randrange(1, 20)))
        s.format("hash_value<1>", 0, rng.randrange(2), "{:%s}" % name, b"\x5a")
    S.append(s)
    decide_val(ctx, exe, S)
    out, crash = run_gen(ctx, fx, [g])
    L = VSess("format strings checked by the compiler")
    for i, m in g.meaning.items():
        if i not in out:
            L.ev.append(["crash", str(m), crash or "?"])
            break
        o = out[i]
        if m[0] == "takes":
            _, t, d, n, c = m
            # whether it is taken: "some encoding" or rejected; which one is decided by the texts
            L.ev.append(["takes", "%s, %sformat_string" % (t, c), d, [ord(x) for x in n], o[0] == "1"])
        else:
            _, t, d, fs, b, c = m
            L.ev.append(["format", "%s, literal %s" % (t, c), d, [ord(x) for x in fs], list(b), [int(x) for x in o[1:]]])
    tr = [L.ev]
    validate(ctx, "ValueTrace", tr, describe_sessions([L], tr), name="ValueTrace-compiled")
    ctx.note("observations", len(L.ev))
