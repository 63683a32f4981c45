"""C22: the single-header distribution behaves like the modular headers."""
from val import *
from gen import *
from ct import Gen, build_gen, run_gen, AGREE
import c07, c16, c19

SH = ["-DVERIF_SINGLE_HEADER"]
WAYS = (("modular headers", []), ("single header", SH))


# the types of some of the groups of val_reg.cpp
GROUPS = (0, 3, 6, 7)
VTYPES = {t: TYPES[t] for t in ("hash_value<1>", "hash_value<2>", "hash_value<3>", "sha224_value", "sha256_value", "xxhash64_value", "sha3_384_value", "sha3_512_value", "shake128_value<256>",
                                "shake256_value<64>", "own_tag_value", "own_tag2_value", "sha512t_value<256>")}


def raw(ctx, exe, S, tag, timeout=250):
    """output lines of each session, as they are"""
    cmdf, outf = ctx.path("c%s.txt" % tag), ctx.path("o%s.txt" % tag)
    with open(cmdf, "w") as f:
        for s in S:
            f.write("\n".join(s.cmds) + "\n")
    try:
        r = subprocess.run([exe, cmdf, outf, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    if r.returncode == 9:
        raise CheckError("driver: " + r.stdout[-1500:])
    lines = open(outf).read().split("\n")
    out, i = [], 0
    for s in S:
        got = lines[i:i + len(s.pend)]
        out.append(got)
        i += len(s.pend)
        if len(got) < len(s.pend) or any(g.startswith("X") or g == "" for g in got):
            break
    return out


def compare(ctx, name, S, a, b):
    """one trace per session: what each distribution made of the same commands"""
    tr = []
    for k, s in enumerate(S):
        t = []
        x = a[k] if k < len(a) else None
        y = b[k] if k < len(b) else None
        if x is None and y is None:
            break
        x, y = x or [], y or []
        n = max(len(x), len(y))
        for j in range(n):
            p, q = (v[j] if j < len(v) else "nothing" for v in (x, y))
            if p.split(" ")[0].strip() == "-" or q.split(" ")[0].strip() == "-" or p.endswith(" -") or q.endswith(" -"):
                continue        # not offered by one of them
            t.append([WAYS[0][0], "observation %d" % (j + 1), p])
            t.append([WAYS[1][0], "observation %d" % (j + 1), q])
        if t:
            tr.append((s, t))
        if x is None or y is None or len(x) != len(y):
            break
    T = [t for _, t in tr]

    def describe(i, l):
        e = T[i][l]
        p = [v for v in T[i][:l] if v[1] == e[1]]
        return "%s, %s: %s gives %s, but %s" % (tr[i][0].tag, e[1], e[0], e[2][:300], short(p)), {"session": str(tr[i][0].tag), "commands": tr[i][0].cmds, "event": e, "before": p}
    validate(ctx, "AgreeTrace", T, describe, cfg=AGREE % "FALSE", name="Agree-" + name)
    ctx.note("observations", sum(len(t) for t in T))
    ctx.sample(short(T[0][:2]))


def hash_sessions(rng):
    S = []
    for a in SHA2 + [x for x in SHA512T if x.param in (8, 56, 96, 224, 256, 504)] + SHA3 + SHAKE + XXH + [Alg("xxh32", seed=rng.getrandbits(32)), Alg("xxh64", seed=rng.getrandbits(64))]:
        ns = (32,) if a.xof else (0,)
        S += prefixes(rng, a, 2 * a.block + 3, 12, ns=ns)
        S += messages(rng, a, 40 if not THOROUGH else 600, ns=(1, 8, 32, 200) if a.xof else ns)
        S += long_messages(rng, a, [255, 256, 257, 4096, 65536, 70001, 1 << 20])
        for i in range(60 if not THOROUGH else 600):
            s = Sess("%r: random pieces" % a)
            s.new(1, a)
            for _ in range(rng.randrange(1, 8)):
                L = rng.choice((0, 1, a.block - 1, a.block, a.block + 1, rng.randrange(3 * a.block), 256, 1000))
                s.upds(1, rng.randrange(1, 1 << 20), 0, L, via=rng.randrange(3))
                if rng.random() < 0.3:
                    s.copy(1, 2).fin(2, 32 if a.xof else 0)
                s.size(1)
            s.fin(1, 32 if a.xof else 0)
            S.append(s)
    return S


def enc_sessions(rng):
    S = []
    for n in NAMES:
        for L in list(range(0, 18)) + [31, 32, 33, 64, 100]:
            s = ESess("%s: %d bytes" % (n, L))
            for form in FORMS:
                s.text(n, rng.randbytes(L), form=form, cn=form % 2)
            for chart in range(1, 5):
                s.text(n, rng.randbytes(L), chart=chart, cn=1)
            S.append(s)
        s = ESess("%s: every byte" % n)
        for b in range(256):
            s.text(n, bytes([b]))
        S.append(s)
        for L in (0, 1, 3, 4, 5, 7, 10):
            s = ESess("%s: iterators over %d bytes" % (n, L))
            s.view(n, rng.randbytes(L), form=rng.choice(MUTABLE)).iter().size().begin(1).copy(1, 2)
            for _ in range(3):
                s.end(1)
                if L:
                    s.deref(1).post(1, 3).deref(3)
                    L = 0
            s.iter()
            S.append(s)
    return S


def val_sessions(rng):
    S = []
    names = c19.near(rng, False)
    for t, n in VTYPES.items():
        s = VSess(t + ": texts")
        for i in range(30):
            v = val_bytes(rng, n)
            s.parse(t, i % 3, i % 5, c16.casing(rng, v.hex())).show(t, i % 5, i % 2, v).showas(t, rng.choice((0, 1, 2, 6)), i % 2, "base16", v)
        for i in range(3):
            s.zero(t, i)
        S.append(s)
        s = VSess(t + ": comparisons")
        for _ in range(40):
            v, w = val_bytes(rng, n), val_bytes(rng, n)
            u = bytearray(v)
            u[rng.randrange(n)] ^= 1 << rng.randrange(8)
            s.cmp(t, v, w).cmp(t, v, v).cmp(t, v, bytes(u)).cmp(t, bytes(u), v)
        s.cuts(t, 0, v).cuts(t, 1, v)
        S.append(s)
        s = VSess(t + ": formats")
        for name in [""] + c19.DOCUMENTED + rng.sample(names, 60):
            for chart in range(2):
                s.format(t, rng.randrange(2), chart, rng.choice(("{:%s}", "<{0:%s}>", "{:%s}{}")) % name, val_bytes(rng, n))
        S.append(s)
    for fn in (128, 256):
        for a in SHAKE_BITS:
            for b in SHAKE_BITS:
                s = VSess("shake%d_value<%d> with <%d>" % (fn, a, b))
                A, B = a // 8, b // 8
                m = min(A, B)
                for _ in range(3):
                    x, y = bytearray(val_bytes(rng, A)), bytearray(val_bytes(rng, B))
                    y[:m] = x[:m]
                    s.xcmp(fn, bytes(x), bytes(y))
                    y[rng.randrange(m)] ^= 1 << rng.randrange(8)
                    s.xcmp(fn, bytes(x), bytes(y))
                S.append(s)
    lo = 0
    for lo in range(0, len(names), 60):
        s = VSess("names %d.." % lo)
        for name in names[lo:lo + 60]:
            s.format("hash_value<3>", 0, rng.randrange(2), "{:%s}" % name, val_bytes(rng, 3))
        S.append(s)
    s = VSess("wide names")
    for name in c19.wide(rng):
        s.format("hash_value<2>", 0, 1, "{:%s}" % name, val_bytes(rng, 2))
    S.append(s)
    return S


ALONE = """#include <%s>
int main() {
	using namespace cthash::literals;
	const auto a = cthash::sha256{}.update("abc").final();
	const auto b = cthash::shake128{}.update("abc").final<256>();
	return int(a.size() + b.size() + cthash::simple<cthash::xxhash64>("abc").size() + (a | cthash::base64_encode).size() + "00ff"_hash.size());
}
"""


def alone(ctx):
    """each distribution is all a program needs to include"""
    t = []
    for (w, fl), h in zip(WAYS, ("cthash/cthash.hpp", "cthash-single-header.hpp")):
        p = ctx.path("alone%d.cpp" % len(t))
        with open(p, "w") as f:
            f.write(ALONE % h)
        r = subprocess.run([CXX, "-std=c++23", "-w", "-fsyntax-only", "-I", os.path.join(REPO, "include"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        e = [x for x in r.stdout.split("\n") if "error:" in x]
        if broken(r):
            raise CheckError(r.stdout[-2000:])
        t.append([w, "a program that includes nothing else", "accepted" if r.returncode == 0 else "rejected" + "".join(" | " + x for x in e[:2])])
    if t[0][2] != "accepted" and t[1][2] != "accepted":
        return                  # not a difference
    validate(ctx, "AgreeTrace", [t], lambda i, l: ("%s is %s by the %s" % (t[l][1], t[l][2], t[l][0]), {"events": t}), cfg=AGREE % "FALSE", name="alone")


def run(ctx):
    rng = ctx.rng
    alone(ctx)
    HS, ES, VS = hash_sessions(rng), enc_sessions(rng), val_sessions(rng)
    gens = [c07.hash_unit(rng, a, False) for a in rng.sample(["sha224", "sha256", "sha384", "sha512", "sha512_56", "sha3_224", "sha3_256", "sha3_512", "shake128", "shake256", "xxh32", "xxh64"], 4 if not THOROUGH else 12)] + \
           [c16.literals(rng)]
    exes = {}
    with ThreadPoolExecutor(8) as ex:
        for i, (w, fl) in enumerate(WAYS):
            exes[i] = [ex.submit(build, ctx, "drv%d" % i, units("sha2", "sha3", "shake", "xxh", "sha512t_some", extra=["-DVERIF_N128=1,8,32,200", "-DVERIF_N256=1,8,32,200"]), fl + ["-O0"]),
                       ex.submit(build, ctx, "enc%d" % i, enc_units(), fl + ["-O0"]),
                       ex.submit(build, ctx, "val%d" % i, [u for u in val_units(lambda g: ["-DVERIF_HEXONLY", "-DVERIF_FEWCHARS"]) if u[2] == "main" or int(u[2][1:]) in GROUPS], fl + ["-O0"]),
                       ex.submit(build_gen, ctx, "ct%d" % i, gens, fl + ["-O0"])]
        cts = {}
        for i in exes:
            try:
                cts[i] = exes[i].pop().result()
            except CompileError as e:
                cts[i] = e
        exes = {i: [f.result() for f in fs] for i, fs in exes.items()}
    ctx.log("built")
    for name, k, S in (("hash", 0, HS), ("encodings", 1, ES), ("values", 2, VS)):
        a, b = raw(ctx, exes[0][k], S, name + "0"), raw(ctx, exes[1][k], S, name + "1")
        compare(ctx, name, S, a, b)
    # constant evaluation: both accept it, and with the same results
    bad = [i for i in cts if isinstance(cts[i], CheckError)]
    if len(bad) == 2:
        raise cts[0]
    for i in bad:
        build_gen(ctx, "rt%d" % i, gens, WAYS[i][1] + ["-O0", "-DVERIF_NO_CT"])      # an error here is not the property's
        ctx.violation("a computation is rejected in constant evaluation by one distribution only (%s): %s" % (WAYS[i][0], str(cts[i])[-1500:]), {"distribution": WAYS[i][0], "compiler": str(cts[i])[-6000:]})
        return
    outs = [run_gen(ctx, cts[i], gens)[0] for i in (0, 1)]
    C = []
    A, B = [], []
    for g in gens:
        for i, m in g.meaning.items():
            s = Sess(str(m))
            s.cmds = [str(m)]
            C.append(s)
            A.append([" ".join(outs[0][i])] if i in outs[0] else ["nothing"])
            B.append([" ".join(outs[1][i])] if i in outs[1] else ["nothing"])
    compare(ctx, "constant evaluation", C, A, B)
