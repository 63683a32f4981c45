"""C21: digest types of different algorithms are not interchangeable."""
from lib import *

LITS = {"_sha224": ("sha224", 224), "_sha256": ("sha256", 256), "_sha384": ("sha384", 384), "_sha512": ("sha512", 512), "_sha512_224": ("sha512t", 224), "_sha512_256": ("sha512t", 256),
        "_sha3_224": ("sha3_224", 224), "_sha3_256": ("sha3_256", 256), "_sha3_384": ("sha3_384", 384), "_sha3_512": ("sha3_512", 512), "_shake128": ("shake128", 0), "_shake256": ("shake256", 0),
        "_xxh32": ("xxh32", 32), "_xxh64": ("xxh64", 64)}


def run(ctx):
    rng = ctx.rng
    # the rule is what provenance needs, and nothing weaker will do
    cfg = "INIT Types_Init\nNEXT Types_Next\nINVARIANT Provenance\nCHECK_DEADLOCK FALSE\nCONSTANTS\nAlgs <- MCAlgs\nVars <- MCVars\nPermitted <- %s\n"
    tlc_ok(ctx, "TypesMC", cfg % "Strict", name="TypesMC-strict")
    r = tlc(ctx, "TypesMC", cfg % "Lapse", name="TypesMC-lapse")
    if "Invariant Provenance is violated" not in r.out:
        raise CheckError("a lapse of the rule should break provenance:\n" + tail(r.out))
    # what the compiler permits
    def one(g):
        exe = build(ctx, "typ%d" % g, [("typ.cpp", ["-DVERIF_GROUP=%d" % g], "main")], ["-O0"])
        return subprocess.run([exe], stdout=subprocess.PIPE, text=True, timeout=100).stdout.split("\n")
    S, tr = [], []

    class Tag:
        cmds = []
    with ThreadPoolExecutor(8) as ex:
        for g, lines in enumerate(ex.map(one, range(8))):
            ev = []
            for line in lines:
                f = line.split()
                if f and f[0] == "P":
                    ev.append(["permits", f[1], [f[2], int(f[3])], [f[4], int(f[5])], f[6] == "1"])
                elif f and f[0] == "Y":
                    # Y what alg bits size (alg bits)*
                    ev.append(["yields", f[1], [f[2], int(f[3])], [[f[i], int(f[i + 1])] for i in range(5, len(f) - 1, 2)], int(f[4])])
            t = Tag()
            t.tag = "group %d" % g
            S.append(t)
            tr.append(ev)
    ctx.note("judgements of the type checker", sum(len(t) for t in tr))
    # literals of wrong lengths
    jobs = []
    for lit, (a, bits) in LITS.items():
        n = bits // 4 or 64
        for k in sorted({n, n - 2, n + 2, n - 1, n + 1, 0, 2} if not THOROUGH else {n, n - 2, n + 2, n - 1, n + 1, 0, 1, 2, 3, 8, 16, 56, 64, 96, 128, n // 2, 2 * n}):
            jobs.append((lit, a, bits, k))
    src = []
    for i, (lit, a, bits, k) in enumerate(jobs):
        p = ctx.path("lit%d.cpp" % i)
        with open(p, "w") as f:
            f.write('#include LITHEADER\nusing namespace cthash::literals;\nauto v = "%s"%s;\n' % ("".join(rng.choice("0123456789abcdef") for _ in range(k)), lit))
        src.append(p)

    def compiles(p):
        text = open(p).read()
        for _ in range(3):
            r = subprocess.run([CXX, "-std=c++23", "-w", "-fsyntax-only", "-I", os.path.join(REPO, "include"), "-DLITHEADER=<cthash/cthash.hpp>", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if not broken(r):
                return r.returncode == 0
        raise CheckError("the compiler does not work: " + r.stdout[-2000:])
    with ThreadPoolExecutor(8) as ex:
        ok = list(ex.map(compiles, src))
    t = Tag()
    t.tag = "literals"
    S.append(t)
    tr.append([["literal", lit, [a, bits], k, y] for (lit, a, bits, k), y in zip(jobs, ok)])
    validate(ctx, "TypesTrace", tr, describe_sessions(S, tr))
    ctx.sample(short(tr[0][:3]))
    ctx.sample(short(tr[-1][:3]))
