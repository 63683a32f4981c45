"""Implementation-shaped machines (spec/*Impl.tla): TLC shows that they refine the abstract ones at the real
sizes, and rejects every deliberately wrong variant of them."""
from lib import *

INV = {"MdImpl": "IsMessage IsPadded", "SpongeImpl": "IsMessage IsSponge IsOutput", "XxhImpl": "IsMessage IsDigest", "ChunkImpl": "Queue Regrouped Complete",
       "SelectImpl": "IsMeaning IsAtEnd IsBounded", "FileImpl": "IsWhole IsRefused"}
BUGS = {"MdImpl": "rest-not-at-start used-kept fill-not-counted stale-tail length-one-short second-not-cleared",
        "SpongeImpl": "prefix-at-lane-start full-not-permuted last-overwrites squeeze-without-permutation",
        "XxhImpl": "length-low-bits accumulators-from-more",
        "ChunkImpl": "feed-at-equal pad-one-element pop-element pad-again",
        "SelectImpl": "empty-is-a-name rest-dropped low-bits up-to-nul name-is-prefix prefix-of-name brace-consumed full-stays",
        "FileImpl": "not-rewound whole-buffer overwritten short-is-end failure-is-end end-is-retried"}
LIVE = ("ChunkImpl", "SelectImpl", "FileImpl")       # and they end
SMALL = {"MdImpl": "B = 5 L = 2 MaxPiece = 11 MaxTotal = 23", "SpongeImpl": "R = 6 W = 2 MaxPiece = 13 MaxTotal = 19 MaxOut = 19",
         "XxhImpl": "S = 5 MaxPiece = 11 MaxTotal = 22", "ChunkImpl": "Ins = {8} Outs = {1,2,3,4,5,6,7,8} MaxLcm = 64", "SelectImpl": "MaxInput = 5", "FileImpl": "Step = 3 MaxFile = 8"}


def md(b, l, blocks):
    return ("MdImpl", "B = %d L = %d MaxPiece = %d MaxTotal = %d" % (b, l, 2 * b + 2, blocks * b + b // 8))


def sponge(r, w, blocks, out):
    return ("SpongeImpl", "R = %d W = %d MaxPiece = %d MaxTotal = %d MaxOut = %d" % (r, w, 2 * r + 2, blocks * r + 4, out))


def xxh(s, stripes):
    return ("XxhImpl", "S = %d MaxPiece = %d MaxTotal = %d" % (s, 2 * s + 3, stripes * s + 4))


def chunk(ins, outs):
    return ("ChunkImpl", "Ins = {%s} Outs = {%s} MaxLcm = 64" % (",".join(map(str, ins)), ",".join(map(str, outs))))


def select(n):
    return ("SelectImpl", "MaxInput = %d" % n)


def file(step, n):
    return ("FileImpl", "Step = %d MaxFile = %d" % (step, n))


def refine(ctx, models, workers=2):
    """models: (module, constants); accepted as built, rejected in every wrong variant (small constants)."""
    def one(j):
        i, mod, consts, bug = j
        cfg = ('SPECIFICATION Fair\nPROPERTY Ends\n' if mod in LIVE else 'INIT Init\nNEXT Next\n') + 'CONSTANTS %s Bug = "%s"\nINVARIANTS %s\n' % (consts, bug, INV[mod])
        return tlc(ctx, mod, cfg, workers=workers, name="%s-%d" % (mod, i), heap="2g")
    jobs = [(mod, c, "none") for mod, c in models]
    jobs += [(mod, SMALL[mod], b) for mod in sorted({m for m, _ in models}) for b in BUGS[mod].split()]
    jobs = [(i,) + j for i, j in enumerate(jobs)]
    with ThreadPoolExecutor(max(1, CPUS // workers)) as ex:
        for (i, mod, c, bug), r in zip(jobs, ex.map(one, jobs)):
            if bug == "none":
                if r.rc != 0 or "No error has been found" not in r.out:
                    raise CheckError("TLC rejected %s with %s:\n%s" % (mod, c, tail(r.out)))
                ctx.states += r.distinct
                ctx.transitions += r.generated
            elif r.rc == 0 or ("The behavior up to this point is" not in r.out and "Temporal property Ends was violated" not in r.out):
                raise CheckError("TLC did not reject %s with %s and the fault %s:\n%s" % (mod, c, bug, tail(r.out)))
    ctx.cov["implementation_machines"] = ctx.cov.get("implementation_machines", 0) + len(models)
    ctx.cov["faulty_variants_rejected"] = ctx.cov.get("faulty_variants_rejected", 0) + len(jobs) - len(models)


# the counters, over mathematical integers and for pieces of any size (Apalache: inductive invariant)
COUNT_BUGS = {("sha2", 64, 8): "total-32 piece-counted-32 piece-32 blocks-8 bits-32", ("xxh", 32, 8): "total-32 seen-16 short-32 piece-counted-8", ("keccak", 168, 0): "blocks-8 piece-32"}


def counters(ctx, kinds):
    """kinds: (kind, block, length field). The counters are right after every history; every wrong variant is rejected."""
    def one(j):
        i, (kind, b, lf), bug = j
        d = ctx.path("count%d" % i)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "c.cfg"), "w") as f:
            f.write('INIT %s\nNEXT Next\nINVARIANT Inv\nCONSTANTS\n  Kind = "%s"\n  B = %d\n  LF = %d\n  Bug = "%s"\n' % ("Both" if bug == "none" else "Init", kind, b, lf, bug))
        shutil.copy(os.path.join(SPEC, "CountImpl.tla"), d)
        env = dict(os.environ, JVM_ARGS="-Xmx2g -XX:ParallelGCThreads=1 -XX:CICompilerCount=2", HOME=d)
        try:
            r = subprocess.run(["apalache-mc", "check", "--config=c.cfg", "--length=%d" % (1 if bug == "none" else 4), "--out-dir=" + os.path.join(d, "out"), "CountImpl.tla"],
                               cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            raise CheckError("Apalache timed out on %r %s" % (kind, bug))
        return r.returncode, r.stdout
    jobs = [(k, "none") for k in kinds] + [(k, b) for k, bs in COUNT_BUGS.items() for b in bs.split()]
    jobs = [(i,) + j for i, j in enumerate(jobs)]
    with ThreadPoolExecutor(max(1, CPUS // 2)) as ex:
        for (i, k, bug), (rc, out) in zip(jobs, ex.map(one, jobs)):
            if bug == "none" and (rc != 0 or "The outcome is: NoError" not in out):
                raise CheckError("Apalache does not accept CountImpl for %r:\n%s" % (k, out[-2000:]))
            if bug != "none" and (rc != 12 or "The outcome is: Error" not in out):
                raise CheckError("Apalache does not reject CountImpl for %r with the fault %s:\n%s" % (k, bug, out[-2000:]))
    ctx.cov["counter_machines_inductive"] = len(kinds)
    ctx.cov["faulty_counters_rejected"] = len(jobs) - len(kinds)
