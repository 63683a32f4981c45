"""C10: the message length is accounted exactly, however large the input."""
from abst import *
from impl import counters

P = 77                      # the pattern the known answers are about
N1, N2 = (1 << 29) + 73, (1 << 32) + 100
PERIOD = 16 << 20


def slots():
    return SHA2 + [Alg("sha512t", 256)] + SHA3 + SHAKE


def sha2_pad(a, n):
    B, lb = (64, 8) if a.block == 64 else (128, 16)
    return b"\x80" + bytes((-(n + 1 + lb)) % B) + (8 * n).to_bytes(lb, "big")


class BSess(Sess):
    """commands plus explicit list of observations; events built afterwards"""
    __slots__ = ("obs", "mk", "alg")

    def __init__(self, tag, alg):
        super().__init__(tag)
        self.obs, self.mk, self.alg = [], [], alg

    def c(self, line):
        self.cmds.append(line)

    def new(self, o):
        self.c("N %d %s %d" % (o, self.alg.drv, self.alg.seed))

    def dig(self, o, consume=False):
        t = o
        if not consume:
            t = 9
            self.c("C %d 9" % o)
        self.fin(t, XOF_OUT if self.alg.xof else 0)
        return len(self.ev) - 1

    def sz(self, o):
        self.size(o)
        return len(self.ev) - 1


def inv(x, bits):
    return pow(x, -1, 1 << bits)


def fixed_stripe(name, seed):
    """the stripe that leaves the initial accumulators unchanged"""
    bits = 32 if name == "xxh32" else 64
    M = (1 << bits) - 1
    p = ([2654435761, 2246822519] if bits == 32 else [11400714785074694791, 14029467366897019727])
    r = 13 if bits == 32 else 31
    acc = [(seed + p[0] + p[1]) & M, (seed + p[1]) & M, seed, (seed - p[0]) & M]
    out = b""
    for a in acc:
        t = (a * inv(p[0], bits)) & M
        t = ((t >> r) | (t << (bits - r))) & M
        out += (((t - a) * inv(p[1], bits)) & M).to_bytes(bits // 8, "little")
    return out


def run(ctx):
    with ThreadPoolExecutor(1) as ex:       # the specification of the counters, beside everything else
        f = ex.submit(counters, ctx, [("sha2", 64, 8), ("sha2", 128, 16), ("xxh", 16, 4), ("xxh", 32, 8)] + [("keccak", r, 0) for r in ((168, 72) if not THOROUGH else (168, 144, 136, 104, 72))])
        try:
            decide(ctx)
        finally:
            f.result()


def decide(ctx):
    rng = ctx.rng
    L = ["-DVERIF_LEAN"]
    fast = dict(base=["-std=c++23", "-O3", "-march=native", "-g0", "-w", "-I", os.path.join(REPO, "include"), "-I", HARN])
    exe = build(ctx, "drv", [("main.cpp", L, "main"), ("alg_sha2.cpp", L, "sha2"), ("alg_sha3.cpp", L, "sha3"), ("alg_sha512t.cpp", L + ["-DVERIF_T=136,224,256"], "t"),
                             ("alg_shake.cpp", L + ["-DVERIF_N128=173", "-DVERIF_N256=173"], "shake"), ("alg_xxh.cpp", [], "xxh")], **fast)
    jobs = []       # (cost, session, builder)

    for a in slots():
        full = THOROUGH or a.name not in ("sha224", "sha384", "sha512t")
        # many pieces up to 2^29 + 73 bytes, then the padding of that message and a tail
        s = BSess("%r: pieces of at most 3000 bytes, %d bytes in all" % (a, N1), a)
        s.new(1)
        s.c("HC 1 s%d 0 %d 3000 %d" % (P, N1, rng.getrandbits(32)))
        z = s.sz(1)
        d = s.dig(1)
        if a.name in ("sha256", "sha512"):
            pad, tail = sha2_pad(a, N1), rng.randbytes(rng.randrange(0, 2 * a.block))
            s.upd(1, pad)
            s.upd(1, tail)
            d2, z2 = s.dig(1), s.sz(1)
            mk = lambda s, a=a, d=d, z=z, d2=d2, z2=z2, pad=pad, tail=tail: [["kat", a.name, a.param, limbs(N1), B(s, d)[:32 if a.xof else None]], size(s, z, N1),
                       ["lext", a.name, limbs(N1), B(s, d), list(pad), list(tail), B(s, d2)], size(s, z2, N1 + len(pad) + len(tail))]
        else:
            mk = lambda s, a=a, d=d, z=z: [["kat", a.name, a.param, limbs(N1), B(s, d)[:32 if a.xof else None]], size(s, z, N1)]
        jobs.append((1, s, mk))
        # one piece of more than 4 GiB after a few bytes
        if full:
            s = BSess("%r: 5 bytes, then one piece of %d bytes" % (a, N2 - 5), a)
            s.new(1)
            s.c("H 1 s%d 0 5" % P)
            s.c("H 1 s%d 5 %d" % (P, N2 - 5))
            z = s.sz(1)
            d = s.dig(1)
            if a.name in ("sha256", "sha512"):
                pad, tail = sha2_pad(a, N2), rng.randbytes(rng.randrange(0, 2 * a.block))
                s.upd(1, pad + tail)
                d2, z2 = s.dig(1), s.sz(1)
                mk = lambda s, a=a, d=d, z=z, d2=d2, z2=z2, pad=pad, tail=tail: [["kat", a.name, a.param, limbs(N2), B(s, d)[:32 if a.xof else None]], size(s, z, N2),
                           ["lext", a.name, limbs(N2), B(s, d), list(pad), list(tail), B(s, d2)], size(s, z2, N2 + len(pad) + len(tail))]
            else:
                mk = lambda s, a=a, d=d, z=z: [["kat", a.name, a.param, limbs(N2), B(s, d)[:32 if a.xof else None]], size(s, z, N2)]
            jobs.append((8, s, mk))
    # SHA-2 lengths that are not in the table: random ones beyond 2^29 bytes
    for a in (SHA2[1], SHA2[3]):
        for n in [rng.randrange(1 << 29, (1 << 29) + (1 << 27))] + ([rng.randrange(1 << 32, 6 << 30), rng.randrange(1 << 33, 9 << 30)] if THOROUGH else []):
            s = BSess("%r: one piece of %d bytes, then its padding and a tail" % (a, n), a)
            s.new(1)
            s.c("H 1 s%d 0 %d" % (P, n))
            z, d = s.sz(1), s.dig(1)
            pad, tail = sha2_pad(a, n), rng.randbytes(rng.randrange(1, 2 * a.block))
            s.upd(1, pad + tail)
            d2 = s.dig(1)
            jobs.append((n >> 29, s, lambda s, a=a, n=n, d=d, z=z, d2=d2, pad=pad, tail=tail: [size(s, z, n), ["lext", a.name, limbs(n), B(s, d), list(pad), list(tail), B(s, d2)]]))
    # xxHash: fixed-point stripes
    for name in ("xxh32", "xxh64"):
        a0 = Alg(name)
        bits = 32 if name == "xxh32" else 64
        for sd in [0, rng.getrandbits(bits)] + ([rng.getrandbits(bits) for _ in range(6)] if THOROUGH else []):
            a = Alg(name, seed=sd)
            st = fixed_stripe(name, sd)
            Bk = a.block
            for n in [(1 << 32) + 3, (1 << 32) + Bk - 1, (1 << 32), (1 << 32) - 1, rng.randrange(1 << 31, 1 << 33), (1 << 29) + 13] + ([(1 << 33) + 7, (1 << 34) + 1] if THOROUGH else []):
                for how in ("one", "pending", "many", "oneshot"):
                    s = BSess("%r: %d bytes, %s" % (a, n, how), a)
                    if how == "oneshot":
                        s.c("HO %s %d 0 x%s %d" % (a.drv, sd, st.hex(), n))
                        s.ev.append(["fin", 1, None])
                        s.pend.append(("o", 0))
                        d = 0
                    else:
                        s.new(1)
                        if how == "one":
                            s.c("H 1 x%s 0 %d" % (st.hex(), n))
                        elif how == "pending":
                            s.c("H 1 x%s 0 %d" % (st.hex(), Bk + 5))
                            s.c("H 1 x%s %d %d" % (st.hex(), Bk + 5, n - Bk - 5))
                        else:
                            s.c("HC 1 x%s 0 %d %d %d" % (st.hex(), n, 1 << 20, rng.getrandbits(32)))
                        d = s.dig(1)
                    r = n % Bk
                    jobs.append((0.5 * n / (1 << 30), s, lambda s, a=a, st=st, n=n, r=r, d=d: [["xrep", a.name, a.param, list(st), limbs(n // a.block), list(st[:r]), B(s, d)]]))

    # spread over the processors, dearest first
    jobs.sort(key=lambda j: -j[0])
    ctx.log("%d long messages" % len(jobs))
    results = [None] * len(jobs)

    def go(i):
        results[i] = run_driver(ctx, exe, [jobs[i][1]], timeout=800, tag="-%d" % i)[0]
    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(go, range(len(jobs))))
    traces, kept = [], []
    for (c, s, mk), r in zip(jobs, results):
        t = [["crash", str(s.ev)[:300]]] if r.crashed else [e for e in mk(r) if e]
        traces.append(t)
        kept.append(s)
    ctx.log("recorded")
    validate(ctx, "HashBigTrace", traces, describe_sessions(kept, traces))
    for t in traces[:3]:
        ctx.sample(short(t))
    # lengths around the 8- and 16-bit limits, reported sizes included
    S = []
    for a in all_algs(rng):
        base = rng.randrange(1, 1 << 20)
        for n in (255, 256, 257, 65535, 65536, 65537, 131072 + 5):
            for how in range(3):
                s = ASess(a, "%r: %d bytes, way %d" % (a, n, how), base)
                s.new(1)
                if how == 0:
                    s.upd(1, 0, 0, n)
                elif how == 1:
                    s.upd(1, 0, 0, 7).upd(1, 0, 7, n - 7)
                else:
                    o = 0
                    while o < n:
                        m = min(n - o, rng.randrange(0, 2000))
                        s.upd(1, 0, o, m)
                        o += m
                s.size(1).fin(1)
                S.append(s)
    decide_abstract(ctx, exe, S)


def B(s, i):
    return list(bytes.fromhex(s.ev[i][2]))


def size(s, i, n):
    return None if s.ev[i] is None else ["size", limbs(n), limbs(s.ev[i][2])]
