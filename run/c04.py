"""C04: SHAKE-128 / SHAKE-256 with any output length."""
from gen import *
from impl import *


def lengths(r):
    near = set()
    for k in (1, 2, 3, 4):
        near |= set(range(k * r - 9, k * r + 10))
    return sorted(near | set(range(1, r + 40)) | {5 * r - 1, 5 * r, 5 * r + 1, 1000, 1024, 10 * r, 16 * r + 3, 4096, 32 * r + 8})


# beyond 8-bit counts of blocks, 16-bit counts of bytes and 8192-word counts
HUGE = {"shake128": [256 * 168 + 3, 65535, 65536 + 9], "shake256": [256 * 136 + 3, 65536 + 9]}


def run(ctx):
    rng = ctx.rng
    N = {"shake128": lengths(168), "shake256": lengths(136)}
    u = units()
    for a, other in (("shake128", "256"), ("shake256", "128")):
        for i in range(4):
            u.append(("alg_shake.cpp", ["-DVERIF_LEAN", "-DVERIF_NO_" + other, "-DVERIF_N%s=%s" % (a[5:], ",".join(map(str, N[a][i::4]))), '-DVERIF_SHAKE_TAG="_%d"' % i], "%s_%d" % (a, i)))
        u.append(("alg_shake.cpp", ["-DVERIF_LEAN", "-DVERIF_NO_" + other, "-DVERIF_N%s=%s" % (a[5:], ",".join(map(str, HUGE[a]))), '-DVERIF_SHAKE_TAG="_huge"'], "%s_huge" % a))
    exe, alt = both(ctx, "drv", u)
    shard = {a: {n: i for i in range(4) for n in N[a][i::4]} for a in N}
    al = {a: [Alg(a, drv="%s_%d" % (a, i)) for i in range(4)] for a in N}
    S = []
    for a in N:
        r = al[a][0].block
        # every instantiated length on messages of boundary lengths
        for L in (0, 1, 7, 8, 31, r - 2, r - 1, r, r + 1, 2 * r - 1, 2 * r, 3 * r + 5):
            k = rng.randrange(1, 1 << 20)
            for i in range(4):
                s = Sess("%s: all output lengths of shard %d, message of %d bytes" % (a, i, L))
                s.new(1, al[a][i]).upds(1, k, 0, L).peek(1, ns=N[a][i::4])
                S.append(s)
        # every message length up to two rates and a bit, several output lengths
        for i in range(4):
            for lo in range(0, 2 * r + 4, 14):
                s = Sess("%s: message lengths from %d" % (a, lo))
                s.new(1, al[a][i])
                k = rng.randrange(1, 1 << 20)
                if lo:
                    s.upds(1, k, 0, lo)
                for L in range(lo, min(lo + 14, 2 * r + 4)):
                    if L % 4 == i or THOROUGH:
                        s.peek(1, ns=(rng.choice(N[a][i::4]), rng.choice(N[a][i::4])))
                    if L + 1 < lo + 14:
                        s.upds(1, k, L, 1)
                S.append(s)
            S += messages(rng, al[a][i], 40 if not THOROUGH else 600, ns=N[a][i::4], big=6)
            S += [x for x in long_messages(rng, Alg(a, drv="%s_%d" % (a, shard[a][32])), [255, 256, 257, 1024, 4096])] if i == 0 else []
        for L in (0, rng.randrange(1, 2 * r)) if not THOROUGH else (0, 5, r, r - 1, 3 * r + 11):
            s = Sess("%s: outputs of %s bytes, message of %d bytes" % (a, HUGE[a], L))
            s.new(1, Alg(a, drv=a + "_huge")).upds(1, rng.randrange(1, 1 << 20), 0, L).peek(1, ns=HUGE[a])
            S.append(s)
    decide(ctx, exe, S, alt=alt)
    refine(ctx, [sponge(16, 8, 2, 70), sponge(24, 8, 2, 100)])
    ctx.cov["output_lengths"] = {a: len(N[a]) for a in N}
