"""C02: SHA-512/t for every byte-multiple t."""
from gen import *


def run(ctx):
    exe, alt = both(ctx, "drv", units("sha512t"))
    rng = ctx.rng
    S = []
    for i, a in enumerate(SHA512T):
        k = rng.randrange(1, 1 << 20)
        s = Sess("%r: prefixes" % a)
        s.new(1, a)
        pos = 0
        for L in sorted({0, 1, 3, 55, 56, 111, 112, 119, 120, 127, 128, 129, 239, 240, 255, 256} | {rng.randrange(0, 700) for _ in range(4 if not THOROUGH else 60)} | set(range(i % 5, 265, 5) if not THOROUGH else range(400))):
            if L > pos:
                s.upds(1, k, pos, L - pos)
                pos = L
            s.peek(1, via=rng.randrange(2))
        s.fin(1, via=1)
        S.append(s)
        S += messages(rng, a, 10 if not THOROUGH else 120, big=6)
    decide(ctx, exe, S, alt=alt)
    ctx.cov["t_values"] = len(SHA512T)
