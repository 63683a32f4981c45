"""C05: xxHash32 / xxHash64 for every seed."""
from gen import *


def run(ctx):
    exe, alt = both(ctx, "drv", units("xxh", lean=False))
    rng = ctx.rng
    S = []
    for name, bits in (("xxh32", 32), ("xxh64", 64)):
        B = Alg(name).block
        seeds = [0, 1, (1 << (bits - 1)), (1 << bits) - 1, 0x9E3779B1, (1 << (bits - 1)) - 1, 0xffff0000] + [rng.getrandbits(bits) for _ in range(12 if not THOROUGH else 100)]
        if bits == 64:
            seeds += [1 << 32, (1 << 32) - 1, 0xffffffff00000000]
        for sd in seeds:
            a = Alg(name, seed=sd)
            S += prefixes(rng, a, 9 * B + 3, 40)
            S += messages(rng, a, 40 if not THOROUGH else 300, big=20)
            S += long_messages(rng, a, [255, 256, 257, 300, 511, 512, 1000, 1024, 2049])
            for i in range(30):
                L = length(rng, B, 20)
                S.append(Sess("%r: one-shot on %d bytes" % (a, L)).oneshot(1, a, blob(rng, L), via=i % 6))
            for i in range(24):
                # update_and_final on an object that holds something, and what it leaves behind
                s = Sess("%r: update_and_final in the middle" % a).new(1, a)
                for j in range(rng.randrange(1, 4)):
                    if rng.random() < 0.6:
                        s.upd(1, blob(rng, length(rng, B, 4)))
                    s.uaf(1, blob(rng, length(rng, B, 4)), via=rng.choice((0, 1, 2, 4)))
                S.append(s.fin(1))
        a = Alg(name, seed=rng.getrandbits(bits))
        S += long_messages(rng, a, [4096, 65535, 65536, 65537])
        S.append(Sess("%r: one-shot on 5000 bytes" % a).oneshot(1, a, stream(7, 5000)))
    decide(ctx, exe, S, alt=alt)
