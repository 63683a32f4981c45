"""C06: the digest is a function of the concatenation of the updates."""
from abst import *
from impl import *


def run(ctx):
    rng = ctx.rng
    exe, alt = both(ctx, "drv", alg_units())
    algs = all_algs(rng)
    hs = generate(ctx, 4, 1, 7, [])
    refine(ctx, [md(64, 8, 3), md(128, 16, 3), sponge(72, 8, 3, 0), sponge(16, 8, 3, 52), xxh(16, 4), xxh(32, 3)] +
           ([md(64, 8, 6), md(128, 16, 5), sponge(136, 8, 3, 0), sponge(168, 8, 3, 0), sponge(24, 8, 4, 100), xxh(32, 6)] if THOROUGH else []))
    S, top = [], {}
    for a in algs:
        B = a.block
        base = rng.randrange(1, 1 << 20)
        # every buffer fill p, every next piece of 0..2B+2 bytes
        top[a.drv] = max(top.get(a.drv, 0), 4 * B + 4)
        for p in range(B):
            s = ASess(a, "%r: %d bytes pending, then every piece size" % (a, p), base)
            s.new(1).upd(1, 0, 0, p).row(1, 0, 0, 2 * B + 2)
            S.append(s)
        # the same after whole blocks and one pending byte already
        for p in (1, B - 1):
            s = ASess(a, "%r: two pieces, %d bytes pending" % (a, p), base)
            s.new(1).upd(1, 0, 0, p).upd(1, 0, p, B).row(1, 0, 0, 2 * B + 2)
            S.append(s)
        # all histories of four pieces of boundary sizes
        base2 = rng.randrange(1, 1 << 20)
        sizes = [0, 1, B // 2, B - 1, B, B + 1, 2 * B + 3]
        for h in (hs if THOROUGH else rng.sample(hs, 700)):
            S.append(replay(a, h, sizes, base2))
        # long random histories of one stream with large and small pieces
        for i in range(25 if not THOROUGH else 300):
            s = ASess(a, "%r: random history %d" % (a, i), base2 + 100 + i % 5)
            s.new(1)
            off = 0
            for j in range(rng.randrange(2, 40)):
                n = rng.choice((0, 1, rng.randrange(0, B), rng.randrange(0, 3 * B), B, 2 * B, 3 * B, 255, 256, 257, 511, 512, 768, 1024,
                                rng.randrange(0, 5000), 4096, 8192)) if rng.random() < 0.97 else rng.choice((32767, 32768, 65535, 65536, 65537, 131072, 70000))
                if a.xx and rng.random() < 0.1:
                    s.uaf(1, 0, off, n, via=rng.choice((0, 1, 2, 4)))
                else:
                    s.upd(1, 0, off, n)
                off += n
                if rng.random() < 0.15:
                    s.peek(1)
            s.fin(1)
            S.append(s)
    decide_abstract(ctx, exe, S, rows_top=top, alt=alt)
