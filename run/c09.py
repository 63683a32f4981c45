"""C09: hash objects are independent values."""
from abst import *


def run(ctx):
    rng = ctx.rng
    exe, alt = both(ctx, "drv", alg_units())
    algs = all_algs(rng)
    hs = generate(ctx, 5 if THOROUGH else 4, 3, 3, ["copy", "move", "assign", "massign", "peek", "fin", "new"])
    S = []
    for a in algs:
        B = a.block
        base = rng.randrange(1, 1 << 20)
        for sizes in ([1, B - 1, 2 * B + 1], [B // 2, B, 3], [rng.randrange(1, B), rng.randrange(1, 2 * B), rng.randrange(1, 4 * B)]):
            for h in rng.sample(hs, 700 if not THOROUGH else 6000):
                S.append(replay(a, h, sizes, base if sizes[0] != 1 else base + 50))
        # split at every buffer fill, then diverge
        for p in range(2 * B):
            s = ASess(a, "%r: copied after %d bytes" % (a, p), base + 100 + 20 * (p // 16))
            s.new(1).upd(1, 0, 0, p).copy(1, 2).upd(2, 1, 0, B - 1 if p % 2 else 3).copy(1, 3).upd(1, 2, 0, rng.randrange(1, 2 * B)).move(2, 4)
            s.upd(3, 3, 0, rng.randrange(1, 2 * B)).upd(4, 4, 0, 1 + p % B).move(1, 5).upd(5, 5, 0, 7)
            for o in rng.sample((3, 4, 5), 3):
                s.fin(o, via=p % 2)
            S.append(s)
            if a.xx:
                s = ASess(a, "%r: update_and_final at %d bytes" % (a, p), base + 100 + 20 * (p // 16))
                s.new(1).upd(1, 0, 0, p).copy(1, 2).uaf(1, 1, 0, rng.randrange(0, 2 * B)).direct_peek(2).direct_peek(1).upd(1, 2, 0, rng.randrange(0, B)).uaf(2, 3, 0, 5, via=1).direct_peek(1).uaf(1, 4, 0, 0).direct_peek(2)
                S.append(s)
                # digests do not disturb the object; assignment over a used object
                s = ASess(a, "%r: repeated digests at %d bytes" % (a, p), base + 100 + 20 * (p // 16))
                s.new(1).upd(1, 0, 0, p).direct_peek(1).direct_peek(1, via=1).upd(1, 1, 0, 5).direct_peek(1)
                s.new(2).upd(2, 2, 0, rng.randrange(0, 3 * B)).assign(1, 2).assign(2, 2).upd(2, 3, 0, B).direct_peek(1).direct_peek(2, via=1).new(3).upd(3, 4, 0, 9).assign(2, 3, mv=True).upd(3, 5, 0, 2).direct_peek(3).direct_peek(1)
                S.append(s)
    decide_abstract(ctx, exe, S, alt=alt)
