"""C17: digest values are totally ordered byte strings."""
from val import *


def run(ctx):
    rng = ctx.rng
    facts(ctx)
    exe, alt = both(ctx, "val", val_units(lambda g: ["-DVERIF_HEXONLY", "-DVERIF_FEWCHARS"], more=True, big=True))
    ctx.log("built")
    S = []
    for t, n in TYPES.items():
        s = VSess(t + ": default values")
        for how in range(3):
            s.zero(t, how)
        S.append(s)
        s = VSess(t + ": prefixes and suffixes")
        for _ in range((6 if n < 100 else 1) if not THOROUGH else 100):
            v = val_bytes(rng, n)
            s.cuts(t, 0, v).cuts(t, 1, v)
        v = bytes(i % 251 for i in range(1, n + 1))
        s.cuts(t, 0, v).cuts(t, 1, v)
        S.append(s)
        s = VSess(t + ": one byte decides")
        for i in range(n) if n < 100 or THOROUGH else sorted({0, 7, 8, 63, 64, 127, 128, 254, 255, n - 1, n - 2, *rng.sample(range(n), 30)}):
            for a, b in ((0, 1), (0x7f, 0x80), (0x80, 0x7f), (0, 0xff), (0xff, 0), (1, 0x80), (0xfe, 0xff)):
                p, q, r = rng.randbytes(i), rng.randbytes(n - i - 1), rng.randbytes(n - i - 1)
                s.cmp(t, p + bytes([a]) + q, p + bytes([b]) + r)
                if a == 0:
                    s.cmp(t, p + bytes([b]) + q, p + bytes([a]) + q)
        S.append(s)
        s = VSess(t + ": every pair of leading bytes")
        for a in range(0, 256, (15 if n < 100 else 51) if not THOROUGH else 3):
            for b in range(0, 256, 15 if not THOROUGH else 3):
                s.cmp(t, bytes([a]) + bytes(n - 1), bytes([b]) + bytes([rng.choice((0, 255))]) * (n - 1))
        S.append(s)
        s = VSess(t + ": equal and nearly equal values")
        for _ in range(40):
            v = val_bytes(rng, n)
            s.cmp(t, v, v)
            w = bytearray(v)
            w[rng.choice((0, n - 1, rng.randrange(n)))] ^= 1 << rng.randrange(8)
            s.cmp(t, v, bytes(w)).cmp(t, bytes(w), v)
        S.append(s)
    decide_val(ctx, exe, S, alt=alt)
