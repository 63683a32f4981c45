"""C18: SHAKE values of different lengths compare on their common prefix."""
from val import *


def run(ctx):
    rng = ctx.rng
    facts(ctx)
    exe, alt = both(ctx, "val", [("val.cpp", [], "main")])
    ctx.log("built")
    S = []
    for fn in (128, 256):
        for a in SHAKE_BITS:
            for b in SHAKE_BITS:
                s = VSess("shake%d_value<%d> with <%d>" % (fn, a, b))
                A, B = a // 8, b // 8
                m = min(A, B)
                for _ in range(4 if not THOROUGH else 60):
                    # same stream
                    x = val_bytes(rng, max(A, B))
                    s.xcmp(fn, x[:A], x[:B])
                    # common prefix, then different
                    y = x[:m] + rng.randbytes(B - m)
                    s.xcmp(fn, x[:m] + rng.randbytes(A - m), y)
                # one byte of the common prefix differs
                for i in sorted({0, m - 1, m // 2, min(7, m - 1), min(8, m - 1)} | set(rng.sample(range(m), min(m, 6 if not THOROUGH else 64)))):
                    for p, q in ((0, 1), (0x7f, 0x80), (0x80, 0x7f), (0xff, 0)):
                        x, y = bytearray(rng.randbytes(A)), bytearray(rng.randbytes(B))
                        y[:i] = x[:i]
                        x[i], y[i] = p, q
                        s.xcmp(fn, bytes(x), bytes(y))
                s.xcmp(fn, bytes(A), bytes(B)).xcmp(fn, b"\xff" * A, bytes(B)).xcmp(fn, bytes(A), b"\xff" * B)
                S.append(s)
    decide_val(ctx, exe, S, alt=alt)
