"""C03: SHA-3 digests (FIPS 202)."""
from gen import *


def run(ctx):
    exe, alt = both(ctx, "drv", units("sha3", lean=False))
    rng = ctx.rng
    S = []
    for a in SHA3:
        B = a.block
        S += prefixes(rng, a, 6 * B + 3 if not THOROUGH else 20 * B, 16)
        S += messages(rng, a, 250 if not THOROUGH else 3000, big=8)
        S += long_messages(rng, a, [255, 256, 257, 1024, 4096, 4097, 8192, 9973, 20000, 32768, 65535, 65536, 65537] + ([100000, 131072] if THOROUGH else []))
        for i in range(8):
            L = length(rng, B, 3)
            S.append(Sess("%r: simple() on %d bytes" % (a, L)).oneshot(1, a, blob(rng, L), via=i % 8))
    decide(ctx, exe, S, alt=alt)
