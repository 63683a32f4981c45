"""C01: SHA-2 digests (FIPS 180-4)."""
from gen import *


def run(ctx):
    exe, alt = both(ctx, "drv", units("sha2", lean=False))
    rng = ctx.rng
    S = []
    for a in SHA2:
        B = a.block
        # digests of every prefix over more than three blocks, byte by byte
        S += prefixes(rng, a, 9 * B + 3 if not THOROUGH else 40 * B, 24)
        S += messages(rng, a, 300 if not THOROUGH else 3000)
        S += long_messages(rng, a, [256, 257, 511, 1000, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 9973, 16384, 20000, 32767, 32768, 65535, 65536, 65537] + ([100000, 131072, 262144] if THOROUGH else []))
        for i in range(8):
            L = length(rng, B, 3)
            S.append(Sess("%r: simple() on %d bytes" % (a, L)).oneshot(1, a, blob(rng, L), via=i % 8))
    decide(ctx, exe, S, alt=alt)
