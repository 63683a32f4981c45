"""C13: base-N text encodings are exact."""
from enc import *

MC = "INIT Init\nNEXT Next\nINVARIANTS SizeOK RecoverableOK AlphabetOK PosOK\nCONSTANTS Its={1} MaxOps=0 Lens=%s GenEncs={%s}\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    rng = ctx.rng
    tlc_ok(ctx, "EncViewGen", MC % ("{%s}" % ",".join(map(str, range(0, 41))), ",".join('"%s"' % n for n in NAMES)), name="BaseNFacts")
    exe, alt = both_enc(ctx, CXX20)
    ctx.log("built")
    S = []
    for n in NAMES:
        # every single byte; both orders of const
        s = ESess("%s: every single byte" % n)
        for b in range(256):
            s.text(n, bytes([b]), cn=b % 2)
        S.append(s)
        # every input form and character type at every length up to three groups
        s = None
        for L in range(0, 17):
            s = ESess("%s: %d bytes in every form" % (n, L))
            for form in FORMS:
                for k in range(2):
                    s.text(n, msg(rng, L), form=form, cn=k)
            for chart in range(1, 5):
                s.text(n, msg(rng, L), chart=chart, cn=1)
            S.append(s)
        for i in range(40 if not THOROUGH else 1500):
            s = ESess("%s: random inputs %d" % (n, i))
            for j in range(25):
                s.text(n, msg(rng, rng.choice((2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, rng.randrange(13, 70)))), form=rng.choice(FORMS), cn=j % 2)
            S.append(s)
        for L in (64, 100, 255, 256, 257, 300, 511, 1000):
            S.append(ESess("%s: %d bytes" % (n, L)).text(n, msg(rng, L), form=rng.choice(SIZED)))
        # announced sizes far beyond what 8 to 40-bit counts hold
        for cn in range(2):
            s = ESess("%s: announced sizes of huge inputs" % n)
            for k in range(56):
                for q in ((1 << k) - 1, 1 << k, (1 << k) + 1, rng.randrange(1 << k, 2 << k)):
                    s.bigsize(n, q, rng.randrange(15), cn)
            for k in (5, 8, 13, 16, 24, 26, 27, 28, 29, 30, 31, 32, 33, 35, 36, 48):
                for d in range(-3, 4):
                    s.bigsize(n, *divmod((1 << k) + d, 15), cn)
            S.append(s)
    for n in NAMES:
        for L in (66000,) if not THOROUGH else (8200, 33000, 66000, 100000):
            S.append(ESess("%s: %d bytes" % (n, L)).text(n, msg(rng, L), form=rng.choice(SIZED)))
    decide_enc(ctx, exe, S, alt=alt)
    ctx.cov["texts_compared"] = sum(len(s.ev) for s in S)


def msg(rng, L):
    k = rng.randrange(6)
    if k == 0:
        return bytes([rng.choice((0, 255, 128, 127, 1))]) * L
    if k == 1 and L:
        b = bytearray(L)
        b[rng.randrange(L)] = 1 << rng.randrange(8)
        return bytes(b)
    return rng.randbytes(L)
