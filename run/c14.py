"""C14: encoded views are lazy and repeatable, their iterators independent."""
from enc import *

GEN = "INIT Init\nNEXT Next\nINVARIANTS SizeOK PosOK\nCONSTRAINT Dump\nCONSTANTS Its={1,2,3} MaxOps=%d Lens={%s} GenEncs={%s}\nCHECK_DEADLOCK FALSE\n"


def histories(ctx, depth, lens, encs):
    r = tlc_ok(ctx, "EncViewGen", GEN % (depth, ",".join(map(str, lens)), ",".join('"%s"' % e for e in encs)), workers=1, name="EncViewGen")
    hs = [json.loads(json.loads(x)[2:]) for x in r.out.split("\n") if x.startswith('"H ')]
    ctx.note("histories_enumerated", len(hs))
    return hs


def replay(h, bs, form, cn, observe, rng, enc=None):
    enc, L, ops = (enc or h[0]), h[1], h[2]
    s = ESess("%s: %d bytes, form %d, %s" % (enc, len(bs), form, json.dumps(ops)))
    s.view(enc, bs, form, cn)
    n = enclen(enc, len(bs))
    pos = {}

    def look(i):
        s.end(i)
        if pos[i] < n:
            s.deref(i)
            if rng.random() < 0.3:
                s.deref(i)
    for o in ops:
        if o[0] in ("copy", "inc", "post") and o[1] not in pos:
            continue                    # its source was left out
        if o[0] == "begin":
            s.begin(o[1])
            pos[o[1]] = 0
        elif o[0] == "copy":
            s.copy(o[1], o[2])
            pos[o[2]] = pos[o[1]]
        elif o[0] == "inc":
            if pos[o[1]] >= n:
                continue
            s.inc(o[1])
            pos[o[1]] += 1
        elif o[0] == "post":
            if pos[o[1]] >= n:
                continue
            s.post(o[1], o[2])
            pos[o[2]] = pos[o[1]]
            pos[o[1]] += 1
        elif o[0] == "mut":
            if form not in MUTABLE:
                continue
            s.mut(o[1], rng.randrange(256))
            pos = {}
        elif o[0] == "set":
            if form not in MUTABLE:
                continue
            m = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12))
            s.refill(rng.randbytes(m))
            n = enclen(enc, m)
            pos = {}
            if rng.random() < 0.5:
                s.size()
        elif o[0] == "seat":
            s.seat(rng.randrange(2))
            pos = {}
        elif o[0] == "iter":
            s.iter()
        if observe:
            for i in sorted(pos):
                look(i)
    # run every iterator to the end, interleaved
    order = sorted(pos)
    for i in order:
        look(i)
    while order:
        i = rng.choice(order)
        if pos[i] == n:
            s.end(i)
            order.remove(i)
            continue
        s.deref(i)
        s.inc(i)
        pos[i] += 1
    s.iter().size().iter()
    return s


W = {"base64": 6, "base64_no_padding": 6, "base64url": 6, "base32": 5, "base32_no_padding": 5, "z_base32": 5, "base16": 4, "BASE16": 4, "base8": 3, "base4": 2, "base2": 1}


def enclen(e, n):
    w = W[e]
    if e in ("base64", "base32", "base8"):
        L = {6: 24, 5: 40, 3: 24}[w]
        return (8 * n + L - 1) // L * (L // w)
    return (8 * n + w - 1) // w


def run(ctx):
    rng = ctx.rng
    hs = histories(ctx, 5 if not THOROUGH else 6, (1, 2), ("base64",))
    exe, alt = both_enc(ctx)
    ctx.log("built")
    S = []
    for n in NAMES:
        for h in rng.sample(hs, min(len(hs), 350 if not THOROUGH else 6000)):
            L = rng.choice((0, 1, 2, 3, 4, 5, 6, 7)) if not any(o[0] == "mut" for o in h[2]) else rng.choice((1, 2, 3, 5))
            S.append(replay(h, rng.randbytes(L), rng.choice(FORMS), rng.randrange(2), rng.random() < 0.7, rng, enc=n))
        # a copy taken at every position
        for L in (1, 2, 3, 4, 5, 6, 9):
            bs = rng.randbytes(L)
            N = enclen(n, L)
            for p in range(N + 1):
                s = ESess("%s: %d bytes, copies at position %d" % (n, L, p)).view(n, bs, rng.choice(FORMS), p % 2).begin(1)
                for _ in range(p):
                    s.inc(1)
                s.copy(1, 2)
                if p < N:
                    s.post(1, 3).end(3).deref(3).end(1).deref(2)
                    if p + 1 < N:
                        s.deref(1)
                    for i, q in ((2, p), (3, p), (1, p + 1)):
                        while q < N:
                            s.deref(i).inc(i)
                            q += 1
                        s.end(i)
                else:
                    s.end(1).end(2)
                S.append(s.iter().size())
    decide_enc(ctx, exe, S, alt=alt)
    ctx.cov["iterator_operations"] = sum(len(s.ev) for s in S)
