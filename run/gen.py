"""Session generators shared by the digest checks."""
from lib import *


def units(*which, lean=True, tags=("-",), extra=()):
    """Translation units of the driver for the algorithm families wanted."""
    L = (["-DVERIF_LEAN"] if lean else []) + list(extra)
    u = [("main.cpp", L, "main")]
    for w in which:
        if w == "sha512t":
            ts = [a.param for a in SHA512T]
            for i in range(8):
                u.append(("alg_sha512t.cpp", L + ["-DVERIF_T=" + ",".join(map(str, ts[i::8]))], "t%d" % i))
        elif w == "sha512t_some":
            u.append(("alg_sha512t.cpp", L + ["-DVERIF_T=8,56,88,96,136,224,256,504"], "t"))
        elif w.startswith("alg_"):
            u.append((w + ".cpp", L, w))
        else:
            u.append(("alg_%s.cpp" % w, L, w))
    return u


def blob(rng, L):
    """message contents: random, extreme bit patterns, constant, sparse"""
    k = rng.randrange(8)
    if k == 0:
        return bytes(rng.choice((0, 255)) for _ in range(L))
    if k == 1:
        return bytes([rng.choice((0x80, 0x00, 0xff, 0x7f, 0x01))]) * L
    if k == 2:
        b = bytearray(L)
        if L:
            b[rng.randrange(L)] = 1 << rng.randrange(8)
        return bytes(b)
    if k == 3:
        return bytes((i * 7 + 1) & 255 for i in range(L))
    return rng.randbytes(L)


def length(rng, B, big=12):
    """a message length biased towards block and padding boundaries"""
    k = rng.randrange(4)
    if k == 0:
        return rng.randrange(0, 2 * B)
    if k == 1:
        return rng.randrange(0, big * B)
    return max(0, B * rng.randrange(0, big) + rng.choice((-17, -16, -9, -8, -2, -1, 0, 1, 2, B // 2)))


def prefixes(rng, a, top, step, ns=(0,), lo0=0):
    """digests of every prefix lo0..top-1 of one stream, as parallel segments"""
    out = []
    k = rng.randrange(1, 1 << 20)
    for lo in range(lo0, top, step):
        s = Sess("%r: prefixes from length %d" % (a, lo))
        s.new(1, a)
        if lo:
            s.upds(1, k, 0, lo)
        hi = min(lo + step, top)
        for L in range(lo, hi):
            s.peek(1, ns=ns, via=L % 2)
            if L + 1 < hi:
                s.upds(1, k, L, 1)
        out.append(s)
    return out


def messages(rng, a, count, ns=(0,), big=12):
    out = []
    for i in range(count):
        L = length(rng, a.block, big)
        s = Sess("%r: message of %d bytes" % (a, L))
        s.new(1, a).upd(1, blob(rng, L)).fin(1, rng.choice(ns), via=i % 2)
        out.append(s)
    return out


def long_messages(rng, a, lens):
    out = []
    for L in lens:
        s = Sess("%r: one piece of %d bytes" % (a, L))
        s.new(1, a).upds(1, rng.randrange(1, 1 << 20), 0, L).fin(1, 32 if a.xof else 0)
        out.append(s)
    return out


def selftest(ctx):
    """The specification itself against the definitions of the standards and known answers."""
    r = tlc_ok(ctx, "SelfTest", "INIT Init\nNEXT Next\nINVARIANT Passes\n")
    ctx.cov["spec_self_tests"] = r.distinct


def decide(ctx, exe, S, timeout=200, alt=None, share=0.3):
    """alt: the driver built another way, which runs a share of the sessions as well"""
    selftest(ctx)
    T = also(ctx, S, share) if alt else []
    done = run_driver(ctx, exe, S, timeout)
    if T:
        done += run_driver(ctx, alt, T, timeout, tag="-alt")
        ctx.note("sessions_of_the_other_build", len(T))
    tr = [concrete(s.ev) for s in done]
    validate(ctx, "HashTrace", tr, describe_sessions(done, tr))
    ctx.note("digests_compared", sum(len(e) - 2 for t in tr for e in t if e[0] in ("fin", "fins")))
    for t in tr[:1] + tr[-1:]:
        ctx.sample(short(t, 300))
    return done
