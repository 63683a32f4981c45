"""C11: no stray reads, no stray writes, no allocation, no run-time failure."""
from abst import *

SPANS = (0, 1, 2, 3, 4, 5, 10, 13)


def sessions(ctx, algs, vias, dense):
    rng = ctx.rng
    S = []
    for a in algs:
        B = a.block
        base = rng.randrange(1, 1 << 20)
        for v in vias:
            s = ASess(a, "%r: empty inputs, via %d" % (a, v), base)
            s.new(1).updnull(1, v).effects().upd(1, 0, 0, 0, via=v).updnull(1, v).effects().peek(1, via=0).upd(1, 0, 0, 9).updnull(1, v).upd(1, 0, 9, 0, via=v).fin(1, via=1).effects()
            S.append(s)
        for n in range(0, 3 * B + 3):
            for v in (vias if dense else [vias[n % len(vias)]]):
                s = ASess(a, "%r: one piece of %d bytes, via %d" % (a, n, v), base)
                s.new(1).upd(1, 0, 0, n, via=v).effects()
                s.fin(1, via=n % 2).effects()
                S.append(s)
        for n in range(0, 3 * B + 3, 1 if a.xx else 5):
            if a.xof:
                break
            s = ASess(a, "%r: simple() on %d bytes, via %d" % (a, n, vias[n % len(vias)]), base)
            s.once(1, 0, 0, n, via=vias[n % len(vias)]).effects()
            S.append(s)
        for p in range(1, B):
            n = rng.choice((B - p - 1, B - p, B - p + 1, 2 * B - p, 2 * B - p - 1, 2 * B - p + 1))
            s = ASess(a, "%r: %d then %d bytes" % (a, p, n), base)
            s.new(1).upd(1, 0, 0, p, via=vias[0]).upd(1, 0, p, n, via=vias[p % len(vias)]).effects().fin(1, via=(p + 1) % 2).effects()
            S.append(s)
        for n in (4096, 4097, 65536, 100001):
            s = ASess(a, "%r: %d bytes" % (a, n), base)
            s.new(1).upd(1, 0, 0, n, via=vias[n % len(vias)]).effects().fin(1, via=1).effects()
            S.append(s)
        for v in vias if len(vias) > 1 else ():
            # long pieces through every way in, at any alignment (a piece ends at a page's end)
            for n in (65537 + rng.randrange(16), 65536 + 16 * rng.randrange(1, 99), rng.randrange(70000, 300000)):
                s = ASess(a, "%r: %d bytes, via %d" % (a, n, v), base)
                s.new(1).upd(1, 0, 0, n, via=v).effects().fin(1, via=1).effects()
                if not a.xof:
                    s.once(1, 0, 0, n - 1, via=v).effects()
                S.append(s)
    return S


def short(ctx, algs, vias):
    S = []
    for a in algs:
        base = ctx.rng.randrange(1, 1 << 20)
        for n in (0, 1, 55, 110, 111, 112, 113, 127, 128, 129, 239, 240, 300):
            for f in (0, 1):
                s = ASess(a, "%r: %d bytes" % (a, n), base)
                S.append(s.new(1).upd(1, 0, 0, n, via=vias[n % len(vias)]).effects().fin(1, via=f).effects())
            S.append(ASess(a, "%r: simple() on %d bytes" % (a, n), base).once(1, 0, 0, n, via=vias[n % len(vias)]).effects())
    return S


def run(ctx):
    algs = all_algs(ctx.rng)
    # the digest lengths that end inside a word of the state
    odd = [Alg("sha512t", t) for t in (8, 56, 88, 96, 256, 504)]
    san = ["-DVERIF_SANITIZE", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-O1"]
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(build, ctx, "drv", alg_units(lean=False))
        f2 = ex.submit(build, ctx, "drvsan", alg_units(lean=True, extra=san), ["-fsanitize=address,undefined"])
        exe, exesan = f1.result(), f2.result()
    ctx.log("built")
    decide_abstract(ctx, exe, sessions(ctx, algs, SPANS, THOROUGH) + short(ctx, odd, SPANS), name="HashApiTrace")
    # the same kind of histories with every memory access and arithmetic operation watched
    os.environ["ASAN_OPTIONS"] = "abort_on_error=1:handle_segv=0:handle_abort=0:detect_leaks=0:allocator_may_return_null=1"
    os.environ["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=0"
    decide_abstract(ctx, exesan, sessions(ctx, algs, (0,), False) + short(ctx, odd, (0,)), name="HashApiTrace-sanitized")
