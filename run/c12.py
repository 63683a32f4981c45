"""C12: distinct objects in different threads."""
from abst import *

NT = 8


def thread_sessions(rng, algs, per, maxn, shared=True):
    """per[t]: sessions of thread t; all threads go through the algorithms in step"""
    out = [[] for _ in range(NT)]
    ks = set()
    pub = []
    for ai, a in enumerate(algs):
        # an object every thread reads: a prefix published before the threads start
        base0 = 5000 + ai
        if shared:
            p = ASess(a, "%r: published" % a, base0)
            pn = rng.randrange(1, 3 * a.block)
            p.new(1).upd(1, 0, 0, pn)
            p.cmds.append("PS 1 %d" % ai)
            p.fin(1)
            ks.add((base0, pn))
            pub.append(p)
        for t in range(NT):
            base = 6000 + 100 * ai + t
            ks.add((base, 2 * maxn + 10))
            for i in range(per):
                s = ASess(a, "%r: thread %d session %d" % (a, t, i), base)
                s.cmds[0] = "S"
                s.cmds.append("=")
                if shared and i % 4 == 3:
                    # continue a copy of the shared object; digest of the shared object itself
                    s.cmds.append("Q %d 1" % ai)
                    s.ev += [["new", 1], ["upd", 1, base0, 0, pn]]
                    s.msg[1] = extend((), base0, 0, pn)
                    if a.xx:
                        s.cmds.append("QF %d %d" % (ai, i % 2))
                        s.ev.append(["peek", 1, None])
                        s.pend.append(("f", len(s.ev) - 1))
                        s.want.add(s.msg[1])
                else:
                    s.new(1)
                    off0 = 0
                off = 0
                for j in range(rng.randrange(1, 4)):
                    n = rng.choice((rng.randrange(0, 3 * a.block), rng.randrange(0, maxn // 3)))
                    s.upd(1, 0, off, n)
                    off += n
                if i % 3 == 0:
                    s.copy(1, 2).upd(2, 0, off, 11).upd(1, 0, off, 5).fin(2, via=1)
                s.fin(1, via=i % 2)
                out[t].append(s)
    return pub, out, ks


def run_threads(ctx, exe, pub, per, ks, tag, env=None, wrap=()):
    cmds = ["P %d %d" % x for x in sorted(ks)]
    for p in pub:
        cmds += p.cmds
    cmds.append("T %d" % NT)
    for t in range(NT):
        for s in per[t]:
            cmds += ["t%d %s" % (t, c) for c in s.cmds]
    cmds.append("T 0")
    cmdf, outf = ctx.path("cmds-%s.txt" % tag), ctx.path("out-%s.txt" % tag)
    with open(cmdf, "w") as f:
        f.write("\n".join(cmds) + "\n")
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(list(wrap) + [exe, cmdf, outf, "200"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=260, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    if r.returncode == 9:
        raise CheckError("driver: " + r.stdout[-1500:])
    lines = open(outf).read().split("\n")
    return r, lines


def judge(ctx, exe, pub, per, r, lines, name):
    allS = pub + [s for t in per for s in t]
    race = "ThreadSanitizer" in r.stdout
    if race or r.returncode != 0 or any(x.startswith("X") for x in lines):
        what = "data race reported between threads using distinct hash objects" if race else "crash while threads used distinct hash objects"
        validate(ctx, "HashApiTrace", [[["race" if race else "crash", what]]], lambda i, l: (what + ": " + r.stdout[:1200], {"output": r.stdout[:4000], "lines": lines[:3]}), name=name)
        return
    # published part, then one part per thread, separated by "t"
    i = 0
    need = sum(len(p.pend) for p in pub)
    fill(pub, lines[:need])
    i = need
    for t in range(NT):
        j = lines.index("t", i)
        d = fill(per[t], lines[i:j])
        if d != len(per[t]):
            raise CheckError("thread output incomplete")
        i = j + 1
    items, seen, inv = [], set(), {}
    for s in allS:
        for m in s.want:
            k = (s.alg.drv, s.alg.seed, m)
            if k not in seen:
                seen.add(k)
                items.append((s.alg, m))
    for (a, m), h in zip(items, whole_tables(ctx, exe, items)):
        d = inv.setdefault((a.drv, a.seed), {})
        d[h] = None if h in d else m
    traces, kept = [], []
    for s in allS:
        t = []
        for e in s.ev:
            if e is None:
                continue
            if e[0] in ("fin", "peek"):
                m = inv[(s.alg.drv, s.alg.seed)].get(e[2], NOTHING)
                if m is None:
                    t = None
                    break
                e = [e[0], e[1], [list(x) for x in m]]
                ctx.note("digests_compared")
            t.append(e)
        if t is not None:
            traces.append(t)
            kept.append(s)
    validate(ctx, "HashApiTrace", traces, describe_sessions(kept, traces), name=name)
    ctx.sample(short(traces[-1]))


def run(ctx):
    rng = ctx.rng
    cfg = "INIT Init\nNEXT Next\nCONSTANTS Thr = {1, 2, 3} Prog <- P3 Scratch = %s\nINVARIANTS Alone Private\n"
    tlc_ok(ctx, "ThreadsMC", cfg % "FALSE")
    r = tlc(ctx, "ThreadsMC", cfg % "TRUE", name="ThreadsScratch")
    if "is violated" not in r.out:
        raise CheckError("the thread model does not distinguish shared working storage")
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(build, ctx, "drv", alg_units())
        f2 = ex.submit(build, ctx, "drvtsan", alg_units(extra=["-DVERIF_SANITIZE", "-fsanitize=thread", "-O1"]), ["-fsanitize=thread"])
        exe, ext = f1.result(), f2.result()
    algs = all_algs(rng)
    ctx.log("built")
    for rnd in range(2 if not THOROUGH else 12):
        pub, per, ks = thread_sessions(rng, algs, 40, 30000)
        res, lines = run_threads(ctx, exe, pub, per, ks, "plain%d" % rnd)
        judge(ctx, exe, pub, per, res, lines, "HashApiTrace-threads%d" % rnd)
    pub, per, ks = thread_sessions(rng, algs, 8, 1500)
    res, lines = run_threads(ctx, ext, pub, per, ks, "tsan", {"TSAN_OPTIONS": "halt_on_error=1:exitcode=77:report_signal_unsafe=0"})
    if "unexpected memory mapping" in res.stdout:
        raise CheckError(res.stdout[-500:])
    judge(ctx, exe, pub, per, res, lines, "HashApiTrace-tsan")
    # nothing was hashed in the process before the threads start: each first use is one of several at the same time
    for rnd in range(2 if not THOROUGH else 8):
        first = list(algs)
        rng.shuffle(first)
        pub, per, ks = thread_sessions(rng, first, 2, 600, shared=False)
        res, lines = run_threads(ctx, ext, pub, per, ks, "first%d" % rnd, {"TSAN_OPTIONS": "halt_on_error=1:exitcode=77:report_signal_unsafe=0"})
        judge(ctx, exe, pub, per, res, lines, "HashApiTrace-first%d" % rnd)
