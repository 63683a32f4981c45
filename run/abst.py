"""Sessions of the abstract machine HashApi: an object is the message it was fed."""
from gen import *

XOF_OUT = 173   # crosses a squeeze block of both functions and ends inside a lane
NOTHING = ((0, 0, 0),)     # the digest of no message that was fed (a message of no behaviour)


def alg_units(lean=True, sha512t=True, extra=()):
    L = (["-DVERIF_LEAN"] if lean else []) + list(extra)
    return units("sha2", "sha3", *(["sha512t_some"] if sha512t else []), lean=lean, extra=extra) + [
        ("alg_shake.cpp", L + ["-DVERIF_N128=173", "-DVERIF_N256=173"], "shake"),
        ("alg_xxh.cpp", L, "xxh")]


def all_algs(rng):
    return SHA2 + [Alg("sha512t", 224), Alg("sha512t", 136)] + SHA3 + SHAKE + [Alg("xxh32"), Alg("xxh32", seed=rng.getrandbits(32)), Alg("xxh64"), Alg("xxh64", seed=rng.getrandbits(64))]


def extend(m, k, a, b):
    """normal form, as HashApi!Extend"""
    if a == b:
        return m
    if m and m[-1][0] == k and m[-1][2] == a:
        return m[:-1] + ((k, m[-1][1], b),)
    return m + ((k, a, b),)


def jref(m):
    return "j" + ",".join("%d:%d:%d" % x for x in m) if m else "x"


class ASess(Sess):
    """Like Sess, with messages instead of bytes; all objects use one algorithm."""
    __slots__ = ("alg", "msg", "want", "base")

    def __init__(self, alg, tag, base=1):
        super().__init__(tag)
        self.alg, self.msg, self.want, self.base = alg, {}, set(), base

    def n(self):
        return XOF_OUT if self.alg.xof else 0

    def new(self, o):
        self.cmds.append("N %d %s %d" % (o, self.alg.drv, self.alg.seed))
        self.ev.append(["new", o])
        self.msg[o] = ()
        return self

    def upd(self, o, k, a, n, via=0):
        """n bytes of stream base+k from a"""
        self.upd_cmd(o, via, "s%d:%d:%d" % (self.base + k, a, n))
        self.ev[-1] = ["upd", o, self.base + k, a, a + n]
        self.msg[o] = extend(self.msg[o], self.base + k, a, a + n)
        return self

    def updnull(self, o, via=0):
        self.upd_cmd(o, via, "n")
        self.ev[-1] = ["upd", o, 1, 0, 0]
        return self

    def copy(self, a, b):
        super().copy(a, b)
        self.msg[b] = self.msg[a]
        return self

    def move(self, a, b):
        super().move(a, b)
        self.msg[b] = self.msg.pop(a)
        return self

    def assign(self, a, b, mv=False):
        super().assign(a, b, mv)
        self.msg[b] = self.msg[a]
        if mv and a != b:
            del self.msg[a]
        return self

    def fin(self, o, via=0):
        super().fin(o, self.n(), via)
        self.want.add(self.msg.pop(o))
        return self

    def once(self, o, k, a, n, via=0):
        """the one-shot call, simple()"""
        self.cmds.append("O %s %d %d 0 s%d:%d:%d" % (self.alg.drv, self.alg.seed, via, self.base + k, a, n))
        self.ev += [["new", o], ["upd", o, self.base + k, a, a + n], ["fin", o, None]]
        self.pend.append(("o", len(self.ev) - 1))
        self.want.add(extend((), self.base + k, a, a + n))
        return self

    def peek(self, o, via=0, tmp=9):
        """the digest of a copy"""
        self.cmds.append("C %d %d" % (o, tmp))
        self.cmds.append("F %d %d %d" % (tmp, via, self.n()))
        self.ev.append(["peek", o, None])
        self.pend.append(("f", len(self.ev) - 1))
        self.want.add(self.msg[o])
        return self

    def uaf(self, o, k, a, n, via=0):
        """xxHash: update_and_final() leaves the object fed"""
        self.cmds.append("Y %d %d s%d:%d:%d" % (o, via, self.base + k, a, n))
        self.ev += [["upd", o, self.base + k, a, a + n], ["peek", o, None]]
        self.pend.append(("y", len(self.ev) - 1))
        self.msg[o] = extend(self.msg[o], self.base + k, a, a + n)
        self.want.add(self.msg[o])
        return self

    def direct_peek(self, o, via=0):
        """xxHash: final() itself leaves the object unchanged"""
        self.cmds.append("F %d %d 0" % (o, via))
        self.ev.append(["peek", o, None])
        self.pend.append(("f", len(self.ev) - 1))
        self.want.add(self.msg[o])
        return self

    def row(self, o, k, n0, n1):
        """o holds a prefix of stream k"""
        off = self.msg[o][0][2] if self.msg[o] else 0
        self.cmds.append("R %d %d %d %d %d %d" % (o, self.base + k, off, n0, n1, self.n()))
        self.ev.append(["row", o, self.base + k, n0, None])
        self.pend.append(("r", len(self.ev) - 1))
        return self


def whole_tables(ctx, exe, items, timeout=200):
    """items: list of (alg, message); digests of the whole messages fed as one piece"""
    S = []
    for a, m in items:
        s = Sess("whole")
        s.cmds.append("N 1 %s %d" % (a.drv, a.seed))
        s.upd_cmd(1, 0, jref(m))
        s.ev[-1] = ["upd", 1]
        s.fin(1, XOF_OUT if a.xof else 0)
        S.append(s)
    done = run_driver(ctx, exe, S, timeout)
    return [s.ev[-1][2] if not s.crashed else None for s in done] + [None] * (len(items) - len(done))


def prefix_table(ctx, exe, alg, k, top):
    s = Sess("table")
    s.cmds.append("W %s %d %d 0 %d %d" % (alg.drv, alg.seed, k, top, XOF_OUT if alg.xof else 0))
    s.ev.append(["w", None])
    s.pend.append(("r", 0))
    d = run_driver(ctx, exe, [s])[0]
    return d.ev[0][-1] if not d.crashed else []


def decide_abstract(ctx, exe, S, rows_top=0, timeout=200, name="HashApiTrace", wrap=(), alt=None, share=0.3):
    """Run, invert the digests, let TLC judge."""
    T = also(ctx, S, share) if alt else []
    # tables of whole-message digests
    items, inv = [], {}
    for s in S:
        inv.setdefault((s.alg.drv, s.alg.seed), {})
    seen = set()
    for s in S:
        for m in s.want:
            key = (s.alg.drv, s.alg.seed, m)
            if key not in seen:
                seen.add(key)
                items.append((s.alg, m))
    amb = 0
    if items:
        for (a, m), h in zip(items, whole_tables(ctx, exe, items, timeout)):
            t = inv[(a.drv, a.seed)]
            if h in t and a.out in (1, 2, 3) and isinstance(t[h], list):
                t[h].append(m)              # short digests: whichever of them the session may mean
            elif h is not None and a.out in (1, 2, 3):
                t[h] = [m]
            elif h in t:
                t[h] = None                 # collision: not usable as a name
                amb += 1
            elif h is not None:
                t[h] = m
    rows = {}
    for s in S:
        for e in s.ev:
            if e is not None and e[0] == "row":
                rows.setdefault((s.alg.drv, s.alg.seed, e[2]), s.alg)
    pre = {}
    for (d, sd, k), a in rows.items():
        tab = prefix_table(ctx, exe, a, k, rows_top[a.drv] if isinstance(rows_top, dict) else rows_top)
        pre[(d, sd, k)] = t = {}
        for L, h in enumerate(tab):
            if h in t:
                amb += 1
                t[h] = None
            else:
                t[h] = L
    done = run_driver(ctx, exe, S, timeout, wrap)
    if T:
        done += run_driver(ctx, alt, T, timeout, wrap, tag="-alt")
        ctx.note("sessions_of_the_other_build", len(T))
    traces, kept = [], []
    for s in done:
        t, ok = [], True
        for e in s.ev:
            if e is None:
                continue
            if e[0] in ("fin", "peek"):
                m = inv[(s.alg.drv, s.alg.seed)].get(e[2], NOTHING)
                if isinstance(m, list):
                    mine = [x for x in m if x in s.want]
                    m = mine[0] if len(mine) == 1 else m[0] if not mine else None
                if m is None:
                    ok = False
                    break
                e = [e[0], e[1], [list(x) for x in m]]
            elif e[0] == "row":
                p = pre[(s.alg.drv, s.alg.seed, e[2])]
                L = [p.get(h, -1) for h in e[4]]
                if None in L:
                    ok = False
                    break
                e = e[:4] + [L]
                ctx.note("digests_compared", len(L))
            t.append(e)
        if ok:
            traces.append(t)
            kept.append(s)
    if amb:
        ctx.note("sessions_skipped_for_digest_collisions", len(done) - len(kept))
    if len(kept) * 2 < len(done):
        # distinct messages share digests wholesale: the digests do not depend on the message
        ctx.violation("distinct messages have equal digests", {"ambiguous": amb, "sessions": [str(s.tag) for s in done[:5]]})
    ctx.note("digests_compared", sum(1 for t in traces for e in t if e[0] in ("fin", "peek")))
    validate(ctx, "HashApiTrace", traces, describe_sessions(kept, traces), name=name)
    for t in traces[:1] + traces[-1:]:
        ctx.sample(short(t, 300))
    return kept


GEN_CFG = """INIT Init
NEXT Next
INVARIANT MessageIsConcatenation
PROPERTY Independent
CONSTRAINT Dump
CONSTANTS MaxOps=%d MaxObjs=%d Classes={%s} Ops={%s}
CHECK_DEADLOCK FALSE
"""


def generate(ctx, maxops, maxobjs, classes, ops, name="HashApiGen"):
    """histories of the abstract machine, enumerated by TLC"""
    r = tlc_ok(ctx, "HashApiGen", GEN_CFG % (maxops, maxobjs, ",".join(map(str, range(classes))), ",".join('"%s"' % o for o in ops)), workers=1, name=name)
    hs = [json.loads(json.loads(x)[2:]) for x in r.out.split("\n") if x.startswith('"H ')]
    if not hs:
        raise CheckError("no histories generated")
    ctx.note("histories_enumerated", len(hs))
    return hs


def replay(alg, hist, sizes, base, vias=None, rng=None):
    """a history of HashApiGen on the real objects"""
    s = ASess(alg, "%r: history %s sizes %s" % (alg, json.dumps(hist), sizes), base)
    for i, e in enumerate(hist):
        if e[0] == "new":
            s.new(e[1])
        elif e[0] == "upd":
            s.upd(e[1], i, 0, sizes[e[2]], via=rng.choice(vias) if vias else 0)
        elif e[0] == "copy":
            s.copy(e[1], e[2])
        elif e[0] == "move":
            s.move(e[1], e[2])
        elif e[0] == "assign":
            s.assign(e[1], e[2])
        elif e[0] == "massign":
            s.assign(e[1], e[2], mv=True)
        elif e[0] == "peek":
            if alg.xx:
                s.direct_peek(e[1], via=i % 2)
            else:
                s.peek(e[1])
        elif e[0] == "fin":
            s.fin(e[1], via=i % 2)
    for o in sorted(s.msg, reverse=len(hist) % 2 == 0):
        s.fin(o)
    return s
