"""C15: the bit buffer is a FIFO queue of bits; chunked views regroup all bits."""
import math
from enc import *
from impl import *

# (out, in)
GEO = [(1, 8), (2, 8), (3, 8), (4, 8), (5, 8), (6, 8), (7, 8), (8, 8), (10, 8), (12, 8), (16, 8), (24, 8), (1, 1), (3, 1), (8, 1), (8, 6), (8, 5), (8, 3), (8, 4),
       (3, 5), (5, 3), (4, 6), (6, 4), (3, 16), (6, 16), (8, 16), (12, 16), (7, 4), (5, 12)]
# every buffer whose capacity (the least common multiple) fits the storage
OUTS = tuple(range(1, 17)) + (18, 20, 21, 24, 28, 31, 32, 40, 48, 56, 63, 64)
INS = tuple(range(1, 13)) + (14, 16, 21, 24, 32, 64)
WIDTHS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 47, 48, 56, 63, 64)
CAPS = (1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 25, 30, 31, 32, 33, 36, 39, 40, 41, 48, 56, 57, 60, 63, 64)
CHUNK_BITS = (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 24, 28, 32, 40, 48, 56, 64)
ELEMS = {0: 8, 1: 8, 2: 8, 3: 8, 4: 8, 5: 8, 6: 8, 10: 16, 11: 16, 12: 16, 13: 16, 20: 32, 21: 32, 22: 32, 30: 64, 31: 64}


def parts():
    """the driver, compiled in parallel shares"""
    d = lambda k, v: "-DVERIF_%s=%s" % (k, ",".join(map(str, v)))
    u = [("bits.cpp", ["-DVERIF_MAIN"], "main")]
    for i in range(7):
        u.append(("bits.cpp", [d("OUTS", OUTS[i::7]), d("INS", INS), d("CHUNKS", CHUNK_BITS[i::7]), d("CAPS", CAPS[i::7]), d("WIDTHS", WIDTHS)], "p%d" % i))
    return u


GEN = "INIT Init\nNEXT Next\nINVARIANTS FIFO Bounded Whole\nCONSTRAINT Dump\nCONSTANTS MaxOps=%d Geometries <- %s\nCHECK_DEADLOCK FALSE\n"


def lcm(a, b):
    return a * b // math.gcd(a, b)


class BSess(ESess):
    """operations of one buffer, everything visible recorded after each"""

    def new(self, o, i):
        self.cap = lcm(o, i)
        self.op("N %d %d" % (o, i), ["new", i, o, self.cap])
        return self.see()

    def see(self):
        self.ev.append(["see", None])
        self.pend.append(("o", len(self.ev) - 1))
        return self

    def push(self, v):
        return self.op("push %d" % v, ["push", limbs(v)]).see()

    def pushz(self):
        return self.op("pushz", ["push", [0, 0, 0, 0]]).see()

    def pop(self):
        return self.op("pop", ["pop"]).see()

    def fill(self, what):
        return self.op(what, [what, None], "r").see()

    def basic(self, cap):
        self.cap = cap
        self.op("B %d" % cap, ["new", 1, 1, cap])
        return self.count()

    def count(self):
        self.ev.append(["count", None, None, None, None])
        self.pend.append(("k", len(self.ev) - 1))
        return self

    def chunks(self, bits, pad, elem, data, cn):
        self.op("K %d %d %d %d x%s" % (bits, pad, elem, cn, data.hex()), ["chunks"], "c")
        self.ev[-1] = ["chunks", ELEMS[elem], bits, bool(pad), list(data), None, None]
        return self


def run_bits(ctx, exe, S, timeout=200):
    cmdf, outf = ctx.path("bcmds.txt"), ctx.path("bout.txt")
    with open(cmdf, "w") as f:
        for s in S:
            f.write("\n".join(s.cmds) + "\n")
    try:
        r = subprocess.run([exe, cmdf, outf, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    if r.returncode == 9:
        raise CheckError("driver: " + r.stdout[-1500:])
    lines = open(outf).read().split("\n")
    i, done = 0, []
    for s in S:
        for kind, pos in s.pend:
            line = lines[i] if i < len(lines) else ""
            i += 1
            if line == "" or line[0] == "X":
                s.ev = s.ev[:pos] + [["crash", line, s.ev[pos][0]]]
                return done + [s]
            f = line.split()
            e = s.ev[pos]
            if f[0] != kind:
                raise CheckError("driver out of step: %s for %s" % (line[:80], e))
            if kind == "o":
                e[1] = [int(f[1]), int(f[2]), f[3] == "1", f[4] == "1", f[5] == "1", f[6] == "1", [] if f[7] == "-" else limbs(int(f[7]))]
            elif kind == "r":
                e[1] = int(f[1])
            elif kind == "k":
                e[1:] = [int(f[1]), int(f[2]), f[3] == "1", f[4] == "1"]
            elif kind == "f":
                e[2] = limbs(int(f[1]))
            elif kind == "c":
                e[5] = int(f[1])
                e[6] = []
                for x in f[2:]:
                    v, m, p = map(int, x.split(":"))
                    # the flag says that the chunk is fill only
                    if e[2] >= 31:                   # as units of 8 bits
                        v = list(v.to_bytes(8, "big"))[-(e[2] // 8):]
                    e[6].append([v, m] if bool(p) == (m == e[2]) else [v, -1])
        done.append(s)
    if i < len(lines) and lines[i].startswith("X"):
        done[-1].ev.append(["crash", lines[i], "end"])
    return done


def model(ctx, depth, geos, name):
    """histories enumerated by TLC"""
    mod = ctx.path("tlc-" + name)
    os.makedirs(mod, exist_ok=True)
    with open(os.path.join(mod, "MCBits.tla"), "w") as f:
        f.write("---- MODULE MCBits ----\nEXTENDS BitQueueGen\nG == {%s}\n====\n" % ",".join("<<%d,%d,%d>>" % (i, o, lcm(o, i)) for o, i in geos))
    r = tlc_ok(ctx, "MCBits", GEN % (depth, "G"), workers=1, name=name)
    hs = [json.loads(json.loads(x)[2:]) for x in r.out.split("\n") if x.startswith('"H ')]
    ctx.note("histories_enumerated", len(hs))
    return hs


def value(rng, n):
    return rng.choice((rng.getrandbits(n), rng.getrandbits(n), (1 << n) - 1, 1 << (n - 1), 1))


def replay(rng, h):
    i, o, cap, ops = h
    s = BSess("bit_buffer<%d,%d>: %s" % (o, i, " ".join(ops))).new(o, i)
    for x in ops:
        if x == "push":
            s.push(value(rng, i))
        elif x == "pushz":
            s.pushz()
        elif x == "pop":
            s.pop()
        else:
            s.fill(x)
    return s


def walk(rng, o, i, n):
    """a long random history within the capacity"""
    s = BSess("bit_buffer<%d,%d>: random history" % (o, i)).new(o, i)
    used, cap = 0, lcm(o, i)
    for _ in range(n):
        c = []
        if used + i <= cap:
            c += ["push"] * 4 + ["pushz"]
        if used >= o:
            c += ["pop"] * 4
        if used < o:
            c += ["align"]
            pad = 0
            while used and (used + pad) % o or (used and pad == 0):
                pad += i
            if used + pad <= cap:
                c += ["pad"]
        x = rng.choice(c)
        if x == "push":
            s.push(value(rng, i))
            used += i
        elif x == "pushz":
            s.pushz()
            used += i
        elif x == "pop":
            s.pop()
            used -= o
        elif x == "align":
            s.fill(x)
            used = 0 if not used else (used if i == 1 else o)
        else:
            s.fill(x)
            used += pad if i != 1 else 0
    return s


def basic(rng, cap, n):
    s = BSess("basic_bit_buffer<%d>: random history" % cap).basic(cap)
    used = 0
    ws = [w for w in WIDTHS if w <= cap]
    for _ in range(n):
        k = rng.choice((rng.choice(ws), rng.choice(ws), rng.choice([w for w in ws if w <= 8])))
        x = rng.randrange(8)
        if x < 4 and used + k <= cap:
            v = value(rng, k)
            s.op("pn %d %d" % (k, v), ["pushn", k, limbs(v)]).count()
            used += k
        elif x == 4 and used + k <= cap:
            s.op("zn %d" % k, ["zeros", k]).count()
            used += k
        elif used >= k:
            s.op("fn %d" % k, ["frontn", k, None], "f")
            if x > 5:
                s.op("on %d" % k, ["popn", k]).count()
                used -= k
    while used:
        k = rng.choice([w for w in ws if w <= used])
        s.op("fn %d" % k, ["frontn", k, None], "f").op("on %d" % k, ["popn", k]).count()
        used -= k
    return s


def sanitized(ctx):
    """by clang if it can, else by gcc (clang 18 crashes on valid programs)"""
    flags = ["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"]
    try:
        return build(ctx, "bitsub", parts(), flags, (), "clang++")
    except (CompileError, CheckError):
        ctx.note("clang_refused", 1)
        return build(ctx, "bitsub", parts(), flags)


def run(ctx):
    rng = ctx.rng
    refine(ctx, [chunk([8], range(1, 9)), chunk([8, 16, 32, 64], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 24, 32, 48, 64])])
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(build, ctx, "bits", parts(), ["-O1"])
        hs = model(ctx, 5 if not THOROUGH else 7, GEO, "MCBits")
        # longer histories of the geometries the encodings use
        hs += model(ctx, 7 if not THOROUGH else 10, [(3, 8), (5, 8), (6, 8)], "MCBitsLong")
        vs = view_model(ctx, 5, (1, 2), [(8, 6, True)], "MCView")
        view_model(ctx, 0, range(10), [(w, b, p) for w in (8, 16, 32, 64) for b in VIEW_BITS for p in (0, 1) if lcm(b, w) <= 64], "MCViewFacts", "SizeOK BitsOK", 4)
        f2 = ex.submit(sanitized, ctx)
        f3 = ex.submit(build, ctx, "cview", view_units(), ["-O1"])
        exe = f.result()
        exe2, exe3 = f2.result(), f3.result()
    ctx.log("built, %d histories" % len(hs))
    S = [replay(rng, h) for h in (hs if THOROUGH else rng.sample(hs, min(len(hs), 6000)))]
    geo = [(o, i) for o in OUTS for i in INS if lcm(o, i) <= 64]
    ctx.cov["buffer_geometries"] = len(geo)
    for o, i in geo:
        for _ in range(2 if not THOROUGH else 60):
            S.append(walk(rng, o, i, 100))
    for c in CAPS:
        for _ in range(12 if not THOROUGH else 200):
            S.append(basic(rng, c, 80))
    done = run_bits(ctx, exe, S)
    tr = [s.ev for s in done]
    validate(ctx, "BitQueueTrace", tr, describe_sessions(done, tr))
    ctx.sample(short(tr[0]))
    ctx.cov["buffer_operations"] = sum(len(t) for t in tr) // 2
    # the same histories with another compiler that reports undefined operations
    sub = rng.sample(S, 1500) + S[-len(geo):] if not THOROUGH else S
    done = run_bits(ctx, exe2, sub)
    tr = [s.ev for s in done]
    validate(ctx, "BitQueueTrace", tr, describe_sessions(done, tr), name="BitQueueTrace-clang-ubsan")
    # iterators of views
    S = views(ctx, rng, vs)
    done = run_views(ctx, exe3, S)
    tr = [s.ev for s in done]
    validate(ctx, "ChunkViewTrace", tr, describe_sessions(done, tr))
    ctx.sample(short(tr[0]))
    ctx.cov["iterator_operations"] = sum(len(t) for t in tr)
    # views
    V = []
    for bits in CHUNK_BITS:
        for pad in (0, 1):
            for elem, w in ELEMS.items():
                if lcm(bits, w) > 64:
                    continue
                s = BSess("chunk_of_bits<%d, %s> over element kind %d" % (bits, bool(pad), elem))
                for L in range(0, 13):
                    for k in range(2 if not THOROUGH else 30):
                        s.chunks(bits, pad, elem, edgy(rng, L * w // 8), k % 2)
                if elem == 0:
                    for b in range(256):
                        s.chunks(bits, pad, elem, bytes([b]), b % 2)
                V.append(s)
    done = run_bits(ctx, exe, V)
    tr = [s.ev for s in done]
    validate(ctx, "EncTrace", tr, describe_sessions(done, tr))
    ctx.sample(short(tr[-1]))
    ctx.cov["views_compared"] = sum(len(t) for t in tr)
    done = run_bits(ctx, exe2, V)
    tr = [s.ev for s in done]
    validate(ctx, "EncTrace", tr, describe_sessions(done, tr), name="EncTrace-clang-ubsan")


# views: bits of a chunk, element kinds of the iterator driver
VIEW_BITS = (1, 3, 5, 6, 7, 8, 12, 16, 20, 32, 64) if not THOROUGH else CHUNK_BITS
VIEW_ELEMS = (0, 3, 4, 11, 20, 31)
VGEN = "INIT Init\nNEXT Next\nINVARIANTS %s\nCONSTRAINT Dump\nCONSTANTS Its={1,2,3} MaxOps=%d Lens={%s} Pars <- P\nCHECK_DEADLOCK FALSE\n"


def view_units():
    d = lambda v: "-DVERIF_CHUNKS=%s" % ",".join(map(str, v))
    return [("cview.cpp", ["-DVERIF_MAIN"], "main")] + [("cview.cpp", [d(VIEW_BITS[i::7])], "v%d" % i) for i in range(7)]


def view_model(ctx, depth, lens, pars, name, invs="PosOK", workers=1):
    mod = ctx.path("tlc-" + name)
    os.makedirs(mod, exist_ok=True)
    with open(os.path.join(mod, "MCView.tla"), "w") as f:
        f.write("---- MODULE MCView ----\nEXTENDS ChunkViewGen\nP == {%s}\n====\n" % ",".join("<<%d,%d,%s>>" % (w, o, "TRUE" if p else "FALSE") for w, o, p in pars))
    r = tlc_ok(ctx, "MCView", VGEN % (invs, depth, ",".join(map(str, lens))), workers=workers, name=name)
    hs = [json.loads(json.loads(x)[2:]) for x in r.out.split("\n") if x.startswith('"H ')]
    ctx.note("histories_enumerated", len(hs))
    return hs


class CSess(ESess):
    """operations on one chunk view and its iterators"""

    def view(self, bits, pad, elem, form, cn, data):
        self.bits, self.w = bits, ELEMS[elem]
        self.n = nchunks(bits, pad, self.w, len(data))
        self.pad = pad
        self.cmds.append("V %d %d %d %d %d x%s" % (bits, pad, elem, form, cn, data.hex()))
        self.ev.append(["view", ELEMS[elem], bits, bool(pad), list(data)])
        return self

    def equal(self, i, j):
        return self.op("q %d %d" % (i, j), ["equal", i, j, None], "q")

    def seat(self, moved):
        self.cmds.append("w %d" % moved)
        self.ev.append(["seat"])
        return self

    def refill(self, data):
        self.n = nchunks(self.bits, self.pad, self.w, len(data))
        self.cmds.append("r x%s" % data.hex())
        self.ev.append(["set", list(data)])
        return self

    def change(self, k, x):
        self.cmds.append("m %d %d" % (k, x))
        self.ev.append(["mut", k, list(x.to_bytes(self.w // 8, "big"))])
        return self


def nchunks(bits, pad, w, n):
    g = lcm(bits, w)
    return -(-8 * n // g) * (g // bits) if pad else -(-8 * n // bits)


def run_views(ctx, exe, S, timeout=200):
    cmdf, outf = ctx.path("wcmds.txt"), ctx.path("wout.txt")
    with open(cmdf, "w") as f:
        for s in S:
            f.write("\n".join(s.cmds) + "\n")
    try:
        r = subprocess.run([exe, cmdf, outf, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    if r.returncode == 9:
        raise CheckError("driver: " + r.stdout[-1500:])
    lines = open(outf).read().split("\n")
    i, done = 0, []

    def item(s, x):
        v, m, p = map(int, x.split(":"))
        return [list(v.to_bytes(8, "big"))[-(s.bits // 8):] if s.bits >= 31 else v, m if bool(p) == (m == s.bits) else -1]
    for s in S:
        for kind, pos in s.pend:
            line = lines[i] if i < len(lines) else ""
            i += 1
            if line == "" or line[0] == "X":
                s.ev = [e for e in s.ev[:pos] if e] + [["crash", line, s.ev[pos][0]]]
                return done + [s]
            f = line.split()
            e = s.ev[pos]
            if f[0] != kind:
                raise CheckError("driver out of step: %s for %s" % (line[:80], e))
            if kind == "d":
                e[2] = item(s, f[1])
            elif kind == "q" and f[1] == "-1":      # comparing two iterators is not offered
                s.ev[pos] = None
            elif kind in "xq":
                e[-1] = f[1] == "1"
            elif kind == "t":
                e[1] = [item(s, x) for x in f[1:]]
            else:
                e[1] = int(f[1])
        s.ev = [e for e in s.ev if e]
        done.append(s)
    if i < len(lines) and lines[i].startswith("X"):
        done[-1].ev.append(["crash", lines[i], "end"])
    return done


def views(ctx, rng, hs):
    """the enumerated histories over views of every kind"""
    combos = [(b, p, e) for b in VIEW_BITS for p in (0, 1) for e in VIEW_ELEMS if lcm(b, ELEMS[e]) <= 64]
    S = []
    for ops in (hs if THOROUGH else rng.sample(hs, min(len(hs), 2000))):
        b, p, e = combos[len(S) % len(combos)]
        L = rng.choice((0, 1, 2, 3, 4, 5)) if ["mut"] not in ops else rng.choice((1, 2, 3))
        form = rng.randrange(4 if e != 4 else 3)
        data = edgy(rng, L * ELEMS[e] // 8)
        s = CSess("chunk_of_bits<%d, %s> over element kind %d, form %d: %s" % (b, bool(p), e, form, json.dumps(ops))).view(b, p, e, form, rng.randrange(2), data)
        pos = {}

        def look():
            for i in sorted(pos):
                s.end(i)
                if pos[i] < s.n:
                    s.deref(i)
                for j in sorted(pos):
                    if rng.random() < 0.5:
                        s.equal(i, j)
        for o in ops:
            if o[0] in ("copy", "inc", "post") and (o[1] not in pos or (o[0] != "copy" and pos[o[1]] >= s.n)):
                continue                    # the source was left out
            if o[0] == "begin":
                s.begin(o[1])
                pos[o[1]] = 0
            elif o[0] == "copy":
                s.copy(o[1], o[2])
                pos[o[2]] = pos[o[1]]
            elif o[0] == "inc":
                s.inc(o[1])
                pos[o[1]] += 1
            elif o[0] == "post":
                s.post(o[1], o[2])
                pos[o[2]] = pos[o[1]]
                pos[o[1]] += 1
            elif o[0] == "mut":
                if form == 1:
                    continue
                s.change(rng.randrange(L) + 1, rng.getrandbits(s.w))
                pos = {}
            elif o[0] == "set":
                if form in (1, 3):
                    continue
                s.refill(edgy(rng, rng.randrange(7) * ELEMS[e] // 8))
                pos = {}
                if rng.random() < 0.5:
                    s.size()
            elif o[0] == "seat":
                s.seat(rng.randrange(2))
                pos = {}
            elif o[0] == "iter":
                s.iter()
            if len(S) % 3:
                look()
        while pos and any(x < s.n for x in pos.values()):
            i = rng.choice([i for i in pos if pos[i] < s.n])
            if rng.random() < 0.3 and len(pos) < 4:
                j = rng.choice([j for j in (1, 2, 3, 4) if j != i])
                s.post(i, j)
                pos[j] = pos[i]
            else:
                s.inc(i)
            pos[i] += 1
            if rng.random() < 0.5:
                look()
        look()
        S.append(s.iter().size())
    return S


def edgy(rng, L):
    k = rng.randrange(4)
    if k == 0:
        return bytes([rng.choice((0, 255, 128, 127, 1))]) * L
    if k == 1 and L:
        b = bytearray(L)
        b[rng.randrange(L)] = 1 << rng.randrange(8)
        return bytes(b)
    return rng.randbytes(L)
