"""Framework shared by all checks: building harnesses from /repo's working
tree, recording sessions, validating them with TLC, writing evidence."""
import json, os, re, random, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CXX = os.environ.get("VERIF_CXX", "g++-14")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The check itself failed: no verdict."""


class CompileError(CheckError):
    """A harness using the public interface was rejected by the compiler."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


# --------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "build", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rng = random.Random("%s/%d/%s" % (prop, SEED, TIER))
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = []
        self.violations = []

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def note(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def replay_file(self, obj):
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:12]))
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return p

    def violation(self, what, obj):
        """Record a violation; raised at the end unless it is a known finding."""
        for k in self.known:
            if k["match"] in what:
                if k["match"] not in self.known_hit:
                    self.known_hit.append(k["match"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                return False
        raise Violation(what, self.replay_file({"property": self.prop, "what": what, "case": obj}))

    def evidence(self, nviol):
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "wall_s": round(time.time() - self.t0, 2), "violations": nviol,
              "assumptions": self.assumptions,
              "coverage": dict(self.cov, states=self.states, transitions=self.transitions,
                               traces_validated_against_impl=self.traces, samples=self.samples)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=\[(.*?)\] (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


def main(prop, fn):
    ctx = Ctx(prop)
    try:
        fn(ctx)
    except Violation as v:
        ctx.evidence(1)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        print("  " + v.what[:2000])
        sys.exit(1)
    except CompileError as e:
        # every harness compiles against the specified interface, so the library
        # no longer accepts a use of it (unless nothing compiles here at all)
        p = ctx.path("probe.cpp")
        with open(p, "w") as f:
            f.write("#include <cthash/cthash.hpp>\nint main() { return cthash::sha256{}.update(std::string_view(\"x\")).final().size() == 32 ? 0 : 1; }\n")
        r = subprocess.run([e.cmd[0]] + BASEFLAGS + ["-c", p, "-o", p + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("CHECK ERROR: the library does not compile: %s" % r.stdout[-2000:])
            sys.exit(2)
        what = "a use of the specified interface is rejected when compiled: %s" % " | ".join(x[:300] for x in e.errs[:3])
        ctx.evidence(1)
        print("VIOLATION property=%s replay=%s" % (prop, ctx.replay_file({"property": prop, "what": what, "case": {"command": e.cmd, "output": e.out[:6000]}})))
        print("  " + what)
        sys.exit(1)
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
    ctx.evidence(0)
    ctx.log("ok: states=%d transitions=%d traces=%d" % (ctx.states, ctx.transitions, ctx.traces), ctx.cov)
    shutil.rmtree(ctx.dir, ignore_errors=True)
    sys.exit(0)


# --------------------------------------------------------------- building
BASEFLAGS = ["-std=c++23", "-O2", "-g0", "-w", "-I", os.path.join(REPO, "include"), "-I", HARN]


def broken(r):
    """the compiler failed, but not because of the program: it was ended, or crashed, or found no memory"""
    return r.returncode != 0 and (r.returncode < 0 or "error:" not in r.stdout or "internal compiler error" in r.stdout or "Killed" in r.stdout or
                                  "terminated program" in r.stdout or "virtual memory exhausted" in r.stdout or "out of memory" in r.stdout)


def build(ctx, name, units, flags=(), link=(), compiler=None, base=None, workers=CPUS):
    """units: list of (source, extra flags, tag); compiled in parallel."""
    cxx = compiler or CXX
    objs, jobs = [], []
    for src, extra, tag in units:
        o = ctx.path("%s-%s.o" % (name, tag))
        objs.append(o)
        if not os.path.isabs(src):
            src = os.path.join(HARN, src)
        jobs.append([cxx] + list(base or BASEFLAGS) + list(flags) + list(extra) + ["-c", src, "-o", o])

    def run(cmd):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(workers) as ex:
        for cmd, r in zip(jobs, list(ex.map(run, jobs))):
            if broken(r) and cxx == CXX:
                r = run(cmd)                # once more, with nothing beside it
            if r.returncode:
                text = "compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:])
                errs = [x for x in r.stdout.split("\n") if "error:" in x]
                if broken(r):
                    raise CheckError(text)
                e = CompileError(text)
                e.cmd, e.errs, e.out = cmd, errs, r.stdout
                raise e
    exe = ctx.path(name)
    r = run([cxx] + objs + ["-o", exe, "-pthread"] + list(link) + [f for f in flags if f.startswith("-fsan")])
    if r.returncode:
        raise CheckError("link failed: %s" % r.stdout[-3000:])
    return exe


def build_alt(ctx, name, units, flags=("-O2", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"), fallback=("-O3",)):
    """The same driver built another way: by clang where it can, else by gcc; optimised, no assertions."""
    objs, jobs = [], []
    base = [x for x in BASEFLAGS if not x.startswith("-O")] + list(flags)
    for src, extra, tag in units:
        o = ctx.path("%s-%s.o" % (name, tag))
        objs.append(o)
        rest = list(extra) + ["-c", src if os.path.isabs(src) else os.path.join(HARN, src), "-o", o]
        jobs.append((["clang++"] + base + ["-fno-crash-diagnostics"] + rest, [CXX] + base + list(fallback) + rest))

    def one(j):
        try:
            if subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150).returncode == 0:
                return 1, None
        except (OSError, subprocess.TimeoutExpired):
            pass
        return 0, subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(CPUS) as ex:
        for (c, r), (_, cmd) in zip(ex.map(one, jobs), jobs):
            ctx.note("units_built_by_clang", c)
            if r is not None and r.returncode:
                text = "compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:])
                errs = [x for x in r.stdout.split("\n") if "error:" in x]
                if broken(r):
                    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode == 0:
                        continue
                    errs = [x for x in r.stdout.split("\n") if "error:" in x]
                if broken(r):
                    raise CheckError(text)
                e = CompileError(text)
                e.cmd, e.errs, e.out = cmd, errs, r.stdout
                raise e
    exe = ctx.path(name)
    r = subprocess.run([CXX] + objs + ["-o", exe, "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("link failed: %s" % r.stdout[-3000:])
    return exe


def both(ctx, name, units):
    """the driver as usual, and built another way"""
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build, ctx, name, units), ex.submit(build_alt, ctx, name + "alt", units)
        return a.result(), b.result()


def also(ctx, S, share, how="optimised build without assertions"):
    """copies of a share of the sessions, for the other build"""
    import copy
    out = []
    for s in S:
        if ctx.rng.random() < share:
            c = copy.deepcopy(s)
            c.tag = "%s (%s)" % (s.tag, how)
            out.append(c)
    return out


# ---------------------------------------------------------------- streams
M64 = (1 << 64) - 1
_streams = {}


def stream(k, n):
    """The pseudo-random byte stream number k (as in harness/main.cpp)."""
    b = _streams.get(k, b"")
    if len(b) < n:
        want = (n + 65535) // 65536 * 65536
        x = (k * 0x100000001B3 + 12345) & M64
        out = bytearray()
        for _ in range(want // 8):
            x = (x + 0x9E3779B97F4A7C15) & M64
            z = x
            z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
            z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
            out += (z ^ (z >> 31)).to_bytes(8, "little")
        b = _streams[k] = bytes(out)
    return b[:n]


def limbs(v, n=4):
    return [(v >> (16 * i)) & 0xFFFF for i in range(n)]


# --------------------------------------------------------------- sessions
class Sess:
    """One history: commands for the driver and the events they must produce."""
    __slots__ = ("cmds", "ev", "pend", "crashed", "tag")

    def __init__(self, tag=None):
        self.cmds, self.ev, self.pend, self.crashed, self.tag = ["S"], [], [], False, tag

    # alg: (driver name, spec name, spec param, seed)
    def new(self, o, alg):
        self.cmds.append("N %d %s %d" % (o, alg.drv, alg.seed))
        self.ev.append(["new", o, alg.name, alg.param])
        return self

    def upd_cmd(self, o, via, ref):
        self.cmds.append("U %d %d %s" % (o, via, ref))
        self.ev.append(None)
        self.pend.append(("u", len(self.ev) - 1))

    def upd(self, o, data, via=0):
        ref = "x" + data.hex() if len(data) else "x"
        self.upd_cmd(o, via, ref)
        self.ev[-1] = ["upd", o, list(data)]
        return self

    def upds(self, o, k, off, n, via=0):
        """n bytes of stream k from off"""
        self.upd_cmd(o, via, "s%d:%d:%d" % (k, off, n))
        self.ev[-1] = ["upd", o, list(stream(k, off + n)[off:])]
        return self

    def updnull(self, o, via=0):
        self.upd_cmd(o, via, "n")
        self.ev[-1] = ["upd", o, []]
        return self

    def fin(self, o, n=0, via=0):
        self.cmds.append("F %d %d %d" % (o, via, n))
        self.ev.append(["fin", o, None])
        self.pend.append(("f", len(self.ev) - 1))
        return self

    def peek(self, o, tmp=9, ns=(0,), via=0):
        """digests of copies of o"""
        e = ["fins", o]
        for n in ns:
            self.cmds.append("C %d %d" % (o, tmp))
            self.cmds.append("F %d %d %d" % (tmp, via, n))
            e.append(None)
            self.pend.append(("p%d" % (len(e) - 1), len(self.ev)))
        self.ev.append(e)
        return self

    def uaf(self, o, data, via=0):
        """update_and_final on an object that may hold something already (xxHash)"""
        self.cmds.append("Y %d %d %s" % (o, via, "x" + data.hex()))
        self.ev += [["upd", o, list(data)], ["fin", o, None]]
        self.pend.append(("y", len(self.ev) - 1))
        return self

    def copy(self, a, b):
        self.cmds.append("C %d %d" % (a, b))
        self.ev.append(["copy", a, b])
        return self

    def move(self, a, b):
        self.cmds.append("M %d %d" % (a, b))
        self.ev.append(["move", a, b])
        return self

    def assign(self, a, b, mv=False):
        self.cmds.append("%s %d %d" % ("B" if mv else "A", a, b))
        self.ev.append(["move" if mv else "copy", a, b])
        self.pend.append(("a", len(self.ev) - 1))
        return self

    def size(self, o):
        self.cmds.append("Z %d" % o)
        self.ev.append(["size", o, None])
        self.pend.append(("z", len(self.ev) - 1))
        return self

    def effects(self):
        self.cmds.append("E")
        self.ev.append(["effects", None])
        self.pend.append(("e", len(self.ev) - 1))
        return self

    def oneshot(self, o, alg, data, via=0, n=0, ref=None):
        self.cmds.append("O %s %d %d %d %s" % (alg.drv, alg.seed, via, n, ref or "x" + data.hex()))
        self.ev.append(["new", o, alg.name, alg.param])
        self.ev.append(["upd", o, list(data)])
        self.ev.append(["fin", o, None])
        self.pend.append(("o", len(self.ev) - 1))
        return self

    def events(self):
        return [e for e in self.ev if e is not None]


class Alg:
    def __init__(self, name, param=0, seed=0, drv=None):
        self.name, self.seed = name, seed
        self.param = param
        if name == "sha512t":
            self.drv = "sha512t_%d" % param
        elif name in ("xxh32", "xxh64"):
            self.drv = name
            self.param = limbs(seed, 2 if name == "xxh32" else 4)
        else:
            self.drv = name
        if drv:
            self.drv = drv
        self.block = {"sha224": 64, "sha256": 64, "sha384": 128, "sha512": 128, "sha512t": 128, "sha3_224": 144,
                      "sha3_256": 136, "sha3_384": 104, "sha3_512": 72, "shake128": 168, "shake256": 136,
                      "xxh32": 16, "xxh64": 32}[name]
        self.out = {"sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "sha512t": param // 8 if name == "sha512t" else 0,
                    "sha3_224": 28, "sha3_256": 32, "sha3_384": 48, "sha3_512": 64, "shake128": 0, "shake256": 0,
                    "xxh32": 4, "xxh64": 8}[name]
        self.xof = name.startswith("shake")
        self.xx = name.startswith("xx")

    def __repr__(self):
        return self.drv + ("" if not self.seed else "(%d)" % self.seed)


SHA2 = [Alg(a) for a in ("sha224", "sha256", "sha384", "sha512")]
SHA512T = [Alg("sha512t", t) for t in range(8, 512, 8) if t != 384]
SHA3 = [Alg(a) for a in ("sha3_224", "sha3_256", "sha3_384", "sha3_512")]
SHAKE = [Alg("shake128"), Alg("shake256")]
XXH = [Alg("xxh32"), Alg("xxh64")]


def run_driver(ctx, exe, sessions, timeout=200, wrap=(), tag=""):
    """Execute the sessions; fill in the observations."""
    cmdf, outf = ctx.path("cmds%s.txt" % tag), ctx.path("out%s.txt" % tag)
    with open(cmdf, "w") as f:
        for s in sessions:
            f.write("\n".join(s.cmds))
            f.write("\n")
    try:
        r = subprocess.run(list(wrap) + [exe, cmdf, outf, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    if r.returncode == 9:
        raise CheckError("driver: %s" % r.stdout[-2000:])
    with open(outf) as f:
        lines = f.read().split("\n")
    done = fill(sessions, lines)
    if r.returncode != 0 and done == len(sessions):
        raise CheckError("driver failed (%d): %s" % (r.returncode, r.stdout[-2000:]))
    if done < len(sessions) and not sessions[done - 1].crashed:
        raise CheckError("driver stopped early (%d): %s" % (r.returncode, r.stdout[-2000:]))
    return sessions[:done]


def fill(sessions, lines):
    i = 0
    for k, s in enumerate(sessions):
        for kind, pos in s.pend:
            line = lines[i] if i < len(lines) else ""
            i += 1
            if line == "" or line[0] == "X":
                s.crashed = True
                s.ev = s.ev[:pos + 1] if pos < len(s.ev) else s.ev
                what = s.ev[pos] if s.ev[pos] else ["?"]
                s.ev[pos] = ["crash", line, what[0]]
                return k + 1
            if kind == "u":
                if line == "u 0":
                    s.ev[pos] = None
            elif kind in ("f", "o"):
                h = line[2:]
                if h == "-":
                    if kind == "o":
                        s.ev[pos] = s.ev[pos - 1] = s.ev[pos - 2] = None
                    else:
                        raise CheckError("final not available: %s" % s.cmds)
                else:
                    s.ev[pos][2] = h
            elif kind == "y":
                if line[2:] == "-":
                    s.ev[pos] = s.ev[pos - 1] = None
                else:
                    s.ev[pos][2] = line[2:]
            elif kind[0] == "p":
                h = line[2:]
                if h == "-":
                    raise CheckError("final not available: %s" % s.cmds)
                s.ev[pos][int(kind[1:]) + 0] = h
            elif kind == "z":
                if line[2:] == "-":
                    s.ev[pos] = None
                else:
                    s.ev[pos][2] = int(line[2:])
            elif kind == "e":
                s.ev[pos][1] = int(line[2:])
            elif kind == "r":
                s.ev[pos][-1] = [int(x) for x in line[2:].split()]
            elif kind == "a":
                pass
    # a crash after the last observation
    if i < len(lines) and lines[i].startswith("X"):
        sessions[-1].ev.append(["crash", lines[i], "end"])
        sessions[-1].crashed = True
    return len(sessions)


def concrete(ev):
    """hex strings -> byte tuples, sizes -> 64-bit words"""
    out = []
    for e in ev:
        if e is None:
            continue
        if e[0] == "fin":
            e = [e[0], e[1], list(bytes.fromhex(e[2]))]
        elif e[0] == "fins":
            e = e[:2] + [list(bytes.fromhex(h)) for h in e[2:]]
        elif e[0] == "size":
            e = [e[0], e[1], limbs(e[2])]
        out.append(e)
    return out


# -------------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(ctx, module, cfg, env=None, workers=CPUS, timeout=600, extra=(), name=None, heap="6g", deadlock_ok=False):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    name = name or module
    d = ctx.path("tlc-" + name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            dst = os.path.join(d, f)
            if not os.path.exists(dst):
                os.symlink(os.path.join(SPEC, f), dst)
    cf = os.path.join(d, name + "_run.cfg")
    with open(cf, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cf] + list(extra) + [module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % name)
    res = TlcResult()
    res.out, res.rc, res.wall = r.stdout, r.returncode, time.time() - t
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    res.generated, res.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    with open(os.path.join(d, name + ".log"), "w") as f:
        f.write(r.stdout)
    return res


def tlc_ok(ctx, module, cfg, **kw):
    """A model check that must succeed whatever the implementation does."""
    r = tlc(ctx, module, cfg, **kw)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise CheckError("TLC rejected %s (rc %d):\n%s" % (kw.get("name") or module, r.rc, tail(r.out)))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    return r


def tail(s, n=3000):
    return "\n".join(l for l in s.split("\n") if not re.match(r"(Parsing|Semantic|Linting)", l))[-n:]


TRACE_CFG = "INIT Init\nNEXT Next\nINVARIANT TypeOK\nCHECK_DEADLOCK TRUE\n"


def validate(ctx, module, traces, describe, name=None, cfg=TRACE_CFG, env=None, timeout=800, heap="6g"):
    """traces: list of event lists.  Every one must be a behaviour of the
    machine in spec/<module>.tla; describe(i, l) turns a rejected event into a
    (text, replay object) pair."""
    if not traces:
        raise CheckError("nothing recorded")
    name = name or module
    live = list(range(len(traces)))
    while True:
        tf = ctx.path(name + ".trace.json")
        with open(tf, "w") as f:
            json.dump([traces[i] for i in live], f, separators=(",", ":"))
        e = {"VERIF_TRACE": tf}
        e.update(env or {})
        r = tlc(ctx, module, cfg, env=e, name=name, timeout=timeout, heap=heap)
        if r.rc == 0 and "No error has been found" in r.out:
            ctx.states += r.distinct
            ctx.transitions += r.generated
            ctx.traces += len(live)
            ctx.log("%s: %d traces, %d states, %.1fs TLC" % (name, len(live), r.distinct, r.wall))
            os.remove(tf)
            return r
        # an event of a shape the machine has no meaning for (a text where a
        # number belongs, an index out of range) is no event of any behaviour
        bad = re.search(r"Attempted to (check equality|compare|apply|access|enumerate|evaluate|compute|select)|Cannot (cast|compare)|non-enumerable|outside its domain|The (first|second|left|right) (argument|operand)", r.out)
        odd = "TLC threw an unexpected exception" in r.out and bad and "The behavior up to this point is" in r.out
        if "Deadlock reached" in r.out or odd:
            body = r.out[r.out.index("The behavior up to this point is" if odd else "Deadlock reached"):]
            ss = re.findall(r"/\\ s = (\d+)", body)
            ls = re.findall(r"/\\ l = (\d+)", body)
            if not ss or not ls:
                raise CheckError("cannot read TLC's trace:\n" + tail(r.out))
            i, l = live[int(ss[-1]) - 1], int(ls[-1])
            what, obj = describe(i, l - 1)
            ctx.violation(what, obj)        # raises unless it is a known finding
            live.remove(i)
            if not live:
                return None
            continue
        raise CheckError("TLC failed on %s (rc %d):\n%s" % (name, r.rc, tail(r.out)))


def describe_sessions(sessions, traces):
    def f(i, l):
        s = sessions[i]
        e = traces[i][l] if l < len(traces[i]) else ["?"]
        txt = "session %s: event %d not allowed by the specification: %s" % (s.tag, l + 1, short(e))
        return txt, {"tag": str(s.tag), "commands": s.cmds, "rejected_event": e, "index": l, "events": traces[i][:l + 1][-12:]}
    return f


def short(e, n=300):
    s = json.dumps(e)
    return s if len(s) < n else s[:n] + "..."
