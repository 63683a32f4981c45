"""C20: the command-line tools print the right digest for every file and name."""
from gen import *
from impl import refine, file
import stat, tempfile

NAMES = ["sha-224", "sha-256", "sha-384", "sha-512", "sha-512/224", "sha-512/256", "sha3-224", "sha3-256", "sha3-384", "sha3-512", "xxhash32", "xxhash64"] + \
        ["shake-%d/%d" % (a, b) for a in (128, 256) for b in (32, 64, 128, 256, 512, 1024, 2048)]
BLOCKS = {"sha-224": 64, "sha-256": 64, "sha3-224": 144, "sha3-256": 136, "sha3-384": 104, "sha3-512": 72, "xxhash32": 16, "xxhash64": 32}


def block(n):
    return BLOCKS.get(n, 168 if n.startswith("shake-128") else 136 if n.startswith("shake") else 128)


class Files:
    """Real files in a scratch directory, and the events that describe them."""

    def __init__(self, tools, root, tag, user):
        self.tools, self.dir, self.user = tools, os.path.join(root, tag), user
        os.mkdir(self.dir)
        os.chmod(self.dir, 0o755)
        self.ev, self.tag, self.cmds, self.crashed = [], tag, [], False

    def p(self, f):
        return os.path.join(self.dir, f)

    def c(self, b):
        return list(b if isinstance(b, bytes) else b.encode())

    def write(self, f, b):
        with open(self.p(f), "wb") as x:
            x.write(b)
        os.chmod(self.p(f), 0o644)
        self.ev.append(["write", self.c(f), list(b)])

    def extend(self, f, b):
        with open(self.p(f), "ab") as x:
            x.write(b)
        self.ev.append(["extend", self.c(f), list(b)])

    def truncate(self, f, n):
        os.truncate(self.p(f), n)
        self.ev.append(["truncate", self.c(f), n])

    def deny(self, f):
        if os.path.exists(self.p(f)):
            os.remove(self.p(f))
        with open(self.p(f), "wb") as x:
            x.write(b"secret content that must not be hashed")
        os.chmod(self.p(f), 0)
        self.ev.append(["deny", self.c(f)])

    def sub(self, f):
        """a directory that only serves as a place"""
        os.mkdir(self.p(f))
        os.chmod(self.p(f), 0o755)

    def same(self, f, b):
        """another name of something that is there"""
        self.cmds.append("(%s)" % f)
        self.ev.append(["write", self.c(f), list(b)])

    def link(self, f, to, b):
        os.symlink(to, self.p(f))
        self.same(f, b)

    def gone(self, f):
        """what f was another name of does not exist any more"""
        self.cmds.append("(no %s)" % f)
        self.ev.append(["remove", self.c(f)])

    def unlink(self, f):
        os.remove(self.p(f))
        self.gone(f)

    def mkdir(self, f):
        os.mkdir(self.p(f))
        self.ev.append(["mkdir", self.c(f)])

    def remove(self, f):
        os.remove(self.p(f))
        self.ev.append(["remove", self.c(f)])

    def go(self, tool, args):
        kw = dict(user=self.user, group=self.user, extra_groups=[]) if self.user else {}
        try:
            r = subprocess.run([os.path.join(self.tools, tool)] + args, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120, **kw)
        except subprocess.TimeoutExpired:
            return 124, b""
        return r.returncode if r.returncode >= 0 else 128 - r.returncode, r.stdout

    def checksum(self, *args):
        rc, out = self.go("checksum", list(args))
        self.cmds.append("checksum %r" % (args,))
        self.ev.append(["checksum", [self.c(a) for a in args], rc, list(out[:100000])])

    def example(self, *args):
        rc, out = self.go("example", list(args))
        self.cmds.append("example %r" % (args,))
        lines = []
        for line in out.split(b"\n"):
            if line.strip():
                a, _, b = line.partition(b" = ")
                lines.append([list(a.strip()), list(b)])
        self.ev.append(["example", [self.c(a) for a in args], rc, lines])

    def pattern(self, rows):
        """Files of a repeated pattern, from the largest to the smallest."""
        rows = sorted(rows, key=lambda r: -r[1])
        block, n = random.Random(20).randbytes(65521), rows[0][1]
        with open(self.p("z"), "wb") as x:
            while n:
                n -= x.write(block[:n])
        os.chmod(self.p("z"), 0o644)
        for name, n in rows:
            os.truncate(self.p("z"), n)
            rc, out = self.go("checksum", [name, "z"])
            self.cmds.append("checksum %s (%d bytes)" % (name, n))
            self.ev.append(["pattern", list(name.encode()), n, rc, list(out[:1000])])
        os.remove(self.p("z"))

    def piped(self, name, b, piece=0):
        """a pipe with a name: its size is unknown and it cannot be mapped; delivered in short pieces if asked"""
        with open(self.p("c"), "wb") as x:
            x.write(b)
        os.mkfifo(self.p("p"))
        os.chmod(self.p("p"), 0o644)
        feed = ["sh", "-c", "exec cat c > p"] if not piece else [sys.executable, "-c", TRICKLE, str(piece)]
        w = subprocess.Popen(feed, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.ev.append(["write", self.c("p"), list(b)])
        self.checksum(name, "p")
        try:
            w.wait(5)
        except subprocess.TimeoutExpired:
            w.kill()
            w.wait()
        self.remove("p")

    def broken(self, name, path):
        """a file of the system that opens but cannot be read"""
        try:
            with open(path, "rb", buffering=0) as x:
                x.read(1)
                return
        except OSError:
            pass
        self.ev.append(["deny", self.c(path)])
        self.checksum(name, path)

    def outside(self, name, path):
        """a file of the system, as it is"""
        try:
            with open(path, "rb") as x:
                b = x.read(100000)
        except OSError:
            return
        self.ev.append(["write", self.c(path), list(b)])
        self.checksum(name, path)

    def zeros(self, name, n):
        with open(self.p("z"), "wb") as x:
            x.truncate(n)
        rc, out = self.go("checksum", [name, "z"])
        os.remove(self.p("z"))
        self.cmds.append("checksum %s (%d zero bytes)" % (name, n))
        self.ev.append(["zeros", list(name.encode()), limbs(n), rc, list(out[:1000])])


TRICKLE = """
import os, sys, time
b, n = open("c", "rb").read(), int(sys.argv[1])
p = os.open("p", os.O_WRONLY)
for i in range(0, len(b), n):
    k = b[i:i + n]
    while k:
        k = k[os.write(p, k):]
    time.sleep(0.004)
"""


def patterns():
    """The rows of PatKat, by the power of two below their size."""
    rows = {}
    with open(os.path.join(VERIF, "spec", "PatKat.tla")) as x:
        for m in re.finditer(r'<<"([^"]+)", (\d+), <<', x.read()):
            rows.setdefault(int(m[2]).bit_length(), []).append((m[1], int(m[2])))
    return rows


def run(ctx):
    refine(ctx, [file(1, 6), file(3, 13), file(4, 17)] if not THOROUGH else [file(k, 40) for k in range(1, 9)])
    rng = ctx.rng
    exes = {}
    with ThreadPoolExecutor(2) as ex:
        for t, e in [(t, ex.submit(build, ctx, t, [(os.path.join(REPO, t + ".cpp"), [], "main")])) for t in ("checksum", "example")]:
            exes[t] = e.result()
    ctx.log("built")
    root = tempfile.mkdtemp(prefix="verif-c20-")
    try:
        os.chmod(root, 0o755)
        for t in exes:
            shutil.copy(exes[t], os.path.join(root, t))
            os.chmod(os.path.join(root, t), 0o755)
        user = None
        if os.geteuid() == 0:
            try:
                r = subprocess.run([os.path.join(root, "checksum")], user=65534, group=65534, extra_groups=[], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                user = 65534
            except (PermissionError, OSError, subprocess.SubprocessError):
                user = None
        S = sessions(ctx, rng, root, user)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    tr = [s.ev for s in S]
    ctx.note("runs of the tools", sum(1 for t in tr for e in t if e[0] in ("checksum", "example", "zeros", "pattern")))
    ctx.note("permission cases", 1 if user or os.geteuid() else 0)
    validate(ctx, "CliTrace", tr, describe_sessions(S, tr), name="CliTrace")
    for t in tr[:2]:
        ctx.sample(short(t))


def sessions(ctx, rng, root, user):
    S = []
    k = [0]

    def new(tag):
        k[0] += 1
        f = Files(root, root, "%03d" % k[0], user)
        f.tag = tag
        S.append(f)
        return f

    # every name: sizes around its blocks and around pages
    for n in NAMES:
        B = block(n)
        s = new(n + ": sizes")
        sizes = {0, 1, B - 1, B, B + 1, 2 * B, rng.randrange(3 * B), 55, 56, 111, 112, 4095, 4096, 4097} if not THOROUGH else set(range(0, 3 * B)) | {4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537}
        for z in sorted(sizes):
            s.write("f", rng.choice((rng.randbytes(z), rng.randbytes(z), bytes(z), b"\xff" * z, (b"line\n\r\0" * (z // 6 + 1))[:z])))
            s.checksum(n, "f")
        s.checksum(n)
        s.checksum(n, "absent")
        s.checksum(n, "")
    # larger ones
    for n in rng.sample(NAMES, 6) + ["sha-256", "xxhash64", "xxhash32"]:
        s = new(n + ": larger files")
        for z in (rng.randrange(20000, 60000), 65536, 65537):
            s.write("f", rng.randbytes(z))
            s.checksum(n, "f")
    # one file through its life
    for i in range(12 if not THOROUGH else 60):
        s = new("a file through its life %d" % i)
        s.write("a", rng.randbytes(rng.randrange(0, 300)))
        n = len(s.ev[-1][2])
        for _ in range(10):
            c = rng.randrange(4)
            if c == 0:
                b = rng.randbytes(rng.choice((1, 7, 64, 4096 - n if n < 4096 else 1, 200)))
                s.extend("a", b)
                n += len(b)
            elif c == 1:
                n = rng.randrange(n + 1)
                s.truncate("a", n)
            elif c == 2:
                s.write("b", s.ev[0][2] and rng.randbytes(5) or b"")
                s.checksum(rng.choice(NAMES), "b")
            s.checksum(rng.choice(NAMES), "a")
        s.remove("a")
        s.checksum(rng.choice(NAMES), "a")
    # names that are not known, with and without a file
    s = new("unknown names")
    s.write("f", b"content")
    bad = {"", " ", "sha", "sha-", "sha256", "SHA-256", "Sha-256", "sha-2", "sha-1", "md5", "sha-512/223", "sha-512/384", "sha-512/", "sha3", "sha3-", "sha3_256", "shake-128", "shake-256", "shake-128/",
           "shake-128/8", "shake-128/31", "shake-128/33", "shake-128/4096", "shake-512/32", "xxhash", "xxhash128", "xxh32", "xxh64", "f", "--help", "-h", "hexdec", "sha-256\n", "\u0161ha-256"}
    for n in NAMES:
        bad |= {n[:-1], n[1:], n + "x", n + " ", " " + n, n + "0", "x" + n, n.upper(), n.replace("-", "_"), n.replace("-", ""), n.replace("/", "-"), n[:-1] + chr(ord(n[-1]) + 1), n + n,
                n + "/" + "32"}
    for b in sorted(bad - set(NAMES)):
        s.checksum(b, "f")
    for b in rng.sample(sorted(bad - set(NAMES)), 20):
        s.checksum(b, "absent")
        s.checksum(b)
    s.checksum()
    # files that cannot be read
    s = new("unreadable files")
    s.mkdir("d")
    if user or os.geteuid():
        s.deny("no")
    s.write("yes", b"abc")
    for n in NAMES:
        s.checksum(n, "d")
        if user or os.geteuid():
            s.checksum(n, "no")
        s.checksum(n, "yes/x")
        s.checksum(n, "yes")
    # files without a size
    for n in NAMES if THOROUGH else rng.sample(NAMES, 8) + ["sha-256", "xxhash64"]:
        s = new("%s: pipes and files without a size" % n)
        for z in (0, 1, block(n), rng.randrange(5000), 65536, 70001) if THOROUGH or n == "sha-256" else (0, rng.randrange(1, 3 * block(n)), rng.randrange(4000, 9000)):
            s.piped(n, rng.randbytes(z))
        for piece in (64, 700, 2500):
            s.piped(n, rng.randbytes(rng.randrange(2, 5) * piece + rng.randrange(piece)), piece)
        for path in ("/dev/null", "/proc/version", "/proc/filesystems"):
            s.outside(n, path)
        s.broken(n, "/proc/self/mem")
    # strange file names
    s = new("file names")
    for f in ("with space", "sha-256", "-", "--", "*", "\u00e9\u4e2d", "a" * 200, "new\nline", "%s%n", "..a"):
        s.write(f, rng.randbytes(rng.randrange(50)))
        for n in rng.sample(NAMES, 3):
            s.checksum(n, f)
    # more arguments than there should be
    s = new("more arguments")
    for f in ("a", "b", "sha-512"):
        s.write(f, rng.randbytes(rng.randrange(1, 200)))
    for n in NAMES:
        for rest in (["b"], ["absent"], ["a"], ["sha-512"], ["--", "b"], ["b", rng.choice(NAMES)], ["b", "sha-512", "a"]):
            s.checksum(n, "a", *rest)
        s.checksum(n, "absent", "a")
        s.checksum("no", "a", n, "a")
        s.checksum("a", n)
    # names that lead to files by way of links and directories
    s = new("links")
    s.sub("dir")
    for i, n in enumerate(NAMES if THOROUGH else rng.sample(NAMES, 10)):
        b = rng.randbytes(rng.choice((0, 1, 64, 4096, 5000)))
        s.write("dir/f%d" % i, b)
        s.link("l%d" % i, "dir/f%d" % i, b)
        s.link("m%d" % i, "l%d" % i, b)
        for f in ("l%d", "m%d", "dir/f%d", "dir/../m%d", "./l%d"):
            f = f % i
            if f not in ("l%d" % i, "m%d" % i, "dir/f%d" % i):
                s.same(f, b)
            s.checksum(n, f)
        s.unlink("dir/f%d" % i)
        s.checksum(n, "dir/f%d" % i)
        for f in ("l%d" % i, "m%d" % i, "dir/../m%d" % i):
            s.gone(f)
            s.checksum(n, f)
    # the example
    s = new("example")
    s.example()
    for t in [b"", b"a", b"hello there!", b"\xff\xfe\x80", b"%s {} {:x}", b" = ", b"-", b"\n"] + [bytes(rng.randrange(1, 256) for _ in range(z)) for z in (15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 71, 72, 73, 103, 104, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 167, 168, 169, 255, 256, 257, 1000)]:
        s.example(t)
    # very large files (sparse)
    big = [("sha-256", (1 << 32) + 100), ("xxhash64", (1 << 32) + 100), ("xxhash32", (1 << 32) + 100), ("sha-512/256", (1 << 29) + 73), ("sha3-256", (1 << 29) + 73), ("shake-128/256", (1 << 29) + 73)]
    if THOROUGH:
        big = [(n, z) for n in ("sha-224", "sha-256", "sha-384", "sha-512", "sha-512/224", "sha-512/256", "sha3-256", "sha3-512", "shake-128/256", "shake-256/512", "xxhash32", "xxhash64") for z in ((1 << 29) + 73, (1 << 32) + 100)]
    jobs = []
    for n, z in big:
        f = new("%s of %d zero bytes" % (n, z))
        jobs.append((f, n, z))
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda j: j[0].zeros(j[1], j[2]), jobs))
    # files in between, of a repeated pattern: known answers
    jobs = [(new("%d bits of size" % k), r) for k, r in sorted(patterns().items(), reverse=True)]
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda j: j[0].pattern(j[1]), jobs))
    return S
