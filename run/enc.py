"""Harness for the text encodings."""
from lib import *

ENCS = [("base64", "base64"), ("base64_no_padding", "base64_no_padding"), ("base64url", "base64url"), ("base32", "base32"),
        ("base32_no_padding", "base32_no_padding"), ("z_base32", "z_base32"), ("base16", "base16"), ("BASE16", "base16_uppercase"),
        ("base8", "base8"), ("base4", "base4"), ("base2", "base2")]
NAMES = [e for e, _ in ENCS]
UNIT = {e: 120 // (6 if "64" in e else 5 if "32" in e else {"base16": 4, "BASE16": 4, "base8": 3, "base4": 2, "base2": 1}[e]) for e, _ in ENCS}   # characters for 15 bytes
FORMS = list(range(12))
SIZED = [0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11]
MUTABLE = [0, 1, 2, 3, 4, 5, 9, 10, 11]


def enc_units(flags=(), encs=ENCS):
    return [("enc.cpp", list(flags), "main")] + [("enc_reg.cpp", list(flags) + ["-DVERIF_ENC=" + t, '-DVERIF_ENCNAME="%s"' % n], n) for n, t in encs]


CXX20 = ("-O2", "-std=c++20", "-ftrivial-auto-var-init=pattern")   # the standard the README asks for (no std::ranges::to), with assertions


def both_enc(ctx, flags=None):
    """the driver, and another build of it with some of the encodings"""
    some = ctx.rng.sample(ENCS, 4 if not THOROUGH else len(ENCS))
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build, ctx, "enc", enc_units()), ex.submit(build_alt, ctx, "encalt", enc_units(encs=some), **({"flags": flags} if flags else {}))
        return a.result(), (b.result(), {n for n, _ in some})


class ESess:
    def __init__(self, tag):
        self.cmds, self.ev, self.pend, self.crashed, self.tag = ["S"], [], [], False, tag

    def text(self, enc, bs, form=0, chart=0, cn=0):
        self.cmds.append("E %s %d %d %d x%s" % (enc, form, chart, cn, bs.hex()))
        self.ev.append(["text", enc, list(bs), -1, None])
        self.pend.append(("e", len(self.ev) - 1))
        return self

    def bigsize(self, enc, q, r, cn=0):
        """the announced size for 15 q + r bytes"""
        self.cmds.append("H %s %d %d" % (enc, cn, 15 * q + r))
        self.ev.append(["bigsize", enc, [q >> 30, q & (1 << 30) - 1], r, UNIT[enc], None])
        self.pend.append(("h", len(self.ev) - 1))
        return self

    def view(self, enc, bs, form=0, cn=0):
        self.cmds.append("V %s %d %d x%s" % (enc, form, cn, bs.hex()))
        self.ev.append(["view", enc, list(bs)])
        return self

    def op(self, c, ev, pend=None):
        self.cmds.append(c)
        self.ev.append(ev)
        if pend:
            self.pend.append((pend, len(self.ev) - 1))
        return self

    def begin(self, i): return self.op("b %d" % i, ["begin", i])
    def copy(self, i, j): return self.op("c %d %d" % (i, j), ["copy", i, j])
    def inc(self, i): return self.op("+ %d" % i, ["inc", i])
    def post(self, i, j): return self.op("p %d %d" % (i, j), ["post", i, j])
    def deref(self, i): return self.op("d %d" % i, ["deref", i, None], "d")
    def end(self, i): return self.op("e %d" % i, ["end", i, None], "x")
    def iter(self): return self.op("t", ["iter", None], "t")
    def size(self): return self.op("z", ["size", None], "z")
    def mut(self, k, v): return self.op("m %d %d" % (k, v), ["mut", k, v])
    def refill(self, bs): return self.op("r x" + bs.hex(), ["set", list(bs)])
    def seat(self, moved): return self.op("w %d" % moved, ["seat"])


def run_enc(ctx, exe, S, timeout=200, tag=""):
    cmdf, outf = ctx.path("ecmds%s.txt" % tag), ctx.path("eout%s.txt" % tag)
    with open(cmdf, "w") as f:
        for s in S:
            f.write("\n".join(s.cmds) + "\n")
    try:
        r = subprocess.run([exe, cmdf, outf, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    if r.returncode == 9:
        raise CheckError("driver: " + r.stdout[-1500:])
    lines = open(outf).read().split("\n")
    i, done = 0, []
    for s in S:
        for kind, pos in s.pend:
            line = lines[i] if i < len(lines) else ""
            i += 1
            if line == "" or line[0] == "X":
                s.crashed = True
                s.ev = s.ev[:pos] + [["crash", line, s.ev[pos][0]]]
                done.append(s)
                return done
            f = line.split()
            e = s.ev[pos]
            if f[0] != kind:
                raise CheckError("driver out of step: %s for %s" % (line[:80], e))
            if kind == "e":
                e[3], e[4] = int(f[1]), [int(x) for x in f[2:]]
            elif kind == "d":
                e[2] = int(f[1])
            elif kind == "x":
                e[2] = f[1] == "1"
            elif kind == "t":
                e[1] = [int(x) for x in f[1:]]
            elif kind == "z":
                e[1] = int(f[1])
            elif kind == "h":
                q, r = divmod(int(f[1]), e[4])
                e[5] = [[q >> 30, q & (1 << 30) - 1], r]
        s.ev = [e for e in s.ev if not (e[0] == "size" and e[1] == -1)]
        done.append(s)
    if i < len(lines) and lines[i].startswith("X"):
        done[-1].ev.append(["crash", lines[i], "end"])
    return done


def decide_enc(ctx, exe, S, name="EncTrace", alt=None, share=0.3):
    """alt: the driver built another way, on a share of the sessions"""
    T = also(ctx, [s for s in S if s.cmds[1].split()[1] in alt[1]], share) if alt else []
    done = run_enc(ctx, exe, S)
    done += run_enc(ctx, alt[0], T, tag="alt") if alt else []
    tr = [s.ev for s in done]
    validate(ctx, "EncTrace", tr, describe_sessions(done, tr), name=name)
    ctx.sample(short(tr[0]))
    ctx.sample(short(tr[-1]))
