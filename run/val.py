"""Harness for digest values."""
from enc import *

TYPES = {"hash_value<1>": 1, "hash_value<2>": 2, "hash_value<3>": 3, "hash_value<5>": 5, "hash_value<8>": 8, "hash_value<32>": 32, "hash_value<20>": 20, "hash_value<64>": 64,
         "xxhash32_value": 4, "sha224_value": 28, "sha256_value": 32, "xxhash64_value": 8, "sha384_value": 48, "sha512_value": 64, "sha512t_value<56>": 7, "sha3_224_value": 28,
         "sha3_256_value": 32, "shake128_value<8>": 1, "sha3_384_value": 48, "sha3_512_value": 64, "shake128_value<256>": 32, "shake256_value<64>": 8, "sha512t_value<256>": 32,
         "own_tag_value": 11, "own_tag2_value": 5}
DEFENC = {"own_tag_value": "base32", "own_tag2_value": "base64"}
SHAKE_BITS = (8, 16, 24, 32, 64, 72, 128, 256, 264, 512, 1344, 1352, 2048, 4096)
MC = "INIT Init\nNEXT Next\nINVARIANTS TotalOrder PrefixEq Stable RoundTrip Splits\nCONSTANTS Bytes = {%s} MaxLen = %d\nCHECK_DEADLOCK FALSE\n"


A62 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
ALPHABETS = {"base64": (A62 + "+/", 4), "base64_no_padding": (A62 + "+/", 0), "base64url": (A62 + "-_", 0), "base32": ("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 8),
             "base32_no_padding": ("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 0), "z_base32": ("ybndrfg8ejkmcpqxot1uwisza345h769", 0), "base16": ("0123456789abcdef", 0),
             "BASE16": ("0123456789ABCDEF", 0), "base8": ("01234567", 8), "base4": ("0123", 0), "base2": ("01", 0)}


def lib_text(enc, b):
    """a text that is likely to be the encoded one: only a stimulus, the specification has its own definition"""
    a, group = ALPHABETS[enc]
    w = len(a).bit_length() - 1
    bits = "".join("{:08b}".format(x) for x in b)
    bits += "0" * (-len(bits) % w)
    t = "".join(a[int(bits[i:i + w], 2)] for i in range(0, len(bits), w))
    return t + "=" * (-len(t) % group if group else 0)


def defenc(t):
    return DEFENC.get(t, "base16")


MORE = {"hash_value<%d>" % n: n for n in (7, 16, 21, 9, 17, 33, 12, 40, 65)}


# longer than 256 bytes
BIG = {"hash_value<257>": 257, "shake128_value<2064>": 258}


def val_units(flags, more=False, big=False):
    TYPES.update(MORE if more else {})
    TYPES.update(BIG if big else {})
    return [("val.cpp", [], "main")] + [("val_reg.cpp", ["-DVERIF_GROUP=%d" % g] + list(flags(g)), "g%d" % g) for g in [*range(11 if more else 8), *((11, 12) if big else ())]]


def facts(ctx):
    """the definitions themselves, over every triple of small byte strings"""
    tlc_ok(ctx, "ValueMC", MC % (("0,1,127,128,255", 2) if not THOROUGH else ("0,1,127,128,255", 3)), name="ValueMC")


def h(b):
    return "x" + b.hex()


def cut_lengths(n):
    """the prefixes and suffixes the driver takes"""
    return list(range(n + 1)) if n <= 100 else [0, 1, 2, 64, 255, 256, n - 3, n - 1, n]


class VSess:
    def __init__(self, tag):
        self.cmds, self.ev, self.pend, self.crashed, self.tag = ["S"], [], [], False, tag

    def op(self, cmd, ev, kind):
        self.cmds.append(cmd)
        self.ev.append(ev)
        self.pend.append((kind, len(self.ev) - 1))
        return self

    def parse(self, t, form, chart, text):
        return self.op("P %s %d %d %s" % (t, form, chart, ",".join(str(ord(c)) for c in text)), ["parse", "%s, form %d, width %d" % (t, form, chart), [ord(c) for c in text], None], "p")

    def zero(self, t, how):
        return self.op("D %s %d" % (t, how), ["zero", "%s, form %d" % (t, how), TYPES[t], None], "p")

    def show(self, t, how, chart, b):
        return self.op("T %s %d %d %s" % (t, how, chart, h(b)), ["print", "%s, way %d, width %d" % (t, how, chart), defenc(t), list(b), None], "t")

    def showas(self, t, how, chart, enc, b):
        return self.op("U %s %d %d %s %s" % (t, how, chart, enc, h(b)), ["print", "%s, named way %d, width %d" % (t, how, chart), enc, list(b), None], "t")

    def cmp(self, t, a, b):
        return self.op("C %s %s %s" % (t, h(a), h(b)), ["cmp", t, list(a), list(b), None], "c")

    def xcmp(self, fn, a, b):
        return self.op("K %d %d %d %s %s" % (fn, 8 * len(a), 8 * len(b), h(a), h(b)), ["xcmp", fn, list(a), list(b), None], "c")

    def cuts(self, t, suffix, b):
        return self.op("X %s %d %s" % (t, suffix, h(b)), ["suffixes" if suffix else "prefixes", list(b), cut_lengths(len(b)), None], "x")

    def fseq(self, t, chart, enc, a, b, text):
        return self.op("E %s %d %s %s %s %s" % (t, chart, enc, h(a), h(b), ",".join(str(ord(c)) for c in text) or ","), ["fseq", "%s, width %d" % (t, chart), enc, list(a), list(b), [ord(c) for c in text], None], "e")

    def format(self, t, way, chart, fs, b):
        c = [ord(x) for x in fs]
        return self.op("F %s %d %d %s %s" % (t, way, chart, ",".join(map(str, c)) or ",", h(b)), ["format", "%s, width %d" % (t, chart), defenc(t), c, list(b), None], "f")

    def fmtview(self, t, way, chart, enc, fs, b):
        c = [ord(x) for x in fs]
        return self.op("G %s %d %d %s %s %s" % (t, way, chart, enc, ",".join(map(str, c)) or ",", h(b)), ["fmtview", "encoded view of %s, width %d" % (t, chart), enc, c, list(b), None], "f")


def run_val(ctx, exe, S, timeout=200, tag=""):
    cmdf, outf = ctx.path("vcmds%s.txt" % tag), ctx.path("vout%s.txt" % tag)
    with open(cmdf, "w") as f:
        for s in S:
            f.write("\n".join(s.cmds) + "\n")
    try:
        r = subprocess.run([exe, cmdf, outf, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    if r.returncode == 9:
        raise CheckError("driver: " + r.stdout[-1500:])
    lines = open(outf).read().split("\n")
    i, done = 0, []
    for s in S:
        for kind, pos in s.pend:
            line = lines[i] if i < len(lines) else ""
            i += 1
            if line == "" or line[0] == "X":
                s.ev = [e for e in s.ev[:pos] if e] + [["crash", line, s.ev[pos][:2]]]
                return done + [s]
            f = line.split()
            e = s.ev[pos]
            if f[0] == "-":
                s.ev[pos] = None
            elif kind in "pt":
                e[-1] = [int(x) for x in f[1:]]
            elif kind == "c":
                e[-1] = [x == "1" for x in f[1:7]] + [int(f[7])]
            elif kind == "e":
                e[-1] = [x == "1" for x in f[1:]]
            elif kind == "x":
                e[-1] = [list(bytes.fromhex(x[1:])) for x in f[1:]]
            elif kind == "f":
                e[-1] = [-1] if f[0] == "r" else [int(x) for x in f[1:]]
        s.ev = [e for e in s.ev if e]
        done.append(s)
    if i < len(lines) and lines[i].startswith("X"):
        done[-1].ev.append(["crash", lines[i], "end"])
    return done


def decide_val(ctx, exe, S, name="ValueTrace", alt=None, share=0.3, how="optimised build without assertions"):
    T = also(ctx, S, share, how) if alt else []
    done = run_val(ctx, exe, S)
    done += run_val(ctx, alt, T, tag="alt") if alt else []
    tr = [s.ev for s in done]
    validate(ctx, "ValueTrace", tr, describe_sessions(done, tr), name=name)
    ctx.note("observations", sum(len(t) for t in tr))
    ctx.sample(short(tr[0]))
    ctx.sample(short(tr[-1]))


def val_bytes(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return bytes([rng.choice((0, 1, 0x0f, 0xf0, 0x7f, 0x80, 0xff))]) * n
    if k == 1:
        b = bytearray(n)
        b[rng.randrange(n)] = rng.choice((1, 0x10, 0x80, 0xff))
        return bytes(b)
    return rng.randbytes(n)
