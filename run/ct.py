"""Generated translation units: one computation, evaluated by the compiler and at run time."""
from gen import *

TYPES = {"sha224": "cthash::sha224", "sha256": "cthash::sha256", "sha384": "cthash::sha384", "sha512": "cthash::sha512",
         "sha512_224": "cthash::sha512t<224>", "sha512_256": "cthash::sha512t<256>", "sha512_56": "cthash::sha512t<56>",
         "sha3_224": "cthash::sha3_224", "sha3_256": "cthash::sha3_256", "sha3_384": "cthash::sha3_384", "sha3_512": "cthash::sha3_512",
         "shake128": "cthash::shake128", "shake256": "cthash::shake256", "xxh32": "cthash::xxhash32", "xxh64": "cthash::xxhash64"}
BLOCK = {"sha224": 64, "sha256": 64, "sha3_224": 144, "sha3_256": 136, "sha3_384": 104, "sha3_512": 72, "shake128": 168, "shake256": 136, "xxh32": 16, "xxh64": 32}
LENBYTES = {"sha224": 8, "sha256": 8}
ELEMS = ["std::byte", "char", "unsigned char", "signed char", "char8_t"]
XX = ("xxh32", "xxh64")


def block(a):
    return BLOCK.get(a, 128)


class Gen:
    """One translation unit; cases have ids, and what each means stays here."""

    def __init__(self, tag):
        self.tag, self.pre, self.body, self.meaning = tag, [], [], {}

    def case(self, code, meaning):
        i = "%s.%d" % (self.tag, len(self.meaning))
        self.meaning[i] = meaning
        self.body.append(code.replace("@ID@", '"%s"' % i))
        return i

    def text(self):
        return '#include "ct.hpp"\n' + "\n".join(self.pre) + "\nvoid run_%s() {\n\t" % self.tag + "\n\t".join(self.body) + "\n}\n"


def build_gen(ctx, name, gens, flags=()):
    us = []
    for g in gens:
        p = ctx.path("%s_%s.cpp" % (name, g.tag))
        with open(p, "w") as f:
            f.write(g.text())
        us.append((p, [], g.tag))
    p = ctx.path(name + "_all.cpp")
    with open(p, "w") as f:
        f.write("".join("void run_%s();\n" % g.tag for g in gens) + "void run_all() {\n" + "".join("\trun_%s();\n" % g.tag for g in gens) + "}\n")
    us += [(p, [], "all"), ("ct_main.cpp", [], "main")]
    return build(ctx, name, us, ["-O1", "-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=100000000"] + list(flags), workers=CPUS if not THOROUGH else 4)      # constant evaluation takes gigabytes


def run_gen(ctx, exe, gens):
    """lines of the program: id -> list of fields"""
    o = ctx.path(os.path.basename(exe) + ".out")
    try:
        r = subprocess.run([exe, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise CheckError("generated program timed out")
    if r.returncode:
        raise CheckError("generated program failed: %d %s" % (r.returncode, r.stdout[-1000:]))
    out, crash = {}, None
    for line in open(o):
        f = line.split()
        if f and f[0] == "X":
            crash = line.strip()
        elif f:
            out[f[0]] = f[1:]
    return out, crash


def maker(a, seed=0, bits=256):
    """struct Mk for ct.hpp"""
    t = TYPES[a]
    args = "%du" % seed if a == "xxh32" else "%dull" % seed if a == "xxh64" else ""
    fin = "h.template final<%d>()" % bits if a.startswith("shake") else "h.final()"
    one = ("template <typename S> static constexpr auto one(S in) { return %s; }" %
           ("cthash::simple<%s>(in%s)" % (t, ", " + args if args else "")) if not a.startswith("shake") else "")
    n = "mk_%s_%d_%d" % (a, seed, bits)
    return n, "struct %s { static constexpr auto make() { return %s{%s}; } static constexpr auto fin(auto & h) { return %s; } %s };" % (n, t, args, fin, one)


AGREE = "INIT Init\nNEXT Next\nINVARIANT TypeOK\nCHECK_DEADLOCK TRUE\nCONSTANT Injective = %s\n"
