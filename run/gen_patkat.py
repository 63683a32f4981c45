"""Known answers for files of a repeated 65521-byte pattern: OpenSSL, and for xxHash its specification in C."""
import hashlib, os, random, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
BLOCK = random.Random(20).randbytes(65521)
NAMES = {"sha-224": ("sha224", 0), "sha-256": ("sha256", 0), "sha-384": ("sha384", 0), "sha-512": ("sha512", 0), "sha-512/224": ("sha512_224", 0), "sha-512/256": ("sha512_256", 0),
         "sha3-224": ("sha3_224", 0), "sha3-256": ("sha3_256", 0), "sha3-384": ("sha3_384", 0), "sha3-512": ("sha3_512", 0)}
for a in (128, 256):
    for b in (32, 64, 128, 256, 512, 1024, 2048):
        NAMES["shake-%d/%d" % (a, b)] = ("shake_%d" % a, b // 8)
C = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef uint64_t u; typedef uint32_t w;
#define P1 11400714785074694791ull
#define P2 14029467366897019727ull
#define P3 1609587929392839161ull
#define P4 9650029242287828579ull
#define P5 2870177450012600261ull
#define Q1 2654435761u
#define Q2 2246822519u
#define Q3 3266489917u
#define Q4 668265263u
#define Q5 374761393u
static u r(u x, int n) { return (x << n) | (x >> (64 - n)); }
static w q(w x, int n) { return (x << n) | (x >> (32 - n)); }
static u L(const unsigned char *p) { u x; memcpy(&x, p, 8); return x; }
static w l(const unsigned char *p) { w x; memcpy(&x, p, 4); return x; }
int main(int c, char **v) {
	u n = strtoull(v[1], 0, 10), a[4] = {P1 + P2, P2, 0, 0 - P1}, i, h = P5;
	w b[4] = {Q1 + Q2, Q2, 0, 0u - Q1}, g = Q5;
	unsigned char *m = malloc(n + 8), *p = m;
	if (fread(m, 1, n, stdin) != n) return 1;
	if (n >= 32) {
		for (i = 0; i < n / 32; ++i) for (int k = 0; k < 4; ++k, p += 8) a[k] = r(a[k] + L(p) * P2, 31) * P1;
		h = r(a[0], 1) + r(a[1], 7) + r(a[2], 12) + r(a[3], 18);
		for (int k = 0; k < 4; ++k) { h ^= r(a[k] * P2, 31) * P1; h = h * P1 + P4; }
	}
	h += n;
	u t = n % 32;
	for (; t >= 8; t -= 8, p += 8) { h ^= r(L(p) * P2, 31) * P1; h = r(h, 27) * P1 + P4; }
	for (; t >= 4; t -= 4, p += 4) { h ^= (u)l(p) * P1; h = r(h, 23) * P2 + P3; }
	for (; t; --t, ++p) { h ^= *p * P5; h = r(h, 11) * P1; }
	h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; h ^= h >> 32;
	p = m;
	if (n >= 16) {
		for (i = 0; i < n / 16; ++i) for (int k = 0; k < 4; ++k, p += 4) b[k] = q(b[k] + l(p) * Q2, 13) * Q1;
		g = q(b[0], 1) + q(b[1], 7) + q(b[2], 12) + q(b[3], 18);
	}
	g += (w)n;
	t = n % 16;
	for (; t >= 4; t -= 4, p += 4) { g += l(p) * Q3; g = q(g, 17) * Q4; }
	for (; t; --t, ++p) { g += *p * Q5; g = q(g, 11) * Q1; }
	g ^= g >> 15; g *= Q2; g ^= g >> 13; g *= Q3; g ^= g >> 16;
	printf("%016llx %08x\n", (unsigned long long)h, g);
	return 0;
}'''


def content(n):
    return (BLOCK * (n // len(BLOCK) + 1))[:n]


if __name__ == "__main__":
    d = tempfile.mkdtemp()
    open(d + "/x.c", "w").write(C)
    subprocess.check_call(["gcc", "-O2", "-o", d + "/x", d + "/x.c"])

    def xx(b):
        a, c = subprocess.run([d + "/x", str(len(b))], input=b, stdout=subprocess.PIPE, check=True).stdout.split()
        return bytes.fromhex(a.decode()), bytes.fromhex(c.decode())
    assert xx(b"") == (bytes.fromhex("ef46db3751d8e999"), bytes.fromhex("02cc5d05"))
    assert xx(b"a") == (bytes.fromhex("d24ec4f1a98c6e5b"), bytes.fromhex("550d7456"))
    rng = random.Random(7)
    jobs = []
    for k in range(17, 28):
        for n in list(NAMES) + ["xxhash64", "xxhash32"]:
            if k > 24 and n not in ("sha-256", "sha-512", "sha3-256", "shake-128/256", "xxhash64", "xxhash32"):
                continue
            for z in (rng.randrange(1, 9), 4096 - rng.randrange(1, 9), rng.randrange(1 << k) if k < 25 else 4096 * rng.randrange(1, 9)):
                jobs.append((n, (1 << k) + z))

    def one(j):
        n, z = j
        b = content(z)
        if n[0] == "x":
            return (n, z, xx(b)[n == "xxhash32"])
        h, o = NAMES[n]
        x = hashlib.new(h, b)
        return (n, z, x.digest(o) if o else x.digest())
    with ThreadPoolExecutor(8) as ex:
        rows = list(ex.map(one, jobs))
    open(os.path.join(HERE, "../spec/PatKat.tla"), "w").write('''------------------------------- MODULE PatKat --------------------------------
(* Known answers for the first n bytes of a repeated pattern (OpenSSL; for   *)
(* xxHash: its specification in C), made by run/gen_patkat.py.               *)
(* <<name of the checksum tool, n, digest>>                                  *)
PatKats == {
''' + ",\n".join('  <<"%s", %d, <<%s>>>>' % (a, n, ", ".join(map(str, x))) for a, n, x in rows) + '''}
==============================================================================
''')
    print(len(rows))
