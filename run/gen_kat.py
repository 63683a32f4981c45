import hashlib
def m(n): return bytes((i*7+1)&255 for i in range(n))
algs={"sha224":(28,64),"sha256":(32,64),"sha384":(48,128),"sha512":(64,128),"sha3_224":(28,144),"sha3_256":(32,136),"sha3_384":(48,104),"sha3_512":(64,72),"shake128":(400,168),"shake256":(400,136)}
rows=[]
def row(a,p,n,d): rows.append('  <<"%s", %s, %d, <<%s>>>>'%(a,p,n,", ".join(map(str,d))))
for a,(o,B) in algs.items():
    for n in (0,1,3,B//2-9,B-1,B,B+1,2*B+5,300):
        x=hashlib.new(a,m(n))
        row(a,0,n,x.digest(o) if a[:5]=="shake" else x.digest())
for t in (224,256):
    for n in (0,3,111,112,127,128,300):
        row("sha512t",t,n,hashlib.new("sha512_%d"%t,m(n)).digest())
xx=[("xxh32",b"","02CC5D05"),("xxh32",b"a","550D7456"),("xxh32",b"abc","32D153FF"),("xxh32",b"Nobody inspects the spammish repetition","E2293B2F"),
("xxh64",b"","EF46DB3751D8E999"),("xxh64",b"a","D24EC4F1A98C6E5B"),("xxh64",b"abc","44BC2CF5AD770999"),("xxh64",b"Nobody inspects the spammish repetition","FBCEA83C8A378BF1")]
r2=['  <<"%s", <<%s>>, <<%s>>>>'%(a,", ".join(map(str,b)),", ".join(map(str,bytes.fromhex(d)))) for a,b,d in xx]
open('/verif/spec/Kat.tla','w').write('''-------------------------------- MODULE Kat --------------------------------
(* Known answers from independent implementations (OpenSSL, reference       *)
(* xxHash), used by SelfTest.tla.                                           *)
\\* <<name, param, n, digest>> for the message m[i] = (7i + 1) mod 256, i < n
Kats == <<
'''+",\n".join(rows)+'''>>
\\* <<name, message, digest>>, seed 0
XxKats == <<
'''+",\n".join(r2)+'''>>
=============================================================================
''')
