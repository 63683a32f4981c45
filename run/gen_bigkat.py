import hashlib,sys,os
sys.path.insert(0,'/verif/run')
from lib import stream
from concurrent.futures import ThreadPoolExecutor
pat=stream(77,16<<20)
N=[(1<<29)+73,(1<<32)+100]
jobs=[(a,0,a,o) for a,o in (("sha224",0),("sha256",0),("sha384",0),("sha512",0),("sha3_224",0),("sha3_256",0),("sha3_384",0),("sha3_512",0),("shake128",32),("shake256",32))]+[("sha512t",256,"sha512_256",0)]
def run(j):
    a,p,h,o=j
    out=[]
    for n in N:
        x=hashlib.new(h); q,r=divmod(n,len(pat))
        for _ in range(q): x.update(pat)
        x.update(pat[:r]); out.append((a,p,n,x.digest(o) if o else x.digest()))
    return out
with ThreadPoolExecutor(8) as ex: rows=sum(ex.map(run,jobs),[])
def limbs(v): return "<<%s>>"%", ".join(str((v>>(16*i))&65535) for i in range(4))
open('/verif/spec/BigKat.tla','w').write('''------------------------------- MODULE BigKat -------------------------------
(* Known answers (OpenSSL) for messages whose length in bits needs more     *)
(* than 32 bits and whose length in bytes does.  The message is the first n *)
(* bytes of the 16 MiB test pattern number 77 (run/lib.py: stream) repeated *)
(* without end.  <<name, param, n as a 64-bit word, digest>>                *)
BigKats == {
'''+",\n".join('  <<"%s", %d, %s, <<%s>>>>'%(a,p,limbs(n),", ".join(map(str,d))) for a,p,n,d in rows)+'''}
=============================================================================
''')
