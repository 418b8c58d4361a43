import hashlib,hmac,sys
M={'md5_128':'md5','sha1_160':'sha1','sha2_256':'sha256','sha2_224':'sha224','sha2_512':'sha512','sha2_384':'sha384','sha2_512_224':'sha512_224','sha2_512_256':'sha512_256','ripemd_160':'ripemd160'}
def sip(key,m):  # independent SipHash-2-4
    M64=(1<<64)-1
    k0=int.from_bytes(key[:8],'little');k1=int.from_bytes(key[8:],'little')
    v=[0x736f6d6570736575^k0,0x646f72616e646f6d^k1,0x6c7967656e657261^k0,0x7465646279746573^k1]
    r=lambda x,b:((x<<b)|(x>>(64-b)))&M64
    def rd():
        v[0]=(v[0]+v[1])&M64;v[1]=r(v[1],13);v[1]^=v[0];v[0]=r(v[0],32)
        v[2]=(v[2]+v[3])&M64;v[3]=r(v[3],16);v[3]^=v[2]
        v[0]=(v[0]+v[3])&M64;v[3]=r(v[3],21);v[3]^=v[0]
        v[2]=(v[2]+v[1])&M64;v[1]=r(v[1],17);v[1]^=v[2];v[2]=r(v[2],32)
    b=m+b'\0'*(7-len(m)%8)+bytes([len(m)&255])
    for i in range(0,len(b),8):
        w=int.from_bytes(b[i:i+8],'little');v[3]^=w;rd();rd();v[0]^=w
    v[2]^=0xff
    for _ in range(4): rd()
    return (v[0]^v[1]^v[2]^v[3]).to_bytes(8,'little')
n=0;bad=0
for l in open(sys.argv[1]):
    a,k,*d=l.split();d=d[0];k=int(k)
    m=bytes((i*7+k)&255 for i in range(k));key=bytes((i*11+3*k)&255 for i in range(k%150))
    e=None
    if a in M:
        try: e=hashlib.new(M[a],m).hexdigest()
        except ValueError: pass
    elif a.startswith('hmac_') and a[5:] in M:
        try: e=hmac.new(key,m,M[a[5:]]).hexdigest()
        except ValueError: pass
    elif a=='siphash_64': e=sip(b'\0'*16,m).hex()
    elif a in('fnv1a_32','fnv1a_64'):
        b,o,p=(32,0x811c9dc5,0x01000193) if a=='fnv1a_32' else (64,0xcbf29ce484222325,0x100000001b3)
        for c in m:o=((o^c)*p)&((1<<b)-1)
        e=o.to_bytes(b//8,'little').hex()
    if e is not None:
        n+=1
        if e!=d: bad+=1;print("MISMATCH",a,k,d,e)
print(n,"reference digests agree with hashlib/independent code,",bad,"mismatches")
sys.exit(1 if bad else 0)
