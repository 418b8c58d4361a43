# Derives the constants of the published algorithms from their definitions (exact integer arithmetic).
def primes(n):
    r=[]; k=2
    while len(r)<n:
        if all(k%p for p in r): r.append(k)
        k+=1
    return r
def iroot(n,k):
    lo,hi=0,1<<(n.bit_length()//k+2)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**k<=n: lo=m
        else: hi=m-1
    return lo
P=primes(80)
def frac(p,k,bits): return iroot(p<<(k*bits),k)&((1<<bits)-1)
from decimal import Decimal,getcontext
getcontext().prec=60
def dsin(x):
    x=Decimal(x); t=x; s=x; n=1
    while abs(t)>Decimal(10)**-50:
        t=-t*x*x/((2*n)*(2*n+1)); s+=t; n+=1
    return s
out=["// generated by gen_tables.py","#include <cstdint>","namespace ref{ namespace tab{"]
def arr(name,typ,vals,w):
    out.append("static const %s %s[%d]={%s};"%(typ,name,len(vals),",".join("0x%0*xULL"%(w,v) if w==16 else "0x%0*xU"%(w,v) for v in vals)))
arr("sha256_k","std::uint32_t",[frac(p,3,32) for p in P[:64]],8)
arr("sha256_h","std::uint32_t",[frac(p,2,32) for p in P[:8]],8)
arr("sha512_k","std::uint64_t",[frac(p,3,64) for p in P],16)
arr("sha512_h","std::uint64_t",[frac(p,2,64) for p in P[:8]],16)
arr("sha384_h","std::uint64_t",[frac(p,2,64) for p in P[8:16]],16)
arr("sha224_h","std::uint32_t",[frac(p,2,64)&0xffffffff for p in P[8:16]],8)
arr("md5_k","std::uint32_t",[int(abs(dsin(i+1))*(1<<32)) for i in range(64)],8)
out.append("} }")
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),"ref_tables.hpp"),"w").write("\n".join(out)+"\n")
