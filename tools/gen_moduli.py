#!/usr/bin/env python3
"""Writes harness/h_math/src/moduli.rs: one ring type per modulus (the modulus is a compile-time
parameter of the code under test, so the set is fixed; operands are generated at run time)."""
import random
rnd=random.Random(20261119)
P=[]  # (limbs, modulus, prime)
def add(n,m,p=False):
    if 2<=m<=1<<(64*n-1) and (n,m) not in [(a,b) for a,b,_ in P]: P.append((n,m,p))
for m in [2,3,4,5,6,7,8,10,13,255,256,257,1000,12289,65535,65537,(1<<31)-1,1<<31,(1<<32)-5,(1<<32)-1,1<<32,(1<<32)+15,0xDEADBEEF,(1<<61)-1,(1<<62)-57,(1<<62),(1<<63)-25,(1<<63)-1,1<<63]:
    add(1,m,m in (3,5,7,13,257,12289,65537,(1<<31)-1,(1<<32)-5,(1<<32)+15,(1<<61)-1,(1<<62)-57,(1<<63)-25))
for _ in range(6): add(1,rnd.getrandbits(rnd.randrange(20,63))|3)
GL=(1<<64)-(1<<32)+1
for m in [3,1234,(1<<63),(1<<64)-1,1<<64,(1<<64)+1,GL,(1<<64)-59,(1<<65)-49,(1<<96)-17,(1<<127)-1,1<<127,(1<<127)-2,(1<<64)*(1<<62)+1]:
    add(2,m,m in (3,GL,(1<<64)-59,(1<<127)-1,(1<<65)-49,(1<<96)-17))
for _ in range(4): add(2,rnd.getrandbits(rnd.randrange(65,127))|1)
for m in [(1<<128)+51,(1<<191),(1<<191)-19,(1<<192)//3,rnd.getrandbits(180)|1,1<<129]:
    add(3,m,m==(1<<191)-19)
ED=(1<<255)-19; RI=(1<<252)+27742317777372353535851937790883648493
for m in [ED,RI,(1<<255),(1<<255)-1,(1<<192)+1,421249101157150430150591791601812858371395928330411389778873040897,rnd.getrandbits(250)|1,97]:
    add(4,m,m in (ED,RI,97))
for m in [(1<<511),(1<<511)-187,rnd.getrandbits(500)|1]: add(8,m,m==(1<<511)-187)
for m in [(1<<521)-1]: add(9,m,True)
for m in [(1<<1023)-1,rnd.getrandbits(1000)|1]: add(16,m)
for m in [rnd.getrandbits(319)|1]: add(5,m)
for m in [rnd.getrandbits(383)|1]: add(6,m)
for m in [rnd.getrandbits(447)]: add(7,m)
for n in range(10,16): add(n,rnd.getrandbits(64*n-2)|1)
def isprime(n):
    if n<4: return n>1
    if n%2==0: return False
    d=n-1;s=0
    while d%2==0: d//=2;s+=1
    for a in [2,3,5,7,11,13,17,19,23,29,31,37,41]:
        if a%n==0: continue
        x=pow(a,d,n)
        if x in(1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
P=[(n,m,isprime(m)) for n,m,_ in P]
o=["//! Written by tools/gen_moduli.py.","use crate::zq::{field, ring, Entry};","use sunscreen_math::BarrettConfig;",""]
for i,(n,m,p) in enumerate(P):
    lit = f"0x{m:X}" if i%3==0 else str(m)
    o+= ["#[derive(BarrettConfig)]",f'#[barrett_config(modulus = "{lit}", num_limbs = {n}{", is_field = true" if p else ""})]',f"pub struct C{i};"]
o+=["","pub fn all() -> Vec<Entry> {","    vec!["]
for i,(n,m,p) in enumerate(P):
    f="field" if p else "ring"
    o.append(f'        {f}::<{n}, C{i}>("{m}"),')
o+=["    ]","}"]
open("/verif/harness/h_math/src/moduli.rs","w").write("\n".join(o)+"\n")
print(len(P),"moduli",sum(p for *_,p in P),"fields")
