"""Constructs 57-byte strings that are NOT curve points but whose curve-equation residual,
in the projective form the decoder uses, is k*2^(28*i): non-zero in a single limb only.
Output: corpus/nearmiss.txt, lines '<limb> <hex>'.  Roots found by Cantor-Zassenhaus."""
import random, sys
from ref448 import p, d, decode
rng=random.Random(448)
def trim(a):
    while a and a[-1]==0: a.pop()
    return a
def padd(a,b):
    n=max(len(a),len(b)); return trim([((a[i] if i<len(a) else 0)+(b[i] if i<len(b) else 0))%p for i in range(n)])
def psub(a,b): return padd(a,[-x%p for x in b])
def pmul(a,b):
    if not a or not b: return []
    r=[0]*(len(a)+len(b)-1)
    for i,x in enumerate(a):
        for j,y in enumerate(b): r[i+j]=(r[i+j]+x*y)%p
    return trim(r)
def pdivmod(a,b):
    a=a[:]; q=[0]*max(0,len(a)-len(b)+1); ib=pow(b[-1],p-2,p)
    while len(a)>=len(b):
        c=a[-1]*ib%p; s=len(a)-len(b); q[s]=c
        for i,x in enumerate(b): a[i+s]=(a[i+s]-c*x)%p
        trim(a)
    return q,a
def pmod(a,b): return pdivmod(a,b)[1]
def pgcd(a,b):
    while b: a,b=b,pmod(a,b)
    i=pow(a[-1],p-2,p); return [x*i%p for x in a]
def ppow(a,e,m):
    r=[1]
    for bit in bin(e)[2:]:
        r=pmod(pmul(r,r),m)
        if bit=='1': r=pmod(pmul(r,a),m)
    return r
def roots(f):
    f=f[:]
    g=pgcd(f,psub(ppow([0,1],p,f),[0,1]))
    out=[]; st=[g]
    while st:
        g=st.pop()
        if len(g)<=1: continue
        if len(g)==2: out.append(-g[0]*pow(g[1],p-2,p)%p); continue
        while True:
            h=pgcd(g,psub(ppow([rng.randrange(p),1],(p-1)//2,g),[1])) if True else 0
            if 1<len(h)<len(g): st+= [h,pdivmod(g,h)[0]]; break
    return out
# x^2 = c/D with c=-(1-w), D=1-dw  (the non-square branch of the decoder)
D=[1,-d%p]; c=[-1%p,1]; w=[0,1]
wD=pmul(w,D)
dd=padd(c,wD); t=psub(wD,c); aa=psub(pmul([2],D),dd); b2=pmul([4],pmul(c,wD))
sq=lambda a:pmul(a,a)
X2=pmul(sq(aa),b2); Y2=pmul(sq(t),sq(dd)); Z2=pmul(sq(t),sq(aa)); T2=pmul(b2,sq(dd))
num=psub(psub(Y2,X2),psub(Z2,pmul([39082],T2)))
D4=sq(sq(D))
def isqr(x): return pow(x,(p-1)//2,p) in (0,1)
def build(limb,k):
    r=roots(psub(num,pmul([k*2**(28*limb)%p],D4)))
    for x in r:
        if not isqr(x) or isqr((1-x)*(1-d*x)%p): continue
        y=pow(x,(p+1)//4,p)
        assert y*y%p==x
        y=rng.choice([y,p-y])
        b=bytearray(y.to_bytes(57,'little')); b[56]|=rng.choice([0,0x80])
        assert decode(bytes(b)) is None
        yield bytes(b)
def one(limb):
    rng.seed(1000+limb); seen=[]; n=0
    while len(seen)<8 and n<400:
        n+=1
        k=rng.randrange(1,2**28)
        for b in build(limb,k):
            y=int.from_bytes(b[:56],'little'); y=min(y,p-y)
            if y in [s[0] for s in seen]: continue
            seen.append((y,b)); break
    return [(limb,b.hex()) for _,b in seen]
if __name__=='__main__':
    from multiprocessing import Pool
    with Pool(8) as P:
        for r in P.imap(one,range(16)):
            for l,h in r: print(l,h,flush=True)
