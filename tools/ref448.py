"""Independent RFC 8032 Ed448 reference (plain Python integers). Development aid:
used to cross-check the Rust oracle and to construct corpus files; no check needs it."""
import hashlib
p = 2**448 - 2**224 - 1
L = 2**446 - 13818066809895115352007386748515426880336692474882178609894547503885
d = -39081 % p
By = 298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660
Bx = 224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710
B = (Bx, By)
assert (Bx*Bx + By*By - 1 - d*Bx*Bx*By*By) % p == 0
def inv(x): return pow(x, p-2, p)
def add(P, Q):
    x1,y1=P; x2,y2=Q
    t = d*x1*x2*y1*y2 % p
    return ((x1*y2+x2*y1)*inv(1+t) % p, (y1*y2-x1*x2)*inv(1-t) % p)
def padd(P,Q):
    X1,Y1,Z1=P; X2,Y2,Z2=Q
    A=Z1*Z2%p; Bq=A*A%p; C=X1*X2%p; D=Y1*Y2%p; E=d*C*D%p
    F=(Bq-E)%p; G=(Bq+E)%p; H=(X1+Y1)*(X2+Y2)%p
    return (A*F*(H-C-D)%p, A*G*(D-C)%p, F*G%p)
def mul(k, P):
    R=(0,1,1); Q=(P[0],P[1],1)
    while k:
        if k&1: R=padd(R,Q)
        Q=padd(Q,Q); k>>=1
    zi=inv(R[2]); return (R[0]*zi%p, R[1]*zi%p)
def encode(P):
    b=bytearray(P[1].to_bytes(57,'little'))
    if P[0]&1: b[56]|=0x80
    return bytes(b)
def decode(b):
    if len(b)!=57: return None
    s=b[56]>>7; y=int.from_bytes(b,'little') & ((1<<455)-1)
    if y>=p: return None
    u=(y*y-1)%p; v=(d*y*y-1)%p
    x=pow(u,3,p)*v*pow(pow(u,5,p)*pow(v,3,p)%p,(p-3)//4,p)%p
    if (v*x*x-u)%p: return None
    if x==0 and s: return None
    if x&1!=s: x=p-x
    return (x,y)
def H(m,n=114): return hashlib.shake_256(m).digest(n)
DOM=b'SigEd448\0\0'
def clamp(b):
    b=bytearray(b); b[0]&=0xfc; b[55]|=0x80; b[56]=0; return bytes(b)
def le(b): return int.from_bytes(b,'little')
def public(sk): return encode(mul(le(clamp(H(sk)[:57])),B))
def sign_sp(s,prefix,msg):
    A=encode(mul(s,B)); r=le(H(DOM+prefix+msg))%L; R=encode(mul(r,B))
    k=le(H(DOM+R+A+msg))%L
    return R+((r+k*s)%L).to_bytes(57,'little')
def sign(sk,msg):
    h=H(sk); return sign_sp(le(clamp(h[:57])),h[57:],msg)
def verify(A,sig,msg):
    if len(sig)!=114: return False
    a=decode(A); r=decode(sig[:57]); S=le(sig[57:])
    if a is None or r is None or S>=L: return False
    k=le(H(DOM+sig[:57]+A+msg))%L
    return mul(4*S%L,B)==add(mul(4,r),mul(4*k,a))
if __name__=='__main__':
    sk=bytes.fromhex("6c82a562cb808d10d632be89c8513ebf6c929f34ddfa8c9f63c9960ef6e348a3528c8a3fcc2f044e39a3fc5b94492f8f032e7549a20098f95b")
    pk=public(sk); print(pk.hex()); assert pk.hex()=="5fd7449b59b461fd2ce787ec616ad46a1da1342485a70e1f8a0ea75d80e96778edf124769b46c7061bd6783df1e50f6cd1fa1abeafe8256180"
    s=sign(sk,b''); print(s.hex()); assert verify(pk,s,b'')
    assert s.hex().startswith("533a37f6bbe457251f023c0d88f976ae2dfb504a843e34d2074fd823d41a591f2b233f034f628281f2fd7a22ddd47d7828c59bd0a21bfd398")
