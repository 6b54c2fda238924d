"""Like nearmiss.py, residual = a single bit 2^b for every b in 0..447 for which a root exists.
Appends to corpus/nearmiss.txt as '<limb> <hex>'."""
from nearmiss import build, rng
def one(b):
    rng.seed(5000+b)
    return [(b//28,x.hex()) for x in list(build(0,2**b))[:1]]
if __name__=='__main__':
    from multiprocessing import Pool
    with Pool(4) as P:
        for r in P.imap(one,range(448)):
            for l,h in r: print(l,h,flush=True)
