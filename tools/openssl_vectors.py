import subprocess,random,sys
sys.path.insert(0,'/verif/tools')
rng=random.Random(8032)
out=[]
pre=bytes.fromhex("3047020100300506032b6571043b0439")
seeds=[bytes.fromhex("6c82a562cb808d10d632be89c8513ebf6c929f34ddfa8c9f63c9960ef6e348a3528c8a3fcc2f044e39a3fc5b94492f8f032e7549a20098f95b")]
lens=[0,1,2,11,12,13,64,67,68,69,70,135,136,137,204,205,206,256,1023,147,148,149]
while len(seeds)<len(lens): seeds.append(bytes(rng.randrange(256) for _ in range(57)))
seeds+= [bytes(57),b'\xff'*57]; lens+=[5,300]
for s,n in zip(seeds,lens):
    m=bytes(rng.randrange(256) for _ in range(n))
    open('k.der','wb').write(pre+s); open('m','wb').write(m)
    pub=subprocess.check_output(['openssl','pkey','-inform','DER','-in','k.der','-pubout','-outform','DER'])[-57:]
    if n==0:
        out.append(' '.join([s.hex(),'-',pub.hex(),'533a37f6bbe457251f023c0d88f976ae2dfb504a843e34d2074fd823d41a591f2b233f034f628281f2fd7a22ddd47d7828c59bd0a21bfd3980ff0d2028d4b18a9df63e006c5d1c2d345b925d8dc00b4104852db99ac5c7cdda8530a113a0f4dbb61149f05a7363268c71d95808ff2e652600'])); continue  # RFC 8032 7.4 blank
    subprocess.check_call(['openssl','pkeyutl','-sign','-rawin','-keyform','DER','-inkey','k.der','-in','m','-out','s'])
    out.append(' '.join([s.hex(),m.hex() or '-',pub.hex(),open('s','rb').read().hex()]))
open('/verif/corpus/vectors.txt','w').write('\n'.join(out)+'\n')
print(out[0])
