import sys,random; sys.path.insert(0,'/verif/vf')
import run
from scen import *
rng=random.Random(1)
def rt(i,P,n,api,d):
    k='f%d'%d
    s=Scn('rt%d'%i,P,seed=i,send=rng.randrange(3),poison=1)
    s.mark('m0'); s.new('a',k,api)
    inb,outb=tiling(rng,n,P),tiling(rng,n,P)
    s.setup('a',n,rng.randrange(d),inb,outb)
    s.alloc('x','a.fft'); s.alloc('y','a.fft')
    N=1
    for x in n:N*=x
    s.fill('x','a','in','sparse',*sparse(rng,inb,range(P),5))
    s.compute('a','x','x',1); s.read('x','a','out',262144,1)
    s.compute('a','x','x',-1); s.read('x','a','in',1,1)
    s.delete('a'); s.mark('m1','m0')
    return s
jobs=[]
for i in range(24):
    d=rng.choice([2,3]); P=rng.randint(1,5)
    jobs.append((rng.choice(['kd','ws']),rt(i,P,[rng.choice([2,3,4,5,6,8]) for _ in range(d)],rng.choice(['cpp','c','f']),d)))
bins=run.build(['kd','ws'])
raw=run.execute(jobs,bins)
tr=[run.trace(c,s,raw[s.id]) for c,s in jobs]
v,r=run.judge(tr)
for k,x in v.items(): print(k,x)
print(r['generated'],r['distinct'])
