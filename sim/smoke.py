import os,sys
sys.path[:0]=['/verif/sim/fakempi','/verif/sim','/repo']
for k in ('OMP_NUM_THREADS','OPENBLAS_NUM_THREADS','MKL_NUM_THREADS'): os.environ[k]='1'
import harness as H, core, random, time, traceback, shutil
H.boot('/dev/shm/smoke')
from collections import Counter
c=Counter(); t0=time.time(); ex={}
for seed in range(int(sys.argv[1]), int(sys.argv[2])):
    r=random.Random(seed); s=H.gen_spod(r)
    ctx=H.Ctx(s, core.Choices(seed), f'/dev/shm/smoke/r{seed}')
    try:
        x=H.make_data(s['data']); d=H.as_input(s['data'],x); rf=H.ref_spod(s,x)
        j=H.run_fit(ctx,s,d,ctx.path('res'))
        H.same_everywhere(j.results); H.check_spod(ctx,s,j.results[0],rf)
        c['ok']+=1
    except core.Violation as e:
        k=str(e)[:150]; c[k]+=1; ex.setdefault(k,seed)
    except Exception as e:
        traceback.print_exc(); c['HARN '+repr(e)[:100]]+=1
    shutil.rmtree(ctx.root)
print(time.time()-t0,'s',file=sys.stderr)
for k,v in c.most_common(40): print(v,k,ex.get(k),file=sys.stderr)
