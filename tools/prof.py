import sys,time,collections,traceback
sys.path.insert(0,'/verif')
from vx import sym, run, api
cnt=collections.Counter()
o=sym.Engine.branch
def br(self,t):
  fr=[f for f in traceback.extract_stack() if 'balloon' in f.filename or 'checks' in f.filename]
  cnt[' < '.join(f'{f.filename.split("/")[-1]}:{f.lineno}' for f in fr[-1:-4:-1])]+=1
  return o(self,t)
sym.Engine.branch=br
import checks
prop,name=sys.argv[1:3]
for n in dir(run):
  pass
ob=[x for x in run.prop_module(prop).obligations('quick') if x.name==name][0]
t0=time.time()
e=sym.Engine(name,max_paths=ob.max_paths,deadline=time.time()+200,seed=1)
import random
import cProfile
def body():
  h=api.SymH(e,3)
  try: ob.fn(h,**ob.kw)
  finally:
    for obj,nm,old,had in reversed(h.undo):
      if had: setattr(obj,nm,old)
      else:
        try: delattr(obj,nm)
        except AttributeError: pass
pr=cProfile.Profile()
pr.enable()
e.explore(body)
pr.disable()
print(time.time()-t0, e.stats)
for k,v in cnt.most_common(15): print(v,k)
import pstats
if len(sys.argv)>3: pstats.Stats(pr).sort_stats('cumtime').print_stats(30)
