import sys, time, signal
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from check import load_program
from sa.core import *
p=load_program(); load_bool_attrs(p)
pat=sys.argv[1:] 
quals=[]
for q,f in p.funcs.items():
    if q.startswith("vspec"): continue
    if pat and not any(x in q for x in pat): continue
    quals.append((q,f))
seen=set()
def bad(*a): raise TimeoutError()
signal.signal(signal.SIGALRM,bad)
for q,f in sorted(quals):
    t=time.time()
    try:
        signal.alarm(30)
        i=Interp(p)
        s=i.run(f)
        r=s.frz()
        im=imprecise_term(r)
        ie=[e for e in s.events if any(isinstance(d,Term) and imprecise_term(d) is not None for d in e.data) or imprecise_bdd(e.guard) is not None]
        print("%-90s %5.1fs notes=%d ret=%s ev=%d impev=%d"%(q,time.time()-t,len(s.notes),("IMPRECISE "+show(im)[:60]) if im is not None else "ok",len(s.events),len(ie)), s.notes[:2] if s.notes else "")
    except BaseException as e:
        print("%-90s FAIL %s %s"%(q,type(e).__name__,str(e)[:100]))
    finally: signal.alarm(0)
