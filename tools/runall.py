import sys,traceback,collections,time; sys.path.insert(0,'/verif')
from engine import prog, interp
import signal
def al(*a): raise TimeoutError()
signal.signal(signal.SIGALRM, al)
errs=collections.Counter()
for cfg in ('release','debug'):
    P=prog.load(cfg)
    ok=0
    for fid,f in sorted(P.fns.items()):
        if 'body' not in f: continue
        if len(sys.argv)>1 and sys.argv[1] not in fid: continue
        raw = f.get('cls','') and (P.derives(f['cls'],'pooya::SignalImpl') or f['cls'] in P.handles or f['cls']=='pooya::ValidName')
        t=time.time()
        try:
            signal.alarm(20)
            I=interp.Interp(P,f.get('cls'),raw=bool(raw))
            os=I.run(fid)
            u=[o.unk for o in os if o.unk]
            if u: print(cfg,'UNK',f['q'],u[0][:2]); 
            ok+=1
            if len(os)>60: print(cfg,'PATHS',len(os),f['q'])
        except TimeoutError:
            print(cfg,'TIMEOUT',fid)
        except interp.Undecided as x:
            print(cfg,'UNDEC',f['q'],x, I.where)
        except Exception as x:
            tb=traceback.extract_tb(sys.exc_info()[2])[-1]
            errs[(str(x)[:80],tb.filename.split('/')[-1],tb.lineno)]+=1
            print(cfg,'ERR',f['q'],type(x).__name__,str(x)[:80],tb.filename.split('/')[-1],tb.lineno,I.where)
        signal.alarm(0)
        if time.time()-t>2: print(cfg,'SLOW',f['q'],time.time()-t)
    print(cfg,'ok',ok)
print(errs)
