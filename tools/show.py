import sys; sys.path.insert(0,'/verif')
from engine import prog, interp
from engine.terms import show
cfg,q=sys.argv[1:3]
raw=len(sys.argv)>3 and sys.argv[3]=='raw'
P=prog.load(cfg)
for fid,f in sorted(P.fns.items()):
    if 'body' in f and (f['q']==q or fid==q):
        I=interp.Interp(P,f.get('cls'),raw=raw)
        print('=====',fid)
        for o in I.run(fid):
            print(o)
            for r,v in o.cells.items():
                if r.op!='L' : print('      ',show(r),':=',show(v)[:400])
            if o.unk: print('   UNK',o.unk)
