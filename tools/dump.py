import sys,threading
sys.path.insert(0,'/verif')
sys.setrecursionlimit(100000); threading.stack_size(512*1024*1024)
from kstatic import build,show
from kstatic.runner import Ctx
def body():
    ctx=Ctx('T','quick',build.ensure())
    crate='kameo'
    args=sys.argv[1:]
    if args[0].startswith('-c'): crate=args[0][2:]; args=args[1:]
    allev=None; N=40; W=300
    while args[0].startswith('-'):
        a=args.pop(0)
        if a=='-a': allev=lambda E, st, ev, loc: ev
        elif a.startswith('-k'):
            ks=set(a[2:].split(',')); allev=lambda E,st,ev,loc: ev if ev[0] in ks else None
        elif a.startswith('-n'): N=int(a[2:])
        elif a.startswith('-w'): W=int(a[2:])
    kw={}
    while args and '=' in args[0]:
        k,v=args.pop(0).split('=',1); kw[k]=eval(v)
    for n in args:
        try:
            r=ctx.run(n,crate=crate,keep=allev, **kw)
        except Exception as e:
            import traceback; traceback.print_exc(); continue
        print('==',n,len(r.outs),'paths',len(r.E.covered),'fns',len(r.E.blocks),'blocks', 'unknown:',dict(r.E.unknown))
        seen=set()
        for o in r.outs:
            s=o.kind+' '+show.val(r.E.F,show.collapse(o.value))[:W]
            for e in (o.mon or ()):
                if isinstance(e,tuple): s+='\n        '+show.ev(r.E.F,e)[:W]
            if s in seen: continue
            seen.add(s)
            if len(seen)<=N: print('  ',s)
t=threading.Thread(target=body); t.start(); t.join()
