import sys; sys.path.insert(0,'/verif/sa')
from engine import *
def show(C,fn,want='Ok',kinds=('cmp','pred','ok'),full=True,infile=None,maxdepth=99):
    r=C.facts(fn,want)
    print('==',fn.spath,want,len(r), fn.file, fn.line, [ (i,fn.argname(i)) for i in range(1,fn.nargs+1)])
    for l in sorted(r,key=lambda l:(l.fr.depth,l.fr.uid,l.bb)):
        if l.kind not in kinds or l.fr.depth>maxdepth: continue
        if l.kind!='cmp' and l.name in ('branch','next','map_err','ok_or_else','then_some','collect','ok_or','deref','into_iter','iter'): continue
        print('  '*l.fr.depth,l)
        if full and l.kind=='cmp': print('        L',*sorted(l.lhs)); print('        R',*sorted(l.rhs)); 
        if full and l.kind in('ok','pred'): 
            for k,a in enumerate(l.args()): print('        a%d'%k,*sorted(a))
        for (k,loc,ls,_) in C.fa.guard_leaves(l): print('        GUARD',k,loc,[repr(x)+' L:'+' '.join(sorted(x.lhs))[:200]+' R:'+' '.join(sorted(x.rhs))[:200] if x.kind=='cmp' else repr(x) for x in ls])
        if full and l.loops: print('        D',*sorted(l.domain()))
def trim(a):
    return ' '.join(x for x in sorted(a) if not x.startswith(('p:','fnitem','int:','call:','mut','zip','index','enum','new:','op:Add','op:Shl','op:Sub','R:','S:')) and x not in('fn:new',))
def brief(C,fn,want='Ok',maxdepth=2,oknames=True,w=420):
    r=C.facts(fn,want)
    print('==',fn.spath,want,len(r), fn.file, fn.line, [ (i,fn.argname(i)) for i in range(1,fn.nargs+1)])
    for l in sorted(r,key=lambda l:(l.fr.depth,l.fr.uid,l.bb)):
        if l.fr.depth>maxdepth or l.kind=='exec': continue
        if l.kind in('ok','pred') and (l.name in ('branch','next','map_err','ok_or_else','then_some','collect','ok_or','deref','into_iter','iter') ): continue
        print('  '*l.fr.depth,l)
        if l.kind=='cmp': print('      L',trim(l.lhs)[:w]); print('      R',trim(l.rhs)[:w])
        elif oknames:
            print('      A',' | '.join(trim(a)[:w//2] for a in l.args()))
        for (k,loc,ls,_) in C.fa.guard_leaves(l): print('      GUARD',k,loc,[repr(x)[:90] for x in ls][:2])
        if l.loops: print('      D',trim(l.domain())[:w])
if __name__=='__main__':
    C=Ctx('/tmp/dump' if os.path.exists('/tmp/dump') else None)
    for n in sys.argv[1:]:
        a=n.split('@')
        for fn in C.prog.find(a[0],trait=a[1] if len(a)>1 and a[1] else None,self_ty=a[2] if len(a)>2 else None): (brief if os.environ.get('BRIEF') else show)(C,fn)
