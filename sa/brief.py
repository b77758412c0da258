import sys; sys.path.insert(0,'/verif/sa')
from engine import *
import show
def trim(a):
    return ' '.join(x for x in sorted(a) if not x.startswith(('p:','fnitem','call:','mut','zip','index','enum','new:','R:','S:','fn:n_','fn:len')) and x not in('fn:new','int:0','int:1'))
if __name__=='__main__':
    W=int(os.environ.get('W','260')); C=Ctx(); md=int(os.environ.get('D','2')); want=os.environ.get('WANT','Ok')
    want=None if want=='None' else {'True':True,'False':False}.get(want,want)
    for n in sys.argv[1:]:
        a=n.split('@')
        for fn in C.prog.find(a[0],trait=a[1] if len(a)>1 and a[1] else None,self_ty=a[2] if len(a)>2 else None):
            r=C.facts(fn,want)
            print('==',fn.spath,len(r),fn.line,[(i,fn.argname(i)) for i in range(1,fn.nargs+1)])
            seen=set()
            for l in sorted(r,key=lambda l:(l.fr.depth,l.fr.uid,l.bb)):
                if l.fr.depth>md or l.kind=='exec' and not os.environ.get('X'): continue
                if l.kind in('ok','pred','exec') and l.name in ('branch','next','map_err','ok_or_else','then_some','collect','ok_or','deref','into_iter','iter','from_residual'): continue
                k=(l.kind,l.loc(),l.op,l.name,l.val,len(l.guards))
                if k in seen: continue
                seen.add(k)
                print('  '*l.fr.depth,repr(l).replace('crates/core/src/',''))
                if l.kind=='cmp': print('      L',trim(l.lhs)[:W]); print('      R',trim(l.rhs)[:W])
                elif l.name not in('any','all','read_scalar_slice') : print('      A',' | '.join(trim(x)[:W//3] for x in l.args()))
                for (k,loc,ls,_) in C.fa.guard_leaves(l): print('      GUARD',k,loc.split('/')[-1],[repr(x)[:60] for x in ls][:2])
                if l.loops: print('      D',trim(l.domain())[:W])
