"""Conditions under which a site is reached."""
from types import SimpleNamespace

from model import last_seg, callee_name

def conds(D, fr, b):
    return [(loc, ls) for loc, ls, _, _ in conds_at(D, fr, b)]


_CD = {}


def _cdep(fn):
    """block -> {(switch block, successor)} it is control dependent on; paths that end in an error or a panic are not counted"""
    c = _CD.get(fn)
    if c is not None:
        return c
    nodes = [x for x in fn.rpo() if fn.blocks[x]["t"][0] != "unreachable"]
    live = set(nodes)
    # blocks from which a normal return is reachable
    normal = {x for x in nodes if not leads_to_err(fn, x)}
    succ = {x: [y for y in fn.succ(x) if y in normal] for x in normal}
    full = (1 << (len(fn.blocks) + 1)) - 1
    pd = {x: full for x in normal}
    order = [x for x in reversed(nodes) if x in normal]
    changed = True
    while changed:
        changed = False
        for x in order:
            v = full if succ[x] else 0
            for y in succ[x]:
                v &= pd[y]
            v |= 1 << x
            if v != pd[x]:
                pd[x] = v
                changed = True
    out = {}
    for d in normal:
        if fn.blocks[d]["t"][0] != "switch" or len(set(succ[d])) < 2:
            continue
        for s_ in set(succ[d]):
            only_s = pd[s_] & ~(pd[d] & ~(1 << d))
            k = 0
            while only_s:
                low = only_s & -only_s
                out.setdefault(low.bit_length() - 1, set()).add((d, s_))
                only_s ^= low
    _CD[fn] = out
    return out


def conds_at(D, fr, b):
    """[(location, edge facts)]: conditions, other than iteration and error propagation, under which block b of the frame is reached from the root
    (transitive control dependence within each function of the call chain)"""
    out = []
    while fr is not None:
        fn = fr.fn
        cd = _cdep(fn)
        todo, seen = [b], set()
        while todo:
            for d, s_ in cd.get(todo.pop(), ()):
                if (d, s_) in seen:
                    continue
                seen.add((d, s_))
                if not any(x == d for x, y in seen if (x, y) != (d, s_)):
                    todo.append(d)
        for d, s_ in sorted(seen):
            t = fn.blocks[d]["t"]
            vs = [v for v, tb in t[2] if tb == s_]
            val = "else" if t[3] == s_ and not vs else "|".join(vs) if vs else None
            es = [("e", d, val)] if val is not None else []
            ls = list(D.fa._expand(fr, es, (), 0).values()) if es else []
            if len(ls) > 1:      # a condition joined from several branches repeats what was known before them
                known = D.fa.at(fr, d)
                ls = [l for l in ls if l.key() not in known] or ls
            if any(l.name in ("next", "next_back") for l in ls):
                continue
            if not ls:
                ls = [SimpleNamespace(kind="switch", ty=t[4], op=None, name="", val=None, lhs=D.fl.operand(fr, t[1], d, len(fn.blocks[d]["s"])), rhs=(), args=lambda: ())]
            out.append((fr.loc(d), ls, fr, es))
        b, fr = fr.bb, fr.parent
    return out


def reaches(fn, a, b, avoid):
    seen, todo = {avoid}, [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += fn.succ(x)
    return False


def atoms(l):
    at = set(l.lhs or ()) | set(l.rhs or ())
    if l.kind in ("ok", "pred", "exec"):
        for k in range(len(l.args())):
            at |= l.arg(k)
    return at


def only(cs, allow):
    """the conditions that are not of an allowed kind"""
    return [f"{loc}: " + "; ".join(f"{l.kind} {l.name or l.op} on " + " ".join(sorted(atoms(l)))[:80] for l in ls) for loc, ls in cs if not (ls and all(allow(l) for l in ls))]


def leads_to_err(fn, s):
    """every continuation leaves the function without a value (error propagation or panic)"""
    seen, todo = set(), [s]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = fn.blocks[x]["t"]
        if t[0] == "call" and "fn" in t[1] and last_seg(callee_name(t[1])) in ("from_residual",):
            continue
        if any(s_[0] == "=" and s_[2][0] == "agg" and s_[2][1] == "adt" and s_[2][5] == "Err" and s_[2][3].endswith("Result") for s_ in fn.blocks[x]["s"]):
            continue
        if t[0] in ("ret", "return"):
            return False
        todo += fn.succ(x)
    return True
