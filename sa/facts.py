"""Must-facts: what is known to have been compared, validated or executed whenever a point (usually the
accepting return) of a function is reached. Edge-dominance with loop quantification, interprocedural and lazy."""
from model import place, callee_name, last_seg, STD_ENUMS
from flow import Flow, Frame, INTERNAL_CALL

CMP = {"Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
CMPFN = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}


class Leaf:
    """one known fact. kind: cmp | pred | ok | exec"""
    __slots__ = ("kind", "op", "fr", "bb", "a", "b", "name", "val", "loops", "fl", "_l", "_r", "guards")

    def __init__(self, fl, kind, fr, bb, op=None, a=None, b=None, name=None, val=None, loops=(), guards=()):
        self.guards = guards
        self.fl, self.kind, self.fr, self.bb, self.op, self.a, self.b, self.name, self.val = fl, kind, fr, bb, op, a, b, name, val
        self.loops = loops
        self._l = self._r = None

    def key(self):
        return (self.kind, self.op, self.fr.uid, self.bb, repr(self.a), repr(self.b), self.name, self.val, tuple((f.uid, h, k) for f, h, k in self.loops), tuple((f.uid,) + tuple(x) for f, *x in self.guards))

    def _atoms(self, x):
        if x is None:
            return frozenset()
        o, bb, idx = x
        return self.fl.operand(self.fr, o, bb, idx)

    @property
    def lhs(self):
        if self._l is None:
            self._l = self._atoms(self.a)
        return self._l

    @property
    def rhs(self):
        if self._r is None:
            self._r = self._atoms(self.b)
        return self._r

    def args(self):
        """atoms of each argument (pred/ok/exec leaves)"""
        t = self.fr.fn.blocks[self.bb]["t"]
        return [self.fl.arg(self.fr, self.bb, k) for k in range(len(t[2]))] if t[0] == "call" else []

    def arg(self, k, path=()):
        return self.fl.arg(self.fr, self.bb, k, path)

    def domain(self):
        """atoms of the iteration domains this fact is quantified over"""
        out = set()
        for (f, h, k) in self.loops:
            out |= self.fl_facts.loop_domain(f, h, k)
        return out

    @property
    def fl_facts(self):
        return self.fl._facts_engine

    def loc(self):
        return self.fr.loc(self.bb)

    def __repr__(self):
        q = "forall " * len(self.loops) + (f"[if {len(self.guards)}] " if self.guards else "")
        s = f"{q}{self.kind} {self.name or ''} {self.op or ''} {self.val if self.val is not None else ''} @{self.fr.fn.name} {self.loc()}"
        return s


class Facts:
    def __init__(self, flow: Flow):
        self.fl = flow
        flow._facts_engine = self
        self.prog = flow.prog
        self.exit_memo = {}
        self._busy = set()
        self.guarded = False
        self._cd = {}
        self._gl = {}

    # ------------------------------------------------------------ local must-sets
    def local(self, fn):
        """block -> frozenset of facts holding on entry. fact: ('e',bb,val) | ('x',bb) | ('A',header,fact)"""
        if fn._facts is not None:
            return fn._facts
        rpo = fn.rpo()
        pos = {b: i for i, b in enumerate(rpo)}
        loops = fn.loops()
        dom = fn.dom()
        exitedge = {}
        for h, body, latches in loops:
            e = self._first_branch(fn, h, body)
            if e is not None:
                b = e
                for s in fn.succ(b):
                    if s not in body:
                        exitedge.setdefault((b, s), []).append((h, body, latches))
        IN = {}
        forall = {}
        for _round in range(6):
            IN = {rpo[0]: frozenset()}
            OUT = {}
            for b in rpo:
                if b != rpo[0]:
                    ins = []
                    for p in fn.pred(b):
                        if b in dom[p]:      # back edge: body only adds facts
                            continue
                        if (p, b) in OUT:
                            ins.append(OUT[(p, b)])
                    if not ins:
                        IN[b] = frozenset()
                    else:
                        IN[b] = frozenset.intersection(*ins)
                base = IN[b]
                t = fn.blocks[b]["t"]
                if t[0] == "call":
                    base = base | {("x", b)}
                for s in fn.succ(b):
                    f = base
                    if t[0] == "switch":
                        vs = [v for v, tb in t[2] if tb == s]
                        if t[3] == s:
                            if not vs:
                                f = f | {("e", b, "else")}
                        elif len(vs) == 1:
                            f = f | {("e", b, vs[0])}
                        elif len(vs) > 1:
                            f = f | {("e", b, "|".join(vs))}
                    for (h, body, latches) in exitedge.get((b, s), ()):
                        f = f | forall.get(h, frozenset())
                    OUT[(b, s)] = f
            new = {}
            for h, body, latches in loops:
                ls = [OUT[(l, h)] for l in latches if (l, h) in OUT]
                if ls:
                    g = frozenset.intersection(*ls) - IN[h]
                    new[h] = frozenset(("A", h, f) for f in g)
            if new == forall:
                break
            forall = new
        fn._facts = IN
        return IN

    def _first_branch(self, fn, h, body):
        b = h
        n = 0
        while n < 60:
            n += 1
            t = fn.blocks[b]["t"]
            su = fn.succ(b)
            if t[0] == "switch" and len(su) > 1:
                return b if any(s not in body for s in su) else None
            if len(su) != 1 or su[0] not in body:
                return None
            b = su[0]
        return None

    def loop_form(self, T, fr, h, kind):
        """value form of what a loop (or higher-order call) iterates"""
        if kind != "loop":
            return str(T.arg(fr, h, 0))
        fn = fr.fn
        for hh, body, _ in fn.loops():
            if hh == h:
                b = self._first_branch(fn, h, body)
                x = h
                while b is not None:
                    t = fn.blocks[x]["t"]
                    if t[0] == "call" and last_seg(callee_name(t[1])) == "next":
                        return str(T.arg(fr, x, 0))
                    if x == b:
                        break
                    x = fn.succ(x)[0]
        return ""

    def _counter(self, fr, h, body, b):
        """`while c < bound` / `while c > 0` with c advanced by one in the body counts as the range from the initial value to the bound"""
        fn = fr.fn
        blk = fn.blocks[b]
        sw = blk["t"][1].get("m", blk["t"][1].get("c")) if blk["t"][0] == "switch" else None
        n = len(blk["s"])

        def single(l, at, i):
            ds, entry = self.fl.reaching(fn, l, (), at, i)
            return None if entry or len(ds) != 1 or ds[0][2] or ds[0][3] != "assign" else ds[0]
        d = single(sw, b, n) if isinstance(sw, int) else None
        if d is None or d[4][0] != "bin" or d[4][1] not in ("Lt", "Gt", "Ne", "Le", "Ge"):
            return None
        for me, other in ((d[4][2], d[4][3]), (d[4][3], d[4][2])):
            c = me.get("m", me.get("c"))
            at, i = d[0], d[1]
            while isinstance(c, int):
                x = single(c, at, i)
                if x is None or x[4][0] != "use" or not isinstance(x[4][1].get("m", x[4][1].get("c")), int):
                    break
                c, at, i = x[4][1].get("m", x[4][1].get("c")), x[0], x[1]
            if not isinstance(c, int) or c <= fn.nargs:
                continue
            ds, entry = self.fl.reaching(fn, c, (), h, 0)
            inits, steps = [x for x in ds if x[0] not in body], [x for x in ds if x[0] in body]
            if entry or not inits or not steps or any(x[2] for x in inits) or any(x[2] or x[3] != "assign" for x in steps):
                continue
            ok = True
            for x in steps:
                r = x[4]
                if r[0] == "use":
                    pl = r[1].get("m", r[1].get("c"))
                    y = single(place(pl)[0], x[0], x[1]) if pl is not None else None
                    r = y[4] if y is not None else r
                ok &= r[0] == "bin" and r[1].split("With")[0].replace("Unchecked", "") in ("Add", "Sub") and r[2].get("c", r[2].get("m")) == c and r[3].get("k", {}).get("v") == "1"
            if not ok:
                continue
            out = set(self.fl.operand(fr, other, d[0], d[1]))
            for p in fn.pred(h):
                if p not in body:
                    out |= set(self.fl.operand(fr, {"c": c}, p, None))
            return out
        return None

    def loop_domain(self, fr, h, kind):
        if kind == "loop":
            fn = fr.fn
            for hh, body, _ in fn.loops():
                if hh == h:
                    b = self._first_branch(fn, h, body)
                    if b is None:
                        return set()
                    # the iterator advanced by the loop, or the loop condition
                    x = h
                    while True:
                        t = fn.blocks[x]["t"]
                        if t[0] == "call" and last_seg(callee_name(t[1])) == "next":
                            return set(self.fl.arg(fr, x, 0))
                        if x == b:
                            break
                        x = fn.succ(x)[0]
                    t = fn.blocks[b]["t"]
                    c = self._counter(fr, h, body, b)
                    if c is not None:
                        return c
                    return set(self.fl.operand(fr, t[1], b, len(fn.blocks[b]["s"])))
            return set()
        # higher-order call: receiver
        return set(self.fl.arg(fr, h, 0))

    # ------------------------------------------------------------ facts at a point
    def at(self, fr, bb, loops=(), depth=0):
        """leaf facts known on entry to block bb of frame fr (not including callers' facts)"""
        return self._expand(fr, self.local(fr.fn)[bb], loops, depth)

    def at_full(self, fr, bb):
        """facts at bb including what the frames above guarantee before the call"""
        out = dict(self.at(fr, bb))
        f = fr
        while f.parent is not None:
            out.update(self.at(f.parent, f.bb))
            f = f.parent
        return out

    def _expand(self, fr, facts, loops, depth):
        out = {}
        for f in facts:
            lp = loops
            while f[0] == "A":
                lp = lp + ((fr, f[1], "loop"),)
                f = f[2]
            if f[0] == "e":
                self._edge(fr, f[1], f[2], lp, out, depth)
            elif f[0] == "x":
                self._exec(fr, f[1], lp, out, depth)
        return out

    def _put(self, out, leaf):
        out[leaf.key()] = leaf

    def _exec(self, fr, bb, loops, out, depth):
        t = fr.fn.blocks[bb]["t"]
        c = t[1]
        name = last_seg(callee_name(c)) if "fn" in c else "<indirect>"
        self._put(out, Leaf(self.fl, "exec", fr, bb, name=name, loops=loops))
        cands = self.prog.callee_candidates(c)
        inl = [g for g in cands if self.fl.can_inline(fr, g)]
        if name in ("unwrap", "expect") and t[2] and depth < 40:
            p0 = t[2][0].get("m", t[2][0].get("c"))
            if p0 is not None:
                ty0 = fr.fn.locals[place(p0)[0]].lstrip("&")
                x = self.op_variant(fr, t[2][0], bb, len(fr.fn.blocks[bb]["s"]), "Some" if ty0.startswith("std::option") else "Ok", loops, depth + 1)
                out.update(x or {})
            return
        if inl and len(inl) == len(cands) and self.fl.leaf(self.fl, fr, bb, c) is None:
            sets = [x for x in (self.exits(self.fl.call_frame(fr, bb, g), None, loops, depth + 1) for g in inl) if x is not None]
            self._meet(out, sets, exact=len(inl) == 1)
        elif name in ("for_each", "try_for_each", "fold", "try_fold"):
            for (k, f2) in self.fl.closures_of_call(fr, bb):
                if name == "for_each" or name == "fold":
                    out.update(self.exits(f2, None, loops + ((fr, bb, "hof"),), depth + 1))
        elif name in INTERNAL_CALL:
            cl = self.fl.closures_of_call(fr, bb)
            if len(cl) == 1:
                out.update(self.exits(cl[0][1], None, loops, depth + 1))

    def _meet(self, out, sets, exact):
        """intersection of alternative fact sets; for several callee bodies facts are never shared by key, so
        alternatives are compared by shape (kind, op, name)"""
        if exact or len(sets) == 1:
            for s in sets:
                out.update(s)
            return
        shapes = [{(l.kind, l.op, l.name, l.val) for l in s.values()} for s in sets]
        common = set.intersection(*shapes)
        for s in sets:
            for k, l in s.items():
                if (l.kind, l.op, l.name, l.val) in common:
                    out[k] = l

    def _edge(self, fr, bb, val, loops, out, depth):
        fn = fr.fn
        t = fn.blocks[bb]["t"]
        o = t[1]
        n = len(fn.blocks[bb]["s"])
        ty = t[4]
        if ty == "bool":
            if val == "else":
                v = True if any(x == "0" for x, _ in t[2]) else False
            else:
                v = val != "0"
            r = self.truth(fr, o, bb, n, v, loops, depth)
            if r:
                out.update(r)
            return
        # discriminant or integer switch
        p = o.get("m", o.get("c"))
        if p is None:
            return
        l, pr = place(p)
        d = self._single_def(fr, l, bb, n)
        if d and d[3] == "assign" and d[4][0] == "disc":
            st = fn.blocks[d[0]]["s"][d[1]]
            vs = st[4] if len(st) > 4 else None
            if vs:
                m = {x: nm for x, nm in vs["vs"]}
                if val == "else":
                    left = [nm for x, nm in vs["vs"] if x not in {a for a, _ in t[2]}]
                elif "|" in val:
                    left = [m.get(x, "?") for x in val.split("|")]
                else:
                    left = [m.get(val)]
                adt = last_seg(vs["adt"])
                if adt not in STD_ENUMS and left:
                    self._put(out, Leaf(self.fl, "var", fr, bb, a=({"c": d[4][1]}, d[0], d[1]), name="|".join(sorted(str(x) for x in left)), val=adt, loops=loops))
                if len(left) != 1:
                    return
                name = left[0]
                r = self.variant(fr, d[4][1], d[0], d[1], name, loops, depth, last_seg(vs["adt"]))
                if r:
                    out.update(r)
            return
        if val != "else" and "|" not in val:
            self._put(out, Leaf(self.fl, "cmp", fr, bb, op="==", a=(o, bb, n), b=({"k": {"ty": ty, "v": val}}, bb, n), loops=loops))

    def _single_def(self, fr, l, bb, idx):
        defs, entry = self.fl.reaching(fr.fn, l, (), bb, idx)
        if len(defs) == 1:
            return defs[0]
        return None

    # ------------------------------------------------------------ bool values
    def truth(self, fr, o, bb, idx, v, loops, depth):
        """facts implied by operand o (bool) having value v; None when impossible"""
        if depth > 40:
            return {}
        if "k" in o:
            c = o["k"]
            if "v" in c:
                return {} if (c["v"] != "0") == v else None
            return {}
        p = o.get("m", o.get("c"))
        l, pr = place(p)
        path, _, _ = self.fl.npath(pr)
        if path or any(e[0] in "ic" for e in pr):
            return {}
        return self._truth_local(fr, l, bb, idx, v, loops, depth)

    def _truth_local(self, fr, l, bb, idx, v, loops, depth):
        defs, entry = self.fl.reaching(fr.fn, l, (), bb, idx)
        alts = []
        if entry and 1 <= l <= fr.fn.nargs:
            if fr.kind == "call":
                t = fr.parent.fn.blocks[fr.bb]["t"]
                alts.append(self.truth(fr.parent, t[2][l - 1], fr.bb, len(fr.parent.fn.blocks[fr.bb]["s"]), v, (), depth + 1))
            else:
                alts.append({})
        for (b, i, dp, kind, pl) in defs:
            if dp != ():
                alts.append({})
                continue
            r = self._truth_def(fr, b, i, kind, pl, v, loops, depth)
            if r is None:
                continue
            if len(defs) > 1:
                r = dict(r)
                r.update(self._expand(fr, self.local(fr.fn)[b], loops, depth + 1))
            alts.append(r)
        return self._alts(alts)

    def _alts(self, alts):
        alts = [a for a in alts if a is not None]
        if not alts:
            return None
        if len(alts) == 1:
            return alts[0]
        keys = set(alts[0])
        for a in alts[1:]:
            keys &= set(a)
        return {k: alts[0][k] for k in keys}

    def _truth_def(self, fr, b, i, kind, pl, v, loops, depth):
        fn = fr.fn
        if kind == "assign":
            r = pl
            if r[0] == "use":
                return self.truth(fr, r[1], b, i, v, loops, depth + 1)
            if r[0] == "un" and r[1] == "Not":
                return self.truth(fr, r[2], b, i, not v, loops, depth + 1)
            if r[0] == "bin" and r[1] in CMP:
                op = CMP[r[1]]
                # comparison of booleans with constants
                if not v:
                    op = NEG[op]
                out = {}
                self._put(out, Leaf(self.fl, "cmp", fr, b, op=op, a=(r[2], b, i), b=(r[3], b, i), loops=loops))
                return out
            if r[0] == "bin" and r[1] == "BitAnd" and v:
                out = {}
                for o in (r[2], r[3]):
                    x = self.truth(fr, o, b, i, True, loops, depth + 1)
                    if x is None:
                        return None
                    out.update(x)
                return out
            if r[0] == "bin" and r[1] == "BitOr" and not v:
                out = {}
                for o in (r[2], r[3]):
                    x = self.truth(fr, o, b, i, False, loops, depth + 1)
                    if x is None:
                        return None
                    out.update(x)
                return out
            return {}
        if kind == "call":
            return self._truth_call(fr, b, v, loops, depth)
        return {}

    def _truth_call(self, fr, b, v, loops, depth):
        fn = fr.fn
        t = fn.blocks[b]["t"]
        c, args = t[1], t[2]
        n = len(fn.blocks[b]["s"])
        name = last_seg(callee_name(c)) if "fn" in c else "<indirect>"
        out = {}
        cands = self.prog.callee_candidates(c)
        inl = [g for g in cands if self.fl.can_inline(fr, g)]
        if name in CMPFN and len(args) == 2:
            op = CMPFN[name]
            if not v:
                op = NEG[op]
            self._put(out, Leaf(self.fl, "cmp", fr, b, op=op, a=(args[0], b, n), b=(args[1], b, n), loops=loops))
            return out
        if name == "not" and len(args) == 1:
            return self.truth(fr, args[0], b, n, not v, loops, depth + 1)
        self._put(out, Leaf(self.fl, "pred", fr, b, name=name, val=v, loops=loops))
        if name in ("is_some", "is_ok", "is_none", "is_err"):
            want = {("is_some", True): "Some", ("is_none", False): "Some", ("is_ok", True): "Ok", ("is_err", False): "Ok",
                    ("is_none", True): "None", ("is_some", False): "None", ("is_err", True): "Err", ("is_ok", False): "Err"}[(name, v)]
            x = self.op_variant(fr, args[0], b, n, want, loops, depth + 1)
            if x is None:
                return None
            out.update(x)
            return out
        if (name == "all" and v) or (name == "any" and not v):
            for (k, f2) in self.fl.closures_of_call(fr, b):
                x = self.exits(f2, "true" if v else "false", loops + ((fr, b, "hof"),), depth + 1)
                if x:
                    out.update(x)
            return out
        if name in ("is_some_and", "is_ok_and") and v:
            x = self.op_variant(fr, args[0], b, n, "Some" if name == "is_some_and" else "Ok", loops, depth + 1)
            out.update(x or {})
            for (k, f2) in self.fl.closures_of_call(fr, b):
                out.update(self.exits(f2, "true", loops, depth + 1) or {})
            return out
        if name in INTERNAL_CALL:
            cl = self.fl.closures_of_call(fr, b)
            if len(cl) == 1:
                x = self.exits(cl[0][1], "true" if v else "false", loops, depth + 1)
                if x is None:
                    return None
                out.update(x)
            return out
        if inl and len(inl) == len(cands):
            sets = []
            for g in inl:
                x = self.exits(self.fl.call_frame(fr, b, g), "true" if v else "false", loops, depth + 1)
                if x is not None:
                    sets.append(x)
            if sets:
                self._meet(out, sets, exact=len(inl) == 1)
        return out

    # ------------------------------------------------------------ enum values
    def op_variant(self, fr, o, bb, idx, want, loops, depth):
        p = o.get("m", o.get("c"))
        if p is None:
            return {}
        return self.variant(fr, p, bb, idx, want, loops, depth)

    def variant(self, fr, p, bb, idx, want, loops, depth, adt=None):
        """facts implied by the place p (an enum) being variant `want`; None when impossible"""
        if depth > 40:
            return {}
        l, pr = place(p)
        path, _, _ = self.fl.npath(pr)
        return self._variant_local(fr, l, path, bb, idx, want, loops, depth)

    def _variant_local(self, fr, l, path, bb, idx, want, loops, depth):
        if depth > 40:
            return {}
        if path and not all(x.startswith("v:") for x in path):
            # a field: only follow aggregates
            pass
        defs, entry = self.fl.reaching(fr.fn, l, path, bb, idx)
        alts = []
        if entry and 1 <= l <= fr.fn.nargs:
            if fr.kind == "call":
                t = fr.parent.fn.blocks[fr.bb]["t"]
                o = t[2][l - 1]
                pp = o.get("m", o.get("c"))
                if pp is not None:
                    l2, pr2 = place(pp)
                    p2, _, _ = self.fl.npath(pr2)
                    alts.append(self._variant_local(fr.parent, l2, p2 + path, fr.bb, len(fr.parent.fn.blocks[fr.bb]["s"]), want, (), depth + 1))
                else:
                    alts.append({})
            else:
                alts.append({})
        for (b, i, dp, kind, pl) in defs:
            r = self._variant_def(fr, b, i, kind, pl, dp, path, want, loops, depth)
            if r is None:
                continue
            if len(defs) > 1:
                r = dict(r)
                r.update(self._expand(fr, self.local(fr.fn)[b], loops, depth + 1))
            alts.append(r)
        return self._alts(alts)

    def _variant_def(self, fr, b, i, kind, pl, dp, path, want, loops, depth):
        fn = fr.fn
        rest = path[len(dp):] if len(dp) <= len(path) else None
        if rest is None:
            return {}
        if kind == "assign":
            r = pl
            if r[0] == "use" or r[0] == "cast":
                o = r[1] if r[0] == "use" else r[2]
                p = o.get("m", o.get("c"))
                if p is None:
                    return {}
                l2, pr2 = place(p)
                p2, _, _ = self.fl.npath(pr2)
                return self._variant_local(fr, l2, p2 + rest, b, i, want, loops, depth + 1)
            if r[0] == "ref":
                l2, pr2 = place(r[2])
                p2, _, _ = self.fl.npath(pr2)
                return self._variant_local(fr, l2, p2 + rest, b, i, want, loops, depth + 1)
            if r[0] == "agg":
                if not rest:
                    if r[1] == "adt":
                        return {} if r[5] == want else None
                    return {}
                if r[1] == "adt" and last_seg(r[3]) in ("Result", "Option", "ControlFlow"):
                    return {}
                names = r[6] if r[1] == "adt" else [str(x) for x in range(len(r[2]))]
                q = rest
                if q[0].startswith("v:"):
                    q = q[1:]
                if q and q[0] in names:
                    p = r[2][names.index(q[0])]
                    p = p.get("m", p.get("c"))
                    if p is None:
                        return {}
                    l2, pr2 = place(p)
                    p2, _, _ = self.fl.npath(pr2)
                    return self._variant_local(fr, l2, p2 + q[1:], b, i, want, loops, depth + 1)
            return {}
        if kind == "call":
            if rest:
                return {}
            return self._variant_call(fr, b, want, loops, depth)
        return {}

    def _variant_call(self, fr, b, want, loops, depth):
        fn = fr.fn
        t = fn.blocks[b]["t"]
        c, args = t[1], t[2]
        n = len(fn.blocks[b]["s"])
        name = last_seg(callee_name(c)) if "fn" in c else "<indirect>"
        succ = want in ("Ok", "Some", "Continue")
        if name == "from_residual":
            return None if succ else {}
        if name == "branch":
            if want == "Continue":
                ty = fn.locals[place(args[0].get("m", args[0].get("c")))[0]]
                w = "Some" if ty.lstrip("&").startswith("std::option") else ("Continue" if "ControlFlow" in ty.split("<")[0] else "Ok")
                return self.op_variant(fr, args[0], b, n, w, loops, depth + 1)
            return {}
        out = {}
        if not succ:
            if name in ("ok_or", "ok_or_else", "map_err", "map", "as_ref", "cloned", "copied"):
                pass
            self._put(out, Leaf(self.fl, "pred", fr, b, name=name, val=want, loops=loops))
            cands = self.prog.callee_candidates(c)
            inl = [g for g in cands if self.fl.can_inline(fr, g)]
            if inl and len(inl) == len(cands):
                sets = [x for x in (self.exits(self.fl.call_frame(fr, b, g), want, loops, depth + 1) for g in inl) if x is not None]
                if sets:
                    self._meet(out, sets, exact=len(inl) == 1)
            return out
        self._put(out, Leaf(self.fl, "ok", fr, b, name=name, loops=loops))

        def sub(k, w):
            x = self.op_variant(fr, args[k], b, n, w, loops, depth + 1)
            return x
        ty0 = ""
        if args:
            p0 = args[0].get("m", args[0].get("c"))
            if p0 is not None:
                ty0 = fn.locals[place(p0)[0]].lstrip("&")
        w0 = "Some" if ty0.startswith("std::option") or ty0.startswith("mut std::option") else "Ok"
        if name in ("map_err", "map", "as_ref", "as_mut", "cloned", "copied", "inspect", "inspect_err", "ok", "as_deref", "transpose", "into", "flatten", "filter", "or_else", "unwrap_or_else") and ("Result" in ty0 or "Option" in ty0) and name not in ("or_else", "unwrap_or_else") and ty0.startswith("std::"):
            x = sub(0, w0)
            if x is None:
                return None
            out.update(x)
            if name == "filter":
                for (k, f2) in self.fl.closures_of_call(fr, b):
                    out.update(self.exits(f2, "true", loops, depth + 1) or {})
            return out
        if name in ("ok_or", "ok_or_else"):
            x = sub(0, "Some")
            if x is None:
                return None
            out.update(x)
            return out
        if name in ("and_then", "and"):
            x = sub(0, w0)
            if x is None:
                return None
            out.update(x)
            for (k, f2) in self.fl.closures_of_call(fr, b):
                out.update(self.exits(f2, w0, loops, depth + 1) or {})
            if name == "and":
                out.update(sub(1, w0) or {})
            return out
        if name in ("then_some", "then"):
            x = self.truth(fr, args[0], b, n, True, loops, depth + 1)
            if x is None:
                return None
            out.update(x)
            return out
        if name in ("try_for_each", "try_fold", "try_for_each_with"):
            w = "Ok" if "Result" in fn.locals[place(t[3])[0]] else "Some"
            for (k, f2) in self.fl.closures_of_call(fr, b):
                out.update(self.exits(f2, w, loops + ((fr, b, "hof"),), depth + 1) or {})
            out.update(self.chain(fr, args[0], b, n, loops, depth + 1))
            return out
        if name in ("collect", "sum", "product", "try_collect", "from_iter", "collect_into_vec"):
            out.update(self.chain(fr, args[0], b, n, loops, depth + 1))
            return out
        if name in INTERNAL_CALL or "fn" not in c:
            cl = self.fl.closures_of_call(fr, b)
            if len(cl) == 1:
                x = self.exits(cl[0][1], want, loops, depth + 1)
                if x is None:
                    return None
                out.update(x)
            return out
        cands = self.prog.callee_candidates(c)
        inl = [g for g in cands if self.fl.can_inline(fr, g)]
        if inl and len(inl) == len(cands) and self.fl.leaf(self.fl, fr, b, c) is None:
            sets = [x for x in (self.exits(self.fl.call_frame(fr, b, g), want, loops, depth + 1) for g in inl) if x is not None]
            if sets:
                self._meet(out, sets, exact=len(inl) == 1)
        return out

    def chain(self, fr, o, bb, idx, loops, depth):
        """facts carried by the elements of a lazy iterator of Results all being Ok"""
        out = {}
        p = o.get("m", o.get("c"))
        n = 0
        cur = (fr, p, bb, idx)
        while p is not None and n < 20:
            n += 1
            f, p, b0, i0 = cur
            l, pr = place(p)
            path, _, _ = self.fl.npath(pr)
            if path:
                break
            defs, entry = self.fl.reaching(f.fn, l, (), b0, i0)
            defs = [d for d in defs if d[3] != "mutcall"]
            if len(defs) != 1:
                break
            b, i, dp, kind, pl = defs[0]
            if kind == "assign":
                r = pl
                if r[0] == "use":
                    p = r[1].get("m", r[1].get("c"))
                elif r[0] == "ref":
                    p = r[2]
                else:
                    break
                cur = (f, p, b, i)
                continue
            if kind == "call":
                t = f.fn.blocks[b]["t"]
                name = last_seg(callee_name(t[1])) if "fn" in t[1] else ""
                if name in ("map", "map_init", "map_with", "flat_map", "filter_map", "update"):
                    for (k, f2) in self.fl.closures_of_call(f, b):
                        x = self.exits(f2, "Ok", loops + ((f, b, "hof"),), depth + 1)
                        out.update(x or {})
                    break
                if not t[2]:
                    break
                p = t[2][0].get("m", t[2][0].get("c"))
                cur = (f, p, b, len(f.fn.blocks[b]["s"]))
                continue
            break
        return out

    # ------------------------------------------------------------ function exits
    def exits(self, fr, want, loops=(), depth=0):
        """facts that hold whenever frame fr returns a value of shape `want`
        (None: any; 'Ok'/'Some'/..: that variant; 'true'/'false'). None when it cannot return that."""
        key = (fr.uid, want, self.guarded)
        if key in self.exit_memo:
            base = self.exit_memo[key]
        else:
            if key in self._busy or depth > 40:
                return {}
            self._busy.add(key)
            base = self._gexits(fr, want, depth) if self.guarded else self._exits(fr, want, depth)
            self._busy.discard(key)
            self.exit_memo[key] = base
        if base is None:
            return None
        if not loops:
            return base
        out = {}
        for l in base.values():
            x = Leaf(self.fl, l.kind, l.fr, l.bb, l.op, l.a, l.b, l.name, l.val, loops + l.loops, l.guards)
            out[x.key()] = x
        return out

    def _exits(self, fr, want, depth):
        alts = []
        for rb in fr.fn.returns():
            n = len(fr.fn.blocks[rb]["s"])
            facts = self._expand(fr, self.local(fr.fn)[rb], (), depth + 1)
            if want is None:
                alts.append(facts)
                continue
            if want in ("true", "false"):
                r = self._truth_local(fr, 0, rb, n, want == "true", (), depth + 1)
            else:
                r = self._variant_local(fr, 0, (), rb, n, want, (), depth + 1)
            if r is None:
                continue
            x = dict(facts)
            x.update(r)
            # single definition of the return place: facts at that definition
            defs, entry = self.fl.reaching(fr.fn, 0, (), rb, n)
            if len(defs) == 1:
                x.update(self._expand(fr, self.local(fr.fn)[defs[0][0]], (), depth + 1))
            alts.append(x)
        return self._alts(alts)

    # ------------------------------------------------------------ guarded facts
    def accept_defs(self, fr, want):
        """blocks where a return value of shape `want` may be produced (None: the returns themselves)"""
        fn = fr.fn
        if want is None:
            return {b: None for b in fn.returns()}
        out = {}
        for rb in fn.returns():
            n = len(fn.blocks[rb]["s"])
            defs, entry = self.fl.reaching(fn, 0, (), rb, n)
            save, self.guarded = self.guarded, False
            for (b, i, dp, kind, pl) in defs:
                if want in ("true", "false"):
                    r = self._truth_def(fr, b, i, kind, pl, want == "true", (), 30) if dp == () else {}
                else:
                    r = self._variant_def(fr, b, i, kind, pl, dp, (), want, (), 30) if dp == () else {}
                if r is not None:
                    out.setdefault(b, []).append((b, i, dp, kind, pl))
            self.guarded = save
        return out

    def _reach_back(self, fn, targets, avoid=None):
        seen = set(t for t in targets if t != avoid)
        st = list(seen)
        while st:
            b = st.pop()
            for p in fn.pred(b):
                if p != avoid and p not in seen:
                    seen.add(p)
                    st.append(p)
        return seen

    def _acc(self, fr, want):
        key = (fr.uid, want, "acc")
        r = self._cd.get(key)
        if r is None:
            ad = self.accept_defs(fr, want)
            can = self._reach_back(fr.fn, ad.keys())
            # after an accepting definition the function only runs on to its return
            st = [s for b in ad for s in fr.fn.succ(b)]
            post = set()
            while st:
                b = st.pop()
                if b in post:
                    continue
                post.add(b)
                st.extend(fr.fn.succ(b))
            r = (ad, can | post if want is not None else can)
            self._cd[key] = r
        return r

    def control(self, fr, want, S):
        """conditions under which block S may be bypassed on an accepting run: [(B, succ, kind)]"""
        key = (fr.uid, want, "cd", S)
        r = self._cd.get(key)
        if r is not None:
            return r
        self._cd[key] = []
        fn = fr.fn
        ad, can = self._acc(fr, want)
        R = self._reach_back(fn, ad.keys(), avoid=S)
        toS = self._reach_back(fn, [S])
        out = []
        if 0 in R or fn.rpo()[0] in R:
            for B in fn.rpo():
                if B not in R or B == S or B not in toS:
                    continue
                su = fn.succ(B)
                if len(su) < 2:
                    continue
                for s in su:
                    if s not in R and s in toS:
                        loop = None
                        for h, body, latches in fn.loops():
                            if B in body and s in body and self._first_branch(fn, h, body) == B:
                                loop = (h, body)
                                break
                        if loop:
                            out.append((B, s, "loop"))
                            h, body = loop
                            for x in body:
                                if x == B:
                                    continue
                                for y in fn.succ(x):
                                    if y not in body and y in can:
                                        out.append((x, y, "break"))
                        else:
                            out.append((B, s, "cond"))
                        for e in self.control(fr, want, B):
                            if e not in out:
                                out.append(e)
        self._cd[key] = out
        return out

    def _gexits(self, fr, want, depth):
        fn = fr.fn
        ad, can = self._acc(fr, want)
        if not ad:
            return None
        out = {}

        def put_all(d, S):
            if not d:
                return
            ctl = self.control(fr, want, S)
            loops = tuple((fr, self._loop_of(fn, B), "loop") for (B, s, k) in ctl if k == "loop")
            guards = tuple((fr, B, s, k) for (B, s, k) in ctl if k != "loop")
            for l in d.values():
                x = Leaf(self.fl, l.kind, l.fr, l.bb, l.op, l.a, l.b, l.name, l.val, loops + l.loops, guards + l.guards)
                self._put(out, x)
        for S in fn.rpo():
            if S not in can:
                continue
            t = fn.blocks[S]["t"]
            if t[0] == "switch":
                su = fn.succ(S)
                acc = [s for s in su if s in can]
                if len(su) > len(acc) or (len(su) >= 1 and self._has_dead_edge(fn, S)):
                    if len(acc) == 1:
                        d = {}
                        vs = [v for v, tb in t[2] if tb == acc[0]]
                        if t[3] == acc[0] and not vs:
                            self._edge(fr, S, "else", (), d, depth + 1)
                        elif len(vs) == 1 and t[3] != acc[0]:
                            self._edge(fr, S, vs[0], (), d, depth + 1)
                        put_all(d, S)
            elif t[0] == "call":
                d = {}
                self._exec(fr, S, (), d, depth + 1)
                put_all(d, S)
        for b, ds in ad.items():
            if ds is None:
                continue
            for (bb, i, dp, kind, pl) in ds:
                if dp != ():
                    continue
                if want in ("true", "false"):
                    r = self._truth_def(fr, bb, i, kind, pl, want == "true", (), depth + 1)
                else:
                    r = self._variant_def(fr, bb, i, kind, pl, dp, (), want, (), depth + 1)
                put_all(r, bb)
        return out

    def _has_dead_edge(self, fn, S):
        return False

    def _loop_of(self, fn, B):
        for h, body, latches in fn.loops():
            if B in body and self._first_branch(fn, h, body) == B:
                return h
        return B

    def guard_leaves(self, leaf):
        """for each guard of a leaf: (kind, loc, [leaves describing the condition taken])"""
        out = []
        save, self.guarded = self.guarded, False
        for (fr, B, s, k) in leaf.guards:
            key = (fr.uid, B, s)
            if key not in self._gl:
                d = {}
                t = fr.fn.blocks[B]["t"]
                if t[0] == "switch":
                    vs = [v for v, tb in t[2] if tb == s]
                    if t[3] == s and not vs:
                        self._edge(fr, B, "else", (), d, 0)
                    elif len(vs) == 1 and t[3] != s:
                        self._edge(fr, B, vs[0], (), d, 0)
                self._gl[key] = list(d.values())
            out.append((k, fr.loc(B), self._gl[key], (fr, B, s)))
        self.guarded = save
        return out

    def gexits(self, fr, want):
        save, self.guarded = self.guarded, True
        try:
            return self.exits(fr, want)
        finally:
            self.guarded = save
