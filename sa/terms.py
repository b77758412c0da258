import re
"""Value numbering: the value of an expression as a polynomial over canonical leaves (parameters, fields, constants, opaque calls).
Insensitive to let-bindings, helper functions, closures, reordering of commutative operators, a<<b versus a*2^b, field/getter access."""
from model import place, last_seg, callee_name
from flow import Flow, narrows

TRANSPARENT = {"iter", "into_iter", "copied", "cloned", "clone", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "to_owned", "into", "from",
               "as_slice", "as_mut_slice", "branch", "from_residual", "from_output", "to_vec", "into_owned", "iter_mut", "by_ref", "map_err", "ok_or", "ok_or_else", "unwrap", "expect",
               "ok", "must_use", "to_f64", "black_box", "unwrap_unchecked", "try_into", "try_from", "peekable", "fuse", "into_boxed_slice", "into_iter_mut", "as_deref", "box_assume_init_into_vec_unsafe", "into_vec"}
ARITH = {"add": "+", "sub": "-", "mul": "*", "neg": "neg", "wrapping_add": "+", "wrapping_sub": "-", "wrapping_mul": "*",
         "add_assign": "+", "sub_assign": "-", "mul_assign": "*", "square": "sq"}
COMM = {"min", "max", "BitAnd", "BitOr", "BitXor", "Eq", "Ne"}


def isopt(full):
    return "option::Option" in full or "result::Result" in full


class P:
    """polynomial: {monomial(tuple of sorted atoms): coeff}"""
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v}

    @staticmethod
    def const(n):
        return P({(): n})

    @staticmethod
    def atom(s):
        return P({(s,): 1})

    def add(self, o, k=1):
        r = dict(self.m)
        for a, b in o.m.items():
            r[a] = r.get(a, 0) + k * b
        return P(r)

    def mul(self, o):
        r = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                c = tuple(sorted(a + b))
                r[c] = r.get(c, 0) + x * y
        return P(r)

    def isconst(self):
        return all(k == () for k in self.m)

    def constv(self):
        return self.m.get((), 0)

    def __str__(self):
        if not self.m:
            return "0"
        out = []
        for k in sorted(self.m):
            c = self.m[k]
            t = "*".join(k)
            out.append((f"{c}*{t}" if c != 1 else t) if t else str(c))
        return " + ".join(out)

    def mod2(self):
        return P({k: v % 2 for k, v in self.m.items()})


EACH1 = {"map", "for_each", "all", "any", "filter", "filter_map", "flat_map", "retain", "find", "find_map", "position", "try_for_each", "inspect", "partition", "take_while", "skip_while",
         "map_while", "max_by_key", "min_by_key", "sort_by_key", "sort_unstable_by_key", "sorted_by_key", "peeking_take_while", "retain_mut", "map_init", "all_equal_by"}
FOLDS = {"fold", "try_fold", "rfold"}


class Terms:
    def __init__(self, flow: Flow, char2=False, maxdepth=60, gen=False):
        self.gen = gen
        self.fl, self.char2, self.maxdepth = flow, char2, maxdepth
        self.limit = None       # bound on the steps of one query (large values are then abbreviated too)
        self.steps = 0
        self.memo = {}
        self.active = set()
        self.phis = {}
        self.iters = {}

    # ---- public
    def ret(self, fr, path=()):
        return self.phi([self.local(fr, 0, tuple(path), rb, len(fr.fn.blocks[rb]["s"])) for rb in fr.fn.returns()])

    def arg(self, fr, bb, k, path=()):
        t = fr.fn.blocks[bb]["t"]
        return self.op(fr, t[2][k], tuple(path), bb, len(fr.fn.blocks[bb]["s"]))

    # ---- operands
    def op(self, fr, o, path, bb, idx):
        if "k" in o:
            return self.const(fr, o["k"])
        p = o.get("m", o.get("c"))
        return self.place(fr, p, path, bb, idx)

    def const(self, fr, k):
        if "fn" in k:
            return P.atom("fn:" + last_seg(k.get("rp") or k["p"]))
        if "item" in k:
            if self.char2 and last_seg(k["item"]) in ("ONE", "ZERO"):
                return P.const(1 if last_seg(k["item"]) == "ONE" else 0)
            return P.atom("item:" + last_seg(k["item"]) + ("<" + last_seg(k["of"]) + ">" if self.gen and "of" in k else ""))
        if "promoted" in k:
            at = sorted(a for a in self.fl.const_atoms(fr, k))
            if len(at) == 1 and at[0].startswith("int:"):
                return self.intv(at[0][4:])
            return P.atom("promoted(" + ",".join(at) + ")")
        if "v" in k:
            return self.intv(k["v"])
        if k.get("ty") in ("f64", "f32"):
            return P.atom("lit:" + str(k.get("s", "?")).replace("_", ""))
        if self.gen and str(k.get("s", "")).isidentifier():
            return P.atom("cg:" + k["s"])
        return P.atom("const:" + str(k.get("ty", "?")))

    def intv(self, s):
        try:
            return P.const(int(s))
        except ValueError:
            return P.atom("lit:" + str(s))

    def place(self, fr, p, extra, bb, idx):
        l, pr = place(p)
        path, idxs, touched = self.fl.npath(pr)
        v = self.local(fr, l, path + tuple(extra), bb, idx)
        for i in idxs:
            if isinstance(i, tuple):
                v = P.atom(f"{self.par(v)}[{'-' if i[2] else ''}{i[1]}]")
            else:
                v = self.indexed(self.par(v), str(self.local(fr, i, (), bb, idx)))
        return v

    def indexed(self, v, i, fmt="{}[{}]"):
        """v[i]; an index that runs over the whole of v gives the same form as iterating over it"""
        for m in (re.fullmatch(r"each\(Range\{start=0,end=len\((.*)\)\}\)", i), re.fullmatch(r"pos\((.*)\)", i)):
            if m and (v == m.group(1) or v.startswith(m.group(1) + ".")):
                return P.atom(str(self.each(m.group(1))) + v[len(m.group(1)):])
        return P.atom(fmt.format(v, i))

    @staticmethod
    def par(v):
        s = str(v)
        return s if " + " not in s and "*" not in s else f"({s})"

    def local(self, fr, l, path, bb, idx):
        key = (fr.uid, l, path, bb, idx)
        if key in self.memo:
            return self.memo[key]
        if key in self.active or len(self.active) > 400:
            return P.atom("rec")
        if self.limit is not None:
            self.steps += 1
            if self.steps > self.limit:
                raise RecursionError("over budget")
        self.active.add(key)
        try:
            r = self._local(fr, l, path, bb, idx)
            if self.limit is not None and sum(len(a) for m in r.m for a in m) > 3000:
                r = P.atom("big")
        finally:
            self.active.discard(key)
        self.memo[key] = r
        return r

    def _local(self, fr, l, path, bb, idx):
        fn = fr.fn
        defs, entry = self.fl.reaching(fn, l, path, bb, idx)
        vals = []
        # a mutating call updates the value defined before it
        for (b, i, dp, kind, pl) in defs:
            rest = path[len(dp):] if len(dp) <= len(path) else ()
            if len(dp) > len(path):
                vals.append(P.atom("partial(" + ".".join(dp[len(path):]) + ")"))
            elif kind == "assign":
                vals.append(self.rvalue(fr, pl, rest, b, i, bb, idx))
            elif kind == "call":
                vals.append(self.call(fr, b, rest))
            else:
                vals.append(self.mutcall(fr, l, path, pl))
        if entry and 1 <= l <= fn.nargs:
            vals.append(self.param(fr, l, path))
        return self.phi(vals)

    def phi(self, vals):
        u = {}
        for v in vals:
            s = str(v)
            if s.startswith("phi{") and len(v.m) == 1 and s.endswith("}") and s in self.phis:
                for x in self.phis[s]:
                    u[str(x)] = x
            else:
                u[s] = v
        if len(u) > 1:
            for x in ("Err", "None", "Break", "never"):
                u.pop(x, None)
        if len(u) == 1:
            return next(iter(u.values()))
        if not u:
            return P.atom("undef")
        s = "phi{" + "|".join(sorted(u)) + "}"
        self.phis[s] = list(u.values())
        return P.atom(s)

    def mutcall(self, fr, l, path, pl):
        b, k = pl
        fn = fr.fn
        t = fn.blocks[b]["t"]
        n = len(fn.blocks[b]["s"])
        name = last_seg(callee_name(t[1])) if "fn" in t[1] else "call"
        prev = self.local(fr, l, path, b, n)
        if name in ("add_assign", "sub_assign", "mul_assign") and k == 0:
            return self.arith(ARITH[name], prev, self.arg(fr, b, 1))
        if name in ("next", "next_back"):
            return prev
        args = [str(self.arg(fr, b, j)) for j in range(len(t[2])) if j != k]
        return P.atom(f"mut:{name}({prev};{','.join(args)})")

    def rvalue(self, fr, r, path, b, i, qb, qi):
        k = r[0]
        if k == "use":
            return self.op(fr, r[1], path, b, i)
        if k in ("ref", "raw"):
            return self.place(fr, r[2], path, qb, qi)
        if k == "cast":
            v = self.op(fr, r[2], path, b, i)
            return P.atom(f"narrow_{r[3]}({v})") if narrows(fr.fn, r) and not v.isconst() else v
        if k == "bin":
            op = r[1].replace("WithOverflow", "").replace("Unchecked", "")
            return self.binop(op, self.op(fr, r[2], (), b, i), self.op(fr, r[3], (), b, i))
        if k == "un":
            v = self.op(fr, r[2], (), b, i)
            if r[1] == "PtrMetadata":
                return P.atom(f"len({v})")
            if r[1] == "Neg":
                return P().add(v, -1)
            return P.atom(f"{r[1]}({v})")
        if k == "agg":
            ops = r[2]
            if r[1] in ("tuple", "closure", "array"):
                if path and path[0].isdigit() and int(path[0]) < len(ops):
                    return self.op(fr, ops[int(path[0])], path[1:], b, i)
                if r[1] == "closure":
                    return P.atom("closure")
                return P.atom(r[1] + "(" + ",".join(str(self.op(fr, o, (), b, i)) for o in ops) + ")")
            if r[1] == "adt":
                adt, var, names = last_seg(r[3]), r[5], r[6]
                if adt in ("Option", "Result", "ControlFlow"):
                    if var in ("Some", "Ok", "Continue"):
                        return self.op(fr, ops[0], path, b, i)
                    return P.atom(var)
                p = path
                if p and p[0].startswith("v:"):
                    if p[0] != "v:" + var:
                        return P.atom("never")
                    p = p[1:]
                if p and p[0] in names:
                    return self.op(fr, ops[names.index(p[0])], p[1:], b, i)
                return P.atom((adt if var == adt else f"{adt}::{var}") + "{" + ",".join(f"{nm}={self.op(fr, o, (), b, i)}" for nm, o in zip(names, ops)) + "}")
        if k == "repeat":
            return P.atom(f"repeat({self.op(fr, r[1], (), b, i)})")
        if k == "disc":
            return P.atom(f"disc({self.place(fr, r[1], (), b, i)})")
        return P.atom("?" + str(k))

    def arith(self, o, a, b=None):
        if o == "+":
            r = a.add(b)
        elif o == "-":
            r = a.add(b, -1)
        elif o == "*":
            r = a.mul(b)
        elif o == "sq":
            r = a.mul(a)
        else:
            r = P().add(a, -1)
        return r.mod2() if self.char2 else r

    def binop(self, op, a, b):
        if op == "Add":
            return a.add(b)
        if op == "Sub":
            return a.add(b, -1)
        if op == "Mul":
            return a.mul(b)
        if op == "Shl":
            return a.mul(self.pow2(b))
        x, y = str(a), str(b)
        if op in COMM and y < x:
            x, y = y, x
        if op in ("Gt", "Ge"):
            op = {"Gt": "Lt", "Ge": "Le"}[op]
            x, y = y, x
        return P.atom(f"{op}({x}, {y})")

    def pow2(self, b):
        r = P.const(1)
        for mono, c in sorted(b.m.items()):
            if mono == ():
                if 0 <= c < 4096:
                    r = r.mul(P.const(1 << c))
                else:
                    r = r.mul(P.atom(f"2^({c})"))
            else:
                for _ in range(min(abs(c), 64)):
                    r = r.mul(P.atom(("2^(" if c > 0 else "2^-(") + "*".join(mono) + ")"))
        return r

    def param(self, fr, l, path):
        sfx = "".join("." + x for x in path)
        if fr.kind == "root":
            return P.atom(f"arg{l}{sfx}")
        if fr.kind == "call":
            t = fr.parent.fn.blocks[fr.bb]["t"]
            if l - 1 >= len(t[2]):
                return P.atom("undef")
            return self.proj(self.op(fr.parent, t[2][l - 1], path, fr.bb, len(fr.parent.fn.blocks[fr.bb]["s"])), ())
        if fr.kind == "closure" and l == 1:
            if fr.agg is None:
                return P.atom("undef")
            b, i = fr.agg
            r = fr.creator.fn.blocks[b]["s"][i][2]
            if path and path[0].isdigit() and int(path[0]) < len(r[2]):
                return self.op(fr.creator, r[2][int(path[0])], path[1:], b, i)
            return P.atom("upvars")
        # element of the iterator / option the closure is run on
        pf, bb = fr.parent, fr.bb
        t = pf.fn.blocks[bb]["t"]
        name = last_seg(callee_name(t[1])) if "fn" in t[1] else "call"
        n = len(pf.fn.blocks[bb]["s"])
        if name in ("call", "call_mut", "call_once"):
            return self.op(pf, t[2][1], (str(l - 2),) + tuple(path), bb, n)
        if fr.kind == "fnarg":
            l = l + 1
        if isopt(callee_name(t[1])) and l == 2:
            return self.op(pf, t[2][0], path, bb, n)
        it = str(self.op(pf, t[2][0], (), bb, n))
        if name in EACH1 and l == 2:
            return self.each(it, path)
        if name in FOLDS:
            if l == 2:
                return P.atom(f"acc({it}){sfx}")
            if l == 3:
                return self.each(it, path)
        return P.atom(f"{name}:elem{l}({it}){sfx}")

    def each(self, it, path=()):
        """an arbitrary element of the iterator with value form `it` (the same form in a closure and in a loop)"""
        sfx = "".join("." + x for x in path)
        if it.startswith("phi{") and "rec" in it:
            a = [str(x) for x in self.phis.get(it, ()) if str(x) != "rec"]
            if len(a) == 1:
                it = a[0]
        if it in self.iters:
            kind, x = self.iters[it]
            if kind == "same":
                return self.each(x, path)
            if kind == "map":
                return self.ret(x, path)
            if kind == "zip":
                if not path:
                    return P.atom(f"tuple({self.each(x[0])},{self.each(x[1])})")
                if path[0] in ("0", "1"):
                    return self.each(x[int(path[0])], path[1:])
            if kind == "enumerate":
                if not path:
                    return P.atom(f"tuple(pos({x}),{self.each(x)})")
                if path[0] == "0":
                    return P.atom(f"pos({x})")
                if path[0] == "1":
                    return self.each(x, path[1:])
        return P.atom(f"each({it}){sfx}")

    def proj(self, v, path):
        return v

    def call(self, fr, bb, path):
        fn = fr.fn
        t = fn.blocks[bb]["t"]
        c, args = t[1], t[2]
        sfx = "".join("." + x for x in path)
        if "fn" not in c:
            return P.atom("indirect" + sfx)
        full = callee_name(c)
        name = last_seg(full)
        n = len(fn.blocks[bb]["s"])
        lf = self.fl.leaf(self.fl, fr, bb, c)
        if lf is not None:
            return P.atom(f"{name}@bb({','.join(str(self.op(fr, o, (), bb, n)) for o in args[1:])}){sfx}")
        cands = self.fl.prog.callee_candidates(c)
        isop = "ops::arith" in full or "::ops::" in full or c.get("tr", "").startswith(("core::ops", "std::ops"))
        if name in ARITH and isop and len(args) == 2:
            return self.arith(ARITH[name], self.op(fr, args[0], (), bb, n), self.op(fr, args[1], (), bb, n))
        if self.char2 and "num::" not in full:
            if name in ("one", "zero") and not args:
                return P.const(1 if name == "one" else 0)
            if name == "square" and len(args) == 1:
                a = self.op(fr, args[0], (), bb, n)
                return a.mul(a).mod2()
            if name == "double" and len(args) == 1:
                return P()
            if name == "pow" and len(args) == 2:
                e = self.op(fr, args[1], (), bb, n)
                if e.isconst() and 0 <= e.constv() <= 16:
                    a, r = self.op(fr, args[0], (), bb, n), P.const(1)
                    for _ in range(e.constv()):
                        r = r.mul(a).mod2()
                    return r
        if name == "neg" and isop:
            return self.arith("neg", self.op(fr, args[0], (), bb, n))
        if name in ("shl",) and isop:
            return self.binop("Shl", self.op(fr, args[0], (), bb, n), self.op(fr, args[1], (), bb, n))
        if name in TRANSPARENT and args and not any(self.fl.can_inline(fr, g) for g in cands):
            return self.op(fr, args[0], path, bb, n)
        if len(cands) == 1 and self.fl.can_inline(fr, cands[0]) and fr.depth < 12:
            v = self.ret(self.fl.call_frame(fr, bb, cands[0]), path)
            if "rec" not in str(v) and "phi{" not in str(v):
                return v
            if len(str(v)) < 400:
                return v
        if name == "pow" and len(args) == 2:
            a = self.op(fr, args[0], (), bb, n)
            if a.isconst() and a.constv() == 2:
                return self.pow2(self.op(fr, args[1], (), bb, n))
        vs = []
        clos = dict((k, f2) for (k, f2) in self.fl.closures_of_call(fr, bb))
        for k, o in enumerate(args):
            if k in clos:
                vs.append("|" + str(self.ret(clos[k])) + "|")
            else:
                vs.append(str(self.op(fr, o, (), bb, n)))
        if isopt(full):
            if name in ("map", "and_then") and 1 in clos:
                return self.ret(clos[1], path)
            if name in ("unwrap_or",):
                return self.phi([self.op(fr, args[0], path, bb, n), self.op(fr, args[1], path, bb, n)])
            if name == "unwrap_or_default":
                return self.phi([self.op(fr, args[0], path, bb, n), P.const(0)])
            if name == "unwrap_or_else" and 1 in clos:
                return self.phi([self.op(fr, args[0], path, bb, n), self.ret(clos[1], path)])
            if name == "map_or" and 2 in clos:
                return self.phi([self.op(fr, args[1], path, bb, n), self.ret(clos[2], path)])
            if name == "map_or_else" and 2 in clos and 1 in clos:
                return self.phi([self.ret(clos[1], path), self.ret(clos[2], path)])
        if name in ("then", "then_some") and args:
            return self.ret(clos[1], path) if 1 in clos else self.op(fr, args[1], path, bb, n)
        if name in ("next",) and len(vs) == 1 and vs[0].startswith("phi{") and "rec" in {str(x) for x in self.phis.get(vs[0], ())}:
            return self.each(vs[0], path)
        if name in ("map", "zip", "enumerate", "filter", "filter_map", "peeking_take_while", "collect", "inspect", "collect_vec", "zip_eq") and not path:
            st = f"{name}({', '.join(vs)})"
            if name in ("filter", "peeking_take_while", "collect", "inspect", "collect_vec"):
                self.iters[st] = ("same", vs[0])
            elif name in ("map", "filter_map") and 1 in clos:
                self.iters[st] = ("map", clos[1])
            elif name in ("zip", "zip_eq") and len(vs) == 2:
                self.iters[st] = ("zip", tuple(vs))
            elif name == "enumerate" and len(vs) == 1:
                self.iters[st] = ("enumerate", vs[0])
        if name == "index" and len(vs) == 2:
            v = self.indexed(vs[0], vs[1], "index({}, {})")
            return P.atom(f"{v}{sfx}")
        if name in COMM:
            vs.sort()
        if name in ("split_at", "split_at_checked") and len(args) == 2 and path and path[0] in ("0", "1"):
            k = f"RangeTo{{end={vs[1]}}}" if path[0] == "0" else f"RangeFrom{{start={vs[1]}}}"
            return P.atom(f"index({vs[0]}, {k})" + "".join("." + x for x in path[1:]))
        return P.atom(f"{name}({', '.join(vs)}){sfx}")
