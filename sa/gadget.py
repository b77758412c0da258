"""Value forms of M3 gadget constructors: the columns a constructor allocates, the expressions it constrains to zero, and the values it flushes,
as polynomials over canonical leaves (parameters, allocated columns, derived columns, sub-gadget outputs)."""
import re

from model import place, last_seg, callee_name
from terms import Terms, P

DERIVED = {"add_shifted": "shifted", "add_selected": "sel", "add_selected_block": "selblock", "add_packed": "pack", "add_constant": "constant", "add_fixed": "fixed", "add_static_exp": "sexp",
           "add_dynamic_exp": "dexp", "add_zero_pad": "zeropad", "add_structured": "structured", "add_zero_pad_upcast": "zeropad"}
BUILDER = "TableBuilder"


def is_builder(c):
    return "fn" in c and BUILDER in callee_name(c)


class GTerms(Terms):
    def __init__(self, fl, gadget):
        super().__init__(fl, char2=True, gen=True)
        self.gadget = gadget      # callee name -> leaf name of a sub-gadget constructor, or None
        self.coms = {}
        self.fnarrs = {}

    # ---- allocated columns
    def com(self, fr, bb, label):
        key = (fr.uid, bb)
        if key not in self.coms:
            self.coms[key] = f"com{len(self.coms)}"
        return self.coms[key]

    def idx_of(self, fr):
        """index of the column-array closure (array::from_fn, map) the frame runs in"""
        out = []
        while fr is not None and fr.kind != "root":
            if fr.kind in ("closure", "fnarg"):
                t = fr.parent.fn.blocks[fr.bb]["t"]
                nm = last_seg(callee_name(t[1])) if "fn" in t[1] else ""
                if nm in ("from_fn", "try_from_fn"):
                    out.append(str(self.param(fr, 2 if fr.kind == "closure" else 1, ())))
                elif nm in ("map", "for_each"):
                    out.append("IDX")
            fr = fr.parent
        return out[::-1]

    def const(self, fr, k):
        if "item" in k and last_seg(k["item"]) in ("ONE", "ZERO"):
            return P.const(1 if last_seg(k["item"]) == "ONE" else 0)
        return super().const(fr, k)

    def call(self, fr, bb, path):
        t = fr.fn.blocks[bb]["t"]
        c, args = t[1], t[2]
        if "fn" not in c:
            return super().call(fr, bb, path)
        full = callee_name(c)
        name = last_seg(full)
        n = len(fr.fn.blocks[bb]["s"])
        sfx = "".join("." + x for x in path)
        A = lambda k: self.op(fr, args[k], (), bb, n)
        if is_builder(c):
            if name in ("add_committed", "add_committed_multiple"):
                return P.atom(self.com(fr, bb, None) + "".join(f"[{i}]" for i in self.idx_of(fr)) + sfx)
            if name == "add_computed":
                return self.op(fr, args[2], path, bb, n)
            if name in DERIVED:
                return P.atom(f"{DERIVED[name]}({','.join(str(A(k)) for k in range(2, len(args)))})" + sfx)
            if name == "with_namespace":
                return P.atom("table")
        if name in ("from", "new", "into") and len(args) == 1 and "BinaryField" in full + str(c.get("ga")):
            v = A(0)
            if v.isconst():
                return v if v.constv() in (0, 1) else P.atom(f"new({v.constv()})")
        if name in ("upcast_col", "upcast_expr"):
            return self.op(fr, args[0], path, bb, n)
        g = self.gadget(full)
        if g and not any(x.id in fr.stack() for x in self.fl.prog.callee_candidates(c)):
            vs = [str(A(k)) for k in range(len(args)) if "TableBuilder" not in self.ty(fr, args[k])]
            return P.atom(f"{g}({','.join(vs)})" + sfx)
        if name in ("from_fn", "try_from_fn") and not path:
            cl = self.fl.closures_of_call(fr, bb)
            if len(cl) == 1:
                return self.arr(cl[0][1])
            k = args[0].get("k", {}) if args else {}
            if "fn" in k:
                return P.atom("arr(" + (self.basis(k) if last_seg(callee_name(k)) == "ext_basis" else last_seg(callee_name(k))) + "(%))")
        if name == "index" and len(args) == 2:
            v, i = str(self.op(fr, args[0], path if False else (), bb, n)), str(A(1))
            r = self.indexed(v, i)
            return P.atom(str(r) + sfx) if sfx else r
        if name == "ext_basis" and len(args) == 1:
            return P.atom(f"{self.basis(c)}({A(0)})")
        cands = self.fl.prog.callee_candidates(c)
        if len(cands) == 1 and self.fl.can_inline(fr, cands[0]) and fr.depth < 12:
            v = self.ret(self.fl.call_frame(fr, bb, cands[0]), path)
            if len(str(v)) < 20000:
                return v
        if name == "reduce" and len(args) == 2:
            cl = self.fl.closures_of_call(fr, bb)
            if len(cl) == 1:
                r = self.ret(cl[0][1])
                el = str(self.each(str(A(0))))
                return P.atom(f"reduce({r}; {el})")
        return super().call(fr, bb, path)

    @staticmethod
    def basis(c):
        return "ext_basis<" + ":".join(last_seg(str(x)) for x in c.get("ga", [])) + ">"

    def each(self, it, path=()):
        if it in self.fnarrs:
            r = self.indexed(it, "@")
            return P.atom(str(r) + "".join("." + x for x in path)) if path else r
        return super().each(it, path)

    def text(self, v):
        """the form with column arrays written out as arr(element at %)"""
        s = str(v)
        for _ in range(12):
            m = re.search(r"\barr(\d+)\b", s)
            if not m:
                break
            f2 = self.fnarrs[m.group()]
            r = str(self.ret(f2))
            s = s.replace(m.group(), "arr(" + re.sub(rf"\bi{f2.uid}\b", "%", r) + ")") if m.group() not in r else s.replace(m.group(), "rec")
        s = re.sub(r"\bIDX\b", "@", s)
        s = re.sub(r"([(,] ?)\|", r"\1", s)
        s = re.sub(r"\|([),])", r"\1", s)
        s = re.sub(r"2\^\(", "pow2(", s)
        s = re.sub(r"arr\((\w[\w<>:]*)\(%\)\)\[([^\[\]]*)\]", r"\1(\2)", s)
        return s

    def ty(self, fr, o):
        p = o.get("m", o.get("c"))
        return fr.fn.locals[place(p)[0]] if p is not None else ""

    def arr(self, f2):
        v = f"arr{f2.uid}"
        self.fnarrs[v] = f2
        return P.atom(v)

    def param(self, fr, l, path):
        if fr.kind in ("closure", "fnarg") and l == (2 if fr.kind == "closure" else 1):
            t = fr.parent.fn.blocks[fr.bb]["t"]
            if "fn" in t[1] and last_seg(callee_name(t[1])) in ("from_fn", "try_from_fn"):
                return P.atom(f"i{fr.uid}" + "".join("." + x for x in path))
            if "fn" in t[1] and last_seg(callee_name(t[1])) == "reduce":
                return P.atom("lhs")
        if fr.kind == "closure" and l == 3:
            t = fr.parent.fn.blocks[fr.bb]["t"]
            if "fn" in t[1] and last_seg(callee_name(t[1])) == "reduce":
                return P.atom("rhs")
        return super().param(fr, l, path)

    def indexed(self, v, i, fmt="{}[{}]"):
        if v in self.fnarrs:
            f2 = self.fnarrs[v]
            r = str(self.ret(f2))
            r = re.sub(rf"\bi{f2.uid}\b", lambda m: f"({i})" if not re.fullmatch(r"\w+", i) else i, r)
            return P.atom(f"({r})") if " + " in r or "*" in r else P.atom(r)
        # a vector filled by one push per iteration, indexed by the iteration
        m = re.fullmatch(r"mut:push\(phi\{mut:push\(rec;(.*)\)\|(with_capacity\([^()]*\)|new\(\))\};(.*)\)", v)
        if m and m.group(1) == m.group(3) and i.startswith("each(Range{start=0,"):
            return P.atom(f"({m.group(1)})")
        return P.atom(f"{v}[{i}]")

    # ---- merges: alternatives chosen by an integer comparison or an enum keep their condition
    def _local(self, fr, l, path, bb, idx):
        defs, entry = self.fl.reaching(fr.fn, l, path, bb, idx)
        if len(defs) < 2 or entry:
            return super()._local(fr, l, path, bb, idx)
        vals = []
        F = self.local_facts(fr.fn)
        here = F.get(bb, frozenset())
        for (b, i, dp, kind, pl) in defs:
            if len(dp) > len(path):
                return super()._local(fr, l, path, bb, idx)
            rest = path[len(dp):]
            v = self.rvalue(fr, pl, rest, b, i, bb, idx) if kind == "assign" else self.call(fr, b, rest) if kind == "call" else self.mutcall(fr, l, path, pl)
            gs = sorted({g for g in (self.guard(fr, f) for f in F.get(b, frozenset()) - here if f[0] == "e") if g})
            if gs and str(v) not in ("Err", "None", "Break", "never"):
                v = P.atom("&".join(gs) + "?" + f"({v})")
            vals.append(v)
        return self.phi(vals)

    def local_facts(self, fn):
        return self.facts.local(fn)

    def guard(self, fr, f):
        _, b, val = f
        t = fr.fn.blocks[b]["t"]
        ty = t[4]
        v = str(self.op(fr, t[1], (), b, len(fr.fn.blocks[b]["s"])))
        if ty == "bool":
            yes = (val == "else") == any(x == "0" for x, _ in t[2]) if val == "else" else val != "0"
            m = re.fullmatch(r"(Eq|Ne|Lt|Le)\((.*)\)", v)
            if not m:
                return None
            if yes:
                return v
            if m.group(1) in ("Eq", "Ne"):
                return ("Ne" if m.group(1) == "Eq" else "Eq") + v[2:]
            return "not(" + v + ")"
        if v.startswith("disc("):
            if val == "else":
                return None
            return None
        if val == "else":
            return "&".join(f"Ne({v}, {x})" for x, _ in t[2])
        return f"Eq({v}, {val})"


# ---- canonical forms
class Parser:
    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self, t):
        return self.s.startswith(t, self.i)

    def sum(self):
        xs = [self.prod()]
        while self.peek(" + "):
            self.i += 3
            xs.append(self.prod())
        return ("+", xs)

    def prod(self):
        xs = [self.factor()]
        while self.peek("*"):
            self.i += 1
            xs.append(self.factor())
        return ("*", xs)

    def factor(self):
        s = self.s
        m = re.compile(r"-?\d+(?![\w])").match(s, self.i)
        if m:
            self.i = m.end()
            return ("n", int(m.group()))
        if self.peek("("):
            self.i += 1
            x = self.sum()
            self.expect(")")
            return self.suffix(x)
        m = re.compile(r"[A-Za-z_@%$#^:<>\d'-]+|2\^").match(s, self.i)
        if not m:
            raise ValueError(f"at {s[self.i:self.i + 40]!r}")
        name = m.group()
        self.i = m.end()
        x = ("a", name)
        if self.peek("("):
            self.i += 1
            x = ("f", name, self.args(")"))
        elif self.peek("{"):
            self.i += 1
            if name == "phi":
                alts = []
                while True:
                    alts.append(self.alt())
                    if self.peek("|"):
                        self.i += 1
                        continue
                    self.expect("}")
                    break
                x = ("phi", alts)
            else:
                x = ("f", name + "{}", self.args("}", True))
        return self.suffix(x)

    def alt(self):
        return self.guarded()

    def guarded(self):
        # cond&cond?(v)  or a plain sum
        j = self.i
        m = re.compile(r"(Eq|Ne|Lt|Le|not)\(").match(self.s, j)
        if m:
            try:
                gs = [self.factor()]
                while self.peek("&"):
                    self.i += 1
                    gs.append(self.factor())
                if self.peek("?"):
                    self.i += 1
                    return ("?", gs, self.sum())
            except ValueError:
                pass
            self.i = j
        return self.sum()

    def args(self, end, named=False):
        out = []
        if self.peek(end):
            self.i += 1
            return out
        while True:
            if self.peek(end):
                self.i += 1
                return out
            if named:
                m = re.compile(r"\w+=").match(self.s, self.i)
                if m:
                    self.i = m.end()
            out.append(self.guarded())
            if self.peek(", ") or self.peek("; "):
                self.i += 2
            elif self.peek(",") or self.peek(";"):
                self.i += 1
            else:
                self.expect(end)
                return out

    def suffix(self, x):
        while True:
            if self.peek("["):
                self.i += 1
                y = self.sum()
                self.expect("]")
                x = ("i", x, y)
            elif self.peek("."):
                m = re.compile(r"\.(\w+(:\w+)?)").match(self.s, self.i)
                self.i = m.end()
                x = ("p", x, m.group(1))
            else:
                return x

    def expect(self, t):
        if not self.peek(t):
            raise ValueError(f"expected {t} at {self.s[self.i:self.i + 40]!r}")
        self.i += len(t)


WHOLE = re.compile(r"(arr\(.*\)|(?:collect|map)\(.*\)|arg\d+|com\d+|\$\w+|[A-Z]\w+\([^{|]*\))([.]\w+)*")     # an array parameter, allocated array or sub-gadget output


def parse(s):
    p = Parser(s)
    t = p.guarded()
    if p.i != len(s):
        raise ValueError(f"trailing {s[p.i:p.i + 40]!r}")
    return t


def poly(t, ren):
    k = t[0]
    if k == "+":
        r = P()
        for x in t[1]:
            r = r.add(poly(x, ren))
        return r
    if k == "*":
        r = P.const(1)
        for x in t[1]:
            r = r.mul(poly(x, ren))
        return r
    if k == "n":
        return P.const(t[1])
    if k == "a":
        return P.atom(ren.get(t[1], t[1]))
    return P.atom(canon(t, ren))


def canon(t, ren):
    k = t[0]
    if k in "+*na":
        return str(poly(t, ren))
    if k == "f":
        xs = [canon(x, ren) for x in t[2]]
        if t[1] == "pos" and len(xs) == 1 and WHOLE.fullmatch(xs[0]):
            return "@"
        if t[1] == "each" and len(xs) == 1:
            m = re.fullmatch(r"Range\{\}\(0, (.*)\)", xs[0])
            if m:
                return "@" if m.group(1) in ren.get("*ends", ("cg:BIT_LENGTH",)) or m.group(1).startswith("len(") else f"each(0..{m.group(1)})"
            if WHOLE.fullmatch(xs[0]):
                return xs[0] + "[@]"
        if t[1] in ("Eq", "Ne"):
            xs.sort()
        return f"{t[1]}({', '.join(xs)})"
    if k == "phi":
        alts = []
        for g, v in alts_of(t):
            a = simp(("?", g, v), ren)
            if a is not None and a not in alts:
                alts.append(a)
        return alts[0] if len(alts) == 1 else "phi{" + "|".join(sorted(alts)) + "}"
    if k == "?":
        r = simp(t, ren)
        return r if r is not None else "never"
    if k == "i":
        b = canon(t[1], ren)
        return f"{b if ' + ' not in b and '*' not in b else '(' + b + ')'}[{canon(t[2], ren)}]"
    if k == "p":
        b = canon(t[1], ren)
        return f"{b if ' + ' not in b and '*' not in b else '(' + b + ')'}.{t[2]}"
    raise ValueError(k)


def alts_of(t):
    """alternatives of a (nested, guarded) merge: [(guards, value)]"""
    if t[0] == "phi":
        return [x for a in t[1] for x in alts_of(a)]
    if t[0] == "?":
        return [(list(t[1]) + g, v) for g, v in alts_of(t[2])]
    if t[0] in "+*" and len(t[1]) == 1:
        return alts_of(t[1][0])
    return [([], t)]


def simp(a, ren):
    if a[0] != "?":
        return canon(a, ren)
    gs = []
    for g in a[1]:
        s = canon(g, ren)
        m = re.fullmatch(r"(Eq|Ne)\((-?\d+), (-?\d+) \+ [@\w]+\)", s)
        if m and int(m.group(2)) < int(m.group(3)):        # an index is not negative
            if m.group(1) == "Eq":
                return None
            continue
        m = re.fullmatch(r"(Eq|Ne|Lt|Le)\((-?\d+), (-?\d+)\)", s)
        if m:
            x, y = int(m.group(2)), int(m.group(3))
            if not {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y}[m.group(1)]:
                return None
            continue
        gs.append(s)
    v = canon(a[2], ren)
    return ("&".join(sorted(set(gs))) + "?(" + v + ")") if gs else v


# ---- instances: a form evaluated with its iteration variables, index arithmetic and guards made concrete
COMMUTATIVE = {"U32Add_new", "U32AddStacked_new", "WideAdd_new", "Mul_with_inputs", "MulUU32_with_inputs", "MulUU64_with_inputs", "MulSS32_with_input"}


ADAPT = {"take", "skip", "rev", "enumerate", "iter", "into_iter", "copied", "cloned", "step_by", "zip", "izip", "chain", "filter", "filter_map", "take_while", "skip_while", "windows", "chunks"}


class Undecided(Exception):
    pass


class Inst:
    """evaluates parsed forms; `sizes` gives named integers (const generics, constants), `n` is the length of a whole column array"""

    def __init__(self, sizes, n):
        self.sizes, self.n = sizes, n
        self.defs, self.memo = {}, {}
        self.through = set()      # updates that leave the value as it was

    def digest(self, s):
        import hashlib
        h = hashlib.md5(s.encode()).hexdigest()[:8]
        self.defs[h] = s
        return h

    # iteration variables
    def dims(self, t, out):
        """collects {variable: range} of the iterations a form mentions"""
        if not isinstance(t, tuple):
            return
        if t[0] == "f" and t[1] in ("each", "pos") and len(t[2]) == 1:
            k, lo, hi = self.span(t[2][0])
            if k in out:
                lo, hi = max(lo, out[k][0]), min(hi, out[k][1])
            out[k] = (lo, hi)
        if t == ("a", "@"):
            out.setdefault("@", (0, self.n))
        for x in t[1:]:
            if isinstance(x, tuple):
                self.dims(x, out)
            elif isinstance(x, list):
                for y in x:
                    self.dims(y, out)

    def span(self, t):
        """(variable, lo, hi) of iterating over t"""
        t = peel(t)
        if t[0] == "f" and t[1] == "Range{}":
            lo, hi = (self.num(x) for x in t[2])
            return ("@" if (lo, hi) == (0, self.n) else f"@{lo}..{hi}", lo, hi)
        if t[0] == "f" and t[1] == "array":
            return f"@{len(t[2])}", 0, len(t[2])
        if t[0] == "f" and t[1] in ADAPT:
            return "@", 0, len(self.seq(t))
        return "@", 0, self.n

    def seq(self, t):
        """the elements of an iteration, in order"""
        t = peel(t)
        if t[0] == "f" and t[1] == "Range{}":
            lo, hi = (self.num(x) for x in t[2])
            return [("n", i) for i in range(lo, hi)]
        if t[0] == "f" and t[1] == "array":
            return list(t[2])
        if t[0] == "f" and t[1] in ADAPT:
            xs = t[2]
            if t[1] in ("iter", "into_iter", "copied", "cloned"):
                return self.seq(xs[0])
            if t[1] == "rev":
                return self.seq(xs[0])[::-1]
            if t[1] == "enumerate":
                return [("f", "tuple", [("n", i), x]) for i, x in enumerate(self.seq(xs[0]))]
            if t[1] == "skip":
                return self.seq(xs[0])[self.num(xs[1]):]
            if t[1] == "take":
                return self.seq(xs[0])[:self.num(xs[1])]
            if t[1] == "step_by":
                return self.seq(xs[0])[::self.num(xs[1])]
            if t[1] == "chain":
                return self.seq(xs[0]) + self.seq(xs[1])
            if t[1] in ("zip", "izip"):
                return [("f", "tuple", list(x)) for x in zip(*(self.seq(x) for x in xs))]
            raise Undecided(t[1])
        return [("i", t, ("n", i)) for i in range(self.n)]

    def num(self, t, env=None):
        v = self.ev(t, env or {})
        s = str(v)
        if not re.fullmatch(r"-?\d+", s):
            raise Undecided(s[:60])
        return int(s)

    def ev(self, t, env):
        k = t[0]
        if k == "+":
            r = P()
            for x in t[1]:
                r = r.add(self.ev(x, env))
            return P({m: c % 2 if m else c for m, c in r.m.items()})
        if k == "*":
            r = P.const(1)
            for x in t[1]:
                r = r.mul(self.ev(x, env))
            return r
        if k == "n":
            return P.const(t[1])
        if k == "a":
            if t[1] in env:
                return env[t[1]] if isinstance(env[t[1]], P) else P.const(env[t[1]])
            if t[1] in self.sizes:
                return P.const(self.sizes[t[1]])
            return P.const(0) if t[1] in ("None", "false") else P.const(1) if t[1] == "true" else P.atom(t[1])
        if k == "f":
            return self.fun(t, env)
        if k in ("phi", "?"):
            alts = {}
            for g, v in alts_of(t):
                gs = [self.guard(x, env) for x in g]
                if False in gs:
                    continue
                v = self.ev(v, env)
                s = "&".join(sorted({x for x in gs if x is not True}))
                alts[s + "?(" + str(v) + ")" if s else str(v)] = v if not s else None
            if not alts:
                return P.atom("never")
            if len(alts) == 1:
                s, v = next(iter(alts.items()))
                return v if v is not None else P.atom(s)
            return P.atom("phi{" + "|".join(sorted(alts)) + "}")
        if k == "i":
            return self.index(t[1], t[2], env)
        if k == "p":
            b = peel(t[1])
            if b[0] == "f" and b[1] == "each" and len(b[2]) == 1 and peel(b[2][0])[0] == "f" and peel(b[2][0])[1] in ADAPT:
                k, lo, hi = self.span(b[2][0])
                if k in env:
                    b = self.seq(b[2][0])[env[k]]
            if b[0] == "f" and b[1] == "tuple" and re.fullmatch(r"\d+", t[2]) and int(t[2]) < len(b[2]):
                return self.ev(b[2][int(t[2])], env)
            b = str(self.ev(b, env))
            return P.atom((b if " + " not in b and "*" not in b else f"({b})") + "." + t[2])
        raise Undecided(k)

    def guard(self, g, env):
        g = peel(g)
        if g[0] == "f" and g[1] == "not":
            r = self.guard(g[2][0], env)
            return (not r) if isinstance(r, bool) else f"not({r})"
        if g[0] == "f" and g[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = (str(self.ev(x, env)) for x in g[2])
            if re.fullmatch(r"-?\d+", a) and re.fullmatch(r"-?\d+", b):
                a, b = int(a), int(b)
                return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[g[1]]
            if g[1] in ("Eq", "Ne"):
                a, b = sorted((a, b))
            return f"{g[1]}({a}, {b})"
        return str(self.ev(g, env))

    def index(self, base, idx, env):
        base = peel(base)
        i = self.ev(idx, env)
        s = str(i)
        if base[0] == "phi":
            return self.ev(("phi", [("?", g, ("i", v, idx)) if g else ("i", v, idx) for g, v in alts_of(base)]), env)
        if re.fullmatch(r"\d+", s):
            if base[0] == "f" and base[1] == "arr":
                return self.ev(base[2][0], {**env, "%": int(s)})
            if base[0] == "f" and base[1] == "array" and int(s) < len(base[2]):
                return self.ev(base[2][int(s)], env)
            if base[0] == "f" and base[1] == "repeat":
                return self.ev(base[2][0], env)
        b = str(self.ev(base, env))
        return P.atom(f"{b if ' + ' not in b and '*' not in b else '(' + b + ')'}[{s}]")

    def fun(self, t, env):
        name, xs = t[1], t[2]
        if name == "arr":
            key = repr(t) + repr(sorted((k, str(v)) for k, v in env.items() if k != "%"))
            if key not in self.memo:
                self.memo[key] = self.array(xs, env)
            return self.memo[key]
        if name in self.through and xs:
            return self.ev(xs[0], env)
        if name in ("each", "pos") and len(xs) == 1:
            k, lo, hi = self.span(xs[0])
            if k not in env:
                raise Undecided(k)
            v = env[k]
            if name == "pos":
                return P.const(v)
            return self.elem(xs[0], v, env)
        if name == "default" and not xs:
            return P.const(0)
        if name == "reduce" and len(xs) == 2:
            # a sum of the elements over a whole iteration
            if re.sub(r"\s", "", str(self.ev(xs[0], env))) in ("lhs+rhs", "rhs+lhs"):
                d = {}
                self.dims(xs[1], d)
                if len(d) <= 1:
                    key, (lo, hi) = next(iter(d.items())) if d else ("@", (0, self.n))
                    els = [str(self.ev(xs[1], {**env, key: i})) for i in range(lo, hi)]
                    return P.atom("sum#" + self.digest("; ".join(sorted(els))))
        if name == "array":
            els = [str(self.ev(x, env)) for x in xs]
            return P.atom("array(" + ", ".join(els) + ")")
        if name == "pow2" and len(xs) == 1:
            s = str(self.ev(xs[0], env))
            return P.const(1 << int(s)) if re.fullmatch(r"\d+", s) and int(s) < 64 else P.atom(f"pow2({s})")
        if name in ("Rem", "Div") and len(xs) == 2:
            a, b = (str(self.ev(x, env)) for x in xs)
            if re.fullmatch(r"\d+", a) and re.fullmatch(r"[1-9]\d*", b):
                return P.const(int(a) % int(b) if name == "Rem" else int(a) // int(b))
        vs = [str(self.ev(x, env)) for x in xs]
        if name in COMMUTATIVE:
            vs[:2] = sorted(vs[:2])
        return P.atom(f"{name}({', '.join(vs)})")

    def array(self, xs, env):
        els = [str(self.ev(xs[0], {**env, "%": i})) for i in range(self.n)]
        m = re.fullmatch(r"(.*)\[0\]", els[0])
        if m and " + " not in els[0] and els == [f"{m.group(1)}[{i}]" for i in range(self.n)]:
            return P.atom(m.group(1))
        return P.atom("arr#" + self.digest("; ".join(els)))

    def elem(self, t, v, env):
        t = peel(t)
        if t[0] == "f" and t[1] == "Range{}":
            return P.const(v)
        if t[0] == "f" and t[1] in ADAPT:
            return self.ev(self.seq(t)[v], env)
        return self.index(t, ("n", v), env)

    def instances(self, *forms, reduce2=True):
        """the set of concrete constraint instances of a form (a tuple of forms: a flush)"""
        ts = [parse(f) for f in forms]
        d = {}
        for t in ts:
            self.dims_outer(t, d)
        out = set()
        keys = sorted(d)
        import itertools
        for vals in itertools.product(*(range(*d[k]) for k in keys)):
            env = dict(zip(keys, vals))
            r = []
            for t in ts:
                p = self.ev(t, env)
                if reduce2:
                    p = p.mod2() if hasattr(p, "mod2") else p
                r.append(str(p))
            out.add(" ; ".join(r))
        return out

    def dims_outer(self, t, out):
        """iteration variables not bound by a reduction or array inside the form"""
        if not isinstance(t, tuple):
            return
        if t[0] == "f" and t[1] == "reduce":
            return
        if t[0] == "f" and t[1] in ("each", "pos") and len(t[2]) == 1:
            self.dims(t, out)
        if t == ("a", "@"):
            out.setdefault("@", (0, self.n))
        for x in t[1:]:
            if isinstance(x, tuple):
                self.dims_outer(x, out)
            elif isinstance(x, list):
                for y in x:
                    self.dims_outer(y, out)


def peel(t):
    while t[0] in "+*" and len(t[1]) == 1:
        t = t[1][0]
    return t


def walk(t):
    yield t
    for x in t[1:]:
        for y in (x if isinstance(x, list) else [x]):
            if isinstance(y, tuple):
                yield from walk(y)
