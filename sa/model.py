"""Loads the program dump (type-checked MIR of every body of the workspace) and gives access to it."""
import json, os, re, glob

STDV_DROP = {"Some", "Ok", "Continue"}        # payload-carrying "success" variants of std enums
STD_ENUMS = {"Option", "Result", "ControlFlow"}


def strip_generics(p):
    """drop ::<...> and <...> argument lists, keep <impl ..> blocks and <T as Trait> heads readable"""
    out, depth, i = [], 0, 0
    while i < len(p):
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            depth0 = 0
            i += 2
            while i < len(p):
                if p[i] == "<":
                    depth0 += 1
                elif p[i] == ">" and p[i - 1] != "-":
                    depth0 -= 1
                    if depth0 == 0:
                        i += 1
                        break
                i += 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


def last_seg(p):
    p = strip_generics(p)
    return p.rsplit("::", 1)[-1]


def norm_vec_macro(blocks):
    """vec![a, b]: an uninitialised box filled through a pointer becomes the assignment box = [a, b]"""
    for b in blocks:
        ptr = {}
        for st in b["s"]:
            if st[0] != "=":
                continue
            if isinstance(st[1], int) and st[2][0] == "cast" and st[2][1] == "BoxDerefTransmute":
                pl = st[2][2].get("c", st[2][2].get("m"))
                if isinstance(pl, list):
                    ptr[st[1]] = pl[0]
            elif isinstance(st[1], list) and st[1][0] in ptr and st[1][1][0] == "*" and st[2][0] == "agg" and st[2][1] == "array":
                st[1] = ptr[st[1][0]]
                for b2 in blocks:
                    t = b2["t"]
                    if t[0] == "call" and "fn" in t[1] and t[3] == st[1] and t[1]["p"].endswith("::new_uninit"):
                        b2["t"] = ["goto", t[4]]


class Fn:
    __slots__ = ("id", "path", "spath", "name", "kind", "file", "line", "crate", "d", "nargs", "locals", "blocks",
                 "names", "_succ", "_pred", "_rpo", "_dom", "_defs", "_pts", "_facts", "_loops", "_live", "promoted",
                 "trait", "trait_item", "self_ty", "trait_default", "root", "parent", "upvars", "_agg")

    def __init__(self, crate, d):
        self.d = d
        self.crate = crate
        self.id = d["id"]
        self.path = d["path"]
        self.spath = strip_generics(d["path"])
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.nargs = d["nargs"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        if not d.get("_nv"):
            norm_vec_macro(self.blocks)
            d["_nv"] = 1
        self.names = d["names"]
        self.promoted = d.get("promoted", [])
        self.name = d.get("name", "{closure}")
        self.trait = d.get("trait")
        self.trait_item = d.get("trait_item")
        self.trait_default = d.get("trait_default")
        self.self_ty = d.get("self_ty")
        self.root = d.get("root")
        self.parent = d.get("parent")
        self.upvars = d.get("upvars", [])
        self._succ = self._pred = self._rpo = self._dom = None
        self._defs = self._pts = self._facts = self._loops = self._live = self._agg = None

    def __repr__(self):
        return f"<{self.short()}>"

    def short(self):
        if self.kind == "Closure":
            return self.spath
        return self.spath

    def argname(self, k):
        for n, p in self.names:
            if p == k:
                return n
        return f"_{k}"

    def ret_ty(self):
        return self.locals[0]

    # ---- CFG -------------------------------------------------------------
    def succ(self, b):
        if self._succ is None:
            self._succ = [self._succs(i) for i in range(len(self.blocks))]
        return self._succ[b]

    def _succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            c = t[1].get("k")
            if c is not None and "v" in c:
                for v, tb in t[2]:
                    if v == c["v"]:
                        return [tb]
                return [t[3]]
            # a local that is a compile-time constant in this block (cfg!(debug_assertions))
            cv = self._const_in_block(b, t[1])
            if cv is not None:
                for v, tb in t[2]:
                    if v == cv:
                        return [tb]
                return [t[3]]
            out = []
            for v, tb in t[2]:
                if tb not in out:
                    out.append(tb)
            if t[3] not in out:
                out.append(t[3])
            return [x for x in out if self.blocks[x]["t"][0] != "unreach" or self.blocks[x]["s"]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[4]]
        return []

    def _const_in_block(self, b, o):
        p = o.get("m", o.get("c"))
        if not isinstance(p, int):
            return None
        for s in reversed(self.blocks[b]["s"]):
            if s[0] == "=" and s[1] == p:
                r = s[2]
                if r[0] == "use" and "k" in r[1] and "v" in r[1]["k"]:
                    return r[1]["k"]["v"]
                return None
        return None

    def pred(self, b):
        if self._pred is None:
            self._pred = [[] for _ in self.blocks]
            for i in self.rpo():
                for s in self.succ(i):
                    self._pred[s].append(i)
        return self._pred[b]

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(0, iter(self.succ(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            self._rpo = order[::-1]
        return self._rpo

    def dom(self):
        """immediate dominators -> full dominator sets (as dict of frozenset)"""
        if self._dom is None:
            rpo = self.rpo()
            dom = {rpo[0]: {rpo[0]}}
            changed = True
            while changed:
                changed = False
                for b in rpo[1:]:
                    ps = [dom[p] for p in self.pred(b) if p in dom]
                    n = set.intersection(*ps) | {b} if ps else {b}
                    if dom.get(b) != n:
                        dom[b] = n
                        changed = True
            self._dom = dom
        return self._dom

    def loops(self):
        """list of (header, set(body), [latches])"""
        if self._loops is None:
            dom = self.dom()
            hs = {}
            for b in self.rpo():
                for s in self.succ(b):
                    if s in dom[b]:
                        hs.setdefault(s, []).append(b)
            out = []
            for h, latches in hs.items():
                body = {h}
                st = [l for l in latches]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(self.pred(x))
                out.append((h, body, latches))
            out.sort(key=lambda l: len(l[1]))
            self._loops = out
        return self._loops

    def returns(self):
        return [b for b in self.rpo() if self.blocks[b]["t"][0] == "ret"]

    def calls(self):
        for b in self.rpo():
            t = self.blocks[b]["t"]
            if t[0] == "call":
                yield b, t


class Program:
    def __init__(self, dumpdir, crates=None):
        self.fns = {}
        self.bypath = {}
        self.adts = {}
        self.impls = []
        self.consts = {}
        self.crates = []
        for f in sorted(glob.glob(os.path.join(dumpdir, "*.json"))):
            c = os.path.basename(f)[:-5]
            if crates and c not in crates:
                continue
            with open(f) as fh:
                d = json.load(fh)
            self.crates.append(d["crate"])
            for x in d["fns"]:
                fn = Fn(d["crate"], x)
                self.fns[fn.id] = fn
                self.bypath.setdefault(fn.spath, []).append(fn)
            for a in d["adts"]:
                self.adts[a["path"]] = a
            for i in d["impls"]:
                i["crate"] = d["crate"]
                self.impls.append(i)
            for p, i, v in d["consts"]:
                self.consts[i] = (p, v)
        # trait item id -> impl fns
        self.cha = {}
        for fn in self.fns.values():
            if fn.trait_item:
                self.cha.setdefault(fn.trait_item, []).append(fn)
        self.children = {}
        for fn in self.fns.values():
            if fn.kind == "Closure" and fn.parent:
                self.children.setdefault(fn.parent, []).append(fn)

    def find(self, suffix, self_ty=None, trait=None, crate=None, allow_none=False):
        """functions whose (generic-stripped) path ends with ::suffix or equals it"""
        out = []
        for fn in self.fns.values():
            if fn.kind == "Closure":
                continue
            if crate and fn.crate != crate:
                continue
            if self_ty is not None or trait is not None:
                if fn.name != suffix:
                    continue
                if trait is not None and not (fn.trait and last_seg(fn.trait) == trait):
                    continue
                if self_ty is not None and not (fn.self_ty and re.search(r"(^|[^A-Za-z0-9_])" + re.escape(self_ty) + r"($|[^A-Za-z0-9_])", fn.self_ty.split("<")[0] if "<" not in self_ty else fn.self_ty)):
                    continue
                out.append(fn)
            else:
                if fn.spath == suffix or fn.spath.endswith("::" + suffix):
                    out.append(fn)
        return out

    def specialise(self, fn, assume):
        """the body of fn with every match on an enum of `assume` (adt -> variant) resolved to that variant"""
        key = (fn.id, tuple(sorted(assume.items())))
        m = self.__dict__.setdefault("_spec", {})
        if key in m:
            return m[key]
        nb = None
        for bi, b in enumerate(fn.blocks):
            t = b["t"]
            if t[0] != "switch":
                continue
            p = t[1].get("m", t[1].get("c"))
            if not isinstance(p, int):
                continue
            vs = None
            for blk in [b] + [fn.blocks[x] for x in fn.pred(bi)]:
                for st in blk["s"]:
                    if st[0] == "=" and st[1] == p and st[2][0] == "disc" and len(st) > 4:
                        vs = st[4]
                if vs:
                    break
            if not vs or last_seg(vs["adt"]) not in assume:
                continue
            want = assume[last_seg(vs["adt"])]
            dv = [x for x, nm in vs["vs"] if nm == want]
            if not dv:
                continue
            tgt = next((tb for v, tb in t[2] if v == dv[0]), t[3])
            if nb is None:
                nb = list(fn.blocks)
            nb[bi] = dict(b, t=["goto", tgt])
        if nb is None:
            m[key] = fn
            return fn
        g = Fn(fn.crate, dict(fn.d, blocks=nb))
        # cut the unreachable blocks so that their definitions do not count; then resolve switches on locals that are left with one constant
        while True:
            live, todo = set(), [0]
            while todo:
                x = todo.pop()
                if x in live:
                    continue
                live.add(x)
                todo += g._succs(x)
            g.blocks = nb = [b if i in live else {"s": [], "t": ["unreach"]} for i, b in enumerate(nb)]
            vals, moved = {}, {}
            for b in nb:
                for st in b["s"]:
                    if st[0] == "=":
                        l, pr = place(st[1])
                        c = None
                        if not pr and st[2][0] == "use" and "k" in st[2][1] and st[2][1]["k"].get("ty") == "bool":
                            c = str(st[2][1]["k"].get("v"))
                        elif not pr and st[2][0] == "agg" and st[2][1] == "adt" and len(st[2]) > 5 and st[2][5]:
                            c = ("variant", st[2][5])
                        elif not pr and st[2][0] == "use" and isinstance(st[2][1].get("m", st[2][1].get("c")), int):
                            moved.setdefault(l, set()).add(st[2][1].get("m", st[2][1].get("c")))
                            continue
                        vals.setdefault(l, set()).add(c)
                        if st[2][0] == "raw" or (st[2][0] == "ref" and st[2][1]):
                            r, rp = place(st[2][-1])
                            vals.setdefault(r, set()).add(None)
                if b["t"][0] == "call":
                    vals.setdefault(place(b["t"][3])[0], set()).add(None)

            def val(l, seen=()):
                if l <= fn.nargs or l in seen:
                    return {None}
                out = set(vals.get(l, ()))
                for s in moved.get(l, ()):
                    out |= val(s, seen + (l,))
                return out or {None}
            ch = False
            for i, b in enumerate(nb):
                t = b["t"]
                if t[0] == "switch":
                    p = t[1].get("m", t[1].get("c"))
                    if not isinstance(p, int) or p <= fn.nargs:
                        continue
                    c = None
                    v = val(p)
                    if len(v) == 1 and next(iter(v)) in ("0", "1"):
                        c = next(iter(v))
                    else:
                        for st in b["s"]:
                            if st[0] == "=" and st[1] == p and st[2][0] == "disc" and len(st) > 4 and isinstance(st[2][1], int):
                                w = val(st[2][1])
                                if len(w) == 1 and isinstance(next(iter(w)), tuple):
                                    c = next((str(x) for x, nm in st[4]["vs"] if nm == next(iter(w))[1]), None)
                    if c is not None:
                        nb[i] = dict(b, t=["goto", next((tb for x, tb in t[2] if str(x) == c), t[3])])
                        ch = True
            g.blocks = nb
            if not ch:
                break
        g._succ = None
        m[key] = g
        return g

    def callee_candidates(self, c, limit=8):
        """workspace bodies a callee record may run; [] when the callee is external/opaque"""
        if "fn" not in c:
            return []
        rid = c.get("r") or c["fn"]
        if rid in self.fns:
            fn = self.fns[rid]
            if "r" not in c and fn.trait_default and "tr" in c:
                ims = self.cha.get(c["fn"], [])
                if ims:
                    return ([fn] + ims) if len(ims) < limit else []
            return [fn]
        if "tr" in c and "r" not in c:
            ims = self.cha.get(c["fn"], [])
            if 0 < len(ims) <= limit:
                return ims
        return []


def place(p):
    """(local, [proj]) of a dumped place"""
    if isinstance(p, int):
        return p, []
    return p[0], p[1:]


def callee_name(c):
    if "fn" not in c:
        return "<indirect>"
    return strip_generics(c.get("rp") or c["p"])
