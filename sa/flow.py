"""Value flow over the dumped MIR: points-to for references, reaching definitions, context-sensitive
backward slices expressed in source atoms (parameters, ADT fields, transcript reads, samples, callees)."""
import re
from model import Fn, Program, place, callee_name, strip_generics, last_seg, STD_ENUMS, STDV_DROP

SKIP_OWNERS = {"Box", "Unique", "NonNull", "ManuallyDrop", "MaybeDangling"}

PASS0 = set("""iter into_iter iter_mut copied cloned clone deref deref_mut as_ref as_mut as_slice as_mut_slice
unwrap expect unwrap_or_default ok_or ok_or_else ok map_err branch next into from borrow borrow_mut to_vec into_vec
to_owned collect rev peekable by_ref into_boxed_slice into_inner pop par_iter into_par_iter par_iter_mut
par_bridge with_min_len with_max_len collect_vec first last first_mut last_mut exactly_one try_into try_from into_iter_sorted transpose
flatten box_new must_use as_deref as_deref_mut next_back peek unzip sorted into_values values keys
unwrap_unchecked expect_err black_box fuse cycle drain as_bytes remove swap_remove get get_mut get_unchecked
chunks chunks_exact chunks_mut par_chunks windows tuple_windows tuples array_windows split_at split_at_mut split_first split_last
concat into_keys cast_slice cast from_iter try_collect from_fn as_ptr spec_next into_flattened insert_mut get_or_insert_with
split_off last_chunk first_chunk nth find position max_by_key min_by_key max min max_by min_by minmax reduce""".split())
ADAPT = set("take skip step_by take_while skip_while map_while filter dedup retain truncate resize nth get_range skip_last dropping unique unique_by dedup_by dedup_by_key dedup_with_count duplicates duplicates_by peeking_take_while take_while_ref take_while_inclusive while_some dropping_back k_smallest coalesce".split())
FIRSTLASTS = {"first", "last", "next", "peek", "next_back", "nth", "find", "position", "max", "min"}
RETCLOS = set("map flat_map filter_map and_then then map_while scan map_or map_or_else unwrap_or_else or_else get_or_insert_with or_insert_with flat_map_iter update map_with map_init map_ok".split())
ZIPS = {"zip", "zip_eq", "cartesian_product", "interleave"}
HOF_ELEM = set("""map for_each all any filter find position flat_map filter_map try_for_each and_then inspect map_while take_while
skip_while map_err map_or map_or_else is_some_and is_ok_and is_none_or max_by_key min_by_key sort_by_key sort_unstable_by_key sort_by sort_unstable_by
find_map partition retain rposition update chunk_by for_each_with map_with map_init flat_map_iter try_map map_ok is_sorted_by_key dedup_by_key
sorted_by sorted_by_key sorted_unstable_by_key cmp_by min_by max_by binary_search_by binary_search_by_key partition_point""".split())
NEVER_MUT_TYPES = ("VerifierTranscript", "ProverTranscript", "TranscriptReader", "TranscriptWriter", "Challenger")
INTERNAL_CALL = {"call", "call_mut", "call_once"}


INT_BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


def narrows(fn, r):
    """a cast of a computed integer to a type with fewer bits"""
    p = r[2].get("m", r[2].get("c"))
    if r[1] != "IntToInt" or not isinstance(p, int) or r[3] == "i32":      # exponents of powi
        return False
    return INT_BITS.get(str(fn.locals[p]), 0) > INT_BITS.get(r[3], 999)


class Frame:
    __slots__ = ("fn", "parent", "bb", "kind", "argidx", "creator", "agg", "depth", "key", "uid")
    _n = 0

    def __init__(self, fn, parent=None, bb=None, kind="root", argidx=None, creator=None, agg=None):
        self.fn, self.parent, self.bb, self.kind = fn, parent, bb, kind
        self.argidx, self.creator, self.agg = argidx, creator, agg
        self.depth = 0 if parent is None else parent.depth + 1
        Frame._n += 1
        self.uid = Frame._n

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent

    def stack(self):
        return [x.fn.id for x in self.chain()]

    def loc(self, bb):
        t = self.fn.blocks[bb]["t"]
        line = t[-1] if t[0] in ("call", "switch", "assert") else self.fn.line
        return f"{self.fn.file}:{line}"

    def __repr__(self):
        return " <- ".join(f"{f.fn.name}" for f in self.chain())


class Flow:
    def __init__(self, prog: Program, inline_crates=("binius_core",), max_depth=10, leaf=None, noinline=None, assume=None):
        self.prog = prog
        self.assume = assume
        self.inline_crates = set(inline_crates)
        self.max_depth = max_depth
        self.leaf = leaf or (lambda fl, fr, bb, c: None)
        self.noinline = noinline or (lambda fn: False)
        self.frames = {}
        self.step_memo = {}
        self.slice_memo = {}

    # ---------------- frames
    def sp(self, fn):
        return self.prog.specialise(fn, self.assume) if self.assume else fn

    def root(self, fn):
        k = ("root", fn.id)
        if k not in self.frames:
            self.frames[k] = Frame(self.sp(fn))
        return self.frames[k]

    def call_frame(self, fr, bb, fn):
        k = (fr.uid, bb, fn.id, "call")
        if k not in self.frames:
            self.frames[k] = Frame(self.sp(fn), fr, bb, "call")
        return self.frames[k]

    def closure_frame(self, fr, bb, argidx, clo):
        fn, creator, agg = clo
        k = (fr.uid, bb, fn.id, "clo", argidx, creator.uid, agg)
        if k not in self.frames:
            self.frames[k] = Frame(self.sp(fn), fr, bb, "closure", argidx, creator, agg)
        return self.frames[k]

    def can_inline(self, fr, fn):
        if fn.crate not in self.inline_crates or fr.depth >= self.max_depth:
            return False
        if self.noinline(fn):
            return False
        return fn.id not in fr.stack()

    # ---------------- places
    @staticmethod
    def npath(projs):
        """normalised path, index locals, [(owner, field)] touched"""
        path, idx, touched = [], [], []
        after_deref = None
        i = 0
        lastv = None
        for n, e in enumerate(projs):
            k = e[0]
            if k == "f":
                owner = e[3] if len(e) > 3 else ""
                if owner in SKIP_OWNERS:
                    lastv = None
                    continue
                if lastv is not None and owner in STD_ENUMS:
                    if lastv not in STDV_DROP:
                        path.append("v:" + lastv)
                    lastv = None
                    continue
                if lastv is not None:
                    path.append("v:" + lastv)
                    if owner:
                        touched.append((owner + "::" + lastv, e[2]))
                    lastv = None
                elif owner:
                    touched.append((owner, e[2]))
                path.append(e[2])
            elif k == "v":
                lastv = e[2]
            elif k == "i":
                idx.append(e[1])
            elif k == "c":
                idx.append(("const", e[1], e[2]))
        if lastv is not None and lastv not in STDV_DROP:
            path.append("v:" + lastv)
        return tuple(path), idx, touched

    def pts(self, fn):
        if fn._pts is not None:
            return fn._pts
        pts = {}  # local -> set((root, path, mut))

        def add(l, s):
            cur = pts.setdefault(l, set())
            n = len(cur)
            cur |= s
            return len(cur) != n
        changed = True
        it = 0
        while changed and it < 12:
            changed = False
            it += 1
            for b in fn.rpo():
                blk = fn.blocks[b]
                for s in blk["s"]:
                    if s[0] != "=":
                        continue
                    dl, dp = place(s[1])
                    r = s[2]
                    if r[0] in ("ref", "raw"):
                        for t in self._targets(fn, pts, r[2]):
                            if add(dl, {(t[0], t[1], bool(r[1]))}):
                                changed = True
                    elif r[0] in ("use", "cast"):
                        o = r[1] if r[0] == "use" else r[2]
                        p = o.get("m", o.get("c"))
                        if p is not None:
                            l, pr = place(p)
                            if l in pts and self._refish(fn.locals[dl]):
                                if add(dl, pts[l]):
                                    changed = True
                    elif r[0] == "agg":
                        for o in r[2]:
                            p = o.get("m", o.get("c"))
                            if p is not None:
                                l, pr = place(p)
                                if l in pts and (pr == [] or self._refish(fn.locals[dl])):
                                    if add(dl, pts[l]):
                                        changed = True
                t = blk["t"]
                if t[0] == "call":
                    dl, dp = place(t[3])
                    if self._refish(fn.locals[dl]):
                        for o in t[2]:
                            p = o.get("m", o.get("c"))
                            if p is not None:
                                l, pr = place(p)
                                if l in pts:
                                    if add(dl, {x for x in pts[l]}):
                                        changed = True
        fn._pts = pts
        return pts

    @staticmethod
    def _refish(ty):
        if ty in ("usize", "bool", "()", "u8", "u32", "u64", "u128", "i32", "i64", "isize"):
            return False
        return "&" in ty or "Mut<" in ty or "IterMut" in ty or "Drain" in ty or "closure" in ty or "impl " in ty or ty.startswith("*") or "<'_" in ty or "<'a" in ty or "'_" in ty

    def _targets(self, fn, pts, p):
        l, pr = place(p)
        path, idx, _ = self.npath(pr)
        di = next((i for i, e in enumerate(pr) if e[0] == "*"), None)
        if di is None or l not in pts or not pts[l]:
            return [(l, path)]
        after, _, _ = self.npath(pr[di + 1:])
        return [(t[0], t[1] + after) for t in pts[l]] or [(l, path)]

    def defs(self, fn):
        """local -> block -> [(idx, defpath, kind, payload)] sorted by idx"""
        if fn._defs is not None:
            return fn._defs
        pts = self.pts(fn)
        D = {}

        def add(l, b, i, path, kind, payload):
            D.setdefault(l, {}).setdefault(b, []).append((i, path, kind, payload))
        for b in fn.rpo():
            blk = fn.blocks[b]
            for i, s in enumerate(blk["s"]):
                if s[0] != "=":
                    continue
                for (l, path) in self._targets(fn, pts, s[1]):
                    add(l, b, i, path, "assign", s[2])
                l0, pr0 = place(s[1])
                if any(e[0] == "*" for e in pr0) and l0 in pts and pts[l0]:
                    pass
            t = blk["t"]
            n = len(blk["s"])
            if t[0] == "call":
                for (l, path) in self._targets(fn, pts, t[3]):
                    add(l, b, n, path, "call", b)
                dl, _ = place(t[3])
                for k, o in enumerate(t[2]):
                    p = o.get("m", o.get("c"))
                    if p is None:
                        continue
                    l, pr = place(p)
                    ty = fn.locals[l]
                    if any(x in ty for x in NEVER_MUT_TYPES):
                        continue
                    for (root, rp, mut) in pts.get(l, ()):
                        if mut and root != dl:
                            add(root, b, n, rp, "mutcall", (b, k))
                    # passing a &mut parameter itself
                    if l <= fn.nargs and l >= 1 and ty.startswith("&mut") and pr == []:
                        add(l, b, n, (), "mutcall", (b, k))
        for l in D:
            for b in D[l]:
                # a call's destination is written after its mutated arguments
                D[l][b].sort(key=lambda x: (x[0], 0 if x[2] == "mutcall" else 1))
        fn._defs = D
        return D

    def reaching(self, fn, local, path, bb, idx):
        """definitions of local.path visible just before (bb, idx): list of ((b,i,dpath,kind,payload)); 'entry' flag"""
        D = self.defs(fn).get(local, {})
        out, entry = [], False
        seen = set()
        work = [(bb, idx)]
        while work:
            b, i = work.pop()
            killed = False
            for (di, dp, kind, pl) in reversed(D.get(b, [])):
                if i is not None and di >= i:
                    continue
                n = min(len(dp), len(path))
                if dp[:n] != path[:n]:
                    continue
                out.append((b, di, dp, kind, pl))
                if len(dp) <= len(path):
                    killed = True
                    break
            if killed:
                continue
            if b == 0:
                entry = True
            for p in fn.pred(b):
                if p not in seen:
                    seen.add(p)
                    work.append((p, None))
        return out, entry

    # ---------------- operands
    def op_states(self, fr, o, path, bb, idx):
        """(atoms, states) of an operand"""
        if "k" in o:
            return self.const_atoms(fr, o["k"]), []
        p = o.get("m", o.get("c"))
        return self.place_states(fr, p, path, bb, idx)

    def const_atoms(self, fr, k):
        if "fn" in k:
            return {"fnitem:" + last_seg(k.get("rp") or k["p"])}
        at = set()
        if "item" in k:
            at.add("item:" + last_seg(k["item"]))
            if "of" in k:
                at.add("item:" + last_seg(k["item"]) + "<" + last_seg(k["of"]) + ">")
            return at
        if "promoted" in k:
            try:
                pb = fr.fn.promoted[k["promoted"]]
                for blk in pb["blocks"]:
                    for s in blk["s"]:
                        if s[0] == "=":
                            for kk in self._consts_in(s[2]):
                                at |= self.const_atoms(fr, kk)
            except Exception:
                pass
            return at
        if "v" in k:
            at.add("int:" + k["v"])
        elif k.get("ty") in ("usize", "u64", "u32", "bool") and k.get("s", "").isidentifier():
            at.add("cg:" + k["s"])
        return at

    def _consts_in(self, r):
        if isinstance(r, dict):
            if "k" in r:
                if isinstance(r["k"], dict) and "promoted" not in r["k"]:
                    yield r["k"]
        elif isinstance(r, list):
            for x in r:
                yield from self._consts_in(x)

    def place_states(self, fr, p, extra, bb, idx):
        l, pr = place(p)
        path, idxs, touched = self.npath(pr)
        at = {f"{o}.{f}" for o, f in touched}
        st = [(fr, l, path + tuple(extra), bb, idx)]
        for i in idxs:
            if isinstance(i, tuple):
                at.add(f"idx:{'-' if i[2] else ''}{i[1]}")
            else:
                st.append((fr, i, (), bb, idx))
        return at, st

    # ---------------- callable resolution
    def callables(self, fr, o, bb, idx, depth=0):
        """closures/fn items an operand may denote"""
        if depth > 12:
            return []
        if "k" in o:
            k = o["k"]
            if "fn" in k:
                return [("fn", k)]
            if "closure" in k and k["closure"] in self.prog.fns:
                return [("clo", (self.prog.fns[k["closure"]], fr, None))]
            return []
        p = o.get("m", o.get("c"))
        l, pr = place(p)
        path, _, _ = self.npath(pr)
        return self._callables_local(fr, l, path, bb, idx, depth)

    def _callables_local(self, fr, l, path, bb, idx, depth):
        ty = fr.fn.locals[l]
        defs, entry = self.reaching(fr.fn, l, path, bb, idx)
        out = []
        for (b, i, dp, kind, pl) in defs:
            if kind == "assign":
                r = pl
                if r[0] == "agg" and r[1] == "closure":
                    if path == dp and r[3] in self.prog.fns:
                        out.append(("clo", (self.prog.fns[r[3]], fr, (b, i))))
                    elif len(path) > len(dp):
                        k = path[len(dp)]
                        if k.isdigit() and int(k) < len(r[2]):
                            o = r[2][int(k)]
                            if "k" in o:
                                out += self.callables(fr, o, b, i, depth + 1)
                            else:
                                l2, pr2 = place(o.get("m", o.get("c")))
                                p2, _, _ = self.npath(pr2)
                                out += self._callables_local(fr, l2, p2 + path[len(dp) + 1:], b, i, depth + 1)
                elif r[0] == "agg" and len(path) > len(dp):
                    names = r[6] if r[1] == "adt" else [str(x) for x in range(len(r[2]))]
                    if path[len(dp)] in names:
                        o = r[2][names.index(path[len(dp)])]
                        if "k" in o:
                            out += self.callables(fr, o, b, i, depth + 1)
                        else:
                            l2, pr2 = place(o.get("m", o.get("c")))
                            p2, _, _ = self.npath(pr2)
                            out += self._callables_local(fr, l2, p2 + path[len(dp) + 1:], b, i, depth + 1)
                elif r[0] in ("use", "cast"):
                    o = r[1] if r[0] == "use" else r[2]
                    if "k" in o:
                        out += self.callables(fr, o, b, i, depth + 1)
                    else:
                        l2, pr2 = place(o.get("m", o.get("c")))
                        p2, _, _ = self.npath(pr2)
                        out += self._callables_local(fr, l2, p2 + path[len(dp):], b, i, depth + 1)
                elif r[0] == "ref":
                    l2, pr2 = place(r[2])
                    p2, _, _ = self.npath(pr2)
                    out += self._callables_local(fr, l2, p2 + path[len(dp):], b, i, depth + 1)
        if entry and 1 <= l <= fr.fn.nargs:
            if fr.kind == "call":
                t = fr.parent.fn.blocks[fr.bb]["t"]
                if l > len(t[2]):      # a closure value called with its arguments spread
                    return out
                o = t[2][l - 1]
                n = len(fr.parent.fn.blocks[fr.bb]["s"])
                if "k" in o:
                    out += self.callables(fr.parent, o, fr.bb, n, depth + 1)
                else:
                    l2, pr2 = place(o.get("m", o.get("c")))
                    p2, _, _ = self.npath(pr2)
                    out += self._callables_local(fr.parent, l2, p2 + path, fr.bb, n, depth + 1)
            elif fr.kind == "closure" and l == 1 and fr.agg is not None and path and path[0].isdigit():
                b, i = fr.agg
                r = fr.creator.fn.blocks[b]["s"][i][2]
                if int(path[0]) < len(r[2]):
                    o = r[2][int(path[0])]
                    if "k" in o:
                        out += self.callables(fr.creator, o, b, i, depth + 1)
                    else:
                        l2, pr2 = place(o.get("m", o.get("c")))
                        p2, _, _ = self.npath(pr2)
                        out += self._callables_local(fr.creator, l2, p2 + path[1:], b, i, depth + 1)
        return out

    def closures_of_call(self, fr, bb):
        """(argidx, closure frame) for each closure passed to the call at bb (external HOF or call_once)"""
        t = fr.fn.blocks[bb]["t"]
        n = len(fr.fn.blocks[bb]["s"])
        out = []
        for k, o in enumerate(t[2]):
            p = o.get("m", o.get("c"))
            if p is not None:
                ty = fr.fn.locals[place(p)[0]]
                if not ("closure" in ty or "impl " in ty or re.search(r"\b[A-Z][A-Za-z0-9]*\b", ty)):
                    continue
            elif not ("fn" in o["k"] or "closure" in o["k"]):
                continue
            for c in self.callables(fr, o, bb, n):
                if c[0] == "clo":
                    if c[1][0].id in fr.stack():
                        continue
                    out.append((k, self.closure_frame(fr, bb, k, c[1])))
                elif c[0] == "fn":
                    for fn in self.prog.callee_candidates(c[1]):
                        if self.can_inline(fr, fn):
                            kk = (fr.uid, bb, fn.id, "fnarg", k)
                            if kk not in self.frames:
                                self.frames[kk] = Frame(fn, fr, bb, "fnarg", k)
                            out.append((k, self.frames[kk]))
        return out

    # ---------------- one step of the backward slice
    def step(self, state):
        r = self.step_memo.get(state)
        if r is None:
            r = self._step(state)
            self.step_memo[state] = r
        return r

    def _step(self, state):
        fr, l, path, bb, idx = state
        fn = fr.fn
        atoms, nxt = set(), []
        ty = fn.locals[l]
        if any(x in ty for x in ("VerifierTranscript", "ProverTranscript")) and "Reader" not in ty and "Writer" not in ty and not path:
            return {"TRANSCRIPT"}, []
        defs, entry = self.reaching(fn, l, path, bb, idx)
        for (b, i, dp, kind, pl) in defs:
            rest = path[len(dp):] if len(dp) <= len(path) else ()
            if kind == "assign":
                a, s = self.rvalue(fr, pl, rest, b, i, bb, idx)
            elif kind == "call":
                a, s = self.call_result(fr, b, rest)
            else:
                a, s = self.mutcall(fr, pl, rest)
            atoms |= a
            nxt += s
        if entry and 1 <= l <= fn.nargs:
            a, s = self.param(fr, l, path)
            atoms |= a
            nxt += s
        return atoms, nxt

    def rvalue(self, fr, r, path, b, i, qb, qi):
        k = r[0]
        if k == "use":
            return self.op_states(fr, r[1], path, b, i)
        if k in ("ref", "raw"):
            # read through the reference: the pointee as of the query point
            return self.place_states(fr, r[2], path, qb, qi)
        if k == "cast":
            a, st = self.op_states(fr, r[2], path, b, i)
            return (a | {"op:Narrow"}, st) if narrows(fr.fn, r) else (a, st)
        if k == "bin":
            op = r[1].replace("WithOverflow", "").replace("Unchecked", "")
            a1, s1 = self.op_states(fr, r[2], (), b, i)
            a2, s2 = self.op_states(fr, r[3], (), b, i)
            return a1 | a2 | {"op:" + op}, s1 + s2
        if k == "un":
            a, s = self.op_states(fr, r[2], (), b, i)
            if r[1] != "PtrMetadata":
                a = a | {"op:" + r[1]}
            else:
                a = a | {"len"}
            return a, s
        if k == "disc":
            return self.place_states(fr, r[1], (), b, i)
        if k == "repeat":
            return self.op_states(fr, r[1], path, b, i)
        if k == "agg":
            return self.agg(fr, r, path, b, i)
        return set(), []

    def agg(self, fr, r, path, b, i):
        ops = r[2]
        if r[1] == "adt":
            adt, var, names = last_seg(r[3]), r[5], r[6]
            if adt in STD_ENUMS:
                if var in STDV_DROP:
                    return self.op_states(fr, ops[0], path, b, i) if not (path and path[0] in ("v:Err", "v:Break", "v:None")) else (set(), [])
                if path and path[0] == "v:" + var:
                    return self.op_states(fr, ops[0], path[1:], b, i) if ops else (set(), [])
                if var == "Err" or var == "Break":
                    return set(), []
                return {f"{adt}::{var}"}, []
            p = path
            if p and p[0].startswith("v:"):
                if p[0] != "v:" + var:
                    return set(), []
                p = p[1:]
            if p and p[0] in names:
                a, s = self.op_states(fr, ops[names.index(p[0])], p[1:], b, i)
                return a, s
            a, s = {f"new:{adt}" + ("" if var == adt else f"::{var}")}, []
            if adt.startswith("Range"):
                for o, nm in zip(ops, names):
                    k = o.get("k")
                    if k is not None and "v" in k:
                        a.add(f"{adt}.{nm}={k['v']}")
            for o in ops:
                a1, s1 = self.op_states(fr, o, (), b, i)
                a |= a1
                s += s1
            return a, s
        if r[1] in ("tuple", "closure"):
            if path and path[0].isdigit() and int(path[0]) < len(ops):
                return self.op_states(fr, ops[int(path[0])], path[1:], b, i)
        a, s = set(), []
        for o in ops:
            a1, s1 = self.op_states(fr, o, path if r[1] == "array" else (), b, i)
            a |= a1
            s += s1
        return a, s

    def param(self, fr, l, path):
        if fr.kind == "root":
            a = {f"arg:{l}"}
            nm = fr.fn.argname(l)
            a.add("p:" + nm)
            return a, []
        if fr.kind == "call":
            t = fr.parent.fn.blocks[fr.bb]["t"]
            n = len(fr.parent.fn.blocks[fr.bb]["s"])
            if l - 1 >= len(t[2]):
                return set(), []
            return self.op_states(fr.parent, t[2][l - 1], path, fr.bb, n)
        if fr.kind == "fnarg":
            return self.hof_param(fr, l + 1, path)
        # closure
        if l == 1:
            if fr.agg is None:
                return set(), []
            b, i = fr.agg
            r = fr.creator.fn.blocks[b]["s"][i][2]
            if path and path[0].isdigit():
                k = int(path[0])
                if k < len(r[2]):
                    return self.op_states(fr.creator, r[2][k], path[1:], b, i)
                return set(), []
            a, s = set(), []
            for o in r[2]:
                a1, s1 = self.op_states(fr.creator, o, (), b, i)
                a |= a1
                s += s1
            return a, s
        return self.hof_param(fr, l, path)

    def hof_param(self, fr, l, path):
        """value of closure parameter l (2..) given the higher-order call that runs it"""
        pf, bb = fr.parent, fr.bb
        t = pf.fn.blocks[bb]["t"]
        n = len(pf.fn.blocks[bb]["s"])
        name = last_seg(callee_name(t[1])) if "fn" in t[1] else "call"
        args = t[2]
        if name in INTERNAL_CALL:
            return self.op_states(pf, args[1], (str(l - 2),) + tuple(path), bb, n)
        if name in ("fold", "try_fold", "rfold", "try_fold_with", "fold_while", "scan"):
            if l == 2:
                a, s = self.op_states(pf, args[1], path, bb, n)
                s = list(s)
                for rb in fr.fn.returns():
                    s.append((fr, 0, tuple(path), rb, len(fr.fn.blocks[rb]["s"])))
                return a, s
            return self.op_states(pf, args[0], path, bb, n)
        if name == "reduce" or name in ("sort_by", "max_by", "min_by", "sort_unstable_by"):
            return self.op_states(pf, args[0], path, bb, n)
        if name in ("map_or", "map_or_else") or name in HOF_ELEM:
            return self.op_states(pf, args[0], path, bb, n)
        if name in ("from_fn", "repeat_with", "ok_or_else", "then", "unwrap_or_else", "resize_with", "get_or_insert_with"):
            if name == "from_fn":
                return {"enum-index"}, []
            return self.op_states(pf, args[0], (), bb, n) if args else (set(), [])
        a, s = set(), []
        for k, o in enumerate(args):
            if k == fr.argidx:
                continue
            a1, s1 = self.op_states(pf, o, (), bb, n)
            a |= a1
            s += s1
        return a, s

    def call_result(self, fr, bb, path):
        fn = fr.fn
        t = fn.blocks[bb]["t"]
        c, args = t[1], t[2]
        n = len(fn.blocks[bb]["s"])
        lf = self.leaf(self, fr, bb, c)
        if lf is not None:
            atoms, follow = lf
            a, s = set(atoms), []
            for k in follow:
                a1, s1 = self.op_states(fr, args[k], (), bb, n)
                a |= a1
                s += s1
            return a, s
        full = callee_name(c)
        name = last_seg(full)
        # closures called directly
        if "fn" not in c or (name in INTERNAL_CALL and "tr" in c):
            a, s = set(), []
            callee_op = c.get("ind") if "fn" not in c else args[0]
            got = False
            for cl in self.callables(fr, callee_op, bb, n):
                if cl[0] == "clo":
                    if cl[1][0].id in fr.stack():
                        continue
                    f2 = self.closure_frame(fr, bb, 0, cl[1])
                    got = True
                    s += self.ret_states(f2, path)
                elif cl[0] == "fn":
                    for g in self.prog.callee_candidates(cl[1]):
                        a.add("fn:" + g.name)
            for o in args:
                a1, s1 = self.op_states(fr, o, (), bb, n)
                a |= a1
                s += s1
            return a | ({"call:<closure>"} if not got else set()), s
        cands = self.prog.callee_candidates(c)
        inl = [g for g in cands if self.can_inline(fr, g)]
        if inl and len(inl) == len(cands):
            a, s = {"fn:" + inl[0].name} | ({"len"} if name == "len" else set()), []
            for g in inl:
                s += self.ret_states(self.call_frame(fr, bb, g), path)
            return a, s
        if cands or (c.get("rp") or c["p"]).split("::")[0].split("@")[0].startswith("binius_") or "binius_" in full:
            a, s = {"fn:" + name} | ({"len"} if name == "len" else set()), []
            for k, o in enumerate(args):
                a1, s1 = self.op_states(fr, o, path if name in ("clone", "deref", "index") and k == 0 else (), bb, n)
                a |= a1
                s += s1
            for (k, f2) in self.closures_of_call(fr, bb):
                s += self.ret_states(f2, ())
            return a, s
        return self.ext_result(fr, bb, name, full, args, path, n)

    def ret_states(self, f2, path):
        return [(f2, 0, tuple(path), rb, len(f2.fn.blocks[rb]["s"])) for rb in f2.fn.returns()]

    def ext_result(self, fr, bb, name, full, args, path, n):
        a, s = set(), []

        def use(k, p=()):
            nonlocal a, s
            if k < len(args):
                a1, s1 = self.op_states(fr, args[k], p, bb, n)
                a |= a1
                s += s1
        if name == "from_residual":
            return set(), []
        if name in ADAPT:
            one = name == "skip" and len(args) > 1 and args[1].get("k", {}).get("v") == "1"
            a.add("adapt:" + name + ("=1" if one else ""))
            use(0, path)
            use(1, ())
            for (k, f2) in self.closures_of_call(fr, bb):
                s += self.ret_states(f2, ())
            return a, s
        if name in RETCLOS:
            clos = self.closures_of_call(fr, bb)
            if clos:
                for (k, f2) in clos:
                    s += self.ret_states(f2, path)
                if name in ("scan", "map_or", "unwrap_or_else", "or_else", "then"):
                    use(0, path if name in ("unwrap_or_else", "or_else") else ())
                    if name == "map_or":
                        use(1, path)
                if name in ("map_while", "filter_map", "scan"):
                    a.add("adapt:" + name)
                return a, s
            for k in range(len(args)):
                use(k, ())
            a.add("call:" + name)
            return a, s
        if name in ZIPS:
            if path and path[0] == "0":
                use(0, path[1:])
            elif path and path[0] == "1":
                use(1, path[1:])
            else:
                use(0, ())
                use(1, ())
            a.add("zip")
            return a, s
        if name == "enumerate":
            if path and path[0] == "0":
                a.add("enum-index")
            elif path and path[0] == "1":
                use(0, path[1:])
            else:
                use(0, ())
                a.add("enum-index")
            return a, s
        if name == "chain":
            use(0, path)
            use(1, path)
            return a, s
        if name in ("fold", "try_fold"):
            use(1, path)
            for (k, f2) in self.closures_of_call(fr, bb):
                s += self.ret_states(f2, path)
            return a, s
        if name in ("split_at", "split_at_mut", "split_first", "split_last"):
            use(0, path[1:] if path and path[0].isdigit() else path)
            use(1, ())
            a.add("split:" + (path[0] if path and path[0].isdigit() else "*"))
            return a, s
        if name == "unzip":
            use(0, path)
            return a, s
        if name == "then_some":
            use(1, path)
            return a, s
        if name in ("index", "index_mut"):
            use(0, path)
            use(1, ())
            a.add("index")
            return a, s
        if name in PASS0:
            use(0, path)
            for k in range(1, len(args)):
                use(k, ())
            if name in ("min", "max", "pop", "last", "first", "nth", "find", "position"):
                a.add("call:" + name)
            if name in ("get", "get_mut", "chunks", "chunks_exact"):
                a.add("index")
            return a, s
        if name in ("sum", "product"):
            use(0, path)
            a.add("op:" + name)
            return a, s
        if name in ("vec", "repeat", "repeat_n", "once", "from_elem", "box_assume_init_into_vec_unsafe", "into_boxed", "new", "successors"):
            for k in range(len(args)):
                use(k, path)
            if name == "new":
                a.add("call:new")
            return a, s
        if name in ("add", "mul", "sub", "div", "rem", "neg", "add_assign", "mul_assign", "sub_assign", "bitxor", "shl", "shr", "bitand", "bitor", "not"):
            for k in range(len(args)):
                use(k, ())
            a.add("op:" + {"add": "Add", "mul": "Mul", "sub": "Sub", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}.get(name, name))
            return a, s
        if name == "len":
            use(0, ())
            a.add("len")
            return a, s
        for k in range(len(args)):
            use(k, ())
        for (k, f2) in self.closures_of_call(fr, bb):
            s += self.ret_states(f2, ())
        a.add("call:" + name)
        return a, s

    def mutcall(self, fr, pl, path):
        bb, k = pl
        fn = fr.fn
        t = fn.blocks[bb]["t"]
        c, args = t[1], t[2]
        n = len(fn.blocks[bb]["s"])
        a, s = set(), []
        if self.leaf(self, fr, bb, c) is not None:
            atoms, follow = self.leaf(self, fr, bb, c)
            a1, s1 = self.op_states(fr, args[k], path, bb, n)
            return set(atoms) | a1, s1
        cands = self.prog.callee_candidates(c)
        inl = [g for g in cands if self.can_inline(fr, g)]
        name = last_seg(callee_name(c))
        if inl and len(inl) == len(cands):
            for g in inl:
                f2 = self.call_frame(fr, bb, g)
                for rb in g.returns():
                    s.append((f2, k + 1, tuple(path), rb, len(g.blocks[rb]["s"])))
            return {"mutfn:" + inl[0].name}, s
        if name in ("next", "next_back", "by_ref", "iter_mut", "as_mut", "deref_mut", "into_iter", "index_mut",
                    "zip", "enumerate", "chunks_mut", "rev", "last_mut", "first_mut", "get_mut", "split_at_mut", "message", "decommitment"):
            # creates or advances a view; the mutation itself happens at later writes through it
            return self.op_states(fr, args[k], path, bb, n)
        for j, o in enumerate(args):
            a1, s1 = self.op_states(fr, o, path if (j == k or name in ("push", "extend", "extend_from_slice", "append", "resize", "push_back")) else (), bb, n)
            a |= a1
            s += s1
        for (kk, f2) in self.closures_of_call(fr, bb):
            f2fn = f2.fn
            for rb in f2fn.returns():
                # captured state after the closure ran, and its result
                s.append((f2, 1, (), rb, len(f2fn.blocks[rb]["s"])))
                s.append((f2, 0, (), rb, len(f2fn.blocks[rb]["s"])))
        a.add("mut:" + name)
        if name.endswith("_assign") and name[:-7] in ("add", "sub", "mul", "div", "rem", "shl", "shr", "bitand", "bitor", "bitxor"):
            a.add("op:" + {"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}.get(name[:-7], name[:-7].title()))
        return a, s

    # ---------------- slices
    def slice_states(self, states, limit=60000):
        key = tuple(sorted(set(states), key=lambda s: (s[0].uid,) + tuple(map(str, s[1:]))))
        if key in self.slice_memo:
            return self.slice_memo[key]
        seen = set(states)
        work = list(states)
        atoms = set()
        while work:
            st = work.pop()
            a, nx = self.step(st)
            atoms |= a
            for x in nx:
                if len(x[2]) > 7:
                    x = (x[0], x[1], x[2][:7], x[3], x[4])
                if x not in seen:
                    seen.add(x)
                    work.append(x)
            if len(seen) > limit:
                atoms.add("SLICE-LIMIT")
                break
        self.slice_memo[key] = frozenset(atoms)
        return self.slice_memo[key]

    def operand(self, fr, o, bb, idx, path=()):
        a, s = self.op_states(fr, o, path, bb, idx)
        return frozenset(a) | self.slice_states(s)

    def arg(self, fr, bb, k, path=()):
        t = fr.fn.blocks[bb]["t"]
        if t[0] != "call" or k >= len(t[2]):
            return frozenset({"<absent>"})
        return self.operand(fr, t[2][k], bb, len(fr.fn.blocks[bb]["s"]), path)

    def retval(self, fr, path=()):
        return self.slice_states(self.ret_states(fr, path))
