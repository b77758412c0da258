"""A dishonest proof is an error, never a panic: what the prover sends is range-checked before it is relied on."""
from engine import *

EXPLAIN = ("Call graph of the verifier, walked per calling context. (1) no Result of anything that reads or checks prover bytes is unwrapped; (2) every integer the prover chooses (claim hints, positions) reaches an index, a slice "
           "bound, a length or an unwrapped lookup only under a range check of that integer; (3) the table sizes are validated before their first use; (4) no panic is controlled by a comparison of received values.")
INTY = re.compile(r"^(u8|u16|u32|u64|u128|usize|bool)$")
INDEX = {"index": 1, "index_mut": 1, "split_at": 1, "split_at_mut": 1, "split_off": 1, "swap": 1, "remove": 1, "swap_remove": 1, "drain": 1, "copy_within": 1, "with_capacity": 0, "from_elem": 1, "resize": 1,
         "reserve": 1, "insert": 1, "chunks": 1, "chunks_exact": 1, "windows": 1, "get_unchecked": 1, "ilog2": 0, "read_vec": 1, "read_scalar_slice": 1}
PARTIAL = ("get", "get_mut", "find", "position", "invert", "checked_sub", "checked_add", "checked_mul", "checked_div", "nth", "from_u32", "from_repr", "try_from", "try_into", "binary_search", "strip_prefix", "from_fn_opt", "ok_or", "first", "last")


def leaf(fl, fr, bb, c):
    r = transcript_leaf(fl, fr, bb, c)
    if r is not None and "READ" in r[0]:
        n = last_seg(callee_name(c))
        ga = [g for g in c.get("ga") or [] if not g.startswith("'")]
        if n in ("read", "read_vec", "read_bytes") and (any(INTY.match(x) for x in ga) or n == "read_bytes"):
            # the table sizes are the one vector of integers in the protocol, they have their own rule
            return set(r[0]) | ({"SIZES"} if n == "read_vec" else {"HINT"}), r[1]
    if r is None and "fn" in c and last_seg(callee_name(c)) in ("get", "get_mut", "index", "index_mut", "nth", "skip", "take"):
        return set(), (0,)     # an element selected by an integer is not that integer
    return r


def walk(D, root):
    seen, out = set(), []
    todo = [(root, 0)]
    while todo:
        fr, d = todo.pop()
        if fr.uid in seen or d > 14:
            continue
        seen.add(fr.uid)
        out.append(fr)
        for b, t in fr.fn.calls():
            if D.fl.leaf(D.fl, fr, b, t[1]) is not None:
                continue
            for g in D.prog.callee_candidates(t[1]):
                if D.fl.can_inline(fr, g):
                    todo.append((D.fl.call_frame(fr, b, g), d + 1))
            for k, f2 in D.fl.closures_of_call(fr, b):
                todo.append((f2, d + 1))
    return out


def verifier(C):
    if not hasattr(C, "_c12"):
        D = C.with_(leaf=leaf)
        v = D.fn("constraint_system::verify::verify")
        frs = walk(D, D.root(v))
        # every function below the verifier once more on its own, so that no context-depth limit hides what its callees return
        ids = {fr.fn.id for fr in frs}
        for i in sorted(ids):
            if "{closure" not in D.prog.fns[i].spath:
                fr = D.root(D.prog.fns[i])
                frs.append(fr)
                for b, t in fr.fn.calls():
                    if D.fl.leaf(D.fl, fr, b, t[1]) is None:
                        frs += [f2 for k, f2 in D.fl.closures_of_call(fr, b)]
        C._c12 = (D, v, frs)
    return C._c12


def reads_inside(D, v):
    """functions from which a transcript read is reachable"""
    if not hasattr(D, "_ri"):
        hit = set()
        calls = {}
        for f in D.prog.fns.values():
            cs = set()
            for b, t in f.calls():
                if "fn" not in t[1]:
                    continue
                n = callee_name(t[1])
                if "TranscriptReader" in n and last_seg(n).startswith("read"):
                    hit.add(f.id)
                cs |= {g.id for g in D.prog.callee_candidates(t[1])}
            calls[f.id] = cs
        ch = True
        while ch:
            ch = False
            for i, cs in calls.items():
                if i not in hit and cs & hit:
                    hit.add(i)
                    ch = True
        D._ri = hit
    return D._ri


def unwraps(C):
    """no Result that depends on prover bytes is unwrapped"""
    D, v, frs = verifier(C)
    hit = reads_inside(D, v)
    done = {}
    for fr in frs:
        for b, t in fr.fn.calls():
            if "fn" not in t[1] or last_seg(callee_name(t[1])) not in ("expect", "unwrap", "unwrap_unchecked", "expect_err"):
                continue
            key = (fr.fn.id, b)
            src = []
            for b2, t2 in producers(D, fr, b, t):
                if "fn" not in t2[1]:
                    continue
                n2 = callee_name(t2[1])
                cands = [g.id for g in D.prog.callee_candidates(t2[1])]
                if "TranscriptReader" in n2 and last_seg(n2).startswith("read") or cands and all(i in hit for i in cands):
                    src.append(last_seg(n2))
                elif last_seg(n2) == "finalize" and "Transcript" in n2:
                    src.append("finalize")
                elif re.match(r"(verify|check|decode|deserialize|authenticate|batch_verify)", last_seg(n2)) and any({"READ:msg", "READ:dec"} & D.fl.arg(fr, b2, k) for k in range(len(t2[2]))):
                    src.append(last_seg(n2))
                else:
                    for g in D.prog.callee_candidates(t2[1])[:2]:
                        if "Result<" not in g.ret_ty() or not D.fl.can_inline(fr, g):
                            continue
                        for l in (D.fa.exits(D.fl.call_frame(fr, b2, g), "Ok") or {}).values():
                            at = (l.lhs | l.rhs) if l.kind == "cmp" else set().union(*l.args()) if l.kind == "pred" and l.args() else set()
                            if {"READ:msg", "READ:dec"} & at and any(x.startswith("R:read") for x in at) and (not {"len", "call:len", "usize"} & at or "SIZES" in at and last_seg(n2) == "check_table_sizes"):
                                src.append(last_seg(n2))
            done.setdefault(key, (fr, b, set()))[2].update(src)
    bad = [(fr, b, s) for fr, b, s in done.values() if s]
    D.ob("unwrap.none", f"none of the {len(done)} unwrapped results below the verifier comes from a function that reads prover bytes", not bad, v, sample=[f"{len(done)} unwraps, {len(frs)} contexts"],
         detail="; ".join(f"{fr.loc(b)} unwraps {sorted(s)}" for fr, b, s in bad)[:500])
    D.ob("unwrap.seen", "unwraps below the verifier were enumerated", len(frs) > 100, v, sample=[len(frs)], detail=str(len(frs)))


def producers(D, fr, b, t):
    """calls whose result is the unwrapped value itself (through moves and map_err)"""
    out, seen = [], set()
    def of(op):
        p = op.get("m", op.get("c")) if isinstance(op, dict) else None
        if p is None:
            return
        l = place(p)[0]
        if l in seen:
            return
        seen.add(l)
        for b2, t2 in fr.fn.calls():
            if len(t2) > 3 and t2[3] is not None and place(t2[3])[0] == l:
                out.append((b2, t2))
                if "fn" in t2[1] and last_seg(callee_name(t2[1])) in ("map_err", "map", "ok", "and_then", "ok_or", "ok_or_else") and t2[2]:
                    of(t2[2][0])
        for bb in range(len(fr.fn.blocks)):
            for s in fr.fn.blocks[bb]["s"]:
                if s[0] == "=" and place(s[1])[0] == l and s[2][0] == "use":
                    of(s[2][1])
    if t[2]:
        of(t[2][0])
    return out


def bounded(D, fr, b, atoms):
    """a comparison of the received integer holds here"""
    for l in D.fa.at_full(fr, b).values():
        if l.kind == "cmp" and l.op in ("<", "<=", ">", ">=", "=="):
            for x, y in ((l.lhs, l.rhs), (l.rhs, l.lhs)):
                if x and "HINT" in x and y is not None and "HINT" not in y:
                    return True
        if l.kind in ("var", "ok", "pred") and l.name in ("Some", "Ok", "is_some") and l.lhs and "HINT" in l.lhs:
            return True
    return False


def hints(C):
    """prover-chosen integers are range-checked"""
    D, v, frs = verifier(C)
    n, bad, used = 0, [], 0
    for fr in frs:
        fn = fr.fn
        for b in fn.rpo():
            t = fn.blocks[b]["t"]
            at = None
            if t[0] == "assert":
                at = set()
                for o in t[1:]:
                    if isinstance(o, dict) and ("m" in o or "c" in o):
                        at |= D.fl.operand(fr, o, b, len(fn.blocks[b]["s"]))
                what = "bounds check"
            elif t[0] == "call" and "fn" in t[1]:
                nm = last_seg(callee_name(t[1]))
                if nm in INDEX and len(t[2]) > INDEX[nm]:
                    at = D.fl.arg(fr, b, INDEX[nm])
                    what = nm
                elif nm in ("expect", "unwrap"):
                    # an unwrapped partial lookup by the received integer
                    at = set()
                    for b2, t2 in producers(D, fr, b, t):
                        if "fn" in t2[1] and last_seg(callee_name(t2[1])) in PARTIAL:
                            for k in range(1, len(t2[2])):
                                at |= D.fl.arg(fr, b2, k)
                    what = nm
            if at is None:
                continue
            n += 1
            if "HINT" not in at:
                continue
            used += 1
            if not bounded(D, fr, b, at):
                bad.append((fr, b, what))
    D.ob("hint.bounded", f"of {n} indexing, slicing, allocating and unwrapping sites in {len(frs)} contexts, every one that uses an integer chosen by the prover is under a range check of it", not bad, v,
         sample=[f"{used} sites use a prover-chosen integer"], detail="; ".join(sorted({f"{fr.loc(b)} ({w}) without a range check" for fr, b, w in bad}))[:500])
    hs = set()
    for fr in frs:
        for b, t in fr.fn.calls():
            r = D.fl.leaf(D.fl, fr, b, t[1])
            if r and "HINT" in r[0]:
                hs.add(fr.loc(b))
    D.ob("hint.sites", "reads of prover-chosen integers were found", hs, v, sample=sorted(hs))


def sizes(C):
    """table sizes are validated before use"""
    D, v, frs = verifier(C)
    root = D.root(v)
    D.need_ok("sizes.checked", "verification accepts only if the received table sizes are valid for the system", v, "check_table_sizes", args={1: ["SIZES"]})
    bad, n = [], 0
    for b, t in v.calls():
        if "fn" not in t[1] or D.fl.leaf(D.fl, root, b, t[1]) is not None:
            continue
        nm = last_seg(callee_name(t[1]))
        if nm not in ("index", "instantiate") and not list(D.fl.closures_of_call(root, b)):
            continue
        at = set()
        for k in range(len(t[2])):
            at |= D.fl.arg(root, b, k)
        for k, f2 in D.fl.closures_of_call(root, b):
            for b3, t3 in f2.fn.calls():
                for j in range(len(t3[2])):
                    at |= D.fl.arg(f2, b3, j)
        if "SIZES" not in at or nm in ("branch", "check_table_sizes"):
            continue
        n += 1
        if not any(l.kind == "ok" and l.name == "check_table_sizes" for l in D.fa.at(root, b).values()):
            bad.append(f"{root.loc(b)} {nm}")
    D.ob("sizes.first", f"all {n} uses of the table sizes in the verifier come after their validation", not bad and n > 0, v, sample=[n], detail="; ".join(bad)[:300])
    g = D.fn("check_table_sizes")
    D.need_cmp("sizes.len", "one size per table", g, "==", ["arg:2", "len"], [("ConstraintSystem.table_size_specs", "arg:1"), "len"])


def decides(at):
    """the condition is about a received value itself (not about how many values were received)"""
    scalars = any(x.startswith("R:read_") and x not in ("R:read_vec", "R:read_bytes") for x in at)
    return bool({"READ:msg", "READ:dec", "HINT"} & at) and not ({"len", "call:len", "call:is_empty", "disc"} | (set() if scalars else {"SIZES"})) & at


def by_value(D, fr, o, depth=0):
    """the boolean is the result of comparing received field elements (or digests), directly or element by element"""
    p = o.get("m", o.get("c")) if isinstance(o, dict) else None
    if not isinstance(p, int) or depth > 6 or fr.fn.locals[p] != "bool":
        return False
    fn = fr.fn
    for b, blk in enumerate(fn.blocks):
        for s in blk["s"]:
            if s[0] == "=" and s[1] == p and (s[2][0] == "use" and by_value(D, fr, s[2][1], depth + 1) or s[2][0] == "un" and by_value(D, fr, s[2][2], depth + 1) or
                                              s[2][0] == "bin" and s[2][1] in ("BitAnd", "BitOr", "BitXor") and any(by_value(D, fr, x, depth + 1) for x in s[2][2:4])):
                return True
        t = blk["t"]
        if t[0] == "call" and "fn" in t[1] and t[3] is not None and place(t[3])[0] == p:
            clos = D.fl.closures_of_call(fr, b)
            if any(by_value(D, f2, {"c": 0}, depth + 1) for k, f2 in clos):
                return True
            nm = last_seg(callee_name(t[1]))
            q = t[2][0].get("m", t[2][0].get("c")) if t[2] else None
            ty = fn.locals[place(q)[0]] if q is not None else ""
            if not clos and nm in ("eq", "ne", "is_zero", "contains", "lt", "le", "gt", "ge", "is_one", "starts_with", "ends_with", "all_equal") and not INTY.match(re.sub(r"^(&|mut | )*", "", ty)):
                at = set().union(*[D.fl.arg(fr, b, k) for k in range(len(t[2]))])
                if any(x.startswith("R:read") and x not in ("R:read_vec", "R:read_bytes") for x in at):
                    return True
    return False


def controller(fn, b):
    """the branch whose edge leads to this block alone"""
    x = b
    for _ in range(30):
        ps = fn.pred(x)
        if len(ps) != 1:
            return None
        x = ps[0]
        if fn.blocks[x]["t"][0] == "switch":
            return x
    return None


def controlled(C):
    """no panic is controlled by received values"""
    D, v, frs = verifier(C)
    bad, n = [], 0
    for fr in frs:
        fn = fr.fn
        for b in fn.rpo():
            t = fn.blocks[b]["t"]
            if t[0] != "call" or "fn" not in t[1] or not re.search(r"panicking::(panic|assert_failed|panic_fmt|panic_display|unreachable)|begin_panic|rt::panic", callee_name(t[1])):
                continue
            n += 1
            for l in D.fa.at(fr, b).values():
                if l.kind == "pred" and any(decides(D.fl.arg(l.fr, l.bb, k)) for k in range(len(l.args()))):
                    bad.append(f"{fr.loc(b)}: panics depending on `{l.name}` of a received value")
            c = controller(fn, b)
            if c is not None:
                x = fn.blocks[c]
                at = D.fl.operand(fr, x["t"][1], c, len(x["s"]))
                if decides(at) or by_value(D, fr, x["t"][1]):
                    bad.append(f"{fr.loc(b)}: panics depending on a received value")
            for l in D.fa.at(fr, b).values():
                if l.kind == "cmp" and "READ" in (l.lhs | l.rhs) and not any(a in x for x in (l.lhs, l.rhs) for a in ("len", "call:len")) and not {"SIZES", "usize"} & (l.lhs | l.rhs):
                    if any(a in ("READ:msg", "READ:dec") or a.startswith("READ") for a in l.lhs) or any(a.startswith("READ") for a in l.rhs):
                        bad.append(f"{fr.loc(b)}: panics when a received value compares {l.op}")
    D.ob("panic.values", f"none of the {n} panic sites below the verifier is reached through a comparison of received values", not bad, v, sample=[n], detail="; ".join(sorted(set(bad)))[:500])
    D.ob("panic.invert", "no unwrapped inversion of a received value", not [1 for fr in frs for b, t in fr.fn.calls() if "fn" in t[1] and last_seg(callee_name(t[1])) in ("expect", "unwrap") and
         any("fn" in t2[1] and last_seg(callee_name(t2[1])) == "invert" and "READ" in D.fl.arg(fr, b2, 0) for b2, t2 in producers(D, fr, b, t))], v)


OBLIGATIONS = [unwraps, hints, sizes, controlled]
MIN_OBLIGATIONS = 8
