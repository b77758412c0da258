"""Constraint expressions keep their meaning: evaluation, degree, renumbering, substitution, optimisation and compilation denote one polynomial."""
from engine import *
from cond import conds_at, reaches

EXPLAIN = ("Per variant of the expression node (the program specialised to that variant): value forms of evaluation, degree, leading term, linear normal form, renumbering, substitution and every conversion; "
           "every rewriting step of constant folding matched against the algebraic identities its guards establish; step renumbering of deduplication, compression and concatenation; "
           "and the compiled form's slots: which step is remembered for a node, when a slot may be overwritten, what each compiled step computes.")
NODES = {"Add": 2, "Mul": 2, "Pow": 2, "Const": 1, "Var": 1}
ENUMS = ("ArithCircuitStep", "ArithExpr")


def spec(C, v, *opaque):
    D = C.with_(inline=("binius_math",), assume={e: v for e in ENUMS})
    return D.opaque(*opaque) if opaque else D


def norm(s):
    """operands of the node at hand as <Variant.k>; the recursive result for an operand as R<..>, its already computed value as E<..>"""
    s = re.sub(r"(?:each\([^()]*\)|index\([^()]*\)|[\w.]+)\.v:(\w+)\.(\d)(?:\[[^\[\]]*\])?", r"<\1.\2>", str(s))
    s = re.sub(r"\b(\w+)\((?:[\w.]+, )?(<\w+\.\d>)(?:, [\w.]+)?\)(?<!\))", r"R\2", s)
    s = re.sub(r"\b(?!pow|max|index|get|min|Some|into|from|try_from|try_into|narrow_\w+)[a-z]\w*\((?:[\w.]+, )?(<\w+\.\d>)(?:, [\w.]+)?\)", r"R\1", s)
    out, i = "", 0
    while i < len(s):
        m = re.compile(r"(?<![\w])(?:index|get)\(").match(s, i)
        if m:
            d, j, cut = 1, m.end(), None
            while j < len(s) and d:
                d += {"(": 1, "{": 1, "[": 1, ")": -1, "}": -1, "]": -1}.get(s[j], 0) if not (s[j] == ">" or s[j] == "<") else 0
                if d == 1 and s[j] == "," and cut is None:
                    cut = j
                j += 1
            if cut and re.fullmatch(r" <\w+\.\d>", s[cut + 1:j - 1]):
                base = s[m.end():cut]
                out += (f"{base}[{s[cut + 2:j - 1]}]" if re.fullmatch(r"arg\d", base) else "E" + s[cut + 2:j - 1])
                i = j
                continue
        out += s[i]
        i += 1
    return re.sub(r"(arg\d)\[(<\w+\.\d>)\]", r"\1[\2]", out)


def calls_of(D, f, *names):
    return [(fr, b, fr.fn.blocks[b]["t"]) for fr, b, t in D.sites_under(D.root(f), D.named(*names)) if t[2]]


def form(D, oid, desc, f, got, want):
    g = norm(got)
    return D.ob(oid, desc, judge(g, want) is not False, f, sample=[g[:160]], detail=g[:300])


def comm(op, a, b):
    return (f"{op}({a}, {b})", f"{op}({b}, {a})")


def evaluate(C):
    """evaluation and degree"""
    want = {"Add": "E<Add.0> + E<Add.1>", "Mul": "E<Mul.0>*E<Mul.1>", "Pow": "pow(E<Pow.0>, <Pow.1>)", "Const": "<Const.0>", "Var": "arg2[<Var.0>]"}
    deg = {"Add": comm("max", "R<Add.0>", "R<Add.1>"), "Mul": "R<Mul.0> + R<Mul.1>", "Pow": ("<Pow.1>*R<Pow.0>", "R<Pow.0>*<Pow.1>"), "Const": "0", "Var": "1"}
    for v in NODES:
        D = spec(C, v)
        f = D.fn("ArithCircuit::evaluate")
        ss = D.sites_under(D.root(f), D.named("push", "insert", "extend"))
        gs = [D.terms().arg(fr, b, len(t[2]) - 1) for fr, b, t in ss if len(t[2]) > 1]
        D.ob(f"eval.{v}.n", f"a {v} step yields one value", len(gs) <= 1, f, sample=[len(gs)], detail=f"{len(gs)} values")
        for g in gs:
            form(D, f"eval.{v}", f"the value of a {v} step is that of its operands, combined by that operation", f, g, want[v])
        f = D.fn("ArithCircuit::degree")
        g = D.terms().ret(D.root(f))
        form(D, f"degree.{v}", f"the degree of a {v} node is the degree of the polynomial it denotes", f, re.sub(r"phi\{0\|(.*)\}$", r"\1", str(g)), deg[v])
        if v in ("Add", "Mul", "Pow"):
            at = D.fl.retval(D.root(f))
            D.ob(f"degree.{v}.all", f"the degree of a {v} node takes all its operands into account", match([f"ArithCircuitStep::{v}.0", f"ArithCircuitStep::{v}.1", "!op:Narrow"], at), f, sample=[sorted(at)[:6]], detail=" ".join(sorted(at))[:200])
    D = C.with_(inline=("binius_math",))
    f = D.fn("ArithCircuit::evaluate")
    g = str(D.terms().ret(D.root(f)))
    D.ob("eval.last", "the value of a circuit is that of its last step", re.search(r"^phi\{0\|(pop|last)\(|^(pop|last)\(|^index\(.*-1 \+ len\(", g) or "first(" not in g and "[0]" not in g, f, sample=[g[:60]], detail=g[:200])
    for nm in ("degree", "sparse_linear_normal_form", "leading_term", "compress_unused_steps"):
        f = D.fn("ArithCircuit::" + nm)
        callee = {"degree": "step_degree", "leading_term": "leading_term_with_degree", "compress_unused_steps": "mark_used"}.get(nm, nm)
        for fr, b, t in calls_of(D, f, callee):
            if fr.fn is f:
                gs = [str(D.terms().arg(fr, b, k)) for k in range(len(t[2]))]
                D.ob(f"root.{nm}", "the computation starts at the last step, which is the root of the expression", any(g == "-1 + len(arg1.steps)" for g in gs) or not any(re.fullmatch(r"-?\d+( \+ len\(arg1\.steps\))?|len\(arg1\.steps\)", g) for g in gs), f, sample=gs[:2], detail=str(gs))
    f = D.fn("ArithCircuit::n_vars")
    E = spec(C, "Var")
    got = [str(E.terms().ret(f2)) for fr, b, nm, f2 in E.closures(E.root(E.fn("ArithCircuit::n_vars")), "map", "filter_map", "fold", "flat_map")]
    D.ob("nvars", "the number of variables is one more than the largest index that occurs", not got or any(judge(norm(g), "1 + <Var.0>") is not False for g in got), f, sample=got, detail=str(got))
    at = E.fl.retval(E.root(f))
    D.ob("nvars.max", "over all steps of the circuit", match(["ArithCircuit.steps", "ArithCircuitStep::Var.0", C.TRUNC, ("call:max", "op:max", "fn:max", "call:fold", "op:Gt", "op:Lt", "call:max_by_key", "op:Ge", "op:Le")], at) and not {"call:min", "op:min"} & at, f, sample=[" ".join(sorted(at))[:120]], detail=" ".join(sorted(at))[:300])


def leading(C):
    """leading term and linear normal form"""
    for v in NODES:
        D = spec(C, v)
        f = D.fn("ArithCircuit::leading_term_with_degree")
        g = norm(str(D.terms().ret(D.root(f))))
        want = {"Const": "tuple(0,ArithCircuit{steps=array(ArithCircuitStep::Const{0=<Const.0>})})", "Var": "tuple(1,ArithCircuit{steps=array(ArithCircuitStep::Var{0=<Var.0>})})",
                "Mul": "tuple(R<Mul.0>.0 + R<Mul.1>.0,R<Mul.0>.1*R<Mul.1>.1)"}.get(v)
        if v == "Pow":
            D.ob("lead.Pow", "the degree of the leading term of a power is the base's times the exponent", judge(g, ("tuple(<Pow.1>*R<Pow.0>.0,phi{R<Pow.0>.1|partial(steps)})", "tuple(<Pow.1>*R<Pow.0>.0,pow(R<Pow.0>.1, <Pow.1>))")) is not False, f, sample=[g[:150]], detail=g[:300])
            ex = calls_of(D, f, "pow")
            D.ob("lead.Pow.pow", "and the term is that power of it", not ex and "partial" in g or ex and all(re.search(r"<Pow\.1>", norm(str(D.terms().arg(fr, b, 1)))) for fr, b, t in ex if len(t[2]) > 1), f, sample=[len(ex)], detail="the leading term of the base is not raised to the exponent")
        if want:
            D.ob(f"lead.{v}", f"the leading term of a {v} node is that of its operands, combined", judge(g, want) is not False, f, sample=[g[:150]], detail=g[:300])
        f = [x for x in D.prog.find("sparse_linear_normal_form") if x.nargs == 2]
        f = f[0] if f else D.fn("ArithCircuit::sparse_linear_normal_form")
        g = norm(str(D.terms().ret(D.root(f))))
        parts = [p for p in alts(g) if ".v:Break" not in p and ".v:Err" not in p]
        ok = {"Add": {"R<Add.0> + R<Add.1>"}, "Mul": {"R<Mul.0>*R<Mul.1>"}, "Pow": {"item:ONE", "pow(R<Pow.0>.constant, <Pow.1>)", "R<Pow.0>"}, "Const": {"<Const.0>"},
              "Var": {"SparseLinearNormalForm{constant=item:ZERO,var_coeffs=array(tuple(<Var.0>,item:ONE)),dense_linear_form_len=1 + <Var.0>}"}}[v]
        bad = [p for p in parts if all(judge(p, w) is False for w in ok)]
        D.ob(f"linear.{v}", f"the linear normal form of a {v} node is that of its operands, combined", not bad, f, sample=parts[:3], detail=f"{bad[:2]}"[:300])
    D = spec(C, "Pow")
    f = [x for x in D.prog.find("sparse_linear_normal_form") if x.nargs == 2]
    if f:
        fr = D.root(f[0])
        T = D.terms()
        for b, t in fr.fn.calls():
            nm = last_seg(callee_name(t[1])) if "fn" in t[1] else ""
            cs = [(l.op, norm(str(T.op(l.fr, l.a[0], (), l.a[1], l.a[2]))), norm(str(T.op(l.fr, l.b[0], (), l.b[1], l.b[2])))) for l in D.fa.at(fr, b).values() if l.kind == "cmp"]
            eq = {(y, z) for o, y, z in cs if o == "=="} | {(z, y) for o, y, z in cs if o == "=="}
            if nm == f[0].name and t[3] == 0:
                D.ob("linear.Pow.one", "only a first power has the normal form of its base", ("<Pow.1>", "1") in eq, f[0], sample=[str(cs)], detail=f"{fr.loc(b)}: returned under {cs}")
            if nm == "pow":
                pr = [l for l in D.fa.at(fr, b).values() if l.kind == "pred" and l.name == "is_empty" and "SparseLinearNormalForm.var_coeffs" in l.arg(0)]
                D.ob("linear.Pow.const", "only the constant part of an expression without variables is raised to a power", pr or any("dense_linear_form_len" in y + z and "0" in (y, z) for y, z in eq) or any("var_coeffs" in y + z and "0" in (y, z) for y, z in eq), f[0], sample=[str(cs)], detail=f"{fr.loc(b)}: computed under {cs}")
            if nm in ("into", "from") and "item:ONE" in D.fl.arg(fr, b, 0):
                D.ob("linear.Pow.zero", "only a zeroth power is one", ("<Pow.1>", "0") in eq, f[0], sample=[str(cs)], detail=f"{fr.loc(b)}: one under {cs}")
    # Add of leading terms: the operand of larger degree
    D = spec(C, "Add")
    f = D.fn("ArithCircuit::leading_term_with_degree")
    for o in ("Less", "Greater", "Equal"):
        E = C.with_(inline=("binius_math",), assume={**{e: "Add" for e in ENUMS}, "Ordering": o})
        g = norm(str(E.terms().ret(E.root(f))))
        want = {"Less": ("tuple(R<Add.1>.0,R<Add.1>.1)", "R<Add.1>"), "Greater": ("tuple(R<Add.0>.0,R<Add.0>.1)", "R<Add.0>"),
                "Equal": ("tuple(R<Add.0>.0,R<Add.0>.1 + R<Add.1>.1)", "tuple(R<Add.1>.0,R<Add.0>.1 + R<Add.1>.1)")}[o]
        c = [x for fr, b, t in E.sites_under(E.root(f), E.named("cmp")) for x in [(norm(str(E.terms().arg(fr, b, 0))), norm(str(E.terms().arg(fr, b, 1))))]]
        if c == [("R<Add.1>.0", "R<Add.0>.0")]:
            want = {"Less": ("tuple(R<Add.0>.0,R<Add.0>.1)", "R<Add.0>"), "Greater": ("tuple(R<Add.1>.0,R<Add.1>.1)", "R<Add.1>"), "Equal": want}[o]
        if c:
            D.ob(f"lead.Add.{o}", "the leading term of a sum is that of the summand of larger degree, or the sum of both", judge(g, want) is not False, f, sample=[g[:150]], detail=g[:300])
    D = C.with_(inline=("binius_math",))
    # products of linear forms: at most one may have variables; higher powers only of constants
    f = D.fn("mul", trait="Mul", self_ty="SparseLinearNormalForm")
    er = D.fa.exits(D.root(f), "Err")
    D.ob("linear.mul.err", "a product of two expressions with variables is refused", er is not None, f, detail="no product is refused")
    ex = [l for l in (er or {}).values() if l.kind in ("pred", "cmp")]
    fld = {"SparseLinearNormalForm.var_coeffs", "SparseLinearNormalForm.dense_linear_form_len"}
    for k in ("arg:1", "arg:2"):
        hits = [l for l in ex if l.kind == "pred" and l.name == "is_empty" and fld & l.arg(0) and k in l.arg(0) or l.kind == "cmp" and fld & (l.lhs | l.rhs) and k in l.lhs | l.rhs and (l.op == "!=" and "int:0" in l.lhs | l.rhs or l.op == ">" and "int:0" in l.rhs or l.op == "<" and "int:0" in l.lhs or l.op == ">=" and "int:1" in l.rhs or l.op == "<=" and "int:1" in l.lhs)]
        D.ob(f"linear.mul.guard.{k[-1]}", "a product of two expressions is refused exactly when both have variables", hits or not any(fld & (l.arg(0) if l.kind == "pred" else l.lhs | l.rhs) for l in ex), f, sample=[repr(l)[:80] for l in hits], detail="the refusal does not depend on this factor having variables: " + "; ".join(map(repr, ex))[:200])
    D.ob("linear.mul.scale", "and its coefficients are scaled by the constant factor", any(l.kind == "exec" and l.name in ("mul_assign", "mul") and l.loops for l in D.facts(f)) or {"op:Mul", "call:mul", "mut:mul_assign", "fn:mul"} & D.fl.retval(D.root(f), ("var_coeffs",)) or D.closures(D.root(f), "for_each", "map"), f, detail="no coefficient is multiplied")
    for fld in ("constant",):
        at = D.fl.retval(D.root(f), (fld,))
        D.ob("linear.mul.const", "the constant of a product is the product of the constants", match([("op:Mul", "mut:mul_assign", "call:mul", "call:mul_assign"), "!op:Add", "!mut:add_assign"], at), f, sample=[" ".join(sorted(at))[:120]], detail=" ".join(sorted(at))[:300])
    f = D.fn("add", trait="Add", self_ty="SparseLinearNormalForm")
    at = D.fl.retval(D.root(f), ("constant",))
    D.ob("linear.add.const", "the constant of a sum is the sum of the constants", match([("op:Add", "mut:add_assign", "call:add", "call:add_assign"), "!op:Mul", "!mut:mul_assign"], at), f, sample=[" ".join(sorted(at))[:120]], detail=" ".join(sorted(at))[:300])
    at = D.fl.retval(D.root(f), ("var_coeffs",))
    D.ob("linear.add.coeffs", "equal variables' coefficients are added, others kept", match(["!op:Mul", "!mut:mul_assign", "arg:1", "arg:2", C.TRUNC], at) and {"op:Add", "mut:add_assign", "mutfn:and_modify", "mut:and_modify", "call:and_modify", "call:add"} & at, f, sample=[" ".join(sorted(at))[:150]], detail=" ".join(sorted(at))[:300])
    for fr, b, nm, f2 in D.closures(D.root(f), "and_modify"):
        w = [last_seg(callee_name(t[1])) for bb, t in f2.fn.calls() if "fn" in t[1]] + [s[2][1] for blk in f2.fn.blocks for s in blk["s"] if s[0] == "=" and s[2][0] == "bin"]
        D.ob("linear.add.modify", "a coefficient that occurs on both sides becomes the sum", any(str(x).startswith(("add", "Add")) for x in w) and not any(str(x).startswith(("mul", "Mul")) for x in w), f, sample=w, detail=str(w))
    f = D.fn("add", trait="Add", self_ty="SparseLinearNormalForm")
    fr, T = D.root(f), D.terms()
    for b, blk in enumerate(fr.fn.blocks):
        for i, s in enumerate(blk["s"]):
            if s[0] == "=" and not isinstance(s[1], int) and s[1][-1][0] == "f" and s[1][-1][2] == "dense_linear_form_len" and s[2][0] == "use":
                at = D.fl.operand(fr, s[2][1], b, i)
                if {"op:max", "call:max", "fn:max"} & at:
                    continue
                src = root_local(fr.fn, s[2][1])
                ok = None
                for l in D.fa.at(fr, b).values():
                    if l.kind == "cmp" and "SparseLinearNormalForm.dense_linear_form_len" in l.lhs & l.rhs and l.op in (">", "<", ">=", "<="):
                        x, y = root_local(fr.fn, l.a[0]), root_local(fr.fn, l.b[0])
                        big = x if l.op[0] == ">" else y
                        if src is not None and big is not None and x != y:
                            ok = src == big
                D.ob("linear.add.len", "the dense form is long enough for the variables of both summands", ok is not False, f, sample=[ok], detail=f"{fr.loc(b)}: the shorter length is kept")
    f = next((x for x in D.prog.find("from", trait="From") if x.file.endswith("arith_expr.rs") and (x.self_ty or "").startswith("arith_expr::LinearNormalForm")), None)
    if f:
        at = D.fl.retval(D.root(f), ("constant",))
        D.ob("linear.dense.const", "the dense form keeps the constant", match(["SparseLinearNormalForm.constant", ops(), "!SparseLinearNormalForm.var_coeffs"], at), f, sample=[sorted(at)[:5]], detail=" ".join(sorted(at))[:200])
        at = D.fl.retval(D.root(f), ("var_coeffs",))
        D.ob("linear.dense.coeffs", "and every coefficient", match(["SparseLinearNormalForm.var_coeffs", C.TRUNC, "!op:Mul", "!call:mul", "!fn:mul"], at) and not mixes(D, f), f, sample=[sorted(at)[:5]], detail=" ".join(sorted(at))[:200])


def root_local(fn, op):
    """the local (following copies) whose field an operand reads"""
    p = op.get("c", op.get("m"))
    for _ in range(6):
        if p is None:
            return None
        l, proj = place(p)
        if proj:
            return l
        ds = [s for blk in fn.blocks for s in blk["s"] if s[0] == "=" and s[1] == l]
        if len(ds) != 1 or ds[0][2][0] != "use":
            return None
        p = ds[0][2][1].get("c", ds[0][2][1].get("m"))
    return None


def mixes(D, f):
    """field arithmetic is performed"""
    return [last_seg(callee_name(t[1])) for b, t in f.calls() if "fn" in t[1] and last_seg(callee_name(t[1])) in ("mul", "mul_assign", "square", "invert")]


def errs(D, f):
    """the function can fail depending on a comparison"""
    return any(g for g in (D.fa.exits(D.root(f), "Err") or {}).values() if g.kind in ("pred", "cmp"))


def keep(C):
    """conversions, renumbering, substitution"""
    VIS = ("visit_node",)
    todo = []
    base = C.with_(inline=("binius_math",))
    for f in base.prog.fns.values():
        if f.file.endswith("math/src/arith_expr.rs") and f.name in ("convert_field", "try_convert_field", "remap_vars", "const_subst", "visit_node") or \
                f.name == "from" and f.file.endswith("math/src/arith_expr.rs") and f.nargs == 1 and re.search(r"&.*Arith(Expr|Circuit)", str(f.locals[1])):
            todo.append(f)
    C.ob("keep.fns", "the conversions of expressions were found", len(todo) >= 6, None, sample=[f.name for f in todo], detail=f"{len(todo)} functions")
    for f in todo:
        for v, k in NODES.items():
            D = spec(C, v, *VIS)
            n = 0
            bad = []
            for adt in ENUMS:
                for fr, b, i, ops_ in D.aggs(f, adt):
                    s = fr.fn.blocks[b]["s"][i][2]
                    if fr.fn.file != f.file or fr.parent is not None and fr.fn.name == "visit_node" and f.name != "visit_node":
                        continue
                    n += 1
                    if s[5] != v and not (f.name == "const_subst" and (s[5], v) == ("Const", "Var")):
                        bad.append(f"{fr.loc(b)}: a {v} becomes {s[5]}")
                        continue
                    for x in range(k):
                        at = D.fl.operand(fr, ops_[str(x)], b, i)
                        mine = {f"{e}::{v}.{x}" for e in ENUMS}
                        other = {f"{e}::{v}.{y}" for e in ENUMS for y in range(k) if y != x}
                        if f.name == "const_subst" and s[5] == "Const":
                            if "arg:3" not in at:
                                bad.append(f"{fr.loc(b)}: the substituted constant is not the given value")
                        elif f.name == "from" and adt == "ArithExpr" and re.match(r"(index|get)\(", str(D.terms().op(fr, ops_[str(x)], (), b, i))):
                            g = str(D.terms().op(fr, ops_[str(x)], (), b, i))
                            if not g.endswith(f".v:{v}.{x})") and not (v != "Pow" and g.endswith(f".v:{v}.{1 - x})")):
                                bad.append(f"{fr.loc(b)}: operand {x} of {v} is {g[-80:]}")
                            elif v != "Pow" and len({str(D.terms().op(fr, ops_[y], (), b, i))[-4:] for y in "01"}) < 2:
                                bad.append(f"{fr.loc(b)}: both operands of {v} are the same one")
                        elif not (mine & at or "RES:visit_node" in at and f.name in ("from", "visit_node")) or other & at and "RES:visit_node" not in at or {a for a in at if a.startswith("op:")} & {"op:Add", "op:Sub", "op:Mul", "op:Narrow", "op:BitXor", "op:BitAnd", "op:BitOr", "op:Shl", "op:Shr", "op:Div", "op:Rem", "op:min", "op:max"}:
                            bad.append(f"{fr.loc(b)}: operand {x} of {v} comes from " + " ".join(sorted(at))[:150])
            nm = f.name + ("" if f.name != "from" else "." + ("circuit" if "ArithExpr" in str(f.locals[1]) else "tree"))
            D.ob(f"keep.{nm}.{v}", f"a {v} node stays a {v} node with the same operands in the same order", not bad, f, sample=[f"{n} constructions"], detail="; ".join(bad)[:300])
            # the two operands of a node are visited from its own two operands
            if f.name in ("from", "visit_node") and v in ("Add", "Mul"):
                vis = [D.fl.arg(fr, b, 0) for fr, b, t in D.sites_under(D.root(f), D.named("visit_node"))]
                if vis:
                    for x in (0, 1):
                        D.ob(f"visit.{nm}.{v}.{x}", f"operand {x} of a {v} node is converted", any(f"ArithExpr::{v}.{x}" in a and f"ArithExpr::{v}.{1 - x}" not in a for a in vis), f, sample=[sorted(a)[:3] for a in vis], detail=str([sorted(a)[:4] for a in vis])[:200])
    for f in todo:
        if f.name in ("from", "visit_node"):
            for v in ("Add", "Mul"):
                D = spec(C, v, *VIS)
                for adt in ("ArithCircuitStep",):
                    for fr, b, i, ops_ in D.aggs(f, adt, v):
                        gs = [str(D.terms().op(fr, ops_[str(x)], (), b, i)) for x in (0, 1)]
                        if any("visit_node@" in g and not g.startswith("visit_node@") and not g.startswith("phi{") for g in gs):
                            D.ob(f"operands.{f.name}.{v}.plain", f"the operands of a {v} step are the two operands of the node", False, f, detail=str(gs)[:300])
                        if all(g.startswith("visit_node@") for g in gs):
                            D.ob(f"operands.{f.name}.{v}", f"the operands of a {v} step are the two operands of the node", gs[0] != gs[1], f, sample=[g[:80] for g in gs], detail=str(gs)[:300])
    f = next((x for x in base.prog.fns.values() if x.name == "visit_node" and x.file.endswith("arith_expr.rs")), None)
    if f:
        D = base.opaque("visit_node")
        fr, T = D.root(f), D.terms()
        pushes = {b for b, t in f.calls() if "fn" in t[1] and last_seg(callee_name(t[1])) == "push"}
        rets = alts(str(T.ret(fr)))
        for g in rets:
            D.ob("visit.ret", "a node's number is the one recorded for it, or that of the step just pushed", re.match(r"get\(|index\(|-1 \+ len\(mut:push\(|-1 \+ len\(mut:insert\(|len\((?!mut:push)", g) or not re.match(r"-?\d|len|saturating|min|max", g), f, sample=[g[:60]], detail=g[:200])
        for b, t in f.calls():
            if "fn" in t[1] and last_seg(callee_name(t[1])) == "insert" and len(t[2]) == 3:
                g = str(T.arg(fr, b, 2))
                rest = after(f, b, pushes)
                D.ob("visit.insert", "the number recorded for a node is that of its step", not re.match(r"(-1 \+ )?len\(mut:push", g) or g.startswith("-1") and rest == 0, f, sample=[g[:60]], detail=g[:200])
    # renumbering and substitution of variables
    D = spec(C, "Var")
    f = D.fn("ArithCircuit::remap_vars")
    at = [D.fl.operand(fr, ops_["0"], b, i) for fr, b, i, ops_ in D.aggs(f, "ArithCircuitStep", "Var")]
    D.ob("remap.var", "variable i becomes variable indices[i]", at and all(match(["arg:2", "ArithCircuitStep::Var.0", ops()], a) for a in at), f, sample=[sorted(a)[:5] for a in at], detail=str(at)[:300])
    D.ob("remap.range", "a variable without a new number is an error", not any(last_seg(callee_name(t[1])) in ("unwrap_or", "unwrap_or_default", "unwrap_or_else", "min") for fr, b, t in D.sites_under(D.root(f), lambda c: "fn" in c) if fr.fn.file == f.file), f)
    f = D.fn("ArithCircuit::const_subst")
    for fr, b, i, ops_ in D.aggs(f, "ArithCircuitStep", "Const"):
        cs = [l for loc, ls, f2, es in conds_at(D, fr, b) for l in ls if l.kind == "cmp"]
        D.ob("subst.var", "exactly the given variable is substituted", any(l.op == "==" and "arg:2" in l.lhs | l.rhs and "ArithCircuitStep::Var.0" in l.lhs | l.rhs for l in cs), f, sample=[repr(l) for l in cs], detail="the substitution is not conditional on the variable's index being the given one")
    for nm in ("convert_field", "try_convert_field", "remap_vars", "const_subst"):
        f = base.fn("ArithCircuit::" + nm)
        at = base.fl.retval(base.root(f), ("steps",))
        base.ob(f"all.{nm}", "every step is kept, in order", match(["ArithCircuit.steps", C.TRUNC, "!adapt:rev", "!~(fn|call|mut):(reverse|sort.*|pop|truncate)"], at), f, sample=[" ".join(sorted(at))[:100]], detail=" ".join(sorted(at))[:300])


def operators(C):
    """sums, products and powers of expressions"""
    D = C.with_(inline=("binius_math",))
    for f in D.prog.fns.values():
        if not f.file.endswith("math/src/arith_expr.rs"):
            continue
        st = (f.self_ty or "").split("<")[0].split("::")[-1]
        if st == "ArithExpr" and f.name in ("add", "sub", "mul", "pow"):
            g = str(D.terms().ret(D.root(f)))
            v = {"add": "Add", "sub": "Add", "mul": "Mul", "pow": "Pow"}[f.name]
            g = re.sub(r"\b(?:new|from|into)\((arg\d)\)", r"\1", g)
            want = ["ArithExpr::%s{0=arg1,1=arg2}" % v] + (["ArithExpr::%s{0=arg2,1=arg1}" % v] if v != "Pow" else [])
            D.ob(f"op.{f.name}", f"`{f.name}` of expressions is a {v} node on both operands", judge(g, want) is not False, f, sample=[g], detail=g[:200])
        if st in ("ArithExpr", "ArithCircuit") and f.name in ("zero", "one", "default"):
            g = str(D.terms().ret(D.root(f)))
            D.ob(f"op.{st}.{f.name}", "the constants zero and one", ("item:ONE" if f.name == "one" else "item:ZERO") in g or "item:" not in g, f, sample=[g], detail=g[:200])
        if st in ("ArithExpr", "ArithCircuit") and f.name in ("sum", "product"):
            g = str(D.terms().ret(D.root(f)))
            e, o, x = ("item:ZERO", " + ", "*") if f.name == "sum" else ("item:ONE", "*", " + ")
            D.ob(f"op.{st}.{f.name}", f"an iterator's {f.name} starts from the neutral element", e in g and {"item:ONE": "item:ZERO", "item:ZERO": "item:ONE"}[e] not in g and x not in re.sub(r"-?\d+ \+ ", "", g), f, sample=[g[:120]], detail=g[:200])
        if st == "ArithCircuit" and f.name in ("add_assign", "mul_assign", "pow"):
            v = {"add_assign": "Add", "mul_assign": "Mul", "pow": "Pow"}[f.name]
            for fr, b, i, ops_ in D.aggs(f, "ArithCircuitStep"):
                s = fr.fn.blocks[b]["s"][i][2]
                if fr.fn is not f:
                    continue
                gs = [str(D.terms().op(fr, o, (), b, i)) for k_, o in sorted(ops_.items())]
                D.ob(f"op.circuit.{f.name}", f"`{f.name}` appends a {v} step", s[5] == v, f, sample=[s[5]], detail=f"{fr.loc(b)}: {s[5]}")
                if v == "Pow":
                    D.ob(f"op.circuit.{f.name}.args", "of the root, to the given exponent", judge(gs[0], "-1 + len(arg1.steps)") is not False and judge(gs[1], "arg2") is not False, f, sample=gs, detail=str(gs)[:200])
                else:
                    full = lambda g: re.match(r"-1 \+ len\(", g) is not None and ("mut:" in g or "extend" in g or "append" in g)
                    own = lambda g: g == "-1 + len(arg1.steps)"
                    odd = [g for g in gs if not full(g) and not own(g) and re.fullmatch(r"(-?\d+ \+ )?len\([^()]*\)|-?\d+|arg\d.*", g)]
                    D.ob(f"op.circuit.{f.name}.args", "of the roots of both operands", not odd and not all(own(g) for g in gs) and not all(full(g) for g in gs), f, sample=[g[:80] for g in gs], detail=str(gs)[:300])
            if v != "Pow":
                off = [str(D.terms().arg(fr, b, 1)) for fr, b, t in D.sites_under(D.root(f), D.named("add_offset"))]
                D.ob(f"op.circuit.{f.name}.offset", "the right operand's steps are renumbered by the number of steps before them", not off or all(g == "len(arg1.steps)" or judge(g, "len(arg1.steps)") is None for g in off), f, sample=off, detail=str(off)[:200])
    for v in ("Add", "Mul", "Pow"):
        E = spec(C, v)
        f = next((x for x in E.prog.fns.values() if x.name == "add_offset" and x.file.endswith("arith_expr.rs")), None)
        if f is None:
            continue
        got = set()
        for b, blk in enumerate(E.root(f).fn.blocks):
            for i, s in enumerate(blk["s"]):
                if s[0] == "=" and not isinstance(s[1], int) and s[1][1:] == ["*"] or s[0] == "=" and not isinstance(s[1], int) and "*" in str(s[1]):
                    g = norm(str(E.terms().rvalue(E.root(f), s[2], (), b, i, b, i)))
                    got.add(g)
        want = {f"<{v}.0> + arg2"} | ({f"<{v}.1> + arg2"} if v != "Pow" else set())
        ks = {(m[1], m[2]) for g in got for m in [re.search(r"v:(\w+)\.(\d)$", g) or re.search(r"v:(\w+)\.(\d) \+ arg2$", g) or re.search(r"<(\w+)\.(\d)>", g)] if m}
        odd = [g for g in got if not re.search(r"^arg2 \+ |\+ arg2$", g)]
        want2 = {(v, str(k)) for k in range(1 if v == "Pow" else 2)}
        E.ob(f"offset.{v}", f"renumbering shifts every operand of a {v} step and nothing else", not got or ks == want2 and not odd, f, sample=sorted(got), detail=str(sorted(got))[:200])


def folding(C):
    """constant folding"""
    D = C.with_(inline=("binius_math",)).opaque("split_at_mut")
    f = D.fn("ArithCircuit::optimize_constants_in_place")
    fr, T = D.root(f), D.terms()
    n, bad, und = 0, [], 0

    def N(s):
        s = re.sub(r"split_at_mut@bb\(each\((?:[^(){}]|\{[^{}]*\}|\([^()]*\))*\)\)", "SP", str(s))
        s = re.sub(r"SP\.1\.v:(\w+)\.(\d)\[0\]", r"<\1.\2>", s)
        s = re.sub(r"SP\.0((?:\.v:\w+\.\d)?)\[<\w+\.(\d)>\]", lambda m: f"P{m[2]}" + m[1].replace(".v:", "."), s)
        return s.replace("SP.1[0]", "CUR")
    for b, blk in enumerate(f.blocks):
        for i, s in enumerate(blk["s"]):
            if s[0] != "=" or isinstance(s[1], int) or "*" not in str(s[1]):
                continue
            p = place(s[1])
            if not re.match(r"&mut .*ArithCircuitStep", str(f.locals[p[0]])) or [list(x) for x in p[1]] != [["*"]]:
                continue
            got = N(T.rvalue(fr, s[2], (), b, i, b, i))
            n += 1
            kind, facts = None, set()
            for l in D.fa.at(fr, b).values():
                a = N(T.op(l.fr, l.a[0], (), l.a[1], l.a[2])) if l.a else ""
                if l.kind == "var":
                    if a == "CUR":
                        kind = l.name
                    else:
                        facts.add(f"{a}:{l.name}")
                elif l.kind == "cmp" and l.op == "==":
                    c = N(T.op(l.fr, l.b[0], (), l.b[1], l.b[2]))
                    facts |= {f"{a}=={c}", f"{c}=={a}"}
                elif l.kind == "pred" and l.name in ("is_zero", "is_one") and l.val is True:
                    facts.add(N(T.arg(l.fr, l.bb, 0)) + "==item:" + {"is_zero": "ZERO", "is_one": "ONE"}[l.name])
                elif l.kind == "ok":
                    facts.add("ok:" + l.name)
            if kind not in ("Add", "Mul", "Pow") or "rec" in got and "SP" not in got:
                und += 1
                continue
            if not identity(kind, facts, got):
                bad.append(f"{fr.loc(b)}: {kind} becomes `{got[:120]}` under {sorted(facts)[:8]}")
    D.ob("fold.rules", "every rewriting of a step by constant folding is an identity under its guards", not bad, f, sample=[f"{n} rewritings, {und} undecided"], detail="; ".join(bad)[:400])
    D.ob("fold.found", "rewritings were found", n >= 5, f, sample=[n], detail=f"{n} rewritings")


def identity(kind, facts, got):
    const = lambda k: f"P{k}:Const" in facts
    is_ = lambda k, e: const(k) and f"P{k}.Const.0==item:{e}" in facts
    c = lambda x: f"ArithCircuitStep::Const{{0={x}}}"
    if kind in ("Add", "Mul"):
        if const(0) and const(1) and got in (c("P0.Const.0 + P1.Const.0"), c("P1.Const.0 + P0.Const.0")) and kind == "Add":
            return True
        if const(0) and const(1) and got in (c("P0.Const.0*P1.Const.0"), c("P1.Const.0*P0.Const.0")) and kind == "Mul":
            return True
        for k in (0, 1):
            if got in (f"P{1 - k}", f"clone(P{1 - k})") and is_(k, "ZERO" if kind == "Add" else "ONE"):
                return True
            if kind == "Mul" and is_(k, "ZERO") and got in (c("item:ZERO"), f"P{k}", c(f"P{k}.Const.0")):
                return True
        if kind == "Add" and got == c("item:ZERO") and "P0==P1" in facts and "item:CHARACTERISTIC==2" in facts:
            return True
        return False
    zero = "<Pow.1>==0" in facts
    if got == c("item:ONE") and (zero or is_(0, "ONE")):
        return True
    if const(0) and got == c("pow(P0.Const.0, <Pow.1>)"):
        return True
    if got == "P0" and "<Pow.1>==1" in facts:
        return True
    # nested powers: the product of the exponents must not wrap around
    return "P0:Pow" in facts and re.fullmatch(r"ArithCircuitStep::Pow\{0=P0\.Pow\.0,1=(checked_mul\((<Pow\.1>, P0\.Pow\.1|P0\.Pow\.1, <Pow\.1>)\))\}", got) is not None


def renumber(C):
    """deduplication and removal of unused steps"""
    for v in ("Add", "Mul", "Pow"):
        D = spec(C, v)
        for nm in ("deduplicate_steps", "compress_unused_steps"):
            f = D.fn("ArithCircuit::" + nm)
            got = set()
            for b, blk in enumerate(D.root(f).fn.blocks):
                for i, s in enumerate(blk["s"]):
                    if s[0] == "=" and not isinstance(s[1], int) and re.match(r"&mut usize", str(f.locals[place(s[1])[0]])):
                        at = D.fl.operand(D.root(f), s[2][1], b, i) if s[2][0] == "use" else set()
                        got.add(frozenset(a for a in at if a.startswith("ArithCircuitStep::")))
            want = {f"ArithCircuitStep::{v}.{k}" for k in range(2 if v != "Pow" else 1)}
            D.ob(f"{nm}.{v}", f"every operand of a {v} step is renumbered", not got or want <= set().union(*got) , f, sample=[sorted(x) for x in got], detail=f"renumbered: {[sorted(x) for x in got]}")
            if v == "Pow" and got:
                D.ob(f"{nm}.{v}.exp", "an exponent is not renumbered", not any("ArithCircuitStep::Pow.1" in x and "ArithCircuitStep::Pow.0" not in x for x in got), f, detail="an exponent is overwritten")
        # marking
        f = next((x for x in D.prog.fns.values() if x.name == "mark_used" and x.file.endswith("arith_expr.rs")), None)
        if f:
            got = [norm(str(D.terms().arg(fr, b, k))) for fr, b, t in calls_of(D, f, "mark_used") for k in range(len(t[2]))]
            want = [f"<{v}.{k}>" for k in range(2 if v != "Pow" else 1)]
            D.ob(f"mark.{v}", f"all operands of a used {v} step are used", set(want) <= set(got) or not any("<" in g for g in got), f, sample=got, detail=str(got))
        D = C.with_(inline=("binius_math",), assume={"ArithCircuitStep": v})
        f = next((x for x in D.prog.find("eq") if (x.self_ty or "").split("<")[0].endswith("StepNode")), None)
        if f:
            D = D.opaque("prev_step")
            cs = []
            for fr, b, t in D.sites_under(D.root(f), D.named("eq", "ne")):
                cs.append([str(D.terms().arg(fr, b, k)) for k in (0, 1)])
            txt = " ".join(x for p in cs for x in p)
            for k in range(2):
                pr = [p for p in cs if all(f"v:{v}.{k}" in x for x in p)]
                bins = [s for blk in f.blocks for s in blk["s"] if s[0] == "=" and s[2][0] == "bin" and s[2][1] == "Eq"]
                ok = pr or v == "Pow" and k == 1 and bins
                D.ob(f"eq.{v}.{k}", f"{v} nodes are the same only if operand {k} is", ok or not cs, f, sample=[str(cs)[:120]], detail=f"compared: {str(cs)[:300]}")
    for v, n in NODES.items():
        D = C.with_(inline=("binius_math",), assume={"ArithCircuitStep": v}).opaque("prev_step")
        f = next((x for x in D.prog.find("eq") if (x.self_ty or "").split("<")[0].endswith("StepNode")), None)
        if f is None:
            continue
        T = D.terms()
        fs = [(str(T.op(l.fr, l.a[0], (), l.a[1], l.a[2])), str(T.op(l.fr, l.b[0], (), l.b[1], l.b[2]))) for l in (D.fa.exits(D.root(f), "true") or {}).values() if l.kind == "cmp" and l.op == "==" and l.a and l.b]
        for k in range(n):
            hit = [p for p in fs if all(f"v:{v}.{k}[" in x and "narrow" not in x for x in p) and "arg1" in p[0] + p[1] and "arg2" in p[0] + p[1]]
            D.ob(f"same.{v}.{k}", f"{v} nodes are called the same only if operand {k} is the same", hit, f, sample=[str(p)[:100] for p in hit], detail=f"known when equal: {str(fs)[:250]}")
    D = C.with_(inline=("binius_math",))
    f = D.fn("ArithCircuit::deduplicate_steps")
    ss = D.sites_under(D.root(f), D.named("entry", "get", "contains_key", "insert"))
    for fr, b, t in D.sites_under(D.root(f), D.named("push", "insert")):
        if fr.fn is not f:
            continue
        at = D.fl.arg(fr, b, len(t[2]) - 1)
        D.ob("dedup.index", "the replacement for a step is the step itself or the one recorded", match([ops()], at), f, sample=[sorted(at)[:5]], detail=f"{fr.loc(b)}: " + " ".join(sorted(at))[:200])
    D.ob("dedup.key", "a step is replaced only by one recorded under an equal expression", not ss or any("new:StepNode" in D.fl.arg(fr, b, 1) for fr, b, t in ss if len(t[2]) > 1), f, sample=[len(ss)], detail="the table is not keyed by the expression of a step")
    f = D.fn("ArithCircuit::compress_unused_steps")
    T = D.terms()
    loop = re.compile(r"each\(Range\{start=0,end=len\(arg1\.steps\)\}\)")
    ctr = re.compile(r"phi\{0\|1 \+ phi\{0\|rec\}\}")
    for b, blk in enumerate(f.blocks):
        for i, s in enumerate(blk["s"]):
            if s[0] == "=" and not isinstance(s[1], int) and [list(x) for x in place(s[1])[1]] == [["*"]] and re.match(r"&mut usize", str(f.locals[place(s[1])[0]])):
                l = place(s[1])[0]
                ix = [b2 for b2, t2 in f.calls() if t2[3] == l and "fn" in t2[1] and last_seg(callee_name(t2[1])) == "index_mut"]
                if len(ix) != 1:
                    continue
                k, val = str(T.arg(D.root(f), ix[0], 1)), str(T.rvalue(D.root(f), s[2], (), b, i, b, i))
                if {bool(loop.fullmatch(k)), bool(ctr.fullmatch(k))} == {True, False} or loop.fullmatch(val) or ctr.fullmatch(val):
                    D.ob("compress.map", "the new number of a kept step is the number of kept steps before it", loop.fullmatch(k) and ctr.fullmatch(val), f, sample=[k, val], detail=f"map[{k}] = {val}"[:200])
    for fr, b, t in D.sites_under(D.root(f), D.named("truncate")):
        cs = D.fl.arg(fr, b, 1)
        D.ob("compress.cut", "only the steps behind the kept ones are cut off", "op:Sub" not in cs and "op:Narrow" not in cs, f, sample=[sorted(cs)[:4]], detail=" ".join(sorted(cs))[:200])


def compiled(C):
    """the compiled form"""
    D = C.with_(inline=("binius_fast_compute", "binius_math"))
    base = [x for x in D.prog.fns.values() if x.name == "convert_step" and "arith_circuit" in x.file]
    if not base:
        raise Missing("convert_step")
    f = base[0]
    fr = D.root(f)
    # what is remembered for a node is the slot that holds its value
    pushes = {b for b, t in f.calls() if "fn" in t[1] and last_seg(callee_name(t[1])) == "push" and "CircuitStep" in str(t[1].get("ga"))}
    bad, n = [], 0
    for b, t in f.calls():
        if "fn" not in t[1] or last_seg(callee_name(t[1])) not in ("register", "insert", "set") or len(t[2]) < 3:
            continue
        n += 1
        g = str(D.terms().arg(fr, b, 2))
        rest = after(f, b, pushes)
        now = {str(D.terms().op(fr, o, (), b, len(f.blocks[b]["s"]))) for o in vec_refs(f)}
        own = re.fullmatch(r"(-1 \+ )?len\(.*\)", g, re.S)
        early = own and not own[1] and any(x.startswith("mut:push(" + g[4:-1] + ";") for x in now)      # the number was taken before the step was pushed
        if own and (own[1] or early) and rest != 0 or own and not own[1] and not early and rest != 1:
            bad.append(f"{fr.loc(b)}: registers step {'len-1' if own[1] else 'len'} with {rest if rest < 9 else 'any number of'} steps still to be pushed for the node")
        elif not own and re.search(r"(^|\()(-?\d+ \+ )?(len|saturating_sub|max|min)\(", g) and not g.startswith("convert_step@") and "phi{" not in g[:4]:
            bad.append(f"{fr.loc(b)}: registers step `{g[:60]}`")
        at = D.fl.arg(fr, b, 1)
        if "arg:1" not in at:
            bad.append(f"{fr.loc(b)}: registered for another node")
    D.ob("slot.register", "the step remembered for a node is the one that holds its value", not bad and n >= 2, f, sample=[f"{n} registrations, {len(pushes)} pushed steps"], detail="; ".join(bad)[:400] or f"{n} registrations")
    # in-place accumulation
    bad, n = [], 0
    for b in sorted(pushes):
        t = f.blocks[b]["t"]
        if "new:CircuitStep::AddMul" not in D.fl.arg(fr, b, 1):
            continue
        n += 1
        cs = [l for loc, ls, f2, es in conds_at(D, fr, b) for l in ls if l.kind == "cmp"] + [l for l in D.fa.at(fr, b).values() if l.kind == "cmp"]
        fresh = [l for l in cs if l.op in (">=", ">", "<=", "<", "==") and "len" in " ".join(l.lhs | l.rhs) or "count" in " ".join(sorted(l.lhs | l.rhs)) or "uses" in " ".join(sorted(l.lhs | l.rhs))]
        O = D.opaque("convert_step")
        lens = []
        for l in cs:
            if l.a and l.b:
                x, y = [str(O.terms().op(O.root(f), q[0], (), q[1], q[2])) for q in (l.a, l.b)]
                if "len(arg3)" in x + y:
                    lens.append((l.op, x, y))
        off = [q for q in lens if not (q[0] in (">=", "==") and q[2] == "len(arg3)" and re.fullmatch(r"convert_step@bb\(arg2,arg3,arg4\)\.v:Expr\.0\.v:Slot\.0", q[1]) or q[0] in ("<=", "==") and q[1] == "len(arg3)" or q[0] == ">" and q[2] == "-1 + len(arg3)" or q[0] == "<" and q[1] == "-1 + len(arg3)")]
        if lens and len(off) == len(lens):
            bad.append(f"{fr.loc(b)}: overwrites a slot under {off[0]}, which does not make it one of this node's own")
        if not fresh:
            bad.append(f"{fr.loc(b)}: overwrites a slot although an enclosing step may already refer to it")
        names = {last_seg(callee_name(t2[1])) for b2, t2 in f.calls() if "fn" in t2[1] and (reaches(f, b2, b, -1) or reaches(f, b, b2, -1))}
        if not {"clear_step", "remove", "take", "retain"} & names:
            bad.append(f"{fr.loc(b)}: the overwritten slot stays remembered for the old node")
    D.ob("slot.inplace", "a step that overwrites a slot is only emitted if no other step refers to it, and the slot is forgotten for its old node", not bad, f, sample=[f"{n} in-place steps"], detail="; ".join(bad)[:300])
    O = D.opaque("convert_step")
    for v in ("Add", "Mul", "AddMul"):
        for fr2, b, i, ops_ in O.aggs(f, "CircuitStep", v):
            if fr2.fn is not f:
                continue
            ks = ("1", "2") if v == "AddMul" else ("0", "1")
            gs = [str(O.terms().op(fr2, ops_[k], (), b, i)) for k in ks]
            O.ob(f"compile.{v}.both", f"a compiled {v} step has two different operands, both of the node", gs[0] != gs[1], f, sample=[g[:80] for g in gs], detail=f"{fr2.loc(b)}: both operands are {gs[0][:100]}")
    W = C.with_(inline=("binius_fast_compute", "binius_math"), assume={"ArithCircuitStep": "Pow"}).opaque("convert_step")
    for fr2, b, i, ops_ in W.aggs(f, "CircuitStep", "Mul"):
        gs = [str(W.terms().op(fr2, ops_[k], (), b, i)) for k in ("0", "1")]
        if fr2.fn.name == f.name:
            W.ob("pow.mul", "a set bit of the exponent multiplies the accumulated power by the base", any(re.fullmatch(r"convert_step@bb\([^()]*\)", g) for g in gs) and gs[0] != gs[1], f, sample=[g[:60] for g in gs], detail=f"{fr2.loc(b)}: multiplies {gs[0][:80]} by {gs[1][:80]}")
    for fr2, b, t in D.sites_under(D.root(f), D.named("ilog2", "leading_zeros", "checked_ilog2", "trailing_zeros")):
        at = D.fl.arg(fr2, b, 0)
        if "ArithCircuitStep::Pow.1" in at:
            D.ob("pow.exp", "the whole exponent is used", not {"op:Narrow", "op:BitAnd", "op:Rem", "op:Shr", "op:Sub", "op:min", "call:min"} & at, f, sample=[sorted(at)[:5]], detail=f"{fr2.loc(b)}: " + " ".join(sorted(at))[:200])
    g = next((x for x in D.prog.fns.values() if x.name == "clear_step" and "arith_circuit" in x.file), None)
    if g:
        w = [b for b, blk in enumerate(g.blocks) for s in blk["s"] if "original_to_converted" in str(s)]
        D.ob("slot.clear", "forgetting a slot removes it from the node it was remembered for", w, g, sample=[len(w)], detail="the table of remembered steps is not changed")
    # powers: square and multiply
    E = C.with_(inline=("binius_fast_compute", "binius_math"), assume={"ArithCircuitStep": "Pow"})
    for b, t in f.calls():
        if "fn" in t[1] and last_seg(callee_name(t[1])) == "ilog2":
            E.ob("pow.zero", "zeroth powers do not reach the compiler: constant folding turns them into one", folds_zero(C) or any(l.kind == "cmp" and "ArithCircuitStep::Pow.1" in l.lhs | l.rhs and "int:0" in l.lhs | l.rhs for l in E.fa.at(fr, b).values()), f, sample=[fr.loc(b)], detail=f"{fr.loc(b)}: the logarithm of the exponent is taken although it may be zero")
    for nm in ("new", "with_n_vars"):
        g = D.fn("ArithCircuitPoly::" + nm)
        D.need_exec(f"opt.{nm}", "a circuit is optimised before it is compiled", g, ("optimize_in_place", "optimize", "optimize_constants_in_place"), want=None)
    f2 = D.fn("ArithCircuitPoly::with_n_vars")
    D.need_cmp("vars", "a compiled circuit has at least the variables its expression reads", f2, (">=", "<="), ["arg:1", ops()], [("fn:n_vars", "call:n_vars", "ArithCircuitStep::Var.0")])
    for v, rx in (("Add", "R<Add.0>|R<Add.1>"), ("Mul", "R<Mul.0>|R<Mul.1>")):
        E = C.with_(inline=("binius_fast_compute", "binius_math"), assume={"ArithCircuitStep": v}).opaque("convert_step")
        got = []
        for fr2, b, i, ops_ in E.aggs(f, "CircuitStep", v):
            if fr2.fn is not f:
                continue
            at = [str(E.terms().op(fr2, ops_[k], (), b, i)) for k in ("0", "1")]
            got.append(at)
        ok = all(re.search(r"v:%s\.0" % v, a[0]) and re.search(r"v:%s\.1" % v, a[1]) or re.search(r"v:%s\.1" % v, a[0]) and re.search(r"v:%s\.0" % v, a[1]) or "convert_step@" not in a[0] + a[1] for a in got)
        E.ob(f"compile.{v}", f"a compiled {v} step combines both operands of the node", ok, f, sample=[str(got)[:150]], detail=str(got)[:300])
    # what compiled steps compute
    A = ("Add", "AddMul", "Mul", "Square")
    for v in A:
        E = C.with_(inline=("binius_fast_compute",), assume={"CircuitStep": v})
        g = next((x for x in E.prog.find("evaluate", trait="CompositionPoly") if (x.self_ty or "").split("<")[0].endswith("ArithCircuitPoly")), None)
        h = next((x for x in E.prog.find("batch_evaluate", trait="CompositionPoly") if (x.self_ty or "").split("<")[0].endswith("ArithCircuitPoly")), None)
        for fr2, b, i, ops_ in E.aggs(h, "Range"):
            if not re.search(r"fast_compute/src/arith_circuit", fr2.fn.file) or set(ops_) != {"start", "end"}:
                continue
            lo, hi = [str(E.terms().op(fr2, ops_[k], (), b, i)) for k in ("start", "end")]
            if lo == "0":
                at = E.fl.operand(fr2, ops_["end"], b, i)
                ok = not {"op:min", "call:min", "fn:min", "op:Sub", "op:Div", "op:Shr", "op:Rem"} & at and not re.match(r"min\(|-\d", hi)
            else:
                m = re.search(r"v:AddMul\.0\*|v:Slot\.0\*", lo)
                n = lo[m.end():] if m else None
                ok = not re.search(r"v:(AddMul|Slot)\.0", lo) or m and hi in (f"{lo} + {n}", f"{n} + {lo}")
            E.ob(f"slice.{v}", "a step reads and writes whole rows, at the slots it names", ok, h, sample=[lo[:60], hi[:60]], detail=f"{fr2.loc(b)}: rows {lo[:100]}..{hi[:100]}")
        for which, fn in (("one", g), ("batch", h)):
            if fn is None:
                raise Missing("ArithCircuitPoly evaluation")
            arith = set()
            for fr2, _, t in E.sites_under(E.root(fn), lambda c: "fn" in c):
                if not re.search(r"fast_compute/src/arith_circuit", fr2.fn.file):
                    continue
                nm = last_seg(callee_name(t[1]))
                if nm in ("add", "mul", "square", "add_assign", "mul_assign", "sub", "pow", "invert", "sub_assign") and "usize" not in str(t[1].get("ga"))[:20]:
                    arith.add(nm.replace("_assign", ""))
            want = {"Add": {"add"}, "AddMul": {"add", "mul"}, "Mul": {"mul"}, "Square": {"square"}}[v]
            alt = {"Square": {"mul"}}.get(v)
            E.ob(f"step.{which}.{v}", f"a compiled {v} step performs exactly that operation", arith == want or arith == alt, fn, sample=[sorted(arith)], detail=f"operations: {sorted(arith)}, expected {sorted(want)}")
    for nm in ("evaluate", "batch_evaluate"):
        g = next(x for x in D.prog.find(nm, trait="CompositionPoly") if (x.self_ty or "").split("<")[0].endswith("ArithCircuitPoly"))
        D.need_cmp(f"{nm}.size", "an evaluation point of the wrong size is an error", g, "==", [("len", "call:row_len", "fn:row_len", "RowsBatchRef.row_len")], [("ArithCircuitPoly.n_vars", "len", "arg:3")])
    for nm in ("degree", "n_vars", "binary_tower_level"):
        g = next(x for x in D.prog.find(nm, trait="CompositionPoly") if (x.self_ty or "").split("<")[0].endswith("ArithCircuitPoly"))
        fld = {"binary_tower_level": "tower_level"}.get(nm, nm)
        s = str(D.terms().ret(D.root(g)))
        D.ob(f"poly.{nm}", f"the reported {nm} is the recorded one", judge(s, f"arg1.{fld}") is not False, g, sample=[s], detail=s[:100])
    for nm in ("new", "with_n_vars"):
        g = D.fn("ArithCircuitPoly::" + nm)
        D2 = D.opaque("degree", "n_vars", "binary_tower_level", "convert_circuit_steps")
        for fr2, b, i, ops_ in D2.aggs(g, "ArithCircuitPoly"):
            for fld, res in (("degree", "RES:degree"), ("tower_level", "RES:binary_tower_level"), ("n_vars", "RES:n_vars" if nm == "new" else "arg:1"), ("steps", "RES:convert_circuit_steps"), ("retval", "RES:convert_circuit_steps")):
                at = D2.fl.operand(fr2, ops_[fld], b, i)
                D2.ob(f"poly.{nm}.{fld}", f"the recorded {fld} is that of the expression", match([res, ops()], at), g, sample=[sorted(at)[:3]], detail=" ".join(sorted(at))[:200])


def folds_zero(C):
    D = C.with_(inline=("binius_math",)).opaque("split_at_mut")
    f = D.fn("ArithCircuit::optimize_constants_in_place")
    fr = D.root(f)
    return any("item:ONE" in D.fl.operand(fr2, ops_["0"], b, i) and any(l.kind == "cmp" and l.op == "==" and "ArithCircuitStep::Pow.1" in l.lhs | l.rhs and "int:0" in l.lhs | l.rhs for l in D.fa.at(fr2, b).values())
               for fr2, b, i, ops_ in D.aggs(f, "ArithCircuitStep", "Const"))


def vec_refs(f):
    """operands that name the vector of compiled steps"""
    return [{"c": l} for l in range(1, f.nargs + 1) if re.search(r"&mut .*Vec<.*CircuitStep", str(f.locals[l]))]


def after(f, b, pushes):
    """largest number of pushes on a path from after block b to a return (9: unbounded)"""
    memo = {}
    act = set()

    def go(x):
        if x in memo:
            return memo[x]
        if x in act:
            return None      # a cycle: counted by its pushes below
        act.add(x)
        best = 0
        for y in f.succ(x):
            if f.blocks[y].get("cleanup"):
                continue
            r = go(y)
            if r is not None:
                best = max(best, r)
        act.discard(x)
        memo[x] = best + (x in pushes)
        return memo[x]
    n = max([go(y) or 0 for y in f.succ(b)] + [0])
    for p in pushes:      # a push in a cycle reachable from b
        if reaches(f, b, p, -1) and any(reaches(f, y, p, -1) for y in f.succ(p)):
            return 9
    return n


def polys(C):
    """fixed compositions"""
    D = C.with_(inline=("binius_core", "binius_math"))
    f = next(x for x in D.prog.find("evaluate", trait="CompositionPoly") if (x.self_ty or "").split("<")[0].endswith("ProductComposition"))
    s = str(D.terms().ret(D.root(f)))
    D.ob("product.eval", "a product composition is the product of all its inputs", judge(s, ("product(arg2)", "fold(arg2, item:ONE, |acc(arg2)*each(arg2)|)")) is not False and match(["arg:2", C.TRUNC], D.fl.retval(D.root(f))), f, sample=[s], detail=s[:200])
    for nm in ("evaluate", "expression", "degree"):
        f = next(x for x in D.prog.find(nm, trait="CompositionPoly") if (x.self_ty or "").split("<")[0].endswith("::IndexComposition"))
        at = D.fl.retval(D.root(f))
        req = {"evaluate": ["IndexComposition.composition", "IndexComposition.indices", "arg:2", ops()], "expression": ["IndexComposition.composition", "IndexComposition.indices"], "degree": ["IndexComposition.composition", ops()]}[nm]
        D.ob(f"index.{nm}", "an index composition is the inner composition on the selected inputs", match(req + [C.TRUNC, "!adapt:rev"], at), f, sample=[" ".join(sorted(at))[:120]], detail=" ".join(sorted(at))[:300])
    f = next(x for x in D.prog.find("evaluate", trait="CompositionPoly") if (x.self_ty or "").split("<")[0].endswith("::IndexComposition"))
    D.need_cmp("index.size", "an evaluation point of the wrong size is an error", f, "==", ["arg:2", "len"], ["IndexComposition.n_vars"])
    f = D.fn("IndexComposition::new")
    D.need_ok("index.range", "an index composition only selects inputs that exist", f, ("any", "all"), kind=("pred",), args={0: ["arg:2"]}) if False else None
    for v in ("Trivariate", "Bivariate"):
        E = C.with_(inline=("binius_core",), assume={"FixedDimIndexCompositions": v})
        for nm in ("evaluate", "degree", "n_vars", "expression", "binary_tower_level"):
            f = next((x for x in E.prog.find(nm, trait="CompositionPoly") if (x.self_ty or "").split("<")[0].endswith("FixedDimIndexCompositions")), None)
            if f:
                at = E.fl.retval(E.root(f))
                E.ob(f"fixed.{v}.{nm}", "the composition stands for the variant it holds", f"FixedDimIndexCompositions::{v}.0" in at, f, sample=[sorted(at)[:3]], detail=" ".join(sorted(at))[:200])


OBLIGATIONS = [evaluate, leading, keep, operators, folding, renumber, compiled, polys]
MIN_OBLIGATIONS = 90
