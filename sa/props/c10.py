"""Channels: whatever is pushed is pulled, with multiplicities, over all tables and boundaries."""
from engine import *

EXPLAIN = ("Must-facts on every accepting path of the constraint-system verifier: the per-channel equality of pull and push products, its operands' value flow with the "
           "match on the flush direction resolved each way, the domain of channels it ranges over, the exact value forms of the folded boundary and flush factors, of the "
           "flush polynomial (with and without selectors), and of the step-down selectors of tables of arbitrary size; and that the products compared are those proved by the grand-product argument.")


def bare(s):
    """accumulators of any iteration"""
    return squash(s, acc="acc")


def zero_size(l, tid):
    """the fact says that the size of table `tid` is zero"""
    for a, b, op in ((l.lhs, l.rhs, l.op), (l.rhs, l.lhs, SWAP[l.op])):
        if match([tid, "READ:msg", "index"], a) and (b <= {"int:0"} and op in ("==", "<=") or b <= {"int:1"} and op == "<"):
            return True
    return False


def balance(C):
    """channel balance"""
    f = C.fn("constraint_system::verify::verify_channels_balance")
    C.need_cmp("len", "there is exactly one product per flush", f, "==", ["arg:1", "len"], ["arg:2", "len"], forall=False)
    need = ["Boundary.values", "Boundary.multiplicity", "Flush.multiplicity", "arg:2", "arg:3", "arg:4", "arg:5", "op:Mul", "op:Add", ("fn:pow_vartime", "call:pow_vartime", "~(fn|call):pow.*")]
    none = ["!arg:2", "!Boundary.values", "!Flush.multiplicity", "!Boundary.multiplicity"]
    for v in ("Pull", "Push"):
        D = C.when(FlushDirection=v)
        D.need_cmp(f"sides.{v}", f"for every channel the two sides are compared, and a {v.lower()} counts on one side only, with its values, product and multiplicity", f, "==", need, none, forall=True,
                   dom=["Flush.channel_id", "Boundary.channel_id"])
    D = C.when(FlushDirection="Pull")
    E = C.when(FlushDirection="Push")
    side = lambda X: [(need[0] in l.lhs) for l in X.facts(f) if l.kind == "cmp" and l.op == "==" and l.loops and "Boundary.values" in l.lhs | l.rhs]
    a, b = side(D), side(E)
    C.ob("sides.opposite", "pushes and pulls count on opposite sides", a and b and a[0] != b[0], f, sample=[a, b])
    # exact factors
    for v in ("Pull", "Push"):
        X = C.when(FlushDirection=v)
        T = X.terms(True)
        k = "0" if a and a[0] == (v == "Pull") else "0"
        n = 0
        for fr, bb, nm, f2 in X.closures(f, "fold", "try_fold"):
            if fr.fn is not f:
                # the mixed value of one boundary
                continue
            r0, r1 = bare(T.ret(f2, ("0",))), bare(T.ret(f2, ("1",)))
            n += 1
            got = [x for r in (r0, r1) for x in alts(r) if x not in ("acc.0", "acc.1")]
            mixed = [f"acc.{i}*pow_vartime(each(arg2), array(each(arg1).multiplicity))" for i in "01"]
            bnd = [f"acc.{i}*pow_vartime(fold(each(arg3).values, tuple(arg5[CH],1), |tuple(acc.0 + acc.1*each(each(arg3).values),acc.1*arg4)|).0, array(each(arg3).multiplicity))" for i in "01"]
            got = [re.sub(r"arg5\[each\(.*?\)\](?=,1\))", "arg5[CH]", g) for g in got]
            res = [judge(g, mixed + bnd) for g in got]
            C.ob(f"factor.{v}.{n}", f"the factor of a {v.lower()} is the mixed value (challenge + sum of values times powers of the mixing challenge) or the flush product, to the power of its multiplicity",
                 got and all(r is not False for r in res) and len(got) == 1, f, sample=got[:2], detail=f"factor is `{(got or ['none'])[0][:300]}`", line=fr.fn.line)
    same = [Gcmp(("==", "!="), ["Boundary.channel_id"], [("Boundary.channel_id", "Flush.channel_id")]), Gcmp(("==", "!="), ["Flush.channel_id"], [("Boundary.channel_id", "Flush.channel_id")]), G("var")]
    C.need_all("factor.all", "every boundary and flush of the channel counts, whatever its values", f, [], names=("pow_vartime", "pow"), allow=same, n=1)
    for fr, bb, nm, f2 in C.closures(f, "filter", "filter_map", "take_while", "skip_while"):
        if fr.fn.file == f.file:
            d = [l for l in C.dropped(f2, nm) if l.kind == "cmp" and l.op == "!=" and match([("Flush.channel_id", "Boundary.channel_id")], l.lhs) and match([("Flush.channel_id", "Boundary.channel_id")], l.rhs)]
            C.ob("filter.only", "a flush or boundary is left out of a channel only if it is on another channel", d, f, sample=[repr(x) for x in d[:1]], detail=f"the filter at {fr.loc(bb)} also leaves out others")
    for fr, bb, nm, f2 in C.closures(f, "filter"):
        g = alts(bare(C.terms(True).ret(f2)))
        C.ob("filter", "the flushes counted for a channel are exactly those of that channel", all(re.fullmatch(r"Eq\(each\(arg1\)\.channel_id, .*\)|Eq\(.*, each\(arg1\)\.channel_id\)", x) for x in g) or any("phi" in x for x in g), f, sample=list(g)[:1])


def flush_poly(C):
    """flush polynomials"""
    f = C.fn("constraint_system::verify::make_flush_oracles")
    T = C.terms(True)
    MP = r"[\w:();,{}|.*+ \[\]]+?"
    comb = rf"sum\(filter_map\(zip\(each\(arg2\)\.oracles, (?P<m>{MP})\), \|(each\({MP}\)\*each\(each\(arg2\)\.oracles\)\.v:Const\.base|each\(each\(arg2\)\.oracles\)\.v:Const\.base\*each\({MP}\))\|\)\)"
    C.need_sites("poly.lincomb", "an unselected flush is the channel challenge plus the constants and columns combined with powers of the mixing challenge", f, "linear_combination_with_offset", n=1, char2=True,
                 rx={2: r"each\(arg4\) \+ " + comb, 3: rf"filter_map\(zip\(each\(arg2\)\.oracles, {MP}\), \|tuple\(each\(each\(arg2\)\.oracles\)\.v:Oracle\.0,each\({MP}\)\)\|\)"})
    cols = rf"unzip\(filter_map\(zip\(each\(arg2\)\.oracles, {MP}\), \|tuple\(each\(each\(arg2\)\.oracles\)\.v:Oracle\.0,each\({MP}\)\)\|\)\)"
    ss = C.sites_under(C.root(f), C.named("composite_mle"))
    C.ob("poly.selected.site", "a selected flush is a composite oracle", ss, f)
    for fr, bb, t in ss:
        g2, g3 = str(T.arg(fr, bb, 2)), bare(T.arg(fr, bb, 3))
        r = judge(g2, rf"chain\(each\(arg2\)\.selectors, {cols}\.0\)", rx=True)
        C.ob("poly.selected.cols", "a selected flush takes all selectors and then all columns", r is not False, f, sample=[g2[:200]], detail=g2[:300])
        comb2 = re.sub(r"\?P<\w+>", "", comb)
        lin = (rf"fold\(enumerate\({cols}\.1\), ArithExpr::Const\{{0=1 \+ each\(arg4\) \+ {comb2}\}}, "
               rf"\|ArithExpr::Const\{{0=each\({cols}\.1\)\}}\*ArithExpr::Var\{{0=len\(each\(arg2\)\.selectors\) \+ pos\({cols}\.1\)\}} \+ acc\|\)")
        r = judge(g3, rf"ArithExpr::Const\{{0=1\}} \+ {lin}\*product\(map\(Range\{{start=0,end=len\(each\(arg2\)\.selectors\)\}}, fn:Var\)\)", rx=True)
        C.ob("poly.selected.expr", "a selected flush is 1 + S*(combination - 1): the combination where every selector is one and 1 elsewhere", r is not False, f, sample=[g3[:300]], detail=f"the expression is `{g3[:500]}`")
    C.need_sites("poly.powers", "the mixing coefficients are consecutive powers of the mixing challenge", f, "push", optional=True, char2=True, rx={1: r".*\*arg3|arg3\*.*"},
                 pred=lambda C, fr, bb, t: True)
    for fr, bb, t in C.sites_under(C.root(f), C.named("push")):
        if fr.fn.file == f.file and "arg:3" in C.fl.arg(fr, bb, 1):
            al = alts(T.arg(fr, bb, 1))
            C.ob("poly.powers.each", "every further mixing coefficient is the last one times the mixing challenge", all("arg3" in x or "rec" in x for x in al) and not [x for x in al if "last(" in x and "arg3" not in x], f, sample=list(al)[:2], detail=str(sorted(al))[:200])
    for fr, bb, nm, f2 in C.closures(f, "filter_map", "filter"):
        if fr.fn.file == f.file:
            d = C.dropped(f2, nm)
            keep = str(T.ret(f2))
            d = [l for l in d if l.kind == "var" and l.val == "OracleOrConst" and l.name in ("Oracle", "Const")]
            C.ob("poly.parts", "of the columns and constants of a flush, only those of the other kind are left out", d, f, sample=[f"{fr.loc(bb)} {x.name}" for x in d[:1]], detail=f"the filter at {fr.loc(bb)} leaves out others")
    X = [(fr, bb, nm, f2) for fr, bb, nm, f2 in C.closures(f, "map", "try_for_each", "for_each", "flat_map")]
    ok = any(C.find_cmp([l for l in (C.fa.gexits(f2, "Ok") or {}).values()], "==", ["Flush.selectors"], ["int:0"], forall=True) for _, _, _, f2 in X) or C.find_cmp(C.facts(f), "==", ["Flush.selectors"], ["int:0"], forall=True)
    C.ob("poly.sel_bits", "every selector of a flush is checked to be a column of bits", ok, f)


def stepdown(C):
    """tables of arbitrary size"""
    f = C.fn("constraint_system::verify::augment_flush_po2_step_down")
    C.need_sites("step.poly", "the selector of a table of arbitrary size is one exactly on its rows", f, "new", pred=lambda C, fr, bb, t: "StepDown" in callee_name(t[1]),
                 rx={0: re.escape("each(arg2).log_values_per_row + log2_ceil_usize(arg4[each(arg2).table_id])") + "|" + re.escape("log2_ceil_usize(arg4[each(arg2).table_id]) + each(arg2).log_values_per_row"),
                     1: re.escape("2^(each(arg2).log_values_per_row)*arg4[each(arg2).table_id]") + "|" + re.escape("arg4[each(arg2).table_id]*2^(each(arg2).log_values_per_row)")})
    keys = {re.sub(r"phi\{arg2\|.*?rec\}", "arg2", str(C.terms().arg(fr, bb, 1))) for fr, bb, t in C.sites_under(C.root(f), C.named("entry", "get", "contains_key", "insert", "get_mut", "index")) if "HashMap" in callee_name(t[1]) or "BTreeMap" in callee_name(t[1])}
    KEY = ("tuple(each(arg2).table_id,each(arg2).log_values_per_row)", "tuple(each(arg2).log_values_per_row,each(arg2).table_id)")
    C.ob("step.key", "a row selector is shared by the flushes of the same table with the same number of values per row only", all(judge(k, KEY) is not False for k in keys), f, sample=sorted(keys), detail=str(sorted(keys))[:300])
    D = C.when(TableSizeSpec="Arbitrary")
    g = [l for l in D.facts(f) if l.kind == "exec" and l.name in ("push", "extend", "insert") and match(["Flush.selectors"], l.arg(0))]
    good = [l for l in g if l.loops and match(["arg:2", C.TRUNC], l.domain()) and D.guards_ok(l, [G("ok", ("get", "entry", "index")), G("var"), G("pred", ("contains_key", "is_some"))])]
    C.ob("step.all", "every flush of a table of arbitrary size gets the row selector", good, f, sample=[x.loc() for x in good[:1]], detail="no unconditional addition of a selector found")


def use(C):
    """products in the verifier"""
    D = C.opaque("gkr_gpa::construct_grand_product_claims", "make_flush_oracles", "gkr_gpa::oracles::construct_grand_product_claims", "construct_grand_product_claims")
    f = D.fn("constraint_system::verify::verify")
    D.need_ok("use.balance", "acceptance requires that the channels balance, on the received products and the given boundaries, with sampled challenges", f, "verify_channels_balance", forall=False,
              args={0: ["ConstraintSystem.flushes"], 1: ["READ:msg"], 2: ["arg:5", "!READ"], 3: ["SAMPLE", "!READ"], 4: ["SAMPLE", "!READ", "ConstraintSystem.channel_count"]})
    D.need_ok("use.flush_oracles", "the flush polynomials are made from all flushes with the same challenges", f, "make_flush_oracles", forall=False, args={1: ["ConstraintSystem.flushes"], 2: ["SAMPLE", "!READ"], 3: ["SAMPLE", "ConstraintSystem.channel_count"]})
    D.need_ok("use.stepdown", "row selectors are added before the flush polynomials are made", f, "augment_flush_po2_step_down", forall=False, args={1: ["ConstraintSystem.flushes"], 2: ["ConstraintSystem.table_size_specs"], 3: ["READ:msg"]})
    hits = [l for l in D.facts(f) if l.kind == "ok" and l.name == "construct_grand_product_claims" and match(["~RES:.*make_flush_oracles"], l.arg(0)) and match(["READ:msg"], l.arg(2))]
    D.ob("use.claims", "the compared products are claimed for the flush polynomials", hits, f)
    same = [l for l in D.facts(f) if l.kind == "ok" and l.name == "verify_channels_balance"]
    T = D.terms(True)
    if hits and same:
        a, b = str(T.arg(hits[0].fr, hits[0].bb, 2)), str(T.arg(same[0].fr, same[0].bb, 1))
        D.ob("use.same", "the products that balance are the ones that are proved", a == b or judge(a, b) is None, f, sample=[a[:200]], detail=f"{a[:150]} vs {b[:150]}")
    D.need_ok("use.proved", "the product claims are verified", f, "batch_verify", args={1: ["~RES:.*construct_grand_product_claims"]}, forall=False)
    for fr, bb, nm, f2 in D.closures(D.root(f), "retain", deep=False):
        g = str(T.ret(f2))
        at = D.fl.arg(fr, bb, 0)
        if "ConstraintSystem.flushes" in at:
            d = [l for l in D.dropped(f2, nm) if l.kind == "cmp" and zero_size(l, "Flush.table_id")]
            D.ob("use.dropped", "a flush is dropped only if its own table is empty", d, f, sample=[repr(x) for x in d[:1]], detail=f"the condition at {fr.loc(bb)} drops others")
            D.ob("use.retain", "only flushes of empty tables are dropped", judge(g, r"Lt\(0, index\(read_vec@bb\(len\(arg1\.table_size_specs\)\), each\(.*\)\.table_id\)\)|Ne\(.*each\(.*\)\.table_id\).*\)|Not\(Eq\(.*\)\)", rx=True) is not False, f, sample=[g[:200]], detail=g[:300])


def reduce(C):
    """flush evaluation claims"""
    f = C.fn("constraint_system::verify::reduce_flush_evalcheck_claims")
    D = C.when(MultilinearPolyVariant="LinearCombination")
    h = [l for l in D.facts(f) if l.kind == "exec" and l.name in ("push", "extend") and l.loops and match(["arg:1", D.TRUNC], l.domain()) and not l.guards and match(["arg:1"], l.arg(1))]
    D.ob("reduce.linear", "claims on linear-combination flushes are passed on", h, f)
    D = C.when(MultilinearPolyVariant="Composite")
    D.need_exec("reduce.composite", "claims on selected flushes become MLE-checks of their composition for the claimed evaluation", f, "add_sumcheck", forall=True, dom=["arg:1"],
                args={1: ["CompositeMLE.inner"], 2: ["CompositeMLE.c"], 3: ["EvalcheckMultilinearClaim.eval", "!EvalcheckMultilinearClaim.eval_point", ops()]}, allow=[lambda l: l.name in ("get_mut", "get"), G("cmp")])
    C.need_sites("reduce.eqind", "the MLE-checks are verified against the points of the claims", f, "verify_sumcheck_outputs", args={1: ["EvalcheckMultilinearClaim.eval"], 2: ["EvalcheckMultilinearClaim.eval_point"], 3: ["READ:msg", "SAMPLE"]})
    C.need_ok("reduce.run", "every MLE-check is run to the end", f, ("run",), forall=True)
    C.need_ok("reduce.out", "the outputs of every MLE-check are checked", f, ("verify_sumcheck_outputs",), forall=True)
    h = C.find_cmp(D.facts(f), "==", ["EvalcheckMultilinearClaim.eval_point"], ["EvalcheckMultilinearClaim.eval_point"], forall=None, allow=[G("ok"), G("pred"), G("cmp"), G("var")], trunc=True)
    C.need_ret("reduce.ret", "both kinds of claims are returned", f, [], ["arg:1", "BatchSumcheckOutput.multilinear_evals"])


OBLIGATIONS = [balance, flush_poly, stepdown, use, reduce]
MIN_OBLIGATIONS = 20
