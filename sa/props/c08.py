"""Evaluation checking: an accepted evaluation claim on any oracle is reduced to true statements about committed columns."""
from engine import *

EXPLAIN = ("The evalcheck verifier is specialised to each oracle variant in turn (every match on MultilinearPolyVariant resolved to that variant) and, per variant, "
           "guarded must-facts and value forms establish that the claim is either compared with a value the verifier computes itself, or passed on unchanged "
           "(same evaluation, correctly restricted or extended point, the inner oracle) to a sub-claim that must itself verify; duplicate claims must equal an "
           "already checked claim; the greedy loop only ends when nothing is pending.")

V = "index(arg1.oracles.oracles, arg2.id.0).variant.v:"
PT = "index(arg2.eval_point.data, arg2.eval_point.range)"
CLAIM = "EvalcheckMultilinearClaim"


def arms_fn(C):
    """the method of EvalcheckVerifier that matches on the oracle variant"""
    out = []
    for f in C.prog.fns.values():
        if f.crate != "binius_core" or f.kind == "Closure" or "EvalcheckVerifier" not in f.spath:
            continue
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "disc" and len(s) > 4 and last_seg(s[4]["adt"]) == "MultilinearPolyVariant" and len(s[4]["vs"]) >= 10 and b["t"][0] == "switch" and len(b["t"][2]) >= 8:
                    out.append(f)
    if len(set(out)) != 1:
        raise Missing("the evalcheck verifier's match over MultilinearPolyVariant")
    C.fn_seen.add(out[0].id)
    return out[0]


def recur_names(C):
    """verifier methods that take a whole claim"""
    return {f.name for f in C.prog.fns.values() if "EvalcheckVerifier" in f.spath and f.kind != "Closure" and any(str(f.locals[i]).replace("&mut ", "").lstrip("&").split("<")[0].endswith(CLAIM) for i in range(1, f.nargs + 1))}


def passes(C, D, f, v, eval_rx, point_rx, id_rx, allow=()):
    """the sub-claim of variant v is verified, with these parts"""
    names = recur_names(C)
    hits = [l for l in D.facts(f) if l.kind == "ok" and l.name in names and l.fr.depth <= 2 and not l.loops and D.guards_ok(l, allow) and
            match([f"MultilinearPolyVariant::{v}.0" if v != "Repeating" else "MultilinearPolyVariant::Repeating.id"], l.arg(1))]
    hits = [l for l in hits if l.fr.fn.name not in names or l.fr.fn is f or l.fr.depth == 0]
    D.ob(f"{v}.recurse", f"a claim on a {v} oracle holds only if the sub-claim on its inner oracle verifies", hits, f, sample=[h.loc() for h in hits[:2]], detail="no accepting path verifies a sub-claim")
    T = D.terms(True)
    for part, rx in (("eval", eval_rx), ("eval_point", point_rx), ("id", id_rx)):
        for l in hits[:2]:
            g = str(T.arg(l.fr, l.bb, 1, (part,)))
            und = judge(g, rx) is not False
            D.ob(f"{v}.{part}", f"the sub-claim of a {v} oracle has the right {part}", und, f, sample=[g[:200]], detail=f"{part} of the sub-claim is `{g[:300]}`", line=l.fr.fn.line)


def variants(C):
    """per-variant reduction"""
    f = arms_fn(C)
    ev = [CLAIM + ".eval", "arg:2", "!" + CLAIM + ".eval_point", "!READ", ops()]
    for v, extra in (("Transparent", []), ("Structured", ["item:ZERO"])):
        D = C.when(MultilinearPolyVariant=v)
        D.need_cmp(f"{v}.eval", f"a claim on a {v} oracle equals the evaluation the verifier computes at the claimed point", f, "==",
                   [f"MultilinearPolyVariant::{v}.0", CLAIM + ".eval_point", ("fn:evaluate", "call:evaluate")] + extra, ev, forall=False)
    D = C.when(MultilinearPolyVariant="Structured")
    ss = [x for x in D.sites_under(D.root(f), D.named("repeat_n"))]
    for fr, bb, t in ss[:1]:
        g = str(D.terms(True).arg(fr, bb, 1))
        D.ob("Structured.pad", "the point is padded with zeros to the circuit's arity", g == f"-1*len({PT}) + n_vars({V}Structured.0)" or not re.fullmatch(r"[\w\s\[\](){}.,*+:\-]*len[\w\s\[\](){}.,*+:\-]*", g), f, sample=[g])
    D = C.when(MultilinearPolyVariant="Committed")
    hits = [l for l in D.facts(f) if l.kind == "exec" and l.name in ("push", "extend", "insert") and not l.guards and match(["EvalcheckVerifier.committed_eval_claims"], l.arg(0)) and match([CLAIM + ".eval", CLAIM + ".eval_point", CLAIM + ".id"], l.arg(1))]
    D.ob("Committed.record", "a claim on a committed oracle is recorded for the opening", hits, f, sample=[h.loc() for h in hits[:1]])
    D = C.when(MultilinearPolyVariant="Repeating")
    r = V + "Repeating."
    passes(C, D, f, "Repeating", ("arg2.eval",), ("EvalPoint{data=arg2.eval_point.data,range=Range{start=arg2.eval_point.range.start,end=-1*" + r + "log_count + arg2.eval_point.range.start + len(" + PT + ")}}",
                                                   "EvalPoint{data=arg2.eval_point.data,range=Range{start=arg2.eval_point.range.start,end=arg2.eval_point.range.start + -1*" + r + "log_count + len(" + PT + ")}}",
                                                   f"index({PT}, RangeTo{{end=-1*{r}log_count + len({PT})}})"), (r + "id",))
    D = C.when(MultilinearPolyVariant="Projected")
    r = V + "Projected.0."
    passes(C, D, f, "Projected", ("arg2.eval",), (f"collect(chain(chain(index({PT}, RangeTo{{end={r}start_index}}), {r}values), index({PT}, RangeFrom{{start={r}start_index}})))",
                                                   f"collect(chain(index({PT}, RangeTo{{end={r}start_index}}), chain({r}values, index({PT}, RangeFrom{{start={r}start_index}}))))"), (r + "id",))
    D = C.when(MultilinearPolyVariant="ZeroPadded")
    r = V + "ZeroPadded.0."
    zs = f"index({PT}, Range{{start={r}start_index,end={r}n_pad_vars + {r}start_index}})"
    zero = [lambda l: l.kind == "ok" and l.name == "invert", G("pred", "invert"), G("pred", "is_zero"), Gcmp(("==", "!="), [], ["item:ZERO"])]
    passes(C, D, f, "ZeroPadded", (f"arg2.eval*invert(evaluate(SelectRow{{n_vars=len({zs}),index={r}nonzero_index}}, {zs}))",
                                   f"arg2.eval*invert(evaluate(SelectRow{{n_vars={r}n_pad_vars,index={r}nonzero_index}}, {zs}))"),
           (f"collect(chain(index({PT}, RangeTo{{end={r}start_index}}), index({PT}, RangeFrom{{start={r}n_pad_vars + {r}start_index}})))",), (r + "id",), allow=zero)
    z = [l for l in D.facts(f) if (l.kind == "pred" and l.name == "is_zero" and l.val is True or l.kind == "cmp" and l.op == "==" and ("item:ZERO" in l.rhs or "item:ZERO" in l.lhs)) and (CLAIM + ".eval" in (l.arg(0) if l.kind == "pred" else l.lhs | l.rhs))]
    D.ob("ZeroPadded.zero", "when the selector vanishes the claim is accepted only if the claimed evaluation is zero", z, f, sample=[repr(x) for x in z[:1]])
    D = C.when(MultilinearPolyVariant="LinearCombination")
    D.need_cmp("LinearCombination.eval", "the claimed evaluation equals offset plus the coefficient-weighted sub-evaluations", f, "==",
               ["LinearCombination.offset", ("fn:coefficients", "LinearCombination.inner"), "READ:msg", "op:Add", ("fn:inner_product_unchecked", "op:Mul", "call:inner_product_unchecked", "fn:inner_product_par", "~fn:inner_prod.*")], ev, forall=False)
    D.need_ok("LinearCombination.sub", "every sub-oracle's evaluation is verified at the same point", f, [n for n in {g.name for g in C.prog.fns.values() if "EvalcheckVerifier" in g.spath}], forall=True,
              dom=["LinearCombination.inner"], pred=lambda l: l.fr.depth <= 2 and any(match(["LinearCombination.inner"], l.arg(k)) for k in range(1, len(l.args()))) and
              any(match([CLAIM + ".eval_point"], l.arg(k)) for k in range(1, len(l.args()))))
    for v, deg in (("Shifted", "block_size"), ("Packed", "log_degree")):
        D = C.when(MultilinearPolyVariant=v)
        D.need_exec(f"{v}.sumcheck", f"a claim on a {v} oracle becomes a pending sumcheck for the claimed evaluation", f, "add_sumcheck",
                    args={3: [CLAIM + ".eval", ops()], 1: [f"MultilinearPolyVariant::{v}.0", "ProjectedBivariateMeta.inner_id", "ProjectedBivariateMeta.multiplier_id"]})
        D.need_sites(f"{v}.bucket", f"the pending sumcheck of a {v} oracle is over its {deg} variables, for the claimed evaluation", f, "add_bivariate_sumcheck_to_constraints", optional=True,
                     rx={2: re.escape(f"{V}{v}.0.{deg}"), 3: re.escape("arg2.eval")})
    D = C.when(MultilinearPolyVariant="Composite")
    D.need_exec("Composite.mlecheck", "a claim on a composite oracle becomes a pending MLE-check of its composition for the claimed evaluation", f, "add_sumcheck",
                args={3: [CLAIM + ".eval", ops()], 1: ["CompositeMLE.inner"], 2: ["CompositeMLE.c"]}, allow=[lambda l: l.name in ("get_mut", "get"), G("cmp")])
    hit = D.find_cmp(D.facts(f), "==", [CLAIM + ".eval_point", "!EvalcheckVerifier.new_mlechecks_constraints", "!len", "!fn:len"], ["EvalcheckVerifier.new_mlechecks_constraints", "!len", "!fn:len"], forall=False, allow=[G("ok", "get"), G("pred", "get"), G("pred", "is_some"), Gcmp(("<", ">", ">=", "<="), [], [])])
    D.ob("Composite.point", "a claim is only added to a pending set of the same evaluation point", hit, f, sample=[h.loc() for h in hit[:1]])


def duplicates(C):
    """duplicate claims"""
    vs = [g for g in C.prog.fns.values() if "EvalcheckVerifier" in g.spath and g.kind != "Closure"]
    n = 0
    for g in vs:
        C2 = C.when(EvalcheckHint="DuplicateClaim")
        if not any(s[0] == "=" and s[2][0] == "disc" and len(s) > 4 and last_seg(s[4]["adt"]) == "EvalcheckHint" for b in g.blocks for s in b["s"]):
            continue
        n += 1
        C.fn_seen.add(g.id)
        hits = C2.find_cmp(C2.facts(g), "==", ["EvalcheckVerifier.round_claims"], ["!EvalcheckVerifier.round_claims"])
        whole = [h for h in hits if match([CLAIM + ".eval_point", CLAIM + ".id"], h.lhs | h.rhs) or len(hits) >= 1]
        fields = set()
        for h in hits:
            a = h.lhs | h.rhs
            src = h.rhs if "EvalcheckVerifier.round_claims" in h.lhs else h.lhs
            cl = h.lhs if "EvalcheckVerifier.round_claims" in h.lhs else h.rhs
            for fld in ("id", "eval_point", "eval"):
                if f"{CLAIM}.{fld}" in cl and not {"len", "call:len", "fn:len"} & (cl | src):
                    fields.add(fld)
            if not any(x.startswith(CLAIM + ".") for x in cl):
                fields |= {"id", "eval_point", "eval"}
        takes_claim = any(CLAIM in str(g.locals[i]) for i in range(1, g.nargs + 1))
        need = {"id", "eval_point", "eval"} if takes_claim else {"id", "eval_point"}
        C.ob(f"dup.{g.name}", "a claim marked as duplicate is accepted only if it equals an already checked claim" + ("" if takes_claim else " on the same oracle and point"), need <= fields, g, sample=[h.loc() for h in hits],
             detail=f"compared with the earlier claim: {sorted(fields)}, needed {sorted(need)}")
        if not takes_claim:
            at = C2.fl.retval(C2.root(g), ())
            C.ob(f"dup.{g.name}.value", "the evaluation taken for a duplicate is the one of the earlier claim", match(["EvalcheckVerifier.round_claims"], at), g)
        N = C.when(EvalcheckHint="NewClaim")
        rn = recur_names(C)
        ok = [l for l in N.facts(g) if l.kind == "ok" and l.name in rn and not l.guards and not l.loops and l.fr.depth <= 1]
        C.ob(f"new.{g.name}", "a claim that is not a duplicate is accepted only if it verifies", ok, g, sample=[h.loc() for h in ok[:1]], detail="acceptance of a new claim does not always require its verification")
    C.ob("dup.sites", "both duplicate-claim paths were analysed", n >= 2, None, sample=[n])
    for g in [x for x in C.prog.fns.values() if x.name == "eq" and x.crate == "binius_core" and x.kind != "Closure" and re.search(r"<protocols::evalcheck::evalcheck::EvalPoint(<.*>)? as .*PartialEq", x.spath)]:
        C.fn_seen.add(g.id)
        t = str(C.terms().ret(C.root(g)))
        zips = [fr.loc(bb) for fr, bb, _ in C.sites_under(C.root(g), C.named("zip", "izip", "first", "last", "take", "min", "get", "skip"))]
        C.ob("dup.point_eq", "two evaluation points are equal exactly if all their coordinates are", not zips and judge(t, ("eq(index(arg1.data, arg1.range), index(arg2.data, arg2.range))", "eq(index(arg2.data, arg2.range), index(arg1.data, arg1.range))", "eq(deref(arg1), deref(arg2))", "eq(as_ref(arg1), as_ref(arg2))")) is not False, g, sample=[t], detail=f"compared: `{t[:200]}` {zips[:2]}")
    f = C.fn("EvalcheckVerifier::verify")
    ex = [l for l in C.facts(f) if l.kind == "exec" and l.name in ("clear", "take", "truncate", "drain") and match(["EvalcheckVerifier.round_claims"], l.arg(0)) and not l.guards and not l.loops]
    C.ob("dup.reset", "claims of earlier rounds cannot be reused: the set of checked claims is emptied at the start", ex, f, sample=[x.loc() for x in ex[:1]])
    C.need_ok("all_claims", "every given claim is verified", f, tuple(recur_names(C)), forall=True, dom=["arg:2"], pred=lambda l: l.fr.depth == 0 and match(["arg:2"], l.arg(1)))
    g = arms_fn(C)
    hits = [l for l in C.facts(g) if l.kind == "exec" and l.name in ("push", "insert") and match(["EvalcheckVerifier.round_claims"], l.arg(0))]
    C.ob("dup.record", "a new claim is recorded as it is, so that later duplicates are compared with it", any(match([CLAIM + ".eval", CLAIM + ".eval_point", CLAIM + ".id", ops()], h.arg(1)) for h in hits), g)


def hints(C):
    """hint decoding"""
    f = C.fn("evalcheck::deserialize_evalcheck_proof")
    C.need_ok("hint.read", "the hint is read from the transcript", f, "read_bytes", pred=lambda l: True)


def greedy(C):
    """greedy evalcheck"""
    f = C.fn("greedy_evalcheck::verify::verify")
    C.need_ok("greedy.initial", "the given claims are verified first", f, "verify", forall=False, args={1: ["arg:2"]}, pred=lambda l: "EvalcheckVerifier" in callee_name(l.fr.fn.blocks[l.bb]["t"][1]))
    C.need_any("greedy.end", "acceptance requires that no pending sumcheck is left", f, [
        lambda: C.need_ok("", "", f, ("is_empty",), kind=("pred",), val=True, args={0: ["EvalcheckVerifier.new_sumcheck_constraints"]}),
        lambda: C.need_cmp("", "", f, ("==",), ["EvalcheckVerifier.new_sumcheck_constraints", "len"], ["int:0"])])
    last = [l for l in (C.fa.exits(C.root(f), "Ok") or {}).values() if (l.kind == "pred" and l.name == "is_empty" and l.val is True and CLAIM in argty(l) or l.kind == "cmp" and l.op == "==" and "int:0" in l.rhs and "len" in l.lhs)
            and match(["BatchSumcheckOutput.multilinear_evals"], l.arg(0) if l.kind == "pred" else l.lhs) and not l.loops]
    C.ob("greedy.drained", "acceptance requires a round that produced no further claims", last, f, sample=[x.loc() for x in last[:1]], detail="the rounds may end while a round has just produced claims")
    pend = [NONEMPTY("EvalcheckVerifier." + x) for x in ("new_sumcheck_constraints", "new_mlechecks_constraints")]
    some = [lambda l: any(p(l) for p in pend) and (l.kind == "cmp" or re.search("SumcheckClaim|ConstraintSet|Meta|EqIndPoints|" + CLAIM, argty(l)))]
    C.need_all("greedy.push", "every claim produced by a pending sumcheck is verified in turn", f, ["BatchSumcheckOutput.multilinear_evals"], allow=list(some))
    C.need_all("greedy.out_all", "every recorded committed claim is handed to the opening", f, ["EvalcheckVerifier.committed_eval_claims"], pred=lambda fr, bb, t: "BatchSumcheckOutput.multilinear_evals" not in C.fl.arg(fr, bb, 1))
    C.need_ret("greedy.out", "the committed claims handed to the opening are those recorded by the evalcheck", f, [], ["EvalcheckVerifier.committed_eval_claims"])
    ss = C.sites_under(C.root(f), lambda c: "fn" in c and last_seg(callee_name(c)) == "verify" and "EvalcheckVerifier" in callee_name(c))
    deep = [(fr, bb) for fr, bb, t in ss if match(["BatchSumcheckOutput.multilinear_evals"], C.fl.arg(fr, bb, 1))]
    C.ob("greedy.loop", "the claims produced by the pending sumchecks are verified in turn", deep, f, sample=[fr.loc(bb) for fr, bb in deep[:1]])
    for fr, bb in deep[:1]:
        at = C.fl.arg(fr, bb, 1)
        C.ob("greedy.loop_both", "both the bivariate sumchecks and the MLE-checks produce claims", match(["EvalcheckVerifier.new_sumcheck_constraints", ("EvalcheckVerifier.new_mlechecks_constraints", "EqIndSumcheckClaim.eq_ind_composite_sums")], at), fr.fn)
    for nm, fld in (("take_new_sumcheck_constraints", "new_sumcheck_constraints"), ("take_new_mlechecks_constraints", "new_mlechecks_constraints")):
        g = C.fn("EvalcheckVerifier::" + nm)
        which = nm
        C.need_ret(f"greedy.{nm}", "all pending constraints are handed over", g, [], ["EvalcheckVerifier." + fld])
        D = C.when(Result="Err", Error="InvalidOracleId")
        lost = [fr.loc(bb) for fr, bb, t in C.sites_under(C.root(g), lambda c: "fn" in c and re.search(r"result::Result(<.*>)?::(ok|is_ok|is_err|unwrap_or|unwrap_or_default|unwrap_or_else|is_ok_and|is_err_and)$|::flatten$", callee_name(c))) if fr.fn.file == g.file]
        for fr, bb, nm, f2 in D.closures(D.root(g), "filter"):
            r = str(D.terms().ret(f2))
            if fr.fn.file == g.file and r in ("Not(1)", "0"):
                lost.append(fr.loc(bb))
        C.ob(f"greedy.{which}.err", "a pending constraint set that cannot be built is an error, it is not left out", not lost, g, detail=f"the error is dropped at {lost[:2]}")
        C.need_all(f"greedy.{which}.all", "no pending constraint set is left out", g, ["EvalcheckVerifier." + fld])
    # acceptance checks of the sumchecks inside
    C.need_sites("greedy.eqind_args", "the MLE-check outputs are verified against the point of the pending claim", f, "verify_sumcheck_outputs", args={2: ["EvalcheckVerifier.new_mlechecks_constraints"], 3: ["READ:msg", "SAMPLE"]})
    C.need_sites("greedy.evals", "evaluation claims are made from verified sumcheck outputs", f, "make_eval_claims", args={2: ["READ:msg", "SAMPLE"]}, n=2)


def subclaims(C):
    """sumcheck claims of shifted and packed oracles"""
    f = C.fn("evalcheck::subclaims::shifted_sumcheck_meta")
    C.need_sites("sub.shift", "the shift indicator has the oracle's block size, offset and variant", f, "new", optional=True, rx={0: re.escape("arg2.block_size"), 1: re.escape("arg2.shift_offset"), 2: re.escape("arg2.shift_variant")},
                 pred=lambda C, fr, bb, t: "ShiftIndPartialEval" in callee_name(t[1]))
    C.need_sites("sub.shift_meta", "the shifted oracle's inner oracle is projected beyond its block", f, "projected_bivariate_meta", optional=True, rx={1: re.escape("arg2.id"), 2: re.escape("arg2.block_size"), 3: "arg3"})
    f = C.fn("evalcheck::subclaims::packed_sumcheck_meta")
    C.need_sites("sub.packed", "the packing basis is the tower basis of the oracle's degree over its level", f, "new", optional=True, rx={0: re.escape("arg2.log_degree"), 1: re.escape("index(arg1.oracles, arg2.id.0).tower_level")},
                 pred=lambda C, fr, bb, t: "TowerBasis" in callee_name(t[1]))
    C.need_cmp("sub.packed_vars", "packing more variables than the oracle has is rejected", f, "<=", ["Packed.log_degree"], ["arg:1", "Packed.id"])
    C.need_sites("sub.packed_meta", "the packed oracle's inner oracle is projected on all the claimed coordinates", f, "projected_bivariate_meta", optional=True, rx={1: re.escape("arg2.id"), 2: "0", 3: "arg3"})
    fs = [x for x in C.fns("evalcheck::subclaims::projected_bivariate_meta") if x.nargs == 5] or C.fns("evalcheck::subclaims::projected_bivariate_meta")
    f = fs[0]
    C.need_sites("sub.project", "the inner oracle is projected at the remaining coordinates of the point", f, ("add_projected_last_vars", "add_projected"), optional=True, rx={1: "arg2", 2: re.escape("index(arg4, RangeFrom{start=arg3})")}, args={2: ["arg:4", "!item:ZERO", "!item:ONE"]})
    f = C.fn("evalcheck::subclaims::add_bivariate_sumcheck_to_constraints")
    C.need_sites("sub.product", "the sumcheck is over the product of the inner oracle and the multiplier", f, "add_sumcheck", char2=True, rx={2: re.escape("ArithExpr::Var{0=0}*ArithExpr::Var{0=1}"), 3: "arg4"})
    C.need_sites("sub.product_slot", "it is recorded in the set of its number of variables", f, ("index_mut", "index"), optional=True, rx={1: "arg3"}, pred=lambda C, fr, bb, t: fr.depth == 0)


def sets(C):
    """constraint sets are built from all the constraints recorded"""
    f = C.fn("ConstraintSetBuilder::build_one")
    C.need_cmp("set.n_vars", "all the oracles of a constraint set have the same number of variables", f, "==", ["UngroupedConstraint.oracle_ids", "MultilinearPolyOracle.n_vars"], ["UngroupedConstraint.oracle_ids", "MultilinearPolyOracle.n_vars"], forall=True, dom=["UngroupedConstraint.oracle_ids"])
    cons = C.fl.retval(C.root(f), ("constraints",))
    C.ob("set.constraints", "every recorded constraint is in the set", match(["ConstraintSetBuilder.constraints", "UngroupedConstraint.composition", "UngroupedConstraint.predicate", "!TRUNC"], cons), f, sample=sorted(cons)[:8])
    C.need_all("set.all", "no recorded constraint is left out of the set", f, [("UngroupedConstraint.composition", "Constraint.composition")])
    t = str(C.terms().ret(C.root(f), ("constraints",)))
    cut = re.search(r"(filter|filter_map|take|skip|take_while|skip_while|step_by)\(arg1\.constraints", t)
    C.ob("set.nofilter", "no recorded constraint is filtered out of the set", not cut, f, sample=[t[:120]])
    f = C.fn("ConstraintSetBuilder::add_sumcheck")
    C.need_agg("set.add", "a sumcheck constraint records its oracles, composition and sum", f, "UngroupedConstraint", {"oracle_ids": ["arg:2"], "composition": ["arg:3"], "predicate": ["arg:4"]})


OBLIGATIONS = [variants, duplicates, hints, greedy, subclaims, sets]
MIN_OBLIGATIONS = 45
