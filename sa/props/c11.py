"""Top level: an accepted proof enforces every table size, constraint, non-zero column and exponentiation of the constraint system."""
from engine import *
from props.c10 import zero_size

EXPLAIN = ("Must-facts on every accepting path of the constraint-system verifier with the sub-verifiers kept abstract: which claims are built from which part of the constraint system, that each is "
           "verified, and that every resulting evaluation claim reaches the evaluation check and the opening; the conditions under which parts are dropped (empty tables only) as value forms; and, over the "
           "whole call graph below the verifier, that no Result of a workspace function is ignored or turned into a default.")

OPA = ("gkr_exp::batch_verify::batch_verify", "exp::make_eval_claims", "exp::make_claims", "gkr_gpa::verify::batch_verify", "gkr_gpa::oracles::make_eval_claims",
       "construct_grand_product_claims", "reduce_flush_evalcheck_claims", "make_zerocheck_eval_claims", "greedy_evalcheck::verify::verify", "ring_switch::verify::verify",
       "make_flush_oracles")


MINIMUMS = True      # table sizes and round counts legitimately go through `min` here


def ver(C):
    D = C.opaque(*OPA)
    return D, D.fn("constraint_system::verify::verify")


def sizes(C):
    """table sizes"""
    f = C.fn("ConstraintSystem::check_table_sizes")
    C.need_cmp("sizes.len", "one size per table", f, "==", ["arg:2", "len", "!ConstraintSystem.table_size_specs"], ["ConstraintSystem.table_size_specs", "len"], forall=False)
    D = C.when(TableSizeSpec="PowerOfTwo")
    D.need_any("sizes.po2", "a table specified as a power of two has such a size", f, [
        lambda: D.need_ok("", "", f, "is_power_of_two", kind=("pred",), val=True, forall=True, args={0: ["arg:2"]}, dom=["arg:2", "ConstraintSystem.table_size_specs"])])
    D = C.when(TableSizeSpec="Fixed")
    D.need_cmp("sizes.fixed", "a table of fixed size has that size", f, "==", ["arg:2", "!TableSizeSpec::Fixed.log_size"], ["TableSizeSpec::Fixed.log_size", ("op:Shl", "op:shl", "~(fn|call):(pow|checked_shl)")], forall=True, dom=["arg:2"])
    D, v = ver(C)
    D.need_ok("sizes.checked", "acceptance requires the table sizes of the proof to be checked", v, "check_table_sizes", forall=False, args={0: ["arg:1"], 1: ["READ:msg"]})
    D.need_ok("sizes.used", "the columns are sized by the checked sizes", v, "instantiate", forall=False, args={0: ["ConstraintSystem.oracles"], 1: ["READ:msg"]})


def constraints(C):
    """zerochecks"""
    D, v = ver(C)
    D.need_ok("zero.verified", "the zerochecks of the table constraints are verified", v, ("batch_verify", "batch_verify_zerocheck"), forall=False, args={0: ["ConstraintSystem.table_constraints", "Constraint.composition", "SizedConstraintSet.constraints", D.TRUNC.replace("filter|filter_map|", "")]},
              pred=lambda l: True)
    T = D.terms()
    n = 0
    for fr, bb, nm, f2 in D.closures(D.root(v), "filter_map", "filter", "retain", "flat_map"):
        at = D.fl.arg(fr, bb, 0)
        if "ConstraintSystem.table_constraints" not in at or fr.fn is not v:
            continue
        n += 1
        if nm == "filter_map":
            hits = [l for l in D.dropped(f2, nm) if l.kind == "cmp" and zero_size(l, "ConstraintSet.table_id")]
            D.ob("zero.dropped", "a constraint set is dropped only if its table is empty", hits, v, sample=[repr(h) for h in hits[:1]])
        else:
            hits = [l for l in D.dropped(f2, nm) if l.kind == "cmp" and zero_size(l, "ConstraintSet.table_id")]
            D.ob("zero.dropped_only", "a constraint set is dropped only if its own table is empty", hits or nm == "flat_map", v, sample=[repr(h) for h in hits[:1]])
            g = str(T.ret(f2))
            D.ob("zero.dropped", "a constraint set is dropped only if its table is empty", judge(g, r"(Lt\(0, |Ne\(0, |Not\(Eq\(0, )index\(read_vec@bb\(.*\), each\(.*\)\.table_id\)\)+", rx=True) is not False, v, sample=[g[:200]])
    for fr, bb, t in D.sites_under(D.root(v), D.named("new")):
        if "SizedConstraintSet" in callee_name(t[1]):
            g = str(T.arg(fr, bb, 0))
            D.ob("zero.nvars", "a constraint set has log2_ceil(table size) + log_values_per_row variables", judge(g, r"each\(arg1\.table_constraints\)\.log_values_per_row \+ log2_ceil_usize\(index\(read_vec@bb\(.*\), each\(arg1\.table_constraints\)\.table_id\)\)|log2_ceil_usize\(index\(read_vec@bb\(.*\), each\(arg1\.table_constraints\)\.table_id\)\) \+ each\(arg1\.table_constraints\)\.log_values_per_row", rx=True) is not False, v, sample=[g[:200]], detail=g[:300])
    f = C.fn("sumcheck::oracles::constraint_set_zerocheck_claim")
    C.need_var("zero.pred", "every constraint of the set is a zero constraint", f, "ConstraintPredicate", "Zero", forall=True, dom=["SizedConstraintSet.constraints"])
    C.need_exec("zero.all", "every constraint of the set becomes a composition of the claim", f, ("push", "with_n_vars"), forall=True, dom=["SizedConstraintSet.constraints"],
                pred=lambda l: any(match(["Constraint.composition"], a) for a in l.args()))
    C.need_sites("zero.claim", "the claim has the set's variables, columns and all its compositions", f, "new", args={0: ["SizedConstraintSet.n_vars", "!SizedConstraintSet.oracle_ids", ops()], 1: ["SizedConstraintSet.oracle_ids", "len", ops()], 2: ["Constraint.composition", C.TRUNC]},
                 pred=lambda C, fr, bb, t: "ZerocheckClaim" in callee_name(t[1]))
    f = C.fn("SizedConstraintSet::new")
    for fld in ("oracle_ids", "constraints"):
        C.need_ret(f"zero.set.{fld}", f"instantiating a constraint set keeps its {fld}", f, (fld,), ["ConstraintSet." + fld, C.TRUNC])


def nonzero(C):
    """non-zero columns"""
    D, v = ver(C)
    D.need_cmp("nz.product", "the product of every non-zero column is received and is not zero", v, "!=", ["READ:msg", "ConstraintSystem.non_zero_oracle_ids"], [("item:ZERO", "call:zero", "fn:zero", "~.*zero.*")], forall=True) if D.find_cmp(
        D.facts(v), "!=", ["READ:msg", "ConstraintSystem.non_zero_oracle_ids"], [], forall=True) else D.need_ok("nz.product", "the product of every non-zero column is received and is not zero", v, "is_zero", kind=("pred",), val=False, forall=True, args={0: ["READ:msg", "ConstraintSystem.non_zero_oracle_ids"]})
    hits = [l for l in D.facts(v) if l.kind == "ok" and l.name == "construct_grand_product_claims" and match(["ConstraintSystem.non_zero_oracle_ids"], l.arg(0)) and match(["READ:msg"], l.arg(2))]
    D.ob("nz.claim", "these products are claimed for the non-zero columns", hits, v)
    T = D.terms(True)
    for fr, bb, nm, f2 in D.closures(D.root(v), "any", "all"):
        if fr.fn is v:
            g = str(T.ret(f2))
            m = re.search(r"each\((read_scalar_slice@bb\(.*?\)\))", g)
            if m and hits:
                a = str(T.arg(hits[0].fr, hits[0].bb, 2))
                D.ob("nz.same", "the products checked to be non-zero are the ones proved", m.group(1)[:-1] in a or a in g or judge(a, g) is None, v, sample=[a[:150]], detail=a[:200])
    for fr, bb, nm, f2 in D.closures(D.root(v), "retain"):
        at = D.fl.arg(fr, bb, 0)
        g = str(T.ret(f2))
        for fld, sub in (("non_zero_oracle_ids", r"\.0"), ("exponents", r"\.exp_result_id\.0")):
            if "ConstraintSystem." + fld in at and "ConstraintSystem.flushes" not in at and fr.fn is v:
                d = [l for l in D.dropped(f2, nm) if l.kind == "pred" and l.name in ("is_none", "is_zero_sized") and l.val is True or l.kind == "pred" and l.name == "is_some" and l.val is False or l.kind == "var" and l.name == "None"]
                D.ob(f"dropped.{fld}", f"an entry of {fld} is dropped only if its column is empty", d, v, sample=[repr(x) for x in d[:1]], detail=f"the condition at {fr.loc(bb)} drops others")
                D.ob(f"drop.{fld}", f"an entry of {fld} is dropped only if its column is empty", judge(g, rf"Not\(is_none\(index\(instantiate\(.*\)\.oracles, each\(arg1\.{fld}\){sub}\)\)\)|is_some\(index\(instantiate\(.*\)\.oracles, each\(arg1\.{fld}\){sub}\)\)", rx=True) is not False, v, sample=[g[:200]], detail=g[:300])


def exps(C):
    """exponentiations"""
    D, v = ver(C)
    D.need_ok("exp.claims", "claims are made for all exponentiations, at a sampled point, for received evaluations", v, "make_claims", forall=False, args={0: ["ConstraintSystem.exponents"], 2: ["SAMPLE"], 3: ["READ:msg", "ConstraintSystem.exponents"]})
    D.need_ok("exp.verify", "the exponentiation claims are verified", v, "batch_verify", forall=False, args={1: ["RES:exp::make_claims"]})
    D.need_ok("exp.evals", "the outputs become evaluation claims", v, "make_eval_claims", forall=False, args={0: ["ConstraintSystem.exponents"], 1: ["RES:exp::make_claims"], 2: ["RES:gkr_exp::batch_verify::batch_verify"]})


def flow(C):
    """claims reach the opening"""
    D, v = ver(C)
    hits = [l for l in D.facts(v) if l.kind == "ok" and l.name == "verify" and match(["~RES:.*"], l.arg(1)) and not l.guards and not l.loops]
    need = {"RES:reduce_flush_evalcheck_claims": "flushes", "RES:gkr_gpa::oracles::make_eval_claims": "non-zero products", "RES:make_zerocheck_eval_claims": "zerochecks", "RES:exp::make_eval_claims": "exponentiations"}
    for r, what in need.items():
        D.ob("flow.uncut." + what.replace(" ", "_"), f"none of the evaluation claims of the {what} is left out", any(r in l.arg(1) and match([C.TRUNC], l.arg(1)) for l in hits), v, detail="the claims are filtered or deduplicated before the evaluation check")
        D.ob("flow." + r.split("::")[-1][-20:].replace("RES:", "") + "." + what.replace(" ", "_"), f"the evaluation claims of the {what} are verified", any(r in l.arg(1) for l in hits), v, sample=[l.loc() for l in hits[:2]],
             detail="the argument of the evaluation check does not contain them")
    D.need_ok("flow.flush", "the flush evaluation claims are reduced", v, "reduce_flush_evalcheck_claims", forall=False, args={0: ["RES:gkr_gpa::oracles::make_eval_claims"]})
    D.need_ok("flow.gpa_all", "flush and non-zero products are verified together", v, "batch_verify", forall=False, args={1: ["RES:construct_grand_product_claims", C.TRUNC]})
    D.need_ok("flow.gpa_evals", "the final layer claims become evaluation claims on the flush and non-zero columns", v, "make_eval_claims", forall=False, args={0: ["RES:make_flush_oracles", "ConstraintSystem.non_zero_oracle_ids"], 1: ["RES:gkr_gpa::verify::batch_verify"]})
    D.need_ok("flow.zero_evals", "the zerocheck outputs become evaluation claims", v, "make_zerocheck_eval_claims", forall=False, args={0: ["ConstraintSystem.table_constraints", "SizedConstraintSet.oracle_ids"], 1: ["READ:msg", "SAMPLE"]})
    D.need_ok("flow.system", "all committed evaluation claims enter the ring switch", v, "new", forall=False, args={3: ["RES:greedy_evalcheck::verify::verify", C.TRUNC]})
    D.need_ok("flow.ring", "the ring switch is verified", v, "verify", forall=False, args={0: ["RES:greedy_evalcheck::verify::verify"]})
    D.need_ok("flow.open", "the commitment received first is opened for the ring-switched claims", v, "verify", forall=False, args={3: ["READ:msg"], 4: ["RES:ring_switch::verify::verify"], 5: ["RES:ring_switch::verify::verify"]})
    D.need_ok("flow.params", "the opening parameters meet the requested security level and rate", v, "make_commit_params_with_optimal_arity", forall=False, args={2: ["arg:3", "!arg:2", ops()], 3: ["arg:2", "!arg:3", ops()]})
    D.need_ok("flow.end", "the proof must be used up", v, "finalize", forall=False)
    # split of flush and non-zero claims
    T = D.terms(True)
    for fr, bb, t in D.sites_under(D.root(v), lambda c: "fn" in c and last_seg(callee_name(c)) in ("split_off", "split_at") and True):
        if fr.fn is v:
            g = str(T.arg(fr, bb, 1))
            D.ob("flow.split", "the claims are split after the flush claims", judge(g, r"len\(make_flush_oracles@bb\(.*\)\)", rx=True) is not False, v, sample=[g[:120]], detail=g[:300])


HAND = {}


def discarded(C):
    """no result is discarded"""
    v = C.fn("constraint_system::verify::verify")
    reach, todo = set(), [v]
    while todo:
        f = todo.pop()
        if f.id in reach:
            continue
        reach.add(f.id)
        for b, t in f.calls():
            for g in C.prog.callee_candidates(t[1]):
                todo.append(g)
        for g in C.prog.fns.values():
            if g.kind == "Closure" and g.parent == f.id:
                todo.append(g)
    n, bad = 0, []
    for i in sorted(reach):
        f = C.prog.fns[i]
        if f.crate not in ("binius_core", "binius_math", "binius_utils", "binius_fast_compute", "binius_compute"):
            continue
        C.fn_seen.add(f.id)
        uses = None
        for b, t in f.calls():
            if t[3] is None or not isinstance(t[3], int):
                continue
            ty = str(f.locals[t[3]])
            if not re.match(r"(std::result::|core::result::)?Result<", ty):
                continue
            n += 1
            if t[3] == 0:
                continue
            if uses is None:
                uses = result_uses(f)
            us = uses.get(t[3], [])
            real = [u for u in us if u[0] != "drop"]
            src = last_seg(callee_name(t[1])) if "fn" in t[1] else "?"
            if not real:
                bad.append((f, t, f"the result of `{src}` is ignored"))
            elif all(u[0] == "call" and u[1] in ("ok", "is_ok", "is_err", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "or", "or_else", "err", "drop", "forget", "map_or", "map_or_else", "is_ok_and") for u in real) and C.prog.callee_candidates(t[1]):
                if (f.name, src) not in ALLOWED:
                    bad.append((f, t, f"an error of `{src}` is turned into a default by `{real[0][1]}`"))
    C.extra = {"functions_below_verify": len(reach), "results_followed": n}
    C.ob("discard", f"no error of a function below the verifier is ignored or defaulted", not bad, v, sample=[f"{n} results in {len(reach)} functions"],
         detail="; ".join(f"{f.file}:{t[5]} in {f.name}: {m}" for f, t, m in bad[:4]), file=bad[0][0].file if bad else None, line=bad[0][1][5] if bad else None)


# reviewed by hand: conversions where a failure is the ordinary outcome of a query, not a failed check
ALLOWED = set()


def result_uses(f):
    out = {}

    def op(o, tag):
        p = o.get("m", o.get("c")) if isinstance(o, dict) else None
        if p is not None:
            out.setdefault(place(p)[0], []).append(tag)

    def walk(r, tag):
        if isinstance(r, dict):
            if "m" in r or "c" in r:
                op(r, tag)
            else:
                for x in r.values():
                    walk(x, tag)
        elif isinstance(r, list):
            for x in r:
                walk(x, tag)
    for b in f.blocks:
        for st in b["s"]:
            if st[0] == "=":
                r = st[2]
                if r[0] in ("ref", "raw", "disc", "len"):
                    p = r[-1] if not isinstance(r[-1], str) else r[1]
                    for x in r[1:]:
                        if isinstance(x, int) and not isinstance(x, bool) or isinstance(x, list) and x and isinstance(x[0], int):
                            out.setdefault(place(x)[0], []).append((r[0],))
                walk(r, ("use",))
        t = b["t"]
        if t[0] == "call":
            nm = last_seg(callee_name(t[1])) if "fn" in t[1] else "?"
            for o in t[2]:
                op(o, ("call", nm))
        elif t[0] == "drop":
            pass
        elif t[0] == "switch":
            op(t[1], ("switch",))
    return out


OBLIGATIONS = [sizes, constraints, nonzero, exps, flow, discarded]
MIN_OBLIGATIONS = 30
