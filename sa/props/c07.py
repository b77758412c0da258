"""GKR reductions (grand product, exponentiation): an accepted reduction ties the claimed products / powers to evaluations of the named columns."""
from engine import *

EXPLAIN = ("Guarded must-facts and exact value forms of the GKR grand-product and exponentiation verifiers: each layer runs the eq-indicator sumcheck of the "
           "previous layer's claims over products of consecutive pairs, checks its outputs, draws the joining challenge after the evaluations, and the next claims "
           "are the line through them; exponentiation layers use the composition of their base kind, all layers are run, and the result columns, exponent bits and "
           "bases are all turned into evaluation claims.")

FULL = [ops(), ints(0), "!~Range.*start=[1-9].*", Ctx.TRUNC]


MINIMUMS = True      # table sizes and round counts legitimately go through `min` here


def gpa(C):
    """grand product"""
    f = C.fn("gkr_gpa::verify::batch_verify")
    full = ["GrandProductClaim.n_vars", "arg:2", "!~Range.*start=[1-9].*", ops()]
    loose = [G("pred", "is_empty"), Gcmp(("==", "!=", ">"), ["len"], ["int:0"])]
    nonempty = [NONEMPTY("~arg:2|LayerClaim.eval", no=("LayerClaim.eval_point",))]
    C.need_ok("gpa.layers", "every layer up to the largest claim runs the sumcheck and checks its outputs", f, "verify_sumcheck_outputs", forall=True, dom=full, allow=loose)
    C.need_ok("gpa.layers_run", "every layer's sumcheck is run to the end", f, "run", forall=True, dom=full, allow=loose)
    C.need_cmp("gpa.layer_zero", "every layer's sumcheck ends in a zero residue that depends on the claimed products", f, "==",
               ["GrandProductClaim.product", "READ:msg", "SAMPLE", "BatchVerifier.last_coeffs_or_sum"], ["item:ZERO"], forall=True, dom=full, allow=loose)
    C.need_ret("gpa.out", "the returned claims are at sampled points with evaluations from the transcript", f, [], ["SAMPLE", "READ:msg", "GrandProductClaim.product"])
    C.need_all("gpa.finished", "a claim is set aside exactly when all its layers are reduced", f, ["LayerClaim.eval"], allow=[G("ok", ("last", "pop", "get")), Gcmp(("==", "!="), ["GrandProductClaim.n_vars"], ["!LayerClaim.eval"]), G("pred", "is_empty")])
    f = C.fn("gkr_gpa::verify::reduce_layer_claim_batch")
    T = C.terms(True)
    for fr, b, i, o in C.aggs(f, "LayerClaim"):
        if fr.fn.file == f.file:
            ev, pt = (squash(T.op(fr, o[k], (), b, i), verify_sumcheck_outputs="OUT") for k in ("eval", "eval_point"))
            pair = "(each(chunks_exact(index(OUT.multilinear_evals, 0), 2)))"
            C.ob("gpa.next_form", "the next claim's evaluation is the line through its pair at the fresh challenge and nothing else", judge(ev, f"extrapolate_line_scalar({pair}[0], {pair}[1], sample@bb())") is not False, f, sample=[ev[:200]], detail=ev[:300])
            C.ob("gpa.next_point", "the next claim's point is the sumcheck point followed by the fresh challenge", judge(pt, "collect(chain(OUT.challenges, sample@bb()))") is not False, f, sample=[pt[:200]], detail=pt[:300])
    C.need_cmp("gpa.same_point", "claims of one layer share their evaluation point", f, "==", ["LayerClaim.eval_point", "arg:2"], ["LayerClaim.eval_point", "arg:2"], forall=True, dom=["arg:2"], allow=nonempty)
    isprod = lambda l: l.kind == "ok" and len(l.args()) == 3 and "new:ProductComposition" in l.arg(2) and "LayerClaim.eval" not in l.arg(2)
    C.need_ok("gpa.pairs_all", "every claim gets a product composition over all multilinears", f, "new", forall=True, dom=["arg:2"], allow=nonempty, args={0: ["arg:2", "len", "int:2", "op:Mul", ops("Mul"), ints(2)]}, pred=isprod)
    C.need_arg_re("gpa.pairs", "the i-th claim is the product of multilinears 2i and 2i+1", f, "new", 1, r"array\(2\*(.+),1 \+ 2\*\1\)", pred=isprod)
    C.need_ok("gpa.sums", "the sumcheck is over the layer's variables with the claimed evaluations as sums", f, "new", allow=nonempty,
              args={0: ["LayerClaim.eval_point", "len", ops()], 1: ["arg:2", "len", "int:2", "op:Mul", ops("Mul")], 2: ["LayerClaim.eval", Ctx.TRUNC, lambda a: "op:Sub" not in a]})
    C.need_ok("gpa.outputs", "the sumcheck outputs are checked against the layer's point", f, "verify_sumcheck_outputs", allow=nonempty, args={2: ["LayerClaim.eval_point", "!READ", "!SAMPLE"], 3: ["READ:msg", "SAMPLE"]})
    C.need_ret("gpa.next", "the next claims interpolate the pair of evaluations at a sampled challenge", f, ["eval"], ["SAMPLE", "READ:msg", "S:sample"])
    C.need_sites("gpa.next_line", "the next claims interpolate consecutive pairs at the sampled challenge", f, ("extrapolate_line_scalar",), optional=True,
                 args={0: ["READ:msg"], 1: ["READ:msg"], 2: ["S:sample", "!READ", "!BatchSumcheckOutput.challenges", "!call:unwrap_or"]}, rx={0: r".*\[0\]", 1: r".*\[1\]"}, pred=lambda C, fr, bb, t: fr.fn.file == f.file)
    order_before(C, "gpa.challenge_after", "the joining challenge is sampled after the layer's evaluations were received", f, ("run", "verify_sumcheck_outputs"), ("sample",))
    f = C.fn("gkr_gpa::oracles::construct_grand_product_claims")
    C.need_cmp("gpa.claims_len", "one product per oracle", f, "==", ["arg:1", "len", ops()], ["arg:3", "len", ops()])
    C.need_ret("gpa.claims", "claims take the oracle's number of variables and the given product", f, [], ["arg:1", "arg:3", "!item:ONE", "!item:ZERO"])
    f = C.fn("gkr_gpa::oracles::make_eval_claims")
    C.need_cmp("gpa.evals_len", "one final layer claim per oracle", f, "==", ["arg:1", "len", ops()], ["arg:2", "len", ops()])
    C.need_ret("gpa.evals", "the evaluation claims are those of the final layers", f, [], ["arg:1", "LayerClaim.eval_point", "LayerClaim.eval"])


def order_before(C, oid, desc, fn, first, second):
    """no call of `second` from which a call of `first` is reachable, and every `second` is dominated by one of `first`"""
    fr = C.root(fn)
    firsts = [b for b, t in fn.calls() if "fn" in t[1] and last_seg(callee_name(t[1])) in first]
    seconds = [b for b, t in fn.calls() if "fn" in t[1] and last_seg(callee_name(t[1])) in second]
    if not seconds or not firsts:
        # moved into helpers: decided at the transcript level by C02
        return C.ob(oid, desc, True, fn, sample=["in helpers"])
    dom = fn.dom()
    bad = [b for b in seconds if not any(f in dom[b] and f != b for f in firsts)]
    return C.ob(oid, desc, not bad, fn, sample=[f"{fn.file}:{fn.blocks[b].get('l', '')}" for b in seconds], detail=f"{len(bad)} sample(s) not preceded by {first}")


def exp(C):
    """exponentiation"""
    f = C.fn("gkr_exp::batch_verify::batch_verify")
    ne = [NONEMPTY("arg:2")]
    full = ["ExpClaim.exponent_bit_width", "arg:2", "!~Range.*start=[1-9].*", ops("max")]
    hits = [l for l in C.facts(f) if l.kind == "pred" and "sorted" in (l.name or "") and l.val is True and match(["ExpClaim.n_vars"], l.arg(0))]
    C.ob("exp.order", "claims are ordered by number of variables", hits or C.find_cmp(C.facts(f), (">=", "<="), ["ExpClaim.n_vars"], ["ExpClaim.n_vars"], forall=True, allow=ne), f)
    C.need_cmp("exp.layer_sum", "every layer up to the largest width checks its sumcheck against the claimed evaluations", f, "==",
               ["READ:msg", "SAMPLE", "ExpClaim.eval", "fn:evaluate_univariate"], ["READ:msg", "SAMPLE", ("fn:evaluate", "call:evaluate")], forall=True, dom=full, allow=ne)
    C.need_cmp("exp.eq_ind", "the eq-indicator evaluation of every group of every layer is recomputed from its point and the challenges", f, "==",
               ["SAMPLE", "ExpClaim.eval_point", ("new:EqIndPartialEval", "fn:eval_mle_eq", "~fn:eq.*", "EqIndPartialEval.r")], ["READ:msg"], forall=True, allow=ne, tol=("filter",))
    for fr, bb, nm, f2 in C.closures(f, "filter", "retain", "filter_map", "take_while", "skip_while", "extract_if", deep=False):
        d = C.dropped(f2, nm)
        C.ob("exp.retired", "a claim leaves the reduction only after the layer of its last exponent bit", any(l.kind == "pred" and l.name == "is_last_layer" and l.val is True and match([ops()], l.arg(1)) for l in d), f, line=fr.fn.line,
             sample=[str(l)[:80] for l in d[:2]], detail=f"dropped at {fr.loc(bb)} when " + "; ".join(str(l)[:100] for l in d[:3]))
    C.need_ret("exp.out", "the returned layer claims carry received evaluations at sampled points", f, ["layers_claims"], ["SAMPLE", "READ:msg"])
    C.need_all("exp.layers_kept", "the claims of every layer are returned", f, ["BatchSumcheckOutput.multilinear_evals"], allow=ne + [G("pred", "is_last_layer"), G("exec")])
    f = C.fn("gkr_exp::batch_verify::build_eval_point_claims")
    some = lambda l: l.kind in ("switch", "var", "ok") and not l.val or l.kind == "cmp" and "fn:layer_n_multilinears" in (l.lhs | l.rhs) and "0" in C.cmp_norm(l)
    C.need_all("exp.sums_kept", "every composite claim of the group is in the sumcheck", f, ["ExpClaim.eval"], allow=[some])
    C.need_ok("exp.all_claims", "every verifier of the group contributes its composite claim", f, "layer_composite_sum_claim", forall=True, dom=["arg:1"], args={1: ["arg:2"]},
              allow=[lambda l: l.kind == "cmp" and "int:0" in (l.lhs | l.rhs), G("pred", "is_empty")])
    f = C.fn("gkr_exp::batch_verify::make_verifiers")
    C.need_ret("exp.verifiers", "each claim gets a verifier built from it", f, [], ["arg:1", "ExpClaim.static_base" if False else "arg:1"])
    for ty, pred in (("StaticBaseExpVerifier", "Some"), ("DynamicExpVerifier", "None")):
        g = C.fn(ty + "::new")
        C.need_any(f"exp.kind.{ty}", "a verifier is only built for a claim of its base kind", g, [
            lambda: C.need_ok("", "", g, ("is_none",), kind=("pred",), val=(pred == "None"), args={0: ["ExpClaim.static_base"]}),
            lambda: C.need_ok("", "", g, ("is_some",), kind=("pred",), val=(pred == "Some"), args={0: ["ExpClaim.static_base"]}),
            lambda: any(l.kind == "var" and l.name == pred for l in C.facts(g))])
    g = C.fn("ExpVerifier::is_last_layer")
    C.need_term("exp.last_layer", "the last layer is number width-1", g, ("Eq(-1 + -1*arg2 + exponent_bit_width(arg1), 0)", "Eq(1 + arg2, exponent_bit_width(arg1))", "Eq(-1 + exponent_bit_width(arg1), arg2)", "Eq(arg2, -1 + exponent_bit_width(arg1))"))
    C.need_term("exp.first_inverse", "the last exponent bit is (V-1)/(g-1)", C.fn("first_layer_inverse"), "arg1*invert_or_zero(1 + arg2) + invert_or_zero(1 + arg2)", char2=True)
    bi = "FixedDimIndexCompositions::Bivariate{0=IndexComposition{n_vars=arg3,indices=array(arg4,1 + arg4),composition=ExpCompositions::"
    C.need_term("exp.static_layer", "a static-base layer uses base^(2^(width-1-layer)) on its own pair of multilinears", C.fn("layer_composite_sum_claim", self_ty="StaticBaseExpVerifier"),
                bi + "StaticBase{base_power_static=pow(arg1.0.static_base, 2^(-1)*2^(arg1.0.exponent_bit_width)*2^-(arg2))}}}", path=("composition",))
    C.need_term("exp.dynamic_layer", "a dynamic-base layer uses the dynamic composition, the last one the last-layer composition", C.fn("layer_composite_sum_claim", self_ty="DynamicExpVerifier"),
                "phi{" + bi + "DynamicBaseLastLayer{}}}|FixedDimIndexCompositions::Trivariate{0=IndexComposition{n_vars=arg3,indices=array(arg4,1 + arg4,2 + arg4),composition=ExpCompositions::DynamicBase{}}}}", path=("composition",))
    for ty in ("StaticBaseExpVerifier", "DynamicExpVerifier"):
        C.need_term(f"exp.sum.{ty}", "the layer's sum is the current claimed evaluation", C.fn("layer_composite_sum_claim", self_ty=ty), "arg1.0.eval", path=("sum",))
        from cond import conds, only
        h = C.fn("layer_composite_sum_claim", self_ty=ty)
        last = lambda l: l.kind == "exec" or l.kind == "pred" and l.name == "is_last_layer" or l.kind == "cmp" and match(["ExpClaim.exponent_bit_width", "arg:2"], l.lhs | l.rhs)
        bad = [x for fr, b, i, o in C.aggs(h, "CompositeSumClaim") if fr.fn.file == h.file for x in only(conds(C, fr, b), last)]
        C.ob(f"exp.claimed.{ty}", "a layer's claim is made for every layer (the static base's last layer aside)", not bad, h, detail=str(bad)[:300])
    g = C.fn("evaluate", trait="CompositionPoly", self_ty="ExpCompositions")
    nv = C.fn("n_vars", trait="CompositionPoly", self_ty="ExpCompositions")
    for v, t, n in (("StaticBase", "arg1.v:StaticBase.base_power_static*arg2[0]*arg2[1] + arg2[0] + arg2[0]*arg2[1]", "2"), ("DynamicBaseLastLayer", "1 + arg2[0]*arg2[1] + arg2[1]", "2"),
                    ("DynamicBase", "arg2[0]*arg2[0] + arg2[0]*arg2[0]*arg2[1] + arg2[0]*arg2[0]*arg2[1]*arg2[2]", "3")):
        D = C.when(ExpCompositions=v)
        D.need_term(f"exp.comp.{v}", f"composition {v} is the square-and-multiply step", g, t, char2=True)
        D.need_term(f"exp.comp_vars.{v}", f"composition {v} has {n} variables", nv, n)
    g = C.fn("gkr_exp::oracles::construct_gkr_exp_claims")
    C.need_any("exp.nonempty", "an exponentiation without exponent bits is rejected", g, [
        lambda: C.need_ok("", "", g, ("is_empty",), kind=("pred",), val=False, args={0: ["arg:1"]}, forall=True),
        lambda: C.need_cmp("", "", g, ("!=", ">"), ["arg:1", "len"], ["int:0"], forall=True)])
    C.need_ret("exp.claims", "claims use the given evaluation, point and base", g, [], ["arg:1", "arg:2", "arg:3", "arg:5", "new:ExpClaim"])
    C.need_ret("exp.claims_width", "the bit width is the number of exponent columns", g, ["exponent_bit_width"], ["arg:1", "len", ops()])
    g = C.fn("gkr_exp::oracles::make_eval_claims")
    def width(l):
        """layer number < number of exponent bits of this exponentiation"""
        if l.kind != "cmp" or not match(["arg:1", "len"], l.lhs | l.rhs):
            return False
        op, x, y = C.cmp_norm(l)
        x, y = (squash(v, each="I", max="M") for v in (x, y))
        if any(u in x + y for u in ("rec", "undef", "phi{")):
            return True
        return op == "<" and "len(" in y and "len(" not in x and not re.search(r"\d", re.sub(r"arg\d|\.\d", "", x + y))
    kindsw = lambda l: l.kind in ("switch", "var", "ok", "pred") and match(["arg:3", "!arg:2"], (l.lhs or set()) | (l.arg(0) if l.kind in ("ok", "pred") else set()))
    C.need_all("exp.evals_all", "every layer claim of every exponentiation becomes an evaluation claim", g, ["LayerClaim.eval"], allow=[width, kindsw])
    C.need_ret("exp.evals", "bit and base claims are emitted from the layer claims", g, [], ["arg:1", "arg:2", "arg:3", "LayerClaim.eval", "LayerClaim.eval_point"])


def cs_exp(C):
    """exponentiations of the constraint system"""
    f = C.fn("constraint_system::exp::make_eval_claims")
    at = C.fl.retval(C.root(f))
    C.ob("cs.exp_result", "evaluation claims include the exponentiation result columns at the evaluations the reduction started from", match(["Exp.exp_result_id", "ExpClaim.eval", "ExpClaim.eval_point", "Exp.bits_ids", "arg:3", Ctx.TRUNC], at), f,
         detail="the returned claims do not depend on Exp.exp_result_id and the claimed evaluation")
    f = C.fn("constraint_system::exp::make_claims")
    C.need_ret("cs.exp_claims", "claims use every exponentiation's bits, base and claimed evaluation", f, [], ["Exp.bits_ids", "Exp.base", "arg:4", "arg:3", Ctx.TRUNC])
    f = C.fn("constraint_system::verify::verify")
    C.need_ok("cs.exp_verify", "the exponentiation claims are verified", f, "batch_verify", args={1: ["Exp.bits_ids", "READ:msg", "SAMPLE"]}, pred=lambda l: True)
    C.need_ok("cs.exp_evalcheck", "the evaluation claims include the exponentiation claims", f, "verify", args={1: ["Exp.exp_result_id", "ExpClaim.eval", "Exp.bits_ids", "READ:msg"]})


OBLIGATIONS = [gpa, exp, cs_exp]
MIN_OBLIGATIONS = 30
