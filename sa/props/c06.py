"""Sumcheck family: an accepted batch sumcheck / zerocheck / eq-indicator sumcheck has every round and every final evaluation bound to the claims."""
from engine import *

EXPLAIN = ("Guarded must-facts of the sumcheck verifiers (batch_verify, front-loaded BatchVerifier typestate, eq-ind and univariate-skip reductions, "
           "claim constructors and eval-claim builders): every final consistency equation, shape and ordering check must dominate acceptance, be quantified "
           "over all claims, and relate values whose backward slice reaches the claimed sums, the round messages, the challenges and the final evaluations.")


MINIMUMS = True      # table sizes and round counts legitimately go through `min` here


def batch(C):
    """sumcheck::batch_verify"""
    f = C.fn("sumcheck::verify_sumcheck::batch_verify")
    C.need_sorted("batch.order", "claims are ordered by number of variables", f, ["arg:2", "SumcheckClaim.n_vars"])
    C.need_cmp("batch.final", "the reduced sum equals the batched composite evaluation of the final multilinear evaluations", f, "==",
               ["CompositeSumClaim.sum", "READ:msg", "SAMPLE", "fn:evaluate_univariate", "arg:2"],
               ["CompositeSumClaim.composition", "READ:msg", "SAMPLE", ("call:evaluate", "fn:evaluate"), "!CompositeSumClaim.sum"], forall=False)
    C.need_ok("batch.rounds", "one round message and challenge per variable", f, ("read_scalar_slice",), forall=True,
              dom=["SumcheckClaim.n_vars", "arg:2", ops(), ints(0), "!~Range.*start=[1-9].*"], pred=lambda l: match(["CompositeSumClaim.composition"], l.arg(1)))
    C.need_ok("batch.evals", "final evaluations are read for all multilinears of every claim", f, ("read_scalar_slice",), forall=True,
              dom=["arg:2"], pred=lambda l: match(["SumcheckClaim.n_multilinears", ops()], l.arg(1)))
    C.need_ret("batch.out_chal", "the returned point is made of the sampled challenges", f, ["challenges"], ["SAMPLE", "!READ"])
    C.need_ret("batch.out_evals", "the returned evaluations are the ones checked", f, ["multilinear_evals"], ["READ:msg"])


def weights(C):
    """batching weights"""
    f = C.fn("sumcheck::common::batch_weighted_value")
    at = C.fl.retval(C.fl.root(f), ())
    g = str(C.terms(True).ret(C.root(f)))
    C.ob("weights.powers", "the sums of one claim are weighted by distinct powers of the claim's coefficient, starting with the first",
         match(["arg:1", "arg:2", C.TRUNC], at) and ("fn:powers" in at or any(x in g for x in ("fold", "phi{", "scan", "successors"))) and judge(g, "arg1*inner_product_unchecked(powers(arg1), arg2)") is not False, f, sample=[g[:200]], detail=g[:300])


def front(C):
    """front-loaded batch verifier"""
    f = C.fn("front_loaded::BatchVerifier::new_prebatched")
    C.need_sorted("front.order", "claims are ordered by number of variables", f, ["arg:3", "SumcheckClaim.n_vars"])
    C.need_cmp("front.coeffs", "one batching coefficient per claim", f, "==", ["arg:1", "len", ops()], ["arg:3", "len", ops()])
    f = C.fn("front_loaded::BatchVerifier::new")
    C.need_ret("front.new_sum", "the batched sum combines every claimed sum with sampled coefficients", f, ["last_coeffs_or_sum"], ["SAMPLE", "CompositeSumClaim.sum", "arg:1"])
    C.need_ret("front.new_coeffs", "the coefficients used for the final check are the sampled ones", f, ["claims"], ["SAMPLE", "arg:1"])
    f = C.fn("front_loaded::BatchVerifier::receive_round_proof")
    C.need_var("front.recv_state", "a round message is only accepted after the previous round was finished", f, "CoeffsOrSums", "Sum", ["BatchVerifier.last_coeffs_or_sum"])
    C.need_cmp("front.recv_pending", "a round message is refused while a claim with no variables left is pending", f, ("!=", ">"),
               ["SumcheckClaim.n_vars", ops()], ["BatchVerifier.round", ops()], allow=[NONEMPTY("BatchVerifier.claims")])
    f = C.fn("front_loaded::BatchVerifier::finish_round")
    C.need_var("front.round_state", "a challenge is only applied to a received round message", f, "CoeffsOrSums", "Coeffs", ["BatchVerifier.last_coeffs_or_sum"])
    f = C.fn("front_loaded::BatchVerifier::finish")
    C.need_any("front.finish_all", "finish succeeds only when no claim remains", f, [
        lambda: C.need_ok("", "", f, "is_empty", kind=("pred",), val=True, args={0: ["BatchVerifier.claims"]}),
        lambda: C.need_cmp("", "", f, ("==", "<=", "<"), ["BatchVerifier.claims", "len"], []),
        lambda: C.need_ok("", "", f, ("is_none",), kind=("pred",), val=True, args={0: ["BatchVerifier.claims"]})])
    C.need_cmp("front.finish_zero", "finish succeeds only when the remaining batched sum is zero", f, "==", ["BatchVerifier.last_coeffs_or_sum"], ["item:ZERO"])
    C.need_var("front.finish_state", "finish is refused in the middle of a round", f, "CoeffsOrSums", "Sum", ["BatchVerifier.last_coeffs_or_sum"])
    f = C.fn("front_loaded::BatchVerifier::try_finish_claim")
    done = [G("pred", "cmp", "Equal"), NONEMPTY("BatchVerifier.claims"), Gcmp(("==", "!="), ["SumcheckClaim.n_vars"], ["BatchVerifier.round"]), Gcmp(("<=", ">"), ["SumcheckClaim.n_vars"], ["BatchVerifier.round"])]
    C.need_ok("front.finish_claim_eval", "finishing a claim evaluates every composition at the received multilinear evaluations", f, ("evaluate",), forall=True,
              args={0: ["CompositeSumClaim.composition"], 1: ["READ"]}, dom=["SumcheckClaim.composite_sums"], allow=done)
    C.need_ok("front.finish_claim_read", "finishing a claim reads one evaluation per multilinear", f, ("read_scalar_slice",), args={1: ["SumcheckClaim.n_multilinears", ops()]}, allow=done)
    f = C.fn("front_loaded::BatchVerifier::run")
    C.need_cmp("front.run_zero", "run accepts only when the sum reduced by all rounds and finished claims is zero", f, "==",
               ["BatchVerifier.last_coeffs_or_sum", "READ:msg", "SAMPLE", "CompositeSumClaim.composition", "SumcheckClaimWithContext.batch_coeff"], ["item:ZERO"], forall=False)
    C.need_ok("front.run_rounds", "run receives one round message per variable of the largest claim", f, ("receive_round_proof",), forall=True,
              dom=["SumcheckClaim.n_vars", ops(), ints(0), "!~Range.*start=[1-9].*"])
    C.need_ok("front.run_rounds_chal", "every round of run is finished with a sampled challenge", f, ("finish_round",), forall=True, args={1: ["SAMPLE"]},
              dom=["SumcheckClaim.n_vars", ops(), ints(0), "!~Range.*start=[1-9].*"])
    C.need_ret("front.run_out", "run returns the evaluations it checked", f, ["multilinear_evals"], ["READ:msg"])
    C.need_ret("front.run_chal", "run returns the sampled challenges", f, ["challenges"], ["SAMPLE", "!READ"])


def eqind(C):
    """eq_ind::verify_sumcheck_outputs"""
    f = C.fn("sumcheck::eq_ind::verify_sumcheck_outputs")
    C.need_cmp("eqind.n_claims", "one set of evaluations per claim", f, "==", ["BatchSumcheckOutput.multilinear_evals", "arg:4", "len", ops()], ["arg:2", "len", ops()])
    C.need_cmp("eqind.n_rounds", "as many eq-indicator challenges as sumcheck challenges", f, "==", ["arg:3", "len", ops()], ["BatchSumcheckOutput.challenges", "len", ops()])
    C.need_cmp("eqind.n_evals", "every claim comes with one evaluation per multilinear plus the indicator", f, "==",
               ["EqIndSumcheckClaim.n_multilinears"], ["BatchSumcheckOutput.multilinear_evals", "len"], forall=True, dom=["arg:2"])
    C.need_cmp("eqind.order", "claims are in the declared order", f, (">=", ">"), ["EqIndSumcheckClaim.n_vars"], [], forall=True, dom=["arg:2"])
    C.need_cmp("eqind.eval", "the indicator evaluation of every claim equals eq(eq_ind_challenges, sumcheck challenges)", f, "==",
               ["arg:3", "BatchSumcheckOutput.challenges", "~fn:eq.*"], ["BatchSumcheckOutput.multilinear_evals", "!arg:3"], forall=True, dom=["arg:2"])
    f = C.fn("sumcheck::eq_ind::reduce_to_regular_sumchecks")
    C.need_exec("eqind.reduce", "the reduced sumcheck keeps every composite claim, its sum and adds the indicator as an extra multilinear", f, ("new",), forall=True, dom=["arg:1"],
                args={0: ["EqIndSumcheckClaim.n_vars", ops()], 1: ["EqIndSumcheckClaim.n_multilinears", "int:1", "op:Add"], 2: ["CompositeSumClaim.sum", "CompositeSumClaim.composition", "new:ExtraProduct", ops(), Ctx.TRUNC]})


def zero(C):
    """zerocheck"""
    f = C.fn("sumcheck::verify_zerocheck::batch_verify")
    C.need_sorted("zero.order", "claims are ordered by number of variables", f, ["arg:1", "ZerocheckClaim.n_vars"])
    C.need_cmp("zero.skip", "no more rounds are skipped than there are variables", f, (">=",), ["ZerocheckClaim.n_vars", ops()], ["arg:2", ops()])
    C.need_cmp("zero.final", "the eq-indicator sumcheck is run to a zero residue from the univariate round evaluated at the sampled point", f, "==",
               ["READ:msg", "SAMPLE", "BatchVerifier.last_coeffs_or_sum"], ["item:ZERO"], forall=False, count=2)
    C.need_cmp("zero.eqind", "the indicator evaluation equals eq(sampled point, sumcheck challenges)", f, "==", ["SAMPLE", "~fn:eq.*"], ["READ:msg"], forall=True, trunc=True)
    C.need_cmp("zero.reduction_eval", "the univariatising reduction's last evaluation equals the Lagrange multilinear at the sampled point", f, "==", ["READ:msg"],
               ["SAMPLE", "fn:lagrange_evals", "arg:2"], forall=False)
    C.need_ok("zero.univariate_read", "the univariate round polynomial is received in full before the point is sampled", f, ("read_scalar_slice",), args={1: ["arg:2", "ZerocheckClaim.composite_zeros"]})
    f = C.fn("sumcheck::zerocheck::reduce_to_eq_ind_sumchecks")
    C.need_sorted("zero.red_order", "claims are ordered by number of variables", f, ["arg:2", "ZerocheckClaim.n_vars"])
    C.need_exec("zero.red_claims", "every zerocheck becomes an eq-ind sumcheck of all its compositions with sum zero", f, ("new",), forall=True, dom=["arg:2"],
                args={0: ["ZerocheckClaim.n_vars", "arg:1"], 1: ["ZerocheckClaim.n_multilinears", ops()], 2: ["ZerocheckClaim.composite_zeros", "item:ZERO", ops(), Ctx.TRUNC]})
    f = C.fn("sumcheck::zerocheck::verify_reduction_sumcheck_output")
    C.need_cmp("zero.redout_vars", "the reduction claim has exactly the skipped variables", f, "==", ["SumcheckClaim.n_vars", "arg:1", ops()], ["arg:2", ops()])
    C.need_cmp("zero.redout_rounds", "the reduction has exactly one challenge per skipped variable", f, "==", ["BatchSumcheckOutput.challenges", "len", ops()], ["arg:2", ops()])
    C.need_cmp("zero.redout_eval", "the claimed Lagrange evaluation equals the one computed from the univariate challenge and the reduction point", f, "==",
               ["BatchSumcheckOutput.multilinear_evals", "!arg:3"], ["arg:3", "BatchSumcheckOutput.challenges", "fn:lagrange_evals"])
    f = C.fn("sumcheck::zerocheck::univariatizing_reduction_claim")
    C.need_exec("zero.redclaim", "every univariatised evaluation is a sum of the reduction claim", f, ("new",), args={0: ["arg:1", ops()], 1: ["arg:2", "len"], 2: ["arg:2", Ctx.TRUNC]})


def shapes(C):
    """claim constructors"""
    for name, k, d in (("SumcheckClaim::new", 3, "sumcheck"), ("EqIndSumcheckClaim::new", 3, "eq-ind sumcheck"), ("ZerocheckClaim::new", 3, "zerocheck")):
        f = C.fn(name)
        C.need_cmp(f"shape.{name}", f"every composition of a {d} claim has one variable per multilinear", f, "==", [f"arg:{k}", ("call:n_vars", "fn:n_vars")], ["arg:2", ops()], forall=True, dom=[f"arg:{k}"])
    for name, adt, var in (("constraint_set_sumcheck_claim", "ConstraintPredicate", "Sum"), ("constraint_set_zerocheck_claim", "ConstraintPredicate", "Zero"), ("constraint_set_mlecheck_claim", "ConstraintPredicate", "Sum")):
        f = C.fn("sumcheck::oracles::" + name)
        C.need_var(f"shape.{name}.pred", "only constraints of the matching kind are turned into the claim, the others are an error", f, adt, var, ["SizedConstraintSet.constraints"], forall=True)
        C.need_exec(f"shape.{name}.all", "every constraint of the set is in the claim", f, ("new",), args={2: ["Constraint.composition", "SizedConstraintSet.constraints", Ctx.TRUNC]}, pred=lambda l: len(l.args()) == 3)
        C.need_all(f"shape.{name}.push", "no constraint of the set is left out", f, ["Constraint.composition"])
    f = C.fn("sumcheck::oracles::make_eval_claims")
    C.need_agg("evals.claim", "every claim takes the oracle, its own evaluation and the sumcheck point", f, "EvalcheckMultilinearClaim",
               {"id": ["OracleClaimMeta.oracle_ids", ops()], "eval": ["BatchSumcheckOutput.multilinear_evals", ops(), "!BatchSumcheckOutput.challenges"], "eval_point": ["BatchSumcheckOutput.challenges", "!BatchSumcheckOutput.multilinear_evals"]})
    for order, form in (("LowToHigh", "index(arg3.challenges, Range{start=0,end=each(arg2).n_vars})"), ("HighToLow", "index(arg3.challenges, Range{start=-1*each(arg2).n_vars + phi{0|last(collect(arg2)).n_vars},end=phi{0|last(collect(arg2)).n_vars}})")):
        C.when(EvaluationOrder=order).need_agg("evals.point." + order, "the point of a smaller claim is the part of the challenges its rounds were run on", f, "EvalcheckMultilinearClaim", {}, rx={"eval_point": re.escape(form)}, char2=True)
    C.need_all("evals.push", "every oracle's evaluation becomes a claim", f, ["BatchSumcheckOutput.multilinear_evals"])
    C.need_sorted("evals.order", "claims are in ascending order", f, ["arg:2", "OracleClaimMeta.n_vars"])
    C.need_cmp("evals.n_claims", "one set of evaluations per claim", f, "==", ["arg:2", "len", ops()], ["BatchSumcheckOutput.multilinear_evals", "len", ops()])
    C.need_cmp("evals.n_chal", "as many challenges as variables", f, "==", ["arg:2", "OracleClaimMeta.n_vars", ops()], ["BatchSumcheckOutput.challenges", "len", ops()])
    C.need_cmp("evals.n_oracles", "one evaluation per oracle in every claim", f, "==", ["OracleClaimMeta.oracle_ids", "len", ops()], ["BatchSumcheckOutput.multilinear_evals", "len", ops()], forall=True, dom=["arg:2"])
    f = C.fn("sumcheck::oracles::make_zerocheck_eval_claims")
    C.need_agg("zevals.claim", "every claim takes the oracle, its own evaluation and the zerocheck point", f, "EvalcheckMultilinearClaim",
               {"id": ["OracleClaimMeta.oracle_ids", ops()], "eval": ["BatchZerocheckOutput.concat_multilinear_evals", ops(), "!BatchZerocheckOutput.skipped_challenges"],
                "eval_point": ["BatchZerocheckOutput.skipped_challenges", "BatchZerocheckOutput.unskipped_challenges", "!BatchZerocheckOutput.concat_multilinear_evals"]})
    C.need_all("zevals.push", "every oracle's evaluation becomes a claim", f, ["BatchZerocheckOutput.concat_multilinear_evals"])
    C.need_sorted("zevals.order", "claims are in ascending order", f, ["arg:1", "OracleClaimMeta.n_vars"])
    C.need_cmp("zevals.n_oracles", "one evaluation per oracle", f, "==", ["arg:1", "OracleClaimMeta.oracle_ids", "len", "op:sum", ops("sum", "Add")], ["BatchZerocheckOutput.concat_multilinear_evals", "len", ops()])
    C.need_cmp("zevals.n_chal", "as many challenges as variables", f, "==", ["arg:1", "OracleClaimMeta.n_vars", ops()], ["BatchZerocheckOutput.skipped_challenges", "BatchZerocheckOutput.unskipped_challenges", "len"])


OBLIGATIONS = [batch, weights, front, eqind, zero, shapes]
MIN_OBLIGATIONS = 50
