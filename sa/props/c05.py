"""FRI: acceptance implies every queried position, every folding round and the final codeword were authenticated and consistent."""
from engine import *

EXPLAIN = ("Guarded must-facts of FRIVerifier::{new,verify,verify_query,verify_last_oracle} and closed value-flow slices of the FRI parameters: "
           "each consistency or authentication check must dominate acceptance (only bypassable when there is no folding round), be quantified over "
           "all queries and rounds, and relate values sliced back to the commitments, the challenges and the opened data.")

EMPTY = [NONEMPTY("FRIParams.fold_arities")]


MINIMUMS = True      # table sizes and round counts legitimately go through `min` here


def shape(C):
    """FRIVerifier::new"""
    f = C.fn("FRIVerifier::new")
    C.need_cmp("new.n_commitments", "the number of round commitments equals the number of oracles of the parameters", f, "==",
               ["arg:4", "len", ops()], ["arg:1", "FRIParams.fold_arities", ops("Sub")])
    C.need_cmp("new.n_challenges", "the number of folding challenges equals the number of fold rounds", f, "==", ["arg:5", "len", ops()], ["arg:1", "FRIParams.rs_code"])


def terminal(C):
    """terminate codeword"""
    for name, src in (("verify", "READ:dec"), ("verify_last_oracle", "arg:3")):
        f = C.fn("FRIVerifier::" + name)
        C.need_cmp(f"{name}.terminal_auth", "the terminate codeword hashes to the last committed oracle", f, "==",
                   [src, "fn:compress"], ["FRIVerifier.round_commitments", "FRIVerifier.codeword_commitment", "!READ"], forall=False)
        C.need_cmp(f"{name}.degree", "every entry of the folded terminate codeword equals the final value (low degree)", f, "==",
                   [src, "FRIVerifier.fold_challenges", ("fn:fold_chunk", "~fn:.*fold.*")], [src, "FRIVerifier.fold_challenges"], forall=True,
                   dom=["!~Range(From|Inclusive|To)?\\.start=([2-9]|1\\d).*"], head=True)
        C.need_ok(f"{name}.terminal_auth_args", "the terminate codeword is checked with one leaf per coset of the final fold", f, "verify_vector",
                  args={2: [src], 3: ["FRIParams.rs_code", "op:Shl", "int:1"]})


def queries(C):
    """queries"""
    f = C.fn("FRIVerifier::verify")
    C.need_cmp("verify.layer_auth", "every advised Merkle layer hashes to its commitment, for the codeword and every round oracle", f, "==",
               ["READ:dec", "fn:compress"], ["FRIVerifier.codeword_commitment", "FRIVerifier.round_commitments", "!READ"], forall=True)
    for name, q, idx, layers, adv in (("verify", True, "SAMPLE", "READ:dec", True), ("verify_query", False, "arg:2", "arg:5", False)):
        f = C.fn("FRIVerifier::" + name)
        term = "READ:dec" if q else "arg:4"
        d = ["FRIParams.n_test_queries"] if q else None
        C.need_cmp(f"{name}.opening", "the opened coset at the query position hashes to the authenticated layer digest", f, "==",
                   ["READ", "fn:compress", ("fn:hash_serialize", "~fn:.*hash.*")], [layers, idx], allow=EMPTY, dom=d, infn=None)
        C.need_cmp(f"{name}.round_opening", "the opened coset of every later round hashes to its authenticated layer digest", f, "==",
                   ["READ", "fn:compress", ("fn:hash_serialize", "~fn:.*hash.*")], [layers, idx, ("op:Shr", "op:Div")], allow=EMPTY, forall=True, dom=["FRIParams.fold_arities"] + (d or []))
        C.need_cmp(f"{name}.fold", "in every later round the folded value equals the opened value at the query position", f, "==",
                   ["FRIVerifier.fold_challenges", "FRIVerifier.interleave_tensor", "READ", idx], ["READ", idx, ("op:Rem", "op:BitAnd"), "!FRIVerifier.fold_challenges"],
                   allow=EMPTY, forall=True, dom=["FRIParams.fold_arities"] + (d or []))
        C.need_cmp(f"{name}.final_fold", "the last folded value equals the terminate codeword at the query position", f, "==",
                   ["FRIVerifier.fold_challenges", "FRIVerifier.interleave_tensor", "READ", idx], [term, idx, "op:Shr", "!FRIVerifier.fold_challenges", "!op:Rem"],
                   allow=EMPTY, forall=q, dom=d)
        C.need_cmp(f"{name}.index_range", "the opened position is inside the committed tree", f, "<", [idx], ["FRIParams.rs_code", "op:Shl"], allow=EMPTY, dom=d)
    f = C.fn("FRIVerifier::verify")
    # each query draws a fresh index from the transcript, over index_bits bits
    C.need_exec("verify.index_sampled", "a query index is sampled over all index bits for each test query", f, ("sample_bits", "sample_bits_reader"),
                args={1: ["FRIParams.fold_arities", "FRIParams.rs_code"]}, forall=True, dom=["FRIParams.n_test_queries", ops(), ints(0), "!~Range.*start=[1-9].*"])


def params(C):
    """FRI parameters"""
    f = C.fn("FRIParams::new")
    C.need_cmp("params.arities", "the fold arities leave at least one final fold: sum(arities) < log_dim + log_batch_size", f, "<",
               ["arg:3", "op:sum"], ["arg:1", "arg:2", "op:Add"])
    n = "arg1.log_batch_size + arg1.rs_code.log_dimension"
    C.need_term("params.n_fold_rounds", "one fold round per message variable", C.fn("FRIParams::n_fold_rounds"), n)
    C.need_term("params.n_oracles", "one oracle per fold arity", C.fn("FRIParams::n_oracles"), "len(arg1.fold_arities)")
    C.need_term("params.index_bits", "query indices range over all cosets of the first oracle", C.fn("FRIParams::index_bits"),
                "phi{0|" + n + " + arg1.rs_code.log_inv_rate + -1*first(arg1.fold_arities)}")
    C.need_term("params.n_final", "the final challenges fold what the arities leave", C.fn("FRIParams::n_final_challenges"), n + " + -1*sum(arg1.fold_arities)")
    C.need_term("params.log_len", "length of the interleaved codeword", C.fn("FRIParams::log_len"), n + " + arg1.rs_code.log_inv_rate")
    f = C.fn("fri::common::calculate_n_test_queries")
    C.need_term("params.n_queries", "the number of test queries meets the security bound: ceil(log_{(1+2^-r)/2}(2^-lambda - 2*l/|F| - 2^(l+r)/|F|))", f,
                "ceil(log(-1*Div(2*arg2.log_dimension, powi(lit:2f64, item:N_BITS)) + -1*Div(2^(arg2.log_dimension)*2^(arg2.log_inv_rate), powi(lit:2f64, item:N_BITS)) + "
                "powi(lit:2f64, -1*arg1), lit:0.5f64*lit:1f64 + lit:0.5f64*powi(lit:2f64, -1*arg2.log_inv_rate)))")
    C.need_cmp("params.unreachable_security", "parameters that cannot reach the security level are rejected", f, ">", ["arg:1", "arg:2"], [])
    f = C.fn("FRIParams::choose_with_constant_fold_arity")
    C.need_ok("params.choose_queries", "the chosen parameters use the number of queries computed for the requested security level", f, ("new",),
              args={3: ["fn:calculate_n_test_queries", "arg:3", ops("Mul", "Sub", "Neg", "Add", "Shl", "Div", "log", "Le", "Gt")]}, pred=lambda l: len(l.args()) == 4)


OBLIGATIONS = [shape, terminal, queries, params]
MIN_OBLIGATIONS = 26
