"""The property table: properties.jsonl and MANIFEST.json are generated from this (tools/gen.py)."""
MUST = "interprocedural must-check dataflow over MIR (guarded facts on every accepting path) with value-flow slices and symbolic value forms"
NOTE = ("Path-insensitive value flow, path-sensitive must-facts over the optimised-free MIR of the release configuration; every accepting path of the function must be dominated by the check, "
        "with operands of the stated origin. It decides that the check is made on the right values; it does not prove the probability argument of the protocol, nor field arithmetic itself.")

PROPS = [
 dict(id="C01", title="A proof is consumed exactly: short, long or malformed proofs are errors",
  statement="Verification accepts only if the proof byte string is consumed to its last byte. A read that needs more bytes than remain, or an encoding that is malformed, returns an error; no reader silently truncates, pads or skips, and a typed read returns exactly the number of elements asked for.",
  over=["inputs"], q="for every proof byte string, of any length and content",
  why="Tests read back what an honest prover wrote, so surplus bytes, a missing length check or a truncating reader never shows.",
  files=["crates/core/src/transcript/mod.rs", "crates/utils/src/serialization.rs", "crates/core/src/constraint_system/verify.rs"],
  mech=[("VerifierTranscript::finalize, TranscriptReader", "crates/core/src/transcript/mod.rs"), ("DeserializeBytes implementations", "crates/utils/src/serialization.rs")],
  tech="must-check dataflow over MIR: every byte consumption dominated by a remaining-length check; value forms of typed readers", note=NOTE),
 dict(id="C02", title="Fiat-Shamir: every challenge depends on the statement and all prior messages",
  statement="The verifier observes the constraint-system digest and the boundary values before anything else. Every prover message is absorbed into the challenger before any later challenge is drawn; in every sub-protocol the messages and challenges alternate in the protocol's order, so that each challenge is sampled only after the prover message it must be independent of. Query indices are drawn after all commitments and final messages, and drawing challenges advances the challenger state.",
  over=["inputs", "histories", "configurations"], q="for every constraint system, proof and sub-protocol schedule",
  why="Prover and verifier share the transcript code: a message that is not absorbed, or a challenge drawn too early on both sides, keeps every honest proof valid.",
  files=["crates/core/src/transcript/mod.rs", "crates/core/src/fiat_shamir/hasher_challenger.rs", "crates/core/src/constraint_system/verify.rs"],
  mech=[("VerifierTranscript, FiatShamirBuf", "crates/core/src/transcript/mod.rs"), ("HasherChallenger", "crates/core/src/fiat_shamir/hasher_challenger.rs")],
  tech="static event-order (typestate) analysis: regular words of transcript operations over all accepting paths, helpers and loops inlined; value forms of absorb/squeeze", note=NOTE),
 dict(id="C03", title="Unobserved prover data is only used after authentication against a commitment",
  statement="Data the verifier reads outside Fiat-Shamir (decommitments: opened coset values, Merkle paths, layers, terminate codewords) influences acceptance only after it has been authenticated against a commitment that was absorbed by the transcript.",
  over=["inputs"], q="for every proof and every read of an unobserved reader below the verifier",
  why="Honest decommitments always authenticate; switching an observed read to an unobserved one or skipping the authentication of one vector passes all tests.",
  files=["crates/core/src/protocols/fri/verify.rs", "crates/core/src/merkle_tree/scheme.rs", "crates/core/src/transcript/mod.rs"],
  mech=[("FRIVerifier::verify", "crates/core/src/protocols/fri/verify.rs"), ("VerifierTranscript::decommitment", "crates/core/src/transcript/mod.rs")],
  tech="interprocedural taint analysis from unobserved reads to authentication sinks, with must-success facts", note=NOTE),
 dict(id="C14", title="Encodings are lossless and cover the whole statement",
  statement="For every type with a byte encoding, what deserialize reads is what serialize wrote: same fields in the same order and width, each stored back in the field it came from, distinct tags per enum variant, unknown tags rejected, sequences and options complete, both serialization modes inverse conversions. No field of a constraint system is left out of its encoding, and the constraint-system digest is taken over that whole encoding, so different systems have different digests.",
  over=["inputs", "programs"], q="for every value of every serializable type, in every serialization mode",
  why="Round-trip tests sample a few values with symmetric fields; a field skipped on both sides, two fields swapped, or one variant's tag reused is not sampled.",
  files=["crates/utils/src/serialization.rs", "crates/core/src/constraint_system/mod.rs", "crates/core/src/oracle/multilinear.rs", "crates/core/src/transparent/serialization.rs", "crates/math/src/arith_expr.rs"],
  mech=[("SerializeBytes/DeserializeBytes", "crates/utils/src/serialization.rs"), ("ConstraintSystem::digest", "crates/core/src/constraint_system/mod.rs")],
  tech="writer/reader agreement analysis over the type-checked program: ordered field and tag sequences per variant by value flow", note=NOTE),
 dict(id="C04", title="Merkle openings are bound to the committed root",
  statement="A vector, layer or leaf opening is accepted only if the digest recomputed from exactly the supplied values, position and authentication path equals the committed root (or the already verified layer). Openings with a wrong length, an index out of range, or a path that is not the full tree-depth-minus-layer-depth long are rejected.",
  over=["inputs"], q="for every commitment, tree depth, layer depth, position, batch size and proof bytes a dishonest prover can supply",
  why="Tests open a few honest trees and flip one or two values; a check that is skipped for some depth, batch size or position passes them.",
  files=["crates/core/src/merkle_tree/scheme.rs", "crates/core/src/merkle_tree/binary_merkle_tree.rs"],
  mech=[("verify_opening / verify_layer / verify_vector", "crates/core/src/merkle_tree/scheme.rs"), ("fold_digests_vector_inplace", "crates/core/src/merkle_tree/scheme.rs")],
  tech=MUST, note=NOTE),
 dict(id="C05", title="FRI verifier performs every consistency check at the required soundness",
  statement="A FRI proof is accepted only if, for each of the number of random queries needed for the requested security level, the opened coset of every round oracle is authenticated against its commitment, contains the value carried over from the previous round, and is folded with that round's own challenges down to a value equal to the terminate codeword, which itself must be a constant codeword with the claimed final value. Parameters that cannot reach the security level, wrong numbers of commitments or challenges, and unordered or inconsistent fold arities are rejected.",
  over=["inputs", "configurations"], q="for every FRI parameter set (rates, arities, batch sizes, dimensions) and every transcript a prover may send",
  why="Tests run honest proofs for a few parameter sets; a dishonest codeword, or a query that is checked against the wrong round, is never sampled.",
  files=["crates/core/src/protocols/fri/verify.rs", "crates/core/src/protocols/fri/common.rs"],
  mech=[("FRIVerifier::new/verify/verify_query/verify_last_oracle", "crates/core/src/protocols/fri/verify.rs"), ("FRIParams, calculate_n_test_queries", "crates/core/src/protocols/fri/common.rs")],
  tech=MUST, note=NOTE),
 dict(id="C06", title="Sumcheck-family verifiers check every claim to the last round",
  statement="A (batched, front-loaded, eq-indicator, or univariate-skip zerocheck) sumcheck verification succeeds only if every claimed sum takes part with its own random coefficient, one round polynomial is received and reduced at a fresh challenge per variable, and the final value equals the composition of the reported multilinear evaluations at the sampled point, including the recomputed equality-indicator and Lagrange factors. Claims out of order, missing or surplus evaluations, and calls out of round order are rejected; the point and evaluations returned are exactly the checked ones.",
  over=["inputs", "histories"], q="for every batch of claims, number of variables, composition, and every transcript a prover may send; for the stateful verifier, every call sequence",
  why="Tests run honest transcripts plus a few corrupted ones for a handful of arities; dropping a claim, a round, or one factor from the final check accepts all of them.",
  files=["crates/core/src/protocols/sumcheck/verify_sumcheck.rs", "crates/core/src/protocols/sumcheck/front_loaded.rs", "crates/core/src/protocols/sumcheck/eq_ind.rs", "crates/core/src/protocols/sumcheck/verify_zerocheck.rs", "crates/core/src/protocols/sumcheck/zerocheck.rs"],
  mech=[("batch_verify", "crates/core/src/protocols/sumcheck/verify_sumcheck.rs"), ("BatchVerifier", "crates/core/src/protocols/sumcheck/front_loaded.rs"), ("verify_sumcheck_outputs", "crates/core/src/protocols/sumcheck/eq_ind.rs")],
  tech=MUST, note=NOTE),
 dict(id="C07", title="GKR product and exponentiation reductions reduce every claim soundly",
  statement="Grand-product and exponentiation verification reduces every claimed product or power, through every layer's sumcheck, to evaluation claims on the very columns named in the claim: the layer checks use the layer's own point, the next claims interpolate the reported pair at a fresh challenge, and the exponentiation layers use the prescribed power of the base and bit columns. The claims handed on cover the inputs (exponent bits, bases, multilinears) as well as the exponentiation result column, at the checked points and evaluations.",
  over=["inputs", "configurations"], q="for every set of product and exponentiation claims, sizes, exponent widths, static or dynamic bases, and every transcript",
  why="Tests run honest provers on small sizes; a reduction that loses one claim or uses one wrong layer constant is only exposed by a dishonest prover or a size not sampled.",
  files=["crates/core/src/protocols/gkr_gpa/verify.rs", "crates/core/src/protocols/gkr_exp/batch_verify.rs", "crates/core/src/protocols/gkr_exp/verifiers.rs", "crates/core/src/protocols/gkr_gpa/oracles.rs", "crates/core/src/constraint_system/exp.rs"],
  mech=[("gkr_gpa::batch_verify", "crates/core/src/protocols/gkr_gpa/verify.rs"), ("gkr_exp::batch_verify", "crates/core/src/protocols/gkr_exp/batch_verify.rs")],
  tech=MUST, note=NOTE),
 dict(id="C08", title="Evaluation claims on virtual columns are reduced soundly to committed ones",
  statement="For every kind of oracle, an evaluation claim is accepted only if it equals a value the verifier computes itself, or is passed on with the same value and the correctly restricted, extended or shifted point to the oracle it is derived from (or to a sumcheck over it), and that sub-claim is verified too; a committed column's claim always reaches the opening. A claim marked as a duplicate must equal, in oracle, point and value, one checked in the same round, and verification only ends when no derived claim is pending.",
  over=["inputs", "programs"], q="for every constraint system's oracle graph, every claim, point and proof hint sequence",
  why="Tests cover honest proofs of a few oracle kinds; a branch that forwards the wrong point, drops a sub-claim or believes a hint is accepted by every honest run.",
  files=["crates/core/src/protocols/evalcheck/verify.rs", "crates/core/src/protocols/evalcheck/subclaims.rs", "crates/core/src/protocols/greedy_evalcheck/verify.rs"],
  mech=[("EvalcheckVerifier", "crates/core/src/protocols/evalcheck/verify.rs"), ("greedy_evalcheck::verify", "crates/core/src/protocols/greedy_evalcheck/verify.rs")],
  tech=MUST + ", specialised per oracle variant", note=NOTE),
 dict(id="C09", title="Committed-column claims are ring-switched and opened soundly",
  statement="Every evaluation claim on a committed column, of any tower level, reaches the FRI-based opening of the commitment: each received tensor element is checked against the mixed claimed evaluations of its prefix group, the row-batched evaluations are checked against the same tensor elements, each claim's reduced sumcheck claim multiplies its own committed column with the ring-switch indicator of its own suffix and mixing coefficient, the interleaved sumcheck runs through all rounds, and the final FRI value equals the piecewise evaluation of the packed columns at that point. Claims on columns that are not committed are rejected.",
  over=["inputs", "configurations"], q="for every set of committed columns, levels and sizes, every set of claims and points, and every transcript",
  why="Tests open honest claims for a few column shapes; a claim that is grouped wrongly or loses its check for one tower level is accepted by all of them.",
  files=["crates/core/src/ring_switch/verify.rs", "crates/core/src/ring_switch/common.rs", "crates/core/src/ring_switch/eq_ind.rs", "crates/core/src/piop/verify.rs", "crates/core/src/piop/commit.rs"],
  mech=[("ring_switch::verify", "crates/core/src/ring_switch/verify.rs"), ("EvalClaimSystem", "crates/core/src/ring_switch/common.rs"), ("piop::verify", "crates/core/src/piop/verify.rs")],
  tech=MUST, note=NOTE),
 dict(id="C10", title="Channel balance is enforced for every channel, flush and boundary value",
  statement="The verifier accepts only if, for every channel, the multiset of values pushed equals the multiset pulled: every flush of every table contributes with its direction, its multiplicity and its selectors, masked rows contribute nothing, every boundary value contributes once per multiplicity with its own direction, the two products are taken over fresh challenges sampled after the commitment, and channels with only boundary values are checked too.",
  over=["inputs", "programs"], q="for every constraint system, flush list (any multiplicity, selector set and value width), boundary list and transcript",
  why="Tests balance a few honest channels; a flush or boundary value that is silently left out of a product, or whose direction or multiplicity is ignored, balances in every honest run.",
  files=["crates/core/src/constraint_system/verify.rs", "crates/core/src/constraint_system/channel.rs", "crates/core/src/constraint_system/validate.rs"],
  mech=[("make_flush_oracles, get_flush_dedup_sumcheck_metas, verify_channels_balance", "crates/core/src/constraint_system/verify.rs"), ("validate_witness", "crates/core/src/constraint_system/channel.rs")],
  tech=MUST, note=NOTE),
 dict(id="C11", title="The top-level verifier composes every sub-protocol on the right claims",
  statement="constraint_system::verify accepts only after all of: the table sizes are valid for the system, every zero constraint of every table set with rows entered the zerocheck, every non-zero column had its product checked to be non-zero, every flush entered the grand products, every exponentiation was reduced, all resulting evaluation claims (from every one of those reductions) went through greedy evalcheck, and every committed claim was opened against the one commitment read from the proof. No sub-verifier's Result is discarded.",
  over=["inputs", "programs"], q="for every constraint system, table size vector, boundary set and proof",
  why="Tests verify honest proofs of a few systems; dropping one reduction's claims on the way to the next step changes nothing for an honest prover.",
  files=["crates/core/src/constraint_system/verify.rs", "crates/core/src/constraint_system/mod.rs", "crates/core/src/constraint_system/exp.rs"],
  mech=[("verify", "crates/core/src/constraint_system/verify.rs"), ("get_zerocheck_claims", "crates/core/src/protocols/sumcheck/zerocheck.rs")],
  tech=MUST + "; unused-Result reachability over the verifier's call graph", note=NOTE),
 dict(id="C12", title="A malformed proof makes the verifier return an error, never panic",
  statement="Nothing a prover puts in a proof makes the verifier panic or index out of range: reads of the proof and sub-verifier results are propagated as errors and never unwrapped, integers chosen by the prover (claim hints, duplicate-claim indices, constraint-set positions) are range-checked before they index, slice or size anything, received table sizes are validated against the constraint system before their first use, and no assertion depends on the value of a received field element.",
  over=["inputs"], q="for every proof byte string, against every constraint system",
  why="Tests send honest proofs, or honest proofs with a few flipped bytes; an out-of-range index sent by a dishonest prover is not sampled.",
  files=["crates/core/src/constraint_system/verify.rs", "crates/core/src/protocols/evalcheck/verify.rs", "crates/core/src/protocols/evalcheck/evalcheck.rs", "crates/core/src/protocols/evalcheck/subclaims.rs"],
  mech=[("verify_multilinear_subclaim, deserialize_evalcheck_proof", "crates/core/src/protocols/evalcheck/verify.rs"), ("check_table_sizes", "crates/core/src/constraint_system/mod.rs")],
  tech="taint analysis of prover-chosen integers over the verifier's call graph, with dominating range-check facts; unwrap provenance", note=NOTE),
 dict(id="C16", title="M3 tables compile to exactly the constraints they declare",
  statement="ConstraintSystem::compile keeps everything the table builders declared and nothing else: every zero assertion becomes a zero constraint on the same expression over the oracles of its own columns, every push or pull becomes a flush with its own columns, channel, direction, multiplicity and selectors, every non-zero assertion and every static or dynamic exponentiation of every table is included, every derived column (shifted, packed, projected, selected, zero-padded, linear combination, constant, fixed, structured) becomes the oracle of that kind with the declared parameters, size rules are carried over, and the expression operators build the polynomial they name. The builder refuses parameters that do not fit the row or the table.",
  over=["inputs", "programs"], q="for every M3 table definition, partition and column kind",
  why="Tests compile a few tables; a constraint or flush left out, or a parameter lost for one column kind, still verifies every honest trace.",
  files=["crates/m3/src/builder/constraint_system.rs", "crates/m3/src/builder/table.rs", "crates/m3/src/builder/expr.rs", "crates/m3/src/builder/structured.rs"],
  mech=[("compile, add_oracle_for_column, translate_constraint_set", "crates/m3/src/builder/constraint_system.rs"), ("TableBuilder, Table", "crates/m3/src/builder/table.rs"), ("Expr operators", "crates/m3/src/builder/expr.rs")],
  tech="value-flow and value-form analysis over MIR of every construction and recording site, with control-dependence on the recording sites", note=NOTE),
 dict(id="C17", title="M3 gadgets constrain their outputs to the operation they name",
  statement="The columns a gadget returns are bound by its constraints to the documented function of its inputs, for every bit position: U32Add, U32AddStacked, WideAdd and Incr (sum and carry chain, carry-in zero or the given bit), U32Sub and WideSub (difference and borrow chain), Mul, MulUU32, MulUU64, MulSS32, MulSU32 (exponent check with the low-bit check that excludes wrap-around, and sign corrections), TwosComplement and SignConverter, DivUU32 and DivSS32 (quotient times divisor plus remainder in 64 bits, divisor non-zero, remainder smaller in magnitude than the divisor and with the dividend's sign unless zero), BarrelShifter, LookupProducer and the bit-and and increment lookups, the SHA-256 sigma functions and rounds, the Groestl S-box inverse, and the Merkle-tree node and root tables (what they push and pull). No such constraint is conditional on anything but the existence of the column it binds.",
  over=["inputs", "programs"], q="for every witness a prover may supply, every flag combination and every bit position of the gadget",
  why="Gadget tests fill honest witnesses; an unconstrained carry, borrow or output bit passes all of them and lets a prover choose the result.",
  files=["crates/m3/src/gadgets/add.rs", "crates/m3/src/gadgets/sub.rs", "crates/m3/src/gadgets/mul.rs", "crates/m3/src/gadgets/div.rs", "crates/m3/src/gadgets/barrel_shifter.rs", "crates/m3/src/gadgets/lookup.rs", "crates/m3/src/gadgets/indexed_lookup/and.rs", "crates/m3/src/gadgets/indexed_lookup/incr.rs", "crates/m3/src/gadgets/hash/sha256.rs", "crates/m3/src/gadgets/hash/groestl.rs", "crates/m3/src/gadgets/merkle_tree/mod.rs"],
  mech=[("WideAdd, Incr, U32Add", "crates/m3/src/gadgets/add.rs"), ("U32Sub, WideSub", "crates/m3/src/gadgets/sub.rs"), ("Mul*, SignConverter", "crates/m3/src/gadgets/mul.rs"), ("DivUU32, DivSS32", "crates/m3/src/gadgets/div.rs")],
  tech="value forms of every constraint as characteristic-2 polynomials over MIR, instantiated at every bit position and compared with the gadget's equations; control dependence of the constraint sites", note=NOTE),
 dict(id="C18", title="Constraint expressions keep the polynomial they denote",
  statement="Every operation on constraint expressions (ArithExpr, ArithCircuit, ArithCircuitPoly) preserves the polynomial the expression denotes: evaluation combines exactly the operands of each Add, Mul, Pow, Const and Var node; sums, products and powers of expressions, conversion between tree and circuit and between fields, variable remapping and substitution keep every node with its operands; the degree is the sum, maximum or multiple of its operands' degrees and the leading term that of the operands' leading terms; the linear normal form of an expression is accepted only if it is linear and carries every coefficient and the constant; constant folding rewrites a step only by an algebraic identity its guards establish (x^0 is 1, nested exponents are multiplied only if the product fits); two steps are merged only if they are structurally equal in every operand; removal of unused steps keeps and renumbers every step that is used; and the compiled form remembers for each node the slot that holds its value, overwrites a slot in place only if no other step refers to it, computes each step's own operation one by one and in batches over whole rows, and refuses evaluation points of the wrong size.",
  over=["inputs"], q="for every expression, every sharing of its subexpressions and every evaluation point",
  why="Tests evaluate a handful of small expressions; a wrong rewriting under an unusual combination of constants, sharing, exponents or shared slots changes which statement is proved, and prover and verifier silently agree on the wrong one.",
  files=["crates/math/src/arith_expr.rs", "crates/fast_compute/src/arith_circuit.rs", "crates/core/src/composition/index.rs", "crates/core/src/composition/product_composition.rs"],
  mech=[("ArithCircuit::{evaluate, degree, leading_term, remap_vars, const_subst, optimize_in_place}, SparseLinearNormalForm, StepNode", "crates/math/src/arith_expr.rs"), ("convert_circuit_steps, ArithCircuitPoly::{evaluate, batch_evaluate}", "crates/fast_compute/src/arith_circuit.rs")],
  tech="value forms over MIR specialised to each node variant compared with the operation's definition; guard facts of every rewriting matched against algebraic identities; slot and number bookkeeping by counting pushes on all paths", note=NOTE),
]

NA = [
 dict(id="C30", title="Field arithmetic: every implementation computes the same binary tower field",
  statement="Addition, multiplication, squaring, inversion and conversion of field elements agree between all representations (tower, AES tower, POLYVAL) and all packed and architecture-specific implementations, and satisfy the field axioms.",
  over=["inputs", "configurations"], q="for every pair of elements, packing width and target architecture",
  why="Tests sample random elements on one architecture.",
  files=["crates/field/src/binary_field.rs", "crates/field/src/arch"], mech=[("BinaryField, PackedField, arch strategies", "crates/field/src")],
  reason="Equality of bit-level arithmetic over all operands (table lookups, intrinsics, recursive Karatsuba) is a numeric fact: it needs a solver, a proof or enumeration, not dataflow; and only one architecture's code is compiled here."),
 dict(id="C31", title="NTT: forward and inverse transforms are inverse and match the evaluation domain",
  statement="The additive NTT evaluates the novel-basis polynomial on the stated coset and its inverse undoes it, for every transform shape, coset and implementation (single-threaded, multithreaded, precomputed twiddles).",
  over=["inputs", "configurations", "schedules"], q="for every size, coset, batch shape and thread count",
  why="Tests cover some small shapes.",
  files=["crates/ntt/src"], mech=[("AdditiveNTT", "crates/ntt/src/additive_ntt.rs")],
  reason="The butterfly network's result is a numeric identity over symbolic index arithmetic (strides, interleavings, packed lanes); no value form of a nested in-place butterfly loop decides it."),
 dict(id="C32", title="Hash implementations equal their specifications",
  statement="The Groestl-256, SHA-256 compression, Vision and multi-lane digests produce the digest of the specification for every message, independent of how it is split into updates and of the number of parallel lanes.",
  over=["inputs"], q="for every message and split",
  why="Tests use a few vectors.",
  files=["crates/hash/src"], mech=[("Groestl256, VisionHasherDigest, ParallelDigest", "crates/hash/src")],
  reason="Conformity of permutations with tables and SIMD byte shuffles is a numeric fact about constants and bit operations that needs execution, proof or a solver."),
 dict(id="C33", title="Completeness: an honest prover's proof of a true statement verifies",
  statement="For every valid constraint system and satisfying witness the prover terminates with a proof the verifier accepts, on every compute backend and thread count.",
  over=["inputs", "programs", "configurations", "schedules"], q="for every constraint system, witness, backend and thread count",
  why="Tests prove a handful of systems.",
  files=["crates/core/src/constraint_system/prove.rs", "crates/core/src/protocols"], mech=[("prove", "crates/core/src/constraint_system/prove.rs")],
  reason="It is an equality between the values the prover computes and those the verifier's equations demand (folding, interpolation, NTT encoding): a numeric property of runtime data. A lost or wrong message also fails in every existing end-to-end test."),
 dict(id="C34", title="Fast and reference compute layers, and parallel and serial runs, agree",
  statement="Every operation of the fast compute layer and of the hardware-abstraction backends returns what the reference CPU layer returns, and the result does not depend on the number of threads.",
  over=["inputs", "schedules", "configurations"], q="for every operation, input shape and thread count",
  why="The shared layer tests run a few shapes.",
  files=["crates/fast_compute/src/layer.rs", "crates/compute/src/cpu/layer.rs", "crates/hal/src"], mech=[("ComputeLayer implementations", "crates/fast_compute/src/layer.rs")],
  reason="Functional equality of two differently structured numeric kernels (packed, chunked, parallel reductions) has no sound static argument in reach; the part that is structural (compiled expressions) is claimed as C18."),
 dict(id="C35", title="The protocols' soundness error is at most the stated security level",
  statement="A prover without a satisfying witness convinces the verifier with probability at most 2^-security_bits.",
  over=["inputs", "histories"], q="for every adversarial prover strategy",
  why="No test runs adversarial provers.",
  files=["crates/core/src/constraint_system/verify.rs"], mech=[("verify", "crates/core/src/constraint_system/verify.rs")],
  reason="A probabilistic statement about adversaries. Its structural part, that every check the protocols call for is made on the right values, is claimed as C01-C12."),
]
