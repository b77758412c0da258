"""Opening: evaluation claims on committed columns are ring-switched and opened against the commitment."""
from engine import *

EXPLAIN = ("Must-facts and value forms on the accepting paths of the ring-switch and PIOP verifiers: tensor elements against the batched claims, row-batched sums against tensor elements, "
           "transparent evaluations at the right suffix of the challenges, the interleaved sumcheck run to completion on all rounds, and the FRI value against the piecewise evaluation.")

E = "EvalcheckMultilinearClaim"


MINIMUMS = True      # table sizes and round counts legitimately go through `min` here


def ring(C):
    """ring switching"""
    f = C.fn("ring_switch::verify::verify")
    C.need_cmp("ring.tensor", "each received tensor element evaluates, at the claims' prefix, to the mixed claimed evaluations", f, "==",
               ["EvalClaimPrefixDesc.prefix", ("READ:msg", "TensorAlgebra.elems"), ("fn:evaluate", "call:evaluate")], [E + ".eval", "SAMPLE", "EvalClaimSystem.eval_claim_to_prefix_desc_index", "op:Mul", "!READ"], forall=True, dom=["EvalClaimSystem.prefix_descs"])
    C.need_cmp("ring.rows", "the row-batched evaluations sum, per prefix, to the row-batched tensor element", f, "==",
               [("READ:msg", "TensorAlgebra.elems"), "SAMPLE", ("fn:fold_vertical", "call:fold_vertical"), "!EvalClaimSystem.eval_claim_to_prefix_desc_index"], ["READ:msg", "EvalClaimSystem.eval_claim_to_prefix_desc_index"], forall=True)
    T = C.terms(True)
    mix = "into_expansion(expand(sample_vec@bb(log2_ceil_usize(len(arg1.sumcheck_claim_descs)))))"
    for nm, k in (("verify_receive_tensor_elems", 1), ("make_ring_switch_eq_inds", 3)):
        for fr, bb, t in C.sites_under(C.root(f), C.named(nm))[:2]:
            a = str(T.arg(fr, bb, k))
            at = C.fl.arg(fr, bb, k)
            C.ob(f"ring.mixing.{nm}", "the mixing coefficients are the expansion of fresh challenges, enough for all the claims", judge(a, (mix,)) is not False and "from_elem(sample" not in a and match(["SAMPLE", "EvalClaimSystem.sumcheck_claim_descs", "!~call:from_elem|fn:from_elem|call:repeat.*|call:resize|mut:resize|item:ZERO"], at), f, sample=[a[:120]], detail=a[:200])
    for fr, bb, t in C.sites_under(C.root(f), C.named("make_ring_switch_eq_inds"))[:2]:
        a, at = str(T.arg(fr, bb, 2)), C.fl.arg(fr, bb, 2)
        C.ob("ring.rowcoeffs", "the row-batching coefficients are the expansion of fresh challenges, enough for the largest prefix", match(["SAMPLE", "EvalClaimSystem.prefix_descs", "!call:min", "!~call:from_elem|fn:from_elem|call:repeat.*|call:resize|mut:resize|item:ZERO|call:concat"], at), f, sample=[a[:120]], detail=a[:200])
    rd = r"read_scalar_slice@bb\(len\(arg1\.sumcheck_claim_descs\)\)"
    sc = str(T.ret(C.root(f), ("sumcheck_claims",)))
    for part, rx in (("n_vars", r"len\(index\(arg1\.suffix_descs, each\(arg1\.sumcheck_claim_descs\)\.suffix_desc_idx\)\.suffix\)|len\(arg1\.suffix_descs(\.suffix)?\[each\(arg1\.sumcheck_claim_descs\)\.suffix_desc_idx\](\.suffix)?\)"),
                     ("committed", r"each\(arg1\.sumcheck_claim_descs\)\.committed_idx"), ("transparent", r"pos\(.*\)"), ("sum", rf"each\({rd}\)")):
        m = re.search(r"PIOPSumcheckClaim\{(.*?)\}\|\)\)", sc)
        fr = [f2 for _, _, nm, f2 in C.closures(f, "map") if re.match(r"PIOPSumcheckClaim\{", str(T.ret(f2)))]
        for f2 in fr[:1]:
            g = str(T.ret(f2, (part,)))
            C.ob(f"ring.claim.{part}", f"each claim is reduced to a sumcheck claim with the right {part}", judge(g, rx, rx=True) is not False, f, sample=[g], detail=g[:200])
    C.need_ret("ring.claims", "every claim is reduced", f, ("sumcheck_claims",), ["EvalClaimSystem.sumcheck_claim_descs", "READ:msg", C.TRUNC])
    C.need_ret("ring.transparents", "every reduced claim has its ring-switch indicator", f, ("transparents",), ["EvalClaimSystem.sumcheck_claim_descs", "EvalClaimSystem.suffix_descs", "SAMPLE", C.TRUNC])
    g = C.fn("ring_switch::verify::make_ring_switch_eq_inds")
    for fr, bb, t in C.sites_under(C.root(g), C.named("new")):
        if "RingSwitchEqInd" in callee_name(t[1]):
            a = [str(T.arg(fr, bb, k)) for k in range(3)]
            ok = all(judge(x, rx, rx=True) is not False for x, rx in zip(a, (r"arg2\.suffix\[each\(arg1\)\.suffix_desc_idx\]|index\(arg2, each\(arg1\)\.suffix_desc_idx\)\.suffix", "arg3", r"each\(arg4\)")))
            C.ob("ring.eqind", "the indicator is over the claim's suffix, the shared row coefficients and the claim's own mixing coefficient", ok, g, sample=a, detail=" / ".join(a)[:300])
    lv = {}
    for f2, bb, t in C.sites_under(C.root(g), C.named("new")):
        if "RingSwitchEqInd" in callee_name(t[1]):
            lv[bb] = t[1].get("ga", [])
    # subfield by level: the switch value and the type argument
    h = [x for x in C.prog.fns.values() if x.spath.endswith("ring_switch::verify::make_ring_switch_eq_ind")]
    for x in h:
        want = {"0": "1b", "3": "8b", "4": "16b", "5": "32b", "6": "64b", "7": "128b"}
        for b in x.blocks:
            if b["t"][0] == "switch" and len(b["t"][2]) >= 5:
                for v, tb in b["t"][2]:
                    seen, todo, ty = set(), [tb], None
                    while todo and ty is None:
                        y = todo.pop(0)
                        if y in seen:
                            continue
                        seen.add(y)
                        tt = x.blocks[y]["t"]
                        if tt[0] == "call" and "RingSwitchEqInd" in callee_name(tt[1]):
                            ty = str(tt[1].get("ga", ["?"])[0])
                            break
                        todo += x._succs(y) if tt[0] != "switch" else []
                    if ty is not None:
                        m = re.search(r"BinaryField(\d+)b", ty) or re.search(r"\bB(\d+)\b", ty)
                        C.ob(f"ring.level{v}", f"claims on columns of tower level {v} use the level-{v} subfield", m is None or int(m.group(1)) == 1 << int(v), x, sample=[ty], detail=ty)
    f = C.fn("ring_switch::common::group_claims_by_eval_point")
    C.need_var("group.committed", "only committed columns are opened", f, "MultilinearPolyVariant", "Committed", forall=True, dom=["arg:2"])
    K = r"checked_sub\(item:TOWER_LEVEL, index\(arg1\.oracles, each\(arg2\)\.id\.0\)\.tower_level\)"
    PT = r"index\(each\(arg2\)\.eval_point\.data, each\(arg2\)\.eval_point\.range\)"
    for adt, part, rx in (("EvalClaimPrefixDesc", "prefix", rf"index\({PT}, RangeTo\{{end={K}\}}\)"), ("EvalClaimSuffixDesc", "suffix", rf"index\({PT}, RangeFrom\{{start={K}\}}\)"), ("EvalClaimSuffixDesc", "kappa", K)):
        for fr, bb, t in C.sites_under(C.root(f), C.named("push")):
            if len(t[2]) == 2 and any(x.startswith(adt + "{") for x in alts(T.arg(fr, bb, 1))):
                al = {x for x in alts(T.arg(fr, bb, 1, (part,)))}
                main = [x for x in al if re.fullmatch(rx, x)]
                bad = [x for x in al if judge(x, (rx, r"index\(promoted\(\), RangeFull\{\}\)"), rx=True) is False]
                C.ob(f"group.{adt[9:]}.{part}", f"the {part} is the part of the point {'below' if part == 'prefix' else 'from'} kappa = top level - column level", main and not bad, f, sample=list(al)[:1], detail="; ".join(al)[:300])
    C.need_sites("group.pad", "a point shorter than kappa is padded with zeros to kappa", f, "resize", optional=True, rx={1: K, 2: "0"}, char2=True)
    for fr, bb, nm, f2 in C.closures(f, "position", "find"):
        r = {x for l in (C.fa.gexits(f2, True) or {}).values() if l.kind in ("cmp", "pred") for x in (l.lhs | l.rhs if l.kind == "cmp" else l.arg(0) | l.arg(1) if len(l.args()) > 1 else l.arg(0))}
        cut = [x for x, _, t in C.sites_under(f2, C.named("len", "first", "last", "zip", "get", "starts_with", "ends_with", "take", "skip", "is_empty")) if x.fn.file == f.file]
        if fr.fn.file == f.file:
            C.ob("group.same_whole", "claims share a point part only if all its coordinates agree", not cut, f, detail=f"the comparison looks at a part of the point only: {cut[:1]}")
        if "EvalClaimSuffixDesc.suffix" in r or "EvalClaimSuffixDesc.kappa" in r:
            C.ob("group.same_suffix", "claims share a suffix only if suffix and kappa agree", {"EvalClaimSuffixDesc.suffix", "EvalClaimSuffixDesc.kappa"} <= r, f, sample=[sorted(r)[:6]], detail=str(sorted(r))[:300])
        elif "EvalClaimPrefixDesc.prefix" in r:
            C.ob("group.same_prefix", "claims share a prefix only if it is equal", True, f)
    f = C.fn("EvalClaimSystem::new")
    C.need_ret("system.all", "every evaluation claim enters the system", f, ("sumcheck_claim_descs",), ["arg:4", C.TRUNC, "!~mut:(dedup.*|retain.*|truncate|pop|remove|swap_remove)"])
    C.need_any("system.committed", "claims on columns that are not committed are rejected", f, [
        lambda: C.need_var("", "", f, "MultilinearPolyVariant", "Committed", forall=True), lambda: C.need_ok("", "", f, "is_committed", kind=("pred",), val=True, forall=True)])
    C.need_ok("system.index", "the claim is opened at its own column's commit index", f, "get", forall=True, args={0: ["arg:3"], 1: [E + ".id"]}, dom=["arg:4"])
    for fr, bb, nm, f2 in C.closures(f, "map"):
        for part, rx in (("eval_claim", r"each\(.*\)"), ("suffix_desc_idx", r"(phi\{.*\|)?(index\()?GROUP\.3(, |\[)pos\([^|]*\)[\])](\|.*\})?")):
            if "PIOPSumcheckClaimDesc{" in str(T.ret(f2)):
                g = squash(T.ret(f2, (part,)), group_claims_by_eval_point="GROUP")
                C.ob(f"system.{part}", f"the claim description has the claim's own {part}", judge(g, rx, rx=True) is not False and not re.search(r"(GROUP\.3, |\[)(min|max|saturating_sub)\(", g), f, sample=[g[:100]], detail=g[:200])


def piop(C):
    """PIOP"""
    f = C.fn("piop::verify::verify")
    C.need_cmp("piop.final", "the FRI value equals the piecewise combination of the committed evaluations at the challenges", f, "==", ["fn:evaluate_piecewise_multilinear", "BatchVerifier.claims"] if False else [("fn:evaluate_piecewise_multilinear", "call:evaluate_piecewise_multilinear"), "SAMPLE", "READ:msg", "arg:1"],
               ["READ:dec", "!fn:evaluate_piecewise_multilinear"], forall=False)
    C.need_ok("piop.transparent", "the transparent evaluations are verified", f, "verify_transparent_evals", forall=False, args={2: ["READ:msg"], 3: ["arg:5"], 4: ["SAMPLE", "!READ"]})
    C.need_ok("piop.interleaved", "the interleaved sumcheck and FRI verification succeed for the given commitment and parameters", f, "verify_interleaved_fri_sumcheck", forall=False, args={0: ["CommitMeta.total_vars"], 1: ["arg:3"], 2: ["arg:2"], 3: ["arg:6"], 4: ["arg:4"]})
    C.need_ok("piop.descs", "all claims are grouped", f, "make_sumcheck_claim_descs", forall=False, args={0: ["arg:1"], 1: ["arg:5"], 2: ["arg:6"]})
    T = C.terms()
    for fr, bb, nm, f2 in C.closures(f, "filter", "filter_map", "skip_while", "take_while"):
        if fr.fn is f:
            g = squash(T.ret(f2), make_sumcheck_claim_descs="DESCS")
            C.ob("piop.keep", "only sizes without committed columns are left out", judge(g, r"Not\(is_empty\(each\(DESCS\)\.committed_indices\)\)|Not\(is_empty\(.*\.committed_indices\)\)|Ne\(.*len\(.*committed_indices\).*\)|Lt\(0, len\(.*committed_indices\)\)", rx=True) is not False and "transparent_indices" not in g and "composite_sums" not in g, f, sample=[g], detail=g[:200])
    C.need_sites("piop.claim", "the sumcheck of each size has all its committed and transparent multilinears and all its sums", f, "new", optional=True, args={1: ["SumcheckClaimDesc.committed_indices", "SumcheckClaimDesc.transparent_indices", "op:Add"], 2: ["SumcheckClaimDesc.composite_sums", C.TRUNC.replace("filter|", "")]},
                 pred=lambda C, fr, bb, t: strip_generics(callee_name(t[1])).endswith("SumcheckClaim::new") and fr.depth <= 1 and len(t[2]) == 3 and fr.fn.name != "constraint_set_sumcheck_claims")
    ss = [x for x in C.sites_under(C.root(f), C.named("evaluate_piecewise_multilinear"))]
    for fr, bb, t in ss:
        a = C.fl.arg(fr, bb, 0)
        C.ob("piop.piecewise.point", "the piecewise evaluation is at the sumcheck challenges", match(["SAMPLE", "!READ"], a), f)
        C.ob("piop.piecewise.pieces", "over the numbers of committed columns by size", match(["SumcheckClaimDesc.committed_indices", C.TRUNC], C.fl.arg(fr, bb, 1)), f)
        g2 = str(C.terms(True).arg(fr, bb, 2))
        C.ob("piop.piecewise.order", "the committed evaluations are taken in descending order of size", "reverse" in g2 or "rev(" in g2 or judge(g2, "reverse") is None and "verify_transparent_evals" not in g2, f, sample=[g2[:100]], detail=g2[:200])
    C.ob("piop.piecewise.site", "the piecewise evaluation is computed", ss, f)
    f = C.fn("piop::verify::verify_transparent_evals")
    C.need_cmp("trans.eq", "every transparent evaluation equals the one the verifier computes", f, "==", ["arg:3", "!arg:5", ops("Sub") ], ["arg:4", "arg:5", ("fn:evaluate", "call:evaluate")], forall=True)
    T = C.terms(True)
    for fr, bb, t in C.sites_under(C.root(f), C.named("evaluate")):
        if fr.depth > 1 or "MultivariatePoly" not in callee_name(t[1]):
            continue
        a, b = str(T.arg(fr, bb, 0)), str(T.arg(fr, bb, 1))
        C.ob("trans.poly", "the transparent polynomials are those of the claim's size", judge(a, (r"each\(index\(arg4, each\(arg2\)\.1\.transparent_indices\)\)", r"index\(arg4, each\(arg2\)\.1\.transparent_indices\)\[.*\]"), rx=True) is not False, f, sample=[a], detail=a[:200])
        b2 = b.replace("mut:deref_mut(arg5;)", "arg5")
        good = ("index(mut:reverse(arg5;), RangeFrom{start=-1*each(arg2).0 + len(arg5)})", "index(collect(rev(arg5)), RangeFrom{start=-1*each(arg2).0 + len(arg5)})", "collect(rev(index(arg5, RangeTo{end=each(arg2).0})))")
        C.ob("trans.point", "they are evaluated at the reversed challenges of their rounds", judge(b2, good) is not False, f, sample=[b2], detail=b2[:200])
    for fr, bb, t in C.sites_under(C.root(f), C.named("extend", "extend_from_slice", "push")):
        if fr.fn.file == f.file and len(t[2]) > 1 and "arg:3" in C.fl.arg(fr, bb, 1):
            C.ob("trans.pure", "the committed evaluations are kept as they are", match(["!item:ZERO", "!item:ONE", ops("Sub")], C.fl.arg(fr, bb, 1)), f, sample=[fr.loc(bb)])
    C.need_all("trans.push", "no committed evaluation is left out", f, ["arg:3"])
    C.need_sites("trans.committed", "the committed evaluations of a size are the first ones of its claim", f, ("extend_from_slice", "extend"), optional=True, rx={1: re.escape("index(each(arg3), RangeTo{end=len(each(arg2).1.committed_indices)})")})
    C.need_ret("trans.out", "all committed evaluations are returned", f, [], ["arg:3", "SumcheckClaimDesc.committed_indices", "!~adapt:(take|skip(=1)?|step_by|filter|truncate|dedup)"])
    f = C.fn("piop::verify::verify_interleaved_fri_sumcheck")
    C.need_ok("inter.rounds", "one round proof per round", f, "receive_round_proof", forall=True, dom=["arg:1"])
    C.need_ok("inter.finish_round", "every round is finished with a fresh challenge", f, "finish_round", forall=True, dom=["arg:1"], args={1: ["SAMPLE", "!READ"]})
    C.need_ok("inter.finish", "the sumcheck ends in a zero residue with no claim left", f, "finish", forall=False)
    C.need_ok("inter.fri", "the FRI proof verifies", f, "verify", forall=False, pred=lambda l: "FRIVerifier" in callee_name(l.fr.fn.blocks[l.bb]["t"][1]))
    C.need_ok("inter.fri_new", "FRI is run for the codeword commitment, the received round commitments and all the challenges", f, "new", forall=False,
              args={0: ["arg:2"], 1: ["arg:3"], 2: ["arg:5", "!READ"], 3: ["READ:msg"], 4: ["SAMPLE", "!READ", C.TRUNC]}, pred=lambda l: "FRIVerifier" in callee_name(l.fr.fn.blocks[l.bb]["t"][1]))
    C.need_sites("inter.claims", "the sumcheck is over the given claims", f, "new", rx={0: "arg4"}, pred=lambda C, fr, bb, t: "front_loaded::BatchVerifier" in callee_name(t[1]))
    C.need_all("inter.comms", "every round commitment received is kept", f, ["READ:msg", "!BatchVerifier.claims", "!arg:4"], allow=[G("ok"), G("pred", ("is_some", "is_some_and")), Gcmp(("==", "!="), [], ["~.*arities.*|FRIParams.*"]), Gcmp(("==", "!="), ["op:Add"], [])])
    C.need_ret("inter.fri_final", "the FRI value returned is the verified one", f, ("fri_final",), ["READ:dec"])
    C.need_ret("inter.evals", "the evaluations returned are the checked ones", f, ("multilinear_evals",), ["READ:msg", "arg:4"])
    C.need_ret("inter.challenges", "the challenges returned are the sampled ones", f, ("challenges",), ["SAMPLE", "!READ"])
    f = C.fn("piop::verify::make_sumcheck_claim_descs")
    for k in ("committed", "transparent"):
        C.need_ok(f"descs.{k}", f"a claim whose {k} index is not of its size is rejected", f, "contains", kind=("pred",), val=True, forall=True, dom=["arg:3"], args={0: [f"SumcheckClaimDesc.{k}_indices"], 1: [f"PIOPSumcheckClaim.{k}"]}) or None
    C.need_exec("descs.push", "every claim is added with its sum", f, "push", forall=True, dom=["arg:3"], args={1: ["PIOPSumcheckClaim.sum"]})
    for fr, bb, t in C.sites_under(C.root(f), C.named("new")):
        if "IndexComposition" in callee_name(t[1]):
            n, a = (squash(T.arg(fr, bb, k), index_mut="D") for k in (0, 1))
            C.ob("descs.width", "the composition ranges over all multilinears of the size", judge(n, ("len(D.committed_indices) + len(D.transparent_indices)",)) is not False, f, sample=[n])
            # the coefficients of a difference are kept: arithmetic is in characteristic 0 here
            a = squash(C.terms().arg(fr, bb, 1), index_mut="D")
            good = ("array(-1*D.committed_indices.start + each(arg3).committed,-1*D.transparent_indices.start + each(arg3).transparent + len(D.committed_indices))",)
            norm = "array(" + ",".join(" + ".join(sorted(x.split(" + "))) for x in a[6:-1].split(",")) + ")"
            want = "array(" + ",".join(" + ".join(sorted(x.split(" + "))) for x in good[0][6:-1].split(",")) + ")"
            C.ob("descs.positions", "the claim multiplies its own committed and transparent multilinears", judge(norm, want) is not False, f, sample=[norm], detail=norm[:300])
    f = C.fn("piop::commit::make_oracle_commit_meta")
    NP = "saturating_sub(each(arg1.oracles).n_vars + each(arg1.oracles).tower_level, item:TOWER_LEVEL)"
    got = [str(C.terms().arg(fr, bb, 1, ("n_packed_vars",))) for fr, bb, t in C.sites_under(C.root(f), C.named("set")) if "CommitIDFirstPass" in str(C.terms().arg(fr, bb, 2 if len(t[2]) > 2 else 1))]
    got = [str(C.terms().arg(fr, bb, 2, ("n_packed_vars",))) for fr, bb, t in C.sites_under(C.root(f), C.named("set")) if len(t[2]) > 2 and "CommitIDFirstPass" in str(C.terms().arg(fr, bb, 2))]
    for g in got:
        C.ob("meta.packed", "a committed column takes n_vars + level - top level packed variables", judge(g, (NP, NP.replace("n_vars + each(arg1.oracles).tower_level", "tower_level + each(arg1.oracles).n_vars"))) is not False, f, sample=[g], detail=g[:200])


def eqind(C):
    """ring-switch indicator"""
    f = C.fn("evaluate", trait="MultivariatePoly", self_ty="RingSwitchEqInd")
    C.need_ret("eq.value", "the indicator value depends on the row and mixing coefficients", f, [], ["RingSwitchEqInd.row_batch_coeffs", "RingSwitchEqInd.mixing_coeff"])
    for fr, bb, nm, f2 in C.closures(f, "fold"):
        for fn_, want in (("scale_vertical", "RingSwitchEqInd.z_vals"), ("scale_horizontal", "arg:2")):
            for g, b2, t in C.sites_under(f2, C.named(fn_), closures=False):
                if g.fn.name.startswith("scale_"):
                    continue
                a = str(C.terms().arg(g, b2, 1))
                C.ob(f"eq.{fn_}", f"the tensor is multiplied ({fn_}) by the coordinates of {'the suffix' if fn_ == 'scale_vertical' else 'the query'}", judge(a, r"each\(arg1\.z_vals\)" if fn_ == "scale_vertical" else r"each\(arg2\)", rx=True) is not False, f, sample=[a], detail=a[:200])


def piecewise(C):
    """piecewise evaluation"""
    f = C.fn("evaluate_piecewise_multilinear", crate="binius_math")
    C.need_cmp("piece.count", "one evaluation per piece", f, "==", ["arg:3", "len"], ["arg:2", "op:sum"], forall=False)
    C.need_cmp("piece.fits", "the pieces fit in the hypercube of the point", f, "<=", ["arg:2", "op:sum", "op:Shl"], ["arg:1", "len", "int:1", ints(1)], forall=False)
    f = C.fn("RingSwitchEqInd::new")
    C.need_cmp("eq.rows", "there is a row coefficient for every row of the extension", f, "<=", ["item:DEGREE"], ["RowBatchCoeffs.coeffs", "len"], forall=False)


OBLIGATIONS = [ring, piop, eqind, piecewise]
MIN_OBLIGATIONS = 40
