"""Data that bypasses Fiat-Shamir (decommitments) is accepted only after it was authenticated against a commitment."""
from engine import *
from cond import conds_at

EXPLAIN = ("Every site below the verifier that reads from an unobserved (decommitment) reader is found; the value read must reach, as data operand, a Merkle verification that must succeed "
           "on every accepting path of the function that reads it, or the site lies inside the Merkle opening verification itself.")
DATA = {"verify_vector": (2,), "verify_layer": (3,), "verify_opening": (2,)}


def leaf(fl, fr, bb, c):
    r = transcript_leaf(fl, fr, bb, c)
    if r is not None and any(a == "READ:dec" for a in r[0]):
        return set(r[0]) | {f"dec@{fr.fn.id}:{bb}"}, r[1]
    return r


def dec(C):
    """every unobserved read is authenticated"""
    D = C.with_(leaf=leaf)
    v = D.fn("constraint_system::verify::verify")
    f = D.fn("FRIVerifier::verify")
    sites, inside, direct = {}, 0, []
    for root in (D.root(v), D.root(f)):
        for fr, bb, t in D.sites_under(root, lambda c: "fn" in c and "TranscriptReader" in callee_name(c) and last_seg(callee_name(c)).startswith("read") and last_seg(callee_name(c)) != "read_debug"):
            if "dec" not in reader_kind(D.fl, fr, bb):
                continue
            if any("MerkleTreeScheme" in (x.trait or "") for x in frames(fr)):
                inside += 1
                continue
            sites.setdefault((fr.fn.file, fr.loc(bb)), []).append((fr, bb))
    D.ob("dec.sites", "unobserved reads below the verifier were found", sites, f, sample=sorted(k[1] for k in sites))
    ver = []
    for l in D.facts(f):
        if l.kind in ("ok",) and l.name in DATA:
            at = set()
            for k in DATA[l.name]:
                if k < len(l.args()):
                    at |= l.arg(k)
            ver.append((l, at))
    for (file, loc), ss in sorted(sites.items()):
        ok, skipped = [], []
        for fr, bb in ss:
            tag = next((a for a in D.fl.leaf(D.fl, fr, bb, fr.fn.blocks[bb]["t"][1])[0] if a.startswith("dec@")), None)
            cs = {loc2 for loc2, ls, f2, es in conds_at(D, fr, bb)}
            first = [G("ok", ("next", "next_back", "first", "split_first", "next_chunk")), G("pred", "is_empty")]
            for l, at in ver:
                if tag in at:
                    free = [loc2 for k, loc2, ls, _ in D.fa.guard_leaves(l) if loc2 not in cs and (k == "break" or not any(g(x) for g in first for x in ls))] if l.guards else []
                    ok += [l] if not free else []
                    skipped += free
        D.ob("dec.auth", f"the value read at {loc} is verified against a commitment", ok, ss[0][0].fn, sample=[f"{loc} -> {l.loc()} {l.name}" for l in ok[:2]],
             detail=f"{loc}: read without observation and " + (f"its Merkle verification is skipped depending on the condition at {skipped[0]}" if skipped and not ok else "not passed to a Merkle verification that must succeed"))
    D.extra = {"unobserved_read_sites": sorted(k[1] for k in sites), "reads_inside_merkle_verification": inside}
    C.extra = D.extra


def frames(fr):
    while fr is not None:
        yield fr.fn
        fr = fr.parent


def only_fri(C):
    """who may read without observation"""
    allowed = {"protocols::fri"}
    bad, n = [], 0
    for g in C.prog.fns.values():
        for b, t in g.calls():
            if "fn" in t[1] and strip_generics(callee_name(t[1])).endswith("VerifierTranscript::decommitment"):
                n += 1
                if not any(a in g.spath for a in allowed):
                    bad.append(f"{g.file}:{g.line} {g.name}")
    C.ob("dec.users", "only the FRI verifier reads unobserved data (everything it reads is covered by dec.auth)", not bad and n, C.fn("VerifierTranscript::decommitment"), sample=[f"{n} uses"], detail="; ".join(bad)[:300])


OBLIGATIONS = [dec, only_fri]
MIN_OBLIGATIONS = 4
