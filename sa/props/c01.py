"""The proof is one string read exactly to its end: short, long or malformed proofs are errors."""
from engine import *

EXPLAIN = ("Must-facts: verification accepts only after the tape was found empty; every consumption of bytes is dominated by a check that at least that many remain; "
           "every typed reader stores what it read; no reader takes more or fewer elements than asked for.")
WIDTH = {"get_u8": 1, "get_u16_le": 2, "get_u32_le": 4, "get_u64_le": 8, "get_u128_le": 16}
WHOLE = ["arg:1", ops(), ints(), "!~Range.*", "!~(fn|call|mut):(slice|slice_ref|split.*|truncate|take|advance|copy_to.*|get_.*|limit|resize|drain|pop|remove|retain|skip|first_chunk.*|strip_.*|trim.*|get)", Ctx.TRUNC]
LEN = ["!~(op|call|fn|mut):(Narrow|min|max|clamp|BitAnd|BitOr|BitXor|Rem|Shr|Shl|Div|Sub|Add|Mul|saturating_.*|wrapping_.*|checked_.*)", "!len"]
SIZES = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "M128": 16, "M256": 32, "M512": 64}


def finalize(C):
    """the tape is empty at the end"""
    v = C.fn("constraint_system::verify::verify")
    C.need_ok("finalize", "verification accepts only if the transcript finalizes", v, "finalize")
    f = C.fn("VerifierTranscript::finalize")

    def zero(l):
        op, a, b = C.cmp_norm(l)
        la, lb = (l.rhs, l.lhs) if l.op in (">", ">=") else (l.lhs, l.rhs)
        left = ["FiatShamirBuf.buffer", ("call:remaining", "fn:remaining", "len"), ops()]
        return (op == "==" and (match(left, la) and b == "0" or match(left, lb) and a == "0")) or (match(left, la) and (op, b) in (("<=", "0"), ("<", "1")))
    C.need_any("finalize.empty", "finalizing succeeds only if no byte remains", f, [
        lambda: C.need_ok("", "", f, "has_remaining", kind=("pred",), val=False, args={0: ["FiatShamirBuf.buffer"]}),
        lambda: C.need_ok("", "", f, "is_empty", kind=("pred",), val=True, args={0: ["FiatShamirBuf.buffer"]}),
        lambda: C.ob("", "", [l for l in C.facts(f) if l.kind == "cmp" and not l.guards and zero(l)], f)])
    # nothing of the proof is consumed after the check, nothing of it is set aside before
    n = C.fn("VerifierTranscript::new")
    g = str(C.terms().ret(C.root(n), ("combined", "buffer")))
    at = C.fl.retval(C.root(n), ("combined", "buffer"))
    C.ob("tape.whole", "the tape is the whole proof string", judge(g, r"(from|into|new)?\(?arg1\)?|arg1", rx=True) is not False and match(WHOLE, at), n, sample=[g], detail=g[:200] + " " + " ".join(sorted(at))[:200])


def enough(C):
    """no byte is consumed that is not there"""
    D = C.with_(inline=("binius_core", "binius_utils", "binius_field", "binius_math"))
    T = D.terms()
    for f in list(D.prog.fns.values()):
        for b, t in f.calls():
            if "fn" not in t[1] or not re.search(r"bytes::(buf::)?Buf::(get_|copy_to)", callee_name(t[1])):
                continue
            if not re.search(r"Result<", f.ret_ty()) or "fiat_shamir" in f.spath:
                continue     # the challenger's output stream is infinite
            nm = last_seg(callee_name(t[1]))
            fr = D.root(f)
            D.fn_seen.add(f.id)
            ok, why = False, "no check of the remaining length dominates the read"
            for l in D.fa.at(fr, b).values():
                if l.kind != "cmp" or l.op not in (">=", "==", "<="):
                    continue
                L, R = (l.lhs, l.rhs) if l.op != "<=" else (l.rhs, l.lhs)
                if not ({"fn:remaining", "call:remaining"} & L):
                    continue
                if nm in WIDTH:
                    tys = {x["ga"][0] for x in size_calls(D, l) if x.get("ga")}
                    w = [SIZES.get(self_width(f, x)) for x in tys]
                    k = sum(1 for b2, t2 in f.calls() if "fn" in t2[1] and last_seg(callee_name(t2[1])) == nm)
                    n_ints = [int(a[4:]) for a in R if a.startswith("int:")]
                    if "call:size_of" in R and (not w or None in w or min(w) >= WIDTH[nm] * k) or any(i >= WIDTH[nm] * k for i in n_ints):
                        ok = True
                    else:
                        why = f"the length check covers {w or sorted(R)[:4]} bytes, the reads take {WIDTH[nm] * k}"
                elif nm == "copy_to_slice":
                    a = D.fl.arg(fr, b, 1)
                    src = {x for x in a if x.startswith(("fn:", "call:", "arg:")) and x not in ("call:from_elem", "call:vec", "call:resize", "call:default")}
                    if ({"len", "item:USIZE"} & R) and ("item:USIZE" in R or {x for x in a if x.startswith("arg:")} & R) or any(x.startswith(("fn:", "call:")) for x in src) and src <= R:
                        ok = True
                else:
                    a = {x for x in D.fl.arg(fr, b, 1) if x.startswith(("fn:", "call:", "arg:"))}
                    if a and a <= R:
                        ok = True
            D.ob("enough." + (f.self_ty or f.name).split("::")[-1][:30], f"`{nm}` only runs if the bytes it takes remain", ok, f, sample=[fr.loc(b)], detail=f"{fr.loc(b)}: {why}", line=None)
    f = D.fn("serialization::assert_enough_data_for")
    D.need_cmp("enough.helper", "the length helper compares the remaining bytes with the size asked for", f, (">=",), [("call:remaining", "fn:remaining"), "arg:1", ops()], ["arg:2", ops()])


def self_width(f, ty):
    t = ty.split("::")[-1]
    return (f.self_ty or "").split("::")[-1] if t == "Self" else t


def size_calls(D, l):
    out = []
    fr = l.fr
    while fr is not None:
        for b, t in fr.fn.calls():
            if "fn" in t[1] and last_seg(callee_name(t[1])) == "size_of":
                out.append(t[1])
        fr = fr.parent
    return out


def readers(C):
    """typed readers"""
    R = "TranscriptReader::"
    for nm, k in (("read_vec", 2), ("read_scalar_slice", 2), ("read_packed_slice", 2)):
        f = C.fn(R + nm)
        C.need_any(f"{nm}.len", "exactly the requested number of elements is read", f, [
            lambda: C.need_ret("", "", f, (), [f"arg:{k}", ops()] if nm == "read_vec" else [f"arg:{k}"] + LEN),
            lambda: C.ob("", "", re.fullmatch(rf"(collect|try_collect|from_iter)\(map\(Range\{{start=0,end=arg{k}\}}, [^()]*\([^()]*\)\|\)\)", str(C.terms().ret(C.root(f)))), f)])
    f = C.fn(R + "read_scalar_slice_into")
    C.need_ok("slice.every", "every element of the destination is read, and a failed read is an error", f, "deserialize", forall=True, dom=["arg:2"])
    f = C.fn(R + "read")
    C.need_ok("read.err", "a failed read is an error", f, "deserialize")
    f = C.fn(R + "read_bytes")
    C.need_exec("bytes.all", "all requested bytes are taken from the tape", f, "copy_to_slice", args={1: ["arg:2", ops(), ints()]})
    for nm in ("read", "read_vec", "read_scalar_slice_into"):
        f = C.fn(R + nm)
        for fr, bb, t in C.sites_under(C.root(f), C.named("deserialize")):
            a = str(C.terms().arg(fr, bb, 1))
            C.ob(f"{nm}.mode", "proof elements are read in the canonical encoding", judge(a, r"SerializationMode::CanonicalTower(\{\})?", rx=True) is not False, f, sample=[a], detail=a[:100])
    W = "TranscriptWriter::"
    for nm in ("write", "write_slice", "write_scalar_iter"):
        f = C.fn(W + nm)
        for fr, bb, t in C.sites_under(C.root(f), C.named("serialize")):
            a = str(C.terms().arg(fr, bb, 2))
            C.ob(f"{nm}.mode", "proof elements are written in the canonical encoding", judge(a, r"SerializationMode::CanonicalTower(\{\})?", rx=True) is not False, f, sample=[a], detail=a[:100])


OBLIGATIONS = [finalize, enough, readers]
MIN_OBLIGATIONS = 22
