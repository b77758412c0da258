"""Encoding: what is written is what is read, nothing of the statement is left out, and the digest covers all of it."""
from engine import *

EXPLAIN = ("For every type with a byte encoding: the ordered list of tags and fields written (per enum variant) against the ordered list read and the field each value is stored in; every field of the type must take part. "
           "Leaf encodings (integers, lengths, options, field elements in both modes) by value forms; the constraint-system digest by value flow.")


def leaf(fl, fr, bb, c):
    if "fn" in c:
        n = last_seg(callee_name(c))
        if n == "deserialize":
            return {f"D@{fr.fn.id}:{bb}"}, ()
        if n == "serialize":
            return {f"S@{fr.fn.id}:{bb}"}, ()
    return transcript_leaf(fl, fr, bb, c)


def ty(c):
    g = c.get("ga") or ["?"]
    t = re.sub(r"^&('\w+ )?(mut )?", "", g[0])
    t = re.sub(r"std::vec::Vec<(.*)>$", r"[\1]", t)
    return re.sub(r"\b(\w+::)+", "", t)


def adt_name(f):
    return (f.self_ty or "").split("<")[0].split("::")[-1]


def writer(D, f, adt):
    """variant -> ordered [(what, type)]"""
    fr = D.root(f)
    dom = f.dom()
    ev = []
    for b, t in f.calls():
        if "fn" not in t[1] or last_seg(callee_name(t[1])) not in ("serialize", "erased_serialize"):
            continue
        at = D.fl.arg(fr, b, 0)
        var = {l.name for l in D.fa.at(fr, b).values() if l.kind == "var" and l.val == adt and l.lhs is not None}
        var = next((v for v in var if "|" not in v), None)
        fields = sorted(a for a in at if re.match(rf"{re.escape(adt)}(::\w+)?\.\w+$", a))
        ints = [a[4:] for a in at if a.startswith("int:")]
        if fields:
            w = fields[0].split(".")[-1]
            if len(fields) > 1:
                w = "+".join(x.split(".")[-1] for x in fields)
        elif ints and not any(a.startswith("arg:1") for a in at):
            w = "tag " + ints[0]
        else:
            w = "?"
        if var is None and fields and "::" in fields[0]:
            var = fields[0].split("::")[1].split(".")[0]
        ev.append((var, b, w, ty(t[1])))
    out = {}
    for v in {e[0] for e in ev} or {None}:
        mine = [e for e in ev if e[0] in (v, None)]
        mine.sort(key=lambda e: len(dom[e[1]]))
        out[v] = [(w, t) for _, _, w, t in mine]
    return out


def reader(D, f, adt):
    fr = D.root(f)
    dom = f.dom()
    calls = {f"D@{f.id}:{b}": (b, t) for b, t in f.calls() if "fn" in t[1] and last_seg(callee_name(t[1])) == "deserialize"}
    out, missing = {}, []
    for b in f.rpo():
        for i, s in enumerate(f.blocks[b]["s"]):
            if s[0] != "=" or s[2][0] != "agg" or s[2][1] != "adt" or s[2][3].split("::")[-1] != adt:
                continue
            _, _, ops_, path, vi, vn, names = s[2]
            used = {}
            for k, o in enumerate(ops_):
                at = D.fl.operand(fr, o, b, i)
                ds = [a for a in at if a in calls]
                if len(ds) == 1:
                    used[ds[0]] = names[k]
                elif not ds and not any("PhantomData" in a for a in at):
                    missing.append(f"{vn}.{names[k]}")
                elif len(ds) > 1:
                    used[ds[0]] = "?"
            seq = []
            for d, (cb, t) in sorted(calls.items(), key=lambda x: len(dom[x[1][0]])):
                if cb not in dom[b]:
                    continue
                if d in used:
                    seq.append((used[d], ty(t[1])))
                else:
                    tag = [next((a[4:] for a in l.rhs if a.startswith("int:")), None) for l in D.fa.at(fr, b).values() if l.kind == "cmp" and l.op == "==" and d in l.lhs]
                    seq.append(("tag " + tag[0] if tag and tag[0] is not None else "?", ty(t[1])))
            key = vn
            if key in out and out[key] != seq:
                out[key + "'"] = seq
            else:
                out[key] = seq
    return out, missing


def same(w, r):
    if len(w) != len(r):
        return False
    for (a, ta), (b, tb) in zip(w, r):
        if a != b and "?" not in (a, b):
            return False
        if ta != tb and not generic(ta) and not generic(tb) and a != b:
            return False
    return True


def generic(t):
    return t == "?" or re.fullmatch(r"[A-Z]\w?|Self", t) is not None or "impl" in t or "dyn" in t


def types(C):
    """writers and readers of structured types"""
    D = C.with_(leaf=leaf)
    n = 0
    ws = {}
    for f in D.prog.find("serialize", trait="SerializeBytes"):
        if f.crate in ("binius_core", "binius_math", "binius_m3", "binius_fast_compute"):
            ws[adt_name(f)] = f
    for f in D.prog.find("deserialize", trait="DeserializeBytes"):
        adt = adt_name(f)
        w = ws.get(adt)
        if w is None or f.crate not in ("binius_core", "binius_math", "binius_m3", "binius_fast_compute"):
            continue
        W = writer(D, w, adt)
        R, missing = reader(D, f, adt)
        if not R:
            continue
        n += 1
        D.fn_seen.add(f.id)
        D.fn_seen.add(w.id)
        D.ob(f"fields.{adt}", f"every field of {adt} is encoded", not missing, f, sample=[f"{len(R)} shapes"], detail="not read back from the encoding: " + ", ".join(missing))
        for v, r in R.items():
            wv = W.get(v.rstrip("'"), W.get(None, []))
            D.ob(f"agree.{adt}.{v}", f"{adt}::{v} is read in the order, with the tag and into the fields it was written from", same(wv, r), f, sample=[f"{wv} / {r}"[:200]],
                 detail=f"written {wv}, read {r}")
        lost = [v for v in W if v is not None and v not in R]
        D.ob(f"variants.{adt}", f"every variant of {adt} can be read back", not lost, f, detail=f"no reader for {lost}")
        tags = [r[0] for v, r in R.items() if r and r[0][0].startswith("tag")]
        if len(R) > 1:
            wt = [W[v][0][0] for v in W if v is not None and W[v] and W[v][0][0].startswith("tag")]
            D.ob(f"tags.{adt}", f"the variants of {adt} have distinct tags", len(set(wt)) == len(wt), w, sample=wt, detail=str(wt))
    C.ob("types", "structured encodings were found", n >= 25, None, sample=[n], detail=f"{n} types")


def leaves(C):
    """leaf encodings"""
    D = C.with_(leaf=leaf, inline=("binius_core", "binius_utils", "binius_field"))
    T = D.terms()
    PUT = {"u8": "put_u8", "u16": "put_u16_le", "u32": "put_u32_le", "u64": "put_u64_le", "u128": "put_u128_le", "M128": "put_u128_le"}
    GET = {k: v.replace("put", "get") for k, v in PUT.items()}
    seen = {}
    for f in D.prog.find("serialize", trait="SerializeBytes") + D.prog.find("deserialize", trait="DeserializeBytes"):
        seen.setdefault((f.self_ty or "").split("::")[-1], {})[f.name] = f
    for t in PUT:
        w, r = seen.get(t, {}).get("serialize"), seen.get(t, {}).get("deserialize")
        if not w or not r:
            raise Missing(f"encoding of {t}")
        D.need_exec(f"{t}.put", f"{t} is written little-endian in full", w, PUT[t], args={1: ["arg:1", ops()]})
        D.need_exec(f"{t}.get", f"{t} is read little-endian in full", r, GET[t])
    w, r = seen["usize"]["serialize"], seen["usize"]["deserialize"]
    D.need_ok("usize.fits", "a length that does not fit the 32-bit encoding is an error, not truncated", w, ("try_into", "try_from"), args={0: ["arg:1", ops()]})
    wt = [ty(t[1]) for b, t in w.calls() if "fn" in t[1] and last_seg(callee_name(t[1])) == "serialize"]
    rt = [ty(t[1]) for b, t in r.calls() if "fn" in t[1] and last_seg(callee_name(t[1])) == "deserialize"]
    D.ob("usize.width", "lengths are written and read with the same width", wt == rt and len(wt) == 1, r, sample=[wt, rt], detail=f"{wt} vs {rt}")
    w = [f for f in D.prog.find("serialize", trait="SerializeBytes") if f.self_ty == "[T]"]
    if w:
        w = w[0]
        ss = [(fr, b) for fr, b, t in D.sites_under(D.root(w), D.named("serialize"))]
        at = [D.fl.arg(fr, b, 0) for fr, b in ss]
        D.ob("slice.len", "a sequence is written as its length followed by every element", any("len" in a and "arg:1" in a and match([ops(), ints()], a) for a in at) and
             any("arg:1" in a and "len" not in a and match([C.TRUNC], a) for a in at), w, sample=[sorted(a)[:4] for a in at], detail=str([sorted(a) for a in at])[:300])
    r = [f for f in D.prog.find("deserialize", trait="DeserializeBytes") if f.self_ty == "std::vec::Vec<T>"]
    if r:
        r = r[0]
        g = str(T.ret(D.root(r)))
        at = D.fl.retval(D.root(r))
        D.ob("vec.len", "as many elements are read as the length says", match([ops(), ints("0"), C.TRUNC], at), r, sample=[g[:150]], detail=" ".join(sorted(at))[:300])
    U = C.with_(inline=("binius_utils",))
    for w in U.prog.find("serialize", trait="SerializeBytes"):
        if w.crate != "binius_utils" or w.self_ty not in ("&str", "std::string::String"):
            continue
        for fr, b, t in U.sites_under(U.root(w), U.named("serialize")):
            g, at = str(U.terms().arg(fr, b, 0)), U.fl.arg(fr, b, 0)
            if re.fullmatch(r"(as_str|as_bytes|deref|as_ref|arg1|\(|\))+", g):
                continue
            U.ob("str.len", "a string is preceded by the number of its bytes", re.fullmatch(r"len\((as_str|as_bytes|into_bytes|deref|as_ref|bytes|arg1|\(|\))+\)", g) or g.startswith("count(bytes(") or "len" not in at and not {"call:count", "call:chars"} & at, w, sample=[g], detail=f"{fr.loc(b)}: the length written is {g}")
        for fr, b, t in U.sites_under(U.root(w), U.named("put_slice", "put", "extend_from_slice", "write_bytes")):
            g = str(U.terms().arg(fr, b, 1))
            U.ob("str.bytes", "and all of them are written", "index(" not in g and "split" not in g and "get(" not in g, w, sample=[g], detail=f"{fr.loc(b)}: writes {g}")
    r = next((f for f in U.prog.find("deserialize", trait="DeserializeBytes") if f.crate == "binius_utils" and f.self_ty == "std::string::String"), None)
    if r:
        for fr, b, t in U.sites_under(U.root(r), U.named("copy_to_bytes", "split_to", "take")):
            at = U.fl.arg(fr, b, 1)
            U.ob("str.read", "as many bytes are read as the length says", match([ops()], at), r, sample=[sorted(at)[:4]], detail=" ".join(sorted(at))[:200])
        U.ob("str.utf8", "bytes that are not a string are an error", not [1 for fr, b, t in U.sites_under(U.root(r), U.named("from_utf8_lossy"))], r)
    for w in U.prog.find("serialize", trait="SerializeBytes"):
        if w.crate == "binius_utils" and w.self_ty == "(U, V)":
            gs = [str(U.terms().arg(U.root(w), b, 0)) for b, t in sorted(w.calls(), key=lambda x: len(w.dom()[x[0]])) if "fn" in t[1] and last_seg(callee_name(t[1])) == "serialize"]
            U.ob("pair", "a pair is its first component followed by its second", gs == ["arg1.0", "arg1.1"] or not all(re.fullmatch(r"arg1\.\d", g) for g in gs), w, sample=gs, detail=str(gs))
    f = next((f for f in D.prog.find("serialize", trait="SerializeBytes") if (f.self_ty or "").startswith("std::option::Option<")), None)
    if f:
        got = {}
        for v in ("Some", "None"):
            E = C.with_(leaf=leaf, inline=("binius_utils",), assume={"Option": v})
            fr = E.root(f)
            for b, t in sorted(fr.fn.calls(), key=lambda x: len(fr.fn.dom()[x[0]])):
                if "fn" in t[1] and last_seg(callee_name(t[1])) == "serialize":
                    at = E.fl.arg(fr, b, 0)
                    got.setdefault(v, []).append("value" if "arg:1" in at else "flag" + next((a[4:] for a in sorted(at) if a.startswith("int:")), "?"))
        got = {k: [x.lower().replace("true", "1").replace("false", "0") for x in v] for k, v in got.items()}
        want = {"Some": ["flag1", "value"], "None": ["flag0"]}
        D.ob("option", "an option is a presence flag and, if present, the value", got == want or any("?" in x for v in got.values() for x in v), f, sample=[got], detail=str(got))
    # field elements: both modes, writer and reader
    for t in ("AESTowerField8b", "AESTowerField16b", "AESTowerField32b", "AESTowerField64b", "AESTowerField128b", "BinaryField128bPolyval"):
        w, r = seen.get(t, {}).get("serialize"), seen.get(t, {}).get("deserialize")
        if not w or not r:
            continue
        for mode in ("Native", "CanonicalTower"):
            E = C.with_(leaf=leaf, inline=("binius_utils",), assume={"SerializationMode": mode})
            def conv(f, nm):
                return sorted({ty2 for fr, b, tt in E.sites_under(E.root(E.prog.fns[f.id]), E.named(nm)) for ty2 in [ty(tt[1])]})
            a, b2 = conv(w, "serialize"), conv(r, "deserialize")
            if not a or not b2:
                continue
            E.ob(f"field.{t}.{mode}", f"{t} is written and read through the same representation in {mode} mode", a == b2, w, sample=[a, b2], detail=f"written as {a}, read as {b2}")


def mode(C):
    """one encoding mode throughout"""
    D = C.with_(leaf=leaf, inline=())
    by = {}
    for f in D.prog.find("serialize", trait="SerializeBytes") + D.prog.find("deserialize", trait="DeserializeBytes"):
        k, inner = (3, "serialize") if f.name == "serialize" else (2, "deserialize")
        for fr, b, t in D.sites_under(D.root(f), D.named(inner)):
            if len(t[2]) < k:
                continue
            own, t1 = D.fl.arg(fr, b, k - 1), f"arg:{k}"
            fixed = sorted(a for a in own if a.startswith("new:SerializationMode"))
            by.setdefault(f.self_ty, {}).setdefault(f.name, []).append((f, fr.loc(b), "passed" if t1 in own and not fixed else "|".join(fixed) or "?"))
    for ty_, d in sorted(by.items(), key=str):
        got = {m for v in d.values() for _, _, m in v}
        bad = [loc for v in d.values() for _, loc, m in v if m != "passed"]
        f = next(iter(d.values()))[0][0]
        D.ob("mode." + last_seg(ty_ or "?")[:40], f"the parts of {last_seg(ty_ or '?')} are written and read in one mode", len(got) <= 1 or "?" in got, f, sample=[sorted(got)], detail=f"{sorted(got)}: {bad[:3]}")


def lossless(C):
    """nothing is cut off on the way into the encoding"""
    D = C.with_(leaf=leaf, inline=())
    bad, n = [], 0
    for f in list(D.prog.fns.values()):
        if f.name not in ("serialize", "erased_serialize", "serialize_mode") and "erialize" not in (f.trait or "") or "test" in f.file:
            continue
        for fr, b, t in D.sites_under(D.root(f), lambda c: "fn" in c and re.match(r"(serialize|put_|write)", last_seg(callee_name(c))) is not None):
            n += 1
            for k in range(min(2, len(t[2]))):
                if "op:Narrow" in D.fl.arg(fr, b, k) and re.search(r"narrow_[ui](8|16)\b", str(D.terms().arg(fr, b, k))):
                    bad.append(fr.loc(b))
    C.ob("lossless", "no value is narrowed before it is written", not bad and n, None, sample=[f"{n} writes"], detail=f"narrowed to a smaller integer at {bad[:3]}")


def digest(C):
    """the digest covers the statement"""
    f = C.fn("ConstraintSystem::digest", crate="binius_core")
    C.need_exec("digest.all", "the digest hashes the encoding of the whole constraint system", f, "serialize", want=None, args={0: ["arg:1", "!~ConstraintSystem\\..*", ops()]})
    C.need_ret("digest.value", "the digest is the hash of that encoding", f, (), [("call:digest", "call:finalize", "call:finalize_fixed", "fn:digest", "fn:serialize", "mutfn:serialize", "call:update"), "arg:1", "!~Range.*", "!~(fn|call|mut|adapt):(min|take|truncate|split.*|chunks.*|get|first.*|last.*|resize|clear|drain)"])


OBLIGATIONS = [types, leaves, mode, lossless, digest]
MIN_OBLIGATIONS = 80
