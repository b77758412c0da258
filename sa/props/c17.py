"""M3 gadgets: the constraints a gadget lays down bind its outputs to its inputs."""
import itertools

from engine import *
from cond import conds, conds_at
from gadget import *

EXPLAIN = ("Value forms (polynomials of characteristic 2 over parameters, allocated and derived columns and sub-gadget outputs) of every zero constraint, non-zero assertion, flush and returned column of each gadget constructor, "
           "instantiated at every bit position and compared with the gadget's defining equations; a constraint may be conditional only on what its own column is conditional on.")

GADGET = re.compile(r"gadgets::(?:\w+::)*([A-Z]\w+)(?:::?<.*>)?::(new|with_inputs?|first_round|next_round)$")


def gname(full):
    m = GADGET.search(full)
    return m and m.group(1) not in ("NodesChannel", "PerBatchLens") and m.group(1) + "_" + m.group(2)


LL, LR, CL = ("ShiftVariant::%s{}" % x for x in ("LogicalLeft", "LogicalRight", "CircularLeft"))


def carry(c, flag):
    """the carry into each bit of a packed word: the carry-out shifted by one, plus the optional carry-in"""
    sh = f"shifted({c},5,1,{LL})"
    return f"phi{{{flag} + {sh}|{sh}}}"


def first(v, otherwise):
    return f"phi{{Eq(@, 0)?({v})|Ne(@, 0)?({otherwise})}}"


def bits(x, fp="FP"):
    return f"reduce(lhs + rhs; ext_basis<{fp}:BinaryField1b>(pos({x}))*each({x}))"


ZERO, ONE = "constant(array(0))", "constant(array(1))"
MAJ = "({x} + {c})*({y} + {c}) + {c}"          # majority
BOR = "(1 + {x} + {c})*({y} + {c}) + {c}"      # borrow: majority of the complement of x, y and the borrow-in


def word(cls, path, flag, bor, fin):
    c = carry("$c", flag)
    return dict(fn=path, n=32, zero=[(BOR if bor else MAJ).format(x="arg2", y="arg3", c=c) + " + $c", f"arg2 + arg3 + {c} + $z"], ret={"zout": f"phi{{arg2 + arg3 + {c}|$z}}", **fin})


WC = "phi{Eq(%, 0)?(phi{sel(arg4.carry_in_bit,0)|constant(array(0))})|Ne(%, 0)?($c[%])}"
WB = "phi{Eq(%, 0)?(phi{sel(arg4.borrow_in_bit,0)|constant(array(0))})|Ne(%, 0)?($b[-1 + %])}"
NEXT = "phi{Eq(@, -1 + cg:BIT_LENGTH)?($f)|Ne(@, -1 + cg:BIT_LENGTH)?($c[1 + @])}"
at = lambda s: s.replace("%", "@")
IC = "phi{Eq(%, 0)?(constant(array(1)))|Ne(%, 0)?($c[%])}"
SUBF, ADDF, ADDN = "U32SubFlags{0,0,1}", "U32AddFlags{0,1,1}", "U32AddFlags{0,1,0}"

SPECS = {
    "U32Add": word("U32Add", "gadgets::add::U32Add::new", "arg4.carry_in_bit", False, {"final_carry": "sel($c,31)"}),
    "U32AddStacked": word("U32AddStacked", "gadgets::add::U32AddStacked::new", "arg5", False, {}),
    "U32Sub": word("U32Sub", "gadgets::sub::U32Sub::new", "arg4.borrow_in_bit", True, {"final_borrow": "sel($c,31)"}),
    "WideAdd": dict(fn="gadgets::add::WideAdd::new", n=64, zero=[MAJ.format(x="arg2[@]", y="arg3[@]", c=at(WC)) + " + " + NEXT, f"arg2[@] + arg3[@] + {at(WC)} + $z[@]"],
                    ret={"z_out": f"phi{{arr(arg2[%] + arg3[%] + {WC})|$z}}", "final_carry_out": "$f"}),
    "WideSub": dict(fn="gadgets::sub::WideSub::new", n=64, zero=[BOR.format(x="arg2[@]", y="arg3[@]", c=at(WB)) + " + $b[@]", f"arg2[@] + arg3[@] + {at(WB)} + $z[@]"],
                    ret={"zout": f"phi{{arr(arg2[%] + arg3[%] + {WB})|$z}}", "final_borrow": "$b[-1 + cg:BIT_LENGTH]"}),
    "Incr": dict(fn="gadgets::add::Incr::new", n=64, zero=[f"arg2[@] + {at(IC)} + $z[@]", f"arg2[@]*{at(IC)} + {NEXT}"], ret={"zout": "$z", "final_carry_out": "$f"}),
}

M23 = "MulUU32_with_inputs(arg2,arg3)"


def corrected(prod, sub, sign, i="%"):
    """the high product bits, less the other factor if this one is negative"""
    return f"({prod}[{i}] + {sign}*({prod}[{i}] + {sub}.zout[{i}]))"


def ss(i="%"):
    a = corrected(f"{M23}.out_high_bits", f"WideSub_new({M23}.out_high_bits,arg3,{SUBF})", "arg2[31]")
    ai = a.replace("%", i)
    return f"({ai} + arg3[31]*({ai} + WideSub_new(arr({a}),arg2,{SUBF}).zout[{i}]))"


def lo_hi(lo, hi):
    """64 bits: 32 low bits and 32 high bits"""
    return f"phi{{Lt(%, 32)?({lo})|not(Lt(%, 32))?({hi})}}"


def ext(x, hi):
    return "arr(" + lo_hi(f"{x}[%]", hi) + ")"


def passes(inner):
    return {k: f"{inner}.{k}" for k in ("xin", "yin", "out_high", "out_low", "out_high_bits", "out_low_bits")}


QR = "MulUU32_with_inputs($q,$d)"
PROD = "arr(" + lo_hi(f"{QR}.out_low_bits[%]", f"{QR}.out_high_bits[-32 + %]") + ")"
NZ = "ext_basis<FP:BinaryField1b>"
DIVRET = {"p_in": bits("$p"), "q_in": bits("$q"), "out_div": bits("$d"), "out_rem": bits("$r")}
ABS = f"SignConverter_new({ext('$r', '$r[31]')},$r[31]).converted_bits"
NEGABS = f"SignConverter_new({ext('$q', '$q[31]')},1 + $q[31]).converted_bits"
SPECS |= {
    "Mul": dict(fn="gadgets::mul::Mul::with_inputs", n=64, zero=["arg2[0]*arg3[0] + $l[0]", "dexp(arg3,sexp(arg2,generator())) + sexp($l,generator())*sexp($h,shifted_generator())"],
                ret={"xin": bits("arg2"), "yin": bits("arg3"), "out_low": bits("$l"), "out_high": bits("$h"), "out_low_bits": "$l", "out_high_bits": "$h"}),
    "MulUU32": dict(fn="gadgets::mul::MulUU32::with_inputs", n=32, ret=passes("Mul_with_inputs(arg2,arg3)")),
    "MulUU64": dict(fn="gadgets::mul::MulUU64::with_inputs", n=64, ret=passes("Mul_with_inputs(arg2,arg3)")),
    "Mul.new": dict(fn="gadgets::mul::Mul::new", n=64, ret={"": "Mul_with_inputs($x,$y)"}),
    "MulSS32.new": dict(fn="gadgets::mul::MulSS32::new", n=64, ret={"": "MulSS32_with_input($x,$y)"}),
    "MulUU32.new": dict(fn="gadgets::mul::MulUU32::new", n=32, ret=passes("Mul_new()")),
    "MulUU64.new": dict(fn="gadgets::mul::MulUU64::new", n=64, ret=passes("Mul_new()")),
    "MulSS32": dict(fn="gadgets::mul::MulSS32::with_input", n=64, ret={"out_bits": "arr(" + lo_hi(f"{M23}.out_low_bits[%]", ss("(-32 + %)")) + ")", "xin": bits("arg2"), "yin": bits("arg3")}),
    "MulSU32": dict(fn="gadgets::mul::MulSU32::new", n=32, ret={"out_high": bits("arr(" + corrected("MulUU32_with_inputs($x,$y).out_high_bits", f"WideSub_new(MulUU32_with_inputs($x,$y).out_high_bits,$y,{SUBF})", "$x[31]") + ")"),
                                                               "out_low": bits("MulUU32_with_inputs($x,$y).out_low_bits"), "xin": bits("$x"), "yin": bits("$y")}),
    "TwosComplement": dict(fn="gadgets::mul::TwosComplement::new", n=64, ret={"result_bits": "Incr_new(arr(1 + arg2[%])).zout"}),
    "SignConverter": dict(fn="gadgets::mul::SignConverter::new", n=64, ret={"converted_bits": "arr(arg2[%] + arg3*(arg2[%] + TwosComplement_new(arg2).result_bits[%]))"}),
    "DivUU32": dict(fn="gadgets::div::DivUU32::new", n=64, nonzero=[bits("$q")],
                    zero=[f"WideAdd_new({PROD},{ext('$r', ZERO)},{ADDF}).z_out[@] + {at(lo_hi('$p[%]', ZERO))}", f"1 + WideSub_new({ext('$r', ZERO)},{ext('$q', ZERO)},{SUBF}).zout[63]"], ret=DIVRET),
    "DivSS32": dict(fn="gadgets::div::DivSS32::new", n=64, nonzero=[bits("$q")],
                    zero=[f"WideAdd_new(MulSS32_with_input($q,$d).out_bits,{ext('$r', '$r[31]')},{ADDF}).z_out[@] + {at(lo_hi('$p[%]', '$p[31]'))}", f"({bits('$r')})*($p[31] + $r[31])",
                          f"1 + WideAdd_new({ABS},{NEGABS},{ADDN}).z_out[63]"], ret=DIVRET),
    "BarrelShifter": dict(fn="gadgets::barrel_shifter::BarrelShifter::new", n=5, zero=[
        "pack($p[@]) + pack(phi{arg2|$p[@]}) + sel(arg3, @)*(pack(phi{arg2|$p[@]}) + pack(shifted(phi{arg2|$p[@]}, 5, pow2(@), arg4)))"], ret={"output": "phi{arg2|$p[@]}"}),
    "BitAnd": dict(fn="indexed_lookup::and::BitAnd::new", n=1, pull=[("arg2", "array(arg3 + arg4*ext_basis<BinaryField32b:BinaryField8b>(1) + $o*ext_basis<BinaryField32b:BinaryField8b>(2))")], ret={"output": "$o"}),
    "BitAndLookup": dict(fn="indexed_lookup::and::BitAndLookup::new", n=1, push=[("arg3", "array(fixed(bitand_circuit()))")], pull=[("arg3", "array($s)")]),
    "IncrByte": dict(fn="indexed_lookup::incr::Incr::new", n=1, ret={"output": "$o", "carry_out": "$c"}, pull=[("arg2", "array(arg3 + arg4*ext_basis<BinaryField32b:BinaryField8b>(2) + $o*ext_basis<BinaryField32b:BinaryField8b>(1) + "
                     "$c*ext_basis<BinaryField32b:BinaryField8b>(2)*ext_basis<BinaryField8b:BinaryField1b>(1))")]),
    "IncrLookup": dict(fn="indexed_lookup::incr::IncrLookup::new", n=1, push=[("arg3", "array(fixed(incr_circuit()))")], pull=[("arg3", "array($s)")]),
    "LookupProducer": dict(fn="gadgets::lookup::LookupProducer::new", n=8, sizes={"arg4": 8}, push=[("arg2", "arg3", "FlushOpts{pow2(@), array($m[@])}")]),
}


def rotr(x, *ks):
    return " + ".join(f"shifted({x}, 5, {32 - k}, {CL})" for k in ks)


def sha_round(v):
    a, b, c, d, e, f, g, h = (f"{v}[{i}]" for i in range(8))
    add = lambda x, y: f"U32Add_new({x},{y},item:ADD_FLAGS).zout"
    t1 = add(h, add(add(f"BigSigma1_new({e}).out", "$ch"), add("arg3", "arg4")))
    t2 = add(f"BigSigma0_new({a}).out", "$maj")
    return dict(n=8, zero=[f"{e}*{f} + (1 + {e})*{g} + $ch", f"{a}*{b} + {a}*{c} + {b}*{c} + $maj"], ret={"next_vars": f"array({add(t1, t2)}, {a}, {b}, {c}, {add(d, t1)}, {e}, {f}, {g})"})


SB = "reduce(lhs + rhs; ext_basis<BinaryField8b:BinaryField1b>(pos($b))*each($b))"
SPECS |= {
    "Sigma0": dict(fn="hash::sha256::Sigma0::new", n=1, ret={"out": rotr("arg2", 7, 18) + f" + shifted(arg2,5,3,{LR})"}),
    "Sigma1": dict(fn="hash::sha256::Sigma1::new", n=1, ret={"out": rotr("arg2", 17, 19) + f" + shifted(arg2,5,10,{LR})"}),
    "BigSigma0": dict(fn="hash::sha256::BigSigma0::new", n=1, ret={"out": rotr("arg2", 2, 13, 22)}),
    "BigSigma1": dict(fn="hash::sha256::BigSigma1::new", n=1, ret={"out": rotr("arg2", 6, 11, 25)}),
    "Round.first": dict(fn="hash::sha256::Round::first_round", **sha_round("arg2")),
    "Round.next": dict(fn="hash::sha256::Round::next_round", **sha_round("arg2.next_vars")),
    "GroestlSBox": dict(fn="hash::groestl::SBox::new", n=8, zero=[f"arg2*{SB}*{SB} + {SB}", f"arg2 + arg2*arg2*{SB}"], ret={"output": "item:S_BOX_TOWER_OFFSET + reduce(lhs + rhs; $b[@]*each(item:S_BOX_TOWER_MATRIX_COLS))"}),
}


def collect(C, f, assume=None):
    D = C.with_(inline=("binius_m3",), noinline=lambda fn: "builder::" in fn.path or fn.path.endswith("_circuit") or (gname(fn.path) and fn.id != f.id), **({"assume": assume} if assume else {}))
    T = GTerms(D.fl, gname)
    T.facts = D.fa
    rt = D.root(f)
    out = []
    for fr, b, t in D.sites_under(rt, lambda c: is_builder(c) and last_seg(callee_name(c)) in KINDS):
        nm = last_seg(callee_name(t[1]))
        out.append((KINDS[nm], [T.text(T.arg(fr, b, k)) for k in range(2 if KINDS[nm] == "zero" else 1, len(t[2]))], fr, b))
    return D, T, rt, out


KINDS = {"assert_zero": "zero", "assert_nonzero": "nonzero", "push": "push", "pull": "pull", "push_with_opts": "push", "pull_with_opts": "pull", "read": "pull"}
OPAQUE = re.compile(r"\brec\b|mut:|partial|\bIDX\b|call_mut|unknown")


PERM = "Permutation_new(PermutationVariant::P{},$s).rounds.state_out[9]"
PARENT = ",".join(f"pack($r[{i}] + selblock(shifted({PERM}[{i}],3,4,{LR}),4))" for i in range(8))
LEFT, RIGHT = (",".join(f"pack({v}[{i}])" for i in range(8)) for v in ("$l", "$r"))
CHILD, INDEX = "Incr_new(arg4,$d,constant(array(1))).output", f"pack(shifted($i,5,1,{LL}))"
PULLS = {"Left": (LEFT, INDEX), "Right": (RIGHT, INDEX + " + 1")}
for _v in ("Left", "Right", "Both"):
    SPECS["MerkleNodes." + _v] = dict(fn="merkle_tree::NodesTable::new", n=8, assume={"MerklePathPullChild": _v}, through={"mut:push", "mut:pull"}, zero=["pack($s[@]) + pack($l[@]) + pack($r[@])*new(4294967296)"],
                                      push=[("arg3", f"array($root,{PARENT},$d,pack($i))")],
                                      pull=[("arg3", f"array($root,{PULLS[w][0]},{CHILD},{PULLS[w][1]})") for w in (("Left", "Right") if _v == "Both" else (_v,))])
DIGEST = ",".join(f"$dg[{i}]" for i in range(8))
SPECS["MerkleRoot"] = dict(fn="merkle_tree::RootTable::new", n=8, pull=[("arg3", f"array($root,{DIGEST})"), ("arg2", f"array($root,{DIGEST},{ZERO},{ZERO})")])

HEADS = re.compile(r"(shifted|sel|selblock|pack|constant|fixed|sexp|dexp|zeropad|structured|arr|array|repeat|each|pos|reduce|ext_basis<[\w:]*>|generator|shifted_generator|\w+_circuit|pow2|Eq|Ne|Lt|Le|Gt|Ge|not|default|new|tuple|collect|map|Rem|Div|take|skip|rev|enumerate|iter|into_iter|copied|cloned|step_by|zip|izip|chain|"
                   r"\w+_(new|with_inputs?|first_round|next_round)|)\Z")


def vague_form(s):
    """the form uses a construct the analysis does not model: a mismatch says nothing"""
    return not s or "undef" in s or OPAQUE.search(s) is not None or any(not HEADS.match(h) for h in re.findall(r"([\w<>:]*)\(", s))


def spec_check(C, name, S):
    f = C.fn(S["fn"])
    D, T, rt, got = collect(C, f, S.get("assume"))
    I = Inst({"cg:BIT_LENGTH": S["n"], "item:MAX_SHIFT_BITS": 5, **S.get("sizes", {})}, S["n"])
    I.through = S.get("through", set())
    clean = lambda x: re.sub("|".join(I.through), "sel", x) if I.through else x
    sites, vague = [], []
    for kind, forms, fr, b in got:
        try:
            if any(OPAQUE.search(clean(x)) for x in forms):
                raise Undecided("opaque")
            if any(vague_form(clean(x)) for x in forms):
                vague.append((kind, forms[0][:80], fr, b))
            gs, cs = [], []
            for loc, ls, f2, es in conds_at(D, fr, b):
                g = [x for x in (T.guard(f2, e) for e in es) if x]
                if es and len(g) == len(es):
                    gs += [T.text(x) for x in g]      # a comparison of indices: decided per instance
                else:
                    cs.append((loc, ls))
            forms2 = [("&".join(gs) + f"?({x})" if gs else x) for x in forms]
            sites.append((kind, {x for x in I.instances(*forms2) if "never" not in x}, fr, b, forms, cs))
        except (ValueError, Undecided, RecursionError) as e:
            vague.append((kind, str(e)[:80], fr, b))
    try:
        ret = {k: T.text(T.ret(rt, (k,) if k else ())) for k in S.get("ret", {})}
    except Exception as e:      # noqa
        ret = {}
    coms = sorted(set(T.coms.values()))
    items = [(k, x) for k in ("zero", "nonzero", "push", "pull") for x in S.get(k, [])] + [("ret", x) for x in S.get("ret", {}).items()]
    vs = sorted({v for _, x in items for v in re.findall(r"\$\w+", x if isinstance(x, str) else " ".join(x))})
    best = None
    for perm in itertools.permutations(coms, len(vs)) if len(coms) >= len(vs) else [tuple(f"com_{v[1:]}" for v in vs)]:
        ren = dict(zip(vs, perm))
        sub = lambda s: re.sub(r"\$\w+", lambda m: ren[m.group()], s)
        res = []
        for kind, x in items:
            if kind == "ret":
                fld, form = x
                try:
                    w, g = I.instances(sub(form)), I.instances(ret.get(fld, "never"))
                    ok = w == g or vague_form(ret.get(fld, ""))
                    if ok and w != g:
                        g = {"undecided: " + ret.get(fld, "")}
                except (ValueError, Undecided, RecursionError):
                    w, g, ok = {form}, {"undecided: " + ret.get(fld, "")}, True
                res.append((ok, kind, fld, w, [], g or {"nothing"}))
                continue
            w = I.instances(*[sub(y) for y in ([x] if isinstance(x, str) else x)])
            hit = [s for s in sites if s[0] == kind and s[1] & w]
            miss = w - set().union(*[s[1] for s in hit]) if hit else w
            res.append((not miss, kind, x, miss, hit, w))
        score = sum(r[0] for r in res)
        if best is None or score > best[0]:
            best = (score, ren, res)
        if score == len(res):
            break
    _, ren, res = best
    for i, (ok, kind, x, miss, hit, w) in enumerate(res):
        what = x if isinstance(x, str) else " ; ".join(x)
        und = not ok and kind != "ret" and any(v[0] == kind for v in vague)
        nm = f"{name}.{kind}{'.' + x if kind == 'ret' else i}"
        if kind == "ret":
            D.ob(nm, f"the column {x} of {name} is its defining expression", ok, f, sample=[sorted(w)[0][:200]], detail=f"returned {sorted(w)[0]}, defined as {sorted(miss)[0]}"[:500])
            continue
        D.ob(nm, f"{name} lays down its {kind} constraint {what[:120]}", ok or und, f, sample=[s[2].loc(s[3]) for s in hit[:2]] + [f"{len(w)} instances" if ok else "undecided"],
             detail=f"vague {[v[1] for v in vague][:3]} no {kind} constraint for {sorted(miss)[0][:240]} ({len(miss)} of {len(w)} instances)" if miss else "")
        # conditions
        for s in hit:
            cs = s[5]
            allowed = set()
            for (uid, b), c in T.coms.items():
                if re.search(rf"\b{c}\b", " ".join(s[4])):
                    fr = next((x for x in D.fl.frames.values() if x.uid == uid), None)
                    if fr is not None:
                        allowed |= {ctext(x) for x in conds(D, fr, b)}
            bad = [c for c in cs if ctext(c) not in allowed and not S.get("allow", lambda ls: False)(c[1])]
            D.ob(f"{nm}.always", f"{name} lays down its {kind} constraint {i} whenever the column it binds exists", not bad, f, sample=[s[2].loc(s[3])], detail="; ".join(f"only under {c[0]}" for c in bad)[:300])


def ctext(c):
    loc, ls = c
    return "; ".join(sorted(f"{l.kind} {l.name or l.op} {l.val} {sorted(set(l.lhs or ()))} {sorted(set(l.rhs or ()))}" for l in ls))



def generators(C):
    """the bases of the multiplication check generate the whole multiplicative group, and the second is the first raised to 2^BIT_LENGTH"""
    D = C.with_(inline=("binius_m3",))
    fs = [f for f in D.prog.find("generator") if f.crate == "binius_m3" and f.kind != "closure" and f.blocks]
    for f in fs:
        r = D.fl.retval(D.root(f))
        D.ob("mul.generator", "the base of a multiplication check is the multiplicative generator of its field", match([("item:MULTIPLICATIVE_GENERATOR",), ops(), ints()], r), f, sample=[sorted(r)], detail=str(sorted(r)))
    for f in D.prog.find("shifted_generator"):
        if f.crate != "binius_m3" or not f.blocks:
            continue
        r = D.fl.retval(D.root(f))
        D.ob("mul.shifted", "the second base is the first raised by repeated squaring", match(["item:MULTIPLICATIVE_GENERATOR"], r), f, sample=[sorted(r)], detail=str(sorted(r)))


def ob(name):
    def run(C):
        spec_check(C, name, SPECS[name])
    run.__name__ = name
    run.__doc__ = f"the constraints of {name}"
    return run


OBLIGATIONS = [ob(n) for n in SPECS] + [generators]
MIN_OBLIGATIONS = 60
