"""M3: the compiled system says exactly what the tables declared."""
from engine import *
from cond import conds, only, atoms, leads_to_err, reaches

EXPLAIN = ("Constructions and calls of the M3 table builder and of ConstraintSystem::compile, by value flow and value forms: each declared column becomes the oracle of its own kind with its own parameters, "
           "every zero constraint, flush, non-zero assertion, exponentiation and size rule of every table reaches the compiled system, and every expression operator builds the polynomial it names.")
NOLEAF = lambda *a: None


def leaf(fl, fr, bb, c):
    if "fn" in c and last_seg(callee_name(c)) == "index" and "OracleLookup" in str(c.get("ga")) + callee_name(c):
        return {"LOOKUP"}, (1,)
    return None


def ctx(C, **kw):
    return C.with_(inline=("binius_m3",), leaf=leaf, **kw)


def compile_(C):
    """ConstraintSystem::compile"""
    D = ctx(C)
    f = D.fn("builder::constraint_system::ConstraintSystem::compile")
    OUT = [("table_constraints", ["new:ConstraintSet", "ZeroConstraint.expr"]), ("flushes", ["new:Flush", "Flush.columns", "Flush.channel_id"]), ("exponents", [("new:Exp", "mut:for_each", "mut:push", "mut:extend")]),
           ("non_zero_oracle_ids", ["LOOKUP", "ColumnInfo.id"]), ("table_size_specs", ["Table.table_size_spec"]), ("channel_count", ["ConstraintSystem.channels", "len", ops(), ints()])]
    for fld, req in OUT:
        at = D.fl.retval(D.root(f), (fld,))
        D.ob("out." + fld, f"the compiled system's {fld} are built from the declared tables", match(req + ["ConstraintSystem." + ("channels" if fld == "channel_count" else "tables")], at), f,
             sample=[" ".join(sorted(at))[:120]], detail="value flow: " + " ".join(sorted(at))[:300])
    lk = ["LOOKUP"]
    D.need_agg("flush", "a compiled flush has its table's id and stacking, the oracles of its own columns and selectors, and its own channel, direction and multiplicity", f, "Flush", {
        "table_id": ["Table.id", ops()], "log_values_per_row": ["TablePartition.values_per_row", "fn:log2_strict_usize", ops()], "oracles": lk + ["Flush.columns", "!Flush.selectors", C.TRUNC, "!adapt:rev"],
        "channel_id": ["Flush.channel_id", ops(), ints()], "direction": ["Flush.direction", "!new:FlushDirection::Push", "!new:FlushDirection::Pull"], "selectors": lk + ["Flush.selectors", "!Flush.columns", C.TRUNC],
        "multiplicity": ["Flush.multiplicity", ops(), ints()]}, pred=lambda fr, b: True)
    for v, base in (("StaticExp", ["ColumnDef::StaticExp.base", "ColumnDef::StaticExp.base_tower_level", "new:OracleOrConst::Const"]), ("DynamicExp", lk + ["ColumnDef::DynamicExp.base", "new:OracleOrConst::Oracle"])):
        E = ctx(C, assume={"ColumnDef": v})
        E.need_agg(f"exp.{v}", f"a {v} column yields an exponentiation of its own base by its own bits, in order, into its own oracle", f, "Exp", {
            "bits_ids": lk + [f"ColumnDef::{v}.bit_cols", C.TRUNC, "!adapt:rev", "!~(fn|call|adapt|mut):(reverse|rev|sort.*)"], "base": base, "exp_result_id": lk + ["ColumnInfo.id", "!ColumnDef::%s.bit_cols" % v, "!ColumnDef::%s.base" % v]})
        h = [l for l in E.facts(f) if l.kind == "exec" and l.name in ("push", "extend") and l.loops and "new:Exp" in l.arg(1)]
        h = [l for l in h if E.guards_ok(l, ()) and match(["ConstraintSystem.tables", C.TRUNC], l.domain())]
        sites = [x for x in E.sites_under(E.root(f), E.named("push", "extend")) if "new:Exp" in E.fl.arg(x[0], x[1], 1)]
        cs = [c for fr, b, t in sites for c in only(conds(E, fr, b), lambda l: False)]
        C.ob(f"exp.{v}.all", f"every {v} column of every table is kept", sites and not cs, f, sample=[fr.loc(b) for fr, b, t in sites[:1]], detail="; ".join(cs)[:300] or "no addition found")
    never = lambda l: False
    for what, has, allow in (("flush", "new:Flush", never), ("constraints", "new:ConstraintSet", NONEMPTY("TablePartition.zero_constraints")), ("nonzero", "ColumnInfo.id", lambda l: "ColumnInfo.is_nonzero" in atoms(l)),
                             ("sizes", "Table.table_size_spec", never)):
        sites = []
        for x in D.sites_under(D.root(f), D.named("push", "extend")):
            at = D.fl.arg(x[0], x[1], 1)
            kinds = {"new:Flush", "new:Exp", "new:ConstraintSet"} & at
            if has in at and kinds <= {has} and (what != "nonzero" or "LOOKUP" in at and "TablePartition.columns" not in at):
                sites.append(x)
        cs = [c for fr, b, t in sites for c in only(conds(D, fr, b), allow)]
        D.ob(f"all.{what}", f"every declared {what} entry of every table is kept", sites and not cs, f, sample=[fr.loc(b) for fr, b, t in sites[:2]], detail=f"only under {cs[:2]}" if cs else "no addition found")
    D.need_agg("cset", "a constraint set keeps its table, stacking, all its constraints, each with its own expression as a zero constraint, over the partition's oracles", f, "ConstraintSet", {
        "table_id": ["Table.id", ops()], "log_values_per_row": ["TablePartition.values_per_row", "fn:log2_strict_usize", ops()], "oracle_ids": lk + ["TablePartition.columns", "!adapt:rev"],
        "constraints": ["TablePartition.zero_constraints", "ZeroConstraint.expr", C.TRUNC]})
    D.need_agg("constraint", "each compiled constraint is the declared expression", f, "Constraint", {"composition": ["ZeroConstraint.expr"], "predicate": ["new:ConstraintPredicate::Zero"]})
    # the used-oracle compaction: an oracle is left out only if no expression uses it
    bad = []
    ss = [x for x in D.sites_under(D.root(f), D.named("remap_vars")) if "ZeroConstraint.expr" in D.fl.arg(x[0], x[1], 0)]
    for fr, b, t in ss:
        at = D.fl.arg(fr, b, 1)
        if not match([("fn:vars_usage", "len")], at) and "TablePartition.columns" not in at or at & C.LIMIT:
            bad.append(fr.loc(b))
    D.ob("remap", "expressions are renumbered by the positions given to the kept oracles", not bad, f, sample=[len(ss)], detail=str(bad))
    # flags: the usage of an expression, or a boolean vector that only these conditions fill
    used = lambda l: "fn:vars_usage" in atoms(l) and l.kind != "cmp" or l.kind == "switch" and l.ty == "bool" or l.kind == "pred" and l.name in ("index", "get", "contains")
    for fr, b, t in D.sites_under(D.root(f), D.named("push", "index_mut")):
        nm, at = last_seg(callee_name(t[1])), D.fl.arg(fr, b, len(t[2]) - 1)
        if nm == "push" and ("LOOKUP" not in at or "TablePartition.columns" not in at or {"new:Flush", "new:Exp", "new:ConstraintSet"} & at) or nm == "index_mut" and not re.search(r"Vec<(bool|usize)>", str(t[1].get("ga"))):
            continue
        cs = only(conds(D, fr, b), lambda l: used(l) or NONEMPTY("TablePartition.zero_constraints")(l))
        D.ob("dense." + nm, "an oracle is left out of a constraint set only if no expression of the set uses it", not cs, f, sample=[fr.loc(b)], detail="; ".join(cs)[:300])


ORACLE = [
    ("Committed", "committed", {1: ["ColumnDef::Committed.tower_level", ops(), ints()]}),
    ("Selected", "projected", {1: ["LOOKUP", "ColumnDef::Selected.col"], 3: ["int:0", ops()]}),
    ("Projected", "projected", {1: ["LOOKUP", "ColumnDef::Projected.col"], 3: ["ColumnDef::Projected.start_index", ops(), ints()]}),
    ("ZeroPadded", "zero_padded", {1: ["LOOKUP", "ColumnDef::ZeroPadded.col"], 2: ["ColumnDef::ZeroPadded.n_pad_vars", ops(), ints()], 3: ["ColumnDef::ZeroPadded.nonzero_index", ops(), ints()], 4: ["ColumnDef::ZeroPadded.start_index", ops(), ints()]}),
    ("Shifted", "shifted", {1: ["LOOKUP", "ColumnDef::Shifted.col"], 2: ["ColumnDef::Shifted.offset", ops(), ints()], 3: ["ColumnDef::Shifted.log_block_size", ops(), ints()], 4: ["ColumnDef::Shifted.variant"]}),
    ("Packed", "packed", {1: ["LOOKUP", "ColumnDef::Packed.col"], 2: ["ColumnDef::Packed.log_degree", ops(), ints()]}),
    ("Computed", "composite_mle", {1: ["LOOKUP", "ColumnDef::Computed.cols", "!adapt:rev"], 2: ["ColumnDef::Computed.expr"]}),
    ("Computed", "linear_combination_with_offset", {1: ["ColumnDef::Computed.expr", "LinearNormalForm.constant"], 2: ["LOOKUP", "ColumnDef::Computed.cols", "LinearNormalForm.var_coeffs", "zip", "!adapt:rev", "!~adapt:skip(=1)?"]}),
    ("Constant", "transparent", {1: ["ColumnDef::Constant.poly"]}),
    ("Constant", "repeating", {1: ["fn:transparent"]}),
    ("StructuredDynSize", "structured", {1: ["ColumnDef::StructuredDynSize.0"]}),
    ("StructuredFixedSize", "transparent", {1: ["ColumnDef::StructuredFixedSize.expr"]}),
    ("StaticExp", "committed", {1: ["ColumnDef::StaticExp.base_tower_level", ops(), ints()]}),
    ("DynamicExp", "committed", {1: ["ColumnDef::DynamicExp.base_tower_level", ops(), ints()]}),
]


def lookup(C):
    """the oracle looked up for a column"""
    D = C.with_(inline=("binius_m3",))
    f = D.fn("index", trait="Index", self_ty="OracleLookup")
    at = D.fl.retval(D.root(f))
    D.ob("lookup.rep", "a column stands for its oracle over the whole table: of a repeated constant, the repetition", match(["OracleMapping::TransparentCompound.repeating", "OracleMapping::Regular.0", "!OracleMapping::TransparentCompound.original", "arg:2"], at), f,
         sample=[" ".join(sorted(at))[:150]], detail=" ".join(sorted(at))[:300])
    for nm, fields in (("register_regular", {"0": "arg:3"}), ("register_transparent", {"original": "arg:3", "repeating": "arg:4"})):
        f = D.fn("OracleLookup::" + nm)
        for k, a in fields.items():
            D.need_agg(f"lookup.{nm}.{k}", "a column's oracles are registered in their roles", f, "OracleMapping", {k: [a, *["!arg:%d" % i for i in (3, 4) if "arg:%d" % i != a]]})
    D = ctx(C, assume={"ColumnDef": "Constant"})
    f = D.fn("builder::constraint_system::ConstraintSystem::compile")
    D.need_agg("lookup.const", "a constant column keeps the constant and its repetition apart", f, "OracleMapping", {"original": ["fn:transparent", "!fn:repeating"], "repeating": ["fn:repeating"]}, variant="TransparentCompound")


def columns(C):
    """each column becomes the oracle of its kind"""
    for v, callee, args in ORACLE:
        D = ctx(C, assume={"ColumnDef": v})
        f = D.fn("builder::constraint_system::ConstraintSystem::compile")
        D.need_sites(f"col.{v}.{callee}", f"a {v} column becomes a `{callee}` oracle with its own parameters", f, callee, args=args, pred=lambda C, fr, bb, t: "oracle" in callee_name(t[1]))
        D.need_sites(f"col.{v}.{callee}.own", "the oracle belongs to the column's table and stacking", f, "add_oracle", args={1: ["Table.id", ops()], 2: ["ColumnShape.log_values_per_row", ops()]})
        ins = [x for x in D.sites_under(D.root(f), D.named("insert")) if "ColumnInfo.id" in D.fl.arg(x[0], x[1], 1)]
        res = "fn:" + ("repeating" if v == "Constant" else callee)
        D.ob(f"col.{v}.{callee}.reg", "and is registered under the column's id", any(res in D.fl.arg(fr, b, 2) for fr, b, t in ins), f, sample=[fr.loc(b) for fr, b, t in ins[:2]], detail="no registration of the oracle found")
    for v, bits, size in (("Selected", "ColumnDef::Selected.index", "index_bits"), ("Projected", "ColumnDef::Projected.query_bits", "query_size")):
        D = ctx(C, assume={"ColumnDef": v})
        f = D.fn("builder::constraint_system::ConstraintSystem::compile")
        T = D.terms()
        got, n = [], 0
        for fr, bb, nm, f2 in D.closures(D.root(f), "map"):
            if "/constraint_system" not in f2.fn.file:
                continue
            zs = zero_one(D, f2)
            if zs is None:
                continue
            n += 1
            for val, ats in zs:
                # the zero is chosen when bit i of the index is zero
                got.append((val, [sorted(a) for a in ats]))
                ok = any(match([bits, "op:Shr", "op:BitAnd"], a) or match([bits], a) for a in ats)
                D.ob(f"col.{v}.bits.{val}", "the selected row is the declared index, bit by bit", ok, f, sample=[str(ats)[:100]], detail=str(got)[:200])
        for fr, bb, t in D.sites_under(D.root(f), D.named("projected")):
            g = str(T.arg(fr, bb, 2))
            D.ob(f"col.{v}.len", "with all index bits", judge(g, rf"collect\(map\(Range\{{start=0,end=.*\.{size}\}}, .*\)\)", rx=True) is not False, f, sample=[g[:150]], detail=g[:200])
    D = ctx(C)
    f = D.fn("builder::structured::incrementing_expr")
    T = D.terms(True)
    g = str(T.ret(D.root(f)))
    D.ob("structured", "the incrementing column is the sum of basis(i) times variable i over all variables", judge(g, r"sum\(map\(Range\{start=0,end=arg1\}, \|ArithExpr::Const\{0=basis\(each\(Range\{start=0,end=arg1\}\)\)\}\*ArithExpr::Var\{0=each\(Range\{start=0,end=arg1\}\)\}\|\)\)", rx=True) is not False,
         f, sample=[g[:200]], detail=g[:300])
    D.need_cmp("structured.fits", "and only for sizes whose index fits the field", f, "<=", ["arg:1"], ["~item:N_BITS.*"])


def zero_one(D, f2):
    """[(ZERO|ONE, [operand atoms of the comparisons it is chosen under])] of a closure returning one of the two constants"""
    out = []
    fn = f2.fn
    for b in fn.rpo():
        for i, s in enumerate(fn.blocks[b]["s"]):
            if s[0] == "=" and s[1] == 0 and s[2][0] == "use" and "k" in s[2][1] and "item" in s[2][1]["k"] and last_seg(s[2][1]["k"]["item"]) in ("ZERO", "ONE"):
                val = last_seg(s[2][1]["k"]["item"])
                ats = []
                for l in D.fa.at(f2, b).values():
                    if l.kind == "cmp" and (("int:0" in l.rhs) == (val == "ZERO")) == (l.op == "=="):
                        ats.append(l.lhs)
                out.append((val, ats))
    return out if len(out) >= 2 else None


BUILDER = {
    "add_committed": ("Committed", {"tower_level": r"item:TOWER_LEVEL<\w+>"}),
    "add_shifted": ("Shifted", {"col": r"ColumnId\{table_id=arg3\.table_id,table_index=arg3\.table_index\}", "offset": "arg5", "log_block_size": "arg4", "variant": "arg6"}),
    "add_packed": ("Packed", {"col": r"ColumnId\{table_id=arg3\.table_id,table_index=arg3\.table_index\}", "log_degree": r"item:TOWER_LEVEL<FSub> \+ -1\*item:TOWER_LEVEL<FSubSub>|-1\*item:TOWER_LEVEL<FSubSub> \+ item:TOWER_LEVEL<FSub>"}),
    "add_selected": ("Selected", {"col": r"ColumnId\{table_id=arg3\.table_id,table_index=arg3\.table_index\}", "index": "arg4", "index_bits": r"(log2_strict_usize|checked_log_2)\(cg:V\)"}),
    "add_selected_block": ("Projected", {"col": r"ColumnId\{table_id=arg3\.table_id,table_index=arg3\.table_index\}", "start_index": r"log2_strict_usize\(cg:NEW_V\)",
                                         "query_size": r"-1\*log2_strict_usize\(cg:NEW_V\) \+ log2_strict_usize\(cg:V\)|log2_strict_usize\(cg:V\) \+ -1\*log2_strict_usize\(cg:NEW_V\)", "query_bits": "arg4"}),
    "add_zero_pad": ("ZeroPadded", {"col": r"ColumnId\{table_id=arg3\.table_id,table_index=arg3\.table_index\}", "n_pad_vars": r"log2_strict_usize\(cg:NEW_VALUES_PER_ROW\) \+ -1\*log2_strict_usize\(cg:VALUES_PER_ROW\)|-1\*log2_strict_usize\(cg:VALUES_PER_ROW\) \+ log2_strict_usize\(cg:NEW_VALUES_PER_ROW\)",
                                    "start_index": r"log2_strict_usize\(cg:VALUES_PER_ROW\)", "nonzero_index": "arg4"}),
    "add_zero_pad_upcast": ("ZeroPadded", {"col": r"ColumnId\{table_id=arg3\.table_id,table_index=arg3\.table_index\}", "start_index": r"log2_strict_usize\(cg:VALUES_PER_ROW\)"}),
    "add_constant": ("Constant", {"poly": r"new\(from_values_and_mu\(pack_slice\(arg3\), log2_strict_usize\(cg:V\)\)\)", "data": r"(to_vec\()?map\(arg3, \|each\(arg3\)\|\)\)?"}),
    "add_static_exp": ("StaticExp", {"bit_cols": r"collect\(map\((enumerate\()?arg3\)?, \|ColumnId\{table_id=each\(arg3\)\.table_id,table_index=each\(arg3\)\.table_index\}\|\)\)", "base": "arg4", "base_tower_level": r"item:TOWER_LEVEL<\w+>"}),
    "add_dynamic_exp": ("DynamicExp", {"bit_cols": r"collect\(map\((enumerate\()?arg3\)?, \|ColumnId\{table_id=each\(arg3\)\.table_id,table_index=each\(arg3\)\.table_index\}\|\)\)", "base": r"ColumnId\{table_id=arg4\.table_id,table_index=arg4\.table_index\}", "base_tower_level": r"item:TOWER_LEVEL<\w+>"}),
    "add_structured": ("StructuredDynSize", {"0": "arg3"}),
    "add_fixed": ("StructuredFixedSize", {"expr": "arg3"}),
}


def builder(C):
    """TableBuilder"""
    D = C.with_(inline=("binius_m3",), leaf=NOLEAF)
    T = D.terms(gen=True)
    for name, (v, want) in BUILDER.items():
        f = D.fn(f"builder::table::TableBuilder::{name}")
        bad, n = [], 0
        for fr, b, i, o in D.aggs(f, "ColumnDef", v):
            n += 1
            for k, rx in want.items():
                if k not in o:
                    raise Missing(f"ColumnDef::{v}.{k}")
                g = str(T.op(fr, o[k], (), b, i))
                if judge(g, rx, rx=True) is False:
                    bad.append(f"{k} is `{g[:200]}`")
        D.ob("b." + name, f"{name} declares a {v} column with exactly the given parameters", n and not bad, f, sample=[f"{n} constructions"], detail="; ".join(bad) or "no such column")
    f = D.fn("builder::table::TableBuilder::add_shifted")
    D.need_cmp("b.shift.block", "a shift block lies within a row", f, "<=", ["arg:4", ops()], ["~cg:.*"])
    D.need_cmp("b.shift.offset", "a shift offset lies within its block", f, "<=", ["arg:5", ops()], ["arg:4", "op:Shl", ops("Shl")])
    f = D.fn("builder::table::TableBuilder::add_packed")
    D.need_cmp("b.pack.size", "packing preserves the number of bits in a row", f, "==", ["cg:VALUES_PER_ROW", "item:TOWER_LEVEL<FSub>", "!cg:VALUES_PER_ROW_SUB", ops("Add"), ints()], ["cg:VALUES_PER_ROW_SUB", "item:TOWER_LEVEL<FSubSub>", "!cg:VALUES_PER_ROW", ops("Add"), ints()])
    f = D.fn("builder::table::TableBuilder::add_selected")
    D.need_cmp("b.select", "a selected value lies within the row", f, "<", ["arg:4", ops()], ["~cg:.*", ops()])
    f = D.fn("builder::table::TableBuilder::add_zero_pad")
    D.need_cmp("b.pad", "the padded block lies within the row", f, "<", ["arg:4", ops()], ["cg:NEW_VALUES_PER_ROW", "cg:VALUES_PER_ROW", "op:Shl", "op:Sub"])
    for nm in ("add_static_exp", "add_dynamic_exp"):
        f = D.fn("builder::table::TableBuilder::" + nm)
        D.need_cmp(f"b.{nm}.bits", "the exponent has no more bits than the field", f, "<=", ["arg:3", "len"], ["item:TOWER_LEVEL", "op:Shl"])
        h = [l for fr, bb, n2, f2 in D.closures(D.root(f), "map", "for_each") for l in (D.fa.gexits(f2, "Ok") or {}).values() if l.kind == "cmp" and l.op == "==" and {"Table.id"} & (l.lhs | l.rhs) and {"Col.table_id", "ColumnId.table_id"} & (l.lhs | l.rhs)]
        h += D.find_cmp(D.facts(f), "==", ["Table.id"], [("Col.table_id", "ColumnId.table_id")])
        D.ob(f"b.{nm}.own", "exponent bits of another table are refused", h, f)
    f = D.fn("builder::table::TableBuilder::add_structured")
    D.need_any("b.structured.po2", "a dynamically sized structured column needs a power-of-two table", f, [
        lambda: D.need_var("", "", f, "TableSizeSpec", "PowerOfTwo"), lambda: D.need_ok("", "", f, "requires_any_po2_size", kind=("pred",), val=True)])
    f = D.fn("builder::table::TableBuilder::add_fixed")
    D.need_cmp("b.fixed", "a fixed column matches the table's fixed size", f, "==", ["TableSizeSpec::Fixed.log_size"], ["fn:n_vars"])
    f = D.fn("builder::table::TableBuilder::assert_zero")
    D.need_exec("b.zero", "a zero assertion is recorded with its own expression", f, "push", args={0: ["TablePartition.zero_constraints"], 1: ["new:ZeroConstraint", "arg:3"]})
    D.need_agg("b.zero.expr", "the recorded expression is the asserted one", f, "ZeroConstraint", {"expr": ["arg:3", "Expr.expr", ops(), ints()]})
    f = D.fn("builder::table::TableBuilder::add_computed")
    D.need_sites("b.computed.zero", "a computed column of higher degree is committed and constrained", f, "assert_zero", args={2: ["arg:3", ("new:Col", "fn:add_committed")]}, pred=lambda C, fr, bb, t: fr.fn.id == f.id)
    ss = [x for x in D.sites_under(D.root(f), D.named("assert_zero")) if x[0].fn.id == f.id]
    T2 = D.terms(True)
    cs = only([c for fr, bb, t in ss for c in conds(D, fr, bb)], lambda l: l.kind == "cmp" and l.op in (">", ">=") and "fn:degree" in l.lhs and l.rhs & {"int:1", "int:2"} and (l.op == ">") == ("int:1" in l.rhs))
    D.ob("b.computed.all", "whenever its degree exceeds one", not cs, f, detail="; ".join(cs)[:300])
    for fr, bb, t in ss:
        g = str(T2.arg(fr, bb, 2, ("expr",)))
        D.ob("b.computed.eq", "to equal the expression", judge(g, r"ArithExpr::Var\{0=len\(.*\)\} \+ arg3\.expr|arg3\.expr \+ ArithExpr::Var\{.*\}", rx=True) is not False, f, sample=[g[:200]], detail=g[:300])
    f = D.fn("builder::table::TableBuilder::assert_nonzero")
    D.need_cmp("b.nonzero.own", "a non-zero assertion is made on the column's own table", f, "==", ["Col.table_id"], ["Table.id"])
    st = stores(D, f, "is_nonzero")
    D.ob("b.nonzero.set", "and marks that column", any(v == "1" for v in st) and len(st) == 1, f, sample=st, detail=str(st))
    for nm, d in (("pull", "Pull"), ("push", "Push"), ("pull_with_opts", "Pull"), ("push_with_opts", "Push"), ("read", "Pull")):
        f = D.fn("builder::table::TableBuilder::" + nm)
        opt = nm.endswith("opts")
        D.need_agg("b." + nm, f"`{nm}` records one {d.lower()} of the given columns on the given channel" + (" with the given multiplicity and selectors" if opt else " with multiplicity one and no selectors"), f, "Flush", {
            "columns": ["arg:3", C.TRUNC, "!adapt:rev"], "channel_id": ["arg:2", ops(), ints()], "direction": [f"new:FlushDirection::{d}", "!new:FlushDirection::" + ("Pull" if d == "Push" else "Push")],
            "multiplicity": ["arg:4", "FlushOpts.multiplicity", ops(), ints()] if opt else ["int:1", ops()], "selectors": ["arg:4", "FlushOpts.selectors", C.TRUNC] if opt else ["!arg:3"]})
        D.need_exec(f"b.{nm}.push", "and keeps it", f, "push", args={0: ["TablePartition.flushes"], 1: ["new:Flush"]})
    f = D.fn("builder::table::Table::new_column")
    D.need_agg("col.id", "a new column's id is its table and position", f, "ColumnId", {"table_id": ["Table.id"], "table_index": ["Table.columns", "len", ops(), ints()]})
    D.need_agg("col.info", "a new column keeps its definition and shape", f, "ColumnInfo", {"col": ["arg:3"], "is_nonzero": ["int:0"]})
    D.need_agg("col.shape", "a new column has the level of its field and the stacking of its type", f, "ColumnShape", {"tower_height": ["~item:TOWER_LEVEL<.*>"], "log_values_per_row": ["fn:log2_strict_usize", "~cg:.*"]})
    D.need_ret("col.part", "its variable is its position in the partition", f, ["partition_index"], ["TablePartition.columns", "len", ops(), ints()])
    D.need_exec("col.part.push", "where its id is recorded", f, "push", args={0: ["TablePartition.columns"], 1: ["new:ColumnId"]})
    D.need_exec("col.push", "and it is added to the table", f, "push", args={0: ["Table.columns"], 1: ["new:ColumnInfo"]})
    for nm, spec in (("require_power_of_two_size", "new:TableSizeSpec::PowerOfTwo"), ("require_fixed_size", "new:TableSizeSpec::Fixed")):
        f = D.fn("builder::table::TableBuilder::" + nm)
        st = stores(D, f, "table_size_spec")
        D.ob("b." + nm, f"{nm} sets the size rule", len(st) == 1 and spec[4:] in st[0] and (nm != "require_fixed_size" or "arg2" in st[0]), f, sample=st, detail=str(st))


def stores(D, f, field):
    """value forms stored to the named field"""
    T = D.terms()
    out = []
    fr = D.root(f)
    for b in f.rpo():
        for i, s in enumerate(f.blocks[b]["s"]):
            if s[0] == "=" and place(s[1])[1] and place(s[1])[1][-1][0] == "f" and place(s[1])[1][-1][2] == field:
                out.append(str(T.rvalue(fr, s[2], (), b, i, b, i)))
    return out


def exprs(C):
    """expression operators"""
    D = C.with_(inline=("binius_m3",), leaf=NOLEAF)
    T = D.terms()
    n = 0
    for f in D.prog.fns.values():
        if not re.search(r"m3/src/builder/expr\.rs$", f.file) or f.name not in ("add", "sub", "mul") or not f.trait or "{closure" in f.spath:
            continue
        def side(k, ty):
            if ty.startswith("builder::expr::Expr") or "Expr<" in ty:
                return rf"arg{k}\.expr"
            if "Col<" in ty:
                return rf"ArithExpr::Var\{{0=arg{k}\.partition_index\.0\}}"
            return rf"ArithExpr::Const\{{0=arg{k}(\.0)?\}}"
        a, b = side(1, f.locals[1]), side(2, f.locals[2])
        g = str(T.ret(D.root(f), ("expr",)))
        want = {"add": rf"{a} \+ {b}|{b} \+ {a}", "sub": rf"{a} \+ -1\*{b}|-1\*{b} \+ {a}", "mul": rf"{a}\*{b}|{b}\*{a}"}[f.name]
        if f.name == "mul" and a == b.replace("arg2", "arg1"):
            pass
        n += 1
        D.fn_seen.add(f.id)
        D.ob(f"expr.{f.name}.{n}", f"`{f.name}` on {f.locals[1].split('<')[0].split('::')[-1]} and {f.locals[2].split('<')[0].split('::')[-1]} builds the polynomial it names", judge(g, want, rx=True) is not False, f, sample=[g], detail=f"builds `{g[:200]}`")
        if "Const" not in b:
            D.need_any(f"expr.{f.name}.{n}.own", "operands of different tables are refused", f, [lambda: D.need_cmp("", "", f, "==", ["arg:1", ("Col.table_id", "Expr.table_id")], ["arg:2", ("Col.table_id", "Expr.table_id")])])
    D.ob("expr.n", "expression operators were found", n >= 12, None, sample=[n], detail=str(n))
    f = next((f for f in D.prog.fns.values() if re.search(r"m3/src/builder/expr\.rs$", f.file) and f.name == "from" and "Col<" in f.locals[1]), None)
    if f:
        g = str(T.ret(D.root(f), ("expr",)))
        D.ob("expr.from", "a column is the variable of its partition index", judge(g, r"ArithExpr::Var\{0=arg1\.partition_index\.0\}", rx=True) is not False, f, sample=[g], detail=g)
    for nm in ("upcast_col", "upcast_expr"):
        fs = D.prog.find("builder::" + ("column" if nm == "upcast_col" else "expr") + "::" + nm)
        for f in fs:
            at = D.fl.retval(D.root(f), ("table_index",) if nm == "upcast_col" else ("expr",))
            D.ob("upcast." + nm, "upcasting keeps the column", match(["arg:1", "Col.table_index" if nm == "upcast_col" else "Expr.expr", ops(), ints()], at), f, sample=[sorted(at)[:5]], detail=str(sorted(at)))


OBLIGATIONS = [compile_, lookup, columns, builder, exprs]
MIN_OBLIGATIONS = 60
