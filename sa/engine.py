"""Building the program dump from /repo's working tree and the common query/obligation layer."""
import hashlib, json, os, re, subprocess, sys, time, shutil, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
sys.path.insert(0, HERE)
from model import Program, Fn, callee_name, last_seg, place, strip_generics
from flow import Flow, Frame
from facts import Facts, Leaf, SWAP

CRATES = ["binius_compute", "binius_compute_test_utils", "binius_core", "binius_fast_compute", "binius_field", "binius_hal",
          "binius_hash", "binius_m3", "binius_macros", "binius_math", "binius_maybe_rayon", "binius_ntt", "binius_utils"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in files:
            if f.endswith((".rs", ".toml")) or f == "Cargo.lock":
                fs.append(os.path.join(root, f))
    for f in [os.path.join(VERIF, "driver/src/main.rs")] + sorted(fs):
        h.update(os.path.relpath(f, "/").encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def sh(cmd, env=None, cwd=None, timeout=1500):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def base_env():
    env = dict(os.environ)
    env["HOME"] = env.get("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    return env


def ensure_driver():
    env = base_env()
    src = open(os.path.join(VERIF, "driver/src/main.rs"), "rb").read()
    tag = hashlib.sha256(src).hexdigest()[:16]
    out = os.path.join(CACHE, "driver", tag, "mirdump")
    if os.path.exists(out):
        return out
    tgt = os.path.join(CACHE, "driver_target")
    r = sh(["cargo", "build", "--release", "--offline", "--target-dir", tgt], env=env, cwd=os.path.join(VERIF, "driver"))
    if r.returncode != 0:
        log(r.stdout[-4000:])
        raise SystemExit("driver build failed")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    shutil.copy2(os.path.join(tgt, "release", "mirdump"), out + ".tmp")
    os.rename(out + ".tmp", out)
    return out


def ensure_dump():
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = tree_hash()
    out = os.path.join(CACHE, "dumps", key)
    if os.path.exists(os.path.join(out, "DONE")):
        return out
    drv = ensure_driver()
    shutil.rmtree(os.path.join(CACHE, "dumps"), ignore_errors=True)
    os.makedirs(out)
    env = base_env()
    sysroot = sh(["rustc", "--print", "sysroot"], env=env).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env["MIRDUMP_OUT"] = out
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    # debug_assert! must not count as an enforced check: analyse the release configuration
    env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTFLAGS"] = "-C target-cpu=x86-64-v3 -C target-feature=+aes,+pclmulqdq"
    tgt = os.path.join(CACHE, "target")
    for sub in ("debug/build", "debug/.fingerprint", "debug/deps"):
        d = os.path.join(tgt, sub)
        if os.path.isdir(d):
            for x in os.listdir(d):
                if x.startswith(("binius_", "binius-", "libbinius_")):
                    p = os.path.join(d, x)
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
    r = sh(["cargo", "check", "--offline", "--workspace", "--lib", "--target-dir", tgt], env=env, cwd=REPO)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        raise SystemExit("cargo check of /repo failed under the analysis toolchain")
    missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]
    if missing:
        raise SystemExit(f"dump incomplete: {missing}")
    open(os.path.join(out, "DONE"), "w").close()
    return out


# --------------------------------------------------------------------------------------------
def transcript_leaf(fl, fr, bb, c):
    """transcript operations are sources: a read is a prover-controlled value, a sample a challenge"""
    if "fn" not in c:
        return None
    full = callee_name(c)
    if "TranscriptReader" in full and "::read" in full:
        kinds = reader_kind(fl, fr, bb)
        t = fr.fn.blocks[bb]["t"]
        at = {"READ"} | {"READ:" + k for k in kinds} | {"R:" + last_seg(full)}
        return at, range(1, len(t[2])) if last_seg(full) != "read_debug" else ()
    if last_seg(full) in ("sample", "sample_vec", "sample_bits", "sample_bits_reader") and ("CanSample" in full or "CanSample" in c.get("tr", "") or "fiat_shamir" in full):
        t = fr.fn.blocks[bb]["t"]
        at = {"SAMPLE", "S:" + last_seg(full)}
        return at, range(1, len(t[2]))
    return None


def reader_kind(fl, fr, bb):
    key = ("rk", fr.uid, bb)
    m = fl.step_memo.get(key)
    if m is not None:
        return m
    fl.step_memo[key] = set()
    at = fl.arg(fr, bb, 0)
    ks = set()
    if "fn:message" in at:
        ks.add("msg")
    if "fn:decommitment" in at:
        ks.add("dec")
    if not ks:
        ks.add("?")
    fl.step_memo[key] = ks
    return ks


class Missing(Exception):
    pass


class Viol:
    def __init__(self, key, msg, file="", line=0):
        self.key, self.msg, self.file, self.line = key, msg, file, line


def match(req, atoms):
    """req: iterable of requirements over an atom set"""
    for r in req:
        if isinstance(r, (tuple, set, frozenset)):
            if not any(match([x], atoms) for x in r):
                return False
        elif callable(r):
            if not r(atoms):
                return False
        elif r.startswith("!~"):
            if any(re.fullmatch(r[2:], a) for a in atoms):
                return False
        elif r.startswith("!"):
            if r[1:] in atoms:
                return False
        elif r.startswith("~"):
            if not any(re.fullmatch(r[1:], a) for a in atoms):
                return False
        elif r not in atoms:
            return False
    return True


# functions whose appearance in a value changes it: a value form that differs by one of these is decided, not merely spelled differently
VALUE_FNS = set("narrow_u8 narrow_u16 narrow_u32 narrow_i32 min max saturating_sub saturating_add saturating_mul wrapping_sub wrapping_add wrapping_mul wrapping_neg checked_sub skip take step_by filter rev pow square double "
                "skip_while take_while truncate dedup unwrap_or unwrap_or_default next_power_of_two Lt Le Gt Ge Eq Ne Not BitAnd BitOr BitXor Shl Shr Rem Div and or not len clamp abs "
                "tuple array index RangeTo RangeFrom Range RangeInclusive RangeToInclusive invert invert_or_zero eq ne lt le gt ge is_empty is_none is_some chain zip map enumerate collect cloned copied iter".split())
UNDECIDED = ("rec", "undef", "mut:", "phi{", "indirect", "partial(", "@bb")


def vocab(s):
    return set(re.findall(r"([A-Za-z_][\w:]*)[({]", s))


def judge(got, want, rx=False):
    """True: the value has the specified normal form.  False: it is a different value.  None: undecided -- the form is outside the
    normal form (loops, merges the specification does not have) or uses functions the specification does not mention."""
    got = str(got)
    want = (want,) if isinstance(want, str) else tuple(want)
    for w in want:
        if (re.fullmatch(w, got) if rx else w == got):
            return True
    plain = [re.sub(r"\\(.)", r"\1", w) for w in want] if rx else list(want)
    parts = alts(got)
    if len(parts) > 1 and not any("phi{" in w for w in plain):
        # a merge of the specified value with another one
        js = [judge(x, want, rx) for x in parts]
        return False if True in js and False in js else None
    if "phi{" in got and not any("phi{" in w for w in plain) and not re.search(r"(?<![A-Za-z_])rec(?![A-Za-z_])", got):
        ex = expand(got)
        if len(ex) > 1:
            js = [judge(x, want, rx) for x in ex]
            return False if True in js and False in js else None
    for u in UNDECIDED:
        if re.search(r"(?<![A-Za-z_])" + re.escape(u) + (r"(?![A-Za-z_])" if u[-1].isalpha() else ""), got) and not any(u in w for w in plain):
            return None
    known = VALUE_FNS.union(*[vocab(w) for w in plain])
    new = {v for v in vocab(got) if v not in known and not v.endswith(tuple(":elem%d" % i for i in range(1, 6)))}
    return None if new else False


def squash(s, **names):
    """replace every (outermost) call of the named functions, arguments included, by a token"""
    s = str(s)
    out, i = "", 0
    rx = re.compile(r"(?<![A-Za-z0-9_:])(" + "|".join(names) + r")[({]")
    while i < len(s):
        m = rx.match(s, i) if (i == 0 or not (s[i - 1].isalnum() or s[i - 1] in "_:")) else None
        if m:
            d, j = 0, m.end() - 1
            while j < len(s):
                d += s[j] in "({["
                d -= s[j] in ")}]"
                j += 1
                if d == 0:
                    break
            out += names[m.group(1)]
            i = j
        else:
            out += s[i]
            i += 1
    return out


def expand(s, limit=16):
    """the alternatives of a value with merges inside"""
    out, todo = [], [str(s)]
    while todo:
        x = todo.pop()
        i = x.find("phi{")
        while i > 0 and (x[i - 1].isalnum() or x[i - 1] in "_:"):
            i = x.find("phi{", i + 1)
        if i < 0:
            out.append(x)
            continue
        d, j = 0, i + 3
        while j < len(x):
            d += x[j] in "({["
            d -= x[j] in ")}]"
            j += 1
            if d == 0:
                break
        a = alts(x[i:j])
        if len(out) + len(todo) + len(a) > limit or len(a) < 2:
            return [str(s)]
        todo += [x[:i] + y + x[j:] for y in a]
    return out


def alts(s):
    """the alternatives of a merged value"""
    s = str(s)
    if not (s.startswith("phi{") and s.endswith("}")):
        return {s}
    out, d, cur = set(), 0, ""
    for ch in s[4:-1]:
        if ch in "({[":
            d += 1
        elif ch in ")}]":
            d -= 1
        if ch == "|" and d == 0:
            out.add(cur)
            cur = ""
        else:
            cur += ch
    out.add(cur)
    return out


def spine(s):
    """names of the functions an iterated form is obtained by from the collection(s) it iterates"""
    out, todo = set(), [s]
    while todo:
        x = todo.pop().strip()
        if x.startswith("phi{"):
            todo += [a for a in alts(x) if a not in ("rec", x)]
            continue
        m = re.match(r"\(?([A-Za-z_][\w:]*)\(", x)
        if not m:
            continue
        out.add(m.group(1))
        d, cur, args = 0, "", []
        for ch in x[m.end():]:
            if ch in "({[":
                d += 1
            if ch in ")}]":
                d -= 1
                if d < 0:
                    break
            if ch == "," and d == 0:
                args.append(cur)
                cur = ""
            else:
                cur += ch
        args.append(cur)
        todo += args if m.group(1) in ("zip", "izip", "chain", "multizip") else args[:1]
    return out


class Ctx:
    def __init__(self, dump=None, leaf=transcript_leaf, inline=("binius_core",), max_depth=10, noinline=None, prog=None, assume=None):
        self.dump = dump or ensure_dump()
        self.prog = prog or Program(self.dump)
        self.kw = dict(inline=inline, max_depth=max_depth, noinline=noinline, assume=assume)
        self.fl = Flow(self.prog, inline_crates=inline, max_depth=max_depth, leaf=leaf, noinline=noinline, assume=assume)
        self.fa = Facts(self.fl)
        self.viol = []
        self.obl = []       # (id, description, ok, sample)
        self.fn_seen = set()
        self.sites = 0
        self.leaves_seen = 0
        self._ok = {}
        self._others = {}

    def with_(self, **kw):
        """a second engine over the same program (other inlining or leaf model), sharing the report"""
        k = repr(sorted((a, str(b)) for a, b in kw.items()))
        if k not in self._others:
            c = Ctx(self.dump, prog=self.prog, **kw)
            c.viol, c.obl, c.fn_seen = self.viol, self.obl, self.fn_seen
            self._others[k] = c
        return self._others[k]

    def when(self, **assume):
        """the same program with every match on the given enums resolved to one variant"""
        return self.with_(assume=assume)

    def opaque(self, *names):
        """the same program with the results of the named functions (`module::name` or `name`) kept abstract: they appear as RES:<name>"""
        key = "opaque:" + ",".join(names)
        if key not in self._others:
            def leaf(fl, fr, bb, c):
                if "fn" in c:
                    full = strip_generics(callee_name(c))
                    for n in names:
                        if full == n or full.endswith("::" + n):
                            return {"RES:" + n}, ()
                return transcript_leaf(fl, fr, bb, c)
            c = Ctx(self.dump, prog=self.prog, leaf=leaf, inline=self.kw["inline"], max_depth=self.kw["max_depth"], noinline=self.kw["noinline"], assume=self.kw["assume"])
            c.viol, c.obl, c.fn_seen = self.viol, self.obl, self.fn_seen
            self._others[key] = c
        return self._others[key]

    def closures(self, fr, *callees, depth=0, deep=True, seen=None):
        """(frame, bb, callee name, closure frame) for the closures handed to the named adapters, in fr, its closures and inlined callees"""
        out = []
        seen = seen if seen is not None else set()
        if isinstance(fr, Fn):
            fr = self.root(fr)
        if fr.uid in seen or depth > 12:
            return out
        seen.add(fr.uid)
        self.fn_seen.add(fr.fn.id)
        for b, t in fr.fn.calls():
            c = t[1]
            nm = last_seg(callee_name(c)) if "fn" in c else "?"
            for (k, f2) in self.fl.closures_of_call(fr, b):
                if not callees or nm in callees:
                    out.append((fr, b, nm, f2))
                if deep:
                    out += self.closures(f2, *callees, depth=depth + 1, seen=seen)
            if deep and self.fl.leaf(self.fl, fr, b, c) is None:
                for g in self.prog.callee_candidates(c):
                    if self.fl.can_inline(fr, g) and depth < 3:
                        out += self.closures(self.fl.call_frame(fr, b, g), *callees, depth=depth + 1, seen=seen)
        return out

    # ---- anchors
    def fn(self, path, self_ty=None, trait=None, crate=None):
        r = self.prog.find(path, self_ty=self_ty, trait=trait, crate=crate)
        if len(r) != 1:
            raise Missing(f"anchor `{path}`" + (f" of trait {trait}" if trait else "") + (f" for {self_ty}" if self_ty else "") + f": expected exactly one function, found {len(r)}")
        self.fn_seen.add(r[0].id)
        return r[0]

    def fns(self, path, n=None, **kw):
        r = self.prog.find(path, **kw)
        if not r or (n is not None and len(r) < n):
            raise Missing(f"anchor `{path}` {kw}: found {len(r)}, need {n or 1}")
        for f in r:
            self.fn_seen.add(f.id)
        return r

    def root(self, fn):
        return self.fl.root(fn)

    def facts(self, fn, want="Ok"):
        k = (fn.id, want)
        if k not in self._ok:
            r = self.fa.gexits(self.fl.root(fn), want if want != "Ok" or "Result<" in fn.ret_ty() else None)
            self._ok[k] = list((r or {}).values())
            self.leaves_seen += len(self._ok[k])
            for l in self._ok[k]:
                self.fn_seen.add(l.fr.fn.id)
        return self._ok[k]

    # ---- obligations
    def ob(self, oid, desc, ok, fn=None, sample=None, detail="", line=None, file=None):
        self.obl.append((oid, desc, bool(ok), sample))
        if not ok:
            f = file or (fn.file if fn else "")
            ln = line or (fn.line if fn else 0)
            where = f"{f}:{ln}" + (f" fn {fn.spath}" if fn else "")
            self.viol.append(Viol(oid, f"{desc} -- NOT ESTABLISHED at {where}. {detail}".strip(), f, ln))
        return bool(ok)

    # truncating adapters: a quantified check whose iteration domain goes through one of these covers only a part
    TRUNC = "!~adapt:(take|skip(=1)?|step_by|take_while|skip_while|map_while|filter|filter_map|truncate|dedup|dedup_by|dedup_by_key|unique|unique_by|duplicates|duplicates_by|take_while_ref|take_while_inclusive|while_some|dropping|dropping_back|k_smallest|coalesce|nth)|op:(clamp|saturating_sub)"

    limit = True        # off in the modules whose quantities legitimately go through a minimum
    LIMIT = frozenset({"op:Narrow", "op:min", "op:clamp", "op:saturating_sub", "call:min", "call:clamp", "call:saturating_sub"})      # a compared value must not be cut off
    PARTIAL = {"next", "next_back", "nth", "first", "last", "take", "skip", "step_by", "filter", "take_while", "skip_while", "truncate", "split_first", "split_last", "get", "pop", "dedup", "min"}

    def whole(self, l, head=False, tol=()):
        """no loop this fact is quantified over iterates a part selected by position from the collection"""
        if not match([self.TRUNC], l.domain() - ({"adapt:skip=1"} if head else set()) - {"adapt:" + x for x in tol}) or (self.limit and l.domain() & self.LIMIT):
            return False
        if not hasattr(self, "_spine"):
            from terms import Terms
            self._spine = Terms(self.fl, gen=True)
            self._spine.limit = 4000
        T = self._spine
        for (fr, h, kind) in l.loops:
            T.steps = 0
            try:
                s = self.fa.loop_form(T, fr, h, kind)
            except RecursionError:
                continue
            if (self.PARTIAL - set(tol)) & spine(re.sub(r"^(phi\{(rec\|)?)?skip\(", r"\1iter(", s) if head and "adapt:skip=1" in l.domain() and "adapt:skip" not in l.domain() else s):
                return False
        return True

    def guards_ok(self, l, allow):
        """every condition under which the check could be bypassed is one of the allowed ones"""
        if not l.guards:
            return True
        for (k, loc, ls, _) in self.fa.guard_leaves(l):
            if k == "break" or not allow:
                return False
            if not any(a(x) for a in allow for x in ls):
                return False
        return True

    def find_cmp(self, leaves, op, L=(), R=(), forall=None, dom=None, n=1, both=(), infn=None, allow=(), trunc=False, small=False, head=False, tol=()):
        out = []
        for l in leaves:
            if l.kind != "cmp":
                continue
            if not self.guards_ok(l, allow):
                continue
            if forall is not None and bool(l.loops) != forall:
                continue
            if infn and l.fr.fn.name != infn:
                continue
            ops = op if isinstance(op, (tuple, list, set)) else (op,)
            hit = False
            if l.op in ops and match(L, l.lhs) and match(R, l.rhs) and match(both, l.lhs | l.rhs):
                hit = True
            elif SWAP[l.op] in ops and match(L, l.rhs) and match(R, l.lhs) and match(both, l.lhs | l.rhs):
                hit = True
            if hit and dom is not None and not match(dom, l.domain()):
                hit = False
            if hit and self.limit and not small and (l.lhs | l.rhs) & self.LIMIT:
                hit = False
            if hit and not trunc and l.loops and not self.whole(l, head, tol):
                hit = False
            if hit:
                out.append(l)
        return out

    def need_cmp(self, oid, desc, fn, op, L=(), R=(), want="Ok", **kw):
        n = kw.pop("count", 1)
        ls = self.facts(fn, want)
        hits = self.find_cmp(ls, op, L, R, **kw)
        near = ""
        if len(hits) < n:
            cand = [l for l in ls if l.kind == "cmp" and l.fr.depth <= 2]
            near = f"checks found on accepting paths of `{fn.name}`: " + ("; ".join(f"{'conditional ' if l.guards else ''}{l.op} at {l.loc()}" for l in cand[:12]) or "none")
        return self.ob(oid, desc, len(hits) >= n, fn, sample=[f"{h.op} at {h.loc()}" for h in hits[:3]], detail=near)

    def need_ok(self, oid, desc, fn, callee, want="Ok", args=None, kind=("ok",), forall=None, dom=None, count=1, val=None, pred=None, allow=(), trunc=False, small=False, head=False, tol=()):
        ls = self.facts(fn, want)
        names = callee if isinstance(callee, (tuple, list, set)) else (callee,)
        hits = []
        for l in ls:
            if l.kind not in kind or l.name not in names:
                continue
            if val is not None and l.val != val:
                continue
            if not self.guards_ok(l, allow):
                continue
            if forall is not None and bool(l.loops) != forall:
                continue
            if args:
                if not all(match(req, l.arg(k)) and (small or not self.limit or not l.arg(k) & self.LIMIT) for k, req in args.items()):
                    continue
            if dom is not None and not match(dom, l.domain()):
                continue
            if pred and not pred(l):
                continue
            if not trunc and l.loops and not self.whole(l):
                continue
            hits.append(l)
        return self.ob(oid, desc, len(hits) >= count, fn, sample=[repr(h) for h in hits[:3]],
                       detail="" if len(hits) >= count else f"no accepting path of `{fn.name}` is guarded by a successful `{'/'.join(names)}` with the required operands")

    def need_exec(self, oid, desc, fn, callee, **kw):
        kw.setdefault("kind", ("exec", "ok"))
        kw.setdefault("want", "Ok")
        return self.need_ok(oid, desc, fn, callee, **kw)

    PUSH = ("push", "push_back", "push_front", "extend", "insert", "append", "extend_from_slice")

    def need_all(self, oid, desc, fn, req=(), allow=(), names=None, n=0, pred=None):
        """no addition of a matching value to a collection is skipped under a condition other than the allowed ones (iteration and error
        propagation aside; when both branches of a condition add a value it is not skipped)"""
        from cond import conds_at, atoms
        names = names or self.PUSH
        allow = list(allow)
        sites = []
        for fr, bb, t in self.sites_under(self.root(fn), self.named(*names)):
            if fr.fn.file == fn.file and len(t[2]) > 1 and match(req, self.fl.arg(fr, bb, 1)) and (pred is None or pred(fr, bb, t)):
                sites.append((fr, bb, conds_at(self, fr, bb)))
        bad = []
        for fr, bb, cs in sites:
            for loc, ls, f2, es in cs:
                if ls and all(any(a(l) for a in allow) for l in ls if l.kind != "exec"):
                    continue
                mine = {e[2] for l2, s2, g, es2 in cs if g.uid == f2.uid for e in es2 if es and e[1] == es[0][1]}
                if es and any(e[1] == es[0][1] and e[2] not in mine for g, b2, cs2 in sites if (g.uid, b2) != (fr.uid, bb) for l2, s2, f3, es2 in cs2 if f3.uid == f2.uid for e in es2):
                    continue
                bad.append(f"{fr.loc(bb)} only if ({loc}) " + "; ".join(f"{l.kind} {l.name or l.op} " + " ".join(sorted(atoms(l)))[:80] for l in ls))
        return self.ob(oid, desc, not bad and len(sites) >= n, fn, sample=[fr.loc(bb) for fr, bb, cs in sites[:3]], detail=bad[0] if bad else f"{len(sites)} additions")

    def dropped(self, f2, nm="filter"):
        """facts that hold whenever the closure of a filter, retain or filter_map leaves an element out"""
        save, self.fa.guarded = self.fa.guarded, False
        try:
            return list((self.fa.exits(f2, "None" if nm in ("filter_map", "find_map", "map_while") else "false") or {}).values())
        finally:
            self.fa.guarded = save

    def need_var(self, oid, desc, fn, adt, variant, src=(), forall=None, dom=None, want="Ok", allow=()):
        """acceptance requires the enum value to be one of the given variants"""
        vs = set(variant.split("|"))
        hits = [l for l in self.facts(fn, want) if l.kind == "var" and l.val == adt and set(l.name.split("|")) <= vs and match(src, l.lhs)
                and (forall is None or bool(l.loops) == forall) and (dom is None or match(dom, l.domain())) and self.guards_ok(l, allow)]
        return self.ob(oid, desc, hits, fn, sample=[repr(h) for h in hits[:3]], detail=f"no accepting path restricts {adt} to {variant}")

    def need_sorted(self, oid, desc, fn, src, want="Ok"):
        hits = [l for l in self.facts(fn, want) if l.kind == "pred" and "sorted" in (l.name or "") and l.val is True and not l.guards and match(list(src) + [self.TRUNC], l.arg(0) if l.args() else ())]
        hits += self.find_cmp(self.facts(fn, want), ("<=", "<"), src, src, forall=True)
        return self.ob(oid, desc, hits, fn, sample=[repr(h) for h in hits[:3]], detail="no accepting path is guarded by an ordering check")

    def need_ret(self, oid, desc, fn, path, req):
        at = self.fl.retval(self.fl.root(fn), tuple(path))
        return self.ob(oid, desc, match(req, at), fn, sample=[" ".join(sorted(at))[:200]], detail="value flow found: " + " ".join(sorted(x for x in at if not x.startswith(("p:", "int:"))))[:300])

    def need_any(self, oid, desc, fn, alts):
        """one of several equivalent ways to establish the same fact; alts are functions(sub-context) -> bool"""
        ok = False
        for a in alts:
            n, v = len(self.obl), len(self.viol)
            ok = a()
            del self.obl[n:], self.viol[v:]
            if ok:
                break
        return self.ob(oid, desc, ok, fn)

    # ---- exact values
    def terms(self, char2=False, gen=False):
        k = "_terms%d%d" % (char2, gen)
        if not hasattr(self, k):
            from terms import Terms
            setattr(self, k, Terms(self.fl, char2=char2, gen=gen))
        return getattr(self, k)

    def term_ok(self, got, want):
        return judge(got, want)

    def need_term(self, oid, desc, fn, want, got=None, path=(), char2=False):
        if got is None:
            got = self.terms(char2).ret(self.fl.root(fn), path)
        r = self.term_ok(got, want)
        if r is None:
            self.undecided = getattr(self, "undecided", [])
            self.undecided.append(f"{oid}: {str(got)[:200]}")
        return self.ob(oid, desc, r is not False, fn, sample=[str(got)[:300]], detail=f"value is now `{str(got)[:400]}`, the specification is `{want if isinstance(want, str) else want[0]}`")

    def need_arg_re(self, oid, desc, fn, callee, k, rx, char2=False, path=(), want="Ok", pred=None):
        """every executed call of `callee` (on accepting paths) selected by pred has an argument whose value form matches rx (or is undecided)"""
        names = callee if isinstance(callee, (tuple, list, set)) else (callee,)
        ls = [l for l in self.facts(fn, want) if l.kind in ("ok", "exec") and l.name in names and (pred is None or pred(l))]
        T = self.terms(char2)
        got = [str(T.arg(l.fr, l.bb, k, path)) for l in ls if k < len(l.fr.fn.blocks[l.bb]["t"][2])]
        bad = [g for g in got if judge(g, rx, rx=True) is False]
        return self.ob(oid, desc, got and not bad, fn, sample=[g[:200] for g in got[:2]], detail=f"value is `{bad[0][:300]}`" if bad else "no such call on an accepting path")

    def need_sites(self, oid, desc, fn, callee, args=None, rx=None, n=1, char2=False, pred=None, optional=False):
        """every call of `callee` in the bodies under fn has operands with the required value flow / value form; n = least number of sites"""
        names = callee if isinstance(callee, (tuple, list, set)) else (callee,)
        ss = [x for x in self.sites_under(self.root(fn), self.named(*names)) if pred is None or pred(self, *x)]
        T = self.terms(char2)
        bad = []
        for fr, bb, t in ss:
            for k, req in (args or {}).items():
                if not match(req, self.fl.arg(fr, bb, k)):
                    bad.append((fr, bb, f"operand {k} comes from " + " ".join(sorted(self.fl.arg(fr, bb, k)))[:200]))
            for k, r in (rx or {}).items():
                g = str(T.arg(fr, bb, k))
                if judge(g, r, rx=True) is False:
                    bad.append((fr, bb, f"operand {k} is `{g[:200]}`"))
        ok = not bad and (len(ss) >= n or optional and not ss)
        return self.ob(oid, desc, ok, fn, sample=[fr.loc(bb) for fr, bb, t in ss[:3]],
                       detail=(f"{bad[0][0].loc(bad[0][1])}: {bad[0][2]}" if bad else f"{len(ss)} call(s) of {names}, {n} expected"))

    def cmp_norm(self, l, char2=False):
        """(operator, left form, right form) of a comparison of integers, with offsets by one removed: x <= y-1 is x < y; > and >= are swapped"""
        T = self.terms(char2)
        a, b = (str(T.op(l.fr, x[0], (), x[1], x[2])) for x in (l.a, l.b))
        op = l.op
        if op in (">", ">="):
            a, b, op = b, a, SWAP[op]
        one = lambda v, k: v[len(k):] if v.startswith(k) and " + " not in v[len(k):] else None
        if op == "<=":
            for x, y in ((a, one(b, "-1 + ")), (one(a, "1 + "), b)):
                if x is not None and y is not None:
                    return "<", x, y
        if op == "<":
            for x, y in ((a, one(b, "1 + ")), (one(a, "-1 + "), b)):
                if x is not None and y is not None:
                    return "<=", x, y
        return op, a, b

    # ---- call sites
    def sites_under(self, fr, pred, depth=0, seen=None, closures=True):
        """(frame, bb, call terminator) of every call satisfying pred reachable under frame fr (inlining bodies)"""
        out = []
        seen = seen if seen is not None else set()
        if fr.uid in seen or depth > 30:
            return out
        seen.add(fr.uid)
        self.fn_seen.add(fr.fn.id)
        for b, t in fr.fn.calls():
            c = t[1]
            self.sites += 1
            if pred(c):
                out.append((fr, b, t))
            if self.fl.leaf(self.fl, fr, b, c) is not None:
                continue
            cands = self.prog.callee_candidates(c)
            for g in cands:
                if self.fl.can_inline(fr, g):
                    out += self.sites_under(self.fl.call_frame(fr, b, g), pred, depth + 1, seen)
            if closures:
                for (k, f2) in self.fl.closures_of_call(fr, b):
                    out += self.sites_under(f2, pred, depth + 1, seen)
        return out

    def frames_under(self, fr, depth=0, seen=None):
        """every frame reachable under fr: inlined callees and closures"""
        seen = seen if seen is not None else {}
        if fr.uid in seen or depth > 30:
            return list(seen.values())
        seen[fr.uid] = fr
        self.fn_seen.add(fr.fn.id)
        for b, t in fr.fn.calls():
            if self.fl.leaf(self.fl, fr, b, t[1]) is not None:
                continue
            for g in self.prog.callee_candidates(t[1]):
                if self.fl.can_inline(fr, g):
                    self.frames_under(self.fl.call_frame(fr, b, g), depth + 1, seen)
            for (k, f2) in self.fl.closures_of_call(fr, b):
                self.frames_under(f2, depth + 1, seen)
        return list(seen.values())

    def aggs(self, fn, adt, variant=None):
        """(frame, block, statement, {field: operand}) of every construction of the struct or variant under fn"""
        out = []
        for fr in self.frames_under(self.root(fn) if isinstance(fn, Fn) else fn):
            live = set(fr.fn.rpo())
            for b in sorted(live):
                for i, s in enumerate(fr.fn.blocks[b]["s"]):
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][3].split("::")[-1] == adt and (variant is None or s[2][5] == variant):
                        out.append((fr, b, i, dict(zip(s[2][6], s[2][2]))))
        return out

    def need_agg(self, oid, desc, fn, adt, fields, variant=None, n=1, pred=None, rx=None, char2=False):
        """every construction of `adt` under fn takes its fields from the required sources"""
        T = self.terms(char2)
        bad, k = [], 0
        for fr, b, i, ops_ in self.aggs(fn, adt, variant):
            if pred and not pred(fr, b):
                continue
            k += 1
            for nm, req in fields.items():
                if nm not in ops_:
                    raise Missing(f"field {adt}.{nm}")
                at = self.fl.operand(fr, ops_[nm], b, i)
                if not match(req, at):
                    bad.append(f"{fr.loc(b)}: {nm} comes from " + " ".join(sorted(at))[:200])
            for nm, r in (rx or {}).items():
                if nm not in ops_:
                    raise Missing(f"field {adt}.{nm}")
                g = str(T.op(fr, ops_[nm], (), b, i))
                if judge(g, r, rx=True) is False:
                    bad.append(f"{fr.loc(b)}: {nm} is `{g[:200]}`")
        return self.ob(oid, desc, not bad and k >= n, fn, sample=[f"{k} constructions"], detail=bad[0] if bad else f"{k} constructions of {adt}, {n} expected")

    def named(self, *names):
        s = set(names)
        return lambda c: "fn" in c and last_seg(callee_name(c)) in s


# guard patterns -----------------------------------------------------------------------------
def G(kind, name=None, val=None):
    return lambda l: l.kind == kind and (name is None or l.name in ((name,) if isinstance(name, str) else name)) and (val is None or l.val == val)


def Gcmp(op, L=(), R=()):
    ops = (op,) if isinstance(op, str) else tuple(op)

    def f(l):
        if l.kind != "cmp":
            return False
        return (l.op in ops and match(L, l.lhs) and match(R, l.rhs)) or (SWAP[l.op] in ops and match(L, l.rhs) and match(R, l.lhs))
    return f


def ops(*allowed):
    """closed slice: no other operator takes part in computing the value"""
    s = set(allowed)
    return lambda atoms: all(a[3:] in s for a in atoms if a.startswith("op:"))


def ints(*allowed):
    s = {str(x) for x in allowed}
    return lambda atoms: all(a[4:] in s for a in atoms if a.startswith("int:"))


def argty(l, k=0):
    """declared type of an operand of the call behind a fact"""
    t = l.fr.fn.blocks[l.bb]["t"]
    if t[0] != "call" or len(t[2]) <= k:
        return ""
    p = t[2][k].get("m", t[2][k].get("c"))
    return str(l.fr.fn.locals[place(p)[0]]) if p is not None else ""


def NONEMPTY(*src, no=()):
    """the guard 'collection X is empty / has no first element': the check is vacuous when there is nothing to check"""
    def f(l):
        own = lambda a: not (set(no) & set(a)) and (not all(x.startswith("arg:") for x in src) or not any(re.fullmatch(r"[A-Z]\w*\.\w+", x) for x in a))
        if l.kind in ("ok", "pred") and l.name in ("next", "first", "last", "front", "back", "front_mut", "pop_front", "first_mut", "last_mut", "is_empty", "pop", "split_first", "split_last", "peek", "next_back", "is_some", "is_none"):
            return match(src, l.arg(0)) and own(l.arg(0))
        if l.kind == "cmp":
            for a, b, op in ((l.lhs, l.rhs, l.op), (l.rhs, l.lhs, SWAP[l.op])):
                if not own(a):
                    continue
                if match(src, a) and b <= {"int:0"} and op in ("==", "!=", ">", "<="):
                    return True
                if match(src, a) and b <= {"int:1"} and op in ("<", ">="):
                    return True
        return False
    return f
