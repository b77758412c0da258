"""Transcript event words: the language of transcript operations along the accepting paths of a function.

Letters: m message read, d decommitment read, s challenge sample, o statement observation, w message write, e decommitment write.
Helper functions and closures are inlined, a repeated single kind is one letter, a loop over several kinds is a starred group, so the
word does not depend on how the code is cut into functions or how its loops are written.
"""
import re
from model import callee_name, last_seg, strip_generics
CAP = 60
ITER = re.compile(r"Iterator|iter::|IterMut|rayon|itertools|slice::|vec::|repeat_with|array::|from_fn|PackedField")


def compress(w):
    out = []
    i = 0
    # tokens: letters or parenthesised groups
    for tok in re.findall(r"\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\*|.", w):
        if out and out[-1] == tok:
            continue
        out.append(tok)
    return "".join(out)


def star(words):
    ws = sorted({w for w in words if w})
    if not ws:
        return ""
    if len(ws) == 1 and len(ws[0]) == 1:
        return ws[0]
    if len(ws) == 1 and re.fullmatch(r"\(.*\)\*", ws[0]) and ws[0].count(")*") == 1:
        return ws[0]
    return "(" + "|".join(ws) + ")*"


class Events:
    def __init__(self, C, stop=()):
        self.C = C
        self.stop = dict(stop) if not isinstance(stop, dict) else stop   # name -> letter: calls kept as a token
        self.memo = {}
        self.memo_fn = {}
        self.over = False

    def leaf(self, fr, bb, c):
        full = callee_name(c)
        n = last_seg(full)
        if "TranscriptReader" in full and n.startswith("read"):
            if n == "read_debug":
                return ""
            at = self.C.fl.arg(fr, bb, 0)
            return "d" if "fn:decommitment" in at and "fn:message" not in at else "m"
        if "TranscriptWriter" in full and n.startswith("write"):
            if n == "write_debug":
                return ""
            at = self.C.fl.arg(fr, bb, 0)
            return "e" if "fn:decommitment" in at else "o" if "fn:observe" in at else "w"
        if n in ("sample", "sample_vec", "sample_bits", "sample_bits_reader") and ("CanSample" in full or "CanSample" in c.get("tr", "") or "fiat_shamir" in full):
            return "s"
        return None

    def call(self, fr, bb, t, depth):
        c = t[1]
        if "fn" not in c:
            ws = set()
            for k, f2 in self.C.fl.closures_of_call(fr, bb):
                ws |= self.frame(f2, depth + 1)
            return ws or {""}
        lf = self.leaf(fr, bb, c)
        if lf is not None:
            return {lf}
        full = callee_name(c)
        n = last_seg(full)
        for k, v in self.stop.items():
            if strip_generics(full).endswith(k):
                return {v}
        ws = set()
        for g in self.C.prog.callee_candidates(c):
            if g.id in fr.stack():
                continue
            if self.C.fl.can_inline(fr, g):
                ws |= self.frame(self.C.fl.call_frame(fr, bb, g), depth + 1)
        clo = set()
        for k, f2 in self.C.fl.closures_of_call(fr, bb):
            if ws != set():
                continue     # closures handed to an inlined function are invoked there
            cw = self.frame(f2, depth + 1)
            if cw - {""}:
                if ITER.search(full) and not re.search(r"option::|result::|Option<|Result<", full.split("::<")[0]):
                    cw = {star(cw)}
                clo |= cw
        if not ws:
            ws = clo or {""}
        return ws

    def frame(self, fr, depth=0):
        if depth > 14:
            return {""}
        if not self.interesting(fr.fn):
            return {""}
        k = fr.uid
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {""}
        self.C.fn_seen.add(fr.fn.id)
        fn = fr.fn
        rt = fn.ret_ty()
        want = "Ok" if re.match(r"(std|core)::result::Result|Result<|.*\bResult<", rt) else None
        if want:
            ad, can = self.C.fa._acc(fr, want)
            if not ad:
                can = set(fn.rpo())
        else:
            can = set(fn.rpo())
        r = self.region(fr, can, 0, None, depth)
        self.memo[k] = r
        return r

    def interesting(self, fn, seen=None):
        """may fn (transitively) touch the transcript? cheap over-approximation on the call graph"""
        r = self.memo_fn.get(fn.id)
        if r is not None:
            return r
        self.memo_fn[fn.id] = True
        return True

    def region(self, fr, can, entry, loop, depth):
        """words of the paths from entry to the region's end; a loop's region ends at its back edge"""
        fn = fr.fn
        inner = {}
        for h, body, lat in fn.loops():
            if h == entry and loop is not None or (loop is not None and not body < loop[1]):
                continue
            for b in body:
                if b not in inner or len(inner[b][1]) < len(body):
                    inner[b] = (h, body, lat)
        memo = {}
        stop = loop[0] if loop else None

        def suf(b):
            # words from the start of block b to the end of the region
            if b not in can or (loop and b not in loop[1]):
                return frozenset()
            if b in memo:
                return memo[b]
            memo[b] = frozenset()
            if b in inner and (loop is None or inner[b][0] != loop[0]):
                L = inner[b]
                body = {star(self.region(fr, can, L[0], L, depth))}
                out = set()
                for x, ws in self.exits(fr, can, L, depth).items():
                    tails = suf(x)
                    out |= {compress(a + w + t) for a in body for w in ws for t in tails}
                r = frozenset(sorted(out)[:CAP])
                memo[b] = r
                return r
            r = self.block_then(fr, b, suf, stop, loop, depth)
            memo[b] = r
            return r
        import sys
        return set(suf(entry))

    def block_then(self, fr, b, suf, stop, loop, depth):
        fn = fr.fn
        t = fn.blocks[b]["t"]
        here = {""}
        if t[0] == "call":
            here = self.call(fr, b, t, depth)
        if t[0] == "ret":
            return frozenset() if loop else frozenset(here)
        out = set()
        for s in fn.succ(b):
            tails = frozenset({""}) if s == stop else suf(s)
            out |= {compress(a + x) for a in here for x in tails}
        if not fn.succ(b) and not loop:
            return frozenset()
        if len(out) > CAP:
            self.over = True
        return frozenset(sorted(out)[:CAP])

    def exits(self, fr, can, L, depth):
        """exit block -> words on the last, incomplete pass through the loop"""
        fn = fr.fn
        h, body, lat = L
        res = {}
        inner = {}
        for h2, b2, l2 in fn.loops():
            if b2 < body:
                for b in b2:
                    if b not in inner or len(inner[b][1]) < len(b2):
                        inner[b] = (h2, b2, l2)
        memo = {}

        def go(b, pre, seen):
            # forward enumeration of words to exits
            key = (b, pre)
            if key in memo or len(memo) > 4000:
                return
            memo[key] = 1
            if b in inner:
                L2 = inner[b]
                w = star(self.region(fr, can, L2[0], L2, depth))
                for x, ws in self.exits(fr, can, L2, depth).items():
                    for v in ws:
                        step(x, compress(pre + w + v))
                return
            t = fn.blocks[b]["t"]
            here = self.call(fr, b, t, depth) if t[0] == "call" else {""}
            for s in fn.succ(b):
                for a in here:
                    step(s, compress(pre + a))

        def step(s, w):
            if s == h or s not in can:
                return
            if s not in body:
                res.setdefault(s, set()).add(w)
            else:
                go(s, w, None)
        go(h, "", None)
        return res


def word(C, fn, **kw):
    E = Events(C, **kw)
    ws = E.frame(C.root(fn))
    return sorted(ws)
