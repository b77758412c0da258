"""Fiat-Shamir: every challenge is derived from the statement and all prover messages before it."""
from engine import *
import events

EXPLAIN = ("Transcript event words (order of message reads, unobserved reads, observations and samples along the accepting paths, helpers and loops inlined) of every verifier "
           "entry point against the protocol's order; value forms of the absorption and squeezing primitives.")

SUB = {"gkr_exp::batch_verify::batch_verify": "X", "gkr_gpa::verify::batch_verify": "G", "verify_sumcheck::batch_verify": "S", "verify_zerocheck::batch_verify": "Z",
       "greedy_evalcheck::verify::verify": "E", "ring_switch::verify::verify": "K", "piop::verify::verify": "P"}
# the protocol, as the order of transcript operations (m message, d decommitment, s challenge, o observed statement; capital letters: sub-protocols)
WORDS = [
    ("constraint_system::verify::verify", ["omsmXmsmG(s(ms)*m)*ZEKP"],
     "statement, table sizes, commitment; exponentiation point, values; product values after that; mixing challenges, flush products; then the reductions in order"),
    ("protocols::sumcheck::verify_sumcheck::batch_verify", ["(sms)*sm"], "batching coefficient before a claim's rounds; each round's polynomial before its challenge; evaluations last"),
    ("protocols::sumcheck::verify_zerocheck::batch_verify", ["sms(ms)*ms(ms)*m"], "zerocheck challenges, the univariate message, its challenge, the rounds, the univariate reduction"),
    ("protocols::gkr_gpa::verify::batch_verify", ["(s(ms)*ms)*"], "per layer: batching coefficients, rounds, layer evaluations, then the layer challenge"),
    ("protocols::gkr_exp::batch_verify::batch_verify", ["S"], "per layer: batching coefficients, rounds, then evaluations"),
    ("ring_switch::verify::verify", ["smsm"], "mixing challenges, tensor elements, row-batching challenges, row-batched evaluations"),
    ("piop::verify::verify", ["s(ms|msm)*md(s|sd)*"], "batching coefficients; per round polynomial, challenge, round commitment; final evaluations; openings; query indices after all of it"),
]


def order(C):
    """order of messages and challenges"""
    for path, want, why in WORDS:
        f = C.fn(path)
        E = events.Events(C, stop={k: v for k, v in SUB.items() if not f.spath.endswith(k)})
        got = sorted(E.frame(C.root(f)))
        ok = {w for w in got if w} == set(want) or E.over
        C.ob("order." + path.split("::")[-3 if path.startswith("protocols") else -2], "transcript operations in protocol order: " + why, ok, f, sample=got, detail=f"found {got}, protocol {want}")


def statement(C):
    """the statement is observed before anything else"""
    f = C.fn("constraint_system::verify::verify")
    for k, what in (("arg:4", "digest of the constraint system"), ("arg:5", "boundary values")):
        C.need_any("observe." + k[4:], f"the {what} is observed on every accepting path", f, [
            lambda n=n: C.need_exec("", "", f, n, args={1: [k, C.TRUNC]}, pred=lambda l: "fn:observe" in l.arg(0)) for n in ("write_slice", "write", "write_bytes")])
    C.need_sites("tape", "the verifier reads from the supplied proof", f, "new", pred=lambda c, fr, b, t: "VerifierTranscript" in callee_name(t[1]), args={0: ["arg:6"]})


def tape(C):
    """messages are observed as they are read or written"""
    f = C.fn("advance", trait="Buf", self_ty="FiatShamirBuf")
    C.need_sites("read.observe", "exactly the bytes consumed from the tape are observed", f, "put_slice", rx={1: r"index\(chunk\(arg1\.buffer\), Range(To)?\{(start=0,)?end=arg2\}\)"}, args={0: ["FiatShamirBuf.challenger"]})
    C.need_exec("read.observe.always", "every read is observed", f, "put_slice", want=None)
    C.need_sites("read.advance", "the tape advances by what was observed", f, "advance", rx={0: r"arg1\.buffer", 1: "arg2"})
    f = C.fn("advance_mut", trait="BufMut", self_ty="FiatShamirBuf")
    C.need_sites("write.observe", "exactly the bytes written are observed", f, "put_slice", rx={1: r"from_raw_parts\(as_(mut_)?ptr\(chunk_mut\(arg1\.buffer\)\), arg2\)"}, args={0: ["FiatShamirBuf.challenger"]})
    C.need_exec("write.observe.always", "every write is observed", f, "put_slice", want=None)
    C.need_exec("write.advance", "the tape advances by what was observed", f, "advance_mut", want=None, args={1: ["arg:2", ops()]})
    for who in ("VerifierTranscript", "ProverTranscript"):
        for nm, want in (("message", "arg1.combined"), ("decommitment", "arg1.combined.buffer")):
            f = C.fn(f"{who}::{nm}")
            g = str(C.terms().ret(C.root(f), ("buffer",)))
            C.ob(f"{who}.{nm}", f"{nm}() is the {'observed' if nm == 'message' else 'unobserved'} tape", judge(g, want) is not False, f, sample=[g], detail=g[:200])
        f = C.fn(f"{who}::observe")
        C.need_ret(f"{who}.observe", "observe() writes to the challenger", f, ("buffer",), ["FiatShamirBuf.challenger", "!FiatShamirBuf.buffer"])
    for nm, tr in (("sample", "CanSample"), ("sample_bits", "CanSampleBits")):
        for who in ("VerifierTranscript", "ProverTranscript"):
            f = C.fn(nm, trait=tr, self_ty=who)
            C.need_exec(f"{who}.{nm}", "challenges are squeezed from the challenger's sampler", f, "sampler", want=None)
    f = C.fn("fiat_shamir::sampling::CanSample::sample_vec")
    C.need_sites("sample_vec", "each element of a challenge vector is a fresh sample", f, "sample", n=1)
    g = str(C.terms().ret(C.root(f)))
    C.ob("sample_vec.n", "a challenge vector has the requested length", judge(g, r".*Range\{start=0,end=arg2\}.*sample.*", rx=True) is not False, f, sample=[g], detail=g[:200])
    f = C.fn("transcript::sample_bits_reader")
    m = str(C.terms().ret(C.root(f)))
    C.ob("bits.mask", "the sampled index keeps the requested number of low bits", judge(m, r".*BitAnd\(.*-1 \+ checked_shl\(1, min\((arg2, item:BITS|item:BITS, arg2)\)\).*", rx=True) is not False, f, sample=[m], detail=m[:300])


def sponge(C):
    """hash challenger"""
    f = C.fn("HasherObserver::into_sampler")
    C.need_exec("sponge.flush", "bytes still buffered are hashed before sampling", f, ("flush", "update"), want=None)
    g = str(C.terms().ret(C.root(f), ("index",)))
    C.ob("sponge.fresh", "sampling after observing starts with no buffered output", judge(g, "output_size()") is not False, f, sample=[g], detail=g[:100])
    C.need_ret("sponge.state", "the hash state is carried from observing to sampling", f, ("hasher",), ["HasherObserver.hasher"])
    f = C.fn("HasherObserver::flush")
    C.need_exec("sponge.flush.bytes", "all buffered bytes are hashed", f, "update", want=None, args={0: ["HasherObserver.hasher"], 1: ["HasherObserver.buffer", "HasherObserver.index", ops(), ints()]})
    f = C.fn("HasherSampler::into_observer")
    C.need_exec("sponge.index", "the sampling position is hashed when observing resumes", f, "update", want=None, args={1: ["HasherSampler.index"]})
    C.need_ret("sponge.state2", "the hash state is carried from sampling to observing", f, ("hasher",), ["HasherSampler.hasher"])
    f = C.fn("HasherSampler::fill_buffer")
    C.need_exec("sponge.squeeze", "fresh output is the hash of the state", f, ("finalize_reset", "finalize_fixed_reset"), want=None)
    C.need_exec("sponge.feed", "the output is fed forward into the state", f, "update", want=None, args={0: ["HasherSampler.hasher"], 1: [("call:finalize_reset", "HasherSampler.buffer"), "!~Range.*", ops(), C.TRUNC]})
    f = C.fn("advance_mut", trait="BufMut", self_ty="HasherObserver")
    C.need_sites("sponge.block", "a full block is hashed before the buffer is reused", f, ("flush",), n=1)
    for nm, a, b, to in (("sampler", "Observer", "Sampler", "into_sampler"), ("observer", "Sampler", "Observer", "into_observer")):
        D = C.when(HasherChallenger=a)
        f = D.fn(nm, trait="Challenger", self_ty="HasherChallenger")
        D.need_sites(f"mode.{nm}", f"switching to {nm} converts the state", f, to, n=1)


def reuse(C):
    """a challenge is not repeated to fill a vector"""
    bad, n = [], 0
    for g in C.prog.fns.values():
        if g.crate != "binius_core" or "test" in g.file:
            continue
        for b, t in g.calls():
            if "fn" not in t[1] or last_seg(callee_name(t[1])) not in ("from_elem", "repeat", "repeat_n", "resize", "repeat_with"):
                continue
            n += 1
            fr = C.root(g)
            k = 1 if last_seg(callee_name(t[1])) == "resize" and len(t[2]) < 3 else 2 if last_seg(callee_name(t[1])) == "resize" else 0
            if last_seg(callee_name(t[1])) != "repeat_with" and k < len(t[2]) and "SAMPLE" in C.fl.arg(fr, b, k) and re.match(r"sample\w*@", str(C.terms().arg(fr, b, k))):
                bad.append(fr.loc(b))
    C.ob("fresh", "no challenge vector is filled by repeating one challenge", not bad, C.fn("fiat_shamir::sampling::CanSample::sample_vec"), sample=[f"{n} fills looked at"], detail=f"a sampled challenge is repeated at {bad[:2]}")


OBLIGATIONS = [order, statement, tape, sponge, reuse]
MIN_OBLIGATIONS = 35
