"""keramics-hashes: MD5, SHA-1, SHA-224, SHA-256, SHA-512, driven through their public interface by a client crate."""
import math

from kv import engine as E, terms as T
from kv.engine import Agg, Arr, SArr, Ref, State, VecV
from . import lib
from .lib import Ana, assume
from .types import slice_arg, elem

ALGS = ["Md5", "Sha1", "Sha224", "Sha256", "Sha512"]


def fixture(tier, seed):
    src = ["#![allow(dead_code)]"]
    for a in ALGS:
        t = f"{a}Context"
        src += [f"pub mod {a.lower()} {{", "  use keramics_hashes::*;",
                f"  pub fn one(a: &[u8]) -> Vec<u8> {{ let mut c = {t}::new(); c.update(a); c.finalize() }}",
                f"  pub fn empty() -> Vec<u8> {{ let mut c = {t}::new(); c.finalize() }}",
                f"  pub fn split(a: &[u8], b: &[u8]) -> Vec<u8> {{ let mut c = {t}::new(); c.update(a); c.update(b); c.finalize() }}",
                f"  pub fn three(a: &[u8], b: &[u8], d: &[u8]) -> Vec<u8> {{ let mut c = {t}::new(); c.update(a); c.update(b); c.update(d); c.finalize() }}",
                f"  pub fn again(a: &[u8], b: &[u8]) -> Vec<u8> {{ let mut c = {t}::new(); c.update(a); let _ = c.finalize(); c.update(b); c.finalize() }}",
                "}"]
    return "kvfixture", ["keramics-hashes"], "\n".join(src) + "\n"


# ------------------------------------------------------------------ the standards

def primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def frac_sqrt(p, bits):
    return iroot(p << (2 * bits), 2) & ((1 << bits) - 1)


def frac_cbrt(p, bits):
    return iroot(p << (3 * bits), 3) & ((1 << bits) - 1)


def md5_sines():
    # RFC 1321: floor(2^32 * |sin(i)|), i in radians, computed with integers (Taylor series, 200 bits)
    out = []
    S = 1 << 200
    for i in range(1, 65):
        term = i * S
        tot = term
        k = 1
        while term:
            term = -term * i * i // ((2 * k) * (2 * k + 1))
            if term == -1:
                break
            tot += term
            k += 1
        out.append((abs(tot) << 32) // S)
    return out


P80 = primes(80)
SPEC = {
    "Md5": dict(w=32, block=64, lenb=8, order="le", iv=[0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476], out=4),
    "Sha1": dict(w=32, block=64, lenb=8, order="be", iv=[0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0], out=5),
    "Sha224": dict(w=32, block=64, lenb=8, order="be", iv=[frac_sqrt(p, 64) & 0xffffffff for p in P80[8:16]], out=7),
    "Sha256": dict(w=32, block=64, lenb=8, order="be", iv=[frac_sqrt(p, 32) for p in P80[:8]], out=8),
    "Sha512": dict(w=64, block=128, lenb=16, order="be", iv=[frac_sqrt(p, 64) for p in P80[:8]], out=8),
}
K256 = [frac_cbrt(p, 32) for p in P80[:64]]
K512 = [frac_cbrt(p, 64) for p in P80]
SINES = md5_sines()
FAMILY = {"Md5": "md5", "Sha1": "sha1", "Sha224": "sha256", "Sha256": "sha256", "Sha512": "sha512"}


def addw(w, *xs):
    t = T.ZERO
    for x in xs:
        t = T.add(t, x)
    return T.wrap_u(t, w)


def rotr(x, r, w):
    return T.rotl(x, w - r, w)


def xor3(a, b, c, w):
    return T.xor_(T.xor_(a, b, w), c, w)


def compress(fam, h, ws):
    """one application of the compression function to the words of a block"""
    if fam == "md5":
        w = 32
        a, b, c, d = h
        for i in range(64):
            if i < 16:
                f, g, s = T.or_(T.and_(b, c, w), T.and_(T.not_(b, w), d, w), w), i, (7, 12, 17, 22)
            elif i < 32:
                f, g, s = T.or_(T.and_(b, d, w), T.and_(c, T.not_(d, w), w), w), (5 * i + 1) % 16, (5, 9, 14, 20)
            elif i < 48:
                f, g, s = xor3(b, c, d, w), (3 * i + 5) % 16, (4, 11, 16, 23)
            else:
                f, g, s = T.xor_(c, T.or_(b, T.not_(d, w), w), w), (7 * i) % 16, (6, 10, 15, 21)
            x = T.rotl(addw(w, f, a, ws[g], T.const(SINES[i])), s[i % 4], w)
            a, d, c, b = d, c, b, addw(w, b, x)
        out = [a, b, c, d]
    elif fam == "sha1":
        w = 32
        m = list(ws)
        for i in range(16, 80):
            m.append(T.rotl(T.xor_(T.xor_(m[i - 3], m[i - 8], w), T.xor_(m[i - 14], m[i - 16], w), w), 1, w))
        a, b, c, d, e = h
        for i in range(80):
            if i < 20:
                f, k = T.xor_(T.and_(b, c, w), T.and_(T.not_(b, w), d, w), w), 0x5a827999
            elif i < 40:
                f, k = xor3(b, c, d, w), 0x6ed9eba1
            elif i < 60:
                f, k = xor3(T.and_(b, c, w), T.and_(b, d, w), T.and_(c, d, w), w), 0x8f1bbcdc
            else:
                f, k = xor3(b, c, d, w), 0xca62c1d6
            x = addw(w, T.rotl(a, 5, w), f, e, T.const(k), m[i])
            a, b, c, d, e = x, a, T.rotl(b, 30, w), c, d
        out = [a, b, c, d, e]
    else:
        if fam == "sha256":
            w, n, K = 32, 64, K256
            r0, r1, R0, R1 = (7, 18, 3), (17, 19, 10), (2, 13, 22), (6, 11, 25)
        else:
            w, n, K = 64, 80, K512
            r0, r1, R0, R1 = (1, 8, 7), (19, 61, 6), (28, 34, 39), (14, 18, 41)
        m = list(ws)
        for i in range(16, n):
            s0 = xor3(rotr(m[i - 15], r0[0], w), rotr(m[i - 15], r0[1], w), T.bits(m[i - 15], r0[2], w - r0[2]), w)
            s1 = xor3(rotr(m[i - 2], r1[0], w), rotr(m[i - 2], r1[1], w), T.bits(m[i - 2], r1[2], w - r1[2]), w)
            m.append(addw(w, m[i - 16], s0, m[i - 7], s1))
        a, b, c, d, e, f, g, hh = h
        for i in range(n):
            s1 = xor3(rotr(e, R1[0], w), rotr(e, R1[1], w), rotr(e, R1[2], w), w)
            t1 = addw(w, hh, s1, T.xor_(T.and_(e, f, w), T.and_(T.not_(e, w), g, w), w), T.const(K[i]), m[i])
            s0 = xor3(rotr(a, R0[0], w), rotr(a, R0[1], w), rotr(a, R0[2], w), w)
            t2 = addw(w, s0, xor3(T.and_(a, b, w), T.and_(a, c, w), T.and_(b, c, w), w))
            a, b, c, d, e, f, g, hh = addw(w, t1, t2), a, b, c, addw(w, d, t1), e, f, g
        out = [a, b, c, d, e, f, g, hh]
    return [addw(w, x, y) for x, y in zip(out, h)]


def word(bs, order):
    l = T.ZERO
    for i, b in enumerate(bs):
        l = T.add(l, T.scale(b, 1 << (8 * (len(bs) - 1 - i) if order == "be" else 8 * i)))
    return l


def abstract(fam, h, ws, w):
    """the compression function as an uninterpreted function of its inputs"""
    args = tuple(h) + tuple(ws)
    return [T.func(f"{fam}.{i}", args, 0, (1 << w) - 1) for i in range(len(h))]


def digest(alg, msg, opaque):
    s = SPEC[alg]
    w, B, order = s["w"], s["block"], s["order"]
    n = len(msg)
    pad = [T.const(0x80)] + [T.ZERO] * ((-n - 1 - s["lenb"]) % B)
    size = (8 * n).to_bytes(s["lenb"], "big" if order == "be" else "little")
    data = list(msg) + pad + [T.const(b) for b in size]
    h = [T.const(x) for x in s["iv"]]
    step = w // 8
    for i in range(0, len(data), B):
        ws = [word(data[j:j + step], order) for j in range(i, i + B, step)]
        h = abstract(FAMILY[alg], h, ws, w) if opaque and any(x.t for x in list(h) + ws) else compress(FAMILY[alg], h, ws)
    out = []
    for x in h[:s["out"]]:
        for j in range(step):
            out.append(T.bits(x, 8 * (step - 1 - j if order == "be" else j), 8))
    return out


# ------------------------------------------------------------------ the block function of the code

def width(ty):
    """bits of the elements of a (reference to a) slice or array of unsigned integers"""
    while ty is not None and ty.k in ("ref", "ptr"):
        ty = ty.t
    if ty is not None and ty.k in ("slice", "array") and ty.t is not None and ty.t.k == "int" and not ty.t.sg:
        return ty.t.w
    return None


def shape(fn):
    """(state argument, data argument, offset argument) of a function that maps state words and a
    position in a byte buffer to new state words"""
    ret = fn.locals[0]
    if ret.k != "array" or width(ret) not in (32, 64):
        return None
    st = data = off = None
    for i in range(fn.nargs):
        ty = fn.locals[i + 1]
        wd = width(ty)
        if ty.k == "ref" and wd == width(ret) and st is None:
            st = i
        elif ty.k == "ref" and wd == 8 and data is None:
            data = i
        elif ty.k == "int" and ty.w == 64 and off is None:
            off = i
        elif ty.k == "ref":
            pass
        else:
            return None
    if st is None or data is None:
        return None
    return st, data, off


def verified_transforms(prog):
    """block functions shown equal to a standard compression function: {definition: (family, shape)}"""
    out = {}
    for fn in prog.fns.values():
        if fn.crate != "keramics_hashes" or fn.generic:
            continue
        sh = shape(fn)
        if sh is None:
            continue
        out[fn.def_] = (fn, sh)
    return out


def verify_transform(prog, fn, sh):
    """which family the function computes for every state, buffer and offset with a whole block in it"""
    w = width(fn.locals[0])
    n = fn.locals[0].n if hasattr(fn.locals[0], "n") else None
    for fam, alg in (("md5", "Md5"), ("sha1", "Sha1"), ("sha256", "Sha256"), ("sha512", "Sha512")):
        s = SPEC[alg]
        if s["w"] != w:
            continue
        nw = len(s["iv"])

        def setup(a):
            a.args[sh[0]] = slice_arg(a.e, "state", T.const(nw), fn.locals[sh[0] + 1].t.t)
            a.args[sh[1]] = slice_arg(a.e, "data", T.sym("length", s["block"], E.LEN_MAX))
            st = State()
            if sh[2] is not None:
                st = assume(st, T.le(T.sub(T.addk(a.e.as_int(a.args[sh[2]]), s["block"]), a.args[sh[1]].m[2])))
            return st
        if n is not None and n != nw:
            continue
        a = Ana(prog, fn, setup=setup)
        if a.error or a.e.unsupported or a.e.opaque or a.alarms or len(a.outs or []) != 1:
            continue
        ret, st = a.outs[0]
        from kv import models as M
        off = a.e.as_int(a.args[sh[2]]) if sh[2] is not None else T.ZERO
        hs = [elem(a, st, a.args[sh[0]], i) for i in range(nw)]
        bs = [a.e.as_int(M.win_get(a.e, st, a.args[sh[1]], T.addk(off, i))) for i in range(s["block"])]
        step = w // 8
        ws = [word(bs[j:j + step], s["order"]) for j in range(0, s["block"], step)]
        want = compress(fam, hs, ws)
        got = lib.vec_terms(a.e, st, ret)
        if got is not None and len(got) == nw and all(a.e.as_int(g) == x for g, x in zip(got, want)):
            return fam
    return None


def model(fn, sh, fam):
    """summary of a verified block function"""
    s = SPEC[{"md5": "Md5", "sha1": "Sha1", "sha256": "Sha256", "sha512": "Sha512"}[fam]]
    w = s["w"]
    nw = len(s["iv"])
    step = w // 8

    def m(ctx, st, *vals):
        from kv import models as M
        e = ctx.e if hasattr(ctx, "e") else ctx.engine
        state, data = vals[sh[0]], vals[sh[1]]
        off = e.as_int(vals[sh[2]]) if sh[2] is not None else T.ZERO
        sl, dl = ref_len(e, st, state), ref_len(e, st, data)
        if sl is None or dl is None or sl.t or sl.k != nw:
            return NotImplemented
        if st.facts.truth(T.le(T.sub(T.addk(off, s["block"]), dl))) is not True:
            return NotImplemented
        hs = [e.as_int(M.win_get(e, st, as_win(e, st, state), T.const(i))) for i in range(nw)]
        bs = [e.as_int(M.win_get(e, st, as_win(e, st, data), T.addk(off, i))) for i in range(s["block"])]
        ws = [word(bs[j:j + step], s["order"]) for j in range(0, s["block"], step)]
        if not any(x.t for x in hs + ws):
            return Arr(tuple(compress(fam, hs, ws)))
        return Arr(tuple(abstract(fam, hs, ws, w)))
    return m


def ref_len(e, st, v):
    if not isinstance(v, Ref):
        return None
    if v.m and v.m[0] == "s":
        return v.m[2]
    x = e.load(st, v.o, v.p)
    if isinstance(x, VecV):
        x = x.s
    try:
        return e.seq_len(x)
    except Exception:
        return None


def as_win(e, st, v):
    if v.m and v.m[0] == "s":
        return v
    return Ref(v.o, v.p, ("s", T.ZERO, ref_len(e, st, v)))


# ------------------------------------------------------------------ the rules

def cases(alg, tier, opaque):
    B = SPEC[alg]["block"]
    L = B - SPEC[alg]["lenb"]
    if not opaque:
        one = [0, 1, L - 1, L, B - 1, B, B + 1]
        return [("one", (n,)) for n in one] + [("split", (1, B)), ("split", (B, 1)), ("again", (3, 5))]
    one = list(range(0, 2 * B + 4)) if tier != "quick" else sorted(
        set(range(0, 10)) | set(range(L - 3, B + 4)) | set(range(B + L - 3, 2 * B + 4)) | {20, 33, B + 20, 3 * B, 3 * B + 1, 4 * B})
    cs = [("empty", ()), ("one", (None,))] + [("one", (n,)) for n in one]
    ps = [0, 1, 5, L - 1, L, L + 1, B - 1, B, B + 1] + ([B + 5, 2 * B - 1, 2 * B, 2 * B + 1] if tier != "quick" else [B + 5, 2 * B])
    cs += [("split", (a, b)) for a in ps for b in ps]
    cs += [("three", x) for x in ((1, 1, 1), (B - 1, 1, 0), (B - 1, 1, 1), (B - 1, 1, B), (3, B - 3, B), (3, B, B - 3), (B, 0, 1), (10, L - 10, B), (1, B - 2, 2),
                                  (B, B, B), (5, B + 3, L))]
    cs += [("again", x) for x in ((0, 0), (3, 0), (0, 3), (3, 5), (5, 3), (L, 3), (B, 3), (B + 1, 1), (3, B), (2 * B, 2 * B), (B - 1, L))]
    return cs


def run_case(r, prog, alg, models, kind, sizes, rule):
    fn = prog.find(f"{alg.lower()}::{kind}")[0]
    site = f"{alg} {kind} " + "+".join("any" if n is None else str(n) for n in sizes)
    anyn = None in sizes
    opaque = bool(models)

    def mk(env):
        def setup(a):
            for i, n in enumerate(sizes):
                a.args[i] = slice_arg(a.e, "abc"[i], T.const(n) if n is not None else T.sym("length", 0, 1 << 58))
        a = Ana(prog, fn, setup=setup, env=env, extra_models=None if env else models, **({} if anyn else {"unroll_max": 100000}))
        a.opaque = opaque and not env
        return a

    def observe(a, ret, st):
        if anyn:
            return [("true", "", T.TRUE)]
        parts = [[elem(a, st, a.args[i], j) for j in range(n)] for i, n in enumerate(sizes)]
        msg = parts[-1] if kind == "again" else [b for p in parts for b in p]
        fx = lib.fixed_of(st)
        if fx:
            msg = [lib.settle(b, fx) for b in msg]
        want = digest(alg, msg, a.opaque)
        got = lib.vec_terms(a.e, st, ret)
        if got is None:
            return [("open", "digest of unknown length")]
        if len(got) != len(want):
            return [("never", f"digest of {len(got)} instead of {len(want)} bytes")]
        return [("eq", "digest differs from the standard", a.e.as_int(g), w) for g, w in zip(got, want)]
    r.count("digest terms")
    lib.judge(r, rule, site, mk, observe, abort="digest-abort")


def h10(ctx):
    ctx.explanation = ("The block function of each context is interpreted on an unknown state and an unknown block and its result terms are compared with the round "
                       "equations of RFC 1321 / FIPS 180-4 (constants recomputed from sines and prime roots). Client functions that feed buffers of the listed sizes are "
                       "then interpreted with unknown bytes, the proved block function standing for itself, and compared with the standard's padding and chaining.")
    ctx.rule_text = ("every digest byte equals the standard's for every content of the message, for message sizes around all padding and block boundaries, for one, two and "
                     "three updates, and for a context used again after finalize; no abort")
    prog = ctx.program(["kvfixture", "keramics_hashes", "keramics_types"])
    cand = verified_transforms(prog)

    ver = {}

    def vwork(r, d):
        fn, sh = cand[d]
        fam = verify_transform(prog, fn, sh)
        if fam:
            r.ok("block-function", f"{d} is {fam}", "equal to the standard's rounds for every state and block")
            r.sites.append((d, fam))
            r.functions.add(fn.key)
        else:
            r.note(f"{d} is not shown to be a standard block function; the callers are analysed with it inlined")
            r.count("block functions inlined")
        r.count("block functions")
    # verification results travel back through the merged sites
    ctx.parallel(vwork, sorted(cand))
    ver = {d: fam for d, fam in ctx.sites}
    ctx.sites = []

    tasks = []
    for alg in ALGS:
        models = {d: model(cand[d][0], cand[d][1], fam) for d, fam in ver.items()}
        uses = any(fam == FAMILY[alg] and alg.lower() in d.lower() for d, fam in ver.items())
        cs = cases(alg, ctx.tier, uses)
        k = 3 if uses else len(cs)
        for i in range(k):
            tasks.append((alg, models if uses else {}, cs[i::k]))

    def work(r, t):
        alg, models, cs = t
        for kind, sizes in cs:
            run_case(r, prog, alg, models, kind, sizes, "digest")
    ctx.parallel(work, tasks)
    ctx.floor("digest terms", 1)
