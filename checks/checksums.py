"""keramics-checksums: CRC-32 and Adler-32, driven through their public interface by a client crate."""
import os

from kv import engine as E, terms as T
from kv.engine import State
from . import lib
from .lib import Ana, assume
from .types import slice_arg, elem

POLY = [("ethernet", 0x04C11DB7, False), ("castagnoli", 0x1EDC6F41, False), ("koopman", 0x741B8CD7, False),
        ("ethernet", 0xEDB88320, True), ("castagnoli", 0x82F63B78, True), ("koopman", 0xEB31D82E, True)]
MAX = (1 << 32) - 1


def crc_fixture(tier, seed):
    src = ["#![allow(dead_code)]", "use keramics_checksums::*;"]
    for name, poly, rev in POLY:
        m = f"{name}_{'reversed' if rev else 'normal'}"
        t = "ReversedCrc32Context" if rev else "Crc32Context"
        src += [f"pub mod {m} {{", "  use keramics_checksums::*;",
                f"  pub fn one(init: u32, a: &[u8]) -> u32 {{ let mut c = {t}::new({poly:#x}, init); c.update(a); c.finalize() }}",
                f"  pub fn split(init: u32, a: &[u8], b: &[u8]) -> u32 {{ let mut c = {t}::new({poly:#x}, init); c.update(a); c.update(b); c.finalize() }}",
                f"  pub fn again(init: u32, a: &[u8], b: &[u8]) -> u32 {{ let mut c = {t}::new({poly:#x}, init); c.update(a); let _ = c.finalize(); c.update(b); c.finalize() }}",
                f"  pub fn resume(init: u32, a: &[u8], b: &[u8]) -> u32 {{ let mut c = {t}::new({poly:#x}, init); c.update(a); let v = c.finalize(); let mut d = {t}::new({poly:#x}, v); d.update(b); d.finalize() }}",
                "}"]
    return "kvfixture", ["keramics-checksums"], "\n".join(src) + "\n"


def adler_fixture(tier, seed):
    t = "Adler32Context"
    src = ["#![allow(dead_code)]", "pub mod adler {", "  use keramics_checksums::*;",
           f"  pub fn one(init: u32, a: &[u8]) -> u32 {{ let mut c = {t}::new(init); c.update(a); c.finalize() }}",
           f"  pub fn split(init: u32, a: &[u8], b: &[u8]) -> u32 {{ let mut c = {t}::new(init); c.update(a); c.update(b); c.finalize() }}",
           f"  pub fn again(init: u32, a: &[u8], b: &[u8]) -> u32 {{ let mut c = {t}::new(init); c.update(a); let _ = c.finalize(); c.update(b); c.finalize() }}",
           f"  pub fn resume(init: u32, a: &[u8], b: &[u8]) -> u32 {{ let mut c = {t}::new(init); c.update(a); let v = c.finalize(); let mut d = {t}::new(v); d.update(b); d.finalize() }}",
           "}"]
    return "kvfixture", ["keramics-checksums"], "\n".join(src) + "\n"


# ------------------------------------------------------------------ GF(2)

class NotLinear(Exception):
    pass


def gf2_bit(l, i, memo):
    """bit i of l as (set of input bits, constant) when it is an affine function over GF(2)"""
    b = T.bits(l, i, 1)
    if not b.t:
        return frozenset(), b.k
    key = b
    r = memo.get(key)
    if r is None:
        r = memo[key] = _gf2(b, memo)
    return r


def _xor(x, y):
    return x[0] ^ y[0], x[1] ^ y[1]


def _gf2(b, memo):
    """b in 0..1"""
    if not b.t:
        return frozenset(), b.k
    a = b.single()
    if a is None:
        n = T.sub(T.const(1), b)
        if n.single() is not None:
            s, c = _gf2(n, memo)
            return s, c ^ 1
        raise NotLinear(T.show(b)[:200])
    if a.kind == "bits":
        t, lo, n = a.args
        x = t.single()
        if x is None:
            # x ^ constant on disjoint pieces: sum of pieces, each touching bit lo of the sum only if no carry
            if T.disjoint_parts(t) is not None:
                res = (frozenset(), (t.k >> lo) & 1)
                for y, c in t.t:
                    sh = c.bit_length() - 1
                    if lo >= sh:
                        res = _xor(res, gf2_bit(T.of(y), lo - sh, memo))
                return res
            y = T._reduce_mod(T.sub(T.const(-1), t), lo + n)        # bitwise complement
            if y.single() is not None or (y.t and T.disjoint_parts(y) is not None):
                s, c = gf2_bit(y, lo, memo)
                return s, c ^ 1
            raise NotLinear(T.show(b)[:200])
        if x.kind in ("sym", "sel"):
            return frozenset([(x, lo)]), 0
        if x.kind == "bw":
            w, bases, tt = x.args
            return _affine(tt, [gf2_bit(y, lo, memo) for y in bases])
        if x.kind == "tab":
            return _tab(x, lo, memo)
        if x.kind == "ite":
            return _ite(x, lo, memo)
        raise NotLinear(T.show(b)[:200])
    if a.kind in ("sym", "sel"):
        return frozenset([(a, 0)]), 0
    if a.kind == "bw":
        w, bases, tt = a.args
        return _affine(tt, [gf2_bit(y, 0, memo) for y in bases])
    if a.kind == "tab":
        return _tab(a, 0, memo)
    if a.kind == "ite":
        return _ite(a, 0, memo)
    raise NotLinear(T.show(b)[:200])


def _affine(tt, bs):
    n = len(bs)
    c = tt & 1
    m = [((tt >> (1 << j)) & 1) ^ c for j in range(n)]
    for x in range(1 << n):
        v = c
        for j in range(n):
            if (x >> j) & 1:
                v ^= m[j]
        if v != (tt >> x) & 1:
            raise NotLinear("bitwise function")
    r = (frozenset(), c)
    for j in range(n):
        if m[j]:
            r = _xor(r, bs[j])
    return r


_tabs = {}


def _tab(a, bit, memo):
    vals, idx = a.args
    if not isinstance(idx, T.Lin) or len(vals) & (len(vals) - 1) or None in vals:
        raise NotLinear("table")
    n = len(vals).bit_length() - 1
    key = (id(vals), bit)
    r = _tabs.get(key)
    if r is None:
        c = (vals[0] >> bit) & 1
        m = [((vals[1 << j] >> bit) & 1) ^ c for j in range(n)]
        ok = True
        for x in range(len(vals)):
            v = c
            for j in range(n):
                if (x >> j) & 1:
                    v ^= m[j]
            if v != (vals[x] >> bit) & 1:
                ok = False
                break
        r = _tabs[key] = (vals, ok, c, m)
    _, ok, c, m = r
    if not ok:
        raise NotLinear("table is not affine")
    res = (frozenset(), c)
    for j in range(n):
        if m[j]:
            res = _xor(res, gf2_bit(idx, j, memo))
    return res


def _ite(a, bit, memo):
    c, x, y = a.args
    p = gf2_bit(x, bit, memo)
    q = gf2_bit(y, bit, memo)
    d = _xor(p, q)
    if d[0]:
        raise NotLinear("choice")
    if not d[1]:
        return p
    # p = q ^ 1: q ^ condition
    if c.op in ("eq", "ne") and c.x.rng[0] >= 0 and c.x.rng[1] <= 1:
        s = gf2_bit(c.x, 0, memo)          # condition is c.x == 0 / != 0
        if c.op == "eq":
            s = (s[0], s[1] ^ 1)
        return _xor(q, s)
    raise NotLinear("choice condition")


# ------------------------------------------------------------------ CRC

def crc_bitwise(poly, rev, crc, data):
    for b in data:
        if rev:
            crc ^= b
            for _ in range(8):
                crc = (crc >> 1) ^ (poly if crc & 1 else 0)
        else:
            crc ^= b << 24
            for _ in range(8):
                crc = ((crc << 1) & MAX) ^ (poly if crc >> 31 else 0)
    return crc


def crc_columns(poly, rev, n):
    """the linear map of the CRC register over n bytes: for each input bit the output bits it toggles"""
    cols_init = [crc_bitwise(poly, rev, 1 << j, bytes(n)) for j in range(32)]
    cols = []
    for i in range(n):
        for j in range(8):
            d = bytearray(n)
            d[i] = 1 << j
            cols.append(crc_bitwise(poly, rev, 0, bytes(d)))
    return cols_init, cols


def atom_bits(l):
    a = l.single()
    return a


def crc_want_bits(poly, rev, init, data):
    """(set, const) for each of the 32 output bits of finalize()"""
    ci, cd = crc_columns(poly, rev, len(data))
    memo = {}
    rows = [(frozenset(), 1) for _ in range(32)]        # final inversion
    for j in range(32):
        s, c = gf2_bit(init, j, memo)
        c ^= 1                                          # initial inversion
        for o in range(32):
            if (ci[j] >> o) & 1:
                rows[o] = _xor(rows[o], (s, c))
    for i, b in enumerate(data):
        for j in range(8):
            s = gf2_bit(b, j, memo)
            col = cd[8 * i + j]
            for o in range(32):
                if (col >> o) & 1:
                    rows[o] = _xor(rows[o], s)
    return rows


def crc_term(tab, rev, crc, data):
    for b in data:
        if rev:
            crc = T.xor_(T.table(tab, T.xor_(T.bits(crc, 0, 8), b, 8)), T.bits(crc, 8, 24), 32)
        else:
            crc = T.xor_(T.table(tab, T.xor_(T.bits(crc, 24, 8), b, 8)), T.shl(T.bits(crc, 0, 24), 8, 32), 32)
    return crc


def inv(x):
    return T.sub(T.const(MAX), x)


def crc_tasks(tier):
    n = 40 if tier == "quick" else 260
    out = [("one", k, 0) for k in range(n + 1)]
    out += [("split", a, b) for a, b in ((0, 0), (0, 3), (3, 0), (1, 1), (2, 5), (5, 2), (4, 4), (8, 8), (7, 9), (16, 3), (3, 16), (1, 32))]
    out += [("again", a, b) for a, b in ((0, 4), (4, 0), (1, 1), (5, 3), (8, 9))]
    out += [("resume", a, b) for a, b in ((0, 4), (4, 0), (1, 1), (5, 3))]
    return out


def c10(ctx):
    ctx.explanation = ("Client functions that create a context, feed it one or two buffers and finalize it are interpreted with unknown bytes and an "
                       "unknown initial value; each bit of the resulting term is decomposed as an affine function over GF(2) of the input bits and "
                       "compared with the polynomial division of the published CRC-32 definition.")
    ctx.rule_text = ("finalize() = ~(register after dividing by the polynomial, register preset to ~initial), bit for bit; two updates equal one update of the "
                     "concatenation; after finalize the context behaves as new; a context created with a previous checksum continues it; no abort for any length")
    prog = ctx.program(["kvfixture", "keramics_checksums"])
    tasks = []
    for name, poly, rev in POLY:
        m = f"{name}_{'reversed' if rev else 'normal'}"
        xs = crc_tasks(ctx.tier) if name == "ethernet" else [("one", k, 0) for k in (0, 1, 2, 5)]
        g = {}
        for i, x in enumerate(xs):
            g.setdefault(i % 8, []).append(x)
        for part in g.values():
            tasks.append((m, poly, rev, part))
        tasks.append((m, poly, rev, [("one", None, 0)]))

    def work(r, t):
        m, poly, rev, part = t
        tab = tuple(crc_bitwise(poly, rev, i if rev else i << 24, b"") if False else
                    crc_bitwise(poly, rev, 0, bytes([i])) for i in range(256))
        for kind, na, nb in part:
            fn = prog.find(f"{m}::{kind}")[0]
            site = f"{m} {kind} {na if na is not None else 'any'}" + (f"+{nb}" if kind != "one" else "")

            def mk(env):
                def setup(a):
                    n = T.sym("length", 0, E.LEN_MAX) if na is None else T.const(na)
                    a.args[1] = slice_arg(a.e, "data", n)
                    if kind != "one":
                        a.args[2] = slice_arg(a.e, "more", T.const(nb))
                return Ana(prog, fn, setup=setup, env=env)

            def observe(a, ret, st):
                if na is None:
                    return [("true", "", T.TRUE)]
                init = a.e.as_int(a.args[0])
                data = [elem(a, st, a.args[1], i) for i in range(na)]
                more = [elem(a, st, a.args[2], i) for i in range(nb)] if kind != "one" else []
                msg = {"one": data, "split": data + more, "again": more, "resume": data + more}[kind]
                got = a.e.as_int(ret)
                try:
                    memo = {}
                    rows = crc_want_bits(poly, rev, init, msg)
                    if all(gf2_bit(got, o, memo) == rows[o] for o in range(32)):
                        return [("true", "checksum", T.TRUE)]
                except NotLinear as ex:
                    if os.environ.get("KV_TRACE"):
                        print("not linear:", ex)
                return [("eq", "checksum differs from the polynomial division", got, inv(crc_term(tab, rev, inv(init), msg)))]
            r.count("checksum terms")
            lib.judge(r, "crc", site, mk, observe, abort="crc-abort")
    ctx.parallel(work, tasks)
    ctx.floor("checksum terms", 1)


# ------------------------------------------------------------------ Adler-32

P = 65521


def residue(l, f):
    """l modulo 65521 with slices and remainders rewritten as differences: {atom: coefficient}, constant"""
    d = {}
    k = l.k % P
    todo = list(l.t)
    steps = 0
    while todo:
        a, c = todo.pop()
        c %= P
        if not c:
            continue
        steps += 1
        if steps > 20000:
            break
        if a.kind == "mod" and a.args[1] % P == 0:
            t = a.args[0]
            k += c * t.k
            todo += [(b, c * e) for b, e in t.t]
            continue
        if a.kind == "bits" and a.args[1] == 0:
            t, _, n = a.args
            # low part = value - 2^n * rest
            hi = t.rng[1].bit_length()
            if t.rng[0] >= 0 and hi <= 140:
                k += c * t.k
                todo += [(b, c * e) for b, e in t.t]
                rest = T.bits(t, n, max(hi - n, 1), f.rng(t))
                k -= c * (1 << n) * rest.k
                todo += [(b, -c * (1 << n) * e) for b, e in rest.t]
                continue
        if a.kind == "bits" and a.args[1] > 0:
            # floor(t / 2^lo): multiples of 2^lo come out as they are
            t, lo, n = a.args
            if 0 <= f.rng(t)[0] and f.rng(t)[1] < 1 << (lo + n):
                m = 1 << lo
                whole = T.mk(t.k // m, tuple((b, e // m) for b, e in t.t if e // m))
                if whole.t or whole.k:
                    red = T.mk(t.k % m, tuple((b, e % m) for b, e in t.t if e % m))
                    if all(b.lo >= 0 for b, _ in red.t):
                        rest = T.add(whole, T.bits(red, lo, max(red.rng[1].bit_length() - lo, 1), f.rng(red)))
                        k += c * rest.k
                        todo += [(b, c * e) for b, e in rest.t]
                        continue
        if a.kind == "ite":
            x, kx = residue(a.args[1], f)
            y, ky = residue(a.args[2], f)
            if (x, kx) == (y, ky):
                k += c * kx
                todo += [(b, c * e) for b, e in x.items()]
                continue
        d[a] = (d.get(a, 0) + c) % P
    return {a: c for a, c in d.items() if c}, k % P


def same_residue(st, x, y):
    return residue(T.sub(x, y), st.facts) == ({}, 0)


def by_facts(st, l):
    """slices whose operand has a known quotient on this path, as linear terms"""
    out = T.const(l.k)
    for a, c in l.t:
        x = T.of(a)
        if a.kind == "bits":
            x = T.bits(a.args[0], a.args[1], a.args[2], st.facts.rng(a.args[0]))
        out = T.add(out, T.scale(x, c))
    return out


def split16(st, l):
    """l = low + 65536 * high with low < 65536 on this path"""
    def part(c):
        return (c + 32768) % 65536 - 32768
    for k in (l.k % 65536, l.k % 65536 - 65536):
        low = T.mk(k, tuple((a, part(c)) for a, c in l.t if part(c)))
        high = T.mk((l.k - k) >> 16, tuple((a, (c - part(c)) >> 16) for a, c in l.t if c != part(c)))
        if st.facts.truth(T.le(T.addk(low, -65535))) is True and st.facts.truth(T.le(T.neg(low))) is True:
            return low, high
    return None


def adler_words(init, data):
    lo, hi = T.bits(init, 0, 16), T.bits(init, 16, 16)
    for b in data:
        lo = T.add(lo, b)
        hi = T.add(hi, lo)
    return lo, hi


def c11(ctx):
    ctx.explanation = ("Client functions that feed an Adler-32 context one or two buffers and finalize it are interpreted with unknown bytes and an unknown valid "
                       "initial value. Both halves of the resulting term are shown to be below 65521 and congruent modulo 65521 to the sums of RFC 1950.")
    ctx.rule_text = ("low half = (a + sum of bytes) mod 65521, high half = (b + sum of the running low sums) mod 65521; two updates equal one update of the "
                     "concatenation; after finalize the context behaves as new; the lengths at which sums are reduced (5552 and its multiples) do not matter; no abort")
    prog = ctx.program(["kvfixture", "keramics_checksums"])
    n = 24 if ctx.tier == "quick" else 80
    xs = [("one", k, 0) for k in range(n + 1)]
    # two buffers: small sums (no reduction), and any state with one buffer empty
    xs += [(k, a, b, "low") for k in ("split", "again", "resume") for a, b in
           ((0, 0), (0, 3), (3, 0), (1, 1), (2, 5), (5, 2), (4, 4), (8, 8), (7, 9), (16, 3), (3, 16))]
    xs += [(k, a, b, None) for k, a, b in (("split", 0, 3), ("resume", 0, 3), ("resume", 0, 1))]
    xs += [("split", 1, 1, "high"), ("resume", 1, 1, "high"), ("again", 1, 1, "high"), ("again", 2, 3, "high"), ("split", 2, 3, "high"), ("split", 1, 0, "high"),
           ("split", 2, 0, "high"), ("resume", 2, 0, "high")]
    xs = [x if len(x) == 4 else x + (None,) for x in xs]
    g = {}
    for i, x in enumerate(xs):
        g.setdefault(i % 7, []).append(x)
    tasks = [[(k, a, b, None)] for k, a, b in (("one", None, 0),)]
    # long buffers: all bytes of one value apart from unknown ones at both ends and around the reduction points
    big = [5551, 5552, 5553, 5554, 11104, 11105] if ctx.tier == "quick" else [256, 4096, 5551, 5552, 5553, 5554, 5555, 8192, 11103, 11104, 11105, 11106, 16656, 16657, 65536]
    for L in big:
        for fill in (0xFF, 0x01):
            tasks.append([("one", L, 0, fill)])
    tasks += list(g.values())

    def work(r, part):
        T.FLATTEN = False
        for kind, na, nb, fill in part:
            fn = prog.find(f"adler::{kind}")[0]
            site = f"{kind} {na if na is not None else 'any'}" + (f"+{nb}" if kind != "one" else "") + (f" of {fill:#04x}" if isinstance(fill, int) else f" {fill} sums" if fill else "")

            def mk(env):
                def setup(a):
                    st = State()
                    if na is None:
                        a.args[1] = slice_arg(a.e, "data", T.sym("length", 0, E.LEN_MAX))
                        return st
                    if isinstance(fill, int):
                        v = [T.const(fill)] * na
                        free = {na - 3, na - 2, na - 1} | ({x for x in (5550, 5551, 5552) if x < na} if na < 11000 else set())
                        for i in free:
                            v[i] = T.sym(f"byte{i}", 0, 255)
                        a.msg = v
                        o = ("S", "filled.*")
                        st.mem[o] = E.Arr(tuple(v))
                        a.args[1] = E.Ref(o, (), ("s", T.ZERO, T.const(na)))
                    else:
                        a.args[1] = slice_arg(a.e, "data", T.const(na))
                    if kind != "one":
                        a.args[2] = slice_arg(a.e, "more", T.const(nb))
                    lo, hi = (P - 1, P - 1) if isinstance(fill, int) else {"low": (0, 500), "high": (P - 20, P - 1)}.get(fill, (0, P - 1))
                    tag = f" ({fill})" if fill else ""
                    low, high = (T.const(lo),) * 2 if lo == hi else (T.sym(f"initial low{tag}", lo, hi), T.sym(f"initial high{tag}", lo, hi))
                    a.args[0] = T.add(low, T.scale(high, 1 << 16))
                    if fill == "high":
                        for x, n in ((a.args[1], na), (a.args[2], nb)):
                            st = assume(st, *[T.le(T.sub(T.const(150), elem(a, st, x, i))) for i in range(n)])
                    return st
                return Ana(prog, fn, setup=setup, env=env, **({"unroll_max": 20} if na is None else {"join_cap": 1000, "unroll_max": 200000}))

            def observe(a, ret, st):
                if na is None:
                    return [("true", "", T.TRUE)]
                init = a.e.as_int(a.args[0])
                data = a.msg if isinstance(fill, int) else [elem(a, st, a.args[1], i) for i in range(na)]
                more = [elem(a, st, a.args[2], i) for i in range(nb)] if kind != "one" else []
                msg = {"one": data, "split": data + more, "again": more, "resume": data + more}[kind]
                got = a.e.as_int(ret)
                res = []
                halves = split16(st, got) or (T.bits(got, 0, 16), T.bits(got, 16, 16))
                halves = [by_facts(st, x) for x in halves]
                for what, g, w in (("low", halves[0], 0), ("high", halves[1], 1)):
                    want = adler_words(init, msg)[w]
                    if st.facts.truth(T.le(T.addk(g, -(P - 1)))) is True and same_residue(st, g, want):
                        res.append(("true", what, T.TRUE))
                    else:
                        if os.environ.get("KV_TRACE"):
                            print("adler:", st.facts.rng(g), st.facts.truth(T.le(T.addk(g, -(P - 1)))), residue(T.sub(g, want), st.facts), T.show(g)[:300], [T.show(l)[:300] for l in st.facts.lins])
                        res.append(("eq", f"{what} half differs from the sum modulo 65521", g, T.fmod(want, P)))
                return res
            r.count("checksum terms")
            lib.judge(r, "adler", site, mk, observe, abort="adler-abort")
    ctx.parallel(work, tasks)
    ctx.floor("checksum terms", 1)
