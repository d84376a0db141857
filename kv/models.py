"""Abstract semantics of the standard-library functions the analysed code calls.

A model is f(ctx, st, *args) -> value | [(value, state), ...] | NotImplemented.
Iterators are modelled structurally (slice iterators are windows), adapters keep the
field order of their definitions.
"""
import re

from . import terms as T
from .facts import Facts
from . import rope

MODELS = {}
REGEX = []


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def rx(*pats):
    def deco(f):
        for p in pats:
            REGEX.append((re.compile(p), f))
        return f
    return deco


def _E():
    from . import engine
    return engine


# ------------------------------------------------------------------ option / result helpers

def none():
    return _E().Agg(0, ())


def some(v):
    return _E().Agg(1, (v,))


def tup(*vs):
    return _E().Agg(0, vs)


def ok(v):
    return _E().Agg(0, (v,))


def err(v):
    return _E().Agg(1, (v,))


def unit():
    return _E().UNIT


def split(e, st, cond):
    """(state where cond holds or None, state where it does not or None)"""
    return e.branch(st, cond, True), e.branch(st, cond, False)


def window(e, st, v):
    """slice-like reference -> Ref with window meta"""
    E = _E()
    r = e.deref_val(st, v)
    if r.m and r.m[0] == "s":
        return r
    x = e.load(st, r.o, r.p)
    while isinstance(x, E.Ref) or (isinstance(x, E.Agg) and len(x.f) == 1 and isinstance(x.f[0], E.Ref)):
        r = x if isinstance(x, E.Ref) else x.f[0]
        if r.m and r.m[0] == "s":
            return r
        x = e.load(st, r.o, r.p)
    if isinstance(x, E.Sym) and x.ty.k in ("ref", "ptr"):
        return window(e, st, x)
    if isinstance(x, E.VecV):
        return E.Ref(r.o, r.p, ("s", T.ZERO, e.seq_len(x)))
    return E.Ref(r.o, r.p, ("s", T.ZERO, e.seq_len(x)))


def elem_ref(e, st, r, i):
    """reference to element i (relative) of the window r"""
    E = _E()
    x = e.load(st, r.o, r.p)
    p = r.p
    if isinstance(x, E.VecV):
        p = p + (("vec",),)
    return E.Ref(r.o, p + (("i", T.add(r.m[1], i)),), None)


def sub_window(r, start, n):
    return _E().Ref(r.o, r.p, ("s", T.add(r.m[1], start), n))


def win_get(e, st, r, i):
    v = e.load(st, r.o, r.p)
    return e.seq_get(st, v, T.add(r.m[1], i))


def seq_to_ref(ctx, st, seq):
    """a new heap object holding seq"""
    E = _E()
    o = ctx.e.heap(st, ctx.fr, ctx.b)
    st.mem[o] = seq
    return E.Ref(o)


def writable(e, st, r):
    """(object, path to the sequence value)"""
    E = _E()
    x = e.load(st, r.o, r.p)
    if isinstance(x, E.VecV):
        return r.o, r.p + (("vec",),)
    return r.o, r.p


def write_window(e, st, r, start, n, src, soff):
    """window r[start..start+n] := src[soff..]; src None = unknown values"""
    E = _E()
    o, p = writable(e, st, r)
    v = e.load(st, o, p)
    at = T.add(r.m[1], start)
    if not n.t and n.k == 0:
        return
    if not n.t and n.k <= 512 and not at.t and src is not None and (isinstance(v, E.Arr) or (isinstance(v, E.SArr) and not v.n.t and v.n.k <= 4096)):
        try:
            xs = [e.seq_get(st, src, T.addk(soff, j)) for j in range(n.k)]
            if isinstance(v, E.SArr):
                v = E.Arr([e.seq_get(st, v, T.const(j)) for j in range(v.n.k)])
            es = list(v.e)
            es[at.k:at.k + n.k] = xs
            e.store(st, o, p, E.Arr(es))
            return
        except E.Unsupported:
            v = e.load(st, o, p)
    if isinstance(v, E.Arr):
        base = E.SArr(e.fresh_name("arr"), None, T.const(len(v.e)), (("r", T.ZERO, T.const(len(v.e)), v, T.ZERO),))
        v = base
    if not isinstance(v, E.SArr):
        raise E.Unsupported(f"write into {type(v).__name__}")
    e.store(st, o, p, E.SArr(v.base, v.ety, v.n, v.w + (("r", at, n, src, soff),), v.fill))


def lengths(ctx, st, n):
    """the cases of a length that has few values, where paths are kept apart"""
    if n.t and getattr(ctx.e, "fork", False):
        lo, hi = st.facts.rng(n)
        if hi - lo >= 8:
            n2 = lib_bounds(st, n)
            lo, hi = n2 if n2 else (lo, hi)
        if hi - lo < 8:
            out = []
            for k in range(lo, hi + 1):
                s = ctx.e.branch(st, T.eq(T.addk(n, -k)), True)
                if s is not None and s.facts.feasible():
                    out.append((T.const(k), s))
            return out
    return [(n, st)]


def lib_bounds(st, n):
    """small bounds of a length by its linear facts"""
    f = st.facts
    if f.truth(T.le(T.addk(n, -7))) is True and f.truth(T.le(T.neg(n))) is True:
        return 0, 7
    return None


def ptr_add(e, st, ref, n):
    E = _E()
    if ref.p and ref.p[-1][0] == "i":
        return E.Ref(ref.o, ref.p[:-1] + (("i", T.add(ref.p[-1][1], n)),), ref.m)
    raise E.Unsupported("pointer arithmetic")


def slice_from_raw(e, st, p, n):
    E = _E()
    if p.p and p.p[-1][0] == "i":
        return E.Ref(p.o, p.p[:-1], ("s", p.p[-1][1], n))
    if p.m and p.m[0] == "s":
        return E.Ref(p.o, p.p, ("s", p.m[1], n))
    raise E.Unsupported("slice from raw pointer")


def panic(ctx, st, kind, detail):
    ctx.e.alarm("panic:" + kind, detail, st, ctx.b)


def require(ctx, st, cond, kind, detail):
    """state in which cond holds; alarm when it may not"""
    t = st.facts.truth(cond)
    if t is True:
        return st
    bad = ctx.e.branch(st, cond, False)
    if bad is not None:
        panic(ctx, bad, kind, f"{detail}: requires {cond!r}"[:300])
    return ctx.e.branch(st, cond, True)


# ------------------------------------------------------------------ panics

@model("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_nounwind_fmt",
       "core::panicking::panic_nounwind", "core::panicking::panic_explicit", "core::panicking::unreachable_display",
       "core::panicking::panic_display", "core::panicking::assert_failed", "std::rt::begin_panic", "std::panicking::begin_panic",
       "core::panicking::assert_failed_inner", "core::panicking::panic_str_2015")
def _panic(ctx, st, *a):
    panic(ctx, st, "explicit", ctx.c.get("rdef") or "panic")
    return []


@model("core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed")
def _unwrap_failed(ctx, st, *a):
    panic(ctx, st, "unwrap", "unwrap/expect of a value not shown to be Some/Ok")
    return []


@model("core::panicking::panic_bounds_check")
def _bounds(ctx, st, *a):
    panic(ctx, st, "bounds", "index out of bounds")
    return []


@rx(r"^core::slice::index::slice_.*fail.*", r"^core::slice::copy_from_slice_impl::len_mismatch_fail", r"^core::str::slice_error_fail",
    r"^core::num::from_ascii_bytes_radix_panic.*", r"^core::num::from_ascii_radix_panic.*", r"^core::slice::index::.*_fail$")
def _slice_fail(ctx, st, *a):
    panic(ctx, st, "slice", ctx.c.get("rdef"))
    return []


@model("core::panicking::todo_default_msg")
def _todo(ctx, st, *a):
    panic(ctx, st, "todo", "unfinished code")
    return []


# ------------------------------------------------------------------ no-ops / transparent

@model("core::intrinsics::cold_path", "core::hint::must_use", "core::intrinsics::assume", "core::intrinsics::assert_inhabited")
def _nop(ctx, st, *a):
    if ctx.rty.k == "tuple" and not ctx.rty.ts:
        return unit()
    return a[0]


@rx(r"^core::.*::precondition_check$", r"^std::io::stdio::_e?print$", r"^core::ub_checks::.*")
def _pre(ctx, st, *a):
    if ctx.rty.k == "bool":
        return T.TRUE
    return unit()


@model("core::intrinsics::likely", "core::intrinsics::unlikely", "core::intrinsics::black_box", "core::hint::black_box")
def _id(ctx, st, x):
    return x


@model("core::intrinsics::ub_checks", "core::intrinsics::is_val_statically_known", "core::intrinsics::contract_checks")
def _false(ctx, st, *a):
    return T.FALSE


@model("tm:core::iter::traits::collect::IntoIterator::into_iter")
def _into_iter(ctx, st, x):
    """identity for iterators, slice iteration for references to sequences, by-value arrays/vectors"""
    t = ctx.atys[0]
    E = _E()
    if t is None:
        return NotImplemented
    from . import maps
    try:
        r = maps.into_iter(ctx, st, x, t)
    except E.Unsupported:
        return NotImplemented
    if r is not None:
        return r
    if t.k == "ref":
        u = t.t
        if u.k in ("array", "slice") or (u.k == "adt" and u.p == "alloc::vec::Vec"):
            return E.Agg(0, (window(ctx.e, st, x),))
        return x if u.s.startswith("&mut") or ctx.rty.s == t.s else NotImplemented
    if t.k == "array" or (t.k == "adt" and t.p == "alloc::vec::Vec"):
        st = st.copy()
        seq = x.s if isinstance(x, E.VecV) else x
        r = seq_to_ref(ctx, st, seq)
        return [(E.Agg(0, (E.Ref(r.o, r.p, ("s", T.ZERO, ctx.e.seq_len(seq))),)), st)]
    if t.s == ctx.rty.s:
        return x
    return NotImplemented


# ------------------------------------------------------------------ integers

def _w(ctx, i=0):
    return ctx.atys[i]


def _int(name):
    """core::num::<impl T>::name"""
    return rx(r"^core::num::<impl [iu](8|16|32|64|128|size)>::" + name + "$")


@_int("(wrapping|unchecked)_(add|sub|mul)")
def _wrapping(ctx, st, a, b):
    e = ctx.e
    op = ctx.c["rdef"].rsplit("_", 1)[1]
    return e.binop(st, op.capitalize(), a, b, ctx.atys[0], None)


@model("core::intrinsics::wrapping_add", "core::intrinsics::wrapping_sub", "core::intrinsics::wrapping_mul",
       "core::intrinsics::unchecked_add", "core::intrinsics::unchecked_sub", "core::intrinsics::unchecked_mul")
def _iwrapping(ctx, st, a, b):
    return _wrapping(ctx, st, a, b)


@_int("wrapping_neg")
def _wneg(ctx, st, a):
    return ctx.e.wrap(st, T.neg(ctx.e.as_int(a)), ctx.atys[0])


@_int("wrapping_(shl|shr)")
def _wshift(ctx, st, a, b):
    e = ctx.e
    w = ctx.atys[0].w
    b = T.bits(e.as_int(b), 0, (w - 1).bit_length())
    return e.binop(st, "Shl" if ctx.c["rdef"].endswith("shl") else "Shr", a, b, ctx.atys[0], None)


@_int("rotate_(left|right)")
@model("core::intrinsics::rotate_left", "core::intrinsics::rotate_right")
def _rot(ctx, st, a, n):
    e = ctx.e
    ty = ctx.atys[0]
    a, n = e.as_int(a), e.as_int(n)
    if n.t:
        r = st.facts.rng(n)
        if r[0] != r[1]:
            return e.fresh(ty, "rot")
        n = T.const(r[0])
    k = n.k % ty.w
    if ctx.c["rdef"].endswith("right"):
        k = (ty.w - k) % ty.w
    u = e.unsigned(st, a, ty)
    r = T.rotl(u, k, ty.w)
    return T.wrap_s(r, ty.w) if ty.sg else r


@_int("(overflowing)_(add|sub|mul)")
@model("core::intrinsics::add_with_overflow", "core::intrinsics::sub_with_overflow", "core::intrinsics::mul_with_overflow")
def _overflowing(ctx, st, a, b):
    m = re.search(r"(add|sub|mul)", ctx.c["rdef"].rsplit("::", 1)[1]).group(1)
    return ctx.e.binop(st, m.capitalize() + "WithOverflow", a, b, ctx.atys[0], None)


@_int("checked_(add|sub|mul)")
def _checked(ctx, st, a, b):
    e = ctx.e
    op = ctx.c["rdef"].rsplit("_", 1)[1]
    a, b = e.as_int(a), e.as_int(b)
    x = T.add(a, b) if op == "add" else T.sub(a, b) if op == "sub" else e.mul(st, a, b)
    return _opt_range(e, st, x, ctx.atys[0])


def _opt_range(e, st, x, ty):
    c = e.in_range(x, ty)
    s1, s2 = split(e, st, c)
    out = []
    if s1 is not None:
        out.append((some(x), s1))
    # the complement of a conjunction: either bound
    if s2 is not None:
        out.append((none(), s2))
    return out


@_int("checked_(add|sub)_(signed|unsigned)")
def _checked_mixed(ctx, st, a, b):
    e = ctx.e
    a, b = e.as_int(a), e.as_int(b)
    x = T.add(a, b) if "checked_add" in ctx.c["rdef"] else T.sub(a, b)
    return _opt_range(e, st, x, ctx.atys[0])


@_int("checked_(div|rem|div_euclid|rem_euclid)")
def _checked_div(ctx, st, a, b):
    e = ctx.e
    b = e.as_int(b)
    a = e.as_int(a)
    ty = ctx.atys[0]
    out = []
    z = e.branch(st, T.eq(b), True)
    if z is not None:
        out.append((none(), z))
    nz = e.branch(st, T.eq(b), False)
    if nz is not None:
        nz = nz.copy()
        if ty.sg and nz.facts.rng(b)[0] <= -1 <= nz.facts.rng(b)[1]:
            return NotImplemented
        op = "Div" if "div" in ctx.c["rdef"].rsplit("::", 1)[1] else "Rem"
        if "euclid" in ctx.c["rdef"]:
            v = _euclid(e, nz, a, b, op, ty)
        else:
            v = e.divrem(nz, op, a, b, ty)
        out.append((some(v), nz))
    return out


def _euclid(e, st, a, b, op, ty):
    r = st.facts.rng(b)
    if r[0] == r[1] and r[0] > 0:
        ra = st.facts.rng(a)
        return T.fdiv(a, r[0], ra) if op == "Div" else T.fmod(a, r[0], ra)
    if not ty.sg:
        return e.divrem(st, op, a, b, ty)
    raise _E().Unsupported("euclidean division")


@_int("(div|rem)_euclid")
def _deucl(ctx, st, a, b):
    e = ctx.e
    a, b = e.as_int(a), e.as_int(b)
    st = require(ctx, st, T.b_not(T.eq(b)), "div", "division by zero")
    if st is None:
        return []
    st = st.copy()
    op = "Div" if "div_" in ctx.c["rdef"] else "Rem"
    return [(_euclid(e, st, a, b, op, ctx.atys[0]), st)]


@_int("saturating_(add|sub|mul)")
@model("core::intrinsics::saturating_add", "core::intrinsics::saturating_sub")
def _sat(ctx, st, a, b):
    e = ctx.e
    op = ctx.c["rdef"].rsplit("_", 1)[1]
    a, b = e.as_int(a), e.as_int(b)
    x = T.add(a, b) if op == "add" else T.sub(a, b) if op == "sub" else e.mul(st, a, b)
    ty = ctx.atys[0]
    lo, hi = ty.rng
    out = []
    lowc = T.le(T.addk(T.sub(x, T.const(lo)), 1))
    s = e.branch(st, lowc, True)
    if s is not None:
        out.append((T.const(lo), s))
    st2 = e.branch(st, lowc, False)
    if st2 is not None:
        highc = T.le(T.addk(T.sub(T.const(hi), x), 1))
        s = e.branch(st2, highc, True)
        if s is not None:
            out.append((T.const(hi), s))
        s = e.branch(st2, highc, False)
        if s is not None:
            out.append((x, s))
    return out


@_int("(swap_bytes|to_be|from_be)")
@model("core::intrinsics::bswap")
def _bswap(ctx, st, a):
    e = ctx.e
    ty = ctx.atys[0]
    u = e.unsigned(st, e.as_int(a), ty)
    n = ty.w // 8
    r = T.ZERO
    for i in range(n):
        r = T.add(r, T.scale(T.bits(u, 8 * i, 8), 1 << (8 * (n - 1 - i))))
    return T.wrap_s(r, ty.w) if ty.sg else r


@_int("(to_le|from_le)")
def _tole(ctx, st, a):
    return a


@_int("from_(le|be|ne)_bytes")
def _from_bytes(ctx, st, arr):
    e = ctx.e
    ty = ctx.rty
    n = ty.w // 8
    es = [e.as_int(e.seq_get(st, arr, T.const(i))) for i in range(n)]
    if "from_be" in ctx.c["rdef"]:
        es.reverse()
    r = T.ZERO
    for i, x in enumerate(es):
        r = T.add(r, T.scale(x, 1 << (8 * i)))
    return T.wrap_s(r, ty.w) if ty.sg else r


@_int("to_(le|be|ne)_bytes")
def _to_bytes(ctx, st, a):
    e = ctx.e
    ty = ctx.atys[0]
    u = e.unsigned(st, e.as_int(a), ty)
    es = [T.bits(u, 8 * i, 8) for i in range(ty.w // 8)]
    if "to_be" in ctx.c["rdef"]:
        es.reverse()
    return _E().Arr(es)


@_int("(count_ones|leading_zeros|trailing_zeros|count_zeros)")
@model("core::intrinsics::ctpop", "core::intrinsics::ctlz", "core::intrinsics::cttz")
def _cnt(ctx, st, a):
    name = ctx.c["rdef"].rsplit("::", 1)[1]
    a = ctx.e.as_int(a)
    w = ctx.atys[0].w
    if not a.t:
        v = a.k % (1 << w)
        if name in ("count_ones", "ctpop"):
            return T.const(bin(v).count("1"))
        if name in ("leading_zeros", "ctlz"):
            return T.const(w - v.bit_length())
        if name in ("trailing_zeros", "cttz"):
            return T.const(((v & -v).bit_length() - 1) if v else w)
        return T.const(w - bin(v).count("1"))
    return T.func(name, (a,), 0, w)


@_int("(is_power_of_two|is_multiple_of)")
def _isp(ctx, st, a, b=None):
    e = ctx.e
    if b is not None:
        a, b = e.as_int(a), e.as_int(b)
        if not b.t and b.k:
            return T.eq(T.fmod(a, b.k, st.facts.rng(a)))
    return NotImplemented


@_int("(abs|unsigned_abs)")
def _abs(ctx, st, a):
    e = ctx.e
    a = e.as_int(a)
    if not ctx.c["rdef"].endswith("unsigned_abs"):
        st = require(ctx, st, T.b_not(T.eq(T.sub(a, T.const(ctx.atys[0].rng[0])))), "overflow", "abs of the minimum")
        if st is None:
            return []
    out = []
    s = e.branch(st, T.le(T.neg(a)), True)
    if s is not None:
        out.append((a, s))
    s = e.branch(st, T.le(T.neg(a)), False)
    if s is not None:
        out.append((T.neg(a), s))
    return out


@_int("(min_value|max_value)")
def _mm(ctx, st):
    return T.const(ctx.rty.rng[0 if ctx.c["rdef"].endswith("min_value") else 1])


@_int("pow")
def _pow(ctx, st, a, n):
    e = ctx.e
    a, n = e.as_int(a), e.as_int(n)
    if not n.t and n.k <= 64:
        r = T.ONE
        for _ in range(n.k):
            r = e.mul(st, r, a)
            st = require(ctx, st, e.in_range(r, ctx.atys[0]), "overflow", "pow")
            if st is None:
                return []
        return [(r, st)]
    if not a.t:
        lo, hi = st.facts.rng(n)
        if hi <= 256:
            tab = tuple(a.k ** i for i in range(hi + 1))
            r = T.table(tab, n)
            st = require(ctx, st, e.in_range(r, ctx.atys[0]), "overflow", "pow")
            return [(r, st)] if st is not None else []
    return NotImplemented


@_int("div_ceil")
def _divceil(ctx, st, a, b):
    e = ctx.e
    a, b = e.as_int(a), e.as_int(b)
    if not b.t and b.k > 0:
        x = T.addk(a, b.k - 1)
        r = st.facts.rng(x)
        return T.fdiv(x, b.k, r)
    return NotImplemented


@_int("(wrapping_div|wrapping_rem)")
def _wdiv(ctx, st, a, b):
    e = ctx.e
    b = e.as_int(b)
    st = require(ctx, st, T.b_not(T.eq(b)), "div", "division by zero")
    if st is None:
        return []
    st = st.copy()
    return [(e.divrem(st, "Div" if ctx.c["rdef"].endswith("div") else "Rem", e.as_int(a), b, ctx.atys[0]), st)]


@rx(r"^core::convert::num::<impl core::convert::From<(u|i)(8|16|32|64|128)> for (u|i)(16|32|64|128|size)>::from$",
    r"^core::convert::num::<impl core::convert::From<bool> for .*>::from$",
    r"^<(u|i|c)\w+ as core::convert::From<\w+>>::from$",
    r"^core::char::convert::<impl core::convert::From<(u8|char)> for (char|u32|u64|u128)>::from$")
def _from_int(ctx, st, a):
    return ctx.e.as_int(a)


@rx(r".*core::convert::TryFrom<(u|i)(8|16|32|64|128|size)> for (u|i)(8|16|32|64|128|size)>::try_from$")
def _try_from_int(ctx, st, a):
    e = ctx.e
    a = e.as_int(a)
    ty = ctx.rty.ga[0]
    if ty.k != "int":
        return NotImplemented
    out = []
    s1, s2 = split(e, st, e.in_range(a, ty))
    if s1 is not None:
        out.append((ok(a), s1))
    if s2 is not None:
        out.append((err(e.fresh(ctx.rty.ga[1], "tryfrom")), s2))
    return out


@model("core::char::methods::<impl char>::from_u32", "core::char::from_u32", "core::char::convert::from_u32")
def _char_from_u32(ctx, st, a):
    e = ctx.e
    a = e.as_int(a)
    # valid: 0..=0xd7ff, 0xe000..=0x10ffff
    out = []
    c1 = T.le(T.addk(a, -0xD7FF))
    s = e.branch(st, c1, True)
    if s is not None:
        out.append((some(a), s))
    r = e.branch(st, c1, False)
    if r is not None:
        c2 = T.le(T.addk(a, -0xDFFF))
        s = e.branch(r, c2, True)
        if s is not None:
            out.append((none(), s))
        r = e.branch(r, c2, False)
    if r is not None:
        c3 = T.le(T.addk(a, -0x10FFFF))
        s = e.branch(r, c3, True)
        if s is not None:
            out.append((some(a), s))
        s = e.branch(r, c3, False)
        if s is not None:
            out.append((none(), s))
    return out


# min / max / cmp

@rx(r"^core::cmp::(min|max)$", r"^core::cmp::impls::<impl core::cmp::Ord for [iu]\w+>::(min|max)$", r"^core::cmp::Ord::(min|max)$",
    r"^core::intrinsics::integer_(min|max)$")
def _minmax(ctx, st, a, b):
    e = ctx.e
    if ctx.rty.k != "int":
        return NotImplemented
    a, b = e.as_int(a), e.as_int(b)
    c = T.le(T.sub(a, b))
    mn = bool(re.search(r"min$", ctx.c["rdef"]))
    t = st.facts.truth(c)
    if t is True:
        return a if mn else b
    if t is False:
        return b if mn else a
    s1, s2 = split(e, st, c)
    out = []
    if s1 is not None:
        out.append((a if mn else b, s1))
    if s2 is not None:
        out.append((b if mn else a, s2))
    return out


def _deref_all(e, st, v, ty):
    """follow references of type ty to the value"""
    E = _E()
    while ty is not None and ty.k in ("ref", "ptr") and not (isinstance(v, E.Ref) and v.m and v.m[0] == "s"):
        r = e.deref_val(st, v)
        if r.m and r.m[0] == "s":
            return r, ty.t
        v = e.load(st, r.o, r.p)
        ty = ty.t
    return v, ty


def _is_seqty(t):
    return t is not None and (t.k in ("slice", "array", "str") or (t.k == "adt" and t.p in ("alloc::vec::Vec", "alloc::string::String")))


@rx(r".* as core::cmp::PartialEq(<.*>)?>::(eq|ne)$", r"^core::.*<impl core::cmp::PartialEq(<.*>)? for .*>::(eq|ne)$",
    r"^alloc::.*<impl core::cmp::PartialEq(<.*>)? for .*>::(eq|ne)$", r"^core::cmp::PartialEq::ne$")
def _partial_eq(ctx, st, a, b):
    e = ctx.e
    E = _E()
    neg = ctx.c["rdef"].endswith("ne")
    ta, tb = ctx.atys
    va, ta = _deref_all(e, st, a, ta)
    vb, tb = _deref_all(e, st, b, tb)
    if ta is not None and ta.k in ("int", "bool", "char") and tb is not None and tb.k == ta.k:
        r = e.binop(st, "Ne" if neg else "Eq", va, vb, ta, None)
        return r
    if (_is_seqty(ta) or isinstance(va, E.Ref)) and (_is_seqty(tb) or isinstance(vb, E.Ref)):
        r = seq_eq(e, st, va, vb)
        return T.b_not(r) if neg else r
    if ta is not None and ta.k == "adt" and ta.ak == "enum" and ta.p.startswith(("core::option", "keramics", "core::cmp")) and tb.s == ta.s:
        if isinstance(va, E.Agg) and isinstance(vb, E.Agg):
            if va.v != vb.v:
                return T.TRUE if neg else T.FALSE
            if not va.f or va == vb:
                return T.FALSE if neg else T.TRUE
        if all(not x[2] for x in ta.vs):
            da, db = e.discriminant(st, va, ta), e.discriminant(st, vb, ta)
            r = T.eq(T.sub(da, db))
            return T.b_not(r) if neg else r
    return NotImplemented


def seq_view(e, st, v):
    E = _E()
    if isinstance(v, E.Ref):
        return e.ref_seq(st, v)
    if isinstance(v, E.VecV):
        v = v.s
    return v, T.ZERO, e.seq_len(v)


def seq_eq(e, st, a, b):
    """boolean: the sequences are equal"""
    E = _E()
    (sa, oa, na), (sb, ob, nb) = seq_view(e, st, a), seq_view(e, st, b)
    if sa == sb and oa == ob and na == nb:
        return T.TRUE
    lt = T.eq(T.sub(na, nb))
    t = st.facts.truth(lt)
    if t is False:
        return T.FALSE
    n = na if not na.t else nb
    if not n.t and n.k <= 64:
        c = lt
        for j in range(n.k):
            try:
                x = e.as_int(e.seq_get(st, sa, T.addk(oa, j)))
                y = e.as_int(e.seq_get(st, sb, T.addk(ob, j)))
            except E.Unsupported:
                return T.B("opq", ("seqeq", repr(sa), T.show(oa), repr(sb), T.show(ob), T.show(n)))
            c = T.b_and(c, T.eq(T.sub(x, y)))
        return c
    return T.b_and(lt, T.B("opq", ("seqeq", repr(sa), T.show(oa), repr(sb), T.show(ob), T.show(n))))


@rx(r"^core::cmp::impls::<impl core::cmp::PartialOrd(<.*>)? for (u|i|c)\w+>::(lt|le|gt|ge)$")
def _pord(ctx, st, a, b):
    e = ctx.e
    op = ctx.c["rdef"].rsplit("::", 1)[1].capitalize()
    va, _ = _deref_all(e, st, a, ctx.atys[0])
    vb, _ = _deref_all(e, st, b, ctx.atys[1])
    return e.binop(st, op, va, vb, ctx.atys[0].t, None)


# ------------------------------------------------------------------ slices

@rx(r"^core::slice::<impl \[.*\]>::len$", r"^core::str::<impl str>::len$", r"^alloc::vec::Vec::<.*>::len$", r"^alloc::string::String::len$")
def _len(ctx, st, s):
    return window(ctx.e, st, s).m[2]


@rx(r"^core::slice::<impl \[.*\]>::is_empty$", r"^core::str::<impl str>::is_empty$", r"^alloc::vec::Vec::<.*>::is_empty$",
    r"^alloc::string::String::is_empty$")
def _is_empty(ctx, st, s):
    return T.eq(window(ctx.e, st, s).m[2])


@rx(r"^core::slice::<impl \[.*\]>::(as_ptr|as_mut_ptr)$")
def _as_ptr(ctx, st, s):
    r = window(ctx.e, st, s)
    return elem_ref(ctx.e, st, r, T.ZERO)


@rx(r"^core::slice::<impl \[.*\]>::(iter|iter_mut)$", r"^core::str::<impl str>::bytes$")
def _iter(ctx, st, s):
    return _E().Agg(0, (window(ctx.e, st, s),))


@rx(r"^core::slice::<impl \[.*\]>::(chunks|chunks_exact|chunks_mut|chunks_exact_mut|windows|array_windows)$")
def _chunks(ctx, st, s, n):
    e = ctx.e
    n = e.as_int(n)
    st = require(ctx, st, T.le(T.addk(T.neg(n), 1)), "chunks", "chunk size zero")
    if st is None:
        return []
    return [(_E().Agg(0, (window(e, st, s), n)), st)]


@rx(r"^core::slice::iter::ChunksExact::.*::remainder$")
def _remainder(ctx, st, it):
    e = ctx.e
    v, _ = _deref_all(e, st, it, ctx.atys[0])
    w, n = v.f
    if n.t:
        return NotImplemented
    L = w.m[2]
    rem = T.fmod(L, n.k, st.facts.rng(L))
    return sub_window(w, T.sub(L, rem), rem)


RANGE_KINDS = {
    "core::ops::range::Range": "range", "core::ops::range::RangeTo": "to", "core::ops::range::RangeFrom": "from",
    "core::ops::range::RangeFull": "full", "core::ops::range::RangeInclusive": "incl", "core::ops::range::RangeToInclusive": "toincl",
    "core::range::Range": "range", "core::range::RangeFrom": "from", "core::range::RangeInclusive": "incl",
}


def range_bounds(e, st, v, ty, n):
    """(start, end) of a range value against length n"""
    E = _E()
    k = RANGE_KINDS.get(ty.p) if ty.k == "adt" else None
    if k is None:
        return None
    if isinstance(v, E.Sym):
        v = e.expand(v, 0)
    f = [e.as_int(x) for x in v.f[:2]] if k != "full" else []
    if k == "range":
        return f[0], f[1]
    if k == "to":
        return T.ZERO, f[0]
    if k == "from":
        return f[0], n
    if k == "full":
        return T.ZERO, n
    if k == "incl":
        return f[0], T.addk(f[1], 1)
    return T.ZERO, T.addk(f[0], 1)


@rx(r".* as core::ops::index::Index(Mut)?<.*>>::index(_mut)?$", r"^core::.*<impl core::ops::index::Index(Mut)?<.*> for .*>::index(_mut)?$",
    r".* as core::slice::index::SliceIndex<.*>>::index(_mut)?$")
def _index(ctx, st, s, i):
    e = ctx.e
    if "SliceIndex" in ctx.c["rdef"]:
        s, i = i, s
        ts, ti = ctx.atys[1], ctx.atys[0]
    else:
        ts, ti = ctx.atys
    u = ts.t if ts.k in ("ref", "ptr") else None
    if not _is_seqty(u):
        return NotImplemented
    r = window(e, st, s)
    n = r.m[2]
    if ti.k == "int":
        i = e.as_int(i)
        st = require(ctx, st, T.le(T.addk(T.sub(i, n), 1)), "bounds", "index")
        if st is None:
            return []
        return [(elem_ref(e, st, r, i), st)]
    b = range_bounds(e, st, i, ti, n)
    if b is None:
        return NotImplemented
    lo, hi = b
    st = require(ctx, st, T.le(T.sub(lo, hi)), "slice", "slice start after end")
    if st is None:
        return []
    st = require(ctx, st, T.le(T.sub(hi, n)), "slice", "slice end past the length")
    if st is None:
        return []
    if u.k == "str" or (u.k == "adt" and u.p == "alloc::string::String"):
        st = str_boundary(ctx, st, r, lo)
        if st is None:
            return []
        st = str_boundary(ctx, st, r, hi)
        if st is None:
            return []
    return [(sub_window(r, lo, T.sub(hi, lo)), st)]


def str_boundary(ctx, st, r, i):
    """string slicing panics unless i lies on a character boundary"""
    e = ctx.e
    E = _E()
    n = r.m[2]
    if st.facts.truth(T.eq(i)) is True or st.facts.truth(T.eq(T.sub(i, n))) is True:
        return st
    v = e.load(st, r.o, r.p)
    ascii_ok = ("ascii", repr(v)) in st.notes
    if ascii_ok:
        return st
    try:
        x = e.as_int(e.seq_get(st, v, T.add(r.m[1], i)))
        # a byte that is not a continuation byte, or the end
        c = T.b_or(T.b_or(T.eq(T.sub(i, n)), T.le(T.addk(x, -0x7F))), T.le(T.sub(T.const(0xC0), x)))
        if st.facts.truth(T.le(T.sub(T.ONE, T.add(r.m[1], i)))) is True:
            # a string is well-formed UTF-8: whatever follows an ASCII byte starts a character
            y = e.as_int(e.seq_get(st, v, T.addk(T.add(r.m[1], i), -1)))
            if st.facts.truth(T.le(T.addk(y, -0x7F))) is True:
                return st
    except E.Unsupported:
        c = T.B("opq", ("boundary", repr(v), T.show(i)))
    return require(ctx, st, c, "str-boundary", "string slice not shown to be on a character boundary")


@rx(r"^core::slice::<impl \[.*\]>::(get|get_mut)$", r"^core::slice::<impl \[.*\]>::(get|get_mut)::<.*>$")
def _get(ctx, st, s, i):
    e = ctx.e
    r = window(e, st, s)
    n = r.m[2]
    ti = ctx.atys[1]
    if ti.k == "int":
        i = e.as_int(i)
        s1, s2 = split(e, st, T.le(T.addk(T.sub(i, n), 1)))
        out = []
        if s1 is not None:
            out.append((some(elem_ref(e, s1, r, i)), s1))
        if s2 is not None:
            out.append((none(), s2))
        return out
    b = range_bounds(e, st, i, ti, n)
    if b is None:
        return NotImplemented
    lo, hi = b
    out = []
    c = T.b_and(T.le(T.sub(lo, hi)), T.le(T.sub(hi, n)))
    s1, s2 = split(e, st, c)
    if s1 is not None:
        out.append((some(sub_window(r, lo, T.sub(hi, lo))), s1))
    if s2 is not None:
        out.append((none(), s2))
    return out


@rx(r"^core::slice::<impl \[.*\]>::(first|last|first_mut|last_mut)$")
def _first(ctx, st, s):
    e = ctx.e
    r = window(e, st, s)
    n = r.m[2]
    s1, s2 = split(e, st, T.eq(n))
    out = []
    if s1 is not None:
        out.append((none(), s1))
    if s2 is not None:
        i = T.ZERO if "first" in ctx.c["rdef"].rsplit("::", 1)[1] else T.addk(n, -1)
        out.append((some(elem_ref(e, s2, r, i)), s2))
    return out


@rx(r"^core::slice::<impl \[.*\]>::(split_at|split_at_mut)$")
def _split_at(ctx, st, s, m):
    e = ctx.e
    r = window(e, st, s)
    m = e.as_int(m)
    st = require(ctx, st, T.le(T.sub(m, r.m[2])), "slice", "split_at past the length")
    if st is None:
        return []
    return [(tup(sub_window(r, T.ZERO, m), sub_window(r, m, T.sub(r.m[2], m))), st)]


@rx(r"^core::slice::<impl \[.*\]>::(split_first|split_last)$")
def _split_first(ctx, st, s):
    e = ctx.e
    r = window(e, st, s)
    n = r.m[2]
    out = []
    s1, s2 = split(e, st, T.eq(n))
    if s1 is not None:
        out.append((none(), s1))
    if s2 is not None:
        if ctx.c["rdef"].endswith("first"):
            out.append((some(tup(elem_ref(e, s2, r, T.ZERO), sub_window(r, T.ONE, T.addk(n, -1)))), s2))
        else:
            out.append((some(tup(elem_ref(e, s2, r, T.addk(n, -1)), sub_window(r, T.ZERO, T.addk(n, -1)))), s2))
    return out


@rx(r"^core::slice::<impl \[.*\]>::(copy_from_slice|clone_from_slice)$", r"^core::slice::copy_from_slice_impl(::<.*>)?$")
def _copy_from_slice(ctx, st, d, s):
    e = ctx.e
    rd, rs = window(e, st, d), window(e, st, s)
    st = require(ctx, st, T.eq(T.sub(rd.m[2], rs.m[2])), "slice", "copy_from_slice length mismatch")
    if st is None:
        return []
    out = []
    for nn, st in lengths(ctx, st, rd.m[2] if not rd.m[2].t else rs.m[2]):
        st = st.copy()
        src, so, n = e.ref_seq(st, rs)
        write_window(e, st, rd, T.ZERO, nn, src, so)
        out.append((unit(), st))
    return out


@rx(r"^core::slice::<impl \[.*\]>::copy_within(::<.*>)?$")
def _copy_within(ctx, st, d, rng, dest):
    e = ctx.e
    r = window(e, st, d)
    b = range_bounds(e, st, rng, ctx.atys[1], r.m[2])
    if b is None:
        return NotImplemented
    lo, hi = b
    dest = e.as_int(dest)
    st = require(ctx, st, T.le(T.sub(lo, hi)), "slice", "copy_within range")
    st = st and require(ctx, st, T.le(T.sub(hi, r.m[2])), "slice", "copy_within range")
    st = st and require(ctx, st, T.le(T.sub(T.add(dest, T.sub(hi, lo)), r.m[2])), "slice", "copy_within destination")
    if st is None:
        return []
    st = st.copy()
    src, so, n = e.ref_seq(st, r)
    write_window(e, st, r, dest, T.sub(hi, lo), src, T.add(so, lo))
    return [(unit(), st)]


@rx(r"^core::slice::<impl \[.*\]>::fill$")
def _fill(ctx, st, d, x):
    e = ctx.e
    E = _E()
    r = window(e, st, d)
    out = []
    for n, st in lengths(ctx, st, r.m[2]):
        st = st.copy()
        if not n.t and n.k <= 512:
            src = E.Arr([x] * n.k)
        else:
            ety = ctx.atys[1]
            src = E.SArr(e.fresh_name("fill"), ety, n, (), x)
        write_window(e, st, r, T.ZERO, n, src, T.ZERO)
        out.append((unit(), st))
    return out


@rx(r"^core::slice::<impl \[.*\]>::swap$")
def _swap(ctx, st, d, i, j):
    e = ctx.e
    r = window(e, st, d)
    i, j = e.as_int(i), e.as_int(j)
    for x in (i, j):
        st = require(ctx, st, T.le(T.addk(T.sub(x, r.m[2]), 1)), "bounds", "swap")
        if st is None:
            return []
    st = st.copy()
    a, b = win_get(e, st, r, i), win_get(e, st, r, j)
    o, p = writable(e, st, r)
    e.store(st, o, p + (("i", T.add(r.m[1], i)),), b)
    e.store(st, o, p + (("i", T.add(r.m[1], j)),), a)
    return [(unit(), st)]


@rx(r"^core::slice::<impl \[.*\]>::reverse$")
def _reverse(ctx, st, d):
    e = ctx.e
    E = _E()
    r = window(e, st, d)
    st = st.copy()
    n = r.m[2]
    if not n.t and n.k <= 512:
        src = E.Arr([win_get(e, st, r, T.const(n.k - 1 - j)) for j in range(n.k)])
        write_window(e, st, r, T.ZERO, n, src, T.ZERO)
    else:
        write_window(e, st, r, T.ZERO, n, None, T.ZERO)
    return [(unit(), st)]


@rx(r"^core::slice::<impl \[.*\]>::(sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key)(::<.*>)?$",
    r"^alloc::slice::<impl \[.*\]>::(sort|sort_by|sort_by_key)(::<.*>)?$")
def _sort(ctx, st, d, *a):
    e = ctx.e
    r = window(e, st, d)
    st = st.copy()
    n = r.m[2]
    if not n.t and n.k <= 256 and not a:
        xs = [win_get(e, st, r, T.const(j)) for j in range(n.k)]
        if all(isinstance(x, T.Lin) and not x.t for x in xs):
            xs.sort(key=lambda x: x.k)
            write_window(e, st, r, T.ZERO, n, _E().Arr(xs), T.ZERO)
            return [(unit(), st)]
    e.note_unsupported("sort of unknown values")
    write_window(e, st, r, T.ZERO, r.m[2], None, T.ZERO)
    return [(unit(), st)]


@rx(r"^core::slice::<impl \[.*\]>::contains$")
def _contains(ctx, st, s, x):
    e = ctx.e
    E = _E()
    r = window(e, st, s)
    n = r.m[2]
    t = ctx.atys[1].t
    if t.k in ("int", "char", "bool") and not n.t and n.k <= 256:
        y, _ = _deref_all(e, st, x, ctx.atys[1])
        y = e.as_int(y)
        seq = e.load(st, r.o, r.p)
        vals = []
        for j in range(n.k):
            vals.append(e.as_int(e.seq_get(st, seq, T.addk(r.m[1], j))))
        c = T.FALSE
        for v in vals:
            c = T.b_or(c, T.eq(T.sub(y, v)))
        return c
    if t.k == "adt":
        from . import maps
        try:
            return maps.contains(ctx, st, s, x)
        except E.Unsupported:
            return NotImplemented
    return NotImplemented


@rx(r"^core::slice::<impl \[.*\]>::(starts_with|ends_with)$")
def _starts(ctx, st, s, p):
    e = ctx.e
    r, q = window(e, st, s), window(e, st, p)
    n, m = r.m[2], q.m[2]
    out = []
    s1, s2 = split(e, st, T.le(T.sub(m, n)))
    if s1 is not None:
        off = T.ZERO if ctx.c["rdef"].endswith("starts_with") else T.sub(n, m)
        out.append((seq_eq(e, s1, sub_window(r, off, m), q), s1))
    if s2 is not None:
        out.append((T.FALSE, s2))
    return out


@rx(r"^core::str::<impl str>::(starts_with|ends_with)(::<.*>)?$")
def _str_starts(ctx, st, s, p):
    e = ctx.e
    t = ctx.atys[1]
    if t.k == "char":
        p = e.as_int(p)
        if p.t or p.k >= 0x80:
            return NotImplemented
        r = window(e, st, s)
        n = r.m[2]
        s1, s2 = split(e, st, T.eq(n))
        out = []
        if s1 is not None:
            out.append((T.FALSE, s1))
        if s2 is not None:
            x = win_get(e, s2, r, T.ZERO if "starts_with" in ctx.c["rdef"] else T.addk(n, -1))
            out.append((T.eq(T.sub(x, p)), s2))
        return out
    if t.k == "ref" and t.t.k == "str":
        return _starts(ctx, st, s, p)
    return NotImplemented


@rx(r"^core::str::<impl str>::as_bytes$", r"^alloc::string::String::(as_str|as_bytes)$", r"^alloc::vec::Vec::<.*>::(as_slice|as_mut_slice)$",
    r"^<alloc::(vec::Vec<.*>|string::String) as core::ops::deref::Deref(Mut)?>::deref(_mut)?$",
    r"^core::array::<impl \[.*\]>::as_(mut_)?slice$",
    r"^<.* as core::convert::AsRef<(\[.*\]|str)>>::as_ref$", r"^<.* as core::borrow::Borrow<(\[.*\]|str)>>::borrow$",
    r"^alloc::string::String::(into_bytes|from_utf8_unchecked)$")
def _as_bytes(ctx, st, s):
    if ctx.rty.k == "adt":
        return s
    return window(ctx.e, st, s)


@rx(r"^core::str::<impl str>::is_ascii$", r"^core::slice::ascii::<impl \[u8\]>::is_ascii$")
def _is_ascii(ctx, st, s):
    e = ctx.e
    r = window(e, st, s)
    v = e.load(st, r.o, r.p)
    n = r.m[2]
    if not n.t and n.k <= 64:
        c = T.TRUE
        for j in range(n.k):
            c = T.b_and(c, T.le(T.addk(e.as_int(win_get(e, st, r, T.const(j))), -0x7F)))
        return c
    s1 = st.copy()
    s1.notes = s1.notes + (("ascii", repr(v)),)
    return [(T.TRUE, s1), (T.FALSE, st)]


@rx(r"^core::str::<impl str>::is_char_boundary$")
def _is_boundary(ctx, st, s, i):
    e = ctx.e
    E = _E()
    r = window(e, st, s)
    i = e.as_int(i)
    n = r.m[2]
    out = []
    for cond, val in ((T.eq(i), T.TRUE), (T.eq(T.sub(i, n)), T.TRUE), (T.le(T.addk(T.sub(n, i), 1)), T.FALSE)):
        s1, s2 = split(e, st, cond)
        if s1 is not None:
            out.append((val, s1))
        if s2 is None:
            return out
        st = s2
    x = e.as_int(win_get(e, st, r, i))
    out.append((T.b_or(T.le(T.addk(x, -0x7F)), T.le(T.sub(T.const(0xC0), x))), st))
    return out


@rx(r"^alloc::slice::<impl \[.*\]>::(to_vec|into_vec)(::<.*>)?$", r"^<.* as alloc::borrow::ToOwned>::to_owned$",
    r"^alloc::slice::<impl alloc::borrow::ToOwned for \[.*\]>::to_owned$", r"^alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned$",
    r"^<alloc::vec::Vec<.*> as core::convert::From<.*>>::from$", r"^<alloc::string::String as core::convert::From<&.*>>::from$",
    r"^<alloc::(vec::Vec<.*>|string::String) as core::clone::Clone>::clone$", r"^alloc::str::<impl str>::into_string$")
def _to_vec(ctx, st, s):
    e = ctx.e
    E = _E()
    t = ctx.atys[0]
    if t is not None and t.k not in ("ref", "ptr"):
        if isinstance(s, E.VecV):
            return s
        if isinstance(s, (E.Arr, E.SArr)):
            return E.VecV(s)
        return NotImplemented
    return E.VecV(e.slice_seq(st, window(e, st, s)))


@rx(r"^<T as alloc::string::ToString>::to_string$", r"^<str as alloc::string::.*>::(spec_)?to_string$")
def _to_string(ctx, st, s):
    e = ctx.e
    E = _E()
    v, t = _deref_all(e, st, s, ctx.atys[0])
    while t is not None and t.k == "ref" and t.t is not None and isinstance(v, E.Ref) and v.m and v.m[0] == "s":
        t = t.t
    if t is not None and t.k in ("str",) or (t is not None and t.k == "adt" and t.p == "alloc::string::String"):
        if isinstance(v, E.Ref):
            return E.VecV(e.slice_seq(st, v))
        return v
    if t is not None and t.k in ("char", "int") and isinstance(v, T.Lin):
        if t.k == "char":
            seg = rope.char_seg(st, v)
            if seg is not None:
                return rope.make(e, [seg])
        else:
            return rope.make(e, rope.number(st, "display", (rope.PLAIN, 0, 0), v))
    if t is not None and t.k == "adt" and t.p == "core::fmt::Arguments":
        xs = expand_args(ctx, st, v)
        return [(_format1(ctx, s2, x), s2) for x, s2 in xs]
    ds = display(ctx, st, s, ctx.atys[0])
    if ds is not None and all(x[0] is not None for x in ds):
        return [(rope.make(e, segs), s2) for segs, _, s2 in ds]
    nm = e.fresh_name("to_string")
    return E.VecV(E.SArr(nm, None, T.sym(nm + ".len", 0, E.LEN_MAX)))


@rx(r".*core::convert::TryFrom<&(mut )?\[.*\]> for (&.*)?\[.*\]>::try_from$",
    r".*core::convert::TryFrom<&.*\[.*\]> for &.*\[.*\]>::try_from$")
def _try_from_slice(ctx, st, s):
    e = ctx.e
    E = _E()
    t = ctx.rty.ga[0]
    n = t.n if t.k == "array" else t.t.n
    r = window(e, st, s)
    out = []
    s1, s2 = split(e, st, T.eq(T.addk(r.m[2], -n)))
    if s1 is not None:
        if t.k == "array":
            v = E.Arr([win_get(e, s1, r, T.const(j)) for j in range(n)]) if n <= 512 else e.slice_seq(s1, sub_window(r, T.ZERO, T.const(n)))
        else:
            v = E.Ref(r.o, r.p, ("s", r.m[1], T.const(n)))
        out.append((ok(v), s1))
    if s2 is not None:
        out.append((err(unit()), s2))
    return out


# ------------------------------------------------------------------ Vec / String

def vec_of(e, st, r):
    E = _E()
    r = e.deref_val(st, r)
    v = e.load(st, r.o, r.p)
    if isinstance(v, E.Sym) and v.ty.k == "adt":
        v = e.mk_sym(v.ty, v.name)
        e.store(st, r.o, r.p, v)
    if not isinstance(v, E.VecV):
        raise E.Unsupported(f"vector expected, got {type(v).__name__}")
    return r, v


@rx(r"^alloc::vec::Vec::<.*>::(new|with_capacity)$", r"^alloc::string::String::(new|with_capacity)$",
    r"^<alloc::(vec::Vec<.*>|string::String) as core::default::Default>::default$")
def _vec_new(ctx, st, *a):
    E = _E()
    return E.VecV(E.Arr(()))


@rx(r"^alloc::vec::from_elem(::<.*>)?$")
def _from_elem(ctx, st, x, n):
    e = ctx.e
    E = _E()
    n = e.as_int(n)
    if not n.t and n.k <= 8192:
        return E.VecV(E.Arr([x] * n.k))
    return E.VecV(E.SArr(e.fresh_name("vec"), ctx.atys[0], n, (), x))


@rx(r"^alloc::vec::Vec::<.*>::push$")
def _push(ctx, st, r, x):
    e = ctx.e
    E = _E()
    st = st.copy()
    r, v = vec_of(e, st, r)
    s = v.s
    if isinstance(s, E.Arr) and len(s.e) < 8192:
        ns = E.Arr(s.e + (x,))
    else:
        if isinstance(s, E.Arr):
            s = E.SArr(e.fresh_name("vec"), ctx.atys[1], T.const(len(s.e)), (("r", T.ZERO, T.const(len(s.e)), s, T.ZERO),))
        ns = E.SArr(s.base, s.ety or ctx.atys[1], T.addk(s.n, 1), s.w + (("w", s.n, x),), s.fill)
    e.store(st, r.o, r.p, E.VecV(ns))
    return [(unit(), st)]


@rx(r"^alloc::vec::Vec::<.*>::extend_from_slice$", r"^alloc::string::String::push_str$",
    r"^alloc::vec::Vec::<.*>::append$", r"^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend$")
def _extend(ctx, st, r, s):
    e = ctx.e
    E = _E()
    st = st.copy()
    r, v = vec_of(e, st, r)
    w = window(e, st, s)
    add = e.slice_seq(st, w)
    if ctx.c["rdef"].endswith("append"):
        e.store(st, w.o, w.p, E.VecV(E.Arr(())))
    a = v.s
    n2 = w.m[2]
    if isinstance(a, E.Arr) and isinstance(add, E.Arr):
        ns = E.Arr(a.e + add.e)
    else:
        if isinstance(a, E.Arr):
            ety = add.ety if isinstance(add, E.SArr) else None
            a = E.SArr(e.fresh_name("vec"), ety, T.const(len(a.e)), (("r", T.ZERO, T.const(len(a.e)), a, T.ZERO),))
        ns = E.SArr(a.base, a.ety, T.add(a.n, n2), a.w + (("r", a.n, n2, add, T.ZERO),), a.fill)
    e.store(st, r.o, r.p, E.VecV(ns))
    return [(unit(), st)]


@rx(r"^alloc::vec::Vec::<.*>::(clear)$", r"^alloc::string::String::clear$")
def _clear(ctx, st, r):
    e = ctx.e
    E = _E()
    st = st.copy()
    r = e.deref_val(st, r)
    e.store(st, r.o, r.p, E.VecV(E.Arr(())))
    return [(unit(), st)]


@rx(r"^alloc::vec::Vec::<.*>::(reserve|reserve_exact|shrink_to_fit|shrink_to)$", r"^alloc::string::String::(reserve|shrink_to_fit)$")
def _reserve(ctx, st, r, *a):
    return unit()


@rx(r"^alloc::vec::Vec::<.*>::truncate$")
def _truncate(ctx, st, r, n):
    e = ctx.e
    E = _E()
    n = e.as_int(n)
    r0, v = vec_of(e, st, r)
    L = e.seq_len(v)
    out = []
    s1, s2 = split(e, st, T.le(T.sub(n, L)))
    if s1 is not None:
        s1 = s1.copy()
        if isinstance(v.s, E.Arr) and not n.t:
            ns = E.Arr(v.s.e[:n.k])
        elif isinstance(v.s, E.Arr):
            ns = E.SArr(e.fresh_name("vec"), None, n, (("r", T.ZERO, T.const(len(v.s.e)), v.s, T.ZERO),))
        else:
            ns = E.SArr(v.s.base, v.s.ety, n, v.s.w, v.s.fill)
        e.store(s1, r0.o, r0.p, E.VecV(ns))
        out.append((unit(), s1))
    if s2 is not None:
        out.append((unit(), s2))
    return out


@rx(r"^alloc::vec::Vec::<.*>::resize$")
def _resize(ctx, st, r, n, x):
    e = ctx.e
    E = _E()
    n = e.as_int(n)
    st = st.copy()
    r0, v = vec_of(e, st, r)
    if isinstance(v.s, E.Arr) and not n.t and n.k <= 8192:
        es = list(v.s.e[:n.k])
        es += [x] * (n.k - len(es))
        ns = E.Arr(es)
    else:
        L = e.seq_len(v)
        base = v.s
        grow = T.le(T.sub(L, n))
        t = st.facts.truth(grow)
        nm = e.fresh_name("vec")
        if t is True:
            ns = E.SArr(nm, ctx.atys[2], n, (("r", T.ZERO, L, base, T.ZERO),), x)
        else:
            ns = E.SArr(nm, ctx.atys[2], n)
    e.store(st, r0.o, r0.p, E.VecV(ns))
    return [(unit(), st)]


@rx(r"^alloc::vec::Vec::<.*>::pop$")
def _pop(ctx, st, r):
    e = ctx.e
    E = _E()
    r0, v = vec_of(e, st, r)
    n = e.seq_len(v)
    out = []
    s1, s2 = split(e, st, T.eq(n))
    if s1 is not None:
        out.append((none(), s1))
    if s2 is not None:
        s2 = s2.copy()
        x = e.seq_get(s2, v.s, T.addk(n, -1))
        if isinstance(v.s, E.Arr):
            ns = E.Arr(v.s.e[:-1])
        else:
            ns = E.SArr(v.s.base, v.s.ety, T.addk(n, -1), v.s.w, v.s.fill)
        e.store(s2, r0.o, r0.p, E.VecV(ns))
        out.append((some(x), s2))
    return out


@rx(r"^alloc::string::String::push$")
def _string_push(ctx, st, r, c):
    e = ctx.e
    E = _E()
    st = st.copy()
    r0, v = vec_of(e, st, r)
    c = e.as_int(c)
    seg = rope.char_seg(st, c)
    if seg is not None:
        e.store(st, r0.o, r0.p, rope.make(e, rope.of_seq(e, st, v.s) + (seg if isinstance(seg, list) else [seg])))
    else:
        nm = e.fresh_name("str")
        e.store(st, r0.o, r0.p, E.VecV(E.SArr(nm, None, T.sym(nm + ".len", 0, E.LEN_MAX))))
    return [(unit(), st)]


# boxes

@rx(r"^alloc::boxed::Box::<.*>::new$", r"^alloc::rcs::(arc|rc)::(Arc|Rc)::<.*>::new$", r"^alloc::sync::Arc::<.*>::new$",
    r"^<alloc::boxed::Box<.*> as core::convert::From<.*>>::from$")
def _box_new(ctx, st, x):
    st = st.copy()
    return [(seq_to_ref(ctx, st, x), st)]


@rx(r"^alloc::boxed::Box::<.*>::new_uninit$")
def _box_uninit(ctx, st):
    E = _E()
    st = st.copy()
    t = ctx.rty.ga[0]
    return [(seq_to_ref(ctx, st, E.Sym(t, ctx.e.fresh_name("uninit"))), st)]


@rx(r"^alloc::boxed::box_assume_init_into_vec_unsafe(::<.*>)?$")
def _box_vec(ctx, st, b):
    e = ctx.e
    E = _E()
    r = e.deref_val(st, b)
    v = e.load(st, r.o, r.p)
    for _ in range(4):
        if isinstance(v, E.Agg) and len(v.f) >= 1:
            v = v.f[-1]
    return E.VecV(v)


@rx(r"^<alloc::rcs::(arc::Arc|rc::Rc)<.*> as core::clone::Clone>::clone$", r"^<alloc::sync::Arc<.*> as core::clone::Clone>::clone$")
def _arc_clone(ctx, st, r):
    v, _ = _deref1(ctx.e, st, r)
    return v


def _deref1(e, st, r):
    r = e.deref_val(st, r)
    return e.load(st, r.o, r.p), r


@rx(r"^<alloc::rcs::(arc::Arc|rc::Rc)<.*> as core::ops::deref::Deref>::deref$", r"^<alloc::boxed::Box<.*> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$",
    r"^<alloc::rcs::(arc::Arc|rc::Rc)<.*> as core::convert::AsRef<.*>>::as_ref$", r"^<alloc::boxed::Box<.*> as core::convert::AsRef<.*>>::as_ref$",
    r"^alloc::boxed::Box::<.*>::(leak|as_ref|as_mut)$")
def _arc_deref(ctx, st, r):
    e = ctx.e
    E = _E()
    v, r0 = _deref1(e, st, r)
    if isinstance(v, E.Sym):
        return pointee(e, v)
    return e.deref_val(st, v)


def pointee(e, v):
    E = _E()
    o = ("S", v.name + ".*")
    t = v.ty.ga[0] if v.ty.ga else v.ty.t
    if t.k in ("slice", "str"):
        n = T.sym(v.name + ".len", 0, E.LEN_MAX)
        e.sobjs[o] = ("seq", t.t, n, v.name)
        return E.Ref(o, (), ("s", T.ZERO, n))
    e.sobjs[o] = ("val", t, None, v.name)
    return E.Ref(o, (), ("vt", None) if t.k == "dyn" else None)


@rx(r"^std::sync::poison::rwlock::RwLock::<.*>::(read|write)$", r"^std::sync::poison::mutex::Mutex::<.*>::lock$")
def _rwlock(ctx, st, r):
    """a guard dereferences to the protected value; poisoning may be reported"""
    e = ctx.e
    E = _E()
    try:
        r0 = e.deref_val(st, r)
    except E.Unsupported:
        return NotImplemented
    g = E.Agg("guard", (r0,))
    try:
        x = e.load(st, r0.o, r0.p)
    except E.Unsupported:
        x = None
    if isinstance(x, E.Agg) and x.v == "rwlock":
        # a lock made on this path: nobody held it while aborting
        return [(ok(g), st)]
    return [(ok(g), st), (err(e.fresh(ctx.rty.ga[1], "poison")), st)]


@rx(r"^<std::sync::poison::(rwlock::RwLock(Read|Write)|mutex::Mutex)Guard<.*> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$")
def _guard_deref(ctx, st, r):
    e = ctx.e
    E = _E()
    v, _ = _deref1(e, st, r)
    if isinstance(v, E.Agg) and v.v == "guard":
        r0 = v.f[0]
        x = e.load(st, r0.o, r0.p)
        if isinstance(x, E.Agg) and x.v == "rwlock":
            return E.Ref(r0.o, r0.p + (("f", 0),), r0.m if r0.m and r0.m[0] == "vt" else None)
        if isinstance(x, E.Sym) and x.ty.k == "adt" and x.ty.ga:
            return pointee(e, x)
    if isinstance(v, E.Sym) and v.ty.ga:
        return pointee(e, v)
    return NotImplemented


@rx(r"^std::sync::poison::rwlock::RwLock::<.*>::new$", r"^std::sync::poison::mutex::Mutex::<.*>::new$")
def _rwlock_new(ctx, st, x):
    return _E().Agg("rwlock", (x,))


@rx(r"^std::thread::local::LocalKey::<.*>::with(::<.*>)?$")
def _tls_with(ctx, st, key, f):
    """the calling thread's value; the check says what it starts as"""
    e = ctx.e
    if e.tls is None:
        return NotImplemented
    o = ("S", "tls of " + ctx.atys[0].s)
    if o not in st.mem and e.tls == "own":
        # what the program itself declares
        fs = [x for x in e.prog.fns.values() if x.def_.endswith("::__rust_std_internal_init_fn") and f"<{x.locals[0].s}>" in ctx.atys[0].s]
        if len(fs) != 1:
            raise _E().Unsupported("initial value of a thread local")
        starts = e.exec_fn(fs[0], [_E().UNIT] * fs[0].nargs, st, ctx.b)
    elif o not in st.mem:
        starts = [(e.tls(ctx, st), st)]
    else:
        starts = [(None, st)]
    out = []
    for x, s in starts:
        if x is not None:
            s = s.copy()
            s.mem[o] = x
        out += [(v, s2) for v, s2, _ in apply_fn(ctx, s, f, [_E().Ref(o)])]
    return out


# ------------------------------------------------------------------ strings

@rx(r"^core::str::<impl str>::lines$")
def _lines(ctx, st, s):
    """the lines of a text whose unknown parts cannot hold line ends"""
    e = ctx.e
    E = _E()
    lines = [[]]
    for g in rope.of_val(e, st, s):
        if g[0] in ("b", "c"):
            if g[1] == T.const(10):
                lines.append([])
                continue
            if st.facts.truth(T.eq(T.addk(g[1], -10))) is not False or st.facts.truth(T.eq(T.addk(g[1], -13))) is not False:
                raise E.Unsupported("lines of a text with an unknown character")
        elif g[0] == "f" and not isinstance(g[3], T.Lin) or g[0] == "s" or g[0] == "o" and g[1] not in e.opaque_show:
            raise E.Unsupported("lines of an unknown text")
        lines[-1].append(g)
    if not lines[-1]:
        lines.pop()
    st = st.copy()
    refs = []
    for x in lines:
        v = rope.make(e, x)
        o = e.heap(st, ctx.fr, ctx.b)
        st.mem[o] = v
        refs.append(E.Ref(o, (), ("s", T.ZERO, e.seq_len(v.s))))
    o = e.heap(st, ctx.fr, ctx.b)
    st.mem[o] = E.Arr(refs)
    return [(E.Agg(0, (E.Ref(o, (), ("s", T.ZERO, T.const(len(refs)))),)), st)]


@rx(r"^core::str::<impl str>::(strip_prefix|strip_suffix)(::<.*>)?$")
def _strip_affix(ctx, st, s, p):
    e = ctx.e
    t = ctx.atys[1]
    if not (t.k == "ref" and t.t.k == "str"):
        return NotImplemented
    r, q = window(e, st, s), window(e, st, p)
    n, m = r.m[2], q.m[2]
    out = []
    pre = "strip_prefix" in ctx.c["rdef"]
    s1, s2 = split(e, st, T.le(T.sub(m, n)))
    if s2 is not None:
        out.append((none(), s2))
    if s1 is not None:
        c = seq_eq(e, s1, sub_window(r, T.ZERO if pre else T.sub(n, m), m), q)
        a, b = split(e, s1, c)
        if a is not None:
            out.append((some(sub_window(r, m if pre else T.ZERO, T.sub(n, m))), a))
        if b is not None:
            out.append((none(), b))
    return out


@model("core::any::type_name", "core::intrinsics::type_name", "core::any::type_name_of_val")
def _type_name(ctx, st, *a):
    # only the tail matters (the error macros strip a fixed suffix); the text is not an observable
    # any property speaks about
    key = ctx.c["key"]
    k = key.find("type_name")
    i = key.find("<", k)
    s = key[i + 1:-1] if i > 0 and key.endswith(">") else "?"
    if s.startswith("fn() {") and s.endswith("}"):
        s = s[6:-1]
    v = ctx.e.kconst.get(("tn", s))
    if v is None:
        v = ctx.e.conv(["R", ["S", s]], ctx.rty)
        ctx.e.kconst[("tn", s)] = v
    return [(v, st)]


@rx(r"^core::num::<impl u(8|16|32|64|size)>::from_str_radix$")
def _from_str_radix(ctx, st, s, radix):
    """documented semantics: optional '+', then one or more digits; value = positional sum"""
    e = ctx.e
    E = _E()
    r = window(e, st, s)
    n = r.m[2]
    radix = e.as_int(radix)
    ty = ctx.rty.ga[0]
    if n.t or radix.t or radix.k != 16 or n.k > ty.w // 4:
        s1 = st
        return [(ok(e.fresh(ty, "radix")), s1), (err(e.fresh(ctx.rty.ga[1], "radix")), st)]
    xs = [e.as_int(win_get(e, st, r, T.const(j))) for j in range(n.k)]
    # value of a digit
    vals = tuple(_hexval(c) for c in range(256))
    total = T.ZERO
    for x in xs:
        total = T.add(T.scale(total, 16), T.table(tuple(-1 if v is None else v for v in vals), x))
    nm = e.fresh_name("hexok")
    good = T.B("opq", ("allhex",) + tuple(T.show(x) for x in xs))
    dig = [T.le(T.neg(T.table(tuple(-1 if v is None else v for v in vals), x))) for x in xs]
    if all(st.facts.truth(d) is True for d in dig) and xs:
        return [(ok(total), st)]
    if not xs or any(st.facts.truth(d) is False for d in dig[1:]) or (st.facts.truth(dig[0]) is False
                                                                    and st.facts.truth(T.eq(T.addk(xs[0], -43))) is False):
        return [(err(e.fresh(ctx.rty.ga[1], "radix")), st)]
    a, b = split(e, st, good)
    out = []
    if a is not None:
        f = a.facts
        for x in xs:
            f2 = f.assume(T.le(T.neg(T.table(tuple(-1 if v is None else v for v in vals), x))))
            if f2 is None:
                return [(err(e.fresh(ctx.rty.ga[1], "radix")), st)]
            f = f2
        a = a.with_facts(f)
        out.append((ok(total), a))
        # leading plus sign
        if len(xs) > 1:
            p = e.branch(st, T.eq(T.addk(xs[0], -43)), True)
            if p is not None:
                out.append((ok(e.fresh(ty, "plus")), p.with_facts(p.facts)))
    if b is not None:
        out.append((err(e.fresh(ctx.rty.ga[1], "radix")), b))
    return out


def _hexval(c):
    if 48 <= c <= 57:
        return c - 48
    if 97 <= c <= 102:
        return c - 87
    if 65 <= c <= 70:
        return c - 55
    return None


# ------------------------------------------------------------------ formatting (content is recorded, not computed)

@rx(r"^core::fmt::rt::Argument::<.*>::new_\w+(::<.*>)?$")
def _fmt_arg(ctx, st, r, *a):
    E = _E()
    kind = re.search(r"new_(\w+)", ctx.c["rdef"]).group(1)
    return E.Agg(("fmtarg", kind, ctx.atys[0]), (r,))


@rx(r"^core::fmt::Arguments::<.*>::new(::<.*>)?$", r"^core::fmt::Arguments::<.*>::from_str.*$", r"^core::fmt::rt::<impl core::fmt::Arguments<'_>>::new.*$")
def _fmt_args(ctx, st, *a):
    E = _E()
    return E.Agg(("fmtargs",), a)


def display(ctx, st, v, t):
    """[(segments or None, result, state)] of the formatter a workspace type defines for itself, or None"""
    e = ctx.e
    E = _E()
    while t is not None and t.k == "ref" and t.t.k == "ref":
        q = e.deref_val(st, v)
        v = e.load(st, q.o, q.p)
        t = t.t
    if t is not None and t.k == "ref":
        t = t.t
    if t is None or t.k != "adt" or not t.p.startswith("keramics"):
        return None
    if t.p.rsplit("::", 1)[-1] in e.opaque_show:
        q = e.deref_val(st, v)
        return [([("o", t.p.rsplit("::", 1)[-1], e.load(st, q.o, q.p))], ok(unit()), st)]
    tm = "core::fmt::Display::fmt"
    key = e.prog.vt.get((tm, t.s)) or e._vt_lookup(tm, t.s)
    fn = e.prog.fn(key) if key else None
    if fn is None:
        return None
    st = st.copy()
    o = e.heap(st, ctx.fr, ctx.b)
    nm = e.fresh_name("formatter")
    e.fmts[nm] = []
    st.mem[o] = E.Agg(("formatter", nm), ())
    out = []
    for rv, s in e.exec_fn(fn, [v, E.Ref(o)], st, ctx.b):
        x = s.mem.get(o)
        s = s.copy()
        s.mem.pop(o, None)
        segs = e.fmts.get(x.v[1]) if isinstance(x, E.Agg) and isinstance(x.v, tuple) else None
        out.append((segs, rv, s))
    return out


def expand_args(ctx, st, a):
    """format arguments with the values of workspace types formatted: [(arguments, state)]"""
    e = ctx.e
    E = _E()
    if not (isinstance(a, E.Agg) and isinstance(a.v, tuple) and a.v[0] == "fmtargs" and len(a.f) > 1):
        return [(a, st)]
    try:
        r = e.deref_val(st, a.f[1])
        arr = e.load(st, r.o, r.p)
        items = list(arr.e)
    except (E.Unsupported, AttributeError):
        return [(a, st)]
    outs = [((), st)]
    for i, x in enumerate(items):
        if not (isinstance(x, E.Agg) and isinstance(x.v, tuple) and x.v[0] == "fmtarg" and x.v[1] == "display"):
            continue
        nx = []
        for done, s in outs:
            ds = display(ctx, s, x.f[0], x.v[2])
            if ds is None:
                nx.append((done, s))
                continue
            for segs, _, s2 in ds:
                if segs is None:
                    nx.append((done, s2))
                else:
                    nm = e.fresh_name("shown")
                    e.fmts[nm] = segs
                    nx.append((done + ((i, nm),), s2))
        outs = nx
    return [(E.Agg(("fmtargs",) + done, a.f), s) for done, s in outs]


@rx(r"^alloc::fmt::format$", r"^alloc::fmt::format::format_inner$")
def _format(ctx, st, a):
    xs = expand_args(ctx, st, a)
    if len(xs) == 1 and xs[0][0].v == ("fmtargs",):
        return _format1(ctx, st, a)
    return [(_format1(ctx, s, x), s) for x, s in xs]


def _format1(ctx, st, a):
    e = ctx.e
    E = _E()
    segs = None
    try:
        segs = rope.format_args(e, st, a)
    except (E.Unsupported, AttributeError):
        segs = None
    if segs is not None:
        return rope.make(e, segs)
    nm = e.fresh_name("fmt")
    return E.VecV(E.SArr(nm, None, T.sym(nm + ".len", 0, E.LEN_MAX)))


@rx(r"^alloc::slice::<impl \[.*\]>::(join|concat)(::<.*>)?$")
def _join(ctx, st, s, sep=None):
    e = ctx.e
    E = _E()
    t = ctx.rty
    if not (t.k == "adt" and t.p == "alloc::string::String"):
        return NotImplemented
    r = window(e, st, s)
    n = r.m[2]
    if n.t or n.k > 4096:
        return NotImplemented
    sp = rope.of_val(e, st, sep) if sep is not None else []
    out = []
    for j in range(n.k):
        if j:
            out += sp
        out += rope.of_val(e, st, win_get(e, st, r, T.const(j)))
    return rope.make(e, out)


def ours(ctx, st, a):
    """output to a formatter that display() made"""
    e = ctx.e
    E = _E()
    m = ctx.c["rdef"].rsplit("::", 1)[1].split("<")[0]
    if len(a) != 2 or m not in ("write_fmt", "write_str", "pad", "write_char"):
        return None
    try:
        q = e.deref_val(st, a[0])
        x = e.load(st, q.o, q.p)
    except E.Unsupported:
        return None
    if not (isinstance(x, E.Agg) and isinstance(x.v, tuple) and x.v[0] == "formatter"):
        return None
    out = []
    for y, s in (expand_args(ctx, st, a[1]) if m == "write_fmt" else [(a[1], st)]):
        try:
            if m == "write_fmt":
                segs = rope.format_args(e, s, y)
            elif m == "write_char":
                segs = rope.char_seg(s, y)
                segs = segs if segs is None or isinstance(segs, list) else [segs]
            else:
                segs = rope.of_val(e, s, y)
        except (E.Unsupported, AttributeError):
            segs = None
        nm = e.fresh_name("formatter")
        old = e.fmts.get(x.v[1])
        e.fmts[nm] = None if segs is None or old is None else old + segs
        s = s.copy()
        e.store(s, q.o, q.p, E.Agg(("formatter", nm), ()))
        out.append((ok(unit()), s))
    return out


@rx(r"^core::fmt::Formatter::<.*>::(write_fmt|write_str|pad|write_char|debug_\w+)$", r"^<.* as core::fmt::(Display|Debug|LowerHex|UpperHex)>::fmt$")
def _fmt_write(ctx, st, *a):
    e = ctx.e
    f = ours(ctx, st, a)
    if f is not None:
        return f
    if ctx.c["rdef"].endswith("::write_fmt") and len(a) == 2:
        try:
            segs = rope.format_args(e, st, a[1])
        except (_E().Unsupported, AttributeError):
            segs = None
        e.fmts.setdefault("write", []).append((ctx.fr.fn.def_, segs, st))
    if ctx.c.get("crate_local"):
        return NotImplemented
    if " as core::fmt::" in ctx.c["rdef"] and "keramics" in ctx.c["rdef"]:
        return NotImplemented
    return e.fresh(ctx.rty, "fmt")


# ------------------------------------------------------------------ iterators

SLICE_ITER = ("core::slice::iter::Iter", "core::slice::iter::IterMut", "alloc::vec::into_iter::IntoIter", "core::array::iter::IntoIter",
              "core::str::iter::Bytes", "core::str::iter::Lines", "core::str::iter::Chars", "core::str::iter::CharIndices",
              "alloc::vec::drain::Drain", "core::str::iter::Split",
              "alloc::string::Drain")
# of these, the ones that yield values (the others yield references)
BY_VALUE = ("IntoIter", "Bytes", "Lines", "Chars", "CharIndices", "Drain", "Split")
MAP_ITERS = tuple(f"{b}::{k}::{n}" for b in ("std::collections::hash", "alloc::collections::btree") for k in ("map", "set")
                  for n in ("Iter", "IterMut", "Keys", "Values", "ValuesMut", "IntoIter", "IntoKeys", "IntoValues"))
CHUNKS = ("core::slice::iter::Chunks", "core::slice::iter::ChunksExact", "core::slice::iter::ChunksMut", "core::slice::iter::ChunksExactMut",
          "core::slice::iter::Windows")
NATIVE = set(SLICE_ITER) | set(CHUNKS) | {
    "core::ops::range::Range", "core::ops::range::RangeInclusive", "core::ops::range::RangeFrom",
    "core::iter::adapters::map::Map", "core::iter::adapters::enumerate::Enumerate", "core::iter::adapters::zip::Zip",
    "core::iter::adapters::rev::Rev", "core::iter::adapters::take::Take", "core::iter::adapters::skip::Skip",
    "core::iter::adapters::step_by::StepBy", "core::iter::adapters::cloned::Cloned", "core::iter::adapters::copied::Copied",
    "core::iter::adapters::flatten::Flatten", "core::iter::adapters::flatten::FlatMap", "core::iter::adapters::chain::Chain", "core::iter::adapters::fuse::Fuse",
    "core::iter::adapters::filter::Filter", "core::iter::adapters::peekable::Peekable", "core::iter::adapters::take_while::TakeWhile",
    "core::iter::adapters::skip_while::SkipWhile", "core::iter::adapters::map_while::MapWhile",
    "core::iter::adapters::filter_map::FilterMap", "core::iter::adapters::scan::Scan", "core::iter::adapters::inspect::Inspect",
    "core::iter::adapters::cycle::Cycle", "core::iter::adapters::GenericShunt",
    "core::iter::sources::repeat::Repeat", "core::iter::sources::once::Once", "core::iter::sources::repeat_n::RepeatN",
    "core::iter::sources::from_fn::FromFn", "core::iter::sources::successors::Successors", "core::iter::sources::empty::Empty",
    "core::option::IntoIter",
}


class _T:
    k = "adt"
    p = "core::option::IntoIter"
    ga = ()
    t = None


OPT_ITER = _T()


def native(t):
    if t is None:
        return False
    if t.k == "ref":
        return native(t.t)
    if t.k != "adt" or t.p not in NATIVE:
        return False
    if t.p in ("core::ops::range::Range", "core::ops::range::RangeInclusive", "core::ops::range::RangeFrom"):
        return t.ga[0].k in ("int", "char")
    if t.p == "alloc::vec::drain::Drain" or t.p == "core::str::iter::Split":
        return True
    if t.p.startswith("core::iter::adapters::"):
        if t.p.endswith("step_by::StepBy"):
            return t.ga[0].k == "adt" and t.ga[0].p == "core::ops::range::Range" and t.ga[0].ga[0].k == "int" or native(t.ga[0])
        k = 2 if t.p.endswith(("zip::Zip", "chain::Chain")) else 1
        return all(native(x) or workspace_iter(x) for x in t.ga[:k])
    return True


def workspace_iter(t):
    return t.k == "adt" and t.p.startswith("keramics")


def iter_next(ctx, st, v, t, back=False):
    """one step: list of (item or None, iterator value, state)"""
    e = ctx.e
    E = _E()
    if t.k == "ref":
        r = e.deref_val(st, v)
        x = e.load(st, r.o, r.p)
        out = []
        for item, nv, s in iter_next(ctx, st, x, t.t, back):
            if nv is not x:
                s = s.copy()
                e.store(s, r.o, r.p, nv)
            out.append((item, v, s))
        return out
    if isinstance(v, E.Sym):
        v = e.expand(v, 0)
    p = t.p
    if p in SLICE_ITER or p in MAP_ITERS:
        w = v.f[0]
        n = w.m[2]
        out = []
        s1, s2 = split(e, st, T.eq(n))
        if s1 is not None:
            out.append((None, v, s1))
        if s2 is not None:
            if back:
                it = elem_ref(e, s2, w, T.addk(n, -1))
                nw = sub_window(w, T.ZERO, T.addk(n, -1))
            else:
                it = elem_ref(e, s2, w, T.ZERO)
                nw = sub_window(w, T.ONE, T.addk(n, -1))
            if p.endswith(BY_VALUE) or p in MAP_ITERS:
                it = e.load(s2, it.o, it.p)
            out.append((it, E.Agg(0, (nw,)), s2))
        return out
    if p in CHUNKS:
        w, k = v.f
        n = w.m[2]
        exact = "Exact" in p or p.endswith("Windows")
        if back:
            raise E.Unsupported("chunks from the back")
        out = []
        done = T.le(T.addk(T.sub(n, k), 1)) if exact else T.eq(n)
        s1, s2 = split(e, st, done)
        if s1 is not None:
            out.append((None, v, s1))
        if s2 is not None:
            if p.endswith("Windows"):
                out.append((sub_window(w, T.ZERO, k), E.Agg(0, (sub_window(w, T.ONE, T.addk(n, -1)), k)), s2))
            elif exact:
                out.append((sub_window(w, T.ZERO, k), E.Agg(0, (sub_window(w, k, T.sub(n, k)), k)), s2))
            else:
                a, b = split(e, s2, T.le(T.sub(k, n)))
                if a is not None:
                    out.append((sub_window(w, T.ZERO, k), E.Agg(0, (sub_window(w, k, T.sub(n, k)), k)), a))
                if b is not None:
                    out.append((w, E.Agg(0, (sub_window(w, n, T.ZERO), k)), b))
        return out
    if p == "core::ops::range::Range":
        a, b = e.as_int(v.f[0]), e.as_int(v.f[1])
        out = []
        s1, s2 = split(e, st, T.le(T.addk(T.sub(a, b), 1)))
        if s2 is not None:
            out.append((None, v, s2))
        if s1 is not None:
            if back:
                out.append((T.addk(b, -1), E.Agg(0, (a, T.addk(b, -1))), s1))
            else:
                out.append((a, E.Agg(0, (T.addk(a, 1), b)), s1))
        return out
    if p == "core::ops::range::RangeInclusive":
        a, b, ex = e.as_int(v.f[0]), e.as_int(v.f[1]), e.as_bool(v.f[2])
        out = []
        s1, s2 = split(e, st, T.b_or(ex, T.le(T.addk(T.sub(b, a), 1))))
        if s1 is not None:
            out.append((None, v, s1))
        if s2 is not None:
            q, r = split(e, s2, T.eq(T.sub(a, b)))
            if q is not None:
                out.append((a, E.Agg(0, (a, b, T.TRUE)), q))
            if r is not None:
                if back:
                    out.append((b, E.Agg(0, (a, T.addk(b, -1), T.FALSE)), r))
                else:
                    out.append((a, E.Agg(0, (T.addk(a, 1), b, T.FALSE)), r))
        return out
    if p == "core::ops::range::RangeFrom":
        a = e.as_int(v.f[0])
        st2 = require(ctx, st, T.le(T.addk(a, -t.ga[0].rng[1] + 1)), "overflow", "unbounded range")
        return [(a, E.Agg(0, (T.addk(a, 1),)), st2)] if st2 is not None else []
    if p.endswith("step_by::StepBy"):
        it, step, first = v.f
        step = e.as_int(step)
        out = []
        if t.ga[0].k == "adt" and t.ga[0].p == "core::ops::range::Range":
            a, b = e.as_int(it.f[0]), e.as_int(it.f[1])
            s1, s2 = split(e, st, T.le(T.addk(T.sub(a, b), 1)))
            if s2 is not None:
                out.append((None, v, s2))
            if s1 is not None:
                if back:
                    raise E.Unsupported("step_by from the back")
                out.append((a, E.Agg(0, (E.Agg(0, (T.addk(T.add(a, step), 1), b)), step, T.FALSE)), s1))
            return out
        if step.t:
            raise E.Unsupported("symbolic step")
        cur = [(it, st)]
        ft = first.op == "true" if isinstance(first, T.B) else False
        if not ft:
            for _ in range(step.k):
                nxt = []
                for x, s in cur:
                    for item, nv, s3 in iter_next(ctx, s, x, t.ga[0], back):
                        if item is None:
                            out.append((None, E.Agg(0, (nv, step, T.FALSE)), s3))
                        else:
                            nxt.append((nv, s3))
                cur = nxt
        for x, s in cur:
            for item, nv, s3 in iter_next(ctx, s, x, t.ga[0], back):
                out.append((item, E.Agg(0, (nv, step, T.FALSE)), s3))
        return out
    if p.endswith("enumerate::Enumerate"):
        it, c = v.f
        out = []
        for item, nv, s in sub_next(ctx, st, it, t.ga[0], back):
            if item is None:
                out.append((None, E.Agg(0, (nv, c)), s))
            elif back:
                n = iter_bound(e, s, nv, t.ga[0])
                if n is None:
                    raise E.Unsupported("enumerate from the back")
                out.append((tup(T.add(e.as_int(c), n), item), E.Agg(0, (nv, c)), s))
            else:
                out.append((tup(c, item), E.Agg(0, (nv, T.addk(e.as_int(c), 1))), s))
        return out
    if p.endswith("map::Map"):
        it, f = v.f
        out = []
        for item, nv, s in sub_next(ctx, st, it, t.ga[0], back):
            if item is None:
                out.append((None, E.Agg(0, (nv, f)), s))
                continue
            for rv, s2, f2 in apply_fn(ctx, s, f, [item]):
                out.append((rv, E.Agg(0, (nv, f2)), s2))
        return out
    if p.endswith("filter::Filter"):
        it, f = v.f
        out = []
        work = [(it, st)]
        for _ in range(300):
            if len(work) > 64:
                break
            nw = []
            for x, s0 in work:
                for item, nv, s in sub_next(ctx, s0, x, t.ga[0], back):
                    if item is None:
                        out.append((None, E.Agg(0, (nv, f)), s))
                        continue
                    s = s.copy()
                    o = e.heap(s, ctx.fr, ctx.b)
                    s.mem[o] = item
                    for rv, s2, f2 in apply_fn(ctx, s, f, [E.Ref(o)]):
                        a, b = split(e, s2, e.as_bool(rv))
                        if a is not None:
                            out.append((item, E.Agg(0, (nv, f2)), a))
                        if b is not None:
                            nw.append((nv, b))
            if not nw:
                return out
            work = nw
        raise E.Unsupported("filter over a symbolic sequence")
    if p.endswith(("cloned::Cloned", "copied::Copied")):
        out = []
        for item, nv, s in sub_next(ctx, st, v.f[0], t.ga[0], back):
            if item is None:
                out.append((None, E.Agg(0, (nv,)), s))
            else:
                r = e.deref_val(s, item)
                if r.m and r.m[0] == "s":
                    raise E.Unsupported("copied slice")
                x = e.load(s, r.o, r.p)
                out.append((x, E.Agg(0, (nv,)), s))
        return out
    if p.endswith("rev::Rev"):
        return [(i, E.Agg(0, (nv,)), s) for i, nv, s in sub_next(ctx, st, v.f[0], t.ga[0], not back)]
    if p.endswith("zip::Zip"):
        a, b = v.f[0], v.f[1]
        if back:
            na, nb = iter_bound(e, st, a, t.ga[0]), iter_bound(e, st, b, t.ga[1])
            if na is None or nb is None or st.facts.truth(T.eq(T.sub(na, nb))) is not True:
                raise E.Unsupported("zip from the back")
        out = []
        for i1, n1, s1 in sub_next(ctx, st, a, t.ga[0], back):
            if i1 is None:
                out.append((None, E.Agg(0, (n1, b) + v.f[2:]), s1))
                continue
            for i2, n2, s2 in sub_next(ctx, s1, b, t.ga[1], back):
                nv = E.Agg(0, (n1, n2) + v.f[2:])
                out.append((None if i2 is None else tup(i1, i2), nv, s2))
        return out
    if p.endswith("take::Take"):
        it, n = v.f
        n = e.as_int(n)
        if back:
            m = iter_bound(e, st, it, t.ga[0])
            if m is None or st.facts.truth(T.le(T.sub(m, n))) is not True:
                raise E.Unsupported("take from the back")
            return [(i, E.Agg(0, (nv, n)), s) for i, nv, s in sub_next(ctx, st, it, t.ga[0], True)]
        out = []
        s1, s2 = split(e, st, T.eq(n))
        if s1 is not None:
            out.append((None, v, s1))
        if s2 is not None:
            for item, nv, s in sub_next(ctx, s2, it, t.ga[0], back):
                out.append((item, E.Agg(0, (nv, T.addk(n, -1))), s))
        return out
    if p.endswith("skip::Skip"):
        it, n = v.f
        n = e.as_int(n)
        if t.ga[0].k == "adt" and t.ga[0].p in SLICE_ITER:
            w = it.f[0]
            out = []
            if st.facts.truth(T.eq(n)) is True:
                return [(i, E.Agg(0, (nv, T.ZERO)), s) for i, nv, s in iter_next(ctx, st, it, t.ga[0], back)]
            s1, s2 = split(e, st, T.le(T.sub(n, w.m[2])))
            if s2 is not None:
                out.append((None, E.Agg(0, (E.Agg(0, (sub_window(w, w.m[2], T.ZERO),)), T.ZERO)), s2))
            if s1 is not None:
                it2 = E.Agg(0, (sub_window(w, n, T.sub(w.m[2], n)),))
                out += [(i, E.Agg(0, (nv, T.ZERO)), s) for i, nv, s in iter_next(ctx, s1, it2, t.ga[0], back)]
            return out
        if n.t or n.k > 1000 or back:
            raise E.Unsupported("symbolic skip")
        cur = [(it, st)]
        out = []
        for _ in range(n.k):
            nxt = []
            for x, s in cur:
                for item, nv, s2 in sub_next(ctx, s, x, t.ga[0], False):
                    if item is None:
                        out.append((None, E.Agg(0, (nv, T.ZERO)), s2))
                    else:
                        nxt.append((nv, s2))
            cur = nxt
        for x, s in cur:
            out += [(i, E.Agg(0, (nv, T.ZERO)), s2) for i, nv, s2 in sub_next(ctx, s, x, t.ga[0], False)]
        return out
    if p.endswith("take_while::TakeWhile"):
        it, flag, f = v.f
        out = []
        a, b = split(e, st, e.as_bool(flag))
        if a is not None:
            out.append((None, v, a))
        if b is not None:
            for item, nv, s in sub_next(ctx, b, it, t.ga[0], back):
                if item is None:
                    out.append((None, E.Agg(0, (nv, T.FALSE, f)), s))
                    continue
                for c, s2, f2 in test_item(ctx, s, f, item):
                    out.append((item if c else None, E.Agg(0, (nv, T.FALSE if c else T.TRUE, f2)), s2))
        return out
    if p.endswith("skip_while::SkipWhile"):
        it, flag, f = v.f
        out = []
        a, b = split(e, st, e.as_bool(flag))
        if a is not None:
            out += [(i, E.Agg(0, (nv, T.TRUE, f)), s) for i, nv, s in sub_next(ctx, a, it, t.ga[0], back)]
        work = [(it, f, b)] if b is not None else []
        for _ in range(300):
            nw = []
            for x, f1, s0 in work:
                for item, nv, s in sub_next(ctx, s0, x, t.ga[0], back):
                    if item is None:
                        out.append((None, E.Agg(0, (nv, T.FALSE, f1)), s))
                        continue
                    for c, s2, f2 in test_item(ctx, s, f1, item):
                        if c:
                            nw.append((nv, f2, s2))
                        else:
                            out.append((item, E.Agg(0, (nv, T.TRUE, f2)), s2))
            if not nw:
                return out
            if len(nw) > 64:
                break
            work = nw
        raise E.Unsupported("skip_while over a symbolic sequence")
    if p.endswith("map_while::MapWhile"):
        it, f = v.f
        out = []
        for item, nv, s in sub_next(ctx, st, it, t.ga[0], back):
            if item is None:
                out.append((None, E.Agg(0, (nv, f)), s))
                continue
            for rv, s2, f2 in apply_fn(ctx, s, f, [item]):
                out += [(x, E.Agg(0, (nv, f2)), s3) for x, s3 in opt_cases(e, s2, rv)]
        return out
    if p.endswith("filter_map::FilterMap"):
        it, f = v.f
        out = []
        work = [(it, f, st)]
        for _ in range(300):
            nw = []
            for x, f1, s0 in work:
                for item, nv, s in sub_next(ctx, s0, x, t.ga[0], back):
                    if item is None:
                        out.append((None, E.Agg(0, (nv, f1)), s))
                        continue
                    for rv, s2, f2 in apply_fn(ctx, s, f1, [item]):
                        for y, s3 in opt_cases(e, s2, rv):
                            if y is None:
                                nw.append((nv, f2, s3))
                            else:
                                out.append((y, E.Agg(0, (nv, f2)), s3))
            if not nw:
                return out
            if len(nw) > 64:
                break
            work = nw
        raise E.Unsupported("filter_map over a symbolic sequence")
    if p.endswith("scan::Scan"):
        it, f, acc = v.f
        out = []
        for item, nv, s in sub_next(ctx, st, it, t.ga[0], back):
            if item is None:
                out.append((None, E.Agg(0, (nv, f, acc)), s))
                continue
            s = s.copy()
            o = e.heap(s, ctx.fr, ctx.b)
            s.mem[o] = acc
            for rv, s2, f2 in apply_fn(ctx, s, f, [E.Ref(o), item]):
                na = s2.mem.get(o)
                s2 = s2.copy()
                s2.mem.pop(o, None)
                out += [(x, E.Agg(0, (nv, f2, na)), s3) for x, s3 in opt_cases(e, s2, rv)]
        return out
    if p.endswith("inspect::Inspect"):
        it, f = v.f
        out = []
        for item, nv, s in sub_next(ctx, st, it, t.ga[0], back):
            if item is None:
                out.append((None, E.Agg(0, (nv, f)), s))
                continue
            s = s.copy()
            o = e.heap(s, ctx.fr, ctx.b)
            s.mem[o] = item
            out += [(item, E.Agg(0, (nv, f2)), s2) for _, s2, f2 in apply_fn(ctx, s, f, [E.Ref(o)])]
        return out
    if p.endswith("cycle::Cycle"):
        orig, it = v.f
        out = []
        for item, nv, s in sub_next(ctx, st, it, t.ga[0], back):
            if item is not None:
                out.append((item, E.Agg(0, (orig, nv)), s))
            else:
                out += [(i, E.Agg(0, (orig, n2)), s2) for i, n2, s2 in sub_next(ctx, s, orig, t.ga[0], back)]
        return out
    if p.endswith("GenericShunt"):
        it, res = v.f
        rt = t.ga[1]
        out = []
        for item, nv, s in sub_next(ctx, st, it, t.ga[0], back):
            if item is None:
                out.append((None, E.Agg(0, (nv, res)), s))
                continue
            if not isinstance(item, E.Agg) or rt.p not in ("core::option::Option", "core::result::Result"):
                raise E.Unsupported("collection of unknown results")
            good = item.v == (1 if rt.p == "core::option::Option" else 0)
            if good:
                out.append((item.f[0], E.Agg(0, (nv, res)), s))
            else:
                s = s.copy()
                q = e.deref_val(s, res)
                e.store(s, q.o, q.p, some(item))
                out.append((None, E.Agg(0, (nv, res)), s))
        return out
    if p.endswith("repeat::Repeat"):
        return [(v.f[0], v, st)]
    if p.endswith("repeat_n::RepeatN"):
        x, n = v.f
        out = []
        s1, s2 = split(e, st, T.eq(e.as_int(n)))
        if s1 is not None:
            out.append((None, v, s1))
        if s2 is not None:
            out.append((x, E.Agg(0, (x, T.addk(e.as_int(n), -1))), s2))
        return out
    if p.endswith("once::Once"):
        return [(i, E.Agg(0, (nv,)), s) for i, nv, s in iter_next(ctx, st, v.f[0], OPT_ITER, back)]
    if p == "core::option::IntoIter":
        return [(x, E.Agg(0, (E.Agg(0, (none(),)),)), s) for x, s in opt_cases(e, st, v.f[0].f[0])]
    if p.endswith("empty::Empty"):
        return [(None, v, st)]
    if p.endswith("from_fn::FromFn"):
        out = []
        for rv, s2, f2 in apply_fn(ctx, st, v.f[0], []):
            out += [(x, E.Agg(0, (f2,)), s3) for x, s3 in opt_cases(e, s2, rv)]
        return out
    if p.endswith("successors::Successors"):
        nx, f = v.f
        out = []
        for x, s in opt_cases(e, st, nx):
            if x is None:
                out.append((None, v, s))
                continue
            s = s.copy()
            o = e.heap(s, ctx.fr, ctx.b)
            s.mem[o] = x
            out += [(x, E.Agg(0, (rv, f2)), s2) for rv, s2, f2 in apply_fn(ctx, s, f, [E.Ref(o)])]
        return out
    if p.endswith("chain::Chain"):
        a, b = v.f
        out = []
        if back:
            raise E.Unsupported("chain from the back")
        if isinstance(a, E.Agg) and a.v == 1:
            for item, nv, s in sub_next(ctx, st, a.f[0], t.ga[0], back):
                if item is not None:
                    out.append((item, E.Agg(0, (some(nv), b)), s))
                else:
                    out += iter_next(ctx, s, E.Agg(0, (none(), b)), t, back)
            return out
        if isinstance(b, E.Agg) and b.v == 1:
            return [(i, E.Agg(0, (a, some(nv))), s) for i, nv, s in sub_next(ctx, st, b.f[0], t.ga[1], back)]
        return [(None, v, st)]
    if p.endswith("fuse::Fuse"):
        return [(i, E.Agg(0, (nv,)), s) for i, nv, s in sub_next(ctx, st, v.f[0], t.ga[0], back)]
    if p.endswith("peekable::Peekable"):
        it, pk = v.f
        if isinstance(pk, E.Agg) and pk.v == 1:
            x = pk.f[0]
            nv = E.Agg(0, (it, none()))
            return [(x.f[0] if x.v == 1 else None, nv, st)]
        return [(i, E.Agg(0, (nv, none())), s) for i, nv, s in sub_next(ctx, st, it, t.ga[0], back)]
    raise E.Unsupported(f"iterator {p}")


def test_item(ctx, st, f, item):
    """a predicate over a reference to item: [(truth, state, predicate afterwards)]"""
    e = ctx.e
    st = st.copy()
    o = e.heap(st, ctx.fr, ctx.b)
    st.mem[o] = item
    out = []
    for rv, s2, f2 in apply_fn(ctx, st, f, [_E().Ref(o)]):
        a, b = split(e, s2, e.as_bool(rv))
        if a is not None:
            out.append((True, a, f2))
        if b is not None:
            out.append((False, b, f2))
    return out


def sub_next(ctx, st, v, t, back):
    if t.k == "ref" or native(t):
        return iter_next(ctx, st, v, t, back)
    # a workspace iterator: run its own next
    e = ctx.e
    E = _E()
    key = e.prog.vt.get(("core::iter::traits::iterator::Iterator::next", t.s)) or e._vt_lookup("core::iter::traits::iterator::Iterator::next", t.s)
    fn = e.prog.fn(key) if key else None
    if fn is None or back:
        raise E.Unsupported(f"iterator {t.s}")
    st = st.copy()
    o = e.heap(st, ctx.fr, ctx.b)
    st.mem[o] = v
    out = []
    for rv, s in e.exec_fn(fn, [E.Ref(o)], st, ctx.b):
        nv = s.mem.get(o)
        s = s.copy()
        s.mem.pop(o, None)
        for item, s2 in opt_cases(e, s, rv):
            out.append((item, nv, s2))
    return out


def opt_cases(e, st, v):
    """split an Option value"""
    E = _E()
    if isinstance(v, E.Agg):
        return [(v.f[0] if v.v == 1 else None, st)]
    if isinstance(v, E.Sym):
        d = e.discriminant(st, v, v.ty)
        out = []
        a = e.branch(st, T.eq(d), True)
        if a is not None:
            out.append((None, a))
        b = e.branch(st, T.eq(d), False)
        if b is not None:
            out.append((e.project(b, e.project(b, v, ("v", 1)), ("f", 0, None)), b))
        return out
    raise E.Unsupported(f"option {type(v).__name__}")


def apply_fn(ctx, st, f, args):
    """call a closure / function value: list of (result, state, closure value afterwards)"""
    e = ctx.e
    E = _E()
    fv = f
    fl = f
    for _ in range(3):
        if isinstance(fl, E.Ref):
            fl = e.load(st, fl.o, fl.p)
    if isinstance(fl, E.FnV):
        fn = e.prog.fn(fl.key)
        if fn is None or fn.generic:
            r = e.call_key(ctx, fl.key, args, st) if hasattr(e, "call_key") else None
            if r is None:
                raise E.Unsupported(f"call of {fl.key}")
            return [(v, s, f) for v, s in r]
        if fn.closure:
            return [(v, s, f) for v, s in e.exec_fn(fn, [E.UNIT] + args, st, ctx.b)]
        return [(v, s, f) for v, s in e.exec_fn(fn, args, st, ctx.b)]
    if isinstance(fl, E.Agg) and isinstance(fl.v, tuple) and fl.v[0] == "cl":
        fn = e.prog.fn(fl.v[1])
        if fn is None:
            raise E.Unsupported(f"closure {fl.v[1]}")
        envt = fn.locals[1]
        if envt.k == "ref":
            if isinstance(f, E.Ref):
                return [(v, s, f) for v, s in e.exec_fn(fn, [f] + args, st, ctx.b)]
            st = st.copy()
            o = e.heap(st, ctx.fr, ctx.b)
            st.mem[o] = fl
            out = []
            for v, s in e.exec_fn(fn, [E.Ref(o)] + args, st, ctx.b):
                nv = s.mem.get(o, fl)
                s = s.copy()
                s.mem.pop(o, None)
                out.append((v, s, nv))
            return out
        return [(v, s, f) for v, s in e.exec_fn(fn, [fl] + args, st, ctx.b)]
    raise E.Unsupported(f"call of {type(fl).__name__}")


@model("tm:core::iter::traits::iterator::Iterator::next", "tm:core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def _next(ctx, st, r):
    e = ctx.e
    E = _E()
    t = ctx.atys[0].t
    back = ctx.c["tm"].endswith("next_back")
    if not native(t):
        if t is not None and t.k == "adt" and t.p == "alloc::boxed::Box" and not back:
            # the implementation inside the box
            r = e.deref_val(st, r)
            x = e.load(st, r.o, r.p)
            it = t.ga[0]
            if it.k == "dyn":
                if isinstance(x, E.Ref) and x.m and x.m[0] == "vt" and x.m[1]:
                    key = e.prog.vt.get((ctx.c["tm"], x.m[1])) or e._vt_lookup(ctx.c["tm"], x.m[1])
                    fn = e.prog.fn(key) if key else None
                    if fn is not None:
                        return e.exec_fn(fn, [E.Ref(x.o, x.p)], st, ctx.b)
            elif isinstance(x, E.Ref):
                key = e.prog.vt.get((ctx.c["tm"], it.s)) or e._vt_lookup(ctx.c["tm"], it.s)
                fn = e.prog.fn(key) if key else None
                if fn is not None:
                    return e.exec_fn(fn, [E.Ref(x.o, x.p)], st, ctx.b)
        return NotImplemented
    r = e.deref_val(st, r)
    v = e.load(st, r.o, r.p)
    out = []
    for item, nv, s in iter_next(ctx, st, v, t, back):
        s = s.copy()
        e.store(s, r.o, r.p, nv)
        out.append((none() if item is None else some(item), s))
    return out


@model("tm:core::iter::traits::iterator::Iterator::size_hint")
def _size_hint(ctx, st, r):
    return NotImplemented


@rx(r".* as core::iter::traits::exact_size::ExactSizeIterator>::len$", r"^core::iter::traits::exact_size::ExactSizeIterator::len$")
def _esi_len(ctx, st, r):
    e = ctx.e
    t = ctx.atys[0].t
    if t.k == "adt" and t.p in SLICE_ITER:
        v, _ = _deref_all(e, st, r, ctx.atys[0])
        return v.f[0].m[2]
    return NotImplemented


@model("tm:core::iter::traits::iterator::Iterator::zip")
def _zip(ctx, st, a, b):
    E = _E()
    tb = ctx.atys[1]
    if not native(ctx.atys[0]):
        return NotImplemented
    if not native(tb):
        if tb.k == "ref" and (tb.t.k in ("array", "slice") or (tb.t.k == "adt" and tb.t.p == "alloc::vec::Vec")):
            b = E.Agg(0, (window(ctx.e, st, b),))
        elif tb.k == "array" or tb.k == "adt" and tb.p == "alloc::vec::Vec":
            st = st.copy()
            seq = b.s if isinstance(b, E.VecV) else b
            o = seq_to_ref(ctx, st, seq)
            return [(E.Agg(0, (a, E.Agg(0, (E.Ref(o.o, o.p, ("s", T.ZERO, ctx.e.seq_len(seq))),)), T.ZERO, T.ZERO)), st)]
        else:
            return NotImplemented
    return E.Agg(0, (a, b, T.ZERO, T.ZERO))


@model("tm:core::iter::traits::iterator::Iterator::step_by")
def _step_by(ctx, st, a, n):
    e = ctx.e
    n = e.as_int(n)
    st = require(ctx, st, T.le(T.addk(T.neg(n), 1)), "step_by", "step zero")
    if st is None:
        return []
    return [(_E().Agg(0, (a, T.addk(n, -1), T.TRUE)), st)]


@model("tm:core::iter::traits::iterator::Iterator::map")
def _map(ctx, st, a, f):
    return _E().Agg(0, (a, f))


@model("tm:core::iter::traits::iterator::Iterator::filter")
def _filter(ctx, st, a, f):
    return _E().Agg(0, (a, f))


@model("tm:core::iter::traits::iterator::Iterator::enumerate")
def _enumerate(ctx, st, a):
    return _E().Agg(0, (a, T.ZERO))


@model("tm:core::iter::traits::iterator::Iterator::rev", "tm:core::iter::traits::iterator::Iterator::cloned",
       "tm:core::iter::traits::iterator::Iterator::copied", "tm:core::iter::traits::iterator::Iterator::fuse",
       "tm:core::iter::traits::iterator::Iterator::flatten")
def _wrap1(ctx, st, a):
    return _E().Agg(0, (a,))


@model("tm:core::iter::traits::iterator::Iterator::flat_map")
def _flat_map(ctx, st, a, f):
    return _E().Agg(0, (a, f))


@model("tm:core::iter::traits::iterator::Iterator::take", "tm:core::iter::traits::iterator::Iterator::skip")
def _take(ctx, st, a, n):
    return _E().Agg(0, (a, n))


@model("tm:core::iter::traits::iterator::Iterator::chain")
def _chain(ctx, st, a, b):
    E = _E()
    tb = ctx.atys[1]
    if not native(tb):
        return NotImplemented
    return E.Agg(0, (some(a), some(b)))


@model("tm:core::iter::traits::iterator::Iterator::peekable")
def _peekable(ctx, st, a):
    return _E().Agg(0, (a, none()))


@model("tm:core::iter::traits::iterator::Iterator::by_ref")
def _by_ref(ctx, st, a):
    return a


def drain(ctx, st, v, t, body, acc, limit=4096):
    """run the iterator to its end; body(item, acc, st) -> list of (acc, stop?, st).
    None when the iteration cannot be enumerated."""
    e = ctx.e
    E = _E()
    work = [(v, acc, st)]
    done = []
    it = 0
    flat = t.k == "adt" and t.p.endswith(("flatten::Flatten", "flatten::FlatMap"))
    while work:
        it += 1
        if it > limit or len(work) > 16:
            return None
        nw = []
        for v, acc, st in work:
            steps = sub_next(ctx, st, v.f[0] if flat else v, t.ga[0] if flat else t, False)
            if sum(1 for s in steps if s[0] is not None) and sum(1 for s in steps if s[0] is None) and it > 40:
                return None
            for item, nv, s in steps:
                if item is None:
                    done.append((acc, s))
                    continue
                if flat:
                    nv = E.Agg(0, (nv,) + v.f[1:])
                    if t.p.endswith("FlatMap"):
                        outs = [(x, s2) for x, s2, _ in apply_fn(ctx, s, v.f[1], [item])]
                    else:
                        outs = [(item, s)]
                    for x, s2 in outs:
                        accs = [(acc, s2, False)]
                        for y in inner_items(e, s2, x):
                            na = []
                            for a, s3, stop in accs:
                                if stop:
                                    na.append((a, s3, stop))
                                    continue
                                for a2, stop2, s4 in body(y, a, s3):
                                    na.append((a2, s4, stop2))
                            accs = na
                        for a, s3, stop in accs:
                            if stop:
                                done.append((a, s3))
                            else:
                                nw.append((nv, a, s3))
                    continue
                for a2, stop, s2 in body(item, acc, s):
                    if stop:
                        done.append((a2, s2))
                    else:
                        nw.append((nv, a2, s2))
        if len(nw) > 1:
            nw = [(k[0], k[1], s) for k, s in e.merge_rets([((v, a), s) for v, a, s in nw])]
        work = nw
    return done


def inner_items(e, st, x):
    E = _E()
    if isinstance(x, E.VecV):
        x = x.s
    if isinstance(x, E.Ref):
        x = e.slice_seq(st, window(e, st, x))
    n = e.seq_len(x)
    if n.t:
        raise E.Unsupported("flatten of a symbolic sequence")
    return [e.seq_get(st, x, T.const(j)) for j in range(n.k)]


def iter_bound(e, st, v, t):
    """the number of items left, or None"""
    E = _E()
    if t.k != "adt" or not isinstance(v, E.Agg):
        return None
    if t.p in SLICE_ITER:
        return v.f[0].m[2]
    if t.p.endswith(("map::Map", "enumerate::Enumerate", "cloned::Cloned", "copied::Copied", "rev::Rev", "fuse::Fuse", "inspect::Inspect")):
        return iter_bound(e, st, v.f[0], t.ga[0])
    if t.p == "core::ops::range::Range":
        a, b = e.as_int(v.f[0]), e.as_int(v.f[1])
        c = st.facts.truth(T.le(T.sub(a, b)))
        return T.sub(b, a) if c is True else T.ZERO if c is False else None
    if t.p.endswith(("take::Take", "zip::Zip")):
        a = iter_bound(e, st, v.f[0], t.ga[0])
        b = e.as_int(v.f[1]) if t.p.endswith("Take") else iter_bound(e, st, v.f[1], t.ga[1])
        if a is None or b is None:
            return None
        c = st.facts.truth(T.le(T.sub(a, b)))
        return a if c is True else b if c is False else None
    if t.p.endswith("skip::Skip"):
        a = iter_bound(e, st, v.f[0], t.ga[0])
        n = e.as_int(v.f[1])
        if a is not None and st.facts.truth(T.le(T.sub(n, a))) is True:
            return T.sub(a, n)
    return None


@model("tm:core::iter::traits::iterator::Iterator::collect", "tm:core::iter::traits::collect::FromIterator::from_iter")
def _collect(ctx, st, it):
    e = ctx.e
    E = _E()
    t = ctx.atys[0]
    rt = ctx.rty
    kind = rt.p if rt.k == "adt" else None
    if kind == "alloc::boxed::Box" and rt.ga[0].k == "slice":
        kind = "box"
    if kind not in ("alloc::vec::Vec", "alloc::string::String", "box"):
        return NotImplemented
    if not native(t) and not (t.k == "adt" and t.p.endswith(("flatten::Flatten", "flatten::FlatMap")) and native(t.ga[0])):
        if ctx.c.get("tm", "").endswith("from_iter"):
            return from_sequence(ctx, st, it, t) if kind == "alloc::vec::Vec" else NotImplemented
        if not workspace_iter(t):
            return NotImplemented
    n = iter_bound(e, st, it, t)
    r = None
    if n is None or st.facts.rng(n)[0] <= 64 or not n.t:
        r = drain(ctx, st, it, t, lambda x, acc, s: [(acc + (x,), False, s)], (), 1100)
    if r is not None:
        if kind == "alloc::string::String":
            return [(rope.make(e, text_items(e, s, a)), s) for a, s in r]
        out = []
        for a, s in r:
            if kind == "box":
                s = s.copy()
                o = seq_to_ref(ctx, s, E.Arr(a))
                out.append((E.Ref(o.o, o.p, ("s", T.ZERO, T.const(len(a)))), s))
            else:
                out.append((E.VecV(E.Arr(a)), s))
        return out
    # symbolic length: unknown elements; closure bodies have been visited for the first items
    nm = e.fresh_name("collect")
    e.note_unsupported("collect of a symbolic sequence")
    if kind != "alloc::vec::Vec":
        return e.fresh(rt, "collect")
    return E.VecV(E.SArr(nm, rt.ga[0], n if n is not None else T.sym(nm + ".len", 0, E.LEN_MAX)))


def from_sequence(ctx, st, x, t):
    """a vector from an array or a vector"""
    E = _E()
    if t.k == "array" and isinstance(x, (E.Arr, E.SArr)):
        return E.VecV(x)
    if t.k == "adt" and t.p == "alloc::vec::Vec" and isinstance(x, E.VecV):
        return x
    return NotImplemented


def text_items(e, st, items):
    """segments of characters and strings one after the other"""
    E = _E()
    out = []
    for x in items:
        if isinstance(x, E.Ref) and not (x.m and x.m[0] == "s"):
            y = e.load(st, x.o, x.p)
            if isinstance(y, T.Lin):
                x = y
        if isinstance(x, T.Lin):
            g = rope.char_seg(st, x)
            if g is None:
                raise E.Unsupported("character of unknown width")
            out += g if isinstance(g, list) else [g]
        else:
            out += rope.of_val(e, st, x)
    return out


@model("tm:core::iter::traits::iterator::Iterator::fold")
def _fold(ctx, st, it, init, f):
    e = ctx.e
    t = ctx.atys[0]
    if not native(t):
        return NotImplemented

    def body(x, acc, s):
        return [(v, False, s2) for v, s2, _ in apply_fn(ctx, s, f, [acc, x])]
    r = drain(ctx, st, it, t, body, init)
    if r is None:
        return loop_model(ctx, st, it, t, init, f)
    return r


def loop_model(ctx, st, it, t, init, f):
    return NotImplemented


@model("tm:core::iter::traits::iterator::Iterator::for_each")
def _for_each(ctx, st, it, f):
    t = ctx.atys[0]
    if not native(t):
        return NotImplemented
    r = drain(ctx, st, it, t, lambda x, fv, s: [(f2, False, s2) for _, s2, f2 in apply_fn(ctx, s, fv, [x])], f)
    if r is None:
        return NotImplemented
    return [(unit(), s) for _, s in r]


@model("tm:core::iter::traits::iterator::Iterator::sum")
def _sum(ctx, st, it):
    e = ctx.e
    t = ctx.atys[0]
    if not native(t) or ctx.rty.k != "int":
        return NotImplemented

    def body(x, acc, s):
        E = _E()
        if isinstance(x, E.Ref):
            x = e.load(s, x.o, x.p)
        v = T.add(acc, e.as_int(x))
        s = require(ctx, s, e.in_range(v, ctx.rty), "overflow", "sum")
        return [(v, False, s)] if s is not None else []
    r = drain(ctx, st, it, t, body, T.ZERO)
    return NotImplemented if r is None else r


def _short(stop_on, result_stop, result_end):
    def m(ctx, st, it, f):
        e = ctx.e
        t = ctx.atys[0].t if ctx.atys[0].k == "ref" else ctx.atys[0]
        if not native(t):
            return NotImplemented
        E = _E()
        r0 = e.deref_val(st, it) if isinstance(it, E.Ref) else None
        v = e.load(st, r0.o, r0.p) if r0 is not None else it

        def body(x, acc, s):
            out = []
            for rv, s2, _ in apply_fn(ctx, s, f, [x]):
                a, b = split(e, s2, e.as_bool(rv))
                if stop_on:
                    a, b = a, b
                else:
                    a, b = b, a
                if a is not None:
                    out.append((("stop", acc, x), True, a))
                if b is not None:
                    out.append((acc + 1, False, b))
            return out
        r = drain(ctx, st, v, t, body, 0)
        if r is None:
            return NotImplemented
        return [((result_stop(a) if isinstance(a, tuple) else result_end()), s) for a, s in r]
    return m


MODELS["tm:core::iter::traits::iterator::Iterator::any"] = _short(True, lambda a: T.TRUE, lambda: T.FALSE)
MODELS["tm:core::iter::traits::iterator::Iterator::all"] = _short(False, lambda a: T.FALSE, lambda: T.TRUE)


@model("tm:core::iter::traits::iterator::Iterator::position")
def _position(ctx, st, it, f):
    """index of the first element satisfying f"""
    e = ctx.e
    E = _E()
    t = ctx.atys[0].t
    if not (t.k == "adt" and t.p in SLICE_ITER):
        return NotImplemented
    r0 = e.deref_val(st, it)
    v = e.load(st, r0.o, r0.p)
    w = v.f[0]
    n = w.m[2]
    if not n.t and n.k <= 256:
        return _short(True, lambda a: some(T.const(a[1])), lambda: none())(ctx, st, it, f)
    # symbolic: an index below the length whose element satisfies f, or nothing
    nm = e.fresh_name("pos")
    i = T.sym(nm, 0, E.LEN_MAX)
    out = [(none(), st)]
    s = e.branch(st, T.le(T.addk(T.sub(i, n), 1)), True)
    if s is not None:
        for rv, s2, _ in apply_fn(ctx, s, f, [elem_ref(e, s, w, i)]):
            a = e.branch(s2, e.as_bool(rv), True)
            if a is not None:
                out.append((some(i), a))
    return out


@model("tm:core::iter::traits::iterator::Iterator::count")
def _count(ctx, st, it):
    t = ctx.atys[0]
    if not native(t):
        return NotImplemented
    b = iter_bound(ctx.e, st, it, t)
    if b is not None:
        return b
    r = drain(ctx, st, it, t, lambda x, acc, s: [(acc + 1, False, s)], 0)
    return NotImplemented if r is None else [(T.const(a), s) for a, s in r]


@model("tm:core::iter::traits::iterator::Iterator::last", "tm:core::iter::traits::iterator::Iterator::max", "tm:core::iter::traits::iterator::Iterator::min")
def _last(ctx, st, it):
    e = ctx.e
    t = ctx.atys[0]
    if not native(t) or not ctx.c["tm"].endswith("last"):
        return NotImplemented
    r = drain(ctx, st, it, t, lambda x, acc, s: [(some(x), False, s)], none())
    return NotImplemented if r is None else r


@model("tm:core::iter::traits::iterator::Iterator::nth")
def _nth(ctx, st, it, n):
    e = ctx.e
    E = _E()
    t = ctx.atys[0].t
    if not (t.k == "adt" and t.p in SLICE_ITER):
        return NotImplemented
    n = e.as_int(n)
    r0 = e.deref_val(st, it)
    w = e.load(st, r0.o, r0.p).f[0]
    out = []
    s1, s2 = split(e, st, T.le(T.addk(T.sub(n, w.m[2]), 1)))
    if s1 is not None:
        s1 = s1.copy()
        e.store(s1, r0.o, r0.p, E.Agg(0, (sub_window(w, T.addk(n, 1), T.addk(T.sub(w.m[2], n), -1)),)))
        out.append((some(elem_ref(e, s1, w, n)), s1))
    if s2 is not None:
        s2 = s2.copy()
        e.store(s2, r0.o, r0.p, E.Agg(0, (sub_window(w, w.m[2], T.ZERO),)))
        out.append((none(), s2))
    return out


@rx(r"^core::iter::adapters::peekable::Peekable::<.*>::peek$")
def _peek(ctx, st, r):
    e = ctx.e
    E = _E()
    t = ctx.atys[0].t
    if not native(t):
        return NotImplemented
    r = e.deref_val(st, r)
    v = e.load(st, r.o, r.p)
    it, pk = v.f
    pth = r.p + (("f", 1), ("v", 1), ("f", 0), ("v", 1), ("f", 0))
    if isinstance(pk, E.Agg) and pk.v == 1:
        x = pk.f[0]
        return [(some(E.Ref(r.o, pth)) if x.v == 1 else none(), st)]
    out = []
    for item, nv, s in sub_next(ctx, st, it, t.ga[0], False):
        s = s.copy()
        e.store(s, r.o, r.p, E.Agg(0, (nv, some(none() if item is None else some(item)))))
        out.append((none() if item is None else some(E.Ref(r.o, pth)), s))
    return out


@rx(r"^core::ops::range::RangeInclusive::<.*>::new$")
def _ri_new(ctx, st, a, b):
    return _E().Agg(0, (a, b, T.FALSE))


@rx(r"^core::ops::range::(Range|RangeInclusive|RangeFrom|RangeTo|RangeToInclusive)::<.*>::contains(::<.*>)?$")
def _rcontains(ctx, st, r, x):
    e = ctx.e
    E = _E()
    v, t = _deref_all(e, st, r, ctx.atys[0])
    y, ty = _deref_all(e, st, x, ctx.atys[1])
    if ty.k not in ("int", "char"):
        return NotImplemented
    y = e.as_int(y)
    k = RANGE_KINDS[t.p]
    f = [e.as_int(z) for z in v.f[:2]]
    c = T.TRUE
    if k in ("range", "incl", "from"):
        c = T.b_and(c, T.le(T.sub(f[0], y)))
    if k == "range":
        c = T.b_and(c, T.le(T.addk(T.sub(y, f[1]), 1)))
    elif k == "incl":
        c = T.b_and(c, T.le(T.sub(y, f[1])))
    elif k == "to":
        c = T.b_and(c, T.le(T.addk(T.sub(y, f[0]), 1)))
    elif k == "toincl":
        c = T.b_and(c, T.le(T.sub(y, f[0])))
    return c


@rx(r"^core::char::methods::<impl char>::to_digit$", r"^core::char::methods::<impl char>::is_ascii\w*$", r"^core::num::<impl u8>::is_ascii\w*$",
    r"^core::num::<impl u8>::to_ascii_\w+$", r"^core::char::methods::<impl char>::to_ascii_\w+$",
    r"^core::char::methods::<impl char>::(is_alphanumeric|is_alphabetic|is_numeric|is_whitespace)$")
def _char_class(ctx, st, c, *a):
    e = ctx.e
    x, t = _deref_all(e, st, c, ctx.atys[0])
    x = e.as_int(x)
    name = ctx.c["rdef"].rsplit("::", 1)[1]
    lo, hi = st.facts.rng(x)

    def pred(p):
        """boolean for an ASCII predicate"""
        iv = [v for v in range(128) if p(v)]
        r = T.FALSE
        j = 0
        while j < len(iv):
            k = j
            while k + 1 < len(iv) and iv[k + 1] == iv[k] + 1:
                k += 1
            if iv[j] == iv[k]:
                r = T.b_or(r, T.eq(T.addk(x, -iv[j])))
            else:
                r = T.b_or(r, T.b_and(T.le(T.sub(T.const(iv[j]), x)), T.le(T.addk(x, -iv[k]))))
            j = k + 1
        return r
    preds = {
        "is_ascii": lambda v: True, "is_ascii_digit": lambda v: 48 <= v <= 57,
        "is_ascii_hexdigit": lambda v: _hexval(v) is not None,
        "is_ascii_alphabetic": lambda v: chr(v).isalpha(), "is_ascii_uppercase": lambda v: 65 <= v <= 90,
        "is_ascii_lowercase": lambda v: 97 <= v <= 122, "is_ascii_alphanumeric": lambda v: chr(v).isalnum(),
        "is_ascii_control": lambda v: v < 32 or v == 127, "is_ascii_graphic": lambda v: 33 <= v <= 126,
        "is_ascii_punctuation": lambda v: 33 <= v <= 126 and not chr(v).isalnum(),
        "is_ascii_whitespace": lambda v: v in (9, 10, 12, 13, 32),
    }
    if name in preds:
        if name == "is_ascii":
            return T.le(T.addk(x, -127))
        return pred(preds[name])
    if name in ("to_ascii_lowercase", "to_ascii_uppercase"):
        up = name.endswith("uppercase")
        rngc = (97, 122) if up else (65, 90)
        d = -32 if up else 32
        c1 = T.b_and(T.le(T.sub(T.const(rngc[0]), x)), T.le(T.addk(x, -rngc[1])))
        s1, s2 = split(e, st, c1)
        out = []
        if s1 is not None:
            out.append((T.addk(x, d), s1))
        if s2 is not None:
            out.append((x, s2))
        return out
    if name == "to_digit":
        radix = e.as_int(a[0])
        if not radix.t and radix.k == 16:
            s1, s2 = split(e, st, pred(lambda v: _hexval(v) is not None))
            out = []
            if s1 is not None:
                if s1.facts.rng(x)[1] <= 255:
                    v = T.table(tuple(-1 if _hexval(q) is None else _hexval(q) for q in range(256)), x)
                else:
                    v = T.fresh("digit", 0, 15)
                out.append((some(v), s1))
            if s2 is not None:
                out.append((none(), s2))
            return out
    return NotImplemented


@rx(r"^core::mem::(take|replace|swap)(::<.*>)?$")
def _mem(ctx, st, r, *a):
    e = ctx.e
    E = _E()
    name = re.search(r"mem::(\w+)", ctx.c["rdef"]).group(1)
    st = st.copy()
    r = e.deref_val(st, r)
    old = e.load(st, r.o, r.p)
    if name == "replace":
        e.store(st, r.o, r.p, a[0])
        return [(old, st)]
    if name == "swap":
        q = e.deref_val(st, a[0])
        y = e.load(st, q.o, q.p)
        e.store(st, r.o, r.p, y)
        e.store(st, q.o, q.p, old)
        return [(unit(), st)]
    t = ctx.rty
    if t.k == "adt" and t.p in ("alloc::vec::Vec", "alloc::string::String"):
        e.store(st, r.o, r.p, E.VecV(E.Arr(())))
    elif t.k == "int":
        e.store(st, r.o, r.p, T.ZERO)
    elif t.k == "adt" and t.p == "core::option::Option":
        e.store(st, r.o, r.p, none())
    else:
        return NotImplemented
    return [(old, st)]


# ------------------------------------------------------------------ keramics: errors and mediator are not followed

@rx(r"^keramics_core::errors?::ErrorTrace::new$", r"^keramics_core::error_trace::ErrorTrace::new$")
def _errnew(ctx, st, *a):
    return _E().Sym(ctx.rty, "error")


@rx(r"^keramics_core::errors?::ErrorTrace::add_frame$", r"^keramics_core::error_trace::ErrorTrace::add_frame$",
    r"^keramics_core::mediator::Mediator::debug_print.*$")
def _erradd(ctx, st, *a):
    return unit()


from . import models2  # noqa: E402,F401  more of the library
