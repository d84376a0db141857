"""More of the standard library: vectors, strings, comparisons, cells, searching."""
import re

from . import terms as T
from . import rope
from .models import (_E, MODELS, model, rx, none, some, ok, err, tup, unit, split, window, elem_ref, sub_window, win_get,  # noqa: F401
                     seq_to_ref, write_window, require, panic, vec_of, native, workspace_iter, sub_next, iter_next, drain, apply_fn,
                     opt_cases, seq_eq, seq_view, _deref_all, _is_seqty, iter_bound, text_items, expand_args, range_bounds, test_item,
                     inner_items, _short)

V = r"^alloc::vec::Vec::<.*>::"
S = r"^alloc::string::String::"


def elems(e, st, v, limit=512):
    """the elements of a vector / slice value of known length, as a list"""
    E = _E()
    if isinstance(v, E.VecV):
        v = v.s
    n = e.seq_len(v)
    if n.t or n.k > limit:
        raise E.Unsupported("vector of unknown length")
    if isinstance(v, E.Arr):
        return list(v.e)
    return [e.seq_get(st, v, T.const(j)) for j in range(n.k)]


def put_vec(e, st, r, xs):
    E = _E()
    st = st.copy()
    e.store(st, r.o, r.p, E.VecV(E.Arr(xs)))
    return st


def known(ctx, st, x, hi):
    """the cases of an index 0 <= x <= hi: [(value, state)]"""
    e = ctx.e
    if not x.t:
        return [(x.k, st)]
    if hi > 16:
        raise _E().Unsupported("unknown index")
    out = []
    for k in range(hi + 1):
        s = e.branch(st, T.eq(T.addk(x, -k)), True)
        if s is not None:
            out.append((k, s))
    return out


# ------------------------------------------------------------------ vectors

@rx(V + r"(insert)$")
def _insert(ctx, st, r, i, x):
    e = ctx.e
    r, v = vec_of(e, st, r)
    i = e.as_int(i)
    st = require(ctx, st, T.le(T.sub(i, e.seq_len(v))), "index", "insertion index")
    if st is None:
        return []
    xs = elems(e, st, v)
    return [(unit(), put_vec(e, s, r, xs[:k] + [x] + xs[k:])) for k, s in known(ctx, st, i, len(xs))]


@rx(V + r"(remove|swap_remove)$")
def _remove(ctx, st, r, i):
    e = ctx.e
    r, v = vec_of(e, st, r)
    i = e.as_int(i)
    st = require(ctx, st, T.le(T.addk(T.sub(i, e.seq_len(v)), 1)), "index", "removal index")
    if st is None:
        return []
    xs = elems(e, st, v)
    out = []
    for k, s in known(ctx, st, i, len(xs) - 1):
        ys = list(xs)
        if ctx.c["rdef"].endswith("swap_remove"):
            ys[k] = ys[-1]
            ys.pop()
        else:
            ys.pop(k)
        out.append((xs[k], put_vec(e, s, r, ys)))
    return out


@rx(V + r"(retain|retain_mut)(::<.*>)?$")
def _retain(ctx, st, r, f):
    e = ctx.e
    r, v = vec_of(e, st, r)
    work = [((), f, st)]
    for x in elems(e, st, v):
        nw = []
        for acc, f1, s in work:
            for c, s2, f2 in test_item(ctx, s, f1, x):
                nw.append((acc + (x,) if c else acc, f2, s2))
        if len(nw) > 256:
            raise _E().Unsupported("retain of unknown elements")
        work = nw
    return [(unit(), put_vec(e, s, r, list(acc))) for acc, _, s in work]


@rx(V + r"dedup$")
def _dedup(ctx, st, r):
    e = ctx.e
    r, v = vec_of(e, st, r)
    work = [((), st)]
    for x in elems(e, st, v):
        nw = []
        for acc, s in work:
            if not acc:
                nw.append(((x,), s))
                continue
            a, b = split(e, s, T.eq(T.sub(e.as_int(acc[-1]), e.as_int(x))))
            if a is not None:
                nw.append((acc, a))
            if b is not None:
                nw.append((acc + (x,), b))
        if len(nw) > 256:
            raise _E().Unsupported("dedup of unknown elements")
        work = nw
    return [(unit(), put_vec(e, s, r, list(acc))) for acc, s in work]


@rx(V + r"(split_off)$", V + r"drain(::<.*>)?$", S + r"(split_off)$", S + r"drain(::<.*>)?$")
def _split_off(ctx, st, r, at):
    e = ctx.e
    E = _E()
    r, v = vec_of(e, st, r)
    text = ctx.c["rdef"].startswith("alloc::string")
    n = e.seq_len(v)
    if ctx.c["rdef"].endswith("split_off"):
        lo, hi = e.as_int(at), n
    else:
        lo, hi = range_bounds(e, st, at, ctx.atys[1], n)
        if text:
            raise E.Unsupported("drain of a text")
    st = require(ctx, st, T.b_and(T.le(T.sub(lo, hi)), T.le(T.sub(hi, n))), "index", "range of the vector")
    if st is None:
        return []
    if lo.t or hi.t:
        raise E.Unsupported("part of a vector at unknown positions")
    xs = elems(e, st, v)
    if text and any(st.facts.rng(e.as_int(x))[1] >= 0x80 for x in xs):
        raise E.Unsupported("split of a text")
    st = put_vec(e, st, r, xs[:lo.k] + xs[hi.k:])
    part = xs[lo.k:hi.k]
    if ctx.c["rdef"].endswith("split_off"):
        return [(E.VecV(E.Arr(part)), st)]
    o = seq_to_ref(ctx, st, E.Arr(part))
    return [(E.Agg(0, (E.Ref(o.o, o.p, ("s", T.ZERO, T.const(len(part)))),)), st)]


def append_items(ctx, st, r, items):
    """vector or text at r, extended by items: state"""
    e = ctx.e
    E = _E()
    r, v = vec_of(e, st, r)
    st = st.copy()
    if ctx.c["rdef"].find("string::String") >= 0:
        e.store(st, r.o, r.p, rope.make(e, rope.of_seq(e, st, v.s) + text_items(e, st, items)))
        return st
    s = v.s
    if isinstance(s, E.Arr):
        ns = E.Arr(tuple(s.e) + tuple(items))
    else:
        m = T.const(len(items))
        ns = E.SArr(s.base, s.ety, T.add(s.n, m), s.w + (("r", s.n, m, E.Arr(items), T.ZERO),), s.fill)
    e.store(st, r.o, r.p, E.VecV(ns))
    return st


@rx(r"^<alloc::vec::Vec<.*> as core::iter::traits::collect::Extend<.*>>::extend$",
    r"^<alloc::string::String as core::iter::traits::collect::Extend<.*>>::extend$")
def _extend_iter(ctx, st, r, it):
    e = ctx.e
    E = _E()
    t = ctx.atys[1]
    byref = "Extend<&" in ctx.c["rdef"] and "String" not in ctx.c["rdef"]

    def val(s, x):
        return e.load(s, x.o, x.p) if byref and isinstance(x, E.Ref) else x
    if native(t) or workspace_iter(t):
        d = drain(ctx, st, it, t, lambda x, acc, s: [(acc + (val(s, x),), False, s)], (), 1100)
        if d is None:
            raise E.Unsupported("extension by a symbolic sequence")
        return [(unit(), append_items(ctx, s, r, items)) for items, s in d]
    if t.k == "ref" and _is_seqty(t.t):
        from .models import _extend
        return _extend(ctx, st, r, it)
    if isinstance(it, (E.Arr, E.VecV)):
        return [(unit(), append_items(ctx, st, r, tuple(elems(e, st, it))))]
    if isinstance(it, E.Agg) and t.k == "adt" and t.p == "core::option::Option":
        return [(unit(), append_items(ctx, st, r, it.f))]
    raise E.Unsupported("extension by an unknown sequence")


@rx(r"^alloc::slice::<impl \[.*\]>::(concat|join)(::<.*>)?$")
def _concat(ctx, st, s, sep=None):
    from .models import _join
    e = ctx.e
    E = _E()
    rt = ctx.rty
    if not (rt.k == "adt" and rt.p == "alloc::vec::Vec"):
        return _join(ctx, st, s, *([] if sep is None else [sep]))
    if sep is not None:
        return NotImplemented
    out = []
    r = window(e, st, s)
    if r.m[2].t:
        return NotImplemented
    for j in range(r.m[2].k):
        x = win_get(e, st, r, T.const(j))
        if isinstance(x, E.Ref):
            x = e.slice_seq(st, window(e, st, x))
        out += elems(e, st, x)
    return E.VecV(E.Arr(out))


# the text model goes through the wrapper above
from . import models as _m  # noqa: E402
_m.REGEX[:] = [(p, f) for p, f in _m.REGEX if f is not _m._join]


@rx(r"^core::slice::<impl \[.*\]>::(rotate_left|rotate_right)$")
def _rotate(ctx, st, d, k):
    e = ctx.e
    r = window(e, st, d)
    n = r.m[2]
    k = e.as_int(k)
    st = require(ctx, st, T.le(T.sub(k, n)), "index", "rotation")
    if st is None:
        return []
    if n.t or k.t or n.k > 512:
        raise _E().Unsupported("rotation by an unknown amount")
    xs = [win_get(e, st, r, T.const(j)) for j in range(n.k)]
    m = k.k if ctx.c["rdef"].endswith("left") else n.k - k.k
    st = st.copy()
    write_window(e, st, r, T.ZERO, n, _E().Arr(xs[m:] + xs[:m]), T.ZERO)
    return [(unit(), st)]


@rx(r"^core::array::<impl \[.*\]>::map(::<.*>)?$")
def _array_map(ctx, st, a, f):
    e = ctx.e
    E = _E()
    work = [((), f, st)]
    for x in elems(e, st, a):
        work = [(acc + (v,), f2, s2) for acc, f1, s in work for v, s2, f2 in apply_fn(ctx, s, f1, [x])]
        if len(work) > 64:
            raise E.Unsupported("array map")
    return [(E.Arr(acc), s) for acc, _, s in work]


@rx(r"^core::array::from_fn(::<.*>)?$")
def _from_fn(ctx, st, f):
    e = ctx.e
    E = _E()
    n = ctx.rty.n
    if n is None or n > 512:
        return NotImplemented
    work = [((), f, st)]
    for j in range(n):
        work = [(acc + (v,), f2, s2) for acc, f1, s in work for v, s2, f2 in apply_fn(ctx, s, f1, [T.const(j)])]
        if len(work) > 64:
            raise E.Unsupported("array from_fn")
    return [(E.Arr(acc), s) for acc, _, s in work]


@rx(r"^core::slice::<impl \[.*\]>::(first_chunk|last_chunk)(::<.*>)?$")
def _first_chunk(ctx, st, s):
    e = ctx.e
    E = _E()
    r = window(e, st, s)
    n = ctx.rty.ga[0].t.n
    out = []
    a, b = split(e, st, T.le(T.sub(T.const(n), r.m[2])))
    if a is not None:
        off = T.ZERO if ctx.c["rdef"].find("first_chunk") >= 0 else T.addk(r.m[2], -n)
        out.append((some(E.Ref(r.o, r.p, ("s", T.add(r.m[1], off), T.const(n)))), a))
    if b is not None:
        out.append((none(), b))
    return out


# ------------------------------------------------------------------ comparisons

def _variant(k):
    return _E().Agg(k, ())


LESS, EQUAL, GREATER = 0, 1, 2


def lexical(ctx, st, a, b, limit=64):
    """[(LESS | EQUAL | GREATER, state)]"""
    e = ctx.e
    E = _E()
    (sa, oa, na), (sb, ob, nb) = seq_view(e, st, a), seq_view(e, st, b)
    if na.t or nb.t:
        raise E.Unsupported("order of sequences of unknown length")
    n = min(na.k, nb.k)
    if n > limit:
        raise E.Unsupported("order of long sequences")
    out = []
    cur = st
    for j in range(n):
        x, y = e.seq_get(cur, sa, T.addk(oa, j)), e.seq_get(cur, sb, T.addk(ob, j))
        if not isinstance(x, T.Lin) or not isinstance(y, T.Lin):
            if isinstance(x, (E.VecV, E.Ref)) and isinstance(y, (E.VecV, E.Ref)):
                nx = []
                for k, s in lexical(ctx, cur, _seq_of(e, cur, x), _seq_of(e, cur, y), limit):
                    if k == EQUAL:
                        nx.append(s)
                    else:
                        out.append((k, s))
                if len(nx) > 1:
                    raise E.Unsupported("order of nested sequences")
                if not nx:
                    return out
                cur = nx[0]
                continue
            raise E.Unsupported("order of sequences of this kind")
        d = T.sub(x, y)
        s = e.branch(cur, T.le(T.addk(d, 1)), True)
        if s is not None:
            out.append((LESS, s))
        s = e.branch(cur, T.le(T.addk(T.neg(d), 1)), True)
        if s is not None:
            out.append((GREATER, s))
        cur = e.branch(cur, T.eq(d), True)
        if cur is None:
            return out
    out.append((LESS if na.k < nb.k else GREATER if na.k > nb.k else EQUAL, cur))
    return out


def _seq_of(e, st, x):
    E = _E()
    if isinstance(x, E.Ref):
        return window(e, st, x)
    return x


@rx(r".* as core::cmp::(PartialOrd|Ord)(<.*>)?>::(cmp|partial_cmp|lt|le|gt|ge)$",
    r"^(core|alloc)::.*<impl core::cmp::(PartialOrd|Ord)(<.*>)? for (str|\[.*\]|alloc::vec::Vec<.*>|alloc::string::String)>::(cmp|partial_cmp|lt|le|gt|ge)$",
    r"^core::cmp::PartialOrd::(lt|le|gt|ge)$")
def _order(ctx, st, a, b):
    e = ctx.e
    E = _E()
    ta, tb = ctx.atys
    va, ta = _deref_all(e, st, a, ta)
    vb, tb = _deref_all(e, st, b, tb)
    m = ctx.c["rdef"].rsplit("::", 1)[1]
    if not ((_is_seqty(ta) or isinstance(va, E.Ref)) and (_is_seqty(tb) or isinstance(vb, E.Ref))):
        return NotImplemented
    out = []
    for k, s in lexical(ctx, st, va, vb):
        if m == "cmp":
            v = _variant(k)
        elif m == "partial_cmp":
            v = some(_variant(k))
        else:
            v = T.TRUE if k in {"lt": (LESS,), "le": (LESS, EQUAL), "gt": (GREATER,), "ge": (GREATER, EQUAL)}[m] else T.FALSE
        out.append((v, s))
    return out


@rx(r"^core::hint::select_unpredictable(::<.*>)?$", r"^core::intrinsics::select_unpredictable(::<.*>)?$", r"^core::bool::<impl bool>::select_unpredictable(::<.*>)?$")
def _select(ctx, st, c, a, b):
    e = ctx.e
    s1, s2 = split(e, st, e.as_bool(c))
    return ([(a, s1)] if s1 is not None else []) + ([(b, s2)] if s2 is not None else [])


@rx(r"^core::slice::<impl \[.*\]>::(eq_ignore_ascii_case)$", r"^core::slice::ascii::<impl \[u8\]>::eq_ignore_ascii_case$",
    r"^core::str::<impl str>::eq_ignore_ascii_case$")
def _eq_ignore(ctx, st, a, b):
    e = ctx.e
    r, q = window(e, st, a), window(e, st, b)
    n, m = r.m[2], q.m[2]
    t = st.facts.truth(T.eq(T.sub(n, m)))
    if t is False:
        return T.FALSE
    k = n if not n.t else m
    if k.t or k.k > 64 or t is None:
        raise _E().Unsupported("comparison of texts of unknown length")
    low = tuple(ord(chr(c).lower()) if c < 128 else c for c in range(256))
    c = T.TRUE
    for j in range(k.k):
        x = T.table(low, e.as_int(win_get(e, st, r, T.const(j))))
        y = T.table(low, e.as_int(win_get(e, st, q, T.const(j))))
        c = T.b_and(c, T.eq(T.sub(x, y)))
    return c


@rx(r"^core::cmp::(PartialEq|Eq)::eq$")
def _eqdef(ctx, st, a, b):
    return NotImplemented


# ------------------------------------------------------------------ iterators

IT = "tm:core::iter::traits::iterator::Iterator::"


def _self_iter(ctx, st, it):
    """(iterator value, its type, where it is stored or None)"""
    e = ctx.e
    E = _E()
    t = ctx.atys[0]
    if t.k == "ref" and isinstance(it, E.Ref):
        r = e.deref_val(st, it)
        return e.load(st, r.o, r.p), t.t, r
    return it, t, None


def _stepped(ctx, st, it, body, init, limit=4096):
    """run body over the items, storing the iterator back when it is borrowed: [(acc, stopped, state)] or None"""
    e = ctx.e
    v, t, r = _self_iter(ctx, st, it)
    if not native(t) and not workspace_iter(t):
        return None
    work = [(v, init, st)]
    done = []
    k = 0
    while work:
        k += 1
        if k > limit or len(work) > 64:
            raise _E().Unsupported("search of a symbolic sequence")
        nw = []
        for v, acc, s in work:
            steps = sub_next(ctx, s, v, t, False)
            if k > 40 and any(x[0] is None for x in steps) and any(x[0] is not None for x in steps):
                raise _E().Unsupported("search of a symbolic sequence")
            for item, nv, s2 in steps:
                if item is None:
                    done.append((acc, False, _back(e, s2, r, nv)))
                    continue
                for a2, stop, s3 in body(item, acc, s2):
                    if stop:
                        done.append((a2, True, _back(e, s3, r, nv)))
                    else:
                        nw.append((nv, a2, s3))
        if len(nw) > 1:
            nw = [(q[0], q[1], s) for q, s in e.merge_rets([((v, a), s) for v, a, s in nw])]
        work = nw
    return done


def _back(e, st, r, nv):
    if r is None:
        return st
    st = st.copy()
    e.store(st, r.o, r.p, nv)
    return st


def bounded(ctx, st, it):
    """is the number of items known or small?"""
    e = ctx.e
    v, t, r = _self_iter(ctx, st, it)
    n = iter_bound(e, st, v, t)
    return n is None or not n.t or st.facts.rng(n)[1] <= 64


@model(IT + "find", "tm:core::iter::traits::double_ended::DoubleEndedIterator::rfind")
def _find(ctx, st, it, f):
    if ctx.c["tm"].endswith("rfind"):
        return NotImplemented
    if not bounded(ctx, st, it):
        return find_any(ctx, st, it, lambda s, x: [(c, x, s2) for c, s2, _ in test_item(ctx, s, f, x)])
    r = _stepped(ctx, st, it, lambda x, acc, s: [(x, c, s2) for c, s2, _ in test_item(ctx, s, f, x)], None)
    if r is None:
        return NotImplemented
    return [(some(a) if stop else none(), s) for a, stop, s in r]


def find_any(ctx, st, it, test):
    """a search of a sequence of unknown length: some element that satisfies the test, or nothing"""
    e = ctx.e
    E = _E()
    v, t, r = _self_iter(ctx, st, it)
    if not (t.k == "adt" and t.p in ("core::slice::iter::Iter",)):
        return NotImplemented
    w = v.f[0]
    i = T.sym(e.fresh_name("pos"), 0, E.LEN_MAX)
    out = [(none(), _back(e, st, r, E.Agg(0, (sub_window(w, w.m[2], T.ZERO),))))]
    s = e.branch(st, T.le(T.addk(T.sub(i, w.m[2]), 1)), True)
    if s is not None:
        for c, x, s2 in test(s, elem_ref(e, s, w, i)):
            if c:
                out.append((some(x), _back(e, s2, r, E.Agg(0, (sub_window(w, T.addk(i, 1), T.addk(T.sub(w.m[2], i), -1)),)))))
    return out


@model(IT + "find_map")
def _find_map(ctx, st, it, f):
    e = ctx.e

    def body(x, acc, s):
        out = []
        for rv, s2, _ in apply_fn(ctx, s, f, [x]):
            out += [(y, y is not None, s3) for y, s3 in opt_cases(e, s2, rv)]
        return out
    if not bounded(ctx, st, it):
        return find_any(ctx, st, it, lambda s, x: [(stop, y, s2) for y, stop, s2 in body(x, None, s)])
    r = _stepped(ctx, st, it, body, None)
    if r is None:
        return NotImplemented
    return [(some(a) if stop else none(), s) for a, stop, s in r]


@model(IT + "rposition")
def _rposition(ctx, st, it, f):
    e = ctx.e
    v, t, r = _self_iter(ctx, st, it)
    if not native(t):
        return NotImplemented
    n = iter_bound(e, st, v, t)
    if n is None or n.t or n.k > 256:
        raise _E().Unsupported("search from the back")
    out = []
    work = [(v, st)]
    for k in reversed(range(n.k)):
        nw = []
        for v, s in work:
            for x, nv, s2 in sub_next(ctx, s, v, t, True):
                for rv, s3, _ in apply_fn(ctx, s2, f, [x]):
                    a, b = split(e, s3, e.as_bool(rv))
                    if a is not None:
                        out.append((some(T.const(k)), _back(e, a, r, nv)))
                    if b is not None:
                        nw.append((nv, b))
        work = nw
    return out + [(none(), _back(e, s, r, v)) for v, s in work]


def _try_parts(v):
    """of a Try value: (continues?, output) or None"""
    return None


@model(IT + "eq", IT + "ne", IT + "lt", IT + "le", IT + "gt", IT + "ge", IT + "cmp", IT + "partial_cmp")
def _iter_cmp(ctx, st, a, b):
    e = ctx.e
    E = _E()
    t, u = ctx.atys
    if not native(t):
        return NotImplemented
    if not native(u):
        if u.k == "ref" and _is_seqty(u.t):
            w = window(e, st, b)
            seqs = [([elem_ref(e, st, w, T.const(j)) for j in range(w.m[2].k)] if not w.m[2].t else None, st)]
        else:
            return NotImplemented
    else:
        seqs = [(x, s) for x, s in (drain(ctx, st, b, u, lambda x, acc, s: [(acc + (x,), False, s)], (), 300) or [(None, None)])]
    out = []
    m = ctx.c["tm"].rsplit("::", 1)[1]
    for ys, s in seqs:
        if ys is None:
            raise E.Unsupported("comparison with a symbolic sequence")
        d = drain(ctx, s, a, t, lambda x, acc, s: [(acc + (x,), False, s)], (), 300)
        if d is None:
            raise E.Unsupported("comparison of a symbolic sequence")
        for xs, s2 in d:
            def plain(z):
                if isinstance(z, E.Ref) and not (z.m and z.m[0] == "s"):
                    return e.load(s2, z.o, z.p)
                return z
            p, q = E.Arr([plain(z) for z in xs]), E.Arr([plain(z) for z in ys])
            if m in ("eq", "ne"):
                c = seq_eq(e, s2, p, q)
                out.append((T.b_not(c) if m == "ne" else c, s2))
                continue
            for k, s3 in lexical(ctx, s2, p, q):
                if m == "cmp":
                    v = _variant(k)
                elif m == "partial_cmp":
                    v = some(_variant(k))
                else:
                    v = T.TRUE if k in {"lt": (LESS,), "le": (LESS, EQUAL), "gt": (GREATER,), "ge": (GREATER, EQUAL)}[m] else T.FALSE
                out.append((v, s3))
    return out


@model(IT + "is_sorted")
def _is_sorted(ctx, st, it):
    return _sorted(ctx, st, it, ctx.atys[0])


@rx(r"^core::slice::<impl \[.*\]>::is_sorted$")
def _slice_sorted(ctx, st, s):
    e = ctx.e
    w = window(e, st, s)
    if w.m[2].t or w.m[2].k > 256:
        raise _E().Unsupported("order of a symbolic sequence")
    xs = [e.as_int(win_get(e, st, w, T.const(j))) for j in range(w.m[2].k)]
    c = T.TRUE
    for x, y in zip(xs, xs[1:]):
        c = T.b_and(c, T.le(T.sub(x, y)))
    return c


def _sorted(ctx, st, it, t):
    e = ctx.e
    E = _E()
    if not native(t):
        return NotImplemented
    d = drain(ctx, st, it, t, lambda x, acc, s: [(acc + (x,), False, s)], (), 300)
    if d is None:
        raise E.Unsupported("order of a symbolic sequence")
    out = []
    for xs, s in d:
        xs = [e.as_int(e.load(s, x.o, x.p) if isinstance(x, E.Ref) else x) for x in xs]
        c = T.TRUE
        for x, y in zip(xs, xs[1:]):
            c = T.b_and(c, T.le(T.sub(x, y)))
        out.append((c, s))
    return out


@model(IT + "partition", IT + "unzip")
def _partition(ctx, st, it, f=None):
    e = ctx.e
    E = _E()
    t = ctx.atys[0]
    rt = ctx.rty
    if not native(t) or not (rt.k == "tuple" and all(x.k == "adt" and x.p == "alloc::vec::Vec" for x in rt.ts)):
        return NotImplemented
    if f is None:
        body = lambda x, acc, s: [((acc[0] + (x.f[0],), acc[1] + (x.f[1],)), False, s)]  # noqa: E731
    else:
        def body(x, acc, s):
            return [((acc[0] + (x,), acc[1]) if c else (acc[0], acc[1] + (x,)), False, s2) for c, s2, _ in test_item(ctx, s, f, x)]
    d = drain(ctx, st, it, t, body, ((), ()), 300)
    if d is None:
        raise E.Unsupported("partition of a symbolic sequence")
    return [(tup(E.VecV(E.Arr(a[0])), E.VecV(E.Arr(a[1]))), s) for a, s in d]


@model(IT + "cycle")
def _cycle(ctx, st, it):
    if not native(ctx.atys[0]):
        return NotImplemented
    return _E().Agg(0, (it, it))


@rx(r"^core::iter::sources::repeat_n::repeat_n(::<.*>)?$")
def _repeat_n(ctx, st, x, n):
    return _E().Agg(0, (x, n))


@model(IT + "size_hint")
def _size_hint(ctx, st, r):
    e = ctx.e
    v, t, _ = _self_iter(ctx, st, r)
    if not native(t):
        return NotImplemented
    n = iter_bound(e, st, v, t)
    if n is None:
        raise _E().Unsupported("size hint")
    return tup(n, some(n))


# ------------------------------------------------------------------ text

def chars_of(e, st, s):
    """the characters of a text: [(term, width)]"""
    E = _E()
    segs = rope.of_val(e, st, s)
    out = []
    j = 0
    while j < len(segs):
        g = segs[j]
        if g[0] == "c":
            out.append((g[1], None))
            j += 1
            continue
        if g[0] != "b":
            raise E.Unsupported("characters of an unknown text")
        if st.facts.rng(g[1])[1] < 0x80:
            out.append((g[1], 1))
            j += 1
            continue
        if g[1].t:
            raise E.Unsupported("characters of an unknown text")
        k = g[1].k
        n = 2 if 0xc0 <= k < 0xe0 else 3 if 0xe0 <= k < 0xf0 else 4 if k >= 0xf0 else 0
        raw = []
        for h in segs[j:j + n]:
            if h[0] != "b":
                raise E.Unsupported("characters of an unknown text")
            raw.append(h[1])
        if len(raw) == n and n and any(h.t for h in raw):
            # a lead byte that is known, and continuations of any value
            c = T.const(k & (0x1f, 0xf, 7)[n - 2])
            for i, h in enumerate(raw[1:]):
                lo, hi = st.facts.rng(h)
                if lo < (0xa0 if k == 0xe0 and not i else 0x90 if k == 0xf0 and not i else 0x80) or hi > (0x9f if k == 0xed and not i else 0x8f if k == 0xf4 and not i else 0xbf):
                    raise E.Unsupported("a text not shown to be UTF-8")
                c = T.add(T.scale(c, 64), T.addk(h, -0x80))
            out.append((c, n))
            j += n
            continue
        raw = [h.k for h in raw]
        try:
            c = bytes(raw).decode()
        except UnicodeDecodeError:
            raise E.Unsupported("a text that is not UTF-8")
        out.append((T.const(ord(c)), n))
        j += n
    return out


def listed(ctx, st, items):
    """an iterator over items, by value"""
    E = _E()
    st = st.copy()
    o = ctx.e.heap(st, ctx.fr, ctx.b)
    st.mem[o] = E.Arr(items)
    return [(E.Agg(0, (E.Ref(o, (), ("s", T.ZERO, T.const(len(items)))),)), st)]


@rx(r"^core::str::<impl str>::(chars|char_indices)$")
def _chars(ctx, st, s):
    e = ctx.e
    cs = chars_of(e, st, s)
    if ctx.c["rdef"].endswith("chars"):
        return listed(ctx, st, [c for c, _ in cs])
    out = []
    at = 0
    for c, n in cs:
        if n is None:
            raise _E().Unsupported("positions of characters of unknown width")
        out.append(tup(T.const(at), c))
        at += n
    return listed(ctx, st, out)


@rx(r"^core::str::iter::(Chars|CharIndices)::<.*>::(as_str|offset)$")
def _chars_rest(ctx, st, r):
    raise _E().Unsupported("rest of a character iterator")


def new_text(ctx, st, segs):
    """a &str of segments"""
    e = ctx.e
    E = _E()
    v = rope.make(e, segs)
    st = st.copy()
    o = e.heap(st, ctx.fr, ctx.b)
    st.mem[o] = v
    return E.Ref(o, (), ("s", T.ZERO, e.seq_len(v.s))), st


@rx(r"^<alloc::string::String as core::ops::arith::AddAssign<&.*str>>::add_assign$")
def _add_assign(ctx, st, r, s):
    e = ctx.e
    r, v = vec_of(e, st, r)
    st = st.copy()
    e.store(st, r.o, r.p, rope.make(e, rope.of_seq(e, st, v.s) + rope.of_val(e, st, s)))
    return [(unit(), st)]


@rx(r"^<alloc::string::String as core::ops::arith::Add<&.*str>>::add$")
def _add_str(ctx, st, a, s):
    e = ctx.e
    return rope.make(e, rope.of_val(e, st, a) + rope.of_val(e, st, s))


@rx(S + r"(insert|insert_str)$")
def _str_insert(ctx, st, r, i, c):
    e = ctx.e
    E = _E()
    r, v = vec_of(e, st, r)
    i = e.as_int(i)
    segs = rope.of_seq(e, st, v.s)
    add = text_items(e, st, [c])
    st = st.copy()
    if i == T.ZERO:
        e.store(st, r.o, r.p, rope.make(e, add + segs))
        return [(unit(), st)]
    if i.t or any(g[0] != "b" for g in segs[:i.k]) or i.k > len(segs) or any(st.facts.rng(g[1])[1] >= 0x80 for g in segs if g[0] == "b"):
        raise E.Unsupported("insertion into a text")
    e.store(st, r.o, r.p, rope.make(e, segs[:i.k] + add + segs[i.k:]))
    return [(unit(), st)]


@rx(S + r"pop$")
def _str_pop(ctx, st, r):
    e = ctx.e
    E = _E()
    r, v = vec_of(e, st, r)
    segs = rope.of_seq(e, st, v.s)
    if not segs:
        return none()
    g = segs[-1]
    if g[0] == "c" or g[0] == "b" and st.facts.rng(g[1])[1] < 0x80:
        st = st.copy()
        e.store(st, r.o, r.p, rope.make(e, segs[:-1]))
        return [(some(g[1]), st)]
    raise E.Unsupported("last character of a text")


@rx(S + r"truncate$")
def _str_truncate(ctx, st, r, n):
    e = ctx.e
    E = _E()
    r, v = vec_of(e, st, r)
    n = e.as_int(n)
    segs = rope.of_seq(e, st, v.s)
    if n.t or any(g[0] != "b" or st.facts.rng(g[1])[1] >= 0x80 for g in segs):
        raise E.Unsupported("truncation of a text")
    st = st.copy()
    e.store(st, r.o, r.p, rope.make(e, segs[:n.k]))
    return [(unit(), st)]


@rx(r"^alloc::str::<impl str>::repeat$")
def _repeat(ctx, st, s, n):
    e = ctx.e
    n = e.as_int(n)
    segs = rope.of_val(e, st, s)
    if n.t:
        lo, hi = st.facts.rng(n)
        if hi - lo > 32:
            raise _E().Unsupported("repetition of a text")
        return [(rope.make(e, segs * k), s2) for k in range(lo, hi + 1)
                for s2 in [e.branch(st, T.eq(T.addk(n, -k)), True)] if s2 is not None]
    if n.k * max(1, len(segs)) > 8192:
        raise _E().Unsupported("long text")
    return rope.make(e, segs * n.k)


def pattern(ctx, st, p, t):
    """a test of one character: f(char term) -> condition, or ("str", segments)"""
    e = ctx.e
    E = _E()
    if t.k == "char":
        c = e.as_int(p)
        return lambda s, x: [(T.eq(T.sub(x, c)), s)]
    if t.k == "ref" and t.t.k == "str" or t.k == "ref" and t.t.k == "adt" and t.t.p == "alloc::string::String":
        return ("str", rope.of_val(e, st, p))
    if t.k == "array" and t.t.k == "char":
        cs = [e.as_int(x) for x in elems(e, st, p)]

        def anyc(s, x):
            c = T.FALSE
            for y in cs:
                c = T.b_or(c, T.eq(T.sub(x, y)))
            return [(c, s)]
        return anyc
    if t.k in ("closure", "fndef", "fnptr") or isinstance(p, E.FnV):
        return lambda s, x: [(e.as_bool(v), s2) for v, s2, _ in apply_fn(ctx, s, p, [x])]
    raise E.Unsupported("pattern of this kind")


@rx(r"^core::str::<impl str>::(trim|trim_start|trim_end|trim_start_matches|trim_end_matches|trim_matches|trim_left|trim_right)(::<.*>)?$")
def _trim(ctx, st, s, p=None):
    e = ctx.e
    E = _E()
    m = re.search(r"::(trim\w*)(::<.*>)?$", ctx.c["rdef"]).group(1)
    segs = rope.of_val(e, st, s)
    if p is None:
        def test(s0, x):
            # white space of ASCII; other characters are told apart when they are constants
            if st.facts.rng(x)[1] >= 0x80:
                if x.t:
                    raise E.Unsupported("trim of unknown characters")
                return [(T.TRUE if chr(x.k).isspace() else T.FALSE, s0)]
            c = T.FALSE
            for k in (9, 10, 11, 12, 13, 32):
                c = T.b_or(c, T.eq(T.addk(x, -k)))
            return [(c, s0)]
    else:
        test = pattern(ctx, st, p, ctx.atys[1])
        if isinstance(test, tuple):
            raise E.Unsupported("trim of a text")
    work = [(tuple(segs), st)]
    for front in ([True] if "start" in m or "left" in m else [False] if "end" in m or "right" in m else [True, False]):
        done = []
        while work:
            nw = []
            for gs, s0 in work:
                if not gs:
                    done.append((gs, s0))
                    continue
                g = gs[0] if front else gs[-1]
                if g[0] == "f" and isinstance(g[3], T.Lin) and p is None and g[1] in ("display", "lower_hex", "upper_hex") and g[2][1] == 0:
                    done.append((gs, s0))
                    continue
                if not (g[0] == "c" or g[0] == "b" and s0.facts.rng(g[1])[1] < 0x80):
                    if g[0] == "b" and not front and not g[1].t:
                        raise E.Unsupported("trim of a wide character")
                    if g[0] == "b" and not g[1].t and front:
                        raise E.Unsupported("trim of a wide character")
                    raise E.Unsupported("trim of an unknown text")
                for c, s1 in test(s0, g[1]):
                    a, b = split(e, s1, c)
                    if a is not None:
                        nw.append((gs[1:] if front else gs[:-1], a))
                    if b is not None:
                        done.append((gs, b))
            if len(nw) > 64:
                raise E.Unsupported("trim of an unknown text")
            work = nw
        work = done
    return [new_text(ctx, s0, list(gs)) for gs, s0 in work]


@rx(r"^core::str::<impl str>::(strip_prefix|strip_suffix)(::<.*>)?$")
def _strip(ctx, st, s, p):
    e = ctx.e
    E = _E()
    t = ctx.atys[1]
    pre = "strip_prefix" in ctx.c["rdef"]
    if t.k == "ref":
        return _m._strip_affix(ctx, st, s, p)
    test = pattern(ctx, st, p, t)
    segs = rope.of_val(e, st, s)
    if not segs:
        return none()
    g = segs[0] if pre else segs[-1]
    if g[0] != "c" and not (g[0] == "b" and st.facts.rng(g[1])[1] < 0x80):
        raise E.Unsupported("affix of an unknown text")
    out = []
    for c, s1 in test(st, g[1]):
        a, b = split(e, s1, c)
        if a is not None:
            r, a = new_text(ctx, a, segs[1:] if pre else segs[:-1])
            out.append((some(r), a))
        if b is not None:
            out.append((none(), b))
    return out


_m.REGEX[:] = [(p, f) for p, f in _m.REGEX if f is not _m._strip_affix]


@rx(r"^core::str::<impl str>::(contains|find|rfind)(::<.*>)?$")
def _find_text(ctx, st, s, p):
    e = ctx.e
    E = _E()
    m = re.search(r"::(contains|find|rfind)(::<.*>)?$", ctx.c["rdef"]).group(1)
    test = pattern(ctx, st, p, ctx.atys[1])
    if isinstance(test, tuple):
        segs, want = rope.of_val(e, st, s), test[1]
        if any(g[0] != "b" for g in segs + want) or len(segs) > 256:
            raise E.Unsupported("search of an unknown text")
        starts = list(range(len(segs) - len(want) + 1))

        def at(s0, j):
            c = T.TRUE
            for k, w in enumerate(want):
                c = T.b_and(c, T.eq(T.sub(segs[j + k][1], w[1])))
            return [(c, s0)]
        places = [(j, j) for j in starts]
    else:
        cs = chars_of(e, st, s)
        places, pos = [], 0
        for j, (c, n) in enumerate(cs):
            if n is None and m != "contains":
                raise E.Unsupported("position in an unknown text")
            places.append((j, pos))
            pos += n or 0

        def at(s0, j):
            return test(s0, cs[j][0])
    if m == "rfind":
        places = places[::-1]
    out = []
    work = [st]
    for j, pos in places:
        nw = []
        for s0 in work:
            for c, s1 in at(s0, j):
                a, b = split(e, s1, c)
                if a is not None:
                    out.append((T.TRUE if m == "contains" else some(T.const(pos)), a))
                if b is not None:
                    nw.append(b)
        if len(nw) > 64:
            raise E.Unsupported("search of an unknown text")
        work = nw
    return out + [(T.FALSE if m == "contains" else none(), s0) for s0 in work]


@rx(r"^core::str::<impl str>::(split|splitn|split_terminator)(::<.*>)?$")
def _str_split(ctx, st, s, p, *q):
    """pieces of a text in which every character is known to be the separator or not"""
    e = ctx.e
    E = _E()
    name = re.search(r"::(split\w*)(::<.*>)?$", ctx.c["rdef"]).group(1)
    if name != "split":
        return NotImplemented
    test = pattern(ctx, st, p, ctx.atys[1])
    segs = rope.of_val(e, st, s)
    if isinstance(test, tuple):
        want = test[1]
        if len(want) != 1 or want[0][0] != "b":
            raise E.Unsupported("separator of several characters")
        c = want[0][1]
        test = lambda s0, x: [(T.eq(T.sub(x, c)), s0)]  # noqa: E731
    work = [(((),), st)]
    for g in segs:
        if g[0] not in ("b", "c"):
            raise E.Unsupported("split of an unknown text")
        nw = []
        for parts, s0 in work:
            for c, s1 in test(s0, g[1]):
                a, b = split(e, s1, c)
                if a is not None:
                    nw.append((parts + ((),), a))
                if b is not None:
                    nw.append((parts[:-1] + (parts[-1] + (g,),), b))
        if len(nw) > 64:
            raise E.Unsupported("split of an unknown text")
        work = nw
    out = []
    for parts, s0 in work:
        refs = []
        for gs in parts:
            r, s0 = new_text(ctx, s0, list(gs))
            refs.append(r)
        out += listed(ctx, s0, refs)
    return out


@rx(r"^core::str::<impl str>::(split_once|rsplit_once)(::<.*>)?$")
def _split_once(ctx, st, s, p):
    e = ctx.e
    E = _E()
    test = pattern(ctx, st, p, ctx.atys[1])
    if isinstance(test, tuple):
        if len(test[1]) != 1:
            raise E.Unsupported("separator of several characters")
        c = test[1][0][1]
        test = lambda s0, x: [(T.eq(T.sub(x, c)), s0)]  # noqa: E731
    segs = rope.of_val(e, st, s)
    idx = list(range(len(segs)))
    if "rsplit" in ctx.c["rdef"]:
        idx = idx[::-1]
    out = []
    work = [st]
    for j in idx:
        if segs[j][0] not in ("b", "c"):
            raise E.Unsupported("split of an unknown text")
        nw = []
        for s0 in work:
            for c, s1 in test(s0, segs[j][1]):
                a, b = split(e, s1, c)
                if a is not None:
                    x, a = new_text(ctx, a, segs[:j])
                    y, a = new_text(ctx, a, segs[j + 1:])
                    out.append((some(tup(x, y)), a))
                if b is not None:
                    nw.append(b)
        work = nw
    return out + [(none(), s0) for s0 in work]


@rx(r"^alloc::str::<impl str>::(to_ascii_uppercase|to_ascii_lowercase|to_uppercase|to_lowercase)$",
    r"^core::str::<impl str>::(make_ascii_uppercase|make_ascii_lowercase)$")
def _str_case(ctx, st, s):
    e = ctx.e
    E = _E()
    m = ctx.c["rdef"].rsplit("::", 1)[1]
    up = "upper" in m
    tab = tuple((ord(chr(c).upper()) if up else ord(chr(c).lower())) if c < 128 else c for c in range(256))
    out = []
    segs = rope.of_val(e, st, s)
    if "ascii" not in m and all(g[0] == "b" and not g[1].t for g in segs):
        raw = bytes(g[1].k for g in segs).decode()
        return rope.make(e, rope.text(raw.upper() if up else raw.lower()))
    for g in segs:
        if g[0] == "b" and st.facts.rng(g[1])[1] < 0x80 or g[0] == "b" and "ascii" in m:
            out.append(("b", T.table(tab, g[1])))
        elif g[0] == "f" and g[1] == "display" and isinstance(g[3], T.Lin):
            out.append(g)
        elif g[0] == "f" and g[1] == ("lower_hex" if up else "upper_hex") and not g[2][0] & rope.ALT:
            out.append(("f", "upper_hex" if up else "lower_hex") + tuple(g[2:]))
        else:
            raise E.Unsupported("case of an unknown text")
    if m.startswith("make_"):
        st = st.copy()
        w = window(e, st, s)
        write_window(e, st, w, T.ZERO, w.m[2], E.Arr([g[1] for g in out]), T.ZERO)
        return [(unit(), st)]
    return rope.make(e, out)


@rx(r"^core::slice::(ascii::)?<impl \[u8\]>::(make_ascii_uppercase|make_ascii_lowercase|to_ascii_uppercase|to_ascii_lowercase)$",
    r"^alloc::slice::<impl \[u8\]>::(to_ascii_uppercase|to_ascii_lowercase)$")
def _bytes_case(ctx, st, s):
    e = ctx.e
    E = _E()
    m = ctx.c["rdef"].rsplit("::", 1)[1]
    up = "upper" in m
    tab = tuple((ord(chr(c).upper()) if up else ord(chr(c).lower())) if c < 128 else c for c in range(256))
    w = window(e, st, s)
    xs = E.Arr([T.table(tab, e.as_int(x)) for x in elems(e, st, e.slice_seq(st, w))])
    if m.startswith("to_"):
        return E.VecV(xs)
    st = st.copy()
    write_window(e, st, w, T.ZERO, w.m[2], xs, T.ZERO)
    return [(unit(), st)]


@rx(r"^alloc::str::<impl str>::(replace|replacen)(::<.*>)?$")
def _replace(ctx, st, s, p, to, *n):
    e = ctx.e
    E = _E()
    if n:
        raise E.Unsupported("replacen")
    segs = rope.of_val(e, st, s)
    new = rope.of_val(e, st, to)
    test = pattern(ctx, st, p, ctx.atys[1])
    if isinstance(test, tuple):
        if all(g[0] == "b" and not g[1].t for g in segs + test[1]):
            raw = bytes(g[1].k for g in segs)
            want = bytes(g[1].k for g in test[1])
            if all(g[0] == "b" and not g[1].t for g in new) and want:
                return rope.make(e, rope.text(raw.replace(want, bytes(g[1].k for g in new))))
        if len(test[1]) != 1 or test[1][0][0] != "b":
            raise E.Unsupported("replacement of a text")
        c0 = test[1][0][1]
        test = lambda s0, x: [(T.eq(T.sub(x, c0)), s0)]  # noqa: E731
    work = [((), st)]
    for g in segs:
        if g[0] not in ("b", "c"):
            raise E.Unsupported("replacement in an unknown text")
        nw = []
        for acc, s0 in work:
            for c, s1 in test(s0, g[1]):
                a, b = split(e, s1, c)
                if a is not None:
                    nw.append((acc + tuple(new), a))
                if b is not None:
                    nw.append((acc + (g,), b))
        if len(nw) > 64:
            raise E.Unsupported("replacement in an unknown text")
        work = nw
    return [(rope.make(e, list(acc)), s0) for acc, s0 in work]


@rx(r"^core::str::converts::(from_utf8|from_utf8_unchecked)$", r"^alloc::string::String::(from_utf8|from_utf8_lossy|from_utf8_unchecked)$",
    r"^core::str::<impl str>::from_utf8$")
def _from_utf8(ctx, st, s):
    e = ctx.e
    E = _E()
    m = ctx.c["rdef"].rsplit("::", 1)[1]
    owned = "String" in ctx.c["rdef"]
    if isinstance(s, E.VecV):
        xs = elems(e, st, s)
        ref = None
    else:
        ref = window(e, st, s)
        xs = elems(e, st, e.slice_seq(st, ref))
    xs = [e.as_int(x) for x in xs]
    if all(not x.t for x in xs):
        raw = bytes(x.k for x in xs)
        try:
            raw.decode()
            good = True
        except UnicodeDecodeError:
            good = False
        cases = [(good, st)]
    elif all(st.facts.rng(x)[1] < 0x80 for x in xs):
        cases = [(True, st)]
        raw = None
    else:
        raise E.Unsupported("UTF-8 of unknown bytes")
    out = []
    for good, s0 in cases:
        if m == "from_utf8_lossy":
            if good and ref is not None:
                v = E.Agg(0, (ref,))
            else:
                v = E.Agg(1, (rope.make(e, rope.text(raw.decode("utf-8", "replace"))),))
        else:
            if not good:
                out.append((err(e.fresh(ctx.rty.ga[1], "utf8")), s0))
                continue
            v = rope.make(e, [("b", x) for x in xs]) if owned else ref
            v = v if m.endswith("unchecked") else ok(v)
        out.append((v, s0))
    return out


@rx(r"^core::char::methods::<impl char>::(from_digit)$", r"^core::char::convert::from_digit$")
def _from_digit(ctx, st, d, radix):
    e = ctx.e
    d, radix = e.as_int(d), e.as_int(radix)
    if radix.t:
        raise _E().Unsupported("radix")
    k = radix.k
    out = []
    a, b = split(e, st, T.le(T.addk(d, 1 - k)))
    if a is not None:
        out.append((some(T.table(tuple(b"0123456789abcdefghijklmnopqrstuvwxyz"[:k]), d) if d.t else T.const(b"0123456789abcdefghijklmnopqrstuvwxyz"[d.k])), a))
    if b is not None:
        out.append((none(), b))
    return out


@rx(r"^core::char::methods::<impl char>::(len_utf8|len_utf16)$")
def _len_utf(ctx, st, c):
    e = ctx.e
    c = e.as_int(c)
    out = []
    lims = [(0x7f, 1), (0x7ff, 2), (0xffff, 3), (0x10ffff, 4)] if ctx.c["rdef"].endswith("8") else [(0xffff, 1), (0x10ffff, 2)]
    for hi, n in lims:
        if st is None:
            break
        a, st = split(e, st, T.le(T.addk(c, -hi)))
        if a is not None:
            out.append((T.const(n), a))
    return out


@rx(r"^core::char::methods::<impl char>::encode_utf8$")
def _encode_utf8(ctx, st, c, buf):
    e = ctx.e
    E = _E()
    c = e.as_int(c)
    g = rope.char_seg(st, c)
    if g is None or isinstance(g, tuple) and g[0] != "b":
        raise E.Unsupported("UTF-8 of an unknown character")
    xs = [x[1] for x in (g if isinstance(g, list) else [g])]
    w = window(e, st, buf)
    st = require(ctx, st, T.le(T.sub(T.const(len(xs)), w.m[2])), "index", "buffer of encode_utf8")
    if st is None:
        return []
    st = st.copy()
    write_window(e, st, w, T.ZERO, T.const(len(xs)), E.Arr(xs), T.ZERO)
    return [(sub_window(w, T.ZERO, T.const(len(xs))), st)]


@rx(r"^core::str::<impl str>::parse(::<.*>)?$", r"^core::num::<impl core::str::traits::FromStr for [ui]\w+>::from_str$",
    r"^core::num::<impl [ui](8|16|32|64|128|size)>::from_str_radix$")
def _parse(ctx, st, s, radix=None):
    e = ctx.e
    E = _E()
    if ctx.rty.k != "adt" or ctx.rty.p != "core::result::Result" or ctx.rty.ga[0].k != "int":
        return NotImplemented
    ty = ctx.rty.ga[0]
    rd = 10 if radix is None else e.as_int(radix)
    if radix is not None:
        if rd.t:
            raise E.Unsupported("radix")
        rd = rd.k
    try:
        segs = rope.of_val(e, st, s)
    except E.Unsupported:
        segs = None
    if segs is not None and all(g[0] == "b" and not g[1].t for g in segs):
        raw = bytes(g[1].k for g in segs).decode("latin-1")
        if re.fullmatch(r"\+?[0-9a-zA-Z]+|-[0-9a-zA-Z]+", raw) and (ty.sg or raw[0] != "-"):
            try:
                v = int(raw, rd)
                if ty.rng[0] <= v <= ty.rng[1]:
                    return ok(T.const(v))
            except ValueError:
                pass
        return err(e.fresh(ctx.rty.ga[1], "parse"))
    if segs is not None and rd == 10 and segs and all(g[0] == "b" for g in segs) and len(segs) <= 19 and ty.w >= 64:
        # digits known to be digits
        if all(st.facts.rng(g[1])[0] >= 48 and st.facts.rng(g[1])[1] <= 57 for g in segs):
            v = T.ZERO
            for g in segs:
                v = T.add(T.scale(v, 10), T.addk(g[1], -48))
            return ok(v)
    if radix is not None and not ty.sg:
        return _m._from_str_radix(ctx, st, s, radix)
    e.note_unsupported("parse of an unknown text")
    return [(ok(e.fresh(ty, "parse")), st), (err(e.fresh(ctx.rty.ga[1], "parse")), st)]


_m.REGEX[:] = [(p, f) for p, f in _m.REGEX if f is not _m._from_str_radix]


# ------------------------------------------------------------------ writing text to a String

@rx(r"^<alloc::string::String as core::fmt::Write>::(write_str|write_char|write_fmt)$", r"^core::fmt::Write::(write_fmt|write_str|write_char)$",
    r"^<.* as core::fmt::Write>::write_fmt$")
def _string_write(ctx, st, r, x):
    e = ctx.e
    E = _E()
    f = _m.ours(ctx, st, (r, x))
    if f is not None:
        return f
    m = ctx.c["rdef"].rsplit("::", 1)[1]
    if m == "write_fmt":
        try:
            segs = rope.format_args(e, st, x)
        except (E.Unsupported, AttributeError):
            segs = None
        e.fmts.setdefault("write", []).append((ctx.fr.fn.def_, segs, st))
    t = ctx.atys[0]
    while t is not None and t.k == "ref":
        t = t.t
    if t is None or t.k != "adt" or t.p != "alloc::string::String":
        return NotImplemented
    q = e.deref_val(st, r)
    while True:
        v = e.load(st, q.o, q.p)
        if not isinstance(v, E.Ref):
            break
        q = v
    q, v = vec_of(e, st, q)
    out = []
    for y, s in (expand_args(ctx, st, x) if m == "write_fmt" else [(x, st)]):
        if m == "write_fmt":
            segs = rope.format_args(e, s, y)
        else:
            segs = text_items(e, s, [y])
        if segs is None:
            raise E.Unsupported("unknown format")
        s = s.copy()
        e.store(s, q.o, q.p, rope.make(e, rope.of_seq(e, s, v.s) + segs))
        out.append((ok(unit()), s))
    return out


@rx(r"^core::fmt::rt::Argument::<.*>::from_usize$")
def _from_usize(ctx, st, r):
    return _E().Agg(("fmtarg", "usize", ctx.atys[0]), (r,))


# ------------------------------------------------------------------ integers

@rx(r"^core::intrinsics::bitreverse$")
def _bitreverse(ctx, st, a):
    e = ctx.e
    t = ctx.rty
    u = e.unsigned(st, e.as_int(a), ctx.atys[0])
    v = T.ZERO
    for i in range(t.w):
        v = T.add(v, T.scale(T.bits(u, i, 1), 1 << (t.w - 1 - i)))
    return T.wrap_s(v, t.w) if t.sg else v


@rx(r"^core::num::<impl u\w+>::(ilog2|checked_ilog2)$")
def _ilog2(ctx, st, a):
    e = ctx.e
    a = e.as_int(a)
    chk = ctx.c["rdef"].endswith("checked_ilog2")
    out = []
    z, st = split(e, st, T.eq(a))
    if z is not None:
        if chk:
            out.append((none(), z))
        else:
            panic(ctx, z, "arith", "ilog2 of zero")
    k = 0
    while st is not None and k < ctx.atys[0].w:
        s, st = split(e, st, T.le(T.addk(a, 1 - (1 << (k + 1)))))
        if s is not None:
            out.append((some(T.const(k)) if chk else T.const(k), s))
        k += 1
    return out


@rx(r"^core::intrinsics::exact_div$")
def _exact_div(ctx, st, a, b):
    e = ctx.e
    a, b = e.as_int(a), e.as_int(b)
    if b.t or b.k == 0:
        raise _E().Unsupported("exact division")
    return T.fdiv(a, b.k, st.facts.rng(a))


# ------------------------------------------------------------------ cells and pointers

@rx(r"^core::cell::(Cell|RefCell|UnsafeCell)::<.*>::new$")
def _cell_new(ctx, st, x):
    return _E().Agg(0, (x,))


def _inside(e, st, r):
    E = _E()
    r = e.deref_val(st, r)
    x = e.load(st, r.o, r.p)
    if not (isinstance(x, E.Agg) and len(x.f) == 1):
        raise E.Unsupported("cell of unknown content")
    return E.Ref(r.o, r.p + (("f", 0),)), x.f[0]


@rx(r"^core::cell::Cell::<.*>::(get|set|replace|take)$")
def _cell(ctx, st, r, *a):
    e = ctx.e
    q, x = _inside(e, st, r)
    m = ctx.c["rdef"].rsplit("::", 1)[1]
    if m == "get":
        return x
    if m == "take":
        return NotImplemented
    st = st.copy()
    e.store(st, q.o, q.p, a[0])
    return [(unit() if m == "set" else x, st)]


@rx(r"^core::cell::RefCell::<.*>::(borrow|borrow_mut)$")
def _borrow(ctx, st, r):
    q, _ = _inside(ctx.e, st, r)
    return _E().Agg(("cellguard",), (q,))


@rx(r"^<core::cell::(Ref|RefMut)<.*> as core::ops::deref::(Deref|DerefMut)>::(deref|deref_mut)$")
def _cell_deref(ctx, st, r):
    e = ctx.e
    q = e.deref_val(st, r)
    x = e.load(st, q.o, q.p)
    if not (isinstance(x, _E().Agg) and x.v == ("cellguard",)):
        raise _E().Unsupported("guard of a cell")
    return x.f[0]


@rx(r"^<alloc::borrow::Cow<.*> as core::ops::deref::Deref>::deref$", r"^<alloc::borrow::Cow<.*> as core::convert::AsRef<.*>>::as_ref$")
def _cow_deref(ctx, st, r):
    e = ctx.e
    E = _E()
    q = e.deref_val(st, r)
    x = e.load(st, q.o, q.p)
    if not isinstance(x, E.Agg):
        raise E.Unsupported("unknown Cow")
    if x.v == 0:
        return x.f[0]
    inner = E.Ref(q.o, q.p + (("v", 1), ("f", 0)))
    if isinstance(x.f[0], E.VecV):
        return window(e, st, inner)
    return inner


@rx(r"^alloc::borrow::Cow::<.*>::into_owned$")
def _cow_owned(ctx, st, x):
    e = ctx.e
    E = _E()
    if not isinstance(x, E.Agg):
        raise E.Unsupported("unknown Cow")
    if x.v == 1:
        return x.f[0]
    if ctx.rty.k == "adt" and ctx.rty.p in ("alloc::vec::Vec", "alloc::string::String"):
        return E.VecV(e.slice_seq(st, window(e, st, x.f[0])))
    raise E.Unsupported("unknown Cow")


@rx(r"^alloc::(vec::cow|string)::<impl core::convert::From<.*> for alloc::borrow::Cow<.*>>::from$",
    r"^<alloc::borrow::Cow<.*> as core::convert::From<.*>>::from$")
def _cow_from(ctx, st, x):
    E = _E()
    return E.Agg(1, (x,)) if isinstance(x, E.VecV) else E.Agg(0, (x,))


@rx(r"^<alloc::boxed::Box<.*> as core::ops::function::(Fn|FnMut|FnOnce)<.*>>::(call|call_mut|call_once)$")
def _box_call(ctx, st, f, args):
    e = ctx.e
    E = _E()
    q = f
    for _ in range(4):
        if isinstance(q, E.Agg) and isinstance(q.v, tuple) and q.v[0] == "cl" or isinstance(q, E.FnV):
            break
        if not isinstance(q, E.Ref):
            raise E.Unsupported("call of an unknown box")
        nx = e.load(st, q.o, q.p)
        if isinstance(nx, E.Agg) and isinstance(nx.v, tuple) and nx.v[0] == "cl":
            q = E.Ref(q.o, q.p)
            break
        q = nx
    return [(v, s) for v, s, _ in apply_fn(ctx, st, q, list(args.f))]


@rx(r"^core::str::<impl str>::(as_str)$", r"^alloc::string::String::(as_mut_str)$")
def _as_str(ctx, st, s):
    return window(ctx.e, st, s)


@rx(r"^core::slice::<impl \[.*\]>::(as_chunks|as_rchunks)(::<.*>)?$")
def _as_chunks(ctx, st, s):
    e = ctx.e
    E = _E()
    if "as_rchunks" in ctx.c["rdef"]:
        return NotImplemented
    k = ctx.rty.ts[0].t.t.n
    w = window(e, st, s)
    n = w.m[2]
    if n.t or n.k > 1024:
        raise E.Unsupported("chunks of a slice of unknown length")
    m = n.k // k
    st = st.copy()
    o = e.heap(st, ctx.fr, ctx.b)
    st.mem[o] = E.Arr([E.Arr([win_get(e, st, w, T.const(i * k + j)) for j in range(k)]) for i in range(m)])
    return [(tup(E.Ref(o, (), ("s", T.ZERO, T.const(m))), sub_window(w, T.const(m * k), T.const(n.k - m * k))), st)]
