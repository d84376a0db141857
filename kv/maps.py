"""Abstract semantics of hash maps, ordered maps and sets with a known number of entries, and of comparisons of shared values.

A map is Agg("map", entries), an entry Agg(0, (key, value)) in the order of insertion; a set holds keys in the same way.
The order in which a hash map or set yields its entries is the engine's map_order ("in" or "rev"): a check that depends on it runs both.
"""
import re

from . import models as M
from . import terms as T
from .models import rx, none, some, tup, unit

HASH = r"std::collections::hash::(?:map|set)::Hash(?:Map|Set)"
TREE = r"alloc::collections::btree::(?:map|set)::BTree(?:Map|Set)"
ANY = rf"(?:{HASH}|{TREE})"
M.NATIVE |= set(M.MAP_ITERS)


def _E():
    return M._E()


def the_map(e, st, r):
    """(reference to the map, its entries)"""
    E = _E()
    r = e.deref_val(st, r)
    v = e.load(st, r.o, r.p)
    for _ in range(3):
        if not isinstance(v, E.Ref):
            break
        r = v
        v = e.load(st, r.o, r.p)
    if not (isinstance(v, E.Agg) and v.v == "map"):
        raise E.Unsupported("a map of unknown content")
    return r, v.f


def key_of(e, st, k, t):
    """the key behind a reference of type t"""
    E = _E()
    k, t = M._deref_all(e, st, k, t)
    return k


def plain(e, st, k):
    E = _E()
    for _ in range(4):
        if isinstance(k, E.Ref) and not k.m:
            k = e.load(st, k.o, k.p)
        else:
            break
    return k


def key_eq(e, st, a, b):
    """condition that two keys are the same"""
    E = _E()
    a, b = plain(e, st, a), plain(e, st, b)
    if isinstance(a, T.Lin) or isinstance(b, T.Lin):
        return T.eq(T.sub(e.as_int(a), e.as_int(b)))
    if isinstance(a, (E.VecV, E.Arr, E.SArr)) or isinstance(a, E.Ref) or isinstance(b, E.Ref):
        return M.seq_eq(e, st, a, b)
    if isinstance(a, E.Agg) and isinstance(b, E.Agg):
        if a.v != b.v:
            return T.FALSE
        c = T.TRUE
        for x, y in zip(a.f, b.f):
            c = T.b_and(c, key_eq(e, st, x, y))
        return c
    if isinstance(a, T.B) and isinstance(b, T.B):
        return T.b_or(T.b_and(a, b), T.b_and(T.b_not(a), T.b_not(b)))
    raise E.Unsupported("comparison of keys")


def find(e, st, entries, k):
    """the places a key may be at: [(index or None, state)]"""
    out = []
    for i, x in enumerate(entries):
        c = key_eq(e, st, x.f[0], k)
        t = st.facts.truth(c)
        if t is False:
            continue
        if t is True:
            return out + [(i, st)]
        a, b = M.split(e, st, c)
        if a is not None:
            out.append((i, a))
        if b is None:
            return out
        st = b
    return out + [(None, st)]


def op(ctx):
    """name of the operation"""
    m = re.search(r">::(\w+)(?:::<.*)?$", ctx.c["rdef"])
    return m.group(1)


def guarded(f):
    def g(ctx, st, *a):
        try:
            return f(ctx, st, *a)
        except _E().Unsupported:
            return NotImplemented
    return g


@rx(rf"^{ANY}::<.*>::(new|with_capacity)$", rf"^<{ANY}<.*> as core::default::Default>::default$")
def _new(ctx, st, *a):
    return _E().Agg("map", ())


@rx(rf"^{ANY}::<.*>::(len|is_empty)$")
@guarded
def _len(ctx, st, r):
    _, es = the_map(ctx.e, st, r)
    if op(ctx) == "len":
        return T.const(len(es))
    return T.FALSE if es else T.TRUE


@rx(rf"^{ANY}::<.*>::(clear|reserve|shrink_to_fit)$")
@guarded
def _clear(ctx, st, r, *a):
    E = _E()
    if op(ctx) != "clear":
        return unit()
    r, es = the_map(ctx.e, st, r)
    st = st.copy()
    ctx.e.store(st, r.o, r.p, E.Agg("map", ()))
    return [(unit(), st)]


@rx(rf"^{ANY}::<.*>::insert$")
@guarded
def _insert(ctx, st, r, k, *v):
    e = ctx.e
    E = _E()
    r, es = the_map(e, st, r)
    out = []
    for i, s in find(e, st, es, k):
        s = s.copy()
        if i is None:
            e.store(s, r.o, r.p, E.Agg("map", es + (E.Agg(0, (k,) + (v or (unit(),))),)))
            out.append((none() if v else T.TRUE, s))
        else:
            if v:
                e.store(s, r.o, r.p, E.Agg("map", es[:i] + (E.Agg(0, (es[i].f[0], v[0])),) + es[i + 1:]))
            out.append((some(es[i].f[1]) if v else T.FALSE, s))
    return out


@rx(rf"^{ANY}::<.*>::(get|get_mut|contains_key|contains|get_key_value|remove|remove_entry|take)(::<.*>)?$", rf"^<{ANY}<.*> as core::ops::index::Index<.*>>::index$")
@guarded
def _get(ctx, st, r, k):
    e = ctx.e
    E = _E()
    o = op(ctx)
    is_set = "Set" in ctx.c["rdef"].split("::<")[0].split("<")[0] if not ctx.c["rdef"].startswith("<") else "Set<" in ctx.c["rdef"]
    r, es = the_map(e, st, r)
    k = key_of(e, st, k, ctx.atys[1])
    out = []
    for i, s in find(e, st, es, k):
        at = lambda j: E.Ref(r.o, r.p + (("f", i), ("f", j)))
        if o in ("contains_key", "contains"):
            v = T.FALSE if i is None else T.TRUE
        elif o == "index":
            if i is None:
                M.panic(ctx, s, "index", "no such key")
                continue
            v = at(1)
        elif i is None:
            v = T.FALSE if is_set and o == "remove" else none()
        elif o in ("remove", "take", "remove_entry"):
            s = s.copy()
            e.store(s, r.o, r.p, E.Agg("map", es[:i] + es[i + 1:]))
            v = (T.TRUE if o == "remove" else some(es[i].f[0])) if is_set else some(es[i] if o == "remove_entry" else es[i].f[1])
        elif o == "get_key_value":
            v = some(tup(at(0), at(1)))
        else:
            v = some(at(0 if is_set else 1))
        out.append((v, s))
    return out


def order(ctx, st, es, hashed):
    """indices of the entries in the order in which they are yielded"""
    e = ctx.e
    E = _E()
    ix = list(range(len(es)))
    if hashed:
        return ix[::-1] if getattr(e, "map_order", "in") == "rev" else ix
    ks = []
    for x in es:
        k = plain(e, st, x.f[0])
        if isinstance(k, T.Lin) and not k.t:
            ks.append(k.k)
        elif isinstance(k, (E.VecV, E.Arr)) and not e.seq_len(k).t:
            q = [e.as_int(y) for y in (k.s if isinstance(k, E.VecV) else k).e]
            if any(y.t for y in q):
                raise E.Unsupported("order of unknown keys")
            ks.append([y.k for y in q])
        elif len(es) > 1:
            raise E.Unsupported("order of unknown keys")
        else:
            ks.append(0)
    return sorted(ix, key=lambda i: ks[i])


def listed(ctx, st, r, es, kind, hashed, owned=False):
    """an iterator over the entries"""
    E = _E()
    out = []
    for i in order(ctx, st, es, hashed):
        at = lambda j: es[i].f[j] if owned else E.Ref(r.o, r.p + (("f", i), ("f", j)))
        out.append(at(0) if kind == "keys" else at(1) if kind == "values" else tup(at(0), at(1)))
    st = st.copy()
    o = M.seq_to_ref(ctx, st, E.Arr(out))
    return [(E.Agg(0, (E.Ref(o.o, o.p, ("s", T.ZERO, T.const(len(out)))),)), st)]


@rx(rf"^{ANY}::<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values)$")
@guarded
def _iter(ctx, st, r):
    o = op(ctx)
    d = ctx.c["rdef"].split("<")[0]
    kind = "keys" if o.endswith("keys") or "Set" in d else "values" if "values" in o else "items"
    if o.startswith("into"):
        return listed(ctx, st, None, r.f, kind, "hash" in d, True)
    r, es = the_map(ctx.e, st, r)
    return listed(ctx, st, r, es, kind, "hash" in d)


def into_iter(ctx, st, x, t):
    """IntoIterator for a map, a set or a reference to one; None: something else"""
    E = _E()
    u = t.t if t.k == "ref" else t
    if u is None or u.k != "adt" or not u.p.startswith(("std::collections::hash::", "alloc::collections::btree::")) or not u.p.endswith(("Map", "Set")):
        return None
    kind = "keys" if u.p.endswith("Set") else "items"
    if t.k == "ref":
        r, es = the_map(ctx.e, st, x)
        return listed(ctx, st, r, es, kind, "hash" in u.p)
    if not (isinstance(x, E.Agg) and x.v == "map"):
        return None
    return listed(ctx, st, None, x.f, kind, "hash" in u.p, True)


@rx(rf"^alloc::collections::btree::map::BTreeMap::<.*>::(first_key_value|last_key_value)$", rf"^alloc::collections::btree::set::BTreeSet::<.*>::(first|last)$")
@guarded
def _first(ctx, st, r):
    E = _E()
    o = op(ctx)
    r, es = the_map(ctx.e, st, r)
    if not es:
        return none()
    i = order(ctx, st, es, False)[0 if o.startswith("first") else -1]
    at = lambda j: E.Ref(r.o, r.p + (("f", i), ("f", j)))
    return some(at(0) if o in ("first", "last") else tup(at(0), at(1)))


# entries

ENTRY = r"(?:std::collections::hash::map::Entry|alloc::collections::btree::map::entry::Entry)"


@rx(rf"^{ANY}::<.*>::entry$")
@guarded
def _entry(ctx, st, r, k):
    E = _E()
    r, es = the_map(ctx.e, st, r)
    return [(E.Agg("entry", (r, T.const(-1 if i is None else i), k)), s) for i, s in find(ctx.e, st, es, k)]


@rx(rf"^{ENTRY}::<.*>::(or_insert|or_insert_with|or_default|and_modify)(::<.*>)?$")
@guarded
def _or_insert(ctx, st, en, *a):
    e = ctx.e
    E = _E()
    o = op(ctx)
    if not (isinstance(en, E.Agg) and en.v == "entry"):
        return NotImplemented
    r, i, k = en.f
    i = i.k
    _, es = the_map(e, st, r)
    at = lambda j: E.Ref(r.o, r.p + (("f", j), ("f", 1)))
    if o == "and_modify":
        if i < 0:
            return en
        return [(en, s) for _, s, _ in M.apply_fn(ctx, st, a[0], [at(i)])]
    if i >= 0:
        return at(i)
    if o == "or_insert":
        vs = [(a[0], st)]
    elif o == "or_insert_with":
        vs = [(v, s) for v, s, _ in M.apply_fn(ctx, st, a[0], [])]
    else:
        t = ctx.rty.t
        if t.k == "int":
            vs = [(T.ZERO, st)]
        elif t.k == "adt" and t.p in ("alloc::vec::Vec", "alloc::string::String"):
            vs = [(E.VecV(E.Arr(())), st)]
        else:
            return NotImplemented
    out = []
    for v, s in vs:
        s = s.copy()
        e.store(s, r.o, r.p, E.Agg("map", es + (E.Agg(0, (k, v)),)))
        out.append((at(len(es)), s))
    return out


# comparisons of shared values

def strip(e, st, v, t):
    """the value behind references, boxes and shared pointers"""
    E = _E()
    for _ in range(8):
        if t.k == "ref":
            if not isinstance(v, E.Ref) or v.m:
                break
            v, t = e.load(st, v.o, v.p), t.t
        elif t.k == "adt" and t.p in ("alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "alloc::rc::Rc", "alloc::boxed::Box"):
            if isinstance(v, E.Sym):
                v = M.pointee(e, v)
            if not isinstance(v, E.Ref):
                break
            if v.m:
                break
            v, t = e.load(st, v.o, v.p), t.ga[0]
        else:
            break
    return v, t


def value_eq(ctx, st, a, b, t):
    """[(condition, state)] of equality of two values of type t, None if not modelled"""
    e = ctx.e
    E = _E()
    a, ta = strip(e, st, a, t)
    b, tb = strip(e, st, b, t)
    if ta.k in ("int", "char"):
        return [(T.eq(T.sub(e.as_int(a), e.as_int(b))), st)]
    if M._is_seqty(ta) and (ta.p if ta.k == "adt" else None) in (None, "alloc::string::String"):
        return [(M.seq_eq(e, st, a, b), st)]
    if ta.k == "adt" and ta.p.startswith(("keramics", "kv")):
        key = e.prog.vt.get(("core::cmp::PartialEq::eq", ta.s)) or e._vt_lookup("core::cmp::PartialEq::eq", ta.s)
        fn = e.prog.fn(key) if key else None
        if fn is None:
            return None
        st = st.copy()
        ra = M.seq_to_ref(ctx, st, a)
        rb = M.seq_to_ref(ctx, st, b)
        if rb.o == ra.o:
            return None
        return [(e.as_bool(v), s) for v, s in e.exec_fn(fn, [ra, rb], st, ctx.b)]
    return None


@rx(r"^<alloc::(rcs::(arc::Arc|rc::Rc)|sync::Arc|rc::Rc|boxed::Box)<.*> as core::cmp::PartialEq(<.*>)?>::(eq|ne)$")
@guarded
def _shared_eq(ctx, st, a, b):
    t = ctx.atys[0].t
    r = value_eq(ctx, st, ctx.e.load(st, a.o, a.p), ctx.e.load(st, b.o, b.p), t)
    if r is None:
        return NotImplemented
    ne = ctx.c["rdef"].endswith("ne")
    return [(T.b_not(c) if ne else c, s) for c, s in r]


@rx(r"^alloc::(rcs::(arc::Arc|rc::Rc)|sync::Arc|rc::Rc)::<.*>::ptr_eq$")
@guarded
def _ptr_eq(ctx, st, a, b):
    E = _E()
    x, y = ctx.e.load(st, a.o, a.p), ctx.e.load(st, b.o, b.p)
    if isinstance(x, E.Ref) and isinstance(y, E.Ref):
        return T.TRUE if (x.o, x.p) == (y.o, y.p) else T.FALSE
    return NotImplemented


def contains(ctx, st, s, x):
    """slice::contains for elements with an equality of their own"""
    e = ctx.e
    r = M.window(e, st, s)
    n = r.m[2]
    if n.t or n.k > 256:
        return NotImplemented
    y = e.load(st, x.o, x.p)
    t = ctx.atys[1].t
    out = []
    cur = [st]
    for j in range(n.k):
        nx = []
        for s0 in cur:
            v = M.win_get(e, s0, r, T.const(j))
            q = value_eq(ctx, s0, v, y, t)
            if q is None:
                return NotImplemented
            for c, s1 in q:
                p, o = M.split(e, s1, c)
                if p is not None:
                    out.append((T.TRUE, p))
                if o is not None:
                    nx.append(o)
        cur = nx
    return out + [(T.FALSE, s0) for s0 in cur]
