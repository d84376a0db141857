"""Numeric terms: exact integer linear forms over interned atoms, with bit-slice,
bitwise, division and table-lookup atoms in canonical form.

Every Lin denotes one mathematical integer; wrapping is explicit (a bit slice), so equality of
Lins is equality of the values for every valuation of the atoms.
"""
from math import gcd

INF = 1 << 200


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "mask", "deps")

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_atoms = {}
_next = [0]


def atom(kind, args, lo, hi, mask=None):
    key = (kind, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = _next[0]
    _next[0] += 1
    a.kind = kind
    a.args = args
    a.lo = lo
    a.hi = hi
    if mask is None:
        mask = (1 << hi.bit_length()) - 1 if lo >= 0 else -1
    a.mask = mask
    a.deps = None
    _atoms[key] = a
    return a


def reset():
    _atoms.clear()
    _lins.clear()


class Lin:
    """k + sum(coef * atom)"""
    __slots__ = ("k", "t", "h", "rng", "_m")

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Lin) and self.h == o.h and self.k == o.k and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return show(self)

    @property
    def const(self):
        return self.k if not self.t else None

    def is_const(self):
        return not self.t

    def single(self):
        """the atom when this Lin is exactly one atom with coefficient 1"""
        if self.k == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def atoms(self):
        return [a for a, _ in self.t]


_lins = {}


def mk(k, t):
    key = (k, t)
    l = _lins.get(key)
    if l is not None:
        return l
    l = Lin()
    l.k = k
    l.t = t
    l.h = hash((k, tuple((a.id, c) for a, c in t)))
    lo = hi = k
    for a, c in t:
        if c > 0:
            lo += c * a.lo
            hi += c * a.hi
        else:
            lo += c * a.hi
            hi += c * a.lo
    l.rng = (lo, hi)
    l._m = None
    _lins[key] = l
    return l


def const(v):
    return mk(v, ())


ZERO = const(0)
ONE = const(1)


def of(a):
    return mk(0, ((a, 1),))


def sym(name, lo, hi):
    return of(atom("sym", (name,), lo, hi))


def lin_sum(k, items):
    d = {}
    for a, c in items:
        d[a] = d.get(a, 0) + c
    return mk(k, tuple(sorted(((a, c) for a, c in d.items() if c), key=lambda x: x[0].id)))


def add(a, b):
    if not a.t:
        if a.k == 0:
            return b
        return mk(a.k + b.k, b.t)
    if not b.t:
        if b.k == 0:
            return a
        return mk(a.k + b.k, a.t)
    return lin_sum(a.k + b.k, list(a.t) + list(b.t))


def scale(a, c):
    if c == 1:
        return a
    if c == 0:
        return ZERO
    return mk(a.k * c, tuple((x, y * c) for x, y in a.t))


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def addk(a, k):
    return mk(a.k + k, a.t) if k else a


def mask_of(l):
    """bits that may be set (None: unknown / negative / not disjoint)"""
    if l._m is not None:
        return l._m if l._m >= 0 else None
    m = -1
    if not l.t:
        m = l.k if l.k >= 0 else -1
    elif l.k >= 0:
        acc = l.k
        ok = True
        for a, c in l.t:
            if c <= 0 or a.lo < 0 or c & (c - 1):
                ok = False
                break
            am = a.mask * c
            if am & acc:
                ok = False
                break
            acc |= am
        m = acc if ok else -1
    if m < 0 and l.rng[0] >= 0 and l.rng[1] < INF:
        # fall back to the range, keeping common trailing zeros
        g = l.k
        for a, c in l.t:
            tzm = (a.mask & -a.mask) if a.mask > 0 else 1
            g = gcd(g, c * tzm)
        tz = (g & -g) if g else 1
        m = ((1 << l.rng[1].bit_length()) - 1) & ~(tz - 1)
        if m < 0:
            m = 0
    l._m = m
    return m if m >= 0 else None


def disjoint_parts(l):
    """list of (shift, Lin>=0 piece, mask) when l is a sum of bit-disjoint pieces"""
    if l.k < 0:
        return None
    acc = l.k
    for a, c in l.t:
        if c <= 0 or a.lo < 0:
            return None
        am = None
        if c & (c - 1) == 0:
            am = a.mask * c
        else:
            return None
        if am & acc:
            return None
        acc |= am
    return acc


FLATTEN = True      # nested reductions modulo powers of two collapse to the outermost one


def _reduce_mod(l, n):
    """l modulo 2^n as a Lin with reduced coefficients, flattening nested mod-2^m slices, m>=n."""
    M = 1 << n
    todo = [(a, c) for a, c in l.t]
    k = l.k
    d = {}
    while todo:
        a, c = todo.pop()
        c %= M
        if c == 0:
            continue
        if FLATTEN and a.kind == "bits" and a.args[1] == 0:
            # c * (t mod 2^m) == c*t (mod 2^n) when c*2^m is a multiple of 2^n
            m = a.args[2]
            if (c << m) % M == 0:
                t = a.args[0]
                k += c * t.k
                for b, e in t.t:
                    todo.append((b, c * e))
                continue
        d[a] = d.get(a, 0) + c
    return mk(k % M, tuple(sorted(((a, c % M) for a, c in d.items() if c % M), key=lambda x: x[0].id)))


def bits(t, lo, n, rng=None):
    """floor(t / 2^lo) mod 2^n"""
    if n <= 0:
        return ZERO
    if not t.t:
        return const((t.k >> lo) & ((1 << n) - 1))
    r = t.rng
    if rng is not None:
        r = (max(r[0], rng[0]), min(r[1], rng[1]))
    if lo == 0 and r[0] >= 0 and r[1] < (1 << n):
        return t
    if r[0] >= 0 and r[1] < (1 << lo):
        return ZERO
    if -INF < r[0] and r[1] < INF:
        if r[0] >> lo == r[1] >> lo:
            return const((r[0] >> lo) & ((1 << n) - 1))
        if lo == 0 and r[0] >> n == r[1] >> n:
            return addk(t, -((r[0] >> n) << n))
    if r[0] >= 0 and r[1] < (1 << (lo + n)):
        # the slice reaches the top of the value: no reduction needed
        n = min(n, max(r[1].bit_length() - lo, 1))
        t2 = t
    else:
        t2 = _reduce_mod(t, lo + n)
        if t2 is not t:
            return bits(t2, lo, n) if t2 != t else _bits_core(t, lo, n)
    return _bits_core(t2, lo, n)


def _bits_core(t, lo, n):
    if not t.t:
        return const((t.k >> lo) & ((1 << n) - 1))
    # common power of two
    g = t.k
    for _, c in t.t:
        g = gcd(g, c)
    g2 = (g & -g).bit_length() - 1
    if g2 > 0:
        t = mk(t.k >> g2, tuple((a, c >> g2) for a, c in t.t))
        if lo >= g2:
            return bits(t, lo - g2, n)
        return scale(bits(t, 0, n - (g2 - lo)), 1 << (g2 - lo))
    a = t.single()
    if a is not None:
        if a.kind == "bits":
            bt, bl, bn = a.args
            if bn <= lo:
                return ZERO
            nn = min(n, bn - lo)
            if lo == 0 and nn == bn:
                return t
            return bits(bt, bl + lo, nn)
        if a.kind == "bw":
            w, bases, tt = a.args
            if lo >= w:
                return ZERO
            nn = min(n, w - lo)
            if len(bases) > 2:
                # no distribution over wide functions: it fragments every operand
                return a_bits(t, lo, nn)
            return bw_make(nn, tt, [bits(b, lo, nn) for b in bases])
        if a.kind == "ite":
            c, x, y = a.args
            return ite(c, bits(x, lo, n), bits(y, lo, n))
    # split t = L + 2^s * H with 0 <= L < 2^s
    if t.k >= 0 and all(c > 0 for _, c in t.t) and all(x.lo >= 0 for x, _ in t.t):
        cuts = sorted({(c & -c).bit_length() - 1 for _, c in t.t} | ({(t.k & -t.k).bit_length() - 1} if t.k else set()))
        for s in reversed(cuts):
            if s == 0:
                continue
            if s >= lo + n:
                continue
            M = 1 << s
            L = mk(t.k % M, tuple((x, c) for x, c in t.t if c % M))
            if L.rng[1] < M:
                H = mk(t.k >> s, tuple((x, c >> s) for x, c in t.t if c % M == 0))
                if s <= lo:
                    return bits(H, lo - s, n)
                low = bits(L, lo, s - lo)
                high = bits(H, 0, lo + n - s)
                return add(low, scale(high, 1 << (s - lo)))
    return a_bits(t, lo, n)


def a_bits(t, lo, n):
    hi = (1 << n) - 1
    if t.rng[0] >= 0:
        hi = min(hi, t.rng[1] >> lo)
    m = mask_of(t)
    mask = (1 << hi.bit_length()) - 1
    if m is not None:
        mask &= m >> lo
    return of(atom("bits", (t, lo, n), 0, hi, mask))


def wrap_u(t, w, rng=None):
    return bits(t, 0, w, rng)


def wrap_s(t, w, rng=None):
    r = t.rng if rng is None else (max(t.rng[0], rng[0]), min(t.rng[1], rng[1]))
    if r[0] >= -(1 << (w - 1)) and r[1] < (1 << (w - 1)):
        return t
    return sub(bits(t, 0, w), scale(bits(t, w - 1, 1), 1 << w))


# ------------------------------------------------------------------ bitwise

def _literal(l, w):
    """(base Lin, negated) -- recognise 2^w-1 - x"""
    M = (1 << w) - 1
    if l.t and l.t[0][1] < 0:
        c = sub(const(M), l)
        if c.rng[0] >= 0 and c.rng[1] <= M:
            return c, True
    return l, False


def _expand(l, w):
    """bases, truth table (int over 2^len(bases)) of a w-bit value"""
    if not l.t:
        M = (1 << w) - 1
        if l.k == 0:
            return [], 0
        if l.k == M:
            return [], 1
        return [l], 0b10
    base, n = _literal(l, w)
    a = base.single()
    if a is not None and a.kind == "bw" and a.args[0] == w:
        _, bases, tt = a.args
        if n:
            tt = ~tt & ((1 << (1 << len(bases))) - 1)
        return list(bases), tt
    return [base], (0b01 if n else 0b10)


def _tt_eval(tt, idx):
    return (tt >> idx) & 1


def bw_make(w, tt, bases):
    """canonical bitwise function of bases"""
    # constants and negations among the bases
    M = (1 << w) - 1
    changed = True
    bases = list(bases)
    while changed:
        changed = False
        for i, b in enumerate(bases):
            if not b.t and b.k in (0, M):
                v = 0 if b.k == 0 else 1
                tt, bases = _tt_restrict(tt, len(bases), i, v), bases[:i] + bases[i + 1:]
                changed = True
                break
            lit, n = _literal(b, w)
            if n:
                tt = _tt_negate(tt, len(bases), i)
                bases[i] = lit
                changed = True
                break
            for j in range(i):
                if bases[j] == b:
                    tt = _tt_identify(tt, len(bases), j, i)
                    bases = bases[:i] + bases[i + 1:]
                    changed = True
                    break
            if changed:
                break
    # drop irrelevant
    i = 0
    while i < len(bases):
        if _tt_restrict(tt, len(bases), i, 0) == _tt_restrict(tt, len(bases), i, 1):
            tt = _tt_restrict(tt, len(bases), i, 0)
            bases.pop(i)
        else:
            i += 1
    if not bases:
        return const(M if tt & 1 else 0)
    if len(bases) == 1:
        return bases[0] if tt == 0b10 else sub(const(M), bases[0])
    # order
    order = sorted(range(len(bases)), key=lambda i: (bases[i].h, bases[i].k))
    tt = _tt_permute(tt, len(bases), order)
    bases = tuple(bases[i] for i in order)
    if len(bases) == 2:
        ma, mb = mask_of(bases[0]), mask_of(bases[1])
        if ma is not None and mb is not None and ma & mb == 0:
            # disjoint: or/xor is a sum, and is zero
            if tt in (0b1110, 0b0110):
                return add(bases[0], bases[1])
            if tt == 0b1000:
                return ZERO
            if tt == 0b0010:
                return bases[0]
            if tt == 0b0100:
                return bases[1]
    mask = M
    if not tt & 1:
        mm = 0
        for b in bases:
            x = mask_of(b)
            mm |= M if x is None else x
        mask &= mm
    # complement normalisation: keep tt with f(0..0)=0
    if tt & 1:
        full = (1 << (1 << len(bases))) - 1
        return sub(const(M), bw_make(w, ~tt & full, bases))
    return of(atom("bw", (w, bases, tt), 0, mask, mask))


def _tt_restrict(tt, n, i, v):
    r = 0
    o = 0
    for x in range(1 << n):
        if (x >> i) & 1 == v:
            if (tt >> x) & 1:
                r |= 1 << o
            o += 1
    return r


def _tt_negate(tt, n, i):
    r = 0
    for x in range(1 << n):
        if (tt >> (x ^ (1 << i))) & 1:
            r |= 1 << x
    return r


def _tt_identify(tt, n, j, i):
    # set variable i := variable j, remove i (i > j)
    r = 0
    for y in range(1 << (n - 1)):
        lowm = (1 << i) - 1
        x = (y & lowm) | ((y & ~lowm) << 1)
        if (x >> j) & 1:
            x |= 1 << i
        if (tt >> x) & 1:
            r |= 1 << y
    return r


def _tt_permute(tt, n, order):
    r = 0
    for y in range(1 << n):
        x = 0
        for newpos, old in enumerate(order):
            if (y >> newpos) & 1:
                x |= 1 << old
        if (tt >> x) & 1:
            r |= 1 << y
    return r


def _bw2(op, a, b, w):
    ba, ta = _expand(a, w)
    bb, tb = _expand(b, w)
    bases = list(ba)
    pos = []
    for x in bb:
        for i, y in enumerate(bases):
            if y == x:
                pos.append(i)
                break
        else:
            pos.append(len(bases))
            bases.append(x)
    if len(bases) > 6:
        # treat operands as opaque bases
        ba, ta, bb, tb = [a], 0b10, [b], 0b10
        bases, pos = [a, b], [1]
        if a == b:
            bases, pos = [a], [0]
    n = len(bases)
    tt = 0
    for x in range(1 << n):
        va = (ta >> (x & ((1 << len(ba)) - 1))) & 1
        y = 0
        for i, p in enumerate(pos):
            if (x >> p) & 1:
                y |= 1 << i
        vb = (tb >> y) & 1
        v = (va & vb) if op == "and" else (va | vb) if op == "or" else (va ^ vb)
        if v:
            tt |= 1 << x
    return bw_make(w, tt, bases)


def _and_const(a, m, w):
    m &= (1 << w) - 1
    out = ZERO
    s = 0
    while m >> s:
        if not (m >> s) & 1:
            s += 1
            continue
        e = s
        while (m >> e) & 1:
            e += 1
        out = add(out, scale(bits(a, s, e - s), 1 << s))
        s = e
    return out


def and_(a, b, w):
    if not a.t and not b.t:
        return const(a.k & b.k)
    if not a.t:
        a, b = b, a
    if not b.t:
        if bin(b.k & ((1 << w) - 1)).count("1") == 0:
            return ZERO
        return _and_const(a, b.k, w)
    ma, mb = mask_of(a), mask_of(b)
    if ma is not None and mb is not None and ma & mb == 0:
        return ZERO
    return _bw2("and", a, b, w)


def or_(a, b, w):
    if not a.t and not b.t:
        return const(a.k | b.k)
    if not a.t:
        a, b = b, a
    ma, mb = mask_of(a), mask_of(b)
    if ma is not None and mb is not None and ma & mb == 0:
        return add(a, b)
    if not b.t:
        return sub(add(a, b), _and_const(a, b.k, w))
    return _bw2("or", a, b, w)


def xor_(a, b, w):
    if not a.t and not b.t:
        return const(a.k ^ b.k)
    if not a.t:
        a, b = b, a
    if a == b:
        return ZERO
    ma, mb = mask_of(a), mask_of(b)
    if ma is not None and mb is not None and ma & mb == 0:
        return add(a, b)
    if not b.t:
        if b.k == (1 << w) - 1:
            return sub(b, a)
        return sub(add(a, b), scale(_and_const(a, b.k, w), 2))
    return _bw2("xor", a, b, w)


def not_(a, w):
    return sub(const((1 << w) - 1), a)


def shl(a, n, w):
    return bits(scale(a, 1 << n), 0, w)


def rotl(a, r, w):
    r %= w
    if r == 0:
        return a
    return add(scale(bits(a, 0, w - r), 1 << r), bits(a, w - r, r))


def fdiv(t, d, rng=None):
    """floor(t / d), d > 0"""
    if d == 1:
        return t
    if not t.t:
        return const(t.k // d)
    r = t.rng if rng is None else (max(t.rng[0], rng[0]), min(t.rng[1], rng[1]))
    if r[0] // d == r[1] // d:
        return const(r[0] // d)
    if d & (d - 1) == 0 and r[0] >= 0 and r[1] < (1 << 140):
        n = d.bit_length() - 1
        return bits(t, n, max(r[1].bit_length() - n, 1), rng)
    # pull out the multiples of d
    H = mk(0, tuple((a, c // d) for a, c in t.t if c % d == 0))
    L = mk(t.k, tuple((a, c) for a, c in t.t if c % d))
    if H.t:
        return add(H, fdiv(L, d))
    q, k = divmod(t.k, d)
    if q:
        return addk(fdiv(mk(k, t.t), d), q)
    g = d
    for _, c in t.t:
        g = gcd(g, c)
    if g > 1:
        return fdiv(mk(t.k // g, tuple((a, c // g) for a, c in t.t)), d // g)
    a = t.single()
    if a is not None and a.kind == "div":
        return fdiv(a.args[0], a.args[1] * d)
    if a is not None and a.kind == "mod" and a.args[1] % d == 0:
        return fmod(fdiv(a.args[0], d), a.args[1] // d)
    return of(atom("div", (t, d), t.rng[0] // d, t.rng[1] // d))


def fmod(t, d, rng=None):
    if d & (d - 1) == 0:
        return bits(t, 0, d.bit_length() - 1, rng)
    # canonical: reduce coefficients modulo d first
    k = t.k % d
    items = [(a, c % d) for a, c in t.t if c % d]
    # flatten nested mods
    changed = True
    while changed:
        changed = False
        for i, (a, c) in enumerate(items):
            if a.kind == "mod" and c * a.args[1] % d == 0:
                items.pop(i)
                k += c * a.args[0].k
                items += [(b, c * e) for b, e in a.args[0].t]
                changed = True
                break
    l = lin_sum(k % d, items)
    l = lin_sum(l.k % d, [(a, c % d) for a, c in l.t])
    if not l.t:
        return const(l.k % d)
    if rng is not None and l == t and rng[0] >= 0 and rng[1] < d:
        return t
    if l.rng[0] >= 0 and l.rng[1] < d:
        return l
    g = d
    for _, c in l.t:
        g = gcd(g, c)
    if g > 1:
        return addk(scale(fmod(mk(l.k // g, tuple((a, c // g) for a, c in l.t)), d // g), g), l.k % g)
    return of(atom("mod", (l, d), 0, d - 1))


def mul(a, b):
    if not a.t:
        return scale(b, a.k)
    if not b.t:
        return scale(a, b.k)
    if (b.h, b.k) < (a.h, a.k):
        a, b = b, a
    c = [x * y for x in a.rng for y in b.rng]
    return of(atom("mul", (a, b), min(c), max(c)))


def table(values, idx):
    """values: tuple of ints (None: unreachable); idx: Lin or tuple of Lins (nested tables)"""
    if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
    if isinstance(idx, Lin):
        if not idx.t:
            if 0 <= idx.k < len(values) and values[idx.k] is not None:
                return const(values[idx.k])
            return fresh("tab?", 0, INF)
        vs = [v for v in values if v is not None]
        if not vs:
            return fresh("tab?", 0, INF)
        lo, hi = min(vs), max(vs)
        if lo == hi and None not in values:
            return const(lo)
        if all(v == i for i, v in enumerate(values)):
            return idx
        m = 0
        for v in vs:
            m |= v
        return of(atom("tab", (values, idx), lo, hi, m if lo >= 0 else None))
    vs = list(_flat(values))
    vs = [v for v in vs if v is not None]
    if not vs:
        return fresh("tab?", 0, INF)
    return of(atom("tab", (values, idx), min(vs), max(vs)))


def _flat(v):
    for x in v:
        if isinstance(x, tuple):
            yield from _flat(x)
        else:
            yield x


_fresh = [0]


def fresh(name, lo, hi):
    _fresh[0] += 1
    return of(atom("sym", (f"{name}#{_fresh[0]}",), lo, hi))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    lo = min(a.rng[0], b.rng[0])
    hi = max(a.rng[1], b.rng[1])
    # canonical polarity
    n = b_not(c)
    if n.key() < c.key():
        c, a, b = n, b, a
    return of(atom("ite", (c, a, b), lo, hi))


def func(name, args, lo, hi):
    return of(atom("fn", (name,) + tuple(args), lo, hi))


# ------------------------------------------------------------------ booleans

class B:
    __slots__ = ("op", "x", "y", "h")

    def __init__(self, op, x=None, y=None):
        self.op = op
        self.x = x
        self.y = y
        self.h = hash((op, x, y))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, B) and self.h == o.h and self.op == o.op and self.x == o.x and self.y == o.y)

    def key(self):
        return (self.op, self.h)

    def __repr__(self):
        if self.op == "le":
            return f"({show(self.x)} <= 0)"
        if self.op == "eq":
            return f"({show(self.x)} == 0)"
        if self.op == "ne":
            return f"({show(self.x)} != 0)"
        if self.op in ("and", "or", "xor"):
            return f"({self.x} {self.op} {self.y})"
        if self.op in ("opq", "nopq"):
            return ("!" if self.op == "nopq" else "") + str(self.x)
        return self.op


TRUE = B("true")
FALSE = B("false")


def _norm_le(l):
    if len(l.t) == 0:
        return l
    g = 0
    for _, c in l.t:
        g = gcd(g, c)
    if g > 1:
        # sum + k <= 0  ->  sum/g <= floor(-k/g)
        return mk(-((-l.k) // g), tuple((a, c // g) for a, c in l.t))
    return l


def le(l):
    """l <= 0"""
    if l.rng[1] <= 0:
        return TRUE
    if l.rng[0] > 0:
        return FALSE
    return B("le", _norm_le(l))


def eq(l):
    if not l.t:
        return TRUE if l.k == 0 else FALSE
    if l.rng[0] > 0 or l.rng[1] < 0:
        return FALSE
    g = 0
    for _, c in l.t:
        g = gcd(g, c)
    if g > 1:
        if l.k % g:
            return FALSE
        l = mk(l.k // g, tuple((a, c // g) for a, c in l.t))
    if l.t[0][1] < 0:
        l = neg(l)
    # bit-disjoint sum equal to a constant splits into per-piece equalities
    return B("eq", l)


def b_not(b):
    if b is TRUE or b.op == "true":
        return FALSE
    if b is FALSE or b.op == "false":
        return TRUE
    if b.op == "le":
        return le(sub(ONE, b.x))
    if b.op == "eq":
        return B("ne", b.x)
    if b.op == "ne":
        return B("eq", b.x)
    if b.op == "and":
        return b_or(b_not(b.x), b_not(b.y))
    if b.op == "or":
        return b_and(b_not(b.x), b_not(b.y))
    if b.op == "xor":
        return B("xor", b_not(b.x), b.y)
    if b.op == "opq":
        return B("nopq", b.x)
    if b.op == "nopq":
        return B("opq", b.x)
    raise ValueError(b.op)


def b_and(a, b):
    if a.op == "false" or b.op == "false":
        return FALSE
    if a.op == "true":
        return b
    if b.op == "true":
        return a
    if a == b:
        return a
    return B("and", a, b)


def b_or(a, b):
    if a.op == "true" or b.op == "true":
        return TRUE
    if a.op == "false":
        return b
    if b.op == "false":
        return a
    if a == b:
        return a
    return B("or", a, b)


def b_xor(a, b):
    if a.op == "false":
        return b
    if b.op == "false":
        return a
    if a.op == "true":
        return b_not(b)
    if b.op == "true":
        return b_not(a)
    return B("xor", a, b)


def b_int(b):
    """boolean as 0/1 integer"""
    if b.op == "true":
        return ONE
    if b.op == "false":
        return ZERO
    return ite(b, ONE, ZERO)


# ------------------------------------------------------------------ dependencies / evaluation

def atom_deps(a):
    """base symbols an atom is computed from"""
    if a.deps is not None:
        return a.deps
    out = set()
    if a.kind == "sym":
        out.add(a)
    elif a.kind == "sel":
        out.add(a)
        out |= lin_deps(a.args[1])
    else:
        for x in a.args:
            out |= _obj_deps(x)
        if not out:
            out.add(a)
    a.deps = frozenset(out)
    return a.deps


def _obj_deps(x):
    if isinstance(x, Lin):
        return lin_deps(x)
    if isinstance(x, B):
        return b_deps(x)
    if isinstance(x, tuple):
        o = set()
        for y in x:
            if isinstance(y, (Lin, B)):
                o |= _obj_deps(y)
        return o
    return set()


def lin_deps(l):
    o = set()
    for a, _ in l.t:
        o |= atom_deps(a)
    return o


def b_deps(b):
    if b.op in ("le", "eq", "ne"):
        return lin_deps(b.x)
    if b.op in ("and", "or", "xor"):
        return b_deps(b.x) | b_deps(b.y)
    return set()


class NoEval(Exception):
    pass


_HOLE = object()


def ev_atom(a, env):
    """value of an atom for a valuation of (some of) the symbols; NoEval when it is not determined"""
    return _ev_atom(a, env, {})


def ev(l, env):
    return _ev(l, env, {})


def ev_b(b, env):
    return _ev_b(b, env, {})


def _ev_atom(a, env, memo):
    if a in env:
        return env[a]
    k = a.kind
    if k == "sym" or k == "sel" or k == "fn":
        raise NoEval(a.kind)
    v = memo.get(a)
    if v is not None:
        if v is _HOLE:
            raise NoEval(a.kind)
        return v
    try:
        v = _ev_atom1(a, k, env, memo)
    except NoEval:
        memo[a] = _HOLE
        raise
    memo[a] = v
    return v


def _ev_atom1(a, k, env, memo):
    if k == "bits":
        t, lo, n = a.args
        return (_ev(t, env, memo) >> lo) & ((1 << n) - 1)
    if k == "bw":
        w, bases, tt = a.args
        vals = [_ev(b, env, memo) for b in bases]
        M = (1 << w) - 1
        v = 0
        for x in range(1 << len(bases)):
            if (tt >> x) & 1:
                m = M
                for j, b in enumerate(vals):
                    m &= b if (x >> j) & 1 else ~b
                v |= m
        return v
    if k == "div":
        return _ev(a.args[0], env, memo) // a.args[1]
    if k == "mod":
        return _ev(a.args[0], env, memo) % a.args[1]
    if k == "mul":
        return _ev(a.args[0], env, memo) * _ev(a.args[1], env, memo)
    if k == "tab":
        vals, idx = a.args
        if isinstance(idx, Lin):
            i = _ev(idx, env, memo)
            if not (0 <= i < len(vals)) or vals[i] is None:
                raise NoEval("table index")
            return vals[i]
        v = vals
        for x in idx:
            i = _ev(x, env, memo)
            if v is None or not (0 <= i < len(v)):
                raise NoEval("table index")
            v = v[i]
        if v is None:
            raise NoEval("table hole")
        return v
    if k == "ite":
        c, x, y = a.args
        return _ev(x, env, memo) if _ev_b(c, env, memo) else _ev(y, env, memo)
    raise NoEval(k)


def _ev(l, env, memo):
    v = l.k
    for a, c in l.t:
        v += c * _ev_atom(a, env, memo)
    return v


def _ev_b(b, env, memo):
    o = b.op
    if o == "true":
        return True
    if o == "false":
        return False
    if o == "le":
        return _ev(b.x, env, memo) <= 0
    if o == "eq":
        return _ev(b.x, env, memo) == 0
    if o == "ne":
        return _ev(b.x, env, memo) != 0
    if o == "and":
        return _ev_b(b.x, env, memo) and _ev_b(b.y, env, memo)
    if o == "or":
        return _ev_b(b.x, env, memo) or _ev_b(b.y, env, memo)
    if o == "xor":
        return _ev_b(b.x, env, memo) != _ev_b(b.y, env, memo)
    raise NoEval(o)


# ------------------------------------------------------------------ printing

def show_atom(a, depth=0):
    k = a.kind
    if depth > 4:
        return f"{k}@{a.id}"
    if k == "sym":
        return a.args[0]
    if k == "sel":
        return f"{a.args[0]}[{show(a.args[1], depth + 1)}]"
    if k == "bits":
        t, lo, n = a.args
        return f"bits({show(t, depth + 1)},{lo},{n})"
    if k == "div":
        return f"({show(a.args[0], depth + 1)} div {a.args[1]})"
    if k == "mod":
        return f"({show(a.args[0], depth + 1)} mod {a.args[1]})"
    if k == "mul":
        return f"({show(a.args[0], depth + 1)} * {show(a.args[1], depth + 1)})"
    if k == "bw":
        return f"bw{a.args[0]}:{a.args[2]:b}({', '.join(show(x, depth + 1) for x in a.args[1])})"
    if k == "tab":
        i = a.args[1]
        i = show(i, depth + 1) if isinstance(i, Lin) else ",".join(show(x, depth + 1) for x in i)
        return f"table#{len(a.args[0])}[{i}]"
    if k == "ite":
        return f"({a.args[0]} ? {show(a.args[1], depth + 1)} : {show(a.args[2], depth + 1)})"
    if k == "fn":
        return f"{a.args[0]}({', '.join(str(x) for x in a.args[1:])})"
    return f"{k}@{a.id}"


def show(l, depth=0):
    if not isinstance(l, Lin):
        return repr(l)
    if not l.t:
        return str(l.k) if abs(l.k) < 65536 else hex(l.k)
    parts = []
    for a, c in l.t[:8]:
        s = show_atom(a, depth)
        if c == 1:
            parts.append(f"+{s}")
        elif c == -1:
            parts.append(f"-{s}")
        else:
            parts.append(f"{c:+d}*{s}")
    if len(l.t) > 8:
        parts.append("+...")
    if l.k:
        parts.append(f"{l.k:+d}")
    r = "".join(parts)
    return r[1:] if r.startswith("+") else r
