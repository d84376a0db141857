"""Abstract numeric state: per-atom disjunctive intervals + linear inequalities (polyhedral
entailment by Fourier-Motzkin with integer tightening) + disequalities + opaque booleans."""
from math import gcd

from . import terms as T

ENUM_LIMIT = 70000


class Bottom(Exception):
    pass


def iset(lo, hi):
    return ((lo, hi),) if lo <= hi else ()


def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def union(a, b):
    xs = sorted(a + b)
    out = []
    for lo, hi in xs:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def remove(a, v):
    out = []
    for lo, hi in a:
        if lo <= v <= hi:
            if lo < v:
                out.append((lo, v - 1))
            if v < hi:
                out.append((v + 1, hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def members(a):
    for lo, hi in a:
        yield from range(lo, hi + 1)


def from_values(vs):
    out = []
    for v in sorted(vs):
        if out and v == out[-1][1] + 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return tuple((a, b) for a, b in out)


class Facts:
    __slots__ = ("dom", "lins", "nes", "bools", "cache", "dis", "loose")

    def __init__(self):
        self.dom = {}
        self.lins = frozenset()
        self.nes = frozenset()
        self.bools = {}
        self.dis = ()
        self.loose = False   # a join has dropped what only one side knew
        self.cache = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.dom = self.dom
        f.lins = self.lins
        f.nes = self.nes
        f.bools = self.bools
        f.dis = self.dis
        f.loose = self.loose
        f.cache = {}
        return f

    def same(self, o):
        return (self.dom == o.dom and self.lins == o.lins and self.nes == o.nes and self.bools == o.bools
                and self.dis == o.dis)

    # -------------------------------------------------------------- ranges
    def domain(self, a):
        d = self.dom.get(a)
        return d if d is not None else ((a.lo, a.hi),)

    def arange(self, a):
        d = self.dom.get(a)
        if d is None:
            return a.lo, a.hi
        return d[0][0], d[-1][1]

    def rng(self, l):
        """interval of l from atom domains only"""
        lo = hi = l.k
        for a, c in l.t:
            x, y = self.arange(a)
            if c > 0:
                lo += c * x
                hi += c * y
            else:
                lo += c * y
                hi += c * x
        return lo, hi

    def bounds(self, l):
        """interval of l using linear facts where cheap (binary refinement by entailment of the
        type-ish bounds is done by the caller)"""
        return self.rng(l)

    # -------------------------------------------------------------- adding
    def assume(self, b):
        """facts and b; None when contradictory (detected)"""
        try:
            f = self._add(b)
            if f is not self and f.dis:
                f = f._unit(b)
        except Bottom:
            return None
        return f

    def _unit(self, new):
        """disjunctions of which one side became false give the other"""
        f = self
        again = True
        while again:
            again = False
            for d in f.dis[:24]:
                if d is new:
                    continue
                x, y = f._quick(d.x), f._quick(d.y)
                if x is None and y is None:
                    continue
                if x is False and y is False:
                    raise Bottom
                f = f.copy()
                f.dis = tuple(e for e in f.dis if e is not d)
                if x is not True and y is not True:
                    f = f._add(d.y if x is False else d.x)
                    again = True
                    break
        return f

    def _quick(self, b):
        """truth from the ranges alone"""
        o = b.op
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "le":
            lo, hi = self.rng(b.x)
            return True if hi <= 0 else False if lo > 0 else None
        if o == "eq" or o == "ne":
            l = b.x
            r = None
            if len(l.t) == 1:
                a, c = l.t[0]
                if l.k % c:
                    r = False
                else:
                    v = -l.k // c
                    d = self.domain(a)
                    if not any(lo <= v <= hi for lo, hi in d):
                        r = False
                    elif len(d) == 1 and d[0] == (v, v):
                        r = True
            else:
                lo, hi = self.rng(l)
                if lo > 0 or hi < 0:
                    r = False
                elif lo == hi == 0:
                    r = True
                elif l in self.nes:
                    r = False
            return r if o == "eq" or r is None else not r
        if o == "and":
            x, y = self._quick(b.x), self._quick(b.y)
            return False if x is False or y is False else True if x and y else None
        if o == "or":
            x, y = self._quick(b.x), self._quick(b.y)
            return True if x or y else False if x is False and y is False else None
        if o == "opq":
            return self.bools.get(b.x)
        if o == "nopq":
            v = self.bools.get(b.x)
            return None if v is None else not v
        return None

    def _add(self, b):
        o = b.op
        if o == "true":
            return self
        if o == "false":
            raise Bottom
        if o == "and":
            return self._add(b.x)._add(b.y)
        if o == "opq" or o == "nopq":
            v = o == "opq"
            cur = self.bools.get(b.x)
            if cur is not None:
                if cur != v:
                    raise Bottom
                return self
            f = self.copy()
            f.bools = dict(self.bools)
            f.bools[b.x] = v
            return f
        if o == "or":
            # disjunction: keep when one side is refutable, otherwise the hull where cheap
            try:
                fx = self._add(b.x)
            except Bottom:
                return self._add(b.y)
            try:
                fy = self._add(b.y)
            except Bottom:
                return fx
            f = join(fx, fy)
            if b not in f.dis:
                f = f.copy()
                f.dis = f.dis + (b,)
            return f
        if o == "xor":
            return self
        if o == "le":
            return self._add_le(b.x)
        if o == "eq":
            return self._add_eq(b.x)
        if o == "ne":
            return self._add_ne(b.x)
        raise ValueError(o)

    def _with_dom(self, a, d):
        if not d:
            raise Bottom
        cur = self.domain(a)
        if cur == d:
            return self
        f = self.copy()
        f.dom = dict(self.dom)
        f.dom[a] = d
        return f._propagate(a)

    def _propagate(self, a):
        """push a refined derived atom down to the symbol it is computed from"""
        if a.kind in ("sym", "sel", "fn", "mul"):
            return self
        f = self
        d = f.domain(a)
        deps = [x for x in T.atom_deps(a)]
        if len(deps) == 1 and a.kind in ("tab", "bits", "mod", "div", "ite", "bw"):
            s = deps[0]
            sd = f.domain(s)
            if s.kind in ("sym", "sel") and 0 < size(sd) <= ENUM_LIMIT and s is not a:
                keep = []
                for v in members(sd):
                    try:
                        x = T.ev_atom(a, {s: v})
                    except T.NoEval:
                        keep.append(v)
                        continue
                    if any(lo <= x <= hi for lo, hi in d):
                        keep.append(v)
                nd = from_values(keep)
                if not nd:
                    raise Bottom
                if nd != sd:
                    g = f.copy()
                    g.dom = dict(f.dom)
                    g.dom[s] = nd
                    f = g
                return f
        if a.kind == "bits":
            t, lo, n = a.args
            tr = f.rng(t)
            if tr[0] >= 0 and tr[1] < (1 << (lo + n)):
                # exact shift: t in [2^lo*dlo, 2^lo*dhi + 2^lo-1]
                f = f._add_le(T.sub(T.const(d[0][0] << lo), t))
                f = f._add_le(T.sub(t, T.const((d[-1][1] << lo) + (1 << lo) - 1)))
        elif a.kind == "div":
            t, q = a.args
            f = f._add_le(T.sub(T.const(d[0][0] * q), t))
            f = f._add_le(T.sub(t, T.const(d[-1][1] * q + q - 1)))
        elif a.kind == "ite":
            c, x, y = a.args
            lo, hi = d[0][0], d[-1][1]
            xr, yr = f.rng(x), f.rng(y)
            if xr[1] < lo or xr[0] > hi:
                f = f._add(T.b_not(c))
                f = f._add_le(T.sub(T.const(lo), y))._add_le(T.sub(y, T.const(hi)))
            elif yr[1] < lo or yr[0] > hi:
                f = f._add(c)
                f = f._add_le(T.sub(T.const(lo), x))._add_le(T.sub(x, T.const(hi)))
        return f

    def _add_le(self, l):
        lo, hi = self.rng(l)
        if hi <= 0:
            return self
        if lo > 0:
            raise Bottom
        if len(l.t) == 1:
            a, c = l.t[0]
            cur = self.domain(a)
            if c > 0:
                d = inter(cur, iset(-T.INF * 4, (-l.k) // c))
            else:
                d = inter(cur, iset(_ceil_div(l.k, -c), T.INF * 4))
            return self._with_dom(a, d)
        b = T.le(l)
        if b.op == "true":
            return self
        l = b.x
        if l in self.lins:
            return self
        f = self.copy()
        # drop weaker parallel constraints
        keep = [x for x in self.lins if not (x.t == l.t and x.k <= l.k)]
        if any(x.t == l.t and x.k >= l.k for x in self.lins):
            return self
        f.lins = frozenset(keep + [l])
        # interval propagation into single atoms
        for a, c in l.t:
            rest_lo = lo - (c * self.arange(a)[0] if c > 0 else c * self.arange(a)[1])
            # c*a + rest <= 0  ->  c*a <= -rest_lo
            cur = f.domain(a)
            if c > 0:
                ub = (-rest_lo) // c
                if ub < cur[-1][1]:
                    f = f._with_dom(a, inter(cur, iset(-T.INF * 4, ub)))
            else:
                lb = _ceil_div(rest_lo, -c)
                if lb > cur[0][0]:
                    f = f._with_dom(a, inter(cur, iset(lb, T.INF * 4)))
        return f

    def _add_eq(self, l):
        b = T.eq(l)
        if b.op == "true":
            return self
        if b.op == "false":
            raise Bottom
        l = b.x
        lo, hi = self.rng(l)
        if lo > 0 or hi < 0:
            raise Bottom
        if lo == 0 == hi:
            return self
        if l in self.nes:
            raise Bottom
        if len(l.t) == 1:
            a, c = l.t[0]
            if (-l.k) % c:
                raise Bottom
            v = (-l.k) // c
            cur = self.domain(a)
            return self._with_dom(a, inter(cur, ((v, v),)))
        # bit-disjoint sum equal to a constant: split
        if l.k <= 0 and all(c > 0 for _, c in l.t):
            m = T.disjoint_parts(T.mk(0, l.t))
            if m is not None:
                v = -l.k
                if v & ~m:
                    raise Bottom
                f = self
                for a, c in l.t:
                    am = a.mask * c
                    pv = (v & am) // c
                    f = f._with_dom(a, inter(f.domain(a), ((pv, pv),)))
                return f
        f = self._add_le(l)
        f = f._add_le(T.neg(l))
        return f

    def _add_ne(self, l):
        b = T.eq(l)
        if b.op == "true":
            raise Bottom
        if b.op == "false":
            return self
        l = b.x
        lo, hi = self.rng(l)
        if lo > 0 or hi < 0:
            return self
        if lo == 0 == hi:
            raise Bottom
        if len(l.t) == 1:
            a, c = l.t[0]
            if (-l.k) % c:
                return self
            v = (-l.k) // c
            return self._with_dom(a, remove(self.domain(a), v))
        f = self.copy()
        f.nes = self.nes | {l}
        # tighten: L <= 0 known and L != 0 -> L <= -1
        if self.entails_le(l):
            f = f._add_le(T.addk(l, 1))
        elif self.entails_le(T.neg(l)):
            f = f._add_le(T.addk(T.neg(l), 1))
        return f

    # -------------------------------------------------------------- queries
    def truth(self, b):
        """True / False / None"""
        o = b.op
        if o == "true":
            return True
        if o == "false":
            return False
        key = b
        c = self.cache.get(key)
        if c is not None:
            return c[0]
        r = self._truth(b)
        self.cache[key] = (r,)
        return r

    def _truth(self, b):
        o = b.op
        if o == "le":
            lo, hi = self.rng(b.x)
            if hi <= 0:
                return True
            if lo > 0:
                return False
            if self.entails_le(b.x):
                return True
            if self.entails_le(T.sub(T.ONE, b.x)):
                return False
            return self._by_enum(b)
        if o == "eq" or o == "ne":
            r = self._eq_truth(b.x)
            if r is None:
                r2 = self._by_enum(b)
                return r2
            return r if o == "eq" else not r
        if o == "opq":
            return self.bools.get(b.x)
        if o == "nopq":
            v = self.bools.get(b.x)
            return None if v is None else not v
        if o == "and":
            x, y = self.truth(b.x), self.truth(b.y)
            if x is False or y is False:
                return False
            if x and y:
                return True
            f = self.assume(b)
            if f is None:
                return False
            return None
        if o == "or":
            if b in self.dis:
                return True
            x, y = self.truth(b.x), self.truth(b.y)
            if x or y:
                return True
            if x is False and y is False:
                return False
            f = self.assume(T.b_not(b))
            if f is None:
                return True
            return None
        if o == "xor":
            x, y = self.truth(b.x), self.truth(b.y)
            if x is None or y is None:
                return None
            return x != y
        return None

    def _eq_truth(self, l):
        lo, hi = self.rng(l)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        if l in self.nes or T.neg(l) in self.nes:
            return False
        if len(l.t) == 1:
            a, c = l.t[0]
            if (-l.k) % c:
                return False
            v = (-l.k) // c
            if not any(x <= v <= y for x, y in self.domain(a)):
                return False
            if len(self.domain(a)) == 1 and self.domain(a)[0] == (v, v):
                return True
        if self.lins:
            if self.entails_le(l) and self.entails_le(T.neg(l)):
                return True
            if self.entails_le(T.addk(l, 1)) or self.entails_le(T.addk(T.neg(l), 1)):
                return False
        return None

    def _by_enum(self, b):
        """decide over the members of a single small-domain base symbol"""
        deps = T.b_deps(b)
        if len(deps) != 1:
            return None
        s = next(iter(deps))
        if s.kind not in ("sym", "sel"):
            return None
        d = self.domain(s)
        if size(d) > 2048:
            return None
        res = None
        for v in members(d):
            try:
                x = T.ev_b(b, {s: v})
            except T.NoEval:
                return None
            if res is None:
                res = x
            elif res != x:
                return None
        return res

    def entails_le(self, l):
        """facts |= l <= 0"""
        lo, hi = self.rng(l)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        for x in self.lins:
            if x.t == l.t and x.k >= l.k:
                return True
        # combination with one constraint: l = x + rest, rest <= 0 by ranges
        for x in self.lins:
            d = T.sub(l, x)
            if self.rng(d)[1] <= 0:
                return True
        return self._fm(T.sub(T.ONE, l))

    def feasible(self):
        """False when the linear part is contradictory, or a derived value of fixed symbols is excluded"""
        fixed = {a: d[0][0] for a, d in self.dom.items() if a.kind in ("sym", "sel") and len(d) == 1 and d[0][0] == d[0][1]}
        if fixed:
            for a, d in self.dom.items():
                if a.kind in ("sym", "sel") or not T.atom_deps(a) <= fixed.keys():
                    continue
                try:
                    v = T.ev_atom(a, fixed)
                except T.NoEval:
                    continue
                if not any(lo <= v <= hi for lo, hi in d):
                    return False
            for l in self.nes:
                if T.lin_deps(l) <= fixed.keys():
                    try:
                        if T.ev(l, fixed) == 0:
                            return False
                    except T.NoEval:
                        pass
        for b in self.dis[:8]:
            if self.truth(b.x) is False and self.truth(b.y) is False:
                return False
        return not self._fm(None)

    def _derived(self, atoms, have):
        """linear consequences of the definitions of derived atoms"""
        out = []
        for a in atoms:
            if a.kind == "bits":
                t, lo, n = a.args
                r = self.rng(t)
                if r[0] >= 0 or self.entails_nonneg(t):
                    s = T.scale(T.of(a), 1 << lo)
                    out.append(T.sub(s, t))          # 2^lo*a <= t
                    if r[1] < (1 << (lo + n)):
                        out.append(T.sub(t, T.addk(s, (1 << lo) - 1)))
            elif a.kind == "div":
                t, q = a.args
                s = T.scale(T.of(a), q)
                out.append(T.sub(s, t))
                out.append(T.sub(t, T.addk(s, q - 1)))
            elif a.kind == "mod":
                t, q = a.args
                r = self.rng(t)
                if r[0] >= 0:
                    out.append(T.sub(T.of(a), t))
            elif a.kind == "ite":
                c, x, y = a.args
                v = self.truth(c)
                e = T.of(a)
                if v is True:
                    out += [T.sub(e, x), T.sub(x, e)]
                elif v is False:
                    out += [T.sub(e, y), T.sub(y, e)]
        return out

    def entails_nonneg(self, t):
        if self.rng(t)[0] >= 0:
            return True
        for x in self.lins:
            d = T.sub(T.neg(t), x)
            if self.rng(d)[1] <= 0:
                return True
        return False

    def _fm(self, extra):
        """True when lins + bounds (+ extra <= 0) are infeasible"""
        cons = []
        if extra is None:
            comp = set()
            for x in self.lins:
                comp.update(x.atoms())
            cons = list(self.lins)
        else:
            comp = set(extra.atoms())
            cons = [extra]
            used = set()
            changed = True
            seen_d = set()
            rounds = 0
            while changed and rounds < 6:
                changed = False
                rounds += 1
                for x in self.lins:
                    if x in used:
                        continue
                    if any(a in comp for a in x.atoms()):
                        used.add(x)
                        cons.append(x)
                        for a in x.atoms():
                            if a not in comp:
                                comp.add(a)
                        changed = True
                nd = [a for a in comp if a not in seen_d and a.kind in ("bits", "div", "mod", "ite")]
                if nd and rounds <= 4:
                    seen_d.update(nd)
                    for x in self._derived(nd, used):
                        cons.append(x)
                        comp.update(x.atoms())
                        changed = True
                if len(cons) > 40 or len(comp) > 24:
                    break
        if len(comp) > 40:
            return False
        rows = []
        for x in cons:
            rows.append((dict((a, c) for a, c in x.t), x.k))
        # bounds: substitute as constraints
        for a in comp:
            lo, hi = self.arange(a)
            if lo > -T.INF:
                rows.append(({a: -1}, lo))
            if hi < T.INF:
                rows.append(({a: 1}, -hi))
        return _infeasible(rows)

    def __repr__(self):
        s = []
        for a, d in self.dom.items():
            dd = ",".join(f"{x:#x}..{y:#x}" if x != y else f"{x:#x}" for x, y in d[:6])
            if len(d) > 6:
                dd += ",..."
            s.append(f"{a!r} in {{{dd}}}")
        for l in self.lins:
            s.append(f"{T.show(l)} <= 0")
        for l in self.nes:
            s.append(f"{T.show(l)} != 0")
        for k, v in self.bools.items():
            s.append(f"{k}={v}")
        return "; ".join(s)


def _ceil_div(a, b):
    return -((-a) // b)


def join(f, g):
    """facts that hold in both"""
    r = Facts()
    r.dom = {}
    for a in set(f.dom) & set(g.dom):
        u = union(f.domain(a), g.domain(a))
        if u != ((a.lo, a.hi),):
            r.dom[a] = u
    # one-sided domain facts vanish; keep linear facts both sides entail
    keep = set(f.lins & g.lins)
    for x in f.lins:
        if x not in keep and g.entails_le(x):
            keep.add(x)
    for x in g.lins:
        if x not in keep and f.entails_le(x):
            keep.add(x)
    # single-atom bounds turned relational on the other side
    r.lins = frozenset(keep)
    r.nes = frozenset(x for x in f.nes | g.nes
                      if (x in f.nes or f._eq_truth(x) is False) and (x in g.nes or g._eq_truth(x) is False))
    r.bools = {k: v for k, v in f.bools.items() if g.bools.get(k) == v}
    r.dis = tuple(x for x in f.dis if x in g.dis)
    r.loose = f.loose or g.loose or not (_exact(f, g) or r.same(f) or r.same(g))
    return r


def _exact(f, g):
    """the union of the two domains of the one symbol in which both sides differ loses nothing"""
    if f.lins != g.lins or f.nes != g.nes or f.bools != g.bools or f.dis != g.dis:
        return False
    return sum(1 for a in set(f.dom) | set(g.dom) if f.domain(a) != g.domain(a)) <= 1


def _norm(row):
    c, k = row
    g = 0
    for v in c.values():
        g = gcd(g, v)
    if g > 1:
        c = {a: v // g for a, v in c.items()}
        k = -((-k) // g)
    return c, k


def _infeasible(rows, limit=260):
    """Fourier-Motzkin over the integers (with gcd tightening): True only when infeasible"""
    work = {}
    for r in rows:
        c, k = _norm(r)
        if not c:
            if k > 0:
                return True
            continue
        key = frozenset((a, v) for a, v in c.items())
        if key not in work or work[key][1] < k:
            work[key] = (c, k)
    rows = list(work.values())
    while True:
        occ = {}
        for c, _ in rows:
            for a, v in c.items():
                p = occ.setdefault(a, [0, 0])
                p[0 if v > 0 else 1] += 1
        if not occ:
            return False
        # cheapest elimination first
        a = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], x.id))
        pos = [r for r in rows if r[0].get(a, 0) > 0]
        neg = [r for r in rows if r[0].get(a, 0) < 0]
        rest = [r for r in rows if a not in r[0]]
        work = {}
        for c, k in rest:
            key = frozenset(c.items())
            if key not in work or work[key][1] < k:
                work[key] = (c, k)
        for pc, pk in pos:
            for nc, nk in neg:
                x, y = pc[a], -nc[a]
                g = gcd(x, y)
                mp, mn = y // g, x // g
                c = {}
                for b, v in pc.items():
                    c[b] = v * mp
                for b, v in nc.items():
                    c[b] = c.get(b, 0) + v * mn
                c = {b: v for b, v in c.items() if v}
                k = pk * mp + nk * mn
                if not c:
                    if k > 0:
                        return True
                    continue
                c, k = _norm((c, k))
                key = frozenset(c.items())
                if key not in work or work[key][1] < k:
                    work[key] = (c, k)
        rows = list(work.values())
        if not rows:
            return False
        if len(rows) > limit:
            return False
