"""Structured strings: a text value as a list of segments.

('b', term)             one byte
('c', term)             one character (UTF-8 encoded), term = code point
('f', kind, spec, term) a formatted value of data-dependent width; spec = (flags, width, precision)
('s', name, lo, n)      n bytes of an unknown sequence from lo
"""
from . import terms as T

ZERO_PAD = 1 << 24
ALT = 1 << 23
PLUS = 1 << 21
WIDTH = 1 << 27
HEXL = tuple(b"0123456789abcdef")
HEXU = tuple(b"0123456789ABCDEF")


def text(s):
    return [("b", T.const(c)) for c in (s.encode() if isinstance(s, str) else bytes(s))]


def char_seg(st, c):
    lo, hi = st.facts.rng(c)
    if hi < 0x80:
        return ("b", c)
    if not c.t:
        try:
            return None if c.k > 0x10ffff else [("b", T.const(x)) for x in chr(c.k).encode()]
        except UnicodeEncodeError:
            return None
    return ("c", c)


def of_seq(e, st, s, lo=0, n=None):
    """segments of a sequence value (Arr / SArr)"""
    from . import engine as E
    if isinstance(s, E.VecV):
        s = s.s
    if isinstance(s, E.Arr):
        es = s.e[lo:] if n is None else s.e[lo:lo + n]
        return [("b", e.as_int(x)) for x in es]
    if isinstance(s, E.SArr):
        ln = s.n
        if not s.w and s.base in e.fmts and isinstance(e.fmts[s.base], list) and lo == 0 and (n is None or s.n == T.const(n)):
            return list(e.fmts[s.base])
        if s.w and lo == 0 and n is None and s.fill is None:
            # pieces appended one after the other
            out = []
            pos = None
            for w in s.w:
                start = w[1]
                if pos is None:
                    if start != T.ZERO:
                        if s.base in e.fmts and isinstance(e.fmts[s.base], list):
                            out += list(e.fmts[s.base])
                        else:
                            out.append(("s", s.base, T.ZERO, start))
                    pos = start
                if start != pos:
                    return [("s", repr(s), T.ZERO, ln)]
                if w[0] == "w":
                    out.append(("b", e.as_int(w[2])))
                    pos = T.addk(pos, 1)
                else:
                    if not w[2].t and w[2].k <= 256 and not (isinstance(w[3], E.SArr) and w[3].n == w[2] and w[4] == T.ZERO):
                        for j in range(w[2].k):
                            out.append(("b", e.as_int(e.seq_get(st, w[3], T.addk(w[4], j)))))
                    elif w[4] == T.ZERO and e.seq_len(w[3]) == w[2]:
                        out += of_seq(e, st, w[3])
                    else:
                        out.append(("s", repr(w[3]), w[4], w[2]))
                    pos = T.add(pos, w[2])
            if pos == ln:
                return out
            return [("s", repr(s), T.ZERO, ln)]
        if not ln.t and ln.k <= 512 and n is None and lo == 0:
            return [("b", e.as_int(e.seq_get(st, s, T.const(j)))) for j in range(ln.k)]
        if n is not None:
            return [("b", e.as_int(e.seq_get(st, s, T.const(lo + j)))) for j in range(n)]
        return [("s", s.base if not s.w else repr(s), T.ZERO, ln)]
    return [("s", repr(s), T.ZERO, T.ZERO)]


def of_val(e, st, v):
    """segments of a String / &str / Vec<u8> value"""
    from . import engine as E
    from . import models as M
    if isinstance(v, (E.VecV, E.Arr, E.SArr)):
        return of_seq(e, st, v)
    if isinstance(v, E.Agg) and len(v.f) == 1:
        return of_val(e, st, v.f[0])
    if isinstance(v, E.Ref):
        r = M.window(e, st, v)
        return of_seq(e, st, e.slice_seq(st, r))
    if isinstance(v, E.Sym):
        return [("s", v.name, T.ZERO, T.ZERO)]
    return [("s", repr(v), T.ZERO, T.ZERO)]


def make(e, segs):
    """a String value with these segments"""
    from . import engine as E
    flat = []
    for s in segs:
        if isinstance(s, list):
            flat += s
        else:
            flat.append(s)
    if all(s[0] == "b" for s in flat) and len(flat) <= 4096:
        return E.VecV(E.Arr([s[1] for s in flat]))
    if len(flat) == 1 and flat[0][0] == "s":
        pass
    nm = e.fresh_name("str")
    e.fmts[nm] = flat
    # length: bytes are one, characters one to four, the rest unknown
    return E.VecV(E.SArr(nm, None, T.sym(nm + ".len", 0, E.LEN_MAX)))


def number(st, kind, spec, v):
    """segments of a formatted unsigned number, exact when its width is known"""
    flags, width, prec = spec
    lo, hi = st.facts.rng(v)
    base = {"display": 10, "debug": 10, "lower_hex": 16, "upper_hex": 16, "octal": 8, "binary": 2}.get(kind)
    if base is None:
        return [("f", kind, spec, v)]
    if not v.t and v.k >= 0:
        d = ""
        x = v.k
        digs = HEXU if kind == "upper_hex" else HEXL
        while True:
            d = chr(digs[x % base]) + d
            x //= base
            if not x:
                break
        pre = {"lower_hex": "0x", "upper_hex": "0x", "octal": "0o", "binary": "0b"}.get(kind, "") if flags & ALT else ""
        if flags & PLUS:
            return [("f", kind, spec, v)]
        if flags & ZERO_PAD:
            d = d.rjust(width - len(pre), "0")
            return text(pre + d)
        d = pre + d
        if len(d) < width:
            d = padded(d, flags, width, 1)
        return text(d)
    if lo < 0 or flags & PLUS or base not in (10, 16):
        return [("f", kind, spec, v)]
    pre = []
    if flags & ALT and base == 16:
        pre = text("0x")
        width = max(0, width - 2)

    def ndig(x):
        n = 1
        while x >= base:
            x //= base
            n += 1
        return n
    nd = None
    if flags & ZERO_PAD and ndig(hi) <= width:
        nd = width
    elif ndig(lo) == ndig(hi) and (width <= ndig(lo)):
        nd = ndig(lo)
    if nd is None or nd > 24:
        return [("f", kind, spec, v)]
    out = list(pre)
    for i in reversed(range(nd)):
        if base == 16:
            d = T.bits(v, 4 * i, 4, (lo, hi))
            out.append(("b", T.table(HEXU if kind == "upper_hex" else HEXL, d)))
        else:
            q = T.fdiv(v, 10 ** i, (lo, hi))
            r = T.fmod(q, 10, (lo // 10 ** i, hi // 10 ** i))
            out.append(("b", T.addk(r, 48)))
    return out


def padded(d, flags, width, default):
    """text d in a field; alignment 0 left, 1 right, 2 centre, 3 the default of its kind"""
    al = (flags >> 29) & 3
    al = default if al == 3 else al
    fill = chr(flags & 0x1fffff)
    n = width - len(d)
    if n <= 0:
        return d
    return d + fill * n if al == 0 else fill * n + d if al == 1 else fill * (n // 2) + d + fill * (n - n // 2)


def parse_template(tpl):
    """[bytes | (flags, width, precision, arg index, width indirect, precision indirect)]"""
    out = []
    i = 0
    arg = 0
    while i < len(tpl):
        n = tpl[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(tpl[i:i + n])
            i += n
        elif n == 0x80:
            ln = tpl[i] | tpl[i + 1] << 8
            i += 2
            out.append(tpl[i:i + ln])
            i += ln
        elif n >= 0xC0:
            flags, width, prec = 32 | 3 << 29, 0, 0
            if n & 1:
                flags = int.from_bytes(tpl[i:i + 4], "little")
                i += 4
            if n & 2:
                width = int.from_bytes(tpl[i:i + 2], "little")
                i += 2
            if n & 4:
                prec = int.from_bytes(tpl[i:i + 2], "little")
                i += 2
            if n & 8:
                arg = int.from_bytes(tpl[i:i + 2], "little")
                i += 2
            out.append((flags, width, prec, arg, bool(n & 16), bool(n & 32)))
            arg += 1
        else:
            return None
    return out


PLAIN = 32 | 3 << 29


def format_args(e, st, a):
    """segments of a formatted-arguments value, or None"""
    from . import engine as E
    from . import models as M
    if not (isinstance(a, E.Agg) and isinstance(a.v, tuple) and a.v[0] == "fmtargs"):
        return None
    try:
        r = M.window(e, st, a.f[0])
        n = r.m[2].k
        raw = bytes(e.as_int(M.win_get(e, st, r, T.const(j))).k for j in range(n))
    except (E.Unsupported, TypeError, AttributeError, ValueError):
        return None
    if len(a.f) == 1:
        return text(raw)
    tpl = parse_template(raw)
    if tpl is None:
        return None
    r = e.deref_val(st, a.f[1])
    arr = e.load(st, r.o, r.p)
    out = []
    for p in tpl:
        if isinstance(p, bytes):
            out += text(p)
            continue
        flags, width, prec, arg, wi, pi = p
        if arg >= len(arr.e):
            return None
        x = arr.e[arg]
        shown = dict(a.v[1:]).get(arg)
        if shown is not None and (flags, width, prec) == (PLAIN, 0, 0) and not wi and not pi:
            out += e.fmts[shown]
            continue
        kind, ty = x.v[1], x.v[2]
        v = x.f[0]
        if wi:
            wa = arr.e[width]
            q = e.deref_val(st, wa.f[0])
            wv = e.load(st, q.o, q.p)
            if not (isinstance(wv, T.Lin) and not wv.t):
                out.append(("f", kind, ("dynamic width",), repr(v)))
                continue
            width = wv.k
        spec = (flags, width, prec)
        out += one(e, st, kind, spec, v, ty)
    return out


def one(e, st, kind, spec, v, ty):
    from . import engine as E
    # follow references
    t = ty
    while t is not None and t.k == "ref" and t.t.k == "ref":
        q = e.deref_val(st, v)
        v = e.load(st, q.o, q.p)
        t = t.t
    if t is not None and t.k == "ref":
        t = t.t
    try:
        q = e.deref_val(st, v)
        if q.m and q.m[0] == "s":
            seq = e.slice_seq(st, q)
            if t is not None and t.k == "str" and kind == "display" and spec[0] == PLAIN and spec[1] == 0 and spec[2] == 0:
                return of_seq(e, st, seq)
            sg = of_seq(e, st, seq)
            if t is not None and t.k == "str" and kind == "display" and spec[2] == 0 and all(g[0] == "b" for g in sg):
                return pad_segs(st, sg, spec)
            return [("f", kind, spec, repr(seq))]
        x = e.load(st, q.o, q.p)
    except E.Unsupported:
        return [("f", kind, spec, repr(v))]
    if t is not None and t.k == "adt" and t.p == "alloc::string::String" and kind == "display" and spec[0] == PLAIN and spec[1] == 0:
        return of_val(e, st, x)
    if t is not None and t.k == "adt" and t.p == "alloc::string::String" and kind == "display" and spec[2] == 0:
        sg = of_val(e, st, x)
        if all(g[0] == "b" for g in sg):
            return pad_segs(st, sg, spec)
    if t is not None and t.k == "bool" and isinstance(x, T.B) and x.op in ("true", "false") and kind in ("display", "debug"):
        return text(padded(x.op, spec[0], spec[1], 0))
    if t is not None and t.k == "char" and isinstance(x, T.Lin):
        if kind == "display" and spec[0] == PLAIN and spec[1] == 0:
            s = char_seg(st, x)
            if s is not None:
                return s if isinstance(s, list) else [s]
        return [("f", kind + "-char", spec, x)]
    if isinstance(x, T.Lin) and t is not None and t.k == "int":
        if t.sg and st.facts.rng(x)[0] < 0 and kind in ("lower_hex", "upper_hex"):
            x = T.bits(x, 0, t.w)
        return number(st, kind, spec, x)
    return [("f", kind, spec, x if isinstance(x, T.Lin) else repr(x))]


def pad_segs(st, sg, spec):
    """a text of known width in a field"""
    flags, width, _ = spec
    if any(st.facts.rng(g[1])[1] >= 0x80 and g[1].t for g in sg):
        return [("f", "display", spec, repr(sg))]
    have = sum(1 for g in sg if g[1].t or not 0x80 <= g[1].k < 0xc0)
    n = width - have
    if n <= 0:
        return sg
    al = (flags >> 29) & 3
    fill = text(chr(flags & 0x1fffff))
    if al in (0, 3):
        return sg + fill * n
    if al == 1:
        return fill * n + sg
    return fill * (n // 2) + sg + fill * (n - n // 2)


def show(segs):
    out = ""
    for s in segs:
        if s[0] == "b" and not s[1].t:
            out += chr(s[1].k)
        elif s[0] == "b":
            out += "⟨" + T.show(s[1]) + "⟩"
        elif s[0] == "c":
            out += "⟨char " + T.show(s[1]) + "⟩"
        else:
            out += "⟨" + " ".join(T.show(x) if isinstance(x, T.Lin) else str(x) for x in s[1:]) + "⟩"
    return out
