"""Abstract interpreter over MIR.

Values are term/structure abstractions, the numeric state is `facts.Facts`; paths are partitioned
at undecided branches and merged again at join points when memory agrees.  Loops whose exit is
decided by constants are unrolled; others are summarised by generalising every location the body
changes and keeping the candidate linear invariants that are inductive (checked by re-analysing
the body until stable).
"""
import math
import heapq

from . import terms as T
from .facts import Facts, join as facts_join, from_values, inter, members, size as iset_size


class _NoJoin(Exception):
    pass


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------ values

class Val:
    __slots__ = ()

    def __ne__(self, o):
        return not self.__eq__(o)


class Agg(Val):
    __slots__ = ("v", "f", "h")

    def __init__(self, v, f):
        self.v = v
        self.f = tuple(f)
        self.h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.v == o.v and self.f == o.f)

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.v, self.f))
        return self.h

    def __repr__(self):
        return f"#{self.v}({', '.join(map(repr, self.f))})"


class OvfPair(Agg):
    """result of an overflow-reporting operation: f = (value, overflowed); exact = unwrapped value"""
    __slots__ = ("exact",)

    def __init__(self, val, ovf, exact):
        Agg.__init__(self, 0, (val, ovf))
        self.exact = exact


class Arr(Val):
    __slots__ = ("e", "h")

    def __init__(self, e):
        self.e = tuple(e)
        self.h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Arr) and self.e == o.e)

    def __hash__(self):
        if self.h is None:
            self.h = hash(self.e)
        return self.h

    def __repr__(self):
        if len(self.e) > 12:
            return f"[{', '.join(map(repr, self.e[:6]))}, ... x{len(self.e)}]"
        return f"[{', '.join(map(repr, self.e))}]"


class SArr(Val):
    """sequence of symbolic content and length; w: tuple of writes, latest last:
    ('w', idx, value) or ('r', start, len, srcseq, srcoff)"""
    __slots__ = ("base", "ety", "n", "w", "fill", "h")

    def __init__(self, base, ety, n, w=(), fill=None):
        self.base = base
        self.ety = ety
        self.n = n
        self.w = w
        self.fill = fill
        self.h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, SArr) and self.base == o.base and self.n == o.n and self.w == o.w
                             and self.fill == o.fill)

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.base, self.n, self.w))
        return self.h

    def __repr__(self):
        return f"<{self.base};{T.show(self.n)}{';w' + str(len(self.w)) if self.w else ''}>"


class VecV(Val):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return self is o or (isinstance(o, VecV) and self.s == o.s)

    def __hash__(self):
        return hash(("vec", self.s))

    def __repr__(self):
        return f"vec{self.s!r}"


class Ref(Val):
    """pointer to obj.path; meta: None | ('s', start, len) | ('vt', type string)"""
    __slots__ = ("o", "p", "m")

    def __init__(self, o, p=(), m=None):
        self.o = o
        self.p = p
        self.m = m

    def __eq__(self, o):
        return self is o or (isinstance(o, Ref) and self.o == o.o and self.p == o.p and self.m == o.m)

    def __hash__(self):
        return hash((self.o, self.p, self.m))

    def __repr__(self):
        m = ""
        if self.m and self.m[0] == "s":
            m = f"[{T.show(self.m[1])};{T.show(self.m[2])}]"
        elif self.m:
            m = f":{self.m[1]}"
        return f"&{self.o}{''.join('.' + str(x[1]) if len(x) > 1 else '.' + x[0] for x in self.p)}{m}"


class Sym(Val):
    """lazily expanded unknown value of a type"""
    __slots__ = ("ty", "name")

    def __init__(self, ty, name):
        self.ty = ty
        self.name = name

    def __eq__(self, o):
        return self is o or (isinstance(o, Sym) and self.name == o.name and self.ty is o.ty)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"?{self.name}"


class VSym(Val):
    __slots__ = ("s", "v")

    def __init__(self, s, v):
        self.s = s
        self.v = v

    def __eq__(self, o):
        return isinstance(o, VSym) and self.s == o.s and self.v == o.v

    def __hash__(self):
        return hash((self.s, self.v))


class TabV(Val):
    """element of a constant table selected by symbolic indices"""
    __slots__ = ("vals", "idx", "h")

    def __init__(self, vals, idx):
        self.vals = vals        # nested tuples, depth = len(idx); leaves: values or None
        self.idx = idx
        self.h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, TabV) and self.idx == o.idx and self.vals == o.vals)

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.idx, self.vals))
        return self.h

    def __repr__(self):
        return f"tab[{','.join(T.show(i) for i in self.idx)}]"


class DEnum(Val):
    """field-less enum value given by its discriminant"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, DEnum) and self.d == o.d

    def __hash__(self):
        return hash(("den", self.d))

    def __repr__(self):
        return f"disc({T.show(self.d)})"


class FnV(Val):
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, FnV) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f"fn {self.key}"


UNIT = Agg(0, ())
USIZE_MAX = (1 << 64) - 1
LEN_MAX = (1 << 63) - 1


# ------------------------------------------------------------------ state

class State:
    __slots__ = ("mem", "facts", "steps", "notes")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.steps = ()
        self.notes = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.steps = self.steps
        s.notes = self.notes
        return s

    def with_facts(self, f):
        s = self.copy()
        s.facts = f
        return s


class Alarm:
    __slots__ = ("kind", "fn", "line", "detail", "stack", "facts", "file", "block", "lines", "alts", "seenkey")

    def __init__(self, kind, fn, line, detail, stack, facts, file, block):
        self.alts = [facts]
        self.kind = kind
        self.fn = fn
        self.line = line
        self.detail = detail
        self.stack = stack
        self.facts = facts
        self.file = file
        self.block = block

    def key(self):
        return (self.kind, self.fn)

    def __repr__(self):
        return f"{self.kind} in {self.fn} ({self.file}:{self.line}): {self.detail}"


class Frame:
    __slots__ = ("fn", "uid", "call_block", "parent")

    def __init__(self, fn, uid, parent, call_block):
        self.fn = fn
        self.uid = uid
        self.parent = parent
        self.call_block = call_block


class Engine:
    def __init__(self, prog, max_depth=40, unroll_nonconst=8, unroll_max=600, max_steps=2_000_000, join_cap=64):
        self.prog = prog
        self.max_depth = max_depth
        self.unroll_nonconst = unroll_nonconst
        self.unroll_max = unroll_max
        self.join_cap = join_cap
        self.fork = False       # keep states with different path facts apart
        self.alarms = []
        self.alarm_seen = set()
        self.opaque = {}
        self.unsupported = {}
        self.kobjs = {}
        self.kconst = {}
        self.kby = {}
        self.sobjs = {}
        self.frames = []
        self.uids = {}
        self.uid_n = 0
        self.steps = 0
        self.max_steps = max_steps
        self.fresh_n = 0
        self.loop_log = []
        self.functions = set()
        self.asserts = set()
        self.models = None
        self.extra_models = {}
        self.tls = None             # initial value of a thread local
        self.opaque_show = ()       # types whose display text is kept as a unit
        self.obl = []
        self.loop_depth = 0
        self.invariants = []
        self.record_calls = None
        self.fmts = {}
        self.model_cache = {}
        self.no_unroll = set()
        from . import maps, models
        self.loop_states = 16      # paths followed side by side through an unrolled loop
        self.recursion = 0         # how often a function may be on the stack below itself
        self.map_order = "in"      # in which hash maps yield their entries
        self.models = models.MODELS
        self.model_rx = models.REGEX
        self.strict = bool(__import__("os").environ.get("KV_STRICT"))
        self.models_mod = models

    # -------------------------------------------------------------- misc
    def fresh_name(self, base):
        self.fresh_n += 1
        return f"{base}~{self.fresh_n}"

    def fn_stack(self):
        return [f.fn for f in self.frames]

    def note_unsupported(self, what):
        fr = self.user_frame()
        self.unsupported.setdefault((fr.def_ if fr else "?", what), 0)
        self.unsupported[(fr.def_ if fr else "?", what)] += 1

    def user_frame(self):
        for f in reversed(self.frames):
            if f.fn.crate.startswith("keramics"):
                return f.fn
        return self.frames[-1].fn if self.frames else None

    def alarm(self, kind, detail, state, block):
        # report at the innermost workspace frame
        fr = None
        blk = block
        for f in reversed(self.frames):
            if f.fn.crate.startswith("keramics"):
                fr = f
                break
            blk = f.call_block
        if fr is None:
            fr = self.frames[-1]
            blk = block
        line = fr.fn.blocks[blk]["l"] if blk is not None else fr.fn.line
        key = (kind, fr.fn.key, blk, tuple(f.fn.key for f in self.frames))
        a = Alarm(kind, fr.fn.def_, line, detail, [f.fn.def_ for f in self.frames], state.facts, fr.fn.file, blk)
        a.lines = line
        a.seenkey = key
        if key not in self.alarm_seen:
            self.alarm_seen.add(key)
            self.alarms.append(a)
        else:
            for x in self.alarms:
                if x.seenkey == key and len(x.alts) < 8:
                    x.alts.append(state.facts)

    # -------------------------------------------------------------- symbols by type
    def mk_sym(self, ty, name):
        k = ty.k
        if k == "int":
            lo, hi = ty.rng
            return T.sym(name, lo, hi)
        if k == "bool":
            return T.b_not(T.eq(T.sym(name, 0, 1)))
        if k == "char":
            return T.sym(name, 0, 0x10FFFF)
        if k in ("ref", "ptr"):
            t = ty.t
            o = ("S", name + ".*")
            if t.k == "slice":
                n = T.sym(name + ".len", 0, LEN_MAX)
                self.sobjs[o] = ("seq", t.t, n, name)
                return Ref(o, (), ("s", T.ZERO, n))
            if t.k == "str":
                n = T.sym(name + ".len", 0, LEN_MAX)
                self.sobjs[o] = ("seq", None, n, name)
                return Ref(o, (), ("s", T.ZERO, n))
            self.sobjs[o] = ("val", t, None, name)
            if t.k == "dyn":
                return Ref(o, (), ("vt", None))
            return Ref(o)
        if k == "array" and ty.n is not None:
            return SArr(name, ty.t, T.const(ty.n))
        if k == "tuple":
            return Agg(0, [self.mk_sym(t, f"{name}.{i}") for i, t in enumerate(ty.ts)])
        if k == "adt":
            if ty.p == "alloc::vec::Vec":
                return VecV(SArr(name, ty.ga[0], T.sym(name + ".len", 0, LEN_MAX)))
            if ty.p == "alloc::string::String":
                return VecV(SArr(name, None, T.sym(name + ".len", 0, LEN_MAX)))
            if ty.ak == "struct" and ty.vs and self.transparent(ty):
                return Agg(0, [self.mk_sym(ft, f"{name}.{fn}") for fn, ft in ty.vs[0][2]])
        if k in ("fndef",):
            return FnV(ty.key)
        return Sym(ty, name)

    def transparent(self, ty):
        """struct types that are expanded eagerly: those of the analysed workspace"""
        return ty.p.startswith("keramics") or ty.p in ("core::ops::range::Range",)

    def fresh(self, ty, base):
        return self.mk_sym(ty, self.fresh_name(base))

    # -------------------------------------------------------------- constants
    def k_ref(self, key, val):
        o = self.kby.get(key)
        if o is None:
            o = ("K", len(self.kobjs))
            self.kobjs[o] = val
            self.kby[key] = o
        return o

    def conv(self, raw, ty, name=None):
        """raw constant -> value"""
        k = ty.k
        if isinstance(raw, bool):
            return T.TRUE if raw else T.FALSE
        if isinstance(raw, int):
            return T.const(raw)
        if raw is None:
            return self.fresh(ty, "const")
        tag = raw[0]
        if tag == "?":
            return self.fresh(ty, "const?")
        if tag == "B":
            return Arr([T.const(x) for x in bytes.fromhex(raw[1])])
        if tag == "S":
            return Arr([T.const(x) for x in raw[1].encode()])
        if tag == "L":
            et = ty.t if ty.k in ("array", "slice") else None
            return Arr([self.conv(x, et) for x in raw[1]])
        if tag == "A":
            if k == "tuple":
                return Agg(0, [self.conv(x, t) for x, t in zip(raw[2], ty.ts)])
            if k == "adt":
                fs = ty.vs[raw[1]][2]
                return Agg(raw[1], [self.conv(x, t[1]) for x, t in zip(raw[2], fs)])
            return Agg(raw[1], [self.conv(x, ty) for x in raw[2]])
        if tag == "R":
            t = ty.t
            v = self.conv(raw[1], t)
            o = self.k_ref((name, v), v)
            if t.k in ("slice", "str"):
                return Ref(o, (), ("s", T.ZERO, T.const(len(v.e))))
            return Ref(o)
        if tag == "G" and len(raw) > 2 and raw[2] != ["?"] and raw[2] is not None:
            return self.conv(["R", raw[2]], ty, "static " + raw[1])
        if tag == "F":
            return FnV(raw[1])
        if tag == "Z":
            if k == "fndef":
                return FnV(ty.key)
            return self.zst(ty)
        return self.fresh(ty, "const")

    def zst(self, ty):
        if ty.k == "tuple":
            return UNIT
        if ty.k == "adt" and ty.vs:
            return Agg(0, [self.zst(t) for _, t in ty.vs[0][2]])
        if ty.k == "closure":
            return Agg(("cl", ty.key), ())
        if ty.k == "array":
            return Arr(())
        return UNIT

    def const_value(self, c):
        n = c["n"]
        if n is not None:
            v = self.kconst.get(n)
            if v is None:
                ent = self.prog.consts.get(n)
                v = self.conv(ent[1], ent[0], n) if ent else self.fresh(c["t"], "const")
                self.kconst[n] = v
            return v
        raw = c["v"]
        if isinstance(raw, list) and raw and raw[0] in ("R", "A", "L", "B", "G"):
            key = id(raw)
            v = self.kconst.get(key)
            if v is None:
                v = self.conv(raw, c["t"])
                self.kconst[key] = v
            return v
        if isinstance(raw, list) and raw and raw[0] in ("Z",) and c["t"].k == "closure":
            return Agg(("cl", c["t"].key), ())
        return self.conv(raw, c["t"])

    # -------------------------------------------------------------- memory
    def load_obj(self, st, o):
        v = st.mem.get(o)
        if v is not None:
            return v
        if o[0] == "K":
            return self.kobjs[o]
        if o[0] == "S":
            k, t, n, name = self.sobjs[o]
            if k == "seq":
                v = SArr(name, t if t is not None else U8, n)
            else:
                v = self.mk_sym(t, name + ".*") if t.k not in ("dyn", "slice", "str") else Sym(t, name + ".*")
            st.mem[o] = v
            return v
        raise Unsupported(f"read of uninitialised {o}")

    def below(self, st, x, n):
        """0 <= x < n on this path, where linear facts about its symbols are needed to see it"""
        f = st.facts
        lo, hi = f.rng(x)
        if lo >= 0 and hi < n:
            return True
        if len(x.t) < 2 or not f.lins:
            return False
        return f.truth(T.le(T.addk(x, 1 - n))) is True and f.truth(T.le(T.neg(x))) is True

    def project(self, st, v, e, ty=None):
        k = e[0]
        if k == "f":
            if isinstance(v, Agg):
                if e[1] < len(v.f):
                    return v.f[e[1]]
                raise Unsupported(f"field {e[1]} of {v!r}")
            if isinstance(v, Sym):
                return self.sym_field(v, 0, e[1], e[2] if len(e) > 2 else None)
            if isinstance(v, VSym):
                return self.sym_field(v.s, v.v, e[1], e[2] if len(e) > 2 else None)
            if isinstance(v, TabV):
                return self.tab_map(v, lambda x: x.f[e[1]] if isinstance(x, Agg) and e[1] < len(x.f) else None)
            if isinstance(v, Ref) and e[1] == 0:
                # wrapper types around pointers (Box/Unique/NonNull) are represented by the pointer
                return v
            if isinstance(v, VecV):
                raise Unsupported("field of Vec")
            raise Unsupported(f"field of {type(v).__name__}")
        if k == "v":
            if isinstance(v, Agg):
                return v
            if isinstance(v, Sym):
                return VSym(v, e[1])
            if isinstance(v, TabV):
                return self.tab_map(v, lambda x: x if isinstance(x, Agg) and x.v == e[1] else None)
            raise Unsupported(f"downcast of {type(v).__name__}")
        if k == "i":
            return self.seq_get(st, v, e[1])
        if k == "vec":
            if isinstance(v, VecV):
                return v.s
            raise Unsupported(f"vec of {type(v).__name__}")
        raise Unsupported(f"projection {e}")

    def sym_field(self, s, variant, i, ty):
        t = s.ty
        name = f"{s.name}.{i}"
        if t.k == "adt" and t.vs:
            vs = t.vs[variant]
            if t.ak == "enum":
                name = f"{s.name}.{vs[0]}.{i}"
            if i < len(vs[2]):
                if t.ak != "enum":
                    name = f"{s.name}.{vs[2][i][0]}"
                return self.mk_sym(vs[2][i][1], name)
        if t.k == "closure" and t.ts and i < len(t.ts):
            return self.mk_sym(t.ts[i], name)
        if ty is not None:
            return self.mk_sym(ty, name)
        raise Unsupported(f"field of opaque {t}")

    def tab_map(self, tv, f):
        def rec(v, d):
            if v is None:
                return None
            if d == 0:
                return f(v)
            return tuple(rec(x, d - 1) for x in v)
        return self.mk_tab(rec(tv.vals, len(tv.idx)), tv.idx)

    def mk_tab(self, vals, idx):
        """table value; integer/bool tables become terms"""
        leaves = list(_leaves(vals, len(idx)))
        live = [x for x in leaves if x is not None]
        if live and all(isinstance(x, T.Lin) and not x.t for x in live):
            return T.table(_strip(vals, len(idx)), idx if len(idx) > 1 else idx[0])
        if live and all(isinstance(x, T.B) and x.op in ("true", "false") for x in live):
            def rec(v, d):
                if v is None:
                    return None
                if d == 0:
                    return 1 if v.op == "true" else 0
                return tuple(rec(x, d - 1) for x in v)
            return T.b_not(T.eq(T.table(rec(vals, len(idx)), idx if len(idx) > 1 else idx[0])))
        if live and all(x == live[0] for x in live[1:]):
            return live[0]
        return TabV(vals, idx)

    def seq_len(self, v):
        if isinstance(v, Arr):
            return T.const(len(v.e))
        if isinstance(v, SArr):
            return v.n
        if isinstance(v, VecV):
            return self.seq_len(v.s)
        if isinstance(v, TabV):
            return self.tab_map_int(v, lambda x: len(x.e) if isinstance(x, Arr) else None)
        if isinstance(v, Sym):
            return T.sym(v.name + ".len", 0, LEN_MAX)
        raise Unsupported(f"length of {type(v).__name__}")

    def tab_map_int(self, tv, f):
        def rec(v, d):
            if v is None:
                return None
            if d == 0:
                return f(v)
            return tuple(rec(x, d - 1) for x in v)
        return T.table(rec(tv.vals, len(tv.idx)), tv.idx if len(tv.idx) > 1 else tv.idx[0])

    def seq_get(self, st, v, i):
        if isinstance(v, VecV):
            v = v.s
        if isinstance(v, Arr):
            if not i.t:
                if 0 <= i.k < len(v.e):
                    return v.e[i.k]
                raise Unsupported("index out of range")
            lo, hi = st.facts.rng(i)
            lo = max(lo, 0)
            hi = min(hi, len(v.e) - 1)
            if lo == hi:
                return v.e[lo]
            if all(_is_const(x) for x in v.e):
                return self.mk_tab(v.e, (i,))
            first = v.e[lo] if v.e else None
            if first is not None and all(x == first for x in v.e[lo:hi + 1]):
                return first
            if all(isinstance(x, T.Lin) for x in v.e[lo:hi + 1]):
                if hi - lo < 4:
                    out = v.e[hi]
                    for j in range(hi - 1, lo - 1, -1):
                        out = T.ite(T.eq(T.addk(i, -j)), v.e[j], out)
                    return out
                rl = min(st.facts.rng(x)[0] for x in v.e[lo:hi + 1])
                rh = max(st.facts.rng(x)[1] for x in v.e[lo:hi + 1])
                return T.fresh("elem", rl, rh)
            raise Unsupported("symbolic index into structured array")
        if isinstance(v, SArr):
            return self.sarr_get(st, v, i)
        if isinstance(v, TabV):
            # inner table selected by v, element i
            if not i.t:
                return self.tab_map(v, lambda x: x.e[i.k] if isinstance(x, Arr) and 0 <= i.k < len(x.e) else None)
            def rec(x, d):
                if x is None:
                    return None
                if d == 0:
                    return x.e if isinstance(x, Arr) else None
                return tuple(rec(y, d - 1) for y in x)
            return self.mk_tab(rec(v.vals, len(v.idx)), v.idx + (i,))
        if isinstance(v, Sym) and v.ty.k in ("slice", "array"):
            return self.sarr_get(st, SArr(v.name, v.ty.t, self.seq_len(v)), i)
        raise Unsupported(f"index of {type(v).__name__}")

    def sarr_get(self, st, v, i):
        f = st.facts
        for w in reversed(v.w):
            if w[0] == "w":
                d = T.sub(i, w[1])
                t = f.truth(T.eq(d))
                if t is True:
                    return w[2]
                if t is False:
                    continue
                return self.fresh(v.ety, v.base + "[?]") if v.ety is not None else T.fresh(v.base, 0, 255)
            # range write
            _, start, n, src, off = w
            d = T.sub(i, start)
            inside = f.truth(T.b_and(T.le(T.neg(d)), T.le(T.addk(T.sub(d, n), 1))))
            if inside is True:
                if src is None:
                    return self.fresh(v.ety or U8, v.base + "[?]")
                return self.seq_get(st, src, T.add(d, off))
            if inside is False:
                continue
            return self.fresh(v.ety or U8, v.base + "[?]")
        if v.fill is not None:
            return v.fill
        return self.elem_sym(v, i)

    def elem_sym(self, v, i):
        ety = v.ety or U8
        if ety.k == "int":
            lo, hi = ety.rng
            return T.of(T.atom("sel", (v.base, i), lo, hi))
        return self.mk_sym(ety, f"{v.base}[{T.show(i)}]")

    def seq_set(self, st, v, i, x):
        if isinstance(v, VecV):
            return VecV(self.seq_set(st, v.s, i, x))
        if isinstance(v, Arr):
            if not i.t:
                if 0 <= i.k < len(v.e):
                    return Arr(v.e[:i.k] + (x,) + v.e[i.k + 1:])
                raise Unsupported("store out of range")
            s = SArr(self.fresh_name("arr"), None, T.const(len(v.e)))
            s = SArr(s.base, _ety(v), s.n, (("r", T.ZERO, T.const(len(v.e)), v, T.ZERO), ("w", i, x)))
            return s
        if isinstance(v, SArr):
            if isinstance(v.n, T.Lin) and not v.n.t and v.n.k <= 256 and not i.t and not v.w:
                # concrete small array: expand
                e = [v.fill if v.fill is not None else self.elem_sym(v, T.const(j)) for j in range(v.n.k)]
                if 0 <= i.k < len(e):
                    e[i.k] = x
                    return Arr(e)
            w = v.w
            if w and w[-1][0] == "w" and w[-1][1] == i:
                w = w[:-1]
            return SArr(v.base, v.ety, v.n, w + (("w", i, x),), v.fill)
        raise Unsupported(f"store into {type(v).__name__}")

    def update(self, st, v, path, x, k=0):
        if k == len(path):
            return x
        e = path[k]
        if e[0] == "f":
            if isinstance(v, Sym):
                v = self.expand(v, 0)
            elif isinstance(v, VSym):
                v = self.expand(v.s, v.v)
            if isinstance(v, Agg):
                if e[1] >= len(v.f):
                    raise Unsupported("field store")
                nf = self.update(st, v.f[e[1]], path, x, k + 1)
                return Agg(v.v, v.f[:e[1]] + (nf,) + v.f[e[1] + 1:])
            if isinstance(v, Ref):
                return self.update(st, v, path, x, k + 1)
            raise Unsupported(f"field store into {type(v).__name__}")
        if e[0] == "v":
            if isinstance(v, Sym):
                v = self.expand(v, e[1])
            return self.update(st, v, path, x, k + 1)
        if e[0] == "i":
            if k + 1 == len(path):
                return self.seq_set(st, v, e[1], x)
            inner = self.seq_get(st, v, e[1])
            return self.seq_set(st, v, e[1], self.update(st, inner, path, x, k + 1))
        if e[0] == "vec":
            if isinstance(v, VecV):
                return VecV(self.update(st, v.s, path, x, k + 1))
        raise Unsupported(f"store through {e}")

    def expand(self, s, variant):
        t = s.ty
        if t.k == "adt" and t.vs and variant < len(t.vs):
            n = len(t.vs[variant][2])
            return Agg(variant, [self.sym_field(s, variant, i, None) for i in range(n)])
        if t.k == "closure" and t.ts is not None:
            return Agg(("cl", t.key), [self.sym_field(s, 0, i, None) for i in range(len(t.ts))])
        raise Unsupported(f"expand {t}")

    def load(self, st, o, path):
        v = self.load_obj(st, o)
        for e in path:
            v = self.project(st, v, e)
        return v

    def store(self, st, o, path, x):
        if not path:
            st.mem[o] = x
            return
        if o[0] == "K":
            raise Unsupported("store to constant")
        v = self.load_obj(st, o)
        st.mem[o] = self.update(st, v, path, x)

    # reading a whole slice window as a sequence
    def ref_seq(self, st, r):
        """(sequence value, start, len) behind a slice/array/vec reference"""
        v = self.load(st, r.o, r.p)
        if r.m and r.m[0] == "s":
            if isinstance(v, VecV):
                v = v.s
            return v, r.m[1], r.m[2]
        if isinstance(v, VecV):
            v = v.s
        return v, T.ZERO, self.seq_len(v)

    def slice_seq(self, st, r):
        """the window as a stand-alone sequence"""
        v, s, n = self.ref_seq(st, r)
        if not s.t and s.k == 0 and n == self.seq_len(v):
            return v
        if not s.t and not n.t and n.k <= 4096:
            return Arr([self.seq_get(st, v, T.const(s.k + j)) for j in range(n.k)])
        if not n.t and n.k <= 256:
            return Arr([self.seq_get(st, v, T.addk(s, j)) for j in range(n.k)])
        ety = v.ety if isinstance(v, SArr) else _ety(v)
        return SArr(self.fresh_name("win"), ety, n, (("r", T.ZERO, n, v, s),))

    # -------------------------------------------------------------- places
    def loc(self, st, fr, place):
        """(obj, path, window)"""
        o = (fr.uid, place[0])
        path = ()
        win = None
        for e in place[1]:
            k = e[0]
            if k == "d":
                r = self.load(st, o, path)
                r = self.deref_val(st, r)
                o, path = r.o, r.p
                win = r.m if r.m and r.m[0] == "s" else None
                if win is not None:
                    v = self.load(st, o, path)
                    if isinstance(v, VecV):
                        path = path + (("vec",),)
            elif k == "f":
                path = path + (("f", e[1], e[2]),)
            elif k == "v":
                path = path + (("v", e[1]),)
            elif k == "i":
                i = self.load(st, (fr.uid, e[1]), ())
                if win is not None:
                    i = T.add(i, win[1])
                    win = None
                path = path + (("i", i),)
            elif k == "c":
                off = T.const(e[1])
                if e[3]:
                    n = win[2] if win is not None else self.seq_len(self.load(st, o, path))
                    off = T.sub(n, off)
                if win is not None:
                    off = T.add(off, win[1])
                    win = None
                path = path + (("i", off),)
            elif k == "s":
                n = win[2] if win is not None else self.seq_len(self.load(st, o, path))
                start = T.const(e[1])
                end = T.sub(n, T.const(e[2])) if e[3] else T.const(e[2])
                base = win[1] if win is not None else T.ZERO
                win = ("s", T.add(base, start), T.sub(end, start))
            else:
                raise Unsupported(f"place {e}")
        return o, path, win

    def deref_val(self, st, r):
        while isinstance(r, Agg) and len(r.f) >= 1 and not isinstance(r, OvfPair):
            r = r.f[0]
        if isinstance(r, Ref):
            return r
        if isinstance(r, Sym) and r.ty.k in ("ref", "ptr"):
            return self.mk_sym(r.ty, r.name)
        if isinstance(r, Sym) and r.ty.k == "adt" and r.ty.p == "alloc::boxed::Box":
            o = ("S", r.name + ".*")
            t = r.ty.ga[0]
            self.sobjs[o] = ("val", t, None, r.name)
            return Ref(o, (), ("vt", None) if t.k == "dyn" else None)
        if isinstance(r, TabV):
            # table of references: one object holding the table of pointees
            def f(x):
                if isinstance(x, Ref):
                    return self.load(st, x.o, x.p)
                return None
            inner = self.tab_map(r, f)
            o = self.k_ref(("tabref", r), inner)
            ms = [x.m for x in _leaves(r.vals, len(r.idx)) if isinstance(x, Ref)]
            if ms and ms[0] and ms[0][0] == "s":
                n = self.tab_map_int(r, lambda x: x.m[2].k if isinstance(x, Ref) else None)
                return Ref(o, (), ("s", T.ZERO, n))
            return Ref(o)
        raise Unsupported(f"deref of {type(r).__name__} {r!r}"[:160])

    def place_ty(self, fn, place):
        t = fn.locals[place[0]]
        for e in place[1]:
            k = e[0]
            if k == "d":
                t = t.t if t.t is not None else t
            elif k == "f":
                t = e[2]
            elif k in ("i", "c"):
                t = t.t
        return t

    def op_ty(self, fn, op):
        if op[0] in ("cp", "mv"):
            return self.place_ty(fn, op[1])
        if op[0] == "k":
            return op[1]["t"]
        return None

    def read_place(self, st, fr, place):
        if not place[1]:
            v = st.mem.get((fr.uid, place[0]))
            if v is None:
                t = fr.fn.locals[place[0]]
                if t.sz == 0 or t.k in ("fndef", "never"):
                    return self.zst_or_fn(t)
                raise Unsupported(f"uninitialised local _{place[0]} of {fr.fn.def_}")
            return v
        if len(place[1]) and place[1][0][0] != "d" and (fr.uid, place[0]) not in st.mem:
            t = fr.fn.locals[place[0]]
            if t.sz == 0:
                return self.zst_or_fn(self.place_ty(fr.fn, place))
        o, path, win = self.loc(st, fr, place)
        v = self.load(st, o, path)
        if win is not None and win[0] == "s":
            t = self.place_ty(fr.fn, place)
            if t is not None and t.k == "array":
                if t.n <= 512:
                    return Arr([self.seq_get(st, v, T.addk(win[1], j)) for j in range(t.n)])
                return self.slice_seq(st, Ref(o, path, win))
            raise Unsupported("read of unsized place")
        return v

    def zst_or_fn(self, t):
        if t.k == "fndef":
            return FnV(t.key)
        return self.zst(t)

    def operand(self, st, fr, op):
        k = op[0]
        if k == "cp" or k == "mv":
            return self.read_place(st, fr, op[1])
        if k == "k":
            return self.const_value(op[1])
        if k == "rt":
            return T.TRUE if op[1] == "OverflowChecks" else T.FALSE
        raise Unsupported(f"operand {k}")

    def write_place(self, st, fr, place, v):
        if not place[1]:
            st.mem[(fr.uid, place[0])] = v
            return
        key = (fr.uid, place[0])
        if key not in st.mem and place[1][0][0] != "d":
            # field-wise initialisation
            t = fr.fn.locals[place[0]]
            st.mem[key] = self.undef(t, place[1])
        o, path, win = self.loc(st, fr, place)
        if win is not None and win[0] == "s":
            # an array seen through a slice
            self.models_mod.write_window(self, st, Ref(o, path, win), T.ZERO, win[2], v, T.ZERO)
            return
        self.store(st, o, path, v)

    def undef(self, t, proj):
        if t.k == "tuple":
            return Agg(0, [Sym(x, self.fresh_name("undef")) for x in t.ts])
        if t.k == "adt" and t.vs:
            vi = 0
            if proj and proj[0][0] == "v":
                vi = proj[0][1]
            return Agg(vi, [Sym(x, self.fresh_name("undef")) for _, x in t.vs[vi][2]])
        return Sym(t, self.fresh_name("undef"))

    # -------------------------------------------------------------- rvalues
    def as_int(self, v):
        if isinstance(v, T.Lin):
            return v
        if isinstance(v, T.B):
            return T.b_int(v)
        if isinstance(v, DEnum):
            return v.d
        if isinstance(v, Sym) and v.ty.k in ("int", "bool", "char"):
            return self.as_int(self.mk_sym(v.ty, v.name))
        raise Unsupported(f"integer expected, got {type(v).__name__}")

    def as_bool(self, v):
        if isinstance(v, T.B):
            return v
        if isinstance(v, T.Lin):
            if not v.t:
                return T.TRUE if v.k else T.FALSE
            return T.b_not(T.eq(v))
        if isinstance(v, Sym) and v.ty.k == "bool":
            return self.mk_sym(v.ty, v.name)
        raise Unsupported(f"bool expected, got {type(v).__name__}")

    def in_range(self, l, ty):
        lo, hi = ty.rng
        return T.b_and(T.le(T.sub(T.const(lo), l)), T.le(T.sub(l, T.const(hi))))

    def wrap(self, st, l, ty):
        lo, hi = ty.rng
        r = st.facts.rng(l)
        if r[0] >= lo and r[1] <= hi:
            return l
        if st.facts.lins and len(l.t) <= 4 and st.facts.truth(self.in_range(l, ty)):
            return l
        return T.wrap_s(l, ty.w, r) if ty.sg else T.wrap_u(l, ty.w, r)

    def unsigned(self, st, l, ty):
        if ty.sg:
            r = st.facts.rng(l)
            return T.wrap_u(l, ty.w, r)
        return l

    def binop(self, st, op, a, b, ty, ty2):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, (Ref,)) or isinstance(b, (Ref,)):
                if a == b and op in ("Eq", "Le", "Ge"):
                    return T.TRUE
                return T.B("opq", self.fresh_name("ptrcmp"))
            if isinstance(a, T.B) or isinstance(b, T.B):
                a, b = self.as_bool(a), self.as_bool(b)
                if op == "Eq":
                    return T.b_not(T.b_xor(a, b))
                if op == "Ne":
                    return T.b_xor(a, b)
            if isinstance(a, Sym) and a.ty.k not in ("int", "bool", "char"):
                return T.B("opq", self.fresh_name("cmp"))
            a, b = self.as_int(a), self.as_int(b)
            d = T.sub(a, b)
            if op == "Eq":
                return T.eq(d)
            if op == "Ne":
                return T.b_not(T.eq(d))
            if op == "Le":
                return T.le(d)
            if op == "Lt":
                return T.le(T.addk(d, 1))
            if op == "Ge":
                return T.le(T.neg(d))
            return T.le(T.addk(T.neg(d), 1))
        if op == "Offset":
            if isinstance(a, Ref):
                return self.models_mod.ptr_add(self, st, a, self.as_int(b))
            raise Unsupported("pointer offset")
        if op == "Cmp":
            d = T.sub(self.as_int(a), self.as_int(b))
            lt = T.le(T.addk(d, 1))
            return DEnum(T.ite(lt, T.const(-1), T.ite(T.eq(d), T.ZERO, T.ONE)))
        if ty is not None and ty.k == "bool" or isinstance(a, T.B):
            a, b = self.as_bool(a), self.as_bool(b)
            if op == "BitAnd":
                return T.b_and(a, b)
            if op == "BitOr":
                return T.b_or(a, b)
            if op == "BitXor":
                return T.b_xor(a, b)
            raise Unsupported(f"bool {op}")
        if ty is None or ty.k not in ("int", "char"):
            if ty is not None and ty.k == "float":
                return Sym(ty, self.fresh_name("float"))
            raise Unsupported(f"{op} on {ty}")
        a, b = self.as_int(a), self.as_int(b)
        w = ty.w
        if op in ("Add", "AddUnchecked"):
            return self.wrap(st, T.add(a, b), ty)
        if op in ("Sub", "SubUnchecked"):
            return self.wrap(st, T.sub(a, b), ty)
        if op in ("Mul", "MulUnchecked"):
            return self.wrap(st, self.mul(st, a, b), ty)
        if op.endswith("WithOverflow"):
            e = T.add(a, b) if op[0] == "A" else T.sub(a, b) if op[0] == "S" else self.mul(st, a, b)
            ok = self.in_range(e, ty)
            t = st.facts.truth(ok)
            if t is True:
                return OvfPair(e, T.FALSE, e)
            wr = T.wrap_s(e, w) if ty.sg else T.wrap_u(e, w)
            if t is False:
                return OvfPair(wr, T.TRUE, e)
            return OvfPair(T.ite(ok, e, wr), T.b_not(ok), e)
        if op in ("BitAnd", "BitOr", "BitXor"):
            ua, ub = self.unsigned(st, a, ty), self.unsigned(st, b, ty)
            r = None
            if op == "BitAnd":
                for x, y in ((ua, ub), (ub, ua)):
                    if not y.t and y.k & (y.k + 1) == 0 and x.t:
                        r = T.bits(x, 0, y.k.bit_length(), st.facts.rng(x))
            elif ua.t and ub.t:
                ma, mb = T.mask_of(ua), T.mask_of(ub)
                if ma is None or mb is None or ma & mb:
                    # one operand below the lowest bit of the other, by what is known on this path
                    for x, y in ((ua, ub), (ub, ua)):
                        g = math.gcd(y.k, *(c for _, c in y.t))
                        if not g & 1 and self.below(st, x, g & -g):
                            r = T.add(x, y)
                            break
            if r is None:
                r = {"BitAnd": T.and_, "BitOr": T.or_, "BitXor": T.xor_}[op](ua, ub, w)
            if ty.sg:
                r = T.wrap_s(r, w)
            return r
        if op in ("Shl", "ShlUnchecked"):
            ua = self.unsigned(st, a, ty)
            if b.t:
                lo, hi = st.facts.rng(b)
                if lo == hi:
                    b = T.const(lo)
            if not b.t:
                if ua.t and b.k and self.below(st, ua, 1 << (w - b.k % w)):
                    r = T.scale(ua, 1 << (b.k % w))
                else:
                    r = T.shl(ua, b.k % w, w)
            else:
                lo, hi = st.facts.rng(b)
                if lo < 0 or hi >= w:
                    b = T.bits(b, 0, (w - 1).bit_length())
                p = T.table(tuple(1 << i for i in range(w)), b)
                r = T.wrap_u(self.mul(st, ua, p), w, st.facts.rng(self.mul(st, ua, p)))
                if not ua.t and ua.k == 1:
                    r = p
            if ty.sg:
                r = T.wrap_s(r, w)
            return r
        if op in ("Shr", "ShrUnchecked"):
            if b.t:
                lo, hi = st.facts.rng(b)
                if lo == hi:
                    b = T.const(lo)
            r = st.facts.rng(a)
            if not b.t:
                n = b.k % w
                if n == 0:
                    return a
                if r[0] >= 0:
                    return T.bits(a, n, w - n, r)
                return T.fdiv(a, 1 << n)
            if not a.t and a.k == 0:
                return T.ZERO
            if r[0] >= 0:
                lo, hi = st.facts.rng(b)
                if 0 <= lo and hi < w:
                    return T.func("shr", (a, b), r[0] >> hi, r[1] >> lo)
                return T.func("shr", (a, T.bits(b, 0, (w - 1).bit_length())), 0, r[1])
            return T.func("sar", (a, b), r[0], max(r[1], 0))
        if op in ("Div", "Rem"):
            return self.divrem(st, op, a, b, ty)
        raise Unsupported(f"binop {op}")

    def mul(self, st, a, b):
        if a.t and b.t:
            ra, rb = st.facts.rng(a), st.facts.rng(b)
            if ra[0] == ra[1]:
                a = T.const(ra[0])
            elif rb[0] == rb[1]:
                b = T.const(rb[0])
            else:
                m = T.mul(a, b)
                # refine the product range with the fact ranges
                c = [x * y for x in ra for y in rb]
                at = m.single()
                if at is not None:
                    lo, hi = min(c), max(c)
                    if lo > at.lo or hi < at.hi:
                        f = st.facts.assume(T.le(T.sub(T.const(lo), m)))
                        f = f.assume(T.le(T.sub(m, T.const(hi)))) if f else None
                        if f is not None:
                            st.facts = f
                return m
        return T.mul(a, b)

    def divrem(self, st, op, a, b, ty):
        r = st.facts.rng(a)
        if b.t:
            rb = st.facts.rng(b)
            if rb[0] == rb[1]:
                b = T.const(rb[0])
        if not b.t and b.k != 0:
            d = b.k
            if d > 0 and (r[0] >= 0 or st.facts.entails_le(T.neg(a))):
                rr = (max(r[0], 0), r[1])
                q = T.fdiv(a, d, rr)
                if op == "Div":
                    return q
                return T.fmod(a, d, rr)
            if d > 0:
                q = T.ite(T.le(T.neg(a)), T.fdiv(a, d), T.neg(T.fdiv(T.neg(a), d)))
                if op == "Div":
                    return q
                m = T.ite(T.le(T.neg(a)), T.fmod(a, d), T.neg(T.fmod(T.neg(a), d)))
                return m
        rb = st.facts.rng(b)
        if r[0] >= 0 and rb[0] >= 0:
            if op == "Div":
                lo = r[0] // rb[1] if rb[1] else 0
                hi = r[1] // max(rb[0], 1)
                q = T.func("udiv", (a, b), 0, r[1])
                f = st.facts.assume(T.le(T.sub(q, T.const(hi))))
                f = f and f.assume(T.le(T.sub(T.const(lo), q)))
                f = f and f.assume(T.le(T.sub(q, a)))
                if f:
                    st.facts = f
                return q
            m = T.func("umod", (a, b), 0, max(r[1], 0))
            f = st.facts.assume(T.le(T.sub(m, a)))
            if rb[0] >= 1:
                f = f and f.assume(T.le(T.addk(T.sub(m, b), 1)))
            if f:
                st.facts = f
            return m
        lo, hi = ty.rng
        return T.func("s" + op.lower(), (a, b), lo, hi)

    def rvalue(self, st, fr, rv, dest):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            ty = self.op_ty(fr.fn, rv[2])
            return self.binop(st, rv[1], a, b, ty, None)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            ty = self.op_ty(fr.fn, rv[2])
            if rv[1] == "Not":
                if ty is not None and ty.k == "bool" or isinstance(a, T.B):
                    return T.b_not(self.as_bool(a))
                a = self.as_int(a)
                if ty.sg:
                    return T.addk(T.neg(a), -1)
                return T.not_(a, ty.w)
            if rv[1] == "Neg":
                if ty.k == "float":
                    return Sym(ty, self.fresh_name("float"))
                return self.wrap(st, T.neg(self.as_int(a)), ty)
            if rv[1] == "PtrMetadata":
                if isinstance(a, Ref):
                    if a.m and a.m[0] == "s":
                        return a.m[2]
                    if a.m is None:
                        return UNIT
                if isinstance(a, TabV):
                    return self.tab_map_int(a, lambda x: x.m[2].k if isinstance(x, Ref) and x.m else None)
                raise Unsupported("pointer metadata")
            raise Unsupported(f"unop {rv[1]}")
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "ref" or k == "addr":
            o, path, win = self.loc_for_ref(st, fr, rv[2])
            if win is None and o[0] != "K":
                pass
            m = win
            if m is None and rv[2][1]:
                # reborrow keeps dyn metadata
                last = rv[2][1][-1]
                if last[0] == "d":
                    base = self.read_place(st, fr, (rv[2][0], rv[2][1][:-1]))
                    try:
                        base = self.deref_val(st, base)
                        if base.m and base.m[0] == "vt":
                            m = base.m
                    except Unsupported:
                        pass
            return Ref(o, path, m)
        if k == "agg":
            return self.aggregate(st, fr, rv, dest)
        if k == "disc":
            v = self.read_place(st, fr, rv[1])
            return self.discriminant(st, v, self.place_ty(fr.fn, rv[1]))
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if n is None:
                raise Unsupported("repeat")
            if n <= 8192:
                return Arr([v] * n)
            return SArr(self.fresh_name("rep"), self.op_ty(fr.fn, rv[1]), T.const(n), (), v)
        if k == "tls":
            o = ("S", "tls:" + rv[1])
            raise Unsupported("thread local")
        raise Unsupported(f"rvalue {k}")

    def loc_for_ref(self, st, fr, place):
        if not place[1]:
            o = (fr.uid, place[0])
            if o not in st.mem:
                t = fr.fn.locals[place[0]]
                st.mem[o] = self.zst_or_fn(t) if t.sz == 0 else Sym(t, self.fresh_name("undef"))
            return o, (), None
        return self.loc(st, fr, place)

    def discriminant(self, st, v, ty):
        if isinstance(v, Agg):
            if ty.k == "adt" and ty.ak == "enum":
                return T.const(ty.vs[v.v][1])
            return T.const(0)
        if isinstance(v, DEnum):
            return v.d
        if isinstance(v, Sym):
            t = v.ty
            if t.k == "adt" and t.ak == "enum" and t.vs:
                ds = [x[1] for x in t.vs]
                d = T.sym(v.name + ".#", min(ds), max(ds))
                if len(ds) != max(ds) - min(ds) + 1:
                    f = st.facts._with_dom(d.single(), from_values(ds))
                    st.facts = f
                return d
            raise Unsupported(f"discriminant of {t}")
        if isinstance(v, TabV):
            vs = ty.vs
            return self.tab_map_int(v, lambda x: vs[x.v][1] if isinstance(x, Agg) else None)
        if isinstance(v, VSym):
            return self.discriminant(st, v.s, ty)
        raise Unsupported(f"discriminant of {type(v).__name__}")

    def aggregate(self, st, fr, rv, dest):
        kind = rv[1]
        ops = [self.operand(st, fr, o) for o in rv[2]]
        k = kind[0]
        if k == "array":
            return Arr(ops)
        if k == "tuple":
            return Agg(0, ops)
        if k == "adt":
            return Agg(kind[2], ops)
        if k == "closure":
            return Agg(("cl", kind[1]), ops)
        if k == "rawptr":
            p, m = ops
            if isinstance(p, Ref):
                if isinstance(m, T.Lin):
                    # thin pointer + length: pointer to the first element of a sequence
                    return self.models_mod.slice_from_raw(self, st, p, m)
                return p
        raise Unsupported(f"aggregate {k}")

    def cast(self, st, fr, rv):
        kind, op, ty = rv[1], rv[2], rv[3]
        v = self.operand(st, fr, op)
        src = self.op_ty(fr.fn, op)
        if kind == "IntToInt":
            if isinstance(v, DEnum):
                v = v.d
            v = self.as_int(v)
            if ty.k == "char" or ty.k == "bool":
                return v
            return self.wrap(st, v, ty)
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                return self.unsize(st, v, src, ty)
            if "Closure" in kind or "Reify" in kind:
                if isinstance(v, Agg) and isinstance(v.v, tuple):
                    return FnV(v.v[1])
                return v
            return v
        if kind in ("PtrToPtr", "Subtype", "FnPtrToPtr"):
            return self.ptr_cast(st, v, src, ty)
        if kind in ("Transmute", "BoxDerefTransmute"):
            return self.transmute(st, v, src, ty)
        if kind in ("IntToFloat", "FloatToFloat"):
            return Sym(ty, self.fresh_name("float"))
        if kind == "FloatToInt":
            lo, hi = ty.rng
            return T.fresh("fl2int", lo, hi)
        raise Unsupported(f"cast {kind}")

    def ptr_cast(self, st, v, src, ty):
        if isinstance(v, Ref) and v.m and v.m[0] == "s" and ty.k in ("ptr", "ref") and ty.t.k not in ("slice", "str"):
            # thin pointer to the first element
            return Ref(v.o, v.p + (("i", v.m[1]),), None)
        return v

    def transmute(self, st, v, src, ty):
        if ty.k in ("ptr", "ref"):
            return self.deref_val(st, v) if isinstance(v, (Agg, Ref)) else v
        if src is not None and src.k in ("ptr", "ref"):
            return v
        if ty.k == "int" and isinstance(v, (Arr, SArr)) and src.k == "array":
            n = src.n
            es = [self.as_int(self.seq_get(st, v, T.const(i))) for i in range(n)]
            if src.t.w == 8:
                l = T.ZERO
                for i, e in enumerate(es):
                    l = T.add(l, T.scale(e, 1 << (8 * i)))
                return T.wrap_s(l, ty.w) if ty.sg else l
        if ty.k == "array" and src.k == "int" and ty.t.w == 8:
            u = self.unsigned(st, self.as_int(v), src)
            return Arr([T.bits(u, 8 * i, 8) for i in range(ty.n)])
        if ty.k in ("int", "char") and src.k in ("int", "char"):
            return self.wrap(st, v, ty) if ty.k == "int" else v
        if ty.k == "adt" and src.k == "int":
            # integer -> fieldless enum (e.g. Ordering)
            if ty.ak == "enum" and all(not x[2] for x in ty.vs):
                return DEnum(self.as_int(v))
            if ty.ak == "enum":
                # Option<NonZero<_>>
                t = st.facts.truth(T.eq(self.as_int(v))) if ty.p == "core::option::Option" else None
                if t is None:
                    raise Unsupported(f"transmute {src} -> {ty}")
                return Agg(0, ()) if t else Agg(1, (Agg(0, (v,)),))
            return v if isinstance(v, Agg) else Agg(0, (v,))
        if src.k == "adt" and ty.k == "int":
            while isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            if isinstance(v, T.Lin):
                return v
        if src.k == "bool" and ty.k == "int":
            return T.b_int(self.as_bool(v))
        if src.s == ty.s:
            return v
        if ty.k == "adt" and src.k == "adt":
            return v
        raise Unsupported(f"transmute {src} -> {ty}")

    def unsize(self, st, v, src, ty):
        def inner(t):
            while t.k == "adt" and t.p in ("alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc"):
                return t.ga[0]
            return t.t
        s, d = inner(src), inner(ty)

        def go(x):
            if isinstance(x, Ref):
                if d.k == "slice":
                    n = s.n if s.k == "array" else None
                    if n is None:
                        raise Unsupported("unsize")
                    if x.m and x.m[0] == "s":
                        return x
                    return Ref(x.o, x.p, ("s", T.ZERO, T.const(n)))
                if d.k == "dyn":
                    if s.k == "dyn":
                        return x
                    return Ref(x.o, x.p, ("vt", s.s))
                if d.k == "adt" and s.k == "adt" and d.ga and s.ga and d.ga[-1].k == "dyn" and s.ga[-1].k != "dyn":
                    return Ref(x.o, x.p, ("vt", s.ga[-1].s))
                return x
            if isinstance(x, Agg) and x.f:
                return Agg(x.v, (go(x.f[0]),) + x.f[1:])
            if isinstance(x, TabV):
                return self.tab_map(x, lambda y: go(y) if isinstance(y, Ref) else None)
            if isinstance(x, Sym):
                return self.mk_sym(ty, x.name)
            raise Unsupported(f"unsize of {type(x).__name__}")
        return go(v)

    # -------------------------------------------------------------- execution
    def run(self, fn, args, st=None):
        """analyse fn on abstract arguments: list of (return value, state)"""
        st = st or State()
        return self.exec_fn(fn, args, st, None)

    def new_uid(self, parent, call_block, fn):
        key = (parent.uid if parent else None, call_block, fn.key)
        u = self.uids.get(key)
        if u is None:
            self.uid_n += 1
            u = self.uid_n
            self.uids[key] = u
        return u

    def exec_fn(self, fn, args, st, call_block):
        if len(self.frames) > self.max_depth:
            raise Unsupported("call depth")
        parent = self.frames[-1] if self.frames else None
        fr = Frame(fn, self.new_uid(parent, call_block, fn), parent, call_block)
        self.functions.add(fn.key)
        st = st.copy()
        nargs = fn.nargs
        if fn.closure and len(args) == 2 and nargs != 2:
            # rust-call ABI: (env, tuple) spread
            tup = args[1]
            args = [args[0]] + list(tup.f if isinstance(tup, Agg) else [])
        elif fn.closure and nargs == 2 and len(args) == 2 and isinstance(args[1], Agg) and args[1].v == "argtuple":
            args = [args[0], args[1].f[0]]
        if len(args) != nargs:
            raise Unsupported(f"arity of {fn.def_}: {len(args)} != {nargs}")
        for i, a in enumerate(args):
            st.mem[(fr.uid, i + 1)] = a
        self.frames.append(fr)
        try:
            exits, backs, rets = self.region(fr, {0: [st]}, None, None)
        finally:
            self.frames.pop()
        out = []
        for s in rets:
            rv = s.mem.get((fr.uid, 0))
            if rv is None:
                rv = self.zst_or_fn(fn.locals[0])
            s2 = s.copy()
            for k in [k for k in s2.mem if k[0] == fr.uid]:
                del s2.mem[k]
            out.append((rv, s2))
        return self.merge_rets(out)

    def merge_rets(self, out):
        if len(out) <= 1:
            return out
        res = []
        for v, s in out:
            for j, (v2, s2) in enumerate(res):
                if (not self.fork or s.facts.same(s2.facts)) and v == v2 and self.mem_equal(s.mem, s2.mem):
                    m = s2.copy()
                    m.facts = facts_join(s.facts, s2.facts)
                    res[j] = (v2, m)
                    break
            else:
                res.append((v, s))
        return res

    def mem_equal(self, a, b, skip=None):
        if len(a) != len(b):
            ka = set(a) ^ set(b)
            for k in ka:
                if k[0] == "H" or k[0] == "S":
                    continue
                return False
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                if k[0] in ("H", "S"):
                    continue
                return False
            if w is not v and w != v:
                if k[0] == "H" and not self._reachable(a, k):
                    continue
                return False
        return True

    def _reachable(self, mem, key):
        # is heap object `key` referenced from anything else in mem
        for k, v in mem.items():
            if k != key and _mentions(v, key):
                return True
        return False

    def prune(self, fr, st, block):
        """drop dead locals of the current frame"""
        cfg = self.prog.cfg(fr.fn)
        live = cfg.live_in[block]
        dead = [k for k in st.mem if k[0] == fr.uid and k[1] not in live and k[1] not in cfg.addr]
        if dead:
            st = st.copy()
            for k in dead:
                del st.mem[k]
        return st

    def merge_states(self, fr, states, block):
        if len(states) <= 1:
            return states
        states = [self.prune(fr, s, block) for s in states]
        res = []
        for s in states:
            for j, t in enumerate(res):
                if s.notes == t.notes and (not self.fork or s.facts.same(t.facts)) and self.mem_equal(s.mem, t.mem):
                    m = t.copy()
                    m.facts = facts_join(s.facts, t.facts)
                    # keep objects present on either side
                    for k, v in s.mem.items():
                        if k not in m.mem:
                            m.mem[k] = v
                    res[j] = m
                    break
            else:
                res.append(s)
        if len(res) >= 3 and not self.fork:
            res = self.table_merge(res)
        if len(res) > self.join_cap:
            res = [self.lossy_join(fr, res)]
        return res

    def table_merge(self, states):
        """exact merge of states that split on one small-domain symbol: a differing number becomes a
        table over that symbol"""
        out = []
        groups = {}
        for s in states:
            groups.setdefault(s.notes, []).append(s)
        for ss in groups.values():
            cur = []
            for s in ss:
                for j, t in enumerate(cur):
                    m = self._table_merge2(t, s)
                    if m is not None:
                        cur[j] = m
                        break
                else:
                    cur.append(s)
            out += cur
        return out

    def _table_merge2(self, s, t):
        f, g = s.facts, t.facts
        base = None
        for a in set(f.dom) | set(g.dom):
            if f.dom.get(a) != g.dom.get(a):
                d = T.atom_deps(a)
                if base is None:
                    base = set(d)
                else:
                    base |= d
                if len(base) > 1:
                    return None
        if not base or len(base) != 1:
            return None
        x = next(iter(base))
        if x.lo < 0 or x.hi > 1023:
            return None
        df, dg = f.domain(x), g.domain(x)
        if inter(df, dg):
            return None
        mem = {}
        try:
            for k in set(s.mem) | set(t.mem):
                a, b = s.mem.get(k), t.mem.get(k)
                if a is None or b is None:
                    if k[0] in ("H", "S"):
                        mem[k] = a if b is None else b
                        continue
                    return None
                mem[k] = a if (a is b or a == b) else self._tab_join(a, b, x, df, dg)
        except (_NoJoin, T.NoEval):
            return None
        m = s.copy()
        m.mem = mem
        m.facts = facts_join(f, g)
        return m

    def _tab_join(self, a, b, x, df, dg):
        if isinstance(a, T.Lin) and isinstance(b, T.Lin):
            only = {x}
            base = T.ZERO
            if not (T.lin_deps(a) <= only and T.lin_deps(b) <= only):
                base = a
                if not T.lin_deps(T.sub(b, a)) <= only:
                    raise _NoJoin
                b = T.sub(b, a)
                a = T.ZERO
            vals = [None] * (x.hi + 1)
            for d, v in ((df, a), (dg, b)):
                for i in members(d):
                    vals[i] = T.ev(v, {x: i})
            return T.add(base, T.table(tuple(vals), T.of(x)))
        if isinstance(a, T.B) and isinstance(b, T.B):
            if not (T.b_deps(a) <= {x} and T.b_deps(b) <= {x}):
                raise _NoJoin
            vals = [None] * (x.hi + 1)
            for d, v in ((df, a), (dg, b)):
                for i in members(d):
                    vals[i] = int(T.ev_b(v, {x: i}))
            return T.b_not(T.eq(T.table(tuple(vals), T.of(x))))
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
            return Agg(a.v, [p if (p is q or p == q) else self._tab_join(p, q, x, df, dg) for p, q in zip(a.f, b.f)])
        if isinstance(a, VecV) and isinstance(b, VecV):
            return VecV(self._tab_join(a.s, b.s, x, df, dg))
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
            return Arr([p if (p is q or p == q) else self._tab_join(p, q, x, df, dg) for p, q in zip(a.e, b.e)])
        raise _NoJoin

    def lossy_join(self, fr, states):
        cur = states[0]
        for s in states[1:]:
            m = cur.copy()
            m.facts = facts_join(cur.facts, s.facts)
            name = self.fresh_name("join")
            for k in set(cur.mem) & set(s.mem):
                a, b = cur.mem[k], s.mem[k]
                if a is not b and a != b:
                    ty = self._mem_ty(k)
                    m.mem[k] = self.hull(a, b, ty, f"{name}.{k[1]}", cur, s, m)
            for k in set(cur.mem) ^ set(s.mem):
                if k not in m.mem:
                    m.mem[k] = s.mem[k]
            cur = m
        return cur

    def _mem_ty(self, k):
        for f in self.frames:
            if f.uid == k[0]:
                return f.fn.locals[k[1]]
        return None

    def hull(self, a, b, ty, name, sa, sb, m):
        if a == b:
            return a
        if isinstance(a, T.Lin) and isinstance(b, T.Lin):
            ra, rb = sa.facts.rng(a), sb.facts.rng(b)
            return T.fresh(name, min(ra[0], rb[0]), max(ra[1], rb[1]))
        if isinstance(a, T.B) and isinstance(b, T.B):
            return T.b_not(T.eq(T.fresh(name, 0, 1)))
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
            fts = _field_tys(ty, a.v, len(a.f))
            return Agg(a.v, [self.hull(x, y, t, f"{name}.{i}", sa, sb, m)
                             for i, (x, y, t) in enumerate(zip(a.f, b.f, fts))])
        if isinstance(a, VecV) and isinstance(b, VecV):
            na, nb = self.seq_len(a), self.seq_len(b)
            ety = _ety(a.s) or _ety(b.s)
            n = na if na == nb else self.hull(na, nb, None, name + ".len", sa, sb, m)
            return VecV(SArr(self.fresh_name(name), ety, n))
        if isinstance(a, SArr) and isinstance(b, SArr) and _ety(a) == _ety(b) and self.seq_len(a) == self.seq_len(b):
            return SArr(self.fresh_name(name), _ety(a), self.seq_len(a))
        if ty is not None and ty.k not in ("ref", "ptr"):
            return self.fresh(ty, name)
        if ty is not None and not ty.m:
            return self.fresh(ty, name)
        raise Unsupported("join of differing values")

    def region(self, fr, entries, blocks, header):
        """process blocks in RPO; returns (exits {block: states}, back-edge states, return states)"""
        fn = fr.fn
        cfg = self.prog.cfg(fn)
        pending = {}
        heap = []
        exits = {}
        backs = []
        rets = []

        def push(b, s, from_header=False):
            if blocks is not None and b not in blocks:
                exits.setdefault(b, []).append(s)
                return
            if b == header and not from_header:
                backs.append(s)
                return
            if b not in pending:
                pending[b] = []
                heapq.heappush(heap, (cfg.idx[b], b))
            pending[b].append(s)

        for b, ss in entries.items():
            for s in ss:
                push(b, s, True)
        while heap:
            _, b = heapq.heappop(heap)
            states = pending.pop(b)
            states = self.merge_states(fr, states, b)
            if b in cfg.loops and b != header:
                for s in states:
                    ex, rt = self.loop(fr, b, s)
                    rets.extend(rt)
                    for eb, es in ex.items():
                        for x in es:
                            push(eb, x)
                continue
            for s in states:
                for nb, ns in self.block(fr, b, s):
                    if nb is None:
                        rets.append(ns)
                    else:
                        push(nb, ns)
        return exits, backs, rets

    # -------------------------------------------------------------- loops
    def loop(self, fr, header, st):
        cfg = self.prog.cfg(fr.fn)
        blocks = cfg.loops[header]
        if (fr.fn.key, header) in self.no_unroll:
            return self.summarise(fr, header, st, blocks)
        # 1. bounded unrolling
        saved = (len(self.alarms), set(self.alarm_seen))
        cur = [st]
        exits = {}
        rets = []
        nonconst = 0
        done = False
        it = 0
        try:
            while it < self.unroll_max:
                ex, backs, rt = self.region(fr, {header: cur}, blocks, header)
                for b, ss in ex.items():
                    exits.setdefault(b, []).extend(ss)
                rets.extend(rt)
                if not backs:
                    done = True
                    break
                cur = self.merge_states(fr, backs, header)
                if ex or rt or len(cur) > 1:
                    nonconst += 1
                    lim = self.unroll_limit(fr, header)
                    if nonconst > lim or len(cur) > self.loop_states:
                        break
                it += 1
        except Unsupported as e:
            if "index out of range" not in str(e) and "store out of range" not in str(e):
                raise
        if done:
            return exits, rets
        # 2. summarise
        self.no_unroll.add((fr.fn.key, header))
        del self.alarms[saved[0]:]
        self.alarm_seen = saved[1]
        return self.summarise(fr, header, st, blocks)

    def unroll_limit(self, fr, header):
        return self.unroll_nonconst

    def summarise(self, fr, header, st, blocks):
        st = self.prune(fr, st, header)
        self.fresh_n += 1
        lname = f"loop{self.fresh_n}@{fr.fn.name}"
        gen = {}           # leaf path -> kind
        head_mem = dict(st.mem)
        head = st
        self.loop_depth += 1
        saved = (len(self.alarms), set(self.alarm_seen))
        try:
            strides = {}
            # -- find the locations the body changes
            for rnd in range(12):
                del self.alarms[saved[0]:]
                self.alarm_seen = set(saved[1])
                head = self.mk_head(st, gen, lname, strides)
                ex, backs, rt = self.region(fr, {header: [head]}, blocks, header)
                backs = [self.prune(fr, b, header) for b in backs]
                n0 = len(gen)
                for b in backs:
                    for k, v in b.mem.items():
                        hv = head.mem.get(k)
                        if hv is None:
                            continue
                        if v is not hv and v != hv:
                            self.find_leaves((k,), hv, v, self._mem_ty(k), gen)
                if len(gen) == n0:
                    break
            else:
                raise Unsupported("loop generalisation did not converge")
            if not backs:
                return ex, rt
            # -- candidate invariants
            cands = self.candidates(fr, st, head, backs, gen, lname, ex, blocks)
            # entry filter
            inv = []
            for form in cands:
                e = self.subst_leaves(form, st, gen, lname)
                if e is not None and st.facts.truth(e) is True:
                    inv.append(form)
            for rnd in range(40):
                del self.alarms[saved[0]:]
                self.alarm_seen = set(saved[1])
                head = self.mk_head(st, gen, lname, strides)
                f = head.facts
                for form in inv:
                    f = f.assume(form)
                    if f is None:
                        raise Unsupported("contradictory loop invariants")
                head.facts = f
                ex, backs, rt = self.region(fr, {header: [head]}, blocks, header)
                backs = [self.prune(fr, b, header) for b in backs]
                if rnd == 0:
                    # obligations met inside may suggest more candidates
                    pass
                keep = []
                for form in inv:
                    ok = True
                    for b in backs:
                        e = self.subst_leaves(form, b, gen, lname)
                        if e is None or b.facts.truth(e) is not True:
                            ok = False
                            break
                    if ok:
                        keep.append(form)
                if len(keep) == len(inv):
                    break
                inv = keep
            self.invariants.append((fr.fn.def_, header, [repr(x) for x in inv]))
            return ex, rt
        finally:
            self.loop_depth -= 1

    def leaf_name(self, lname, lp):
        return f"{lname}:{lp[0][0]}_{lp[0][1]}" + "".join("." + str(x) for x in lp[1:])

    def find_leaves(self, lp, a, b, ty, gen):
        """record the leaf locations where a and b differ"""
        if a is b or a == b:
            return
        if isinstance(a, OvfPair):
            a = Agg(a.v, a.f)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
            fts = _field_tys(ty, a.v, len(a.f))
            for i, (x, y, t) in enumerate(zip(a.f, b.f, fts)):
                self.find_leaves(lp + (("f", i),), x, y, t, gen)
            return
        if isinstance(a, T.Lin) and isinstance(b, T.Lin):
            gen[lp] = ("int", ty)
            return
        if isinstance(a, T.B) and isinstance(b, T.B):
            gen[lp] = ("bool", ty)
            return
        if isinstance(a, VecV) and isinstance(b, VecV):
            ety = _ety(a.s) or _ety(b.s)
            if self.seq_len(a) != self.seq_len(b):
                gen[lp + (("len",),)] = ("veclen", None)
            gen[lp] = ("vec", ety or gen.get(lp, (None, None))[1])
            return
        if isinstance(a, (Arr, SArr)) and isinstance(b, (Arr, SArr)):
            if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e) and len(a.e) <= 64:
                for i, (x, y) in enumerate(zip(a.e, b.e)):
                    self.find_leaves(lp + (("i", i),), x, y, ty.t if ty is not None and ty.t else None, gen)
                return
            gen[lp] = ("arr", _ety(a) or _ety(b) or (ty.t if ty is not None else None))
            return
        if isinstance(a, Ref) and isinstance(b, Ref) and a.o == b.o and a.p == b.p and a.m and b.m and a.m[0] == b.m[0] == "s":
            if a.m[1] != b.m[1]:
                gen[lp + (("ms",),)] = ("refstart", None)
            if a.m[2] != b.m[2]:
                gen[lp + (("ml",),)] = ("reflen", None)
            return
        if isinstance(a, (Ref,)) or isinstance(b, (Ref,)):
            if ty is not None and not _has_mut(ty):
                gen[lp] = ("top", ty)
                return
            self.note_unsupported("loop-carried pointer")
            gen[lp] = ("top", ty)
            return
        if ty is None and isinstance(a, Sym) and isinstance(b, Sym) and a.ty is b.ty:
            ty = a.ty
        if ty is None:
            raise Unsupported(f"loop-carried {type(a).__name__}/{type(b).__name__}")
        gen[lp] = ("top", ty)

    def mk_head(self, st, gen, lname, strides):
        head = st.copy()
        f = head.facts
        for lp in sorted(gen, key=lambda x: len(x)):
            kind, ty = gen[lp]
            key = lp[0]
            if _covered(lp, gen):
                continue
            cur = head.mem.get(key)
            name = self.leaf_name(lname, lp)
            v = self.gen_leaf(head, cur, lp[1:], kind, ty, name)
            head.mem[key] = v
        head.facts = f
        return head

    def gen_leaf(self, st, v, path, kind, ty, name):
        if not path:
            if kind == "int":
                if ty is not None and ty.rng:
                    return T.sym(name, *ty.rng)
                return T.sym(name, 0, USIZE_MAX)
            if kind == "bool":
                return T.b_not(T.eq(T.sym(name, 0, 1)))
            if kind == "vec":
                n = self.seq_len(v)
                return VecV(SArr(name, ty, n))
            if kind == "arr":
                return SArr(name, ty, self.seq_len(v))
            if kind == "top":
                return self.mk_sym(ty, name) if ty is not None else v
            raise Unsupported(kind)
        e = path[0]
        if e[0] == "f":
            if isinstance(v, Sym):
                v = self.expand(v, 0)
            return Agg(v.v, v.f[:e[1]] + (self.gen_leaf(st, v.f[e[1]], path[1:], kind, ty, name),) + v.f[e[1] + 1:])
        if e[0] == "i":
            return Arr(v.e[:e[1]] + (self.gen_leaf(st, v.e[e[1]], path[1:], kind, ty, name),) + v.e[e[1] + 1:])
        if e[0] == "len":
            n = T.sym(name, 0, LEN_MAX)
            s = v.s
            return VecV(SArr(s.base if isinstance(s, SArr) else name + ".c", _ety(s), n))
        if e[0] == "ms":
            return Ref(v.o, v.p, ("s", T.sym(name, 0, LEN_MAX), v.m[2]))
        if e[0] == "ml":
            return Ref(v.o, v.p, ("s", v.m[1], T.sym(name, 0, LEN_MAX)))
        raise Unsupported(f"generalise {e}")

    def get_leaf(self, st, lp):
        v = st.mem.get(lp[0])
        if v is None:
            return None
        for e in lp[1:]:
            if e[0] == "f":
                if isinstance(v, Agg) and e[1] < len(v.f):
                    v = v.f[e[1]]
                else:
                    return None
            elif e[0] == "i":
                if isinstance(v, Arr):
                    v = v.e[e[1]]
                else:
                    return None
            elif e[0] == "len":
                v = self.seq_len(v)
            elif e[0] == "ms":
                v = v.m[1]
            elif e[0] == "ml":
                v = v.m[2]
        return v

    def int_leaves(self, gen, lname):
        out = {}
        for lp, (kind, ty) in gen.items():
            if kind in ("int", "veclen", "refstart", "reflen"):
                if _covered(lp, gen):
                    continue
                name = self.leaf_name(lname, lp)
                if kind == "int" and ty is not None and ty.rng:
                    a = T.sym(name, *ty.rng)
                elif kind == "int":
                    a = T.sym(name, 0, USIZE_MAX)
                else:
                    a = T.sym(name, 0, LEN_MAX)
                out[lp] = a.single()
        return out

    def subst_leaves(self, form, st, gen, lname):
        m = {}
        for lp, a in self.int_leaves(gen, lname).items():
            v = self.get_leaf(st, lp)
            if isinstance(v, T.Lin):
                m[a] = v
        return _subst_b(form, m, set(self.int_leaves(gen, lname).values()))

    def candidates(self, fr, st, head, backs, gen, lname, exits, blocks):
        leaves = self.int_leaves(gen, lname)
        atoms = list(leaves.values())
        entry = {}
        for lp, a in leaves.items():
            v = self.get_leaf(st, lp)
            if isinstance(v, T.Lin):
                entry[a] = v
        cands = []

        def addc(b):
            if b.op in ("le", "eq") and b not in seen:
                seen.add(b)
                cands.append(b)
        seen = set()
        aset = set(atoms)
        for a in atoms:
            h = T.of(a)
            if a in entry:
                e = entry[a]
                addc(T.le(T.sub(e, h)))
                addc(T.le(T.sub(h, e)))
        # deltas on the back edges -> affine equalities and strides
        rows = []
        for b in backs:
            row = {}
            for lp, a in leaves.items():
                v = self.get_leaf(b, lp)
                if isinstance(v, T.Lin):
                    row[a] = T.sub(v, T.of(a))
                else:
                    row[a] = None
            rows.append(row)
        usable = [a for a in atoms if a in entry and all(r[a] is not None for r in rows)]
        for vec in _nullspace(rows, usable)[:12]:
            l = T.ZERO
            for a, c in vec.items():
                l = T.add(l, T.scale(T.sub(T.of(a), entry[a]), c))
            addc(T.eq(l))
        # guards and facts gathered in the body
        lits = set()
        for s in backs + [x for ss in exits.values() for x in ss]:
            for l in s.facts.lins:
                if l not in st.facts.lins and any(x in aset for x in l.atoms()):
                    lits.add(l)
            for a in atoms:
                d = s.facts.domain(a)
                lo, hi = d[0][0], d[-1][1]
                if lo > a.lo:
                    lits.add(T.sub(T.const(lo), T.of(a)))
                if hi < a.hi:
                    lits.add(T.sub(T.of(a), T.const(hi)))
        for al in self.alarms[-40:]:
            pass
        for l in list(lits)[:80]:
            addc(T.le(l))
            addc(T.le(T.addk(l, -1)))
            n = T.sub(T.ONE, l)      # negation
            addc(T.le(n))
            addc(T.le(T.addk(n, -1)))
            # weakened by the step of the atoms involved
            for r in rows[:6]:
                shift = 0
                ok = True
                for x, c in l.t:
                    if x in aset:
                        d = r.get(x)
                        if d is None or d.t:
                            ok = False
                            break
                        shift += c * d.k
                if ok and shift > 0:
                    addc(T.le(T.addk(l, -shift)))
        # constants of the function as thresholds
        consts = self.fn_consts(fr.fn)
        for a in atoms:
            h = T.of(a)
            if a not in entry:
                continue
            lo, hi = st.facts.rng(entry[a])
            for c in consts:
                for cc in (c - 1, c, c + 1):
                    if hi <= cc < a.hi:
                        addc(T.le(T.sub(h, T.const(cc))))
                    if a.lo < cc <= lo:
                        addc(T.le(T.sub(T.const(cc), h)))
            if lo > a.lo:
                addc(T.le(T.sub(T.const(lo), h)))
            if hi < a.hi:
                addc(T.le(T.sub(h, T.const(hi))))
        # pairs, and sequence lengths in scope
        lens = self.scope_lengths(fr, st)
        for i, a in enumerate(atoms):
            if a not in entry:
                continue
            for b in atoms[i + 1:]:
                if b not in entry:
                    continue
                d = T.sub(T.of(a), T.of(b))
                addc(T.le(d))
                addc(T.le(T.neg(d)))
            for n in lens:
                addc(T.le(T.sub(T.of(a), n)))
        if len(cands) > 400:
            cands = cands[:400]
        return cands

    def scope_lengths(self, fr, st):
        out = []
        seen = set()
        for k, v in st.mem.items():
            for n in _lens(v):
                if n.t and n not in seen:
                    seen.add(n)
                    out.append(n)
            if len(out) > 12:
                break
        return out

    def fn_consts(self, fn):
        c = getattr(fn, "raw", None)
        if isinstance(c, list):
            return c
        out = set()

        def op(o):
            if o[0] == "k" and isinstance(o[1].get("v"), int) and not isinstance(o[1]["v"], bool):
                out.add(o[1]["v"])
            elif o[0] == "k" and o[1].get("n"):
                e = self.prog.consts.get(o[1]["n"])
                if e and isinstance(e[1], int) and not isinstance(e[1], bool):
                    out.add(e[1])
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] == "bin":
                        op(r[2])
                        op(r[3])
                    elif r[0] == "use":
                        op(r[1])
            if b["t"][0] == "call":
                for a in b["t"][2]:
                    op(a)
            if b["t"][0] == "switch":
                for v, _ in b["t"][3]:
                    if v < 1 << 20:
                        out.add(v)
        fn.raw = sorted(out, key=abs)[:24]
        return fn.raw

    # -------------------------------------------------------------- blocks
    def block(self, fr, b, st):
        """execute one block; list of (successor or None for return, state)"""
        fn = fr.fn
        blk = fn.blocks[b]
        st = st.copy()
        self.steps += 1 + len(blk["s"])
        if self.steps > self.max_steps:
            raise Budget(f"step budget exhausted in {fn.def_}")
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                try:
                    v = self.rvalue(st, fr, s[2], s[1])
                except Unsupported as e:
                    v = self.recover(st, fr, s, e)
                self.write_place(st, fr, s[1], v)
            elif k == "sx":
                st.mem.pop((fr.uid, s[1]), None)
            elif k == "sd":
                t = self.place_ty(fn, s[1])
                o, path, _ = self.loc(st, fr, s[1])
                old = self.load(st, o, path)
                if isinstance(old, Agg) and old.v == s[2]:
                    pass
                elif isinstance(old, Agg) and not old.f or not t.vs[s[2]][2]:
                    self.store(st, o, path, Agg(s[2], ()))
                elif isinstance(old, Agg):
                    self.store(st, o, path, Agg(s[2], old.f))
                else:
                    self.store(st, o, path, self.expand(old, s[2]) if isinstance(old, Sym) else old)
            elif k == "assume":
                c = self.as_bool(self.operand(st, fr, s[1]))
                f = st.facts.assume(c)
                if f is None:
                    return []
                st.facts = f
            elif k == "cno":
                raise Unsupported("copy_nonoverlapping statement")
        return self.terminator(fr, b, blk["t"], st)

    def recover(self, st, fr, s, e):
        """a construct outside the abstraction: the destination becomes unknown"""
        t = self.place_ty(fr.fn, s[1])
        msg = str(e)
        if t is None or t.k in ("ptr",) or (t.k == "ref" and t.m):
            raise e
        self.note_unsupported(msg)
        return self.fresh(t, "unknown")

    def branch(self, st, cond, pos=True):
        c = cond if pos else T.b_not(cond)
        t = st.facts.truth(c)
        if t is False:
            return None
        if t is True:
            return st
        f = st.facts.assume(c)
        if f is None:
            return None
        if f is not st.facts and f.lins and not f.feasible():
            return None
        return st.with_facts(f)

    def terminator(self, fr, b, t, st):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [(None, st)]
        if k == "drop":
            self.on_drop(st, fr, t)
            return [(t[2], st)]
        if k == "switch":
            return self.switch(fr, b, t, st)
        if k == "assert":
            cond = self.as_bool(self.operand(st, fr, t[1]))
            if not t[2]:
                cond = T.b_not(cond)
            self.asserts.add((fr.fn.key, b))
            tr = st.facts.truth(cond)
            if tr is not True:
                bad = self.branch(st, cond, False)
                if bad is not None:
                    self.alarm("panic:" + t[3].split(":")[0], f"{t[3]} not excluded: requires {cond!r}"[:300], bad, b)
                st = self.branch(st, cond, True)
                if st is None:
                    return []
            if t[3].startswith("overflow") and t[1][0] in ("mv", "cp"):
                l = t[1][1][0]
                v = st.mem.get((fr.uid, l))
                if isinstance(v, OvfPair):
                    st = st.copy()
                    st.mem[(fr.uid, l)] = Agg(0, (v.exact, T.FALSE))
            return [(t[5], st)]
        if k == "call":
            return self.call(fr, b, t, st)
        if k == "unreachable":
            return []
        if k == "resume":
            return []
        raise Unsupported(f"terminator {k}")

    def on_drop(self, st, fr, t):
        pass

    def switch(self, fr, b, t, st):
        v = self.operand(st, fr, t[1])
        if isinstance(v, T.B):
            out = []
            cond = v
            targets = dict(t[3])
            # boolean: value 0 -> false target, otherwise true
            if 0 in targets:
                fb, tb = targets[0], t[4]
            else:
                fb, tb = t[4], targets[1]
            s = self.branch(st, cond, True)
            if s is not None:
                out.append((tb, s))
            s = self.branch(st, cond, False)
            if s is not None:
                out.append((fb, s))
            return out
        ty = t[2]
        x = self.as_int(v)
        conv = (lambda n: n - (1 << ty.w) if ty.k == "int" and ty.sg and n >= 1 << (ty.w - 1) else n)
        if not x.t:
            for val, tb in t[3]:
                if conv(val) == x.k:
                    return [(tb, st)]
            return [(t[4], st)]
        out = []
        a = x.t[0][0] if len(x.t) == 1 and abs(x.t[0][1]) == 1 else None
        groups = {}
        for val, tb in t[3]:
            groups.setdefault(tb, []).append(conv(val))
        rest = st
        for tb, vals in groups.items():
            if a is not None:
                c = x.t[0][1]
                s = self.restrict(st, a, [(v0 - x.k) * c for v0 in vals])
                if s is not None:
                    out.append((tb, s))
            else:
                for v0 in vals:
                    s = self.branch(st, T.eq(T.addk(x, -v0)), True)
                    if s is not None:
                        out.append((tb, s))
        for val, tb in t[3]:
            rest = self.branch(rest, T.eq(T.addk(x, -conv(val))), False)
            if rest is None:
                break
        if rest is not None:
            out.append((t[4], rest))
        return out

    def restrict(self, st, a, vals):
        from .facts import inter, Bottom
        d = inter(st.facts.domain(a), from_values(set(vals)))
        if not d:
            return None
        try:
            f = st.facts._with_dom(a, d)
        except Bottom:
            return None
        return st.with_facts(f) if f is not st.facts else st

    # -------------------------------------------------------------- calls
    def call(self, fr, b, t, st):
        c, args, dest, target = t[1], t[2], t[3], t[4]
        vals = []
        for a in args:
            try:
                vals.append(self.operand(st, fr, a))
            except Unsupported as e:
                ty = self.op_ty(fr.fn, a)
                if ty is None or ty.k in ("ref", "ptr"):
                    raise
                self.note_unsupported(str(e))
                vals.append(self.fresh(ty, "arg"))
        rty = self.place_ty(fr.fn, dest)
        try:
            outs = self.do_call(fr, b, c, vals, st, rty, [self.op_ty(fr.fn, a) for a in args])
        except Unsupported as e:
            if getattr(e, "fatal", False):
                raise
            self.note_unsupported(f"{e} (calling {c.get('rdef') or c.get('def') or 'pointer'})")
            outs = self.havoc_call(st, c, vals, rty, [self.op_ty(fr.fn, a) for a in args])
        except (AttributeError, TypeError, IndexError, KeyError, ValueError) as e:
            # a model met a value of a form it does not know
            if self.strict:
                raise
            self.note_unsupported(f"model: {type(e).__name__} {e} (calling {c.get('rdef') or c.get('def') or 'pointer'})")
            outs = self.havoc_call(st, c, vals, rty, [self.op_ty(fr.fn, a) for a in args])
        res = []
        if target is None:
            return []
        for v, s in outs:
            s = s.copy()
            self.write_place(s, fr, dest, v)
            res.append((target, s))
        return res

    def do_call(self, fr, b, c, vals, st, rty, atys):
        k = c["k"]
        if k == "ptr":
            f = self.operand(st, fr, c["op"])
            if isinstance(f, FnV):
                fn = self.prog.fn(f.key)
                if fn is not None:
                    if fn.closure:
                        vals = [UNIT] + vals
                    return self.exec_fn(fn, vals, st, b)
            raise Unsupported("call through pointer")
        rdef = c.get("rdef") or c.get("def")
        ctx = CallCtx(self, fr, b, c, rty, atys)
        m = self.find_model(rdef, c.get("tm"))
        if self.record_calls is not None:
            self.record_calls(self, fr, b, c, vals, st)
        if m is not None:
            r = m(ctx, st, *vals)
            if r is not NotImplemented:
                if isinstance(r, list):
                    return r
                return [(r, st)]
        if k == "virtual":
            return self.virtual(fr, b, c, vals, st, rty, atys)
        if c.get("ctor"):
            # tuple-struct / enum-variant constructor used as a function
            vi = 0
            if rty.k == "adt" and rty.ak == "enum":
                for i, v in enumerate(rty.vs):
                    if c["rdef"].endswith("::" + v[0]):
                        vi = i
            return [(Agg(vi, vals), st)]
        fn = self.prog.fn(c.get("key"))
        if fn is not None and not fn.generic:
            deep = sum(1 for f in self.frames if f.fn is fn)
            if deep > self.recursion:
                if self.recursion:
                    self.alarm("recursion", "a recursion does not end", st, b)
                    return []
                self.note_unsupported(f"recursion into {fn.def_}")
                return self.havoc_call(st, c, vals, rty, atys)
            if fn.closure and len(vals) == 2:
                return self.exec_fn(fn, self.closure_args(fn, vals), st, b)
            return self.exec_fn(fn, vals, st, b)
        if k == "shim" or c.get("tm", "").startswith("core::ops::function::Fn"):
            r = self.call_value(fr, b, vals[0], vals[1:], st)
            if r is not None:
                return r
        return self.havoc_call(st, c, vals, rty, atys)

    def find_model(self, rdef, tm):
        key = (rdef, tm)
        if key in self.model_cache:
            return self.model_cache[key]
        if rdef in getattr(self, "no_models", ()):
            return None
        m = self.extra_models.get(rdef) or self.models.get(rdef)
        if m is None and tm:
            m = self.extra_models.get("tm:" + tm) or self.models.get("tm:" + tm)
        if m is None:
            for rx, mm in self.model_rx:
                if rx.match(rdef):
                    m = mm
                    break
        self.model_cache[key] = m
        return m

    def closure_args(self, fn, vals):
        tup = vals[1]
        if isinstance(tup, Agg) and tup.v == 0 and len(tup.f) == fn.nargs - 1:
            return [vals[0]] + list(tup.f)
        return vals

    def call_value(self, fr, b, f, rest, st):
        """invoke a function value / closure value with a tuple of arguments"""
        args = list(rest[0].f) if rest and isinstance(rest[0], Agg) else list(rest)
        v = f
        if isinstance(v, Ref):
            v = self.load(st, v.o, v.p)
        if isinstance(v, FnV):
            fn = self.prog.fn(v.key)
            if fn is not None:
                if fn.closure:
                    return self.exec_fn(fn, [UNIT] + args, st, b)
                return self.exec_fn(fn, args, st, b)
            return None
        if isinstance(v, Agg) and isinstance(v.v, tuple) and v.v[0] == "cl":
            fn = self.prog.fn(v.v[1])
            if fn is None:
                return None
            envt = fn.locals[1]
            if envt.k == "ref":
                if isinstance(f, Ref):
                    env = f
                else:
                    st = st.copy()
                    o = self.heap(st, fr, b)
                    st.mem[o] = v
                    env = Ref(o)
            else:
                env = v
            return self.exec_fn(fn, [env] + args, st, b)
        return None

    def heap(self, st, fr, b):
        n = 0
        while ("H", fr.uid, b, n) in st.mem:
            n += 1
        return ("H", fr.uid, b, n)

    def virtual(self, fr, b, c, vals, st, rty, atys):
        self_v = vals[0]
        try:
            r = self.deref_val(st, self_v)
        except Unsupported:
            r = None
        if r is not None and r.m and r.m[0] == "vt" and r.m[1]:
            key = self.prog.vt.get((c["tm"], r.m[1]))
            if key is None:
                # impls are keyed without lifetimes resolved
                key = self._vt_lookup(c["tm"], r.m[1])
            fn = self.prog.fn(key) if key else None
            if fn is not None:
                return self.exec_fn(fn, [Ref(r.o, r.p)] + vals[1:], st, b)
        return self.havoc_call(st, c, vals, rty, atys)

    def _vt_lookup(self, tm, s):
        import re
        n = re.sub(r"<'[^>]*>|'\{?\w+\}? ?", "", s)
        for (t, ss), key in self.prog.vt.items():
            if t == tm and re.sub(r"<'[^>]*>|'\{?\w+\}? ?", "", ss) == n:
                return key
        return None

    def havoc_call(self, st, c, vals, rty, atys):
        name = c.get("rdef") or c.get("def") or "fnptr"
        self.opaque[name] = self.opaque.get(name, 0) + 1
        st = st.copy()
        for v, t in zip(vals, atys):
            self.havoc_arg(st, v, t)
        if rty.k == "never":
            return []
        return [(self.fresh(rty, name.split("::")[-1]), st)]

    def havoc_arg(self, st, v, t, depth=0):
        if depth > 4:
            return
        if isinstance(v, Ref):
            if t is not None and t.k in ("ref", "ptr") and not t.m and t.t is not None and t.t.k not in ("dyn", "closure"):
                # shared reference: only interior mutability, tracked by dedicated models
                return
            self.havoc_ref(st, v, t.t if t is not None else None)
        elif isinstance(v, Agg):
            fts = _field_tys(t, v.v, len(v.f))
            for x, ft in zip(v.f, fts):
                self.havoc_arg(st, x, ft, depth + 1)

    def havoc_ref(self, st, r, t):
        if r.o[0] == "K":
            return
        try:
            old = self.load(st, r.o, r.p)
        except Unsupported:
            return
        if r.m and r.m[0] == "s":
            base = old.s if isinstance(old, VecV) else old
            ety = _ety(base)
            if isinstance(base, (Arr, SArr)):
                n = self.seq_len(base)
                new = SArr(self.fresh_name("havoc"), ety, n,
                           ((("r", T.ZERO, n, base, T.ZERO),) if base is not None else ()) + (("r", r.m[1], r.m[2], None, T.ZERO),))
                p = r.p + (("vec",),) if isinstance(old, VecV) else r.p
                self.store(st, r.o, p, new)
            return
        if t is None or t.k in ("dyn", "param"):
            self.note_unsupported("mutation through opaque call of unknown type")
            self.store(st, r.o, r.p, self.hav_like(old))
            return
        self.store(st, r.o, r.p, self.fresh(t, "havoc"))

    def hav_like(self, v):
        if isinstance(v, T.Lin):
            return T.fresh("havoc", *v.rng) if v.t else T.fresh("havoc", -(1 << 63), USIZE_MAX)
        if isinstance(v, T.B):
            return T.b_not(T.eq(T.fresh("havoc", 0, 1)))
        if isinstance(v, Agg):
            return Agg(v.v, [self.hav_like(x) for x in v.f])
        if isinstance(v, VecV):
            return VecV(SArr(self.fresh_name("havoc"), _ety(v.s), T.fresh("havoc.len", 0, LEN_MAX)))
        if isinstance(v, (Arr, SArr)):
            return SArr(self.fresh_name("havoc"), _ety(v), self.seq_len(v))
        if isinstance(v, Sym):
            return Sym(v.ty, self.fresh_name("havoc"))
        return v


class CallCtx:
    __slots__ = ("e", "fr", "b", "c", "rty", "atys")

    def __init__(self, e, fr, b, c, rty, atys):
        self.e = e
        self.fr = fr
        self.b = b
        self.c = c
        self.rty = rty
        self.atys = atys


# ------------------------------------------------------------------ helpers

class _U8:
    s = "u8"
    k = "int"
    w = 8
    sg = False
    rng = (0, 255)
    t = None
    m = None
    vs = None
    ts = None
    p = None
    sz = 1
    ga = None

    def __repr__(self):
        return "u8"


U8 = _U8()


def _ety(v):
    if isinstance(v, SArr):
        return v.ety
    return None


def _has_mut(t):
    if t.k in ("ref", "ptr"):
        return bool(t.m)
    if t.k == "adt" and t.ga:
        return any(_has_mut(x) for x in t.ga)
    if t.k == "tuple":
        return any(_has_mut(x) for x in t.ts)
    return False


def _field_tys(ty, v, n):
    if ty is not None:
        if ty.k == "tuple" and len(ty.ts) == n:
            return ty.ts
        if ty.k == "adt" and ty.vs and isinstance(v, int) and v < len(ty.vs) and len(ty.vs[v][2]) == n:
            return [t for _, t in ty.vs[v][2]]
        if ty.k == "closure" and ty.ts and len(ty.ts) == n:
            return ty.ts
    return [None] * n


def _leaves(v, d):
    if v is None:
        yield None
    elif d == 0:
        yield v
    else:
        for x in v:
            yield from _leaves(x, d - 1)


def _strip(v, d):
    if v is None:
        return None
    if d == 0:
        return v.k
    return tuple(_strip(x, d - 1) for x in v)


def _is_const(v):
    if isinstance(v, T.Lin):
        return not v.t
    if isinstance(v, T.B):
        return v.op in ("true", "false")
    if isinstance(v, Agg):
        return all(_is_const(x) for x in v.f)
    if isinstance(v, Arr):
        return True if len(v.e) > 64 else all(_is_const(x) for x in v.e)
    if isinstance(v, Ref):
        return v.o[0] == "K"
    if isinstance(v, FnV):
        return True
    return False


def _mentions(v, key):
    if isinstance(v, Ref):
        return v.o == key
    if isinstance(v, Agg):
        return any(_mentions(x, key) for x in v.f)
    if isinstance(v, Arr):
        return any(_mentions(x, key) for x in v.e[:64]) if v.e and not isinstance(v.e[0], T.Lin) else False
    if isinstance(v, VecV):
        return _mentions(v.s, key)
    if isinstance(v, SArr):
        return any(w[0] == "w" and _mentions(w[2], key) for w in v.w)
    return False


def _lens(v, d=0):
    if d > 3:
        return
    if isinstance(v, Ref):
        if v.m and v.m[0] == "s":
            yield v.m[2]
    elif isinstance(v, VecV):
        if isinstance(v.s, SArr):
            yield v.s.n
    elif isinstance(v, SArr):
        yield v.n
    elif isinstance(v, Agg):
        for x in v.f:
            yield from _lens(x, d + 1)


def _subst_lin(l, m, must):
    out = T.const(l.k)
    for a, c in l.t:
        if a in m:
            out = T.add(out, T.scale(m[a], c))
        elif a in must:
            return None
        else:
            out = T.add(out, T.scale(T.of(a), c))
    return out


def _subst_b(b, m, must):
    if b.op == "le":
        l = _subst_lin(b.x, m, must)
        return None if l is None else T.le(l)
    if b.op in ("eq", "ne"):
        l = _subst_lin(b.x, m, must)
        if l is None:
            return None
        e = T.eq(l)
        return e if b.op == "eq" else T.b_not(e)
    return None


def _covered(lp, gen):
    """the leaf lies inside a location that is generalised as a whole"""
    for i in range(1, len(lp)):
        k = gen.get(lp[:i])
        if k is not None and (k[0] == "top" or (k[0] in ("arr", "vec") and lp[i][0] not in ("len", "ms", "ml"))):
            return True
    return False


def _nullspace(rows, atoms):
    """integer vectors c with sum c_a * delta_a == 0 on every back edge"""
    from fractions import Fraction
    if not atoms or not rows or len(atoms) > 14:
        return []
    eqs = []
    for r in rows:
        mon = set()
        for a in atoms:
            mon.update(x for x, _ in r[a].t)
        for mnm in [None] + sorted(mon, key=lambda x: x.id):
            row = []
            for a in atoms:
                d = r[a]
                if mnm is None:
                    row.append(Fraction(d.k))
                else:
                    row.append(Fraction(dict(d.t).get(mnm, 0)))
            if any(row):
                eqs.append(row)
    n = len(atoms)
    piv = []
    m = [e[:] for e in eqs]
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        d = m[r][c]
        m[r] = [x / d for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c]:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    free = [c for c in range(n) if c not in piv]
    out = []
    for fc in free:
        v = [Fraction(0)] * n
        v[fc] = Fraction(1)
        for i, pc in enumerate(piv):
            v[pc] = -m[i][fc]
        den = 1
        for x in v:
            den = den * x.denominator // _gcd(den, x.denominator)
        out.append({a: int(x * den) for a, x in zip(atoms, v) if x})
    return out


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a
