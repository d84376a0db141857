"""keramics-encodings: decoders, encoders, dispatch, UTF-8, Base64."""
import json
import os

from kv import engine as E, facts as FA, terms as T
from kv.engine import Agg, Arr, VecV, Ref, State, Engine, TabV
from . import lib
from .lib import Ana, assume, equal, possible, variant
from .types import elem, slice_arg

ORACLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracles", "encodings.json")
NEXT = "core::iter::traits::iterator::Iterator::next"


def oracle():
    """{encoding: {byte sequence: code point}}"""
    return {k: {bytes.fromhex(b): c for b, c in v["map"].items()} for k, v in json.load(open(ORACLE)).items()}


def coders(prog, kind):
    """{name: (constructor, step)} of the public decoders or encoders"""
    out = {}
    for k, f in prog.fns.items():
        if k.endswith("Iterator>::next") and f"::{kind}" in k and k.startswith("<keramics_encodings::"):
            name = k.split(f"::{kind}")[1].split("<")[0].split(" ")[0]
            news = [g for kk, g in prog.fns.items() if kk.startswith("keramics_encodings::") and f"::{kind}{name}::" in kk
                    and kk.endswith("::new") and not g.generic]
            if news and not f.generic:
                out[name] = (news[0], f)
    return out


def sequence(e, st, new, step, arg, n, limit=None):
    """paths of new(arg) followed by n steps: list of ([items], state); items end at None"""
    outs = []
    for obj, s in e.run(new, [arg], st):
        if isinstance(obj, Ref):
            o = obj
            s = s.copy()
        else:
            s = s.copy()
            o = Ref(("H", "coder"))
            s.mem[o.o] = obj
        outs.append(([], s))
    for _ in range(n):
        nx = []
        for items, s in outs:
            if items and items[-1][0] == "end":
                nx.append((items, s))
                continue
            for v, s2 in e.run(step, [o], s):
                nx.append((items + [item(v)], s2))
        outs = nx
        if limit and len(outs) > limit:
            raise E.Budget("too many paths")
    return outs


def item(v):
    k, f = variant(v)
    if k == 0:
        return ("end",)
    if k == 1:
        k2, f2 = variant(f[0])
        if k2 == 0:
            return ("ok", f2[0])
        if k2 == 1:
            return ("err",)
    return ("?", v)


def atom_of(l):
    assert len(l.t) == 1 and l.k == 0
    return l.t[0][0]


def dom_values(st, a):
    for lo, hi in st.facts.domain(a):
        yield from range(lo, hi + 1)


def evs(e, st, v, env):
    """concrete value of a term / byte vector under env; None when not evaluable"""
    if isinstance(v, TabV):
        x = v.vals
        for i in v.idx:
            i = T.ev(i, env)
            if not 0 <= i < len(x) or x[i] is None:
                raise T.NoEval("table hole")
            x = x[i]
        return evs(e, st, x, env)
    if isinstance(v, (list, tuple)):
        return tuple(evs(e, st, x, env) for x in v)
    if isinstance(v, bytes):
        return tuple(v)
    if isinstance(v, int):
        return v
    if isinstance(v, VecV):
        return evs(e, st, v.s, env)
    if isinstance(v, Arr):
        return tuple(evs(e, st, x, env) for x in v.e)
    if isinstance(v, T.Lin):
        return T.ev(v, env)
    n = e.seq_len(v)
    if n.t:
        n = T.const(T.ev(n, env))
    return tuple(T.ev(e.as_int(e.seq_get(st, v, T.const(i))), env) for i in range(n.k))


def consistent(st, env):
    """do the path facts admit the valuation"""
    f = st.facts
    for a, d in f.dom.items():
        try:
            v = T.ev_atom(a, env)
        except T.NoEval:
            return None
        if not any(lo <= v <= hi for lo, hi in d):
            return False
    for l in f.lins:
        try:
            if T.ev(l, env) > 0:
                return False
        except T.NoEval:
            return None
    return True


def elem1(e, st, ref, i):
    from kv import models as M
    return e.as_int(M.win_get(e, st, ref, T.const(i)))


class Coder:
    """one decoder or encoder: how to obtain it and how to step it, in a fresh engine per question"""

    def __init__(self, prog, make, step=None, ety=None):
        self.prog, self.make, self.step, self.ety = prog, make, step, ety

    def ask(self, doms, steps, tag):
        """paths of `steps` steps on an input of len(doms) elements, element i restricted to doms[i]
        (None: unrestricted): (engine, atoms, [(items, state)])"""
        e = Engine(self.prog)
        s = slice_arg(e, tag, len(doms), self.ety)
        st = State()
        atoms = []
        for i, d in enumerate(doms):
            a = atom_of(elem1(e, st, s, i))
            atoms.append(a)
            if d is not None:
                f = st.facts._with_dom(a, d)
                st = st.with_facts(f)
        outs = []
        for obj, step, st2 in self.make(e, st, s):
            st2 = st2.copy()
            if isinstance(obj, Ref):
                o = obj
                if o.m is not None:
                    o = Ref(o.o, o.p)
            else:
                o = Ref(("H", "coder"))
                st2.mem[o.o] = obj
            outs.append(([], o, step, st2))
        for _ in range(steps):
            nx = []
            for items, o, step, st2 in outs:
                if items and items[-1][0] == "end":
                    nx.append((items, o, step, st2))
                    continue
                for v, s3 in e.run(step, [o], st2):
                    nx.append((items + [item(v)], o, step, s3))
            outs = nx
            if len(outs) > 4000:
                raise E.Budget("too many paths")
        return e, atoms, [(items, st2) for items, o, step, st2 in outs]


def static_coder(prog, new, step):
    def make(e, st, s):
        return [(obj, step, st2) for obj, st2 in e.run(new, [s], st)]
    return Coder(prog, make, ety=new.locals[1].t.t)


def dyn_coder(prog, disp, variant_index):
    def make(e, st, s):
        o = ("H", "encoding")
        st = st.copy()
        st.mem[o] = Agg(variant_index, ())
        outs = []
        for obj, st2 in e.run(disp, [Ref(o), s], st):
            if not (isinstance(obj, Ref) and obj.m and obj.m[0] == "vt"):
                raise E.Unsupported("dispatch result without a known implementation")
            key = e.prog.vt.get((NEXT, obj.m[1])) or e._vt_lookup(NEXT, obj.m[1])
            outs.append((obj, e.prog.fns[key], st2))
        return outs
    return Coder(prog, make, ety=disp.locals[2].t.t)


def outcome(c, vals, steps, tag):
    """the outcomes of one fully determined input (confirmation of a suspicion)"""
    e, atoms, paths = c.ask([((v, v),) for v in vals], steps, tag)
    out = set()
    for items, st in paths:
        env = dict(zip(atoms, vals))
        if consistent(st, env) is False:
            continue
        out.add(tuple(evs(e, st, i[1], env) if i[0] == "ok" else i[0] for i in items))
    if e.alarms:
        out.add(("abort",))
    if e.unsupported or e.opaque:
        out.add(("unknown",))
    return out


def judge(r, c, rule, site, pre, dom, good, tag, steps=2, shown=3):
    """every value v of dom at the last element (the earlier ones fixed to pre): the outcome is good(v),
    a predicate on the tuple of items. Suspicions are confirmed on the determined input."""
    try:
        e, atoms, paths = c.ask([((v, v),) for v in pre] + [dom], steps, tag)
    except (E.Unsupported, E.Budget) as ex:
        r.undecided(rule, site, str(ex))
        return 0
    a = atoms[-1]
    suspects = set()
    n = 0
    for items, st in paths:
        env = dict(zip(atoms, pre))
        vals = []
        for lo, hi in st.facts.domain(a):
            vals += list(range(lo, hi + 1)) if hi - lo < 5000 else [lo, lo + 1, (lo + hi) // 2, hi - 1, hi]
        for v in vals:
            env[a] = v
            if consistent(st, env) is False:
                continue
            n += 1
            try:
                o = tuple(evs(e, st, i[1], env) if i[0] == "ok" else i[0] for i in items)
            except (T.NoEval, E.Unsupported):
                o = ("?",)
            if not good(v, o):
                suspects.add(v)
    if e.alarms:
        for al in e.alarms[:3]:
            r.bad(rule + "-abort", site, f"{al.kind}: {lib.norm(al.detail)}", f"{al.file}:{al.line}")
    for k in e.unsupported:
        r.undecided(rule, site, f"outside the analysed fragment: {k[1]}")
    bad = 0
    und = 0
    for v in sorted(suspects):
        if bad >= shown:
            break
        os_ = outcome(c, list(pre) + [v], steps, tag)
        wrong = [o for o in os_ if not good(v, o)]
        if not wrong:
            continue
        if ("unknown",) in os_ or any("?" in o for o in os_):
            und += 1
            continue
        if len(os_) == 1:
            bad += 1
            r.bad(rule, site, f"input {show_in(list(pre) + [v])} gives {show_out(wrong[0])}")
        else:
            und += 1
    if und:
        r.undecided(rule, site, f"{und} inputs not decided")
    if not bad and not und:
        r.ok(rule, site, f"{n} input values on {len(paths)} paths")
    r.functions |= set(e.functions)
    return n


def show_in(v):
    return " ".join(f"{x:#04x}" for x in v)


def show_out(o):
    def f(x):
        if isinstance(x, tuple):
            return "[" + " ".join(f"{y:02x}" for y in x) + "]"
        return f"U+{x:04x}" if isinstance(x, int) else str(x)
    return ", ".join(f(x) for x in o)


def judge_decoder(r, c, site, m, name):
    singles = {k[0] for k in m if len(k) == 1}
    leads = {}
    for k in m:
        if len(k) == 2:
            leads.setdefault(k[0], set()).add(k[1])
    every = set(range(256))
    n = judge(r, c, "decode-defined", site, [], FA.from_values(singles), lambda v, o: o == (m[bytes([v])], "end"), "d_" + name)
    und = every - singles
    if und:
        n += judge(r, c, "decode-undefined", site, [], FA.from_values(und), lambda v, o: o[0] == "err", "d_" + name)
    for x, ts in sorted(leads.items()):
        n += judge(r, c, "decode-defined", site, [x], FA.from_values(ts), lambda v, o: o == (m[bytes([x, v])], "end"), "d_" + name)
        if every - ts:
            n += judge(r, c, "decode-undefined", site, [x], FA.from_values(every - ts), lambda v, o: o[0] == "err", "d_" + name, steps=1)
    return n


def judge_encoder(r, c, site, m, name):
    inv = {}
    for k, v in m.items():
        inv.setdefault(v, set()).add(tuple(k))
    groups = {}
    for cp in inv:
        groups.setdefault(cp >> 9, set()).add(cp)
    n = 0
    for g, cps in sorted(groups.items()):
        n += judge(r, c, "encode-defined", site, [], FA.from_values(cps), lambda v, o: len(o) == 2 and o[0] in inv[v] and o[1] == "end", "e_" + name)
    rest = FA.from_values(inv)
    gaps = []
    p = 0
    for lo, hi in rest:
        if lo > p:
            gaps.append((p, lo - 1))
        p = hi + 1
    gaps.append((p, (1 << 32) - 1))
    step = 300
    for i in range(0, len(gaps), step):
        n += judge(r, c, "encode-undefined", site, [], tuple(gaps[i:i + step]), lambda v, o: o[0] == "err", "e_" + name)
    return n


def e10(ctx):
    ctx.explanation = ("Every byte-to-character decoder is interpreted abstractly on inputs of one byte (and two for the double-byte code page); the "
                       "path conditions and result terms, which cover all 256 (65536) inputs, are compared with the published mapping table.")
    ctx.rule_text = "for every byte sequence: the published code point if the code page defines one, an error otherwise; then end of input"
    prog = ctx.program(["keramics_encodings"])
    om = oracle()
    cs = coders(prog, "Decoder")
    names = sorted(set(om) & set(cs))
    def work(r, n):
        judge_decoder(r, static_coder(prog, *cs[n]), f"decoder {n}", om[n], n)
        r.count("decoders")
    ctx.parallel(work, names)
    for n in sorted(set(cs) - set(om) - {"Utf8"}):
        ctx.undecided("decode-defined", f"decoder {n}", "no reference table")
    for n in sorted(set(om) - set(cs)):
        ctx.undecided("decode-defined", f"decoder {n}", "decoder not found")
    ctx.floor("decoders", 1)


def e11(ctx):
    ctx.explanation = ("Every character encoder is interpreted abstractly on one code point of unknown 32-bit value; the path conditions and result "
                       "terms are compared with the inverse of the published mapping, over all 2^32 values.")
    ctx.rule_text = ("for every 32-bit value: if some byte sequence of the code page stands for it, one of those sequences, otherwise an error; "
                     "then end of input")
    prog = ctx.program(["keramics_encodings"])
    om = oracle()
    cs = coders(prog, "Encoder")
    names = sorted(set(om) & set(cs))

    def work(r, n):
        judge_encoder(r, static_coder(prog, *cs[n]), f"encoder {n}", om[n], n)
        r.count("encoders")
    ctx.parallel(work, names)
    for n in sorted(set(om) - set(cs)):
        ctx.undecided("encode-defined", f"encoder {n}", "encoder not found")
    ctx.floor("encoders", 1)


def e12(ctx):
    ctx.explanation = ("The two factory functions are interpreted for every value of the encoding enumeration; the implementation they return, found "
                       "through the virtual table the compiler records, is judged on the same mapping table as the implementation of that name.")
    ctx.rule_text = "for every encoding value: no abort, and the coder returned follows the mapping of exactly that encoding"
    prog = ctx.program(["keramics_encodings"])
    om = oracle()
    tasks = []
    for kind in ("decoder", "encoder"):
        fs = prog.find(f"new_character_{kind}")
        if not fs:
            ctx.undecided("dispatch", kind, "factory not found")
            continue
        ty = fs[0].locals[1].t
        for i, v in enumerate(ty.vs):
            tasks.append((kind, fs[0], i, v[0]))

    def work(r, t):
        kind, fn, i, name = t
        c = dyn_coder(prog, fn, i)
        site = f"{kind} for {name}"
        r.count("encodings")
        e = Engine(prog)
        s = slice_arg(e, "x_" + kind, 1, c.ety)
        try:
            outs = c.make(e, State(), s)
        except (E.Unsupported, E.Budget) as ex:
            r.undecided("dispatch", site, str(ex))
            return
        if not outs:
            for a in e.alarms[:1]:
                r.bad("dispatch", site, "the factory aborts: no implementation", f"{a.file}:{a.line}")
            if not e.alarms:
                r.undecided("dispatch", site, "no result")
            return
        if name == "Utf8":
            want = "DecoderUtf8" if kind == "decoder" else "EncoderUtf8"
            (r.ok if any(want in o[1].key for o in outs) else r.bad)("dispatch", site, outs[0][1].key)
        elif name in om:
            if kind == "decoder":
                judge_decoder(r, c, site, om[name], "v" + name)
            else:
                judge_encoder(r, c, site, om[name], "v" + name)
        else:
            r.undecided("dispatch", site, "no reference table")
    ctx.parallel(work, tasks)
    ctx.floor("encodings", 2)


# ------------------------------------------------------------------ E13 UTF-8

def rng(*p):
    return tuple(p)


T_ = ((0x80, 0xbf),)
U8 = [  # RFC 3629 section 4
    (((0x00, 0x7f),),),
    (((0xc2, 0xdf),), T_),
    (((0xe0, 0xe0),), ((0xa0, 0xbf),), T_),
    (((0xe1, 0xec), (0xee, 0xef)), T_, T_),
    (((0xed, 0xed),), ((0x80, 0x9f),), T_),
    (((0xf0, 0xf0),), ((0x90, 0xbf),), T_, T_),
    (((0xf1, 0xf3),), T_, T_, T_),
    (((0xf4, 0xf4),), ((0x80, 0x8f),), T_, T_),
]


def u8_value(bs):
    n = len(bs)
    if n == 1:
        return bs[0]
    lead = {2: 0xc0, 3: 0xe0, 4: 0xf0}[n]
    v = T.scale(T.addk(bs[0], -lead), 1 << (6 * (n - 1)))
    for i, b in enumerate(bs[1:]):
        v = T.add(v, T.scale(T.addk(b, -0x80), 1 << (6 * (n - 2 - i))))
    return v


def minus(d):
    return FA.from_values(set(range(256)) - {v for lo, hi in d for v in range(lo, hi + 1)})


def bad_boxes():
    """byte patterns that are not the start of a well-formed sequence: (boxes, description)"""
    lead_ok = set()
    for b in U8:
        lead_ok |= {v for lo, hi in b[0] for v in range(lo, hi + 1)}
    yield [FA.from_values(set(range(256)) - lead_ok)], "byte that starts no sequence"
    yield [FA.from_values(set(range(256)) - lead_ok), ((0, 255),), ((0, 255),), ((0, 255),)], "byte that starts no sequence, followed by others"
    for b in U8:
        for k in range(1, len(b)):
            yield list(b[:k]), "truncated sequence"
            yield list(b[:k]) + [minus(b[k])], f"malformed byte {k + 1}"
            yield list(b[:k]) + [minus(b[k])] + [((0, 255),)] * 3, f"malformed byte {k + 1}, followed by others"


def show_box(b):
    return " ".join("/".join(f"{lo:02x}-{hi:02x}" if lo != hi else f"{lo:02x}" for lo, hi in d[:3]) for d in b)


def pick(st, atoms, tries=60):
    """valuations of a handful of byte atoms the path admits"""
    import random
    rnd = random.Random(7)
    for _ in range(tries):
        env = {}
        for a in atoms:
            d = st.facts.domain(a)
            lo, hi = d[rnd.randrange(len(d))]
            env[a] = rnd.choice([lo, hi, rnd.randint(lo, hi)])
        if consistent(st, env):
            yield env


def confirmed(c, st, atoms, steps, tag, good):
    """a determined input on this path for which the outcome is provably not good"""
    for env in pick(st, atoms):
        vals = [env[a] for a in atoms]
        os_ = outcome(c, vals, steps, tag)
        if len(os_) == 1 and not good(vals, next(iter(os_))):
            return vals, next(iter(os_))
    return None


def e13(ctx):
    ctx.explanation = ("The UTF-8 decoder is interpreted abstractly on each of the eight well-formed byte ranges of RFC 3629 (followed by another "
                       "character) and on their complement, by position of the first malformed byte; the ranges together cover every byte string.")
    ctx.rule_text = ("inside a well-formed range: exactly the code point of RFC 3629, and decoding resumes right after it; outside: an error, "
                     "never a code point; every step consumes input, so at most one item per byte, then the end")
    prog = ctx.program(["keramics_encodings"])
    cs = coders(prog, "Decoder")
    if "Utf8" not in cs:
        ctx.undecided("utf8", "decoder Utf8", "decoder not found")
        return
    tasks = [("good", b) for b in U8] + [("bad", b, d) for b, d in bad_boxes()]

    def work(r, t):
        c = static_coder(prog, *cs["Utf8"])
        box = list(t[1])
        site = f"decoder Utf8: {show_box(box)}"
        r.count("ranges")
        k = len(box)
        full = box + [((0, 0x7f),)] if t[0] == "good" else box
        n = len(full)
        tag = "u8_" + "".join(ch for ch in show_box(full) if ch.isalnum() or ch == "-")
        e, atoms, paths = c.ask(full, n + 1, tag)
        r.functions |= set(e.functions)
        for al in e.alarms[:3]:
            r.bad("utf8-abort", site, f"{al.kind}: {lib.norm(al.detail)}", f"{al.file}:{al.line}")
        for u in e.unsupported:
            r.undecided("utf8", site, f"outside the analysed fragment: {u[1]}")
        bs = [T.of(a) for a in atoms]

        def good(vals, o):
            if t[0] == "good":
                return o == (u8_conc(vals[:k]), vals[k], "end")
            return o[0] == "err" and o[-1] == "end"
        ok = True
        for items, st in paths:
            if t[0] == "good":
                fine = (len(items) == 3 and items[0][0] == "ok" and equal(st, items[0][1], u8_value(bs[:k])) and items[1][0] == "ok"
                        and equal(st, items[1][1], bs[k]) and items[2][0] == "end")
            else:
                fine = items[0][0] == "err" and items[-1][0] == "end"
            if fine:
                continue
            ok = False
            w = confirmed(c, st, atoms, n + 1, tag, good)
            if w:
                r.bad("utf8", site, f"input {show_in(w[0])} gives {show_out(w[1])}")
            elif any(True for _ in pick(st, atoms)):
                r.undecided("utf8", site, "outcome not proved")
            else:
                ok = True
        if ok:
            r.ok("utf8", site, t[2] if t[0] == "bad" else "code point and resumption")
    ctx.parallel(work, tasks)
    ctx.floor("ranges", 1)


def u8_conc(v):
    n = len(v)
    if n == 1:
        return v[0]
    r = v[0] - {2: 0xc0, 3: 0xe0, 4: 0xf0}[n]
    for b in v[1:]:
        r = r * 64 + b - 0x80
    return r


# ------------------------------------------------------------------ E14 Base64

B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64D = FA.from_values(B64)
B64T = tuple(B64.index(bytes([i])) if bytes([i]) in B64 else None for i in range(256))
WS = FA.from_values(b"\t\n\x0b\r ")


def b64_bytes(terms):
    """the bytes a list of alphabet characters stands for (RFC 4648)"""
    six = [T.table(B64T, x) for x in terms]
    out = []
    for i in range(len(six) * 6 // 8):
        lo = i * 8
        v = T.ZERO
        for j in range(lo // 6, (lo + 7) // 6 + 1):
            # bits of six[j] inside [lo, lo+8)
            s, t = max(lo, j * 6), min(lo + 8, j * 6 + 6)
            part = T.bits(six[j], j * 6 + 6 - t, t - s) if (s, t) != (j * 6, j * 6 + 6) else six[j]
            v = T.add(v, T.scale(part, 1 << (lo + 8 - t)))
        out.append(v)
    return out


def b64_run(prog, doms, outlen, tag, ety):
    """(engine, atoms, [(result kind, size, out bytes, state)])"""
    fn = prog.find("Base64Context::decode")[0]
    new = prog.find("Base64Context::new")[0]
    ty = new.locals[0]
    e = Engine(prog)
    st = State()
    s = slice_arg(e, tag, len(doms), ety)
    atoms = []
    for i, d in enumerate(doms):
        a = atom_of(elem1(e, st, s, i))
        atoms.append(a)
        if d is not None:
            st = st.with_facts(st.facts._with_dom(a, d))
    d = slice_arg(e, tag + "_out", outlen, ety)
    from .types import get_field
    res = []
    for c, st2 in e.run(new, [], st):
        st2 = st2.copy()
        o = ("H", "context")
        st2.mem[o] = c
        for v, s3 in e.run(fn, [Ref(o), s, d], st2):
            k, _ = variant(v)
            size = get_field(ty, s3.mem[o], "data_size")
            res.append((k, size, [elem1(e, s3, d, i) for i in range(outlen)], s3))
    return e, atoms, res


def e14(ctx):
    ctx.explanation = ("The Base64 decoder is interpreted abstractly on texts of every length 0..12 whose characters range over the whole alphabet, with "
                       "and without padding, on texts with one foreign character at each position, and on output buffers of every smaller size.")
    ctx.rule_text = ("valid text: success, the reported size and every byte equal RFC 4648's; a character outside the alphabet before the end, or "
                     "incomplete or foreign padding: error; a too small buffer: error; never an abort")
    ctx.assumptions = ["texts up to 12 characters; the decoder carries at most 14 bits from one character to the next, so longer texts repeat these steps"]
    prog = ctx.program(["keramics_encodings"])
    if not prog.find("Base64Context::decode"):
        ctx.undecided("base64", "decode", "not found")
        return
    ety = prog.types["u8"]
    top = 12 if ctx.tier == "quick" else 24
    tasks = [("valid", n, 0) for n in range(top + 1) if n % 4 != 1]
    tasks += [("valid", n, 4 - n % 4) for n in range(top + 1) if n % 4 in (2, 3)]
    tasks += [("foreign", n, p) for n in range(1, 9) for p in range(n)]
    tasks += [("pad", n, k) for n in (2, 3, 6, 7) for k in range(3)]
    tasks += [("small", n, k) for n in range(2, 9) if n % 4 != 1 for k in range(n * 6 // 8)]
    tasks += [("any", n, 0) for n in range(0, 7)]
    tasks += [("white", n, p) for n in (2, 3, 4, 6) for p in range(n + 1)]

    def work(r, t):
        kind, n, p = t
        r.count("texts")
        if kind == "white":
            return b64_white(r, prog, n, p, ety)
        doms = [B64D] * n
        outlen = n * 6 // 8
        site = f"Base64 {kind} text of {n} characters"
        if kind == "valid":
            doms = doms + [((0x3d, 0x3d),)] * p
            site += f" and {p} padding" if p else ""
        elif kind == "foreign":
            doms[p] = FA.from_values(set(range(256)) - set(B64) - {0x3d})
            doms[p + 1:] = [None] * (n - p - 1)
            site += f", foreign character {p}"
        elif kind == "pad":
            need = 4 - n % 4
            if p >= need:
                doms = doms + [((0x3d, 0x3d),)] * (need - 1) + [minus(((0x3d, 0x3d),))]
                if need == 1:
                    return
                site += ", foreign padding"
            else:
                if p == 0:
                    return
                doms = doms + [((0x3d, 0x3d),)] * p
                site += f", {p} of {need} padding characters"
                if p == need:
                    return
        elif kind == "small":
            outlen = p
            site += f" into {p} bytes"
        elif kind == "any":
            doms = [None] * n
            site += ", any bytes"
        tag = f"b64_{kind}{n}_{p}"
        e, atoms, res = b64_run(prog, doms, outlen, tag, ety)
        r.functions |= set(e.functions)
        for al in e.alarms[:3]:
            r.bad("base64-abort", site, f"{al.kind}: {lib.norm(al.detail)}", f"{al.file}:{al.line}")
        for u in e.unsupported:
            r.undecided("base64", site, f"outside the analysed fragment: {u[1]}")
        if kind == "any":
            if not e.alarms:
                r.ok("base64-abort", site, "no reachable abort")
            return
        want = b64_bytes([T.of(a) for a in atoms[:n]]) if kind == "valid" else None
        ok = bool(res)
        for k, size, out, st in res:
            if kind == "valid":
                probs = []
                if k != 0:
                    probs.append(("result", None, None))
                else:
                    if not equal(st, size, T.const(len(want))):
                        probs.append(("size", size, T.const(len(want))))
                    for i, w in enumerate(want):
                        if not equal(st, out[i], w):
                            probs.append((f"byte {i}", out[i], w))
                for what, x, y in probs:
                    ok = False
                    w = witness(st, atoms, x, y)
                    if w and not e.unsupported and not e.opaque:
                        r.bad("base64", site, f"{what} differs for the text {bytes(w)!r}" if x is not None else f"rejects the text {bytes(w)!r}")
                    else:
                        r.undecided("base64", site, f"{what} not proved")
            elif k != 1:
                ok = False
                w = witness(st, atoms, None, None)
                if w and not e.unsupported and not e.opaque:
                    r.bad("base64", site, f"accepts the text {bytes(w)!r}")
                else:
                    r.undecided("base64", site, "rejection not proved")
        if ok:
            r.ok("base64", site, "as RFC 4648" if kind == "valid" else "rejected")
    ctx.parallel(work, tasks)
    ctx.floor("texts", 1)


def b64_white(r, prog, n, p, ety):
    """reading value by value with white space skipped"""
    new = prog.find("Base64Stream::<'_>::new") or prog.find("Base64Stream::new")
    get = prog.find("Base64Stream::<'_>::get_value") or prog.find("Base64Stream::<'a>::get_value") or prog.find("Base64Stream::get_value")
    site = f"Base64 stream of {n} characters, white space at {p}"
    if not new or not get:
        r.undecided("base64-stream", site, "stream functions not found")
        return
    for skip in (True, False):
        doms = [B64D] * p + [WS] + [B64D] * (n - p)
        tag = f"b64w_{n}_{p}_{skip}"
        e = Engine(prog)
        st = State()
        s = slice_arg(e, tag, len(doms), ety)
        atoms = []
        for i, d in enumerate(doms):
            a = atom_of(elem1(e, st, s, i))
            atoms.append(a)
            st = st.with_facts(st.facts._with_dom(a, d))
        want = b64_bytes([T.of(a) for a in atoms[:p] + atoms[p + 1:]])
        outs = []
        for obj, st2 in e.run(new[0], [s, T.ZERO, T.TRUE if skip else T.FALSE], st):
            o = Ref(("H", "stream"))
            st2 = st2.copy()
            st2.mem[o.o] = obj
            outs.append(([], st2))
        for _ in range(len(want) + 1):
            nx = []
            for items, st2 in outs:
                if items and items[-1][0] != "ok":
                    nx.append((items, st2))
                    continue
                for v, s3 in e.run(get[0], [o], st2):
                    k, f = variant(v)
                    if k == 1:
                        it = ("err",)
                    elif k == 0:
                        k2, f2 = variant(f[0])
                        it = ("end",) if k2 == 0 else ("ok", f2[0]) if k2 == 1 else ("?",)
                    else:
                        it = ("?",)
                    nx.append((items + [it], s3))
            outs = nx
        for al in e.alarms[:3]:
            r.bad("base64-abort", site, f"{al.kind}: {lib.norm(al.detail)}", f"{al.file}:{al.line}")
        ok = bool(outs)
        for items, st2 in outs:
            if skip:
                fine = len(items) == len(want) + 1 and items[-1][0] == "end" and all(
                    i[0] == "ok" and equal(st2, i[1], w) for i, w in zip(items, want))
            else:
                fine = items[-1][0] == "err" or p * 6 // 8 > len(items)
                if p == n:      # trailing white space is only seen when another value is asked for
                    fine = items[-1][0] == "err"
            if not fine:
                ok = False
                w = witness(st2, atoms, None, None)
                if w and not e.unsupported and not e.opaque and wrong_items(e, st2, items, want, atoms, w, skip):
                    r.bad("base64-stream", site, f"skip={skip}: wrong values for {bytes(w)!r}")
                else:
                    r.undecided("base64-stream", site, f"skip={skip}: values not proved")
        if ok:
            r.ok("base64-stream", site, "skipped" if skip else "rejected")


def wrong_items(e, st, items, want, atoms, w, skip):
    if not skip:
        return True
    env = dict(zip(atoms, w))
    kinds = [i[0] for i in items]
    if kinds != ["ok"] * len(want) + ["end"]:
        return True
    try:
        return any(evs(e, st, i[1], env) != T.ev(x, env) for i, x in zip(items, want))
    except T.NoEval:
        return False


def witness(st, atoms, x, y):
    """an input on this path (with the two terms different, when given)"""
    for env in pick(st, atoms):
        if x is None:
            return [env[a] for a in atoms]
        try:
            if T.ev(x, env) != T.ev(y, env):
                return [env[a] for a in atoms]
        except T.NoEval:
            return None
    return None


# ------------------------------------------------------------------ E15 totality and progress

def e15(ctx):
    ctx.explanation = ("Every coder is interpreted abstractly on inputs of unknown length for its first steps and on inputs of 0 to 2 (thorough: 3) unknown elements "
                       "until the end; every reachable abort is reported, and the number of items is compared with the number of elements.")
    ctx.rule_text = ("no abort for any input; at most one item per input element, then the end and never another item; for single-byte code pages "
                     "exactly one item per element, depending on that element alone")
    prog = ctx.program(["keramics_encodings"])
    tasks = []
    for kind in ("Decoder", "Encoder"):
        for name, (new, step) in sorted(coders(prog, kind).items()):
            tasks.append((kind, name, new, step))
    om = oracle()

    def work(r, t):
        kind, name, new, step = t
        c = static_coder(prog, new, step)
        site = f"{kind.lower()} {name}"
        r.count("coders")
        one = name in om and all(len(k) == 1 for k in om[name]) or kind == "Encoder"
        for n in range(0, 3 if ctx.tier == "quick" or name == "Windows932" else 4):
            try:
                e, atoms, paths = c.ask([None] * n, n + 2, f"s{kind[0]}{n}_{name}")
            except (E.Unsupported, E.Budget) as ex:
                r.undecided("progress", f"{site}, {n} elements", str(ex))
                continue
            r.functions |= set(e.functions)
            for al in e.alarms[:3]:
                r.bad("abort", site, f"{al.kind}: {lib.norm(al.detail)}", f"{al.file}:{al.line}")
            for u in e.unsupported:
                r.undecided("progress", site, f"outside the analysed fragment: {u[1]}")
            bad = None
            for items, st in paths:
                if items[-1][0] != "end":
                    bad = f"more than {n} items for {n} elements"
                elif one and len(items) != n + 1:
                    bad = f"{len(items) - 1} items for {n} elements"
                elif one:
                    for i, it in enumerate(items[:-1]):
                        ds = value_deps(it[1]) if it[0] == "ok" else set()
                        if ds - {atoms[i]}:
                            bad = f"item {i} depends on other elements"
            if bad and any(True for p in paths for _ in pick(p[1], atoms)):
                r.bad("progress", site, bad)
            elif not bad:
                r.ok("progress", f"{site}, {n} elements", f"{len(paths)} paths")
        # unknown length
        e = Engine(prog)
        nm = f"long{kind[0]}_{name}"
        ln = T.sym(nm + ".len", 0, (1 << 40))
        s = slice_arg(e, nm, ln, c.ety)
        try:
            outs = [(o, st2.copy()) for o, _, st2 in c.make(e, State(), s)]
            for obj, st2 in outs:
                o = ("H", "coder")
                st2.mem[o] = obj
                cur = [st2]
                for _ in range(2):
                    cur = [s3 for x in cur for _, s3 in e.run(step, [Ref(o)], x)]
        except (E.Unsupported, E.Budget) as ex:
            r.undecided("abort", site, str(ex))
            return
        for al in e.alarms[:3]:
            r.bad("abort", site, f"{al.kind}: {lib.norm(al.detail)}", f"{al.file}:{al.line}")
        if not e.alarms:
            r.ok("abort", site, "no reachable abort, any length")
    ctx.parallel(work, tasks)
    ctx.floor("coders", 2)


def value_deps(v):
    if isinstance(v, T.Lin):
        return T.lin_deps(v)
    if isinstance(v, TabV):
        o = set()
        for i in v.idx:
            o |= T.lin_deps(i)
        return o
    if isinstance(v, VecV):
        return value_deps(v.s)
    if isinstance(v, Arr):
        o = set()
        for x in v.e:
            o |= value_deps(x)
        return o
    return set()
