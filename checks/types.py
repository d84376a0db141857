"""keramics-types: byte-order readers, UUIDs, 8-bit and 16-bit strings, case table."""
import itertools

from kv import engine as E, terms as T, rope
from kv.engine import Agg, Arr, SArr, VecV, Ref, State
from . import lib
from .lib import Ana, assume, equal, possible, variant


def field(ty, name):
    """index of a public field of a struct type"""
    for i, f in enumerate(ty.vs[0][2]):
        if f[0] == name:
            return i
    raise KeyError(name)


def get_field(ty, v, name):
    return v.f[field(ty, name)]


def slice_arg(e, name, n, ety=None, data_name=None):
    """a slice of n (Lin or int) symbolic bytes called name"""
    o = ("S", name + ".*")
    n = T.const(n) if isinstance(n, int) else n
    e.sobjs[o] = ("seq", ety, n, name)
    return Ref(o, (), ("s", T.ZERO, n))


def byte(name, i):
    """the term of element i of the symbolic byte slice name"""
    return None


def elem(a, st, ref, i):
    from kv import models as M
    return a.e.as_int(M.win_get(a.e, st, ref, T.const(i)))


def compose(bs, order):
    l = T.ZERO
    n = len(bs)
    for i, b in enumerate(bs):
        sh = 8 * (n - 1 - i) if order == "be" else 8 * i
        l = T.add(l, T.scale(b, 1 << sh))
    return l


# ------------------------------------------------------------------ T10 readers

READERS = [(f"{s}{w}_{o}", s, w, o) for s in "iu" for w in (16, 32, 64) for o in ("be", "le")]


def readers_fixture(tier, seed):
    src = ["#![allow(dead_code)]", "pub mod readers {", "    use keramics_types::*;"]
    for name, s, w, o in READERS:
        src.append(f"    pub fn read_{name}(data: &[u8], offset: usize) -> {s}{w} {{ bytes_to_{name}!(data, offset) }}")
    src.append("}")
    return "kvfixture", ["keramics-types"], "\n".join(src) + "\n"


def t10(ctx):
    ctx.explanation = ("Every integer reader macro is instantiated in a client crate; the compiler's MIR of each instance is "
                       "interpreted on a byte buffer of unknown length and content at an unknown offset, and the resulting value term is "
                       "compared with the positional sum of the addressed bytes.")
    ctx.rule_text = ("result == sum(byte[offset+i] * 256^i) (little endian) or the mirrored sum (big endian), two's complement for the signed "
                     "readers, for every buffer and every offset with the whole value inside the buffer; no other byte is read; no abort there")
    prog = ctx.program(["kvfixture", "keramics_types"])
    for name, s, w, order in READERS:
        fn = prog.find(f"readers::read_{name}")
        if not fn:
            ctx.undecided("reader", name, "reader not found")
            continue
        fn = fn[0]
        n = w // 8

        def mk(env, fn=fn, n=n):
            def setup(a):
                data, off = a.args
                return assume(State(), T.le(T.sub(T.addk(off, n), data.m[2])))
            return Ana(prog, fn, setup=setup, env=env)

        def observe(a, ret, st, n=n, s=s, w=w, order=order):
            from kv import models as M
            data, off = a.args
            bs = [a.e.as_int(M.win_get(a.e, st, data, T.addk(off, i))) for i in range(n)]
            want = compose(bs, order)
            if s == "i":
                want = T.wrap_s(want, w)
            return [("eq", "value differs from the addressed bytes", a.e.as_int(ret), want)]
        ctx.count("readers")
        lib.judge(ctx, "reader-value", f"read {name}", mk, observe, abort="reader-abort")
    ctx.floor("readers", 1)


# ------------------------------------------------------------------ T11 UUID

HEX = set(b"0123456789abcdefABCDEF")


def is_hex(x):
    r = T.FALSE
    for lo, hi in ((48, 57), (65, 70), (97, 102)):
        r = T.b_or(r, T.b_and(T.le(T.sub(T.const(lo), x)), T.le(T.addk(x, -hi))))
    return r


def hexdig(x):
    vals = []
    for c in range(256):
        vals.append(c - 48 if 48 <= c <= 57 else c - 87 if 97 <= c <= 102 else c - 55 if 65 <= c <= 70 else None)
    return T.table(tuple(vals), x)


PARTS = [("part1", 0, 8), ("part2", 9, 13), ("part3", 14, 18), ("part4", 19, 23), ("part5", 24, 36)]
DASH = (8, 13, 18, 23)


def t11(ctx):
    ctx.explanation = ("The UUID constructors, parser and formatter are interpreted over symbolic bytes: constructors are compared field by "
                       "field with the RFC 4122 byte layout, the parser is analysed for every string length 0..40 (and every longer length at "
                       "once) with unknown characters, the formatter's output is compared byte by byte with the canonical text.")
    ctx.rule_text = ("layout: each field equals the positional sum of its bytes in the stated byte order; parse: success exactly on 36 characters "
                     "(optionally in braces) with dashes at 8/13/18/23 and hexadecimal digits elsewhere, the fields being the digits' values, no "
                     "abort for any text; format: 8-4-4-4-12 lower-case digits of the fields")
    prog = ctx.program(["keramics_types"])
    ty = prog.find("Uuid::new")[0].locals[0]
    tasks = [("layout", "from_be_bytes"), ("layout", "from_le_bytes"), ("text", "to_string"), ("text", "fmt"), ("const", "is_nil"),
             ("const", "is_max")]
    tasks += [("parse", n) for n in list(range(0, 41)) + ["long"]]

    def work(r, t):
        if t[0] == "layout":
            be = t[1] == "from_be_bytes"
            for fn in prog.find(f"Uuid::{t[1]}"):
                def mk(env, fn=fn):
                    def setup(a):
                        return assume(State(), T.le(T.sub(T.const(16), a.args[0].m[2])))
                    return Ana(prog, fn, setup=setup, env=env)

                def observe(a, ret, st):
                    b = [elem(a, st, a.args[0], i) for i in range(16)]
                    o = "be" if be else "le"
                    want = {"part1": compose(b[0:4], o), "part2": compose(b[4:6], o), "part3": compose(b[6:8], o),
                            "part4": compose(b[8:10], "be"), "part5": compose(b[10:16], "be")}
                    return [("eq", k, get_field(ty, ret, k), w) for k, w in want.items()]
                r.count("layouts")
                lib.judge(r, "uuid-layout", t[1], mk, observe, abort="uuid-abort")
        elif t[0] == "const":
            fn = prog.find(f"Uuid::{t[1]}")[0]
            full = {"part1": 0xffffffff, "part2": 0xffff, "part3": 0xffff, "part4": 0xffff, "part5": 0xffffffffffff}
            r.count("constants")
            for wanted in (False, True):
                def mk(env, fn=fn, wanted=wanted):
                    def setup(a):
                        v0 = a.e.load(State(), a.args[0].o, a.args[0].p)
                        a.cond = [T.eq(T.addk(get_field(ty, v0, k), -(m if t[1] == "is_max" else 0))) for k, m in full.items()]
                        return assume(State(), *a.cond) if wanted else State()
                    return Ana(prog, fn, setup=setup, env=env)

                def observe(a, ret, st, wanted=wanted):
                    b = a.e.as_bool(ret)
                    if wanted:
                        return [("true", "false for the stated constant", b)]
                    return [("true", f"true for another UUID ({k})", T.b_or(T.b_not(b), c)) for k, c in zip(full, a.cond)]
                lib.judge(r, "uuid-const", t[1], mk, observe, abort="uuid-abort")
        elif t[0] == "text":
            fns = [f for f in prog.find(f"uuid::Uuid::{t[1]}")] if t[1] == "to_string" else \
                  [f for f in prog.fns.values() if "Uuid as core::fmt::Display>::fmt" in f.key]
            for fn in fns:
                def mk(env, fn=fn):
                    def setup(a):
                        v = a.e.load(State(), a.args[0].o, a.args[0].p)
                        return assume(State(), T.le(T.addk(get_field(ty, v, "part5"), -((1 << 48) - 1))))
                    return Ana(prog, fn, setup=setup, env=env)

                def observe(a, ret, st):
                    v = a.e.load(State(), a.args[0].o, a.args[0].p)
                    if t[1] == "to_string":
                        outs = [(rope.of_val(a.e, st, ret), st)]
                    else:
                        outs = [(s, st2) for _, s, st2 in a.e.fmts.get("write", []) if s is not None]
                    if not outs:
                        return [("open", "output not through format arguments")]
                    want = []
                    for i, (k, n) in enumerate((("part1", 8), ("part2", 4), ("part3", 4), ("part4", 4), ("part5", 12))):
                        if i:
                            want += rope.text("-")
                        x = get_field(ty, v, k)
                        for j in reversed(range(n)):
                            want.append(("b", T.table(rope.HEXL, T.bits(x, 4 * j, 4, st.facts.rng(x)))))
                    res = []
                    for segs, st2 in outs:
                        res += rope_obligations(segs, want)
                    return res
                r.count("formatters")
                lib.judge(r, "uuid-text", fn.key, mk, observe, abort="uuid-abort")
        else:
            parse(r, prog, ty, t[1])

    ctx.parallel(work, tasks)
    ctx.floor("layouts", 1)


def parse(r, prog, ty, n):
    """two runs: any text (an accepted one must be valid), and a valid text (it must be accepted)"""
    fn = prog.find("Uuid::from_string")[0]
    base = {36: 0, 38: 1}.get(n)
    for wanted in ((False, True) if base is not None else (False,)):
        site = f"length {n}" + (" valid" if wanted else "")

        def mk(env, wanted=wanted):
            def setup(a):
                a.args[1] = a.s = slice_arg(a.e, "text", T.sym("length", 41, E.LEN_MAX) if n == "long" else T.const(n))
                st = State()
                if base is not None:
                    ch = [elem(a, st, a.s, i) for i in range(n)]
                    a.cond = [T.eq(T.addk(ch[0], -ord("{"))), T.eq(T.addk(ch[-1], -ord("}")))] if base else []
                    a.ch = ch[base:base + 36]
                    a.cond += [T.eq(T.addk(a.ch[i], -45)) if i in DASH else is_hex(a.ch[i]) for i in range(36)]
                    if wanted:
                        st = assume(st, *a.cond)
                return st
            return Ana(prog, fn, setup=setup, env=env)

        def observe(a, ret, st, wanted=wanted):
            v, _ = variant(ret)
            if v == 1:
                return [("never", "rejects a valid UUID text")] if wanted else [("true", "", T.TRUE)]
            if v != 0:
                return [("open", "result not known")]
            if base is None:
                return [("never", "accepts a text of this length")]
            res = [("true", "accepts a text that is not a UUID", c) for c in a.cond]
            obj = a.e.load(st, a.args[0].o, a.args[0].p)
            for k, lo, hi in PARTS:
                want = T.ZERO
                for i in range(lo, hi):
                    want = T.add(want, T.scale(hexdig(a.ch[i]), 16 ** (hi - 1 - i)))
                res.append(("eq", f"{k} differs from its digits", a.e.as_int(get_field(ty, obj, k)), want))
            return res
        r.count("parse lengths")
        lib.judge(r, "uuid-parse", site, mk, observe, abort="uuid-abort")


def rope_obligations(segs, want, what="text"):
    """the segments of a produced text against the wanted ones"""
    given = [w for w in want if w[0] == "s"]
    if given and all(g in given for g in segs if g[0] == "s"):
        # unknown input texts in a known frame
        if [g[0] for g in segs] != [w[0] for w in want]:
            return [("never", f"{what} of another form: " + rope.show(segs)[:100])]
        out = []
        for i, (g, w) in enumerate(zip(segs, want)):
            if g[0] == "s":
                out.append(("true", f"{what} part {i} is another", T.TRUE) if g == w else ("never", f"{what} part {i} is another: " + rope.show(segs)[:100]))
            elif g[0] == "f":
                return [("open", f"{what} of a width not known: " + rope.show(segs)[:100])]
            else:
                out.append(("eq", f"{what} character {i}", g[-1], w[-1]))
        return out
    if any(g[0] == "s" for g in segs):
        return [("open", f"{what} not traced: " + rope.show(segs)[:100])]
    if any(g[0] == "f" and not isinstance(g[3], T.Lin) for g in segs):
        return [("open", f"{what} not traced: " + rope.show(segs)[:100])]
    wide = [g[0] == "f" for g in segs]
    if wide != [w[0] == "f" for w in want]:
        if any(wide) != any(w[0] == "f" for w in want):
            return [("open", f"{what} of a width not known: " + rope.show(segs)[:100])]
        return [("never", f"{what} of another form: " + rope.show(segs)[:100])]
    if len(segs) != len(want):
        return [("never", f"{what} of another length: " + rope.show(segs)[:100])]
    out = []
    for i, (g, w) in enumerate(zip(segs, want)):
        if g[0] == "f" and g[1:3] != w[1:3]:
            out.append(("never", f"{what} part {i} formatted differently: {g[1]} {g[2]}"))
        else:
            out.append(("eq", f"{what} character {i}", g[-1], w[-1]))
    return out
