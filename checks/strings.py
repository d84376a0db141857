"""keramics-types: strings of 8-bit and 16-bit elements, case mapping table."""
import json
import os

from kv import engine as E, terms as T, rope
from kv.engine import Agg, Arr, SArr, VecV, Ref, State
from . import encodings, lib
from .lib import Ana, assume, variant
from .types import slice_arg, elem, compose, rope_obligations

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fixture(tier, seed):
    src = """#![allow(dead_code)]
use std::cmp::Ordering;
use keramics_types::*;
use keramics_encodings::CharacterEncoding;
pub fn ucs2_be(d: &[u8]) -> Vec<u16> { Ucs2String::from_be_bytes(d).elements }
pub fn ucs2_le(d: &[u8]) -> Vec<u16> { Ucs2String::from_le_bytes(d).elements }
pub fn ucs2_read(d: &[u8]) -> Vec<u16> { let mut s = Ucs2String::new(); s.read_data_le(d); s.elements }
pub fn ucs2_read_twice(d: &[u8], e: &[u8]) -> Vec<u16> { let mut s = Ucs2String::new(); s.read_data_le(d); s.read_data_le(e); s.elements }
pub fn ucs2_slice(d: &[u16]) -> Vec<u16> { Ucs2String::from(d).elements }
pub fn ucs2_vec(d: &Vec<u16>) -> Vec<u16> { Ucs2String::from(d).elements }
pub fn ucs2_len(d: &[u8]) -> usize { Ucs2String::from_le_bytes(d).len() }
pub fn ucs2_empty(d: &[u8]) -> bool { Ucs2String::from_le_bytes(d).is_empty() }
pub fn ucs2_text(d: &[u16]) -> String { Ucs2String { elements: d.to_vec() }.to_string() }
pub fn ucs2_compare(a: &[u16], b: &[u16]) -> Ordering { let x = Ucs2String { elements: a.to_vec() }; let y = Ucs2String { elements: b.to_vec() }; x.compare(&y) }
pub fn utf16_be(d: &[u8]) -> Vec<u16> { Utf16String::from_be_bytes(d).elements }
pub fn utf16_le(d: &[u8]) -> Vec<u16> { Utf16String::from_le_bytes(d).elements }
pub fn byte_read(d: &[u8]) -> Vec<u8> { let mut s = ByteString::new(); s.read_data(d); s.elements }
pub fn byte_read_twice(d: &[u8], e: &[u8]) -> Vec<u8> { let mut s = ByteString::new(); s.read_data(d); s.read_data(e); s.elements }
pub fn byte_slice(d: &[u8]) -> Vec<u8> { ByteString::from(d).elements }
pub fn byte_vec(d: &Vec<u8>) -> Vec<u8> { ByteString::from(d).elements }
pub fn byte_len(d: &[u8]) -> usize { ByteString::from(d).len() }
pub fn byte_empty(d: &[u8]) -> bool { ByteString::from(d).is_empty() }
pub fn text_latin(d: &[u8]) -> String { let mut s = ByteString::new_with_encoding(&CharacterEncoding::Iso8859_1); s.elements = d.to_vec(); s.to_string() }
pub fn text_1252(d: &[u8]) -> String { let mut s = ByteString::new_with_encoding(&CharacterEncoding::Windows1252); s.elements = d.to_vec(); s.to_string() }
pub fn text_utf8(d: &[u8]) -> String { let mut s = ByteString::new(); s.elements = d.to_vec(); s.to_string() }
pub fn extend_same(a: &[u8], b: &[u8]) -> (bool, Vec<u8>) { let mut s = ByteString::new(); s.elements = a.to_vec(); let mut o = ByteString::new(); o.elements = b.to_vec(); let r = s.extend(&o); (r.is_ok(), s.elements) }
pub fn extend_utf8_latin(a: &[u8], b: &[u8]) -> (bool, Vec<u8>) { let mut s = ByteString::new_with_encoding(&CharacterEncoding::Iso8859_1); s.elements = a.to_vec(); let mut o = ByteString::new(); o.elements = b.to_vec(); let r = s.extend(&o); (r.is_ok(), s.elements) }
pub fn extend_1251_1252(a: &[u8], b: &[u8]) -> (bool, Vec<u8>) { let mut s = ByteString::new_with_encoding(&CharacterEncoding::Windows1252); s.elements = a.to_vec(); let mut o = ByteString::new_with_encoding(&CharacterEncoding::Windows1251); o.elements = b.to_vec(); let r = s.extend(&o); (r.is_ok(), s.elements) }
pub fn extend_1252_latin(a: &[u8], b: &[u8]) -> (bool, Vec<u8>) { let mut s = ByteString::new_with_encoding(&CharacterEncoding::Iso8859_1); s.elements = a.to_vec(); let mut o = ByteString::new_with_encoding(&CharacterEncoding::Windows1252); o.elements = b.to_vec(); let r = s.extend(&o); (r.is_ok(), s.elements) }
pub fn extend_latin_1252(a: &[u8], b: &[u8]) -> (bool, Vec<u8>) { let mut s = ByteString::new_with_encoding(&CharacterEncoding::Windows1252); s.elements = a.to_vec(); let mut o = ByteString::new_with_encoding(&CharacterEncoding::Iso8859_1); o.elements = b.to_vec(); let r = s.extend(&o); (r.is_ok(), s.elements) }
pub fn byte_eq(a: &[u8], b: &[u8]) -> bool { ByteString::from(a) == b }
"""
    return "kvfixture", ["keramics-types", "keramics-encodings"], src


def seq_terms(a, st, v):
    return lib.vec_terms(a.e, st, v)


def cut(a, st, got, words, what="element"):
    """got is words up to the first zero"""
    if got is None:
        return [("open", "elements of unknown number")]
    res = []
    k = len(got)
    if k > len(words):
        return [("never", f"{k} elements from {len(words)}")]
    for i in range(k):
        res.append(("true", f"a zero {what} does not end the string", T.b_not(T.eq(words[i]))))
        res.append(("eq", f"{what} differs from its bytes", a.e.as_int(got[i]), words[i]))
    if k < len(words):
        res.append(("true", f"the string ends before a zero {what}", T.eq(words[k])))
    return res


READ16 = [("ucs2_be", "be"), ("ucs2_le", "le"), ("ucs2_read", "le"), ("utf16_be", "be"), ("utf16_le", "le")]


def t12(ctx):
    ctx.explanation = ("Client functions that read, build, compare and measure the string types are interpreted on buffers of unknown content and of each length up to the "
                       "bound; on each path the elements, their number, the ordering and the text are compared with the definition.")
    ctx.rule_text = ("reading: the elements are the 16-bit values (8-bit: bytes) before the first zero element, an odd last byte is ignored, a second read appends; length and "
                     "emptiness agree; compare is the lexicographic order of the elements, a prefix first; text: characters as such, backslash doubled, surrogates "
                     "as \\{hex}; no abort for any buffer")
    prog = ctx.program(["kvfixture", "keramics_types", "keramics_encodings", "keramics_core"])
    top = 9 if ctx.tier == "quick" else 17
    tasks = []
    for name, order in READ16:
        tasks += [("read16", name, order, n) for n in list(range(0, top)) + [None]]
    tasks += [("twice16", "ucs2_read_twice", "le", n) for n in ((0, 3), (2, 2), (4, 3), (5, 4))]
    for name in ("ucs2_slice", "ucs2_vec", "byte_read", "byte_slice", "byte_vec"):
        tasks += [("cut", name, None, n) for n in list(range(0, 6)) + [None]]
    tasks += [("twice8", "byte_read_twice", None, n) for n in ((0, 3), (2, 2), (3, 1))]
    for name in ("ucs2_len", "ucs2_empty", "byte_len", "byte_empty"):
        tasks += [("len", name, None, n) for n in range(0, 6)]
    tasks += [("compare", "ucs2_compare", None, (i, j)) for i in range(0, 5) for j in range(0, 5)] + [("compare", "ucs2_compare", None, (None, None))]
    tasks += [("text", "ucs2_text", None, n) for n in range(0, 3 if ctx.tier == "quick" else 4)]
    tasks += [("eq", "byte_eq", None, (i, j)) for i in range(0, 4) for j in range(0, 4)]

    def work(r, t):
        kind, name, order, n = t
        fn = prog.find(f"kvfixture::{name}")[0]
        site = f"{name} " + ("any" if n is None or n == (None, None) else "+".join(map(str, n)) if isinstance(n, tuple) else str(n))
        ns = n if isinstance(n, tuple) else (n,)

        def mk(env):
            def setup(a):
                for i, k in enumerate(ns):
                    ty = fn.locals[i + 1].t
                    k2 = T.sym(f"length{i}", 0, 1 << 40) if k is None else T.const(k)
                    if ty.k == "slice":
                        a.args[i] = slice_arg(a.e, "ab"[i] + ("w" if ty.t.w == 16 else ""), k2, ty.t)
                    else:
                        # a vector behind a reference
                        nm = "ab"[i] + "v" + ("w" if name.startswith("ucs2") else "")
                        o = ("S", nm + ".*")
                        ety = vec_elem(prog, name)
                        st = State()
                        st.mem[o] = VecV(SArr(nm, ety, k2))
                        a.args[i] = Ref(o, ())
                        a.given = [E.U8 and T.ZERO] if False else None
                        return st
            return Ana(prog, fn, setup=setup, env=env, **({} if None in ns else {"unroll_max": 10000, "join_cap": 4000, "attrs": {"fork": True}}))

        def items(a, st, i):
            v = a.args[i]
            if v.m and v.m[0] == "s":
                return [elem(a, st, v, j) for j in range(ns[i])]
            x = a.e.load(st, v.o, v.p)
            return [a.e.as_int(a.e.seq_get(st, x.s, T.const(j))) for j in range(ns[i])]

        def pairs(bs):
            return [compose(bs[j:j + 2], order) for j in range(0, len(bs) - 1, 2)]

        def observe(a, ret, st):
            if None in ns:
                return [("true", "", T.TRUE)]
            if kind == "read16":
                return cut(a, st, seq_terms(a, st, ret), pairs(items(a, st, 0)))
            if kind in ("twice16", "twice8"):
                f = pairs if kind == "twice16" else (lambda x: x)
                return twice(a, st, seq_terms(a, st, ret), f(items(a, st, 0)), f(items(a, st, 1)))
            if kind == "cut":
                return cut(a, st, seq_terms(a, st, ret), items(a, st, 0))
            if kind == "len":
                ws = items(a, st, 0)
                if name.startswith("ucs2"):
                    ws = [compose(ws[j:j + 2], "le") for j in range(0, len(ws) - 1, 2)]
                return length(a, st, ret, ws, name.endswith("empty"))
            if kind == "compare":
                return ordering(a, st, ret, items(a, st, 0), items(a, st, 1))
            if kind == "eq":
                x, y = items(a, st, 0), items(a, st, 1)
                return same(a, st, a.e.as_bool(ret), x, y)
            return text(a, st, ret, items(a, st, 0))
        r.count("string operations")
        lib.judge(r, f"string-{kind}", site, mk, observe, abort="string-abort")
    ctx.parallel(work, tasks)
    ctx.floor("string operations", 1)


def vec_elem(prog, name):
    for f in prog.find(f"kvfixture::{name.replace('vec', 'slice')}"):
        return f.locals[1].t.t
    return None


def twice(a, st, got, xs, ys):
    """elements of the first buffer up to its first zero, then those of the second"""
    if got is None:
        return [("open", "elements of unknown number")]
    k = len(got)
    res = []
    # the path decides where the first part ends
    for i in range(min(k, len(xs)) + 1):
        if i < len(xs) and st.facts.truth(T.eq(xs[i])) is True:
            break
        if i == len(xs):
            break
        if st.facts.truth(T.eq(xs[i])) is not False:
            return [("open", "end of the first part not known")]
    else:
        i = min(k, len(xs))
    if i > k:
        return [("never", "fewer elements than the first buffer has")]
    for j in range(i):
        res.append(("eq", "element differs from its bytes", a.e.as_int(got[j]), xs[j]))
    return res + cut(a, st, got[i:], ys)


def length(a, st, ret, ws, empty):
    if empty:
        b = a.e.as_bool(ret)
        return [("true", "emptiness differs", iff(b, T.eq(ws[0]) if ws else T.TRUE))]
    n = 0
    for w in ws:
        t = st.facts.truth(T.eq(w))
        if t is True:
            break
        if t is None:
            return [("open", "end not known")]
        n += 1
    return [("eq", "length differs", a.e.as_int(ret), T.const(n))]


def iff(x, y):
    return T.b_not(T.b_xor(x, y))


def before(x, y):
    """x is lexicographically before y"""
    if not y:
        return T.FALSE
    if not x:
        return T.TRUE
    d = T.sub(x[0], y[0])
    return T.b_or(T.le(T.addk(d, 1)), T.b_and(T.eq(d), before(x[1:], y[1:])))


def ordering(a, st, ret, x, y):
    v, _ = variant(ret)
    if v is None:
        return [("open", f"ordering not known")]
    got = v - 1
    if got:
        return [("true", "not ordered by the first differing element, then by length", before(x, y) if got < 0 else before(y, x))]
    if len(x) != len(y):
        return [("never", "strings of different length are equal")]
    return [("true", "different strings are equal", T.eq(T.sub(p, q))) for p, q in zip(x, y)] or [("true", "", T.TRUE)]


def same(a, st, b, x, y):
    """equality of x up to its first zero with y"""
    c = T.TRUE if len(x) >= len(y) else T.FALSE
    if len(x) >= len(y):
        for p, q in zip(x, y):
            c = T.b_and(c, T.b_and(T.b_not(T.eq(p)), T.eq(T.sub(p, q))))
        if len(x) > len(y):
            c = T.b_and(c, T.eq(x[len(y)]))
    t = st.facts.truth(c)
    if t is not None:
        return [("true", "equality differs", b if t else T.b_not(b))]
    return [("true", "equality differs", iff(b, c))]


def text(a, st, ret, xs):
    segs = rope.of_val(a.e, st, ret)
    want = []
    f = st.facts
    for x in xs:
        bs = f.truth(T.eq(T.addk(x, -92)))
        sur = f.truth(T.b_and(T.le(T.sub(T.const(0xD800), x)), T.le(T.addk(x, -0xDFFF))))
        if bs is None or sur is None:
            return [("open", "kind of character not known")]
        if bs:
            want += rope.text("\\\\")
        elif sur:
            want += rope.text("\\{") + [("b", T.table(rope.HEXL, T.bits(x, s, 4, f.rng(x)))) for s in (12, 8, 4, 0)] + rope.text("}")
        else:
            c = rope.char_seg(st, x)
            want += c if isinstance(c, list) else [c]
    return rope_obligations(segs, want)


# ------------------------------------------------------------------ encodings of byte strings

def codes(name):
    m = encodings.oracle()[name]
    return [m.get(bytes([b]), -1) for b in range(256)]


def chars(segs):
    """code points of text segments, multi-byte constants put together"""
    out = []
    raw = bytearray()

    def flush():
        if raw:
            out.extend(T.const(ord(c)) for c in bytes(raw).decode("utf-8", "replace"))
            raw.clear()
    for s in segs:
        if s[0] == "b" and not s[1].t:
            raw.append(s[1].k)
            continue
        flush()
        if s[0] not in "bc":
            return None
        out.append(s[1])
    flush()
    return out


def t14(ctx):
    ctx.explanation = ("Client functions that turn byte strings of a stated encoding into text and append byte strings of another encoding are interpreted with all byte values; "
                       "dispatch to the coder, iteration, escaping and appending are followed to the resulting text or bytes.")
    ctx.rule_text = ("text: each byte's published character, a backslash doubled, U+FFFD for a byte that has none, in order, nothing else; "
                     "append: the same encoding appends the bytes; otherwise exactly the characters both encodings have are converted, any other is an error; what was there stays")
    prog = ctx.program(["kvfixture", "keramics_types", "keramics_encodings", "keramics_core"])
    tasks = [("text", n, c, k) for n, c in (("text_latin", "Iso8859_1"), ("text_1252", "Windows1252")) for k in ((0, 1, 2) if c == "Iso8859_1" else (0, 1))]
    tasks += [("utf8", "text_utf8", None, k) for k in (0, 1)]
    tasks += [("extend", "extend_same", (None, None), (i, j)) for i in range(0, 4) for j in range(0, 4)]
    tasks += [("extend", "extend_1251_1252", ("Windows1251", "Windows1252"), (i, j)) for i in (0, 1, 3) for j in (0, 1)]
    tasks += [("extend", "extend_1252_latin", ("Windows1252", "Iso8859_1"), (i, j)) for i in (0, 2) for j in (0, 1, 2)]
    tasks += [("extend", "extend_latin_1252", ("Iso8859_1", "Windows1252"), (i, j)) for i in (0, 2) for j in (0, 1, 2)]
    tasks += [("extend", "extend_utf8_latin", ("Ascii", "Iso8859_1"), (i, j)) for i in (0, 2) for j in (0, 1)]

    def work(r, t):
        kind, name, enc, n = t
        fn = prog.find(f"kvfixture::{name}")[0]
        ns = n if isinstance(n, tuple) else (n,)
        site = f"{name} " + "+".join(map(str, ns))

        def mk(env):
            def setup(a):
                for i, k in enumerate(ns):
                    a.args[i] = slice_arg(a.e, "ab"[i], T.const(k), fn.locals[i + 1].t.t)
            return Ana(prog, fn, setup=setup, env=env, unroll_max=10000, join_cap=4000, attrs={"fork": True})

        def observe(a, ret, st):
            xs = [[elem(a, st, a.args[i], j) for j in range(k)] for i, k in enumerate(ns)]
            f = st.facts
            if kind in ("text", "utf8"):
                got = chars(rope.of_val(a.e, st, ret))
                if got is None:
                    return [("open", "text not known")]
                tab = codes(enc) if enc else [b if b < 128 else -1 for b in range(256)]
                want = []
                for x in xs[0]:
                    if f.truth(T.eq(T.addk(x, -92))) is None:
                        return [("open", "backslash or not")]
                    want += [T.table(tuple(c if c >= 0 else 0xFFFD for c in tab), x)] * (2 if f.truth(T.eq(T.addk(x, -92))) else 1)
                if len(got) != len(want):
                    return [("never", f"another number of characters")]
                return [("eq", "another character", g, w) for g, w in zip(got, want)] or [("true", "", T.TRUE)]
            ok = a.e.as_bool(ret.f[0])
            els = lib.vec_terms(a.e, st, ret.f[1])
            if els is None:
                return [("open", "number of elements")]
            o = f.truth(ok)
            if o is None:
                return [("open", "success or not")]
            fine = T.TRUE
            conv = []
            for x in xs[1]:
                if enc[0] is None:
                    conv.append(x)
                    continue
                src, dst = codes(enc[0]), {c: b for b, c in enumerate(codes(enc[1])) if c >= 0}
                to = tuple(dst.get(c, -1) if c >= 0 else -1 for c in src)
                conv.append(T.table(to, x))
                fine = T.b_and(fine, T.le(T.neg(T.table(to, x))))
            res = []
            if o:
                res.append(("true", "a character that cannot be converted is accepted", fine))
                if len(els) != len(xs[0]) + len(conv):
                    return res + [("never", "another number of elements")]
                res += [("eq", "another element", a.e.as_int(g), w) for g, w in zip(els, xs[0] + conv)]
            else:
                res.append(("true", "convertible characters are refused", T.b_not(fine)))
                if len(els) < len(xs[0]):
                    return res + [("never", "existing elements lost")]
                res += [("eq", "existing element changed", a.e.as_int(g), w) for g, w in zip(els, xs[0])]
            return res
        r.count("conversions")
        lib.judge(r, f"string-{kind}", site, mk, observe, abort="string-abort")
    ctx.parallel(work, tasks)
    ctx.floor("conversions", 1)


# ------------------------------------------------------------------ case table

def t13(ctx):
    ctx.explanation = "The evaluated constant of the case mapping table is compared with the simple upper-case mappings of the Unicode character database."
    ctx.rule_text = ("every entry maps a UCS-2 letter to its simple upper-case (title-case for the Greek letters with iota) letter; each letter once; "
                     "no upper-case letter is mapped further; all letters of the reference are present")
    prog = ctx.program(["keramics_types"])
    ref = {int(k, 16): int(v, 16) for k, v in json.load(open(os.path.join(VERIF, "oracles", "ucs2case.json"))).items()}
    c = [v for k, v in prog.consts.items() if k.endswith("constants::UCS2_CASE_MAPPINGS")]
    if not c:
        ctx.undecided("case-table", "UCS2_CASE_MAPPINGS", "constant not found")
        return
    got = pairs_of(c[0])
    if got is None:
        ctx.undecided("case-table", "UCS2_CASE_MAPPINGS", "not an array of pairs")
        return
    ctx.count("entries", len(got))
    seen = set()
    n = 0
    for lo, up in got:
        where = f"U+{lo:04x}"
        if lo in seen:
            ctx.bad("case-table", where, "mapped twice")
        seen.add(lo)
        want = ref.get(lo, ord(chr(lo).upper()) if not 0xD800 <= lo < 0xE000 and len(chr(lo).upper()) == 1 else None)
        if want is None or want == lo and up != lo or want != up:
            ctx.bad("case-table", where, f"mapped to U+{up:04x}" + (f" instead of U+{want:04x}" if want is not None else ""))
        else:
            n += 1
            ctx.ok("case-table", where, f"U+{up:04x}")
    m = dict(got)
    for lo, up in got:
        if up in m and m[up] != up:
            ctx.bad("case-idempotent", f"U+{lo:04x}", f"its upper case U+{up:04x} is mapped again")
    for lo in sorted(ref):
        if lo not in m:
            ctx.bad("case-table", f"U+{lo:04x}", f"missing (U+{ref[lo]:04x})")


def pairs_of(c):
    """[(int, int)] of an evaluated constant"""
    raw = c[1] if isinstance(c, tuple) else c
    out = []
    try:
        for x in items_of(raw):
            p = items_of(x)
            out.append((int(scalar(p[0])), int(scalar(p[1]))))
    except (TypeError, ValueError, IndexError, KeyError):
        return None
    return out


def items_of(x):
    if isinstance(x, list) and x and isinstance(x[0], str):
        return x[1] if x[0] == "L" else x[2]
    return x


def scalar(x):
    return x[-1] if isinstance(x, list) else x
