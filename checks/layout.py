"""keramics-layout-map: the code that layout declarations generate."""
from kv import models as M, rope, terms as T
from kv.engine import Agg, Arr, SArr, VecV, Ref, State, DEnum, Sym
from . import lib
from .lib import Ana
from .types import slice_arg

U64 = (1 << 64) - 1
DATES = ("FatDate", "FatTimeDate", "FatTimeDate10Ms", "Filetime", "PosixTime32", "Uuid")
SIZE = {"FatDate": 2, "FatTimeDate": 4, "FatTimeDate10Ms": 5, "Filetime": 8, "PosixTime32": 4, "Uuid": 16,
        "ByteString": 1, "Ucs2String": 2, "Utf16String": 2}
NAMES = {}
for _w in (8, 16, 32, 64):
    SIZE[f"u{_w}"] = SIZE[f"i{_w}"] = _w // 8
    NAMES[f"u{_w}"] = (f"uint{_w}", f"UnsignedInteger{_w}Bit")
    NAMES[f"i{_w}"] = (f"int{_w}", f"SignedInteger{_w}Bit")
NAMES["Uuid"] = ("uuid",)
INTS = [f"{s}{w}" for s in "ui" for w in (8, 16, 32, 64)]
ORDERS = {"le": ("little", "le", "LittleEndian"), "be": ("big", "be", "BigEndian")}


class Decl:
    """a layout declaration and, independently of the macro, what its text must be"""

    def __init__(self, name, order=None, members=False, read=False, order_name=None):
        self.name = name
        self.order = order
        self.members = members
        self.read = read
        self.order_name = order_name or (ORDERS[order][0] if order else None)
        self.decl = []
        self.stmts = []       # of the function building the expected text
        self.size = 0
        self.sizes = []       # sizes of the data to look at, when there are groups
        self.used = 0

    def attr(self, s):
        self.decl.append(f"member({s})" if self.members else s)

    def value(self, ty, off, order, width=None):
        if ty in ("u8", "i8"):
            return f"{ty}::from_le_bytes([d[{off}]])"
        if ty in INTS:
            return f"{ty}::from_{order}_bytes([{', '.join(f'd[{off + j}]' for j in range(SIZE[ty]))}])"
        if ty in ("PosixTime32", "Uuid"):
            return f"{ty}::from_{order}_bytes(&d[{off}..{off + SIZE[ty]}])"
        return f"{ty}::from_bytes(&d[{off}..{off + SIZE[ty]}])"

    def opts(self, name, ty, order=None, fmt=None, modifier=None):
        s = f'name = "{name}", data_type = "{ty}"'
        if order:
            s += f', byte_order = "{order}"'
        if fmt:
            s += f', format = "{fmt}"'
        if modifier:
            s += f', modifier = "{modifier}"'
        return f"field({s})"

    def shown(self, ty, v, fmt, modifier=None):
        if modifier:
            v = f"({v} {modifier})"
        if fmt in ("hex", "Hexadecimal"):
            return f'format!("0x{{:0{2 * SIZE[ty]}x}}", {v})'
        if fmt in ("char", "Character"):
            return f'format!("{{}}", {v} as char)'
        return f'format!("{{}}", {v})'

    def field(self, name, ty, order=None, fmt=None, modifier=None, alias=None, into=None):
        """order: (le or be, its spelling) when the field states one"""
        a = self.opts(name, alias or ty, order and order[1], fmt, modifier)
        if into is None:
            self.attr(a)
        else:
            into.append(a)
        o = order[0] if order else self.order
        self.stmts.append(f'    t.push_str("    {name}: "); t.push_str(&{self.shown(ty, self.value(ty, self.size, o), fmt, modifier)}); t.push_str(",\\n");')
        self.size += SIZE[ty]
        self.used += 1

    def sequence(self, name, ty, n, order=None, fmt=None, spell=None):
        self.attr(self.opts(name, (spell or "[{}; {}]").format(ty, n), order and order[1], fmt))
        o = order[0] if order else self.order
        items = ", ".join(self.shown(ty, self.value(ty, self.size + j * SIZE[ty], o), fmt) for j in range(n))
        self.stmts.append(f'    t.push_str("    {name}: "); t.push_str(&debug_format_array(&vec![{items}])); t.push_str(",\\n");')
        self.size += n * SIZE[ty]
        self.used += 1

    def string(self, name, ty, n, order=None):
        self.attr(self.opts(name, f"{ty}<{n}>", order and order[1]))
        o = order[0] if order else self.order
        end = self.size + n * SIZE[ty]
        v = f"{ty}::from(&d[{self.size}..{end}])" if ty == "ByteString" else f"{ty}::from_{o}_bytes(&d[{self.size}..{end}])"
        self.stmts.append(f'    t.push_str("    {name}: \\""); t.push_str(&{v}.to_string()); t.push_str("\\",\\n");')
        self.size = end
        self.used += 1

    def bits(self, w, fields, order=None):
        """fields: (name, bits, format, modifier)"""
        o = order[0] if order else self.order
        self.stmts.append(f"    let p{self.size} = {self.value(f'u{w}', self.size, o)};")
        at = 0
        for i, (name, n, fmt, mod) in enumerate(fields):
            self.attr(self.opts(name, f"BitField{w}<{n}>", order and i == 0 and order[1] or None, fmt, mod))
            v = f"(p{self.size} >> {at})"
            if n != w:
                v = f"({v} % {1 << n})"
            if mod:
                v = f"({v} {mod})"
            f = f"0x{{:0{-(-n // 4)}x}}" if fmt in ("hex", "Hexadecimal") else "{}"
            self.stmts.append(f'    t.push_str("    {name}: "); t.push_str(&format!("{f}", {v})); t.push_str(",\\n");')
            at += n
        assert at == w
        self.size += w // 8
        self.used += len(fields)

    def struct(self, name, other, n=1):
        ty = f"Struct<{other.name}; {other.size}>"
        self.attr(self.opts(name, ty if n == 1 else f"[{ty}; {n}]"))
        if n == 1:
            self.stmts.append(f'    t.push_str("    {name}: ");')
        else:
            self.stmts.append(f'    t.push_str("    {name}: [\\n");')
        for j in range(n):
            lo = self.size + j * other.size
            self.stmts.append(f"    {other.name.lower()}_lines(&d[{lo}..{lo + other.size}], {4 if n == 1 else 8}, t);")
        if n != 1:
            self.stmts.append('    t.push_str("    ],\\n");')
        self.size += n * other.size
        self.used += 1

    def group(self, cond, threshold, fields):
        """fields: arguments of field(); shown for data whose length meets cond (first length: threshold)"""
        at = len(self.stmts)
        into = []
        for f in fields:
            self.field(*f[0], **f[1], into=into)
        body = self.stmts[at:]
        self.stmts[at:] = [f"    if d.len() {cond} {{"] + ["    " + x for x in body] + ["    }"]
        self.attr(f'group(size_condition = "{cond}", {", ".join(into)})')
        self.sizes.append(threshold)

    def source(self):
        o = f'byte_order = "{self.order_name}", ' if self.order_name else ""
        m = ', method(name = "read_at_position")' if self.read else ""
        return f"""    #[derive(keramics_layout_map::LayoutMap)]
    #[layout_map(structure({o}{', '.join(self.decl)}), method(name = "debug_read_data"){m})]
    pub struct {self.name} {{{' pub result: bool, pub seen: Vec<u8>' if self.read else ''}}}
"""

    def functions(self):
        n = self.name.lower()
        out = f"fn {n}_want(d: &[u8], t: &mut String) {{\n    t.push_str(\"{self.name} {{\\n\");\n" + "\n".join(self.stmts) + "\n    t.push_str(\"}\\n\\n\");\n}\n"
        out += f"pub fn {n}_text(d: &[u8]) -> (String, String) {{ let mut t = String::new(); let g = m::{self.name}::debug_read_data(d); {n}_want(d, &mut t); (g, t) }}\n"
        return out

    def lines_function(self):
        """the text of a nested structure, every line indented further"""
        n = self.name.lower()
        pad = '"        "' if False else "pad"
        body = [f'    t.push_str("    {self.name} {{\\n");']
        for x in self.stmts:
            body.append(x.replace('t.push_str("    ', 't.push_str(pad); t.push_str("    ', 1) if 't.push_str("    ' in x else x)
        first = f'    t.push_str({pad}); t.push_str("{self.name} {{\\n");'
        body[0] = first
        body.append(f'    t.push_str({pad}); t.push_str("}}\\n");')
        body.append(f'    t.push_str({pad}); t.push_str("\\n");')
        return f'fn {n}_lines(d: &[u8], n: usize, t: &mut String) {{\n    let pad = if n == 4 {{ "    " }} else {{ "        " }};\n' + "\n".join(body) + "\n}\n"


def declarations(tier):
    ds = []

    def add(name, **k):
        d = Decl(name, **k)
        ds.append(d)
        return d
    for order in ("le", "be"):
        d = add(f"All{order.capitalize()}", order=order)
        for t in INTS + list(DATES):
            d.field(f"f_{t.lower()}", t)
        d = add(f"Hex{order.capitalize()}", order=order, order_name=ORDERS[order][1])
        for i, t in enumerate(INTS):
            d.field(f"h_{t}", t, fmt=("hex", "Hexadecimal")[i % 2], alias=NAMES[t][0])
        other = "be" if order == "le" else "le"
        # a field's own byte order wins over that of the structure, and suffices without one
        d = add(f"Own{order.capitalize()}", order=order, order_name=ORDERS[order][2])
        for i, t in enumerate(["u16", "i32", "u64", "Uuid", "PosixTime32", "i16", "u32", "i64"]):
            d.field(f"o_{t.lower()}", t, order=(other, ORDERS[other][i % 3]), alias=NAMES.get(t, (t,))[-1])
            d.field(f"s_{t.lower()}", t)
        # (the macro takes a structure without options of its own for no structure at all when it has fields only)
        d = add(f"Only{order.capitalize()}", order=None, members=False)
        d.field("x_u8", "u8", alias="uint8")
        for t in ("u32", "i16", "Uuid", "FatDate", "u64", "PosixTime32"):
            d.field(f"x_{t.lower()}", t, order=(order, ORDERS[order][1]))
        # every type with nothing behind it: no byte past its own may be needed
        for t in INTS + list(DATES):
            d = add(f"End{t.capitalize()}{order.capitalize()}", order=order)
            d.field("first", "u8")
            d.field("last", t)
            d = add(f"Ends{t.capitalize()}{order.capitalize()}", order=order)
            d.sequence("last", t, 2)
        d = add(f"Seq{order.capitalize()}", order=order)
        for t in INTS + list(DATES):
            d.sequence(f"q_{t.lower()}", t, 3 if t != "Uuid" else 2)
        d = add(f"SeqHex{order.capitalize()}", order=order)
        for t in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
            d.sequence(f"r_{t}", t, 2, fmt="hex", spell="[{};{}]")
        d.sequence("r_own", "u32", 2, order=(other, ORDERS[other][0]))
        d.sequence("r_char", "u8", 4, fmt="char")
        d.field("r_last", "u16")
        d = add(f"Text{order.capitalize()}", order=order)
        d.field("before", "u8")
        d.string("bytes", "ByteString", 2)
        d.string("ucs2", "Ucs2String", 2)
        d.string("utf16", "Utf16String", 2)
        d.string("own", "Ucs2String", 1, order=(other, ORDERS[other][0]))
        d.field("after", "u16")
        d = add(f"Bits{order.capitalize()}", order=order)
        d.field("lead", "u8")
        d.bits(8, [("a1", 3, None, None), ("a2", 5, "hex", None)])
        d.bits(16, [("b1", 1, None, None), ("b2", 11, "hex", None), ("b3", 4, "Hexadecimal", None)])
        d.bits(32, [("c1", 9, None, None), ("c2", 22, "hex", None), ("c3", 1, None, None)])
        d.bits(64, [("d1", 20, "hex", None), ("d2", 33, None, None), ("d3", 11, "hex", None)])
        d.bits(32, [("e1", 32, "hex", None)], order=(other, ORDERS[other][0]))
        d.bits(64, [("g1", 64, "hex", None)])
        d.field("trail", "u16", fmt="hex")
        d = add(f"Bits2{order.capitalize()}", order=order)
        d.bits(8, [(f"i{k}", 1, None, None) for k in range(8)])
        d.bits(8, [("j1", 8, "hex", None)])
        d.bits(16, [("k1", 16, None, None)], order=(other, ORDERS[other][1]))
        d.bits(64, [("l1", 1, None, None), ("l2", 63, "hex", None)])
        d.bits(16, [("n1", 12, None, "* 3"), ("n2", 4, None, "+ 7")])
        d.bits(32, [("n3", 3, None, "as i64 - 7"), ("n4", 28, "hex", "& 0xffff"), ("n5", 1, None, None)])
        d.field("o1", "u8")
        d = add(f"Member{order.capitalize()}", order=order, members=True)
        d.field("m1", "u32")
        d.field("m2", "i64", order=(other, ORDERS[other][0]))
        d.sequence("m3", "u16", 2)
        d.string("m4", "ByteString", 2)
        base = d.size
        d.group(f"> {base}", base + 1, [(("m5", "u16"), {"fmt": "hex"}), (("m6", "u32"), {"order": (other, ORDERS[other][1])}), (("m7", "u8"), {"fmt": "char"})])
        d.group(f">= {d.size + 9}", d.size + 9, [(("m8", "Filetime"), {}), (("m9", "u8"), {})])
        mods = add(f"Mod{order.capitalize()}", order=order)
        mods.field("v1", "u16", modifier="& 0x0fff")
        mods.field("v2", "u8", modifier="/ 3", fmt="hex")
        mods.field("v3", "u32", modifier=">> 4", order=(other, ORDERS[other][0]))
        mods.field("v4", "u64", modifier="% 1000")
        mods.field("v5", "u8", fmt="char", modifier="& 0x7f")
        mods.field("v6", "i8", modifier="/ 2")
        inner = add(f"Inner{order.capitalize()}", order=order)
        inner.field("y1", "u16")
        inner.field("y2", "u32", fmt="hex")
        inner.field("y3", "Uuid")
        tiny = add(f"Tiny{order.capitalize()}", order=order)
        tiny.field("w1", "u8")
        tiny.field("w2", "i16")
        d = add(f"Nest{order.capitalize()}", order=order)
        d.field("z1", "u16")
        d.struct("z2", inner)
        d.field("z3", "u8")
        d.struct("z4", tiny, 3)
        d.field("z5", "u32")
        for x in (inner, tiny):
            x.nested = True
        d = add(f"Read{order.capitalize()}", order=order, read=True)
        d.field("t1", "u16")
        d.sequence("t2", "u8", 3)
        d.bits(8, [("t3", 3, None, None), ("t4", 5, None, None)])
        d.string("t5", "Utf16String", 2)
        d = add(f"ReadGroup{order.capitalize()}", order=order, read=True, members=True)
        d.field("t1", "u16")
        d.group("> 2", 3, [(("t2", "u32"), {}), (("t3", "u8"), {})])
        d.sizes = []
        d.struct("t6", tiny, 2)
        d.struct("t7", tiny)
        d.sequence("t8", "FatTimeDate10Ms", 2)
        d.string("t9", "Ucs2String", 1)
    return [d for d in ds if d.order or d.name.startswith("Only")]


def fixture(tier, seed):
    src = """#![allow(dead_code, unused_imports, unused_parens, unused_comparisons)]
use std::io::SeekFrom;
use std::sync::{Arc, RwLock};
use keramics_core::*;
use keramics_core::formatters::debug_format_array;
use keramics_datetime::*;
use keramics_types::*;

pub struct Probe { pub ok: bool, pub at: u64, pub offset: u64, pub data: Vec<u8> }
impl DataStream for Probe {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> { Ok(0) }
    fn read(&mut self, _buf: &mut [u8]) -> Result<usize, ErrorTrace> { Err(ErrorTrace::new(String::from("read"))) }
    fn seek(&mut self, _pos: SeekFrom) -> Result<u64, ErrorTrace> { Err(ErrorTrace::new(String::from("seek"))) }
    // anything but one exact read of the right amount at the right place fails
    fn read_exact_at_position(&mut self, buf: &mut [u8], pos: SeekFrom) -> Result<u64, ErrorTrace> {
        let right = match pos { SeekFrom::Start(x) => x == self.at, _ => false };
        if !right || buf.len() != self.data.len() || !self.ok { return Err(ErrorTrace::new(String::from("stream"))); }
        buf.copy_from_slice(&self.data);
        Ok(self.offset)
    }
}
mod m {
    use super::*;
"""
    ds = declarations(tier)
    for d in ds:
        src += d.source()
        if d.read:
            src += f"    impl {d.name} {{ pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {{ self.seen = data.to_vec(); if self.result {{ Ok(()) }} else {{ Err(ErrorTrace::new(String::from(\"data\"))) }} }} }}\n"
    src += "}\n"
    for d in ds:
        src += d.functions()
        if getattr(d, "nested", False):
            src += d.lines_function()
        if d.read:
            n = d.name.lower()
            src += (f"pub fn {n}_read(p: Probe, d: &[u8], at: u64, offset: u64, result: bool) -> (bool, Vec<u8>, String, String) {{\n"
                    f"    let s: DataStreamReference = Arc::new(RwLock::new(p));\n    let mut x = m::{d.name} {{ result, seen: Vec::new() }};\n"
                    f"    let r = x.read_at_position(&s, SeekFrom::Start(at));\n    let mut t = String::new();\n    {n}_want(d, &mut t);\n"
                    f"    (r.is_ok(), x.seen, format!(\"{d.name} data of size: {d.size} at offset: {{}} (0x{{:08x}})\\n\", offset, offset), t)\n}}\n")
    return "kvfixture", ["keramics-core", "keramics-datetime", "keramics-layout-map", "keramics-types"], src


CRATES = ["kvfixture", "keramics_core", "keramics_types", "keramics_datetime"]


def units(e):
    """texts that other checks decide are kept as units"""
    def array(ctx, st, a):
        r = M.window(ctx.e, st, a)
        if r.m[2].t:
            return NotImplemented
        return rope.make(ctx.e, [("o", "array", tuple(tuple(rope.of_val(ctx.e, st, M.win_get(ctx.e, st, r, T.const(j)))) for j in range(r.m[2].k)))])

    def text(name):
        def m(ctx, st, s):
            q = ctx.e.deref_val(st, s)
            return rope.make(ctx.e, [("o", name, ctx.e.load(st, q.o, q.p))])
        return m
    return {"keramics_core::formatters::debug_format_array": array,
            "keramics_types::byte_string::ByteString::to_string": text("ByteString"),
            "keramics_types::ucs2_string::Ucs2String::to_string": text("Ucs2String"),
            "keramics_types::utf16_string::Utf16String::to_string": text("Utf16String")}


def same(a, st, x, y, what):
    """obligations for two values being the same"""
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        if len(x) != len(y):
            return [("never", f"{what}: of another length")]
        return [o for p, q in zip(x, y) for o in same(a, st, p, q, what)]
    if isinstance(x, VecV) and isinstance(y, VecV):
        return same(a, st, x.s, y.s, what)
    if isinstance(x, Agg) and isinstance(y, Agg):
        if x.v != y.v or len(x.f) != len(y.f):
            return [("never", f"{what}: of another kind")]
        return [o for p, q in zip(x.f, y.f) for o in same(a, st, p, q, what)]
    if isinstance(x, Arr) and isinstance(y, Arr):
        if len(x.e) != len(y.e):
            return [("never", f"{what}: of another length")]
        return [o for p, q in zip(x.e, y.e) for o in same(a, st, p, q, what)]
    if isinstance(x, (T.Lin, T.B)) and type(x) is type(y):
        return [("eq", f"{what}: another value", x, y)]
    if isinstance(x, (Arr, SArr)) and isinstance(y, (Arr, SArr)):
        n, k = a.e.seq_len(x), a.e.seq_len(y)
        if not n.t and not k.t:
            if n != k:
                return [("never", f"{what}: of another length")]
            return [o for j in range(n.k) for o in same(a, st, a.e.seq_get(st, x, T.const(j)), a.e.seq_get(st, y, T.const(j)), what)]
    if repr(x) == repr(y):
        return []
    return [("open", f"{what}: not compared: {repr(x)[:60]} and {repr(y)[:60]}")]


def compare(a, st, got, want, what="text"):
    got, want = list(got), list(want)
    if [g[0] for g in got] != [w[0] for w in want]:
        if any(g[0] == "s" for g in got):
            return [("open", f"{what} not traced: " + rope.show(got)[:100])]
        i = next((i for i, (g, w) in enumerate(zip(got, want)) if g[0] != w[0]), min(len(got), len(want)))
        return [("never", f"{what} of another form from: " + rope.show(got[max(0, i - 30):i + 8])[:100])]
    out = []
    for i, (g, w) in enumerate(zip(got, want)):
        ctxt = line_of(want, i)
        if g[0] in ("b", "c"):
            out.append(("eq", f"{what}: character of {ctxt}", g[1], w[1]))
        elif g[0] == "o":
            if g[1] != w[1]:
                out.append(("never", f"{what}: {ctxt} of another type"))
            elif g[1] == "array":
                if len(g[2]) != len(w[2]):
                    out.append(("never", f"{what}: {ctxt} with another number of elements"))
                else:
                    for p, q in zip(g[2], w[2]):
                        out += compare(a, st, p, q, f"{what}: element of {ctxt}")
            else:
                out += same(a, st, g[2], w[2], f"{what}: {ctxt}")
        elif g[0] == "f":
            if g[1:3] != w[1:3]:
                out.append(("never", f"{what}: {ctxt} formatted differently"))
            elif isinstance(g[3], T.Lin) and isinstance(w[3], T.Lin):
                out.append(("eq", f"{what}: {ctxt}", g[3], w[3]))
            else:
                out += [] if g[3] == w[3] else [("open", f"{what}: {ctxt} not compared")]
        else:
            return [("open", f"{what} not traced: " + rope.show(got)[:100])]
    return out or [("true", "", T.TRUE)]


def line_of(want, i):
    """the name of the member whose line holds piece i"""
    j = i
    while j > 0 and not (want[j - 1][0] == "b" and want[j - 1][1] == T.const(10)):
        j -= 1
    s = ""
    while j < len(want) and want[j][0] == "b" and not want[j][1].t and want[j][1].k not in (58, 10, 123):
        s += chr(want[j][1].k)
        j += 1
    return s.strip() or "the end"


def l10(ctx):
    ctx.explanation = ("Layouts of every data type, byte order, format, modifier, bit field, group, string, sequence and nested structure are declared in a client crate, which also "
                       "builds the text each must have from the bytes at the declared offsets; the code the derive macro generates and that text are interpreted on unknown data and "
                       "compared piece by piece.")
    ctx.rule_text = ("debug text: one line per declared member in order, its name and the value of the bytes at the sum of the preceding sizes in its own or else the structure's byte "
                     "order, modified and formatted as declared; bit fields from the least significant bit; groups only for data meeting the condition; no abort for data of the "
                     "declared size; every valid declaration compiles")
    prog = ctx.program(CRATES)
    ds = declarations(ctx.tier)
    tasks = []
    for d in ds:
        tasks.append((d.name, d.size))
        for s in d.sizes:
            if s <= d.size:
                tasks += [(d.name, s - 1)]
    by = {d.name: d for d in ds}

    def work(r, t):
        name, n = t
        d = by[name]
        fn = prog.find(f"kvfixture::{name.lower()}_text")[0]

        def mk(env):
            def setup(a):
                a.args[0] = slice_arg(a.e, "data", T.const(n), fn.locals[1].t.t)
            return Ana(prog, fn, setup=setup, env=env, unroll_max=100000, unroll_nonconst=100000, join_cap=4000, max_steps=20_000_000, extra_models=units(None),
                       attrs={"fork": True, "opaque_show": DATES})

        def observe(a, ret, st):
            got, want = (rope.of_val(a.e, st, x) for x in ret.f)
            return compare(a, st, got, want)
        r.count("declared members", d.used)
        lib.judge(r, "layout-text", f"{name} on {n} bytes", mk, observe, abort="layout-abort")
    ctx.parallel(work, tasks)
    ctx.floor("declared members", 100)


MEDIATOR = {"keramics_core::mediator::Mediator::" + x for x in ("current", "make_current", "new", "debug_print", "debug_print_data")}
PRINTED = ("S", "printed")


def printing(extra):
    """the current mediator has unknown settings, what is printed is recorded"""
    def out(ctx, st, a):
        res = []
        for x, s in M.expand_args(ctx, st, a):
            try:
                segs = rope.format_args(ctx.e, s, x)
            except AttributeError:
                segs = None
            s = s.copy()
            old = s.mem.get(PRINTED)
            s.mem[PRINTED] = Agg("printed", (old.f if old else ()) + (tuple(segs) if segs is not None else None,))
            res.append((Agg(0, ()), s))
        return res

    def dump(ctx, st, d, group):
        r = M.window(ctx.e, st, d)
        return rope.make(ctx.e, [("o", "hexdump", (ctx.e.slice_seq(st, r), ctx.e.as_bool(group)))])
    return {"std::io::stdio::_print": out, "keramics_core::formatters::format_as_hexdump": dump, **extra}


def mediator(ctx, st):
    m = M.seq_to_ref(ctx, st, Agg(0, (T.eq(T.addk(T.sym("debug", 0, 1), -1)),)))
    return Agg("rwlock", (m,))


def l11(ctx):
    ctx.explanation = ("The positioned read generated for layouts with sequences, bit fields, groups and nested structures is interpreted over a stream and a mediator whose behaviour is "
                       "unknown; what is asked of the stream, what is handed to the structure, what is reported and what is printed is compared with the declaration.")
    ctx.rule_text = ("one exact read of the declared size at the given position; its data is passed on unchanged and the structure's verdict returned; a stream error is an error and "
                     "nothing is passed on; with debug output: size, offset, data and the text of the layout, in this order; without: nothing")
    prog = ctx.program(CRATES)

    def work(r, d):
        fn = prog.find(f"kvfixture::{d.name.lower()}_read")[0]

        def mk(env):
            def setup(a):
                a.data = [T.sym(f"data_{j}", 0, 255) for j in range(d.size)]
                a.ok = T.eq(T.addk(T.sym("stream_ok", 0, 1), -1))
                a.offset = a.args[3]
                names = [x[0] for x in fn.locals[1].vs[0][2]]
                st = State()
                p = {"ok": a.ok, "at": a.args[2], "offset": a.offset, "data": VecV(Arr(a.data))}
                a.args[0] = Agg(0, tuple(p[x] for x in names))
                o = ("S", "bytes.*")
                st.mem[o] = Arr(a.data)
                a.args[1] = Ref(o, (), ("s", T.ZERO, T.const(d.size)))
                return st
            return Ana(prog, fn, setup=setup, env=env, unroll_max=100000, unroll_nonconst=100000, join_cap=4000, max_steps=20_000_000, extra_models=printing(units(None)),
                       attrs={"fork": True, "opaque_show": DATES, "tls": mediator, "no_models": MEDIATOR})

        def observe(a, ret, st):
            good, seen, head, want = ret.f
            res = [("eq", "success of the read", a.e.as_bool(good), T.b_and(a.ok, a.e.as_bool(a.args[4])))]
            s = st.facts.truth(a.ok)
            if s is None:
                return res
            n = a.e.seq_len(seen.s)
            res.append(("eq", "amount of data passed on", n, T.const(d.size if s else 0)))
            if s and n == T.const(d.size):
                res += [("eq", "data passed on", a.e.as_int(a.e.seq_get(st, seen.s, T.const(j))), a.data[j]) for j in range(d.size)]
            pr = st.mem.get(PRINTED)
            pr = pr.f if pr else ()
            on = st.facts.truth(T.eq(T.addk(T.sym("debug", 0, 1), -1)))
            if not s or on is False:
                return res + ([("never", "something is printed")] if pr else [])
            if on is None:
                return res + ([("never", "the debug setting makes no difference")])
            if any(x is None for x in pr):
                return res + [("open", "printed text not traced")]
            dump = ("o", "hexdump", (Arr(a.data), T.TRUE))
            res += compare(a, st, [y for x in pr for y in x], rope.of_val(a.e, st, head) + [dump] + rope.of_val(a.e, st, want), "debug output")
            return res
        r.count("positioned reads")
        lib.judge(r, "layout-read", d.name, mk, observe, abort="layout-abort")
    ctx.parallel(work, [d for d in declarations(ctx.tier) if d.read])
    ctx.floor("positioned reads", 2)
