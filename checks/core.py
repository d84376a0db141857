"""keramics-core: data streams, formatters, error traces."""
from kv import engine as E, terms as T, rope
from kv.engine import Agg, Arr, DEnum, SArr, VecV, Ref, State
from . import lib
from .lib import Ana, assume, variant
from .types import slice_arg, elem, rope_obligations


def fixture(tier, seed):
    src = """#![allow(dead_code)]
use std::io::SeekFrom;
use keramics_core::*;
use keramics_core::formatters::*;

// fake data streams
pub fn fake_read(d: &[u8], size: u64, at: u64, buf: &mut [u8]) -> (u8, u64, u64) {
    let mut s = FakeDataStream::new(d, size);
    if s.seek(SeekFrom::Start(at)).is_err() { return (1, 0, 0); }
    match s.read(buf) { Ok(n) => match s.seek(SeekFrom::Current(0)) { Ok(p) => (0, n as u64, p), Err(_) => (3, 0, 0) }, Err(_) => (2, 0, 0) }
}
pub fn fake_read2(d: &[u8], size: u64, at: u64, one: &mut [u8], two: &mut [u8]) -> (u8, u64, u64) {
    let mut s = FakeDataStream::new(d, size);
    if s.seek(SeekFrom::Start(at)).is_err() { return (1, 0, 0); }
    match s.read(one) { Ok(n) => match s.read(two) { Ok(m) => (0, n as u64, m as u64), Err(_) => (3, 0, 0) }, Err(_) => (2, 0, 0) }
}
pub fn fake_size(d: &[u8], size: u64) -> (u8, u64) { match FakeDataStream::new(d, size).get_size() { Ok(n) => (0, n), Err(_) => (1, 0) } }
pub fn fake_seek_current(d: &[u8], size: u64, at: u64, by: i64) -> (bool, u64, u64) {
    let mut s = FakeDataStream::new(d, size);
    let _ = s.seek(SeekFrom::Start(at));
    let r = s.seek(SeekFrom::Current(by));
    let p = s.seek(SeekFrom::Current(0)).unwrap_or(u64::MAX);
    match r { Ok(q) => (true, q, p), Err(_) => (false, 0, p) }
}
pub fn fake_seek_end(d: &[u8], size: u64, at: u64, by: i64) -> (bool, u64, u64) {
    let mut s = FakeDataStream::new(d, size);
    let _ = s.seek(SeekFrom::Start(at));
    let r = s.seek(SeekFrom::End(by));
    let p = s.seek(SeekFrom::Current(0)).unwrap_or(u64::MAX);
    match r { Ok(q) => (true, q, p), Err(_) => (false, 0, p) }
}
pub fn fake_exact(d: &[u8], size: u64, at: u64, buf: &mut [u8]) -> (bool, u64) {
    let mut s = FakeDataStream::new(d, size);
    match s.read_exact_at_position(buf, SeekFrom::Start(at)) { Ok(p) => (true, p), Err(_) => (false, 0) }
}
pub fn open_read(d: &[u8], at: u64, buf: &mut [u8]) -> (u8, u64, u64) {
    let s = open_fake_data_stream(d);
    let mut s = match s.write() { Ok(s) => s, Err(_) => return (9, 0, 0) };
    let z = s.get_size().unwrap_or(u64::MAX);
    match s.read_at_position(buf, SeekFrom::Start(at)) { Ok(n) => (0, n as u64, z), Err(_) => (1, 0, z) }
}

// the reading helpers on a stream that does what it is told
pub struct Probe { pub seek_ok: bool, pub seek_to: u64, pub read_ok: bool, pub count: usize, pub reads: u32, pub seeks: u32, pub asked: u64 }
impl DataStream for Probe {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> { if self.seek_ok { Ok(self.seek_to) } else { Err(ErrorTrace::new(String::from("size"))) } }
    fn read(&mut self, _buf: &mut [u8]) -> Result<usize, ErrorTrace> { self.reads += 1; if self.read_ok { Ok(self.count) } else { Err(ErrorTrace::new(String::from("read"))) } }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        self.seeks += 1;
        if self.reads > 0 { self.seeks += 100; }
        self.asked = match pos { SeekFrom::Start(x) => x, _ => u64::MAX };
        if self.seek_ok { Ok(self.seek_to) } else { Err(ErrorTrace::new(String::from("seek"))) }
    }
}
pub fn probe_read_at(p: &mut Probe, buf: &mut [u8], at: u64) -> (bool, u64) { match p.read_at_position(buf, SeekFrom::Start(at)) { Ok(n) => (true, n as u64), Err(_) => (false, 0) } }
pub fn probe_exact(p: &mut Probe, buf: &mut [u8]) -> bool { p.read_exact(buf).is_ok() }
pub fn probe_exact_at(p: &mut Probe, buf: &mut [u8], at: u64) -> (bool, u64) { match p.read_exact_at_position(buf, SeekFrom::Start(at)) { Ok(n) => (true, n), Err(_) => (false, 0) } }

// files
pub fn file_size(f: &mut std::fs::File) -> (bool, u64) { match DataStream::get_size(f) { Ok(n) => (true, n), Err(_) => (false, 0) } }
pub fn file_read(f: &mut std::fs::File, buf: &mut [u8]) -> (bool, u64) { match DataStream::read(f, buf) { Ok(n) => (true, n as u64), Err(_) => (false, 0) } }
pub fn file_seek_start(f: &mut std::fs::File, at: u64) -> (bool, u64) { match DataStream::seek(f, SeekFrom::Start(at)) { Ok(n) => (true, n), Err(_) => (false, 0) } }
pub fn file_seek_current(f: &mut std::fs::File, by: i64) -> (bool, u64) { match DataStream::seek(f, SeekFrom::Current(by)) { Ok(n) => (true, n), Err(_) => (false, 0) } }
pub fn file_seek_end(f: &mut std::fs::File, by: i64) -> (bool, u64) { match DataStream::seek(f, SeekFrom::End(by)) { Ok(n) => (true, n), Err(_) => (false, 0) } }

// formatters
pub fn hexdump(d: &[u8]) -> String { format_as_hexdump(d, false) }
pub fn hexdump_grouped(d: &[u8]) -> String { format_as_hexdump(d, true) }
pub fn hexstring(d: &[u8]) -> String { format_as_string(d) }
"""
    src += """
// macros on shared streams
fn macro_size_of(s: &DataStreamReference) -> Result<u64, ErrorTrace> { let n: u64 = data_stream_get_size!(s); Ok(n) }
fn macro_read_of(s: &DataStreamReference, buf: &mut [u8], at: u64) -> Result<usize, ErrorTrace> { let n: usize = data_stream_read_at_position!(s, buf, SeekFrom::Start(at)); Ok(n) }
fn macro_exact_of(s: &DataStreamReference, buf: &mut [u8], at: u64) -> Result<u64, ErrorTrace> { let n: u64 = data_stream_read_exact_at_position!(s, buf, SeekFrom::Start(at)); Ok(n) }
pub fn macro_size(p: Probe) -> (bool, u64, String) { let s: DataStreamReference = std::sync::Arc::new(std::sync::RwLock::new(p)); match macro_size_of(&s) { Ok(n) => (true, n, String::new()), Err(e) => (false, 0, e.to_string()) } }
pub fn macro_read(p: Probe, buf: &mut [u8], at: u64) -> (bool, u64, String) { let s: DataStreamReference = std::sync::Arc::new(std::sync::RwLock::new(p)); match macro_read_of(&s, buf, at) { Ok(n) => (true, n as u64, String::new()), Err(e) => (false, 0, e.to_string()) } }
pub fn macro_exact(p: Probe, buf: &mut [u8], at: u64) -> (bool, u64, String) { let s: DataStreamReference = std::sync::Arc::new(std::sync::RwLock::new(p)); match macro_exact_of(&s, buf, at) { Ok(n) => (true, n, String::new()), Err(e) => (false, 0, e.to_string()) } }

// mediator
pub fn medi_text(text: String) { mediator::Mediator::current().debug_print(text) }
pub fn medi_data(d: &[u8], group: bool) { mediator::Mediator::current().debug_print_data(d, group) }
pub fn medi_made(on: bool, text: String) { mediator::Mediator::new(on).make_current(); mediator::Mediator::current().debug_print(text) }
pub fn medi_twice(on: bool, then: bool, d: &[u8], group: bool) -> bool { mediator::Mediator::new(on).make_current(); mediator::Mediator::new(then).make_current(); let m = mediator::Mediator::current(); m.debug_print_data(d, group); m.debug_output }
pub fn medi_first(text: String) -> bool { mediator::Mediator::current().debug_print(text); mediator::Mediator::current().debug_output }
pub fn medi_kept(on: bool, text: String) { let m = mediator::Mediator::current(); mediator::Mediator::new(on).make_current(); m.debug_print(text) }
"""
    for n in ARRAYS:
        args = ", ".join(f"s{i}: String" for i in range(n))
        items = ", ".join(f"s{i}" for i in range(n))
        src += f"pub fn array_{n}({args}) -> String {{ let v: Vec<String> = vec![{items}]; debug_format_array(&v) }}\n"
    src += """
// error traces
pub fn trace_1(a: String) -> (String, String) { let e = ErrorTrace::new(a); (e.to_string(), format!("{}", e)) }
pub fn trace_2(a: String, b: String) -> (String, String) { let mut e = ErrorTrace::new(a); e.add_frame(b); (e.to_string(), format!("{}", e)) }
pub fn trace_3(a: String, b: String, c: String) -> (String, String) { let mut e = ErrorTrace::new(a); e.add_frame(b); e.add_frame(c); (e.to_string(), format!("{}", e)) }
"""
    return "kvfixture", ["keramics-core"], src


ARRAYS = (0, 1, 2, 3, 16, 17, 20, 32, 33)
CRATES = ["kvfixture", "keramics_core"]


def vals(a, ret):
    return [a.e.as_int(x) if not isinstance(x, T.B) else x for x in ret.f]


def clip(x, lo, hi_lin):
    """min(x, hi_lin)"""
    return T.ite(T.le(T.sub(x, hi_lin)), x, hi_lin)


def expected(d, size, at, dn, bn, i, old):
    """byte i of a buffer of bn bytes after a read at `at`"""
    pos = T.addk(at, i)
    val = T.ZERO
    for j in range(dn):
        val = T.ite(T.eq(T.addk(pos, -j)), d[j], val)
    return T.ite(T.le(T.addk(T.sub(pos, size), 1)), val, old)


def count(size, at, bn):
    left = T.ite(T.le(T.sub(at, size)), T.sub(size, at), T.ZERO)
    return T.ite(T.le(T.addk(left, -bn)), left, T.const(bn))


U64 = (1 << 64) - 1


def k10(ctx):
    ctx.explanation = ("Client functions that build a fake data stream of a stated number of data bytes and an unknown size, seek to an unknown position and read are "
                       "interpreted; on every path the count, the position afterwards and every byte of the buffer are compared with the definition.")
    ctx.rule_text = ("read: min(buffer, size - position) bytes, 0 at and past the end; byte p of the stream is data byte p while there is one and 0 after; the rest of the "
                     "buffer is left alone; the position advances by the count; seek: start, current + n, end + n, an error that leaves the position when that is no position; "
                     "no abort")
    prog = ctx.program(CRATES)
    tasks = [("read", "fake_read", dn, bn, at) for dn in range(0, 4) for bn in range(0, 5) for at in [*range(0, dn + 1), "past"]]
    tasks += [("read2", "fake_read2", dn, (b1, b2), at) for dn, b1, b2 in ((3, 1, 3), (3, 2, 2), (2, 3, 2), (0, 1, 2), (4, 2, 1)) for at in (0, 1)]
    tasks += [("size", "fake_size", 2, 0, 0)] + [("seek", n, 2, 0, 0) for n in ("fake_seek_current", "fake_seek_end")]
    tasks += [("exact", "fake_exact", dn, bn, at) for dn in (0, 3) for bn in (0, 1, 3) for at in [*range(0, dn + 1), "past"]]
    tasks += [("open", "open_read", dn, bn, at) for dn in (0, 1, 3) for bn in (0, 2, 4) for at in (0, 1, "past")]
    tasks += [("any", "fake_read", None, None, None)]

    def work(r, t):
        kind, name, dn, bn, at = t
        fn = prog.find(f"kvfixture::{name}")[0]
        site = f"{name} of {dn} data bytes" + (f", buffer {bn} at {at}" if kind not in ("size", "seek") else "") if kind != "any" else f"{name} of anything"
        bns = bn if isinstance(bn, tuple) else (bn,)

        def mk(env):
            def setup(a):
                any_ = kind == "any"
                a.args[0] = slice_arg(a.e, "data", T.sym("data_len", 0, 1 << 40) if any_ else T.const(dn), E.U8)
                k = 2
                if kind != "open":
                    a.size = a.args[1] = T.sym("size", 0, U64)
                else:
                    a.size = T.const(dn)
                    k = 1
                if kind == "size":
                    return None
                if not isinstance(at, int):
                    a.at = T.sym(f"at_{dn}", 0 if at is None else dn, U64)
                else:
                    a.at = T.const(at)
                if kind == "seek":
                    a.at = a.args[k] = T.sym("from", 0, U64)
                    a.by = a.args[k + 1] = T.sym("by", -(1 << 63), (1 << 63) - 1)
                    return None
                a.args[k] = a.at
                for i, b in enumerate(bns):
                    a.args[k + 1 + i] = slice_arg(a.e, f"buf{i}", T.sym("buf_len", 0, 1 << 40) if any_ else T.const(b), E.U8)
                a.bufs = a.args[k + 1:]
                return None
            return Ana(prog, fn, setup=setup, env=env, **({} if kind == "any" else {"unroll_max": 10000, "join_cap": 4000, "attrs": {"fork": True}}))

        def observe(a, ret, st):
            if kind == "any":
                return [("true", "", T.TRUE)]
            v = [x if isinstance(x, T.B) else a.e.as_int(x) for x in ret.f]
            if kind == "size":
                return [("eq", "size refused", v[0], T.ZERO), ("eq", "another size", v[1], a.size)]
            d = [elem(a, State(), a.args[0], j) for j in range(dn)]
            if kind == "seek":
                base = a.at if name.endswith("current") else a.size
                to = T.add(base, a.by)
                fits = T.b_and(T.le(T.neg(to)), T.le(T.addk(to, -U64)))
                o = st.facts.truth(a.e.as_bool(ret.f[0]))
                if o is None:
                    return [("open", "success or not")]
                fits = T.b_and(T.le(T.neg(to)), T.le(T.addk(to, -U64)))
                if o:
                    return [("true", "a position out of bounds is accepted", fits), ("eq", "another position reported", v[1], to), ("eq", "another position", v[2], to)]
                return [("true", "a valid position is refused", T.b_not(fits)), ("eq", "position changed by a refused seek", v[2], a.at)]
            if kind == "exact":
                o = st.facts.truth(a.e.as_bool(ret.f[0]))
                if o is None:
                    return [("open", "success or not")]
                full = T.TRUE if bn == 0 else T.le(T.sub(T.addk(a.at, bn), a.size))
                if not o:
                    return [("true", "an exact read inside the stream is refused", T.b_not(full))]
                res = [("true", "a short exact read is accepted", full), ("eq", "another position reported", v[1], a.at)]
                return res + content(a, st, d, a.bufs[0], a.size, a.at, bn)
            if kind == "read2":
                b1, b2 = bn
                n1 = count(a.size, a.at, b1)
                at2 = T.add(a.at, n1)
                return ([("eq", "read refused", v[0], T.ZERO), ("eq", "another count", v[1], n1), ("eq", "another count of the second read", v[2], count(a.size, at2, b2))]
                        + content(a, st, d, a.bufs[0], a.size, a.at, b1) + content(a, st, d, a.bufs[1], a.size, at2, b2))
            n = count(a.size, a.at, bn)
            res = [("eq", "read refused", v[0], T.ZERO), ("eq", "another count", v[1], n)]
            if kind == "open":
                res.append(("eq", "another size", v[2], a.size))
            else:
                # a position within 2^64 is a position
                res.append(("eq", "another position after the read", v[2], T.add(a.at, n)))
            return res + content(a, st, d, a.bufs[0], a.size, a.at, bn)
        r.count("stream operations")
        lib.judge(r, f"stream-{kind}", site, mk, observe, abort="stream-abort")
    ctx.parallel(work, tasks)
    ctx.floor("stream operations", 1)


def content(a, st, d, buf, size, at, bn):
    res = []
    st0 = State()
    for i in range(bn):
        old = elem(a, st0, buf, i)
        res.append(("eq", f"byte of the buffer differs", elem(a, st, buf, i), expected(d, size, at, len(d), bn, i, old)))
    return res


# ------------------------------------------------------------------ default reads

def k11(ctx):
    ctx.explanation = "The provided methods of the data stream trait are interpreted over a stream whose seek and read outcomes are unknown (any position, any count, success or error)."
    ctx.rule_text = ("read at position: one seek to that position, then one read, its count returned, errors passed on, no read after a failed seek; exact reads succeed exactly if "
                     "the whole buffer was read, and report the position reached")
    prog = ctx.program(CRATES)

    def work(r, t):
        name, n = t
        fn = prog.find(f"kvfixture::{name}")[0]

        def mk(env):
            def setup(a):
                ty = fn.locals[1].t
                o = ("S", "probe.*")
                st = State()
                a.args[0] = Ref(o, ())
                a.args[1] = slice_arg(a.e, "buf", T.sym("buf_len", 0, 1 << 40) if n is None else T.const(n), E.U8)
                p = {f[0]: i for i, f in enumerate(ty.vs[0][2])}
                a.pf = p
                # every field unknown, counters zero
                zero = {"reads": T.ZERO, "seeks": T.ZERO, "asked": T.ZERO}
                fs = []
                a.given = {}
                for i, f in enumerate(ty.vs[0][2]):
                    x = zero.get(f[0])
                    if x is None:
                        x = T.b_not(T.eq(T.sym("p_" + f[0], 0, 1))) if f[0].endswith("_ok") else T.sym("p_" + f[0], 0, U64)
                    a.given[f[0]] = x
                    fs.append(x)
                st.mem[o] = Agg(0, tuple(fs))
                a.o = o
                if len(a.args) > 2:
                    a.at = a.args[2]
                # no stream reads more than it was asked for
                return assume(st, T.le(T.sub(a.given["count"], a.args[1].m[2])))
            return Ana(prog, fn, setup=setup, env=env, attrs={"fork": True})

        def observe(a, ret, st):
            g = a.given
            now = {k: a.e.load(st, a.o, ()).f[i] for k, i in a.pf.items()}
            num = lambda k: a.e.as_int(now[k])
            f = st.facts
            so, ro = (f.truth(g["seek_ok"]), f.truth(g["read_ok"]))
            blen = a.args[1].m[2]
            rv = [ret] if isinstance(ret, (T.B, T.Lin)) else ret.f
            ok = f.truth(a.e.as_bool(rv[0]))
            if ok is None:
                return [("open", "success or not")]
            full = T.eq(T.sub(g["count"], blen))
            if name == "probe_exact":
                c = T.b_and(g["read_ok"], full)
                return [("true", "success differs from a full read", c if ok else T.b_not(c)), ("eq", "not one read", num("reads"), T.const(1)), ("eq", "unasked seek", num("seeks"), T.ZERO)]
            res = [("eq", "not one seek before the read", num("seeks"), T.const(1)), ("eq", "another position asked for", num("asked"), a.at)]
            c = T.b_and(g["seek_ok"], g["read_ok"])
            if name == "probe_exact_at":
                c = T.b_and(c, full)
                if ok:
                    res.append(("eq", "another position reported", a.e.as_int(rv[1]), g["seek_to"]))
            elif ok:
                res.append(("eq", "another count reported", a.e.as_int(rv[1]), g["count"]))
            res.append(("true", "success differs from that of the stream", c if ok else T.b_not(c)))
            if so is False:
                res.append(("eq", "read after a failed seek", num("reads"), T.ZERO))
            elif so is True:
                res.append(("eq", "not one read", num("reads"), T.const(1)))
            return res
        r.count("read helpers")
        lib.judge(r, "helper", f"{name} {'any' if n is None else n}", mk, observe, abort="helper-abort")
    ctx.parallel(work, [(n, k) for n in ("probe_read_at", "probe_exact", "probe_exact_at") for k in (None, 0, 1, 4)])
    ctx.floor("read helpers", 1)


# ------------------------------------------------------------------ text

def k12(ctx):
    ctx.explanation = "The formatters are interpreted on data of unknown bytes and each length up to the bound, the array formatter and the error trace on unknown texts; the text is compared piece by piece."
    ctx.rule_text = ("hexdump: lines of an 8-digit offset, 16 two-digit values with a gap after the eighth, padding, and the printable characters (32..126, others a dot); when "
                     "grouping, a run of equal full lines is one '...' line except the last full line; hex string: two digits per byte; arrays: every element once in order, 16 a "
                     "line beyond 16, [x; n] exactly if all are equal; error traces: the frames in order, numbered when displayed; no abort")
    prog = ctx.program(CRATES)
    lens = [*range(0, 36), 47, 48, 49] if ctx.tier == "quick" else [*range(0, 70)]
    tasks = [("hex", "hexdump", n) for n in lens]
    # which full lines are the same, then bytes of an incomplete line
    pats = ["", "a", "aa", "ab", "aaa", "aab", "aba", "abb", "aaaa", "aabb", "aaab", "abbb", "abba", "baaa", "abbbb", "aaabb", "aabaa", "ababa"]
    if ctx.tier != "quick":
        pats += ["aaaaaaa", "aabbbba", "abbbbbc", "abcccca", "aaaabaaaab"]
    tasks += [("group", "hexdump_grouped", (p, t, 11)) for p in pats for t in (0, 1, 9)]
    tasks += [("group", "hexdump_grouped", (p, t, i)) for p in ("aab", "abbb", "aaaba", "aabbb") for t in ((0,) if ctx.tier == "quick" else (0, 3)) for i in range(16)]
    tasks += [("string", "hexstring", n) for n in (0, 1, 2, 3, 16, 17)]
    for n in ARRAYS:
        tasks += [("array", f"array_{n}", (n, k)) for k in ("equal", *sorted({n - 1, n // 2, 1} & set(range(1, n))), "all")]
    tasks += [("trace", f"trace_{n}", n) for n in (1, 2, 3)]

    def work(r, t):
        kind, name, n = t
        fn = prog.find(f"kvfixture::{name}")[0]

        def mk(env):
            def setup(a):
                if kind in ("hex", "string"):
                    a.args[0] = slice_arg(a.e, "data", T.const(n), E.U8)
                elif kind == "group":
                    st = State()
                    a.data = lines_of(*n)
                    st.mem[("S", "data.*")] = Arr(a.data)
                    a.args[0] = Ref(("S", "data.*"), (), ("s", T.ZERO, T.const(len(a.data))))
                    return st
                elif kind == "array":
                    a.args = [VecV(Arr(x)) for x in texts_of(*n)]
            return Ana(prog, fn, setup=setup, env=env, unroll_max=100000, unroll_nonconst=100000, join_cap=4000, max_steps=20_000_000,
                       attrs={"no_models": {"keramics_core::errors::ErrorTrace::new", "keramics_core::errors::ErrorTrace::add_frame"}})

        def observe(a, ret, st):
            if kind in ("hex", "group", "string"):
                d = a.data if kind == "group" else [elem(a, st, a.args[0], j) for j in range(n)]
                segs = rope.of_val(a.e, st, ret)
                if kind == "string":
                    return rope_obligations(segs, [("b", T.table(rope.HEXL, T.bits(x, s, 4, (0, 255)))) for x in d for s in (4, 0)])
                want = dump(st, d, kind == "group")
                return [want] if isinstance(want, tuple) else rope_obligations(segs, want)
            parts = [rope.of_val(a.e, st, x) for x in a.args]
            if kind == "trace":
                plain, shown = [], []
                for i, p in enumerate(parts):
                    plain += (rope.text("\n") if i else []) + p
                    shown += rope.text(("\n" if i else "") + f"#{i} ") + p
                return rope_obligations(rope.of_val(a.e, st, ret.f[0]), plain) + rope_obligations(rope.of_val(a.e, st, ret.f[1]), shown)
            return array(a, st, rope.of_val(a.e, st, ret), parts)
        r.count("formatted values")
        lib.judge(r, f"text-{kind}", f"{name} " + (" ".join(map(str, n)) if isinstance(n, tuple) else str(n)), mk, observe, abort="text-abort")
    ctx.parallel(work, tasks)
    ctx.floor("formatted values", 1)


ASCII = tuple(c if 32 <= c < 127 else 46 for c in range(256))


def line(d, off):
    out = rope.text(f"{off:08x}  ")
    for i in range(16):
        out += [("b", T.table(rope.HEXL, T.bits(d[i], s, 4, (0, 255)))) for s in (4, 0)] if i < len(d) else rope.text("  ")
        out += rope.text(" " if i != 7 else "  ")
    out += rope.text(" ") + [("b", T.table(ASCII, x)) for x in d]
    return out + rope.text("\n")


def dump(st, d, group):
    out = []
    full = len(d) // 16
    shown = 0
    dots = False
    for k in range(full):
        if group and k and k < full - 1:
            same = all_equal(st, d[16 * shown:16 * shown + 16], d[16 * k:16 * k + 16])
            if same is None:
                return ("open", "equal lines or not")
            if same:
                if not dots:
                    out += rope.text("...\n")
                dots = True
                continue
        out += line(d[16 * k:16 * k + 16], 16 * k)
        shown, dots = k, False
    if len(d) % 16:
        out += line(d[16 * full:], 16 * full)
    return out + rope.text("\n")


def all_equal(st, x, y):
    res = True
    for p, q in zip(x, y):
        t = st.facts.truth(T.eq(T.sub(p, q)))
        if t is False:
            return False
        if t is None:
            res = None
    if res is None:
        c = T.TRUE
        for p, q in zip(x, y):
            c = T.b_and(c, T.eq(T.sub(p, q)))
        return st.facts.truth(c)
    return res


def lines_of(pattern, tail, at):
    """16 bytes a letter: lines of different letters differ in the byte at `at` only"""
    out = []
    for k, c in enumerate(pattern + ("t" if tail else "")):
        x = [T.sym(f"line_{i}" if k < len(pattern) else f"tail_{i}", 0, 255) for i in range(16)]
        x[at] = T.const(ord(c))
        out += x if k < len(pattern) else x[:tail]
    return out


def texts_of(n, kind):
    """n texts: all equal, all but one equal, or all different"""
    same = [T.sym("letter", 97, 101), T.sym("second", 48, 57)]
    if kind == "all":
        return [[T.const(97 + i // 26), T.const(97 + i % 26), T.sym(f"digit{i}", 48, 57)] for i in range(n)]
    return [[T.sym("other", 102, 106), same[1]] if i == kind else list(same) for i in range(n)]


def array(a, st, segs, parts):
    n = len(parts)
    if n and all(p == parts[0] for p in parts):
        return rope_obligations(segs, rope.text("[") + parts[0] + rope.text(f"; {n}]"))
    want = rope.text("[" if n <= 16 else "[\n        ")
    for i, p in enumerate(parts):
        if i:
            want += rope.text(", " if n <= 16 or i % 16 else ",\n        ")
        want += p
    return rope_obligations(segs, want + rope.text("]" if n <= 16 else "\n    ]"))


# ------------------------------------------------------------------ files

CALLS = ("S", "os calls")


def os_models():
    from kv import models as M

    def result(kind, value):
        def m(ctx, st, *a):
            out = []
            old = st.mem.get(CALLS)
            old = old.f if old else ()
            won = T.eq(T.addk(T.sym(f"os_ok_{len(old)}", 0, 1), -1))
            for good in (True, False):
                f = st.facts.assume(won if good else T.b_not(won))
                if f is None:
                    continue
                s = st.with_facts(f)
                x = value(ctx, a)
                s.mem[CALLS] = Agg(0, old + ((kind, good, a, x),))
                out.append((M.ok(x) if good else M.err(ctx.e.fresh(ctx.rty.ga[1], "os_error")), s))
            return out
        return m

    def error_kind(ctx, st, a):
        ds = [x[1] for x in ctx.rty.vs]
        return [(DEnum(T.sym("os_error_kind", min(ds), max(ds))), st)]

    def error_code(ctx, st, a):
        return [(M.some(T.sym("os_error_code", 1, 133)), st)]

    def meta_len(ctx, st, a):
        return [(T.sym("os_len", 0, U64), st)]
    return {"<std::fs::File as alloc::io::read::Read>::read": result("read", lambda ctx, a: T.sym("os_count", 0, U64)),
            "<std::fs::File as std::io::Read>::read": result("read", lambda ctx, a: T.sym("os_count", 0, U64)),
            "<std::fs::File as core::io::seek::Seek>::seek": result("seek", lambda ctx, a: T.sym("os_pos", 0, U64)),
            "<std::fs::File as std::io::Seek>::seek": result("seek", lambda ctx, a: T.sym("os_pos", 0, U64)),
            **{f"{c}::Error::{n}": m for c in ("std::io", "std::io::error", "core::io::error") for n, m in (("kind", error_kind), ("raw_os_error", error_code))},
            "std::fs::File::metadata": result("metadata", lambda ctx, a: ctx.e.fresh(ctx.rty.ga[0], "os_metadata")),
            "std::fs::Metadata::len": meta_len}


def k13(ctx):
    ctx.explanation = "The file implementation of the data stream is interpreted over operating system calls of unknown outcome: each call's result, success or error, is followed to what the stream reports."
    ctx.rule_text = ("size: the length of the file's metadata; read and seek: one operating system call with the caller's buffer or position, its count or position reported; an "
                     "operating system error is an error of the stream, never a success")
    prog = ctx.program(CRATES)
    for name, kind in (("file_size", "metadata"), ("file_read", "read"), ("file_seek_start", "seek"), ("file_seek_current", "seek"), ("file_seek_end", "seek")):
        fn = prog.find(f"kvfixture::{name}")[0]

        def mk(env, fn=fn):
            return Ana(prog, fn, env=env, extra_models=os_models(), attrs={"fork": True})

        def observe(a, ret, st, name=name, kind=kind):
            calls = st.mem.get(CALLS)
            o = st.facts.truth(a.e.as_bool(ret.f[0]))
            if o is None or calls is None or len(calls.f) != 1 or calls.f[0][0] != kind:
                return [("open", "operating system calls not those expected")]
            _, good, args, x = calls.f[0]
            if not good:
                return [("never", "an operating system error is reported as success")] if o else [("true", "", T.TRUE)]
            if not o:
                return [("never", "a success of the operating system is reported as an error")]
            res = [("eq", "another value reported", a.e.as_int(ret.f[1]), T.sym("os_len", 0, U64) if kind == "metadata" else x)]
            if kind == "seek":
                p = args[1]
                want = {"start": 0, "end": 1, "current": 2}[name.rsplit("_", 1)[1]]
                if not isinstance(p, Agg) or not isinstance(p.v, int):
                    return [("open", "kind of seek not known")]
                res.append(("eq", "another kind of seek", T.const(p.v), T.const(want)))
                if p.f:
                    res.append(("eq", "another offset passed on", a.e.as_int(p.f[0]), a.e.as_int(a.args[1])))
            if kind == "read":
                w, b = args[1], a.args[1]
                if not (isinstance(w, Ref) and w.m and w.m[0] == "s" and w.o == b.o):
                    return [("open", "buffer not followed")]
                res += [("eq", "another part of the buffer", w.m[1], b.m[1]), ("eq", "another amount asked for", w.m[2], b.m[2])]
            return res
        ctx.count("file operations")
        lib.judge(ctx, "file", name, mk, observe, abort="file-abort")
    ctx.floor("file operations", 1)


# ------------------------------------------------------------------ macros and mediator

def k14(ctx):
    from . import layout as L
    ctx.explanation = ("Client functions that use the stream macros on a shared stream of unknown behaviour, and the mediator of a thread with unknown settings, are interpreted; results, "
                       "error traces and what is printed are compared.")
    ctx.rule_text = ("macros: success exactly if the stream succeeds, with its value; else the stream's error with its frames first and a frame added; mediator: prints exactly the text "
                     "or hexdump given if its debug output is on, and nothing otherwise; the last one made current in a thread is the current one, and before any was a thread prints nothing")
    prog = ctx.program(CRATES)
    tasks = [("macro", n, k) for n in ("macro_size", "macro_read", "macro_exact") for k in ((0,) if n == "macro_size" else (0, 1, 4))]
    tasks += [("medi", n, None) for n in ("medi_text", "medi_data", "medi_made", "medi_twice", "medi_kept", "medi_first")]

    def work(r, t):
        kind, name, n = t
        fn = prog.find(f"kvfixture::{name}")[0]

        def mk(env):
            def setup(a):
                if kind == "medi":
                    return None
                st = State()
                names = [f[0] for f in fn.locals[1].vs[0][2]]
                zero = {"reads": T.ZERO, "seeks": T.ZERO, "asked": T.ZERO}
                a.given = {}
                for f in names:
                    a.given[f] = zero[f] if f in zero else T.b_not(T.eq(T.sym("p_" + f, 0, 1))) if f.endswith("_ok") else T.sym("p_" + f, 0, U64)
                a.args[0] = Agg(0, tuple(a.given[f] for f in names))
                if n is None or name == "macro_size":
                    return st
                a.args[1] = slice_arg(a.e, "buf", T.const(n), E.U8)
                return assume(st, T.le(T.addk(a.given["count"], -n)))
            # other parts of the program may hold the mediator
            held = lambda ctx, st, x: [(T.sym("holders", 1, 1 << 32), st)]
            models = L.printing({f"alloc::{m}::<keramics_core::mediator::Mediator>::strong_count": held for m in ("rcs::arc::Arc", "sync::Arc")})
            return Ana(prog, fn, setup=setup, env=env, extra_models=models, unroll_max=10000,
                       attrs={"fork": True, "tls": "own" if name == "medi_first" else L.mediator,
                              "no_models": L.MEDIATOR | {"keramics_core::errors::ErrorTrace::new", "keramics_core::errors::ErrorTrace::add_frame"}})

        def observe(a, ret, st):
            if kind == "macro":
                good, value, text = ret.f
                g = a.given
                want = g["seek_ok"]
                v = g["seek_to"]
                if name != "macro_size":
                    want = T.b_and(want, g["read_ok"])
                if name == "macro_read":
                    v = g["count"]
                if name == "macro_exact":
                    want = T.b_and(want, T.eq(T.addk(g["count"], -n)))
                res = [("eq", "success of the macro", a.e.as_bool(good), want)]
                o = st.facts.truth(a.e.as_bool(good))
                if o is None:
                    return [("open", "success not decided")]
                if o:
                    return res + [("eq", "value of the macro", a.e.as_int(value), v)]
                segs = rope.of_val(a.e, st, text)
                if not all(x[0] == "b" and not x[1].t for x in segs):
                    return res + [("open", "error trace not known: " + rope.show(segs)[:80])]
                lines = rope.show(segs).split("\n")
                first = {"macro_size": ("size",), "macro_read": ("seek", "read"), "macro_exact": ("seek", "read")}[name]
                short = name == "macro_exact" and st.facts.truth(T.b_and(g["seek_ok"], g["read_ok"])) is True
                if len(lines) < 2 or lines[0] not in first and not short:
                    res.append(("never", "error trace lacks the stream's or the macro's frame: " + " / ".join(lines)[:80]))
                elif not short and lines[0] == "read" and st.facts.truth(g["seek_ok"]) is not True:
                    res.append(("never", "error of another operation"))
                return res
            pr = st.mem.get(L.PRINTED)
            pr = pr.f if pr else ()
            on = T.eq(T.addk(T.sym("debug", 0, 1), -1))
            if name == "medi_made":
                on = a.e.as_bool(a.args[0])
            if name == "medi_first":
                on = T.FALSE
            if name == "medi_twice":
                on = a.e.as_bool(a.args[1])
            o = st.facts.truth(on)
            res = [("eq", "debug output of the current mediator", a.e.as_bool(ret), on)] if name in ("medi_twice", "medi_first") else []
            if o is None and not pr:
                # nothing is printed whatever the setting
                return res + [("never", "the debug setting makes no difference")]
            if o is None:
                return res + [("true", "printed although debug output may be off", on)]
            if not o:
                return res + [("never", "something is printed")] if pr else res or [("true", "", T.TRUE)]
            if any(x is None for x in pr):
                return res + [("open", "printed text not traced")]
            if name in ("medi_text", "medi_made", "medi_kept"):
                want = rope.of_val(a.e, st, a.args[-1])
                got = [y for x in pr for y in x]
                if got == want:
                    return res + [("true", "", T.TRUE)]
                return res + [("never", "another text printed: " + rope.show(got)[:60])]
            d, g = a.args[-2:]
            got = [y for x in pr for y in x]
            if len(got) != 1 or got[0][0] != "o":
                return res + [("never", "not one hexdump: " + rope.show(got)[:60])]
            seq, group = got[0][2]
            whole = a.e.slice_seq(st, d)
            return res + [("eq", "grouping", group, a.e.as_bool(g)),
                          ("true", "", T.TRUE) if repr(seq) == repr(whole) else ("never", "another part of the data shown")]
        r.count("uses")
        lib.judge(r, kind, f"{name} {'' if n is None else n}".strip(), mk, observe, abort=kind + "-abort")
    ctx.parallel(work, tasks)
    ctx.floor("uses", 1)
