"""keramics-datetime: FAT, FILETIME and POSIX timestamps."""
import datetime as dt

from kv import engine as E, terms as T, rope
from kv.engine import State
from . import lib
from .lib import Ana, assume
from .types import slice_arg, elem, compose, rope_obligations


def fixture(tier, seed):
    src = """#![allow(dead_code)]
use keramics_datetime::*;
pub fn fat_date_bytes(d: &[u8]) -> u16 { FatDate::from_bytes(d).date }
pub fn fat_time_bytes(d: &[u8]) -> (u16, u16) { let x = FatTimeDate::from_bytes(d); (x.date, x.time) }
pub fn fat_10ms_bytes(d: &[u8]) -> (u16, u16, u8) { let x = FatTimeDate10Ms::from_bytes(d); (x.date, x.time, x.fraction) }
pub fn filetime_bytes(d: &[u8]) -> u64 { Filetime::from_bytes(d).timestamp }
pub fn posix_be_bytes(d: &[u8]) -> i32 { PosixTime32::from_be_bytes(d).timestamp }
pub fn posix_le_bytes(d: &[u8]) -> i32 { PosixTime32::from_le_bytes(d).timestamp }
pub fn fat_date_text(date: u16) -> String { FatDate::new(date).to_iso8601_string() }
pub fn fat_time_text(date: u16, time: u16) -> String { FatTimeDate::new(date, time).to_iso8601_string() }
pub fn fat_10ms_text(date: u16, time: u16, fraction: u8) -> String { FatTimeDate10Ms::new(date, time, fraction).to_iso8601_string() }
pub fn fat_date_show(date: u16) -> String { format!("{}", FatDate::new(date)) }
pub fn fat_time_show(date: u16, time: u16) -> String { format!("{}", FatTimeDate::new(date, time)) }
pub fn fat_10ms_show(date: u16, time: u16, fraction: u8) -> String { format!("{}", FatTimeDate10Ms::new(date, time, fraction)) }
pub fn posix32_text(t: i32) -> String { PosixTime32::new(t).to_iso8601_string() }
pub fn posix64_text(t: i64, n: u32) -> String { PosixTime64Ns::new(t, n).to_iso8601_string() }
pub fn filetime_text(t: u64) -> String { Filetime::new(t).to_iso8601_string() }
pub fn posix32_show(t: i32) -> String { format!("{}", PosixTime32::new(t)) }
pub fn posix64_show(t: i64, n: u32) -> String { format!("{}", PosixTime64Ns::new(t, n)) }
pub fn filetime_show(t: u64) -> String { format!("{}", Filetime::new(t)) }
"""
    return "kvfixture", ["keramics-datetime"], src


BYTES = {
    "fat_date_bytes": (2, [(0, 2, "le", 0)]),
    "fat_time_bytes": (4, [(2, 2, "le", 0), (0, 2, "le", 0)]),
    "fat_10ms_bytes": (5, [(3, 2, "le", 0), (1, 2, "le", 0), (0, 1, "le", 0)]),
    "filetime_bytes": (8, [(0, 8, "le", 0)]),
    "posix_be_bytes": (4, [(0, 4, "be", 1)]),
    "posix_le_bytes": (4, [(0, 4, "le", 1)]),
}


def num(st, x, width, kind="display", flags=None):
    return rope.number(st, kind, (rope.ZERO_PAD | rope.PLAIN | rope.WIDTH if flags is None else flags, width, 0), x)


def plain(st, x):
    return rope.number(st, "display", (rope.PLAIN, 0, 0), x)


def fields(date, time=None):
    b = lambda x, lo, n: T.bits(x, lo, n, (0, 0xffff))
    out = [T.addk(b(date, 9, 7), 1980), b(date, 5, 4), b(date, 0, 5)]
    if time is not None:
        out += [b(time, 11, 5), b(time, 5, 6), T.scale(b(time, 0, 5), 2)]
    return out


def stamp(st, v):
    y, mo, d = v[:3]
    out = num(st, y, 4) + rope.text("-") + num(st, mo, 2) + rope.text("-") + num(st, d, 2)
    if len(v) > 3:
        h, mi, s = v[3:6]
        out += rope.text("T") + num(st, h, 2) + rope.text(":") + num(st, mi, 2) + rope.text(":") + num(st, s, 2)
    return out


def d10(ctx):
    ctx.explanation = ("The FAT timestamp constructors and text forms are interpreted for unknown bytes and for all values of the stored fields; each character of the text is "
                       "compared with the digits of the bit field it shows.")
    ctx.rule_text = ("bytes: each field is the little-endian value of its bytes; text: year 1980 + bits 9-15 of the date, month bits 5-8, day bits 0-4, hours bits 11-15 of the "
                     "time, minutes bits 5-10, seconds twice bits 0-4 (plus the 10 ms fraction); display: text and raw values in hexadecimal; no abort for any value")
    prog = ctx.program(["kvfixture", "keramics_datetime", "keramics_types"])
    tasks = [("bytes", n, k) for n, (k, _) in BYTES.items()] + [("bytes", n, None) for n in BYTES]
    tasks += [(k, f"fat_{t}_{k}", 0) for t in ("date", "time", "10ms") for k in ("text", "show")]

    def work(r, t):
        kind, name, n = t
        fn = prog.find(f"kvfixture::{name}")[0]
        if kind == "bytes":
            need, fs = BYTES[name]

            def mk(env):
                def setup(a):
                    k = T.const(n) if n is not None else T.sym("datalen", need, 1 << 40)
                    a.args[0] = slice_arg(a.e, "data", k, fn.locals[1].t.t)
                return Ana(prog, fn, setup=setup, env=env)

            def observe(a, ret, st):
                bs = [elem(a, st, a.args[0], i) for i in range(need)]
                got = ret.f if isinstance(ret, E.Agg) else [ret]
                res = []
                for g, (o, k, order, sg) in zip(got, fs):
                    w = compose(bs[o:o + k], order)
                    res.append(("eq", f"field at {o} differs from its bytes", a.e.as_int(g), T.wrap_s(w, 8 * k) if sg else w))
                return res
        else:
            which = name.split("_")[1]

            def mk(env):
                return Ana(prog, fn, env=env)

            def observe(a, ret, st):
                x = [a.e.as_int(v) for v in a.args]
                segs = rope.of_val(a.e, st, ret)
                if which == "10ms":
                    v = fields(x[0], x[1])
                    # seconds and hundredths: the fraction counts 10 ms
                    h = T.add(T.scale(v[5], 100), x[2])
                    v[5] = T.fdiv(h, 100)
                    want = stamp(st, v) + rope.text(".") + num(st, T.fmod(h, 100), 2)
                else:
                    want = stamp(st, fields(*x))
                if kind == "show":
                    hx = []
                    for i, y in enumerate(x):
                        hx += rope.text(":" if i else "") + rope.text("0x") + [("b", T.table(rope.HEXL, T.bits(y, 4 * j, 4, st.facts.rng(y)))) for j in reversed(range(2 if i == 2 else 4))]
                    want = want + rope.text(" (") + hx + rope.text(")")
                return rope_obligations(segs, want)
        r.count("functions of FAT timestamps" if kind != "bytes" else "byte readers")
        lib.judge(r, f"date-{kind}", name + (" any length" if n is None else ""), mk, observe, abort="date-abort")
    ctx.parallel(work, tasks)
    ctx.floor("byte readers", 1)
    ctx.floor("functions of FAT timestamps", 1)


# ------------------------------------------------------------------ calendar

CYCLE = 146097


def year_days(y):
    return 366 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 365


def month_days(y, m):
    return 29 if m == 2 and year_days(y) == 366 else (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


def day_number(y, m, d):
    """days since 1970-01-01 of a proleptic Gregorian date"""
    y2 = y - (m <= 2)
    era = y2 // 400
    yoe = y2 - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * CYCLE + doe - 719468


KINDS = {
    # name: (unit per second, first, last, days of the epoch)
    "posix32": (1, -(1 << 31), (1 << 31) - 1, 0),
    "posix64": (1, -(1 << 63), (1 << 63) - 1, 0),
    "filetime": (10 ** 7, 0, (1 << 64) - 1, day_number(1601, 1, 1)),
}


def d11(ctx):
    ctx.explanation = ("The POSIX and FILETIME text functions are interpreted year by year of the 400-year cycle: a timestamp is an unknown cycle, a day of the year and a second of the "
                       "day, each unknown; on every path the year, month, day and time shown are compared with the Gregorian calendar. Loops over days, years and centuries "
                       "are followed exactly.")
    ctx.rule_text = ("text == YYYY-MM-DDThh:mm:ss[.fraction] of the proleptic Gregorian date of epoch + timestamp; the fraction is the remainder of the unit with all its digits; "
                     "display adds the raw value; no abort for any timestamp")
    prog = ctx.program(["kvfixture", "keramics_datetime", "keramics_types"])
    tasks = []
    years = list(range(1900, 2040))
    tasks += [("posix32", years[i:i + 14]) for i in range(0, len(years), 14)]
    for k, y0 in (("posix64", 1970), ("filetime", 1601)):
        step = 10
        tasks += [(k, list(range(y, y + step))) for y in range(y0, y0 + 400, step)]
    tasks += [(f"{k}_show", None) for k in KINDS]
    E_ = day_number

    def work(r, t):
        kind, ys = t
        if kind.endswith("_show"):
            return show(r, prog, kind)
        unit, lo, hi, e0 = KINDS[kind]
        fn = prog.find(f"kvfixture::{kind}_text")[0]
        for y in ys:
            start = E_(y, 1, 1) - e0
            n = year_days(y)
            for part in cells(kind, start, n, unit, lo, hi):
                year(r, prog, fn, kind, y, start, part, unit, e0)
    ctx.parallel(work, tasks)
    ctx.floor("years", 1)


def cells(kind, start, n, unit, lo, hi):
    """(cycle range, first day, last day, seconds of the day range)"""
    day = 86400 * unit
    if kind != "posix32":
        cyc = CYCLE * day
        cmin = -((start * day - lo) // cyc)
        cmax = (hi - (start + n) * day + 1) // cyc
        return [((cmin, cmax), 0, n - 1, 86399)]
    first = max(0, -(-(lo - start * day) // day))
    last = min(n - 1, (hi + 1 - start * day) // day - 1)
    return [((0, 0), first, last, 86399)] if first <= last else []


def year(r, prog, fn, kind, y, start, part, unit, e0):
    (cmin, cmax), d0, d1, smax = part
    c = T.sym(f"cycle_{kind}{y}", cmin, cmax) if cmin != cmax else T.ZERO
    d = T.sym(f"day_{d0}_{d1}", d0, d1)
    s = T.sym("second", 0, smax)
    parts = []

    def mk(env):
        def setup(a):
            secs = T.add(T.scale(T.addk(T.add(T.scale(c, CYCLE), d), start), 86400), s)
            if unit > 1:
                a.frac = T.sym("fraction", 0, unit - 1)
                a.args[0] = T.add(T.scale(secs, unit), a.frac)
            else:
                a.frac = a.args[1] if len(a.args) > 1 else None
                a.args[0] = secs
        return Ana(prog, fn, setup=setup, env=env, unroll_max=100000, unroll_nonconst=100000, max_steps=20_000_000, attrs={"fork": True})

    def observe(a, ret, st):
        segs = rope.of_val(a.e, st, ret)
        if d.t:
            lo, hi = st.facts.rng(d)
        else:
            lo = hi = d.k
        m = 1
        n = 0
        while n + month_days(y, m) <= lo:
            n += month_days(y, m)
            m += 1
        yy = T.addk(T.scale(c, 400), y)
        if hi < n + month_days(y, m):
            mm, dd = T.const(m), T.addk(d, 1 - n)
        else:
            mt, dtab = [], []
            for i in range(1, 13):
                mt += [i] * month_days(y, i)
                dtab += range(1, month_days(y, i) + 1)
            mm, dd = T.table(tuple(mt), d), T.table(tuple(dtab), d)
        v = [yy, mm, dd, T.fdiv(s, 3600), T.fmod(T.fdiv(s, 60), 60), T.fmod(s, 60)]
        want = stamp(st, v)
        if a.frac is not None:
            want += rope.text(".") + num(st, a.frac, 7 if unit > 1 else 9)
        return rope_obligations(segs, want)
    r.count("years")
    lib.judge(r, "calendar", f"{kind} year {y}" + (" + 400n" if cmin != cmax else ""), mk, observe, abort="calendar-abort")


def show(r, prog, kind):
    """the display form: text, then the raw value"""
    k = kind[:-5]
    fn = prog.find(f"kvfixture::{kind}")[0]
    day = T.sym("daynumber", 0, 27) if k != "filetime" else T.sym("daynumber", 0, 27)
    s = T.sym("second", 0, 86399)

    def mk(env):
        def setup(a):
            a.args[0] = T.add(T.scale(day, 86400), s)
            if k == "filetime":
                a.frac = T.sym("fraction", 0, 10 ** 7 - 1)
                a.args[0] = T.add(T.scale(a.args[0], 10 ** 7), a.frac)
        return Ana(prog, fn, setup=setup, env=env, unroll_max=100000, unroll_nonconst=100000)

    def observe(a, ret, st):
        segs = rope.of_val(a.e, st, ret)
        x = a.args[0]
        v = [T.const(1601 if k == "filetime" else 1970), T.const(1), T.addk(day, 1), T.fdiv(s, 3600), T.fmod(T.fdiv(s, 60), 60), T.fmod(s, 60)]
        want = stamp(st, v)
        if k == "filetime":
            want += rope.text(".") + num(st, a.frac, 7) + rope.text(" (")
            for i in (8, 0):
                y = T.bits(x, 4 * i, 32, st.facts.rng(x))
                want += rope.number(st, "lower_hex", (rope.ZERO_PAD | rope.ALT | rope.PLAIN, 10, 0), y) if False else \
                    rope.text("0x") + [("b", T.table(rope.HEXL, T.bits(x, 4 * (i + j), 4, st.facts.rng(x)))) for j in reversed(range(8))]
                want += rope.text(":") if i else []
        elif k == "posix64":
            want += rope.text(".") + num(st, a.args[1], 9) + rope.text(" (") + plain(st, x) + rope.text(".") + plain(st, a.args[1])
        else:
            want += rope.text(" (") + plain(st, x)
        want += rope.text(")")
        return rope_obligations(segs, want)
    r.count("display forms")
    lib.judge(r, "calendar-show", kind, mk, observe, abort="calendar-abort")
