"""keramics-sigscan: signature scanning on unknown data."""
import os
import re

from kv import models as M, terms as T
from kv.engine import Agg, Ref, VecV, Arr, State
from . import lib
from .lib import Ana, E
from .types import slice_arg

START, END, FREE = "BoundToStart", "BoundToEnd", "Unbound"


def sets():
    """name -> [(identifier, where, offset, pattern)]"""
    s = {}
    s["h_one"] = [("a", START, 0, b"ab")]
    s["h_later"] = [("a", START, 2, b"\x81\x82")]
    # the same pattern at several offsets
    s["h_same"] = [("a", START, 1, b"EF"), ("b", START, 3, b"EF"), ("c", START, 6, b"EF")]
    s["h_prefix"] = [("a", START, 0, b"ab"), ("b", START, 0, b"abc"), ("c", START, 1, b"x")]
    s["implied"] = [("a", START, 0, b"ab"), ("b", START, 0, b"abc"), ("c", START, 1, b"b")]
    # nothing in common, no common byte values
    s["h_apart"] = [("a", START, 1, b"\x81"), ("b", START, 4, b"\x92\x93")]
    s["h_versions"] = [("a", START, 0, b"QF\x00\x01"), ("b", START, 0, b"QF\x00\x02"), ("c", START, 0, b"QF\x00\x03"), ("d", START, 2, b"\x00\x01\x53"), ("e", START, 1, b"\xef")]
    # every byte value is a key of its own
    s["h_ff"] = [("a", START, 0, b"\xff"), ("b", START, 2, b"\x92"), ("c", START, 0, b"\x00")]
    s["f_one"] = [("a", END, 4, b"ab")]
    s["f_last"] = [("a", END, 2, b"\x81\x82")]
    s["f_two"] = [("a", END, 5, b"ko"), ("b", END, 3, b"con")]
    s["f_same"] = [("a", END, 6, b"EF"), ("b", END, 3, b"EF")]
    s["u_byte"] = [("a", FREE, 0, b"a")]
    s["u_one"] = [("a", FREE, 0, b"aab")]
    s["u_two"] = [("a", FREE, 0, b"abc"), ("b", FREE, 0, b"bd")]
    s["u_node"] = [("a", FREE, 0, b"abx"), ("b", FREE, 0, b"aby")]
    s["mixed"] = [("a", START, 1, b"ab"), ("b", END, 3, b"yz"), ("c", FREE, 0, b"bc")]
    s["h_chain"] = [("a", START, 0, b"Rar!\x1a"), ("b", START, 0, b"Rar!\x00"), ("c", START, 1, b"ar!\x1b"), ("d", START, 2, b"xy")]
    s["f_range"] = [("a", END, 6, b"kol"), ("b", END, 6, b"con"), ("c", END, 2, b"yz"), ("d", END, 4, b"\x92\x93\x94\x95")]
    s["u_inner"] = [("a", FREE, 0, b"abab"), ("b", FREE, 0, b"cab")]
    # two bytes tell them apart: a node below the root that may fail
    s["u_tree"] = [("a", FREE, 0, b"axp"), ("b", FREE, 0, b"ayp"), ("c", FREE, 0, b"axq")]
    s["none"] = []
    d = declared()
    for n, ks in (("volumes", ("apm", "gpt", "mbr")), ("images", ("ewf", "qcow", "sparse", "udif", "vhd")), ("systems", ("ext", "fat", "ntfs"))):
        s[n] = [x for x in d if x[0].startswith(ks)]
    s["twice"] = [("a", START, 0, b"ab"), ("b", START, 0, b"ab")]
    s["empty"] = [("a", START, 0, b"")]
    s["empty2"] = [("a", FREE, 0, b"ab"), ("b", FREE, 0, b"")]
    return s


def declared():
    """the signatures that the format scanner declares"""
    text = open(os.path.join(os.environ.get("KV_REPO", "/repo"), "keramics-formats/src/scanner.rs")).read().split("#[cfg(test)]")[0]
    out = []
    for i, w, o, p in re.findall(r'Signature::new\(\s*"(\w+)",\s*PatternType::(\w+),\s*(\d+),\s*&\[([^\]]*)\],?\s*\)', text):
        out.append((i, w, int(o), bytes(int(x, 0) for x in re.findall(r"0x[0-9a-fA-F]+|\d+", p))))
    return out


def fixture(tier, seed):
    src = """#![allow(dead_code, unused_imports, unused_mut)]
use std::collections::HashMap;
use std::sync::Arc;
use keramics_sigscan::*;
"""
    for n, sigs in sets().items():
        src += f"fn {n}_scanner() -> Option<Scanner> {{\n    let mut s = Scanner::new();\n"
        for i, w, o, p in sigs:
            src += f"    s.add_signature(Signature::new(\"{i}\", PatternType::{w}, {o}, &{list(p)}));\n"
        src += "    if s.build().is_err() { return None; }\n    Some(s)\n}\n"
        src += (f"pub fn {n}_build() -> bool {{ {n}_scanner().is_some() }}\n"
                f"pub fn {n}_scan(data: &[u8], at: u64, size: u64) -> Option<HashMap<u64, Arc<Signature>>> {{\n    let s = {n}_scanner()?;\n"
                f"    let mut c = ScanContext::new(&s, size);\n    c.data_offset = at;\n    c.scan_buffer(data);\n    Some(c.results)\n}}\n"
                f"pub fn {n}_scan2(one: &[u8], two: &[u8], size: u64) -> Option<HashMap<u64, Arc<Signature>>> {{\n    let s = {n}_scanner()?;\n"
                f"    let mut c = ScanContext::new(&s, size);\n    c.scan_buffer(one);\n    c.scan_buffer(two);\n    Some(c.results)\n}}\n")
    return "kvfixture", ["keramics-sigscan"], src


CRATES = ["kvfixture", "keramics_sigscan", "keramics_core"]




def matches(sig, data, at, size):
    """positions in the buffer at which a signature may occur, with the condition that it does"""
    ident, where, off, pat = sig
    if where == START:
        ps = [off - at]
    elif where == END:
        ps = [size - off - at]
    else:
        ps = range(len(data) - len(pat) + 1)
    out = []
    for p in ps:
        if p < 0 or p + len(pat) > len(data) or at + p + len(pat) > size:
            continue
        c = T.TRUE
        for j, b in enumerate(pat):
            c = T.b_and(c, T.eq(T.addk(data[p + j], -b)))
        out.append((p, c))
    return out


def text(a, st, v):
    seq = v.s if isinstance(v, VecV) else v
    return bytes(a.e.as_int(x).k for x in seq.e).decode()


def judged(a, st, sigs, buffers, size, entries):
    """obligations for the results of scanning buffers, each of its data and offset"""
    by = {s[0]: s for s in sigs}
    got = []
    for x in entries:
        k = a.e.as_int(x.f[0])
        sg = a.e.load(st, x.f[1].o, x.f[1].p)
        if k.t:
            return [("open", "offset of a result not known")]
        got.append((k.k, by[text(a, st, sg.f[0])]))
    found = [(s, at, p, c) for s in sigs for data, at in buffers for p, c in matches(s, data, at, size)]
    out = [("true", "", T.TRUE)]
    for k, s in got:
        cs = T.FALSE
        for s2, at, p, c in found:
            if s2 is s and at + p == k:
                cs = T.b_or(cs, c)
        out.append(("true", f"a signature ({WORDS[s[1]]}) is reported where it does not occur", cs))
    for data, at in buffers:
        for where in (START, END):
            if any(s[1] == where and at <= k < at + len(data) for k, s in got):
                continue
            for s, at2, p, c in found:
                if s[1] == where and at2 == at and all(k != at + p for k, _ in got):
                    out.append(("true", f"a signature ({WORDS[where]}) is not found", T.b_not(c)))
    for s, at, p, c in found:
        if s[1] == FREE and not any(q[1] == FREE and k <= at + p < k + len(q[3]) for k, q in got):
            out.append(("true", f"a signature ({WORDS[FREE]}) is not found", T.b_not(c)))
    return out


WORDS = {START: "bound to the start", END: "bound to the end", FREE: "unbound"}
DECLARED = ("volumes", "images", "systems")
FAILS = ("implied", "twice", "empty", "empty2")


def quiet(ctx, st):
    m = M.seq_to_ref(ctx, st, Agg(0, (T.FALSE,)))
    return Agg("rwlock", (m,))


def s10(ctx):
    ctx.explanation = ("Abstract interpretation of keramics-sigscan from its optimisation-free MIR: for signature sets that exercise every shape of scan tree "
                       "(one, shared prefixes, equal patterns at several offsets, no significant offset, bound to start, bound to end, unbound, mixed, none, "
                       "and the sets that the format scanner declares), the scanner is built and a buffer of which every byte is an unknown is scanned, at several "
                       "offsets of data of several sizes and in one or two parts; every path ends in a set of results that is compared with what the bytes on that path allow. "
                       "Hash maps yield their entries in insertion order and in reverse.")
    ctx.rule_text = ("For all byte values of the scanned buffer: (1) a reported signature occurs completely at the reported offset, inside the buffer and inside the data, and where "
                     "it is bound at the offset it is bound to; (2) when a signature bound to the start (or end) lies completely in a buffer, one is reported for that buffer; (3) every "
                     "occurrence of an unbound signature is reported or overlaps a reported one; (4) building and scanning neither abort nor recurse without end: sets that cannot "
                     "be told apart, or an empty pattern, give a build error.")
    prog = ctx.program(CRATES)
    all_sets = sets()
    tasks = []
    for name, sigs in all_sets.items():
        for n, at, size in sizes(name, sigs, ctx.tier):
            tasks.append((name, "in", ((n, at),), size))
        if name in DECLARED or name in FAILS:
            continue
        big = sizes(name, sigs, ctx.tier)[-1]
        tasks.append((name, "rev", ((big[0], big[1]),), big[2]))
        for one, two, size in parts(name, sigs):
            tasks.append((name, "in", ((one, 0), (two, one)), size))

    def work(r, t):
        name, order, buffers, size = t
        sigs = all_sets[name]
        two = len(buffers) == 2
        fn = prog.find(f"kvfixture::{name}_scan{'2' if two else ''}")[0]

        def mk(env):
            def setup(a):
                a.data = []
                for i, (n, at) in enumerate(buffers):
                    v = a.args[i] = slice_arg(a.e, f"data{i}", T.const(n), E.U8)
                    a.data.append(([a.e.as_int(M.win_get(a.e, State(), v, T.const(j))) for j in range(n)], at))
                if not two:
                    a.args[1] = T.const(buffers[0][1])
                a.args[2] = T.const(size)
            return Ana(prog, fn, setup=setup, env=env, unroll_max=10000, unroll_nonconst=10000, join_cap=4000, max_steps=20_000_000,
                       attrs={"fork": True, "tls": quiet, "map_order": order, "recursion": 64 if name in DECLARED else 24, "loop_states": 4000})

        def observe(a, ret, st):
            if not isinstance(ret, Agg) or not isinstance(ret.v, int):
                return [("open", "results not known")]
            if ret.v == 0:
                return [] if name in FAILS else [("never", "the scanner cannot be built")]
            if name == "empty" or name == "empty2":
                return [("never", "a scanner with an empty pattern is built")]
            return judged(a, st, sigs, a.data, size, ret.f[0].f)
        r.count("scans")
        where = " then ".join(f"{n} bytes at {at}" for n, at in buffers)
        lib.judge(r, "scan", f"{name} buffer of {where} of {size} ({order})", mk, observe, abort="scan-abort")
    ctx.parallel(work, tasks)


def parts(name, sigs):
    """(size of the first buffer, size of the second, data size)"""
    m = max([o + len(p) for _, w, o, p in sigs if w == START] + [o for _, w, o, p in sigs if w == END] + [3])
    if name == "mixed":
        return [(1, 3, 4), (2, 2, 4)]
    if any(s[1] == FREE for s in sigs):
        return [(1, 3, 4), (3, 2, 5)]
    return [(1, m, m + 1), (m - 1, 2, m + 1), (2, m, m + 4)]


def sizes(name, sigs, tier):
    """(buffer size, data offset, data size) to scan"""
    ends = [o + len(p) for _, w, o, p in sigs if w == START]
    backs = [o for _, w, o, p in sigs if w == END]
    out = set()
    if name in DECLARED:
        m = max(ends + [0])
        return [(m, 0, m), (512, (1 << 20) - 512, 1 << 20), (600, 0, 1 << 20)]
    if any(s[1] == FREE for s in sigs):
        top = {"mixed": 4, "u_inner": 5,  "u_two": 5, "u_byte": 4, "u_tree": 5}.get(name, 6)
        for n in (0, 1, 2, top - 1, top):
            out |= {(n, 0, n)}
        out |= {(3, 3, 9), (4, 0, 3)}
    if ends:
        m = max(ends)
        k = 4 if name == "mixed" else 99
        for n in {0, 1, m - 1, m, m + 1}:
            out |= {(n, 0, n), (n, 0, n + 3)}
        out |= {(m, 0, m - 1), (m, 1, m + 1), (m - 1, 1, m), (min(m + 2, k), 1, m), (2, 0, m)}
    if backs:
        m = max(backs)
        for n in {0, 1, m - 1, m, m + 1}:
            out |= {(n, 0, n), (n, 3, n + 3), (n, 3, n + 4)}
        k = 4 if name == "mixed" else 99
        out |= {(m, 0, m - 1), (m - 1, 1, m), (min(m + 2, k), 1, m + 1), (2, m + 3, m + 5), (min(m + 2, k), 0, 2 * m)}
    if not sigs:
        out = {(0, 0, 0), (1, 0, 1), (3, 0, 3), (3, 0, 2), (2, 4, 4), (2, 5, 3)}
    return sorted(x for x in out if x[0] >= 0)
