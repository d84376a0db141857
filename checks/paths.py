"""keramics-formats: names of files and their extensions."""
from kv import models as M, rope, terms as T
from kv.engine import Agg, Arr, Ref, State, VecV
from . import formats, lib
from .lib import Ana

CRATES = ["kvfixture", "keramics_formats", "keramics_types", "keramics_core"]


def fixture(tier, seed):
    src = """#![allow(dead_code, unused_imports)]
use keramics_formats::PathComponent;
use keramics_formats::ext::ExtPath;
use keramics_formats::fat::{FatPath, FatString};
use keramics_formats::ntfs::NtfsPath;
use keramics_types::{ByteString, Ucs2String};
fn text(x: Option<PathComponent>) -> Option<Vec<u8>> { match x { Some(PathComponent::String(s)) => Some(s.into_bytes()), _ => None } }
pub fn part_extension(name: &str) -> Option<Vec<u8>> { text(PathComponent::String(name.to_string()).extension()) }
pub fn part_stem(name: &str) -> Option<Vec<u8>> { text(PathComponent::String(name.to_string()).file_stem()) }
fn bytes(name: &[u8]) -> ByteString { let mut s = ByteString::new(); s.elements = name.to_vec(); s }
fn words(name: &[u16]) -> Ucs2String { let mut s = Ucs2String::new(); s.elements = name.to_vec(); s }
pub fn ext_extension(name: &[u8]) -> Option<Vec<u8>> { ExtPath { components: vec![bytes(b""), bytes(name)] }.extension().map(|x| x.elements) }
pub fn ext_stem(name: &[u8]) -> Option<Vec<u8>> { ExtPath { components: vec![bytes(b""), bytes(name)] }.file_stem().map(|x| x.elements) }
pub fn ntfs_extension(name: &[u16]) -> Option<Vec<u16>> { NtfsPath { components: vec![words(&[]), words(name)] }.extension().map(|x| x.elements) }
pub fn ntfs_stem(name: &[u16]) -> Option<Vec<u16>> { NtfsPath { components: vec![words(&[]), words(name)] }.file_stem().map(|x| x.elements) }
fn short(x: Option<FatString>) -> Option<Vec<u8>> { match x { Some(FatString::ByteString(s)) => Some(s.elements), _ => None } }
fn long(x: Option<FatString>) -> Option<Vec<u16>> { match x { Some(FatString::Ucs2String(s)) => Some(s.elements), _ => None } }
fn fat(x: FatString) -> FatPath { FatPath { components: vec![FatString::new(), x] } }
pub fn fat_extension(name: &[u8]) -> Option<Vec<u8>> { short(fat(FatString::ByteString(bytes(name))).extension()) }
pub fn fat_stem(name: &[u8]) -> Option<Vec<u8>> { short(fat(FatString::ByteString(bytes(name))).file_stem()) }
pub fn fatlong_extension(name: &[u16]) -> Option<Vec<u16>> { long(fat(FatString::Ucs2String(words(name))).extension()) }
pub fn fatlong_stem(name: &[u16]) -> Option<Vec<u16>> { long(fat(FatString::Ucs2String(words(name))).file_stem()) }
"""
    for k, ty, sep in (("ext", "u8", "bytes"), ("ntfs", "u16", "words")):
        p, s = {"ext": ("ExtPath", "ByteString"), "ntfs": ("NtfsPath", "Ucs2String")}[k]
        src += (f"pub fn {k}_parent(a: &[{ty}], b: &[{ty}], n: usize) -> Vec<Vec<{ty}>> {{ let mut p = {p} {{ components: vec![] }}; if n > 0 {{ p.push({sep}(a)); }} if n > 1 {{ p.push({sep}(b)); }}\n"
                f"    p.new_with_parent_directory().components.into_iter().map(|x| x.elements).collect() }}\n"
                f"pub fn {k}_join(a: &[{ty}], b: &[{ty}]) -> Vec<Vec<{ty}>> {{ let p = {p} {{ components: vec![{sep}(a)] }}; let q = p.new_with_join(&[{sep}(b), {sep}(a)]); q.components.into_iter().map(|x| x.elements).collect() }}\n"
                f"pub fn {k}_name(a: &[{ty}], b: &[{ty}], n: usize) -> Option<Vec<{ty}>> {{ let mut p = {p} {{ components: vec![] }}; if n > 0 {{ p.push({sep}(a)); }} if n > 1 {{ p.push({sep}(b)); }}\n"
                f"    p.file_name().map(|x| x.elements.clone()) }}\n")
    return "kvfixture", ["keramics-formats", "keramics-types"], src


def char(width, i):
    """the bytes of any character of a width (of a range of its own)"""
    if width == 1:
        return [T.sym(f"char{i}", 1, 0x7f)]
    lead = {2: [0xc3], 3: [0xe4], 4: [0xf0, 0x9f]}[width]
    return [T.const(x) for x in lead] + [T.sym(f"char{i}.{j}", 0x80, 0xbf) for j in range(width - len(lead))]


SHAPES = [(), (1,), (2,), (4,), (1, 1), (1, 2), (2, 1), (1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 3, 1), (3, 1, 2), (1, 1, 4), (4, 1, 1), (1, 1, 1, 1), (1, 2, 1, 3), (2, 1, 2, 1), (1, 1, 1, 1, 1)]
NAMES = range(0, 6)
DOT = 0x2e


def f13(ctx):
    prog = ctx.program(CRATES)
    tasks = [("part", what, s) for what in ("extension", "stem") for s in SHAPES]
    tasks += [(k, what, n) for k in ("ext", "ntfs", "fat", "fatlong") for what in ("extension", "stem") for n in NAMES]
    tasks += [(k, what, n) for k in ("ext", "ntfs") for what in ("parent", "name") for n in range(3)] + [(k, "join", 2) for k in ("ext", "ntfs")]

    def unit(kind, name, n):
        return tuple(T.sym(f"{name}{i}", 1, 0xffff if kind in ("ntfs", "fatlong") else 0xff) for i in range(n))

    def work(r, t):
        kind, what, shape = t
        fn = prog.find(f"kvfixture::{kind}_{what}")[0]
        if what in ("extension", "stem"):
            texts = [tuple(x for i, w in enumerate(shape) for x in char(w, i)) if kind == "part" else unit(kind, "char", shape)]
        else:
            texts = [unit(kind, "one", 2), unit(kind, "two", 3)]

        def mk(env):
            def setup(a):
                st = State()
                for i, x in enumerate(texts):
                    o = ("S", f"text{i}.*")
                    st.mem[o] = Arr(x)
                    a.args[i] = Ref(o, (), ("s", T.ZERO, T.const(len(x))))
                if what in ("parent", "name"):
                    a.args[2] = T.const(shape)
                return st
            return Ana(prog, fn, setup=setup, env=env, unroll_max=1000, unroll_nonconst=1000, join_cap=400, max_steps=2000000, attrs={"fork": True})

        def elements(a, st, v):
            s = v.s if isinstance(v, VecV) else v
            n = a.e.seq_len(s)
            if n.t:
                return None
            return [a.e.seq_get(st, s, T.const(j)) for j in range(n.k)]

        def equal(what_, got, want):
            if got is None:
                return [("open", f"{what_}: of unknown length")]
            if len(got) != len(want):
                return [("never", f"{what_}: of another length")]
            return [("eq", f"{what_}: another character", x, y) for x, y in zip(got, want)] or [("true", "", T.TRUE)]

        def observe(a, ret, st):
            if what in ("parent", "join"):
                got = elements(a, st, ret)
                want = {"join": [texts[0], texts[1], texts[0]], "parent": [[], [texts[0]], [texts[0]]][shape] if what == "parent" else None}[what]
                if got is None:
                    return [("open", "number of components not known")]
                if len(got) != len(want):
                    return [("never", "another number of components")]
                return [o for g, w in zip(got, want) for o in equal("component", elements(a, st, g), w)] or [("true", "", T.TRUE)]
            if not isinstance(ret, Agg) or ret.v not in (0, 1):
                return [("open", "result not known")]
            got = elements(a, st, ret.f[0]) if ret.v == 1 else None
            if what == "name":
                return ([("true", "", T.TRUE)] if shape < 2 else [("never", "no file name")]) if ret.v == 0 else [("never", "a file name of a root")] if shape < 2 else equal("file name", got, texts[1])
            x = texts[0]
            dot = [T.eq(T.addk(c, -DOT)) if i else T.FALSE for i, c in enumerate(x)]
            none = T.TRUE
            for d in dot:
                none = T.b_and(none, T.b_not(d))
            if kind == "part" and not x:
                return [("true", "", T.TRUE)] if ret.v == 0 else [("never", f"{what} of nothing")]
            if ret.v == 0:
                return [("true", "an extension is not found", none)] if what == "extension" else [("never", "no stem")]
            if got is None:
                return [("open", f"{what}: of unknown length")]
            # the place of the dot that the length tells
            i = len(x) - 1 - len(got) if what == "extension" else len(got)
            if what == "stem" and i == len(x):
                return [("true", "the stem holds an extension", none)] + equal(what, got, x)
            if i < 1 or i >= len(x):
                return [("never", f"{what}: of a length without a dot")]
            last = dot[i]
            for d in dot[i + 1:]:
                last = T.b_and(last, T.b_not(d))
            return [("true", f"{what}: not divided at the last dot", last)] + equal(what, got, x[i + 1:] if what == "extension" else x[:i])
        r.count("names")
        lib.judge(r, "path", f"{kind} {what} of {shape}", mk, observe, abort="path-abort")
    ctx.parallel(work, tasks)
    ctx.floor("names", 80)
    ctx.explanation = ("Abstract interpretation of the path components and the ext, FAT and NTFS paths for names of 0 to 5 unknown elements, and for text of characters of 1 to 4 bytes in "
                       "every order of widths listed in the check; each path of the program is compared with what the elements on it allow.")
    ctx.rule_text = ("path: the extension is what follows the last dot that is not the first character, the stem what precedes it (the whole name without such a dot); the parent lacks the last component "
                     "of more than one, joining appends all, the file name is the last of more than one component. path-abort: none of these aborts.")
    ctx.assumptions = ["Names hold no NUL character."]
