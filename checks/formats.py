"""keramics-formats: the readers of on-disk structures."""
import os
import re

from kv import models as M, terms as T
from kv.engine import Agg, Sym, UNIT
from . import lib
from .lib import Ana
from .types import slice_arg, compose
from .layout import SIZE

CRATES = ["keramics_formats", "keramics_core", "keramics_types", "keramics_encodings", "keramics_datetime", "keramics_checksums",
          "keramics_layout_map", "keramics_compression"]
MAX = 1 << 40

# data that identifies a structure (offset, the values it may have), from the published format descriptions
MAGIC = {
    "VhdFileFooter": [(0, [b"conectix"]), (12, [b"\x00\x01\x00\x00"])],
    "VhdDynamicDiskHeader": [(0, [b"cxsparse"]), (24, [b"\x00\x01\x00\x00"])],
    "VhdxFileHeader": [(0, [b"vhdxfile"])],
    "VhdxImageHeader": [(0, [b"head"])],
    "VhdxRegionTableHeader": [(0, [b"regi"])],
    "VhdxMetadataTableHeader": [(0, [b"metadata"])],
    "QcowFileHeaderV1": [(0, [b"QFI\xfb\x00\x00\x00\x01"])],
    "QcowFileHeaderV2": [(0, [b"QFI\xfb\x00\x00\x00\x02"])],
    "QcowFileHeaderV3": [(0, [b"QFI\xfb\x00\x00\x00\x03"])],
    "GptPartitionTableHeader": [(0, [b"EFI PART"]), (8, [b"\x00\x00\x01\x00"])],
    "MbrMasterBootRecord": [(510, [b"\x55\xaa"])],
    "MbrExtendedBootRecord": [(510, [b"\x55\xaa"])],
    "ApmPartitionMapEntry": [(0, [b"PM"])],
    "SparseImageFileHeader": [(0, [b"sprs"])],
    "UdifFileFooter": [(0, [b"koly"])],
    "UdifBlockTableHeader": [(0, [b"mish"])],
    "EwfFileHeader": [(0, [b"EVF\x09\x0d\x0a\xff\x00", b"LVF\x09\x0d\x0a\xff\x00"])],
    "ExtSuperblock": [(56, [b"\x53\xef"])],
    "ExtExtentsHeader": [(0, [b"\x0a\xf3"])],
    "NtfsBootRecord": [(3, [b"NTFS    "])],
    "NtfsMftEntryHeader": [(0, [b"FILE"])],
    "NtfsIndexEntryHeader": [(0, [b"INDX"])],
    "Fat12BootRecord": [(510, [b"\x55\xaa"])],
    "Fat32BootRecord": [(510, [b"\x55\xaa"])],
}


class Layout:
    def __init__(self, name, order):
        self.name = name
        self.order = order
        self.fields = []      # (name, type, number, offset, order)
        self.size = 0


def size_of(ty):
    """(base type, number of elements or None, size of an element), None when not known"""
    n = None
    m = re.fullmatch(r"\[\s*(.+?)\s*;\s*(\d+)\s*\]", ty)
    if m:
        ty, n = m.group(1), int(m.group(2))
    m = re.fullmatch(r"Struct<\s*(\w+)\s*;\s*(\d+)\s*>", ty)
    if m:
        return m.group(1), n, int(m.group(2))
    m = re.fullmatch(r"(\w+)<(\d+)>", ty)
    if m:
        if m.group(1) not in SIZE or n is not None:
            return None
        return m.group(1), int(m.group(2)), SIZE[m.group(1)]
    ty = {"uuid": "Uuid"}.get(ty, ty)
    return (ty, n, SIZE[ty]) if ty in SIZE else None


def layouts(root):
    """the layouts that the sources declare, by the name of the structure"""
    out = {}
    for d, _, fs in os.walk(os.path.join(root, "keramics-formats/src")):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            text = open(os.path.join(d, f)).read()
            for m in re.finditer(r"#\[layout_map\((.*?)\)\]\s*(?:///[^\n]*\n\s*|#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?struct\s+(\w+)", text, re.S):
                l = parse(m.group(2), m.group(1))
                if l:
                    out[m.group(2)] = l
    return out


def parse(name, text):
    head = text.split("field(")[0]
    m = re.search(r'byte_order\s*=\s*"(\w+)"', head)
    order = {"big": "be", "little": "le"}.get(m.group(1)) if m else None
    l = Layout(name, order)
    for m in re.finditer(r"\bfield\(((?:[^()\"]|\"[^\"]*\")*)\)", text):
        at = dict(re.findall(r'(\w+)\s*=\s*"([^"]*)"', m.group(1)))
        if "BitField" in at.get("data_type", ""):
            return None
        s = size_of(at["data_type"])
        if s is None:
            return None
        o = {"big": "be", "little": "le"}.get(at.get("byte_order"), order)
        l.fields.append((at["name"], s[0], s[1], l.size, o))
        l.size += s[2] * (1 if s[1] is None else s[1])
    return l


# ------------------------------------------------------------------ what is not followed

def quiet(ctx, st, *a):
    """debugging text: decided by the layout checks"""
    return Sym(ctx.rty, "text")


def stubs(prog):
    """what other checks decide: the debugging text and the checksums"""
    out = sum_models(prog)
    for f in prog.fns.values():
        if f.def_.endswith("::debug_read_data"):
            out[f.def_] = quiet
        elif f.def_.endswith("ExtAttributesBlock::read_entries"):
            out[f.def_] = either
    return out


def either(ctx, st, *a):
    """the call succeeds or fails"""
    ok = T.eq(T.addk(T.sym("attributes_ok", 0, 1), -1))
    out = []
    for good in (True, False):
        f = st.facts.assume(ok if good else T.b_not(ok))
        if f is not None:
            out.append((M.ok(UNIT) if good else M.err(ctx.e.fresh(ctx.rty.ga[1], "error")), st.with_facts(f)))
    return out


def target(f):
    """index of the argument that is read into"""
    for i in range(f.nargs):
        t = f.locals[i + 1]
        if t.k == "ref" and t.m and t.t.k == "adt" and t.t.vs:
            return i
    return None


def readers(prog):
    out = []
    for f in prog.fns.values():
        if f.crate != "keramics_formats" or not f.def_.endswith("::read_data") or f.closure:
            continue
        rt = f.locals[0]
        if rt.k != "adt" or not rt.p.endswith("Result"):
            continue
        if not any(t.k == "ref" and t.t.k == "slice" for t in f.locals[1:f.nargs + 1]):
            continue
        out.append(f)
    return sorted(out, key=lambda f: f.def_)


# sizes of the buffers that the callers of a private reader create
SIZES = {"VhdxRegionTable": (65536, 65536), "NtfsMftEntry": (42, 65535)}
# readers whose data is followed by text, tables or compressed data that the interpretation does not bound
LEFT = {"EwfHeader": "inflates compressed text", "EwfHeader2": "inflates compressed text", "ExtGroupDescriptorTable": "sizes agreed with its caller",
        "ExtInode": "extents and attributes", "FatDirectoryEntries": "joins the parts of long names", "NtfsMftAttribute": "data runs",
        "NtfsMftEntry": "fix-up values", "NtfsIndexEntry": "fix-up values", "NtfsReparsePoint": "text of symbolic links",
        "VhdSectorBitmap": "bitmap of a size agreed with its caller", "VhdxSectorBitmap": "bitmap of a size agreed with its caller",
        "VhdxParentLocator": "entries of a size given by the data"}
# fields that the reader converts
CONVERTED = {("NtfsBootRecord", "mft_entry_size"), ("NtfsBootRecord", "index_entry_size"), ("NtfsMftAttributeNonResident", "compression_unit_size"),
             ("ExtSuperblock", "block_size"), ("ExtSuperblock", "number_of_block_groups_per_flex_group"), ("ExtSuperblock", "metadata_checksum_seed"),
             ("QcowFileHeaderV1", "format_version"), ("QcowFileHeaderV2", "format_version"), ("QcowFileHeaderV3", "format_version")}
# fields that some data leaves as they were: their value, or what the field held
OPTIONAL = {("Fat12BootRecord", "volume_serial_number"), ("Fat32BootRecord", "volume_serial_number"), ("Fat32BootRecord", "number_of_root_directory_entries"),
            ("NtfsMftAttributeNonResident", "compressed_data_size"), ("QcowFileHeaderV3", "compression_method")}


def owner_of(f):
    return f.def_.split("::")[-2]


def make(prog, f, models, **kw):
    lo, hi = SIZES.get(owner_of(f), (0, MAX))

    def mk(env):
        def setup(a):
            for i in range(f.nargs):
                t = f.locals[i + 1]
                if t.k == "ref" and t.t.k == "slice":
                    a.args[i] = slice_arg(a.e, "data", T.sym("size", lo, hi), t.t.t)
        return Ana(prog, f, setup=setup, env=env, extra_models=dict(models), max_steps=400000, **kw)
    return mk


def data_of(f, a):
    for i in range(f.nargs):
        t = f.locals[i + 1]
        if t.k == "ref" and t.t.k == "slice":
            return a.args[i]


def numbers(v):
    """the numbers a value is made of"""
    if isinstance(v, Agg):
        out = []
        for x in v.f:
            y = numbers(x)
            if y is None:
                return None
            out += y
        return out
    if isinstance(v, (T.Lin, T.B)):
        return [v]
    return None


def at(a, st, data, off, n):
    return [a.e.as_int(M.win_get(a.e, st, data, T.const(off + i))) for i in range(n)]


def wanted(a, st, data, ty, off, order):
    """the numbers of a value of the type at the offset"""
    if ty in ("u8", "i8"):
        x = at(a, st, data, off, 1)[0]
        return [T.wrap_s(x, 8) if ty == "i8" else x]
    if re.fullmatch(r"[ui](16|32|64)", ty):
        w = SIZE[ty] * 8
        x = compose(at(a, st, data, off, w // 8), order)
        return [T.wrap_s(x, w) if ty[0] == "i" else x]
    if ty == "Uuid":
        return [compose(at(a, st, data, off + o, n), order if o < 8 else "be") for o, n in ((0, 4), (4, 2), (6, 2), (8, 2), (10, 6))]
    if ty == "PosixTime32":
        return [T.wrap_s(compose(at(a, st, data, off, 4), order), 32)]
    if ty == "Filetime":
        return [compose(at(a, st, data, off, 8), "le")]
    return None


def reached(a, ret, st):
    """1 when the reader reports success on this path, 0 when an error, None when not known"""
    v = ret
    if isinstance(v, Agg) and v.v in (0, 1):
        return 1 if v.v == 0 else 0
    return None


def unchanged(x):
    """the value that a field had before"""
    return isinstance(x, T.Lin) and len(x.t) == 1 and x.k == 0 and x.t[0][1] == 1 and ".*." in str(x.t[0][0])


def observer(f, layout, magic, stats):
    ti = target(f)
    owner = owner_of(f)

    def observe(a, ret, st):
        out = [("true", "", T.TRUE)]
        k = reached(a, ret, st)
        if k == 0:
            return out
        data = data_of(f, a)
        if k is None:
            return [("open", "result not known")]
        stats.add(("", "accepted"))
        for off, values in magic:
            bs = at(a, st, data, off, len(values[0]))
            c = T.FALSE
            for v in values:
                d = T.TRUE
                for x, b in zip(bs, v):
                    d = T.b_and(d, T.eq(T.addk(x, -b)))
                c = T.b_or(c, d)
            out.append(("true", f"data without the signature {values[0]!r} at {off} is accepted", c))
        if layout and ti is not None:
            ty = f.locals[ti + 1].t
            obj = a.e.load(st, a.args[ti].o, a.args[ti].p)
            names = {x[0]: j for j, x in enumerate(ty.vs[0][2])}
            for name, fty, num, off, order in layout.fields:
                if name not in names or num is not None or (owner, name) in CONVERTED:
                    continue
                j = names[name]
                v = obj.f[j] if isinstance(obj, Agg) else a.e.load(st, a.args[ti].o, a.args[ti].p + (("f", j, ty.vs[0][2][j][1]),))
                got = numbers(v)
                want = wanted(a, st, data, fty, off, order)
                if want is None or got is None or len(got) != len(want):
                    stats.add((name, "not compared"))
                    continue
                if (owner, name) in OPTIONAL and all(unchanged(x) or not x.t for x in got):
                    continue
                stats.add((name, "compared"))
                for x, y in zip(got, want):
                    out.append(("eq", f"field {name} is not the {fty} at offset {off}", a.e.as_int(x) if not isinstance(x, T.B) else x, y))
        return out
    return observe


def attributes(ctx, prog, models):
    """the list of attributes in the space after an ext4 inode or in its own block; the names themselves are T12's"""
    ms = {k: v for k, v in models.items() if not k.endswith("ExtAttributesBlock::read_entries")}
    ms["keramics_types::byte_string::ByteString::read_data"] = lambda ctx, st, *a: UNIT
    ms["keramics_types::byte_string::ByteString::to_string"] = quiet
    for f in prog.fns.values():
        if f.def_.endswith("ExtAttributesBlock::read_entries") and f.nargs == 5:
            site = f.def_.replace("keramics_formats::", "")
            for size in (None, 27):
                def mk(env, f=f, size=size):
                    def setup(a):
                        n = T.sym("length", 0, MAX) if size is None else T.const(size)
                        a.args[1] = slice_arg(a.e, f"attributes{size or ''}", n, f.locals[2].t.t)
                        a.args[2] = T.sym("offset", 0, MAX) if size is None else T.ZERO
                        a.args[3] = n
                        return lib.assume(a.st, T.le(T.sub(a.args[2], n)))
                    return Ana(prog, f, setup=setup, env=env, extra_models=dict(ms), max_steps=400000)
                lib.judge(ctx, "analysis", site + (f" of {size} bytes" if size else ""), mk, lambda a, ret, st: [], abort="reader-abort")


def run_readers(ctx, aborts):
    prog = ctx.program(CRATES)
    ls = layouts(os.environ.get("KV_REPO", "/repo"))
    models = stubs(prog)
    fs = readers(prog)
    by = {f.key: f for f in fs}

    def work(r, key):
        f = by[key]
        owner = owner_of(f)
        site = f.def_.replace("keramics_formats::", "")
        if owner in LEFT:
            r.count("readers left out")
            return
        a = make(prog, f, models)({})
        kw = {"join_cap": 2000} if a.error or a.alarms else {}
        mk = make(prog, f, models, **kw)
        r.count("readers")
        if aborts:
            lib.judge(r, "analysis", site, mk, lambda a, ret, st: [], abort="reader-abort")
            return
        layout = ls.get(owner)
        stats = set()
        a = lib.judge(r, "structure", site, mk, observer(f, layout, MAGIC.get(owner, ()), stats))
        if a is not None and not a.error and not a.e.unsupported and ("", "accepted") not in stats:
            r.bad("accepts", site, "no data is accepted")
        r.count("fields compared", sum(k == "compared" for _, k in stats))
        r.count("fields not compared", sum(k == "not compared" for _, k in stats))
    if aborts:
        attributes(ctx, prog, models)
    slow = ("ApmPartitionMapEntry", "ExtSuperblock", "EwfTable", "EwfError2")
    ctx.parallel(work, sorted((f.key for f in fs), key=lambda k: owner_of(by[k]) not in slow), timeout=600)
    ctx.assumptions = ["The sizes of the buffers that callers of private readers create are taken from those callers: VHDX tables 65536 bytes.",
                       "Checksum contexts yield any value here; what they compute is decided by C10 and C11, debugging text by L10.",
                       "Not analysed, as their loops or text have no bound the interpretation can use: " + "; ".join(f"{k} ({v})" for k, v in sorted(LEFT.items())) + "."]


def f10(ctx):
    run_readers(ctx, True)
    ctx.floor("readers", 40)
    ctx.explanation = ("Abstract interpretation of every function of keramics-formats that reads a structure of a disk format from a buffer, from its optimisation-free MIR, for a "
                       "buffer of symbolic length and content and an object in any state, with the functions of the other crates that it calls.")
    ctx.rule_text = ("reader-abort: no index or slice outside the buffer, no overflowing arithmetic, no failing conversion is reachable: the reader returns the structure or an error.")


def f11(ctx):
    run_readers(ctx, False)
    ctx.floor("readers", 40)
    ctx.floor("fields compared", 120)
    ctx.explanation = ("Abstract interpretation of every function of keramics-formats that reads a structure of a disk format from a buffer, from its optimisation-free MIR, for a "
                       "buffer of symbolic length and content. Oracles: the offset, type and byte order of each field in the declared layout of the structure, the signatures of "
                       "the published format descriptions.")
    ctx.rule_text = ("structure: on every path on which the reader reports success, each field named as one in the declared layout has the value of the bytes at that field's offset in its "
                     "type and byte order, and the data has the format's signature and version in their place. accepts: some data is accepted.")


# ------------------------------------------------------------------ checksums

SUMS = ("S", "checksums")
CRC32 = ("ReversedCrc32Context", (0xedb88320, 0))
CRC32C = ("ReversedCrc32Context", (0x82f63b78, 0))
ADLER32 = ("Adler32Context", (1,))


def number(a, st, data, off, n, order="le"):
    return compose([a.e.as_int(M.win_get(a.e, st, data, T.addk(off, i))) for i in range(n)], order)


def whole(algorithm, end, place=None, **kw):
    """the bytes up to end, stored behind them"""
    return [dict(algorithm=algorithm, pieces=lambda n: [("d", T.ZERO, T.const(end))], place=lambda n: T.const(end if place is None else place), **kw)]


def holed(algorithm, place, end, **kw):
    """the bytes up to end, with zero in place of the stored checksum"""
    return [dict(algorithm=algorithm, pieces=lambda n: [("d", T.ZERO, T.const(place)), ("z", T.ZERO, T.const(4)), ("d", T.const(place + 4), T.const(end - place - 4))],
                 place=lambda n: T.const(place), **kw)]


def entries(first, size):
    """the entries behind a header that has their number in front, stored behind them"""
    return [dict(algorithm=ADLER32, pieces=lambda n: [("d", T.const(first), T.scale(n, size))], place=lambda n: T.addk(T.scale(n, size), first))]


CHECKSUMS = {
    "EwfDigest": whole(ADLER32, 76), "EwfHash": whole(ADLER32, 32), "EwfSectionHeader": whole(ADLER32, 72), "EwfTableHeader": whole(ADLER32, 20),
    "EwfError2Header": whole(ADLER32, 516), "EwfE01Volume": whole(ADLER32, 1048), "EwfS01Volume": whole(ADLER32, 90),
    "EwfTable": whole(ADLER32, 20) + entries(24, 4), "EwfError2": whole(ADLER32, 516) + entries(520, 8),
    "GptPartitionTableHeader": holed(CRC32, 16, 92, unset=True),
    "VhdxImageHeader": holed(CRC32C, 4, 4096, unset=True), "VhdxRegionTable": holed(CRC32C, 4, 65536, unset=True),
    "ExtSuperblock": whole(CRC32C, 1020, unset=True, inverse=True, when=(100, 0x400)),
}


def sum_models(prog):
    def record(st, x):
        old = st.mem.get(SUMS)
        s = st.copy()
        s.mem[SUMS] = Agg(0, (old.f if old else ()) + (x,))
        return s

    def model(name, kind):
        def m(ctx, st, *a):
            n = sum(x[0] == "end" for x in (st.mem.get(SUMS).f if SUMS in st.mem else ()))
            if kind == "new":
                return [(ctx.e.fresh(ctx.rty, "context"), record(st, ("new", name) + tuple(a)))]
            if kind == "update":
                return [(UNIT, record(st, ("add", name, a[1])))]
            return [(T.sym(f"calculated_{n}", 0, 0xffffffff), record(st, ("end", name)))]
        return m
    out = {}
    for f in prog.fns.values():
        p = f.def_.split("::")
        if f.crate == "keramics_checksums" and p[-1] in ("new", "update", "finalize") and p[-2].endswith("Context"):
            out[f.def_] = model(p[-2], p[-1])
    return out


def contexts(a, st, data):
    """[(algorithm, pieces, checksum)] of the checksums calculated on a path, None when not known"""
    out = []
    cur = None
    for x in (st.mem[SUMS].f if SUMS in st.mem else ()):
        if x[0] == "new":
            if not all(isinstance(v, T.Lin) and v.is_const for v in x[2:]):
                return None
            cur = ((x[1], tuple(v.k for v in x[2:])), [])
        elif cur is None or cur[0][0] != x[1]:
            return None
        elif x[0] == "add":
            r = x[2]
            if not (getattr(r, "m", None) and r.m[0] == "s"):
                return None
            if r.o == data.o and r.p == data.p:
                p = [("d", T.sub(r.m[1], data.m[1]), r.m[2])]
            else:
                if not r.m[2].is_const or r.m[2].k > 70000:
                    return None
                bs = [a.e.as_int(M.win_get(a.e, st, r, T.const(i))) for i in range(r.m[2].k)]
                p = []
                for b in bs:
                    if b == T.ZERO:
                        p.append(("z", T.ZERO, T.const(1)))
                    else:
                        p.append(("b", b, T.const(1)))
            cur[1].extend(p)
        else:
            out.append((cur[0], joined(cur[1]), T.sym(f"calculated_{len(out)}", 0, 0xffffffff)))
            cur = None
    return out


def joined(ps):
    out = []
    for k, s, n in ps:
        if n == T.ZERO:
            continue
        if out and out[-1][0] == k and (k == "z" or k == "d" and T.add(out[-1][1], out[-1][2]) == s):
            out[-1] = (k, out[-1][1], T.add(out[-1][2], n))
        else:
            out.append((k, s, n))
    return out


def sum_observer(f, want):
    def observe(a, ret, st):
        out = [("true", "", T.TRUE)]
        k = reached(a, ret, st)
        if k == 0:
            return out
        if k is None:
            return [("open", "result not known")]
        data = data_of(f, a)
        got = contexts(a, st, data)
        if got is None:
            return [("open", "checksum of data that is not followed")]
        n = number(a, st, data, T.ZERO, 4)
        for j, w in enumerate(want):
            need = T.TRUE
            if w.get("when"):
                off, mask = w["when"]
                bits = number(a, st, data, T.const(off), 4)
                need = T.b_not(T.eq(T.bits(bits, mask.bit_length() - 1, 1)))
            stored = number(a, st, data, w["place"](n), 4)
            free = T.eq(stored) if w.get("unset") else T.FALSE
            text = "data with a checksum that does not match is accepted"
            if j >= len(got):
                out.append(("true", text, T.b_or(T.b_not(need), free)))
                continue
            algorithm, pieces, value = got[j]
            if any(p[0] == "b" for p in pieces):
                return [("open", "checksum of data that is not followed")]
            same = algorithm == w["algorithm"] and len(pieces) == len(joined(w["pieces"](n)))
            cover = T.TRUE if same else T.FALSE
            if same:
                for (k1, s1, n1), (k2, s2, n2) in zip(pieces, joined(w["pieces"](n))):
                    c = T.b_and(T.TRUE if k1 == k2 else T.FALSE, T.eq(T.sub(n1, n2)))
                    cover = T.b_and(cover, T.b_and(c, T.eq(T.sub(s1, s2)) if k1 == "d" else T.TRUE))
            out.append(("true", f"checksum {j + 1} is not the {w['algorithm'][0]} of the data it protects", cover))
            if w.get("inverse"):
                value = T.sub(T.const(0xffffffff), value)
            out.append(("true", text, T.b_or(T.b_not(need), T.b_or(free, T.eq(T.sub(stored, value))))))
        return out
    return observe


def f12(ctx):
    prog = ctx.program(CRATES)
    models = stubs(prog)
    fs = [f for f in readers(prog) if owner_of(f) in CHECKSUMS]
    by = {f.key: f for f in fs}

    def work(r, key):
        f = by[key]
        kw = {"attrs": {"fork": True}} if any(w.get("unset") for w in CHECKSUMS[owner_of(f)]) else {}
        r.count("structures with a checksum")
        lib.judge(r, "checksum", f.def_.replace("keramics_formats::", ""), make(prog, f, models, **kw), sum_observer(f, CHECKSUMS[owner_of(f)]))
    ctx.parallel(work, sorted((f.key for f in fs), key=lambda k: owner_of(by[k]) != "ExtSuperblock"), timeout=600)
    ctx.floor("structures with a checksum", 10)
    ctx.assumptions = ["What the checksum contexts compute is decided by C10 and C11; here the value of a context is a symbol and the data it was given is recorded.",
                       "A stored checksum of 0 counts as not set in GPT, VHDX and ext structures, as the readers have it."]
    ctx.explanation = ("Abstract interpretation of the readers of structures that hold a checksum of their own data, for data of symbolic length and content. Calls of the checksum "
                       "contexts are recorded with the algorithm, its parameters and the ranges of the data they are given; the checksum is a free symbol.")
    ctx.rule_text = ("checksum: on every path on which the reader reports success, the format's checksum algorithm was applied to exactly the data that the format protects and the result "
                     "equals the stored value in the format's place; an outcome that leaves them different is a violation.")
