"""keramics-compression: decompressors, their headers, code tables and checksums."""
from kv import models as M, terms as T
from kv.engine import Arr, UNIT, Unsupported
from . import formats, lib
from .lib import Ana
from .types import slice_arg

CRATES = ["keramics_compression", "keramics_core", "keramics_types", "keramics_checksums", "keramics_layout_map"]
MAX = formats.MAX

# what is analysed: the functions that take data and need no state of a running decompression
DECOMPRESSORS = {"adc::AdcContext::decompress", "lzvn::LzvnContext::decompress"}
LEFT = {"lznt1": "nested loops over two offsets", "deflate": "bit streams and Huffman trees", "zlib": "DEFLATE", "bzip2": "bit streams and Huffman trees",
        "lzfse": "entropy coded streams", "lzx": "bit streams and Huffman trees"}


def z10(ctx):
    prog = ctx.program(CRATES)
    models = formats.stubs(prog)
    fs = []
    for f in prog.fns.values():
        if f.crate != "keramics_compression" or f.closure or not f.nargs:
            continue
        name = f.def_.split("::", 1)[1]
        if "lzxpress" in name:
            continue
        if name in DECOMPRESSORS or name.endswith("Header::read_data"):
            fs.append(f)
    by = {f.key: f for f in fs}

    def work(r, key):
        f = by[key]
        name = f.def_.split("::", 1)[1]

        def mk(env):
            def setup(a):
                for i in range(f.nargs):
                    t = f.locals[i + 1]
                    if t.k == "ref" and t.t.k == "slice":
                        a.args[i] = slice_arg(a.e, lib.arg_name(f, i), T.sym(f"size{i}", 0, MAX), t.t.t)
            return Ana(prog, f, setup=setup, env=env, extra_models=dict(models), max_steps=400000)
        r.count("decompressors" if name in DECOMPRESSORS else "headers")
        lib.judge(r, "analysis", name, mk, lambda a, ret, st: [], abort="decompress-abort")
    ctx.parallel(work, sorted((f.key for f in fs), key=lambda k: "decompress" not in k), timeout=600)
    ctx.floor("decompressors", 2)
    ctx.floor("headers", 4)
    ctx.assumptions = ["Debugging text is not followed (L10).",
                       "Not analysed, as the interpretation finds no invariant for their loops: " + "; ".join(f"{k} ({v})" for k, v in sorted(LEFT.items())) + "."]
    ctx.explanation = ("Abstract interpretation of the ADC and LZVN decompressors and of the header readers of BZIP2, LZFSE, LZNT1 and ZLIB, for compressed data and output buffers of "
                       "symbolic size and content. Loops are summarised by the linear relations between offsets and sizes that their bodies keep.")
    ctx.rule_text = ("decompress-abort: no index or slice outside the compressed data or the output buffer, no overflowing arithmetic is reachable: decompressing ends with the data or an error.")


def bases(bits, first):
    """code bases that leave no gap and do not overlap"""
    out = [first]
    for b in bits[:-1]:
        out.append(out[-1] + (1 << b))
    return out


def lzvn():
    """the opcode classes of the reference implementation"""
    out = []
    for i in range(256):
        high, low = i >> 4, i & 7
        if high in (7, 13):
            k = "Invalid"
        elif high in (10, 11):
            k = "DistanceMedium"
        elif i == 0xe0:
            k = "LiteralLarge"
        elif high == 14:
            k = "LiteralSmall"
        elif i == 0xf0:
            k = "MatchLarge"
        elif high == 15:
            k = "MatchSmall"
        elif low == 7:
            k = "DistanceLarge"
        elif low == 6:
            k = "DistancePrevious" if i >= 0x40 else "EndOfStream" if i == 6 else "None" if i in (0x0e, 0x16) else "Invalid"
        else:
            k = "DistanceSmall"
        out.append(k)
    return out


def tables():
    extra = [0] * 8 + [b for b in range(1, 6) for _ in range(4)] + [0]
    dist = [0, 0] + [b for b in range(14) for _ in range(2)]
    d = [b for b in range(16) for _ in range(4)]
    lbits = [0] * 16 + [2, 3, 5, 8]
    mbits = [0] * 16 + [3, 5, 8, 11]
    foot = [0, 0] + [b for b in range(17) for _ in range(2)] + [17] * 14
    nbits = [2, 3, 2, 5, 2, 3, 2, 8, 2, 3, 2, 5, 2, 3, 2, 14] * 2
    values = [x for k in range(4, 8) for x in (0, 2, 1, k, 0, 3, 1, 0xffff)]
    return {
        "deflate::DEFLATE_CODE_SIZES_SEQUENCE": ("RFC 1951 3.2.7", [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]),
        "deflate::DEFLATE_LITERAL_CODES_NUMBER_OF_EXTRA_BITS": ("RFC 1951 3.2.5", extra),
        "deflate::DEFLATE_LITERAL_CODES_BASE": ("RFC 1951 3.2.5", bases(extra, 3)[:28] + [258]),
        "deflate::DEFLATE_DISTANCE_CODES_NUMBER_OF_EXTRA_BITS": ("RFC 1951 3.2.5", dist),
        "deflate::DEFLATE_DISTANCE_CODES_BASE": ("RFC 1951 3.2.5", bases(dist, 1)),
        "deflate::DEFLATE_BLOCK_TYPE_UNCOMPRESED": ("RFC 1951 3.2.3", 0),
        "deflate::DEFLATE_BLOCK_TYPE_HUFFMAN_FIXED": ("RFC 1951 3.2.3", 1),
        "deflate::DEFLATE_BLOCK_TYPE_HUFFMAN_DYNAMIC": ("RFC 1951 3.2.3", 2),
        "lzfse::LZFSE_END_OF_STREAM_BLOCK_MARKER": ("LZFSE reference", int.from_bytes(b"bvx$", "little")),
        "lzfse::LZFSE_UNCOMPRESSED_BLOCK_MARKER": ("LZFSE reference", int.from_bytes(b"bvx-", "little")),
        "lzfse::LZFSE_COMPRESSED_BLOCK_V1_MARKER": ("LZFSE reference", int.from_bytes(b"bvx1", "little")),
        "lzfse::LZFSE_COMPRESSED_BLOCK_V2_MARKER": ("LZFSE reference", int.from_bytes(b"bvx2", "little")),
        "lzfse::LZFSE_COMPRESSED_BLOCK_LZVN_MARKER": ("LZFSE reference", int.from_bytes(b"bvxn", "little")),
        "lzfse::LZFSE_FREQUENCY_NUMBER_OF_BITS_TABLE": ("LZFSE reference", nbits),
        "lzfse::LZFSE_FREQUENCY_VALUE_TABLE": ("LZFSE reference", values),
        "lzfse::LZFSE_D_VALUE_BITS_TABLE": ("LZFSE reference", d), "lzfse::LZFSE_D_VALUE_BASE_TABLE": ("LZFSE reference", bases(d, 0)),
        "lzfse::LZFSE_L_VALUE_BITS_TABLE": ("LZFSE reference", lbits), "lzfse::LZFSE_L_VALUE_BASE_TABLE": ("LZFSE reference", bases(lbits, 0)),
        "lzfse::LZFSE_M_VALUE_BITS_TABLE": ("LZFSE reference", mbits), "lzfse::LZFSE_M_VALUE_BASE_TABLE": ("LZFSE reference", bases(mbits, 0)),
        "lzvn::LZVN_OPPCODE_TYPES": ("LZVN reference", lzvn()),
        "lzx::LZX_NUMBER_OF_FOOTER_BITS": ("MS-PATCH position slots", foot), "lzx::LZX_COMPRESSION_OFFSET_BASE": ("MS-PATCH position slots", [x - 2 for x in bases(foot, 0)]),
        "bzip2::BZIP2_DATA_HEADER_SIGNATURE": ("BZIP2", list(b"BZ")), "bzip2::BZIP2_BLOCK_SIZE": ("BZIP2", 100000),
    }


def constant(ty, v):
    """the value of a constant: a number, numbers or names of variants"""
    if isinstance(v, int):
        return v
    if v[0] == "B":
        return list(bytes.fromhex(v[1]))
    if v[0] == "L":
        out = []
        for x in v[1]:
            out.append(x if isinstance(x, int) else ty.t.vs[x[1]][0] if x[0] == "A" else None)
        return out
    return None


def z11(ctx):
    prog = ctx.program(CRATES)
    for name, (source, want) in sorted(tables().items()):
        ent = prog.consts.get("keramics_compression::" + name)
        got = constant(*ent) if ent else None
        if got is None or isinstance(got, list) != isinstance(want, list) or isinstance(want, list) and (len(got) != len(want) or None in got):
            ctx.undecided("table", name, "not found in the form known")
            continue
        ctx.count("tables")
        ctx.count("elements", len(want) if isinstance(want, list) else 1)
        if isinstance(want, list):
            bad = [i for i, (x, y) in enumerate(zip(got, want)) if x != y]
            if bad:
                ctx.bad("table", name, f"element {bad[0]} is {got[bad[0]]!r}, {source} has {want[bad[0]]!r}")
                continue
        elif got != want:
            ctx.bad("table", name, f"is {got!r}, {source} has {want!r}")
            continue
        ctx.ok("table", name, source)
    ctx.floor("tables", 20)
    ctx.explanation = ("The constants that the compiler evaluates for the code tables of the decompressors are compared, element by element, with the tables of the published formats, "
                       "which are derived from the rules these give (code ranges without gaps, opcode classes).")
    ctx.rule_text = "table: each element of a code table of DEFLATE, LZFSE, LZVN, LZX and BZIP2 has the value of the published format."


# ------------------------------------------------------------------ ZLIB

def inflated(ctx, st, *a):
    """any outcome of DEFLATE: a number of bytes at the start of the output, a place in the compressed data after the last block"""
    e = ctx.e
    out = []
    for good in (True, False):
        f = st.facts.assume(T.eq(T.addk(T.sym("inflates", 0, 1), -1 if good else 0)))
        if f is None:
            continue
        s = st.with_facts(f)
        if not good:
            out.append((M.err(e.fresh(ctx.rty.ga[1], "error")), s))
            continue
        me, bits, data = a
        places = [field(ctx.atys[0].t, "uncompressed_data_size"), field(ctx.atys[1].t, "data_offset"), field(ctx.atys[1].t, "number_of_bits"), field(ctx.atys[1].t, "data_size")]
        if None in places:
            raise Unsupported("fields of the bit stream")
        size = e.as_int(e.load(s, bits.o, bits.p + (places[3],)))
        produced, consumed = fixed(s, T.sym("produced", 0, MAX)), fixed(s, T.sym("consumed", 0, MAX))
        s = s.copy()
        for c in (T.le(T.sub(produced, data.m[2])), T.le(T.sub(consumed, size))):
            f = s.facts.assume(c)
            if f is None:
                break
            s = s.with_facts(f)
        if f is None:
            continue
        s = s.copy()
        e.store(s, me.o, me.p + (places[0],), produced)
        e.store(s, bits.o, bits.p + (places[1],), consumed)
        e.store(s, bits.o, bits.p + (places[2],), T.sym("bits_left", 0, 7))
        out.append((M.ok(UNIT), s))
    return out


def fixed(st, x):
    lo, hi = st.facts.rng(x)
    return T.const(lo) if lo == hi else x


def field(ty, name):
    for j, x in enumerate(ty.vs[0][2]) if ty.k == "adt" and ty.vs else ():
        if x[0] == name:
            return ("f", j, x[1])
    return None


def z12(ctx):
    prog = ctx.program(CRATES)
    models = formats.stubs(prog)
    name = "zlib::ZlibContext::decompress"
    fs = [f for f in prog.fns.values() if f.crate == "keramics_compression" and f.def_.endswith(name) and not f.closure]
    for f in prog.fns.values():
        if f.crate == "keramics_compression" and f.def_.endswith("DeflateContext::decompress_bitstream"):
            models[f.def_] = inflated
        elif f.crate == "keramics_compression" and f.def_.endswith("DeflateContext::new"):
            models[f.def_] = lambda ctx, st, *a: ctx.e.fresh(ctx.rty, "deflate")

    def maker(size):
        """any data, or data of some size that DEFLATE leaves at some place, so that a violation can be shown for an input"""
        def mk(env):
            def setup(a):
                for i, t in ((1, "compressed"), (2, "uncompressed")):
                    a.args[i] = slice_arg(a.e, t, T.const(size[i - 1]) if size else T.sym(t + "_size", 0, MAX), fs[0].locals[i + 1].t.t)
                if size:
                    st = lib.assume(a.st, T.eq(T.addk(T.sym("consumed", 0, MAX), -size[2])))
                    return lib.assume(st, T.eq(T.addk(T.sym("produced", 0, MAX), -size[3])))
            a = Ana(prog, fs[0], setup=setup, env=env, extra_models=dict(models), max_steps=400000, attrs={"fork": True})
            a.size = size
            return a
        return mk

    def observe(a, ret, st):
        out = [("true", "", T.TRUE)]
        k = formats.reached(a, ret, st)
        if k == 0:
            return out
        if k is None:
            return [("open", "result not known")]
        data, produced, consumed = a.args[2], T.sym("produced", 0, MAX), T.sym("consumed", 0, MAX)
        if a.size:
            consumed, produced = T.const(a.size[2]), T.const(a.size[3])
        short = T.le(T.sub(a.args[1].m[2], T.addk(consumed, 3)))
        got = formats.contexts(a, st, data)
        if got is None:
            return [("open", "checksum of data that is not followed")]
        text = "data that does not match the checksum behind it is accepted"
        if len(got) != 1:
            return out + [("true", text, short)]
        algorithm, pieces, value = got[0]
        cover = T.eq(produced) if not pieces else T.FALSE
        if len(pieces) == 1 and pieces[0][0] == "d":
            cover = T.b_and(T.eq(pieces[0][1]), T.eq(T.sub(pieces[0][2], produced)))
        if algorithm != formats.ADLER32:
            cover = T.FALSE
        out.append(("true", "the checksum is not the Adler-32 of the uncompressed data", T.b_or(short, cover)))
        stored = formats.number(a, st, a.args[1], consumed, 4, "be")
        out.append(("true", text, T.b_or(short, T.eq(T.sub(stored, value)))))
        return out
    if fs:
        ctx.count("functions")
        lib.judge(ctx, "checksum", name, maker(None), observe)
        for size in ((10, 8, 6, 8), (10, 8, 6, 3), (14, 8, 6, 0)):
            lib.judge(ctx, "checksum", f"{name} of {size[0]} bytes, {size[3]} of {size[1]} bytes produced, {size[0] - size[2]} left", maker(size), observe)
    ctx.floor("functions", 1)
    ctx.assumptions = ["DEFLATE yields any number of bytes that the output holds and stops anywhere in the compressed data, with less than a byte left in its bit buffer.",
                       "What the Adler-32 context computes is decided by C11.", "Data that ends before the checksum is accepted, as the readers of damaged images need."]
    ctx.explanation = ("Abstract interpretation of the ZLIB decompressor for compressed data and output of symbolic size and content, with DEFLATE as a function of unknown outcome "
                       "and the checksum as a recorded uninterpreted function.")
    ctx.rule_text = ("checksum: on every path on which decompressing succeeds and four bytes follow the DEFLATE data, these equal the Adler-32 of exactly the uncompressed data.")


# ------------------------------------------------------------------ what ADC and LZVN instructions yield

def adc(data, room):
    """(bytes, error) that the instructions yield, at most room bytes"""
    out, i = [], 0
    while i < len(data) and len(out) < room:
        op = data[i]
        i += 1
        if op & 0x80:
            n = (op & 0x7f) + 1
            if n > len(data) - i or n > room - len(out):
                return None
            out += data[i:i + n]
            i += n
            continue
        k = 2 if op & 0x40 else 1
        if len(data) - i < k:
            return None
        if op & 0x40:
            n, back = (op & 0x3f) + 4, data[i] << 8 | data[i + 1]
        else:
            n, back = ((op >> 2) & 15) + 3, (op & 3) << 8 | data[i]
        i += k
        if back >= len(out) or n > room - len(out):
            return None
        for _ in range(n):
            out.append(out[-1 - back])
    return out


def lzvn_data(data, room):
    out, i, back = [], 0, 0
    kinds = lzvn()
    args = {"DistanceLarge": 2, "DistanceMedium": 2, "DistanceSmall": 1, "LiteralLarge": 1, "MatchLarge": 1}
    while i < len(data) and len(out) < room:
        op = data[i]
        i += 1
        k = kinds[op]
        if k == "EndOfStream":
            break
        if k == "None":
            continue
        if k == "Invalid" or len(data) - i < args.get(k, 0):
            return None
        x = data[i:i + args.get(k, 0)]
        i += len(x)
        lit = op >> 6 if k in ("DistanceSmall", "DistanceLarge", "DistancePrevious") else 0
        n = ((op >> 3) & 7) + 3 if k in ("DistanceSmall", "DistanceLarge", "DistancePrevious") else 0
        if k == "DistanceSmall":
            back = (op & 7) << 8 | x[0]
        elif k == "DistanceLarge":
            back = x[1] << 8 | x[0]
        elif k == "DistanceMedium":
            lit, n, back = (op >> 3) & 3, ((op & 7) << 2 | x[0] & 3) + 3, (x[1] << 8 | x[0]) >> 2
        elif k == "LiteralSmall":
            lit = op & 15
        elif k == "LiteralLarge":
            lit = x[0] + 16
        elif k == "MatchSmall":
            n = op & 15
        elif k == "MatchLarge":
            n = x[0] + 16
        if lit > len(data) - i or lit > room - len(out):
            return None
        out += data[i:i + lit]
        i += lit
        if n:
            if back > len(out) or back == 0 or n > room - len(out):
                return None
            for _ in range(n):
                out.append(out[-back])
    return out


def lznt1(data, room):
    out, i = [], 0
    while i < len(data) and len(out) < room:
        if len(data) - i < 2:
            return None
        head = data[i] | data[i + 1] << 8
        i += 2
        if head == 0:
            break
        end = i + (head & 0xfff) + 1
        if not head & 0x8000:
            if end > len(data) or end - i > room - len(out):
                return None
            out += data[i:end]
            i = end
            continue
        block = len(out)
        while i < end:
            flags = data[i]
            i += 1
            for k in range(8):
                if i >= end:
                    break
                here = len(out) - block
                if not flags >> k & 1:
                    if len(out) >= room:
                        return None
                    out.append(data[i])
                    i += 1
                    continue
                if i + 2 > len(data):
                    return None
                x = data[i] | data[i + 1] << 8
                i += 2
                bits = max(4, (here - 1).bit_length()) if here else 4
                n, back = (x & (1 << 16 - bits) - 1) + 3, (x >> 16 - bits) + 1
                if back > here or n > room - len(out):
                    return None
                for _ in range(n):
                    out.append(out[-back])
    return out


def block(items):
    """a compressed LZNT1 block of literals (None) and matches (distance, size) in a block"""
    out, at = [], 0
    for g in range(0, len(items), 8):
        group = items[g:g + 8]
        out.append(sum(1 << k for k, x in enumerate(group) if x is not None))
        for x in group:
            if x is None:
                out.append(None)
                at += 1
            else:
                bits = max(4, (at - 1).bit_length()) if at else 4
                v = (x[0] - 1) << 16 - bits | x[1] - 3
                out += [v & 255, v >> 8]
                at += x[1]
    h = 0xb000 | len(out) - 1
    return [h & 255, h >> 8] + out


def letters(n):
    """literal bytes: any values"""
    return [None] * n


def streams(kind):
    """(description, data, sizes of the output): data of known instructions and unknown literals"""
    if kind == "adc":
        near = [0x83] + letters(4)
        far = [x for _ in range(7) for x in [0xff] + letters(128)]
        one = [(f"literals of {op - 0x7f}", [op] + letters(op - 0x7f)) for op in (0x80, 0x81, 0x8f, 0xbf, 0xc0, 0xff)]
        one += [("cut literals", [0x83] + letters(3)), ("no instruction", []), ("no history", [0x00, 0x00]), ("no history, long", [0x40, 0x00, 0x00]),
                ("cut match", near + [0x04]), ("cut long match", near + [0x44, 0x00]), ("cut long match", near + [0x44])]
        one += [(f"match 0x{op:02x} at {b}", near + [op, b]) for op in range(0, 64) for b in ((0, 3, 4) if op % 4 == 0 else (0,))]
        one += [(f"match 0x{op:02x} at {b}", near + [op, 0, b]) for op in range(64, 128) for b in ((0, 2, 3, 4) if op in (64, 127) else (op % 4,))]
        one += [(f"match 0x{op:02x} at {b} of much", far + [op, b]) for op, b in ((0x01, 0), (0x02, 1), (0x03, 127), (0x03, 128), (0x0b, 5))]
        one += [(f"match 0x{op:02x} at {a} {b} of much", far + [op, a, b]) for op, a, b in ((0x40, 1, 0), (0x41, 2, 255), (0x42, 3, 127), (0x43, 3, 128), (0x40, 0x80, 0), (0x40, 0xff, 0xff))]
        one += [("several", near + [0x00, 0x03] + [0x80] + letters(1) + [0x41, 0, 7] + [0x04, 0x00])]
        return [(w, d, n) for w, d in one for n in rooms(d, adc)]
    if kind == "lznt1":
        plain = lambda n: [n - 1 & 255, 0x30 | n - 1 >> 8] + letters(n)
        one = [("no block", []), ("end only", [0, 0]), ("cut header", [5]), ("cut second header", plain(3) + [5]), ("end and more", plain(3) + [0, 0, 7])]
        one += [(f"plain block of {n}", plain(n)) for n in (1, 2, 255, 256, 257, 600)] + [("cut plain block", plain(4)[:-1]), ("two plain blocks", plain(3) + plain(5) + [0, 0])]
        for n in (1, 2, 3, 8, 9, 15, 16, 17, 18, 31, 32, 33, 40, 64, 65, 100, 128, 129, 256, 257):
            most = (1 << 16 - max(4, (n - 1).bit_length())) + 2
            for back, size in ((1, 3), (n, 5), (n, n + 4), ((n + 1) // 2, 7)):
                one.append((f"match of {size} at {back} behind {n}", block([None] * n + [(back, size), None])))
            if n + 1 <= 1 << max(4, (n - 1).bit_length()):
                one.append((f"match at {n + 1} behind {n}", block([None] * n + [(n + 1, 3)])))
            if most < 1100:
                one.append((f"longest match behind {n}", block([None] * n + [(n, most)])))
        for n in (512, 513, 1024, 1025, 2048, 2049, 4090):
            fill = [None, (1, n - 9)] + [None] * 8
            one += [(f"match at {back} behind {n}", block(fill + [(back, 6), None])) for back in (1, 8, n)]
        one += [("match without history", block([(1, 3)])), ("cut match", block([None, (1, 3)])[:-1]), ("two blocks", block([None, None, (2, 9)]) + block([None, (1, 4), None]) + plain(2) + [0, 0]),
                ("match across blocks", block([None, None, None]) + block([None, (2, 3)]))]
        return [(w, d, n) for w, d in one for n in rooms(d, lznt1)]
    near = [0xe4] + letters(4)
    far = [x for _ in range(8) for x in [0xe0, 0xff] + letters(271)]
    end = [0x06] + [0] * 7
    args = {"DistanceLarge": 2, "DistanceMedium": 2, "DistanceSmall": 1, "LiteralLarge": 1, "MatchLarge": 1}
    one = [("no instruction", []), ("end only", end), ("nothing done", [0x0e, 0x16] + near + end)]
    for op, k in enumerate(lzvn()):
        n = args.get(k, 0)
        lit = op >> 6 if k in ("DistanceSmall", "DistanceLarge") else (op >> 3) & 3 if k == "DistanceMedium" else op & 15 if k == "LiteralSmall" else 0
        for b in (1, 4) if k.startswith("Distance") and op % 3 == 0 else (2,):
            x = [b] if k == "DistanceSmall" else [b, 0] if k == "DistanceLarge" else [b << 2 | op & 3, 0] if k == "DistanceMedium" else [b] if n else []
            if k == "LiteralLarge":
                lit = b + 16
            head = near + [0x00, 3] if k in ("DistancePrevious", "MatchSmall", "MatchLarge") else near
            if k == "DistancePrevious":
                lit = op >> 6
            one.append((f"instruction 0x{op:02x} with {x}", head + [op] + x + letters(lit) + end))
            if op % 16 in (6, 7, 8) or k in ("LiteralLarge", "MatchLarge"):
                one.append((f"cut instruction 0x{op:02x}", head + ([op] + x + letters(lit))[:-1]))
    one += [(f"distance {d} of {op}", near + d + end) for op, d in (("small", [0x00, 5]), ("medium", [0xa0, 20, 0]), ("large", [0x07, 5, 0]), ("small, literals", [0x40, 5, None]), ("small, literals", [0x40, 6, None]))]
    one += [(f"distance {d} of much", far + d + end) for d in ([0x01, 0], [0x07, 0, 8], [0x07, 0x78, 8], [0x07, 0x79, 8], [0xa3, 3, 4], [0xbf, 0xff, 33, None, None, None], [0x04, 0xff])]
    one += [(f"no distance, {op}", near + d + end) for op, d in (("small", [0x00, 0]), ("medium", [0xa0, 0, 0]), ("large", [0x07, 0, 0]), ("previous", [0x46, None]), ("match", [0xf3]), ("large match", [0xf0, 1]))]
    one += [("several", near + [0x88, 4] + letters(2) + [0x46] + letters(1) + [0xf3] + [0xe1] + letters(1) + [0xf0, 1] + [0x3e] + end)]
    return [(w, d, n) for w, d in one for n in rooms(d, lzvn_data)]


def rooms(data, decode):
    """sizes of the output: more than needed, just enough, one too few"""
    want = decode([0 if x is None else x for x in data], 1 << 20)
    if want is None:
        return [400 if len(data) < 100 else 3000]
    n = len(want)
    return [n + 3, n] + ([n - 1] if n else [])


def z13(ctx):
    prog = ctx.program(CRATES)
    models = formats.stubs(prog)
    fs = {}
    for f in prog.fns.values():
        if f.crate == "keramics_compression" and not f.closure:
            for k, name in (("adc", "adc::AdcContext::decompress"), ("lzvn", "lzvn::LzvnContext::decompress"), ("lznt1", "lznt1::Lznt1Context::decompress")):
                if f.def_.endswith(name):
                    fs[k] = f
    tasks = []
    for k in sorted(fs):
        all_ = streams(k)
        tasks += [(k, all_[i:i + 40]) for i in range(0, len(all_), 40)]

    def work(r, t):
        kind, some = t
        f = fs[kind]
        for what, data, room in some:
            terms = tuple(T.sym(f"literal{i}", 0, 255) if x is None else T.const(x) for i, x in enumerate(data))
            marks = tuple(T.sym(f"before{i}", 0, 255) for i in range(room))

            def mk(env):
                def setup(a):
                    a.args[1] = slice_arg(a.e, "compressed", T.const(len(terms)), f.locals[2].t.t)
                    a.args[2] = slice_arg(a.e, "uncompressed", T.const(room), f.locals[3].t.t)
                    st = a.st.copy()
                    st.mem[("S", "compressed.*")] = Arr(terms)
                    st.mem[("S", "uncompressed.*")] = Arr(marks)
                    return st
                return Ana(prog, f, setup=setup, env=env, extra_models=dict(models), unroll_max=10000, unroll_nonconst=10000, max_steps=4000000, attrs={"fork": True})

            # literals are unknown: instructions are known, so the decoder may carry them along
            want = {"adc": adc, "lzvn": lzvn_data, "lznt1": lznt1}[kind]([t.k if not t.t else t for t in terms], room)

            def observe(a, ret, st):
                k = formats.reached(a, ret, st)
                if k is None:
                    return [("open", "result not known")]
                if want is None:
                    return [("true", "", T.TRUE)] if k == 0 else [("never", "invalid data is accepted")]
                if k == 0:
                    return [("never", "valid data is refused")]
                j = field(f.locals[1].t, "uncompressed_data_size")
                got = a.e.as_int(a.e.load(st, a.args[0].o, a.args[0].p + (j,)))
                out = [("eq", "size of the uncompressed data", got, T.const(len(want)))]
                for i in range(room):
                    x = a.e.as_int(M.win_get(a.e, st, a.args[2], T.const(i)))
                    out.append(("eq", "uncompressed data" if i < len(want) else "data behind the uncompressed data", x, want[i] if i < len(want) and not isinstance(want[i], int) else T.const(want[i]) if i < len(want) else marks[i]))
                return out
            r.count("streams")
            lib.judge(r, "stream", f"{kind} {what}, output of {room} bytes", mk, observe, abort="decompress-abort")
    ctx.parallel(work, tasks, timeout=600)
    ctx.floor("streams", 600)
    ctx.assumptions = ["Debugging text is not followed (L10).", "The instructions of a stream are given; its literals and the output's earlier content are unknown."]
    ctx.explanation = ("Abstract interpretation of the ADC, LZNT1 and LZVN decompressors on streams of given instructions: every opcode of ADC and LZVN, LZNT1 matches at every width of the tuple, "
                       "near and far distances, self-overlapping matches, several instructions, blocks, cut streams; each in an output with room to spare, that just fits and that is a byte too small.")
    ctx.rule_text = ("stream: decompressing a valid stream succeeds with the number of bytes and the literal at each place that the format describes, and leaves the rest of the output alone; an invalid "
                     "stream is an error. decompress-abort: no abort is reachable on any of them.")
