"""The analysed program: MIR dumps of the workspace crates."""
import json
import os


class Ty:
    __slots__ = ("s", "k", "w", "sg", "m", "t", "n", "ts", "p", "ak", "ga", "vs", "key", "d", "sz")

    def __repr__(self):
        return self.s

    @property
    def is_int(self):
        return self.k == "int"

    @property
    def rng(self):
        if self.k == "int":
            if self.sg:
                return -(1 << (self.w - 1)), (1 << (self.w - 1)) - 1
            return 0, (1 << self.w) - 1
        if self.k == "bool":
            return 0, 1
        if self.k == "char":
            return 0, 0x10FFFF
        return None


class Fn:
    __slots__ = ("key", "def_", "crate", "local", "generic", "file", "line", "nargs", "closure", "self_", "trait",
                 "tm", "name", "vis", "parent", "locals", "names", "blocks", "_cfg", "raw")

    def __repr__(self):
        return self.key


class Program:
    def __init__(self, dump_dir, crates=None):
        self.dir = dump_dir
        self.types = {}          # by string
        self.fns = {}            # by key
        self.consts = {}         # name -> (Ty, raw)
        self.impls = []          # (trait, self string, {trait method: key})
        self.statics = []
        self.unsafe = []
        self.crates = []
        self._cv = {}
        self._by_def = {}
        for f in sorted(os.listdir(dump_dir)):
            if f.endswith(".json") and not f.startswith("."):
                c = f[:-5]
                if crates is None or c in crates:
                    self._load(c)
        self.vt = {}
        for tr, st, ms in self.impls:
            for tm, key in ms.items():
                self.vt[(tm, st)] = key

    def _load(self, crate):
        with open(os.path.join(self.dir, crate + ".json")) as fh:
            d = json.load(fh)
        self.crates.append(crate)
        tys = []
        raw = d["types"]
        fresh = []
        for r in raw:
            s = r["s"]
            t = self.types.get(s)
            if t is None or (t.k == "adt" and not t.vs and r.get("vs")):
                t = Ty()
                t.s = s
                t.k = r["k"]
                t.vs = True if r.get("vs") else None
                self.types[s] = t
                fresh.append((t, r))
            tys.append(t)
        for t, r in fresh:
            t.w = r.get("w")
            t.sg = r.get("sg")
            t.m = r.get("m")
            t.sz = r.get("sz")
            t.n = r.get("n")
            t.p = r.get("p")
            t.ak = r.get("ak")
            t.d = r.get("d")
            t.key = r.get("key")
            t.t = tys[r["t"]] if "t" in r else None
            t.ts = [tys[i] for i in r["ts"]] if "ts" in r else None
            t.ga = [tys[i] for i in r["ga"]] if "ga" in r else None
            t.vs = [(v[0], v[1], [(f[0], tys[f[1]]) for f in v[2]]) for v in r["vs"]] if "vs" in r else None
        for name, ti, v in d["consts"]:
            if name not in self.consts:
                self.consts[name] = (tys[ti], v)
        for i in d["impls"]:
            self.impls.append((i["trait"], i["self"], {m[0]: m[1] for m in i["methods"]}))
        for s in d["statics"]:
            s["crate"] = crate
            self.statics.append(s)
        for x in d["unsafe"]:
            self.unsafe.append((crate, x[0], x[1]))
        for r in d["fns"]:
            old = self.fns.get(r["key"])
            if old is not None and not (r["local"] and not old.local):
                continue
            f = Fn()
            f.key = r["key"]
            f.def_ = r["def"]
            f.crate = r["crate"]
            f.local = r["local"]
            f.generic = r["generic"]
            f.file = r["file"]
            f.line = r["line"]
            f.nargs = r["args"]
            f.closure = r.get("closure", False)
            f.self_ = r.get("self")
            f.trait = r.get("trait")
            f.tm = r.get("tm")
            f.name = r.get("name")
            f.vis = r.get("vis")
            f.parent = r.get("parent")
            f.locals = [tys[i] for i in r["locals"]]
            f.names = {}
            for l, n in r["names"]:
                f.names.setdefault(l, n)
            f.blocks = [self._block(b, tys) for b in r["blocks"]]
            f._cfg = None
            f.raw = None
            self.fns[f.key] = f

    # resolve type indices inside a block
    def _block(self, b, tys):
        return {
            "s": [self._stmt(x, tys) for x in b["s"]],
            "t": self._term(b["t"], tys),
            "l": b["l"],
            "m": b.get("m"),
            "c": b.get("c", False),
        }

    def _place(self, p, tys):
        return (p[0], tuple(("f", e[1], tys[e[2]]) if e[0] == "f" else tuple(e) for e in p[1]))

    def _const(self, c, tys):
        return {"t": tys[c["t"]], "n": c.get("n"), "v": c.get("v")}

    def _op(self, o, tys):
        k = o[0]
        if k in ("cp", "mv"):
            return (k, self._place(o[1], tys))
        if k == "k":
            return ("k", self._const(o[1], tys))
        return tuple(o)

    def _stmt(self, s, tys):
        k = s[0]
        if k == "=":
            return ("=", self._place(s[1], tys), self._rv(s[2], tys), s[3])
        if k == "sd":
            return ("sd", self._place(s[1], tys), s[2], s[3])
        if k == "assume":
            return ("assume", self._op(s[1], tys))
        if k == "cno":
            return ("cno", self._op(s[1], tys), self._op(s[2], tys), self._op(s[3], tys))
        return tuple(s)

    def _rv(self, r, tys):
        k = r[0]
        if k == "use":
            return ("use", self._op(r[1], tys))
        if k == "rep":
            return ("rep", self._op(r[1], tys), r[2])
        if k == "ref":
            return ("ref", r[1], self._place(r[2], tys))
        if k == "addr":
            return ("addr", r[1], self._place(r[2], tys))
        if k == "reborrow":
            return ("ref", "reborrow", self._place(r[1], tys))
        if k == "cast":
            return ("cast", r[1], self._op(r[2], tys), tys[r[3]])
        if k == "bin":
            return ("bin", r[1], self._op(r[2], tys), self._op(r[3], tys))
        if k == "un":
            return ("un", r[1], self._op(r[2], tys))
        if k == "disc":
            return ("disc", self._place(r[1], tys))
        if k == "agg":
            return ("agg", tuple(r[1]), [self._op(o, tys) for o in r[2]])
        return tuple(r)

    def _callee(self, c, tys):
        c = dict(c)
        if "ga" in c:
            c["ga"] = [tys[i] for i in c["ga"]]
        if "op" in c:
            c["op"] = self._op(c["op"], tys)
        return c

    def _term(self, t, tys):
        k = t[0]
        if k == "switch":
            return ("switch", self._op(t[1], tys), tys[t[2]], [(v, b) for v, b in t[3]], t[4])
        if k == "drop":
            return ("drop", self._place(t[1], tys), t[2], t[3], tys[t[4]])
        if k == "call":
            return ("call", self._callee(t[1], tys), [self._op(a, tys) for a in t[2]], self._place(t[3], tys), t[4], t[5])
        if k == "assert":
            return ("assert", self._op(t[1], tys), t[2], t[3], [self._op(a, tys) for a in t[4]], t[5], t[6])
        return tuple(t)

    # -------------------------------------------------------------- lookups
    def find(self, suffix):
        """functions whose key equals or ends with ::suffix"""
        return [f for k, f in self.fns.items() if k == suffix or k.endswith("::" + suffix)]

    def fn(self, key):
        return self.fns.get(key)

    def by_def(self, d):
        if not self._by_def:
            for f in self.fns.values():
                self._by_def.setdefault(f.def_, []).append(f)
        return self._by_def.get(d, [])

    def successors(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return list(dict.fromkeys([b for _, b in t[3]] + [t[4]]))
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    def cfg(self, f):
        if f._cfg is None:
            f._cfg = Cfg(self, f)
        return f._cfg


class Cfg:
    """normal-flow control flow graph: RPO, dominators, natural loops, liveness"""

    def __init__(self, prog, f):
        n = len(f.blocks)
        self.succ = [prog.successors(b["t"]) for b in f.blocks]
        self.pred = [[] for _ in range(n)]
        order = []
        seen = [False] * n
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        self.idx = {b: i for i, b in enumerate(order)}
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self.idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in self.pred[b]:
                    if p in self.idom:
                        new = p if new is None else self._isect(p, new)
                if new is not None and self.idom.get(b) != new:
                    self.idom[b] = new
                    changed = True
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(self.pred[x])
        # address-taken locals
        self.addr = set()
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "addr"):
                    p = s[2][2]
                    if not p[1] or p[1][0][0] != "d":
                        self.addr.add(p[0])
        self._live(f)

    def _isect(self, a, b):
        while a != b:
            while self.idx[a] > self.idx[b]:
                a = self.idom[a]
            while self.idx[b] > self.idx[a]:
                b = self.idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def _live(self, f):
        use = {}
        for b in self.rpo:
            blk = f.blocks[b]
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def place_r(p):
                rd(p[0])
                for e in p[1]:
                    if e[0] == "i":
                        rd(e[1])

            def place_w(p):
                if p[1]:
                    place_r(p)
                else:
                    d.add(p[0])

            def op(o):
                if o[0] in ("cp", "mv"):
                    place_r(o[1])

            for s in blk["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("use", "rep", "un", "cast"):
                        op(r[2] if k in ("un", "cast") else r[1])
                    elif k == "bin":
                        op(r[2])
                        op(r[3])
                    elif k in ("ref", "addr"):
                        place_r(r[2])
                    elif k == "disc":
                        place_r(r[1])
                    elif k == "agg":
                        for o in r[2]:
                            op(o)
                    place_w(s[1])
                elif s[0] == "sd":
                    place_r(s[1])
                elif s[0] == "assume":
                    op(s[1])
                elif s[0] == "cno":
                    for o in s[1:4]:
                        op(o)
                elif s[0] in ("sl", "sx"):
                    d.add(s[1])
            t = blk["t"]
            if t[0] == "switch":
                op(t[1])
            elif t[0] == "drop":
                pass
            elif t[0] == "call":
                if t[1].get("op"):
                    op(t[1]["op"])
                for a in t[2]:
                    op(a)
                place_w(t[3])
            elif t[0] == "assert":
                op(t[1])
                for a in t[4]:
                    op(a)
            elif t[0] == "ret":
                rd(0)
            use[b] = (u, d)
        self.live_in = {b: set() for b in self.rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= self.live_in[s]
                u, d = use[b]
                n = u | (out - d)
                if n != self.live_in[b]:
                    self.live_in[b] = n
                    changed = True
