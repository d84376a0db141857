"""Shared helpers of the property checks."""
import multiprocessing
import random
import re
import time

from kv import engine as E, terms as T
from kv.engine import Agg, Arr, SArr, VecV, Ref, Sym, TabV, DEnum, State, Engine

_num = re.compile(r"(~|#|loop|@)\d+(@\w+)?")


def norm(s):
    """detail text without run-dependent numbering"""
    return _num.sub(lambda m: m.group(1), str(s))[:240]


class Ana:
    """one abstract run of one function"""

    def __init__(self, prog, fn, args=None, st=None, setup=None, **kw):
        models = kw.pop("extra_models", None)
        attrs = kw.pop("attrs", None)
        kw_env = kw.pop("env", None)
        self.prog = prog
        self.fn = fn
        self.e = e = Engine(prog, **kw)
        if attrs:
            for k, v in attrs.items():
                setattr(e, k, v)
        if models:
            e.extra_models.update(models)
        self.st = st or State()
        if args is None:
            args = [e.mk_sym(fn.locals[i + 1], arg_name(fn, i)) for i in range(fn.nargs)]
        self.args = args
        env = kw_env
        if setup:
            r = setup(self)
            if r is not None:
                self.st = r
        if env:
            self.st = env_facts(self.st, env)
            if self.st is None:
                self.st = State()
                self.args_in = self.args
                self.outs = None
                self.error = "contradictory input"
                return
        self.args_in = self.args
        self.error = None
        try:
            self.outs = e.run(fn, self.args, self.st)
        except (E.Unsupported, E.Budget) as ex:
            self.outs = None
            self.error = f"{type(ex).__name__}: {ex}"
        except RecursionError:
            self.outs = None
            self.error = "recursion limit"

    @property
    def alarms(self):
        return self.e.alarms

    @property
    def precise(self):
        """nothing was havoced or skipped, so every reported path is a path of the program"""
        return self.error is None and not self.e.unsupported and not self.e.opaque


def arg_name(fn, i):
    if isinstance(fn.names, dict):
        return fn.names.get(i + 1, f"a{i}")
    return f"a{i}"


def assume(st, *bs):
    f = st.facts
    for b in bs:
        f = f.assume(b)
        if f is None:
            return None
    return st.with_facts(f)


def possible(st, *bs):
    s = assume(st, *bs)
    return s is not None and s.facts.feasible()


def equal(st, a, b):
    """provably the same number on this path"""
    if a == b:
        return True
    d = T.sub(a, b)
    if st.facts.truth(T.eq(d)) is True:
        return True
    return separable_zero(st, d) or by_cases(st.facts, a, b)


def resolve(f, x, memo, conds):
    """the term under the path facts: decided choices taken, determined parts replaced; the conditions of
    choices that stay open are collected"""
    out = T.const(x.k)
    for a, c in x.t:
        y = memo.get(a)
        if y is None:
            y = memo[a] = resolve_atom(f, a, memo, conds)
        out = T.add(out, T.scale(y, c))
    return out


def resolve_b(f, b, memo, conds):
    """the condition with its terms resolved"""
    if b.op in ("le", "eq", "ne"):
        x = resolve(f, b.x, memo, conds)
        if x is b.x or x == b.x:
            return b
        return T.le(x) if b.op == "le" else T.eq(x) if b.op == "eq" else T.b_not(T.eq(x))
    if b.op in ("and", "or", "xor"):
        x, y = resolve_b(f, b.x, memo, conds), resolve_b(f, b.y, memo, conds)
        return {"and": T.b_and, "or": T.b_or, "xor": T.b_xor}[b.op](x, y)
    return b


def resolve_atom(f, a, memo, conds):
    d = f.domain(a)
    if len(d) == 1 and d[0][0] == d[0][1]:
        return T.const(d[0][0])
    k = a.kind
    if k == "ite":
        c, x, y = a.args
        t = f.truth(c)
        if t is None:
            c = resolve_b(f, c, memo, conds)
            t = f.truth(c)
        if t is None:
            if c not in conds:
                conds.append(c)
            return T.ite(c, resolve(f, x, memo, conds), resolve(f, y, memo, conds))
        return resolve(f, x if t else y, memo, conds)
    if k in ("div", "mod"):
        x = resolve(f, a.args[0], memo, conds)
        return (T.fdiv if k == "div" else T.fmod)(x, a.args[1], f.rng(x))
    if k == "bits":
        x = resolve(f, a.args[0], memo, conds)
        return T.bits(x, a.args[1], a.args[2], f.rng(x))
    if k == "mul":
        return T.mul(resolve(f, a.args[0], memo, conds), resolve(f, a.args[1], memo, conds))
    if k == "tab" and isinstance(a.args[1], T.Lin):
        x = resolve(f, a.args[1], memo, conds)
        if x != a.args[1]:
            return T.table(a.args[0], x)
    return T.of(a)


def by_cases(f, a, b, depth=8):
    """the same number in each case of the choices inside the two terms"""
    conds = []
    memo = {}
    x, y = resolve(f, a, memo, conds), resolve(f, b, memo, conds)
    d = T.sub(x, y)
    if not d.t:
        return d.k == 0
    if f.truth(T.eq(d)) is True:
        return True
    if not conds or not depth:
        return False
    ls = []
    for c in conds:
        leaves(c, ls)
    for c in ls:
        if f.truth(c) is None:
            for h in (c, T.b_not(c)):
                g = f.assume(h)
                if g is not None and g.feasible() and not by_cases(g, x, y, depth - 1):
                    return False
            return True
    return False


def separable_zero(st, d, limit=4096):
    """is d identically zero because it is a sum of functions of one small-domain symbol each, every one
    of them constant on its domain"""
    groups = {}
    for a, c in d.t:
        ds = T.atom_deps(a)
        if len(ds) != 1:
            return False
        x = next(iter(ds))
        groups.setdefault(x, []).append((a, c))
    tot = d.k
    for x, ts in groups.items():
        dom = st.facts.domain(x)
        if sum(hi - lo + 1 for lo, hi in dom) > limit:
            return False
        val = None
        for lo, hi in dom:
            for v in range(lo, hi + 1):
                env = {x: v}
                try:
                    w = sum(c * T.ev_atom(a, env) for a, c in ts)
                except T.NoEval:
                    return False
                if val is None:
                    val = w
                elif val != w:
                    return False
        tot += val
    return tot == 0


def base_atoms(objs):
    out = set()
    for x in objs:
        if isinstance(x, T.Lin):
            out |= T.lin_deps(x)
        elif isinstance(x, T.B):
            out |= T.b_deps(x)
    return out


def facts_bools(f):
    """every constraint recorded in a Facts object, as booleans over atoms"""
    out = []
    for l in f.lins:
        out.append(T.le(l))
    return out


def draw(rnd, d, mode):
    lo, hi = d[rnd.randrange(len(d))]
    if mode == "lo":
        return d[0][0]
    if mode == "hi":
        return d[-1][1]
    if mode == "bit" and hi > 2:
        v = 1 << rnd.randrange(hi.bit_length())
        return v if lo <= v <= hi else lo
    if mode == "notbit" and hi > 2:
        v = hi ^ (1 << rnd.randrange(hi.bit_length()))
        return v if lo <= v <= hi else hi
    if mode == "edge":
        return max(lo, min(hi, rnd.choice([lo, lo + 1, lo + 2, hi, hi - 1, hi // 2, hi // 2 + 1])))
    if mode == "small":
        return min(hi, lo + rnd.randrange(0, 40))
    return rnd.randint(lo, hi) if hi - lo < (1 << 70) else lo + rnd.getrandbits(60)


MODES = ("any", "lo", "lo", "hi", "bit", "bit", "notbit", "edge", "small")


LIMIT = [float("inf")]      # the search for a failing input ends then (what is not refuted is undecided)
SEARCH_S = 60               # for one obligation
TOTAL_S = 300               # in all worker processes; later obligations get a short search
SPENT = multiprocessing.Value("d", 0.0)


class searching:
    """bounds the time of the searches for failing inputs made inside"""
    def __enter__(self):
        self.t = time.time()
        LIMIT[0] = self.t + (SEARCH_S if SPENT.value < TOTAL_S else 0.4)

    def __exit__(self, *x):
        with SPENT.get_lock():
            SPENT.value += time.time() - self.t


def samples(f, atoms, n=24, seed=1, need=None, tries=None):
    """valuations of the base atoms consistent with the path facts (checked by evaluation)"""
    rnd = random.Random(seed)
    atoms = sorted(atoms, key=lambda a: a.id)
    res = []
    seen = set()
    tries = tries or n * 12
    lins = list(f.lins)
    nes = list(f.nes)
    derived = [(a, d) for a, d in f.dom.items() if a not in atoms]
    t = vain = 0
    while len(res) < n and t < tries:
        t += 1
        if not t & 15 and time.time() > LIMIT[0]:
            break
        main = rnd.choice(MODES)
        odd = rnd.choice((0, 1, 1, 2, 3, len(atoms)))
        change = set(rnd.sample(range(len(atoms)), min(odd, len(atoms))))
        env = {}
        g = f
        for k, a in enumerate(atoms):
            m = rnd.choice(MODES) if k in change else main
            env[a] = draw(rnd, f.domain(a), m)
        if not _fits(env, lins, nes, derived):
            if t % 8 and t > 40:
                continue
            # repair: fix one symbol after the other, each inside what the facts leave
            order = list(atoms)
            rnd.shuffle(order)
            env = {}
            ok = True
            for a in order:
                m = rnd.choice((main, "any", "lo", "hi", "small"))
                for attempt in range(3):
                    v = draw(rnd, g.domain(a), m if attempt == 0 else "any" if attempt == 1 else "lo")
                    h = g.assume(T.eq(T.addk(T.of(a), -v)))
                    if h is not None:
                        g = h
                        env[a] = v
                        break
                else:
                    ok = False
                    break
            if not ok or not _fits(env, lins, nes, derived):
                continue
        key = tuple(env[a] for a in atoms)
        if key in seen:
            continue
        seen.add(key)
        if need is not None and not need(env):
            vain += 1
            if vain > 200 and not res:
                break       # most likely it holds and is only not proved
            continue
        res.append(env)
    return res


def _fits(env, lins, nes, derived):
    for l in lins:
        try:
            if T.ev(l, env) > 0:
                return False
        except T.NoEval:
            pass
    for l in nes:
        try:
            if T.ev(l, env) == 0:
                return False
        except T.NoEval:
            pass
    for a, d in derived:
        try:
            v = T.ev_atom(a, env)
        except T.NoEval:
            continue
        if not any(lo <= v <= hi for lo, hi in d):
            return False
    return True


def settled_len(st, ln):
    if ln.t:
        lo, hi = st.facts.rng(ln)
        if lo == hi:
            return T.const(lo)
    return ln


def vec_terms(e, st, v, n=None):
    """the element terms of a sequence value of constant length"""
    if isinstance(v, Ref):
        if v.m and v.m[0] == "s":
            ln = settled_len(st, v.m[2])
            if ln.t:
                return None
            from kv import models as M
            return [M.win_get(e, st, v, T.const(i)) for i in range(ln.k)]
        v = e.load(st, v.o, v.p)
    if isinstance(v, VecV):
        v = v.s
    ln = settled_len(st, e.seq_len(v))
    if ln.t:
        return None
    return [e.seq_get(st, v, T.const(i)) for i in range(ln.k)]


def variant(v):
    """(variant index, fields) of an enum value"""
    if isinstance(v, Agg) and isinstance(v.v, int):
        return v.v, v.f
    return None, None


# ------------------------------------------------------------------ judging with confirmation

def sym_atoms(objs):
    """the input symbols terms, booleans and facts are made of"""
    out = set()
    for x in objs:
        if isinstance(x, T.Lin):
            out |= T.lin_deps(x)
        elif isinstance(x, T.B):
            out |= T.b_deps(x)
        elif x is not None and hasattr(x, "dom"):
            for a in x.dom:
                out |= T.atom_deps(a)
            for l in x.lins:
                out |= T.lin_deps(l)
            for l in x.nes:
                out |= T.lin_deps(l)
    return {a for a in out if a.kind == "sym" or (a.kind == "sel" and not a.args[1].t)}


def input_atom(a):
    """symbols introduced by the analysis itself (joins, loop generalisation, havoc) are no inputs"""
    n = a.args[0] if a.args and isinstance(a.args[0], str) else str(a)
    return not ("~" in n or "loop" in n.split("@")[0] and "@" in n or "#" in n or n.startswith("?"))


def env_facts(st, env):
    f = st.facts
    for a, v in env.items():
        f = f.assume(T.eq(T.addk(T.of(a), -v)))
        if f is None:
            return None
    return st.with_facts(f)


def definite(a):
    """the run followed one fully determined input without losing track of anything"""
    return a.error is None and not a.e.unsupported and not a.e.opaque


def alarm_text(al):
    d = str(al.detail).split(" not excluded")[0].split(": requires")[0]
    return d if d.startswith(al.kind.replace("panic:", "")) else f"{al.kind.replace('panic:', '')}: {norm(d)}"


def confirm_alarm(mk, al, n=12):
    for k, f in enumerate(al.alts):
        atoms = {x for x in sym_atoms([f]) if input_atom(x)}
        for env in samples(f, atoms, n=max(2, n // len(al.alts)), seed=k + 1):
            b = mk(env)
            if b is None:
                continue
            hit = [x for x in b.alarms if x.fn == al.fn and x.kind == al.kind]
            if hit and definite(b) and not (b.outs or []):
                return env
            if hit and all(x.facts is not None and not T_open(x) for x in hit):
                return env
    return None


def T_open(al):
    """does the alarm of a re-run still depend on something unknown"""
    return "requires" in str(al.detail) and "False" not in str(al.detail).split("requires")[1]


def show_env(env, limit=10):
    xs = sorted(env.items(), key=lambda kv: str(kv[0]))
    return ", ".join(f"{a}={v}" for a, v in xs[:limit]) + (", ..." if len(xs) > limit else "")


def judge(r, rule, site, mk, observe, abort=None, strict=True, want_outs=True, done="as specified"):
    """mk(env) analyses the function with the given inputs fixed (none: all inputs at once);
    observe(ana, ret, st) lists what must hold on a path:
      ("eq", what, got, want)   two numbers are equal
      ("true", what, cond)      a condition holds
      ("never", what)           the path must not exist
      ("open", what)            the path's outcome is not known to the analysis
    A failing obligation becomes a violation when an input is found for which the determined run
    fails too; otherwise it is reported as undecided."""
    a = mk({})
    if a is None:
        r.undecided(rule, site, "no such input")
        return None
    r.functions |= set(a.e.functions)
    if abort:
        judge_alarms(r, abort, a, mk, strict=strict, site=site)
    if a.error:
        r.undecided(rule, site, a.error)
        return a
    for k in a.e.unsupported:
        r.undecided(rule, site, f"construct outside the analysed fragment in {k[0]}: {k[1]}"[:200])
    if not a.outs and want_outs and not a.alarms:
        r.undecided(rule, site, "no outcome")
        return a
    fails = {}
    n = 0
    for ret, st in a.outs:
        if not st.facts.feasible():
            continue
        for o in observe(a, ret, st):
            n += 1
            if holds(st, o):
                continue
            if o[0] == "never" and not st.facts.feasible():
                continue
            fails.setdefault(o[1], []).append((st, o))
    for what, xs in fails.items():
        if what in [o[1] for o in ()]:
            continue
        env = None
        with searching():
            for st, o in xs[:6]:
                if time.time() > LIMIT[0]:
                    break
                env = refute(mk, observe, st, o, what)
                if env is not None:
                    break
        if env is not None:
            r.bad(rule, site, what, f"for {show_env(env[0])}: {env[1]}")
        else:
            st, o = xs[0]
            r.undecided(rule, site, f"{what}: not proved" + (f": {T.show(o[2])[:80]} = {T.show(o[3])[:80]}" if o[0] == "eq" else ""))
    if n and not fails:
        r.ok(rule, site, done)
    return a


def fixed_of(st):
    return {a: d[0][0] for a, d in st.facts.dom.items() if a.kind in ("sym", "sel") and len(d) == 1 and d[0][0] == d[0][1]}


def settle(x, fixed):
    """the term with everything that the fixed symbols determine replaced by its value"""
    if not fixed or not isinstance(x, T.Lin):
        return x
    out = T.const(x.k)
    for a, c in x.t:
        try:
            y = T.const(T.ev_atom(a, fixed))
        except T.NoEval:
            y = T.of(a)
            if a.kind == "sel" and a.args[1].t:
                i = settle(a.args[1], fixed)
                if not i.t:
                    y = T.of(T.atom("sel", (a.args[0], i), a.lo, a.hi))
                    try:
                        y = T.const(T.ev(y, fixed))
                    except T.NoEval:
                        pass
        out = T.add(out, T.scale(y, c))
    return out


def settled(st, o):
    if o[0] != "eq":
        return o
    fx = fixed_of(st)
    return (o[0], o[1]) + tuple(settle(x, fx) for x in o[2:])


def holds(st, o):
    if o[0] == "eq":
        if o[2] is None or o[3] is None:
            return False
        if isinstance(o[2], T.B) or isinstance(o[3], T.B):
            return o[2] == o[3] or st.facts.truth(T.b_xor(o[2], o[3])) is False
        return equal(st, o[2], o[3])
    if o[0] == "true":
        return proved(st.facts, o[2])
    return False


def leaves(b, out):
    if b.op in ("and", "or", "xor"):
        leaves(b.x, out)
        leaves(b.y, out)
    elif b not in out:
        out.append(b)
    return out


def proved(f, b, depth=14):
    """the condition holds on the path, if need be by cases of its comparisons"""
    t = f.truth(b)
    if t is not None:
        return t
    conds = []
    c = resolve_b(f, b, {}, conds)
    if c != b:
        t = f.truth(c)
        if t is not None:
            return t
        b = c
    if depth and conds:
        ls = []
        for c in conds:
            leaves(c, ls)
        for l in ls:
            if f.truth(l) is None:
                for c in (l, T.b_not(l)):
                    g = f.assume(c)
                    if g is not None and g.feasible() and not proved(g, b, depth - 1):
                        return False
                return True
    if depth and b.op in ("and", "or", "xor"):
        for l in leaves(b, []):
            if f.truth(l) is None:
                for c in (l, T.b_not(l)):
                    g = f.assume(c)
                    if g is not None and g.feasible() and not proved(g, b, depth - 1):
                        return False
                return True
    return not f.feasible()


def fails_definitely(st, o):
    if o[0] == "never":
        return True
    if o[0] == "eq":
        if o[2] is None or o[3] is None:
            return False
        if isinstance(o[2], T.B) or isinstance(o[3], T.B):
            return st.facts.truth(T.b_xor(o[2], o[3])) is True
        return st.facts.truth(T.eq(T.sub(o[2], o[3]))) is False
    if o[0] == "true":
        return st.facts.truth(o[2]) is False
    return False


def refute(mk, observe, st, o, what, given=None, depth=0):
    """an input for which the obligation definitely fails: (input, detail), or None"""
    f = st.facts
    if o[0] == "true":
        f = f.assume(T.b_not(o[2])) or f
    objs = [f] + [x for x in o[2:] if isinstance(x, (T.Lin, T.B))]
    atoms = {x for x in sym_atoms(objs) if input_atom(x)}
    open_sel = any(x.kind == "sel" and x.args[1].t for y in objs for x in all_atoms(y))
    if open_sel and depth < 2:
        # elements at unknown positions: fix the positions first
        atoms = {x for x in atoms if x.kind == "sym"}

    def need(env):
        try:
            if o[0] == "eq" and isinstance(o[2], T.Lin) and isinstance(o[3], T.Lin):
                return T.ev(o[2], env) != T.ev(o[3], env)
            if o[0] == "eq" and isinstance(o[2], T.B) and isinstance(o[3], T.B):
                return T.ev_b(o[2], env) != T.ev_b(o[3], env)
            if o[0] == "true":
                return not T.ev_b(o[2], env)
        except T.NoEval:
            pass
        return True
    for env in samples(f, atoms, n=5, seed=3 + depth, need=need, tries=6000):
        env = dict(given or {}, **{}) | env
        b = mk(env)
        if b is None or not definite(b) or not b.outs:
            continue
        bad = None
        maybe = None
        some = None
        for ret, st2 in b.outs:
            if not st2.facts.feasible():
                continue
            os_ = observe(b, ret, st2)
            os_ = [settled(st2, y) for y in os_]
            x = [y for y in os_ if fails_definitely(st2, y)]
            if x:
                bad = x[0]
                some = some or (st2, bad)
            elif maybe is None:
                maybe = [(st2, y) for y in os_ if not holds(st2, y)]
        if maybe is not None:
            # an outcome that is right or open: its input differs in what is not fixed yet
            bad = None
            maybe = maybe or ([some] if some else [])
        if bad is not None:
            d = ""
            if bad[0] == "eq" and isinstance(bad[2], T.Lin):
                d = f"{T.show(bad[2])[:60]} instead of {T.show(bad[3])[:60]}"
            return env, d
        if maybe and depth < 2:
            w = refute(mk, observe, maybe[0][0], maybe[0][1], what, env, depth + 1)
            if w is not None:
                return w
    return None


def all_atoms(x, out=None):
    """every atom inside a term, boolean or fact set"""
    out = set() if out is None else out
    if isinstance(x, T.Lin):
        for a, _ in x.t:
            if a not in out:
                out.add(a)
                for y in a.args:
                    all_atoms(y, out)
    elif isinstance(x, T.B):
        if x.op in ("le", "eq", "ne"):
            all_atoms(x.x, out)
        elif x.op in ("and", "or", "xor"):
            all_atoms(x.x, out)
            all_atoms(x.y, out)
    elif isinstance(x, tuple) and len(x) < 12:
        for y in x:
            all_atoms(y, out)
    elif hasattr(x, "dom"):
        for a in x.dom:
            if a not in out:
                out.add(a)
                for y in a.args:
                    all_atoms(y, out)
        for l in x.lins:
            all_atoms(l, out)
        for l in x.nes:
            all_atoms(l, out)
    return out


def own_terms(al):
    """the path to the alarm is described by the inputs alone, nothing was generalised on the way"""
    return not al.facts.loose and not re.search(r"[~#]\d|loop\d|join", str(al.detail)) and all(input_atom(x) for x in all_atoms(al.facts))


def judge_alarms(r, rule, a, mk=None, strict=True, site=None):
    """reachable aborts: confirmed on a determined input, or (strict) not excluded by the analysis"""
    n = 0
    done = set()
    for al in a.alarms:
        key = (al.fn, alarm_text(al))
        if key in done:
            continue
        with searching():
            env = confirm_alarm(mk, al) if mk else None
        if env is not None:
            done.add(key)
            n += 1
            r.bad(rule, al.fn, alarm_text(al), f"{al.file}:{al.line} for {show_env(env)}")
        elif strict and definite(a) and own_terms(al):
            done.add(key)
            n += 1
            r.bad(rule, al.fn, alarm_text(al), f"{al.file}:{al.line} {norm(al.detail)}")
        else:
            n += 1
            r.undecided(rule, f"{site or ''} {al.fn}", f"abort not excluded: {alarm_text(al)}")
    if not n and not a.error:
        r.ok(rule, site or a.fn.key, "no reachable abort")
    return n


def report_alarms(r, prog, ana, rule="panic", ignore=(), site=None):
    """every construct that may abort is a violation of totality"""
    n = 0
    for a in ana.alarms:
        if any(i(a) for i in ignore):
            continue
        n += 1
        r.bad(rule, site or a.fn, f"{a.kind}: {norm(a.detail)}", f"{a.file}:{a.line}")
    r.functions |= set(ana.e.functions)
    if ana.error:
        r.undecided(rule, site or ana.fn.key, ana.error)
    elif not n:
        r.ok(rule, site or ana.fn.key, "no reachable abort")
    for k, v in ana.e.unsupported.items():
        r.undecided(rule, k[0], f"construct outside the analysed fragment: {k[1]}")
    return n
