"""Check runner: extracts the compiler's view of /repo's working tree, runs one property's rules on
it, writes the evidence file and prints the verdict."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KV_REPO", "/repo")
EVID = os.environ.get("KV_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.setrecursionlimit(20000)
JOBS = int(os.environ.get("KV_JOBS", "8"))


class CheckError(Exception):
    """the check could not give an answer"""


class FixtureError(Exception):
    """the client crate, which uses only the documented interface, is rejected by the compiler"""


# ------------------------------------------------------------------ extraction

def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def driver(dest):
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    cached = os.path.join(VERIF, "build", "kvdriver-" + h)
    if os.path.exists(cached):
        return cached
    out = os.path.join(dest, "kvdriver")
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", out], cwd=dest,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("building the extraction driver failed:\n" + r.stdout[-3000:])
    return out


def _env(tmp, drv, dump):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",):
            del env[k]
    env.pop("RUSTFLAGS", None)
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib:" + env.get("LD_LIBRARY_PATH", "")
    env["KV_DUMP_DIR"] = dump
    env["KV_OVERLAY"] = os.path.join(VERIF, "overlay")
    env["CARGO_TARGET_DIR"] = os.path.join(tmp, "target")
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def extract(tmp, packages, fixture=None):
    """run the compiler front end over the packages, dumping what it type-checked.
    fixture: (name, dependencies, source) of a client crate whose generated code is analysed too"""
    drv = driver(tmp)
    dump = os.path.join(tmp, "dump")
    os.makedirs(dump, exist_ok=True)
    if packages:
        env = _env(tmp, drv, dump)
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        cmd = ["cargo", "+nightly", "check", "--offline", "-q"]
        if packages == ["*"]:
            cmd += ["--workspace"]
        else:
            for p in packages:
                cmd += ["-p", p]
        lock = os.path.join(REPO, "Cargo.lock")
        had = os.path.exists(lock)
        before = open(lock, "rb").read() if had else None
        r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if had:
            if open(lock, "rb").read() != before:
                open(lock, "wb").write(before)
        elif os.path.exists(lock):
            os.unlink(lock)
        if r.returncode:
            raise CheckError("cargo check failed:\n" + r.stdout[-6000:])
    if fixture:
        name, deps, source = fixture
        d = os.path.join(tmp, "fixture", name)
        os.makedirs(os.path.join(d, "src"))
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(f'[package]\nname = "{name}"\nversion = "0.0.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n')
            for p in deps:
                f.write(f'{p} = {{ path = "{REPO}/{p}" }}\n')
        with open(os.path.join(d, "src", "lib.rs"), "w") as f:
            f.write(source)
        if os.path.exists(os.path.join(REPO, "Cargo.lock")):
            shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        env = _env(tmp, drv, dump)
        env["RUSTC_WRAPPER"] = drv
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "-q"], cwd=d, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            if f"could not compile `{name}`" in r.stdout:
                raise FixtureError(r.stdout)
            raise CheckError("cargo check of the client crate failed:\n" + r.stdout[-6000:])
    return dump


# ------------------------------------------------------------------ results

class Result:
    """what one unit of work found"""

    def __init__(self):
        self.obs = []          # (status, rule, site, detail)
        self.notes = []
        self.counts = {}
        self.functions = set()
        self.sites = []

    def ok(self, rule, site, detail=""):
        self.obs.append(("ok", rule, site, detail))

    def bad(self, rule, site, detail="", where=""):
        self.obs.append(("bad", rule, site, detail, where))

    def undecided(self, rule, site, detail=""):
        self.obs.append(("undecided", rule, site, detail))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, s):
        self.notes.append(s)

    def merge(self, o):
        self.obs += o.obs
        self.notes += o.notes
        for k, v in o.counts.items():
            self.count(k, v)
        self.functions |= o.functions
        self.sites += o.sites


class Ctx(Result):
    def __init__(self, pid, tier, seed, dump, tmp):
        super().__init__()
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.dump = dump
        self.tmp = tmp
        self.explanation = ""
        self.rule_text = ""
        self.assumptions = []
        self.floors = []
        self._prog = {}

    def program(self, crates):
        from .load import Program
        key = tuple(crates)
        if key not in self._prog:
            self._prog[key] = Program(self.dump, list(crates))
        return self._prog[key]

    def floor(self, name, minimum):
        """vacuity guard: fewer instances than this means the rule no longer finds its subject"""
        self.floors.append((name, minimum))

    def parallel(self, fn, tasks, timeout=450):
        """run fn(result, task) for every task in forked workers and merge what they report"""
        tasks = list(tasks)
        if not tasks:
            return
        if JOBS <= 1 or len(tasks) == 1:
            for t in tasks:
                r = Result()
                _guard(fn, r, t)
                self.merge(r)
            return
        q = mp.get_context("fork")
        pending = list(enumerate(tasks))
        running = {}
        results = {}
        t_end = time.time() + timeout
        while pending or running:
            while pending and len(running) < JOBS:
                i, t = pending.pop(0)
                rd, wr = q.Pipe(False)
                p = q.Process(target=_worker, args=(wr, fn, t))
                p.start()
                wr.close()
                running[i] = (p, rd, t)
            for i in list(running):
                p, rd, t = running[i]
                if rd.poll(0.01):
                    try:
                        results[i] = rd.recv()
                    except EOFError:
                        r = Result()
                        r.undecided("analysis", _tname(t), "worker ended without an answer")
                        results[i] = r
                    p.join()
                    del running[i]
                elif time.time() > t_end:
                    p.kill()
                    p.join()
                    r = Result()
                    r.undecided("analysis", _tname(t), "time limit")
                    results[i] = r
                    del running[i]
            if time.time() > t_end:
                for i, t in pending:
                    r = Result()
                    r.undecided("analysis", _tname(t), "time limit")
                    results[i] = r
                pending = []
        for i in sorted(results):
            self.merge(results[i])


def _tname(t):
    if isinstance(t, tuple):
        return " ".join(str(getattr(x, "key", x)) for x in t)[:200]
    return str(getattr(t, "key", t))[:200]


def _guard(fn, r, t):
    try:
        fn(r, t)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        r.undecided("analysis", _tname(t), f"{type(ex).__name__}: {str(ex)[:200]} ({os.path.basename(tb.filename)}:{tb.lineno})")
        if os.environ.get("KV_TRACE"):
            traceback.print_exc()


def _worker(wr, fn, t):
    r = Result()
    _guard(fn, r, t)
    try:
        wr.send(r)
    except Exception as ex:
        r2 = Result()
        r2.undecided("analysis", _tname(t), f"result not transferable: {ex}")
        wr.send(r2)
    wr.close()
    os._exit(0)


# ------------------------------------------------------------------ main

def load_known(pid):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return {}
    d = json.load(open(path))
    return {(x["rule"], x["site"], x.get("detail", "")): x for x in d.get("findings", []) if x["property"] == pid}


def main(pid, packages, fn, title, argv, fixture=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"kv-{pid}-")
    try:
        pre = os.environ.get("KV_DUMP")
        rejected = None
        try:
            fx = fixture(tier, seed) if fixture else None
            dump = pre if pre else extract(tmp, packages, fx)
            if os.environ.get("KV_KEEP"):
                shutil.copytree(dump, os.environ["KV_KEEP"], dirs_exist_ok=True)
        except FixtureError as ex:
            rejected, dump = ex, None
        t1 = time.time()
        ctx = Ctx(pid, tier, seed, dump, tmp)
        if rejected:
            errs = [x for x in str(rejected).splitlines() if x.startswith("error")]
            for x in (errs[:-1] or errs)[:10]:
                ctx.bad("client-build", "client crate", x[:200], "code generated from valid declarations does not compile")
        else:
            fn(ctx)
    except CheckError as ex:
        print(f"ERROR property={pid}: {ex}")
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bad = {}
    for o in ctx.obs:
        if o[0] == "bad":
            bad.setdefault((o[1], o[2], o[3]), o[4])
    for name, minimum in ctx.floors if not rejected else []:
        n = ctx.counts.get(name, 0)
        if n < minimum and not any(o[0] == "undecided" and o[1] == "analysis" for o in ctx.obs):
            print(f"ERROR property={pid}: the rule found {n} '{name}' (at least {minimum} expected): it no longer sees its subject")
            return 2
    known = load_known(pid)
    viol = []
    found_known = []
    for k, where in bad.items():
        if k in known:
            found_known.append(k)
        else:
            viol.append((k, where))
    und = [o for o in ctx.obs if o[0] == "undecided"]
    oks = [o for o in ctx.obs if o[0] == "ok"]
    wall = time.time() - t0
    cov = {
        "explanation": ctx.explanation,
        "rule": ctx.rule_text,
        "obligations": len(oks) + len(bad) + len(und),
        "discharged": len(oks),
        "undecided": len(und),
        "functions_analysed": len(ctx.functions),
        "instances": ctx.counts,
        "by_rule": _by_rule(ctx.obs),
        "undecided_sites": [{"rule": o[1], "site": o[2], "why": o[3]} for o in und[:60]],
        "samples": [{"rule": o[1], "site": o[2], "detail": o[3]} for o in _sample(oks)],
        "known_findings": [{"rule": k[0], "site": k[1], "detail": k[2]} for k in found_known],
        "extraction_s": round(t1 - t0, 1),
    }
    if ctx.functions:
        cov["functions"] = sorted(ctx.functions)[:400]
    if ctx.notes:
        cov["notes"] = ctx.notes[:60]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k in found_known:
        print(f"KNOWN-FINDING: property={pid} {known[k].get('what', ' '.join(k))}")
    for o in und[:40]:
        print(f"UNDECIDED {o[1]}: {o[2]}: {o[3]}")
    print(f"{pid} {title}: {len(oks)} obligations discharged, {len(bad)} violated, {len(und)} undecided, "
          f"{len(ctx.functions)} functions, {wall:.1f}s")
    if viol:
        rp = os.path.join(EVID, "replay-" + pid + ".json")
        with open(rp, "w") as f:
            json.dump([{"rule": k[0], "site": k[1], "detail": k[2], "where": w} for k, w in viol], f, indent=1)
        for k, w in viol[:25]:
            print(f"  {k[0]}: {k[1]}: {k[2]}" + (f" [{w}]" if w else ""))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def _by_rule(obs):
    d = {}
    for o in obs:
        e = d.setdefault(o[1], {"ok": 0, "bad": 0, "undecided": 0})
        e[o[0]] += 1
    return d


def _sample(oks):
    seen = {}
    for o in oks:
        seen.setdefault(o[1], [])
        if len(seen[o[1]]) < 4:
            seen[o[1]].append(o)
    return [o for v in seen.values() for o in v][:60]
