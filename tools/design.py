"""Fills the generated parts of DESIGN.md from the property list, the rules in checks/ and the planted bugs
(python3 tools/design.py)."""
import ast
import importlib.util
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def texts():
    """check function -> {explanation, rule_text} as written in checks/"""
    out = {}
    for f in sorted(os.listdir(os.path.join(ROOT, "checks"))):
        if not f.endswith(".py"):
            continue
        for n in ast.parse(open(os.path.join(ROOT, "checks", f)).read()).body:
            if not isinstance(n, ast.FunctionDef):
                continue
            d = {}
            for x in ast.walk(n):
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr in ("explanation", "rule_text"):
                    try:
                        d[x.targets[0].attr] = ast.literal_eval(x.value)
                    except ValueError:
                        d[x.targets[0].attr] = " ".join(c.value for c in ast.walk(x.value) if isinstance(c, ast.Constant) and isinstance(c.value, str))
            if d:
                out[(f[:-3], n.name)] = d
    return out


def main():
    g = {"__file__": os.path.join(ROOT, "tools", "props.py")}
    src = open(g["__file__"]).read().split("\nexec(")[0]
    exec(src, g)
    exec(open(os.path.join(ROOT, "tools", "proplist.py")).read(), g)
    reg = load(os.path.join(ROOT, "checks", "__init__.py"), "reg").REGISTRY
    tx = texts()
    res = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
    seeds = {}
    sd = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(sd)):
        seeds[s] = json.load(open(os.path.join(sd, s, "meta.json")))
    out = []
    for d, technique, note in g["P"]:
        i = d["id"]
        r = reg[i]
        t = tx.get((r["module"], r["fn"]), {})
        out.append(f"### {i} {d['title']}\n")
        out.append(d["statement"] + "\n")
        out.append(f"- Decided by: {technique}; `checks/{r['module']}.py`, `{r['fn']}`.")
        if t.get("explanation"):
            out.append(f"- Analysed: {t['explanation']}")
        if t.get("rule_text"):
            out.append(f"- Rule: {t['rule_text']}")
        out.append(f"- Bounds: {d['quantifier']['text']}.")
        out.append(f"- Beyond the tests: {d['why_tests_cant']}.")
        note = note.replace(g["TRUST"], "").strip()
        if note:
            out.append(f"- Note: {note}")
        mine = [s for s, m in seeds.items() if m["property"] == i]
        if mine:
            out.append("- Planted bugs: " + ", ".join(s + ("" if res.get(s, "") == "caught" else " (not caught)") for s in mine) + ".")
        out.append("")
    if g["NA"]:
        out.append("### Not applicable\n")
        for d, reason in g["NA"]:
            out.append(f"- **{d['id']} {d['title']}**: {d['statement']} *{reason}*")
        out.append("")
    props = "\n".join(out)
    rows = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    for s, m in seeds.items():
        c = m["property"] if res.get(s) == "caught" else "-"
        rows.append(f"| {s} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {c} |")
    p = os.path.join(ROOT, "DESIGN.md")
    t = open(p).read()
    for name, body in (("PROPS", props), ("SEEDS", "\n".join(rows) + "\n")):
        t = re.sub(f"<!-- {name} -->.*<!-- /{name} -->", lambda m: f"<!-- {name} -->\n{body}\n<!-- /{name} -->", t, flags=re.S)
    open(p, "w").write(t)


if __name__ == "__main__":
    main()
