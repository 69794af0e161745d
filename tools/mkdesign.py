"""Writes DESIGN.md: the text below, the properties, the assumptions and bounds of their contracts, and what the planted bugs showed."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
NA = json.load(open(HERE + "/tools/not_applicable.json"))
RESULTS = HERE + "/tools/seed_results.json"

HEAD = open(HERE + "/tools/design_head.md").read()
TAIL = open(HERE + "/tools/design_tail.md").read()
HOW = {}
for block in open(HERE + "/tools/design_how.md").read().split("\n## ")[1:]:
    pid, text = block.split("\n", 1)
    HOW[pid.strip()] = " ".join(text.split())


def literal(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            v = n.value
            if isinstance(v, ast.Attribute) or isinstance(v, ast.Name):
                lib = v.value.id if isinstance(v, ast.Attribute) else None
                mod = lib or "serlib"
                return literal(ast.parse(open(f"{HERE}/contracts/spec/{mod}.py").read()), v.attr if lib else v.id)
            if isinstance(v, ast.List) and v.elts and isinstance(v.elts[0], ast.Name):
                return [e.id for e in v.elts]
            try:
                return ast.literal_eval(v)
            except ValueError:
                return ast.unparse(v)
    return None


out = [HEAD.rstrip(), ""]
for p in PROPS:
    pid = p["id"]
    out.append(f"### {pid}: {p['title']}\n")
    if pid in NA:
        out.append(f"Not applicable: {NA[pid]}.\n")
        continue
    tree = ast.parse(open(f"{HERE}/contracts/spec/{pid.lower()}.py").read())
    out.append(HOW[pid] + "\n")
    names = literal(tree, "HARNESSES")
    bounds = literal(tree, "BOUNDS") or {}
    if isinstance(bounds, str):
        bounds = {"see": bounds}
    natives = literal(tree, "NATIVE") or []
    out.append("- Contracts: " + ", ".join(f"`{n}`" + (" (bounded)" if n in bounds else "") for n in names) + ".")
    ev = f"{HERE}/evidence/{pid}.json"
    if os.path.exists(ev):
        c = json.load(open(ev))["coverage"]
        fs = [f for f in c["functions_under_contract"] if "<locals>" not in f and f.startswith("pulumi.")]
        cs = [f for f in c["callee_contracts_used"] if f.startswith("pulumi.")]
        out.append("- Functions executed: " + ", ".join(f"`{f[7:]}`" for f in fs) + ".")
        if cs:
            out.append("- Callees by contract: " + ", ".join(f"`{f[7:]}`" for f in cs) + ".")
    a = literal(tree, "ASSUMPTIONS")
    if a:
        out.append("- Assumed: " + ("; ".join(a) if isinstance(a, list) else str(a)) + ".")
    if bounds:
        out.append("- Bounded stand-ins and native searches: " + "; ".join(f"`{k}`: {v}" for k, v in bounds.items()) + ".")
    out.append("")
out.append(TAIL.rstrip() + "\n")
if os.path.exists(RESULTS):
    res = json.load(open(RESULTS))
    out.append("### What each planted bug showed\n")
    out.append("| bug | property | what it breaks | needs | check |\n|---|---|---|---|---|")
    for b in sorted(res):
        try:
            m = json.load(open(f"{HERE}/seeded/{b}/meta.json"))
        except OSError:
            continue
        out.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res[b]} |")
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
