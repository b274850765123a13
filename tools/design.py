"""DESIGN.md from tools/design_template.md, tools/design_data.py, props_data.py and the seeded bugs."""
import contextlib, io, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {"__file__": os.path.join(HERE, "tools", "props.py")}
with contextlib.redirect_stdout(io.StringIO()):
    exec(open(ns["__file__"], encoding="utf-8").read(), ns)
d = {}
exec(open(os.path.join(HERE, "tools", "design_data.py"), encoding="utf-8").read(), d)
D = d["D"]
props, na = [], []
for p in sorted(ns["P"], key=lambda p: p["id"]):
    if p["na"]:
        na.append(f"* **{p['id']} {p['title']}** — {p['na']}")
    else:
        props.append(f"### {p['id']} {p['title']}\n\n*{p['technique']}*\n{D[p['id']]}")
seeds = []
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    seeds.append(f"| {s} | {m['needs']} | {m.get('caught_by', m['property'])} |")
t = open(os.path.join(HERE, "tools", "design_template.md"), encoding="utf-8").read()
t = t.replace("@@PROPS@@", "\n".join(props)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@NA@@", "\n".join(na) or "None at present.")
open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write(t)
print(len(props), "properties,", len(seeds), "seeds,", len(na), "not applicable")
