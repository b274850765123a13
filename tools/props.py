"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # (id, title, statement, over, quant text, why tests can't, files, mechanisms, state, claim|None)


def prop(id, title, statement, over, quant, why, files, mech, technique=None, level_note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, level_note=level_note, na=na, state=state, observe=observe))


exec(open(os.path.join(HERE, "tools", "props_data.py"), encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["quant"]},
                             "why_tests_cant": p["why"], "anchors": a}) + "\n")
man = {"version": 1, "setup_cmd": "/usr/bin/python3 -c \"import ast, sys; assert sys.version_info >= (3, 9)\"", "checks": [], "not_applicable": [],
       "notes": "Static analysis only: every check parses /repo/kats afresh with the standard library ast and never imports or runs it. No hooks in /repo."}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({"property": p["id"],
                              "quick_cmd": f"/usr/bin/python3 check.py {p['id']} --tier quick",
                              "thorough_cmd": f"/usr/bin/python3 check.py {p['id']} --tier thorough",
                              "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
