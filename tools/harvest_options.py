"""Enumerate option values of every public callable and record which are surely refused and which may
be accepted; after review the result is committed as sa/data/options.json (read by rules s11, s21)."""
import json
import os
import sys
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.options import TSD, ann_names, ann_text, candidates, mined, public_entry  # noqa: E402
from sa.project import Project  # noqa: E402
from sa.scenario import play  # noqa: E402

p = Project()
SERIES = {"uni": "series:uni", "multi": "series:multi", "empty": "series:empty", "short": "series:short"}


def target(f):
    return f.qual


def work(q):
    f = p.funcs[q]
    out = []
    loose = False
    b = play(p, {"f": q})[0]
    if b != "accept":
        loose = True
        b = play(p, {"f": q, "loose": True})[0]
    if b != "accept":
        return q, b, loose, out
    nums, strs = mined(p, f)
    for x in [x for x in f.params if x not in (f.vararg, f.kwarg)]:
        if f.cls is not None and not f.is_static and f.posargs and x == f.posargs[0]:
            continue
        if TSD in ann_names(p, f, x):
            labs = list(SERIES.values()) + ["None"]
        else:
            labs = [lab for lab, _ in candidates(p, f, x, nums, strs)]
        for lab in labs:
            spec = "unknown-string" if lab == "a-string" else lab
            out.append((x, lab, play(p, {"f": q, "args": {x: spec}, "loose": loose}, 40000)[0]))
    return q, b, loose, out


def conforming(f, x, lab):
    """is the candidate of the declared type?"""
    txt = ann_text(f, x)
    if lab == "a-string":
        return False
    if lab == "None":
        return "Optional" in txt or "None" in txt
    if lab.startswith("series:"):
        return True
    isstr = lab == "unknown-string" or lab[:1] in "'\""
    if isstr:
        return "str" in txt and "List[str]" not in txt.replace("Union", "") or txt == "" or "Callable" in txt
    if lab.startswith("["):
        return "ist[" in txt
    if lab.startswith("{"):
        return "ict[" in txt
    return ("int" in txt or "float" in txt) and "ist[" not in txt and "ict[" not in txt


if __name__ == "__main__":
    qs = [q for q, f in sorted(p.funcs.items()) if public_entry(f) and not f.is_abstract and not f.is_property and f.params]
    with Pool(8) as pool:
        res = pool.map(work, qs, chunksize=2)
    table = []
    for q, b, loose, out in res:
        f = p.funcs[q]
        by = {}
        for x, lab, v in out:
            if conforming(f, x, lab):
                by.setdefault(x, []).append((lab, v))
        for x, L in by.items():
            ref = [a for a, v in L if v == "refuse"]
            acc = [a for a, v in L if v == "accept"]
            if ref:
                table.append({"f": q, "param": x, "loose": loose, "refuse": ref, "accept": acc})
    json.dump(table, open(sys.argv[1], "w"), indent=0)
    print(len(table), sum(len(t["refuse"]) for t in table), sum(len(t["accept"]) for t in table))
