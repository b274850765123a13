"""Regenerates sa/data/error_messages.json from the reference tree (run by hand, result reviewed)."""
import json, sys
sys.path.insert(0, "/verif")
from sa.project import Project
from sa.rules.s05 import Exc, Flow, messages, DATA, _still_raised_near
p = Project(); fl = Flow(p); ex = Exc(p)
ms = messages(p, ex, fl)
st = messages(p, ex, fl, strict=True)
out = []
for t, sites in sorted(ms.items()):
    if not any(k for _, _, k in st[t]) or " " not in t:
        continue
    if all(k or _still_raised_near(f, n, sites) for f, n, k in sites):
        out.append(t)
    else:
        print("skipped", t, [(f.where(n), k) for f, n, k in sites])
print(len(out))
json.dump(out, open(DATA, "w"), indent=0, ensure_ascii=True)
