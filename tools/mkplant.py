#!/usr/bin/env python3
"""mkplant.py ID PROPERTY FILE OLD NEW [FILE OLD NEW ...] -- NEEDS -- BREAKS
Development helper: writes seeded/ID/patch.diff and meta.json from textual replacements (each OLD must occur once)."""
import sys, os, subprocess, json
a = sys.argv[1:]
i = a.index("--"); j = a.index("--", i + 1)
pid, prop, reps, needs, breaks = a[0], a[1], a[2:i], a[i+1:j], a[j+1:]
d = f"/verif/seeded/{pid}"; os.makedirs(d, exist_ok=True)
tmp = "/tmp/mkplant"; subprocess.run(["rm", "-rf", tmp]); os.makedirs(tmp)
out = ""
cur = {}
for k in range(0, len(reps), 3):
    f, o, n = reps[k:k+3]
    s = cur.get(f) or open("/repo/" + f).read()
    if s.count(o) != 1: sys.exit(f"{f}: OLD occurs {s.count(o)} times: {o!r}")
    cur[f] = s.replace(o, n)
for f, s in cur.items():
    for side, txt in (("a", open("/repo/" + f).read()), ("b", s)):
        p = os.path.join(tmp, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
out = subprocess.run(["diff", "-ru", "a", "b"], cwd=tmp, capture_output=True, text=True).stdout
out = "\n".join(l for l in out.split("\n") if not l.startswith("diff -ru")) 
open(d + "/patch.diff", "w").write(out)
json.dump(dict(property=prop, needs=" ".join(needs), what_it_breaks=" ".join(breaks)), open(d + "/meta.json", "w"), indent=1)
r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"]); print(pid, "applies" if r.returncode == 0 else "DOES NOT APPLY")
