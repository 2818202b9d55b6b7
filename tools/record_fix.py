#!/usr/bin/env python3
"""usage: tools/record_fix.py COMMIT PROPERTY ... -- adds "fixed:" entries to known_findings.json."""
import json, subprocess, sys
d = json.load(open("/verif/known_findings.json"))
key = next(k for k, v in d.items() if isinstance(v, list) and v and isinstance(v[-1], str) and v[-1].startswith("fixed"))
for c, p in zip(sys.argv[1::2], sys.argv[2::2]):
    h, s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], capture_output=True, text=True, check=True).stdout.strip().split(" ", 1)
    e = f"fixed: property={p} {h} {s.removeprefix('fix: ')}"
    if not any(h in x for x in d[key]):
        d[key].append(e)
        print(e)
with open("/verif/known_findings.json", "w") as fp:
    json.dump(d, fp, indent=1)
    fp.write("\n")
