"""mkbug.py ID PROPERTY FILE < spec: plant a bug (development only).
spec: sections separated by lines of ---: old, new, demo (python), needs, breaks"""
import json, os, subprocess, sys
id, prop, path = sys.argv[1:4]
old, new, demo, needs, breaks = [x.strip("\n") for x in sys.stdin.read().split("\n---\n")]
full = "/repo/" + (path if path.startswith(("steps", "subtrees")) else "src/python/zquantum/core/" + path)
s = open(full).read()
assert s.count(old) == 1, s.count(old)
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
try:
    open(full, "w").write(s.replace(old, new))
    p = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
finally:
    open(full, "w").write(s)
open(d + "/patch.diff", "w").write(p)
open(d + "/demo.py", "w").write(demo + "\n")
open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexec "$PY" "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
