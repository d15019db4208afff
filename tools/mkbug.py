#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE 'old' 'new' — writes seeded/ID/patch.diff from a textual replacement in a repo file (stdin: JSON spec).
spec: {id, property, needs, breaks, edits:[[file, old, new]...], shim:[absl,quipper]}"""
import json, sys, subprocess, pathlib, shutil, tempfile
root = pathlib.Path(__file__).resolve().parent.parent
spec = json.load(sys.stdin) if len(sys.argv) < 2 else json.load(open(sys.argv[1]))
d = root / "seeded" / spec["id"]
d.mkdir(parents=True, exist_ok=True)
with tempfile.TemporaryDirectory() as t:
    subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", t + "/r"])
    for f, old, new in spec["edits"]:
        p = pathlib.Path(t, "r", f)
        s = p.read_text()
        assert s.count(old) == 1, (f, s.count(old), old)
        p.write_text(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
(d / "patch.diff").write_text(diff)
(d / "meta.json").write_text(json.dumps(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), indent=1) + "\n")
kit = root / "tools" / "seedkit"
shutil.copy(kit / "lib.sh", d)
for s in spec.get("shim", []):
    if (d / s).exists(): shutil.rmtree(d / s)
    shutil.copytree(kit / s, d / s)
print(diff)
