#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run it to rewrite both."""
import json, pathlib, sys
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import registry
TECH = "explicit-state model checking of the real code: every choice sequence of bounded scenarios is executed depth first and compared with a reference model"
P = []          # properties, in order
NA = {}         # id -> reason


def prop(id, title, statement, over, text, why, files, mech, note=None, observe=None, tech=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note, tech))


exec((HERE / "props_text.py").read_text())


def main():
    root = HERE.parent
    ids = [p["id"] for p, _, _ in P]
    assert len(set(ids)) == len(ids)
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["id"]
    with open(root / "properties.jsonl", "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note, tech in P:
        i = p["id"]
        if i in registry.PROPS:
            checks.append(dict(property=i, quick_cmd=f"python3 tools/run.py {i} quick",
                               thorough_cmd=f"python3 tools/run.py {i} thorough",
                               technique=tech or TECH, level="model_checking", level_note=note))
        else:
            na.append(dict(property=i, reason=NA[i]))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
             notes="Every check rebuilds its harness from /repo's current tree (g++, ninja) in /verif/_build; no hooks in /repo.")
    (root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    missing = [i for i in registry.PROPS if i not in ids]
    assert not missing, missing
    print(len(ids), "properties,", len(checks), "checks")


main()
