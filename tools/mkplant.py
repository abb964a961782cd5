"""mkplant.py ID PROPERTY FILE: reads OLD/NEW text from stdin separated by a
line '=====' (several edits separated by '#####'), writes seeded/ID/patch.diff."""
import difflib, json, os, sys
ident, prop, needs, breaks = sys.argv[1:5]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, "seeded", ident)
os.makedirs(d, exist_ok=True)
out = ""
files = {}
for edit in sys.stdin.read().split("#####\n"):
    name, rest = edit.split("\n", 1)
    old, new = rest.split("=====\n")
    path = os.path.join("/repo", name)
    text = files.get(name) or open(path, newline="").read()
    nl = "\r\n" if "\r\n" in text else "\n"
    old, new = old.replace("\n", nl), new.replace("\n", nl)
    assert text.count(old) == 1, (name, text.count(old))
    files[name] = text.replace(old, new)
for name, new in files.items():
    a = open(os.path.join("/repo", name), newline="").read()
    out += "".join(
        l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
        for l in difflib.unified_diff(a.splitlines(True), new.splitlines(True),
                                      "a/" + name, "b/" + name))
with open(os.path.join(d, "patch.diff"), "w", newline="") as f:
    f.write(out)
with open(os.path.join(d, "meta.json"), "w") as f:
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
with open(os.path.join(d, "demo.sh"), "w") as f:
    f.write('#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\n'
            'export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python -W ignore "$HERE/demo.py"\n')
