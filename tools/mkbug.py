#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes seeded/<id>/ from SPEC's BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = importlib.util.spec_from_file_location("spec", sys.argv[1])
mod = importlib.util.module_from_spec(s)
s.loader.exec_module(mod)
only = sys.argv[2:]
for b in mod.BUGS:
    if only and b["id"] not in only:
        continue
    d = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug")
    try:
        for side in ("a", "b"):
            for f, _, _ in b["edits"]:
                os.makedirs(os.path.join(w, side, os.path.dirname(f)), exist_ok=True)
                shutil.copy("/repo/" + f, os.path.join(w, side, f))
        for f, old, new in b["edits"]:
            p = os.path.join(w, "b", f)
            t = open(p, encoding="utf-8").read()
            assert t.count(old) == 1, (b["id"], f, t.count(old), old)
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True).stdout
        r = r.replace("diff --git a/a/", "diff --git a/").replace("a/b/", "b/")
        open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(r)
    finally:
        shutil.rmtree(w)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo XDG_CACHE_HOME=$(mktemp -d)\n'
                'PATH=/opt/venv/bin:$PATH python "$(dirname "$0")/demo.py"\nrc=$?\nrm -rf "$XDG_CACHE_HOME"\nexit $rc\n')
    open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(b["demo"].lstrip("\n"))
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
    print(d)
