#!/usr/bin/env python3
"""Confirms planted changes in a scratch copy of /repo and keeps them under /verif/seeded.

usage: plant.py FILE.py   (FILE.py defines BUGS: list of dicts with id, property, edits [(path, old, new)],
demo (python source, exits non-zero when the property is broken), needs, breaks)
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300, check=False, **kw)


def confirm(bug):
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        out = os.path.join(work, bug["id"])
        os.mkdir(out)
        with open(os.path.join(out, "demo.py"), "w", encoding="utf-8") as f:
            f.write(bug["demo"])
        with open(os.path.join(out, "demo.sh"), "w", encoding="utf-8") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        demo = [os.path.join(out, "demo.sh")]
        r = sh(demo, copy)
        if r.returncode != 0:
            return "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-600:]
        for path, old, new in bug["edits"]:
            full = os.path.join(copy, path)
            src = open(full, encoding="utf-8").read()
            if src.count(old) != 1:
                return f"{src.count(old)} places match in {path}: {old[:80]!r}"
            with open(full, "w", encoding="utf-8") as f:
                f.write(src.replace(old, new))
        diff = sh(["git", "diff"], copy).stdout
        r = sh(demo, copy)
        if r.returncode == 0:
            return "demo passes with the change"
        print("   demo:", (r.stderr or r.stdout).strip().splitlines()[-1][:150])
        r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], copy,
               env={**os.environ, "PYTHONPATH": os.path.join(copy, "src")})
        if r.returncode != 0:
            return "tests fail: " + r.stdout[-600:]
        with open(os.path.join(out, "patch.diff"), "w", encoding="utf-8") as f:
            f.write(diff)
        with open(os.path.join(out, "meta.json"), "w", encoding="utf-8") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        dest = os.path.join(VERIF, "seeded", bug["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(out, dest)
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    only = sys.argv[2:]
    for bug_ in runpy.run_path(sys.argv[1])["BUGS"]:
        if only and bug_["id"] not in only:
            continue
        print(bug_["id"], "->", confirm(bug_) or "kept")
