#!/usr/bin/env python3
"""seedcheck.py [--nocheck] [--all-checks] ID...: confirm planted bugs in
scratch copies of /repo and report whether the check of their property (or,
with --all-checks, which checks) catches them."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, check=False)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def one(sid, check=True, every=False):
    d = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json"), encoding="utf-8"))
    top = tempfile.mkdtemp(prefix="seedw-")
    repo = os.path.join(top, "repo")
    try:
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
        res = {}
        res["demo_clean"] = run(["bash", os.path.join(d, "demo.sh")], repo, env, 300)[0]
        rc, out = run(["git", "apply", os.path.join(d, "patch.diff")], repo, env, 60)
        if rc:
            return sid, meta["property"], "DOES NOT APPLY " + out
        rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], repo, env, 300)
        if rc or "20 passed" not in out:
            return sid, meta["property"], "TESTS FAIL " + out[-300:]
        rc, out = run(["bash", os.path.join(d, "demo.sh")], repo, env, 300)
        if res["demo_clean"] != 0 or rc == 0:
            return sid, meta["property"], "DEMO clean=%s patched=%s" % (res["demo_clean"], rc)
        if not check:
            return sid, meta["property"], "counts"
        if every:
            props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json"), encoding="utf-8"))["checks"]]
        else:
            props = [meta["property"]]
        verdict = []
        for p in props:
            rc, out = run([sys.executable, os.path.join(HERE, "check.py"), p], HERE, dict(env, VERIF_REPO=repo, VERIF_EVIDENCE=top), 900)
            if rc == 1 and "VIOLATION property=%s " % p in out:
                verdict.append(p + ":caught")
            elif rc:
                verdict.append(p + ":rc%d %s" % (rc, out[-800:]))
            elif not every:
                verdict.append(p + ":MISSED")
        return sid, meta["property"], " ".join(verdict) or "MISSED BY ALL"
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for s in args or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        print(*one(s, "--nocheck" not in sys.argv, "--all-checks" in sys.argv), flush=True)
