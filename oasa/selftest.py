"""Self test of the checks: every case in selftest_cases/*.py is a textual
edit of the analysed tree, marked ``bad`` (the check must report) or ``ok``
(behaviour kept: the check must stay quiet).

usage: python3 -m oasa selftest [ID ...]"""
import glob
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .core import HERE, REPO


def one(case):
    pid, kind, name, edits = case
    d = tempfile.mkdtemp(prefix="oasa-self-")
    try:
        for s in ("oa", "scripts", "docs"):
            if os.path.isdir(os.path.join(REPO, s)):
                shutil.copytree(os.path.join(REPO, s), os.path.join(d, s))
        for f, old, new in edits:
            p = os.path.join(d, f)
            with open(p, newline="") as fh:
                t = fh.read()
            if old not in t:
                return case, "STALE", "pattern not found in %s: %r" % (
                    f, old[:60])
            t = t.replace(old, new, 1)
            with open(p, "w", newline="") as fh:
                fh.write(t)
            compile(t, p, "exec")
        ev = os.path.join(d, "evidence")
        r = subprocess.run(
            [sys.executable, "-W", "ignore", "-m", "oasa", "check", pid],
            cwd=HERE, env=dict(os.environ, OASA_REPO=d, OASA_EVIDENCE=ev),
            capture_output=True, text=True)
        want = 1 if kind == "bad" else 0
        res = "pass" if r.returncode == want else "FAIL"
        return case, res, (r.stdout + r.stderr)[-1500:]
    except SyntaxError as e:
        return case, "STALE", "does not compile: %s" % e
    finally:
        shutil.rmtree(d)


def main(ids=()):
    cases = []
    for f in sorted(glob.glob(os.path.join(HERE, "selftest_cases", "*.py"))):
        cases += runpy.run_path(f)["CASES"]
    if ids:
        cases = [c for c in cases if c[0] in ids]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for case, res, out in ex.map(one, cases):
            pid, kind, name, _ = case
            if res != "pass":
                bad += 1
                print("%s %s %s %s\n    %s" % (res, pid, kind, name,
                                              out.replace("\n", "\n    ")))
    print("%d cases, %d not as expected" % (len(cases), bad))
    return 1 if bad else 0
