"""Developer tool: build and confirm the planted bugs in /verif/seeded.

usage: seed.py gen|demo|test|check|all [ID...]

Sources are tools/seeds/*.py: SEEDS = [dict(id=, prop=, edits=[(file, old,
new)], demo=<python text>, needs=, breaks=)].  Everything runs on scratch
copies bound over /repo in a private mount/pid/network namespace.
"""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
STATUS = os.path.join(HERE, "tools", "seed_status.json")
DEMO_SH = """#!/bin/bash
# run with cwd /repo: 0 when the property holds, 1 when it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 LANG=en_US.UTF-8 TZ=UTC
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export DEMO_SCRATCH=$scratch HOME=$scratch
timeout 250 /opt/pypyvenv/bin/python -W ignore "$here/demo.py"
rc=$?
[ $rc -eq 0 ] && exit 0
exit 1
"""
PRELUDE = '''import logging, os, sys, tempfile
logging.disable(logging.CRITICAL)
sys.path.insert(0, os.getcwd())
'''


def seeds(ids):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "seeds", "*.py"))):
        out += runpy.run_path(f)["SEEDS"]
    names = [s["id"] for s in out]
    assert len(names) == len(set(names)), "duplicate id"
    return [s for s in out if not ids or any(
        s["id"] == i or s["id"].startswith(i + "-") for i in ids)]


def copy(edits):
    d = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call(["cp", "-a", os.environ.get("OASA_REPO", "/repo"),
                           d + "/repo"])
    r = d + "/repo"
    for f, old, new in edits:
        p = os.path.join(r, f)
        t = open(p).read()
        assert t.count(old) >= 1, "pattern not found: %s %r" % (f, old)
        assert t.count(old) == 1, "pattern not unique: %s %r" % (f, old)
        t = t.replace(old, new, 1)
        open(p, "w").write(t)
        compile(t, p, "exec")
    return d, r


def ns(repo, cmd, timeout=None, log=None):
    vp = os.path.dirname(repo) + "/vp"
    if not os.path.exists(vp):
        subprocess.check_call(["cp", "-a", "/opt/vp", vp])
    sh = ("mount --bind %s /repo && mount --bind %s /opt/vp && "
          "mount -t tmpfs none /verif && ip link set lo up; cd /repo && %s"
          % (repo, vp, cmd))
    return subprocess.run(["unshare", "-m", "-p", "-f", "-n", "--mount-proc",
                           "sh", "-c", sh], stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, errors="replace")


def load_status():
    return json.load(open(STATUS)) if os.path.exists(STATUS) else {}


def save(i, **kw):
    s = load_status()
    s.setdefault(i, {}).update(kw)
    with open(STATUS, "w") as f:
        json.dump(s, f, indent=1, sort_keys=True)
        f.write("\n")


def gen(s):
    d, r = copy(s["edits"])
    try:
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True,
                              text=True).stdout
        t = os.path.join(SEEDED, s["id"])
        os.makedirs(t, exist_ok=True)
        open(t + "/patch.diff", "w").write(diff)
        open(t + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(t + "/demo.sh", 0o755)
        open(t + "/demo.py", "w").write(PRELUDE + s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(t + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)


def demo(s):
    res = []
    for edits in ([], s["edits"]):
        d, r = copy(edits)
        try:
            shutil.copytree(os.path.join(SEEDED, s["id"]), d + "/demo")
            p = ns(r, "bash %s/demo/demo.sh" % d, timeout=300)
            res.append(p.returncode)
            if (p.returncode == 0) != (not edits):
                print("   ", p.stdout[-1500:])
        finally:
            shutil.rmtree(d)
    ok = res[0] == 0 and res[1] != 0
    print("%-12s demo clean=%d patched=%d %s" % (
        s["id"], res[0], res[1], "ok" if ok else "<<<<< WRONG"))
    save(s["id"], demo=ok)


def test(s):
    d, r = copy(s["edits"])
    try:
        p = ns(r, "bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json"
               % d, timeout=1500)
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        try:
            o = json.load(open(d + "/o.json"))
            lost = sorted(set(base) - set(o["passed"]))
        except (OSError, ValueError):
            lost = ["build failed: " + p.stdout[-500:]]
        print("%-12s tests lost=%d %s" % (s["id"], len(lost), lost[:3]))
        save(s["id"], tests=not lost, lost=lost[:3])
    finally:
        shutil.rmtree(d)


def check(s):
    d, r = copy(s["edits"])
    try:
        env = dict(os.environ, OASA_REPO=r, OASA_EVIDENCE=d)
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "oasa",
                            "check", s["prop"]], cwd=HERE, env=env,
                           capture_output=True, text=True)
        hit = p.returncode == 1 and ("VIOLATION property=%s " % s["prop"]
                                     in p.stdout)
        print("%-12s check rc=%d %s %s" % (
            s["id"], p.returncode, "caught" if hit else "<<<<< MISSED",
            "" if hit else (p.stderr[-300:])))
        save(s["id"], caught=hit)
    finally:
        shutil.rmtree(d)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "repo":       # the stable tests on a copy of /repo itself
        d, r = copy([])
        try:
            p = ns(r, "bash /opt/vp/build.sh && bash /opt/vp/test.sh "
                   "%s/o.json" % d, timeout=1500)
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            o = json.load(open(d + "/o.json"))
            print("repo lost:", sorted(set(base) - set(o["passed"])))
        finally:
            shutil.rmtree(d)
        return
    for s in seeds(ids):
        st = load_status().get(s["id"], {})
        for c in (("gen", "demo", "check", "test") if cmd == "all"
                  else (cmd,)):
            if c == "test" and cmd == "all" and (
                    not load_status()[s["id"]].get("demo")):
                continue
            globals()[c](s)
            sys.stdout.flush()


if __name__ == "__main__":
    main()
