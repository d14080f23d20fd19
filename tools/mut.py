"""Developer aid: run checks against a scratch copy with textual edits.
usage: mut.py FILE OLD NEW CHECK [CHECK...]  (OLD/NEW may use \\n)"""
import os, shutil, subprocess, sys, tempfile
f, old, new = sys.argv[1], sys.argv[2].encode().decode("unicode_escape"), sys.argv[3].encode().decode("unicode_escape")
d = tempfile.mkdtemp(prefix="mut")
try:
    for s in ("oa", "scripts", "docs"):
        if os.path.isdir("/repo/" + s):
            shutil.copytree("/repo/" + s, d + "/" + s)
    p = os.path.join(d, f)
    t = open(p).read()
    assert old in t, "pattern not found"
    open(p, "w").write(t.replace(old, new, 1))
    compile(open(p).read(), p, "exec")
    for c in sys.argv[4:]:
        r = subprocess.run([sys.executable, "-W", "ignore", "-m", "oasa", "check", c], cwd="/verif",
                           env=dict(os.environ, OASA_REPO=d), capture_output=True, text=True)
        print(c, r.returncode, r.stdout.strip()[-700:], r.stderr[-1500:])
finally:
    shutil.rmtree(d)
