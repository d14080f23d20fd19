"""Check registry, runner, evidence and known findings."""
import json
import os
import sys
import time
import traceback
import warnings

from .model import AnalysisError, Project

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OASA_REPO", "/repo")
KNOWN = os.path.join(HERE, "known_findings.txt")

CHECKS = {}


def check(pid, title):
    def deco(f):
        CHECKS[pid] = (f, title)
        return f
    return deco


class Ctx(object):
    def __init__(self, pid, project, tier):
        self.pid = pid
        self.p = project
        self.tier = tier
        self.obligations = []     # (rule, construct, ok)
        self.violations = {}      # key -> message
        self.notes = {}
        self.functions = set()
        self.floors = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ok(self, rule, construct):
        self.obligations.append((rule, construct, True))

    def bad(self, rule, construct, message):
        """Report a violation.  ``construct`` names the program element
        (never a line number), ``message`` explains."""
        self.obligations.append((rule, construct, False))
        key = "%s|%s" % (rule, construct)
        self.violations.setdefault(key, message)

    def expect(self, cond, rule, construct, message=""):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, message)
        return bool(cond)

    def floor(self, what, n, minimum):
        """The analysis must have seen at least ``minimum`` of these."""
        self.floors.append((what, n, minimum))
        if n < minimum:
            raise AnalysisError("%s: only %d found, at least %d expected - "
                                "the analysis no longer sees the code it "
                                "decides about" % (what, n, minimum))

    def note(self, k, v):
        self.notes[k] = v

    def saw(self, interp_or_funcs):
        a = getattr(interp_or_funcs, "analysed", interp_or_funcs)
        for x in a:
            self.functions.add(getattr(x, "qual", x))


def load_known():
    out = {}
    fixed = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.rstrip("\n")
                if not line.strip() or line.startswith("#"):
                    continue
                if line.startswith("fixed:"):
                    fixed.append(line)
                    continue
                if line.startswith("known:"):
                    # known: property=<id> key=<rule|construct> :: what fails
                    head, _, what = line.partition(" :: ")
                    parts = head.split(None, 2)
                    pid = parts[1].split("=", 1)[1]
                    key = parts[2].split("=", 1)[1]
                    out[(pid, key)] = what
    return out, fixed


def run_check(pid, tier):
    t0 = time.time()
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    func, title = CHECKS[pid]
    project = Project(REPO)
    ctx = Ctx(pid, project, tier)
    try:
        func(ctx)
    except AnalysisError as e:
        # an obligation that cannot be discharged is not discharged
        ctx.bad("undecided", "analysis", "the property can no longer be "
                "established for this source: %s" % e)
    known, _ = load_known()
    new, listed = [], []
    for key, msg in sorted(ctx.violations.items()):
        if (pid, key) in known:
            listed.append((key, msg, known[(pid, key)]))
        else:
            new.append((key, msg))
    evdir = os.environ.get("OASA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rules = {}
    for r, c, okk in ctx.obligations:
        d = rules.setdefault(r, [0, 0])
        d[0] += 1
        d[1] += 1 if okk else 0
    explanation = (
        "Static analysis of the source under %s (nothing executed). Rules "
        "applied (obligations discharged/decided): %s. Functions analysed: "
        "%d. %s" % (
            REPO,
            "; ".join("%s %d/%d" % (r, v[1], v[0])
                      for r, v in sorted(rules.items())) or "none",
            len(ctx.functions),
            "; ".join("%s=%s" % kv for kv in sorted(ctx.notes.items()))))
    cov = {
        "explanation": explanation,
        "rules": {r: {"decided": v[0], "discharged": v[1]}
                  for r, v in rules.items()},
        "functions_analysed": len(ctx.functions),
        "functions": sorted(ctx.functions)[:400],
        "floors": [{"what": w, "seen": n, "minimum": m}
                   for w, n, m in ctx.floors],
        "sample_obligations": ["%s: %s" % (r, c) for r, c, _ in
                               ctx.obligations[:200]],
        "known_findings": [k for k, _, _ in listed],
    }
    ev = {
        "property": pid, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other", "coverage": cov,
        "wall_s": round(time.time() - t0, 3),
        "assumptions": ASSUMPTIONS + ctx.notes.get("assumptions", []),
        "violations": len(new),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for key, msg, what in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, what or key))
    if new:
        rp = os.path.join(evdir, pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump([{"key": k, "message": m} for k, m in new], f, indent=1)
            f.write("\n")
        for key, msg in new:
            print("  [%s] %s" % (key, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    rp = os.path.join(evdir, pid + ".violations.json")
    if os.path.exists(rp):
        os.unlink(rp)
    print("%s ok: %d obligations, %d functions, %.1fs" % (
        pid, len(ctx.obligations), len(ctx.functions), time.time() - t0))
    return 0


ASSUMPTIONS = [
    "no code is patched at run time: attributes are only rebound by the "
    "statements visible in the analysed tree",
    "third-party libraries behave as documented",
]


def load_checks():
    import importlib
    d = os.path.join(os.path.dirname(__file__), "checks")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("oasa.checks." + f[:-3])


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd")
    c = sub.add_parser("check")
    c.add_argument("pid")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    sub.add_parser("list")
    a = sub.add_parser("all")
    a.add_argument("--tier", default="quick")
    st = sub.add_parser("selftest")
    st.add_argument("ids", nargs="*")
    args = ap.parse_args(argv)
    load_checks()
    if args.cmd == "list":
        for k in sorted(CHECKS):
            print(k, CHECKS[k][1])
        return 0
    if args.cmd == "selftest":
        from . import selftest
        return selftest.main(args.ids)
    if args.cmd == "all":
        rc = 0
        for k in sorted(CHECKS):
            try:
                r = run_check(k, args.tier)
            except Exception as e:
                traceback.print_exc(limit=6)
                print("%s ERROR %s" % (k, e))
                r = 2
            rc = max(rc, r)
        return rc
    if args.cmd == "check":
        try:
            return run_check(args.pid, args.tier)
        except AnalysisError as e:
            print("ANALYSIS-ERROR property=%s %s" % (args.pid, e))
            return 2
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-ERROR property=%s internal error" % args.pid)
            return 2
    ap.print_help()
    return 2
