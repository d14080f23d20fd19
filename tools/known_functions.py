#!/usr/bin/env python3
"""Write oasa/known_functions.txt: the functions and module names of the tree the
checks were written for."""
import ast
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from oasa import normalize  # noqa: E402


def main(repo):
    out = set()
    for pkg in ("oa", "scripts"):
        for d, _, files in os.walk(os.path.join(repo, pkg)):
            for f in files:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    m = os.path.relpath(p, repo)[:-3].replace(os.sep, ".")
                    if m.endswith(".__init__"):
                        m = m[:-9]
                    t = ast.parse(open(p, encoding="utf8").read())
                    for x in t.body:
                        if isinstance(x, ast.Assign):
                            for y in x.targets:
                                if isinstance(y, ast.Name):
                                    out.add("%s:%s" % (m, y.id))
                    for h, c, g in normalize.functions(t):
                        out.add(m + "." + (c.name + "." if c else "") +
                                g.name)
    with open(normalize.KNOWN, "w") as o:
        o.write("\n".join(sorted(out)) + "\n")


if __name__ == "__main__":
    main(sys.argv[1] if len(sys.argv) > 1 else "/repo")
