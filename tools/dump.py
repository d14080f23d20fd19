"""debug: python3 tools/dump.py QUAL [inline-names...]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import warnings; warnings.simplefilter("ignore")
from oasa.model import Project
from oasa.absint import show, show_cond
from oasa.util import BasePolicy, run
p = Project(os.environ.get("OASA_REPO", "/repo"))


class D(BasePolicy):
    def on_yield(self, I, st, node, value):
        return st.with_mon(st.mon + (("yield", show(value)),))

    def on_attr_store(self, I, st, node, base, name, value):
        return st.with_mon(st.mon + (("set", show(base), name, show(value)),))

    def on_item_store(self, I, st, node, base, key, value):
        return st.with_mon(st.mon + (("item", show(base), show(key), show(value)),))

    def on_mutate(self, I, st, node, base, meth, args):
        return st.with_mon(st.mon + (("mut", show(base), meth, tuple(map(show, args))),))


class DD(D):
    relevant_names = tuple(sys.argv[2:])


I, outs = run(lambda: DD(p), p, p.func(sys.argv[1]))
for k, v, s in outs:
    print("==", k, show(v))
    for c, pol in s.facts.items():
        print("     ", "" if pol else "not", show_cond(c))
    for m in s.mon:
        print("   >", m)
print(len(outs), sorted(I.analysed))
