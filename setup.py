#!/usr/bin/env python3
"""Builds every exploration binary in every parameter world it is used in (an accelerator only: ./check rebuilds
whatever the current tree needs)."""
import os, sys, importlib.machinery, importlib.util, threading
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
l = importlib.machinery.SourceFileLoader("check", os.path.join(here, "check"))
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("check", l))
l.exec_module(m)
need = {}
for p in m.PLAN.values():
    for w, b in p:
        need.setdefault(w, set()).add(b)
res = {}
ths = [threading.Thread(target=lambda w=w: res.__setitem__(w, m.build(w, sorted(need[w])))) for w in need]
for t in ths: t.start()
for t in ths: t.join()
for w in need:
    print(w, "ok" if res[w][0] == 0 else "does not build:\n" + res[w][1][-2000:])
