#!/usr/bin/env python3
"""debugging aid: tools/dump.py world Class.method|mod:func [stop,stop...]   print the paths of one function"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pathflow import model, report
from pathflow import terms as T


def show(x):
    return T.show(x) if isinstance(x, T.Term) else repr(x)


def val(v):
    if isinstance(v, T.Term):
        return T.show(v)
    if isinstance(v, (tuple, list)):
        return "(" + ", ".join(val(x) for x in v) + ")"
    if isinstance(v, str):
        return v
    return getattr(v, "qual", None) or repr(v)


def dump(path, ind=0):
    pre = "  " * ind
    for g in (path.alts or [path.cons])[:3]:
        print(pre + "WHEN " + "; ".join(("" if v else "not ") + show(k) for k, v in g.items()))
    for e in path.events:
        if e.kind == "loop":
            print(pre + "LOOP %s over %s as %s" % (e.loopkind, show(e.iter), show(e.elem)))
            for i, q in enumerate(e.paths):
                print(pre + " -- body %d" % i)
                dump(q, ind + 2)
        else:
            print(pre + e.kind + " " + ", ".join("%s=%s" % (k, val(v)) for k, v in e.d.items() if v is not None) + "  @" + str(e.where))
    print(pre + "EXIT %s %s" % (path.exit, show(path.value) if path.value is not None else ""))


if __name__ == "__main__":
    prog = model.load()
    ctx = report.Check("X", prog)
    w, ref = sys.argv[1:3]
    stop = sys.argv[3].split(",") if len(sys.argv) > 3 else ()
    fn = ctx.func(ref) if ":" in ref else ctx.method(w, ref)
    ps = ctx.paths(w, fn, stop=stop)
    for i, p in enumerate(ps):
        print("==== path", i)
        dump(p)
