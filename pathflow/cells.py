"""Case analysis over a finite set of representative cells: each branch condition of
an extracted path is decided for every cell by substituting the cell's values."""
from . import terms as T


def decide(atom, sub):
    """truth of a condition in a cell: True, False or None (not decided by the cell)"""
    t = T.rebuild(atom, sub)
    neg = False
    while t.op == "not":
        neg = not neg
        t = t.args[0]
    if t.op == "const":
        return bool(t.args[0]) is not neg
    if t.op == "lt0":
        v = num(t.args[0])
        if v is not None:
            return (v < 0) is not neg
    if t.op == "eq":
        x, y = num(t.args[0]), num(t.args[1])
        if x is not None and y is not None:
            return (x == y) is not neg
    return None


def open_alts(path, sub, outer=()):
    """the alternatives of a path's condition that a cell does not rule out"""
    out = []
    for g in (path.alts or [path.cons]):
        if any(decide(a, sub) is (not v) for a, v in list(g.items()) + list(outer)):
            continue
        out.append(g)
    return out


def feasible(path, sub, outer=()):
    return bool(open_alts(path, sub, outer))


class Cell:
    """one cell: its substitution, with the truth of every condition remembered"""

    def __init__(self, sub, **vals):
        self.sub, self.vals, self._d, self._n = sub, vals, {}, {}

    def decide(self, atom):
        if atom not in self._d:
            self._d[atom] = decide(atom, self.sub)
        return self._d[atom]

    def alts(self, path, outer=()):
        out = []
        for g in (path.alts or [path.cons]):
            if any(self.decide(a) is (not v) for a, v in list(g.items()) + list(outer)):
                continue
            out.append(g)
        return out

    def feasible(self, path, outer=()):
        return bool(self.alts(path, outer))

    def num(self, t):
        if t not in self._n:
            self._n[t] = num(t, self.sub)
        return self._n[t]

    def show(self):
        return ", ".join("%s=%s" % x for x in sorted(self.vals.items()))


def cross(**axes):
    """all combinations of the values of the axes, as dictionaries"""
    out = [{}]
    for k, vs in axes.items():
        out = [dict(d, **{k: v}) for d in out for v in vs]
    return out


def num(t, sub=None):
    """numeric value of a term in a cell, or None when the cell does not fix it"""
    if sub is not None:
        t = T.rebuild(t, sub)
    try:
        return _num(t)
    except (ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError):
        return None


def _num(t):
    o, a = t.op, t.args
    if o == "const":
        if isinstance(a[0], (int, float)):
            return a[0]
        raise ValueError
    if o == "lin":
        return a[0] + sum(k * _num(x) for x, k in a[1])
    if o == "mul":
        r = a[0]
        for x, e in a[1]:
            r *= _num(x) ** (_num(e) if isinstance(e, T.Term) else e)
        return r
    if o == "pow":
        return _num(a[0]) ** _num(a[1])
    if o == "idx" and a[0].op in ("list", "tuple"):
        return _num(a[0].args[_num(a[1])])
    if o in ("floordiv", "mod"):
        x, y = _num(a[0]), _num(a[1])
        return x // y if o == "floordiv" else x % y
    if o in ("call", "op") and isinstance(a[1], tuple):
        n = a[0].split(".")[-1]
        v = [_num(x) for x in a[1]]
        f = {"int": lambda x: int(x), "float": float, "min": min, "max": max, "abs": abs, "floor": lambda x: x // 1, "round": round, "bool": bool,
             "pow": lambda x, y: x ** y, "//": lambda x, y: x // y, "floordiv": lambda x, y: x // y, "%": lambda x, y: x % y, "mod": lambda x, y: x % y,
             "sqrt": lambda x: x ** 0.5, "len": None}.get(n)
        if f is None:
            raise ValueError
        return f(*v)
    raise ValueError
