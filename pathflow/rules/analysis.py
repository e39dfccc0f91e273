"""S04: error figures of the analysis module"""
import ast
import math
from ..report import *          # noqa
from ..terms import const
from .. import replay as R
from .data import sym
from .inputs import known, own, attempt

MOD = "flee.postprocessing.analysis"


class Vec(R.Arr):
    """a series of numbers"""

    def mk(self, o, f):
        if isinstance(o, (list, tuple)):
            if len(o) != len(self):
                raise R.Fails("series of length %d and %d are combined" % (len(self), len(o)))
            return Vec(f(x, y) for x, y in zip(self, o))
        return Vec(f(x, o) for x in self)

    each = mk

    def __truediv__(self, o):
        return self.mk(o, lambda x, y: x / y)

    def __rtruediv__(self, o):
        return self.mk(o, lambda x, y: y / x)

    def __rsub__(self, o):
        return self.mk(o, lambda x, y: y - x)

    def __neg__(self):
        return Vec(-x for x in self)

    def __abs__(self):
        return Vec(abs(x) for x in self)

    def __getitem__(self, i):
        x = list.__getitem__(self, i)
        return Vec(x) if isinstance(i, slice) else x

    def mean(self, *a):
        return mean(self)

    def sum(self, *a):
        return sum(self)


for _n, _f in (("lt", lambda x, y: x < y), ("gt", lambda x, y: x > y), ("le", lambda x, y: x <= y), ("ge", lambda x, y: x >= y)):
    setattr(Vec, "__%s__" % _n, lambda self, o, f=_f: self.mk(o, f))


def over(f):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)):
            return Vec(f(y, *a) for y in x)
        return f(x, *a)
    return g


def over2(f):
    def g(x, y, *a, **k):
        if isinstance(x, (list, tuple)):
            return Vec(x).mk(y, f)
        if isinstance(y, (list, tuple)):
            return Vec(y).mk(x, lambda q, p: f(p, q))
        return f(x, y)
    return g


def mean(x, *a):
    return sum(x) / float(len(x))


def ln(x):
    if x <= 0:
        raise R.Fails("logarithm of %s" % x)
    return math.log(x)


def div(x, y):
    if y == 0:
        raise R.Fails("division by zero")
    return x / y


FN = {"numpy.abs": over(abs), "numpy.absolute": over(abs), "numpy.fabs": over(abs), "math.fabs": abs, "abs": over(abs), "numpy.mean": mean, "numpy.average": mean, "numpy.sum": sum, "sum": sum, "numpy.log": over(ln), "math.log": ln,
      "numpy.round": over(round), "numpy.around": over(round), "round": over(round), "numpy.subtract": over2(lambda x, y: x - y), "numpy.add": over2(lambda x, y: x + y), "numpy.divide": over2(div), "numpy.multiply": over2(lambda x, y: x * y),
      "numpy.array": Vec, "numpy.asarray": Vec, "numpy.maximum": over2(max), "numpy.minimum": over2(min), "numpy.square": over(lambda x: x * x), "numpy.sqrt": over(math.sqrt), "math.sqrt": math.sqrt, "numpy.median": lambda x: sorted(x)[len(x) // 2],
      ".mean": mean, ".sum": sum, ".round": over(round), ".copy": Vec, ".tolist": Vec, ".flatten": Vec, "numpy.max": max, "numpy.min": min, "numpy.size": len, "numpy.log10": over(math.log10), "numpy.log2": over(math.log2), "numpy.cumsum": lambda x: Vec(R.cumsum(x)), "numpy.float64": float, "numpy.nanmean": mean, "numpy.nansum": sum, "numpy.dot": lambda x, y: sum(p * q for p, q in zip(x, y))}

ALL = {"rel_error", "abs_error", "abs_diffs", "mean_abs_diffs", "calculate_ln_accuracy_ratio", "calculate_MASE"}


def constants(ctx):
    """module-level names with one constant value"""
    def f(t):
        if t.op == "global":
            m = ctx.prog.modules.get(t.args[0])
            vs = [st.value for st in m.tree.body if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == t.args[1] for x in st.targets)] if m else []
            if len(vs) == 1 and isinstance(vs[0], ast.Constant):
                return vs[0].value
        return R.MISSING
    return f


def both(ctx, env):
    k, c = known(env), constants(ctx)

    def f(t):
        v = k(t)
        return c(t) if v is R.MISSING else v
    return f


class Ways:
    def __init__(self, ctx, fn, rule):
        self.ctx, self.fn, self.rule = ctx, fn, rule
        self.ps = [p for p in ctx.paths("serial", fn) if p.exit != "raise"]

    def run(self, env, what, calls=FN):
        def f():
            b = R.Bind(both(self.ctx, env), calls=dict(calls))
            p, b = R.the_way(self.ps, b, self.fn.qual)
            if p.exit != "return":
                return ("none", None)
            try:
                return ("value", R.value(p.value, p, b))
            except ZeroDivisionError:
                return ("none", "division by zero")
        return attempt(self.ctx, self.rule, "%s %s" % (self.fn.qual, what), f)


def close(x, y):
    if isinstance(y, (list, tuple)):
        return isinstance(x, (list, tuple)) and len(x) == len(y) and all(close(a, b) for a, b in zip(x, y))
    try:
        return abs(float(x) - y) <= 0.000051
    except (TypeError, ValueError):
        raise R.Unknown(repr(x))


SERIES = [([3.0, 0.0, 12.5], [1.0, 7.0, 12.5]), ([40.0, 1.0, 3.0, 70.0], [20.0, 3.0, 3.0, 90.0]), ([5.0], [2.0])]
POSITIVE = [(f, c) for f, c in SERIES if all(x > 0 for x in f + c)]


def s04(ctx):
    n = 0

    def fn(name):
        f = ctx.prog.func(MOD, name)
        if f is None:
            raise AnalysisBroken("function vanished: %s.%s" % (MOD, name))
        return f

    def expect(f, w, env, want, what):
        nonlocal n
        got = w.run(env, what)
        if got is None:
            return
        n += 1
        try:
            ok = got[0] == "value" and close(got[1], want)
        except R.Unknown as e:
            ctx.need("the value of %s %s (%s)" % (f.qual, what, e), 0)
            return
        ctx.check(ok, "S04.figure", f.qual, "%s: gives %s instead of %s" % (what, got[1], want), f.where())
    f = fn("rel_error")
    w = Ways(ctx, f, "S04")
    for v, c in ((10, 4.0), (3, 4), (0, 5), (7, 7), (100, 3), (1, 3000), (2, 1)):
        expect(f, w, [(sym("val"), v), (sym("correct_val"), c)], round(abs(float(v) / c - 1), 4), "simulated %s, data %s" % (v, c))
    for v in (0, 25):
        expect(f, w, [(sym("val"), v), (sym("correct_val"), 0)], 0.0, "simulated %s, no data" % v)
    f = fn("abs_error")
    w = Ways(ctx, f, "S04")
    for v, c in ((10, 4.5), (3, 4), (0, 5), (7, 7), (9, 0), (1, 3000), (2.25, 1.125)):
        expect(f, w, [(sym("val"), v), (sym("correct_val"), c)], abs(v - c), "simulated %s, data %s" % (v, c))
    for name, want, pairs, second in (
            ("abs_diffs", lambda a, b: [abs(x - y) for x, y in zip(a, b)], SERIES, "correct_vals"),
            ("mean_abs_diffs", lambda a, b: mean([abs(x - y) for x, y in zip(a, b)]), SERIES, "correct_vals"),
            ("calculate_ln_accuracy_ratio", lambda a, b: mean([abs(math.log(x / y)) for x, y in zip(a, b)]), POSITIVE, "actual_vals")):
        f = fn(name)
        w = Ways(ctx, f, "S04")
        for a, b in pairs:
            expect(f, w, [(sym("forecast_vals"), Vec(a)), (sym(second), Vec(b))], want(a, b), "series %s and %s" % (a, b))
    f = fn("calculate_MASE")
    w = Ways(ctx, f, "S04")
    act, fc, nv = [4.0, 8.0, 6.0, 3.0, 11.0, 9.0], [5.0, 8.0, 2.0, 4.5, 10.0, 19.0], [4.0, 4.0, 4.0, 4.0, 6.0, 6.5]
    for start in (0, 1, 3):
        e = mean([abs(x - y) for x, y in zip(act, fc)])
        m = mean([abs(x - y) for x, y in list(zip(act, nv))[start + 1:]])
        expect(f, w, [(sym("forecast_vals"), Vec(fc)), (sym("actual_vals"), Vec(act)), (sym("naieve_vals"), Vec(nv)), (sym("start_of_forecast_period"), start)], round(e / m, 4), "six days, forecast from day %d" % start)
    ctx.need("error figures evaluated", n, 25)
    ctx.need("errors of locations evaluated", sum(location(ctx, f) for f in locations(ctx)), 5)
    k = 0
    for m in sorted(ctx.prog.modules.values(), key=lambda m: m.name):
        c = m.classes.get("SimulationErrors")
        if c is None or not m.name.startswith("flee.postprocessing"):
            continue
        k += totals(ctx, c)
    ctx.need("sums over locations evaluated", k, 6)


def locations(ctx):
    """the functions that return the errors of one location, computed from a table"""
    for m in sorted(ctx.prog.modules.values(), key=lambda m: m.name):
        if m.name.startswith("flee.postprocessing"):
            for f in sorted(m.functions.values(), key=lambda f: f.name):
                if "data" in f.params and "name" in f.params and any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] == "LocationErrors" for x in ast.walk(f.node)):
                    yield f


def diffs(forecast_vals, correct_vals):
    x, y = forecast_vals, correct_vals
    return Vec(x).mk(y, lambda p, q: abs(p - q))


TABLE = {"A sim": [3, 40, 0, 900, 7], "A data": [10, 35, 1, 1000, 0], "refugees in camps (simulation)": [100, 50, 0, 1000, 20], "refugees in camps (UNHCR)": [50, 200, 30, 1000, 0], "A B sim": [1, 2, 3, 4, 5], "A B data": [9, 9, 9, 9, 9],
         "raw UNHCR refugee count": [3, 3, 3, 3, 3], "total refugees (simulation)": [1, 4, 1, 4, 1], "Total error": [0, 0, 0, 0, 0], "refugee_debt": [5, 4, 3, 2, 1]}


ERRORS = ("absolute difference", "absolute difference rescaled", "ratio difference")


def location(ctx, f):
    """differences between the columns "<name> sim" and "<name> data", as they are, rescaled to the registered total, and relative to it"""
    calls = dict(FN)
    for k in (".to_numpy", ".as_matrix", ".flatten", ".copy", ".ravel"):
        calls[k] = Vec
    calls["analysis.abs_diffs"] = diffs
    calls["numpy.where"] = lambda c, x, y: Vec((xi if ci else yi) for ci, xi, yi in zip(c, spread(x, len(c)), spread(y, len(c))))
    calls["numpy.arange"] = lambda *a: Vec(range(*a))
    data = {k: Vec(float(x) for x in v) for k, v in TABLE.items()}
    ps = [p for p in ctx.paths("serial", f) if p.exit == "return"]
    done = 0
    for offset in (0, 2) if "offset" in f.params else (0,):
        env = [(sym("data"), data), (sym("name"), "A"), (sym("offset"), offset), (sym("naieve_model"), False)]
        what = "%s a location%s" % (f.qual, ", offset %d" % offset if offset else "")

        def run():
            try:
                return sums()
            except ZeroDivisionError:
                ctx.fail("S04.fails", f.qual, "%s: division by zero" % what, f.where())
            return None

        def sums():
            p, b = R.the_way(ps, R.Bind(both(ctx, env), calls=dict(calls)), f.qual)
            d = p.state.heap.get((T.strip(p.value), "errors"))
            if d is None:
                raise R.Unknown("errors of " + T.show(p.value))
            whole = None
            out = {}
            for k in ERRORS:
                v = p.state.heap.get((d, "[]", const(k)))
                if v is not None:
                    out[k] = R.value(v, p, b)
                    continue
                if whole is None:
                    whole = R.value(d, p, b)
                out[k] = whole.get(k)
            return out
        got = attempt(ctx, "S04", what, run)
        if got is None:
            continue
        sim, obs, st, ut = [[float(x) for x in TABLE[k]] for k in ("A sim", "A data", "refugees in camps (simulation)", "refugees in camps (UNHCR)")]
        res = [s * u / t if t > 0 else 0.0 for s, t, u in zip(sim, st, ut)]
        if offset:
            sim, res, obs, ut = sim[offset:], res[offset:], obs[:-offset], ut[:-offset]
        want = {"absolute difference": diffs(sim, obs), "absolute difference rescaled": diffs(res, obs), "ratio difference": [d / max(u, 1.0) for d, u in zip(diffs(sim, obs), ut)]}
        for k, v in want.items():
            done += 1
            try:
                x = got.get(k)
                # rescaled numbers may be rounded to persons
                ok = x is not None and (close(x, v) if "rescaled" not in k else len(x) == len(v) and all(abs(float(p) - q) < 1.0 for p, q in zip(x, v)))
            except (R.Unknown, TypeError, ValueError) as e:
                ctx.need("the value of %s (%s)" % (what, e), 0)
                continue
            ctx.check(ok, "S04.location", "%s[%s]" % (f.qual, k), "%s: gives %s instead of %s" % (what, x, [round(y, 4) for y in v]), f.where())
    return done


def spread(x, n):
    return x if isinstance(x, (list, tuple)) else [x] * n


def totals(ctx, c):
    """errors of several locations: differences are added, figures are weighted with the size of the location"""
    done = 0
    for name, par in (("abs_diff", "rescaled"), ("get_error", None)):
        f = c.find(name)
        if f is None:
            ctx.need("%s.%s" % (c.qual, name), 0)
            continue
        par = par or f.params[1]
        w = Ways(ctx, f, "S04")
        for k in (1, 2, 4):
            locs = [R.Rec("location %d" % i, errors={"absolute difference": Vec([1.0 * i + 1, 10.0]), "absolute difference rescaled": Vec([0.5, 3.0 * i]), "MASE7": 0.25 * (i + 1), "MASE30": 2.0 - i / 4.0, "N": 100.0 * (i + 1) ** 2}) for i in range(k)]
            for v in ((True, False) if name == "abs_diff" else ("MASE7", "MASE30")):
                if name == "abs_diff":
                    key = "absolute difference rescaled" if v else "absolute difference"
                    want = [sum(l.attrs["errors"][key][j] for l in locs) for j in range(2)]
                else:
                    want = sum(l.attrs["errors"][v] * l.attrs["errors"]["N"] for l in locs) / sum(l.attrs["errors"]["N"] for l in locs)
                got = w.run([(own("location_errors"), locs), (sym(par), v)], "%d locations, %s" % (k, v))
                if got is None:
                    continue
                done += 1
                try:
                    ok = got[0] == "value" and close(got[1], want)
                except R.Unknown as e:
                    ctx.need("the value of %s (%s)" % (f.qual, e), 0)
                    continue
                ctx.check(ok, "S04.total", f.qual, "%d locations, %s: gives %s instead of %s" % (k, v, got[1], want), f.where())
    return done


RULES = {"S04": s04}
EXPLAIN = {"S04": "the extracted summary of every error figure (and of its sum over locations) is evaluated for small series and compared with the formula; longer series and other values take the same way through the code"}
