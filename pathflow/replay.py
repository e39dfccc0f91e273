"""Evaluation of extracted paths over one class of inputs with representative values: loops over known tables are
unfolded item by item, conditions and arguments are folded to values.  Works on the terms of the analysis only;
what a value does not fix raises Unknown."""
import datetime
from . import terms as T
from .terms import mk


class Unknown(Exception):
    pass


class Fails(Unknown):
    """the operation fails for these values"""


class Gone(Exception):
    """the way taken ends the function inside a loop"""


MISSING = object()
STR = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "join", "replace", "isdigit", "isnumeric", "casefold", "title", "capitalize", "find", "count", "index", "zfill", "rsplit", "splitlines", "partition"}

def number(f):
    def g(*a):
        if a and isinstance(a[0], Keep):
            return a[0]
        try:
            return f(*a)
        except ValueError as e:
            raise Fails(str(e))
    return g


ARRAYS = {"zeros": 0, "ones": 1, "empty": None}
FUNCS = {"len": len, "float": number(float), "int": number(int), "str": str, "bool": bool, "abs": abs, "min": min, "max": max, "sum": sum, "round": number(round), "sorted": sorted,
         "list": list, "tuple": tuple, "range": lambda *a: list(range(*a)), "enumerate": lambda *a: [tuple(x) for x in enumerate(*a)], "zip": lambda *a: [tuple(x) for x in zip(*a)],
         "reversed": lambda x: list(x)[::-1], "any": any, "all": all, "filter": lambda f, x: [y for y in x if y] if f is None else fail(T.const("filter")), "set": set, "dict": dict, "repr": repr, "divmod": divmod}


class Obj:
    """something the class of inputs does not describe further"""

    def __init__(self, term, k=()):
        self.term, self.k = term, k

    def __eq__(self, o):
        return isinstance(o, Obj) and o.term is self.term and o.k == self.k

    def __hash__(self):
        return hash((self.term, self.k))

    def __repr__(self):
        return "<%s>" % T.show(self.term)


class Rec:
    """an object of the model with known fields"""

    def __init__(self, name, /, **attrs):
        self.name, self.attrs = name, attrs

    def __repr__(self):
        return "<%s>" % self.name


class Keep:
    """values of an abstract domain: conversions between number types leave them as they are"""


class Arr(list):
    """a numeric array: arithmetic goes element by element"""

    def each(self, o, f):
        if isinstance(o, (list, tuple)):
            if len(o) != len(self):
                raise Fails("arrays of length %d and %d are combined" % (len(self), len(o)))
            return Arr(f(x, y) for x, y in zip(self, o))
        return Arr(f(x, o) for x in self)

    def __add__(self, o):
        return self.each(o, lambda x, y: x + y)

    __radd__ = __iadd__ = __add__

    def __sub__(self, o):
        return self.each(o, lambda x, y: x - y)

    def __mul__(self, o):
        return self.each(o, lambda x, y: x * y)

    __rmul__ = __imul__ = __mul__

    def __pow__(self, o):
        return self.each(o, lambda x, y: x ** y)

    def __mod__(self, o):
        return self.each(o, lambda x, y: x % y)

    def __floordiv__(self, o):
        return self.each(o, lambda x, y: x // y)

    def __lt__(self, o):
        return self.each(o, lambda x, y: x < y)

    def __getitem__(self, i):
        x = list.__getitem__(self, i)
        return Arr(x) if isinstance(i, slice) else x

    def put(self, i, v):
        n = len(list.__getitem__(self, i))
        if not isinstance(v, (list, tuple)):
            v = [v] * n
        if len(v) == 1:
            v = list(v) * n
        if len(v) != n:
            raise Fails("%d values are put into %d positions" % (len(v), n))
        list.__setitem__(self, i, v)

    def copy(self):
        return Arr(self)


class Mat(list):
    """a two-dimensional array: a list of rows"""

    def __init__(self, rows=()):
        list.__init__(self, [Arr(r) for r in rows])

    def copy(self):
        return Mat(self)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            i, j = k
            x = list.__getitem__(self, i)
            return Arr(r[j] for r in x) if isinstance(i, slice) else x[j]
        x = list.__getitem__(self, k)
        return Mat(x) if isinstance(k, slice) else x

    def put(self, k, v):
        if isinstance(k, tuple) and len(k) == 2:
            i, j = k
            rows = list.__getitem__(self, i)
            if not isinstance(i, slice):
                rows[j] = v
                return
            if isinstance(v, (list, tuple)) and len(v) != len(rows):
                raise Fails("%d values are put into %d rows" % (len(v), len(rows)))
            for n, r in enumerate(rows):
                list.__setitem__(r, j, v[n] if isinstance(v, (list, tuple)) else v)
            return
        raise Unknown("rows are replaced")


def vstack(xs):
    rows = []
    for x in xs:
        rows += list(x) if isinstance(x, Mat) or x and isinstance(x[0], (list, tuple)) else [x]
    if len({len(r) for r in rows}) > 1:
        raise Fails("rows of different length are stacked")
    return Mat(rows)


def interp(x, xs, ys):
    if isinstance(x, (list, tuple)):
        return Arr(interp(y, xs, ys) for y in x)
    xs, ys = list(xs), list(ys)
    if x <= xs[0]:
        return float(ys[0])
    for i in range(1, len(xs)):
        if x < xs[i]:
            return ys[i - 1] + (x - xs[i - 1]) * ((ys[i] - ys[i - 1]) / (xs[i] - xs[i - 1]))
    return float(ys[-1])


def searchsorted(a, v, side="left", *rest):
    import bisect
    return (bisect.bisect_left if side == "left" else bisect.bisect_right)(list(a), v)


def cumsum(x):
    out, s = Arr(), 0
    for y in x:
        s = s + y
        out.append(s)
    return out


def append(x, y):
    return Arr(list(x) + (list(y) if isinstance(y, (list, tuple)) else [y]))


NUMPY = {"numpy.vstack": vstack, "numpy.interp": interp, "numpy.floor": lambda x: float(x // 1), "numpy.cumsum": cumsum, "numpy.append": append, "numpy.concatenate": lambda xs: Arr(y for x in xs for y in x), "numpy.arange": lambda *a: Arr(range(*a)),
         "numpy.full": lambda n, v: Arr([v] * n), "numpy.sum": sum, "math.fsum": sum, "numpy.minimum": min, "numpy.maximum": max, "math.floor": lambda x: x // 1,
         "numpy.array": Arr, "numpy.asarray": Arr, "numpy.repeat": lambda v, n: Arr([v] * n if not isinstance(v, list) else [y for x in v for y in [x] * n])}


DATES = {"datetime.datetime.strptime": datetime.datetime.strptime, "datetime.timedelta": datetime.timedelta, "datetime.datetime": datetime.datetime,
         "datetime.date": datetime.date, "datetime.date.fromisoformat": datetime.date.fromisoformat, "datetime.datetime.fromisoformat": datetime.datetime.fromisoformat}


COMPUTING = {"numpy", "math", "itertools", "functools", "operator", "collections", "statistics", "next", "map", "filter", "decimal", "fractions", "heapq", "bisect", "calendar", "datetime", "copy", "pandas"}


class Later:
    """a value carried through a loop, worked out when it is asked for"""

    def __init__(self, t, p, b):
        self.t, self.p, self.b = t, p, b

    def value(self):
        try:
            return value(self.t, self.p, self.b)
        except (TypeError, ValueError, AttributeError, KeyError, IndexError, ZeroDivisionError) as e:
            raise Unknown(str(e))


class Bind:
    """bindings: known(term) gives a value or MISSING; frames of loops bind iterations"""

    def __init__(self, known, its=None, lvs=None, loops=None, up=None, calls=None):
        self.known, self.its, self.lvs, self.loops, self.up = known, its or {}, lvs or {}, loops or {}, up
        self.calls = calls or {}        # functions folded by name
        self.partial = {}               # arrays whose elements are being worked out
        self.memo = {}

    def inner(self, lid, k, lvs, src=None, up=None):
        its = dict(self.its)
        its[lid] = (k, src)
        lv = dict(self.lvs)
        lv.update(lvs)
        b = Bind(self.known, its, lv, self.loops, up or self.up, self.calls)
        b.partial = self.partial
        return b

    def during(self, t, out):
        """the same bindings while t is only known as far as out"""
        b = Bind(self.known, self.its, self.lvs, self.loops, self.up, self.calls)
        b.partial = dict(self.partial)
        b.partial[t] = out
        return b

    def stamp(self, t):
        ks = []
        for x in T.walk(t):
            if x.op in ("elem", "index") and len(x.args) > 1 and x.args[1] in self.its:
                ks.append((str(x.args[1]), self.its[x.args[1]][0]))
        return tuple(sorted(set(ks)))


def hname(k):
    return ("%s.%s" % (T.show(k[0]), "".join(T.show(x) if isinstance(x, T.Term) else x for x in k[1:])), k[0].id)


def lvname(t):
    return t.args[1] if len(t.args) < 3 else (t.args[1], t.args[2].id)


def value(t, p, b, depth=0):
    if depth > 60:
        raise Unknown("too deep")
    if t.op in ("const", "sym", "loopvar"):
        return value_of(t, p, b, depth)
    k = (t, p)
    if k not in b.memo:
        b.memo[k] = Unknown("%s depends on itself" % t.op)
        try:
            b.memo[k] = (value_of(t, p, b, depth),)
        except (Unknown, Gone) as e:
            b.memo[k] = e
        except RecursionError:
            b.memo[k] = Unknown("too deep")
        except Exception:
            del b.memo[k]
            raise
    v = b.memo[k]
    if isinstance(v, Exception):
        raise v
    v = v[0]
    return v.copy() if type(v) in (list, dict, set) else v


def value_of(t, p, b, depth=0):
    v = b.known(t)
    if v is not MISSING:
        return v() if callable(v) else v
    if t in b.partial:
        return b.partial[t]
    o, a = t.op, t.args
    r = lambda x: value(x, p, b, depth + 1)
    if o == "const":
        return a[0]
    if o == "lin":
        xs = [(r(x), k) for x, k in a[1]]
        if any(isinstance(x, str) for x, _ in xs):
            raise Unknown(T.show(t))
        s = None if a[0] == 0 else a[0]
        if len(xs) == 2 and s is None and {k for _, k in xs} == {1, -1} and all(isinstance(x, datetime.date) for x, _ in xs):
            (x, k), (y, _) = xs
            return x - y if k == 1 else y - x
        for x, k in sorted(xs, key=lambda xk: isinstance(xk[0], datetime.timedelta)):
            s = (x if k == 1 else k * x) if s is None else s + x if k == 1 else s + k * x
        return 0 if s is None else s
    if o == "mul":
        s = a[0]
        for x, e in a[1]:
            s = s * r(x) ** (r(e) if isinstance(e, T.Term) else e)
        return s
    if o == "pow":
        return r(a[0]) ** r(a[1])
    if o in ("floordiv", "mod"):
        x, y = r(a[0]), r(a[1])
        return x // y if o == "floordiv" else x % y
    if o == "op" and isinstance(a[1], tuple):
        f = {"//": lambda x, y: x // y, "%": lambda x, y: x % y, "/": lambda x, y: x / y}.get(a[0])
        if f:
            return f(*[r(x) for x in a[1]])
        raise Unknown(T.show(t))
    if o in ("elem", "index") and len(a) > 1:
        it = b.its.get(a[1])
        if it is None:
            it = found(t, p, b)
        k, src = it
        if o == "index":
            return k
        if src is not None and src[0] is a[0]:
            return src[1][k]
        x = r(a[0])
        if isinstance(x, Obj):
            return Obj(t, b.stamp(t))
        return list(x)[k]
    if o == "idx":
        x = r(a[0])
        i = r(a[1])
        if isinstance(x, Obj):
            return Obj(t, b.stamp(t))
        if type(x) in (dict, list) and a[0].op in ("sym", "attr", "global") and a[0] not in b.partial and b.up is not None:
            x = so_far(a[0], x, p, b)
        try:
            return x[i]
        except (KeyError, IndexError):
            raise Fails("%s has no item %r" % (T.show(a[0]), i))
        except TypeError:
            raise Unknown("no item %r of %s" % (i, T.show(a[0])))
    if o == "slice" and len(a) == 3:
        return slice(*[r(y) for y in a])
    if o in ("slicing", "slice") and len(a) == 4:
        x = r(a[0])
        if isinstance(x, Obj):
            raise Unknown(T.show(t))
        return x[slice(*[r(y) for y in a[1:]])]
    if o in ("list", "tuple"):
        v = [r(x) for x in a]
        return v if o == "list" else tuple(v)
    if o == "set":
        return {r(x) for x in a}
    if o == "concat":
        ps = [r(x) for x in a]
        out = ps[0]
        for x in ps[1:]:
            if isinstance(out, Arr) or isinstance(x, Arr):
                raise Unknown("arrays are joined")
            if isinstance(out, list) and isinstance(x, tuple):
                x = list(x)
            out = out + x
        return out
    if o == "seq":
        return list(r(a[0]))
    if o == "fstr":
        return "".join(str(r(x)) for x in a)
    if o == "fmtd":
        v = r(a[0])
        v = repr(v) if a[2].args[0] == "r" else ascii(v) if a[2].args[0] == "a" else str(v) if a[2].args[0] == "s" else v
        return formatted(lambda: format(v, r(a[1])), t)
    if o == "strmod":
        x, y = r(a[0]), r(a[1])
        return formatted(lambda: x % y, t)
    if o == "repeat":
        return r(a[0]) * r(a[1])
    if o in ("eq", "is"):
        return r(a[0]) == r(a[1])
    if o == "none":
        return r(a[0]) is None
    if o == "lt0":
        return r(a[0]) < 0
    if o == "not":
        return not r(a[0])
    if o in ("and", "or"):
        for x in a:
            v = r(x)
            if bool(v) is (o == "or"):
                break
        return v
    if o in ("nonempty", "truthy"):
        return bool(r(a[0]))
    if o == "in":
        return r(a[0]) in r(a[1])
    if o == "exc":
        return False
    if o == "default":
        raise Unknown(T.show(t))
    if o == "copy":
        x = r(a[0])
        return x.copy() if isinstance(x, (list, dict, set)) else x
    if o == "new" and a[0] in ("list", "set"):
        c = p.state.heap.get((t, "$items"))
        if c is None:
            c = p.state.heap.get((t, "$copyof"))
        if c is None:
            raise Unknown(T.show(t))
        x = r(c)
        return list(x) if a[0] == "list" else set(x)
    if o == "new" and a[0] == "dict":
        return dict_value(t, p, b, depth)
    if o == "new":
        return Obj(t, b.stamp(t))
    if o == "loopvar":
        v = b.lvs.get((a[0], lvname(t)), MISSING)
        if v is MISSING:
            raise Unknown(T.show(t))
        return v.value()
    if o in ("after", "phi", "afterloop"):
        lp = find_loop(p, a[0]) or b.loops.get(a[0])
        up = b
        while lp is None and up.up is not None:
            pp, pb, _ = up.up
            lp = find_loop(pp, a[0])
            if lp is not None:
                return value(t, pp, pb, depth + 1)
            up = pb
        if lp is None and o == "phi":
            return value(choice(t, p, b), p, b, depth + 1)
        if lp is None:
            raise Unknown(T.show(t))
        name = a[1] if o != "afterloop" else hname((a[1], a[2]) + tuple(a[3]))
        end = None
        for q, bk, nxt in iterate(lp, p, b):
            end = nxt
        if end is None:
            v = start_of(lp, p, b).get((a[0], name))
            if v is None and o == "afterloop" and a[1].op == "new" and a[1].args[0] in ("list", "set") and a[2] == "$items" and lp.within(a[1]) is False:
                return [] if a[1].args[0] == "list" else set()
            return v.value() if v is not None else fail(t)
        v = end.get((a[0], name), MISSING)
        if v is MISSING:
            fail(t)
        return v.value()
    if o == "mutated":
        x = r(a[0])
        if a[1] == "setslice":
            if not isinstance(x, Arr):
                raise Unknown(T.show(t))
            x = x.copy()
            x.put(slice(*[r(y) for y in a[2][0].args]), r(a[2][1]))
            return x
        args = [r(y) for y in a[2]]
        if isinstance(x, (list, set, dict)):
            x = x.copy()
            getattr(x, a[1])(*args)
            return x
        raise Unknown(T.show(t))
    if o == "call" or o == "result":
        name = a[0]
        if o == "call":
            args, recv = list(a[1]), None
            if name.startswith("."):
                recv, args = args[0], args[1:]
        else:
            recv, args = (a[1][0] if a[1] else None), list(a[2])
        kw = {x.args[0]: r(x.args[1]) for x in args if x.op == "kw"}
        args = [x for x in args if x.op != "kw"]
        short = name.split(".")[-1]
        if recv is None and name in b.calls or recv is not None and name.startswith(".") and name in b.calls:
            return b.calls[name](*[r(x) for x in ([recv] if recv is not None else []) + args], **kw)
        if short in b.calls:
            return b.calls[short](*[r(x) for x in args], **kw)
        if recv is not None and name.startswith("."):
            if short in ("get",):
                x = r(recv)
                if isinstance(x, dict):
                    return x.get(*[r(y) for y in args])
            if short in ("keys", "values", "items"):
                x = r(recv)
                if isinstance(x, dict):
                    return list(getattr(x, short)())
            if short == "copy":
                return r(recv).copy()
            if short == "format":
                x = r(recv)
                if isinstance(x, str):
                    return formatted(lambda: x.format(*[r(y) for y in args], **kw), t)
            if short in ("strftime", "isoformat", "date", "toordinal", "weekday", "total_seconds", "strptime") and isinstance(r(recv), (datetime.date, datetime.timedelta)):
                return getattr(r(recv), short)(*[r(y) for y in args], **kw)
            if short in STR:
                x = r(recv)
                if isinstance(x, (str, list)):
                    return getattr(x, short)(*[r(y) for y in args], **kw)
        if name == "$keys":
            x = r(args[0])
            return list(x)
        if recv is None and name in FUNCS and o == "call" or recv is None and name in FUNCS and name in ("enumerate", "zip", "reversed"):
            if name in ("min", "max", "sorted") and "key" in kw:
                raise Unknown(T.show(t))
            return FUNCS[name](*[r(x) for x in args], **kw)
        if name in ("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like") and args and isinstance(r(args[0]), Arr):
            return writes(t, Arr([ARRAYS[short[:-5]]] * len(r(args[0]))), p, b, depth)
        if name.startswith("numpy.") and short in ARRAYS and args and isinstance(r(args[0]), (list, tuple)):
            d = list(r(args[0]))
            if len(d) != 2:
                raise Unknown(T.show(t))
            return Mat([[ARRAYS[short]] * d[1] for _ in range(d[0])])
        if name.startswith("numpy.") and short in ARRAYS and args:
            return writes(t, Arr([ARRAYS[short]] * int(r(args[0]))), p, b, depth)
        if name in ("numpy.array", "numpy.asarray", "numpy.arange", "numpy.full", "numpy.repeat") and args:
            n = 1 if name in ("numpy.array", "numpy.asarray") else 2 if name != "numpy.arange" else 3
            v = [r(x) for x in args]
            return writes(t, NUMPY[name](*[x for x in v if not isinstance(x, (str, Obj))][:n]), p, b, depth)
        if name in ("numpy.searchsorted", "bisect.bisect", "bisect.bisect_right", "bisect.bisect_left"):
            v = [r(x) for x in args]
            return searchsorted(*v[:2], **kw) if name.startswith("numpy") else searchsorted(v[0], v[1], "left" if name.endswith("left") else "right")
        if name in DATES:
            return DATES[name](*[r(x) for x in args], **kw)
        if name in NUMPY and args:
            return NUMPY[name](*[r(x) for x in args])
        if short == "cumsum" and recv is not None:
            return cumsum(r(recv))
        if short == "sum" and recv is not None and isinstance(r(recv), Arr):
            return sum(r(recv))
        if short in ("tolist", "astype") and recv is not None and isinstance(r(recv), Arr):
            return r(recv)
        if name == "next" and args and args[0].op == "new" and args[0].args[0] == "list":
            x = r(args[0])
            if not x and len(args) < 2:
                raise Fails("next of nothing")
            return x[0] if x else r(args[1])
        if o == "result":
            if name.split(".")[0] in COMPUTING:
                raise Unknown(T.show(t))
            return Obj(t, b.stamp(t))
        raise Unknown(T.show(t))
    if o == "attr":
        x = r(a[0])
        if isinstance(x, (datetime.date, datetime.timedelta)) and a[1] in ("days", "year", "month", "day", "seconds"):
            return getattr(x, a[1])
        if isinstance(x, Arr) and a[1] == "values":
            return x
        if isinstance(x, Rec):
            if a[1] in x.attrs:
                return x.attrs[a[1]]
            raise Unknown(T.show(t))
    if o in ("sym", "attr", "global", "classattr", "ext"):
        return Obj(t, b.stamp(t))
    raise Unknown(T.show(t))


def formatted(f, t):
    try:
        return f()
    except (TypeError, ValueError, IndexError, KeyError) as e:
        if isinstance(e, (IndexError, KeyError)) or "arguments" in str(e):
            raise Fails("formatting %s: %s" % (T.show(t)[:80], e))
        raise Unknown(str(e))


def fail(t):
    raise Unknown(T.show(t))


def writes(t, out, p, b, depth=0):
    """an array of known length after everything written to it"""
    mine = lambda e: e.kind in ("subwrite", "mutate") and e.base is t
    for e, q, bb in list(before(t, p, b, mine)) + list(replay(p, b.during(t, out), only=mine)):
        if e.kind != "subwrite":
            raise Unknown("%s of an array" % e.method)
        bb = bb.during(t, out)
        i, v = e.d["key"], value(e.value, q, bb, depth + 1)
        if i.op == "slice":
            out.put(slice(*[value(x, q, bb, depth + 1) for x in i.args]), v)
            continue
        i = value(i, q, bb, depth + 1)
        try:
            out[i] = v
        except IndexError:
            raise Fails("%r is outside the array of length %d" % (i, len(out)))
        except TypeError:
            raise Unknown(T.show(t))
    return out


def dict_value(t, p, b, depth=0):
    h = p.state.heap
    out = {}
    if (t, "$copyof") in h:
        out.update(value(h[(t, "$copyof")], p, b, depth + 1))
    written = set()
    mine = lambda e: e.kind in ("subwrite", "mutate") and e.base is t
    evs = list(before(t, p, b, mine)) + list(replay(p, b, only=mine))
    for e, q, bb in evs:
        if e.kind == "subwrite":
            written.add(e.d["key"])
    for k, v in h.items():
        if k[0] is t and len(k) == 3 and k[1] == "[]" and k[2] not in written:
            out[value(k[2], p, b, depth + 1)] = value(v, p, b, depth + 1)
    for e, q, bb in evs:
        if e.kind == "subwrite":
            out[value(e.d["key"], q, bb, depth + 1)] = value(e.value, q, bb, depth + 1)
        elif e.method == "update" and e.args:
            out.update(value(e.args[0], q, bb, depth + 1))
        else:
            raise Unknown("%s of a dictionary" % e.method)
    return out


def choice(t, p, b):
    """the value a loop without effects leaves in a variable"""
    best = None
    init = None
    for v, delta in t.args[2]:
        if not delta:
            init = v
            continue
        xs = [x for a, _ in delta for x in T.walk(a) if x.op in ("elem", "index") and len(x.args) > 1 and isinstance(x.args[1], tuple) and "found" in x.args[1]]
        if not xs:
            raise Unknown(T.show(t))
        lid = xs[0].args[1]
        items = value(xs[0].args[0], p, b)
        if isinstance(items, Obj):
            raise Unknown(T.show(t))
        for k in range(len(list(items))):
            bk = b.inner(lid, k, {})
            ts = [truth(a, p, bk) is s if truth(a, p, bk) is not None else None for a, s in delta]
            if None in ts and False not in ts:
                raise Unknown(T.show(t))
            if all(ts):
                if best is None or best[0] < k:
                    best = (k, v)
                if lid[-1] == "first":
                    break
    if best is not None:
        return best[1]
    if init is None:
        raise Unknown(T.show(t))
    return init


def found(t, p, b):
    """the iteration a value left behind by a loop comes from: the last one (first one, if it ends the loop) with the
    conditions the path records"""
    lid = t.args[1]
    if not (isinstance(lid, tuple) and "found" in lid):
        raise Unknown(T.show(t))
    items = value(t.args[0], p, b)
    if isinstance(items, Obj):
        raise Unknown(T.show(t))
    ks = list(range(len(list(items))))
    for k in ks if lid[-1] == "first" else ks[::-1]:
        bk = b.inner(lid, k, {})
        for g in (p.alts or [p.cons]):
            if all(truth(a, p, bk) is v for a, v in g.items() if any(x.op in ("elem", "index") and len(x.args) > 1 and x.args[1] == lid for x in T.walk(a))):
                return k, None
    raise Unknown(T.show(t))


def before(t, p, b, only):
    """events on an object of an enclosing path, up to the iteration under way"""
    if b.up is None:
        return
    pp, pb, lp = b.up
    if lp.within(t):
        return
    yield from before(t, pp, pb, only)
    for e in pp.events:
        if e is lp:
            for q, bk, _ in iterate(e, pp, pb, b.its[lp.lid][0]):
                yield from replay(q, bk, only)
            return
        if e.kind == "loop":
            if mentions(e, only):
                for q, bk, _ in iterate(e, pp, pb):
                    yield from replay(q, bk, only)
        elif only(e):
            yield e, pp, pb


def so_far(t, x, p, b):
    """a table after what earlier turns of the loops under way wrote to it"""
    mine = lambda e: e.kind in ("subwrite", "mutate") and e.base is t
    up, any_ = b, False
    while up.up is not None:
        any_ = any_ or mentions(up.up[2], mine)
        up = up.up[1]
    if not any_:
        return x
    x = x.copy()
    for e, q, bb in before(t, p, b, mine):
        bb = bb.during(t, x)
        if e.kind == "subwrite":
            x[value(e.d["key"], q, bb)] = value(e.value, q, bb)
        else:
            getattr(x, e.method)(*[value(y, q, bb) for y in e.args])
    return x


def find_loop(p, lid):
    for e in p.events:
        if e.kind == "loop" and e.lid == lid:
            return e
    return p.state.silent.get(lid)


def truth(atom, p, b):
    try:
        return bool(value(atom, p, b))
    except (Unknown, TypeError, ValueError, ZeroDivisionError, AttributeError, IndexError):
        return None


def possible(q, b, outer=None):
    """the path is not ruled out; True when all its conditions are known to hold on one alternative"""
    best = None
    for phi, v in q.state.narrow.items():
        try:
            if find_loop(q, phi.args[0]) is None and phi.args[0] not in b.loops:
                if choice(phi, q, b) is not v:
                    return None
            elif value(phi, q, b) != value(v, q, b):
                return None
        except (Unknown, Gone, TypeError, ValueError):
            pass
    for g in (q.alts or [q.cons]):
        known = True
        for a, v in g.items():
            if outer is not None and a in outer and outer[a] is v:
                continue
            x = truth(a, q, b)
            if x is None:
                known = False
            elif x is not v:
                break
        else:
            if known:
                return True
            best = False
    return best


def start_of(lp, p, b):
    """values carried into the first iteration"""
    out = {}
    for k, v in lp.d["init"].items():
        name = k if isinstance(k, str) else hname(k)
        out[(lp.lid, name)] = Later(v, p, b)
    for q in lp.paths:
        for k in q.state.heap:
            if k in lp.d["init"] or k[0].op == "new" or not isinstance(k[1], str) or k[1].startswith("$") or len(k) != 2:
                continue
            name = hname(k)
            if (lp.lid, name) not in out:
                out[(lp.lid, name)] = Later(mk("attr", k[0], k[1], 0), p, b)
    return out


def count(lp, p, b):
    """number of iterations and, where the order differs, the items themselves"""
    if lp.loopkind == "while":
        return 60, None
    raw = lp.raw if lp.raw is not None else lp.iter
    try:
        items = value(raw, p, b)
    except Unknown:
        items = value(lp.iter, p, b)
    if isinstance(items, Obj):
        raise Unknown(T.show(raw))
    items = list(items)
    src = None
    x = raw
    while x.op == "call" and x.args[0] in ("enumerate", "list", "tuple") and x.args[1]:
        x = x.args[1][0]
    if x.op in ("call", "result") and x.args[0] in ("sorted", "reversed"):
        y = (x.args[1] if x.op == "call" else x.args[2])[0]
        while y.op == "call" and y.args[0] in ("list", "tuple") and y.args[1] or y.op == "new" and (y, "$copyof") in p.state.heap:
            y = y.args[1][0] if y.op == "call" else p.state.heap[(y, "$copyof")]
        got = list(value(x, p, b))
        if y.op == "call" and y.args[0] in (".values", ".items", ".keys") or (y.ty or "") == "dict":
            tab = y.args[1][0] if y.op == "call" and y.args[0].startswith(".") else y
            keys = got if y is tab or y.args[0] == ".keys" else [k for k, _ in got] if y.args[0] == ".items" else None
            if keys is None:
                d = value(tab, p, b)
                keys = []
                for v in got:
                    keys.append(next(k for k in d if k not in keys and d[k] == v))
            src = (T.fcall("$keys", tab), keys)
        else:
            src = (lp.iter, got)
    elif x.op in ("slicing", "slice") and x is not lp.iter:
        src = (lp.iter, list(value(x, p, b)))
    return len(items), src


def iterate(lp, p, b, upto=None):
    """the body paths taken, one per iteration: (path, bindings, values carried on)"""
    k = (lp, p, "iterate")
    m = b.memo.get(k)
    if m is None:
        m = b.memo[k] = [[], iterations(lp, p, b), False]       # done so far, what follows, how it ended
    i = 0
    while upto is None or i < upto:
        if i == len(m[0]):
            if m[2] is True:
                return
            if m[2]:
                raise m[2]
            try:
                m[0].append(next(m[1]))
            except StopIteration:
                m[2] = True
                return
            except (Unknown, Gone) as e:
                m[2] = e
                raise
            except ValueError as e:
                if "already executing" not in str(e):
                    del b.memo[k]
                    raise
                raise Unknown("a loop that depends on itself")
            except Exception:
                del b.memo[k]
                raise
        yield m[0][i]
        i += 1


def iterations(lp, p, b):
    n, src = count(lp, p, b)
    lv = start_of(lp, p, b)
    for k in range(n):
        bk = b.inner(lp.lid, k, lv, src, (p, b, lp))
        if lp.loopkind == "while" and not ways(lp.paths, bk):
            return
        if lp.loopkind == "while" and k == n - 1:
            raise Unknown("a loop that goes on")
        q, bk = the_way(lp.paths, bk, "the loop at %s" % lp.where)
        nxt = dict(lv)
        for (lid, name), old in lv.items():
            t = q.state.env.get(name)
            if t is None:
                for kk, tt in q.state.heap.items():
                    if hname(kk) == name:
                        t = tt
                        break
            if t is None or t.op == "loopvar" and (t.args[0], lvname(t)) == (lid, name):
                continue
            nxt[(lid, name)] = Later(t, q, bk)
        for name, t in q.state.env.items():
            if (lp.lid, name) not in nxt and isinstance(t, T.Term):
                nxt[(lp.lid, name)] = Later(t, q, bk)
        yield q, bk, nxt
        lv = nxt
        if q.exit == "break":
            return
        if q.exit in ("return", "raise", "exit"):
            raise Gone(q.exit)


def ways(paths, b):
    """the paths the values allow: (path, bindings, certain)"""
    out = []
    for q in paths:
        if q.exit == "stop":
            continue
        bq = entered(q, b)
        if bq is None:
            continue
        x = possible(q, bq)
        if x is not None:
            out.append((q, bq, x))
    return earliest(out)


def earliest(out):
    """a way that certainly leaves a loop in some turn rules out those that leave it later or not at all"""
    def turns(q, bq):
        r = []
        for e in q.events:
            if e.kind == "enter":
                if e.lid not in bq.its:
                    break
                r.append((e.lid, bq.its[e.lid][0]))
        return r
    sure = [turns(q, bq) for q, bq, x in out if x is True]
    sure = [t for t in sure if t]
    if not sure:
        return out
    keep = []
    for q, bq, x in out:
        mine = turns(q, bq)
        past = {e.lid for e in q.events if e.kind == "loop"} | set(q.state.silent)
        for t in sure:
            if not mine and t[0][0] in past:
                break
            for (l1, k1), (l2, k2) in zip(mine, t):
                if l1 != l2 or k1 < k2:
                    late = False
                    break
                if k1 > k2:
                    late = True
                    break
            else:
                late = False
            if late:
                break
        else:
            keep.append((q, bq, x))
    return keep


def the_way(paths, b, what):
    ws = ways(paths, b)
    sure = [w for w in ws if w[2]]
    if len(sure) == 1:
        ws = sure
    if len(ws) > 1 and len({(q.exit, len(q.events)) for q, _, _ in ws}) == 1 and not any(q.events for q, _, _ in ws) and len({str(sorted((k, v.id) for k, v in q.state.env.items() if isinstance(v, T.Term))) for q, _, _ in ws}) == 1:
        ws = ws[:1]
    if len(ws) != 1:
        why = stuck(ws)
        if why is not None:
            raise Fails("%s: %s" % (what, why))
        raise Unknown("%d ways through %s" % (len(ws), what))
    return ws[0][0], ws[0][1]


def stuck(ws):
    """all ways that are left ask the same first question, and asking it fails"""
    first = set()
    why = None
    for q, b, _ in ws:
        for g in (q.alts or [q.cons]):
            for a, v in g.items():
                x = truth(a, q, b)
                if x is None:
                    first.add(a)
                    try:
                        value(a, q, b)
                        return None
                    except Fails as e:
                        why = str(e)
                    except (Unknown, Gone, TypeError, ValueError, ZeroDivisionError, AttributeError, IndexError, KeyError):
                        return None
                    break
                if x is not v:
                    break
            else:
                return None
    return why if len(first) == 1 else None


def entered(q, b):
    """a path that leaves from inside a loop: the iteration is the first one its conditions allow"""
    for e in q.events:
        if e.kind != "enter":
            continue
        try:
            items = value(e.iter, q, b)
            if isinstance(items, Obj):
                continue
            n = len(list(items))
        except (Unknown, TypeError):
            continue
        for k in range(n):
            bk = b.inner(e.lid, k, {})
            good = True
            for g in (q.alts or [q.cons]):
                good = True
                for a, v in g.items():
                    if any(x.op in ("elem", "index") and len(x.args) > 1 and x.args[1] == e.lid for x in T.walk(a)):
                        y = truth(a, q, bk)
                        if y is not None and y is not v:
                            good = False
                            break
                if good:
                    break
            if good:
                b = bk
                break
        else:
            return None
    return b


def replay(p, b, only=None):
    """events in the order in which they happen, with the path and bindings they happen in"""
    for e in p.events:
        if e.kind == "loop":
            if only is not None and not mentions(e, only):
                continue
            for q, bk, _ in iterate(e, p, b):
                yield from replay(q, bk, only)
        elif only is None or only(e):
            yield e, p, b


def mentions(lp, only):
    for q in lp.paths:
        for e in q.events:
            if e.kind == "loop" and mentions(e, only) or e.kind != "loop" and only(e):
                return True
    return False
