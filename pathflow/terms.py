"""Interned value terms (value numbering) with small normal forms."""

_table = {}
_next = [0]


class Term:
    __slots__ = ("op", "args", "ty", "id", "phis")

    def __repr__(self):
        return show(self)


def _key(a):
    if isinstance(a, (bool, int, float, str, bytes, complex)) or a is None:
        return (type(a).__name__, a)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return a


def mk(op, *args, ty=None):
    k = (op, _key(args), ty if op == "sym" else None)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.ty = op, args, ty
        _next[0] += 1
        t.id = _next[0]
        ph = frozenset()
        for a in _flat(args):
            ph = ph | a.phis
        if op == "phi":
            ph = frozenset([t])
        t.phis = ph
        _table[k] = t
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


def _flat(args):
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _flat(a)


def children(t):
    return list(_flat(t.args))


def walk(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(_flat(x.args))


def contains(t, sub):
    return any(x is sub for x in walk(t))


def const(v):
    if isinstance(v, bool):
        return mk("const", v, ty="bool")
    if v is None:
        return mk("const", v, ty="none")
    return mk("const", v, ty=type(v).__name__)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t):
    return t.op == "const"


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def is_listlike(t):
    return (t.ty or "").startswith("list") or t.op in ("list", "concat", "slice", "tuple")


# ---- arithmetic ------------------------------------------------------------
def _lin(t):
    """-> (const, {term: coef})"""
    if is_num(t):
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    if t.op == "mul" and t.args[0] != 1:
        c, rest = t.args
        return 0, {_mk_mul(1, dict(rest)): c}
    return 0, {t: 1}


def _numtype(ts):
    tys = [t.ty for t in ts]
    if all(x in ("int", "bool") for x in tys):
        return "int"
    if any(x == "float" for x in tys):
        return "float"
    return None


def _mk_lin(c, d, ty=None):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
        if t.op == "mul":
            return _mk_mul(k * t.args[0], dict(t.args[1]), ty)
        return _mk_mul(k, {t: 1}, ty)
    items = tuple(sorted(d.items(), key=lambda x: x[0].id))
    return mk("lin", c, items, ty=ty or _numtype(list(d)))


def add(a, b):
    if a.op == "const" and b.op == "const" and isinstance(a.args[0], str) and isinstance(b.args[0], str):
        return const(a.args[0] + b.args[0])
    if is_listlike(a) or is_listlike(b) or a.ty == "str" or b.ty == "str":
        return concat(a, b)
    ca, da = _lin(a)
    cb, db = _lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k
    return _mk_lin(ca + cb, d, _numtype([a, b]))


def neg(a):
    c, d = _lin(a)
    return _mk_lin(-c, {t: -k for t, k in d.items()}, a.ty)


def sub(a, b):
    return add_num(a, neg(b))


def add_num(a, b):
    ca, da = _lin(a)
    cb, db = _lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k
    return _mk_lin(ca + cb, d, _numtype([a, b]))


def _mk_mul(c, d, ty=None):
    d = {t: e for t, e in d.items() if e != 0}
    if c == 0:
        return const(0)
    if not d:
        return const(c)
    if c == 1 and len(d) == 1:
        (t, e), = d.items()
        if e == 1:
            return t
    items = tuple(sorted(d.items(), key=lambda x: x[0].id))
    return mk("mul", c, items, ty=ty or (None if any(e < 0 for _, e in items) else _numtype(list(d))))


def _mulparts(t):
    if is_num(t):
        return t.args[0], {}
    if t.op == "mul":
        return t.args[0], dict(t.args[1])
    return 1, {t: 1}


def mul(a, b):
    if is_listlike(a) or is_listlike(b):
        return mk("repeat", a, b, ty="list")
    if is_num(a) and b.op == "lin":
        c, d = _lin(b)
        return _mk_lin(c * a.args[0], {t: k * a.args[0] for t, k in d.items()}, b.ty)
    if is_num(b) and a.op == "lin":
        return mul(b, a)
    ca, da = _mulparts(a)
    cb, db = _mulparts(b)
    d = dict(da)
    for t, e in db.items():
        d[t] = d.get(t, 0) + e
    return _mk_mul(ca * cb, d)


def div(a, b):
    if is_num(b) and b.args[0] != 0:
        if a.op == "lin":
            return mul(const(1.0 / b.args[0]), a)
        ca, da = _mulparts(a)
        v = ca / b.args[0]
        return _mk_mul(int(v) if v == int(v) else v, da)
    ca, da = _mulparts(a)
    cb, db = _mulparts(b)
    d = dict(da)
    for t, e in db.items():
        d[t] = d.get(t, 0) - e
    return _mk_mul(ca / cb if cb not in (1,) else ca, d)


def power(a, b):
    if is_num(a) and is_num(b):
        try:
            return const(a.args[0] ** b.args[0])
        except Exception:
            pass
    if is_num(b) and isinstance(b.args[0], int):
        c, d = _mulparts(a)
        if c == 1:
            return _mk_mul(1, {t: e * b.args[0] for t, e in d.items()})
    return mk("pow", a, b)


# ---- sequences -------------------------------------------------------------
def lst(*items):
    return mk("list", *items, ty="list")


def concat(*parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out.extend(p.args)
        else:
            out.append(p)
    # merge literal neighbours, drop empties
    res = []
    for p in out:
        if p.op == "list" and not p.args:
            continue
        if p.op == "list" and res and res[-1].op == "list":
            res[-1] = lst(*(res[-1].args + p.args))
        else:
            res.append(p)
    if not res:
        return lst()
    if len(res) == 1:
        return res[0]
    tys = [p.ty for p in res if p.ty]
    ty = "str" if "str" in tys else (tys[0] if tys else None)
    for x in tys:
        if x.startswith("list:"):
            ty = x
    return mk("concat", *res, ty=ty)


# ---- predicates ------------------------------------------------------------
def lt(a, b):
    """canonical (atom, polarity) for a < b"""
    d = sub(a, b)
    if is_num(d):
        return (TRUE if d.args[0] < 0 else FALSE), True
    c, items = _lin(d)
    if d.ty == "int" and isinstance(c, int):
        # integer: L<0  <=>  not (-L-1 < 0)
        alt = _mk_lin(-c - 1, {t: -k for t, k in items.items()}, "int")
        ac, _ = _lin(alt)
        lead = min(items, key=lambda t: t.id)
        if abs(ac) < abs(c) or (abs(ac) == abs(c) and items[lead] < 0):
            return mk("lt0", alt, ty="bool"), False
    return mk("lt0", d, ty="bool"), True


def eq(a, b, ident=False):
    for x, y in ((a, b), (b, a)):
        if x is TRUE:
            return y, True
        if x is FALSE:
            return y, False
        if x is NONE:
            if y.op == "const":
                return (TRUE if y is NONE else FALSE), True
            if y.op in ("list", "tuple", "new", "concat", "str"):
                return FALSE, True
            return mk("none", y, ty="bool"), True
    if a is b:
        return TRUE, True
    if a.op == "const" and b.op == "const":
        return (TRUE if a.args[0] == b.args[0] else FALSE), True
    for x, y in ((a, b), (b, a)):
        if (x.op == "const" and x.args[0] == 0 and not isinstance(x.args[0], bool) and is_len(y)):
            return mk("nonempty", y.args[1][0], ty="bool"), False
        if x.op == "list" and not x.args:
            return mk("nonempty", y, ty="bool"), False
    if a.id > b.id:
        a, b = b, a
    return mk("is" if ident else "eq", a, b, ty="bool"), True


def is_len(t):
    return t.op == "call" and t.args[0] == "len"


def fcall(name, *args, ty=None):
    """pure external/builtin call"""
    return mk("call", name, tuple(args), ty=ty)


def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t) if not isinstance(t, tuple) else "(" + ",".join(show(x) for x in t) + ")"
    if depth > 8:
        return "..."
    d = depth + 1
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "attr":
        return "%s.%s%s" % (show(a[0], d), a[1], "'" * a[2] if len(a) > 2 and isinstance(a[2], int) else "")
    if o == "elem":
        return "each(%s)" % show(a[0], d)
    if o == "index":
        return "indexof(%s)" % show(a[0], d)
    if o == "idx":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "lin":
        return "(" + " + ".join(["%s%s" % ("" if k == 1 else "%s*" % k, show(x, d)) for x, k in a[1]] + ([str(a[0])] if a[0] else [])) + ")"
    if o == "mul":
        return "(" + " * ".join(([str(a[0])] if a[0] != 1 else []) + ["%s%s" % (show(x, d), "" if e == 1 else "^%s" % e) for x, e in a[1]]) + ")"
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1]))
    if o == "list":
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    if o == "lt0":
        return "%s < 0" % show(a[0], d)
    if o == "eq":
        return "%s == %s" % (show(a[0], d), show(a[1], d))
    if o == "none":
        return "%s is None" % show(a[0], d)
    if o == "new":
        return "new %s" % (a[0],)
    if o == "classattr":
        return "%s.%s" % (a[0], a[1])
    if o in ("phi", "loopvar"):
        return "%s<%s>" % (o, a[1] if isinstance(a[1], str) else show(a[1], d))
    return "%s(%s)" % (o, ", ".join(show(x, d) if isinstance(x, Term) else (show(x) if isinstance(x, tuple) else str(x)) for x in a))


def rebuild(t, f):
    """rebuild t bottom-up with f mapping a term to a replacement or None"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = f(x)
        if r is not None:
            memo[x] = r
            return r
        if x.op in ("const", "sym"):
            memo[x] = x
            return x

        def conv(a):
            if isinstance(a, Term):
                return go(a)
            if isinstance(a, tuple):
                return tuple(conv(y) for y in a)
            return a
        na = tuple(conv(a) for a in x.args)
        if x.op == "lin":
            r = const(x.args[0])
            for y, k in na[1]:
                r = add_num(r, mul(const(k), y))
        elif x.op == "mul":
            r = const(x.args[0])
            for y, e in na[1]:
                r = mul(r, power(y, const(e)) if e != 1 else y)
        elif x.op == "concat":
            r = concat(*na)
        elif x.op == "lt0":
            a, p = lt(na[0], const(0))
            r = a if p else mk("not", a, ty="bool")
        elif x.op in ("eq", "is"):
            a, p = eq(na[0], na[1], x.op == "is")
            r = a if p else mk("not", a, ty="bool")
        elif x.op == "none":
            a, p = eq(na[0], NONE)
            r = a if p else mk("not", a, ty="bool")
        else:
            r = mk(x.op, *na, ty=x.ty)
        memo[x] = r
        return r
    return go(t)


def strip(t):
    """drop float()/int()/bool()/str wrappers (numeric coercions) everywhere"""
    def f(x):
        if x.op == "call" and x.args[0] in ("float", "int", "bool") and len(x.args[1]) == 1:
            return strip(x.args[1][0])
        return None
    return rebuild(t, f)
