"""Equality of extracted arithmetic terms by polynomial identity testing: both
terms are expressions over the same leaves; they are the same function when they
agree at random points of the leaves (Schwartz-Zippel), so algebraic rewriting of
the source does not matter."""
import hashlib
import math
import random
from . import terms as T

WRAP = {"float", "numpy.float64"}


def _leafval(t, seed):
    h = hashlib.sha256(("%d/%d" % (seed, t.id)).encode()).digest()
    return 0.15 + (int.from_bytes(h[:6], "big") / 2**48) * 2.7


def value(t, seed, env, memo):
    if t in memo:
        return memo[t]
    v = _value(t, seed, env, memo)
    memo[t] = v
    return v


def _value(t, seed, env, memo):
    go = lambda x: value(x, seed, env, memo)
    if env and t in env:
        return env[t]
    o, a = t.op, t.args
    if o == "const":
        if isinstance(a[0], bool) or not isinstance(a[0], (int, float)):
            return _leafval(t, seed)
        return float(a[0])
    if o == "lin":
        return float(a[0]) + sum(k * go(x) for x, k in a[1])
    if o == "mul":
        r = float(a[0])
        for x, e in a[1]:
            r *= _pow(go(x), e)
        return r
    if o == "pow":
        return _pow(go(a[0]), go(a[1]))
    if o == "call" and len(a[1]) >= 1:
        n = a[0]
        if n in WRAP and len(a[1]) == 1:
            return go(a[1][0])
        if n == "math.radians" and len(a[1]) == 1:
            return math.radians(go(a[1][0]))
        if n == "abs":
            return abs(go(a[1][0]))
        if n in ("max", "min") and len(a[1]) > 1:
            return {"max": max, "min": min}[n](*[go(x) for x in a[1]])
        if n in ("math.pow", "pow") and len(a[1]) == 2:
            return _pow(go(a[1][0]), go(a[1][1]))
        if n == "math.sqrt":
            return _pow(go(a[1][0]), 0.5)
        # unknown pure function: a leaf determined by its name and argument values
        h = hashlib.sha256(repr((seed, n, [round(go(x), 6) if isinstance(x, T.Term) else x for x in a[1]])).encode()).digest()
        return 0.15 + (int.from_bytes(h[:6], "big") / 2**48) * 2.7
    return _leafval(t, seed)


def _pow(x, y):
    try:
        if x < 0:
            return -(abs(x) ** y) if y == int(y) and int(y) % 2 else abs(x) ** y
        return x ** y
    except (OverflowError, ZeroDivisionError):
        return 1e300


def same(a, b, env_pairs=None, points=6):
    """a and b agree everywhere (numerically)"""
    if a is b:
        return True
    for seed in range(points):
        x, y = value(a, seed, None, {}), value(b, seed, None, {})
        if isinstance(x, complex) or isinstance(y, complex):
            return False
        if not math.isclose(x, y, rel_tol=1e-7, abs_tol=1e-9):
            return False
    return True


def ratio(a, b, points=8):
    """constant c > 0 with a == c*b everywhere, else None"""
    c = None
    for seed in range(points):
        x, y = value(a, seed, None, {}), value(b, seed, None, {})
        if y == 0:
            return None
        r = x / y
        if r <= 0 or (c is not None and not math.isclose(c, r, rel_tol=1e-6)):
            return None
        c = r
    return c


def lt_atom(atom, a, b):
    """does this branch atom decide a < b?  -> the polarity meaning a<b, or None.
    also returns 'le' when it decides b < a (so not-atom means a <= b)"""
    if atom.op != "lt0":
        return None
    d = T.sub(a, b)
    e = atom.args[0]
    if e is d or ratio(e, d) is not None:
        return True
    # integer normalisation: -L-1 < 0 is stored negated
    return None


def known_lt(cons, a, b):
    """True/False/None: is a < b decided by the branch atoms"""
    if T.is_num(a) and T.is_num(b):
        return a.args[0] < b.args[0]
    at, pol = T.lt(a, b)
    if at in cons:
        return cons[at] is pol
    d = T.sub(a, b)
    nd = T.neg(d)
    for k, v in cons.items():
        if k.op == "lt0":
            e = k.args[0]
            if ratio(e, d) is not None:
                return v
            if v and ratio(e, nd) is not None:
                return False      # b < a
    return None


def known_le(cons, a, b):
    """a <= b decided?"""
    r = known_lt(cons, b, a)
    if r is not None:
        return not r
    r = known_lt(cons, a, b)
    return True if r else None
