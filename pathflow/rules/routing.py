"""R01-R06: planning a move: purity, search, chances, weights, choice, stored routes"""
import ast
import itertools
from ..report import *          # noqa
from ..report import mk, T
from ..terms import NONE, TRUE, FALSE, const
from ..cells import Cell, cross

MOV, CRA = "flee.moving:", "flee.crawling:"
WORLDS = ("serial", "parallel")


def guards(p):
    return p.alts or [p.cons]


def last(e):
    return e.name.split(".")[-1]


def subst(table):
    """substitution from a list of (test, value): values are Python constants"""
    def f(t):
        for test, v in table:
            if test(t):
                return const(v) if not isinstance(v, T.Term) else v
        return None
    return f


def is_setting(key):
    def f(t):
        s = setting(t)
        return s is not None and s[-1] == key
    return f


def attr_of(base, name):
    return lambda t: t.op == "attr" and t.args[1] == name and base(t.args[0])


def is_sym(name):
    return lambda t: t.op == "sym" and t.args[0] == name


def is_item(base, key):
    """a named entry of a dictionary, however it is looked up"""
    def f(t):
        if t.op == "idx" and t.args[1] is const(key):
            return base(t.args[0])
        if t.op == "call" and t.args[0].split(".")[-1] == "get":
            flat = list(t.args[1])
            return len(flat) >= 2 and flat[1] is const(key) and base(flat[0])
        return False
    return f


def has_item(base, key):
    return lambda t: t.op == "in" and t.args[0] is const(key) and (base(t.args[1]) or t.args[1].op == "op" and base(t.args[1].args[0]))


def is_table(key, sub, rows):
    """an entry of a settings table: index looked up in `rows`"""
    def f(t):
        return t.op == "idx" and is_setting(key)(t.args[0])
    return f


def result_of(name, test=None):
    return lambda t: t.op == "result" and t.args[0].split(".")[-1] == name and (test is None or test(t))


# ---- R01 ---------------------------------------------------------------------
PLAN = ["flee.moving:getEndPointScore", "flee.moving:getCapMultiplier", "flee.moving:calculateLinkWeight", "flee.moving:normalizeWeights", "flee.moving:chooseFromWeights",
        "flee.moving:calculateMoveChance", "flee.moving:selectRoute", "flee.crawling:getLocationCrawlEndPointScore", "flee.crawling:_addLocationRoute",
        "flee.crawling:_addMajorRouteToLocation", "flee.crawling:calculateLocCrawlLinkWeight", "flee.crawling:insertMajorRoutesForLocation", "flee.crawling:compileDestList",
        "flee.crawling:insertAllMajorRoutesAtLocation", "flee.crawling:generateLocationRoutes", "flee.spawning:getAttributeRatio"]
PLANM = ["Location.getScore", "Location.calculateDistance", "Link.get_distance", "Link.getBaseEndPointScore", "Person.check_dest_is_full_camp"]
STORES = {"_addLocationRoute": ("routes",), "_addMajorRouteToLocation": ("routes",), "calculateLocCrawlLinkWeight": ("routes",), "insertMajorRoutesForLocation": ("routes",),
          "insertAllMajorRoutesAtLocation": ("routes",), "generateLocationRoutes": ("routes",)}
OPAQUE = {x.split(":")[1] for x in PLAN} - {"normalizeWeights", "getAttributeRatio"}
SHUFFLERS = {"random.shuffle", "numpy.random.shuffle", "heapq.heappush", "heapq.heappop", "heapq.heapify", "bisect.insort", "setattr", "delattr", "numpy.put", "numpy.copyto",
             "heapq.heapreplace", "heapq.heappushpop", "bisect.insort_left", "bisect.insort_right", "numpy.place", "numpy.fill_diagonal", "exec", "eval"}
FRESHRESULT = {"calculateLinkWeight", "compileDestList", "chooseFromWeights", "selectRoute"}


def fresh(t, lids, depth=0):
    """whether a value was created by the computation itself"""
    if depth > 12:
        return False
    o = t.op
    f = lambda x: fresh(x, lids, depth + 1)
    if o in ("new", "copy", "list", "dict", "set", "concat", "slicing", "const", "lin", "mul", "pow", "tuple", "lt0", "eq", "not"):
        return True
    if o == "after":
        return all(f(x) for x in t.args[2])
    if o == "phi":
        return all(f(x[0]) for x in t.args[2])
    if o == "afterloop":
        return f(t.args[1])
    if o == "loopvar":
        lp = lids.get(t.args[0])
        if lp is None:
            return False
        if isinstance(t.args[1], str) and t.args[1] in lp.d.get("init", {}):
            if not f(lp.d["init"][t.args[1]]):
                return False
            return all(q.state.env.get(t.args[1]) in (None, t) or f(q.state.env[t.args[1]]) for q in lp.paths)
        return any(isinstance(k, tuple) and k[0] in t.args and f(k[0]) for k in lp.d.get("init", {}))
    if o == "call":
        return t.args[0].split(".")[-1] in ("list", "sorted", "dict", "set", "tuple", "copy", "deepcopy", "array", "zeros", "range", "zip", "enumerate", "asarray", "sum")
    if o == "idx":
        b = t.args[0]
        if b.op == "result" and b.args[0].split(".")[-1] == "calculateLinkWeight":
            return True
        return False
    if o == "elem":
        return fresh_elems(t.args[0], lids, depth + 1)
    return False


def fresh_elems(t, lids, depth):
    if t.op == "idx" and t.args[0].op == "result" and t.args[0].args[0].split(".")[-1] == "calculateLinkWeight":
        return True
    if t.op == "concat":
        return all(fresh_elems(x, lids, depth + 1) for x in t.args)
    if t.op == "list":
        return all(fresh(x, lids, depth + 1) for x in t.args)
    if t.op == "after":
        return all(fresh_elems(x, lids, depth + 1) for x in t.args[2])
    if t.op == "loopvar":
        return True         # the other alternatives of the same loop decide
    if t.op == "new":
        return True if not t.args[1:] else False
    return False


def loops_of(ps):
    out = {}

    def go(p):
        for e in p.events:
            if e.kind == "loop":
                out[e.lid] = e
                for q in e.paths:
                    go(q)
    for p in ps:
        go(p)
    return out


def impure(e, lids):
    """the part of the model an event changes, or None"""
    if e.kind in ("write", "subwrite", "mutate"):
        b = e.base
        if fresh(b, lids):
            return None
        return b
    if e.kind == "call":
        n = e.name
        if n in SHUFFLERS:
            for k, v in e.args[:1]:
                if not fresh(v, lids):
                    return v
    return None


def r01(ctx):
    n = 0
    for w in WORLDS:
        todo = []
        for ref in PLAN:
            try:
                todo.append(ctx.func(ref))
            except Exception:
                ctx.need("planning function " + ref, 0)
        for ref in PLANM:
            todo.append(ctx.method(w, ref))
        upd = ctx.func("flee.scoring:updateLocationScore")
        todo.append(upd)
        for fn in todo:
            ps = ctx.paths(w, fn, stop=OPAQUE - {fn.name})
            lids = loops_of(ps)
            allowed = STORES.get(fn.name, ())
            own = fn.params[0] if fn.params else None
            if fn is upd:
                allowed, own = ("scores", "routes"), "loc"
            seen = set()
            for p in ps:
                for o in flatten(p):
                    e = o.ev
                    n += 1
                    b = impure(e, lids)
                    if b is None:
                        ctx.ok("R01.pure")
                        continue
                    if e.kind == "write" and b.op == "sym" and b.args[0] == own and e.attr in allowed:
                        ctx.ok("R01.pure")
                        continue
                    if e.kind in ("subwrite", "mutate") and any(is_attr(b, a) and b.args[0].op == "sym" and b.args[0].args[0] == own for a in allowed):
                        ctx.ok("R01.pure")
                        continue
                    if e.kind == "subwrite" and "scores" in allowed and b.op in ("attr", "classattr") and b.args[1] == "scores":
                        ctx.ok("R01.pure")
                        continue
                    what = "%s.%s" % (T.show(b), e.attr) if e.kind == "write" else T.show(b)
                    key = (fn.qual, what)
                    if key in seen:
                        continue
                    seen.add(key)
                    ctx.fail("R01.pure", "%s %s" % (fn.qual, what), "planning changes %s" % what, e.where, witness(p))
        memo(ctx, w, todo)
    routes_shared(ctx)
    ctx.need("effects looked at while planning", n, 100)


def memo(ctx, w, todo):
    """nothing a planning function computes is remembered from one call to the next"""
    done = set()
    for fn in sorted({g for g in reachable(ctx.prog, todo)} | set(todo), key=lambda g: g.qual):
        if fn.qual in done or not fn.module.name.startswith("flee."):
            continue
        done.add(fn.qual)
        for d in getattr(fn.node, "decorator_list", ()):
            txt = ast.unparse(d)
            ctx.check("cache" not in txt.lower() and "memo" not in txt.lower(), "R01.memory", fn.qual, "the result of this function is remembered (%s) although locations change" % txt, fn.where(fn.node))


def routes_shared(ctx):
    """with fixed routes an agent holds the stored list of its location, so it may only replace it"""
    for w in WORLDS:
        cls = ctx.worlds[w]["Person"]
        sel = ctx.func(MOV + "selectRoute")
        shared = False
        for p in ctx.paths(w, sel, stop=OPAQUE - {"selectRoute", "chooseFromWeights"}):
            for o in flatten(p):
                e = o.ev
                if e.kind == "call" and e.name.endswith("random.choices") or e.kind == "call" and last(e) == "chooseFromWeights":
                    shared = True
        for fn in sorted({f for c in cls.mro() for f in c.methods.values()}, key=lambda f: f.qual):
            if fn.name == "__init__":
                continue
            ps = ctx.paths(w, fn, stop=OPAQUE | {"finish_travel", "evolve"} - {fn.name})
            me = mk("sym", fn.params[0] if fn.params else "self", ty="Person")
            for p in ps:
                for o in flatten(p):
                    e = o.ev
                    if e.kind in ("mutate", "subwrite"):
                        b = e.base
                        hit = is_attr(b, "route") or result_of("selectRoute")(b) or is_attr(b, "routes")
                        ctx.check(not hit, "R01.stored", fn.qual, "%s is changed in place, although it is the route stored at the location (fixed routes)" % T.show(b), e.where, witness(p))


# ---- R02 ---------------------------------------------------------------------
LINK = is_sym("link")
AW = is_setting("AwarenessLevel")


def endpoint_name(t, link):
    return is_attr(t, "name") and is_attr(t.args[0], "endpoint") and link(t.args[0].args[0])


def step_cells(link=LINK):
    out = []
    for c in cross(aware=(1, 2, 3), step=(1, 2, 3), marker=(True, False)):
        tab = [(AW, c["aware"]), (is_sym("step"), c["step"]), (attr_of(attr_of(link, "endpoint"), "marker"), c["marker"]), (is_sym("debug"), False)]
        out.append(Cell(subst(tab), **c))
    return out


def dist_of(link):
    return lambda t: t.op == "attr" and t.args[1].endswith("__distance") and link(t.args[0])


def arg(e, name):
    for k, v in e.args:
        if k == name:
            return v
    return None


def search(ctx, rule, w, fn, rec, own, label):
    """walk of one search step: which ways on are tried, in every cell"""
    ps = ctx.paths(w, fn, stop={rec, "getEndPointScore", "getCapMultiplier", "_addLocationRoute"})
    n = 0
    origin = is_sym("origin_names")
    for c in step_cells():
        v = c.vals
        ways = [p for p in ps if c.feasible(p)]
        ctx.check(ways, rule + ".cells", label, "no way through the search step for %s" % c.show(), fn.where(fn.node))
        on = v["aware"] > v["step"] - v["marker"]
        for p in ways:
            for g in c.alts(p):
                n += 1
                own(ctx, p, c, v["marker"], label, fn)
            tried = None
            for e in p.events:
                if e.kind == "call" and last(e) == rec:
                    ctx.fail(rule + ".links", label, "a link is followed outside the walk over the links of the place reached", e.where, witness(p))
                if e.kind != "loop":
                    continue
                el = loop_elem(e, lambda x: is_attr(x, "links") and is_attr(x.args[0], "endpoint") and LINK(x.args[0].args[0]))
                if el is None:
                    if any(o.ev.kind == "call" and last(o.ev) == rec for q in e.paths for o in flatten(q)):
                        ctx.fail(rule + ".links", label, "the search goes on over %s, not over the links of the place reached" % T.show(e.iter), fn.where(e.astn))
                    continue
                for q in e.paths:
                    if not c.feasible(q) or q.exit == "stop":
                        continue
                    calls = [o.ev for o in flatten(q) if o.ev.kind == "call" and last(o.ev) == rec]
                    for g in c.alts(q):
                        loop_in = looped(g, el, origin)
                        if loop_in is None and calls:
                            ctx.fail(rule + ".loops", label, "a link is followed without checking whether its end is on the route already", calls[0].where, witness(q))
                        elif loop_in is True:
                            ctx.check(not calls, rule + ".loops", label, "a place already on the route is entered again", fn.where(e.astn), witness(q))
                        elif loop_in is False and on:
                            ctx.check(len(calls) == 1, rule + ".all", label, "a way on that is within the awareness level is tried %d times (%s)" % (len(calls), c.show()), fn.where(e.astn), witness(q))
                            tried = True
                        elif loop_in is None and on and q.exit in ("norm", "continue", None):
                            ctx.fail(rule + ".all", label, "a way on is left out for another reason than being on the route already", fn.where(e.astn), witness(q))
                        if loop_in is False and not on:
                            ctx.check(not calls, rule + ".aware", label, "the search goes on beyond the awareness level (%s)" % c.show(), fn.where(e.astn), witness(q))
                    ctx.check(q.exit in ("norm", "continue", None), rule + ".all", label + " early", "the search ends early (%s)" % q.exit, fn.where(e.astn), witness(q))
                    for x in calls:
                        follow(ctx, rule, label, x, el, c, v, fn)
            if on:
                ctx.check(tried, rule + ".aware", label, "ways on within the awareness level are not tried (%s)" % c.show(), fn.where(fn.node), witness(p))
    return ps, n


def loop_elem(lp, what):
    """the element of the list `what` a loop visits one by one"""
    el = lp.elem
    if el is None:
        return None
    for x in [el] + [y for y in el.args if isinstance(y, T.Term)] if el.op == "tuple" else [el]:
        if x.op == "elem" and what(x.args[0]):
            return x
        if x.op == "index" and what(x.args[0]):
            return mk("elem", x.args[0], x.args[1])
    return None


def looped(g, el, origin):
    """whether this way knows the end of link el to be on the route already"""
    name = lambda t: endpoint_name(t, lambda x: x is el)
    for a, v in g.items():
        if a.op == "in" and name(a.args[0]):
            cont = a.args[1]
            if origin(cont) or cont.op == "concat" and origin(cont.args[0]) or cont.op == "call" and cont.args[0] in ("set", "list", "tuple") and origin(cont.args[1][0]):
                return v
    return None


def follow(ctx, rule, label, x, el, c, v, fn):
    def prior(t):
        return Cell(subst([(is_sym("prior_distance"), 7.0), (dist_of(LINK), 20.0)])).num(t)
    ctx.check(arg(x, "link") is el, rule + ".links", label + " link", "the search goes on along %s" % T.show(arg(x, "link") or NONE), x.where)
    ctx.check(arg(x, "prior_distance") is not None and prior(arg(x, "prior_distance")) == 27.0, rule + ".distance", label, "the distance so far becomes %s when the search goes on" % T.show(arg(x, "prior_distance") or NONE), x.where)
    o = arg(x, "origin_names")
    good = o is not None and o.op == "concat" and len(o.args) == 2 and is_sym("origin_names")(o.args[0]) and o.args[1].op == "list" and len(o.args[1].args) == 1 and endpoint_name(o.args[1].args[0], LINK)
    ctx.check(good, rule + ".route", label, "the route so far becomes %s when the search goes on" % T.show(o or NONE), x.where)
    s = arg(x, "step")
    ctx.check(s is not None and c.num(s) == v["step"] + 1 - v["marker"], rule + ".aware", label + " count", "after step %d%s the search goes on with step %s" % (v["step"], " at a marker" if v["marker"] else "", c.num(s) if s is not None else None), x.where)
    for k in ("agent", "source_loc", "loc", "time"):
        if k in x.fn.params and k in fn.params:
            ctx.check(arg(x, k) is not None and is_sym(k)(arg(x, k)), rule + ".same", label + " " + k, "the search goes on for another %s: %s" % (k, T.show(arg(x, k) or NONE)), x.where)


def r02(ctx):
    for w in WORLDS:
        fn = ctx.func(MOV + "calculateLinkWeight")
        label = fn.name

        def own(ctx, p, c, marker, label, fn):
            if p.exit != "return" or p.value is None or p.value.op not in ("tuple", "list") or len(p.value.args) != 2:
                ctx.fail("R02.result", label, "the search does not hand back weights and routes (%s)" % p.exit, fn.where(fn.node), witness(p))
                return
            ws, rs = (gather(p, x) for x in p.value.args)
            if ws is None or rs is None:
                return ctx.notes.append("R02: construction of the weights or routes of %s is not understood" % label)
            a, b = ([s for s in x if s[0] != "loop"] for x in (ws, rs))
            want = 0 if marker else 1
            ctx.check(len(a) == want and len(b) == want, "R02.own", label, "a place that is %sa marker is proposed with %d weights and %d routes" % ("" if marker else "not ", len(a), len(b)), fn.where(fn.node), witness(p))
            if len(b) == 1 and b[0][0] == "one" and not marker:
                r = plain(p, b[0][1])
                good = r.op == "concat" and len(r.args) == 2 and is_sym("origin_names")(r.args[0]) and r.args[1].op == "list" and len(r.args[1].args) == 1 and endpoint_name(r.args[1].args[0], LINK)
                ctx.check(good, "R02.route", label + " own", "the proposed route is %s, not the route so far and the end of the link" % T.show(r), fn.where(fn.node), witness(p))
            first = [k for k, s in enumerate(ws) if s[0] != "loop"]
            ctx.check([s[0] == "loop" for s in ws] == [s[0] == "loop" for s in rs], "R02.aligned", label, "weights and routes are not put together in the same order", fn.where(fn.node), witness(p))
            aligned(ctx, "R02", label, ws, rs, "calculateLinkWeight", fn, c)
        ps, n = search(ctx, "R02", w, fn, "calculateLinkWeight", own, label)
        ctx.need("cells of the route search", n, 18)
        start(ctx, w)


def plain(p, t):
    """a list built up step by step, as one expression where possible"""
    if t.op == "new" and t.args[0] == "list":
        g = gather(p, t)
        if g is not None and all(s[0] in ("one", "many") for s in g):
            return T.concat(*[T.lst(s[1]) if s[0] == "one" else s[1] for s in g])
    return t


def aligned(ctx, pid, label, ws, rs, rec, fn, c=None):
    """every partial result of the search enters weights and routes together"""
    lw, lr = ([s for s in x if s[0] == "loop"] for x in (ws, rs))
    if len(lw) != len(lr):
        ctx.fail(pid + ".aligned", label, "weights and routes are put together in a different number of loops", fn.where(fn.node))
        return
    for (_, e1, b1), (_, e2, b2) in zip(lw, lr):
        if e1 is not e2:
            ctx.notes.append("%s: weights and routes of %s come from different loops" % (pid, label))
            continue
        for (q, s1), (_, s2) in zip(b1, b2):
            if c is not None and not c.feasible(q):
                continue
            calls = [o.ev for o in flatten(q) if o.ev.kind == "call" and last(o.ev) == rec]
            want = [x.result for x in calls]
            g1, g2 = ([s[1] for s in s_] for s_ in (s1, s2))
            ok = len(s1) == len(s2) == len(want) and all(k[0].endswith("many") for k in s1 + s2) and [k[0] for k in s1] == [k[0] for k in s2]
            if ok:
                for x, y, r in zip(g1, g2, want):
                    ok = ok and is_part(x, r, 0) and is_part(y, r, 1)
            ctx.check(ok, pid + ".aligned", label + " parts", "the partial result of a link enters as weights %s and routes %s" % ([T.show(x) for x in g1], [T.show(x) for x in g2]), fn.where(e1.astn), witness(q))


def is_part(t, r, i):
    return t.op == "idx" and t.args[0] is r and t.args[1] is const(i)


def start(ctx, w):
    """selectRoute starts the search at every link of the agent's place"""
    fn = ctx.func(MOV + "selectRoute")
    label = fn.name
    loc = attr_of(is_sym("a"), "location")
    n = 0
    for p in ctx.paths(w, fn, stop=OPAQUE - {"selectRoute"} | {"pruneRoutes"}):
        c = Cell(subst([(AW, 2), (is_setting("FixedRoutes"), False)]))
        if not c.feasible(p):
            continue
        found = False
        for e in p.events:
            if e.kind != "loop" or not any(o.ev.kind == "call" and last(o.ev) == "calculateLinkWeight" for q in e.paths for o in flatten(q)):
                continue
            el = loop_elem(e, lambda x: is_attr(x, "links") and loc(x.args[0]))
            ctx.check(el is not None, "R02.start", label, "the search starts over %s instead of all links of the agent's place" % T.show(e.iter), fn.where(e.astn))
            if el is None:
                continue
            found = True
            for q in e.paths:
                calls = [o.ev for o in flatten(q) if o.ev.kind == "call" and last(o.ev) == "calculateLinkWeight"]
                ctx.check(len(calls) == 1 and q.exit in ("norm", "continue", None), "R02.start", label + " each", "a link of the agent's place is tried %d times" % len(calls), fn.where(e.astn), witness(q))
                for x in calls:
                    n += 1
                    o = items(q, arg(x, "origin_names"))
                    ctx.check(o is not None and len(o) == 1 and is_attr(o[0], "name") and loc(o[0].args[0]), "R02.start", label + " origin", "the search starts with the route %s" % T.show(arg(x, "origin_names") or NONE), x.where)
                    ctx.check(arg(x, "link") is el, "R02.start", label + " link", "the search starts along %s" % T.show(arg(x, "link") or NONE), x.where)
                    z = arg(x, "prior_distance")
                    ctx.check(z is not None and z.op == "const" and z.args[0] == 0, "R02.start", label + " distance", "the search starts with distance %s" % T.show(z or NONE), x.where)
                    s = arg(x, "step")
                    ctx.check(s is const(1), "R02.start", label + " step", "the search starts at step %s" % T.show(s or NONE), x.where)
                    ctx.check(arg(x, "agent") is not None and is_sym("a")(arg(x, "agent")), "R02.start", label + " agent", "the search is made for another agent", x.where)
        ctx.check(found, "R02.start", label + " all", "routes are chosen without searching the links of the agent's place", fn.where(fn.node), witness(p))
    ctx.need("starts of the route search", n)


def items(p, t):
    if t is None:
        return None
    g = gather(p, t)
    if g is None or any(s[0] != "one" for s in g):
        return None
    return [s[1] for s in g]


# ---- R03 ---------------------------------------------------------------------
def same(x, y):
    return x is not None and abs(x - y) <= 1e-9 * max(1.0, abs(y))


FLOODMC, FLOODW = [0.3, 0.41, 0.72, 0.95], [1.0, 0.53, 0.27, 0.0]


def flood_table(key, rows, level):
    """an entry of a flood settings table at the current flood level"""
    def test(t):
        return t.op == "idx" and is_setting(key)(t.args[0]) and Cell(level).num(t.args[1]) is not None
    return test


def row_sub(base, key, rows):
    """substitution that also reads settings tables"""
    def f(t):
        r = base(t)
        if r is not None:
            return r
        if t.op == "idx":
            for k, rs in zip(key, rows):
                if is_setting(k)(t.args[0]):
                    i = Cell(f).num(t.args[1])
                    if i is not None and int(i) == i and 0 <= i < len(rs):
                        return const(rs[int(i)])
        return None
    return f


def forecast(tab, on):
    """the flood forecaster: switched off, or past the end of its forecast"""
    tab += [(is_setting("FloodForecaster"), on), (is_setting("FloodForecasterTimescale"), 5), (is_setting("FloodForecasterEndTime"), 7), (is_sym("time"), 9)]


def r03(ctx):
    for w in WORLDS:
        chance(ctx, w)
        draw(ctx, w)
        onwards(ctx, w)


def chance(ctx, w):
    fn = ctx.func(MOV + "calculateMoveChance")
    ps = ctx.paths(w, fn)
    loc = attr_of(is_sym("a"), "location")
    att = attr_of(loc, "attributes")
    n = 0
    for v in cross(town=(True, False), force=(True, False), size=((100.0, 40.0), (40.0, 90.0)), flood=(None, 0, 2), forecaster=(False, True)):
        tab = [(attr_of(loc, "town"), v["town"]), (is_sym("ForceTownMove"), v["force"]), (attr_of(loc, "movechance"), 0.3), (attr_of(loc, "pop"), v["size"][0]),
               (attr_of(loc, "capacity"), v["size"][1]), (is_setting("MovechancePopBase"), 10.0), (is_setting("MovechancePopScaleFactor"), 0.5),
               (is_setting("FloodRulesEnabled"), v["flood"] is not None), (is_item(att, "flood_level"), v["flood"] or 0), (has_item(att, "flood_level"), True),
               (attr_of(loc, "numAgents"), 77.0), (attr_of(loc, "conflict"), 0.9)]
        forecast(tab, v["forecaster"])
        c = Cell(row_sub(subst(tab), ["FloodMovechances", "FloodLocWeights"], [FLOODMC, FLOODW]), **v)
        if v["town"] and v["force"]:
            want, how = 1.0, "one"
        elif v["flood"]:
            want, how = FLOODMC[v["flood"]], "the flood value of its level"
        else:
            want, how = 0.3 * (max(v["size"]) / 10.0) ** 0.5, "its move chance scaled by its size"
        ways = [p for p in ps if c.feasible(p)]
        ctx.check(ways, "R03.chance", fn.name, "no move chance is computed for %s" % c.show(), fn.where(fn.node))
        for p in ways:
            n += 1
            ctx.check(p.exit == "return" and p.value is not None and same(c.num(p.value), want), "R03.chance", "%s %s" % (fn.name, how),
                      "for %s the move chance is %s, not %s" % (c.show(), T.show(p.value) if p.value is not None else p.exit, how), fn.where(fn.node), witness(p))
    ctx.need("cells of the move chance", n, 40)


DRAWS = ("random.random", "numpy.random.random", "numpy.random.rand", "random.uniform", "numpy.random.uniform", "numpy.random.random_sample")


def draw(ctx, w):
    fn = ctx.method(w, "Person.evolve")
    moves = {"take_next_step", "handle_travel", "selectRoute"}
    me = fn.params[0]
    n = 0
    for p in ctx.paths(w, fn, stop=moves | {"calculateMoveChance"}):
        draws = [o.ev for o in flatten(p) if o.ev.kind == "call" and o.ev.name in DRAWS]
        chances = [o.ev for o in flatten(p) if o.ev.kind == "call" and last(o.ev) == "calculateMoveChance"]
        does = [o for o in flatten(p) if o.ev.kind == "call" and last(o.ev) in moves or o.ev.kind == "write" and o.ev.attr in ("location", "travelling", "route")]
        acts = [o for o in does if o.ev.kind == "call"]
        trav = {g.get(t) for g in guards(p) for t in g if is_attr(t, "travelling")}
        still = [g for g in guards(p) if any(is_attr(t, "travelling") and g[t] is True for t in g)]
        for g in guards(p):
            t = next((g[x] for x in g if is_attr(x, "travelling") and x.args[0].op == "sym"), None)
            if t is True:
                ctx.check(not acts, "R03.draw", "%s travelling" % fn.qual, "an agent that is travelling decides to move", acts[0].where if acts else fn.where(fn.node), witness(p))
                continue
            ctx.check(t is False or not acts, "R03.draw", "%s travelling" % fn.qual, "an agent decides to move without checking that it is not travelling", fn.where(fn.node), witness(p))
            if t is None:
                continue
            if len(draws) != 1 or len(chances) != 1:
                ctx.check(len(draws) == 1, "R03.draw", "%s draws" % fn.qual, "deciding takes %d random draws instead of one" % len(draws), fn.where(fn.node), witness(p))
                ctx.check(len(chances) == 1, "R03.draw", "%s chance" % fn.qual, "deciding computes %d move chances" % len(chances), fn.where(fn.node), witness(p))
                continue
            x = chances[0]
            ctx.check(is_sym(me)(arg(x, "a") or NONE) and is_sym("ForceTownMove")(arg(x, "ForceTownMove") or NONE) and is_sym("time")(arg(x, "time") or NONE), "R03.draw", "%s whose" % fn.qual,
                      "the move chance is computed for another agent, day or mode", x.where)
            for d, m in ((0.3, 0.5), (0.5, 0.5), (0.7, 0.5)):
                c = Cell(subst([(lambda y: y is draws[0].result, d), (lambda y: y is x.result, m)]))
                if any(c.decide(a) is (not b) for a, b in g.items()):
                    continue
                n += 1
                fixed = any(c.decide(a) is b and T.contains(a, draws[0].result) for a, b in g.items())
                if d < m:
                    ctx.check(acts, "R03.draw", "%s moves" % fn.qual, "an agent whose draw is below its chance does not move", fn.where(fn.node), witness(p))
                else:
                    ctx.check(not acts, "R03.draw", "%s stays" % fn.qual, "an agent moves although its draw (%s) is not below its chance (%s)" % (d, m), acts[0].where if acts else fn.where(fn.node), witness(p))
    ctx.need("decisions of an agent", n, 4)


def onwards(ctx, w):
    """deciding once more on the day of an arrival: forced on when a full day's travel over two days is asked for and missing"""
    from .. import replay as R
    from .inputs import known, own, attempt
    fn = ctx.method(w, "Person.finish_travel")
    ps = [p for p in ctx.paths(w, fn, stop={"evolve", "get_distance", "handle_travel"}) if p.exit not in ("raise", "exit")]
    n = 0
    for avoid in (True, False):
        for moved, recent in itertools.product((90.0, 180.0, 252.0, 359.0), (0.0, 0.25, 0.5, 0.55, 1.0)):
            for before in (0.0, 45.0):
                length = 30.0 + moved - before
                place = R.Rec("link", attributes={}, closed=False, length=length, _Link__distance=length, distance=length, startpoint=R.Rec("start", camp=False), endpoint=R.Rec("end", camp=False))
                env = [(own("location"), place), (own("travelling"), True), (own("places_travelled"), 3), (own("distance_travelled_on_link"), 30.0), (own("distance_moved_this_timestep"), before), (own("recent_travel_distance"), recent),
                       (own("distance_travelled"), 0.0), (is_setting("MaxMoveSpeed"), 360.0), (is_setting("MaxWalkSpeed"), 35.0), (is_setting("StartOnFoot"), False), (is_setting("AvoidShortStints"), avoid),
                       (is_setting("agent"), 0), (is_setting("camp"), 0), (lambda t: t.op == "islink" and is_attr(t.args[0], "location"), True)]

                def run():
                    b = R.Bind(known(env), calls={"random.random": lambda: 0.5, "get_distance": lambda *a: length})
                    p, b = R.the_way(ps, b, fn.qual)
                    out = []
                    for e, q, bb in R.replay(p, b, only=lambda e: e.kind == "call" and last(e) == "evolve"):
                        t = arg(e, "ForceTownMove")
                        out.append(False if t is None else R.value(t, q, bb))
                    return out
                got = attempt(ctx, "R03", "%s (%s)" % (fn.qual, w), run)
                if got is None:
                    continue
                n += 1
                want = avoid and recent + moved / 360.0 < 1.0
                ctx.check([bool(x) for x in got] == [want], "R03.onwards", fn.qual, "after %g of 360 km today and %g days' travel before, %s, an agent that arrives decides again with forced move %s instead of %s (%s)" % (
                    moved, recent, "short stints avoided" if avoid else "short stints allowed", got, [want], w), fn.where())
    ctx.need("decisions on the day of an arrival (%s)" % w, n, 40)


# ---- R04 ---------------------------------------------------------------------
def r04(ctx):
    for w in WORLDS:
        weight(ctx, w)
        personal(ctx, w)
        capacity(ctx, w)
        baseline(ctx, w)


def weight(ctx, w):
    fn = ctx.func(MOV + "calculateLinkWeight")
    ps = ctx.paths(w, fn, stop={"calculateLinkWeight", "getEndPointScore", "getCapMultiplier"})
    ep = attr_of(LINK, "endpoint")
    n = 0
    for v in cross(score=(2.0, 0.5), dist=(20.0, 90.0), prior=(0.0, 7.0), cap=(1.0, 0.25), dp=(1.0, 1.5), wp=(1.0, 2.0)):
        tab = [(is_setting("WeightSoftening"), 0.125), (is_setting("DistanceSoftening"), 10.0), (is_setting("DistancePower"), v["dp"]), (is_setting("WeightPower"), v["wp"]),
               (dist_of(LINK), v["dist"]), (is_sym("prior_distance"), v["prior"]), (attr_of(ep, "marker"), False), (AW, 1), (is_sym("step"), 1), (is_sym("debug"), False),
               (result_of("getEndPointScore"), v["score"]), (result_of("getCapMultiplier"), v["cap"])]
        c = Cell(subst(tab), **v)
        want = ((0.125 + v["score"]) / (10.0 + v["dist"] + v["prior"]) ** v["dp"] * v["cap"]) ** v["wp"]
        for p in ps:
            if not c.feasible(p) or p.exit != "return" or p.value is None or p.value.op not in ("tuple", "list"):
                continue
            g = gather(p, p.value.args[0])
            if g is None:
                ctx.notes.append("R04: construction of the weights is not understood")
                continue
            for s in g:
                if s[0] == "one":
                    n += 1
                    ctx.check(same(c.num(s[1]), want), "R04.weight", fn.name, "the weight of a place is %s: for %s that is %s, not %.6g" % (T.show(s[1]), c.show(), c.num(s[1]), want), fn.where(fn.node), witness(p))
    ctx.need("cells of the route weight", n, 8)
    for p in ps:
        for o in flatten(p):
            e = o.ev
            if e.kind == "call" and last(e) == "getEndPointScore":
                ctx.check(ep(arg(e, "endpoint") or NONE) and is_sym("agent")(arg(e, "agent") or NONE), "R04.whose", fn.name + " score", "the score entering the weight is of another place or agent", e.where)
            if e.kind == "call" and last(e) == "getCapMultiplier":
                ctx.check(ep(arg(e, "location") or NONE), "R04.whose", fn.name + " capacity", "the capacity factor entering the weight is of %s" % T.show(arg(e, "location") or NONE), e.where)


def personal(ctx, w):
    fn = ctx.func(MOV + "getEndPointScore")
    ps = ctx.paths(w, fn, stop={"calculateDistance", "getScore"}, max_alts=2000)
    ag, ep = is_sym("agent"), is_sym("endpoint")
    att, aat = attr_of(ep, "attributes"), attr_of(ag, "attributes")

    def dist(t):
        if not result_of("calculateDistance")(t):
            return False
        two = [x for part in t.args[1:3] if isinstance(part, tuple) for x in part]
        return len(two) == 2 and any(ep(x) for x in two) and any(is_attr(x, "home_location") and ag(x.args[0]) for x in two)

    def score(t):
        if result_of("getScore")(t):
            return t.args[1] == (t.args[1][0],) and ep(t.args[1][0]) and t.args[2] == (const(1),)
        return t.op == "idx" and is_attr(t.args[0], "scores") and ep(t.args[0].args[0]) and t.args[1] is const(1)
    ethn = is_item(aat, "ethnicity")
    here = lambda t: t.op == "idx" and att(t.args[0]) and ethn(t.args[1]) or t.op == "call" and t.args[0].split(".")[-1] == "get" and att(t.args[1][0]) and ethn(t.args[1][1])
    n = 0
    off = dict(kids=False, boys=False, home=False, flood=None, kind="town", match=None, usepop=False, person=(30, "female"), pop=50.0, km=4.0)
    tries = []
    for d in cross(kids=(True, False), boys=(True, False), person=((10, "male"), (10, "female"), (15, "male"), (15, "female"), (16, "male"), (18, "female"), (18, "male"), (19, "male"), (19, "female"), (30, "male"), (30, "female"), (14, "male")), kind=("camp", "town")):
        tries.append(dict(off, **d))
    for d in cross(home=(True, False), km=(4.0, 0.25), flood=(None, 0, 2), kind=("camp", "town"), kids=(True, False), person=((10, "male"),)):
        tries.append(dict(off, **d))
    for d in cross(kind=("camp", "conflict", "town"), match=(None, "Camp", "Conflict", "Town"), usepop=(True, False), pop=(50.0, 0.5), home=(True, False)):
        tries.append(dict(off, **d))
    for v in tries:
        for fc in ((False, True) if v["flood"] is not None else (False,)):
            tab = [(score, 3.0), (is_setting("ChildrenAvoidHazards"), v["kids"]), (is_setting("BoysTakeRisk"), v["boys"]), (is_setting("StayCloseToHome"), v["home"]),
                   (is_setting("HomeDistancePower"), 0.5), (dist, v["km"]), (is_setting("FloodRulesEnabled"), v["flood"] is not None), (is_item(att, "flood_level"), v["flood"] or 0),
                   (has_item(att, "flood_level"), True), (attr_of(ep, "camp"), v["kind"] == "camp"), (attr_of(ep, "conflict"), 0.6 if v["kind"] == "conflict" else 0.0),
                   (is_setting("MatchCampEthnicity"), v["match"] == "Camp"), (is_setting("MatchConflictEthnicity"), v["match"] == "Conflict"), (is_setting("MatchTownEthnicity"), v["match"] == "Town"),
                   (is_setting("UsePopForLocWeight"), v["usepop"]), (is_setting("PopPowerForLocWeight"), 0.1), (attr_of(ep, "pop"), v["pop"]), (is_item(aat, "age"), v["person"][0]),
                   (is_item(aat, "gender"), v["person"][1]), (here, 20.0), (attr_of(ep, "capacity"), 999.0), (attr_of(ep, "numAgents"), 777.0)]
            forecast(tab, fc)
            c = Cell(row_sub(subst(tab), ["FloodLocWeights", "FloodMovechances"], [FLOODW, FLOODMC]), **v)
            want = 3.0
            alt = None
            if v["kids"] and v["person"][0] < 19:
                want = 9.0
            if v["boys"] and v["person"] [1] == "male" and v["person"][0] > 14:
                if v["kids"]:
                    want = 1.0
                else:
                    alt = 1.0
            f = 1.0
            if v["home"]:
                f /= max(1.0, v["km"]) ** 0.5
            if v["flood"]:
                f *= FLOODW[v["flood"]]
            if v["match"] and v["match"].lower() == v["kind"]:
                f *= 20.0 / v["pop"] * 10.0
            if v["usepop"] and v["kind"] != "camp":
                f *= max(1.0, v["pop"]) ** 0.1
            ways = [p for p in ps if c.feasible(p)]
            ctx.check(ways, "R04.personal", fn.name, "no score is computed for %s" % c.show(), fn.where(fn.node))
            for p in ways:
                n += 1
                got = c.num(p.value) if p.exit == "return" and p.value is not None else None
                rules = [k for k in ("kids", "boys", "home", "flood", "match", "usepop") if v[k]]
                ctx.check(same(got, want * f) or alt is not None and same(got, alt * f), "R04.personal", "%s %s" % (fn.name, "+".join(rules) or "plain"),
                          "for %s the score is %s, not %.6g: %s" % (c.show(), got, want * f, T.show(p.value) if p.value is not None else p.exit), fn.where(fn.node), witness(p))
    ctx.need("cells of the personal score", n, 100)


def capacity(ctx, w):
    fn = ctx.func(MOV + "getCapMultiplier")
    ps = ctx.paths(w, fn)
    loc = is_sym("location")
    for cap, here, want in ((50.0, 0, 1.0), (50.0, 70, 1.0), (50.0, 80, 1.0), (50.0, 90, 0.5), (50.0, 95, 0.25), (50.0, 100, 0.0), (50.0, 120, 0.0), (0.0, 0, 1.0), (0.0, 500, 1.0), (-1.0, 500, 1.0)):
        c = Cell(subst([(attr_of(loc, "capacity"), cap), (attr_of(loc, "numAgents"), here), (is_setting("CapacityBuffer"), 0.8), (is_setting("CapacityScaling"), 2.0), (is_sym("numOnLink"), 33)]), capacity=cap, there=here)
        ways = [p for p in ps if c.feasible(p) and p.exit != "raise"]
        ctx.check(ways, "R04.capacity", fn.name, "no capacity factor is computed for %s" % c.show(), fn.where(fn.node))
        for p in ways:
            ctx.check(p.exit == "return" and p.value is not None and same(c.num(p.value), want), "R04.capacity", fn.name, "for %s (buffer 0.8, scaling 2) the capacity factor is %s, not %s" % (
                c.show(), T.show(p.value) if p.value is not None else p.exit, want), fn.where(fn.node), witness(p))


def baseline(ctx, w):
    """the score precomputed routes start from"""
    fn = ctx.func(CRA + "getLocationCrawlEndPointScore")
    ps = ctx.paths(w, fn, stop={"getBaseEndPointScore"})
    ep = attr_of(LINK, "endpoint")
    att = attr_of(ep, "attributes")
    for v in cross(flood=(None, 0, 2)):
        c = Cell(row_sub(subst([(result_of("getBaseEndPointScore"), 3.0), (is_setting("FloodRulesEnabled"), v["flood"] is not None), (is_item(att, "flood_level"), v["flood"] or 0), (has_item(att, "flood_level"), True)]),
                         ["FloodLocWeights"], [FLOODW]), **v)
        want = 3.0 * (FLOODW[v["flood"]] if v["flood"] else 1.0)
        ways = [p for p in ps if c.feasible(p)]
        ctx.check(ways, "R04.baseline", fn.name, "no score is computed for %s" % c.show(), fn.where(fn.node))
        for p in ways:
            ctx.check(p.exit == "return" and same(c.num(p.value), want), "R04.baseline", fn.name, "for %s the score is %s" % (c.show(), T.show(p.value)), fn.where(fn.node), witness(p))


# ---- R05 ---------------------------------------------------------------------
def r05(ctx):
    for w in WORLDS:
        prune(ctx, w)
        normalise(ctx, w)
        choose(ctx, w)
        select(ctx, w)
        nothing(ctx, w)


def is_max(t, weights):
    return t.op == "call" and t.args[0].split(".")[-1] in ("max", "amax") and len(t.args[1]) == 1 and weights(t.args[1][0])


def prune(ctx, w):
    fn = ctx.func(MOV + "pruneRoutes")
    if len(fn.params) < 2:
        return ctx.notes.append("R05: pruneRoutes has other parameters")
    W, R = is_sym(fn.params[0]), is_sym(fn.params[1])
    ps = ctx.paths(w, fn)
    thr = is_setting("PruningThreshold")
    n = 0

    def cell(t, some, wt, idx=None):
        """best weight 8, threshold t, weight of the option looked at wt"""
        inloop = lambda x: W(x) or x.op == "loopvar" and len(x.args) == 3 and W(x.args[2]) and x.args[1].endswith("$items")
        tab = [(thr, t), (lambda x: is_max(x, inloop), 8.0), (lambda x: x.op == "nonempty" and W(x.args[0]), some), (lambda x: T.is_len(x) and W(x.args[1][0]), 5 if some else 0),
               (lambda x: x.op in ("idx", "elem") and W(x.args[0]), wt)]
        return Cell(subst(tab), threshold=t, options=some, weight=wt)
    for t, some in ((1.0, True), (0.5, True), (-1.0, True), (1.0, False), (4.0, False)):
        c = cell(t, some, 0.001)
        for p in ps:
            if not c.feasible(p):
                continue
            n += 1
            ch = [o for o in flatten(p) if o.ev.kind in ("mutate", "subwrite") and (W(o.ev.base) or R(o.ev.base))]
            if not some:
                ctx.check(p.exit == "return", "R05.prune", fn.name + " empty", "pruning no options does not end well (%s)" % p.exit, fn.where(fn.node), witness(p))
                bad = [o for o in flatten(p) if o.ev.kind == "call" and last(o.ev) in ("max", "min")]
                continue
            ctx.check(not ch and untouched(p, W, R), "R05.prune", fn.name + " off", "options are removed although the threshold is %s" % t, ch[0].where if ch else fn.where(fn.node), witness(p))
    used = False
    for t, wt, out in ((4.0, 1.0, True), (4.0, 1.9, True), (4.0, 2.0, False), (4.0, 3.0, False), (4.0, 8.0, False), (1.5, 5.0, True), (1.5, 6.0, False)):
        c = cell(t, True, wt)
        for p in ps:
            if not c.feasible(p):
                continue
            n += 1
            used |= remove(ctx, fn, p, c, W, R, out)
    ctx.need("cells of pruning", n, 8)


def untouched(p, W, R):
    v = p.value
    if v is None or v.op not in ("tuple", "list") or len(v.args) != 2:
        return False

    def same_list(x, t):
        return t(x) or x.op == "copy" and t(x.args[0]) or x.op == "call" and x.args[0] == "list" and t(x.args[1][0]) or x.op == "slicing" and t(x.args[0]) and all(y is NONE for y in x.args[1:])
    return same_list(v.args[0], W) and same_list(v.args[1], R)


def remove(ctx, fn, p, c, W, R, out):
    """one option, in one cell: it must go (or stay) with its own route"""
    where = fn.where(fn.node)
    loops = [e for e in p.events if e.kind == "loop"]
    dels = [o for o in flatten(p) if o.ev.kind == "mutate" and o.ev.method in ("del", "pop") and (W(o.ev.base) or R(o.ev.base))]
    what = "an option of weight %s (best 8, threshold %s)" % (c.vals["weight"], c.vals["threshold"])
    if dels:
        for lp in loops:
            cnt = 0
            for q in lp.paths:
                if q.exit == "stop" or not c.feasible(q):
                    continue
                cnt += 1
                d = [e for e in q.events if e.kind == "mutate" and e.method in ("del", "pop")]
                dw = [e.args[0] for e in d if W(e.base) and e.args]
                dr = [e.args[0] for e in d if R(e.base) and e.args]
                if any(W(e.base) or R(e.base) for e in d):
                    ctx.check(len(dw) == len(dr) == 1 and dw[0] is dr[0], "R05.pair", fn.name, "the weight removed at %s goes with the route removed at %s" % (list(map(T.show, dw)), list(map(T.show, dr))), fn.where(lp.astn), witness(q))
                decided = any(T.contains(a, x) for a in q.cons for x in [y for y in T.walk(a) if y.op in ("idx", "elem") and W(y.args[0])])
                gone = bool(dw)
                ctx.check(gone is out, "R05.prune", fn.name, "%s is %s" % (what, "removed" if gone else "kept"), fn.where(lp.astn), witness(q))
                if lp.loopkind == "while":
                    lvs = [nm for nm, iv in lp.d["init"].items() if isinstance(nm, str) and iv is const(0)]
                    for nm in lvs:
                        lv = mk("loopvar", lp.lid, nm)
                        nv = q.state.env.get(nm)
                        if not any(y.args[0] == lp.lid and y.args[1] == nm for a in list(q.cons) + dw for y in T.walk(a) if y.op == "loopvar"):
                            continue
                        d_ = T.sub(nv, mk("loopvar", lp.lid, nm, ty=nv.ty)) if nv is not None else None
                        step = step_of(nv, lp.lid, nm)
                        ctx.check(step == (0 if gone else 1), "R05.prune", fn.name + " next", "after %s an option the next one looked at is %s further" % ("removing" if gone else "keeping", step), fn.where(lp.astn), witness(q))
                elif gone and lp.loopkind == "for":
                    it = lp.raw if lp.raw is not None else lp.iter
                    back = it.op == "call" and it.args[0].split(".")[-1] in ("reversed",) or it.op in ("call", "range") and len(it.args[1] if it.op == "call" else it.args) == 3
                    ctx.check(back, "R05.prune", fn.name + " next", "options are removed while walking forward over them, so the one after a removed one is skipped", fn.where(lp.astn), witness(q))
        return True
    # lists put together anew
    v = p.value
    if v is None or v.op not in ("tuple", "list") or len(v.args) != 2:
        ctx.check(p.exit != "return" and p.exit is not None or v is not None, "R05.prune", fn.name + " result", "pruning does not hand back weights and routes", where, witness(p))
        return False
    if untouched(p, W, R):
        ctx.check(not out, "R05.prune", fn.name, "%s is kept" % what, where, witness(p))
        return True
    gw, gr = (gather(p, x) for x in v.args)
    if gw is None or gr is None:
        ctx.notes.append("R05: pruning is written in a way that is not understood")
        return False
    for g, src, other in ((gw, W, "weights"), (gr, R, "routes")):
        for s in g:
            if s[0] != "loop":
                continue
            ok = None
            for q, st in s[2]:
                if not c.feasible(q):
                    continue
                kept = bool(st)
                own = all(x[0] == "one" and any(y.op in ("elem", "idx") and src(y.args[0]) for y in T.walk(x[1])) for x in st)
                known = T.contains(s[1].elem, s[1].elem) and any(y.op in ("elem", "idx") and W(y.args[0]) for a in q.cons for y in T.walk(a))
                if not known:
                    ctx.notes.append("R05: pruning is written in a way that is not understood")
                    continue
                ctx.check(kept is not out, "R05.prune", fn.name, "%s is %s in the %s" % (what, "kept" if kept else "removed", other), fn.where(s[1].astn), witness(q))
                ctx.check(not kept or own, "R05.pair", fn.name + " " + other, "the %s kept are %s" % (other, [T.show(x[1]) for x in st]), fn.where(s[1].astn), witness(q))
    return True


def step_of(nv, lid, nm):
    if nv is None:
        return 0
    c, its = T._lin(nv)
    if len(its) == 1:
        (x, k), = its.items()
        if k == 1 and x.op == "loopvar" and x.args[0] == lid and x.args[1] == nm:
            return c
    return None


def normalise(ctx, w):
    fn = ctx.func(MOV + "normalizeWeights")
    W = is_sym(fn.params[0])
    ps = ctx.paths(w, fn)
    tot = lambda t: t.op == "call" and t.args[0].split(".")[-1] in ("sum", "fsum") and len(t.args[1]) >= 1 and W(t.args[1][0])
    mx = lambda t: is_max(t, W)
    n = 0
    for total, wt, want in ((8.0, 2.0, 0.25), (8.0, 0.0, 0.0), (0.5, 0.5, 1.0), (0.0, 0.0, 0.2)):
        c = Cell(subst([(tot, total), (mx, 1.0 if total else 0.0), (lambda t: t.op == "nonempty" and W(t.args[0]), True), (lambda t: T.is_len(t) and W(t.args[1][0]), 5), (lambda t: t.op in ("elem", "idx") and W(t.args[0]), wt)]), total=total, weight=wt)
        for p in ps:
            if not c.feasible(p):
                continue
            if p.exit != "return" or p.value is None:
                ctx.fail("R05.shares", fn.name, "normalising does not hand back weights", fn.where(fn.node), witness(p))
                continue
            g = gather(p, p.value)
            if g is None or len(g) != 1 or g[0][0] != "loop":
                lit = p.value.op == "mul" or p.value.op == "concat" or g is None
                if g is not None and len(g) == 1 and g[0][0] == "many" and W(g[0][1]):
                    ctx.check(total > 0, "R05.shares", fn.name, "weights that are all zero are handed on as they are", fn.where(fn.node), witness(p))
                else:
                    ctx.notes.append("R05: normalising is written in a way that is not understood")
                continue
            lp = g[0][1]
            other = [y for y in T.walk(lp.raw if lp.raw is not None else lp.iter) if y.op == "slicing" or y.op == "call" and y.args[0].split(".")[-1] in ("sorted", "reversed", "set", "frozenset", "unique", "sample", "filter")]
            walks = not other and (W(lp.iter) or loop_elem(lp, W) is not None or any(W(y) for y in T.walk(lp.iter)))
            ctx.check(walks, "R05.shares", fn.name + " all", "the shares are made from %s" % T.show(lp.iter), fn.where(lp.astn))
            for q, st in g[0][2]:
                if not c.feasible(q):
                    continue
                n += 1
                ok = len(st) == 1 and st[0][0] == "one" and same(c.num(st[0][1]), want)
                ctx.check(ok, "R05.shares", fn.name, "with five options, total %s and weight %s the share is %s, not %s" % (total, wt, [T.show(x[1]) for x in st], want), fn.where(lp.astn), witness(q))


def choose(ctx, w):
    fn = ctx.func(MOV + "chooseFromWeights")
    W, R = is_sym("weights"), is_sym("routes")
    n = 0
    none = lambda t: t.op == "nonempty" and (W(t.args[0]) or R(t.args[0]))
    for p in ctx.paths(w, fn, stop={"normalizeWeights"}):
        for some in (True, False):
            c = Cell(subst([(none, some), (lambda t: T.is_len(t) and (W(t.args[1][0]) or R(t.args[1][0])), 5 if some else 0)]))
            if not c.feasible(p):
                continue
            n += 1
            if not some:
                ctx.check(p.exit == "return" and (p.value is NONE or p.value is None), "R05.choice", fn.name + " none", "without options the choice is %s" % (T.show(p.value) if p.value is not None else p.exit), fn.where(fn.node), witness(p))
                continue
            v = p.value
            norm = lambda t: result_of("normalizeWeights", lambda r: any(W(x) for x in r.args[2]))(t)
            ch = [o.ev for o in flatten(p) if o.ev.kind == "call" and o.ev.name in ("random.choices", "numpy.random.choice", "random.choice", "random.sample")]
            ctx.check(len(ch) == 1, "R05.choice", fn.name + " once", "the route is chosen by %d draws" % len(ch), fn.where(fn.node), witness(p))
            if len(ch) != 1:
                continue
            e = ch[0]
            pop = arg(e, "population") or arg(e, "a") or (e.args[0][1] if e.args and e.args[0][0].startswith("#") else None)
            ws = arg(e, "weights") or arg(e, "p") or (e.args[1][1] if len(e.args) > 1 and e.name == "random.choices" else None)
            ctx.check(ws is not None and norm(ws), "R05.choice", fn.name + " weights", "the route is drawn with %s instead of its own weights" % (T.show(ws) if ws is not None else "no weights"), e.where, witness(p))
            direct = pop is not None and R(pop)
            drawn = v is not None and (v is e.result or v.op == "idx" and v.args[0] is e.result and v.args[1] in (const(0), const(-1)))
            byidx = v is not None and v.op == "idx" and R(v.args[0]) and T.contains(v.args[1], e.result)
            ctx.check(direct and drawn or byidx and not direct, "R05.choice", fn.name + " drawn", "the chosen route is %s, drawn from %s" % (T.show(v) if v is not None else None, T.show(pop) if pop is not None else None), e.where, witness(p))
    ctx.need("cells of the choice", n, 2)


def select(ctx, w):
    fn = ctx.func(MOV + "selectRoute")
    loc = attr_of(is_sym("a"), "location")
    links = attr_of(loc, "links")
    label = fn.name
    n = 0
    for p in ctx.paths(w, fn, stop=OPAQUE - {"selectRoute"} | {"pruneRoutes"}):
        # no awareness: any of the links of the place
        for some in (True, False):
            c = Cell(subst([(AW, 0), (lambda t: t.op == "nonempty" and links(t.args[0]), some), (lambda t: T.is_len(t) and links(t.args[1][0]), 4 if some else 0)]))
            if not c.feasible(p):
                continue
            n += 1
            if not some:
                ctx.check(p.exit == "return" and (p.value is NONE or p.value is None), "R05.unaware", label + " none", "without links the choice is %s" % (T.show(p.value) if p.value is not None else p.exit), fn.where(fn.node), witness(p))
            else:
                it = items(p, p.value)
                ok = it is not None and len(it) == 1 and is_attr(it[0], "name") and is_attr(it[0].args[0], "endpoint") and any(links(y) for y in T.walk(it[0].args[0])) and any(y.op == "result" and ("rand" in y.args[0]) for y in T.walk(it[0]))
                ctx.check(p.exit == "return" and ok, "R05.unaware", label, "without awareness the route is %s, not one link of the place drawn at random" % (T.show(p.value) if p.value is not None else p.exit), fn.where(fn.node), witness(p))
        # stored routes
        c = Cell(subst([(AW, 2), (is_setting("FixedRoutes"), True)]))
        if c.feasible(p):
            n += 1
            stored(ctx, w, fn, p, loc, label)
        c = Cell(subst([(AW, 2), (is_setting("FixedRoutes"), False), (is_sym("return_all_routes"), False)]))
        if c.feasible(p):
            n += 1
            searched(ctx, fn, p, c, label)
    ctx.need("ways of choosing a route", n, 4)


def chosen(ctx, fn, p, label):
    """the call that draws the route; its result must be handed on"""
    ch = [e for e in p.events if e.kind == "call" and last(e) == "chooseFromWeights"]
    ctx.check(len(ch) == 1, "R05.choice", label, "the route is drawn %d times" % len(ch), fn.where(fn.node), witness(p))
    if len(ch) != 1:
        return None
    if p.exit == "return":
        ctx.check(p.value is ch[0].result or p.value is NONE and True in {g.get(mk("none", ch[0].result, ty="bool")) for g in guards(p)}, "R05.choice", label + " handed on", "the route handed on is %s, not the one drawn" % (T.show(p.value) if p.value is not None else None), fn.where(fn.node), witness(p))
    return ch[0]


def stored(ctx, w, fn, p, loc, label):
    e = chosen(ctx, fn, p, label + " stored")
    if e is None:
        return
    gw, gr = gather(p, arg(e, "weights")), gather(p, arg(e, "routes"))
    if gw is None or gr is None:
        return ctx.notes.append("R05: the stored options are collected in a way that is not understood")
    routes = attr_of(loc, "routes")

    def entry(t, i):
        """component i of the stored route looked at"""
        if t.op == "idx" and t.args[1] is const(i):
            b = t.args[0]
            return b if any(routes(y) for y in T.walk(b)) else None
        return None
    ent = {}
    for g, k in ((gw, "weights"), (gr, "routes")):
        if len(g) != 1 or g[0][0] != "loop":
            ctx.notes.append("R05: the stored %s are collected in a way that is not understood" % k)
            return
        for q, st in g[0][2]:
            ok = len(st) == 1 and st[0][0] in ("one", "frontone")
            ent.setdefault("order", set()).add(st[0][0] if ok else None)
            ctx.check(ok, "R05.stored", label + " " + k, "a stored route is offered with %d %s" % (len(st), k), fn.where(g[0][1].astn), witness(q))
            if not ok:
                continue
            x = st[0][1]
            if k == "routes":
                b = entry(x, 1)
                if b is None and x.op in ("copy",):
                    b = entry(x.args[0], 1)
                if b is None and x.op == "call" and x.args[0] == "list":
                    b = entry(x.args[1][0], 1)
                if b is None and x.op == "slicing" and x.args[1] in (NONE, const(0)) and x.args[2] is NONE:
                    b = entry(x.args[0], 1)
                ctx.check(b is not None, "R05.stored", label + " route", "the route offered is %s, not the stored steps" % T.show(x), fn.where(g[0][1].astn), witness(q))
            else:
                sc = [y for y in T.walk(x) if result_of("getEndPointScore")(y)]
                ok2 = len(set(sc)) == 1
                b = None
                if ok2:
                    b = entry(sc[0].args[2][1], 2) if len(sc[0].args[2]) > 1 else None
                    ok2 = is_sym("a")(sc[0].args[2][0])
                    val = Cell(subst([(lambda t: t is sc[0], 3.0), (lambda t: entry(t, 0) is not None and entry(t, 0) is b, 7.0)])).num(x)
                    ok2 = ok2 and b is not None and val == 21.0
                ctx.check(ok2, "R05.stored", label + " weight", "the weight offered is %s, not the stored weight times the agent's own score of that destination" % T.show(x), fn.where(g[0][1].astn), witness(q))
            ent.setdefault(k, b)
    ctx.check(len(ent.get("order", ())) <= 1, "R05.stored", label + " order", "weights are collected in another order than routes", fn.where(fn.node))
    pair = [ent.get("weights"), ent.get("routes")]
    if gw[0][1].lid != gr[0][1].lid and gw[0][1].iter is gr[0][1].iter and None not in pair:
        mine = {gw[0][1].lid: "*", gr[0][1].lid: "*"}       # two loops over the same stored routes
        pair = [T.rebuild(x, lambda y: mk(y.op, y.args[0], "*", *y.args[2:]) if y.op in ("elem", "index") and len(y.args) > 1 and y.args[1] in mine else None) for x in pair]
    ctx.check(pair[0] is pair[1], "R05.stored", label + " pair", "weights and routes offered belong to different stored routes", fn.where(fn.node))


def searched(ctx, fn, p, c, label):
    e = chosen(ctx, fn, p, label + " searched")
    if e is None:
        return
    pr = [x for x in p.events if x.kind == "call" and last(x) == "pruneRoutes"]
    ctx.check(len(pr) == 1, "R05.prune", label, "the options found are pruned %d times" % len(pr), fn.where(fn.node), witness(p))
    if len(pr) != 1:
        return
    r = pr[0].result
    ws, rs = arg(e, "weights"), arg(e, "routes")
    ctx.check(part_of(p, ws, r, 0) and part_of(p, rs, r, 1), "R05.prune", label + " used", "the route is drawn from %s with %s, not from the options left by pruning" % (T.show(rs), T.show(ws)), e.where, witness(p))
    a = [v for _, v in pr[0].args[:2]]
    if len(a) < 2:
        return
    gw, gr = gather(p, a[0]), origin_dropped(ctx, fn, p, a[1], label, rs, r)
    if gw is None or gr is None:
        return ctx.notes.append("R05: the options found are collected in a way that is not understood")
    aligned(ctx, "R05", label, gw, gr, "calculateLinkWeight", fn)


def part_of(p, t, r, i):
    if is_part(t, r, i):
        return True
    g = gather(p, t)        # a list made from the pruned one, e.g. with the origin dropped afterwards
    return bool(g) and len(g) == 1 and g[0][0] == "loop" and any(is_part(y, r, i) for y in T.walk(g[0][1].iter))


def drops(x, el):
    return x.op == "slicing" and x.args[0] is el and x.args[1] is const(1) and x.args[2] is NONE and x.args[3] in (NONE, const(1))


def origin_dropped(ctx, fn, p, routes, label, rs, pr):
    """the routes handed to pruning, with the current place dropped exactly once before the draw"""
    times, base = 0, None
    for e in p.events:
        if e.kind != "loop":
            continue
        for what in (routes, rs, mk("idx", pr, const(1))):
            el = loop_elem(e, lambda x: x is what)
            if el is None:
                continue
            full = all(any(y.kind == "subwrite" and y.base is what and drops(y.value, el) or y.kind == "mutate" and y.base is el and y.method in ("del", "pop") and y.args[:1] == (const(0),) for y in q.events) for q in e.paths)
            some = any(y.kind in ("subwrite", "mutate") and (y.base is what or y.base is el) for q in e.paths for y in q.events)
            if some:
                ctx.check(full, "R05.origin", label, "the current place is not dropped from every route", fn.where(e.astn))
                times += 1
            break
    g = gather(p, routes)
    if g is not None and len(g) == 1 and g[0][0] == "loop":
        lp = g[0][1]
        if all(len(st) == 1 and st[0][0] == "one" and st[0][1].op == "slicing" for _, st in g[0][2]):
            src = lp.elem.args[0] if lp.elem is not None and lp.elem.op in ("elem", "index") else None
            ctx.check(src is not None and all(drops(st[0][1], mk("elem", lp.elem.args[0], lp.elem.args[1])) for _, st in g[0][2]), "R05.origin", label, "routes are cut to %s" % [T.show(st[0][1]) for _, st in g[0][2]], fn.where(lp.astn))
            times += 1
            g = gather(p, src) if src is not None else None
    g2 = gather(p, rs)
    if g2 is not None and len(g2) == 1 and g2[0][0] == "loop" and all(len(st) == 1 and st[0][0] == "one" and st[0][1].op == "slicing" for _, st in g2[0][2]) and rs is not routes:
        times += 1
    ctx.check(times == 1, "R05.origin", label + " once", "the current place is dropped from the routes %d times before one is chosen" % times, fn.where(fn.node), witness(p))
    return g


def nothing(ctx, w):
    """no route: the agent stays, and may plan again later"""
    fn = ctx.method(w, "Person.evolve")
    me = fn.params[0]
    n = 0
    for p in ctx.paths(w, fn, stop={"take_next_step", "handle_travel", "selectRoute", "calculateMoveChance"}):
        sel = [o.ev for o in flatten(p) if o.ev.kind == "call" and last(o.ev) == "selectRoute"]
        steps = [o.ev for o in flatten(p) if o.ev.kind == "call" and last(o.ev) in ("take_next_step", "handle_travel")]
        ctx.check(len(sel) <= 1, "R05.plan", fn.qual, "an agent plans %d times in one decision" % len(sel), fn.where(fn.node), witness(p))
        route = p.state.heap.get((mk("sym", me, ty="Person"), "route"))
        for g in guards(p):
            empty = [v for a, v in g.items() if a.op == "nonempty" and is_attr(a.args[0], "route") or a.op == "nonempty" and T.strip(a.args[0]).op == "attr" and T.strip(a.args[0]).args[1] == "route"]
            if sel:
                n += 1
                ctx.check(False in empty, "R05.plan", fn.qual + " again", "an agent that still has a route plans a new one", sel[0].where, witness(p))
                ctx.check(is_sym(me)((sel[0].args[0][1] if sel[0].args else NONE)), "R05.plan", fn.qual + " whose", "an agent plans for %s" % T.show(sel[0].args[0][1] if sel[0].args else NONE), sel[0].where)
                no = g.get(mk("none", sel[0].result, ty="bool"))
                if no is None and g.get(mk("truthy", sel[0].result, ty="bool")) is not None:
                    no = not g[mk("truthy", sel[0].result, ty="bool")]
                if no is None and g.get(mk("nonempty", sel[0].result, ty="bool")) is not None:
                    no = not g[mk("nonempty", sel[0].result, ty="bool")]
                if no is True:
                    ctx.check(not steps, "R05.none", fn.qual, "an agent without a route takes a step", steps[0].where if steps else fn.where(fn.node), witness(p))
                    ctx.check(route is not None and (route.op == "new" or route.op == "list" and not route.args), "R05.none", fn.qual + " reset", "an agent without a route is left with route %s, which it cannot take the length of next time" % (T.show(route) if route is not None else "unset"), fn.where(fn.node), witness(p))
                elif no is None:
                    ctx.check(not steps, "R05.none", fn.qual, "an agent takes a step without checking that a route was found", steps[0].where if steps else fn.where(fn.node), witness(p))
                else:
                    ctx.check(steps, "R05.plan", fn.qual + " follow", "an agent that found a route does not follow it", fn.where(fn.node), witness(p))
                    if route is not None:
                        ctx.check(route is sel[0].result or route.op in ("copy", "call") and T.contains(route, sel[0].result) or result_of("selectRoute")(route), "R05.plan", fn.qual + " kept", "the agent keeps %s as its route" % T.show(route), fn.where(fn.node), witness(p))
    ctx.need("plans made by an agent", n, 2)


# ---- R06 ---------------------------------------------------------------------
def r06(ctx):
    for w in WORLDS:
        generate(ctx, w)
        crawl(ctx, w)
        store(ctx, w)
        major(ctx, w)
        hubs(ctx, w)
        stale(ctx, w)


def generate(ctx, w):
    fn = ctx.func(CRA + "generateLocationRoutes")
    L = is_sym(fn.params[0])
    n = 0
    for p in ctx.paths(w, fn, stop={"calculateLocCrawlLinkWeight", "insertAllMajorRoutesAtLocation"}):
        for marker in (True, False):
            c = Cell(subst([(attr_of(L, "marker"), marker), (AW, 2)]), marker=marker)
            if not c.feasible(p):
                continue
            n += 1
            reset = [i for i, e in enumerate(p.events) if e.kind == "write" and e.attr == "routes" and L(e.base) and e.value.op in ("new", "dict")]
            reset += [i for i, e in enumerate(p.events) if e.kind == "mutate" and e.method == "clear" and is_attr(e.base, "routes") and L(e.base.args[0])]
            work = [i for i, e in enumerate(p.events) if any(o.kind == "call" and last(o) in ("calculateLocCrawlLinkWeight", "insertAllMajorRoutesAtLocation") for o in ([e] if e.kind == "call" else [x.ev for q in e.paths for x in flatten(q)] if e.kind == "loop" else []))]
            ctx.check(len(reset) >= 1 and (not work or max(reset) < min(work)), "R06.reset", fn.name, "routes are generated without discarding the old ones first", fn.where(fn.node), witness(p))
            if marker:
                ctx.check(not work, "R06.marker", fn.name, "routes are stored at a marker", fn.where(fn.node), witness(p))
                continue
            loops = [e for e in p.events if e.kind == "loop" and any(o.ev.kind == "call" and last(o.ev) == "calculateLocCrawlLinkWeight" for q in e.paths for o in flatten(q))]
            ctx.check(len(loops) == 1, "R06.start", fn.name, "the links of a place are searched %d times" % len(loops), fn.where(fn.node), witness(p))
            for lp in loops:
                el = loop_elem(lp, lambda x: is_attr(x, "links") and L(x.args[0]))
                ctx.check(el is not None, "R06.start", fn.name + " links", "routes are searched over %s" % T.show(lp.iter), fn.where(lp.astn))
                if el is None:
                    continue
                for q in lp.paths:
                    calls = [o.ev for o in flatten(q) if o.ev.kind == "call" and last(o.ev) == "calculateLocCrawlLinkWeight"]
                    ctx.check(len(calls) == 1 and q.exit in ("norm", "continue", None), "R06.start", fn.name + " each", "a link is searched %d times" % len(calls), fn.where(lp.astn), witness(q))
                    for x in calls:
                        o = items(q, arg(x, "origin_names"))
                        ctx.check(o is not None and len(o) == 1 and is_attr(o[0], "name") and L(o[0].args[0]), "R06.start", fn.name + " origin", "the search starts with the route %s" % T.show(arg(x, "origin_names") or NONE), x.where)
                        z = arg(x, "prior_distance")
                        ctx.check(arg(x, "link") is el and L(arg(x, "source_loc") or NONE) and z is not None and z.op == "const" and z.args[0] == 0 and arg(x, "step") is const(1), "R06.start", fn.name + " from",
                                  "the search starts along %s at distance %s, step %s, storing at %s" % tuple(T.show(arg(x, k) or NONE) for k in ("link", "prior_distance", "step", "source_loc")), x.where)
            maj = [e for e in p.events if e.kind == "call" and last(e) == "insertAllMajorRoutesAtLocation"]
            ctx.check(len(maj) == 1 and L(maj[0].args[0][1]), "R06.major", fn.name, "major routes are added %d times" % len(maj), fn.where(fn.node), witness(p))
            if maj and loops:
                ctx.check(p.events.index(maj[0]) > p.events.index(loops[-1]), "R06.major", fn.name + " after", "major routes are added before the routes to their hubs are known", maj[0].where, witness(p))
    ctx.need("ways of generating routes", n, 2)


def crawl(ctx, w):
    fn = ctx.func(CRA + "calculateLocCrawlLinkWeight")

    def own(ctx, p, c, marker, label, fn):
        adds = [e for e in p.events if e.kind == "call" and last(e) == "_addLocationRoute"]
        want = 0 if marker else 1
        ctx.check(len(adds) == want and not any(o.ev.kind == "call" and last(o.ev) == "_addLocationRoute" and o.loops for o in flatten(p)), "R06.marker" if marker else "R06.own", label,
                  "a place that is %sa marker is stored %d times" % ("" if marker else "not ", len(adds)), fn.where(fn.node), witness(p))
        for e in adds:
            for k in ("source_loc", "link", "prior_distance", "origin_names"):
                ctx.check(is_sym(k)(arg(e, k) or NONE), "R06.own", "%s %s" % (label, k), "a route is stored with %s = %s" % (k, T.show(arg(e, k) or NONE)), e.where)
            m = arg(e, "major")
            ctx.check(m is None or m is FALSE, "R06.own", label + " major", "a route found by searching is stored as a major one", e.where)
    ps, n = search(ctx, "R06", w, fn, "calculateLocCrawlLinkWeight", own, fn.name)
    ctx.need("cells of the stored route search", n, 18)


def store(ctx, w):
    fn = ctx.func(CRA + "_addLocationRoute")
    ps = ctx.paths(w, fn, stop={"getLocationCrawlEndPointScore"})
    S = is_sym("source_loc")
    table = attr_of(S, "routes")
    name = lambda t: endpoint_name(t, LINK)
    n = 0

    def entry0(t):
        """weight of the route stored so far"""
        if t.op == "idx" and t.args[1] is const(0):
            b = t.args[0]
            if b.op == "call" and b.args[0].split(".")[-1] == "get":
                return table(b.args[1][0]) and name(b.args[1][1])
            return b.op == "idx" and table(b.args[0]) and name(b.args[1])
        return False
    has = lambda t: t.op == "in" and name(t.args[0]) and (table(t.args[1]) or any(table(y) for y in T.walk(t.args[1])))
    for v in cross(old=(None, 0.5, 2.0), major=(True, False), dp=(1.0, 1.5), wp=(1.0, 2.0)):
        dist = (10.0 + 20.0 + 7.0) / (4.0 if v["major"] else 1.0)
        want = ((0.125 + 30.0) / dist ** v["dp"]) ** v["wp"]
        tab = [(is_setting("WeightSoftening"), 0.125), (is_setting("DistanceSoftening"), 10.0), (is_setting("DistancePower"), v["dp"]), (is_setting("WeightPower"), v["wp"]),
               (dist_of(LINK), 20.0), (is_sym("prior_distance"), 7.0), (is_sym("major"), v["major"]), (result_of("getLocationCrawlEndPointScore"), 30.0),
               (entry0, v["old"] * want if v["old"] is not None else 0), (has, v["old"] is not None), (lambda t: t.op == "none" and entryof(t.args[0], table, name), v["old"] is None)]
        c = Cell(subst(tab), **v)
        for p in ps:
            if not c.feasible(p):
                continue
            n += 1
            subs = [e for e in p.events if e.kind == "subwrite" and table(e.base)]
            better = v["old"] is None or v["old"] < 1
            ctx.check(bool(subs) is better, "R06.best", "%s %s" % (fn.name, "better" if better else "worse"), "a route %s than the stored one %s" % ("better" if better else "worse", "replaces it" if subs else "does not replace it"), fn.where(fn.node), witness(p))
            for e in subs:
                ctx.check(name(e.d["key"]), "R06.entry", fn.name + " key", "the route is stored under %s, not under its destination" % T.show(e.d["key"]), e.where)
                it = items(p, e.value)
                if it is None or len(it) != 3:
                    ctx.check(it is None, "R06.entry", fn.name, "a stored route has %s parts" % (len(it) if it is not None else "?"), e.where)
                    continue
                ctx.check(same(c.num(it[0]), want), "R06.entry", fn.name + " weight", "the weight stored is %s (%s), not %.6g for %s" % (T.show(it[0]), c.num(it[0]), want, c.show()), e.where, witness(p))
                r = it[1]
                good = r.op == "concat" and len(r.args) == 2 and drops(r.args[0], r.args[0].args[0]) and is_sym("origin_names")(r.args[0].args[0]) and r.args[1].op == "list" and len(r.args[1].args) == 1 and name(r.args[1].args[0]) if r.op == "concat" and r.args[0].op == "slicing" else False
                if not good and r.op == "slicing":
                    i = r.args[0]
                    good = drops(r, i) and i.op == "concat" and len(i.args) == 2 and is_sym("origin_names")(i.args[0]) and i.args[1].op == "list" and len(i.args[1].args) == 1 and name(i.args[1].args[0])
                ctx.check(good, "R06.entry", fn.name + " steps", "the steps stored are %s, not those after the start up to the destination" % T.show(r), e.where, witness(p))
                ctx.check(is_attr(it[2], "endpoint") and LINK(it[2].args[0]), "R06.entry", fn.name + " destination", "the destination stored is %s" % T.show(it[2]), e.where)
        for p in ps:
            for o in flatten(p):
                if o.ev.kind == "call" and last(o.ev) == "getLocationCrawlEndPointScore":
                    ctx.check(LINK(arg(o.ev, "link") or NONE), "R06.entry", fn.name + " score", "the score stored is of another link", o.ev.where)
    ctx.need("cells of a stored route", n, 8)


def entryof(t, table, name):
    return t.op == "call" and t.args[0].split(".")[-1] == "get" and table(t.args[1][0]) and name(t.args[1][1])


def major(ctx, w):
    """a major route is followed link by link, and stored whole"""
    fn = ctx.func(CRA + "_addMajorRouteToLocation")
    S, R = is_sym("source_loc"), is_sym("route")
    n = 0
    ps = ctx.paths(w, fn, stop={"_addLocationRoute"})
    lids = loops_of(ps)
    cut = lambda t: t.op == "slicing" and R(t.args[0]) and t.args[1] is NONE and (t.args[2] is const(-1) or is_lastpos(t.args[2], R))
    for p in ps:
        for o in flatten(p):
            e = o.ev
            if e.kind != "call" or last(e) != "_addLocationRoute":
                continue
            n += 1
            ctx.check(S(arg(e, "source_loc") or NONE), "R06.major", fn.name + " where", "a major route is stored at %s" % T.show(arg(e, "source_loc") or NONE), e.where)
            ctx.check(arg(e, "major") is TRUE, "R06.major", fn.name + " kind", "a major route is stored as an ordinary one", e.where)
            lk = arg(e, "link")
            step = None
            for g in [o.cons] + [dict(g) for g in guards(o.path)]:
                for a, v in g.items():
                    if v is True and a.op == "eq":
                        for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                            if lk is not None and endpoint_name(x, lambda z: z is lk) and y.op in ("idx", "elem") and R(y.args[0]):
                                step = y
            ctx.check(step is not None, "R06.major", fn.name + " link", "the last link of a major route is %s, without comparing its end with the route" % T.show(lk or NONE), e.where, witness(p))
            on = arg(e, "origin_names")
            whole = on is not None and on.op == "concat" and len(on.args) == 2 and on.args[0].op == "list" and len(on.args[0].args) == 1 and cut(on.args[1])
            if whole:
                ctx.ok("R06.firststep")
            elif on is not None and cut(on):
                ctx.fail("R06.firststep", fn.name, "a stored major route lacks its first step: the steps handed over start after the source, and storing drops one more", e.where, witness(p))
            else:
                ctx.fail("R06.major", fn.name + " steps", "the steps handed over for a major route are %s" % T.show(on or NONE), e.where, witness(p))
            d = arg(e, "prior_distance")
            ctx.check(d is not None and d.op in ("loopvar", "after", "const", "phi"), "R06.major", fn.name + " distance", "the distance of a major route is %s" % T.show(d or NONE), e.where)
            if d is not None and d.op == "loopvar":
                follow_major(ctx, fn, d, lids, R)
    ctx.need("major routes stored", n)


def is_lastpos(t, R):
    c, its = T._lin(t)
    return c == -1 and len(its) == 1 and all(T.is_len(x) and R(x.args[1][0]) and k == 1 for x, k in its.items())


def follow_major(ctx, fn, d, lids, R):
    lp = lids.get(d.args[0])
    if lp is None:
        return
    z = lp.d["init"].get(d.args[1])
    while z is not None and z.op == "loopvar" and z.args[1] == d.args[1] and z.args[0] in lids:
        lp = lids[z.args[0]]
        z = lp.d["init"].get(d.args[1])
    ctx.check(z is not None and z.op == "const" and z.args[0] == 0, "R06.major", fn.name + " distance", "the distance of a major route starts at %s" % T.show(z or NONE), fn.where(lp.astn))
    for q in lp.paths:
        if q.exit not in ("norm", "continue", None):
            continue
        v = q.state.env.get(d.args[1])
        if v is None:
            continue
        inc = [y for y in T.walk(v) if y.op == "attr" and y.args[1].endswith("__distance")]
        if v.op in ("after", "phi"):
            alts = v.args[2] if v.op == "after" else tuple(x[0] for x in v.args[2])
        else:
            alts = (v,)
        good = False
        for x in alts:
            c, its = T._lin(x)
            keys = list(its.items())
            if c == 0 and len(keys) == 2 and all(k == 1 for _, k in keys) and any(t.op == "loopvar" and t.args[1] == d.args[1] for t, _ in keys) and any(t.op == "attr" and t.args[1].endswith("__distance") for t, _ in keys):
                good = True
        ctx.check(good, "R06.major", fn.name + " distance", "a step along a major route changes its distance to %s" % T.show(v), fn.where(lp.astn), witness(q))


def hubs(ctx, w):
    fn = ctx.func(CRA + "insertMajorRoutesForLocation")
    S, L, D, P = is_sym("source_loc"), is_sym("l"), is_sym("dest_list"), is_sym("route_to_l")
    n = 0
    for p in ctx.paths(w, fn, stop={"_addMajorRouteToLocation"}):
        for e in p.events:
            if e.kind != "loop":
                if e.kind == "call" and last(e) == "_addMajorRouteToLocation":
                    ctx.fail("R06.hub", fn.name, "a major route is added outside the walk over the major routes of the hub", e.where)
                continue
            if not any(o.ev.kind == "call" and last(o.ev) == "_addMajorRouteToLocation" for q in e.paths for o in flatten(q)):
                continue
            el = loop_elem(e, lambda x: is_attr(x, "major_routes") and L(x.args[0]))
            ctx.check(el is not None, "R06.hub", fn.name, "major routes are taken from %s" % T.show(e.iter), fn.where(e.astn))
            if el is None:
                continue
            for q in e.paths:
                ctx.check(q.exit in ("norm", "continue", None), "R06.hub", fn.name + " early", "adding major routes ends early (%s)" % q.exit, fn.where(e.astn), witness(q))
                calls = [o.ev for o in flatten(q) if o.ev.kind == "call" and last(o.ev) == "_addMajorRouteToLocation"]
                for x in calls:
                    n += 1
                    r = arg(x, "route")
                    ctx.check(S(arg(x, "source_loc") or NONE) and r is not None and r.op == "concat" and len(r.args) == 2 and P(r.args[0]) and r.args[1] is el, "R06.hub", fn.name + " joined",
                              "the major route added is %s, not the way to the hub followed by the hub's route" % T.show(r or NONE), x.where)
                    for g in guards(q):
                        ctx.check(any(a.op == "in" and v is False and T.contains(a.args[0], el) for a, v in g.items()), "R06.hub", fn.name + " known", "a major route is added for a destination that may have a route already", x.where, witness(q))
                        ctx.check(any(mentions_distinct(a, el) for a in g), "R06.loops", fn.name, "a major route is joined without checking that it does not return to a place already on it", x.where, witness(q))
                for what, c in joins(S, P, el, q.state.heap):
                    for g in guards(q):
                        known = {a: v for a, v in g.items() if not (a.op == "in" and T.contains(a.args[0], el) and not mentions_distinct(a, el))}
                        said = {a: c.decide(a) for a in known}
                        if None in said.values() or any(said[a] is not v for a, v in known.items()) or any(v for a, v in g.items() if a not in known):
                            continue
                        if what:
                            ctx.check(not calls, "R06.loops", fn.name, "a major route is joined although %s" % what, fn.where(e.astn), witness(q))
                        else:
                            ctx.check(calls, "R06.hub", fn.name + " joins", "a major route to a new destination that passes no place twice is left out", fn.where(e.astn), witness(q))
    ctx.need("joined major routes", n)
    fn = ctx.func(CRA + "insertAllMajorRoutesAtLocation")
    L = is_sym(fn.params[0])
    own = hub = 0
    for p in ctx.paths(w, fn, stop={"insertMajorRoutesForLocation"}):
        for o in flatten(p):
            e = o.ev
            if e.kind != "call" or last(e) != "insertMajorRoutesForLocation":
                continue
            src, h, r = arg(e, "source_loc"), arg(e, "l"), arg(e, "route_to_l")
            ctx.check(L(src or NONE), "R06.hub", fn.name + " where", "major routes are stored at %s" % T.show(src or NONE), e.where)
            if L(h or NONE):
                own += 1
                it = items(p, r)
                ctx.check(it == [], "R06.hub", fn.name + " own", "the way to the hub the place itself is, is %s" % T.show(r or NONE), e.where)
            else:
                hub += 1
                ok = h is not None and r is not None and h.op == "idx" and r.op == "idx" and h.args[0] is r.args[0] and h.args[1] is const(2) and r.args[1] is const(1) and any(is_attr(y, "routes") and L(y.args[0]) for y in T.walk(h))
                ctx.check(ok, "R06.hub", fn.name + " way", "the way to hub %s is %s" % (T.show(h or NONE), T.show(r or NONE)), e.where)
    ctx.need("major routes from the place itself", own)
    ctx.need("major routes from places in reach", hub)


def joins(S, P, el, heap):
    """joined routes of three places after the start: one that is fine and two that return"""
    def parts(t):
        if t.op == "new" and ((t, "$items") in heap or (t, "$copyof") in heap):
            return parts(heap.get((t, "$items"), heap.get((t, "$copyof"))))
        if t.op in ("concat", "list", "set", "tuple"):
            return [y for x in t.args for y in parts(x)]
        if t.op == "call" and t.args[0].split(".")[-1] in ("set", "list", "frozenset") and len(t.args[1]) == 1:
            return parts(t.args[1][0])
        return [t]

    def kind(t):
        """which of the start, the way to the hub and the hub's route a collection holds"""
        ps = parts(t)
        k = frozenset("s" if is_attr(x, "name") and S(x.args[0]) else "p" if P(x) else "m" if x is el else "?" for x in ps)
        return k if len(k) == len(ps) else None
    full, route = frozenset("spm"), frozenset("pm")
    start = lambda t: is_attr(t, "name") and S(t.args[0])
    for what, nfull, nroute, src in ((None, 4, 3, False), ("it passes a place twice", 3, 2, False), ("it returns to its start", 3, 3, True)):
        def f(t, nfull=nfull, nroute=nroute, src=src):
            if T.is_len(t):
                x = t.args[1][0]
                k = kind(x)
                uniq = x.op == "set" or x.op == "call" and x.args[0].split(".")[-1] in ("set", "frozenset") or x.op == "new" and x.args[0] == "set"
                if k == full:
                    return const(nfull if uniq else 4)
                if k == route:
                    return const(nroute if uniq else 3)
            if t.op == "in" and start(t.args[0]) and kind(t.args[1]) == route:
                return const(src)
            return None
        yield what, Cell(f, join=what)


def mentions_distinct(a, el):
    """a condition comparing the number of different places with the length of the joined route"""
    return any(y.op == "set" or y.op == "new" and y.args[0] == "set" or y.op == "call" and y.args[0].split(".")[-1] in ("set", "Counter", "isdisjoint") for y in T.walk(a)) or \
        a.op == "in" and any(y is el for y in T.walk(a)) and not any(y.op == "idx" and y.args[0] is el for y in T.walk(a))


def stale(ctx, w):
    """fixed routes are regenerated on every score refresh, before they are used"""
    fn = ctx.func("flee.scoring:updateLocationScore")
    n = 0
    for p in ctx.paths(w, fn, stop={"generateLocationRoutes"}):
        c = Cell(subst([(is_setting("FixedRoutes"), True)]))
        if not c.feasible(p):
            continue
        n += 1
        gen = [e for e in p.events if e.kind == "call" and last(e) == "generateLocationRoutes"]
        ctx.check(len(gen) == 1 and any(is_sym("loc")(v) for _, v in gen[0].args), "R06.reset", fn.name, "with fixed routes on, refreshing a place regenerates its routes %d times" % len(gen), fn.where(fn.node), witness(p))
    ctx.need("score refreshes with fixed routes", n)


RULES = {"R01": r01, "R02": r02, "R03": r03, "R04": r04, "R05": r05, "R06": r06}
EXPLAIN = {"R01": "effect analysis of every planning function", "R02": "case analysis of one search step, and of where it starts",
           "R03": "case analysis of the move chance, and of the decision", "R04": "case analysis of weight, score and capacity factor",
           "R05": "case analysis of pruning, normalising and choosing", "R06": "case analysis of generating and storing routes"}
