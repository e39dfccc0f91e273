"""E01: the phases of one time step"""
from ..report import *          # noqa
from ..report import mk, T
from ..terms import NONE, TRUE, FALSE, const

ECO = mk("sym", "self", ty="Ecosystem")
NOW = mk("attr", ECO, "time", 0)
STOP = {"refresh_spawn_weights", "updateLocationScore", "evolve", "finish_travel", "write_agents", "write_links", "_aggregate_arrivals",
        "write_agents_par", "write_links_par", "updateNumAgents", "synchronize_locations", "generateLocationRoutes",
        "CalcCommWorldTotal", "updateAllScores"}
AGENTS, LOCS = mk("attr", ECO, "agents", 0), mk("attr", ECO, "locations", 0)


def guards(p):
    return p.alts or [p.cons]


def last(e):
    return e.name.split(".")[-1]


def loop_subject(lp, what):
    """the element of the ecosystem's agents/locations this loop visits one by one"""
    el = lp.elem
    if el is None:
        return None
    for x in ([el] + [y for y in el.args if isinstance(y, T.Term)] if el.op == "tuple" else [el]):
        if x.op == "elem" and is_attr(x.args[0], what, ECO):
            return x
        if x.op == "index" and is_attr(x.args[0], what, ECO):
            return mk("elem", x.args[0], x.args[1])
    return None


def is_now(t):
    return t is not None and (T.strip(t) is NOW or is_attr(T.strip(t), "time", ECO))


class Phases:
    """top-level positions at which each phase of a step happens"""

    def __init__(self):
        self.at, self.ev = {}, {}

    def add(self, k, pos, e):
        self.at.setdefault(k, []).append(pos)
        self.ev.setdefault(k, e)


def every_agent(lp, a, count):
    """number of times `count` holds on each way through the body, by whether the agent is active"""
    loc = mk("attr", a, "location", 0)
    none = mk("none", loc, ty="bool")
    out = {True: set(), False: set()}
    for q in lp.paths:
        n = count(q)
        for g in guards(q):
            v = g.get(none)
            if v is not True:
                out[True].add((n, q.exit))
            if v is not False:
                out[False].add((n, q.exit))
    return out


def calls_on(q, name, a):
    n = 0
    for o in flatten(q):
        e = o.ev
        if e.kind == "call" and last(e) == name:
            n += 1 if (e.recv is a and not o.loops) else 100
    return n


def e01(ctx):
    for w in ("serial", "parallel"):
        fn = ctx.method(w, "Ecosystem.evolve")
        ps = ctx.paths(w, fn, stop=STOP)
        label = "%s (%s)" % (fn.qual, w)
        seen = set()
        for p in ps:
            if p.exit not in ("return", "norm", None):
                ctx.fail("E01.completes", label, "a time step can end early (%s)" % p.exit, fn.where(fn.node), witness(p))
                continue
            ph = phases(ctx, w, fn, p, label)
            order(ctx, w, fn, p, ph, label)
            seen |= set(ph.at)
        want = {"score", "decide", "travel", "age", "log agents", "log links", "history", "arrivals", "clock"}
        want |= {"spawn weights"} if w == "serial" else {"headcounts"}
        for k in sorted(want - seen):
            ctx.fail("E01.phase", label + " " + k, "no way through a time step includes this phase: %s" % k, fn.where(fn.node))
        ctx.need("ways through a time step (%s)" % w, len(ps), 8)


def phases(ctx, w, fn, p, label):
    ph = Phases()
    where = fn.where(fn.node)
    aged = {}
    hist = {}
    moved = {}
    clock = 0
    for i, e in enumerate(p.events):
        if e.kind == "call":
            n = last(e)
            if n == "refresh_spawn_weights":
                ctx.check(any(v is ECO for _, v in e.args), "E01.phase", label + " spawn weights", "the spawn weights of another ecosystem are refreshed", e.where)
                ph.add("spawn weights", i, e)
            elif n in ("write_agents", "write_agents_par"):
                ctx.check(any(v is AGENTS or is_attr(v, "agents", ECO) for _, v in e.args) and any(is_now(v) for _, v in e.args), "E01.phase", label + " log agents",
                          "the agent log is not written for this ecosystem's agents and the current day", e.where)
                ph.add("log agents", i, e)
            elif n in ("write_links", "write_links_par"):
                ctx.check(any(is_attr(v, "locations", ECO) for _, v in e.args) and any(is_now(v) for _, v in e.args), "E01.phase", label + " log links",
                          "the link log is not written for this ecosystem's locations and the current day", e.where)
                ph.add("log links", i, e)
            elif n == "_aggregate_arrivals":
                ph.add("arrivals", i, e)
            elif n == "updateNumAgents":
                ph.add("headcounts", i, e)
            elif n == "synchronize_locations":
                ph.add("sync scores", i, e)
            elif n in ("evolve", "finish_travel"):
                ctx.fail("E01.phase", label + " " + n, "an agent is evolved outside the walk over all agents", e.where)
        elif e.kind == "write" and e.attr == "time" and e.base is ECO:
            clock += 1
            ph.add("clock", i, e)
            ctx.check(T.strip(e.value) is mk_plus(NOW, clock), "E01.clock", label, "the clock is set to %s" % T.show(e.value), e.where)
        elif e.kind == "loop":
            loop(ctx, w, fn, e, i, ph, label, aged, hist, moved)
    ctx.check(clock == 1, "E01.clock", label + " once", "the clock advances %d times in one step" % clock, where, witness(p))
    return ph


def mk_plus(t, n):
    return T.add(t, const(n))


def loop(ctx, w, fn, e, i, ph, label, aged, hist, moved):
    loc = loop_subject(e, "locations")
    a = loop_subject(e, "agents")
    names = {last(o.ev) for q in e.paths for o in flatten(q) if o.ev.kind == "call"}
    writes = {o.ev.attr for q in e.paths for o in flatten(q) if o.ev.kind == "write"}
    if loc is not None:
        def per(test, k, what):
            cnt = {sum(1 for x in q.events if test(x)) for q in e.paths if q.exit in ("norm", "continue", None)}
            early = any(q.exit not in ("norm", "continue", None) for q in e.paths)
            ctx.check(cnt and min(cnt) > 0 and not early, "E01.phase", label + " " + k, what, fn.where(e.astn))
            ph.add(k, i, e)
        if "routes" in writes:
            per(lambda x: x.kind == "write" and x.attr == "routes" and x.base is loc and empty(x.value), "discard",
                "the stored routes of some locations survive into the next step")
        if "updateLocationScore" in names:
            per(lambda x: x.kind == "call" and last(x) == "updateLocationScore" and argis(x, loc) and any(is_now(v) for _, v in x.args), "score",
                "the score of some locations is not refreshed for the current day")
        if "generateLocationRoutes" in names:
            per(lambda x: x.kind == "call" and last(x) == "generateLocationRoutes" and argis(x, loc), "discard",
                "the routes of some locations are not regenerated")
    if "updateAllScores" in names:
        ph.add("own scores", i, e)
    if "evolve" in names or "finish_travel" in names or writes & {"timesteps_since_departure", "recent_travel_distance", "distance_moved_this_timestep"}:
        if a is None:
            ctx.fail("E01.phase", label + " agents", "agents are evolved in a walk over %s instead of over all agents" % T.show(e.iter), fn.where(e.astn))
            return
        for name, k in (("evolve", "decide"), ("finish_travel", "travel")):
            if name not in names:
                continue
            n = every_agent(e, a, lambda q: calls_on(q, name, a))
            ctx.check(n[True] <= {(1, "norm"), (1, "continue"), (1, None)} and n[True], "E01.agents", "%s %s" % (label, k),
                      "an active agent may %s %s times in one step" % (k, sorted(x for x, _ in n[True])), fn.where(e.astn))
            ctx.check(all(x == 0 for x, _ in n[False] - n[True]) and all(s in ("norm", "continue", None) for _, s in n[False]), "E01.agents", "%s %s inactive" % (label, k),
                      "a deactivated agent may %s" % k, fn.where(e.astn))
            for q in e.paths:
                for o in flatten(q):
                    if o.ev.kind == "call" and last(o.ev) == name:
                        ctx.check(any(v is ECO for _, v in o.ev.args) and is_now(argof(o.ev, "time")), "E01.agents", "%s %s day" % (label, k),
                                  "an agent is evolved for another ecosystem or day", o.ev.where)
            ph.add(k, i, e)
        if "timesteps_since_departure" in writes:
            old = mk("attr", a, "timesteps_since_departure", 0)
            n = every_agent(e, a, lambda q: net(q, a, "timesteps_since_departure"))
            ctx.check({x for x, _ in n[True]} == {1}, "E01.age", label, "an active agent ages by %s steps" % sorted(map(str, {x for x, _ in n[True]})), fn.where(e.astn))
            ph.add("age", i, e)
        if writes & {"recent_travel_distance", "distance_moved_this_timestep"}:
            history(ctx, fn, e, a, label)
            ph.add("history", i, e)


def empty(v):
    return (v.op == "new" and not v.args[1:]) or (v.op in ("dict", "list") and not v.args) or v.op == "new"


def argis(x, t):
    return any(v is t or (v.op in ("elem", "idx") and v.args[0] is t.args[0] and (v is t or same_el(v, t))) for _, v in x.args) or x.recv is t


def same_el(v, t):
    if v.op == "idx" and v.args[1].op == "index":
        return v.args[1].args[0] is t.args[0] and v.args[1].args[1] == t.args[1]
    return False


def net(q, a, attr):
    """net constant change of an agent's field on one way through a loop body"""
    v = None
    for o in flatten(q):
        if o.ev.kind == "write" and o.ev.attr == attr:
            if o.ev.base is not a or o.loops:
                return "?"
            v = o.ev.value
    if v is None:
        return 0
    c, items = T._lin(v)
    if len(items) == 1:
        (x, k), = items.items()
        if k == 1 and is_attr(x, attr, a):
            return c
    return "?"


def history(ctx, fn, lp, a, label):
    old = mk("attr", a, "recent_travel_distance", 0)
    mv = mk("attr", a, "distance_moved_this_timestep", 0)
    speed = mksetting("move_rules", "MaxMoveSpeed")
    none = mk("none", mk("attr", a, "location", 0), ty="bool")
    for q in lp.paths:
        inactive = all(g.get(none) is True for g in guards(q))
        vals = {}
        for x in q.events:
            if x.kind == "write" and x.base is a:
                vals[x.attr] = x.value
        if inactive and not vals:
            ctx.ok("E01.history")
            continue
        r, d = vals.get("recent_travel_distance"), vals.get("distance_moved_this_timestep")
        ctx.check(d is not None and T.strip(d) in (const(0), const(0.0)), "E01.history", label + " reset", "the day's distance is not reset for every agent", fn.where(lp.astn), witness(q))
        good = False
        if r is not None:
            c, items = T._lin(r)
            want = {T.strip(old): 0.5, T.strip(T.div(mv, speed)): 0.5}
            good = c == 0 and {T.strip(k): v for k, v in items.items()} == want
        ctx.check(good, "E01.history", label + " average", "the travel history becomes %s, not the mean of the old value and today's share of the daily maximum" % (T.show(r) if r is not None else "unchanged"),
                  fn.where(lp.astn), witness(q))


ORDER = [("spawn weights", "decide"), ("discard", "decide"), ("score", "decide"), ("own scores", "sync scores"), ("sync scores", "decide"), ("sync scores", "discard"), ("decide", "travel"), ("decide", "age"), ("travel", "log agents"), ("travel", "log links"), ("age", "log agents"), ("travel", "history"), ("log agents", "history"),
         ("travel", "arrivals"), ("history", "clock"), ("arrivals", "clock"), ("log agents", "clock"), ("log links", "clock")]


def order(ctx, w, fn, p, ph, label):
    where = fn.where(fn.node)

    def once(k, n=1):
        got = len(ph.at.get(k, ()))
        ctx.check(got == n, "E01.phase", "%s %s" % (label, k), "a time step has this phase %d times instead of %d: %s" % (got, n, k), ph.ev[k].where if k in ph.ev else where, witness(p))
    for k in ("decide", "travel", "age", "history"):
        once(k)
    if w == "serial":
        once("spawn weights")
        once("score")
        ctx.check(ph.at.get("discard"), "E01.phase", label + " discard", "stored routes survive into the next step", where, witness(p))
    else:
        locpar = any(v is True and a.op == "eq" and const("loc-par") in a.args for a, v in p.cons.items())
        classic = any(v is True and a.op == "eq" and const("classic") in a.args for a, v in p.cons.items())
        if classic:
            once("score")
            ctx.check(ph.at.get("discard"), "E01.phase", label + " discard", "stored routes survive into the next step", where, witness(p))
        elif locpar:
            ctx.check(ph.at.get("own scores") and ph.at.get("sync scores"), "E01.phase", label + " sync scores", "scores computed on other ranks are not synchronised", where, witness(p))
            fixed = mksetting("move_rules", "FixedRoutes")
            off = any(T.contains(a, fixed) and v is False for a, v in p.cons.items())
            ctx.check(off or ph.at.get("discard"), "E01.phase", label + " discard", "stored routes survive into the next step", where, witness(p))
        u = ph.at.get("headcounts", [])
        de, tr, ar = ph.at.get("decide", [0]), ph.at.get("travel", [0]), ph.at.get("clock", [0])
        ctx.check(any(de[-1] < x < tr[0] for x in u), "E01.sync", label + " between", "headcounts are not synchronised between deciding and travelling", where, witness(p))
        ctx.check(any(tr[-1] < x <= ar[-1] + 9 for x in u), "E01.sync", label + " after", "headcounts are not synchronised after travelling", where, witness(p))
    for lv, k in (("agent", "log agents"), ("link", "log links"), ("camp", "arrivals")):
        on = atom_value(p, lv)
        if on is True:
            once(k)
        elif on is False and k != "arrivals":
            ctx.check(k not in ph.at, "E01.phase", "%s %s off" % (label, k), "%s although the log level is 0" % k, where, witness(p))
        elif on is None and k not in ph.at:
            ctx.fail("E01.phase", "%s %s" % (label, k), "this phase does not depend on its log level: %s" % k, where, witness(p))
    for x, y in ORDER:
        if x in ph.at and y in ph.at:
            ctx.check(max(ph.at[x]) < min(ph.at[y]), "E01.order", "%s %s before %s" % (label, x, y), "in a time step '%s' does not come before '%s'" % (x, y), ph.ev[y].where, witness(p))


def atom_value(p, level):
    """whether a log level is above zero on this path"""
    s = mksetting("log_levels", level)
    for a, v in p.cons.items():
        if a.op == "lt0":
            c, items = T._lin(a.args[0])
            if list(items) == [s]:
                k = items[s]
                off, on = c < 0, c + k < 0
                if on != off:
                    return v if on else not v
        if a.op == "eq" and s in a.args and const(0) in a.args:
            return not v
    return None


RULES = {"E01": e01}
EXPLAIN = {"E01": "phase automaton over every way through Ecosystem.evolve, serial and parallel"}
