"""L02-L04: conflicts, attractiveness scores, time-dependent attributes"""
import ast
from ..report import *          # noqa
from ..report import mk, T
from ..terms import NONE, TRUE, FALSE, const
from .. import cells
from .. import algebra as A
from .network import loc_key, name_eq, positional, guards, opname, final, owner_loc

ECO = mk("sym", "self", ty="Ecosystem")
GEO = "flee.InputGeography:InputGeography."
ENDED = ("return", "norm", None)


def offset(t, base):
    """k when t is base + k, else None"""
    t = T.strip(t)
    c, items = T._lin(t)
    if len(items) == 1 and list(items) == [T.strip(base)] and items[T.strip(base)] == 1:
        return c
    return None


# ---- L02 ---------------------------------------------------------------------
TIME = mk("sym", "time", ty="int")
ZONE = {"add_conflict_zone", "remove_conflict_zone"}
SCHED_STOP = {"UpdateLocationAttributes", "change_location_type", "getRankN", "getConflictLocationNames"} | ZONE


def named_arg(e, name, pos):
    v = argof(e, name)
    if v is None:
        v = positional(e, pos + 1)[pos]
    return v


def l02(ctx):
    schedule(ctx)
    zones(ctx)


def schedule(ctx):
    fn = ctx.func(GEO + "AddNewConflictZones")
    ps = ctx.paths("serial", fn, stop=SCHED_STOP)
    label = fn.qual
    n = {"table": 0, "list": 0}
    flood = mksetting("move_rules", "FloodRulesEnabled")
    for p in ps:
        if any(T.contains(a, flood) and v for a, v in p.cons.items()):
            continue                       # flood-driven runs use no conflict schedule
        if p.exit not in ENDED:
            ctx.fail("L02.schedule", label, "the day's conflicts can be left unread (%s)" % p.exit, fn.where(fn.node), witness(p))
            continue
        table = any(a.op == "nonempty" and "ConflictInputFile" in T.show(a) and v or a.op in ("eq", "lt0") and "ConflictInputFile" in T.show(a) and
                    "len" in T.show(a) and (v is (a.op == "lt0")) for a, v in p.cons.items())
        lps = [e for e in p.events if e.kind == "loop" and any(o.ev.kind == "call" and opname(o.ev) in ZONE for q in e.paths for o in flatten(q))]
        loose = [e for e in p.events if e.kind == "call" and opname(e) in ZONE]
        for e in loose:
            ctx.fail("L02.schedule", label + " loose", "a conflict changes outside the walk over the listed locations", e.where)
        if not ctx.check(len(lps) == 1, "L02.schedule", label + (" table" if table else " list"), "the listed conflicts are walked %d times" % len(lps), fn.where(fn.node), witness(p)):
            continue
        if table:
            n["table"] += 1
            by_table(ctx, fn, lps[0])
        else:
            n["list"] += 1
            by_list(ctx, fn, lps[0])
    ctx.need("ways of reading the conflict schedule", n["table"])
    ctx.need("ways of reading the listed conflict zones", n["list"])


def actions(q):
    return [o for o in flatten(q) if o.ev.kind == "call" and opname(o.ev) in ZONE]


def by_table(ctx, fn, lp):
    label = fn.qual + " table"
    where = fn.where(lp.astn)
    it = lp.iter
    whole = (it.op == "result" and "getConflictLocationNames" in str(it.args[0])) or "conflicts" in T.show(it)
    ctx.check(whole, "L02.schedule", label + " names", "the schedule is walked over %s" % T.show(it), where)

    def series(t):
        """a location's row of intensities -> the term naming the location"""
        if t.op == "idx" and is_attr(t.args[0], "conflicts"):
            return t.args[1]
        return None

    def axis(t):
        if t.op != "idx":
            return None
        if series(t.args[0]) is None and not (lp.elem.op == "tuple" and t.args[0] in lp.elem.args):
            return None
        return offset(t.args[1], TIME)
    for c in cells.cross(now=(0.0, 0.4, 1.0), prev=(0.0, 0.4, 1.0), time=(0, 1, 9)):
        def sub(x):
            if x is TIME:
                return const(c["time"])
            k = axis(x)
            if k == 0:
                return const(c["now"])
            if k == -1:
                return const(c["prev"])
            return None
        if c["now"] > 0 and (c["time"] == 0 or c["prev"] == 0):
            want = "add_conflict_zone"
        elif c["now"] == 0 and c["time"] > 0 and c["prev"] > 0:
            want = "remove_conflict_zone"
        else:
            want = None
        desc = "day %s, intensity %s%s" % (c["time"], c["now"], "" if c["time"] == 0 else " after %s" % c["prev"])
        some = False
        for q in lp.paths:
            if not cells.feasible(q, sub):
                continue
            some = True
            if q.exit not in ("norm", "continue", None):
                ctx.fail("L02.schedule", label + " early", "one location's row ends the walk over the others (%s)" % q.exit, where, witness(q))
            acts = actions(q)
            got = [opname(o.ev) for o in acts]
            if not ctx.check(got == ([want] if want else []), "L02.schedule", "%s %s" % (label, want or "untouched"),
                             "with %s the location should see %s, sees %s" % (desc, want or "no change", got or "no change"), acts[0].ev.where if acts else where, witness(q)):
                continue
            for o in acts:
                nm = named_arg(o.ev, "name", 0)
                rowok = nm is not None and (any(series(x) is nm for g in guards(q) for a in g for x in T.walk(a)) or (lp.elem.op == "tuple" and nm in lp.elem.args))
                ctx.check(rowok, "L02.schedule", label + " name", "the intensity of one location changes another: %s" % (T.show(nm) if nm is not None else "?"), o.ev.where)
                cm = named_arg(o.ev, "change_movechance", 2 if want == "add_conflict_zone" else 1)
                ctx.check(cm is None or cm is TRUE, "L02.schedule", label + " movechance", "the schedule does not change the move chance", o.ev.where)
                if want == "add_conflict_zone":
                    v = named_arg(o.ev, "conflict_intensity", 1)
                    ctx.check(v is not None and axis(T.strip(v)) == 0, "L02.schedule", label + " intensity", "the zone gets intensity %s instead of the one listed for the day" % (T.show(v) if v is not None else "?"), o.ev.where)
        ctx.check(some, "L02.schedule", label + " cell", "no way through the walk for %s" % desc, where)


def by_list(ctx, fn, lp):
    label = fn.qual + " list"
    where = fn.where(lp.astn)
    if not ctx.check(lp.iter is not None and is_attr(lp.iter, "locations") and lp.iter.args[0].op == "sym" and lp.elem.op in ("elem", "tuple", "index"), "L02.list", label, "the listed conflict zones are taken from %s" % T.show(lp.iter), where):
        return
    row = lp.elem if lp.elem.op == "elem" else mk("elem", *lp.elem.args) if lp.elem.op == "index" else [x for x in lp.elem.args if isinstance(x, T.Term) and x.op == "elem"][0]

    def cell(t, i):
        t = T.strip(t)
        return t.op == "idx" and t.args[0] is row and t.args[1] is const(i)
    for c in cells.cross(kind=(True, False), day=(3, 4), time=(3, 4, 0)):
        def sub(x):
            if x is TIME:
                return const(c["time"])
            if x.op == "call" and x.args[0] == "int" and len(x.args[1]) == 1 and cell(x.args[1][0], 6):
                return const(c["day"])
            if x.op in ("in", "eq") and any(T.contains(a, mk("idx", row, const(5))) for a in x.args if isinstance(a, T.Term)) and any(
                    isinstance(a, T.Term) and a.op == "const" and "conflict" in str(a.args[0]) for a in x.args):
                return const(c["kind"])
            return None
        want = c["kind"] and c["day"] == c["time"]
        for q in lp.paths:
            if not cells.feasible(q, sub):
                continue
            acts = actions(q)
            ctx.check(len(acts) == (1 if want else 0) and all(opname(o.ev) == "add_conflict_zone" for o in acts), "L02.list", label + (" starts" if want else " untouched"),
                      "a location listed %s date %s on day %s: %s" % ("as conflict zone with" if c["kind"] else "as another kind with", c["day"], c["time"], [opname(o.ev) for o in acts] or "nothing happens"),
                      acts[0].ev.where if acts else where, witness(q))
            for o in acts:
                nm, v = named_arg(o.ev, "name", 0), named_arg(o.ev, "conflict_intensity", 1)
                ctx.check(nm is not None and cell(nm, 0), "L02.list", label + " name", "the wrong location becomes a conflict zone: %s" % (T.show(nm) if nm is not None else "?"), o.ev.where)
                ctx.check(v is not None and v.op == "const" and v.args[0] > 0, "L02.list", label + " intensity", "a listed conflict zone starts without intensity", o.ev.where)


STATE = ("conflict", "town", "movechance", "time_of_conflict")


def zones(ctx):
    """what becoming and ceasing to be a conflict zone does"""
    for w in ("serial", "parallel"):
        for name, add in (("add_conflict_zone", True), ("remove_conflict_zone", False)):
            fn = ctx.method(w, "Ecosystem." + name)
            ps = ctx.paths(w, fn, stop={"refresh_spawn_weights"})
            label = "%s (%s)" % (fn.qual, w)
            NAME = mk("sym", "name", ty="str")
            hit = miss = 0
            for p in ps:
                if p.exit not in ENDED:
                    ctx.fail("L02.zone", label, "the change can stop half way (%s)" % p.exit, fn.where(fn.node), witness(p))
                    continue
                lps = [e for e in p.events if e.kind == "loop" and (is_attr(e.iter, "locations", ECO) or is_attr(e.iter, "locationNames", ECO) or "locations" in T.show(e.iter))]
                refresh_after = {}
                for lp in lps:
                    for q in lp.paths:
                        ws = [e for e in q.events if e.kind == "write" and e.attr in STATE]
                        for g in guards(q):
                            key = None
                            for a, v in g.items():
                                k = name_eq(a, NAME)
                                if k is not None and v:
                                    key = k
                            if key is None:
                                miss += 1
                                ctx.check(not ws, "L02.zone", label + " others", "locations of another name are changed", ws[0].where if ws else fn.where(lp.astn), witness(q))
                                ctx.check(q.exit in ("norm", "continue", None), "L02.zone", label + " search", "the search for the location ends at another one", fn.where(lp.astn), witness(q))
                                continue
                            hit += 1
                            vals = {}
                            for e in ws:
                                ctx.check(loc_key(e.base) == key, "L02.zone", label + " target", "another location's %s is changed" % e.attr, e.where)
                                vals[e.attr] = e
                            change = flag(g, "change_movechance")
                            state(ctx, w, label, fn, vals, change, add, q, lp)
                            inner = [i for i, e in enumerate(q.events) if e.kind == "call" and opname(e) == "refresh_spawn_weights" and any(v is ECO for _, v in e.args)]
                            lastw = max([i for i, e in enumerate(q.events) if e in ws] or [-1])
                            ok = bool(inner) and inner[-1] > lastw
                            if not ok and q.exit in ("norm", "continue", "break", None):
                                k = p.events.index(lp)
                                ok = any(e.kind == "call" and opname(e) == "refresh_spawn_weights" and any(v is ECO for _, v in e.args) for e in p.events[k + 1:])
                            ctx.check(ok, "L02.zone", label + " weights", "the spawn weights are not refreshed after the change", fn.where(lp.astn), witness(q))
                stray = [e for e in p.events if e.kind == "write" and e.attr in STATE]
                if stray:
                    # found by a search before the change
                    for e in stray:
                        ctx.check(any(name_eq(a, NAME) is not None and name_eq(a, NAME) == loc_key(e.base) and v for g in guards(p) for a, v in g.items()) or found_by(e.base, p, NAME), "L02.zone", label + " target",
                                  "a location not known to have the given name is changed", e.where, witness(p))
                    vals = {e.attr: e for e in stray}
                    for g in guards(p):
                        hit += 1
                        state(ctx, w, label, fn, vals, flag(g, "change_movechance"), add, p, None)
                    k = max(p.events.index(e) for e in stray)
                    ctx.check(any(e.kind == "call" and opname(e) == "refresh_spawn_weights" for e in p.events[k + 1:]), "L02.zone", label + " weights", "the spawn weights are not refreshed after the change", fn.where(fn.node), witness(p))
            ctx.need("ways of changing a zone in " + label, hit, 2)


def flag(g, name):
    for a, v in g.items():
        if a.op == "sym" and a.args[0] == name:
            return v
    return None


def found_by(t, p, want):
    """t was picked by a search loop (or list.index) for the wanted name"""
    s = T.show(t)
    if "index" in s and T.show(want) in s:
        return True
    for e in p.events:
        if e.kind == "loop":
            for q in e.paths:
                for g in guards(q):
                    if any(name_eq(a, want) is not None and v for a, v in g.items()):
                        return True
    return False


def state(ctx, w, label, fn, vals, change, add, q, lp):
    where = fn.where(lp.astn if lp is not None else fn.node)
    wit = witness(q)
    c, t, m, tc = (vals.get(k) for k in STATE)
    if add:
        ok = c is not None and T.strip(c.value) is T.strip(mk("sym", "conflict_intensity", ty=c.value.ty))
        ctx.check(ok, "L02.zone", label + " intensity", "the zone's intensity becomes %s" % (T.show(c.value) if c is not None else "unchanged"), c.where if c is not None else where, wit)
        ctx.check(t is not None and t.value is FALSE, "L02.zone", label + " town", "a conflict zone stays an ordinary town", t.where if t is not None else where, wit)
        ctx.check(tc is not None and is_attr(tc.value, "time", ECO), "L02.zone", label + " start", "the start time of the conflict becomes %s" % (T.show(tc.value) if tc is not None else "unchanged"), tc.where if tc is not None else where, wit)
        chance = "ConflictMoveChance"
    else:
        ok = c is not None and c.value.op == "const" and c.value.args[0] <= 0
        ctx.check(ok, "L02.zone", label + " intensity", "after the conflict the intensity becomes %s" % (T.show(c.value) if c is not None else "unchanged"), c.where if c is not None else where, wit)
        ctx.check(t is not None and t.value is TRUE, "L02.zone", label + " town", "after the conflict the location is no ordinary town", t.where if t is not None else where, wit)
        chance = "DefaultMoveChance"
    if change is not False:
        ctx.check(m is not None and T.strip(m.value) is mksetting("move_rules", chance), "L02.zone", label + " movechance",
                  "the move chance becomes %s instead of %s" % (T.show(m.value) if m is not None else "unchanged", chance), m.where if m is not None else where, wit)
    if change is not True:
        ctx.check(m is None or change is None and False, "L02.zone", label + " keep movechance", "the move chance changes although asked not to", m.where if m is not None else where, wit)


# ---- L03 ---------------------------------------------------------------------
MOVE = {"ForeignWeight": 1.7, "CampWeight": 2.3, "ConflictWeight": 0.25}
DECAY = (1.0, 0.6, 0.15)
FLOOD = (1.0, 0.5, 0.2, 0.05)
START, INTERVAL = 4, 30


def l03(ctx):
    for w in ("serial", "parallel"):
        score(ctx, w)
        readback(ctx, w)
    decay(ctx)


def leaf(c, loc, table):
    """substitution giving every leaf of the score its value in cell c"""
    def at(attr):
        return mk("attr", loc, attr, 0)
    fixed = {at("foreign"): c["foreign"], at("camp"): c["camp"], at("idpcamp"): c["idpcamp"], at("conflict"): c["conflict"],
             at("flood_zone"): c["zone"], at("time_of_conflict"): START}

    def sub(x):
        if x in fixed:
            return const(fixed[x])
        if x.op == "sym" and x.args[0] == "time":
            return const(c["time"])
        g = setting(x)
        if g is not None:
            k = g[1]
            if k in MOVE:
                return const(MOVE[k])
            if k == "conflict_spawn_decay":
                return NONE if c["decay"] is None else None
            if k == "conflict_spawn_decay_interval":
                return const(INTERVAL)
            if k == "FloodForecaster":
                return const(c["forecast"])
            if k == "FloodForecasterTimescale":
                return const(5)
            if k == "FloodForecasterEndTime":
                return const(1000)
        return table(x, c, sub)
    return sub


def table(x, c, sub):
    """elements and lengths of the tables of a cell"""
    if x.op == "none" or x.op in ("eq", "is") and NONE in x.args:
        y = x.args[0] if x.op == "none" or x.args[0] is not NONE else x.args[1]
        g = setting(y)
        if g is not None and g[1] == "conflict_spawn_decay":
            return const(c["decay"] is None)
        if level(y):
            return const(c["level"] is None)
    if x.op == "nonempty":
        g = setting(x.args[0])
        if g is not None and g[1] == "conflict_spawn_decay" and c["decay"] is not None:
            return const(len(c["decay"]) > 0)
    if T.is_len(x):
        y = x.args[1][0] if isinstance(x.args[1], tuple) else x.args[0]
        g = setting(y) if isinstance(y, T.Term) else None
        if g is not None and g[1] == "conflict_spawn_decay" and c["decay"] is not None:
            return const(len(c["decay"]))
    if x.op == "idx":
        g = setting(x.args[0])
        if g is not None and g[1] in ("conflict_spawn_decay", "FloodLocWeights"):
            tab = c["decay"] if g[1] == "conflict_spawn_decay" else FLOOD
            i = cells.num(x.args[1], sub)
            if tab and i is not None and i == int(i) and -len(tab) <= i < len(tab):
                return const(tab[int(i)])
            if tab and i is not None:
                return mk("sym", "out of range", ty="float")
    if level(x):
        return const(c["level"]) if c["level"] is not None else NONE
    return None


def level(x):
    """the current flood level of a location, however it is read"""
    return (x.op in ("call", "idx", "attr", "result") and T.show(x).find("'flood_level'") >= 0 and "attributes" in T.show(x) and "FloodLocWeights" not in T.show(x)
            and (x.op == "idx" and is_attr(x.args[0], "attributes") or x.op == "call" and x.args[0].endswith("get")))


def score(ctx, w):
    fn = ctx.func("flee.scoring:updateLocationScore")
    loc = mk("sym", "loc", ty="Location")
    ps = ctx.paths(w, fn, stop={"generateLocationRoutes"}, args={"loc": loc})
    label = "%s (%s)" % (fn.qual, w)
    where = fn.where(fn.node)
    keys = {}
    ncell = 0
    ratios = {}
    outcome = []
    for p in ps:
        if p.exit not in ENDED:
            ctx.fail("L03.score", label, "the score can be left as it was (%s)" % p.exit, where, witness(p))
            continue
        outcome.append((p, stored(ctx, w, p, loc)))
    for c in cells.cross(foreign=(False, True), camp=(False, True), idpcamp=(False, True), conflict=(-1.0, 0.0, 0.7), zone=(False, True),
                         decay=(None, (), DECAY), level=(None, 0, 2), forecast=(False, True), time=(0, 4, 33, 34, 63, 64, 900)):
        if c["time"] == 0 and (c["conflict"] > 0 or c["zone"]):
            continue
        if not c["zone"] and (c["level"] != 2 or not c["forecast"]) or c["conflict"] <= 0 and (c["decay"] is not None or c["time"] not in (0, 4)):
            continue
        if c["zone"] and (c["decay"] != DECAY and c["conflict"] > 0 or c["time"] not in (4, 34)):
            continue
        ncell += 1
        want = (MOVE["ForeignWeight"] if c["foreign"] else 1.0) * (MOVE["CampWeight"] if c["camp"] or c["idpcamp"] else 1.0)
        if c["conflict"] > 0:
            d = 1.0 if not c["decay"] else c["decay"][min(int((c["time"] - START) / INTERVAL), len(c["decay"]) - 1)]
            want *= MOVE["ConflictWeight"] ** (d * c["conflict"])
        if c["zone"] and c["level"] is not None:
            want *= FLOOD[c["level"]]
        forecast = c["zone"] and c["forecast"] and c["level"] is not None
        sub = leaf(c, loc, table)
        some = False
        desc = describe(c)
        for p, v in outcome:
            if not cells.feasible(p, sub):
                continue
            some = True
            if v is None:
                ctx.fail("L03.score", label + " stored", "no score is stored for the location when %s" % desc, where, witness(p))
                continue
            if forecast:
                got = cells.num(v, lambda x: const(0.81) if x.op in ("afterloop", "loopvar", "after", "phi") else sub(x))
                if got is not None:
                    ratios.setdefault((p.exit, c["level"], tuple(sorted(str(k) for k in p.cons if "loc." not in T.show(k)))), []).append((got / want, desc, p))
                else:
                    ctx.fail("L03.score", label + " forecast", "the score of a forecast flood zone is %s" % T.show(v)[:200], where, witness(p))
                continue
            got = cells.num(v, sub)
            ctx.check(got is not None and abs(got - want) <= 1e-9 * max(1.0, abs(want)), "L03.score", "%s %s" % (label, kind(c)),
                      "the score should be %.6g when %s, is %s" % (want, desc, "%.6g" % got if got is not None else T.show(v)[:160]), where, witness(p))
        ctx.check(some, "L03.score", label + " cell", "no way through the scoring for %s" % desc, where)
    for k, lst in ratios.items():
        base = lst[0][0]
        for r, desc, p in lst:
            ctx.check(abs(r - base) <= 1e-9 * max(1.0, abs(base)), "L03.score", label + " forecast", "in a forecast flood zone the other factors do not multiply the score when %s" % desc, where, witness(p))
    ctx.need("cells of the score", ncell, 60)


def kind(c):
    return "flood" if c["zone"] and c["level"] is not None else "conflict" if c["conflict"] > 0 else "camp" if c["camp"] or c["idpcamp"] else "foreign" if c["foreign"] else "plain"


def describe(c):
    out = [k for k in ("foreign", "camp", "idpcamp") if c[k]] or ["a plain town"]
    if c["conflict"] > 0:
        out.append("conflict %s since day %d on day %d with decay %s" % (c["conflict"], START, c["time"], c["decay"]))
    if c["zone"]:
        out.append("flood zone at level %s" % c["level"])
    return ", ".join(out)


def stored(ctx, w, p, loc):
    """the value finally stored as the score used for routing"""
    base, key = slot(ctx, w, loc)
    v = None
    for e in p.events:
        if e.kind == "subwrite" and same_slot(ctx, w, e.base, e.d["key"], base, key):
            v = e.value
    return v


_slots = {}


def stride(ctx):
    """the number of scores kept per location in the parallel model, a constant"""
    fn = ctx.method("parallel", "Ecosystem.__init__")
    vals = set()
    for p in ctx.paths("parallel", fn, stop={"print"}):
        for e in p.events:
            if e.kind == "write" and e.attr == "scores_per_location":
                vals.add(e.value)
    return vals.pop() if len(vals) == 1 else None


def plain(ctx, w, t):
    s = stride(ctx) if w == "parallel" else None

    def f(x):
        if s is not None and x.op in ("attr", "classattr") and x.args[1] == "scores_per_location":
            return s
        return None
    return T.strip(T.rebuild(t, f))


def slot(ctx, w, loc):
    """where getScore(1) reads for a location: (array, position)"""
    fn = ctx.method(w, "Location.getScore")
    ps = ctx.paths(w, fn, args={fn.params[0]: loc, fn.params[1]: const(1)})
    vals = {p.value for p in ps}
    if len(vals) != 1:
        return None, None
    v = plain(ctx, w, vals.pop())
    return (v.args[0], v.args[1]) if v.op == "idx" else (None, None)


def same_slot(ctx, w, base, key, wbase, wkey):
    return wbase is not None and plain(ctx, w, base) is wbase and plain(ctx, w, key) is wkey


def readback(ctx, w):
    """the score is read where it was stored"""
    loc = mk("sym", "L", ty="Location")
    base, key = slot(ctx, w, loc)
    get = ctx.method(w, "Location.getScore")
    if not ctx.check(base is not None, "L03.readback", "%s (%s)" % (get.qual, w), "reading a score does not return one stored value", get.where(get.node)):
        return
    st = ctx.method(w, "Location.setScore")
    for i in (0, 1):
        V = mk("sym", "V", ty="float")
        for p in ctx.paths(w, st, args={st.params[0]: loc, st.params[1]: const(i), st.params[2]: V}):
            ws = [e for e in p.events if e.kind == "subwrite"]
            same = bool(ws) and same_slot(ctx, w, ws[-1].base, ws[-1].d["key"], base, key)
            ctx.check(len(ws) == 1 and same is (i == 1) and T.strip(ws[-1].value) is T.strip(V), "L03.readback", "%s (%s)" % (st.qual, w),
                      "score %d is stored at %s, where score 1 is read from %s" % (i, T.show(mk("idx", ws[-1].base, ws[-1].d["key"])) if ws else "nowhere", T.show(mk("idx", base, key))),
                      ws[-1].where if ws else st.where(st.node))
    gl = ctx.method(w, "Link.getBaseEndPointScore")
    lk = mk("sym", "K", ty="Link")
    ebase, ekey = slot(ctx, w, mk("attr", lk, "endpoint", 0, ty="Location"))
    for p in ctx.paths(w, gl, args={gl.params[0]: lk}):
        v = plain(ctx, w, p.value) if p.value is not None else None
        ctx.check(v is not None and v.op == "idx" and v.args[0] is ebase and v.args[1] is ekey, "L03.readback", "%s (%s)" % (gl.qual, w),
                  "the score of a link's end is read from %s, it is stored at %s" % (T.show(v) if v is not None else "?", T.show(mk("idx", ebase, ekey))), gl.where(gl.node))
    if w == "parallel":
        parallel_slots(ctx, loc, base, key)
    else:
        ctx.check(base.op == "attr" and base.args[0] is loc, "L03.readback", "own array (serial)", "locations do not have their own scores", get.where(get.node))


def parallel_slots(ctx, loc, base, key):
    """the shared array has room for every location and no two share a place"""
    fn = ctx.method("parallel", "Ecosystem.addLocation")
    where = fn.where(fn.node)
    s = stride(ctx)
    c, items = T._lin(key)
    lid = mk("attr", loc, "id", 0)
    n = s.args[0] if s is not None and s.op == "const" else None
    ctx.check(n is not None and len(items) == 1 and items.get(lid) == n and 0 <= c < n and n >= 2, "L03.slots", "stride", "the places of two locations' scores overlap: %s" % T.show(key), where)
    ps = ctx.paths("parallel", fn, stop={"Location", "print", "synchronize_locations", "updateLocationScore", "generateLocationRoutes"})
    me = ECO
    cid = mk("attr", me, "cur_loc_id", 0)
    for p in ps:
        if p.exit not in ENDED:
            continue
        made = [e for e in p.events if e.kind == "construct" and getattr(e.d.get("cls"), "name", None) == "Location" or e.kind == "call" and opname(e) == "Location"]
        grown = [e for e in p.events if e.kind == "write" and e.attr == base.args[1] and e.base is not loc and e.base.op != "new" and e.base.ty != "Location" or
                 e.kind == "mutate" and plain(ctx, "parallel", e.base) is base]
        idw = [e for e in p.events if e.kind == "write" and e.attr == "cur_loc_id"]
        ctx.check(len(idw) == 1 and T.strip(idw[0].value) is T.add(cid, const(1)), "L03.slots", fn.qual + " id", "the next location's number is not one higher", where, witness(p))
        first = first_loc(p, cid)
        ctx.check(bool(grown) is (first is False) or first is None and not grown, "L03.slots", fn.qual + " room", "the array of scores is %s for %s location" % ("enlarged" if grown else "not enlarged", "the first" if first else "a further"), where, witness(p))
        for e in grown:
            ctx.check(np_append_len(p, e.value) == n, "L03.slots", fn.qual + " room size", "the array of scores grows by %s, not by one location's %s scores" % (np_append_len(p, e.value), n), e.where)
        for e in made:
            ctx.check(any(T.strip(v) is cid for _, v in e.args), "L03.slots", fn.qual + " number", "a new location does not get the next number", e.where)


def first_loc(p, cid):
    for a, v in p.cons.items():
        if a.op == "lt0":
            at0, at1 = cells.decide(a, lambda x: const(0) if x is cid else None), cells.decide(a, lambda x: const(1) if x is cid else None)
            if at0 is not None and at1 is not None and at0 != at1:
                return at0 is v
        if a.op == "eq" and cid in a.args and const(0) in a.args:
            return v
    return None


def np_append_len(p, v):
    """number of entries an enlarged array gains"""
    for x in T.walk(v):
        if x.op in ("list", "tuple") and x.args and all(isinstance(y, T.Term) and y.op == "const" for y in x.args):
            return len(x.args)
        it = p.state.heap.get((x, "$items"))
        if it is not None and it.op == "list":
            return len(it.args)
    return None


def decay(ctx):
    """elapsed days over the interval pick the factor; the last is kept"""
    fn = ctx.func("flee.SimulationSettings:SimulationSettings.get_location_conflict_decay")
    loc = mk("sym", "loc", ty="Location")
    ps = ctx.paths("serial", fn, args={"loc": loc})
    for c in cells.cross(decay=(None, (), DECAY, (0.4,)), time=(4, 5, 33, 34, 35, 63, 64, 93, 94, 900)):
        want = 1.0 if not c["decay"] else c["decay"][min(int((c["time"] - START) / INTERVAL), len(c["decay"]) - 1)]
        full = dict(c, foreign=False, camp=False, idpcamp=False, conflict=1.0, zone=False, level=None, forecast=False)
        sub = leaf(full, loc, table)
        got = [cells.num(p.value, sub) if p.value is not None and p.exit in ENDED else None for p in ps if cells.feasible(p, sub)]
        ctx.check(got and all(g is not None and abs(g - want) < 1e-9 for g in got), "L03.decay", fn.qual,
                  "%d days after the start with factors %s the decay should be %s, is %s" % (c["time"] - START, c["decay"], want, got), fn.where(fn.node))
    ctx.need("paths of the decay", len(ps), 2)


# ---- L04 ---------------------------------------------------------------------
FLOODNAMES = ("flood_level", "forecast_flood_levels")


def l04(ctx):
    update(ctx)
    daily(ctx)
    tables(ctx)
    readers(ctx)


def update(ctx):
    """every location takes its own column's value of the day, or zero"""
    fn = ctx.func(GEO + "UpdateLocationAttributes")
    E_ = mk("sym", "e", ty="Ecosystem")
    ps = ctx.paths("serial", fn, args={"e": E_})
    label = fn.qual
    NM = fn.params[2]
    n = 0
    for p in ps:
        if p.exit not in ENDED:
            ctx.fail("L04.update", label, "the day's attributes can stay unset (%s)" % p.exit, fn.where(fn.node), witness(p))
            continue
        lps = [e for e in p.events if e.kind == "loop" and any(o.ev.kind == "subwrite" and is_attr(o.ev.base, "attributes") and o.ev.base.args[0].ty == "Location" or
                                                               o.ev.kind == "subwrite" and is_attr(o.ev.base, "attributes") and o.ev.base.args[0].op in ("elem", "idx") for q in e.paths for o in flatten(q))]
        if not ctx.check(len(lps) == 1, "L04.update", label, "the locations are walked %d times" % len(lps), fn.where(fn.node), witness(p)):
            continue
        lp = lps[0]
        where = fn.where(lp.astn)
        ctx.check("locations" in T.show(lp.iter) and T.contains(lp.iter, mk("attr", E_, "locations", 0)) and lp.iter.op in ("attr", "call", "copy") or is_attr(lp.iter, "locations"), "L04.update", label + " all", "only %s are updated" % T.show(lp.iter), where)
        for c in cells.cross(name=FLOODNAMES + ("other",), listed=(True, False)):
            def sub(x):
                if x.op == "sym" and x.args[0] == NM:
                    return const(c["name"])
                if x.op == "in" and any(y.op == "sym" and y.args[0] == NM for y in T.walk(x.args[1])) and (is_attr(x.args[0], "name") or x.args[0].op in ("idx", "elem")):
                    return const(c["listed"])
                # a location without an entry: looked up without a default (the entries themselves are lists)
                y = x.args[0] if x.op == "none" else next((a for a in x.args if a is not NONE), None) if x.op in ("eq", "is") and NONE in x.args else None
                if y is not None and y.op == "call" and y.args[0].endswith("get") and (len(y.args[1]) == 2 or y.args[1][2:] == (NONE,)) and is_attr(y.args[1][1], "name") and any(
                        z.op == "sym" and z.args[0] == NM for z in T.walk(y.args[1][0])):
                    return const(not c["listed"])
                return None
            want = c["name"] + (" listed" if c["listed"] else " not listed")
            some = False
            for q in lp.paths:
                if not cells.feasible(q, sub):
                    continue
                some = True
                n += 1
                ws = [o for o in flatten(q) if o.ev.kind == "subwrite" and is_attr(o.ev.base, "attributes")]
                ctx.check(q.exit in ("norm", "continue", None), "L04.update", label + " early", "one location ends the update of the others (%s)" % q.exit, where, witness(q))
                if not ctx.check(len(ws) >= 1, "L04.update", "%s %s" % (label, want), "the attribute keeps an earlier value", where, witness(q)):
                    continue
                e = ws[-1].ev
                loc = e.base.args[0]
                ctx.check(loc_key(loc)[0] == "pos" or loc.op == "elem", "L04.update", label + " location", "one and the same location is written again and again", e.where)
                ctx.check(e.d["key"].op == "sym" and e.d["key"].args[0] == NM, "L04.update", label + " key", "the attribute is stored under %s" % T.show(e.d["key"]), e.where)
                ctx.check(taken(e.value, loc, NM, c), "L04.update", "%s %s" % (label, want), "the attribute becomes %s" % T.show(e.value), e.where, witness(q))
            ctx.check(some, "L04.update", "%s %s" % (label, want), "no way through the update for this case", where)
    ctx.need("updates of attributes", n, 4)


def taken(v, loc, NM, c):
    v = T.strip(v)

    def series(t):
        if t.op == "idx" and t.args[0].op == "idx" and is_attr(t.args[0].args[0], "attributes") and t.args[0].args[1].op == "sym" and t.args[0].args[1].args[0] == NM:
            return is_attr(t.args[1], "name") and loc_key(t.args[1].args[0]) == loc_key(loc)
        if t.op == "call" and t.args[0].endswith("get") and len(t.args[1]) > 1:
            return series(mk("idx", t.args[1][0], t.args[1][1]))
        return False
    if c["listed"]:
        if c["name"] == "forecast_flood_levels":
            return series(v) or v.op in ("copy", "call") and any(isinstance(x, T.Term) and series(x) for x in T.walk(v))
        return v.op == "idx" and series(v.args[0]) and offset(v.args[1], TIME) == 0
    if c["name"] == "forecast_flood_levels":
        return v.op == "repeat" and v.args[0].op == "list" and all(x in (const(0), const(0.0)) for x in v.args[0].args) or v.op in ("list", "call", "result") and "zeros" in T.show(v)
    return v in (const(0), const(0.0))


def daily(ctx):
    fn = ctx.func(GEO + "AddNewConflictZones")
    ps = ctx.paths("serial", fn, stop=SCHED_STOP)
    for c in cells.cross(rules=(True, False), forecast=(True, False)):
        def sub(x):
            g = setting(x)
            if g == ("move_rules", "FloodRulesEnabled"):
                return const(c["rules"])
            if g == ("move_rules", "FloodForecaster"):
                return const(c["forecast"])
            return None
        want = [] if not c["rules"] else list(FLOODNAMES) if c["forecast"] else [FLOODNAMES[0]]
        for p in ps:
            if not cells.feasible(p, sub) or p.exit not in ENDED:
                continue
            calls = [e for e in p.events if e.kind == "call" and opname(e) == "UpdateLocationAttributes"]
            got = sorted({named_arg(e, "attribute_name", 1).args[0] for e in calls if named_arg(e, "attribute_name", 1).op == "const"})
            ctx.check(set(want) <= set(got), "L04.daily", fn.qual, "with flood rules %s and forecasts %s the day's %s are not set" % (c["rules"], c["forecast"], sorted(set(want) - set(got))), fn.where(fn.node), witness(p))
            for e in calls:
                t = named_arg(e, "time", 2)
                ctx.check(t is not None and offset(t, TIME) == 0, "L04.daily", fn.qual + " day", "the attributes are taken for %s" % (T.show(t) if t is not None else "?"), e.where)
    # the tables the daily update uses are read
    fn = ctx.func(GEO + "ReadLocationsFromCSV")
    names = {}
    for f in ctx.prog.all_funcs():
        for nd in ast.walk(f.node):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr == "ReadAttributeInputCSV":
                a = {k.arg: k.value for k in nd.keywords}
                for i, k in enumerate(("attribute_name", "attribute_type", "csv_name")):
                    if i < len(nd.args):
                        a[k] = nd.args[i]
                nm = a.get("attribute_name")
                if isinstance(nm, ast.Constant):
                    names[nm.value] = (f, nd)
                ty = a.get("attribute_type")
                if isinstance(ty, ast.Constant) and isinstance(nm, ast.Constant) and nm.value in FLOODNAMES:
                    ctx.check(ty.value == "int", "L04.tables", "%s %s" % (f.qual, nm.value), "flood levels are read as %s" % ty.value, f.where(nd))
    for k in FLOODNAMES:
        ctx.check(k in names, "L04.tables", "read " + k, "the table of %s is never read" % k, fn.where(fn.node))


def tables(ctx):
    """each number of a table is stored under the name heading its column"""
    for name in ("ReadAttributeInputCSV", "ReadConflictInputCSV"):
        fn = ctx.func(GEO + name)
        label = fn.qual
        ps = ctx.paths("serial", fn)
        stored_ = headed = 0
        for p in ps:
            if p.exit not in ENDED:
                ctx.fail("L04.tables", label, "reading can end early (%s)" % p.exit, fn.where(fn.node), witness(p))
                continue
            for lp, q, cons in inner_paths([p]):
                if q.exit not in ("norm", "continue", None):
                    ctx.fail("L04.tables", label + " early", "reading the table ends early (%s)" % q.exit, fn.where(lp.astn), witness(q))
                heads = [e for e in q.events if e.kind == "subwrite" and e.value.op == "new" and e.d["key"].op != "sym"]
                inplace = {e.d["key"]: e.value for e in q.events if e.kind == "subwrite" and e.base.op == "elem" and e.value.op != "new"}
                for e in heads:
                    headed += 1
                    k = e.d["key"]
                    cell = k.args[1][0] if k.op == "call" and k.args[0].endswith("strip") else k
                    good = cell.op == "idx" and cell.args[0].op == "elem" and (inplace.get(cell.args[1]) in (None, k)) and (cell.args[1] in inplace or k is cell)
                    ctx.check(good or cell.op in ("elem",), "L04.tables", label + " header", "the column is stored under %s, later rows look for %s" % (T.show(k), T.show(inplace.get(cell.args[1]) if cell.op == "idx" else None) if inplace else "the raw header"), e.where)
                    if cell.op == "idx":
                        cols(ctx, label, lp, cell.args[1], e)
                apps = [x for x in map(appended, q.events) if x is not None]
                for e, key, v in apps:
                    stored_ += 1
                    if v.op in ("list", "tuple") and len(v.args) == 1:
                        v = v.args[0]
                    conv = v.args[0] if v.op == "call" else None
                    inner = T.strip(v)
                    while inner.op == "call" and inner.args[0].endswith("strip"):
                        inner = inner.args[1][0]
                    same = key.op == "idx" and inner.op == "idx" and key.args[1] is inner.args[1] and inner.args[0].op == "elem"
                    ctx.check(same, "L04.tables", label + " column", "the number of column %s is stored under the name of column %s" % (
                        T.show(inner.args[1]) if inner.op == "idx" else T.show(inner), T.show(key.args[1]) if key.op == "idx" else T.show(key)), e.where)
                    kinds = {a.args[0].args[0] if a.args[0].op == "const" else a.args[1].args[0] for a, v2 in q.cons.items() if a.op == "eq" and v2 and any(x.op == "const" for x in a.args) and any(x.op == "sym" and x.args[0] == "attribute_type" for x in a.args)}
                    want = (kinds or {"float"}).pop() if name == "ReadAttributeInputCSV" else "float"
                    ctx.check(conv == want, "L04.tables", label + " number", "a cell of type %s is read with %s" % (want, conv), e.where, witness(q))
                    if key.op == "idx":
                        cols(ctx, label, lp, key.args[1], e)
                if len(apps) > 1:
                    ctx.fail("L04.tables", label + " once", "a cell is stored twice", apps[1][0].where)
                if not apps and any(appended(x) is not None for q2 in lp.paths for x in q2.events) and not heads:
                    # only nameless columns and unknown kinds may be left out
                    ok = all(any(a.op == "nonempty" and v is False or a.op == "eq" and (v is (const("") in a.args or const(0) in a.args)) for a, v in g.items()) or
                             any(a.op == "eq" and any(x.op == "sym" and x.args[0] == "attribute_type" for x in a.args) for a in g) for g in guards(q))
                    ctx.check(ok, "L04.tables", label + " kept", "some numbers of the table are left out", fn.where(lp.astn), witness(q))
        ctx.need("cells stored by " + label, stored_)
        ctx.need("headers stored by " + label, headed)


def appended(e):
    """(event, name, item) for an item added to the end of a named list of a table"""
    if e.kind == "mutate" and e.method in ("append", "extend") and e.base.op == "idx":
        return e, e.base.args[1], e.args[0]
    if e.kind == "subwrite" and e.value.op == "concat" and e.value.args[0].op == "idx" and e.value.args[0].args[1] is e.d["key"] and len(e.value.args) == 2:
        return e, e.d["key"], e.value.args[1]
    return None


def cols(ctx, label, lp, j, e):
    """column 0 is the day, every further one is looked at"""
    if j.op != "elem":
        return
    r = j.args[0]
    if r.op == "call" and r.args[0] == "range" or r.op == "range":
        a = list(r.args[1]) if r.op == "call" else list(r.args)
        a = [x for x in a if isinstance(x, T.Term)]
        lo = a[0] if len(a) > 1 else const(0)
        hi = a[1] if len(a) > 1 else a[0]
        ctx.check(lo is const(1) and (T.is_len(hi)), "L04.tables", label + " columns", "columns %s up to %s are read" % (T.show(lo), T.show(hi)), e.where)


def readers(ctx):
    """attributes are read under a name they are stored under"""
    names = set(FLOODNAMES)
    n = 0
    for f in ctx.prog.all_funcs():
        if not f.module.name.startswith(("flee.moving", "flee.scoring", "flee.spawning", "flee.crawling", "flee.flee", "flee.pflee", "flee.demographics")):
            continue
        for nd in ast.walk(f.node):
            k = None
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr == "get" and isinstance(nd.func.value, ast.Attribute) and nd.func.value.attr == "attributes" and nd.args:
                k = nd.args[0]
            elif isinstance(nd, ast.Subscript) and isinstance(nd.value, ast.Attribute) and nd.value.attr == "attributes" and isinstance(nd.ctx, ast.Load):
                k = nd.slice
            if isinstance(k, ast.Constant) and isinstance(k.value, str) and "flood" in k.value.lower() and "aware" not in k.value.lower():
                n += 1
                ctx.check(k.value in names, "L04.readers", "%s %s" % (f.qual, k.value), "reads the location attribute '%s', which nothing stores" % k.value, f.where(nd))
    ctx.need("readers of flood attributes", n, 5)


RULES = {"L02": l02, "L03": l03, "L04": l04}
EXPLAIN = {
    "L04": "The update of location attributes and the readers of the attribute and conflict tables are walked path by path: which value each location takes in which case, and that a number and the name it is stored under come from the same column. Names used to read flood attributes are matched with those stored.",
    "L03": "The stored score and the decay factor are extracted as arithmetic terms for every way through the scoring and compared, in every cell of the location's state, with the product the statement gives; the place a score is stored in and the place it is read from are compared as terms, and the places of different locations must not overlap.",
    "L02": "Every way through the daily conflict update is enumerated; its conditions are decided for each cell of (intensity today, intensity yesterday, day) and the one change made must be the one the cell asks for. The two operations are then checked path by path for the state they leave.",
}
