"""P01-P03: adding agents, spawn weights, daily spawning"""
import ast
from ..report import *          # noqa
from ..report import mk, T, gather
from ..terms import NONE, TRUE, FALSE, const
from .. import replay as R
from ..cells import Cell, cross
from .routing import subst, is_setting, attr_of, is_sym, is_item, has_item, result_of, loop_elem, arg, loops_of, guards, last, same, row_sub

WORLDS = ("serial", "parallel")
SP = "flee.spawning:"


def pos(e, name, i):
    """an argument by name, or by its place when it was passed without one"""
    v = arg(e, name)
    if v is not None:
        return v
    for k, x in e.args:
        if k == "#%d" % i:
            return x
    return None


def times(lp, c):
    """how often a loop over a range runs, in a cell"""
    it = lp.raw if lp.raw is not None else lp.iter
    if it.op == "call" and it.args[0].split(".")[-1] in ("range", "arange"):
        v = [c.num(x) for x in it.args[1]]
        if None in v:
            return None
        lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], 1) if len(v) == 2 else v
        if st == 0:
            return None
        return max(0, -int(-(hi - lo) // st)) if st > 0 else max(0, -int(-(lo - hi) // -st))
    return None


def place_same(t, f):
    return t is not None and f(t)


# ---- P01 ---------------------------------------------------------------------
COUNTED = ("pop", "numAgentsSpawned", "numAgentsSpawnedOnRank")


def p01(ctx):
    for w in WORLDS:
        for name in ("addAgent", "insertAgent"):
            add_one(ctx, w, name)
        add_many(ctx, w)
    writers(ctx)


def added(p, fn, ctx):
    """agents made and put into the simulation on this path"""
    me = fn.params[0]
    made = [o.ev for o in flatten(p) if o.ev.kind == "construct" and o.ev.cls.split(".")[-1] == "Person"]
    put = [o.ev for o in flatten(p) if o.ev.kind == "mutate" and is_attr(o.ev.base, "agents") and is_sym(me)(o.ev.base.args[0]) or
           o.ev.kind == "write" and o.ev.attr == "agents" and is_sym(me)(o.ev.base)]
    return made, put


def full(p, a):
    """a new dictionary that something was put into"""
    return any(k[0] is a for k in p.state.heap) or any(o.ev.kind in ("subwrite", "mutate") and o.ev.base is a for o in flatten(p))


def add_one(ctx, w, name):
    fn = ctx.method(w, "Ecosystem." + name)
    ps = ctx.paths(w, fn, max_alts=500)
    me = fn.params[0]
    L, A = is_sym("location"), is_sym("attributes")
    takes = name == "addAgent"
    n = 0
    for v in cross(take=(True, False), people=(10, 2, 1, 0), total=(0, 1, 5, 6), size=(1, 2, 3) if w == "parallel" else (1,)):
        by_rank = []
        for rank in range(v["size"]):
            mpi = lambda t: t.op == "attr" and t.args[0].op == "attr" and t.args[0].args[1] == "mpi"
            tab = [(is_setting("TakeFromPopulation"), v["take"]), (attr_of(L, "pop"), v["people"]), (attr_of(L, "numAgentsSpawned"), 20), (attr_of(L, "numAgentsSpawnedOnRank"), 7),
                   (attr_of(is_sym(me), "total_agents"), v["total"]), (lambda t: mpi(t) and t.args[1] == "size", v["size"]), (lambda t: mpi(t) and t.args[1] == "rank", rank)]
            c = Cell(subst(tab), rank=rank, **v)
            ways = [p for p in ps if c.feasible(p)]
            if not ways and w == "parallel" and takes and v["take"] and v["people"] <= 1:
                continue            # refused
            ctx.check(ways, "P01.add", fn.qual, "no way to add an agent for %s" % c.show(), fn.where(fn.node))
            counts = set()
            for p in ways:
                n += 1
                pay = takes and v["take"]
                if p.exit == "raise" and pay and v["people"] <= 1:
                    continue
                if p.exit not in ("return", None):
                    ctx.fail("P01.add", fn.qual + " ends", "adding an agent ends with %s for %s" % (p.exit, c.show()), fn.where(fn.node), witness(p))
                    continue
                wr = [o.ev for o in flatten(p) if o.ev.kind == "write" and o.ev.attr in COUNTED]
                for e in wr:
                    ctx.check(L(e.base), "P01.place", "%s %s" % (fn.qual, e.attr), "%s of %s changes when an agent is added elsewhere" % (e.attr, T.show(e.base)), e.where, witness(p))
                loc = next((e.base for e in wr if L(e.base)), None)
                end = lambda a, start: start if loc is None or (loc, a) not in p.state.heap else c.num(p.state.heap[(loc, a)])
                people, spawned, own = end("pop", v["people"]), end("numAgentsSpawned", 20), end("numAgentsSpawnedOnRank", 7)
                want = max(0, v["people"] - 1) if pay else v["people"]
                ctx.check(people == want, "P01.people", "%s %s" % (fn.qual, "takes" if pay else "keeps"), "for %s the population of the place becomes %s, not %s" % (c.show(), people, want), fn.where(fn.node), witness(p))
                ctx.check(spawned == 20 + bool(pay), "P01.people", "%s count" % fn.qual, "for %s the spawn count goes from 20 to %s" % (c.show(), spawned), fn.where(fn.node), witness(p))
                if w == "parallel":
                    tot = p.state.heap.get((mk("sym", me, ty="Ecosystem"), "total_agents"))
                    ctx.check(tot is not None and c.num(tot) == v["total"] + 1, "P01.count", fn.qual, "for %s the running count becomes %s" % (c.show(), T.show(tot) if tot is not None else "unchanged"), fn.where(fn.node), witness(p))
                made, put = added(p, fn, ctx)
                ctx.check(len(made) == len(put), "P01.once", fn.qual + " put", "%d agents are made and %d put into the simulation" % (len(made), len(put)), fn.where(fn.node), witness(p))
                counts.add(len(put))
                if w == "parallel":
                    ctx.check(own == 7 + (1 if pay and put else 0), "P01.people", "%s count on process" % fn.qual, "for %s the process's own spawn count goes from 7 to %s" % (c.show(), own), fn.where(fn.node), witness(p))
                for m in made:
                    ctx.check(L(pos(m, "location", 1 if w == "parallel" else 0) or NONE), "P01.where", fn.qual, "the agent is added at %s" % T.show(arg(m, "location") or NONE), m.where)
                    a = pos(m, "attributes", 2 if w == "parallel" else 1)
                    ctx.check(a is not None and (A(a) or a.op == "copy" and A(a.args[0]) or a.op == "new" and full(p, a) or a.op == "call" and A(a.args[1][0])), "P01.where", fn.qual + " attributes", "the agent gets attributes %s" % T.show(a or NONE), m.where)
                for m in put:
                    if m.kind == "mutate":
                        ok = m.method == "append" and any(x.obj is m.args[0] for x in made) or m.method in ("extend", "+=", "insert")
                    else:
                        g = gather(p, m.value)
                        ok = g is None or any(x[0].endswith("many") and is_attr(x[1], "agents") for x in g)
                    ctx.check(ok, "P01.once", fn.qual + " kept", "the agents of the simulation change to %s" % T.show(m.args[0] if m.kind == "mutate" and m.args else m.value if m.kind == "write" else NONE), m.where)
            by_rank.append(counts)
        if not by_rank:
            continue
        if all(len(x) == 1 for x in by_rank):
            tot = sum(next(iter(x)) for x in by_rank)
            ctx.check(tot == 1, "P01.once", fn.qual, "with %d agents so far and %d processes, %d agents are added in all" % (v["total"], v["size"], tot), fn.where(fn.node))
        elif all(by_rank):
            ctx.fail("P01.once", fn.qual, "whether an agent is added depends on more than the running count (%s)" % ", ".join("%s=%s" % x for x in sorted(v.items())), fn.where(fn.node))
    ctx.need("cells of adding an agent", n, 30)


def add_many(ctx, w):
    fn = ctx.method(w, "Ecosystem.insertAgents")
    L = is_sym("location")
    c = Cell(subst([(is_sym("number"), 5)]), number=5)
    n = 0
    for p in ctx.paths(w, fn, stop={"insertAgent"}):
        if not c.feasible(p) or p.exit not in ("return", None):
            continue
        tot = 0
        for o in flatten(p):
            ctx.check(not (o.ev.kind == "write" and o.ev.attr in COUNTED), "P01.people", fn.qual, "inserting agents changes a population", o.ev.where)
            if o.ev.kind == "call" and last(o.ev) in ("insertAgent", "addAgent"):
                ctx.check(last(o.ev) == "insertAgent" and L(pos(o.ev, "location", 0) or NONE), "P01.where", fn.qual, "agents are inserted by %s at %s" % (o.ev.name, T.show(pos(o.ev, "location", 0) or NONE)), o.ev.where)
        for e in p.events:
            if e.kind == "call" and last(e) == "insertAgent":
                tot += 1
            if e.kind == "loop":
                per = {sum(1 for o in flatten(q) if o.ev.kind == "call" and last(o.ev) == "insertAgent") for q in e.paths if c.feasible(q)}
                k = times(e, c)
                if e.loopkind == "while" or k is None:
                    tot = None
                    break
                ctx.check(len(per) == 1 and all(q.exit in ("norm", "continue", None) for q in e.paths), "P01.once", fn.qual + " each", "inserting many agents inserts %s each time" % sorted(per), fn.where(e.astn))
                tot += k * max(per or {0})
        if tot is None:
            ctx.notes.append("P01: the number of agents inserted by %s is not understood" % fn.qual)
            continue
        n += 1
        ctx.check(tot == 5, "P01.once", fn.qual, "inserting 5 agents inserts %d" % tot, fn.where(fn.node), witness(p))
    ctx.need("ways of inserting many agents", n)


def callers(prog):
    out = {}
    for f in prog.all_funcs():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                if nm:
                    out.setdefault(nm, set()).add(f)
    return out


def writers(ctx):
    """populations and spawn counts change nowhere else"""
    by = callers(ctx.prog)
    home = {"addAgent", "__init__"}
    n = 0

    def ok(f, seen=()):
        if f.name in home or f.name == "evolve" and f.cls is not None:
            return True
        if f in seen:
            return True
        cs = by.get(f.name, set())
        return bool(cs) and all(ok(g, seen + (f,)) for g in cs)
    for f in ctx.prog.all_funcs():
        if not f.module.name.startswith("flee."):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in COUNTED:
                n += 1
                ctx.check(ok(f), "P01.writers", "%s %s" % (f.qual, x.attr), "%s is changed outside of adding an agent" % x.attr, f.where(x))
    ctx.need("places that change populations", n, 3)


# ---- P02 ---------------------------------------------------------------------
def p02(ctx):
    for w in WORLDS:
        weights(ctx, w)
        fresh_weights(ctx, w)
        drawn(ctx, w)


def is_weights(who):
    return lambda t: is_attr(t, "spawn_weights") and who(t.args[0])


def weights(ctx, w):
    fn = ctx.func(SP + "refresh_spawn_weights")
    E = is_sym(fn.params[0])
    locs = lambda x: is_attr(x, "locations") and E(x.args[0])
    ps = ctx.paths(w, fn, stop={"get_location_conflict_decay"})
    W = is_weights(E)
    n = 0
    for v in cross(conflict=(-1.0, 0.0, 0.25, 1.0), driven=(True, False), only=(True, False), decay=(True, False)):
        el = lambda t: t.op in ("elem", "idx") and locs(t.args[0])
        dec = result_of("get_location_conflict_decay")
        tab = [(attr_of(el, "conflict"), v["conflict"]), (attr_of(el, "pop"), 40), (is_setting("conflict_driven_spawning"), v["driven"]), (is_setting("conflict_zone_spawning_only"), v["only"]),
               (is_setting("conflict_spawn_decay"), mk("list", const(1.0), const(0.5)) if v["decay"] else NONE), (dec, 0.5)]
        base = subst(tab)

        def f(t, base=base, decay=v["decay"]):
            if t.op in ("truthy", "nonempty") and is_setting("conflict_spawn_decay")(t.args[0]):
                return const(decay)
            if t.op == "none" and is_setting("conflict_spawn_decay")(t.args[0]):
                return const(not decay)
            if is_setting("conflict_spawn_decay")(t):
                return const(1) if decay else NONE
            return base(t)
        c = Cell(f, **v)
        want = 40 * v["conflict"] * (0.5 if v["decay"] else 1.0) if v["conflict"] > 0 and not v["driven"] else 0.0
        for p in ps:
            if not c.feasible(p):
                continue
            got = final_weight(ctx, fn, p, c, W, locs, dec)
            if got is None:
                ctx.notes.append("P02: the way spawn weights are refreshed is not understood")
                continue
            for q, x, where in got:
                n += 1
                ctx.check(x is not None and same(x, want), "P02.weight", "%s %s" % (fn.name, "conflict" if v["conflict"] > 0 else "peace"), "for %s and 40 people the spawn weight becomes %s, not %s" % (c.show(), x, want), where, witness(q))
    for p in ps:
        tot = [i for i, e in enumerate(p.events) if e.kind == "write" and e.attr == "spawn_weight_total"]
        chg = [i for i, e in enumerate(p.events) if e.kind == "loop" and any(o.ev.kind == "subwrite" and W(o.ev.base) for q in e.paths for o in flatten(q))]
        for i in tot:
            x = p.events[i].value
            ctx.check(not chg or i > max(chg), "P02.total", fn.name, "the total of the spawn weights is taken before they are refreshed", p.events[i].where)
            if x.op == "call":
                ctx.check(x.args[0].split(".")[-1] in ("sum", "fsum") and len(x.args[1]) == 1, "P02.total", fn.name + " sum", "the total of the spawn weights is %s" % T.show(x), p.events[i].where)
    ctx.need("cells of the spawn weights", n, 20)


def as_list(x):
    """what an array was made from"""
    while x.op in ("call", "result") and x.args[0].split(".")[-1] in ("array", "asarray", "fromiter") and x.args[-2 if x.op == "result" else 1]:
        x = x.args[2][0] if x.op == "result" else x.args[1][0]
    return x


def each_of(p, t):
    """the item of a list made from one walk: (item, where it walks) or None"""
    g = gather(p, as_list(t))
    if g and len(g) == 1 and g[0][0] == "loop":
        items = [s for q, st in g[0][2] for s in st]
        if len(g[0][2]) == len(items) == 1 and items[0][0] == "one":
            return items[0][1], g[0][1]
    return None


def final_weight(ctx, fn, p, c, W, locs, dec):
    """what the weight of a location ends up as: [(path, value, where)]"""
    start = None
    out = None
    for e in p.events:
        if e.kind == "write" and e.attr == "spawn_weights":
            x = e.value
            x = as_list(x)
            if x.op == "call" and x.args[0].split(".")[-1] in ("zeros", "zeros_like"):
                start, out = 0.0, None
                continue
            g = gather(p, x)
            if g is None or len(g) != 1 or g[0][0] != "loop" or loop_elem(g[0][1], locs) is None:
                return None
            out = []
            for q, st in g[0][2]:
                if not c.feasible(q):
                    continue
                checks(ctx, fn, q, dec)
                out.append((q, c.num(st[0][1]) if len(st) == 1 and st[0][0] == "one" else None, fn.where(g[0][1].astn)))
            continue
        if e.kind == "subwrite" and W(e.base):
            if e.d["key"].op in ("slice", "slicing") or e.d["key"].op == "call" and e.d["key"].args[0] == "slice":
                start, out = c.num(e.value), None
                continue
            return None
        if e.kind == "mutate" and W(e.base):
            if e.method == "fill":
                start, out = c.num(e.args[0]), None
                continue
            return None
        if e.kind != "loop" or not any(o.ev.kind == "subwrite" and W(o.ev.base) for q in e.paths for o in flatten(q)):
            continue
        el = loop_elem(e, locs)
        if el is None:
            it = e.raw if e.raw is not None else e.iter
            ctx.check(not (it.op == "call" and it.args[0] == "range"), "P02.all", fn.name, "weights are refreshed over %s instead of over all locations" % T.show(it), fn.where(e.astn))
            return None
        index = mk("index", el.args[0], el.args[1], ty="int")
        raw = e.raw if e.raw is not None else e.iter
        ctx.check(not any(y.op == "slicing" and locs(y.args[0]) for y in T.walk(raw)), "P02.all", fn.name, "weights are refreshed over %s instead of over all locations" % T.show(raw), fn.where(e.astn))
        got = []
        for q in e.paths:
            if not c.feasible(q) or q.exit == "stop":
                continue
            ctx.check(q.exit in ("norm", "continue", None), "P02.all", fn.name + " early", "refreshing the weights ends early (%s)" % q.exit, fn.where(e.astn), witness(q))
            checks(ctx, fn, q, dec)
            ws = [o.ev for o in flatten(q) if o.ev.kind == "subwrite" and W(o.ev.base)]
            for x in ws:
                ctx.check(x.d["key"] is index, "P02.weight", fn.name + " own", "the weight of a location is stored at %s" % T.show(x.d["key"]), x.where, witness(q))
            prev = [x for r, x, _ in out or [] if c.feasible(r)]
            if ws:
                got.append((q, c.num(ws[-1].value), ws[-1].where))
            elif out is not None and len(set(prev)) == 1:
                got.append((q, prev[0], fn.where(e.astn)))
            else:
                got.append((q, start, fn.where(e.astn)))
        out = got
    return out


def checks(ctx, fn, q, dec):
    for o in flatten(q):
        if o.ev.kind == "call" and last(o.ev) == "get_location_conflict_decay":
            t, l = pos(o.ev, "time", 0), pos(o.ev, "loc", 1)
            ctx.check(t is not None and is_attr(t, "time") and l is not None and l.op in ("elem", "idx") and is_attr(l.args[0], "locations"), "P02.decay", fn.name, "the decay is taken for day %s at %s" % (T.show(t or NONE), T.show(l or NONE)), o.ev.where)


STALE = ("conflict", "pop", "locations", "spawn_weights", "time_of_conflict")


def fresh_weights(ctx, w):
    n = 0
    for name in ("addLocation", "add_conflict_zone", "remove_conflict_zone", "set_conflict_intensity", "evolve"):
        fn = ctx.method(w, "Ecosystem." + name)
        me = is_sym(fn.params[0])
        refresh = lambda e: e.kind == "call" and last(e) == "refresh_spawn_weights" and me(pos(e, "e", 0) or NONE)

        def stale(e):
            if e.kind == "write" and e.attr in STALE and e.base.op != "new":
                return e.attr
            if e.kind == "mutate" and (is_attr(e.base, "locations") or is_attr(e.base, "spawn_weights")) and me(e.base.args[0]):
                return e.base.args[1]
            return None

        def go(events, have, p):
            n = 0
            for e in reversed(events):
                if refresh(e):
                    have = True
                a = stale(e)
                if a:
                    n += 1
                    ctx.check(have, "P02.refresh", "%s %s" % (fn.qual, a), "%s changes without the spawn weights being refreshed afterwards" % a, e.where, witness(p))
                if e.kind == "loop":
                    for q in e.paths:
                        n += go(q.events, have if q.exit in ("norm", "continue", "break", None) else False, q)
                    if any(refresh(x) for q in e.paths for x in q.events) and all(any(refresh(x) for x in q.events) for q in e.paths):
                        have = have or False
            return n
        stop = {"refresh_spawn_weights", "updateLocationScore", "updateAllScores", "synchronize_locations", "generateLocationRoutes", "updateNumAgents", "write_agents", "write_agents_par", "write_links", "write_links_par", "finish_travel", "score_update_time"}
        if name == "evolve":
            stop |= {"Person.evolve"}
            ps = evolve_paths(ctx, w, fn)
            for p in ps:
                if p.exit not in ("return", None):
                    continue
                n += 1
                ctx.check(any(refresh(e) for e in p.events), "P02.refresh", "%s step" % fn.qual, "a step of the simulation does not refresh the spawn weights", fn.where(fn.node), witness(p))
            continue
        for p in ctx.paths(w, fn, stop=stop):
            if p.exit == "raise":
                continue
            n += go(p.events, False, p)
    ctx.need("changes that need the weights refreshed", n, 8)


def evolve_paths(ctx, w, fn):
    """the step, without looking into what single agents and places do"""
    stop = {"refresh_spawn_weights", "updateLocationScore", "updateAllScores", "synchronize_locations", "generateLocationRoutes", "updateNumAgents", "write_agents", "write_agents_par",
            "write_links", "write_links_par", "finish_travel", "take_next_step", "handle_travel", "selectRoute", "calculateMoveChance", "CalcCommWorldTotal", "CalcCommWorldTotalSingle"}
    return ctx.paths(w, fn, stop=stop)


def drawn(ctx, w):
    fn = ctx.method(w, "Ecosystem.pick_spawn_locations")
    me = is_sym(fn.params[0])
    W = is_weights(me)
    tot = lambda t: t.op == "call" and t.args[0].split(".")[-1] in ("sum", "fsum") and len(t.args[1]) >= 1 and W(t.args[1][0]) or t.op == "result" and t.args[0] == ".sum" and W(t.args[1][0]) or \
        t.op == "call" and t.args[0] == ".sum" and W(t.args[1][0]) or is_attr(t, "spawn_weight_total") and me(t.args[0])
    n = 0
    for number in (0, 1, 4):
        own = lambda t: W(t) or t.op in ("elem", "idx") and W(t.args[0]) and (t.op == "elem" or t.args[1].op in ("index", "elem"))
        c = Cell(subst([(tot, 12.0), (own, 3.0), (is_sym("number"), number)]), number=number)
        for p in ctx.paths(w, fn):
            if not c.feasible(p) or p.exit == "raise":
                continue
            n += 1
            ch = [o.ev for o in flatten(p) if o.ev.kind == "call" and o.ev.name.split(".")[-1] in ("choice", "choices")]
            if number == 0 and not ch:
                g = gather(p, p.value) if p.value is not None else None
                ctx.check(g == [], "P02.draw", fn.qual + " none", "drawing no locations gives %s" % (T.show(p.value) if p.value is not None else None), fn.where(fn.node), witness(p))
                continue
            ctx.check(len(ch) == 1 and not any(o.loops for o in flatten(p) if o.ev in ch), "P02.draw", fn.qual + " once", "locations are drawn by %d draws" % len(ch), fn.where(fn.node), witness(p))
            if len(ch) != 1:
                continue
            e = ch[0]
            ws = arg(e, "p") or arg(e, "weights") or (pos(e, "weights", 1) if e.name == "random.choices" else pos(e, "p", 3))
            each = each_of(p, ws) if ws is not None else None
            if each and (loop_elem(each[1], W) or loop_elem(each[1], lambda t: is_attr(t, "locations") and me(t.args[0]))) is not None:
                ws = each[0]
            elif ws is not None and as_list(ws).op == "new" and each is None:
                ctx.notes.append("P02: the weights of the draw are not understood")
                continue
            val = c.num(ws) if ws is not None else None
            ctx.check(val is not None and (same(val, 0.25) or e.name == "random.choices" and same(val, 3.0)), "P02.draw", fn.qual + " weights", "locations are drawn with %s, not with their spawn weights" % (T.show(ws) if ws is not None else "no weights"), e.where, witness(p))
            pop = arg(e, "population") or pos(e, "a", 0)
            ctx.check(is_attr(pop or NONE, "locations") and me(pop.args[0]), "P02.draw", fn.qual + " from", "spawn locations are drawn from %s" % T.show(pop or NONE), e.where)
            k = arg(e, "k") or arg(e, "size") or (pos(e, "size", 1) if e.name != "random.choices" else None)
            ctx.check(k is not None and c.num(k) == number, "P02.draw", fn.qual + " number", "%s locations are drawn when %d are asked for" % (T.show(k) if k is not None else "no number of", number), e.where)
            rp = arg(e, "replace") or (pos(e, "replace", 2) if e.name != "random.choices" else None)
            ctx.check(rp is None or rp is TRUE, "P02.draw", fn.qual + " again", "a location can be drawn only once", e.where)
            ctx.check(p.value is not None and (p.value is e.result or T.contains(p.value, e.result) and not any(y.op in ("idx", "slicing") for y in T.walk(p.value) if T.contains(y, e.result))), "P02.draw", fn.qual + " handed on",
                      "the locations handed on are %s" % (T.show(p.value) if p.value is not None else None), e.where)
    ctx.need("cells of drawing spawn locations", n, 2)


# ---- P03 ---------------------------------------------------------------------
STOP = {"draw_samples", "get_daily_difference", "addAgent", "insertAgent", "pick_spawn_locations", "read_demographics", "get_field"}


def p03(ctx):
    for w in WORLDS:
        zones(ctx, w)
        series(ctx, w)
        number(ctx, w)
        initial(ctx, w)
        samples(ctx, w)
        tables(ctx, w)


def lowered(key, mode, f):
    def g(t):
        if t.op == "call" and t.args[0].split(".")[-1] in ("lower", "casefold") and is_setting(key)(t.args[1][0]):
            return const(mode.lower())
        return f(t)
    return g


def spawned(ctx, label, q, el, c, rule, E, adder="addAgent", same_path=True):
    """number of agents a path adds at location el, checking each of them; None when unknown"""
    tot = 0
    for e in q.events:
        if e.kind == "call" and last(e) in ("addAgent", "insertAgent"):
            one(ctx, label, q, e, el, c, rule, E, adder, [x for x in q.events])
            tot += 1
        if e.kind != "loop":
            continue
        bodies = [r for r in e.paths if r.exit != "stop" and c.feasible(r)]
        per = set()
        for r in bodies:
            k = spawned(ctx, label, r, el, c, rule, E, adder)
            if k is None:
                return None
            per.add(k)
            if k:
                ctx.check(r.exit in ("norm", "continue", None), rule + ".number", label + " early", "adding agents ends early (%s)" % r.exit, e.where, witness(r))
        if per <= {0}:
            continue
        k = times(e, c)
        if k is None:
            if e.loopkind == "while":
                return None
            src = e.raw if e.raw is not None else e.iter
            k = c.num(T.fcall("len", src, ty="int"))
        if k is None:
            return None
        if k:
            ctx.check(len(per) == 1, rule + ".number", label + " each", "%s agents are added each time" % sorted(per), e.where)
        tot += k * max(per)
    return tot


def one(ctx, label, q, e, el, c, rule, E, adder, before):
    ctx.check(last(e) == adder, rule + ".place", label + " how", "agents are added by %s" % e.name, e.where)
    ctx.check(e.recv is None or E(e.recv), rule + ".place", label + " where", "agents are added to %s" % T.show(e.recv or NONE), e.where)
    l = pos(e, "location", 0)
    ctx.check(l is not None and el(l), rule + ".place", label, "an agent is added at %s" % T.show(l or NONE), e.where, witness(q))
    a = pos(e, "attributes", 1)
    own = [x for x in before if x.kind == "call" and last(x) == "draw_samples" and x.result is a]
    ctx.check(bool(own), rule + ".attributes", label, "an agent gets attributes %s instead of fresh ones" % T.show(a or NONE), e.where, witness(q))
    for x in own:
        m = pos(x, "loc", 1)
        ctx.check(m is not None and m is l, rule + ".attributes", label + " place", "the attributes of an agent added at %s are drawn for %s" % (T.show(l or NONE), T.show(m or NONE)), e.where, witness(q))


def val(t, c, view, lids, depth=0):
    """a number after loops: the walk over locations is seen with two locations, counted loops run their number of times"""
    if depth > 20:
        return None
    if t.op in ("after", "phi"):
        lp = lids.get(t.args[0])
        name = t.args[1]
        if lp is None:
            return None
        init = val(lp.d["init"].get(name, t.args[2][0] if t.op == "after" else t.args[2][0][0]), c, view, lids, depth + 1)
        if init is None:
            return None
        k = times(lp, c)
        if k is None:
            k = 2 if lp.d.get("loopkind") == "for" else None
        if k is None or k > 400:
            return None
        now = init
        for _ in range(k):
            ends = set()
            for q in lp.paths:
                if q.exit == "stop" or not c.feasible(q):
                    continue
                b = q.state.env.get(name)
                v = dict(view)
                v[(t.args[0], name)] = now
                inner = lids if not any(e.kind == "loop" for e in q.events) else {**lids, **loops_of([q])}
                ends.add(val(b, c, v, inner, depth + 1) if b is not None else now)
            if not ends:
                return init
            if len(ends) != 1 or None in ends:
                return None
            now = ends.pop()
        return now
    if t.op == "loopvar":
        return view.get((t.args[0], t.args[1]))

    def sub(x):
        if x is not t and x.op in ("after", "phi", "loopvar"):
            r = val(x, c, view, lids, depth + 1)
            return None if r is None else const(r)
        return c.sub(x)
    return Cell(sub).num(t)


def zones(ctx, w):
    """per location: conflict and flood driven spawning"""
    fn = ctx.func(SP + "spawn_daily_displaced")
    E = is_sym(fn.params[0])
    locs = lambda x: is_attr(x, "locations") and E(x.args[0])
    el = lambda t: t.op in ("elem", "idx") and locs(t.args[0])
    ps = ctx.paths(w, fn, stop=STOP, max_alts=2000)
    lids = loops_of(ps)
    n = 0
    tries = []
    for v in cross(kind=("conflict",), mode=("constant", "pop_ratio", "Poisson", "poisson"), level=(-1.0, 0.0, 0.5, 1.0), pop=(40, 7)):
        tries.append(v)
    for v in cross(kind=("flood",), mode=("constant", "pop_ratio", "Poisson", "poisson"), level=(0, 1, 2), pop=(40, 7)):
        tries.append(v)
    ROWS = {"constant": [9, 3, 5], "pop_ratio": [0.9, 0.33, 0.5], "poisson": [9, 4, 6]}
    for v in tries:
        flood = v["kind"] == "flood"
        key = "flood_spawn_mode" if flood else "conflict_spawn_mode"
        mode = v["mode"].lower()
        rate = {"constant": 7, "pop_ratio": 0.33, "poisson": 7}[mode]
        pois = lambda t: t.op == "result" and t.args[0].split(".")[-1] == "poisson"
        tab = [(is_setting("conflict_driven_spawning"), not flood), (is_setting("flood_driven_spawning"), flood), (is_setting(key), v["mode"]), (is_setting("displaced_per_conflict_day"), rate),
               (attr_of(el, "conflict"), v["level"] if not flood else 0.8), (attr_of(el, "pop"), v["pop"]), (is_item(attr_of(el, "attributes"), "flood_level"), v["level"] if flood else 2),
               (has_item(attr_of(el, "attributes"), "flood_level"), True), (pois, 11), (attr_of(el, "capacity"), 999), (attr_of(el, "numAgents"), 777)]
        c = Cell(lowered(key, v["mode"], row_sub(subst(tab), ["displaced_per_flood_day"], [ROWS[mode]])), **v)
        if v["level"] <= 0:
            want, mean = 0, None
        elif flood:
            r = ROWS[mode][v["level"]]
            want, mean = {"constant": (int(r), None), "pop_ratio": (int(r * v["pop"]), None), "poisson": (11, r)}[mode]
        else:
            want, mean = {"constant": (int(rate * v["level"]), None), "pop_ratio": (int(rate * v["pop"] * v["level"]), None), "poisson": (11, rate * v["level"])}[mode]
        label = "%s %s" % (v["kind"], mode)
        ways = [p for p in ps if c.feasible(p) and p.exit in ("return", None)]
        ctx.check(ways, "P03.number", label, "no daily spawning for %s" % c.show(), fn.where(fn.node))
        for p in ways:
            found = False
            for e in p.events:
                if e.kind == "call" and last(e) in ("addAgent", "insertAgent"):
                    ctx.fail("P03.number", label + " outside", "agents are added outside the walk over the locations", e.where, witness(p))
                if e.kind != "loop" or not any(o.ev.kind == "call" and last(o.ev) in ("addAgent", "insertAgent") for q in e.paths for o in flatten(q)):
                    continue
                x = loop_elem(e, locs)
                raw = e.raw if e.raw is not None else e.iter
                if x is None:
                    ctx.check(not T.contains(raw, mk("attr", mk("sym", fn.params[0]), "locations")) and raw.op != "call" or raw.op == "new", "P03.number", label + " all", "daily spawning walks over %s instead of all locations" % T.show(raw), fn.where(e.astn))
                    ctx.notes.append("P03: the walk over the locations is not understood")
                    continue
                found = True
                for q in e.paths:
                    if q.exit == "stop" or not c.feasible(q):
                        continue
                    ctx.check(q.exit in ("norm", "continue", None), "P03.number", label + " walk", "the walk over the locations ends early (%s)" % q.exit, fn.where(e.astn), witness(q))
                    k = spawned(ctx, label, q, lambda t: t is x, c, "P03", E)
                    if k is None:
                        ctx.notes.append("P03: the number of agents added is not understood (%s)" % label)
                        continue
                    n += 1
                    ctx.check(k == want, "P03.number", label, "for %s (rate %s) %s agents are added, not %s" % (c.show(), ROWS[mode] if flood else rate, k, want), fn.where(e.astn), witness(q))
                    for o in flatten(q):
                        if o.ev.kind == "call" and o.ev.name.split(".")[-1] == "poisson" and mean is not None:
                            m = pos(o.ev, "lam", 0)
                            ctx.check(m is not None and same(c.num(m), mean), "P03.mean", label, "for %s (rate %s) the mean of the draw is %s, not %s" % (c.show(), ROWS[mode] if flood else rate, c.num(m) if m is not None else None, mean), o.ev.where, witness(q))
            if not found and want:
                if any(o.ev.kind == "call" and (last(o.ev) in ("addAgent", "insertAgent", "insertAgents") or o.ev.fn is None and any(E(x) for _, x in o.ev.args)) for o in flatten(p)):
                    ctx.notes.append("P03: no walk over the locations was found (%s)" % label)
                else:
                    ctx.fail("P03.number", label, "for %s no agents are added" % c.show(), fn.where(fn.node), witness(p))
            r = p.value
            if r is not None and r.op == "tuple" and len(r.args) == 3:
                got = val(r.args[0], c, {}, lids)
                if got is None:
                    ctx.notes.append("P03: the number reported is not understood (%s)" % label)
                else:
                    ctx.check(got == 2 * want, "P03.reported", label, "for two locations with %s, %s agents are reported and %s added" % (c.show(), got, 2 * want), fn.where(fn.node), witness(p))
    ctx.need("cells of daily spawning per location", n, 30)


def series(ctx, w):
    """spawning from the data series, with its debt"""
    fn = ctx.func(SP + "spawn_daily_displaced")
    E = is_sym(fn.params[0])
    ps = ctx.paths(w, fn, stop=STOP, max_alts=2000)
    lids = loops_of(ps)
    G = lambda name: lambda t: t.op == "global" and name in T.show(t)
    diff = result_of("get_daily_difference")
    n = 0
    for v in cross(t=(0, 1, 5), insert=(True, False), diff=(9, 3, 1, -4, 0), debt=(0, 1, 2, 3, 9)):
        if v["t"] == 0 and v["debt"]:
            continue
        tab = [(is_setting("conflict_driven_spawning"), False), (is_setting("flood_driven_spawning"), False), (is_setting("InsertDayZeroRefugeesInCamps"), v["insert"]), (is_sym("t"), v["t"]),
               (diff, v["diff"]), (G("__refugee_debt"), v["debt"]), (G("__refugees_raw"), 50), (attr_of(E, "time"), v["t"])]
        new = v["diff"] - v["debt"]
        if v["insert"] and v["t"] == 0:
            new = 0
        debt = max(0, -new)
        new = max(0, new)
        picks = result_of("pick_spawn_locations")
        tab.append((lambda t: T.is_len(t) and picks(t.args[1][0]), new))
        c = Cell(subst(tab), **v)
        label = "data day 0" if v["t"] == 0 else "data"
        ways = [p for p in ps if c.feasible(p) and p.exit in ("return", None)]
        ctx.check(ways, "P03.series", label, "no daily spawning for %s" % c.show(), fn.where(fn.node))
        for p in ways:
            for o in flatten(p):
                if o.ev.kind == "call" and last(o.ev) == "get_daily_difference":
                    d, full, s = pos(o.ev, "day", 0), pos(o.ev, "FullInterpolation", 1), arg(o.ev, "SumFromCamps")
                    ctx.check(d is not None and is_sym("t")(d), "P03.series", label + " day", "the increase of day %s is used" % T.show(d or NONE), o.ev.where)
                    ctx.check(s is not None and is_setting("sum_from_camps")(s), "P03.series", label + " source", "the increase is taken with SumFromCamps=%s" % T.show(s or NONE), o.ev.where)
                    ctx.check(full is None or full is TRUE, "P03.series", label + " interpolation", "the increase is taken with FullInterpolation=%s" % T.show(full or NONE), o.ev.where)
                if o.ev.kind == "call" and last(o.ev) == "pick_spawn_locations" and not o.loops:
                    k = pos(o.ev, "number", 0)
                    ctx.check(k is not None and c.num(k) == new, "P03.series", label + " drawn", "for %s, %s locations are drawn for %d agents" % (c.show(), c.num(k) if k is not None else None, new), o.ev.where, witness(p))
            el = lambda t: (t.op in ("idx", "elem") and picks(t.args[0]) and (t.op == "elem" or t.args[1].op in ("elem", "index") or t.args[1] is const(0) and t.args[0].args[2][:1] == (const(1),)))
            k = spawned(ctx, label, p, el, c, "P03", E)
            if k is None:
                ctx.notes.append("P03: the number of agents added is not understood (%s)" % label)
            else:
                n += 1
                ctx.check(k == new, "P03.series", label, "for %s, %s agents are added, not %d" % (c.show(), k, new), fn.where(fn.node), witness(p))
            r = p.value
            ok = r is not None and r.op == "tuple" and len(r.args) == 3
            ctx.check(ok, "P03.reported", label, "daily spawning reports %s" % (T.show(r) if r is not None else None), fn.where(fn.node), witness(p))
            if not ok:
                continue
            got = [val(x, c, {}, lids) for x in r.args]
            ctx.check(got[0] == new, "P03.reported", label + " number", "for %s, %s agents are reported and %d added" % (c.show(), got[0], new), fn.where(fn.node), witness(p))
            ctx.check(got[1] == 50 + v["diff"], "P03.reported", label + " raw", "for %s the raw count goes from 50 to %s" % (c.show(), got[1]), fn.where(fn.node), witness(p))
            ctx.check(got[2] == debt, "P03.debt", label, "for %s the debt reported is %s, not %d" % (c.show(), got[2], debt), fn.where(fn.node), witness(p))
            for name, want in (("__refugee_debt", debt), ("__refugees_raw", 50 + v["diff"])):
                kept = [x for k_, x in p.state.heap.items() if k_[0].op == "global" and name in T.show(k_[0]) and k_[1] == "$own"]
                left = c.num(kept[0]) if kept else {"__refugee_debt": v["debt"], "__refugees_raw": 50}[name]
                ctx.check(left == want, "P03.debt", "%s kept %s" % (label, name.strip("_")), "for %s, %s is kept as %s, not %s" % (c.show(), name.strip("_"), left, want), fn.where(fn.node), witness(p))
    ctx.need("cells of spawning from data", n, 20)


def number(ctx, w):
    fn = ctx.func(SP + "spawn_agents")
    E = is_sym(fn.params[0])
    picks = result_of("pick_spawn_locations")
    c = Cell(subst([(is_sym("number"), 4), (lambda t: T.is_len(t) and picks(t.args[1][0]), 4)]), number=4)
    n = 0
    for p in ctx.paths(w, fn, stop=STOP):
        if not c.feasible(p):
            continue
        el = lambda t: t.op in ("idx", "elem") and picks(t.args[0])
        k = spawned(ctx, fn.name, p, el, c, "P03", E)
        if k is None:
            ctx.notes.append("P03: the number of agents added by spawn_agents is not understood")
            continue
        n += 1
        ctx.check(k == 4, "P03.number", fn.name, "spawning 4 agents adds %d" % k, fn.where(fn.node), witness(p))
    ctx.need("ways of spawning a number of agents", n)


def initial(ctx, w):
    fn = ctx.func(SP + "add_initial_refugees")
    E, L = is_sym(fn.params[0]), is_sym("loc")
    ps = ctx.paths(w, fn, stop=STOP)
    n = 0
    for v in cross(empty=(True, False), insert=(True, False), idps=(0, 4)):
        tab = [(is_setting("EmptyCampsOnDay0"), v["empty"]), (is_setting("InsertDayZeroRefugeesInCamps"), v["insert"]), (result_of("get_field"), 12), (is_item(attr_of(L, "attributes"), "initial_idps"), v["idps"]),
               (has_item(attr_of(L, "attributes"), "initial_idps"), bool(v["idps"]))]
        c = Cell(subst(tab), **v)
        want = 0 if v["empty"] else 12 * v["insert"] + v["idps"]
        ways = [p for p in ps if c.feasible(p) and p.exit in ("return", None)]
        ctx.check(ways, "P03.initial", fn.name, "no initial agents for %s" % c.show(), fn.where(fn.node))
        for p in ways:
            k = spawned(ctx, fn.name, p, L, c, "P03", E, adder="insertAgent")
            if k is None:
                ctx.notes.append("P03: the number of initial agents is not understood")
                continue
            n += 1
            ctx.check(k == want, "P03.initial", fn.name, "for %s and a data count of 12, %d agents are inserted, not %d" % (c.show(), k, want), fn.where(fn.node), witness(p))
            for o in flatten(p):
                if o.ev.kind == "call" and last(o.ev) == "get_field":
                    nm, d = pos(o.ev, "name", 0), pos(o.ev, "day", 1)
                    ctx.check(nm is not None and is_attr(nm, "name") and L(nm.args[0]) and d is const(0), "P03.initial", fn.name + " data", "the data count is read for %s on day %s" % (T.show(nm or NONE), T.show(d or NONE)), o.ev.where)
    ctx.need("cells of initial agents", n, 8)


def samples(ctx, w):
    """one value per attribute, drawn with the weights of the location"""
    fn = ctx.func(SP + "draw_sample")
    dem = lambda t: t.op == "global" and "__demographics" in T.show(t)
    n = 0
    for v in cross(known=(True, False), column=(True, False)):
        tab = [(lambda t: t.op == "in" and dem(t.args[1]), v["known"]), (lambda t: t.op == "in" and is_attr(t.args[0], "name") and any(dem(y) for y in T.walk(t.args[1])), v["column"])]
        c = Cell(subst(tab), **v)
        for p in ctx.paths(w, fn):
            if not c.feasible(p):
                continue
            n += 1
            sm = [o.ev for o in flatten(p) if o.ev.kind == "call" and last(o.ev) in ("sample", "choices", "choice")]
            if not v["known"]:
                ctx.check(not sm and p.exit == "return" and p.value is not None and c.num(p.value) == -1, "P03.sample", fn.name + " unknown", "an attribute without data gives %s" % (T.show(p.value) if p.value is not None else None), fn.where(fn.node), witness(p))
                continue
            ctx.check(len(sm) == 1, "P03.sample", fn.name + " once", "a value is drawn %d times" % len(sm), fn.where(fn.node), witness(p))
            if len(sm) != 1 or last(sm[0]) != "sample":
                continue
            e = sm[0]
            ws = arg(e, "weights")
            good = ws is not None and (is_attr(ws, "name") and is_sym("loc")(ws.args[0]) if v["column"] else ws is const("Default"))
            if ws is not None and ws.op == "idx" and ws.args[0] is e.recv:
                x = ws.args[1]
                good = is_attr(x, "name") and is_sym("loc")(x.args[0]) if v["column"] else x is const("Default")
            ctx.check(good, "P03.sample", fn.name + " weights", "for %s a value is drawn with the weights of %s" % (c.show(), T.show(ws or NONE)), e.where, witness(p))
            ctx.check(e.recv is not None and e.recv.op == "idx" and dem(e.recv.args[0]) and is_sym("attribute")(e.recv.args[1]), "P03.sample", fn.name + " table", "a value is drawn from %s" % T.show(e.recv or NONE), e.where)
            k = arg(e, "n") or pos(e, "n", 0)
            ctx.check(k is None or k is const(1), "P03.sample", fn.name + " number", "%s values are drawn" % T.show(k or NONE), e.where)
            ctx.check(p.value is not None and T.contains(p.value, e.result) and any(is_sym("attribute")(y) for y in T.walk(p.value) if not T.contains(e.result, y) or True), "P03.sample", fn.name + " value", "the value handed on is %s" % (T.show(p.value) if p.value is not None else None), e.where)
    ctx.need("cells of drawing a value", n, 3)
    fn = ctx.func(SP + "draw_samples")
    n = 0
    for p in ctx.paths(w, fn, stop={"draw_sample"}):
        for e in p.events:
            if e.kind != "loop" or not any(o.ev.kind == "call" and last(o.ev) == "draw_sample" for q in e.paths for o in flatten(q)):
                continue
            ctx.check(any(dem(y) for y in T.walk(e.iter)), "P03.sample", fn.name + " all", "attributes are drawn for %s" % T.show(e.iter), fn.where(e.astn))
            for q in e.paths:
                calls = [x for x in q.events if x.kind == "call" and last(x) == "draw_sample"]
                n += 1
                ctx.check(len(calls) == 1 and q.exit in ("norm", "continue", None), "P03.sample", fn.name + " each", "an attribute is drawn %d times" % len(calls), fn.where(e.astn), witness(q))
                for x in calls:
                    l, a = pos(x, "loc", 1), pos(x, "attribute", 2)
                    ctx.check(is_sym("loc")(l or NONE), "P03.sample", fn.name + " place", "attributes are drawn for %s" % T.show(l or NONE), x.where)
                    wr = [y for y in q.events if y.kind == "subwrite" and y.value is x.result]
                    if wr:
                        ctx.check(wr[0].d["key"] is a and p.value is wr[0].base and wr[0].base.op == "new", "P03.sample", fn.name + " stored", "the value of %s is stored under %s" % (T.show(a or NONE), T.show(wr[0].d["key"])), wr[0].where)
    ctx.need("attributes drawn", n)


def tables(ctx, w):
    """each demographics file becomes the table of the attribute it is named after"""
    import os.path
    fn = ctx.func(SP + "read_demographic_csv")
    dem = lambda t: t.op == "global" and "__demographics" in T.show(t)
    n = 0
    for csv, attr, there in (("input_csv/demographics_age.csv", "age", True), ("input_csv/demographics_flood_awareness.csv", "flood_awareness", True), ("input_csv/demographics_age.csv", "age", False)):
        calls = {"os.path.exists": lambda f: there if f == csv else R.fail(const("another file")), "exists": lambda f: there if f == csv else R.fail(const("another file")),
                 "basename": os.path.basename, "splitext": os.path.splitext, "read_csv": lambda f, **k: ("table of", f)}
        what = "%s (%s)" % (csv, "there" if there else "missing")
        try:
            p, b = R.the_way(ctx.paths(w, fn), R.Bind(lambda t: csv if is_sym("csvname")(t) else R.MISSING, calls=calls), fn.qual)
            got = []
            for e, q, bb in R.replay(p, b, lambda e: e.kind == "subwrite" and dem(e.base)):
                got.append((R.value(e.d["key"], q, bb), R.value(e.value, q, bb)))
        except (R.Unknown, R.Gone, TypeError, ValueError, IndexError) as e:
            ctx.notes.append("P03: demographics of %s: %s" % (what, e))
            continue
        n += 1
        ctx.check(got == ([(attr, ("table of", csv))] if there else []), "P03.tables", fn.name, "the file %s becomes %s" % (what, got), fn.where(fn.node))
    fn = ctx.func(SP + "read_demographics")
    files = ["input_csv/demographics_age.csv", "input_csv/demographics_gender.csv"]
    for there in (True, False):
        calls = {"exists": lambda f: there, "isdir": lambda f: there, "os.path.join": lambda *a: "/".join(a), "glob": lambda f: files if f == "input_csv/demographics_*.csv" else R.fail(const("another pattern"))}
        try:
            p, b = R.the_way(ctx.paths(w, fn, stop={"read_demographic_csv"}), R.Bind(lambda t: R.MISSING, calls=calls), fn.qual)
            got = [R.value(pos(e, "csvname", 1), q, bb) for e, q, bb in R.replay(p, b, lambda e: e.kind == "call" and last(e) == "read_demographic_csv")]
        except (R.Unknown, R.Gone, TypeError, ValueError, IndexError) as e:
            ctx.notes.append("P03: demographics: %s" % e)
            continue
        n += 1
        ctx.check(sorted(got) == (files if there else []), "P03.tables", fn.name, "of the files %s, %s are read" % (files if there else "(no folder)", got), fn.where(fn.node))
    if not n:
        ctx.notes.append("P03: demographics are not followed")


EXPLAIN = {
    "P01": "every path of addAgent/insertAgent is evaluated in cells of population, running count, number of processes and rank: final population, counts and agents made must match, and only these functions may write populations",
    "P02": "the final weight of a location on every path of the refresh is evaluated in cells of the settings and the location's state; every change of conflicts or locations must be followed by a refresh; the draw must use the weights",
    "P03": "the number of agents each mode adds is evaluated symbolically per location and for the data series with its debt, with each added agent's place, attributes and the number reported",
}
RULES = {"P01": p01, "P02": p02, "P03": p03}
