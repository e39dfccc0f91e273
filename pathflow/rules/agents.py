"""A01-A05, E02: what an agent does to itself and to the places it visits"""
from ..report import *          # noqa
from ..report import mk, T
from ..model import AnalysisBroken
from ..terms import NONE, TRUE, FALSE, const
from .. import algebra as A

WORLDS = ("serial", "parallel")
PLAN = {"selectRoute", "calculateMoveChance", "getCapMultiplier"}
HEAD = {"serial": "numAgents", "parallel": "numAgentsOnRank"}
MOVERS = ("Person.evolve", "Person.finish_travel")
SELF = mk("sym", "self", ty="Person")


def person_paths(ctx, world, ref):
    return ctx.paths(world, ctx.method(world, ref), stop=PLAN)


def guards(path):
    return path.alts or [path.cons]


# ---- A01 ---------------------------------------------------------------------
def net_changes(path, fields):
    """(place, field) -> net constant change, or the term when it is not an increment"""
    out = {}
    for e in path.events:
        if e.kind == "write" and e.attr in fields:
            out[(e.base, e.attr)] = (_delta(e.base, e.attr, e.value), e)
    return out


def _delta(base, attr, value):
    c, items = T._lin(value)
    if len(items) == 1:
        (x, k), = items.items()
        if k == 1 and x.op in ("attr", "loopvar", "afterloop", "after") and (x.op != "attr" or (x.args[0] is base and x.args[1] == attr)):
            return c
    return None


def move_chain(path, fresh):
    """per person: (first place, last place, last event)"""
    out = {}
    for e in path.events:
        if e.kind == "write" and e.attr == "location" and (e.base.ty == "Person"):
            if e.base not in out:
                first = None if (e.base in fresh or e.base.op == "new") else mk("attr", e.base, "location", 0, ty="Place")
                out[e.base] = [first, e.value, e]
            else:
                out[e.base][1:] = [e.value, e]
    return out


def balance(ctx, world, fn, paths, fresh=(), label=None):
    """net headcount change of every path matches the moves on it"""
    field = HEAD[world]
    both = {"numAgents", "numAgentsOnRank"}
    rule = "A01.balance"
    label = label or fn.qual
    todo = [(p, False) for p in paths]
    for lp, q, _ in inner_paths(paths):
        todo.append((q, True))
    moves = 0
    for p, inner in todo:
        ch = net_changes(p, both)
        mv = move_chain(p, fresh)
        want = {}
        if p.exit in ("raise", "exit"):
            continue
        for person, (old, new, e) in mv.items():
            if new is NONE:
                continue
            moves += 1
            if old is not None:
                want[old] = want.get(old, 0) - 1
            want[new] = want.get(new, 0) + 1
        for (base, attr), (d, e) in ch.items():
            if d is None:
                if e.value is const(0) and (base.op in ("copy", "new") or (fn.name == "__init__" and base.op == "sym")):
                    continue
                if world == "parallel" and attr == "numAgents" and global_sum(e.value):
                    continue
                ctx.fail(rule, "%s (%s): %s" % (label, world, attr), "headcount is set to %s instead of being counted" % T.show(e.value), e.where, witness(p))
                continue
            w = want.get(base, 0)
            if attr == field and d != w or attr != field and d not in (0, w):
                ctx.fail(rule, "%s (%s)" % (label, world),
                         "headcount of %s changes by %+d on a path where it should change by %+d" % (T.show(base), d, w), e.where, witness(p))
        for base, w in want.items():
            if w and (base, field) not in ch:
                e = next(iter(mv.values()))[2]
                ctx.fail(rule, "%s (%s)" % (label, world),
                         "agent %s %s but its headcount is not changed" % ("leaves" if w < 0 else "enters", T.show(base)), e.where, witness(p))
        ctx.ok(rule)
    return moves


def global_sum(t):
    return any(x.op == "result" and "CalcCommWorldTotal" in str(x.args[0]) or x.op == "result" and "educe" in str(x.args[0])
               for x in T.walk(t))


def cleared(ctx, world):
    """clearing: exactly the agents at listed locations go, each lowering its location's count"""
    fn = ctx.method(world, "Ecosystem.clearLocationsFromAgents")
    field = HEAD[world]
    ps = ctx.paths(world, fn, stop={"updateNumAgents"})
    rule = "A01.clear"
    me = mk("sym", "self", ty="Ecosystem")
    loc_names = mk("sym", "location_names", ty="list:str")
    for p in ps:
        if p.exit in ("raise", "exit"):
            continue
        loops = [e for e in p.events if e.kind == "loop" and e.elem is not None and agent_elem(e, me) is not None]
        w = [e for e in p.events if e.kind == "write" and e.attr == "agents"]
        inplace = any(e.kind == "mutate" and e.method in ("remove", "pop", "del") for o in flatten(p) for e in [o.ev])
        if not loops or not (w or inplace):
            ctx.fail(rule, "%s (%s)" % (fn.qual, world), "the list of agents is not rebuilt from the existing agents", fn.where(fn.node))
            continue
        keepbase = w[-1].value if w else None
        # combine the loops over the same agents on consistent branch atoms
        combos = [({}, 0, 0, None)]
        for lp in loops:
            el = agent_elem(lp, me)
            nxt = []
            for q in lp.paths:
                keep = drop = 0
                d = 0
                ev = None
                for e in q.events:
                    if e.kind == "mutate" and el in kept_items(e):
                        if keepbase is not None and e.base is keepbase and e.method in ("append", "extend"):
                            keep += 1
                            ev = e
                        if e.method == "remove":
                            drop += 1
                    if e.kind == "write" and e.attr == field:
                        dd = _delta(e.base, e.attr, e.value)
                        good = e.base is mk("attr", el, "location", 0)
                        d += dd if (dd is not None and good) else 99
                        ev = e
                    if e.kind == "mutate" and e.base is keepbase and e.method in ("append", "extend") and el not in kept_items(e):
                        ctx.fail(rule, "%s (%s) kept items" % (fn.qual, world), "something other than the agent itself is put back: %s" % T.show(e.args), e.where)
                for g in guards(q):
                    c2 = {rename(k, el): v for k, v in g.items()}
                    for c, k0, d0, e0 in combos:
                        if any(c.get(k, v) is not v for k, v in c2.items()):
                            continue
                        cc = dict(c)
                        cc.update(c2)
                        kk = keep if w else (1 - drop)
                        nxt.append((cc, k0 + kk, d0 + d, ev or e0))
            combos = nxt
        A_ = mk("sym", "AGENT", ty="Person")
        aloc = mk("attr", A_, "location", 0)
        nonloc = mk("none", aloc, ty="bool")
        listed = None
        for c, k, d, ev in combos:
            where = ev.where if ev is not None else fn.where(fn.node)
            gone = c.get(nonloc)
            inn = None
            for a, v in c.items():
                if a.op == "in" and T.contains(a.args[0], aloc):
                    inn = v
                    if not (is_attr(a.args[0], "name", aloc) and a.args[1] is loc_names):
                        ctx.fail(rule, "%s (%s) test" % (fn.qual, world), "agents are selected by %s" % T.show(a), where)
            desc = "%s (%s)" % (fn.qual, world)
            if gone is True:
                ctx.check(d == 0, rule, desc, "a deactivated agent changes a headcount", where)
            elif inn is True:
                ctx.check(k == 0 and d == -1, rule, desc, "an agent at a listed location is %s and its location's count changes by %+d" % ("kept" if k else "removed", d), where)
            elif inn is False:
                ctx.check(k == 1 and d == 0, rule, desc, "an agent at an unlisted location is kept %d times and counts change by %+d" % (k, d), where)
            else:
                ctx.check(False, rule, desc, "agents are cleared without looking at their location's name", where)
    ctx.need("paths of clearLocationsFromAgents", len(ps))


def kept_items(e):
    out = set()
    for a in e.args:
        if e.method not in ("extend",):
            out.add(a)
        if a.op in ("list", "tuple"):
            out.update(a.args)
        if a.op == "concat":
            for x in a.args:
                out.update(x.args if x.op == "list" else [x])
    return out


def agent_elem(lp, me):
    """the agent a loop over the ecosystem's agents looks at"""
    el = lp.elem
    for x in ([el] + [y for y in el.args if isinstance(y, T.Term)] if el.op == "tuple" else [el]):
        if x.op == "elem" and is_attr(x.args[0], "agents", me):
            return x
        if x.op == "index" and is_attr(x.args[0], "agents", me):
            return mk("elem", x.args[0], x.args[1], ty="Person")
    return None


def rename(t, el):
    A_ = mk("sym", "AGENT", ty="Person")
    return T.rebuild(t, lambda x: A_ if x is el else None)


def a01(ctx):
    seen_fields = {"numAgents", "numAgentsOnRank"}
    covered = set()
    for w in WORLDS:
        n = 0
        for ref in MOVERS:
            fn = ctx.method(w, ref)
            ps = person_paths(ctx, w, ref)
            n += balance(ctx, w, fn, ps)
        ctx.need("moves of agents (%s)" % w, n, 6)
        # creation
        fn = ctx.method(w, "Person.__init__")
        ps = ctx.paths(w, fn, args={"location": mk("sym", "location", ty="Location"), "e": mk("sym", "e", ty="Ecosystem")})
        n = balance(ctx, w, fn, ps, fresh={SELF})
        ctx.need("agent creation (%s)" % w, n)
        for p in ps:
            ctx.check(any(e.kind == "write" and e.attr == "location" and e.base is SELF for e in p.events), "A01.create",
                      fn.qual, "a new agent is not put at its location", fn.where(fn.node))
        for name in ("addAgent", "insertAgent"):
            fn = ctx.method(w, "Ecosystem." + name)
            ps = ctx.paths(w, fn, stop={"print"})
            balance(ctx, w, fn, ps)
        fn = ctx.method(w, "Ecosystem.evolve")
        ps = ctx.paths(w, fn, stop=EVSTOP)
        balance(ctx, w, fn, ps)
        for name in ("_remove_link_1way", "_reopen_link_1way", "remove_link", "reopen_link", "close_link", "linkUp", "addLocation",
                     "close_location", "reopen_location", "_aggregate_arrivals", "enact_border_closures", "insertAgents"):
            c = ctx.worlds[w]["Ecosystem"].find(name)
            if c is None:
                continue
            ps = ctx.paths(w, c, stop=EVSTOP | {"insertAgent", "addAgent", "updateLocationScore", "Person"} |
                           ({"remove_link", "reopen_link", "close_link"} if "border" in name or "location" in name else set()))
            balance(ctx, w, c, ps)
        for name in ("Location.__init__", "Link.__init__"):
            fn = ctx.method(w, name)
            ps = ctx.paths(w, fn, stop={"updateLocationScore", "print"})
            balance(ctx, w, fn, ps)
        cleared(ctx, w)
    fn = ctx.method("parallel", "Ecosystem.updateNumAgents")
    ps = ctx.paths("parallel", fn, stop={"CalcCommWorldTotal", "CalcCommWorldTotalSingle"})
    balance(ctx, "parallel", fn, ps)
    writers_covered(ctx, "A01.writers", seen_fields)


EVSTOP = {"evolve", "finish_travel", "refresh_spawn_weights", "updateLocationScore", "updateAllScores", "write_agents", "write_links",
          "write_agents_par", "write_links_par", "updateNumAgents", "synchronize_locations", "generateLocationRoutes",
          "CalcCommWorldTotal", "CalcCommWorldTotalSingle"}


def writers_covered(ctx, rule, fields, modules=("flee.",)):
    """every function that stores one of the fields was walked by the path analysis"""
    n = 0
    for f, node in attr_writers(ctx.prog, fields, modules):
        if "micro" in f.module.name:
            continue
        n += 1
        ctx.check(called_only_by(ctx.prog, f, lambda g: g.qual in ctx.funcs), rule, f.qual, "stores %s outside the operations that account for it" % getattr(node, "attr", "it"), f.where(node))
    ctx.need("writers of " + ", ".join(sorted(fields)), n, 2)


# ---- A02 ---------------------------------------------------------------------
def a02(ctx):
    rule = "A02.journey"
    for w in WORLDS:
        dep = arr = 0
        for ref in MOVERS:
            fn = ctx.method(w, ref)
            for p in person_paths(ctx, w, ref):
                d, a = journey(ctx, w, fn, p)
                dep += d
                arr += a
        ctx.need("departures (%s)" % w, dep, 2)
        ctx.need("arrivals (%s)" % w, arr, 2)
        fn = ctx.method(w, "Person.__init__")
        for p in ctx.paths(w, fn, args={"location": mk("sym", "location", ty="Location"), "e": mk("sym", "e", ty="Ecosystem")}):
            last = {e.attr: e for e in p.events if e.kind == "write" and e.base is SELF}
            ctx.check("travelling" in last and last["travelling"].value is FALSE, "A02.initial", fn.qual, "a new agent is flagged as travelling", fn.where(fn.node))
            ctx.check("distance_travelled_on_link" in last and T.strip(last["distance_travelled_on_link"].value) in (const(0), const(0.0)),
                      "A02.initial", fn.qual + " progress", "a new agent starts with progress on a link", fn.where(fn.node))
    for w in WORLDS:
        fn = ctx.method(w, "Ecosystem.evolve")
        for p in ctx.paths(w, fn, stop=EVSTOP):
            for o in flatten(p):
                e = o.ev
                if e.kind == "write" and e.attr in ("travelling", "distance_travelled_on_link", "route"):
                    ctx.fail("A02.writers", fn.qual + " " + e.attr, "the step itself changes an agent's journey", e.where)
                if e.kind == "write" and e.attr == "location" and e.value is not NONE:
                    ctx.fail("A02.writers", fn.qual + " location", "the step itself moves an agent", e.where)
                ctx.ok("A02.step")
    writers_covered(ctx, "A02.writers", {"travelling", "distance_travelled_on_link", "route"})
    for f, node in attr_writers(ctx.prog, {"location"}, ("flee.",)):
        if "micro" in f.module.name or f.module.name.startswith(("flee.datamanager", "flee.pre", "flee.post")):
            continue
        ctx.check(called_only_by(ctx.prog, f, lambda g: g.qual in ctx.funcs), "A02.writers", f.qual, "moves an agent outside deciding and travelling", f.where(node))


def journey(ctx, w, fn, p):
    rule = "A02.journey"
    place = mk("attr", SELF, "location", 0, ty="Place")
    trav = None                      # None: unknown (initial flag)
    travatom = mk("attr", SELF, "travelling", 0, ty="bool")
    pend = None                      # placement waiting for its flag and progress reset
    dep = arr = 0
    label = "%s (%s)" % (fn.qual, w)
    gs = guards(p)
    if p.exit in ("raise", "exit"):
        return 0, 0
    route_cons = {}
    evs = p.events

    def settle():
        if pend is not None:
            kind, e, flag, dist = pend
            ctx.check(flag is (TRUE if kind == "dep" else FALSE), rule, label + " flag",
                      "after %s the travelling flag is %s" % ("setting off" if kind == "dep" else "arriving", T.show(flag) if flag is not None else "not set"), e.where, witness(p))
            ctx.check(dist is not None and T.strip(dist) in (const(0), const(0.0)), rule, label + " progress",
                      "after %s the progress on the link is not reset" % ("setting off" if kind == "dep" else "arriving"), e.where, witness(p))
    flag_before = dist_before = None
    for i, e in enumerate(evs):
        if e.kind == "loop":
            for q in e.paths:
                for x in q.events:
                    if x.kind == "write" and x.base is SELF and x.attr in ("location", "travelling", "distance_travelled_on_link"):
                        ctx.fail(rule, label + " loop", "an agent's place is changed repeatedly inside a loop", x.where)
        if e.kind != "write" or e.base is not SELF:
            continue
        if e.attr == "travelling":
            if pend is not None:
                pend = (pend[0], pend[1], e.value, pend[3])
            elif not any(x.kind == "write" and x.base is SELF and x.attr == "location" for x in evs[i:]):
                ctx.fail(rule, label + " flag alone", "the travelling flag changes without a change of place", e.where, witness(p))
            else:
                flag_before = e.value
            continue
        if e.attr == "distance_travelled_on_link":
            if pend is not None:
                pend = (pend[0], pend[1], pend[2], e.value)
            else:
                dist_before = e.value
            continue
        if e.attr != "location":
            continue
        if pend is not None:
            settle()
        v = e.value
        if v.op == "attr" and v.args[0] is place and v.args[1] in ("endpoint", "startpoint"):
            arr += 1
            closed = mk("attr", place, "closed", 0, ty="bool")
            want = v.args[1] == "startpoint"
            for g in gs:
                if not ctx.check(g.get(closed) is want, rule, label + " " + v.args[1],
                                 "an agent is put at the %s of its link although the link is %s" % (
                                     "far end" if not want else "start", {True: "closed", False: "open", None: "not known to be " + ("closed" if want else "open")}[g.get(closed)]), e.where, witness(p)):
                    break
            if trav is None:
                ctx.check(all(g.get(travatom) is True for g in gs), rule, label + " travelling", "an agent arrives without having been travelling", e.where, witness(p))
            else:
                ctx.check(trav is TRUE, rule, label + " travelling", "an agent arrives without having been travelling", e.where, witness(p))
            kind = "arr"
        elif v.op == "elem" and is_attr(v.args[0], "links") and v.args[0].args[0] is place:
            dep += 1
            if trav is None:
                ctx.check(all(g.get(travatom) is False for g in gs), rule, label + " departs", "an agent sets off while it may still be travelling", e.where, witness(p))
            else:
                ctx.check(trav is FALSE, rule, label + " departs", "an agent sets off while it may still be travelling", e.where, witness(p))
            # waypoint
            nm = mk("attr", mk("attr", v, "endpoint", 0), "name", 0)
            ok, routes = False, set()
            for g in gs:
                hit = None
                for a, b in g.items():
                    if a.op == "eq" and b and nm in a.args:
                        o = a.args[0] if a.args[1] is nm else a.args[1]
                        if o.op == "idx" and o.args[1] is const(0):
                            hit = o.args[0]
                ok = hit is not None
                routes.add(hit)
                if not ok:
                    break
            ctx.check(ok and len(routes) == 1, rule, label + " waypoint", "an agent sets off along a link that is not known to lead to the next waypoint of its route", e.where, witness(p))
            if ok and len(routes) == 1:
                r = routes.pop()
                consumed = False
                rw = [x for x in evs if x.kind == "write" and x.base is SELF and x.attr == "route"]
                for x in evs:
                    if x.kind == "mutate" and x.base is r and (x.method == "pop" and x.args and x.args[0] is const(0) or x.method == "del" and x.args[0] is const(0)):
                        consumed = True
                for x in rw:
                    if x.value.op == "slicing" and x.value.args[0] is r and x.value.args[1] is const(1) and x.value.args[2] is NONE:
                        consumed = True
                ctx.check(consumed, rule, label + " consume", "the waypoint an agent sets off for is not taken off its route", e.where, witness(p))
            kind = "dep"
        else:
            ctx.fail(rule, label + " target", "an agent is put at %s, which is neither a link out of its location nor an end of its link" % T.show(v), e.where, witness(p))
            kind = "arr"
        place = v
        trav = TRUE if kind == "dep" else FALSE
        pend = (kind, e, flag_before, dist_before if kind else None)
        flag_before = dist_before = None
    if pend is not None:
        settle()
    ctx.ok(rule)
    return dep, arr


# ---- A03 ---------------------------------------------------------------------
def a03(ctx):
    MAXM, WALK = mksetting("move_rules", "MaxMoveSpeed"), mksetting("move_rules", "MaxWalkSpeed")
    for w in WORLDS:
        fn = ctx.method(w, "Person.finish_travel")
        ps = person_paths(ctx, w, "Person.finish_travel")
        place = mk("attr", SELF, "location", 0, ty="Place")
        islink = mk("islink", place, ty="bool")
        trav = mk("attr", SELF, "travelling", 0, ty="bool")
        dist0 = mk("attr", SELF, "distance_travelled_on_link", 0)
        day0 = mk("attr", SELF, "distance_moved_this_timestep", 0)
        n = narr = nagain = 0
        for p in ps:
            if p.exit in ("raise", "exit"):
                continue
            wr = [e for e in p.events if e.kind == "write" and e.base is SELF]
            dw = [e for e in wr if e.attr == "distance_travelled_on_link"]
            mw = [e for e in wr if e.attr == "distance_moved_this_timestep"]
            lw = [e for e in wr if e.attr == "location"]
            label = "%s (%s)" % (fn.qual, w)
            gs = [g for g in guards(p) if g.get(islink) is not False]     # a travelling agent is always on a link (A02)
            if not gs:
                continue
            if all(g.get(trav) is False for g in gs):
                ctx.check(not wr, "A03.idle", label, "an agent that is not travelling is moved along", wr[0].where if wr else "", witness(p))
                continue
            if p.cons.get(islink) is False:
                continue          # a travelling agent is always on a link (A02)
            n += 1
            if not (dw and mw):
                ctx.fail("A03.advance", label, "a travelling agent does not advance on its link and in its distance of the day", fn.where(fn.node), witness(p))
                continue
            S = T.sub(dw[0].value, dist0)
            S2 = T.sub(mw[0].value, day0)
            where = dw[0].where
            D = None
            arrived = bool(lw)
            for g in gs:
                for a in g:
                    if a.op == "lt0" and T.contains(a, dist0):
                        for x in T.walk(a):
                            if x.op == "attr" and x.args[0] is place and "distance" in x.args[1]:
                                D = x
                            elif x.op == "result" and "get_distance" in str(x.args[0]):
                                D = x
            if T.contains(S, dist0) or T.contains(S, day0):
                ctx.fail("A03.advance", label, "progress on the link is set to %s instead of growing by a speed" % T.show(dw[0].value), where, witness(p))
                continue
            # both counters must have grown by the same speed before the end of the link is considered
            firstday = mw[0].value
            if D is not None and A.same(T.sub(mw[-1].value, day0), T.add_num(S, T.sub(D, T.add_num(dist0, S)))) and len(mw) == 1:
                S2 = S      # both steps folded into one assignment
            ctx.check(S is S2 or A.same(S, S2), "A03.advance", label + " day", "the link progress grows by %s but the distance of the day by %s" % (T.show(S), T.show(S2)), mw[0].where, witness(p))
            # which speed
            s = T.strip(S)
            first = mk("eq", *sorted([mk("attr", SELF, "places_travelled", 0), const(1)], key=lambda t: t.id), ty="bool")
            onfoot = mksetting("move_rules", "StartOnFoot")
            att = mk("attr", place, "attributes", 0)
            normal = T.fcall(".get", att, const("max_move_speed"), MAXM)
            for g in gs:
                c1 = None
                if g.get(first) is True and g.get(onfoot) is True:
                    c1 = True
                elif g.get(first) is False or g.get(onfoot) is False:
                    c1 = False
                c2 = None
                for a, v in g.items():
                    if a.op == "lt0" and any(x.op == "result" and "random" in str(x.args[0]) for x in T.walk(a)):
                        prob = [x for x in T.walk(a) if x.op == "call" and x.args[0] == ".get" and x.args[1][0] is att and x.args[1][1] is const("walk_probability")]
                        rnd = [x for x in T.walk(a) if x.op == "result" and str(x.args[0]) in ("random.random",)]
                        if prob and rnd:
                            dflt = prob[0].args[1][2] if len(prob[0].args[1]) > 2 else None
                            ctx.check(dflt is not None and dflt.op == "const" and float(dflt.args[0] or 0) == 0.0, "A03.speed", label + " default walking", "links without a walking probability make agents walk", where)
                            r = A.known_lt({T.strip(a): v}, rnd[0], T.strip(prob[0]))
                            if r is not None:
                                c2 = r
                if s is WALK:
                    ok = c1 is True or c2 is True
                    why = "walking speed is used although neither the first trip on foot nor the link's walking probability asks for it"
                elif s is normal:
                    ok = c1 is False and c2 is False
                    why = "normal speed is used although the agent should walk"
                else:
                    ok, why = False, "the speed of the day is %s" % T.show(S)
                if not ctx.check(ok, "A03.speed", label, why, where, ["when %s is %s" % (T.show(k), v) for k, v in g.items()]):
                    break
            if D is None:
                ctx.fail("A03.arrival", label, "the progress is never compared with the length of the link", where, witness(p))
                continue
            prog = T.add_num(dist0, S)
            passed = [A.known_lt(strip_cons(g), T.strip(D), T.strip(prog)) for g in gs]
            ctx.check(all(x is arrived for x in passed), "A03.arrival", label,
                      "an agent %s although its progress %s the end of the link" % ("arrives" if arrived else "stays on the link", {True: "is past", False: "is not past", None: "may or may not be past"}[passed[0]]), where, witness(p))
            pt = [e for e in wr if e.attr == "places_travelled"]
            dt = [e for e in wr if e.attr == "distance_travelled"]
            if not arrived:
                ctx.check(A.same(mw[-1].value, T.add_num(day0, S)), "A03.day", label + " underway", "the distance of the day of an agent underway is %s" % T.show(mw[-1].value), mw[-1].where, witness(p))
                ctx.check(not pt and not dt, "A03.trip", label + " underway", "a trip is counted before it has ended", where, witness(p))
                ctx.check(dw[-1].value is dw[0].value, "A03.advance", label + " underway", "progress on the link is lost", where, witness(p))
                continue
            narr += 1
            left = T.sub(T.add_num(day0, D), dist0)
            ctx.check(A.same(T.strip(mw[-1].value), T.strip(left)), "A03.day", label + " arrival",
                      "after arriving the distance of the day is %s, not what was really covered" % T.show(mw[-1].value), mw[-1].where, witness(p))
            ctx.check(len(pt) == 1 and _delta(SELF, "places_travelled", pt[-1].value) == 1, "A03.trip", label + " count", "an arrival is counted %d times" % len(pt), where, witness(p))
            log = mksetting("log_levels", "agent")
            lg = {A.known_lt(g, const(0), log) for g in gs}
            if dt:
                c, it = T._lin(dt[-1].value)
                dl = mk("attr", SELF, "distance_travelled", 0)
                ctx.check(A.same(T.sub(dt[-1].value, dl), D), "A03.lifetime", label, "the lifetime distance grows by %s" % T.show(T.sub(dt[-1].value, dl)), dt[-1].where, witness(p))
                ctx.check(lg == {True}, "A03.lifetime", label + " logged", "the lifetime distance is written although it may not exist at this log level", dt[-1].where, witness(p))
            else:
                ctx.check(lg == {False}, "A03.lifetime", label + " missing", "the length of the link is not added to the lifetime distance", where, witness(p))
            closed = mk("attr", place, "closed", 0, ty="bool")
            again = any(e.kind == "call" and e.fn is not None and e.fn.name in ("calculateMoveChance", "selectRoute") for e in p.events)
            rec = any(e.kind == "call" and e.fn is not None and e.fn.name == "finish_travel" for e in p.events)
            for g in gs:
                more = A.known_lt(strip_cons(g), T.strip(left), T.strip(S))
                op = g.get(closed) is False
                if again or rec:
                    if not ctx.check(more is True and op, "A03.again", label, "an agent gets to move again %s" % ("after turning back from a closed link" if not op else "although its day's distance is used up"), where, witness(p)):
                        break
                    nagain += 1
                elif op:
                    if not ctx.check(more is False, "A03.again", label + " denied", "an agent with distance left does not get to move again", where, witness(p)):
                        break
            if again or rec:
                ctx.check(rec, "A03.again", label + " continue", "a second move of the day is decided but not travelled", where, witness(p))
                ctx.check(again, "A03.again", label + " decide", "an agent travels on without deciding again", where, witness(p))
        ctx.need("travel paths (%s)" % w, n, 4)
        ctx.need("arrival paths (%s)" % w, narr, 3)
        ctx.need("second moves (%s)" % w, nagain, 1)
        # setting off leaves the day's distance alone
        fn = ctx.method(w, "Person.evolve")
        for p in person_paths(ctx, w, "Person.evolve"):
            for e in p.events:
                if e.kind == "write" and e.base is SELF and e.attr in ("distance_moved_this_timestep", "places_travelled", "distance_travelled", "timesteps_since_departure"):
                    ctx.fail("A03.decide", fn.qual + " " + e.attr, "deciding to move changes the travel record", e.where)
            ctx.ok("A03.decide")
        fn = ctx.method(w, "Ecosystem.evolve")
        ctx.paths(w, fn, stop=EVSTOP)
        fn = ctx.method(w, "Person.__init__")
        for p in ctx.paths(w, fn, args={"location": mk("sym", "location", ty="Location"), "e": mk("sym", "e", ty="Ecosystem")}):
            last = {e.attr: e for e in p.events if e.kind == "write" and e.base is SELF}
            for a, v in (("places_travelled", 1), ("distance_moved_this_timestep", 0), ("timesteps_since_departure", 0)):
                ctx.check(a in last and last[a].value.op == "const" and last[a].value.args[0] == v, "A03.initial", fn.qual + " " + a,
                          "a new agent starts with %s = %s" % (a, T.show(last[a].value) if a in last else "nothing"), fn.where(fn.node))
    writers_covered(ctx, "A03.writers", {"places_travelled", "distance_moved_this_timestep", "distance_travelled"})


def strip_cons(g):
    return {T.strip(k) if k.op == "lt0" else k: v for k, v in g.items()}


# ---- A04 ---------------------------------------------------------------------
def is_person_loc(t):
    return t is not None and t.op == "attr" and t.args[1] == "location" and t.args[0].ty == "Person"


def unguarded(st_cons_list, t):
    """the place may be missing: not known to be set, and the agent not known to be travelling"""
    n = mk("none", t, ty="bool")
    tr = mk("attr", t.args[0], "travelling", 0, ty="bool")
    for g in st_cons_list:
        if g.get(n) is False or g.get(tr) is True:
            continue
        return True
    return False


def state_guards(st):
    return st.guards()


def deref_hook(found, ignore_self=True):
    def hook(it, st, ctx, base, name, node):
        if is_person_loc(base) and not (ignore_self and base.args[0].op == "sym"):
            found.setdefault((ctx.fn.qual, ctx.fn.where(node)), []).append((unguarded(state_guards(st), base), T.show(base), name))
    return hook


def a04(ctx):
    for w in WORLDS:
        # do the agent's own operations cope with a missing place?
        selfsafe = {}
        for ref in MOVERS:
            fn = ctx.method(w, ref)
            found = {}
            bad = []

            def call(it, st, c, name, recv, args, kw, node, res):
                if name.split(".")[-1] in PLAN:
                    loc = mk("attr", SELF, "location", 0, ty="Place")
                    if (SELF, "location") not in st.heap and unguarded(st.guards(), loc):
                        bad.append(node)

            def read(it, st, c, base, name, node):
                if is_person_loc(base) and base.args[0] is SELF and unguarded(st.guards(), base):
                    bad.append(node)
            ctx.paths(w, fn, stop=PLAN, on_read=read, on_call=call)
            selfsafe[ref.split(".")[1]] = not bad
        fn = ctx.method(w, "Ecosystem.evolve")
        found, calls = {}, []

        def on_call(it, st, c, name, recv, args, kw, node, res):
            nm = name.split(".")[-1]
            who = [x for x in ([recv] if recv is not None else []) + list(args) + list(kw.values()) if isinstance(x, T.Term) and x.ty == "Person" and x.op != "sym"]
            if nm in ("evolve", "finish_travel") and who:
                t = mk("attr", who[0], "location", 0, ty="Place")
                calls.append((nm, not unguarded(st.guards(), t), c.fn.where(node)))
            elif who and nm not in ("append",) and res is not None:
                t = mk("attr", who[0], "location", 0, ty="Place")
                calls.append(("?" + nm, not unguarded(st.guards(), t), c.fn.where(node)))
            if nm.startswith(("random", "choice", "uniform", "rand")) and "random" in name:
                calls.append(("draw", st, c.fn.where(node)))
        ps = ctx.paths(w, fn, stop=EVSTOP, on_read=deref_hook(found), on_call=on_call)
        for nm, safe, where in calls:
            if nm == "draw":
                # some agent's place is known at this point and it is set
                ok = all(any(a.op == "none" and is_person_loc(a.args[0]) and v is False for a, v in g.items()) or
                         not any(is_person_loc(x) for a in g for x in T.walk(a)) for g in safe.guards())
                ctx.check(ok, "A04.draw", "%s (%s)" % (fn.qual, w), "a random number is drawn for a deactivated agent", where)
            else:
                ctx.check(safe or selfsafe.get(nm, False), "A04.inert", "%s (%s) %s" % (fn.qual, w, nm), "%s is done for agents that may have been deactivated" % nm.strip("?"), where)
        ctx.need("agent operations in a step (%s)" % w, len([c for c in calls if c[0] in ("evolve", "finish_travel")]), 2)
        report_derefs(ctx, w, fn, found)
        fn = ctx.method(w, "Ecosystem.clearLocationsFromAgents")
        found = {}
        ctx.paths(w, fn, stop={"updateNumAgents"}, on_read=deref_hook(found))
        ctx.need("agent places read while clearing (%s)" % w, len(found))
        report_derefs(ctx, w, fn, found)
        # deactivation changes no headcount
        fn = ctx.method(w, "Ecosystem.evolve")
        for lp, q, cons in inner_paths(ctx.paths(w, fn, stop=EVSTOP)):
            gone = [e for e in q.events if e.kind == "write" and e.attr == "location" and e.value is NONE]
            hc = [e for e in q.events if e.kind == "write" and e.attr in ("numAgents", "numAgentsOnRank")]
            if gone:
                ctx.check(not hc, "A04.count", "%s (%s)" % (fn.qual, w), "deactivating an agent changes a headcount", gone[0].where)
    for name, world in (("write_agents", "serial"), ("write_agents_par", "parallel")):
        fn = ctx.prog.func("flee.Diagnostics", name)
        found = {}
        rows = []
        ps = ctx.paths(world, fn, keep_prints=True, on_read=deref_hook(found), field_types={("Person", "location"): "Place"})
        report_derefs(ctx, world, fn, found)
        for lp, q, cons in inner_paths(ps):
            el = lp.elem if lp.elem.op == "elem" else mk("elem", lp.elem.args[0], lp.elem.args[1]) if lp.elem.op == "index" else lp.elem
            if el.ty != "Person":
                continue
            out = [e for e in q.events if e.kind == "call" and e.name in (".write", "print", ".writerow", ".writelines") or e.kind == "call" and "write" in e.name]
            t = mk("attr", el, "location", 0, ty="Place")
            for e in out:
                rows.append(e)
                ctx.check(not unguarded([{**cons, **g} for g in guards(q)], t), "A04.log", fn.qual, "a deactivated agent is written to the log", e.where, witness(q))
        ctx.need("agent log rows in " + name, len(rows))
        ctx.need("agent places read in " + name, len(found))


def report_derefs(ctx, w, fn, found):
    for (q, where), lst in sorted(found.items()):
        bad = [x for x in lst if x[0]]
        ctx.check(not bad, "A04.place", "%s (%s) .%s" % (q, w, lst[0][2]), "the place of an agent is used although the agent may have been deactivated", where)


# ---- A05 ---------------------------------------------------------------------
def a05(ctx):
    fn = ctx.func("flee.moving:getCapMultiplier")
    ps = ctx.paths("serial", fn, args={fn.params[0]: mk("sym", "location", ty="Location")})
    L = mk("sym", "location", ty="Location")
    cap = T.mul(mk("attr", L, "capacity", 0), mksetting("move_rules", "CapacityScaling"))
    buf = mksetting("move_rules", "CapacityBuffer")
    n = mk("attr", L, "numAgents", 0, ty="int")
    kinds = set()
    for p in ps:
        if p.exit != "return":
            continue
        v = T.strip(p.value)
        for g in guards(p):
            g = {T.strip(k): b for k, b in g.items()}
            small = A.known_lt(g, cap, const(1))
            roomy = A.known_le(g, n, T.mul(buf, cap))
            full = A.known_le(g, cap, n)
            label = fn.qual
            where = fn.where(fn.node)
            if v.op == "const" and float(v.args[0]) == 1.0:
                kinds.add("free")
                if not ctx.check(small is True or roomy is True, "A05.factor", label + " 1", "no reduction although the camp may be above the buffer", where, witness(p)):
                    break
            elif v.op == "const" and float(v.args[0]) == 0.0:
                kinds.add("full")
                if not ctx.check(full is True and small is False, "A05.factor", label + " 0", "a camp that may still have room counts as full", where, witness(p)):
                    break
            else:
                kinds.add("between")
                want = T.div(T.sub(cap, n), T.sub(cap, T.mul(buf, cap)))
                if not ctx.check(A.same(v, want), "A05.factor", label + " slope", "between buffer and capacity the factor is %s" % T.show(p.value), where, witness(p)):
                    break
                if not ctx.check(small is False and roomy is False and full is False, "A05.factor", label + " range", "the falling factor is used outside the range between buffer and capacity", where, witness(p)):
                    break
    ctx.check(kinds == {"free", "full", "between"}, "A05.factor", fn.qual + " cases", "the factor only has the cases %s" % sorted(kinds), fn.where(fn.node))
    for w in WORLDS:
        nd = nb = 0
        fn = ctx.method(w, "Person.evolve")
        for p in person_paths(ctx, w, "Person.evolve"):
            if p.exit in ("raise", "exit"):
                continue
            dep = [e for e in p.events if e.kind == "write" and e.attr == "location" and e.base is SELF]
            matched = None
            label = "%s (%s)" % (fn.qual, w)
            for g in guards(p):
                link = None
                for a, v in g.items():
                    if a.op == "eq" and v:
                        for x, y in (a.args, a.args[::-1]):
                            if is_attr(x, "name") and is_attr(x.args[0], "endpoint") and y.op == "idx" and y.args[1] is const(0):
                                link, route = x.args[0].args[0], y.args[0]
                if link is None:
                    continue
                # the destination: the location whose name is the last waypoint
                full, why = dest_full(g, route)
                if dep:
                    nd += 1
                    if not ctx.check(full is False, "A05.turn", label + " departs", "an agent sets off %s" % ("for a full camp" if full else "without its final destination's room being checked"), dep[0].where, witness(p)):
                        break
                elif p.exit == "return":
                    nb += 1
                    if not ctx.check(full is True, "A05.turn", label + " stays", "an agent with an open link to its next waypoint does not set off although its destination is not a full camp", fn.where(fn.node), witness(p)):
                        break
                    rw = [e for e in p.events if e.kind == "write" and e.attr == "route" and e.base is SELF]
                    emp = rw and empty_list(p, rw[-1].value) or any(e.kind == "mutate" and e.method == "clear" for e in p.events)
                    ctx.check(emp, "A05.turn", label + " route", "an agent turned away keeps its route", fn.where(fn.node), witness(p))
        ctx.need("departures checked (%s)" % w, nd)
        ctx.need("agents turned away (%s)" % w, nb)


def empty_list(p, v):
    if v.op == "list" and not v.args:
        return True
    c = p.state.heap.get((v, "$items"))
    return c is not None and c.op == "list" and not c.args


def dest_full(g, route):
    """-> (True/False/None): is the route's last place a camp with less than half its share"""
    last = [mk("idx", route, const(-1))]
    cands = set()
    for a, v in g.items():
        if a.op == "eq" and v and any(x in last for x in a.args):
            o = a.args[0] if a.args[1] in last else a.args[1]
            if o.op == "elem" and is_attr(o.args[0], "locationNames"):
                es = o.args[0].args[0]
                for b in g:
                    for x in T.walk(b):
                        if x.op in ("elem", "idx") and is_attr(x.args[0], "locations") and T_same_pos(x, o):
                            cands.add(x)
            elif is_attr(o, "name"):
                cands.add(o.args[0])
    for a in g:
        for x in T.walk(a):
            if x.op == "idx" and is_attr(x.args[0], "locations") and any(y in last for y in T.walk(x.args[1])):
                cands.add(x)
    if not cands:
        return None, "no destination"
    for D in cands:
        camp = g.get(mk("attr", D, "camp", 0))
        if camp is False:
            return False, ""
        for a, v in g.items():
            if a.op == "lt0":
                r = [x for x in T.walk(a) if x.op == "result" and "getCapMultiplier" in str(x.args[0]) and D in x.args[2]]
                if r:
                    lt = A.known_lt({a: v}, r[0], const(0.5))
                    if lt is False:
                        return False, ""
                    if lt is True and camp is True:
                        return True, ""
    return None, ""


def T_same_pos(x, o):
    if x.op == "elem":
        return x.args[1] == o.args[1]
    k = x.args[1]
    return k.op == "index" and k.args[1] == o.args[1]


# ---- E02 ---------------------------------------------------------------------
def e02(ctx):
    on = mksetting("spawn_rules", "camps_are_sinks")
    for w in WORLDS:
        fn = ctx.method(w, "Ecosystem.evolve")
        n = 0
        for p in ctx.paths(w, fn, stop=EVSTOP):
            for o in flatten(p):
                e = o.ev
                if e.kind != "write" or e.attr != "location" or e.value is not NONE:
                    continue
                n += 1
                el = e.base
                loc = mk("attr", el, "location", 0, ty="Place")
                label = "%s (%s)" % (fn.qual, w)
                outer = o.cons
                for g0 in (o.path.alts or [o.path.cons]):
                    g = dict(outer)
                    g.update(g0)
                    ctx.check(any(outer_on(k, v, on) for k, v in g.items()), "E02.setting", label, "agents are deactivated although camps need not be sinks", e.where, witness(o.path))
                    ctx.check(g.get(mk("attr", el, "travelling", 0, ty="bool")) is False, "E02.staying", label, "an agent may be deactivated while travelling", e.where, witness(o.path))
                    ctx.check(g.get(mk("attr", loc, "camp", 0)) is True, "E02.camp", label, "an agent may be deactivated outside a camp", e.where, witness(o.path))
                    draw = False
                    for a, v in g.items():
                        if a.op != "lt0":
                            continue
                        rnd = [x for x in T.walk(a) if x.op == "result" and str(x.args[0]) == "random.random"]
                        get = [x for x in T.walk(a) if x.op == "call" and x.args[0] == ".get" and x.args[1][0] is mk("attr", loc, "attributes", 0)]
                        if rnd and get and get[0].args[1][1] is const("deactivation_probability"):
                            draw = A.known_lt({T.strip(a): v}, rnd[0], T.strip(get[0]))
                            num = T.contains(a, T.fcall("float", get[0]))
                            ctx.check(num, "E02.number", label, "the deactivation probability from the locations file is compared as text", e.where)
                            d = get[0].args[1][2] if len(get[0].args[1]) > 2 else NONE
                            ctx.check(d.op == "const" and d.args[0] is not None and float(d.args[0]) == 0.0, "E02.default", label, "camps without a deactivation probability deactivate agents", e.where)
                            # the draw belongs to this agent: drawn in the same pass of the loop
                            fresh = any(x.kind == "call" and x.result is rnd[0] for x in o.path.events)
                            ctx.check(fresh, "E02.fresh", label, "the same random draw decides for several agents", e.where)
                    ctx.check(draw is True, "E02.draw", label, "an agent is deactivated without a draw below the camp's probability", e.where, witness(o.path))
        ctx.need("deactivations (%s)" % w, n)
        # and they are deactivated when all conditions hold
        good = 0
        for p in ctx.paths(w, fn, stop=EVSTOP):
            for lp, q, cons in inner_paths([p]):
                if any(k.op == "lt0" and any(x is const("deactivation_probability") for x in T.walk(k)) for k in q.cons):
                    good += 1
        ctx.need("deactivation decisions (%s)" % w, good, 2)
    from .settings import key_of
    key_of(ctx, "E02.key", "camps_are_sinks", "camps_are_sinks", "spawn_rules")


def outer_on(k, v, on):
    return v is True and (k is on or k.op == "eq" and on in k.args and const(1) in k.args)


RULES = {"A01": a01, "A02": a02, "A03": a03, "A04": a04, "A05": a05, "E02": e02}
EXPLAIN = {
    "A01": "Every path of deciding, travelling, creating, spawning, clearing, closing and synchronising is enumerated with helpers inlined; the net change of every place's headcount on a path must equal the net of the agent's changes of place on it. Every store to a headcount in the package must lie in a function walked this way.",
    "A02": "Typestate of an agent's place over every path of deciding and travelling (second moves included): each placement must be a departure onto a matching open link of the current location or an arrival at the right end of the link, with flag and progress set accordingly.",
    "A03": "Value numbering of the travel counters on every path of a day's travel: the terms left in the counters are compared with the accounting identity, the branch atoms with the conditions for walking, arriving and moving again.",
    "A04": "Every read through an agent's place (and every operation invoked for an agent) in the step, clearing and agent logs must be dominated on its path by the knowledge that the agent has a place or is travelling.",
    "A05": "All cases of the capacity factor are enumerated with their guards and compared with the documented shape; every departure path must know its final destination not to be a full camp and every path that turns away must know it is.",
    "E02": "Every store that deactivates an agent is found; its path must carry the setting, staying, camp and probability guards with a draw made for this agent.",
}
