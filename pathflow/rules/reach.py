"""S03: how far an agent gets in one day"""
import itertools
from ..report import *          # noqa
from .. import replay as R
from .inputs import known, own, attempt
from .routing import is_setting, is_sym
from .step import STOP, last

WORLDS = ("serial", "parallel")
DAY = "distance_moved_this_timestep"
MAXSPEED, WALK = 360.0, 35.0


def speed(link, first, foot, lucky):
    if first and foot or lucky and link.get("walk_probability"):
        return WALK
    return float(link.get("max_move_speed", MAXSPEED))


def leg(ctx, fn, ps, w, moved, done, length, link, first, foot, lucky, closed):
    """the distance of the day after one leg"""
    place = R.Rec("link", attributes=dict(link), closed=closed, length=length, _Link__distance=length, distance=length, startpoint=R.Rec("start", camp=False), endpoint=R.Rec("end", camp=False))
    env = [(own("location"), place), (own("travelling"), True), (own("places_travelled"), 1 if first else 3), (own("distance_travelled_on_link"), done), (own(DAY), moved), (own("recent_travel_distance"), 0.0), (own("distance_travelled"), 0.0),
           (is_setting("MaxMoveSpeed"), MAXSPEED), (is_setting("MaxWalkSpeed"), WALK), (is_setting("StartOnFoot"), foot), (is_setting("AvoidShortStints"), False), (is_setting("agent"), 0), (is_setting("camp"), 0),
           (lambda t: t.op == "islink" and is_attr(t.args[0], "location"), True)]

    def run():
        b = R.Bind(known(env), calls={"random.random": lambda: 0.25 if lucky else 0.9, "get_distance": lambda *a: length})
        p, b = R.the_way(ps, b, fn.qual)
        out = moved
        for e, q, bb in R.replay(p, b, only=lambda e: e.kind == "write" and e.attr == DAY and is_sym("self")(e.base)):
            out = R.value(e.value, q, bb)
        return float(out)
    return attempt(ctx, "S03", "%s (%s)" % (fn.qual, w), run)


def s03(ctx):
    for w in WORLDS:
        fn = ctx.method(w, "Person.finish_travel")
        ps = [p for p in ctx.paths(w, fn, stop={"evolve", "get_distance", "handle_travel"}) if p.exit not in ("raise", "exit")]
        n = 0
        for moved, done, length, link, first, foot, lucky, closed in itertools.product((0.0, 20.0, 350.0), (0.0, 30.0, 150.0), (8.0, 160.0, 365.0, 2000.0), ({}, {"max_move_speed": "120"}, {"walk_probability": "0.5"}),
                                                                                      (False, True), (False, True), (False, True), (False, True)):
            if done > length:
                continue
            limit = speed(link, first, foot, lucky)
            x = leg(ctx, fn, ps, w, moved, done, length, link, first, foot, lucky, closed)
            if x is None:
                continue
            n += 1
            what = "with %g km covered today, %g of %g km of the link done and a speed of %g" % (moved, done, length, limit)
            if moved == 0:
                ctx.check(x <= limit + 1e-6, "S03.leg", fn.qual, "%s (%s) the distance of the day becomes %g" % (what, w, x), fn.where())
            else:
                ctx.check(x <= moved + limit + 1e-6, "S03.leg", fn.qual + " again", "%s (%s) the distance of the day becomes %g" % (what, w, x), fn.where())
                if moved < limit:
                    ctx.check(x <= limit + 1e-6, "S03.again", fn.cls.mro()[-1].find(fn.name).qual if fn.cls.mro()[-1].find(fn.name) else fn.qual, "an agent that moves on after arriving gets a whole day's travel once more: %s the distance of the day becomes %g" % (what, x), fn.where())
            ctx.check(x - moved <= length - done + 1e-6, "S03.beyond", fn.qual, "%s (%s) %g km are counted as covered" % (what, w, x - moved), fn.where())
            ctx.check(x >= moved - 1e-6, "S03.back", fn.qual, "%s (%s) the distance of the day shrinks to %g" % (what, w, x), fn.where())
        ctx.need("legs of travel (%s)" % w, n, 500)
        day(ctx, w)


def day(ctx, w):
    """one leg a day for each agent, counted from zero"""
    fn = ctx.method(w, "Ecosystem.evolve")
    k = 0
    for p in ctx.paths(w, fn, stop=STOP):
        if p.exit in ("raise", "exit"):
            continue
        trips, reset = [], None
        for i, e in enumerate(p.events):
            if e.kind != "loop":
                continue
            per = [sum(1 for o in flatten(q) if o.ev.kind == "call" and last(o.ev) == "finish_travel") for q in e.paths]
            if any(per):
                trips.append((i, max(per)))
            if any(o.ev.kind == "write" and o.ev.attr == DAY and T.strip(o.ev.value).op == "const" and T.strip(o.ev.value).args[0] == 0 for q in e.paths for o in flatten(q)):
                reset = i
        k += 1
        label = "%s (%s)" % (fn.qual, w)
        ctx.check(len(trips) == 1 and trips[0][1] == 1, "S03.once", label, "an agent travels %d times in one day" % sum(x for _, x in trips), fn.where(), witness(p))
        ctx.check(bool(trips) and reset is not None and reset > trips[-1][0], "S03.reset", label, "the distance of the day is not set back to zero before the next one", fn.where(), witness(p))
    ctx.need("days (%s)" % w, k, 1)


RULES = {"S03": s03}
EXPLAIN = {"S03": "the summary of a leg of travel is evaluated over grids of distances, links and speeds; one leg per agent and day in the summary of a time step"}
