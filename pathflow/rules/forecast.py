"""F01: what the flood forecast does to scores and move chances"""
import itertools
from ..report import *          # noqa
from .. import replay as R
from .inputs import known, attempt
from .routing import is_setting, is_sym, attr_of, result_of

WORLDS = ("serial", "parallel")
LOCW = [1.0, 0.5, 0.25]
DAYW = [0.95, 0.8, 0.75, 0.6, 0.5, 0.4, 0.3, 0.2, 0.1, 0.05, 0.02, 0.01]
CHANCE = [1.0, 0.9, 0.7]
AWARE = [0.2, 0.6, 1.0]
DRY = [0] * 12
WET = [2, 0, 1, 2, 0, 1, 0, 2, 1, 1, 0, 2]
LATE = [0, 0, 0, 0, 0, 0, 1, 2, 1, 0, 0, 0]
OFF = ("ChildrenAvoidHazards", "BoysTakeRisk", "StayCloseToHome", "MatchCampEthnicity", "MatchConflictEthnicity", "MatchTownEthnicity", "UsePopForLocWeight", "FixedRoutes")


def average(levels, time, scale, end):
    """the weighted flood level of the coming days, up to the end of the forecast"""
    total = 0.0
    for day in range(time + 1, time + scale + 1):
        day = min(day, end)
        if levels[day] > 0:
            total += LOCW[levels[day]] * DAYW[day]
        if day == end:
            break
    return total / scale


def cells():
    for time, scale, end, levels, aware in itertools.product((0, 2, 5, 6, 7, 8), (2, 3, 5), (4, 7, 9), (DRY, WET, LATE), (0, 1, 2)):
        if time > end + 2 or aware != 1 and levels is not WET:
            continue
        yield time, scale, end, levels, aware


def place(at, levels, now):
    return [(attr_of(at, "attributes"), {"flood_level": now, "forecast_flood_levels": list(levels)}), (attr_of(at, "town"), True), (attr_of(at, "movechance"), 0.3), (attr_of(at, "pop"), 10.0), (attr_of(at, "capacity"), 10.0),
            (attr_of(at, "camp"), False), (attr_of(at, "idpcamp"), False), (attr_of(at, "conflict"), 0.0), (attr_of(at, "foreign"), False), (attr_of(at, "flood_zone"), True)]


def rules(rules_on, on, scale, end):
    return [(is_setting("FloodRulesEnabled"), rules_on), (is_setting("FloodForecaster"), on), (is_setting("FloodForecasterTimescale"), scale), (is_setting("FloodForecasterEndTime"), end),
            (is_setting("FloodAwarenessWeights"), AWARE), (is_setting("FloodLocWeights"), LOCW), (is_setting("FloodMovechances"), CHANCE), (is_setting("FloodForecasterWeights"), DAYW),
            (is_setting("MovechancePopBase"), 10.0), (is_setting("MovechancePopScaleFactor"), 0.5)] + [(is_setting(k), False) for k in OFF]


CALLS = {".get": lambda d, k, *x: d.get(k, *x)}


def f01(ctx):
    for w in WORLDS:
        for name, at, who, stop in (("flee.moving:calculateMoveChance", attr_of(is_sym("a"), "location"), is_sym("a"), set()),
                                    ("flee.moving:getEndPointScore", is_sym("endpoint"), is_sym("agent"), {"calculateDistance", "getScore"}),
                                    ("flee.scoring:updateLocationScore", is_sym("loc"), None, {"generateLocationRoutes"})):
            one(ctx, w, name, at, who, stop)


def one(ctx, w, name, at, who, stop):
    fn = ctx.func(name)
    ps = [p for p in ctx.paths(w, fn, stop=stop, max_alts=2000) if p.exit not in ("raise", "exit")]
    slot = None
    if who is None:
        from .conflict import slot as slot_of, same_slot, stored
        loc = mk("sym", fn.params[-1], ty="Location")

    def run(env):
        b = R.Bind(known(env), calls=CALLS)
        p, b = R.the_way(ps, b, fn.qual)
        if who is not None:
            return float(R.value(p.value, p, b))
        v = stored(ctx, w, p, loc)
        if v is None:
            raise R.Unknown("the score stored")
        return float(R.value(v, p, b))

    def expect(what, env, want, rule, kind):
        got = attempt(ctx, "F01", "%s (%s)" % (fn.qual, kind), lambda: run(env))
        if got is None:
            return 0
        ctx.check(abs(got - want) <= 1e-9, rule, "%s %s" % (fn.qual, kind), "%s the result is %.6g instead of %.6g (%s)" % (what, got, want, w), fn.where())
        return 1
    n = 0
    for time, scale, end, levels, aware in cells():
        for now in ((0, 2) if scale == 3 else (0,)):
            for on, rules_on in ((True, True), (False, True)) + (((True, False),) if who is not None else ()):
                if not (on and rules_on) and (aware != 1 or scale != 3):
                    continue
                env = [(is_sym("time"), time), (is_sym("ForceTownMove"), False), (result_of("getScore"), 2.0)] + place(at, levels, now) + rules(rules_on, on, scale, end)
                if who is not None:
                    env.append((attr_of(who, "attributes"), {"floodawareness": str(aware)}))
                if name.endswith("calculateMoveChance"):
                    base = CHANCE[now] if rules_on and now else 0.3
                elif who is not None:
                    base = 2.0 * (LOCW[now] if rules_on and now else 1.0)
                else:
                    base = LOCW[now]
                active = on and rules_on and time <= end
                if active:
                    base *= average(levels, time, scale, end) * (AWARE[aware] if who is not None else 1.0)
                what = "on day %d, with a forecast of %d days up to day %d of the levels %s%s" % (time, scale, end, levels, " and awareness %d" % aware if who is not None else "")
                kind = "off" if not (on and rules_on) else "past the forecast" if not active else "dry" if not any(levels) else "wet"
                n += expect(what, env, base, "F01.factor" if active else "F01.off", kind)
    for missing in ("FloodForecasterTimescale", "FloodForecasterEndTime"):
        env = [(is_setting(missing), None), (is_sym("time"), 2), (is_sym("ForceTownMove"), False), (result_of("getScore"), 2.0)] + place(at, WET, 0) + rules(True, True, 3, 7)
        if who is not None:
            env.append((attr_of(who, "attributes"), {"floodawareness": "1"}))
        n += expect("without %s" % missing, env, 0.3 if name.endswith("calculateMoveChance") else 2.0 if who is not None else 1.0, "F01.off", "incomplete")
    ctx.need("values with a forecast in %s (%s)" % (fn.qual, w), n, 100)


RULES = {"F01": f01}
EXPLAIN = {"F01": "the paths of the move chance, the endpoint score and the location score with the flood forecast followed day by day, evaluated over a grid of days, timescales, ends, level series and awareness groups"}
