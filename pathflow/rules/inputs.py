"""I01-I04: input files, links, attribute collections"""
import ast
from ..report import *          # noqa
from ..report import mk, T
from ..terms import NONE, const
from .. import replay as R
from .routing import is_setting, is_sym, result_of, last, arg

WORLDS = ("serial", "parallel")
IG = "InputGeography."
COLS = ["name", "region", "country", "gps_x", "gps_y", "location_type", "conflict_date", "pop/cap"]
LCOLS = ["name1", "name2", "distance", "forced_redirection"]


def known(tab):
    def f(t):
        for pred, v in tab:
            if pred(t):
                return v
        return R.MISSING
    return f


def own(name, of="self"):
    return lambda t: is_attr(t, name) and is_sym(of)(t.args[0])


def cls_paths(ctx, name, module="flee.InputGeography", **kw):
    c = ctx.prog.cls(module, "InputGeography")
    f = c.find(name)
    if f is None:
        raise AnalysisBroken("method vanished: InputGeography." + name)
    return f, ctx.paths("serial", f, **kw)


def one_way(ctx, rule, fn, ps, b, what):
    """the path taken for this input"""
    try:
        return R.the_way([p for p in ps], b, fn.qual)
    except R.Unknown as e:
        ctx.notes.append("%s: %s: %s" % (rule, what, e))
    return None


def attempt(ctx, rule, what, f):
    """a value, or None (noted) when the analysis does not follow the code"""
    try:
        return f()
    except R.Fails as e:
        ctx.fail(rule + ".fails", what, "%s fails: %s" % (what, e))
    except R.Unknown as e:
        ctx.notes.append("%s: %s is not understood: %s" % (rule, what, e))
    except R.Gone as e:
        ctx.notes.append("%s: %s ends with %s" % (rule, what, e))
    except (TypeError, ValueError, AttributeError, KeyError, IndexError) as e:
        ctx.notes.append("%s: %s: %s" % (rule, what, e))
    return None


# ---- I01 ---------------------------------------------------------------------
PLACES = [
    ["A", "R1", "X", "1.5", "-2.5", "conflict_zone", "0", "120"],
    ["B", "", "Y", "", "", "town", "0", ""],
    ["C", "R2", "", "3", "4", "camp", "0", "500", "7", "east"],
    ["D", "R2", "X", "0", "0.25", "idpcamp", "0", "99", "8", ""],
    ["E", "R3", "x", "1e2", "0", "Conflict_Zone", "12", "41"],
    ["F", "R1", "Y", "1", "1", "forwarding_hub", "0", "33"],
    ["G", "R1", "X", "1", "1", "marker", "0", "0"],
    ["H", "R4", "X", "5", "6", "flood_zone", "0", "1000", "1", "2"],
    ["I", "R4", "Z", "5", "6", "Camp", "0", ""],
    ["J", "S", "", "", "7", "town", "0", "8", "z"],
    ["K", "S", "X", "7", "", "conflict_zone", "1", "8"],
]
ROUTES = [["A", "B", "C"], ["D", "B", "", "A"], ["X1", "A", "X2"], ["C", "H"], ["E", "A", "F", "", ""], ["G", "A", "G"]]


def places(first):
    return [first] + [x for x in PLACES if x[0] != first[0]]


def expected(rows, scale):
    home = rows[0][2] or "unknown"
    out = {}
    for r in rows:
        people = int(r[7]) // scale if r[7] else 0
        camp = "camp" in r[5].lower()
        kind = "town" if "conflict" in r[5].lower() and int(r[6]) > 0 else r[5]
        out[r[0]] = {"name": r[0], "region": r[1] or "unknown", "x": float(r[3] or 0), "y": float(r[4] or 0), "location_type": kind, "country": r[2] or "unknown",
                     "foreign": (r[2] or "unknown") != home, "pop": None if camp else people, "capacity": people if camp else None,
                     "attributes": {(COLS + ["height", "side"])[i]: r[i] for i in range(8, len(r))}}
    return out


def i01(ctx):
    fn, ps = cls_paths(ctx, "StoreInputGeographyInEcosystem", stop={"addLocation", "linkUp", "ReadLocationChangesFromCSV"}, max_alts=2000)
    n = 0
    for first in (PLACES[0], PLACES[2], PLACES[1]):
        for scale in (1, 3):
            rows = places(first)
            tab = [(own("locations"), rows), (own("columns"), COLS + ["height", "side"]), (own("major_routes"), [list(x) for x in ROUTES]), (own("links"), []), (own("link_columns"), list(LCOLS)),
                   (own("closures"), [["country", "X", "Y", "3", "17"], ["links", "A", "B", "0", "-1"]]), (own("conflicts"), {}), (is_setting("PopulationScaleDownFactor"), scale)]
            b = R.Bind(known(tab))
            w = one_way(ctx, "I01", fn, ps, b, "storing locations")
            if w is None:
                continue
            p, b = w
            n += stored(ctx, fn, p, b, rows, scale)
    ctx.need("rows stored", n, 20)
    micro(ctx)
    classes(ctx)


def micro(ctx):
    """the micro model stores the same table, without attributes and major routes"""
    fn, ps = cls_paths(ctx, "StoreInputGeographyInEcosystem", "flee.micro_InputGeography", stop={"addLocation", "linkUp", "ReadLocationChangesFromCSV"}, max_alts=2000)
    n = 0
    for scale in (1, 3):
        rows = places(PLACES[0])
        tab = [(own("locations"), rows), (own("columns"), COLS + ["height", "side"]), (own("major_routes"), []), (own("links"), []), (own("link_columns"), list(LCOLS)),
               (own("closures"), [["country", "X", "Y", "3", "17"], ["links", "A", "B", "0", "-1"]]), (own("conflicts"), {}), (is_setting("PopulationScaleDownFactor"), scale)]
        w = one_way(ctx, "I01", fn, ps, R.Bind(known(tab)), "storing locations of the micro model")
        if w is not None:
            n += stored(ctx, fn, w[0], w[1], rows, scale, ("foreign", "attributes", "$routes"))
    ctx.need("rows stored by the micro model", n, 10)


def defaults(fn, d):
    return {k: v for k, v in d.items()}


def stored(ctx, fn, p, b, rows, scale, less=()):
    want = {k: {f: x for f, x in v.items() if f not in less} for k, v in expected(rows, scale).items()}
    evs = attempt(ctx, "I01", "storing locations", lambda: list(R.replay(p, b, only=lambda e: e.kind == "call" and last(e) == "addLocation" or e.kind == "mutate" and is_attr(e.base, "major_routes") or e.kind == "badcall")))
    if evs is None:
        return 0
    made = {}
    by_result = {}
    n = 0
    for e, q, bb in evs:
        if e.kind == "badcall":
            continue
        if e.kind == "call":
            got = {}
            for k, v in e.args:
                x = attempt(ctx, "I01", "argument %s of addLocation" % k, lambda: (R.value(v, q, bb),))
                if x is not None and not isinstance(x[0], R.Obj):
                    got[k] = x[0]
            nm = got.get("name", got.get("#0"))
            if nm is None:
                ctx.notes.append("I01: the name of a location is not understood")
                continue
            n += 1
            ctx.check(nm not in made, "I01.once", fn.qual, "the row of %s becomes a location twice" % nm, e.where)
            made[nm] = got
            by_result[(e.result, bb.stamp(e.result))] = nm
            ctx.check(nm in want, "I01.fields", fn.qual + " name", "a location is named %r" % (nm,), e.where, witness(q))
            if nm not in want:
                continue
            row = next(r for r in rows if r[0] == nm)
            for k, v in want[nm].items():
                if k not in got:
                    if any(kk == k for kk, _ in e.args) or v is None:
                        continue
                    ctx.fail("I01.fields", "%s %s" % (fn.qual, k), "the %s of row %s is not handed to the location" % (k, row), e.where, witness(q))
                    continue
                x = got[k]
                if v is None:
                    ok = x is None or x <= 0
                else:
                    ok = x == v and isinstance(x, bool) == isinstance(v, bool)
                ctx.check(ok, "I01.fields", "%s %s" % (fn.qual, k), "row %s (first country %s, scale down factor %d) becomes a location with %s %r%s" % (row, rows[0][2] or "empty", scale, k, x, "" if v is None else ", not %r" % (v,)), e.where, witness(q))
            continue
        base = e.base.args[0]
        x = attempt(ctx, "I01", "the owner of a major route", lambda: R.value(base, q, bb))
        at = by_result.get((x.term, x.k)) if isinstance(x, R.Obj) else None
        v = attempt(ctx, "I01", "a major route", lambda: [R.value(y, q, bb) for y in e.args])
        if at is None or v is None or e.method != "append":
            ctx.notes.append("I01: a major route is not understood")
            made.setdefault("$unsure", {})
            continue
        made[at].setdefault("$routes", []).append(v[0])
    for r in rows:
        ctx.check(r[0] in made or "$unsure" in made and not made, "I01.once", fn.qual, "row %s becomes no location" % r, fn.where(fn.node), witness(p))
    if "$unsure" not in made and "$routes" not in less:
        for r in rows:
            if r[0] not in made:
                continue
            full = [[y for y in mr if y] for mr in ROUTES]
            exp = sorted([mr[1:] for mr in full if mr[0] == r[0]] + [mr[-2::-1] for mr in full if mr[-1] == r[0]])
            ctx.check(sorted(made[r[0]].get("$routes", [])) == exp, "I01.routes", fn.qual, "with major routes %s, location %s gets the routes %s" % (ROUTES, r[0], made[r[0]].get("$routes", [])), fn.where(fn.node))
    c = [k for k in p.state.heap if is_sym("e")(k[0]) and k[1] == "closures"]
    got = attempt(ctx, "I01", "the closures", lambda: R.value(p.state.heap[c[0]], p, b)) if c else None
    if got is not None and not isinstance(got, R.Obj):
        ctx.check([list(x) for x in got] == [["country", "X", "Y", 3, 17], ["links", "A", "B", 0, -1]], "I01.closures", fn.qual, "closure rows become %s" % got, fn.where(fn.node))
    elif not c:
        ctx.fail("I01.closures", fn.qual, "the closures are not handed on", fn.where(fn.node))
    r = p.value
    if r is not None and r.op == "tuple" and len(r.args) == 2:
        m = attempt(ctx, "I01", "the map of locations", lambda: R.value(r.args[1], p, b))
        if isinstance(m, dict):
            ok = sorted(m) == sorted(x[0] for x in rows) and all(not isinstance(v, R.Obj) or by_result.get((v.term, v.k), k) == k for k, v in m.items())
            ctx.check(ok, "I01.map", fn.qual, "the map of locations by name is %s" % m, fn.where(fn.node))
    return n


def classes(ctx):
    """fields given for a location or link end up in it"""
    n = 0
    for w in WORLDS:
        fn = ctx.method(w, "Ecosystem.addLocation")
        for p in ctx.paths(w, fn, stop={"refresh_spawn_weights", "updateLocationScore", "print", "Location"}):
            if p.exit not in ("return", None):
                continue
            made = [e for e in p.events if e.kind == "construct" and e.cls.split(".")[-1] == "Location"]
            put = [o.ev for o in flatten(p) if o.ev.kind == "mutate" and is_attr(o.ev.base, "locations")]
            names = [o.ev for o in flatten(p) if o.ev.kind == "mutate" and is_attr(o.ev.base, "locationNames")]
            ctx.check(len(made) == 1, "I01.once", fn.qual, "%d locations are made" % len(made), fn.where(fn.node), witness(p))
            if len(made) != 1:
                continue
            o = made[0].obj
            n += 1
            if put:
                ctx.check(len(put) == 1 and put[0].args and put[0].args[0] is o, "I01.once", fn.qual + " kept", "the location is kept %d times" % len(put), put[0].where, witness(p))
            if names:
                x = names[0].args[0] if names[0].args else NONE
                ctx.check(len(names) == 1 and (is_sym("name")(x) or is_attr(x, "name") and x.args[0] is o), "I01.once", fn.qual + " name", "the location is listed as %s" % T.show(x), names[0].where, witness(p))
            if p.value is not None:
                ctx.check(p.value is o, "I01.map", fn.qual, "%s is returned for the new location" % T.show(p.value), fn.where(fn.node), witness(p))
            for a in ("name", "region", "country", "x", "y", "pop", "capacity", "foreign"):
                v = p.state.heap.get((o, a))
                ctx.check(v is not None and is_sym(a)(T.strip(v)), "I01.kept", "%s %s" % (fn.qual, a), "the %s of a new location is %s" % (a, T.show(v) if v is not None else "not set"), fn.where(fn.node), witness(p))
            v = p.state.heap.get((o, "attributes"))
            ctx.check(v is not None and holds(p, v, "attributes"), "I01.kept", fn.qual + " attributes", "the attributes of a new location are %s" % (T.show(v) if v is not None else "not set"), fn.where(fn.node), witness(p))
    ctx.need("ways of making a location", n, 2)


def holds(p, v, name):
    """v is the argument or a copy of it"""
    for _ in range(6):
        if is_sym(name)(v):
            return True
        if v.op == "copy":
            v = v.args[0]
            continue
        if v.op == "new":
            c = p.state.heap.get((v, "$copyof"))
            if c is None:
                c = p.state.heap.get((v, "$items"))
            if c is None:
                return any(k[0] is v for k in p.state.heap) or any(o.ev.kind in ("subwrite", "mutate") and o.ev.base is v and any(is_sym(name)(y) for x in (o.ev.args if o.ev.kind == "mutate" else (o.ev.value,)) for y in T.walk(x)) for o in flatten(p))
            v = c
            continue
        if v.op in ("call", "result") and any(is_sym(name)(y) for y in T.walk(v)):
            return True
        return False
    return True


# ---- I02 ---------------------------------------------------------------------
def reader_env(rows, extra=()):
    isf = lambda t: (t.op in ("call", "result")) and t.args[0].split(".")[-1] in ("isfile", "exists", "is_file")
    rd = lambda t: t.op == "result" and t.args[0].split(".")[-1] in ("reader",)
    return R.Bind(known(list(extra) + [(isf, True), (rd, rows)]))


def last_value(ctx, rule, fn, p, b, name):
    ks = [k for k in p.state.heap if is_sym("self")(k[0]) and k[1] == name]
    if not ks:
        return attempt(ctx, rule, name, lambda: R.value(mk("attr", mk("sym", "self", ty="InputGeography"), name, 0), p, b))
    return attempt(ctx, rule, name, lambda: R.value(p.state.heap[ks[0]], p, b))


def i02(ctx):
    W = 10
    head = ["#name", "region", "country", "gps_x", "gps_y", "location_type", "conflict_date", "pop/cap", "height", "side"]
    data = [["A", "R", "X", "1", "2", "town", "0", "5", "3", "e"], ["B#", "R", "X", "1", "2", "camp", "0", "5", "3", "#w"]]
    more = [["C", "#", "X", "1", "2", "town", "0", "5", "3", "e"]]
    n = 0
    tables = {
        "ReadLocationsFromCSV": ("locations", [head] + data + [[], ["# note"]] + more + [["#D", "R", "X", "1", "2", "town", "0", "5"]], data + more),
        "ReadLinksFromCSV": ("links", [["#name1", "name2", "distance", "forced_redirection", "l1", "l2"], ["A", "B", "10", "0", "p", "q"], [], ["#A", "C", "5"], ["B#", "C", "7"]], [["A", "B", "10", "0", "p", "q"], ["B#", "C", "7"]]),
        "_ReadMajorLinksFromCSV": ("major_routes", [["#routes"], ["A", "B", "C"], [], ["#A", "C"], ["B#", "C"]], [["A", "B", "C"], ["B#", "C"]]),
        "ReadClosuresFromCSV": ("closures", [["#type", "name1", "name2", "start", "end"], ["country", "A", "B", "1", "2"], [], ["#links", "A", "B", "1", "2"], ["links#", "A", "B", "0", "5"]],
                                [["country", "A", "B", "1", "2"], ["links#", "A", "B", "0", "5"]]),
        "ReadLocationChangesFromCSV": ("location_changes", [["#name", "type", "day"], ["A", "camp", "3"], [], ["#B", "town", "1"], ["B#", "town", "9"], ["B", "town", "1"]], [["A", "camp", "3"], ["B#", "town", "9"], ["B", "town", "1"]]),
    }
    for name, (attr, rows, want) in tables.items():
        stop = {"ReadConflictInputCSV", "ReadAttributeInputCSV", "_convert_to_major"}
        if name == "ReadLinksFromCSV":
            stop.add("_ReadMajorLinksFromCSV")
        fn, ps = cls_paths(ctx, name, stop=stop, max_alts=500)
        for part in (rows, rows[1:] + rows[:1], [], [[]], rows[:1]):
            old = [["OLD", "R", "X", "1", "2", "town", "0", "5"]]
            settings = [(is_setting("flood_driven_spawning"), False), (is_setting("FloodRulesEnabled"), False), (lambda t: t.op == "classattr" and t.args[1].endswith("InputFile"), ""),
                        (lambda t: t.op == "in" and is_setting(None)(t.args[1]) if False else False, True)]
            b = reader_env(part, settings + [(own(attr), old), (lambda t: t.op == "in" and t.args[0].op == "const" and t.args[0].args[0] == "flood_driven_spawning", True)])
            w = one_way(ctx, "I02", fn, ps, b, name)
            if w is None:
                continue
            p, b = w
            got = last_value(ctx, "I02", fn, p, b, attr)
            if got is None or isinstance(got, R.Obj):
                continue
            n += 1
            exp = [x for x in part if x in want]
            ctx.check(list(got) == exp, "I02.rows", name, "reading the rows %s gives %s" % (part, got), fn.where(fn.node), witness(p))
            cols = {"ReadLocationsFromCSV": ("columns", COLS, 8), "ReadLinksFromCSV": ("link_columns", LCOLS, 4)}.get(name)
            if cols and len(part) > 1 and part[0] is rows[0]:
                c = last_value(ctx, "I01", fn, p, b, cols[0])
                if c is not None and not isinstance(c, R.Obj):
                    ctx.check(list(c)[:len(rows[0])] == cols[1] + rows[0][cols[2]:], "I02.columns", name, "with the heading %s the columns are %s" % (rows[0], c), fn.where(fn.node), witness(p))
    agents(ctx)
    absent(ctx)
    micro_links(ctx)
    ctx.need("files read", n, 15)


def micro_links(ctx):
    fn, ps = cls_paths(ctx, "ReadLinksFromCSV", "flee.micro_InputGeography", stop={"_ReadMajorLinksFromCSV"}, max_alts=500)
    rows = [["#name1", "name2", "distance", "forced_redirection", "link_type"], ["A", "B", "10", "0", "drive"], [], ["#A", "C", "5", "1", "walk"], ["B#", "C", "7", "2", "crossing"]]
    std = [(is_sym(k), i) for i, k in enumerate(("name1_col", "name2_col", "dist_col", "forced_redirection", "link_type_col"))]
    for part in (rows, rows[1:] + rows[:1], [], [[]], rows[:1]):
        w = one_way(ctx, "I02", fn, ps, reader_env(part, std + [(own("links"), [["OLD", "R", "5", "0", "drive"]])]), "links of the micro model")
        got = last_value(ctx, "I02", fn, w[0], w[1], "links") if w is not None else None
        if got is None or isinstance(got, R.Obj):
            continue
        exp = [x for x in part if x in (rows[1], rows[4])]
        ctx.check([list(x) for x in got] == exp, "I02.rows", fn.qual, "reading the rows %s gives %s" % (part, got), fn.where(fn.node), witness(w[0]))


def agents(ctx):
    fn, ps = cls_paths(ctx, "ReadAgentsFromCSV", stop={"addAgent", "insertAgent"}, args={"e": mk("sym", "e", ty="Ecosystem")})
    PL = ["A", "B", "C", "AC", "B#"]
    n = 0
    for rows in ([["#agents"], ["location", "age", "gender"], ["B", "20", "f"], [], ["#A", "1", "m"], ["A", "31", "m"], ["B", "7", "x"], ["AC", "9", "y"], ["B#", "9", "y"]], [["location"], ["A"]], [["location", "age"], [], ["Q", "3"]]):
        b = reader_env(rows, [(own("locationNames", "e"), PL)])
        w = one_way(ctx, "I02", fn, ps, b, "reading agents")
        if w is None:
            continue
        p, b = w
        evs = attempt(ctx, "I02", "reading agents", lambda: list(R.replay(p, b, only=lambda e: e.kind == "call" and last(e) in ("addAgent", "insertAgent"))))
        if evs is None:
            continue
        n += 1
        got = []
        for e, q, bb in evs:
            l = next((v for k, v in e.args if k in ("location", "#0")), None)
            a = next((v for k, v in e.args if k in ("attributes", "#1")), None)
            i = attempt(ctx, "I02", "the place of an agent", lambda: R.value(l.args[1], q, bb)) if l is not None and l.op == "idx" and is_attr(l.args[0], "locations") else None
            d = attempt(ctx, "I02", "the attributes of an agent", lambda: R.value(a, q, bb)) if a is not None else {}
            got.append((i, d))
        if any(i is None or not isinstance(d, dict) for i, d in got):
            ctx.notes.append("I02: the agents read are not understood")
            continue
        data = [r for r in rows if r and not r[0].startswith("#")]
        want = [(PL.index(r[0]), dict(zip(data[0][1:], r[1:]))) for r in data[1:] if r[0] in PL]
        ctx.check(got == want, "I02.agents", fn.qual, "reading the agents %s adds %s" % (rows, got), fn.where(fn.node), witness(p))
    ctx.need("agent files read", n, 2)


def absent(ctx):
    """optional files may be missing"""
    for name, attr in (("_ReadMajorLinksFromCSV", "major_routes"), ("ReadLocationChangesFromCSV", "location_changes")):
        fn, ps = cls_paths(ctx, name)
        isf = lambda t: (t.op in ("call", "result")) and t.args[0].split(".")[-1] in ("isfile", "exists", "is_file")
        b = R.Bind(known([(isf, False), (own(attr), [["OLD"]])]))
        w = one_way(ctx, "I02", fn, ps, b, name)
        if w is None:
            continue
        p, b = w
        got = last_value(ctx, "I02", fn, p, b, attr)
        if got is not None and not isinstance(got, R.Obj):
            ctx.check(list(got) == [] and p.exit in ("return", None), "I02.absent", name, "without the file, %s is %s" % (attr, got), fn.where(fn.node))


# ---- I03 ---------------------------------------------------------------------
def i03(ctx):
    rows_linked(ctx, "flee.InputGeography")
    rows_linked(ctx, "flee.micro_InputGeography")
    for w in WORLDS:
        link_up(ctx, w, ctx.method(w, "Ecosystem.linkUp"))
        link_class(ctx, w)
    link_up(ctx, "parallel", ctx.func("flee.pmicro_flee:Ecosystem.linkUp"))


def rows_linked(ctx, module):
    small = "micro" in module
    fn, ps = cls_paths(ctx, "StoreInputGeographyInEcosystem", module, stop={"addLocation", "linkUp", "ReadLocationChangesFromCSV"}, max_alts=2000)
    rows = [["A", "B", "10.5"], ["C", "E", "65.5", "0", "x4"], ["A", "C", "20.5", "0"], ["A", "D", "30.5", "1"], ["B", "C", "40.5", "2"], ["B", "D", "50.5", ""], ["C", "D", "60.5", "0", "x1", "y1"], ["D", "E", "70.5", "1", "x2", "y2"],
            ["E", "A", "80.5", "2", "x3", "y3"], ["E", "B", "90.5", "0"]]
    if small:       # all its rows have five columns
        rows = [r[:3] + [(r[3:4] or ["0"])[0] or "0", (r[4:5] or ["drive"])[0]] for r in rows]
    tab = [(own("locations"), [PLACES[0]]), (own("columns"), COLS), (own("major_routes"), []), (own("links"), rows), (own("link_columns"), LCOLS + ["l1", "l2"]), (own("closures"), []), (own("conflicts"), {}),
           (is_setting("PopulationScaleDownFactor"), 1)]
    b = R.Bind(known(tab))
    n = 0
    w = one_way(ctx, "I03", fn, ps, b, "storing links")
    if w is not None:
        p, b = w
        evs = attempt(ctx, "I03", "storing links", lambda: list(R.replay(p, b, only=lambda e: e.kind == "call" and last(e) == "linkUp")))
        got = []
        for e, q, bb in evs or []:
            d = {}
            for k, v in e.args:
                x = attempt(ctx, "I03", "argument %s of linkUp" % k, lambda: (R.value(v, q, bb),))
                d[k] = x[0] if x else None
            got.append((d, e))
        if evs is not None:
            want = []
            for r in rows:
                f = r[3] if len(r) > 3 and r[3] else "0"
                ends = (r[1], r[0]) if f == "2" else (r[0], r[1])
                want.append((ends, float(r[2]), f in ("1", "2"), dict(zip(["l1", "l2"], r[4:])), r))
            for ends, dist, forced, at, r in want:
                n += 1
                mine = [(d, e) for d, e in got if {d.get("endpoint1"), d.get("endpoint2")} == set(ends)]
                ctx.check(len(mine) == 1, "I03.once", fn.qual, "row %s is linked up %d times" % (r, len(mine)), fn.where(fn.node))
                for d, e in mine[:1]:
                    ctx.check(not forced or (d["endpoint1"], d["endpoint2"]) == ends, "I03.direction", fn.qual, "row %s marks the direction %s to %s" % (r, d["endpoint1"], d["endpoint2"]), e.where)
                    ctx.check(d.get("distance") is None or d["distance"] == dist, "I03.fields", fn.qual + " distance", "row %s is linked with distance %s" % (r, d.get("distance")), e.where)
                    ctx.check(bool(d.get("forced_redirection")) is forced, "I03.fields", fn.qual + " forced", "row %s is linked with forced redirection %s" % (r, d.get("forced_redirection")), e.where)
                    ctx.check(not small or d.get("link_type", r[4]) == r[4], "I03.fields", fn.qual + " type", "row %s is linked with type %s" % (r, d.get("link_type")), e.where)
                    ctx.check(small or not isinstance(d.get("attributes"), dict) or d["attributes"] == at, "I03.fields", fn.qual + " attributes", "row %s is linked with attributes %s" % (r, d.get("attributes")), e.where)
            ctx.check(len(got) <= len(rows), "I03.once", fn.qual, "%d rows are linked up %d times" % (len(rows), len(got)), fn.where(fn.node))
    ctx.need("link rows stored (%s)" % module, n, 5)


def link_up(ctx, w, fn):
    ps = ctx.paths(w, fn, stop={"Link"})
    n = 0
    for a, z in (("A", "C"), ("C", "B")):
        for forced, log in ((True, 0), (False, 0), (True, 1), (False, 2)):
            b = R.Bind(known([(is_setting("link"), log), (own("locationNames"), ["A", "B", "C"]), (is_sym("endpoint1"), a), (is_sym("endpoint2"), z), (is_sym("distance"), 12.5), (is_sym("forced_redirection"), forced)]))
            got = one_way(ctx, "I03", fn, [p for p in ps if p.exit not in ("exit",)], b, "linking up")
            if got is None:
                continue
            p, b = got
            n += 1

            def place(t):
                if t is None:
                    return None
                if t.op == "idx" and is_attr(t.args[0], "locations"):
                    i = attempt(ctx, "I03", "the place of a link", lambda: R.value(t.args[1], p, b))
                    return ["A", "B", "C"][i] if isinstance(i, int) and -3 <= i < 3 else None
                if t.op == "elem" and is_attr(t.args[0], "locations"):
                    i = attempt(ctx, "I03", "the place of a link", lambda: R.value(mk("elem", mk("list", *[const(x) for x in "ABC"]), t.args[1]), p, b))
                    return i if i in ("A", "B", "C") else None
                return None
            made = {}
            for o in flatten(p):
                if o.ev.kind == "construct" and o.ev.cls.split(".")[-1] == "Link":
                    made[o.ev.obj] = o.ev
            evs = attempt(ctx, "I03", "linking up", lambda: list(R.replay(p, b, only=lambda e: e.kind == "mutate" and is_attr(e.base, "links"))))
            ways = []
            for e, q, bb in evs or []:
                l = e.args[0] if e.args else NONE
                x = made.get(l)
                if x is None or e.method != "append":
                    ctx.notes.append("I03: a link put into a location is not understood")
                    continue
                s, t = place(arg(x, "startpoint") or x_arg(x, 0)), place(arg(x, "endpoint") or x_arg(x, 1))
                f = arg(x, "forced_redirection")
                d = arg(x, "distance") or x_arg(x, 2)
                at = place(e.base.args[0])
                if None in (s, t, at):
                    ctx.notes.append("I03: the places of a link are not understood")
                    continue
                ctx.check(at == s, "I03.start", fn.qual, "the link from %s to %s is put into location %s" % (s, t, at), e.where, witness(p))
                dv = attempt(ctx, "I03", "the distance of a link", lambda: R.value(d, p, b)) if d is not None else None
                ctx.check(dv is None or dv == 12.5, "I03.distance", fn.qual, "the link from %s to %s gets distance %s instead of %s" % (s, t, dv, 12.5), e.where, witness(p))
                fv = attempt(ctx, "I03", "forced redirection", lambda: R.value(f, p, b)) if f is not None and f.op != "default" else False
                ways.append((s, t, bool(fv)))
                atr = arg(x, "attributes") or x_arg(x, 4)
                ctx.check("attributes" not in fn.params or atr is not None and holds(p, atr, "attributes"), "I03.attributes", fn.qual, "the link from %s to %s gets attributes %s" % (s, t, T.show(atr) if atr is not None else "of no row"), e.where, witness(p))
            if evs is not None and len(ways) == len(evs):
                ctx.check(sorted(ways) == sorted([(a, z, forced), (z, a, False)]), "I03.two_way", fn.qual, "linking %s to %s (forced %s) makes the links %s" % (a, z, forced, ways), fn.where(fn.node), witness(p))
    ctx.need("ways of linking up", n, 2)


def x_arg(e, i):
    return next((v for k, v in e.args if k == "#%d" % i), None)


def link_class(ctx, w):
    fn = ctx.method(w, "Link.__init__")
    me = fn.params[0]
    n = 0
    for p in ctx.paths(w, fn):
        n += 1
        f = {k[1]: v for k, v in p.state.heap.items() if is_sym(me)(k[0]) and len(k) == 2 and isinstance(k[1], str)}
        for a in ("startpoint", "endpoint", "forced_redirection"):
            ctx.check(a in f and is_sym(a)(f[a]), "I03.kept", "%s %s" % (fn.qual, a), "the %s of a link is %s" % (a, T.show(f[a]) if a in f else "not set"), fn.where(fn.node), witness(p))
        ctx.check("attributes" in f and holds(p, f["attributes"], "attributes"), "I03.kept", fn.qual + " attributes", "the attributes of a link are %s" % (T.show(f["attributes"]) if "attributes" in f else "not set"), fn.where(fn.node), witness(p))
        ctx.check("distance" in f or any(is_sym("distance")(T.strip(v)) for v in f.values()), "I03.kept", fn.qual + " distance", "the distance of a link is not kept", fn.where(fn.node), witness(p))
    g = ctx.method(w, "Link.get_distance")
    src = ctx.method(w, "Link.__init__")
    for p in ctx.paths(w, g):
        v = p.value
        if v is None or v.op != "attr":
            continue
        for q in ctx.paths(w, src):
            x = next((y for k, y in q.state.heap.items() if is_sym(me)(k[0]) and k[1] == v.args[1]), None)
            ctx.check(x is not None and is_sym("distance")(T.strip(x)), "I03.kept", g.qual, "the distance reported for a link is %s" % (T.show(x) if x is not None else T.show(v)), g.where(g.node))
    ctx.need("ways of making a link", n)


# ---- I04 ---------------------------------------------------------------------
COLL = ("attributes", "links", "routes", "major_routes", "closed_links", "locations_visited", "route")
CLASSES = ("Person", "Location", "Link")
GROW = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "iadd", "__setitem__", "__delitem__", "setslice", "delitem", "del", "__iadd__"}


def i04(ctx):
    n = 0
    kept = {}
    for w in WORLDS:
        for c in CLASSES:
            n += constructor(ctx, w, c, kept)
    for c, where in sorted(kept.items()):
        callers(ctx, c, where)
    elsewhere(ctx)
    ctx.need("collections of new objects", n, 8)


def mutable_default(fn, name):
    d = fn.defaults.get(name)
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call)


def fresh_value(p, v):
    """True: made here; a term: the argument or other thing it is"""
    for _ in range(8):
        if v.op in ("new", "copy", "list", "dict", "set", "concat", "slicing", "repeat", "seq"):
            return True
        if v.op == "mutated":
            v = v.args[0]
            continue
        if v.op == "call" and v.args[0] in ("dict", "list", "set", "sorted", ".copy", ".split"):
            return True
        if v.op == "result" and v.args[0] in ("copy.copy", "copy.deepcopy", "dict", "list"):
            return True
        return v
    return v


def constructor(ctx, w, c, kept):
    fn = ctx.method(w, c + ".__init__")
    me = fn.params[0]
    cls = fn.cls
    n = 0
    shared = class_collections(ctx, w, c)
    for p in ctx.paths(w, fn, stop={"IncrementNumAgents", "SetConflictZone", "calculateLocationScore"}):
        if p.exit not in ("return", None):
            continue
        mine = {}
        for k, v in p.state.heap.items():
            if not (is_sym(me)(k[0]) and len(k) == 2 and isinstance(k[1], str)):
                continue
            if k[1] not in COLL and not (v.op == "new" and v.args[0] in ("list", "dict", "set")):
                continue
            f = fresh_value(p, v)
            if f is not True and (f.op in ("const", "lin", "mul") or f.op == "sym" and k[1] not in COLL):
                continue
            n += 1
            if f is True:
                ctx.check(v not in mine, "I04.own", "%s %s" % (fn.qual, k[1]), "%s and %s of a new %s are one collection" % (mine.get(v), k[1], c), fn.where(fn.node), witness(p))
                mine[v] = k[1]
            elif f.op == "sym" or f.op == "default":
                name = f.args[0] if f.op == "sym" else f.args[1]
                kept.setdefault((w, c, k[1], name), fn)
                ctx.ok("I04.own")
            else:
                ctx.fail("I04.own", "%s %s" % (fn.qual, k[1]), "the %s of a new %s is %s, which other objects hold as well" % (k[1], c, T.show(f)), fn.where(fn.node), witness(p))
        for a, node in shared.items():
            ctx.check(any(is_sym(me)(k[0]) and k[1] == a for k in p.state.heap), "I04.class_level", "%s %s" % (cls.qual if hasattr(cls, "qual") else c, a),
                      "the %s of every %s is one collection of the class" % (a, c), fn.where(node), witness(p))
    return n


def class_collections(ctx, w, c):
    """collections made once, in the class body"""
    out = {}
    k = ctx.method(w, c + ".__init__").cls
    seen = set()
    while k is not None and k not in seen:
        seen.add(k)
        for st in k.node.body:
            ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) and st.value is not None else []
            for t in ts:
                if isinstance(t, ast.Name) and not t.id.startswith("__") and isinstance(st.value, (ast.List, ast.Dict, ast.Set, ast.Call)) and t.id not in out:
                    if not isinstance(st.value, ast.Call) or isinstance(st.value.func, ast.Name) and st.value.func.id in ("list", "dict", "set"):
                        out[t.id] = st
        bases = getattr(k, "bases", None) or []
        k = next((b for b in bases if hasattr(b, "node")), None)
    return out


def callers(ctx, key, fn):
    """a constructor keeps the collection it is given: every caller must give it one of its own"""
    w, c, attr, name = key
    if mutable_default(fn, name):
        ctx.fail("I04.default", "%s %s" % (fn.qual, attr), "%s objects made without %s share one collection: the constructor keeps its default argument" % (c, name), fn.where(fn.node))
    todo = [(c, name, None)]
    for f in ctx.prog.all_funcs():
        if f.module.name.split(".")[0] not in ("flee",) or c not in names_in(f.node):
            continue
        wf = "parallel" if f.module.name.endswith("pflee") else "serial"
        if wf != w:
            continue
        try:
            ps = ctx.paths(w, f, stop={"Person.__init__", "Location.__init__", "Link.__init__", c, "refresh_spawn_weights"}, max_alts=200)
        except AnalysisBroken as e:
            ctx.notes.append("I04: %s" % e)
            continue
        for p in ps:
            used = {}
            for o in flatten(p):
                e = o.ev
                if e.kind != "construct" or e.cls.split(".")[-1] != c:
                    continue
                v = next((v for k, v in e.args if k == name), None)
                if v is None:
                    pos = [x for x in fn.params if x != fn.params[0]]
                    v = x_arg(e, pos.index(name)) if name in pos else None
                if v is None or v.op == "default":
                    continue
                ctx.ok("I04.given")
                if v in used:
                    ctx.fail("I04.given", "%s %s %s" % (f.qual, c, attr), "two %s objects are given the same %s" % (c, attr), e.where, witness(p))
                used[v] = e
                if v.op == "sym" and mutable_default(f, v.args[0]):
                    ctx.fail("I04.given", "%s %s %s" % (f.qual, c, attr), "%s objects made by calls without %s share the default argument of %s" % (c, v.args[0], f.qual), e.where, witness(p))
                lp = o.loops[-1] if o.loops else None
                ev = lp if hasattr(lp, "within") else None
                if ev is not None and fresh_value(p, v) is True and not ev.within(v) or ev is not None and v.op == "sym":
                    ctx.fail("I04.given", "%s %s %s" % (f.qual, c, attr), "the %s objects made in a loop are given the same %s" % (c, attr), e.where, witness(p))
                if v.op == "attr" and v.args[1] in COLL:
                    ctx.fail("I04.given", "%s %s %s" % (f.qual, c, attr), "a %s is given the %s" % (c, T.show(v)), e.where, witness(p))


def elsewhere(ctx):
    """collections put into objects later, and lists handed on that are then changed in place"""
    n = 0
    handed = {}
    changed = {}
    every = {f.name for f in ctx.prog.all_funcs()}
    for f in ctx.prog.all_funcs():
        if f.module.name.split(".")[0] != "flee" or f.name == "__init__" or f.cls is not None and f.cls.name not in CLASSES + ("Ecosystem",):
            continue
        words = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)}
        if not words & set(COLL):
            continue
        w = "parallel" if f.module.name.endswith("pflee") else "serial"
        stores = any(isinstance(x, ast.Attribute) and x.attr in COLL and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node))
        grows = any(isinstance(x, ast.Attribute) and x.attr in ("route",) for x in ast.walk(f.node))
        if not stores and not grows and f.name != "selectRoute":
            continue
        try:
            ps = ctx.paths(w, f, stop=every - {f.name}, max_alts=400)
        except AnalysisBroken as e:
            ctx.notes.append("I04: %s" % e)
            continue
        for p in ps:
            for o in flatten(p):
                e = o.ev
                if e.kind == "write" and e.attr in COLL:
                    n += 1
                    v = fresh_value(o.path, e.value)
                    if v is True or v.op == "const":
                        ctx.ok("I04.later")
                        continue
                    if v.op == "attr" and v.args[1] in COLL and v.args[0] is not e.base:
                        if e.attr == "route":
                            handed[f.qual] = (e, v)
                            continue
                        ctx.fail("I04.later", "%s %s" % (f.qual, e.attr), "the %s of one object becomes %s" % (e.attr, T.show(v)), e.where, witness(p))
                    elif (v.op == "default" or v.op == "sym" and mutable_default(f, v.args[0])) and e.attr != "route":
                        ctx.fail("I04.later", "%s %s" % (f.qual, e.attr), "the %s of objects becomes the default argument %s" % (e.attr, T.show(v)), e.where, witness(p))
                    else:
                        ctx.ok("I04.later")
                if e.kind == "mutate" and is_attr(e.base, "route") and e.method in GROW or e.kind == "subwrite" and is_attr(e.base, "route"):
                    changed[f.qual] = e
            if f.name == "selectRoute":
                for v in out_lists(p):
                    if v.op == "idx" and any(is_attr(x, "routes") for x in T.walk(v)):
                        handed[f.qual] = (None, v)
    for q, e in sorted(changed.items()):
        for h, (he, v) in sorted(handed.items()):
            ctx.fail("I04.route", q, "%s changes the route of an agent in place, and %s hands out the list %s itself, which other agents follow as well" % (q, h, T.show(v)), e.where)
    ctx.ok("I04.route")
    ctx.need("collections put into objects", n, 3)


def out_lists(p):
    """items put into the lists a function builds"""
    out = []
    seen = set()

    def terms(q):
        for v in list(q.state.env.values()) + [v for k, v in q.state.heap.items()]:
            if isinstance(v, T.Term):
                for x in T.walk(v):
                    if x.op == "list" and x not in seen:
                        seen.add(x)
                        out.extend(x.args)
        for e in q.events:
            if e.kind == "mutate" and e.method in ("append", "insert"):
                out.extend(e.args)
            if e.kind == "loop":
                for r in e.paths:
                    terms(r)
    terms(p)
    if isinstance(p.value, T.Term):
        out.append(p.value)
    return out


EXPLAIN = {
    "I01": "the extracted effects of storing a table (which locations are added with which fields, routes, closures) are evaluated for rows of every class (each type, empty cells, extra columns, foreign or not) and compared with the file format",
    "I02": "what each reader keeps is evaluated from its extracted summary for tables with comment and blank rows at any place, missing files and repeated reading",
    "I03": "the connections made per class of row (forced column absent, empty, 0, 1, 2, with extra columns) and the two links made per connection are evaluated from the extracted effects",
    "I04": "ownership of every collection field: constructors must make it or copy it (else every construction must hand over one of its own), no class-level or default collection, no later hand-over, no in-place change of lists that are handed out",
}
RULES = {"I01": i01, "I02": i02, "I03": i03, "I04": i04}
