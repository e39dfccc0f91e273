"""O01-O04: log files, result tables, and looking without touching"""
import ast
from ..report import *          # noqa
from ..report import mk, T
from ..terms import NONE, const
from .. import replay as R
from .routing import is_setting, is_sym, last, arg, impure, fresh, loops_of, SHUFFLERS
from ..model import Func
from .inputs import known, own, one_way, attempt
from .step import STOP
from .network import guards
from .parallel import main_of, Taint, alike, MODS

DIAG = "flee.Diagnostics"


# ---- what is written where -----------------------------------------------------
class Files:
    def __init__(self):
        self.by_name = {}

    def open(self, name, *a, **kw):
        if not isinstance(name, str):
            raise R.Unknown("the name of a file")
        return self.by_name.setdefault(name, R.Rec("file " + name, filename=name))


WRITES = ("print", "open", "write", "writelines", "writerow")


def writing(e):
    return e.kind == "call" and e.fn is None and e.name.split(".")[-1] in WRITES


def written(p, b):
    """[("open", name, mode) | ("text", file name or None for the standard output, text)]"""
    out = []
    for e, q, bb in R.replay(p, b, writing):
        n = e.name.split(".")[-1]
        kw = {k: v for k, v in e.args if not k.startswith("#")}
        pos = [v for k, v in e.args if k.startswith("#")]
        val = lambda t: R.value(t, q, bb)
        if n == "open":
            mode = kw.get("mode", pos[1] if len(pos) > 1 else const("r"))
            out.append(("open", val(pos[0] if pos else kw["file"]), val(mode)))
        elif n == "print":
            f = None
            if "file" in kw:
                if kw["file"].op == "ext" and kw["file"].args[0] == "sys.stderr":
                    continue
                if not (kw["file"].op == "ext" and kw["file"].args[0] == "sys.stdout") and kw["file"] is not NONE:
                    f = val(kw["file"])
                    f = name_of(f)
            sep = val(kw["sep"]) if "sep" in kw else " "
            end = val(kw["end"]) if "end" in kw else "\n"
            out.append(("text", f, sep.join(text(val(x)) for x in pos) + end))
        elif n in ("write", "writelines") and e.d.get("recv") is not None:
            f = name_of(val(e.recv)) if e.recv.op != "ext" else None
            if e.recv.op == "ext" and e.recv.args[0] == "sys.stderr":
                continue
            v = val(pos[0])
            out.append(("text", f, v if n == "write" else "".join(v)))
        elif e.name == "sys.stdout.write":
            out.append(("text", None, val(pos[0])))
        elif e.name == "sys.stderr.write":
            continue
        else:
            raise R.Unknown("writing with " + e.name)
    return out


def text(v):
    if isinstance(v, R.Obj):
        raise R.Unknown("what is written: %r" % v)
    return str(v)


def name_of(f):
    if isinstance(f, R.Rec) and "filename" in f.attrs:
        return f.attrs["filename"]
    raise R.Unknown("a file")


def lines(out):
    """the lines that reach each file, in order"""
    d = {}
    for x in out:
        if x[0] == "text":
            d[x[1]] = d.get(x[1], "") + x[2]
    return {k: v.split("\n")[:-1] if v.endswith("\n") else v.split("\n") for k, v in d.items()}


def fields(line):
    f = line.split(",")
    while len(f) > 1 and f[-1] == "":
        f.pop()
    return f


# ---- O01 -----------------------------------------------------------------------
def place(i):
    return R.Rec("place %d" % i, name="name%d" % i, region="region%d" % i, x="x%d" % i, y="y%d" % i, town=i in (1, 4), camp=i in (3, 5), conflict=i == 6, marker=i == 4,
                 idpcamp=i == 5, forward=i == 7, foreign=i == 3, country="country%d" % i, links=[], closed_links=[], movechance=0.3, capacity=9, pop=100, numAgents=4, attributes={}, time=3)


def person(i, home, loc, visited, attrs):
    return R.Rec("agent %d" % i, home_location=home, location=loc, travelling="travelling%d" % i, distance_travelled="far%d" % i, places_travelled="stops%d" % i,
                 distance_moved_this_timestep="today%d" % i, attributes={k: "%s of %d" % (k, i) for k in attrs}, locations_visited=visited,
                 timesteps_since_departure="age%d" % i, recent_travel_distance="recent%d" % i, distance_travelled_on_link="onlink%d" % i)


def crowds():
    P = [place(i) for i in range(8)]
    full = [person(0, P[0], P[1], [], ("age", "sex")), person(1, P[2], P[3], [P[4], P[5]], ("age", "sex")), person(2, P[0], None, [P[1]], ("age", "sex")),
            person(3, P[6], P[6], [P[7]], ("age", "sex"))]
    return [("four agents", full), ("agents without attributes", [person(4, P[1], P[2], [P[0]], ()), person(5, P[2], P[2], [], ())]), ("no agents", []),
            ("one agent that is not active", [person(6, P[0], None, [], ("age",))])]


def expected(name, a, k, rank, time, loc, region, hop, level):
    if name == "time":
        return "%s-%s" % (time, hop) if hop and level > 2 else str(time)
    if name in ("rank-agentid", "agentid", "id"):
        return "%s-%s" % (rank, k)
    if name in ("original_location", "home_location"):
        return a.attrs["home_location"].attrs["name"]
    if name in ("current_location", "location"):
        return loc.attrs["region" if region else "name"]
    if name in ("gps_x", "gps_y"):
        return "0.0" if region else loc.attrs[name[-1]]
    if name in ("is_travelling", "travelling"):
        return a.attrs["travelling"]
    if name in ("distance_travelled", "places_travelled", "distance_moved_this_timestep", "timesteps_since_departure", "recent_travel_distance"):
        return a.attrs[name]
    return a.attrs["attributes"].get(name)


HEAD = ("time", "rank-agentid", "original_location", "current_location", "gps_x", "gps_y", "is_travelling", "distance_travelled", "places_travelled", "distance_moved_this_timestep")


def o01(ctx):
    n = 0
    names = {}
    for fname, ranks in (("write_agents", (0,)), ("write_agents_par", (0, 3))):
        fn = ctx.prog.func(DIAG, fname)
        if fn is None:
            raise AnalysisBroken("function vanished: " + fname)
        ps = [p for p in ctx.paths("serial" if fname == "write_agents" else "parallel", fn, keep_prints=True, cache=False, max_alts=256) if p.exit not in ("raise", "exit", "stop")]
        for rank in ranks:
            for level in (1, 2, 3):
                for region in (False, True):
                    for time in (0, 1, 7):
                        for what, agents in crowds():
                            n += agent_log(ctx, fn, ps, rank, level, region, time, what, agents, names)
    ctx.need("agent logs written", n, 60)
    seen = {}
    for (fname, rank), fs in names.items():
        ctx.check(len(fs) <= 1, "O01.file", fname, "the log of process %s goes to %s" % (rank, " and ".join(sorted(fs))))
        for f in fs:
            if fname == "write_agents_par":
                ctx.check(f not in seen, "O01.file", fname + "|own", "processes %s and %s write to the same file" % (seen.get(f), rank))
                seen[f] = rank
    hops(ctx)


def agent_log(ctx, fn, ps, rank, level, region, time, what, agents, names):
    fs = Files()
    tab = [(is_sym("rank"), rank), (is_sym("agents"), agents), (is_sym("time"), time), (is_sym("max_written"), -1), (is_sym("timestep_interval"), 1),
           (is_setting("agent"), level), (is_setting("granularity"), "region" if region else "location")]
    b = R.Bind(known(tab), calls={"open": fs.open})
    at = "%s, %s, day %d, detail %d%s" % (fn.qual, what, time, level, ", by region" if region else "")
    w = one_way(ctx, "O01", fn, ps, b, at)
    if w is None:
        return 0
    out = attempt(ctx, "O01", fn.qual, lambda: written(*w))
    if out is None:
        return 0
    opened = [(x[1], x[2]) for x in out if x[0] == "open"]
    ctx.check(len(opened) == 1 or not opened and not agents, "O01.file", fn.qual + "|open", "%s: %d files are opened" % (at, len(opened)), fn.where())
    for nm, mode in opened:
        names.setdefault((fn.name, rank), set()).add(nm)
        m = mode.replace("t", "").replace("+", "")
        ctx.check(m == ("w" if time == 0 else "a"), "O01.header", fn.qual + "|mode", "%s: the log is opened with mode %r" % (at, mode), fn.where())
    ls = lines(out)
    ctx.check(None not in ls, "O01.file", fn.qual + "|stray", "%s: %r is not written to the log" % (at, ls.get(None, [""])[0][:60]), fn.where())
    rows = [x for k, v in ls.items() if k is not None for x in v]
    if time == 0:
        ctx.check(rows and rows[0].startswith("#"), "O01.header", fn.qual, "%s: the log starts with %r instead of its header" % (at, rows[0][:40] if rows else ""), fn.where())
        if not rows or not rows[0].startswith("#"):
            return 1
        head = fields(rows.pop(0)[1:])
        ctx.heads = getattr(ctx, "heads", {})
        ctx.heads[(fn.name, what, level)] = head
    ctx.check(not any(r.startswith("#") for r in rows), "O01.header", fn.qual + "|once", "%s: the header is written again" % at, fn.where())
    head = getattr(ctx, "heads", {}).get((fn.name, what, level))
    if head is None:
        return 0
    if agents:
        for c in list(agents[0].attrs["attributes"]) + list(HEAD):
            ctx.check(head.count(c) == 1, "O01.columns", "%s|%s" % (fn.qual, c), "%s: the header names %s %d times" % (at, c, head.count(c)), fn.where())
    want = []
    for k, a in enumerate(agents):
        if a.attrs["location"] is None:
            continue
        want.append((k, a, a.attrs["location"], 0))
        if level > 1:
            want += [(k, a, l, h) for h, l in enumerate(a.attrs["locations_visited"], 1)]
    ctx.check(len(rows) == len(want), "O01.rows", fn.qual, "%s: %d rows are written for %d active agents and their stops on the way (expected %d)" % (
        at, len(rows), len({k for k, _, _, _ in want}), len(want)), fn.where())
    for r, (k, a, loc, h) in zip(rows, want):
        f = fields(r)
        exp = [expected(c, a, k, rank, time, loc, region, h, level) for c in head]
        if not ctx.check(len(f) == len(exp), "O01.columns", fn.qual, "%s: a row has %d values under %d headings" % (at, len(f), len(exp)), fn.where()):
            break
        for c, x, y in zip(head, f, exp):
            if y is None:
                ctx.notes.append("O01: heading %s is not known" % c)
                continue
            if not ctx.check(x == y, "O01.values", "%s|%s%s" % (fn.qual, c, "|stops" if h else ""), "%s: agent %d has %s under the heading %s instead of %s" % (at, k, x, c, y), fn.where()):
                break
    return 1


def hops(ctx):
    """the stops listed for a step are those of that step"""
    for w in ("serial", "parallel"):
        fn = ctx.method(w, "Ecosystem.evolve")
        n = 0
        for p in ctx.paths(w, fn, stop=STOP):
            if p.exit in ("raise", "exit", "stop"):
                continue
            cleared = False
            for e in p.events:
                if e.kind != "loop":
                    continue
                for q in e.paths:
                    mine = {**p.cons, **q.cons}
                    done = cleared
                    for x in q.events:
                        if x.kind == "write" and x.attr == "locations_visited":
                            done = True
                            ctx.check(emptied(q, x.value), "O01.stops", "%s (%s)|value" % (fn.qual, w), "the stops of an agent start as %s" % T.show(x.value), x.where)
                        elif x.kind == "mutate" and x.base.op == "attr" and x.base.args[1] == "locations_visited" and x.method == "clear":
                            done = True
                        elif x.kind == "call" and last(x) == "evolve":
                            n += 1
                            ctx.check(done or low_detail(guards(q), p), "O01.stops", "%s (%s)" % (fn.qual, w), "the stops of earlier steps are kept, and are written again under this day", x.where)
                if all(any(x.kind == "write" and x.attr == "locations_visited" for x in q.events) or low_detail(guards(q), p) for q in e.paths):
                    if any(x.kind == "write" and x.attr == "locations_visited" for q in e.paths for x in q.events):
                        cleared = True
        ctx.need("agents evolved in a step (%s)" % w, n)


def emptied(q, v):
    if v.op == "list":
        return not v.args
    if v.op == "new":
        c = q.state.heap.get((v, "$items"))
        return v.args[0] == "list" and (c is None or c.op == "list" and not c.args)
    return False


def low_detail(gs, p):
    """every alternative has the agent log at a level where stops are not kept"""
    def low(g):
        for a, v in {**p.cons, **g}.items():
            for x in T.walk(a):
                if is_setting("agent")(x):
                    if R.truth(a, p, R.Bind(known([(is_setting("agent"), 2)]))) not in (None, v):
                        return True
        return False
    return all(low(g) for g in gs)


# ---- O02 -----------------------------------------------------------------------
def road(i, a, b, cats):
    return R.Rec("link %d" % i, startpoint=a, endpoint=b, cumNumAgents="cum%d" % i, numAgents="now%d" % i, numAgentsOnRank="here%d" % i, name="L%d" % i, region="lr%d" % i,
                 cumNumAgentsByAttribute={k: {v: "%s %s on %d" % (k, v, i) for v in vs} for k, vs in cats}, closed=False)


def networks():
    P = [place(i) for i in range(6)]
    cats = (("age", ("young", "old")), ("sex", ("f",)))
    full = [[(0, 1, cats), (0, 2, ())], [], [(2, 0, (("age", ("old",)),))], [(3, 1, ()), (3, 0, cats), (3, 2, ())]]
    out, n = [], 0
    for i, ls in enumerate(full):
        r = R.Rec("place %d" % i, **P[i].attrs)
        r.attrs["links"] = []
        for a, b, c in ls:
            r.attrs["links"].append(road(n, P[a], P[b], c))
            n += 1
        r.attrs["closed_links"] = [road(90 + i, P[i], P[5], cats)]
        r.attrs["numAgents"] = "people%d" % i
        out.append(r)
    return [("four places", out), ("no places", [])]


def cell(name, l, region, time, cat):
    if name == "time":
        return str(time)
    if name in ("start_location", "end_location"):
        return l.attrs["startpoint" if name[0] == "s" else "endpoint"].attrs["region" if region else "name"]
    if name in ("cum_num_agents",):
        return l.attrs["cumNumAgents"] if cat is None else l.attrs["cumNumAgentsByAttribute"][cat[0]][cat[1]]
    if name in ("num_agents", "current_num_agents"):
        return l.attrs["numAgents"]
    if name == "attribute":
        return "total" if cat is None else "%s:%s" % cat
    return None


def o02(ctx):
    n = 0
    names, heads = {}, {}
    for fname, ranks in (("write_links", (0,)), ("write_links_par", (0, 3))):
        fn = ctx.prog.func(DIAG, fname)
        if fn is None:
            raise AnalysisBroken("function vanished: " + fname)
        ps = [p for p in ctx.paths("serial" if fname == "write_links" else "parallel", fn, keep_prints=True, cache=False, max_alts=256) if p.exit not in ("raise", "exit", "stop")]
        for rank in ranks:
            for level in (1, 2):
                for region in (False, True):
                    for time in (0, 1, 7):
                        for what, locs in networks():
                            n += link_log(ctx, fn, ps, rank, level, region, time, what, locs, names, heads)
    ctx.need("link logs written", n, 30)
    seen = {}
    for (fname, rank), fs in names.items():
        ctx.check(len(fs) <= 1, "O02.file", fname, "the log of process %s goes to %s" % (rank, " and ".join(sorted(fs))))
        for f in fs:
            if fname == "write_links_par":
                ctx.check(f not in seen, "O02.file", fname + "|own", "processes %s and %s write to the same file" % (seen.get(f), rank))
                seen[f] = rank
    growth(ctx)


def link_log(ctx, fn, ps, rank, level, region, time, what, locs, names, heads):
    fs = Files()
    tab = [(is_sym("rank"), rank), (is_sym("locations"), locs), (is_sym("time"), time), (is_sym("timestep_interval"), 1),
           (is_setting("link"), level), (is_setting("granularity"), "region" if region else "location")]
    at = "%s, %s, day %d, detail %d%s" % (fn.qual, what, time, level, ", by region" if region else "")
    w = one_way(ctx, "O02", fn, ps, R.Bind(known(tab), calls={"open": fs.open}), at)
    out = attempt(ctx, "O02", fn.qual, lambda: written(*w)) if w else None
    if out is None:
        return 0
    opened = [(x[1], x[2]) for x in out if x[0] == "open"]
    ctx.check(len(opened) == 1 or not opened and not locs, "O02.file", fn.qual + "|open", "%s: %d files are opened" % (at, len(opened)), fn.where())
    for nm, mode in opened:
        names.setdefault((fn.name, rank), set()).add(nm)
        ctx.check(mode.replace("t", "").replace("+", "") == ("w" if time == 0 else "a"), "O02.header", fn.qual + "|mode", "%s: the log is opened with mode %r" % (at, mode), fn.where())
    ls = lines(out)
    ctx.check(None not in ls, "O02.file", fn.qual + "|stray", "%s: %r is not written to the log" % (at, ls.get(None, [""])[0][:60]), fn.where())
    rows = [x for k, v in ls.items() if k is not None for x in v]
    if time == 0:
        if not ctx.check(rows and rows[0].startswith("#"), "O02.header", fn.qual, "%s: the log starts with %r instead of its header" % (at, rows[0][:40] if rows else ""), fn.where()):
            return 1
        heads[(fn.name, what, level)] = fields(rows.pop(0)[1:])
    ctx.check(not any(r.startswith("#") for r in rows), "O02.header", fn.qual + "|once", "%s: the header is written again" % at, fn.where())
    head = heads.get((fn.name, what, level))
    if head is None:
        return 0
    for c in ("time", "start_location", "end_location", "cum_num_agents"):
        ctx.check(head.count(c) == 1, "O02.columns", "%s|%s" % (fn.qual, c), "%s: the header names %s %d times" % (at, c, head.count(c)), fn.where())
    want = []
    for p in locs:
        for l in p.attrs["links"]:
            want.append((l, None))
            if level > 1:
                want += [(l, (k, v)) for k, vs in l.attrs["cumNumAgentsByAttribute"].items() for v in vs]
    ctx.check(len(rows) == len(want), "O02.rows", fn.qual, "%s: %d rows are written instead of %d" % (at, len(rows), len(want)), fn.where())
    for r, (l, cat) in zip(rows, want):
        f = fields(r)
        exp = [cell(c, l, region, time, cat) for c in head]
        if not ctx.check(len(f) == len(exp), "O02.columns", fn.qual, "%s: a row has %d values under %d headings" % (at, len(f), len(exp)), fn.where()):
            break
        for c, x, y in zip(head, f, exp):
            if y is None:
                ctx.notes.append("O02: heading %s is not known" % c)
            elif not ctx.check(x == y, "O02.values", "%s|%s" % (fn.qual, c), "%s: %s has %s under the heading %s instead of %s" % (at, l.name, x, c, y), fn.where()):
                break
    return 1


CUM = ("cumNumAgents", "cumNumAgentsByAttribute")


def growth(ctx):
    """cumulative counts: zero at first, one more for each departure, and nothing else"""
    n = 0
    for w in ("serial", "parallel"):
        cls = ctx.worlds[w]["Link"]
        inc, ini = cls.find("IncrementNumAgents"), cls.find("__init__")
        for p in ctx.paths(w, inc, cache=False):
            if p.exit in ("raise", "exit", "stop"):
                continue
            n += 1
            ws = [o.ev for o in flatten(p) if o.ev.kind == "write" and o.ev.attr == "cumNumAgents"]
            old = [x for e in ws for x in T.walk(e.value) if is_attr(x, "cumNumAgents")]
            ok = attempt(ctx, "O02", inc.qual, lambda: R.value(ws[-1].value, p, R.Bind(known([(own("cumNumAgents"), 40), (own("numAgents"), 17), (own("numAgentsOnRank"), 13)])))) if ws else 40
            loops = [o for o in flatten(p) if o.ev.kind == "write" and o.ev.attr == "cumNumAgents" and o.loops]
            ctx.check(ok == 41 and not loops or ok is None, "O02.count", "%s (%s)" % (inc.qual, w), "a departure takes the cumulative count from 40 to %s" % ok, inc.where())
            by_attribute(ctx, w, inc, p)
        for p in ctx.paths(w, ini):
            if p.exit in ("raise", "exit", "stop"):
                continue
            v = [e.value for e in p.events if e.kind == "write" and e.attr == "cumNumAgents"]
            ctx.check(v and v[-1].op == "const" and v[-1].args[0] == 0, "O02.count", "%s (%s)|first" % (ini.qual, w), "the cumulative count of a new link starts as %s" % (T.show(v[-1]) if v else "nothing"), ini.where())
    ctx.need("ways to count a departure", n, 2)
    own_names = ("IncrementNumAgents", "__init__")
    for f in ctx.prog.all_funcs():
        if f.cls is not None and f.cls.name == "Link" and f.name in own_names:
            continue
        for x in ast.walk(f.node):
            t = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else x.targets if isinstance(x, ast.Delete) else []
            for y in t:
                while isinstance(y, (ast.Subscript, ast.Starred)):
                    y = y.value
                if isinstance(y, ast.Attribute) and y.attr in CUM and not called_by(ctx, f, own_names):
                    ctx.fail("O02.count", f.qual, "the cumulative count is changed outside of departures", f.where(x))


def called_by(ctx, f, names):
    """only called (as a helper) by the functions with these names"""
    return called_only_by(ctx.prog, f, lambda g: g.name in names)


def by_attribute(ctx, w, fn, p):
    """each attribute of the agent counts one more for the agent's own value"""
    whole = lambda t: is_attr(t, "cumNumAgentsByAttribute") or t.op in ("loopvar", "after") and isinstance(t.args[1], str) and "cumNumAgentsByAttribute" in t.args[1]
    for start in ({}, {"age": {"old": 5}}, {"age": {"old": 5, "young": 2}, "sex": {}}):
        attrs = {"age": "old", "sex": "f"}
        cur = {k: dict(v) for k, v in start.items()}
        b = R.Bind(known([(whole, None)]))
        seen = [False]

        def run():
            held = {}

            def category(t, q, bb):
                """the table of one attribute that a term stands for"""
                t = T.strip(t)
                if t.op == "call" and t.args[0] == ".get" and whole(t.args[1][0]):
                    k = val(t.args[1][1], q, bb)
                    return cur[k] if k in cur else held.setdefault(k, {})
                if t.op == "idx" and whole(t.args[0]):
                    return cur[val(t.args[1], q, bb)]
                if t.op == "popped" and t.args[1] == "setdefault" and whole(t.args[0]):
                    return cur.setdefault(val(t.args[2][0], q, bb), {})
                if t.op == "new":
                    return held.setdefault(t, {})
                return None

            def val(t, q, bb):
                def k2(x):
                    v = kn(x)
                    if v is not R.MISSING:
                        return v
                    if whole(x):
                        return {k: dict(v) for k, v in cur.items()}
                    c = category(x, q, bb) if x.op in ("call", "idx", "popped", "new") else None
                    return dict(c) if c is not None else R.MISSING
                nb = R.Bind(k2, bb.its, bb.lvs, bb.loops, bb.up, bb.calls)
                return R.value(t, q, nb)
            for e, q, bb in R.replay(p, R.Bind(kn)):
                if e.kind == "subwrite":
                    if whole(e.base):
                        seen[0] = True
                        c = category(e.value, q, bb)
                        cur[val(e.d["key"], q, bb)] = c if c is not None else val(e.value, q, bb)
                        continue
                    c = category(e.base, q, bb)
                    if c is not None:
                        seen[0] = True
                        c[val(e.d["key"], q, bb)] = val(e.value, q, bb)
                elif e.kind == "mutate" and whole(e.base) and e.method == "setdefault":
                    seen[0] = True
                    cur.setdefault(val(e.args[0], q, bb), {})
                elif e.kind == "write" and e.attr == "cumNumAgentsByAttribute" and e.value.op == "new" and e.value.args[0] == "dict" and (e.value, "$copyof") not in q.state.heap:
                    seen[0] = True
                    new = {}
                    for k, v in q.state.heap.items():
                        if k[0] is e.value and len(k) == 3 and k[1] == "[]":
                            c = category(v, q, bb)
                            new[val(k[2], q, bb)] = c if c is not None else val(v, q, bb)
                    cur.clear()
                    cur.update(new)
                elif e.kind in ("write", "mutate") and (e.kind == "write" and e.attr == "cumNumAgentsByAttribute" or e.kind == "mutate" and whole(R_root(e.base))):
                    raise R.Unknown("%s of the counts by attribute" % e.kind)
            return cur
        kn = known([(is_setting("link"), 2), (lambda t: is_attr(t, "attributes") and is_sym("agent")(t.args[0]), attrs)])
        if not R.ways([p], R.Bind(kn)):
            return
        r = attempt(ctx, "O02", fn.qual, run)
        if r is None:
            return
        want = {k: dict(v) for k, v in start.items()}
        for k, v in attrs.items():
            want.setdefault(k, {})
            want[k][v] = want[k].get(v, 0) + 1
        ctx.check(r == want, "O02.attributes", "%s (%s)" % (fn.qual, w), "a departing agent with %s takes the counts by attribute from %s to %s" % (attrs, start, r), fn.where())


def R_root(t):
    while t.op in ("idx", "elem", "attr") and not is_attr(t, "cumNumAgentsByAttribute"):
        t = t.args[0]
    return t


# ---- O03 -----------------------------------------------------------------------
DRIVERS = (("runscripts.run", "serial"), ("runscripts.run_par", "parallel"), ("flee.config_template.run", "serial"), ("flee.config_template.run_par", "serial"))
START = "2013-11-29"
TOTALS = {"Total error": "toterr", "refugees in camps (UNHCR)": "data", "total refugees (simulation)": "people", "raw UNHCR refugee count": "raw",
          "refugees in camps (simulation)": "incamps", "refugee_debt": "debt", "total IDPs": "idps"}


class Run:
    """a driver's surroundings: camps with distinct counts, three days, the third without raw data"""

    def __init__(self, camps, idps, rank, argv, days=3):
        self.camps = camps
        self.days = days
        self.sim = {c: 10 * (i + 2) + 1 for i, c in enumerate(camps)}
        self.raw = [170, 90, 0, 60, 70, 80, 90, 100, 110][:days]
        self.debt = [13, 0, 0, 5, 6, 7, 8, 9, 1][:days]
        self.idps, self.rank, self.argv = idps, rank, argv
        names = list(camps) + ["source"]
        self.places = {c: R.Rec("place " + c, name=c, numAgents=self.sim.get(c, 4000), camp=c in camps, country="c", region="r", x=1.0, y=2.0, foreign=c in camps, conflict=c not in camps,
                                idpcamp=False, town=False, marker=False, forward=False, capacity=100, pop=7) for c in names}
        self.eco = R.Rec("ecosystem", locations=list(self.places.values()), locationNames=names, agents=[None] * 5003, mpi=R.Rec("mpi", rank=rank, size=3))
        self.data = R.Rec("data table")

    def count(self, c, t):
        return 100 * (self.camps.index(c) + 1) + 7 * t if c in self.camps else 5

    def calls(self):
        return {"get_camp_names": lambda *a, **k: list(self.camps), "StoreInputGeographyInEcosystem": lambda *a, **k: (self.eco, dict(self.places)), "get_field": self.get_field,
                "rel_error": lambda v, c: "rel(%s;%s)" % (v, c), "abs_error": lambda v, c: abs(v - c), "numAgents": lambda *a: 5000, "numIDPs": lambda *a: 600,
                "getRankN": lambda t: self.rank == 0, "read_sim_period": lambda *a, **k: (START, self.days),
                "spawn_daily_displaced": self.spawn, "Ecosystem": lambda *a, **k: self.eco, "isnan": lambda x: x != x}

    def spawn(self, e=None, t=None, d=None, **kw):
        if not isinstance(t, int):
            raise R.Unknown("the day of spawning")
        return (55, self.raw[t], self.debt[t])

    def get_field(self, name=None, day=None, *a, **kw):
        name, day = kw.get("name", name), kw.get("day", day)
        if not isinstance(day, int) or not isinstance(name, str):
            raise R.Unknown("the day or series looked up")
        return self.count(name, day)

    def expected(self, t):
        """acceptable values under each heading"""
        import datetime
        d = {"Day": {str(t)}, "Date": {(datetime.date.fromisoformat(START) + datetime.timedelta(days=t)).isoformat()}}
        tot = 0
        for c in self.camps:
            x, y = self.sim[c], self.count(c, t)
            d[c + " sim"], d[c + " data"], d[c + " error"] = {str(x)}, {str(y)}, {"rel(%s;%s)" % (x, y)}
            tot += abs(x - y)
        k = self.raw[t] > 0
        data = sum(self.count(c, t) for c in self.camps)
        zero = lambda x: {str(x)} if k else {str(x), "0", "0.0"}
        d["Total error"] = {str(float(tot) / self.raw[t])} if k else {"0", "0.0"}
        d["refugees in camps (UNHCR)"] = zero(data)
        d["total refugees (simulation)"] = zero(5000)
        d["raw UNHCR refugee count"] = zero(self.raw[t])
        d["refugees in camps (simulation)"] = zero(sum(self.sim.values()))
        d["refugee_debt"] = zero(self.debt[t])
        d["total IDPs"] = {"600"}
        return d


def argument_free(e):
    return e.op == "ext" and e.args[0] == "sys.argv"


def o03(ctx):
    for mod, world in DRIVERS:
        m = ctx.prog.module(mod)
        if m is None:
            if mod.startswith("runscripts"):
                ctx.need("module %s" % mod, 0)
            continue
        fn = main_of(ctx.prog, mod)
        stop = {f.name for f in ctx.prog.all_funcs()} | {"print"}
        local = {f for f in ctx.prog.all_funcs() if f.module is m}
        try:
            paths = ctx.paths(world, fn, stop=stop - {f.name for f in local}, inline=lambda g: g is fn or g in local, keep_prints=True, cache=False)
        except Exception as x:
            ctx.notes.append("O03: %s: %s" % (mod, x))
            continue
        seen = 0
        for camps in ((), ("Alpha",), ("Alpha", "Beta", "Gamma"), ("Zulu", "Alpha")):
            for idps in (0, 1):
                for rank in ((0, 1) if world == "parallel" else (0,)):
                    for argv, days in ((["run.py", "in", "data", "3", "s.yml"], 9), (["run.py", "in", "data", "0"], 3)):
                        run = Run(camps, idps, rank, argv, days)
                        ndays = int(argv[3]) or days
                        kn = known([(argument_free, list(argv)), (is_setting("idp_totals"), idps), (is_setting("read_from_agents_csv_file"), False), (is_setting("EmptyCampsOnDay0"), False)])
                        w = "%d camps, idp_totals %d%s%s" % (len(camps), idps, ", process %d" % rank if world == "parallel" else "", ", 3 days given" if days == 9 else "")

                        calls = []

                        def fold():
                            b = R.Bind(kn, calls=run.calls())
                            p, b = R.the_way([p for p in paths if p.exit != "raise"], b, mod)
                            out = written(p, b)
                            calls.extend(day_order(p, b))
                            return lines([x for x in out if x[0] == "text" and x[1] is None]).get(None, [])
                        got = attempt(ctx, "O03", mod + " " + w, fold)
                        if got is None:
                            continue
                        seen += 1
                        table(ctx, fn, mod, w, run, ndays, got, world == "parallel" and rank != 0)
                        n = calls.count("evolve")
                        ctx.check(n == ndays, "O03.steps", "%s (%s)" % (mod, w), "%d steps are taken in %d days" % (n, ndays), fn.where())
                        ctx.check(n == 0 or calls[0] == "evolve", "O03.steps", "%s (%s)" % (mod, w), "agents are counted before the day's step: %s" % calls[:3], fn.where())
        ctx.need("result tables of %s" % mod, seen)
    counted(ctx)


def counted(ctx):
    """the camps a table has columns for, and the totals it prints"""
    kinds = [("Alpha", True, False, 3), ("Beta", False, False, 50), ("Gamma", True, True, 20), ("Delta", True, True, 0), ("Zeta", False, False, 7), ("Eta", True, False, 1000)]
    for w in ("serial", "parallel"):
        f = ctx.method(w, "Ecosystem.get_camp_names")
        ps = [p for p in ctx.paths(w, f) if p.exit not in ("raise", "exit")]
        n = 0
        for pick in ((0, 1, 2, 3, 4, 5), (5, 2, 0), (1, 4), (1, 3), ()):
            locs = [R.Rec(kinds[i][0], name=kinds[i][0], camp=kinds[i][1], idpcamp=kinds[i][2], numAgents=kinds[i][3], foreign=i % 2 == 0, town=not kinds[i][1], conflict=-1.0, marker=False) for i in pick]

            def run():
                b = R.Bind(known([(own("locations"), locs), (own("locationNames"), [x.name for x in locs])]))
                p, b = R.the_way(ps, b, f.qual)
                return list(R.value(p.value, p, b))
            got = attempt(ctx, "O03", "%s (%s)" % (f.qual, w), run)
            if got is None:
                continue
            n += 1
            want = [kinds[i][0] for i in pick if kinds[i][1]]
            ctx.check(got == want, "O03.camps", f.qual, "the camps among %s are given as %s (%s)" % ([kinds[i][0] for i in pick], got, w), f.where())
        ctx.need("lists of camps (%s)" % w, n, 3)
    f = ctx.method("serial", "Ecosystem.numIDPs")
    ps = [p for p in ctx.paths("serial", f) if p.exit not in ("raise", "exit")]
    n = 0
    for pick in ((0, 1, 2, 3, 4, 5), (2,), (0, 1), ()):
        locs = [R.Rec(kinds[i][0], name=kinds[i][0], camp=kinds[i][1], idpcamp=kinds[i][2], numAgents=kinds[i][3] + i, foreign=i % 2 == 0, town=not kinds[i][1], conflict=-1.0, marker=False) for i in pick]

        def idps():
            b = R.Bind(known([(own("locations"), locs)]))
            p, b = R.the_way(ps, b, f.qual)
            return R.value(p.value, p, b)
        got = attempt(ctx, "O03", f.qual, idps)
        if got is None:
            continue
        n += 1
        want = sum(kinds[i][3] + i for i in pick if kinds[i][2])
        ctx.check(got == want, "O03.idps", f.qual, "%s internally displaced are counted instead of %d" % (got, want), f.where())
    ctx.need("counts of internally displaced", n, 2)
    f = ctx.method("serial", "Ecosystem.numAgents")
    for p in ctx.paths("serial", f):
        got = attempt(ctx, "O03", f.qual, lambda: R.value(p.value, p, R.Bind(known([(own("agents"), ["a", "b", "c"])]))))
        if got is not None:
            ctx.check(got == 3, "O03.total", f.qual, "3 agents are counted as %s" % (got,), f.where())


def table(ctx, fn, mod, w, run, ndays, got, silent):
    c = "%s (%s)" % (mod, w)
    if silent:
        ctx.check(not got, "O03.once", c, "a process other than the first one prints %r" % (got[:1],), fn.where())
        return
    if not ctx.check(bool(got), "O03.heading", c, "no heading is printed", fn.where()):
        return
    head = got[0].split(",")
    ctx.check(head[:2] == ["Day", "Date"], "O03.heading", c, "the heading starts with %s" % head[:2], fn.where())
    want = ["%s %s" % (x, k) for x in run.camps for k in ("sim", "data", "error")]
    ctx.check(head[2:2 + len(want)] == want, "O03.heading", c, "the headings of the camps are %s" % head[2:2 + len(want)], fn.where())
    rest = head[2 + len(want):]
    ctx.check(len(set(rest)) == len(rest) and all(h in TOTALS for h in rest), "O03.heading", c, "the other headings are %s" % rest, fn.where())
    missing = [h for h in list(TOTALS)[:6] if h not in rest]
    ctx.check(not missing, "O03.heading", c, "the headings lack %s" % missing, fn.where())
    if mod.startswith("runscripts"):
        ctx.check(("total IDPs" in rest) is bool(run.idps), "O03.heading", c, "the heading of the internally displaced is %s" % ("there" if "total IDPs" in rest else "missing"), fn.where())
    rows = got[1:]
    ctx.check(len(rows) == ndays, "O03.days", c, "%d rows for %d days" % (len(rows), ndays), fn.where())
    for t, row in enumerate(rows[:ndays]):
        f = row.split(",")
        if not ctx.check(len(f) == len(head), "O03.width", c, "day %d has %d values under %d headings" % (t, len(f), len(head)), fn.where()):
            continue
        e = run.expected(t)
        for h, v in zip(head, f):
            if h in e:
                ctx.check(same_number(v, e[h]), "O03.column", "%s %s" % (c, h), "the value under %r on day %d is %s, not %s" % (h, t, v, " or ".join(sorted(e[h]))), fn.where())


def same_number(v, ok):
    if v in ok:
        return True
    try:
        return any(abs(float(v) - float(x)) < 1e-9 for x in ok)
    except ValueError:
        return False


READS = ("rel_error", "abs_error", "numIDPs", "numAgents")


def day_order(p, b):
    """names of the calls that move or count agents, in order"""
    mine = lambda e: e.kind == "call" and e.name.split(".")[-1] in READS + ("evolve",)
    return [e.name.split(".")[-1] for e, q, bb in R.replay(p, b, mine)]


# ---- O04 -----------------------------------------------------------------------
LOOKS = {"print", "printInfo", "printComplete", "export_graph", "get_camp_names", "numAgents", "numIDPs", "numAgentsOnRank", "getScore", "get_distance", "calculateDistance",
         "getRankN", "getBaseEndPointScore", "_convert_location_name_to_index"}
LOOKERS = ("Location", "Link", "Ecosystem", "Person")
DRAW = ("random.", "numpy.random.", "secrets.", "uuid.")
CHANGERS = SHUFFLERS | {"random.shuffle"}


def draws(name):
    return name.startswith(DRAW)


def looks(ctx, w):
    out = {}
    for k in LOOKERS:
        c = ctx.worlds[w].get(k)
        if c is None:
            continue
        for b in c.mro():
            for nm in b.methods:
                f = c.find(nm)
                if nm in LOOKS and f is not None:
                    out[f] = "%s.%s" % (k, nm)
    for f in ctx.prog.module(DIAG).functions.values() if ctx.prog.module(DIAG) else ():
        if f.name.startswith(("write_", "print_")):
            out[f] = f.name
    return out


def o04(ctx):
    n = 0
    for w in ("serial", "parallel"):
        seeds = looks(ctx, w)
        todo, seen = list(seeds), set()
        byname = {}
        for k in LOOKERS:
            c = ctx.worlds[w].get(k)
            for b in (c.mro() if c is not None else ()):
                for nm in b.methods:
                    byname.setdefault(nm, set()).add(c.find(nm))
        stop = {f.name for f in ctx.prog.all_funcs()} | {"print"}
        via = {f: f.name for f in todo}
        while todo:
            fn = todo.pop()
            if fn in seen:
                continue
            seen.add(fn)
            try:
                ps = ctx.paths(w, fn, stop=stop, inline=lambda g: g is fn)
            except Exception as x:          # noqa
                ctx.notes.append("O04: %s is not followed: %s" % (fn.qual, x))
                continue
            lids = loops_of(ps)
            hit = set()
            for p in ps:
                for o in flatten(p):
                    e = o.ev
                    n += 1
                    if e.kind == "call":
                        if draws(e.name):
                            ctx.fail("O04.draw", "%s|%s" % (fn.qual, e.name), "looking (%s) draws a random number with %s" % (via[fn], e.name), "%s %s" % (e.func, e.where), witness(p))
                        f = e.d.get("fn")
                        more = [f] if f is not None else list(byname.get(e.name[1:], ())) if e.name.startswith(".") else []
                        for g in more:
                            if isinstance(g, Func) and g not in seen and g.name != "__init__":
                                via.setdefault(g, via[fn])
                                todo.append(g)
                    b = impure(e, lids)
                    if b is not None:
                        what = e.attr if e.kind == "write" else owned(b)
                        if what in hit:
                            continue
                        hit.add(what)
                        ctx.fail("O04.touch", "%s|%s" % (fn.qual, what), "looking (%s) changes %s" % (via[fn], "%s of %s" % (e.attr, T.show(b)) if e.kind == "write" else T.show(b)), "%s %s" % (e.func, e.where), witness(p))
            ctx.ok("O04.pure")
        ctx.need("operations that only look (%s)" % w, len(seen), 12)
        alike(ctx, "O04", (), 20, tt=Logs(ctx, w), scripts=("runscripts.run",) if w == "serial" else ("runscripts.run_par",), what="functions that change the model")
    ctx.ok("O04.paths", n)


def owned(b):
    while b.op in ("idx", "elem", "copy") and b.args or b.op == "call" and b.args[0] in (".get", ".setdefault", ".values", ".items", "$keys") and b.args[1] or b.op == "popped":
        b = b.args[1][0] if b.op == "call" else b.args[0]
    return b.args[1] if b.op in ("attr", "classattr") else T.show(b)


def log_test(n, names):
    """the test of a branch asks for a log level"""
    for x in ast.walk(n):
        if isinstance(x, ast.Attribute) and x.attr == "log_levels" or isinstance(x, ast.Name) and (x.id in names or x.id == "log_levels"):
            return True
    return False


def log_only(prog, mods):
    """attributes set only as far as a log level asks for it (and whatever is set by what is called there)"""
    byname = {}
    for f in prog.all_funcs():
        if f.module.name in mods:
            byname.setdefault(f.name, []).append(f)
    out, todo, seen = set(), [], set()

    def stores(nodes):
        for m in nodes:
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.attr)
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    y = x.value
                    while isinstance(y, ast.Subscript):
                        y = y.value
                    if isinstance(y, ast.Attribute):
                        out.add(y.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    if isinstance(x.func.value, ast.Attribute) and x.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "update", "add", "discard", "setdefault"):
                        out.add(x.func.value.attr)
                    for g in byname.get(x.func.attr, ()):
                        if g not in seen:
                            seen.add(g)
                            todo.append(g)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                    for g in byname.get(x.func.id, ()):
                        if g not in seen:
                            seen.add(g)
                            todo.append(g)

    def block(body, names):
        for i, st in enumerate(body):
            if isinstance(st, ast.Assign) and log_test(st.value, names):
                names |= {t.id for t in st.targets if isinstance(t, ast.Name)}
            if isinstance(st, ast.If) and log_test(st.test, names):
                stores(st.body + st.orelse)
                for half in (st.body, st.orelse):
                    if half and isinstance(half[-1], (ast.Return, ast.Continue, ast.Break)):
                        stores(body[i + 1:])
                continue
            for k in ("body", "orelse", "finalbody"):
                if isinstance(getattr(st, k, None), list):
                    block(getattr(st, k), names)
            for h in getattr(st, "handlers", ()):
                block(h.body, names)
    for f in prog.all_funcs():
        if f.module.name in mods and f.module.name not in (DIAG,):
            block(f.node.body, set())
    while todo:
        stores(todo.pop().node.body)
    return out


class Logs(Taint):
    """which values depend on the log levels, and what in the course of a run may not"""
    word = "depends on the log levels"

    def __init__(self, ctx, w):
        self.world = w
        self.logged = log_only(ctx.prog, MODS)
        super().__init__(ctx, ())

    def _bad(self, t, depth):
        if t.op in ("classattr", "attr", "global") and t.args[1] == "log_levels":
            return t
        if t.op == "attr" and t.args[1] in self.logged:
            return t
        if t.op == "sym" and t.args[0] == "Debug":
            return t
        if t.op in ("result", "call") and draws(t.args[0]):
            return None
        for a in T.children(t):
            r = self.bad(a, depth + 1)
            if r is not None:
                return r
        return None

    def collective_result(self, f):
        return False

    def op(self, e):
        if e.kind == "call":
            if draws(e.name) and not e.name.endswith("seed"):
                return ("draw with " + e.name, tuple(v for _, v in e.args))
            f = self.callee(e)
            if f is not None and self.has_ops(f):
                return ("call of " + f.qual, tuple(self.given(e, f)))
        if e.kind in ("write", "subwrite", "mutate") or e.kind == "call" and e.name in CHANGERS:
            b = impure(e, self.lids)
            if b is None or self.fn is not None and self.fn.module.name == DIAG:
                return None
            what = e.attr if e.kind == "write" else owned(b)
            if what in self.logged or what == "log_levels":
                return None
            vs = [b] + [e.d[k] for k in ("value", "key") if e.d.get(k) is not None]
            return ("change of " + str(what), tuple(x for x in vs if isinstance(x, T.Term)))
        return None


RULES = {"O01": o01, "O02": o02, "O03": o03, "O04": o04}
EXPLAIN = {
    "O01": "every file operation of the log writers is folded over small crowds, log levels, times and process ranks; the text that results must have a heading per value and each agent's own values",
    "O03": "each driver's printed text is folded over camps (0 to 3), optional columns, ranks and days with and without raw data; every value must stand under its own heading",
    "O04": "every operation that only looks, and whatever it calls, is searched for changes of objects it did not make and for random draws; where two paths part on a log level, both must make the same changes and draws",
    "O02": "the link log's text is folded over small networks, times and process ranks; the growth of the counts is read off every path that changes them",
}
