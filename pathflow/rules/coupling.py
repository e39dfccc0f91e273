"""K01: coupled runs"""
from ..report import *          # noqa
from ..report import mk, T
from ..terms import const
from .. import replay as R
from .routing import is_sym
from .inputs import known, own, attempt
from .data import Fn, solid
from .output import name_of

MOD = "flee.coupling"
STOPS = {"generateOutputCSVString", "extractNewAgentsFromCSVString", "writeOutputToFile", "readInputFromFile", "waitForInputFiles", "logExchangeData", "addCoupledLocation",
         "clearLocationsFromAgents", "insertAgents", "insertAgent", "addAgent", "updateNumAgents", "_convert_location_name_to_index", "getConflictLocationNames"}


def sym(name):
    return is_sym(name)


def fn(ctx, name):
    return Fn(ctx, MOD, "CouplingInterface." + name, STOPS, "K01")


def hasmpi(t):
    return t.op in ("call", "result") and t.args[0] == "hasattr" and contains_attr(t, "e") and any(x.op == "const" and x.args[0] == "mpi" for x in T.walk(t))


def contains_attr(t, name):
    return any(is_attr(x, name) for x in T.walk(t))


PLACES = [("Alpha", "A", "inout", 3, 11), ("Beta", "B", "out", 1, 22), ("Gamma", "C", "in", 4, 33), ("Delta", "AB", "inout", 0, 44)]     # location, coupling name, direction, index, agents
SHAPES = {"no place": [], "one sending": PLACES[1:2], "one receiving": PLACES[2:3], "one in both directions": PLACES[:1], "four places": PLACES, "four places, other order": PLACES[::-1]}


def world(places, mpi=None):
    locs = [R.Rec("location %d" % i, name="loc%d" % i, numAgents=0, links=[]) for i in range(6)]
    for loc, name, way, i, n in places:
        locs[i] = R.Rec("location " + loc, name=loc, numAgents=n, links=[])
    e = R.Rec("e", locations=locs, locationNames=[l.attrs["name"] for l in locs], agents=[])
    if mpi is not False:
        e.attrs["mpi"] = mpi
    return e


def setup(places, e, interval=1, **more):
    env = [(own("location_names"), [p[0] for p in places]), (own("names"), [p[1] for p in places]), (own("directions"), [p[2] for p in places]), (own("location_ids"), [p[3] for p in places]),
           (own("intervals"), [interval] * len(places)), (own("e"), e), (own("outputdir"), "outdir"), (own("log_exchange_data"), False), (own("instance_index"), 1),
           (hasmpi, "mpi" in e.attrs)]
    for k, v in more.items():
        env.append((own(k), v))
    return env


MINE = "A,91\nB,92\nC,93\nAB,94\n"


def counts(text):
    out = {}
    for line in text:
        r = line.split(",")
        if r[0] and r[0][0] != "#":
            out[r[0]] = int(r[1])
    return out


def k01(ctx):
    outgoing(ctx)
    incoming(ctx)
    files(ctx)
    registered(ctx)
    exchange(ctx)
    managers(ctx)
    combined(ctx)
    waiting(ctx)
    driven(ctx)


# ---- what is reported and read ----------------------------------------------------
def outgoing(ctx):
    f = fn(ctx, "generateOutputCSVString")
    n = 0
    for label, places in SHAPES.items():
        got = f.run(setup(places, world(places)), what="(%s)" % label)
        if got is None:
            continue
        n += 1
        want = sorted("%s,%d" % (p[1], p[4]) for p in places if "out" in p[2])
        have = sorted(x for x in got[1].split("\n") if x)
        ctx.check(have == want, "K01.reported", "%s (%s)" % (f.fn.qual, label), "for %s the model reports %s" % ([p[1:] for p in places], have), f.where)
    ctx.need("reports of counts", n, 3)


def incoming(ctx):
    f = fn(ctx, "extractNewAgentsFromCSVString")
    text = ["#C,7", "", "AB,0", "A,5", "X,9", "B,12", "ABC,1"]
    n = 0
    for label, places in SHAPES.items():
        got = f.run(setup(places, world(places)) + [(sym("csv_string"), list(text))], what="(%s)" % label)
        if got is None:
            continue
        n += 1
        want = {k: v for k, v in (("A", 5), ("AB", 0), ("B", 12)) if k in [p[1] for p in places]}
        have = {k: v for k, v in got[1].items() if k in [p[1] for p in places]} if isinstance(got[1], dict) else got[1]
        ctx.check(have == want, "K01.read", "%s (%s)" % (f.fn.qual, label), "the lines %s are read as %s by a model coupling %s" % (text, got[1], [p[1] for p in places]), f.where)
    ctx.need("reports read", n, 3)


def files(ctx):
    """a report is complete when its file appears, under the name the other model waits for"""
    w = fn(ctx, "writeOutputToFile")
    path = None
    for day in (0, 7):
        for idx in (0, 2):
            env = [(own("outputfilename"), "channel"), (own("instance_index"), idx), (own("outputdir"), "outdir"), (own("submodel"), "macro"), (own("coupling_type"), "file"), (sym("day"), day)]
            calls = {"generateOutputCSVString": lambda: "the report\n", "join": lambda *a: "/".join(a), "open": lambda name, *a, **k: R.Rec("file " + name, filename=name)}

            def out():
                p, b = w.way(env, calls)
                seen, final = {}, {}
                order = []
                for e, q, bb in R.replay(p, b, lambda e: e.kind == "call" and e.fn is None and e.name.split(".")[-1] in ("open", "write", "writelines", "replace", "rename", "move")):
                    k = e.name.split(".")[-1]
                    val = lambda t: R.value(t, q, bb)
                    if k == "open":
                        if len(e.args) > 1 and "r" in str(val(e.args[1][1])):
                            continue
                        seen[val(e.args[0][1])] = ""
                        order.append(("made", val(e.args[0][1])))
                    elif k in ("write", "writelines"):
                        if e.recv.op == "ext":
                            continue
                        nm = name_of(val(e.recv))
                        v = val(e.args[0][1])
                        seen[nm] = seen.get(nm, "") + (v if k == "write" else "".join(v))
                        order.append(("filled", nm))
                    else:
                        a, z = val(e.args[0][1]), val(e.args[1][1])
                        seen[z] = seen.pop(a, None)
                        order.append(("moved", z))
                return seen, order
            got = attempt(ctx, "K01", w.fn.qual, out)
            if got is None:
                continue
            seen, order = got
            name = "outdir/file/coupled/channel[%d].%d.csv" % (idx, day)
            ctx.check(seen.get(name) == "the report\n", "K01.file", w.fn.qual, "instance %d leaves %s on day %d, not the report under %s" % (idx, seen, day, name), w.where)
            ctx.check(("made", name) not in order, "K01.halffile", w.fn.qual, "the file the other model waits for exists before it is filled", w.where)
            path = name
    r = fn(ctx, "readInputFromFile")
    n = 0
    for k in (1, 2, 3):
        for t in (0, 7):
            env = [(own("inputfilename"), "channel"), (own("num_instances"), k), (own("outputdir"), "outdir"), (own("coupling_type"), "file"), (sym("t"), t), (own("submodel"), "macro")]
            calls = {"join": lambda *a: "/".join(a), "open": lambda name, *a, **kw: R.Rec("file " + name, filename=name), "waitForInputFiles": lambda *a: None,
                     "extractNewAgentsFromCSVString": lambda csv_string=None: counts(csv_string), "read": lambda *a: "A,5\nB,12\n", "isinstance": lambda x, c: isinstance(x, list)}

            def opened():
                p, b = r.way(env, calls)
                waits, opens = [], []
                for e, q, bb in R.replay(p, b, lambda e: e.kind == "call" and (e.name.split(".")[-1] in ("open", "waitForInputFiles"))):
                    if e.name.endswith("open"):
                        opens.append(R.value(e.args[0][1], q, bb))
                    else:
                        d, fs = R.value(e.args[0][1], q, bb), R.value(e.args[1][1], q, bb)
                        waits += [d + "/" + x for x in fs] if not opens else []
                return waits, opens
            want = ["outdir/file/coupled/channel[%d].%d.csv" % (i, t) for i in range(k)]
            got = attempt(ctx, "K01", "%s (%d instances)" % (r.fn.qual, k), opened)
            if got is None:
                continue
            n += 1
            ctx.check(sorted(got[0]) == want, "K01.awaited", r.fn.qual, "with %d instances, on day %d the files %s are waited for" % (k, t, got[0]), r.where)
            ctx.check(sorted(got[1]) == want, "K01.files", r.fn.qual, "with %d instances, on day %d the files %s are read" % (k, t, got[1]), r.where)
            if k == 1:
                val = r.run(env, calls, "(one instance)")
                if val is not None and isinstance(val[1], dict) and any(isinstance(x, (list, tuple)) for x in val[1].values()):
                    ctx.notes.append("K01: the last loop over the combined counts is not followed")
                elif val is not None:
                    ctx.check(val == ("return", {"A": 5, "B": 12}), "K01.taken", r.fn.qual, "the report A,5 B,12 of one instance is taken as %s" % (val[1],), r.where)
    if not n:
        ctx.notes.append("K01: the files read are not followed")
    c = fn(ctx, "setCouplingChannel")
    for p in c.ps:
        ws = {o.ev.attr: o.ev.value for o in flatten(p) if o.ev.kind == "write"}
        for a, k in (("outputfilename", "outputchannel"), ("inputfilename", "inputchannel")):
            if a in ws:
                ctx.check(is_sym(k)(ws[a]), "K01.channel", c.fn.qual, "%s is set to %s" % (a, T.show(ws[a])), c.where, witness(p))


# ---- registration -------------------------------------------------------------------
LISTS = ("location_ids", "location_names", "names", "directions", "intervals")


def registered(ctx):
    f = fn(ctx, "addCoupledLocation")
    n = 0
    for mpi in (False, None, 0, 1):
        for new in (True, False):
            places = PLACES[:2]
            e = world(PLACES, R.Rec("mpi", rank=mpi) if mpi in (0, 1) and mpi is not False else mpi)
            name = "Gamma" if new else "Alpha"
            env = setup(places, e) + [(sym("location"), e.attrs["locations"][4 if new else 3]), (sym("name"), "C"), (sym("direction"), "in"), (sym("interval"), 5)]
            calls = {"_convert_location_name_to_index": lambda *a, **k: [x.attrs["name"] for x in e.attrs["locations"]].index((list(a) + list(k.values()))[0])}

            def out():
                p, b = f.way(env, calls)
                d = {}
                for a in LISTS:
                    d[a] = None
                for e_, q, bb in R.replay(p, b, lambda e: e.kind in ("write", "mutate")):
                    if e_.kind == "write" and is_sym("self")(e_.base):
                        d[e_.attr] = R.value(e_.value, q, bb)
                    elif e_.kind == "mutate" and is_attr(e_.base) and e_.base.args[1] in LISTS:
                        cur = d[e_.base.args[1]]
                        if cur is None:
                            cur = R.value(e_.base, q, bb)
                        getattr(cur, e_.method)(*[R.value(x, q, bb) for x in e_.args])
                        d[e_.base.args[1]] = cur
                return d
            got = attempt(ctx, "K01", "%s (%s)" % (f.fn.qual, name), out)
            if got is None:
                continue
            n += 1
            old = {"location_ids": [3, 1], "location_names": ["Alpha", "Beta"], "names": ["A", "B"], "directions": ["inout", "out"], "intervals": [1, 1]}
            add = {"location_ids": 4, "location_names": "Gamma", "names": "C", "directions": "in", "intervals": 5}
            for a in LISTS:
                have = old[a] if got[a] is None else got[a]
                want = old[a] + [add[a]] if new else old[a]
                ctx.check(have == want, "K01.registered", "%s|%s" % (f.fn.qual, a), "registering %s location %s makes %s %s, not %s" % ("the new" if new else "again the", name, a, have, want), f.where)
            if new:
                ctx.check("coupling_rank" in got and bool(got["coupling_rank"]) is (mpi is False or not mpi), "K01.rank", f.fn.qual, "rank %s is%s the one that reports" % (
                    "of a serial model" if mpi is False or mpi is None else mpi, "" if got.get("coupling_rank") else " not"), f.where)
    ctx.need("registrations", n, 4)
    for name, way, linked in (("addGhostLocations", "out", False), ("addMicroConflictLocations", "in", True)):
        f = fn(ctx, name)
        e = world(PLACES[:2])
        locs = e.attrs["locations"]
        locs[0].attrs["links"] = ["a link"]
        env = setup([], e) + [(sym("ig"), R.Rec("ig"))]
        calls = {"getConflictLocationNames": lambda *a: ["loc0", "Alpha", "nowhere"], "addCoupledLocation": lambda *a, **k: None}

        def called():
            p, b = f.way(env, calls)
            out = []
            for e_, q, bb in R.replay(p, b, lambda e: e.kind == "call" and e.name.endswith("addCoupledLocation")):
                a = {k: R.value(v, q, bb) for k, v in e_.args}
                out.append((a["location"].name if isinstance(a["location"], R.Rec) else a["location"], a["name"], a.get("direction")))
            return out
        got = attempt(ctx, "K01", f.fn.qual, called)
        if got is None:
            continue
        want = {("location Alpha", "Alpha", way)} | ({("location 0", "loc0", way)} if linked else set())
        ctx.check(set(got) == want, "K01.ghosts", f.fn.qual, "of a linked (loc0) and an unlinked (Alpha) conflict location, %s are registered" % (got,), f.where)


# ---- one exchange --------------------------------------------------------------------
ACTS = {"writeOutputToFile", "readInputFromFile", "send", "receive", "clearLocationsFromAgents", "insertAgents", "insertAgent", "updateNumAgents", "generateOutputCSVString", "bcast"}


def acting(e):
    return e.kind == "call" and e.name.split(".")[-1] in ACTS


def pos(e, name, i):
    for k, v in e.args:
        if k == name:
            return v
    xs = [v for k, v in e.args if k.startswith("#")]
    return xs[i] if i < len(xs) else None


def acts(f, env, calls):
    p, b = f.way(env, calls)
    out = []
    for e, q, bb in R.replay(p, b, acting):
        k = e.name.split(".")[-1]
        val = lambda t: R.value(t, q, bb) if t is not None else None
        if k == "clearLocationsFromAgents":
            x = val(pos(e, "location_names", 0))
            if isinstance(x, R.Obj):
                raise R.Unknown(str(x))
            out.append((k, sorted(x)))
        elif k in ("insertAgents", "insertAgent"):
            loc = val(pos(e, "location", 0))
            if isinstance(loc, R.Obj):
                raise R.Unknown(str(loc))
            out.append(("insert", loc.attrs["name"], solid(val(pos(e, "number", 1))) if k == "insertAgents" else 1))
        elif k == "writeOutputToFile":
            out.append((k, val(pos(e, "day", 0))))
        elif k == "readInputFromFile":
            out.append((k, val(pos(e, "t", 0))))
        elif k == "send":
            out.append((k, val(pos(e, "port", 0)), val(pos(e, "message", 1)), val(pos(e, "slot", 2))))
        elif k == "receive":
            out.append((k, val(pos(e, "port", 0)), val(pos(e, "slot", 1))))
        else:
            out.append((k,))
    return out


def exchange(ctx):
    f = fn(ctx, "Couple")
    reports = {"A": 3, "B": 4, "C": 6, "AB": 7}
    n = 0
    for kind in ("file", "muscle3"):
        for sub in ("micro", "macro"):
            for label, places in SHAPES.items():
                if not places:
                    continue
                for mpi, rank in ((False, 0), (None, 0), ("mpi", 0), ("mpi", 1)):
                    for interval, time in ((1, 0), (1, 5), (3, 6), (3, 7), (3, 8)):
                        m = R.Rec("mpi", rank=rank, comm=R.Rec("comm")) if mpi == "mpi" else mpi
                        e = world(places, m)
                        env = setup(places, e, interval, coupling_type=kind, submodel=sub, coupling_rank=rank == 0, num_instances=1, instance=R.Rec("instance")) + [(sym("time"), time)]
                        mine = {k: v for k, v in reports.items() if k in [p[1] for p in places] and (k != "AB" or len(places) < 4)}
                        calls = {"readInputFromFile": lambda t=None: dict(mine), "extractNewAgentsFromCSVString": lambda csv_string=None: counts(csv_string),
                                 "receive": lambda *a, **k: R.Rec("message", data="\n".join("%s,%d" % x for x in mine.items())), "generateOutputCSVString": lambda: MINE,
                                 "Message": lambda *a, **k: ("message",) + a + tuple(k.values()), "bcast": lambda x=None, root=0, **k: dict(mine), "writeOutputToFile": lambda *a, **k: None}
                        got = attempt(ctx, "K01", "%s (%s, %s, %s)" % (f.fn.qual, kind, sub, label), lambda: acts(f, env, calls))
                        if got is None:
                            continue
                        n += 1
                        here = "%s|%s" % (f.fn.qual, kind)
                        case = "%s, %s, %s, day %d of interval %d%s" % (kind, sub, label, time, interval, ", rank %d" % rank if mpi == "mpi" else "")
                        if time % interval:
                            ctx.check(not got, "K01.interval", here, "(%s) something is exchanged between two exchanges: %s" % (case, [x[0] for x in got]), f.where)
                            continue
                        judge(ctx, f, here, case, kind, places, mine, got, time, rank, mpi)
    ctx.need("exchanges", n, 40)


def judge(ctx, f, here, case, kind, places, mine, got, time, rank, mpi):
    at = lambda k: [i for i, x in enumerate(got) if x[0] == k]
    one = lambda rule, ok, msg: ctx.check(ok, rule, here, "(%s) %s" % (case, msg), f.where)
    # leaving agents are reported once, before they are taken out, and before waiting for the other model
    if kind == "file":
        sent, read = at("writeOutputToFile"), at("readInputFromFile")
        one("K01.once", [got[i][1] for i in sent] == ([time] if rank == 0 else []), "the report is written %d times, for the days %s" % (len(sent), [got[i][1] for i in sent]))
        one("K01.once", len(read) == 1 and got[read[0]][1] == time, "the other model's report is read %d times, for the days %s" % (len(read), [got[i][1] for i in read]))
    else:
        sent, read = at("send"), at("receive")
        if rank == 0:
            one("K01.once", [got[i][1] for i in sent] == ["out"], "%d messages are sent" % len(sent))
            one("K01.once", [got[i][1] for i in read] == ["in"], "%d messages are received" % len(read))
            if len(sent) == 1:
                v = got[sent[0]][2]
                if isinstance(v, tuple):
                    one("K01.message", v[1] == time and v[3] == {"newAgents": MINE} if len(v) > 3 else False, "the message is %s" % (v[1:],))
        else:
            one("K01.once", not sent and not read, "a rank other than the first sends or receives")
    clears = at("clearLocationsFromAgents")
    ins = [x for x in got if x[0] == "insert"]
    outs = sorted(p[0] for p in places if "out" in p[2])
    cleared = sorted(n for i in clears for n in got[i][1])
    one("K01.cleared", sorted(set(cleared)) == outs, "agents are taken out of %s, those reported are at %s" % (cleared, outs))
    if sent and read:
        one("K01.order", sent[-1] < read[0], "the other model's report is waited for before this one's is given: both wait for ever")
    if sent and clears:
        one("K01.order", sent[-1] < clears[0], "agents are taken out before they are reported")
    want = sorted((p[0], mine[p[1]]) for p in places if "in" in p[2].replace("inout", "in") and p[1] in mine)
    have = {}
    for _, nm, k in ins:
        have[nm] = have.get(nm, 0) + k
    have = sorted((k, v) for k, v in have.items() if v or (k, v) in want)
    one("K01.inserted", have == [w for w in want if w[1] or w in have], "with the report %s, agents are inserted as %s, not %s" % (mine, have, want))
    first = min([i for i, x in enumerate(got) if x[0] == "insert"], default=None)
    if first is not None and any(i > first for i in clears):
        bad = [n for i in clears if i > first for n in got[i][1] if n in [x[1] for x in got[:i] if x[0] == "insert"]]
        one("K01.order", not bad, "agents just inserted at %s are taken out again" % bad)
    if mpi is not False and (ins or clears):
        ups = at("updateNumAgents")
        end = max(i for i, x in enumerate(got) if x[0] in ("insert", "clearLocationsFromAgents"))
        end = max((i for i, x in enumerate(got) if x[0] == "insert"), default=-1)
        one("K01.totals", end < 0 or bool(ups) and ups[-1] > end, "the numbers of agents are not brought up to date after inserting")


# ---- managers ------------------------------------------------------------------------
def managers(ctx):
    f = fn(ctx, "Couple")
    n = 0
    for sub in ("macro_manager", "micro_manager"):
        for k in (1, 2, 3):
            for interval, time in ((1, 4), (2, 5)):
                places = PLACES
                e = world(places)
                env = setup(places, e, interval, coupling_type="muscle3", submodel=sub, coupling_rank=True, num_instances=k, instance=R.Rec("instance")) + [(sym("time"), time)]
                calls = {"extractNewAgentsFromCSVString": lambda csv_string=None: counts(csv_string), "receive": lambda *a, **kw: R.Rec("message", data={"newAgents": "A,5\nB,12"}),
                         "Message": lambda *a, **kw: ("message",) + a + tuple(kw.values()), "isinstance": lambda x, c: isinstance(x, list)}

                def counted():
                    p, b = f.way(env, calls)
                    d = {"send": [], "receive": [], "other": []}
                    for e_, q, bb in R.replay(p, b, acting):
                        s = e_.name.split(".")[-1]
                        if s in ("send", "receive"):
                            d[s].append((R.value(pos(e_, "port", 0), q, bb), R.value(pos(e_, "slot", 2 if s == "send" else 1), q, bb)))
                            if s == "send" and k == 1:
                                v = R.value(pos(e_, "message", 1), q, bb)
                                d["text"] = v[-1] if isinstance(v, tuple) else None
                        else:
                            d["other"].append(s)
                    return d
                got = attempt(ctx, "K01", "%s (%s, %d instances)" % (f.fn.qual, sub, k), counted)
                if got is None:
                    continue
                n += 1
                here = "%s|%s" % (f.fn.qual, sub)
                slots = list(range(k)) if time % interval == 0 else []
                ctx.check(sorted(got["receive"]) == [("in", i) for i in slots], "K01.managed", here, "(%d instances) the manager receives %s" % (k, got["receive"]), f.where)
                ctx.check(sorted(got["send"]) == [("out", i) for i in slots], "K01.managed", here, "(%d instances) the manager sends %s" % (k, got["send"]), f.where)
                ctx.check(not [x for x in got["other"] if x in ("clearLocationsFromAgents", "insertAgents", "insertAgent")], "K01.managed", here, "a manager changes agents: %s" % got["other"], f.where)
                if slots and k == 1 and isinstance(got.get("text"), str):
                    ctx.check(counts(got["text"].split("\n")) == {"A": 5, "B": 12}, "K01.passed", here, "the report A,5 B,12 is passed on as %r" % got["text"], f.where)
    if not n:
        ctx.notes.append("K01: the managers are not followed")


# ---- several instances -----------------------------------------------------------------
def combined(ctx):
    """every count of every instance goes into the mean"""
    for name in ("readInputFromFile", "Couple"):
        f = fn(ctx, name)
        seen, how = 0, set()
        for p in f.ps:
            for lp in [e for e in p.events if e.kind == "loop"]:
                src = [o for q in lp.paths for o in q.events if o.kind == "call" and o.name.endswith("extractNewAgentsFromCSVString")]
                if not src:
                    continue
                seen += 1
                for q in lp.paths:
                    if q.exit == "stop":
                        continue
                    rs = {e.result for e in q.events if e.kind == "call" and e.name.endswith("extractNewAgentsFromCSVString")}
                    uses = lambda t: isinstance(t, T.Term) and any(x in rs for x in T.walk(t))
                    weighed(ctx, f, p, lp, q, uses)
                    kept = any(isinstance(k, str) and uses(q.state.env.get(k)) for k in lp.d["init"])
                    for e in q.events:
                        if e.kind == "loop" and (uses(e.raw) or uses(e.iter)):
                            ok = [item(r, e) for r in e.paths if r.exit != "stop"]
                            if any(ok) and not all(ok):
                                ctx.fail("K01.mean", f.fn.qual, "a count of a later instance is left out of what is combined", e.where, witness(p))
                            kept = kept or any(carries(x, rs, e) for r in e.paths for x in given(r))
                        elif e.kind in ("mutate", "write", "subwrite") and any(uses(v) for v in list(e.d.values()) + list(e.d.get("args") or ())) or e.kind == "call" and e.result not in rs and any(uses(v) for _, v in e.args):
                            kept = True
                    ctx.check(kept, "K01.mean", f.fn.qual, "the counts of an instance are not used (path with %s)" % "; ".join("%s%s" % ("" if v else "not ", T.show(a)[:60]) for a, v in list(q.cons.items())[-2:]), lp.where, witness(p))
                how |= {x.args[0].split(".")[-1] for o in flatten(p) for v in list(o.ev.d.values()) + list(o.ev.d.get("args") or ()) if isinstance(v, T.Term) for x in T.walk(v) if x.op in ("call", "result")}
                how |= {"div" for o in flatten(p) for v in list(o.ev.d.values()) + list(o.ev.d.get("args") or ()) if isinstance(v, T.Term) for x in T.walk(v) if x.op == "mul" and any(e == -1 for _, e in x.args[1])}
        other = how & {"max", "min", "amax", "amin", "median", "nanmax", "nanmin", "percentile", "sum"}
        if not how & {"mean", "average", "fmean", "nanmean", "div"} and other:
            ctx.fail("K01.mean", f.fn.qual, "the instances are combined by %s" % "/".join(sorted(other)), f.where)
        if not seen:
            ctx.notes.append("K01: no loop over instances in %s" % f.fn.qual)


def weighed(ctx, f, p, lp, q, uses):
    """what is kept between instances is not already averaged: later instances would weigh more than earlier ones"""
    running = lambda t: any(x.op in ("loopvar", "afterloop", "phi") or x.op == "after" for x in T.walk(t))
    for o in flatten(q):
        if o.ev.kind not in ("subwrite", "write"):
            continue
        v = o.ev.value
        while v.op == "call" and v.args[0] in ("int", "round", "float"):
            v = v.args[1][0]
        if v.op == "lin":
            mine = [(x, k) for x, k in v.args[1] if running(x)]
            new = [(x, k) for x, k in v.args[1] if uses(x)]
            bad = mine and new and [k for x, k in mine + new if x.op != "mul" and k != 1]
        else:
            bad = v.op == "call" and v.args[0] in ("max", "min") and running(v) and uses(v) or v.op == "call" and v.args[0].split(".")[-1] in ("mean", "average", "fmean") and running(v) and uses(v) and any(x.op in ("list", "tuple") and len(x.args) == 2 and all(y.op == "idx" for y in x.args) for x in v.args[1])
        ctx.check(not bad, "K01.mean", f.fn.qual, "what the instances so far gave and the next one are not kept on equal terms (an average of two at a time, or the bigger), so that with three or more instances they do not weigh the same", o.ev.where, witness(p))


def given(r):
    """what the path of a loop stores or hands on"""
    for o in flatten(r):
        e = o.ev
        for v in list(e.d.values()) + [x[1] if isinstance(x, tuple) else x for x in (e.d.get("args") or ())]:
            if isinstance(v, T.Term) and v is not e.d.get("recv") and v is not e.d.get("key"):
                yield v
                if (v, "$items") in r.state.heap:
                    yield r.state.heap[(v, "$items")]


def carries(t, rs, inner):
    """the count itself is in t, not only the name it is filed under"""
    if t in rs:
        return True
    if t.op == "elem":
        return t.args[1] == inner.lid
    if t.op == "idx":
        base, k = t.args[0], t.args[1]
        if base.op == "elem" and isinstance(k, T.Term) and k.op == "const" and k.args[0] == 0:
            return False
        return carries(base, rs, inner)
    return any(carries(c, rs, inner) for c in T.children(t))


def item(r, inner):
    """the path keeps the value of the item"""
    def has(t):
        return isinstance(t, T.Term) and any(x.op in ("elem", "idx") and any(y.op == "elem" and y.args[1] == inner.lid for y in T.walk(x)) and x.op == "idx" for x in T.walk(t))
    for e in r.events:
        if e.kind == "mutate" and any(has(a) for a in e.args) or e.kind == "subwrite" and has(e.value):
            return True
    return False


# ---- waiting ----------------------------------------------------------------------------
def waiting(ctx):
    f = fn(ctx, "waitForInputFiles")
    n = 0
    for there in ([], ["a"], ["b"], ["a", "b"], ["a", "b", "c"]):
        def ends():
            p, b = f.way([(sym("check_dir"), "dir"), (sym("in_fnames"), {k: False for k in "abc"})], {"exists": lambda x: x.split("/")[-1] in there, "isfile": lambda x: x.split("/")[-1] in there, "join": lambda *a: "/".join(a)})
            try:
                list(R.replay(p, b))
            except R.Unknown as e:
                if "goes on" in str(e):
                    return False
                raise
            return True
        got = attempt(ctx, "K01", "%s (%s)" % (f.fn.qual, there), ends)
        if got is None:
            continue
        n += 1
        ctx.check(got is (len(there) == 3), "K01.waits", f.fn.qual, "with %s of the files a, b, c there, the model %s" % (there, "goes on" if got else "waits for ever"), f.where)
    if not n:
        ctx.notes.append("K01: waiting is not followed")


# ---- the program that couples -------------------------------------------------------------
def driven(ctx):
    for name in ("run_manager", "run_micro_macro_model"):
        g = ctx.prog.func("multiscale.run_mscale", name)
        if g is None:
            continue
        ps = ctx.paths("serial", g, stop={"Couple", "evolve", "addAgent", "updateNumAgents", "AddNewConflictZones", "get_daily_difference", "refresh_conflict_weights", "rel_error", "abs_error"} | STOPS)
        days = 0

        def couples(e):
            return e.kind == "call" and e.name.split(".")[-1] == "Couple"

        def look(paths):
            nonlocal days
            for q in paths:
                for lp in [e for e in q.events if e.kind == "loop"]:
                    if any(couples(x) for r in lp.paths for x in r.events):
                        days += 1
                        for r in lp.paths:
                            if r.exit == "stop":
                                continue
                            cs = [(i, x) for i, x in enumerate(r.events) if couples(x)]
                            t = pos(cs[0][1], "time", 0) if cs else None
                            ctx.check(len(cs) == 1 and t is not None and (t is lp.elem or lp.loopkind == "while" and t.op == "loopvar" or t.op in ("index", "idx")), "K01.daily", g.qual, "on a day the models are coupled %d times (for %s)" % (len(cs), t and T.show(t)), lp.where, witness(r))
                            if not cs:
                                continue
                            adds = [i for i, x in enumerate(r.events) if x.kind == "loop" and any(y.kind == "call" and y.name.split(".")[-1] in ("addAgent", "insertAgent") for z in x.paths for y in z.events)]
                            adds = [i for i in adds if i < cs[0][0]]
                            ups = [i for i, x in enumerate(r.events) if x.kind == "call" and x.name.split(".")[-1] == "updateNumAgents"]
                            if adds:
                                ctx.check(any(adds[-1] < u < cs[0][0] for u in ups), "K01.fresh", g.qual, "the numbers of agents are not brought up to date between adding agents and coupling", lp.where, witness(r))
                    else:
                        look(lp.paths)
        look(ps)
        if not days:
            ctx.notes.append("K01: no daily loop with coupling in %s" % g.qual)


RULES = {"K01": k01}
EXPLAIN = {
    "K01": "registration, reports, files and the exchange itself are folded over directions, intervals, days, ranks and coupling types: the order and arguments of reporting, clearing and inserting are compared with one exchange per interval",
}
