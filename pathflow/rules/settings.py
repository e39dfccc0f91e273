"""C01, C02: the settings file"""
import ast
from ..report import *          # noqa
from ..report import mk, T
from ..model import AnalysisBroken, Class, Func
from ..terms import NONE, TRUE, FALSE, const
from .. import replay as R

GROUPS = ("log_levels", "spawn_rules", "move_rules", "optimisations")
S = "SimulationSettings"
SQRT = mk("classattr", S, "sqrt_ten")
NODEF = object()

# documented name -> where it is kept, conversion, default.  (docs/Simulation_settings_*.md, docs/Using_DFlee*.md)
L, SP, MV = ("log_levels",), ("spawn_rules",), ("move_rules",)
CD, FD, FR = SP + ("conflict_driven_spawning",), SP + ("flood_driven_spawning",), MV + ("flood_rules",)
SPEC = []


def _s(section, group, rows):
    for r in rows:
        SPEC.append((section, r[0], group, r[1], r[2], r[3]))


_s(L, "log_levels", [(k, k, "int", 0) for k in ("agent", "link", "camp", "conflict", "init", "idp_totals")] +
   [("granularity", "granularity", None, "location")])
_s(SP, "spawn_rules", [
    ("take_from_population", "TakeFromPopulation", "bool", False), ("insert_day0", "InsertDayZeroRefugeesInCamps", "bool", True),
    ("empty_camps_on_day0", "EmptyCampsOnDay0", "bool", False), ("conflict_zone_spawning_only", "conflict_zone_spawning_only", "bool", True),
    ("flood_zone_spawning_only", "flood_zone_spawning_only", "bool", False), ("camps_are_sinks", "camps_are_sinks", "bool", False),
    ("read_from_agents_csv_file", "read_from_agents_csv_file", "bool", False), ("sum_from_camps", "sum_from_camps", "bool", True),
    ("conflict_spawn_decay", "conflict_spawn_decay", None, None), ("conflict_spawn_decay_interval", "conflict_spawn_decay_interval", "int", 30)])
_s(CD, "spawn_rules", [("spawn_mode", "conflict_spawn_mode", None, NODEF), ("displaced_per_conflict_day", "displaced_per_conflict_day", NODEF, NODEF)])
_s(FD, "spawn_rules", [("flood_spawn_mode", "flood_spawn_mode", None, NODEF), ("displaced_per_flood_day", "displaced_per_flood_day", None, NODEF)])
_s(MV, "move_rules", [
    ("max_move_speed", "MaxMoveSpeed", "float", 360.0), ("max_walk_speed", "MaxWalkSpeed", "float", 35.0),
    ("max_crossing_speed", "MaxCrossingSpeed", "float", 20.0), ("foreign_weight", "ForeignWeight", "float", 1.0),
    ("camp_weight", "CampWeight", "float", 1.0), ("conflict_weight", "ConflictWeight", "float", NODEF),
    ("conflict_movechance", "ConflictMoveChance", "float", 1.0), ("camp_movechance", "CampMoveChance", "float", 0.001),
    ("idpcamp_movechance", "IDPCampMoveChance", "float", 0.1), ("default_movechance", "DefaultMoveChance", "float", 0.3),
    ("awareness_level", "AwarenessLevel", "int", 1), ("capacity_buffer", "CapacityBuffer", "float", 0.9),
    ("capacity_scaling", "CapacityScaling", "float", 1.0), ("avoid_short_stints", "AvoidShortStints", "bool", False),
    ("start_on_foot", "StartOnFoot", "bool", False), ("softening", "DistanceSoftening", "float", 10.0),
    ("weight_softening", "WeightSoftening", "float", 0.0), ("weight_power", "WeightPower", "float", 1.0),
    ("distance_power", "DistancePower", "float", 1.0), ("stay_close_to_home", "StayCloseToHome", "bool", False),
    ("home_distance_power", "HomeDistancePower", "float", 0.5), ("use_pop_for_loc_weight", "UsePopForLocWeight", "bool", False),
    ("pop_power_for_loc_weight", "PopPowerForLocWeight", "float", 0.1), ("movechance_pop_base", "MovechancePopBase", "float", 10000.0),
    ("movechance_pop_scale_factor", "MovechancePopScaleFactor", "float", 0.0), ("pruning_threshold", "PruningThreshold", "float", 1.0),
    ("fixed_routes", "FixedRoutes", "bool", False)] +
   [(k, k, "bool", False) for k in ("ChildrenAvoidHazards", "BoysTakeRisk", "MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity")])
_s(FR, "move_rules", [
    ("flood_movechances", "FloodMovechances", None, NODEF), ("flood_loc_weights", "FloodLocWeights", None, NODEF),
    ("flood_forecaster", "FloodForecaster", "bool", False), ("flood_forecaster_timescale", "FloodForecasterTimescale", "int", 0),
    ("flood_forecaster_weights", "FloodForecasterWeights", None, NODEF), ("flood_forecaster_end_time", "FloodForecasterEndTime", "int", 0),
    ("flood_awareness_weights", "FloodAwarenessWeights", None, NODEF)])
_s(FR, "spawn_rules", [("max_flood_level", "MaxFloodLevel", "int", -1)])
_s(("optimisations",), "optimisations", [("hasten", "PopulationScaleDownFactor", "int", 1)])
_s((), None, [("conflict_input_file", "ConflictInputFile", None, ""), ("flood_level_input_file", "FloodLevelInputFile", None, "")])
_s(MV, None, [("use_v1_rules", "UseV1Rules", "bool", False)])
V1 = {("move_rules", "MaxMoveSpeed"): 200, ("move_rules", "StartOnFoot"): False, ("move_rules", "AvoidShortStints"): False,
      ("move_rules", "CampWeight"): 2.0, ("move_rules", "ConflictWeight"): 0.25}


def lookups(ctx):
    """functions that return data[name] when present and a default otherwise: qual -> (data, name, default) parameters"""
    out = {}
    rd = ctx.func("flee.SimulationSettings:SimulationSettings.ReadFromYML")
    names = {n.func.id if isinstance(n.func, ast.Name) else n.func.attr for n in ast.walk(rd.node)
             if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))}
    cands = [f for f in ctx.prog.all_funcs() if f.name in names and f.module is rd.module and f is not rd and 3 <= len(f.params) <= 4]
    for f in cands:
        ps = [p for p in ctx.paths("serial", f, args={p: mk("sym", p, ty=None) for p in f.params}) if p.exit == "return"]
        vals = [p for p in ps if p.value is not None]
        par = {p: mk("sym", p, ty=None) for p in f.params}
        hit = None
        for p in vals:
            if p.value.op == "idx" and p.value.args[0] in par.values() and p.value.args[1] in par.values():
                hit = (p.value.args[0], p.value.args[1])
            if p.value.op == "call" and p.value.args[0] == ".get" and p.value.args[1][0] in par.values():
                hit = (p.value.args[1][0], p.value.args[1][1])
        if hit is None:
            continue
        d, k = hit
        defs = {p.value for p in vals if p.value.op == "sym" and p.value not in hit}
        if len(defs) > 1:
            continue
        df = next(iter(defs)) if defs else None
        good = True
        for p in vals:
            for g in p.alts or [p.cons]:
                inn = g.get(mk("in", k, d, ty="bool"))
                miss = [v for a, v in g.items() if a.op == "none" and a.args[0] is d or a.op == "nonempty" and a.args[0] is d]
                nn = g.get(mk("none", d, ty="bool"))
                if p.value.op == "idx":
                    good &= inn is True
                elif p.value is df:
                    good &= inn is False or nn is True or any(a.op not in ("in", "none") and T.contains(a, d) for a in g)
                elif p.value.op == "call":
                    good &= len(p.value.args[1]) > 2 and (df is None or p.value.args[1][2] is df)
                else:
                    good = False
        back = {v: n for n, v in par.items()}
        if not ctx.check(good, ctx.pid + ".lookup", f.qual, "looking up a setting does not return exactly the value given in the file, or else the default", f.where(f.node)):
            pass
        out[f.qual] = (f.params.index(back[d]), f.params.index(back[k]), f.params.index(back[df]) if df is not None else None, f.params)
    return out


CONV = {"int", "float", "bool", "str"}


def decode(t, lk):
    """term -> (section tuple, key, default term, [conversions outermost first]) or None"""
    conv = []
    while t.op == "call" and t.args[0] in CONV and len(t.args[1]) == 1:
        conv.append(t.args[0])
        t = t.args[1][0]
    r = _look(t, lk)
    if r is None:
        return None
    data, key, df = r
    sec = section(data, lk)
    if sec is None or key is None or key.op != "const":
        return None
    return sec, key.args[0], df, conv


def _look(t, lk):
    if t.op == "result" and t.args[0] in lk:
        i, j, k, ps = lk[t.args[0]]
        a = t.args[2]
        return a[i], a[j], (a[k] if k is not None else NONE)
    if t.op == "call" and t.args[0] == ".get" and len(t.args[1]) >= 2:
        return t.args[1][0], t.args[1][1], t.args[1][2] if len(t.args[1]) > 2 else NONE
    if t.op == "idx":
        return t.args[0], t.args[1], None
    return None


def section(t, lk):
    if t.op == "result" and "yaml" in str(t.args[0]):
        return ()
    r = _look(t, lk)
    if r is None or r[1].op != "const":
        return None
    s = section(r[0], lk)
    return None if s is None else s + (r[1].args[0],)


def load_paths(ctx):
    lk = lookups(ctx)
    ctx.need("settings lookup functions or .get lookups", len(lk), 0)
    fn = ctx.func("flee.SimulationSettings:SimulationSettings.ReadFromYML")
    ps = ctx.paths("serial", fn, stop=set(lk))
    res = []
    for p in ps:
        if p.exit != "return":
            continue
        res.append((p, stores(p)))
    ctx.need("ways to load a settings file", len(res))
    return fn, lk, res


def stores(p):
    """final (group, key) -> (value, event); also every store in order"""
    out = {}
    for o in flatten(p):
        e = o.ev
        if e.kind == "subwrite" and e.base.op == "classattr" and e.base.args[0] == S and e.d["key"].op == "const":
            k = (e.base.args[1], e.d["key"].args[0])
            out.setdefault(k, []).append((e.value, e, o))
        elif e.kind == "write" and (e.base.op == "class" and e.base.args[0].name == S or e.base.op == "classattr" and e.base.args[0] == S):
            if e.base.op == "class":
                out.setdefault((None, e.attr), []).append((e.value, e, o))
    return out


def num(t):
    """constant value of a term or None"""
    if t is None:
        return NODEF
    t = T.strip(t)
    if t.op == "const":
        return t.args[0]
    return NODEF


def same_const(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or (type(a) in (int, float, bool) and type(b) in (int, float, bool) and float(a) == float(b))
    return a == b


def listval(p, t):
    if t.op == "new" and t.args[0] == "list":
        c = p.state.heap.get((t, "$items"))
        if c is not None and c.op == "list":
            return [num(x) for x in c.args]
    return None


def spec_rows(keys=None):
    return [r for r in SPEC if keys is None or (r[2], r[3]) in keys]


def check_rows(ctx, rule, rows, fn, lk, res):
    v1 = mk("classattr", S, "UseV1Rules")
    for sec, yk, group, stored, conv, dflt in rows:
        label = "%s.%s" % (".".join(sec), yk) if sec else yk
        nread = 0
        for p, st in res:
            lst = st.get((group, stored))
            if lst is None:
                continue
            val, ev, occ = lst[-1]
            d = decode(val, lk)
            if d is None and (group, stored) in V1 and val.op == "const" and same_const(val.args[0], V1[(group, stored)]) and \
                    v1_on(p, lk):
                # the value read from the file must still have been read before
                d = [decode(v, lk) for v, _, _ in lst if decode(v, lk)]
                ctx.check(bool(d), rule, label, "the setting is never read", ev.where)
                continue
            if d is None:
                # a constant is fine only while the section is not given on this path
                secgone = not any(decode_section_present(p, sec, lk))
                if val.op == "const" or listval(p, val) is not None:
                    if sec in (CD, FD, FR) and secgone:
                        ctx.ok(rule)
                        continue
                ctx.fail(rule, label, "%s[%r] is set to %s instead of the value of %s in the settings file" % (group or S, stored, T.show(val), label), ev.where)
                continue
            nread += 1
            s2, k2, df, cv = d
            if not ctx.check(s2 == sec and k2 == yk, rule, label, "%s[%r] is read from %s" % (group or S, stored, ".".join(s2 + (str(k2),))), ev.where):
                continue
            if conv is not NODEF:
                ctx.check(cv == ([conv] if conv else []) or (conv is not None and cv and cv[0] == conv), rule, label + " conversion",
                          "the value of %s is converted with %s" % (label, "/".join(cv) or "nothing"), ev.where)
            if df is not None and dflt is not NODEF:
                ctx.check(same_const(num(df), dflt), rule, label + " default", "the default of %s is %s, documented is %s" % (label, T.show(df), dflt), ev.where)
        ctx.check(nread > 0, rule, label, "the documented setting %s is never read into %s[%r]" % (label, group or S, stored), fn.where(fn.node))


def v1_on(p, lk):
    for g in p.alts or [p.cons]:
        ok = False
        for a, v in g.items():
            for x in T.walk(a):
                d = decode(x, lk)
                if d and d[1] == "use_v1_rules" and v is True:
                    ok = True
        if not ok:
            return False
    return True


def decode_section_present(p, sec, lk):
    """for each guard alternative: is the section known to be given"""
    for g in p.alts or [p.cons]:
        pres = False
        for a, v in g.items():
            if a.op == "none" and v is False and section(a.args[0], lk) == sec:
                pres = True
            if a.op == "nonempty" and v is True and section(a.args[0], lk) == sec:
                pres = True
        yield pres


def key_of(ctx, rule, yamlkey, storedkey, group):
    fn, lk, res = load_paths(ctx)
    rows = [r for r in SPEC if r[1] == yamlkey and r[2] == group and r[3] == storedkey]
    check_rows(ctx, rule, rows, fn, lk, res)


def consulted(prog):
    """every setting read anywhere: (group, key) -> [(function qual, where)]"""
    out = {}
    skip = ("flee.SimulationSettings",)
    for m in prog.modules.values():
        if m.name.startswith(("flee.postprocessing", "flee.preprocessing")) or "micro" in m.name or m.name.startswith("multiscale"):
            continue
        # names standing for a group of settings, per function
        of, alias = {}, {}
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for n in ast.walk(f):
                    of[n] = f
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr in GROUPS:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        alias[of.get(n), t.id] = n.value.attr
        for n in ast.walk(m.tree):
            key = None
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.ctx, ast.Load):
                v = n.value
                if isinstance(v, ast.Attribute) and v.attr in GROUPS and is_settings(prog, m, v.value):
                    key = (v.attr, n.slice.value)
                elif isinstance(v, ast.Name) and ((of.get(n), v.id) in alias or (None, v.id) in alias):
                    key = (alias.get((of.get(n), v.id)) or alias[None, v.id], n.slice.value)
            elif (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args
                  and isinstance(n.args[0], ast.Constant) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in GROUPS
                  and is_settings(prog, m, n.func.value.value)):
                key = (n.func.value.attr, n.args[0].value)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr not in GROUPS and is_settings(prog, m, n.value):
                key = (None, n.attr)
            if key is not None:
                out.setdefault(key, []).append((m.rel, getattr(n, "lineno", 0), m.name in skip))
    return out


def is_settings(prog, m, node):
    r = prog.resolve_expr(m, node)
    return isinstance(r, Class) and r.name == S


def written_attrs(prog):
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and is_settings(prog, m, n.value):
                out.add(n.attr)
    return out


def expand(keys):
    return keys


def c01(ctx):
    fn, lk, res = load_paths(ctx)
    check_rows(ctx, "C01.documented", SPEC, fn, lk, res)
    # no two file entries end up in the same place, none in two places
    for p, st in res:
        src = {}
        for k, lst in st.items():
            ds = {}
            for v, e, o in lst:
                d = decode(v, lk)
                if d:
                    ds[(d[0], d[1])] = e
            src[k] = ds
            ctx.check(len(ds) <= 1, "C01.overwritten", "%s[%s]" % k, "the settings %s are both stored as %r" % (", ".join(".".join(a + (str(b),)) for a, b in ds), k[1]), lst[-1][1].where)
        rev = {}
        for k, ds in src.items():
            for d in ds:
                rev.setdefault(d, []).append(k)
        for d, ks in rev.items():
            ctx.check(len(ks) == 1, "C01.split", ".".join(d[0] + (str(d[1]),)), "one setting is stored in %s" % ks, fn.where(fn.node))
    every = set()
    for p, st in res:
        every |= set(st)
    used = consulted(ctx.prog)
    ctx.need("settings consulted", len(used), 40)
    cls = ctx.prog.cls("flee.SimulationSettings", S)
    wr = written_attrs(ctx.prog)
    for (g, k), places in sorted(used.items(), key=str):
        if g is None:
            ok = (g, k) in every or cls.find(k) is not None or cls.class_attr(k) is not None
        else:
            ok = (g, k) in every
        where = "%s:%d" % places[0][:2]
        ctx.check(ok, "C01.consulted", "%s[%s]" % (g or S, k), "a setting is consulted that no settings file provides", where)
    whole_files(ctx, "C01.files", FILES)
    # the settings classes' tables are only changed by loading
    for f in ctx.prog.all_funcs():
        if f.module.name == "flee.SimulationSettings" or not f.module.name.startswith("flee") or "config_template" in f.module.name or "micro" in f.module.name:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute) and \
                    n.value.attr in GROUPS and is_settings(ctx.prog, f.module, n.value.value):
                ctx.fail("C01.changed", f.qual, "a setting is changed while the model runs", f.where(n))


def c02(ctx):
    fn, lk, res = load_paths(ctx)
    used = consulted(ctx.prog)
    cls = ctx.prog.cls("flee.SimulationSettings", S)
    for (g, k), places in sorted(used.items(), key=str):
        if g is None and (cls.find(k) is not None or cls.class_attr(k) is not None):
            continue
        if not any((g, k) in st for _, st in res):
            continue          # C01's business
        miss = [p for p, st in res if (g, k) not in st]
        ctx.check(not miss, "C02.defined", "%s[%s]" % (g or S, k),
                  "there are settings files after which this setting is undefined or left over from an earlier file, yet it is consulted at %s:%d" % places[0][:2],
                  fn.where(fn.node), witness(miss[0]) if miss else None)
    n = 0
    for p, st in res:
        for k, lst in st.items():
            v = lst[-1][0]
            n += 1
            bad = [x for x in T.walk(v) if stale(x)]
            ctx.check(not bad, "C02.stale", "%s[%s]" % k, "the setting is computed from %s, which an earlier settings file may have left" % (T.show(bad[0]) if bad else ""), lst[-1][1].where)
        for g in p.alts or [p.cons]:
            for a in g:
                bad = [x for x in T.walk(a) if stale(x)]
                ctx.check(not bad, "C02.stale", "branch on %s" % (T.show(bad[0]) if bad else ""), "what is loaded depends on what an earlier settings file left", fn.where(fn.node))
    ctx.need("stored settings", n, 40)


def stale(x):
    if x.op == "idx" and x.args[0].op == "classattr" and x.args[0].args[0] == S:
        return True
    return x.op == "classattr" and x.args[0] == S and x.args[1] not in GROUPS + ("sqrt_ten",)


# ---- whole files: what is stored for a settings file that gives these sections --------------------------------------
REFUSED = "refused"
LEVELS, COUNTS = [0.0, 0.1, 0.2, 0.5, 0.9], [0, 100, 200, 300, 500]
_c, _f = ("spawn_rules", "conflict_driven_spawning"), ("spawn_rules", "flood_driven_spawning")
_cm, _cd = ("spawn_rules", "conflict_spawn_mode"), ("spawn_rules", "displaced_per_conflict_day")
_fm, _fd, _fr = ("spawn_rules", "flood_spawn_mode"), ("spawn_rules", "displaced_per_flood_day"), ("move_rules", "FloodRulesEnabled")
_FZ = {"take_from_population": True, "conflict_zone_spawning_only": False, "flood_zone_spawning_only": True}
OFF = {_c: False, _f: False, _fr: False}


def _fl(**kw):
    return {"spawn_rules": dict(_FZ, flood_driven_spawning=kw)}


def _co(**kw):
    return {"spawn_rules": {"conflict_driven_spawning": kw}}


FILES = [
    ("no spawn rules", {"move_rules": {"awareness_level": 2}}, OFF),
    ("spawn rules without a driver", {"spawn_rules": {"take_from_population": True}}, OFF),
    ("conflict-driven spawning by population", _co(spawn_mode="pop_ratio", displaced_per_conflict_day=0.03), {_c: True, _f: False, _fr: False, _cm: "pop_ratio", _cd: 0.03}),
    ("conflict-driven spawning by population, default rate", _co(spawn_mode="pop_ratio"), {_c: True, _f: False, _cm: "pop_ratio", _cd: 0.01}),
    ("constant conflict-driven spawning", _co(spawn_mode="constant", displaced_per_conflict_day=700), {_c: True, _f: False, _cm: "constant", _cd: 700}),
    ("conflict-driven spawning, default mode", _co(displaced_per_conflict_day=700), {_c: True, _f: False, _cm: "constant", _cd: 700}),
    ("random conflict-driven spawning, default number", _co(spawn_mode="Poisson"), {_c: True, _f: False, _cm: "Poisson", _cd: 500}),
    ("flood-driven spawning by population", _fl(flood_spawn_mode="pop_ratio", displaced_per_flood_day=[0.0, 0.3, 0.6]), {_c: False, _f: True, _fr: True, _fm: "pop_ratio", _fd: [0.0, 0.3, 0.6]}),
    ("flood-driven spawning, default rates", _fl(flood_spawn_mode="pop_ratio"), {_c: False, _f: True, _fr: True, _fm: "pop_ratio", _fd: LEVELS}),
    ("flood-driven spawning, default mode", _fl(displaced_per_flood_day=[0.0, 0.3]), {_c: False, _f: True, _fr: True, _fm: "pop_ratio", _fd: [0.0, 0.3]}),
    ("constant flood-driven spawning", _fl(flood_spawn_mode="constant", displaced_per_flood_day=[0, 5, 6]), {_c: False, _f: True, _fr: True, _fm: "constant", _fd: [0, 5, 6]}),
    ("random flood-driven spawning, default numbers", _fl(flood_spawn_mode="poisson"), {_c: False, _f: True, _fr: True, _fm: "poisson", _fd: COUNTS}),
    ("flood zones only, no driver", {"spawn_rules": dict(_FZ)}, OFF),
    ("both drivers, flood zones only", {"spawn_rules": dict(_FZ, flood_driven_spawning={"flood_spawn_mode": "constant"}, conflict_driven_spawning={"spawn_mode": "constant"})}, {_c: False, _f: True, _fr: True}),
    ("both drivers, conflict zones only", {"spawn_rules": {"take_from_population": True, "flood_driven_spawning": {"flood_spawn_mode": "constant"}, "conflict_driven_spawning": {"spawn_mode": "constant"}}}, {_c: True, _f: False, _fr: False}),
    ("flood-driven spawning without taking people from the population", {"spawn_rules": dict(_FZ, take_from_population=False, flood_driven_spawning={"flood_spawn_mode": "constant"})}, REFUSED),
    ("conflict zones only and flood zones only", {"spawn_rules": dict(_FZ, conflict_zone_spawning_only=True, flood_driven_spawning={"flood_spawn_mode": "constant"})}, REFUSED),
    ("flood zones only, conflict zones only by default", {"spawn_rules": {"take_from_population": True, "flood_zone_spawning_only": True}}, REFUSED),
]


def looker(lk, qual):
    i, j, k, ps = lk[qual]

    def f(*a):
        d, key, df = a[i], a[j], a[k] if k is not None else None
        return d[key] if isinstance(d, dict) and key in d else df
    return f


def whole_files(ctx, rule, files):
    """the values stored for each of these settings files"""
    lk = lookups(ctx)
    fn = ctx.func("flee.SimulationSettings:SimulationSettings.ReadFromYML")
    ps = ctx.paths("serial", fn, stop=set(lk))
    calls = {q: looker(lk, q) for q in lk}
    for what, data, want in files:
        def known(t):
            return data if t.op == "result" and "yaml" in str(t.args[0]) else R.MISSING
        try:
            p, b = R.the_way(ps, R.Bind(known, calls=calls), fn.qual)
        except R.Unknown as e:
            ctx.notes.append("%s: %s: %s" % (rule, what, e))
            continue
        except (TypeError, ValueError, KeyError) as e:
            ctx.notes.append("%s: %s: %s" % (rule, what, e))
            continue
        if want is REFUSED or p.exit != "return":
            ctx.check(want is REFUSED and p.exit != "return", rule, what, "a settings file with %s is %s" % (what, "accepted" if p.exit == "return" else "refused"), fn.where(fn.node))
            continue
        st = stores(p)
        for k, v in want.items():
            if k not in st:
                ctx.fail(rule, "%s %s" % (what, k[1]), "with %s, %s[%r] is not set" % (what, k[0], k[1]), fn.where(fn.node))
                continue
            t, ev, _ = st[k][-1]
            try:
                got = listval(p, t)
                got = got if got is not None else R.value(t, p, b)
            except R.Unknown as e:
                ctx.notes.append("%s: %s: %s: %s" % (rule, what, k, e))
                continue
            ctx.check(same_const(got, v), rule, "%s %s" % (what, k[1]), "with %s, %s[%r] is %r and not %r" % (what, k[0], k[1], got, v), ev.where)


RULES = {"C01": c01, "C02": c02}
EXPLAIN = {
    "C01": "All ways of loading a settings file are enumerated with the look-up helper verified separately; the value finally kept for every documented entry is decoded to the section and name it was read under, its conversion and default. Every setting consulted anywhere in the package is matched with a stored one.",
    "C02": "On every way of loading a settings file every setting that is consulted anywhere must be stored, and neither the values nor the branches taken may depend on settings left from before.",
}
