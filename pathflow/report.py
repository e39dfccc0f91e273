"""Obligations, findings and shared analysis helpers for the rules."""
import ast
import os
from .model import AnalysisBroken, Class, Func
from . import interp as I
from . import terms as T
from .terms import mk


class Finding:
    def __init__(self, prop, rule, construct, msg, where, witness=None):
        self.prop, self.rule, self.construct, self.msg, self.where = prop, rule, construct, msg, where
        self.witness = witness or []

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)

    def as_dict(self):
        return {"property": self.prop, "rule": self.rule, "construct": self.construct, "message": self.msg,
                "where": self.where, "witness": self.witness}


class Check:
    """one run of the rules of one property over one source tree"""

    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.worlds = I.worlds(prog)
        self.findings, self.obl, self.notes, self.undecided = {}, {}, [], []
        self.paths_seen = 0
        self.funcs = set()
        self._cache = {}

    # -- verdicts
    def ok(self, rule, n=1):
        self.obl[rule] = self.obl.get(rule, 0) + n

    def fail(self, rule, construct, msg, where="", witness=None):
        self.ok(rule)
        f = Finding(self.pid, rule, construct, msg, where, witness)
        self.findings.setdefault(f.key, f)

    def check(self, cond, rule, construct, msg, where="", witness=None):
        if cond:
            self.ok(rule)
        else:
            self.fail(rule, construct, msg, where, witness)
        return bool(cond)

    def need(self, what, n, least=1):
        """an anchor count: too few means the analysis lost sight of this part of the code, which is then not decided"""
        if n < least:
            self.undecided.append("%s: found %d, expected at least %d" % (what, n, least))

    # -- program access
    def method(self, world, ref):
        """'Person.evolve' in a world -> Func (most derived)"""
        cname, fname = ref.split(".")
        c = self.worlds[world].get(cname)
        if c is None:
            raise AnalysisBroken("no class %s in %s model" % (cname, world))
        f = c.find(fname)
        if f is None:
            raise AnalysisBroken("method vanished: %s.%s (%s model)" % (cname, fname, world))
        return f

    def func(self, ref):
        mod, fn = ref.split(":")
        return self.prog.func(mod, fn)

    def paths(self, world, fn, stop=(), args=None, keep=None, on_read=None, on_call=None, on_index=None, effects=None, max_alts=64,
              recvtype=None, field_types=None, inline=None, max_states=6000, cache=True, **kw):
        """all paths of fn (a Func); functions whose name is in `stop` stay opaque calls"""
        key = (world, fn.qual, frozenset(stop), None if args is None else tuple(sorted(args.items(), key=lambda x: str(x[0]))),
               id(keep) if keep else None, max_alts, tuple(sorted(kw.items())))
        usecache = cache and not (on_read or on_call or on_index or effects or inline or field_types)
        if usecache and key in self._cache:
            return self._cache[key]
        stop = set(stop)
        by = inline or (lambda g: g.name not in stop and g.qual not in stop)
        it = I.Interp(self.prog, self.worlds[world], inline=lambda g: by(g) or helper(self.prog, g),
                      keep=keep, on_read=on_read, on_call=on_call, on_index=on_index, field_types=field_types,
                      max_states=max_states, **kw)
        if effects:
            it.effects.update(effects)
        a = dict(args or {})
        if fn.cls is not None and not fn.static and fn.params and fn.params[0] not in a:
            ty = recvtype
            if ty is None:
                for k, c in self.worlds[world].items():
                    if fn.cls in c.mro():
                        ty = k
                        break
            a[fn.params[0]] = mk("sym", "self", ty=ty or it.type_of_class(fn.cls))
        for p in fn.params + fn.kwonly:
            if p not in a and p in PARAM_TYPES:
                a[p] = mk("sym", p, ty=PARAM_TYPES[p])
        keep_alts, I.MAX_ALTS = I.MAX_ALTS, max_alts
        try:
            ps = it.run(fn, a)
        finally:
            I.MAX_ALTS = keep_alts
        self.paths_seen += len(ps)
        self.funcs |= it.funcs_seen
        if usecache:
            self._cache[key] = ps
        return ps


PARAM_TYPES = {"e": "Ecosystem", "agent": "Person", "a": "Person", "loc": "Location", "location": "Location",
               "link": "Link", "agents": "list:Person", "locations": "list:Location", "endpoint": "Location",
               "source_loc": "Location", "startpoint": "Location", "other_location": "Location",
               "location_names": "list:str", "l": "Location", "route_to_l": "list", "route": "list", "dest_list": "list", "weights": "list", "routes": "list",
               "attributes": "dict", "time": "int", "t": "int", "step": "int", "number": "int", "name": "str",
               "location_name": "str", "endpoint1": "str", "endpoint2": "str",
               "origin_names": "list:str", "prior_distance": "float", "location_type": "str"}


class Occ:
    """an event with its position and everything known around it"""
    __slots__ = ("pos", "ev", "loops", "cons", "path")

    def __init__(self, pos, ev, loops, cons, path):
        self.pos, self.ev, self.loops, self.cons, self.path = pos, ev, loops, cons, path

    @property
    def where(self):
        return "%s %s" % (self.ev.func, self.ev.where)


def flatten(path, base_cons=None, base_pos=(), loops=()):
    """all events of a path, entering each variant of each loop body once"""
    cons = dict(base_cons or {})
    cons.update(path.cons)
    out = []
    for i, e in enumerate(path.events):
        pos = base_pos + (i,)
        out.append(Occ(pos, e, loops, cons, path))
        if e.kind == "loop":
            for j, q in enumerate(e.paths):
                out.extend(flatten(q, cons, pos + (j,), loops + ((e, q),)))
    return out


def occs(paths, pred=None):
    for p in paths:
        for o in flatten(p):
            if pred is None or pred(o.ev):
                yield o


def inner_paths(paths):
    """every loop body path at any depth: (loop event, body path, cons around)"""
    for p in paths:
        for o in flatten(p):
            if o.ev.kind == "loop":
                for q in o.ev.paths:
                    c = dict(o.cons)
                    c.update(q.cons)
                    yield o.ev, q, c


def witness(path, limit=14):
    out = ["when %s is %s" % (T.show(k), v) for k, v in list(path.cons.items())[:limit]]
    return out


def iscall(e, name):
    return e.kind == "call" and (e.name == name or e.name.split(".")[-1] == name)


def argof(e, name, pos=None):
    for k, v in e.args:
        if k == name:
            return v
    if pos is not None:
        for k, v in e.args:
            if k == "#%d" % pos:
                return v
    return None


def base_attr(t):
    """attr term -> (base, name) else (None, None)"""
    if t is not None and t.op == "attr":
        return t.args[0], t.args[1]
    return None, None


def is_attr(t, name, base=None):
    return t is not None and t.op == "attr" and t.args[1] == name and (base is None or t.args[0] is base)


def root_list(t):
    """look through copies: the container a for-each element comes from"""
    if t is not None and t.op in ("elem", "index"):
        return t.args[0]
    return None


def setting(t):
    """SimulationSettings.x['k'] -> (group, key)"""
    if t is None:
        return None
    if t.op == "idx" and t.args[1].op == "const":
        b = t.args[0]
        if b.op == "classattr":
            return (b.args[1], t.args[1].args[0])
    if t.op == "classattr" and t.args[0] == "SimulationSettings":
        return (None, t.args[1])
    return None


def mksetting(group, key):
    return mk("idx", mk("classattr", "SimulationSettings", group), T.const(key))


def cons_has(cons, atom, val):
    return cons.get(atom) is val


def names_in(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def callgraph(prog):
    """name-based over-approximation: Func -> set of simple names it mentions as attribute/call"""
    out = {}
    for f in prog.all_funcs():
        s = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                s.add(n.attr)
            elif isinstance(n, ast.Name):
                s.add(n.id)
        out[f] = s
    return out


def reachable(prog, roots, stop=()):
    """functions possibly called from roots (by simple name)"""
    cg = callgraph(prog)
    byname = {}
    for f in cg:
        byname.setdefault(f.name, []).append(f)
    seen, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for n in cg.get(f, ()):
            if n in stop:
                continue
            for g in byname.get(n, ()):
                if g not in seen:
                    todo.append(g)
    return seen


def attr_writers(prog, names, modules=None):
    """functions that syntactically store/augment an attribute with one of the names"""
    out = []
    for f in prog.all_funcs():
        if modules and not f.module.name.startswith(modules):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in names:
                out.append((f, n))
            elif (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1
                  and isinstance(n.args[1], ast.Constant) and n.args[1].value in names):
                out.append((f, n))
    return out


def callers(prog):
    """name -> functions that call something of that name (None: the top of a module)"""
    by = getattr(prog, "_callers", None)
    if by is None:
        by = prog._callers = {}
        for g in prog.all_funcs():
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call):
                    nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                    if nm:
                        by.setdefault(nm, set()).add(g)
        for m in prog.modules.values():
            for st in m.tree.body:
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    for x in ast.walk(st):
                        if isinstance(x, ast.Call):
                            nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                            if nm:
                                by.setdefault(nm, set()).add(None)
    return by


def inventory():
    """the functions the rules were written for; others are read as parts of those that call them"""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "inventory.txt")) as f:
        return {x.strip() for x in f if x.strip()}


def helper(prog, g):
    """a function besides the known ones, called by others of its module: its callers are judged with its body in place of the call"""
    new = getattr(prog, "_helpers", None)
    if new is None:
        known = inventory()
        by = callers(prog)
        new = prog._helpers = {f for f in prog.all_funcs() if f.qual not in known and not f.name.startswith("__") and any(
            c is not None and c is not f and c.module is f.module for c in by.get(f.name, ()))}
    return g in new


def called_only_by(prog, f, ok, seen=()):
    """f qualifies, or is a helper that only qualifying functions (or their helpers) call"""
    if ok(f):
        return True
    if f in seen:
        return True
    by = callers(prog)
    cs = by.get(f.name, set()) - {f}
    return bool(cs) and None not in cs and all(called_only_by(prog, g, ok, seen + (f,)) for g in cs)


# ---- how a list was put together ----------------------------------------------
def gather(p, v, lid=None):
    """the steps that built the list v by the end of path p, in order:
    ("one", item) | ("many", list) (with "front" before the kind for what a loop body puts before the rest) | ("loop", loop event, [(body path, steps)]);
    None when the construction is not understood"""
    if v is None:
        return None
    if v.op in ("list", "tuple"):
        return [("one", x) for x in v.args]
    if v.op == "concat":
        out = []
        for x in v.args:
            if x.op == "loopvar" and lid is not None and x.args[0] == lid:
                out = [("front" + s[0],) + s[1:] for s in out]     # added before what was there
                continue
            if x.op == "list":
                out += [("one", y) for y in x.args]
            elif x.op in ("after", "new", "afterloop"):
                r = gather(p, x, lid)
                if r is None:
                    return None
                out += r
            else:
                out.append(("many", x))
        return out
    if v.op == "loopvar":
        return [] if lid is not None and v.args[0] == lid else None
    if v.op == "new" and v.args[0] in ("list", "dict", "set"):
        c = p.state.heap.get((v, "$items"))
        return gather(p, c, lid) if c is not None else None
    if v.op in ("after", "afterloop"):
        lp = next((e for e in p.events if e.kind == "loop" and e.lid == v.args[0]), None)
        if lp is None:
            return None
        key = v.args[1] if v.op == "after" else (v.args[1], "$items")
        pre = gather(p, lp.d["init"].get(key), lid)
        if pre is None:
            return None
        bodies = []
        for q in lp.paths:
            if q.exit == "stop":
                continue
            x = q.state.env.get(key) if v.op == "after" else q.state.heap.get(key)
            if x is None or x is lp.d["init"].get(key):
                r = []
            else:
                r = gather(q, x, lp.lid)
            if r is None:
                return None
            bodies.append((q, r))
        return pre + [("loop", lp, bodies)]
    if v.op == "call" and v.args[0] in ("list", "tuple") and len(v.args[1]) == 1:
        return gather(p, v.args[1][0], lid)
    if v.op == "copy":
        return gather(p, v.args[0], lid)
    return [("many", v)] if v.op in ("attr", "idx", "result", "sym", "elem", "slicing") else None
