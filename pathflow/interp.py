"""Path enumeration over the syntax tree with value numbering.

The interpreter walks every structured path of a function, inlines resolved
callees of the analysed program, treats each loop body once generically, and
keeps for every path the ordered list of observable effects (field writes,
container mutations, calls, draws from random generators) together with the
branch atoms taken.  No concrete inputs, no solver: branch atoms are only
compared for syntactic (normalised) equality.
"""
import ast
from .model import AnalysisBroken, Class, Func, Module
from . import terms as T
from .terms import NONE, TRUE, FALSE, const, mk

FIELD_TYPES = {
    ("Ecosystem", "agents"): "list:Person", ("Ecosystem", "locations"): "list:Location",
    ("Ecosystem", "locationNames"): "list:str", ("Ecosystem", "closures"): "list:list",
    ("Ecosystem", "mpi"): "MPIManager", ("Ecosystem", "time"): "int",
    ("Ecosystem", "spawn_weights"): "array", ("Ecosystem", "total_agents"): "int",
    ("Location", "links"): "list:Link", ("Location", "closed_links"): "list:Link",
    ("Location", "routes"): "dict", ("Location", "major_routes"): "list:list", ("Location", "name"): "str",
    ("Location", "attributes"): "dict", ("Location", "e"): "Ecosystem",
    ("Location", "camp"): "bool", ("Location", "idpcamp"): "bool", ("Location", "town"): "bool",
    ("Location", "marker"): "bool", ("Location", "forward"): "bool", ("Location", "flood_zone"): "bool",
    ("Location", "foreign"): "bool", ("Location", "region"): "str", ("Location", "country"): "str",
    ("Location", "numAgents"): "int", ("Location", "numAgentsOnRank"): "int", ("Location", "pop"): "int",
    ("Location", "incoming_journey_lengths"): "list:int",
    ("Link", "startpoint"): "Location", ("Link", "endpoint"): "Location", ("Link", "attributes"): "dict",
    ("Link", "closed"): "bool", ("Link", "forced_redirection"): "bool", ("Link", "name"): "str",
    ("Link", "numAgents"): "int", ("Link", "numAgentsOnRank"): "int",
    ("Person", "location"): "Place", ("Person", "home_location"): "Place", ("Person", "route"): "list:str",
    ("Person", "attributes"): "dict", ("Person", "e"): "Ecosystem", ("Person", "travelling"): "bool",
    ("Person", "locations_visited"): "list:Place", ("Person", "places_travelled"): "int",
    ("Place", "name"): "str", ("Place", "attributes"): "dict",
    ("MPIManager", "rank"): "int", ("MPIManager", "size"): "int",
    ("InputGeography", "locations"): "list:list", ("InputGeography", "links"): "list:list",
    ("InputGeography", "closures"): "list:list", ("InputGeography", "major_routes"): "list:list",
    ("InputGeography", "location_changes"): "list:list", ("InputGeography", "conflicts"): "dict",
    ("InputGeography", "attributes"): "dict",
}
PURE = {
    "len", "int", "float", "bool", "str", "max", "min", "abs", "round", "sum", "range", "enumerate", "zip",
    "isinstance", "sorted", "list", "tuple", "set", "dict", "any", "all", "repr", "type", "hasattr", "getattr",
    "math.radians", "math.sin", "math.cos", "math.sqrt", "math.atan2", "math.isclose", "math.floor", "math.ceil",
    "math.hypot", "math.pow", "reversed", "map", "filter", "id", "hash", "ord", "chr", "divmod", "pow",
    "numpy.sum", "numpy.abs", "numpy.cumsum", "os.path.join", "os.path.isfile", "os.path.exists", "os.sep.join",
    "os.getenv", "numpy.sqrt", "numpy.mean", "iter", "frozenset", "slice", "callable",
}
PURE_METHODS = {"lower", "upper", "strip", "split", "format", "get", "keys", "values", "items", "startswith",
                "endswith", "join", "replace", "rstrip", "lstrip", "index", "count", "tolist", "encode", "decode",
                "copy", "isdigit", "casefold", "title", "find"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault",
            "add", "discard", "popitem", "appendleft", "popleft", "fill", "resize"}
RETTY = {"len": "int", "int": "int", "float": "float", "str": "str", "bool": "bool", "range": "list:int",
         "round": None, "sorted": "list", "list": "list", "abs": None}
EXITS = {"sys.exit", "exit", "quit", "os._exit", "builtins.exit"}


def plain(x):
    return x.op in ("const", "ext") or x.op == "tuple" and all(plain(y) for y in x.args)


class Event:
    __slots__ = ("kind", "d", "where", "func", "key")

    def __init__(self, kind, where, func, **d):
        self.kind, self.d, self.where, self.func = kind, d, where, func
        self.key = (kind, tuple(sorted((k, _ek(v)) for k, v in d.items() if k not in ("paths", "fn", "astn", "cond", "init", "raw", "within"))),
                    tuple(p.key() for p in d.get("paths", ())), frozenset(d["init"].items()) if "init" in d else None)

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return "%s(%s)@%s" % (self.kind, ", ".join("%s=%s" % (k, T.show(v) if isinstance(v, (T.Term, tuple)) else v)
                                                   for k, v in self.d.items() if k not in ("paths", "astn", "fn", "init", "raw", "within")), self.where)


def _ek(v):
    if isinstance(v, (list, tuple)):
        return tuple(_ek(x) for x in v)
    return v if not isinstance(v, dict) else tuple(sorted((k, _ek(x)) for k, x in v.items()))


class State:
    __slots__ = ("env", "heap", "ev", "cons", "narrow", "ver", "order", "alts", "dead", "silent")

    def __init__(self):
        self.env, self.heap, self.ev, self.cons, self.narrow, self.ver = {}, {}, [], {}, {}, {}
        self.order = ()
        self.dead = None     # set once a callee raised or ended the program
        self.silent = {}     # loops without effects, kept for the values they work out
        self.alts = None     # alternatives joined into this state: list of branch-atom dicts

    def guards(self):
        """the branch atoms as a disjunction of conjunctions"""
        if not self.alts:
            return [self.cons]
        out = []
        for a in self.alts:
            d, ok = dict(a), True
            for k, v in self.cons.items():
                if d.setdefault(k, v) is not v:
                    ok = False
                    break
            if ok:
                out.append(d)
        return out

    def join(self, other):
        """same effects reached under other branch atoms"""
        al = simplify(self.guards() + other.guards())
        self.silent = {k: v for k, v in self.silent.items() if k not in other.silent or other.silent[k].key == v.key}
        self.cons = {a: b for a, b in self.cons.items() if other.cons.get(a) is b}
        self.alts = al if 1 < len(al) <= MAX_ALTS else None
        if len(al) == 1:
            self.cons = dict(al[0])

    def fork(self):
        s = State.__new__(State)
        s.env, s.heap, s.ev = dict(self.env), dict(self.heap), list(self.ev)
        s.cons, s.narrow, s.ver = dict(self.cons), dict(self.narrow), dict(self.ver)
        s.order = self.order
        s.alts = self.alts
        s.dead = self.dead
        s.silent = dict(self.silent)
        return s

    def sig(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), tuple(e.key for e in self.ev),
                frozenset(self.narrow.items()), frozenset(self.ver.items()), self.dead)


MAX_ALTS = 64


def simplify(alts):
    """merge conjunctions that differ in the polarity of one atom; absorb"""
    ds = []
    for a in alts:
        if not any(len(b) <= len(a) and all(a.get(k) is v for k, v in b.items()) for b in ds):
            ds = [b for b in ds if not (len(a) <= len(b) and all(b.get(k) is v for k, v in a.items()))]
            ds.append(a)
    changed = len(ds) <= 400
    while changed:
        changed = False
        for i in range(len(ds)):
            for j in range(i + 1, len(ds)):
                a, b = ds[i], ds[j]
                if len(a) == len(b):
                    diff = None
                    for k, v in a.items():
                        w = b.get(k)
                        if w is not v:
                            if w is None or diff is not None:
                                diff = False
                                break
                            diff = k
                    if diff not in (None, False):
                        c = {k: v for k, v in a.items() if k is not diff}
                        ds = [d for n, d in enumerate(ds) if n not in (i, j)]
                        if not any(all(c.get(k) is v for k, v in d.items()) for d in ds):
                            ds = [d for d in ds if not all(d.get(k) is v for k, v in c.items())]
                            ds.append(c)
                        changed = True
                        break
            if changed:
                break
    return ds


class Path:
    """a finished path: events, branch atoms, how it ended"""

    def __init__(self, state, out, base_ev=0, base_cons=None):
        self.events = state.ev[base_ev:]
        self.cons = {k: v for k, v in state.cons.items() if base_cons is None or k not in base_cons}
        self.exit = out[0]
        self.value = out[1] if len(out) > 1 else None
        self.state = state
        self.alts = [d if base_cons is None else {k: v for k, v in d.items() if k not in base_cons} for d in state.guards()]

    def key(self):
        return (tuple(e.key for e in self.events), self.exit, self.value, frozenset(frozenset(d.items()) for d in self.alts))

    def flat(self, loops=True):
        """events with one generic pass through every loop body variant is not
        meaningful; this yields events of this level only"""
        return self.events

    def __repr__(self):
        return "<Path %s %d events>" % (self.exit, len(self.events))


NORM = ("norm",)


class Ctx:
    """static frame: which function body is being walked"""
    __slots__ = ("fn", "site", "depth", "stack", "globals", "live")

    def __init__(self, fn, site, stack):
        self.fn, self.site, self.stack = fn, site, stack
        self.globals = set()
        self.live = frozenset()     # locals read after the current block


class Interp:
    def __init__(self, prog, world, inline=None, max_states=6000, max_depth=14, keep_prints=False,
                 on_read=None, on_call=None, field_types=None, on_index=None, asserts=False, keep=None):
        self.p, self.world = prog, world
        self.inline = inline or (lambda f: True)
        self.max_states, self.max_depth = max_states, max_depth
        self.keep_prints = keep_prints
        self.on_read, self.on_call, self.on_index = on_read, on_call, on_index
        self.ft = dict(FIELD_TYPES)
        if field_types:
            self.ft.update(field_types)
        self.asserts = asserts
        self.keep = keep       # event -> bool: events the rule looks at (None: all)
        self.sites = {}
        self._loads = {}
        self._found = {}
        self.sited = {}
        self.funcs_seen = set()
        self.calls_resolved = 0
        self.calls_opaque = {}
        self.effects = {}      # Func -> set of field names written (for stopped calls)
        self._newcls = {}

    # ---- helpers ---------------------------------------------------------
    def site(self, ctx, node, extra=""):
        k = (ctx.site, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
             getattr(node, "end_lineno", 0), getattr(node, "end_col_offset", 0), extra)
        n = self.sites.setdefault(k, len(self.sites) + 1)
        self.sited[n] = k
        return n

    def within(self, ctx, node):
        """tells objects made in the body of a loop from others"""
        n = getattr(node, "whole", node)
        a, z, here = (getattr(n, "lineno", 0), getattr(n, "col_offset", 0)), (getattr(n, "end_lineno", 0), getattr(n, "end_col_offset", 0)), ctx.site

        def f(t):
            s = t.args[1] if t.op == "new" else None
            while s in self.sited:
                k = self.sited[s]
                if k[0] == here:
                    return a < (k[1], k[2]) <= z
                s = k[0]
            return False
        return f

    def class_of(self, ty):
        if ty is None:
            return None
        if ty in self.world:
            return self.world[ty]
        if ty.startswith("cls:"):
            mod, name = ty[4:].rsplit(".", 1)
            m = self.p.modules.get(mod)
            return m.classes.get(name) if m else None
        return None

    def type_of_class(self, cls):
        for k, c in self.world.items():
            if c is cls:
                return k
        return "cls:" + cls.qual

    def elem_type(self, t):
        ty = t.ty or ""
        if ty.startswith("list:"):
            return ty[5:]
        if ty.startswith("dictof:"):
            return None
        return None

    def field_type(self, base, name):
        ty = base.ty
        if ty is None:
            return None
        c = self.class_of(ty)
        names = [ty] + ([k.name for k in c.mro()] if c else [])
        if ty == "Place":
            names += ["Location", "Link"]
        for n in names:
            if (n, name) in self.ft:
                return self.ft[(n, name)]
        return None

    def emit(self, st, ctx, node, kind, **d):
        e = Event(kind, ctx.fn.where(node), ctx.fn.qual, **d)
        if st.dead is None and (self.keep is None or self.keep(e)):
            st.ev.append(e)
        return e

    def res(self, st, t):
        """apply phi narrowing"""
        while t.phis:
            hit = [p for p in t.phis if p in st.narrow]
            if not hit:
                break
            t2 = T.rebuild(t, lambda x: st.narrow.get(x))
            if t2 is t:
                break
            t = t2
        return t

    def content(self, st, t):
        """list contents of a tracked list object, or the term itself"""
        t = self.res(st, t)
        v = st.heap.get((t, "$items"))
        return self.res(st, v) if v is not None else t

    # ---- fields ----------------------------------------------------------
    def read_attr(self, st, ctx, base, name, node):
        base = self.res(st, base)
        if self.on_read:
            self.on_read(self, st, ctx, base, name, node)
        v = st.heap.get((base, name))
        if v is not None:
            return self.res(st, v)
        if base.op == "copy":
            v = st.heap.get((base.args[0], name))
            if v is None:
                v = self.read_attr(st, ctx, base.args[0], name, node)
            return v
        if base.op == "module":
            r = self.p.member(base.args[0], name)
            return self.value_of(r, base, name)
        if base.op == "ext":
            return mk("ext", base.args[0] + "." + name)
        if base.op == "class":
            r = self.p.member(base.args[0], name)
            if isinstance(r, Func):
                return mk("func", r, None)
            if isinstance(r, tuple) and r[0] == "classattr":
                t = mk("classattr", r[1].name, name)
                if (t, "$own") in st.heap:
                    return st.heap[(t, "$own")]
                return t
            t = mk("classattr", base.args[0].name, name)
            return st.heap.get((t, "$own"), t)
        c = self.class_of(base.ty)
        if c is not None:
            # instance field known to shadow methods is resolved at call time
            ca = c.class_attr(name)
            if ca is not None and self.field_type(base, name) is None and not self._assigned_on_instances(c, name):
                return mk("classattr", ca[0].name, name)
        if base.op in ("attr", "sym", "elem", "idx", "new", "call", "phi", "loopvar", "copy", "super", "classattr"):
            pass
        return mk("attr", base, name, st.ver.get(name, 0), ty=self.field_type(base, name))

    def _assigned_on_instances(self, cls, name):
        for c in cls.mro():
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    if (isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store)
                            and isinstance(n.value, ast.Name) and m.params and n.value.id == m.params[0]):
                        return True
        return False

    def value_of(self, r, base=None, name=None):
        if isinstance(r, Func):
            return mk("func", r, None)
        if isinstance(r, Class):
            return mk("class", r)
        if isinstance(r, Module):
            return mk("module", r)
        if isinstance(r, tuple):
            if r[0] in ("ext", "ext?"):
                return mk("ext", r[1])
            if r[0] == "global":
                return mk("global", r[1].name, r[2])
            if r[0] == "classattr":
                return mk("classattr", r[1].name, r[2])
        return None

    def write_attr(self, st, ctx, base, name, val, node):
        base = self.res(st, base)
        val = self.content_if_literal(st, val)
        if base.op == "class" or (base.op == "classattr"):
            if base.op == "class":
                r = self.p.member(base.args[0], name)
                owner = r[1].name if isinstance(r, tuple) and r[0] == "classattr" else base.args[0].name
                t = mk("classattr", owner, name)
                st.heap[(t, "$own")] = val
                self.emit(st, ctx, node, "write", base=base, attr=name, value=val)
                return
        st.heap[(base, name)] = val
        if val.ty in (None, "list"):
            ft = self.field_type(base, name)
            if ft and val.op not in ("const",) and (val.ty is None or ft.startswith("list:")):
                val.ty = ft
        self.emit(st, ctx, node, "write", base=base, attr=name, value=val)

    def content_if_literal(self, st, v):
        return v

    # ---- names -----------------------------------------------------------
    def read_name(self, st, ctx, name, node):
        if name in st.env and name not in ctx.globals:
            return self.res(st, st.env[name])
        r = self.p.resolve_name(ctx.fn.module, name)
        if r is not None:
            if isinstance(r, tuple) and r[0] == "global":
                g = mk("global", r[1].name, r[2])
                v = st.heap.get((g, "$own"))
                if v is not None:
                    return self.res(st, v)
                init = r[1].globals.get(r[2])
                return mk("global", r[1].name, r[2], ty="dict" if isinstance(init, ast.Dict) else None)
            return self.value_of(r)
        if name in ("True", "False", "None"):
            return {"True": TRUE, "False": FALSE, "None": NONE}[name]
        return mk("ext", name)     # builtin or unknown name

    # ---- expressions -----------------------------------------------------
    def ev(self, n, st, ctx):
        """-> [(state, term)]"""
        if st.dead is not None:
            return [(st, st.dead)]
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            return [(st, mk("opaque", self.site(ctx, n)))]
        return m(n, st, ctx)

    def evs(self, ns, st, ctx):
        """evaluate a list of expressions left to right -> [(state, [terms])]"""
        out = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in out:
                if n is None:
                    nxt.append((s, vs + [None]))
                    continue
                for s2, v in self.ev(n, s, ctx):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def ev_Constant(self, n, st, ctx):
        return [(st, const(n.value))]

    def ev_Name(self, n, st, ctx):
        return [(st, self.read_name(st, ctx, n.id, n))]

    def ev_Attribute(self, n, st, ctx):
        out = []
        for s, b in self.ev(n.value, st, ctx):
            if b.op == "super":
                f = b.args[1]
                fn = None
                c = self.class_of(b.args[0].ty)
                if c is not None:
                    fn = c.find_after(f, n.attr)
                out.append((s, mk("func", fn, b.args[0]) if fn else mk("supermethod", n.attr, b.args[0])))
                continue
            c = self.class_of(b.ty)
            if c is not None and (b, n.attr) not in s.heap:
                fn = c.find(n.attr)
                if fn is not None and self.field_type(b, n.attr) is None:
                    if self.on_read:
                        self.on_read(self, s, ctx, b, n.attr, n)
                    if fn.prop:
                        out.extend(self.call_func(fn, [b], {}, s, ctx, n))
                    elif fn.static:
                        out.append((s, mk("func", fn, None)))
                    elif fn.classm:
                        out.append((s, mk("func", fn, mk("class", c))))
                    else:
                        out.append((s, mk("func", fn, b)))
                    continue
            out.append((s, self.read_attr(s, ctx, b, n.attr, n)))
        return out

    def index(self, st, ctx, b, k, node):
        b, k = self.res(st, b), self.res(st, k)
        if self.on_index:
            self.on_index(self, st, ctx, b, k, node)
        v = st.heap.get((b, "[]", k))
        if v is not None:
            return self.res(st, v)
        c = self.content(st, b)
        if k.op == "const" and isinstance(k.args[0], int) and c.op in ("list", "tuple"):
            i = k.args[0]
            if -len(c.args) <= i < len(c.args):
                return c.args[i]
        if k.op == "const" and c.op == "concat" and isinstance(k.args[0], int):
            if k.args[0] < 0 and c.args[-1].op == "list" and len(c.args[-1].args) >= -k.args[0]:
                return c.args[-1].args[k.args[0]]
            if k.args[0] >= 0 and c.args[0].op == "list" and len(c.args[0].args) > k.args[0]:
                return c.args[0].args[k.args[0]]
        if k.op == "index":
            src = k.args[0]
            if src is b or src is c:
                return mk("elem", src, k.args[1], ty=self.elem_type(src))
        if k.op == "slice":
            return mk("slicing", b, *k.args, ty=b.ty)
        if b.op == "elemof_enum":
            pass
        ety = self.elem_type(b)
        if b.op == "loopvar" and ety is None:
            ety = None
        return mk("idx", b, k, ty=ety)

    def ev_Subscript(self, n, st, ctx):
        out = []
        for s, b in self.ev(n.value, st, ctx):
            for s2, k in self.ev(n.slice, s, ctx):
                out.append((s2, self.index(s2, ctx, b, k, n)))
        return out

    def ev_Slice(self, n, st, ctx):
        out = []
        for s, vs in self.evs([n.lower, n.upper, n.step], st, ctx):
            out.append((s, mk("slice", *[v if v is not None else NONE for v in vs])))
        return out

    def ev_List(self, n, st, ctx):
        out = []
        for s, vs in self.evs([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st, ctx):
            items = T.concat(*[(self.content(s, v) if isinstance(e, ast.Starred) else T.lst(v))
                               for v, e in zip(vs, n.elts)]) if n.elts else T.lst()
            t = mk("new", "list", self.site(ctx, n), ty=self._listty(vs))
            s.heap[(t, "$items")] = items
            out.append((s, t))
        return out

    def _listty(self, vs):
        tys = {v.ty for v in vs}
        if len(tys) == 1 and None not in tys:
            return "list:" + tys.pop()
        return "list"

    def ev_Tuple(self, n, st, ctx):
        out = []
        for s, vs in self.evs([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st, ctx):
            out.append((s, mk("tuple", *vs)))
        return out

    def ev_Set(self, n, st, ctx):
        return [(s, mk("set", *vs)) for s, vs in self.evs(n.elts, st, ctx)]

    def ev_Dict(self, n, st, ctx):
        out = []
        keys = [k for k in n.keys]
        for s, ks in self.evs(keys, st, ctx):
            for s2, vs in self.evs(n.values, s, ctx):
                t = mk("new", "dict", self.site(ctx, n), ty="dict")
                for k, v in zip(ks, vs):
                    if k is not None:
                        s2.heap[(t, "[]", k)] = v
                    else:
                        s2.heap[(t, "$copyof")] = v
                out.append((s2, t))
        return out

    def ev_JoinedStr(self, n, st, ctx):
        return [(s, mk("fstr", *vs, ty="str")) for s, vs in self.evs(n.values, st, ctx)]

    def ev_FormattedValue(self, n, st, ctx):
        if n.format_spec is None and n.conversion in (-1, 115):
            return self.ev(n.value, st, ctx)
        if n.format_spec is None:
            return [(s, mk("fmtd", v, const(""), const(chr(n.conversion)), ty="str")) for s, v in self.ev(n.value, st, ctx)]
        return [(s, mk("fmtd", v, f, const(chr(n.conversion) if n.conversion > 0 else ""), ty="str")) for s, (v, f) in self.evs([n.value, n.format_spec], st, ctx)]

    def ev_Starred(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def ev_Lambda(self, n, st, ctx):
        return [(st, mk("lambda", self.site(ctx, n)))]

    def ev_NamedExpr(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            s.env[n.target.id] = v
            out.append((s, v))
        return out

    def ev_Await(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def ev_IfExp(self, n, st, ctx):
        out = []
        for s, b in self.cond(n.test, st, ctx):
            out.extend(self.ev(n.body if b else n.orelse, s, ctx))
        return out

    def ev_UnaryOp(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.operand, st, ctx):
            if isinstance(n.op, ast.Not):
                r = const(not v.args[0]) if v.op == "const" else (v.args[0] if v.op == "not" else mk("not", v, ty="bool"))
            elif isinstance(n.op, ast.USub):
                r = T.neg(v)
            elif isinstance(n.op, ast.UAdd):
                r = v
            else:
                r = mk("inv", v)
            out.append((s, r))
        return out

    def binop(self, st, op, a, b):
        if isinstance(op, ast.Add):
            a2 = self.content(st, a)
            b2 = self.content(st, b)
            r = T.add(a2, b2)
            if T.is_listlike(r) and not (r.ty or "").startswith("list:"):
                for x in (a, b):
                    if (x.ty or "").startswith("list:"):
                        r.ty = x.ty
            return r
        if isinstance(op, ast.Sub):
            return T.sub(a, b)
        if isinstance(op, ast.Mult):
            return T.mul(self.content(st, a), self.content(st, b))
        if isinstance(op, ast.Div):
            return T.div(a, b)
        if isinstance(op, ast.Pow):
            return T.power(a, b)
        if isinstance(op, ast.FloorDiv):
            return mk("floordiv", a, b)
        if isinstance(op, ast.Mod):
            if a.ty == "str":
                return mk("strmod", a, b, ty="str")
            if a.op == "const" and b.op == "const" and isinstance(a.args[0], (int, float)) and isinstance(b.args[0], (int, float)) and b.args[0]:
                return const(a.args[0] % b.args[0])
            return mk("mod", a, b, ty="int" if a.ty == "int" and b.ty == "int" else None)
        return mk(type(op).__name__, a, b)

    def ev_BinOp(self, n, st, ctx):
        return [(s, self.binop(s, n.op, a, b)) for s, (a, b) in self.evs([n.left, n.right], st, ctx)]

    def cmp1(self, st, op, a, b):
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            r = self._len_cmp(op, a, b)
            if r is not None:
                return r
            if isinstance(op, ast.Lt):
                at, p = T.lt(a, b)
            elif isinstance(op, ast.Gt):
                at, p = T.lt(b, a)
            elif isinstance(op, ast.GtE):
                at, p = T.lt(a, b)
                p = not p
            else:
                at, p = T.lt(b, a)
                p = not p
        elif isinstance(op, (ast.Eq, ast.Is)):
            at, p = T.eq(self._lit(st, a), self._lit(st, b), isinstance(op, ast.Is))
        elif isinstance(op, (ast.NotEq, ast.IsNot)):
            at, p = T.eq(self._lit(st, a), self._lit(st, b), isinstance(op, ast.IsNot))
            p = not p
        elif isinstance(op, (ast.In, ast.NotIn)):
            at, p = mk("in", a, self._lit(st, b), ty="bool"), isinstance(op, ast.In)
            bb = self._lit(st, b)
            if bb.op in ("tuple", "list", "set") and a.op == "const" and all(x.op == "const" for x in bb.args):
                at = const(a.args[0] in [x.args[0] for x in bb.args])
            elif bb.op in ("tuple", "list", "set") and len(bb.args) == 1:
                at, q = T.eq(a, bb.args[0])
                p = p if q else not p
            elif bb.op in ("tuple", "list", "set") and 1 < len(bb.args) <= 8 and all(x.op == "const" for x in bb.args):
                parts = []
                for x in bb.args:
                    ea, q = T.eq(a, x)
                    parts.append(ea if q else mk("not", ea, ty="bool"))
                at = mk("or", *parts, ty="bool")
            elif bb.op == "const" and a.op == "const" and isinstance(bb.args[0], str) and isinstance(a.args[0], str):
                at = const(a.args[0] in bb.args[0])
            elif bb.op == "call" and bb.args[0] == ".keys" and len(bb.args[1]) == 1:
                at = mk("in", a, bb.args[1][0], ty="bool")
        else:
            at, p = mk("cmp", type(op).__name__, a, b, ty="bool"), True
        if at.op == "const":
            return const(bool(at.args[0]) == p)
        return at if p else mk("not", at, ty="bool")

    def _lit(self, st, t):
        if t.op == "new" and t.args[0] == "list":
            return self.content(st, t)
        return t

    def _len_cmp(self, op, a, b):
        """len(x) against 0/1 -> nonempty(x)"""
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        o = type(op)
        if T.is_len(b) and a.op == "const":
            a, b, o = b, a, flip[o]
        if T.is_len(a) and b.op == "const" and T.is_num(b):
            ne = mk("nonempty", a.args[1][0], ty="bool")
            k = b.args[0]
            if (o, k) in ((ast.Gt, 0), (ast.GtE, 1)):
                return ne
            if (o, k) in ((ast.Lt, 1), (ast.LtE, 0)):
                return mk("not", ne, ty="bool")
            if (o, k) == (ast.Lt, 0):
                return FALSE
            if (o, k) == (ast.GtE, 0):
                return TRUE
        return None

    def ev_Compare(self, n, st, ctx):
        out = []
        for s, vs in self.evs([n.left] + n.comparators, st, ctx):
            rs = [self.cmp1(s, op, vs[i], vs[i + 1]) for i, op in enumerate(n.ops)]
            out.append((s, rs[0] if len(rs) == 1 else mk("and", *rs, ty="bool")))
        return out

    def _pure_expr(self, n):
        return not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.ListComp, ast.IfExp)) and not self._pure_call(x)
                       for x in ast.walk(n))

    def _pure_call(self, x):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in PURE:
                return True
            if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS:
                return True
        return False

    def ev_BoolOp(self, n, st, ctx):
        isand = isinstance(n.op, ast.And)
        if all(self._pure_expr(v) for v in n.values):
            out = []
            for s, vs in self.evs(n.values, st, ctx):
                flat = []
                for v in vs:
                    flat.extend(v.args if v.op == ("and" if isand else "or") else [v])
                if all(v.op == "const" for v in flat):
                    r = flat[0]
                    for v in flat[1:]:
                        r = (v if r.args[0] else r) if isand else (r if r.args[0] else v)
                    out.append((s, r))
                else:
                    out.append((s, mk("and" if isand else "or", *flat,
                                      ty="bool" if all(v.ty == "bool" for v in flat) else None)))
            return out
        # operands with calls: follow short-circuit order
        out = []
        cur = [(st, None)]
        for i, v in enumerate(n.values):
            nxt = []
            for s, _ in cur:
                for s2, t in self.ev(v, s, ctx):
                    if i == len(n.values) - 1:
                        out.append((s2, t))
                        continue
                    for s3, b in self.truth(t, s2):
                        if b == isand:
                            nxt.append((s3, None))
                        else:
                            out.append((s3, const(b) if t.ty == "bool" else t))
            cur = nxt
        return out

    def _comp(self, n, st, ctx, kind):
        """list/set/generator comprehension = loop that appends to a fresh list"""
        lt = mk("new", "list", self.site(ctx, n), ty="list")
        st.heap[(lt, "$items")] = T.lst()

        def body(gens, s):
            if not gens:
                res = []
                for s2, v in self.ev(n.elt, s, ctx):
                    s2.heap[(lt, "$items")] = T.concat(self.content(s2, lt), T.lst(v))
                    self.emit(s2, ctx, n, "mutate", base=lt, method="append", args=(v,))
                    res.append((s2, NORM))
                return res
            g = gens[0]
            g.lineno, g.end_lineno, g.col_offset, g.end_col_offset = n.lineno, n.end_lineno, g.target.col_offset + 1000 * g.target.lineno, g.target.end_col_offset
            g.whole = n

            def inner(s3):
                sts = [s3]
                for c in g.ifs:
                    nx = []
                    for s4 in sts:
                        for s5, b in self.cond(c, s4, ctx):
                            if b:
                                nx.append(s5)
                            else:
                                skipped.append((s5, NORM))
                    sts = nx
                r = []
                for s4 in sts:
                    r.extend(body(gens[1:], s4))
                return r
            skipped = []

            def whole(s3):
                skipped.clear()
                r = inner(s3)
                return r + list(skipped)
            return self.loop(g.iter, g.target, whole, s, ctx, g, set())
        outs = body(n.generators, st)
        res = []
        for s, o in outs:
            s.heap.pop((lt, "$x"), None)
            res.append((s, lt))
        return res

    def ev_ListComp(self, n, st, ctx):
        return self._comp(n, st, ctx, "list")

    def ev_GeneratorExp(self, n, st, ctx):
        return self._comp(n, st, ctx, "gen")

    def ev_SetComp(self, n, st, ctx):
        return self._comp(n, st, ctx, "set")

    def ev_DictComp(self, n, st, ctx):
        t = mk("new", "dict", self.site(ctx, n), ty="dict")

        def body(gens, s):
            if not gens:
                r = []
                for s2, (k, v) in self.evs([n.key, n.value], s, ctx):
                    self.emit(s2, ctx, n, "subwrite", base=t, key=k, value=v)
                    r.append((s2, NORM))
                return r
            g = gens[0]
            g.lineno, g.end_lineno, g.col_offset, g.end_col_offset = n.lineno, n.end_lineno, g.target.col_offset + 1000 * g.target.lineno, g.target.end_col_offset
            g.whole = n

            def whole(s3):
                skipped, sts = [], [s3]
                for c in g.ifs:
                    nx = []
                    for s4 in sts:
                        for s5, b in self.cond(c, s4, ctx):
                            if b:
                                nx.append(s5)
                            else:
                                skipped.append((s5, NORM))
                    sts = nx
                return [x for s4 in sts for x in body(gens[1:], s4)] + skipped
            return self.loop(g.iter, g.target, whole, s, ctx, g, set())
        return [(s, t) for s, _ in body(n.generators, st)]

    # ---- calls -----------------------------------------------------------
    def ev_Call(self, n, st, ctx):
        out = []
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            selfname = ctx.fn.params[0] if ctx.fn.params else None
            me = st.env.get(selfname)
            return [(st, mk("super", me, ctx.fn.cls))] if me is not None else [(st, mk("opaque", self.site(ctx, n)))]
        isprint = isinstance(n.func, ast.Name) and n.func.id == "print" and "print" not in st.env
        for s, f in self.ev(n.func, st, ctx):
            pos = [a for a in n.args]
            for s2, vs in self.evs([a.value if isinstance(a, ast.Starred) else a for a in pos], s, ctx):
                for s3, kv in self.evs([k.value for k in n.keywords], s2, ctx):
                    args, star = [], False
                    for a, v in zip(pos, vs):
                        if isinstance(a, ast.Starred):
                            c = self.content(s3, v)
                            if c.op in ("list", "tuple"):
                                args.extend(c.args)
                            else:
                                star = True
                                args.append(mk("star", v))
                        else:
                            args.append(v)
                    kw = {}
                    for k, v in zip(n.keywords, kv):
                        if k.arg is None:
                            d = self.literal_dict(s3, v)
                            if d is not None:
                                kw.update(d)
                                continue
                            star = True
                            kw["**"] = v
                        else:
                            kw[k.arg] = v
                    if isprint and not self.keep_prints:
                        out.append((s3, NONE))
                        continue
                    out.extend(self.apply(f, args, kw, s3, ctx, n))
        return out

    def literal_dict(self, st, v):
        """the entries of a dictionary built from constant names only"""
        v = self.res(st, v)
        if v.op != "new" or v.args[0] != "dict" or (v, "$copyof") in st.heap:
            return None
        def touched(evs, inner):
            return any(touched([x for q in e.paths for x in q.events], True) if e.kind == "loop" else
                       e.kind == "mutate" and e.base is v or inner and e.kind == "subwrite" and e.base is v for e in evs)
        if touched(st.ev, False):
            return None
        d = {}
        for k, x in st.heap.items():
            if k[0] is v:
                if len(k) != 3 or k[1] != "[]" or k[2].op != "const" or not isinstance(k[2].args[0], str):
                    return None
                d[k[2].args[0]] = x
        return d

    def apply(self, f, args, kw, st, ctx, node):
        f = self.res(st, f)
        if f.op == "func":
            fn, me = f.args
            return self.call_func(fn, ([me] if me is not None else []) + args, kw, st, ctx, node)
        if f.op == "class":
            return self.construct(f.args[0], args, kw, st, ctx, node)
        if f.op == "attr":
            return self.call_method(f.args[0], f.args[1], args, kw, st, ctx, node)
        if f.op == "closure":
            return self.call_closure(f, args, kw, st, ctx, node)
        if f.op == "ext":
            return self.call_ext(f.args[0], args, kw, st, ctx, node)
        if f.op == "supermethod":
            return [(st, NONE)]
        if f.op == "phi":
            outs = []
            for s in self.split_phi(f, st):
                outs.extend(self.apply(s.narrow[f], args, kw, s, ctx, node))
            return outs
        t = mk("result", "?", (f,), tuple(args), self.site(ctx, node))
        self.emit(st, ctx, node, "call", name="?", recv=f, args=tuple(("#%d" % i, a) for i, a in enumerate(args)), fn=None, result=t)
        return [(st, t)]

    def call_method(self, recv, name, args, kw, st, ctx, node):
        recv = self.res(st, recv)
        if recv.ty == "Place":
            outs = []
            isl = mk("islink", recv, ty="bool")
            for s, b in self.truth(isl, st):
                c = self.class_of("Link" if b else "Location")
                fn = c.find(name) if c else None
                if fn is None:
                    outs.append((s, mk("result", "." + name, (recv,), tuple(args), self.site(ctx, node))))
                else:
                    outs.extend(self.call_func(fn, [recv] + args, kw, s, ctx, node, cls=c))
            return outs
        if name in MUTATORS and recv.op != "module":
            return self.mutate(recv, name, args, kw, st, ctx, node)
        if name == "copy" and not args and recv.ty and recv.ty.startswith(("list", "dict")):
            t = mk("new", recv.ty.split(":")[0], self.site(ctx, node), ty=recv.ty)
            st.heap[(t, "$items")] = self.content(st, recv)
            st.heap[(t, "$copyof")] = recv
            return [(st, t)]
        if name == "get" and recv.op == "new" and recv.args[0] == "dict":
            pass
        if name in PURE_METHODS:
            r = T.fcall("." + name, recv, *args, ty="str" if name in ("lower", "upper", "strip", "format", "join", "replace") else None)
            if recv.op == "const" and isinstance(recv.args[0], str) and name in ("lower", "upper", "strip") and not args:
                r = const(getattr(recv.args[0], name)())
            if self.on_call:
                self.on_call(self, st, ctx, "." + name, recv, args, kw, node, r)
            return [(st, r)]
        return self.opaque("." + name, recv, args, kw, st, ctx, node)

    def opaque(self, name, recv, args, kw, st, ctx, node, fn=None, named=None):
        al = named if named is not None else tuple(("#%d" % i, a) for i, a in enumerate(args)) + tuple(sorted(kw.items()))
        t = mk("result", name, tuple([recv] if recv is not None else []), tuple(a if named is not None or n.startswith("#") else mk("kw", n, a) for n, a in al), self.site(ctx, node))
        if fn is not None:
            for f in self.effects.get(fn, ()):
                st.ver[f] = st.ver.get(f, 0) + 1
                for k in [k for k in st.heap if k[1] == f]:
                    del st.heap[k]
        self.calls_opaque[name] = self.calls_opaque.get(name, 0) + 1
        self.emit(st, ctx, node, "call", name=name, recv=recv, args=al, fn=fn, result=t, astn=node)
        if self.on_call:
            self.on_call(self, st, ctx, name, recv, args, kw, node, t)
        return [(st, t)]

    def mutate(self, recv, name, args, kw, st, ctx, node):
        c = self.content(st, recv)
        args = [self.res(st, a) for a in args]
        known = (recv, "$items") in st.heap or T.is_listlike(recv)
        if name == "append" and args and known:
            st.heap[(recv, "$items")] = T.concat(c if T.is_listlike(c) else mk("seq", c, ty=c.ty), T.lst(args[0]))
        elif name == "extend" and args and known:
            st.heap[(recv, "$items")] = T.concat(c if T.is_listlike(c) else mk("seq", c, ty=c.ty), self.content(st, args[0]))
        elif known:
            st.heap[(recv, "$items")] = mk("mutated", c, name, tuple(args), self.site(ctx, node), ty=recv.ty)
        a = tuple(self.content(st, x) if name == "extend" else x for x in args) + tuple(v for _, v in sorted(kw.items()))
        self.emit(st, ctx, node, "mutate", base=recv, method=name, args=a)
        if recv.op == "new" and recv.ty == "list" and name == "append" and args and args[0].ty and recv.ty == "list":
            recv.ty = "list:" + args[0].ty if args[0].ty in self.world or args[0].ty in ("str", "Place") else "list"
        return [(st, mk("popped", recv, name, tuple(args), self.site(ctx, node), ty=self.elem_type(recv))
                 if name in ("pop", "popitem", "setdefault", "popleft") else NONE)]

    def call_ext(self, name, args, kw, st, ctx, node):
        if name in EXITS:
            st.dead = mk("EXIT")
            return [(st, st.dead)]
        if self.on_call:
            self.on_call(self, st, ctx, name, None, args, kw, node, None)
        args = [self.res(st, a) for a in args]
        if name in ("copy.copy", "copy.deepcopy") and args:
            return [(st, mk("copy", args[0], self.site(ctx, node), name, ty=args[0].ty))]
        if name == "len" and args:
            c = self.content(st, args[0])
            if c.op in ("list", "tuple"):
                return [(st, const(len(c.args)))]
        if name in ("float", "int", "str", "bool") and len(args) == 1 and not kw:
            a = args[0]
            if a.op == "const" and name in ("float", "int"):
                try:
                    return [(st, const({"float": float, "int": int}[name](a.args[0])))]
                except Exception:
                    pass
            if name == "bool" and a.ty == "bool":
                return [(st, a)]
            return [(st, T.fcall(name, a, ty=name))]
        if name in ("list", "dict", "set") and not kw:
            t = mk("new", name, self.site(ctx, node), ty=(args[0].ty if args and (args[0].ty or "").startswith(name) else name))
            if args:
                st.heap[(t, "$copyof")] = args[0]
                if name == "list":
                    st.heap[(t, "$items")] = self.content(st, args[0])
            elif name == "list":
                st.heap[(t, "$items")] = T.lst()
            return [(st, t)]
        if name == "isinstance" and len(args) == 2 and args[1].op == "class":
            c = self.class_of(args[0].ty)
            if args[0].ty == "Place":
                nm = [k.name for k in args[1].args[0].mro()]
                if "Link" in nm:
                    return [(st, mk("islink", args[0], ty="bool"))]
                if "Location" in nm:
                    return [(st, mk("not", mk("islink", args[0], ty="bool"), ty="bool"))]
            if c is not None:
                return [(st, const(args[1].args[0] in c.mro()))]
        if name == "getattr" and len(args) >= 2 and args[1].op == "const":
            return [(st, self.read_attr(st, ctx, args[0], args[1].args[0], node))]
        if name == "setattr" and len(args) == 3 and args[1].op == "const":
            self.write_attr(st, ctx, args[0], args[1].args[0], args[2], node)
            return [(st, NONE)]
        if name in PURE:
            vals = [self.content(st, a) if name in ("sum", "max", "min", "sorted") else a for a in args]
            if name in ("max", "min") and len(vals) > 1:
                vals = sorted(vals, key=lambda t: t.id)
            ty = RETTY.get(name)
            return [(st, T.fcall(name, *(vals + [mk("kw", k, v) for k, v in sorted(kw.items())]), ty=ty))]
        return self.opaque(name, None, args, kw, st, ctx, node)

    def bind(self, fn, args, kw):
        """-> dict param -> term or None when arguments do not fit"""
        env, extra = {}, []
        ps = fn.params
        for i, a in enumerate(args):
            if a.op == "star":
                return None
            if i < len(ps):
                env[ps[i]] = a
            elif fn.vararg:
                extra.append(a)
            else:
                return None
        for k, v in kw.items():
            if k == "**":
                return None
            if k in env:
                return None
            if k in ps or k in fn.kwonly:
                env[k] = v
            elif not fn.kwarg:
                return None
        if fn.vararg:
            env[fn.vararg] = mk("tuple", *extra)
        for p in ps + fn.kwonly:
            if p not in env and p not in fn.defaults:
                return None
        return env

    def const_default(self, d, fn=None, p=None):
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return const(-d.operand.value)
        if isinstance(d, (ast.Dict, ast.List)):
            return mk("default", fn.qual if fn else "", p, ty="dict" if isinstance(d, ast.Dict) else "list")
        return mk("default", fn.qual if fn else "", p)

    def call_func(self, fn, args, kw, st, ctx, node, cls=None):
        self.calls_resolved += 1
        env = self.bind(fn, args, kw)
        if env is None:
            self.emit(st, ctx, node, "badcall", name=fn.qual, fn=fn)
            return self.opaque(fn.qual, None, args, kw, st, ctx, node, fn=fn)
        full = dict(env)
        for p in fn.params + fn.kwonly:
            if p not in full:
                full[p] = self.const_default(fn.defaults[p], fn, p)
        if fn.qual in ctx.stack or len(ctx.stack) >= self.max_depth or not self.inline(fn):
            named = tuple((p, full[p]) for p in fn.params + fn.kwonly)
            recv = None
            if fn.cls is not None and not fn.static and fn.params:
                recv = full[fn.params[0]]
                named = named[1:]
            return self.opaque(fn.qual, recv, args, kw, st, ctx, node, fn=fn, named=named)
        if self.on_call:
            self.on_call(self, st, ctx, fn.qual, None, args, kw, node, None)
        c2 = Ctx(fn, self.site(ctx, node, fn.qual), ctx.stack + (fn.qual,))
        saved = st.env
        s = st.fork()
        s.env = full
        outs = self.run_body(fn, s, c2)
        # dedupe by effect
        seen, res = {}, []
        for s2, o in outs:
            s2.env = saved
            if o[0] == "return":
                v = self.res(s2, o[1])
                k = (s2.sig(), v)
                if k in seen:
                    seen[k].join(s2)
                    continue
                s2 = s2.fork()
                seen[k] = s2
                res.append((s2, v))
            else:
                s2 = s2.fork()
                s2.dead = mk("EXIT" if o[0] == "exit" else "RAISE")
                res.append((s2, s2.dead))
        if len(res) > self.max_states:
            raise AnalysisBroken("path budget exceeded inlining %s" % fn.qual)
        return res

    def call_closure(self, f, args, kw, st, ctx, node):
        fn = f.args[0]
        env = self.bind(fn, args, kw)
        if env is None or fn.qual in ctx.stack:
            return self.opaque(fn.qual, None, args, kw, st, ctx, node, fn=fn)
        for p in fn.params + fn.kwonly:
            if p not in env:
                env[p] = self.const_default(fn.defaults[p], fn, p)
        c2 = Ctx(fn, self.site(ctx, node, fn.qual), ctx.stack + (fn.qual,))
        saved = st.env
        s = st.fork()
        s.env = dict(saved)
        s.env.update(env)
        c2.live = frozenset(saved)
        res = []
        for s2, o in self.run_body(fn, s, c2):
            e2 = dict(saved)
            for nl in [x for q in ast.walk(fn.node) if isinstance(q, ast.Nonlocal) for x in q.names]:
                if nl in s2.env:
                    e2[nl] = s2.env[nl]
            s2 = s2.fork()
            s2.env = e2
            if o[0] != "return":
                s2.dead = mk("EXIT" if o[0] == "exit" else "RAISE")
            res.append((s2, self.res(s2, o[1]) if o[0] == "return" else s2.dead))
        return res

    def run_body(self, fn, s, ctx):
        self.funcs_seen.add(fn.qual)
        k = ("nested", id(fn.node))
        if k not in self._loads:
            self._loads[k] = frozenset(nm for x in ast.walk(fn.node) if x is not fn.node and
                                       isinstance(x, (ast.FunctionDef, ast.Lambda)) for nm in self.loads(x))
        ctx.live = ctx.live | self._loads[k]
        outs = self.block(fn.node.body, s, ctx)
        return [(s2, ("return", NONE) if o[0] == "norm" else o) for s2, o in outs]

    def construct(self, cls, args, kw, st, ctx, node):
        ty = self.type_of_class(cls)
        t = mk("new", cls.qual, self.site(ctx, node), ty=ty)
        init = cls.find("__init__")
        if init is None:
            self.emit(st, ctx, node, "construct", cls=cls.qual, obj=t, args=tuple(("#%d" % i, a) for i, a in enumerate(args)) + tuple(sorted(kw.items())))
            return [(st, t)]
        env = self.bind(init, [t] + args, kw)
        named = ()
        if env is not None:
            named = tuple((p, env[p] if p in env else self.const_default(init.defaults[p], init, p))
                          for p in (init.params + init.kwonly)[1:])
        self.emit(st, ctx, node, "construct", cls=cls.qual, obj=t, args=named)
        outs = self.call_func(init, [t] + args, kw, st, ctx, node)
        return [(s, t if v.op not in ("EXIT", "RAISE") else v) for s, v in outs]

    # ---- truth -----------------------------------------------------------
    def cond(self, n, st, ctx):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur, out = [st], []
            for v in n.values:
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s, ctx):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, isand) for s in cur]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, not b) for s, b in self.cond(n.operand, st, ctx)]
        out = []
        for s, t in self.ev(n, st, ctx):
            if t.op in ("EXIT", "RAISE"):
                out.append((s, False))     # the state is marked dead
                continue
            out.extend(self.truth(t, s))
        return out

    def split_phi(self, p, st):
        res = []
        for alt, cons in p.args[2]:
            s = st.fork()
            s.narrow[p] = alt
            ok = True
            for a, b in cons:
                if s.cons.get(a, b) != b:
                    ok = False
                    break
                s.cons[a] = b
            if ok:
                res.append(s)
        return res

    def truth(self, t, st):
        """-> [(state, bool)]"""
        if st.dead is not None:
            return [(st, False)]
        t = self.res(st, t)
        if t.op == "const":
            return [(st, bool(t.args[0]))]
        if t.op == "not":
            return [(s, not b) for s, b in self.truth(t.args[0], st)]
        if t.op in ("and", "or"):
            isand = t.op == "and"
            cur, out = [st], []
            for v in t.args:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(v, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, isand) for s in cur]
        if t.phis:
            p = min(t.phis, key=lambda x: x.id)
            out = []
            for s in self.split_phi(p, st):
                out.extend(self.truth(t, s))
            return out
        c = self._lit(st, t)
        if c.op in ("list", "tuple", "set") and t.op in ("new", "list", "tuple", "set"):
            return [(st, bool(c.args))]
        if t.op in ("func", "class", "module", "new") and not (t.op == "new" and t.args[0] in ("list", "dict")):
            return [(st, True)]
        if is_seq(t) or T.is_len(t):
            t = mk("nonempty", t.args[1][0] if T.is_len(t) else t, ty="bool")
        if t.op == "nonempty":
            c = self.content(st, t.args[0])
            if c.op in ("list", "tuple"):
                return [(st, bool(c.args))]
            if c.op == "concat" and any(x.op == "list" and x.args for x in c.args):
                return [(st, True)]
        if t.op in ("elem",) and t.ty in self.world or t.ty in self.world and t.op in ("sym", "idx"):
            # an object reference drawn from a container/parameter: truthiness is None-ness
            pass
        if t.op not in ATOMS and (t.ty in self.world or t.ty == "Place"):
            nt = mk("none", t, ty="bool")
            return [(s, not b) for s, b in self.truth(nt, st)]
        v = self.decide(t, st)
        if v is not None:
            return [(st, v)]
        if st.alts:
            vals = [self.decide_in(t, d) for d in st.alts]
            if vals and vals[0] is not None and all(v is vals[0] for v in vals):
                return [(st, vals[0])]
        s1, s2 = st.fork(), st
        s1.cons[t] = True
        s2.cons[t] = False
        out = []
        for s, b in ((s1, True), (s2, False)):
            if s.alts:
                s.alts = [d for d in s.alts if d.get(t, b) is b]
                if not s.alts:
                    continue
                if len(s.alts) == 1:
                    d = dict(s.alts[0])
                    d.update(s.cons)
                    s.cons, s.alts = d, None
            out.append((s, b))
        return out

    def decide(self, t, st):
        return self.decide_in(t, st.cons)

    def decide_in(self, t, cons):
        if t in cons:
            return cons[t]
        if t.op == "lt0":
            l = t.args[0]
            if l.op == "index":
                return False
            c, items = T._lin(l)
            # non-negative atoms: lengths and loop indices
            if items and all(self._nonneg(x) and k > 0 for x, k in items.items()) and c >= 0:
                return False
            if items and all(self._nonneg(x) and k < 0 for x, k in items.items()) and c < 0:
                return True
            n = mk("lt0", T.neg(l), ty="bool")
            if cons.get(n) is True:
                return False
            # same linear part, different constant
            for a, b in cons.items():
                if a.op == "lt0":
                    c2, it2 = T._lin(a.args[0])
                    if it2 == items:
                        if b and c <= c2:
                            return True
                        if not b and c >= c2:
                            return False
        if t.op == "eq":
            a, b = t.args
            for x, y in ((a, b), (b, a)):
                if y.op == "const":
                    for k, v in cons.items():
                        if v and k.op == "eq":
                            for p, q in (k.args, k.args[::-1]):
                                if p is x and q.op == "const" and q is not y:
                                    return False
        if t.op == "none":
            b = t.args[0]
            if b.op in ("new", "copy", "list", "tuple", "elem", "index"):
                return False
            if cons.get(mk("nonempty", b, ty="bool")) is True:
                return False
        if t.op == "in" and t.args[1].op in ("list", "tuple", "set") and not t.args[1].args:
            return False
        return None

    def _nonneg(self, t):
        return t.op == "index" or T.is_len(t)

    # ---- statements ------------------------------------------------------
    def loads(self, n):
        r = self._loads.get(id(n))
        if r is None:
            r = frozenset(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Del)
                          and (isinstance(x.ctx, ast.Load) or True))
            self._loads[id(n)] = r
        return r

    def suffix_live(self, stmts, live):
        k = (id(stmts), len(stmts), live)
        r = self._loads.get(k)
        if r is None:
            r, cur = [], live
            for stt in reversed(stmts):
                r.append(cur)
                cur = cur | self.loads(stt)
            r.reverse()
            self._loads[k] = r
        return r

    def block(self, stmts, st, ctx):
        cur, done = [(st, NORM)], []
        outer = ctx.live
        after = self.suffix_live(stmts, outer)
        for i, stt in enumerate(stmts):
            nxt = []
            ctx.live = after[i]
            for s, o in cur:
                for s2, o2 in self.stmt(stt, s, ctx):
                    (nxt if o2[0] == "norm" else done).append((s2, o2))
            ctx.live = outer
            cur = self.merge(nxt, after[i])
            if len(cur) + len(done) > self.max_states:
                raise AnalysisBroken("path budget exceeded in %s" % ctx.fn.qual)
            if not cur:
                break
        return cur + done

    def merge(self, outs, live=None):
        if len(outs) < 2:
            return outs
        seen, res = {}, []
        for s, o in outs:
            if live is not None:
                for nm in [x for x in s.env if x not in live]:
                    del s.env[nm]
            k = (s.sig(), o)
            if k in seen:
                seen[k].join(s)
            else:
                seen[k] = s
                res.append((s, o))
        return res

    def dead(self, v):
        return isinstance(v, T.Term) and v.op in ("EXIT", "RAISE")

    def deadout(self, v):
        return ("exit",) if v.op == "EXIT" else ("raise", NONE)

    def stmt(self, n, st, ctx):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            return [(st, NORM)]
        return self.settle(m(n, st, ctx))

    def settle(self, outs):
        """states in which a callee raised leave the statement that way"""
        res = []
        for s, o in outs:
            if s.dead is not None:
                o = self.deadout(s.dead)
                s.dead = None
            res.append((s, o))
        return res

    def st_Expr(self, n, st, ctx):
        if isinstance(n.value, ast.Constant):
            return [(st, NORM)]
        return [(s, self.deadout(v) if self.dead(v) else NORM) for s, v in self.ev(n.value, st, ctx)]

    def assign(self, target, v, st, ctx, node):
        """-> [states]"""
        if isinstance(target, ast.Name):
            if target.id in ctx.globals:
                r = self.p.resolve_name(ctx.fn.module, target.id)
                g = mk("global", ctx.fn.module.name, target.id)
                st.heap[(g, "$own")] = v
                self.emit(st, ctx, node, "write", base=g, attr="$own", value=v)
            else:
                st.env[target.id] = v
            return [st]
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.ev(target.value, st, ctx):
                self.write_attr(s, ctx, b, target.attr, v, node)
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.ev(target.value, st, ctx):
                for s2, k in self.ev(target.slice, s, ctx):
                    b2, k2 = self.res(s2, b), self.res(s2, k)
                    if k2.op != "slice":
                        s2.heap[(b2, "[]", k2)] = v
                    else:
                        s2.heap[(b2, "$items")] = mk("mutated", b2, "setslice", (k2, v), self.site(ctx, node), ty=b2.ty)
                    self.emit(s2, ctx, node, "subwrite", base=b2, key=k2, value=v)
                    out.append(s2)
            return out
        if isinstance(target, (ast.Tuple, ast.List)):
            sts = [st]
            c = self.content(st, v)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(target.elts):
                if c.op in ("tuple", "list") and not star and len(c.args) == len(target.elts):
                    x = c.args[i]
                elif v.op == "elem" and v.args[0].op == "call" and v.args[0].args[0] == "$items" and len(target.elts) == 2:
                    src = v.args[0].args[1][0]
                    x = mk("elem", T.fcall("$keys", src), v.args[1]) if i == 0 else mk("idx", src, mk("elem", T.fcall("$keys", src), v.args[1]))
                else:
                    x = mk("idx", v, const(i))
                    x = st.heap.get((v, "[]", const(i)), x)
                nx = []
                for s in sts:
                    nx.extend(self.assign(e.value if isinstance(e, ast.Starred) else e, x, s, ctx, node))
                sts = nx
            return sts
        return [st]

    def st_Assign(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if self.dead(v):
                out.append((s, self.deadout(v)))
                continue
            sts = [s]
            for t in n.targets:
                nx = []
                for s2 in sts:
                    nx.extend(self.assign(t, v, s2, ctx, n))
                sts = nx
            out.extend((s2, NORM) for s2 in sts)
        return out

    def st_AnnAssign(self, n, st, ctx):
        if n.value is None:
            return [(st, NORM)]
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if self.dead(v):
                out.append((s, self.deadout(v)))
            else:
                out.extend((s2, NORM) for s2 in self.assign(n.target, v, s, ctx, n))
        return out

    def st_AugAssign(self, n, st, ctx):
        out = []
        load = ast.copy_location(_as_load(n.target), n.target)
        for s, (a, b) in self.evs([load, n.value], st, ctx):
            if self.dead(b):
                out.append((s, self.deadout(b)))
                continue
            if isinstance(n.op, ast.Add) and T.is_listlike(a) and a.ty != "str" and b.ty != "str" and a.op != "tuple":
                for s2, _ in self.mutate(a, "extend", [b], {}, s, ctx, n):
                    out.append((s2, NORM))
                continue
            v = self.binop(s, n.op, a, b)
            for s2 in self.assign(n.target, v, s, ctx, n):
                out.append((s2, NORM))
        return out

    def st_If(self, n, st, ctx):
        out = []
        for s, b in self.cond(n.test, st, ctx):
            if isinstance(b, T.Term):
                out.append((s, self.deadout(b)))
                continue
            out.extend(self.block(n.body if b else n.orelse, s, ctx))
        norm = self.merge([x for x in out if x[1][0] == "norm"], ctx.live)
        return norm + [x for x in out if x[1][0] != "norm"]

    def st_Match(self, n, st, ctx):
        out = []
        for s0, subj in self.ev(n.subject, st, ctx):
            cur = [s0]
            for c in n.cases:
                nxt = []
                for s in cur:
                    for s2, b in self._pattern(c.pattern, subj, s, ctx):
                        if b and c.guard is not None:
                            for s3, g in self.cond(c.guard, s2, ctx):
                                if g:
                                    out.extend(self.block(c.body, s3, ctx))
                                else:
                                    nxt.append(s3)
                        elif b:
                            out.extend(self.block(c.body, s2, ctx))
                        else:
                            nxt.append(s2)
                cur = nxt
            out.extend((s, NORM) for s in cur)
        return out

    def _pattern(self, p, subj, st, ctx):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, v in self.ev(p.value, st, ctx):
                out.extend(self.truth(self.cmp1(s, ast.Eq(), subj, v), s))
            return out
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, b in self._pattern(q, subj, s, ctx):
                        (out.append((s2, True)) if b else nxt.append(s2))
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                st.env[p.name] = subj
            return [(st, True)]
        a = mk("matches", subj, self.site(ctx, p), ty="bool")
        return self.truth(a, st)

    def st_Return(self, n, st, ctx):
        if n.value is None:
            return [(st, ("return", NONE))]
        out = []
        for s, v in self.ev(n.value, st, ctx):
            out.append((s, self.deadout(v) if self.dead(v) else ("return", v)))
        return out

    def st_Break(self, n, st, ctx):
        return [(st, ("break",))]

    def st_Continue(self, n, st, ctx):
        return [(st, ("continue",))]

    def st_Raise(self, n, st, ctx):
        return [(st, ("raise", NONE))]

    def st_Assert(self, n, st, ctx):
        out = []
        for s, b in self.cond(n.test, st, ctx):
            if isinstance(b, T.Term):
                out.append((s, self.deadout(b)))
            elif b:
                out.append((s, NORM))
            elif self.asserts:
                out.append((s, ("raise", NONE)))
        return out

    def st_Delete(self, n, st, ctx):
        sts = [st]
        for t in n.targets:
            nx = []
            for s in sts:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    nx.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s, ctx):
                        for s3, k in self.ev(t.slice, s2, ctx):
                            b2 = self.res(s3, b)
                            s3.heap.pop((b2, "[]", k), None)
                            s3.heap[(b2, "$items")] = mk("mutated", self.content(s3, b2), "del", (k,), self.site(ctx, n), ty=b2.ty)
                            self.emit(s3, ctx, n, "mutate", base=b2, method="del", args=(k,))
                            nx.append(s3)
                else:
                    nx.append(s)
            sts = nx
        return [(s, NORM) for s in sts]

    def st_With(self, n, st, ctx):
        sts = [st]
        for it in n.items:
            nx = []
            for s in sts:
                for s2, v in self.ev(it.context_expr, s, ctx):
                    if self.dead(v):
                        nx.append(s2)
                        continue
                    if it.optional_vars is not None:
                        nx.extend(self.assign(it.optional_vars, v, s2, ctx, n))
                    else:
                        nx.append(s2)
            sts = nx
        out = []
        for s in sts:
            out.extend(self.block(n.body, s, ctx))
        return out

    def st_Try(self, n, st, ctx):
        pre = st.fork()
        out = []
        outer = ctx.live
        ctx.live = outer | self.loads(n)
        try:
            return self._try(n, st, pre, out, ctx, outer)
        finally:
            ctx.live = outer

    def _try(self, n, st, pre, out, ctx, outer):
        for s, o in self.block(n.body, st, ctx):
            if o[0] == "norm" and n.orelse:
                out.extend(self.block(n.orelse, s, ctx))
            else:
                out.append((s, o))
        names = assigned_names(n.body)
        for h in n.handlers:
            s = pre.fork()
            for nm in names:
                if nm in s.env:
                    s.env[nm] = mk("maybe", s.env[nm], self.site(ctx, h), ty=s.env[nm].ty)
            s.cons[mk("exc", self.site(ctx, h), ty="bool")] = True
            if h.name:
                s.env[h.name] = mk("exception", self.site(ctx, h))
            out.extend(self.block(h.body, s, ctx))
        if n.finalbody:
            o2 = []
            for s, o in out:
                for s2, f in self.block(n.finalbody, s, ctx):
                    o2.append((s2, o if f[0] == "norm" else f))
            out = o2
        return out

    def st_FunctionDef(self, n, st, ctx):
        fn = Func(n, ctx.fn.module, None)
        fn.qual = ctx.fn.qual + ".<locals>." + n.name
        st.env[n.name] = mk("closure", fn)
        return [(st, NORM)]

    def st_Global(self, n, st, ctx):
        ctx.globals.update(n.names)
        return [(st, NORM)]

    def st_Import(self, n, st, ctx):
        for al in n.names:
            nm = al.asname or al.name.split(".")[0]
            tgt = al.name if al.asname else al.name.split(".")[0]
            m = self.p.modules.get(tgt)
            st.env[nm] = mk("module", m) if m else mk("ext", tgt)
        return [(st, NORM)]

    def st_ImportFrom(self, n, st, ctx):
        for al in n.names:
            base = n.module or ""
            if n.level:
                base = ".".join(ctx.fn.module.name.split(".")[:-n.level] + ([n.module] if n.module else []))
            sub = self.p.modules.get(base + "." + al.name)
            if sub is not None:
                v = mk("module", sub)
            elif base in self.p.modules:
                v = self.value_of(self.p.resolve_name(self.p.modules[base], al.name)) or mk("ext", base + "." + al.name)
            else:
                v = mk("ext", base + "." + al.name)
            st.env[al.asname or al.name] = v
        return [(st, NORM)]

    # ---- loops -----------------------------------------------------------
    def iter_info(self, st, it, loopid):
        """-> (base iterable term, element term, unpack?)"""
        it = self.res(st, it)
        if it.op == "call":
            nm, a = it.args
            if nm == "enumerate" and a:
                base, el = self.iter_info(st, a[0], loopid)
                i = mk("index", base, loopid, ty="int")
                if len(a) > 1:
                    i = T.add(i, a[1])
                return base, mk("tuple", i, el)
            if nm == "zip":
                parts = [self.iter_info(st, x, loopid) for x in a if x.op != "kw"]
                return parts[0][0] if parts else it, mk("tuple", *[p[1] for p in parts])
            if nm == "range":
                lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
                step = a[2] if len(a) > 2 else const(1)
                if step is const(-1) and hi is const(-1):       # downwards over the same positions
                    lo, hi, step = const(0), T.add(lo, const(1)), const(1)
                if step is const(1) and lo is const(0) and T.is_len(hi):
                    src = self.res(st, hi.args[1][0])
                    return src, mk("index", src, loopid, ty="int")
                return it, mk("elem", it, loopid, ty="int")
            if nm in ("list", "tuple", "sorted", "reversed") and len(a) >= 1:
                base, el = self.iter_info(st, a[0], loopid)
                return base, el
            if nm in (".items",):
                src = a[0]
                k = mk("elem", T.fcall("$keys", src), loopid)
                return src, mk("tuple", k, mk("idx", src, k))
            if nm == ".keys":
                return a[0], mk("elem", T.fcall("$keys", a[0]), loopid)
            if nm == ".values":
                k = mk("elem", T.fcall("$keys", a[0]), loopid)
                return a[0], mk("idx", a[0], k)
        if it.op == "new" and it.args[0] in ("list", "set") and (it, "$copyof") in st.heap:
            src = st.heap[(it, "$copyof")]
            return self.iter_info(st, src, loopid)
        if it.op == "slicing" and it.args[1] is NONE and it.args[2] is NONE:
            return self.iter_info(st, it.args[0], loopid)
        if (it.ty or "") == "dict":
            return it, mk("elem", T.fcall("$keys", it), loopid)
        return it, mk("elem", it, loopid, ty=self.elem_type(it))

    def st_For(self, n, st, ctx):
        return self.loop(n.iter, n.target, lambda s: self.block(n.body, s, ctx), st, ctx, n,
                         assigned_names(n.body) | target_names(n.target), orelse=n.orelse)

    def loop(self, iternode, target, body, st, ctx, node, names, orelse=None):
        out = []
        for s, it in self.ev(iternode, st, ctx):
            if self.dead(it):
                out.append((s, self.deadout(it)))
                continue
            lid = self.site(ctx, node, "loop")
            c = self.content(s, it) if it.op in ("new", "list", "tuple") else None
            c = self.entries(s, it) if c is None or c.op == "new" else c
            if c is not None and c.op in ("list", "tuple") and (len(c.args) <= 4 or len(c.args) <= 12 and all(plain(x) for x in c.args)):
                out.extend(self.unroll(c.args, target, body, s, ctx, node, orelse))
                continue
            base, el = self.iter_info(s, it, lid)

            def enter(s1):
                return self.assign(target, el, s1, ctx, node)

            def gen(s1):
                r = []
                for s2 in enter(s1):
                    r.extend(body(s2))
                return r
            out.extend(self.generic(gen, s, ctx, node, lid, base, el, names, orelse, kind="for", raw=it))
        return out

    def entries(self, st, it):
        """what a walk over a dictionary written down in full (and not changed since) yields"""
        what = "keys"
        if it.op == "call" and it.args[0] in (".items", ".keys", ".values") and len(it.args[1]) == 1:
            what, it = it.args[0][1:], it.args[1][0]
        if it.op != "new" or it.args[0] != "dict":
            return None
        cells = [(k, v) for k, v in st.heap.items() if k[0] is it]
        if not cells or len(cells) > 12 or any(k[1] != "[]" or k[2].op != "const" for k, _ in cells):
            return None
        for e in st.ev:
            if e.kind == "subwrite" and e.base is it or e.kind not in ("write", "subwrite", "print") and any(
                    y is it for v in e.d.values() for x in (v if isinstance(v, tuple) else (v,)) for y in (x if isinstance(x, tuple) else (x,))):
                return None
            if e.kind == "loop" and e.paths and any(o.kind in ("subwrite", "mutate") and (o.d.get("base") is it or o.d.get("recv") is it) for q in e.paths for o in q.events):
                return None
        pick = {"keys": lambda k, v: k[2], "values": lambda k, v: v, "items": lambda k, v: mk("tuple", k[2], v)}[what]
        return mk("list", *[pick(k, v) for k, v in cells])

    def unroll(self, items, target, body, st, ctx, node, orelse):
        outer = ctx.live
        cur, out = [st], []
        ctx.live = outer | self.loads(node)
        here = ctx.site
        try:
            for i, x in enumerate(items):
                nxt = []
                ctx.site = here
                ctx.site = self.site(ctx, node, "item %d" % i)
                for s in cur:
                    for s1 in self.assign(target, x, s, ctx, node):
                        for s2, o in body(s1):
                            if o[0] in ("norm", "continue"):
                                nxt.append((s2, NORM))
                            elif o[0] == "break":
                                out.append((s2, NORM))
                            else:
                                out.append((s2, o))
                cur = [s for s, _ in self.merge(nxt, ctx.live)]
        finally:
            ctx.live = outer
            ctx.site = here
        for s in cur:
            if orelse:
                out.extend(self.block(orelse, s, ctx))
            else:
                out.append((s, NORM))
        return out

    def st_While(self, n, st, ctx):
        lid = self.site(ctx, n, "loop")
        names = assigned_names(n.body)

        def gen(s1):
            r = []
            for s2, b in self.cond(n.test, s1, ctx):
                if isinstance(b, T.Term):
                    r.append((s2, self.deadout(b)))
                elif b:
                    r.extend(self.block(n.body, s2, ctx))
                else:
                    r.append((s2, ("stop",)))
            return r
        outs = self.generic(gen, st, ctx, n, lid, mk("while", lid), mk("while", lid), names, n.orelse, kind="while")
        # after the loop the condition is false (unless left by break): keep it as a fact when decidable
        res = []
        for s, o in outs:
            res.append((s, o))
        return res

    def generic(self, gen0, st, ctx, node, lid, base, el, names, orelse, kind, raw=None):
        def gen(s):
            outer = ctx.live
            ctx.live = outer | self.loads(node)
            try:
                return self.settle(gen0(s))
            finally:
                ctx.live = outer
        pre = st
        n_ev = len(pre.ev)
        inplace = self.grown_in_place(node)

        def start(extra):
            s = pre.fork()
            for nm in names:
                if nm in s.env:
                    if nm in kept or nm in inplace and (T.is_listlike(s.env[nm]) or s.env[nm].op == "new"):
                        continue        # list += list keeps the object
                    s.env[nm] = mk("loopvar", lid, nm, ty=s.env[nm].ty)
            for k, ty in extra.items():
                s.heap[k] = mk("loopvar", lid, "%s.%s" % (T.show(k[0]), "".join(T.show(x) if isinstance(x, T.Term) else x for x in k[1:])), k[0], ty=ty)
            return s
        # find heap cells carried between iterations
        carried = {}
        kept = set()        # names every pass leaves as it found them
        for _ in range(3):
            s0 = start(carried)
            outs = gen(s0)
            new = {}
            stays = set()
            for nm in names:
                lv = mk("loopvar", lid, nm)
                if nm in pre.env and nm not in kept and s0.env.get(nm) is lv and all(
                        s1.env.get(nm) is lv for s1, o in outs if o[0] in ("norm", "continue", "break")):
                    stays.add(nm)
                # put back to what it was before the loop by the end of every turn
                elif nm in pre.env and nm not in kept and s0.env.get(nm) is lv and pre.env[nm].op == "const" and all(
                        s1.env.get(nm) is lv or s1.env.get(nm) is pre.env[nm] for s1, o in outs if o[0] in ("norm", "continue")):
                    stays.add(nm)
            for s1, o in outs:
                if o[0] not in ("norm", "continue"):
                    continue
                for k, v in s1.heap.items():
                    if pre.heap.get(k) is v:
                        continue
                    if k in carried:
                        continue
                    if self._mentions(k, lid):
                        continue
                    if k[0].op == "new" and k not in pre.heap and not any(kk[0] is k[0] for kk in pre.heap):
                        continue     # object created inside the body
                    new[k] = (pre.heap.get(k).ty if pre.heap.get(k) is not None else
                              (k[0].ty if k[1] == "$items" else self.field_type(k[0], k[1])))
            if not new and not stays:
                break
            carried.update(new)
            kept |= stays
        paths, leaving = [], []
        ends = []
        for s1, o in outs:
            p = Path(s1, o, n_ev, pre.cons)
            paths.append(p)
            if o[0] in ("return", "raise", "exit"):
                leaving.append((s1, o))
            elif o[0] != "stop":
                ends.append((s1, o))
        uniq, seen = [], set()
        for p in paths:
            if p.exit == "stop" and not p.events:
                continue
            uniq.append(p)
        post = pre.fork()
        conds = None
        e = Event("loop", ctx.fn.where(node), ctx.fn.qual, lid=lid, iter=base, elem=el, loopkind=kind, raw=raw, paths=tuple(uniq), astn=node,
                  init={nm: pre.env[nm] for nm in names if nm in pre.env}, within=self.within(ctx, node))
        if any(p.events for p in uniq) or any(o[0] in ("return",) for _, o in leaving):
            post.ev.append(e)
        else:
            post.silent[lid] = e
        # locals after the loop
        for nm in names:
            alts = []
            if nm in pre.env:
                alts.append((pre.env[nm], ()))
            lv = mk("loopvar", lid, nm)
            for s1, o in ends:
                v = s1.env.get(nm)
                if v is None or v is lv:
                    continue
                v = self.res(s1, v)
                delta = tuple(sorted(((a, b) for a, b in s1.cons.items() if a not in pre.cons), key=lambda x: x[0].id))
                i = next((i for i, x in enumerate(alts) if x[0] is v), None)
                if i is None:
                    alts.append((v, delta))
                else:
                    alts[i] = (v, tuple(x for x in alts[i][1] if x in delta))
            if not alts:
                continue
            if len(alts) == 1 and nm in pre.env:
                post.env[nm] = alts[0][0]
            elif any(T.contains(v, lv) for v, _ in alts) or len(alts) > 6:
                post.env[nm] = mk("after", lid, nm, tuple(v for v, _ in alts), ty=alts[0][0].ty)
            else:
                for i, (v, delta) in enumerate(alts):
                    if delta:
                        alts[i] = self.witness_of(lid, v, delta, all(o[0] == "break" for s1, o in ends if self.res(s1, s1.env.get(nm, v)) is v))
                post.env[nm] = mk("phi", lid, nm, tuple(alts), ty=alts[0][0].ty or alts[-1][0].ty)
        written = dict(carried)
        for s1, o in ends:
            for k, v in s1.heap.items():
                if pre.heap.get(k) is v or k in written or self._mentions(k, lid):
                    continue
                if k[0].op == "new" and k not in pre.heap and not any(kk[0] is k[0] for kk in pre.heap):
                    continue
                written[k] = (pre.heap[k].ty if k in pre.heap else
                              (k[0].ty if k[1] == "$items" else self.field_type(k[0], k[1])))
        e.d["init"].update({k: pre.heap[k] for k in written if k in pre.heap})
        for k, ty in written.items():
            vals = []
            for s1, o in ends:
                v = s1.heap.get(k)
                if v is not None and not any(v is x for x in vals):
                    vals.append(v)
            post.heap[k] = mk("afterloop", lid, k[0], k[1] if isinstance(k[1], str) else "", tuple(x for x in k[2:]), tuple(vals), ty=ty)
        for s1, o in ends:
            for f, v in s1.ver.items():
                if post.ver.get(f, 0) < v:
                    post.ver[f] = v
        res = []
        if orelse:
            res.extend(self.block(orelse, post.fork(), ctx))
            if any(o[0] == "break" for _, o in ends):
                res.append((post, NORM))
        else:
            res.append((post, NORM))
        # paths that leave the function from inside the loop
        for s1, o in leaving:
            s1.ev[n_ev:n_ev] = [Event("enter", ctx.fn.where(node), ctx.fn.qual, lid=lid, iter=base, elem=el)]
            res.append((s1, o))
        return res

    def witness_of(self, lid, v, delta, first):
        """the value and conditions of one iteration left behind by a loop: told apart from other iterations"""
        new = self._found.setdefault((lid, delta), (lid, "found", len(self._found), "first" if first else "last"))

        def f(t):
            if t.op in ("elem", "index") and len(t.args) > 1 and t.args[1] == lid:
                return mk(t.op, T.rebuild(t.args[0], f), new, *t.args[2:], ty=t.ty)
            return None
        return T.rebuild(v, f), tuple((T.rebuild(a, f), b) for a, b in delta)

    def grown_in_place(self, node):
        """names a loop assigns only by +="""
        k = ("grown", id(node))
        if k not in self._loads:
            aug, other = set(), set()
            for x in ast.walk(node):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    (aug if isinstance(x.op, ast.Add) else other).add(x.target.id)
            augs = {id(x.target) for x in ast.walk(node) if isinstance(x, ast.AugAssign)}
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in augs:
                    other.add(x.id)
            self._loads[k] = aug - other
        return self._loads[k]

    def _mentions(self, k, lid):
        for x in k:
            if isinstance(x, T.Term):
                for y in T.walk(x):
                    if y.op in ("elem", "index") and len(y.args) > 1 and y.args[1] == lid:
                        return True
        return False

    # ---- entry -----------------------------------------------------------
    def run(self, fn, args=None, pre=None):
        """enumerate paths of fn; args: param -> Term (missing: symbols)"""
        st = State()
        if pre:
            pre(st)
        args = args or {}
        for i, p in enumerate(fn.params + fn.kwonly):
            if p in args:
                st.env[p] = args[p]
            elif i in args:
                st.env[p] = args[i]
            elif i == 0 and fn.cls is not None and not fn.static:
                st.env[p] = mk("sym", "self", ty=self.type_of_class(fn.cls) if self.type_of_class(fn.cls)[:4] != "cls:" or True else None)
            else:
                st.env[p] = mk("sym", p)
        if fn.vararg:
            st.env[fn.vararg] = mk("sym", "*" + fn.vararg)
        if fn.kwarg:
            st.env[fn.kwarg] = mk("sym", "**" + fn.kwarg)
        ctx = Ctx(fn, 0, (fn.qual,))
        outs = self.run_body(fn, st, ctx)
        return [Path(s, (o[0], self.res(s, o[1])) if len(o) > 1 else o) for s, o in outs]


ATOMS = {"lt0", "eq", "is", "none", "in", "nonempty", "islink", "matches", "exc"}


def is_seq(t):
    return T.is_listlike(t) or t.ty == "dict" and t.op not in ATOMS


def _as_load(n):
    n2 = ast.parse(ast.unparse(n), mode="eval").body
    for x in ast.walk(n2):
        ast.copy_location(x, n)
    return n2


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_Global(self, n):
            out.difference_update(n.names)
    v = V()
    for s in stmts:
        v.visit(s)
    return out


# ---- worlds ----------------------------------------------------------------
def worlds(prog):
    def pick(mod, names):
        out = {}
        for ty, nm in names.items():
            r = prog.resolve_name(prog.module(mod), nm)
            if not isinstance(r, Class):
                raise AnalysisBroken("class vanished: %s.%s" % (mod, nm))
            out[ty] = r
        return out
    dom = {"Person": "Person", "Location": "Location", "Link": "Link", "Ecosystem": "Ecosystem"}
    ser = pick("flee.flee", dom)
    par = pick("flee.pflee", dict(dom, MPIManager="MPIManager"))
    ig = pick("flee.InputGeography", {"InputGeography": "InputGeography"})
    dt = pick("flee.datamanager.DataTable", {"DataTable": "DataTable"})
    for w in (ser, par):
        w.update(ig)
        w.update(dt)
    return {"serial": ser, "parallel": par}
