"""M01-M03: processes of the parallel model act together"""
import ast
import itertools
from ..report import *          # noqa
from ..report import mk, T, I
from ..model import Func
from .network import guards
from .. import replay as R
from ..terms import const
from .inputs import attempt, known, one_way
from .routing import is_setting, is_sym, loops_of

W = "parallel"
COMM = {"Allreduce", "allreduce", "Bcast", "bcast", "Allgather", "allgather", "Allgatherv", "Gather", "gather", "Gatherv",
        "Scatter", "scatter", "Scatterv", "Reduce", "reduce", "Barrier", "barrier", "Alltoall", "alltoall", "Alltoallv",
        "Reduce_scatter", "Scan", "Exscan", "scan"}
MODS = ("flee.pflee", "flee.flee", "flee.spawning", "flee.scoring", "flee.crawling", "flee.moving", "flee.Diagnostics",
        "flee.coupling", "flee.InputGeography", "flee.SimulationSettings", "flee.datamanager.handle_refugee_data",
        "flee.datamanager.DataTable")
SCRIPTS = ("runscripts.run_par", "flee.config_template.run_par")
OWN = {"rank", "num_arrivals", "travel_durations", "coupling_rank", "numAgentsOnRank", "numAgentsSpawnedOnRank", "cumNumAgentsOnRank"}
# state of the model that every process keeps for itself and that has to stay alike
SHARED = {"total_agents", "spawn_weights", "spawn_weight_total", "locations", "locationNames", "links", "closed_links",
          "closures", "location_type", "movechance", "conflict", "camp", "town", "forward", "idpcamp", "foreign", "marker",
          "conflict_zones", "conflict_zone_names", "conflict_weights", "conflict_pop", "flood_level", "pop", "capacity",
          "country", "region"}


def main_of(prog, name):
    """the statements of a script, as a function"""
    m = prog.module(name)
    body = []
    for s in ast.parse(m.text).body if hasattr(m, "text") else m.node.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            continue
        if (isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name)
                and s.test.left.id == "__name__"):
            body += s.body
        else:
            body.append(s)
    a = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
    n = ast.FunctionDef(name="main", args=a, body=body, decorator_list=[], returns=None, type_comment=None, lineno=1, col_offset=0)
    ast.fix_missing_locations(n)
    return Func(n, m)


class Taint:
    """which values may differ between processes"""
    world = W
    word = "differs between processes"

    def __init__(self, ctx, kinds=("exchange", "draw", "change")):
        self.ctx, self.kinds = ctx, kinds
        self.prog = ctx.prog
        self.byname = {}
        for f in ctx.prog.all_funcs():
            if f.module.name in MODS:
                self.byname.setdefault(f.name, []).append(f)
        self.every = set(self.byname)
        self.pc = {}
        self.lids = {}
        self.memo = {}
        self.all_lids, self.memos = {}, {}
        self.ret = {}       # function -> whether what it returns may differ between processes
        self.ops = {}       # function -> has shared operations
        self.busy = set()
        self.st = {}
        self.own, self.script, self.fn = set(), False, None
        self.it = I.Interp(ctx.prog, ctx.worlds[self.world])

    def paths(self, fn):
        if fn not in self.pc:
            self.pc[fn] = None
            try:
                ps = self.ctx.paths(self.world, fn, stop=self.every | {"print"}, max_alts=256, max_states=20000, inline=lambda g: g is fn)
            except Exception as e:          # noqa
                self.ctx.notes.append("M01: %s is not followed: %s" % (fn.qual, e))
                ps = []
            self.pc[fn] = ps
            self.all_lids[fn] = loops_of(ps)
        return self.pc[fn] or []

    def inside(self, fn, f):
        """f() with the loops of fn"""
        self.paths(fn)
        keep = self.lids, self.memo, self.script, self.fn
        self.fn = fn
        self.script = fn in self.own
        self.lids, self.memo = self.all_lids.get(fn, {}), self.memos.setdefault(fn, {})
        try:
            return f()
        finally:
            self.lids, self.memo, self.script, self.fn = keep

    def callee(self, e):
        f = e.d.get("fn")
        if isinstance(f, Func):
            return f
        s = e.name.split(".")[-1]
        if e.name.startswith(".") or "." not in e.name:
            if self.script and self.ctx.worlds[self.world].get("Ecosystem") is not None:
                return self.ctx.worlds[self.world]["Ecosystem"].find(s)
            c = self.byname.get(s, [])
            if len(c) == 1:
                return c[0]
        return None

    def comm(self, e):
        s = e.name.split(".")[-1]
        return s in COMM and "." in e.name and self.callee(e) is None

    def bad(self, t, depth=0):
        """the part of a value that may differ between processes, or None"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._bad(t, depth)
        self.memo[t] = r
        return r

    def _bad(self, t, depth):
        o = t.op
        if o == "attr" and t.args[1] in OWN:
            return t
        if o == "attr" and t.args[1] == "agents":
            return t
        if (t.ty or "") == "Person":
            return t
        if o in ("loopvar", "elem", "found"):
            lp = self.lids.get(t.args[0]) if o == "loopvar" else None
            if lp is not None and self.turns(lp) is not None:
                return t
        if o in ("after", "afterloop", "phi"):
            lp = self.lids.get(t.args[0])
            if lp is not None and self.turns(lp) is not None:
                return t
        if o in ("result", "call"):
            n = t.args[0]
            s = n.split(".")[-1]
            if s in ("Get_rank", "getRankN", "numAgentsOnRank"):
                return t
            if n.startswith(("random.", "time.", "uuid.")) or n in ("id", "hash", "os.getpid", "os.urandom", "os.listdir", "socket.gethostname"):
                return t
            if s in COMM and "." in n:
                return None
            f = self.named(n)
            if f is not None:
                if self.collective_result(f):
                    return None
                r = self.returns(f)
                if r:
                    return t
        if T.is_len(t):
            x = t.args[1][0]
            return self.bad(x) if x.op == "attr" else self.layout(None, x, depth + 1)
        for a in T.children(t):
            r = self.bad(a, depth + 1)
            if r is not None:
                return r
        return None

    def made(self, t):
        """how a list of the current function was put together"""
        for p in self.pc.get(self.fn) or ():
            if (t, "$items") in p.state.heap or t.op != "new":
                g = gather(p, t)
                if g is not None:
                    return g
        return None

    def named(self, n):
        s = n.split(".")[-1]
        for f in self.byname.get(s, []):
            if f.qual == n:
                return f
        c = self.byname.get(s, [])
        return c[0] if len(c) == 1 and n.startswith(".") else None

    def turns(self, lp):
        """a loop that every process goes through its own number of times"""
        for k in ("raw", "iter"):
            x = lp.d.get(k)
            if isinstance(x, T.Term):
                r = self.bad(x)
                if r is not None:
                    return r
        return None

    def collective_result(self, f):
        """every path returns what a collective exchange has made"""
        return f.cls is not None and f.cls.name == "MPIManager" and f.name.startswith("CalcCommWorldTotal")

    def returns(self, f):
        if f in self.ret:
            return self.ret[f]
        self.ret[f] = False
        self.ret[f] = self.inside(f, lambda: self._returns(f))
        return self.ret[f]

    def _returns(self, f):
        ps = self.paths(f)
        r = any(p.value is not None and self.bad(p.value) is not None for p in ps if p.exit == "return")
        if not r:
            # a value chosen by a condition of the process
            vals = {p.value for p in ps if p.exit == "return"}
            r = len(vals) > 1 and any(self.bad(k) is not None for p in ps for g in guards(p) for k in g)
        return r

    # -- operations all processes share
    def shared_write(self, e):
        b = e.base
        if e.kind == "write":
            return e.attr if e.attr in SHARED and self.model(b) else None
        while b.op in ("idx", "elem") or (b.op == "copy"):
            b = b.args[0]
        if b.op in ("attr", "classattr") and b.args[1] in SHARED and (b.op == "classattr" or self.model(b.args[0])):
            return b.args[1]
        return None

    def model(self, b):
        return (b.ty or "") in ("Ecosystem", "Location", "Link") or b.op == "class" or (b.op == "attr" and b.args[1] in ("e", "_e")) \
            or (b.op == "sym" and b.args[0] in ("e",))

    def op(self, e):
        """(name, values that decide what it does)"""
        if e.kind == "call":
            if "exchange" in self.kinds and self.comm(e):
                return ("exchange " + e.name.split(".")[-1], ())
            if "draw" in self.kinds and e.name.startswith("numpy.random."):
                return ("shared draw " + e.name, tuple(v for _, v in e.args))
            f = self.callee(e)
            if f is not None and self.has_ops(f):
                return ("call of " + f.qual, tuple(self.given(e, f)))
        elif e.kind in ("write", "subwrite", "mutate"):
            a = self.shared_write(e) if "change" in self.kinds else None
            if a:
                vs = [e.base]
                if e.d.get("value") is not None:
                    vs.append(e.d["value"])
                if e.d.get("key") is not None:
                    vs.append(e.d["key"])
                return ("change of " + a, tuple(x for x in vs if isinstance(x, T.Term)))
        return None

    def given(self, e, f):
        """the arguments that decide which shared operations the callee does"""
        st = self.steers(f)
        ps = f.params[1:] if f.cls is not None and not f.static else f.params
        for k, v in e.args:
            if k.startswith("#"):
                i = int(k[1:])
                k = ps[i] if i < len(ps) else None
            if k in st:
                yield v
        if f.params and f.params[0] in st and f.cls is not None and not f.static and isinstance(e.d.get("recv"), T.Term):
            yield e.d["recv"]

    def steers(self, f):
        """parameters that decide which shared operations a function does"""
        if f in self.st:
            return self.st[f]
        self.st[f] = set()
        self.st[f] = self.inside(f, lambda: self._steers(f))
        return self.st[f]

    def _steers(self, f):
        par = set(f.params) | set(f.kwonly)
        out = set()

        def use(t):
            for x in T.walk(t):
                if x.op == "sym" and x.args[0] in par:
                    out.add(x.args[0])
                if x.op == "sym" and x.args[0] == "self" and f.params:
                    out.add(f.params[0])

        def go(p):
            some = False
            for e in p.events:
                if e.kind == "loop":
                    sub = [q for q in e.paths if go(q)]
                    if sub:
                        some = True
                        for k in ("raw", "iter"):
                            if isinstance(e.d.get(k), T.Term):
                                use(e.d[k])
                else:
                    o = self.op(e)
                    if o:
                        some = True
                        for v in o[1]:
                            use(v)
            return some
        ps = [p for p in self.paths(f) if p.exit not in ("stop", "raise", "exit")]
        for p in ps:
            go(p)
        if len({str(self.seq(p)) for p in ps}) > 1:
            for p in ps:
                for g in guards(p):
                    for k in g:
                        use(k)
        for lp in loops_of(ps).values():
            qs = [q for q in lp.paths if q.exit != "stop"]
            if len({str(self.seq(q)) for q in qs}) > 1:
                for q in qs:
                    for g in guards(q):
                        for k in g:
                            use(k)
        return out

    def has_ops(self, f):
        if f in self.ops:
            return self.ops[f]
        if f.module.name not in MODS and f not in self.own:
            return False
        self.ops[f] = False
        self.ops[f] = self.inside(f, lambda: any(self.seq(p) for p in self.paths(f)))
        return self.ops[f]

    def seq(self, p):
        out = []
        for e in p.events:
            if e.kind == "loop":
                b = set()
                for q in e.paths:
                    if q.exit == "stop":
                        continue
                    s = self.seq(q)
                    if s:
                        b.add(tuple(s))
                if b:
                    x = e.d.get("iter")
                    out.append(("loop", shown(x) if isinstance(x, T.Term) else "?", tuple(sorted(b, key=str))))
            else:
                o = self.op(e)
                if o:
                    out.append(("op", o[0], tuple(shown(x) for x in o[1])))
        return out

    def layout(self, p, t, depth=0):
        """the part of a value that makes the shape of an array differ between processes, or None"""
        if depth > 6 or t is None:
            return None
        if t.op in ("result", "call"):
            s = t.args[0].split(".")[-1]
            av = [x[1] if isinstance(x, tuple) else x for x in (t.args[2] if t.op == "result" else t.args[1])]
            if s in ("empty", "zeros", "ones", "full"):
                return self.bad(av[0]) if av else None
            if s in ("array", "asarray", "list", "tuple", "fromiter") and av:
                return self.layout(p, av[0], depth + 1)
            return None
        if t.op in ("new", "after", "afterloop"):
            g = gather(p, t) if p is not None else self.made(t)
            for x in g or ():
                if x[0].endswith("loop"):
                    r = self.turns(x[1])
                    if r is not None:
                        return r
                    n = {len(b) for _, b in x[2]}
                    if len(n) > 1:
                        for q, _ in x[2]:
                            for c in guards(q):
                                for k in c:
                                    r = self.bad(k)
                                    if r is not None:
                                        return r
                elif x[0].endswith("many"):
                    r = self.bad(x[1])
                    if r is not None:
                        return r
        return None


def shown(x):
    return T.show(T.strip(x))


def flat_ops(s):
    for x in s:
        if x[0] == "loop":
            for b in x[2]:
                yield from flat_ops(b)
        elif x[0] == "op":
            yield x[1]


def why(p, q, tt):
    """a condition of the process's own that separates two paths which agree on everything shared"""
    for g in guards(p):
        for h in guards(q):
            own, clash = None, False
            for k, v in g.items():
                if k in h and h[k] is not v:
                    t = tt.bad(k)
                    if t is None:
                        clash = True
                        break
                    own = own or (k, t)
            if own and not clash:
                g1 = {k: v for k, v in g.items() if tt.bad(k) is None}
                clash = any(tt.it.decide_in(k, g1) is (not v) for k, v in h.items() if k not in g1 and tt.bad(k) is None)
            if own and not clash:
                return own
    return None


def divide(tt, rule, fn, ps, seen, n, follows=False):
    """paths that differ only in what the process itself knows do the same shared operations"""
    ps = [p for p in ps if p.exit not in ("stop", "raise", "exit")]
    tainted = any(tt.bad(k) is not None for p in ps for g in guards(p) for k in g)
    ctx = tt.ctx
    if tainted:
        seqs = [(p, tt.seq(p) + ([("break",)] if p.exit == "break" else [])) for p in ps]
        if len({str(s) for _, s in seqs}) > 1:
            for (p, s), (q, r) in itertools.combinations(seqs, 2):
                if s == r:
                    continue
                if not (list(flat_ops(s + r)) or follows):
                    continue
                o = why(p, q, tt)
                if o is None:
                    continue
                k, t = o
                diff = [x for x in flat_ops(s) if x not in list(flat_ops(r))] or [x for x in flat_ops(r) if x not in list(flat_ops(s))] or list(flat_ops(s + r)) or ["the number of turns"]
                ctx.fail(rule + ".diverge", fn.qual + "|" + diff[0], "%s depends on %s, which %s" % (diff[0], T.show(k), tt.word),
                         fn.where(), witness(p) + ["against"] + witness(q))
                break
    n[0] += len(ps)
    for p in ps:
        for e in p.events:
            o = tt.op(e) if e.kind != "loop" else None
            if o and (e.kind, e.where, o[0]) not in seen:
                seen.add((e.kind, e.where, o[0]))
                for v in o[1]:
                    t = tt.bad(v)
                    ctx.check(t is None, rule + ".value", fn.qual + "|" + o[0], "%s with a value (%s) that %s" % (
                        o[0], T.show(v), tt.word), "%s %s" % (e.func, e.where))
            if o and e.kind == "call":
                f = tt.callee(e)
                if tt.comm(e) or (f is not None and f.cls is not None and f.cls.name == "MPIManager"):
                    for _, v in e.args:
                        for x in (v.args if v.op == "list" else [v]):
                            t = tt.layout(p, x)
                            ctx.check(t is None, rule + ".layout", fn.qual + "|" + o[0], "%s of an array whose layout depends on %s, which differs between processes" % (
                                o[0], T.show(t) if t is not None else ""), "%s %s" % (e.func, e.where))
            if e.kind != "loop":
                continue
            k = (e.lid, e.d.get("raw"), e.d.get("iter"))
            if k in seen:
                continue
            seen.add(k)
            body = [x for q in e.paths if q.exit != "stop" for x in flat_ops(tt.seq(q))]
            if body:
                t = tt.turns(e)
                ctx.check(t is None, rule + ".turns", fn.qual + "|" + body[0],
                          "%s happens once per turn of a loop that depends on %s, which %s" % (
                              body[0], T.show(t) if t is not None else "", tt.word), "%s %s" % (e.func, e.where))
            divide(tt, rule, fn, e.paths, seen, n, bool(body))


def alike(ctx, rule, kinds, least, tt=None, scripts=SCRIPTS, what="functions with operations that all processes share"):
    tt = tt or Taint(ctx, kinds)
    n = [0]
    done = 0
    fns = [f for f in ctx.prog.all_funcs() if f.module.name in MODS]
    for m in scripts:
        f = main_of(ctx.prog, m)
        tt.own.add(f)
        fns.append(f)
    dead = set()
    for k in ("Ecosystem", "Location", "Link", "Person"):
        c = ctx.worlds[tt.world].get(k)
        if c is None:
            continue
        for b in c.mro()[1:]:
            for nm, f in b.methods.items():
                if c.find(nm) is not f:
                    dead.add(f)
    for f in fns:
        if f in dead or helper(ctx.prog, f) or not tt.has_ops(f):
            continue
        done += 1
        tt.inside(f, lambda: divide(tt, rule, f, tt.paths(f), set(), n))
    ctx.need(what, done, least)
    ctx.ok(rule + ".paths", n[0])


def m01(ctx):
    alike(ctx, "M01", ("exchange",), 8)


# ---- M02: what comes out of the exchange ---------------------------------------
class Count(R.Keep):
    """a number put together from the counts of named places, on one process or over all of them"""

    def __init__(self, parts, total, size):
        self.parts, self.total, self.size = {k: v for k, v in parts.items() if v}, total, size

    def join(self, o, k):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            if o == 0:
                return self
            o = Count({"1": o}, self.total, o)
        if not isinstance(o, Count):
            return NotImplemented
        if o.total != self.total:
            raise R.Fails("the count of one process is added to the count of all")
        d = dict(self.parts)
        for x, v in o.parts.items():
            d[x] = d.get(x, 0) + k * v
        return Count(d, self.total, self.size + k * o.size)

    def __add__(self, o):
        return self.join(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self.join(o, -1)

    def __mul__(self, k):
        if isinstance(k, (int, float)):
            return Count({x: v * k for x, v in self.parts.items()}, self.total, self.size * k)
        if isinstance(k, Mean):
            return k * self
        if isinstance(k, Over):
            return k * self
        return NotImplemented

    __rmul__ = __mul__

    def __rpow__(self, k):
        return NotImplemented

    def __pow__(self, k):
        if isinstance(k, int) and k == 1:
            return self
        if k == -1:
            return Over(self)
        return NotImplemented

    def __truediv__(self, o):
        return Over(o) * self

    def __lt__(self, o):
        return self.size < (o.size if isinstance(o, Count) else o)

    def __gt__(self, o):
        return self.size > (o.size if isinstance(o, Count) else o)

    def __eq__(self, o):
        if isinstance(o, Count):
            return self.parts == o.parts and self.total == o.total
        return self.size == o

    def __hash__(self):
        return hash((frozenset(self.parts), self.total))

    def __bool__(self):
        return self.size != 0

    def __repr__(self):
        return ("the count over all processes of " if self.total else "the count on one process of ") + (
            " + ".join("%s%s" % ("" if v == 1 else "%s*" % v, k) for k, v in sorted(self.parts.items())) or "nothing")


class Mean(R.Keep):
    """an average over the counted agents of one process"""

    def __init__(self, of, per):
        self.of, self.per = of, per

    def __mul__(self, o):
        if isinstance(o, Count) and o == self.per:
            return self.of
        if o == 1 and isinstance(o, int):
            return self
        if isinstance(o, Count):
            raise R.Fails("the mean on one process is multiplied with %r" % o)
        raise R.Unknown("a mean times something else")

    def __repr__(self):
        return "a mean"


    def __pow__(self, k):
        return self if k == 1 else NotImplemented

    def __rmul__(self, o):
        return self * o if not isinstance(o, int) or o != 1 else self


class Over(R.Keep):
    """divided by a count"""

    def __init__(self, by, of=None):
        self.by, self.of = by, of

    def __mul__(self, o):
        if self.of is None and isinstance(o, (Count, int, float)):
            return Over(self.by, o)
        raise R.Unknown("a quotient times something else")

    __rmul__ = __mul__

    def __repr__(self):
        return "(%r) / (%r)" % (self.of, self.by)


def local(name, size=1):
    return Count({name: 1}, False, size)


def allover(name, size=5):
    return Count({name: 1}, True, size)


OTHERS = [5]        # how many times the count of one process all of them have


def reduced(x):
    if isinstance(x, list):
        return [reduced(y) for y in x]
    if isinstance(x, Count):
        if x.total:
            raise R.Fails("%r is added up over the processes once more" % x)
        return Count(x.parts, True, OTHERS[0] if not x.size else x.size * max(OTHERS[0], 1))
    if x is None:
        raise R.Fails("a buffer position that was never filled is exchanged")
    if isinstance(x, (int, float)):
        if x == 0:
            return Count({}, True, 0)
        return Count({"1": x}, True, x)
    raise R.Unknown("%r is exchanged" % (x,))


FOLD = {"CalcCommWorldTotal": reduced, "CalcCommWorldTotalSingle": reduced}


def bind(tab):
    return R.Bind(known(tab), calls=FOLD)


def net(zero=()):
    """places with their counts: one with no agents on this process, one without links"""
    n = [0]

    def place(name, **kw):
        n[0] += 1
        return R.Rec(name, numAgentsOnRank=local(name, 0 if name in zero else n[0]), numAgents=allover("old " + name),
                     numAgentsSpawnedOnRank=local("spawned at " + name, n[0]), numAgentsSpawned=allover("old spawned at " + name), **kw)
    locs = []
    for i, (l, c) in enumerate(((2, 1), (0, 2), (3, 0), (1, 1))):
        locs.append(place("place %d" % i, links=[place("link %d.%d" % (i, j)) for j in range(l)],
                          closed_links=[place("closed link %d.%d" % (i, j)) for j in range(c)], idpcamp=i in (1, 2), camp=i == 3,
                          town=i == 0))
    return locs


def mpaths(ctx, name):
    fn = ctx.method(W, name)
    return fn, ctx.paths(W, fn, inline=lambda g: not (g.cls is not None and g.cls.name == "MPIManager") and not (g is not fn and g.name == fn.name),
                         cache=False, max_alts=256)


def own(name, of="self"):
    return lambda t: is_attr(t, name) and is_sym(of)(t.args[0])


def update_numagents(ctx):
    fn, ps = mpaths(ctx, "Ecosystem.updateNumAgents")
    modes = set()
    init = ctx.method(W, "Ecosystem.__init__")
    for p in ps:
        for g in guards(p):
            for k in g:
                if k.op == "eq":
                    for x in k.args:
                        if x.op == "const" and isinstance(x.args[0], str) and any(is_attr(y, "latency_mode") for y in k.args):
                            modes.add(x.args[0])
    modes = sorted(modes) or ["high_latency"]
    n = 0
    for mode in modes:
        for closed in (False, True):
            for zero in ((), ("place 0", "link 0.1", "place 2"), ("place 3", "closed link 1.1")):
                locs = net(zero)
                b = bind([(own("latency_mode"), mode), (is_sym("CountClosed"), closed), (is_sym("log"), False), (own("locations"), locs)])
                what = "%s, %s closed links" % (mode, "with" if closed else "without")
                w = one_way(ctx, "M02", fn, ps, b, what)
                if w is None:
                    continue
                p, b = w
                got = attempt(ctx, "M02", "%s (%s)" % (fn.qual, what), lambda: [(e, R.value(e.base, q, bb), R.value(e.value, q, bb))
                              for e, q, bb in R.replay(p, b, lambda e: e.kind == "write" and e.attr in ("numAgents", "total_agents"))])
                if got is None:
                    continue
                new, total, at = {}, None, {}
                for e, o, v in got:
                    if isinstance(o, R.Rec):
                        new[o.name] = v
                        at[o.name] = e
                    elif e.attr == "total_agents":
                        total = v
                want = Count({}, True, 0)
                for l in locs:
                    for x in [l] + l.attrs["links"] + (l.attrs["closed_links"] if closed else []):
                        n += 1
                        v = new.get(x.name)
                        want = want + allover(x.name)
                        ctx.check(v is not None and v == allover(x.name), "M02.headcount", "%s|%s" % (fn.qual, kind(x.name)),
                                  "%s: numAgents of %s becomes %r, not its count over all processes" % (what, x.name, v), fn.where())
                    if not closed:
                        for x in l.attrs["closed_links"]:
                            if x.name in new:
                                ctx.check(new[x.name] == allover(x.name), "M02.headcount", "%s|%s" % (fn.qual, kind(x.name)),
                                          "%s: numAgents of %s becomes %r" % (what, x.name, new[x.name]), fn.where())
                if total is None:
                    ctx.fail("M02.total", "%s|%s" % (fn.qual, mode), "%s: total_agents is not updated" % what, fn.where())
                else:
                    ctx.check(total == want, "M02.total", "%s|%s" % (fn.qual, mode), "%s: total_agents becomes %r, not the sum over all places" % (what, total), fn.where())
    ctx.need("places followed through the synchronisation", n, 20)


def kind(name):
    return " ".join(w for w in name.split() if not w[0].isdigit())


def aggregates(ctx):
    fn, ps = mpaths(ctx, "Ecosystem.numIDPs")
    for zero in ((), ("place 1",), ("place 1", "place 2")):
        locs = net(zero)
        b = bind([(own("locations"), locs)])
        w = one_way(ctx, "M02", fn, ps, b, fn.qual)
        if w is None:
            continue
        v = attempt(ctx, "M02", fn.qual, lambda: R.value(w[0].value, w[0], w[1]))
        if v is not None:
            ctx.check(v == allover("place 1") + allover("place 2"), "M02.idps", fn.qual, "returns %r instead of the count of all IDP camps over all processes" % (v,), fn.where())
    fn, ps = mpaths(ctx, "Ecosystem.numAgents")
    for p in ps:
        if p.exit == "return":
            v = attempt(ctx, "M02", fn.qual, lambda: R.value(p.value, p, bind([(own("total_agents"), allover("all")), (own("agents"), [1, 2, 3])])))
            if v is not None:
                ctx.check(v == allover("all"), "M02.numagents", fn.qual, "returns %r instead of the total over all processes" % (v,), fn.where())
    fn, ps = mpaths(ctx, "Ecosystem._aggregate_arrivals")
    last = lambda name: lambda t: t.op == "idx" and own(name)(t.args[0]) and t.args[1] is const(-1)
    for k, others in ((0, 5), (3, 5), (1, 1), (0, 0)):
        OTHERS[0] = others
        total = k * others or others
        arr, tm = local("arrivals", k), local("travel time", 7 * k)
        b = bind([(is_setting("camp"), 1), (last("num_arrivals"), arr), (last("travel_durations"), Mean(tm, arr))])
        w = one_way(ctx, "M02", fn, ps, b, fn.qual)
        if w is None:
            OTHERS[0] = 5
            continue
        p, b = w

        def writes():
            out = {}
            for e, q, bb in R.replay(p, b, lambda e: e.kind == "subwrite" and e.base.op == "attr"):
                out[e.base.args[1]] = (R.value(e.d["key"], q, bb), R.value(e.value, q, bb))
            return out
        got = attempt(ctx, "M02", fn.qual, writes)
        OTHERS[0] = 5
        if got is None:
            continue
        v = got.get("num_arrivals")
        ctx.check(v is not None and v[0] == -1 and (v[1] == allover("arrivals") or not total and v[1] == 0), "M02.arrivals", fn.qual + "|num_arrivals",
                  "the number of arrivals of the step becomes %r instead of the number over all processes" % (v,), fn.where())
        v = got.get("travel_durations")
        good = v is not None and v[0] == -1 and isinstance(v[1], Over) and v[1].of == allover("travel time") and (v[1].by == allover("arrivals") and isinstance(v[1].by, Count) if total else v[1].by != 0)
        good = good or total <= 1 and v is not None and v[0] == -1 and isinstance(v[1], Count) and v[1] == allover("travel time")
        good = good or isinstance(v and v[1], Over) and total == 1 and v[1].of == allover("travel time") and not isinstance(v[1].by, Count) and v[1].by == 1
        good = good or not total and v is not None and v[0] == -1 and isinstance(v[1], (int, float)) and v[1] == 0
        ctx.check(good, "M02.arrivals", fn.qual + "|travel_durations",
                  "the mean travel time of the step becomes %r instead of the mean over all processes" % (v,), fn.where())


def spawn_counts(ctx):
    fn = ctx.method(W, "Ecosystem.evolve")
    tt = Taint(ctx)
    seen = 0
    done = set()
    for p in tt.paths(fn):
        only = lambda e: e.kind == "write" and e.attr == "numAgentsSpawned"
        key = tuple(e.key for e in p.events if e.kind == "loop" and R.mentions(e, only))
        if p.exit in ("raise", "exit") or key in done:
            continue
        done.add(key)
        locs = net()
        b = bind([(own("locations"), locs)])
        got = attempt(ctx, "M02", "spawn counts in " + fn.qual, lambda: [(R.value(e.base, q, bb), R.value(e.value, q, bb)) for e, q, bb in R.replay(p, b, only)])
        if got is None:
            continue
        new = {o.name: v for o, v in got if isinstance(o, R.Rec)}
        for l in locs:
            seen += 1
            v = new.get(l.name)
            ctx.check(v is not None and v == allover("spawned at " + l.name), "M02.spawned", fn.qual,
                      "numAgentsSpawned of %s becomes %r instead of its count over all processes" % (l.name, v), fn.where())
    # agents moved: the headcounts are made to agree again before the step ends
    for p in tt.paths(fn):
        if p.exit in ("raise", "exit", "stop"):
            continue
        moved = False
        for e in p.events:
            if e.kind == "loop" and any(c.kind == "call" and isinstance(c.d.get("fn"), Func) and c.d["fn"].cls is not None and c.d["fn"].cls.name == "Person"
                                        and c.d["fn"].name in ("evolve", "finish_travel") for q in e.paths for c in q.events):
                moved = True
            if e.kind == "call" and isinstance(e.d.get("fn"), Func) and e.d["fn"].name == "updateNumAgents":
                moved = False
        seen += 1
        ctx.check(not moved, "M02.synchronised", fn.qual, "a step ends with agents moved but headcounts not made to agree", fn.where())
    ctx.need("spawn counts followed", seen, 2)


def placing(ctx):
    """each added agent lives on exactly one process"""
    for name in ("Ecosystem.addAgent", "Ecosystem.insertAgent"):
        fn = ctx.method(W, name)
        ps = ctx.paths(W, fn, inline=lambda g: not (g.cls is not None and g.cls.name in ("Person", "MPIManager")) and g.name != "print", cache=False)
        for take in (False, True):
            for size in (1, 2, 3, 4, 5):
                for total in range(7):
                    made, counted, n = 0, 0, 0
                    for rank in range(size):
                        b = bind([(is_setting("TakeFromPopulation"), take), (lambda t: is_attr(t, "size"), size),
                                  (lambda t: is_attr(t, "rank"), rank), (own("total_agents"), total), (own("pop", "location"), 50)])
                        w = one_way(ctx, "M02", fn, ps, b, fn.qual)
                        if w is None:
                            continue
                        n += 1
                        new = [e for e in w[0].events if e.kind == "construct"]
                        made += len(new)
                        counted += any(e.kind == "write" and e.attr == "numAgentsSpawnedOnRank" for e in w[0].events)
                        kept = [e for e in w[0].events if e.kind == "mutate" and e.method in ("append", "add") and own("agents")(e.base)]
                        ctx.check(len(new) == len(kept) or any(e.kind == "write" and e.attr == "agents" for e in w[0].events), "M02.place", fn.qual + "|kept",
                                  "an agent is created but not kept (or the other way round)", fn.where())
                    if n == size:
                        ctx.check(made == 1, "M02.place", fn.qual, "with %d processes and %d agents so far, a new agent is created on %d processes" % (size, total, made), fn.where())
                        if take and name == "Ecosystem.addAgent":
                            ctx.check(counted == 1, "M02.place", fn.qual + "|spawned", "a spawned agent is counted on %d processes" % counted, fn.where())


def manager(ctx):
    """the exchange itself adds up the buffer it is given and returns what it received"""
    for name in ("MPIManager.CalcCommWorldTotal", "MPIManager.CalcCommWorldTotalSingle"):
        c = ctx.prog.cls("flee.pflee", "MPIManager")
        fn = c.find(name.split(".")[1])
        if fn is None:
            ctx.need(name, 0)
            continue
        for p in ctx.paths(W, fn, cache=False):
            if p.exit != "return":
                continue
            arr = None
            for e in p.events:
                if e.kind == "call" and e.name.split(".")[-1] in ("Allreduce", "allreduce"):
                    arr = e
            if arr is None:
                ctx.fail("M02.exchange", fn.qual, "no reduction over all processes on a path", fn.where(), witness(p))
                continue
            kw = {k: v for k, v in arr.args if not k.startswith("#")}
            pos = [v for k, v in arr.args if k.startswith("#")]
            opv = kw.get("op", pos[2] if len(pos) > 2 else None)
            if arr.name.endswith("allreduce"):
                opv = kw.get("op", pos[1] if len(pos) > 1 else None)
            ctx.check(opv is None or "SUM" in T.show(opv), "M02.exchange", fn.qual + "|op", "the processes' numbers are combined with %s, not added" % T.show(opv) if opv is not None else "", arr.where)
            par = fn.params[1]
            if arr.name.endswith("Allreduce"):
                send, recv = kw.get("sendbuf", pos[0] if pos else None), kw.get("recvbuf", pos[1] if len(pos) > 1 else None)
                if send is None or recv is None:
                    continue
                ctx.check(sends(p, send, par), "M02.exchange", fn.qual + "|send", "sends %s instead of what it is given" % T.show(send), arr.where)
                send, recv = spelt(p, send), spelt(p, recv)
                rb = recv.args[0] if recv.op in ("list", "tuple") and recv.args else recv
                ctx.check(p.value is not None and any(x is rb for x in T.walk(p.value)), "M02.exchange", fn.qual + "|receive", "returns %s instead of what it received" % T.show(p.value), arr.where)
                st, rt = [mpitype(x) for x in (send, recv)]
                ctx.check(st == rt, "M02.exchange", fn.qual + "|type", "sends %s but receives %s" % (st, rt), arr.where)
            else:
                ctx.check(p.value is not None and any(x is arr.result for x in T.walk(p.value)), "M02.exchange", fn.qual + "|receive", "returns %s instead of what it received" % T.show(p.value), arr.where)


def sends(p, t, par):
    """the buffer holds the numbers given"""
    t = spelt(p, t)
    if t.op in ("list", "tuple") and t.args:
        return sends(p, t.args[0], par)
    if t.op in ("call", "result") and t.args[0].split(".")[-1] in ("array", "asarray", "ascontiguousarray", "copy", "int", "float"):
        av = t.args[1] if t.op == "call" else t.args[1] + t.args[2]
        return any(sends(p, x, par) for x in av)
    if t.op == "copy":
        return sends(p, t.args[0], par)
    if t.op in ("call", "result") and t.args[0].split(".")[-1] in ("zeros", "empty", "ones") or t.op == "const":
        return False
    return any(x.op == "sym" and x.args[0] == par for x in T.walk(t))


def spelt(p, t):
    """the items of a list literal"""
    if t.op == "new" and t.args[0] == "list":
        return p.state.heap.get((t, "$items"), t)
    return t


def mpitype(t):
    if t.op in ("list", "tuple") and len(t.args) > 1:
        return T.show(t.args[-1])
    return None


def m02(ctx):
    update_numagents(ctx)
    aggregates(ctx)
    spawn_counts(ctx)
    placing(ctx)
    manager(ctx)


# ---- M03: who computes what ----------------------------------------------------
def per_location(ctx):
    """how many scores a location has"""
    fn = ctx.method(W, "Ecosystem.__init__")
    out = set()
    for p in ctx.paths(W, fn, cache=False, inline=lambda g: g.module is fn.module):
        for e in p.events:
            if e.kind == "write" and e.attr == "scores_per_location" and e.value.op == "const":
                out.add(e.value.args[0])
    return out.pop() if len(out) == 1 else None


def anyattr(name):
    return lambda t: t.op in ("attr", "classattr") and t.args[1] == name


def evolving(ctx):
    """the paths of a step, through the functions it is divided into"""
    fe = ctx.method(W, "Ecosystem.evolve")
    eco = ctx.worlds[W]["Ecosystem"]
    talks = lambda g: any(isinstance(c, ast.Attribute) and c.attr in COMM | {"CalcCommWorldTotal", "CalcCommWorldTotalSingle"} for c in ast.walk(g.node))
    helper = lambda g: g is fe or (g.cls is eco or g.cls is None and g.module is fe.module) and g.name != "__init__" and not talks(g)
    stop = {f.name for f in ctx.prog.all_funcs() if not helper(f)} | {"print"}
    stop -= {f.name for f in ctx.prog.all_funcs() if helper(f)}
    return ctx.paths(W, fe, stop=stop, max_alts=256, max_states=20000, inline=helper, cache=False)


def seeded(ctx):
    """decisions that all processes draw alike are drawn from the same seed"""
    draws = []
    for f in ctx.prog.all_funcs():
        if f.module.name not in MODS:
            continue
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr not in ("seed", "default_rng", "RandomState", "get_state"):
                if ast.unparse(c.func.value) in ("np.random", "numpy.random"):
                    if not (f.cls is not None and f.cls.name == "Ecosystem" and f.name == "__init__"):
                        draws.append((f, c))
    if not draws:
        ctx.ok("M03.seed", 1)
        return
    f, c = draws[0]
    ini = ctx.method(W, "Ecosystem.__init__")
    for p in ctx.paths(W, ini, cache=False):
        if p.exit in ("raise", "exit", "stop"):
            continue
        got = any(e.kind == "call" and e.name in ("numpy.random.seed", "numpy.random.set_state") for e in p.events)
        ctx.check(got, "M03.seed", ini.qual, "the processes do not agree on a seed for the decisions they draw alike (such as in %s)" % f.qual, ini.where())


def partition(ctx, spl):
    fe = ctx.method(W, "Ecosystem.evolve")
    fs = ctx.method(W, "Ecosystem.synchronize_locations")
    pe = [p for p in evolving(ctx) if p.exit not in ("raise", "exit", "stop")]
    pss = ctx.paths(W, fs, cache=False, inline=lambda g: g.module is fs.module and not (g.cls is not None and g.cls.name == "MPIManager"))
    big = ctx.tier == "thorough"
    upd = lambda e: e.kind == "call" and e.name.split(".")[-1] in ("updateAllScores", "updateLocationScore")
    groups = {}
    for p in pe:
        k = (tuple(e.key for e in p.events if upd(e) or e.kind == "loop" and R.mentions(e, upd)),)
        groups.setdefault(k, []).append(p)
    n = 0
    for size in range(1, 9 if big else 6):
        for nloc in list(range(1, 25 if big else 13)):
            locs = [R.Rec("location %d" % i, id=i) for i in range(nloc)]
            scores = R.Arr(("score", i, k) for i in range(nloc) for k in range(spl))
            who, slices, tables, got_all = {}, {}, set(), True
            for rank in range(size):
                base = [(anyattr("size"), size), (anyattr("rank"), rank), (own("locations"), locs), (anyattr("scores_per_location"), spl),
                        (lambda t: t.op == "classattr" and t.args[1] == "scores" or is_attr(t, "scores"), scores), (own("parallel_mode"), "loc-par"), (own("time"), 3)]
                b = bind(base)
                cand = []
                for k, g in groups.items():
                    w = R.ways(g, b)
                    if w:
                        cand.append(w[0])
                if len(cand) != 1:
                    ctx.notes.append("M03: %d ways to update the scores" % len(cand))
                    got_all = False
                    break
                p, bb, _ = cand[0]

                def which():
                    out = []
                    for e, q, bq in R.replay(p, bb, upd):
                        r = e.d.get("recv")
                        v = R.value(r, q, bq) if isinstance(r, T.Term) and e.name.split(".")[-1] == "updateAllScores" else next(
                            x for x in (R.value(v, q, bq) for _, v in e.args) if isinstance(x, R.Rec))
                        out.append(v.attrs["id"])
                    return out
                mine = attempt(ctx, "M03", "the division of locations in " + fe.qual, which)
                if mine is None:
                    got_all = False
                    break
                for i in mine:
                    who.setdefault(i, []).append(rank)
                at = "with %d locations and %d processes, process %d" % (nloc, size, rank)
                if pss and not R.ways(pss, bind(base)):
                    ctx.fail("M03.fails", fs.qual, "%s: none of its paths can be taken to the end (an assertion does not hold)" % at, fs.where())
                    return n
                w = one_way(ctx, "M03", fs, pss, bind(base), fs.qual)
                if w is None:
                    got_all = False
                    break
                r = attempt(ctx, "M03", fs.qual, lambda: gathered(*w))
                if r is None:
                    got_all = False
                    break
                local, target, sizes, offsets = r
                slices[rank] = local
                tables.add((tuple(sizes), tuple(offsets)))
                n += 1
                if len(sizes) > rank and len(offsets) > rank:
                    ctx.check(sizes[rank] == len(local), "M03.size", fs.qual, "%s passes on %d scores but announces %s" % (at, len(local), sizes[rank]), fs.where())
                    o = offsets[rank]
                    ctx.check(list(scores[o:o + len(local)]) == list(local), "M03.position", fs.qual, "%s: its scores are put at position %s, where they do not belong" % (at, o), fs.where())
                else:
                    ctx.fail("M03.size", fs.qual, "%s: no size or position for this process" % at, fs.where())
                has = {i for _, i, _ in local}
                ctx.check(has <= set(mine), "M03.passes", fe.qual, "%s passes on the scores of locations %s, but has updated %s" % (at, sorted(has), sorted(mine)), fe.where())
                ctx.check(target is scores, "M03.target", fs.qual, "%s does not receive into the array of all scores" % at, fs.where())
            if not got_all:
                return n
            at = "with %d locations and %d processes" % (nloc, size)
            for i in range(nloc):
                ctx.check(len(who.get(i, [])) == 1, "M03.once", fe.qual, "%s, location %d is updated by processes %s" % (at, i, who.get(i, [])), fe.where())
            every = sorted(x for r in slices.values() for x in r)
            ctx.check(every == sorted(scores), "M03.all", fs.qual, "%s, %d of %d scores are exchanged" % (at, len(every), len(scores)), fs.where())
            ctx.check(len(tables) == 1, "M03.layout", fs.qual, "%s, the processes disagree on who sends how much" % at, fs.where())
    return n


def gathered(p, b):
    """what one process passes on, where to, and the table of sizes and positions"""
    for e, q, bb in R.replay(p, b, lambda e: e.kind == "call" and e.name.split(".")[-1] in ("Allgatherv", "Allgather")):
        kw = {k: v for k, v in e.args}
        s, r = kw.get("sendbuf", kw.get("#0")), kw.get("recvbuf", kw.get("#1"))
        send = R.value(s, q, bb)
        if isinstance(send, list) and not isinstance(send, R.Arr) and send and isinstance(send[0], R.Arr):
            send = send[0]
        while r.op in ("list", "tuple") and r.args[0].op == "slicing" and all(x.op == "const" and x.args[0] is None for x in r.args[0].args[1:]):
            r = T.mk(r.op, r.args[0].args[0], *r.args[1:])
        recv = R.value(r, q, bb)
        if not isinstance(send, list) or not isinstance(recv, list):
            raise R.Unknown("what is exchanged")
        if len(recv) > 2 and isinstance(recv[1], list):
            return send, recv[0], recv[1], recv[2]
        if len(recv) > 1 and isinstance(recv[1], tuple):
            return send, recv[0], recv[1][0], recv[1][1]
        raise R.Unknown("the layout of the exchange")
    raise R.Unknown("no exchange of scores")


def time_zero(ctx):
    """the classic mode: every process updates every location"""
    fe = ctx.method(W, "Ecosystem.evolve")
    upd = lambda e: e.kind == "call" and e.name.split(".")[-1] in ("updateAllScores", "updateLocationScore")
    groups = {}
    for p in evolving(ctx):
        if p.exit not in ("raise", "exit", "stop"):
            groups.setdefault(tuple(e.key for e in p.events if upd(e) or e.kind == "loop" and R.mentions(e, upd)), []).append(p)
    for size in (1, 3):
        for rank in range(size):
            locs = [R.Rec("location %d" % i, id=i) for i in range(5)]
            b = bind([(anyattr("size"), size), (anyattr("rank"), rank), (own("locations"), locs), (own("parallel_mode"), "classic"), (own("time"), 3)])
            cand = [w[0] for w in (R.ways(g, b) for g in groups.values()) if w]
            if len(cand) != 1:
                continue
            p, bb, _ = cand[0]

            def which():
                out = []
                for e, q, bq in R.replay(p, bb, upd):
                    vs = [v for _, v in e.args] + ([e.d["recv"]] if isinstance(e.d.get("recv"), T.Term) else [])
                    out += [x.attrs["id"] for x in (R.value(v, q, bq) for v in vs) if isinstance(x, R.Rec)]
                return out
            got = attempt(ctx, "M03", "the classic mode of " + fe.qual, which)
            if got is not None:
                ctx.check(sorted(set(got)) == list(range(5)), "M03.classic", fe.qual, "process %d of %d updates locations %s where each keeps all scores itself" % (rank, size, got), fe.where())


def score_layout(ctx, spl):
    """each location's scores lie in its own part of the shared array"""
    scores = R.Arr(range(spl * 6))
    n = 0
    for i in range(6):
        tab = [(anyattr("scores_per_location"), spl), (lambda t: t.op == "classattr" and t.args[1] == "scores" or is_attr(t, "scores"), scores),
               (lambda t: is_attr(t, "id") and not is_attr(t.args[0], "startpoint"), i), (lambda t: is_attr(t, "id"), i + 1 if i < 5 else 0)]
        for k in range(spl):
            get = ctx.method(W, "Location.getScore")
            for p in ctx.paths(W, get):
                if p.exit == "return":
                    v = attempt(ctx, "M03", get.qual, lambda: R.value(p.value, p, bind(tab + [(is_sym("index"), k)])))
                    if v is not None:
                        n += 1
                        ctx.check(v == i * spl + k, "M03.read", get.qual, "score %d of location %d is read at position %s of the shared array" % (k, i, v), get.where())
            put = ctx.method(W, "Location.setScore")
            for p in ctx.paths(W, put):
                ws = [e for e in p.events if e.kind == "subwrite"]
                if p.exit == "return":
                    ctx.check(len(ws) == 1, "M03.write", put.qual, "%d scores are set" % len(ws), put.where())
                for e in ws:
                    v = attempt(ctx, "M03", put.qual, lambda: R.value(e.d["key"], p, bind(tab + [(is_sym("index"), k)])))
                    if v is not None:
                        n += 1
                        ctx.check(v == i * spl + k, "M03.write", put.qual, "score %d of location %d is set at position %s of the shared array" % (k, i, v), put.where())
                        ctx.check(is_sym("value")(e.value), "M03.write", put.qual + "|value", "sets %s" % T.show(e.value), put.where())
        for ref in ("Person.getBaseEndPointScore", "Link.getBaseEndPointScore"):
            f = ctx.worlds[W][ref.split(".")[0]].find("getBaseEndPointScore")
            if f is None:
                continue
            for p in ctx.paths(W, f):
                if p.exit == "return":
                    v = attempt(ctx, "M03", f.qual, lambda: R.value(p.value, p, bind(tab)))
                    if v is not None:
                        n += 1
                        ctx.check(v == i * spl + 1, "M03.read", f.qual, "score 1 of the end point with number %d is read at position %s" % (i, v), f.where())
    ctx.need("accesses to the shared scores", n, 10)
    # a new location gets the next number, the place in the list that goes with it, and room for its scores
    fn = ctx.method(W, "Ecosystem.addLocation")
    cls = ctx.worlds[W]["Location"]
    ini = cls.find("__init__")
    idp = None
    for p in ctx.paths(W, ini, cache=False):
        for e in p.events:
            if e.kind == "write" and e.attr == "id" and e.value.op == "sym":
                idp = e.value.args[0]
    ctx.check(idp is not None, "M03.number", ini.qual, "a location does not keep the number it is given", ini.where())
    ps = ctx.paths(W, fn, cache=False, inline=lambda g: g.module is fn.module and g.name != "__init__")
    for i in range(4):
        have = [R.Rec("location %d" % k, id=k) for k in range(i)]
        sc = R.Arr("score %d" % k for k in range(spl * max(i, 1)))
        b = bind([(own("cur_loc_id"), i), (own("locations"), have), (anyattr("scores_per_location"), spl), (lambda t: t.op == "classattr" and t.args[1] == "scores", sc),
                  (is_sym("movechance"), 0.5), (is_setting("init"), 0)])
        w = one_way(ctx, "M03", fn, ps, b, fn.qual)
        if w is None:
            continue
        p, b = w
        ids, nxt, room, kept = [], i, len(sc), 0
        for e in p.events:
            if e.kind == "call" and e.name.endswith("Location.__init__"):
                v = attempt(ctx, "M03", fn.qual, lambda: R.value(argof(e, idp or "cur_id", 1), p, b))
                ids.append(v)
            elif e.kind == "write" and e.attr == "cur_loc_id":
                nxt = attempt(ctx, "M03", fn.qual, lambda: R.value(e.value, p, b))
            elif e.kind == "write" and e.attr == "scores":
                r = attempt(ctx, "M03", fn.qual, lambda: R.value(e.value, p, b))
                room = len(r) if isinstance(r, list) else None
                if room is not None:
                    ctx.check(r[:len(sc)] == sc, "M03.room", fn.qual + "|moved", "adding location number %d: the scores there are do not keep their positions" % i, fn.where())
            elif e.kind == "mutate" and e.base.op == "attr" and e.base.args[1] == "locations":
                kept += 1
        at = "adding location number %d" % i
        if ids and ids[0] is not None:
            ctx.check(ids == [i], "M03.number", fn.qual, "%s: it is numbered %s" % (at, ids), fn.where())
        if nxt is not None:
            ctx.check(nxt == i + 1, "M03.number", fn.qual + "|next", "%s: the next one is numbered %s" % (at, nxt), fn.where())
        if room is not None:
            ctx.check(room == (i + 1) * spl, "M03.room", fn.qual, "%s: the shared array has %d scores instead of %d" % (at, room, (i + 1) * spl), fn.where())
        ctx.check(kept == 1, "M03.number", fn.qual + "|kept", "%s: it is entered %d times into the list of locations" % (at, kept), fn.where())
    # scores are only used by the numbers there are
    for f in ctx.prog.all_funcs():
        if f.module.name not in MODS:
            continue
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("getScore", "setScore") and c.args and isinstance(c.args[0], ast.Constant):
                k = c.args[0].value
                ctx.check(isinstance(k, int) and 0 <= k < spl, "M03.index", f.qual, "%s of score %r, but a location has %d scores: this is another location's" % (c.func.attr, k, spl), f.where(c))


def m03(ctx):
    spl = per_location(ctx)
    if not spl:
        ctx.need("number of scores per location", 0)
        return
    ctx.need("divisions of locations among processes", partition(ctx, spl), 50)
    time_zero(ctx)
    seeded(ctx)
    score_layout(ctx, spl)
    alike(ctx, "M03", ("draw", "change"), 20)


RULES = {"M01": m01, "M02": m02, "M03": m03}
EXPLAIN = {
    "M01": "each function's paths are compared: where two part on a value that may differ between processes, both must go on with the same exchanges, in the same turns, with buffers of the same layout",
    "M02": "the terms put into and taken out of the exchanges are folded over abstract counts (on one process / over all processes, of which places); mixing, losing or doubling a count shows",
    "M03": "the extracted bounds of the division and the table of the exchange are folded for every small number of places and processes; shared changes and draws must not part on what differs between processes",
}
