"""G01: what could make two runs with the same input and seed differ"""
import ast
from ..report import *          # noqa
from ..model import Func, Class, Module

OUT = ("flee.postprocessing", "flee.preprocessing", "flee._version")
CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time", "time.process_time_ns", "time.clock", "time.localtime", "time.gmtime",
         "time.ctime", "time.thread_time", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "os.times", "os.path.getmtime", "os.path.getctime",
         "os.path.getatime", "os.stat", "timeit.default_timer"}
PLACE = {"os.getpid", "os.getppid", "os.urandom", "socket.gethostname", "socket.getfqdn", "platform.node", "threading.get_ident", "threading.get_native_id", "os.getloadavg", "os.cpu_count",
         "multiprocessing.cpu_count", "gc.get_count", "sys.getrefcount", "tempfile.mktemp", "tempfile.mkdtemp"}
WHOLE = ("uuid.", "secrets.", "psutil.")
MAKERS = {"random.Random", "random.SystemRandom", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.SeedSequence"}
DISORDER = {"os.listdir", "os.scandir", "glob.glob", "glob.iglob", "os.walk"}
METHODS = {"iterdir", "rglob"}
COPIES = {"list", "tuple", "iter", "reversed", "map", "filter", "dict", "numpy.array", "numpy.asarray", "numpy.unique_", "collections.deque", "copy.copy", "copy.deepcopy", "collections.OrderedDict", "collections.Counter"}
CLEAN = {"sorted", "len", "sum", "any", "all", "bool", "isinstance", "numpy.sort", "numpy.unique", "math.fsum"}
MUTATORS = {"append", "extend", "insert", "add", "update", "appendleft", "setdefault", "remove", "discard", "pop", "clear", "sort", "reverse", "popitem", "put"}
LOGS = {"print", "warn", "warning", "info", "debug", "error", "exception", "critical", "log", "sleep", "flush", "pprint"}


class Scope:
    def __init__(self, module, node, name, func=None, cls=None):
        self.module, self.node, self.name, self.func, self.cls = module, node, name, func, cls
        self.nodes = []
        body = node.body if isinstance(node.body, list) else [node.body]
        self.body = body
        self.up = {}
        for st in body:
            if func is None and isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            self.take(st, None)
        if func is not None:
            for d in func.node.args.defaults + [x for x in func.node.args.kw_defaults if x is not None]:
                self.take(d, None)
        self.locals = {x.id for x in self.nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | (set(func.params + func.kwonly) if func else set())

    def take(self, n, parent):
        self.up[n] = parent
        self.nodes.append(n)
        for c in ast.iter_child_nodes(n):
            self.take(c, n)

    def above(self, n):
        n = self.up.get(n)
        while n is not None:
            yield n
            n = self.up.get(n)

    def where(self, n):
        return "%s:%d" % (self.module.rel, getattr(n, "lineno", 0))


class World:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.mods = [m for m in self.prog.modules.values() if not m.name.startswith(OUT)]
        self.alias = {m.name: self.aliases(m) for m in self.mods}
        self.scopes, self.by_func = [], {}
        for m in self.mods:
            self.scopes.append(Scope(m, m.tree, m.name + " (module)"))
            for f in list(m.functions.values()) + [f for c in m.classes.values() for f in c.methods.values()]:
                s = Scope(m, f.node, f.qual, f, f.cls)
                self.scopes.append(s)
                self.by_func[f] = s
                ctx.funcs.add(f.qual)
            for c in m.classes.values():
                body = [st for st in c.node.body if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef))]
                k = ast.Module(body=body, type_ignores=[])
                self.scopes.append(Scope(m, k, c.qual + " (class)", None, c))
        self.methods = {}
        for f in self.by_func:
            if f.cls is not None:
                self.methods.setdefault(f.name, []).append(f)
        self.vt, self.uo = {}, {}
        self.eff = None
        self.callees = {}

    def aliases(self, m):
        out = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    out[a.asname or a.name] = n.module + "." + a.name
        return out

    # ---- names
    def dotted(self, e, s):
        """full name of something imported or built in"""
        if isinstance(e, ast.Name):
            if e.id in s.locals and e.id not in self.alias[s.module.name]:
                return self.var_alias(e.id, s)
            if e.id in self.alias[s.module.name]:
                return self.alias[s.module.name][e.id]
            if e.id in s.module.functions or e.id in s.module.classes:
                return None
            g = s.module.globals.get(e.id)
            if isinstance(g, (ast.Attribute, ast.Name)) and not (isinstance(g, ast.Name) and g.id == e.id):
                return self.dotted(g, s)
            return None if g is not None else e.id
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value, s)
            return b + "." + e.attr if b else None
        return None

    def var_alias(self, name, s):
        """a local name for something imported (rng = np.random)"""
        if s.func and name in s.func.params + s.func.kwonly:
            return None
        vs = [n.value for n in s.nodes if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]
        st = [n for n in s.nodes if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
        if len(vs) == 1 and len(st) == 1 and isinstance(vs[0], (ast.Attribute, ast.Name)) and not (isinstance(vs[0], ast.Name) and vs[0].id == name):
            return self.dotted(vs[0], s)
        return None

    def called(self, c, s):
        """package functions a call may reach"""
        if c in self.callees:
            return self.callees[c]
        r = None
        try:
            r = self.prog.resolve_expr(s.module, c.func)
        except Exception:
            pass
        out = []
        if isinstance(c.func, ast.Name) and c.func.id in s.locals and s.func:
            r = None
        if isinstance(r, Func):
            out = [r]
        elif isinstance(r, Class):
            i = r.find("__init__")
            out = [i] if i else []
        elif isinstance(c.func, ast.Attribute) and r is None:
            if isinstance(c.func.value, ast.Name) and c.func.value.id in ("self", "cls") and s.cls is not None:
                f = s.cls.find(c.func.attr)
                out = [g for g in self.methods.get(c.func.attr, [])] if f is None or len(self.methods.get(c.func.attr, [])) > 1 else [f]
            elif self.dotted(c.func, s) is None:
                out = list(self.methods.get(c.func.attr, []))
        out = [f for f in out if f in self.by_func]
        self.callees[c] = out
        return out

    def params_of(self, c, f):
        """(parameter, argument) pairs of a call"""
        ps = f.params[1:] if f.cls is not None and not f.static and f.params else f.params
        if f.cls is not None and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == f.cls.name:
            ps = f.params
        out = []
        for i, a in enumerate(c.args):
            if isinstance(a, ast.Starred):
                break
            if i < len(ps):
                out.append((ps[i], a))
        for k in c.keywords:
            if k.arg in f.params + f.kwonly:
                out.append((k.arg, k.value))
        return out

    # ---- what is only shown
    def shown(self, n, s):
        """the value only reaches messages"""
        prev = n
        for a in s.above(n):
            if isinstance(a, ast.Call):
                nm = a.func.attr if isinstance(a.func, ast.Attribute) else getattr(a.func, "id", "")
                d = self.dotted(a.func, s) or ""
                if nm in LOGS or d.startswith(("logging.", "warnings.")) or d in ("sys.stderr.write", "sys.stdout.write", "sys.exit"):
                    return True
            if isinstance(a, ast.Raise) or isinstance(a, ast.Assert) and prev is a.msg:
                return True
            if isinstance(a, ast.stmt):
                return False
            prev = a
        return False

    def mild(self, body, s):
        """the statements only show something, wait or fail"""
        for st in body:
            if isinstance(st, (ast.Pass, ast.Raise)):
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                nm = st.value.func.attr if isinstance(st.value.func, ast.Attribute) else getattr(st.value.func, "id", "")
                if nm in LOGS or self.dotted(st.value.func, s) in ("sys.exit", "sys.stderr.write", "sys.stdout.write", "exit", "quit"):
                    continue
            if isinstance(st, (ast.If, ast.While)) and self.mild(st.body, s) and self.mild(st.orelse, s):
                continue
            return False
        return True

    # ---- values that differ between runs -------------------------------------
    def source(self, e, s):
        if isinstance(e, ast.Call):
            d = self.dotted(e.func, s)
            if d in CLOCK or d == "time.strftime" and len(e.args) < 2 or d == "time.asctime" and not e.args:
                return "the clock (%s)" % d
            if d in PLACE or d and d.startswith(WHOLE):
                return "the process or machine (%s)" % d
            if d in ("id", "hash"):
                return "object identity (%s)" % d
            if isinstance(e.func, ast.Attribute) and e.func.attr == "__hash__":
                return "object identity (__hash__)"
        return None

    def val(self, e, s):
        """why the value may differ between two runs, or None"""
        if e is None or isinstance(e, (ast.Constant, ast.Lambda)):
            return None
        r = self.source(e, s)
        if r:
            return r
        if isinstance(e, ast.Name):
            return self.vt.get(("var", s, e.id)) or (self.vt.get(("glob", s.module.name, e.id)) if e.id not in s.locals or s.func is None else None)
        if isinstance(e, ast.Attribute):
            return self.vt.get(("attr", e.attr)) or self.val(e.value, s)
        if isinstance(e, ast.Compare):
            rs = [self.val(x, s) for x in [e.left] + e.comparators]
            r = next((x for x in rs if x), None)
            if r and "identity" in r and all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops):
                return None
            return r
        if isinstance(e, (ast.Dict, ast.DictComp)):
            vs = e.values if isinstance(e, ast.Dict) else [e.value] + [g.iter for g in e.generators]
            ks = e.keys if isinstance(e, ast.Dict) else [e.key]
            return next((r for r in (self.val(v, s) for v in vs) if r), None) or next((r for r in (self.val(v, s) for v in ks if v is not None) if r and "identity" not in r), None)
        if isinstance(e, ast.Subscript):
            return self.val(e.value, s)
        if isinstance(e, ast.Call):
            fs = self.called(e, s)
            for f in fs:
                r = self.vt.get(("ret", f))
                if r:
                    return r
            d = self.dotted(e.func, s)
            if d in ("len", "isinstance", "type", "range") or fs:
                return None
            for a in list(e.args) + [k.value for k in e.keywords] + ([e.func.value] if isinstance(e.func, ast.Attribute) else []):
                r = self.val(a, s)
                if r:
                    return r
            return None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                r = self.val(c, s)
                if r:
                    return r
            elif isinstance(c, ast.comprehension):
                r = self.val(c.iter, s)
                if r:
                    return r
        return None

    def put(self, tab, key, why):
        if why and key not in tab:
            tab[key] = why
            return True
        return False

    def store(self, t, why, s, tab):
        """a tainted value is stored in t"""
        if isinstance(t, ast.Name):
            ch = self.put(tab, ("var", s, t.id), why)
            g = s.func is None or any(isinstance(n, ast.Global) and t.id in n.names for n in s.nodes)
            return (self.put(tab, ("glob", s.module.name, t.id), why) if g and s.cls is None else False) or ch
        if isinstance(t, ast.Attribute):
            return self.put(tab, ("attr", t.attr), why)
        if isinstance(t, (ast.Tuple, ast.List)):
            return any([self.store(x, why, s, tab) for x in t.elts])
        if isinstance(t, ast.Starred):
            return self.store(t.value, why, s, tab)
        if isinstance(t, ast.Subscript):
            return self.store(t.value, why, s, tab) if not isinstance(t.value, ast.Subscript) else self.store(t.value, why, s, tab)
        return False

    def settle_values(self):
        ch, n = True, 0
        while ch and n < 40:
            ch, n = False, n + 1
            for s in self.scopes:
                for x in s.nodes:
                    if isinstance(x, ast.Assign):
                        w = self.val(x.value, s)
                        if w:
                            ch |= any([self.store(t, w, s, self.vt) for t in x.targets])
                    elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and x.value is not None or isinstance(x, ast.NamedExpr):
                        w = self.val(x.value, s)
                        if w:
                            ch |= self.store(x.target, w, s, self.vt)
                    elif isinstance(x, (ast.For, ast.AsyncFor)):
                        w = self.val(x.iter, s)
                        if w:
                            ch |= self.store(x.target, w, s, self.vt)
                    elif isinstance(x, ast.comprehension):
                        w = self.val(x.iter, s)
                        if w:
                            ch |= self.store(x.target, w, s, self.vt)
                    elif isinstance(x, (ast.Return, ast.Yield)) and x.value is not None and s.func is not None:
                        w = self.val(x.value, s)
                        if w and not (s.func.name in ("__hash__", "__repr__", "__str__")):
                            ch |= self.put(self.vt, ("ret", s.func), w)
                    elif isinstance(x, ast.Call):
                        for f in self.called(x, s):
                            for p, a in self.params_of(x, f):
                                w = self.val(a, s)
                                if w:
                                    ch |= self.put(self.vt, ("var", self.by_func[f], p), w)
                        if isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and not self.called(x, s):
                            for a in x.args:
                                w = self.val(a, s)
                                if w and "identity" not in w and isinstance(x.func.value, (ast.Name, ast.Attribute)):
                                    ch |= self.store(x.func.value, w, s, self.vt)

    def sinks_values(self):
        ctx = self.ctx
        for s in self.scopes:
            for x in s.nodes:
                if isinstance(x, (ast.If, ast.While)):
                    w = self.val(x.test, s)
                    ok = not w or self.mild(x.body, s) and self.mild(x.orelse, s)
                    self.judge(ok, "G01.value", s, x, "a decision depends on %s: %s" % (w, ast.unparse(x.test)))
                elif isinstance(x, ast.IfExp):
                    w = self.val(x.test, s)
                    self.judge(not w or self.shown(x, s), "G01.value", s, x, "a choice depends on %s: %s" % (w, ast.unparse(x.test)))
                elif isinstance(x, ast.comprehension):
                    for t in x.ifs:
                        w = self.val(t, s)
                        self.judge(not w, "G01.value", s, t, "a selection depends on %s: %s" % (w, ast.unparse(t)))
                elif isinstance(x, ast.Subscript):
                    w = self.val(x.slice, s)
                    self.judge(not w or "identity" in w and not arith(x.slice) or self.shown(x, s), "G01.value", s, x, "what is looked up depends on %s: %s" % (w, ast.unparse(x)))
                elif isinstance(x, ast.Call):
                    d = self.dotted(x.func, s) or ""
                    if d in MAKERS:
                        ctx.fail("G01.generator", s.name, "random numbers come from a generator of its own (%s), which the user cannot seed" % ast.unparse(x)[:80], s.where(x))
                    if d.startswith(("random.", "numpy.random.")):
                        ctx.ok("G01.generator")
                        if d.endswith(".seed"):
                            a = [v for v in x.args] + [k.value for k in x.keywords]
                            ctx.check(bool(a) and not (isinstance(a[0], ast.Constant) and a[0].value is None), "G01.seed", s.name, "the generator is seeded from the system (%s)" % ast.unparse(x), s.where(x))
                        for a in list(x.args) + [k.value for k in x.keywords]:
                            w = self.val(a, s)
                            self.judge(not w, "G01.value", s, x, "random numbers depend on %s: %s" % (w, ast.unparse(x)[:80]))
                    if d == "range":
                        for a in x.args:
                            w = self.val(a, s)
                            self.judge(not w, "G01.value", s, x, "the number of repetitions depends on %s: %s" % (w, ast.unparse(x)))
                    for k in x.keywords:
                        if k.arg == "key":
                            w = None
                            if isinstance(k.value, ast.Name) and k.value.id in ("id", "hash"):
                                w = "object identity (%s)" % k.value.id
                            elif isinstance(k.value, ast.Lambda):
                                w = self.val(k.value.body, s)
                            elif self.prog.resolve_expr(s.module, k.value) in self.by_func:
                                w = self.vt.get(("ret", self.prog.resolve_expr(s.module, k.value)))
                            self.judge(not w, "G01.value", s, x, "an order depends on %s: %s" % (w, ast.unparse(x)[:80]))
                    if isinstance(x.func, ast.Attribute) and x.func.attr in ("recv", "Recv", "irecv", "Irecv", "probe", "Probe", "iprobe", "Iprobe") and "comm" in ast.unparse(x.func.value):
                        src = [k.value for k in x.keywords if k.arg == "source"]
                        pos = x.args[1:2] if x.func.attr in ("Recv", "Irecv", "recv", "irecv") else x.args[:1]
                        a = (src + pos)[:1]
                        ctx.check(bool(a) and "ANY" not in ast.unparse(a[0]), "G01.messages", s.name, "messages are taken in the order in which they happen to arrive: %s" % ast.unparse(x)[:80], s.where(x))
                    if d.split(".")[-1] in ("as_completed", "imap_unordered"):
                        ctx.fail("G01.messages", s.name, "results are taken in the order in which they happen to be ready: %s" % ast.unparse(x)[:80], s.where(x))

    def judge(self, ok, rule, s, n, msg):
        if ok:
            self.ctx.ok(rule)
        else:
            self.ctx.fail(rule, "%s|%s" % (s.name, short(n)), msg, s.where(n))

    # ---- orders that differ between runs ---------------------------------------
    def plainnum(self, e, s, depth=0):
        """numbers (and tuples of them) are kept in the same order in every run"""
        if depth > 6:
            return False
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, float, bool))
        if isinstance(e, (ast.Tuple,)):
            return all(self.plainnum(x, s, depth + 1) for x in e.elts)
        if isinstance(e, ast.BinOp):
            return not isinstance(e.op, (ast.Mod,)) and self.plainnum(e.left, s, depth + 1) and self.plainnum(e.right, s, depth + 1) or isinstance(e.op, ast.Mod) and self.plainnum(e.left, s, depth + 1)
        if isinstance(e, ast.UnaryOp):
            return self.plainnum(e.operand, s, depth + 1)
        if isinstance(e, ast.Call):
            return self.dotted(e.func, s) in ("int", "len", "float", "round", "abs", "ord", "sum") or isinstance(e.func, ast.Attribute) and e.func.attr in ("index", "count", "_convert_location_name_to_index", "getRankN_")
        if isinstance(e, ast.Attribute):
            return e.attr in ("rank", "size", "time", "numAgents", "capacity", "pop")
        if isinstance(e, ast.Name):
            if s.func and e.id in s.func.params + s.func.kwonly:
                ann = next((a.annotation for a in s.func.node.args.args + s.func.node.args.kwonlyargs if a.arg == e.id), None)
                return isinstance(ann, ast.Name) and ann.id in ("int", "float", "bool")
            got = False
            for n in s.nodes:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    if not self.plainnum(n.value, s, depth + 1):
                        return False
                    got = True
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                    if not self.plainnum(n.value, s, depth + 1):
                        return False
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for t, it in pairs(n.target, n.iter):
                        if isinstance(t, ast.Name) and t.id == e.id:
                            if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "$index") or isinstance(it, ast.Name) and it.id in ("range",)):
                                return False
                            got = True
            return got
        return False

    def numbers(self, e, s):
        """an iterable of plain numbers"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("range",):
            return True
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return all(self.plainnum(x, s) for x in e.elts)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.plainnum(e.elt, s)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "set", "frozenset", "sorted") and e.args:
            return self.numbers(e.args[0], s)
        return False

    def filled(self, name, s, attr=False):
        """what is put into an initially empty set"""
        out = []
        for sc in ([s] if not attr else self.scopes):
            for n in sc.nodes:
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "update", "union"):
                    b = n.func.value
                    if (isinstance(b, ast.Attribute) and b.attr == name if attr else isinstance(b, ast.Name) and b.id == name):
                        out.append((n.func.attr, n.args, sc))
                elif isinstance(n, ast.AugAssign):
                    b = n.target
                    if (isinstance(b, ast.Attribute) and b.attr == name if attr else isinstance(b, ast.Name) and b.id == name):
                        out.append(("update", [n.value], sc))
        return out

    def bag(self, e, s):
        """a fresh set: None if it is kept in the same order in every run, else why not"""
        if isinstance(e, ast.Set):
            return None if all(self.plainnum(x, s) for x in e.elts) else "a set"
        if isinstance(e, ast.SetComp):
            return None if self.plainnum(e.elt, s) else "a set"
        if isinstance(e, ast.Call) and self.dotted(e.func, s) in ("set", "frozenset"):
            if e.args:
                return None if self.numbers(e.args[0], s) else "a set"
            p = s.up.get(e)
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], (ast.Name, ast.Attribute)):
                t = p.targets[0]
                fs = self.filled(t.id if isinstance(t, ast.Name) else t.attr, s, isinstance(t, ast.Attribute))
                if fs and all(all(self.plainnum(a, sc) if k == "add" else self.numbers(a, sc) for a in args) for k, args, sc in fs):
                    return None
            return "a set"
        return None

    def un(self, e, s):
        """(kind, why) when the order of e may differ between two runs"""
        if isinstance(e, (ast.Set, ast.SetComp)):
            w = self.bag(e, s)
            return ("set", w) if w else None
        if isinstance(e, ast.Name):
            k = self.uo.get(("var", s, e.id)) or (self.uo.get(("glob", s.module.name, e.id)) if e.id not in s.locals or s.func is None else None)
            return None if k and self.put_in_order(e, s) else k
        if isinstance(e, ast.Attribute):
            k = self.uo.get(("attr", e.attr))
            return None if k and self.put_in_order(e, s) else k
        if isinstance(e, ast.Starred):
            return self.un(e.value, s)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            k = self.un(e.generators[0].iter, s)
            return ("list", k[1]) if k else None
        if isinstance(e, ast.DictComp):
            k = self.un(e.generators[0].iter, s)
            return ("dict", k[1]) if k else None
        if isinstance(e, (ast.List, ast.Tuple)):
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    k = self.un(x.value, s)
                    if k:
                        return ("list", k[1])
            return None
        if isinstance(e, ast.IfExp):
            return self.un(e.body, s) or self.un(e.orelse, s)
        if isinstance(e, ast.BoolOp):
            return next((k for k in (self.un(v, s) for v in e.values) if k), None)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub, ast.Add, ast.Mult)):
            a, b = self.un(e.left, s), self.un(e.right, s)
            return a or b
        if isinstance(e, ast.Subscript):
            k = self.un(e.value, s)
            return k if k and isinstance(e.slice, ast.Slice) and k[0] == "list" else None
        if isinstance(e, ast.NamedExpr):
            return self.un(e.value, s)
        if isinstance(e, ast.Call):
            d = self.dotted(e.func, s)
            if d in ("set", "frozenset"):
                w = self.bag(e, s)
                return ("set", w) if w else None
            if d in DISORDER:
                return ("list", "a directory (%s)" % d)
            if d in CLEAN:
                return None
            for f in self.called(e, s):
                k = self.uo.get(("ret", f))
                if k:
                    return k
            if isinstance(e.func, ast.Attribute):
                m = e.func.attr
                if m in METHODS or m == "glob" and d is None and not self.called(e, s):
                    return ("list", "a directory (%s)" % m)
                k = self.un(e.func.value, s)
                if k and m in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                    return k
                if k and k[0] == "dict" and m in ("keys", "values", "items"):
                    return ("list", k[1])
                if d in ("dict.fromkeys", "collections.OrderedDict.fromkeys") and e.args and self.un(e.args[0], s):
                    return ("dict", self.un(e.args[0], s)[1])
            if d in COPIES and e.args:
                for a in e.args[-1:] if d in ("map", "filter") else e.args[:1]:
                    k = self.un(a, s)
                    if k:
                        return (k[0] if d in ("copy.copy", "copy.deepcopy") else "dict" if d in ("dict", "collections.Counter") else "list", k[1])
        return None

    def put_in_order(self, e, s):
        """the list is sorted before this use"""
        txt = ast.unparse(e)
        for n in s.nodes:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and ast.unparse(n.func.value) == txt and n.lineno <= e.lineno:
                return True
        return False

    def settle_orders(self):
        ch, n = True, 0
        while ch and n < 40:
            ch, n = False, n + 1
            for s in self.scopes:
                for x in s.nodes:
                    if isinstance(x, ast.Assign):
                        w = self.un(x.value, s)
                        if w:
                            ch |= any([self.store(t, w, s, self.uo) for t in x.targets if isinstance(t, (ast.Name, ast.Attribute))])
                    elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and x.value is not None:
                        w = self.un(x.value, s)
                        if w and isinstance(x.target, (ast.Name, ast.Attribute)):
                            ch |= self.store(x.target, w, s, self.uo)
                    elif isinstance(x, ast.Return) and x.value is not None and s.func is not None:
                        w = self.un(x.value, s)
                        if w:
                            ch |= self.put(self.uo, ("ret", s.func), w)
                    elif isinstance(x, ast.Call):
                        for f in self.called(x, s):
                            for p, a in self.params_of(x, f):
                                w = self.un(a, s)
                                if w:
                                    ch |= self.put(self.uo, ("var", self.by_func[f], p), w)
                        if isinstance(x.func, ast.Attribute) and x.func.attr in ("extend", "update") and x.args and not self.called(x, s):
                            w = self.un(x.args[0], s)
                            if w and isinstance(x.func.value, (ast.Name, ast.Attribute)):
                                ch |= self.store(x.func.value, ("list" if x.func.attr == "extend" else "dict", w[1]), s, self.uo)
                    if isinstance(x, ast.For):
                        w = self.un(x.iter, s)
                        if w:
                            for b in [y for st in x.body for y in ast.walk(st)]:
                                if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr in ("append", "extend", "insert") and not self.called(b, s) and isinstance(b.func.value, (ast.Name, ast.Attribute)):
                                    ch |= self.store(b.func.value, ("list", w[1]), s, self.uo)
                                elif isinstance(b, ast.AugAssign) and isinstance(b.value, (ast.List, ast.ListComp, ast.Tuple)):
                                    ch |= self.store(b.target, ("list", w[1]), s, self.uo) if isinstance(b.target, (ast.Name, ast.Attribute)) else False
                                elif isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].value, (ast.Name, ast.Attribute)):
                                    if not self.plainnum(b.targets[0].slice, s):
                                        ch |= self.store(b.targets[0].value, ("dict", w[1]), s, self.uo)
                                elif isinstance(b, (ast.Yield, ast.YieldFrom)) and s.func is not None:
                                    ch |= self.put(self.uo, ("ret", s.func), ("list", w[1]))

    def effectful(self, f):
        """calls to f do not commute"""
        if self.eff is None:
            self.eff = set()
            ch = True
            while ch:
                ch = False
                for g, s in self.by_func.items():
                    if g not in self.eff and self.acts(s):
                        self.eff.add(g)
                        ch = True
        return f in self.eff

    def acts(self, s):
        fresh = {n.targets[0].id for n in s.nodes if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.List, ast.Dict, ast.ListComp, ast.DictComp, ast.Set, ast.SetComp, ast.Constant, ast.Call))}
        for n in s.nodes:
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = root(n)
                if not (r in fresh):
                    return True
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                return True
            if isinstance(n, ast.Call):
                d = self.dotted(n.func, s) or ""
                if d.startswith(("random.", "numpy.random.")):
                    return True
                fs = self.called(n, s)
                if any(f in self.eff for f in fs):
                    return True
                if not fs and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS | {"write", "writerow"} and root(n.func.value) not in fresh:
                    return True
        return False

    def body_keeps_order_out(self, lp, s, why):
        """None, or the statement through which the order of the loop matters"""
        mine = {x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)}
        inside = [y for st in lp.body for y in ast.walk(st)]
        for y in inside:
            if isinstance(y, (ast.Assign, ast.For)) or isinstance(y, ast.comprehension):
                ts = y.targets if isinstance(y, ast.Assign) else [y.target]
                mine |= {x.id for t in ts for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        end = max(getattr(y, "end_lineno", 0) or 0 for y in lp.body)
        loaded_after = {n.id for n in s.nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.lineno > end}
        reset = {t.id for y in inside if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Name)}
        counters = {y.target.id for y in inside if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name)} - reset
        grown = {root(t) for y in inside if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Subscript)} | {root(y.func.value) for y in inside if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in MUTATORS}
        for y in inside:
            if self.shown(y, s):
                continue
            if isinstance(y, ast.Assign) and not all(isinstance(t, ast.Name) for t in y.targets):
                for z in ast.walk(y.value):
                    if isinstance(z, ast.Name) and z.id in counters or isinstance(z, ast.Call) and self.dotted(z.func, s) == "len" and z.args and isinstance(z.args[0], ast.Name) and z.args[0].id in grown:
                        return y
            if isinstance(y, ast.Assign):
                for t in y.targets:
                    if isinstance(t, ast.Name) and t.id in loaded_after and not constant(y.value) and not self.reset_after(t.id, end, s):
                        return y
                    if isinstance(t, ast.Attribute) and root(t) not in mine and not constant(y.value):
                        return y
            elif isinstance(y, ast.AugAssign):
                if isinstance(y.value, (ast.JoinedStr,)) or isinstance(y.value, ast.Constant) and isinstance(y.value.value, str) or isinstance(y.value, ast.Call) and isinstance(y.value.func, ast.Attribute) and y.value.func.attr in ("format", "join"):
                    return y
            elif isinstance(y, ast.Return):
                if y.value is not None and not constant(y.value):
                    return y
            elif isinstance(y, ast.Break):
                if any(isinstance(t, ast.Name) and t.id in loaded_after for t in ast.walk(lp.target)):
                    return y
            elif isinstance(y, ast.Call):
                d = self.dotted(y.func, s) or ""
                if d.startswith(("random.", "numpy.random.")):
                    return y
                fs = self.called(y, s)
                if any(self.effectful(f) for f in fs):
                    return y
                if not fs and isinstance(y.func, ast.Attribute) and y.func.attr in ("write", "writelines", "writerow", "writerows", "send", "bcast", "pop", "popleft") and not (y.func.attr == "pop" and len(y.args) == 2):
                    return y
        return None

    def reset_after(self, name, end, s):
        """the name gets a new value before it is used after the loop"""
        uses = sorted((n.lineno, n.col_offset, isinstance(n.ctx, ast.Load)) for n in s.nodes if isinstance(n, ast.Name) and n.id == name and n.lineno > end)
        stores = [n for n in s.nodes if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == name for t in ast.walk(n.target))]
        return bool(uses) and (not uses[0][2] or any(getattr(n, "lineno", end + 1) > end for n in stores))

    def sinks_orders(self):
        ctx = self.ctx
        for s in self.scopes:
            for x in s.nodes:
                if isinstance(x, ast.For):
                    it = x.iter
                    k = self.un(it, s)
                    if k:
                        y = self.body_keeps_order_out(x, s, k[1])
                        self.judge(y is None, "G01.order", s, x, "what happens for %s depends on the order of %s: %s" % (ast.unparse(it)[:60], k[1], y is not None and ast.unparse(y)[:80]))
                    else:
                        ctx.ok("G01.order")
                elif isinstance(x, ast.comprehension):
                    ctx.ok("G01.order")
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
                    k = self.un(x.value, s)
                    if k and k[0] == "list" and not self.shown(x, s):
                        ctx.fail("G01.order", "%s|%s" % (s.name, short(x)), "%s depends on the order of %s" % (ast.unparse(x)[:60], k[1]), s.where(x))
                elif isinstance(x, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in x.targets):
                    k = self.un(x.value, s)
                    if k:
                        ctx.fail("G01.order", "%s|%s" % (s.name, short(x)), "%s depends on the order of %s" % (ast.unparse(x)[:60], k[1]), s.where(x))
                elif isinstance(x, ast.Call) and not self.shown(x, s):
                    d = self.dotted(x.func, s) or ""
                    args = list(x.args) + [v.value for v in x.keywords if v.arg != "key"]
                    ks = [k for k in (self.un(a, s) for a in args) if k]
                    why = None
                    if d.startswith(("random.", "numpy.random.")) and ks:
                        why = ks[0][1]
                    elif d in ("next", "enumerate", "zip", "itertools.cycle", "itertools.accumulate", "functools.reduce", "itertools.islice", "numpy.cumsum") and ks and not self.cleaned(x, s):
                        why = ks[0][1]
                    elif d in ("min", "max") and ks and any(v.arg == "key" for v in x.keywords):
                        why = ks[0][1]
                    elif isinstance(x.func, ast.Attribute) and x.func.attr == "join" and ks and not d.startswith("os.path"):
                        why = ks[0][1]
                    elif isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "popitem", "popleft"):
                        k = self.un(x.func.value, s)
                        if k and (k[0] != "dict" or x.func.attr == "popitem") and not (k[0] == "dict" and x.args):
                            why = k[1]
                    elif isinstance(x.func, ast.Attribute) and x.func.attr in ("write", "writelines", "writerow", "writerows", "dump") and ks:
                        why = ks[0][1]
                    elif any(isinstance(a, ast.Starred) and self.un(a.value, s) for a in x.args):
                        why = next(self.un(a.value, s)[1] for a in x.args if isinstance(a, ast.Starred) and self.un(a.value, s))
                    if why:
                        ctx.fail("G01.order", "%s|%s" % (s.name, short(x)), "%s depends on the order of %s" % (ast.unparse(x)[:80], why), s.where(x))
                    else:
                        ctx.ok("G01.order")

    def cleaned(self, x, s):
        """what becomes of it does not depend on the order"""
        p = s.up.get(x)
        return isinstance(p, ast.Call) and self.dotted(p.func, s) in CLEAN | {"set", "frozenset"}


def pairs(t, it):
    """targets of an iteration with what each runs over"""
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and isinstance(t, ast.Tuple) and len(t.elts) == 2:
        yield t.elts[0], ast.Call(func=ast.Name(id="$index", ctx=ast.Load()), args=[], keywords=[])
        yield from pairs(t.elts[1], it.args[0])
    elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
        for a, b in zip(t.elts, it.args):
            yield from pairs(a, b)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield x, ast.Constant(value=None)
    else:
        yield t, it


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def constant(e):
    return isinstance(e, ast.Constant) or isinstance(e, (ast.List, ast.Dict, ast.Tuple)) and not any(True for _ in ast.iter_child_nodes(e) if isinstance(_, ast.expr)) or isinstance(e, ast.UnaryOp) and constant(e.operand)


def arith(e):
    return any(isinstance(x, ast.BinOp) for x in ast.walk(e))


def short(n):
    return ast.unparse(n.iter if isinstance(n, ast.For) else n.test if isinstance(n, (ast.If, ast.While, ast.IfExp)) else n)[:60]


def g01(ctx):
    w = World(ctx)
    w.settle_values()
    w.sinks_values()
    w.settle_orders()
    w.sinks_orders()
    for f in w.by_func:
        ctx.paths_seen += 1
    ctx.need("functions looked at", len(w.by_func), 60)
    ctx.need("draws of random numbers", ctx.obl.get("G01.generator", 0), 5)


RULES = {"G01": g01}
EXPLAIN = {
    "G01": "every module of the simulation and its drivers: sources of values (clock, process, identity) are followed through variables, attributes, parameters and results to decisions, look-ups, draws and repetitions; "
           "sources of order (sets of anything but numbers, directory listings) are followed to uses that keep the order; random numbers come from the two standard generators only",
}
