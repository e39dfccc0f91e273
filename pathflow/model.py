"""Program model: modules, classes, functions, imports, inheritance."""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor vanished or the source could not be analysed (error exit)."""


class Func:
    def __init__(self, node, module, cls=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = node.name
        self.qual = module.name + "." + ((cls.name + ".") if cls else "") + node.name
        decs = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", "") for d in node.decorator_list
                if isinstance(d, (ast.Name, ast.Attribute))]
        self.static = "staticmethod" in decs
        self.classm = "classmethod" in decs
        self.prop = "property" in decs
        a = node.args
        self.params = [x.arg for x in (a.posonlyargs + a.args)]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d

    def __repr__(self):
        return "<Func %s>" % self.qual

    def where(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return "%s:%d" % (self.module.rel, n.lineno)


class Class:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.qual = module.name + "." + node.name
        self.methods = {}
        self.attrs = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = Func(st, module, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value
        self.bases = []          # resolved Class objects
        self.base_names = []     # unresolved text

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo = list(c.bases) + todo
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, owner, name):
        """super() lookup: first definition after `owner` in the MRO."""
        m = self.mro()
        if owner not in m:
            return None
        for c in m[m.index(owner) + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def class_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def __repr__(self):
        return "<Class %s>" % self.qual


CHANGING = ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "update", "discard", "setdefault", "popitem")
PLAIN = {"len", "range", "print", "str", "int", "float", "min", "max", "abs", "sum", "enumerate", "zip", "isinstance", "bool", "round", "list", "dict", "tuple", "open"}


def counted(fn):
    """a while loop that only counts a number up to a fixed end is the for loop over that range"""
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            for i, w in enumerate(b if isinstance(b, list) else ()):
                if isinstance(w, ast.While) and counts(fn, w):
                    v = w.test.left.id
                    load = lambda: ast.copy_location(ast.Name(v, ast.Load()), w.test)
                    it = ast.copy_location(ast.Call(ast.copy_location(ast.Name("range", ast.Load()), w.test), [load(), w.test.comparators[0]], []), w.test)
                    b[i] = ast.copy_location(ast.For(ast.copy_location(ast.Name(v, ast.Store()), w.test), it, w.body[:-1], [], None), w)


def counts(fn, w):
    t = w.test
    if w.orelse or len(w.body) < 2 or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)):
        return False
    v, end, last = t.left.id, t.comparators[0], w.body[-1]
    one = lambda x: isinstance(x, ast.Constant) and type(x.value) is int and x.value == 1
    if isinstance(last, ast.AugAssign):
        if not (isinstance(last.target, ast.Name) and last.target.id == v and isinstance(last.op, ast.Add) and one(last.value)):
            return False
    elif isinstance(last, ast.Assign):
        if not (len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == v and isinstance(last.value, ast.BinOp) and isinstance(
                last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == v and one(last.value.right)):
            return False
    else:
        return False
    inside = [x for s in w.body[:-1] for x in ast.walk(s)]
    if any(isinstance(x, ast.Name) and x.id == v and not isinstance(x.ctx, ast.Load) for x in inside):
        return False

    def goes_on(ss):
        for s in ss:
            if isinstance(s, (ast.Continue, ast.FunctionDef, ast.Lambda)):
                return True
            if isinstance(s, (ast.For, ast.While)):
                if goes_on(s.orelse):
                    return True
                continue
            if goes_on([c for c in ast.iter_child_nodes(s) if isinstance(c, (ast.stmt, ast.ExceptHandler))]):
                return True
        return False
    if goes_on(w.body):
        return False
    mine = {id(x) for x in ast.walk(w)}
    if any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in mine for x in ast.walk(fn)):
        return False
    # the end stays where it is
    if isinstance(end, ast.Constant):
        return True
    stored = {x.id for x in inside if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
    if isinstance(end, ast.Name):
        return end.id not in stored
    if isinstance(end, ast.Call) and isinstance(end.func, ast.Name) and end.func.id == "len" and len(end.args) == 1 and not end.keywords:
        x = end.args[0]
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name) or x.id in stored:
            return False
        whole = ast.unparse(end.args[0])
        tail = whole.split(".")[-1]
        for y in inside:
            if isinstance(y, ast.Attribute) and y.attr == tail and not isinstance(y.ctx, ast.Load):
                return False
            if isinstance(y, ast.Call):
                f = y.func
                if isinstance(f, ast.Attribute) and f.attr in CHANGING and ast.unparse(f.value) != whole and not ast.unparse(f.value).endswith(tail) and isinstance(f.value, ast.Name):
                    continue
                if isinstance(f, ast.Attribute) and f.attr in ("get", "keys", "values", "items", "format", "write", "split", "join", "startswith", "endswith", "strip", "lower"):
                    continue
                if isinstance(f, ast.Name) and f.id in PLAIN:
                    continue
                return False
            if isinstance(y, ast.Delete) or isinstance(y, ast.AugAssign) and ast.unparse(y.target).endswith(tail):
                return False
        return True
    return False


def fused(fn):
    """a list put together only for the loop that follows is the loop over what it was put together from"""
    pairs = []
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            for s, w in zip(b, b[1:]) if isinstance(b, list) else ():
                if (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1
                        and isinstance(w, ast.For) and not w.orelse and isinstance(w.iter, ast.Name) and w.iter.id == s.targets[0].id):
                    pairs.append((b, s, w))
    if not pairs:
        return
    of = lambda nodes: {id(y) for x in nodes for y in ast.walk(x)}
    mine = of([s for _, s, _ in pairs] + [w.iter for _, _, w in pairs])        # the lists and where they are walked
    scopes = of(y for y in ast.walk(fn) if isinstance(y, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)))
    names = [y for y in ast.walk(fn) if isinstance(y, ast.Name)]
    for b, s, w in pairs:
        g, x = s.value.generators[0], s.targets[0].id
        own = {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
        if any(y.id == x and id(y) not in mine for y in names):
            continue
        loops = of(v for _, t, v in pairs if isinstance(v.target, ast.Name))
        if any(y.id in own and id(y) not in mine and id(y) not in scopes and not (id(y) in loops and isinstance(w.target, ast.Name) and y.id == w.target.id) for y in names):
            continue
        same = isinstance(w.target, ast.Name) and isinstance(s.value.elt, ast.Name) and w.target.id == s.value.elt.id
        if isinstance(w.target, ast.Name) and w.target.id in own and not same:
            continue
        at = lambda y: ast.copy_location(y, w)
        body = w.body if same else [at(ast.Assign([w.target], s.value.elt))] + w.body
        if g.ifs:
            body = [at(ast.If(g.ifs[0] if len(g.ifs) == 1 else at(ast.BoolOp(ast.And(), g.ifs)), body, []))]
        i = next(i for i, y in enumerate(b) if y is s)
        b[i:i + 2] = [at(ast.For(g.target, at(ast.Call(at(ast.Name("list", ast.Load())), [g.iter], [])), body, [], None))]


class Module:
    def __init__(self, name, path, rel, text):
        self.name, self.path, self.rel, self.text = name, path, rel, text
        try:
            self.tree = ast.parse(text, filename=path)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                counted(n)
                fused(n)
        self.functions, self.classes, self.globals = {}, {}, {}
        self.imports = {}      # local alias -> ("mod", modname) | ("obj", modname, attr)
        self.is_pkg = path.endswith("__init__.py")
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # a later unconditional definition wins (Python semantics)
                self.functions[st.name] = Func(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st, self)
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.imports[al.asname] = ("mod", al.name)
                    else:
                        self.imports[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for al in st.names:
                    if al.name == "*":
                        self.imports.setdefault("*", []).append(base)
                    else:
                        self.imports[al.asname or al.name] = ("obj", base, al.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.globals[n.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                for blk in ("body", "orelse", "finalbody"):
                    self._scan(getattr(st, blk, []) or [])
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                self._scan(st.body)


class Program:
    def __init__(self, root, files):
        """files: list of paths relative to root; package modules get dotted names."""
        self.root = root
        self.modules = {}
        for rel in files:
            path = os.path.join(root, rel)
            if not os.path.isfile(path):
                raise AnalysisBroken("source file vanished: %s" % rel)
            name = rel[:-3].replace("/", ".").replace("-", "_")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            with open(path, encoding="utf-8") as f:
                self.modules[name] = Module(name, path, rel, f.read())
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, Class):
                        c.bases.append(r)
                    else:
                        c.base_names.append(ast.unparse(b))

    # ---- name resolution -------------------------------------------------
    def resolve_name(self, module, name, _seen=None):
        """-> Func | Class | Module | ("ext", dotted) | ("global", module, name) | None"""
        _seen = _seen or set()
        key = (module.name, name)
        if key in _seen:
            return None
        _seen.add(key)
        if name in module.functions:
            return module.functions[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports and name != "*":
            imp = module.imports[name]
            if imp[0] == "mod":
                return self.modules.get(imp[1]) or ("ext", imp[1])
            _, base, attr = imp
            sub = self.modules.get(base + "." + attr)
            if sub is not None:
                return sub
            if base in self.modules:
                r = self.resolve_name(self.modules[base], attr, _seen)
                return r
            return ("ext", base + "." + attr)
        if name in module.globals:
            return ("global", module, name)
        for base in module.imports.get("*", []):
            if base in self.modules:
                r = self.resolve_name(self.modules[base], name, _seen)
                if r is not None:
                    return r
            else:
                return ("ext?", base + "." + name)
        return None

    def member(self, obj, attr):
        """attribute of a module/class-like resolution"""
        if isinstance(obj, Module):
            sub = self.modules.get(obj.name + "." + attr)
            r = self.resolve_name(obj, attr)
            return r if r is not None else sub
        if isinstance(obj, tuple) and obj and obj[0] == "ext":
            return ("ext", obj[1] + "." + attr)
        if isinstance(obj, Class):
            m = obj.find(attr)
            if m is not None:
                return m
            ca = obj.class_attr(attr)
            if ca is not None:
                return ("classattr", ca[0], attr)
        return None

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.resolve_name(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if b is None:
                return None
            return self.member(b, node.attr)
        return None

    # ---- anchors ----------------------------------------------------------
    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken("module vanished: %s" % name)
        return self.modules[name]

    def cls(self, mod, name):
        m = self.module(mod)
        if name not in m.classes:
            r = self.resolve_name(m, name)
            if isinstance(r, Class):
                return r
            raise AnalysisBroken("class vanished: %s.%s" % (mod, name))
        return m.classes[name]

    def func(self, mod, name):
        """function 'f' or method 'C.f' (found through inheritance/imports)"""
        m = self.module(mod)
        if "." in name:
            c, f = name.split(".", 1)
            r = self.cls(mod, c).find(f)
        else:
            r = self.resolve_name(m, name)
        if not isinstance(r, Func):
            raise AnalysisBroken("function vanished: %s.%s" % (mod, name))
        return r

    def all_funcs(self, mods=None):
        for m in self.modules.values():
            if mods is not None and m.name not in mods:
                continue
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()


PACKAGE = [
    "flee/__init__.py", "flee/flee.py", "flee/pflee.py", "flee/pmicro_flee.py", "flee/Diagnostics.py",
    "flee/InputGeography.py", "flee/micro_InputGeography.py", "flee/SimulationSettings.py",
    "flee/coupling.py", "flee/crawling.py", "flee/moving.py", "flee/scoring.py", "flee/spawning.py",
    "flee/datamanager/__init__.py", "flee/datamanager/DataTable.py",
    "flee/datamanager/handle_refugee_data.py", "flee/datamanager/read_period.py",
    "flee/datamanager/calc_date_difference.py",
]


def discover(root):
    """package files from the tree itself (so that new helper modules are seen)"""
    out = set(PACKAGE)
    for base in ("flee",):
        for d, dirs, files in os.walk(os.path.join(root, base)):
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for f in files:
                if f.endswith(".py"):
                    out.add(os.path.relpath(os.path.join(d, f), root))
    for base in ("runscripts", "multiscale"):
        p = os.path.join(root, base)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith(".py"):
                    out.add(base + "/" + f)
    return sorted(out)


def load(root=None):
    root = root or os.environ.get("PATHFLOW_REPO", "/repo")
    return Program(root, discover(root))
