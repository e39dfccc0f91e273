"""Q01: names, attributes, functions and argument lists exist where they are used"""
import ast
import builtins
import collections
import glob
import importlib
import inspect
import os
import symtable
import sys
from ..report import *          # noqa
from ..model import Func, Class, Module
from .determinism import Scope

OUT = ("flee.postprocessing", "flee.preprocessing", "flee._version", "multiscale.compare", "multiscale.precipitation", "multiscale.micro_discharge_filtered_csv")
UNKNOWN = ("?",)
NONE = ("none",)
BI = {"str": str, "list": list, "dict": dict, "set": set, "tuple": tuple, "int": int, "float": float, "bool": bool, "bytes": bytes, "frozenset": frozenset, "range": range}
DECORATORS = {"check_args_type", "staticmethod", "classmethod", "property", "wraps", "beartype", "lru_cache", "cache", "setter"}
EXITS = {"sys.exit", "exit", "quit", "os._exit", "os.abort"}


class Types:
    """which objects every expression may stand for (whole program, order of statements ignored)"""

    def __init__(self, prog):
        self.prog = prog
        self.mods = [m for m in prog.modules.values() if not m.name.startswith(OUT)]
        self.node = collections.defaultdict(set)
        self.scopes, self.by_func = [], {}
        for m in self.mods:
            self.scopes.append(Scope(m, m.tree, m.name + " (module)"))
            for f in list(m.functions.values()) + [f for c in m.classes.values() for f in c.methods.values()]:
                s = Scope(m, f.node, f.qual, f, f.cls)
                self.scopes.append(s)
                self.by_func[f] = s
            for c in m.classes.values():
                k = ast.Module(body=[st for st in c.node.body if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef))], type_ignores=[])
                self.scopes.append(Scope(m, k, c.qual + " (class)", None, c))
        self.classes = [c for m in self.mods for c in m.classes.values()]
        self.sub = {c: [d for d in self.classes if c in d.mro()] for c in self.classes}
        for s in self.scopes:
            s.globals = {g for n in s.nodes if isinstance(n, ast.Global) for g in n.names}
            s.inner, s.imports = {}, {}
            for n in s.nodes:
                if isinstance(n, ast.Lambda) or isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.func is not None and n is not s.node:
                    for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
                        self.node[("v", s, a.arg)].add(UNKNOWN)
                        s.locals.add(a.arg)
                    if not isinstance(n, ast.Lambda):
                        s.inner[n.name] = n
                elif isinstance(n, (ast.Import, ast.ImportFrom)) and s.func is not None:
                    sub = Module.__new__(Module)
                    sub.name, sub.is_pkg, sub.imports, sub.functions, sub.classes, sub.globals = s.module.name, s.module.is_pkg, {}, {}, {}, {}
                    sub._scan([n])
                    for k in sub.imports:
                        if k != "*":
                            s.imports[k] = self.from_resolved(prog.resolve_name(sub, k), sub.imports[k])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.node[("v", s, n.name)].add(UNKNOWN)
                    s.locals.add(n.name)
            s.locals -= s.globals
        # names imported in more than one way
        self.twice = {}
        for m in self.mods:
            ways = collections.defaultdict(list)
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    sub = Module.__new__(Module)
                    sub.name, sub.is_pkg, sub.imports, sub.functions, sub.classes, sub.globals = m.name, m.is_pkg, {}, {}, {}, {}
                    sub._scan([n])
                    for k in sub.imports:
                        if k != "*" and m.imports.get(k) is not None:
                            ways[k].append(self.from_resolved(prog.resolve_name(sub, k), sub.imports[k]))
            self.twice[m.name] = {k: v for k, v in ways.items() if len(v) > 1}
        self.changed = False
        self.handed = {}
        for f, s in self.by_func.items():
            if f.cls is not None and f.params and not f.static:
                me = ("v", s, f.params[0])
                for d in self.sub[f.cls]:
                    if self.effective(d, f):
                        self.put(me, {("cls", d) if f.classm else ("inst", d)})
            for p in (f.vararg, f.kwarg):
                if p:
                    self.put(("v", s, p), {UNKNOWN})
        self.external = {m: set() for m in self.mods}
        self.fix()

    def effective(self, cls, f):
        """the method runs on instances of cls (found there, or called from one that does)"""
        key = (cls, f)
        if not hasattr(self, "_eff"):
            self._eff = {}
        if cls not in self._eff:
            got, todo = set(), []
            for c in cls.mro():
                for n in c.methods:
                    g = cls.find(n)
                    if g not in got:
                        got.add(g)
                        todo.append(g)
            while todo:
                g = todo.pop()
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        h = None
                        b = n.func.value
                        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super":
                            h = cls.find_after(g.cls, n.func.attr)
                        elif isinstance(b, (ast.Name, ast.Attribute)):
                            r = self.prog.resolve_expr(g.module, b)
                            if isinstance(r, Class) and r in cls.mro():
                                h = r.find(n.func.attr)
                        if h is not None and h not in got:
                            got.add(h)
                            todo.append(h)
            self._eff[cls] = got
        return f in self._eff[cls]

    def put(self, node, types):
        have = self.node[node]
        n = len(have)
        have |= types
        if len(have) != n:
            self.changed = True

    def fix(self):
        for self.round in range(25):
            self.changed = False
            self.memo = {}
            for s in self.scopes:
                self.pass_over(s)
            if not self.changed:
                break

    # ---- expressions
    def from_resolved(self, r, imp=None):
        if isinstance(r, Func):
            return {("fn", r, None)}
        if isinstance(r, Class):
            return {("cls", r)}
        if isinstance(r, Module):
            return {("mod", r)}
        if isinstance(r, tuple) and r[0] in ("ext", "ext?"):
            return {("ext", r[1])}
        if isinstance(r, tuple) and r[0] == "global":
            return self.node[("g", r[1].name, r[2])]
        if imp is not None and imp[0] == "obj" and imp[1] not in self.prog.modules:
            return {("ext", imp[1] + "." + imp[2])}
        return {UNKNOWN} if imp is not None else set()

    def name(self, s, n):
        if s.func is not None or s.cls is not None:
            if n in s.imports:
                return s.imports[n]
            if n in s.locals:
                return self.node[("v", s, n)]
        r = self.prog.resolve_name(s.module, n)
        if n in self.twice.get(s.module.name, {}):
            return set().union(*self.twice[s.module.name][n]) | self.node[("g", s.module.name, n)]
        g = self.node[("g", s.module.name, n)] if ("g", s.module.name, n) in self.node else set()
        if r is not None:
            return self.from_resolved(r) | g
        if g:
            return g
        if hasattr(builtins, n):
            return {("bn", n)}
        return set()

    def box(self, kind, n, s):
        return ("box", kind, (s.name, n.lineno, n.col_offset, kind))

    def el(self, ts):
        out = set()
        for t in ts:
            if t[0] == "box":
                out |= self.node[("k" if t[1] == "dict" else "el", t[2])]
            elif t[0] == "bi":
                out |= {("bi", "str")} if t[1] in ("str", "file") else {("bi", "int")} if t[1] in ("bytes", "range") else {UNKNOWN}
            elif t != NONE:
                out.add(self.outside(t))
        return out

    @staticmethod
    def outside(t):
        return ("ext", "()") if t[0] == "ext" else UNKNOWN

    def ty(self, e, s):
        k = (id(e), s)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = set()
        r = self.ty1(e, s)
        self.memo[k] = r
        return r

    def ty1(self, e, s):
        if isinstance(e, ast.Constant):
            v = e.value
            return {NONE} if v is None else {("bi", type(v).__name__)} if type(v).__name__ in BI else {UNKNOWN}
        if isinstance(e, ast.Name):
            return set(self.name(s, e.id))
        if isinstance(e, ast.Attribute):
            return self.attr(self.ty(e.value, s), e.attr)
        if isinstance(e, (ast.List, ast.Set, ast.Tuple)):
            b = self.box({"List": "list", "Set": "set", "Tuple": "tuple"}[type(e).__name__], e, s)
            for i, x in enumerate(e.elts):
                if isinstance(x, ast.Starred):
                    self.put(("el", b[2]), self.el(self.ty(x.value, s)))
                else:
                    t = self.ty(x, s)
                    self.put(("el", b[2]), t)
                    self.put(("ti", b[2], i), t)
            return {b}
        if isinstance(e, ast.Dict):
            b = self.box("dict", e, s)
            for k, v in zip(e.keys, e.values):
                if k is None:
                    for t in self.ty(v, s):
                        if t[0] == "box" and t[1] == "dict":
                            self.put(("el", b[2]), self.node[("el", t[2])])
                            self.put(("k", b[2]), self.node[("k", t[2])])
                        else:
                            self.put(("el", b[2]), {UNKNOWN})
                else:
                    self.put(("k", b[2]), self.ty(k, s))
                    self.put(("el", b[2]), self.ty(v, s))
            return {b}
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            b = self.box("set" if isinstance(e, ast.SetComp) else "list" if isinstance(e, ast.ListComp) else "gen", e, s)
            self.put(("el", b[2]), self.ty(e.elt, s))
            return {b}
        if isinstance(e, ast.DictComp):
            b = self.box("dict", e, s)
            self.put(("k", b[2]), self.ty(e.key, s))
            self.put(("el", b[2]), self.ty(e.value, s))
            return {b}
        if isinstance(e, ast.JoinedStr):
            return {("bi", "str")}
        if isinstance(e, ast.IfExp):
            return self.ty(e.body, s) | self.ty(e.orelse, s)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.ty(v, s) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.ty(e.value, s)
        if isinstance(e, ast.Compare):
            ts = [self.ty(x, s) for x in [e.left] + e.comparators]
            return {("bi", "bool")} if all(t[0] in ("bi", "box", "inst", "none") for ts1 in ts for t in ts1) and all(ts) else {UNKNOWN}
        if isinstance(e, ast.UnaryOp):
            return {("bi", "bool")} if isinstance(e.op, ast.Not) else self.num(self.ty(e.operand, s))
        if isinstance(e, ast.BinOp):
            a, b = self.ty(e.left, s), self.ty(e.right, s)
            if any(t[0] == "box" for t in a | b):
                return {t for t in a | b if t[0] == "box" or t == UNKNOWN or t[0] == "ext"}
            if isinstance(e.op, ast.Mod) and ("bi", "str") in a:
                return {("bi", "str")}
            if a == b == {("bi", "str")}:
                return {("bi", "str")}
            return self.num(a | b)
        if isinstance(e, ast.Subscript):
            base = self.ty(e.value, s)
            if isinstance(e.slice, ast.Slice):
                return {t if t[0] in ("box", "bi") else self.outside(t) for t in base if t != NONE}
            out = set()
            for t in base:
                if t[0] == "box":
                    i = e.slice.value if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) else None
                    if t[1] != "dict" and i is not None and ("ti", t[2], i) in self.node and not self.node[("grown", t[2])]:
                        out |= self.node[("ti", t[2], i)]
                    else:
                        out |= self.node[("el", t[2])]
                elif t[0] == "bi" and t[1] == "str":
                    out.add(("bi", "str"))
                elif t == NONE:
                    continue
                else:
                    out.add(self.outside(t))
            return out
        if isinstance(e, ast.Call):
            return self.call(e, s)
        if isinstance(e, ast.Starred):
            return self.ty(e.value, s)
        return {UNKNOWN}

    @staticmethod
    def num(ts):
        if ts and all(t[0] == "bi" and t[1] in ("int", "float", "bool") for t in ts):
            return {("bi", "float")} if any(t[1] == "float" for t in ts) else {("bi", "int"), ("bi", "float")}
        return {("ext", "()")} if any(t[0] == "ext" for t in ts) else {UNKNOWN}

    def attr(self, ts, a):
        out = set()
        for t in ts:
            if t[0] == "inst":
                c = t[1]
                f = c.find(a)
                have = self.node.get(("f", c, a))
                if have:
                    out |= have
                if f is not None:
                    if f.prop:
                        self.put(("v", self.by_func[f], f.params[0]), {t}) if f in self.by_func else None
                        out |= self.node[("r", f)] or {UNKNOWN}
                    else:
                        out.add(("fn", f, None if f.static else t))
                elif c.class_attr(a) is not None:
                    out |= self.node[("ca", c.class_attr(a)[0], a)]
                elif not have and c.base_names and c.base_names != ["object"]:
                    out.add(("ext", "()"))
            elif t[0] == "cls":
                c = t[1]
                f = c.find(a)
                if f is not None:
                    out.add(("fn", f, t if f.classm else None))
                elif c.base_names and c.base_names != ["object"]:
                    out.add(("ext", "()"))
                elif c.class_attr(a) is not None:
                    out |= self.node[("ca", c.class_attr(a)[0], a)]
                else:
                    for d in c.mro():
                        if ("ca", d, a) in self.node:
                            out |= self.node[("ca", d, a)]
            elif t[0] == "super":
                c, me, own = t[1], t[2], t[3]
                f = c.find_after(own, a)
                out.add(("fn", f, me) if f is not None else UNKNOWN)
            elif t[0] == "mod":
                r = self.prog.member(t[1], a)
                out |= self.from_resolved(r) if r is not None else set()
                if ("g", t[1].name, a) in self.node:
                    out |= self.node[("g", t[1].name, a)]
            elif t[0] == "ext":
                out.add(t if "()" in t[1] or t[1].count(".") > 4 else ("ext", t[1] + "." + a))
            elif t[0] == "box" or t[0] == "bi":
                out.add(("bm", t, a))
            elif t != NONE:
                out.add(UNKNOWN)
        return out

    def fresh(self, kind, e, s, els, ks=()):
        b = self.box(kind, e, s)
        self.put(("el", b[2]), set(els))
        if ks:
            self.put(("k", b[2]), set(ks))
        return b

    def call(self, e, s):
        out = set()
        args = [self.ty(a, s) for a in e.args]
        kw = {k.arg: self.ty(k.value, s) for k in e.keywords}
        if isinstance(e.func, ast.Name) and e.func.id == "super" and s.func is not None and s.func.params:
            if s.cls is not None:
                return {("super", t[1], t, s.cls) for t in self.node[("v", s, s.func.params[0])] if t[0] in ("inst", "cls")}
        for t in list(self.ty(e.func, s)):
            if t[0] == "fn":
                self.bind(t[1], ([{t[2]}] if t[2] is not None else []) + args, kw, e)
                out |= self.result(t[1], args, kw, e, s, 1 if t[2] is not None else 0)
            elif t[0] == "cls":
                i = t[1].find("__init__")
                if i is not None:
                    self.bind(i, [{("inst", t[1])}] + args, kw, e)
                out.add(("inst", t[1]))
            elif t[0] == "bm":
                out |= self.method(t[1], t[2], args, kw, e, s)
            elif t[0] == "bn":
                out |= self.builtin(t[1], args, e, s)
            elif t[0] == "ext":
                if t[1] in ("copy.copy", "copy.deepcopy") and args:
                    out |= args[0]
                elif t[1] == "numpy.random.choice" and args and any(x[0] == "box" for x in args[0]):
                    out.add(self.fresh("list", e, s, self.el(args[0])))
                    if len(args) == 1 and "size" not in kw:
                        out |= self.el(args[0])
                elif t[1] in ("random.choice",) and args:
                    out |= self.el(args[0])
                elif t[1] in ("random.choices", "random.sample") and args:
                    out.add(self.fresh("list", e, s, self.el(args[0])))
                elif t[1] == "csv.reader":
                    row = ("box", "list", (s.name, e.lineno, e.col_offset, "row"))
                    self.put(("el", row[2]), {("bi", "str")})
                    out.add(self.fresh("gen", e, s, {row}))
                elif t[1] in ("collections.defaultdict",):
                    out.add(self.fresh("dict", e, s, {UNKNOWN}))
                elif t[1] in ("os.path.join", "os.getcwd", "os.path.basename", "os.path.dirname"):
                    out.add(("bi", "str"))
                else:
                    out.add(("ext", "()"))
            elif t != NONE:
                out.add(UNKNOWN)
        return out

    def bind(self, f, args, kw, e):
        if f not in self.by_func:
            return
        s = self.by_func[f]
        for i, (p, a) in enumerate(zip(f.params, args)):
            if i < len(e.args) + len(args) and any(isinstance(x, ast.Starred) for x in e.args):
                break
            if i == 0 and f.cls is not None and not f.static and a <= {("inst", c) for c in self.classes}:
                continue
            self.put(("v", s, p), a)
        for k, v in kw.items():
            if k in f.params or k in f.kwonly:
                self.put(("v", s, k), v)

    def builtin(self, n, args, e, s):
        a = args[0] if args else set()
        if n in ("list", "set", "frozenset", "tuple", "sorted", "reversed", "iter", "filter"):
            src = args[-1] if n == "filter" and args else a
            return {self.fresh({"set": "set", "frozenset": "set", "tuple": "tuple", "list": "list", "sorted": "list"}.get(n, "gen"), e, s, self.el(src))}
        if n == "dict":
            b = self.fresh("dict", e, s, set().union(*[self.ty(k.value, s) for k in e.keywords]) if e.keywords else set())
            for t in a:
                if t[0] == "box" and t[1] == "dict":
                    self.put(("el", b[2]), self.node[("el", t[2])])
                    self.put(("k", b[2]), self.node[("k", t[2])])
                else:
                    self.put(("el", b[2]), {UNKNOWN})
            return {b}
        if n == "enumerate":
            t = self.box("tuple", e, s)
            self.put(("ti", t[2], 0), {("bi", "int")})
            self.put(("ti", t[2], 1), self.el(a))
            self.put(("el", t[2]), {("bi", "int")} | self.el(a))
            b = ("box", "gen", t[2] + ("all",))
            self.put(("el", b[2]), {t})
            return {b}
        if n == "zip":
            t = self.box("tuple", e, s)
            for i, x in enumerate(args):
                self.put(("ti", t[2], i), self.el(x))
                self.put(("el", t[2]), self.el(x))
            b = ("box", "gen", t[2] + ("all",))
            self.put(("el", b[2]), {t})
            return {b}
        if n in ("min", "max", "next"):
            return self.el(a) if len(args) == 1 or n == "next" else set().union(*args)
        if n in ("len", "int", "ord", "hash", "id"):
            return {("bi", "int")}
        if n in ("str", "repr", "input", "chr", "format", "ascii", "bin", "hex"):
            return {("bi", "str")}
        if n == "float":
            return {("bi", "float")}
        if n in ("bool", "any", "all", "isinstance", "hasattr", "callable", "issubclass"):
            return {("bi", "bool")}
        if n == "range":
            return {("bi", "range")}
        if n == "print":
            return {NONE}
        if n == "open":
            return {("bi", "file")}
        if n == "abs":
            return self.num(a)
        return {UNKNOWN}

    def method(self, b, m, args, kw, e, s):
        if b[0] == "bi":
            if b[1] == "str":
                if m in ("split", "splitlines", "rsplit"):
                    return {self.fresh("list", e, s, {("bi", "str")})}
                if m in ("strip", "lstrip", "rstrip", "lower", "upper", "title", "join", "format", "replace", "capitalize", "zfill", "rjust", "ljust", "center"):
                    return {("bi", "str")}
                if m in ("startswith", "endswith", "isdigit", "isnumeric"):
                    return {("bi", "bool")}
                if m in ("find", "index", "count"):
                    return {("bi", "int")}
            if b[1] == "file":
                return {("bi", "str")} if m in ("read", "readline") else {self.fresh("list", e, s, {("bi", "str")})} if m == "readlines" else {("bi", "file")} if m == "__enter__" else {UNKNOWN}
            return {UNKNOWN}
        site = b[2]
        el = self.node[("el", site)]
        if m in ("append", "add", "appendleft") and args:
            self.put(("el", site), args[0])
            self.put(("grown", site), {UNKNOWN})
            return {NONE}
        if m == "insert" and len(args) > 1:
            self.put(("el", site), args[1])
            self.put(("grown", site), {UNKNOWN})
            return {NONE}
        if m in ("extend", "update") and args:
            if b[1] == "dict":
                for t in args[0]:
                    if t[0] == "box" and t[1] == "dict":
                        self.put(("el", site), self.node[("el", t[2])])
                        self.put(("k", site), self.node[("k", t[2])])
                    else:
                        self.put(("el", site), {UNKNOWN})
            else:
                self.put(("el", site), self.el(args[0]))
                self.put(("grown", site), {UNKNOWN})
            return {NONE}
        if m in ("sort", "clear", "remove", "discard", "reverse"):
            self.put(("grown", site), {UNKNOWN})
            return {NONE}
        if m == "pop":
            self.put(("grown", site), {UNKNOWN})
            return set(el) | (args[1] if len(args) > 1 else set())
        if m in ("get", "setdefault") and b[1] == "dict":
            if m == "setdefault" and len(args) > 1:
                self.put(("el", site), args[1])
            return set(el) | (args[1] if len(args) > 1 else {NONE})
        if m == "values":
            return {self.fresh("gen", e, s, el)}
        if m == "keys":
            return {self.fresh("gen", e, s, self.node[("k", site)])}
        if m == "items":
            t = self.box("tuple", e, s)
            self.put(("ti", t[2], 0), self.node[("k", site)])
            self.put(("ti", t[2], 1), el)
            self.put(("el", t[2]), self.node[("k", site)] | el)
            g = ("box", "gen", t[2] + ("all",))
            self.put(("el", g[2]), {t})
            return {g}
        if m in ("copy", "union", "intersection", "difference"):
            for x in args:
                self.put(("el", site), self.el(x))
            return {b}
        if m in ("index", "count"):
            return {("bi", "int")}
        if m == "tolist":
            return {b}
        return {UNKNOWN}

    # ---- statements
    def put_attr(self, b, a, ts):
        if b[0] == "inst":
            self.put(("f", b[1], a), ts or {UNKNOWN})
        elif b[0] == "cls":
            ca = b[1].class_attr(a)
            self.put(("ca", ca[0] if ca else b[1], a), ts or {UNKNOWN})
        elif b[0] == "mod":
            self.put(("g", b[1].name, a), ts or {UNKNOWN})

    def passed(self, f):
        """parameters a function hands back as they are: {place in the returned tuple, or None: parameter}"""
        if f not in self.handed:
            s = self.by_func[f]
            rets = [n for n in s.nodes if isinstance(n, ast.Return) and n.value is not None]
            out = {}
            if len(rets) == 1:
                v = rets[0].value
                kept = {p for p in f.params if not any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store) for n in s.nodes)}
                for i, x in enumerate(v.elts) if isinstance(v, ast.Tuple) else [(None, v)]:
                    if isinstance(x, ast.Name) and x.id in kept:
                        out[i] = x.id
            self.handed[f] = out
        return self.handed[f]

    def result(self, f, args, kw, e, s, me):
        """what the call returns, with handed-back arguments kept apart"""
        r = self.node[("r", f)]
        if f not in self.by_func or any(isinstance(a, ast.Starred) for a in e.args):
            return r
        back = self.passed(f)
        given = dict(zip(f.params[me:], args))
        given.update(kw)
        if None in back and back[None] in given:
            return given[back[None]]
        if not back or not all(p in given for p in back.values()):
            return r
        b = self.box("tuple", e, s)
        for t in r:
            if t[0] == "box":
                i = 0
                while ("ti", t[2], i) in self.node:
                    ts = given[back[i]] if i in back else self.node[("ti", t[2], i)]
                    self.put(("ti", b[2], i), ts)
                    self.put(("el", b[2]), ts)
                    i += 1
        return {b}

    def assign(self, t, ts, s):
        if isinstance(t, ast.Name):
            if (s.func is not None or s.cls is not None) and t.id in s.locals:
                self.put(("v", s, t.id), ts)
                if s.cls is not None and s.func is None:
                    self.put(("ca", s.cls, t.id), ts or {UNKNOWN})
            else:
                self.put(("g", s.module.name, t.id), ts or {UNKNOWN})
        elif isinstance(t, ast.Attribute):
            for b in self.ty(t.value, s):
                self.put_attr(b, t.attr, ts)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                out = set()
                for b in ts:
                    if b[0] == "box" and ("ti", b[2], i) in self.node and b[1] != "dict":
                        out |= self.node[("ti", b[2], i)]
                    else:
                        out |= self.el({b})
                self.assign(x, out, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, {UNKNOWN}, s)
        elif isinstance(t, ast.Subscript):
            for b in self.ty(t.value, s):
                if b[0] == "box":
                    self.put(("el", b[2]), ts)
                    self.put(("grown", b[2]), {UNKNOWN})
                    if b[1] == "dict":
                        self.put(("k", b[2]), self.ty(t.slice, s))

    def pass_over(self, s):
        for n in s.nodes:
            if isinstance(n, ast.Assign):
                v = self.ty(n.value, s)
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and t.value.id == n.value.value.id:
                        # m.A = m.B: each module gets its own
                        for b in self.ty(t.value, s):
                            if b[0] == "mod":
                                got = self.attr({b}, n.value.attr)
                                if got:
                                    self.put(("g", b[1].name, t.attr), got)
                            else:
                                self.put_attr(b, t.attr, v)
                        continue
                    self.assign(t, v, s)
            elif isinstance(n, ast.AugAssign):
                v = self.ty(n.value, s)
                cur = set(self.name(s, n.target.id)) if isinstance(n.target, ast.Name) else self.ty1(n.target, s)
                for b in cur:
                    if b[0] == "box" and isinstance(n.op, ast.Add):
                        self.put(("el", b[2]), self.el(v))
                        self.put(("grown", b[2]), {UNKNOWN})
                if not any(b[0] == "box" for b in cur):
                    self.assign(n.target, self.num(v | cur) if not (("bi", "str") in v) else v, s)
            elif isinstance(n, ast.AnnAssign):
                self.assign(n.target, self.ty(n.value, s) if n.value is not None else {UNKNOWN}, s)
            elif isinstance(n, ast.NamedExpr):
                self.assign(n.target, self.ty(n.value, s), s)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.assign(n.target, self.el(self.ty(n.iter, s)), s)
            elif isinstance(n, ast.withitem):
                if n.optional_vars is not None:
                    self.assign(n.optional_vars, {t if t == ("bi", "file") else self.outside(t) for t in self.ty(n.context_expr, s)}, s)
            elif isinstance(n, ast.Return) and s.func is not None:
                self.put(("r", s.func), self.ty(n.value, s) if n.value is not None else {NONE})
            elif isinstance(n, (ast.Yield, ast.YieldFrom)) and s.func is not None:
                self.put(("r", s.func), {UNKNOWN})
            elif isinstance(n, ast.expr):
                self.ty(n, s)
        if s.func is not None:
            for p in s.func.params + s.func.kwonly:
                d = s.func.defaults.get(p)
                if d is not None:
                    self.put(("v", s, p), self.ty(d, s))
            if not any(isinstance(n, ast.Return) and n.value is not None for n in s.nodes):
                self.put(("r", s.func), {NONE})


# ---- what exists outside the package ---------------------------------------------
class Outside:
    """members of installed modules, from the standard library itself and from the interface files of installed packages"""

    def __init__(self):
        self.have = {}
        self.site = []
        for p in sorted(glob.glob("/opt/venv/lib/python3*/site-packages")) + [x for x in sys.path if x.endswith("site-packages")]:
            if os.path.isdir(p):
                self.site.append(p)

    def stdlib(self, name):
        return name.split(".")[0] in sys.stdlib_module_names and name.split(".")[0] not in ("antigravity", "this", "idlelib", "turtledemo", "test")

    def obj(self, dotted):
        """the standard library object of that name, or None / a failure to find it"""
        parts = dotted.split(".")
        if not self.stdlib(dotted):
            return None, None
        for i in range(len(parts), 0, -1):
            try:
                o = importlib.import_module(".".join(parts[:i]))
            except Exception:
                continue
            for j, a in enumerate(parts[i:]):
                if not hasattr(o, a):
                    return None, ".".join(parts[:i + j]) + " has no " + a
                o = getattr(o, a)
            return o, None
        return None, "no module " + dotted

    def members(self, mod):
        """names of an installed package's module, or None"""
        if mod in self.have:
            return self.have[mod]
        self.have[mod] = None
        for p in self.site:
            base = os.path.join(p, *mod.split("."))
            for f in (base + "/__init__.pyi", base + ".pyi", base + "/__init__.py", base + ".py"):
                if os.path.isfile(f):
                    names = self.read(f, base if "__init__" in f else None)
                    self.have[mod] = names
                    return names
        return None

    def read(self, f, pkg):
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except Exception:
            return None
        out = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if a.name == "*":
                        return None
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                out.add(n.value)
            elif isinstance(n, (ast.FunctionDef,)) and n.name == "__getattr__" and f.endswith(".py"):
                return None
        if pkg:
            out |= {x.split(".")[0] for x in os.listdir(pkg)}
        return out

    def missing(self, dotted):
        """why the name does not exist, or None"""
        if "()" in dotted or "." not in dotted:
            return None
        if self.stdlib(dotted):
            return self.obj(dotted)[1]
        mod, a = dotted.rsplit(".", 1)
        ms = self.members(mod)
        if ms is not None and a not in ms and not (a.startswith("__") and a.endswith("__")):
            return "%s has no %s" % (mod, a)
        return None


# ---- variables that may have no value --------------------------------------------
class Bound:
    """variables that have a value on every way to a point of a function (loops are taken to run at least once)"""

    def __init__(self, scope, types, never):
        self.s, self.types, self.never = scope, types, never
        self.bad = []
        self.where_set = collections.defaultdict(list)
        self.guards = []
        self.near = set()
        names = self.names = set(scope.locals)
        params = set()
        if scope.func is not None:
            f = scope.func
            params = set(f.params + f.kwonly + [x for x in (f.vararg, f.kwarg) if x])
            names |= params
        self.late = {}
        if scope.func is not None or "(module)" in scope.name:
            self.block(scope.body, set(params))

    def exits(self, call):
        d = dotted(call.func)
        if d in EXITS or d and (d.endswith(".Abort") or d.endswith("parser.error")):
            return True
        fs = [t[1] for t in self.types.ty(call.func, self.s) if t[0] == "fn"]
        return bool(fs) and all(f in self.never for f in fs)

    def use(self, e, have):
        """check the reads of an expression, in place; returns what it assigns"""
        got = set()
        if e is None:
            return got
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            h = set(have)
            for g in e.generators:
                got |= self.use(g.iter, h)
                h |= names_in(g.target)
                for c in g.ifs:
                    self.use(c, h)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.use(x, h)
            return got
        if isinstance(e, ast.Lambda):
            return got
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.names and e.id not in have and e.id not in self.s.globals:
                self.bad.append((e, list(self.guards)))
            return got
        if isinstance(e, ast.BoolOp):
            h = set(have)
            for i, v in enumerate(e.values):
                g = self.use(v, h)
                h |= g
                if i == 0:
                    got |= g
                if isinstance(e.op, ast.And):
                    self.guards.append(v)
            if isinstance(e.op, ast.And):
                del self.guards[len(self.guards) - len(e.values):]
            return got
        if isinstance(e, ast.IfExp):
            got |= self.use(e.test, have)
            self.guards.append(e.test)
            self.use(e.body, have | got)
            self.guards.pop()
            self.use(e.orelse, have | got)
            return got
        if isinstance(e, ast.NamedExpr):
            got |= self.use(e.value, have)
            got |= names_in(e.target)
            return got
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                got |= self.use(c, have | got)
            elif isinstance(c, ast.keyword):
                got |= self.use(c.value, have | got)
        return got

    def target(self, t, have):
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            for c in ast.iter_child_nodes(t):
                if isinstance(c, ast.expr):
                    self.use(c, have)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, have)
        elif isinstance(t, ast.Starred):
            self.target(t.value, have)

    def setting(self, names):
        for n in names:
            self.where_set[n].append((list(self.guards), self.near))

    def block(self, body, have):
        """-> names with a value after it, or None when it does not end"""
        have = set(have)
        near = self.near
        for st in body:
            if have is None:
                break
            self.near = {x for y in body for x in plain_names(y)}
            have = self.stmt(st, have)
            self.near = near
        return have

    def stmt(self, st, have):
        if isinstance(st, ast.Expr):
            g = self.use(st.value, have)
            if isinstance(st.value, ast.Call) and self.exits(st.value):
                return None
            return have | g
        if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if st.value is None:
                return have
            h = have | self.use(st.value, have)
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.use(ast.copy_location(ast.Name(id=st.target.id, ctx=ast.Load()), st.target), h)
            for t in ts:
                self.target(t, h)
                self.setting(names_in(t))
                h |= names_in(t)
            return h
        if isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                self.use(c, have)
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            return None if True else have
        if isinstance(st, ast.If):
            h = have | self.use(st.test, have)
            self.guards.append(st.test)
            a = self.block(st.body, h)
            self.guards.pop()
            self.guards.append(ast.UnaryOp(op=ast.Not(), operand=st.test))
            b = self.block(st.orelse, h)
            self.guards.pop()
            if isinstance(st.test, ast.Constant):
                return a if st.test.value else b
            return b if a is None else a if b is None else a & b
        if isinstance(st, (ast.For, ast.AsyncFor)):
            h = have | self.use(st.iter, have) | names_in(st.target)
            self.setting(names_in(st.target))
            a = self.loop(st.body, h)
            h = (a if a is not None else h)
            if st.orelse:
                b = self.block(st.orelse, h)
                if b is None:
                    return h if has_break(st.body) else None
            return h
        if isinstance(st, ast.While):
            h = have | self.use(st.test, have)
            self.guards.append(st.test)
            a = self.loop(st.body, h)
            self.guards.pop()
            forever = isinstance(st.test, ast.Constant) and bool(st.test.value)
            if forever and not has_break(st.body):
                return None
            h = a if a is not None else h
            if st.orelse:
                b = self.block(st.orelse, h)
                h = h if b is None else b
            return h
        if isinstance(st, (ast.With, ast.AsyncWith)):
            h = set(have)
            for i in st.items:
                h |= self.use(i.context_expr, h)
                if i.optional_vars is not None:
                    h |= names_in(i.optional_vars)
            return self.block(st.body, h)
        if isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            a = self.block(st.body, have)
            if a is not None:
                a = self.block(st.orelse, a)
            # a handler starts with what was there before
            outs = [a]
            for hd in st.handlers:
                outs.append(self.block(hd.body, have | ({hd.name} if hd.name else set())))
            live = [x for x in outs if x is not None]
            r = set.intersection(*live) if live else None
            if st.finalbody:
                f = self.block(st.finalbody, r if r is not None else have)
                return None if f is None else (f if r is not None else None)
            return r
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.setting({st.name})
            return have | {st.name}
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return have | {(a.asname or a.name).split(".")[0] for a in st.names}
        if isinstance(st, ast.Delete):
            gone = {t.id for t in st.targets if isinstance(t, ast.Name)}
            for t in st.targets:
                self.target(t, have)
            return have - gone
        if isinstance(st, ast.Assert):
            return have | self.use(st.test, have)
        if isinstance(st, ast.Match):
            h = have | self.use(st.subject, have)
            outs, total = [], False
            for c in st.cases:
                hh = h | {n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name} | {n.rest for n in ast.walk(c.pattern) if isinstance(n, ast.MatchMapping) and n.rest}
                outs.append(self.block(c.body, hh))
                total = total or c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None
            if not total:
                outs.append(h)
            live = [x for x in outs if x is not None]
            return set.intersection(*live) if live else None
        return have

    def loop(self, body, have):
        """after some turns of the loop: what the ways through one turn (also those left with break or continue) have in common is not
        followed; the turn that reaches the end of the body counts"""
        a = self.block(body, have)
        return a if a is not None else have | {n for st in body for n in stored_before_leaving(st)}

    def verdicts(self):
        """(name node, guards) that may have no value"""
        for e, gs in self.bad:
            sets = self.where_set.get(e.id, [])
            if any(excused(gs, g, near - {e.id}) for g, near in sets):
                continue
            yield e


def stored_before_leaving(st):
    return {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def conj(e):
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
        return [y for x in e.values for y in conj(x)]
    return [e]


def plain_names(st):
    """names a statement itself (not one inside it) assigns"""
    ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, (ast.AugAssign, ast.AnnAssign)) else []
    return {x for t in ts for x in names_in(t)} | {t.id for t in ts if isinstance(t, ast.Name)}


def excused(use, sett, near):
    """the conditions around the assignment are repeated around the use, or the use asks for something set together with it"""
    have = {ast.unparse(x) for g in use for x in conj(g)}
    need = [x for g in sett for x in conj(g)]
    missing = [x for x in need if ast.unparse(x) not in have]
    if not missing:
        return True
    # a flag or counter set together with it
    return any(isinstance(x, ast.Name) and x.id in near for g in use for x in ast.walk(g))


def has_break(body):
    for st in body:
        if isinstance(st, ast.Break):
            return True
        if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
            if has_break(st.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if has_break(getattr(st, f, []) or []):
                return True
        for h in getattr(st, "handlers", []):
            if has_break(h.body):
                return True
        for c in getattr(st, "cases", []):
            if has_break(c.body):
                return True
    return False


def names_in(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


# ---- the checks ---------------------------------------------------------------
ALSO = set("shape size ndim dtype T sum mean std min max tolist astype flatten ravel reshape iloc loc columns values index items groupby sample to_numpy to_csv head tail drop dropna fillna "
           "apply iterrows itertuples empty name names merge sort_values reset_index copy read write readline readlines close flush seek writerow writerows fieldnames year month day days hour minute second "
           "strftime strptime total_seconds group groups match start end span args message errno add_argument parse_args comm rank".split())
BUILTIN_ATTRS = set().union(*[set(dir(t)) for t in list(BI.values()) + [open, object, type(None), type, complex]]) | {"__name__", "__dict__", "__doc__", "__module__", "__qualname__"} | ALSO


class Names:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.t = Types(ctx.prog)
        self.out = Outside()
        self.pkg_attrs = set()
        for c in self.t.classes:
            self.pkg_attrs |= set(c.methods) | set(c.attrs)
        for k in self.t.node:
            if k[0] in ("f", "ca"):
                self.pkg_attrs.add(k[2])
        self.slots = {}
        for c in self.t.classes:
            own = []
            for d in c.mro():
                v = d.attrs.get("__slots__")
                if v is None or d.base_names not in ([], ["object"]):
                    own = None
                    break
                own += [x.value for x in getattr(v, "elts", []) if isinstance(x, ast.Constant)] + ([v.value] if isinstance(v, ast.Constant) else [])
            self.slots[c] = own
        self.never = set()
        for _ in range(2):
            for f, s in self.t.by_func.items():
                if not any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) for n in s.nodes):
                    b = Bound.__new__(Bound)
                    b.s, b.types, b.never, b.bad, b.where_set, b.guards, b.names, b.near = s, self.t, self.never, [], collections.defaultdict(list), [], set(), set()
                    if b.block(s.body, set()) is None:
                        self.never.add(f)

    # ---- names
    def names(self):
        ctx = self.ctx
        for m in self.t.mods:
            known = set(m.functions) | set(m.classes) | set(m.globals) | set(m.imports) | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__builtins__", "__loader__", "__cached__", "WindowsError"}
            for k in self.t.node:
                if k[0] == "g" and k[1] == m.name:
                    known.add(k[2])
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    pass
            stars = m.imports.get("*", [])
            openstar = False
            for b in stars:
                if b in self.prog.modules:
                    q = self.prog.modules[b]
                    known |= set(q.functions) | set(q.classes) | set(q.globals) | set(q.imports)
                else:
                    ms = self.out.members(b)
                    if self.out.stdlib(b):
                        try:
                            ms = set(dir(importlib.import_module(b)))
                        except Exception:
                            ms = None
                    if ms is None:
                        openstar = True
                    else:
                        known |= ms
            top = symtable.symtable(m.text, m.rel, "exec")
            known |= {x.get_name() for x in top.get_symbols() if x.is_assigned() or x.is_imported()}
            lines = collections.defaultdict(list)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                    lines[n.id].append(n)

            def walk(tab, chain):
                for x in tab.get_symbols():
                    if x.is_referenced() and (x.is_global() or tab.get_type() == "module"):
                        nm = x.get_name()
                        if nm in known or openstar or nm.startswith("."):
                            ctx.ok("Q01.name")
                        elif nm.startswith("_") and "__" in nm and nm.split("__", 1)[1] and ("__" + nm.split("__", 1)[1]) in known:
                            ctx.fail("Q01.name", "%s|%s" % (".".join([m.name] + chain), nm), "inside a class this stands for %s, which does not exist" % nm, m.rel)
                        else:
                            ns = [n for n in lines.get(nm, []) if tab.get_type() == "module" or n.lineno >= tab.get_lineno()]
                            ctx.fail("Q01.name", "%s|%s" % (".".join([m.name] + chain), nm), "the name %s is not defined here" % nm, "%s:%d" % (m.rel, ns[0].lineno if ns else tab.get_lineno()))
                for c in tab.get_children():
                    walk(c, chain + [c.get_name()])
            walk(top, [])
            if not any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names) for n in m.tree.body):
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        a = n.args
                        for e in [n.returns] + [x.annotation for x in a.args + a.posonlyargs + a.kwonlyargs + [a.vararg, a.kwarg] if x]:
                            for x in ast.walk(e) if e is not None else ():
                                if isinstance(x, ast.Name):
                                    ok = x.id in known or openstar or any(x.id in c.attrs or x.id in c.methods for c in m.classes.values()) or any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store) or isinstance(y, (ast.ClassDef, ast.FunctionDef)) and y.name == x.id for y in ast.walk(m.tree))
                                    ctx.check(ok, "Q01.name", "%s.%s|%s" % (m.name, n.name, x.id), "the name %s is not defined here" % x.id, "%s:%d" % (m.rel, x.lineno))
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    for a in n.names:
                        if a.name == "*":
                            continue
                        if n.module in self.prog.modules or n.module.split(".")[0] in ("flee", "runscripts", "multiscale") and n.module.split(".")[0] in {x.split(".")[0] for x in self.prog.modules}:
                            q = self.prog.modules.get(n.module)
                            ok = n.module + "." + a.name in self.prog.modules or q is not None and (self.prog.resolve_name(q, a.name) is not None or ("g", q.name, a.name) in self.t.node)
                            ctx.check(ok, "Q01.import", "%s|%s.%s" % (m.name, n.module, a.name), "%s has no %s" % (n.module, a.name), "%s:%d" % (m.rel, n.lineno))
                        else:
                            w = self.out.missing(n.module + "." + a.name)
                            if self.guarded_import(m, n):
                                w = None
                            ctx.check(not w, "Q01.import", "%s|%s.%s" % (m.name, n.module, a.name), w or "", "%s:%d" % (m.rel, n.lineno))
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if a.name.split(".")[0] == "flee" and a.name not in self.prog.modules:
                            ctx.fail("Q01.import", "%s|%s" % (m.name, a.name), "there is no module %s" % a.name, "%s:%d" % (m.rel, n.lineno))

    def guarded_import(self, m, n):
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try) and any(n is x for st in t.body for x in ast.walk(st)):
                return True
        return False

    # ---- values
    def bound(self):
        for s in self.t.scopes:
            if s.module.name.startswith("multiscale"):
                continue        # one branch per sub-model name, over and over
            b = Bound(s, self.t, self.never)
            self.ctx.ok("Q01.value", len(s.locals))
            seen = set()
            for e in b.verdicts():
                if s.func is None and self.prog.resolve_name(s.module, e.id) is not None and not isinstance(self.prog.resolve_name(s.module, e.id), tuple):
                    # functions and classes defined further down
                    r = self.prog.resolve_name(s.module, e.id)
                    d = getattr(r, "node", None)
                    if d is not None and d.lineno <= e.lineno or not isinstance(r, (Func, Class)):
                        continue
                if e.id in seen:
                    continue
                seen.add(e.id)
                self.ctx.fail("Q01.value", "%s|%s" % (s.name, e.id), "%s may have no value here: it is assigned on some branches only" % e.id, s.where(e))

    # ---- attributes
    def world(self, c):
        m = c.module.name
        return "serial" if m == "flee.flee" else "parallel" if m == "flee.pflee" else "micro" if m == "flee.pmicro_flee" else "all"

    def has(self, t, a, store=False):
        """does such an object have the attribute? None when nobody can tell"""
        if t[0] == "inst":
            c = t[1]
            if any(d.find("__getattr__") or d.find("__getattribute__") for d in [c]) or c.base_names and c.base_names != ["object"]:
                return None
            if c.find(a) is not None or c.class_attr(a) is not None or ("f", c, a) in self.t.node or any(("ca", d, a) in self.t.node for d in c.mro()):
                return True
            return a in ("__class__", "__dict__", "__doc__", "__module__", "__init__", "__hash__", "__eq__", "__repr__", "__str__", "__sizeof__", "__slots__")
        if t[0] == "cls":
            c = t[1]
            if c.base_names and c.base_names != ["object"] or c.node.keywords:
                return None
            return c.find(a) is not None or c.class_attr(a) is not None or any(("ca", d, a) in self.t.node for d in c.mro()) or a in dir(type) or a in ("__dict__", "__module__", "__doc__", "__slots__")
        if t[0] == "mod":
            r = self.prog.member(t[1], a)
            return r is not None or ("g", t[1].name, a) in self.t.node or a.startswith("__")
        if t[0] == "ext":
            return not self.out.missing(t[1] + "." + a) if "()" not in t[1] else None
        if t[0] == "box":
            return None if t[1] == "gen" else hasattr(BI[t[1]], a) or a in ALSO and t[1] == "list" and a in ("tolist",)
        if t[0] == "bi":
            return None if t[1] == "file" else hasattr(BI[t[1]], a) if t[1] not in ("int", "float", "bool") else hasattr(float, a) or hasattr(int, a)
        if t[0] == "super":
            return t[1].find_after(t[3], a) is not None or hasattr(object, a) or bool([b for d in t[1].mro() for b in d.base_names if b != "object"])
        if t[0] == "fn":
            return a.startswith("__") or None
        return None

    def attrs(self):
        ctx = self.ctx
        for s in self.t.scopes:
            excused = {n.args[1].value for n in s.nodes if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr", "setattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
            tries = [x for x in s.nodes if isinstance(x, ast.Try) and any(h.type is None or any(w in ast.unparse(h.type) for w in ("AttributeError", "Exception")) for h in x.handlers)]
            tried = {id(y) for x in tries for st in x.body for y in ast.walk(st)}
            asked = collections.defaultdict(set)
            for x in s.nodes:
                if isinstance(x, (ast.If, ast.IfExp)):
                    for c in ast.walk(x.test):
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "isinstance", "getattr", "type") and c.args:
                            of = ast.unparse(c.args[0])
                            one = c in conj(x.test) and c.func.id == "hasattr" and len(c.args) == 2 and isinstance(c.args[1], ast.Constant)
                            for part, way in ((x.body, True), (x.orelse, False), (x.test, None)):
                                for y in [z for w in (part if isinstance(part, list) else [part]) for z in ast.walk(w)]:
                                    if one and way is not None:
                                        if way or len(conj(x.test)) == 1:
                                            asked[id(y)].add((of, c.args[1].value, way))
                                    elif c.func.id != "hasattr" or not one:
                                        asked[id(y)].add((of, None, None))
            for n in s.nodes:
                if not isinstance(n, ast.Attribute):
                    continue
                if n.attr in excused or id(n) in tried:
                    continue
                ts = self.own_world({t for t in self.t.ty(n.value, s) if t != NONE}, s)
                of = [a for a in asked.get(id(n), ()) if a[0] == ast.unparse(n.value)]
                if any(a[1] is None for a in of):
                    continue
                for _, a, way in of:
                    ts = {t for t in ts if self.has(t, a) in (way, None)}
                if isinstance(n.ctx, (ast.Store,)):
                    self.stored(n, ts, s)
                    continue
                bad = self.lacking(ts, n.attr)
                if bad:
                    ctx.fail("Q01.attribute", "%s|%s" % (s.name, ast.unparse(n)[:80]), bad, s.where(n))
                else:
                    ctx.ok("Q01.attribute")

    def own_world(self, ts, s):
        """code of one model only meets objects of that model"""
        w = self.meets(s)
        if w and any(t[0] == "inst" and self.world(t[1]) in w for t in ts):
            return {t for t in ts if t[0] != "inst" or self.world(t[1]) in w + ("all",)}
        return ts

    def meets(self, s, seen=()):
        """the models whose objects the code of a scope works on, or None for all"""
        w = {"flee.pflee": ("parallel", "micro"), "flee.pmicro_flee": ("parallel", "micro"), "flee.micro_InputGeography": ("micro",)}.get(s.module.name)
        if w is None and s.func is not None and s.cls is not None:
            for d in self.t.sub[s.cls]:
                if d.module.name.startswith("flee.micro_") and d.find(s.func.node.name) is not s.func:
                    return ("serial", "parallel")
        if w is None and s.func is not None and s.func not in seen:
            # a helper works on what its callers hand to it
            by = self.called_from().get(s.func, ())
            ws = [self.meets(c, seen + (s.func,)) for c in by if c.func is not s.func]
            if ws and None not in ws:
                return tuple(sorted({x for y in ws for x in y}))
        return w

    def called_from(self):
        if getattr(self, "_from", None) is None:
            self._from = collections.defaultdict(list)
            for s in self.t.scopes:
                for n in s.nodes:
                    if isinstance(n, ast.Call):
                        for t in self.t.ty(n.func, s):
                            if t[0] == "fn" and t[1] is not None:
                                self._from[t[1]].append(s)
        return self._from

    def lacking(self, ts, a):
        if not ts:
            return None
        verdict = {t: self.has(t, a) for t in ts}
        solid = {t: v for t, v in verdict.items() if v is not None}
        loose = [t for t in ts if verdict[t] is None and t[0] != "fn"]
        if loose and not any(t[0] == "inst" for t in ts):
            if all(t == UNKNOWN for t in loose):
                if a not in self.pkg_attrs and a not in BUILTIN_ATTRS and not any(solid.values()):
                    return "nothing in the package has an attribute %s" % a
            return None
        if loose and (a in BUILTIN_ATTRS or any(t[0] in ("inst", "cls") and verdict[t] is None for t in ts)):
            return None
        if not solid:
            return None
        if any(v and t[0] != "inst" for t, v in solid.items()):
            return None
        by = collections.defaultdict(list)
        for t, v in solid.items():
            by[self.world(t[1]) if t[0] in ("inst", "cls") else "all"].append((t, v))
        if "micro" in by:
            roles = {t[1].mro()[-1] for t, v in by["micro"]}
            by["micro"] = by["micro"] + [(t, v) for t, v in by.get("parallel", []) if t[0] in ("inst", "cls") and t[1].mro()[-1] not in roles]
        yes_all = any(v for t, v in by.get("all", []))
        for w, tv in sorted(by.items()):
            if w == "all" and len(by) > 1:
                continue
            if not any(v for t, v in tv) and not yes_all:
                return "%s: %s" % (w + " model" if w != "all" else "attribute", ", ".join(sorted({self.descr(t) for t, v in tv})) + " has no " + a)
            roles = collections.defaultdict(list)
            for t, v in tv:
                if t[0] == "inst":
                    roles[t[1].mro()[-1]].append((t, v))
            for r, rv in roles.items():
                if any(v for t, v in rv) and not all(v for t, v in rv):
                    return "%s has no %s, unlike %s" % (", ".join(sorted(self.descr(t) for t, v in rv if not v)), a, ", ".join(sorted(self.descr(t) for t, v in rv if v)))
        return None

    @staticmethod
    def descr(t):
        return t[1].qual if t[0] in ("inst", "cls", "super") else t[1].name if t[0] == "mod" else t[1]

    def stored(self, n, ts, s):
        for t in ts:
            if t[0] == "inst" and self.slots.get(t[1]) is not None:
                c = t[1]
                ok = n.attr in self.slots[c] or c.find(n.attr) is not None
                me = s.func is not None and s.cls is not None and s.func.params and isinstance(n.value, ast.Name) and n.value.id == s.func.params[0]
                self.ctx.check(ok or not me and len([x for x in ts if x[0] == "inst" and self.slots.get(x[1]) is None]) > 0, "Q01.slots", "%s|%s" % (s.name, ast.unparse(n)[:60]), "%s has no place for an attribute %s (__slots__)" % (c.qual, n.attr), s.where(n))

    # ---- argument lists
    def fits(self, params, kwonly, vararg, kwarg, defaults, npos, kws, star, dstar):
        if not star and not vararg and npos > len(params):
            return "%d arguments given, at most %d taken" % (npos, len(params))
        given = set(params[:npos])
        for k in kws:
            if k in given:
                return "argument %s given twice" % k
            if k not in params and k not in kwonly and not kwarg:
                return "there is no parameter %s" % k
        if not star and not dstar:
            for p in params[npos:] + kwonly:
                if p not in defaults and p not in kws:
                    return "no argument for %s" % p
        return None

    def calls(self):
        ctx = self.ctx
        for s in self.t.scopes:
            for n in s.nodes:
                if not isinstance(n, ast.Call):
                    continue
                star = any(isinstance(a, ast.Starred) for a in n.args)
                dstar = any(k.arg is None for k in n.keywords)
                npos = len([a for a in n.args if not isinstance(a, ast.Starred)])
                kws = [k.arg for k in n.keywords if k.arg is not None]
                ts = self.t.ty(n.func, s)
                res = collections.defaultdict(list)
                for t in ts:
                    w, me, f = "all", 0, None
                    if t[0] == "fn":
                        f = t[1]
                        me = 1 if t[2] is not None else 0
                        owner = t[2][1] if t[2] is not None and t[2][0] in ("inst", "cls") else f.cls
                        w = self.world(owner) if owner is not None else "all"
                    elif t[0] == "cls":
                        c = t[1]
                        if c.base_names and c.base_names != ["object"] or c.node.decorator_list or c.node.keywords:
                            res["all"].append((None, t))
                            continue
                        f = c.find("__init__")
                        me = 1
                        w = self.world(c)
                        if f is None:
                            r = None if not npos and not kws or star or dstar else "%s takes no arguments" % c.qual
                            res[w].append((r, t))
                            continue
                    elif t[0] == "bm":
                        res["all"].append((self.builtin_call(t, npos, kws, star, dstar), t))
                        continue
                    elif t[0] == "ext":
                        res["all"].append((self.ext_call(t[1], npos, kws, star, dstar), t))
                        continue
                    elif t[0] == "bn":
                        res["all"].append((self.ext_call("builtins." + t[1], npos, kws, star, dstar), t))
                        continue
                    elif t[0] in ("inst",):
                        res[self.world(t[1])].append((None if t[1].find("__call__") or t[1].base_names else "%s cannot be called" % t[1].qual, t))
                        continue
                    elif t[0] in ("box", "bi", "mod"):
                        res["all"].append(("%s cannot be called" % (t[1] if t[0] != "mod" else t[1].name), t))
                        continue
                    else:
                        res["all"].append((None, t))
                        continue
                    if set(self.decorators(f)) - DECORATORS:
                        res[w].append((None, t))
                        continue
                    r = self.fits(f.params, f.kwonly, f.vararg, f.kwarg, f.defaults, npos + me, kws, star, dstar)
                    res[w].append((r and "%s: %s" % (f.qual, r), t))
                bad = None
                w = self.meets(s)
                if w and any(k in res for k in w):
                    res = {k: v for k, v in res.items() if k in w + ("all",)}
                for w, rs in sorted(res.items()):
                    roles = collections.defaultdict(list)
                    for r, t in rs:
                        c = t[2][1] if t[0] == "fn" and t[2] is not None and t[2][0] in ("inst", "cls") else t[1] if t[0] == "cls" else None
                        if c is not None:
                            roles[c.mro()[-1], self.world(c)].append(r)
                    for rr in roles.values():
                        wrong = [r for r in rr if r]
                        if wrong and len(wrong) < len(rr):
                            bad = wrong[0]
                loose = any(r is None for r, t in res.get("all", []))
                if not loose:
                    for w, rs in sorted(res.items()):
                        if rs and all(r for r, t in rs):
                            if w == "all" and len(res) > 1:
                                continue
                            bad = rs[0][0]
                if bad:
                    ctx.fail("Q01.arguments", "%s|%s" % (s.name, ast.unparse(n.func)[:80]), bad, s.where(n))
                else:
                    ctx.ok("Q01.arguments")

    @staticmethod
    def decorators(f):
        return [d.id if isinstance(d, ast.Name) else getattr(d, "attr", None) or getattr(getattr(d, "func", None), "id", None) or getattr(getattr(d, "func", None), "attr", "?") for d in f.node.decorator_list]

    def sig(self, o, npos, kws, star, dstar):
        if star or dstar or o is None:
            return None
        try:
            g = inspect.signature(o)
        except (ValueError, TypeError):
            return None
        try:
            g.bind(*([None] * npos), **{k: None for k in kws})
        except TypeError as e:
            return str(e)
        return None

    def builtin_call(self, t, npos, kws, star, dstar):
        b, m = t[1], t[2]
        kind = b[1]
        if kind not in BI:
            return None
        o = getattr(BI[kind], m, None)
        if o is None or isinstance(inspect.getattr_static(BI[kind], m), (staticmethod, classmethod)) or m in ("fromkeys", "maketrans"):
            return None
        return self.sig(o, npos + 1, kws, star, dstar) and "%s.%s: %s" % (kind, m, self.sig(o, npos + 1, kws, star, dstar))

    def ext_call(self, name, npos, kws, star, dstar):
        if "()" in name:
            return None
        o, miss = self.out.obj(name)
        if o is None or not callable(o):
            return None
        r = self.sig(o, npos, kws, star, dstar)
        return r and "%s: %s" % (name, r)

    # ---- attributes that a new object may lack
    def definite(self, c, f, depth=0):
        """attributes an instance of c certainly has after f"""
        if f not in self.t.by_func or depth > 6 or not f.params:
            return set()
        me = f.params[0]
        ends = []

        def block(body, have):
            have = set(have)
            for st in body:
                have = stmt(st, have)
                if have is None:
                    return None
            return have

        def calls(e, have):
            for n in ast.walk(e):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    b = n.func.value
                    g = None
                    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super":
                        g = c.find_after(f.cls, n.func.attr)
                    elif isinstance(b, ast.Name) and b.id == me:
                        g = c.find(n.func.attr)
                    elif n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        r = self.prog.resolve_expr(f.module, b)
                        g = r.find(n.func.attr) if isinstance(r, Class) else None
                    if g is not None and g is not f:
                        have |= self.definite(c, g, depth + 1)
                elif isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == me for a in n.args):
                    for t in self.t.ty(n.func, self.t.by_func[f]):
                        if t[0] == "fn" and t[1].params and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                            have |= self.definite(c, t[1], depth + 1)

        def stmt(st, have):
            if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                if st.value is not None:
                    calls(st.value, have)
                    for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                                have.add(x.attr)
                return have
            if isinstance(st, ast.Expr):
                calls(st.value, have)
                if isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == "setattr":
                    pass
                return None if isinstance(st.value, ast.Call) and dotted(st.value.func) in EXITS else have
            if isinstance(st, ast.Return):
                ends.append(have)
                return None
            if isinstance(st, (ast.Raise, ast.Break, ast.Continue)):
                return None
            if isinstance(st, ast.If):
                a, b = block(st.body, have), block(st.orelse, have)
                return b if a is None else a if b is None else a & b
            if isinstance(st, (ast.For, ast.While)):
                block(st.body, have)
                return have
            if isinstance(st, ast.With):
                return block(st.body, have)
            if isinstance(st, ast.Try):
                a = block(st.body, have)
                outs = [a] + [block(h.body, have) for h in st.handlers]
                outs = [x for x in outs if x is not None]
                r = set.intersection(*outs) if outs else None
                if st.finalbody and r is not None:
                    r = block(st.finalbody, r)
                return r
            return have
        e = block(f.node.body, set())
        if e is not None:
            ends.append(e)
        return set.intersection(*ends) if ends else set()

    # conditions under which a node is reached
    def conditions(self, s):
        out = {}

        def mark(n, conds):
            for x in ast.walk(n):
                out[id(x)] = conds
            for x in ast.walk(n):
                if isinstance(x, ast.IfExp):
                    for y in ast.walk(x.body):
                        out[id(y)] = conds + conj(x.test)
                elif isinstance(x, ast.BoolOp) and isinstance(x.op, ast.And):
                    for k, v in enumerate(x.values):
                        for y in ast.walk(v):
                            out[id(y)] = out[id(y)] + [c for w in x.values[:k] for c in conj(w)]

        def ends(body):
            return bool(body) and (isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(body[-1], ast.Expr) and isinstance(body[-1].value, ast.Call) and dotted(body[-1].value.func) in EXITS
                                   or isinstance(body[-1], ast.If) and ends(body[-1].body) and ends(body[-1].orelse))

        def block(body, conds):
            conds = list(conds)
            for st in body:
                if isinstance(st, ast.If):
                    mark(st.test, conds)
                    no = negate(st.test)
                    block(st.body, conds + conj(st.test))
                    block(st.orelse, conds + no)
                    if ends(st.body):
                        conds = conds + no
                    elif st.orelse and ends(st.orelse):
                        conds = conds + conj(st.test)
                elif isinstance(st, (ast.For, ast.While, ast.With, ast.Try, ast.AsyncFor)):
                    for f in ("target", "iter", "test"):
                        if getattr(st, f, None) is not None:
                            mark(getattr(st, f), conds)
                    for it in getattr(st, "items", []):
                        mark(it, conds)
                    more = conj(st.test) if isinstance(st, ast.While) else []
                    block(st.body, conds + more)
                    for h in getattr(st, "handlers", []):
                        block(h.body, conds)
                    block(getattr(st, "orelse", []), conds)
                    block(getattr(st, "finalbody", []), conds)
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    block(st.body, conds)
                else:
                    mark(st, conds)
        block(s.body, [])
        return out

    def normal(self, c, s, depth=0):
        """a condition as ("truth", text) / ("from", text, least) / ("is", text, value) / ("not", ...) or None"""
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            r = self.normal(c.operand, s, depth)
            return ("not",) + r if r else None
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            l, r, o = c.left, c.comparators[0], c.ops[0]
            if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                l, r = r, l
                o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(o), type(o))()
            t = self.text(l, s, depth)
            if t is None or not isinstance(r, ast.Constant):
                return None
            v = r.value
            if isinstance(o, (ast.Gt, ast.GtE)) and isinstance(v, (int, float)):
                return ("from", t, v + 1 if isinstance(o, ast.Gt) and isinstance(v, int) else v)
            if isinstance(o, (ast.Lt, ast.LtE)) and isinstance(v, (int, float)):
                return ("not", "from", t, v if isinstance(o, ast.Lt) else v + 1)
            if isinstance(o, (ast.Eq, ast.Is)):
                return ("truth", t) if v is True else ("not", "truth", t) if v is False else ("is", t, v)
            if isinstance(o, (ast.NotEq, ast.IsNot)):
                return ("truth", t) if v is False else ("not", "truth", t) if v is True else ("from", t, 1) if v == 0 and isinstance(v, int) else ("not", "is", t, v)
            return None
        t = self.text(c, s, depth)
        return ("truth", t) if t is not None else None

    def text(self, e, s, depth=0):
        """the text of something that does not change during a run: a setting, or an attribute of the object given at construction"""
        if isinstance(e, ast.Name):
            st = [n for n in s.nodes if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)]
            vs = [n.value for n in s.nodes if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id]
            if len(st) == 1 and len(vs) == 1 and depth < 3:
                return self.text(vs[0], s, depth + 1)
            return None
        u = ast.unparse(e)
        k = u.find("SimulationSettings.")
        if k >= 0 and isinstance(e, (ast.Attribute, ast.Subscript)):
            return u[k:]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and s.func is not None and s.func.params and e.value.id == s.func.params[0] and s.cls is not None:
            return "self." + e.attr
        return None

    @staticmethod
    def implied(have, need):
        for h in have:
            if h == need:
                return True
            if need[0] == "from" and h[0] == "from" and h[1] == need[1] and h[2] >= need[2]:
                return True
            if need[0] == "from" and h[0] == "is" and h[1] == need[1] and isinstance(h[2], (int, float)) and h[2] >= need[2]:
                return True
            if need[0] == "truth" and h[0] == "from" and h[1] == need[1] and h[2] > 0:
                return True
            if need[0] == "from" and h[0] == "truth" and h[1] == need[1] and need[2] == 1:
                return True
        return False

    def init(self):
        """attributes a new object has only under some setting are read under that setting only"""
        ctx = self.ctx
        conds = {s: self.conditions(s) for s in self.t.scopes if s.func is not None}
        top = [s for s in self.t.scopes if s.func is None and "(module)" in s.name]
        for s in top:
            conds[s] = self.conditions(s)
        # conditions known at the start of every function: those of all its calls
        sites = collections.defaultdict(list)
        for s in conds:
            for n in s.nodes:
                if isinstance(n, ast.Call):
                    for t in self.t.ty(n.func, s):
                        if t[0] == "fn":
                            sites[t[1]].append((s, n))
                        elif t[0] == "cls" and t[1].find("__init__"):
                            sites[t[1].find("__init__")].append((s, n))

        def forms(s, n):
            got, vague = set(), False
            for c in conds[s].get(id(n), []):
                r = self.normal(c, s)
                if r is not None:
                    got.add(r)
                elif any(isinstance(x, ast.Call) and any(t[0] == "fn" for t in self.t.ty(x.func, s)) for x in ast.walk(c)) or any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and self.settled(x.id, s) for x in ast.walk(c)):
                    vague = True
            return got, vague
        entry = {f: None for f in self.t.by_func}
        loose = set()
        for _ in range(6):
            for f in entry:
                acc = None
                for s, n in sites.get(f, []):
                    g, vague = forms(s, n)
                    if s.func is not None:
                        g = g | (entry[s.func] or set())
                        if s.func in loose:
                            vague = True
                    if vague:
                        loose.add(f)
                    acc = g if acc is None else acc & g
                entry[f] = {x for x in acc if "SimulationSettings" in str(x)} if acc else set()
        for c in self.t.classes:
            i = c.find("__init__")
            if i is None or c.base_names and c.base_names != ["object"]:
                continue
            sure = self.definite(c, i)
            chain = self.chain(c, i)
            early = {i} | {f for f in chain if all(x.func in chain for x, _ in sites.get(f, [])) and sites.get(f)}
            stores = collections.defaultdict(list)
            for f in chain:
                s = self.t.by_func.get(f)
                if s is None or not f.params:
                    continue
                for n in s.nodes:
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.params[0]:
                        stores[n.attr].append((s, n))
            some = {a for a in stores if a not in sure and c.class_attr(a) is None and not any(("ca", d, a) in self.t.node for d in c.mro())}
            for a in sorted(some):
                needs = [[self.normal(x, s) for x in conds[s].get(id(n), [])] for s, n in stores[a]]
                needs = [[x for x in g if x is not None] for g in needs if all(x is not None for x in g)]
                for s in conds:
                    for n in s.nodes:
                        if not (isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Load)):
                            continue
                        ts = self.t.ty(n.value, s)
                        if ("inst", c) not in ts or s.func in early:
                            continue
                        if not needs:
                            continue
                        here = s.func is not None and any(isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Store) and x.lineno < n.lineno for x in s.nodes)
                        asked = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") for x in s.nodes)
                        g, vague = forms(s, n)
                        if s.func is not None:
                            g = g | (entry[s.func] or set())
                            vague = vague or s.func in loose
                        ok = here or asked or vague or any(all(self.implied(g, x) for x in need) for need in needs)
                        self.ctx.check(ok, "Q01.created", "%s|%s" % (s.name, ast.unparse(n)[:60]), "%s has the attribute %s only if it was created under %s, which is not asked here" % (c.qual, a, " or ".join(" and ".join(str(x) for x in g2) for g2 in needs)), s.where(n))
        return

    def settled(self, name, s):
        return any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) and "SimulationSettings" in ast.unparse(n.value) for n in s.nodes)

    def chain(self, c, i):
        """the methods that run while an instance is created"""
        out, todo = {i}, [i]
        while todo:
            f = todo.pop()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    b = n.func.value
                    g = None
                    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super":
                        g = c.find_after(f.cls, n.func.attr)
                    elif isinstance(b, ast.Name) and f.params and b.id == f.params[0]:
                        g = c.find(n.func.attr)
                    if g is not None and g not in out:
                        out.add(g)
                        todo.append(g)
        return out


def negate(e):
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
        return [y for x in e.values for y in negate(x)]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return conj(e.operand)
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in NEG:
        return [ast.Compare(left=e.left, ops=[NEG[type(e.ops[0])]()], comparators=e.comparators)]
    return [ast.UnaryOp(op=ast.Not(), operand=e)]


NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def q01(ctx):
    n = Names(ctx)
    n.names()
    n.bound()
    n.attrs()
    n.calls()
    n.init()
    for f in n.t.by_func:
        ctx.paths_seen += 1
        ctx.funcs.add(f.qual)
    ctx.need("functions looked at", len(n.t.by_func), 60)
    ctx.need("calls looked at", ctx.obl.get("Q01.arguments", 0), 500)


RULES = {"Q01": q01}
EXPLAIN = {"Q01": "Every name, import, attribute, call and variable of the package (without the plotting and preprocessing tools) and its run scripts is looked at in place, on every branch. "
           "Which objects an expression may stand for is inferred for the whole program at once, ignoring the order of statements, with the classes of the serial, parallel and micro model kept apart. "
           "Rules: a name has a definition in scope (Q01.name); an import names something that exists (Q01.import); every object of one model an expression may stand for has the attribute read from it (Q01.attribute, Q01.slots); "
           "the argument list suits every function of one model that may be called (Q01.arguments); a local variable is assigned on every way to its use, loops taken to run at least once (Q01.value); "
           "an attribute that a new object only has under some setting is only read under that setting (Q01.created). Objects from outside the package are compared with the interface of the standard library and the stub files of installed packages; "
           "what nobody can tell (results of foreign calls, containers filled elsewhere) is let pass."}
