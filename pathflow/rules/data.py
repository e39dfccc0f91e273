"""D01: data tables"""
import datetime
from ..report import *          # noqa
from ..report import mk, T
from ..terms import NONE, const
from .. import replay as R
from .routing import is_sym
from .inputs import known, own, one_way, attempt

TABLE = "flee.datamanager.DataTable"
REF = "flee.datamanager.handle_refugee_data"


STOPS = {"_find_headerindex", "get_interpolated_data", "get_raw_data", "get_field", "get_daily_difference", "subtract_dates", "_processEntry", "ConvertCsvFileToNumPyTable", "AddCSVTables"}


def folder(ctx, fn, stops=STOPS):
    """the paths of one function; those it shares the work with are kept apart, helpers are followed"""
    return ctx.paths("serial", fn, stop=stops - {fn.name})


def sym(name):
    return is_sym(name)


def solid(v):
    if isinstance(v, R.Obj):
        raise R.Unknown("%r" % v)
    if isinstance(v, (list, tuple)):
        for x in v:
            solid(x)
    return v


class Fn:
    def __init__(self, ctx, mod, ref, stops=STOPS, rule="D01"):
        self.ctx, self.name, self.rule = ctx, ref, rule
        if "." in ref:
            k, f = ref.split(".")
            c = ctx.prog.cls(mod, k)
            self.fn = c.find(f) if c is not None else None
        else:
            self.fn = ctx.prog.func(mod, ref)
        if self.fn is None:
            raise AnalysisBroken("function vanished: %s.%s" % (mod, ref))
        self.ps = folder(ctx, self.fn, stops)

    def way(self, env, calls):
        b = R.Bind(known(env), calls=calls)
        return R.the_way([p for p in self.ps if p.exit != "raise"], b, self.fn.qual)

    def run(self, env, calls=(), what=""):
        """(exit, value) for these inputs, or None"""
        def f():
            p, b = self.way(env, dict(calls))
            return (p.exit, solid(R.value(p.value, p, b)) if p.exit == "return" and p.value is not None else None)
        return attempt(self.ctx, self.rule, "%s %s" % (self.fn.qual, what), f)

    def events(self, env, calls=(), what="", only=None):
        def f():
            p, b = self.way(env, dict(calls))
            return list(R.replay(p, b, only)), p, b
        return attempt(self.ctx, self.rule, "%s %s" % (self.fn.qual, what), f)

    @property
    def where(self):
        return self.fn.where()


TABLES = {"one record": [[3, 7]], "two records": [[2, 10], [10, 50]], "four records": [[-4, 8], [0, 40], [4, 20], [12, 100]], "three records": [[0, 0], [10, 7], [13, 3]]}


def straight(rows, day):
    if day <= rows[0][0]:
        return rows[0][1]
    for (d0, v0), (d1, v1) in zip(rows, rows[1:]):
        if day < d1:
            return int(v0 + (day - d0) / (d1 - d0) * (v1 - v0))
    return rows[-1][1]


def step(rows, day):
    v = rows[0][1]
    for d, x in rows:
        if d <= day:
            v = x
    return v


def mats(rows):
    """the series asked for among others"""
    return [R.Mat([[0, 900], [5, 901]]), R.Mat([[float(x) for x in r] for r in rows]), R.Mat([[1, 700], [2, 701]])]


def d01(ctx):
    lookups(ctx)
    fields(ctx)
    differences(ctx)
    reading(ctx)
    corrections(ctx)


# ---- values of a day -----------------------------------------------------------
def lookups(ctx):
    n = 0
    for name, spec, say in (("get_interpolated_data", straight, "on the line between the records around it"), ("get_raw_data", step, "of the last record")):
        f = Fn(ctx, TABLE, "DataTable." + name)
        for label, rows in TABLES.items():
            for day in range(rows[0][0] - 3, rows[-1][0] + 4):
                env = [(own("data_table"), mats(rows)), (sym("column"), 1), (sym("day"), day), (own("total_refugee_column"), 1), (own("days_column"), 0), (own("header"), ["total", "A", "B"])]
                got = f.run(env, what="(%s, day %d)" % (label, day))
                if got is None:
                    continue
                n += 1
                ctx.check(got[0] == "return" and got[1] == spec(rows, day), "D01." + ("line" if spec is straight else "step"), "%s (%s)" % (f.fn.qual, label),
                          "with %s, day %d gives %s, not %s (%s)" % (rows, day, got[1], spec(rows, day), say), f.where)
        # the columns of the table
        rows = [[30, 1, 5], [90, 2, 9]]
        for day in (0, 1, 2, 3):
            env = [(own("data_table"), [R.Mat([[1, 1, 1]]), R.Mat(rows)]), (sym("column"), 1), (sym("day"), day), (own("total_refugee_column"), 0), (own("days_column"), 1), (own("header"), ["a", "b"])]
            got = f.run(env, what="(other columns, day %d)" % day)
            if got is not None:
                w = spec([[r[1], r[0]] for r in rows], day)
                ctx.check(got == ("return", w), "D01.columns", f.fn.qual, "days in column 1 and counts in column 0: day %d gives %s, not %s" % (day, got[1], w), f.where)
    ctx.need("lookups of days", n, 40)
    f = Fn(ctx, TABLE, "DataTable.is_interpolated")
    for label, rows in TABLES.items():
        for day in range(rows[0][0] - 2, rows[-1][0] + 3):
            env = [(own("data_table"), mats(rows)), (sym("name"), "A"), (sym("day"), day), (own("days_column"), 0), (own("total_refugee_column"), 1), (own("header"), ["total", "A", "B"])]
            got = f.run(env, what="(%s, day %d)" % (label, day))
            if got is not None:
                want = day not in [d for d, _ in rows]
                ctx.check(got[0] == "return" and bool(got[1]) is want, "D01.recorded", "%s (%s)" % (f.fn.qual, label), "with records on days %s, day %d counts as %s" % (
                    [d for d, _ in rows], day, "interpolated" if got[1] else "recorded"), f.where)


# ---- the series of a name --------------------------------------------------------
HEAD = ["total", "Alpha", "Beta", "Alpha2"]


def fields(ctx):
    f = Fn(ctx, TABLE, "DataTable._find_headerindex")
    n = 0
    for name in HEAD + ["alpha", "Gamma", ""]:
        got = f.run([(own("header"), list(HEAD)), (sym("name"), name)], what="(%r)" % name)
        if got is None:
            continue
        n += 1
        if name in HEAD:
            ctx.check(got == ("return", HEAD.index(name)), "D01.series", f.fn.qual, "the series of %r of %s is number %s" % (name, HEAD, got[1]), f.where)
        else:
            ctx.check(got[0] == "exit", "D01.series", f.fn.qual + " unknown", "a name without a series (%r) stands for series %s" % (name, got[1]), f.where)
    ctx.need("series of names", n, 4)
    f = Fn(ctx, TABLE, "DataTable.get_field")
    calls = {"_find_headerindex": lambda name=None, **k: HEAD.index(k.get("name", name)), "get_interpolated_data": lambda column=None, day=None: 1000 * column + day,
             "get_raw_data": lambda column=None, day=None: -1000 * column - day}
    n = 0
    for name in HEAD:
        for day in (0, 7):
            for full in (True, False):
                for empty in (0, 1):
                    for pops in ({}, {"Alpha": 300, "total": 900}):
                        env = [(sym("name"), name), (sym("day"), day), (sym("FullInterpolation"), full), (own("day0pops"), dict(pops)), (own("start_empty"), empty), (own("header"), list(HEAD))]
                        got = f.run(env, calls, "(%s, day %d)" % (name, day))
                        if got is None:
                            continue
                        n += 1
                        i = HEAD.index(name)
                        want = (1000 * i + day if full else -1000 * i - day) - (pops.get(name, 0) if empty else 0)
                        ctx.check(got == ("return", want), "D01.field", "%s%s%s" % (f.fn.qual, "" if full else " without interpolation", " starting empty" if empty else ""),
                                  "the value of %r (series %d) on day %d%s is %s%s, not that of its own series and day" % (name, i, day, ", starting empty from %s" % pops if empty else "", "" if got[0] == "return" else "exit ", got[1]), f.where)
    ctx.need("values of named series", n, 16)


# ---- daily differences -----------------------------------------------------------
def differences(ctx):
    f = Fn(ctx, TABLE, "DataTable.get_daily_difference")
    n = 0
    for head in (["total"], ["total", "A"], ["total", "A", "B", "C"]):
        val = lambda name, day, full: {"total": 100000, "A": 100, "B": 2000, "C": 30000}[name] + (len(name) + ord(name[0])) * day * day + (0 if full else 7 * day)

        def get_field(name=None, day=None, FullInterpolation=True):
            if name not in head or not isinstance(day, int):
                raise R.Fails("the series %r is looked up on day %r" % (name, day))
            return val(name, day, FullInterpolation)
        for day in (0, 1, 2, 9):
            for camps in (True, False):
                for full in (True, False):
                    for empty in (0, 1):
                        env = [(sym("day"), day), (sym("FullInterpolation"), full), (sym("SumFromCamps"), camps), (sym("Debug"), False), (sym("day_column"), 0), (sym("count_column"), 1),
                               (own("header"), list(head)), (own("start_empty"), empty), (own("day0pops"), {})]
                        got = f.run(env, {"get_field": get_field}, "(%d series, day %d)" % (len(head), day))
                        if got is None:
                            continue
                        n += 1
                        names = head[1:] if camps else ["total"]
                        label = "%s (%s, %s)" % (f.fn.qual, "first day" if day == 0 else "later days", "sum of the places" if camps else "total")
                        if day == 0:
                            want = sum(val(x, 0, full) for x in names) * (1 - empty)
                            if camps and not empty and got == ("return", sum(val(x, 0, full) for x in head)):
                                ctx.fail("D01.firstday", f.fn.qual, "the first day counts the total series on top of the places (%s instead of %s)" % (got[1], want), f.where)
                                continue
                        else:
                            want = sum(val(x, day, full) - val(x, day - 1, full) for x in names)
                        ctx.check(got == ("return", want), "D01.difference", label, "with series %s the difference of day %d is %s, not %s" % (head, day, got[1], want), f.where)
    ctx.need("daily differences", n, 30)
    # what the first day leaves behind
    for pops in ({}, {"A": 60, "total": 5}):
        env = [(sym("day"), 0), (sym("FullInterpolation"), True), (sym("SumFromCamps"), True), (sym("Debug"), False), (sym("day_column"), 0), (sym("count_column"), 1),
               (own("header"), ["total", "A", "B"]), (own("start_empty"), 1), (own("day0pops"), dict(pops))]
        mine = lambda e: e.kind == "subwrite" and own("day0pops")(e.base)
        got = f.events(env, {"get_field": lambda name=None, day=None, FullInterpolation=True: {"total": 500, "A": 100, "B": 400}[name]}, "(first day)", mine)
        if got is None:
            continue

        def left():
            d = dict(pops)
            for e, q, b in got[0]:
                d[R.value(e.d["key"], q, b)] = R.value(e.value, q, b)
            return d
        d = attempt(ctx, "D01", f.fn.qual + " offsets", left)
        if d is None:
            continue
        for x, v in (("A", pops.get("A", 100)), ("B", 400)):
            ctx.check(d.get(x) == v, "D01.offset", f.fn.qual, "the offset kept for %r is %s, not its value of the first day (%s)" % (x, d.get(x), v), f.where)
    # the columns later lookups use
    for p in f.ps:
        for a, k in (("total_refugee_column", "count_column"), ("days_column", "day_column")):
            ws = [o.ev.value for o in flatten(p) if o.ev.kind == "write" and o.ev.attr == a]
            if ws:
                ctx.check(is_sym(k)(ws[-1]) or ws[-1].op == "const" and ws[-1].args[0] == {"count_column": 1, "day_column": 0}[k], "D01.columns", f.fn.qual + "|" + a,
                          "%s is set to %s" % (a, T.show(ws[-1])), f.where, witness(p))
    try:
        g = Fn(ctx, REF, "RefugeeTable.get_new_refugees")
    except AnalysisBroken:
        return

    def differ(day=None, day_column=0, count_column=1, Debug=False, FullInterpolation=True, SumFromCamps=True):
        return ("difference", day, day_column, count_column, FullInterpolation, SumFromCamps)
    for full in (True, False):
        got = g.run([(sym("day"), 5), (sym("FullInterpolation"), full), (sym("Debug"), False)], {"get_daily_difference": differ})
        if got is not None:
            ctx.check(got == ("return", ("difference", 5, 0, 1, full, True)), "D01.newcomers", g.fn.qual, "the newcomers of day 5 are %s" % (got[1],), g.where)


# ---- reading ---------------------------------------------------------------------
START = "2012-02-27"


def days(date1=None, date2=None):
    d = lambda x: datetime.date.fromisoformat(x)
    return (d(date1) - d(date2)).days


ROWS = [(["2012-03-01", "40", "8"], 3), (["2012-02-20", "16", "24"], -7), (["# 2012-03-05", "5", "6"], None), (["2012-03-09", "", "6"], None), (["2012-03-09"], None), ([], None),
        (["2013-02-27", "0", "4"], 366)]


def reading(ctx):
    f = Fn(ctx, TABLE, "subtract_dates")
    n = 0
    for a, b in (("2012-03-01", "2012-02-27"), ("2012-02-27", "2012-03-01"), ("2013-01-01", "2012-12-31"), ("2014-05-05", "2014-05-05")):
        got = f.run([(sym("date1"), a), (sym("date2"), b)])
        if got is not None:
            n += 1
            ctx.check(got == ("return", days(a, b)), "D01.days", f.fn.qual, "from %s to %s are %s days" % (b, a, got[1]), f.where)
    f = Fn(ctx, TABLE, "_processEntry")
    m = 0
    for row, day in ROWS:
        for kind in ("int", "float"):
            for scale in (1, 4):
                for col in (1, 2):
                    before = [[0.0, 1.0]]
                    env = [(sym("row"), list(row)), (sym("table"), R.Mat(before)), (sym("data_type"), kind), (sym("date_column"), 0), (sym("count_column"), col), (sym("start_date"), START),
                           (sym("population_scaledown_factor"), scale)]
                    got = f.run(env, {"subtract_dates": days}, "(%s)" % row)
                    if got is None:
                        continue
                    m += 1
                    want = before + ([[day, int(row[col]) / scale]] if day is not None else [])
                    if day is None and len(row) > 2 and row[1] == "" and col == 2:
                        continue
                    ctx.check(got[0] == "return" and [list(r) for r in got[1]] == want, "D01.entry", "%s (%s)" % (f.fn.qual, "a record" if day is not None else "no record"),
                              "the row %s (start %s, column %d, scale %d) leads to %s" % (row, START, col, scale, got[1]), f.where)
    ctx.need("records read", m, 20)
    f = Fn(ctx, TABLE, "ConvertCsvFileToNumPyTable")
    isnext = lambda t: t.op in ("call", "result") and t.args[0] == "next"
    isread = lambda t: t.op == "result" and t.args[0].split(".")[-1] == "reader"
    data = [["2012-03-01", "40"], ["2012-03-02", "50"], ["#x", "1"], ["2012-03-04", "60"]]
    k = 0
    for label, rows in (("no heading", data), ("heading Date", [["Date", "count"]] + data), ("heading DateTime", [["DateTime", "count"]] + data), ("comment first", [["#Date", "count"]] + data),
                        ("a blank row first", [[]] + data), ("only a heading", [["Date", "count"]])):
        def entry(row=None, table=None, data_type=None, date_column=None, count_column=None, start_date=None, population_scaledown_factor=1):
            if len(row) < 2 or row[0][0] == "#" or row[1] == "":
                return table
            if (date_column, count_column, start_date, population_scaledown_factor, data_type) != (0, 1, START, 4, "int"):
                raise R.Fails("a row is read with the columns, start or scale %s" % ((date_column, count_column, start_date, population_scaledown_factor, data_type),))
            return R.Mat(list(table) + [[days(row[0], START), int(row[1]) / 4]])
        taken = []
        for p in f.ps:
            for t in [v for e in p.events for v in e.d.values() if isinstance(v, T.Term)] + [a for g in (p.alts or [p.cons]) for a in g]:
                for x in T.walk(t):
                    if isnext(x) and x not in taken:
                        taken.append(x)
        taken.sort(key=lambda t: t.args[-1] if isinstance(t.args[-1], int) else 0)
        if len(taken) > len(rows):
            continue
        env = [((lambda t, x=x: t is x), list(rows[n])) for n, x in enumerate(taken)]
        env += [(isread, [list(r) for r in rows[len(taken):]]), (sym("data_type"), "int"), (sym("date_column"), 0), (sym("count_column"), 1), (sym("start_date"), START),
               (sym("population_scaledown_factor"), 4)]
        got = f.run(env, {"_processEntry": entry}, "(%s)" % label)
        if got is None:
            continue
        k += 1
        want = [[days(r[0], START), int(r[1]) / 4] for r in rows if len(r) > 1 and r[0][0] not in "#D"]
        ctx.check(got[0] == "return" and [list(r) for r in got[1]] == want, "D01.file", "%s (%s)" % (f.fn.qual, label), "a file with rows %s becomes %s" % (rows, got[1]), f.where)
    ctx.need("files read", k, 3)
    # every name gets its own file
    f = Fn(ctx, TABLE, "DataTable.__init__")
    rows = [["total", "t.csv"], ["#A", "no.csv"], ["A", "a.csv", "a2.csv", "a3.csv"], [], ["B", "b.csv"], ["C"]]
    calls = {"ConvertCsvFileToNumPyTable": lambda csv_name=None, data_type="int", date_column=0, count_column=1, start_date="2012-02-29", population_scaledown_factor=1:
             (csv_name, start_date, population_scaledown_factor), "AddCSVTables": lambda table1=None, table2=None: ("+", table1, table2),
             "join": lambda *a: "/".join(a), "reader": lambda *a, **k: [list(r) for r in rows]}
    for empty in (True, False):
        env = [(sym("data_directory"), "dir"), (sym("data_layout"), "layout.csv"), (sym("start_date"), START), (sym("population_scaledown_factor"), 5), (sym("start_empty"), empty), (sym("csvformat"), "generic")]

        def built():
            p, b = f.way(env, calls)
            d = {}
            for e, q, bb in R.replay(p, b, lambda e: e.kind in ("mutate", "write")):
                if e.kind == "write" and is_sym("self")(e.base):
                    d[e.attr] = R.value(e.value, q, bb) if e.attr not in ("header", "data_table") else d.get(e.attr, [])
                if e.kind == "mutate" and e.method == "append":
                    nm = e.base.args[1] if e.base.op == "attr" else next((k[1] for k, v in p.state.heap.items() if v is e.base and k[1] in ("header", "data_table")), None)
                    if nm in ("header", "data_table"):
                        d.setdefault(nm, []).append(R.value(e.args[0], q, bb))
            return d
        d = attempt(ctx, "D01", f.fn.qual, built)
        if d is None:
            continue
        one = lambda x: ("dir/" + x, START, 5)
        want = [("total", one("t.csv")), ("A", ("+", ("+", one("a.csv"), one("a2.csv")), one("a3.csv"))), ("B", one("b.csv"))]
        got = list(zip(d.get("header", []), d.get("data_table", [])))
        ctx.check(d.get("header") == [x for x, _ in want], "D01.layout", f.fn.qual + " names", "the names of the layout file %s become %s" % ([r[:1] for r in rows], d.get("header")), f.where)
        ctx.check(got == want and len(d.get("header", ())) == len(d.get("data_table", ())), "D01.layout", f.fn.qual + " series", "the layout rows %s become %s" % (rows, got), f.where)
        ctx.check(bool(d.get("start_empty")) is empty and d.get("start_empty") in (0, 1), "D01.layout", f.fn.qual + " start_empty", "start_empty=%s is kept as %s" % (empty, d.get("start_empty")), f.where)
        ctx.check(d.get("days_column") == 0 and d.get("total_refugee_column") == 1 and d.get("start_date") == START, "D01.layout", f.fn.qual + " columns", "the columns and start are %s" % (
            [d.get(k) for k in ("days_column", "total_refugee_column", "start_date")],), f.where)


# ---- corrections -----------------------------------------------------------------
def corrections(ctx):
    try:
        f = Fn(ctx, REF, "RefugeeTable.correctLevel1Registrations")
    except AnalysisBroken:
        return
    rows = [[-6, 16], [-4, 8], [0, 40], [4, 20], [12, 100]]
    n = 0
    for day, pops in [(d, {}) for d in (-2, -4, -6, 0, 4, 5, 12, 13)] + [(4, {"A": 10, "total": 7}), (12, {"B": 3})]:
        tab = mats(rows)
        env = [(own("data_table"), tab), (sym("name"), "A"), (sym("date"), "the day"), (own("start_date"), START), (own("header"), ["total", "A", "B"]), (own("day0pops"), pops),
               (own("total_refugee_column"), 1), (own("days_column"), 0)]
        calls = {"_find_headerindex": lambda name=None, **k: ["total", "A", "B"].index(k.get("name", name)), "subtract_dates": lambda date1=None, date2=None: day if (date1, date2) == ("the day", START) else R.fail(const("dates"))}

        def after():
            import copy
            p, b = f.way(env, calls)
            out = [R.Mat(x) for x in tab]
            for e, q, bb in R.replay(p, b, lambda e: e.kind in ("subwrite", "mutate")):
                if e.kind != "subwrite":
                    raise R.Unknown(e.kind)
                base, key = R.value(e.base, q, bb), R.value(e.d["key"], q, bb)
                i = next((i for i, x in enumerate(tab) if [list(r) for r in x] == [list(r) for r in base]), None)
                if i is None:
                    raise R.Unknown("what is written to")
                out[i].put(key, R.value(e.value, q, bb))
            return p.exit, out
        got = attempt(ctx, "D01", "%s (day %d)" % (f.fn.qual, day), after)
        empty = pops.get("A", 0)
        if got is None:
            continue
        n += 1
        want = [R.Mat(x) for x in mats(rows)]
        i = next((i for i, r in enumerate(rows) if r[0] == day), 0)
        if day >= 0 and i > 0:
            for r in range(i):
                want[1][r][1] *= (rows[i][1] + empty) / (rows[i - 1][1] + empty)
        flat = lambda ms: [[[round(float(v), 9) for v in r] for r in x] for x in ms]
        ctx.check(flat(got[1]) == flat(want), "D01.corrected", f.fn.qual, "correcting %s on day %d leads to %s" % (rows, day, flat(got[1])), f.where)
    if not n:
        ctx.notes.append("D01: corrections are not followed")


RULES = {"D01": d01}
EXPLAIN = {
    "D01": "every lookup and reading function of the data tables is folded over small tables, days before, on, between and after the records, and layouts; the value must be that of the named series",
}
