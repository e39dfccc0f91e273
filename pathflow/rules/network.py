"""N01-N04, L01: closures, links, borders, location types"""
import ast
from ..report import *          # noqa
from ..report import mk, T
from ..model import AnalysisBroken
from ..terms import NONE, TRUE, FALSE, const

ECO = mk("sym", "self", ty="Ecosystem")
LINKOPS = {"_remove_link_1way", "_reopen_link_1way", "close_link", "reopen_link", "remove_link"}
ENDED = ("return", "norm", None)


def sym(name, ty="str"):
    return mk("sym", name, ty=ty)


def guards(p):
    return p.alts or [p.cons]


def strip_id(t):
    return T.strip(t)


def is_locs(t):
    return is_attr(t, "locations") and t.args[0].op == "sym"


def loc_of_name(t):
    """the location a name term belongs to: attr(L,'name') or locationNames[i] -> canonical key"""
    if t is None:
        return None
    if is_attr(t, "name"):
        return loc_key(t.args[0])
    if t.op == "elem" and is_attr(t.args[0], "locationNames"):
        return ("pos", t.args[1])
    if t.op == "idx" and is_attr(t.args[0], "locationNames"):
        return loc_key(mk("idx", mk("attr", t.args[0].args[0], "locations", 0), t.args[1]))
    return None


def loc_key(t):
    """two terms denoting the same element of the ecosystem's parallel lists get the same key"""
    if t.op == "elem" and is_attr(t.args[0], "locations"):
        return ("pos", t.args[1])
    if t.op == "idx" and is_attr(t.args[0], "locations") and t.args[1].op == "index" and is_attr(t.args[1].args[0], ("locationNames")):
        return ("pos", t.args[1].args[1])
    if t.op == "idx" and is_attr(t.args[0], "locations") and t.args[1].op == "index":
        return ("pos", t.args[1].args[1])
    return ("term", t)


def name_eq(atom, want):
    """eq atom between the name of some location and a given term -> location key"""
    if atom.op != "eq":
        return None
    a, b = atom.args[0], atom.args[1]
    for x, y in ((a, b), (b, a)):
        if y is want:
            k = loc_of_name(x)
            if k is not None:
                return k
    return None


def eq_other(atom, pred):
    """eq atom with one side satisfying pred -> the other side"""
    if atom.op != "eq":
        return None
    a, b = atom.args[0], atom.args[1]
    if pred(a):
        return b
    if pred(b):
        return a
    return None


# ---- N01 ---------------------------------------------------------------------
CLOSURES = {
    "country": (("close_border", "C1", "C2", "W"), ("reopen_border", "C1", "C2", "W")),
    "location": (("close_location", "C1", "W"), ("reopen_location", "C1", "W")),
    "link": (("close_link", "C1", "C2", "W"), ("reopen_link", "C1", "C2", "W")),
    "camp": (("close_camp", "C1", False), ("open_camp", "C1", False)),
    "idpcamp": (("close_camp", "C1", True), ("open_camp", "C1", True)),
    "remove_forced_redirection": (("set_forced_redirection", "C1", "C2", False), ("set_forced_redirection", "C1", "C2", True)),
}
OPS = {o[0] for v in CLOSURES.values() for o in v}
OPS_ARITY = {"close_border": 3, "reopen_border": 3, "close_location": 2, "reopen_location": 2, "close_link": 3, "reopen_link": 3,
             "close_camp": 2, "open_camp": 2, "set_forced_redirection": 3}


def opname(e):
    return e.name.split(".")[-1] if e.kind == "call" else None


def positional(e, n):
    """argument terms by position of the called function's parameters"""
    out = []
    ps = e.fn.params[1:] if e.fn is not None else []
    for i in range(n):
        v = None
        for k, t in e.args:
            if i < len(ps) and k == ps[i] or k == "#%d" % i:
                v = t
        out.append(v)
    return out


def n01(ctx):
    for w in ("serial", "parallel"):
        fn = ctx.method(w, "Ecosystem.enact_border_closures")
        ps = ctx.paths(w, fn, stop=OPS)
        time = sym("time", "int")
        nloops = 0
        for p in ps:
            if p.exit not in ENDED:
                ctx.fail("N01.completes", fn.qual, "enacting the closures can stop early (%s)" % p.exit, fn.where(fn.node), witness(p))
                continue
            for o in flatten(p):
                e = o.ev
                if e.kind == "call" and opname(e) in OPS and not any(is_attr(l.iter, "closures") for l, _ in o.loops):
                    ctx.fail("N01.entry", opname(e), "a closure operation runs outside the list of closures", e.where)
            lps = [o for o in flatten(p) if o.ev.kind == "loop" and is_attr(o.ev.iter, "closures", ECO)]
            if not lps:
                # nothing to do only when there are no closures
                emp = mk("nonempty", mk("attr", ECO, "closures", 0), ty="bool")
                ok = all(any(a.op == "nonempty" and is_attr(a.args[0], "closures", ECO) and v is False for a, v in g.items()) for g in guards(p))
                ctx.check(ok, "N01.walked", fn.qual, "there are days on which the list of closures is not walked", fn.where(fn.node), witness(p))
                continue
            ctx.check(len(lps) == 1, "N01.walked", fn.qual, "the list of closures is walked %d times" % len(lps), fn.where(fn.node))
            for o in lps:
                nloops += 1
                loop_closures(ctx, w, fn, o.ev, time)
        ctx.need("walks over the closures (%s)" % w, nloops)


def loop_closures(ctx, w, fn, lp, time):
    c = lp.elem if lp.elem.op == "elem" else mk("elem", lp.iter, lp.lid)
    if lp.elem.op == "tuple":
        for x in lp.elem.args:
            if x.op == "elem":
                c = x

    def fld(i):
        return lambda t: t.op == "idx" and t.args[0].op in ("elem", "idx") and is_attr(t.args[0].args[0], "closures") and t.args[1] is const(i)
    seen = {}
    where = fn.where(lp.astn)
    for q in lp.paths:
        ctx.check(q.exit in ("norm", "continue", None), "N01.completes", fn.qual + " loop", "a closure entry ends the walk over the others (%s)" % q.exit, where, witness(q))
        ops = [o for o in flatten(q) if o.ev.kind == "call" and opname(o.ev) in OPS]
        for g in guards(q):
            phase = {3: None, 4: None}
            kinds = {}
            other = []
            for a, v in g.items():
                hit = False
                for i in (3, 4):
                    x = eq_other(a, fld(i))
                    if x is not None and T.strip(x) is time:
                        phase[i] = v
                        hit = True
                x = eq_other(a, fld(0))
                if x is not None and x.op == "const":
                    kinds[x.args[0]] = v
                    hit = True
                if not hit:
                    other.append((a, v))
            if other and not ops:
                # an irrelevant guard may make nothing happen only if nothing is due
                pass
            kind = [k for k, v in kinds.items() if v is True]
            want = []
            for i, ph in ((3, 0), (4, 1)):
                if phase[i] is True:
                    if kind and kind[0] in CLOSURES:
                        want.append(CLOSURES[kind[0]][ph])
                        seen[(kind[0], ph)] = seen.get((kind[0], ph), 0) + 1
                    else:
                        miss = [k for k in CLOSURES if kinds.get(k) is not False]
                        ctx.check(not miss, "N01.kind", "%s of %s" % (("start", "end")[ph], "/".join(miss)),
                                  "on the %s day of an entry of this kind nothing is done" % ("start", "end")[ph], where, ["when %s is %s" % (T.show(a), v) for a, v in g.items()])
                elif phase[i] is None and not (kinds and all(kinds.get(k) is False for k in CLOSURES)) and kind != [] and phase[7 - i] is not None:
                    ctx.fail("N01.kind", "%s of %s" % (("start", "end")[ph], kind[0] if kind else "any"), "the %s day of the entry is not looked at" % ("start", "end")[ph], where)
                elif phase[i] is None and phase[7 - i] is None and not (kinds and all(kinds.get(k) is False for k in CLOSURES)):
                    ctx.fail("N01.kind", "any", "entries are handled without comparing their days with the current day", where, ["when %s is %s" % (T.show(a), v) for a, v in g.items()])
            got = [(opname(o.ev),) + tuple(positional(o.ev, OPS_ARITY[opname(o.ev)])) for o in ops]
            W = sym("twoway", None)

            def match(wop, gop):
                if wop[0] != gop[0]:
                    return False
                for x, y in zip(wop[1:], gop[1:]):
                    if y is None:
                        return False
                    if x == "C1" and not fld(1)(y) or x == "C2" and not fld(2)(y):
                        return False
                    if x == "W" and not (y.op == "sym" and y.args[0] == "twoway"):
                        return False
                    if isinstance(x, bool) and y is not const(x):
                        return False
                return True
            good = len(want) == len(got) and all(match(a, b) for a, b in zip(want, got))
            name = "/".join(kind) or "other kinds"
            ctx.check(good, "N01.action", "%s start=%s end=%s" % (name, phase[3], phase[4]),
                      "entry of kind %s: expected %s, does %s" % (name, [x for x in want], [(x[0],) + tuple(T.show(y) if y is not None else "?" for y in x[1:]) for x in got]),
                      ops[0].ev.where if ops else where, ["when %s is %s" % (T.show(a), v) for a, v in g.items()])
    for k in CLOSURES:
        for ph in (0, 1):
            ctx.check(seen.get((k, ph), 0) > 0, "N01.kind", "%s of %s" % (("start", "end")[ph], k), "this kind of closure is never acted upon", where)


# ---- N02 ---------------------------------------------------------------------
def link_loops(p):
    """loops of a path over the links or closed links of one location"""
    for o in flatten(p):
        e = o.ev
        if e.kind == "loop" and e.iter is not None:
            it = e.iter
            if it.op == "attr" and it.args[1] in ("links", "closed_links"):
                yield o, e, it.args[0], it.args[1]
            elif it.op in ("copy", "slicing") and it.args[0].op == "attr" and it.args[0].args[1] in ("links", "closed_links"):
                yield o, e, it.args[0].args[0], it.args[0].args[1]


def elem_of(e):
    el = e.elem
    for x in ([el] + [y for y in el.args if isinstance(y, T.Term)] if el.op == "tuple" else [el]):
        if x.op == "elem":
            return x
        if x.op == "index":
            return mk("elem", x.args[0], x.args[1], ty="Link")
    return None


def items_of(args, method):
    out = []
    for a in args:
        if method in ("append", "add", "remove"):
            out.append(a)
        elif a.op in ("list", "tuple"):
            out.extend(a.args)
        else:
            out.append(a)
    return out


def treat(ctx, rule, label, p, fn):
    """-> [(start names, end, source list, {True: result, False: result}, event)]"""
    out = []
    for o, lp, L, src in link_loops(p):
        el = elem_of(lp)
        if el is None:
            continue
        effects = any(x.ev.kind in ("write", "mutate", "subwrite") for q in lp.paths for x in flatten(q))
        if not effects:
            continue
        fresh = all(x.ev.kind == "mutate" and x.ev.base.op == "new" or x.ev.kind == "loop" for q in lp.paths for x in flatten(q))
        after = {}
        for x in flatten(p):
            if x.pos > o.pos and len(x.pos) <= len(o.pos) and x.ev.kind == "write" and x.ev.base is L and x.ev.attr in ("links", "closed_links"):
                after.setdefault(x.ev.attr, x.ev)
        if fresh and not any(v.value.op in ("new", "concat") for v in after.values()):
            continue
        starts = set()
        for g in guards(p):
            s = {T.strip(b).args[0] for a, v in list(g.items()) + list(o.cons.items()) if v is True and a.op == "eq"
                 for b in [eq_other(a, lambda t: loc_of_name(t) == loc_key(L))] if b is not None and b.op == "sym"}
            starts = s if not starts else starts & s
        res = {}
        end = None
        for q in lp.paths:
            ms = []
            for g in guards(q):
                m = None
                for a, v in g.items():
                    x = eq_other(a, lambda t: is_attr(t, "name") and is_attr(t.args[0], "endpoint", el))
                    if x is not None:
                        m = v
                        if end is not None and end is not x:
                            ctx.fail(rule, label, "links are compared with two different names", lp.where)
                        end = x
                ms.append(m)
            if len(set(ms)) != 1:
                ms = [None]
            r = result_of(q, el, L, src, after, p)
            r["exit"] = q.exit
            res.setdefault(ms[0], []).append(r)
        out.append((starts, end, src, res, lp))
    return out


def result_of(q, el, L, src, after, p):
    cnt = {"links": 0, "closed_links": 0}
    appended = {}
    flags, others, removed = {}, [], 0
    copies = []
    for o in flatten(q):
        e = o.ev
        if e.kind == "mutate" and e.method in ("append", "extend"):
            for it in items_of(e.args, e.method):
                if it is el or it.op == "copy" and it.args[0] is el:
                    appended[e.base] = appended.get(e.base, 0) + 1
                    if it is not el:
                        copies.append(it)
                else:
                    others.append(e)
        elif e.kind == "mutate" and e.method == "remove" and e.args and e.args[0] is el:
            removed += 1
        elif e.kind == "write":
            if e.base is el:
                flags[e.attr] = e
            elif e.base.op == "copy" and e.base.args[0] is el:
                flags["copy." + e.attr] = e
            else:
                others.append(e)
        elif e.kind in ("subwrite", "mutate"):
            others.append(e)
    for name in cnt:
        base = 1 if src == name else 0
        w = after.get(name)
        if w is None:
            n = base - (removed if src == name else 0)
            for b, k in appended.items():
                if is_attr(b, name, L):
                    n += k
            cnt[name] = n
        else:
            parts = w.value.args if w.value.op == "concat" else (w.value,)
            n = 0
            for part in parts:
                if part.op == "attr" and is_attr(part, name, L):
                    n += base
                elif part.op in ("new", "afterloop", "after"):
                    n += appended.get(part, 0)
                else:
                    n += 50
            cnt[name] = n
    return {"links": cnt["links"], "closed": cnt["closed_links"], "flags": flags, "others": others, "copies": copies}


def n02(ctx):
    total = 0
    for w in ("serial", "parallel"):
        for ref, consts in (("Ecosystem.close_link", [{"twoway": b} for b in (True, False)]),
                            ("Ecosystem.remove_link", [{"twoway": b, "close_only": c} for b in (True, False) for c in (True, False)]),
                            ("Ecosystem.reopen_link", [{"twoway": b} for b in (True, False)])):
            fn = ctx.method(w, ref)
            if w == "parallel" and fn is ctx.method("serial", ref):
                continue
            for cs in consts:
                mode = "reopen" if ref.endswith("reopen_link") else ("close" if cs.get("close_only", True) else "remove")
                total += links_op(ctx, w, fn, mode, cs)
    ctx.need("treated directions", total, 8)
    linkup_flags(ctx)


def links_op(ctx, w, fn, mode, cs):
    label = "%s(%s)" % (fn.qual.split(".", 2)[-1], ", ".join("%s=%s" % x for x in sorted(cs.items())))
    ps = ctx.paths(w, fn, args={k: const(v) for k, v in cs.items()})
    want = {("startpoint", "endpoint")}
    if cs["twoway"]:
        want.add(("endpoint", "startpoint"))
    src0 = "closed_links" if mode == "reopen" else "links"
    n = 0
    for p in ps:
        if p.exit not in ENDED:
            continue
        tr = treat(ctx, "N02.which", label, p, fn)
        got = set()
        for starts, end, src, res, lp in tr:
            ename = end.args[0] if end is not None and end.op == "sym" else None
            if ename is None or not starts:
                ctx.fail("N02.which", label, "links are treated without comparing the name of %s" % ("their end point" if ename is None else "the start location"), lp.where)
                continue
            hit = [(s, ename) for s in starts if (s, ename) in want]
            if not ctx.check(hit, "N02.which", label, "treats the links from %s to %s" % ("/".join(sorted(starts)), ename), lp.where):
                continue
            if not ctx.check(src == src0, "N02.effect", label + " list", "%s looks through the %s of the start location" % (mode, src), lp.where):
                continue
            got.add(hit[0])
            n += 1
            ctx.check(None not in res, "N02.effect", label + " unmatched", "a link is treated without comparing the name of its end point", lp.where)
            for m in (True, False):
                ctx.check(m in res or (m is False), "N02.effect", label, "no link is ever treated", lp.where)
                for r in res.get(m, ()):
                    one_link(ctx, label, mode, m, r, lp)
        ctx.check(got == want, "N02.directions", label, "treats %s instead of %s" % (sorted(got), sorted(want)), fn.where(fn.node), witness(p))
        # everything written belongs to the treated links and their start
        for o in flatten(p):
            e = o.ev
            if e.kind == "write" and not (e.attr in ("closed", "numAgents", "numAgentsOnRank") and o.loops or e.attr in ("links", "closed_links")):
                ctx.fail("N02.others", label + " " + e.attr, "closing or reopening a link writes %s of %s" % (e.attr, T.show(e.base)), e.where)
        # the answer
        if p.value is not None and p.value.op == "const" and p.value.args[0] is True:
            ok = all(any(v is True and eq_other(a, lambda t: is_attr(t, "name") and is_attr(t.args[0], "endpoint")) is not None for a, v in g.items()) for g in guards(p))
            ctx.check(ok, "N02.answer", label, "reports that a link was treated although none matched", fn.where(fn.node), witness(p))
        if p.value is not None and p.value.op == "const" and p.value.args[0] is False:
            bad = any(v is True and eq_other(a, lambda t: is_attr(t, "name") and is_attr(t.args[0], "endpoint")) is not None for g in guards(p) for a, v in g.items())
            ctx.check(not bad, "N02.answer", label, "reports that no link was treated although one matched", fn.where(fn.node), witness(p))
    return n


def one_link(ctx, label, mode, m, r, lp):
    where = next((e.where for e in r["flags"].values()), lp.where)
    place = (r["links"], r["closed"])
    closed = r["flags"].get("closed")
    ccl = r["flags"].get("copy.closed")
    if not m:
        want = (0, 1) if mode == "reopen" else (1, 0)
        ctx.check(place == want and r["exit"] in ("norm", "continue", None), "N02.others", label, "a link to another place ends up %d times in use and %d times closed" % place, where)
        ctx.check(not r["flags"], "N02.others", label + " flags", "a link to another place is changed (%s)" % ", ".join(r["flags"]), where)
        return
    ctx.check(r["exit"] in ("norm", "continue", None), "N02.effect", label + " stops", "only the first matching link is treated", where)
    if mode == "close":
        ctx.check(place == (0, 1), "N02.effect", label, "a closed link ends up %d times in use and %d times among the closed ones" % place, where)
        ctx.check(closed is not None and closed.value is TRUE, "N02.effect", label + " mark", "a closed link, which agents may still be on, is not marked closed", where)
    elif mode == "remove":
        ctx.check(place == (0, 0), "N02.effect", label, "a removed link ends up %d times in use and %d times among the closed ones" % place, where)
    else:
        ctx.check(place == (1, 0), "N02.effect", label, "a reopened link ends up %d times in use and %d times among the closed ones" % place, where)
        c = ccl if r["copies"] else closed
        ctx.check(c is not None and c.value is FALSE, "N02.effect", label + " mark", "a reopened link is still marked closed", where)


def linkup_flags(ctx):
    """`closed` is only ever set by creation, closing and reopening"""
    n = 0
    for f, node in attr_writers(ctx.prog, {"closed", "closed_links"}, ("flee.",)):
        if "micro" in f.module.name:
            continue
        n += 1
        ctx.check(called_only_by(ctx.prog, f, lambda g: g.qual in ctx.funcs or g.name == "__init__"), "N02.writers", f.qual, "changes the closed state of links outside closing and reopening", f.where(node))
    ctx.need("writers of the closed state", n, 2)


# ---- N03 ---------------------------------------------------------------------
def link_event(e):
    """(mode, start, end) of a one-way link operation, else None"""
    n = opname(e)
    if n not in LINKOPS:
        return None
    a = {k: v for k, v in e.args}
    s, t = argof(e, "startpoint", 0), argof(e, "endpoint", 1)
    tw = argof(e, "twoway", 2)
    co = argof(e, "close_only")
    if n == "close_link" or n == "remove_link" and co is TRUE or n == "_remove_link_1way" and co is TRUE:
        mode = "close"
    elif n in ("reopen_link", "_reopen_link_1way"):
        mode = "reopen"
    else:
        mode = "remove"
    if n in ("close_link", "reopen_link", "remove_link") and tw is not FALSE:
        mode += "2"
    return mode, s, t


def n03(ctx):
    n = 0
    for w in ("serial", "parallel"):
        for ref, mode in (("Ecosystem.close_border", "close"), ("Ecosystem.reopen_border", "reopen"),
                          ("Ecosystem.close_location", "close"), ("Ecosystem.reopen_location", "reopen")):
            fn = ctx.method(w, ref)
            if w == "parallel" and fn is ctx.method("serial", ref):
                continue
            for tw in (True, False):
                n += sweeps(ctx, w, fn, mode, tw)
    ctx.need("sweeps over the network", n, 8)


def sweeps(ctx, w, fn, mode, tw):
    border = "border" in fn.name
    label = "%s(twoway=%s)" % (fn.name, tw)
    ps = ctx.paths(w, fn, args={"twoway": const(tw)}, stop=LINKOPS)
    want = {("source_country", "dest_country")} if border else {("in", "location_name")}
    if tw:
        want.add(("dest_country", "source_country") if border else ("out", "location_name"))
    n = 0
    for p in ps:
        if p.exit not in ENDED:
            ctx.fail("N03.completes", label, "the operation can fail half way (%s)" % p.exit, fn.where(fn.node), witness(p))
            continue
        got = set()
        for o in flatten(p):
            le = link_event(o.ev) if o.ev.kind == "call" else None
            if le is None:
                continue
            kind = sweep_of(ctx, label, fn, mode, border, o, le)
            if kind:
                got.add(kind)
                n += 1
        ctx.check(got == want, "N03.covers", label, "covers %s instead of %s" % (sorted(got), sorted(want)), fn.where(fn.node))
        for o in flatten(p):
            if o.ev.kind in ("write", "subwrite") or o.ev.kind == "mutate" and o.ev.base.op != "new":
                ctx.fail("N03.covers", label + " writes", "changes something besides closing or reopening links", o.ev.where)
            if o.ev.kind == "loop" and o.ev.loopkind == "while":
                worklist(ctx, label, fn, mode, o)
            elif o.ev.kind == "loop":
                for q in o.ev.paths:
                    acts = any(x.ev.kind == "call" and link_event(x.ev) for l, b in [(o.ev, None)] for qq in o.ev.paths for x in flatten(qq))
                    if acts:
                        ctx.check(q.exit in ("norm", "continue", None), "N03.complete", label, "the sweep can stop before all links were looked at (%s)" % q.exit, fn.where(o.ev.astn))
    return n


def loop_link(t, loops):
    """the location and list a link term is taken from, and the loop that walks them"""
    if t.op == "elem" and t.args[0].op == "attr" and t.args[0].args[1] in ("links", "closed_links"):
        return t.args[0].args[0], t.args[0].args[1], None
    if t.op == "elem" and t.args[0].op == "copy" and t.args[0].args[0].op == "attr":
        return t.args[0].args[0].args[0], t.args[0].args[0].args[1], None
    if t.op == "idx" and t.args[0].op == "loopvar":
        for lp, q in loops:
            if lp.lid == t.args[0].args[0]:
                v = lp.d.get("init", {}).get(t.args[0].args[1])
                if v is not None and v.op == "attr" and v.args[1] in ("links", "closed_links"):
                    return v.args[0], v.args[1], (lp, t)
    if t.op == "idx" and t.args[0].op == "attr" and t.args[0].args[1] in ("links", "closed_links"):
        return t.args[0].args[0], t.args[0].args[1], (None, t)
    return None


def sweep_of(ctx, label, fn, mode, border, o, le):
    m, s, t = le
    e = o.ev
    src0 = "closed_links" if mode == "reopen" else "links"
    if not ctx.check(m == mode, "N03.action", label, "does a %s instead of a one-way %s" % (m, mode), e.where):
        return None
    loops_locs = {l.lid for l, _ in o.loops if l.iter is not None and (is_attr(l.iter, "locations") or is_attr(l.iter, "locationNames"))}
    sk = loc_of_name(s)
    filters = {}        # what is known on every way to this call
    inner = list(o.loops)
    cons = dict(o.path.cons)
    for l, q in inner:
        cons.update(q.cons)
    known = {}
    for a, v in o.cons.items():
        known[a] = v
    if border:
        if not ctx.check(sk is not None and sk[0] == "pos" and sk[1] in loops_locs, "N03.action", label + " start", "the start of the link is %s" % T.show(s), e.where):
            return None
        lk = t.args[0].args[0] if is_attr(t, "name") and is_attr(t.args[0], "endpoint") else None
        info = loop_link(lk, o.loops) if lk is not None else None
        if not ctx.check(info is not None and loc_key(info[0]) == sk, "N03.action", label + " end", "the end of the link is %s" % T.show(t), e.where):
            return None
        ctx.check(info[1] == src0, "N03.action", label + " list", "%s looks through %s" % (mode, info[1]), e.where)
        a_ = b_ = None
        extra = []
        for a, v in sorted(known.items(), key=lambda x: x[0].id):
            x = eq_other(a, lambda z: is_attr(z, "country") and loc_key(z.args[0]) == sk)
            y = eq_other(a, lambda z: is_attr(z, "country") and is_attr(z.args[0], "endpoint") and z.args[0].args[0] is lk)
            if x is not None and v is True and x.op == "sym":
                a_ = x.args[0]
            elif y is not None and v is True and y.op == "sym":
                b_ = y.args[0]
            elif a.op in ("lt0", "nonempty", "result", "not") or a.op == "sym" or v is False and a.op == "eq":
                pass
        restrict(ctx, label, o, e, lambda a, v: (a.op == "eq" and any(is_attr(z, "country") for z in a.args[:2])) or loop_cond(a, o))
        if not ctx.check(a_ and b_, "N03.action", label + " filter", "a link is treated without comparing both countries", e.where):
            return None
        return (a_, b_)
    # locations
    name = sym("location_name")
    tk = loc_of_name(t)
    if t is name or tk is not None and tk[0] == "pos" and any(name_eq(a, name) == tk and v is True for a, v in known.items()):
        # incoming: every location that has such a link
        if not ctx.check(sk is not None and sk[0] == "pos" and sk[1] in loops_locs, "N03.action", label + " start", "an incoming link is taken to start at %s" % T.show(s), e.where):
            return None
        ok = restrict(ctx, label, o, e, lambda a, v: name_eq(a, name) is not None or loop_cond(a, o) or exists_link(a, v, o, sk, src0, name, tk) or
                      link_to(a, v, o, sk, src0, name, tk)) and whole(ctx, label, tk, e)
        return ("in", "location_name") if ok else None
    sl = sk if sk is not None else None
    direct = s is name
    if direct or sk is not None and any(name_eq(a, name) == sk and v is True for a, v in known.items()):
        lk = t.args[0].args[0] if is_attr(t, "name") and is_attr(t.args[0], "endpoint") else None
        info = loop_link(lk, o.loops) if lk is not None else None
        if info is not None and direct:
            ik = loc_key(info[0])
            direct = any(name_eq(a, name) == ik and v is True for a, v in known.items())
            sk = ik if direct else sk
        if not ctx.check(info is not None and loc_key(info[0]) == sk, "N03.action", label + " end", "an outgoing link is taken to end at %s" % T.show(t), e.where):
            return None
        ctx.check(info[1] == src0, "N03.action", label + " list", "%s looks through %s" % (mode, info[1]), e.where)
        ok = restrict(ctx, label, o, e, lambda a, v: name_eq(a, name) is not None or loop_cond(a, o)) and whole(ctx, label, sk, e)
        return ("out", "location_name") if ok else None
    ctx.fail("N03.action", label, "treats a link from %s to %s, neither of which is known to be the named location" % (T.show(s), T.show(t)), e.where)
    return None


def whole(ctx, label, key, e):
    """the location is looked for among all of them: not in a range or slice of them"""
    part = key is not None and key[0] == "term" and [x for x in T.walk(key[1]) if x.op == "elem" and (x.args[0].op in ("call", "result") and x.args[0].args[0] == "range" or x.args[0].op in ("slice", "idx"))]
    return ctx.check(not part, "N03.action", label + " place", "the named place is looked for only in %s" % (T.show(part[0].args[0]) if part else ""), e.where)


def loop_cond(a, o):
    """conditions that only steer a worklist loop, or which name earlier answers"""
    if a.op == "lt0" or a.op == "nonempty":
        return True
    if a.op == "result":
        return True
    return False


def restrict(ctx, label, o, e, allowed):
    """nothing else may decide whether a link is treated"""
    ok = True
    for l, q in o.loops:
        for g in guards(q):
            for a, v in g.items():
                if not allowed(a, v) and not a.op == "sym":
                    # a disjunction where another alternative lacks the atom is no restriction on its own
                    ok = ctx.check(False, "N03.action", label + " restriction", "whether a link is treated also depends on %s" % T.show(a), e.where) and ok
    return ok


def built_by(t, o):
    """(loop, appended term) that fills the list t"""
    for l, q in o.loops:
        for x in flatten(q):
            if x.ev.kind == "mutate" and x.ev.base is t and x.loops:
                yield x.loops[-1][0], x.ev.args[0]


def exists_link(a, v, o, sk, src0, name, tk):
    """`some link of the location ends at the named one`"""
    def endname(z):
        return z is name or tk is not None and loc_of_name(z) == tk
    lst, test = None, None
    if a.op == "call" and a.args[0] == "any" and v is True:
        lst = a.args[1][0]
    elif a.op == "in" and v is True and endname(a.args[0]):
        lst = a.args[1]
    if lst is None:
        return False
    hits = list(built_by(lst, o))
    if not hits:
        return False
    for lp, val in hits:
        it = lp.iter
        if not (it is not None and it.op == "attr" and it.args[1] == src0 and loc_key(it.args[0]) == sk):
            return False
        el = elem_of(lp)

        def isend(z):
            return is_attr(z, "name") and is_attr(z.args[0], "endpoint", el)
        if a.op == "in":
            if not isend(val):
                return False
        else:
            x = eq_other(val, isend)
            if x is None or not endname(x):
                return False
    return True


def link_to(a, v, o, sk, src0, name, tk):
    if a.op != "eq" or v is not True:
        return False
    for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
        if (x is name or tk is not None and loc_of_name(x) == tk) and is_attr(y, "name") and is_attr(y.args[0], "endpoint"):
            info = loop_link(y.args[0].args[0], o.loops)
            return info is not None and info[1] == src0 and loc_key(info[0]) == sk
    return False


def worklist(ctx, label, fn, mode, o):
    """a while loop over a list that shrinks: every pass advances or shrinks, none skips a link"""
    lp = o.ev
    src0 = "closed_links" if mode == "reopen" else "links"
    where = fn.where(lp.astn)
    init = lp.d.get("init", {})
    lists = {n: v for n, v in init.items() if v.op == "attr" and v.args[1] == src0}
    idxs = {n: v for n, v in init.items() if v.op == "const" and v.args[0] == 0}
    used = set()
    for q in lp.paths:
        if q.exit == "stop":
            continue
        calls = [x.ev for x in flatten(q) if x.ev.kind == "call" and link_event(x.ev)]
        env = q.state.env
        prog_, refreshed = None, None
        done = None
        for c in calls:
            for g in guards(q):
                if c.result in g:
                    done = g[c.result]
        for j in idxs:
            lv = mk("loopvar", lp.lid, j)
            v = env.get(j)
            if v is None:
                continue
            d = T.sub(v, lv)
            if d is const(0) or v is lv:
                prog_ = prog_ or 0
            elif d is const(1):
                prog_ = 1
            else:
                prog_ = 99
        for n in lists:
            v = env.get(n)
            lv = mk("loopvar", lp.lid, n)
            refreshed = v is not None and v.op == "attr" and v.args[1] == src0 and loc_key(v.args[0]) == loc_key(lists[n].args[0])
            kept = v is None or v is lv
        if not calls:
            ctx.check(prog_ == 1, "N03.ends", label, "the loop over the links can go round for ever without treating or passing a link", where, witness(q))
            continue
        if done is True:
            good = (prog_ == 0 and (refreshed or not lists)) or (prog_ == 1 and lists and kept and not refreshed and False)
            ctx.check(good, "N03.ends", label + " after treating", "after a link was taken out of the list the loop goes on with position %+d of the %s list" % (prog_ or 0, "new" if refreshed else "old"), where, witness(q))
        elif done is False:
            ctx.check(prog_ == 1, "N03.ends", label + " after failing", "when a link cannot be treated the loop tries it again for ever", where, witness(q))
        else:
            snapshot = prog_ == 1 and not refreshed
            ctx.check(snapshot, "N03.ends", label + " regardless", "the loop does not look whether the link was taken out of the list", where, witness(q))
    ctx.check(bool(idxs), "N03.ends", label + " start", "the loop over the links does not start at the first one", where)


# ---- N04 ---------------------------------------------------------------------
NAMED = ("close_camp", "open_camp", "change_location_type", "set_forced_redirection", "close_link", "remove_link", "reopen_link",
         "close_location", "reopen_location", "add_conflict_zone", "remove_conflict_zone", "set_conflict_intensity")


def n04(ctx):
    n = 0
    for w in ("serial", "parallel"):
        for name in NAMED:
            fn = ctx.method(w, "Ecosystem." + name)
            if w == "parallel" and fn is ctx.method("serial", "Ecosystem." + name):
                continue
            ps = ctx.paths(w, fn, stop={"refresh_spawn_weights", "print"} | ({"close_link", "reopen_link", "remove_link"} - {name} if "location" in name else set()))
            params = {p for p in fn.params[1:]}
            for o in occs(ps):
                e = o.ev
                if e.kind in ("write", "mutate", "subwrite"):
                    base = e.base
                    if e.kind == "subwrite" or e.kind == "mutate":
                        base = base.args[0] if base.op == "attr" else base
                    own = owner_loc(base)
                    if own is None:
                        if base.op in ("new",) or base is ECO:
                            continue
                        ctx.fail("N04.named", "%s %s" % (fn.qual, getattr(e, "attr", "")), "changes %s, which is not found by name" % T.show(base), e.where)
                        n += 1
                        continue
                    n += 1
                    named(ctx, fn, o, own, base, params)
    ctx.need("changes made to named locations", n, 20)
    both_lists(ctx)
    linkup(ctx)


def owner_loc(t):
    """the location an object belongs to"""
    while t.op in ("attr", "elem", "idx", "copy"):
        if t.op in ("elem", "idx") and is_attr(t.args[0], "locations"):
            return t
        t = t.args[0]
    return None


def named(ctx, fn, o, own, base, params):
    k = loc_key(own)
    facts = o.cons
    ok = False
    for a, v in facts.items():
        if v is not True or a.op != "eq":
            continue
        for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            if T.strip(y).op == "sym" and T.strip(y).args[0] in params and loc_of_name(x) == k:
                ok = True
    if not ok and o.path.alts:
        ok = all(any(v is True and a.op == "eq" and any(T.strip(y).op == "sym" and T.strip(y).args[0] in params and loc_of_name(x) == k
                                                        for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0]))) for a, v in g.items())
                 for g in o.path.alts)
    ctx.check(ok, "N04.named", "%s %s" % (fn.qual, getattr(o.ev, "attr", None) or getattr(o.ev, "method", "")),
              "changes location %s without its name being the given one" % T.show(own), o.ev.where, witness(o.path))


def both_lists(ctx):
    """the list of names and the list of locations grow together"""
    n = 0
    for w in ("serial", "parallel"):
        fn = ctx.method(w, "Ecosystem.addLocation")
        for p in ctx.paths(w, fn, stop={"refresh_spawn_weights"}):
            if p.exit not in ENDED:
                continue
            locs, names = [], []
            for o in flatten(p):
                e = o.ev
                if e.kind == "mutate" and e.base.op == "attr" and e.base.args[0] is ECO:
                    if e.base.args[1] == "locations":
                        locs += items_of(e.args, e.method)
                    if e.base.args[1] == "locationNames":
                        names += items_of(e.args, e.method)
            n += 1
            good = len(locs) == 1 and len(names) == 1
            if good:
                nm = p.state.heap.get((locs[0], "name"))
                good = names[0] is nm or is_attr(names[0], "name", locs[0])
            ctx.check(good, "N04.index", "%s (%s)" % (fn.qual, w), "a new location does not enter both lists once, under its own name", fn.where(fn.node))
    for f, node in attr_writers(ctx.prog, {"locationNames"}, ("flee.",)):
        if "micro" in f.module.name:
            continue
        ctx.check(called_only_by(ctx.prog, f, lambda g: g.name in ("__init__", "addLocation")), "N04.index", f.qual, "changes the list of names on its own", f.where(node))
    ctx.need("ways to add a location", n, 2)


def linkup(ctx):
    n = 0
    for w, fn in [(w, ctx.method(w, "Ecosystem.linkUp")) for w in ("serial", "parallel")] + [("parallel", ctx.func("flee.pmicro_flee:Ecosystem.linkUp"))]:
        for p in ctx.paths(w, fn):
            for o in flatten(p):
                e = o.ev
                if e.kind == "mutate" and e.base.op == "attr" and e.base.args[1] == "links":
                    n += 1
                    own = owner_loc(e.base)
                    if own is None:
                        ctx.fail("N04.named", "%s links" % fn.qual, "adds a link to %s, which is not found by name" % T.show(e.base), e.where)
                    else:
                        named(ctx, fn, o, own, e.base, {"endpoint1", "endpoint2"})
                if e.kind == "construct" and e.cls.split(".")[-1] == "Link":
                    for par in ("startpoint", "endpoint"):
                        t = argof(e, par)
                        if t is None:
                            continue
                        own = owner_loc(t)
                        if own is None:
                            ctx.fail("N04.named", "%s ends" % fn.qual, "a link joins %s, which is not found by name" % T.show(t), e.where)
                        else:
                            named(ctx, fn, o, own, t, {"endpoint1", "endpoint2"})
    ctx.need("links added by name", n, 2)


# ---- L01 ---------------------------------------------------------------------
FLAGS = ("camp", "idpcamp", "town", "forward", "marker", "flood_zone")


def mset(k):
    return mksetting("move_rules", k)


def type_of(g, word):
    """the type asked for by the guards on the type word, first match in the documented order"""
    low = [a for a in g if a.op == "in" and a.args[0].op == "const" and T.contains(a.args[1], word)]
    has = {}
    for a in low:
        has[a.args[0].args[0]] = g[a]
        good = a.args[1].op == "call" and a.args[1].args[0] == ".lower"
        if not good:
            return "?case", has
    order = [("camp", "camp"), ("conflict", "conflict"), ("forward", "forward"), ("marker", "marker"), ("flood_zone", "flood_zone"), ("default", "town"), ("town", "town")]
    for k, t in order:
        v = has.get(k)
        if v is True:
            if t == "camp":
                return ("idpcamp" if has.get("idp") is True else "camp" if has.get("idp") is False else "?idp"), has
            return t, has
        if v is None:
            if k in ("default", "town") and any(has.get(x) is True for x in ("default", "town")):
                continue
            return "?" + k, has
    return None, has


def expected(ty):
    fl = {"camp": ("camp",), "idpcamp": ("camp", "idpcamp"), "conflict": (), "forward": ("forward",), "marker": ("marker",),
          "flood_zone": ("flood_zone",), "town": ("town",)}[ty]
    mc = {"camp": mset("CampMoveChance"), "idpcamp": mset("IDPCampMoveChance"), "conflict": mset("ConflictMoveChance"), "forward": const(1.0),
          "marker": const(1.0), "flood_zone": mset("DefaultMoveChance"), "town": mset("DefaultMoveChance")}[ty]
    return fl, mc


def final(p, obj, f):
    return p.state.heap.get((obj, f))


def state_ok(ctx, rule, label, p, obj, ty, where, auto=False):
    fl, mc = expected(ty)
    for f in FLAGS:
        v = final(p, obj, f)
        want = const(f in fl)
        ctx.check(v is want, rule, "%s %s: %s" % (label, ty, f), "a location of type %s has %s = %s" % (ty, f, T.show(v) if v is not None else "whatever it was before"), where, witness(p))
    c = final(p, obj, "conflict")
    if ty == "conflict":
        ctx.check(c is not None and intensity(c, p, obj), rule, label + " conflict intensity", "a conflict zone has intensity %s, not its own configured one" % (T.show(c) if c is not None else "as before"), where)
    elif not auto:
        ctx.check(c is not None and c.op == "const" and c.args[0] <= 0, rule, "%s %s: conflict" % (label, ty), "a location of type %s has conflict intensity %s" % (ty, T.show(c) if c is not None else "as before"), where)
    m = final(p, obj, "movechance")
    ctx.check(m is not None and (m is mc or T.strip(m) is mc), rule, "%s %s: movechance" % (label, ty), "a location of type %s has move chance %s" % (ty, T.show(m) if m is not None else "as before"), where)


def intensity(c, p, obj):
    c = T.strip(c)
    while c.op == "call" and c.args[0] == "float":
        c = c.args[1][0]
    if c.op == "call" and c.args[0] == ".get" and len(c.args[1]) == 3:
        b, k, d = c.args[1]
        own = p.state.heap.get((obj, "attributes"))
        return k is const("conflict_intensity") and d.op == "const" and d.args[0] == 1.0 and (is_attr(b, "attributes", obj) or own is not None and b is own)
    return False


def l01(ctx):
    nt = {}
    for w in ("serial", "parallel"):
        fn = ctx.method(w, "Location.__init__")
        me = mk("sym", "self", ty="Location")
        word = mk("sym", "location_type", ty="str")
        for p in ctx.paths(w, fn, stop={"updateLocationScore", "updateAllScores", "print"}):
            if p.exit not in ENDED:
                continue
            given = [a for g in guards(p) for a, v in g.items() if a.op == "none" and a.args[0] is word and v is False]
            for g in guards(p):
                if any(a.op == "none" and a.args[0] is word and v is True for a, v in g.items()):
                    ctx.ok("L01.untyped")
                    continue
                ty, has = type_of(g, word)
                where = fn.where(fn.node)
                lab = "%s (%s)" % (fn.qual, w)
                if ty is None:
                    for f in FLAGS:
                        if f != "camp":
                            ctx.check(final(p, me, f) is FALSE, "L01.creation", lab + " unknown word", "an unknown type word sets %s" % f, where)
                    continue
                if not ctx.check(not ty.startswith("?"), "L01.creation", lab + " words", "the type of a location is decided without looking for %s in its type word" % ty[1:], where, witness(p)):
                    continue
                auto = any(a.op == "lt0" and v is True and low_chance(a, p, me) for a, v in g.items())
                nt[(w, ty)] = 1
                if auto and ty == "town":
                    for f in FLAGS:
                        ctx.check(final(p, me, f) is const(f == "camp"), "L01.creation", lab + " low move chance: " + f, "a town with a very low move chance has %s = %s" % (f, T.show(final(p, me, f))), where)
                    continue
                if auto and ty == "conflict" and final(p, me, "camp") is TRUE:
                    c = final(p, me, "conflict")
                    ok = any(a.op == "lt0" and T.contains(a, T.strip(c)) for a in g) if c is not None else False
                    ctx.check(ok, "L01.creation", lab + " conflict: camp", "a conflict zone with a very low move chance becomes a camp as well", where, witness(p))
                    continue
                state_ok(ctx, "L01.creation", lab, p, me, ty, where)
        # later change
        fn = ctx.method(w, "Ecosystem.change_location_type")
        if w == "serial" or fn is not ctx.method("serial", "Ecosystem.change_location_type"):
            for p in ctx.paths(w, fn):
                if p.exit not in ENDED:
                    continue
                objs = {o.ev.base for o in flatten(p) if o.ev.kind == "write" and o.ev.attr in FLAGS}
                if not ctx.check(len(objs) == 1, "L01.change", fn.qual, "changes %d locations" % len(objs), fn.where(fn.node)):
                    continue
                obj = next(iter(objs))
                for g in guards(p):
                    ty, has = type_of(g, word)
                    if ty is None:
                        continue
                    if not ctx.check(not ty.startswith("?"), "L01.change", fn.qual + " words", "the type of a location is decided without looking for %s in its type word" % ty[1:], fn.where(fn.node), witness(p)):
                        continue
                    nt[("change", ty)] = 1
                    state_ok(ctx, "L01.change", fn.qual, p, obj, ty, fn.where(fn.node))
        for idp in (True, False):
            for ref in ("Location.open_camp", "Location.close_camp", "Ecosystem.open_camp", "Ecosystem.close_camp"):
                fn = ctx.method(w, ref)
                for p in ctx.paths(w, fn, args={"IDP": const(idp)}):
                    if p.exit not in ENDED:
                        continue
                    objs = {o.ev.base for o in flatten(p) if o.ev.kind == "write" and o.ev.attr in FLAGS}
                    if not ctx.check(len(objs) == 1, "L01.camp", fn.qual, "changes %d locations" % len(objs), fn.where(fn.node)):
                        continue
                    ty = ("idpcamp" if idp else "camp") if "open" in ref else "town"
                    state_ok(ctx, "L01.camp", "%s(IDP=%s)" % (fn.qual, idp), p, next(iter(objs)), ty, fn.where(fn.node))
                    nt[(ref, idp)] = 1
    ctx.need("ways a location gets its type", len(nt), 7 + 7 + 7 + 8)
    # nobody else changes the type
    allowed = {"__init__", "change_location_type", "open_camp", "close_camp", "add_conflict_zone", "remove_conflict_zone", "set_conflict_intensity",
               "SetConflictMoveChance", "SetCampMoveChance"}
    n = 0
    for f, node in attr_writers(ctx.prog, set(FLAGS) | {"movechance", "conflict"}, ("flee.",)):
        if "micro" in f.module.name or f.module.name.startswith(("flee.postprocessing", "flee.preprocessing")):
            continue
        n += 1
        ctx.check(called_only_by(ctx.prog, f, lambda g: g.name in allowed or g.qual in ctx.funcs), "L01.writers", f.qual, "changes the type of a location (%s) in a way of its own" % getattr(node, "attr", ""), f.where(node))
    ctx.need("writers of the location type", n, 20)


def low_chance(a, p, me):
    return any(is_attr(x, "movechance") or setting(x) and "MoveChance" in str(setting(x)[1]) or x.op == "sym" and x.args[0] == "movechance" for x in T.walk(a))


RULES = {"N01": n01, "N02": n02, "N03": n03, "N04": n04, "L01": l01}
EXPLAIN = {
    "N01": "All ways through the walk over the closure list, for an arbitrary entry: the operations performed and their arguments are compared with the table of closure kinds, for each combination of kind, start-day and end-day match; entries may not end the walk.",
    "N02": "All paths of closing, removing and reopening with the direction and keep options fixed in turn; for an arbitrary link of the start location, matching by end-point name or not, the lists it ends up in, its closed mark and everything else written are derived and compared.",
    "N03": "All paths of border and location closing and reopening; each link operation must be a one-way operation on a link of a location of an all-locations sweep with exactly the country or name comparisons required; the loops over shrinking lists must on every pass either shrink the list and keep the position or advance.",
    "N04": "Every change any named operation makes to a location or its links must be guarded by that location's name equalling the given name; both parallel lists grow together.",
    "L01": "Final values of all type flags, intensity and move chance on every path of creation, type change, camp opening and closing, against the table of types, with the guards on the type word decoded.",
}
