"""The master problem (C01, C09, C11, C13): which columns and rows the selection
of routes consists of, for every set of routes on every network."""
from . import *
from .prep import vnet, depot
from pyvc import ext

M = "master_solve_pulp._MasterSolvePulp"


class W: pass


_n = z3.Datatype("Name"); _n.declare("mk", ("ix", I)); NameS = _n.create()      # names of routes: pairwise distinct


def columns(S, w, g, A, paths=False, numbered=False):
    """routes found so far: a list of n graphs with name, cost, type (and raw path)"""
    fam = w.fam = GStore("route", True, [I]); w.n = z3.Int("n_routes") if not S.unroll else z3.IntVal(S.unroll); S.assume(w.n >= 0)
    w.name, w.rcost, w.type = (lambda i: num(i) + 1 if numbered else NameS.mk(num(i))), z3.Function("route_cost", I, R), z3.Function("route_type", I, I)
    i, j = z3.Ints("i j"); v = z3.Const("v", NodeS)
    fam.declare("ga", "name", lambda i: w.name(i)); fam.declare("ga", "cost", lambda i: w.rcost(i)); fam.declare("ga", "vehicle_type", lambda i: w.type(i))
    w.visits = lambda i, v: fam.fN(i, v)
    S.assume(S.all([i, v], w.visits(i, v), A["N"](v)))
    if paths:
        w.pl, w.path = z3.Function("path_len", I, I), z3.Function("path", I, I, NodeS)
        fam.declare("ga", "path", lambda i: SList([seqpart(w.pl(i), lambda j: w.path(i, j))]))
        S.assume(S.all([i, j], AND(j >= 0, j < w.pl(i)), A["N"](w.path(i, j))))
    else: fam.declare("ga", "path", lambda i: None, False)
    return SList([seqpart(w.n, lambda i: SGraph(fam, (i,)))])


def master(S, paths=False, span=False, numbered=False, **o):
    w = W(); g, A = vnet(S, costs=False); depot(S, g); w.g, w.A = g, A
    A["N"] = lambda v: B(g.hasN(v)); w.cust = lambda v: z3.And(A["N"](v), v != SRC, v != SNK)
    for a in ("depot_from", "depot_to"): g.st.declare("na", a, lambda v: None, False)
    v = z3.Const("v", NodeS); S.assume(A["frequency"](SRC) == 1, A["frequency"](SNK) == 1)
    routes = columns(S, w, g, A, paths, numbered)
    w.KV = z3.Int("KV") if not S.unroll else z3.IntVal(S.unroll if o.get("vehicles") else 0); w.NV = z3.Function("NV", I, R); i = z3.Int("i"); S.assume(S.all([i], True, w.NV(i) >= 0))
    nv = SList()
    if o.get("vehicles"): S.assume(w.KV >= 1); nv = SList([seqpart(w.KV, lambda k: w.NV(k))])
    else: S.assume(w.KV == 0)
    w.pen = z3.Real("penalty"); S.assume(w.pen > 0); w.o = dict(o, paths=paths); w.all = bool(o.get("all"))
    ob = S.it.construct(S.cls(M), [g, SDict(), routes, w.pen if o.get("drop") else None, nv, w.all, bool(o.get("periodic")), span, "cbc"], {})
    w.ob = ob; w.pr = [c.v for c in ob.attrs.values() if isinstance(c.v, LProb)][0]
    return w


def kinds(S, w):
    """templates of the visit rows, vehicle rows and the objective, by what they are indexed with"""
    w.visit = w.bound = None
    for p in w.pr.rows.v:
        if not isinstance(p.elem, RowVar): raise Unsupported("rows of the master problem")
        k = p.elem.key
        if len(k) == 1 and isz(k[0]) and k[0].sort() == NodeS: w.visit = p.elem.tpl
        elif len(k) == 1: w.bound = p.elem.tpl
        else: raise Unsupported("rows of the master problem")
    ob = w.pr.obj.v
    if not isinstance(ob, RowVar): raise Unsupported("objective of the master problem")
    w.obj = ob.tpl
    w.cols = {"y": [], "bound": [], "node": [], "one": []}
    for p in S.it.lp.decl.v:
        d = p.elem
        if d.e is None: raise Unsupported("columns of the master problem")
        rows = {t.elem[1].tpl for t in d.e.terms if isinstance(t.elem[1], RowVar)}
        k = "one" if not p.bs else "node" if p.bs[0].sort() == NodeS else "y" if w.visit in rows else "bound"
        w.cols[k].append(p)


def coef(S, d, tpl, key):
    """coefficient of column d in row tpl(key)"""
    t = z3.RealVal(0)
    for p in d.e.terms:
        c, r = p.elem
        if not isinstance(r, RowVar): raise Unsupported("column entry")
        if r.tpl != tpl or len(r.key) != len(key): continue
        p = p.fresh(); c, r = p.elem
        e = AND(*[eq(a, b) for a, b in zip(r.key, key)])
        t = t + S.ctx.sum(p.bs, AND(p.guard, e), real(c))
    for p in S.it.lp.added.v:      # entries added to a row afterwards
        r, x, c = p.elem
        if x.tpl != d.var.tpl or r.tpl != tpl: continue
        p = p.fresh(); r, x, c = p.elem
        t = t + S.ctx.sum(p.bs, AND(p.guard, *[eq(a, b) for a, b in zip(tuple(r.key) + tuple(x.key), tuple(key) + tuple(d.var.key))]), real(c))
    return t


def col_at(S, w, kind, b):
    """(present, column) of that kind for binder value b"""
    ps = w.cols[kind]
    out = []
    for p in ps:
        m = [(p.bs[0], b if isz(b) else z3.IntVal(b))]
        if len(p.bs) != 1: raise Unsupported("columns with several indices")
        out.append((subst(B(p.guard), m), p.elem.subst(m)))
    return out


def bounds_of(S, d):
    """current lower, upper bound and category (after later assignments)"""
    out = []
    for a, init in (("lowBound", d.low), ("upBound", d.up), ("cat", d.cat)):
        c = S.it.lp.attr.get((d.var.tpl, a))
        if c is not None and c.v.ups:
            if S.ctx.branch(c.v.has(d.var.key)): init = S.it.force(c.v.get(d.var.key, S.ctx))
        out.append(init)
    return out


def check_master(S, w):
    kinds(S, w); A, o = w.A, w.o; v = z3.Const("v0", NodeS); r = z3.Int("r0"); k = z3.Int("k0")
    S.assume(w.cust(v), r >= 0, r < w.n)
    # rows
    def row(tpl, key):
        """(present, sense, rhs)"""
        out = []
        for p in w.pr.rows.v:
            if p.elem.tpl != tpl: continue
            p = p.fresh(); c = AND(p.guard, eq(p.elem.key[0], key))
            out.append((c, p))
        return out
    for nm, tpl, key, on, rhs, sense in (("visit", w.visit, v, True, A["frequency"](v) if o.get("periodic") else z3.RealVal(1), None), ("vehicle", w.bound, k, AND(k >= 0, k < w.KV) if o.get("vehicles") else None, w.NV(k), None)):
        if on is None:
            S.ensure("master: no vehicle rows without a fleet", not any(p.elem.tpl == tpl for p in w.pr.rows.v) if tpl else True); continue
        S.ensure("master: one %s row each" % nm, IMP(on, OR(*[exists(p.bs, B(c)) for c, p in row(tpl, key)])) if tpl else False)
        for c, p in row(tpl, key) if tpl else []:
            S.ensure("master: right-hand side of the %s row" % nm, forall(p.bs, B(IMP(AND(c, on), real(p.elem.rhs) == rhs))))
            if nm == "visit": S.ensure("master: customers may not be left out (>=)", p.elem.sense == "GE" or p.elem.sense == "EQ")
            else:
                s_ = p.elem.sense; S.ensure("master: fleet rows limit from above, with equality if all vehicles are to be used", forall(p.bs, B(IMP(AND(c, on), s_ == ("EQ" if w.all else "LE")))))
    # columns
    if not w.cols["y"]: S.ensure("master: a column per route", False); return
    cs = col_at(S, w, "y", r)
    S.ensure("master: exactly one column per route", AND(OR(*[g for g, _ in cs]), *[NOT(AND(a[0], b[0])) for n, a in enumerate(cs) for b in cs[:n]]))
    for g, d in cs:
        if not S.ctx.branch(g): continue
        S.ctx.binders += [r, v]
        if w.o.get("paths"):
            j = fresh_const(I, "j"); exp = S.ctx.sum([j], z3.And(j >= 0, j < w.pl(r), w.path(r, j) == v), z3.RealVal(1))
        else: exp = z3.If(w.visits(r, v), z3.RealVal(1), z3.RealVal(0))
        S.ensure("master: a route counts once per visit of the customer", coef(S, d, w.visit, (v,)) == exp)
        S.ctx.binders[-2:] = []
        if o.get("vehicles"):
            S.assume(k >= 0, k < w.KV); S.ensure("master: a route counts once for its own vehicle type", coef(S, d, w.bound, (k,)) == z3.If(w.type(r) == k, z3.RealVal(1), z3.RealVal(0)))
        S.ensure("master: a route costs its cost", coef(S, d, w.obj, ()) == w.rcost(r))
        S.ensure("master: the column is used at least 0 times and not bounded below its need", d.low is not None and real(d.low) == 0 and (d.up is None if o.get("periodic") else d.up is None or real(d.up) == 1))
    for g, d in col_at(S, w, "bound", k) if w.cols["bound"] else []:
        if not S.ctx.branch(AND(g, k >= 0, k < w.KV)): continue
        a = coef(S, d, w.bound, (k,))
        S.ensure("master: missing or exceeding the fleet costs", z3.And(coef(S, d, w.obj, ()) >= z3.RealVal(10 ** 9), z3.Or(a == -1, a == 1) if w.all else a == -1, real(d.low) == 0))
    if o.get("vehicles"):      # the relaxed problem can be solved whatever routes are known
        ps = [(g, coef(S, d, w.bound, (k,)), d) for g, d in (col_at(S, w, "bound", k) if w.cols["bound"] else [])]
        free = lambda d: d.up is None
        S.ensure("master: more vehicles may be used at that price while routes are searched", IMP(AND(k >= 0, k < w.KV), OR(*[AND(g, a == -1) for g, a, d in ps if free(d)])))
        if w.all: S.ensure("master: fewer vehicles may be used at that price while routes are searched", IMP(AND(k >= 0, k < w.KV), OR(*[AND(g, a == 1) for g, a, d in ps if free(d)])))
    nodes = [(g, d) for g, d in (col_at(S, w, "node", v) if w.cols["node"] else [])]
    if not o.get("drop") and not o.get("periodic"): S.ensure("master: customers are served by routes only", AND(*[NOT(g) for g, _ in nodes]))
    for g, d in nodes:
        if not S.ctx.branch(g): continue
        S.ctx.binders.append(v)
        S.ensure("master: leaving a customer out counts as serving it once and costs the penalty", z3.And(coef(S, d, w.visit, (v,)) == 1, coef(S, d, w.obj, ()) >= z3.RealVal(10 ** 9) if o.get("periodic") else coef(S, d, w.obj, ()) == w.pen, real(d.low) == 0))
        u = z3.Const("u1", NodeS); S.assume(u != v)
        S.ensure("master: leaving a customer out concerns no other customer", coef(S, d, w.visit, (u,)) == 0)
        S.ctx.binders.pop()
        if o.get("drop"): S.ensure("master: a customer is dropped at most once", d.up is not None and real(d.up) == 1)
    return w



def opts_of(S, **fix):
    o = dict(fix)
    for k, b in (("vehicles", "opt_vehicles"), ("drop", "opt_drop")):
        if k not in o: o[k] = S.ctx.branch(z3.Bool(b))
    if o["vehicles"] and "all" not in o: o["all"] = S.ctx.branch(z3.Bool("use_all"))
    return o


@contract("master rows and columns", "C01 C09 C11 C13", M + "._formulate", "one covering row per customer, one fleet row per type, one column per route with its visits, type and cost; dropping costs the penalty", cost=3)
def _(S):
    o = opts_of(S); w = master(S, **o); check_master(S, w)


@contract("master with raw paths", "C01 C09 C13", M + "._formulate", "columns of routes that carry their raw path count every visit of that path", cost=3)
def _(S):
    o = opts_of(S, drop=False, paths=True); w = master(S, **o); check_master(S, w)


@contract("master periodic", "C01 C13 C15", M + "._formulate", "covering rows ask for the frequency; artificial columns are prohibitively expensive", cost=3)
def _(S):
    o = opts_of(S, drop=False, vehicles=False, periodic=True); w = master(S, **o); check_master(S, w)


@contract("master update", "C01 C09 C11 C13", M + ".update", "a new route becomes one more column with its visits, type and cost; nothing else changes", cost=3)
def _(S):
    o = opts_of(S); w = master(S, **o); rows, cols = w.pr.rows.v, S.it.lp.decl.v
    new = SGraph(w.fam, (w.n,)); v = z3.Const("v", NodeS)
    S.call(w.ob, "update", new)
    S.ensure("update: rows and earlier columns stay", w.pr.rows.v == rows and S.it.lp.decl.v[:len(cols)] == cols and len(S.it.lp.decl.v) == len(cols) + 1)
    kinds(S, w); p = S.it.lp.decl.v[-1]; d = p.elem
    S.ensure("update: one column is added", not p.bs and B(p.guard))
    if p.bs: return
    v = z3.Const("v0", NodeS); k = z3.Int("k0"); S.assume(w.cust(v), k >= 0, k < w.KV) if o["vehicles"] else S.assume(w.cust(v))
    S.ensure("update: the route counts once per customer it visits", coef(S, d, w.visit, (v,)) == z3.If(w.visits(w.n, v), z3.RealVal(1), z3.RealVal(0)))
    if o["vehicles"]: S.ensure("update: the route counts for its vehicle type", coef(S, d, w.bound, (k,)) == z3.If(w.type(w.n) == k, z3.RealVal(1), z3.RealVal(0)))
    S.ensure("update: the route costs its cost", coef(S, d, w.obj, ()) == w.rcost(w.n))
    S.ensure("update: the variable is found under the route's name", S.it.contains(NameS.mk(w.n), S.get(w.ob, "y")))


def cols_value(S, w, tpl, key):
    """left-hand side of row tpl(key) at the values of the variables"""
    t = z3.RealVal(0)
    if S.it.lp.added.v: raise Unsupported("entries added to rows")
    for p in S.it.lp.decl.v:
        p = p.fresh(); d = p.elem
        for q in d.e.terms:
            q = q.fresh(); c, r = q.elem
            if not isinstance(r, RowVar) or r.tpl != tpl or len(r.key) != len(key): continue
            t = t + S.ctx.sum(tuple(p.bs) + tuple(q.bs), AND(p.guard, q.guard, *[eq(a, b) for a, b in zip(r.key, key)]), real(c) * ext.value(d.var))
    return t


def cur(S, d, a, init):
    """current bound or category of a column (formula-valued for categories): [(condition, value)]"""
    c = S.it.lp.attr.get((d.var.tpl, a))
    if c is None or not c.v.ups: return [(True, init)]
    h = c.v.has(d.var.key)
    out = [(NOT(h), init)] if h is not True else []
    if h is not False: out.append((h, S.it.force(c.v.get(d.var.key, S.ctx))))
    return out


def solved(S, w, rows):
    """assume (for these rows) what a solver that reports an optimum guarantees: rows, bounds and (for integer variables) integrality"""
    it = S.it
    for p in w.pr.rows.v:
        p = p.fresh(); r = p.elem
        if r.tpl not in rows: continue
        nb = len(S.ctx.binders); S.ctx.binders += list(p.bs)
        x = cols_value(S, w, r.tpl, r.key); fs = []
        c = it.lp.attr.get((r.tpl, "row sense"))
        cases = [(True, r.sense)]
        if c is not None and c.v.ups:
            h = c.v.has(r.key); cases = [(NOT(h), r.sense), (h, it.force(S.ctx.under(p.bs, AND(p.guard, h), lambda: c.v.get(r.key, S.ctx))))]
        for g, s_ in cases:
            if s_ not in ("LE", "GE", "EQ"): raise Unsupported("row sense %r" % (s_,))
            b = real(r.rhs); fs.append(IMP(g, x <= b if s_ == "LE" else x >= b if s_ == "GE" else x == b))
        S.assume(forall(p.bs, B(IMP(p.guard, AND(*fs)))))
        del S.ctx.binders[nb:]
    for p in it.lp.decl.v:
        p = p.fresh(); d = p.elem; x = ext.value(d.var); fs = []
        for a, init in (("lowBound", d.low), ("upBound", d.up), ("cat", d.cat)):
            for g, b in S.ctx.under(p.bs, p.guard, lambda: cur(S, d, a, init)):
                if b is None: continue
                if a == "cat": f = x == z3.ToReal(z3.ToInt(x)) if b in ("Integer", "Binary") else True
                else: f = x >= real(b) if a == "lowBound" else x <= real(b)
                fs.append(IMP(g, f))
        S.assume(forall(p.bs, B(IMP(p.guard, AND(*fs)))))


def selection(S, rows, **fix):
    o = opts_of(S, **fix); w = master(S, **o); kinds(S, w)
    raised, _ = S.raised(lambda: S.call(w.ob, "solve", False, None))
    if raised: return None
    solved(S, w, [t for t in rows(w) if t])
    cost, best = S.call(w.ob, "get_total_cost_and_routes", False)
    def count(f):
        t = z3.RealVal(0)
        for p in S.it.parts(best):
            p = p.fresh(); r = S.it.force(p.elem)
            if not isinstance(r, SGraph) or r.st is not w.fam: raise Unsupported("result routes")
            for b in p.bs:        # a route is repeated as often as it is selected
                q = repetition(b, z3.simplify(B(p.guard)), z3.RealVal(1))
                if q is None: continue
                for g, d in col_at(S, w, "y", r.ids[0]):
                    S.hint(forall([x for x in p.bs if x is not b], B(IMP(AND(g, q[1]), z3.ToReal(q[0]) == ext.value(d.var)))))
            t = t + S.ctx.sum(p.bs, AND(p.guard, f(r.ids[0])), z3.RealVal(1))
        return t
    return w, o, count


@contract("master selection", "C01", M + ".solve " + M + "._solve " + M + ".get_total_cost_and_routes", "the routes of an integer solution visit every customer exactly once (dropped ones not at all)", cost=4, limits=(240, 500), opts=dict(unroll=2, zeros=True))
def _(S):
    r = selection(S, lambda w: [w.visit])
    if r is None: return
    w, o, count = r; v = z3.Const("v0", NodeS); S.assume(w.cust(v))
    n = count(lambda i: w.visits(i, v))
    if not o["drop"]: S.ensure("selection: every customer is on exactly one route", n == 1)
    else:
        dr = S.it.contains(v, S.get(w.ob, "dropped_nodes"))
        S.ensure("selection: every customer is visited once or dropped, not both", n == z3.If(B(dr), z3.RealVal(0), z3.RealVal(1)))


@contract("master selection, fleet", "C11", M + ".solve " + M + "._solve " + M + ".get_total_cost_and_routes", "the routes of an integer solution respect the fleet of each type", cost=4, opts=dict(unroll=2, zeros=True))
def _(S):
    r = selection(S, lambda w: [w.bound], vehicles=True)
    if r is None: return
    w, o, count = r; k = z3.Int("k0")
    S.assume(k >= 0, k < w.KV); m = count(lambda i: w.type(i) == k)
    S.ensure("selection: no type is used more often than available, and fully if asked", m == w.NV(k) if o["all"] else m <= w.NV(k))


@contract("master selection, periodic", "C01", M + ".solve " + M + "._solve " + M + ".get_total_cost_and_routes", "the routes of an integer solution, repeated as often as selected, visit every customer as often as asked (less what the prohibitively priced artificial columns take)", cost=4, opts=dict(unroll=2, zeros=True))
def _(S):
    r = selection(S, lambda w: [w.visit], vehicles=False, drop=False, periodic=True)
    if r is None: return
    w, o, count = r; v = z3.Const("v0", NodeS); S.assume(w.cust(v))
    art = z3.RealVal(0)
    for g, d in (col_at(S, w, "node", v) if w.cols["node"] else []): art = art + z3.If(B(g), ext.value(d.var), z3.RealVal(0))
    S.ensure("selection: visits of a customer sum up to its frequency", count(lambda i: w.visits(i, v)) + art == w.A["frequency"](v))


@contract("master duals", "C13 C11", M + ".get_duals", "every customer gets the dual of its covering row, every vehicle type the dual of its fleet row", cost=1)
def _(S):
    o = opts_of(S, drop=False); w = master(S, **o); kinds(S, w)
    d = S.it.force(S.call(w.ob, "get_duals")); v = z3.Const("v0", NodeS); k = z3.Int("k0"); S.assume(w.cust(v), v != strnode("upper_bound_vehicles"))
    pi = lambda tpl, x: z3.Function("pi_" + tpl, x.sort(), R)(x)
    S.ensure("duals: one for every customer", S.it.contains(v, d))
    S.ensure("duals: a customer's value is the dual of its row", real(S.it.force(S.it.getitem(d, v))) == pi(w.visit, v))
    for x in (SRC, SNK): S.ensure("duals: none for the depot", NOT(S.it.contains(x, d)))
    if o["vehicles"]:
        S.assume(k >= 0, k < w.KV)
        S.ensure("duals: one for every vehicle type", S.it.contains("upper_bound_vehicles", d) and S.it.contains(k, S.it.force(S.it.getitem(d, "upper_bound_vehicles"))))
        S.ensure("duals: a type's value is the dual of its row", real(S.it.force(S.it.getitem(S.it.getitem(d, "upper_bound_vehicles"), k))) == pi(w.bound, k))


def span_master(S):
    """the master problem with the span minimised; routes are numbered 1, 2, ... as the solver does"""
    o = opts_of(S); w = master(S, span=True, numbered=True, **o); w.o = o
    return w


def span_kinds(S, w):
    """templates by what they are for: covering rows (by customer), fleet rows (the ones with the artificial column), makespan rows (the other ones)"""
    ob = w.pr.obj.v
    if not isinstance(ob, RowVar): raise Unsupported("objective of the master problem")
    w.obj = ob.tpl; w.visit = w.bound = w.spanrow = None
    cols = S.it.lp.decl.v
    if any(p.elem.e is None for p in cols): raise Unsupported("columns of the master problem")
    w.one = [p for p in cols if not p.bs and w.obj in {t.elem[1].tpl for t in p.elem.e.terms if isinstance(t.elem[1], RowVar)}]
    if len(w.one) != 1: raise Unsupported("makespan variable")
    inspan = {t.elem[1].tpl for t in w.one[0].elem.e.terms if isinstance(t.elem[1], RowVar)}
    for p in w.pr.rows.v:
        k = p.elem.key
        if len(k) != 1: raise Unsupported("rows of the master problem")
        if isz(k[0]) and k[0].sort() == NodeS: w.visit = p.elem.tpl
        elif p.elem.tpl in inspan: w.spanrow = p.elem.tpl
        else: w.bound = p.elem.tpl


def span_column(S, w, r, d):
    """the column d of route r, its makespan row and that row's entry for the makespan"""
    v = z3.Const("v0", NodeS); k = z3.Int("k0"); S.assume(w.cust(v)); nm = w.name(r)
    S.ctx.binders += [r, v] if isz(r) and z3.is_const(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED else [v]; nb = len(S.ctx.binders)
    S.ensure("span: a route counts once per customer it visits", coef(S, d, w.visit, (v,)) == z3.If(w.visits(r, v), z3.RealVal(1), z3.RealVal(0)))
    if w.o["vehicles"]:
        S.assume(k >= 0, k < w.KV); S.ensure("span: a route counts once for its own vehicle type", coef(S, d, w.bound, (k,)) == z3.If(w.type(r) == k, z3.RealVal(1), z3.RealVal(0)))
    S.ensure("span: selecting a route costs nothing by itself", coef(S, d, w.obj, ()) == 0)
    S.ensure("span: a route is selected 0 or 1 times", AND(real(d.low) == 0, d.up is None or real(d.up) == 1))
    S.ensure("span: the row of a route holds its cost", coef(S, d, w.spanrow, (nm,)) == w.rcost(r))
    there = []
    for p in w.pr.rows.v:
        if p.elem.tpl != w.spanrow: continue
        p = p.fresh(); c = AND(p.guard, eq(p.elem.key[0], nm)); there.append(exists(p.bs, B(c)))
        S.ensure("span: makespan rows are upper limits of 0", AND(p.elem.sense == "LE", forall(p.bs, B(IMP(p.guard, real(p.elem.rhs) == 0)))))
    S.ensure("span: the row of a route is in the problem", OR(*there))
    t = coef(S, w.one[0].elem, w.spanrow, (nm,))
    S.ensure("span: the makespan covers the row of every route", t == -1)


@contract("master span", "C01 C09 C13", M + "._formulate " + M + "._add_route_selection_variable_for_global_span " + M + "._add_makespan_variable " + M + "._add_maximum_makespan_constraints", "with the span minimised: every route has a row that keeps the makespan at or above its cost if selected; the objective is the makespan; visits and types as before", cost=3)
def _(S):
    w = span_master(S); span_kinds(S, w); r = z3.Int("r0"); S.assume(r >= 0, r < w.n)
    mk = w.one[0].elem
    S.ensure("span: the makespan is minimised", AND(coef(S, mk, w.obj, ()) > 0, mk.up is None, real(mk.low) == 0))
    if w.o["drop"]:
        v = z3.Const("v1", NodeS); S.assume(w.cust(v)); ds = [p for p in S.it.lp.decl.v if len(p.bs) == 1 and p.bs[0].sort() == NodeS]; there = []
        for p in ds:
            g, d = subst(B(p.guard), [(p.bs[0], v)]), p.elem.subst([(p.bs[0], v)]); there.append(g)
            if not S.ctx.branch(g): continue
            S.ctx.binders.append(v)
            S.ensure("span: leaving a customer out counts as serving it once and costs the penalty", z3.And(coef(S, d, w.visit, (v,)) == 1, coef(S, d, w.obj, ()) == w.pen * coef(S, mk, w.obj, ()), real(d.low) == 0))
            S.ctx.binders.pop()
        S.ensure("span: every customer can be left out", OR(*there))
    ys = [p for p in S.it.lp.decl.v if p.bs and p.bs[0].sort() == I and w.visit in {t.elem[1].tpl for t in p.elem.e.terms if isinstance(t.elem[1], RowVar)}]
    cs = [(subst(B(p.guard), [(p.bs[0], r)]), p.elem.subst([(p.bs[0], r)])) for p in ys]
    S.ensure("span: exactly one column per route", AND(OR(*[g for g, _ in cs]), *[NOT(AND(a[0], b[0])) for n, a in enumerate(cs) for b in cs[:n]]))
    for g, d in cs:
        if S.ctx.branch(g): span_column(S, w, r, d)


@contract("master span update", "C01 C09 C13", M + ".update " + M + "._add_route_selection_variable_for_global_span", "with the span minimised, a new route becomes one more column with its own row, which keeps the makespan at or above its cost", cost=3)
def _(S):
    w = span_master(S); span_kinds(S, w); cols = S.it.lp.decl.v; rows = w.pr.rows.v
    S.call(w.ob, "update", SGraph(w.fam, (w.n,)))
    S.ensure("update: earlier rows and columns stay", w.pr.rows.v[:len(rows)] == rows and S.it.lp.decl.v[:len(cols)] == cols)
    new = S.it.lp.decl.v[len(cols):]
    S.ensure("update: one column is added", len(new) == 1 and not new[0].bs)
    if len(new) == 1 and not new[0].bs: span_column(S, w, w.n, new[0].elem)
