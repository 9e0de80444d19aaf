"""Preprocessing of the network (C09, C10, C12, C16, C18): vrp.py methods run
before and after the search, for every network."""
from . import *
from .checks import network, maybe

NA = ("demand", "collect", "service_time", "lower", "upper")
V = "vrp.VehicleRoutingProblem."


def vnet(S, name="G", K=None, has=True, costs=True):
    """network with all attributes (has=False: possibly missing)"""
    g = network(S, name); A = {}
    for a in NA + ("frequency",):
        f = z3.Function(a, NodeS, R); A[a] = f
        if has is True: g.st.declare("na", a, (lambda f: lambda v: f(v))(f))
        else:
            h = z3.Function("has_" + a, NodeS, BOOL); A["has_" + a] = h
            g.st.declare("na", a, (lambda f: lambda v: f(v))(f), (lambda h: lambda v: h(v))(h))
    t = A["time"] = z3.Function("time", NodeS, NodeS, R)
    if has is True: g.st.declare("ea", "time", lambda u, v: t(u, v))
    else:
        ht = A["has_time"] = z3.Function("has_time", NodeS, NodeS, BOOL); g.st.declare("ea", "time", lambda u, v: t(u, v), lambda u, v: ht(u, v))
    if costs:
        K = K if K is not None else z3.Int("K")
        c = A["cost"] = z3.Function("cost", NodeS, NodeS, I, R)
        if isz(K): S.assume(K >= 1)
        g.st.declare("ea", "cost", lambda u, v: SList([seqpart(K, lambda k: c(u, v, k))]))
    return g, A


def depot(S, g):
    v = z3.Const("v", NodeS)
    S.assume(g.hasN(SRC), g.hasN(SNK))
    S.assume(S.all([v], AND(g.hasN(v), v != SRC, v != SNK), AND(g.hasE(SRC, v), g.hasE(v, SNK))))
    S.assume(S.all([v], True, AND(NOT(g.hasE(v, SRC)), NOT(g.hasE(SNK, v)))))


def at(S, g, which, a, key, guard=True):
    return real(S.ctx.under([], guard, lambda: S.it.force(g.st.attr(which, a).v.get(key, S.ctx))))


def cost_at(S, g, u, v, k, guard=True):
    def go():
        l = S.it.force(g.st.attr("ea", "cost").v.get((u, v), S.ctx))
        if not isinstance(l, SList): raise Unsupported("cost is not a list")
        q = l.seq()
        if q is None: raise Unsupported("cost list without order")
        return q[1](k)
    return real(S.ctx.under([], guard, go))


def same_struct(S, g, N0, E0, what):
    a, b = z3.Consts("a0 b0", NodeS)
    S.ensure(what + ": nodes and edges unchanged", AND(B(g.st.N.v.has((a,))) == B(N0.has((a,))), B(g.st.E.v.has((a, b))) == B(E0.has((a, b)))))


@contract("_add_fixed_costs", "C09", V + "_add_fixed_costs", "each edge leaving the Source costs its type's fixed cost more, every other cost is unchanged")
def _(S):
    g, A = vnet(S); K = z3.Int("K"); depot(S, g)
    fc = z3.Function("fixed", I, R)
    o = S.obj("vrp.VehicleRoutingProblem", G=g, _vehicle_types=K, fixed_cost=SList([seqpart(K, lambda k: fc(k))]))
    N0, E0 = g.st.N.v, g.st.E.v
    S.call(o, "_add_fixed_costs")
    same_struct(S, g, N0, E0, "_add_fixed_costs")
    u, v = z3.Consts("u0 v0", NodeS); k = z3.Int("k0"); S.assume(k >= 0, k < K, E0.has((u, v)))
    S.ensure("_add_fixed_costs: fixed cost charged once on edges from the Source", IMP(u == SRC, cost_at(S, g, u, v, k, u == SRC) == A["cost"](u, v, k) + fc(k)))
    S.ensure("_add_fixed_costs: other costs unchanged", IMP(u != SRC, cost_at(S, g, u, v, k, u != SRC) == A["cost"](u, v, k)))


@contract("_set_zero_attributes", "C10 C12", V + "_set_zero_attributes", "missing attributes become 0 (frequency 1), given ones are kept, demand of the depot is ignored")
def _(S):
    g, A = vnet(S, has=False, costs=False)
    o = S.obj("vrp.VehicleRoutingProblem", G=g)
    N0, E0 = g.st.N.v, g.st.E.v
    S.call(o, "_set_zero_attributes")
    same_struct(S, g, N0, E0, "_set_zero_attributes")
    v = z3.Const("v0", NodeS); S.assume(N0.has((v,)))
    dep = z3.Or(v == SRC, v == SNK)
    for a in NA + ("frequency",):
        dflt = 1 if a == "frequency" else 0
        S.ensure("_set_zero_attributes: %s is set" % a, g.st.attr("na", a).v.has((v,)))
        val = at(S, g, "na", a, (v,))
        S.ensure("_set_zero_attributes: %s of customers kept or default" % a, IMP(z3.Not(dep), val == z3.If(A["has_" + a](v), A[a](v), z3.RealVal(dflt))))
        if a != "demand": S.ensure("_set_zero_attributes: %s of the depot kept or default" % a, IMP(dep, val == z3.If(A["has_" + a](v), A[a](v), z3.RealVal(dflt))))
        else: S.ensure("_set_zero_attributes: a positive demand of the depot is ignored", IMP(dep, val == z3.If(z3.And(A["has_demand"](v), A["demand"](v) <= 0), A["demand"](v), z3.RealVal(0))))


@contract("_set_time_to_zero", "C10 C12", V + "_set_time_to_zero_if_missing", "missing travel times become 0, given ones are kept")
def _(S):
    g, A = vnet(S, has=False, costs=False)
    o = S.obj("vrp.VehicleRoutingProblem", G=g); N0, E0 = g.st.N.v, g.st.E.v
    S.call(o, "_set_time_to_zero_if_missing")
    same_struct(S, g, N0, E0, "_set_time_to_zero_if_missing")
    u, v = z3.Consts("u0 v0", NodeS); S.assume(E0.has((u, v)))
    S.ensure("_set_time_to_zero: time set", g.st.attr("ea", "time").v.has((u, v)))
    S.ensure("_set_time_to_zero: given or 0", at(S, g, "ea", "time", (u, v)) == z3.If(A["has_time"](u, v), A["time"](u, v), z3.RealVal(0)))


@contract("_readjust_sink", "C12 C06", V + "_readjust_sink_time_windows", "a Sink without window closes only after every last customer could return; nothing else changes")
def _(S):
    g, A = vnet(S, costs=False); depot(S, g)
    S.assume(g.hasE(SRC, SNK))
    o = S.obj("vrp.VehicleRoutingProblem", G=g); N0, E0 = g.st.N.v, g.st.E.v
    S.call(o, "_readjust_sink_time_windows")
    same_struct(S, g, N0, E0, "_readjust_sink_time_windows")
    u = z3.Const("u0", NodeS); S.assume(g.hasN(u))
    up = at(S, g, "na", "upper", (SNK,))
    S.ensure("_readjust_sink: a given window of the Sink is kept", IMP(A["upper"](SNK) != 0, up == A["upper"](SNK)))
    S.ensure("_readjust_sink: the Sink is open when the last customer returns in time", IMP(AND(A["upper"](SNK) == 0, E0.has((u, SNK))), up >= A["upper"](u) + A["service_time"](u) + A["time"](u, SNK)))
    for a in ("lower", "service_time", "demand"): S.ensure("_readjust_sink: %s unchanged" % a, at(S, g, "na", a, (u,)) == A[a](u))
    S.ensure("_readjust_sink: windows of customers unchanged", IMP(u != SNK, at(S, g, "na", "upper", (u,), u != SNK) == A["upper"](u)))


@contract("_remove_arcs_capacity", "C12", V + "_remove_infeasible_arcs_capacities", "an edge is removed only if its two demands together exceed the largest capacity")
def _(S):
    g, A = vnet(S); Q = z3.Real("Q")
    o = S.obj("vrp.VehicleRoutingProblem", G=g, _max_capacity=Q)
    N0, E0 = g.st.N.v, g.st.E.v
    S.call(o, "_remove_infeasible_arcs_capacities")
    u, v = z3.Consts("u0 v0", NodeS)
    E1 = g.st.E.v
    S.ensure("capacity pruning: no node is lost, no edge added", AND(B(g.st.N.v.has((u,))) == B(N0.has((u,))), IMP(E1.has((u, v)), E0.has((u, v)))))
    S.ensure("capacity pruning: edges two customers can share are kept", IMP(AND(E0.has((u, v)), A["demand"](u) + A["demand"](v) <= Q), E1.has((u, v))))
    for a in NA: S.ensure("capacity pruning: %s unchanged" % a, IMP(N0.has((u,)), at(S, g, "na", a, (u,), N0.has((u,))) == A[a](u)))


def windows_spec(S, g, A):
    """invariant of the loop over edges that tightens windows and collects edges -> tightened windows"""
    mx = lambda a, b: z3.If(a >= b, a, b)
    lo = lambda v: z3.If(z3.Or(v == SRC, v == SNK), A["lower"](v), mx(A["lower"](v), A["lower"](SRC) + A["time"](SRC, v)))
    up = lambda v: z3.If(z3.Or(v == SRC, v == SNK), A["upper"](v), -mx(-A["upper"](v), -(A["upper"](SNK) - A["time"](v, SNK))))
    bad = lambda a, b: lo(a) + A["time"](a, b) + A["service_time"](a) > up(b)
    def loop(it, n, env, coll):
        coll = it.force(coll)
        if not isinstance(coll, EdgesView): return False
        def inv(done, cells):
            fs = []; w = fresh_const(NodeS, "w"); x = fresh_const(NodeS, "x"); y = fresh_const(NodeS, "y")
            for a, strong in (("lower", lo), ("upper", up)):
                c = g.st.attr("na", a)
                if c not in cells: continue
                S.ctx.read(c, None)
                val = S.ctx.under([w], g.hasN(w), lambda: real(c.v.get((w,), S.ctx)))
                fs.append(S.all([w], g.hasN(w), AND(c.v.has((w,)), z3.Or(val == strong(w), z3.And(z3.Not(B(exists([x, y], done(x, y)))), val == A[a](w))))))
            for c in cells:
                if c in (g.st.attr("na", "lower"), g.st.attr("na", "upper")): continue
                if isinstance(c.v, tuple):
                    S.ctx.read(c, None)
                    for p in c.v:
                        q = p.fresh()
                        if not isinstance(q.elem, tuple) or len(q.elem) != 2: raise Unsupported("loop state not recognised")
                        fs.append(forall(q.bs, B(IMP(q.guard, bad(q.elem[0], q.elem[1])))))
            return AND(*fs)
        return it.induct_any(n, env, coll, inv, "loop invariant (windows)")
    S.it.loopspecs[V + "_remove_infeasible_arcs_time_windows"] = loop
    return lo, up


@contract("_remove_arcs_windows", "C12 C06", V + "_remove_infeasible_arcs_time_windows", "an edge is removed only if even leaving at the opening of the (tightened) window arrives after closing; windows are only tightened to direct trips from/to the depot", cost=3)
def _(S):
    g, A = vnet(S, costs=False); depot(S, g); S.assume(g.hasE(SRC, SNK))
    N0, E0 = g.st.N.v, g.st.E.v
    u, v = z3.Consts("u v", NodeS)
    lo, up = windows_spec(S, g, A)
    o = S.obj("vrp.VehicleRoutingProblem", G=g)
    S.call(o, "_remove_infeasible_arcs_time_windows")
    u, v = z3.Consts("u0 v0", NodeS); E1 = g.st.E.v
    S.ensure("window pruning: no node is lost, no edge added", AND(B(g.st.N.v.has((u,))) == B(N0.has((u,))), IMP(E1.has((u, v)), E0.has((u, v)))))
    S.ensure("window pruning: edges that can be driven in time are kept", IMP(AND(E0.has((u, v)), lo(u) + A["time"](u, v) + A["service_time"](u) <= up(v)), E1.has((u, v))))
    S.assume(N0.has((u,)))
    l1, u1 = at(S, g, "na", "lower", (u,)), at(S, g, "na", "upper", (u,))
    S.ensure("window pruning: windows open at most at the direct arrival from the Source", z3.And(l1 >= A["lower"](u), l1 <= lo(u)))
    t, S.ctx.taint = S.ctx.taint, "relied upon by the extension of resources"
    S.ensure("window pruning: no window opens before the direct arrival from the Source", IMP(AND(u != SRC, u != SNK), l1 >= A["lower"](SRC) + A["time"](SRC, u)))
    S.ctx.taint = t
    S.ensure("window pruning: windows close at least when a direct return is possible", z3.And(u1 <= A["upper"](u), u1 >= up(u)))


@contract("_define_vehicle_types", "C11 C14", V + "_define_vehicle_types", "number of types = length of the first given list among capacities, fixed costs, vehicle numbers")
def _(S):
    n = {a: z3.Int("len_" + a) for a in ("load_capacity", "fixed_cost", "num_vehicles")}
    for x in n.values(): S.assume(x >= 0)
    mk = lambda a: SUnion(z3.Bool("no_" + a), None if a == "load_capacity" else 0, SList([seqpart(n[a], lambda k: z3.Function("v_" + a, I, R)(k))]))
    o = S.obj("vrp.VehicleRoutingProblem", **{a: mk(a) for a in n})
    S.call(o, "_define_vehicle_types")
    g = {a: z3.And(z3.Not(z3.Bool("no_" + a)), n[a] > 0) for a in n}
    any_ = z3.Or(*g.values())
    c = o.attrs.get("_vehicle_types")
    if not S.ctx.branch(any_): return
    if c is None or c.v is UNDEF: S.ensure("_define_vehicle_types: set", False); return
    S.ensure("_define_vehicle_types: length of the first list given", num(c.v) == z3.If(g["load_capacity"], n["load_capacity"], z3.If(g["fixed_cost"], n["fixed_cost"], n["num_vehicles"])))


@contract("_format", "C18 C09", V + "_format", "a scalar cost or option becomes a one-element list with the same value; lists are left as they are (so solving again changes nothing)")
def _(S):
    g = network(S); L = z3.Function("is_list", NodeS, NodeS, BOOL); ln = z3.Function("cost_len", NodeS, NodeS, I); c1 = z3.Function("cost1", NodeS, NodeS, R); cl = z3.Function("cost", NodeS, NodeS, I, R)
    a, b = z3.Consts("a b", NodeS); S.assume(S.all([a, b], True, ln(a, b) >= 0))
    g.st.declare("ea", "cost", lambda a, b: SUnion(L(a, b), SList([seqpart(ln(a, b), lambda i: cl(a, b, i))]), c1(a, b)))
    mk = {}; vals = {}
    for x in ("num_vehicles", "fixed_cost", "load_capacity"):
        v = z3.Int("v_" + x); m = z3.Int("len_" + x); S.assume(m >= 0); vals[x] = (v, m)
        lst = SList([seqpart(m, (lambda x: lambda k: z3.Function("l_" + x, I, I)(k))(x))])
        mk[x] = SUnion(z3.Bool("no_" + x), None, SUnion(z3.Bool("list_" + x), lst, v))
    o = S.obj("vrp.VehicleRoutingProblem", G=g, **mk)
    N0, E0 = g.st.N.v, g.st.E.v
    S.call(o, "_format")
    same_struct(S, g, N0, E0, "_format")
    u, v = z3.Consts("u0 v0", NodeS); S.assume(E0.has((u, v)))
    isl = S.ctx.branch(L(u, v))
    c = S.it.force(g.st.attr("ea", "cost").v.get((u, v), S.ctx))
    if not isinstance(c, SList): S.ensure("_format: costs are lists", False); return
    n, f = c.seq(); i = z3.Int("i0")
    if isl: S.ensure("_format: cost lists unchanged", z3.And(num(n) == ln(u, v), z3.Implies(z3.And(i >= 0, i < ln(u, v)), real(S.it.force(f(i))) == cl(u, v, i))))
    else: S.ensure("_format: scalar cost becomes a one-element list", z3.And(num(n) == 1, real(S.it.force(f(z3.IntVal(0)))) == c1(u, v)))
    for x, (v0, m) in vals.items():
        r = S.it.force(S.get(o, x)); no, isl_ = z3.Bool("no_" + x), z3.Bool("list_" + x)
        if isinstance(r, SList):
            n, f = r.seq(); ok = z3.Or(z3.And(z3.Not(no), isl_, num(n) == m, z3.Implies(z3.And(i >= 0, i < m), real(S.it.force(f(i))) == z3.ToReal(z3.Function("l_" + x, I, I)(i)))), z3.And(z3.Not(no), z3.Not(isl_), num(n) == 1, real(S.it.force(f(z3.IntVal(0)))) == z3.ToReal(v0)))
        elif r is None: ok = no
        elif isnum(r): ok = z3.And(z3.Not(no), z3.Not(isl_), v0 == 0, num(r) == 0)
        else: ok = False
        S.ensure("_format: %s is the same value(s) as a list" % x, ok)


def route_in(S, g, n, at):
    i, j = z3.Ints("i j")
    S.assume(n >= 2, at(0) == SRC, at(n - 1) == SNK)
    S.assume(S.all([i], AND(i >= 0, i < n), g.hasN(at(i))), S.all([i], AND(i >= 0, i < n - 1), g.hasE(at(i), at(i + 1))))
    S.assume(S.all([i, j], AND(i >= 0, i < j, j < n), at(i) != at(j)))


@contract("knapsack", "C12 C04", "preprocessing._knapsack", "no set of items within the capacity has more members than the number returned (whole items, every order of them)", opts=dict(unroll=3))
def _(S):
    import ast
    n, C = z3.Ints("n C"); S.assume(n >= 2, C >= 0); w, inT = z3.Function("w", I, I), z3.Function("inT", I, BOOL); i, j, l = z3.Ints("i j l")
    if S.unroll: n, C = S.unroll, 3
    S.assume(S.all([i], AND(i >= 0, i < n), w(i) >= 0))
    cnt, wt = z3.Function("cnt", I, I), z3.Function("wt", I, I)      # of the members of T among the first k items
    S.assume(cnt(0) == 0, wt(0) == 0)
    S.assume(S.all([i], AND(i >= 0, i < n), AND(cnt(i + 1) == cnt(i) + z3.If(inT(i), 1, 0), wt(i + 1) == wt(i) + z3.If(inT(i), w(i), 0))))
    it = S.it
    def spec(s, nd, env, coll):
        if it.unroll or not isinstance(nd, ast.For): return False
        tabs = lambda cells: [c for c in cells if c.rows and s.shape(c.v, c.rows) and not isbool(c.v[0].elem.c.v[0].elem)]
        def tab(cells):
            cs = tabs(cells)
            if len(cs) != 1: raise Unsupported("table of the knapsack")
            seq = SList(cs[0].v).seq(); return lambda k, l: num(seq[1](num(k)).seq()[1](l))
        prev = lambda k: z3.If(k == 0, n - 1, k - 1)      # row -1 is the last one, still 0
        row = lambda M, k, upto: forall([l], z3.Implies(z3.And(wt(k) <= l, l <= upto), M(prev(k), l) >= cnt(k)))
        if any(isinstance(x, ast.For) for b in nd.body for x in ast.walk(b)):
            return s.induct(nd, env, coll, lambda k, cells: z3.And(wt(k) >= 0, row(tab(cells), k, C)), "knapsack: rows")
        k = num(s.rd(env[outs[0]]))      # the row in progress
        return s.induct(nd, env, coll, lambda j, cells: z3.And(row(tab(cells), k, C), forall([l], z3.Implies(z3.And(wt(k + 1) <= l, l < j), tab(cells)(k, l) >= cnt(k + 1)))), "knapsack: one row")
    fn = S.func("preprocessing._knapsack")
    outs = [x.target.id for x in ast.walk(fn.node) if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and any(isinstance(y, ast.For) for b in x.body for y in ast.walk(b))]
    if len(outs) != 1: raise Unsupported("loops of the knapsack")
    it.loopspecs["preprocessing._knapsack"] = spec
    r = S.callf("preprocessing._knapsack", SList([seqpart(n, lambda i: w(i))]), C)
    S.assume(wt(n) <= C)
    S.ensure("knapsack: no feasible set is larger than the bound", cnt(n) <= num(r))


@contract("stop bound", "C12 C04", "preprocessing.get_num_stops_upper_bound", "the limit on stops is the given one or, if smaller, one that no set of customers within the capacity exceeds", opts={})
def _(S):
    g, A = vnet(S, costs=False); Q = z3.Int("Q"); S.assume(Q >= 1); u = z3.Const("u", NodeS)
    for a in ("demand", "collect"): S.assume(S.all([u], g.hasN(u), A[a](u) >= 0))
    dist = S.ctx.branch(z3.Bool("dist")); given = S.ctx.branch(z3.Bool("given")); ns = z3.Int("num_stops") if given else None
    if given: S.assume(ns >= 1)
    T = z3.Int("T"); v = z3.Const("v0", NodeS); S.assume(g.hasN(v), v != SRC, v != SNK, T >= 0)      # the size of a set of customers within the limits
    bounds = []
    def sack(it, so, a, kw):
        a = list(a) + [kw[k] for k in ("weights", "capacity") if k in kw]; l, cap = it.force(a[0]), num(a[1])
        if not isinstance(l, SList): raise Unsupported("weights")
        ps = [p for p in l.c.v]
        if len(ps) != 1 or len(ps[0].bs) != 1 or ps[0].bs[0].sort() != NodeS: raise Unsupported("weights")
        p = ps[0]; b = p.bs[0]; gd, e = subst(B(p.guard), [(b, v)]), num(subst(p.elem, [(b, v)]))
        a_ = "demand" if not any(x == "demand" for x in bounds) else "collect"
        if dist and S.prove(e == z3.ToInt(A["collect"](v))) : a_ = "collect"
        S.ensure("stop bound: every customer is an item", z3.Or(gd, A[a_](v) > z3.ToReal(Q)))
        S.ensure("stop bound: no item weighs more than the customer's load, none less than 0", z3.Implies(gd, z3.And(e >= 0, real(e) <= A[a_](v))))
        S.ensure("stop bound: against the largest capacity", cap == Q)
        r = it.ctx.fresh("most", I); it.ctx.assume(T <= r); bounds.append(a_)      # contract of _knapsack: T customers within the capacity fit
        return r
    S.it.summaries["preprocessing._knapsack"] = sack
    if given: S.assume(T <= ns)
    r = S.callf("preprocessing.get_num_stops_upper_bound", g, Q, ns, dist)
    S.ensure("stop bound: no set of customers within the limits is cut off", T <= num(r))
    if given: S.ensure("stop bound: never more than the given limit", num(r) <= ns)


@contract("routes survive", "C12 C06", V + "_prune_graph " + V + "_remove_infeasible_arcs_capacities " + V + "_remove_infeasible_arcs_time_windows", "every route of any length within a capacity and the windows keeps all its edges, and its times fit the tightened windows (triangle inequality towards the depot)")
def _(S):
    g, A = vnet(S); depot(S, g); S.assume(g.hasE(SRC, SNK)); E0 = g.st.E.v; K = z3.Int("K"); Q = z3.Function("Q", I, R); k = z3.Int("k0"); S.assume(k >= 0, k < K)
    cap, tw = S.ctx.branch(z3.Bool("cap")), S.ctx.branch(z3.Bool("tw"))
    n = z3.Int("n"); r = z3.Function("r", I, NodeS); p, q, p0 = z3.Ints("p q p0"); x, y = z3.Consts("x y", NodeS)
    S.assume(n >= 2, r(0) == SRC, r(n - 1) == SNK)
    S.assume(S.all([p], z3.And(p >= 0, p < n), AND(g.hasN(r(p)), IMP(z3.And(p > 0, p < n - 1), z3.And(r(p) != SRC, r(p) != SNK)))))
    S.assume(S.all([p], z3.And(p >= 0, p < n - 1), E0.has((r(p), r(p + 1)))))
    S.assume(z3.And(p0 >= 0, p0 < n - 1))
    if cap:
        ld = z3.Function("load", I, R); S.assume(S.all([x], g.hasN(x), A["demand"](x) >= 0), ld(0) == 0, S.all([p], z3.And(p >= 0, p < n), ld(p + 1) == ld(p) + A["demand"](r(p))), ld(n) <= Q(k))
        S.assume(S.all([x], g.hasN(x), A["demand"](x) <= Q(z3.Int("largest"))), z3.Int("largest") >= 0, z3.Int("largest") < K, A["demand"](SRC) == 0, A["demand"](SNK) == 0)      # contract of check_feasibility and of the default attributes
        S.ensure("routes survive: lemma loads grow, start", forall([p], z3.Implies(z3.And(p >= 0, p <= n), ld(p) <= ld(p))))
        m = len(S.ctx.pc); S.assume(p >= 0, p <= q, q < n, ld(p) <= ld(q)); S.ensure_at("routes survive: lemma loads grow, step", ld(p) <= ld(q + 1), [p, q, r(q)]); del S.ctx.pc[m:]
        S.assume(S.all([p, q], z3.And(p >= 0, p <= q, q <= n), ld(p) <= ld(q)))      # by induction on q
    if tw:
        t = z3.Function("t", I, R); lw, ser, tm = A["lower"], A["service_time"], A["time"]; mx = lambda a, b: z3.If(a >= b, a, b)
        lo0, up0 = z3.Function("lower", NodeS, R), z3.Function("upper", NodeS, R)
        S.assume(S.all([x], g.hasN(x), ser(x) >= 0))
        tri = lambda x, y: z3.And(tm(SRC, y) <= tm(SRC, x) + ser(x) + tm(x, y), tm(x, SNK) <= tm(x, y) + ser(y) + tm(y, SNK))
        S.assume(S.all([x, y], AND(E0.has((x, y)), x != SRC, y != SNK), tri(x, y)))
        S.assume(t(0) == lw(SRC), S.all([p], z3.And(p >= 0, p < n - 1), t(p + 1) == mx(lw(r(p + 1)), t(p) + ser(r(p)) + tm(r(p), r(p + 1)))), S.all([p], z3.And(p >= 0, p < n), t(p) <= A["upper"](r(p))), ser(SRC) == 0)
        fwd = lambda p: t(p) >= lw(SRC) + tm(SRC, r(p))
        S.ensure_at("routes survive: lemma no stop before the direct trip, start", fwd(z3.IntVal(1)), [z3.IntVal(0), SRC, r(1)])
        m = len(S.ctx.pc); S.assume(q >= 1, q < n - 2, fwd(q)); S.ensure_at("routes survive: lemma no stop before the direct trip, step", fwd(q + 1), [q, q + 1, r(q), r(q + 1)]); del S.ctx.pc[m:]
        S.assume(S.all([p], z3.And(p >= 1, p < n - 1), fwd(p)))
        bwd = lambda p: t(p) + ser(r(p)) + tm(r(p), SNK) <= A["upper"](SNK)
        m = len(S.ctx.pc); S.assume(n >= 3); S.ensure_at("routes survive: lemma back in time, last stop", bwd(n - 2), [n - 2, n - 1, r(n - 2), r(n - 1)]); del S.ctx.pc[m:]
        m = len(S.ctx.pc); S.assume(q >= 1, q < n - 2, bwd(q + 1)); S.ensure_at("routes survive: lemma back in time, step", bwd(q), [q, q + 1, r(q), r(q + 1)]); del S.ctx.pc[m:]
        S.assume(S.all([p], z3.And(p >= 1, p < n - 1), bwd(p)))
        lo, up = windows_spec(S, g, A)
    o = S.obj("vrp.VehicleRoutingProblem", G=g, load_capacity=SList([seqpart(K, lambda i: Q(i))]) if cap else None, time_windows=tw, _max_capacity=None)
    S.call(o, "_prune_graph")
    terms = [p0, p0 + 1, p0 + 2, n, z3.IntVal(0), k, r(p0), r(p0 + 1), SRC, SNK, n - 1]
    if cap: S.hint_at("routes survive: two neighbours fit", A["demand"](r(p0)) + A["demand"](r(p0 + 1)) <= Q(k), terms)
    if tw: S.hint_at("routes survive: the edge can be taken in time", lo(r(p0)) + A["service_time"](r(p0)) + A["time"](r(p0), r(p0 + 1)) <= up(r(p0 + 1)), terms)
    S.ensure_at("routes survive: no edge of a feasible route is removed", g.st.E.v.has((r(p0), r(p0 + 1))), [r(p0), r(p0 + 1), k] if cap and tw else terms)
    if tw:
        l1, u1 = at(S, g, "na", "lower", (r(p0),)), at(S, g, "na", "upper", (r(p0),))
        S.ensure_at("routes survive: its times fit the windows as they are now", z3.And(l1 <= t(p0), t(p0) <= u1), terms)
