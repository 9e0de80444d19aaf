"""Reported costs, loads and times (properties C09, C10): the properties of
VehicleRoutingProblem, for every set of routes on every network."""
from . import *


def plan(S, **attrs):
    """a solved problem: routes R (any set of ids), route(id, i) of length n(id), type(id) < K; H the input network"""
    Rt = z3.Function("R", I, BOOL); n = z3.Function("n", I, I); at = z3.Function("route", I, I, NodeS); ty = z3.Function("type", I, I)
    K = z3.Int("K")
    if S.unroll: n = lambda r: z3.IntVal(S.unroll)
    H = SGraph(GStore("H", True)); st = H.st
    cost = z3.Function("cost", NodeS, NodeS, I, R)
    st.declare("ea", "cost", lambda u, v: SList([seqpart(K, lambda k: cost(u, v, k))]))
    att = {}
    for a in ("demand", "collect", "service_time", "lower", "upper"):
        att[a] = z3.Function(a, NodeS, R); st.declare("na", a, (lambda f: lambda v: f(v))(att[a]))
    att["time"] = z3.Function("time", NodeS, NodeS, R); st.declare("ea", "time", lambda u, v: att["time"](u, v))
    r, i, j = z3.Ints("r i j")
    S.assume(K >= 1)
    S.assume(S.all([r], Rt(r), AND(n(r) >= 2, at(r, 0) == SRC, at(r, n(r) - 1) == SNK, ty(r) >= 0, ty(r) < K)))
    S.assume(S.all([r, i], AND(Rt(r), i >= 0, i < n(r)), H.hasN(at(r, i))))
    S.assume(S.all([r, i], AND(Rt(r), i >= 0, i < n(r) - 1), H.hasE(at(r, i), at(r, i + 1))))
    S.assume(S.all([r, i, j], AND(Rt(r), i >= 0, i < j, j < n(r)), at(r, i) != at(r, j)))
    routes = SDict(FMap(FnBase(lambda r: Rt(r), lambda r: seqof(S, n(r), lambda i: at(r, i)))), [I])
    types = SDict(FMap(FnBase(lambda r: Rt(r), lambda r: ty(r))), [I])
    o = S.obj("vrp.VehicleRoutingProblem", _best_routes=routes, _best_routes_vehicle_type=types, _H=H, G=H, **attrs)
    class P: pass
    P.Rt, P.n, P.at, P.ty, P.K, P.H, P.cost, P.att, P.o = Rt, n, at, ty, K, H, cost, att, o
    return P


def seqof(S, n, fn):
    if S.unroll: return SList.of(*[fn(z3.IntVal(i)) for i in range(S.unroll)])
    return SList([seqpart(n, fn)])


def opts(S, **kw):
    d = dict(load_capacity=None, duration=None, time_windows=False, pickup_delivery=False, distribution_collection=False, drop_penalty=None, minimize_global_span=False, periodic=None, mixed_fleet=False, fixed_cost=0)
    d.update(kw); return d


def route_cost(S, P, r):
    i = fresh_const(I, "i")
    return S.ctx.sum([i], AND(i >= 0, i < P.n(r) - 1), P.cost(P.at(r, i), P.at(r, i + 1), P.ty(r)))


@contract("best_routes_cost", "C09", "vrp.VehicleRoutingProblem.best_routes_cost", "cost of each route = sum over its edges of the edge cost for the route's vehicle type; same ids as the routes", opts=dict(unroll=4))
def _(S):
    P = plan(S, **opts(S))
    d = S.get(P.o, "best_routes_cost")
    r = z3.Int("r0"); S.assume(P.Rt(r))
    S.ensure("every route has a cost", d.c.v.has((r,)))
    S.ctx.binders.append(r)
    S.ensure("cost is the sum of its edges", real(d.c.v.get((r,), S.ctx)) == route_cost(S, P, r))
    q = z3.Int("q0"); S.assume(NOT(P.Rt(q)))
    S.ensure("no cost for anything else", NOT(d.c.v.has((q,))))


@contract("best_value", "C09", "vrp.VehicleRoutingProblem.best_value", "solution value = sum (or maximum with global span) of route costs + penalty per dropped customer")
def _(S):
    nd = z3.Int("dropped"); S.assume(nd >= 0)
    pen = z3.Real("penalty"); span = z3.Bool("span")
    dropped = SList([seqpart(nd, lambda i: z3.Function("dropped_at", I, NodeS)(i))])
    P = plan(S, **opts(S, drop_penalty=pen, minimize_global_span=span, _dropped_nodes=dropped))
    c = z3.Function("route_cost", I, R)
    S.it.summaries["vrp.VehicleRoutingProblem.best_routes_cost"] = lambda it, o, a, k: SDict(FMap(FnBase(lambda r: P.Rt(r), lambda r: c(r))), [I])
    r = z3.Int("r1"); S.assume(P.Rt(r))
    v = S.get(P.o, "best_value")
    v = real(S.it.force(v))
    tot = S.ctx.sum([z3.Int("q")], P.Rt(z3.Int("q")), c(z3.Int("q")))
    S.ensure("sum of route costs plus penalties", IMP(z3.Not(span), v == tot + pen * z3.ToReal(nd)))
    S.ensure("maximum route cost plus penalties when the span is minimised", IMP(span, z3.And(c(r) + pen * z3.ToReal(nd) <= v, z3.Exists([z3.Int("q")], z3.And(P.Rt(z3.Int("q")), v == c(z3.Int("q")) + pen * z3.ToReal(nd))))))


@contract("best_routes_load", "C10", "vrp.VehicleRoutingProblem.best_routes_load", "load of each route = total demand along it (whenever loads are reported)", opts=dict(unroll=4))
def _(S):
    cap = SList([seqpart(z3.Int("K"), lambda k: z3.Function("Q", I, R)(k))])
    dc, pd = z3.Bool("dc"), z3.Bool("pd")
    P = plan(S, **opts(S, load_capacity=cap, distribution_collection=dc, pickup_delivery=pd))
    d = S.get(P.o, "best_routes_load")
    r = z3.Int("r0"); S.assume(P.Rt(r))
    S.ensure("reported for every route of a plain capacitated problem", IMP(NOT(OR(dc, pd)), d.c.v.has((r,))))
    if not S.ctx.branch(B(d.c.v.has((r,)))): return
    S.ctx.binders.append(r)
    i = fresh_const(I, "i")
    S.ensure("load is the total demand", real(d.c.v.get((r,), S.ctx)) == S.ctx.sum([i], AND(i >= 0, i < P.n(r)), P.att["demand"](P.at(r, i))))


@contract("best_routes_duration", "C10", "vrp.VehicleRoutingProblem.best_routes_duration", "duration of each route = travel times + service times along it", opts=dict(unroll=4))
def _(S):
    P = plan(S, **opts(S, duration=z3.Int("D"), time_windows=z3.Bool("tw")))
    S.assume(z3.Or(z3.Int("D") > 0, z3.Bool("tw")))
    d = S.get(P.o, "best_routes_duration")
    r = z3.Int("r0"); S.assume(P.Rt(r))
    S.ensure("every route has a duration", d.c.v.has((r,)))
    S.ctx.binders.append(r)
    i = fresh_const(I, "i")
    S.ensure("duration is travel plus service", real(d.c.v.get((r,), S.ctx)) == S.ctx.sum([i], AND(i >= 0, i < P.n(r) - 1), P.att["time"](P.at(r, i), P.at(r, i + 1))) + S.ctx.sum([i], AND(i >= 0, i < P.n(r)), P.att["service_time"](P.at(r, i))))


def nested(S, d, r):
    """inner map of a dict of dicts"""
    x = S.it.force(d.c.v.get((r,), S.ctx))
    return x.c.v


def scalars(cells): return [c for c in cells if not isinstance(c.v, (FMap, tuple, Poison)) and isz(c.v) and z3.is_arith(c.v)]
def maps(cells): return [c for c in cells if isinstance(c.v, FMap)]


def onlyone(xs, what):
    if len(xs) != 1: raise Unsupported("loop state not recognised (%s)" % what)
    return xs[0]


def in_route(P, r):
    """index bounds"""
    return lambda i: AND(i >= 0, i < P.n(r))


@contract("node_load", "C10", "vrp.VehicleRoutingProblem.node_load", "load after each node = accumulated demand (capacity + collected - distributed when simultaneous)", opts=dict(unroll=4))
def _(S):
    Q = z3.Function("Q", I, R); dc, pd = z3.Bool("dc"), z3.Bool("pd")
    cap = SList([seqpart(z3.Int("K"), lambda k: Q(k))])
    P = plan(S, **opts(S, load_capacity=cap, distribution_collection=dc, pickup_delivery=pd))
    PS = z3.Function("load_after", I, I, R)      # accumulated over the first i nodes of route r
    r, i = z3.Ints("r i")
    term = lambda r, i: z3.If(dc, P.att["collect"](P.at(r, i)) - P.att["demand"](P.at(r, i)), P.att["demand"](P.at(r, i)))
    S.assume(z3.ForAll([r], PS(r, 0) == z3.If(dc, Q(P.ty(r)), z3.RealVal(0))))
    S.assume(z3.ForAll([r, i], z3.Implies(i >= 0, PS(r, i + 1) == PS(r, i) + term(r, i)), patterns=[PS(r, i + 1)]))
    def loop(it, n, env, coll):
        coll = it.force(coll)
        if not isinstance(coll, SList): return False
        rid = S.ctx.binders[0]
        def inv(k, cells):
            acc = onlyone([c for c in cells if isnum(c.v) and not isinstance(c.v, bool)], "accumulator")
            out = onlyone(maps(cells), "loads"); m = fresh_const(I, "m")
            S.ctx.read(out, None)
            inside = S.all([m], AND(m >= 0, m < k), AND(out.v.has((P.at(rid, m),)), S.it.ctx.under([m], AND(m >= 0, m < k, B(out.v.has((P.at(rid, m),)))), lambda: out.v.get((P.at(rid, m),), S.ctx)) == PS(rid, m + 1))) if not (z3.is_int_value(k) and k.as_long() == 0) else True
            return AND(real(acc.v) == PS(rid, k), inside)
        return it.induct(n, env, coll, inv, "loop invariant (load so far)")
    if not S.unroll: S.it.loopspecs["vrp.VehicleRoutingProblem.node_load"] = loop
    d = S.get(P.o, "node_load")
    q = z3.Int("r0"); S.assume(P.Rt(q))
    S.ensure("every route is reported", d.c.v.has((q,)))
    S.ctx.binders.append(q)
    f = nested(S, d, q)
    j = z3.Int("j0"); S.assume(j >= 0, j < P.n(q))
    S.ensure("load after each node", AND(f.has((P.at(q, j),)), real(f.get((P.at(q, j),), S.ctx)) == PS(q, j + 1)))


def arrivals(S, P):
    A = z3.Function("arrival", I, I, R); r, i = z3.Ints("r i"); t = P.att
    S.assume(z3.ForAll([r], A(r, 0) == t["lower"](SRC)))
    step = A(r, i) + t["service_time"](P.at(r, i)) + t["time"](P.at(r, i), P.at(r, i + 1))
    S.assume(z3.ForAll([r, i], z3.Implies(i >= 0, A(r, i + 1) == z3.If(step >= t["lower"](P.at(r, i + 1)), step, t["lower"](P.at(r, i + 1)))), patterns=[A(r, i + 1)]))
    return A


def filled(S, P, rid, out, k, val):
    """positions 0..k of route rid are in the map with value val(m)"""
    m = fresh_const(I, "m"); S.ctx.read(out, None)
    g = AND(m >= 0, m <= k)
    return S.all([m], g, AND(out.v.has((P.at(rid, m),)), S.ctx.under([m], AND(g, B(out.v.has((P.at(rid, m),)))), lambda: real(out.v.get((P.at(rid, m),), S.ctx))) == val(m)))


@contract("arrival_time", "C10 C06", "vrp.VehicleRoutingProblem.arrival_time", "arrival at the first node is the Source's earliest time; at each next node max(previous arrival + service + travel, start of its window)", opts=dict(unroll=4))
def _(S):
    P = plan(S, **opts(S, duration=z3.Int("D"), time_windows=z3.Bool("tw")))
    S.assume(z3.Or(z3.Int("D") > 0, z3.Bool("tw")))
    A = arrivals(S, P)
    def loop(it, n, env, coll):
        coll = it.force(coll)
        if isinstance(coll, SDict): return False
        rid = S.ctx.binders[0]
        sq = coll if isinstance(coll, SList) else SList(it.parts(coll))
        clock = None
        def inv(k, cells):
            nonlocal clock
            if clock is None: clock = [c for c in cells if isnum(c.v) and not isinstance(c.v, bool) and S.prove(real(c.v) == A(rid, 0))]      # a running arrival time, if the loop keeps one
            out = onlyone(maps(cells), "arrivals")
            return AND(filled(S, P, rid, out, k, lambda m: A(rid, m)), *[real(c.v) == A(rid, k) for c in clock])
        return it.induct(n, env, sq, inv, "loop invariant (arrivals so far)")
    if not S.unroll: S.it.loopspecs["vrp.VehicleRoutingProblem.arrival_time"] = loop
    d = S.get(P.o, "arrival_time")
    q = z3.Int("r0"); S.assume(P.Rt(q))
    S.ensure("every route is reported", d.c.v.has((q,)))
    S.ctx.binders.append(q)
    f = nested(S, d, q)
    j = z3.Int("j0"); S.assume(j >= 0, j < P.n(q))
    S.ensure("arrival at each node", AND(f.has((P.at(q, j),)), real(f.get((P.at(q, j),), S.ctx)) == A(q, j)))


@contract("departure_time", "C10", "vrp.VehicleRoutingProblem.departure_time", "departure = arrival + service time at every customer and the Sink", opts=dict(unroll=4))
def _(S):
    P = plan(S, **opts(S, duration=z3.Int("D"), time_windows=z3.Bool("tw")))
    S.assume(z3.Or(z3.Int("D") > 0, z3.Bool("tw")))
    A = arrivals(S, P)
    inner = z3.Function("arr_node", I, NodeS, R); rr, i = z3.Ints("rr i")
    # the contract of arrival_time
    S.assume(S.all([rr, i], AND(P.Rt(rr), i >= 0, i < P.n(rr)), inner(rr, P.at(rr, i)) == A(rr, i)))
    on = z3.Function("on_route", I, NodeS, BOOL)
    S.assume(S.all([rr, i], AND(P.Rt(rr), i >= 0, i < P.n(rr)), on(rr, P.at(rr, i))))
    S.it.summaries["vrp.VehicleRoutingProblem.arrival_time"] = lambda it, o, a, k: SDict(FMap(FnBase(lambda r: P.Rt(r), lambda r: SDict(FMap(FnBase(lambda v: on(r, v), lambda v: inner(r, v))), [NodeS]))), [I])
    d = S.get(P.o, "departure_time")
    q = z3.Int("r0"); S.assume(P.Rt(q))
    S.ensure("every route is reported", d.c.v.has((q,)))
    S.ctx.binders.append(q)
    f = nested(S, d, q)
    j = z3.Int("j0"); S.assume(j >= 1, j < P.n(q))
    S.ensure("departure from each node", AND(f.has((P.at(q, j),)), real(f.get((P.at(q, j),), S.ctx)) == A(q, j) + P.att["service_time"](P.at(q, j))))
