"""Input checks (property C14): each documented error is raised exactly when the
input is malformed in that way, for every network and option value."""
from . import *

STRATEGIES = ["Exact", "BestEdges1", "BestEdges2", "BestPaths", "Hyper"]


def outcome(S, kind, bad, what):
    """bad: error kind -> condition.  kind: what the run did on this path"""
    if kind is None:
        for k, c in bad.items(): S.ensure("%s: malformed input is rejected (%s)" % (what, k), NOT(c))
    elif kind in bad: S.ensure("%s: %s only for malformed input" % (what, kind), bad[kind])
    else: S.ensure("%s: only documented errors" % what, False)


def maybe(S, name, v): return SUnion(z3.Bool("none_" + name), None, v)


def network(S, name="G"):
    g = SGraph(GStore(name, True)); u, v = z3.Consts("u v", NodeS)
    S.assume(S.all([u, v], g.hasE(u, v), AND(g.hasN(u), g.hasN(v), u != v)))
    return g


def arguments(S, mixed):
    ns, D = DynNum(z3.Real("ns"), z3.Bool("ns_int")), DynNum(z3.Real("D"), z3.Bool("D_int"))
    K, KV, KF, T = z3.Ints("K KV KF T")
    S.assume(K >= 0, KV >= 0, KF >= 0, T >= 1)
    Q = z3.Function("Q", I, R); Qi = z3.Function("Q_int", I, BOOL)
    u, v = z3.Consts("u v", NodeS); k = z3.Int("k")
    nocap = z3.Bool("none_cap"); nons = z3.Bool("none_ns"); noD = z3.Bool("none_D")
    if mixed:
        S.assume(nons, noD, z3.ForAll([k], z3.And(Q(k) > 0, Qi(k))))      # the first three tests are those of check_arguments (single type)
        cap = SList([seqpart(K, lambda k: z3.Function("Qi", I, I)(k))]); S.assume(z3.ForAll([k], z3.Function("Qi", I, I)(k) > 0)); bns = bD = None
    else: cap = SList([seqpart(K, lambda k: DynNum(Q(k), Qi(k)))]); bns, bD = maybe(S, "ns", ns), maybe(S, "D", D)
    nv = SList([seqpart(KV, lambda k: z3.Function("NV", I, R)(k))]); fc = SList([seqpart(KF, lambda k: z3.Function("FC", I, R)(k))])
    G = network(S); L = z3.Function("is_list", NodeS, NodeS, BOOL); ln = z3.Function("cost_len", NodeS, NodeS, I)
    S.assume(S.all([u, v], True, ln(u, v) >= 0))
    G.st.declare("ea", "cost", lambda a, b: SUnion(L(a, b), SList([seqpart(ln(a, b), lambda i: z3.Function("cost", NodeS, NodeS, I, R)(a, b, i))]), z3.Function("cost1", NodeS, NodeS, R)(a, b)))
    strat = z3.Const("strategy", NodeS)
    kind, _ = S.raised(lambda: S.callf("checks.check_arguments", num_stops=bns, load_capacity=maybe(S, "cap", cap), duration=bD, pricing_strategy=strat, mixed_fleet=mixed,
                                       fixed_cost=SUnion(z3.Bool("nofc"), 0, fc), G=G, vehicle_types=T, num_vehicles=nv, use_all_vehicles=z3.Bool("all") if not mixed else False))
    x = ns.term; y = D.term
    hascap = z3.And(z3.Not(nocap), K > 0); hasfc = z3.And(z3.Not(z3.Bool("nofc")), KF > 0)
    bt = z3.Or(z3.And(z3.Not(nons), x != 0, z3.Or(z3.Not(ns.isint), x <= 0)), z3.And(z3.Not(nocap), z3.Exists([k], z3.And(k >= 0, k < K, z3.Or(z3.Not(Qi(k)), Q(k) <= 0)))),
               z3.And(z3.Not(noD), y != 0, z3.Or(z3.Not(D.isint), y < 0)), z3.And(mixed, z3.Exists([u, v], z3.And(B(G.hasE(u, v)), z3.Not(L(u, v))))))
    bv = z3.Or(z3.And(*[strat != strnode(t) for t in STRATEGIES]),
               z3.And(mixed, z3.Or(z3.And(hascap, KV > 0, K != KV), z3.And(hascap, hasfc, K != KF), z3.And(KV > 0, hasfc, KV != KF), z3.Exists([u, v], z3.And(B(G.hasE(u, v)), L(u, v), ln(u, v) != T)))))
    outcome(S, kind, {"TypeError": bt, "ValueError": bv}, "check_arguments")


@contract("check_arguments", "C14", "checks.check_arguments", "TypeError / ValueError exactly on wrong types, signs and strategies", limits=(100, 400), cost=5)
def _(S): arguments(S, False)


@contract("check_arguments (mixed fleet)", "C14", "checks.check_arguments", "TypeError / ValueError exactly on wrong dimensions and cost lists", limits=(100, 400), cost=5)
def _(S): arguments(S, True)


@contract("check_clarke_wright", "C14", "checks.check_clarke_wright_compatibility", "ValueError exactly when an incompatible option is active")
def _(S):
    o = [z3.Bool(n) for n in ("tw", "pd", "dc", "mixed", "periodic")]
    kind, _ = S.raised(lambda: S.callf("checks.check_clarke_wright_compatibility", *o))
    outcome(S, kind, {"ValueError": z3.Or(*o)}, "check_clarke_wright_compatibility")


@contract("check_vrp", "C14", "checks.check_vrp", "depot present, not wired backwards, costs present; missing depot links are added; nothing else is changed", cost=3)
def _(S):
    G = network(S)
    hc = z3.Function("has_cost", NodeS, NodeS, BOOL); co = z3.Function("cost", NodeS, NodeS, R)
    G.st.declare("ea", "cost", lambda u, v: co(u, v), lambda u, v: hc(u, v))
    N0, E0 = G.st.N.v, G.st.E.v
    u, v = z3.Consts("u v", NodeS)
    kind, _ = S.raised(lambda: S.callf("checks.check_vrp", G))
    cust = lambda v: z3.And(B(N0.has((v,))), v != SRC, v != SNK)
    miss = z3.Or(z3.Not(B(N0.has((SRC,)))), z3.Not(B(N0.has((SNK,)))))
    back = z3.Or(z3.Exists([u], B(E0.has((u, SRC)))), z3.Exists([u], B(E0.has((SNK, u)))))
    nocost = z3.Exists([u, v], z3.And(B(E0.has((u, v))), z3.Not(hc(u, v))))
    conn = z3.Or(B(E0.has((SRC, SNK))), z3.Exists([u], cust(u)))
    # a missing depot node is reported as KeyError or (from networkx, pinned by test_consistency.py) NetworkXError
    outcome(S, kind, {"KeyError": z3.Or(miss, nocost), "NetworkXError": z3.Or(miss, back, z3.Not(conn))}, "check_vrp")
    if kind is None:
        a, b = z3.Consts("a0 b0", NodeS)
        E1, N1 = G.st.E.v, G.st.N.v
        S.ensure("check_vrp: customers are linked to the depot", IMP(cust(a), AND(E1.has((SRC, a)), E1.has((a, SNK)))))
        S.ensure("check_vrp: edges added are only depot links", IMP(E1.has((a, b)), OR(E0.has((a, b)), AND(a == SRC, cust(b)), AND(b == SNK, cust(a)))))
        S.ensure("check_vrp: no edge or node removed, no node added", AND(IMP(E0.has((a, b)), E1.has((a, b))), B(N0.has((a,))) == B(N1.has((a,)))))
        S.ensure("check_vrp: costs of the input are kept", IMP(E0.has((a, b)), S.ctx.under([], E0.has((a, b)), lambda: real(G.st.attr("ea", "cost").v.get((a, b), S.ctx))) == co(a, b)))


@contract("check_initial_routes", "C14", "checks.check_initial_routes", "ValueError exactly on a route not from Source to Sink, KeyError exactly on a missing customer, edge or cost", cost=3)
def _(S):
    G = network(S); hc = z3.Function("has_cost", NodeS, NodeS, BOOL)
    G.st.declare("ea", "cost", lambda u, v: z3.Function("cost", NodeS, NodeS, R)(u, v), lambda u, v: hc(u, v))
    M = z3.Int("M"); n = z3.Function("n", I, I); at = z3.Function("route", I, I, NodeS); S.assume(M >= 0)
    r, i = z3.Ints("r i"); S.assume(z3.ForAll([r], n(r) >= 1))
    routes = SList([seqpart(M, lambda r: SList([seqpart(n(r), lambda i: at(r, i))]))])
    kind, _ = S.raised(lambda: S.callf("checks.check_initial_routes", initial_routes=routes, G=G))
    v = z3.Const("v", NodeS); inr = z3.And(r >= 0, r < M)
    bv = z3.Exists([r], z3.And(inr, z3.Or(at(r, 0) != SRC, at(r, n(r) - 1) != SNK)))
    missing = z3.Exists([v], z3.And(B(G.hasN(v)), v != SRC, v != SNK, z3.Not(z3.Exists([r, i], z3.And(inr, i >= 0, i < n(r), at(r, i) == v)))))
    edge = z3.Exists([r, i], z3.And(inr, i >= 0, i < n(r) - 1, z3.Or(z3.Not(B(G.hasE(at(r, i), at(r, i + 1)))), z3.Not(hc(at(r, i), at(r, i + 1))))))
    outcome(S, kind, {"ValueError": bv, "KeyError": z3.Or(missing, edge)}, "check_initial_routes")


@contract("check_preassignments", "C14", "checks.check_preassignments", "ValueError exactly when an edge of a preassigned route is not in the network")
def _(S):
    G = network(S); M = z3.Int("M"); n = z3.Function("n", I, I); at = z3.Function("route", I, I, NodeS); S.assume(M >= 0)
    r, i = z3.Ints("r i"); S.assume(z3.ForAll([r], n(r) >= 1))
    routes = SList([seqpart(M, lambda r: SList([seqpart(n(r), lambda i: at(r, i))]))])
    kind, _ = S.raised(lambda: S.callf("checks.check_preassignments", routes, G))
    bad = z3.Exists([r, i], z3.And(r >= 0, r < M, i >= 0, i < n(r) - 1, z3.Not(B(G.hasE(at(r, i), at(r, i + 1))))))
    outcome(S, kind, {"ValueError": bad}, "check_preassignments")


@contract("check_consistency", "C14 C07", "checks.check_consistency", "pickup and delivery with cspy -> NotImplementedError; without any request -> KeyError; otherwise accepted")
def _(S):
    G = network(S); cs, pd = z3.Bools("cspy pd"); strat = z3.Const("strategy", NodeS); v = z3.Const("v", NodeS)
    hr = z3.Function("has_request", NodeS, BOOL)
    G.st.declare("na", "request", lambda v: z3.Function("request", NodeS, NodeS)(v), lambda v: hr(v))
    kind, _ = S.raised(lambda: S.callf("checks.check_consistency", cspy=cs, pickup_delivery=pd, pricing_strategy=strat, G=G))
    outcome(S, kind, {"NotImplementedError": z3.And(cs, pd), "KeyError": z3.And(pd, z3.Not(z3.Exists([v], z3.And(B(G.hasN(v)), hr(v)))))}, "check_consistency")


@contract("check_feasibility", "C14", "checks.check_feasibility", "ValueError exactly when a demand exceeds every capacity or the fastest trip to a customer and back exceeds the duration", cost=2)
def _(S):
    G = network(S); dem = z3.Function("demand", NodeS, R); v = z3.Const("v", NodeS); k = z3.Int("k")
    G.st.declare("na", "demand", lambda v: dem(v)); G.st.declare("ea", "time", lambda u, v: z3.Function("time", NodeS, NodeS, R)(u, v))
    S.assume(G.hasN(SRC), G.hasN(SNK), S.all([v], AND(G.hasN(v), v != SRC, v != SNK), AND(G.hasE(SRC, v), G.hasE(v, SNK))))
    K = z3.Int("K"); S.assume(K >= 1); Q = z3.Function("Q", I, R); D = z3.Real("D"); S.assume(D >= 0)
    cap = SList([seqpart(K, lambda k: Q(k))])
    kind, _ = S.raised(lambda: S.callf("checks.check_feasibility", load_capacity=maybe(S, "cap", cap), G=G, duration=maybe(S, "D", D)))
    sp = z3.Function("splen_G_time", NodeS, NodeS, R)
    big = z3.And(z3.Not(z3.Bool("none_cap")), z3.Exists([v], z3.And(B(G.hasN(v)), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < K), dem(v) > Q(k))))))
    far = z3.And(z3.Not(z3.Bool("none_D")), D != 0, z3.Exists([v], z3.And(B(G.hasN(v)), v != SRC, v != SNK, sp(SRC, v) + sp(v, SNK) > D)))
    outcome(S, kind, {"ValueError": z3.Or(big, far)}, "check_feasibility")


@contract("check_seed", "C14", "checks.check_seed", "None, an int or a RandomState give a RandomState; anything else TypeError")
def _(S):
    from pyvc.ext import AnyObj
    RS = []
    S.it.ext["numpy.random.RandomState"] = lambda it, a, kw: RS.append(tuple(a)) or AnyObj("RandomState")
    sel = z3.Int("which"); S.assume(sel >= 0, sel <= 3)
    for n, (val, ok) in enumerate(((None, True), (z3.Int("seed"), True), (AnyObj("RandomState"), True), (OpaqueStr("x"), False))):
        if n == 3 or S.ctx.branch(sel == n):
            kind, r = S.raised(lambda: S.callf("checks.check_seed", val))
            S.ensure("check_seed: accepted exactly when usable", kind is None if ok else kind == "TypeError")
            if ok: S.ensure("check_seed: returns a RandomState", isinstance(r, AnyObj) and r.what == "RandomState")
            if n == 2: S.ensure("check_seed: a RandomState is returned as given", r is val)
            if n == 1: S.ensure("check_seed: seeded with the given number", len(RS) == 1 and len(RS[0]) == 1 and isz(RS[0][0]) and RS[0][0].eq(val))
            return


@contract("check_pd_time_windows", "C14 C07", "checks.check_pickup_delivery_time_windows", "ValueError exactly when an edge of the request's direct trip is gone")
def _(S):
    G = network(S); n = z3.Int("n"); S.assume(n >= 0); a, b = z3.Function("a", I, NodeS), z3.Function("b", I, NodeS); i = z3.Int("i")
    edges = SList([seqpart(n, lambda i: (a(i), b(i)))])
    kind, _ = S.raised(lambda: S.callf("checks.check_pickup_delivery_time_windows", G, edges))
    outcome(S, kind, {"ValueError": z3.Exists([i], z3.And(i >= 0, i < n, z3.Not(B(G.hasE(a(i), b(i))))))}, "check_pickup_delivery_time_windows")


@contract("check_periodic_num_vehicles", "C15 C11", "checks.check_periodic_num_vehicles", "the fleet limit goes to the schedule when a planning period is given, to the master problem otherwise")
def _(S):
    per = z3.Int("periodic"); S.assume(per >= 0); KV = z3.Int("KV"); S.assume(KV >= 0); nv = SList([seqpart(KV, lambda k: z3.Function("NV", I, R)(k))])
    r = S.callf("checks.check_periodic_num_vehicles", periodic=maybe(S, "per", per), num_vehicles=nv)
    isper = z3.And(z3.Not(z3.Bool("none_per")), per != 0)
    a, b = [S.it.force(x) for x in r]
    on = S.ctx.decide(z3.And(isper, KV > 0))
    S.ensure("periodic: limit kept for the schedule only", IMP(z3.And(isper, KV > 0), AND(S.it.is_empty(a), b is nv)))
    S.ensure("not periodic: limit kept for the master problem only", IMP(z3.Not(isper), AND(a is nv or AND(S.it.is_empty(a), KV == 0), S.it.is_empty(b))))
