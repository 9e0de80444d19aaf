"""The column generation procedure and what surrounds it (C01, C03-C09, C11,
C13, C16, C18): which subproblem is set up and run, when the search ends,
how initial, preassigned and final routes are converted."""
from . import *
from .prep import vnet, depot, at, cost_at, same_struct, NA
from .pricing import pool
from .columns import B_, C_
from pyvc import ext

V_ = "vrp.VehicleRoutingProblem"
OPTS = ("num_stops", "load_capacity", "duration", "time_windows", "pickup_delivery", "distribution_collection")


@contract("subproblem options", "C03 C04 C05 C06 C07 C08 C13 C18", V_ + "._def_subproblem", "every pricing problem works on the current network, duals, columns and vehicle type, under the limits in force at this call")
def _(S):
    g, A = vnet(S); depot(S, g); k = z3.Int("k"); S.assume(k >= 0, k < z3.Int("K"))
    g.st.declare("ea", "weight", lambda u, v: z3.Function("weight", NodeS, NodeS, R)(u, v)); g.st.declare("ea", "res_cost", lambda u, v: None, False)
    c0 = z3.Const("c0", NodeS); S.assume(AND(g.hasN(c0), c0 != SRC, c0 != SNK))
    routes, idx, n0, ln, fam = pool(S, lambda v: B(g.hasN(v)))
    val = dict(num_stops=SUnion(z3.Bool("no_stops"), None, z3.Int("num_stops")), load_capacity=SUnion(z3.Bool("no_cap"), None, SList([seqpart(z3.Int("K"), lambda j: z3.Function("Q", I, R)(j))])),
               duration=SUnion(z3.Bool("no_duration"), None, z3.Real("duration")), time_windows=z3.Bool("tw"), pickup_delivery=z3.Bool("pd"), distribution_collection=z3.Bool("dc"))
    ran = []
    def part(n):
        def f(it, so, a, kw):      # own contracts
            ran.append(n)
            if n[0] == "r":
                for x, y in (("sub_G", g), ("run_subsolve", z3.Bool("connected"))): it.wr(so.cell(x), y)
        return f
    for n in ("add_reduced_cost_attribute", "remove_edges_1", "remove_edges_2", "remove_edges_3"): S.it.summaries[B_ + "." + n] = part(n)
    cs = S.ctx.branch(z3.Bool("cspy"))
    o = S.obj(V_, G=g, _routes_with_node=idx, _routes=routes, _cspy=cs, _elementary=z3.Bool("elementary"), _solver="cbc", **val)
    w = S.ctx.choose(3); S.ctx.cond(z3.Int("kind") == w)
    du = SDict(name="duals"); route = SGraph(fam, (z3.Int("own"),))
    if w == 0: sp = S.call(o, "_def_subproblem", du, k, route)
    elif w == 1: sp = S.call(o, "_def_subproblem", du, k, route, "BestEdges1", z3.Real("alpha"))
    else: sp = S.call(o, "_def_subproblem", du, k, greedy=True)
    sp = S.it.force(sp); what = ("exact", "heuristic", "greedy")[w] + " pricing"
    if not isinstance(sp, SObj): raise Unsupported("subproblem")
    S.ensure(what + ": by the method asked for", sp.cls.name == ("_SubProblemGreedy" if w == 2 else "_SubProblemCSPY" if cs else "_SubProblemLP"))
    G2 = S.it.force(S.get(sp, "G")); S.ensure(what + ": on the current network", isinstance(G2, SGraph) and G2.st is g.st)
    S.ensure(what + ": with the current duals", S.it.force(S.get(sp, "duals")) is du)
    S.ensure(what + ": adds to the current columns", S.it.force(S.get(sp, "routes")) is routes and S.it.force(S.get(sp, "routes_with_node")) is idx)
    S.ensure(what + ": for the vehicle type asked for", num(S.it.force(S.get(sp, "vehicle_type"))) == k)
    for a in OPTS:
        x = S.it.getattr(sp, a); y = val[a]
        same = x is y or S.it.equal(x, y) if not isinstance(y, SUnion) else None
        if same is None:
            x = S.it.force(x); no = S.ctx.decide(y.cond)
            if no is None: no = S.ctx.branch(y.cond)
            same = x is None if no else x is y.b or (isnum(x) and isnum(y.b) and num(x) == num(y.b))
        S.ensure(what + ": %s as given" % a, same)
    if w == 0: S.ensure("exact pricing: no edge is removed", not any(n.startswith("remove") for n in ran))
    if w < 2: r = S.it.force(S.get(sp, "route")) if sp.attrs.get("route") else None; S.ensure(what + ": for the route asked for", not sp.attrs.get("route") or r is route or isinstance(r, SGraph) and r.st is fam and r.ids == route.ids)


def bound(S, qual, a, kw):
    """the arguments of a call by parameter name, defaults as in the source"""
    f = S.func(qual); ar = f.node.args; ns = [x.arg for x in ar.args][1:]; d = dict(zip(ns, a)); d.update(kw)
    for n, x in zip(ns[len(ns) - len(ar.defaults):], ar.defaults):
        if n not in d:
            try: d[n] = __import__("ast").literal_eval(x)
            except ValueError: raise Unsupported("default of %s" % n)
    return {n: S.it.force(x) for n, x in d.items()}


def pricing_log(S, found=None):
    """pricing problems as their contracts describe them: each solve answers whether it added a column"""
    log = []; routes = SList([seqpart(z3.Int("n_pool"), lambda i: SGraph(GStore("pool", True, [I]), (i,)))]); S.assume(z3.Int("n_pool") >= 0)
    def make(it, so, a, kw):
        o = ext.AnyObj("subproblem"); o.args = bound(S, V_ + "._def_subproblem", a, kw); o.found = None; log.append(o); return o
    def meth(it, o, n, a, kw):
        if o.what != "subproblem" or n != "solve": raise Unsupported("method %s" % n)
        o.found = it.ctx.fresh("found", BOOL); o.limits = [it.force(x) for x in list(a) + list(kw.values())]
        return (routes, o.found)
    S.it.summaries[V_ + "._def_subproblem"] = make; S.it.anymethod = meth
    return log, routes


def options(*but):
    """the solver options a function under contract may not depend on: arbitrary"""
    return {a: z3.Bool("opt" + a) for a in ("_greedy", "_dive", "_cspy", "_exact", "_heuristic_only", "minimize_global_span", "mixed_fleet", "time_windows", "pickup_delivery", "distribution_collection", "use_all_vehicles") if a not in but}


@contract("pricing attempts", "C13", V_ + "._solve_subproblem_with_heuristic " + V_ + "._attempt_solve_best_paths " + V_ + "._attempt_solve_best_edges1 " + V_ + "._attempt_solve_best_edges2 " + V_ + "._attempt_solve_exact",
          "without the adaptive strategy 'no column' is only answered after exact pricing found none; a column answered is the last one found")
def _(S):
    log, routes = pricing_log(S)
    hyper = S.ctx.branch(z3.Bool("hyper")); st = ("BestPaths", "BestEdges1", "BestEdges2", "Exact")[S.ctx.choose(4)]
    o = S.obj(V_, _pricing_strategy="Hyper" if hyper else st, _time_limit=None, _start_time=z3.Real("start"), _more_routes=z3.Bool("more0"), routes=SList(), **options())
    k = z3.Int("k"); du = SDict(name="duals"); route = SGraph(GStore("pool", True, [I]), (z3.Int("own"),))
    r = S.it.truth(S.call(o, "_solve_subproblem_with_heuristic", pricing_strategy=st, vehicle=k, duals=du, route=route))
    if not log: S.ensure("pricing: some pricing problem is solved", False); return
    for q in log:
        S.ensure("pricing: with the given duals, type and route", AND(q.args.get("duals") is du, num(q.args.get("vehicle_type", -1)) == k, isinstance(q.args.get("route"), SGraph) and q.args["route"].ids == route.ids, q.args.get("greedy") is False))
        S.ensure("pricing: is solved", q.found is not None)
    if any(q.found is None for q in log): return
    S.ensure("pricing: answers whether the last pricing problem added a column", B(r) == log[-1].found)
    S.ensure("pricing: stops at the first column", z3.And(*[z3.Not(q.found) for q in log[:-1]]) if len(log) > 1 else True)
    S.ensure("pricing: the columns are those of the last pricing problem", S.it.force(S.get(o, "routes")) is routes)
    exact = log[-1].args.get("pricing_strategy") == "Exact"
    if not hyper: S.ensure("pricing: 'no column' only after exact pricing", IMP(NOT(r), exact))


@contract("column generation step", "C13 C01", V_ + "._find_columns", "one step solves the relaxed master problem and prices with its duals; it reports no column only if no vehicle type has one, and a column reported is given to the master problem", opts=dict(unroll=2))
def _(S):
    fam = GStore("pool", True, [I]); n = z3.Int("n_pool") if not S.unroll else z3.IntVal(S.unroll); S.assume(n >= 1); K = z3.Int("K") if not S.unroll else S.unroll; S.assume(K >= 1) if not S.unroll else None
    fam.declare("ga", "name", lambda i: z3.Function("route_name", I, I)(i)); fam.declare("ga", "heuristic", lambda i: None, False)
    routes = SList([seqpart(n, lambda i: SGraph(fam, (i,)))]) if not S.unroll else SList.of(*[SGraph(fam, (z3.IntVal(i),)) for i in range(S.unroll)])
    span = S.ctx.branch(z3.Bool("span")); du = SDict(name="duals"); dive = S.ctx.branch(z3.Bool("dive"))
    gh = S.obj(V_, updated=False, relaxed=False, greedy=False)
    found = z3.Function("found", I, I, BOOL); gfound = z3.Function("greedy_found", I, BOOL); cost = z3.Real("relaxed_cost")
    def heur(it, so, a, kw):
        d = bound(S, V_ + "._solve_subproblem_with_heuristic", a, kw); r = d.get("route")
        it.wr(so.cell("routes"), routes)
        S.ensure("step: priced with the duals of the relaxed master problem", d.get("duals") is du and it.rd(gh.cell("relaxed")) is True)
        S.ensure("step: with the strategy chosen", d.get("pricing_strategy") == "Exact")
        if span: S.ensure("step: priced against a route when the span is minimised", isinstance(r, SGraph))
        return found(num(d["vehicle"]), r.ids[0] if span and isinstance(r, SGraph) else z3.IntVal(-1))
    def meth(it, o, nm, a, kw):
        if o.what == "master":
            if nm in ("solve", "solve_and_dive"):
                if nm == "solve": S.ensure("step: the master problem is solved relaxed", (a[0] if a else kw.get("relax")) is True)
                S.ensure("step: dives exactly when diving", (nm == "solve_and_dive") == dive)
                it.wr(gh.cell("relaxed"), True); return (du, cost)
            if nm == "update": it.wr(gh.cell("updated"), it.force(a[0] if a else list(kw.values())[0])); return None
        if o.what == "subproblem" and nm == "solve": return (routes, gfound(num(o.k)))
        raise Unsupported("method %s of %s" % (nm, o.what))
    def sub(it, so, a, kw):
        d = bound(S, V_ + "._def_subproblem", a, kw); o = ext.AnyObj("subproblem"); o.k = d["vehicle_type"]; return o
    S.it.anymethod = meth; S.it.anyattr = lambda it, o, a: SDict(FMap(FnBase(lambda nm: z3.Function("in_master", I, BOOL)(nm), lambda nm: None)), [I]) if o.what == "master" and a == "y" else None
    S.it.summaries[V_ + "._solve_subproblem_with_heuristic"] = heur; S.it.summaries[V_ + "._def_subproblem"] = sub
    S.it.summaries[V_ + "._get_next_pricing_strategy"] = lambda it, so, a, kw: "Exact"
    it0 = z3.Int("iteration"); S.assume(it0 >= 0); m = z3.Int("n_bounds")
    S.assume(z3.Or(it0 == 0, m >= 1)); S.assume(m >= 0)
    o = S.obj(V_, masterproblem=ext.AnyObj("master"), hyper_heuristic=None, _dive=dive, _time_limit=None, _pricing_strategy="Exact", _iteration=it0, _no_improvement=z3.Int("stalled"), _vehicle_types=K,
              _greedy=S.ctx.branch(z3.Bool("greedy")) and not span, time_windows=z3.Bool("tw"), distribution_collection=z3.Bool("dc"), pickup_delivery=z3.Bool("pd"), minimize_global_span=span, _routes=routes, routes=SList(), _more_routes=True,
              _lower_bound=SList([seqpart(m, lambda i: z3.Function("bound", I, R)(i))]))
    S.call(o, "_find_columns")
    more = S.it.truth(S.get(o, "_more_routes")); k, i = z3.Ints("k0 i0"); S.assume(k >= 0, k < K)
    if span: S.assume(i >= 0, i < n)
    else: S.assume(i == -1)
    S.ensure("step: no column only if exact pricing found none for any vehicle type", IMP(NOT(more), NOT(found(k, i))))
    S.ensure("step: one iteration counted", num(S.it.force(S.get(o, "_iteration"))) == it0 + 1)
    up = S.it.rd(gh.cell("updated"))
    if S.ctx.branch(B(more)): S.ensure("step: the new column is given to the master problem", isinstance(up, SGraph) and up.st is fam and z3.simplify(num(up.ids[0]) == n - 1))
    if not dive:
        lb = S.it.force(S.get(o, "_lower_bound")).seq(); S.ensure("step: the relaxed value is recorded", z3.And(num(lb[0]) == m + 1, real(S.it.force(lb[1](m))) == cost))


@contract("final routes", "C01 C02 C09 C11", V_ + "._best_routes_as_node_lists", "the plan reported is the list of selected routes, one entry each with its path and its vehicle type, numbered from 1")
def _(S):
    fam = GStore("best", True, [I]); m = z3.Int("n_best"); S.assume(m >= 0)
    fam.declare("ga", "vehicle_type", lambda i: z3.Function("type", I, I)(i))
    o = S.obj(V_, _best_routes_as_graphs=SList([seqpart(m, lambda i: SGraph(fam, (i,)))]), _preassignments=SList(), _vehicle_types=z3.Int("K"), load_capacity=None, _best_routes=SDict(), _best_routes_vehicle_type=SDict())
    n = z3.Function("path_len", I, I); pt = z3.Function("path", I, I, NodeS)
    def sp(it, g, a, b):
        S.ensure("plan: paths from Source to Sink", AND(eq(a, SRC), eq(b, SNK)))
        return SList([seqpart(n(g.ids[0]), lambda i: pt(g.ids[0], i))]) if g.st is fam else None
    S.it.path_hook = sp
    S.call(o, "_best_routes_as_node_lists")
    br, ty = S.it.force(S.get(o, "_best_routes")), S.it.force(S.get(o, "_best_routes_vehicle_type"))
    i, j = z3.Ints("i0 j0")
    if not S.prove(B(br.c.v.has((i,))) == z3.And(i >= 1, i <= m)): raise Unsupported("plan not numbered from 1 on")
    S.ensure("plan: a type for every route", B(ty.c.v.has((i,))) == z3.And(i >= 1, i <= m))
    S.assume(i >= 1, i <= m)
    l = S.it.force(br.c.v.get((i,), S.ctx)).seq()
    S.ensure("plan: the path of the selected route", z3.And(num(l[0]) == n(i - 1), z3.Implies(z3.And(j >= 0, j < num(l[0])), S.it.force(l[1](j)) == pt(i - 1, j))))
    S.ensure("plan: the type of the selected route", num(S.it.force(ty.c.v.get((i,), S.ctx))) == z3.Function("type", I, I)(i - 1))


@contract("preassigned routes", "C16", V_ + "._best_routes_as_node_lists", "every complete preassigned route is in the plan, unchanged, with the cheapest vehicle type able to carry it", opts=dict(unroll=2))
def _(S):
    g, A = vnet(S); K = z3.Int("K"); depot(S, g); fam = GStore("best", True, [I]); m = z3.Int("n_best"); S.assume(m >= 0)
    fam.declare("ga", "vehicle_type", lambda i: z3.Function("type", I, I)(i))
    P = z3.Int("n_pre"); n = z3.Function("n", I, I); at_ = z3.Function("route", I, I, NodeS); r, i, j = z3.Ints("r i j"); S.assume(P >= 0); PU = 2
    if S.unroll: K0, K = K, z3.IntVal(S.unroll); S.assume(K0 == S.unroll, m == 0, P == PU); n = lambda r: z3.IntVal(3); m = z3.IntVal(0)
    if not S.unroll: S.assume(z3.ForAll([r], n(r) >= 2))
    S.assume(S.all([r, i], AND(r >= 0, r < P, i >= 0, i < n(r)), g.hasN(at_(r, i))), S.all([r, i], AND(r >= 0, r < P, i >= 0, i < n(r) - 1), g.hasE(at_(r, i), at_(r, i + 1))))
    Q = z3.Function("Q", I, R); cap = SUnion(z3.Bool("no_cap"), None, SList([seqpart(K, lambda k: Q(k))]))
    whole = lambda r: z3.And(at_(r, 0) == SRC, at_(r, n(r) - 1) == SNK)
    b = fresh_const(I, "b")
    r_, k_ = z3.Ints("r_ k_")
    C0 = real(S.ctx.under([r_, k_], True, lambda: S.ctx.sum([b], AND(b >= 0, b < n(r_) - 1), A["cost"](at_(r_, b), at_(r_, b + 1), k_))))
    L0 = real(S.ctx.under([r_], True, lambda: S.ctx.sum([b], AND(b >= 0, b < n(r_)), A["demand"](at_(r_, b)))))
    cost = lambda r, k: z3.substitute(C0, (r_, r), (k_, k))
    load = lambda r: z3.substitute(L0, (r_, r))
    if S.unroll:
        cost = lambda r, k: sum(A["cost"](at_(r, x), at_(r, x + 1), k) for x in range(2)); load = lambda r: sum(A["demand"](at_(r, x)) for x in range(3))
    feas = lambda r, k: z3.Or(z3.Bool("no_cap"), load(r) <= Q(k))
    big = z3.RealVal(10 ** 10)
    def loop(it, node, env, coll):
        coll = it.force(coll)
        if not isinstance(coll, Interp.Range) or not S.ctx.binders: return False
        rr = S.ctx.binders[0]; seen = []
        def inv(k, cells):
            c = [x for x in cells if isinstance(x.v, FMap)]; a = [x for x in cells if isnum(x.v) and not isbool(x.v)]
            if len(c) != 1 or not getattr(c[0], "pts", None): raise Unsupported("loop over vehicle types: types")
            key = c[0].pts[0]; S.ctx.read(c[0], key); h = B(c[0].v.has(key)); l = fresh_const(I, "l")
            t = num(S.ctx.under([], h, lambda: S.it.force(c[0].v.get(key, S.ctx)))) if not z3.is_false(z3.simplify(h)) else None
            if not seen: seen.extend(x for x in a if not isz(x.v) and x.v == 10 ** 10)      # the running minimum, before the first iteration
            a = seen
            if len(a) != 1: raise Unsupported("loop over vehicle types: best cost")
            best = real(a[0].v)
            none = AND(best == big, S.all([l], AND(l >= 0, l < k, feas(rr, l)), cost(rr, l) >= big))
            if t is None: return IMP(NOT(h), none)
            return AND(IMP(NOT(h), none), IMP(h, AND(t >= 0, t < k, feas(rr, t), best == cost(rr, t), best < big, S.all([l], AND(l >= 0, l < k, feas(rr, l)), cost(rr, l) >= best))))
        return it.induct(node, env, SList([seqpart(K, lambda k: k)]), inv, "loop invariant (cheapest type so far)")
    if not S.unroll: S.it.loopspecs[V_ + "._best_routes_as_node_lists"] = loop
    S.it.path_hook = lambda it, g, a, b: SList([seqpart(z3.Function("path_len", I, I)(g.ids[0]), lambda i: z3.Function("path", I, I, NodeS)(g.ids[0], i))]) if g.st is fam else None
    pre = SList([seqpart(P, lambda r: SList([seqpart(n(r), lambda i: at_(r, i))]))]) if not S.unroll else SList.of(*[SList.of(*[at_(r, x) for x in range(3)]) for r in range(PU)])
    o = S.obj(V_, _best_routes_as_graphs=SList([seqpart(m, lambda i: SGraph(fam, (i,)))]) if not S.unroll else SList(), _preassignments=pre, _vehicle_types=K if not S.unroll else S.unroll, load_capacity=cap, _best_routes=SDict(), _best_routes_vehicle_type=SDict(), _H=g, distribution_collection=False)
    S.call(o, "_best_routes_as_node_lists")
    br, ty = S.it.force(S.get(o, "_best_routes")), S.it.force(S.get(o, "_best_routes_vehicle_type"))
    r0 = z3.Int("r0") if not S.unroll else z3.IntVal(S.ctx.choose(PU)); S.assume(r0 >= 0, r0 < P, whole(r0))
    keys = []
    for u in br.c.v.ups:
        if len(u.key) != 1 or not u.present: raise Unsupported("plan")
        if len(u.bs) == 1: k = z3.substitute(num(u.key[0]), (u.bs[0], r0))
        elif not u.bs: k = num(u.key[0])
        else: raise Unsupported("plan")
        if S.ctx.decide(B(br.c.v.has((k,)))) is True: keys.append(k)
    def same(k):
        l = S.it.force(br.c.v.get((k,), S.ctx)).seq()
        return None if l is None else z3.And(num(l[0]) == n(r0), z3.Implies(z3.And(j >= 0, j < n(r0)), S.it.force(l[1](j)) == at_(r0, j))) if not S.unroll else z3.And(num(l[0]) == n(r0), *[S.it.force(l[1](z3.IntVal(x))) == at_(r0, x) for x in range(3)])
    if not S.unroll:
        mine = [k for k in keys if same(k) is not None and S.prove(same(k))]
        S.ensure("preassigned: every complete route is in the plan, unchanged", len(mine) >= 1)
        if not mine: return
        k = mine[-1]
    else:
        S.ensure("preassigned: every complete route is in the plan, unchanged", z3.Or(*[same(k) for k in keys if same(k) is not None]) if keys else False)
        k = [k for k in keys if S.ctx.branch(same(k))]
        if not k: return
        k = k[-1]
    t0 = z3.Int("t0"); S.assume(t0 >= 0, t0 < K, feas(r0, t0), cost(r0, t0) < big)      # some type can carry it
    S.ensure("preassigned: has a vehicle type", B(ty.c.v.has((k,))))
    if S.ctx.decide(B(ty.c.v.has((k,)))) is not True: return
    t = num(S.it.force(ty.c.v.get((k,), S.ctx)))
    S.ensure("preassigned: its type can carry it", z3.And(t >= 0, t < K, feas(r0, t)))
    S.ensure("preassigned: no type that can carry it is cheaper", cost(r0, t) <= cost(r0, t0))
    if not S.unroll:
        x = z3.Int("x0"); S.assume(B(br.c.v.has((x,))), x > m); r1 = z3.Int("r1")
        S.ensure("preassigned: nothing else is added", z3.Or(*[z3.Exists([r1], z3.And(r1 >= 0, r1 < P, whole(r1), x == z3.substitute(num(u.key[0]), (u.bs[0], r1)))) for u in br.c.v.ups if len(u.bs) == 1]))


@contract("initial columns", "C01 C02 C03 C09 C11", V_ + "._convert_initial_routes_to_digraphs", "every initial route becomes one column: its edges at the cost of the first vehicle type able to carry it, indexed by each customer on it; a route no type can carry is refused", opts=dict(unroll=2))
def _(S):
    g, A = vnet(S); K = z3.Int("K"); depot(S, g); P = z3.Int("n_init"); n = z3.Function("n", I, I); at_ = z3.Function("route", I, I, NodeS); r, i, j, k = z3.Ints("r i j k"); S.assume(P >= 0)
    if S.unroll: S.assume(K == 2, P == 2); K = z3.IntVal(2); P = z3.IntVal(2); n = lambda r: z3.IntVal(4)
    inr = lambda r: z3.And(r >= 0, r < P); pos = lambda r, i: z3.And(inr(r), i >= 0, i < n(r))
    if not S.unroll: S.assume(z3.ForAll([r], n(r) >= 3))
    S.assume(S.all([r, i], pos(r, i), g.hasN(at_(r, i))), S.all([r, i], z3.And(pos(r, i), i < n(r) - 1), g.hasE(at_(r, i), at_(r, i + 1))))
    S.assume(S.all([r, i, j], z3.And(pos(r, i), pos(r, j), i != j), at_(r, i) != at_(r, j)))      # elementary
    S.assume(S.all([r], inr(r), z3.And(at_(r, 0) == SRC, at_(r, n(r) - 1) == SNK)))
    Q = z3.Function("Q", I, R); nocap = S.ctx.branch(z3.Bool("no_cap")); cap = None if nocap else SList([seqpart(K, lambda k: Q(k))]) if not S.unroll else SList.of(Q(z3.IntVal(0)), Q(z3.IntVal(1)))
    init = SList([seqpart(P, lambda r: SList([seqpart(n(r), lambda i: at_(r, i))]))]) if not S.unroll else SList.of(*[SList.of(*[at_(z3.IntVal(r), z3.IntVal(x)) for x in range(4)]) for r in range(2)])
    b = fresh_const(I, "b"); r_ = z3.Int("r_"); k_ = z3.Int("k_")
    if S.unroll: load = lambda r: z3.Sum([A["demand"](at_(r, z3.IntVal(x))) for x in range(4)]); cost = lambda r, k: z3.Sum([A["cost"](at_(r, z3.IntVal(x)), at_(r, z3.IntVal(x + 1)), k) for x in range(3)])
    else:
        L0 = real(S.ctx.under([r_], True, lambda: S.ctx.sum([b], z3.And(b >= 0, b < n(r_)), A["demand"](at_(r_, b))))); load = lambda r: z3.substitute(L0, (r_, r))
        C0 = real(S.ctx.under([r_, k_], True, lambda: S.ctx.sum([b], z3.And(b >= 0, b < n(r_) - 1), A["cost"](at_(r_, b), at_(r_, b + 1), k_)))); cost = lambda r, k: z3.substitute(C0, (r_, r), (k_, k))
    o = S.obj(V_, G=g, _H=g, distribution_collection=False, _initial_routes=init, load_capacity=cap, _vehicle_types=K if not S.unroll else 2)
    kind, _ = S.raised(lambda: S.call(o, "_convert_initial_routes_to_digraphs"))
    r0, k0, i0 = z3.Ints("r0 k0 i0"); S.assume(inr(r0))
    if kind:
        S.ensure("initial columns: only refuses (ValueError)", kind == "ValueError")
        S.ensure("initial columns: refuses only what no type can carry", NOT(nocap) and z3.Exists([r], z3.And(inr(r), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < K), load(r) > Q(k))))) if not S.unroll else True)
        return
    ro = S.it.force(S.get(o, "_routes")); q = ro.seq()
    if q is None: raise Unsupported("columns")
    S.ensure("initial columns: as many as routes", num(q[0]) == P)
    if S.unroll: r0 = z3.IntVal(S.ctx.choose(2))
    if not S.prove(num(q[0]) == P): return
    G = S.it.force(q[1](r0 if not S.unroll else r0.as_long()))
    if not isinstance(G, SGraph): raise Unsupported("column")
    ga = lambda a: S.it.force(S.it.getitem(AttrView(G, "ga", ()), a))
    t = num(ga("vehicle_type"))
    if nocap: S.ensure("initial columns: of the first type without capacities", t == 0)
    else: S.ensure("initial columns: of the first type able to carry the route", z3.And(t >= 0, t < K, load(r0) <= Q(t), z3.Implies(z3.And(k0 >= 0, k0 < t), load(r0) > Q(k0))))
    S.ensure("initial columns: cost of the route for its type", real(ga("cost")) == cost(r0, t))
    u, v = z3.Const("u0", NodeS), z3.Const("v0", NodeS)
    isE = z3.Exists([i], z3.And(i >= 0, i < n(r0) - 1, u == at_(r0, i), v == at_(r0, i + 1))) if not S.unroll else z3.Or(*[z3.And(u == at_(r0, z3.IntVal(x)), v == at_(r0, z3.IntVal(x + 1))) for x in range(3)])
    S.ensure("initial columns: the edges of the route", B(G.hasE(u, v)) == isE)
    p0 = z3.Int("p0"); S.assume(p0 >= 0, p0 < n(r0) - 1)
    if S.unroll: p0 = z3.IntVal(S.ctx.choose(3))
    e = (at_(r0, p0), at_(r0, p0 + 1)) if not S.unroll else (at_(r0, p0), at_(r0, z3.IntVal(p0.as_long() + 1)))
    S.ensure("initial columns: each edge at its cost", real(S.it.force(S.it.getitem(S.it.getitem(EdgesView(G), e), "cost"))) == A["cost"](e[0], e[1], t))
    idx = S.it.force(S.get(o, "_routes_with_node")); S.assume(B(g.hasN(v)), v != SRC, v != SNK)
    onr = lambda r: z3.Exists([i], z3.And(i >= 0, i < n(r), at_(r, i) == v)) if not S.unroll else z3.Or(*[at_(r, z3.IntVal(x)) == v for x in range(4)])
    names = []; h = B(idx.c.v.has((v,)))
    if not z3.is_false(z3.simplify(h)):
        lst = S.it.force(S.ctx.under([], h, lambda: idx.c.v.get((v,), S.ctx)))
        if S.unroll:
            S.assume(h); q2 = lst.seq(); names = []
            for x in range(3):
                if S.ctx.branch(num(q2[0]) > x): names.append(num(S.it.force(S.it.getitem(AttrView(S.it.force(q2[1](x)), "ga", ()), "name"))) == num(ga("name")))
        else:
          for p in S.it.parts(lst):
            p = p.fresh(); x = S.it.force(p.elem)
            nm = num(S.ctx.under(p.bs, p.guard, lambda: S.it.force(S.it.getitem(AttrView(x, "ga", ()), "name"))))
            names.append(exists(p.bs, B(AND(p.guard, nm == num(ga("name"))))))
    S.ensure("initial columns: found under each customer on the route and no other", B(AND(h, OR(*names))) == onr(r0))
    r1 = z3.Int("r1") if not S.unroll else z3.IntVal(1 - r0.as_long())
    if not S.unroll: S.assume(inr(r1), r1 != r0)
    G1 = S.it.force(q[1](r1 if not S.unroll else r1.as_long()))
    S.ensure("initial columns: names differ", num(S.it.force(S.it.getitem(AttrView(G1, "ga", ()), "name"))) != num(ga("name")))


@contract("collection fits", "C08 C16", V_ + "._collection_fits", "with simultaneous distribution and collection a type is able to carry a route only if the load on each of its edges, what is collected before and what is delivered after it, fits")
def _(S):
    g, A = vnet(S); depot(S, g); n = z3.Int("n"); at_ = z3.Function("at", I, NodeS); i = z3.Int("i"); S.assume(n >= 2, S.all([i], z3.And(i >= 0, i < n), g.hasN(at_(i))))
    K = z3.Int("K"); k = z3.Int("k"); Q = z3.Function("Q", I, R); S.assume(k >= 0, k < K); dc = z3.Bool("dc"); b = fresh_const(I, "b")
    o = S.obj(V_, _H=g, distribution_collection=dc, load_capacity=SList([seqpart(K, lambda k: Q(k))]))
    res = B(S.call(o, "_collection_fits", SList([seqpart(n, lambda i: at_(i))]), k))
    x_ = z3.Int("x_"); x0 = z3.Int("x0"); S.assume(x0 >= 0, x0 < n - 1)
    C0, D0 = (real(S.ctx.under([x_], z3.And(x_ >= 0, x_ < n - 1), lambda: S.ctx.sum([b], z3.And(b >= 0, b < m(x_)), f(x_)))) for m, f in ((lambda x: x + 1, lambda x: A["collect"](at_(b))), (lambda x: n - (x + 1), lambda x: A["demand"](at_(x + 1 + b)))))
    S.ensure("collection fits: the load on each edge fits", z3.Implies(z3.And(dc, res), z3.substitute(C0 + D0, (x_, x0)) <= Q(k)))
    S.ensure("collection fits: says nothing without collection", z3.Implies(z3.Not(dc), res))
