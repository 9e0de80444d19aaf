"""The pricing network and the columns built from it (C02-C09, C13): reduced
costs, pruned networks, cspy resources and routes, greedy pricing."""
from . import *
from .prep import vnet, depot, at, cost_at, same_struct, NA
from .pricing import pool
from pyvc import ext

B_ = "subproblem._SubProblemBase"
UBV = strnode("upper_bound_vehicles")


def dual_values(S, g, A, fleet, span=False):
    """duals: one per customer (a dict), the fleet duals under their own key"""
    d = A["dual"] = z3.Function("dual", NodeS, R); A["isdual"] = z3.Function("has_dual", NodeS, BOOL); A["fdual"] = z3.Function("fleet_dual", I, R)
    v = z3.Const("v", NodeS); K = z3.Int("K"); k = A["k"] = z3.Int("k"); S.assume(k >= 0, k < K)
    S.assume(z3.Not(B(g.hasN(UBV))))
    S.assume(S.all([v], A["isdual"](v), AND(g.hasN(v), v != SRC, v != SNK)))
    f = FMap(FnBase(lambda v: A["isdual"](v), lambda v: d(v)))
    if fleet: f = f.put((UBV,), SDict(FMap(FnBase(lambda j: z3.And(j >= 0, j < K), lambda j: A["fdual"](j))), [I]))
    return SDict(f, [NodeS])


@contract("reduced costs", "C13", B_ + ".add_reduced_cost_attribute", "the weight of every edge is its cost for the vehicle type minus the dual of the customer it leaves (minus the dual of the fleet row on edges leaving the Source)")
def _(S):
    g, A = vnet(S); depot(S, g); fleet = S.ctx.branch(z3.Bool("fleet"))
    du = dual_values(S, g, A, fleet); N0, E0 = g.st.N.v, g.st.E.v
    g.st.declare("ea", "weight", lambda u, v: z3.Function("old_weight", NodeS, NodeS, R)(u, v), lambda u, v: z3.Function("has_weight", NodeS, NodeS, BOOL)(u, v))
    o = S.it.construct(S.cls(B_), [g, du, SDict(), SList(), A["k"]], {"pricing_strategy": "Exact"})
    same_struct(S, g, N0, E0, "reduced costs")
    u, v = z3.Consts("u0 v0", NodeS); S.assume(E0.has((u, v)))
    S.ensure("reduced costs: set on every edge", g.st.attr("ea", "weight").v.has((u, v)))
    w = at(S, g, "ea", "weight", (u, v))
    S.ensure("reduced costs: cost minus duals", w == A["cost"](u, v, A["k"]) - z3.If(A["isdual"](u), A["dual"](u), z3.RealVal(0)) - (z3.If(u == SRC, A["fdual"](A["k"]), z3.RealVal(0)) if fleet else 0))
    sg = S.it.force(S.get(o, "sub_G"))
    S.ensure("exact pricing: the whole network", AND(B(sg.hasE(u, v)), B(sg.hasN(u)) == B(N0.has((u,)))))
    S.ensure("exact pricing: is run", S.it.truth(S.get(o, "run_subsolve")))
    k = z3.Int("k1"); S.assume(k >= 0, k < z3.Int("K"))
    S.ensure("reduced costs: costs unchanged", cost_at(S, g, u, v, k) == A["cost"](u, v, k))


@contract("pruned network", "C02 C04 C05 C06 C13", B_ + ".remove_edges_1 " + B_ + ".remove_edges_2 " + B_ + ".remove_edges_3", "a heuristic pricing works on a part of the network with the same attributes, and is skipped when Source and Sink are cut apart")
def _(S):
    g, A = vnet(S); depot(S, g); fleet = S.ctx.branch(z3.Bool("fleet"))
    S.assume(z3.Or(*[B(g.hasE(SRC, SNK))]))
    du = dual_values(S, g, A, fleet); N0, E0 = g.st.N.v, g.st.E.v
    S.assume(z3.Exists([z3.Const("v", NodeS)], A["isdual"](z3.Const("v", NodeS))))
    W = z3.Function("weight", NodeS, NodeS, R); g.st.declare("ea", "weight", lambda u, v: W(u, v))
    S.it.summaries[B_ + ".add_reduced_cost_attribute"] = lambda it, so, a, kw: None
    n = S.ctx.choose(3)
    strat = ("BestEdges1", "BestEdges2", "BestPaths")[n]; S.ctx.cond(z3.Int("strategy") == n)
    par = z3.Real("parameter") if n < 2 else z3.Int("parameter"); S.assume(par > 0)
    if n == 1: S.assume(par <= 1)
    o = S.it.construct(S.cls(B_), [g, du, SDict(), SList(), A["k"]], {"pricing_strategy": strat, "pricing_parameter": par})
    same_struct(S, g, N0, E0, strat)
    u, v = z3.Consts("u0 v0", NodeS)
    sg = S.it.force(S.get(o, "sub_G"))
    S.ensure(strat + ": edges and nodes of the network", AND(IMP(sg.hasE(u, v), E0.has((u, v))), IMP(sg.hasN(u), N0.has((u,)))))
    S.assume(sg.hasE(u, v))
    for a in NA:
        S.ensure(strat + ": %s unchanged" % a, real(S.ctx.under([], True, lambda: S.it.force(sg.st.attr("na", a).v.get((u,), S.ctx)))) == A[a](u))
    S.ensure(strat + ": time unchanged", at(S, sg, "ea", "time", (u, v)) == A["time"](u, v))
    S.ensure(strat + ": reduced cost unchanged", at(S, sg, "ea", "weight", (u, v)) == W(u, v))
    k = z3.Int("k1"); S.assume(k >= 0, k < z3.Int("K"))
    S.ensure(strat + ": cost unchanged", cost_at(S, sg, u, v, k) == A["cost"](u, v, k))


# ---------------------------------------------------------------- cspy
C_ = "subproblem_cspy._SubProblemCSPY"
NONE = dict(num_stops=None, load_capacity=None, duration=None, time_windows=False, pickup_delivery=False, distribution_collection=False)


def cspy(S, elem=True, **o):
    """the pricing object after construction, on any network (exact strategy), with these options"""
    if S.unroll:
        from .pricing import small
        g, A = small(S, S.unroll)
    else:
        g, A = vnet(S); depot(S, g); u, v = z3.Consts("u v", NodeS)
        S.assume(S.all([v], g.hasN(v), AND(*[A[a](v) >= 0 for a in NA])), S.all([u, v], g.hasE(u, v), A["time"](u, v) >= 0))
        S.assume(A["demand"](SRC) == 0, A["demand"](SNK) == 0, A["collect"](SRC) == 0, A["collect"](SNK) == 0, A["service_time"](SRC) == 0, A["service_time"](SNK) == 0)
    if S.unroll: S.assume(*[A["demand"](v) >= 0 for v in A["nodes"]])
    K = z3.Int("K"); k = A["k"] = z3.Int("k"); S.assume(k >= 0, k < K)
    A["w"] = z3.Function("weight", NodeS, NodeS, R); g.st.declare("ea", "weight", lambda u, v: A["w"](u, v)); g.st.declare("ea", "res_cost", lambda u, v: None, False)
    A["Q"] = Q = z3.Function("Q", I, R); A["cap"] = Q(k); A["ns"] = z3.Int("num_stops"); A["D"] = z3.Real("duration")
    f = dict(NONE); f.update(o)
    if f["load_capacity"]: f["load_capacity"] = SList([seqpart(K, lambda j: Q(j))]); S.assume(Q(k) > 0)
    if f["num_stops"]: f["num_stops"] = A["ns"]; S.assume(A["ns"] > 0)
    if f["duration"]: f["duration"] = A["D"]; S.assume(A["D"] > 0)
    S.it.summaries[B_ + ".add_reduced_cost_attribute"] = lambda it, so, a, kw: None      # own contract; here: any weights
    A["N"], A["E"] = lambda v: B(g.hasN(v)), lambda u, v: B(g.hasE(u, v))
    routes, idx, n0, ln, fam = pool(S, A["N"]); A["n0"], A["ln"], A["fam"] = n0, ln, fam
    a = [g, SDict(), idx, routes, k, None] + [f[n] for n in ("num_stops", "load_capacity", "duration", "time_windows", "pickup_delivery", "distribution_collection")] + ["Exact", None]
    A["elem"] = elem = S.ctx.branch(z3.Bool("elementary")) if elem is None else elem
    if not S.unroll: c0 = z3.Const("c0", NodeS); S.assume(AND(g.hasN(c0), c0 != SRC, c0 != SNK))      # at least one customer
    ob = S.it.construct(S.cls(C_), a, {"elementary": A["elem"]})
    return ob, g, A


def walk(S, g, A, elem=True):
    """a Source-Sink path of the network -> (length, node at)"""
    if S.unroll:
        w = [SRC] + A["nodes"][1:-1] + [SNK]
        return len(w), lambda i: w[i]
    n = z3.Int("n_walk"); f = z3.Function("walk", I, NodeS); i, j = z3.Ints("i j")
    S.assume(n >= 2, f(0) == SRC, f(n - 1) == SNK, S.all([i], AND(i >= 0, i < n - 1), g.hasE(f(i), f(i + 1))), S.all([i], AND(i > 0, i < n - 1), AND(f(i) != SRC, f(i) != SNK)))
    if elem: S.assume(S.all([i, j], AND(i >= 0, i < j, j < n), f(i) != f(j)))
    return n, lambda i: f(num(i))


def lst(S, l, what):
    l = S.it.force(l); q = l.seq() if isinstance(l, SList) else None
    if q is None or not isinstance(q[0], int): raise Unsupported(what)
    return [real(S.it.force(q[1](i))) for i in range(q[0])]


def along(S, n, body):
    """sum of body(i) over the edges i of the walk"""
    if S.unroll: return z3.Sum([z3.RealVal(0)] + [body(i) for i in range(n - 1)])
    i = fresh_const(I, "i"); return S.ctx.sum([i], z3.And(i >= 0, i < n - 1), body(i))


class Laws:
    """facts for every step i of a walk with n nodes (0 <= i < n-1), and what follows by induction for every node"""
    def __init__(s, S, n): s.S, s.n, s.steps, s.invs = S, n, [], []
    def step(s, f):
        i = fresh_const(I, "i"); s.steps.append(f); s.S.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n - 1), f(i))))
    def at(s, *ks):
        out = []
        for k in ks: out += [z3.Implies(z3.And(k >= 0, k < s.n - 1), f(k)) for f in s.steps] + [z3.Implies(z3.And(k >= 0, k <= s.n - 1), f(k)) for f in s.invs]
        return out
    def induct(s, name, inv):
        S = s.S; i = S.ctx.fresh("i", I); taint = S.ctx.taint; S.ctx.taint = taint or "auxiliary lemma about the path"
        S.ensure_by(name + " (start)", inv(z3.IntVal(0)), s.at(z3.IntVal(0)))
        S.ensure_by(name + " (step)", z3.Implies(z3.And(i >= 0, i < s.n - 1, inv(i)), inv(i + 1)), s.at(i, i + 1))
        S.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= s.n - 1), inv(i)))); s.invs.append(inv); S.ctx.taint = taint


@contract("cspy resources", "C03 C04 C05", C_ + ".formulate " + C_ + ".get_REF", "without windows or collection: a path within the resource bounds makes at most num_stops stops, carries at most the capacity of its type, lasts at most the duration", cost=2, opts=dict(unroll=2))
def _(S):
    o = {a: S.ctx.branch(z3.Bool("opt_" + a)) for a in ("num_stops", "load_capacity", "duration")}
    ob, g, A = cspy(S, **o)
    S.call(ob, "formulate"); ref = S.it.force(S.call(ob, "get_REF"))
    S.ensure("cspy: additive resources", ref is None)
    sg = S.it.force(S.get(ob, "sub_G")); n, at_ = walk(S, sg, A, False)
    mx = lst(S, S.get(ob, "max_res"), "resource bounds")
    def res(u, v, r, g_=True):
        l = S.it.force(sg.st.attr("ea", "res_cost").v.get((u, v), S.ctx))
        if not isinstance(l, SList): raise Unsupported("resources of an edge")
        q = l.seq()
        if q is None or not isinstance(q[0], int): raise Unsupported("resources of an edge")
        return real(S.it.force(q[1](r)))
    for r in range(len(mx)):
        if S.unroll: t = z3.Sum([res(at_(i), at_(i + 1), r) for i in range(n - 1)])
        else:
            i = fresh_const(I, "i"); gd = z3.And(i >= 0, i < n - 1)
            t = S.ctx.sum([i], gd, S.ctx.under([i], gd, lambda: res(at_(i), at_(i + 1), r)))
        S.assume(t <= mx[r])       # what cspy promises for the path it returns
    if o["num_stops"]: S.ensure("cspy: at most num_stops customers on a path within the resource bounds", real(num(n)) - 2 <= real(A["ns"]))
    if o["load_capacity"]: S.ensure("cspy: demand within the capacity of the vehicle type", along(S, n, lambda i: A["demand"](at_(i + 1))) <= A["cap"])
    if o["duration"]: S.ensure("cspy: travel and service time within the duration limit", along(S, n, lambda i: A["time"](at_(i), at_(i + 1)) + A["service_time"](at_(i))) <= A["D"])


@contract("cspy windows and collection", "C03 C04 C05 C06 C08", C_ + ".formulate " + C_ + ".get_REF subproblem_cspy._MyREFCallback.REF_fwd",
          "with windows or simultaneous collection: resources extended along a path and within bounds at every node mean that the path meets every active limit", cost=3, opts=dict(unroll=2))
def _(S):
    o = {a: S.ctx.branch(z3.Bool("opt_" + a)) for a in ("time_windows", "distribution_collection")}
    if not any(o.values()): return
    if o["distribution_collection"]: o["load_capacity"] = True
    else: o["load_capacity"] = S.ctx.branch(z3.Bool("opt_load_capacity"))
    o.update({a: S.ctx.branch(z3.Bool("opt_" + a)) for a in ("num_stops", "duration")})
    ob, g, A = cspy(S, **o); tw, dc = o["time_windows"], o["distribution_collection"]
    v = z3.Const("v", NodeS)
    lo, up, sv, dm, co, tm = A["lower"], A["upper"], A["service_time"], A["demand"], A["collect"], A["time"]
    if tw:      # established by the preparation of windows (own contract)
        if S.unroll: S.assume(*[lo(v) >= lo(SRC) + tm(SRC, v) for v in A["nodes"][1:-1]])
        else: S.assume(S.all([v], AND(g.hasN(v), v != SRC, v != SNK), lo(v) >= lo(SRC) + tm(SRC, v)))
    S.call(ob, "formulate"); ref = S.it.force(S.call(ob, "get_REF"))
    if ref is None: S.ensure("cspy: windows and collection need their own extension function", False); return
    sg = S.it.force(S.get(ob, "sub_G")); n, at_ = walk(S, sg, A, False)
    if tw and not S.unroll: S.assume(n >= 3)
    mx = lst(S, S.get(ob, "max_res"), "resource bounds"); K = len(mx)
    S.it.setattr(ref, "_sub_G", sg)
    fwd = lambda res, i, j: lst(S, S.call(ref, "REF_fwd", SList.of(*res), i, j, SList(), SList(), z3.RealVal(0)), "extended resources")
    if S.unroll:
        rs = [[z3.RealVal(0)] * K]
        for i in range(n - 1):
            cur = rs[-1]; rs.append([z3.simplify(S.ctx.under([], True, lambda: fwd(cur, at_(i), at_(i + 1))[r])) for r in range(K)])
            S.assume(*[rs[-1][r] <= mx[r] for r in range(K)])
    else:
        F = [z3.Function("res%d" % r, I, R) for r in range(K)]; i = fresh_const(I, "i"); gd = z3.And(i >= 0, i < n - 1)
        step = [S.ctx.under([i], gd, lambda: fwd([F[q](i) for q in range(K)], at_(i), at_(i + 1))[r]) for r in range(K)]
        S.assume(*[F[r](0) == 0 for r in range(K)])
        W = Laws(S, n)
        for r in range(K): W.step((lambda r, b: lambda j: z3.And(F[r](j + 1) == z3.substitute(step[r], (b, j)), F[r](j + 1) <= mx[r]))(r, i))
        W.step(lambda i: z3.And(sg.hasE(at_(i), at_(i + 1)), A["N"](at_(i)), A["N"](at_(i + 1)), z3.Implies(i > 0, z3.And(at_(i) != SRC, at_(i) != SNK)), tm(at_(i), at_(i + 1)) >= 0, *[A[a](at_(i + 1)) >= 0 for a in NA]))
        if tw: W.step(lambda i: z3.Implies(z3.And(at_(i + 1) != SRC, at_(i + 1) != SNK), lo(at_(i + 1)) >= lo(SRC) + tm(SRC, at_(i + 1))))
    # the documented quantities along the path
    if S.unroll:
        L, Cc, D, T = [z3.RealVal(0)], [z3.RealVal(0)], [z3.RealVal(0)], [lo(SRC)]
        for i in range(n - 1):
            a, b = at_(i), at_(i + 1)
            L.append(L[-1] + dm(b)); Cc.append(Cc[-1] + co(b)); D.append(D[-1] + sv(a) + tm(a, b)); x = T[-1] + sv(a) + tm(a, b); T.append(z3.If(x >= lo(b), x, lo(b)))
        l, c, d, t = (lambda q: lambda i: q[i])(L), (lambda q: lambda i: q[i])(Cc), (lambda q: lambda i: q[i])(D), (lambda q: lambda i: q[i])(T)
        last = n - 1; idx = range(n - 1)
    else:
        l, c, d, t = (z3.Function(x, I, R) for x in ("load", "collected", "elapsed", "arrival")); i = fresh_const(I, "i"); gd = z3.And(i >= 0, i < n - 1); last = n - 1
        S.assume(l(0) == 0, c(0) == 0, d(0) == 0, t(0) == lo(SRC))
        def doc(i):
            x = t(i) + sv(at_(i)) + tm(at_(i), at_(i + 1))
            return z3.And(l(i + 1) == l(i) + dm(at_(i + 1)), c(i + 1) == c(i) + co(at_(i + 1)), d(i + 1) == d(i) + sv(at_(i)) + tm(at_(i), at_(i + 1)), t(i + 1) == z3.If(x >= lo(at_(i + 1)), x, lo(at_(i + 1))))
        W.step(doc); i0 = z3.Int("i0"); idx = [i0]; S.assume(i0 >= 0, i0 < n - 1)
        W.induct("cspy: the first resource counts the edges", lambda i: F[0](i) == z3.ToReal(i))
        W.induct("cspy: the second resource is the load", lambda i: F[1](i) == l(i))
        W.induct("cspy: the third resource is at least the time elapsed", lambda i: F[2](i) >= d(i))
        if tw: W.induct("cspy: the third resource is the arrival time", lambda i: z3.And(z3.Implies(i >= 1, F[2](i) == t(i)), z3.Implies(i == 0, z3.And(F[2](i) == 0, at_(i) == SRC))))
        if dc:
            W.induct("cspy: the fifth resource is the load collected", lambda i: F[4](i) == c(i))
            W.induct("cspy: the sixth resource bounds the load after node i0", lambda i: z3.Implies(i0 <= i, F[5](i) >= c(i0) + l(i) - l(i0)))
    ens = S.ensure if S.unroll else lambda nm, f: S.ensure_by(nm, f, W.at(i0, i0 + 1, n - 2, n - 1))
    if o["num_stops"]: ens("cspy: at most num_stops customers on a path within the resource bounds", real(num(n)) - 2 <= real(A["ns"]))
    if o["load_capacity"]: ens("cspy: demand within the capacity of the vehicle type", l(last) <= A["cap"])
    if o["duration"]: ens("cspy: travel and service time within the duration limit", d(last) <= A["D"])
    for i in idx:
        if tw: ens("cspy: every node is reached before its window closes", t(i + 1) <= up(at_(i + 1)))
        if dc: ens("cspy: collected plus still to be distributed within the capacity after every node", c(i) + l(last) - l(i) <= A["cap"])


def check_route(S, new, n, at_, A, what, elem=True):
    """the route graph is exactly the walk, priced for its type"""
    i = z3.Int("i0"); u, v = z3.Consts("u0 v0", NodeS); j = z3.Int("j")
    if S.unroll:
        for i in range(n - 1): S.ensure(what + ": has the edges of the path", B(new.hasE(at_(i), at_(i + 1))))
        S.ensure(what + ": no other edge", z3.Implies(B(new.hasE(u, v)), z3.Or(*[z3.And(at_(i) == u, at_(i + 1) == v) for i in range(n - 1)])))
    else:
        S.assume(i >= 0, i < n - 1)
        S.ensure(what + ": has the edges of the path", B(new.hasE(at_(i), at_(i + 1))))
        S.ensure(what + ": no other edge", z3.Implies(B(new.hasE(u, v)), z3.Exists([j], z3.And(j >= 0, j < n - 1, at_(j) == u, at_(j + 1) == v))))
    ty = S.it.getmap(new.st.attr("ga", "vehicle_type"), new.ids); S.ensure(what + ": type priced", real(ty) == real(A["k"]))
    if elem:
        c = S.it.getmap(new.st.attr("ga", "cost"), new.ids)
        S.ensure(what + ": cost is the sum of its edge costs for its type", real(c) == along(S, n, lambda i: A["cost"](at_(i), at_(i + 1), A["k"])))


def check_index(S, ob, new, n, at_, A, what):
    """routes_with_node lists the new route under its customers only"""
    w = z3.Const("w0", NodeS) if not S.unroll else A["nodes"][1 + S.ctx.choose(S.unroll)]; S.assume(A["N"](w), w != SRC, w != SNK); j = z3.Int("j1")
    onp = z3.Exists([j], z3.And(j >= 0, j < n, at_(j) == w)) if not S.unroll else z3.Or(*[at_(i) == w for i in range(n)])
    yes = S.ctx.branch(onp)
    l = S.it.force(S.it.force(S.get(ob, "routes_with_node")).c.v.get((w,), S.ctx)); q = l.seq()
    if q is None: raise Unsupported("index list")
    S.ensure(what + ": listed under a customer exactly if it visits it", num(q[0]) == A["ln"](w) + (1 if yes else 0))
    if yes:
        e = l.c.v[-1].elem
        S.ensure(what + ": the listed route is the new one", isinstance(e, SGraph) and (e.st is new.st or e.st.name == new.st.name))


@contract("cspy new route", "C01 C02 C09", C_ + ".create_new_route", "the column built from a path has exactly its edges, remembers the path, is priced for its vehicle type and indexed under its customers", opts=dict(unroll=2))
def _(S):
    ob, g, A = cspy(S); n, at_ = walk(S, g, A)
    path = SList.of(*[at_(i) for i in range(n)]) if S.unroll else SList([seqpart(n, lambda i: at_(i))])
    new = S.it.force(S.call(ob, "create_new_route", path))
    if not isinstance(new, SGraph): raise Unsupported("route")
    check_route(S, new, n, at_, A, "cspy route"); check_index(S, ob, new, n, at_, A, "cspy route")
    p = S.it.force(S.it.getmap(new.st.attr("ga", "path"), new.ids)) if S.ctx.decide(new.st.attr("ga", "path").v.has(new.ids)) is True else None
    if p is not None:
        q = p.seq() if isinstance(p, SList) else None
        if q is None: raise Unsupported("path attribute")
        S.ensure("cspy route: remembers the path", z3.And(num(q[0]) == num(n), *([S.it.force(q[1](i)) == at_(i) for i in range(n)] if S.unroll else [S.it.force(q[1](z3.Int("i0"))) == at_(z3.Int("i0"))])))


@contract("cspy solve", "C01 C03 C04 C05 C06 C08", C_ + ".solve", "cspy searches the pricing network with the formulated resources (forward only when it has its own extension function); only a path it found with reduced cost below -0.001 becomes a column, and the caller is told so", opts=dict(unroll=2))
def _(S):
    tw, dc = S.ctx.branch(z3.Bool("tw")), S.ctx.branch(z3.Bool("dc"))
    ob, g, A = cspy(S, None, time_windows=tw, distribution_collection=dc, load_capacity=dc)
    if S.unroll: ob.cell("routes").v = SList(); A["n0"] = 0      # no route yet: nothing to compare with
    run = z3.Bool("run"); ob.cell("run_subsolve").v = run; ty = z3.Function("route_type", I, I); A["fam"].declare("ga", "vehicle_type", lambda i: ty(i))
    log = []; new = SGraph(GStore("new route", True, []), ()); new.st.declare("ga", "cost", lambda: z3.Real("new_cost")); new.st.declare("ga", "vehicle_type", lambda: A["k"]); made = []
    cb = ext.AnyObj("callback")
    def formulate(it, so, a, kw): log.append("formulate"); return None      # own contract
    def get_ref(it, so, a, kw): log.append("ref"); return cb if tw or dc else None      # own contract
    def mk(it, so, a, kw): made.append(it.force(a[0] if a else kw["path"])); return new      # own contract
    for n, f in (("formulate", formulate), ("get_REF", get_ref), ("create_new_route", mk)): S.it.summaries[C_ + "." + n] = f
    algs = []
    sg = S.it.force(S.get(ob, "sub_G")); rt0 = S.it.force(S.get(ob, "routes"))
    def bi(it, a, kw):
        al = ext.AnyObj("alg"); k = len(algs); algs.append(al); al.kw = dict(kw); al.a = list(a); al.fed = [x for x in log]
        al.cost = SUnion(z3.Bool("no_path%d" % k), None, z3.Real("found_cost%d" % k)); al.path = SList([seqpart(z3.Int("found_len%d" % k), lambda i: z3.Function("found%d" % k, I, NodeS)(i))]); al.ran = False
        S.assume(z3.Int("found_len%d" % k) >= 2)
        return al
    S.it.ext["cspy.BiDirectional"] = bi
    def attr(it, o, a):
        if o in algs: return {"total_cost": o.cost, "path": o.path, "G": sg}.get(a)
        return None
    def meth(it, o, n, a, kw):
        if o in algs and n == "run": o.ran = True; return None
        raise Unsupported("method %s" % n)
    S.it.anyattr, S.it.anymethod = attr, meth
    limit = SUnion(z3.Bool("no_limit"), None, z3.Real("limit"))
    r = S.it.force(S.call(ob, "solve", limit))
    if not isinstance(r, tuple) or len(r) != 2: raise Unsupported("result of solve")
    rt, more = S.it.force(r[0]), S.it.force(r[1])
    S.ensure("cspy solve: returns its routes", rt is S.it.force(S.get(ob, "routes")))
    q = rt.seq() if isinstance(rt, SList) else None
    if q is None: raise Unsupported("list of routes")
    added = z3.simplify(num(q[0]) - A["n0"])
    if not z3.is_int_value(added): raise Unsupported("number of routes added")
    added = added.as_long()
    S.ensure("cspy solve: at most one route", added in (0, 1)); S.ensure("cspy solve: tells whether a route was added", B(more) == z3.BoolVal(added == 1))
    if not algs: S.ensure("cspy solve: a connected network is searched", z3.Not(run)); return
    S.ensure("cspy solve: a cut network is not searched", run)
    for al in algs:
        a = dict(zip(("G", "max_res", "min_res"), al.a)); a.update(al.kw)
        S.ensure("cspy solve: searches the pricing network", a.get("G") is sg or isinstance(a.get("G"), SGraph) and a["G"].st is sg.st)
        S.ensure("cspy solve: with the bounds formulated before", "formulate" in al.fed and a.get("max_res") is S.it.force(S.get(ob, "max_res")) and a.get("min_res") is S.it.force(S.get(ob, "min_res")))
        if tw or dc:
            S.ensure("cspy solve: own extension function used", a.get("REF_callback") is cb); S.ensure("cspy solve: forward search only with the own extension function", S.it.equal(a.get("direction", "both"), "forward"))
        if dc or A["elem"]: S.ensure("cspy solve: elementary search when asked for (or with collection)", S.it.truth(a.get("elementary", False)))
    if added:
        al = algs[-1]
        if len(made) < 1: raise Unsupported("route not built by create_new_route")
        S.ensure("cspy solve: the column is the path just found", made[-1] is al.path and al.ran and isinstance(rt.c.v[-1].elem, SGraph) and rt.c.v[-1].elem.st is new.st)
        S.ensure("cspy solve: only a path of reduced cost below -0.001", z3.And(z3.Not(al.cost.cond), al.cost.b < z3.RealVal("-1/1000")))
    else:
        al = algs[-1]; i = z3.Int("i")
        S.ensure("cspy solve: an improving path is set aside only if a route of the vehicle type priced is known", z3.Or(al.cost.cond, al.cost.b >= z3.RealVal("-1/1000"), z3.Exists([i], z3.And(i >= 0, i < A["n0"], ty(i) == A["k"]))))
