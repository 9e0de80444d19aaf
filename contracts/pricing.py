"""The pricing problem as a mixed integer program (C03-C08, C12, C13): for every
network, every point of the variables.

Soundness: any point satisfying the rows describes a set of edges that meets the
documented limits.  Completeness: a feasible route, with auxiliary values that
describe it, satisfies every row (so an exact pricing never misses a route).
Variables are identified by what they are indexed with, not by name, so the
statements do not depend on how the rows are written."""
from . import *
from .checks import network
from .prep import vnet, depot
from pyvc import ext

P = "subproblem_lp._SubProblemLP"
NONE = dict(num_stops=None, load_capacity=None, duration=None, time_windows=False, pickup_delivery=False, distribution_collection=False)


def small(S, n):
    """complete network with n customers (refutation only); attributes arbitrary"""
    g = SGraph(GStore("small", False)); A = {}
    cs = [strnode("n%d" % i) for i in range(1, n + 1)]
    A["edges"] = [(SRC, c) for c in cs] + [(a, b) for a in cs for b in cs if a is not b] + [(c, SNK) for c in cs] + [(SRC, SNK)]; A["nodes"] = [SRC] + cs + [SNK]
    for v in A["nodes"]: g.st.N.v = g.st.N.v.put((v,), True)
    for e in A["edges"]: g.st.E.v = g.st.E.v.put(e, True)
    for a in ("demand", "collect", "service_time", "lower", "upper"):
        f = A[a] = z3.Function(a, NodeS, R); g.st.declare("na", a, (lambda f: lambda v: f(v))(f))
        for v in A["nodes"]: S.assume(f(v) >= 0) if a != "demand" else None
    t = A["time"] = z3.Function("time", NodeS, NodeS, R); g.st.declare("ea", "time", lambda u, v: t(u, v))
    for e in A["edges"]: S.assume(t(*e) >= 0)
    for v in (SRC, SNK): S.assume(A["demand"](v) == 0, A["collect"](v) == 0, A["service_time"](v) == 0)
    c = A["cost"] = z3.Function("cost", NodeS, NodeS, I, R); K = z3.Int("K"); S.assume(K >= 1)
    g.st.declare("ea", "cost", lambda u, v: SList([seqpart(K, lambda k: c(u, v, k))]))
    return g, A


def problem(S, **o):
    """-> (object after construction, network, attribute functions, x(i, j))"""
    if S.unroll: g, A = small(S, S.unroll)
    else: g, A = vnet(S); depot(S, g)
    K = z3.Int("K"); k = A["k"] = z3.Int("k"); S.assume(k >= 0, k < K)
    A["w"] = z3.Function("weight", NodeS, NodeS, R); g.st.declare("ea", "weight", lambda u, v: A["w"](u, v))
    A["req"] = z3.Function("request", NodeS, NodeS); A["hasreq"] = z3.Function("has_request", NodeS, BOOL)
    if S.unroll: g.st.declare("na", "request", lambda v: strnode("n2"), lambda v: v == strnode("n1"))      # one request n1 -> n2
    else: g.st.declare("na", "request", lambda v: A["req"](v), lambda v: A["hasreq"](v))
    A["Q"] = Q = z3.Function("Q", I, R); A["cap"] = Q(k)
    A["ns"] = z3.Int("num_stops"); A["D"] = z3.Real("duration")
    f = dict(NONE); f.update(o)
    if f["load_capacity"]: f["load_capacity"] = SList([seqpart(K, lambda j: Q(j))]); S.assume(Q(k) > 0)
    if f["num_stops"]: f["num_stops"] = A["ns"]; S.assume(A["ns"] > 0)
    if f["duration"]: f["duration"] = A["D"]; S.assume(A["D"] > 0)
    S.it.summaries["subproblem._SubProblemBase.add_reduced_cost_attribute"] = lambda it, so, a, kw: None      # own contract; here: any weights
    a = [g, SDict(), SDict(), SList(), k, None] + [f[n] for n in ("num_stops", "load_capacity", "duration", "time_windows", "pickup_delivery", "distribution_collection")] + ["Exact", None]
    o = S.it.construct(S.cls(P), a, {"solver": "cbc"})
    A["N"], A["E"] = lambda v: B(g.hasN(v)), lambda u, v: B(g.hasE(u, v))
    return o, g, A


class Point:
    """an arbitrary point of the declared variables.  edge/node templates by index sorts"""
    def __init__(s, S, o):
        s.S = S; ctx = S.ctx; s.decl = S.it.lp.decl.v
        s.edge, s.node = {}, {}; s.dom = []
        s.xt = None
        for p in s.decl:
            d = p.elem; ks = d.var.key
            if d.e is not None: raise Unsupported("column entries in the pricing problem")
            if len(ks) == 2: s.edge[d.var.tpl] = d
            elif len(ks) == 1: s.node[d.var.tpl] = d
            else: raise Unsupported("variables of unknown kind")
        xs = [t for t, d in s.edge.items() if d.cat == "Binary"]
        if len(xs) != 1: raise Unsupported("edge variables not recognised")
        s.xt = xs[0]; ext.BINARY[s.xt] = True

    def on(s, i, j): return ext.valfn(s.xt, (i, j), BOOL)
    def val(s, t, *k): return ext.valfn(t, k, R)

    def domain(s):
        """bounds and integrality of the variables"""
        fs = []
        for p in s.decl:
            p = p.fresh(); d = p.elem
            if d.cat == "Binary": continue
            v = ext.value(d.var); cs = []
            if d.low is not None: cs.append(v >= real(d.low))
            if d.up is not None: cs.append(v <= real(d.up))
            if d.cat == "Integer": cs.append(z3.IsInt(v))
            if cs: fs.append(forall(p.bs, B(IMP(p.guard, AND(*cs)))))
        return fs

    def rows(s, prob):
        out = []
        for p in prob.rows.v:
            if isinstance(p.elem, RowVar): raise Unsupported("row variables in the pricing problem")
            out.append(ext.row_formula(s.S.ctx, p))
        return out


def prob_of(S, o):
    p = [c.v for c in o.attrs.values() if isinstance(c.v, LProb)]
    if len(p) != 1: raise Unsupported("problem not recognised")
    return p[0]


def esum(S, A, pt, body, lhs=None):
    """sum over used edges"""
    i, j = fresh_const(NodeS, "i"), fresh_const(NodeS, "j")
    return S.ctx.sum([i, j], z3.And(A["E"](i, j), pt.on(i, j)), body(i, j))


def outsum(S, A, pt, v):
    j = fresh_const(NodeS, "j"); return S.ctx.sum([j], z3.And(A["E"](v, j), pt.on(v, j)), z3.RealVal(1))


def insum(S, A, pt, v):
    j = fresh_const(NodeS, "j"); return S.ctx.sum([j], z3.And(A["E"](j, v), pt.on(j, v)), z3.RealVal(1))


def formulated(S, **o):
    ob, g, A = problem(S, **o)
    S.call(ob, "_formulate")
    pt = Point(S, ob); pr = prob_of(S, ob)
    return ob, g, A, pt, pr


@contract("lp flow", "C03 C13", P + "._formulate", "objective = reduced cost of the used edges; flow is conserved, leaves the Source and enters the Sink once, at least one customer; and nothing else is required when no option is active")
def _(S):
    o, g, A, pt, pr = formulated(S)
    obj = pr.obj.v
    if obj is None: S.ensure("pricing: objective set", False); return
    S.ensure("pricing: objective = sum of the weights of the used edges", ext.lin_value(S.ctx, obj) == esum(S, A, pt, lambda i, j: A["w"](i, j)))
    v = z3.Const("v0", NodeS); u = z3.Const("u", NodeS)
    neg = any(n for n in pt.node)
    S.ctx.binders.append(v)
    spec_v = insum(S, A, pt, v) == outsum(S, A, pt, v)
    S.ctx.binders.pop()
    one = [outsum(S, A, pt, SRC) == 1, insum(S, A, pt, SNK) == 1]; two = esum(S, A, pt, lambda i, j: z3.RealVal(1)) >= 2
    spec = [z3.ForAll([v], z3.Implies(z3.And(A["N"](v), v != SRC, v != SNK), spec_v))] + one + [two]
    mark = len(S.ctx.pc)
    S.assume(*pt.rows(pr), *pt.domain())
    S.assume(A["N"](v), v != SRC, v != SNK)
    S.ensure("pricing: flow is conserved at every customer", spec_v)
    S.ensure("pricing: exactly one edge leaves the Source", one[0])
    S.ensure("pricing: exactly one edge enters the Sink", one[1])
    S.ensure("pricing: at least two edges", two)
    del S.ctx.pc[mark:]
    if not neg:
        S.assume(*spec)
        for n, f in enumerate(pt.rows(pr)): S.ensure("pricing: no further restriction without options", f)


def flow_spec(S, A, pt):
    v = fresh_const(NodeS, "v")
    S.ctx.binders.append(v)
    f = insum(S, A, pt, v) == outsum(S, A, pt, v)
    S.ctx.binders.pop()
    return [z3.ForAll([v], z3.Implies(z3.And(A["N"](v), v != SRC, v != SNK), f)), outsum(S, A, pt, SRC) == 1, insum(S, A, pt, SNK) == 1, esum(S, A, pt, lambda i, j: z3.RealVal(1)) >= 2]


def nodevars(pt, cat): return [t for t, d in pt.node.items() if d.cat == cat]
def edgevars(pt): return [t for t, d in pt.edge.items() if d.cat != "Binary"]


def rank_spec(S, A, pt, y, n, strict):
    """ranks increasing along used edges"""
    i, j, v = (fresh_const(NodeS, x) for x in "ijv")
    val = lambda a: pt.val(y, a)
    fs = [z3.ForAll([i, j], z3.Implies(z3.And(A["E"](i, j), pt.on(i, j)), val(i) + 1 <= val(j)))]
    if strict:
        fs += [z3.ForAll([v], z3.Implies(A["N"](v), z3.And(z3.IsInt(val(v)), val(v) >= 0, val(v) <= real(n) - 1, val(v) <= val(SNK)))), val(SRC) == 0]
    return fs


def tw_spec(S, A, pt, t):
    i, j, v = (fresh_const(NodeS, x) for x in "ijv")
    val = lambda a: pt.val(t, a)
    return [z3.ForAll([i, j], z3.Implies(z3.And(A["E"](i, j), pt.on(i, j)), val(i) + A["service_time"](i) + A["time"](i, j) <= val(j))),
            z3.ForAll([v], z3.Implies(A["N"](v), z3.And(val(v) >= A["lower"](v), val(v) <= A["upper"](v))))]


def load_spec(S, A, pt, l):
    i, j, v = (fresh_const(NodeS, x) for x in "ijv")
    val = lambda a: pt.val(l, a)
    return [z3.ForAll([i, j], z3.Implies(z3.And(A["E"](i, j), pt.on(i, j)), val(j) == val(i) + A["demand"](j))),
            z3.ForAll([v], z3.Implies(A["N"](v), z3.And(val(v) >= 0, val(v) <= A["cap"]))), val(SRC) == 0]


def dc_spec(S, A, pt, un, ld):
    i, j, v = (fresh_const(NodeS, x) for x in "ijv")
    U, L = (lambda a, b: pt.val(un, a, b)), (lambda a, b: pt.val(ld, a, b))
    fs = [z3.ForAll([i, j], z3.Implies(A["E"](i, j), z3.And(U(i, j) >= 0, L(i, j) >= 0, U(i, j) + L(i, j) <= z3.If(pt.on(i, j), A["cap"], z3.RealVal(0)))))]
    S.ctx.binders.append(v)
    sm = lambda f, out: S.ctx.sum([j], A["E"](v, j) if out else A["E"](j, v), f(v, j) if out else f(j, v))
    f = z3.And(sm(U, False) - sm(U, True) == A["demand"](v) * insum(S, A, pt, v), sm(L, True) - sm(L, False) == A["collect"](v) * insum(S, A, pt, v))
    S.ctx.binders.pop()
    return fs + [z3.ForAll([v], z3.Implies(z3.And(A["N"](v), v != SRC, v != SNK), f))]


def limits(S, A, pt, o):
    """(name, property, formula over used edges)"""
    out = []
    if o.get("num_stops"): out.append(("at most num_stops + 1 edges", esum(S, A, pt, lambda i, j: z3.RealVal(1)) <= real(A["ns"]) + 1))
    if o.get("load_capacity"): out.append(("demand within the capacity of the vehicle type", esum(S, A, pt, lambda i, j: A["demand"](j)) <= A["cap"]))
    if o.get("duration"): out.append(("travel and service time within the duration limit", esum(S, A, pt, lambda i, j: A["time"](i, j) + A["service_time"](i)) <= A["D"]))
    return out


def conj(fs): return z3.And(*[B(f) for f in fs]) if fs else z3.BoolVal(True)


def some(S, name, alts):
    """one of the alternative readings is provable"""
    if not alts: S.ensure(name, False); return
    for fs in alts[:-1]:
        hyp = S.ctx.relevant(S.ctx.pc, conj(fs)) or S.ctx.pc
        def ok(f):
            gs = hyp + [z3.Not(f)]
            return S.ctx.check(gs + S.ctx.sum_axioms(gs), 2000)[0] == z3.unsat
        if all(ok(f) for f in fs):
            for f in fs: S.ensure(name, f)
            return
    t, S.ctx.taint = S.ctx.taint, S.ctx.taint or "variables identified by their kind"
    for n, f in enumerate(alts[-1]): S.ensure(name, f)
    S.ctx.taint = t


def refute(S, o):
    """small networks only, independent of the formulation: for a given path, the rows have a solution exactly if the path is a feasible route"""
    ob, g, A = problem(S, **o)
    if not o.get("pickup_delivery"):
        for v in A["nodes"]: S.assume(A["demand"](v) >= 0)
    S.call(ob, "_formulate")
    pt = Point(S, ob); pr = prob_of(S, ob); rows = conj(pt.rows(pr) + pt.domain())
    import itertools
    cs = A["nodes"][1:-1]
    for k in range(len(cs), -1, -1):
        for mid in itertools.permutations(cs, k):
            p = [SRC] + list(mid) + [SNK]; es = list(zip(p, p[1:]))
            fix = [(pt.on(*e), z3.BoolVal(e in es)) for e in A["edges"]]
            f = z3.simplify(z3.substitute(rows, *fix))
            ok = [z3.BoolVal(k > 0)]
            if o.get("num_stops"): ok.append(real(A["ns"]) >= k)
            if o.get("load_capacity"): ok.append(z3.Sum([z3.RealVal(0)] + [A["demand"](v) for v in mid]) <= A["cap"])
            if o.get("duration"): ok.append(z3.Sum([A["time"](*e) + A["service_time"](e[0]) for e in es]) <= A["D"])
            if o.get("time_windows"):
                t = A["lower"](SRC); ok += [A["lower"](v) <= A["upper"](v) for v in A["nodes"]]
                for a, b in es:
                    x = t + A["service_time"](a) + A["time"](a, b); t = z3.If(x >= A["lower"](b), x, A["lower"](b)); ok.append(t <= A["upper"](b))
            if o.get("pickup_delivery"):
                one, two = strnode("n1"), strnode("n2")
                ok.append(z3.BoolVal((one in mid) == (two in mid) and (one not in mid or p.index(one) < p.index(two))))
                l = z3.RealVal(0)
                for v in mid: l = l + A["demand"](v); ok += [l >= 0, l <= A["cap"]]
                ok.append(l == 0)
                for v in cs: S.assume(A["demand"](v) <= A["cap"], A["demand"](v) >= -A["cap"])
            if o.get("distribution_collection"):
                for n in range(len(p) - 1): ok.append(z3.Sum([z3.RealVal(0)] + [A["collect"](v) for v in p[:n + 1]] + [A["demand"](v) for v in p[n + 1:]]) <= A["cap"])
            name = "pricing model: %s" % "-".join(str(x)[5:] for x in p)
            S.ensure(name + " only if feasible", z3.Implies(f, conj(ok)))
            aux = sorted({x for x in consts(f)}, key=str)
            if aux and all(a.sort() == R for a in aux): fx = z3.simplify(f)
            vs = [z3.FreshConst(a.sort(), "a") for a in aux]
            S.ensure(name + " if feasible", z3.Implies(conj(ok), z3.Exists(vs, z3.substitute(f, *list(zip(aux, vs)))) if aux else f))


def consts(f):
    """value terms of auxiliary variables"""
    out, seen, st = set(), set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name().startswith("val_"): out.add(x)
            st += x.children()
    return out


def sound_complete(S, o, extra=()):
    """o: active options.  rows => limits; limits and values describing a route => rows"""
    if S.unroll: return refute(S, o)
    g = None
    ob, g, A = problem(S, **o)
    v, u, w = z3.Consts("v u w", NodeS)
    for f in extra: S.assume(f(A))
    S.call(ob, "_formulate")
    pt = Point(S, ob); pr = prob_of(S, ob)
    n = S.it.length(NodesView(g)); pd, dc, tw = o.get("pickup_delivery"), o.get("distribution_collection"), o.get("time_windows")
    rows, dom = pt.rows(pr), pt.domain()
    lim = limits(S, A, pt, o); flow = flow_spec(S, A, pt)
    cont, ints, ev = nodevars(pt, "Continuous"), nodevars(pt, "Integer"), edgevars(pt)
    mark = len(S.ctx.pc)
    S.assume(*rows, *dom)
    for nm, f in lim: S.ensure("pricing: " + nm, f)
    if tw: some(S, "pricing: a schedule within the time windows exists along the used edges", [tw_spec(S, A, pt, t) for t in cont])
    if ints or pd: some(S, "pricing: ranks increase along the used edges (no cycle)", [rank_spec(S, A, pt, y, n, False) for y in ints])
    if pd:
        x = z3.Const("x0", NodeS); S.assume(A["N"](x), A["hasreq"](x)); d = A["req"](x)
        S.ctx.binders.append(x)
        S.ensure("pricing: pickup and delivery together", outsum(S, A, pt, x) == outsum(S, A, pt, d))
        S.ctx.binders.pop()
        some(S, "pricing: pickup not after delivery", [[pt.val(y, x) <= pt.val(y, d)] for y in ints])
        some(S, "pricing: load tracked within the capacity", [load_spec(S, A, pt, l) + [pt.val(l, SNK) == 0] for l in cont])
    if dc: some(S, "pricing: distribution and collection loads tracked within the capacity on every edge", [dc_spec(S, A, pt, a, b) for a in ev for b in ev if a != b])
    # completeness
    del S.ctx.pc[mark:]
    y = ints[0] if ints else None; t = cont[0] if tw and cont else None; l = cont[1 if tw else 0] if pd and len(cont) > (1 if tw else 0) else None
    if len(ints) > 1 or len(cont) > (1 if tw else 0) + (1 if pd else 0) or len(ev) != (2 if dc else 0): raise Unsupported("variables not recognised")
    taint = S.ctx.taint
    if y or t or l or ev: S.ctx.taint = taint or "variables identified by their kind"
    S.assume(*flow, *[f for _, f in lim])
    if y: S.assume(*rank_spec(S, A, pt, y, n, True))
    if t: S.assume(*tw_spec(S, A, pt, t))
    if pd:
        S.ctx.binders.append(v); f = outsum(S, A, pt, v) == outsum(S, A, pt, A["req"](v)); S.ctx.binders.pop()
        S.assume(z3.ForAll([v], z3.Implies(z3.And(A["N"](v), A["hasreq"](v)), z3.And(f, pt.val(y, v) <= pt.val(y, A["req"](v))))))
        li = z3.Function("inload", NodeS, R)      # load on arrival; any value in range for nodes not visited
        S.assume(*load_spec(S, A, pt, l)); S.assume(pt.val(l, SNK) == 0)
        S.assume(z3.ForAll([v], z3.Implies(A["N"](v), z3.And(li(v) >= 0, li(v) <= A["cap"], pt.val(l, v) == li(v) + A["demand"](v)))))
    if dc: S.assume(*dc_spec(S, A, pt, *(ev if "un" in ev[0] else ev[::-1])))
    for f in rows: S.ensure("pricing: a feasible route satisfies every row", f)
    for f in dom: S.ensure("pricing: a feasible route is within the variable bounds", f)
    S.ctx.taint = taint


NONNEG = lambda A: (lambda v: z3.ForAll([v], z3.Implies(A["N"](v), z3.And(A["lower"](v) >= 0, A["service_time"](v) >= 0))))(fresh_const(NodeS, "v"))
REQ = lambda A: (lambda v: z3.ForAll([v], z3.Implies(z3.And(A["N"](v), A["hasreq"](v)), z3.And(A["N"](A["req"](v)), v != SRC, v != SNK, A["req"](v) != SRC, A["req"](v) != SNK))))(fresh_const(NodeS, "v"))


@contract("lp stops, load, duration", "C03 C04 C05 C13", P + "._formulate", "any subset of these limits: the rows hold exactly for edge sets within the limits", cost=3, opts=dict(unroll=2))
def _(S):
    o = {}
    for a in ("num_stops", "load_capacity", "duration"): o[a] = S.ctx.branch(z3.Bool("opt_" + a))
    sound_complete(S, o)


@contract("lp time windows", "C06 C13", P + "._formulate", "the rows hold exactly when a schedule within the windows exists along the used edges", cost=3, opts=dict(unroll=2))
def _(S): sound_complete(S, dict(time_windows=True), [NONNEG])


@contract("lp pickup and delivery", "C07 C13", P + "._formulate", "pickup and delivery on the same route in order, load within capacity", cost=3, opts=dict(unroll=2))
def _(S): sound_complete(S, dict(pickup_delivery=True, load_capacity=True), [REQ])


@contract("lp distribution and collection", "C08 C13", P + "._formulate", "loads to distribute and collected loads together within capacity on every used edge", cost=3, opts=dict(unroll=2))
def _(S): sound_complete(S, dict(distribution_collection=True, load_capacity=True))


@contract("lp all options", "C03 C04 C05 C06 C07 C08 C13", P + "._formulate", "all limits active together", cost=5, limits=(220, 500), opts=dict(unroll=2))
def _(S):
    if S.ctx.branch(z3.Bool("opt_pd")): sound_complete(S, dict(num_stops=True, duration=True, load_capacity=True, time_windows=True, pickup_delivery=True), [NONNEG, REQ])
    else: sound_complete(S, dict(num_stops=True, duration=True, load_capacity=True, time_windows=True, distribution_collection=True), [NONNEG])


def pool(S, N):
    """the columns found so far: a list of routes and, per customer, the list of those visiting it"""
    fam = GStore("pool", True, [I]); n = z3.Int("n_pool"); S.assume(n >= 0)
    routes = SList([seqpart(n, lambda i: SGraph(fam, (i,)))])
    ln = z3.Function("n_with", NodeS, I); rid = z3.Function("with", NodeS, I, I); v = z3.Const("v", NodeS); i = z3.Int("i")
    S.assume(z3.ForAll([v], ln(v) >= 0))
    cust = lambda v: z3.And(N(v), v != SRC, v != SNK)
    d = SDict(FMap(FnBase(lambda v: cust(v), lambda v: SList([seqpart(ln(v), lambda i: SGraph(fam, (rid(v, i),)))]))), [NodeS])
    return routes, d, n, ln, fam


@contract("lp new route", "C01 C02 C09 C13", P + "._add_new_route", "the route added is a simple Source-Sink path of used edges, priced for its vehicle type, and indexed under exactly its customers", opts=dict(unroll=3))
def _(S):
    o, g, A = problem(S)
    E, N = A["E"], A["N"]
    routes, idx, n0, ln, fam = pool(S, N)
    o.cell("routes").v = routes; o.cell("routes_with_node").v = idx
    pt = Point(S, o)
    paths = []
    if S.unroll:
        w = [SRC, strnode("n2"), strnode("n1"), SNK]
        for e in A["edges"]: S.assume(pt.on(*e) if e in list(zip(w, w[1:])) else z3.Not(pt.on(*e)))
    def hook(it, gg, s, t):
        if S.unroll: paths.append(SList.of(*w)); return SList.of(*w)
        p = ext.fresh_path(it, gg, s, t); paths.append(p); return p
    S.it.path_hook = hook
    S.call(o, "_add_new_route")
    rt = S.it.force(S.get(o, "routes"))
    q = rt.seq() if isinstance(rt, SList) else None
    if q is None: raise Unsupported("list of routes")
    S.ensure("new route: exactly one route is added", num(q[0]) == n0 + 1)
    i = z3.Int("i0")
    new = rt.c.v[-1].elem
    if not isinstance(new, SGraph): raise Unsupported("route")
    if len(paths) != 1: raise Unsupported("path not recognised")
    ln_, at = paths[0].seq()
    S.assume(i >= 0, i < num(ln_) - 1)
    S.ensure("new route: consists of the edges of a Source-Sink path of used edges", z3.And(B(new.hasE(at(i), at(i + 1))), E(at(i), at(i + 1)), pt.on(at(i), at(i + 1))))
    u, v = z3.Consts("u0 v0", NodeS); j = z3.Int("j")
    S.ensure("new route: no other edge", z3.Implies(B(new.hasE(u, v)), z3.Exists([j], z3.And(j >= 0, j < num(ln_) - 1, at(j) == u, at(j + 1) == v))))
    ty = S.it.getmap(new.st.attr("ga", "vehicle_type"), new.ids); S.ensure("new route: type priced", real(ty) == real(A["k"]))
    c = S.it.getmap(new.st.attr("ga", "cost"), new.ids); j = fresh_const(I, "j")
    S.ensure("new route: cost is the sum of its edge costs for its type", real(c) == S.ctx.sum([j], z3.And(j >= 0, j < num(ln_) - 1), A["cost"](at(j), at(j + 1), A["k"])))
    # the column index
    w = z3.Const("w0", NodeS) if not S.unroll else A["nodes"][1 + S.ctx.choose(3)]; S.assume(N(w), w != SRC, w != SNK); j = z3.Int("j1")
    onp = z3.Exists([j], z3.And(j >= 0, j < num(ln_), at(j) == w))
    yes = S.ctx.branch(onp)
    l = S.it.force(S.it.force(S.get(o, "routes_with_node")).c.v.get((w,), S.ctx)); q = l.seq()
    if q is None: raise Unsupported("index list")
    S.ensure("new route: listed under a customer exactly if it visits it", num(q[0]) == ln(w) + (1 if yes else 0))
    if yes:
        e = l.c.v[-1].elem
        S.ensure("new route: the listed route is the new one", isinstance(e, SGraph) and (e.st is new.st or e.st.name == new.st.name))


@contract("lp solve", "C13", P + ".solve", "a route is added exactly when the optimum is below -0.001 (exact) and the caller is told so; a pruned network or an exhausted time limit adds nothing")
def _(S):
    o, g, A = problem(S); N = A["N"]
    routes, idx, n0, ln, fam = pool(S, N)
    o.cell("routes").v = routes; o.cell("routes_with_node").v = idx
    run = z3.Bool("run"); o.cell("run_subsolve").v = run
    def formulate(it, so, a, kw): it.ctx.set(prob_of(S, so).obj, Lin()); return None      # own contract
    def add(it, so, a, kw): ext.list_method(it, it.force(it.getattr(so, "routes")), "append", [SGraph(fam, (z3.Int("new"),))], {}); return None      # own contract
    for n, f in (("_formulate", formulate), ("_add_new_route", add)): S.it.summaries[P + "." + n] = f
    tl = SUnion(z3.Bool("no_limit"), None, z3.Real("limit"))
    exact = z3.Bool("exact"); ex = S.ctx.branch(exact); pr = prob_of(S, o)
    r = S.it.force(S.call(o, "solve", tl, ex))
    if not isinstance(r, tuple) or len(r) != 2: raise Unsupported("result of solve")
    rt, more = S.it.force(r[0]), S.it.force(r[1])
    S.ensure("solve: returns its routes", rt is S.it.force(S.get(o, "routes")))
    q = rt.seq() if isinstance(rt, SList) else None
    if q is None: raise Unsupported("list of routes")
    added = z3.simplify(num(q[0]) - n0)
    if not z3.is_int_value(added): raise Unsupported("number of routes added")
    added = added.as_long(); solved = pr.solved.v is not None
    S.ensure("solve: tells whether a route was added", B(more) == z3.BoolVal(added == 1)); S.ensure("solve: at most one route", added in (0, 1))
    skip = z3.Or(z3.Not(run), z3.And(z3.Not(z3.Bool("no_limit")), z3.Real("limit") < 0))
    if not solved:
        S.ensure("solve: the problem is solved unless the network is cut or no time is left", z3.Or(z3.Not(run), z3.And(z3.Not(z3.Bool("no_limit")), z3.Real("limit") <= 0))); S.ensure("solve: nothing added without solving", added == 0); return
    S.ensure("solve: formulated before solving", pr.obj.v is not None)
    S.ensure("solve: not solved on a cut network", z3.Not(skip))
    obj = [v for _, v in S.it.objval.values()] if hasattr(S.it, "objval") else []
    if len(obj) != 1: raise Unsupported("objective value")
    none, val = obj[0].cond, obj[0].b
    st = getattr(S.it, "status", None); bad = st == strnode("Infeasible") if st is not None else z3.BoolVal(False)
    found = z3.And(z3.Not(none), val < z3.RealVal("-1/1000"), z3.Not(bad))
    if ex: S.ensure("solve: a route of reduced cost below -0.001 is added, no other", z3.BoolVal(added == 1) == found)
    else:
        opt = z3.Or(st == strnode("Optimal"), st == strnode("")) if st is not None else z3.BoolVal(False)
        S.ensure("solve: a feasible column of negative reduced cost is added", z3.BoolVal(added == 1) == z3.Or(found, opt))
