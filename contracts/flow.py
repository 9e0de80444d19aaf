"""What a call to solve does from start to end (C01, C09, C11-C13, C16-C18):
options and state of this call, preprocessing as a whole, initial columns,
when the search ends, which solution is reported."""
from . import *
from .prep import vnet, depot, at, cost_at, same_struct, NA
from .glue import bound, V_
from pyvc import ext


@contract("pruning", "C12", V_ + "._prune_graph", "without windows an edge is removed only if its two demands exceed every capacity; the capacity used for bounds is the largest one; windows are pruned exactly when they are active")
def _(S):
    g, A = vnet(S); depot(S, g); K = z3.Int("K"); Q = z3.Function("Q", I, R); gh = S.obj(V_, windows=False)
    N0, E0 = g.st.N.v, g.st.E.v; tw = z3.Bool("tw"); k = z3.Int("k0"); S.assume(k >= 0, k < K)
    case = S.ctx.choose(3); S.ctx.cond(z3.Int("cap_kind") == case)      # no capacity, one number, one per type
    cap = (None, z3.Real("Q1"), SList([seqpart(K, lambda i: Q(i))]))[case]
    if case == 1: S.assume(cap > 0)
    S.it.summaries[V_ + "._remove_infeasible_arcs_time_windows"] = lambda it, so, a, kw: it.wr(gh.cell("windows"), True)      # own contract
    o = S.obj(V_, G=g, load_capacity=cap, time_windows=tw, _max_capacity=None)
    S.call(o, "_prune_graph")
    S.ensure("pruning: windows are looked at exactly when active", B(S.it.truth(S.it.rd(gh.cell("windows")))) == tw)
    u, v = z3.Consts("u0 v0", NodeS); E1 = g.st.E.v; q = Q(k) if case == 2 else cap
    S.ensure("pruning: no node is lost, no edge added", AND(B(g.st.N.v.has((u,))) == B(N0.has((u,))), IMP(E1.has((u, v)), E0.has((u, v)))))
    S.ensure("pruning: edges some vehicle can serve are kept", IMP(AND(E0.has((u, v)), True if case == 0 else A["demand"](u) + A["demand"](v) <= q), E1.has((u, v))))
    if case: S.ensure("pruning: the largest capacity is used for bounds", real(S.it.force(S.get(o, "_max_capacity"))) >= q)


def boundf(S, qual, a, kw):
    f = S.func(qual); ns = [x.arg for x in f.node.args.args]; d = dict(zip(ns, a)); d.update(kw); df = f.node.args.defaults
    for n, x in zip(ns[len(ns) - len(df):], df):
        if n not in d: d[n] = __import__("ast").literal_eval(x) if not isinstance(x, (__import__("ast").List, __import__("ast").Dict)) else SList()
    return {n: S.it.force(x) for n, x in d.items()}


@contract("preparation", "C09 C10 C11 C12 C15 C16 C18", V_ + "._pre_solve checks.check_periodic_num_vehicles", "before a search: the input is checked as given, fixed costs are charged once, defaults are set and the network copied before routes are locked and edges pruned, limits on stops and the price of the empty route follow", opts=dict())
def _(S):
    g, A = vnet(S); depot(S, g); K = z3.Int("K"); S.assume(g.hasE(SRC, SNK)); it = S.it
    mixed, cap, fix, pre, allv, per, fleet = [S.ctx.branch(z3.Bool(x)) for x in ("mixed", "cap", "fix", "pre", "use_all", "periodic", "fleet")]
    pd, dc, tw = z3.Bool("pd"), z3.Bool("dc"), z3.Bool("tw"); f = lambda n, srt: SList([seqpart(K, lambda i: z3.Function(n, I, srt)(i))])
    vals = dict(num_stops=z3.Int("num_stops"), load_capacity=f("Q", I) if cap else None, duration=z3.Int("duration"), fixed_cost=f("fixed", R) if fix else None, num_vehicles=f("nv", I) if fleet else None, periodic=z3.Int("period") if per else None, use_all_vehicles=allv, pickup_delivery=pd, distribution_collection=dc, time_windows=tw, mixed_fleet=mixed, _preassignments=SList([seqpart(z3.Int("np"), lambda i: z3.Function("pr", I, I)(i))]) if pre else SList(), _pricing_strategy="Exact", _cspy=z3.Bool("cspy"))
    if pre: S.assume(z3.Int("np") >= 1)
    if per: S.assume(z3.Int("period") >= 1)
    K0 = z3.Int("K_before")      # whatever an earlier solve left
    if not (cap or fix or fleet): S.assume(K0 == K)
    o = S.obj(V_, G=g, _H=None, _vehicle_types=K0, _max_capacity=z3.Int("Qmax"), _num_vehicles_schedule=None, **vals)
    log = []; args = {}
    def step(n, qual=None):
        def h(i_, so, a, kw):
            if qual: args[n] = boundf(S, qual, a, kw)
            log.append(n)
            if n == "bound": return z3.Int("bound")
            if n == "prune": i_.wr(so.cell("_max_capacity"), z3.Int("Qlargest"))
            if n == "types": i_.wr(so.cell("_vehicle_types"), z3.Int("K"))
        return h
    for n, m in (("types", "_define_vehicle_types"), ("fixed", "_add_fixed_costs"), ("defaults", "_update_dummy_attributes"), ("lock", "_lock"), ("prune", "_prune_graph")): it.summaries[V_ + "." + m] = step(n)
    for m in ("check_arguments", "check_consistency", "check_feasibility", "check_preassignments"): it.summaries["checks." + m] = step(m, "checks." + m)
    it.summaries["preprocessing.get_num_stops_upper_bound"] = step("bound", "preprocessing.get_num_stops_upper_bound")
    S.call(o, "_pre_solve")
    at_ = lambda n: log.index(n) if n in log else None
    before = lambda a, b: at_(a) is not None and at_(b) is not None and at_(a) < at_(b)
    same = lambda x, y: x is y or (isinstance(x, (bool, str)) or x is None) and x == y or (isz(x) or isnum(x)) and (isz(y) or isnum(y)) and not isinstance(x, bool) and not isinstance(y, bool) and it.equal(x, y)
    def given(m, **ex):
        for p, y in ex.items():
            x = args[m].get(p, None) if m in args else None
            S.ensure("preparation: %s sees %s as given" % (m, p), m in args and (isinstance(x, SGraph) and x.st is g.st if p == "G" else same(x, y)))
    given("check_arguments", num_stops=vals["num_stops"], load_capacity=vals["load_capacity"], duration=vals["duration"], pricing_strategy="Exact", mixed_fleet=mixed, fixed_cost=vals["fixed_cost"], G=g, vehicle_types=K if mixed else 1, num_vehicles=vals["num_vehicles"], use_all_vehicles=allv)
    given("check_consistency", cspy=vals["_cspy"], pickup_delivery=pd, pricing_strategy="Exact", G=g)
    given("check_feasibility", load_capacity=vals["load_capacity"], G=g, duration=vals["duration"])
    S.ensure("preparation: arguments are checked before anything is changed", before("check_arguments", "defaults") and (not fix or before("check_arguments", "fixed")))
    S.ensure("preparation: fixed costs are charged once, exactly if given", log.count("fixed") == (1 if fix else 0))
    S.ensure("preparation: the copy for the reports includes the fixed costs", not fix or before("fixed", "defaults"))
    S.ensure("preparation: defaults are set once", log.count("defaults") == 1)
    S.ensure("preparation: demands and times are checked once defaults are set", before("defaults", "check_feasibility"))
    if pre:
        S.ensure("preparation: preassigned routes are locked once, after the copy was made", log.count("lock") == 1 and before("defaults", "lock"))
        S.ensure("preparation: preassigned routes are checked before they are locked", before("check_preassignments", "lock") and any(x is vals["_preassignments"] for x in args["check_preassignments"].values()))
    else: S.ensure("preparation: nothing is locked without preassignments", "lock" not in log)
    S.ensure("preparation: pruned once defaults are set", before("defaults", "prune"))
    get = lambda a: it.force(S.get(o, a))
    S.ensure("preparation: vehicles per day only limit the timetable of a period", (same(get("_num_vehicles_schedule"), vals["num_vehicles"]) and not_any(S, get("num_vehicles"))) if per and fleet else same(get("num_vehicles"), vals["num_vehicles"]))
    ns = get("num_stops")
    if "bound" in log:
        S.ensure("preparation: the bound on stops only where all loads count against the capacity", AND(cap, NOT(pd)))
        a = args["bound"]; S.ensure("preparation: the bound on stops is that of the pruned network and largest capacity", before("prune", "bound") and isinstance(a.get("G"), SGraph) and a["G"].st is g.st and same(a.get("max_capacity"), z3.Int("Qlargest")))
        S.ensure("preparation: the bound on stops keeps the given limit", same(a.get("num_stops"), vals["num_stops"]))
        S.ensure("preparation: the bound on stops looks at collections exactly if there are any", it.equal(a.get("distribution_collection"), dc))
        S.ensure("preparation: the number of stops is bounded", OR(same(ns, z3.Int("bound")), same(ns, vals["num_stops"])))
    else: S.ensure("preparation: the number of stops is as given", same(ns, vals["num_stops"]))
    u, v = z3.Consts("u0 v0", NodeS); k = z3.Int("k0"); S.assume(k >= 0, k < K, g.hasE(u, v)); e = z3.And(u == SRC, v == SNK)
    c = cost_at(S, g, u, v, k)
    S.ensure("preparation: an empty route is prohibitive exactly if every vehicle must be used", IMP(e, c >= 1e9) if allv else c == A["cost"](u, v, k))
    if allv: S.ensure("preparation: other costs unchanged", IMP(z3.Not(e), c == A["cost"](u, v, k)))


def not_any(S, x): return x is None or isinstance(x, SList) and S.it.is_empty(x)


@contract("end of the search", "C13", V_ + "._column_generation", "without limits the column generation ends only when a step found no column (or after 1000 steps without improvement)")
def _(S):
    o = S.obj(V_, _more_routes=z3.Bool("more0"), _no_improvement=z3.Int("stalled0"), _iteration=z3.Int("iteration0"), _max_iter=None, _time_limit=None, _start_time=z3.Real("t0"))
    if S.ctx.branch(z3.Bool("has_max_iter")): o.cell("_max_iter").v = z3.Int("max_iter")
    def step(it, so, a, kw):      # own contract: any outcome
        for n, s_ in (("_more_routes", BOOL), ("_no_improvement", I)): it.wr(so.cell(n), it.ctx.fresh(n, s_))
        it.wr(so.cell("_iteration"), it.rd(so.cell("_iteration")) + 1)
        it.wr(gh.cell("n"), it.rd(gh.cell("n")) + 1)
    gh = S.obj(V_, n=z3.IntVal(0)); S.it.summaries[V_ + "._find_columns"] = step
    pol = {}; extra = []
    def goal():
        m = S.it.force(S.get(o, "_max_iter")); it1 = num(S.it.force(S.get(o, "_iteration")))
        return z3.Or(B(NOT(S.it.truth(S.get(o, "_more_routes")))), num(S.it.force(S.get(o, "_no_improvement"))) > 1000, z3.And(num(m) != 0, it1 >= num(m)) if m is not None else False)
    def loop(it, n, env, cells=None):
        def inv(cells):
            fs = [num(it.rd(o.cell("_iteration"))) == z3.Int("iteration0") + num(it.rd(gh.cell("n")))]
            for c in cells:      # a flag of the loop says that the search is over
                if any(c is x for ob in (o, gh) for x in ob.attrs.values()): continue
                if c not in extra: extra.append(c)
                v = it.rd(c)
                if isinstance(v, bool): pol.setdefault(id(c), v)
                if id(c) in pol and (isinstance(v, bool) or isz(v) and z3.is_bool(v)): fs.append(z3.Implies(B(NOT(v) if pol[id(c)] else v), goal()))
            return AND(*fs)
        return it.induct_while(n, env, inv, "loop invariant (steps counted)")
    S.it.loopspecs[V_ + "._column_generation"] = loop
    S.call(o, "_column_generation")
    if not extra: S.ctx.taint = None      # the invariant is as strong as the step's contract: every state it allows is reached
    S.ensure("end of the search: only when no column is left, no progress is made or a limit is reached", goal())


@contract("solution reported", "C01 C09 C11 C13", V_ + "._solve " + V_ + "._post_process", "unless diving, the plan and dropped customers reported are those of the integer master problem over all columns generated")
def _(S):
    dive = S.ctx.branch(z3.Bool("dive")); pen = S.ctx.branch(z3.Bool("penalty")); fam = GStore("best", True, [I]); m = z3.Int("n_best"); S.assume(m >= 0)
    fam.declare("ga", "vehicle_type", lambda i: z3.Function("type", I, I)(i))
    best = SList([seqpart(m, lambda i: SGraph(fam, (i,)))]); old = SList(name="old"); dropped = SList(name="dropped")
    gh = S.obj(V_, generated=False, solved=None, read=None, dive_generated=False, fresh_lists=False)
    g = ext.AnyObj("network"); nn = z3.Int("n_nodes"); nodes = SList([seqpart(nn, lambda i: z3.Function("node", I, NodeS)(i))])
    locked = S.ctx.branch(z3.Bool("all_locked")); S.assume(nn == 2 if locked else nn >= 3)      # only the depot is left, or some customer
    def gen(it, so, a, kw):
        S.ensure("solution reported: columns are generated before the integer problem", it.rd(gh.cell("solved")) is None)
        if it.truth(it.rd(so.cell("_dive"))) is True:
            S.ensure("solution reported: dives only on demand", dive); it.wr(gh.cell("dive_generated"), True)
            S.ensure("solution reported: the dive starts with columns to come", it.truth(it.rd(so.cell("_more_routes"))) is True)
        else: it.wr(gh.cell("generated"), True)
        it.wr(so.cell("_more_routes"), it.ctx.fresh("more", BOOL))
    def meth(it, o, nm, a, kw):
        if o.what == "network" and nm == "nodes": return nodes
        if o.what == "network" and nm in ("number_of_nodes", "order", "__len__"): return nn
        if o.what != "master": raise Unsupported(nm)
        relax = it.force(kw.get("relax", a[0] if a else None))
        if nm == "solve": it.wr(gh.cell("solved"), relax); return (None, z3.Real("v"))
        if nm == "get_total_cost_and_routes": it.wr(gh.cell("read"), relax); return (z3.Real("value"), best)
        raise Unsupported(nm)
    S.it.summaries[V_ + "._column_generation"] = gen; S.it.anymethod = meth
    S.it.anyattr = lambda it, o, a: dropped if o.what == "master" and a == "dropped_nodes" else None
    seen = []
    def lists(it, so, a, kw): seen.append(it.force(it.rd(so.cell("_best_routes_as_graphs"))))      # own contract
    S.it.summaries[V_ + "._best_routes_as_node_lists"] = lists
    o = S.obj(V_, G=g, masterproblem=ext.AnyObj("master"), _best_routes_as_graphs=old, _dive=False, _more_routes=z3.Bool("more"), drop_penalty=z3.Real("pen") if pen else None, _dropped_nodes=SList(), periodic=None, _time_limit=None, _start_time=z3.Real("start"), comp_time=None)
    if pen: S.assume(z3.Real("pen") > 0)
    S.call(o, "_solve", dive, "cbc")
    S.ensure("solution reported: columns are generated", S.it.rd(gh.cell("generated")) is True)
    if locked and not dive: S.ensure("solution reported: nothing but preassigned routes when no customer is left", len(seen) >= 1 and (seen[-1] is old or seen[-1] is best)); return
    if not dive:
        S.ensure("solution reported: the integer problem is solved", S.it.rd(gh.cell("solved")) is False)
        S.ensure("solution reported: its integer solution is read", S.it.rd(gh.cell("read")) is False)
    else: S.ensure("solution reported: the dive ran", S.it.rd(gh.cell("dive_generated")) is True)
    S.ensure("solution reported: the routes selected are the plan", len(seen) >= 1 and seen[-1] is best)
    if pen: S.ensure("solution reported: with the customers dropped", S.it.force(S.get(o, "_dropped_nodes")) is dropped)


@contract("initialisation", "C01 C09 C11 C18", V_ + "._initialize", "the master problem starts with the columns of the initial routes, given or computed, and the limits in force")
def _(S):
    g, A = vnet(S); depot(S, g); gh = S.obj(V_, order=0)
    given = S.ctx.branch(z3.Bool("given")); init = SList([seqpart(z3.Int("n_init"), lambda i: z3.Function("route", I, I)(i))]); comp = SList(name="computed"); routes, idx = SList(name="columns"), SDict(name="index")
    S.assume(z3.Int("n_init") >= 1); made = []; chk = []; used = []
    S.it.summaries["checks.check_initial_routes"] = lambda it, so, a, kw: chk.append([it.force(x) for x in list(a) + list(kw.values())])
    S.it.summaries[V_ + "._get_initial_solution"] = lambda it, so, a, kw: it.wr(so.cell("_initial_routes"), comp)
    def conv(it, so, a, kw): used.append(it.force(it.rd(so.cell("_initial_routes")))); it.wr(so.cell("_routes"), routes); it.wr(so.cell("_routes_with_node"), idx)
    S.it.summaries[V_ + "._convert_initial_routes_to_digraphs"] = conv
    M = "master_solve_pulp._MasterSolvePulp"
    S.it.summaries[M + "._formulate"] = lambda it, so, a, kw: None
    val = dict(drop_penalty=z3.Real("pen"), num_vehicles=SList([seqpart(z3.Int("K"), lambda i: z3.Function("nv", I, I)(i))]), use_all_vehicles=z3.Bool("use_all"), periodic=z3.Int("period"), minimize_global_span=z3.Bool("span"))
    o = S.obj(V_, G=g, _initial_routes=init if given else SList(), masterproblem=None, **val)
    S.call(o, "_initialize", "cbc")
    mp = S.it.force(S.get(o, "masterproblem"))
    if not isinstance(mp, SObj): S.ensure("initialisation: a new master problem", False); return
    if given: S.ensure("initialisation: given routes are checked", any(init in c for c in chk))
    S.ensure("initialisation: columns of the initial routes", len(used) == 1 and used[0] is (init if given else comp))
    G2 = S.it.force(S.get(mp, "G")); S.ensure("initialisation: master problem on the current network", isinstance(G2, SGraph) and G2.st is g.st)
    S.ensure("initialisation: with these columns", S.it.force(S.get(mp, "routes")) is routes and S.it.force(S.get(mp, "routes_with_node")) is idx)
    for a, x in val.items():
        y = S.it.force(S.get(mp, a)); S.ensure("initialisation: %s as given" % a, y is x or (isz(x) and isz(y) and x.eq(y)) or (isnum(x) or isbool(x)) and S.it.equal(x, y))


@contract("this call", "C18", V_ + ".solve", "a solve works with the arguments of this call and the options of the object as they are now; nothing of an earlier search is left", opts=dict())
def _(S):
    given = {}; arg = {}
    for n, mk in (("initial_routes", SList), ("preassignments", SList)):
        l = mk([seqpart(z3.Int("n_" + n), lambda i: z3.Function("r_" + n, I, I)(i))]); S.assume(z3.Int("n_" + n) >= 1)
        given[n] = S.ctx.branch(z3.Bool("given_" + n)); arg[n] = l
    st = ("Exact", "BestPaths", "BestEdges1", "BestEdges2", "Hyper")[S.ctx.choose(5)]; dive = S.ctx.branch(z3.Bool("dive")); heur = S.ctx.branch(z3.Bool("heuristic_only")) and not dive
    kw = dict(time_limit=z3.Int("time_limit"), pricing_strategy=st, cspy=z3.Bool("cspy"), elementary=z3.Bool("elementary"), dive=dive, greedy=z3.Bool("greedy"), max_iter=z3.Int("max_iter"), run_exact=z3.Int("run_exact"), heuristic_only=heur, solver="cbc")
    old = dict(_more_routes=z3.Bool("more"), _iteration=z3.Int("iteration0"), _no_improvement=z3.Int("stalled0"), _lower_bound=SList([seqpart(z3.Int("nb"), lambda i: z3.Function("lb", I, R)(i))]), _dive=z3.Bool("dive0"), _initial_routes=SList([seqpart(z3.Int("ni"), lambda i: z3.Function("oi", I, I)(i))]),
               _elementary=z3.Bool("el0"), _cspy=z3.Bool("cspy0"), _greedy=z3.Bool("greedy0"), _time_limit=z3.Int("tl0"), _max_iter=z3.Int("mi0"), _run_exact=z3.Int("re0"), _pricing_strategy="Exact", _solver="cbc", _heuristic_only=z3.Bool("ho0"), _start_time=z3.Real("st0"), hyper_heuristic=None, _best_routes_as_graphs=SList([seqpart(z3.Int("nr"), lambda i: z3.Function("br", I, I)(i))]), _preassignments=SList())
    S.assume(z3.Int("nb") >= 0, z3.Int("ni") >= 0, z3.Int("nr") >= 0)
    mixed = z3.Bool("mixed"); o = S.obj(V_, mixed_fleet=mixed, **old); log = []
    def check(it, so, n):      # each where it is first used
        g = lambda a: it.force(it.rd(so.cell(a)))
        empty = lambda a: (lambda x: isinstance(x, SList) and B(it.is_empty(x)))(g(a))
        if n == "_pre_solve" and given["preassignments"]: S.ensure("this call: preassignments as given", g("_preassignments") is arg["preassignments"])
        if n == "_initialize": S.ensure("this call: initial routes as given, else none yet", g("_initial_routes") is arg["initial_routes"] if given["initial_routes"] else empty("_initial_routes"))
        opt = [("_cspy", kw["cspy"]), ("_pricing_strategy", st)] if n == "_pre_solve" else []
        if n == "_solve":
            S.ensure("this call: a new search", AND(it.truth(it.rd(so.cell("_more_routes"))), num(g("_iteration")) == 0, num(g("_no_improvement")) == 0, empty("_lower_bound"), NOT(it.truth(it.rd(so.cell("_dive"))))))
            S.ensure("this call: no routes of an earlier search", empty("_best_routes_as_graphs"))
            opt += [("_time_limit", kw["time_limit"]), ("_cspy", kw["cspy"]), ("_greedy", kw["greedy"]), ("_max_iter", kw["max_iter"]), ("_run_exact", kw["run_exact"]), ("_pricing_strategy", st), ("_elementary", True if dive else kw["elementary"])]
            if st == "Hyper": S.ensure("this call: a new adaptive strategy", isinstance(g("hyper_heuristic"), SObj))
        for a, x in opt: S.ensure("this call: %s of this call" % a.strip("_"), it.equal(it.rd(so.cell(a)), x) if not isinstance(x, bool) else it.truth(it.rd(so.cell(a))) is x)
    def step(n):
        def f(it, so, a, kw_):
            if n == "_format": S.ensure("this call: costs become lists before anything uses them", not log)
            log.append((n, [it.force(x) for x in list(a) + list(kw_.values())]))
            check(it, so, n)
        return f
    for n in ("_format", "_pre_solve", "_initialize", "_solve", "_solve_with_clarke_wright"): S.it.summaries[V_ + "." + n] = step(n)
    S.it.summaries["hyper_heuristic._HyperHeuristic.__init__"] = lambda it, so, a, kw_: None
    for n in given:
        if given[n]: kw[n] = arg[n]
    S.call(o, "solve", **kw)
    names = [n for n, _ in log if n != "_format"]
    S.ensure("this call: preprocessing, then the heuristic or the search", names == (["_pre_solve", "_solve_with_clarke_wright"] if heur else ["_pre_solve", "_initialize", "_solve"]))
    S.ensure("this call: formatted exactly without a mixed fleet", B(any(n == "_format" for n, _ in log)) == z3.Not(mixed))
    if not heur: S.ensure("this call: dives as asked", any(n == "_solve" and a and a[0] is dive for n, a in log))


@contract("next strategy", "C13 C19", V_ + "._get_next_pricing_strategy", "the strategy asked for, or exact pricing, or with the adaptive strategy one it picked")
def _(S):
    st = ("Exact", "BestPaths", "BestEdges1", "BestEdges2", "Hyper")[S.ctx.choose(5)]; gh = S.obj(V_, updated=False, inited=False)
    hy = ext.AnyObj("hyper")
    def meth(it, o, nm, a, kw):
        if nm == "init": it.wr(gh.cell("inited"), True); return None
        if nm == "pick_heuristic":
            S.ensure("next strategy: picked after the measures are updated", it.rd(gh.cell("updated")) is True); return "BestEdges2"
        raise Unsupported(nm)
    S.it.anymethod = meth; S.it.summaries[V_ + "._update_hyper_heuristic"] = lambda it, so, a, kw: it.wr(gh.cell("updated"), True)
    i0 = z3.Int("iteration"); S.assume(i0 >= 0)
    o = S.obj(V_, _pricing_strategy=st, _no_improvement=z3.Int("stalled"), _run_exact=z3.Int("run_exact"), _iteration=i0, hyper_heuristic=hy)
    r = S.it.force(S.call(o, "_get_next_pricing_strategy", z3.Real("cost")))
    if not isinstance(r, str): S.ensure("next strategy: a name", False); return
    if st != "Hyper": S.ensure("next strategy: the one asked for, or exact", r in (st, "Exact"))
    else:
        S.ensure("next strategy: a configured one", r in ("BestPaths", "BestEdges1", "BestEdges2", "Exact"))
        S.ensure("next strategy: the adaptive strategy starts with the first relaxed value", IMP(AND(i0 == 0, r != "Exact"), it_true(S.it.rd(gh.cell("inited")))))


def it_true(x): return x is True


def routes_net(S, g, P, n, at_, tag="pre"):
    """P node lists whose nodes and consecutive edges are in the network"""
    r, i, j = z3.Ints("r i j"); inr = lambda r: z3.And(r >= 0, r < P); pos = lambda r, i: z3.And(inr(r), i >= 0, i < n(r))
    S.assume(P >= 0, z3.ForAll([r], n(r) >= 2))
    S.assume(S.all([r, i], pos(r, i), g.hasN(at_(r, i))), S.all([r, i], z3.And(pos(r, i), i < n(r) - 1), g.hasE(at_(r, i), at_(r, i + 1))))
    S.assume(S.all([r, i, j], z3.And(pos(r, i), pos(r, j), i != j), at_(r, i) != at_(r, j)))
    return SList([seqpart(P, lambda r: SList([seqpart(n(r), lambda i: at_(r, i))]))])


@contract("locking", "C16", V_ + "._lock", "the customers of complete preassigned routes leave the network, all others stay with their links and costs; edges of partial ones become free", opts=dict())
def _(S):
    g, A = vnet(S); depot(S, g); K = z3.Int("K"); P = z3.Int("n_pre"); n = z3.Function("n", I, I); at_ = z3.Function("pre", I, I, NodeS)
    part = S.ctx.branch(z3.Bool("partial_allowed"))
    pre = routes_net(S, g, P, n, at_); r, i = z3.Ints("r i"); whole = lambda r: z3.And(at_(r, 0) == SRC, at_(r, n(r) - 1) == SNK)
    if not part: S.assume(S.all([r], z3.And(r >= 0, r < P), whole(r)))
    else:
        r2, j = z3.Ints("r2 j"); S.assume(S.all([r, i, r2, j], z3.And(r >= 0, r < P, i >= 0, i < n(r), r2 >= 0, r2 < P, j >= 0, j < n(r2), r != r2, at_(r, i) == at_(r2, j)), z3.Or(at_(r, i) == SRC, at_(r, i) == SNK)))      # no customer preassigned twice
    N0, E0 = g.st.N.v, g.st.E.v
    o = S.obj(V_, G=g, _preassignments=pre, _vehicle_types=K, _more_routes=True)
    S.call(o, "_lock")
    v, u = z3.Consts("v0 u0", NodeS); k = z3.Int("k0"); S.assume(k >= 0, k < K)
    gone = lambda v: z3.Exists([r, i], z3.And(r >= 0, r < P, i >= 1, i < n(r) - 1, whole(r), at_(r, i) == v))
    S.ensure("locking: exactly the customers of complete routes leave", B(g.st.N.v.has((v,))) == z3.And(B(N0.has((v,))), z3.Not(gone(v))))
    S.ensure("locking: links between remaining nodes stay", z3.Implies(z3.And(B(g.st.N.v.has((u,))), B(g.st.N.v.has((v,)))), B(g.st.E.v.has((u, v))) == B(E0.has((u, v)))))
    S.assume(B(g.st.E.v.has((u, v))))
    inpart = z3.Exists([r, i], z3.And(r >= 0, r < P, i >= 0, i < n(r) - 1, z3.Not(whole(r)), at_(r, i) == u, at_(r, i + 1) == v))
    c = cost_at(S, g, u, v, k)
    S.ensure("locking: other costs unchanged", IMP(z3.Not(inpart) if part else True, c == A["cost"](u, v, k)))


@contract("default attributes", "C09 C10 C16", V_ + "._update_dummy_attributes", "the network gets missing attributes and an empty route; a copy of it is kept for the reports, untouched by what follows")
def _(S):
    g, A = vnet(S); depot(S, g); K = z3.Int("K"); N0, E0 = g.st.N.v, g.st.E.v
    o = S.obj(V_, G=g, _vehicle_types=K, _H=None)
    for m in ("_set_zero_attributes", "_set_time_to_zero_if_missing", "_readjust_sink_time_windows"): S.it.summaries[V_ + "." + m] = lambda it, so, a, kw: None      # own contracts
    S.call(o, "_update_dummy_attributes")
    h = S.it.force(S.get(o, "_H"))
    if not isinstance(h, SGraph): raise Unsupported("copy")
    u, v, w, x = z3.Consts("u0 v0 w0 x0", NodeS); k = z3.Int("k0"); S.assume(k >= 0, k < K)
    S.ensure("defaults: only the empty route is added", AND(B(g.st.N.v.has((v,))) == B(N0.has((v,))), B(g.st.E.v.has((u, v))) == z3.Or(B(E0.has((u, v))), z3.And(u == SRC, v == SNK))))
    S.ensure("defaults: the empty route is free unless given", IMP(z3.Not(B(E0.has((SRC, SNK)))), cost_at(S, g, SRC, SNK, k, z3.Not(B(E0.has((SRC, SNK))))) == 0))
    # later changes of the network
    S.assume(B(g.hasE(w, x))); S.it.setitem(S.it.getitem(S.it.getitem(EdgesView(g), (w, x)), "cost"), z3.IntVal(0), z3.RealVal(0)); S.it.putmap(g.st.N, (w,), True, False); S.it.putmap(g.st.attr("na", "demand"), (x,), z3.RealVal(7))
    S.assume(B(E0.has((u, v))), B(N0.has((u,))))
    S.ensure("defaults: the copy keeps every node and edge", AND(h.hasN(u), h.hasE(u, v)))
    S.ensure("defaults: the copy keeps the costs", cost_at(S, h, u, v, k) == A["cost"](u, v, k))
    for a in NA: S.ensure("defaults: the copy keeps %s" % a, at(S, h, "na", a, (u,)) == A[a](u))
    S.ensure("defaults: the copy keeps the times", at(S, h, "ea", "time", (u, v)) == A["time"](u, v))


def items(S, lst):
    """the members of a list of node lists -> [(binders, guard, [nodes])]"""
    out = []
    for p in S.it.parts(S.it.force(lst)):
        p = p.fresh(); x = S.ctx.under(p.bs, p.guard, lambda: S.it.force(p.elem))
        if isinstance(x, SList):
            q = x.seq()
            if q is None: raise Unsupported("route")
            if isinstance(q[0], int): out.append((p.bs, p.guard, [S.it.force(q[1](i)) for i in range(q[0])])); continue
        out.append((p.bs, p.guard, x))
    return out


@contract("initial routes", "C01 C07 C17", V_ + "._get_initial_solution clarke_wright._RoundTrip.run", "every customer is on some initial route: a trip of its own, its request's trip (pickup and delivery), or one of Clarke and Wright's; nothing else is on them")
def _(S):
    g, A = vnet(S); depot(S, g); u, v = z3.Consts("u v", NodeS); log = []
    req = z3.Function("request", NodeS, NodeS); hreq = z3.Function("has_request", NodeS, BOOL)
    g.st.declare("na", "request", lambda v: req(v), lambda v: hreq(v))
    opt = {a: z3.Bool(a) for a in ("time_windows", "pickup_delivery", "distribution_collection", "mixed_fleet")}; per = z3.Int("period"); S.assume(per >= 0)
    pd = S.ctx.branch(opt["pickup_delivery"])
    S.assume(S.all([v], hreq(v), z3.And(B(g.hasN(v)), B(g.hasN(req(v))), B(g.hasE(v, req(v))), v != SRC, v != SNK, req(v) != SRC, req(v) != SNK)))
    if pd: S.assume(S.all([v], z3.And(B(g.hasN(v)), v != SRC, v != SNK, z3.Not(hreq(v))), z3.Exists([u], z3.And(hreq(u), req(u) == v))))      # every customer is a pickup or a delivery
    def partition(tag):
        n = S.ctx.fresh("n_" + tag, I); S.assume(n >= 0); return SList([seqpart(n, lambda i: z3.Function("route_" + tag, I, I)(i))])
    heur = dict(_ClarkeWright="clarke_wright", _Greedy="greedy")
    for c, m in heur.items():
        def make(it, so, a, kw, c=c):
            for n, x in (("G", 0), ("load_capacity", 1), ("duration", 2), ("num_stops", 3)): pass
            d = {n: it.force(x) for n, x in bound(S, heur[c] + "." + c + ".__init__", a, kw).items()}
            log.append((c, d)); so.cell("_routes_").v = partition(c); it.wr(so.cell("_best_value"), 5)      # only logged
        S.it.summaries[m + "." + c + ".__init__"] = make
        S.it.summaries[m + "." + c + ".run"] = lambda it, so, a, kw, c=c: it.wr(so.cell("_best_routes"), so.cell("_routes_").v)      # own contract
    S.it.summaries["checks.check_pickup_delivery_time_windows"] = lambda it, so, a, kw: log.append(("check", [it.force(x) for x in list(a) + list(kw.values())]))
    cap, dur, stops = SList([seqpart(1, lambda i: z3.Function("Q", I, R)(i))]), z3.Real("duration"), z3.Int("num_stops")
    o = S.obj(V_, G=g, _initial_routes=SList(), load_capacity=cap, duration=dur, num_stops=stops, periodic=per, **opt)
    S.call(o, "_get_initial_solution"); got = items(S, S.get(o, "_initial_routes"))
    plain = z3.And(*[z3.Not(x) for x in opt.values()], per == 0)
    c0 = z3.Const("c0", NodeS); S.assume(B(g.hasN(c0)), c0 != SRC, c0 != SNK)
    if S.ctx.branch(plain):
        S.ensure("initial routes: Clarke and Wright's are among them", any(c == "_ClarkeWright" for c, _ in log) and len(got) >= 1)
        for c, d in log:
            if c not in heur: continue
            G2 = d.get("G"); S.ensure("initial routes: heuristics run on the current network", isinstance(G2, SGraph) and G2.st is g.st)
            S.ensure("initial routes: heuristics run under the limits in force", d.get("load_capacity") is cap and isz(d.get("duration")) and d["duration"].eq(dur) and isz(d.get("num_stops")) and d["num_stops"].eq(stops))
        return
    on = []
    for bs, gd, x in got:
        if not isinstance(x, list): raise Unsupported("initial routes")
        on.append(exists(bs, B(AND(gd, OR(*[eq(y, c0) for y in x[1:-1]])))))
        ok = [eq(x[0], SRC), eq(x[-1], SNK), len(x) >= 3] + [g.hasE(a, b) for a, b in zip(x, x[1:])]
        S.ensure("initial routes: from the Source to the Sink over edges of the network", forall(bs, B(IMP(gd, AND(*ok)))))
        if pd: S.ensure("initial routes: a pickup is followed by its delivery", forall(bs, B(IMP(gd, AND(len(x) == 4, hreq(x[1]), eq(x[2], req(x[1])) if len(x) > 2 else False)))))
    S.ensure("initial routes: every customer is on one", B(OR(*on)))


@contract("heuristic solution", "C17", V_ + "._solve_with_clarke_wright", "the heuristic runs on the current network under the limits in force; its routes are the plan")
def _(S):
    g, A = vnet(S); depot(S, g); log = []; m = z3.Int("n_best"); S.assume(m >= 0); rt = z3.Function("cw_route", I, I)
    best = SList([seqpart(m, lambda i: rt(i))])
    S.it.summaries["clarke_wright._ClarkeWright.__init__"] = lambda it, so, a, kw: log.append(bound(S, "clarke_wright._ClarkeWright.__init__", a, kw))
    S.it.summaries["clarke_wright._ClarkeWright.run"] = lambda it, so, a, kw: it.wr(so.cell("_best_routes"), best)
    chk = []
    S.it.summaries["checks.check_clarke_wright_compatibility"] = lambda it, so, a, kw: chk.append([it.force(x) for x in list(a) + list(kw.values())])
    cap, dur, stops = z3.Real("Q"), z3.Real("duration"), z3.Int("num_stops")
    o = S.obj(V_, G=g, load_capacity=cap, duration=dur, num_stops=stops, time_windows=z3.Bool("tw"), pickup_delivery=z3.Bool("pd"), distribution_collection=z3.Bool("dc"), mixed_fleet=z3.Bool("mixed"), periodic=z3.Int("period"), _best_routes=None, _best_routes_vehicle_type=None)
    S.call(o, "_solve_with_clarke_wright")
    S.ensure("heuristic: options are checked", len(chk) >= 1 and all(any(isz(x) and x.eq(y) for x in chk[0]) for y in (z3.Bool("tw"), z3.Bool("pd"), z3.Bool("dc"), z3.Bool("mixed"), z3.Int("period"))))
    if not log: raise Unsupported("heuristic")
    d = log[-1]; G2 = d.get("G")
    S.ensure("heuristic: on the current network", isinstance(G2, SGraph) and G2.st is g.st)
    S.ensure("heuristic: under the limits in force", all(isz(d.get(a)) and d[a].eq(x) for a, x in (("load_capacity", cap), ("duration", dur), ("num_stops", stops))))
    br, ty = S.it.force(S.get(o, "_best_routes")), S.it.force(S.get(o, "_best_routes_vehicle_type"))
    i = z3.Int("i0"); S.assume(i >= 0, i < m)
    k = [k for k in (i, i + 1) if S.prove(B(br.c.v.has((k,)))) and S.prove(num(S.it.force(br.c.v.get((k,), S.ctx))) == rt(i))]
    S.ensure("heuristic: every route is in the plan", len(k) >= 1)
    if k: S.ensure("heuristic: has a vehicle type", AND(ty.c.v.has((k[0],)), num(S.it.force(ty.c.v.get((k[0],), S.ctx))) == 0))


@contract("constructor", "C14 C18", V_ + ".__init__", "the network is checked as given, and every option of the constructor is the option of the object; nothing is locked, dropped or found yet")
def _(S):
    chk = []; g, A = vnet(S, costs=False)
    S.it.summaries["checks.check_vrp"] = lambda it, so, a, kw: chk.append([it.force(x) for x in list(a) + list(kw.values())])
    lst = lambda n: SList([seqpart(z3.Int("n_" + n), lambda i: z3.Function("x_" + n, I, I)(i))])
    val = dict(num_stops=z3.Int("num_stops"), load_capacity=lst("cap"), duration=z3.Int("duration"), time_windows=z3.Bool("tw"), pickup_delivery=z3.Bool("pd"), distribution_collection=z3.Bool("dc"), drop_penalty=z3.Real("pen"),
               fixed_cost=lst("fc"), num_vehicles=lst("nv"), use_all_vehicles=z3.Bool("all"), periodic=z3.Int("period"), mixed_fleet=z3.Bool("mixed"), minimize_global_span=z3.Bool("span"))
    given = {n: True for n in val}; d = ("none", "all") [S.ctx.choose(2)]
    o = S.it.construct(S.cls(V_), [g], dict(val) if d == "all" else {})
    S.ensure("constructor: the network given is checked", len(chk) >= 1 and isinstance(chk[0][0], SGraph) and chk[0][0].st is g.st)
    G2 = S.it.force(S.get(o, "G")); S.ensure("constructor: works on the network given", isinstance(G2, SGraph) and G2.st is g.st)
    for a, x in val.items():
        y = S.it.force(S.get(o, a))
        if d == "all": S.ensure("constructor: %s as given" % a, y is x or (isz(x) and isz(y) and S.it.equal(x, y)))
        else: S.ensure("constructor: no %s unless given" % a, NOT(S.it.truth(y)) if not isinstance(y, SList) else B(S.it.is_empty(y)))
    t = S.ctx.taint; S.ctx.taint = t or "private attributes"
    for a in ("_preassignments", "_initial_routes", "_dropped_nodes"):
        y = S.it.force(S.get(o, a)); S.ensure("constructor: %s empty" % a.strip("_"), isinstance(y, SList) and B(S.it.is_empty(y)))
    S.ctx.taint = t


@contract("adaptive wiring", "C19", V_ + "._update_hyper_heuristic", "before a strategy is picked the measures are updated once with the new relaxed value, whether a column was found and the columns in use; then the scores")
def _(S):
    log = []; freq = SDict(); best = SList(); hy, mp = ext.AnyObj("hyper"), ext.AnyObj("master"); c, more, n, st = z3.Real("cost"), z3.Bool("more"), z3.Int("iteration"), z3.Int("stalled")
    def meth(it, o, nm, a, kw):
        log.append((o.what, nm, [it.force(x) for x in a], {k: it.force(x) for k, x in kw.items()}))
        if nm == "get_heuristic_distribution": return (best, freq)
        return z3.Bool("accepted") if nm == "move_acceptance" else None
    S.it.anymethod = meth
    o = S.obj(V_, hyper_heuristic=hy, masterproblem=mp, _more_routes=more, _iteration=n, _no_improvement=st)
    S.call(o, "_update_hyper_heuristic", c)
    h = [(nm, a, kw) for w, nm, a, kw in log if w == "hyper"]; cp = [x for x in h if x[0] == "current_performance"]; up = [x for x in h if x[0] == "update_parameters"]
    S.ctx.taint = S.ctx.taint or "wiring alone"      # feeds the measures; no violation of C19 by itself
    if len(cp) != 1 or len(up) != 1: S.ensure("adaptive wiring: measures and scores are updated once each", False); return
    S.ensure("adaptive wiring: measures before scores", [x[0] for x in h].index("current_performance") < [x[0] for x in h].index("update_parameters"))
    arg = lambda x, i, k: x[2].get(k, x[1][i] if len(x[1]) > i else None)
    y = arg(cp[0], 0, "new_objective_value"); S.ensure("adaptive wiring: the new relaxed value", isz(y) and real(y) == c)
    y = arg(cp[0], 1, "produced_column"); S.ensure("adaptive wiring: whether the last step found a column", isz(y) and B(S.it.truth(y)) == more)
    S.ensure("adaptive wiring: the columns in use", arg(cp[0], 2, "active_columns") is freq)
    y = arg(up[0], 0, "iteration"); S.ensure("adaptive wiring: the number of the step", isz(y) and num(y) == n)
