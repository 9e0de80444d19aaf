"""The constructive heuristics (C03-C05, C17): Clarke and Wright, greedy, greedy
pricing.  Each is a loop of steps; the contract of a step is stated for every
state it can be in (the invariant) and every edge or node."""
import ast
from . import *
from .prep import vnet, depot, at
from pyvc import ext

W_ = "clarke_wright._ClarkeWright"


def cw_inv(g, cust, rid, pos, N, E, proc):
    """the state of the savings heuristic: each customer lies on its route, whose nodes are the depot and the customers it is the route of; along
    the edges of a route (all of the network) the ghost order grows; each node but the last has exactly one successor, each but the first one predecessor"""
    u, v, w, x = z3.Consts("u v w x", NodeS); al = lambda bs, p, q: z3.ForAll(bs, z3.Implies(p, q))
    yield "every customer lies on its route", al([v], cust(v), z3.And(N(rid(v), v), N(rid(v), SRC), N(rid(v), SNK)))
    yield "a route consists of the depot and the customers it is the route of", al([v, w], z3.And(cust(v), N(rid(v), w)), z3.Or(w == SRC, w == SNK, z3.And(cust(w), rid(w) == rid(v))))
    yield "edges of a route lie in the network between its nodes", al([v, w, u], z3.And(cust(v), E(rid(v), w, u)), z3.And(N(rid(v), w), N(rid(v), u), w != SNK, u != SRC, B(g.hasE(w, u))))
    yield "one successor at most", al([v, w, u, x], z3.And(cust(v), E(rid(v), w, u), E(rid(v), w, x)), u == x)
    yield "one predecessor at most", al([v, w, u, x], z3.And(cust(v), E(rid(v), u, w), E(rid(v), x, w)), u == x)
    yield "customers have a successor and a predecessor", al([v], cust(v), z3.And(z3.Exists([u], E(rid(v), v, u)), z3.Exists([u], E(rid(v), u, v))))
    yield "a route is no cycle", al([v, w, u], z3.And(cust(v), cust(w), cust(u), E(rid(v), w, u)), pos(w) < pos(u))
    yield "a customer not processed is alone on its route", z3.And(al([v], proc(v), cust(v)), al([v, w], z3.And(cust(v), cust(w), z3.Not(proc(v)), v != w), rid(v) != rid(w)))


def cw_state(S, full=False):
    """any state reached: the route of every customer, whose nodes are the depot and the customers it is the route of"""
    g, A = vnet(S, costs=False); depot(S, g); c = A["cost"] = z3.Function("cost", NodeS, NodeS, R); g.st.declare("ea", "cost", lambda u, v: c(u, v))
    fam = GStore("rt", True, [I]); rid = z3.Function("rid", NodeS, I); u, v, w = z3.Consts("u v w", NodeS); r = z3.Int("r")
    cust = lambda v: z3.And(B(g.hasN(v)), v != SRC, v != SNK)
    for a in ("cost", "load", "time"):
        f = A["r" + a] = z3.Function("route_" + a, I, R); fam.declare("ga", a, (lambda f: lambda r: f(r))(f))
    pos = A["pos"] = z3.Function("pos", NodeS, R)      # ghost: the order on each route
    for nm, f in cw_inv(g, cust, rid, pos, lambda r, v: fam.fN(r, v), lambda r, a, b: fam.fE(r, a, b), z3.Function("processed", NodeS, BOOL)):
        if full or nm[:5] in ("every", "a rou", "a cus", "edges") and "cycle" not in nm: S.assume(f)      # the rest is only needed by the lemma
        else: S.ctx.late.append(f)
    route = SDict(FMap(FnBase(lambda v: cust(v), lambda v: SGraph(fam, (rid(v),)))), [NodeS])
    proc = z3.Function("processed", NodeS, BOOL)      # a customer not processed is alone on its route
    b = fresh_const(NodeS, "b"); plist = SList([Part([b], proc(b), b, None, True)])
    Q, D, n = z3.Real("Q"), z3.Real("D"), z3.Int("S"); lim = dict(load_capacity=SUnion(z3.Bool("no_cap"), None, Q), duration=SUnion(z3.Bool("no_duration"), None, D), num_stops=SUnion(z3.Bool("no_stops"), None, n))
    S.assume(Q > 0, D > 0, n > 0)
    o = S.obj(W_, G=g, _route=route, _processed_nodes=plist, **lim)
    return o, g, A, fam, rid, proc, cust, (Q, D, n)


@contract("Clarke and Wright: merge", "C03 C04 C05 C17", W_ + "._process_edge " + W_ + "._constraints_met " + W_ + "._merge_route " + W_ + "._extra_time",
          "a step joins at most one customer, alone on its route so far, to one end of a route within the limits; everything else stays", cost=3)
def _(S):
    o, g, A, fam, rid, proc, cust, (Q, D, n) = cw_state(S)
    i, j = z3.Consts("i j", NodeS); S.assume(B(g.hasE(i, j)), cust(i), cust(j), i != j)
    N0, E0 = fam.N.v, fam.E.v
    S.call(o, "_process_edge", i, j)
    route = S.it.force(S.get(o, "_route")); x, y, a = z3.Consts("x0 y0 a0", NodeS)
    S.assume(cust(x)); S.ensure("merge: every customer still has a route", route.c.v.has((x,)))
    rx = S.it.force(route.c.v.get((x,), S.ctx))
    if not isinstance(rx, SGraph) or rx.st is not fam: raise Unsupported("route")
    ri = rx.ids[0]
    moved = [u for u in route.c.v.ups]
    if not moved:
        S.ensure("merge: nothing changes without a merge", AND(fam.N.v is N0, fam.E.v is E0, ri == rid(x)))
        pl = S.it.force(S.get(o, "_processed_nodes")); S.ensure("merge: nobody is processed without a merge", z3.Implies(cust(y), B(S.it.contains(y, pl)) == proc(y))); return
    if len(moved) != 1 or moved[0].bs: raise Unsupported("merge")
    new = moved[0].key[0]; R0 = S.it.force(moved[0].val).ids[0]
    S.ensure("merge: only a customer of the edge moves, and only if alone on its route", z3.And(z3.Or(new == i, new == j), S.all([y], z3.And(cust(y), y != new), rid(y) != rid(new))))
    S.ensure("merge: the others keep their route", IMP(x != new, ri == rid(x)))
    other = z3.If(new == i, j, i)
    S.ensure("merge: it joins the route of the other customer, which is not its own", z3.And(R0 == rid(other), z3.Not(B(N0.has((R0, new))))))
    N1, E1 = fam.N.v, fam.E.v
    S.ensure("merge: the route gains exactly this customer", B(N1.has((R0, y))) == z3.Or(B(N0.has((R0, y))), y == new))
    end = B(E0.has((R0, other, SNK))); front = B(E0.has((R0, SRC, other)))
    atend = z3.And(end, B(g.hasE(other, new)), B(E1.has((R0, a, y))) == z3.Or(z3.And(B(E0.has((R0, a, y))), z3.Not(z3.And(a == other, y == SNK))), z3.And(a == other, y == new), z3.And(a == new, y == SNK)))
    atfront = z3.And(front, B(g.hasE(new, other)), B(E1.has((R0, a, y))) == z3.Or(z3.And(B(E0.has((R0, a, y))), z3.Not(z3.And(a == SRC, y == other))), z3.And(a == SRC, y == new), z3.And(a == new, y == other)))
    S.ensure("merge: at one end of the route, over edges of the network", z3.Or(atend, atfront))
    q = z3.Int("q0"); S.ensure("merge: other routes unchanged", z3.Implies(q != R0, z3.And(B(N1.has((q, y))) == B(N0.has((q, y))), B(E1.has((q, a, y))) == B(E0.has((q, a, y))))))
    ga = lambda k: real(S.it.force(fam.attr("ga", k).v.get((R0,), S.ctx)))
    dt, dc = lambda e: A["time"](*e), lambda e: A["cost"](*e)
    isend = S.ctx.branch(B(E1.has((R0, new, SNK))))
    det = lambda f: f(other, new) + f(new, SNK) - f(other, SNK) if isend else f(SRC, new) + f(new, other) - f(SRC, other)
    lim = lambda n_: z3.Not(z3.Bool("no_" + n_))
    S.ensure("merge: load so far is kept and within the capacity", IMP(lim("cap"), AND(ga("load") == A["rload"](R0) + A["demand"](new), ga("load") <= Q)))
    S.ensure("merge: duration so far is kept and within the limit", IMP(lim("duration"), AND(ga("time") == A["rtime"](R0) + det(A["time"]) + A["service_time"](new), ga("time") <= D)))
    S.ensure("merge: cost so far is kept", ga("cost") == A["rcost"](R0) + det(A["cost"]))
    w = fresh_const(NodeS, "w"); cnt0 = real(S.ctx.sum([w], B(N0.has((R0, w))), z3.IntVal(1)))
    S.ensure("merge: the route had room for one more stop", IMP(lim("stops"), cnt0 - 2 + 1 <= n))
    pl = S.it.force(S.get(o, "_processed_nodes")); pr = lambda y: B(S.it.contains(y, pl))
    S.ensure("merge: both customers count as processed", z3.Implies(cust(y), pr(y) == z3.Or(proc(y), y == i, y == j)))


@contract("Clarke and Wright: lemma", "C03 C04 C05 C17", W_ + "._process_edge", "by what a merge may do (previous contract), routes stay disjoint Source-Sink paths over the network, each customer on exactly one")
def _(S):
    o, g, A, fam, rid, proc, cust, _ = cw_state(S, True)
    new, other = z3.Consts("new other", NodeS); y, a = z3.Consts("y a", NodeS); q = z3.Int("q"); R0 = rid(other); pos = A["pos"]
    N0, E0 = (lambda r, v: fam.fN(r, v)), (lambda r, a, b: fam.fE(r, a, b)); isend = S.ctx.branch(z3.Bool("at_end"))
    S.assume(cust(new), cust(other), new != other, z3.Not(N0(R0, new)), S.all([y], z3.And(cust(y), y != new), rid(y) != rid(new)))
    if isend:
        S.assume(E0(R0, other, SNK), g.hasE(other, new), g.hasE(new, SNK))
        cut, ins = (lambda a, y: z3.And(a == other, y == SNK)), (lambda a, y: z3.Or(z3.And(a == other, y == new), z3.And(a == new, y == SNK)))
    else:
        S.assume(E0(R0, SRC, other), g.hasE(new, other), g.hasE(SRC, new))
        cut, ins = (lambda a, y: z3.And(a == SRC, y == other)), (lambda a, y: z3.Or(z3.And(a == SRC, y == new), z3.And(a == new, y == other)))
    N1 = lambda r, v: z3.If(r == R0, z3.Or(N0(r, v), v == new), N0(r, v)); E1 = lambda r, a, b: z3.If(r == R0, z3.Or(z3.And(E0(r, a, b), z3.Not(cut(a, b))), ins(a, b)), E0(r, a, b))
    i, j = (other, new) if isend else (new, other)
    rid1 = lambda x: z3.If(x == new, R0, rid(x)); pos1 = lambda x: z3.If(x == new, pos(other) + (1 if isend else -1), pos(x)); pr = lambda v: z3.Or(proc(v), v == i, v == j)
    for nm, f in cw_inv(g, cust, rid1, pos1, N1, E1, pr): S.ensure("lemma: still " + nm, f)


@contract("Clarke and Wright: start", "C03 C05 C17", W_ + "._initialize_routes", "every customer starts on a round trip of its own with its demand, time and cost")
def _(S):
    g, A = vnet(S, costs=False); depot(S, g); c = A["cost"] = z3.Function("cost", NodeS, NodeS, R); g.st.declare("ea", "cost", lambda u, v: c(u, v))
    cap, dur = z3.Bool("cap"), z3.Bool("dur"); S.assume(z3.Real("Q") > 0, z3.Real("D") > 0)
    o = S.obj(W_, G=g, _route=SDict(), load_capacity=SUnion(cap, z3.Real("Q"), None), duration=SUnion(dur, z3.Real("D"), None))
    S.call(o, "_initialize_routes"); rt = S.it.force(S.get(o, "_route")); v, u, w = z3.Consts("v0 u0 w0", NodeS)
    isc = lambda v: z3.And(B(g.hasN(v)), v != SRC, v != SNK)
    S.ensure("start: exactly the customers have a route", B(rt.c.v.has((v,))) == isc(v)); S.assume(isc(v))
    r = S.it.force(rt.c.v.get((v,), S.ctx))
    if not isinstance(r, SGraph): raise Unsupported("route")
    S.ensure("start: a round trip", B(r.hasE(u, w)) == z3.Or(z3.And(u == SRC, w == v), z3.And(u == v, w == SNK)))
    S.ensure("start: of nodes Source, customer, Sink", B(r.hasN(u)) == z3.Or(u == SRC, u == v, u == SNK))
    ga = lambda a: real(S.it.force(S.it.getitem(AttrView(r, "ga", ()), a)))
    S.ensure("start: cost of the trip", ga("cost") == c(SRC, v) + c(v, SNK))
    if S.ctx.branch(cap): S.ensure("start: load of the trip", ga("load") == A["demand"](v))
    if S.ctx.branch(dur): S.ensure("start: duration of the trip", ga("time") == A["time"](SRC, v) + A["time"](v, SNK) + A["service_time"](v))


@contract("Clarke and Wright: plan", "C01 C17", W_ + "._update_routes", "every customer is on exactly one reported route, the path of its route; the value is the total cost")
def _(S):
    o, g, A, fam, rid, proc, cust, _ = cw_state(S)
    pl = z3.Function("path_len", I, I); pt = z3.Function("path", I, I, NodeS)
    S.it.path_hook = lambda it, g_, a, b: SList([seqpart(pl(g_.ids[0]), lambda i: pt(g_.ids[0], i))]) if g_.st is fam else None
    o.cell("_best_routes").v = SList()
    S.call(o, "_update_routes")
    got = S.it.parts(S.it.force(S.get(o, "_best_routes"))); v = z3.Const("v0", NodeS); S.assume(cust(v)); i = z3.Int("i0")
    hits = []; only = []
    for p in got:
        p = p.fresh(); x = S.ctx.under(p.bs, p.guard, lambda: S.it.force(p.elem)); q = x.seq()
        if q is None: raise Unsupported("route")
        n = num(q[0])
        hits.append(exists(p.bs, B(AND(p.guard, n == pl(rid(v)), forall([i], B(IMP(AND(i >= 0, i < pl(rid(v))), eq(S.ctx.under(p.bs + (i,), p.guard, lambda: S.it.force(q[1](i))), pt(rid(v), i)))))))))
    S.ensure("plan: the route of every customer is reported", B(OR(*hits)))


@contract("Clarke and Wright: run", "C17", W_ + ".run " + W_ + "._get_savings " + W_ + ".__init__ " + W_ + "._format_cost", "starts from round trips, merges along edges between customers only, reports in the end; works on a copy of the network with the costs of the first type")
def _(S):
    g, A = vnet(S); depot(S, g); K = z3.Int("K"); log = []; Q, D, n = z3.Real("Q"), z3.Real("D"), z3.Int("S"); lst = S.ctx.branch(z3.Bool("cap_list")); S.assume(g.hasE(SRC, SNK))
    N0, E0 = g.st.N.v, g.st.E.v; c0 = g.st.attr("ea", "cost").v
    o = S.it.force(S.it.call(S.cls(W_), [g, SList([seqpart(K, lambda k: z3.Function("Qs", I, R)(k))]) if lst else Q, D, n], {}))
    h = S.it.force(S.get(o, "G")); u, v = z3.Consts("u0 v0", NodeS)
    S.ensure("run: capacity as given (of the first type)", real(S.it.force(S.get(o, "load_capacity"))) == (z3.Function("Qs", I, R)(0) if lst else Q))
    S.ensure("run: limits as given", AND(real(S.it.force(S.get(o, "duration"))) == D, num(S.it.force(S.get(o, "num_stops"))) == n))
    S.ensure("run: the network is left alone", AND(g.st.N.v is N0, g.st.E.v is E0, g.st.attr("ea", "cost").v is c0))
    e = B(E0.has((u, v)))
    S.ensure("run: on the same network", AND(B(h.hasN(u)) == B(N0.has((u,))), B(h.hasE(u, v)) == e))
    cu = lambda: S.it.force(S.it.getitem(S.it.getitem(EdgesView(h), (u, v)), "cost"))
    S.ensure("run: with the costs of the first type", IMP(e, real(S.ctx.under([], e, cu)) == A["cost"](u, v, 0)))
    S.it.summaries[W_ + "._initialize_routes"] = lambda it, so, a, kw: log.append("start")
    S.it.summaries[W_ + "._update_routes"] = lambda it, so, a, kw: log.append("plan")
    def merge(it, so, a, kw):
        i, j = [it.force(x) for x in a]; log.append("merge")
        S.ensure("run: merges only along edges between customers", AND(h.hasE(i, j), *[z3.And(B(h.hasN(x)), x != SRC, x != SNK) for x in (i, j)]))
    S.it.summaries[W_ + "._process_edge"] = merge
    S.call(o, "run")
    l = [x for x, y in zip(log, [None] + log) if x != y]
    S.ensure("run: starts, merges and reports in this order", l in (["start", "merge", "plan"], ["start", "plan"]))


Y_ = "greedy._Greedy"


@contract("greedy: step", "C03 C04 C05 C17", Y_ + "._get_next_node " + Y_ + "._constraints_met " + Y_ + "._check_capacity " + Y_ + "._check_duration " + Y_ + "._update",
          "a path within the limits that can still return in time is extended over an edge by a customer not served yet, and stays so; or it returns to the Sink")
def _(S):
    g, A = vnet(S, costs=False); depot(S, g); c = A["cost"] = z3.Function("cost", NodeS, NodeS, R); g.st.declare("ea", "cost", lambda u, v: c(u, v)); S.assume(g.hasE(SRC, SNK))
    m = z3.Int("m"); pa = z3.Function("path", I, NodeS); i, j = z3.Ints("i j"); v = z3.Const("v", NodeS); un = z3.Function("unserved", NodeS, BOOL)
    cust = lambda v: z3.And(B(g.hasN(v)), v != SRC, v != SNK)
    S.assume(m >= 1, pa(0) == SRC, S.all([i], z3.And(i >= 1, i < m), z3.And(cust(pa(i)), z3.Not(un(pa(i))))), S.all([v], un(v), cust(v)))
    Q, D, n = z3.Real("Q"), z3.Real("D"), z3.Int("S"); S.assume(Q > 0, D > 0, n > 0)
    nocap, nodur, nost = z3.Bool("no_cap"), z3.Bool("no_duration"), z3.Bool("no_stops")
    load, time, stops, val = z3.Real("load"), z3.Real("time_"), z3.Int("stops"), z3.Real("value"); last = pa(m - 1)
    S.assume(stops == m - 1, z3.Or(nost, stops < n), z3.Or(nocap, load <= Q), z3.Or(nodur, m == 1, time + A["time"](last, SNK) <= D), A["service_time"](SNK) == 0, A["demand"](SNK) == 0)
    b = fresh_const(NodeS, "b")
    o = S.obj(Y_, G=g, _current_path=SList([seqpart(m, lambda i: pa(i))]), _unprocessed_nodes=SList([Part([b], un(b), b, None, True)]), _load=load, _time=time, _stops=stops, _best_value=val,
              load_capacity=SUnion(nocap, None, Q), duration=SUnion(nodur, None, D), num_stops=SUnion(nost, None, n), _best_routes=SList())
    S.call(o, "_get_next_node"); S.call(o, "_update")
    p = S.it.force(S.get(o, "_current_path"))
    if not isinstance(p, SList): S.ensure("greedy: still a path", False); return
    q = p.seq()
    if q is None: raise Unsupported("path")
    ln = num(q[0]); el = lambda x: S.it.force(q[1](x)); k = z3.Int("k0"); S.assume(k >= 0, k < m)
    S.ensure("greedy: the path so far is kept", z3.And(ln > m, el(k) == pa(k)))
    new = el(m); nn = scal(S.it.force(S.get(o, "_new_node")))
    S.ensure("greedy: extended over an edge", B(g.hasE(last, new)))
    S.ensure("greedy: by a customer not served yet, or back to the Sink", z3.Or(new == SNK, z3.And(un(new), cust(new))))
    S.ensure("greedy: closed exactly when the search of this route ends", z3.And(z3.Or(ln == m + 1, ln == m + 2), (nn == SNK) == (el(ln - 1) == SNK), z3.Implies(ln == m + 2, z3.And(new != SNK, el(ln - 1) == SNK, B(g.hasE(new, SNK))))))
    l1, t1, s1 = (real(S.it.force(S.get(o, a))) for a in ("_load", "_time", "_stops"))
    S.ensure("greedy: load so far is kept and within the capacity", z3.And(l1 == load + A["demand"](new), z3.Or(nocap, new == SNK, l1 <= Q)))
    S.ensure("greedy: duration so far is kept and the return is within the limit", z3.And(t1 == time + A["time"](last, new) + A["service_time"](new), z3.Or(nodur, new == SNK, t1 + A["time"](new, SNK) <= D)))
    S.ensure("greedy: stops within the limit", z3.Or(nost, new == SNK, s1 < z3.ToReal(n), z3.And(s1 == z3.ToReal(n), el(ln - 1) == SNK)))
    S.ensure("greedy: stops counted", z3.Implies(new != SNK, s1 == z3.ToReal(m)))
    S.ensure("greedy: cost so far is kept", real(S.it.force(S.get(o, "_best_value"))) == val + c(last, new) + z3.If(ln == m + 2, c(new, SNK), 0))
    up = S.it.force(S.get(o, "_unprocessed_nodes")); x = z3.Const("x0", NodeS)
    S.ensure("greedy: exactly the new customer counts as served", B(S.it.contains(x, up)) == z3.And(un(x), x != new))


@contract("greedy: plan", "C17", Y_ + "._update_routes", "a finished path is reported as it is")
def _(S):
    m = z3.Int("m"); pa = z3.Function("path", I, NodeS); S.assume(m >= 2); nb = z3.Int("n_best"); S.assume(nb >= 0); p = SList([seqpart(m, lambda i: pa(i))])
    o = S.obj(Y_, _current_path=p, _best_routes=SList([seqpart(nb, lambda i: z3.Function("old", I, I)(i))]))
    S.call(o, "_update_routes"); q = S.it.force(S.get(o, "_best_routes")).seq(); i = z3.Int("i0")
    S.ensure("greedy plan: one more route", num(q[0]) == nb + 1)
    x = S.it.force(q[1](nb)); x = x if isinstance(x, SList) else None
    S.ensure("greedy plan: the path just built", x is not None and AND(num(x.seq()[0]) == m, IMP(AND(i >= 0, i < m), S.it.force(x.seq()[1](i)) == pa(i))))


def chain(S, l, f, one=None):
    """sum of f(a, b) over consecutive elements a, b of a list (plus one(a) of every element), by its parts -> (sum, first, last, length)"""
    l = S.it.force(l)
    if not isinstance(l, SList): raise Unsupported("path")
    t = z3.RealVal(0); prev = first = None; n = 0
    for p in l.c.v:
        if not p.bs and p.guard is True:
            x = S.it.force(p.elem); x = strnode(x) if isinstance(x, str) else x
            if f is not None and prev is not None: t = t + f(prev, x)
            if one is not None: t = t + one(x)
            first = x if first is None else first; prev = x; n = n + 1
        elif p.n is not None:      # at least one element
            at_ = lambda i, p=p: subst(p.elem, [(p.bs[0], num(i))]); i = fresh_const(I, "i")
            if f is not None and prev is not None: t = t + f(prev, at_(0))
            if f is not None: t = t + S.ctx.sum([i], z3.And(i >= 0, i < num(p.n) - 1), f(at_(i), at_(i + 1)))
            if one is not None: i = fresh_const(I, "i"); t = t + S.ctx.sum([i], z3.And(i >= 0, i < num(p.n)), one(at_(i)))
            first = at_(0) if first is None else first; prev = at_(num(p.n) - 1); n = n + num(p.n)
        else: raise Unsupported("path")
    return t, first, prev, n


def path_facts(S, l, edge, cust, fwd=True, closed=False):
    """the list is a simple path of the network from the Source (to the Sink if not fwd), over customers, closed or not"""
    q = S.it.force(l).seq()
    if q is None: raise Unsupported("path")
    n, at_ = num(q[0]), lambda i: (lambda x: strnode(x) if isinstance(x, str) else x)(S.it.force(q[1](i)))
    i, j = fresh_const(I, "i"), fresh_const(I, "j")
    if isinstance(q[0], int):      # written out
        m = q[0]; xs = [at_(x) for x in range(m)]
        if m < (2 if closed else 1): return z3.BoolVal(False)
        mid = xs[(1 if fwd or closed else 0):(m - 1 if closed or not fwd else m)]
        return z3.And(*([B(xs[0] == SRC)] if fwd or closed else []), *([B(xs[-1] == SNK)] if not fwd or closed else []), *[cust(x) for x in mid], *[edge(a, b) for a, b in zip(xs, xs[1:])], *[xs[a] != xs[b] for a in range(m) for b in range(a)])
    lo, hi = (1, n - 1 if closed else n) if fwd else (1 if closed else 0, n - 1)
    return z3.And(n >= (2 if closed else 1), B(at_(z3.IntVal(0)) == SRC) if fwd or closed else True, B(at_(n - 1) == SNK) if not fwd or closed else True,
                  z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), cust(at_(i)))), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n - 1), edge(at_(i), at_(i + 1)))),
                  z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), at_(i) != at_(j))))


P_ = "subproblem_greedy._SubProblemGreedy"


def search(S, fwd):
    if S.unroll:
        from .pricing import small
        g, A = small(S, S.unroll); S.assume(*[A["demand"](v) >= 0 for v in A["nodes"]])
    else: g, A = vnet(S); depot(S, g)
    w = A["weight"] = z3.Function("weight", NodeS, NodeS, R); g.st.declare("ea", "weight", lambda u, v: w(u, v))
    K = z3.Int("K"); k = z3.Int("k"); Q = z3.Function("Q", I, R); D, n = z3.Real("D"), z3.Int("S"); S.assume(k >= 0, k < K, D > 0, n > 0, A["demand"](SRC) == 0, A["demand"](SNK) == 0)
    nocap, nodur, nost = (S.ctx.branch(z3.Bool("no_" + x)) for x in ("cap", "duration", "stops"))
    o = S.obj(P_, sub_G=g, vehicle_type=k, load_capacity=None if nocap else SList([seqpart(K, lambda i: Q(i))]), duration=None if nodur else D, num_stops=None if nost else n)
    S.assume(Q(k) > 0)
    cust = lambda v: z3.And(B(g.hasN(v)), v != SRC, v != SNK); edge = lambda u, v: B(g.hasE(u, v)); dur = lambda a, b: A["service_time"](a) + A["time"](a, b)
    get = lambda a: S.it.rd(o.cell(a))
    def inv(it, nd, env, cells):
        p = it.force(get("_current_path")); nn = get("_new_node") if o.cell("_new_node").v is not UNDEF else None
        wt, first, last, ln = chain(S, p, w); ld = chain(S, p, None, A["demand"])[0]; tm = chain(S, p, dur)[0]
        val = [real(it.force(get(a))) for a in ("_load", "_time", "_stops", "_weight")]
        ok = path_facts(S, p, edge, cust, fwd)
        run = [ok, val[0] == ld, val[1] == tm, val[2] == z3.ToReal(num(ln) - 1), val[3] == wt]
        if not nocap: run.append(ld <= Q(k))
        if not nodur: run.append(tm <= D)
        if not nost: run.append(val[2] < z3.ToReal(n))
        done = [path_facts(S, p, edge, cust, fwd, True), val[3] == wt]
        if not nocap: done.append(ld <= Q(k))
        if not nodur: done.append(tm <= D)
        if not nost: done.append(num(ln) - 2 <= n)
        go = AND(*[B(it.truth(it.ev(x, env))) for x in (nd.test.values if isinstance(nd.test, ast.BoolOp) and isinstance(nd.test.op, ast.And) else [nd.test])])
        some = False if nn is None else z3.And(z3.Not(nn.cond), B(it.truth(nn.b))) if isinstance(nn, SUnion) else B(it.truth(nn))
        return z3.Or(z3.And(B(go), *[B(x) for x in run]), z3.And(z3.Not(B(go)), z3.Implies(B(some), z3.And(*[B(x) for x in done]))))
    def loop(it, nd, env, cells=None):
        def fix(cells):
            c = o.cell("_new_node")
            if c in cells: it.ctx.set(c, SUnion(it.ctx.fresh("abandoned", BOOL), None, it.ctx.fresh("new_node", NodeS)))
        return it.induct_while(nd, env, lambda cells: inv(it, nd, env, cells), "greedy pricing: loop invariant", fix)
    if not S.unroll: S.it.loopspecs[P_ + (".run_forward" if fwd else ".run_backwards")] = loop
    S.call(o, "_initialize_run"); S.call(o, "run_forward" if fwd else "run_backwards")
    S.assume(S.it.truth(get("_new_node"))); p = S.it.force(get("_current_path"))
    wt = chain(S, p, w)[0]; ld = chain(S, p, None, A["demand"])[0]; tm = chain(S, p, dur)[0]
    S.ensure("greedy pricing: an elementary Source-Sink path of the network", path_facts(S, p, edge, cust, fwd, True))
    if not nocap: S.ensure("greedy pricing: load within the capacity of the type", ld <= Q(k))
    if not nodur: S.ensure("greedy pricing: duration within the limit", tm <= D)
    if not nost: S.ensure("greedy pricing: stops within the limit", num(p.seq()[0]) - 2 <= n)
    S.ensure("greedy pricing: weight is the reduced cost of the path", real(S.it.force(get("_weight"))) == wt)


for d_, x_ in (("forward", "run_forward _get_next_node"), ("backward", "run_backwards _get_previous_node")):
    contract("greedy pricing: %s search" % d_, "C02 C03 C04 C05 C13", " ".join(P_ + "." + x for x in (x_ + " _update _constraints_met _check_capacity _check_duration _get_time _can_finish _initialize_run").split()),
             "a search that ends with a node ends with an elementary Source-Sink path of the pricing network within capacity, stops and duration, whose reduced cost is the weight kept", cost=5, limits=(220, 600), opts=dict(unroll=2))((lambda f: lambda S: search(S, f))(d_ == "forward"))


@contract("greedy pricing: new route", "C01 C02 C09", P_ + "._add_new_route", "the column built from a finished path has exactly its edges, is priced for its vehicle type and indexed under its customers", opts=dict(unroll=2))
def _(S):
    from .columns import check_route, check_index, walk
    from .pricing import small, pool
    if S.unroll: g, A = small(S, S.unroll)
    else: g, A = vnet(S); depot(S, g)
    K = z3.Int("K"); k = A["k"] = z3.Int("k"); S.assume(k >= 0, k < K); A["N"] = lambda v: B(g.hasN(v))
    routes, idx, n0, ln, fam = pool(S, A["N"]); A["n0"], A["ln"], A["fam"] = n0, ln, fam
    n, at_ = walk(S, g, A)
    o = S.obj(P_, sub_G=g, vehicle_type=k, routes=routes, routes_with_node=idx, _current_path=SList.of(*[at_(i) for i in range(n)]) if S.unroll else SList([seqpart(n, lambda i: at_(i))]))
    S.call(o, "_add_new_route")
    rt = S.it.force(S.get(o, "routes")); q = rt.seq()
    if q is None: raise Unsupported("list of routes")
    S.ensure("greedy route: one more column", num(q[0]) == n0 + 1)
    new = rt.c.v[-1].elem
    if not isinstance(new, SGraph) or len(rt.c.v) < 1 or rt.c.v[-1].bs: raise Unsupported("route")
    check_route(S, new, n, at_, A, "greedy route"); check_index(S, o, new, n, at_, A, "greedy route")


@contract("greedy pricing: columns", "C02 C13", P_ + ".solve", "every search starts afresh; exactly the finished paths of negative reduced cost become columns, and the caller is told whether there is one")
def _(S):
    n0 = z3.Int("n_routes"); S.assume(n0 >= 0); routes = SList([seqpart(n0, lambda i: z3.Function("route", I, I)(i))]); N = 1 + S.ctx.choose(2); log = []
    o = S.obj(P_, routes=routes, _weight=z3.Real("w_old"), _new_node=None)
    def run(d):
        def f(it, so, a, kw):
            S.ensure("greedy columns: starts from nothing", AND(*[real(it.force(it.rd(so.cell(x)))) == 0 for x in ("_load", "_time", "_stops", "_weight")]))
            log.append(["run", None])
            it.wr(so.cell("_new_node"), it.ctx.fresh("end", NodeS) if it.ctx.branch(it.ctx.fresh("ended", BOOL)) else None); it.wr(so.cell("_weight"), it.ctx.fresh("weight", R))
        return f
    def add(it, so, a, kw):
        S.ensure("greedy columns: only a finished path of negative reduced cost", AND(len(log) > 0, it.truth(it.rd(so.cell("_new_node"))), real(it.force(it.rd(so.cell("_weight")))) < 0)); log.append(["add"])
        it.append(it.rd(so.cell("routes")), z3.Int("new_route")) if hasattr(it, "append") else None
    S.it.summaries[P_ + ".run_forward"] = run(1); S.it.summaries[P_ + ".run_backwards"] = run(0); S.it.summaries[P_ + "._add_new_route"] = add
    r = S.it.force(S.call(o, "solve", N))
    if not isinstance(r, tuple) or len(r) != 2: raise Unsupported("result of solve")
    S.ensure("greedy columns: tells whether a column was added", B(S.it.truth(r[1])) == z3.BoolVal(any(x[0] == "add" for x in log)))
    S.ensure("greedy columns: the columns of the pool", S.it.force(r[0]) is S.it.force(S.get(o, "routes")))
    S.ensure("greedy columns: searches", any(x[0] == "run" for x in log))


@contract("greedy: route", "C03 C04 C05 C17", " ".join(Y_ + "." + x for x in "_run_forward _get_next_node _constraints_met _check_capacity _check_duration _update".split()),
          "a route built is an elementary Source-Sink path over customers not served before, within capacity, stops and duration; exactly its customers are served now; its cost is added", cost=6, limits=(300, 600), opts=dict(unroll=2))
def _(S):
    if S.unroll:
        from .pricing import small
        g, A = small(S, S.unroll); S.assume(*[A["demand"](v) >= 0 for v in A["nodes"]]); c3 = A["cost"]; g.st.declare("ea", "cost", lambda u, v: c3(u, v, 0)); c = lambda u, v: c3(u, v, 0)
    else:
        g, A = vnet(S, costs=False); depot(S, g); c = A["cost"] = z3.Function("cost", NodeS, NodeS, R); g.st.declare("ea", "cost", lambda u, v: c(u, v)); S.assume(g.hasE(SRC, SNK))
    cust = lambda v: z3.And(B(g.hasN(v)), v != SRC, v != SNK); edge = lambda u, v: B(g.hasE(u, v)); un = z3.Function("unserved", NodeS, BOOL); v = z3.Const("v", NodeS)
    if S.unroll: un0 = list(A["nodes"][1 + S.ctx.choose(2):-1]); lst0 = SList.of(*un0); U0 = lambda v: z3.Or(*[v == x for x in un0])
    else: S.assume(S.all([v], un(v), cust(v))); b = fresh_const(NodeS, "b"); lst0 = SList([Part([b], un(b), b, None, True)]); U0 = un
    Q, D, n, val0 = z3.Real("Q"), z3.Real("D"), z3.Int("S"), z3.Real("value"); S.assume(Q > 0, D > 0, n > 0, *[A[a](x) == 0 for a in ("service_time", "demand") for x in (SRC, SNK)])
    nocap, nodur, nost = (S.ctx.branch(z3.Bool("no_" + x)) for x in ("cap", "duration", "stops"))
    o = S.obj(Y_, G=g, _unprocessed_nodes=lst0, _load=0, _time=0, _stops=0, _best_value=val0, load_capacity=None if nocap else Q, duration=None if nodur else D, num_stops=None if nost else n, _best_routes=SList())
    get = lambda a: S.it.rd(o.cell(a)); dur = lambda a, b: A["service_time"](b) + A["time"](a, b)
    def onp(p, x):
        q = S.it.force(p).seq(); i = fresh_const(I, "i")
        if isinstance(q[0], int): return z3.Or(*[(lambda y: strnode(y) if isinstance(y, str) else y)(S.it.force(q[1](j))) == x for j in range(q[0])])
        return z3.Exists([i], z3.And(i >= 0, i < num(q[0]), S.it.force(q[1](i)) == x))
    def served(it, p):
        x = fresh_const(NodeS, "x"); return z3.ForAll([x], z3.Implies(cust(x), B(it.contains(x, it.force(get("_unprocessed_nodes")))) == z3.And(U0(x), z3.Not(onp(p, x)))))
    def once(it, p):
        q = it.force(p).seq(); i = fresh_const(I, "i"); el = lambda j: (lambda y: strnode(y) if isinstance(y, str) else y)(S.it.force(q[1](j)))
        f = lambda x: z3.Or(x == SRC, x == SNK, U0(x))
        if isinstance(q[0], int): return z3.And(*[f(el(j)) for j in range(q[0])])
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < num(q[0])), f(el(i))))
    def inv(it, cells):
        p = it.force(get("_current_path"))
        if not isinstance(p, SList): return False
        cs, first, last, ln = chain(S, p, c); ld = chain(S, p, None, A["demand"])[0]; tm = chain(S, p, dur)[0]
        val = [real(it.force(get(a))) for a in ("_load", "_time", "_stops", "_best_value")]
        r = [path_facts(S, p, edge, cust), val[0] == ld, val[1] == tm, val[2] == z3.ToReal(num(ln) - 1), val[3] == val0 + cs, served(it, p), once(it, p)]
        if not nocap: r.append(ld <= Q)
        if not nodur: r.append(z3.Or(num(ln) == 1, tm + A["time"](last, SNK) <= D))
        if not nost: r.append(val[2] < z3.ToReal(n))
        return z3.And(*[B(x) for x in r])
    def fix(cells):
        if o.cell("_unprocessed_nodes") in cells or lst0.c in cells:
            f = S.it.ctx.fresh("still", z3.ArraySort(NodeS, BOOL)); b = fresh_const(NodeS, "b"); S.ctx.set(lst0.c, (Part([b], z3.Select(f, b), b, None, True),))
    if not S.unroll: S.it.loopspecs[Y_ + "._run_forward"] = lambda it, nd, env, cells=None: it.induct_while(nd, env, lambda cells: inv(it, cells), "greedy: loop invariant", fix)
    S.call(o, "_run_forward")
    S.ctx.taint = None if S.unroll else S.ctx.taint
    p = S.it.force(get("_current_path"))
    if not isinstance(p, SList): S.ensure("greedy route: a path", False); return
    ld = chain(S, p, None, A["demand"])[0]; tm = chain(S, p, dur)[0]; ln = num(p.seq()[0])
    S.ensure("greedy route: an elementary Source-Sink path of the network", path_facts(S, p, edge, cust, True, True))
    S.ensure("greedy route: over customers not served before", once(S.it, p)); S.ensure("greedy route: exactly its customers are served now", served(S.it, p))
    if not nocap: S.ensure("greedy route: load within the capacity", ld <= Q)
    if not nodur: S.ensure("greedy route: duration within the limit", z3.Or(ln == 2, tm <= D))
    if not nost: S.ensure("greedy route: stops within the limit", ln - 2 <= n)
    S.ensure("greedy route: its cost is added", real(S.it.force(get("_best_value"))) == val0 + chain(S, p, c)[0])
    x = z3.Const("x0", NodeS) if not S.unroll else A["nodes"][1]; alone = [U0(x), edge(SRC, x)] + ([] if nocap else [A["demand"](x) <= Q]) + ([] if nodur else [A["time"](SRC, x) + A["service_time"](x) + A["time"](x, SNK) <= D])
    S.ensure("greedy route: no empty trip while a customer can be served alone", z3.Implies(z3.And(*alone), ln >= 3))


@contract("greedy: partition", "C01 C17", Y_ + ".run " + Y_ + ".__init__ " + Y_ + "._format_cost", "every customer is on exactly one reported route, unless the heuristic gives up with an empty trip; each route starts with nothing on board; works on a copy with the costs of the first type")
def _(S):
    g, A = vnet(S); depot(S, g); N0, E0 = g.st.N.v, g.st.E.v; c0 = g.st.attr("ea", "cost").v; lst_ = S.ctx.branch(z3.Bool("cap_list")); Q, D, n = z3.Real("Q"), z3.Real("D"), z3.Int("S"); S.assume(g.hasE(SRC, SNK))
    o = S.it.force(S.it.call(S.cls(Y_), [g], dict(load_capacity=SList([seqpart(z3.Int("K"), lambda k: z3.Function("Qs", I, R)(k))]) if lst_ else Q, num_stops=n, duration=D)))
    h = S.it.force(S.get(o, "G")); u, v = z3.Consts("u0 v0", NodeS); get = lambda a: S.it.rd(o.cell(a))
    S.ensure("partition: capacity as given (of the first type)", real(S.it.force(get("load_capacity"))) == (z3.Function("Qs", I, R)(0) if lst_ else Q))
    S.ensure("partition: limits as given", AND(real(S.it.force(get("duration"))) == D, num(S.it.force(get("num_stops"))) == n))
    S.ensure("partition: the network is left alone", AND(g.st.N.v is N0, g.st.E.v is E0, g.st.attr("ea", "cost").v is c0))
    S.ensure("partition: on the same network", AND(B(h.hasN(u)) == B(N0.has((u,))), B(h.hasE(u, v)) == B(E0.has((u, v)))))
    e = B(E0.has((u, v))); S.ensure("partition: with the costs of the first type", IMP(e, real(S.ctx.under([], e, lambda: S.it.force(S.it.getitem(S.it.getitem(EdgesView(h), (u, v)), "cost")))) == A["cost"](u, v, 0)))
    cust = lambda v: z3.And(B(N0.has((v,))), v != SRC, v != SNK); un = lambda x: B(S.it.contains(x, S.it.force(get("_unprocessed_nodes"))))
    S.ensure("partition: starts with every customer, no route and no cost", AND(un(v) == cust(v), S.it.is_empty(S.it.force(get("_best_routes"))), real(S.it.force(get("_best_value"))) == 0))
    # ghost: on how many reported routes a customer is; whether the last path is the empty trip
    arr = z3.ArraySort(NodeS, I); gh = S.obj(Y_, count=z3.K(NodeS, z3.IntVal(0)), onpath=z3.K(NodeS, z3.BoolVal(False)), pending=False)
    def build(it, so, a, kw):      # contract "greedy: route": the path takes customers off the list
        S.ensure("partition: each route starts with nothing on board", AND(*[real(it.force(it.rd(so.cell(x)))) == 0 for x in ("_load", "_time", "_stops")]))
        b = fresh_const(NodeS, "b"); P = it.ctx.fresh("path", z3.ArraySort(NodeS, BOOL)); before = un(b); it.ctx.assume(z3.ForAll([b], z3.Implies(z3.Select(P, b), before)))
        empty = it.ctx.branch(z3.ForAll([b], z3.Not(z3.Select(P, b)))); f = fresh_fn(*([x.sort() for x in it.ctx.binders] + [NodeS, BOOL])); it.ctx.assume(z3.ForAll([b], f(*it.ctx.binders, b) == z3.And(before, z3.Not(z3.Select(P, b)))))
        l = SList(); l.c.v = (Part([b], f(*it.ctx.binders, b), b, None, True),); it.wr(so.cell("_unprocessed_nodes"), l)
        x = it.ctx.fresh("first", NodeS); it.ctx.assume(z3.Select(P, x)) if not empty else None
        it.wr(so.cell("_current_path"), SList.of(SRC, SNK) if empty else SList.of(SRC, x, SNK)); it.wr(gh.cell("onpath"), P); it.wr(so.cell("_best_value"), it.ctx.fresh("value", R)); it.wr(so.cell("_new_node"), SNK)
        it.wr(gh.cell("pending"), True)
    def report(it, so, a, kw):     # contract "greedy: plan"
        S.ensure("partition: a route is reported once", it.rd(gh.cell("pending")) is True or it.rd(gh.cell("pending")))
        c, P = it.rd(gh.cell("count")), it.rd(gh.cell("onpath")); b = fresh_const(NodeS, "b")
        it.wr(gh.cell("count"), z3.Lambda([b], z3.Select(c, b) + z3.If(z3.Select(P, b), z3.IntVal(1), z3.IntVal(0)))); it.wr(gh.cell("pending"), False)
    S.it.summaries[Y_ + "._run_forward"] = build; S.it.summaries[Y_ + "._update_routes"] = report
    def inv(cells):
        b = fresh_const(NodeS, "b"); return z3.ForAll([b], z3.And(z3.Implies(un(b), cust(b)), z3.Select(S.it.rd(gh.cell("count")), b) == z3.If(z3.And(cust(b), z3.Not(un(b))), z3.IntVal(1), z3.IntVal(0))))
    def fix(cells):
        if o.cell("_unprocessed_nodes") in cells: f = fresh_fn(NodeS, BOOL); b = fresh_const(NodeS, "b"); l = SList(); l.c.v = (Part([b], f(b), b, None, True),); S.ctx.set(o.cell("_unprocessed_nodes"), l)
        if gh.cell("count") in cells: S.ctx.set(gh.cell("count"), S.ctx.fresh("count", arr))
        if gh.cell("onpath") in cells: S.ctx.set(gh.cell("onpath"), S.ctx.fresh("onpath", z3.ArraySort(NodeS, BOOL)))
        if gh.cell("pending") in cells: S.ctx.set(gh.cell("pending"), False)
        if o.cell("_current_path") in cells: S.ctx.set(o.cell("_current_path"), SList.of(SRC, S.ctx.fresh("x", NodeS), SNK))
    S.it.loopspecs[Y_ + ".run"] = lambda it, nd, env, cells=None: it.induct_while(nd, env, inv, "partition: loop invariant", fix)
    S.call(o, "run")
    x = z3.Const("x0", NodeS); S.assume(cust(x)); cnt = z3.Select(S.it.rd(gh.cell("count")), x); P = S.it.rd(gh.cell("onpath"))
    S.ensure("partition: on at most one route", z3.And(cnt >= 0, cnt <= 1))
    b = z3.Const("b0", NodeS)
    S.ensure("partition: on exactly one route, unless an empty trip was built", z3.Or(cnt == 1, z3.ForAll([b], z3.Not(z3.Select(P, b)))))
