"""Contracts assumed for everything outside /repo: builtins, networkx, pulp, numpy,
random, time.  Every function here is part of the trusted base."""
import z3
from .core import *
from .objs import *

BOOL = z3.BoolSort(); INT = z3.IntSort(); REAL = z3.RealSort()


# ---------------------------------------------------------------- LP values
class LPState:
    """declared variables and their (mutable) bounds, categories, row senses"""
    def __init__(s, tag=""):
        s.decl = Cell((), "lp variables"); s.added = Cell((), "lp entries"); s.attr = {}; s.tag = tag

    def cell(s, tpl, a):
        if (tpl, a) not in s.attr: s.attr[tpl, a] = Cell(FMap(EmptyBase()), "%s.%s" % (tpl, a)); s.attr[tpl, a].serial = s.decl.serial
        return s.attr[tpl, a]


class VDecl:
    """declaration of a variable: bounds, category and column entries (Lin over rows)"""
    def __init__(s, var, low, up, cat, e): s.var, s.low, s.up, s.cat, s.e = var, low, up, cat, e
    def subst(s, m, memo=None): return VDecl(s.var.subst(m), subst(s.low, m), subst(s.up, m), s.cat, s.e.subst(m) if s.e is not None else None)


def valfn(tpl, key, sort):
    ks = [k if isz(k) else (z3.IntVal(k) if isinstance(k, int) else strnode(k)) for k in key]
    nm = "%s_%s" % ("on" if sort == BOOL else "val", tpl)
    if not ks: return z3.Const(nm, sort)
    return z3.Function(nm, *([k.sort() for k in ks] + [sort]))(*ks)


BINARY = {}      # tpl -> True when declared binary


def value(v):
    """value term of an LP variable in the current solution"""
    if BINARY.get(v.tpl): return z3.If(valfn(v.tpl, v.key, BOOL), z3.RealVal(1), z3.RealVal(0))
    return valfn(v.tpl, v.key, REAL)


def lin_value(ctx, l, val=value):
    """value of a linear expression under the assignment val"""
    t = real(l.const)
    for p in l.terms:
        c, v = p.elem
        x = val(v)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: body = z3.If(x.arg(0), real(c), z3.RealVal(0))
        else: body = real(c) * x
        t = t + ctx.sum(p.bs, p.guard, body)
    return t


def constr_formula(ctx, c, val=value):
    t = lin_value(ctx, c.l, val)
    return t <= 0 if c.sense == "LE" else t == 0


def row_formula(ctx, p, val=value):
    """Part of rows -> formula"""
    p = p.fresh()
    n = len(ctx.binders); ctx.binders += list(p.bs)
    try: f = z3.simplify(constr_formula(ctx, p.elem, val))
    finally: del ctx.binders[n:]
    return forall(p.bs, B(IMP(p.guard, f)))


# ---------------------------------------------------------------- small values
class ProbConstraints:
    def __init__(s, prob): s.prob = prob
class RowRef:
    def __init__(s, prob, tpl, key): s.prob, s.tpl, s.key = prob, tpl, tuple(key)
    def subst(s, m, memo=None): return RowRef(s.prob, s.tpl, tuple(subst(k, m) for k in s.key))
class TypeRef:
    def __init__(s, t): s.t = t
class AnyObj:
    """an external object nobody looks into"""
    def __init__(s, what): s.what = what
    def subst(s, m, memo=None): return s


def arg(args, kw, i, name, dflt=None):
    if len(args) > i: return args[i]
    return kw.get(name, dflt)


def parts_of(it, x): return it.parts(x)


def lp_sum(it, args, kw):
    tot = Lin()
    x = it.force(args[0])
    if isinstance(x, (Lin, LVar, RowVar)): return lin(x)
    for p in it.parts(x):
        e = it.force(p.elem) if not p.bs else p.elem
        if isinstance(e, (SUnion, Lazy)): raise Unsupported("conditional LP term")
        l = lin(e)
        terms = [Part(tuple(p.bs) + tuple(q.bs), AND(p.guard, q.guard), q.elem) for q in l.terms]
        const = l.const
        if p.bs or p.guard is not True: const = it.ctx.sum(p.bs, p.guard, real(const))
        tot = lin_add(tot, Lin(terms, const))
    return tot


def lp_variable(it, args, kw):
    name = it.force(arg(args, kw, 0, "name")); low = arg(args, kw, 1, "lowBound"); up = arg(args, kw, 2, "upBound"); cat = arg(args, kw, 3, "cat", "Continuous"); e = arg(args, kw, 4, "e")
    v = named(it, name)
    v = LVar(v[0], v[1])
    decl(it, v, low, up, cat, e, [])
    return v


def named(it, name):
    if isinstance(name, str): return name, ()
    if isinstance(name, OpaqueStr):
        key = []
        for a in name.args[1:]:
            if isinstance(a, (SList, SDict, SObj, SGraph)): raise Unsupported("name from %r" % (a,))
            if isinstance(a, OpaqueStr): key += list(named(it, a)[1])
            else: key.append(scal(a))
        return norm_tpl(name.args[0]), tuple(key)
    if isz(name): return "", (name,)
    raise Unsupported("name %r" % (name,))


def norm_tpl(t): return t.replace("{}", "%s")


def decl(it, var, low, up, cat, e, bs):
    cat = it.force(cat)
    if cat == "Binary": BINARY[var.tpl] = True; low, up = 0, 1
    else: BINARY.setdefault(var.tpl, False)
    lp = it.lp
    it.ctx.write(lp.decl, None)
    it.ctx.set(lp.decl, lp.decl.v + (Part([], True, VDecl(var, it.force(low), it.force(up), cat, lin(e) if e is not None else None)),))


def lp_dicts(it, args, kw):
    name = it.force(arg(args, kw, 0, "name")); idx = it.force(arg(args, kw, 1, "indices", kw.get("indexs"))); low = arg(args, kw, 2, "lowBound"); up = arg(args, kw, 3, "upBound"); cat = arg(args, kw, 4, "cat", "Continuous")
    if isinstance(idx, tuple) and len(idx) == 2 and all(isinstance(it.force(x), (SList, SDict, NodesView, EdgesView, it.Range)) for x in idx):
        doms = [it.parts(x) for x in idx]; depth = len(idx)
        cat = it.force(cat); BINARY[name] = cat == "Binary"
        a = [p.fresh() for p in doms[0]]; b = [p.fresh() for p in doms[1]]
        ps = [Part(tuple(x.bs) + tuple(y.bs), AND(x.guard, y.guard), VDecl(LVar(name, (x.elem, y.elem)), it.force(low), it.force(up), cat, None)) for x in a for y in b]
        it.ctx.set(it.lp.decl, it.lp.decl.v + tuple(ps))
        return VarDict(name, doms, depth)
    dom = it.parts(idx)
    cat = it.force(cat); BINARY[name] = cat == "Binary"
    l, u = (0, 1) if cat == "Binary" else (it.force(low), it.force(up))
    ps = []
    for p in dom:
        q = p.fresh(); k = q.elem if isinstance(q.elem, tuple) else (q.elem,)
        ps.append(Part(q.bs, q.guard, VDecl(LVar(name, k), l, u, cat, None)))
    it.ctx.set(it.lp.decl, it.lp.decl.v + tuple(ps))
    return VarDict(name, dom, 0)


def prob_add(it, prob, v):
    v = it.force(v); name = None
    if isinstance(v, tuple) and len(v) == 2: v, name = it.force(v[0]), v[1]
    if isinstance(v, Constr):
        v = Constr(v.l, v.sense, named(it, name) if name is not None else None)
        it.ctx.write(prob.rows, None); it.ctx.set(prob.rows, prob.rows.v + (Part([], True, v),)); return
    if isinstance(v, RowVar):
        it.ctx.write(prob.rows, None); it.ctx.set(prob.rows, prob.rows.v + (Part([], True, v),)); return
    if isinstance(v, (Lin, LVar)) or isnum(v):
        it.ctx.write(prob.obj, ()); it.ctx.set(prob.obj, lin(v)); return
    if isinstance(v, bool): raise Unsupported("constant constraint")
    raise Unsupported("problem += %r" % (v,))


# ---------------------------------------------------------------- builtins
def b_len(it, a, kw): return it.length(a[0])


def b_range(it, a, kw):
    a = [it.force(x) for x in a]
    a = [x.term if isinstance(x, DynNum) else x for x in a]
    a = [z3.ToInt(x) if isz(x) and x.sort() == REAL else x for x in a]
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2: raise Unsupported("range step")
    if isinstance(lo, int) and isinstance(hi, int): hi = max(lo, hi)
    elif it.ctx.decide(num(hi) >= num(lo)) is not True:
        if it.ctx.branch(num(hi) < num(lo)): hi = lo
    return it.Range(lo, hi)


def b_list(it, a, kw):
    if not a: return SList()
    x = it.force(a[0])
    if isinstance(x, it.SetOf):
        raise Unsupported("list of a set")
    return SList(it.parts(x))


def b_tuple(it, a, kw):
    x = it.force(a[0])
    q = SList(it.parts(x)).seq()
    if q is not None and isinstance(q[0], int): return tuple(q[1](i) for i in range(q[0]))
    return SList(it.parts(x))


def b_set(it, a, kw):
    if not a: return it.Bag([])
    x = it.force(a[0])
    if isinstance(x, SList): return it.SetOf(x)
    return it.Bag(it.parts(x))


def b_dict(it, a, kw):
    d = SDict()
    for k, v in kw.items(): it.putmap(d.c, (k,), v)
    if a:
        x = it.force(a[0])
        if isinstance(x, SDict): d.c.v = x.c.v; it.ctx.read(x.c, None); return d
        for p in it.parts(x):
            k, v = it.force(p.elem)
            it.putmap(d.c, k if isinstance(k, tuple) else (k,), v, True, p.bs, p.guard)
    return d


def b_sum(it, a, kw):
    tot = None
    for p in it.parts(a[0]):
        e = p.elem if p.bs or p.guard is not True else it.force(p.elem)
        if isinstance(e, (Lin, LVar, RowVar)): tot = lin_add(lin(tot if tot is not None else 0), lp_sum(it, [it.Bag([p])], {})); continue
        if isinstance(e, (SUnion, Lazy, Poison)): raise Unsupported("sum of undetermined values")
        t = num(e) if not p.bs and p.guard is True else it.ctx.sum(p.bs, p.guard, real(e))
        if tot is None: tot = t
        elif isinstance(tot, Lin): tot = lin_add(tot, lin(t))
        else:
            if tot.sort() != t.sort(): tot, t = real(tot), real(t)
            tot = tot + t
    if len(a) > 1: tot = it.binop(__import__("ast").Add(), a[1], tot if tot is not None else 0)
    return tot if tot is not None else 0


def extremum(it, a, kw, ge):
    if "key" in kw:
        if len(a) != 1 or set(kw) - {"key"}: raise Unsupported("max/min with key")
        x = b_sorted(it, a, dict(key=kw["key"], reverse=ge))      # stable: the first of the best ones
        try: return it.getitem(x, 0)
        except PyRaise as e: raise PyRaise("ValueError") if e.kind == "IndexError" else e
    if len(a) > 1:
        r = None
        for x in a:
            x = it.force(x)
            if x is None: raise PyRaise("TypeError")
            x = x.term if isinstance(x, DynNum) else x
            if r is None: r = x; continue
            if isinstance(r, (int, float)) and isinstance(x, (int, float)): r = max(r, x) if ge else min(r, x); continue
            p, q = num(r), num(x)
            if p.sort() != q.sort(): p, q = real(p), real(q)
            r = z3.If(q > p, q, p) if ge else z3.If(q < p, q, p)
        return r
    ps = [p for p in it.parts(a[0])]
    if all(not p.bs and p.guard is True for p in ps):
        if not ps: raise PyRaise("ValueError", "empty max")
        if len(ps) == 1: return it.force(ps[0].elem)
        return extremum(it, [p.elem for p in ps], {}, ge)
    if "default" not in kw:
        if it.ctx.branch(it.is_empty(it.Bag(ps))): raise PyRaise("ValueError", "empty max")
    elif it.ctx.branch(it.is_empty(it.Bag(ps))): return kw["default"]
    es = [num(p.elem) for p in ps]
    sort = INT if all(e.sort() == INT for e in es) else REAL
    m = it.ctx.fresh("max" if ge else "min", sort)
    att = []
    for p in ps:
        p = p.fresh(); e = num(p.elem); e = real(e) if sort == REAL else e
        it.ctx.assume(forall(p.bs, B(IMP(p.guard, (e <= m) if ge else (e >= m)))))
        att.append(exists(p.bs, B(AND(p.guard, e == m))))
    it.ctx.assume(OR(*att))
    return m


def b_any(it, a, kw):
    out = []
    for p in it.parts(a[0]):
        t = it.truth(p.elem)
        out.append(exists(p.bs, B(AND(p.guard, t))) if p.bs else AND(p.guard, t))
    return OR(*out)


def b_all(it, a, kw):
    out = []
    for p in it.parts(a[0]):
        t = it.truth(p.elem)
        out.append(forall(p.bs, B(IMP(p.guard, t))) if p.bs else IMP(p.guard, t))
    return AND(*out)


def aslist(it, x):
    x = it.force(x)
    return x if isinstance(x, SList) else SList(it.parts(x))


def b_zip(it, a, kw):
    qs = []
    for x in a:
        q = aslist(it, x).seq()
        if q is None: raise Unsupported("zip of unordered collections")
        qs.append(q)
    n = qs[0][0]
    for q in qs[1:]:
        if isinstance(n, int) and isinstance(q[0], int): n = min(n, q[0])
        else:
            d = it.ctx.decide(num(q[0]) <= num(n))
            n = q[0] if d is True else n if d is False or it.ctx.decide(num(n) <= num(q[0])) is True else z3.If(num(q[0]) < num(n), num(q[0]), num(n))
    if isinstance(n, int) and n <= 12: return SList([Part([], True, tuple(q[1](i) for q in qs)) for i in range(n)])
    return SList([seqpart(n, lambda i: tuple(q[1](i) for q in qs))])


def b_enumerate(it, a, kw):
    st = arg(a, kw, 1, "start", 0)
    q = aslist(it, a[0]).seq()
    if q is None: raise Unsupported("enumerate of an unordered collection")
    n, at = q
    if isinstance(n, int) and n <= 12 and isinstance(st, int): return SList([Part([], True, (i + st, at(i))) for i in range(n)])
    return SList([seqpart(n, lambda i: (z3.simplify(i + num(st)), at(i)))])


def b_isinstance(it, a, kw):
    v, t = it.force(a[0]), it.force(a[1])
    ts = t if isinstance(t, tuple) else (t,)
    out = []
    for t in ts:
        n = t.path.split(".")[-1] if hasattr(t, "path") else t.name if hasattr(t, "name") else None
        if n is None: raise Unsupported("isinstance")
        if isinstance(v, DynNum):
            out.append(v.isint if n == "int" else NOT(v.isint) if n == "float" else False); continue
        if v is None: out.append(False)
        elif isinstance(v, bool) or (isz(v) and z3.is_bool(v)): out.append(n in ("bool", "int"))
        elif isinstance(v, int) or (isz(v) and z3.is_int(v)): out.append(n == "int")
        elif isinstance(v, float): out.append(n == "float")
        elif isz(v) and z3.is_arith(v):
            if n in ("list", "dict", "str", "DiGraph", "tuple"): out.append(False)
            else: raise Unsupported("type of a number")
        elif isinstance(v, SList): out.append(n == "list")
        elif isinstance(v, tuple): out.append(n == "tuple")
        elif isinstance(v, SDict): out.append(n == "dict")
        elif isinstance(v, str) or isinstance(v, OpaqueStr): out.append(n == "str")
        elif isinstance(v, SGraph): out.append(n == "DiGraph" or n == "Graph")
        elif isinstance(v, AnyObj): out.append(n in v.what)
        elif isinstance(v, SObj): out.append(bool(v.cls) and v.cls.name == n)
        elif isz(v): out.append(False)
        else: raise Unsupported("isinstance of %r" % (v,))
    return OR(*out)


def b_int(it, a, kw):
    x = it.force(a[0])
    if isinstance(x, (int, float)): return int(x)
    if isinstance(x, DynNum): x = x.term
    if isz(x) and z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if isz(x) and x.sort() == INT: return x
    x = num(x)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def b_float(it, a, kw):
    x = it.force(a[0])
    return float(x) if isinstance(x, (int, float)) else real(x)


def b_round(it, a, kw):
    x = it.force(a[0])
    if x is None: raise PyRaise("TypeError")
    if isinstance(x, (int, float)): return round(x)
    if len(a) > 1: raise Unsupported("round to digits")
    r = it.ctx.fresh("round", INT)
    it.ctx.assume(z3.And(real(x) - z3.ToReal(r) <= z3.Q(1, 2), z3.ToReal(r) - real(x) <= z3.Q(1, 2), z3.Implies(real(x) == z3.ToReal(z3.ToInt(real(x))), r == z3.ToInt(real(x)))))
    return r


def b_abs(it, a, kw):
    x = it.force(a[0])
    return abs(x) if isinstance(x, (int, float)) else z3.If(num(x) >= 0, num(x), -num(x))


def b_str(it, a, kw):
    x = a[0]
    if isinstance(x, str): return x
    if isz(x) and x.sort() == NodeS: return OpaqueStr("%s", x)
    return OpaqueStr("%s", x if isz(x) else None)


def b_sorted(it, a, kw):
    """some reordering of the elements; the first one has the smallest key"""
    src = it.force(a[0]); key = kw.get("key"); rev = it.force(kw.get("reverse", False))
    ps = it.parts(src)
    out = SList([Part(p.bs, p.guard, p.elem, None, p.uniq) for p in ps])
    if all(not p.bs and p.guard is True for p in ps) and len(ps) <= 1: return out
    def kf(e): return it.call(key, [e], {}) if key is not None else e
    def minkey(it_, k):
        if rev: k = -1 - k
        if it_.ctx.branch(it_.is_empty(it_.Bag(ps))): raise PyRaise("IndexError")
        w = pick(it_, ps)
        kw_ = num(kf(w))
        for p in ps:
            p = p.fresh(); kp = num(it_.ctx.under(p.bs, p.guard, lambda: kf(p.elem)))
            it_.ctx.assume(forall(p.bs, B(IMP(p.guard, kw_ <= kp if k == 0 else kw_ >= kp))))
        return w
    out.minkey = minkey
    return out


def pick(it, ps):
    """an arbitrary element of the parts (assumed non-empty)"""
    k = 0
    if len(ps) > 1:
        k = it.ctx.choose(len(ps)); sel = it.ctx.fresh("which", INT); it.ctx.cond(sel == k)
        it.ctx.cond(exists(ps[k].bs, B(ps[k].guard)))
    p = ps[k]
    w = [it.ctx.fresh("pick", b.sort()) for b in p.bs]
    m = list(zip(p.bs, w))
    it.ctx.assume(subst(B(p.guard), m)); it.feasible()
    return subst(p.elem, m)


def b_choice(it, a, kw):
    x = it.force(a[0])
    ps = it.parts(x)
    if it.ctx.branch(it.is_empty(x)): raise PyRaise("IndexError")
    return pick(it, ps)


def subset_of(it, ps, name="sub"):
    out = []
    for p in ps:
        p = p.fresh()
        f = fresh_fn(*([b.sort() for b in it.ctx.binders + list(p.bs)] + [BOOL])) if it.ctx.binders or p.bs else None
        g = f(*(it.ctx.binders + list(p.bs))) if f is not None else fresh_const(BOOL, name)
        out.append(Part(p.bs, AND(p.guard, g), p.elem, None, p.uniq))
    return out


# ---------------------------------------------------------------- networkx
def nx_digraph(it, a, kw):
    if a: raise Unsupported("DiGraph(data)")
    st = GStore("g%d" % Serial.next(), False)
    g = SGraph(st)
    for k, v in kw.items(): it.putmap(st.attr("ga", k), (), v)
    return g


def add_edge(it, g, u, v, attrs, bs=(), guard=True):
    u, v = scal(it.force(u)), scal(it.force(v))
    ids = g.ids
    for n in (u, v):
        if not bs and isz(n):
            if it.ctx.decide(g.hasN(n)) is True: it.ctx.read(g.st.N, ids + (n,)); continue      # already a node
        it.putmap(g.st.N, ids + (n,), True, True, bs, guard)
    it.putmap(g.st.E, ids + (u, v), True, True, bs, guard)
    for k, x in attrs.items(): it.putmap(g.st.attr("ea", k), ids + (u, v), x, True, bs, guard)


def nx_add_path(it, a, kw):
    g = it.force(a[0])
    q = aslist(it, a[1]).seq()
    if q is None: raise Unsupported("path of an unordered collection")
    n, at = q
    if isinstance(n, int):
        for i in range(n): it.putmap(g.st.N, g.ids + (scal(at(i)),), True)
        for i in range(n - 1): add_edge(it, g, at(i), at(i + 1), {})
        return
    i = fresh_const(INT, "i")
    it.putmap(g.st.N, g.ids + (scal(at(i)),), True, True, [i], z3.And(i >= 0, i < num(n)))
    j = fresh_const(INT, "i")
    add_edge(it, g, at(j), at(z3.simplify(j + 1)), {}, [j], z3.And(j >= 0, j + 1 < num(n)))


def fresh_path(it, g, s, t, name="path"):
    """a simple path of g from s to t"""
    n = it.ctx.fresh("len_" + name, INT)
    f = fresh_fn(*([b.sort() for b in it.ctx.binders] + [INT, NodeS]))
    at = lambda i: f(*(it.ctx.binders[:f.arity() - 1] + [num(i)]))
    i, j = fresh_const(INT, "i"), fresh_const(INT, "j")
    it.ctx.assume(z3.And(n >= 2, at(0) == scal(s), at(n - 1) == scal(t)))
    it.ctx.read(g.st.E, None)
    it.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n - 1), B(g.hasE(at(i), at(i + 1))))))
    it.ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), at(i) != at(j))))
    l = SList([seqpart(n, at)])
    return l


def nx_shortest_path(it, a, kw):
    g = it.force(a[0]); s = it.force(arg(a, kw, 1, "source")); t = it.force(arg(a, kw, 2, "target"))
    # does a path exist?
    h = getattr(it, "path_hook", None)
    if h is not None:
        r = h(it, g, s, t)
        if r is not None: return r
    ok = it.ctx.fresh("has_path", BOOL)
    if not it.ctx.branch(ok): raise PyRaise("NetworkXNoPath")
    return fresh_path(it, g, s, t)


def nx_simple_paths(it, a, kw):
    """shortest_simple_paths: finitely many simple paths from source to target"""
    g = it.force(a[0]); s = it.force(arg(a, kw, 1, "source")); t = it.force(arg(a, kw, 2, "target"))
    it.ctx.read(g.st.E, None)
    n = it.ctx.fresh("n_paths", INT); ln = fresh_fn(INT, INT); f = fresh_fn(INT, INT, NodeS); r, i, j = (fresh_const(INT, x) for x in "rij")
    it.ctx.assume(n >= 0)
    it.ctx.assume(z3.ForAll([r], z3.And(ln(r) >= 2, f(r, 0) == scal(s), f(r, ln(r) - 1) == scal(t))))
    it.ctx.assume(z3.ForAll([r, i], z3.Implies(z3.And(r >= 0, r < n, i >= 0, i < ln(r) - 1), B(g.hasE(f(r, i), f(r, i + 1))))))
    it.ctx.assume(z3.ForAll([r, i, j], z3.Implies(z3.And(r >= 0, r < n, i >= 0, i < j, j < ln(r)), f(r, i) != f(r, j))))
    return SList([seqpart(n, lambda r: SList([seqpart(ln(r), lambda i: f(r, i))]))])


def b_islice(it, a, kw):
    x = it.force(a[0]); n = it.force(a[1])
    if len(a) > 2: raise Unsupported("islice with start")
    q = x.seq() if isinstance(x, SList) else None
    if q is None: return it.Bag(subset_of(it, it.parts(x)))
    return it.slice(x, slice(None, n))


def nx_compose_all(it, a, kw):
    """union of the graphs of a list (nodes and edges)"""
    ps = it.parts(a[0]); h = SGraph(GStore("comp%d" % Serial.next(), False))
    for p in ps:
        p = p.fresh(); g = it.force(p.elem)
        if not isinstance(g, SGraph): raise Unsupported("compose_all")
        for cell, dst in ((g.st.N, h.st.N), (g.st.E, h.st.E)):
            it.ctx.read(cell, None)
            ks = [fresh_const(NodeS, "c") for _ in range(1 if dst is h.st.N else 2)]
            it.putmap(dst, tuple(ks), True, True, list(p.bs) + ks, AND(p.guard, cell.v.has(g.ids + tuple(ks))))
    return h


def nx_has_path(it, a, kw):
    g = it.force(a[0]); s, t = it.force(a[1]), it.force(a[2])
    h = it.ctx.fresh("has_path", BOOL)
    it.ctx.read(g.st.E, None)
    for x in (s, t):
        if not it.ctx.branch(g.hasN(x)): raise PyRaise("NodeNotFound")
    it.ctx.assume(IMP(g.hasE(s, t), h))
    m = fresh_const(NodeS, "m")
    it.ctx.assume(forall([m], B(IMP(AND(g.hasE(s, m), g.hasE(m, t)), h))))
    # a path leaves s and enters t
    it.ctx.assume(IMP(h, AND(exists([m], B(g.hasE(s, m))), exists([m], B(g.hasE(m, t))))))
    return h


def nx_negcycle(it, a, kw): return it.ctx.fresh("negative_cycle", BOOL)


def nx_splen(it, a, kw):
    g = it.force(a[0]); s = it.force(arg(a, kw, 1, "source")); t = it.force(arg(a, kw, 2, "target")); w = it.conststr(it.force(arg(a, kw, 3, "weight")))
    it.ctx.read(g.st.E, None)
    if not hasattr(it, "splen"): it.splen = {}
    key = (g.st.name, w)
    if key not in it.splen: it.splen[key] = z3.Function("splen_%s_%s" % key, NodeS, NodeS, REAL)
    d = it.splen[key](scal(s), scal(t))
    ok = it.ctx.fresh("reach", BOOL)
    it.ctx.assume(IMP(g.hasE(s, t), ok))
    if not it.ctx.branch(ok): raise PyRaise("NetworkXNoPath")
    cell = g.st.attr("ea", w)
    it.ctx.read(cell, None)
    if it.ctx.decide(g.hasE(s, t)) is True: it.ctx.assume(d <= real(cell.v.get(g.ids + (scal(s), scal(t)), it.ctx)))
    return d


def graph_copy(it, g, deep=False):
    """same nodes, edges and attributes; later changes are independent, except that a shallow copy (copy) shares the lists
    stored as attributes (to_directed copies them)"""
    st = GStore("copy%d" % Serial.next(), True, g.st.idsorts)
    for n in ("N", "E"):
        it.ctx.read(getattr(g.st, n), None)
        setattr(st, n, Cell(getattr(g.st, n).v, st.name + "." + n))
    for n in ("na", "ea", "ga"):
        for a, c in getattr(g.st, n).items():
            it.ctx.read(c, None); d = getattr(st, n)[a] = Cell(c.v, st.name + "." + a)
            if not deep and isinstance(c.v, FMap): k = len(c.v.ups); c.peers += ((d, k, k),); d.peers += ((c, k, k),)
    src = g.st
    orig = st.attr
    def attr(which, a):
        d = getattr(st, which)
        if a not in d:
            if a in getattr(src, which) or src.symbolic: d[a] = Cell(FMap(src.attr(which, a).v.base), st.name + "." + a)      # not there when copied
            else: d[a] = Cell(FMap(EmptyBase()), st.name + "." + a)
            d[a].serial = st.serial
        return d[a]
    st.attr = attr
    return SGraph(st, g.ids)


def remove_node(it, g, v, bs=(), guard=True):
    v = scal(it.force(v))
    it.putmap(g.st.N, g.ids + (v,), None, False, bs, guard)
    o = fresh_const(NodeS, "o")
    it.putmap(g.st.E, g.ids + (v, o), None, False, list(bs) + [o], guard)
    it.putmap(g.st.E, g.ids + (o, v), None, False, list(bs) + [o], guard)


def neigh_parts(it, g, v, succ):
    name = "successors" if succ else "predecessors"
    it.ctx.read(g.st.E, None)
    if not g.st.symbolic and isinstance(g.st.E.v.base, EmptyBase) and all(u.present and not u.bs and u.guard is True for u in g.st.E.v.ups) and not g.ids:
        out = []; good = True
        for n_, u in enumerate(g.st.E.v.ups):
            me, ot = (u.key[1], u.key[0]) if name == "predecessors" else (u.key[0], u.key[1])
            d = it.ctx.decide(eq(me, v)) if not isinstance(eq(me, v), bool) else eq(me, v)
            if d is None: good = False; break
            if d and not any(p.elem is ot or (isz(ot) and isz(p.elem) and p.elem.eq(ot)) for p in out): out.append(Part([], True, ot))
        if good: return out
    x = fresh_const(NodeS, "n")
    return [Part([x], g.hasE(x, v) if name == "predecessors" else g.hasE(v, x), x, None, True)]


def graph_method(it, g, name, a, kw):
    f = it.force
    if name == "nodes": return NodesView(g)
    if name == "edges": return EdgesView(g, f(kw.get("data", False)) is True or (a and f(a[0]) is True))
    if name in ("predecessors", "successors", "neighbors", "__getitem__"):
        v = scal(f(a[0]))
        ok = g.hasN(v); it.ctx.read(g.st.N, g.ids + (v,))
        if not it.ctx.branch(ok): raise PyRaise("NetworkXError")
        return it.Neigh(it, g, v, name != "predecessors")
    if name == "has_edge": return it.contains((f(a[0]), f(a[1])), EdgesView(g))
    if name == "has_node": return it.contains(f(a[0]), NodesView(g))
    if name == "add_edge": add_edge(it, g, a[0], a[1], kw); return None
    if name == "add_node":
        it.putmap(g.st.N, g.ids + (scal(f(a[0])),), True)
        for k, x in kw.items(): it.putmap(g.st.attr("na", k), g.ids + (scal(f(a[0])),), x)
        return None
    if name == "remove_edge":
        u, v = scal(f(a[0])), scal(f(a[1]))
        it.ctx.read(g.st.E, g.ids + (u, v))
        if not it.ctx.branch(g.hasE(u, v)): raise PyRaise("NetworkXError")
        it.putmap(g.st.E, g.ids + (u, v), None, False); return None
    if name == "remove_edges_from":
        for p in it.parts(a[0]):
            u, v = f(p.elem)[:2]
            it.putmap(g.st.E, g.ids + (scal(u), scal(v)), None, False, p.bs, p.guard)
        return None
    if name == "remove_node":
        if not it.ctx.branch(g.hasN(f(a[0]))): raise PyRaise("NetworkXError")
        remove_node(it, g, a[0]); return None
    if name == "remove_nodes_from":
        for p in it.parts(a[0]): remove_node(it, g, p.elem, p.bs, p.guard)
        return None
    if name in ("copy", "to_directed"): return graph_copy(it, g, name == "to_directed")
    if name == "edge_subgraph":
        h = graph_copy(it, g)
        ps = it.parts(a[0])
        def inside(u, v):
            cs = []
            for p in ps:
                p = p.fresh(); cs.append(exists(p.bs, B(AND(p.guard, eq(p.elem[0], u), eq(p.elem[1], v)))))
            return OR(*cs)
        src = g.st.E.v
        h.st.E.v = FMap(FnBase(lambda *k: AND(src.has(k), inside(k[-2], k[-1])), lambda *k: True))
        srcn = g.st.N.v
        o = fresh_const(NodeS, "o")
        h.st.N.v = FMap(FnBase(lambda *k: AND(srcn.has(k), exists([o], B(OR(h.st.E.v.has(g.ids + (k[-1], o)), h.st.E.v.has(g.ids + (o, k[-1])))))), lambda *k: True))
        return h
    if name == "in_degree" or name == "out_degree": raise Unsupported("degree")
    if name == "number_of_nodes": return it.length(NodesView(g))
    raise Unsupported("graph method %s" % name)


# ---------------------------------------------------------------- dispatch
def method(it, o, name, a, kw):
    f = it.force
    o = f(o)
    if isinstance(o, SGraph): return graph_method(it, o, name, a, kw)
    if isinstance(o, NodesView): 
        if name == "__call__": return o
    if isinstance(o, SList): return list_method(it, o, name, a, kw)
    if isinstance(o, SDict): return dict_method(it, o, name, a, kw)
    if isinstance(o, AttrView):
        if name == "get":
            k = it.conststr(f(a[0])); cell = o.g.st.attr(o.which, k)
            if it.ctx.branch(it.hasmap(cell, o.g.ids + o.key)): return it.getmap(cell, o.g.ids + o.key)
            return a[1] if len(a) > 1 else None
        if name == "setdefault":
            k = it.conststr(f(a[0])); key = o.g.ids + o.key; cell = o.g.st.attr(o.which, k); h = it.hasmap(cell, key); v = f(a[1]) if len(a) > 1 else None
            d = it.ctx.decide(h) if not isinstance(h, bool) else h
            if d is None and not isinstance(v, (SList, SDict)): it.putmap(cell, key, v, True, (), NOT(h))
            elif d is None and not it.ctx.branch(h) or d is False: it.setitem(o, k, v)
            return it.getmap(cell, key)
        if name == "update":
            for k, v in kw.items(): it.setitem(o, k, v)
            if a: raise Unsupported("update with a dict")
            return None
    if isinstance(o, (str, OpaqueStr)):
        if name == "format": return OpaqueStr(norm_tpl(o) if isinstance(o, str) else o.args[0], *[it.fmtarg(x) for x in a])
        if name in ("startswith", "endswith") and isinstance(o, OpaqueStr): return it.contains(f(a[0]), o)
    if isinstance(o, LProb):
        if name in ("solve", "resolve"):
            it.ctx.set(o.solved, ("solved", Serial.next())); it.ctx.write(o.solved, ()); return None
        if name == "setObjective": it.ctx.write(o.obj, ()); it.ctx.set(o.obj, f(a[0])); return None
        if name == "writeLP": return None
    if isinstance(o, ProbConstraints) and name in ("items", "keys", "values"):
        row = lambda p: RowRef(o.prob, p.elem.args[0], p.elem.args[1:])
        return it.Bag([Part(p.bs, p.guard, {"items": lambda: (p.elem, row(p)), "keys": lambda: p.elem, "values": lambda: row(p)}[name]()) for p in row_names(it, o.prob)])
    if isinstance(o, (LVar,)) and name == "value": return value_of(it, o)
    if isinstance(o, Lin) and name == "value": return objective_value(it, o)
    if isinstance(o, RowVar) and name == "addVariable":
        x = f(a[0]); c = f(a[1])
        if not isinstance(x, LVar): raise Unsupported("variable of a row")
        it.ctx.write(it.lp.added, None); it.ctx.set(it.lp.added, it.lp.added.v + (Part([], True, (o, x, c)),)); return None
    if isinstance(o, RowVar) and name == "value": return objective_value(it, o)
    if isinstance(o, AnyObj):
        h = getattr(it, "anymethod", None)
        if h: return h(it, o, name, a, kw)
    if isinstance(o, it.Bag):
        if name == "add": o.parts = o.parts + [Part([], True, a[0])]; return None
    raise Unsupported("method %s of %r" % (name, o))


def value_of(it, v):
    h = getattr(it, "none_values", None)
    if h is not None: return h(v)
    return value(v)


def objective_value(it, o):
    if not hasattr(it, "objval"): it.objval = {}
    if id(o) not in it.objval: it.objval[id(o)] = (o, SUnion(it.ctx.fresh("no_objective_value", BOOL), None, it.ctx.fresh("objective_value", REAL)))
    return it.objval[id(o)][1]


def list_method(it, o, name, a, kw):
    f = it.force
    if name == "append":
        it.ctx.write(o.c, None); it.ctx.set(o.c, o.c.v + (Part([], True, a[0]),)); it.writeback(o); return None
    if name == "extend":
        it.ctx.write(o.c, None); it.ctx.set(o.c, o.c.v + tuple(it.parts(a[0]))); it.writeback(o); return None
    if name == "insert" and f(a[0]) == 0:
        it.ctx.write(o.c, None); it.ctx.read(o.c, None); it.ctx.set(o.c, (Part([], True, a[1]),) + o.c.v); it.writeback(o); return None
    if name == "remove":
        x = f(a[0])
        it.ctx.read(o.c, None); it.ctx.write(o.c, None)
        if not it.ctx.branch(it.contains(x, o)): raise PyRaise("ValueError")
        out = []
        for p in o.c.v:
            if not p.uniq and p.bs: raise Unsupported("removal from a list with repetitions")
            out.append(Part(p.bs, AND(p.guard, NOT(it.equal(p.elem, x))), p.elem, None, p.uniq))
        it.ctx.set(o.c, tuple(out)); it.writeback(o); return None
    if name == "copy": it.ctx.read(o.c, None); return SList(o.c.v)
    if name == "index" or name == "count": raise Unsupported("list.%s" % name)
    if name == "sort": raise Unsupported("list.sort")
    raise Unsupported("list method %s" % name)


def dict_method(it, o, name, a, kw):
    f = it.force
    if name == "get":
        k = f(a[0]); k = k if isinstance(k, tuple) else (k,)
        if it.ctx.branch(it.hasmap(o.c, k)): return it.getmap(o.c, k)
        return a[1] if len(a) > 1 else None
    if name == "keys": return o
    if name in ("values", "items"):
        it.ctx.read(o.c, None)
        out = []
        for p in o.keyparts():
            k = p.elem if isinstance(p.elem, tuple) else (p.elem,)
            v = o.c.v.get(tuple(scal(x) for x in k), it.ctx) if not p.bs else under(it, p, lambda: o.c.v.get(k, it.ctx))
            out.append(Part(p.bs, p.guard, v if name == "values" else (p.elem, v), None, p.uniq and name == "items"))
        return it.Bag(out)
    if name == "update":
        x = f(a[0]) if a else None
        if isinstance(x, SDict):
            for p in x.keyparts():
                k = p.elem if isinstance(p.elem, tuple) else (p.elem,)
                v = under(it, p, lambda: x.c.v.get(k, it.ctx))
                it.putmap(o.c, k, v, True, p.bs, p.guard)
            return None
    if name == "pop":
        k = f(a[0]); k = k if isinstance(k, tuple) else (k,)
        v = it.getmap(o.c, k); it.putmap(o.c, k, None, False); return v
    if name == "setdefault":
        k = f(a[0]); k = k if isinstance(k, tuple) else (k,)
        if it.ctx.branch(it.hasmap(o.c, k)): return it.orig(it.getmap(o.c, k), o.c, k, o)
        it.putmap(o.c, k, a[1]); return it.orig(a[1], o.c, k, o)
    raise Unsupported("dict method %s" % name)


def under(it, p, fn):
    return it.ctx.under(p.bs, p.guard, fn)


def attribute(it, o, a):
    if isinstance(o, LVar):
        if a == "varValue": return value_of(it, o)
        if a == "name": return OpaqueStr(o.tpl, *o.key)
        if a in ("upBound", "lowBound", "cat"):
            c = it.lp.cell(o.tpl, a); it.ctx.read(c, o.key)
            if it.ctx.branch(c.v.has(o.key)): return c.v.get(o.key, it.ctx)
            raise Unsupported("initial %s" % a)
        return None
    if isinstance(o, LProb):
        if a == "constraints": return ProbConstraints(o)
        if a == "status": status(it); return it.statusno
        if a == "objective": return it.rd(o.obj)
        if a == "sense": return None
    if isinstance(o, RowRef):
        if a == "pi":
            ks = [k if isz(k) else z3.IntVal(k) if isinstance(k, int) else strnode(k) for k in o.key]
            return z3.Function("pi_" + o.tpl, *([k.sort() for k in ks] + [REAL]))(*ks) if ks else z3.Const("pi_" + o.tpl, REAL)
    if isinstance(o, AnyObj):
        h = getattr(it, "anyattr", None)
        if h: return h(it, o, a)
    return None


def setattribute(it, o, a, v):
    if isinstance(o, LVar) and a in ("upBound", "lowBound", "cat"):
        it.putmap(it.lp.cell(o.tpl, a), o.key, it.force(v)); return True
    if isinstance(o, RowRef) and a == "sense":
        it.putmap(it.lp.cell(o.tpl, "row sense"), o.key, it.force(v)); return True
    if isinstance(o, LProb): return True
    if isinstance(o, AnyObj): return True
    return False


def status(it):
    """status of the (only) solved problem: its name (it.status) and its number (it.statusno)"""
    if not hasattr(it, "status"):
        it.status = it.ctx.fresh("status", NodeS); it.statusno = it.ctx.fresh("status_number", INT)
        for n, k in (("Optimal", 1), ("Not Solved", 0), ("Infeasible", -1), ("Unbounded", -2), ("Undefined", -3)): it.ctx.assume((it.status == strnode(n)) == (it.statusno == k))
        it.ctx.assume(z3.And(it.statusno >= -3, it.statusno <= 1))
    return it.status


def getitem(it, o, k):
    from .interp import ExtRef
    if isinstance(o, ProbConstraints):
        tpl, key = named(it, k)
        return RowRef(o.prob, tpl, key)
    if isinstance(o, ExtRef) and o.path.endswith("LpStatus"):
        return status(it)
    if isinstance(o, AnyObj):
        h = getattr(it, "anyitem", None)
        if h: return h(it, o, k)
    raise Unsupported("subscript of %r" % (o,))


def setitem(it, o, k, v):
    if isinstance(o, AnyObj):
        h = getattr(it, "anyset", None)
        if h: h(it, o, k, v); return True
    return False


def row_names(it, prob):
    """names of the rows of a problem, as parts of OpaqueStr"""
    out = []
    it.ctx.read(prob.rows, None)
    for p in prob.rows.v:
        e = p.elem
        if isinstance(e, RowVar): out.append(Part(p.bs, p.guard, OpaqueStr(e.tpl, *e.key)))
        elif e.name is not None: out.append(Part(p.bs, p.guard, OpaqueStr(e.name[0], *e.name[1])))
        else: raise Unsupported("unnamed row")
    return out


def lp_constraint_var(it, a, kw):
    name = it.force(arg(a, kw, 0, "name")); sense = it.force(arg(a, kw, 1, "sense")); rhs = arg(a, kw, 2, "rhs")
    tpl, key = named(it, name)
    return RowVar(tpl, key, sense, it.force(rhs) if rhs is not None else 0)


def pulp_value(it, a, kw):
    x = it.force(a[0])
    if isinstance(x, LVar): return value_of(it, x)
    if x is None: return None
    if isnum(x): return x
    if isinstance(x, (Lin, RowVar)): return objective_value(it, x)
    raise Unsupported("pulp.value")


def install(it):
    it.lp = LPState()
    E = it.ext
    for n, fn in dict(len=b_len, range=b_range, list=b_list, tuple=b_tuple, set=b_set, dict=b_dict, sum=b_sum, any=b_any, all=b_all, zip=b_zip, enumerate=b_enumerate, isinstance=b_isinstance,
                      int=b_int, float=b_float, round=b_round, abs=b_abs, str=b_str, sorted=b_sorted).items(): E["builtins." + n] = fn
    E["builtins.max"] = lambda i, a, kw: extremum(i, a, kw, True)
    E["builtins.min"] = lambda i, a, kw: extremum(i, a, kw, False)
    E["builtins.bool"] = lambda i, a, kw: i.truth(a[0])
    E["builtins.frozenset"] = b_set
    E["builtins.iter"] = lambda i, a, kw: a[0]
    for pre in ("networkx.", "nx."):
        E[pre + "DiGraph"] = nx_digraph; E[pre + "add_path"] = nx_add_path; E[pre + "shortest_path"] = nx_shortest_path; E[pre + "has_path"] = nx_has_path
        E[pre + "negative_edge_cycle"] = nx_negcycle; E[pre + "shortest_path_length"] = nx_splen
        E[pre + "shortest_simple_paths"] = nx_simple_paths; E[pre + "compose_all"] = nx_compose_all
    E["pulp.LpProblem"] = lambda i, a, kw: LProb(a[0] if a and isinstance(a[0], str) else "prob")
    E["pulp.LpVariable"] = lp_variable; E["pulp.LpVariable.dicts"] = lp_dicts; E["pulp.LpConstraintVar"] = lp_constraint_var
    E["pulp.lpSum"] = lp_sum; E["pulp.value"] = pulp_value
    for n in ("PULP_CBC_CMD", "CPLEX_CMD", "GUROBI"): E["pulp." + n] = lambda i, a, kw: AnyObj("solver")
    E["time.time"] = lambda i, a, kw: i.ctx.fresh("time", REAL)
    E["math.floor"] = lambda i, a, kw: b_floor(i, a, kw)
    E["cspy.REFCallback.__init__"] = lambda i, a, kw: None
    E["numpy.zeros"] = E["np.zeros"] = np_zeros
    E["random.choice"] = b_choice
    E["itertools.islice"] = b_islice


def np_zeros(it, a, kw):
    n = it.force(a[0])
    if len(a) > 1 or kw: raise Unsupported("numpy.zeros with options")
    if isinstance(n, int): return NArr([Part([], True, z3.RealVal(0)) for _ in range(n)])
    return NArr([seqpart(n, lambda i: z3.RealVal(0))])


def b_floor(it, a, kw):
    x = it.force(a[0])
    if isinstance(x, (int, float)):
        import math
        return math.floor(x)
    return z3.ToInt(real(x))


CONSTS = {"pulp.LpBinary": "Binary", "pulp.LpInteger": "Integer", "pulp.LpContinuous": "Continuous", "pulp.LpConstraintLE": "LE", "pulp.LpConstraintGE": "GE", "pulp.LpConstraintEQ": "EQ", "pulp.LpMinimize": 1, "pulp.LpMaximize": -1}
