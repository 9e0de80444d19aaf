"""pyvc core: symbolic values, the undo-logged heap, path exploration.

Numbers are mathematical reals (z3 Real; lengths, indices and range() values are
Int).  Every symbol created inside a loop body is a function of the loop
variables in scope, so that a body run for one arbitrary element can be
generalised to all of them."""
import itertools, time
import z3

NodeS = z3.DeclareSort("Node")
_names, _nameids = {}, set()


def strnode(s):
    if s not in _names: _names[s] = z3.Const("node_" + s, NodeS); _nameids.add(_names[s].get_id())
    return _names[s]


SRC, SNK = strnode("Source"), strnode("Sink")


CUR = [None]      # the running session: symbols are reused when a path prefix is replayed


def fresh_const(sort, name="x"):
    c = CUR[0]
    if c is None or not c.frames: return z3.FreshConst(sort, name)
    return c.gensym(("c", sort.name(), name), lambda: z3.FreshConst(sort, name))


def fresh_fn(*sorts):
    c = CUR[0]
    if c is None or not c.frames: return z3.FreshFunction(*sorts)
    return c.gensym(("f",) + tuple(x.name() for x in sorts), lambda: z3.FreshFunction(*sorts))


class Unsupported(Exception): pass


class PyRaise(Exception):
    def __init__(self, kind, msg=""):
        self.kind, self.msg = kind, msg
        Exception.__init__(self, kind, msg)


class Infeasible(Exception): pass


def isz(x): return isinstance(x, z3.ExprRef)
def isbool(x): return isinstance(x, bool) or (isz(x) and z3.is_bool(x))
def isnum(x): return (isinstance(x, (int, float)) and not isinstance(x, bool)) or (isz(x) and z3.is_arith(x))
def isnode(x): return isz(x) and x.sort() == NodeS


def num(x):
    """-> z3 arithmetic term"""
    if isinstance(x, bool): return z3.RealVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float): return z3.RealVal(repr(x)) if x == x and abs(x) != float("inf") else _u("inf")
    if isz(x) and z3.is_bool(x): return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if isz(x) and z3.is_arith(x): return x
    if isinstance(x, DynNum): return x.term
    raise Unsupported("number expected, got %r" % (x,))


def _u(m): raise Unsupported(m)


def real(x):
    x = num(x)
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


def B(x):
    """python/z3 bool -> z3 Bool"""
    return z3.BoolVal(x) if isinstance(x, bool) else x


def NOT(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def AND(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
            continue
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        out.append(x)
    return True if not out else out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
            continue
        if z3.is_true(x): return True
        if z3.is_false(x): continue
        out.append(x)
    return False if not out else out[0] if len(out) == 1 else z3.Or(*out)


def IMP(a, b): return OR(NOT(a), b)


def forall(bs, f):
    if isinstance(f, bool) or not bs: return f
    return z3.ForAll(list(bs), f)


def exists(bs, f):
    if isinstance(f, bool) or not bs: return f
    # one-point rule: exists b. b = t and rest(b)
    bs = list(bs)
    changed = True
    while changed:
        changed = False
        conj = list(f.children()) if z3.is_and(f) else [f]
        for c in conj:
            if z3.is_eq(c):
                for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    k = next((b for b in bs if b.eq(l)), None)
                    if k is not None and not occurs(k, r):
                        rest = [x for x in conj if x is not c]
                        f = z3.substitute(z3.And(*rest), (k, r)) if len(rest) > 1 else (z3.substitute(rest[0], (k, r)) if rest else z3.BoolVal(True))
                        bs = [b for b in bs if b is not k]; changed = True
                        break
            if changed: break
        if not bs: return f
    return z3.Exists(bs, f)


def occurs(k, t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(k): return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False


def scal(x):
    """scalar key component -> python constant or z3 term; strings become node constants"""
    if isinstance(x, str): return strnode(x)
    if isinstance(x, DynNum): return x.term
    return x


def eq(a, b):
    """equality of scalars -> bool or z3 Bool"""
    if a is b: return True
    if isinstance(a, NoneV): a = None
    if isinstance(b, NoneV): b = None
    if isinstance(a, DynNum): a = a.term
    if isinstance(b, DynNum): b = b.term
    if isinstance(a, tuple) and isinstance(b, tuple):
        return AND(*[eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if isz(a) or isz(b):
        if isinstance(a, str) and isnode(b): a = strnode(a)
        if isinstance(b, str) and isnode(a): b = strnode(b)
        if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)): return False
        if isbool(a) and isbool(b): return B(a) == B(b)
        if isnum(a) and isnum(b):
            a, b = num(a), num(b)
            if a.eq(b): return True
            r = z3.simplify(a == b)
            return True if z3.is_true(r) else False if z3.is_false(r) else (a == b)
        if isnode(a) and isnode(b):
            if a.eq(b): return True
            if a.get_id() in _nameids and b.get_id() in _nameids: return False
            return a == b
        if isz(a) and isz(b) and a.sort() == b.sort(): return True if a.eq(b) else a == b
        return False
    if isinstance(a, (int, float, str, type(None), bool)) and isinstance(b, (int, float, str, type(None), bool)): return a == b
    if isinstance(a, (int, float, str, type(None), bool)) or isinstance(b, (int, float, str, type(None), bool)):
        return False
    raise Unsupported("equality of %r and %r" % (a, b))


class NoneV: pass


class DynNum:
    """a number together with the information whether it is a python int"""
    def __init__(s, term, isint): s.term, s.isint = term, isint


class SUnion:
    """one of two values; operations fork on the condition"""
    def __init__(s, cond, a, b): s.cond, s.a, s.b = cond, a, b


class Lazy:
    """value decided by forking when first looked at"""
    def __init__(s, make): s.make = make


class Poison:
    def __init__(s, why): s.why = why


class OpaqueStr:
    """a formatted string; never inspected"""
    def __init__(s, *a): s.args = a


def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isbool(a) and isbool(b): return z3.If(c, B(a), B(b))
    if isinstance(a, DynNum) and isinstance(b, DynNum): return DynNum(ite(c, a.term, b.term), ite(c, a.isint, b.isint))
    if isnum(a) and isnum(b):
        x, y = num(a), num(b)
        if x.sort() != y.sort(): x, y = real(x), real(y)
        return x if x.eq(y) or z3.simplify(x).eq(z3.simplify(y)) else z3.If(c, x, y)
    if isinstance(a, (str,)) and isnode(b): a = strnode(a)
    if isinstance(b, (str,)) and isnode(a): b = strnode(b)
    if isinstance(a, str) and isinstance(b, str) and a == b: return a
    if isz(a) and isz(b) and a.sort() == b.sort(): return a if a.eq(b) else z3.If(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return tuple(ite(c, x, y) for x, y in zip(a, b))
    if hasattr(a, "merge") and type(a) is type(b):
        m = a.merge(c, b)
        if m is not None: return m
    return SUnion(c, a, b)


class Serial:
    n = 0; base = 0; reg = {}      # cells of the current path by serial number (see Interp.modified)
    @staticmethod
    def next():
        Serial.n += 1
        return Serial.n


class Cell:
    __slots__ = ("v", "name", "serial", "pts", "peers", "rows")      # peers: cells of shallow copies, whose stored lists are the same objects
    def __init__(s, v, name=""): s.v, s.name, s.serial, s.pts, s.peers, s.rows = v, name, Serial.next(), None, (), None; Serial.reg[s.serial] = s


# ---------------------------------------------------------------- substitution
def subst(v, m, memo=None):
    """deep substitution of z3 constants; objects are copied (frozen)"""
    if not m: return v
    memo = {} if memo is None else memo
    if isz(v): return z3.substitute(v, *m)
    if v is None or isinstance(v, (int, float, str, bool)): return v
    if isinstance(v, tuple): return tuple(subst(x, m, memo) for x in v)
    if isinstance(v, list): return [subst(x, m, memo) for x in v]
    if id(v) in memo: return memo[id(v)][1]
    if getattr(v, "serial", 1 << 60) < memo.get("from", 0): return v
    if isinstance(v, DynNum): r = DynNum(subst(v.term, m), subst(v.isint, m))
    elif isinstance(v, SUnion): r = SUnion(subst(v.cond, m), subst(v.a, m, memo), subst(v.b, m, memo))
    elif isinstance(v, OpaqueStr): r = OpaqueStr(*[subst(x, m, memo) for x in v.args])
    elif isinstance(v, (Poison, Lazy)): r = v
    elif hasattr(v, "subst"): return v.subst(m, memo)
    else: raise Unsupported("substitution in %r" % (v,))
    memo[id(v)] = (v, r)
    return r


class Upd:
    """a guarded bulk update: for all binders with guard: map[key] = val (val None: removed)"""
    __slots__ = ("bs", "guard", "key", "val", "present", "item", "group")      # item: one element of the list stored under key[:-1]; group: val is appended to the list stored under key
    def __init__(s, bs, guard, key, val, present=True, item=False, group=False): s.bs, s.guard, s.key, s.val, s.present, s.item, s.group = tuple(bs), guard, key, val, present, item, group

    def subst(s, m, memo):
        bs2 = [b for b in s.bs]
        return Upd(bs2, subst(s.guard, m), tuple(subst(k, m) for k in s.key), subst(s.val, m, memo), s.present, s.item, s.group)


def match(upd, key):
    """-> (condition, instantiated value) under which upd writes key"""
    if len(upd.key) != len(key): return False, None
    m, used = [], set()
    for p, k in zip(upd.key, key):
        if isz(p):
            for b in upd.bs:
                if b.eq(p) and b.get_id() not in used:
                    kk = scal(k)
                    if isz(kk) and kk.sort() == b.sort() or (isinstance(kk, int) and b.sort() == z3.IntSort()):
                        m.append((b, kk if isz(kk) else z3.IntVal(kk))); used.add(b.get_id())
                    else: return False, None
                    break
            if p.sort() == z3.IntSort() and z3.is_app(p) and p.num_args():      # b + c
                kk = scal(k)
                for b in upd.bs:
                    if b.get_id() in used or b.sort() != z3.IntSort() or not occurs(b, p) or not (isinstance(kk, int) or isz(kk) and kk.sort() == z3.IntSort()): continue
                    r = z3.simplify(p - b)
                    if not any(occurs(x, r) for x in upd.bs): m.append((b, z3.simplify(kk - r))); used.add(b.get_id()); break
            if p.sort().kind() == z3.Z3_DATATYPE_SORT and p.sort().num_constructors() == 1 and p.decl().eq(p.sort().constructor(0)) and isz(scal(k)) and scal(k).sort() == p.sort():
                for j, a in enumerate(p.children()):
                    for b in upd.bs:
                        if b.eq(a) and b.get_id() not in used: m.append((b, z3.simplify(p.sort().accessor(0, j)(scal(k))))); used.add(b.get_id())
    rest = [b for b in upd.bs if b.get_id() not in used]
    for b in list(rest):      # determined by the guard
        t = point(b, B(subst(upd.guard, m)))
        if t is not None and not any(occurs(r, t) for r in rest): m.append((b, t)); rest = [r for r in rest if not r.eq(b)]
    if rest:      # rename apart
        rn = [(b, fresh_const(b.sort(), "w")) for b in rest]
        m = m + rn; rest = [x[1] for x in rn]
    conds = [subst(upd.guard, m)]
    for p, k in zip(upd.key, key):
        conds.append(eq(subst(p, m), scal(k) if isinstance(k, str) else k))
    c = AND(*conds)
    if c is False: return False, None
    if rest:
        v = subst(upd.val, m)
        if (isz(v) and not any(occurs(r, v) for r in rest)) or v is None or isinstance(v, (int, float, str, bool)):
            return exists(rest, c), v
        return exists(rest, c), Choice(rest, c, v)
    return c, subst(upd.val, m)


class Choice:
    """value of the (some) instance of a bulk update with that key"""
    def __init__(s, bs, cond, val): s.bs, s.cond, s.val = bs, cond, val


class FMap:
    """persistent map: base + updates (newest last)"""
    def __init__(s, base, ups=()): s.base, s.ups = base, tuple(ups)

    def put(s, key, val, bs=(), guard=True, present=True, item=False): return FMap(s.base, s.ups + (Upd(bs, guard, key, val, present, item),))

    def has(s, key):
        r = s.base.has(key)
        for u in s.ups:
            if u.item: continue
            c, _ = match(u, key)
            r = OR(c, r) if u.present else AND(NOT(c), r)
        return r

    def get_items(s, key, ctx):
        """lists with element updates"""
        r = s.base.get(key) if not isinstance(s.base, EmptyBase) else None
        seen = s.base.has(key)
        for u in s.ups:
            if u.group:
                if len(u.key) != len(key): continue
                m = [(b, fresh_const(b.sort(), "g")) for b in u.bs]
                c = AND(subst(u.guard, m), *[eq(subst(a, m), scal(k) if isinstance(k, str) else k) for a, k in zip(u.key, key)])
                if c is False: continue
                if not isinstance(r, tuple):
                    d = ctx.decide(B(seen))
                    if d is None: raise Unsupported("list that may be absent")
                    r = r.c.v if d else ()
                r = r + (Part([x[1] for x in m], B(c), subst(u.val, m), None),)
            elif u.item:
                if len(u.key) != len(key) + 1: continue
                pre = AND(*[True if any(isz(b) and b.eq(x) for b in u.bs) else eq(x, scal(k) if isinstance(k, str) else k) for x, k in zip(u.key, key)])
                if pre is False: continue
                r = r.items_updated(u, key, ctx) if hasattr(r, "items_updated") else _u("element of something that is not a list")
            else:
                c, v = match(u, key)
                if c is False: continue
                if c is not True:
                    d = ctx.decide(c)
                    if d is False: continue
                    if d is True: c = True
                if isinstance(v, Choice): raise Unsupported("undetermined instance of a bulk update")
                if not u.present: continue
                if isinstance(r, tuple): raise Unsupported("list replaced after elements were added")
                if c is not True: seen = OR(c, seen)
                r = v if c is True or r is None else ite(c, v, r)
        if r is None: raise Unsupported("value of an absent key")
        return mklist(r) if isinstance(r, tuple) else r

    def get(s, key, ctx):
        if any(u.item or u.group for u in s.ups): return s.get_items(key, ctx)
        r = None; got = False
        stack = []
        for u in reversed(s.ups):
            c, v = match(u, key)
            if c is False: continue
            if c is not True:
                d = ctx.decide(c) if not (isz(v)) else None
                if d is False: continue
                if d is True: c = True
            if not u.present:
                if c is True: break
                continue
            if isinstance(v, Choice):
                if c is True or ctx.decide(c):
                    w = [ctx.fresh("sel", b.sort()) for b in v.bs]
                    m = list(zip(v.bs, w))
                    ctx.assume(subst(v.cond, m))
                    stack.append((True, subst(v.val, m))); break
                raise Unsupported("undetermined instance of a bulk update")
            stack.append((c, v))
            if c is True: break
        else:
            b = s.base.get(key)
            if b is not None: stack.append((True, b))
        if not stack: raise Unsupported("value of an absent key")
        r = stack[-1][1]
        for c, v in reversed(stack[:-1]): r = ite(c, v, r)
        return r

    def subst(s, m, memo): return FMap(s.base.subst(m, memo) if hasattr(s.base, "subst") else s.base, [u.subst(m, memo) for u in s.ups])


def mklist(ps):
    from .objs import SList
    return SList(ps)


class EmptyBase:
    def has(s, key): return False
    def get(s, key): return None


class FnBase:
    """base given by python functions of the key"""
    def __init__(s, has, get): s._h, s._g = has, get
    def has(s, key): return s._h(*[scal(k) for k in key])
    def get(s, key): return s._g(*[scal(k) for k in key])
    def subst(s, m, memo):
        return FnBase(lambda *k: subst(s._h(*k), m), lambda *k: subst(s._g(*k), m))


# ---------------------------------------------------------------- collections
class Part:
    """elements elem(bs) for all bs with guard.  n not None: an indexed sequence
    with binder bs[0] running over 0..n-1 in order"""
    __slots__ = ("bs", "guard", "elem", "n", "uniq")
    def __init__(s, bs, guard, elem, n=None, uniq=False): s.bs, s.guard, s.elem, s.n, s.uniq = tuple(bs), guard, elem, n, uniq

    def fresh(s):
        m = [(b, fresh_const(b.sort(), "b")) for b in s.bs]
        return Part([x[1] for x in m], subst(s.guard, m), subst(s.elem, m), s.n, s.uniq)

    def subst(s, m, memo=None):
        return Part(s.bs, subst(s.guard, m), subst(s.elem, m, memo), subst(s.n, m) if s.n is not None else None, s.uniq)


def seqpart(n, fn, name="i"):
    i = fresh_const(z3.IntSort(), name)
    return Part([i], AND(i >= 0, i < num(n)), fn(i), n)


class SumReg:
    """registry of symbolic finite sums: application -> definition"""
    def __init__(s): s.defs = {}        # func name -> (params, bs, guard, body)


def ops_of(e): return e.decl().kind() if isz(e) and z3.is_app(e) else None


def int_range(b, g):
    """concrete half-open range of b implied by the conjuncts of g, or None"""
    lo = hi = None
    st = [z3.simplify(g)]
    while st:
        c = st.pop()
        if z3.is_and(c): st += c.children(); continue
        neg = z3.is_not(c)
        if neg: c = c.arg(0)
        if not z3.is_app(c) or len(c.children()) != 2: continue
        k = c.decl().kind(); x, y = c.children()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): continue
        if y.eq(b) and z3.is_int_value(x): x, y = y, x; k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
        if not (x.eq(b) and z3.is_int_value(y)): continue
        v = y.as_long()
        if neg: k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}[k]
        if k == z3.Z3_OP_GE: lo = v if lo is None else max(lo, v)
        elif k == z3.Z3_OP_GT: lo = v + 1 if lo is None else max(lo, v + 1)
        elif k == z3.Z3_OP_LT: hi = v if hi is None else min(hi, v)
        else: hi = v + 1 if hi is None else min(hi, v + 1)
    return (lo, max(lo, hi)) if lo is not None and hi is not None else None


def point(b, g):
    """t with g => b = t, from the conjuncts of g"""
    st = [g]
    while st:
        c = st.pop()
        if z3.is_and(c): st += c.children(); continue
        if z3.is_eq(c):
            for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if l.eq(b) and not occurs(b, r): return r
            if b.sort() == z3.IntSort() and c.arg(0).sort() == z3.IntSort() and occurs(b, c):      # b + t1 = t2
                d = c.arg(0) - c.arg(1); k = z3.simplify(z3.substitute(d, (b, b + 1)) - d)
                if z3.is_int_value(k) and k.as_long() in (1, -1): return z3.simplify(-k.as_long() * z3.substitute(d, (b, z3.IntVal(0))))
    return None


class Frame:
    def __init__(s): s.dec, s.pos, s.alts, s.cnt, s.ser = [], 0, [], 0, 0


class Stop(Exception): pass


def conjuncts(f):
    if z3.is_and(f): return [x for c in f.children() for x in conjuncts(c)]
    return [f]


def repetition(b, guard, body):
    """guard = rest and 0 <= b < n with b nowhere else -> (n, rest)"""
    if b.sort() != z3.IntSort() or occurs(b, body): return None
    cs = conjuncts(guard); mine = [c for c in cs if occurs(b, c)]
    lo = hi = None
    for c in mine:
        neg = z3.is_not(c); a = c.arg(0) if neg else c
        if not z3.is_app(a) or len(a.children()) != 2: return None
        x, y = a.children(); k = a.decl().kind()
        if neg: k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
        if y.eq(b): x, y = y, x; k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k)
        if not x.eq(b): return None
        if k == z3.Z3_OP_GE and z3.is_int_value(y) and y.as_long() == 0 and lo is None: lo = 0
        elif k == z3.Z3_OP_LT and hi is None: hi = y
        elif k == z3.Z3_OP_LE and hi is None: hi = y + 1
        else: return None
    if lo is None or hi is None: return None
    rest = [c for c in cs if not occurs(b, c)]
    return hi, (z3.And(*rest) if rest else z3.BoolVal(True))


class Ctx:
    """one verification session of one contract"""
    def __init__(s, timeout=4000, budget=60):
        s.pc = []; s.trail = []; s.frames = []; s.binders = []; s.acc = None
        s.sums = {}; s.results = {}; s.timeout = timeout; s.axioms = []; s.taint = None
        s.solver_time = 0.0; s.queries = 0; s.assumptions = set(); s.deadline = time.time() + budget
        s.paths = 0; s.memo = {}; s.notes = []; s.hints = []; s.backends = {}
        s.memo_dec = {}; s.syms = {}; CUR[0] = s

    def gensym(s, kind, make):
        fr = s.frames[-1]
        key = (tuple((f.ser, tuple(f.dec[:f.pos])) for f in s.frames), fr.cnt, kind); fr.cnt += 1
        if key not in s.syms: s.syms[key] = make()
        return s.syms[key]

    # --- fresh symbols (functions of the loop variables in scope)
    def fresh(s, name, sort):
        if not s.binders: return fresh_const(sort, name)
        f = fresh_fn(*([b.sort() for b in s.binders] + [sort]))
        return f(*s.binders)

    # --- heap
    def set(s, cell, v):
        if cell.rows is False: raise Unsupported("a row changed through a reference of its own")
        s.trail.append((cell, cell.v)); cell.v = v

    def mark(s): return len(s.trail)

    def undo(s, mark):
        while len(s.trail) > mark:
            c, v = s.trail.pop(); c.v = v

    def read(s, cell, key):
        if s.acc is not None: s.acc.append(("r", cell, key, tuple(s.pc), tuple(s.binders)))

    def write(s, cell, key):
        if s.acc is not None: s.acc.append(("w", cell, key, tuple(s.pc), tuple(s.binders)))

    # --- logic
    def assume(s, f):
        if f is True: return
        if f is False: raise Infeasible()
        f = f.__class__(f.as_ast(), f.ctx); f.fact = True      # a fact about symbols just introduced, not a case distinction
        s.pc.append(f)

    def cond(s, f):
        """a case distinction of the current path"""
        if f is True: return
        if f is False: raise Infeasible()
        s.pc.append(f)

    def split(s, base):
        """path condition since base -> (conditions, facts)"""
        return [q for q in s.pc[base:] if not getattr(q, "fact", False)], [q for q in s.pc[base:] if getattr(q, "fact", False)]

    def lift(s, bs, cases):
        """facts stated inside a generalised body hold for every element: cases = [(conditions, facts)]"""
        for cs, fs in cases:
            if fs: s.assume(forall(bs, z3.Implies(z3.And(*[B(c) for c in cs]) if cs else z3.BoolVal(True), z3.And(*fs) if len(fs) > 1 else fs[0])))

    def under(s, bs, guard, fn):
        """value of fn() for arbitrary bs with guard: cases are merged with if-then-else"""
        base = len(s.pc); out = []
        def run():
            s.binders += list(bs); s.cond(guard if isinstance(guard, bool) else guard)
            return fn()
        for kind, r in s.explore(run):
            if kind == "raise": raise Unsupported("exception inside a bulk value")
            cs, fs = s.split(base)
            out.append((cs, fs, r))
        s.lift(bs, [(cs, fs) for cs, fs, _ in out])
        if not out: raise Infeasible()
        v = out[-1][2]
        for cs, _, r in reversed(out[:-1]): v = ite(AND(*cs), r, v)
        return v

    def base_axioms(s):
        ns = list(_names.values())
        return ([z3.Distinct(*ns)] if len(ns) > 1 else []) + s.axioms

    def check(s, fs, timeout=None, seed=0, retry=()):
        """retry: further attempts (seeds) when the solver gives up"""
        if retry:
            r, sv = s.check(fs, timeout, seed)
            return (r, sv) if r != z3.unknown else s.check(fs, timeout, retry[0], retry[1:])
        if time.time() > s.deadline: raise Stop("contract budget exhausted")
        sv = z3.Solver(); sv.set("timeout", timeout or s.timeout)
        if seed: sv.set("random_seed", seed)
        for f in s.base_axioms() + list(fs): sv.add(f)
        t = time.time(); r = sv.check(); s.solver_time += time.time() - t; s.queries += 1
        return r, sv

    def decide(s, c, timeout=1500):
        """True / False / None under the path condition"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        key = (c.get_id(), tuple(p.get_id() for p in s.pc))
        if key in s.memo_dec: return s.memo_dec[key][0]
        r, _ = s.check(s.pc + [z3.Not(c)], timeout)
        out = None
        if r == z3.unsat: out = True
        else:
            r2, _ = s.check(s.pc + [c], timeout)
            if r2 == z3.unsat: out = False
        s.memo_dec[key] = (out, c, list(s.pc))
        return out

    def branch(s, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        d = s.decide(c)
        if d is not None: return d
        v = s.choose(2) == 0
        s.pc.append(c if v else z3.simplify(z3.Not(c)))
        return v

    def choose(s, n):
        f = s.frames[-1]
        if f.pos < len(f.dec): v = f.dec[f.pos]
        else: f.dec.append(0); f.alts.append(n); v = 0
        f.pos += 1; f.cnt = 0
        return v

    def explore(s, fn):
        """runs fn once per decision sequence; yields (result or exception, pc delta, mark) before undoing"""
        f = Frame(); f.ser = 0
        if s.frames: f.ser = s.frames[-1].cnt; s.frames[-1].cnt += 1
        s.frames.append(f)
        base = len(s.pc); mark = s.mark(); nb = len(s.binders)
        out = []
        try:
            while True:
                f.pos = 0; f.cnt = 0
                if len(s.frames) == 1: Serial.base = Serial.n; Serial.reg = {}
                try:
                    r = ("ok", fn())
                except Infeasible: r = None
                except PyRaise as e: r = ("raise", e)
                if r is not None: yield r
                s.paths += 1
                if s.paths > 6000: raise Stop("too many paths")
                del s.pc[base:]; s.undo(mark); del s.binders[nb:]
                while f.dec and f.dec[-1] + 1 >= f.alts[-1]: f.dec.pop(); f.alts.pop()
                if not f.dec: return
                f.dec[-1] += 1
        finally:
            del s.pc[base:]; s.undo(mark); del s.binders[nb:]
            s.frames.remove(f)

    # --- sums
    def sum(s, bs, guard, body):
        """sum of body over bs with guard; split into monomials, constants pulled out"""
        if guard is False: return z3.RealVal(0)
        body = real(body); guard = B(guard)
        if not bs:
            return z3.If(guard, body, z3.RealVal(0)) if not z3.is_true(guard) else body
        if len(bs) == 1 and bs[0].sort() == z3.IntSort():
            r = int_range(bs[0], guard)
            if r and r[1] - r[0] <= 8:      # a short concrete range is written out
                return z3.Sum([z3.RealVal(0)] + [z3.If(z3.substitute(guard, (bs[0], z3.IntVal(i))), z3.substitute(body, (bs[0], z3.IntVal(i))), z3.RealVal(0)) for i in range(r[0], r[1])])
        bs = list(bs)
        for b in bs:        # one-point rule
            t = point(b, guard)
            if t is not None and not any(occurs(x, t) for x in bs):
                m = (b, t)
                return s.sum([x for x in bs if x is not b], z3.simplify(z3.substitute(guard, m)), z3.substitute(body, m))
        for b in bs:        # repetition: b only counts 0 <= b < n
            n = repetition(b, guard, body)
            if n is not None and not occurs(b, n[0]):
                rest = [x for x in bs if x is not b]
                pos = s.under(rest, n[1], lambda: s.decide(n[0] >= 0))
                return s.sum(rest, n[1], (z3.ToReal(n[0]) if pos is True else z3.If(n[0] > 0, z3.ToReal(n[0]), z3.RealVal(0))) * body)
        return s._sum(tuple(bs), guard, body)

    def _sum(s, bs, guard, body):
        k = ops_of(body)
        if k == z3.Z3_OP_ADD:
            return z3.Sum([s._sum(bs, guard, c) for c in body.children()])
        if k == z3.Z3_OP_SUB:
            ch = body.children(); r = s._sum(bs, guard, ch[0])
            for c in ch[1:]: r = r - s._sum(bs, guard, c)
            return r
        if k == z3.Z3_OP_UMINUS: return -s._sum(bs, guard, body.arg(0))
        if k == z3.Z3_OP_TO_REAL and ops_of(body.arg(0)) == z3.Z3_OP_ADD:
            return z3.Sum([s._sum(bs, guard, z3.ToReal(c)) for c in body.arg(0).children()])
        if k == z3.Z3_OP_ITE:
            c, a, b = body.children()
            return s._sum(bs, z3.And(guard, c), a) + s._sum(bs, z3.And(guard, z3.Not(c)), b)
        if k == z3.Z3_OP_MUL:
            ch = body.children()
            const = [c for c in ch if not any(occurs(b, c) for b in bs)]
            rest = [c for c in ch if any(occurs(b, c) for b in bs)]
            for n, c in enumerate(rest):       # distribute over sums
                if ops_of(c) in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE):
                    oth = rest[:n] + rest[n + 1:]
                    mul = lambda x: _prod([x] + oth)
                    kk = ops_of(c); cc = c.children()
                    if kk == z3.Z3_OP_ADD: r = z3.Sum([s._sum(bs, guard, mul(x)) for x in cc])
                    elif kk == z3.Z3_OP_UMINUS: r = -s._sum(bs, guard, mul(cc[0]))
                    elif kk == z3.Z3_OP_SUB:
                        r = s._sum(bs, guard, mul(cc[0]))
                        for x in cc[1:]: r = r - s._sum(bs, guard, mul(x))
                    else: r = s._sum(bs, z3.And(guard, cc[0]), mul(cc[1])) + s._sum(bs, z3.And(guard, z3.Not(cc[0])), mul(cc[2]))
                    return _prod(const + [r])
            if const: return _prod(const + [s._sum(bs, guard, _prod(rest))])
        if z3.is_rational_value(body) and not body.eq(z3.RealVal(1)):
            if body.numerator_as_long() == 0: return z3.RealVal(0)
            return body * s._sum(bs, guard, z3.RealVal(1))
        if not any(occurs(b, body) for b in bs) and not body.eq(z3.RealVal(1)):
            return body * s._sum(bs, guard, z3.RealVal(1))
        guard = z3.simplify(guard)
        if z3.is_false(guard): return z3.RealVal(0)
        ps = [b for b in s.binders if occurs(b, guard) or occurs(b, body)]
        for name, (ps0, bs0, g0, b0) in s.sums.items():      # reuse
            if len(ps0) == len(ps) and len(bs0) == len(bs) and all(x.sort() == y.sort() for x, y in zip(ps0 + bs0, tuple(ps) + bs)):
                m = list(zip(bs0 + ps0, bs + tuple(ps)))
                if z3.substitute(b0, *m).eq(body) and z3.substitute(g0, *m).eq(guard): return s.sumf[name](*ps) if ps else s.sumf[name]
        if ps: fn = fresh_fn(*([p.sort() for p in ps] + [z3.RealSort()])); app = fn(*ps); name = fn.name()
        else: fn = app = fresh_const(z3.RealSort(), "sum"); name = app.decl().name()
        s.sums[name] = (tuple(ps), bs, guard, body)
        if not hasattr(s, "sumf"): s.sumf = {}
        s.sumf[name] = fn
        return app

    def has_sums(s, terms):
        return bool(s.sums) and any(isz(x) and not s.sums.keys().isdisjoint(declnames(x)) for x in terms)

    def sum_axioms(s, terms, zeros=False):
        """extensionality (zeros: terms of value 0 count for nothing), shift and sign facts for the sums occurring in terms"""
        apps, seen, st = {}, set(), [x for x in terms if s.has_sums([x])]
        while st:
            x = st.pop()
            if not isz(x) or x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().name() in s.sums:
                apps[x.decl().name()] = x
                ps, bs, g, b = s.sums[x.decl().name()]
                st += [g, b]
            if z3.is_quantifier(x): st.append(x.body())
            elif z3.is_app(x): st += x.children()
        ax = []
        names = list(apps)
        def inst(n):
            ps, bs, g, b = s.sums[n]
            m = [(p, fresh_const(p.sort(), "p")) for p in ps]
            nps = [x[1] for x in m]
            return nps, bs, subst(g, m), subst(b, m), (s.sumf[n](*nps) if nps else s.sumf[n])
        for n in names:
            ps, bs, g, b, t = inst(n)
            ax.append(forall(ps, z3.Implies(forall(bs, z3.Implies(g, b >= 0)), t >= 0)))
            ax.append(forall(ps, z3.Implies(forall(bs, z3.Not(g)), t == 0)))
            if z3.is_rational_value(b) and b.numerator_as_long() > 0: ax.append(forall(list(ps) + list(bs), z3.Implies(g, t >= b)))
            else: ax.append(forall(ps, z3.Implies(forall(bs, z3.Implies(g, b >= 0)), forall(bs, z3.Implies(g, t >= b)))))
            if getattr(s, "pairs", False) and len(bs) == 1 and z3.is_rational_value(b) and b.numerator_as_long() > 0:      # two different elements
                x = fresh_const(bs[0].sort(), "x"); ax.append(forall(list(ps) + [bs[0], x], z3.Implies(z3.And(g, z3.substitute(g, (bs[0], x)), bs[0] != x), t >= 2 * b)))
        for a, c in itertools.combinations_with_replacement(names, 2):
            p1, b1, g1, e1, t1 = inst(a); p2, b2, g2, e2, t2 = inst(c)
            if a == c and not p1: continue
            for perm in itertools.permutations(range(len(b2))):
                if len(b1) != len(b2) or any(b1[i].sort() != b2[perm[i]].sort() for i in range(len(b1))): continue
                m = [(b2[perm[i]], b1[i]) for i in range(len(b1))]
                z0 = z3.RealVal(0); G2, E2 = z3.substitute(g2, *m), z3.substitute(e2, *m)
                h = forall(b1, z3.If(g1, e1, z0) == z3.If(G2, E2, z0)) if zeros else forall(b1, z3.And(g1 == G2, z3.Implies(g1, e1 == E2)))
                ax.append(forall(p1 + p2, z3.Implies(h, t1 == t2)))
            if len(b1) == len(b2) == 1 and b1[0].sort() == z3.IntSort() == b2[0].sort():
                for d in (1, -1):
                    m = [(b2[0], b1[0] + d)]
                    h = forall(b1, z3.And(g1 == z3.substitute(g2, *m), z3.Implies(g1, e1 == z3.substitute(e2, *m))))
                    ax.append(forall(p1 + p2, z3.Implies(h, t1 == t2)))
            for h_ in s.hints:    # point update: g2 = g1 + {h}
                if len(b1) == len(b2) == 1 and b1[0].sort() == b2[0].sort() == h_.sort():
                    x = b1[0]
                    for (ga, ea, ta), (gb, eb, tb) in (((g1, e1, t1), (z3.substitute(g2, (b2[0], x)), z3.substitute(e2, (b2[0], x)), t2)), ((z3.substitute(g2, (b2[0], x)), z3.substitute(e2, (b2[0], x)), t2), (g1, e1, t1))):
                        if a == c: break
                        at = lambda f: z3.substitute(f, (x, h_))
                        hy = z3.And(z3.Not(at(ga)), at(gb), forall([x], z3.Implies(x != h_, z3.And(ga == gb, z3.Implies(ga, ea == eb)))))
                        ax.append(forall(p1 + p2, z3.Implies(hy, tb == ta + at(eb))))
        return ax

    # --- obligations
    def relevant(s, fs, g):
        """the hypotheses about the LP variables the goal mentions (fewer hypotheses: still a proof), or None"""
        want = lpsyms(g); keep = []; sums = s.has_sums([g])
        for f in fs:
            x = lpsyms(f)
            if x <= want and (sums or not s.has_sums([f])): keep.append(f)
        return keep if len(keep) < len(fs) else None

    def ensure(s, name, goal, extra=()):
        """the named obligation must hold on this path"""
        st = s.results.setdefault(name, dict(paths=0, proved=0, refuted=[], unknown=[]))
        st["paths"] += 1
        if goal is True or (isz(goal) and z3.is_true(z3.simplify(goal))):
            st["proved"] += 1; s.backends["simplifier"] = s.backends.get("simplifier", 0) + 1; return True
        g = B(goal)
        fs = s.pc + list(extra) + [z3.Not(g)]
        few = s.relevant(fs[:-1], g)
        if few is not None and not getattr(s, "zeros", False) and s.check(few + [fs[-1]] + s.sum_axioms(few + [fs[-1]]))[0] == z3.unsat:
            st["proved"] += 1; s.backends["z3"] = s.backends.get("z3", 0) + 1; return True
        zf = getattr(s, "zeros", False)
        if zf and few is not None and s.check(few + [fs[-1]] + s.sum_axioms(few + [fs[-1]], True))[0] == z3.unsat:
            st["proved"] += 1; s.backends["z3"] = s.backends.get("z3", 0) + 1; return True
        f0 = fs; fs = fs + s.sum_axioms(fs, zf)
        r, sv = s.check(fs)
        if r != z3.unsat and not zf and s.has_sums(f0):
            if few is not None and s.check(few + [f0[-1]] + s.sum_axioms(few + [f0[-1]], True))[0] == z3.unsat: r = z3.unsat
            else:
                r2, sv2 = s.check(f0 + s.sum_axioms(f0, True))
                if r2 == z3.unsat: r = r2
        if r == z3.unknown and not getattr(s, "nocvc5", False):
            r, sv = s.cvc5(fs, sv)
        if r not in (z3.unsat, "unsat") and getattr(s, "late", None):      # facts kept back because they slow the proof down
            if s.check(fs + list(s.late))[0] == z3.unsat: r = z3.unsat
        if r in (z3.unknown, "unknown") and not getattr(s, "nocvc5", False) and getattr(s, "again", 0) < 4:      # more time, other seeds
            s.again = getattr(s, "again", 0) + 1
            if s.check(fs, int(1.5 * s.timeout), 7, (23,))[0] == z3.unsat: r = z3.unsat
        if r == z3.unsat:
            st["proved"] += 1; s.backends["z3"] = s.backends.get("z3", 0) + 1; return True
        if r == "unsat":
            st["proved"] += 1; s.backends["cvc5"] = s.backends.get("cvc5", 0) + 1; return True
        if r == z3.sat and not s.taint and not s.has_sums(fs):
            try: mtxt = str(sv.model())[:3000]
            except Exception: mtxt = ""  # noqa
            st["refuted"].append(dict(goal=str(g)[:2000], pc=[str(p)[:300] for p in s.pc][-12:], model=mtxt))
        else:
            st["unknown"].append(dict(goal=str(g)[:1500], why=s.taint or ("solver: not provable with the facts about sums" if r == z3.sat else "solver: unknown"), pc=[str(p)[:300] for p in s.pc][-8:]))
            s.fails = getattr(s, "fails", 0) + 1
            if s.fails >= getattr(s, "fail_limit", 1 << 30): raise Stop("several obligations not discharged")
        return False

    def cvc5(s, fs, sv):
        import subprocess, tempfile, os
        try:
            txt = "(set-logic ALL)\n" + sv.to_smt2().replace("(set-info :status unknown)", "")
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
            t = time.time()
            o = subprocess.run(["cvc5", "--tlimit=4000", f.name], capture_output=True, text=True, timeout=8).stdout.strip()
            s.solver_time += time.time() - t; s.queries += 1
            os.unlink(f.name)
            return (o.split("\n")[0] if o else z3.unknown), sv
        except Exception: return z3.unknown, sv  # noqa


_dn, _lps = {}, {}


def declnames(f):
    """names of the declared symbols in a formula"""
    k = f.get_id()
    if k in _dn: return _dn[k][1]
    out, seen, st = set(), set(), [f]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in _dn: out |= _dn[i][1]; continue
        if isinstance(x, z3.QuantifierRef): st.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
            st += x.children()
    _dn[k] = (f, out)
    return out


def lpsyms(f):
    """names of LP value symbols in a formula"""
    k = f.get_id()
    if k not in _lps: _lps[k] = (f, {n for n in declnames(f) if n.startswith("val_")})
    return _lps[k][1]


def _prod(xs):
    xs = list(xs)
    if not xs: return z3.RealVal(1)
    r = xs[0]
    for x in xs[1:]: r = r * x
    return r
