"""Hash-consed term language of the deductive verifier.

Sorts: 'B' booleans, 'I' mathematical integers (also matrix indices), 'R' mathematical reals, 'K' opaque node labels.
Numeric terms are kept as polynomials over atoms.  Binders (sum / ex / min) range over index domains 0..dim-1 and
fold away when the domain is a literal, so one contract text runs for a symbolic and for a concrete number of nodes.
"""
from fractions import Fraction
from itertools import count
import sys

sys.setrecursionlimit(20000)

_table = {}
_uid = count(1)


class T:
    __slots__ = ("op", "args", "sort", "h", "uid", "fv", "_hash", "__weakref__")

    def __repr__(self):
        return show(self)


def _mk(op, args, sort, h, fv):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.h, t.fv = op, args, sort, h, fv
        t.uid = next(_uid)
        _table[key] = t
    return t


_E = frozenset()


def _hm(ts):
    return max((t.h for t in ts), default=0)


def _fv(ts):
    s = _E
    for t in ts:
        if t.fv:
            s = s | t.fv if s else t.fv
    return s


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return _mk("c", (bool, v), "B", 0, _E)
    if isinstance(v, int):
        return _mk("c", (int, v), "I", 0, _E)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise ValueError("non-finite constant")
        v = Fraction(v).limit_denominator(10**12) if abs(v) < 1e6 else Fraction(v)
        return _mk("c", (Fraction, v), "R", 0, _E)
    if isinstance(v, Fraction):
        return _mk("c", (Fraction, v), "R", 0, _E)
    raise TypeError(f"const {v!r}")


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[1]


IDX_DIM = {}  # index variable -> dim term (bound placeholders, skolems and arbitrary indices)
HARD = set()  # arbitrary indices of a contract: 0 <= v < dim is a hypothesis of every obligation mentioning v
_fresh = count(1)


def reset_fresh(n=1):
    global _fresh
    _fresh = count(n)


def var(name, sort, dim=None):
    t = _mk("v", (name,), sort, 0, _E)
    if t.fv is _E:
        t.fv = frozenset([t])
    if dim is not None:
        IDX_DIM[t] = dim
    return t


def fresh(prefix, sort, dim=None):
    return var(f"{prefix}!{next(_fresh)}", sort, dim)


def index(name, dim):
    """an arbitrary in-range index of a contract (a universally quantified variable of the obligation)"""
    t = var(name, "I", dim)
    HARD.add(t)
    return t


def bvar(h, dim):
    return _mk("b", (h, dim), "I", 0, dim.fv)


APP_RULES = {}  # fname -> function(args) -> term | None (rewrite)


def app(f, args, sort):
    args = tuple(args)
    r = APP_RULES.get(f)
    if r is not None:
        x = r(args)
        if x is not None:
            if isinstance(x, tuple):
                args = x
            else:
                return x
    return _mk("app", (f,) + args, sort, _hm(args), _fv(args))


# ---------------------------------------------------------------- booleans
def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "B", a.h, a.fv)


def And(*xs):
    out = {}
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            stack.extend(reversed(x.args))
            continue
        out[x] = None
    for x in out:
        if x.op == "not" and x.args[0] in out:
            return FALSE
    # absorb simple or-clauses: (a | b) & a -> a ; (!a | b) & a -> b & a
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if x.op == "or":
                new = []
                absorbed = False
                for y in x.args:
                    if y in out and y is not x:
                        absorbed = True
                        break
                    ny = Not(y)
                    if ny in out:
                        continue
                    new.append(y)
                if absorbed:
                    del out[x]
                    changed = True
                elif len(new) != len(x.args):
                    del out[x]
                    z = Or(*new)
                    if z is FALSE:
                        return FALSE
                    if z.op == "and":
                        return And(*out, z)
                    if z is not TRUE:
                        if Not(z) in out:
                            return FALSE
                        out[z] = None
                    changed = True
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    args = tuple(sorted(out, key=lambda t: t.uid))
    # order contradictions on identical pairs
    r = _order_conflict(args)
    if r is not None:
        return r
    return _mk("and", args, "B", _hm(args), _fv(args))


def _order_conflict(args):
    """Cheap contradiction detection between comparison atoms of one pair."""
    lts = {}
    for a in args:
        if a.op in ("lt", "eqn"):
            lts.setdefault(a.args[0], set()).add(a.op)
    for p, ops in lts.items():
        if len(ops) == 2:
            return FALSE  # p<0 and p==0
        if "lt" in ops:
            n = pneg(p)
            # p<0 and -p<0
            if n in lts and "lt" in lts[n]:
                return FALSE
        # handled: eq is stored with canonical sign
            q = n if n in lts else None
            if q is not None and "eqn" in lts[q]:
                return FALSE
    return None


def Or(*xs):
    return Not(And(*[Not(x) for x in xs])) if _or_needs_and(xs) else _or(xs)


def _or_needs_and(xs):
    return False


def _or(xs):
    out = {}
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            stack.extend(reversed(x.args))
            continue
        out[x] = None
    for x in out:
        if x.op == "not" and x.args[0] in out:
            return TRUE
    # absorb (a & b) | a -> a
    for x in list(out):
        if x.op == "and":
            if any(y in out for y in x.args):
                del out[x]
                continue
            new = [y for y in x.args if Not(y) not in out]
            if len(new) != len(x.args):
                del out[x]
                z = And(*new)
                return _or(tuple(out) + (z,))
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    args = tuple(sorted(out, key=lambda t: t.uid))
    return _mk("or", args, "B", _hm(args), _fv(args))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    if a is Not(b):
        return FALSE
    if a.uid > b.uid:
        a, b = b, a
    return _mk("iff", (a, b), "B", max(a.h, b.h), a.fv | b.fv)


_zu = {}


def zero_unless(t, e):
    """t is 0 whenever the formula e is false (a sum has no terms when nothing satisfies its condition): sufficient syntactic test"""
    if e.op not in ("ex", "and", "or"):
        return False
    key = (t, e)
    r = _zu.get(key)
    if r is None:
        r = _zu[key] = _zero_unless(t, e)
    return r


def _zero_unless(t, e):
    if t.op == "c":
        return cval(t) == 0
    if t.op == "poly":
        return all(any(_zero_unless(a, e) for a in m) for m, _ in t.args)
    if e.op == "and":
        return all(_zero_unless(t, x) for x in e.args)
    if e.op == "or" and any(_zero_unless(t, x) for x in e.args):
        return True
    if t.op == "ite":
        c, a, b = t.args
        cs = c.args if c.op == "and" else (c,)
        ns = Not(c)
        ns = ns.args if ns.op == "and" else (ns,)
        return (e in cs or _zero_unless(a, e)) and (e in ns or _zero_unless(b, e))
    if t.op == "sum" and e.op == "ex" and t.args[1] is e.args[1]:
        x = fresh("_", "I", t.args[1])
        return _zero_unless(open_binder(t, x)[0], open_binder(e, x)[0])
    if t.op == "sum":
        x = fresh("_", "I", t.args[1])
        return _zero_unless(open_binder(t, x)[0], e)
    return False


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
        if b is Not(a):
            return Iff(c, a)
        return Or(And(c, a), And(Not(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite" and b.args[1] is a:
        return ite(Or(c, b.args[0]), a, b.args[2])
    if b.op == "c" and cval(b) == 0 and zero_unless(a, c):
        return toreal(a) if b.sort == "R" else a
    sort = _nsort((a, b)) if a.sort in "IR" else a.sort
    return _mk("ite", (c, a, b), sort, max(c.h, a.h, b.h), c.fv | a.fv | b.fv)


# ---------------------------------------------------------------- numerics: polynomials
# 'poly' args: tuple of (monomial, coef) with monomial = tuple of atoms sorted by uid; () is the constant monomial
def _nsort(ts):
    return "R" if any(t.sort == "R" for t in ts) else "I"


def pdict(t):
    if t.op == "c":
        v = t.args[1]
        if isinstance(v, bool):
            v = int(v)
        return {(): v} if v != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    if t.sort == "B":
        return pdict(ite(t, ONE, ZERO))
    return {(t,): 1}


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def pmake(d, sort):
    d = {m: _norm(c) for m, c in d.items() if c != 0}
    if not d:
        return const(0) if sort == "I" else const(Fraction(0))
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            if sort == "I" and isinstance(c, int):
                return const(c)
            return const(Fraction(c))
        if c == 1 and len(m) == 1 and m[0].sort == sort:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple(a.uid for a in mc[0])))
    ats = [a for m, _ in items for a in m]
    if sort == "R" and not any(a.sort == "R" for a in ats) and all(isinstance(c, int) for _, c in items):
        sort2 = "R"
    else:
        sort2 = sort
    return _mk("poly", items, sort2, _hm(ats), _fv(ats))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pdict(t).items():
            d[m] = d.get(m, 0) + c
    return pmake(d, _nsort(ts))


def pscale(t, k):
    return pmake({m: c * k for m, c in pdict(t).items()}, "R" if isinstance(k, Fraction) and k.denominator != 1 else t.sort)


def pneg(t):
    return pmake({m: -c for m, c in pdict(t).items()}, "I" if t.sort == "B" else t.sort)


def sub(a, b):
    return add(a, pneg(b))


def _monomul(m1, m2):
    return tuple(sorted(m1 + m2, key=lambda a: a.uid))


def mul(*ts):
    d = {(): 1}
    for t in ts:
        p = pdict(t)
        n = {}
        for m1, c1 in d.items():
            for m2, c2 in p.items():
                m = _monomul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        d = n
    return pmake(d, _nsort(ts))


def toreal(t):
    if t.sort == "R":
        return t
    if t.sort == "B":
        t = ite(t, ONE, ZERO)
    return pmake(pdict(t), "R")


def toint(t):
    """number -> integer term for bool"""
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    return t


def inv(t):
    t = toreal(t)
    if t.op == "c":
        if t.args[1] == 0:
            return app("inv", (t,), "R")
        return const(Fraction(1) / t.args[1])
    d = pdict(t)
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and m[0].op == "app" and m[0].args[0] == "inv":
            # 1/(1/x): only equal to x when x != 0; keep opaque
            pass
        return mul(const(Fraction(1) / c), app("inv", (pmake({m: 1}, "R"),), "R"))
    # canonical scale: leading coefficient 1
    items = sorted(d.items(), key=lambda mc: tuple(a.uid for a in mc[0]))
    c = items[-1][1]
    return mul(const(Fraction(1) / c), app("inv", (pmake({m: Fraction(x) / c for m, x in d.items()}, "R"),), "R"))


def div(a, b):
    return mul(toreal(a), inv(b))


def lt0(p):
    """p < 0"""
    d = pdict(p)
    if not d:
        return FALSE
    if len(d) == 1 and () in d:
        return TRUE if d[()] < 0 else FALSE
    # integer: normalise  p < 0
    # scale to make content 1
    p = _primitive(d, p.sort, signed=True)
    if p.sort == "I":
        d = pdict(p)
        if len(d) <= 2:
            # an arbitrary index of a contract is in range by hypothesis
            for m, c in d.items():
                if len(m) == 1 and m[0] in HARD:
                    dim = IDX_DIM.get(m[0])
                    if dim is None:
                        continue
                    if len(d) == 1 and c == 1:
                        return FALSE
                    if c == 1 and d.get((dim,)) == -1 or c == 1 and dim.op == "c" and d.get(()) == -cval(dim):
                        return TRUE
        c = d.get((), 0)
        if c < 0:
            # integers: q + c < 0  <=>  !(-q - c - 1 < 0)
            d = {m: -k for m, k in d.items()}
            d[()] = -c - 1
            return Not(lt0(pmake(d, "I")))
    return _mk("lt", (p,), "B", p.h, p.fv)


def _primitive(d, sort, signed):
    from math import gcd
    cs = [Fraction(c) for c in d.values()]
    den = 1
    for c in cs:
        den = den * c.denominator // gcd(den, c.denominator)
    num = 0
    for c in cs:
        num = gcd(num, int(c * den))
    k = Fraction(den, num)
    items = sorted(((m, c) for m, c in d.items()), key=lambda mc: tuple(a.uid for a in mc[0]))
    if not signed:
        lead = items[-1][1]
        if lead < 0:
            k = -k
    out = {m: _norm(Fraction(c) * k) for m, c in d.items()}
    # sort I only if all atoms are integers
    s = "I" if all(a.sort == "I" for m in d for a in m) else "R"
    return pmake(out, s)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return Not(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return Not(lt(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        return Iff(a, b)
    if a.sort == "K" or b.sort == "K":
        if a.sort != b.sort:
            raise TypeError("eq of label and number")
        if a.uid > b.uid:
            a, b = b, a
        # id_to_key is injective
        if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] and a.args[0] in INJECTIVE:
            return And(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
        return _mk("eqk", (a, b), "B", max(a.h, b.h), a.fv | b.fv)
    d = pdict(sub(a, b))
    if not d:
        return TRUE
    if len(d) == 1 and () in d:
        return FALSE
    p = _primitive(d, None, signed=False)
    # x + c == 0 with non-integer c and integer x
    if p.sort == "I":
        from math import gcd
        g = 0
        dd = pdict(p)
        for m, c in dd.items():
            if m != ():
                g = gcd(g, int(c)) if isinstance(c, int) else 1
        if () in dd and g > 1 and isinstance(dd[()], int) and dd[()] % g != 0:
            return FALSE
    # ite(c, k1, k2) == k : decide by branch
    if len(d) <= 2:
        ms = [m for m in d if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0].op == "ite":
            x = ms[0][0]
            if x.args[1].op == "c" or x.args[2].op == "c":
                rhs = const(Fraction(-d.get((), 0)) / d[ms[0]])
                return ite(x.args[0], eq(x.args[1], rhs), eq(x.args[2], rhs))
    return _mk("eqn", (p,), "B", p.h, p.fv)


INJECTIVE = set()


def ne(a, b):
    return Not(eq(a, b))


def tmin(a, b):
    return ite(le(a, b), a, b)


def tmax(a, b):
    return ite(le(a, b), b, a)


def tabs(a):
    if is_const(a):
        return const(abs(cval(a)))
    return ite(lt(a, ZERO), pneg(a), a)


# ---------------------------------------------------------------- binders
def _bind(op, dim, f, extra_sort, nfun=1):
    x = fresh("_", "I", dim)
    bodies = f(x)
    if nfun == 1:
        bodies = (bodies,)
    return _close(op, dim, x, bodies, extra_sort)


RANGE_RULES = []  # functions (x, dim) -> {term: simpler term} valid for 0 <= x < dim
_ranged = {}


def ranged(dim, x, body):
    """body simplified under 0 <= x < dim"""
    if dim.op == "c" or x not in body.fv:
        return body
    key = (dim, x, body)
    r = _ranged.get(key)
    if r is None:
        m = {lt0(x): FALSE, lt(x, dim): TRUE}
        for f in RANGE_RULES:
            m.update(f(x, dim))
        r = subst(body, m)
        _ranged[key] = r
        _ranged[(dim, x, r)] = r
    return r


def _close(op, dim, x, bodies, sort):
    h = max(_hm(bodies), dim.h) + 1
    b = bvar(h, dim)
    cl = tuple(subst(t, {x: b}) for t in bodies)
    fv = _fv(cl) | dim.fv
    fv = fv - {x}
    return _mk(op, (h, dim) + cl, sort, h, fv)


def binder_dim(t):
    return t.args[1]


_open_memo = {}


def open_binder(t, val):
    """bodies of binder t with the bound variable replaced by val"""
    key = (t, val)
    r = _open_memo.get(key)
    if r is None:
        b = bvar(t.args[0], t.args[1])
        r = tuple(subst(x, {b: val}) for x in t.args[2:])
        _open_memo[key] = r
    return r


def guard(t, dim):
    """in-range condition as a formula (TRUE only for indices that are in range by hypothesis)"""
    if t in HARD and IDX_DIM.get(t) is dim:
        return TRUE
    return And(Not(lt(t, ZERO)), lt(t, dim))


def inrange(t, dim):
    """0 <= t < dim"""
    if IDX_DIM.get(t) is dim:
        return TRUE
    return And(le(ZERO, t), lt(t, dim))


REINDEX = {}    # dim -> (dim2, g): g is a bijection from the positions below dim2 onto those below dim


def ex(dim, f):
    if dim in REINDEX:
        dim, g = REINDEX[dim]
        return ex(dim, lambda x: f(g(x)))
    if is_const(dim):
        return Or(*[f(const(i)) for i in range(cval(dim))])
    x = fresh("_", "I", dim)
    body = f(x)
    return _ex_close(dim, x, body)


def _ex_close(dim, x, body):
    body = ranged(dim, x, body)
    if x not in body.fv:
        return And(lt(ZERO, dim), body)
    if body.op == "or":
        return Or(*[_ex_close(dim, x, y) for y in body.args])
    # one-point
    conj = body.args if body.op == "and" else (body,)
    free = [c for c in conj if x not in c.fv]
    if free:
        rest = [c for c in conj if x in c.fv]
        return And(*free, _ex_close(dim, x, And(*rest)))
    for c in conj:
        s = solve_eq(c, x)
        if s is not None:
            rest = And(*[y for y in conj if y is not c])
            return And(inrange(s, dim), subst(rest, {x: s}))
    return _close("ex", dim, x, (body,), "B")


def solve_eq(c, x):
    """if c is `x == t` with t free of x (integers, unit coefficient), return t"""
    if c.op != "eqn":
        return None
    d = pdict(c.args[0])
    k = d.get((x,))
    if k not in (1, -1):
        return None
    for m in d:
        if m != (x,) and any(x is a or x in a.fv for a in m):
            return None
    rest = pmake({m: v for m, v in d.items() if m != (x,)}, "I")
    return pneg(rest) if k == 1 else rest


def fa(dim, f):
    return Not(ex(dim, lambda i: Not(f(i))))


def tsum(dim, f):
    if dim in REINDEX:
        dim, g = REINDEX[dim]
        return tsum(dim, lambda x: f(g(x)))
    if is_const(dim):
        return add(ZERO, *[toint(f(const(i))) for i in range(cval(dim))])
    x = fresh("_", "I", dim)
    body = toint(f(x))
    return _sum_close(dim, x, body)


def _sum_close(dim, x, body):
    body = ranged(dim, x, body)
    d = pdict(body)
    tot = []
    for m, c in d.items():
        out = [a for a in m if x not in a.fv]
        inn = [a for a in m if x in a.fv]
        k = mul(const(c), *out)
        if not inn:
            tot.append(mul(k, dim))
            continue
        b = mul(*inn)
        tot.append(mul(k, _sum_atom(dim, x, b)))
    r = add(*tot) if tot else ZERO
    if body.sort == "R":
        r = toreal(r)
    return r


def _sum_atom(dim, x, b):
    if b.op == "ite":
        c, p, q = b.args
        if is_const(q) and cval(q) == 0 and not is_const(p):
            # pull x-free factors out of the branch
            d = pdict(p)
            if len(d) == 1:
                (m, k), = d.items()
                out = [a for a in m if x not in a.fv]
                if out or k != 1:
                    inn = [a for a in m if x in a.fv]
                    pp = mul(*inn) if inn else ONE
                    return mul(const(k), *out, _sum_atom(dim, x, ite(c, pp, ZERO)))
            elif d:
                return add(*[_sum_close(dim, x, ite(c, pmake({m: k}, p.sort), ZERO)) for m, k in d.items()])
        if is_const(q) and cval(q) == 0:
            # one-point rule
            conj = c.args if c.op == "and" else (c,)
            free = [y for y in conj if x not in y.fv]
            if free:
                rest = And(*[y for y in conj if x in y.fv])
                return ite(And(*free), _sum_close(dim, x, ite(rest, p, ZERO)), ZERO)
            for y in conj:
                s = solve_eq(y, x)
                if s is not None:
                    rest = And(*[z for z in conj if z is not y])
                    return ite(And(inrange(s, dim), subst(rest, {x: s})), subst(p, {x: s}), ZERO)
    if x not in b.fv:
        return mul(dim, b)
    return _close("sum", dim, x, (b,), b.sort if b.sort == "R" else "I")


def mincond(dim, cond, val, kind="min"):
    """(exists k. cond(k), min over such k of val(k))"""
    if is_const(dim):
        e, m = FALSE, None
        for i in range(cval(dim)):
            c, v = cond(const(i)), toint(val(const(i)))
            if c is FALSE:
                continue
            if m is None:
                e, m = c, v
            else:
                m = ite(And(e, c), (tmin if kind == "min" else tmax)(m, v), ite(c, v, m))
                e = Or(e, c)
        return e, (m if m is not None else ZERO)
    x = fresh("_", "I", dim)
    c, v = cond(x), val(x)
    v = toint(v)
    c, v = ranged(dim, x, c), ranged(dim, x, v)
    e = _ex_close(dim, x, c)
    if e is FALSE:
        return e, ZERO
    if x not in v.fv:
        return e, v
    conj = c.args if c.op == "and" else (c,)
    for y in conj:
        s = solve_eq(y, x)
        if s is not None:
            return e, subst(v, {x: s})
    return e, _close(kind, dim, x, (c, v), v.sort)


BINDERS = ("sum", "ex", "min", "max", "any")


def rebuild(t, args):
    op = t.op
    if op == "app":
        return app(t.args[0], args, t.sort)
    if op == "not":
        return Not(args[0])
    if op == "and":
        return And(*args)
    if op == "or":
        return Or(*args)
    if op == "iff":
        return Iff(*args)
    if op == "eqk":
        return eq(*args)
    if op == "eqn":
        return eq(args[0], ZERO)
    if op == "lt":
        return lt0(args[0])
    if op == "ite":
        return ite(*args)
    raise AssertionError(op)


_subst_cache = {}


def subst(t, m):
    """replace variables/bound variables by terms"""
    if len(m) == 1:
        (k, v), = m.items()
        if k is v:
            return t
    memo = {}

    def relevant(t):
        return True

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("c",):
            return t
        if op == "v":
            return t
        if op == "b":
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if op == "poly":
            parts = []
            ch = False
            for mono, c in t.args:
                na = [go(a) for a in mono]
                if any(x is not y for x, y in zip(na, mono)):
                    ch = True
                parts.append((na, c))
            if not ch:
                r = t
            else:
                r = add(*[mul(const(c), *na) for na, c in parts])
                if t.sort == "R":
                    r = toreal(r)
        elif op in BINDERS:
            h, dim = t.args[0], t.args[1]
            nd = go(dim)
            # quick check: does any key occur inside?
            nb = tuple(go(x) for x in t.args[2:])
            if nd is dim and all(x is y for x, y in zip(nb, t.args[2:])):
                r = t
            else:
                x = fresh("_", "I", nd)
                ob = open_binder(t, x)
                ob = tuple(go(y) for y in ob)
                r = mk_binder(op, nd, x, ob)
        elif op == "msum":
            if not any(k in t.fv or k.op == "b" for k in m):
                r = t
            else:
                bs, ls, ns = t.args
                for k, v in m.items():
                    if k in t.fv and (v.fv & frozenset(bs)):
                        raise CaptureError("bound variable captured")
                r = MSUM_HOOK[0](bs, [go(l) for l in ls], [go(a) for a in ns])
        else:
            a0 = t.args[1:] if op == "app" else t.args
            na = [go(x) for x in a0]
            if all(x is y for x, y in zip(na, a0)):
                r = t
            else:
                r = rebuild(t, na)
        memo[t] = r
        return r

    return go(t)


class CaptureError(Exception):
    pass


MSUM_HOOK = [None]


def mk_binder(op, dim, x, bodies):
    if is_const(dim):
        n = cval(dim)
        if op == "ex":
            return Or(*[subst(bodies[0], {x: const(i)}) for i in range(n)])
        if op == "sum":
            return add(ZERO, *[subst(bodies[0], {x: const(i)}) for i in range(n)])
        return mincond(dim, lambda i: subst(bodies[0], {x: i}), lambda i: subst(bodies[1], {x: i}), op)[1]
    if op == "ex":
        return _ex_close(dim, x, bodies[0])
    if op == "sum":
        return _sum_close(dim, x, bodies[0])
    c, v = ranged(dim, x, bodies[0]), ranged(dim, x, bodies[1])
    if x not in v.fv:
        return v
    conj = c.args if c.op == "and" else (c,)
    for y in conj:
        s = solve_eq(y, x)
        if s is not None:
            return subst(v, {x: s})
    return _close(op, dim, x, (c, v), v.sort)


# ---------------------------------------------------------------- display
def show(t, d=0):
    op = t.op
    if op == "c":
        return str(t.args[1])
    if op == "v":
        return t.args[0]
    if op == "b":
        return f"k{t.args[0]}"
    if d > 14:
        return "..."
    s = lambda x: show(x, d + 1)
    if op == "app":
        return f"{t.args[0]}({','.join(map(s, t.args[1:]))})"
    if op == "poly":
        out = []
        for m, c in t.args:
            body = "*".join(map(s, m))
            out.append(f"{c}" if not m else (body if c == 1 else f"{c}*{body}"))
        return "(" + "+".join(out) + ")"
    if op == "not":
        return "!" + s(t.args[0])
    if op == "and":
        return "(" + " & ".join(map(s, t.args)) + ")"
    if op == "or":
        return "(" + " | ".join(map(s, t.args)) + ")"
    if op == "iff":
        return f"({s(t.args[0])} <=> {s(t.args[1])})"
    if op == "eqn":
        return f"({s(t.args[0])}==0)"
    if op == "lt":
        return f"({s(t.args[0])}<0)"
    if op == "eqk":
        return f"({s(t.args[0])}=={s(t.args[1])})"
    if op == "ite":
        return f"ite({','.join(map(s, t.args))})"
    if op in BINDERS:
        return f"{op}[k{t.args[0]}<{s(t.args[1])}]({' ; '.join(map(s, t.args[2:]))})"
    return op
