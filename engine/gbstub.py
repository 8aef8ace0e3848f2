"""Contracts of the python-graphblas / numpy operations used by graphblas_algorithms.

Every tensor is a pair of functions of its indices (is an entry stored there, its value); every operation is its
defining equation from the GraphBLAS specification.  Integers and floats are mathematical numbers.  Writing to a
tensor marked `frozen` is a frame obligation."""
import builtins
import types
from itertools import count

import sym
from sym import *
from terms import *
import terms as TM
import prove as P


# ------------------------------------------------------------------ dtypes
class DT:
    _is_udt = False

    def __init__(self, name, kind, bits):
        self.name, self.kind, self.bits = name, kind, bits

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        try:
            return lookup_dtype(o) is self
        except Exception:
            return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.name)

    @property
    def np_type(self):
        return self

    @property
    def itemsize(self):
        return max(1, self.bits // 8)

    @property
    def sort(self):
        return {"B": "B", "I": "I", "U": "I", "F": "R"}[self.kind]

    @property
    def zero(self):
        return {"B": FALSE, "I": ZERO, "R": toreal(ZERO)}[self.sort]

    @property
    def one(self):
        return {"B": TRUE, "I": ONE, "R": toreal(ONE)}[self.sort]


BOOL = DT("BOOL", "B", 1)
_ALL = {"BOOL": BOOL}
for _b in (8, 16, 32, 64):
    _ALL[f"INT{_b}"] = DT(f"INT{_b}", "I", _b)
    _ALL[f"UINT{_b}"] = DT(f"UINT{_b}", "U", _b)
for _b in (32, 64):
    _ALL[f"FP{_b}"] = DT(f"FP{_b}", "F", _b)
INT64, UINT64, FP64, INT32, FP32 = (_ALL[k] for k in ("INT64", "UINT64", "FP64", "INT32", "FP32"))


def lookup_dtype(x):
    if isinstance(x, DT):
        return x
    x = getattr(x, "_pytype", x)
    if x is bool:
        return BOOL
    if x is int:
        return INT64
    if x is float:
        return FP64
    if isinstance(x, str):
        u = x.upper()
        if u in _ALL:
            return _ALL[u]
        if u in ("FLOAT64", "FLOAT"):
            return FP64
        if u == "INT":
            return INT64
    if isinstance(x, NpType):
        return x.dt
    raise TypeError(f"unknown dtype {x!r}")


def unify(a, b, is_left_scalar=False, is_right_scalar=False):
    a, b = lookup_dtype(a), lookup_dtype(b)
    if a is b:
        return a
    if a is BOOL:
        return b
    if b is BOOL:
        return a
    if a.kind == b.kind:
        return a if a.bits >= b.bits else b
    if is_left_scalar and a.kind in "IU" and b.kind in "IUF":
        return b
    if is_right_scalar and b.kind in "IU" and a.kind in "IUF":
        return a
    return FP64


def cast(t, src, dst):
    if src is dst or src.sort == dst.sort:
        return t
    if dst.sort == "B":
        return ne(t, ZERO)
    if src.sort == "B":
        return ite(t, dst.one, dst.zero)
    if dst.sort == "R":
        return toreal(t)
    # real -> integer: C truncation; exact when the value is integral by construction
    if is_const(t):
        return const(int(cval(t)))
    d = pdict(t)
    if all(a.sort == "I" for m in d for a in m) and all(isinstance(c, int) for c in d.values()):
        return pmake(d, "I")
    return app("trunc", (t,), "I")


P.AXIOMS["trunc"] = lambda x: (lambda q: [Implies(ge(x, ZERO), And(ge(q, ZERO), le(q, x), lt(x, add(q, toreal(ONE))))),
                                          Implies(le(x, ZERO), And(le(q, ZERO), ge(q, x), gt(x, sub(q, toreal(ONE)))))])(toreal(app("trunc", (x,), "I")))


def pytype_dtype(v):
    """dtype of a Python scalar"""
    if isinstance(v, Scalar):
        return v.dtype
    if isinstance(v, ScalarExpr):
        return v._val().dt
    if isinstance(v, (bool, SymBool)):
        return BOOL
    if isinstance(v, int):
        return INT64
    if isinstance(v, SymNum):
        return INT64 if v.t.sort == "I" else FP64
    if isinstance(v, NpScalar):
        return v.dt
    if isinstance(v, (float, Fraction)):
        return FP64
    if isinstance(v, SymIdx):
        return INT64
    raise Unsupported(f"scalar of type {type(v).__name__}")


class SymIdx:
    pass


class NpScalar:
    pass


# ------------------------------------------------------------------ values
_vid = count()


class Val:
    __slots__ = ("shape", "dt", "fn", "memo", "uid", "enums")

    def __init__(self, shape, dt, fn):
        self.shape, self.dt, self.fn, self.memo, self.uid = tuple(shape), dt, fn, {}, next(_vid)
        self.enums = {}

    def at(self, *idx):
        r = self.memo.get(idx)
        if r is None:
            p, v = self.fn(*idx)
            if p is FALSE:
                v = self.dt.zero
            r = self.memo[idx] = (p, v)
        return r

    def pres(self, *idx):
        return self.at(*idx)[0]

    def value(self, *idx):
        return self.at(*idx)[1]

    def cast(self, dt):
        if dt is self.dt:
            return self
        src = self.dt
        if src.sort == dt.sort:
            r = Val(self.shape, dt, self.fn)
            r.memo, r.enums = self.memo, self.enums
            return r

        def f(*i):
            p, v = self.at(*i)
            return p, cast(v, src, dt)

        return Val(self.shape, dt, f)

    def nvals(self):
        if len(self.shape) == 0:
            return toint(self.pres())
        if len(self.shape) == 1:
            return tsum(self.shape[0], lambda i: self.pres(i))
        return tsum(self.shape[0], lambda i: tsum(self.shape[1], lambda j: self.pres(i, j)))


def empty_val(shape, dt):
    return Val(shape, dt, lambda *i: (FALSE, dt.zero))


def scalar_val(v, dt=None):
    """Python scalar -> 0-d Val"""
    if isinstance(v, (Scalar, ScalarExpr)):
        r = v._val()
        return r if dt is None else r.cast(dt)
    d0 = pytype_dtype(v)
    t = term_of(v)
    dt = dt or d0
    t = cast(t, d0, dt)
    return Val((), dt, lambda: (TRUE, t))


def is_scalar(x):
    return isinstance(x, (bool, int, float, Fraction, SymBool, SymNum, Scalar, ScalarExpr, NpScalar))


def dims_equal(a, b, what):
    if a is b:
        return
    if is_const(a) and is_const(b):
        if a is not b:
            raise DimensionMismatch(what)
        return
    sym.CTX.ensure(f"dimensions agree: {what}", eq(a, b), kind="pre")
    sym.CTX.assume(eq(a, b))


class DimensionMismatch(Exception):
    pass


class DomainMismatch(Exception):
    pass


# ------------------------------------------------------------------ scalar functions of the operators
def pick(a, b):
    if a is b:
        return a
    if a.sort == "B":
        return app("pickB", (a, b), "B")
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
    return app("pick", (a, b), a.sort)


P.AXIOMS["pick"] = lambda a, b: [Or(eq(app("pick", (a, b), a.sort), a), eq(app("pick", (a, b), a.sort), b))]
P.AXIOMS["pickB"] = lambda a, b: [Or(Iff(app("pickB", (a, b), "B"), a), Iff(app("pickB", (a, b), "B"), b))]


def trunc_div(a, b, dt):
    if dt.sort == "R":
        return div(a, b)
    if is_const(a) and is_const(b) and cval(b) != 0:
        q = abs(cval(a)) // abs(cval(b))
        return const(q if (cval(a) < 0) == (cval(b) < 0) else -q)
    if is_const(b):
        d = pdict(a)
        k = cval(b)
        if k and all(isinstance(c, int) and c % k == 0 for c in d.values()):
            return pmake({m: c // k for m, c in d.items()}, "I")
    return app("cdiv", (a, b), "I")


P.AXIOMS["cdiv"] = lambda a, b: [
    Implies(And(lt(ZERO, b), ge(a, ZERO)), And(le(mul(b, app("cdiv", (a, b), "I")), a), lt(a, add(mul(b, app("cdiv", (a, b), "I")), b)), ge(app("cdiv", (a, b), "I"), ZERO))),
    Implies(And(lt(ZERO, b), lt(a, ZERO)), And(ge(mul(b, app("cdiv", (a, b), "I")), a), gt(a, sub(mul(b, app("cdiv", (a, b), "I")), b)))),
]


def _xor(a, b):
    return Not(Iff(a, b))


def bin_fn(name, dt):
    """(function on terms of sort dt, result dtype)"""
    B = dt is BOOL
    num = lambda f, fb: (fb if B else f)
    if name == "plus":
        return num(add, Or), dt
    if name == "times":
        return num(mul, And), dt
    if name == "minus":
        return num(sub, _xor), dt
    if name == "rminus":
        return num(lambda a, b: sub(b, a), _xor), dt
    if name == "first":
        return (lambda a, b: a), dt
    if name == "second":
        return (lambda a, b: b), dt
    if name == "any":
        return pick, dt
    if name in ("pair", "oneb"):
        return (lambda a, b: dt.one), dt
    if name == "min":
        return num(tmin, And), dt
    if name == "max":
        return num(tmax, Or), dt
    if name == "lor":
        return (lambda a, b: Or(truthy(a), truthy(b))) if B else (lambda a, b: ite(Or(truthy(a), truthy(b)), dt.one, dt.zero)), dt
    if name == "land":
        return (lambda a, b: And(truthy(a), truthy(b))) if B else (lambda a, b: ite(And(truthy(a), truthy(b)), dt.one, dt.zero)), dt
    if name == "lxor":
        return (lambda a, b: _xor(truthy(a), truthy(b))), dt
    cmpn = lambda t: toint(t)
    if name in ("lt", "gt", "le", "ge"):
        f = {"lt": lt, "gt": gt, "le": le, "ge": ge}[name]
        return (lambda a, b: f(cmpn(a), cmpn(b))), BOOL
    if name == "eq":
        return eq, BOOL
    if name == "ne":
        return ne, BOOL
    if name in ("iseq", "isne", "islt", "isgt", "isle", "isge"):
        f = {"iseq": eq, "isne": ne, "islt": lt, "isgt": gt, "isle": le, "isge": ge}[name]
        if B:
            return (lambda a, b: f(a, b) if name in ("iseq", "isne") else f(toint(a), toint(b))), dt
        return (lambda a, b: ite(f(a, b), dt.one, dt.zero)), dt
    if name == "truediv":
        d = dt if dt.kind == "F" else FP64
        return (lambda a, b: div(toint(a), toint(b))), d
    if name == "rtruediv":
        d = dt if dt.kind == "F" else FP64
        return (lambda a, b: div(toint(b), toint(a))), d
    if name == "cdiv":
        if B:
            raise Unsupported("cdiv on BOOL")
        return (lambda a, b: trunc_div(a, b, dt)), dt
    if name == "floordiv":
        if dt.sort == "R":
            return (lambda a, b: app("floorR", (div(a, b),), "R")), dt
        return floordiv_term, dt
    if name == "pow":
        raise Unsupported("power")
    raise Unsupported(f"binary operator {name}")


def truthy(t):
    return t if t.sort == "B" else ne(t, ZERO)


def un_fn(name, dt):
    if name == "one":
        return (lambda a: dt.one), dt
    if name == "identity":
        return (lambda a: a), dt
    if name == "abs":
        return (lambda a: a if dt is BOOL else tabs(a)), dt
    if name == "ainv":
        return (lambda a: a if dt is BOOL else pneg(a)), dt
    if name == "sqrt":
        d = dt if dt.kind == "F" else (FP32 if dt is BOOL else FP64)
        return (lambda a: app("sqrt", (toreal(a),), "R")), d
    if name == "cbrt":
        d = dt if dt.kind == "F" else (FP32 if dt is BOOL else FP64)
        return (lambda a: cbrt(a)), d
    if name == "minv":
        if dt is BOOL:
            return (lambda a: TRUE), dt
        if dt.sort == "I":
            return (lambda a: trunc_div(ONE, a, dt)), dt
        return inv, dt
    if name == "lnot":
        return (lambda a: Not(truthy(a)) if dt is BOOL else ite(truthy(a), dt.zero, dt.one)), dt
    if name in ("isinf", "isnan"):
        return (lambda a: FALSE), BOOL
    raise Unsupported(f"unary operator {name}")


def cbrt(a):
    a = toreal(a)
    if is_const(a) and cval(a) in (0, 1, -1):
        return a
    return app("cbrt", (a,), "R")


_c = lambda x: app("cbrt", (x,), "R")
P.AXIOMS["cbrt"] = lambda x: [eq(mul(_c(x), _c(x), _c(x)), x), Iff(lt(ZERO, x), lt(ZERO, _c(x))), Iff(lt(x, ZERO), lt(_c(x), ZERO))]

MONOIDS = {"plus", "times", "min", "max", "any", "lor", "land", "lxor", "lxnor", "eq"}


def mon_reduce(name, dt, dim, cond, val):
    """monoid reduction over k with cond(k): (exists, value)"""
    e = ex(dim, cond)
    if e is FALSE:
        return e, dt.zero
    if name == "plus" and dt is BOOL:
        name = "lor"
    if name == "plus":
        v = tsum(dim, lambda k: ite(cond(k), val(k), dt.zero))
        return e, toreal(v) if dt.sort == "R" else v
    if name in ("min", "max") and dt is BOOL:
        name = "land" if name == "min" else "lor"
    if name in ("min", "max"):
        _, v = mincond(dim, cond, val, name)
        return e, v
    if name == "any":
        if is_const(dim):
            # concrete: any of the candidates
            c = [(cond(const(i)), val(const(i))) for i in range(cval(dim))]
            c = [(p, v) for p, v in c if p is not FALSE]
            r = c[-1][1]
            for p, v in reversed(c[:-1]):
                r = ite(p, v, r)
            return e, r
        x = fresh("_", "I", dim)
        v = val(x)
        if x not in v.fv:
            return e, v
        if dt is BOOL:
            return e, anyB(dim, cond, val)
        return e, TM.mk_binder("any", dim, x, (cond(x), v))
    if name == "lor":
        t = ex(dim, lambda k: And(cond(k), truthy(val(k))))
        return e, t if dt is BOOL else ite(t, dt.one, dt.zero)
    if name == "land":
        t = fa(dim, lambda k: Implies(cond(k), truthy(val(k))))
        return e, t if dt is BOOL else ite(t, dt.one, dt.zero)
    raise Unsupported(f"monoid {name}")


def anyB(dim, cond, val):
    # a BOOL choice among the candidates: true if all are true, false if none is, otherwise unspecified
    some = ex(dim, lambda k: And(cond(k), val(k)))
    allt = fa(dim, lambda k: Implies(cond(k), val(k)))
    if some is allt:
        return some
    x = fresh("_", "I", dim)
    w = TM.mk_binder("any", dim, x, (cond(x), ite(val(x), ONE, ZERO)))
    return And(some, Or(allt, eq(w, ONE)))


# ------------------------------------------------------------------ operators
class Op:
    def __init__(self, kind, name, dt=None):
        self.kind, self.name, self.dt = kind, name, dt

    def __getitem__(self, dt):
        if isinstance(dt, tuple):
            dt = dt[0]
        return TypedOp(self.kind, self.name, lookup_dtype(dt))

    def __repr__(self):
        return f"{self.kind}.{self.name}"

    def _in(self, dt):
        return self.dt or dt

    # ---- application
    def __call__(self, *args, left_default=None, right_default=None, **kw):
        if kw:
            raise Unsupported(f"operator keywords {sorted(kw)}")
        k = self.kind
        if k == "unary":
            return Expr(lambda: un_apply(self, as_val(args[0])))
        if k in ("binary", "monoid"):
            if len(args) == 1:
                return infix_apply(self, args[0], left_default, right_default)
            a, b = args
            if is_scalar(a) or is_scalar(b):
                return Expr(lambda: bin_scalar(self, a, b))
            raise TypeError("binary operator called with two tensors")
        if k == "semiring":
            (e,) = args
            if not isinstance(e, Infix) or e.op != "@":
                raise TypeError("semiring expects x @ y")
            return e.mk(lambda: matmul(self, e.a, e.b))
        if k == "select":
            return select_apply(self, *args)
        if k == "indexunary":
            return iu_apply(self, *args)
        raise Unsupported(f"call of {self!r}")


class TypedOp(Op):
    @property
    def return_type(self):
        if self.kind in ("binary",):
            return bin_fn(self.name, self.dt)[1]
        if self.kind == "unary":
            return un_fn(self.name, self.dt)[1]
        return self.dt


class Namespace(types.SimpleNamespace):
    pass


class OpNS:
    def __init__(self, kind, names=None):
        self._kind, self._names, self._memo = kind, names, {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if self._names is not None and n not in self._names:
            raise Unsupported(f"{self._kind}.{n}")
        r = self._memo.get(n)
        if r is None:
            if self._kind == "semiring":
                m, _, b = n.partition("_")
                if m not in MONOIDS:
                    raise Unsupported(f"semiring {n}")
                if m == "any" and b == "pair":
                    pass
            r = self._memo[n] = Op(self._kind, n)
        return r


binary = OpNS("binary")
unary = OpNS("unary")
monoid = OpNS("monoid", MONOIDS)
semiring = OpNS("semiring")
select = OpNS("select")
indexunary = OpNS("indexunary")
agg = OpNS("agg", {"count", "sum", "any_value", "min", "max", "count_nonzero"})


def as_val(x):
    if isinstance(x, (Tensor, Expr, Infix, TransposedMatrix, Scalar, ScalarExpr)):
        return x._val()
    if isinstance(x, Val):
        return x
    raise TypeError(f"not a tensor: {type(x).__name__}")


def is_tensor(x):
    return isinstance(x, (Tensor, Expr, Infix, TransposedMatrix)) and not isinstance(x, (Scalar, ScalarExpr))


def un_apply(op, v):
    dt = op._in(v.dt)
    f, rdt = un_fn(op.name, dt)

    def g(*i):
        p, x = v.at(*i)
        return p, f(cast(x, v.dt, dt))

    return Val(v.shape, rdt, g)


def bin_scalar(op, a, b):
    if is_scalar(a):
        s, t, left = scalar_val(a), as_val(b), True
    else:
        s, t, left = scalar_val(b), as_val(a), False
    dt = op._in(unify(s.dt, t.dt, is_left_scalar=left) if left else unify(t.dt, s.dt, is_right_scalar=True))
    f, rdt = bin_fn(op.name, dt)
    sp, sv = s.at()
    sv = cast(sv, s.dt, dt)

    def g(*i):
        p, x = t.at(*i)
        x = cast(x, t.dt, dt)
        return And(p, sp), (f(sv, x) if left else f(x, sv))

    return Val(t.shape, rdt, g)


def broadcast(a, b, mode):
    """vector with matrix: left vector scales rows, right vector scales columns"""
    if len(a.shape) == len(b.shape):
        for x, y in zip(a.shape, b.shape):
            dims_equal(x, y, mode)
        return a, b
    if len(a.shape) == 1 and len(b.shape) == 2:
        dims_equal(a.shape[0], b.shape[0], mode)
        return Val(b.shape, a.dt, lambda i, j: a.at(i)), b
    if len(a.shape) == 2 and len(b.shape) == 1:
        dims_equal(a.shape[1], b.shape[0], mode)
        return a, Val(a.shape, b.dt, lambda i, j: b.at(j))
    raise Unsupported("broadcast")


def ewise(op, a, b, mode, ld=None, rd=None):
    if a.shape == () and b.shape == ():
        pass
    a, b = broadcast(a, b, f"{mode} {op.name}")
    dt = unify(a.dt, b.dt)
    if ld is not None:
        lv, rv = scalar_val(ld), scalar_val(rd)
        dt = unify(dt, unify(lv.dt, rv.dt), is_right_scalar=True)
    dt = op._in(dt)
    if dt is BOOL and op.dt is None and op.name == "pair":
        dt = INT64
    f, rdt = bin_fn(op.name, dt)

    def g(*i):
        pa, va = a.at(*i)
        pb, vb = b.at(*i)
        va, vb = cast(va, a.dt, dt), cast(vb, b.dt, dt)
        if mode == "mult":
            return And(pa, pb), f(va, vb)
        if ld is not None:
            l = cast(lv.at()[1], lv.dt, dt)
            r = cast(rv.at()[1], rv.dt, dt)
            return Or(pa, pb), f(ite(pa, va, l), ite(pb, vb, r))
        if pa is pb:
            return pa, f(va, vb)
        # value kept as is where only one side is stored
        va_, vb_ = cast(va, dt, rdt), cast(vb, dt, rdt)
        return Or(pa, pb), ite(And(pa, pb), f(va, vb), ite(pa, va_, vb_))

    return Val(b.shape if len(b.shape) >= len(a.shape) else a.shape, rdt, g)


def infix_apply(op, e, ld, rd):
    if isinstance(e, Infix):
        if e.op == "@":
            raise TypeError("binary operator of a matrix product")
        if ld is not None or rd is not None:
            if e.op != "|":
                raise TypeError("defaults need x | y")
            return e.mk(lambda: ewise(op, as_val(e.a), as_val(e.b), "union", 0 if ld is None else ld, 0 if rd is None else rd))
        return e.mk(lambda: ewise(op, as_val(e.a), as_val(e.b), "mult" if e.op == "&" else "add"))
    raise TypeError(f"{op!r} expects an infix expression, got {type(e).__name__}")


def matmul(op, a, b):
    a, b = as_val(a), as_val(b)
    m, _, mult = op.name.partition("_")
    dt = op._in(unify(a.dt, b.dt))
    if dt is BOOL and op.dt is None:
        if mult == "pair":
            dt = INT64
        elif m in ("plus", "times") or mult not in ("first", "second", "land", "lor"):
            raise KeyError(f"{op.name} does not work with BOOL")
    if op.dt is BOOL and m == "plus":
        raise KeyError("plus semiring on BOOL")
    f, rdt = bin_fn(mult, dt)

    def dot(dim, fa_, fb_):
        def cond(k):
            return And(fa_(k)[0], fb_(k)[0])

        def val(k):
            return f(cast(fa_(k)[1], a.dt, dt), cast(fb_(k)[1], b.dt, dt))

        return mon_reduce(m, rdt, dim, cond, val)

    if len(a.shape) == 2 and len(b.shape) == 2:
        dims_equal(a.shape[1], b.shape[0], "matrix product")
        K = a.shape[1]
        return Val((a.shape[0], b.shape[1]), rdt, lambda i, j: dot(K, lambda k: a.at(i, k), lambda k: b.at(k, j)))
    if len(a.shape) == 2:
        dims_equal(a.shape[1], b.shape[0], "matrix-vector product")
        K = a.shape[1]
        return Val((a.shape[0],), rdt, lambda i: dot(K, lambda k: a.at(i, k), lambda k: b.at(k)))
    if len(b.shape) == 2:
        dims_equal(a.shape[0], b.shape[0], "vector-matrix product")
        K = a.shape[0]
        return Val((b.shape[1],), rdt, lambda j: dot(K, lambda k: a.at(k), lambda k: b.at(k, j)))
    dims_equal(a.shape[0], b.shape[0], "inner product")
    K = a.shape[0]
    return Val((), rdt, lambda: dot(K, lambda k: a.at(k), lambda k: b.at(k)))


def select_val(name, v, thunk=None):
    if name in ("triu", "tril", "offdiag", "diag"):
        k = ZERO if thunk is None else scalar_val(thunk).at()[1]

        def c(i, j):
            if name == "triu":
                return le(add(i, k), j)
            if name == "tril":
                return le(j, add(i, k))
            if name == "offdiag":
                return ne(add(i, k), j)
            return eq(add(i, k), j)

        def g(i, j):
            p, x = v.at(i, j)
            return And(p, c(i, j)), x

        return Val(v.shape, v.dt, g)
    if name.startswith("value"):
        s = scalar_val(thunk)
        opn = {"valuele": "le", "valuelt": "lt", "valuege": "ge", "valuegt": "gt", "valueeq": "eq", "valuene": "ne"}.get(name)
        if opn is None:
            raise Unsupported(f"select {name}")
        # the threshold is cast to the dtype of the tensor by GraphBLAS; python-graphblas unifies the two first
        dt = unify(v.dt, s.dt, is_right_scalar=True)
        f, _ = bin_fn(opn, dt)
        sv = cast(s.at()[1], s.dt, dt)

        def g(*i):
            p, x = v.at(*i)
            return And(p, f(cast(x, v.dt, dt), sv)), x

        return Val(v.shape, v.dt, g)
    raise Unsupported(f"select {name}")


def select_apply(op, x, thunk=None):
    if op.name == "value":
        if isinstance(x, CmpExpr):
            return Expr(lambda: x.selected())
        raise Unsupported("select.value of something other than a comparison")
    return Expr(lambda: select_val(op.name, as_val(x), thunk))


def iu_apply(op, x, thunk=0):
    n = op.name

    def mk():
        v = as_val(x)
        if n in ("offdiag", "triu", "tril", "diag"):
            s = select_val(n, v, thunk if not (isinstance(thunk, int) and thunk == 0) else None)
            return Val(v.shape, BOOL, lambda i, j: (v.pres(i, j), And(v.pres(i, j), s.pres(i, j)) if v.pres(i, j) is not TRUE else s.pres(i, j)))
        dt = op.dt or (INT32 if v.dt is INT32 else INT64)
        k = term_of(thunk)
        if n in ("index", "rowindex"):
            return Val(v.shape, dt, lambda *i: (v.pres(*i), cast(add(i[0], k), INT64, dt)))
        if n == "colindex":
            return Val(v.shape, dt, lambda *i: (v.pres(*i), cast(add(i[1], k), INT64, dt)))
        raise Unsupported(f"indexunary.{n}")

    return Expr(mk)


# ------------------------------------------------------------------ reductions
def red_op(op, dt, default="plus"):
    if op is None:
        op = monoid.plus if dt is not BOOL else monoid.plus
    if not isinstance(op, Op):
        raise Unsupported("reduction operator")
    return op


def reduce_dim(op, v_dt, dim, cond, val):
    """(exists, value, dtype)"""
    if op.kind == "agg":
        if op.name == "count":
            e = ex(dim, cond)
            return e, tsum(dim, cond), INT64
        if op.name == "sum":
            op = monoid.plus
        elif op.name in ("min", "max"):
            op = getattr(monoid, op.name)
        elif op.name == "any_value":
            op = monoid.any
        else:
            raise Unsupported(f"aggregator {op.name}")
    if op.kind in ("binary", "monoid"):
        if op.name not in MONOIDS:
            raise Unsupported(f"reduction by {op.name}")
        dt = op._in(v_dt)
        if op.name in ("lor", "land", "lxor") and op.dt is None:
            dt = BOOL
        e, x = mon_reduce(op.name, dt, dim, cond, (lambda k: cast(val(k), v_dt, dt)))
        return e, x, dt
    raise Unsupported(f"reduction by {op!r}")


def red_dtype(op, dt):
    if op.kind == "agg":
        return INT64 if op.name == "count" else dt
    if op.name in ("lor", "land", "lxor") and op.dt is None:
        return BOOL
    return op._in(dt)


def reduce_rows(v, op, axis):
    """axis 1: combine columns (rowwise)"""
    op = red_op(op, v.dt)
    if op.kind != "agg" and op.name == "plus" and v.dt is BOOL and op.dt is None and op.kind == "monoid":
        raise KeyError("plus does not work with BOOL")
    rdt = red_dtype(op, v.dt)
    if axis == 1:
        def g(i):
            e, x, _ = reduce_dim(op, v.dt, v.shape[1], lambda j: v.pres(i, j), lambda j: v.value(i, j))
            return e, x
        return Val((v.shape[0],), rdt, g)

    def g(j):
        e, x, _ = reduce_dim(op, v.dt, v.shape[0], lambda i: v.pres(i, j), lambda i: v.value(i, j))
        return e, x
    return Val((v.shape[1],), rdt, g)


def reduce_all(v, op):
    op = red_op(op, v.dt)
    if len(v.shape) == 2:
        if v.dt is BOOL and op.kind != "agg" and op.name == "plus":
            raise KeyError("plus does not work with BOOL")
        rdt = red_dtype(op, v.dt)

        def g():
            R, C = v.shape
            e = ex(R, lambda i: ex(C, lambda j: v.pres(i, j)))
            if op.kind == "agg" and op.name == "count":
                return e, v.nvals()
            _, x, _ = reduce_dim(op, rdt, R, lambda i: ex(C, lambda j: v.pres(i, j)),
                                 lambda i: reduce_dim(op, v.dt, C, lambda j: v.pres(i, j), lambda j: v.value(i, j))[1])
            if op.name in ("plus", "sum"):
                # sum over all stored entries
                x = tsum(R, lambda i: tsum(C, lambda j: ite(v.pres(i, j), v.value(i, j), v.dt.zero)))
                x = toreal(x) if v.dt.sort == "R" else x
            return e, x
        return Val((), rdt, g)
    if v.dt is BOOL and op.kind != "agg" and op.name == "plus":
        raise KeyError("plus does not work with BOOL")
    rdt = red_dtype(op, v.dt)

    def g():
        e, x, _ = reduce_dim(op, v.dt, v.shape[0], lambda i: v.pres(i), lambda i: v.value(i))
        return e, x
    return Val((), rdt, g)


# ------------------------------------------------------------------ masks
class Mask:
    def __init__(self, parent, structure, complement):
        self.parent, self.structure, self.complement = parent, structure, complement
        self.value = not structure

    def __invert__(self):
        return Mask(self.parent, self.structure, not self.complement)

    def __and__(self, o):
        if not isinstance(o, Mask):
            return NotImplemented
        a, b = self.cond(), o.cond()
        if self.shape != o.shape:
            raise DimensionMismatch("masks of different sizes")
        return Mask(_MaskParent(self.shape, lambda *i: And(a(*i), b(*i))), True, False)

    def __or__(self, o):
        if not isinstance(o, Mask):
            return NotImplemented
        a, b = self.cond(), o.cond()
        if self.shape != o.shape:
            raise DimensionMismatch("masks of different sizes")
        return Mask(_MaskParent(self.shape, lambda *i: Or(a(*i), b(*i))), True, False)

    @property
    def shape(self):
        return as_val(self.parent).shape

    def cond(self):
        """snapshot of the mask condition"""
        v = as_val(self.parent)
        if self.structure:
            b = lambda *i: v.pres(*i)
        else:
            b = lambda *i: And(v.pres(*i), truthy(v.value(*i)))
        return (lambda *i: Not(b(*i))) if self.complement else b

    def new(self, dtype=None, *, complement=False, mask=None, name=None):
        dt = lookup_dtype(dtype) if dtype is not None else BOOL
        c = self.cond()
        if complement:
            c0 = c
            c = lambda *i: Not(c0(*i))
        if mask is not None:
            m = mask.cond()
            c1 = c
            c = lambda *i: And(c1(*i), m(*i))
        v = Val(self.shape, dt, lambda *i: (c(*i), dt.one))
        return mk_tensor(v, name)


def _MaskParent(shape, c):
    return mk_tensor(Val(shape, BOOL, lambda *i: (c(*i), TRUE)))


def tensor_mask(t, structure):
    return Mask(t, structure, False)


# ------------------------------------------------------------------ tensor operations shared by holders and expressions
class TensorOps:
    __hash__ = None
    name = None

    # elementwise infix
    def __and__(self, o):
        return Infix("&", self, o) if _operand(o) else NotImplemented

    def __or__(self, o):
        return Infix("|", self, o) if _operand(o) else NotImplemented

    def __rand__(self, o):
        return Infix("&", o, self) if _operand(o) else NotImplemented

    def __ror__(self, o):
        return Infix("|", o, self) if _operand(o) else NotImplemented

    def __matmul__(self, o):
        return Infix("@", self, o) if _operand(o) else NotImplemented

    def _arith(self, o, opname, rev=False):
        if is_scalar(o):
            op = getattr(binary, opname)
            a, b = (o, self) if rev else (self, o)
            if opname in ("plus", "minus", "times") and as_val(self).dt is BOOL and scalar_val(o).dt is BOOL:
                pass
            return CmpExpr(op, a, b) if opname in CMPS else Expr(lambda: bin_scalar(op, a, b))
        if not _operand(o):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        op = getattr(binary, opname)
        if opname == "plus":
            return Expr(lambda: ewise(op, as_val(a), as_val(b), "add"))
        if opname == "minus":
            return Expr(lambda: ewise(op, as_val(a), as_val(b), "union", 0, 0))
        return Expr(lambda: ewise(op, as_val(a), as_val(b), "mult"))

    def __add__(self, o):
        return self._arith(o, "plus")

    def __radd__(self, o):
        return self._arith(o, "plus", True)

    def __sub__(self, o):
        return self._arith(o, "minus")

    def __rsub__(self, o):
        return self._arith(o, "minus", True)

    def __mul__(self, o):
        return self._arith(o, "times")

    def __rmul__(self, o):
        return self._arith(o, "times", True)

    def __truediv__(self, o):
        return self._arith(o, "truediv")

    def __rtruediv__(self, o):
        return self._arith(o, "truediv", True)

    def __floordiv__(self, o):
        return self._arith(o, "floordiv")

    def __neg__(self):
        return unary.ainv(self)

    def __abs__(self):
        return unary.abs(self)

    def __eq__(self, o):
        return self._arith(o, "eq")

    def __ne__(self, o):
        return self._arith(o, "ne")

    def __lt__(self, o):
        return self._arith(o, "lt")

    def __le__(self, o):
        return self._arith(o, "le")

    def __gt__(self, o):
        return self._arith(o, "gt")

    def __ge__(self, o):
        return self._arith(o, "ge")

    # attributes
    @property
    def dtype(self):
        return self._val().dt

    @property
    def nvals(self):
        return lift(self._val().nvals())

    @property
    def nrows(self):
        return lift(self._val().shape[0])

    @property
    def ncols(self):
        return lift(self._val().shape[1])

    @property
    def size(self):
        return lift(self._val().shape[0])

    @property
    def shape(self):
        return tuple(lift(d) for d in self._val().shape)

    @property
    def ndim(self):
        return len(self._val().shape)

    @property
    def S(self):
        return tensor_mask(self, True)

    @property
    def V(self):
        return tensor_mask(self, False)

    @property
    def T(self):
        return TransposedMatrix(self)

    def new(self, dtype=None, *, mask=None, name=None):
        v = self._val()
        if dtype is not None:
            v = v.cast(lookup_dtype(dtype))
        return mk_tensor(mask_val(v, mask), name)

    def dup(self, dtype=None, *, clear=False, mask=None, name=None):
        v = self._val()
        if dtype is not None:
            v = v.cast(lookup_dtype(dtype))
        if clear:
            v = empty_val(v.shape, v.dt)
        return mk_tensor(mask_val(v, mask), name)

    def get(self, *args):
        v = self._val()
        nd = len(v.shape)
        idx, rest = args[:nd], args[nd:]
        default = rest[0] if rest else None
        i = tuple(index_term(x, d) for x, d in zip(idx, v.shape))
        p, x = v.at(*i)
        return opt(p, x, default)

    def reduce(self, op=None):
        v = self._val()
        if len(v.shape) == 2:
            raise AttributeError("Matrix has no attribute 'reduce'")
        return ScalarExpr(lambda: reduce_all(self._val(), op))

    def reduce_scalar(self, op=None):
        if op is None:
            op = monoid.plus
        return ScalarExpr(lambda: reduce_all(self._val(), op))

    def reduce_rowwise(self, op=None):
        if op is None:
            op = monoid.plus
        return Expr(lambda: reduce_rows(self._val(), op, 1))

    def reduce_columnwise(self, op=None):
        if op is None:
            op = monoid.plus
        return Expr(lambda: reduce_rows(self._val(), op, 0))

    def isequal(self, o, *, check_dtype=False):
        a, b = self._val(), as_val(o)
        if check_dtype and a.dt is not b.dt:
            return False
        if a.shape is not b.shape and tuple(a.shape) != tuple(b.shape):
            if len(a.shape) != len(b.shape):
                return False
            if not truth(lift(And(*[eq(x, y) for x, y in zip(a.shape, b.shape)]))):
                return False

        def same(*i):
            pa, va = a.at(*i)
            pb, vb = b.at(*i)
            return And(Iff(pa, pb), Implies(pa, eq(*_num2(va, vb))))
        if len(a.shape) == 1:
            return lift(fa(a.shape[0], same))
        return lift(fa(a.shape[0], lambda i: fa(a.shape[1], lambda j: same(i, j))))

    def diag(self, k=0, *, name=None):
        v = self._val()
        if k != 0:
            raise Unsupported("diag offset")
        if len(v.shape) == 1:
            def g(i, j):
                p, x = v.at(i)
                return And(eq(i, j), p), x
            return mk_tensor(Val((v.shape[0], v.shape[0]), v.dt, g), name)
        dims_equal(v.shape[0], v.shape[1], "diag of a square matrix")
        return mk_tensor(Val((v.shape[0],), v.dt, lambda i: v.at(i, i)), name)

    def outer(self, o, op=None):
        op = op or binary.times

        def mk():
            a, b = self._val(), as_val(o)
            dt = op._in(unify(a.dt, b.dt))
            f, rdt = bin_fn(op.name, dt)

            def g(i, j):
                pa, va = a.at(i)
                pb, vb = b.at(j)
                return And(pa, pb), f(cast(va, a.dt, dt), cast(vb, b.dt, dt))
            return Val((a.shape[0], b.shape[0]), rdt, g)
        return Expr(mk)

    def apply(self, op, right=None, *, left=None):
        if op.kind == "unary":
            return op(self)
        if op.kind == "indexunary":
            return op(self, 0 if right is None else right)
        return Expr(lambda: bin_scalar(op, self, right) if left is None else bin_scalar(op, left, self))

    def ewise_mult(self, o, op=None):
        return Expr(lambda: ewise(op or binary.times, self._val(), as_val(o), "mult"))

    def ewise_add(self, o, op=None):
        return Expr(lambda: ewise(op or monoid.plus, self._val(), as_val(o), "add"))

    def ewise_union(self, o, op, left_default, right_default):
        return Expr(lambda: ewise(op, self._val(), as_val(o), "union", left_default, right_default))

    def mxm(self, o, op=None):
        return Expr(lambda: matmul(op or semiring.plus_times, self, o))

    mxv = mxm
    vxm = mxm

    def select(self, op, thunk=None):
        if isinstance(op, str):
            op = getattr(select, op)
        return select_apply(op, self, thunk)

    def __contains__(self, idx):
        v = self._val()
        if not isinstance(idx, tuple):
            idx = (idx,)
        return truth(lift(v.pres(*[index_term(x, d) for x, d in zip(idx, v.shape)])))

    def __bool__(self):
        raise TypeError("truth value of a tensor")

    def __getitem__(self, key):
        return extract(self, key)

    def __iter__(self):
        import vc
        return iter(self.to_coo(values=False)[0])

    def __len__(self):
        raise Unsupported("len of a tensor")

    def to_coo(self, dtype=None, *, indices=True, values=True, rows=None, columns=None, sort=True):
        import symcol
        v = self._val()
        if len(v.shape) == 1:
            E = symcol.enum_of(v, sort)
            return (E.index_array() if indices else None, E.value_array() if values else None)
        E = symcol.enum2_of(v)
        return (E.row_array() if rows is not False else None, E.col_array() if columns is not False else None, E.value_array() if values else None)

    @property
    def ss(self):
        return SS(self)

    @property
    def _is_transposed(self):
        return False

    def __repr__(self):
        return f"<{type(self).__name__}>"


CMPS = {"eq", "ne", "lt", "le", "gt", "ge"}


def _num2(a, b):
    if a.sort == "B" and b.sort != "B":
        return toint(a), b
    if b.sort == "B" and a.sort != "B":
        return a, toint(b)
    return a, b


def _operand(o):
    return is_tensor(o)


def opt(p, x, default):
    """stored value or default"""
    if p is TRUE:
        return lift(x)
    if p is FALSE:
        return default
    if is_scalar(default) and not isinstance(default, (Scalar, ScalarExpr)):
        d = term_of(default)
        if d.sort == x.sort:
            return lift(ite(p, x, d))
        if d.sort != "B" and x.sort != "B":
            # a missing value yields the default itself (an int), otherwise the stored number: same mathematical number
            return lift(ite(p, toreal(x), toreal(d)))
    return lift(x) if truth(lift(p)) else default


def index_term(x, dim):
    if isinstance(x, (Scalar, ScalarExpr)):
        x = x.value
    if isinstance(x, float) and x.is_integer():
        x = int(x)
    if not isinstance(x, (int, SymNum, SymBool)):
        raise TypeError(f"invalid index type {type(x).__name__}")
    t = toint(term_of(x))
    if is_const(t) and cval(t) < 0:
        t = add(dim, t)
    if t in HARD and IDX_DIM.get(t) is dim:
        return t
    ok = And(le(ZERO, t), lt(t, dim))
    if ok is FALSE:
        raise IndexError("index out of range")
    if sym.CTX is not None and ok is not TRUE and sym.CTX.known(ok) is not True:
        sym.CTX.ensure("index in range", ok, kind="pre")
        sym.CTX.assume(ok)
    return t


def mask_val(v, mask):
    if mask is None:
        return v
    if not isinstance(mask, Mask):
        raise TypeError("mask must be a mask")
    c = mask.cond()

    def g(*i):
        p, x = v.at(*i)
        return And(p, c(*i)), x
    return Val(v.shape, v.dt, g)


def mk_tensor(v, name=None):
    cls = {0: Scalar, 1: Vector, 2: Matrix}[len(v.shape)]
    r = cls.__new__(cls)
    r._v, r.frozen, r.name = v, None, name
    return r


# ------------------------------------------------------------------ expressions
class Expr(TensorOps):
    """delayed expression"""

    def __init__(self, thunk):
        self._thunk = thunk

    def _val(self):
        return self._thunk()


class CmpExpr(Expr):
    """x < scalar, remembered so that select.value can use it"""

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        self._thunk = lambda: bin_scalar(op, a, b)

    def selected(self):
        t = as_val(self.b if is_scalar(self.a) else self.a)
        m = self._thunk()

        def g(*i):
            p, x = t.at(*i)
            return And(p, m.value(*i)), x
        return Val(t.shape, t.dt, g)


class Infix(TensorOps):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def mk(self, thunk):
        if self.op == "@":
            a, b = as_val(self.a), as_val(self.b)
            if len(a.shape) == 1 and len(b.shape) == 1:
                return ScalarExpr(thunk)
        return Expr(thunk)

    def _val(self):
        if self.op == "@":
            return matmul(semiring.plus_times, self.a, self.b)
        if as_val(self.a).dt is BOOL and as_val(self.b).dt is BOOL:
            return ewise(binary.land if self.op == "&" else binary.lor, as_val(self.a), as_val(self.b), "mult" if self.op == "&" else "add")
        raise TypeError("bare infix expression of non-boolean tensors")

    def get(self, *a):
        v = self._val()
        if v.shape == ():
            return opt(*v.at(), a[0] if a else None)
        return TensorOps.get(self, *a)

    @property
    def value(self):
        return opt(*self._val().at(), None)

    def __bool__(self):
        v = self._val()
        if v.shape == ():
            return truth(lift(And(v.at()[0], truthy(v.at()[1]))))
        raise TypeError("truth value of an expression")


class TransposedMatrix(TensorOps):
    def __init__(self, m):
        self._matrix = m

    @property
    def T(self):
        return self._matrix

    def _val(self):
        v = self._matrix._val()
        return Val((v.shape[1], v.shape[0]), v.dt, lambda i, j: v.at(j, i))

    @property
    def _is_transposed(self):
        return True

    @property
    def S(self):
        raise AttributeError("'TransposedMatrix' object has no attribute 'S'")

    V = S

    def diag(self, *a, **k):
        raise AttributeError("diag")


class ScalarExpr(TensorOps):
    def __init__(self, thunk):
        self._thunk = thunk

    def _val(self):
        return self._thunk()

    @property
    def value(self):
        p, x = self._val().at()
        return opt(p, x, None)

    def get(self, default=None):
        p, x = self._val().at()
        return opt(p, x, default)

    def new(self, dtype=None, *, name=None, mask=None):
        v = self._val()
        if dtype is not None:
            v = v.cast(lookup_dtype(dtype))
        return mk_tensor(v, name)

    @property
    def is_empty(self):
        return lift(Not(self._val().at()[0]))

    @property
    def nvals(self):
        return lift(toint(self._val().at()[0]))

    def __bool__(self):
        p, x = self._val().at()
        return truth(lift(And(p, truthy(x))))

    def _cmp(self, o, f):
        if not is_scalar(o):
            return NotImplemented
        b = scalar_val(o)
        a = self._val()
        p = And(a.at()[0], b.at()[0])
        x, y = _num2(a.at()[1], b.at()[1])
        return lift(And(p, f(x, y)))

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: lt(toint(x), toint(y)))

    def __le__(self, o):
        return self._cmp(o, lambda x, y: le(toint(x), toint(y)))

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: gt(toint(x), toint(y)))

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: ge(toint(x), toint(y)))

    def __eq__(self, o):
        if o is None:
            return lift(Not(self._val().at()[0]))
        if not is_scalar(o):
            return NotImplemented
        b = scalar_val(o)
        a = self._val()
        pa, pb = a.at()[0], b.at()[0]
        x, y = _num2(a.at()[1], b.at()[1])
        return lift(And(Iff(pa, pb), Implies(pa, eq(x, y))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r) if not isinstance(r, bool) else not r

    __hash__ = None

    def _arith(self, o, opname, rev=False):
        if is_scalar(o):
            a, b = (scalar_val(o), self._val()) if rev else (self._val(), scalar_val(o))
            dt = unify(a.dt, b.dt)
            f, rdt = bin_fn(opname, dt)
            return ScalarExpr(lambda: Val((), rdt, lambda: (And(a.at()[0], b.at()[0]), f(cast(a.at()[1], a.dt, dt), cast(b.at()[1], b.dt, dt)))))
        return NotImplemented

    def __and__(self, o):
        return Infix("&", self, o) if isinstance(o, ScalarExpr) else NotImplemented

    def __or__(self, o):
        return Infix("|", self, o) if isinstance(o, ScalarExpr) else NotImplemented

    def _as_term(self):
        p, x = self._val().at()
        if p is not TRUE:
            if not truth(lift(p)):
                raise TypeError("empty scalar used as a number")
        return x

    def _as_vector(self, name=None):
        v = self._val()
        return mk_tensor(Val((ONE,), v.dt, lambda i: v.at()), name)

    def __index__(self):
        raise Unsupported("scalar as index")


# ------------------------------------------------------------------ holders
class Tensor(TensorOps):
    frozen = None

    def _val(self):
        return self._v

    def _set(self, v):
        if self.frozen:
            sym.CTX.ensure(f"frame: {self.frozen} is not modified", FALSE, kind="frame")
        self._v = v
        import vc
        vc.touched(self)

    def _update(self, rhs, mask=None, accum=None, repl=False):
        C = self._v
        if isinstance(rhs, (Scalar, ScalarExpr)) or is_scalar(rhs):
            s = scalar_val(rhs)
            T = Val(C.shape, s.dt, lambda *i: s.at())
            if accum is None:
                T = T.cast(C.dt)
        elif isinstance(rhs, Mask):
            T = rhs.new()._v
        elif is_tensor(rhs):
            T = rhs._val()
            if len(T.shape) != len(C.shape):
                if len(C.shape) == 2 and len(T.shape) == 1:
                    raise TypeError("cannot assign a vector to a matrix")
                raise TypeError("rank mismatch in assignment")
            for a, b in zip(C.shape, T.shape):
                dims_equal(a, b, "assignment")
        else:
            raise TypeError(f"cannot assign {type(rhs).__name__}")
        self._set(assign_val(C, T, mask, accum, repl))

    def __lshift__(self, rhs):
        self._update(rhs)
        return None

    def update(self, rhs):
        self._update(rhs)

    def __call__(self, *args, mask=None, accum=None, replace=False, **kw):
        r = replace
        for a in args:
            if isinstance(a, Mask):
                mask = a
            elif a is REPLACE:
                r = True
            elif isinstance(a, Op):
                accum = a
            else:
                raise TypeError(f"bad updater argument {type(a).__name__}")
        return Updater(self, mask, accum, bool(r))

    def __setitem__(self, key, rhs):
        assign_index(self, key, rhs, None, None, False)

    def __delitem__(self, key):
        v = self._v
        if not isinstance(key, tuple):
            key = (key,)
        idx = tuple(index_term(x, d) for x, d in zip(key, v.shape))

        def g(*i):
            p, x = v.at(*i)
            return And(p, Not(And(*[eq(a, b) for a, b in zip(i, idx)]))), x
        self._set(Val(v.shape, v.dt, g))

    def clear(self):
        self._set(empty_val(self._v.shape, self._v.dt))

    def _iop(self, o, opname, mode):
        if opname == "matmul":
            e = self @ o
        else:
            e = self._arith(o, opname)
        if e is NotImplemented:
            return NotImplemented
        self._update(e)
        return self

    def __iadd__(self, o):
        return self._iop(o, "plus", "add")

    def __isub__(self, o):
        return self._iop(o, "minus", "add")

    def __imul__(self, o):
        return self._iop(o, "times", "mult")

    def __itruediv__(self, o):
        return self._iop(o, "truediv", "mult")

    def __ifloordiv__(self, o):
        return self._iop(o, "floordiv", "mult")

    def __imatmul__(self, o):
        return self._iop(o, "matmul", None)

    def __ior__(self, o):
        raise Unsupported("|=")

    __iand__ = __ior__

    def __copy__(self):
        return self.dup()

    def __deepcopy__(self, memo):
        return self.dup()


def accum_fn(op, cdt, tdt):
    dt = op._in(unify(cdt, tdt))
    f, rdt = bin_fn(op.name, dt)
    return dt, f, rdt


def assign_val(C, T, mask, accum, repl, region=None):
    """GraphBLAS assignment: C(mask, accum, replace) << T; region(*i): positions addressed (assign), default all"""
    m = mask.cond() if mask is not None else None
    if accum is not None:
        dt, f, rdt = accum_fn(accum, C.dt, T.dt)

    def g(*i):
        pc, vc_ = C.at(*i)
        pt, vt = T.at(*i)
        if accum is None:
            zp, zv = pt, cast(vt, T.dt, C.dt)
        else:
            both = cast(f(cast(vc_, C.dt, dt), cast(vt, T.dt, dt)), rdt, C.dt)
            zp, zv = Or(pc, pt), ite(pc, ite(pt, both, vc_), cast(vt, T.dt, C.dt))
        if region is not None:
            r = region(*i)
            zp, zv = Or(And(r, zp), And(Not(r), pc)), ite(r, zv, vc_)
        if m is None:
            return zp, zv
        mi = m(*i)
        if repl:
            return And(mi, zp), zv
        return Or(And(mi, zp), And(Not(mi), pc)), ite(mi, zv, vc_)

    return Val(C.shape, C.dt, g)


class Updater:
    def __init__(self, t, mask, accum, repl):
        self.t, self.mask, self.accum, self.repl = t, mask, accum, repl
        if isinstance(t, Expr):
            raise TypeError("cannot assign to an expression")

    def __lshift__(self, rhs):
        self.t._update(rhs, self.mask, self.accum, self.repl)

    def update(self, rhs):
        self << rhs

    def __setitem__(self, key, rhs):
        assign_index(self.t, key, rhs, self.mask, self.accum, self.repl)

    def __getitem__(self, key):
        return IndexUpdater(self, key)


class IndexUpdater:
    def __init__(self, u, key):
        self.u, self.key = u, key

    def __lshift__(self, rhs):
        self.u[self.key] = rhs


class _Replace:
    pass


REPLACE = _Replace()


class Vector(Tensor):
    def __init__(self, dtype=FP64, size=0, *, name=None):
        dt = lookup_dtype(dtype)
        self._v, self.frozen, self.name = empty_val((dim_term(size),), dt), None, name

    @classmethod
    def from_coo(cls, indices, values=1.0, dtype=None, *, size=None, dup_op=None, name=None):
        import symcol
        return symcol.vector_from_coo(indices, values, dtype, size, dup_op, name)

    @classmethod
    def from_scalar(cls, value, size, dtype=None, *, name=None):
        s = scalar_val(value)
        if dtype is not None:
            s = s.cast(lookup_dtype(dtype))
        return mk_tensor(Val((dim_term(size),), s.dt, lambda i: s.at()), name)

    @classmethod
    def from_dense(cls, values, missing_value=None, *, dtype=None, name=None):
        raise Unsupported("Vector.from_dense")

    @property
    def _is_scalar(self):
        return False


class Matrix(Tensor):
    def __init__(self, dtype=FP64, nrows=0, ncols=0, *, name=None):
        dt = lookup_dtype(dtype)
        self._v, self.frozen, self.name = empty_val((dim_term(nrows), dim_term(ncols)), dt), None, name

    @classmethod
    def from_coo(cls, rows, columns, values=1.0, dtype=None, *, nrows=None, ncols=None, dup_op=None, name=None):
        import symcol
        return symcol.matrix_from_coo(rows, columns, values, dtype, nrows, ncols, dup_op, name)


class Scalar(ScalarExpr, Tensor):
    def __init__(self, dtype=FP64, *, name=None, is_cscalar=None):
        dt = lookup_dtype(dtype)
        self._v, self.frozen, self.name = Val((), dt, lambda: (FALSE, dt.zero)), None, name

    def _val(self):
        return self._v

    @classmethod
    def from_value(cls, value, dtype=None, *, name=None, is_cscalar=None):
        s = scalar_val(value, lookup_dtype(dtype) if dtype is not None else None)
        return mk_tensor(s, name)

    def dup(self, dtype=None, *, clear=False, name=None):
        return self.new(dtype, name=name)

    @property
    def value(self):
        return ScalarExpr.value.fget(self)

    @value.setter
    def value(self, x):
        self._set(scalar_val(x, self._v.dt))

    __hash__ = None


def dim_term(n):
    t = toint(term_of(n))
    if is_const(t) and cval(t) < 0:
        raise ValueError("negative dimension")
    if not is_const(t) and sym.CTX is not None:
        ok = le(ZERO, t)
        if sym.CTX.known(ok) is not True and not P.nonneg(t):
            sym.CTX.ensure("dimension is not negative", ok, kind="pre")
            sym.CTX.assume(ok)
    return t


class SS:
    def __init__(self, t):
        self.t = t

    @property
    def is_iso(self):
        h = getattr(self.t, "_iso", None)
        if h is None:
            # may be any value for which all stored values agree
            v = self.t._val()
            raise Unsupported("ss.is_iso of an unmodelled tensor")
        return h[0]

    @property
    def iso_value(self):
        v = self.t._val()
        if not sym.truth(sym.lift(ex(v.shape[0], lambda i: ex(v.shape[1], lambda j: v.pres(i, j))))):
            raise StopIteration   # no entry to take it from
        return self.t._iso[1]

    def __getattr__(self, n):
        raise Unsupported(f"ss.{n}")


# ------------------------------------------------------------------ indexing
def norm_index(k, dim):
    """('i', term) | ('all',) | ('slice', start, length) | ('arr', SymArr)"""
    import symcol
    if isinstance(k, slice):
        if k.start is None and k.stop is None and k.step is None:
            return ("slice", ZERO, dim)
        if k.step is not None:
            raise Unsupported("slice step")
        a = ZERO if k.start is None else clamp(term_of(k.start), dim)
        b = dim if k.stop is None else clamp(term_of(k.stop), dim)
        return ("slice", a, sub(b, a))
    if isinstance(k, symcol.SymArr):
        k.check_range(dim)
        return ("arr", k)
    if isinstance(k, (list, tuple)):
        return ("arr", symcol.ConcArr([index_term(x, dim) for x in k]))
    if isinstance(k, symcol.SymList):
        return ("arr", k.as_array(dim))
    if hasattr(k, "_as_symarr"):
        return ("arr", k._as_symarr(dim))
    return ("i", index_term(k, dim))


def clamp(t, dim):
    if t is dim or t is ZERO:
        return t
    c = sym.CTX
    if is_const(t) and is_const(dim):
        v, n = cval(t), cval(dim)
        if v < 0:
            v = max(0, v + n)
        return const(min(v, n))
    ok = And(le(ZERO, t), le(t, dim))
    c.ensure("slice bound within the dimension", ok, kind="pre")
    c.assume(ok)
    return t


def extract(x, key):
    v0 = x._val()
    if not isinstance(key, tuple):
        key = (key,)
    if len(key) != len(v0.shape):
        raise IndexError("wrong number of indices")
    ks = [norm_index(k, d) for k, d in zip(key, v0.shape)]

    def dimof(k):
        return k[2] if k[0] == "slice" else k[1].length

    shape = tuple(dimof(k) for k in ks if k[0] != "i")

    def mk():
        v = x._val()

        def g(*i):
            it = iter(i)
            idx = []
            for k in ks:
                if k[0] == "i":
                    idx.append(k[1])
                elif k[0] == "slice":
                    idx.append(add(next(it), k[1]))
                else:
                    idx.append(k[1].get(next(it)))
            return v.at(*idx)
        return Val(shape, v.dt, g)

    if not shape:
        return ScalarExpr(mk)
    e = Expr(mk)
    e._index_of = (x, ks)
    return e


def assign_index(t, key, rhs, mask, accum, repl):
    C = t._v
    if not isinstance(key, tuple):
        key = (key,)
    if len(key) != len(C.shape):
        raise IndexError("wrong number of indices")
    ks = [norm_index(k, d) for k, d in zip(key, C.shape)]

    def locate(i):
        """(addressed?, indices into rhs)"""
        cond, loc = [], []
        for k, x in zip(ks, i):
            if k[0] == "i":
                cond.append(eq(x, k[1]))
            elif k[0] == "slice":
                if k[1] is not ZERO:
                    cond.append(le(k[1], x))
                if k[2] is not None and not (k[1] is ZERO and k[2] is C.shape[len(loc)] if False else False):
                    cond.append(lt(x, add(k[1], k[2])))
                loc.append(sub(x, k[1]))
            else:
                c, r = k[1].inverse(x)
                cond.append(c)
                loc.append(r)
        return And(*cond), loc

    if is_scalar(rhs):
        s = scalar_val(rhs)
        T = Val(C.shape, s.dt, lambda *i: s.at())
    else:
        if not is_tensor(rhs):
            if isinstance(rhs, (list,)):
                raise Unsupported("assignment of a list")
            raise TypeError(f"cannot assign {type(rhs).__name__}")
        R = rhs._val()
        shape = tuple(k[2] if k[0] == "slice" else k[1].length for k in ks if k[0] != "i")
        if len(shape) == len(R.shape) + 1 or len(shape) == len(R.shape):
            if len(shape) != len(R.shape):
                raise DimensionMismatch("assignment")
            for a, b in zip(shape, R.shape):
                dims_equal(a, b, "indexed assignment")
        T = Val(C.shape, R.dt, lambda *i: R.at(*locate(i)[1]))
    if mask is not None and any(k[0] != "slice" or k[1] is not ZERO or k[2] is not d for k, d in zip(ks, C.shape)):
        raise Unsupported("masked indexed assignment")
    t._set(assign_val(C, T, mask, accum, repl, region=lambda *i: locate(i)[0]))


# ------------------------------------------------------------------ module facade
def output_type(x):
    if isinstance(x, (Scalar, ScalarExpr)):
        return Scalar
    if isinstance(x, Tensor):
        return type(x)
    if is_tensor(x):
        return {0: Scalar, 1: Vector, 2: Matrix}[len(x._val().shape)]
    return type(x)


def ensure_type(x, types_):
    if not isinstance(types_, tuple):
        types_ = (types_,)
    if isinstance(x, TransposedMatrix) and Matrix in types_:
        return x
    if isinstance(x, types_):
        return x
    if isinstance(x, (Expr, Infix)) and output_type(x) in types_:
        return x.new()
    raise TypeError(f"Unable to convert {type(x).__name__} to Matrix")


def from_string(s):
    if s == "count":
        return agg.count
    if s in ("plus", "times", "min", "max", "any", "lor", "land", "first", "second"):
        return getattr(binary, s)
    raise ValueError(f"Unknown op string: {s!r}")


def find_opclass(op):
    if op.kind == "agg":
        return op, "UnknownOpClass"
    return op, {"binary": "BinaryOp", "monoid": "Monoid", "unary": "UnaryOp", "semiring": "Semiring"}[op.kind]


class NpType:
    def __init__(self, dt):
        self.dt = dt
        self._pytype = dt


def build_modules():
    """name -> stub module object"""
    gb = types.ModuleType("graphblas")
    gb.Matrix, gb.Vector, gb.Scalar = Matrix, Vector, Scalar
    gb.binary, gb.unary, gb.monoid, gb.semiring, gb.select, gb.indexunary, gb.agg = binary, unary, monoid, semiring, select, indexunary, agg
    gb.replace = REPLACE
    dtypes = types.ModuleType("graphblas.dtypes")
    for k, v in _ALL.items():
        setattr(dtypes, k, v)
    dtypes.unify = lambda a, b: unify(a, b)
    dtypes.lookup_dtype = lookup_dtype
    gb.dtypes = dtypes
    op = types.ModuleType("graphblas.op")
    op.from_string = from_string
    gb.op = op
    io = types.ModuleType("graphblas.io")

    def from_networkx(G, nodelist=None, dtype=None, weight="weight", name=None):
        return G._to_matrix(nodelist, dtype, weight)
    io.from_networkx = from_networkx
    io.to_networkx = lambda *a, **k: _unsup("io.to_networkx")
    gb.io = io
    core = types.ModuleType("graphblas.core")
    utils = types.ModuleType("graphblas.core.utils")
    utils.ensure_type, utils.output_type = ensure_type, output_type
    matrix = types.ModuleType("graphblas.core.matrix")
    matrix.TransposedMatrix, matrix.Matrix = TransposedMatrix, Matrix
    operator = types.ModuleType("graphblas.core.operator")
    operator.find_opclass = find_opclass
    core.utils, core.matrix, core.operator = utils, matrix, operator
    gb.core = core
    return {"graphblas": gb, "graphblas.dtypes": dtypes, "graphblas.op": op, "graphblas.io": io, "graphblas.core": core,
            "graphblas.core.utils": utils, "graphblas.core.matrix": matrix, "graphblas.core.operator": operator,
            "graphblas.semiring": semiring, "graphblas.binary": binary, "graphblas.unary": unary, "graphblas.monoid": monoid,
            "graphblas.select": select, "graphblas.indexunary": indexunary}


def _unsup(m):
    raise Unsupported(m)
