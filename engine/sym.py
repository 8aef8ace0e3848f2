"""Symbolic execution of the real Python text: path conditions, obligations and Python-level symbolic scalars."""
import builtins
import sys
import traceback
from fractions import Fraction

from terms import *
import terms as TM
from prove import prove, Prover


class Unsupported(Exception):
    """construct outside the verified subset"""


class PathEnd(BaseException):
    """this path is finished (loop iteration proved, infeasible, ...)"""


class Abort(BaseException):
    pass


class Obligation:
    __slots__ = ("name", "hyps", "goal", "path", "loop", "kind")

    def __init__(self, name, hyps, goal, path="", loop=None, kind="post"):
        self.name, self.hyps, self.goal, self.path, self.loop, self.kind = name, tuple(hyps), goal, path, loop, kind


class Ctx:
    """one symbolic execution of one path"""

    def __init__(self, prefix, ex):
        self.prefix = prefix
        self.trail = []          # list of (choice, had_alternative)
        self.hyps = []
        self.hset = set()
        self.obs = []
        self.ex = ex             # Explorer
        self.notes = []
        self.steps = 0
        self.labels = []
        self.loopcount = {}
        self.loop_exits = []
        self.ghost = {}
        self.ghosts = {}
        self.loops = {}
        self.memo = {}

    def assume(self, f):
        if f is TRUE:
            return
        if f.op == "and":
            for x in f.args:
                self.assume(x)
            return
        if f not in self.hset:
            self.hset.add(f)
            self.hyps.append(f)

    def known(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if f in self.hset:
            return True
        if Not(f) in self.hset:
            return False
        if f.op == "and":
            ks = [self.known(x) for x in f.args]
            if all(k is True for k in ks):
                return True
            if any(k is False for k in ks):
                return False
        if f.op == "or":
            ks = [self.known(x) for x in f.args]
            if any(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
        if f.op == "not":
            k = self.known(f.args[0])
            return None if k is None else not k
        return None

    def choose(self, n=2, label=""):
        """nondeterministic choice among n alternatives"""
        k = len(self.trail)
        if k < len(self.prefix):
            c = self.prefix[k][0]
        else:
            c = 0
        self.trail.append((c, n))
        if len(self.trail) > 400:
            raise Unsupported("path too long")
        return c

    def branch(self, f, label=""):
        k = self.known(f)
        if k is not None:
            return k
        pos = len(self.trail)
        if pos >= len(self.prefix):
            # new decision: prune infeasible sides
            feas = [self.ex.feasible(self.hyps, g) for g in (f, Not(f))]
            if not feas[0] and not feas[1]:
                raise PathEnd
            if not feas[0]:
                self.assume(Not(f))
                self.trail.append((1, 1))
                return False
            if not feas[1]:
                self.assume(f)
                self.trail.append((0, 1))
                return True
            c = 0
            self.trail.append((0, 2))
        else:
            c, alts = self.prefix[pos]
            self.trail.append((c, alts))
        self.assume(f if c == 0 else Not(f))
        return c == 0

    def ensure(self, name, goal, kind="post", loop=None):
        if isinstance(goal, SymBool):
            goal = goal.t
        elif isinstance(goal, bool):
            goal = const(goal)
        self.obs.append(Obligation(name, self.hyps, goal, "".join(str(c) for c, _ in self.trail), loop, kind))


class Explorer:
    """runs a harness along every path"""

    def __init__(self, harness, max_paths=4000):
        self.harness = harness
        self.max_paths = max_paths
        self.obs = []
        self.paths = 0
        self.ends = []
        self._open = {}
        self._feas = {}
        self.per_path = []
        self.loopinfo = {}

    def open_at(self, pos):
        return True

    def feasible(self, hyps, f):
        if f is FALSE:
            return False
        key = (frozenset(hyps), f)
        r = self._feas.get(key)
        if r is None:
            light = [h for h in hyps if not _heavy(h)]
            r = True
            if len(light) < len(hyps) and not _heavy(f):
                r = Prover(light, Not(f), rounds=6, timeout=250, maxgen=2, use_nf=False, total=1.0).solve() != "proved"
            if r:
                r = Prover(list(hyps), Not(f), rounds=8, timeout=250, maxgen=2, use_nf=False, total=1.0).solve() != "proved"
            self._feas[key] = r
        return r

    def run(self):
        global CTX
        stack = [()]
        while stack:
            prefix = stack.pop()
            ctx = Ctx(prefix, self)
            CTX = ctx
            for f in self.per_path:
                f()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths")
            end = "done"
            try:
                self.harness(ctx)
            except PathEnd:
                end = "cut"
            except Unsupported:
                raise
            except Exception as e:
                # the contract allows no exception here: the path must be impossible
                end = "exception"
                tb = traceback.extract_tb(e.__traceback__)
                where = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in tb if "/repo/" in f.filename or "<repo>" in f.filename]
                self.last_exc = e
                if isinstance(e, EngineError):
                    raise
                name = f"no {type(e).__name__} raised"
                ctx.exc = "".join(traceback.format_exception(e))[-2500:]
                o = Obligation(name, ctx.hyps, FALSE, "".join(str(c) for c, _ in ctx.trail), None, "exception")
                ctx.obs.append(o)
                ctx.notes.append(f"{type(e).__name__}: {e} at {where[-1:] or tb[-1:]}")
                o.name += f" ({type(e).__name__}: {str(e)[:80]} at {where[-1] if where else tb[-1].filename.rsplit('/',1)[-1] + ':' + str(tb[-1].lineno)})"
            self.obs.extend(ctx.obs)
            self.ends.append((end, tuple(ctx.hyps), ctx.notes))
            # alternatives
            for k in range(len(prefix), len(ctx.trail)):
                c, n = ctx.trail[k]
                for alt in range(c + 1, n):
                    stack.append(tuple(ctx.trail[:k]) + ((alt, n),))
        CTX = None
        return self.obs


_hv = {}


def _heavy(t):
    """mentions a sum or a quantifier"""
    r = _hv.get(t)
    if r is None:
        if t.op in ("c", "v", "b"):
            r = False
        elif t.op in TM.BINDERS or t.op == "msum":
            r = True
        elif t.op == "poly":
            r = any(_heavy(a) for m, _ in t.args for a in m)
        else:
            r = any(_heavy(a) for a in t.args if isinstance(a, TM.T))
        _hv[t] = r
    return r


class EngineError(Exception):
    pass


CTX = None


def ctx():
    return CTX


# ---------------------------------------------------------------- Python-level symbolic scalars
def term_of(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (SymBool, SymNum, SymKey)):
        return x.t
    if isinstance(x, (bool, int, float, Fraction)):
        return const(x)
    if type(x).__module__ == "numpy":
        return const(x.item())
    if hasattr(x, "_as_term"):
        return x._as_term()
    raise Unsupported(f"no term for {type(x).__name__}")


def lift(t):
    """term -> Python value (concrete when constant)"""
    if t.op == "c":
        v = cval(t)
        if isinstance(v, Fraction):
            return float(v) if v.denominator != 1 else SymNum(t) if False else float(v)
        return v
    if t.sort == "B":
        return SymBool(t)
    if t.sort == "K":
        return SymKey(t)
    return SymNum(t)


def is_sym(x):
    return isinstance(x, (SymBool, SymNum, SymKey))


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __and__(self, o):
        return lift(And(self.t, _bt(o)))

    __rand__ = __and__

    def __or__(self, o):
        return lift(Or(self.t, _bt(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return lift(Not(Iff(self.t, _bt(o))))

    def __invert__(self):
        return lift(Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return lift(Iff(self.t, _bt(o)))
        if isinstance(o, (int, float, SymNum)):
            return lift(eq(toint(self.t), term_of(o)))
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash("symbool")

    def __repr__(self):
        return f"SymBool({self.t})"

    def _num(self):
        return SymNum(toint(self.t))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    def item(self):
        return self


def not_(x):
    if isinstance(x, SymBool):
        return lift(Not(x.t))
    return not x


def _bt(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return const(x)
    raise Unsupported(f"boolean operand {type(x).__name__}")


def _is_num(x):
    return isinstance(x, (int, float, Fraction, SymNum, SymBool)) or hasattr(x, "_as_term")


def _infinite(o):
    """symbolic numbers are finite"""
    return isinstance(o, float) and o in (float("inf"), float("-inf"))


class SymNum:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _o(self, o, f, rev=False):
        if not _is_num(o):
            return NotImplemented
        try:
            b = toint(term_of(o))
        except ValueError as e:
            raise Unsupported(str(e))
        return lift(f(b, self.t) if rev else f(self.t, b))

    def __add__(self, o):
        return self._o(o, add)

    def __radd__(self, o):
        return self._o(o, add, True)

    def __sub__(self, o):
        return self._o(o, sub)

    def __rsub__(self, o):
        return self._o(o, sub, True)

    def __mul__(self, o):
        return self._o(o, mul)

    def __rmul__(self, o):
        return self._o(o, mul, True)

    def __neg__(self):
        return lift(pneg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return lift(tabs(self.t))

    def __truediv__(self, o):
        if not _is_num(o):
            return NotImplemented
        return pydiv(self, o)

    def __rtruediv__(self, o):
        if not _is_num(o):
            return NotImplemented
        return pydiv(o, self)

    def __floordiv__(self, o):
        if not _is_num(o):
            return NotImplemented
        return pyfloordiv(self, o)

    def __rfloordiv__(self, o):
        return pyfloordiv(o, self)

    def __mod__(self, o):
        return pymod(self, o)

    def __rmod__(self, o):
        return pymod(o, self)

    def __divmod__(self, o):
        return pyfloordiv(self, o), pymod(self, o)

    def __rdivmod__(self, o):
        return pyfloordiv(o, self), pymod(o, self)

    def __ceil__(self):
        return lift(ceil_term(self.t))

    def __floor__(self):
        return lift(pneg(ceil_term(pneg(self.t))))

    def __trunc__(self):
        return self.__floor__() if truth(self >= 0) else self.__ceil__()

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported("round to digits")
        return lift(self.t if self.t.sort == "I" else app("round", (self.t,), "I"))

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 4:
            r = ONE
            for _ in range(o):
                r = mul(r, self.t)
            return lift(r)
        if o == 0.5:
            return lift(app("sqrt", (toreal(self.t),), "R"))
        raise Unsupported("power")

    def __lt__(self, o):
        if _infinite(o):
            return o > 0
        return self._o(o, lt)

    def __le__(self, o):
        if _infinite(o):
            return o > 0
        return self._o(o, le)

    def __gt__(self, o):
        if _infinite(o):
            return o < 0
        return self._o(o, gt)

    def __ge__(self, o):
        if _infinite(o):
            return o < 0
        return self._o(o, ge)

    def __eq__(self, o):
        if not _is_num(o) or _infinite(o):
            return False
        return self._o(o, eq)

    def __ne__(self, o):
        if not _is_num(o) or _infinite(o):
            return True
        return self._o(o, ne)

    def __bool__(self):
        return CTX.branch(ne(self.t, ZERO))

    def __hash__(self):
        return hash("symnum")

    def __index__(self):
        raise Unsupported("symbolic number used where a literal integer is needed")

    def __int__(self):
        raise Unsupported("int() of a symbolic number outside verified text")

    def __float__(self):
        raise Unsupported("float() of a symbolic number")

    def __repr__(self):
        return f"SymNum({self.t})"

    def item(self):
        return self

    def tolist(self):
        return self


def pydiv(a, b):
    a, b = toint(term_of(a)), toint(term_of(b))
    if truth(lift(eq(b, ZERO))):
        raise ZeroDivisionError("division by zero")
    return lift(div(a, b))


def truth(x):
    return bool(x)


def floordiv_term(a, b):
    """floor(a / b) for b > 0 known constant or symbolic"""
    if is_const(a) and is_const(b):
        v = Fraction(cval(a)) // Fraction(cval(b))
        return const(int(v)) if a.sort == "I" and b.sort == "I" else const(Fraction(int(v)))
    if is_const(b) and a.sort == "I" and b.sort == "I":
        # exact when all coefficients divisible
        k = cval(b)
        d = pdict(a)
        if k != 0 and all(isinstance(c, int) and c % k == 0 for c in d.values()):
            return pmake({m: c // k for m, c in d.items()}, "I")
    return app("fdiv", (a, b), "I")


def ceil_term(t):
    if t.sort == "I":
        return t
    d = pdict(t)
    if len(d) == 1:
        # a / b with integers a, b: the integer quotient
        (m, c), = d.items()
        iv = [x for x in m if x.op == "app" and x.args[0] == "inv"]
        rest = [x for x in m if x not in iv]
        if len(iv) == 1 and all(x.sort == "I" for x in rest) and isinstance(c, (int, Fraction)):
            den = iv[0].args[1]
            dd = pdict(den)
            if all(x.sort == "I" for mm in dd for x in mm) and all(Fraction(k).denominator == 1 for k in dd.values()):
                f = Fraction(c)
                a = mul(const(f.numerator), *rest) if rest else const(f.numerator)
                b = pmake({mm: int(k) * f.denominator for mm, k in dd.items()}, "I")
                return pneg(floordiv_term(pneg(a), b))
    return app("ceil", (t,), "I")


def pyfloordiv(a, b):
    a, b = toint(term_of(a)), toint(term_of(b))
    if truth(lift(eq(b, ZERO))):
        raise ZeroDivisionError("integer division or modulo by zero")
    t = floordiv_term(a, b)
    if a.sort == "R" or b.sort == "R":
        t = toreal(t)
    return lift(t)


def pymod(a, b):
    a, b = toint(term_of(a)), toint(term_of(b))
    if truth(lift(eq(b, ZERO))):
        raise ZeroDivisionError("integer division or modulo by zero")
    return lift(sub(a, mul(b, floordiv_term(a, b))))


def _fdiv_axioms(a, b):
    q = app("fdiv", (a, b), "I")
    # b > 0:  b*q <= a < b*q + b ; b < 0:  b*q >= a > b*q + b
    return [
        Implies(lt(ZERO, b), And(le(mul(b, q), a), lt(a, add(mul(b, q), b)))),
        Implies(lt(b, ZERO), And(ge(mul(b, q), a), gt(a, add(mul(b, q), b)))),
    ]


import prove as _P

_P.AXIOMS["fdiv"] = _fdiv_axioms
_P.AXIOMS["ceil"] = lambda x: [le(x, toreal(app("ceil", (x,), "I"))), lt(toreal(app("ceil", (x,), "I")), add(x, const(Fraction(1))))]
# round half to even: within one half (which of the two neighbours an exact half goes to is left open)
_P.AXIOMS["round"] = lambda x: [le(mul(const(2), sub(x, toreal(app("round", (x,), "I")))), ONE), le(mul(const(2), sub(toreal(app("round", (x,), "I")), x)), ONE)]
_P.AXIOMS["sqrt"] = lambda x: [Implies(ge(x, ZERO), And(ge(app("sqrt", (x,), "R"), ZERO),
                                                       eq(mul(app("sqrt", (x,), "R"), app("sqrt", (x,), "R")), x)))]


class SymKey:
    """opaque hashable node label"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SymKey):
            return lift(eq(self.t, o.t))
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash("symkey")

    def __repr__(self):
        return f"SymKey({self.t})"
