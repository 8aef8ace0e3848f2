"""Symbolic Python collections: index arrays, lists, sets and dicts of symbolic length (with the numpy / builtin
operations on them that the verified text uses)."""
from itertools import count

import sym
from sym import *
from terms import *
import terms as TM
import prove as P
import gbstub as G

_n = count()

# ------------------------------------------------------------------ inverse functions registered for injective symbols
INV = {}      # fname -> f(arg_terms, y) -> (cond, preimage of the last argument)


def invert(t, x, y):
    """solve t == y for x: (condition, value) or None"""
    if t is x:
        return TRUE, y
    if t.op == "app" and t.args[0] in INV and x in t.args[-1].fv and not any(x in a.fv for a in t.args[1:-1]):
        c, pre = INV[t.args[0]](t.args[1:-1], y)
        r = invert(t.args[-1], x, pre)
        if r is None:
            return None
        return And(c, r[0]), r[1]
    if t.op == "ite":
        # the two branches cover disjoint sets of values (proved here), so the preimage is unique
        c, a, b = t.args
        ra, rb = invert(a, x, y), invert(b, x, y)
        if ra is None or rb is None:
            return None
        ha, hb = And(ra[0], subst(c, {x: ra[1]})), And(rb[0], Not(subst(c, {x: rb[1]})))
        key = ("inverse", t, x, y)
        memo = sym.CTX.memo.setdefault("inverse", set())
        if key not in memo:
            memo.add(key)
            if And(ha, hb) is not FALSE:
                dim = IDX_DIM.get(x)
                both = And(ha, hb) if dim is None else And(ha, hb, inr(ra[1], dim), inr(rb[1], dim))
                sym.CTX.ensure("the two branches of an index expression have no value in common", Not(both), kind="pre")
        return Or(ha, hb), ite(ha, ra[1], rb[1])
    if t.op == "poly":
        d = pdict(t)
        ms = [m for m in d if any(x in a.fv for a in m)]
        if len(ms) == 1 and len(ms[0]) == 1 and d[ms[0]] in (1, -1):
            rest = pmake({m: c for m, c in d.items() if m != ms[0]}, "I")
            z = sub(y, rest) if d[ms[0]] == 1 else sub(rest, y)
            return invert(ms[0][0], x, z)
    return None


# ------------------------------------------------------------------ enumerations of index sets
class Enum:
    """increasing enumeration el(0..m-1) of {i < n : p(i)}; rank is its inverse"""

    def __init__(self, dim, pres):
        self.dim, self.pres = dim, pres
        k = next(_n)
        self.el_name, self.rank_name = f"el{k}", f"rank{k}"
        self.length = tsum(dim, pres)
        self.concrete = None
        if is_const(dim) and all(pres(const(i)).op == "c" for i in range(cval(dim))):
            self.concrete = [i for i in range(cval(dim)) if pres(const(i)) is TRUE]
            return
        en, rn, m = self.el_name, self.rank_name, self.length
        TM.APP_RULES[en] = lambda a: a[0].args[1] if a[0].op == "app" and a[0].args[0] == rn else None
        P.APP_DIM[en] = dim
        P.AXIOMS[en] = lambda r: [Implies(inr(r, m), And(inr(self.el(r), dim), pres(self.el(r)), eq(app(rn, (app(en, (r,), "I"),), "I"), r)))]
        # unrank: el under a second name, so that the solver sees that rank is injective (el(rank(i)) is rewritten to i)
        P.AXIOMS[rn] = lambda i: [Implies(And(inr(i, dim), pres(i)), And(inr(self.rank(i), m), eq(app(f"un{rn}", (self.rank(i),), "I"), i)))]
        INV[en] = lambda a, y: (And(inr(y, dim), pres(y)), self.rank(y))
        INV[rn] = lambda a, y: (inr(y, m), self.el(y))

    def el(self, r):
        if self.concrete is not None:
            if is_const(r):
                return const(self.concrete[cval(r)])
            raise Unsupported("symbolic position in a literal array")
        return app(self.el_name, (r,), "I")

    def rank(self, i):
        if self.concrete is not None:
            return const(self.concrete.index(cval(i))) if is_const(i) and cval(i) in self.concrete else ZERO
        return app(self.rank_name, (i,), "I")


def inr(t, dim):
    if t in HARD and IDX_DIM.get(t) is dim:
        return TRUE
    return And(le(ZERO, t), lt(t, dim))


class SymArr:
    """numpy-like 1-d array: length, get(r)"""
    dt = G.UINT64
    __hash__ = None

    def __init__(self, length, get, dt=None, dim=None):
        self.length, self._get = length, get
        self.dt = dt or G.UINT64
        self._dim = dim

    def get(self, r):
        return self._get(r)

    def check_range(self, dim):
        if self._dim is dim:
            return
        r = index(f"r!{next(_n)}", self.length)
        e = self.get(r)
        ok = inr(e, dim)
        if ok is TRUE or IDX_DIM.get(e) is dim:
            return
        sym.CTX.ensure("indices in range", ok, kind="pre")

    def inverse(self, i):
        r = fresh("r", "I", self.length)
        s = invert(self.get(r), r, i)
        if s is None:
            raise Unsupported("assignment through an array that is not known to be injective")
        c, v = s
        return And(c, inr(v, self.length)), v

    @property
    def size(self):
        return lift(self.length)

    @property
    def shape(self):
        return (lift(self.length),)

    def tolist(self):
        return SymList(self.length, lambda r: lift(self.get(r)))

    def __len__(self):
        raise Unsupported("len outside verified text")

    def _vlen(self):
        return lift(self.length)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic array")

    def _symiter(self):
        return self.length, (lambda r: lift(self.get(r)))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return slice_seq(self, k, lambda l, g: SymArr(l, lambda r: g(r), self.dt, self._dim))
        return lift(self.get(G.index_term(k, self.length)))

    def _bin(self, o, f):
        if G.is_scalar(o):
            t = term_of(o)
            return SymArr(self.length, lambda r: f(self.get(r), t), self.dt)
        if isinstance(o, SymArr):
            return SymArr(self.length, lambda r: f(self.get(r), o.get(r)), self.dt)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, sub)

    def copy(self):
        return SymArr(self.length, self._get, self.dt, self._dim)

    def astype(self, dt):
        return SymArr(self.length, self._get, G.lookup_dtype(dt), self._dim)

    def sort(self):
        raise Unsupported("sort of an index array")


def slice_seq(s, k, mk):
    n = s.length
    if k.step is not None:
        raise Unsupported("slice step")
    a = ZERO if k.start is None else _sl(term_of(k.start), n)
    b = n if k.stop is None else _sl(term_of(k.stop), n)
    ln = sub(b, a)
    if not (a is ZERO or P.nonneg(ln)):
        ln = tmax(ln, ZERO)
    elif not P.nonneg(ln) and not is_const(ln):
        if sym.CTX.known(le(ZERO, ln)) is not True and truth(lift(le(ZERO, ln))) is False:
            ln = ZERO
    return mk(ln, (lambda r: s.get(add(r, a))))


def _sl(t, n):
    if is_const(t):
        if cval(t) < 0:
            # n + t, at least 0
            x = add(n, t)
            return x if truth(lift(le(ZERO, x))) else ZERO
        return t if truth(lift(le(t, n))) else n
    if not truth(lift(le(ZERO, t))):
        raise Unsupported("negative symbolic slice bound")
    return t if truth(lift(le(t, n))) else n


class ConcArr(SymArr):
    """array with literally known length"""

    def __init__(self, items, dt=None):
        self.items = list(items)
        SymArr.__init__(self, const(len(self.items)), None, dt)

    def get(self, r):
        if is_const(r):
            return self.items[cval(r)]
        if len(self.items) == 1:
            return self.items[0]
        t = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1):
            t = ite(eq(r, const(k)), self.items[k], t)
        return t

    def check_range(self, dim):
        return

    def inverse(self, i):
        if len(self.items) == 1:
            return eq(i, self.items[0]), ZERO
        c, v = FALSE, ZERO
        for k, x in enumerate(self.items):
            e = eq(i, x)
            v = ite(e, const(k), v)
            c = Or(c, e)
        return c, v

    def tolist(self):
        return [lift(x) for x in self.items]

    def __iter__(self):
        return iter([lift(x) for x in self.items])

    def _symiter(self):
        return None

    def _vlen(self):
        return len(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return ConcArr(self.items[k], self.dt)
        return lift(self.items[cval(term_of(k))])

    def _bin(self, o, f):
        if G.is_scalar(o):
            t = term_of(o)
            return ConcArr([f(x, t) for x in self.items], self.dt)
        return NotImplemented

    def copy(self):
        return ConcArr(self.items, self.dt)

    def astype(self, dt):
        return ConcArr(self.items, G.lookup_dtype(dt))


class IdxEnum:
    """to_coo of a vector"""

    def __init__(self, v):
        self.v = v
        self.E = Enum(v.shape[0], v.pres)

    def index_array(self):
        E = self.E
        if E.concrete is not None:
            return ConcArr([const(i) for i in E.concrete])
        a = SymArr(E.length, E.el, G.UINT64, E.dim)
        a.inverse = lambda i: (E.pres(i), E.rank(i))
        a.enum = E
        return a

    def value_array(self):
        E, v = self.E, self.v
        if E.concrete is not None:
            return ConcArr([v.value(const(i)) for i in E.concrete], v.dt)
        a = ValueArr(E.length, lambda r: v.value(E.el(r)), v.dt)
        a.src = v
        return a


class ValueArr(SymArr):
    """values of a vector, tracked as a multiset {v(i) : p(i)}; sorted arrays of equal multisets are equal"""
    src = None
    sorted_ = False
    pad = None

    def sort(self):
        self.sorted_ = True


def enum_of(v, sort=True):
    r = v.enums.get("e")
    if r is None:
        r = v.enums["e"] = IdxEnum(v)
    return r


class Enum2:
    """to_coo of a matrix: positions r < nvals with (row r, col r) a bijection onto the stored entries"""

    def __init__(self, v):
        self.v = v
        k = next(_n)
        self.rn, self.cn, self.kn = f"row{k}", f"col{k}", f"pos{k}"
        self.length = v.nvals()
        R, C = v.shape
        self.concrete = None
        if is_const(R) and is_const(C):
            ps = [(i, j) for i in range(cval(R)) for j in range(cval(C))]
            if all(v.pres(const(i), const(j)).op == "c" for i, j in ps):
                self.concrete = [(i, j) for i, j in ps if v.pres(const(i), const(j)) is TRUE]
                return
        rn, cn, kn, m = self.rn, self.cn, self.kn, self.length
        P.APP_DIM[rn], P.APP_DIM[cn] = R, C
        row, col, pos = self.row, self.col, self.pos
        TM.APP_RULES[rn] = lambda a: a[0].args[1] if a[0].op == "app" and a[0].args[0] == kn else None
        TM.APP_RULES[cn] = lambda a: a[0].args[2] if a[0].op == "app" and a[0].args[0] == kn else None
        ax = lambda r: [Implies(inr(r, m), And(inr(row(r), R), inr(col(r), C), v.pres(row(r), col(r)), eq(pos(row(r), col(r)), r)))]
        P.AXIOMS[rn] = P.AXIOMS[cn] = ax
        P.AXIOMS[kn] = lambda i, j: [Implies(And(inr(i, R), inr(j, C), v.pres(i, j)), inr(pos(i, j), m))]

    def row(self, r):
        return app(self.rn, (r,), "I")

    def col(self, r):
        return app(self.cn, (r,), "I")

    def pos(self, i, j):
        return app(self.kn, (i, j), "I")

    def row_array(self):
        if self.concrete is not None:
            return ConcArr([const(i) for i, _ in self.concrete])
        a = SymArr(self.length, self.row, G.UINT64, self.v.shape[0])
        a.enum2 = (self, "row")
        return a

    def col_array(self):
        if self.concrete is not None:
            return ConcArr([const(j) for _, j in self.concrete])
        a = SymArr(self.length, self.col, G.UINT64, self.v.shape[1])
        a.enum2 = (self, "col")
        return a

    def value_array(self):
        v = self.v
        if self.concrete is not None:
            return ConcArr([v.value(const(i), const(j)) for i, j in self.concrete], v.dt)
        a = SymArr(self.length, lambda r: v.value(self.row(r), self.col(r)), v.dt)
        a.enum2 = (self, "val")
        return a


def enum2_of(v):
    r = v.enums.get("e2")
    if r is None:
        r = v.enums["e2"] = Enum2(v)
    return r


# ------------------------------------------------------------------ lists
class SymList:
    """list of symbolic length; get(r) is a Python-level value"""
    __hash__ = None

    def __init__(self, length, get, frozen=None):
        self.length, self._getf = length, get
        self.frozen = frozen

    def get(self, r):
        return self._getf(r)

    def _vlen(self):
        return lift(self.length)

    def __len__(self):
        raise Unsupported("len outside verified text")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic list")

    def _symiter(self):
        return self.length, self.get

    def __getitem__(self, k):
        if isinstance(k, slice):
            return slice_seq(self, k, lambda l, g: SymList(l, g))
        return self.get(G.index_term(k, self.length))

    def __bool__(self):
        return truth(lift(lt(ZERO, self.length)))

    def as_array(self, dim):
        a = SymArr(self.length, lambda r: term_of(self.get(r)))
        a.check_range(dim)
        return a

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic lists")


def is_symseq(x):
    return hasattr(x, "_symiter") and x._symiter() is not None


def seq_parts(x):
    """(length term, get) of a symbolic or concrete sequence"""
    if hasattr(x, "_symiter"):
        s = x._symiter()
        if s is not None:
            return s
    if isinstance(x, ConcArr):
        items = [lift(t) for t in x.items]
    else:
        items = list(x)
    return const(len(items)), (lambda r: items[cval(r)])


class SymRange:
    __hash__ = None

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        if isinstance(step, SymNum):
            if truth(step == 0):
                raise ValueError("range() arg 3 must not be zero")
            if not truth(step > 0):
                raise Unsupported("negative range step")
        elif not (isinstance(step, int) and step > 0):
            raise Unsupported("range step")
        a, b = term_of(start), term_of(stop)
        d = sub(b, a)
        if step == 1:
            self.length = d if P.nonneg(d) or (sym.CTX is not None and (sym.CTX.known(le(ZERO, d)) or sym.CTX.known(lt(ZERO, add(d, ONE))))) else ite(lt(d, ZERO), ZERO, d)
        else:
            st = term_of(step)
            q = floordiv_term(add(d, sub(st, ONE)), st)
            self.length = ite(lt(d, ZERO), ZERO, q)

    def _vlen(self):
        return lift(self.length)

    def _symiter(self):
        a = term_of(self.start)
        return self.length, (lambda r: lift(add(a, mul(r, term_of(self.step)))))

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")

    def __len__(self):
        raise Unsupported("len")


class SymZip:
    def __init__(self, parts, strict):
        self.parts = [seq_parts(p) for p in parts]
        ls = [l for l, _ in self.parts]
        self.length = ls[0]
        for l in ls[1:]:
            if l is not self.length:
                if strict:
                    e = eq(l, self.length)
                    if sym.CTX.known(e) is not True:
                        if e is FALSE:
                            raise ValueError("zip() arguments have different lengths")
                        sym.CTX.ensure("zip arguments have equal length", e, kind="pre")
                        sym.CTX.assume(e)
                else:
                    self.length = tmin(self.length, l)

    def _symiter(self):
        return self.length, (lambda r: tuple(g(r) for _, g in self.parts))

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic zip")


class SymEnumerate(SymZip):
    def __init__(self, x, start=0):
        l, g = seq_parts(x)
        s = term_of(start)
        self.length = l
        self.parts = [(l, lambda r: lift(add(s, r))), (l, g)]


# ------------------------------------------------------------------ sets and maps keyed by opaque labels or numbers
class SymSet:
    """set: member(term) -> formula; sort of its elements; optional enumeration"""
    __hash__ = None

    def __init__(self, sort, member, size=None, frozen=None, enum=None):
        self.sort, self.member, self.size_, self.frozen, self._enum = sort, member, size, frozen, enum

    def __contains__(self, x):
        if not _fits(x, self.sort):
            return False
        return truth(lift(self.member(term_of(x))))

    def _vlen(self):
        if self.size_ is None:
            raise Unsupported("size of a symbolic set")
        return lift(self.size_)

    def __len__(self):
        raise Unsupported("len")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic set")

    def __and__(self, o):
        o = as_set(o)
        return SymSet(self.sort, lambda t: And(self.member(t), o.member(t)))

    __rand__ = __and__

    def __or__(self, o):
        o = as_set(o)
        return SymSet(self.sort, lambda t: Or(self.member(t), o.member(t)))

    def __sub__(self, o):
        o = as_set(o)
        return SymSet(self.sort, lambda t: And(self.member(t), Not(o.member(t))))

    def isdisjoint(self, o):
        o = as_set(o)
        # decided by an uninterpreted fact that both directions of the contract may use at any label
        name = f"disjoint{next(_n)}"
        b = var(name, "B")
        both = lambda t: And(self.member(t), o.member(t))
        w = var(f"w!{name}", self.sort)
        sym.CTX.assume(Or(b, both(w)))
        KEYFACTS.append(lambda t: Implies(b, Not(both(t))))
        return lift(b)

    def __eq__(self, o):
        o = as_set(o)
        name = f"seteq{next(_n)}"
        b = var(name, "B")
        w = var(f"w!{name}", self.sort)
        sym.CTX.assume(Or(b, Not(Iff(self.member(w), o.member(w)))))
        KEYFACTS.append(lambda t: Implies(b, Iff(self.member(t), o.member(t))))
        if self.size_ is not None and o.size_ is not None:
            sym.CTX.assume(Implies(b, eq(self.size_, o.size_)))    # equal finite sets have equal sizes
        return lift(b)

    def __ne__(self, o):
        return not_(self.__eq__(o))


KEYFACTS = P.KEYFACTS    # facts quantified over all labels, instantiated at every label term


def _fits(x, sort):
    if sort == "K":
        return isinstance(x, SymKey)
    return G.is_scalar(x)


def as_set(x):
    if isinstance(x, SymSet):
        return x
    if isinstance(x, SymMap):
        return x.keys()
    if isinstance(x, (set, frozenset)):
        ts = [term_of(e) for e in x]
        s = ts[0].sort if ts else "K"
        return SymSet(s, lambda t: Or(*[eq(t, e) for e in ts]), const(len(ts)))
    raise Unsupported(f"set operation with {type(x).__name__}")


class SymMap:
    """dict: dom(term) -> formula, val(term) -> Python value; sort of keys"""
    __hash__ = None

    def __init__(self, sort, dom, val, size=None, frozen=None, order=None, bij=None):
        self.sort, self.dom, self.val, self.size_, self.frozen = sort, dom, val, size, frozen
        self.order = order      # get(r): the r-th key in iteration order
        self.bij = bij

    def __getitem__(self, k):
        if not _fits(k, self.sort):
            raise KeyError("key of another type")
        t = term_of(k)
        if not truth(lift(self.dom(t))):
            raise KeyError(k)
        return self.val(t)

    def __contains__(self, k):
        if not _fits(k, self.sort):
            return False
        return truth(lift(self.dom(term_of(k))))

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __setitem__(self, k, v):
        self._frame()
        t0, x = term_of(k), v
        dom, val = self.dom, self.val
        self.dom = lambda t: Or(eq(t, t0), dom(t))
        self.val = lambda t: lift(ite(eq(t, t0), term_of(x), term_of(val(t))))
        self.size_ = None
        self.order = None

    def _frame(self):
        if self.frozen:
            sym.CTX.ensure(f"frame: {self.frozen} is not modified", FALSE, kind="frame")

    def update(self, o):
        self._frame()
        if not isinstance(o, SymMap):
            raise Unsupported("update with a concrete mapping")
        dom, val = self.dom, self.val
        self.dom = lambda t: Or(o.dom(t), dom(t))
        self.val = lambda t: lift(ite(o.dom(t), term_of(o.val(t)), term_of(val(t))))
        self.size_ = None
        self.order = None

    def keys(self):
        return SymSet(self.sort, lambda t: self.dom(t), self.size_)

    def items(self):
        return MapItems(self)

    def values(self):
        return MapValues(self)

    def __iter__(self):
        if self.order is None:
            raise Unsupported("native iteration over a symbolic dict")
        return SymIterator(self.size_, self.order)

    def _vlen(self):
        if self.size_ is None:
            raise Unsupported("len of a symbolic dict")
        return lift(self.size_)

    def __len__(self):
        raise Unsupported("len")

    def copy(self):
        return SymMap(self.sort, self.dom, self.val, self.size_, None, self.order)

    def __eq__(self, o):
        if not isinstance(o, SymMap):
            return False
        if o is self:
            return True
        name = f"mapeq{next(_n)}"
        b = var(name, "B")
        same = lambda t: And(Iff(self.dom(t), o.dom(t)), Implies(self.dom(t), eq(term_of(self.val(t)), term_of(o.val(t)))))
        w = var(f"w!{name}", self.sort)
        sym.CTX.assume(Or(b, Not(same(w))))
        KEYFACTS.append(lambda t: Implies(b, same(t)))
        if self.size_ is not None and o.size_ is not None:
            sym.CTX.assume(Implies(b, eq(self.size_, o.size_)))
        return lift(b)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        return truth(lift(lt(ZERO, self.size_)))


class SymIterator:
    """iter(dict): supports next() once (the first element) and sequential next() with literal positions"""

    def __init__(self, size, get):
        self.size, self.get, self.k = size, get, 0

    def __iter__(self):
        return self

    def __next__(self):
        if not truth(lift(lt(const(self.k), self.size))):
            raise StopIteration
        r = self.get(const(self.k))
        self.k += 1
        if self.k > 6:
            raise Unsupported("unbounded native iteration")
        return r


class MapItems:
    def __init__(self, m):
        self.m = m

    def _elem(self, t):
        return (lift(t), self.m.val(t))


class MapValues:
    def __init__(self, m):
        self.m = m

    def _elem(self, t):
        return self.m.val(t)


# ------------------------------------------------------------------ comprehensions over symbolic collections
class SymGen:
    """elements of a collection mapped by a function: over positions (list-like) or over a set"""
    __hash__ = None

    def __init__(self, base, var_, elem, kind, length=None, member=None):
        # kind 'seq': positions 0..length-1 ; kind 'set': var_ ranges over member(var_)
        self.base, self.x, self.elem, self.kind, self.length, self.member = base, var_, elem, kind, length, member

    def _symiter(self):
        if self.kind == "seq":
            return self.length, self.at
        return None

    def at(self, r):
        return subst_value(self.elem, {self.x: r})

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic generator")

    def _vlen(self):
        if self.kind == "seq":
            return lift(self.length)
        raise Unsupported("len of a symbolic comprehension")

    def as_array(self, dim):
        return SymArr(self.length, lambda r: term_of(self.at(r)))


def subst_value(v, m):
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if is_sym(v):
        return lift(subst(v.t, m))
    if isinstance(v, G.Tensor):
        if v.frozen:
            return v
        w = v._val()
        r = G.mk_tensor(G.Val(tuple(subst(d, m) for d in w.shape), w.dt, lambda *i: tuple(subst(z, m) for z in w.at(*i))), v.name)
        return r
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if type(v) is SymList:
        return SymList(subst(v.length, m), lambda r: subst_value(v.get(r), m))
    if isinstance(v, SymSet) and v.frozen:
        return v
    raise Unsupported(f"comprehension over a symbolic collection yields {type(v).__name__}")


def _quiet(ctx, f):
    """evaluate f; a path split that depends on the arbitrary element is outside the subset"""
    n = len(ctx.trail)
    r = f()
    if any(alts > 1 for _, alts in ctx.trail[n:]):
        raise Unsupported("path split inside a comprehension over a symbolic collection")
    return r


def comp(kind, it, elt, cond=None):
    """list/set/dict/generator comprehension; elt, cond are functions of the element"""
    sy = None
    if isinstance(it, (SymSet, MapItems, MapValues, SymMap)):
        sy = "set"
    elif hasattr(it, "_symiter") and it._symiter() is not None:
        sy = "seq"
    elif isinstance(it, SymGen):
        sy = "set"
    if sy is None:
        if isinstance(it, ConcArr):
            it = list(it)
        if kind == "list":
            return [elt(x) for x in it if cond is None or cond(x)]
        if kind == "set":
            return {elt(x) for x in it if cond is None or cond(x)}
        if kind == "dict":
            return dict(elt(x) for x in it if cond is None or cond(x))
        return (elt(x) for x in it if cond is None or cond(x))
    ctx = sym.CTX
    if sy == "seq":
        length, get = it._symiter()
        x = index(f"x!{next(_n)}", length)
        if not P.nonneg(length) and not is_const(length):
            pass
        item = get(x)
        member = None
    else:
        if isinstance(it, SymGen):
            x, item, member = it.x, it.elem, it.member
        else:
            m = it.m if isinstance(it, (MapItems, MapValues)) else it
            x = var(f"x!{next(_n)}", m.sort)
            dom = m.dom if isinstance(m, SymMap) else m.member
            member = dom(x)
            item = it._elem(x) if isinstance(it, (MapItems, MapValues)) else lift(x)
        length = None
    saved = list(ctx.hyps), set(ctx.hset)
    if member is not None:
        ctx.assume(member)
    elif sy == "seq":
        ctx.assume(And(le(ZERO, x), lt(x, length)))
    try:
        if cond is not None:
            c = _quiet(ctx, lambda: truth_quiet(cond(item)))
            if c is True:
                pass
            elif c is False:
                raise Unsupported("filter that drops everything")
            else:
                if sy == "set" and kind in ("set", "list", "gen"):
                    member = And(member, c)
                else:
                    raise Unsupported("filter in a comprehension over a symbolic sequence")
        e = _quiet(ctx, lambda: elt(item))
    finally:
        obs = ctx.obs
        ctx.hyps, ctx.hset = saved
    if kind == "dict":
        k, v = e
        return make_map(sy, x, k, v, length, member)
    g = SymGen(it, x, e, sy, length, member)
    if kind == "set":
        return gen_set(g)
    if kind == "list" and sy == "seq":
        return SymList(length, g.at)
    return g


def truth_quiet(v):
    if isinstance(v, SymBool):
        k = sym.CTX.known(v.t)
        if k is not None:
            return k
        # decided by the path condition?
        ex_ = sym.CTX.ex
        if not ex_.feasible(sym.CTX.hyps, Not(v.t)):
            return True
        return v.t
    return bool(v)


def gen_set(g):
    t = term_of(g.elem)
    x = g.x

    def member(y):
        s = invert(t, x, y)
        if s is None:
            if g.kind == "seq":
                return ex(g.length, lambda r: eq(subst(t, {x: r}), y))
            raise Unsupported("image of a set under a function that is not injective")
        c, v = s
        m = g.member if g.kind == "set" else inr(x, g.length)
        return And(c, subst(m, {x: v}) if g.kind == "set" else inr(v, g.length))
    return SymSet(t.sort, member)


def make_map(sy, x, k, v, length, member, src=None):
    kt = term_of(k)

    def inv_(y):
        s = invert(kt, x, y)
        if s is None:
            raise Unsupported("dict keys that are not an injective function of the position")
        c, p = s
        return And(c, subst(member, {x: p}) if sy == "set" else inr(p, length)), p

    return SymMap(kt.sort, lambda y: inv_(y)[0], lambda y: subst_value(v, {x: inv_(y)[1]}), length)


# ------------------------------------------------------------------ from_coo
def coo_parts(ix):
    if isinstance(ix, SymGen):
        return ix
    if isinstance(ix, SymArr) and not isinstance(ix, ConcArr):
        r = index(f"x!{next(_n)}", ix.length)
        return SymGen(ix, r, lift(ix.get(r)), "seq", ix.length)
    if isinstance(ix, SymList):
        r = index(f"x!{next(_n)}", ix.length)
        return SymGen(ix, r, ix.get(r), "seq", ix.length)
    return None


def image(g, y):
    """(y is an element, its position/origin)"""
    t = term_of(g.elem)
    s = invert(t, g.x, y)
    if s is not None:
        c, p = s
        return And(c, subst(g.member, {g.x: p}) if g.kind == "set" else inr(p, g.length)), p
    if g.kind == "seq":
        return ex(g.length, lambda r: eq(subst(t, {g.x: r}), y)), None
    raise Unsupported("from_coo over a set without inverse")


def vector_from_coo(ix, values, dtype, size, dup_op, name):
    if size is None:
        raise Unsupported("from_coo without size")
    n = G.dim_term(size)
    if isinstance(ix, (int, SymNum)):
        ix = [ix]
    g = coo_parts(ix)
    if g is None:
        items = ix.items if isinstance(ix, ConcArr) else [G.index_term(i, n) for i in ix]
        if G.is_scalar(values):
            s = G.scalar_val(values)
            dt = G.lookup_dtype(dtype) if dtype is not None else s.dt
            sv = G.cast(s.at()[1], s.dt, dt)
            return G.mk_tensor(G.Val((n,), dt, lambda i: (Or(*[eq(i, x) for x in items]), sv)), name)
        vals = list(values)
        if len(vals) != len(items):
            raise ValueError("from_coo: lengths differ")
        dts = [G.pytype_dtype(v) for v in vals]
        d0 = values.dt if isinstance(values, ConcArr) else dts[0] if dts else G.FP64
        for d in dts:
            d0 = G.unify(d0, d)
        dt = G.lookup_dtype(dtype) if dtype is not None else d0
        ts = [G.cast(term_of(v), d, dt) for v, d in zip(vals, dts)]

        def f(i):
            p, t = FALSE, dt.zero
            for x, v in zip(items, ts):
                p, t = Or(p, eq(i, x)), ite(eq(i, x), v, t)
            return p, t
        if len(set(items)) != len(items) and dup_op is None:
            raise ValueError("duplicate indices")
        return G.mk_tensor(G.Val((n,), dt, f), name)
    # in range
    ctx = sym.CTX
    t = term_of(g.elem)
    dom = g.member if g.kind == "set" else And(le(ZERO, g.x), lt(g.x, g.length))
    ok = Implies(dom, And(le(ZERO, t), lt(t, n)))
    ctx.ensure("from_coo indices in range", ok, kind="pre")
    if G.is_scalar(values):
        s = G.scalar_val(values)
        dt = G.lookup_dtype(dtype) if dtype is not None else s.dt
        sv = G.cast(s.at()[1], s.dt, dt)
        return G.mk_tensor(G.Val((n,), dt, lambda i: (image(g, i)[0], sv)), name)
    h = coo_parts(values)
    if h is None:
        raise Unsupported("from_coo values")
    if isinstance(values, SymArr):
        sdt = values.dt
    else:
        sdt = G.pytype_dtype(h.elem)
    dt = G.lookup_dtype(dtype) if dtype is not None else sdt

    def f(i):
        c, p = image(g, i)
        if p is None:
            raise Unsupported("from_coo with values through a non-injective index list")
        return c, G.cast(subst(term_of(h.elem), {h.x: p}), sdt, dt)
    return G.mk_tensor(G.Val((n,), dt, f), name)


def matrix_from_coo(rows, cols, values, dtype, nrows, ncols, dup_op, name):
    R, C = G.dim_term(nrows), G.dim_term(ncols)
    rg, cg = coo_parts(rows), coo_parts(cols)
    if rg is None or cg is None:
        ri = rows.items if isinstance(rows, ConcArr) else [G.index_term(i, R) for i in rows]
        ci = cols.items if isinstance(cols, ConcArr) else [G.index_term(i, C) for i in cols]
        if not G.is_scalar(values):
            vals = list(values)
            dt0 = values.dt if isinstance(values, ConcArr) else G.pytype_dtype(vals[0]) if vals else G.FP64
            dt = G.lookup_dtype(dtype) if dtype is not None else dt0
            ts = [G.cast(term_of(v), dt0, dt) for v in vals]
        else:
            s = G.scalar_val(values)
            dt = G.lookup_dtype(dtype) if dtype is not None else s.dt
            ts = [G.cast(s.at()[1], s.dt, dt)] * len(ri)
        if dup_op is None and len(set(zip(ri, ci))) != len(ri) and not G.is_scalar(values):
            raise ValueError("duplicates")
        fn = G.bin_fn(dup_op.name, dt)[0] if dup_op is not None else (lambda a, b: b)

        def f(i, j):
            p, t = FALSE, dt.zero
            for a, b, v in zip(ri, ci, ts):
                e = And(eq(i, a), eq(j, b))
                t = ite(e, ite(p, fn(t, v), v), t)
                p = Or(p, e)
            return p, t
        return G.mk_tensor(G.Val((R, C), dt, f), name)
    if rg.length is not cg.length:
        e = eq(rg.length, cg.length)
        sym.CTX.ensure("from_coo: equal lengths", e, kind="pre")
        sym.CTX.assume(e)
    m = rg.length
    rt, ct = term_of(rg.elem), subst(term_of(cg.elem), {cg.x: rg.x})
    x = rg.x
    dom = And(le(ZERO, x), lt(x, m))
    sym.CTX.ensure("from_coo rows in range", Implies(dom, And(le(ZERO, rt), lt(rt, R))), kind="pre")
    sym.CTX.ensure("from_coo columns in range", Implies(dom, And(le(ZERO, ct), lt(ct, C))), kind="pre")
    if G.is_scalar(values):
        s = G.scalar_val(values)
        dt = G.lookup_dtype(dtype) if dtype is not None else s.dt
        sv = G.cast(s.at()[1], s.dt, dt)
        vt = None
    else:
        h = coo_parts(values)
        if h is None:
            raise Unsupported("from_coo values")
        sdt = values.dt if isinstance(values, SymArr) else G.pytype_dtype(h.elem)
        dt = G.lookup_dtype(dtype) if dtype is not None else sdt
        vt = G.cast(subst(term_of(h.elem), {h.x: x}), sdt, dt)
    def hits(r, i, j):
        return And(eq(subst(rt, {x: r}), i), eq(subst(ct, {x: r}), j))

    if dup_op is not None and dup_op.name == "plus" and (vt is not None or True):
        # entries over positions of a matrix enumeration are turned back into sums over the entries themselves
        v1 = vt if vt is not None else sv
        e2 = getattr(rows, "enum2", None)
        if e2 is not None:
            E = e2[0]
            RR, CC = E.v.shape

            def over(i, j, body):
                # sum/ex over stored (a, b) of E with position pos(a,b)
                def at(a, b):
                    return subst(body, {x: E.pos(a, b)})
                return at

            def f(i, j):
                cond = lambda a, b: And(E.v.pres(a, b), hits(E.pos(a, b), i, j))
                p = ex(RR, lambda a: ex(CC, lambda b: cond(a, b)))
                t = tsum(RR, lambda a: tsum(CC, lambda b: ite(cond(a, b), subst(v1, {x: E.pos(a, b)}), dt.zero)))
                return p, t
            return G.mk_tensor(G.Val((R, C), dt, f), name)

        def f(i, j):
            return ex(m, lambda r: hits(r, i, j)), tsum(m, lambda r: ite(hits(r, i, j), subst(v1, {x: r}), dt.zero))
        return G.mk_tensor(G.Val((R, C), dt, f), name)
    if vt is None:
        return G.mk_tensor(G.Val((R, C), dt, lambda i, j: (ex(m, lambda r: hits(r, i, j)), sv)), name)
    e2 = getattr(rows, "enum2", None)
    if e2 is not None and getattr(cols, "enum2", None) is not None and cols.enum2[0] is e2[0] and e2[1] == "row" and cols.enum2[1] == "col":
        E = e2[0]
        return G.mk_tensor(G.Val((R, C), dt, lambda i, j: (E.v.pres(i, j), subst(vt, {x: E.pos(i, j)}))), name)
    # invertible in the row position (arange)
    s = invert(rt, x, var("probe", "I"))
    if s is not None:
        def f(i, j):
            c, p = invert(rt, x, i)
            return And(c, subst(dom, {x: p}), eq(subst(ct, {x: p}), j)), subst(vt, {x: p})
        return G.mk_tensor(G.Val((R, C), dt, f), name)
    raise Unsupported("Matrix.from_coo with values at positions not known to be distinct")
