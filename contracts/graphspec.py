"""Contracts of the graph classes: the abstract graph, the specification of every derived property, the label map."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import sym
from sym import *
from terms import *
import terms as TM
import prove as P
import gbstub as G
import symcol as C
import vc
from vc import Harness, Loader, same_value, fresh_val, idx_for, Def, DefAfter, Rel, ScalarRel, Top

BOOL, INT64, FP64 = G.BOOL, G.INT64, G.FP64
DTYPES = [BOOL, INT64, FP64]
CANON = {"degrees+": "count_rowwise+", "degrees-": "count_rowwise-", "row_degrees+": "count_rowwise+", "row_degrees-": "count_rowwise-",
         "column_degrees+": "count_columnwise+", "column_degrees-": "count_columnwise-"}


# ------------------------------------------------------------------ the label map
def labels(n, tag=""):
    """an arbitrary bijection between the labels in dom and 0..n-1; returns the key_to_id dict"""
    idn, kn, nm = f"id{tag}", f"key{tag}", f"isnode{tag}"

    def ax_id(k):
        i = app(idn, (k,), "I")
        return [Implies(app(nm, (k,), "B"), And(le(ZERO, i), lt(i, n), eq(app(kn, (i,), "K"), k)))]

    def ax_key(i):
        k = app(kn, (i,), "K")
        return [Implies(C.inr(i, n), And(app(nm, (k,), "B"), eq(app(idn, (k,), "I"), i)))]
    P.AXIOMS[idn] = P.AXIOMS[nm] = ax_id
    P.AXIOMS[kn] = ax_key
    TM.APP_RULES[idn] = lambda a: a[0].args[1] if a[0].op == "app" and a[0].args[0] == kn and (a[0].args[1] in HARD) else None
    TM.APP_RULES[nm] = lambda a: TRUE if a[0].op == "app" and a[0].args[0] == kn and (a[0].args[1] in HARD) else None

    def in_range(x, dim):
        if dim is not n:
            return {}
        k = app(kn, (x,), "K")
        return {app(nm, (k,), "B"): TRUE, app(idn, (k,), "I"): x}
    TM.RANGE_RULES.append(in_range)
    C.INV[kn] = lambda a, y: (app(nm, (y,), "B"), app(idn, (y,), "I"))
    C.INV[idn] = lambda a, y: (C.inr(y, n), app(kn, (y,), "K"))
    # the order in which the dict lists its labels is an arbitrary permutation of the positions (graph operators produce such dicts)
    on, rn = f"ord{tag}", f"rord{tag}"
    order = lambda r: app(on, (r,), "I")
    rorder = lambda i: app(rn, (i,), "I")
    P.AXIOMS[on] = lambda r: [Implies(C.inr(r, n), And(C.inr(order(r), n), eq(rorder(order(r)), r)))]
    P.AXIOMS[rn] = lambda i: [Implies(C.inr(i, n), And(C.inr(rorder(i), n), eq(order(rorder(i)), i)))]
    P.APP_DIM[on] = P.APP_DIM[rn] = n
    C.INV[on] = lambda a, y: (C.inr(y, n), rorder(y))
    C.INV[rn] = lambda a, y: (C.inr(y, n), order(y))
    m = C.SymMap("K", lambda k: app(nm, (k,), "B"), lambda k: lift(app(idn, (k,), "I")), n, f"key_to_id{tag}", lambda r: lift(app(kn, (order(r),), "K")),
                 bij=(lambda i: app(kn, (i,), "K"), n))
    m.names = (idn, kn, nm)
    return m


def node(m, i):
    return lift(app(m.names[1], (i,), "K"))


def ident(m, k):
    return app(m.names[0], (term_of(k),), "I")


def isnode(m, k):
    return app(m.names[2], (term_of(k),), "B")


# ------------------------------------------------------------------ specification of derived properties
def V1(n, dt, f):
    return G.Val((n,), dt, f)


class Spec:
    """defining value of every derived property of the adjacency value A"""

    def __init__(self, A, directed, tag=""):
        self.A, self.directed, self.tag = A, directed, tag
        self.n = A.shape[0]
        self.memo = {}
        self.iso = None

    def get(self, name):
        name = CANON.get(name, name)
        if not self.directed and name.endswith(("_columnwise+", "_columnwise-")):
            name = name.replace("_columnwise", "_rowwise")
        if name not in self.memo:
            self.memo[name] = self._make(name)
        return self.memo[name]

    def mat(self, cond):
        A = self.A
        return G.Val(A.shape, A.dt, lambda i, j: (And(A.pres(i, j), cond(i, j)), A.value(i, j)))

    def loops(self):
        return ex(self.n, lambda i: self.A.pres(i, i))

    def pick(self, sign):
        return self.A if sign == "+" else self.get("offdiag")

    def _make(self, name):
        A, n = self.A, self.n
        if name == "A":
            return A
        if name == "AT":
            return A if not self.directed else G.Val(A.shape, A.dt, lambda i, j: A.at(j, i))
        if name == "offdiag":
            return self.mat(lambda i, j: ne(i, j))
        if name == "U+":
            return self.mat(lambda i, j: le(i, j))
        if name == "L+":
            return self.mat(lambda i, j: ge(i, j))
        if name == "U-":
            return self.mat(lambda i, j: lt(i, j))
        if name == "L-":
            return self.mat(lambda i, j: gt(i, j))
        if name == "diag":
            return V1(n, A.dt, lambda i: A.at(i, i))
        if name == "has_self_edges":
            return self.loops()
        neg = lambda x: lt(x, ZERO) if A.dt is not BOOL else FALSE
        if name == "has_negative_edges+":
            return ex(n, lambda i: ex(n, lambda j: And(A.pres(i, j), neg(A.value(i, j)))))
        if name == "has_negative_edges-":
            return ex(n, lambda i: ex(n, lambda j: And(ne(i, j), A.pres(i, j), neg(A.value(i, j)))))
        if name == "has_negative_diagonal":
            return ex(n, lambda i: And(A.pres(i, i), neg(A.value(i, i))))
        if name[:-1] == "recip_degrees":
            B = self.pick(name[-1])
            both = lambda i, j: And(B.pres(i, j), B.pres(j, i))
            return V1(n, INT64, lambda i: (ex(n, lambda j: both(i, j)), tsum(n, lambda j: both(i, j))))
        if name[:-1] == "total_recip":
            B = self.pick(name[-1])
            return tsum(n, lambda i: tsum(n, lambda j: And(B.pres(i, j), B.pres(j, i))))
        if name[:-1] == "total_degrees":
            r, c = self.get("count_rowwise" + name[-1]), self.get("count_columnwise" + name[-1])
            return V1(n, INT64, lambda i: (Or(r.pres(i), c.pres(i)), add(r.value(i), c.value(i))))
        if name.endswith("_diagonal"):
            return G.reduce_all(self.get("diag"), G.from_string(name[:-9]))
        base, sign = name[:-1], name[-1]
        B = self.pick(sign) if sign in "+-" else None
        if base == "count_rowwise":
            return V1(n, INT64, lambda i: (ex(n, lambda j: B.pres(i, j)), tsum(n, lambda j: B.pres(i, j))))
        if base == "count_columnwise":
            return V1(n, INT64, lambda i: (ex(n, lambda j: B.pres(j, i)), tsum(n, lambda j: B.pres(j, i))))
        if base.endswith("_rowwise"):
            return G.reduce_rows(B, G.from_string(base[:-8]), 1)
        if base.endswith("_columnwise"):
            return G.reduce_rows(B, G.from_string(base[:-11]), 0)
        if base.endswith("_element"):
            return G.reduce_all(B, G.from_string(base[:-8]))
        raise Unsupported(f"no specification for property {name}")

    # ---- Python-level value as the contract returns it
    def obj(self, name, mask=None):
        name = CANON.get(name, name)
        if not self.directed and name.endswith(("_columnwise+", "_columnwise-")):
            name = name.replace("_columnwise", "_rowwise")
        if name in ("is_iso", "iso_value"):
            return self.iso_obj(name)
        if name in ("A",):
            return self.holder
        v = self.get(name)
        if isinstance(v, T):
            return lift(v)
        if mask is not None:
            return G.mk_tensor(G.mask_val(v, mask), name)
        key = ("obj", name)
        ctx = sym.CTX
        memo = ctx.memo.setdefault(id(self), {})
        if name == "AT" and not self.directed:
            return self.holder
        if key not in memo:
            h = G.mk_tensor(v, name)
            h.frozen = f"cached {name}{self.tag}"
            if name == "offdiag" or name == "AT":
                h._iso = None
            memo[key] = h
        return memo[key]

    def iso_flag(self):
        """all stored values agree, as far as the library knows, and there is one"""
        A, n = self.A, self.n
        return And(term_of(self.holder._iso[0]), ex(n, lambda i: ex(n, lambda j: A.pres(i, j))))

    def iso_obj(self, name):
        f, s = lift(self.iso_flag()), self.holder._iso[1]
        if name == "is_iso":
            return f
        return s if truth(f) else None


def iso_pair(A, tag):
    """A.ss.is_iso is some boolean; when true every stored entry equals iso_value"""
    b = app(f"iso{tag}", (), "B")
    w = app(f"isoval{tag}", (), A.dt.sort)
    n = A.shape[0]
    TMP = []

    def at(i, j):
        return Implies(And(b, A.pres(i, j)), eq(A.value(i, j), w))
    return b, w, at


class AbsGraph:
    """an arbitrary graph of the repository's own class, with its contract for derived properties"""


def make_graph(L, directed, dt=FP64, tag="", modular=True, n=None, keymap=None, min_n=0):
    ctx = sym.CTX
    if n is None:
        n = var(f"n{tag}", "I")
    P.NONNEG_TERMS.add(n) if hasattr(P, "NONNEG_TERMS") else None
    ctx.assume(le(const(min_n), n))
    A = fresh_adj(n, dt, directed, tag)
    cls = L.load("graphblas_algorithms").DiGraph if directed else L.load("graphblas_algorithms").Graph
    h = G.mk_tensor(A, "A")
    m = keymap or labels(n, tag)
    g = cls(h, key_to_id=m)
    h.frozen = f"G{tag}._A"
    b = app(f"iso{tag}", (), "B")
    w = app(f"isoval{tag}", (), dt.sort)
    isoS = G.mk_tensor(G.Val((), dt, lambda: (TRUE, w)), "iso_value")
    isoS.frozen = f"iso_value{tag}"
    h._iso = (lift(b), isoS)
    sp = Spec(A, directed, tag)
    sp.holder = h
    g._spec = sp
    g._n = n
    g._m = m
    if modular:
        g._cache = CohCache(g)
        g.get_property = lambda name, *, mask=None: sp.obj(name, mask)

        def get_properties(names, *, mask=None):
            if isinstance(names, str):
                names = [x for x in names.replace(" ", ",").split(",") if x]
            return [sp.obj(x, mask) for x in names]
        g.get_properties = get_properties
    return g


def fresh_adj(n, dt, directed, tag):
    pn, vn = f"Ap{tag}", f"Av{tag}"
    if not directed:
        rule = lambda a: None if a[0].uid <= a[1].uid else (a[1], a[0])
        TM.APP_RULES[pn] = TM.APP_RULES[vn] = rule
    else:
        TM.APP_RULES.pop(pn, None)
        TM.APP_RULES.pop(vn, None)
    b = app(f"iso{tag}", (), "B")
    w = app(f"isoval{tag}", (), dt.sort)
    P.AXIOMS[vn] = lambda i, j: [Implies(And(b, app(pn, (i, j), "B")), eq(app(vn, (i, j), dt.sort), w))]
    return G.Val((n, n), dt, lambda i, j: (app(pn, (i, j), "B"), app(vn, (i, j), dt.sort)))


class CohCache(dict):
    """G._cache under its data invariant: a present entry equals the specification; everything stored must satisfy it.
    Presence of a key is an arbitrary, per-key choice."""
    STORED = None

    def __init__(self, g):
        dict.__init__(self)
        self.g = g
        self.present = {}
        self.extra = {}

    def _canon(self, k):
        return k

    def _isalias(self, k):
        return k in CANON and CANON[k] != k

    def has(self, k):
        if k in self.present:
            return self.present[k]
        if not isinstance(k, str) or not known_property(k):
            self.present[k] = False
            return False
        if self._isalias(k):
            self.present[k] = False   # aliases are resolved before anything is stored (checked in __setitem__)
            return False
        b = sym.CTX.choose(2, f"cache {k}") == 0
        self.present[k] = b
        return b

    def __contains__(self, k):
        return self.has(k)

    def __getitem__(self, k):
        if k in self.extra:
            return self.extra[k]
        if not self.has(k):
            raise KeyError(k)
        if k not in self.extra:
            self.extra[k] = self.g._spec.obj(k)
        return self.extra[k]

    def get(self, k, d=None):
        return self[k] if self.has(k) else d

    def __setitem__(self, k, v):
        ctx = sym.CTX
        if isinstance(k, str) and known_property(k):
            if self._isalias(k):
                ctx.ensure(f"cache: alias key {k!r} is never stored", FALSE, kind="frame")
            else:
                coherent(f"stored {k}", self.g, k, v)
        self.present[k] = True
        self.extra[k] = v

    def __delitem__(self, k):
        self.present[k] = False
        self.extra.pop(k, None)

    def pop(self, k, *d):
        if self.has(k):
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, v):
        if not self.has(k):
            self[k] = v
        return self[k]

    def clear(self):
        raise Unsupported("clearing the cache")

    def update(self, o):
        for k, v in o.items():
            self[k] = v


_FIX = {"A", "AT", "offdiag", "U+", "L+", "U-", "L-", "diag", "has_self_edges", "is_iso", "iso_value", "has_negative_diagonal", "has_negative_edges+", "has_negative_edges-",
        "recip_degrees+", "recip_degrees-", "total_degrees+", "total_degrees-", "total_recip+", "total_recip-"}


def known_property(k):
    return k in _FIX or k in CANON or k.endswith("_diagonal") or (k[-1] in "+-" and k[:-1].endswith(("_rowwise", "_columnwise", "_element")))


def coherent(label, g, k, v, loop=None):
    ctx = sym.CTX
    sp = g._spec
    name = CANON.get(k, k)
    if name == "is_iso":
        ctx.ensure(label, Iff(term_of(v), sp.iso_flag()) if is_bool(v) else FALSE)
        return
    if name == "iso_value":
        b, s = sp.iso_flag(), sp.holder._iso[1]
        if v is None:
            ctx.ensure(label, Not(b))
        else:
            ctx.ensure(label, b)
            for lab, f in same_value(v, s):
                ctx.ensure(f"{label} {lab}", f)
        return
    want = sp.get(name)
    if isinstance(want, T):
        if not vc.is_scalarish(v) or (want.sort == "B" and not is_bool(v)):
            ctx.ensure(f"{label}: is a plain value", FALSE)
            return
        for lab, f in same_value(v, lift(want)):
            ctx.ensure(f"{label}: {lab}", f)
        return
    if not isinstance(v, G.TensorOps):
        ctx.ensure(f"{label}: is a tensor", FALSE)
        return
    for lab, f in same_value(v, want):
        if lab == "dtype" and name.startswith("recip"):
            f = const(v._val().dt in (INT64, FP64))   # the same number either way
        ctx.ensure(f"{label}: {lab}", f)


def is_bool(v):
    return isinstance(v, (bool, SymBool))


def result_is(label, got, want):
    """obligations: got (any Python-level value) equals want (Val / term / scalar / tuple / None)"""
    ctx = sym.CTX
    if want is None:
        ctx.ensure(f"{label}: None", const(got is None))
        return
    if isinstance(want, (tuple, list)):
        if not isinstance(got, (tuple, list)) or len(got) != len(want):
            ctx.ensure(f"{label}: a tuple of {len(want)}", FALSE)
            return
        for k, (a, b) in enumerate(zip(got, want)):
            result_is(f"{label}[{k}]", a, b)
        return
    if isinstance(want, T):
        want = lift(want)
    if isinstance(got, (G.ScalarExpr,)) and not isinstance(want, G.Val):
        p, x = got._val().at()
        ctx.ensure(f"{label}: present", p)
        got = lift(x)
    for lab, f in same_value(got, want):
        ctx.ensure(f"{label}: {lab}", f)


# ------------------------------------------------------------------ helpers shared by the property files
def nodemap_is(L, label, got, g, want, cls="NodeMap", check_dtype=True):
    """got presents exactly the (index -> value) map `want` under g's own labels"""
    ctx = sym.CTX
    mod = L.load("graphblas_algorithms.classes.nodemap" if cls != "NodeSet" else "graphblas_algorithms.classes.nodeset")
    K = getattr(mod, cls)
    ok = type(got) is K
    ctx.ensure(f"{label}: is a {cls}", const(ok))
    if not ok:
        return
    ctx.ensure(f"{label}: uses the labels of the graph", const(got._key_to_id is g._m))
    v = got.vector._val()
    if cls == "NodeMap":
        ctx.ensure(f"{label}: values are values", const(got._values_are_keys is False))
        if got._fill_value is not None:
            v0, fill = v, term_of(got._fill_value)
            v = G.Val(v0.shape, v0.dt, lambda i: (TRUE, ite(v0.pres(i), v0.value(i), fill)))
    for lab, f in same_value(v, want):
        if lab == "dtype" and not check_dtype or (cls == "NodeSet" and lab in ("dtype", "values")):
            continue
        ctx.ensure(f"{label}: {lab}", f)


def structure_is(label, got, shape, pres):
    """the stored positions of a tensor"""
    ctx = sym.CTX
    v = got._val() if isinstance(got, G.TensorOps) else got
    ctx.ensure(f"{label}: rank", const(len(v.shape) == len(shape)))
    for a, b in zip(v.shape, shape):
        ctx.ensure(f"{label}: shape", eq(a, b))
    idx = tuple(idx_for(d, k) for k, d in enumerate(shape))
    ctx.ensure(f"{label}: structure", Iff(v.pres(*idx), pres(*idx)))


def values_are(label, got, fn):
    """every stored value of a tensor"""
    ctx = sym.CTX
    v = got._val() if isinstance(got, G.TensorOps) else got
    idx = tuple(idx_for(d, k) for k, d in enumerate(v.shape))
    p, x = v.at(*idx)
    a, b = G._num2(x, fn(*idx))
    ctx.ensure(f"{label}: values", Implies(p, eq(a, b)))


def raises(label, fn, exc, when=None):
    """run fn; it raises exactly exc (a class or a name)"""
    ctx = sym.CTX
    try:
        r = fn()
    except (Unsupported, PathEnd, vc.Restart):
        raise
    except Exception as e:
        ok = e.__class__.__name__ == exc if isinstance(exc, str) else isinstance(e, exc)
        ctx.ensure(f"{label}: raises {exc}", const(ok))
        return None
    ctx.ensure(f"{label}: raises {exc}", FALSE)
    return r


def deg(sp, kind):
    """dense degree i -> term"""
    A, n = sp.A, sp.n
    out = lambda i: tsum(n, lambda j: A.pres(i, j))
    inn = lambda i: tsum(n, lambda j: A.pres(j, i))
    if kind == "out":
        return out
    if kind == "in":
        return inn
    return (lambda i: add(out(i), inn(i))) if sp.directed else out


def forall1(n, f):
    return Not(ex(n, lambda i: Not(f(i))))


def no_loops(ctx, sp):
    ctx.assume(Not(sp.loops()))


def variants(fn, name, functions, directed=(False, True), dts=(FP64,), **kw):
    """one harness per graph kind and value type"""
    out = []
    for d in directed:
        for dt in dts:
            out.append(Harness(f"{name}[{'DiGraph' if d else 'Graph'},{dt.name}]", (lambda d, dt: lambda ctx: fn(ctx, d, dt))(d, dt), functions, **kw))
    return out


# ------------------------------------------------------------------ arbitrary arguments
def a_label(name):
    return lift(var(name, "K"))


def a_node(g, name="i"):
    """an arbitrary node of the graph (every node is the label of some number), and its number"""
    i = idx_for(g._n, 0, name)
    return node(g._m, i), i


def an_int(name):
    return lift(var(name, "I"))


def a_real(name):
    return lift(var(name, "R"))


def a_bool(name):
    return lift(var(name, "B"))


def a_keyset(name, within=None):
    """an arbitrary finite set of labels"""
    if within is not None:
        P.AXIOMS[name] = lambda k: [Implies(app(name, (k,), "B"), isnode(within, k))]
    else:
        P.AXIOMS.pop(name, None)
    s = C.SymSet("K", lambda k: app(name, (term_of(k),), "B"), frozen=f"argument {name}")
    s.has = lambda k: app(name, (term_of(k),), "B")
    return s


def keysof(m, i):
    return app(m.names[1], (i,), "K")


def prefix_sum(name, f):
    """ghost function: total(t) = f(0) + ... + f(t-1)"""
    def ax(t):
        t1 = sub(t, ONE)
        return [Implies(eq(t, ZERO), eq(app(name, (t,), "I"), ZERO)),
                Implies(lt(ZERO, t), eq(app(name, (t,), "I"), add(app(name, (t1,), "I"), f(t1))))]
    P.AXIOMS[name] = ax

    def total(t):
        """unfolded at 0 and at x + 1"""
        if is_const(t):
            k = cval(t)
            return ZERO if k <= 0 else add(*[f(const(i)) for i in range(k)])
        k = pdict(t).get((), 0)
        if isinstance(k, int) and 1 <= k <= 3:
            x = sub(t, const(k))
            return add(total(x), *[f(add(x, const(i))) for i in range(k)])
        return app(name, (t,), "I")
    return total


def lemma(ctx, name, f):
    """proved here, then available to the rest of the contract"""
    ctx.ensure(f"lemma: {name}", f)
    ctx.assume(f)


def a_nodelist(m, name="nl"):
    """an arbitrary list of nodes without repeats; ids(r) is the number of its r-th node"""
    k = var(f"len_{name}", "I")
    sym.CTX.assume(le(ZERO, k))
    n = m.size_
    pos = f"pos_{name}"
    at = lambda r: app(name, (r,), "K")
    ids = lambda r: ident(m, at(r))
    P.AXIOMS[name] = lambda r: [Implies(C.inr(r, k), And(isnode(m, at(r)), C.inr(ids(r), n), app(f"in_{name}", (at(r),), "B"), eq(app(pos, (at(r),), "I"), r)))]
    TM.RANGE_RULES.append(lambda x, d: {isnode(m, at(x)): TRUE, lt0(ids(x)): FALSE, lt(ids(x), n): TRUE, app(pos, (at(x),), "I"): x,
                                        node(m, ids(x)).t: at(x), isnode(m, node(m, ids(x))): TRUE} if d is k else {})
    for q in (idx_for(k, 0), idx_for(k, 1)):
        sym.CTX.assume(And(isnode(m, at(q)), C.inr(ids(q), n), app(f"in_{name}", (at(q),), "B")))
    idn, kn, nm = m.names
    hard = lambda t: t.op == "app" and t.args[0] == name and t.args[1] in HARD and IDX_DIM.get(t.args[1]) is k
    TM.APP_RULES[kn] = lambda a: a[0].args[1] if a[0].op == "app" and a[0].args[0] == idn and hard(a[0].args[1]) else None
    o = TM.APP_RULES[nm]
    TM.APP_RULES[nm] = lambda a: TRUE if hard(a[0]) else o(a)
    inlist = lambda y: app(f"in_{name}", (y,), "B")
    P.AXIOMS[f"in_{name}"] = P.AXIOMS[pos] = lambda y: [Implies(inlist(y), And(C.inr(app(pos, (y,), "I"), k), eq(at(app(pos, (y,), "I")), y)))]
    C.INV[name] = lambda a, y: (inlist(y), app(pos, (y,), "I"))
    s = C.SymList(k, lambda r: lift(at(r)), frozen=f"argument {name}")
    return s, k, ids


def dense_is(label, got, shape, fn):
    """a tensor whose absent entries read as zero"""
    ctx = sym.CTX
    ok = isinstance(got, G.TensorOps)
    ctx.ensure(f"{label}: is a tensor", const(ok))
    if not ok:
        return
    v = got._val()
    ctx.ensure(f"{label}: rank", const(len(v.shape) == len(shape)))
    for a, b in zip(v.shape, shape):
        ctx.ensure(f"{label}: shape", eq(a, b))
    idx = tuple(idx_for(d, k) for k, d in enumerate(shape))
    p, x = v.at(*idx)
    if x.sort == "B":
        ctx.ensure(f"{label}: numeric", FALSE)
        return
    a, b = G._num2(x, fn(*idx))
    ctx.ensure(f"{label}: entries", eq(ite(p, a, toreal(ZERO) if a.sort == "R" else ZERO), b))


# ------------------------------------------------------------------ modular calls
from contextlib import contextmanager


@contextmanager
def patched(mod, **kw):
    """callees replaced by their contracts"""
    if any(k not in mod.__dict__ for k in kw):
        raise Unsupported("a callee with a contract is not where it used to be called from")
    old = {k: mod.__dict__[k] for k in kw}
    mod.__dict__.update(kw)
    try:
        yield
    finally:
        mod.__dict__.update(old)


def chunks_contract(name="bound"):
    """contract of partition (proved in c13): consecutive, non-empty slices that cover the sequence, each no longer than asked for"""
    info = {}

    def partition(chunksize, seq, *, evenly=True):
        if isinstance(seq, C.SymArr):
            n, get = seq.length, seq.get
            mk = lambda l, g: C.SymArr(l, g, seq.dt, seq._dim)
        elif isinstance(seq, C.SymList):
            n, get = seq.length, seq.get
            mk = lambda l, g: C.SymList(l, g)
        else:
            raise Unsupported(f"partition of {type(seq).__name__}")
        m = var(f"chunks_{name}", "I")
        b = lambda r: ZERO if r is ZERO else app(name, (r,), "I")
        cs = toint(term_of(vc.v_int(chunksize)))

        def ax(r):
            out = [Implies(C.inr(r, m), And(le(ZERO, b(r)), lt(b(r), b(add(r, ONE))), le(b(add(r, ONE)), n), Implies(gt(cs, ZERO), le(sub(b(add(r, ONE)), b(r)), cs)))),
                   Implies(eq(r, m), eq(b(r), n)), Implies(eq(r, ZERO), eq(b(r), ZERO))]
            p = sub(r, ONE)
            out.append(Implies(C.inr(p, m), And(le(ZERO, b(p)), lt(b(p), b(r)), le(b(r), n))))
            return out
        P.AXIOMS[name] = ax
        sym.CTX.assume(le(ZERO, m))
        sym.CTX.assume(eq(app(name, (m,), "I"), n))
        sym.CTX.assume(Implies(eq(m, ZERO), eq(n, ZERO)))
        info.update(b=b, m=m, n=n, starts={})

        def chunk(r):
            l = sub(b(add(r, ONE)), b(r))
            info["starts"][l] = b(r)
            return mk(l, lambda q: get(add(b(r), q)))
        return C.SymList(m, chunk)
    return partition, info


def multiplied_names(L, lid, in_loops=False):
    """names of the variables that are operands of a matrix product inside the function of a loop (only a hint: which invariant to try first)"""
    import ast
    mod, _, q = lid.partition(":")
    q = q.split("#")[0].split("@")[0]
    memo = L.__dict__.setdefault("_mul", {})
    if (mod, q, in_loops) not in memo:
        out = set()
        for fn in ast.walk(ast.parse(L.sources.get(mod, ""))):
            if isinstance(fn, ast.FunctionDef) and fn.name == q.split(".")[-1]:
                roots = [x for f in ast.walk(fn) if isinstance(f, (ast.For, ast.While)) for x in f.body] if in_loops else [fn]
                for b in (y for r in roots for y in ast.walk(r)):
                    if isinstance(b, ast.BinOp) and isinstance(b.op, ast.MatMult):
                        out |= {x.id for x in (b.left, b.right) if isinstance(x, ast.Name)}
        memo[mod, q, in_loops] = out
    return memo[mod, q, in_loops]


class OptTensor(vc.Template):
    """None before the first iteration, afterwards the tensor val(t)"""

    def __init__(self, label, val):
        self.label, self.val = label, val

    def havoc(self, t):
        if truth(lift(eq(t, ZERO))):
            return None
        return G.mk_tensor(self.val(t), "result")

    def check(self, t, v):
        if v is None:
            return [("None", eq(t, ZERO))]
        return [("no longer None", ne(t, ZERO))] + same_value(v, self.val(t))
