"""Normal form of sums: prenex multi-sums of products of positive literals and numeric atoms, split into strict orders
of their index variables when any order atom occurs, with bound variables named canonically.  Equal sums become equal
terms, so counting identities (halves of a symmetric matrix, triangles counted by corners, degree sums) are decided
by comparing polynomials."""
from itertools import permutations, product

from terms import *
import terms as TM


class TooBig(Exception):
    pass


LIMIT = 4000


class NF:
    def __init__(self, split, never=()):
        self.split = split
        self.nonzero = set()  # numeric terms known not to be zero
        self.never = [e for e in never if e.op == "ex"]  # existential formulas known to be false
        self.memo = {}
        self.imemo = {}

    # a polynomial: dict {(bound tuple, lits frozenset, nums tuple): coef}; bound vars are fresh placeholders
    def expand(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "c":
            r = {((), frozenset(), ()): cval(t)} if cval(t) != 0 else {}
        elif op == "poly":
            r = {}
            for m, c in t.args:
                p = {((), frozenset(), ()): c}
                for a in m:
                    p = self.pmul(p, self.expand(a))
                for k, v in p.items():
                    r[k] = r.get(k, 0) + v
        elif t.sort == "B":
            r = self.ind(t)
        elif op == "ite":
            i = self.ind(t.args[0])
            a, b = self.expand(t.args[1]), self.expand(t.args[2])
            r = self.pmul(i, a)
            nb = dict(b)
            for k, v in self.pmul(i, b).items():
                nb[k] = nb.get(k, 0) - v
            r = self.padd(r, nb)
        elif op == "sum":
            x = fresh("s", "I", t.args[1])
            (body,) = open_binder(t, x)
            p = self.expand(body)
            r = {}
            for (bs, ls, ns), c in p.items():
                k = (bs + (x,), ls, ns)
                r[k] = r.get(k, 0) + c
        else:
            r = {((), frozenset(), (self.atom(t),)): 1}
        if len(r) > LIMIT:
            raise TooBig
        self.memo[t] = r
        return r

    def learn(self, hyps):
        """terms that hypotheses say are not zero"""
        for h in hyps:
            p = None
            if h.op == "not" and h.args[0].op == "eqn":
                p = h.args[0].args[0]
            elif h.op == "lt":
                p = h.args[0]
            if p is None:
                continue
            try:
                q = self.term(p)
            except TooBig:
                continue
            a = atom_of(q)
            if a is not None:
                self.nonzero.add(toreal(a))
            else:
                i = inv(toreal(q))
                for x in pdict(i):
                    for y in x:
                        if y.op == "app" and y.args[0] == "inv":
                            self.nonzero.add(y.args[1])

    def padd(self, a, b):
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + v
        return {k: v for k, v in r.items() if v != 0}

    def pmul(self, p, q):
        if len(p) * len(q) > LIMIT:
            raise TooBig
        r = {}
        for (b1, l1, n1), c1 in p.items():
            for (b2, l2, n2), c2 in q.items():
                if set(b1) & set(b2):
                    m = {x: fresh("s", "I", IDX_DIM[x]) for x in b2}
                    b2_ = tuple(m[x] for x in b2)
                    l2_ = frozenset(subst(l, m) for l in l2)
                    n2_ = tuple(subst(a, m) for a in n2)
                else:
                    b2_, l2_, n2_ = b2, l2, n2
                ns = tuple(sorted(n1 + n2_, key=lambda a: a.uid))
                k = (b1 + b2_, l1 | l2_, ns)
                r[k] = r.get(k, 0) + c1 * c2
        return r

    def ind(self, c):
        r = self.imemo.get(c)
        if r is not None:
            return r
        one = {((), frozenset(), ()): 1}
        neg = lambda p: self.padd(one, {k: -v for k, v in p.items()})
        op = c.op
        if c is TRUE:
            r = one
        elif c is FALSE:
            r = {}
        elif op == "not":
            r = neg(self.ind(c.args[0]))
        elif op == "and":
            r = one
            for a in c.args:
                r = self.pmul(r, self.ind(a))
        elif op == "or":
            r = one
            for a in c.args:
                r = self.pmul(r, neg(self.ind(a)))
            r = neg(r)
        elif op == "iff":
            a, b = self.ind(c.args[0]), self.ind(c.args[1])
            ab = self.pmul(a, b)
            r = self.padd(one, {k: -v for k, v in a.items()})
            r = self.padd(r, {k: -v for k, v in b.items()})
            r = self.padd(r, {k: 2 * v for k, v in ab.items()})
        else:
            a = self.atom(c)
            if a is not c:
                if a.op not in ("lt", "eqn", "eqk", "app", "ex", "v"):
                    return self.ind(a)
                if a is TRUE or a is FALSE:
                    return self.ind(a)
            r = {((), frozenset([a]), ()): 1}
            f = flipped(a)
            if f is not None:
                # [p < 0] = 1 - [-p < 0] - [p = 0] over the integers, in the orientation that does not depend on names
                r = self.padd(one, {((), frozenset([f]), ()): -1})
                r = self.padd(r, {k: -v for k, v in self.ind(eq(a.args[0], ZERO)).items()})
        self.imemo[c] = r
        return r

    def atom(self, t):
        """normalise the arguments of an opaque atom"""
        op = t.op
        if op in ("v", "b"):
            return t
        if op == "app":
            return rebuild(t, [self.term(a) if a.sort in "IR" else a for a in t.args[1:]])
        if op in ("lt", "eqn"):
            if not _has_sum(t.args[0]):
                return t
            return rebuild(t, [self.term(t.args[0])])
        return t

    def term(self, t):
        """canonical term equal to t"""
        if not _has_sum(t):
            return t
        out = []
        for (key, c) in self.canon(self.expand(t)).items():
            bs, ls, ns = key
            out.append(mul(const(c), self.mono(bs, ls, ns)))
        r = add(*out) if out else ZERO
        return toreal(r) if t.sort == "R" else r

    def mono(self, bs, ls, ns):
        used = set()
        for x in list(ls) + list(ns):
            used |= x.fv
        unused = [b for b in bs if b not in used]
        if unused:
            # a sum that does not depend on its index
            bs = tuple(b for b in bs if b in used)
            return mul(*[IDX_DIM[b] for b in unused], self.mono(bs, ls, ns))
        B = set(bs)
        freen = [a for a in ns if not (a.fv & B) and a not in B]
        inn = [a for a in ns if a not in freen]
        freel = [l for l in ls if not (l.fv & B)]
        inl = [l for l in ls if l.fv & B]
        if bs:
            body = mul(ONE, *inn)
            dims = tuple(IDX_DIM[b] for b in bs)
            args = (bs, frozenset(inl), tuple(inn))
            core = msum(bs, inl, inn)
        else:
            core = mul(ONE, *inn)
        for a in freen:
            if a.op == "app" and a.args[0] == "inv" and a.args[1] in self.nonzero:
                if toreal(core) is a.args[1]:
                    # x / x
                    freen.remove(a)
                    core = ONE
                    break
                b = atom_of(a.args[1])
                if b is not None and b in freen:
                    freen.remove(a)
                    freen.remove(b)
                    break
        if freel:
            core = ite(And(*freel), core, ZERO)
        return mul(core, *freen)

    # ---- canonicalisation
    def canon(self, p):
        r = {}
        for (bs, ls, ns), c in p.items():
            if c == 0:
                continue
            for c2, k in self.cases(bs, ls, ns):
                if any(l.op == "eqn" and atom_of(l.args[0]) in k[2] for l in k[1]):
                    continue  # [x = 0] x
                ls2 = close_eqs(k[1], k[0])
                if ls2 is None:
                    continue
                if close_orders(ls2) is None:
                    continue
                k = (k[0], ls2, k[2])
                if self.never and self.empty(k[0], k[1]):
                    continue
                k = self.rename(*k)
                r[k] = r.get(k, 0) + c * c2
                if len(r) > LIMIT:
                    raise TooBig
        return {k: v for k, v in r.items() if v != 0}

    def empty(self, bs, ls):
        """the literals are never satisfied together: they make a false existential hypothesis true"""
        vs = set(bs)
        for l in ls:
            vs |= {v for v in l.fv if v in IDX_DIM}
        return any(_holds(e, ls, vs, 3) for e in self.never)

    def cases(self, bs, ls, ns):
        """yield monomials equal in sum to the given one, with equalities eliminated (and orders split)"""
        # one-point rules
        bs = list(bs)
        changed = True
        while changed:
            changed = False
            for l in list(ls):
                if l is TRUE:
                    ls = ls - {l}
                    continue
                if l is FALSE:
                    return
                if l.op == "not" or l.op in ("and", "or", "iff"):
                    # arises from substitution: re-expand
                    base = (tuple(bs), ls - {l}, ns)
                    for (b2, l2, n2), c in self.pmul({base: 1}, self.ind(l)).items():
                        for c2, k in self.cases(b2, l2, n2):
                            yield c * c2, k
                    return
                if l.op == "eqn":
                    for x in bs:
                        if x in l.fv:
                            s = solve_eq(l, x)
                            if s is not None:
                                dim = IDX_DIM[x]
                                rng = inrange(s, dim)
                                bs = [b for b in bs if b is not x]
                                ls = frozenset(subst(y, {x: s}) for y in ls if y is not l)
                                if rng is not TRUE:
                                    ls = ls | (frozenset(rng.args) if rng.op == "and" else {rng})
                                ns = tuple(sorted((subst(y, {x: s}) for y in ns), key=lambda a: a.uid))
                                changed = True
                                break
                    if changed:
                        break
        # drop implied range literals
        if any(n.op in ("poly", "c", "ite", "sum") for n in ns):
            p = {(tuple(bs), ls, ()): 1}
            for n in ns:
                p = self.pmul(p, self.expand(n))
            for (b2, l2, n2), c in p.items():
                for c2, k in self.cases(b2, l2, n2):
                    yield c * c2, k
            return
        if not self.split:
            yield 1, (tuple(bs), ls, ns)
            return
        vs = list(bs)
        frees = set()
        for y in list(ls) + list(ns):
            for v in y.fv:
                if v in IDX_DIM and v not in bs:
                    frees.add(v)
        if not vs:
            yield 1, (tuple(bs), ls, ns)
            return
        frees = sorted(frees, key=lambda v: v.uid)
        if len(vs) + len(frees) > 5:
            raise TooBig
        allv = frees + vs
        for order in weak_orders(allv):
            yield from self._apply_order(order, bs, ls, ns, frees)

    def _apply_order(self, order, bs, ls, ns, frees):
        # order: list of blocks (tuples of vars), increasing
        rank = {}
        for r, blk in enumerate(order):
            for v in blk:
                rank[v] = r
        m = {}
        extra = []
        for blk in order:
            fs = [v for v in blk if v in frees]
            rep = fs[0] if fs else blk[0]
            dims = {IDX_DIM[v] for v in blk}
            if len(dims) > 1:
                raise TooBig
            for v in blk:
                if v is not rep:
                    m[v] = rep
                    if v in frees:
                        extra.append(eq(v, rep))
        out = []
        for l in ls:
            d = _order_atom(l)
            if d is not None:
                x, y, kind = d
                if x in rank and y in rank:
                    ok = rank[x] < rank[y] if kind == "lt" else rank[x] == rank[y]
                    if not ok:
                        return
                    continue
            l2 = subst(l, m) if m else l
            if l2 is FALSE:
                return
            if l2 is TRUE:
                continue
            out.append(l2)
        n2 = tuple(sorted((subst(a, m) for a in ns), key=lambda a: a.uid)) if m else ns
        reps = []
        for blk in order:
            fs = [v for v in blk if v in frees]
            reps.append(fs[0] if fs else blk[0])
        chain = [lt(a, b) for a, b in zip(reps, reps[1:])]
        nb = tuple(v for v in reps if v not in frees)
        yield 1, (nb, frozenset(out) | frozenset(chain) | frozenset(extra), n2)

    def rename(self, bs, ls, ns):
        """canonical bound names, chosen over all permutations (<= 4 bound variables)"""
        ls = close_orders(drop_implied(ls, bs))
        if not bs:
            return (), frozenset(ls), ns
        # group by dim
        best = None
        B = set(bs)
        depth = 1 + max([mdepth(x) for x in list(ls) + list(ns) if x.fv & B], default=0)
        cnt = {}
        dims = [IDX_DIM[b] for b in bs]
        if len(bs) > 4:
            raise TooBig
        if self.split:
            # the chain fixes the order: name by position (bs is in chain order)
            perms = [tuple(range(len(bs)))]
        else:
            perms = permutations(range(len(bs)))
        for pm in perms:
            m = {}
            idx = {}
            order = []
            for pos in pm:
                d = dims[pos]
                idx[d] = idx.get(d, 0) + 1
                nv = var(f"$%d.%d_{d.uid}" % (depth, idx[d]), "I", d)
                m[bs[pos]] = nv
                order.append(nv)
            l2 = frozenset(subst(l, m) for l in ls)
            n2 = tuple(sorted((subst(a, m) for a in ns), key=lambda a: a.uid))
            key = (tuple(sorted(l.uid for l in l2)), tuple(a.uid for a in n2), tuple(o.uid for o in order))
            if best is None or key < best[0]:
                best = (key, (tuple(sorted(order, key=lambda o: o.uid)), l2, n2))
        return best[1]


def close_eqs(ls, bs):
    """equalities between numeric terms in a form that does not depend on how they were stated; None if contradictory"""
    cls = {}
    eqs = []
    for l in ls:
        if l.op == "eqn" and l.args[0].sort == "I" and _order_atom(l) is None:
            d = pdict(l.args[0])
            if len(d) == 2 and () not in d and set(d.values()) == {1, -1} and all(len(m) == 1 for m in d):
                a, b = (m[0] for m in d)
            elif len(d) == 2 and () in d and any(c in (1, -1) and len(m) == 1 for m, c in d.items() if m):
                (m, c), = [(m, c) for m, c in d.items() if m]
                a, b = m[0], const(-d[()] * c)
            elif len(d) == 1 and all(len(m) == 1 for m in d):
                (m,) = d
                a, b = m[0], ZERO
            else:
                continue
            eqs.append(l)
            ca, cb = cls.get(a) or {a}, cls.get(b) or {b}
            u = ca | cb
            for x in u:
                cls[x] = u
    if len(eqs) < 1 or len(ls) == 1:
        return ls
    B = set(bs)
    rest = [l for l in ls if l not in eqs]
    out = set()
    m = {}
    for u in {frozenset(u) for u in cls.values()}:
        cs = [x for x in u if x.op == "c"]
        if len(cs) > 1:
            return None
        free = cs or sorted((x for x in u if not (x.fv & B) and not any(v in IDX_DIM for v in x.fv)), key=lambda x: x.uid)
        if free:
            for x in u:
                if x is not free[0]:
                    out.add(eq(x, free[0]))
                    if x.op == "app":
                        m[x] = free[0]
        else:
            v = sorted(u, key=lambda x: x.uid)
            for i in range(len(v)):
                for j in range(i):
                    out.add(eq(v[i], v[j]))
    for l in rest:
        l2 = subst(l, m) if m else l
        if l2 is FALSE:
            return None
        if l2 is not TRUE:
            out.add(l2)
    return frozenset(out)


def close_orders(ls, closure=False):
    """strict orders between indices without the ones that follow from others (or the ones that follow); None if they form a cycle"""
    es = {}
    for l in ls:
        if l.op == "lt":
            d = _order_atom(l)
            if d is not None:
                es[d[:2]] = l
    if len(es) < 2 and not closure:
        return ls
    succ = {}
    for a, b in es:
        succ.setdefault(a, set()).add(b)
    reach = {}
    for a in succ:
        seen, todo = set(), list(succ[a])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(succ.get(x, ()))
        if a in seen:
            return None
        reach[a] = seen
    if closure:
        return frozenset(lt(a, b) for a in reach for b in reach[a]) | frozenset(ne(a, b) for a in reach for b in reach[a])
    drop = {l for (a, b), l in es.items() if any(c is not b and b in reach.get(c, ()) for c in succ[a])}
    return ls - drop if drop else ls


_shape = {}


def shape(t, d=0):
    """rendering in which index variables have no name"""
    r = _shape.get(t)
    if r is None:
        if t.op in ("v", "b"):
            r = ("~",) if t.op == "b" or t in IDX_DIM else ("v", str(t.args[0]).split("!")[0])
        elif t.op == "c":
            r = ("c", str(t.args[0]))
        elif t.op == "poly":
            r = ("p",) + tuple(sorted((tuple(shape(a) for a in m), str(c)) for m, c in t.args))
        elif t.op == "app":
            r = ("a", t.args[0]) + tuple(shape(a) for a in t.args[1:])
        else:
            r = ("o", t.op, str(t.h))
        _shape[t] = r
    return r


def flipped(a):
    """the strict comparison in the other orientation, when that one is the preferred one (comparisons of integer terms other than plain indices)"""
    if a.op != "lt" or a.args[0].sort != "I" or _order_atom(a) is not None:
        return None
    d = pdict(a.args[0])
    if () in d or not any(x.op == "app" for m in d for x in m):
        return None
    lead = max(d, key=lambda m: (repr(tuple(shape(x) for x in m)), tuple(x.uid for x in m)))
    return lt0(pneg(a.args[0])) if d[lead] < 0 else None


MSUM = {}


def msum(bs, lits, nums):
    """opaque numeric atom for sum_{bs} [lits] * prod(nums); bs canonical placeholder vars"""
    body = ite(And(*lits), mul(ONE, *nums), ZERO) if lits else mul(ONE, *nums)
    key = (bs, body)
    t = MSUM.get(key)
    if t is None:
        fv = (body.fv | frozenset()) - frozenset(bs)
        t = TM._mk("msum", (bs, frozenset(lits), tuple(nums)), "R" if body.sort == "R" else "I", body.h, fv)
        MSUM[key] = t
    return t


TM.MSUM_HOOK[0] = lambda bs, ls, ns: msum(bs, ls, ns)


def atom_of(p):
    """x when the polynomial is a multiple of the atom x"""
    d = pdict(p)
    if len(d) == 1:
        (m,) = d
        if len(m) == 1:
            return m[0]
    return None


def _holds(f, have, vs, depth):
    """f follows from the literals in have, trying the indices in vs as witnesses"""
    if f is TRUE or f in have:
        return True
    if f.op == "and":
        return all(_holds(x, have, vs, depth) for x in f.args)
    if f.op == "or":
        return any(_holds(x, have, vs, depth) for x in f.args)
    if f.op == "ex" and depth > 0:
        d = f.args[1]
        for v in vs:
            if IDX_DIM.get(v) is d:
                (b,) = open_binder(f, v)
                if _holds(b, have, vs, depth - 1):
                    return True
    return False


def drop_implied(ls, bs):
    """remove existential literals that other literals of the product imply"""
    if not any(l.op == "ex" for l in ls):
        return ls
    vs = set(bs)
    for l in ls:
        if l.op != "ex":
            vs |= {v for v in l.fv if v in IDX_DIM}

    out = frozenset(ls)
    more = close_orders(ls, closure=True) or frozenset()
    for l in sorted((x for x in ls if x.op == "ex"), key=lambda x: -x.uid):
        rest = out - {l}
        if _holds(l, rest | more, vs, 3):
            out = rest
    return out


_md = {}


def mdepth(t):
    """nesting depth of multi-sums (bound names carry it, so that an outer name is never bound inside)"""
    r = _md.get(t)
    if r is None:
        if t.op == "msum":
            r = 1 + max([mdepth(x) for x in list(t.args[1]) + list(t.args[2])], default=0)
        elif t.op in ("c", "v", "b"):
            r = 0
        elif t.op == "poly":
            r = max([mdepth(a) for m, _ in t.args for a in m], default=0)
        elif t.op in BINDERS:
            r = max([mdepth(a) for a in t.args[1:] if isinstance(a, TM.T)], default=0)
        else:
            r = max([mdepth(a) for a in (t.args[1:] if t.op == "app" else t.args)], default=0)
        _md[t] = r
    return r


def _order_atom(l):
    if l.op not in ("lt", "eqn"):
        return None
    d = pdict(l.args[0])
    if len(d) != 2 or () in d:
        return None
    (m1, c1), (m2, c2) = d.items()
    if len(m1) != 1 or len(m2) != 1 or {c1, c2} != {1, -1}:
        return None
    x, y = (m1[0], m2[0]) if c1 == 1 else (m2[0], m1[0])
    if x not in IDX_DIM or y not in IDX_DIM:
        return None
    return x, y, l.op


def weak_orders(vs):
    """all weak orderings of vs as lists of blocks"""
    if not vs:
        yield []
        return
    v, rest = vs[-1], vs[:-1]
    for o in weak_orders(rest):
        for k in range(len(o) + 1):
            yield o[:k] + [(v,)] + o[k:]
        for k in range(len(o)):
            yield o[:k] + [o[k] + (v,)] + o[k + 1:]


_hs = {}


def _has_sum(t):
    r = _hs.get(t)
    if r is None:
        if t.op in ("c", "v", "b", "msum"):
            r = False
        elif t.op == "sum":
            r = True
        elif t.op == "poly":
            r = any(_has_sum(a) for m, _ in t.args for a in m)
        elif t.op in ("ex", "min", "max"):
            r = False
        elif t.op == "app":
            r = any(_has_sum(a) for a in t.args[1:])
        else:
            r = any(_has_sum(a) for a in t.args)
        _hs[t] = r
    return r


def has_order_in_sum(t, inside=False, memo=None):
    if memo is None:
        memo = {}
    key = (t, inside)
    if key in memo:
        return memo[key]
    if t.op in ("c", "v", "b", "msum"):
        r = False
    elif t.op in ("lt", "eqn") and inside and _is_order_b(t):
        r = True
    elif t.op == "poly":
        r = any(has_order_in_sum(a, inside, memo) for m, _ in t.args for a in m)
    elif t.op in BINDERS:
        r = any(has_order_in_sum(a, inside or t.op == "sum", memo) for a in t.args[2:])
    else:
        r = any(has_order_in_sum(a, inside, memo) for a in (t.args[1:] if t.op == "app" else t.args))
    memo[key] = r
    return r


def _is_order_b(l):
    d = pdict(l.args[0])
    if len(d) != 2 or () in d:
        return False
    (m1, c1), (m2, c2) = d.items()
    return (l.op == "lt" and len(m1) == 1 and len(m2) == 1 and {c1, c2} == {1, -1}
            and all(a.op == "b" or a in IDX_DIM for a in (m1[0], m2[0])))


def nf_formula(f, nf):
    """replace numeric comparisons by their normal forms"""
    memo = {}

    def go(t):
        if t.sort != "B":
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ("lt", "eqn"):
            try:
                r = rebuild(t, [nf.term(t.args[0])])
            except TooBig:
                r = t
        elif t.op in ("not", "and", "or", "iff"):
            r = rebuild(t, [go(x) for x in t.args])
        elif t.op == "ite":
            r = rebuild(t, [go(x) for x in t.args])
        else:
            r = t
        memo[t] = r
        return r

    return go(f)
