"""Discharge of verification conditions: quantifier-free lowering to z3 with the verifier's own, individually sound,
lemma instances for the binders (witnesses and instances of ex; congruence, monotonicity and positivity of sums;
bounds and attainment of min/max; unfolding of recursive spec functions) and the sum normal form."""
import time

import z3

from terms import *
import terms as TM
from nf import NF, TooBig, has_order_in_sum, nf_formula, _has_sum

AXIOMS = {}      # fname -> f(*args) -> list of facts, added for every occurrence of the application
KEYFACTS = []    # facts about every label
APP_DIM = {}     # fname -> dim term: application is an index below that dim
UNFOLD = {}      # fname -> f(*args) -> list of facts, added once per occurrence up to fuel


class Lower:
    def __init__(self):
        self.memo = {}
        self.K = z3.DeclareSort("K")
        self.funs = {}

    def sort(self, s):
        return {"B": z3.BoolSort(), "I": z3.IntSort(), "R": z3.RealSort(), "K": self.K}[s]

    def num(self, t):
        e = self(t)
        return e

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._low(t)
        return r

    def _real(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def _low(self, t):
        op = t.op
        if op == "c":
            v = cval(t)
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if t.sort == "I":
                return z3.IntVal(v)
            return z3.RealVal(str(v))
        if op == "v":
            return z3.Const(t.args[0], self.sort(t.sort))
        if op == "app":
            args = [self(a) for a in t.args[1:]]
            key = (t.args[0], tuple(a.sort().name() for a in args), t.sort)
            f = self.funs.get(key)
            if f is None:
                f = z3.Function(f"{t.args[0]}#{len(self.funs)}", *[a.sort() for a in args], self.sort(t.sort)) if args else z3.Const(t.args[0], self.sort(t.sort))
                self.funs[key] = f
            return f(*args) if args else f
        if op == "poly":
            parts = []
            real = t.sort == "R"
            for m, c in t.args:
                fs = [self(a) for a in m]
                fs = [z3.If(f, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(f) else f for f in fs]
                r2 = real or not isinstance(c, int) or any(z3.is_real(f) for f in fs)
                if r2:
                    fs = [self._real(f) for f in fs]
                e = z3.RealVal(str(c)) if r2 else z3.IntVal(c)
                for f in fs:
                    e = e * f
                parts.append(e)
            if any(z3.is_real(p) for p in parts):
                parts = [self._real(p) for p in parts]
            return z3.Sum(*parts) if len(parts) > 1 else parts[0]
        if op == "not":
            return z3.Not(self(t.args[0]))
        if op == "and":
            return z3.And(*[self(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self(a) for a in t.args])
        if op == "iff":
            return self(t.args[0]) == self(t.args[1])
        if op == "eqn":
            return self(t.args[0]) == 0
        if op == "lt":
            return self(t.args[0]) < 0
        if op == "eqk":
            return self(t.args[0]) == self(t.args[1])
        if op == "ite":
            c, a, b = (self(x) for x in t.args)
            if t.sort == "R":
                a, b = self._real(a), self._real(b)
            return z3.If(c, a, b)
        if op in BINDERS or op == "msum":
            return z3.Const(f"{op}@{t.uid}", self.sort(t.sort))
        raise AssertionError(f"cannot lower {op}: {t}")


def subterms(ts, seen):
    """yield every subterm outside binder bodies, once"""
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        if t.op == "poly":
            stack.extend(a for m, _ in t.args for a in m)
        elif t.op == "app":
            stack.extend(t.args[1:])
        elif t.op in BINDERS:
            stack.append(t.args[1])
        elif t.op in ("c", "v", "b", "msum"):
            pass
        else:
            stack.extend(t.args)


class Prover:
    """model-guided: an instance of a lemma is added when the solver's current model does not satisfy it"""

    def __init__(self, hyps, goal, rounds=40, timeout=4000, maxgen=5, use_nf=True, total=20.0, only_nf=False):
        self.only_nf = only_nf
        self.low = Lower()
        self.rounds, self.timeout, self.maxgen, self.total = rounds, timeout, maxgen, total
        self.nlemmas = 0
        self.keys = {}
        self.seen = set()
        self.exs, self.sums, self.mins, self.msums = {}, {}, {}, {}
        self.pool = {}      # dim -> {term: generation}
        self.gen_of = {}    # atom -> generation
        self.done = set()
        self.lem = {}
        self.use_nf = use_nf
        self.init = [h for h in hyps] + [Not(goal)]
        self._sc = set()
        self._sc2 = set()
        self.csums = []
        self.wit = {}
        self.nfpend = []
        self.cmppend = []
        self.gen = 0
        self.pending = []
        self.refills = 0

    # ------------------------------------------------------------ main loop
    def solve(self):
        """'proved' | 'unknown'"""
        t0 = time.time()
        self.stop = t0 + self.total
        init = self.init
        if any(f is FALSE for f in init):
            return "proved"
        self.nf = None
        if self.use_nf and any(self._hs(f) for f in init):
            self.nf = NF(any(has_order_in_sum(f) for f in init), [f.args[0] for f in init if f.op == "not"])
            self.nf.learn(init)
        s = z3.Solver()
        s.set("timeout", self.timeout)
        self.s = s
        if self.only_nf and self.nf is not None:
            init = [nf_formula(f, self.nf) for f in init]
            self.nf = None
        new = list(init)
        self.stat = []
        self.extra = index_args(init)
        for rnd in range(self.rounds + 1):
            stack = new
            level = 0
            while stack:
                for f in stack:
                    if f is TRUE:
                        continue
                    if f is FALSE:
                        return "proved"
                    s.add(self.low(f))
                level += 1
                if level > 3:
                    self.pending.extend(self.register(stack))
                    break
                stack = [f for f in self.register(stack, eager=rnd == 0 and level == 1) if f is not TRUE]
            r = s.check()
            if r == z3.unsat:
                self.time = time.time() - t0
                return "proved"
            if time.time() - t0 > self.total:
                break
            M = s.model() if r == z3.sat else None
            new = self.tier0(M)
            if not new:
                new = self.tier1(M)
            if not new and self.pending and self.refills < 3:
                self.refills += 1
                new, self.pending = self.pending, []
            if M is None and not new:
                break
            if not new:
                break
            self.stat.append(len(new))
            self.nlemmas += len(new)
            if self.nlemmas > 8000:
                break
        self.time = time.time() - t0
        return "unknown"

    def _hs(self, f):
        if f.op in ("lt", "eqn"):
            return _has_sum(f.args[0])
        if f.op in ("not", "and", "or", "iff", "ite"):
            return any(Prover._hs(self, x) for x in f.args)
        return False

    def depth(self, t):
        return max((self.gen_of.get(v, 0) for v in t.fv), default=0)

    def index(self, t, dim, gen):
        d = self.pool.setdefault(dim, {})
        if t not in d and gen <= self.maxgen:
            d[t] = gen

    # ------------------------------------------------------------ new atoms
    def register(self, fs, eager=False):
        """facts that come with every new atom"""
        out = []
        for t in subterms(fs, self.seen):
            op = t.op
            if t.sort == "K" and len(self.keys) < 14 and t not in self.keys:
                self.keys[t] = True
                for kf in KEYFACTS:
                    out.append(kf(t))
            if op == "v":
                d = IDX_DIM.get(t)
                if d is not None:
                    if t in HARD:
                        # written out: the constructors already know these and would simplify them away
                        e = sub(t, d)
                        out.append(TM._mk("not", (TM._mk("lt", (t,), "B", t.h, t.fv),), "B", t.h, t.fv))
                        if e.op != "c":
                            out.append(TM._mk("lt", (e,), "B", e.h, e.fv))
                    g = self.gen_of.get(t, 0)
                    self.index(t, d, g)
            elif op == "app":
                f = t.args[0]
                if f in APP_DIM:
                    self.index(t, APP_DIM[f], self.depth(t) + 1)
                if f in AXIOMS:
                    out.extend(AXIOMS[f](*t.args[1:]))
                if f in UNFOLD:
                    self.lem.setdefault(("unfold", t), None)
                if f == "inv":
                    x = t.args[1]
                    out.append(Or(eq(x, ZERO), eq(mul(x, t), toreal(ONE))))
                    out.append(Implies(lt(ZERO, x), lt(ZERO, t)))
                    out.append(Implies(lt(x, ZERO), lt(t, ZERO)))
            elif op == "poly":
                for m, c in t.args:
                    if len(m) == 2 and m[0] is m[1]:
                        out.append(Not(lt(mul(m[0], m[0]), ZERO)))
            elif op == "ex":
                self.exs.setdefault(t, self.depth(t))
            elif op == "sum":
                self.sums.setdefault(t, self.depth(t))
                self.nfpend.append(t)
                (b,) = open_binder(t, var(f"sk{t.uid}", "I", binder_dim(t)))
                if nonneg(b):
                    out.append(Not(lt(t, ZERO)))
            elif op == "msum":
                self.msums.setdefault(t, self.depth(t))
                if not t.args[2] or all(nonneg(x) for x in t.args[2]):
                    out.append(Not(lt(t, ZERO)))
            elif op in ("min", "max", "any"):
                self.mins.setdefault(t, self.depth(t))
        for f in fs:
            for g in comparisons(f, self._sc2):
                self.cmppend.append(g)
                out.extend(self.combined(g))
        if eager:
            out.extend(self.normal())
        res = []
        for f in out:
            if f is TRUE or f in self.done:
                continue
            self.done.add(f)
            res.append(f)
        return res

    def normal(self):
        """normal forms of the pending sums and comparisons"""
        out = []
        if self.nf is None:
            return out
        for t in self.nfpend:
            try:
                n = self.nf.term(t)
            except (TooBig, TM.CaptureError):
                continue
            if n is not t:
                out.append(self.guarded(t, eq(t, n)))
        for g in self.cmppend:
            if _has_sum(g.args[0]):
                try:
                    n = rebuild(g, [self.nf.term(g.args[0])])
                except (TooBig, TM.CaptureError):
                    continue
                if n is not g:
                    out.append(self.guarded(g, Iff(g, n)))
        self.nfpend, self.cmppend = [], []
        return out

    # ------------------------------------------------------------ model-guided lemmas
    def val(self, M, f):
        """True / False / None (not determined by the model)"""
        if M is None:
            return None
        v = M.eval(self.low(f), model_completion=False)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def add(self, out, M, key, f, gen):
        """queue the lemma instance unless the model already satisfies it"""
        if key in self.done or len(out) > 400 or time.time() > self.stop:
            return
        if callable(f):
            if key not in self.lem:
                self.lem[key] = f()
            f = self.lem[key]
        if f is TRUE:
            self.done.add(key)
            return
        if M is not None and self.val(M, f) is True:
            return
        self.done.add(key)
        out.append(f)

    def witness(self, t, tag="", gen=0):
        dim = binder_dim(t)
        sk = var(f"sk{t.uid}{tag}", "I", dim)
        self.gen_of[sk] = gen + 1
        self.index(sk, dim, gen + 1)
        return sk

    def tier0(self, M):
        out = []
        self.gen += 1
        if self.extra:
            for t in list(self.exs) + list(self.sums) + list(self.mins):
                for x in self.extra:
                    self.index(x, binder_dim(t), 0)
        for t, g in list(self.exs.items()):
            v = self.val(M, t)
            if v is not False and ("w", t) not in self.done and g <= self.maxgen:
                self.done.add(("w", t))
                sk = self.witness(t, gen=g)
                (b,) = open_binder(t, sk)
                out.append(Implies(t, And(guard(sk, binder_dim(t)), b)))
            if v is not True:
                dim = binder_dim(t)
                for x in list(self.pool.get(dim, {})):
                    def f(t=t, x=x, dim=dim):
                        (b,) = open_binder(t, x)
                        return Implies(And(guard(x, dim), b), t)
                    self.add(out, M, (t, x), f, g)
        for t, g in list(self.mins.items()):
            dim = binder_dim(t)
            if ("w", t) not in self.done and g <= self.maxgen:
                self.done.add(("w", t))
                sk = self.witness(t, gen=g)
                c, v = open_binder(t, sk)
                e = TM._ex_close(dim, sk, c)
                out.append(Implies(e, And(guard(sk, dim), c, eq(v, t))))
            if t.op != "any":
                for x in list(self.pool.get(dim, {})):
                    def f(t=t, x=x, dim=dim):
                        c, v = open_binder(t, x)
                        return Implies(And(guard(x, dim), c), le(t, v) if t.op == "min" else le(v, t))
                    self.add(out, M, (t, x), f, g)
        for t, g in list(self.sums.items()):
            dim = binder_dim(t)
            if g <= self.maxgen:
                sk = self.wit.get(t)
                if sk is None:
                    sk = var(f"sk{t.uid}", "I", dim)
                    self.wit[t] = sk
                    self.gen_of[sk] = g + 1
                (b,) = open_binder(t, sk)
                gd = guard(sk, dim)
                # a positive sum has a positive term; a negative one a negative term
                if self.val(M, le(t, ZERO)) is not True and ("w+", t) not in self.done:
                    self.done.add(("w+", t))
                    self.index(sk, dim, g + 1)
                    out.append(Or(le(t, ZERO), And(gd, lt(ZERO, b))))
                if not nonneg(b) and self.val(M, le(ZERO, t)) is not True and ("w-", t) not in self.done:
                    self.done.add(("w-", t))
                    sk2 = self.witness(t, "n", g)
                    (b2,) = open_binder(t, sk2)
                    out.append(Or(le(ZERO, t), And(guard(sk2, dim), lt(b2, ZERO))))
            for x in list(self.pool.get(dim, {})):
                def f(t=t, x=x, dim=dim):
                    (b,) = open_binder(t, x)
                    return Implies(guard(x, dim), le(b, t)) if nonneg(b) else TRUE
                self.add(out, M, (t, x), f, g)
        for t, g in list(self.msums.items()):
            if g <= self.maxgen:
                self.msum_lemmas(out, M, t, g)
        for T_, dim, body, total, neg in self.csums:
            self.add(out, M, ("c+", T_), lambda: Or(le(T_, ZERO), And(guard(neg[1], dim), lt(ZERO, body(neg[1])))), 0)
            self.add(out, M, ("c-", T_), lambda: Or(le(ZERO, T_), And(guard(neg[0], dim), lt(body(neg[0]), ZERO))), 0)
            for v in neg[:2]:
                self.gen_of.setdefault(v, 1)
                self.index(v, dim, 1)
            for x in list(self.pool.get(dim, {})):
                if self.pool[dim][x] > 2:
                    continue
                self.add(out, M, (T_, x, 0), lambda: Or(And(guard(neg[0], dim), lt(body(neg[0]), ZERO)), Implies(guard(x, dim), le(body(x), T_))), 0)
                self.add(out, M, (T_, x, 1), lambda: Or(And(guard(neg[1], dim), lt(ZERO, body(neg[1]))), Implies(guard(x, dim), le(T_, body(x)))), 0)
        for key in [k for k in self.lem if k[0] == "unfold" and k not in self.done]:
            t = key[1]
            if self.gen <= 4:
                self.done.add(key)
                out.extend(UNFOLD[t.args[0]](*t.args[1:]))
        return self.fresh_only(out)

    def fresh_only(self, out):
        res = []
        for f in out:
            if f is TRUE or f in self.done:
                continue
            self.done.add(f)
            res.append(f)
        return res

    def tier1(self, M):
        """normal forms of derived sums; pairwise comparison of sums over the same range"""
        out = self.normal()
        ss = list(self.sums)
        if len(ss) <= 10:
            # two different positions of a sum of non-negative terms
            for t in ss:
                dim = binder_dim(t)
                xs = list(self.pool.get(dim, {}))
                if len(xs) > 8:
                    continue
                for x in xs:
                    # more than one of its terms: another position counts too
                    if self.pool[dim][x] > 0 or ("o", t, x) in self.done or self.sums[t] > 1:
                        continue
                    (u,) = open_binder(t, x)
                    if not nonneg(u) or self.val(M, le(t, u)) is True:
                        continue
                    self.done.add(("o", t, x))
                    sk = var(f"sk{t.uid}o{x.uid}", "I", dim)
                    self.gen_of[sk] = self.sums[t] + 1
                    self.index(sk, dim, self.sums[t] + 1)
                    out.append(Or(le(t, u), Not(guard(x, dim)), And(guard(sk, dim), ne(sk, x), lt(ZERO, open_binder(t, sk)[0]))))
                for a in range(len(xs)):
                    for b in range(a):
                        def f(t=t, x=xs[a], y=xs[b], dim=dim):
                            u, v = open_binder(t, x)[0], open_binder(t, y)[0]
                            if not (nonneg(u) and nonneg(v)):
                                return TRUE
                            return Or(eq(x, y), Not(And(guard(x, dim), guard(y, dim))), le(add(u, v), t))
                        self.add(out, M, (t, xs[a], xs[b], "2"), f, self.sums[t])
        if len(ss) <= 16:
            for a in range(len(ss)):
                for b in range(len(ss)):
                    t, u = ss[a], ss[b]
                    if a == b or binder_dim(u) is not binder_dim(t):
                        continue
                    key = ("pair", t, u)
                    if key in self.done or self.val(M, le(t, u)) is True:
                        continue
                    self.done.add(key)
                    dim = binder_dim(t)
                    g = max(self.sums[t], self.sums[u])
                    if g > self.maxgen:
                        continue
                    sk = var(f"sk{t.uid}_{u.uid}", "I", dim)
                    self.gen_of[sk] = g + 1
                    self.index(sk, dim, g + 1)
                    (bp,) = open_binder(t, sk)
                    (bq,) = open_binder(u, sk)
                    out.append(Or(le(t, u), And(guard(sk, dim), lt(bq, bp))))
        return self.fresh_only(out)

    def combined(self, g):
        """a comparison of several sums over one range (or a sum and the length of its range) as one sum"""
        groups = {}
        for m, c in pdict(g.args[0]).items():
            if len(m) == 1 and m[0].op == "sum":
                groups.setdefault(binder_dim(m[0]), []).append((m[0], c))
        out = []
        d = pdict(g.args[0])
        for dim, items in groups.items():
            if len(self.csums) >= 6:
                break
            c0 = d.get((dim,), 0)
            if len(items) + (c0 != 0) < 2 or len(items) > 4:
                continue

            def body(x, items=items, c0=c0):
                return add(const(c0), *[mul(const(c), open_binder(t, x)[0]) for t, c in items])
            total = add(mul(const(c0), dim), *[mul(const(c), t) for t, c in items])
            key = ("cs", total)
            if key in self.done:
                continue
            self.done.add(key)
            T_ = var(f"cs{total.uid}", total.sort)
            neg = [var(f"cs{total.uid}_{k}", "I", dim) for k in range(2)]
            for v in neg:
                self.gen_of[v] = 1
            out.append(eq(T_, total))
            self.csums.append((T_, dim, body, total, neg))
        return out

    def guarded(self, t, f):
        gs = [guard(v, IDX_DIM[v]) for v in t.fv if v in IDX_DIM]
        return Implies(And(*gs), f)

    def msum_lemmas(self, out, M, a, g):
        bs, ls, ns = a.args
        nn = not ns or all(nonneg(x) for x in ns)
        if ("w", a) not in self.done and self.val(M, eq(a, ZERO)) is not True:
            self.done.add(("w", a))
            m = {}
            for k, b in enumerate(bs):
                sk = var(f"sk{a.uid}_{k}", "I", IDX_DIM[b])
                self.gen_of[sk] = g + 1
                self.index(sk, IDX_DIM[b], g + 1)
                m[b] = sk
            out.append(Or(eq(a, ZERO), And(*[guard(m[b], IDX_DIM[b]) for b in bs], *[subst(l, m) for l in ls], *[lt(ZERO, subst(x, m)) if nn else ne(subst(x, m), toreal(ZERO) if x.sort == "R" else ZERO) for x in ns])))
        if not ns:
            def f():
                e = And(*ls)
                for b in reversed(bs):
                    e = TM._ex_close(IDX_DIM[b], b, e)
                return Implies(e, le(ONE, a))
            self.add(out, M, ("e", a), f, g)


def comparisons(f, seen):
    stack = [f]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("lt", "eqn"):
            yield t
        elif t.op in ("not", "and", "or", "iff"):
            stack.extend(t.args)
        elif t.op == "ite" and t.sort == "B":
            stack.extend(t.args)


def _atoms(t):
    if t.op == "poly":
        for m, _ in t.args:
            for a in m:
                yield from _atoms(a)
    elif t.op == "ite":
        for x in t.args[1:]:
            yield from _atoms(x)
    else:
        yield t


def _atoms_f(f):
    if f.op in ("not", "and", "or", "iff"):
        for x in f.args:
            yield from _atoms_f(x)
    elif f.op in ("lt", "eqn"):
        yield from _atoms(f.args[0])


NONNEG_APPS = set()
_nn = {}


def nonneg(t):
    """syntactic: t >= 0 for all values of its variables"""
    r = _nn.get(t)
    if r is None:
        op = t.op
        if op == "c":
            r = cval(t) >= 0
        elif op in ("v", "b"):
            r = t in IDX_DIM or op == "b"
        elif op == "poly":
            d = dict(t.args)
            if t.sort == "I":
                # integers: x * x - x is not negative
                for m, c in t.args:
                    if c < 0 and len(m) == 1:
                        m2 = (m[0], m[0])
                        if d.get(m2, 0) >= -c:
                            d[m2] += c
                            del d[m]
            r = all(c >= 0 and (all(nonneg(a) for a in m) or _sq(m)) for m, c in d.items())
        elif op == "ite":
            r = nonneg(t.args[1]) and nonneg(t.args[2])
        elif op in ("sum",):
            r = nonneg(t.args[2])
        elif op in ("min", "max", "any"):
            r = False
        elif op == "app":
            r = t.args[0] in APP_DIM or t.args[0] in NONNEG_APPS
        elif op == "msum":
            r = all(nonneg(x) for x in t.args[2])
        else:
            r = False
        _nn[t] = r
    return r


def _sq(m):
    return len(m) % 2 == 0 and all(m[i] is m[i + 1] for i in range(0, len(m), 2))


def index_args(fs):
    """integer arguments of applications that mention no bound variable (inside binder bodies too)"""
    seen, res = set(), {}
    stack = list(fs)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "poly":
            stack.extend(a for m, _ in t.args for a in m)
        elif t.op == "app":
            for a in t.args[1:]:
                if a.sort == "I" and (a.op == "c" or (a.op == "poly" and not has_b(a))) and len(res) < 5:
                    res[a] = True
                stack.append(a)
        elif t.op in ("c", "v", "b"):
            pass
        elif t.op == "msum":
            stack.extend(list(t.args[1]) + list(t.args[2]))
        else:
            stack.extend(x for x in t.args if isinstance(x, TM.T))
    return list(res)


def has_b(t):
    stack = [t]
    while stack:
        t = stack.pop()
        if t.op == "b":
            return True
        if t.op == "poly":
            stack.extend(a for m, _ in t.args for a in m)
        elif t.op in ("c", "v"):
            pass
        elif t.op in BINDERS or t.op == "msum":
            return True
        else:
            stack.extend(x for x in t.args if isinstance(x, TM.T))
    return False


STRATEGIES = [dict(only_nf=True, total=4.0, maxgen=3), dict(total=6.0, maxgen=2, use_nf=False), dict(total=12.0), dict(total=20.0, only_nf=True), dict(total=30.0, use_nf=False, maxgen=8)]


def flat(hyps):
    out = []
    for h in hyps:
        if h.op == "and":
            out.extend(flat(h.args))
        elif h is not TRUE:
            out.append(h)
    return out


def sequents(hyps, goal):
    """propositional decomposition of the goal"""
    hyps = flat(hyps)
    op = goal.op
    if goal is TRUE or any(h is FALSE for h in hyps) or goal in hyps:
        return []
    if op == "and":
        return [x for g in goal.args for x in sequents(hyps, g)]
    if op == "iff":
        a, b = goal.args
        return sequents(hyps + [a], b) + sequents(hyps + [b], a)
    if op == "or":
        return [(flat(hyps + [Not(g) for g in goal.args]), FALSE)] if all(g.op != "and" for g in goal.args) else _or_seq(hyps, goal)
    if op == "not":
        return [(flat(hyps + [goal.args[0]]), FALSE)]
    return [(hyps, goal)]


def _or_seq(hyps, goal):
    ands = [g for g in goal.args if g.op == "and"]
    rest = [g for g in goal.args if g.op != "and"]
    if len(ands) > 1:
        return [(hyps, goal)]
    return [x for g in ands[0].args for x in sequents(hyps + [Not(r) for r in rest], g)]


def split_conditions(hyps, goal):
    """conditions worth a case split: of conditional terms, disjunctive hypotheses"""
    cands = {}

    def walk(t, w):
        if t.op == "poly":
            for m, _ in t.args:
                for x in m:
                    walk(x, w)
        elif t.op == "ite":
            cands[t.args[0]] = cands.get(t.args[0], 0) + w
            for x in t.args[1:]:
                walk(x, w)
        elif t.op in ("lt", "eqn", "eqk", "not", "and", "or", "iff"):
            for x in t.args:
                walk(x, w)
    walk(goal, 10)
    for h in hyps:
        walk(h, 1)
        if h.op == "or" and len(h.args) == 2:
            cands[h.args[0]] = cands.get(h.args[0], 0) + 1
        if h.op == "iff":
            cands[h.args[0]] = cands.get(h.args[0], 0) + 1
    out = [c for c, _ in sorted(cands.items(), key=lambda kv: -kv[1])]
    flip = [c.args[0] if c.op == "not" else c for c in out]
    return [c for c in dict.fromkeys(flip) if c.op not in ("c",) and c not in hyps and Not(c) not in hyps]


def assume(hyps, goal, c, v):
    m = {c: TRUE if v else FALSE}
    lit = c if v else Not(c)
    try:
        g = TM.subst(goal, m)
        hs = [TM.subst(h, m) for h in hyps]
    except TM.CaptureError:
        g, hs = goal, list(hyps)
    return unit(flat(hs + [lit]), g)


def literals(f, out, w):
    if f.op in ("and", "or", "not", "iff"):
        for a in f.args:
            literals(a, out, w)
    elif f.op not in ("c",):
        out[f] = out.get(f, 0) + w


def quick_tree(hyps, goal, depth, t_end):
    """case splits on the conditions inside the goal, with short attempts at every leaf"""
    p = Prover(hyps, goal, only_nf=True, total=min(1.0, max(0.1, t_end - time.time())), maxgen=2, rounds=12, timeout=600)
    if p.solve() == "proved":
        return True
    if depth == 0 or time.time() > t_end:
        return False
    cands = {}
    for c in goal_conditions(goal):
        literals(c, cands, 10)
    for h in hyps:
        if h.op in ("or", "iff"):
            literals(h, cands, 1)
    cands = [c for c in sorted(cands, key=lambda c: -cands[c]) if c not in hyps and Not(c) not in hyps]
    for c in cands[:1]:
        for v in (True, False):
            for hy, go in sequents(*assume(hyps, goal, c, v)):
                if time.time() > t_end or not quick_tree(hy, go, depth - 1, t_end):
                    return False
        return True
    return False


def goal_conditions(goal):
    out = []

    def walk(t):
        if t.op == "poly":
            for m, _ in t.args:
                for x in m:
                    walk(x)
        elif t.op == "ite":
            out.append(t.args[0])
            for x in t.args[1:]:
                walk(x)
        elif t.op == "app":
            for x in t.args[1:]:
                walk(x)
        elif t.op in ("lt", "eqn", "eqk", "not", "and", "or", "iff"):
            for x in t.args:
                walk(x)
    walk(goal)
    return out


def prove1(hyps, goal, scale, kw, strategies, depth, t_end):
    """-> (ok, last prover)"""
    last = None
    sums = any(Prover._hs(None, f) for f in hyps) or Prover._hs(None, goal)
    if depth == 2 and any(c.op != "c" for c in goal_conditions(goal)):
        if quick_tree(hyps, goal, 4, min(t_end, time.time() + 12.0 * scale)):
            STATS["tree"] = STATS.get("tree", 0) + 1
            return True, last
    for k, st in enumerate(strategies):
        if not sums and ("only_nf" in st):
            continue
        if k == 2 and depth:
            # before the expensive attempts: case splits
            cs = split_conditions(hyps, goal)
            for c in cs[:2]:
                ok = True
                for v in (True, False):
                    for hy, go in sequents(*assume(hyps, goal, c, v)):
                        if time.time() > t_end:
                            return False, last
                        ok, last = prove1(hy, go, scale, kw, strategies[:2] if depth == 1 else strategies[:3], depth - 1, t_end)
                        if not ok:
                            break
                    if not ok:
                        break
                if ok:
                    STATS["split"] = STATS.get("split", 0) + 1
                    return True, last
        st = {**st, **kw}
        st["total"] *= scale
        if time.time() > t_end:
            return False, last
        p = Prover(hyps, goal, **st)
        last = p
        if p.solve() == "proved":
            STATS[k] = STATS.get(k, 0) + 1
            return True, last
    return False, last


def unit(hyps, goal):
    """hypotheses that are literals, used inside the other formulas"""
    for _ in range(2):
        m = {}
        hard = None
        for h in hyps:
            if h.op == "not" and h.args[0].op == "ex":
                # nothing satisfies the body, so no arbitrary index of the contract does
                if hard is None:
                    hard = {v for f in hyps + [goal] for v in f.fv if v in TM.HARD}
                for v in hard:
                    if TM.IDX_DIM.get(v) is h.args[0].args[1]:
                        (b,) = open_binder(h.args[0], v)
                        if b.op in ("lt", "eqn", "eqk", "app", "ex"):
                            m[b] = FALSE
        for h in hyps:
            if h.op == "not" and h.args[0].op in ("lt", "eqn", "eqk", "ex", "app", "v"):
                m[h.args[0]] = FALSE
            elif h.op in ("lt", "eqn", "eqk", "ex", "app", "v"):
                m[h] = TRUE
        out, ch = [], False
        for h in hyps:
            a = h.args[0] if h.op == "not" else h
            if a in m:
                out.append(h)
                continue
            try:
                h2 = TM.subst(h, m)
            except TM.CaptureError:
                h2 = h
            ch = ch or h2 is not h
            if h2 is not TRUE:
                out.extend(flat([h2]))
        hyps = out
        try:
            goal = TM.subst(goal, m)
        except TM.CaptureError:
            pass
        if not ch:
            break
    return hyps, goal


def prove(hyps, goal, scale=1, limit=150.0, **kw):
    """goals are decomposed; strategies in turn"""
    last = None
    hyps, goal = unit(flat(hyps), goal)
    t_end = time.time() + limit * scale
    # conjunctions first, each by the cheap strategies as it stands
    goals = goal.args if goal.op == "and" else (goal,)
    for g in goals:
        if g is TRUE:
            continue
        for hy, go in sequents(hyps, g):
            ok, last = prove1(hy, go, scale, kw, STRATEGIES, 2, t_end)
            if not ok:
                return "unknown", last
    return "proved", last


STATS = {}
