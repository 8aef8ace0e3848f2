"""C06: weighted shortest paths. The ghost theory `Walks` defines by recursion on t the least weight W(t, j) of a walk of at most t edges from the source to j;
the Bellman-Ford loops are proved by the invariant "after t rounds d = W(t), the frontier is where W(t) is better than W(t - 1)".
A result is shown exact by its certificate: every distance is the weight of a walk (W(t, j) for some t) and no edge can shorten it (a feasible potential),
hence - by induction along a walk - no walk is shorter. `Unbounded` is shown justified by a walk of n edges that is lighter than every shorter one, or a negative loop."""
from graphspec import *
from vc import is_scalarish

R0 = toreal(ZERO)


class Walks:
    """W(t, j): least weight of a walk of at most t edges (self-loops left out) from the start; wp(t, j): there is one.
    Defined by W(0) = 0 at the start, W(t+1, j) = min(W(t, j), min_i W(t, i) + w(i, j)); up(t, j): W(t, j) improves on W(t - 1, j).
    Consequences of the definition used: start (the start has W <= 0), step (an edge extends a walk), up (definition), came (an improvement
    comes along an edge from a node improved one round before; proved below from the definition), simple (a node with a walk has one of at most n - 1 edges)"""

    def __init__(self, ctx, n, edge, w, start, sort="R", nonneg=False, directed=True):
        self.ctx, self.n, self.edge, self.w, self.start, self.sort, self.nonneg, self.directed = ctx, n, edge, w, start, sort, nonneg, directed
        self.rows = [()]
        self.zero = R0 if sort == "R" else ZERO
        P.AXIOMS["wp"] = P.AXIOMS["wv"] = self.basic
        P.AXIOMS["up"] = self.up_def
        old = P.AXIOMS.get("Ap")
        P.AXIOMS["Ap"] = lambda i, k: (old(i, k) if old else []) + self.edges(i, k)

    def wp(self, *a):
        return app("wp", a, "B")

    def wv(self, *a):
        return app("wv", a, self.sort)

    def up(self, *a):
        return app("up", a, "B")

    def basic(self, *a):
        r, t, j = a[:-2], a[-2], a[-1]
        out = [Implies(And(self.start(*r, j), le(ZERO, t)), And(self.wp(*a), le(self.wv(*a), self.zero)))]
        if is_const(t):
            out.append(Implies(eq(t, ZERO), And(Iff(self.wp(*a), self.start(*r, j)), eq(self.wv(*a), self.zero))))
        if self.nonneg:
            out.append(Implies(And(self.wp(*a), le(ZERO, t)), le(self.zero, self.wv(*a))))
        if not self.ctx.ghost and t is self.n:
            out.append(self.simple(*a))
        return out

    def simple(self, *a):
        return Implies(And(C.inr(a[-1], self.n), self.wp(*a)), self.wp(*a[:-2], sub(self.n, ONE), a[-1]))

    def up_def(self, *a):
        r, t, j = a[:-2], a[-2], a[-1]
        b = (*r, sub(t, ONE), j)
        first = Implies(eq(t, ZERO), And(Iff(self.up(*a), self.start(*r, j)), Iff(self.wp(*a), self.start(*r, j)), eq(self.wv(*a), self.zero)))
        if is_const(t) and cval(t) == 0:
            return [first]
        return [first, Implies(lt(ZERO, t), And(Iff(self.up(*a), And(self.wp(*a), Or(Not(self.wp(*b)), lt(self.wv(*a), self.wv(*b))))),
                                                Implies(self.wp(*b), And(self.wp(*a), le(self.wv(*a), self.wv(*b))))))]

    def time(self):
        g = list(self.ctx.ghost.values())
        return g[-1] if g else sub(self.n, ONE)

    def edges(self, i, k):
        """i -> k (and k -> i) at the current time"""
        t = self.time()
        return [f for r in self.rows for f in ([self.step(t, i, k, *r)] if self.directed else [self.step(t, i, k, *r), self.step(t, k, i, *r)])]

    def step(self, t, i, j, *r):
        t1 = add(t, ONE)
        return Implies(And(le(ZERO, t), self.edge(i, j), self.wp(*r, t, i)), And(self.wp(*r, t1, j), le(self.wv(*r, t1, j), add(self.wv(*r, t, i), self.w(i, j)))))

    def attained(self, t, j, *r):
        """W(t + 1, j) comes from somewhere"""
        t1 = add(t, ONE)
        via = ex(self.n, lambda i: And(self.wp(*r, t, i), self.edge(i, j), eq(self.wv(*r, t1, j), add(self.wv(*r, t, i), self.w(i, j)))))
        return Implies(And(le(ZERO, t), self.wp(*r, t1, j)), Or(And(self.wp(*r, t, j), eq(self.wv(*r, t1, j), self.wv(*r, t, j))), via))

    def came(self, t, j, *r):
        t1 = add(t, ONE)
        return Implies(And(le(ZERO, t), self.up(*r, t1, j)), ex(self.n, lambda i: And(self.up(*r, t, i), self.edge(i, j), eq(self.wv(*r, t1, j), add(self.wv(*r, t, i), self.w(i, j))))))


class Facts(vc.Template):
    def __init__(self, inner, facts, after=None):
        self.inner, self.facts, self.label, self.after = inner, facts, inner.label, after

    def havoc(self, t):
        for f in self.facts(t):
            sym.CTX.assume(f)
        v = self.inner.havoc(t)
        for f in self.after(t, v) if self.after else ():
            sym.CTX.assume(f)
        return v

    def check(self, t, v):
        return self.inner.check(t, v)


class Fixed(vc.Template):
    """the Python value does not change"""
    label = "unchanged"

    def __init__(self, v):
        self.v = v

    def havoc(self, t):
        return self.v

    def check(self, t, v):
        return [("same object", const(v is self.v))]


def attempt(ctx, label, fn, allowed):
    try:
        return fn()
    except (Unsupported, PathEnd, vc.Restart):
        raise
    except Exception as e:
        ctx.ensure(f"{label}: only {allowed} may be raised, not {e.__class__.__name__}", const(e.__class__.__name__ in allowed))
        return e


def harnesses(L):
    nx = L.load("graphblas_algorithms.nxapi")
    alg = L.load("graphblas_algorithms.algorithms")
    H = []
    F = "graphblas_algorithms.algorithms.shortest_paths."
    N = "graphblas_algorithms.nxapi.shortest_paths."

    def setup(ctx, directed, dt, nonneg=False, rows=False):
        g = make_graph(L, directed, dt, min_n=1)
        n, A = g._n, g._spec.A
        s, si = a_node(g, "src")
        out = INT64 if dt is BOOL else dt
        w = lambda i, j: G.cast(A.value(i, j), dt, out)
        if nonneg:
            old = P.AXIOMS["Av"]
            P.AXIOMS["Av"] = lambda i, j: old(i, j) + [Implies(A.pres(i, j), Not(lt(w(i, j), R0 if out.sort == "R" else ZERO)))]
        W = Walks(ctx, n, lambda i, j: And(A.pres(i, j), ne(i, j)), w, lambda j: eq(j, si), out.sort, nonneg, directed)
        if rows:
            W.rows = []
        return g, s, si, W, out

    def shapes(W, out, shape=None, cut=None, dst=None):
        """d after t rounds and the frontier; within the cutoff if there is one"""
        n = W.n
        shape = shape or (n,)
        ok = lambda *a: TRUE
        if cut is not None:
            ok = lambda *a: le(toreal(W.wv(*a)), toreal(cut))
        at = lambda f: lambda t, *a: f(*a[:-1], t, a[-1])
        wp, wv, up = at(W.wp), at(W.wv), at(W.up)
        keep = at(lambda *a: ok(*a))
        known = Def("least weights over at most t edges", lambda t: G.Val(shape, out, lambda *a: (And(wp(t, *a), keep(t, *a)), wv(t, *a))))
        front = Def("nodes improved by the t-th edge", lambda t: G.Val(shape, out, lambda *a: (And(up(t, *a), keep(t, *a)), wv(t, *a))))
        idx = tuple(idx_for(d, k) for k, d in enumerate(shape))
        fact = lambda o: Facts(o, lambda t: [W.came(t, idx[-1], *idx[:-1])])

        def tpl(loop, name, v):
            if v is None or is_scalarish(v) and name == "cutoff":
                return [Fixed(v)]
            if not isinstance(v, G.Tensor) or v.frozen or v._v.dt is not out or len(v._v.shape) != len(shape):
                return []
            o = [front, known] if name in multiplied_names(L, loop.lid, True) else [known, front]
            return [fact(x) for x in o]
        return tpl

    def noniso(ctx, g):
        ctx.assume(Not(And(g._spec.iso_flag(), Not(g._spec.get("has_negative_edges+")))))

    def unbounded_ok(ctx, label, g, W, si):
        A, n = g._spec.A, W.n
        neg = lambda i, j: And(A.pres(i, j), lt(W.w(i, j), W.zero))
        m = sub(n, ONE)
        t = W.time()
        ctx.ensure(f"{label}: unbounded only when a negative cycle is reached",
                   Or(ex(n, lambda k: And(W.wp(t, k), neg(k, k))),
                      ex(n, lambda k: And(W.wp(m, k), W.wp(n, k), lt(W.wv(n, k), W.wv(m, k)))) if not ctx.ghost else FALSE,
                      And(const(not g.is_directed() and not ctx.loop_exits and not ctx.ghost), ex(n, lambda k: neg(si, k)))))

    # ---- the lemma `came`, from the definition of W
    def h(ctx, directed, dt):
        g, s, si, W, out = setup(ctx, directed, dt)
        t, j = var("t", "I"), idx_for(W.n, 0)
        i = idx_for(W.n, 1)
        ctx.assume(le(ZERO, t))
        ctx.assume(W.attained(t, j))
        # i is the node the walk of t + 1 edges comes through
        ctx.assume(Implies(And(W.wp(add(t, ONE), j), Not(And(W.wp(t, j), eq(W.wv(add(t, ONE), j), W.wv(t, j))))), And(W.wp(t, i), W.edge(i, j), eq(W.wv(add(t, ONE), j), add(W.wv(t, i), W.w(i, j))))))
        ctx.assume(Implies(lt(ZERO, t), W.step(sub(t, ONE), i, j)))
        ctx.assume(W.up(add(t, ONE), j))
        ctx.ensure("it was improved in the round before", W.up(t, i))
    H += variants(h, "an improvement comes from an improvement", ["ghost theory Walks"], directed=(True,))

    # ---- one source, all targets
    for api in ("algorithms", "nxapi"):
        def h(ctx, directed, dt, api=api):
            g, s, si, W, out = setup(ctx, directed, dt)
            n = W.n
            noniso(ctx, g)
            ctx.templates = shapes(W, out)
            name = "single_source_bellman_ford_path_length"
            r = attempt(ctx, name, lambda: getattr(alg if api == "algorithms" else nx, name)(g, s), ("Unbounded",) if api == "algorithms" else ("NetworkXUnbounded",))
            if isinstance(r, Exception):
                unbounded_ok(ctx, name, g, W, si)
                return
            v = r._val() if api == "algorithms" else r.vector._val()
            i, j = idx_for(n, 1), idx_for(n, 0)
            T = list(ctx.ghost.values()) + [sub(n, ONE)]
            t = W.time()
            if ctx.ghost:
                lemma(ctx, "nothing was improved", Not(W.up(add(t, ONE), j)))
            lemma(ctx, "no further edge improves a weight", Implies(W.wp(add(t, ONE), j), And(W.wp(t, j), le(W.wv(t, j), W.wv(add(t, ONE), j)))))
            walk = lambda j, x: Or(*[And(W.wp(t, j), eq(x, W.wv(t, j))) for t in T])
            ctx.ensure("every distance is the weight of a walk", Implies(v.pres(j), walk(j, v.value(j))))
            ctx.ensure("the source is at distance 0 or less", And(v.pres(si), le(v.value(si), W.zero)))
            e = And(g._spec.A.pres(i, j), v.pres(i))
            ctx.ensure("every edge from a reached node leads to a reached node", Implies(e, v.pres(j)))
            ctx.ensure("no edge shortens a distance", Implies(e, le(v.value(j), add(v.value(i), W.w(i, j)))))
        H += variants(h, f"single_source_bellman_ford_path_length ({api})", [F + "weighted._bellman_ford_path_length", F + "weighted.single_source_bellman_ford_path_length"] + ([N + "weighted.single_source_bellman_ford_path_length"] if api == "nxapi" else []),
                      dts=(FP64, INT64, BOOL) if api == "algorithms" else (FP64,))

    # ---- is there a negative cycle?
    def h(ctx, directed, dt):
        g, s, si, W, out = setup(ctx, directed, dt)
        n, A = W.n, g._spec.A
        deg = g._spec.get("total_degrees-" if directed else "degrees-")
        W.start = lambda j: deg.pres(j)
        ctx.templates = shapes(W, out)
        r = nx.negative_edge_cycle(g)
        neg = lambda i, j: And(A.pres(i, j), lt(W.w(i, j), W.zero))
        i, j = idx_for(n, 1), idx_for(n, 0)
        m = sub(n, ONE)
        if truth(r):
            ctx.ensure("yes only with a negative loop, or a walk of n edges lighter than every shorter one", Or(ex(n, lambda k: neg(k, k)), ex(n, lambda k: And(W.wp(m, k), W.wp(n, k), lt(W.wv(n, k), W.wv(m, k))))))
            return
        e = A.pres(i, j)
        if not ctx.ghost and not ctx.loop_exits:
            # answered from the signs of the weights alone
            ctx.ensure("no: every weight is non-negative", Implies(e, le(W.zero, W.w(i, j))))
            return
        t = W.time()
        if ctx.ghost:
            lemma(ctx, "nothing was improved", Not(W.up(add(t, ONE), j)))
        lemma(ctx, "no further edge improves a weight", Implies(W.wp(add(t, ONE), j), And(W.wp(t, j), le(W.wv(t, j), W.wv(add(t, ONE), j)))))
        ctx.ensure("no: the weights form a potential, under which every edge is non-negative (an edge)", Implies(And(e, ne(i, j)), And(W.wp(t, i), W.wp(t, j), le(W.wv(t, j), add(W.wv(t, i), W.w(i, j))))))
        ctx.ensure("no: no negative loop", Implies(And(e, eq(i, j)), le(W.zero, W.w(i, j))))
    H += variants(h, "negative_edge_cycle", [F + "weighted.negative_edge_cycle", N + "weighted.negative_edge_cycle"], dts=(FP64, INT64))

    # ---- Floyd-Warshall
    def fw(ctx, directed, dt, weighted, nonneg=False):
        """V(t, i, j): least weight of a walk from i to j with inner nodes among the first t nodes of the list the code goes through; by its recursion"""
        g = make_graph(L, directed, dt)
        n, A = g._n, g._spec.A
        out = INT64 if dt is BOOL or not weighted else dt
        zero = R0 if out.sort == "R" else ZERO
        w = (lambda i, j: G.cast(A.value(i, j), dt, out)) if weighted else lambda i, j: ONE
        if nonneg and weighted:
            old = P.AXIOMS["Av"]
            P.AXIOMS["Av"] = lambda i, j: old(i, j) + [Implies(A.pres(i, j), Not(lt(w(i, j), zero)))]
        rule = None if directed else lambda a: None if a[1].uid <= a[2].uid else (a[0], a[2], a[1])
        for nm in ("vp", "vv"):
            TM.APP_RULES.pop(nm, None)
            if rule:
                TM.APP_RULES[nm] = rule
        vp, vv = lambda t, i, j: app("vp", (t, i, j), "B"), lambda t, i, j: app("vv", (t, i, j), out.sort)
        def ax(t, i, j):
            o = [Implies(vp(t, i, j), ne(i, j)), Implies(And(A.pres(i, j), ne(i, j)), And(vp(t, i, j), le(vv(t, i, j), w(i, j))))]
            if is_const(t):
                o.append(And(Iff(vp(t, i, j), And(A.pres(i, j), ne(i, j))), eq(vv(t, i, j), w(i, j))))
            elif nonneg:
                o.append(Implies(vp(t, i, j), le(zero, vv(t, i, j))))
            s_ = None if is_const(t) else sub(t, ONE)
            if s_ is not None and s_.op == "v":
                # one more node to go through never hurts
                o.append(Implies(vp(s_, i, j), And(vp(t, i, j), le(vv(t, i, j), vv(s_, i, j)))))
            return o
        P.AXIOMS["vp"] = P.AXIOMS["vv"] = ax

        def recursion(s_):
            """the definition at the node the round goes through, for the pair the obligations speak of"""
            i, j, t = idx_for(n, 0), idx_for(n, 1), add(s_, ONE)
            k = term_of(next(iter(sym.CTX.loops.values())).get(s_))
            old, via = vp(s_, i, j), And(ne(i, j), vp(s_, i, k), vp(s_, k, j))
            x, y = vv(s_, i, j), add(vv(s_, i, k), vv(s_, k, j))
            return [Iff(vp(t, i, j), Or(old, via)), Implies(vp(t, i, j), eq(vv(t, i, j), ite(And(old, Or(Not(via), le(x, y))), x, y)))]

        def through(s_, v):
            """... and for the pair of i and the predecessor (of j, from the node gone through)"""
            i, j, t = idx_for(n, 0), idx_for(n, 1), add(s_, ONE)
            k = term_of(next(iter(sym.CTX.loops.values())).get(s_))
            x = v.value(k, j)
            return [Implies(And(C.inr(x, n), ne(i, x), vp(s_, i, k), vp(s_, k, x)), And(vp(t, i, x), le(vv(t, i, x), add(vv(s_, i, k), vv(s_, k, x))))),
                    Implies(eq(x, i), And(eq(w(x, j), w(i, j)), Iff(vp(s_, k, x), vp(s_, k, i)), eq(vv(s_, k, x), vv(s_, k, i))))]
        ctx.through = through
        ctx.recursion = recursion
        return g, n, A, out, w, vp, vv

    for pred, weighted in ((False, True), (False, False), (True, True), (True, False)):
        def h(ctx, directed, dt, pred=pred, weighted=weighted):
            g, n, A, out, w, vp, vv = fw(ctx, directed, dt, weighted, nonneg=pred)
            upper = not directed and not pred
            tri = (lambda i, j: lt(i, j)) if upper else (lambda i, j: TRUE)
            i, j = idx_for(n, 0), idx_for(n, 1)

            def tpl(loop, name, v):
                if not isinstance(v, G.Tensor) or v.frozen or len(v._v.shape) != 2:
                    return []
                o = []
                if v._v.dt is out:
                    o.append(Def("least weights through the first t nodes", lambda t: G.Val((n, n), out, lambda i, j: (And(tri(i, j), vp(t, i, j)), vv(t, i, j)))))
                if pred and v._v.dt is not BOOL:
                    o.insert(0 if name.startswith("P") else 1, Rel("the node before the last", (n, n), v._v.dt, lambda t, ix, p, x: [Iff(p, vp(t, *ix)), Implies(p, pred_ok(t, ix[0], ix[1], x))]))
                return [Facts(x, ctx.recursion, ctx.through if isinstance(x, vc.Rel) else None) for x in o]

            def pred_ok(t, i, j, x):
                return And(C.inr(x, n), A.pres(x, j), ne(x, j), Or(And(eq(x, i), le(w(i, j), vv(t, i, j))), And(ne(x, i), vp(t, i, x), le(add(vv(t, i, x), w(x, j)), vv(t, i, j)))))
            ctx.templates = tpl
            if pred:
                Pm, D = alg.floyd_warshall_predecessor_and_distance(g, weighted)
            else:
                D = alg.floyd_warshall(g, weighted)
            v = D._val()
            T = next(iter(ctx.loops.values())).length
            ctx.ensure("shape", And(eq(v.shape[0], n), eq(v.shape[1], n)))
            ctx.ensure("type", const(v.dt.sort == out.sort))
            p, x = v.at(i, j)
            d = eq(i, j)
            ctx.ensure("diagonal: 0", Implies(d, And(p, eq(x, R0 if out.sort == "R" else ZERO))))
            ctx.ensure("present when there is a walk through the nodes gone through", Implies(Not(d), Iff(p, vp(T, i, j))))
            ctx.ensure("least weight", Implies(And(Not(d), p), eq(x, vv(T, i, j))))
            if pred:
                q, y = Pm._val().at(i, j)
                ctx.ensure("predecessors exactly for the pairs joined by a walk", Iff(q, vp(T, i, j)))
                ctx.ensure("each predecessor is consistent with the distances", Implies(q, pred_ok(T, i, j, y)))
        H += variants(h, f"floyd_warshall{' with predecessors' if pred else ''}, {'weighted' if weighted else 'unweighted'}", [F + "dense.floyd_warshall_predecessor_and_distance"] + ([] if pred else [F + "dense.floyd_warshall"]), dts=(FP64, BOOL) if weighted and not pred else (FP64,))
    return H
