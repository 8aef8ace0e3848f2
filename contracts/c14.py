"""C14: isomorphism pre-tests. A relational contract: the second graph is the first one renumbered by an arbitrary permutation, under arbitrary labels."""
from graphspec import *


def harnesses(L):
    iso = L.load("graphblas_algorithms.algorithms.isomorphism.isomorph")
    nx = L.load("graphblas_algorithms.nxapi")
    H = []
    F = "graphblas_algorithms.algorithms.isomorphism.isomorph."

    def simple(g, ne=ne):
        """the edges that count for triangles: both directions, no self-edges"""
        A = g._spec.A
        return (lambda i, j: And(ne(i, j), Or(A.pres(i, j), A.pres(j, i)))) if g.is_directed() else (lambda i, j: And(ne(i, j), A.pres(i, j)))

    def pairs(g, ne=ne):
        """ordered pairs of neighbours that are joined: twice the number of triangles (lemma in c08)"""
        b, n = simple(g, ne), g._n
        return lambda i: tsum(n, lambda j: tsum(n, lambda k: And(b(i, j), b(i, k), b(j, k))))

    def triangles_contract(ctx, *gs, renumbered=False):
        """proved in c08: the triangles at every node, nothing stored where there are none. Here by name (Tri1, Tri2); that they follow the
        renumbering, and that a node in a triangle has a neighbour, are lemmas (below)"""
        T_ = {}
        for k, g in enumerate(gs, 1):
            T_[g._n] = (g, f"Tri{k}")
            b, n = simple(g), g._n
            P.AXIOMS[f"Tri{k}"] = lambda i, k=k, b=b, n=n: [Implies(C.inr(i, n), And(le(ZERO, app(f"Tri{k}", (i,), "I")), Implies(ne(app(f"Tri{k}", (i,), "I"), ZERO), ex(n, lambda j: b(i, j)))))]
        if renumbered:
            TM.APP_RULES["Tri2"] = lambda a: app("Tri1", a[0].args[1:], "I") if a[0].op == "app" and a[0].args[0] == "pi" else None

        def triangles(G_, *, weighted=False, mask=None):
            if weighted or mask is not None:
                raise Unsupported("triangles with a mask or weights")
            ctx.ensure("precondition of triangles: an undirected graph", const(not G_.is_directed()))
            A = G_._A._val()
            n = A.shape[0]
            g, t = T_[n]
            i, j = idx_for(n, 0), idx_for(n, 1)
            ctx.ensure("precondition of triangles: the simple graph underneath", Implies(ne(i, j), Iff(A.pres(i, j), simple(g)(i, j))))
            return G.mk_tensor(V1(n, INT64, lambda i: (ne(app(t, (i,), "I"), ZERO), app(t, (i,), "I"))), "triangles")
        return triangles

    def renumbered(ctx, directed, dt):
        """two graphs; node i of the first is node pi(i) of the second"""
        g1 = make_graph(L, directed, dt, tag="1", min_n=1)
        n1 = g1._n
        n2 = var("n2", "I")
        g2 = make_graph(L, directed, dt, tag="2", n=n2, min_n=1)
        ctx.assume(eq(n2, n1))
        p = lambda i: app("pi", (i,), "I")
        q = lambda i: app("iq", (i,), "I")
        inr = lambda i, n: And(le(ZERO, i), lt(i, n))
        P.APP_DIM["pi"], P.APP_DIM["iq"] = n2, n1
        P.AXIOMS["pi"] = lambda i: [Implies(inr(i, n1), And(inr(p(i), n2), eq(q(p(i)), i)))]
        P.AXIOMS["iq"] = lambda i: [Implies(inr(i, n2), And(inr(q(i), n1), eq(p(q(i)), i)))]
        C.INV["pi"] = lambda a, y: (inr(y, n2), q(y))
        TM.REINDEX[n2] = (n1, p)
        sy = TM.APP_RULES.get("Ap2")
        pre = lambda t: t.args[1] if t.op == "app" and t.args[0] == "pi" else None

        def rule(a):
            i, j = pre(a[0]), pre(a[1])
            if i is not None and j is not None:
                return app("Ap1", (i, j), "B")
            return sy(a) if sy else None
        TM.APP_RULES["Ap2"] = rule
        ctx.bijection = p
        return g1, g2

    for name in ("faster_could_be_isomorphic", "fast_could_be_isomorphic"):
        def h(ctx, directed, dt, name=name):
            g1, g2 = renumbered(ctx, directed, dt)
            with patched(iso, triangles=triangles_contract(ctx, g1, g2, renumbered=True)):
                r = getattr(nx, name)(g1, g2)
            ctx.ensure(f"{name}: isomorphic graphs are accepted", term_of(r))
        H += variants(h, f"{name} accepts isomorphic graphs", [F + name], dts=(BOOL, FP64))

        def h(ctx, directed, dt, name=name):
            g1 = make_graph(L, directed, dt, tag="1", min_n=1)
            g2 = make_graph(L, directed, dt, tag="2", min_n=1)
            with patched(iso, triangles=triangles_contract(ctx, g1, g2)):
                r = getattr(nx, name)(g1, g2)
            if truth(r):
                ctx.ensure("yes: as many nodes", eq(g1._n, g2._n))
                d1, d2 = (g._spec.get("total_degrees+" if directed else "degrees+") for g in (g1, g2))
                i = idx_for(g1._n, 0)
                j = idx_for(g2._n, 1)

                def is_(v, f, i):
                    p, x = v.at(i)
                    fp, fx = f.at(i)
                    return And(Iff(p, fp), Implies(p, eq(x, fx)))
                found = [(ra, a, rb, b) for ra, a, rb, b in ctx.__dict__.get("array_equal", [])]
                # sorted sequences of as many numbers (the rest of the nodes have degree zero) were compared and found equal
                same = lambda v, f, i: is_(v, f, i)
                ok = [Implies(TRUE, And(same(a, d1, i), same(b, d2, j))) for ra, a, rb, b in found]
                ctx.ensure("yes: the degrees were compared", Or(*ok))
                ctx.ensure("yes: as many nodes without edges", eq(d1.nvals(), d2.nvals()))
                if name.startswith("fast_") and not directed:
                    t1, t2 = (V1(g._n, INT64, lambda i, g=g, t=t: (g._spec.get("degrees+").pres(i), app(t, (i,), "I"))) for g, t in ((g1, "Tri1"), (g2, "Tri2")))
                    pairs_ok = []
                    for ra, a, rb, b in found:
                        for ra2, a2, rb2, b2 in found:
                            if ra == ra2 and rb == rb2 and len(ra) == 2:
                                pairs_ok.append(And(same(a, d1, i), same(b, d2, j), same(a2, t1, i), same(b2, t2, j)))
                    ctx.ensure("yes: the pairs of degree and triangle count were compared", Or(*pairs_ok))
        H += variants(h, f"{name} rejects different degrees", [F + name], dts=(BOOL,))
    def h(ctx, directed, dt):
        g1, g2 = renumbered(ctx, directed, dt)
        i = idx_for(g1._n, 0)
        j = idx_for(g1._n, 1)
        pi = ctx.bijection
        ctx.ensure("lemma: different nodes stay different", Iff(ne(pi(i), pi(j)), ne(i, j)))
        differ = lambda x, y: ne(x.args[1], y.args[1])   # of two renumbered nodes, by the lemma
        ctx.ensure("lemma: renumbering keeps the triangles", eq(pairs(g2, differ)(pi(i)), pairs(g1)(i)))
        b = simple(g1)
        ctx.ensure("lemma: a node in a triangle has a neighbour", Implies(ne(pairs(g1)(i), ZERO), ex(g1._n, lambda j: b(i, j))))
    H += variants(h, "lemma: triangles of renumbered graphs", [F + "fast_could_be_isomorphic"], dts=(BOOL,))
    return H
