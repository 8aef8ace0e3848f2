"""C10: degree measures and structural predicates"""
from graphspec import *


def harnesses(L):
    nx = L.load("graphblas_algorithms.nxapi")
    alg = L.load("graphblas_algorithms.algorithms")
    for m in ("tournament", "isolate", "regular", "smetric", "structuralholes", "triads", "simple_paths", "dominating", "reciprocity", "lowest_common_ancestors"):
        L.load(f"graphblas_algorithms.nxapi.{m}")
    H = []
    F = "graphblas_algorithms."

    # ---- centralities
    def dense(kind):
        def f(sp):
            d, n = deg(sp, kind), sp.n
            return V1(n, FP64, lambda i: (TRUE, ite(le(n, ONE), const(1.0), mul(toreal(d(i)), inv(sub(n, ONE))))))
        return f
    for fn, kind in (("degree_centrality", "deg"), ("in_degree_centrality", "in"), ("out_degree_centrality", "out")):
        def h(ctx, directed, dt, fn=fn, kind=kind):
            g = make_graph(L, directed, dt)
            sp = g._spec
            if not directed:
                no_loops(ctx, sp)
            r = getattr(nx, fn)(g)
            nodemap_is(L, fn, r, g, dense(kind)(sp))
        H += variants(h, fn, [F + f"nxapi.centrality.degree_alg.{fn}", F + f"algorithms.centrality.degree_alg.{fn}", F + "algorithms.centrality.degree_alg._degree_centrality"],
                      directed=(False, True) if kind == "deg" else (True,))

    # ---- isolates
    def isolated(sp):
        A, n = sp.A, sp.n
        return lambda i: Not(ex(n, lambda j: Or(A.pres(i, j), A.pres(j, i))))

    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        r = nx.isolates(g)
        nodemap_is(L, "isolates", r, g, V1(g._n, BOOL, lambda i: (isolated(g._spec)(i), TRUE)), "NodeSet")
    H += variants(h, "isolates", [F + "nxapi.isolate.isolates", F + "algorithms.isolate.isolates"])

    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        k = a_label("k")
        ctx.assume(isnode(g._m, k))
        r = nx.is_isolate(g, k)
        ctx.ensure("is_isolate", Iff(term_of(r), isolated(g._spec)(ident(g._m, k))))
    H += variants(h, "is_isolate", [F + "nxapi.isolate.is_isolate", F + "algorithms.isolate.is_isolate"])

    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        r = nx.number_of_isolates(g)
        f = isolated(g._spec)
        ctx.ensure("number_of_isolates", eq(term_of(r), tsum(g._n, f)))
    H += variants(h, "number_of_isolates", [F + "nxapi.isolate.number_of_isolates", F + "algorithms.isolate.number_of_isolates"])

    # ---- regularity
    def all_equal(n, d):
        return forall1(n, lambda i: forall1(n, lambda j: eq(d(i), d(j))))

    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt, min_n=1)
        sp = g._spec
        if not directed:
            no_loops(ctx, sp)
        r = nx.is_regular(g)
        want = And(all_equal(g._n, deg(sp, "out")), all_equal(g._n, deg(sp, "in"))) if directed else all_equal(g._n, deg(sp, "out"))
        ctx.ensure("is_regular", Iff(term_of(r), want))
    H += variants(h, "is_regular", [F + "nxapi.regular.is_regular", F + "algorithms.regular.is_regular"])

    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt, min_n=1)
        sp = g._spec
        no_loops(ctx, sp)
        k = an_int("k")
        r = nx.is_k_regular(g, k)
        d = deg(sp, "out")
        ctx.ensure("is_k_regular", Iff(term_of(r), forall1(g._n, lambda i: eq(d(i), term_of(k)))))
    H += variants(h, "is_k_regular", [F + "nxapi.regular.is_k_regular", F + "algorithms.regular.is_k_regular"], directed=(False,))

    # ---- reciprocity
    def rec(sp):
        A, n = sp.A, sp.n
        both = lambda i: tsum(n, lambda j: And(ne(i, j), A.pres(i, j), A.pres(j, i)))
        return both

    def with_loops_overlap(sp):
        A, n = sp.A, sp.n
        return lambda i: tsum(n, lambda j: And(A.pres(i, j), A.pres(j, i)))

    def h(ctx, directed, dt):
        g = make_graph(L, True, dt)
        sp = g._spec
        A, n = sp.A, sp.n
        m = tsum(n, lambda i: tsum(n, lambda j: A.pres(i, j)))
        try:
            r = nx.overall_reciprocity(g)
        except Exception as e:
            if type(e).__name__ != "NetworkXError":
                raise
            ctx.ensure("overall_reciprocity: raises only without edges", eq(m, ZERO))
            return
        ctx.ensure("overall_reciprocity: defined", ne(m, ZERO))
        ov = tsum(n, lambda i: tsum(n, lambda j: And(ne(i, j), A.pres(i, j), A.pres(j, i))))
        ctx.ensure("overall_reciprocity: value", eq(term_of(r), div(ov, m)))
    H += variants(h, "overall_reciprocity", [F + "nxapi.reciprocity.overall_reciprocity", F + "algorithms.reciprocity.overall_reciprocity"], directed=(True,), dts=(BOOL, FP64))

    def h(ctx, directed, dt):
        g = make_graph(L, True, dt)
        sp = g._spec
        k = a_label("k")
        ctx.assume(isnode(g._m, k))
        i = ident(g._m, k)
        b, d = with_loops_overlap(sp), deg(sp, "deg")
        try:
            r = nx.reciprocity(g, k)
        except Exception as e:
            if type(e).__name__ != "NetworkXError":
                raise
            ctx.ensure("reciprocity of a node: raises only when isolated", eq(d(i), ZERO))
            return
        ctx.ensure("reciprocity of a node: not isolated", ne(d(i), ZERO))
        ctx.ensure("reciprocity of a node: value", eq(term_of(r), div(mul(const(2), b(i)), d(i))))
    H += variants(h, "reciprocity-node", [F + "nxapi.reciprocity.reciprocity", F + "algorithms.reciprocity.reciprocity"], directed=(True,), dts=(BOOL,))

    # ---- s-metric: sum over edges of the product of the degrees
    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        sp = g._spec
        A, n = sp.A, sp.n
        if not directed:
            no_loops(ctx, sp)
        d = deg(sp, "deg")
        tot = tsum(n, lambda i: tsum(n, lambda j: mul(mul(A.pres(i, j), d(i)), d(j))))
        r = nx.s_metric(g)
        ctx.ensure("s_metric", eq(toreal(term_of(r)), toreal(tot) if directed else mul(toreal(tot), const(0.5))))
    H += variants(h, "s_metric", [F + "nxapi.smetric.s_metric", F + "algorithms.smetric.s_metric"], dts=(BOOL, INT64, FP64))

    # ---- mutual weight
    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        A = g._spec.A
        u, v = a_label("u"), a_label("v")
        ku, kv = isnode(g._m, u), isnode(g._m, v)
        i, j = ident(g._m, u), ident(g._m, v)
        r = nx.structuralholes.mutual_weight(g, u, v) if hasattr(nx, "structuralholes") else nx.mutual_weight(g, u, v)
        w = lambda i, j: ite(A.pres(i, j), G.cast(A.value(i, j), dt, INT64) if dt is BOOL else A.value(i, j), ZERO)
        want = ite(And(ku, kv), add(w(i, j), w(j, i)), ZERO)
        ctx.ensure("mutual_weight", eq(toreal(term_of(r)), toreal(want)))
    H += variants(h, "mutual_weight", [F + "nxapi.structuralholes.mutual_weight", F + "algorithms.structuralholes.mutual_weight"], dts=(INT64, FP64))

    # ---- tournaments
    def h(ctx, directed, dt):
        g = make_graph(L, True, dt)
        A = g._spec.A
        r = nx.tournament.tournament_matrix(g)
        val = lambda i, j: G.cast(A.value(i, j), dt, INT64) if dt is BOOL else A.value(i, j)
        w = lambda i, j: ite(A.pres(i, j), val(i, j), ZERO)
        structure_is("tournament_matrix", r, A.shape, lambda i, j: Or(A.pres(i, j), A.pres(j, i)))
        values_are("tournament_matrix", r, lambda i, j: sub(w(i, j), w(j, i)))
    H += variants(h, "tournament_matrix", [F + "nxapi.tournament.tournament_matrix", F + "algorithms.tournament.tournament_matrix"], directed=(True,), dts=(BOOL, INT64, FP64))

    # ---- triad
    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        r = nx.is_triad(g) if hasattr(nx, "is_triad") else nx.triads.is_triad(g)
        want = And(eq(g._n, const(3)), Not(g._spec.loops())) if directed else FALSE
        ctx.ensure("is_triad", Iff(term_of(r), want))
    H += variants(h, "is_triad", [F + "nxapi.triads.is_triad", F + "algorithms.triads.is_triad"])

    # ---- dominating set
    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        A, n = g._spec.A, g._n
        S = a_keyset("nbunch")
        inS = lambda i: S.has(keysof(g._m, i))
        r = nx.is_dominating_set(g, S)
        want = forall1(n, lambda i: Or(inS(i), ex(n, lambda j: And(inS(j), A.pres(j, i)))))
        ctx.ensure("is_dominating_set", Iff(term_of(r), want))
    H += variants(h, "is_dominating_set", [F + "nxapi.dominating.is_dominating_set", F + "algorithms.dominating.is_dominating_set", F + "classes._utils.set_to_vector"])
    return H
