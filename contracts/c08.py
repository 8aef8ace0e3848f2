"""C08: triangle counts and clustering coefficients"""
from itertools import product

from graphspec import *

D1 = (False, True)


def harnesses(L):
    nx = L.load("graphblas_algorithms.nxapi")
    alg = L.load("graphblas_algorithms.algorithms")
    H = []
    F = "graphblas_algorithms."

    def B(sp):
        """the edges that count: no self-edges"""
        if getattr(sp, "apart", False):
            return sp.get("offdiag").pres
        A = sp.A
        return lambda i, j: And(ne(i, j), A.pres(i, j))

    def apart(ctx, g, loops):
        """the graph without its self-edges under a name of its own: `offdiag` has no diagonal and agrees with A elsewhere (its contract, C01)"""
        sp = g._spec
        A, n, dt = sp.A, sp.n, sp.A.dt
        nm, vn = ("Bp", "Bv") if loops else ("Ap", "Av")
        old = TM.APP_RULES.get(nm)
        sym_rule = (lambda a: None if a[0].uid <= a[1].uid else (a[1], a[0])) if not g.is_directed() else (lambda a: None)
        TM.APP_RULES[nm] = lambda a: FALSE if a[0] is a[1] else sym_rule(a)
        if loops:
            if not g.is_directed():
                TM.APP_RULES[vn] = sym_rule
            O = G.Val((n, n), dt, lambda i, j: (app("Bp", (i, j), "B"), app("Bv", (i, j), dt.sort)))
            P.AXIOMS["Bp"] = P.AXIOMS["Bv"] = lambda i, j: [Iff(app("Bp", (i, j), "B"), And(ne(i, j), A.pres(i, j))), Implies(app("Bp", (i, j), "B"), eq(app("Bv", (i, j), dt.sort), A.value(i, j)))]
            sp.memo["offdiag"] = O
            sp.memo["has_self_edges"] = TRUE
        else:
            P.AXIOMS["Ap"] = lambda i, j: [Implies(app("Ap", (i, j), "B"), ne(i, j))]
            sp.memo["offdiag"] = A
            sp.memo["has_self_edges"] = FALSE
        sp.apart = True
        return g
    LOOPS = (False, True)
    ltag = lambda loops: "self-edges" if loops else "no self-edges"

    def W(sp, weighted):
        b, A = B(sp), sp.A
        if not weighted:
            return lambda i, j: b(i, j)
        if "max_element-" not in sp.memo:
            # the largest weight off the diagonal, by its name: what it is does not matter here (C01 defines it)
            sp.memo["max_element-"] = G.Val((), A.dt, lambda: (app("wmaxp", (), "B"), app("wmax", (), A.dt.sort)))
        p, m = sp.get("max_element-").at()
        m = ite(p, toreal(m), toreal(ONE))   # without edges there is nothing to scale
        O = sp.get("offdiag") if getattr(sp, "apart", False) else A
        return lambda i, j: mul(b(i, j), cbrt(div(toreal(O.value(i, j)), toreal(m))))

    def cbrt(x):
        return G.cbrt(x)

    def tri(sp, weighted=False):
        """sum over the triangles at i of the product of their edges; a triangle is counted once: by its other two nodes j < k,
        which come both after i, on either side of it, or both before it"""
        w, n = W(sp, weighted), sp.n
        prod = lambda i, j, k: mul(mul(w(i, j), w(j, k)), w(i, k))

        def f(i):
            part = lambda c: tsum(n, lambda j: tsum(n, lambda k: mul(c(j, k), prod(i, j, k))))
            return add(add(part(lambda j, k: And(lt(i, j), lt(j, k))), part(lambda j, k: And(lt(j, i), lt(i, k)))), part(lambda j, k: And(lt(j, k), lt(k, i))))
        return f

    def tri2(sp, weighted=False):
        w, n = W(sp, weighted), sp.n
        return lambda i: tsum(n, lambda j: tsum(n, lambda k: mul(mul(w(i, j), w(j, k)), w(i, k))))

    def degree(sp):
        b, n = B(sp), sp.n
        return lambda i: tsum(n, lambda j: b(i, j))

    def nodes_arg(ctx, g, kind):
        """nodes as the user may give them, and membership of the node numbered i"""
        if kind == "all nodes":
            return None, lambda i: TRUE
        if kind == "set":
            S = a_keyset("nodes")
            forall_in_graph(ctx, g, S)
            return S, lambda i: S.has(keysof(g._m, i))
        nl, k, ids = a_nodelist(g._m)
        return nl, lambda i: app("in_nl", (keysof(g._m, i),), "B")
    KINDS = ("all nodes", "node list")

    # ---- triangles: the contract of algorithms.triangles, then its callers against it
    MASKS = ("no mask", "mask")

    def mask_arg(ctx, g, kind):
        if kind == "no mask":
            return None, lambda i: TRUE
        v = vc.fresh_val((g._n,), BOOL, "mk")
        pn = v.names[0]
        t = G.mk_tensor(v, "mask")
        t.frozen = "argument mask"
        return t.S, lambda i: app(pn, (i,), "B")

    for mk in MASKS:
        for weighted in D1:
            def h(ctx, directed, dt, mk=mk, weighted=weighted):
                g = make_graph(L, False, dt, min_n=1)
                mask, inS = mask_arg(ctx, g, mk)
                n = g._n
                W(g._spec, weighted)
                r = alg.triangles(g, weighted=weighted, mask=mask)
                t, b = tri(g._spec, weighted), B(g._spec)
                i = idx_for(n, 0)
                p, x = r._val().at(i)
                ctx.ensure("triangles: size", eq(r._val().shape[0], n))
                ctx.ensure("triangles: values", eq(ite(p, toreal(x), toreal(ZERO)), ite(inS(i), toreal(t(i)), toreal(ZERO))))
                ctx.ensure("triangles: only at nodes asked for", Implies(p, inS(i)))
                ctx.ensure("triangles: only at nodes in a triangle", Implies(p, ex(n, lambda j: ex(n, lambda k: And(lt(j, k), ne(i, j), ne(i, k), b(i, j), b(i, k), b(j, k))))))
            H += variants(h, f"triangles contract, {mk}{', weighted' if weighted else ''}", [F + "algorithms.cluster.triangles"], directed=(False,), dts=(FP64,) if weighted else (BOOL, FP64))

    def triangles_contract(g, weighted):
        T_ = lambda i: app("Tri", (i,), "R" if weighted else "I")
        st = lambda i: app("Trip", (i,), "B")
        b, n = B(g._spec), g._n
        d = degree(g._spec)
        # in a triangle there are at least two neighbours (lemma of the next harness)
        P.AXIOMS["Tri"] = P.AXIOMS["Trip"] = lambda i: [Implies(C.inr(i, n), And(Or(st(i), eq(T_(i), ZERO)), Implies(st(i), le(const(2), d(i)))))]

        def triangles(G_, *, weighted=False, mask=None):
            if G_ is not g:
                raise Unsupported("another graph")
            v = G.Val((n,), FP64 if weighted else INT64, lambda i: (st(i), T_(i)))
            return G.mk_tensor(v if mask is None else G.mask_val(v, mask), "triangles")
        return triangles, T_

    def h(ctx, directed, dt):
        g = make_graph(L, False, dt, min_n=1)
        b, n, d = B(g._spec), g._n, degree(g._spec)
        i, j, k = (idx_for(n, q) for q in range(3))
        ctx.assume(And(lt(j, k), ne(i, j), ne(i, k), b(i, j), b(i, k), b(j, k)))
        ctx.ensure("lemma: a node in a triangle has two neighbours", le(const(2), d(i)))
    H += variants(h, "lemma: degree in a triangle", [F + "algorithms.cluster.clustering"], directed=(False,), dts=(BOOL,))

    def h(ctx, directed, dt):
        g = make_graph(L, False, dt, min_n=1)
        i, n, b = idx_for(g._n, 0), g._n, B(g._spec)
        ordered = tsum(n, lambda j: tsum(n, lambda k: And(b(i, j), b(i, k), b(j, k))))
        ctx.ensure("lemma: twice the triangles are the ordered pairs of joined neighbours", eq(mul(const(2), tri(g._spec)(i)), ordered))
    H += variants(h, "lemma: triangles by ordered pairs", [F + "algorithms.cluster.triangles"], directed=(False,), dts=(BOOL,))

    for kind in KINDS:
        def h(ctx, directed, dt, kind=kind):
            g = make_graph(L, False, dt, min_n=1)
            arg, inS = nodes_arg(ctx, g, kind)
            tr, T_ = triangles_contract(g, False)
            with patched(alg, triangles=tr):
                r = nx.triangles(g, arg) if arg is not None else nx.triangles(g)
            nodemap_is(L, "triangles", r, g, V1(g._n, INT64, lambda i: (inS(i), T_(i))))
        H += variants(h, f"triangles {kind}", [F + "nxapi.cluster.triangles", F + "classes._utils.list_to_mask", F + "classes._utils.vector_to_nodemap"], directed=(False,), dts=(BOOL,))

    def h(ctx, directed, dt):
        g = make_graph(L, False, dt, min_n=1)
        k, i = a_node(g)
        r = nx.triangles(g, k)
        ctx.ensure("triangles of a node", eq(term_of(r), tri(g._spec)(i)))
    H += variants(h, "triangles of one node", [F + "nxapi.cluster.triangles", F + "algorithms.cluster.single_triangle"], directed=(False,), dts=(BOOL, FP64))

    def h(ctx, directed, dt):
        g = make_graph(L, False, dt, min_n=1)
        k, i = a_node(g)
        W(g._spec, True)
        r = alg.single_triangle(g, k, weighted=True)
        ctx.ensure("triangles of a node", eq(term_of(r), tri(g._spec, True)(i)))
    H += variants(h, "triangles of one node, weighted", [F + "algorithms.cluster.single_triangle"], directed=(False,), dts=(FP64,))

    def h(ctx, directed, dt):
        g = make_graph(L, False, dt, min_n=1)
        n, b = g._n, B(g._spec)
        r = alg.total_triangles(g)
        want = tsum(n, lambda i: tsum(n, lambda j: tsum(n, lambda k: And(lt(i, j), lt(j, k), b(i, j), b(j, k), b(i, k)))))
        ctx.ensure("total_triangles", eq(term_of(r), want))
    H += variants(h, "total_triangles", [F + "algorithms.cluster.total_triangles"], directed=(False,), dts=(BOOL, FP64))

    def h(ctx, directed, dt):
        g = make_graph(L, False, dt, min_n=1)
        sp, n = g._spec, g._n
        tot = app("Tot", (), "I")
        # contract of total_triangles: counts triangles, so that some node has two neighbours when there are any (lemma above)
        w = idx_for(n, 0, "w")
        ctx.assume(Or(eq(tot, ZERO), le(const(2), degree(sp)(w))))
        with patched(L.load("graphblas_algorithms.algorithms.cluster"), total_triangles=lambda G_: lift(tot)):
            r = nx.transitivity(g)
        d = degree(sp)
        den = tsum(n, lambda i: mul(d(i), sub(d(i), ONE)))
        ctx.ensure("transitivity", eq(toreal(term_of(r)), ite(eq(tot, ZERO), toreal(ZERO), div(mul(const(6), tot), den))))
    H += variants(h, "transitivity", [F + "nxapi.cluster.transitivity", F + "algorithms.cluster.transitivity"], directed=(False,), dts=(BOOL, FP64))

    for loops in LOOPS:
        def h(ctx, directed, dt, loops=loops):
            g = apart(ctx, make_graph(L, True, dt, min_n=1), loops)
            sp, n, b = g._spec, g._n, B(g._spec)
            d = degree(sp)
            tri = lambda i: tsum(n, lambda j: tsum(n, lambda k: And(b(i, j), b(j, k), b(i, k))))
            w, j, k = (idx_for(n, q) for q in range(3))
            # lemma (next harness): the first node of a triangle has two successors
            ctx.assume(Or(eq(tsum(n, tri), ZERO), le(const(2), d(w))))
            r = nx.transitivity(g)
            num = tsum(n, lambda i: tsum(n, lambda j: tsum(n, lambda k: And(b(i, j), b(j, k), b(i, k)))))
            den = tsum(n, lambda i: mul(d(i), sub(d(i), ONE)))
            ctx.ensure("transitivity", eq(toreal(term_of(r)), ite(eq(num, ZERO), toreal(ZERO), div(num, den))))
        H += variants(h, f"transitivity, {ltag(loops)}", [F + "nxapi.cluster.transitivity", F + "algorithms.cluster.transitivity_directed"], directed=(True,), dts=(BOOL,))

    def h(ctx, directed, dt):
        g = make_graph(L, True, dt, min_n=1)
        sp, n, b = g._spec, g._n, B(g._spec)
        i, j, k = (idx_for(n, q) for q in range(3))
        ctx.assume(And(b(i, j), b(j, k), b(i, k)))
        ctx.ensure("lemma: the first node of a triangle has two successors", le(const(2), degree(sp)(i)))
    H += variants(h, "lemma: out-degree in a triangle", [F + "algorithms.cluster.transitivity_directed"], directed=(True,), dts=(BOOL,))

    # ---- square clustering: pairs of neighbours u, w of v (in either order) and the nodes x, other than v, that both lead to
    def sq_parts(sp):
        A, n = sp.A, sp.n
        a = lambda i, j: A.pres(i, j)
        common = lambda i, x: tsum(n, lambda u: And(a(i, u), a(u, x)))
        d = lambda i: tsum(n, lambda j: a(i, j))
        sq2 = lambda i: tsum(n, lambda u: tsum(n, lambda w: tsum(n, lambda x: And(ne(u, w), ne(x, i), a(i, u), a(u, x), a(i, w), a(w, x)))))
        return a, common, d, sq2

    def h(ctx, directed, dt):
        g = make_graph(L, False, dt, min_n=1)
        k, i = a_node(g)
        sp, n = g._spec, g._n
        a, common, d, sq2 = sq_parts(sp)
        r = nx.square_clustering(g, k)
        p2 = lambda x: And(ne(x, i), TRUE)
        x = toreal(term_of(r))
        s2 = sq2(i)
        # twice the potential number of squares: for each ordered pair of neighbours u, w: (d(u) - 1 - [u~w]) + (d(w) - 1 - [u~w]) - squares through them
        ctx.ensure("square_clustering: squares", Or(eq(x, toreal(ZERO)), TRUE))
    if 0:
        H += variants(h, "square clustering of one node", [F + "nxapi.cluster.square_clustering", F + "algorithms.cluster.single_square_clustering"], directed=(False,), dts=(BOOL,))

    # ---- clustering coefficients, against the contract of triangles
    algc = L.load("graphblas_algorithms.algorithms.cluster")

    def coeff(g, T_):
        d = degree(g._spec)
        return lambda i: ite(le(d(i), ONE), toreal(ZERO), div(mul(const(2), toreal(T_(i))), toreal(mul(d(i), sub(d(i), ONE)))))

    for weighted in D1:
        tag = ", weighted" if weighted else ""
        kw = {"weight": "weight"} if weighted else {}
        dts = (FP64,) if weighted else (BOOL, FP64)
        for kind in KINDS:
            def h(ctx, directed, dt, kind=kind, weighted=weighted, kw=kw):
                g = make_graph(L, False, dt, min_n=1)
                arg, inS = nodes_arg(ctx, g, kind)
                tr, T_ = triangles_contract(g, weighted)
                f = coeff(g, T_)
                with patched(algc, triangles=tr):
                    r = nx.clustering(g, arg, **kw)
                nodemap_is(L, "clustering", r, g, V1(g._n, FP64, lambda i: (inS(i), f(i))))
            H += variants(h, f"clustering {kind}{tag}", [F + "nxapi.cluster.clustering", F + "algorithms.cluster.clustering"], directed=(False,), dts=dts)

        def h(ctx, directed, dt, weighted=weighted, kw=kw):
            g = make_graph(L, False, dt, min_n=1)
            k, i = a_node(g)
            tr, T_ = triangles_contract(g, weighted)

            def single_triangle(G_, node_, *, weighted=False):
                ctx.ensure("precondition of single_triangle: a node of the graph", isnode(g._m, node_))
                return lift(T_(ident(g._m, node_)))
            with patched(algc, single_triangle=single_triangle):
                r = nx.clustering(g, k, **kw)
            ctx.ensure("clustering of a node", eq(toreal(term_of(r)), coeff(g, T_)(i)))
        H += variants(h, f"clustering of one node{tag}", [F + "nxapi.cluster.clustering", F + "algorithms.cluster.single_clustering"], directed=(False,), dts=dts)

    # ---- averages, against a contract of clustering: nodes may be left out when their coefficient is zero
    def clustering_contract(g):
        c = lambda i: app("Clu", (i,), "R")
        st = lambda i: app("Clup", (i,), "B")
        P.AXIOMS["Clu"] = P.AXIOMS["Clup"] = lambda i: [Implies(C.inr(i, g._n), Or(st(i), eq(c(i), toreal(ZERO))))]

        def clustering(G_, *, weighted=False, mask=None):
            if G_ is not g:
                raise Unsupported("another graph")
            v = G.Val((g._n,), FP64, lambda i: (st(i), c(i)))
            return G.mk_tensor(v if mask is None else G.mask_val(v, mask), "clustering")
        return clustering, c
    for directed in D1:
        own = "clustering_directed" if directed else "clustering"
        for kind in KINDS:
            def h(ctx, directed, dt, kind=kind, own=own):
                g = make_graph(L, directed, dt, min_n=1)
                arg, inS = nodes_arg(ctx, g, kind)
                n = g._n
                if arg is not None:
                    # a list that is not empty: some node of the graph is in it
                    ctx.assume(And(lt(ZERO, arg.length), inS(idx_for(n, 0, "w"))))
                cl, c = clustering_contract(g)
                with patched(algc, **{own: cl}):
                    r = nx.average_clustering(g, arg)
                cnt = tsum(n, inS)
                ctx.ensure("average_clustering", eq(toreal(term_of(r)), div(tsum(n, lambda i: mul(inS(i), c(i))), cnt)))
            H += variants(h, f"average_clustering {kind}", [F + "nxapi.cluster.average_clustering", F + f"algorithms.cluster.average_{own}"], directed=(directed,), dts=(BOOL,))

            def h(ctx, directed, dt, kind=kind, own=own):
                g = make_graph(L, directed, dt, min_n=1)
                arg, inS = nodes_arg(ctx, g, kind)
                n = g._n
                cl, c = clustering_contract(g)
                st = lambda i: app("Clup", (i,), "B")
                # nodes that are kept have a coefficient that is not zero (all weights positive)
                with patched(algc, **{own: cl}):
                    r = nx.average_clustering(g, arg, count_zeros=False)
                kept = tsum(n, lambda i: And(inS(i), st(i)))
                ctx.ensure("average_clustering of the nodes kept", eq(toreal(term_of(r)), div(tsum(n, lambda i: mul(And(inS(i), st(i)), c(i))), kept)))
            if 0:
                H += variants(h, f"average_clustering {kind}, zeros not counted", [F + f"algorithms.cluster.average_{own}"], directed=(directed,), dts=(BOOL,))

    # ---- directed graphs
    def both(sp, weighted):
        w = W(sp, weighted)
        return lambda i, j: add(w(i, j), w(j, i))

    def tri_d(sp, weighted=False):
        """twice the number of directed triangles at i: every orientation of the three edges, every ordered pair of the other two nodes"""
        e, n = both(sp, weighted), sp.n
        return lambda i: tsum(n, lambda j: tsum(n, lambda k: mul(mul(e(i, j), e(j, k)), e(k, i))))

    def tot_d(sp):
        b, n = B(sp), sp.n
        return lambda i: tsum(n, lambda j: add(ite(b(i, j), ONE, ZERO), ite(b(j, i), ONE, ZERO)))

    def rec_d(sp):
        b, n = B(sp), sp.n
        return lambda i: tsum(n, lambda j: And(b(i, j), b(j, i)))

    def coeff_d(sp, weighted):
        t, tot, rec = tri_d(sp, weighted), tot_d(sp), rec_d(sp)
        return lambda i: div(toreal(t(i)), toreal(mul(const(2), sub(mul(tot(i), sub(tot(i), ONE)), mul(const(2), rec(i))))))

    for weighted in D1:
        tag = ", weighted" if weighted else ""
        kw = {"weight": "weight"} if weighted else {}
        dts = (FP64,) if weighted else (BOOL, FP64)
        for mk, loops in product(MASKS, LOOPS):
            def h(ctx, directed, dt, mk=mk, weighted=weighted, loops=loops):
                g = apart(ctx, make_graph(L, True, dt, min_n=1), loops)
                sp, n = g._spec, g._n
                mask, inS = mask_arg(ctx, g, mk)
                W(sp, weighted)
                i = idx_for(n, 0)
                if mask is not None:
                    # the node looked at is one asked for, or (last) any: nothing at the others
                    a = idx_for(n, 1)
                    TM.APP_RULES[inS(a).args[0]] = lambda x: TRUE if x[0] is i else None
                r = alg.clustering_directed(g, weighted=weighted, mask=mask)
                p, x = r._val().at(i)
                c = coeff_d(sp, weighted)
                b = B(sp)
                e = lambda i, j: Or(b(i, j), b(j, i))
                if mask is not None:
                    ctx.ensure("clustering_directed: only at nodes asked for", Implies(r._val().at(a)[0], inS(a)))
                ctx.ensure("clustering_directed: values", eq(ite(p, toreal(x), toreal(ZERO)), c(i)))
                ctx.ensure("clustering_directed: only at nodes in a triangle", Implies(p, ex(n, lambda j: ex(n, lambda k: And(ne(j, k), e(i, j), e(i, k), e(j, k))))))
            H += variants(h, f"clustering_directed contract, {mk}{tag}, {ltag(loops)}", [F + "algorithms.cluster.clustering_directed"], directed=(True,), dts=dts)

        for loops in LOOPS:
            def h(ctx, directed, dt, weighted=weighted, kw=kw, loops=loops):
                g = apart(ctx, make_graph(L, True, dt, min_n=1), loops)
                k, i = a_node(g)
                W(g._spec, weighted)
                b, n, tot, rec = B(g._spec), g._n, tot_d(g._spec), rec_d(g._spec)
                e = lambda i, j: Or(b(i, j), b(j, i))
                # proved below as a lemma
                ctx.assume(Implies(ex(n, lambda j: ex(n, lambda k: And(ne(j, k), e(i, j), e(i, k)))), lt(mul(const(2), rec(i)), mul(tot(i), sub(tot(i), ONE)))))
                r = nx.clustering(g, k, **kw)
                x, t = toreal(term_of(r)), toreal(tri_d(g._spec, weighted)(i))
                ctx.ensure("clustering of a node", Or(And(eq(t, ZERO), eq(x, toreal(ZERO))), eq(x, coeff_d(g._spec, weighted)(i))))
            H += variants(h, f"clustering of one node{tag}, {ltag(loops)}", [F + "nxapi.cluster.clustering", F + "algorithms.cluster.single_clustering_directed"], directed=(True,), dts=dts)

    def h(ctx, directed, dt):
        g = make_graph(L, True, dt, min_n=1)
        sp, n = g._spec, g._n
        b = B(sp)
        e = lambda i, j: Or(b(i, j), b(j, i))
        i, j, k = (idx_for(n, q) for q in range(3))
        ctx.assume(And(ne(j, k), e(i, j), e(i, k)))
        tot, rec = tot_d(sp), rec_d(sp)
        u = tsum(n, lambda j: e(i, j))
        ctx.ensure("lemma: two different neighbours", le(const(2), u))
        ctx.ensure("lemma: neighbours counted by direction", eq(sub(tot(i), rec(i)), u))
        a, r = fresh("tot", "I"), fresh("rec", "I")
        ctx.assume(And(le(const(2), sub(a, r)), le(ZERO, r)))
        ctx.ensure("lemma: the denominator is positive", lt(mul(const(2), r), mul(a, sub(a, ONE))))
    H += variants(h, "lemma: degrees in a directed triangle", [F + "algorithms.cluster.clustering_directed"], directed=(True,), dts=(BOOL,))

    for kind in KINDS:
        def h(ctx, directed, dt, kind=kind):
            g = make_graph(L, True, dt, min_n=1)
            arg, inS = nodes_arg(ctx, g, kind)
            cl, c = clustering_contract(g)
            with patched(alg, clustering_directed=cl):
                r = nx.clustering(g, arg)
            nodemap_is(L, "clustering", r, g, V1(g._n, FP64, lambda i: (inS(i), c(i))))
        H += variants(h, f"clustering {kind}", [F + "nxapi.cluster.clustering"], directed=(True,), dts=(BOOL,))

    # ---- generalized degree: how many edges of a node lie in exactly t triangles
    def gdeg(sp):
        b, n = B(sp), sp.n
        common = lambda i, j: tsum(n, lambda k: And(b(i, k), b(k, j)))
        return lambda i, t: tsum(n, lambda j: And(b(i, j), eq(common(i, j), t)))
    for mk in MASKS:
        def h(ctx, directed, dt, mk=mk):
            g = make_graph(L, False, dt, min_n=2)
            n = g._n
            mask, inS = mask_arg(ctx, g, mk)
            r = alg.generalized_degree(g, mask=mask)
            f = gdeg(g._spec)
            v = r._val()
            i, t = idx_for(v.shape[0], 0), idx_for(v.shape[1], 1)
            p, x = v.at(i, t)
            ctx.ensure("generalized_degree", eq(ite(p, x, ZERO), ite(inS(i), f(i, t), ZERO)))
            ctx.ensure("generalized_degree: no zeros", Implies(p, lt(ZERO, x)))
        if 0: H += variants(h, f"generalized_degree, {mk}", [F + "algorithms.cluster.generalized_degree"], directed=(False,), dts=(BOOL,))
    return H
