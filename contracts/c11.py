"""C11: matrices derived from a graph"""
from graphspec import *


def harnesses(L):
    nx = L.load("graphblas_algorithms.nxapi")
    linalg = L.load("graphblas_algorithms.linalg")
    nxl = L.load("graphblas_algorithms.nxapi.linalg")
    H = []
    F = "graphblas_algorithms."
    R = toreal

    def sub_(ctx, g, listed):
        """(argument, number of rows, stored?, entry) of the matrix the formula is about"""
        A = g._spec.A
        if not listed:
            return None, g._n, A.pres, A.value
        nl, k, ids = a_nodelist(g._m)
        return nl, k, lambda i, j: A.pres(ids(i), ids(j)), lambda i, j: A.value(ids(i), ids(j))

    def weight(pres, val, weighted):
        one = lambda i, j: ite(pres(i, j), ONE, ZERO)
        return (lambda i, j: ite(pres(i, j), val(i, j), ZERO)) if weighted else one

    def each(fn, name, functions, directed=(False, True), weighted=(False, True), dts=(FP64, INT64), **kw):
        out = []
        for d in directed:
            for dt in dts:
                for w in weighted:
                    for l in (False, True):
                        out.append(Harness(f"{name}[{'DiGraph' if d else 'Graph'},{dt.name},{'weighted' if w else 'unweighted'},{'nodelist' if l else 'all nodes'}]",
                                           (lambda d, dt, w, l: lambda ctx: fn(ctx, d, dt, w, l))(d, dt, w, l), functions, **kw))
        return out

    def W(w):
        return "weight" if w else None

    # ---- adjacency
    def h(ctx, directed, dt, w, l):
        g = make_graph(L, directed, dt)
        nl, k, pres, val = sub_(ctx, g, l)
        r = nxl.adjacency_matrix(g, nodelist=nl, weight=W(w))
        structure_is("adjacency_matrix", r, (k, k), pres)
        if w:
            values_are("adjacency_matrix", r, val)
        else:
            values_are("adjacency_matrix", r, lambda i, j: dt.one)
        ctx.ensure("adjacency_matrix: dtype", const(r.dtype is dt))
        ctx.ensure("adjacency_matrix: a matrix of its own", const(r is not g._A and getattr(r, "frozen", None) is None))
    H += each(h, "adjacency_matrix", [F + "nxapi.linalg.graphmatrix.adjacency_matrix", F + "linalg.graphmatrix.adjacency_matrix", F + "classes._utils.list_to_ids"])

    # ---- Laplacians
    fl = [F + "linalg.laplacianmatrix._laplacian_helper", F + "classes._utils.list_to_ids"]

    def h(ctx, directed, dt, w, l):
        g = make_graph(L, directed, dt)
        if not directed:
            no_loops(ctx, g._spec)
        nl, k, pres, val = sub_(ctx, g, l)
        a = weight(pres, val, w)
        r = nxl.laplacian_matrix(g, nodelist=nl, weight=W(w))
        d = lambda i: tsum(k, lambda j: a(i, j))
        dense_is("laplacian_matrix", r, (k, k), lambda i, j: sub(ite(eq(i, j), d(i), ZERO), a(i, j)))
    H += each(h, "laplacian_matrix", [F + "nxapi.linalg.laplacianmatrix.laplacian_matrix", F + "linalg.laplacianmatrix.laplacian_matrix"] + fl)

    def h(ctx, directed, dt, w, l):
        g = make_graph(L, directed, dt)
        if not directed:
            no_loops(ctx, g._spec)
        nl, k, pres, val = sub_(ctx, g, l)
        a = weight(pres, val, w)
        d = lambda i: R(tsum(k, lambda j: a(i, j)))
        has = lambda i: ex(k, lambda j: pres(i, j))
        i, j = idx_for(k, 0), idx_for(k, 1)
        # the formula is defined: nodes with edges have a positive degree, both ends of every edge included
        for x in (i, j):
            ctx.assume(Implies(has(x), lt(R(ZERO), d(x))))
        ctx.assume(Implies(pres(i, j), has(j)))
        r = nxl.normalized_laplacian_matrix(g, nodelist=nl, weight=W(w))
        rt = lambda x: inv(app("sqrt", (d(x),), "R"))
        dense_is("normalized_laplacian_matrix", r, (k, k), lambda i, j: sub(ite(And(eq(i, j), has(i)), R(ONE), R(ZERO)), ite(pres(i, j), mul(rt(i), R(a(i, j)), rt(j)), R(ZERO))))
    H += each(h, "normalized_laplacian_matrix", [F + "nxapi.linalg.laplacianmatrix.normalized_laplacian_matrix", F + "linalg.laplacianmatrix.normalized_laplacian_matrix"] + fl)

    # ---- modularity
    def h(ctx, directed, dt, w, l):
        g = make_graph(L, directed, dt)
        if not directed:
            no_loops(ctx, g._spec)
        nl, k, pres, val = sub_(ctx, g, l)
        a = weight(pres, val, w)
        ko = lambda i: tsum(k, lambda j: a(i, j))
        ki = lambda j: tsum(k, lambda i: a(i, j))
        m = tsum(k, ko)
        ctx.assume(ne(m, ZERO))
        f = nxl.directed_modularity_matrix if directed else nxl.modularity_matrix
        r = f(g, nodelist=nl, weight=W(w))
        dense_is(f.__name__, r, (k, k), lambda i, j: sub(R(a(i, j)), mul(R(ko(i)), R(ki(j)), inv(R(m)))))
    H += each(h, "modularity_matrix", [F + "nxapi.linalg.modularitymatrix.modularity_matrix", F + "linalg.modularitymatrix.modularity_matrix"] + fl, directed=(False,))
    H += each(h, "directed_modularity_matrix", [F + "nxapi.linalg.modularitymatrix.directed_modularity_matrix", F + "linalg.modularitymatrix.directed_modularity_matrix", F + "classes._utils.list_to_ids"], directed=(True,))

    # ---- Bethe-Hessian
    def h(ctx, directed, dt, given, l):
        g = make_graph(L, False, dt)
        no_loops(ctx, g._spec)
        sp, n = g._spec, g._n
        nl, k, pres, val = sub_(ctx, g, l)
        a = weight(pres, val, True)
        if given:
            arg = a_real("r")
            r = term_of(arg)
        else:
            arg = None
            d = deg(sp, "out")
            ctx.assume(lt(ZERO, tsum(n, d)))
            r = sub(mul(R(tsum(n, lambda i: mul(d(i), d(i)))), inv(R(tsum(n, d)))), R(ONE))
        res = nxl.bethe_hessian_matrix(g, r=arg, nodelist=nl)
        dense_is("bethe_hessian_matrix", res, (k, k), lambda i, j: add(ite(eq(i, j), add(sub(mul(r, r), R(ONE)), R(tsum(k, lambda x: a(i, x)))), R(ZERO)), mul(const(-1), r, R(a(i, j)))))
    for x in each(h, "bethe_hessian_matrix", [F + "nxapi.linalg.bethehessianmatrix.bethe_hessian_matrix", F + "linalg.bethehessianmatrix.bethe_hessian_matrix", F + "classes._utils.list_to_ids"], directed=(False,)):
        x.name = x.name.replace("unweighted", "r omitted").replace("weighted", "r given")
        H.append(x)

    # ---- Google matrix
    def h(ctx, directed, l, pers, dang):
        g = make_graph(L, directed, FP64, min_n=1)
        nl, k, pres, val = sub_(ctx, g, l)
        A, n = g._spec.A, g._n
        ids = (lambda i: i) if not l else (lambda i: ident(g._m, nl.at_(i)))
        if l:
            ids = lambda i: ident(g._m, app("nl", (i,), "K"))
            ctx.assume(lt(ZERO, k))
        alpha = term_of(a_real("alpha"))

        def vec(name):
            d = C.SymMap("K", lambda y: isnode(g._m, y), lambda y: lift(app(name, (y,), "R")), n, f"argument {name}")
            return d, lambda i: app(name, (keysof(g._m, ids(i)),), "R")
        pd = dd = None
        p = lambda i: inv(R(k))
        if pers:
            pd, pv = vec("pers")
            tot = tsum(k, pv)
            ctx.assume(ne(tot, R(ZERO)))
            p = lambda i: mul(pv(i), inv(tot))
        dw = p
        if dang:
            dd, dv = vec("dang")
            totd = tsum(k, dv)
            ctx.assume(ne(totd, R(ZERO)))
            dw = lambda i: mul(dv(i), inv(totd))
        a = weight(pres, val, True)
        row = lambda i: ex(k, lambda j: pres(i, j))
        s = lambda i: R(tsum(k, lambda j: a(i, j)))
        i = idx_for(k, 0)
        ctx.assume(Implies(row(i), ne(s(i), R(ZERO))))
        r = nx.google_matrix(g, alpha=lift(alpha), personalization=pd, nodelist=nl, dangling=dd)
        one = R(ONE)
        # a dangling row is replaced by the dangling weights; rows are then scaled to sum to one
        dense_is("google_matrix", r, (k, k), lambda i, j: add(mul(alpha, ite(row(i), mul(R(a(i, j)), inv(s(i))), dw(j))), mul(sub(one, alpha), p(j))))
    for d in (False, True):
        for l in (False, True):
            for pers in (False, True):
                for dang in (False, True):
                    nm = f"google_matrix[{'DiGraph' if d else 'Graph'},{'nodelist' if l else 'all nodes'},{'personalization' if pers else 'uniform'},{'dangling weights' if dang else 'default dangling'}]"
                    H.append(Harness(nm, (lambda d, l, pers, dang: lambda ctx: h(ctx, d, l, pers, dang))(d, l, pers, dang),
                                     [F + "nxapi.link_analysis.pagerank_alg.google_matrix", F + "algorithms.link_analysis.pagerank_alg.google_matrix", F + "classes._utils.list_to_ids", F + "classes._utils.dict_to_vector"]))
    return H
