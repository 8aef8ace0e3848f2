"""C12: iterative centralities return converged iterates or raise. The iterate at the head of the loop is arbitrary (the weakest invariant): whatever it is,
a vector is only returned when it is the image of the previous one under one step, and the convergence test - its contract is proved here - accepted the pair."""
from graphspec import *

R0 = toreal(ZERO)


def dense(v):
    """absent entries read as zero"""
    return lambda *i: ite(v.pres(*i), toreal(v.value(*i)), R0)


def sqrt(t):
    return G.power(t, toreal(div(ONE, const(2)))) if hasattr(G, "power") else app("sqrt", (t,), "R")


def weights(g):
    """weight of the edge (i, j), 0 if there is none. When the library stores the adjacency matrix iso-valued (its contract: every stored entry equals iso_value),
    the weight of an edge is written as that value."""
    A = g._spec.A
    if truth(lift(g._spec.iso_flag())):
        v = toreal(g._spec.holder._iso[1]._val().value())
        return lambda i, j: ite(A.pres(i, j), v, R0)
    return lambda i, j: ite(A.pres(i, j), toreal(A.value(i, j)), R0)


def norm(v, how):
    n = v.shape[0]
    x = dense(v)
    if how == "l1":
        return tsum(n, x)
    if how == "l2":
        return app("norm2", (tsum(n, lambda i: mul(x(i), x(i))),), "R")
    return app("normmax", (tsum(n, x),), "R")


def harnesses(L):
    nx = L.load("graphblas_algorithms.nxapi")
    alg = L.load("graphblas_algorithms.algorithms")
    hlp = L.load("graphblas_algorithms.algorithms._helpers")
    exc = L.load("graphblas_algorithms.algorithms.exceptions")
    H = []
    F = "graphblas_algorithms.algorithms."

    class Contracts:
        """is_converged and normalize by their contracts; remembers what they were asked"""

        def __init__(self, ctx):
            self.ctx = ctx
            self.tests = []
            self.norms = []

        def is_converged(self, xprev, x, tol):
            a, b = xprev._val(), x._val()
            self.ctx.ensure("precondition of is_converged: two different vectors of one size", And(const(xprev is not x), eq(a.shape[0], b.shape[0])))
            ok = truth(lift(fresh("conv", "B")))
            self.tests.append((a, b, x, tol, ok))
            xprev << vc.fresh_val(a.shape, FP64, "scratch") if not isinstance(xprev, G.Tensor) else None
            xprev._v = vc.fresh_val(a.shape, FP64, "scratch")
            return ok

        def normalize(self, x, how):
            v = x._val()
            c = fresh("scale", "R")
            self.norms.append((v, how.lower(), c, x))
            x._v = G.Val(v.shape, v.dt, lambda *i: (v.pres(*i), mul(toreal(v.value(*i)), c)))
            return x

        def last(self):
            return self.tests[-1]

    def vector_arg(ctx, g, name, kind):
        """None or an arbitrary vector of real numbers"""
        if kind == "none":
            return None
        v = vc.fresh_val((g._n,), FP64, name)
        t = G.mk_tensor(v, name)
        t.frozen = f"argument {name}"
        return t

    pr = L.load("graphblas_algorithms.algorithms.link_analysis.pagerank_alg")
    kz = L.load("graphblas_algorithms.algorithms.centrality.katz")
    ev = L.load("graphblas_algorithms.algorithms.centrality.eigenvector")
    ht = L.load("graphblas_algorithms.algorithms.link_analysis.hits_alg")

    def attempt(ctx, label, fn, allowed):
        try:
            return fn()
        except (Unsupported, PathEnd, vc.Restart):
            raise
        except Exception as e:
            ctx.ensure(f"{label}: only {allowed} may be raised, not {e.__class__.__name__}", const(e.__class__.__name__ in allowed))
            return e

    # ---- pagerank
    for kinds in [(a, b, c, d) for a in ("none", "given") for b in ("none", "given") for c in ("none", "given") for d in ("none", "given")]:
        st, pe, da, rd = kinds

        def h(ctx, directed, dt, st=st, pe=pe, da=da, rd=rd):
            g = make_graph(L, directed, dt, min_n=1)
            n, A = g._n, g._spec.A
            K = Contracts(ctx)
            alpha, tol, mi = an_real("alpha"), an_real("tol"), an_int("max_iter")
            x0, p, dw = vector_arg(ctx, g, "nstart", st), vector_arg(ctx, g, "pers", pe), vector_arg(ctx, g, "dang", da)
            r = g.get_property("plus_rowwise+") if rd == "given" else None
            with patched(pr, is_converged=K.is_converged):
                res = attempt(ctx, "pagerank", lambda: alg.pagerank(g, alpha=alpha, personalization=p, max_iter=mi, tol=tol, nstart=x0, dangling=dw, row_degrees=r),
                              ("ConvergenceFailure", "ZeroDivisionError"))
            if isinstance(res, Exception):
                if res.__class__.__name__ == "ConvergenceFailure":
                    ctx.ensure("pagerank: the number of iterations is reported", eq(term_of(res.args[0]), term_of(mi)))
                return
            a, b, obj, t, ok = K.last()
            ctx.ensure("pagerank: returned only when the test accepts", const(ok))
            ctx.ensure("pagerank: tested with the tolerance given", eq(term_of(t), term_of(tol)))
            j = idx_for(n, 0)
            al = term_of(alpha)
            xp = dense(a)
            deg = g._spec.get("plus_rowwise+")
            w = weights(g)
            share = lambda i: ite(deg.pres(i), div(mul(al, xp(i)), toreal(deg.value(i))), R0)
            N = toreal(n)
            tot = lambda v: tsum(n, dense(v))
            pj = div(dense(p._val())(j), tot(p._val())) if p is not None else div(ONE, N)
            dj = div(dense(dw._val())(j), tot(dw._val())) if dw is not None else pj
            lost = tsum(n, lambda i: ite(deg.pres(i), R0, xp(i)))
            if not truth(lift(lt(tsum(n, lambda i: ite(deg.pres(i), ONE, ZERO)), n))):
                # every node has out-edges
                ctx.ensure("pagerank: no rank is lost when every node has out-edges", eq(lost, R0))
                lost = R0
            want = add(add(tsum(n, lambda i: mul(share(i), w(i, j))), mul(mul(al, lost), dj)), mul(sub(toreal(ONE), al), pj))
            v = res._val()
            ctx.ensure("pagerank: one step of the previous iterate", eq(dense(v)(j), want))
            ctx.ensure("pagerank: the vector tested is the one returned", eq(dense(b)(j), dense(v)(j)))
        H += variants(h, f"pagerank, start {st}, personalization {pe}, dangling {da}, degrees {rd}", [F + "link_analysis.pagerank_alg.pagerank"], directed=(True,) if rd == "none" else (False, True), dts=(FP64,))

    # ---- Katz
    for st, be, nm in [(a, b, c) for a in ("none", "given") for b in ("scalar", "given") for c in (True, False)]:
        def h(ctx, directed, dt, st=st, be=be, nm=nm):
            g = make_graph(L, directed, dt, min_n=1)
            n, A = g._n, g._spec.A
            K = Contracts(ctx)
            alpha, tol, mi = an_real("alpha"), an_real("tol"), an_int("max_iter")
            x0 = vector_arg(ctx, g, "nstart", st)
            beta = an_real("beta") if be == "scalar" else vector_arg(ctx, g, "beta", "given")
            with patched(kz, is_converged=K.is_converged, normalize=K.normalize):
                res = attempt(ctx, "katz", lambda: alg.katz_centrality(g, alpha=alpha, beta=beta, max_iter=mi, tol=tol, nstart=x0, normalized=nm), ("ConvergenceFailure", "GraphBlasAlgorithmException"))
            i = idx_for(n, 1)
            if isinstance(res, Exception):
                if res.__class__.__name__ == "ConvergenceFailure":
                    ctx.ensure("katz: the number of iterations is reported", eq(term_of(res.args[0]), term_of(mi)))
                elif be == "scalar":
                    ctx.ensure("katz: a number is always accepted as beta", FALSE)
                else:
                    ctx.ensure("katz: rejected only when some node has no beta", ex(n, lambda i: Not(beta._val().pres(i))))
                return
            a, b, obj, t, ok = K.last()
            ctx.ensure("katz: returned only when the test accepts", const(ok))
            ctx.ensure("katz: tested with the tolerance given", eq(term_of(t), term_of(tol)))
            j = idx_for(n, 0)
            xp = dense(a)
            w = weights(g)
            bj = term_of(beta) if be == "scalar" else dense(beta._val())(j)
            want = add(mul(term_of(alpha), tsum(n, lambda i: mul(xp(i), w(i, j)))), bj)
            ctx.ensure("katz: one step of the previous iterate", eq(dense(b)(j), want))
            v = res._val()
            if nm:
                ctx.ensure("katz: normalised once, by the Euclidean norm", const(len(K.norms) == 1 and K.norms[0][1] == "l2" and K.norms[0][3] is res))
                if len(K.norms) == 1:
                    ctx.ensure("katz: the vector tested is the one normalised", eq(dense(b)(j), dense(K.norms[0][0])(j)))
                    ctx.ensure("katz: nothing else happens to it", eq(dense(v)(j), mul(dense(b)(j), K.norms[0][2])))
            else:
                ctx.ensure("katz: the vector tested is the one returned", eq(dense(b)(j), dense(v)(j)))
                ctx.ensure("katz: not normalised", const(not K.norms))
        H += variants(h, f"katz, start {st}, beta {be}{', normalized' if nm else ''}", [F + "centrality.katz.katz_centrality"], dts=(FP64,))

    # ---- eigenvector centrality
    for st in ("none", "given"):
        def h(ctx, directed, dt, st=st):
            g = make_graph(L, directed, dt, min_n=1)
            n, A = g._n, g._spec.A
            K = Contracts(ctx)
            tol, mi = an_real("tol"), an_int("max_iter")
            x0 = vector_arg(ctx, g, "nstart", st)
            with patched(ev, is_converged=K.is_converged, normalize=K.normalize):
                res = attempt(ctx, "eigenvector", lambda: alg.eigenvector_centrality(g, max_iter=mi, tol=tol, nstart=x0), ("ConvergenceFailure", "GraphBlasAlgorithmException"))
            if isinstance(res, Exception):
                if res.__class__.__name__ == "ConvergenceFailure":
                    ctx.ensure("eigenvector: the number of iterations is reported", eq(term_of(res.args[0]), term_of(mi)))
                else:
                    ctx.ensure("eigenvector: rejected only when the start sums to zero", eq(tsum(n, dense(x0._val())), R0) if x0 is not None else FALSE)
                return
            if x0 is not None:
                ctx.ensure("eigenvector: a start that sums to zero is rejected", ne(tsum(n, dense(x0._val())), R0))
            a, b, obj, t, ok = K.last()
            ctx.ensure("eigenvector: returned only when the test accepts", const(ok))
            ctx.ensure("eigenvector: tested with the tolerance given", eq(term_of(t), term_of(tol)))
            j = idx_for(n, 0)
            xp = dense(a)
            w = lambda i, j: ite(A.pres(i, j), toreal(A.value(i, j)), R0)
            one = add(xp(j), tsum(n, lambda i: mul(xp(i), w(i, j))))
            v = res._val()
            good = bool(K.norms) and K.norms[-1][1] == "l2"
            ctx.ensure("eigenvector: each iterate is normalised by the Euclidean norm", const(good))
            if good:
                ctx.ensure("eigenvector: one step of the previous iterate", eq(dense(K.norms[-1][0])(j), one))
                ctx.ensure("eigenvector: the normalised step is tested", eq(dense(b)(j), mul(dense(K.norms[-1][0])(j), K.norms[-1][2])))
            ctx.ensure("eigenvector: the vector tested is the one returned", eq(dense(b)(j), dense(v)(j)))
        H += variants(h, f"eigenvector, start {st}", [F + "centrality.eigenvector.eigenvector_centrality"], dts=(FP64,))

    # ---- HITS
    for st, nm, au in [(a, b, c) for a in ("none", "given") for b in (True, False) for c in (False, True)]:
        def h(ctx, directed, dt, st=st, nm=nm, au=au):
            g = make_graph(L, directed, dt, min_n=1)
            n, A = g._n, g._spec.A
            K = Contracts(ctx)
            tol, mi = an_real("tol"), an_int("max_iter")
            x0 = vector_arg(ctx, g, "nstart", st)
            with patched(ht, is_converged=K.is_converged, normalize=K.normalize):
                res = attempt(ctx, "hits", lambda: alg.hits(g, max_iter=mi, tol=tol, nstart=x0, normalized=nm, with_authority=au), ("ConvergenceFailure", "ZeroDivisionError"))
            if isinstance(res, Exception):
                if res.__class__.__name__ == "ConvergenceFailure":
                    ctx.ensure("hits: the number of iterations is reported", eq(term_of(res.args[0]), term_of(mi)))
                else:
                    ctx.ensure("hits: rejected only when the start sums to zero", eq(tsum(n, dense(x0._val())), R0) if x0 is not None else FALSE)
                return
            hh, aa = res
            a, b, obj, t, ok = K.last()
            ctx.ensure("hits: returned only when the test accepts", const(ok))
            ctx.ensure("hits: tested with the tolerance given", eq(term_of(t), term_of(tol)))
            i, j = idx_for(n, 0), idx_for(n, 1)
            w = lambda i, j: ite(A.pres(i, j), toreal(A.value(i, j)), R0)
            xp = dense(a)
            by = [x for x in K.norms if x[1] == "linf"]
            ctx.ensure("hits: the tested vector is normalised by its largest entry", const(bool(by) and by[0][3] is (aa if au else hh)))
            if not by:
                return
            raw, _, c, _ = by[0]
            ctx.ensure("hits: the normalised step is tested", eq(dense(b)(j), mul(dense(raw)(j), c)))
            hub = lambda f: lambda i: tsum(n, lambda k: mul(w(i, k), f(k)))
            aut = lambda f: lambda k: tsum(n, lambda i: mul(f(i), w(i, k)))
            step = (lambda k: tsum(n, lambda m: tsum(n, lambda i: mul(mul(w(i, k), w(i, m)), xp(m))))) if au else (lambda i: tsum(n, lambda k: tsum(n, lambda m: mul(mul(w(i, k), w(m, k)), xp(m)))))
            ctx.ensure("hits: one step of the previous iterate", eq(dense(raw)(j), step(j)))
            rest = [x for x in K.norms if x is not by[0]]
            want = ["l1", "l1"] if nm else ["linf"]
            ctx.ensure("hits: normalised as requested", const([x[1] for x in rest] == want))
            if [x[1] for x in rest] != want:
                return
            sc = {id(hh): [], id(aa): []}
            start = {}
            for v, how, cc, obj in rest:
                sc[id(obj)].append(cc)
                start.setdefault(id(obj), v)
            hub0, aut0 = start.get(id(hh), hh._val()), start.get(id(aa), aa._val())
            ctx.ensure("hits: authorities of the hubs" if not au else "hits: hubs of the authorities",
                       eq(dense(aut0)(j), aut(xp)(j)) if not au else eq(dense(hub0)(j), hub(dense(b))(j)))
            ctx.ensure("hits: the vector tested is the one returned", eq(dense(hub0 if not au else aut0)(j), dense(b)(j)))
            for obj, s, v0 in ((hh, sc[id(hh)], hub0), (aa, sc[id(aa)], aut0)):
                f = toreal(ONE)
                for cc in s:
                    f = mul(f, cc)
                ctx.ensure("hits: nothing else happens to it", eq(dense(obj._val())(j), mul(dense(v0)(j), f)))
                ctx.ensure("hits: normalised once at most", const(len(s) <= 1 and (not nm or len(s) == 1)))
        H += variants(h, f"hits, start {st}{', normalized' if nm else ''}{', with_authority' if au else ''}", [F + "link_analysis.hits_alg.hits"], dts=(FP64,))

    # ---- the convergence test and the normalisation
    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt, min_n=1)
        n = g._n
        a, b = vc.fresh_val((n,), FP64, "xprev"), vc.fresh_val((n,), FP64, "x")
        xp, x = G.mk_tensor(a, "xprev"), G.mk_tensor(b, "x")
        x.frozen = "the iterate"
        tol = an_real("tol")
        r = hlp.is_converged(xp, x, tol)
        err = tsum(n, lambda i: tabs(sub(dense(a)(i), dense(b)(i))))
        ctx.ensure("is_converged: the L1 distance is below the tolerance times the number of nodes", Iff(term_of(r), lt(err, mul(toreal(n), term_of(tol)))))
    H += variants(h, "is_converged", [F + "_helpers.is_converged"], directed=(True,), dts=(FP64,))
    for how in ("L1", "L2", "Linf"):
        def h(ctx, directed, dt, how=how):
            g = make_graph(L, directed, dt, min_n=1)
            n = g._n
            v = vc.fresh_val((n,), FP64, "x")
            x = G.mk_tensor(v, "x")
            j = idx_for(n, 0)
            ctx.assume(ex(n, lambda i: v.pres(i)))
            r = hlp.normalize(x, how)
            ctx.ensure("normalize: returns its argument", const(r is x))
            nv = x._val()
            if how == "L1":
                d = tsum(n, dense(v))
            elif how == "L2":
                d = app("sqrt", (tsum(n, lambda i: mul(dense(v)(i), dense(v)(i))),), "R")
            else:
                d = G.reduce_all(v, G.monoid.max).at()[1]
            ctx.ensure(f"normalize {how}: structure", Iff(nv.pres(j), v.pres(j)))
            ctx.ensure(f"normalize {how}: values", Or(eq(d, R0), eq(dense(nv)(j), div(dense(v)(j), d))))
        H += variants(h, f"normalize {how}", [F + "_helpers.normalize"], directed=(True,), dts=(FP64,))
    return H


def an_real(name):
    return a_real(name)
