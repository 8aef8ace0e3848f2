"""C09: cuts, boundaries, community edge counts"""
from graphspec import *


def harnesses(L):
    nx = L.load("graphblas_algorithms.nxapi")
    L.load("graphblas_algorithms.algorithms")
    for m in ("boundary", "cuts", "community.quality"):
        L.load(f"graphblas_algorithms.nxapi.{m}")
    quality = L.load("graphblas_algorithms.nxapi.community.quality")
    H = []
    F = "graphblas_algorithms."

    def both(name, mod):
        return [F + f"nxapi.{mod}.{name}", F + f"algorithms.{mod}.{name}", F + "classes._utils.set_to_vector"]

    def member(g, S):
        return lambda i: S.has(keysof(g._m, i))

    def weight(A, weighted):
        if not weighted:
            return lambda i, j: A.pres(i, j)
        return lambda i, j: mul(A.pres(i, j), G.cast(A.value(i, j), A.dt, INT64) if A.dt is BOOL else A.value(i, j))

    def cut(sp, inS, inT, weighted):
        A, n = sp.A, sp.n
        w = weight(A, weighted)
        cross = lambda i, j: Or(And(inS(i), inT(j)), And(inT(i), inS(j)))
        if sp.directed:
            return add(tsum(n, lambda i: tsum(n, lambda j: mul(And(inS(i), inT(j)), w(i, j)))), tsum(n, lambda i: tsum(n, lambda j: mul(And(inT(i), inS(j)), w(i, j)))))
        return tsum(n, lambda i: tsum(n, lambda j: mul(And(lt(i, j), cross(i, j)), w(i, j))))

    def setup(ctx, directed, dt, second, tag=""):
        g = make_graph(L, directed, dt)
        if not directed:
            no_loops(ctx, g._spec)
        S = a_keyset("S")
        inS = member(g, S)
        if second:
            T_ = a_keyset("T")
            inT = member(g, T_)
        else:
            T_, inT = None, lambda i: Not(inS(i))
        return g, S, T_, inS, inT

    DW = [(BOOL, False), (FP64, True)]

    def sets2(fn, name, functions, directed=(False, True), dw=DW):
        out = []
        for d in directed:
            for dt, w in dw:
                for second in (False, True):
                    out.append(Harness(f"{name}[{'DiGraph' if d else 'Graph'},{dt.name},{'weighted' if w else 'unweighted'},{'T given' if second else 'T omitted'}]",
                                       (lambda d, dt, w, second: lambda ctx: fn(ctx, d, dt, w, second))(d, dt, w, second), functions))
        return out

    # ---- boundaries
    def h(ctx, directed, dt, w, second):
        g, S, T_, inS, inT = setup(ctx, directed, dt, second)
        A = g._spec.A
        v1 = g.set_to_vector(S, ignore_extra=True)
        v2 = g.set_to_vector(T_, ignore_extra=True)
        alg = L.load("graphblas_algorithms.algorithms")
        r = alg.edge_boundary(g, v1, v2, is_weighted=w)
        B = r._val()
        n = g._n
        i, j = idx_for(n, 0), idx_for(n, 1)
        arc = lambda i, j: And(inS(i), inT(j), A.pres(i, j))
        if directed:
            ctx.ensure("edge_boundary: exactly the arcs from the first to the second set", Iff(B.pres(i, j), arc(i, j)))
        else:
            ctx.ensure("edge_boundary: only edges from the first to the second set", Implies(B.pres(i, j), arc(i, j)))
            ctx.ensure("edge_boundary: every such edge", Implies(arc(i, j), Or(B.pres(i, j), B.pres(j, i))))
            ctx.ensure("edge_boundary: each edge once", Not(And(B.pres(i, j), B.pres(j, i))))
        if w:
            ctx.ensure("edge_boundary: weights", Implies(B.pres(i, j), eq(*G._num2(B.value(i, j), A.value(i, j)))))
    H += sets2(h, "edge_boundary", [F + "algorithms.boundary.edge_boundary", F + "classes._utils.set_to_vector"])

    def h(ctx, directed, dt, w, second):
        g, S, T_, inS, inT = setup(ctx, directed, dt, second)
        A, n = g._spec.A, g._n
        r = nx.node_boundary(g, S, T_) if second else nx.node_boundary(g, S)
        nodemap_is(L, "node_boundary", r, g, V1(n, BOOL, lambda j: (And(Not(inS(j)), inT(j), ex(n, lambda i: And(inS(i), A.pres(i, j)))), TRUE)), "NodeSet")
    H += sets2(h, "node_boundary", both("node_boundary", "boundary"), dw=[(FP64, False)])

    # ---- cuts
    def h(ctx, directed, dt, w, second):
        g, S, T_, inS, inT = setup(ctx, directed, dt, second)
        r = nx.cut_size(g, S, T_, weight="weight" if w else None)
        ctx.ensure("cut_size", eq(*G._num2(term_of(r), cut(g._spec, inS, inT, w))))
    H += sets2(h, "cut_size", both("cut_size", "cuts") + [F + "algorithms.boundary.edge_boundary"])

    def vol(sp, inS, w):
        A, n = sp.A, sp.n
        wt = weight(A, w)
        return tsum(n, lambda i: tsum(n, lambda j: mul(inS(i), wt(i, j))))

    def h(ctx, directed, dt, w, second):
        g = make_graph(L, directed, dt)
        S = a_keyset("S", within=g._m)
        r = nx.volume(g, S, weight="weight" if w else None)
        ctx.ensure("volume", eq(*G._num2(term_of(r), vol(g._spec, member(g, S), w))))
    H += [x for x in sets2(h, "volume", [F + "nxapi.cuts.volume", F + "algorithms.cuts.volume"]) if "omitted" in x.name]

    def card(g, inS):
        return tsum(g._n, inS)

    def ratio(name, parts, extra=()):
        def h(ctx, directed, dt, w, second):
            g, S, T_, inS, inT = setup(ctx, directed, dt, second)
            want = parts(ctx, g, inS, inT, w)
            r = getattr(nx, name)(g, S, T_, weight="weight" if w else None)
            ctx.ensure(name, eq(toreal(term_of(r)), want))
        return sets2(h, name, both(name, "cuts") + [F + "algorithms.cuts.cut_size", F + "algorithms.boundary.edge_boundary"] + list(extra))

    def p_norm(ctx, g, inS, inT, w):
        a, b = toreal(vol(g._spec, inS, w)), toreal(vol(g._spec, inT, w))
        ctx.assume(And(ne(a, toreal(ZERO)), ne(b, toreal(ZERO))))
        c = toreal(cut(g._spec, inS, inT, w))
        return mul(c, add(inv(a), inv(b)))
    H += ratio("normalized_cut_size", p_norm, [F + "algorithms.cuts.volume"])

    def p_cond(ctx, g, inS, inT, w):
        a, b = toreal(vol(g._spec, inS, w)), toreal(vol(g._spec, inT, w))
        ctx.assume(And(ne(a, toreal(ZERO)), ne(b, toreal(ZERO))))
        c = toreal(cut(g._spec, inS, inT, w))
        return mul(c, inv(tmin(a, b)))
    H += ratio("conductance", p_cond, [F + "algorithms.cuts.volume"])

    def p_edge(ctx, g, inS, inT, w):
        a, b = card(g, inS), card(g, inT)
        ctx.assume(And(gt(a, ZERO), gt(b, ZERO)))
        return mul(toreal(cut(g._spec, inS, inT, w)), inv(toreal(tmin(a, b))))
    H += ratio("edge_expansion", p_edge)

    def p_mix(ctx, g, inS, inT, w):
        A, n = g._spec.A, g._n
        e = tsum(n, lambda i: tsum(n, lambda j: A.pres(i, j)))
        ctx.assume(gt(e, ZERO))
        return mul(toreal(cut(g._spec, inS, inT, w)), inv(toreal(mul(const(2), e) if g._spec.directed else e)))
    H += ratio("mixing_expansion", p_mix)

    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        A, n = g._spec.A, g._n
        S = a_keyset("S", within=g._m)
        inS = member(g, S)
        ctx.assume(gt(card(g, inS), ZERO))
        r = nx.node_expansion(g, S)
        ctx.ensure("node_expansion", eq(toreal(term_of(r)), mul(toreal(tsum(n, lambda j: ex(n, lambda i: And(inS(i), A.pres(i, j))))), inv(toreal(card(g, inS))))))
    H += variants(h, "node_expansion", [F + "nxapi.cuts.node_expansion", F + "algorithms.cuts.node_expansion"])

    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        A, n = g._spec.A, g._n
        S = a_keyset("S")
        inS = member(g, S)
        ctx.assume(gt(card(g, inS), ZERO))
        r = nx.boundary_expansion(g, S)
        ctx.ensure("boundary_expansion", eq(toreal(term_of(r)), mul(toreal(tsum(n, lambda j: And(Not(inS(j)), ex(n, lambda i: And(inS(i), A.pres(i, j)))))), inv(toreal(card(g, inS))))))
    H += variants(h, "boundary_expansion", [F + "nxapi.cuts.boundary_expansion", F + "algorithms.cuts.boundary_expansion", F + "algorithms.boundary.node_boundary"])

    # ---- community edge counts
    def inside(A, b):
        return lambda i, j: And(b(i), b(j), A.pres(i, j))

    def leaving(A, b):
        return lambda i, j: And(b(i), Not(b(j)), A.pres(i, j))

    def blocks(ctx, g, directed, which):
        """arbitrary list of blocks (overlapping, incomplete): the counts of the blocks added up"""
        A, n = g._spec.A, g._n
        nb = var("nb", "I")
        ctx.assume(le(ZERO, nb))
        P.AXIOMS.pop("blk", None)
        part = C.SymList(nb, lambda r: C.SymSet("K", lambda k: app("blk", (r, term_of(k)), "B"), frozen="argument partition"))
        b = lambda r: lambda i: app("blk", (r, keysof(g._m, i)), "B")
        one = (inside if which == "intra" else leaving)
        per = lambda r: tsum(n, lambda i: tsum(n, lambda j: one(A, b(r))(i, j) if directed else And(lt(i, j), one(A, b(r))(i, j))))
        total = prefix_sum("edges", per)
        scale = 1 if directed else 2
        ctx.templates = lambda loop, name, v: [Def("edges of the blocks seen so far", lambda t: lift(mul(const(scale), total(t))))] if isinstance(v, (int, sym.SymNum)) else []
        r = getattr(quality, f"{which}_community_edges")(g, part)
        ctx.ensure(f"{which}_community_edges: block counts", eq(*G._num2(term_of(r), total(nb))))

    def cover(ctx, g, directed, which):
        """a partition: every node in exactly one block; block of node i is part(i)"""
        A, n = g._spec.A, g._n
        nb = var("nb", "I")
        ctx.assume(le(ZERO, nb))
        blk = lambda i: app("part", (i,), "I")
        P.AXIOMS["part"] = lambda i: [Implies(C.inr(i, n), C.inr(blk(i), nb))]
        TM.RANGE_RULES.append(lambda x, d: {lt0(blk(x)): FALSE, lt(blk(x), nb): TRUE} if d is n else {})
        m = g._m
        part = C.SymList(nb, lambda r: C.SymSet("K", lambda k: And(isnode(m, k), eq(blk(ident(m, k)), r)), frozen="argument partition"))
        rel = (lambda i, j: eq(blk(i), blk(j))) if which == "intra" else (lambda i, j: ne(blk(i), blk(j)))
        count = lambda cond: tsum(n, lambda i: tsum(n, lambda j: And(cond(i, j), rel(i, j), A.pres(i, j))))
        inv_ = [Def("arcs from the blocks seen so far", lambda t: lift(count(lambda i, j: lt(blk(i), t)))),
                Def("arcs into the blocks seen so far", lambda t: lift(count(lambda i, j: lt(blk(j), t))))]
        ctx.templates = lambda loop, name, v: (inv_[::-1] if which == "inter" else inv_) if isinstance(v, (int, sym.SymNum)) else []
        r = getattr(quality, f"{which}_community_edges")(g, part)
        if directed:
            want = count(lambda i, j: TRUE)
        else:
            half = count(lambda i, j: lt(i, j))
            lemma(ctx, "the arcs are twice the edges", eq(count(lambda i, j: lt(blk(i), nb)), mul(const(2), half)))
            want = half
        ctx.ensure(f"{which}_community_edges: edges {'inside' if which == 'intra' else 'between'} the blocks", eq(*G._num2(term_of(r), want)))

    for which in ("intra", "inter"):
        for kind, fn in (("any blocks", blocks), ("partition", cover)):
            if (which, kind) == ("inter", "any blocks"):
                continue  # edges between blocks are defined for partitions
            for d in (False, True):
                def h(ctx, which=which, fn=fn, d=d):
                    g = make_graph(L, d, BOOL)
                    if not d:
                        no_loops(ctx, g._spec)
                    fn(ctx, g, d, which)
                H.append(Harness(f"{which}_community_edges[{'DiGraph' if d else 'Graph'},{kind}]", h, both(f"{which}_community_edges", "community.quality")))
    return H
