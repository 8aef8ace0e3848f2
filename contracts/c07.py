"""C07: operators on graphs"""
from graphspec import *


def harnesses(L):
    nx = L.load("graphblas_algorithms.nxapi")
    L.load("graphblas_algorithms.algorithms")
    for m in ("operators.binary", "operators.unary"):
        L.load(f"graphblas_algorithms.nxapi.{m}")
    H = []
    F = "graphblas_algorithms."

    def two(directed, dt1, dt2):
        return make_graph(L, directed, dt1, "1"), make_graph(L, directed, dt2, "2")

    def arc(g):
        """labelled arcs k -> l"""
        return lambda k, l: And(isnode(g._m, k), isnode(g._m, l), g._spec.A.pres(ident(g._m, k), ident(g._m, l)))

    def weight(g):
        return lambda k, l: g._spec.A.value(ident(g._m, k), ident(g._m, l))

    def graph_is(label, r, like, isn, edge, value=None, at=None, inputs=()):
        """r: a graph of the same class with exactly the labelled nodes isn, the labelled arcs edge (and their values);
        at(i): the label of the i-th node (witness that every position has a label)"""
        ctx = sym.CTX
        ctx.ensure(f"{label}: same class", const(type(r) is type(like)))
        M, A = r._key_to_id, r._A._val()
        n = A.shape[0]
        ctx.ensure(f"{label}: square", eq(n, A.shape[1]))
        k, l = a_label("k!"), a_label("l!")
        kt, lt_ = k.t, l.t
        ctx.ensure(f"{label}: nodes", Iff(M.dom(kt), isn(kt)))
        ctx.ensure(f"{label}: positions in range", Implies(isn(kt), And(le(ZERO, term_of(M.val(kt))), lt(term_of(M.val(kt)), n))))
        ctx.ensure(f"{label}: one position per label", Implies(And(isn(kt), isn(lt_), ne(kt, lt_)), ne(term_of(M.val(kt)), term_of(M.val(lt_)))))
        if at is not None:
            i = idx_for(n, 0)
            for c, w in at(i):
                ctx.ensure(f"{label}: one label per position", Implies(c, And(M.dom(w), eq(term_of(M.val(w)), i))))
        with_nodes = And(isn(kt), isn(lt_))
        p, x = A.at(term_of(M.val(kt)), term_of(M.val(lt_)))
        ctx.ensure(f"{label}: edges", Implies(with_nodes, Iff(p, edge(kt, lt_))))
        if value is not None:
            a, b = G._num2(x, value(kt, lt_))
            ctx.ensure(f"{label}: values", Implies(And(with_nodes, edge(kt, lt_)), eq(a, b)))
        if not like._spec.directed:
            ctx.ensure(f"{label}: undirected", Implies(with_nodes, Iff(edge(kt, lt_), edge(lt_, kt))))

    DT = [(BOOL, BOOL), (FP64, FP64), (INT64, FP64), (BOOL, INT64)]

    def binary(name, fn, dts=DT, functions=()):
        out = []
        for d in (False, True):
            for a, b in dts:
                out.append(Harness(f"{name}[{'DiGraph' if d else 'Graph'},{a.name},{b.name}]", (lambda d, a, b: lambda ctx: fn(ctx, *two(d, a, b)))(d, a, b),
                                   [F + f"nxapi.operators.binary.{name}", F + f"algorithms.operators.binary.{name}", *functions]))
        return out

    LTI = F + "classes._utils.list_to_ids"

    def same_nodes(g, h):
        """assumed: both graphs have the same labels, numbered independently"""
        P.KEYFACTS.append(lambda k: Iff(isnode(g._m, k), isnode(h._m, k)))

    # ---- difference, symmetric difference
    def h(ctx, g, h_):
        same_nodes(g, h_)
        r = nx.difference(g, h_)
        e1, e2 = arc(g), arc(h_)
        graph_is("difference", r, g, lambda k: isnode(g._m, k), lambda k, l: And(e1(k, l), Not(e2(k, l))), at=lambda i: [(TRUE, keysof(g._m, i))])
    H += binary("difference", h, functions=[LTI])

    def h(ctx, g, h_):
        same_nodes(g, h_)
        r = nx.symmetric_difference(g, h_)
        e1, e2 = arc(g), arc(h_)
        graph_is("symmetric_difference", r, g, lambda k: isnode(g._m, k), lambda k, l: Not(Iff(e1(k, l), e2(k, l))), at=lambda i: [(TRUE, keysof(g._m, i))])
    H += binary("symmetric_difference", h, functions=[LTI])

    def differs(name):
        def h(ctx, g, h_):
            w = a_label("w!only")
            ctx.assume(And(isnode(g._m, w.t), Not(isnode(h_._m, w.t))))
            raises(name, lambda: getattr(nx, name)(g, h_), "NetworkXError")
        return h
    for name in ("difference", "symmetric_difference"):
        H += [Harness(x.name.replace(name, name + " of different node sets"), x.fn, x.functions) for x in binary(name, differs(name), [(FP64, FP64)])]

    # ---- intersection
    def h(ctx, g, h_):
        r = nx.intersection(g, h_)
        e1, e2 = arc(g), arc(h_)
        isn = lambda k: And(isnode(g._m, k), isnode(h_._m, k))
        graph_is("intersection", r, g, isn, lambda k, l: And(e1(k, l), e2(k, l)))
    H += binary("intersection", h, functions=[LTI])

    # ---- compose
    def h(ctx, g, h_):
        r = nx.compose(g, h_)
        e1, e2 = arc(g), arc(h_)
        v1, v2 = weight(g), weight(h_)

        def value(k, l):
            a, b = G._num2(v1(k, l), v2(k, l))
            return ite(e2(k, l), b, a)
        graph_is("compose", r, g, lambda k: Or(isnode(g._m, k), isnode(h_._m, k)), lambda k, l: Or(e1(k, l), e2(k, l)), value)
    H += binary("compose", h, functions=[LTI])

    # ---- unions
    def disjoint(g, h_):
        P.KEYFACTS.append(lambda k: Not(And(isnode(g._m, k), isnode(h_._m, k))))

    def union_like(name, across):
        def h(ctx, g, h_):
            disjoint(g, h_)
            n1 = g._n
            r = getattr(nx, name)(g, h_)
            e1, e2 = arc(g), arc(h_)
            v1, v2 = weight(g), weight(h_)
            i1, i2 = (lambda k: isnode(g._m, k)), (lambda k: isnode(h_._m, k))
            cross = (lambda k, l: Or(And(i1(k), i2(l)), And(i2(k), i1(l)))) if across else (lambda k, l: FALSE)

            def value(k, l):
                a, b = G._num2(v1(k, l), v2(k, l))
                c = ite(And(i1(k), i1(l)), a, b)
                if across:
                    a, b = G._num2(c, TRUE)
                    c = ite(cross(k, l), b, a)
                return c
            graph_is(name, r, g, lambda k: Or(i1(k), i2(k)), lambda k, l: Or(e1(k, l), e2(k, l), cross(k, l)), value,
                     at=lambda i: [(lt(i, n1), keysof(g._m, i)), (ge(i, n1), keysof(h_._m, sub(i, n1)))])
        return h
    H += binary("union", union_like("union", False))
    H += binary("full_join", union_like("full_join", True), functions=[F + "algorithms.operators.binary.union"])

    def overlap(name):
        def h(ctx, g, h_):
            w = a_label("w!common")
            ctx.assume(And(isnode(g._m, w.t), isnode(h_._m, w.t)))
            raises(name, lambda: getattr(nx, name)(g, h_), "NetworkXError")
        return h
    for name in ("union", "full_join"):
        H += [Harness(x.name.replace(name, name + " of overlapping node sets"), x.fn, x.functions) for x in binary(name, overlap(name), [(FP64, FP64)])]

    def h(ctx, g, h_):
        r = nx.disjoint_union(g, h_)
        n1, n2 = g._n, h_._n
        A, B = g._spec.A, h_._spec.A
        M, C_ = r._key_to_id, r._A._val()
        n = add(n1, n2)
        ctx.ensure("disjoint_union: same class", const(type(r) is type(g)))
        ctx.ensure("disjoint_union: size", And(eq(C_.shape[0], n), eq(C_.shape[1], n)))
        x = var("x!", "I")
        ctx.ensure("disjoint_union: nodes are 0..n-1", Iff(M.dom(x), And(le(ZERO, x), lt(x, n))))
        ctx.ensure("disjoint_union: node i has position i", Implies(M.dom(x), eq(term_of(M.val(x)), x)))
        i, j = idx_for(C_.shape[0], 0), idx_for(C_.shape[1], 1)
        lo = And(lt(i, n1), lt(j, n1))
        hi = And(ge(i, n1), ge(j, n1))
        p, v = C_.at(i, j)
        k, l = sub(i, n1), sub(j, n1)
        ctx.ensure("disjoint_union: edges", Iff(p, Or(And(lo, A.pres(i, j)), And(hi, B.pres(k, l)))))
        for lab, c, w in (("first", And(lo, A.pres(i, j)), A.value(i, j)), ("second", And(hi, B.pres(k, l)), B.value(k, l))):
            a, b = G._num2(v, w)
            ctx.ensure(f"disjoint_union: values of the {lab} graph", Implies(c, eq(a, b)))
    H += binary("disjoint_union", h)

    # ---- unary
    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        r = nx.complement(g)
        e = arc(g)
        graph_is("complement", r, g, lambda k: isnode(g._m, k), lambda k, l: And(ne(k, l), Not(e(k, l))), at=lambda i: [(TRUE, keysof(g._m, i))])
    H += variants(h, "complement", [F + "nxapi.operators.unary.complement", F + "algorithms.operators.unary.complement"], dts=DTYPES)

    def h(ctx, directed, dt):
        for copy in (True, False):
            g = make_graph(L, directed, dt, "c" if copy else "v")
            r = nx.reverse(g, copy=copy)
            e, w = arc(g), weight(g)
            graph_is("reverse", r, g, lambda k: isnode(g._m, k), lambda k, l: e(l, k), lambda k, l: w(l, k), at=lambda i: [(TRUE, keysof(g._m, i))])
            if copy:
                ctx.ensure("reverse(copy=True): own storage", const(r._A is not g._A and r._key_to_id is not g._key_to_id or r._A is not g._A))
    H += variants(h, "reverse", [F + "nxapi.operators.unary.reverse", F + "algorithms.operators.unary.reverse", F + "classes.digraph.DiGraph.reverse"], directed=(True,), dts=DTYPES)

    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        raises("reverse of an undirected graph", lambda: nx.reverse(g), "NetworkXError")
    H += variants(h, "reverse of an undirected graph", [F + "nxapi.operators.unary.reverse", F + "algorithms.operators.unary.reverse"], directed=(False,))

    for recip in (False, True):
        def h(ctx, directed, dt, recip=recip):
            g = make_graph(L, directed, dt)
            r = g.to_undirected(reciprocal=recip)
            A, n = g._spec.A, g._n
            B = r._A._val()
            label = f"to_undirected(reciprocal={recip})"
            ctx.ensure(f"{label}: an undirected graph", const(type(r) is L.load("graphblas_algorithms").Graph))
            ctx.ensure(f"{label}: same labels", const(r._key_to_id is g._m))
            ctx.ensure(f"{label}: size", And(eq(B.shape[0], n), eq(B.shape[1], n)))
            i, j = idx_for(n, 0), idx_for(n, 1)
            p, x = B.at(i, j)
            q, y = B.at(j, i)
            c = And if recip else Or
            ctx.ensure(f"{label}: edges", Iff(p, c(A.pres(i, j), A.pres(j, i))))
            a, b = G._num2(x, y)
            ctx.ensure(f"{label}: one weight per edge", Implies(p, And(q, eq(a, b))))
            same = lambda u, v: eq(*G._num2(u, v))
            ctx.ensure(f"{label}: the weight of one of the arcs", Implies(p, Or(And(A.pres(i, j), same(x, A.value(i, j))), And(A.pres(j, i), same(x, A.value(j, i))))))
        H += variants(h, f"to_undirected[{'reciprocal' if recip else 'any'}]", [F + "classes.digraph.DiGraph.to_undirected"], directed=(True,), dts=DTYPES)
    return H
