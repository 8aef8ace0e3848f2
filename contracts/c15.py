"""C15: subgraphs. k_truss: the result is a set of edges each in at least k - 2 of its triangles, and it contains every such set. ego_graph is checked against the contracts of its callees: the search within a cutoff (proved in C05: `_bfs_plain`) yields some set of nodes -
whatever it is, the graph built has exactly these nodes and the edges among them."""
import os
from graphspec import *
from vc import is_scalarish, Unsupported


def harnesses(L):
    nx = L.load("graphblas_algorithms.nxapi")
    ego = L.load("graphblas_algorithms.generators.ego")
    nego = L.load("graphblas_algorithms.nxapi.generators.ego")
    H = []
    F = "graphblas_algorithms."

    for weighted in (False, True):
        for und in (False, True):
            for api in ("generators", "nxapi"):
                def h(ctx, directed, dt, weighted=weighted, und=und, api=api):
                    g = make_graph(L, directed, dt, min_n=1)
                    n, A, m = g._n, g._spec.A, g._m
                    c, ci = a_node(g, "centre")
                    r = a_real("radius") if weighted else lift(var("radius", "I"))
                    calls = []
                    near = lambda j: app("near", (j,), "B")

                    def search(name, out):
                        def f(G2, node, *, cutoff=None, **kw):
                            """contract: a fresh vector with an entry exactly at the nodes within the cutoff; the start among them when the cutoff is not negative"""
                            calls.append(name)
                            i, j = idx_for(n, 0), idx_for(n, 1)
                            B = G2._A._val()
                            ctx.ensure("the search starts from the centre", const(node is c))
                            ctx.ensure("the search is within the radius", const(cutoff is r))
                            both = und and directed
                            ctx.ensure("the search is over all nodes", eq(B.shape[0], n))
                            p, q = B.pres(i, j), (Or(A.pres(i, j), A.pres(j, i)) if both else A.pres(i, j))
                            ctx.ensure("the search is over the edges (in both directions when undirected)", Iff(p, q))
                            ctx.ensure("the search keeps the direction of edges", const(G2.is_directed() == (directed and not both)))
                            if weighted and not both:
                                ctx.ensure("the search is over the weights", Implies(p, eq(B.value(i, j), A.value(i, j))))
                            if weighted and both:
                                x = B.value(i, j)
                                ctx.ensure("the search is over the weights", Implies(p, Or(And(A.pres(i, j), eq(x, A.value(i, j))), And(A.pres(j, i), eq(x, A.value(j, i))))))
                            return G.mk_tensor(G.Val((n,), out, lambda j: (near(j), app("far", (j,), out.sort) if out is not BOOL else TRUE)))
                        return f
                    P.AXIOMS["near"] = lambda j: [near(ci)]
                    with patched(ego, _bfs_plain=search("hops", BOOL), single_source_bellman_ford_path_length=search("weights", FP64 if dt is not INT64 else INT64)):
                        centre = truth(a_bool("center"))
                        if api == "nxapi":
                            res = nego.ego_graph(g, c, r, centre, und, "weight" if weighted else None)
                        else:
                            res = ego.ego_graph(g, c, r, centre, und, weighted)
                    if not calls:
                        raise Unsupported("the search is not one of those with a contract")
                    ctx.ensure("one search, by weights exactly when asked", const(calls == ["weights" if weighted else "hops"]))
                    kept = lambda j: And(near(j), ne(j, ci)) if not centre else near(j)
                    ctx.ensure("same class", const(type(res) is type(g)))
                    M, R = res._key_to_id, res._A._val()
                    k_ = R.shape[0]
                    ctx.ensure("square", eq(k_, R.shape[1]))
                    k, l = a_label("k!"), a_label("l!")
                    kt, lt_ = k.t, l.t
                    isn = lambda x: And(isnode(m, x), kept(ident(m, x)))
                    ctx.ensure("nodes: exactly those found (and the centre only when asked)", Iff(M.dom(kt), isn(kt)))
                    pos = lambda x: term_of(M.val(x))
                    ctx.ensure("positions in range", Implies(isn(kt), And(le(ZERO, pos(kt)), lt(pos(kt), k_))))
                    ctx.ensure("one position per label", Implies(And(isn(kt), isn(lt_), ne(kt, lt_)), ne(pos(kt), pos(lt_))))
                    p, x = R.at(pos(kt), pos(lt_))
                    w = And(isn(kt), isn(lt_))
                    e = A.pres(ident(m, kt), ident(m, lt_))
                    ctx.ensure("edges: exactly the original ones among these nodes", Implies(w, Iff(p, e)))
                    ctx.ensure("weights are kept", Implies(And(w, e), eq(x, A.value(ident(m, kt), ident(m, lt_)))))
                H += variants(h, f"ego_graph ({api}){', weighted' if weighted else ''}{', undirected' if und else ''}", [F + "generators.ego.ego_graph", F + "classes._utils.renumber_key_to_id"] + ([F + "nxapi.generators.ego.ego_graph"] if api == "nxapi" else []),
                              dts=(FP64, INT64) if api == "generators" else (FP64,))

    # ---- k-truss (about 200 s of solver time: the thorough tier)
    if os.environ.get("VERIF_TIER") != "thorough":
        return H
    core = L.load("graphblas_algorithms.algorithms.core")
    ncore = L.load("graphblas_algorithms.nxapi.core")
    sym_rule = lambda a: None if a[0].uid <= a[1].uid else (a[1], a[0])
    no_loop = lambda a: FALSE if a[0] is a[1] else sym_rule(a)
    for api in ("algorithms", "nxapi"):
        def h(ctx, directed, dt, api=api):
            """T: any set of edges each of which lies in at least k - 2 triangles of T (ghost); the result contains T and is such a set itself"""
            g = make_graph(L, False, dt)
            n, A, m, sp = g._n, g._spec.A, g._m, g._spec
            k = lift(var("k", "I"))
            need = sub(k.t, const(2))
            # the graph without its self-edges under a name of its own (its contract, C01)
            TM.APP_RULES["Op"] = no_loop
            TM.APP_RULES["Ov"] = sym_rule
            off = lambda i, j: app("Op", (i, j), "B")
            O = G.Val((n, n), dt, lambda i, j: (off(i, j), app("Ov", (i, j), dt.sort)))
            sp.memo["offdiag"] = O
            T = lambda i, j: app("truss", (i, j), "B")
            TM.APP_RULES["truss"] = no_loop
            tri = lambda E, i, j: tsum(n, lambda x: ite(And(E(i, x), E(j, x)), ONE, ZERO))
            total = lambda E: tsum(n, lambda i: tsum(n, lambda j: ite(E(i, j), ONE, ZERO)))
            good = lambda E: lambda i, j: And(E(i, j), ex(n, lambda x: And(E(i, x), E(j, x))), le(need, tri(E, i, j)))

            def same_size(E):
                """a finite set that is no larger than its subset of edges in enough triangles is that subset"""
                return lambda i, j: Implies(And(eq(total(good(E)), total(E)), C.inr(i, n), C.inr(j, n), E(i, j)), le(need, tri(E, i, j)))

            # triangles of T at a pair; w, u: a common neighbour in T that is not one in E / any common neighbour in T, if there is one (choice)
            triT = lambda i, j: app("ntri", tuple(sorted((i, j), key=lambda a: a.uid)), "I")

            def more(E, tag):
                """sums of non-negative terms are monotone: the triangles of a subset"""
                def f(i, j):
                    w = app(f"w{tag}", (i, j), "I")
                    return Implies(And(C.inr(i, n), C.inr(j, n), Implies(And(C.inr(w, n), T(i, w), T(j, w)), And(E(i, w), E(j, w)))), le(triT(i, j), tri(E, i, j)))
                return f
            basic = lambda i, j: [Iff(off(i, j), And(ne(i, j), A.pres(i, j)))]
            P.AXIOMS["Op"] = P.AXIOMS["Ov"] = basic
            P.AXIOMS["truss"] = lambda i, j: [Implies(T(i, j), off(i, j))]
            pairs = [(idx_for(n, 0), idx_for(n, 1))]
            for i, j in pairs:
                # T is a truss: at the pairs the obligations speak of
                u = app("u", (i, j), "I")
                ctx.assume(Implies(T(i, j), le(need, triT(i, j))))
                ctx.assume(Implies(lt(ZERO, triT(i, j)), And(C.inr(u, n), T(i, u), T(j, u))))
            def about(E, tag):
                return [f(i, j) for i, j in pairs for f in (same_size(E), more(E, tag))]
            for f in about(off, "O"):
                ctx.assume(f)
            ctx.cur, ctx.waiting, ctx.nm = {}, [], set()

            class Edges(vc.Rel):
                def __init__(self, name, dt_):
                    super().__init__("a symmetric set of edges that contains T", (n, n), dt_, lambda t, ix, p, x: [Implies(p, off(*ix)), Implies(T(*ix), p)])
                    self.name = name

                def havoc(self, t):
                    v = super().havoc(t)
                    p, x = v.names
                    TM.APP_RULES[p] = no_loop
                    E = sym.CTX.cur[self.name] = v.pres
                    for f in about(E, p):
                        sym.CTX.assume(f)
                    for z in sym.CTX.waiting:
                        sym.CTX.assume(eq(z, total(E)))
                    return v

                def check(self, t, v):
                    out = super().check(t, v)
                    if len(out) > 1:
                        i, j = idx_for(n, 0), idx_for(n, 1)
                        out.append(("symmetric", Implies(v._val().pres(i, j), v._val().pres(j, i))))
                    return out

            class Size(vc.Template):
                label = "the number of edges"

                def havoc(self, t):
                    z = TM.fresh("size", "I")
                    sym.CTX.waiting.append(z)
                    for E in sym.CTX.cur.values():
                        sym.CTX.assume(eq(z, total(E)))
                    return lift(z)

                def check(self, t, v):
                    S = [x for nm, x in sym.CTX.loc.items() if nm in sym.CTX.nm and isinstance(x, G.Tensor)]
                    return [("size", And(*[eq(term_of(v), total(x._val().pres)) for x in S]))]

            def tpl(loop, name, v):
                if isinstance(v, G.Tensor) and len(v._v.shape) == 2:
                    sym.CTX.nm.add(name)
                    return [Edges(name, v._v.dt)]
                return [Size()] if is_scalarish(v) else []
            ctx.templates = tpl
            r = (core if api == "algorithms" else ncore).k_truss(g, k)
            M, R = r._key_to_id, r._A._val()
            ctx.ensure("undirected", const(not r.is_directed()))
            i, j = pairs[0]
            ki, kj = keysof(m, i), keysof(m, j)
            pos = lambda x: term_of(M.val(x))
            k_ = R.shape[0]
            p = R.pres(pos(ki), pos(kj))
            ctx.ensure("square", eq(k_, R.shape[1]))
            lab = a_label("k!").t
            ctx.ensure("only labels of the graph", Implies(M.dom(lab), isnode(m, lab)))
            ctx.ensure("every edge of a truss is kept", Implies(T(i, j), And(M.dom(ki), M.dom(kj), p)))
            ctx.ensure("positions in range", Implies(M.dom(ki), And(le(ZERO, pos(ki)), lt(pos(ki), k_))))
            ctx.ensure("one position per node", Implies(And(M.dom(ki), M.dom(kj), ne(i, j)), ne(pos(ki), pos(kj))))
            ctx.ensure("only edges of the graph, without self-edges", Implies(And(M.dom(ki), M.dom(kj), p), off(i, j)))
            # the edges left at the end, by the node numbers of the graph
            kept = lambda a, b: (lambda x, y: And(M.dom(x), M.dom(y), R.pres(pos(x), pos(y))))(keysof(m, a), keysof(m, b))
            ctx.ensure("no node is left without an edge", Implies(M.dom(ki), ex(n, lambda b: kept(i, b))))
            if truth(lift(le(const(3), k.t))):
                E = next(iter(sym.CTX.cur.values()), off)
                lemma(ctx, "the last round removed nothing", Implies(E(i, j), le(need, tri(E, i, j))))
                ctx.ensure("the edges left are those of the last round", Iff(And(M.dom(ki), M.dom(kj), p), E(i, j)))
        H += variants(h, f"k_truss ({api})", [F + "algorithms.core.k_truss"], directed=(False,), dts=(FP64,))
    return H
