"""C05: breadth-first search. Hop distance is the ghost theory `Hops` (facts about lengths of walks); every search loop is proved by the invariant
"after t rounds exactly the nodes at distance <= t are known, with their distance; the frontier is the nodes at distance t"."""
from graphspec import *


R0 = toreal(ZERO)


class Hops:
    """Hop distance from the start nodes along edge(i, j): fin(j) when some walk reaches j, then hop(j) is the least number of edges of such a walk.
    The facts used (each a theorem about walks in a finite graph):
     S  distance 0 exactly at the start nodes
     E  an edge from a reached node reaches its head, at most one further
     P  a node at distance d > 0 has an in-neighbour at distance d - 1
     L  between 0 and the distance of a reached node every distance occurs
     B  distances are below the number of nodes (counted on simple walks)"""

    def __init__(self, n, edge, start, tag="", row=None, dim=None):
        self.n, self.edge, self.start, self.tag, self.row = n, edge, start, tag, row
        self.fn, self.hn = f"fin{tag}", f"hop{tag}"
        P.AXIOMS[self.fn] = P.AXIOMS[self.hn] = lambda *a: self.basic(*a)

    def fin(self, *a):
        return app(self.fn, a, "B")

    def hop(self, *a):
        return app(self.hn, a, "I")

    def basic(self, *a):
        f, d = self.fin(*a), self.hop(*a)
        return [Implies(And(C.inr(a[-1], self.n), f), And(le(ZERO, d), lt(d, self.n), Iff(eq(d, ZERO), self.start(*a)))), Implies(And(C.inr(a[-1], self.n), self.start(*a)), And(f, eq(d, ZERO)))]

    def E(self, i, j, *r):
        return Implies(And(self.fin(*r, i), self.edge(i, j)), And(self.fin(*r, j), le(self.hop(*r, j), add(self.hop(*r, i), ONE))))

    def P(self, j, *r):
        return Implies(And(C.inr(j, self.n), self.fin(*r, j), lt(ZERO, self.hop(*r, j))),
                       ex(self.n, lambda i: And(self.fin(*r, i), eq(self.hop(*r, i), sub(self.hop(*r, j), ONE)), self.edge(i, j))))

    def L(self, j, d, *r):
        return Implies(And(C.inr(j, self.n), self.fin(*r, j), le(ZERO, d), le(d, self.hop(*r, j))), ex(self.n, lambda i: And(self.fin(*r, i), eq(self.hop(*r, i), d), Or(eq(d, ZERO), ex(self.n, lambda k: And(self.fin(*r, k), eq(self.hop(*r, k), sub(d, ONE)), self.edge(k, i)))))))

    def Lall(self, d, *r):
        return Implies(And(le(ZERO, d), ex(self.n, lambda i: And(self.fin(*r, i), le(d, self.hop(*r, i))))),
                       ex(self.n, lambda i: And(self.fin(*r, i), eq(self.hop(*r, i), d), Or(eq(d, ZERO), ex(self.n, lambda k: And(self.fin(*r, k), eq(self.hop(*r, k), sub(d, ONE)), self.edge(k, i)))))))

    def use(self, ctx, g, j, *r):
        """the facts at the index the obligations are about"""
        A = g._spec.A
        name = "Ap"
        old = P.AXIOMS.get(name)
        both = lambda i, k: (old(i, k) if old else []) + [self.E(i, k, *r), self.E(k, i, *r)]
        P.AXIOMS[name] = both
        ctx.assume(self.P(j, *r))
        self.at = (j, r)

    def closed(self, ctx):
        """the search stopped because no node is one further: instances of L"""
        j, r = self.at
        for t in list(ctx.ghost.values()):
            ctx.assume(self.L(j, add(t, ONE), *r))


class Facts(vc.Template):
    """an invariant, and instances of the theory at the current iteration"""

    def __init__(self, inner, facts):
        self.inner, self.facts, self.label = inner, facts, inner.label

    def havoc(self, t):
        for f in self.facts(t):
            sym.CTX.assume(f)
        return self.inner.havoc(t)

    def check(self, t, v):
        return self.inner.check(t, v)


def harnesses(L):
    nx = L.load("graphblas_algorithms.nxapi")
    alg = L.load("graphblas_algorithms.algorithms")
    bfs = L.load("graphblas_algorithms.algorithms._bfs")
    unw = L.load("graphblas_algorithms.algorithms.shortest_paths.unweighted")
    trav = L.load("graphblas_algorithms.algorithms.traversal.breadth_first_search")
    H = []
    F = "graphblas_algorithms.algorithms."
    B = F + "_bfs."

    def off_edge(g, transpose=False):
        A = g._spec.A
        if transpose:
            return lambda i, j: And(A.pres(j, i), ne(i, j))
        return lambda i, j: And(A.pres(i, j), ne(i, j))

    def known(hp, dt):
        """nodes within distance t, with their distance"""
        n = hp.n
        val = (lambda j: TRUE) if dt is BOOL else (lambda j: toreal(hp.hop(j))) if dt is FP64 else (lambda j: hp.hop(j))
        return Def("nodes within t edges", lambda t: G.Val((n,), dt, lambda j: (And(hp.fin(j), le(hp.hop(j), t)), val(j))))

    def before(hp, dt):
        n = hp.n
        val = (lambda j: TRUE) if dt is BOOL else (lambda j: toreal(hp.hop(j))) if dt is FP64 else (lambda j: hp.hop(j))
        return Def("nodes within t - 1 edges", lambda t: G.Val((n,), dt, lambda j: (And(hp.fin(j), lt(hp.hop(j), t)), val(j))))

    def front(hp, dt):
        n = hp.n
        val = (lambda j: TRUE) if dt is BOOL else (lambda j: toreal(j)) if dt is FP64 else (lambda j: j)
        return Def("nodes at distance t", lambda t: G.Val((n,), dt, lambda j: (And(hp.fin(j), eq(hp.hop(j), t)), val(j))))

    def parents(hp, dt):
        n = hp.n

        def inv_(t, idx, p, x):
            j, = idx
            return [Iff(p, And(hp.fin(j), le(hp.hop(j), t))), Implies(p, parent_ok(hp, j, x))]
        return Rel("nodes within t edges, each with a predecessor", (n,), dt, inv_)

    def parent_ok(hp, j, x):
        return Or(And(eq(hp.hop(j), ZERO), eq(x, j)), And(C.inr(x, hp.n), hp.fin(x), eq(hp.hop(x), sub(hp.hop(j), ONE)), hp.edge(x, j)))

    def templates(*hps, parent=False):
        def f(loop, name, v):
            if not isinstance(v, G.Tensor) or v.frozen:
                return []
            if len(v._v.shape) == 2:
                hp, dt, shp = hps[0], v._v.dt, v._v.shape
                val = (lambda r, j: TRUE) if dt is BOOL else (lambda r, j: toreal(hp.hop(r, j))) if dt is FP64 else hp.hop
                o = [Def("pairs within t edges", lambda t: G.Val(shp, dt, lambda r, j: (And(hp.fin(r, j), le(hp.hop(r, j), t)), val(r, j)))),
                     Def("pairs at distance t", lambda t: G.Val(shp, dt, lambda r, j: (And(hp.fin(r, j), eq(hp.hop(r, j), t)), val(r, j))))]
                return o[::-1] if name in multiplied_names(L, loop.lid) else o
            dt = v._v.dt
            out = []
            for hp in sorted(hps, key=lambda h: not (h.tag and h.tag in name)):
                o = [parents(hp, dt)] if parent else [known(hp, dt), before(hp, dt)]
                out += [front(hp, dt)] + o if name in multiplied_names(L, loop.lid) else o + [front(hp, dt)]
            return out
        return f

    def cutoffs(ctx, kind):
        if kind == "none":
            return None, None
        c = an_int("cutoff")
        ctx.assume(le(ZERO, term_of(c)))
        return c, term_of(c)

    def attempt(ctx, label, fn, allowed):
        try:
            return fn()
        except (Unsupported, PathEnd, vc.Restart):
            raise
        except Exception as e:
            ctx.ensure(f"{label}: only {allowed} may be raised, not {e.__class__.__name__}", const(e.__class__.__name__ in allowed))
            return e

    def reached(label, ctx, hp, got, cut, dt, target=None, parent=False):
        n = hp.n
        j = idx_for(n, 0)
        ok = isinstance(got, G.TensorOps)
        ctx.ensure(f"{label}: is a vector over the nodes", And(const(ok and len(got._val().shape) == 1), eq(got._val().shape[0], n)) if ok else FALSE)
        if not ok:
            return
        hp.closed(ctx)
        v = got._val()
        within = And(hp.fin(j), le(hp.hop(j), cut) if cut is not None else TRUE)
        ctx.ensure(f"{label}: only reachable nodes within the cutoff", Implies(v.pres(j), within))
        if target is None:
            ctx.ensure(f"{label}: every reachable node within the cutoff", Implies(within, v.pres(j)))
        else:
            ctx.ensure(f"{label}: every such node up to the distance of the target", Implies(And(within, Or(Not(hp.fin(target)), le(hp.hop(j), hp.hop(target)))), v.pres(j)))
        if parent:
            ctx.ensure(f"{label}: each with the node before it on a shortest walk", Implies(v.pres(j), parent_ok(hp, j, v.value(j))))
        elif dt is not BOOL:
            value = (lambda j: TRUE) if dt is BOOL else (lambda j: toreal(hp.hop(j))) if dt is FP64 else (lambda j: hp.hop(j))
            ctx.ensure(f"{label}: values", Implies(v.pres(j), eq(v.value(j), value(j))))

    # ---- the searches
    for which in ("plain", "level", "parent"):
        for tr in (False, True):
            for cut in ("none", "given"):
                for tgt in (False, True):
                    for dt2 in ((BOOL,) if which == "plain" else (INT64, FP64) if which == "level" else (INT64,)):
                        def h(ctx, directed, dt, which=which, tr=tr, cut=cut, tgt=tgt, dt2=dt2):
                            g = make_graph(L, directed, dt)
                            n = g._n
                            s, si = a_node(g, "src")
                            d, di = (node(g._m, idx_for(n, 1, "dst")), idx_for(n, 1, "dst")) if tgt else (None, None)
                            c, ct = cutoffs(ctx, cut)
                            hp = Hops(n, off_edge(g, tr and directed), lambda j: eq(j, si))
                            hp.use(ctx, g, idx_for(n, 0))
                            ctx.templates = templates(hp, parent=which == "parent")
                            kw = dict(cutoff=c, transpose=tr)
                            if which != "plain":
                                kw["dtype"] = {INT64: int, FP64: float}[dt2] if dt2 is not FP64 else FP64
                            r = getattr(bfs, f"_bfs_{which}")(g, s, d, **kw)
                            reached(f"_bfs_{which}", ctx, hp, r, ct, dt2, di, which == "parent")
                        H += variants(h, f"_bfs_{which}{', transposed' if tr else ''}, cutoff {cut}{', with a target' if tgt else ''}{', float' if dt2 is FP64 else ''}", [B + f"_bfs_{which}", B + "_get_cutoff"])

    # ---- the functions of the package
    def one(ctx, directed, dt, tr=False):
        g = make_graph(L, directed, dt)
        s, si = a_node(g, "src")
        hp = Hops(g._n, off_edge(g, tr and directed), lambda j: eq(j, si))
        hp.use(ctx, g, idx_for(g._n, 0))
        ctx.templates = templates(hp)
        return g, s, si, hp

    for api, name, tr in ((a, b, c) for a in ("algorithms", "nxapi") for b, c in (("descendants", False), ("ancestors", True))):
        def h(ctx, directed, dt, api=api, name=name, tr=tr):
            g, s, si, hp = one(ctx, directed, dt, tr)
            r = getattr(alg if api == "algorithms" else nx, name)(g, s)
            hp.closed(ctx)
            want = V1(g._n, BOOL, lambda j: (And(hp.fin(j), ne(j, si)), TRUE))
            if api == "nxapi":
                nodemap_is(L, name, r, g, want, "NodeSet")
            else:
                result_is(name, r, want)
        H += variants(h, f"{name} ({api})", [F + f"dag.{name}", B + "_bfs_plain"] + ([f"graphblas_algorithms.nxapi.dag.{name}"] if api == "nxapi" else []))

    for cut in ("none", "given"):
        for name, tr in (("single_source_shortest_path_length", False), ("single_target_shortest_path_length", True)):
            def h(ctx, directed, dt, cut=cut, name=name, tr=tr):
                g, s, si, hp = one(ctx, directed, dt, tr)
                c, ct = cutoffs(ctx, cut)
                r = getattr(nx, name)(g, s, c)
                hp.closed(ctx)
                nodemap_is(L, name, r, g, V1(g._n, INT64, lambda j: (And(hp.fin(j), le(hp.hop(j), ct) if ct is not None else TRUE), hp.hop(j))))
            H += variants(h, f"{name}, cutoff {cut}", [F + f"shortest_paths.unweighted.{name}", f"graphblas_algorithms.nxapi.shortest_paths.unweighted.{name}", B + "_bfs_level"])

    def h(ctx, directed, dt):
        g, s, si, hp = one(ctx, directed, dt)
        r = nx.node_connected_component(g, s)
        hp.closed(ctx)
        nodemap_is(L, "node_connected_component", r, g, V1(g._n, BOOL, lambda j: (hp.fin(j), TRUE)), "NodeSet")
    H += variants(h, "node_connected_component", [F + "components.connected.node_connected_component", "graphblas_algorithms.nxapi.components.connected.node_connected_component"], directed=(False,))

    def h(ctx, directed, dt):
        g = make_graph(L, directed, dt)
        n = g._n
        si = ident(g._m, g._m.order(ZERO))
        hp = Hops(n, off_edge(g), lambda j: eq(j, si))
        hp.use(ctx, g, idx_for(n, 0))
        ctx.templates = templates(hp)
        r = attempt(ctx, "is_connected", lambda: nx.is_connected(g), ("NetworkXPointlessConcept",))
        if isinstance(r, Exception):
            ctx.ensure("is_connected: undefined only without nodes", eq(n, ZERO))
            return
        ctx.ensure("is_connected: without nodes it is undefined", lt(ZERO, n))
        for t in list(ctx.ghost.values()):
            ctx.assume(hp.Lall(add(t, ONE)))
        j = idx_for(n, 0)
        ctx.ensure("is_connected: when true every node is reached from the first one", Implies(term_of(r), hp.fin(j)))
        if not truth(r):
            ctx.ensure("is_connected: when false some node is not reached", ex(n, lambda j: Not(hp.fin(j))))
    H += variants(h, "is_connected", [F + "components.connected.is_connected", "graphblas_algorithms.nxapi.components.connected.is_connected"], directed=(False,))

    def h(ctx, directed, dt):
        g, s, si, hp = one(ctx, directed, dt)
        n = g._n
        d = an_int("distance")
        ctx.assume(le(ZERO, term_of(d)))
        r = nx.descendants_at_distance(g, s, d)
        for t in list(ctx.ghost.values()):
            j, rr = hp.at
            ctx.assume(hp.L(j, add(t, ONE), *rr))
        nodemap_is(L, "descendants_at_distance", r, g, V1(n, BOOL, lambda j: (And(hp.fin(j), eq(hp.hop(j), term_of(d))), TRUE)), "NodeSet")
    H += variants(h, "descendants_at_distance", [F + "traversal.breadth_first_search.descendants_at_distance", "graphblas_algorithms.nxapi.traversal.breadth_first_search.descendants_at_distance"])

    # ---- several sources
    for given, cut, dt2, ex_ in [(a, b, c, e) for a in (False, True) for b in ("none", "given") for c in (INT64, FP64, None) for e in ((False, True) if a and c is None else (False,))]:
        def h(ctx, directed, dt, given=given, cut=cut, dt2=dt2, ex_=ex_):
            g = make_graph(L, directed, dt)
            n = g._n
            c, ct = cutoffs(ctx, cut)
            if given:
                nl, k, ids = a_nodelist(g._m)
            else:
                nl, k, ids = None, n, lambda r: r
            hp = Hops(n, off_edge(g), lambda r, j: eq(j, ids(r)))
            r, j = idx_for(k, 0), idx_for(n, 1)
            hp.use(ctx, g, j, r)
            ctx.templates = templates(hp)
            if dt2 is not None:
                got = bfs._bfs_levels(g, nl, cutoff=c, dtype=dt2)
            else:
                got = alg.all_pairs_shortest_path_length(g, c, nodes=nl, expand_output=ex_)
            hp.closed(ctx)
            ok = isinstance(got, G.TensorOps)
            ctx.ensure("levels: a matrix", const(ok and len(got._val().shape) == 2))
            if not ok:
                return
            v = got._val()
            within = And(hp.fin(r, j), le(hp.hop(r, j), ct) if ct is not None else TRUE)
            row = ids(r) if ex_ else r
            ctx.ensure("levels: shape", And(eq(v.shape[0], n if ex_ else k), eq(v.shape[1], n)))
            p, x = v.at(row, j)
            ctx.ensure("levels: exactly the nodes within the cutoff", Iff(p, within))
            ctx.ensure("levels: distances", Implies(p, eq(toreal(x), toreal(hp.hop(r, j)))))
            if ex_:
                i = idx_for(n, 2)
                ctx.ensure("levels: only the rows of the nodes asked for", Implies(v.pres(i, j), app("in_nl", (keysof(g._m, i),), "B")))
        H += variants(h, f"{'_bfs_levels' if dt2 is not None else 'all_pairs_shortest_path_length'}, {'node list' if given else 'all nodes'}, cutoff {cut}{', ' + dt2.name if dt2 is not None else ''}{', expanded' if ex_ else ''}",
                      [B + "_bfs_levels"] + ([F + "shortest_paths.unweighted.all_pairs_shortest_path_length"] if dt2 is None else []))

    # ---- layers
    for kind in ("node", "list"):
        for api in ("algorithms",):
            def h(ctx, directed, dt, kind=kind, api=api):
                g = make_graph(L, directed, dt)
                n, m = g._n, g._m
                if kind == "node":
                    src, si = a_node(g, "src")
                    start = lambda j: eq(j, si)
                else:
                    src, k, ids = a_nodelist(m)
                    start = lambda j: app("in_nl", (keysof(m, j),), "B")
                hp = Hops(n, off_edge(g), start)
                hp.use(ctx, g, idx_for(n, 0))
                base = templates(hp)
                ctx.templates = lambda loop, name, v: [Def("layers so far", lambda t: lift(add(t, ONE)))] if name == "ghost pos" else base(loop, name, v)
                ctx.ghosts["pos"] = 0
                j = idx_for(n, 0)
                if kind == "node":
                    ctx.assume(And(*hp.basic(si)))
                else:
                    ctx.assume(Implies(lt(ZERO, k), And(*hp.basic(ids(ZERO)), C.inr(ids(ZERO), n), app("in_nl", (keysof(m, ids(ZERO)),), "B"))))
                for layer in getattr(nx if api == "nxapi" else alg, "bfs_layers")(g, src):
                    p = term_of(ctx.ghosts["pos"])
                    at = And(hp.fin(j), eq(hp.hop(j), p))
                    if api == "algorithms":
                        result_is("layer", layer, V1(n, BOOL, lambda j: (And(hp.fin(j), eq(hp.hop(j), p)), TRUE)))
                    else:
                        ctx.ensure("layer: exactly the nodes at that distance", Iff(ex(layer.length, lambda r: eq(term_of(layer.get(r)), keysof(m, j))), at))
                    if kind == "node":
                        ctx.ensure("layer: not empty", ex(n, lambda i: And(hp.fin(i), eq(hp.hop(i), p))))
                    ctx.ghosts["pos"] = lift(add(p, ONE))
                hp.closed(ctx)
                ctx.ensure("all layers", Implies(hp.fin(j), lt(hp.hop(j), term_of(ctx.ghosts["pos"]))))
            H += variants(h, f"bfs_layers of a {kind} ({api})", [F + "traversal.breadth_first_search.bfs_layers"] + (["graphblas_algorithms.nxapi.traversal.breadth_first_search.bfs_layers"] if api == "nxapi" else []))

    # ---- meeting in the middle
    for which in ("bidirectional", "has_path", "efficiency"):
        def h(ctx, directed, dt, which=which):
            g = make_graph(L, directed, dt)
            n = g._n
            s, si = a_node(g, "src")
            di = idx_for(n, 1, "dst")
            d = node(g._m, di)
            fw = Hops(n, off_edge(g), lambda j: eq(j, si), "src")
            bw = Hops(n, off_edge(g, True), lambda j: eq(j, di), "dst")
            j = idx_for(n, 0)
            for hp in (fw, bw):
                hp.use(ctx, g, j)
            fin, dist = fw.fin(di), fw.hop(di)
            # walks through j; a shortest walk passes through nodes at every pair of distances
            old = P.AXIOMS["finsrc"]
            via = lambda i: Implies(And(C.inr(i, n), fw.fin(i), bw.fin(i)), And(fin, le(dist, add(fw.hop(i), bw.hop(i)))))
            P.AXIOMS["finsrc"] = P.AXIOMS["hopsrc"] = lambda i: old(i) + [via(i)]
            mid = lambda a: Implies(And(fin, le(ZERO, a), le(a, dist)), ex(n, lambda i: And(fw.fin(i), eq(fw.hop(i), a), bw.fin(i), eq(bw.hop(i), sub(dist, a)), fw.P(i), bw.P(i))))
            base = templates(fw, bw)

            def tpl(loop, name, v):
                if name == "ghost dist":
                    return [Facts(ScalarRel("the frontiers have not met", "I", lambda t, x: [eq(x, dist), Implies(fin, lt(add(t, t), dist))]), lambda t: [mid(add(t, ONE)), mid(sub(dist, add(t, ONE)))])]
                return base(loop, name, v)
            ctx.templates = tpl
            ctx.ghosts["dist"] = lift(dist)

            def steps():
                for t in list(ctx.ghost.values()):
                    for hp in (fw, bw):
                        ctx.assume(hp.L(di if hp is fw else si, add(t, ONE)))
            ctx.step = steps
            f = {"bidirectional": lambda: unw.bidirectional_shortest_path_length(g, s, d), "has_path": lambda: nx.has_path(g, s, d), "efficiency": lambda: nx.efficiency(g, s, d)}[which]
            r = attempt(ctx, which, f, {"bidirectional": ("NoPath",), "efficiency": ("ZeroDivisionError",)}.get(which, ()))
            steps()
            if isinstance(r, ZeroDivisionError):
                # as in networkx: the efficiency of a node with itself is undefined
                ctx.ensure("division by zero only for a node with itself", eq(si, di))
            elif isinstance(r, Exception):
                ctx.ensure("no path is reported only when there is none", Not(fin))
            elif which == "bidirectional":
                ctx.ensure("a number is returned only when there is a path", fin)
                ctx.ensure("the number of edges", eq(term_of(r), dist))
            elif which == "has_path":
                ctx.ensure("has_path", Iff(term_of(r), fin))
            else:
                ctx.ensure("efficiency", eq(toreal(term_of(r)), ite(fin, inv(dist), R0)))
        H += variants(h, which, [F + "shortest_paths.unweighted.bidirectional_shortest_path_length"] + {"bidirectional": [], "has_path": [F + "shortest_paths.generic.has_path", "graphblas_algorithms.nxapi.shortest_paths.generic.has_path"],
                                 "efficiency": [F + "efficiency_measures.efficiency", "graphblas_algorithms.nxapi.efficiency_measures.efficiency"]}[which], directed=(False,) if which == "efficiency" else (False, True))
    return H
