import copy
import types
from common import *
from c10 import gen
import c01
from graphblas_algorithms.classes.nodemap import NodeMap, VectorMap, VectorNodeMap, NodeNodeMap
from graphblas_algorithms.classes.nodeset import NodeSet
from graphblas_algorithms.classes.graph import Graph
from graphblas_algorithms.classes.digraph import DiGraph

gm = nxapi.link_analysis.pagerank_alg.google_matrix


class Ctx:
    def __init__(self, x, y, h, seed):
        self.x, self.y, self.h, self.r = x, y, h, random.Random(seed)

    def node(self):
        return self.r.choice(self.x.labels)

    def nodes(self, lo=0):
        return self.r.sample(self.x.labels, self.r.randint(min(lo, self.x.n), self.x.n))

    def maybe(self, v):
        return v if self.r.random() < 0.5 else None

    def nvec(self):
        return {k: self.r.choice([1.0, 2.0, 0.5]) for k in self.x.labels}

    def vec(self, lo=0):
        return Vector.from_coo([self.x.idx[k] for k in self.nodes(lo)] or [0], True, size=self.x.n, dtype=bool)

    def mask(self):
        return self.vec().S

    def fvec(self):
        return Vector.from_coo(range(self.x.n), [self.r.choice([1.0, 2.0, 0.5]) for _ in range(self.x.n)], size=self.x.n, dtype=float)

    def w(self):
        return self.r.choice([None, "weight"])

    def cut(self):
        return self.r.choice([None, 0, 1, 2, 3])

    def chunk(self):
        return self.r.choice([None, 1, 2, 3, "10 MiB"])

    def partition(self):
        q = list(self.x.labels)
        self.r.shuffle(q)
        k = self.r.randint(1, len(q))
        return [set(q[i::k]) for i in range(k)]


# name -> function of (graph, context) giving (callable, args, kwargs); U: undirected only, D: directed only
T = {}


def t(name, f, kind="", fn=None):
    T[name] = (f, kind, fn)


A = lambda *a, **k: (a, k)
for nm in ("is_connected", "is_regular", "number_of_isolates", "isolates", "overall_reciprocity", "s_metric", "transitivity", "degree_centrality", "complement", "fast_could_be_isomorphic", "faster_could_be_isomorphic",
           "is_weakly_connected", "in_degree_centrality", "out_degree_centrality", "is_tournament", "score_sequence", "tournament_matrix", "is_triad"):
    if "could_be" in nm:
        t(nm, lambda g, c: A(g, c.h))
    else:
        t(nm, lambda g, c: A(g), {"is_connected": "U", "is_regular": "", "is_weakly_connected": "D", "in_degree_centrality": "D", "out_degree_centrality": "D", "is_tournament": "D", "score_sequence": "D", "tournament_matrix": "D", "is_triad": "D", "overall_reciprocity": "D"}.get(nm, ""))
t("node_connected_component", lambda g, c: A(g, c.node()), "U")
t("is_isolate", lambda g, c: A(g, c.node()))
t("is_k_regular", lambda g, c: A(g, c.r.randint(0, 3)), "U")
t("reciprocity", lambda g, c: A(g, c.r.choice([None, c.node(), c.nodes(1)])), "D")
t("efficiency", lambda g, c: A(g, c.node(), c.node()), "U")
t("mutual_weight", lambda g, c: A(g, c.node(), c.node(), c.w()))
t("is_simple_path", lambda g, c: A(g, c.nodes()))
t("ego_graph", lambda g, c: A(g, c.node(), radius=c.r.randint(0, 3), center=c.r.random() < 0.5, undirected=c.r.random() < 0.5, distance=c.w()))
t("triangles", lambda g, c: A(g, c.r.choice([None, c.node(), c.nodes(1)])), "U")
t("clustering", lambda g, c: A(g, c.r.choice([None, c.node(), c.nodes(1)]), c.w()))
t("average_clustering", lambda g, c: A(g, c.maybe(c.nodes(1)), c.w(), c.r.random() < 0.5))
t("square_clustering", lambda g, c: A(g, c.r.choice([None, c.node(), c.nodes(1)]), chunksize=c.chunk()), "U")
t("generalized_degree", lambda g, c: A(g, c.r.choice([None, c.node(), c.nodes(1)])), "U")
for nm in ("descendants", "ancestors", "single_source_bellman_ford_path_length"):
    t(nm, lambda g, c: A(g, c.node()))
for nm in ("has_path", "bellman_ford_path", "bellman_ford_path_length", "lowest_common_ancestor"):
    t(nm, lambda g, c: A(g, c.node(), c.node()), "D" if nm.startswith("low") else "")
for nm in ("single_source_shortest_path_length", "single_target_shortest_path_length"):
    t(nm, lambda g, c: A(g, c.node(), c.cut()))
t("all_pairs_shortest_path_length", lambda g, c: A(g, c.cut(), chunksize=c.chunk()))
t("all_pairs_bellman_ford_path_length", lambda g, c: A(g, chunksize=c.chunk()))
t("negative_edge_cycle", lambda g, c: A(g))
t("floyd_warshall", lambda g, c: A(g))
t("floyd_warshall_predecessor_and_distance", lambda g, c: A(g))
t("floyd_warshall_numpy", lambda g, c: A(g, c.maybe(c.r.sample(c.x.labels, c.x.n))))
t("bfs_layers", lambda g, c: A(g, c.r.choice([c.node(), c.nodes(1)])))
t("descendants_at_distance", lambda g, c: A(g, c.node(), c.r.randint(0, 3)))
t("hits", lambda g, c: A(g, max_iter=c.r.choice([5, 100]), nstart=c.maybe(c.nvec()), normalized=c.r.random() < 0.5))
t("pagerank", lambda g, c: A(g, alpha=0.8, personalization=c.maybe(c.nvec()), nstart=c.maybe(c.nvec()), dangling=c.maybe(c.nvec()), max_iter=c.r.choice([3, 100])))
t("google_matrix", lambda g, c: A(g, personalization=c.maybe(c.nvec()), nodelist=c.maybe(c.nodes(1)), dangling=c.maybe(c.nvec())), fn=gm)
t("eigenvector_centrality", lambda g, c: A(g, max_iter=c.r.choice([3, 100]), nstart=c.maybe(c.nvec())))
t("katz_centrality", lambda g, c: A(g, alpha=0.05, beta=c.r.choice([1.0, c.nvec()]), nstart=c.maybe(c.nvec()), normalized=c.r.random() < 0.5, max_iter=c.r.choice([3, 200])))
for nm in ("union", "disjoint_union", "intersection", "difference", "symmetric_difference", "compose", "full_join"):
    t(nm, lambda g, c: A(g, c.h))
    if nm in ("union", "full_join"):
        t(nm + " rename", lambda g, c: A(g, c.h, rename=("a", "b")), fn=getattr(nxapi, nm))
t("reverse", lambda g, c: A(g, c.r.random() < 0.5), "D")
t("laplacian_matrix", lambda g, c: A(g, c.maybe(c.nodes(1)), c.w()))
t("normalized_laplacian_matrix", lambda g, c: A(g, c.maybe(c.nodes(1)), c.w()))
t("adjacency_matrix", lambda g, c: A(g, c.maybe(c.nodes(1)), weight=c.w()))
t("bethe_hessian_matrix", lambda g, c: A(g, c.r.choice([None, 2.0]), c.maybe(c.nodes(1))), "U")
t("modularity_matrix", lambda g, c: A(g, c.maybe(c.nodes(1)), c.w()), "U")
t("directed_modularity_matrix", lambda g, c: A(g, c.maybe(c.nodes(1)), c.w()), "D")
t("k_truss", lambda g, c: A(g, c.r.randint(0, 5)), "U")
t("is_dominating_set", lambda g, c: A(g, set(c.nodes())))
for nm in ("cut_size", "normalized_cut_size", "conductance", "edge_expansion", "mixing_expansion"):
    t(nm, lambda g, c: A(g, set(c.nodes(1)), c.maybe(set(c.nodes(1))), c.w()))
t("volume", lambda g, c: A(g, set(c.nodes()), c.w()))
for nm in ("node_expansion", "boundary_expansion"):
    t(nm, lambda g, c: A(g, set(c.nodes(1))))
t("edge_boundary", lambda g, c: A(g, set(c.nodes()), c.maybe(set(c.nodes())), data=c.r.choice([False, "weight"])))
t("node_boundary", lambda g, c: A(g, set(c.nodes()), c.maybe(set(c.nodes()))))
t("intra_community_edges", lambda g, c: A(g, c.partition()), fn=nxapi.community.quality.intra_community_edges)
t("inter_community_edges", lambda g, c: A(g, c.partition()), fn=nxapi.community.quality.inter_community_edges)
# the algorithms themselves, with vectors and masks as arguments
al = lambda nm, f, kind="": t("algorithms." + nm, f, kind, getattr(alg, nm))
al("triangles", lambda g, c: A(g, weighted=c.r.random() < 0.3, mask=c.maybe(c.mask())), "U")
al("clustering", lambda g, c: A(g, weighted=c.r.random() < 0.3, mask=c.maybe(c.mask())), "U")
al("average_clustering", lambda g, c: A(g, count_zeros=c.r.random() < 0.5, weighted=c.r.random() < 0.3, mask=c.maybe(c.mask())), "U")
al("clustering_directed", lambda g, c: A(g, weighted=c.r.random() < 0.3, mask=c.maybe(c.mask())), "D")
al("average_clustering_directed", lambda g, c: A(g, count_zeros=c.r.random() < 0.5, weighted=c.r.random() < 0.3, mask=c.maybe(c.mask())), "D")
al("square_clustering", lambda g, c: A(g, c.maybe(np.array([c.x.idx[k] for k in c.nodes(1)], dtype=np.uint64))), "U")
al("generalized_degree", lambda g, c: A(g, mask=c.maybe(c.mask())), "U")
al("edge_boundary", lambda g, c: A(g, c.vec(1), c.maybe(c.vec(1)), is_weighted=c.r.random() < 0.5))
al("node_boundary", lambda g, c: A(g, c.vec(1), mask=c.maybe(c.mask())))
for nm in ("cut_size", "normalized_cut_size", "conductance", "edge_expansion", "mixing_expansion"):
    al(nm, lambda g, c: A(g, c.vec(1), c.maybe(c.vec(1)), is_weighted=c.r.random() < 0.5))
al("volume", lambda g, c: A(g, c.vec(1), weighted=c.r.random() < 0.5))
al("node_expansion", lambda g, c: A(g, c.vec(1)))
al("boundary_expansion", lambda g, c: A(g, c.vec(1)))
al("is_dominating_set", lambda g, c: A(g, c.vec(1)))
al("reciprocity", lambda g, c: A(g, c.maybe(c.mask())), "D")
al("isolates", lambda g, c: A(g))
for nm in ("degree_centrality", "total_triangles", "transitivity"):
    al(nm, lambda g, c: A(g), "U")
al("in_degree_centrality", lambda g, c: A(g), "D")
al("out_degree_centrality", lambda g, c: A(g), "D")
al("degree_centrality", lambda g, c: A(g), "")
al("pagerank", lambda g, c: A(g, personalization=c.maybe(c.fvec()), nstart=c.maybe(c.fvec()), dangling=c.maybe(c.fvec()), row_degrees=None))
al("google_matrix", lambda g, c: A(g, personalization=c.maybe(c.fvec()), nodelist=c.maybe(c.nodes(1)), dangling=c.maybe(c.fvec())))
al("hits", lambda g, c: A(g, nstart=c.maybe(c.fvec()), normalized=c.r.random() < 0.5, with_authority=c.r.random() < 0.5))
al("katz_centrality", lambda g, c: A(g, 0.05, c.r.choice([1.0, c.fvec()]), nstart=c.maybe(c.fvec())))
al("eigenvector_centrality", lambda g, c: A(g, nstart=c.maybe(c.fvec())))
al("single_source_bellman_ford_path_length", lambda g, c: A(g, c.node(), cutoff=c.cut()))
al("bellman_ford_path_lengths", lambda g, c: A(g, c.maybe(c.nodes(1)), expand_output=c.r.random() < 0.5))
al("all_pairs_shortest_path_length", lambda g, c: A(g, c.cut(), nodes=c.maybe(c.nodes(1)), expand_output=c.r.random() < 0.5))
al("floyd_warshall", lambda g, c: A(g, is_weighted=c.r.random() < 0.5))
al("floyd_warshall_predecessor_and_distance", lambda g, c: A(g, is_weighted=c.r.random() < 0.5))
for nm in ("single_source_shortest_path_length", "single_target_shortest_path_length"):
    al(nm, lambda g, c: A(g, c.node(), c.cut()))
al("descendants", lambda g, c: A(g, c.node()))
al("ancestors", lambda g, c: A(g, c.node()))
al("node_connected_component", lambda g, c: A(g, c.node()), "U")
al("tournament_matrix", lambda g, c: A(g), "D")
al("score_sequence", lambda g, c: A(g), "D")
li = lambda nm, f, kind="": t("linalg." + nm, f, kind, getattr(linalg, nm))
li("adjacency_matrix", lambda g, c: A(g, c.maybe(c.nodes(1)), c.r.choice([None, float]), is_weighted=c.r.random() < 0.5))
for nm in ("laplacian_matrix", "normalized_laplacian_matrix"):
    li(nm, lambda g, c: A(g, c.maybe(c.nodes(1)), is_weighted=c.r.random() < 0.5))
li("modularity_matrix", lambda g, c: A(g, c.maybe(c.nodes(1)), is_weighted=c.r.random() < 0.5), "U")
li("directed_modularity_matrix", lambda g, c: A(g, c.maybe(c.nodes(1)), is_weighted=c.r.random() < 0.5), "D")
li("bethe_hessian_matrix", lambda g, c: A(g, None, c.maybe(c.nodes(1))), "U")
# conversions
t("to_networkx", lambda g, c: A(g), fn=lambda g: g.to_networkx())
t("to_undirected", lambda g, c: A(g, c.r.random() < 0.5), "D", fn=lambda g, r: g.to_undirected(reciprocal=r))
t("dict_to_vector", lambda g, c: A(g, c.nvec()), fn=lambda g, d: g.dict_to_vector(d))
t("list_to_vector", lambda g, c: A(g, c.nodes(1)), fn=lambda g, d: g.list_to_vector(d))
t("set_to_vector", lambda g, c: A(g, set(c.nodes())), fn=lambda g, d: g.set_to_vector(d))
t("set_to_vector extra", lambda g, c: A(g, set(c.nodes()) | {"extra"}), fn=lambda g, d: g.set_to_vector(d, ignore_extra=True))
t("set_to_vector extra list", lambda g, c: A(g, c.nodes() + ["extra"]), fn=lambda g, d: g.set_to_vector(d, ignore_extra=True))
t("list_to_ids", lambda g, c: A(g, c.nodes()), fn=lambda g, d: g.list_to_ids(d))
t("vector_to_dict", lambda g, c: A(g, c.vec()), fn=lambda g, v: g.vector_to_dict(v))
t("vector_to_list", lambda g, c: A(g, c.vec()), fn=lambda g, v: g.vector_to_list(v))
t("vector_to_set", lambda g, c: A(g, c.vec()), fn=lambda g, v: g.vector_to_set(v))
t("matrix_to_dicts", lambda g, c: A(g, g._A), fn=lambda g, m: g.matrix_to_dicts(m))
t("matrix_to_dicts T", lambda g, c: A(g, g._A.T), fn=lambda g, m: g.matrix_to_dicts(m))
NAMES = {d: [k for k, (f, kind, _) in T.items() if kind in ("", "D" if d else "U")] for d in (True, False)}


def gen2(rng):
    c = gen(rng, maxn=6, minn=1)
    if rng.random() < 0.4:
        c["g"]["edges"] = [[a, b, abs(w)] for a, b, w in c["g"]["edges"]]
    d = c["g"]["directed"]
    pool = rng.sample(NAMES[d], min(3, len(NAMES[d])))
    c["ops"] = [[rng.choice(pool), rng.randrange(10**6), rng.random() < 0.5] for _ in range(rng.randint(1, 3))]
    c["h"] = gen_graph(rng, directed=d, n=c["g"]["n"] if rng.random() < 0.6 else None, maxn=5, minn=1)
    if rng.random() < 0.6 and c["h"]["n"] == c["g"]["n"]:
        c["h"]["labels"], c["h"]["lseed"] = c["g"]["labels"], c["g"]["lseed"]
    return c


def plain(v, depth=0):
    """comparable content of arguments and results"""
    if isinstance(v, Graph) or isinstance(v, DiGraph):
        return (type(v).__name__, list(v._key_to_id.items()), sorted(mat(v._A).items()))
    if isinstance(v, (NodeMap, VectorMap, VectorNodeMap, NodeNodeMap)):
        return {repr(k): plain(x) for k, x in v.items()}
    if isinstance(v, NodeSet):
        return sorted(map(repr, v))
    if isinstance(v, Vector):
        return ("V", v.size, str(v.dtype), sorted(vec(v).items()))
    if isinstance(v, Matrix):
        return ("M", v.nrows, v.ncols, sorted(mat(v).items()))
    if isinstance(v, gb.core.matrix.TransposedMatrix):
        return plain(v.T)
    if hasattr(v, "parent"):
        return plain(v.parent)
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, dict):
        return {repr(k): plain(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted(map(repr, v))
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, Scalar):
        return v.value
    if isinstance(v, nx.Graph):
        return (list(v.nodes(data=True)), sorted(map(repr, v.edges(data=True))))
    return py(v) if not hasattr(v, "__dict__") else repr(type(v))


def eq(a, b):
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(a, b, 1e-6) or a == b
    return a == b


def spoil(v):
    """what a caller may do to a result"""
    if isinstance(v, (tuple, list)):
        for x in v:
            spoil(x)
    elif isinstance(v, NodeSet):
        for k in list(v.id_to_key.values()):
            v.add(k)
        v.clear()
    elif isinstance(v, NodeMap):
        for k in list(v._key_to_id):
            if not v._values_are_keys:
                v[k] = 99
        v.clear()
    elif isinstance(v, (VectorMap, VectorNodeMap, NodeNodeMap)):
        if isinstance(v, (VectorNodeMap, NodeNodeMap)):
            for k in list(v):
                if v.matrix.ncols == 0:
                    continue
                if isinstance(v, NodeNodeMap) and v._values_are_keys:
                    continue
                spoil(v[k])
        v.clear()
    elif isinstance(v, Vector):
        if v.size:
            v[:] = 1
        v.clear()
    elif isinstance(v, Matrix):
        if v.nrows and v.ncols:
            v[:, :] = 1
        v.clear()
    elif isinstance(v, (dict, set)):
        v.clear()
    elif isinstance(v, np.ndarray):
        v[...] = 0
    elif isinstance(v, Graph) or isinstance(v, DiGraph):
        spoil(v.matrix)
        v.graph["spoilt"] = 1
        v._cache.clear()


def invoke(f, g, ctx):
    fn = f[2]
    args, kw = f[0](g, ctx)
    before = [plain(a) for a in args] + [plain(v) for v in kw.values()]
    with np.errstate(all="ignore"):
        try:
            r = fn(*args, **kw)
            if isinstance(r, (types.GeneratorType, zip, map, filter)):
                r = list(r)
            out = ("value", plain(r))
        except Exception as e:
            r, out = None, ("raises", type(e).__name__)
    return r, out, args, kw, before


def run(c):
    x = X(c["g"])
    g = x.build()
    y = X(c["h"])
    h = y.build()
    heat(g, c["heat"])
    s, sh = Snapshot(g), Snapshot(h)
    first = []
    for name, seed, mut in c["ops"]:
        f = T[name]
        if f[2] is None:
            f = (f[0], f[1], {"score_sequence": nxapi.tournament.score_sequence, "mutual_weight": nxapi.structuralholes.mutual_weight, "tournament_matrix": nxapi.tournament.tournament_matrix, "is_tournament": nxapi.tournament.is_tournament}.get(name) or getattr(nxapi, name))
        r, out, args, kw, before = invoke(f, g, Ctx(x, y, h, seed))
        first.append((name, f, seed, out))
        after = [plain(a) for a in args] + [plain(v) for v in kw.values()]
        if not all(eq(a, b) for a, b in zip(before, after)):
            raise Fail(f"{name}: argument changed", f"{before} became {after}")
        s.check(name)
        sh.check(f"{name} (second graph)")
        if mut:
            spoil(r)
            s.check(f"{name}: result shares storage")
            sh.check(f"{name} (second graph): result shares storage")
        for G, q in ((g, x), (h, y)):
            for k, v in list(G._cache.items()):
                if q.dtype == "bool" and str(k).startswith("plus") or str(k).startswith("times"):
                    continue  # no defined meaning / beyond machine integers
                if isinstance(k, str) and (k in c01.FIXED + c01.DIR + c01.UND or k.endswith(c01.VECTORS) or k.endswith("_diagonal") or k[:-1].endswith("_element")):
                    if not (k == "iso_value" and v is None):
                        c01.check_one(f"{name}: remembered {c01.canon(k, q.directed)}" + (" after the caller changed the result" if mut else ""), q, G, k, v, None)
    # the same calls answer the same again
    for name, f, seed, out in first:
        _, again, *_ = invoke(f, g, Ctx(x, y, h, seed))
        if out[0] != again[0] or not eq(out[1], again[1]):
            raise Fail(f"{name}: a second call answers differently", f"{out} then {again}")
    P = [p for p in c01.names(x.directed, x.dtype) if not p.startswith(("any", "times"))]
    r = random.Random(c["ops"][0][1] if c["ops"] else 0)
    for p in r.sample(P, 6):
        try:
            v = g.get_property(p)
        except Exception as e:
            raise Fail(f"property {p} fails after {c['ops'][-1][0] if c['ops'] else ''}", f"{type(e).__name__}: {e}")
        c01.check_one(f"property {p} after {'+'.join(sorted({o[0] for o in c['ops']}))}", x, g, p, v, None)


CHECKS = [Check("calls leave graph and arguments alone", gen2, run)]
if __name__ == "__main__":
    main(CHECKS)
