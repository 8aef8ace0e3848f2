from common import *
from c10 import gen
from graphblas_algorithms.classes.digraph import to_graph, to_directed_graph
from graphblas_algorithms.classes.graph import to_undirected_graph
from graphblas_algorithms.interface import Dispatcher


def gen_nx(rng):
    c = gen(rng, maxn=7)
    c["missing"] = [rng.random() < 0.3 for _ in c["g"]["edges"]]
    c["attr"] = rng.choice(["weight", "weight", "cost"])
    c["shuffle"] = rng.randrange(10**6)
    c["mixed"] = rng.random() < 0.2
    return c


def build_nx(c):
    x = X(c["g"])
    g = nx.DiGraph() if x.directed else nx.Graph()
    g.add_nodes_from(x.labels)
    W = {}
    for (i, j, w), miss in zip(c["g"]["edges"], c["missing"]):
        w = DT[x.dtype](w)
        if c["mixed"] and x.dtype == "int" and i % 2:
            w = w + 0.5
        if miss:
            g.add_edge(x.labels[i], x.labels[j])
            w = 1
        else:
            g.add_edge(x.labels[i], x.labels[j], **{c["attr"]: w})
        W[x.labels[i], x.labels[j]] = w
        if not x.directed:
            W[x.labels[j], x.labels[i]] = w
    return x, g, W


def same_nx(site, h, g, W, attr):
    if list(h.nodes) != list(g.nodes):
        raise Fail(f"{site}: nodes", f"{list(h.nodes)} expected {list(g.nodes)}")
    if h.is_directed() != g.is_directed() or h.is_multigraph():
        raise Fail(f"{site}: kind", type(h).__name__)
    got = {}
    for a, b, d in h.edges(data=True):
        got[a, b] = d.get(attr) if attr else 1
        if not h.is_directed():
            got[b, a] = got[a, b]
    same_dict(f"{site}: edges", got, W if attr else {e: 1 for e in W})


def roundtrip(c):
    x, g, W = build_nx(c)
    cls = ga.DiGraph if x.directed else ga.Graph
    at = c["attr"]
    ones = {e: 1 for e in W}
    for nm, G, w in (("from_networkx", cls.from_networkx(g, weight=at), W), ("from_networkx unweighted", cls.from_networkx(g), ones), ("to_graph", to_graph(g, weight=at), W),
                     ("to_graph float", to_graph(g, weight=at, dtype=float), W), ("convert_from_nx", Dispatcher.convert_from_nx(g, edge_attrs={at: 1}), W),
                     ("convert_from_nx weight", Dispatcher.convert_from_nx(g, weight=at), W), ("convert_from_nx plain", Dispatcher.convert_from_nx(g), ones),
                     (("to_directed_graph", to_directed_graph(g, weight=at), W) if x.directed else ("to_undirected_graph", to_undirected_graph(g, weight=at), W))):
        if type(G) is not cls:
            raise Fail(nm, type(G).__name__)
        lab, E = graph_of(G)
        if lab != list(g.nodes):
            raise Fail(f"{nm}: nodes", f"{lab} expected {list(g.nodes)}")
        same_dict(f"{nm}: edges", E, w)
        heat(G, c["heat"])
        same_nx(f"{nm} and back", G.to_networkx(), g, w, "weight")
        same_nx(f"{nm} and back to another attribute", G.to_networkx(edge_attribute="q"), g, w, "q")
        same_nx(f"{nm} and back without attribute", G.to_networkx(edge_attribute=None), g, w, None)
        h = Dispatcher.convert_to_nx(G)
        same_nx(f"{nm} and convert_to_nx", h, g, w, "weight")
        if len(G) != len(g) or G.number_of_nodes() != len(g) or G.order() != len(g) or list(G) != list(g) or any(k not in G for k in g) or ("nope",) in G or [1] in G:
            raise Fail(f"{nm}: container methods", "")
    # only one attribute in use: it is carried over; a graph without attributes has weights 1
    names = {k for _, _, d in g.edges(data=True) for k in d}
    lab, E = graph_of(Dispatcher.convert_from_nx(g, preserve_edge_attrs=True))
    same_dict("convert_from_nx preserve_edge_attrs", E, W if names else ones)
    y = g.copy()
    y.graph["title"] = "t"
    if Dispatcher.convert_from_nx(y, preserve_graph_attrs=True).graph.get("title") != "t":
        raise Fail("convert_from_nx preserve_graph_attrs", "lost")


def gen_conv(rng):
    c = gen(rng, maxn=7)
    n = c["g"]["n"]
    c["pick"] = rng.sample(range(n), rng.randint(0, n))
    c["vals"] = [rng.choice([0, 1, 2, 5, -3]) for _ in range(n)]
    c["dtype"] = rng.choice(["int", "float", "none", "bool"])
    c["fill"] = rng.choice([None, None, 0, 7])
    c["sub"] = rng.randrange(10**6)
    c["warm"] = rng.random() < 0.5
    return c


def conv(c):
    x = X(c["g"])
    g = x.build()
    if c["warm"]:
        g.id_to_key
    n, L = x.n, x.labels
    ids = c["pick"]
    keys = [L[i] for i in ids]
    dt = None if c["dtype"] == "none" else DT[c["dtype"]]
    cast = dt or (lambda v: v)
    d = {k: cast(c["vals"][i]) for k, i in zip(keys, ids)}
    want = {i: cast(c["vals"][i]) for i in ids}
    v = g.dict_to_vector(d, dtype=dt)
    if v.size != n:
        raise Fail("dict_to_vector: size", str(v.size))
    same_dict("dict_to_vector", vec(v), want)
    same_dict("vector_to_dict", g.vector_to_dict(v), d)
    if type(next(iter(g.vector_to_dict(v)), None)) is not type(next(iter(g.vector_to_dict(v)), None)):
        raise Fail("vector_to_dict", "")
    same_dict("dict_to_vector: size", vec(g.dict_to_vector(d, size=n + 3, dtype=dt)), want)
    if dt is not None and d and v.dtype != gb.dtypes.lookup_dtype(dt):
        raise Fail("dict_to_vector: dtype", str(v.dtype))
    # lists
    w = g.list_to_vector(keys)
    same_dict("list_to_vector", vec(w), {i: True for i in ids})
    if ids:
        same_dict("list_to_vector values", vec(g.list_to_vector(keys, dt, values=[d[k] for k in keys])), want)
    same("list_to_mask", set(vec(g.list_to_mask(keys).parent)), set(ids))
    m = g.list_to_mask(keys)
    t = Vector(int, n)
    t(m) << 3
    same_dict("list_to_mask", vec(t), {i: 3 for i in ids})
    same("list_to_ids", [int(k) for k in g.list_to_ids(keys)], ids)
    same("list_to_keys", g.list_to_keys(ids), keys) if ids else None
    if g.list_to_keys(ids) != keys or g.list_to_keys(np.array(ids, dtype=int).tolist()) != keys:
        raise Fail("list_to_keys", f"{g.list_to_keys(ids)} expected {keys}")
    for f in (g.dict_to_vector, g.list_to_vector, g.list_to_mask, g.list_to_ids, g.list_to_keys, g.set_to_vector):
        if f(None) is not None:
            raise Fail(f.__name__, "None")
    same_dict("set_to_vector", vec(g.set_to_vector(set(keys))), {i: True for i in ids})
    same_dict("set_to_vector of a list", vec(g.set_to_vector(keys)), {i: True for i in ids})
    for e in (set(keys) | {("no",), "nope"}, keys + [("no",)], frozenset(keys) | {"nope"}):
        same_dict("set_to_vector ignore_extra", vec(g.set_to_vector(e, ignore_extra=True)), {i: True for i in ids})
        raises("set_to_vector of unknown labels", KeyError, g.set_to_vector, e)
    bad = keys + ["nope"]
    for f in (g.list_to_vector, g.list_to_mask, g.list_to_ids):
        raises(f"{f.__name__} of unknown labels", KeyError, f, bad)
    raises("dict_to_vector of unknown labels", KeyError, g.dict_to_vector, {**d, "nope": 1})
    raises("list_to_keys of unknown ids", KeyError, g.list_to_keys, [n])
    # vectors to labels
    if g.vector_to_list(v) != [L[i] for i in sorted(ids)]:
        raise Fail("vector_to_list", f"{g.vector_to_list(v)} expected {[L[i] for i in sorted(ids)]}")
    same("vector_to_set", g.vector_to_set(v), set(keys))
    same("vector_to_nodeset", set(g.vector_to_nodeset(v)), set(keys))
    r = random.Random(c["sub"])
    vk = {i: r.randrange(n) for i in ids}
    u = Vector(int, n)
    for i, k in vk.items():
        u[i] = k
    if g.vector_to_list(u, values_are_keys=True) != [L[vk[i]] for i in sorted(ids)]:
        raise Fail("vector_to_list values_are_keys", "")
    got = dict(g.vector_to_nodemap(u, values_are_keys=True))
    if got != {L[i]: L[k] for i, k in vk.items()}:
        raise Fail("vector_to_nodemap values_are_keys", f"{got}")
    full = {k: d.get(k, c["fill"]) for k in L} if c["fill"] is not None else d
    if c["dtype"] != "bool":
        same_dict("vector_to_nodemap", dict(g.vector_to_nodemap(v.dup(), fill_value=c["fill"])), full)
        same_dict("vector_to_dict fill", g.vector_to_dict(v.dup(), fill_value=c["fill"]), full)
        mk = sorted(set(ids) | {i for i in range(n) if r.random() < 0.4})
        msk = g.list_to_mask([L[i] for i in mk])
        part = {L[i]: d.get(L[i], c["fill"]) for i in mk} if c["fill"] is not None else d
        same_dict("vector_to_dict mask", g.vector_to_dict(v.dup(), mask=msk, fill_value=c["fill"]), part)
        same_dict("vector_to_nodemap mask", dict(g.vector_to_nodemap(v.dup(), mask=msk, fill_value=c["fill"])), part)
    # renumbering
    if g.renumber_key_to_id(ids) != {k: i for i, k in enumerate(keys)}:
        raise Fail("renumber_key_to_id", "")
    ind = r.sample(range(n), r.randint(0, n))
    same_dict("renumber_key_to_id", g.renumber_key_to_id(ind), {L[k]: i for i, k in enumerate(ind)})


def gen_mats(rng):
    c = gen(rng, maxn=6)
    n = c["g"]["n"]
    c["vk"] = rng.random() < 0.3
    iso = rng.random() < 0.3
    c["misof"] = iso
    c["ent"] = [[i, j, rng.randrange(n) if c["vk"] else rng.choice([0, 1, 2, 5, -3])] for i in range(n) for j in range(n) if rng.random() < 0.35]
    if iso:
        c["ent"] = [[i, j, c["ent"][0][2]] for i, j, _ in c["ent"]]
    c["T"] = rng.random() < 0.3
    return c


def mats(c):
    x = X(c["g"])
    g = x.build()
    n, L, vk = x.n, x.labels, c["vk"]
    e = c["ent"]
    dt = int if vk else float
    if not e:
        A = Matrix(dt, n, n)
    elif c["misof"]:
        A = Matrix.from_coo([a for a, b, w in e], [b for a, b, w in e], e[0][2], dtype=dt, nrows=n, ncols=n)
    else:
        A = Matrix.from_coo([a for a, b, w in e], [b for a, b, w in e], [w for a, b, w in e], dtype=dt, nrows=n, ncols=n)
    ent = [(a, b, L[w] if vk else float(w)) for a, b, w in e]
    before = mat(A)
    if c["T"]:
        B, ent = A.T, [(b, a, w) for a, b, w in ent]
    else:
        B = A
    for r in (False, True):
        for q in (False, True):
            want = {}
            for a, b, w in ent:
                want.setdefault(a if r else L[a], {})[b if q else L[b]] = w
            want = {k: v for k, v in want.items()}
            if c["T"]:
                # rows and columns are exchanged by transposing, the mapping is still row -> column -> value
                pass
            got = g.matrix_to_dicts(B, use_row_index=r, use_column_index=q, values_are_keys=vk)
            if got != want:
                raise Fail("matrix_to_dicts" + (" of a transposed matrix" if c["T"] else "") + (" of an iso-valued matrix" if c["misof"] else ""), f"row_index={r} column_index={q}: {got} expected {want}")
    if c["T"]:
        return
    want = {}
    for a, b, w in ent:
        want.setdefault(L[a], {})[L[b]] = w
    got = {k: dict(v) for k, v in g.matrix_to_nodenodemap(A, values_are_keys=vk).items()}
    if got != want:
        raise Fail("matrix_to_nodenodemap", f"{got} expected {want}")
    if not vk:
        got = {k: {L[b]: w for b, w in v.items()} for k, v in g.matrix_to_vectornodemap(A).items()}
        if got != want:
            raise Fail("matrix_to_vectornodemap", f"{got} expected {want}")
        got = {k: dict(v) for k, v in g.matrix_to_nodenodemap(A, fill_value=9.0).items()}
        if got != {a: {b: want.get(a, {}).get(b, 9.0) for b in L} for a in L}:
            raise Fail("matrix_to_nodenodemap fill", f"{got}")
    if mat(A) != before:
        raise Fail("matrix conversion changed the matrix", "")


CHECKS = [Check("round trip", gen_nx, roundtrip), Check("label conversions", gen_conv, conv), Check("matrix conversions", gen_mats, mats)]
if __name__ == "__main__":
    main(CHECKS)
