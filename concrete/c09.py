from common import *
from c10 import gen, setup

A_ = alg


def sub(r, labels, p=None):
    p = r.choice([0.2, 0.5, 0.8, 1.0]) if p is None else p
    return {k for k in labels if r.random() < p}


def noloop(x):
    if not x.directed and any(i == j for i, j in x.E):
        raise Skip


def gen2(rng, **k):
    c = gen(rng, dtype=k.pop("dtype", None) or rng.choice(["int", "float", "bool", "float"]), **k)
    c["seed"] = rng.randrange(10**6)
    return c


def arcs(x, S, T, both):
    """{(u, v): w}: arcs from S to T (ids); undirected: each edge once, read in an order that goes from S to T"""
    return {(i, j): w for (i, j), w in x.E.items() if i in S and j in T}


def cutw(x, S, T, weighted):
    w_ = (lambda w: w) if weighted else (lambda w: 1)
    if x.directed:
        return sum(w_(w) for (i, j), w in x.E.items() if i in S and j in T) + sum(w_(w) for (i, j), w in x.E.items() if i in T and j in S)
    return sum(w_(w) for (i, j), w in x.E.items() if i < j and (i in S and j in T or j in S and i in T))


def sets(c, x):
    r = random.Random(c["seed"])
    S = sub(r, x.labels)
    T = None if r.random() < 0.4 else sub(r, x.labels)
    if T is not None and r.random() < 0.4:
        T = T - S
    extra = r.random() < 0.2
    ids = lambda Z: {x.idx[k] for k in Z}
    return r, S, T, ids(S), (set(range(x.n)) - ids(S)) if T is None else ids(T), extra


def boundary(c):
    x, g, s = setup(c)
    noloop(x)
    r, S, T, si, ti, extra = sets(c, x)
    S2 = S | {"not a node"} if extra else S
    got = list(nxapi.edge_boundary(g, S2, T) if T is not None else nxapi.edge_boundary(g, S2))
    L = x.labels
    want = {(L[i], L[j]) for i, j in arcs(x, si, ti, False)}
    if x.directed:
        same("edge_boundary", set(got), want)
        if len(got) != len(want):
            raise Fail("edge_boundary repeats edges", f"{got}")
    else:
        same("edge_boundary", {frozenset(e) for e in got}, {frozenset(e) for e in want})
        if any(e not in want for e in got):
            raise Fail("edge_boundary orientation", f"{got} {want}")
        if len(got) != len({frozenset(e) for e in got}):
            raise Fail("edge_boundary repeats edges", f"{got}")
    gotw = list(nxapi.edge_boundary(g, S, T, data=True))
    if {e[:2] for e in gotw} != set(got) or any(len(e) != 3 or set(e[2]) != {"weight"} or not close(py(e[2]["weight"]), x.E[x.idx[e[0]], x.idx[e[1]]]) for e in gotw):
        raise Fail("edge_boundary data", f"{gotw}")
    nb = nxapi.node_boundary(g, S2)
    out = {j for i in si for j in x.out(i)} - si
    same("node_boundary", set(nb), {L[j] for j in out})
    if T is not None:
        same("node_boundary within", set(nxapi.node_boundary(g, S, T | {"nope"} if extra else T)), {L[j] for j in out & ti})
    s.check("boundary")


def cuts(c):
    x, g, s = setup(c)
    noloop(x)
    r, S, T, si, ti, extra = sets(c, x)
    W = x.dtype != "bool"
    for w in ((None, "weight") if W else (None,)):
        sz = cutw(x, si, ti, w)
        vol = lambda Z: sum((x.E[i, j] if w else 1) for i, j in x.E if i in Z)
        same("cut_size", nxapi.cut_size(g, S, T, weight=w), sz)
        same("volume", nxapi.volume(g, S, weight=w), vol(si))
        vs, vt = vol(si), vol(ti)
        if vs and vt:
            same("normalized_cut_size", nxapi.normalized_cut_size(g, S, T, weight=w), sz * (1 / vs + 1 / vt))
        if min(vs, vt):
            same("conductance", nxapi.conductance(g, S, T, weight=w), sz / min(vs, vt))
        if si and ti:
            same("edge_expansion", nxapi.edge_expansion(g, S, T, weight=w), sz / min(len(si), len(ti)))
        m = len(x.E) if x.directed else len(x.E) // 2
        if m:
            same("mixing_expansion", nxapi.mixing_expansion(g, S, T, weight=w), sz / (2 * m))
    if si:
        nb = {j for i in si for j in x.out(i)}
        same("node_expansion", nxapi.node_expansion(g, S), len(nb) / len(si))
        same("boundary_expansion", nxapi.boundary_expansion(g, S), len(nb - si) / len(si))
    s.check("cuts")


def community(c):
    x, g, s = setup(c)
    noloop(x)
    r = random.Random(c["seed"])
    k = r.randint(1, 3)
    part = [set() for _ in range(k)]
    for v in x.labels:
        part[r.randrange(k)].add(v)
    part = [p for p in part if p]
    where = {x.idx[v]: b for b, p in enumerate(part) for v in p}
    half = 1 if x.directed else 2
    intra = sum(where[i] == where[j] for i, j in x.E) // half
    inter = sum(where[i] != where[j] for i, j in x.E) // half
    P = list(part)
    same("intra_community_edges", nxapi.community.quality.intra_community_edges(g, P), intra)
    same("inter_community_edges", nxapi.community.quality.inter_community_edges(g, P), inter)
    s.check("community")


def nxref(c):
    """the definitions used here against NetworkX itself (conversion path included)"""
    x = X(c["g"])
    noloop(x)
    if x.dtype == "bool":
        raise Skip
    h = x.nx()
    r, S, T, si, ti, extra = sets(c, x)
    if T is None:
        T = set(x.labels) - S
    if x.directed:
        T = T - S  # overlapping directed boundaries are read differently by NetworkX
    for w in (None, "weight"):
        a = nx.cut_size(h, S, T, weight=w)
        same("cut_size from networkx", nxapi.cut_size(h, S, T, weight=w), a)
        same("volume from networkx", nxapi.volume(h, S, weight=w), nx.volume(h, S, weight=w))


CHECKS = [Check("boundary", gen2, boundary, 1.5), Check("cuts", gen2, cuts, 2), Check("community", gen2, community), Check("nxref", gen2, nxref)]
if __name__ == "__main__":
    main(CHECKS)
