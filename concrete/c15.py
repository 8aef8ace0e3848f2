from common import *
from c10 import gen, setup
from c05 import gen5
from itertools import combinations


def dist(x, i, weighted, both):
    """Bellman-Ford on the plain description (non-negative weights)"""
    E = dict(x.E)
    if both:
        for (a, b), w in x.E.items():
            E[b, a] = w
    d = {i: 0}
    for _ in range(x.n):
        for (a, b), w in E.items():
            if a in d and d[a] + (w if weighted else 1) < d.get(b, INF):
                d[b] = d[a] + (w if weighted else 1)
    return d


def gen_ego(rng):
    w = rng.random() < 0.5
    c = gen5(rng) if not w else gen(rng, weights=rng.choice(["pos", "pos", "small"]), maxn=9, density=rng.choice([None, 0.2, 0.3]))
    c["weighted"] = w
    if w:
        c["g"]["edges"] = [[a, b, v if v >= 0 else -v] for a, b, v in c["g"]["edges"]]
        if c["g"]["directed"] and rng.random() < 0.7:
            seen = {}
            for e in c["g"]["edges"]:
                k = frozenset(e[:2])
                e[2] = seen.setdefault(k, e[2])
    c["radius"] = rng.choice([0, 1, 1, 2, 2, 3, 5, 1.5, 2.5]) if w else rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
    c["center"] = rng.random() < 0.7
    c["undirected"] = rng.random() < 0.4
    c["seed"] = rng.randrange(10**6)
    return c


def ego(c):
    x, g, s = setup(c)
    if x.n == 0:
        raise Skip
    wt = c["weighted"]
    both = c["undirected"] and x.directed
    if both and wt and any((b, a) in x.E and x.E[b, a] != w for (a, b), w in x.E.items()):
        raise Skip  # weight of a merged edge is not determined
    r = random.Random(c["seed"])
    for i in r.sample(range(x.n), min(x.n, 3)):
        d = dist(x, i, wt, both)
        keep = {j for j, v in d.items() if v <= c["radius"]}
        if not c["center"]:
            keep.discard(i)
        h = nxapi.ego_graph(g, x.labels[i], radius=c["radius"], center=c["center"], undirected=c["undirected"], distance="weight" if wt else None)
        if type(h) is not type(g):
            raise Fail("ego_graph type", type(h).__name__)
        lab, E = graph_of(h)
        same("ego_graph nodes", set(lab), {x.labels[j] for j in keep})
        same_dict("ego_graph edges", E, {(x.labels[a], x.labels[b]): w for (a, b), w in x.E.items() if a in keep and b in keep})
        if h._A.dtype != g._A.dtype:
            raise Fail("ego_graph dtype", f"{h._A.dtype}")
        for p in ("has_self_edges", "is_iso"):
            h.get_property(p)
        # the result is a graph of its own
        same("degree of ego_graph", dict(zip(lab, [sum(1 for a, b in E if a == u) for u in lab])), {u: sum(1 for (a, b) in x.E if x.labels[a] == u and a in keep and b in keep) for u in lab})
    for bad in ("not a node",):
        try:
            nxapi.ego_graph(g, bad)
        except Exception:
            pass
        else:
            raise Fail("ego_graph of a missing node", "no error")
    s.check("ego_graph")


def gen_truss(rng):
    c = gen(rng, directed=False, density=rng.choice([0.3, 0.5, 0.7, 0.9]), maxn=10)
    if rng.random() < 0.4:
        # cliques glued along nodes and edges: the peeling takes several rounds
        n = rng.randint(4, 11)
        p = list(range(n))
        rng.shuffle(p)
        E = set()
        for _ in range(rng.randint(1, 3)):
            q = rng.sample(p, min(n, rng.randint(3, 6)))
            E |= {(min(a, b), max(a, b)) for a, b in combinations(q, 2) if rng.random() < 0.9}
        for _ in range(rng.randint(0, 3)):
            a, b = rng.randrange(n), rng.randrange(n)
            E.add((min(a, b), max(a, b)))
        c["g"] = {"n": n, "directed": False, "dtype": rng.choice(["bool", "int"]), "edges": [[a, b, 1] for a, b in sorted(E)], "labels": rng.choice(["perm", "mixed", "str"]), "lseed": rng.randrange(99), "iso": False}
        c["heat"] = gen_heat(rng, False)
    c["k"] = rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 6])
    return c


def truss(c):
    x, g, s = setup(c)
    k = c["k"]
    E = {e for e in x.E if e[0] != e[1]}
    while True:
        bad = {(a, b) for a, b in E if sum(1 for t in range(x.n) if (a, t) in E and (b, t) in E) < k - 2}
        if not bad:
            break
        E -= bad
    h = nxapi.k_truss(g, k)
    lab, F = graph_of(h)
    same("k_truss edges", {f for f in F if True}, {(x.labels[a], x.labels[b]) for a, b in E})
    same("k_truss nodes", set(lab), {x.labels[a] for e in E for a in e})
    if len(lab) != len(set(lab)):
        raise Fail("k_truss nodes", "repeated")
    if k < 3 and not c["g"]["dtype"] == "bool":
        same_dict("k_truss weights", F, {(x.labels[a], x.labels[b]): x.E[a, b] for a, b in E})
    s.check("k_truss")


CHECKS = [Check("ego_graph", gen_ego, ego, 1), Check("k_truss", gen_truss, truss, 1)]
if __name__ == "__main__":
    main(CHECKS)
