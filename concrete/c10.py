from common import *


def gen(rng, directed=None, **k):
    g = gen_graph(rng, directed=directed, **k)
    return {"g": g, "heat": gen_heat(rng, g["directed"])}


def setup(c):
    x = X(c["g"])
    g = x.build()
    heat(g, c.get("heat", []))
    return x, g, Snapshot(g)


def degs(x):
    o = [len(x.out(i)) for i in range(x.n)]
    return o, [len(x.inn(i)) for i in range(x.n)]


def noloop_u(x):
    if not x.directed and any(i == j for i, j in x.E):
        raise Skip


def centrality(c):
    x, g, s = setup(c)
    noloop_u(x)
    o, i = degs(x)
    f = lambda d: {x.labels[k]: (1.0 if x.n <= 1 else d[k] / (x.n - 1)) for k in range(x.n)}
    tot = [a + b for a, b in zip(o, i)] if x.directed else o
    same("degree_centrality", nxapi.degree_centrality(g), f(tot))
    if x.directed:
        same("in_degree_centrality", nxapi.in_degree_centrality(g), f(i))
        same("out_degree_centrality", nxapi.out_degree_centrality(g), f(o))
    s.check("degree_centrality")


def isol(c):
    x, g, s = setup(c)
    iso = {x.labels[k] for k in range(x.n) if not x.out(k) and not x.inn(k)}
    same("isolates", set(nxapi.isolates(g)), iso)
    same("number_of_isolates", nxapi.number_of_isolates(g), len(iso))
    for k in x.labels:
        same("is_isolate", nxapi.is_isolate(g, k), k in iso)
    s.check("isolates")


def regular(c):
    x, g, s = setup(c)
    noloop_u(x)
    if x.n == 0:
        raise Skip
    o, i = degs(x)
    if x.directed:
        same("is_regular", bool(nxapi.is_regular(g)), len(set(o)) == 1 and len(set(i)) == 1)
    else:
        same("is_regular", bool(nxapi.is_regular(g)), len(set(o)) == 1)
        for k in range(0, 5):
            same("is_k_regular", bool(nxapi.is_k_regular(g, k)), all(d == k for d in o))
    s.check("is_regular")


def gen_regular(rng):
    """often regular"""
    n = rng.randint(1, 7)
    d = rng.random() < 0.5
    E = set()
    for s in rng.sample(range(1, n + 1), rng.randint(0, min(3, n))):
        for i in range(n):
            j = (i + s) % n
            if i != j:
                E.add((i, j) if d or i < j else (j, i))
    E = sorted(E)
    if E and rng.random() < 0.4:
        E.remove(rng.choice(E))
    return {"g": {"n": n, "directed": d, "dtype": "int", "edges": [[i, j, 1] for i, j in E], "labels": "perm", "lseed": rng.randrange(99), "iso": False}, "heat": gen_heat(rng, d)}


def recip(c):
    x, g, s = setup(c)
    o, i = degs(x)
    ov = [sum((k, j) in x.E and (j, k) in x.E for j in range(x.n)) for k in range(x.n)]
    val = {x.labels[k]: 2 * ov[k] / (o[k] + i[k]) for k in range(x.n) if o[k] + i[k]}
    for k in x.labels:
        if k in val:
            same("reciprocity of one node", nxapi.reciprocity(g, k), val[k])
        else:
            raises("reciprocity of an isolated node", nx.NetworkXError, nxapi.reciprocity, g, k)
    r = random.Random(c["seed"])
    nodes = [k for k in x.labels if r.random() < 0.6]
    if nodes and nodes not in ([],):
        got = dict(nxapi.reciprocity(g, nodes))
        got = {k: v for k, v in got.items() if v is not None}
        same("reciprocity of nodes", got, {k: v for k, v in val.items() if k in nodes})
    m = len(x.E)
    if m == 0:
        raises("overall_reciprocity of an empty graph", nx.NetworkXError, nxapi.overall_reciprocity, g)
    else:
        two = sum((j, i) in x.E and i != j for i, j in x.E)
        same("overall_reciprocity", nxapi.overall_reciprocity(g), two / m)
        same("reciprocity(None)", nxapi.reciprocity(g), two / m)
    s.check("reciprocity")


def gen_recip(rng):
    c = gen(rng, True, minn=1)
    c["seed"] = rng.randrange(10**6)
    return c


def mutual(c):
    x, g, s = setup(c)
    for a in range(x.n):
        for b in range(x.n):
            same("mutual_weight", nxapi.structuralholes.mutual_weight(g, x.labels[a], x.labels[b]), x.E.get((a, b), 0) + x.E.get((b, a), 0))
    same("mutual_weight of a missing node", nxapi.structuralholes.mutual_weight(g, "not a node", "nor this"), 0)
    if x.n:
        same("mutual_weight of a missing node", nxapi.structuralholes.mutual_weight(g, x.labels[0], "nor this"), 0)
    s.check("mutual_weight")


def smet(c):
    x, g, s = setup(c)
    noloop_u(x)
    o, i = degs(x)
    d = [a + b for a, b in zip(o, i)] if x.directed else o
    w = sum(d[a] * d[b] for a, b in x.E)
    same("s_metric", nxapi.s_metric(g), float(w) if x.directed else w / 2)
    s.check("s_metric")


def gen_tour(rng):
    n = rng.randint(0, 7)
    E = []
    for i in range(n):
        for j in range(i):
            E.append([i, j] if rng.random() < 0.5 else [j, i])
    r = rng.random()
    if E and r < 0.2:
        E.pop(rng.randrange(len(E)))
    elif E and r < 0.4:
        e = rng.choice(E)
        E = [f for f in E if f is not e]
        k = rng.choice(E)[::-1] if E and rng.random() < 0.7 else [e[0], e[0]]
        E.append(k)
    elif E and r < 0.6:
        E.append(rng.choice(E)[::-1])
    elif n and r < 0.7:
        k = rng.randrange(n)
        E.append([k, k])
    dt = rng.choice(["int", "float", "bool"])
    return {"g": {"n": n, "directed": True, "dtype": dt, "edges": [[i, j, weight(rng, dt, "pos")] for i, j in E], "labels": "perm", "lseed": rng.randrange(99), "iso": False},
            "heat": gen_heat(rng, True)}


def tour(c):
    x, g, s = setup(c)
    want = all(((a, b) in x.E) != ((b, a) in x.E) for a in range(x.n) for b in range(a)) and not any(a == b for a, b in x.E)
    same("is_tournament", bool(nxapi.is_tournament(g)), want)
    o, _ = degs(x)
    same("score_sequence", list(nxapi.tournament.score_sequence(g)), sorted(o))
    M = mat(nxapi.tournament.tournament_matrix(g))
    for a in range(x.n):
        for b in range(x.n):
            same("tournament_matrix", M.get((a, b), 0) + 0, x.E.get((a, b), 0) - x.E.get((b, a), 0))
    s.check("tournament")


def gen_path(rng):
    c = gen(rng)
    n = c["g"]["n"]
    ops = []
    for _ in range(4):
        r = rng.random()
        if r < 0.6 and n:
            # a walk
            adj = {}
            for i, j, _w in c["g"]["edges"]:
                adj.setdefault(i, []).append(j)
                if not c["g"]["directed"]:
                    adj.setdefault(j, []).append(i)
            p = [rng.randrange(n)]
            while len(p) < 5 and adj.get(p[-1]) and rng.random() < 0.8:
                p.append(rng.choice(adj[p[-1]]))
            if rng.random() < 0.3:
                p.reverse()
        else:
            p = [rng.randrange(n + 1) for _ in range(rng.randint(0, 4))]
        ops.append(p)
    c["ops"] = ops
    return c


def spath(c):
    x, g, s = setup(c)
    for p in c["ops"]:
        lab = [x.labels[i] if i < x.n else "not a node" for i in p]
        want = len(p) > 0 and all(i < x.n for i in p) and len(set(p)) == len(p) and all((a, b) in x.E for a, b in zip(p, p[1:]))
        same("is_simple_path", bool(nxapi.is_simple_path(g, lab)), want)
    s.check("is_simple_path")


def dom(c):
    x, g, s = setup(c)
    r = random.Random(c["seed"])
    for _ in range(4):
        p = r.random()
        D = {k for k in range(x.n) if r.random() < p}
        lab = [x.labels[k] for k in D] + (["not a node"] if r.random() < 0.2 else [])
        r.shuffle(lab)
        want = all(k in D or any((d, k) in x.E for d in D) for k in range(x.n))
        if x.n == 0:
            continue
        same("is_dominating_set", bool(nxapi.is_dominating_set(g, set(lab) if r.random() < 0.5 else lab)), want)
    s.check("is_dominating_set")


def gen_seed(rng):
    c = gen(rng)
    c["seed"] = rng.randrange(10**6)
    return c


def triad(c):
    x, g, s = setup(c)
    same("is_triad", bool(nxapi.is_triad(g)), x.directed and x.n == 3 and not any(i == j for i, j in x.E))


def gen_triad(rng):
    n = rng.choice([2, 3, 3, 3, 3, 4])
    return gen(rng, rng.random() < 0.7, n=n)


def gen_dag(rng):
    c = gen(rng, True, minn=1, loops=False)
    n = c["g"]["n"]
    o = list(range(n))
    rng.shuffle(o)
    c["g"]["edges"] = [[i, j, w] for i, j, w in c["g"]["edges"] if o[i] < o[j]]
    c["g"]["iso"] = False
    return c


def reach(x, s, rev=False):
    S, todo = {s}, [s]
    while todo:
        a = todo.pop()
        for b in (x.inn(a) if rev else x.out(a)):
            if b not in S:
                S.add(b)
                todo.append(b)
    return S


def lca(c):
    x, g, s = setup(c)
    A = [reach(x, k, True) for k in range(x.n)]
    for a in range(x.n):
        for b in range(x.n):
            com = A[a] & A[b]
            low = {k for k in com if not any(j != k and k in A[j] for j in com)}
            r = nxapi.lowest_common_ancestor(g, x.labels[a], x.labels[b], default="none")
            if not com:
                same("lowest_common_ancestor without common ancestor", r, "none")
            elif r == "none" or x.idx.get(r) not in low:
                raise Fail("lowest_common_ancestor", f"{r!r} not in {[x.labels[k] for k in low]!r}")
    s.check("lowest_common_ancestor")


CHECKS = [
    Check("degree centrality", gen, centrality),
    Check("isolates", gen, isol),
    Check("regular", lambda r: gen_regular(r) if r.random() < 0.6 else gen(r), regular),
    Check("reciprocity", gen_recip, recip, 1.5),
    Check("mutual weight", gen, mutual),
    Check("s_metric", gen, smet),
    Check("tournament", lambda r: gen_tour(r) if r.random() < 0.7 else gen(r, True, maxn=4), tour, 1.2),
    Check("simple path", gen_path, spath),
    Check("dominating set", gen_seed, dom),
    Check("triad", gen_triad, triad, 0.5),
    Check("lowest common ancestor", lambda r: gen_dag(r), lca),
]
if __name__ == "__main__":
    main(CHECKS)
