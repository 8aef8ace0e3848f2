from common import *
from itertools import combinations


def gen(rng, **k):
    k.setdefault("weights", "pos")
    k.setdefault("maxn", 8)
    g = gen_graph(rng, density=rng.choice([None, 0.4, 0.6, 0.8]), **k)
    if g["dtype"] == "bool" or rng.random() < 0.15:
        for e in g["edges"]:
            e[2] = True if g["dtype"] == "bool" else e[2]
    if g["dtype"] != "bool" and rng.random() < 0.4:
        for e in g["edges"]:
            if e[0] == e[1]:
                e[2] = rng.choice([0, -3, 50, e[2]])  # self-loops never count, whatever their weight
                g["iso"] = False
    return {"g": g, "heat": gen_heat(rng, g["directed"], 0.5), "seed": rng.randrange(10**6)}


def cb(w):
    return w ** (1 / 3) if w >= 0 else -((-w) ** (1 / 3))


def setup(c):
    x = X(c["g"])
    g = x.build()
    heat(g, c["heat"])
    r = random.Random(c["seed"])
    nodes = [k for k in x.labels if r.random() < 0.6]
    r.shuffle(nodes)
    return x, g, Snapshot(g), nodes, r


def tri_u(y, i):
    nb = [j for j in y.out(i)]
    return sum((a, b) in y.E for a, b in combinations(nb, 2))


def clus_u(y, i, wt):
    nb = y.out(i)
    d = len(nb)
    if d < 2:
        return 0.0
    if not wt:
        t = tri_u(y, i)
    else:
        m = max(y.E.values())
        f = lambda a, b: y.E[a, b] / m
        t = sum(cb(f(i, a) * f(i, b) * f(a, b)) for a, b in combinations(nb, 2) if (a, b) in y.E)
    return 2 * t / (d * (d - 1))


def clus_d(y, i, wt):
    din, dout = len(y.inn(i)), len(y.out(i))
    tot = din + dout
    rec = len(set(y.inn(i)) & set(y.out(i)))
    den = tot * (tot - 1) - 2 * rec
    m = max(y.E.values()) if y.E else 1
    f = (lambda a, b: cb(y.E[a, b] / m) if (a, b) in y.E else 0.0) if wt else (lambda a, b: float((a, b) in y.E))
    s = lambda a, b: f(a, b) + f(b, a)
    t = sum(s(i, a) * s(i, b) * s(a, b) for a in range(y.n) for b in range(y.n) if a != b and a != i and b != i) / 2
    return t / den if den > 0 and t else 0.0


def triangles(c):
    x, g, s, nodes, r = setup(c)
    y = x.noloops()
    want = {x.labels[i]: tri_u(y, i) for i in range(x.n)}
    if x.n == 0:
        same("triangles of the empty graph", nxapi.triangles(g), {})
        same("transitivity of the empty graph", nxapi.transitivity(g), 0)
        return
    same("triangles", nxapi.triangles(g), want)
    if nodes:
        same("triangles of nodes", nxapi.triangles(g, nodes), {k: want[k] for k in nodes})
    k = r.choice(x.labels)
    same("triangles of one node", nxapi.triangles(g, k), want[k])
    same("total_triangles", alg.total_triangles(g), sum(want.values()) // 3)
    s.check("triangles")


def transit(c):
    x, g, s, nodes, r = setup(c)
    y = x.noloops()
    if x.n == 0:
        return
    if not x.directed:
        t = 2 * sum(tri_u(y, i) for i in range(x.n))
        d = sum(len(y.out(i)) * (len(y.out(i)) - 1) for i in range(x.n))
    else:
        t = sum((i, j) in y.E and (i, k) in y.E and (j, k) in y.E for i in range(x.n) for j in range(x.n) for k in range(x.n) if len({i, j, k}) == 3)
        d = sum(len(y.out(i)) * (len(y.out(i)) - 1) for i in range(x.n))
    for _ in range(2):
        same("transitivity", nxapi.transitivity(g), t / d if t else 0)
    s.check("transitivity")


def clustering(c):
    x, g, s, nodes, r = setup(c)
    if x.n == 0:
        same("clustering of the empty graph", nxapi.clustering(g), {})
        return
    y = x.noloops()
    f = clus_d if x.directed else clus_u
    order = [True, False] if r.random() < 0.5 else [False, True]
    for wt in order:
        want = {x.labels[i]: f(y, i, wt) for i in range(x.n)}
        W = "weight" if wt else None
        w_ = "weighted " if wt else ""
        d_ = "directed " if x.directed else ""
        parts = ["all", "nodes", "one", "avg", "avgn", "avg0", "avgn0"]
        r.shuffle(parts)
        for p in parts:
            if p == "all":
                same(f"{w_}{d_}clustering", nxapi.clustering(g, weight=W), want)
            elif p == "nodes" and nodes:
                same(f"{w_}{d_}clustering of nodes", nxapi.clustering(g, nodes, weight=W), {k: want[k] for k in nodes})
            elif p == "one":
                k = r.choice(x.labels)
                same(f"{w_}{d_}clustering of one node", nxapi.clustering(g, k, weight=W), want[k])
            elif p in ("avg", "avgn"):
                if p == "avgn" and not nodes:
                    continue
                vals = [want[k] for k in (nodes if p == "avgn" else x.labels)]
                same(f"{w_}{d_}average_clustering", nxapi.average_clustering(g, nodes if p == "avgn" else None, weight=W), sum(vals) / len(vals))
            elif p in ("avg0", "avgn0"):
                if p == "avgn0" and not nodes:
                    continue
                vals = [want[k] for k in (nodes if p == "avgn0" else x.labels) if want[k] > 0]
                if vals:
                    same(f"{w_}{d_}average_clustering without zeros", nxapi.average_clustering(g, nodes if p == "avgn0" else None, weight=W, count_zeros=False), sum(vals) / len(vals))
    s.check("clustering")


def square_one(x, v):
    nb = x.out(v)
    sq = pot = 0
    for u, w in combinations(nb, 2):
        q = len((set(x.out(u)) & set(x.out(w))) - {v})
        sq += q
        deg = q + 1
        if (u, w) in x.E:
            deg += 1
        pot += (len(x.out(u)) - deg) + (len(x.out(w)) - deg) + q
    return sq / pot if sq > 0 else 0


def square(c):
    x, g, s, nodes, r = setup(c)
    if x.n == 0:
        same("square_clustering of the empty graph", nxapi.square_clustering(g), {})
        return
    want = {x.labels[i]: square_one(x, i) for i in range(x.n)}
    ch = r.choice([None, "256 MiB", 2, 3])
    same("square_clustering", call("square_clustering", nxapi.square_clustering, g, chunksize=ch), want)
    if nodes:
        same("square_clustering of nodes", call("square_clustering of nodes", nxapi.square_clustering, g, nodes, chunksize=ch), {k: want[k] for k in nodes})
    k = r.choice(x.labels)
    same("square_clustering of one node", nxapi.square_clustering(g, k), want[k])
    s.check("square_clustering")


def gdeg(c):
    x, g, s, nodes, r = setup(c)
    y = x.noloops()
    if x.n == 0:
        same("generalized_degree of the empty graph", nxapi.generalized_degree(g), {})
        return
    want = {}
    for i in range(x.n):
        h = {}
        for j in y.out(i):
            t = len(set(y.out(i)) & set(y.out(j)))
            h[t] = h.get(t, 0) + 1
        want[x.labels[i]] = h
    one = r.choice(x.labels)
    k = x.labels[x.idx[one]]

    def norm(m):
        return {a: {int(p): q for p, q in dict(b).items()} for a, b in dict(m).items()}
    for nm, got, w in (("generalized_degree", norm(raw(nxapi.generalized_degree(g))), want),
                       ("generalized_degree of nodes", norm(raw(nxapi.generalized_degree(g, nodes))) if nodes else None, {a: want[a] for a in nodes})):
        if got is None:
            continue
        # a node without neighbours has an empty histogram, present or not
        w = {a: b for a, b in w.items() if b}
        got = {a: b for a, b in got.items() if b}
        if got != w:
            raise Fail(nm, f"{got} expected {w}")
    same_dict("generalized_degree of one node", dict(nxapi.generalized_degree(g, k)), want[k])
    v = alg.single_generalized_degree(g, k)
    got = vec(v)
    if got != want[k]:
        raise Fail("generalized_degree of one node", f"{got} expected {want[k]}")
    s.check("generalized_degree")


def raw(m):
    A, lab = m.matrix if hasattr(m, "matrix") else m.vector, {i: k for k, i in m._key_to_id.items()}
    out = {}
    for (i, j), w in mat(A).items():
        out.setdefault(lab[i], {})[j] = w
    return out


CHECKS = [
    Check("triangles", lambda r: gen(r, directed=False), triangles, 1.5),
    Check("transitivity", gen, transit),
    Check("clustering", gen, clustering, 4),
    Check("square clustering", lambda r: gen(r, directed=False, loops=False), square, 2),
    Check("generalized degree", lambda r: gen(r, directed=False), gdeg, 1.5),
]
if __name__ == "__main__":
    main(CHECKS)
