from common import *
from c10 import gen, setup
from c05 import bfs

UNB = (nx.NetworkXUnbounded, alg.exceptions.Unbounded)


def gen6(rng):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7])
    kind = rng.choice(["pos", "zero", "any", "potential", "iso", "negiso", "dag", "loops", "loops"])
    d = rng.random() < 0.7
    dt = rng.choice(["int", "float", "float", "bool"])
    p = rng.choice([0.2, 0.35, 0.5, 0.8])
    E = []
    pot = [rng.randint(-4, 4) for _ in range(n)]
    w0 = {"int": rng.choice([1, 2, 3, 5, 0]), "float": rng.choice([0.5, 1.5, 2.0, 1.0, 0.0]), "bool": True}[dt]
    if kind == "negiso":
        w0 = -1 if dt == "int" else -0.5
        if dt == "bool":
            dt = "float"
    order = list(range(n))
    rng.shuffle(order)
    for i in range(n):
        for j in range(n):
            if (i == j and rng.random() < (0.4 if kind == "loops" else 0.75)) or (not d and j < i) or rng.random() > p:
                continue
            if kind == "dag" and not order.index(i) < order.index(j):
                continue
            if kind == "negiso" and rng.random() < 0.8 and not order.index(i) < order.index(j):
                continue
            if kind in ("iso", "negiso"):
                w = w0
            elif dt == "bool":
                w = True if kind == "pos" else rng.random() < 0.7
            elif kind == "pos":
                w = rng.randint(1, 9) if dt == "int" else rng.choice([0.25, 0.5, 1.0, 2.5, 4.0, 7.5])
            elif kind == "zero":
                w = rng.randint(0, 3) if dt == "int" else rng.choice([0.0, 0.0, 0.5, 1.0, 3.0])
            elif kind == "loops" and dt != "bool":
                # zero-weight and negative self-loops next to each other, other edges nonnegative
                w = rng.choice([-1, 0, 0, 0, 2]) if i == j else rng.randint(0, 4)
                w = w if dt == "int" else w / 2
            elif kind == "potential" and d and i != j:
                w = rng.randint(0, 5) + pot[i] - pot[j]
            else:
                w = rng.randint(-2, 6) if dt == "int" else rng.choice([-1.5, -0.5, 0.0, 0.5, 1.0, 2.0, 3.5])
            E.append([i, j, w])
    c = {"g": {"n": n, "directed": d, "dtype": dt, "edges": E, "labels": rng.choice(["int", "perm", "str", "mixed"]), "lseed": rng.randrange(99), "iso": bool(E) and kind in ("iso", "negiso") and rng.random() < 0.7}}
    c["heat"] = gen_heat(rng, d, 0.4)
    c["cutoff"] = rng.choice([0, 1, 2, 3, 5, 2.5, 10])
    c["seed"] = rng.randrange(10**6)
    return c


def dist(x, s):
    """(distances, unbounded nodes): nodes reachable from a negative cycle reachable from s"""
    d = {s: 0}
    for _ in range(x.n):
        ch = False
        for (i, j), w in x.E.items():
            if i in d and (j not in d or d[i] + w < d[j]):
                d[j] = d[i] + w
                ch = True
        if not ch:
            return d, set()
    bad = {j for (i, j), w in x.E.items() if i in d and d[i] + w < d[j]}
    out = set()
    for b in bad:
        out |= set(bfs(x, b))
    return d, out


def unb(site, f, *a, **k):
    try:
        r = f(*a, **k)
    except nx.NetworkXUnbounded:
        return
    except Exception as e:
        raise Fail(f"{site}: not reported as unbounded", f"{type(e).__name__} {e}")
    raise Fail(f"{site}: negative cycle not reported", f"returned {r!r}")


def single(c):
    x, g, s = setup(c)
    L = x.labels
    lab = lambda d: {L[j]: v for j, v in d.items()}
    DD = [dist(x, i) for i in range(x.n)]
    for i in range(x.n):
        d, bad = DD[i]
        if bad:
            unb("single_source_bellman_ford_path_length", nxapi.single_source_bellman_ford_path_length, g, L[i])
        else:
            same("single_source_bellman_ford_path_length", nxapi.single_source_bellman_ford_path_length(g, L[i]), lab(d))
            if all(w >= 0 for w in x.E.values()):
                v = alg.single_source_bellman_ford_path_length(g, L[i], cutoff=c["cutoff"])
                same("single_source_bellman_ford_path_length with a cutoff", vec(v), {j: q for j, q in d.items() if q <= c["cutoff"]})
    raises("missing node", nx.NodeNotFound, nxapi.single_source_bellman_ford_path_length, g, "not a node")
    s.check("single source")


def allpairs(c):
    x, g, s = setup(c)
    L = x.labels
    DD = [dist(x, i) for i in range(x.n)]
    anybad = any(b for _, b in DD)
    for ch in (None, 1, 2, "10 MiB"):
        f = lambda: {k: dict(v) for k, v in nxapi.all_pairs_bellman_ford_path_length(g, chunksize=ch)}
        if anybad:
            unb("all_pairs_bellman_ford_path_length", f)
        else:
            got = f()
            same("all_pairs keys", set(got), set(L))
            for k, v in got.items():
                same("all_pairs_bellman_ford_path_length", v, {L[j]: q for j, q in DD[x.idx[k]][0].items()})
    r = random.Random(c["seed"])
    some = [k for k in L if r.random() < 0.6]
    r.shuffle(some)
    for nodes in [some] + [[k] for k in L]:
        if not nodes:
            continue
        bad = any(DD[x.idx[k]][1] for k in nodes)
        for ex in (False, True):
            try:
                got = mat(alg.bellman_ford_path_lengths(g, nodes, expand_output=ex))
            except alg.exceptions.Unbounded:
                if not bad:
                    raise Fail("bellman_ford_path_lengths: unbounded without a negative cycle", "")
                continue
            if bad:
                raise Fail("bellman_ford_path_lengths: negative cycle not reported", "")
            same("bellman_ford_path_lengths", got, {(x.idx[k] if ex else a, j): q for a, k in enumerate(nodes) for j, q in DD[x.idx[k]][0].items()})
    same("negative_edge_cycle", bool(nxapi.negative_edge_cycle(g)), anybad)
    s.check("all pairs")


def pair(c):
    x, g, s = setup(c)
    L = x.labels
    for i in range(x.n):
        d, bad = dist(x, i)
        for j in range(x.n):
            for f, name in ((nxapi.bellman_ford_path_length, "bellman_ford_path_length"), (nxapi.bellman_ford_path, "bellman_ford_path")):
                try:
                    r = f(g, L[i], L[j])
                except nx.NetworkXUnbounded as e:
                    if not bad:
                        raise Fail(f"{name}: unbounded without a negative cycle", f"{L[i]} {L[j]}")
                    continue
                except nx.NetworkXNoPath as e:
                    if j in d:
                        raise Fail(f"{name}: no path reported", f"{L[i]} {L[j]} at distance {d[j]}")
                    continue
                except Exception as e:
                    raise Fail(f"{name}: raises {type(e).__name__}", f"{L[i]} {L[j]}: {e}")
                if j not in d:
                    raise Fail(f"{name}: no path not reported", f"{r!r}")
                if j in bad:
                    raise Fail(f"{name}: negative cycle not reported", f"{L[i]} {L[j]}: {r!r}")
                if name == "bellman_ford_path_length":
                    same(name, py(r), d[j])
                else:
                    p = [x.idx[k] for k in r]
                    if not p or p[0] != i or p[-1] != j or any(e not in x.E for e in zip(p, p[1:])):
                        raise Fail("bellman_ford_path is not a path", f"{r} from {L[i]} to {L[j]}")
                    same("bellman_ford_path weight", sum(x.E[e] for e in zip(p, p[1:])), d[j])
    for f in (nxapi.bellman_ford_path, nxapi.bellman_ford_path_length):
        if x.n:
            raises("missing node", nx.NodeNotFound, f, g, L[0], "not a node")
    s.check("source-target")


def dense(c):
    x, g, s = setup(c)
    L = x.labels
    r = random.Random(c["seed"])
    y = x.noloops()
    for wt in ("weight", None):
        z = y if wt else X.__new__(X)
        if not wt:
            z.__dict__.update(y.__dict__)
            z.E = {e: 1 for e in y.E}
        elif any(dist(x, i)[1] for i in range(x.n)):
            continue
        want = {(i, j): q for i in range(x.n) for j, q in dist(z, i)[0].items()}
        lab = lambda w: {(L[i], L[j]): q for (i, j), q in w.items()}
        flat = lambda m: {(a, b): py(q) for a, row in m.items() for b, q in row.items()}
        same("floyd_warshall", flat(nxapi.floyd_warshall(g, weight=wt)), lab(want))
        P, D = nxapi.floyd_warshall_predecessor_and_distance(g, weight=wt)
        full = {(i, j): want.get((i, j), INF) for i in range(x.n) for j in range(x.n)}
        for (i, j), q in full.items():
            same("floyd_warshall_predecessor_and_distance distance", py(D[L[i]][L[j]]), q)
        pp = flat(P)
        same("predecessor keys", set(pp), {(L[i], L[j]) for i, j in want if i != j})
        for (a, b), p in pp.items():
            i, j, k = x.idx[a], x.idx[b], x.idx[p]
            if (k, j) not in z.E or (i, k) not in want or not close(want[i, k] + z.E[k, j], want[i, j]):
                raise Fail("predecessor", f"of {b} from {a}: {p}")
        for a, b in pp:
            # following predecessors reaches the source
            cur, seen = b, 0
            while cur != a and seen <= x.n:
                cur, seen = pp.get((a, cur)), seen + 1
                if cur is None:
                    break
            if cur != a:
                raise Fail("predecessor chain", f"from {a} to {b}")
        nl = list(L)
        r.shuffle(nl)
        m = mat(nxapi.floyd_warshall_numpy(g, nodelist=nl if r.random() < 0.8 else None, weight=wt)) if False else None
        got = mat(nxapi.floyd_warshall_numpy(g, nodelist=nl, weight=wt))
        same("floyd_warshall_numpy", got, {(a, b): want[x.idx[p], x.idx[q]] for a, p in enumerate(nl) for b, q in enumerate(nl) if (x.idx[p], x.idx[q]) in want})
        if x.n:
            raises("floyd_warshall_numpy: short node list", nx.NetworkXError, nxapi.floyd_warshall_numpy, g, nodelist=nl[1:], weight=wt)
            raises("floyd_warshall_numpy: repeated node", nx.NetworkXError, nxapi.floyd_warshall_numpy, g, nodelist=nl[1:] + nl[-1:] if x.n > 1 else nl + nl, weight=wt)
    s.check("floyd_warshall")


CHECKS = [Check("single", gen6, single), Check("allpairs", gen6, allpairs, 1.3), Check("pair", gen6, pair, 1.5), Check("dense", gen6, dense, 1.5)]
if __name__ == "__main__":
    main(CHECKS)
