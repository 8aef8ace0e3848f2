from common import *
from c10 import gen, setup


def bfs(x, i, inn=False):
    nb = x.inn if inn else x.out
    d, q = {i: 0}, [i]
    for u in q:
        for v in nb(u):
            if v not in d:
                d[v] = d[u] + 1
                q.append(v)
    return d


def gen5(rng):
    """sparse graphs, long paths"""
    c = gen(rng, density=rng.choice([None, 0.15, 0.2, 0.3]), maxn=rng.choice([6, 10]))
    if rng.random() < 0.3:
        # paths and cycles with chords, in a random numbering
        n = rng.randint(1, 10)
        p = list(range(n))
        rng.shuffle(p)
        d = rng.random() < 0.5
        E = {}
        for a, b in zip(p, p[1:] + ([p[0]] if rng.random() < 0.4 else [])):
            if rng.random() < 0.93 and (d or (b, a) not in E) and (a != b):
                E[a, b] = 1
        for _ in range(rng.randint(0, 3)):
            a, b = rng.randrange(n), rng.randrange(n)
            if d or (b, a) not in E:
                E[a, b] = 1
        c["g"] = {"n": n, "directed": d, "dtype": "int", "edges": [[a, b, w] for (a, b), w in E.items()], "labels": rng.choice(["perm", "mixed", "str"]), "lseed": rng.randrange(99), "iso": False}
        c["heat"] = gen_heat(rng, d)
    c["seed"] = rng.randrange(10**6)
    c["cutoff"] = rng.choice([None, None, 0, 1, 2, 3, 4, 12])
    return c


def plain(x, i, d, cut=None):
    return {x.labels[j]: k for j, k in d.items() if cut is None or k <= cut}


def lengths(c):
    x, g, s = setup(c)
    cut = c["cutoff"]
    D = [bfs(x, i) for i in range(x.n)]
    for i in range(x.n):
        same("single_source_shortest_path_length", nxapi.single_source_shortest_path_length(g, x.labels[i], cut), plain(x, i, D[i], cut))
        same("single_target_shortest_path_length", nxapi.single_target_shortest_path_length(g, x.labels[i], cut), plain(x, i, bfs(x, i, True), cut))
    for ch in (None, 1, 2, 3, "10 MiB"):
        got = [(k, dict(v)) for k, v in nxapi.all_pairs_shortest_path_length(g, cut, chunksize=ch)]
        if len({k for k, _ in got}) != len(got):
            raise Fail("all_pairs_shortest_path_length repeats a source", str(got))
        same("all_pairs_shortest_path_length keys", {k for k, _ in got}, set(x.labels))
        for k, v in got:
            same("all_pairs_shortest_path_length", v, plain(x, None, D[x.idx[k]], cut))
    for f in (nxapi.single_source_shortest_path_length, nxapi.single_target_shortest_path_length):
        raises("missing node", nx.NodeNotFound, f, g, "not a node")
    r = random.Random(c["seed"])
    nodes = [k for k in x.labels if r.random() < 0.6]
    r.shuffle(nodes)
    if nodes:
        got = mat(alg.all_pairs_shortest_path_length(g, cut, nodes=nodes))
        same("all_pairs_shortest_path_length(nodes)", got, {(a, j): v for a, k in enumerate(nodes) for j, v in D[x.idx[k]].items() if cut is None or v <= cut})
        got = mat(alg.all_pairs_shortest_path_length(g, cut, nodes=nodes, expand_output=True))
        want = {(x.idx[k], j): v for a, k in enumerate(nodes) for j, v in D[x.idx[k]].items() if cut is None or v <= cut}
        if len(nodes) < x.n:
            same("all_pairs_shortest_path_length(expand_output)", got, want)
        else:
            same("all_pairs_shortest_path_length(expand_output, every node)", got, want)
    s.check("path lengths")


def reach(c):
    x, g, s = setup(c)
    L = x.labels
    D = [bfs(x, i) for i in range(x.n)]
    for i in range(x.n):
        up = bfs(x, i, True)
        same("descendants", set(nxapi.descendants(g, L[i])), {L[j] for j in D[i] if j != i})
        same("ancestors", set(nxapi.ancestors(g, L[i])), {L[j] for j in up if j != i})
        for k in range(0, 5):
            same("descendants_at_distance", set(nxapi.descendants_at_distance(g, L[i], k)), {L[j] for j, v in D[i].items() if v == k})
        for j in range(x.n):
            same("has_path", nxapi.has_path(g, L[i], L[j]), j in D[i])
            if j in D[i]:
                same("bidirectional_shortest_path_length", alg.shortest_paths.unweighted.bidirectional_shortest_path_length(g, L[i], L[j]), D[i][j])
            else:
                raises("bidirectional_shortest_path_length without a path", alg.exceptions.NoPath, alg.shortest_paths.unweighted.bidirectional_shortest_path_length, g, L[i], L[j])
            if not x.directed and i != j:
                same("efficiency", nxapi.efficiency(g, L[i], L[j]), 1 / D[i][j] if j in D[i] else 0)
    for f in (nxapi.descendants, nxapi.ancestors):
        raises("missing node", nx.NetworkXError, f, g, "not a node")
    raises("missing node", nx.NodeNotFound, nxapi.has_path, g, "not a node", "nope")
    und = x.noloops()
    und.E = dict(und.E)
    for i, j in list(und.E):
        und.E[j, i] = 1
    if x.directed:
        if x.n:
            same("is_weakly_connected", bool(nxapi.is_weakly_connected(g)), len(bfs(und, 0)) == x.n)
        else:
            raises("is_weakly_connected of the null graph", nx.NetworkXPointlessConcept, nxapi.is_weakly_connected, g)
    else:
        if x.n:
            same("is_connected", bool(nxapi.is_connected(g)), len(bfs(und, 0)) == x.n)
            for i in range(x.n):
                same("node_connected_component", set(nxapi.node_connected_component(g, L[i])), {L[j] for j in bfs(und, i)})
        else:
            raises("is_connected of the null graph", nx.NetworkXPointlessConcept, nxapi.is_connected, g)
    if x.n:
        # weakly connected from every start, both edge directions
        for i in range(x.n):
            same("_bfs_plain_bidirectional", set(vec(alg._bfs._bfs_plain_bidirectional(g, L[i]))), set(bfs(und, i)))
    s.check("reachability")


def layers(c):
    x, g, s = setup(c)
    L = x.labels
    r = random.Random(c["seed"])
    D = [bfs(x, i) for i in range(x.n)]
    for _ in range(3):
        src = [k for k in L if r.random() < 0.35]
        if r.random() < 0.3 and L:
            src = r.choice(L)
        elif src and r.random() < 0.4:
            src = [r.choice(src) for _ in range(r.randrange(1, 2 * x.n))]  # a source may be given twice
        ids = [x.idx[src]] if not isinstance(src, list) else [x.idx[k] for k in src]
        d = {}
        for i in ids:
            for j, v in D[i].items():
                d[j] = min(v, d.get(j, 99))
        want = [{L[j] for j, v in d.items() if v == k} for k in range(max(d.values(), default=-1) + 1)]
        got = [list(z) for z in nxapi.bfs_layers(g, src)]
        if any(len(set(z)) != len(z) for z in got) or [set(z) for z in got] != want:
            raise Fail("bfs_layers", f"{got} expected {want}")
    raises("bfs_layers of a missing node", nx.NetworkXError, lambda: list(nxapi.bfs_layers(g, ["not a node"])))
    s.check("bfs_layers")


def parents(c):
    x, g, s = setup(c)
    for i in range(x.n):
        D = bfs(x, i, c["cutoff"] == 2)
        tr = c["cutoff"] == 2
        p = vec(alg._bfs._bfs_parent(g, x.labels[i], transpose=tr))
        same("_bfs_parent nodes", set(p), set(D))
        for j, q in p.items():
            ok = q == i if j == i else (((j, q) if tr else (q, j)) in x.E and D[q] + 1 == D[j])
            if not ok:
                raise Fail("_bfs_parent", f"parent of {j} from {i}: {q}")
        for t in range(x.n):
            a = vec(alg._bfs._bfs_level(g, x.labels[i], x.labels[t]))
            b = set(vec(alg._bfs._bfs_plain(g, x.labels[i], x.labels[t])))
            f = bfs(x, i)
            if (t in a) != (t in f) or (t in b) != (t in f) or t in f and a[t] != f[t] or any(f.get(j) != v for j, v in a.items()) or any(j not in f for j in b):
                raise Fail("_bfs_level with a target", f"{a} {b} {f}")
    s.check("_bfs_parent")


CHECKS = [Check("lengths", gen5, lengths), Check("reach", gen5, reach), Check("layers", gen5, layers), Check("parents", gen5, parents, 0.5)]
if __name__ == "__main__":
    main(CHECKS)
