from common import *


def gen(rng):
    kind = rng.choice(["equal", "equal", "disjoint", "overlap", "overlap", "overlap"])
    d = rng.random() < 0.5
    a = gen_graph(rng, directed=d, maxn=6, loops=None)
    b = gen_graph(rng, directed=d, maxn=6, loops=None)
    return {"g": a, "h": b, "kind": kind, "seed": rng.randrange(10**6), "heat": gen_heat(rng, d), "heat2": gen_heat(rng, d, 0.3)}


def two(c):
    """the two graphs as X, labels drawn from a common stock"""
    r = random.Random(c["seed"])
    a, b = X(c["g"]), X(c["h"])
    stock = ["a", "b", "c", 0, 1, 2, ("t", 1), "z", 7, 8, 9, 10]
    r.shuffle(stock)
    if c["kind"] == "equal":
        b.E = {(i, j): w for (i, j), w in b.E.items() if i < a.n and j < a.n}
        b.n = a.n
        la = stock[: a.n]
        lb = list(la)
        if r.random() < 0.7:
            r.shuffle(lb)
    elif c["kind"] == "disjoint":
        la, lb = stock[: a.n], stock[a.n: a.n + b.n]
    else:
        la, lb = stock[: a.n], r.sample(stock, b.n)
    for x, l in ((a, la), (b, lb)):
        x.labels, x.idx = l, {k: i for i, k in enumerate(l)}
        x.d = dict(x.d, iso=x.d["iso"] and bool(x.E))
    g, h = a.build(), b.build()
    heat(g, c["heat"])
    heat(h, c["heat2"])
    return a, b, g, h, Snapshot(g), Snapshot(h)


def ledges(x):
    return {(x.labels[i], x.labels[j]): w for (i, j), w in x.E.items()}


def expect(site, r, labels, edges, values=True, cls=None):
    lab, E = graph_of(r)
    same(f"{site}: nodes", set(lab), set(labels))
    if set(E) != set(edges):
        raise Fail(f"{site}: edges", f"{sorted(map(repr, E))} expected {sorted(map(repr, edges))}")
    if values:
        same_dict(f"{site}: weights", E, edges)
    if cls is not None and type(r) is not cls:
        raise Fail(f"{site}: type", str(type(r)))
    # the result's derived properties are its own
    if len(lab):
        A = mat(r._A)
        if mat(r.get_property("offdiag")) != {e: w for e, w in A.items() if e[0] != e[1]}:
            raise Fail(f"{site}: derived properties of the result", "offdiag")
        deg = {}
        for i, j in A:
            deg[i] = deg.get(i, 0) + 1
        same(f"{site}: derived properties of the result", vec(r.get_property("row_degrees+")), deg)


def operators(c):
    a, b, g, h, s1, s2 = two(c)
    cls = type(g)
    ea, eb = ledges(a), ledges(b)
    la, lb = set(a.labels), set(b.labels)
    if la & lb:
        raises("union of overlapping graphs", nx.NetworkXError, nxapi.union, g, h)
        raises("full_join of overlapping graphs", nx.NetworkXError, nxapi.full_join, g, h)
    else:
        expect("union", nxapi.union(g, h), la | lb, {**ea, **eb}, cls=cls)
        j = nxapi.full_join(g, h)
        lab, E = graph_of(j)
        cross = {(p, q) for p in la for q in lb} | {(q, p) for p in la for q in lb}
        expect("full_join", j, la | lb, {**ea, **eb, **{e: E.get(e) for e in cross}}, cls=cls)
    if all(isinstance(k, (str, int)) for k in la | lb):
        f = lambda p, k: f"{p}{k}"
        ren = lambda p, e: {(f(p, u), f(p, v)): w for (u, v), w in e.items()}
        expect("union with prefixes", nxapi.union(g, h, rename=("G", "H")), {f("G", k) for k in la} | {f("H", k) for k in lb}, {**ren("G", ea), **ren("H", eb)}, cls=cls)
        if not {f("G", k) for k in la} & lb:
            expect("union with one prefix", nxapi.union(g, h, rename=("G", None)), {f("G", k) for k in la} | lb, {**ren("G", ea), **eb}, cls=cls)
    na = a.n
    expect("disjoint_union", nxapi.disjoint_union(g, h), range(na + b.n), {**a.E, **{(i + na, j + na): w for (i, j), w in b.E.items()}}, cls=cls)
    expect("intersection", nxapi.intersection(g, h), la & lb, set(ea) & set(eb), values=False, cls=cls)
    expect("compose", nxapi.compose(g, h), la | lb, {**ea, **eb}, cls=cls)
    expect("compose the other way", nxapi.compose(h, g), la | lb, {**eb, **ea}, cls=cls)
    if la == lb:
        expect("difference", nxapi.difference(g, h), la, set(ea) - set(eb), values=False, cls=cls)
        expect("symmetric_difference", nxapi.symmetric_difference(g, h), la, set(ea) ^ set(eb), values=False, cls=cls)
    else:
        raises("difference of different node sets", nx.NetworkXError, nxapi.difference, g, h)
        raises("symmetric_difference of different node sets", nx.NetworkXError, nxapi.symmetric_difference, g, h)
    s1.check("operators")
    s2.check("operators")


def unary_ops(c):
    a, b, g, h, s1, s2 = two(c)
    ea = ledges(a)
    la = a.labels
    expect("complement", nxapi.complement(g), la, {(p, q) for p in la for q in la if p != q} - set(ea), values=False, cls=type(g))
    if a.directed:
        for cp in (True, False):
            expect("reverse", nxapi.reverse(g, copy=cp), la, {(q, p): w for (p, q), w in ea.items()}, cls=type(g))
        sym = set(ea) | {(q, p) for p, q in ea}
        u = g.to_undirected()
        expect("to_undirected", u, la, sym, values=False, cls=ga.Graph)
        lab, E = graph_of(u)
        for (p, q), w in E.items():
            if w not in (ea.get((p, q)), ea.get((q, p))):
                raise Fail("to_undirected: weights", f"{(p, q)}: {w}")
        rec = g.to_undirected(reciprocal=True)
        expect("to_undirected reciprocal", rec, la, {e for e in ea if e[::-1] in ea}, values=False, cls=ga.Graph)
    else:
        raises("reverse of an undirected graph", nx.NetworkXError, nxapi.reverse, g)
        dd = ga.classes.digraph.to_directed_graph(g) if False else None
    s1.check("unary operators")


CHECKS = [Check("operators", gen, operators, 2), Check("unary_ops", gen, unary_ops)]
if __name__ == "__main__":
    main(CHECKS)
