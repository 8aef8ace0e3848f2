from common import *
from c10 import gen, setup
from itertools import combinations


def gen14(rng):
    d = rng.random() < 0.5
    c = gen(rng, directed=d, maxn=8)
    n = c["g"]["n"]
    p = list(range(n))
    rng.shuffle(p)
    mode = rng.choice(["iso", "iso", "near", "near", "other"])
    E = [[p[a], p[b], w] for a, b, w in c["g"]["edges"]]
    rng.shuffle(E)
    if mode == "near" and E:
        for _ in range(rng.randint(1, 3)):
            # move one end of an edge: degrees often stay the same
            k = rng.randrange(len(E))
            a, b, w = E[k]
            t = rng.randrange(n)
            if not any({e[0], e[1]} == {a, t} for e in E):
                E[k] = [a, t, w]
    elif mode == "other":
        E = gen_graph(rng, n=n if rng.random() < 0.8 else rng.randint(0, 6), directed=d)
        n = E["n"]
        E = E["edges"]
    h = dict(c["g"], n=n, edges=E, labels=rng.choice(["int", "perm", "sparse", "str", "mixed"]), lseed=rng.randrange(1000), iso=False, dtype=c["g"]["dtype"] if mode != "other" else "float")
    return dict(c, h=h, heat2=gen_heat(rng, d), iso=mode == "iso")


def degsof(x):
    return [len(x.out(i)) + (len(x.inn(i)) if x.directed else 0) for i in range(x.n)]


def tri(x):
    return [sum(1 for j, k in combinations([j for j in x.out(i) if j != i], 2) if (j, k) in x.E) for i in range(x.n)]


def tests(c):
    x, g, s = setup(c)
    y, h, t = setup({"g": c["h"], "heat": c["heat2"]})
    dx, dy = sorted(degsof(x)), sorted(degsof(y))
    for nm in ("faster_could_be_isomorphic", "fast_could_be_isomorphic"):
        f = getattr(nxapi, nm)
        r = f(g, h)
        if not isinstance(r, (bool, np.bool_)):
            raise Fail(nm + " type", repr(r))
        if c["iso"] and not r:
            raise Fail(f"{nm} rejects isomorphic graphs", "")
        if dx != dy and r:
            raise Fail(f"{nm} accepts different degrees", f"{dx} {dy}")
        if nm.startswith("faster") and bool(r) != (dx == dy):
            raise Fail(f"{nm} rejects equal degrees", f"{dx} {dy}")
        if nm.startswith("fast_") and not x.directed:
            a, b = sorted(zip(degsof(x), tri(x))), sorted(zip(degsof(y), tri(y)))
            if bool(r) != (a == b):
                raise Fail(f"{nm} {'accepts different' if r else 'rejects equal'} degree/triangle pairs", f"{a} {b}")
        s.check(nm)
        t.check(nm)
        if bool(f(g, g)) is not True:
            raise Fail(f"{nm} rejects the graph itself", "")


CHECKS = [Check("could_be_isomorphic", gen14, tests)]
if __name__ == "__main__":
    main(CHECKS)
