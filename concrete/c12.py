from common import *
from c10 import gen, setup
from graphblas_algorithms.algorithms.exceptions import ConvergenceFailure
from graphblas_algorithms.nxapi.exception import ArpackNoConvergence


def gen12(rng, nonneg=True, **k):
    c = gen(rng, maxn=7, dtype=rng.choice(["int", "float"]), weights=rng.choice(["pos", "pos", "small"]), **k)
    n = c["g"]["n"]
    if nonneg or rng.random() < 0.5:
        c["g"]["edges"] = [[a, b, abs(w)] for a, b, w in c["g"]["edges"]]
    if rng.random() < 0.5 and n:
        t = rng.randrange(n)
        c["g"]["edges"] = [e for e in c["g"]["edges"] if e[0] != t and (c["g"]["directed"] or e[1] != t)]
    if c["g"]["iso"] and c["g"]["edges"]:
        w = c["g"]["edges"][0][2]
        c["g"]["edges"] = [[a, b, w] for a, b, _ in c["g"]["edges"]]
    c["g"]["iso"] = c["g"]["iso"] and bool(c["g"]["edges"])
    vecs = lambda part: [rng.choice([0.0, 1.0, 2.0, 0.5, 3.0]) if part else rng.choice([1.0, 2.0, 0.5, 3.0, 0.25]) for _ in range(n)]
    c["nstart"] = rng.choice([None, None, vecs(0), vecs(1)])
    c["p"] = rng.choice([None, None, vecs(0), vecs(1)])
    c["dangling"] = rng.choice([None, None, vecs(0), vecs(1)])
    c["beta"] = rng.choice([1.0, 0.5, vecs(0), vecs(1)])
    c["part"] = rng.random() < 0.5
    c["alpha"] = rng.choice([0.85, 0.5, 0.1, 0.99, 0.3])
    c["tol"] = rng.choice([1e-6, 1e-8, 1e-4, 1e-2, 1e-10, 1e-11, 0.0])
    c["max_iter"] = rng.choice([100, 100, 300, 1000, 3, 1, 10])
    c["normalized"] = rng.random() < 0.6
    c["with_authority"] = rng.random() < 0.5
    return c


def M(x):
    A = np.zeros((x.n, x.n))
    for (i, j), w in x.E.items():
        A[i, j] = w
    return A


def mk(x, v, part):
    return None if v is None else {x.labels[i]: v[i] for i in range(x.n) if not part or v[i] != 0}


def outcome(site, c, step, x0, tol, max_iter, run, exc, finish=lambda x: x, first=None):
    """run() must return finish(x_k) for the first k <= max_iter with |x_k - x_(k-1)|_1 < n tol, or raise exc"""
    n = len(x0)
    xs, errs = [x0], []
    for k in range(max_iter):
        with np.errstate(all="ignore"):
            y = step(xs[-1])
            errs.append(float(np.abs(y - xs[-1]).sum()))
        xs.append(y)
        if not math.isfinite(errs[-1]):
            break
        if errs[-1] < n * tol:
            break
    lim = n * tol
    if lim and any(abs(e - lim) <= 1e-5 * lim + 1e-13 * n for e in errs) or any(math.isfinite(e) and e > 1e100 for e in errs):
        raise Skip  # decided by rounding
    if any(not math.isfinite(e) for e in errs):
        raise Skip  # beyond the reals represented
    good = errs and errs[-1] < lim
    try:
        r = run()
    except exc as e:
        if good:
            raise Fail(f"{site}: convergence failure although converged", f"after {len(errs)} rounds err={errs[-1]}")
        return
    if not good:
        raise Fail(f"{site}: result although not converged", f"{max_iter} rounds, last err={errs[-1] if errs else None} limit {lim}: {r}")
    for got, want in zip(r, finish(xs[-1])):
        same_dict(site, got, want, 1e-7)


def pagerank(c):
    x, g, s = setup(c)
    n = x.n
    if n == 0:
        same("pagerank", dict(nxapi.pagerank(g)), {})
        raise Skip
    A = M(x)
    r = A.sum(axis=1)
    has = np.array([bool(x.out(i)) for i in range(n)])
    if any(abs(r[i]) < 1e-9 and has[i] for i in range(n)):
        raise Skip
    al = c["alpha"]
    P, D, N0 = c["p"], c["dangling"], c["nstart"]
    zero = False
    kw = dict(alpha=al, personalization=mk(x, P, c["part"]), nstart=mk(x, N0, c["part"]), dangling=mk(x, D, c["part"]), tol=c["tol"], max_iter=c["max_iter"])
    if any(v is not None and not v for v in (kw["personalization"], kw["nstart"], kw["dangling"])):
        raise Skip
    for v in (P, N0):
        if v is not None and sum(v) == 0:
            raises("pagerank of a zero vector", Exception, nxapi.pagerank, g, **kw)
            return
    if D is not None and sum(D) == 0:
        raise Skip
    norm = lambda v: np.array(v) / sum(v)
    p = np.full(n, 1.0 / n) if P is None else norm(P)
    d = p if D is None else norm(D)
    x0 = np.full(n, 1.0 / n) if N0 is None else norm(N0)

    def step(v):
        y = np.zeros(n)
        for i in range(n):
            if has[i]:
                y += al * v[i] / r[i] * A[i]
            else:
                y += al * v[i] * d
        return y + (1 - al) * p

    outcome("pagerank", c, step, x0, c["tol"], c["max_iter"], lambda: [nxapi.pagerank(g, **kw)], nx.PowerIterationFailedConvergence, lambda v: [dict(zip(x.labels, v.tolist()))])
    s.check("pagerank")
    # vectors handed to the algorithm stay as they were
    V = lambda v: None if v is None else Vector.from_coo(range(n), v, dtype=float)
    a, b, e = V(P), V(N0), V(D)
    try:
        alg.pagerank(g, al, personalization=a, nstart=b, dangling=e, tol=c["tol"], max_iter=c["max_iter"])
    except ConvergenceFailure:
        pass
    for nm, v, o in (("personalization", a, P), ("nstart", b, N0), ("dangling", e, D)):
        if v is not None and vec(v) != dict(enumerate(o)):
            raise Fail(f"pagerank changed {nm}", f"{o} became {vec(v)}")


def gen_katz(rng):
    c = gen12(rng, nonneg=False)
    c["alpha"] = rng.choice([0.1, 0.05, 0.01, 0.2, 0.02])
    return c


def katz(c):
    x, g, s = setup(c)
    n = x.n
    if n == 0:
        raise Skip
    A = M(x)
    al, N0, B = c["alpha"], c["nstart"], c["beta"]
    b = np.full(n, B) if isinstance(B, float) else np.array(B)
    x0 = np.zeros(n) if N0 is None else np.array(N0)
    kw = dict(alpha=al, beta=B if isinstance(B, float) else dict(zip(x.labels, B)), nstart=mk(x, N0, c["part"]), tol=c["tol"], max_iter=c["max_iter"], normalized=c["normalized"])
    if kw["nstart"] is not None and not kw["nstart"]:
        raise Skip

    def fin(v):
        q = math.sqrt(float((v * v).sum()))
        return [dict(zip(x.labels, (v / q if c["normalized"] and q else v).tolist()))]

    outcome("katz_centrality", c, lambda v: al * (v @ A) + b, x0, c["tol"], c["max_iter"], lambda: [nxapi.katz_centrality(g, **kw)], nx.PowerIterationFailedConvergence, fin)
    if isinstance(B, list) and n > 1:
        part = {x.labels[0]: 1.0}
        raises("katz_centrality with missing beta", nx.NetworkXError, nxapi.katz_centrality, g, beta=part)
    s.check("katz_centrality")
    if isinstance(B, list) and n:
        v = Vector.from_coo(range(n), B, dtype=float)
        w = None if N0 is None else Vector.from_coo(range(n), N0, dtype=float)
        try:
            alg.katz_centrality(g, al, v, nstart=w, tol=c["tol"], max_iter=c["max_iter"], normalized=c["normalized"])
        except ConvergenceFailure:
            pass
        if vec(v) != dict(enumerate(B)):
            raise Fail("katz_centrality changed beta", f"{B} became {vec(v)}")
        if w is not None and vec(w) != dict(enumerate(N0)):
            raise Fail("katz_centrality changed nstart", f"{N0} became {vec(w)}")


def eigen(c):
    x, g, s = setup(c)
    n = x.n
    if n == 0:
        raises("eigenvector_centrality of the null graph", nx.NetworkXPointlessConcept, nxapi.eigenvector_centrality, g)
        return
    A = M(x)
    N0 = c["nstart"]
    kw = dict(nstart=mk(x, N0, False), tol=c["tol"], max_iter=c["max_iter"])
    if N0 is not None and sum(N0) == 0:
        raises("eigenvector_centrality of a zero vector", nx.NetworkXError, nxapi.eigenvector_centrality, g, **kw)
        return
    x0 = np.full(n, 1.0 / n) if N0 is None else np.array(N0) / sum(N0)

    def step(v):
        y = v + v @ A
        q = math.sqrt(float((y * y).sum()))
        if q < 1e-9:
            raise Skip
        return y / q

    outcome("eigenvector_centrality", c, step, x0, c["tol"], c["max_iter"], lambda: [nxapi.eigenvector_centrality(g, **kw)], nx.PowerIterationFailedConvergence, lambda v: [dict(zip(x.labels, v.tolist()))])
    s.check("eigenvector_centrality")


def hits(c):
    x, g, s = setup(c)
    n = x.n
    if n == 0:
        same("hits", [dict(v) for v in nxapi.hits(g)], [{}, {}])
        raise Skip
    A = M(x)
    N0 = c["nstart"]
    kw = dict(nstart=mk(x, N0, c["part"]), tol=c["tol"], max_iter=c["max_iter"], normalized=c["normalized"])
    if N0 is not None and not kw["nstart"]:
        raise Skip
    if N0 is not None and sum(N0) == 0:
        raises("hits of a zero vector", Exception, nxapi.hits, g, **kw)
        return
    x0 = np.full(n, 1.0 / n) if N0 is None else np.array(N0) / sum(N0)
    linf = lambda v: v / v.max() if v.max() > 0 else v
    l1 = lambda v: v / v.sum() if v.sum() > 0 else v
    last = {}

    def step(h):
        a = h @ A
        last["a"] = a
        return linf(A @ a)

    def fin(h):
        a = last["a"]
        h, a = (l1(h), l1(a)) if c["normalized"] else (h, linf(a))
        return [dict(zip(x.labels, h.tolist())), dict(zip(x.labels, a.tolist()))]

    outcome("hits", c, step, x0, c["tol"], c["max_iter"], lambda: nxapi.hits(g, **kw), (ArpackNoConvergence, ValueError), fin)
    if c["with_authority"]:
        v0 = None if N0 is None else Vector.from_coo(range(n), N0, dtype=float)
        B = A.T @ A

        def fin2(a):
            h = A @ a
            h, a = (l1(h), l1(a)) if c["normalized"] else (linf(h), a)
            return [dict(zip(range(n), h.tolist())), dict(zip(range(n), a.tolist()))]

        fill = lambda v: {i: vec(v).get(i, 0.0) for i in range(n)}
        outcome("hits with_authority", c, lambda a: linf(B @ a), x0, c["tol"], c["max_iter"],
                lambda: [fill(v) for v in alg.hits(g, c["max_iter"], c["tol"], v0, c["normalized"], with_authority=True)], ConvergenceFailure, fin2)
        if v0 is not None and vec(v0) != dict(enumerate(N0)):
            raise Fail("hits changed nstart", f"{N0} became {vec(v0)}")
    s.check("hits")


CHECKS = [Check("pagerank", gen12, pagerank, 1.5), Check("katz_centrality", gen_katz, katz), Check("eigenvector_centrality", gen12, eigen), Check("hits", gen12, hits)]
if __name__ == "__main__":
    main(CHECKS)
