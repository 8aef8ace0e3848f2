from common import *
from c10 import gen, setup


def pick(rng, c, big=False):
    n = c["g"]["n"]
    r = random.Random(rng.randrange(10**9))
    mode = r.choice(["none", "perm", "perm", "select", "select"])
    if mode == "none" or n == 0:
        c["nodelist"] = None
    elif mode == "perm":
        c["nodelist"] = r.sample(range(n), n)
    else:
        c["nodelist"] = r.sample(range(n), r.randint(1, n))
    return c


def gen11(rng, **k):
    c = pick(rng, gen(rng, maxn=7, **k))
    c["weighted"] = rng.random() < 0.5
    return c


def sub(x, c, weighted):
    """(ids of the rows in order, dense matrix)"""
    ids = c["nodelist"] if c["nodelist"] is not None else list(range(x.n))
    M = [[(float(x.E[i, j]) if weighted else 1.0) if (i, j) in x.E else 0.0 for j in ids] for i in ids]
    return ids, M


def nl(x, c):
    return None if c["nodelist"] is None else [x.labels[i] for i in c["nodelist"]]


def dense(m):
    d = mat(m)
    return [[py(d.get((i, j), 0)) for j in range(m.ncols)] for i in range(m.nrows)]


def same_mat(site, m, want):
    if (m.nrows, m.ncols) != (len(want), len(want)):
        raise Fail(site + " shape", f"{m.nrows}x{m.ncols} expected {len(want)}")
    same(site, dense(m), want)


def adjacency(c):
    x, g, s = setup(c)
    ids, M = sub(x, c, c["weighted"])
    w = "weight" if c["weighted"] else None
    m = nxapi.adjacency_matrix(g, nodelist=nl(x, c), weight=w)
    same_mat("adjacency_matrix", m, M)
    pat = {(a, b) for a, i in enumerate(ids) for b, j in enumerate(ids) if (i, j) in x.E}
    same("adjacency_matrix pattern", set(mat(m)), pat)
    if m.dtype != g._A.dtype:
        raise Fail("adjacency_matrix dtype", str(m.dtype))
    for dt in (float, int):
        if dt is int and x.dtype == "float" and c["weighted"]:
            continue
        m = linalg.adjacency_matrix(g, nl(x, c), dt, is_weighted=c["weighted"])
        same_mat("adjacency_matrix dtype", m, M)
        same("adjacency_matrix pattern", set(mat(m)), pat)
    if not s:
        return
    # the caller may change the result
    m = linalg.adjacency_matrix(g, nl(x, c), is_weighted=c["weighted"])
    m.clear()
    s.check("adjacency_matrix")


def nobool(x, c):
    """boolean weights are not numbers to add up: weighted use is on numbers"""
    if x.dtype == "bool" and c["weighted"]:
        raise Skip


def laplacian(c):
    x, g, s = setup(c)
    nobool(x, c)
    ids, M = sub(x, c, c["weighted"])
    n = len(ids)
    w = "weight" if c["weighted"] else None
    d = [sum(r) for r in M]
    L = [[(d[i] if i == j else 0.0) - M[i][j] for j in range(n)] for i in range(n)]
    same_mat("laplacian_matrix", nxapi.laplacian_matrix(g, nodelist=nl(x, c), weight=w), L)
    s.check("laplacian_matrix")


def norm_laplacian(c):
    x, g, s = setup(c)
    nobool(x, c)
    ids, M = sub(x, c, c["weighted"])
    n = len(ids)
    w = "weight" if c["weighted"] else None
    d = [sum(r) for r in M]
    for i in range(n):
        if d[i] < 0 or (d[i] == 0 and any((ids[i], j) in x.E for j in ids)):
            raise Skip  # formula undefined
    q = [v ** -0.5 if v else 0.0 for v in d]
    L = [[(1.0 if i == j and d[i] else 0.0) - q[i] * M[i][j] * q[j] for j in range(n)] for i in range(n)]
    # defined as D^-1/2 (D - A) D^-1/2
    same_mat("normalized_laplacian_matrix", nxapi.normalized_laplacian_matrix(g, nodelist=nl(x, c), weight=w), L)
    s.check("normalized_laplacian_matrix")


def gen_bh(rng):
    c = gen11(rng, directed=False)
    c["r"] = rng.choice([None, None, 0.5, 1, 2, 3.5, -1])
    return c


def bethe(c):
    x, g, s = setup(c)
    c = dict(c, weighted=True)
    nobool(x, c)
    ids, M = sub(x, c, True)
    n = len(ids)
    r = c["r"]
    if r is None:
        k = [len(x.out(i)) + ((i, i) in x.E) * (0) for i in range(x.n)]
        if sum(k) == 0 or any(i == j for i, j in x.E):
            raise Skip
        r = sum(v * v for v in k) / sum(k) - 1
    H = [[((r * r - 1) + sum(M[i]) if i == j else 0.0) - r * M[i][j] for j in range(n)] for i in range(n)]
    same_mat("bethe_hessian_matrix", nxapi.bethe_hessian_matrix(g, r=c["r"], nodelist=nl(x, c)), H)
    s.check("bethe_hessian_matrix")


def modularity(c):
    x, g, s = setup(c)
    nobool(x, c)
    ids, M = sub(x, c, c["weighted"])
    n = len(ids)
    w = "weight" if c["weighted"] else None
    ko = [sum(r) for r in M]
    ki = [sum(M[i][j] for i in range(n)) for j in range(n)]
    m = sum(ko)
    if abs(m) < 1e-12:
        raise Skip
    B = [[M[i][j] - ko[i] * ki[j] / m for j in range(n)] for i in range(n)]
    f = nxapi.directed_modularity_matrix if x.directed else nxapi.modularity_matrix
    same_mat(f.__name__, f(g, nodelist=nl(x, c), weight=w), B)
    s.check(f.__name__)


def gen_google(rng):
    c = gen11(rng, weights=rng.choice(["pos", "pos", "small"]))
    n = c["g"]["n"]
    if c["g"]["dtype"] == "bool":
        c["g"]["dtype"] = "int"
        c["g"]["edges"] = [[a, b, 1] for a, b, w in c["g"]["edges"]]
    c["g"]["edges"] = [[a, b, abs(w)] for a, b, w in c["g"]["edges"]]
    if rng.random() < 0.6:
        # a sink
        t = rng.randrange(n) if n else 0
        c["g"]["edges"] = [e for e in c["g"]["edges"] if e[0] != t and (c["g"]["directed"] or e[1] != t)]
    c["g"]["iso"] = c["g"]["iso"] and bool(c["g"]["edges"])
    c["alpha"] = rng.choice([0.85, 0.85, 0.5, 0.0, 1.0, 0.1])
    c["p"] = rng.choice([None, None, [rng.choice([0.0, 1.0, 2.0, 0.5]) for _ in range(n)]])
    c["dangling"] = rng.choice([None, None, [rng.choice([0.0, 1.0, 2.0, 3.0]) for _ in range(n)]])
    c["part"] = rng.random() < 0.4
    return c


def google(c):
    x, g, s = setup(c)
    ids, M = sub(x, c, True)
    n = len(ids)
    alpha = c["alpha"]
    if n == 0:
        raise Skip
    part = c["part"]
    P, D = c["p"], c["dangling"]
    # labels left out of a dictionary count as zero
    if P is not None:
        if sum(P[i] for i in ids) == 0:
            raise Skip
        if part and sum(P) == sum(P[i] for i in ids):
            pass
    if D is not None and sum(D[i] for i in ids) == 0:
        raise Skip
    zero = [i for i in range(n) if sum(M[i]) == 0]
    if any(any((ids[i], j) in x.E for j in ids) for i in zero):
        raise Skip  # rows of zero-weight edges: the formula divides by zero
    mk = lambda v: None if v is None else {x.labels[i]: v[i] for i in range(x.n) if not part or v[i] != 0}
    p = [1.0 / n] * n if P is None else [P[i] / sum(P[k] for k in ids) for i in ids]
    dw = p if D is None else [D[i] / sum(D[k] for k in ids) for i in ids]
    want = []
    for i in range(n):
        t = sum(M[i])
        row = [v / t for v in M[i]] if t else dw
        want.append([alpha * v + (1 - alpha) * q for v, q in zip(row, p)])
    snapP = None
    m = nxapi.link_analysis.pagerank_alg.google_matrix(g, alpha=alpha, personalization=mk(P), nodelist=nl(x, c), dangling=mk(D))
    same_mat("google_matrix", m, want)
    for i, r in enumerate(dense(m)):
        if abs(sum(r) - 1) > 1e-9:
            raise Fail("google_matrix row sum", f"row {i}: {sum(r)}")
    s.check("google_matrix")
    # vectors given to the algorithm are not changed
    if P is not None:
        v = Vector.from_coo(range(x.n), P, dtype=float)
        before = vec(v)
        d = None if D is None else Vector.from_coo(range(x.n), D, dtype=float)
        alg.google_matrix(g, alpha=alpha, personalization=v, nodelist=nl(x, c), dangling=d)
        if vec(v) != before:
            raise Fail("google_matrix changed personalization", f"{before} became {vec(v)}")


CHECKS = [Check("adjacency_matrix", gen11, adjacency), Check("laplacian_matrix", gen11, laplacian), Check("normalized_laplacian_matrix", gen11, norm_laplacian),
          Check("bethe_hessian_matrix", gen_bh, bethe), Check("modularity_matrix", gen11, modularity), Check("google_matrix", gen_google, google, 1.5)]
if __name__ == "__main__":
    main(CHECKS)
