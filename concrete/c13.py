from common import *
from graphblas_algorithms.nxapi._utils import partition, split_evenly, normalize_chunksize


def gen_part(rng):
    return {"N": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 20, 29, 60, 64, 97, 100]), "c": rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 31, 99, 100, 101, 2.5]),
            "evenly": rng.random() < 0.6, "np": rng.random() < 0.4}


def lst(c):
    L = list(range(100, 100 + c["N"]))
    return np.array(L, dtype=np.uint64) if c["np"] else L


def chunk_check(site, L, chunks, size=None, even=False):
    for k in chunks:
        if not hasattr(k, "__len__") or isinstance(k, str):
            raise Fail(f"{site}: a chunk is not a list", f"{k!r} of {list(L)}")
    flat = [int(x) for k in chunks for x in k]
    if flat != [int(x) for x in L]:
        raise Fail(f"{site}: items", f"{flat} expected {list(L)}")
    if any(len(k) == 0 for k in chunks):
        raise Fail(f"{site}: empty chunk", f"{[len(k) for k in chunks]}")
    if size is not None and any(len(k) > size for k in chunks):
        raise Fail(f"{site}: chunk too large", f"{[len(k) for k in chunks]} asked for {size}")
    if even and chunks and max(map(len, chunks)) - min(map(len, chunks)) > 1:
        raise Fail(f"{site}: uneven", f"{[len(k) for k in chunks]}")


def part(c):
    L = lst(c)
    ch = list(partition(c["c"], L, evenly=c["evenly"]))
    size = int(c["c"])
    chunk_check("partition", L, ch, size if size > 0 else None, c["evenly"])


def split(c):
    L = lst(c)
    k = int(c["c"])
    ch = list(split_evenly(c["c"], L))
    chunk_check("split_evenly", L, ch, None, True)
    if c["N"] and len(ch) != max(1, min(k, c["N"])):
        raise Fail("split_evenly: number of chunks", f"{len(ch)} for k={k}, N={c['N']}")


UNITS = {"": 1, "b": 1, "kb": 10**3, "mb": 10**6, "gb": 10**9, "tb": 10**12, "pb": 10**15, "eb": 10**18, "zb": 10**21,
         "kib": 2**10, "mib": 2**20, "gib": 2**30, "tib": 2**40, "pib": 2**50, "eib": 2**60, "zib": 2**70}


def gen_norm(rng):
    r = rng.random()
    N = rng.choice([None, None, 1, 2, 3, 10, 1000, 10**6, 10**9])
    item = rng.choice([1, 1, 2, 8, 24, 1000, 10**6])
    if r < 0.15:
        return {"s": rng.choice([None, 0, -1, 1, 2, 3.7, 10, 999, 1000, 1001, 10**9]), "N": N, "item": item}
    if r < 0.35:
        return {"s": rng.choice(["", "3 ", "2", "10", "1_000 ", "2.5", "1", "0"]) + rng.choice(["chunk", "chunks", " chunks", "Chunks"]), "N": rng.choice([1, 2, 3, 10, 17, 1000]), "item": item}
    if r < 0.42:
        return {"s": rng.choice(["", " ", "all", "ALL", "a ll"]), "N": N, "item": item}
    if r < 0.5:
        return {"s": rng.choice(["10 foo", "1.2.3 kb", "x10 mb", "5 chonks", "3 bb", "--4", "3 yib", "7 kbb"]), "N": N, "item": item, "bad": True}
    u = rng.choice(list(UNITS))
    u2 = "".join(ch.upper() if rng.random() < 0.5 else ch for ch in u)
    num = rng.choice(["1", "2", "3", "10", "16", "100", "2.5", "0.5", "1.25", "64", "1_000", "12 34", "0", ""])
    return {"s": num + rng.choice(["", " ", "_"]) + u2, "N": N, "item": item, "num": num, "unit": u}


def norm(c):
    s, N, item = c["s"], c["N"], c["item"]
    clip = lambda v: None if v <= 0 or (N is not None and v >= N) else v
    if c.get("bad"):
        raises("normalize_chunksize of a bad string", (ValueError, TypeError), normalize_chunksize, s, item, N)
        return
    got = normalize_chunksize(s, item, N)
    if s is None:
        want = None
    elif not isinstance(s, str):
        want = clip(int(s))
    elif "unit" in c:
        t = c["num"].replace(" ", "").replace("_", "")
        if not t and c["unit"] == "":
            want = None
        else:
            v = (float(t) if t else 1.0) * UNITS[c["unit"]]
            if c["unit"]:
                v = max(1, v / item)
            want = clip(int(round(v)))
    elif "chunk" in s.lower():
        t = s.lower().replace(" ", "").replace("_", "").split("chunk")[0]
        k = float(t) if t else 1.0
        want = None if k <= 1 else clip(math.ceil(N / k))
    else:
        want = None
    if got != want or (want is not None and not isinstance(got, int)):
        raise Fail("normalize_chunksize", f"{got!r} expected {want!r}")


CH = [1, 2, 3, 4, 5, 7, None, "all", "2 chunks", "3 chunks", "100 chunks", "1 kB", "64 B", "10 MiB", 0, 1000]


def gen_alg(rng):
    which = rng.choice(["square", "squaren", "apsp", "apbf"])
    d = False if which.startswith("square") else None
    p = rng.choice([None, 0.0, 0.5, 0.8]) if which.startswith("square") else None
    g = gen_graph(rng, directed=d, minn=1, maxn=9, weights="pos", density=p, n=rng.choice([4, 5, 6, 7, 8]) if rng.random() < .4 else None)
    return {"g": g, "which": which, "ch": rng.sample(CH, 3), "cutoff": rng.choice([None, None, 1, 2]), "seed": rng.randrange(1000), "heat": gen_heat(rng, g["directed"], 0.3)}


def algs(c):
    x = X(c["g"])
    g = x.build()
    heat(g, c["heat"])
    s = Snapshot(g)
    w = c["which"]
    r = random.Random(c["seed"])
    nodes = [k for k in x.labels if r.random() < 0.6] or x.labels[:1]
    r.shuffle(nodes)

    def run(ch):
        if w == "square":
            return dict(nxapi.square_clustering(g, chunksize=ch))
        if w == "squaren":
            return dict(nxapi.square_clustering(g, nodes, chunksize=ch))
        if w == "apsp":
            return [(k, dict(v)) for k, v in nxapi.all_pairs_shortest_path_length(g, c["cutoff"], chunksize=ch)]
        return [(k, dict(v)) for k, v in nxapi.all_pairs_bellman_ford_path_length(g, chunksize=ch)]
    site = {"square": "square_clustering", "squaren": "square_clustering of nodes", "apsp": "all_pairs_shortest_path_length", "apbf": "all_pairs_bellman_ford_path_length"}[w]
    base = call(site, run, None)
    for ch in c["ch"]:
        got = call(site, run, ch)
        if w.startswith("square"):
            same(f"{site} chunked", got, base)
        else:
            if sorted(map(repr, (k for k, _ in got))) != sorted(map(repr, (k for k, _ in base))):
                raise Fail(f"{site} chunked", f"sources {[k for k, _ in got]} expected {[k for k, _ in base]} at chunksize {ch}")
            got, ref = dict(got), dict(base)
            for k in ref:
                same_dict(f"{site} chunked", got[k], ref[k])
    s.check(site)


CHECKS = [
    Check("partition", gen_part, part, 1),
    Check("split_evenly", gen_part, split, 1),
    Check("normalize_chunksize", gen_norm, norm, 1),
    Check("chunked algorithms", gen_alg, algs, 5, lambda c: len(c["g"]["edges"]) > 0),
]
if __name__ == "__main__":
    main(CHECKS)
