"""C13: chunked execution"""
from graphspec import *


class Items:
    """the list that is split: only its length and its slices are used; Python slicing semantics"""
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def _vlen(self):
        return lift(self.n)

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step is not None:
            raise Unsupported("only slices of the list are described")

        def clamp(x, d):
            if x is None:
                return d
            x = term_of(x)
            y = ite(lt(x, ZERO), add(x, self.n), x)
            return tmin(tmax(y, ZERO), self.n)
        return Chunk(clamp(k.start, ZERO), clamp(k.stop, self.n))


class Chunk:
    def __init__(self, a, b):
        self.a, self.b = a, b


class Numeral(str):
    """a string that is, once blanks and underscores are removed and case is ignored, a numeral of unknown length and value ending in a
    digit, followed by the given unit"""

    def __new__(cls, m, value, unit, clean=False):
        r = str.__new__(cls, "<numeral>" + unit)
        r.m, r.value, r.unit, r.clean = m, value, unit, clean
        return r

    def replace(self, a, b, *n):
        if n or a not in (" ", "_") or b != "":
            raise Unsupported("str.replace")
        return Numeral(self.m, self.value, self.unit.replace(a, b))

    def lower(self):
        return Numeral(self.m, self.value, self.unit.lower())

    casefold = lower

    def strip(self):
        return Numeral(self.m, self.value, self.unit.rstrip())

    def _vlen(self):
        return lift(add(self.m, const(len(self.unit))))

    def __len__(self):
        raise Unsupported("len")

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is not str or any(c.isdigit() for c in o):
            raise Unsupported("comparison of a numeral")
        return False

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def endswith(self, o):
        return self.unit.endswith(o) if len(o) <= len(self.unit) else super().endswith(o)

    def __reversed__(self):
        yield from reversed(self.unit)
        yield "7"      # some digit
        raise Unsupported("inside of a numeral")

    def __iter__(self):
        raise Unsupported("inside of a numeral")

    def __getitem__(self, k):
        if isinstance(k, int) and k < 0 and -k <= len(self.unit):
            return self.unit[k]
        if isinstance(k, int) and k == -1:
            return "7"
        if isinstance(k, slice) and k.step is None:
            if k.start is None and isinstance(k.stop, SymNum) and truth(k.stop == lift(self.m)):
                return Numeral(self.m, self.value, "")
            if k.stop is None and isinstance(k.start, SymNum) and truth(k.start == lift(self.m)):
                return self.unit
        raise Unsupported("inside of a numeral")

    def _vfloat(self):
        if self.unit:
            raise ValueError("could not convert string to float")
        return lift(self.value)

    def __format__(self, s):
        return "<numeral>"

    __repr__ = __str__ = lambda self: "<numeral>"


UNITS = {"": None, "B": 1, "kB": 10**3, "MB": 10**6, "GB": 10**9, "TB": 10**12, "PB": 10**15, "EB": 10**18, "ZB": 10**21,
         "KiB": 2**10, "MiB": 2**20, "GiB": 2**30, "TiB": 2**40, "PiB": 2**50, "EiB": 2**60, "ZiB": 2**70}


def harnesses(L):
    U = L.load("graphblas_algorithms.nxapi._utils")
    H = []
    F = "graphblas_algorithms.nxapi._utils."

    def consume(ctx, gen, n, size=None):
        """read all chunks: each starts where the last one ended and is not empty; the last one ends at the end"""
        ctx.ghosts["pos"] = 0
        for c in gen:
            a, b = (ZERO, n) if isinstance(c, Items) else (c.a, c.b)
            ctx.ensure("chunks are handed over in order without gap or overlap", eq(a, term_of(ctx.ghosts["pos"])))
            ctx.ensure("chunks are not empty", lt(a, b))
            if size is not None:
                size(sub(b, a))
            ctx.ghosts["pos"] = lift(b)
        ctx.ensure("every item is handed over", eq(term_of(ctx.ghosts["pos"]), n))

    def lemmas_split(ctx, n, k, t):
        """(n t + k - 1) div k grows by n div k or by one more from t to t + 1"""

    def cut_at(n, k):
        return lambda t: ite(le(t, ZERO), ZERO, floordiv_term(add(mul(n, t), sub(k, ONE)), k))

    def split_templates(n, kk):
        def f(loop, name, v):
            if loop.lid.startswith("graphblas_algorithms.nxapi._utils") is False:
                pass
            k = add(loop.length, ONE)   # range(1, k)
            at = lambda t: lift(floordiv_term(add(mul(n, t), sub(k, ONE)), k))
            if name in ("start", "ghost pos"):
                return [Def("ceil(n t / k)", at), Def("t chunks of the given size", lambda t: lift(tmin(mul(t, kk), n)))]
            if name == "stop":
                return [DefAfter("ceil(n t / k)", at)]
            return []
        return f

    def h(ctx):
        n, k = var("N", "I"), var("k", "I")
        ctx.assume(le(ZERO, n))
        ctx.templates = split_templates(n, k)

        def size(s):
            q = floordiv_term(n, k)
            ctx.ensure("sizes differ by at most one", Implies(gt(k, ONE), And(le(q, s), le(s, add(q, ONE)))))
        consume(ctx, U.split_evenly(lift(k), Items(n)), n, size)
    H.append(Harness("split_evenly[any number of parts]", h, [F + "split_evenly"]))

    for evenly in (True, False):
        for real in (False, True):
            def h(ctx, evenly=evenly, real=real):
                n, c = var("N", "I"), var("c", "R" if real else "I")
                ctx.assume(le(ZERO, n))
                ci = toint(term_of(vc.v_int(lift(c))))
                ctx.templates = split_templates(n, ci)

                def size(s):
                    ctx.ensure("no chunk is larger than asked for", Implies(gt(ci, ZERO), le(s, ci)))
                consume(ctx, U.partition(lift(c), Items(n), evenly=evenly), n, size)
            H.append(Harness(f"partition[{'evenly' if evenly else 'fixed size'},{'float' if real else 'int'} chunk size]", h, [F + "partition"] + ([F + "split_evenly"] if evenly else [])))

    # ---- normalize_chunksize
    def ask(ctx, chunksize, with_N, itemsize):
        n = var("N", "I") if with_N else None
        if with_N:
            ctx.assume(le(ZERO, n))
        r = U.normalize_chunksize(chunksize, lift(itemsize), lift(n) if with_N else None)
        return r, n

    def in_range(ctx, r, n, is_r, none=None):
        """None stands for 'all at once': when the size is not positive or is at least N"""
        if r is None:
            if none is None:
                x = var("x!size", "I")
                none = Implies(is_r(x), Or(le(x, ZERO), le(n, x)) if n is not None else le(x, ZERO))
            ctx.ensure("None only when all items fit into one chunk or no size is given", none)
        else:
            t = term_of(r)
            ctx.ensure("an integer", const(t.sort == "I"))
            ctx.ensure("the stated size", is_r(t))
            ctx.ensure("positive", gt(t, ZERO))
            if n is not None:
                ctx.ensure("less than the number of items", lt(t, n))

    def nearest(y):
        return lambda r: And(le(mul(const(2), sub(toreal(r), y)), ONE), le(mul(const(2), sub(y, toreal(r))), ONE))

    def rounds_away(y, n):
        """the nearest integer of y is not positive or at least n"""
        two, one = toreal(const(2)), toreal(ONE)
        low = le(mul(two, y), one)
        return low if n is None else Or(low, ge(mul(two, y), sub(mul(two, toreal(n)), one)))

    for with_N in (True, False):
        tag = "N given" if with_N else "N unknown"
        for real in (False, True):
            def h(ctx, with_N=with_N, real=real):
                c = var("c", "R" if real else "I")
                z = var("itemsize", "I")
                ctx.assume(le(ZERO, z))
                r, n = ask(ctx, lift(c), with_N, z)
                in_range(ctx, r, n, lambda x: eq(x, toint(term_of(vc.v_int(lift(c))))))
            H.append(Harness(f"normalize_chunksize[{'float' if real else 'int'},{tag}]", h, [F + "normalize_chunksize"]))
        for unit, scale in UNITS.items():
            for u in {unit, unit.lower(), " " + unit.upper(), unit.replace("i", "_i") + " "}:
                def h(ctx, with_N=with_N, u=u, unit=unit, scale=scale):
                    m, x, z = var("m", "I"), var("x", "R"), var("itemsize", "I")
                    ctx.assume(And(lt(ZERO, m), le(ZERO, z), ge(x, toreal(ZERO))))
                    r, n = ask(ctx, Numeral(m, x, u), with_N, z)
                    if unit == "":
                        y = x
                        known = gt(z, ZERO)
                    else:
                        y = tmax(toreal(ONE), mul(x, toreal(const(scale)), inv(toreal(z))))
                        known = gt(z, ZERO)
                    in_range(ctx, r, n, lambda t: And(known, nearest(y)(t)), Implies(known, rounds_away(y, n)))
                H.append(Harness(f"normalize_chunksize[{u!r},{tag}]", h, [F + "normalize_chunksize"]))
        for word in ("chunks", " Chunk"):
            def h(ctx, with_N=with_N, word=word):
                m, x, z = var("m", "I"), var("x", "R"), var("itemsize", "I")
                ctx.assume(And(lt(ZERO, m), le(ZERO, z), ge(x, toreal(ZERO))))
                if not with_N:
                    ctx.assume(gt(x, toreal(ONE)))
                    raises("the number of items is needed", lambda: ask(ctx, Numeral(m, x, word), with_N, z), "TypeError")
                    return
                r, n = ask(ctx, Numeral(m, x, word), with_N, z)
                one = toreal(ONE)
                # the smallest size with which x chunks hold all N items
                in_range(ctx, r, n, lambda t: Implies(gt(x, one), And(ge(mul(toreal(t), x), toreal(n)), lt(mul(toreal(sub(t, ONE)), x), toreal(n)))),
                         Or(le(x, one), eq(n, ZERO), lt(mul(toreal(sub(n, ONE)), x), toreal(n))))
                if r is not None:
                    ctx.ensure("more than one chunk", gt(x, one))
            H.append(Harness(f"normalize_chunksize[{word!r},{tag}]", h, [F + "normalize_chunksize"]))
        for text, x in (("", None), ("all", None), ("A L L", None), ("chunk", None)) + tuple((u, s) for u, s in UNITS.items() if s):
            def h(ctx, with_N=with_N, text=text, x=x):
                z = var("itemsize", "I")
                ctx.assume(lt(ZERO, z))
                r, n = ask(ctx, text, with_N, z)
                if x is None:
                    ctx.ensure("everything at once", const(r is None))
                else:
                    y = tmax(toreal(ONE), mul(toreal(const(x)), inv(toreal(z))))
                    in_range(ctx, r, n, nearest(y), rounds_away(y, n))
            H.append(Harness(f"normalize_chunksize[{text!r} without a number,{tag}]", h, [F + "normalize_chunksize"]))
        for bad in (["1"], {"MB": 1}, b"1MB"):
            def h(ctx, with_N=with_N, bad=bad):
                raises("chunksize of another type", lambda: ask(ctx, bad, with_N, ONE), "TypeError")
            H.append(Harness(f"normalize_chunksize[{type(bad).__name__},{tag}]", h, [F + "normalize_chunksize"]))
        for unit in ("mbb", "x", "bytes", "m", "kib b"):
            def h(ctx, with_N=with_N, unit=unit):
                m, x = var("m", "I"), var("x", "R")
                ctx.assume(lt(ZERO, m))
                raises("unknown unit", lambda: ask(ctx, Numeral(m, x, unit), with_N, ONE), "ValueError")
            H.append(Harness(f"normalize_chunksize[unknown unit {unit!r},{tag}]", h, [F + "normalize_chunksize"]))
    # ---- the algorithms that work in chunks, against the contracts of partition and of the algorithm on a list of nodes
    FN = "graphblas_algorithms.nxapi."
    L.load("graphblas_algorithms.nxapi")
    alg = L.load("graphblas_algorithms.algorithms")
    cl = L.load("graphblas_algorithms.nxapi.cluster")

    def sq(i):
        return app("sq", (i,), "R")

    def sq_contract(g):
        """contract of algorithms.square_clustering (C08): nodes whose coefficient is zero may be left out"""
        stored = lambda i: app("sqp", (i,), "B")
        P.AXIOMS["sq"] = P.AXIOMS["sqp"] = lambda i: [Implies(Not(stored(i)), eq(sq(i), toreal(ZERO)))]

        def square_clustering(G_, node_ids=None):
            if G_ is not g:
                raise Unsupported("another graph")
            if node_ids is None:
                f = lambda i: (stored(i), sq(i))
            else:
                node_ids.check_range(g._n)

                def f(i):
                    c, r = node_ids.inverse(i)
                    return And(c, stored(i)), sq(i)
            return G.mk_tensor(G.Val((g._n,), FP64, f), "square_clustering")
        return square_clustering

    def sq_run(ctx, dt, given):
        g = make_graph(L, False, dt, min_n=1)
        c = var("c", "I")
        ctx.assume(And(lt(ZERO, c), lt(c, g._n)))
        part, info = chunks_contract()
        ctx.info = info
        A, n = g._spec.A, g._n
        if given:
            nl, k, ids = a_nodelist(g._m)
            inl = lambda i: app("in_nl", (keysof(g._m, i),), "B")
            pos = lambda i: app("pos_nl", (keysof(g._m, i),), "I")
        else:
            P.AXIOMS["Ap_row"] = None
            P.AXIOMS.pop("Ap_row")
            nl = None

        def seen(t):
            def f(i):
                # node_ids.get(r) == i for some r < b(t)
                info = sym.CTX.info
                cnd, r = info["ids"].inverse(i)
                return And(cnd, lt(r, info["b"](t)), app("sqp", (i,), "B")), sq(i)
            return G.Val((n,), FP64, f)

        def partition(chunksize, seq, **kw):
            info["ids"] = seq
            return part(chunksize, seq, **kw)
        ctx.templates = lambda loop, name, v: [OptTensor("the chunks seen so far", seen)] if v is None else [Def("the chunks seen so far", seen)] if name == "result" else []
        # rows without entries have no squares
        if not given:
            o = sq_contract(g)
            row = lambda i: ex(n, lambda j: A.pres(i, j))
            P.AXIOMS["sqp"] = P.AXIOMS["sq"] = lambda i: [Implies(Not(app("sqp", (i,), "B")), eq(sq(i), toreal(ZERO))), Implies(Not(row(i)), Not(app("sqp", (i,), "B")))]
        else:
            o = sq_contract(g)
        with patched(cl, partition=partition, normalize_chunksize=lambda cs, *a: cs), patched(alg, square_clustering=o):
            r = nx.square_clustering(g, nl, chunksize=lift(c)) if given else nx.square_clustering(g, chunksize=lift(c))
        nodemap_is(L, "square_clustering in chunks", r, g, V1(n, FP64, lambda i: (inl(i) if given else TRUE, sq(i))))
    nx = L.load("graphblas_algorithms.nxapi")
    for given in (False, True):
        H.append(Harness(f"square_clustering in chunks[{'node list' if given else 'all nodes'}]", (lambda given: lambda ctx: sq_run(ctx, BOOL, given))(given),
                         [FN + "cluster.square_clustering", FN + "cluster._square_clustering_split", "graphblas_algorithms.classes._utils.vector_to_nodemap"]))

    def rows_run(ctx, directed, mod, name, callee, single, per_row):
        """every node once, each with its own row, whatever the chunks are"""
        g = make_graph(L, directed, FP64, min_n=1)
        n, m = g._n, g._m
        c = var("c", "I")
        ctx.assume(And(lt(ZERO, c), lt(c, n)))
        part, info = chunks_contract()
        dp, dv = (lambda i, j: app("Dp", (i, j), "B")), (lambda i, j: app("Dv", (i, j), "R"))
        calls = []

        def many(G_, *a, **k):
            calls.append("many")
            nodes = k.get("nodes", a[-1] if a else None)
            l, get = nodes._symiter()
            at = lambda r: ident(m, get(r))
            q = idx_for(l, 0, "q")
            ctx.ensure("precondition of the algorithm on a list of nodes: nodes of the graph", isnode(m, get(q)))
            return G.mk_tensor(G.Val((l, n), FP64, lambda r, j: (dp(at(r), j), dv(at(r), j))), "D")

        def one(G_, s, *a):
            calls.append("one")
            ctx.ensure("precondition of the algorithm on one node: a node of the graph", isnode(m, s))
            i = ident(m, s)
            return G.mk_tensor(G.Val((n,), FP64, lambda j: (dp(i, j), dv(i, j))), "d")
        key_at = lambda r: term_of(m.order(r))

        def templates(loop, gname, v):
            if gname != "ghost pos":
                return []
            if loop.length is n:
                return [Def("nodes so far", lambda t: lift(t))]
            if loop.length is info.get("m"):
                return [Def("chunks so far", lambda t: lift(info["b"](t)))]
            return [Def("nodes of the chunk so far", lambda t: lift(add(sym.CTX.info["starts"][sym.CTX.loops[loop.key].length], t)))]
        ctx.info = info
        ctx.templates = templates
        
        ctx.ghosts["pos"] = 0
        mo = L.load(FN + mod)
        with patched(mo, partition=part, normalize_chunksize=lambda cs, *a: cs), patched(alg, **{callee: many, single: one}):
            for source, d in getattr(nx, name)(g, chunksize=lift(c)):
                p = term_of(ctx.ghosts["pos"])
                ctx.ensure("every node once, in the order of the graph", And(lt(p, n), eq(term_of(source), key_at(p))))
                i = ident(m, source)
                nodemap_is(L, "the row of the node", d, g, V1(n, FP64, lambda j: (dp(i, j), dv(i, j))))
                ctx.ghosts["pos"] = lift(add(p, ONE))
        ctx.ensure("all nodes", eq(term_of(ctx.ghosts["pos"]), n))

    for directed in (False, True):
        for mod, name, callee, single in (("shortest_paths.unweighted", "all_pairs_shortest_path_length", "all_pairs_shortest_path_length", "single_source_shortest_path_length"),
                                          ("shortest_paths.weighted", "all_pairs_bellman_ford_path_length", "bellman_ford_path_lengths", "single_source_bellman_ford_path_length")):
            H.append(Harness(f"{name} in chunks[{'DiGraph' if directed else 'Graph'}]",
                             (lambda *a: lambda ctx: rows_run(ctx, *a, None))(directed, mod, name, callee, single), [FN + mod + "." + name, "graphblas_algorithms.classes._utils.vector_to_nodemap"]))
    return H
