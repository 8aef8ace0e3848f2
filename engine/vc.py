"""Verified execution of the repository's own text: mechanical loading, loop cutting, and the discharge driver.

What the extraction changes, and nothing else:
  * `for` / `while` statements get a cut point (arbitrary iteration | exit) in front of the unmodified body;
  * comprehensions become a call with the element expression as a function (same element expression, same order);
  * module globals see contract versions of graphblas, numpy and of len/range/zip/sorted/min/max/sum/int/float/...
"""
import ast
import itertools
import numbers
import os
import builtins
import importlib
import sys
import time
import types
from itertools import count

import sym
from sym import *
from terms import *
import terms as TM
import prove as P
import gbstub as G
import symcol as C


class Restart(BaseException):
    pass


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


# ------------------------------------------------------------------ AST pass
class Pass(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod, self.stack, self.infn, self.k = mod, [], [], {}
        self.n = count()

    def _scope(self, node):
        self.stack.append(node.name)
        self.infn.append(not isinstance(node, ast.ClassDef))
        self.generic_visit(node)
        self.stack.pop()
        self.infn.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._scope(node)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def _id(self, kind):
        q = ".".join(self.stack) or "<module>"
        k = self.k[q] = self.k.get(q, 0) + 1
        return f"{self.mod}:{q}#{k}"

    def in_function(self):
        return any(self.infn)

    @staticmethod
    def stored(stmts):
        out = {}
        stack = list(stmts)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out[n.name] = None
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out[n.id] = None
            stack.extend(ast.iter_child_nodes(n))
        return [x for x in out if not x.startswith("_vc")]

    def visit_For(self, node):
        if not self.in_function():
            return node
        names = self.stored(node.body)
        tn = [node.target.id] if isinstance(node.target, ast.Name) else self.stored([node.target])
        lid = self._id("for")
        self.generic_visit(node)
        L = f"_vcL{next(self.n)}"
        inner = [x for x in names if x not in tn]
        pre = ast.parse(f"{L} = _vc_.loop({lid!r}, None, {tuple(inner)!r}, {tuple(tn)!r}, locals)").body[0]
        pre.value.args[1] = node.iter
        def assign(ns):
            if not ns:
                return ast.parse(f"if {L}.sym: {L}.vals(())").body
            return ast.parse(f"if {L}.sym: ({', '.join(ns)},) = {L}.vals({tuple(ns)!r})").body
        node.iter = ast.Name(id=L, ctx=ast.Load())
        node.body = assign(inner) + node.body
        node.orelse = assign(inner + tn) + node.orelse
        return [ast.copy_location(pre, node), node]

    def counting(self, node):
        """`while i < E: BODY; i += 1` with E unchanged by BODY (also `while True: if i >= E: break; ...`) as `for i in range(i, E): BODY`"""
        test, body = node.test, list(node.body)
        if isinstance(test, ast.Constant) and test.value and not node.orelse and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break):
            t = body[0].test
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                test = t.operand
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.GtE, ast.Gt)):
                test = ast.Compare(left=t.left, ops=[ast.Lt() if isinstance(t.ops[0], ast.GtE) else ast.LtE()], comparators=t.comparators)
            body = body[1:]
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and len(body) > 1):
            return None
        a, op, b = test.left, test.ops[0], test.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, op, b = b, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE(), a
        inc = body[-1]
        if not (isinstance(a, ast.Name) and isinstance(op, (ast.Lt, ast.LtE)) and isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name)
                and inc.target.id == a.id and isinstance(inc.value, ast.Constant) and inc.value.value == 1 and type(inc.value.value) is int):
            return None
        body = body[:-1]
        stored = set(self.stored(body))
        if a.id in stored:
            return None
        for n in ast.walk(b):
            if not isinstance(n, (ast.Name, ast.Constant, ast.BinOp, ast.Add, ast.Sub, ast.Load, ast.Attribute)):
                return None
            if isinstance(n, ast.Attribute) and n.attr not in ("nrows", "ncols", "size") or isinstance(n, ast.Name) and (n.id in stored or n.id == a.id):
                return None

        def continues(ss):
            return any(isinstance(x, ast.Continue) or not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)) and continues(ast.iter_child_nodes(x)) for x in ss)
        if continues(body) or any(isinstance(n, (ast.Global, ast.Nonlocal, ast.NamedExpr)) for x in body for n in ast.walk(x)):
            return None
        src = f"({ast.unparse(b)})" + (" + 1" if isinstance(op, ast.LtE) else "")
        s0 = f"_vcS{next(self.n)}"
        out = ast.parse(f"{s0} = {a.id}\nfor {a.id} in _vc_.upto({s0}, {src}):\n    pass\nelse:\n    {a.id} = _vc_.past({s0}, {src})").body
        out[1].body = body
        out[1].orelse += list(node.orelse)
        return out

    def visit_While(self, node):
        if not self.in_function():
            return node
        alt = self.counting(node)
        if alt is not None:
            for x in alt:
                ast.copy_location(x, node)
                ast.fix_missing_locations(x)
            r = self.visit(alt[1])
            return [alt[0]] + (r if isinstance(r, list) else [r])
        names = self.stored(node.body) + self.stored([node.test])
        names = list(dict.fromkeys(names))
        lid = self._id("while")
        self.generic_visit(node)
        L = f"_vcL{next(self.n)}"
        pre = ast.parse(f"{L} = _vc_.wloop({lid!r}, {tuple(names)!r}, locals)").body[0]
        ns = names
        asg = ast.parse(f"if {L}.sym: ({', '.join(ns)},) = {L}.vals({tuple(ns)!r})").body if ns else ast.parse(f"if {L}.sym: {L}.vals(())").body
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=list(node.orelse) + [ast.Break()], orelse=[])
        f = ast.For(target=ast.Name(id=f"_vci{L}", ctx=ast.Store()), iter=ast.Name(id=L, ctx=ast.Load()), body=asg + [test] + node.body, orelse=[], type_comment=None)
        return [ast.copy_location(pre, node), ast.copy_location(f, node)]

    def _comp(self, node, kind, elt):
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]

        def fn(body):
            lc = ast.ListComp(elt=body, generators=[ast.comprehension(target=g.target, iter=ast.Tuple(elts=[ast.Name(id="_vct", ctx=ast.Load())], ctx=ast.Load()), ifs=[], is_async=0)])
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="_vct")], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Subscript(value=lc, slice=ast.Constant(0), ctx=ast.Load()))
        args = [ast.Constant(kind), g.iter, fn(elt)]
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=list(g.ifs))
            args.append(fn(c))
        return ast.Call(func=ast.Attribute(value=ast.Name(id="_vc_", ctx=ast.Load()), attr="comp", ctx=ast.Load()), args=args, keywords=[])

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return self._comp(node, "list", node.elt) if self.in_function() else node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._comp(node, "set", node.elt) if self.in_function() else node

    def visit_GeneratorExp(self, node):
        self.generic_visit(node)
        return self._comp(node, "gen", node.elt) if self.in_function() else node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._comp(node, "dict", ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())) if self.in_function() else node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "zip" and len(node.args) == 1 and isinstance(node.args[0], ast.Starred):
            return ast.Call(func=ast.Attribute(value=ast.Name(id="_vc_", ctx=ast.Load()), attr="unzip", ctx=ast.Load()), args=[node.args[0].value], keywords=node.keywords)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return ast.Call(func=ast.Attribute(value=ast.Name(id="_vc_", ctx=ast.Load()), attr="fstr", ctx=ast.Load()),
                        args=[ast.Constant(v.value) if isinstance(v, ast.Constant) else ast.Tuple(elts=[v.value], ctx=ast.Load()) if v.format_spec is None and v.conversion == -1
                              else ast.JoinedStr(values=[v]) for v in node.values], keywords=[])

    def visit_Compare(self, node):
        self.generic_visit(node)
        # `a in b` / `a not in b` keep Python semantics; nothing to rewrite
        return node


def fstr(*parts):
    out, symb = [], []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            symb.append(p)
        else:
            (v,) = p
            if is_sym(v):
                symb.append(v)
            else:
                symb.append(format(v) if not isinstance(v, (C.SymList, C.SymMap, C.SymSet)) else "?")
            out.append("?" if is_sym(v) else symb[-1])
    ks = [s for s in symb if isinstance(s, SymKey)]
    if len(ks) == 1 and isinstance(symb[-1], SymKey):
        # prefix + str(label): injective in the label (contract of str on labels)
        return SymKey(prefixed("".join(s for s in symb[:-1]), ks[0].t))
    return "".join(out)


_pref = {}


def prefixed(prefix, k):
    name = f"prefix<{prefix}>"
    if name not in _pref:
        _pref[name] = True
        TM.INJECTIVE.add(name)
        C.INV[name] = lambda a, y, name=name: (eqk(app(name, (app("un" + name, (y,), "K"),), "K"), y), app("un" + name, (y,), "K"))
        TM.APP_RULES["un" + name] = lambda a, name=name: a[0].args[1] if a[0].op == "app" and a[0].args[0] == name else None
    return app(name, (k,), "K")


def eqk(a, b):
    return eq(a, b)


# ------------------------------------------------------------------ loops
def touched(t):
    for L in ACTIVE:
        L.mut.add(id(t))
        L.keep.append(t)


ACTIVE = []


class NativeLoop:
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class Loop:
    sym = True

    def __init__(self, lid, length, get, names, targets):
        self.lid, self.length, self.get, self.names, self.targets = lid, length, get, names, targets
        c = sym.CTX
        k = c.loopcount.get(lid, 0)
        c.loopcount[lid] = k + 1
        self.key = f"{lid}" if k == 0 else f"{lid}@{k}"
        c.loops[self.key] = self
        self.info = c.ex.loopinfo.setdefault(self.key, {"touched": set(), "peel": 0, "assign": {}, "opts": {}})
        self.state = 0
        self.peeled = 0
        self.mut, self.keep = set(), []
        self.t = None

    def __iter__(self):
        return self

    # ---- state description
    def holders(self, loc):
        """local name -> tensor holder, by identity"""
        return {n: v for n, v in loc.items() if isinstance(v, G.Tensor) and not n.startswith("_vc")}

    def signature(self, loc):
        ids, sig = {}, []
        for n, v in sorted(self.holders(loc).items()):
            if n in self.modnames(loc):
                key = id(v) if not v.frozen else ("frozen", id(v))
                sig.append((n, ids.setdefault(key, len(ids)) if not v.frozen else ("frozen", id(v))))
        return tuple(sig)

    def modnames(self, loc):
        return [n for n in dict.fromkeys(list(self.names) + sorted(self.info["touched"]) + [n for n in loc if n.startswith("ghost ")]) if n not in self.targets]

    def ghosts(self, state):
        """ghost variables of the contract take the values the invariants give them"""
        for n in [n for n in state if n.startswith("ghost ")]:
            sym.CTX.ghosts[n[6:]] = state.pop(n)

    def templates(self, name, value):
        opts = self.info["opts"].get(name)
        if opts is None:
            f = getattr(sym.CTX, "templates", None)
            opts = list(f(self, name, value) or []) if f else []
            opts.append(Top(value))
            if isinstance(value, G.Tensor):
                opts.append(Dead())
            self.info["opts"][name] = opts
        k = self.info["assign"].get(name, 0)
        return opts[k]

    def __next__(self):
        loc = sys._getframe(1).f_locals
        c = sym.CTX
        if getattr(c, "ghosts", None):
            loc = {**loc, **{f"ghost {k}": v for k, v in c.ghosts.items()}}
        if self.state == 0:
            if self.peeled < self.info["peel"]:
                # run this iteration as it is
                r = const(self.peeled)
                self.peeled += 1
                self.pending = None
                if self.length is not None and not truth(lift(lt(r, self.length))):
                    self.state = 9
                    self.final = {n: loc.get(n, UNBOUND) for n in self.names}
                    raise StopIteration
                self.current = {n: loc.get(n, UNBOUND) for n in list(self.names)}
                return self.get(r)
            return self.cut(loc)
        if self.state == 1:
            self.tail(loc)
            raise PathEnd
        raise EngineError("loop protocol")

    def base(self):
        return const(self.peeled)

    def cut(self, loc):
        c = sym.CTX
        self.entry = {n: loc.get(n, UNBOUND) for n in self.modnames(loc)}
        self.entry_sig = self.signature(loc)
        # initial values satisfy the invariants
        c.loc = loc
        self.groups = {}
        for n, v in self.entry.items():
            if isinstance(v, G.Tensor):
                self.groups.setdefault(id(v), []).append(n)
        self.entry_holder_ids = {id(v) for v in self.holders(loc).values()}
        self.entry_holders = dict(self.holders(loc))
        for n, v in self.entry.items():
            tpl = self.templates(n, v)
            for lab, f in tpl.check(self.base(), v):
                c.ensure(f"loop {self.key}: initially {n}: {tpl.label} {lab}", f, kind="inv", loop=(self.key, n))
        exit_ = c.choose(2, "loop") if self.length is not None else 0
        t = fresh("it", "I") if not (is_const(self.length) if self.length is not None else False) or True else None
        if exit_:
            self.t = self.length
            if not is_const(self.length):
                c.assume(le(self.base(), self.length))
            elif cval(self.length) < self.peeled:
                raise PathEnd
            self.state = 9
            self.final = self.havoc(self.length, loc)
            self.ghosts(self.final)
            if self.targets and len(self.targets) == 1:
                nonempty = lt(self.base(), self.length)
                if c.known(nonempty) is not False:
                    self.final[self.targets[0]] = self.get(sub(self.length, ONE)) if not (is_const(self.length) and cval(self.length) == 0) else UNBOUND
            c.loop_exits.append((self.key, "exhausted", self.length))
            raise StopIteration
        self.t = t
        c.assume(le(self.base(), t))
        if self.length is not None:
            c.assume(lt(t, self.length))
        c.ghost[self.key] = t
        self.current = self.havoc(t, loc)
        self.ghosts(self.current)
        self.state = 1
        ACTIVE.append(self)
        self.mut.clear()
        self.start_holders = {id(v) for v in self.current.values() if isinstance(v, G.Tensor)}
        return self.get(t)

    def havoc(self, t, loc):
        out, done = {}, {}
        for n, v in self.entry.items():
            tpl = self.templates(n, v)
            if isinstance(v, G.Tensor):
                if id(v) in done:
                    out[n] = done[id(v)]
                    continue
                val = tpl.havoc(t)
                if v.frozen and n not in self.info["touched"] and not isinstance(tpl, Same):
                    pass
                h = G.mk_tensor(val, v.name) if isinstance(val, G.Val) else val
                done[id(v)] = h
                out[n] = h
            else:
                out[n] = tpl.havoc(t)
        return out

    def vals(self, names):
        src = self.final if self.state == 9 else self.current
        f = sys._getframe(1).f_locals
        res = []
        for n in names:
            if n in src:
                res.append(src[n])
            else:
                res.append(f.get(n, UNBOUND))
        # tensors that are mutated in the body but never rebound there
        extra = [n for n in src if n not in names and n in self.info["touched"]]
        for n in extra:
            h = f.get(n)
            if isinstance(h, G.Tensor) and isinstance(src[n], G.Tensor) and h is not src[n]:
                h._v = src[n]._v
                if h.frozen:
                    raise EngineError("frozen tensor mutated in a loop")
        return tuple(res)

    def tail(self, loc):
        c = sym.CTX
        if self in ACTIVE:
            ACTIVE.remove(self)
        new = set()
        for n, h in self.entry_holders.items():
            if id(h) in self.mut and n not in self.entry and not h.frozen:
                new.add(n)
        if new - self.info["touched"]:
            self.info["touched"] |= new
            raise Restart
        sig = self.signature(loc)
        if sig != self.entry_sig and self.info["peel"] < 1 and self._needs_peel(sig):
            self.info["peel"] += 1
            self.info["opts"].clear()
            raise Restart
        t1 = add(self.t, ONE)
        c.loc = loc
        for n, v0 in self.entry.items():
            tpl = self.templates(n, v0)
            v = loc.get(n, UNBOUND)
            for lab, f in tpl.check(t1, v):
                c.ensure(f"loop {self.key}: preserved {n}: {tpl.label} {lab}", f, kind="inv", loop=(self.key, n))

    def _needs_peel(self, sig):
        """sharing between loop variables that did not exist at entry"""
        def part(s):
            d = {}
            for n, k in s:
                d.setdefault(k, []).append(n)
            return sorted(map(tuple, d.values()))
        a, b = part(self.entry_sig), part(sig)
        names = {n for n, _ in self.entry_sig} & {n for n, _ in sig}
        f = lambda p: sorted(tuple(x for x in g if x in names) for g in p)
        return f(a) != f(b)


def loop(lid, it, names, targets, loc):
    if isinstance(it, (C.SymSet, C.SymGen, C.MapItems)):
        raise Unsupported(f"loop over a symbolic set ({lid})")
    if isinstance(it, G.TensorOps):
        it = it.to_coo(values=False)[0]
    if isinstance(it, C.SymMap) and it.order is not None:
        it = C.SymList(it.size_, it.order)
    if hasattr(it, "_symiter"):
        s = it._symiter()
        if s is not None:
            length, get = s
            if is_const(length) and cval(length) <= 8:
                return NativeLoop([get(const(i)) for i in range(cval(length))])
            return Loop(lid, length, get, names, targets)
    o = own_iter(it)
    if o is not None:
        return loop(lid, C.SymList(o.size, o.get), names, targets, loc)
    return NativeLoop(it)


def wloop(lid, names, loc):
    if not getattr(sym.CTX, "cut_while", True):
        def forever():
            k = 0
            while True:
                k += 1
                if k > 2000:
                    raise Unsupported("while loop does not end")
                yield k
        return NativeLoop(forever())
    return Loop(lid, None, lambda r: lift(r), names, ())


# ------------------------------------------------------------------ invariant templates
def same_value(a, b):
    """list of (label, formula) saying that two Python-level values agree"""
    if isinstance(a, G.TensorOps):
        va = a._val()
    else:
        va = a
    if isinstance(b, G.TensorOps):
        vb = b._val()
    else:
        vb = b
    if isinstance(va, G.Val) and isinstance(vb, G.Val):
        out = [("dtype", const(va.dt is vb.dt))]
        if len(va.shape) != len(vb.shape):
            return [("rank", FALSE)]
        for x, y in zip(va.shape, vb.shape):
            out.append(("shape", eq(x, y)))
        idx = tuple(idx_for(d, k) for k, d in enumerate(va.shape))
        pa, xa = va.at(*idx)
        pb, xb = vb.at(*idx)
        out.append(("structure", Iff(pa, pb)))
        x, y = G._num2(xa, xb)
        if not (is_const(x) and is_const(y) and x is y):
            out.append(("values", Implies(And(pa, pb), eq(x, y))))
        return out
    if is_scalarish(va) and is_scalarish(vb):
        x, y = term_of(va), term_of(vb)
        if x.sort == "K" or y.sort == "K":
            return [("label", eq(x, y) if x.sort == y.sort else FALSE)]
        x, y = G._num2(x, y)
        return [("value", eq(x, y))]
    if va is vb:
        return []
    return [("value", FALSE)]


def is_scalarish(v):
    return isinstance(v, (bool, int, float)) or is_sym(v)


_idxmemo = {}


def idx_for(dim, k=0, tag="ix"):
    if is_const(dim):
        return index(f"{tag}{k}<{cval(dim)}", dim)
    key = (dim, k, tag)
    if key not in _idxmemo:
        _idxmemo[key] = index(f"{tag}{k}_{dim.uid}", dim)
    return _idxmemo[key]


class Template:
    label = "?"

    def havoc(self, t):
        raise NotImplementedError

    def check(self, t, v):
        return []


class Def(Template):
    """the variable is exactly fn(t): a Val or a Python-level scalar"""

    def __init__(self, label, fn):
        self.label, self.fn = label, fn

    def havoc(self, t):
        return self.fn(t)

    def check(self, t, v):
        if v is UNBOUND:
            return [("bound", FALSE)]
        return same_value(v, self.fn(t))


class DefAfter(Def):
    """unbound before the loop, exactly fn(t) once an iteration has run"""

    def havoc(self, t):
        return self.fn(t) if P.prove(sym.CTX.hyps, le(ONE, t), scale=0.2)[0] == "proved" else UNBOUND

    def check(self, t, v):
        if v is UNBOUND:
            return [("bound after an iteration", lt(t, ONE))]
        return same_value(v, self.fn(t))


class Same(Def):
    def __init__(self, v):
        val = v._v if isinstance(v, G.Tensor) else v
        Def.__init__(self, "unchanged", lambda t: val)


class Rel(Template):
    """the tensor satisfies inv(t, idx, pres, val) at every index (a list of formulas)"""

    def __init__(self, label, shape, dt, inv):
        self.label, self.shape, self.dt, self.inv = label, shape, dt, inv

    def havoc(self, t):
        v = fresh_val(self.shape, self.dt, "h")
        pn, vn = v.names

        def ax(*idx):
            return [Implies(And(*[C.inr(i, d) for i, d in zip(idx, self.shape)]), f) for f in self.inv(t, idx, *v.at(*idx))]
        P.AXIOMS[pn] = ax
        P.AXIOMS[vn] = ax
        return v

    def check(self, t, v):
        if not isinstance(v, G.TensorOps):
            return [("tensor", FALSE)]
        w = v._val()
        idx = tuple(idx_for(d, k) for k, d in enumerate(w.shape))
        if w.dt is not self.dt:
            return [("dtype", FALSE)]
        return [(f"[{k}]", f) for k, f in enumerate(self.inv(t, idx, *w.at(*idx)))]


class ScalarRel(Template):
    def __init__(self, label, sort, inv):
        self.label, self.sort, self.inv = label, sort, inv

    def havoc(self, t):
        x = fresh("s", self.sort)
        for f in self.inv(t, x):
            sym.CTX.assume(f)
        return lift(x)

    def check(self, t, v):
        if not is_scalarish(v):
            return [("number", FALSE)]
        x = term_of(v)
        return [(f"[{k}]", f) for k, f in enumerate(self.inv(t, x))]


class NVal(G.Val):
    __slots__ = ("names",)


def fresh_val(shape, dt, prefix="f", symmetric=False, nonempty=False):
    """an arbitrary tensor"""
    k = next(C._n)
    pn, vn = f"{prefix}p{k}", f"{prefix}v{k}"
    if symmetric:
        rule = lambda a: None if a[0].uid <= a[1].uid else (a[1], a[0])
        TM.APP_RULES[pn] = TM.APP_RULES[vn] = rule
    v = NVal(shape, dt, lambda *i: (app(pn, i, "B"), app(vn, i, dt.sort)))
    v.names = (pn, vn)
    return v


class Dead(Template):
    """nothing is known about the variable: any use of its old value is out of reach"""
    label = "not used"

    def havoc(self, t):
        return Havocked


class Top(Template):
    label = "any value"

    def __init__(self, v):
        self.v = v

    def havoc(self, t):
        v = self.v
        if isinstance(v, G.Tensor):
            return fresh_val(v._v.shape, v._v.dt, "top")
        if isinstance(v, (bool, SymBool)):
            return lift(fresh("b", "B"))
        if isinstance(v, SymNum):
            return lift(fresh("x", v.t.sort))
        if isinstance(v, int):
            return lift(fresh("x", "I"))
        if isinstance(v, float):
            return lift(fresh("x", "R"))
        if isinstance(v, SymKey):
            return lift(fresh("k", "K"))
        if v is None:
            return Havocked
        return UNBOUND

    def check(self, t, v):
        w = self.v
        if isinstance(w, G.Tensor):
            if not isinstance(v, G.Tensor):
                return [("tensor", FALSE)]
            if v._v.dt is not w._v.dt:
                return [("dtype", FALSE)]
            return [("shape", eq(a, b)) for a, b in zip(v._v.shape, w._v.shape)]
        if isinstance(w, (bool, SymBool)):
            return [("type", const(isinstance(v, (bool, SymBool))))]
        if isinstance(w, (int, float, SymNum)):
            if not is_scalarish(v):
                return [("type", FALSE)]
            s0 = term_of(w).sort
            return [("type", const(term_of(v).sort == s0 or s0 == "R"))]
        return []


class _Hav:
    """a variable whose value at the cut is not described; any use is outside the subset"""

    def _die(self, *a, **k):
        raise Unsupported("use of a loop variable that no invariant describes")

    __bool__ = __add__ = __radd__ = __mul__ = __lt__ = __le__ = __gt__ = __ge__ = __getattr__ = __call__ = _die


Havocked = _Hav()


# ------------------------------------------------------------------ builtins seen by the verified text
class TypeProxy:
    def __init__(self, pytype, fn):
        object.__setattr__(self, "_pytype", pytype)
        object.__setattr__(self, "_fn", fn)

    def __call__(self, *a, **k):
        return self._fn(*a, **k)

    def __eq__(self, o):
        return o is self or getattr(o, "_pytype", o) is self._pytype or (isinstance(o, G.DT) and o == self._pytype)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self._pytype)

    def __mro_entries__(self, bases):
        return (self._pytype,)

    def __getattr__(self, n):
        return getattr(self._pytype, n)

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __getitem__(self, k):
        return self

    def __repr__(self):
        return f"<{self._pytype.__name__}>"


def v_len(o):
    f = getattr(o, "_vlen", None)
    if f is not None:
        return f()
    m = type(o).__dict__.get("__len__") or getattr(type(o), "__len__", None)
    if m is not None and getattr(m, "__globals__", {}).get("_vc_") is not None:
        return m(o)
    return builtins.len(o)


def v_range(*a):
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    a = [x.t if False else x for x in a]
    if any(isinstance(x, (float,)) or (isinstance(x, SymNum) and x.t.sort == "R") for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        s = C.SymRange(0, a[0], 1)
    else:
        s = C.SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return s


def symish(x):
    return hasattr(x, "_symiter") and x._symiter() is not None


def v_pairwise(x):
    if symish(x):
        l, g = x._symiter()
        return C.SymList(tmax(sub(l, ONE), ZERO), lambda r: (g(r), g(add(r, ONE))))
    return itertools.pairwise(x)


def v_zip(*a, strict=False):
    if any(symish(x) or isinstance(x, C.SymGen) for x in a):
        return C.SymZip(a, strict)
    return builtins.zip(*a, strict=strict)


def upto(a, b):
    """range(a, b) of a loop that counts by hand"""
    for x in (a, b):
        if not (isinstance(x, int) and not isinstance(x, bool) or isinstance(x, SymNum) and x.t.sort == "I"):
            raise Unsupported("a counter that is not an integer")
    return C.SymRange(a, b, 1) if isinstance(a, SymNum) or isinstance(b, SymNum) else range(a, b)


def past(a, b):
    """the counter after the last round"""
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    x, y = term_of(a), term_of(b)
    return lift(ite(lt(x, y), y, x))


def unzip(x, strict=False):
    if isinstance(x, C.SymGen):
        k = len(x.elem)
        return tuple(C.SymGen(x.base, x.x, x.elem[i], x.kind, x.length, x.member) for i in range(k))
    if symish(x):
        l, g = x._symiter()
        r = index(f"x!{next(C._n)}", l)
        e = g(r)
        return tuple(C.SymList(l, lambda q, i=i: g(q)[i]) for i in range(len(e)))
    x = tuple(x)
    return v_zip(*x, strict=strict)


def v_enumerate(x, start=0):
    if symish(x):
        return C.SymEnumerate(x, start)
    return builtins.enumerate(x, start)


def _term_num(x):
    return toint(term_of(x))


def v_minmax(which):
    def f(*a, **k):
        items = a if len(a) > 1 else None
        if items is None:
            if isinstance(a[0], (C.SymList, C.SymArr, C.SymGen)) and not isinstance(a[0], C.ConcArr):
                raise Unsupported(f"{which} of a symbolic collection")
            items = list(a[0])
        if k or not any(is_sym(x) or isinstance(x, (G.Scalar, G.ScalarExpr)) for x in items):
            return getattr(builtins, which)(*a, **k)
        r = _term_num(items[0])
        for x in items[1:]:
            r = (tmin if which == "min" else tmax)(r, _term_num(x))
        return lift(r)
    return f


def v_sum(x, start=0):
    if isinstance(x, C.SymGen) and x.kind == "set":
        raise Unsupported("sum over a symbolic set")
    if symish(x):
        l, g = x._symiter()
        return lift(tsum(l, lambda r: _term_num(g(r)))) + start
    return builtins.sum(x, start)


def v_sorted(x, *, key=None, reverse=False):
    if isinstance(x, (C.SymSet, C.SymMap)):
        s = C.as_set(x)
        if key is None or reverse:
            raise Unsupported("sorted of labels without key")
        k0 = var(f"x!{next(C._n)}", s.sort)
        ctx = sym.CTX
        saved = list(ctx.hyps), set(ctx.hset)
        ctx.assume(s.member(k0))
        try:
            kt = term_of(key(SymKey(k0)))
        finally:
            ctx.hyps, ctx.hset = saved
        owner = getattr(key, "__self__", None)
        if isinstance(owner, C.SymMap) and owner.bij is not None:
            keyf, n = owner.bij
            memo = sym.CTX.memo.setdefault("sorted", {})
            probe = var("probe!", "I", n)
            h = idx_for(n, 0)
            if s.member(keyf(h)) is TRUE:
                return C.SymList(n, lambda r: SymKey(keyf(r)))
            mk = (s.member(keyf(probe)), n)
            if mk not in memo:
                memo[mk] = C.Enum(n, lambda i: s.member(keyf(i)))
            E = memo[mk]
            r = C.SymList(E.length, lambda r: SymKey(keyf(E.el(r))))
            r.enum = E
            return r
        raise Unsupported("sorted by a key that is not a position map")
    if symish(x) or isinstance(x, C.SymGen):
        raise Unsupported("sorted of a symbolic sequence")
    return builtins.sorted(x, key=key, reverse=reverse)


def v_isinstance(x, t):
    if isinstance(t, tuple):
        return any(v_isinstance(x, u) for u in t)
    p = getattr(t, "_pytype", t)
    if isinstance(p, type):
        if p is bool and isinstance(x, SymBool):
            return True
        if p is int and (isinstance(x, SymBool) or (isinstance(x, SymNum) and x.t.sort == "I")):
            return True
        if p is float and isinstance(x, SymNum) and x.t.sort == "R":
            return True
        if p is set and isinstance(x, C.SymSet):
            return True
        if p is dict and isinstance(x, C.SymMap):
            return True
        if p is list and isinstance(x, C.SymList):
            return True
        if p is str and isinstance(x, SymKey):
            return False
        if p is numbers.Number and isinstance(x, (SymNum, SymBool)):
            return True
        return isinstance(x, p)
    return isinstance(x, p)


def v_int(x=0, *a):
    if isinstance(x, (SymNum, SymBool, G.Scalar, G.ScalarExpr)):
        t = toint(term_of(x))
        if t.sort == "I":
            return lift(t)
        return lift(G.cast(t, G.FP64, G.INT64))
    return builtins.int(x, *a)


def v_float(x=0.0):
    if hasattr(x, "_vfloat"):
        return x._vfloat()
    if isinstance(x, (SymNum, SymBool, G.Scalar, G.ScalarExpr)):
        return lift(toreal(term_of(x)))
    return builtins.float(x)


def v_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return lift(ne(x.t, ZERO))
    return builtins.bool(x)


def v_set(x=()):
    if isinstance(x, C.SymSet):
        return x
    if isinstance(x, C.SymGen):
        return C.gen_set(x)
    if isinstance(x, C.SymMap):
        return x.keys()
    if symish(x):
        l, g = x._symiter()
        r = index(f"x!{next(C._n)}", l)
        s = C.gen_set(C.SymGen(x, r, g(r), "seq", l))
        return s
    return builtins.set(x)


def v_dict(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, C.SymMap):
            return x.copy()
        if symish(x):
            l, g = x._symiter()
            r = index(f"x!{next(C._n)}", l)
            kk, vv = g(r)
            return C.make_map("seq", r, kk, vv, l, None)
    return builtins.dict(*a, **k)


def v_list(x=()):
    if isinstance(x, C.SymList):
        return C.SymList(x.length, x._getf)
    if isinstance(x, C.SymMap):
        if x.order is None:
            raise Unsupported("list of a symbolic dict")
        return C.SymList(x.size_, x.order)
    if symish(x):
        l, g = x._symiter()
        return C.SymList(l, g)
    if isinstance(x, C.SymGen):
        return x
    it = own_iter(x)
    if it is not None:
        return C.SymList(it.size, it.get)
    return builtins.list(x)


def own_iter(x):
    """iteration of an object of the verified text whose __iter__ walks a symbolic collection"""
    f = getattr(type(x), "__iter__", None)
    if f is not None and getattr(f, "__globals__", {}).get("_vc_") is not None:
        it = f(x)
        if isinstance(it, C.SymIterator):
            return it
    return None


def v_reversed(x):
    if symish(x):
        l, g = x._symiter()
        return C.SymList(l, lambda r: g(sub(sub(l, ONE), r)))
    return builtins.reversed(x)


def v_iter(x, *a):
    if isinstance(x, C.SymList):
        return C.SymIterator(x.length, x.get)
    return builtins.iter(x, *a)


def v_abs(x):
    return abs(x)


BUILTINS = {}


def make_builtins(loader):
    b = dict(builtins.__dict__)
    b.update(len=v_len, range=TypeProxy(range, v_range), zip=v_zip, enumerate=v_enumerate, min=v_minmax("min"), max=v_minmax("max"),
             sum=v_sum, sorted=v_sorted, isinstance=v_isinstance, int=TypeProxy(int, v_int), float=TypeProxy(float, v_float),
             bool=TypeProxy(bool, v_bool), set=TypeProxy(set, v_set), dict=TypeProxy(dict, v_dict), list=TypeProxy(list, v_list),
             reversed=v_reversed, iter=v_iter)
    b["__import__"] = loader.do_import
    return b


class VC:
    loop = staticmethod(loop)
    wloop = staticmethod(wloop)
    comp = staticmethod(C.comp)
    unzip = staticmethod(unzip)
    upto = staticmethod(upto)
    past = staticmethod(past)
    fstr = staticmethod(fstr)


# ------------------------------------------------------------------ numpy contracts
class NpModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"numpy.{n}")


def np_stub():
    np = NpModule("numpy")
    np.ndarray = C.SymArr
    np.integer, np.number, np.floating, np.bool_ = (type(k, (), {}) for k in ("integer", "number", "floating", "bool_"))

    def issubdtype(dt, kind):
        try:
            d = dt.dt if isinstance(dt, G.NpType) else G.lookup_dtype(dt)
        except Exception as e:
            raise Unsupported(f"np.issubdtype: {e}") from e
        if kind is np.integer:
            return d.sort == "I"
        if kind is np.floating:
            return d.sort == "R"
        if kind is np.bool_:
            return d.sort == "B"
        if kind is np.number:
            return d.sort in "IR"
        raise Unsupported("np.issubdtype")
    np.issubdtype = issubdtype
    for k in ("uint64", "int64", "float64", "int32", "uint8"):
        setattr(np, k, G.lookup_dtype(k))

    def fromiter(it, dtype, count=-1):
        if isinstance(it, C.SymGen):
            if it.kind == "seq":
                return C.SymArr(it.length, lambda r: term_of(it.at(r)))
            raise Unsupported("array of a symbolic set")
        if symish(it):
            l, g = it._symiter()
            return C.SymArr(l, lambda r: term_of(g(r)))
        return C.ConcArr([term_of(x) for x in it], G.lookup_dtype(dtype))
    np.fromiter = fromiter

    def arange(n, dtype=None):
        t = term_of(n)
        if is_const(t):
            return C.ConcArr([const(i) for i in range(cval(t))])
        return C.SymArr(t, lambda r: r)
    np.arange = arange

    def ones(n, dtype=None):
        if isinstance(n, tuple):
            (n,) = n
        t = term_of(n)
        dt = G.lookup_dtype(dtype) if dtype is not None else G.FP64
        if is_const(t):
            return C.ConcArr([dt.one] * cval(t), dt)
        return C.SymArr(t, lambda r: dt.one, dt)
    np.ones = ones

    def lexsort(keys):
        return LexOrder(keys)
    np.lexsort = lexsort

    def array_equal(a, b):
        if isinstance(a, C.ValueArr) and isinstance(b, C.ValueArr):
            return multiset_equal(a, b)
        raise Unsupported("array_equal")
    np.array_equal = array_equal

    def pad(a, width, *x, **k):
        if isinstance(a, C.ValueArr) and not x and not k and isinstance(width, tuple) and len(width) == 2:
            r = C.ValueArr(a.length, a._get, a.dt)
            r.src, r.sorted_, r.pad = a.src, a.sorted_, width
            return r
        raise Unsupported("np.pad")
    np.pad = pad
    return np


class LexOrder:
    def __init__(self, keys):
        self.keys = keys


def _va_getitem(self, k):
    if isinstance(k, LexOrder):
        # rows of equal-length columns sorted lexicographically: the multiset of rows, seen in this column
        if not any(x is self for x in k.keys):
            raise Unsupported("fancy indexing")
        r = C.ValueArr(self.length, self._get, self.dt)
        r.src, r.sorted_, r.rows = self.src, True, tuple(x.src for x in k.keys)
        return r
    return C.SymArr.__getitem__(self, k)


C.ValueArr.__getitem__ = _va_getitem
C.ValueArr.rows = None


def multiset_equal(a, b):
    """equal as sorted arrays: proved through the bijection the contract supplies, otherwise unknown"""
    ctx = sym.CTX
    pi = getattr(ctx, "bijection", None)
    if not (a.sorted_ and b.sorted_):
        raise Unsupported("array_equal of unsorted arrays")
    ra = a.rows or (a.src,)
    rb = b.rows or (b.src,)
    if pi is not None and len(ra) == len(rb):
        i = idx_for(ra[0].shape[0], 0, "perm")
        j = pi(i)
        goal = []
        for x, y in zip(ra, rb):
            px, vx = x.at(i)
            py, vy = y.at(j)
            u, w = G._num2(vx, vy)
            goal += [Iff(px, py), Implies(px, eq(u, w))]
        # all columns share the same stored positions
        for x in ra[1:]:
            goal.append(Iff(x.at(i)[0], ra[0].at(i)[0]))
        r, _ = P.prove(ctx.hyps, And(*goal), total=6.0)
        ctx.notes.append(f"multisets equal through the relabeling: {r}")
        if r == "proved":
            return True
    if truth(lift(fresh("aeq", "B"))):
        # equal: the two multisets of rows agree in this column
        ctx.__dict__.setdefault("array_equal", []).append((ra, a.src, rb, b.src))
        return True
    return False


# ------------------------------------------------------------------ loader
class Loader:
    def __init__(self, repo="/repo", patches=None):
        self.repo = repo
        self.mods = {}
        self.gb = G.build_modules()
        self.np = np_stub()
        self.builtins = make_builtins(self)
        self.sources = {}

    def path(self, name):
        import os
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        import os
        path, pkg = self.path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        src = open(path).read()
        self.sources[name] = src
        tree = ast.parse(src, path)
        tree = Pass(name).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_vc_"] = VC

        self.mods[name] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m

    def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = f"{pkg}.{name}" if name else pkg
        else:
            full = name
        top = full.split(".")[0]
        if top == "graphblas_algorithms":
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(f"{full}.{f}")
                        except ModuleNotFoundError:
                            pass
                return m
            return m if level else self.load(top)
        if top == "graphblas":
            if fromlist:
                if full in self.gb:
                    return self.gb[full]
                raise Unsupported(f"import {full}")
            return self.gb["graphblas"]
        if top == "numpy":
            return self.np
        if top == "itertools":
            m = types.ModuleType("itertools")
            m.__dict__.update(itertools.__dict__)
            m.pairwise = v_pairwise
            return m
        if full == "importlib.metadata":
            m = types.ModuleType("importlib")
            m.metadata = types.SimpleNamespace(version=lambda n: "0")
            return m
        return importlib.__import__(name, globals, locals, fromlist, level)


# ------------------------------------------------------------------ driver
class Result:
    def __init__(self, name):
        self.name, self.status, self.obligations, self.reason = name, None, [], None
        self.paths = 0
        self.time = 0.0
        self.notes = []


class Harness:
    """one function under contract"""

    def __init__(self, name, fn, functions=(), max_paths=3000, prove_kw=None, fallback=True):
        self.name, self.fn, self.functions, self.max_paths = name, fn, list(functions), max_paths
        self.prove_kw = prove_kw or {}


def verify(h, budget=300.0):
    """run the harness over the repository text and discharge every obligation"""
    t0 = time.time()
    res = Result(h.name)
    loopinfo = {}
    cache = {}
    try:
        for attempt in range(40):
            ex_ = Explorer(h.fn, h.max_paths)
            ex_.loopinfo = loopinfo
            try:
                obs = ex_.run()
            except Restart:
                continue
            # loop obligations first
            bad, early = set(), set()
            results = []
            uniq = {}
            for o in obs:
                k = (o.name, o.hyps, o.goal)
                uniq.setdefault(k, o)
            obs = list(uniq.values())
            for o in sorted(obs, key=lambda o: ": initially " not in o.name):
                if o.loop is None or (early and ": initially " not in o.name):
                    continue
                r = discharge(o, cache, h, t0, budget)
                results.append((o, r))
                if r != "proved":
                    bad.add(o.loop)
                    if ": initially " in o.name:
                        early.add(o.loop)
            # a candidate that does not hold at entry fails whatever the others are
            if early:
                bad = early
            moved = False
            for key, n in bad:
                info = loopinfo[key]
                opts = info["opts"].get(n)
                if opts and info["assign"].get(n, 0) < len(opts) - 1:
                    info["assign"][n] = info["assign"].get(n, 0) + 1
                    moved = True
            if moved:
                continue
            for o in obs:
                if o.loop is not None:
                    continue
                results.append((o, discharge(o, cache, h, t0, budget)))
            res.paths = ex_.paths
            res.obligations = [(o.name, r, o.kind, o.path) for o, r in results]
            res.invariants = {k: {n: i["opts"][n][i["assign"].get(n, 0)].label for n in i["opts"]} for k, i in loopinfo.items()}
            res.ends = [e[0] for e in ex_.ends]
            res.notes = [n for e in ex_.ends for n in e[2]]
            fails = [x for x in res.obligations if x[1] != "proved"]
            if not res.obligations:
                res.status, res.reason = "empty", "no obligation was generated"
            elif not fails:
                res.status = "proved"
                # vacuity: at least one path must reach its end with satisfiable hypotheses
                if not any(e in ("done", "exception") for e in res.ends):
                    res.status, res.reason = "vacuous", "no path reaches the postcondition"
                elif os.environ.get("VF_VACUITY"):
                    # maintenance: the hypotheses of at least one path must not be refutable
                    last = {}
                    for o, _ in results:
                        last[str(o.path)] = o
                    if all(P.prove(list(o.hyps), FALSE, scale=0.3)[0] == "proved" for o in last.values()):
                        res.status, res.reason = "vacuous", "the hypotheses of every path are contradictory"
            else:
                res.status = "failed"
                res.reason = fails[0][0]
            break
        else:
            res.status, res.reason = "failed", "loop invariants did not stabilise"
    except Unsupported as e:
        res.status, res.reason = "unsupported", str(e)
    except RecursionError as e:
        res.status, res.reason = "unsupported", "term too deep"
    res.time = time.time() - t0
    return res


class Budget(Exception):
    pass


def discharge(o, cache, h, t0, budget):
    k = (frozenset(o.hyps), o.goal)
    r = cache.get(k)
    if r is None:
        if time.time() - t0 > budget:
            raise Unsupported("time budget of the proof exhausted")
        r, p = P.prove(list(o.hyps), o.goal, **h.prove_kw)
        cache[k] = r
    return r
