"""cxxvc core: types, value trees, lvalues, states.

Values are trees (nested dicts) whose leaves are z3 terms.  A double is
{'k': Int in {-1:-inf,0:finite,1:+inf,2:NaN}, 'r': Real}.  A container of T is
{'len': Int, 'at': tree(T) with every leaf lifted to Array(Int, leaf)}.
"""
import json, itertools
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


_ForAll, _Exists = z3.ForAll, z3.Exists


def _okpat(p):
    stack, seen = [p], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return False
        stack.extend(x.children())
    return True


def _quant(mk):
    def f(vs, body, patterns=(), **kw):
        ps = [p for p in patterns if not isinstance(p, z3.PatternRef) and _okpat(p) or isinstance(p, z3.PatternRef)]
        try:
            return mk(vs, body, patterns=ps, **kw) if ps else mk(vs, body, **kw)
        except z3.Z3Exception:
            return mk(vs, body, **kw)
    return f


z3.ForAll, z3.Exists = _quant(_ForAll), _quant(_Exists)


class Unsupported(Exception):
    pass


def iv(n):
    return z3.IntVal(n)


_ctr = itertools.count()


def fresh_name(p):
    return "%s!%d" % (p, next(_ctr))


# ------------------------------------------------------------------ types
class Unit:
    """One dumped translation unit."""

    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.funcs = {}
        self.byname = {}
        for f in d["funcs"]:
            self.funcs[f["d"]] = f
            self.byname.setdefault(f["n"], []).append(f)
        self.records = {r["d"]: r for r in d["records"]}
        self._norm = {}
        self._shape = {}

    def norm(self, ti):
        if ti in self._norm:
            return self._norm[ti]
        r = self._norm_(ti)
        self._norm[ti] = r
        return r

    def targs(self, t):
        out = []
        for a in t.get("a", []):
            if isinstance(a, dict) and "pack" in a:
                out += a["pack"]
            else:
                out.append(a)
        return out

    def _norm_(self, ti):
        t = self.types[ti]
        k = t["k"]
        if k == "builtin":
            n = t["n"]
            if n == "bool":
                return ("bool",)
            if n in ("double", "float", "long double"):
                return ("dbl",)
            if n == "void":
                return ("void",)
            if "bits" in t:
                return ("int", t["bits"], t["signed"], n)
            return ("opaque", n)
        if k == "enum":
            return ("enum", t["n"], tuple((e["n"], e["v"]) for e in t["e"]))
        if k == "ptr":
            return ("ptr", self.norm(t["to"]))
        if k in ("lref", "rref"):
            return ("lref", self.norm(t["to"]))
        if k == "array":
            return ("vec", self.norm(t["to"]), "carray", t["n"])
        if k == "func":
            return ("func",)
        if k == "record":
            n = t["n"]
            if t["d"] in self.records and not n.startswith("std::"):
                if t.get("lambda"):
                    return ("lambda",)
                if n == "WordContainer" or n == "AnsContainer" or True:
                    return ("rec", n, t["d"])
            if t.get("lambda"):
                return ("lambda",)
            a = self.targs(t)

            def ta(i):
                return self.norm(a[i])
            if n == "std::pair":
                return ("pair", ta(0), ta(1))
            if n == "std::tuple":
                return ("tuple",) + tuple(self.norm(x) for x in a)
            if n in ("std::vector", "std::deque", "std::valarray", "std::initializer_list"):
                return ("vec", ta(0), n.split("::")[1])
            if n == "std::stack":
                return ("vec", ta(0), "stack")
            if n == "std::array":
                return ("vec", ta(0), "array", a[1]["v"])
            if n in ("std::shared_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__weak_ptr",
                     "std::__shared_ptr_access"):
                return ("ref", ta(0))
            if n in ("std::unordered_map", "boost::unordered::unordered_map", "std::map", "boost::unordered_map"):
                return ("umap", ta(0), ta(1))
            if n in ("std::unordered_set", "std::set", "boost::unordered::unordered_set"):
                return ("uset", ta(0))
            if n == "boost::adjacency_list":
                # listS edges, vecS vertices: vertices are indices; the out-edges of each in the order of insertion
                ix = ("int", 64, False, "unsigned long")
                return ("vec", ("pair", ta(3), ("vec", ("pair", ix, ta(4)), "boost-edges")), "boost-graph")
            if n == "boost::range_detail::integer_iterator" or n.startswith(("boost::iterators::iterator_facade",
                                                                             "boost::iterators::detail::iterator_facade")):
                # (the facade of an iterator stands for the iterator itself, its first argument)
                return ta(0)
            if n in ("boost::detail::out_edge_iter", "boost::detail::edge_desc_impl", "boost::detail::edge_base"):
                ix = ("int", 64, False, "unsigned long")
                return ("pair", ix, ix)
            if n == "boost::variant":
                return ("variant",) + tuple(self.norm(x) for x in a)
            if n == "Eigen::Matrix":
                return ("mat", ta(0))
            if n.startswith("Eigen::"):
                return ("eig", n)
            if n == "__gnu_cxx::__normal_iterator" or n in ("std::_Deque_iterator", "std::_Bit_iterator", "std::_Bit_const_iterator", "std::reverse_iterator"):
                return ("iter",)
            if n.startswith("std::__detail::_Node_"):
                return ("miter",)
            return ("opaque", n)
        return ("opaque", t.get("n", "?"))

    def fields(self, did):
        """(name, tidx, initexpr) including bases."""
        r = self.records[did]
        out = []
        for b in r["b"]:
            bn = self.norm(b)
            if bn[0] == "rec":
                out += self.fields(bn[2])
            elif bn[0] in ("vec", "umap"):
                out.append(("__std", b, None))
        for f in r["f"]:
            out.append((f["n"], f["t"], f.get("init")))
        return out

    def find(self, name, params=None):
        """function bodies by qualified name (and parameter type substrings)"""
        c = self.byname.get(name, [])
        if params is not None:
            c = [f for f in c if len(f["p"]) == len(params) and all(
                s in self.types[p]["s"] for s, p in zip(params, f["p"]))]
        return c


REC_UNIT = [None]


def set_unit(u):
    REC_UNIT[0] = u


def shape(ty, leaf):
    """build a tree for type ty, calling leaf(path, sort, ty)"""
    return _shape(ty, leaf, (), ())


def _shape(ty, leaf, path, stack):
    k = ty[0]
    if k == "bool":
        return leaf(path, B, ty)
    if k in ("int", "enum", "ref", "ptr", "func", "opaque", "miter"):
        return leaf(path, I, ty)
    if k == "dbl":
        return {"k": leaf(path + ("k",), I, ("dblk",)), "r": leaf(path + ("r",), R, ("dblr",))}
    if k == "pair":
        return {"first": _shape(ty[1], leaf, path + ("first",), stack), "second": _shape(ty[2], leaf, path + ("second",), stack)}
    if k == "tuple":
        return {str(i): _shape(t, leaf, path + (str(i),), stack) for i, t in enumerate(ty[1:])}
    if k == "vec":
        def l2(p, s, t):
            return leaf(p, z3.ArraySort(I, s), ("arr", t))
        return {"len": leaf(path + ("len",), I, ("len",)), "at": _shape(ty[1], l2, path + ("at",), stack)}
    if k == "mat":
        def l3(p, s, t):
            return leaf(p, z3.ArraySort(I, z3.ArraySort(I, s)), ("arr", ("arr", t)))
        return {"rows": leaf(path + ("rows",), I, ("len",)), "cols": leaf(path + ("cols",), I, ("len",)),
                "at": _shape(ty[1], l3, path + ("at",), stack)}
    if k == "variant":
        d = {"which": leaf(path + ("which",), I, ("which", len(ty) - 1))}
        for i, t in enumerate(ty[1:]):
            d[str(i)] = _shape(t, leaf, path + (str(i),), stack)
        return d
    if k in ("umap", "uset"):
        ks = keysorts(ty[1])

        def lk(p, s, t):
            for q in reversed(ks):
                s = z3.ArraySort(q, s)
                t = ("arr", t)
            return leaf(p, s, t)
        d = {"has": lk(path + ("has",), B, ("bool",))}
        if k == "umap":
            d["at"] = _shape(ty[2], lk, path + ("at",), stack)
        return d
    if k == "rec":
        if ty[2] in stack:
            raise Unsupported("recursive record by value " + ty[1])
        return {n: _shape(REC_UNIT[0].norm(t), leaf, path + (n,), stack + (ty[2],))
                for n, t, _ in REC_UNIT[0].fields(ty[2])}
    if k in ("void", "eig", "iter", "lambda"):
        raise Unsupported("no value shape for " + str(ty))
    raise Unsupported("shape " + str(ty))


def keysorts(kt):
    out = []

    def lf(p, s, t):
        out.append(s)
        return None
    shape(kt, lf)
    return out


def leaves(tree):
    if isinstance(tree, dict):
        out = []
        for k in tree:
            out += leaves(tree[k])
        return out
    return [tree]


def tmap(f, *ts):
    if isinstance(ts[0], dict):
        return {k: tmap(f, *[t[k] for t in ts]) for k in ts[0]}
    return f(*ts)


def tselect(at, i):
    return tmap(lambda a: z3.Select(a, i), at)


def tstore(at, i, v):
    return tmap(lambda a, x: z3.Store(a, i, x), at, v)


def tite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return tmap(lambda x, y: x if x.eq(y) else z3.If(c, x, y), a, b)


def teq(a, b):
    es = []
    tmap(lambda x, y: es.append(x == y), a, b)
    return z3.And(*es) if es else z3.BoolVal(True)


def tsame(a, b):
    ok = [True]

    def f(x, y):
        if not x.eq(y):
            ok[0] = False
    tmap(f, a, b)
    return ok[0]


def tfresh(ty, name):
    return shape(ty, lambda p, s, t: z3.Const(fresh_name(name + "." + ".".join(p)), s))


def int_range(ty):
    bits, signed = ty[1], ty[2]
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


def scalar_range(t, ty):
    """typing fact of a scalar leaf"""
    k = ty[0]
    if k == "int":
        lo, hi = int_range(ty)
        return [z3.And(t >= lo, t <= hi)]
    if k == "enum":
        return [z3.Or(*[t == v for _, v in ty[2]])]
    if k == "len":
        return [t >= 0]
    if k == "dblk":
        return [z3.And(t >= -1, t <= 2)]
    if k == "which":
        return [z3.And(t >= 0, t < ty[1])]
    if k in ("ref", "ptr"):
        return [t >= 0]
    return []


def ranges(ty, tree):
    out = []

    def lf(p, s, t):
        x = tree
        for q in p:
            x = x[q]
        if t[0] != "arr":
            if p and p[-1] in ("len", "rows", "cols"):
                # containers hold at most PTRDIFF_MAX elements (libstdc++ max_size)
                out.append(z3.And(x >= 0, x <= 2 ** 63 - 1))
            else:
                out.extend(scalar_range(x, t))
        return None
    shape(ty, lf)
    return out


def tzero(ty):
    """value-initialised value"""
    def lf(p, s, t):
        if s == I:
            return iv(0)
        if s == R:
            return z3.RealVal(0)
        if s == B:
            return z3.BoolVal(False)
        if t[0] == "arr" and p[-1] == "has":
            return konst(s, z3.BoolVal(False))
        return konst0(s)
    t = shape(ty, lf)
    if ty[0] == "vec" and len(ty) > 3:
        t["len"] = iv(ty[3])
    return t


def konst(s, v):
    if s.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(s.domain(), konst(s.range(), v))
    return v


def konst0(s):
    if s == I:
        return iv(0)
    if s == R:
        return z3.RealVal(0)
    if s == B:
        return z3.BoolVal(False)
    return z3.K(s.domain(), konst0(s.range()))


# ------------------------------------------------------------------ doubles
def D(r):
    return {"k": iv(0), "r": z3.RealVal(r) if isinstance(r, (int, float, str)) else r}


DINF = {"k": iv(1), "r": z3.RealVal(0)}
DNINF = {"k": iv(-1), "r": z3.RealVal(0)}
DNAN = {"k": iv(2), "r": z3.RealVal(0)}


def kc(d):
    k = d["k"]
    return k.as_long() if z3.is_int_value(k) else None


def dadd(a, b):
    ka, kb = kc(a), kc(b)
    if ka == 0 and kb == 0:
        return {"k": iv(0), "r": a["r"] + b["r"]}
    if ka == 0:
        return {"k": b["k"], "r": a["r"] + b["r"]}
    if kb == 0:
        return {"k": a["k"], "r": a["r"] + b["r"]}
    k = z3.If(a["k"] == 0, b["k"], z3.If(b["k"] == 0, a["k"], z3.If(a["k"] == b["k"], a["k"], iv(2))))
    return {"k": k, "r": a["r"] + b["r"]}


def dneg(a):
    ka = kc(a)
    if ka is not None:
        return {"k": iv(-ka if ka != 2 else 2), "r": -a["r"]}
    return {"k": z3.If(a["k"] == 2, iv(2), -a["k"]), "r": -a["r"]}


def dsub(a, b):
    return dadd(a, dneg(b))


def dsign(a):
    return z3.If(a["k"] != 0, a["k"], z3.If(a["r"] > 0, iv(1), z3.If(a["r"] < 0, iv(-1), iv(0))))


def dmul(a, b):
    if kc(a) == 0 and kc(b) == 0:
        return {"k": iv(0), "r": a["r"] * b["r"]}
    s = dsign(a) * dsign(b) if False else z3.If(
        z3.Or(dsign(a) == 0, dsign(b) == 0), iv(2), z3.If(dsign(a) == dsign(b), iv(1), iv(-1)))
    k = z3.If(z3.And(a["k"] == 0, b["k"] == 0), iv(0),
              z3.If(z3.Or(a["k"] == 2, b["k"] == 2), iv(2), s))
    return {"k": k, "r": a["r"] * b["r"]}


def ddiv(a, b):
    # b == 0 finite -> +-inf or NaN (sign of zero taken positive)
    k = z3.If(z3.Or(a["k"] == 2, b["k"] == 2, z3.And(a["k"] != 0, b["k"] != 0)), iv(2),
              z3.If(b["k"] != 0, iv(0),
                    z3.If(b["r"] == 0, z3.If(dsign(a) == 0, iv(2), dsign(a)),
                          z3.If(a["k"] == 0, iv(0), z3.If(b["r"] > 0, a["k"], -a["k"])))))
    r = z3.If(b["k"] != 0, z3.RealVal(0), a["r"] / b["r"])
    return {"k": k, "r": r}


def dlt(a, b):
    ka, kb = kc(a), kc(b)
    if ka == 0 and kb == 0:
        return a["r"] < b["r"]
    return z3.And(a["k"] != 2, b["k"] != 2,
                  z3.Or(a["k"] < b["k"], z3.And(a["k"] == 0, b["k"] == 0, a["r"] < b["r"])))


def deq(a, b):
    ka, kb = kc(a), kc(b)
    if ka == 0 and kb == 0:
        return a["r"] == b["r"]
    return z3.And(a["k"] == b["k"], a["k"] != 2, z3.Or(a["k"] != 0, a["r"] == b["r"]))


def dle(a, b):
    return z3.Or(dlt(a, b), deq(a, b))


# generic comparison by type (lexicographic for pairs; C++20 <=> semantics)
def cmp_lt(ty, a, b):
    k = ty[0]
    if k == "dbl":
        return dlt(a, b)
    if k == "bool":
        return z3.And(z3.Not(a), b)
    if k == "pair":
        return z3.Or(cmp_lt(ty[1], a["first"], b["first"]),
                     z3.And(cmp_eq(ty[1], a["first"], b["first"]), cmp_lt(ty[2], a["second"], b["second"])))
    if k in ("int", "enum", "ref", "ptr"):
        return a < b
    raise Unsupported("ordering on " + str(ty))


def cmp_eq(ty, a, b):
    k = ty[0]
    if k == "dbl":
        return deq(a, b)
    if k == "pair":
        return z3.And(cmp_eq(ty[1], a["first"], b["first"]), cmp_eq(ty[2], a["second"], b["second"]))
    if k in ("int", "enum", "ref", "ptr", "bool", "miter"):
        return a == b
    if k == "tuple":
        return z3.And(*[cmp_eq(t, a[str(i)], b[str(i)]) for i, t in enumerate(ty[1:])])
    if k == "vec":
        q = z3.Int(fresh_name("q"))
        e = cmp_eq(ty[1], tselect(a["at"], q), tselect(b["at"], q))
        return z3.And(a["len"] == b["len"], z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < a["len"]), e)))
    raise Unsupported("equality on " + str(ty))


def compare(op, ty, a, b):
    if op == "==":
        return cmp_eq(ty, a, b)
    if op == "!=":
        return z3.Not(cmp_eq(ty, a, b))
    if op == "<":
        return cmp_lt(ty, a, b)
    if op == ">":
        return cmp_lt(ty, b, a)
    if op == "<=":
        return z3.Or(cmp_lt(ty, a, b), cmp_eq(ty, a, b))
    if op == ">=":
        return z3.Or(cmp_lt(ty, b, a), cmp_eq(ty, a, b))
    raise Unsupported("compare " + op)


# ------------------------------------------------------------------ values / lvalues
class V:
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t


class LV:
    """root: ('v', varid) | ('h', ty, ref) ; path items: ('f',name) | ('i',idx) | ('m',i,j) | ('k',keytuple)"""
    __slots__ = ("root", "path", "ty")

    def __init__(self, root, path, ty):
        self.root, self.path, self.ty = root, path, ty

    def f(self, name, ty):
        return LV(self.root, self.path + (("f", name),), ty)

    def i(self, idx, ty):
        return LV(self.root, self.path + (("i", idx),), ty)

    def key(self):
        def kk(x):
            if isinstance(x, tuple):
                return tuple(kk(y) for y in x)
            if isinstance(x, z3.AstRef):
                return x.get_id()
            return x
        return (kk(self.root), kk(self.path))


class PyVal:
    pass


class PtrV(PyVal):
    """pointer: lv (or None) with null condition"""

    def __init__(self, lv, null):
        self.lv, self.null = lv, null
        self.ty = ("ptr", lv.ty if lv is not None else None)


class IterV(PyVal):
    def __init__(self, lv, idx, step=1):
        self.lv, self.idx = lv, idx
        self.ty = ("iter",)


class MIterV(PyVal):
    """unordered_map/set iterator: container lv, valid?, key tree (list of key leaves)"""

    def __init__(self, lv, valid, key):
        self.lv, self.valid, self.key = lv, valid, key
        self.ty = ("miter",)


class LamV(PyVal):
    def __init__(self, node, captured, this):
        self.node, self.captured, self.this = node, captured, this
        self.ty = ("lambda",)


class FnV(PyVal):
    def __init__(self, fn):
        self.fn = fn
        self.ty = ("func",)


STRIDS = {}


def strid(s):
    """the number standing for a string literal"""
    return iv(STRIDS.setdefault(s, len(STRIDS)))


class StrV(PyVal):
    def __init__(self, s):
        self.s = s
        self.ty = ("str",)


class EigV(PyVal):
    """lazy Eigen expression; get(i,j)->tree ; blk = (lv, r0, c0) when it denotes a matrix block"""

    def __init__(self, rows, cols, get, elty, blk=None, leaves=(), colvec=False, rowvec=False):
        self.rows, self.cols, self.get, self.elty = rows, cols, get, elty
        self.blk, self.leaves = blk, leaves
        self.colvec, self.rowvec = colvec, rowvec
        self.ty = ("eig",)
        self.const = None


class State:
    def __init__(self):
        self.vars = {}    # varid -> tree(V) | LV | PyVal
        self.heap = {}    # tykey -> tree lifted
        self.next = z3.Int(fresh_name("alloc"))
        self.pc = []
        self.ghost = {}
        self.this = None

    def copy(self):
        s = State.__new__(State)
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.next = self.next
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.this = self.this
        return s


def lift1(ty, leaffn):
    def l2(p, s, t):
        return leaffn(p, z3.ArraySort(I, s), ("arr", t))
    return shape(ty, l2)


def tykey(ty):
    return json.dumps(ty)


def heap_of(st, ty):
    k = tykey(ty)
    if k not in st.heap:
        st.heap[k] = heap0(ty)
    return st.heap[k]


_heap0 = {}


def reset_heap0():
    _heap0.clear()


def heap0(ty):
    k = tykey(ty)
    if k not in _heap0:
        nm = ty[1] if len(ty) > 1 and isinstance(ty[1], str) else ty[0]
        _heap0[k] = lift1(ty, lambda p, s, t: z3.Const("heap[%s].%s" % (nm, ".".join(p)), s))
    return _heap0[k]


def root_tree(st, lv):
    if lv.root[0] == "v":
        x = st.vars[lv.root[1]]
        if isinstance(x, V):
            return x.t
        raise Unsupported("root not a value")
    return tselect(heap_of(st, lv.root[1]), lv.root[2])


def walk(t, path):
    for p in path:
        if p[0] == "f":
            t = t[p[1]]
        elif p[0] == "i":
            t = tselect(t["at"], p[1])
        elif p[0] == "m":
            t = tselect(tselect(t["at"], p[1]), p[2])
        elif p[0] == "k":
            a = t["at"]
            for kk in p[1]:
                a = tselect(a, kk)
            t = a
    return t


def upd(t, path, v):
    if not path:
        return v
    p, rest = path[0], path[1:]
    if p[0] == "f":
        n = dict(t)
        n[p[1]] = upd(t[p[1]], rest, v)
        return n
    n = dict(t)
    if p[0] == "i":
        n["at"] = tstore(t["at"], p[1], upd(tselect(t["at"], p[1]), rest, v) if rest else v)
    elif p[0] == "m":
        row = tselect(t["at"], p[1])
        nv = upd(tselect(row, p[2]), rest, v) if rest else v
        n["at"] = tstore(t["at"], p[1], tstore(row, p[2], nv))
    elif p[0] == "k":
        def go(a, ks):
            if not ks:
                return upd(a, rest, v) if rest else v
            return tstore(a, ks[0], go(tselect(a, ks[0]), ks[1:]))
        n["at"] = go(t["at"], list(p[1]))
    return n


def rd(st, lv):
    return walk(root_tree(st, lv), lv.path)


def wr(st, lv, tree):
    if lv.root[0] == "v":
        x = st.vars[lv.root[1]]
        st.vars[lv.root[1]] = V(x.ty, upd(x.t, lv.path, tree))
    else:
        ty, ref = lv.root[1], lv.root[2]
        h = heap_of(st, ty)
        st.heap[tykey(ty)] = tstore(h, ref, upd(tselect(h, ref), lv.path, tree) if lv.path else tree)
