"""Trusted models of the standard library, Boost and Eigen operations used by /repo.
Every model used in a run is reported in the evidence (models_used)."""
import z3
from core import *
from execu import Dead, MIterPair, key_to_tree


def split_name(n):
    """'std::vector<A>::operator[]' -> ('std::vector', 'operator[]')"""
    parts, cur, depth, i = [], "", 0, 0
    while i < len(n):
        if depth == 0 and n.startswith("operator", i) and (i == 0 or n[i - 1] == ":"):
            cur += n[i:]
            break
        c = n[i]
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        elif depth == 0 and n.startswith("::", i):
            parts.append(cur)
            cur = ""
            i += 2
            continue
        elif depth == 0:
            cur += c
        i += 1
    return "::".join(parts), cur


def conv_to(ex, st, v, ty, e=None):
    """implicit conversion of a value to a modelled type"""
    if isinstance(v, (LV,)):
        v = ex.read(st, v)
    if isinstance(v, EigV):
        v = ex.eig_to_mat(st, v, e)
    if isinstance(v, PyVal):
        return ex.coerce(v, ty)
    if v.ty == ty:
        return v.t
    a, b = v.ty[0], ty[0]
    if b == "dbl" and a == "int":
        return {"k": iv(0), "r": z3.ToReal(v.t) if not z3.is_int_value(v.t) else z3.RealVal(v.t.as_long())}
    if b == "dbl" and a == "bool":
        return {"k": iv(0), "r": z3.If(v.t, z3.RealVal(1), z3.RealVal(0))}
    if b == "int" and a == "int":
        return ex.conv_int(st, v.t, v.ty, ty, e, False)
    if b == "int" and a == "bool":
        return z3.If(v.t, iv(1), iv(0))
    if b == "bool" and a == "int":
        return v.t != 0
    if b == "pair" and a == "pair":
        return {"first": conv_to(ex, st, V(v.ty[1], v.t["first"]), ty[1], e),
                "second": conv_to(ex, st, V(v.ty[2], v.t["second"]), ty[2], e)}
    if b in ("ref", "ptr") and a in ("ref", "ptr"):
        return v.t
    if b == "rec" and a == "rec":
        return {n: v.t[n] for n, _, _ in ex.u.fields(ty[2])}
    if b == a and b in ("vec", "mat", "umap", "uset", "variant", "enum", "opaque", "func", "int"):
        return v.t
    if b == "variant":
        return variant_of(ex, st, v, ty, e)
    if b == "rec":
        x = construct_rec(ex, st, ty, [v], e)
        return x.t
    if b == "mat" and a == "mat":
        return v.t
    raise Unsupported("conversion %s -> %s" % (v.ty, ty))


def variant_of(ex, st, v, ty, e):
    for i, t in enumerate(ty[1:]):
        if t == v.ty:
            out = tzero(ty)
            out["which"] = iv(i)
            out[str(i)] = v.t
            return out
    raise Unsupported("variant from " + str(v.ty))


def construct_rec(ex, st, ty, vals, e):
    """run a /repo constructor of record ty on already evaluated values"""
    cands = []
    short = ty[1].split("::")[-1]
    for f in ex.u.byname.get(ty[1] + "::" + short, []):
        if ex.u.norm(f["cls"]) != ty:
            continue
        if len(f["params"]) == len(vals):
            cands.append(f)
    vv = [ex.read(st, v) if isinstance(v, LV) else v for v in vals]
    if len(vv) == 1 and isinstance(vv[0], V) and vv[0].ty == ty:
        return vv[0]

    def score(f):
        s = 0
        for p, v in zip(f["params"], vv):
            pt = ex.u.norm(p["t"])
            if pt[0] == "lref":
                pt = pt[1]
            if isinstance(v, V) and v.ty == pt:
                s += 2
            elif isinstance(v, V) and v.ty[0] == pt[0]:
                s += 1
        return s
    cands.sort(key=score, reverse=True)
    if cands:
        f = cands[0]
        n = fresh_name("obj")
        st.vars[n] = V(ty, tfresh(ty, "obj"))
        lv = LV(("v", n), (), ty)
        args = []
        for p, v in zip(f["params"], vals):
            pt = ex.u.norm(p["t"])
            w = pt[1] if pt[0] == "lref" else pt
            x = ex.read(st, v) if isinstance(v, LV) else v
            if isinstance(x, V) and x.ty != w:
                x = V(w, conv_to(ex, st, x, w, e))
            args.append(v if isinstance(v, LV) and pt[0] == "lref" and v.ty == w else x)
        ex.inline(st, f, lv, args, e or {"loc": ""})
        return ex.read(st, lv)
    if not vals:
        return V(ty, ex.default_rec(st, ty))
    fs = ex.u.fields(ty[2])
    if len(vals) <= len(fs):    # aggregate (C++20 parenthesised / make_shared of aggregate)
        t = ex.default_rec(st, ty)
        for (n, ft, _), v in zip(fs, vals):
            t[n] = conv_to(ex, st, v, ex.u.norm(ft), e)
        return V(ty, t)
    raise Unsupported("no constructor for " + ty[1])


def construct_any(ex, st, ty, vals, e):
    if ty[0] == "rec":
        return construct_rec(ex, st, ty, vals, e)
    if ty[0] == "pair" and len(vals) == 2:
        return V(ty, {"first": conv_to(ex, st, vals[0], ty[1], e), "second": conv_to(ex, st, vals[1], ty[2], e)})
    if len(vals) == 1:
        return V(ty, conv_to(ex, st, vals[0], ty, e))
    if not vals:
        return V(ty, ex.default_of(st, ty, True) if ty[0] in ("rec",) else tzero(ty))
    if ty[0] == "vec" and len(vals) == 2:
        return vec_fill(ex, st, ty, ex.read(st, vals[0]).t, conv_to(ex, st, vals[1], ty[1], e))
    raise Unsupported("construct " + str(ty))


def def_at(ex, st, elty, fn, name):
    """fresh lifted content with forall k. new[k] == fn(k)"""
    vt = ("vec", elty, "vector")
    at = shape(vt, lambda p, s, t: z3.Const(fresh_name(name + ".".join(p)), s))["at"]
    q = z3.Int(fresh_name("k"))
    cur = tselect(at, q)
    want = fn(q)
    for a, b in zip(leaves(cur), leaves(want)):
        st.pc.append(z3.ForAll([q], a == b, patterns=[a]))
    return at


def rev_axiom(st, q, new, old, guard):
    """same definition, triggered by the source element"""
    for a, b in zip(leaves(new), leaves(old)):
        b = z3.simplify(b)
        if z3.is_select(b) and z3.is_const(b.arg(0)) or z3.is_select(b) and z3.is_select(b.arg(0)):
            try:
                st.pc.append(z3.ForAll([q], z3.Implies(guard, a == b), patterns=[b]))
            except z3.Z3Exception:
                pass


def vec_fill(ex, st, ty, n, val):
    def k(x):
        return z3.K(I, x)
    return V(ty, {"len": n, "at": tmap(k, val)})


def construct(ex, st, ty, fn, args, e):
    k = ty[0]
    cls, nm = split_name(fn["n"])
    ex.models_used.add(cls + "::" + nm)
    pts = [ex.u.norm(p) for p in fn["p"]]
    pts = [p[1] if p[0] == "lref" else p for p in pts]
    vals = []
    for a in args:
        if a["k"] == "CXXDefaultArgExpr":
            continue
        at = ex.ty(a)
        if at[0] == "opaque" and "allocator" in str(at[1]):
            continue
        if at[0] == "opaque" and any(s in str(at[1]) for s in ("hash", "equal_to", "less")):
            continue
        vals.append(ex.ev(st, a))
    if k == "pair":
        if not vals:
            return V(ty, tzero(ty))
        if len(vals) == 2:
            return V(ty, {"first": conv_to(ex, st, vals[0], ty[1], e), "second": conv_to(ex, st, vals[1], ty[2], e)})
        return V(ty, conv_to(ex, st, vals[0], ty, e))
    if k == "tuple":
        if len(vals) == len(ty) - 1:
            return V(ty, {str(i): conv_to(ex, st, v, ty[1 + i], e) for i, v in enumerate(vals)})
        return ex.read(st, vals[0])
    if k == "vec":
        if not vals:
            return V(ty, ex.default_of(st, ty))
        rvs = [ex.read(st, v) if isinstance(v, LV) else v for v in vals]
        if len(vals) == 1:
            v = rvs[0]
            if isinstance(v, V) and v.ty[0] == "vec":
                if v.ty[1] != ty[1]:
                    raise Unsupported("vector conversion")
                moved(ex, st, args[0], vals[0])
                return V(ty, v.t)
            if isinstance(v, V) and v.ty[0] == "int":
                return vec_fill(ex, st, ty, v.t, tzero(ty[1]) if ty[1][0] != "rec" else ex.default_of(st, ty[1]))
        if len(vals) == 2:
            a, b = rvs
            if isinstance(a, IterV) or isinstance(a, DataPtr) or isinstance(a, MIterV):
                return range_copy(ex, st, ty, a, b, e)
            if split_valarray(fn) and isinstance(a, V) and isinstance(b, V):
                return vec_fill(ex, st, ty, conv_to(ex, st, b, ("int", 64, False, "ul"), e), conv_to(ex, st, a, ty[1], e))
            return vec_fill(ex, st, ty, conv_to(ex, st, a, ("int", 64, False, "ul"), e), conv_to(ex, st, b, ty[1], e))
    if k == "ref":
        if not vals:
            return V(ty, iv(0))
        v = ex.read(st, vals[0]) if isinstance(vals[0], LV) else vals[0]
        if isinstance(v, V):
            return V(ty, v.t)
        return V(ty, ex.coerce(v, ty))
    if k == "mat":
        if not vals:
            t = tzero(ty)
            return V(ty, t)
        if len(vals) == 1:
            v = ex.read(st, vals[0]) if isinstance(vals[0], LV) else vals[0]
            return ex.eig_to_mat(st, v, e) if isinstance(v, EigV) else v
        t = tfresh(ty, "mat")
        t["rows"], t["cols"] = [ex.read(st, v).t for v in vals]
        return V(ty, t)
    if k == "variant":
        if not vals:
            return V(ty, tzero(ty))
        v = ex.read(st, vals[0]) if isinstance(vals[0], LV) else vals[0]
        return V(ty, conv_to(ex, st, v, ty, e))
    if k in ("umap", "uset"):
        if not vals:
            return V(ty, tzero(ty))
        v = ex.read(st, vals[0]) if isinstance(vals[0], LV) else vals[0]
        if isinstance(v, V) and v.ty[0] == k:
            return v
        if k == "uset" and isinstance(v, (IterV,)) and len(vals) == 2:
            return uset_of_range(ex, st, ty, v, vals[1])
        if k == "uset" and isinstance(v, V) and v.ty[0] == "vec":
            lv = ex.tmp(st, v)
            return uset_of_range(ex, st, ty, IterV(lv, iv(0)), IterV(lv, v.t["len"]))
        raise Unsupported("map/set constructor")
    if k in ("iter", "miter", "opaque", "lambda", "eig", "func"):
        if vals:
            return ex.read(st, vals[0]) if isinstance(vals[0], LV) else vals[0]
        return V(("opaque", cls), iv(0))
    raise Unsupported("construct " + fn["n"])


def split_valarray(fn):
    return "valarray" in fn["n"]


def moved(ex, st, node, lv):
    """std::move of a vector into a new/assigned vector leaves the source empty (libstdc++)"""
    n = node
    while n["k"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "ImplicitCastExpr", "ParenExpr", "CXXBindTemporaryExpr") and n.get("c"):
        n = n["c"][0]
    if n["k"] == "CallExpr" and n.get("fn") and split_name(n["fn"]["n"]) == ("std", "move") and isinstance(lv, LV):
        if lv.ty[0] == "vec":
            wr(st, lv.f("len", ("int", 64, False, "ul")), iv(0)) if False else None
            t = dict(rd(st, lv))
            t["len"] = iv(0)
            wr(st, lv, t)


class DataPtr(IterV):
    """pointer into the (column-major) coefficients of a matrix"""

    def __init__(self, lv, off):
        IterV.__init__(self, lv, off)
        self.ty = ("dataptr",)

    @property
    def off(self):
        return self.idx

    def entry(self, ex, st, e):
        t = rd(st, self.lv)
        size = matsize_facts(st, t["rows"], t["cols"])
        ex.safe(st, z3.And(0 <= self.idx, self.idx < size), "pointer into the matrix", e)
        di, dj, _ = lin_fns(t["rows"], t["cols"])
        return LV(self.lv.root, self.lv.path + (("m", di(self.idx), dj(self.idx)),), self.lv.ty[1])


def lin_fns(rows, cols):
    """column-major position functions di, dj, lin for a rows x cols matrix"""
    f = z3.Function
    di, dj, lin = f("di", I, I, I, I), f("dj", I, I, I, I), f("lin", I, I, I, I, I)
    return (lambda k: di(rows, cols, k)), (lambda k: dj(rows, cols, k)), (lambda i, j: lin(rows, cols, i, j))


def lin_axioms(st, rows, cols, size):
    di, dj, lin = lin_fns(rows, cols)
    k, i, j = z3.Int(fresh_name("k")), z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
    st.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < size), z3.And(0 <= di(k), di(k) < rows, 0 <= dj(k), dj(k) < cols, lin(di(k), dj(k)) == k)), patterns=[di(k), dj(k)]))
    st.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < size), z3.And(0 <= di(k), di(k) < rows, 0 <= dj(k), dj(k) < cols, lin(di(k), dj(k)) == k)), patterns=[dj(k)]))
    st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < rows, 0 <= j, j < cols), z3.And(0 <= lin(i, j), lin(i, j) < size, di(lin(i, j)) == i, dj(lin(i, j)) == j)), patterns=[lin(i, j)]))
    st.pc.append(z3.Implies(z3.And(rows > 0, cols > 0), z3.And(di(0) == 0, dj(0) == 0, lin(0, 0) == 0)))


def matsize(rows, cols):
    return z3.Function("matsize", I, I, I)(rows, cols)


def matsize_facts(st, rows, cols):
    s = matsize(rows, cols)
    st.pc.append(s >= 0)
    st.pc.append((s == 0) == z3.Or(rows == 0, cols == 0))
    rs, cs = z3.simplify(rows), z3.simplify(cols)
    if z3.is_int_value(rs) and z3.is_int_value(cs):
        st.pc.append(s == rs.as_long() * cs.as_long())
    return s


def range_copy(ex, st, ty, a, b, e):
    if isinstance(b, LV):
        b = ex.read(st, b)
    if isinstance(a, IterV) and not isinstance(a, DataPtr):
        src = rd(st, a.lv)
        n = z3.If(b.idx > a.idx, b.idx - a.idx, iv(0))
        ex.safe(st, z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src["len"]), "valid iterator range", e)
        az = z3.simplify(a.idx)
        if z3.is_int_value(az) and az.as_long() == 0:
            return V(ty, {"len": b.idx, "at": src["at"]})
        at = def_at(ex, st, ty[1], lambda q: tselect(src["at"], q + a.idx), "cp")
        return V(ty, {"len": b.idx - a.idx, "at": at})
    if isinstance(a, DataPtr):
        src = rd(st, a.lv)
        rows, cols = src["rows"], src["cols"]
        size = matsize_facts(st, rows, cols)
        di, dj, _ = lin_fns(rows, cols)
        ex.safe(st, z3.And(0 <= a.off, a.off <= b.off, b.off <= size), "valid pointer range", e)
        at = def_at(ex, st, ty[1], lambda q: tselect(tselect(src["at"], di(q + a.off)), dj(q + a.off)), "cp")
        return V(ty, {"len": b.off - a.off, "at": at})
    if isinstance(a, MIterV):
        o = set_order(ex, st, a.lv)
        return V(ty, {"len": o["len"], "at": o["at"]})
    raise Unsupported("range copy")


def set_order(ex, st, lv):
    """arbitrary enumeration order of an unordered container: distinct, complete"""
    t = rd(st, lv)
    kt = lv.ty[1]
    vt = ("vec", kt, "vector")
    o = tfresh(vt, "order")
    n = o["len"]
    st.pc.append(n >= 0)
    q, p = z3.Int(fresh_name("q")), z3.Int(fresh_name("p"))
    kq = leaves(tselect(o["at"], q))
    h = t["has"]
    for x in kq:
        h = z3.Select(h, x)
    idx = z3.Function(fresh_name("idxof"), *([x.sort() for x in kq] + [I]))
    st.pc.append(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(h, idx(*kq) == q)), patterns=[kq[0]]))
    ks = [z3.Const(fresh_name("key"), x.sort()) for x in kq]
    h2 = t["has"]
    for x in ks:
        h2 = z3.Select(h2, x)
    at = leaves(tselect(o["at"], idx(*ks)))
    st.pc.append(z3.ForAll(ks, z3.Implies(h2, z3.And(0 <= idx(*ks), idx(*ks) < n, *[a == b for a, b in zip(at, ks)])), patterns=[h2]))
    o["idx"] = idx
    return o


def uset_of_range(ex, st, ty, a, b):
    b = ex.read(st, b) if isinstance(b, LV) else b
    src = rd(st, a.lv)
    t = tfresh(ty, "set")
    uset_add_range_axiom(ex, st, t, None, src, a.idx, b.idx, ty)
    return V(ty, t)


def uset_add_range_axiom(ex, st, t, old, src, lo, hi, ty):
    q = z3.Int(fresh_name("q"))
    kq = leaves(tselect(src["at"], q))
    h = t["has"]
    for x in kq:
        h = z3.Select(h, x)
    st.pc.append(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), h), patterns=[kq[0]]))
    ks = [z3.Const(fresh_name("key"), x.sort()) for x in kq]
    h2 = t["has"]
    for x in ks:
        h2 = z3.Select(h2, x)
    w = z3.Function(fresh_name("wit"), *([x.sort() for x in ks] + [I]))
    inr = z3.And(lo <= w(*ks), w(*ks) < hi, *[a == b for a, b in zip(leaves(tselect(src["at"], w(*ks))), ks)])
    if old is not None:
        h3 = old["has"]
        for x in ks:
            h3 = z3.Select(h3, x)
        st.pc.append(z3.ForAll(ks, z3.Implies(h2, z3.Or(h3, inr)), patterns=[h2]))
        st.pc.append(z3.ForAll(ks, z3.Implies(h3, h2), patterns=[h2, h3] if False else [h2]))
        st.pc.append(z3.ForAll(ks, z3.Implies(h3, h2), patterns=[h3]))
    else:
        st.pc.append(z3.ForAll(ks, z3.Implies(h2, inr), patterns=[h2]))


# ------------------------------------------------------------------ calls
def pred_term(ex, st, f, lv_elem_fn, lo, hi, e, nargs=1):
    """evaluate predicate f on the element at a fresh index; return function index -> Bool term"""
    kc_ = z3.Int(fresh_name("pk"))
    mark = int(fresh_name("mark").split("!")[1])
    s = st.copy()
    s.pc.append(z3.And(lo <= kc_, kc_ < hi))
    npc = len(s.pc)
    v = ex.call_lambda(s, f, [lv_elem_fn(s, kc_)], e) if isinstance(f, LamV) else None
    if v is None:
        raise Unsupported("predicate")
    v = ex.read(s, v)
    t = v.t
    fresh = lambda nm: "!" in nm and nm.split("!")[-1].isdigit() and int(nm.split("!")[-1]) > mark
    sub = None
    if any(fresh(nm) for nm in consts_of(t)):
        # the predicate calls a function under contract: its result is a function of the index
        facts = s.pc[npc:]
        cs = {}
        for x in [t] + facts:
            for y in app_consts(x):
                if fresh(y.decl().name()):
                    if y.num_args():
                        raise Unsupported("predicate introduces definitions")
                    cs[y.get_id()] = y
        sub = [(y, z3.Function(fresh_name("p." + y.decl().name().split("!")[0]), I, y.sort())(kc_)) for y in cs.values()]
        t = z3.substitute(t, *sub)
        tn = {y.decl().name() for y in app_consts(t) if y.num_args()}
        pats = [y for _, y in sub if y.decl().name() in tn]
        for x in facts:
            st.pc.append(z3.ForAll([kc_], z3.Implies(z3.And(lo <= kc_, kc_ < hi), z3.substitute(x, *sub)), patterns=pats))
    for (a, b) in [(h, st.heap.get(h)) for h in s.heap]:
        if st.heap.get(a) is not None and s.heap[a] is not st.heap[a] and not tsame(s.heap[a], st.heap[a]):
            raise Unsupported("predicate with side effects")
    return lambda i: z3.substitute(t, (kc_, i))


def app_consts(t):
    """uninterpreted constants and applications in t"""
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack += x.children()
    return out


def consts_of(t):
    seen, out, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        elif z3.is_quantifier(x):
            stack.append(x.body())
        else:
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                out.add(x.decl().name())
            stack.extend(x.children())
    return out


def call(ex, st, fn, obj, args, e):
    cls, nm = split_name(fn["n"])
    full = (cls + "::" + nm) if cls else nm
    ex.models_used.add(full)
    m = ex.contracts.models_.get(full)
    if m is not None:
        # library function specified by the contract module
        return m(ex, st, [ex.ev(st, a) for a in args], e)
    if cls.startswith("Eigen"):
        import eig
        return eig.call(ex, st, nm, obj, args, fn, e)
    if "cls" in fn and obj is not None:
        return method(ex, st, cls, nm, obj, args, fn, e)
    if full in ("operator+", "operator-", "operator*") or cls == "Eigen":
        pass
    return free(ex, st, cls, nm, args, fn, e)


def rvs(ex, st, args):
    return [ex.rv(st, a) for a in args]


def method(ex, st, cls, nm, obj, args, fn, e):
    base = cls.split("::")[-1] if not cls.startswith("std::__detail") else cls
    if cls in ("std::__shared_ptr", "std::shared_ptr", "std::__shared_ptr_access", "std::weak_ptr", "std::__weak_ptr", "boost::shared_ptr"):
        return sharedptr(ex, st, nm, obj, args, fn, e)
    if cls in ("__gnu_cxx::__normal_iterator", "std::_Deque_iterator", "std::_Bit_iterator", "std::_Bit_const_iterator", "std::_Bit_iterator_base"):
        return itermethod(ex, st, nm, obj, args, fn, e)
    if cls.startswith("boost::iterators"):
        return graphiter(ex, st, nm, obj, args, fn, e)
    if cls.startswith("std::__detail::_Node") or "iterator" in cls:
        return miter(ex, st, nm, obj, args, fn, e)
    if cls in ("std::numeric_limits",):
        return numlim(ex, nm, fn)
    if cls == "std::_Bit_reference":
        lv = obj
        if nm == "operator=":
            v = ex.rv(st, args[0])
            wr(st, lv, v.t)
            return lv
        return V(("bool",), ex.read(st, lv).t)
    if nm == "operator=" and base in ("pair", "tuple", "variant"):
        v = ex.rv(st, args[0])
        wr(st, obj, conv_to(ex, st, v, obj.ty, e))
        return obj
    ob = obj
    if isinstance(ob, V):
        ob = ex.tmp(st, ob)
    if isinstance(ob, LV):
        k = ob.ty[0]
        if k == "vec":
            return vec(ex, st, nm, ob, args, fn, e)
        if k in ("umap", "uset"):
            return umap(ex, st, nm, ob, args, fn, e)
        if k == "variant":
            if nm == "which":
                return V(("int", 32, True, "int"), rd(st, ob)["which"])
        if k == "opaque" or k == "ref":
            return stream(ex, st, cls, nm, ob, args, fn, e)
        if k == "rec" and nm == "operator=":
            v = ex.rv(st, args[0])
            wr(st, ob, conv_to(ex, st, v, ob.ty, e))
            return ob
        # std container base of a repo record reached through implicit cast already handled
    raise Unsupported("method %s::%s on %s at %s" % (cls, nm, getattr(obj, "ty", None), e.get("loc")))


def numlim(ex, nm, fn):
    if nm == "infinity":
        return V(("dbl",), DINF)
    if nm == "max" or nm == "min" or nm == "lowest":
        rt = ex.u.norm(fn["r"])
        if rt[0] == "int":
            lo, hi = int_range(rt)
            return V(rt, iv(hi if nm == "max" else lo))
    raise Unsupported("numeric_limits::" + nm)


def sharedptr(ex, st, nm, obj, args, fn, e):
    v = ex.read(st, obj) if isinstance(obj, LV) else obj
    if nm in ("get", "lock"):
        return v
    if nm == "operator->":
        return v
    if nm == "operator*":
        return ex.deref(st, v, e)
    if nm == "operator bool":
        return V(("bool",), v.t != 0)
    if nm == "operator=":
        x = ex.rv(st, args[0])
        ex.store(st, obj, V(obj.ty, x.t if isinstance(x, V) else ex.coerce(x, obj.ty)), e)
        return obj
    if nm == "reset" and not args:
        ex.store(st, obj, V(obj.ty, iv(0)), e)
        return V(("void",), {})
    if nm == "expired":
        return V(("bool",), v.t == 0)
    raise Unsupported("shared_ptr::" + nm)


def graphiter(ex, st, nm, obj, args, fn, e):
    """iterators over a boost graph: a vertex is its index, an out-edge its source and its position"""
    v = ex.read(st, obj) if isinstance(obj, LV) else obj
    if not isinstance(v, V) or v.ty[0] not in ("int", "pair"):
        raise Unsupported("boost iterator " + nm)
    if nm == "operator*":
        return v
    if nm in ("operator++", "operator--"):
        d = 1 if nm == "operator++" else -1
        n = v.t + d if v.ty[0] == "int" else {"first": v.t["first"], "second": v.t["second"] + d}
        wr(st, obj, n)
        return v if args else obj
    raise Unsupported("boost iterator " + nm)


def graph(ex, st, nm, args, fn, e):
    """boost::adjacency_list<listS, vecS, directedS, V, E>"""
    if nm == "vertices":
        g = ex.ev(st, args[0])
        t = rd(st, g)
        st.pc.append(t["len"] >= 0)
        ix = ("int", 64, False, "unsigned long")
        return V(("pair", ix, ix), {"first": iv(0), "second": t["len"]})
    ix = ("int", 64, False, "unsigned long")
    if nm == "out_edges":
        v = ex.rv(st, args[0])
        g = ex.ev(st, args[1])
        t = rd(st, g)
        ex.safe(st, z3.And(0 <= v.t, v.t < t["len"]), "vertex of the graph", e)
        n = tselect(t["at"], v.t)["second"]["len"]
        st.pc.append(n >= 0)
        return V(("pair", ("pair", ix, ix), ("pair", ix, ix)), {"first": {"first": v.t, "second": iv(0)}, "second": {"first": v.t, "second": n}})
    if nm == "out_degree":
        v = ex.rv(st, args[0])
        t = rd(st, ex.ev(st, args[1]))
        ex.safe(st, z3.And(0 <= v.t, v.t < t["len"]), "vertex of the graph", e)
        n = tselect(t["at"], v.t)["second"]["len"]
        st.pc.append(n >= 0)
        return V(ix, n)
    if nm == "num_vertices":
        t = rd(st, ex.ev(st, args[0]))
        st.pc.append(t["len"] >= 0)
        return V(ix, t["len"])
    if nm == "source":
        return V(ix, ex.rv(st, args[0]).t["first"])

    def edge(g, d):
        src = g.i(d.t["first"], g.ty[1])
        t = rd(st, g)
        ex.safe(st, z3.And(0 <= d.t["first"], d.t["first"] < t["len"], 0 <= d.t["second"], d.t["second"] < tselect(t["at"], d.t["first"])["second"]["len"]), "edge of the graph", e)
        es = src.f("second", g.ty[1][2])
        return es.i(d.t["second"], es.ty[1])
    if nm == "target":
        d = ex.rv(st, args[0])
        l = edge(ex.ev(st, args[1]), d)
        return V(ix, rd(st, l)["first"])
    if nm == "get" and len(args) == 3:
        p = args[0]
        while p["k"] in ("ImplicitCastExpr", "ParenExpr"):
            p = p["c"][0]
        if p["k"] != "UnaryOperator" or p["op"] != "&":
            raise Unsupported("boost::get with a computed member")
        f = p["c"][0]["n"].split("::")[-1]
        g, d = ex.ev(st, args[1]), ex.rv(st, args[2])
        if d.ty[0] == "int":
            ex.safe(st, z3.And(0 <= d.t, d.t < rd(st, g)["len"]), "vertex of the graph", e)
            l = g.i(d.t, g.ty[1]).f("first", g.ty[1][1])
        else:
            l = edge(g, d)
            l = l.f("second", l.ty[2])
        for n, ft, _ in ex.u.fields(l.ty[2]):
            if n == f:
                return l.f(f, ex.u.norm(ft))
        raise Unsupported("boost::get of " + f)
    raise Unsupported("boost::" + nm)


def itermethod(ex, st, nm, obj, args, fn, e):
    it = ex.read(st, obj) if isinstance(obj, LV) else obj
    if nm == "operator*":
        return ex.deref(st, it, e)
    if nm == "operator->":
        return PtrV(ex.deref(st, it, e), z3.BoolVal(False))
    if nm in ("operator++", "operator--"):
        r = IterV(it.lv, it.idx + (1 if nm == "operator++" else -1))
        ex.store(st, obj, r, e)
        return it if args else obj
    if nm in ("operator+", "operator-"):
        y = ex.rv(st, args[0])
        return ex.ptrop(st, nm[8:], it, y, e)
    if nm in ("operator+=", "operator-="):
        y = ex.rv(st, args[0])
        ex.store(st, obj, ex.ptrop(st, nm[8:9], it, y, e), e)
        return obj
    if nm == "operator=":
        y = ex.rv(st, args[0])
        ex.store(st, obj, y, e)
        return obj
    if nm == "base":
        return it
    if nm == "operator[]":
        y = ex.rv(st, args[0])
        return ex.deref(st, IterV(it.lv, it.idx + y.t), e)
    raise Unsupported("iterator " + nm)


def miter(ex, st, nm, obj, args, fn, e):
    it = ex.read(st, obj) if isinstance(obj, LV) else obj
    if nm in ("operator*", "operator->"):
        if isinstance(it, MIterV):
            r = ex.deref(st, it, e)
            if it.lv.ty[0] == "uset":
                return V(it.lv.ty[1], key_to_tree(it.lv.ty[1], it.key))
            return PtrLike(r) if nm == "operator->" else r
    if nm == "operator=":
        y = ex.rv(st, args[0])
        ex.store(st, obj, y, e)
        return obj
    if nm in ("operator==", "operator!="):
        y = ex.rv(st, args[0])
        b = ex.miter_eq(it, y)
        return V(("bool",), b if nm == "operator==" else z3.Not(b))
    if nm == "operator++" and isinstance(it, MIterV) and getattr(it, "order", None) is not None:
        o, i = it.order
        r = miter_at(it.lv, o, i + 1)
        ex.store(st, obj, r, e)
        return it if args else obj
    raise Unsupported("map iterator " + nm)


def miter_at(lv, o, i):
    r = MIterV(lv, z3.And(0 <= i, i < o["len"]), leaves(tselect(o["at"], i)))
    r.order = (o, i)
    return r


class PtrLike(PyVal):
    def __init__(self, x):
        self.x = x
        self.ty = ("ptrlike",)


def elem_ty(lv):
    return lv.ty[1]


def arraylen(ex, st, ty, t):
    """std::array<T, N> has N elements"""
    if ty[0] == "vec" and len(ty) > 3 and ty[2] == "array":
        f = z3.simplify(t["len"] == int(ty[3]))
        if z3.is_false(f):
            raise Unsupported("std::array of another length")
        if not z3.is_true(f):
            ex.typfacts[f.get_id()] = f
            st.pc.append(f)


def vec(ex, st, nm, lv, args, fn, e):
    t = rd(st, lv)
    el = lv.ty[1]
    ex.typing(st, ("int", 63, False, "length of a container (at most PTRDIFF_MAX)"), t["len"])
    arraylen(ex, st, lv.ty, t)
    UL = ("int", 64, False, "unsigned long")
    if len(lv.ty) > 2 and lv.ty[2] == "stack":
        nm = {"push": "push_back", "emplace": "emplace_back", "top": "back", "pop": "pop_back"}.get(nm, nm)
    if nm == "size" or nm == "max_size":
        return V(UL, t["len"])
    if nm == "empty":
        return V(("bool",), t["len"] == 0)
    if nm in ("operator[]", "at"):
        i = ex.rv(st, args[0]).t
        t = rd(st, lv)
        inr = z3.And(0 <= i, i < t["len"])
        if nm == "at":
            s2 = st.copy()
            s2.pc.append(z3.Not(inr))
            ex.exc.append((s2, "throw std::out_of_range", e.get("loc")))
            st.pc.append(inr)
        else:
            ex.safe(st, inr, "index in bounds", e)
        return lv.i(i, el)
    if nm in ("begin", "cbegin"):
        return IterV(lv, iv(0))
    if nm in ("end", "cend"):
        return IterV(lv, t["len"])
    if nm == "back":
        ex.safe(st, t["len"] > 0, "non-empty", e)
        return lv.i(t["len"] - 1, el)
    if nm == "front":
        ex.safe(st, t["len"] > 0, "non-empty", e)
        return lv.i(iv(0), el)
    if nm in ("push_back", "emplace_back"):
        if nm == "push_back":
            x = conv_to(ex, st, ex.rv(st, args[0]), el, e)
        else:
            vals = [ex.ev(st, a) for a in args]
            x = construct_any(ex, st, el, vals, e).t
        t = rd(st, lv)
        n = dict(t)
        n["at"] = tstore(t["at"], t["len"], x)
        n["len"] = t["len"] + 1
        wr(st, lv, n)
        return lv.i(t["len"], el)
    if nm == "pop_back":
        ex.safe(st, t["len"] > 0, "non-empty", e)
        n = dict(t)
        n["len"] = t["len"] - 1
        wr(st, lv, n)
        return V(("void",), {})
    if nm == "pop_front":
        ex.safe(st, t["len"] > 0, "non-empty", e)
        n = dict(t)
        n["len"] = t["len"] - 1
        n["at"] = def_at(ex, st, el, lambda q: tselect(t["at"], q + 1), "popf")
        q = z3.Int(fresh_name("k"))
        rev_axiom(st, q, tselect(n["at"], q - 1), tselect(t["at"], q), q >= 1)
        wr(st, lv, n)
        return V(("void",), {})
    if nm in ("reserve", "shrink_to_fit"):
        for a in args:
            ex.rv(st, a)
        return V(("void",), {})
    if nm == "clear":
        n = dict(t)
        n["len"] = iv(0)
        wr(st, lv, n)
        return V(("void",), {})
    if nm == "resize":
        m = ex.rv(st, args[0]).t
        if len(args) > 1:
            dv = conv_to(ex, st, ex.rv(st, args[1]), el, e)
        else:
            dv = ex.default_of(st, el, True)
        t = rd(st, lv)
        n = dict(t)
        n["len"] = m
        old = t
        if z3.is_int_value(old["len"]) and old["len"].as_long() == 0:
            n["at"] = tmap(lambda x: z3.K(I, x), dv)
        else:
            n["at"] = def_at(ex, st, el, lambda q: tite(q < old["len"], tselect(old["at"], q), dv), "rsz")
        wr(st, lv, n)
        return V(("void",), {})
    if nm == "operator=":
        x = ex.ev(st, args[0])
        v = ex.read(st, x)
        if isinstance(v, V) and v.ty[0] == "vec":
            wr(st, lv, v.t)
            if isinstance(x, LV) and x.key() != lv.key():
                moved(ex, st, args[0], x)
            return lv
        raise Unsupported("vector assignment")
    if nm == "fill":
        x = conv_to(ex, st, ex.rv(st, args[0]), el, e)
        t = rd(st, lv)
        n = dict(t)
        n["at"] = tmap(lambda y: z3.K(I, y), x)
        wr(st, lv, n)
        return V(("void",), {})
    if nm == "insert":
        vs = [ex.rv(st, a) for a in args]
        pos = vs[0]
        t = rd(st, lv)
        if len(vs) == 3 and isinstance(vs[1], IterV):
            a, b = vs[1], vs[2]
            src = rd(st, a.lv)
            ex.safe(st, z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= src["len"]), "valid iterator range", e)
            cnt = b.idx - a.idx
            get = lambda q: tselect(src["at"], q + a.idx)
            if a.lv.ty[1] != el:
                raise Unsupported("insert conversion")
        elif len(vs) == 3 and isinstance(vs[1], MIterV):
            o = set_order(ex, st, vs[1].lv)
            cnt = o["len"]
            get = lambda q: tselect(o["at"], q)
        elif len(vs) == 2 and isinstance(vs[1], V):
            x = conv_to(ex, st, vs[1], el, e)
            cnt = iv(1)
            get = lambda q: x
        else:
            raise Unsupported("insert")
        p = pos.idx
        n = dict(t)
        n["len"] = t["len"] + cnt
        if p.eq(t["len"]):
            n["at"] = def_at(ex, st, el, lambda q: tite(q < p, tselect(t["at"], q), get(q - p)), "ins")
            q = z3.Int(fresh_name("k"))
            rev_axiom(st, q, tselect(n["at"], q), tselect(t["at"], q), z3.And(0 <= q, q < p))
            rev_axiom(st, q, tselect(n["at"], q + p), get(q), z3.And(0 <= q, q < cnt))
        else:
            n["at"] = def_at(ex, st, el, lambda q: tite(q < p, tselect(t["at"], q), tite(q < p + cnt, get(q - p), tselect(t["at"], q - cnt))), "ins")
        wr(st, lv, n)
        return IterV(lv, p)
    if nm == "erase":
        vs = [ex.rv(st, a) for a in args]
        t = rd(st, lv)
        a = vs[0]
        if len(vs) == 2:
            b = vs[1]
            ex.safe(st, z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= t["len"]), "valid erase range", e)
            cnt = b.idx - a.idx
        else:
            ex.safe(st, z3.And(0 <= a.idx, a.idx < t["len"]), "valid erase position", e)
            cnt = iv(1)
        n = dict(t)
        n["len"] = t["len"] - cnt
        if len(vs) == 2 and vs[1].idx.eq(t["len"]):
            pass
        else:
            n["at"] = def_at(ex, st, el, lambda q: tite(q < a.idx, tselect(t["at"], q), tselect(t["at"], q + cnt)), "ers")
            q = z3.Int(fresh_name("k"))
            rev_axiom(st, q, tselect(n["at"], q), tselect(t["at"], q), z3.And(0 <= q, q < a.idx))
            q = z3.Int(fresh_name("k"))
            rev_axiom(st, q, tselect(n["at"], q - cnt), tselect(t["at"], q), z3.And(q >= a.idx + cnt))
        wr(st, lv, n)
        return IterV(lv, a.idx)
    if nm == "operator+=" and "valarray" in fn["n"]:
        x = ex.rv(st, args[0])
        if x.ty[0] == "dbl":
            n = dict(t)
            n["at"] = def_at(ex, st, el, lambda q: dadd(tselect(t["at"], q), x.t), "va")
            wr(st, lv, n)
            return lv
    if nm == "swap":
        o = ex.ev(st, args[0])
        ot = rd(st, o)
        wr(st, lv, ot)
        wr(st, o, t)
        return V(("void",), {})
    raise Unsupported("vector::%s at %s" % (nm, e.get("loc")))


def mapget(t, ks):
    h = t["has"]
    for x in ks:
        h = z3.Select(h, x)
    return h


def mapset(h, ks, v):
    if not ks:
        return v
    return z3.Store(h, ks[0], mapset(z3.Select(h, ks[0]), ks[1:], v))


def keyof(ex, st, v, kt, e):
    return leaves(conv_to(ex, st, v, kt, e))


def umap(ex, st, nm, lv, args, fn, e):
    t = rd(st, lv)
    kt = lv.ty[1]
    ismap = lv.ty[0] == "umap"
    if nm in ("end", "cend"):
        return MIterV(lv, z3.BoolVal(False), [z3.Const("noKey", s) for s in keysorts(kt)])
    if nm in ("find", "count", "contains"):
        ks = keyof(ex, st, ex.rv(st, args[0]), kt, e)
        h = mapget(t, ks)
        if nm == "find":
            return MIterV(lv, h, ks)
        if nm == "contains":
            return V(("bool",), h)
        return V(("int", 64, False, "ul"), z3.If(h, iv(1), iv(0)))
    if nm == "operator[]":
        ks = keyof(ex, st, ex.rv(st, args[0]), kt, e)
        t = rd(st, lv)
        h = mapget(t, ks)
        dv = ex.default_of(st, lv.ty[2], True)
        n = dict(t)
        n["has"] = mapset(t["has"], ks, z3.BoolVal(True))
        wr(st, lv, n)
        l2 = LV(lv.root, lv.path + (("k", tuple(ks)),), lv.ty[2])
        wr(st, l2, tite(h, rd(st, l2), dv))
        return l2
    if nm == "at":
        ks = keyof(ex, st, ex.rv(st, args[0]), kt, e)
        h = mapget(t, ks)
        s2 = st.copy()
        s2.pc.append(z3.Not(h))
        ex.exc.append((s2, "throw std::out_of_range", e.get("loc")))
        st.pc.append(h)
        return LV(lv.root, lv.path + (("k", tuple(ks)),), lv.ty[2])
    if nm in ("reserve", "rehash", "max_load_factor"):
        for a in args:
            ex.rv(st, a)
        return V(("void",), {})
    if nm == "clear":
        wr(st, lv, tzero(lv.ty))
        return V(("void",), {})
    if nm in ("insert", "emplace"):
        vs = [ex.rv(st, a) for a in args]
        if len(vs) == 2 and isinstance(vs[0], IterV) and not ismap:
            nt = tfresh(lv.ty, "set")
            src = rd(st, vs[0].lv)
            uset_add_range_axiom(ex, st, nt, t, src, vs[0].idx, vs[1].idx, lv.ty)
            wr(st, lv, nt)
            return V(("void",), {})
        if len(vs) == 2 and isinstance(vs[0], MIterV) and not ismap:
            src = rd(st, vs[0].lv)
            nt = tfresh(lv.ty, "set")
            ks = [z3.Const(fresh_name("key"), s) for s in keysorts(kt)]
            st.pc.append(z3.ForAll(ks, mapget(nt, ks) == z3.Or(mapget(t, ks), mapget(src, ks)), patterns=[mapget(nt, ks)]))
            wr(st, lv, nt)
            return V(("void",), {})
        if not ismap:
            ks = keyof(ex, st, vs[0], kt, e)
            n = dict(t)
            n["has"] = mapset(t["has"], ks, z3.BoolVal(True))
            wr(st, lv, n)
            return V(("pair", ("miter",), ("bool",)), {"first": iv(0), "second": z3.Not(mapget(t, ks))})
        if len(vs) == 1:
            kv = vs[0]
            kt_, kvv = V(kv.ty[1], kv.t["first"]), V(kv.ty[2], kv.t["second"])
        else:
            kt_, kvv = vs
        ks = keyof(ex, st, kt_, kt, e)
        val = conv_to(ex, st, kvv, lv.ty[2], e)
        h = mapget(t, ks)
        n = dict(t)
        n["has"] = mapset(t["has"], ks, z3.BoolVal(True))
        wr(st, lv, n)
        l2 = LV(lv.root, lv.path + (("k", tuple(ks)),), lv.ty[2])
        wr(st, l2, tite(h, rd(st, l2), val))
        return V(("pair", ("miter",), ("bool",)), {"first": iv(0), "second": z3.Not(h)})
    if nm == "erase":
        v = ex.rv(st, args[0])
        ks = v.key if isinstance(v, MIterV) else keyof(ex, st, v, kt, e)
        n = dict(t)
        n["has"] = mapset(t["has"], ks, z3.BoolVal(False))
        wr(st, lv, n)
        if isinstance(v, MIterV) and getattr(v, "order", None) is not None:
            # erasing keeps the order of the others: the next one in the order of the iteration
            return miter_at(lv, v.order[0], v.order[1] + 1)
        return V(("opaque", "erase-result"), iv(0))
    if nm == "operator=":
        x = ex.rv(st, args[0])
        if isinstance(x, V) and x.ty[0] == lv.ty[0]:
            wr(st, lv, x.t)
            return lv
    if nm == "empty":
        ks = [z3.Const(fresh_name("ek"), s) for s in keysorts(kt)]
        w = [z3.Const(fresh_name("ew"), s) for s in keysorts(kt)]
        r = z3.Bool(fresh_name("empty"))
        st.pc.append(z3.Implies(r, z3.ForAll(ks, z3.Not(mapget(t, ks)), patterns=[mapget(t, ks)])))
        st.pc.append(z3.Implies(z3.Not(r), mapget(t, w)))
        return V(("bool",), r)
    if nm in ("begin", "cbegin"):
        o = set_order(ex, st, lv)
        return miter_at(lv, o, iv(0))
    raise Unsupported("map::%s at %s" % (nm, e.get("loc")))


def stream(ex, st, cls, nm, lv, args, fn, e):
    if "basic_ostream" in cls:
        for a in args:
            ex.ev(st, a)
        return lv
    raise Unsupported("method %s::%s" % (cls, nm))


def free(ex, st, cls, nm, args, fn, e):
    full = (cls + "::" + nm) if cls else nm
    if cls in ("std", "__gnu_cxx", "std::__detail", "boost", "boost::iterators", "std::filesystem", "") or cls.startswith("std::"):
        if cls == "std::numeric_limits":
            return numlim(ex, nm, fn)
        if nm in ("min", "max") and cls == "std":
            a, b = [ex.rv(st, x) for x in args[:2]]
            if len(args) > 2:
                raise Unsupported("min with comparator")
            c = cmp_lt(a.ty, b.t, a.t) if nm == "min" else cmp_lt(a.ty, a.t, b.t)
            return V(a.ty, tite(c, b.t, a.t))
        if nm in ("move", "forward", "as_const", "ref", "cref") and len(args) == 1:
            return ex.ev(st, args[0])
        if nm == "make_pair":
            a, b = [ex.rv(st, x) for x in args]
            ta = a.ty if isinstance(a, V) else ("ref", a.lv.ty)
            tb = b.ty if isinstance(b, V) else ("ref", b.lv.ty)
            return V(("pair", ta, tb), {"first": ex.coerce(a, ta), "second": ex.coerce(b, tb)})
        if nm in ("make_shared", "make_unique"):
            rt = ex.u.norm(fn["r"])
            el = rt[1]
            vals = [ex.ev(st, a) for a in args]
            x = construct_any(ex, st, el, vals, e)
            return alloc(ex, st, el, x.t)
        if nm in ("isinf",) or nm == "__builtin_isinf_sign":
            v = ex.rv(st, args[0])
            return V(("bool",), z3.Or(v.t["k"] == 1, v.t["k"] == -1))
        if nm in ("isnan",):
            v = ex.rv(st, args[0])
            return V(("bool",), v.t["k"] == 2)
        if nm in ("ceil", "floor"):
            v = ex.rv(st, args[0])
            r = v.t["r"]
            fl = z3.ToReal(z3.ToInt(r)) if nm == "floor" else -z3.ToReal(z3.ToInt(-r))
            return V(("dbl",), {"k": v.t["k"], "r": fl})
        if nm in ("abs", "fabs"):
            v = ex.rv(st, args[0])
            if v.ty[0] == "dbl":
                return V(v.ty, {"k": z3.If(v.t["k"] == -1, iv(1), v.t["k"]), "r": z3.If(v.t["r"] < 0, -v.t["r"], v.t["r"])})
        if nm == "__builtin_expect":
            return ex.rv(st, args[0])
        if cls == "boost" and (nm in ("vertices", "out_edges", "target", "out_degree", "num_vertices", "source") or nm == "get" and len(args) == 3):
            return graph(ex, st, nm, args, fn, e)
        if nm == "get" and cls == "boost":
            return boost_get(ex, st, args, fn, e)
        if nm == "get" and cls == "std":
            x = ex.ev(st, args[0])
            lv = x if isinstance(x, LV) else ex.tmp(st, x)
            i = fn["ta"][0]["v"]
            if lv.ty[0] == "pair":
                return lv.f(["first", "second"][i], lv.ty[1 + i])
            return lv.f(str(i), lv.ty[1 + i])
        if nm in ("prev", "next"):
            it = ex.rv(st, args[0])
            n = ex.rv(st, args[1]).t if len(args) > 1 else iv(1)
            return IterV(it.lv, it.idx + n if nm == "next" else it.idx - n)
        if nm == "distance":
            a, b = rvs(ex, st, args)
            return V(("int", 64, True, "long"), b.idx - a.idx)
        if nm in ("begin", "end", "cbegin", "cend"):
            lv = ex.ev(st, args[0])
            lv = lv if isinstance(lv, LV) else ex.tmp(st, lv)
            return vec(ex, st, nm, lv, [], fn, e) if lv.ty[0] == "vec" else umap(ex, st, nm, lv, [], fn, e)
        if nm in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            a, b = rvs(ex, st, args)
            op = nm[8:]
            if isinstance(a, MIterV):
                r = ex.miter_eq(a, b)
                return V(("bool",), r if op == "==" else z3.Not(r))
            if isinstance(a, (IterV, PtrV)) or isinstance(b, (IterV, PtrV)):
                return ex.ptrop(st, op, a, b, e)
            ty = a.ty if a.ty[0] not in ("ref", "ptr") else ("int", 64, True, "p")
            return V(("bool",), compare(op, ty, a.t, b.t))
        if nm in ("operator+", "operator-"):
            a, b = rvs(ex, st, args)
            if isinstance(a, (IterV, PtrV)) or isinstance(b, (IterV, PtrV)):
                return ex.ptrop(st, nm[8:], a, b, e)
        if nm in ("find_if", "find", "all_of", "any_of", "none_of", "remove_if", "fill", "binary_search", "sort", "copy_if", "for_each", "max_element", "count_if", "find_if_not", "transform", "iota", "reverse", "unique", "min_element", "move_backward", "copy"):
            return algo(ex, st, nm, args, fn, e)
        if nm == "operator<<":
            for a in args:
                ex.ev(st, a)
            return ex.ev(st, args[0])
        if nm == "__assert_fail":
            ex.ob(st, z3.BoolVal(False), "assertion", e, "safety")
            raise Dead()
        if nm in ("exit", "abort"):
            ex.exc.append((st.copy(), nm, e.get("loc")))
            raise Dead()
        if nm in ("printf", "puts", "fprintf"):
            for a in args:
                ex.rv(st, a) if ex.ty(a)[0] != "opaque" else None
            return V(("int", 32, True, "int"), z3.Int(fresh_name("printed")))
    raise Unsupported("call to %s at %s" % (full, e.get("loc")))


def alloc(ex, st, el, tree):
    r = z3.Int(fresh_name("new"))
    st.pc.append(z3.And(r == st.next, r > 0))
    st.next = st.next + 1
    h = heap_of(st, el)
    st.heap[tykey(el)] = tstore(h, r, tree)
    return V(("ref", el), r)


def boost_get(ex, st, args, fn, e):
    p = ex.rv(st, args[0])
    rt = ex.u.norm(fn["r"])
    if isinstance(p, PtrV):
        lv = p.lv
        want = rt[1] if rt[0] == "ptr" else rt
        for i, t in enumerate(lv.ty[1:]):
            if t == want:
                return PtrV(lv.f(str(i), t), rd(st, lv)["which"] != i)
        raise Unsupported("boost::get type")
    raise Unsupported("boost::get by value")


def algo(ex, st, nm, args, fn, e):
    a = ex.rv(st, args[0])
    b = ex.rv(st, args[1])
    if isinstance(a, MIterV):
        if nm == "for_each":
            raise Unsupported("for_each on map")
    if not isinstance(a, IterV):
        raise Unsupported("algorithm on " + type(a).__name__)
    lv = a.lv
    t = rd(st, lv)
    el = lv.ty[1]
    lo, hi = a.idx, b.idx
    if a.lv.key() != b.lv.key():
        raise Unsupported("range of two containers")
    ex.safe(st, z3.And(0 <= lo, lo <= hi, hi <= t["len"]), "valid iterator range", e)
    q = z3.Int(fresh_name("q"))
    inq = z3.And(lo <= q, q < hi)
    elq = leaves(tselect(t["at"], q))

    def pat(body):
        ps = [x for x in elq if not z3.is_app_of(x, z3.Z3_OP_STORE)]
        return ps[:1]

    def forall(body):
        try:
            return z3.ForAll([q], body, patterns=pat(body))
        except z3.Z3Exception:
            return z3.ForAll([q], body)
    if nm in ("find", "binary_search"):
        v = ex.rv(st, args[2])
        ety = el if el[0] not in ("ref", "ptr") else ("int", 64, True, "p")
        vt = conv_to(ex, st, v, el, e)

        def P(i):
            return cmp_eq(ety, tselect(t["at"], i), vt)
        if nm == "binary_search":
            j = z3.Int(fresh_name("j"))
            so = z3.ForAll([q, j], z3.Implies(z3.And(lo <= q, q <= j, j < hi), z3.Not(cmp_lt(ety, tselect(t["at"], j), tselect(t["at"], q)))))
            ex.safe(st, so, "binary_search on a sorted range", e)
    elif nm in ("find_if", "find_if_not", "all_of", "any_of", "none_of", "remove_if", "count_if"):
        f = ex.rv(st, args[2])
        P0 = pred_term(ex, st, f, lambda s, i: lv.i(i, el), lo, hi, e)
        P = P0 if nm != "find_if_not" else (lambda i: z3.Not(P0(i)))
    if nm in ("find", "find_if", "find_if_not"):
        r = z3.Int(fresh_name("found"))
        st.pc.append(z3.And(lo <= r, r <= hi))
        st.pc.append(z3.Implies(r < hi, P(r)))
        st.pc.append(forall(z3.Implies(z3.And(inq, q < r), z3.Not(P(q)))))
        return IterV(lv, r)
    if nm in ("all_of", "any_of", "none_of", "binary_search"):
        neg = nm in ("all_of",)
        Q = (lambda i: z3.Not(P(i))) if neg else P       # search for a witness of Q
        los, his = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(los) and z3.is_int_value(his) and his.as_long() - los.as_long() <= 8:
            r = z3.Or(*[Q(iv(i)) for i in range(los.as_long(), his.as_long())])
            return V(("bool",), z3.Not(r) if nm in ("all_of", "none_of") else r)
        ex_ = z3.Bool(fresh_name("exists"))
        w = z3.Int(fresh_name("wit"))
        st.pc.append(z3.Implies(ex_, z3.And(lo <= w, w < hi, Q(w))))
        st.pc.append(z3.Implies(z3.Not(ex_), forall(z3.Implies(inq, z3.Not(Q(q))))))
        return V(("bool",), z3.Not(ex_) if nm in ("all_of", "none_of") else ex_)
    if nm == "remove_if":
        # stable filter: new[k] = old[f(k)], f strictly increasing onto the kept positions
        r = z3.Int(fresh_name("kept"))
        f = z3.Function(fresh_name("keepf"), I, I)
        g = z3.Function(fresh_name("keepg"), I, I)
        el_at = shape(("vec", el, "vector"), lambda p, s, tt: z3.Const(fresh_name("rm"), s))["at"]
        st.pc.append(z3.And(lo <= r, r <= hi))
        n = dict(t)
        n["at"] = el_at
        nq = tselect(el_at, q)
        body = z3.Implies(z3.And(lo <= q, q < r), z3.And(lo <= f(q), f(q) < hi, z3.Not(P(f(q))), g(f(q)) == q,
                                                         *[x == y for x, y in zip(leaves(nq), leaves(tselect(t["at"], f(q))))]))
        st.pc.append(z3.ForAll([q], body, patterns=[leaves(nq)[0]]))
        st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q < lo), z3.And(*[x == y for x, y in zip(leaves(nq), leaves(tselect(t["at"], q)))])), patterns=[leaves(nq)[0]]))
        body2 = z3.Implies(z3.And(inq, z3.Not(P(q))), z3.And(lo <= g(q), g(q) < r, f(g(q)) == q, *[x == y for x, y in zip(leaves(tselect(el_at, g(q))), leaves(tselect(t["at"], q)))]))
        st.pc.append(forall(body2))
        q2 = z3.Int(fresh_name("q2"))
        st.pc.append(z3.ForAll([q, q2], z3.Implies(z3.And(lo <= q, q < q2, q2 < r), f(q) < f(q2)), patterns=[z3.MultiPattern(f(q), f(q2))]))
        wr(st, lv, n)
        return IterV(lv, r)
    if nm == "fill":
        v = conv_to(ex, st, ex.rv(st, args[2]), el, e)
        n = dict(t)
        n["at"] = def_at(ex, st, el, lambda k: tite(z3.And(lo <= k, k < hi), v, tselect(t["at"], k)), "fill")
        wr(st, lv, n)
        return V(("void",), {})
    if nm == "max_element":
        r = z3.Int(fresh_name("maxel"))
        st.pc.append(z3.And(lo <= r, r <= hi, z3.Implies(lo < hi, r < hi)))
        st.pc.append(forall(z3.Implies(inq, z3.Not(cmp_lt(el, tselect(t["at"], r), tselect(t["at"], q))))))
        return IterV(lv, r)
    if nm == "iota":
        v = ex.rv(st, args[2])
        if el[0] == "int":
            top = 2 ** (el[1] - (1 if el[2] else 0)) - 1
            ex.safe(st, z3.Implies(lo < hi, v.t + (hi - lo) - 1 <= top), "iota stays within the element type", e)
        n = dict(t)
        n["at"] = def_at(ex, st, el, lambda k: tite(z3.And(lo <= k, k < hi), v.t + (k - lo), tselect(t["at"], k)), "iota")
        wr(st, lv, n)
        return V(("void",), {})
    if nm == "for_each":
        f = ex.rv(st, args[2])
        return foreach_map(ex, st, lv, lo, hi, f, e)
    if nm == "sort":
        ety = el if el[0] not in ("ref", "ptr") else ("int", 64, True, "p")
        el_at = shape(("vec", el, "vector"), lambda p, s, tt: z3.Const(fresh_name("so"), s))["at"]
        f = z3.Function(fresh_name("perm"), I, I)
        g = z3.Function(fresh_name("permi"), I, I)
        nq = tselect(el_at, q)
        b1 = z3.Implies(inq, z3.And(lo <= f(q), f(q) < hi, g(f(q)) == q, *[x == y for x, y in zip(leaves(nq), leaves(tselect(t["at"], f(q))))]))
        st.pc.append(z3.ForAll([q], b1, patterns=[leaves(nq)[0]]))
        b2 = z3.Implies(inq, z3.And(lo <= g(q), g(q) < hi, f(g(q)) == q, *[x == y for x, y in zip(leaves(tselect(el_at, g(q))), leaves(tselect(t["at"], q)))]))
        st.pc.append(forall(b2))
        st.pc.append(z3.ForAll([q], z3.Implies(z3.Not(inq), z3.And(*[x == y for x, y in zip(leaves(nq), leaves(tselect(t["at"], q)))])), patterns=[leaves(nq)[0]]))
        j = z3.Int(fresh_name("j"))
        st.pc.append(z3.ForAll([q, j], z3.Implies(z3.And(lo <= q, q <= j, j < hi), z3.Not(cmp_lt(ety, tselect(el_at, j), tselect(el_at, q))))))
        n = dict(t)
        n["at"] = el_at
        wr(st, lv, n)
        return V(("void",), {})
    raise Unsupported("algorithm std::%s at %s" % (nm, e.get("loc")))


def foreach_map(ex, st, lv, lo, hi, f, e):
    """std::for_each whose body only rewrites its own element"""
    el = lv.ty[1]
    kq = z3.Int(fresh_name("fe"))
    s = st.copy()
    n = fresh_name("elem")
    s.pc.append(z3.And(lo <= kq, kq < hi))
    s.vars[n] = V(el, rd(st, lv.i(kq, el)))
    before = dict(s.vars)
    elv = LV(("v", n), (), el)
    ex.call_lambda(s, f, [elv], e)
    for k in before:
        if k != n and s.vars.get(k) is not before[k] and isinstance(before[k], V) and not tsame(before[k].t, s.vars[k].t):
            raise Unsupported("for_each with side effects")
    for k in s.heap:
        if k in st.heap and s.heap[k] is not st.heap[k]:
            raise Unsupported("for_each with heap side effects")
    res = s.vars[n].t
    t = rd(st, lv)
    nt = dict(t)
    nt["at"] = def_at(ex, st, el, lambda k: tite(z3.And(lo <= k, k < hi), tmap(lambda x: z3.substitute(x, (kq, k)), res), tselect(t["at"], k)), "fe")
    wr(st, lv, nt)
    return V(("void",), {})
