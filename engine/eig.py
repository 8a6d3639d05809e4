"""Model of the Eigen expressions used on DBMs: coefficient-wise semantics."""
import z3
from core import *
from models import conv_to, DataPtr, matsize_facts, lin_axioms, lin_fns

LONG = ("int", 64, True, "long")


def as_eig(ex, st, x):
    if isinstance(x, EigV):
        return x
    if isinstance(x, LV) and x.ty[0] == "mat":
        t = rd(st, x)
        return EigV(t["rows"], t["cols"], lambda i, j: tselect(tselect(t["at"], i), j), x.ty[1],
                    blk=(x, iv(0), iv(0)), leaves=[(x.key(), iv(0), iv(0), False, None, None)])
    if isinstance(x, V) and x.ty[0] == "mat":
        t = x.t
        return EigV(t["rows"], t["cols"], lambda i, j: tselect(tselect(t["at"], i), j), x.ty[1])
    raise Unsupported("not an Eigen expression: %s" % getattr(x, "ty", x))


def sub(b, r0, c0, rows, cols, colvec=False, rowvec=False):
    blk = None
    if b.blk is not None:
        blk = (b.blk[0], b.blk[1] + r0, b.blk[2] + c0)
    g = b.get
    lv = []
    for (k, lr, lc, tr, nr, nc) in b.leaves:
        if tr:
            lv.append((k, lr + c0, lc + r0, True, cols, rows))
        else:
            lv.append((k, lr + r0, lc + c0, False, rows, cols))
    return EigV(rows, cols, lambda i, j: g(r0 + i, c0 + j), b.elty, blk, lv, colvec, rowvec)


def elementwise(ex, st, a, b, f):
    """f(treeA, treeB)->tree ; b may be scalar V"""
    if isinstance(b, EigV):
        gb, lb = b.get, list(b.leaves)
    else:
        gb, lb = (lambda i, j: b.t), []
    ga = a.get
    return EigV(a.rows, a.cols, lambda i, j: f(ga(i, j), gb(i, j)), a.elty, None, list(a.leaves) + lb, a.colvec, a.rowvec)


def bounds_plus(ex, st, el):
    """the /repo operator+ that Eigen's scalar_sum_op resolves to, executed on values"""
    cands = [f for f in ex.u.byname.get("operator+", []) if len(f["params"]) == 2 and all(
        ex.u.norm(p["t"]) in (("lref", el), el) for p in f["params"])]
    if not cands:
        raise Unsupported("no operator+ for matrix coefficients")
    f = cands[0]

    def go(x, y):
        s = st.copy()
        npc = len(s.pc)
        r = ex.inline(s, f, None, [V(el, x), V(el, y)], {"loc": ""})
        return ex.read(s, r).t
    return go


def tmin(el):
    return lambda x, y: tite(cmp_lt(el, y, x), y, x)


def call(ex, st, nm, obj, args, fn, e):
    if obj is None:
        x = [ex.ev(st, a) for a in args]
        if nm == "operator+":
            a, b = as_eig(ex, st, x[0]), as_eig(ex, st, x[1])
            return elementwise(ex, st, a, b, bounds_plus(ex, st, a.elty))
        raise Unsupported("Eigen free function " + nm)
    if isinstance(obj, LV) and obj.ty[0] not in ("mat",):
        obj = ex.read(st, obj)
    m = obj
    E = as_eig(ex, st, m)

    def arg(i):
        return ex.rv(st, args[i]).t
    if nm == "rows":
        return V(LONG, E.rows)
    if nm == "cols":
        return V(LONG, E.cols)
    if nm == "size":
        if E.rowvec:
            return V(LONG, E.cols)
        if E.colvec:
            return V(LONG, E.rows)
        return V(LONG, matsize_facts(st, E.rows, E.cols))
    if nm in ("array", "matrix", "derived", "eval"):
        return E
    if nm == "row":
        i = arg(0)
        ex.safe(st, z3.And(0 <= i, i < E.rows), "row in range", e)
        return sub(E, i, iv(0), iv(1), E.cols, rowvec=True)
    if nm == "col":
        j = arg(0)
        ex.safe(st, z3.And(0 <= j, j < E.cols), "column in range", e)
        return sub(E, iv(0), j, E.rows, iv(1), colvec=True)
    if nm == "block":
        r, c, h, w = [arg(i) for i in range(4)]
        ex.safe(st, z3.And(r >= 0, c >= 0, h >= 0, w >= 0, r + h <= E.rows, c + w <= E.cols), "block in range", e)
        return sub(E, r, c, h, w)
    if nm in ("tail", "head", "segment"):
        ln = E.cols if E.rowvec else E.rows
        if nm == "segment":
            off, n = arg(0), arg(1)
        else:
            n = arg(0)
            off = ln - n if nm == "tail" else iv(0)
        ex.safe(st, z3.And(n >= 0, off >= 0, off + n <= ln), nm + " in range", e)
        if E.rowvec:
            return sub(E, iv(0), off, iv(1), n, rowvec=True)
        return sub(E, off, iv(0), n, iv(1), colvec=True)
    if nm == "transpose":
        g = E.get
        return EigV(E.cols, E.rows, lambda i, j: g(j, i), E.elty, None,
                    [(k, r, c, not tr, nr, nc) for (k, r, c, tr, nr, nc) in E.leaves], E.rowvec, E.colvec)
    if nm in ("operator()", "operator[]", "coeff", "coeffRef"):
        if len(args) == 2:
            i, j = arg(0), arg(1)
        else:
            a0 = arg(0)
            i, j = (iv(0), a0) if E.rowvec else (a0, iv(0))
        ex.safe(st, z3.And(0 <= i, i < E.rows, 0 <= j, j < E.cols), "matrix index in range", e)
        if E.blk is not None:
            lv, r0, c0 = E.blk
            return LV(lv.root, lv.path + (("m", z3.simplify(r0 + i), z3.simplify(c0 + j)),), E.elty)
        return V(E.elty, E.get(i, j))
    if nm in ("min", "cwiseMin", "max", "cwiseMax"):
        b = ex.ev(st, args[0])
        b = ex.read(st, b) if isinstance(b, LV) and b.ty[0] != "mat" else b
        B_ = as_eig(ex, st, b) if not (isinstance(b, V) and b.ty == E.elty) else b
        f = tmin(E.elty) if "in" in nm else (lambda x, y: tite(cmp_lt(E.elty, x, y), y, x))
        return elementwise(ex, st, E, B_, f)
    if nm == "operator+":
        b = ex.ev(st, args[0])
        b = ex.read(st, b) if isinstance(b, LV) and b.ty[0] != "mat" else b
        B_ = as_eig(ex, st, b) if not (isinstance(b, V) and b.ty == E.elty) else b
        return elementwise(ex, st, E, B_, bounds_plus(ex, st, E.elty))
    if nm in ("fill", "setConstant"):
        v = conv_to(ex, st, ex.rv(st, args[0]), E.elty, e)
        src = EigV(E.rows, E.cols, lambda i, j: v, E.elty)
        assign(ex, st, E, src, e)
        return V(("void",), {})
    if nm == "minCoeff":
        el = E.elty
        ex.safe(st, z3.And(E.rows > 0, E.cols > 0), "minCoeff of a non-empty matrix", e)
        r = tfresh(el, "minc")
        i0, j0 = z3.Int(fresh_name("mi")), z3.Int(fresh_name("mj"))
        if E.rowvec:
            i0 = iv(0)
        if E.colvec:
            j0 = iv(0)
        st.pc.append(z3.And(0 <= i0, i0 < E.rows, 0 <= j0, j0 < E.cols, teq(r, E.get(i0, j0))))
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        if E.rowvec:
            body = z3.Implies(z3.And(0 <= j, j < E.cols), z3.Not(cmp_lt(el, E.get(iv(0), j), r)))
            qs = [j]
        elif E.colvec:
            body = z3.Implies(z3.And(0 <= i, i < E.rows), z3.Not(cmp_lt(el, E.get(i, iv(0)), r)))
            qs = [i]
        else:
            body = z3.Implies(z3.And(0 <= i, i < E.rows, 0 <= j, j < E.cols), z3.Not(cmp_lt(el, E.get(i, j), r)))
            qs = [i, j]
        st.pc.append(z3.ForAll(qs, body, patterns=pats(body, qs)))
        return V(el, r)
    if nm == "data":
        if E.blk is None:
            raise Unsupported("data() of expression")
        t = rd(st, E.blk[0])
        if not any(k == ("lin", t["rows"].get_id(), t["cols"].get_id()) for k in getattr(st, "lin_done", ())):
            lin_axioms(st, t["rows"], t["cols"], matsize_facts(st, t["rows"], t["cols"]))
        return DataPtr(E.blk[0], iv(0))
    if nm == "resize":
        r = arg(0)
        c = arg(1) if len(args) > 1 else iv(1)
        lv = E.blk[0]
        t = rd(st, lv)
        n = tfresh(lv.ty, "resized")
        same = z3.And(t["rows"] == r, t["cols"] == c)
        n = {"rows": r, "cols": c, "at": tite(same, t["at"], n["at"])}
        wr(st, lv, n)
        return V(("void",), {})
    if nm == "conservativeResize":
        r, c = arg(0), arg(1)
        lv = E.blk[0]
        t = rd(st, lv)
        new = tfresh(lv.ty, "cresized")
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        a, b = leaves(tselect(tselect(new["at"], i), j)), leaves(tselect(tselect(t["at"], i), j))
        for x, y in zip(a, b):
            st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < t["rows"], i < r, 0 <= j, j < t["cols"], j < c), x == y), patterns=[x]))
        wr(st, lv, {"rows": r, "cols": c, "at": new["at"]})
        return V(("void",), {})
    if nm == "operator=":
        x = ex.ev(st, args[0])
        if isinstance(x, LV) and x.ty[0] != "mat":
            x = ex.read(st, x)
        src = as_eig(ex, st, x)
        if E.blk is not None and isinstance(obj, LV):
            v = to_mat(ex, st, src)
            wr(st, obj, v.t)
            return obj
        assign(ex, st, E, src, e)
        return E
    if nm == "operator<<":
        v = conv_to(ex, st, ex.rv(st, args[0]), E.elty, e)
        ex.safe(st, z3.And(E.rows >= 1, E.cols >= 1), "comma initialiser target non-empty", e)
        lv, r0, c0 = E.blk
        wr(st, LV(lv.root, lv.path + (("m", r0, c0),), E.elty), v)
        return E
    if nm == "operator==":
        x = ex.ev(st, args[0])
        b = as_eig(ex, st, x)
        ex.safe(st, z3.And(E.rows == b.rows, E.cols == b.cols), "matrix comparison of equal dimensions", e)
        el = E.elty
        r = z3.Bool(fresh_name("mateq"))
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        wi, wj = z3.Int(fresh_name("wi")), z3.Int(fresh_name("wj"))
        rng = lambda a, c: z3.And(0 <= a, a < E.rows, 0 <= c, c < E.cols)
        body = z3.Implies(rng(i, j), cmp_eq(el, E.get(i, j), b.get(i, j)))
        st.pc.append(z3.Implies(r, z3.ForAll([i, j], body, patterns=pats(body, [i, j]))))
        st.pc.append(z3.Implies(z3.Not(r), z3.And(rng(wi, wj), z3.Not(cmp_eq(el, E.get(wi, wj), b.get(wi, wj))))))
        return V(("bool",), r)
    raise Unsupported("Eigen method %s at %s" % (nm, e.get("loc")))


def pats(body, qs):
    """collect select terms that mention all bound vars, usable as triggers"""
    ids = {q.get_id() for q in qs}
    found = []
    seen = set()

    def vars_in(t):
        s, out, stack = set(), set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in s:
                continue
            s.add(x.get_id())
            if x.get_id() in ids:
                out.add(x.get_id())
            stack.extend(x.children())
        return out

    def walk_(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_select(t) and vars_in(t) == ids and not has_ite(t):
            found.append(t)
            return
        for c in t.children():
            walk_(c)
    walk_(body)
    return found[:4]


def has_ite(t):
    stack, s = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in s:
            continue
        s.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_app_of(x, z3.Z3_OP_STORE):
            return True
        stack.extend(x.children())
    return False


def to_mat(ex, st, E):
    ty = ("mat", E.elty)
    if E.blk is not None:
        lv, r0, c0 = E.blk
        t = rd(st, lv)
        if z3.is_int_value(z3.simplify(r0)) and z3.simplify(r0).as_long() == 0 and z3.is_int_value(z3.simplify(c0)) and z3.simplify(c0).as_long() == 0:
            return V(ty, {"rows": E.rows, "cols": E.cols, "at": t["at"]})
    new = tfresh(ty, "mat")
    i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
    a, b = leaves(tselect(tselect(new["at"], i), j)), leaves(E.get(i, j))
    for x, y in zip(a, b):
        st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < E.rows, 0 <= j, j < E.cols), x == y), patterns=[x]))
    return V(ty, {"rows": E.rows, "cols": E.cols, "at": new["at"]})


def assign(ex, st, T, src, e):
    if T.blk is None:
        raise Unsupported("assignment to a non-lvalue Eigen expression")
    lv, r0, c0 = T.blk
    ex.safe(st, z3.And(src.rows == T.rows, src.cols == T.cols), "Eigen assignment of equal dimensions", e)
    key = lv.key()
    one_row = z3.is_int_value(T.rows) and T.rows.as_long() == 1
    one_col = z3.is_int_value(T.cols) and T.cols.as_long() == 1
    for (k, lr, lc, tr, nr, nc) in src.leaves:
        if k != key:
            continue
        if tr:
            raise Unsupported("aliased transposed Eigen assignment")
        samer, samec = z3.simplify(lr).eq(z3.simplify(r0)), z3.simplify(lc).eq(z3.simplify(c0))
        if one_row and samec or one_col and samer or samer and samec:
            continue
        raise Unsupported("possibly aliased Eigen assignment at %s" % (e or {}).get("loc"))
    t = rd(st, lv)
    full = z3.simplify(z3.And(r0 == 0, c0 == 0, T.rows == t["rows"], T.cols == t["cols"]))
    if one_row:
        old = tselect(t["at"], r0)
        from models import def_at
        row = def_at(ex, st, T.elty, lambda q: tite(z3.And(c0 <= q, q < c0 + T.cols), src.get(iv(0), q - c0), tselect(old, q)), "row")
        n = dict(t)
        n["at"] = tstore(t["at"], r0, row)
        wr(st, lv, n)
        return
    new = tfresh(("mat", T.elty), "blk")
    i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
    cur = leaves(tselect(tselect(new["at"], i), j))
    inb = z3.And(r0 <= i, i < r0 + T.rows, c0 <= j, j < c0 + T.cols)
    want = leaves(tite(inb, src.get(i - r0, j - c0), tselect(tselect(t["at"], i), j)))
    for a, b in zip(cur, want):
        st.pc.append(z3.ForAll([i, j], a == b, patterns=[a]))
    n = dict(t)
    n["at"] = new["at"]
    wr(st, lv, n)
