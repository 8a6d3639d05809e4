"""cxxvc symbolic executor / VC generator over the dumped C++ AST."""
import z3, time, sys
from core import *

TRANSPARENT = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr",
               "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "CXXStdInitializerListExpr",
               "OpaqueValueExpr", "FullExpr"}


class Outcome(Exception):
    pass


class Dead(Exception):
    """current path ended (throw/noreturn/assert false) inside an expression"""


class Ob:
    def __init__(self, name, loc, pc, goal, kind):
        self.name, self.loc, self.pc, self.goal, self.kind = name, loc, pc, goal, kind


class Exec:
    def __init__(self, unit, contracts, fname, log=None):
        self.u = unit
        self.contracts = contracts      # qualified-name matcher -> Contract
        self.fname = fname
        self.obs = []
        self.exc = []                   # exceptional states [(state, what)]
        self.loopno = 0
        self.loopspecs = {}
        self.cur = None                 # active contract context
        self.depth = 0
        self.inlined = set()
        self.called = set()
        self.assumed = set()
        self.models_used = set()
        self.houdini_calls = 0
        self.quiet = 0                  # >0: do not record obligations
        self.log = log
        self.ignore_safety = False
        self.returnstack = []
        self.static_inv = None
        self.hints = []
        self.trace = bool(__import__('os').environ.get('VC_TRACE'))

    # -------------------------------------------------------------- utils
    def ob(self, st, goal, name, node=None, kind="post"):
        if self.quiet:
            return
        if z3.is_true(goal):
            self.obs.append(Ob(name, node.get("loc") if node else "", [], z3.BoolVal(True), kind))
            return
        self.obs.append(Ob(name, (node or {}).get("loc", ""), list(st.pc), goal, kind))

    def safe(self, st, goal, name, node):
        if not self.ignore_safety:
            self.ob(st, goal, "safety:" + name, node, "safety")
        st.pc.append(goal)

    def ty(self, e):
        return self.u.norm(e["t"])

    def read(self, st, x):
        """rvalue of x"""
        if isinstance(x, LV):
            if x.root[0] == "v" and not x.path and isinstance(st.vars.get(x.root[1]), PyVal):
                return st.vars[x.root[1]]
            t = rd(st, x)
            self.typing(st, x.ty, t)
            return V(x.ty, t)
        if isinstance(x, EigV) and x.get is not None and x.rows is None:
            return V(x.elty, x.get(None, None))
        return x

    def typing(self, st, ty, t):
        for f in ranges(ty, t):
            f = z3.simplify(f)
            if not z3.is_true(f):
                self.typfacts[f.get_id()] = f
                st.pc.append(f)

    def selector(self, d):
        """conjunction of path-condition entries that distinguishes a path: facts that hold of every value of a type are left out"""
        k = [x for x in d if x.get_id() not in self.typfacts]
        k = k or d
        return z3.And(*k) if len(k) != 1 else k[0]

    def tmp(self, st, v):
        """materialise an rvalue, giving an LV"""
        if isinstance(v, LV):
            return v
        n = fresh_name("tmp")
        st.vars[n] = v
        return LV(("v", n), (), v.ty)

    def rv(self, st, e):
        return self.read(st, self.ev(st, e))

    def term(self, st, e):
        v = self.rv(st, e)
        if not isinstance(v, V):
            raise Unsupported("scalar expected at %s: %s" % (e.get("loc"), type(v).__name__))
        return v.t

    # -------------------------------------------------------------- expressions
    def ev(self, st, e):
        k = e["k"]
        if k in TRANSPARENT:
            return self.ev(st, e["c"][0])
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (k, e.get("loc")))
        return m(st, e)

    def e_IntegerLiteral(self, st, e):
        return V(self.ty(e), iv(e["v"]))

    e_CharacterLiteral = e_IntegerLiteral

    def e_UnaryExprOrTypeTraitExpr(self, st, e):
        return V(self.ty(e), iv(e["v"]))

    def e_CXXBoolLiteralExpr(self, st, e):
        return V(("bool",), z3.BoolVal(e["v"]))

    def e_FloatingLiteral(self, st, e):
        from fractions import Fraction
        f = Fraction(e["v"])
        return V(("dbl",), D("%d/%d" % (f.numerator, f.denominator)))

    def e_StringLiteral(self, st, e):
        return StrV(e["v"])

    def e_CXXNullPtrLiteralExpr(self, st, e):
        return V(("ref", None), iv(0))

    def e_GNUNullExpr(self, st, e):
        return V(("ref", None), iv(0))

    def e_ImplicitValueInitExpr(self, st, e):
        return V(self.ty(e), tzero(self.ty(e)))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThisExpr(self, st, e):
        return PtrV(st.this, z3.BoolVal(False))

    def lookup(self, st, d, e):
        if d not in st.vars:
            raise Unsupported("unknown variable %s at %s" % (e.get("n"), e.get("loc")))
        x = st.vars[d]
        if isinstance(x, LV):
            return x
        return LV(("v", d), (), x.ty)

    def e_DeclRefExpr(self, st, e):
        dk = e.get("dk")
        if dk == "enum":
            return V(self.ty(e), iv(e["v"]))
        if dk == "func":
            return FnV(e["fn"])
        if dk in ("var", "parm", "binding"):
            if e["d"] in st.vars:
                return self.lookup(st, e["d"], e)
            if e.get("global"):
                if "ginit" in e:
                    return self.rv(st, e["ginit"])
                return self.global_const(e)
            return self.lookup(st, e["d"], e)
        raise Unsupported("DeclRef " + str(dk) + " " + e["n"])

    def global_const(self, e):
        if e["n"] in ("std::cerr", "std::cout", "std::ignore", "stdout", "stderr"):
            return V(("opaque", e["n"]), z3.Int("global." + e["n"]))
        if e["n"].startswith("std::strong_ordering") or e["n"].startswith("std::partial_ordering"):
            return V(("opaque", e["n"]), iv(0))
        raise Unsupported("global " + e["n"])

    def e_MemberExpr(self, st, e):
        dk = e["dk"]
        if dk == "func":
            return FnV(e["fn"])
        if dk == "staticmember":
            if "ginit" in e:
                return self.rv(st, e["ginit"])
            raise Unsupported("static member " + e["n"])
        b = self.ev(st, e["c"][0])
        if e["arrow"]:
            b = self.deref(st, b, e)
        ft = self.ty(e)
        n = e["n"]
        if isinstance(b, LV) and b.root[0] == "v" and not b.path and hasattr(st.vars.get(b.root[1]), "mp"):
            b = st.vars[b.root[1]].mp
        if hasattr(b, "mp"):
            b = b.mp
        if isinstance(b, MIterPair):
            return b.field(self, st, n)
        if isinstance(b, LV):
            b0 = b
            lt = b.ty
            if lt[0] == "lref":
                lt = lt[1]
            return LV(b0.root, b0.path + (("f", n),), ft[1] if ft[0] == "lref" else ft)
        if isinstance(b, V):
            return V(ft, b.t[n])
        raise Unsupported("member of " + type(b).__name__)

    def deref(self, st, p, e):
        """pointer-like value -> LV of pointee"""
        p = self.read(st, p) if isinstance(p, LV) else p
        if isinstance(p, PtrV):
            if not z3.is_false(p.null):
                self.safe(st, z3.Not(p.null), "non-null", e)
            return p.lv
        import models
        if isinstance(p, models.DataPtr):
            return p.entry(self, st, e)
        if isinstance(p, IterV):
            return self.iter_deref(st, p, e)
        if isinstance(p, MIterV):
            self.safe(st, p.valid, "map iterator dereferenceable", e)
            return MIterPair(p)
        if isinstance(p, V) and p.ty[0] in ("ref", "ptr"):
            self.safe(st, p.t != 0, "non-null", e)
            return LV(("h", p.ty[1], p.t), (), p.ty[1])
        if isinstance(p, V):
            # operator-> on a reference value
            return self.tmp(st, p)
        if type(p).__name__ == "PtrLike":
            return p.x
        raise Unsupported("deref " + type(p).__name__)

    def iter_deref(self, st, it, e):
        tr = rd(st, it.lv)
        idx = it.idx
        self.safe(st, z3.And(0 <= idx, idx < tr["len"]), "iterator in range", e)
        return it.lv.i(idx, it.lv.ty[1])

    # ---- casts
    def conv_int(self, st, v, src, dst, e, explicit):
        lo, hi = int_range(dst)
        if src[0] == "bool":
            return z3.If(v, iv(1), iv(0))
        if z3.is_int_value(v):
            x = v.as_long()
            w = 1 << dst[1]
            x = (x - lo) % w + lo
            return iv(x)
        if src[0] == "int":
            slo, shi = int_range(src)
            if slo >= lo and shi <= hi:
                return v
        elif src[0] == "enum":
            return v
        w = 1 << dst[1]
        if src[0] == "int" and src[1] == dst[1]:
            if dst[2]:
                return z3.If(v > hi, v - w, v)
            return z3.If(v < 0, v + w, v)
        if src[0] == "int" and src[1] < dst[1] and not dst[2]:
            return z3.If(v < 0, v + w, v)
        r = (v - lo) % iv(w) + lo
        return z3.If(z3.And(v >= lo, v <= hi), v, r)

    def e_ImplicitCastExpr(self, st, e):
        ck = e["ck"]
        sub = e["c"][0]
        if ck == "LValueToRValue":
            return self.rv(st, sub)
        if ck in ("NoOp", "ArrayToPointerDecay", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "Dependent"):
            return self.ev(st, sub)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
            x = self.ev(st, sub)
            ty = self.ty(e)
            isptr = ty[0] == "ptr"
            base = ty[1] if isptr else ty
            y = x.lv if isinstance(x, PtrV) else x
            if isinstance(y, (IterV, MIterV, EigV)):
                return x
            if isinstance(y, LV):
                src = y.ty
                if src[0] == "rec" and base[0] in ("vec", "umap"):
                    y = y.f("__std", base)
                elif src[0] in ("mat", "eig", "ref", "opaque", "vec", "umap", "uset", "pair"):
                    pass
                else:
                    y = LV(y.root, y.path, base if base[0] != "eig" else y.ty)
                return PtrV(y, x.null) if isinstance(x, PtrV) else y
            if isinstance(y, V) and y.ty[0] == "rec" and base[0] in ("vec",):
                return V(base, y.t["__std"])
            if isinstance(y, V) and y.ty[0] == "rec" and base[0] == "rec":
                # slicing
                return V(base, {n: y.t[n] for n, _, _ in self.u.fields(base[2])})
            return x
        if ck in ("ConstructorConversion", "UserDefinedConversion"):
            return self.ev(st, sub)
        dst = self.ty(e)
        if ck == "NullToPointer":
            return V(("ref", dst[1] if dst[0] == "ptr" else None), iv(0))
        if ck == "ToVoid":
            self.ev(st, sub)
            return V(("void",), {})
        v = self.rv(st, sub)
        if ck in ("BitCast", "LValueBitCast"):
            return v
        if ck == "PointerToBoolean":
            if isinstance(v, PtrV):
                return V(("bool",), z3.Not(v.null))
            return V(("bool",), v.t != 0)
        if not isinstance(v, V):
            raise Unsupported("cast %s of %s" % (ck, type(v).__name__))
        src = v.ty
        if ck == "IntegralCast":
            if dst[0] == "enum":
                return V(dst, v.t)
            return V(dst, self.conv_int(st, v.t, src, dst, e, False))
        if ck == "IntegralToBoolean":
            return V(("bool",), v.t != 0)
        if ck == "IntegralToFloating":
            t = z3.If(v.t, iv(1), iv(0)) if src[0] == "bool" else v.t
            r = z3.RealVal(t.as_long()) if z3.is_int_value(t) else z3.ToReal(t)
            return V(("dbl",), {"k": iv(0), "r": r})
        if ck == "FloatingToBoolean":
            return V(("bool",), z3.Or(v.t["k"] != 0, v.t["r"] != 0) if kc(v.t) != 0 else v.t["r"] != 0)
        if ck == "FloatingCast":
            return V(("dbl",), v.t)
        if ck == "FloatingToIntegral":
            r = v.t["r"]
            t = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
            lo, hi = int_range(dst)
            self.safe(st, z3.And(v.t["k"] == 0, t >= lo, t <= hi), "double to integer conversion in range", e)
            return V(dst, t)
        raise Unsupported("cast kind " + ck)

    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    # ---- operators
    def arith(self, st, op, ty, a, b, e):
        if ty[0] == "dbl":
            f = {"+": dadd, "-": dsub, "*": dmul, "/": ddiv}.get(op)
            if f is None:
                raise Unsupported("double op " + op)
            return V(ty, f(a, b))
        if ty[0] == "int":
            lo, hi = int_range(ty)
            w = 1 << ty[1]
            if op in ("+", "-", "*"):
                r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
                rs = z3.simplify(r)
                if z3.is_int_value(rs):
                    x = rs.as_long()
                    if not ty[2]:
                        x %= w
                    return V(ty, iv(x))
                if ty[2]:
                    self.safe(st, z3.And(r >= lo, r <= hi), "no signed overflow", e)
                    return V(ty, r)
                if op == "+":
                    return V(ty, z3.If(r > hi, r - w, r))
                if op == "-":
                    return V(ty, z3.If(r < 0, r + w, r))
                return V(ty, z3.If(r <= hi, r, r % w))
            if op in ("/", "%"):
                self.safe(st, b != 0, "division by zero", e)
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
                return V(ty, q if op == "/" else a - q * b)
            if op == "<<":
                if z3.is_int_value(a):
                    p = pow2(b)
                    self.safe(st, z3.And(b >= 0, b < ty[1]), "shift in range", e)
                    st.pc.append(p >= 1)
                    return V(ty, z3.If(a * p <= hi, a * p, (a * p) % w))
                raise Unsupported("shift")
            if op in ("&", "|", "^", ">>"):
                f = z3.Function("int_%s" % {"&": "and", "|": "or", "^": "xor", ">>": "shr"}[op], I, I, I)
                r = f(a, b)
                st.pc.append(z3.And(r >= lo, r <= hi))
                return V(ty, r)
        raise Unsupported("arith %s on %s" % (op, ty))

    def e_BinaryOperator(self, st, e):
        op = e["op"]
        a, b = e["c"]
        if op == ",":
            self.ev(st, a)
            return self.ev(st, b)
        if op == "=":
            x = self.ev(st, b)
            lv = self.ev(st, a)
            x = self.read(st, x)
            self.store(st, lv, x, e)
            return lv
        if op in ("&&", "||"):
            c = self.boolof(st, self.rv(st, a))
            cs = z3.simplify(c)
            if op == "&&":
                if z3.is_false(cs):
                    return V(("bool",), z3.BoolVal(False))
            elif z3.is_true(cs):
                return V(("bool",), z3.BoolVal(True))
            go = c if op == "&&" else z3.Not(c)
            d = self.guarded(st, go, lambda s: self.rv(s, b))
            if d is None:
                return V(("bool",), z3.BoolVal(op == "||"))
            return V(("bool",), z3.And(c, d.t) if op == "&&" else z3.Or(c, d.t))
        x = self.rv(st, a)
        y = self.rv(st, b)
        return self.binop(st, op, x, y, e)

    def boolof(self, st, v):
        return v.t

    def guarded(self, st, cond, f):
        """evaluate f under cond; effects merged back.  Returns value (meaningful under cond) or None if dead."""
        s1 = st.copy()
        s1.pc.append(cond)
        try:
            v = f(s1)
        except Dead:
            st.pc.append(z3.Not(cond))
            return None
        s0 = st.copy()
        s0.pc.append(z3.Not(cond))
        self.merge_into(st, cond, s1, s0)
        return v

    def merge_into(self, st, cond, s1, s0):
        m = self.merge(cond, s1, s0, len(st.pc))
        if m is None:
            raise Unsupported("cannot merge states")
        st.vars, st.heap, st.pc, st.next, st.ghost = m.vars, m.heap, m.pc, m.next, m.ghost

    def merge(self, cond, s1, s0, npc):
        """merge two states that share the first npc path-condition entries; cond selects s1"""
        m = s1.copy()
        base = s1.pc[:npc]
        d1, d0 = s1.pc[npc:], s0.pc[npc:]
        # drop the branch condition itself
        d1 = [x for x in d1 if not x.eq(cond)]
        nc = z3.Not(cond)
        d0 = [x for x in d0 if not x.eq(nc)]
        out = list(base)
        ids0 = {x.get_id() for x in d0}
        ids1 = {x.get_id() for x in d1}
        for x in d1:
            out.append(x if x.get_id() in ids0 else z3.Implies(cond, x))
        for x in d0:
            if x.get_id() not in ids1:
                out.append(z3.Implies(nc, x))
        m.pc = out
        vs = {}
        for k in s1.vars:
            if k not in s0.vars:
                continue
            a, b = s1.vars[k], s0.vars[k]
            if a is b:
                vs[k] = a
                continue
            r = self.merge_val(cond, a, b)
            if r is None:
                return None
            vs[k] = r
        m.vars = vs
        hs = {}
        for k in set(s1.heap) | set(s0.heap):
            ty = tytuple(json.loads(k))
            a = s1.heap[k] if k in s1.heap else heap0(ty)
            b = s0.heap[k] if k in s0.heap else heap0(ty)
            hs[k] = a if a is b else tite(cond, a, b)
        m.heap = hs
        m.next = s1.next if s1.next.eq(s0.next) else z3.If(cond, s1.next, s0.next)
        gs = {}
        for k in s1.ghost:
            if k in s0.ghost:
                a, b = s1.ghost[k], s0.ghost[k]
                gs[k] = a if a is b else tite(cond, a, b)
        m.ghost = gs
        return m

    def merge_val(self, cond, a, b):
        if isinstance(a, V) and isinstance(b, V):
            if a.t is b.t:
                return a
            return V(a.ty, tite(cond, a.t, b.t))
        if isinstance(a, LV) and isinstance(b, LV):
            return a if a.key() == b.key() else None
        if isinstance(a, IterV) and isinstance(b, IterV) and a.lv.key() == b.lv.key():
            return IterV(a.lv, z3.If(cond, a.idx, b.idx))
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.lv is not None and b.lv is not None and a.lv.key() == b.lv.key():
                return PtrV(a.lv, z3.If(cond, a.null, b.null))
            return None
        if isinstance(a, LamV) and isinstance(b, LamV) and a.node is b.node:
            return a
        if isinstance(a, MIterV) and isinstance(b, MIterV) and a.lv.key() == b.lv.key():
            oa, ob = getattr(a, "order", None), getattr(b, "order", None)
            if oa is not None and ob is not None and oa[0] is ob[0]:
                import models
                return models.miter_at(a.lv, oa[0], z3.If(cond, oa[1], ob[1]))
            return MIterV(a.lv, z3.If(cond, a.valid, b.valid), [z3.If(cond, x, y) for x, y in zip(a.key, b.key)])
        if isinstance(a, FnV) and isinstance(b, FnV) and a.fn["d"] == b.fn["d"]:
            return a
        if type(a) is type(b) and a is b:
            return a
        if all(isinstance(x, StrV) or isinstance(x, V) and x.ty == ("str",) for x in (a, b)):
            return V(("str",), z3.If(cond, *[strid(x.s) if isinstance(x, StrV) else x.t for x in (a, b)]))
        if all(isinstance(x, FnV) or isinstance(x, V) and x.ty in (("func",), ("ptr", ("func",))) for x in (a, b)):
            return V(("func",), z3.If(cond, self.coerce(a, None), self.coerce(b, None)))
        return None

    def binop(self, st, op, x, y, e):
        if isinstance(x, (IterV, PtrV)) or isinstance(y, (IterV, PtrV)):
            return self.ptrop(st, op, x, y, e)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            ty = x.ty
            if ty[0] in ("ref", "ptr"):
                ty = ("int", 64, True, "p")
            return V(("bool",), compare(op, ty, x.t, y.t))
        return self.arith(st, op, self.ty(e), x.t, y.t, e)

    def ptrop(self, st, op, x, y, e):
        if isinstance(x, IterV) and isinstance(y, V) and op in ("+", "-"):
            return type(x)(x.lv, x.idx + y.t if op == "+" else x.idx - y.t)
        if isinstance(x, IterV) and isinstance(y, IterV):
            if x.lv.key() != y.lv.key():
                raise Unsupported("iterators of different containers")
            if op == "-":
                return V(("int", 64, True, "long"), x.idx - y.idx)
            return V(("bool",), compare(op, ("int", 64, True, "p"), x.idx, y.idx))
        if isinstance(x, PtrV) and isinstance(y, V) and op in ("==", "!="):
            c = x.null if z3.is_int_value(y.t) and y.t.as_long() == 0 else None
            if c is None:
                raise Unsupported("pointer comparison")
            return V(("bool",), c if op == "==" else z3.Not(c))
        if isinstance(y, PtrV) and isinstance(x, V):
            return self.ptrop(st, op, y, x, e)
        raise Unsupported("pointer op " + op)

    def e_CompoundAssignOperator(self, st, e):
        a, b = e["c"]
        y = self.rv(st, b)
        lv = self.ev(st, a)
        x = self.read(st, lv)
        op = e["op"][:-1]
        if isinstance(x, IterV):
            self.store(st, lv, self.ptrop(st, op, x, y, e), e)
            return lv
        ct = self.u.norm(e["ct"])
        clt = self.u.norm(e["clt"])
        xt = x.t
        if clt[0] == "int" and x.ty[0] == "int":
            xt = self.conv_int(st, xt, x.ty, clt, e, False)
        elif clt[0] == "dbl" and x.ty[0] == "int":
            xt = {"k": iv(0), "r": z3.ToReal(xt)}
        elif clt[0] == "int" and x.ty[0] == "bool":
            xt = z3.If(xt, iv(1), iv(0))
        yt = y.t
        if y.ty[0] == "bool" and clt[0] == "int":
            yt = z3.If(yt, iv(1), iv(0))
        r = self.arith(st, op, ct, xt, yt, e)
        if x.ty[0] == "int" and ct[0] == "int":
            r = V(x.ty, self.conv_int(st, r.t, ct, x.ty, e, False))
        elif x.ty[0] == "bool":
            r = V(x.ty, r.t != 0)
        elif x.ty[0] == "int" and ct[0] == "dbl":
            raise Unsupported("int op= double")
        self.store(st, lv, r, e)
        return lv

    def e_UnaryOperator(self, st, e):
        op = e["op"]
        sub = e["c"][0]
        if op == "&":
            x = self.ev(st, sub)
            if isinstance(x, FnV):
                return x
            if isinstance(x, LV):
                if x.root[0] == "h" and not x.path:
                    return V(("ref", x.root[1]), x.root[2])
                return PtrV(x, z3.BoolVal(False))
            raise Unsupported("address-of")
        if op == "*":
            x = self.ev(st, sub)
            if isinstance(x, FnV):
                return x
            return self.deref(st, x, e)
        if op in ("++", "--"):
            lv = self.ev(st, sub)
            x = self.read(st, lv)
            r = self.incdec(st, x, 1 if op == "++" else -1, e)
            self.store(st, lv, r, e)
            return x if e.get("post") else lv
        v = self.rv(st, sub)
        if op == "!":
            return V(("bool",), z3.Not(v.t))
        if op == "-":
            if v.ty[0] == "dbl":
                return V(v.ty, dneg(v.t))
            return self.arith(st, "-", self.ty(e), iv(0), v.t, e)
        if op == "+":
            return v
        raise Unsupported("unary " + op)

    def incdec(self, st, x, d, e):
        if isinstance(x, IterV):
            return type(x)(x.lv, x.idx + d)
        if isinstance(x, V) and x.ty[0] == "int":
            lo, hi = int_range(x.ty)
            r = x.t + d
            if x.ty[1] < 32:      # promoted to int, then truncated back
                return V(x.ty, z3.If(r > hi, r - (1 << x.ty[1]), z3.If(r < lo, r + (1 << x.ty[1]), r)))
            if x.ty[2]:
                self.safe(st, z3.And(r >= lo, r <= hi), "no signed overflow", e)
                return V(x.ty, r)
            return V(x.ty, z3.If(r > hi, r - (1 << x.ty[1]), z3.If(r < lo, r + (1 << x.ty[1]), r)))
        if isinstance(x, V) and x.ty[0] == "dbl":
            return V(x.ty, dadd(x.t, D(d)))
        raise Unsupported("++ on " + str(getattr(x, "ty", None)))

    def e_ConditionalOperator(self, st, e):
        c = self.term(st, e["c"][0])
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.ev(st, e["c"][1])
        if z3.is_false(cs):
            return self.ev(st, e["c"][2])
        n = len(st.pc)
        s1, s0 = st.copy(), st.copy()
        s1.pc.append(c)
        s0.pc.append(z3.Not(c))
        a = b = None
        try:
            a = self.ev(s1, e["c"][1])
            if not e.get("lv"):
                a = self.read(s1, a)
        except Dead:
            s1 = None
        try:
            b = self.ev(s0, e["c"][2])
            if not e.get("lv"):
                b = self.read(s0, b)
        except Dead:
            s0 = None
        if s1 is None and s0 is None:
            raise Dead()
        if s1 is None or s0 is None:
            s = s1 or s0
            self.become(st, s)
            return a if s1 else b
        if isinstance(a, LV) and isinstance(b, LV):
            if a.key() != b.key():
                # value context only
                a, b = self.read(s1, a), self.read(s0, b)
            else:
                self.merge_into(st, c, s1, s0)
                return a
        elif isinstance(a, LV) or isinstance(b, LV):
            a, b = self.read(s1, a), self.read(s0, b)
        self.merge_into(st, c, s1, s0)
        r = self.merge_val(c, a, b)
        if r is None:
            raise Unsupported("conditional of unmergeable values")
        return r

    def become(self, st, s):
        st.vars, st.heap, st.pc, st.next, st.ghost, st.this = s.vars, s.heap, s.pc, s.next, s.ghost, s.this

    def e_CXXRewrittenBinaryOperator(self, st, e):
        sem, l, r = e["c"]
        # a op b rewritten through <=> or ==: same meaning on the modelled value types
        x = self.rv(st, l)
        y = self.rv(st, r)
        op = e["op"]
        if isinstance(x, (IterV, PtrV)) or isinstance(y, (IterV, PtrV)):
            return self.ptrop(st, op, x, y, e)
        if isinstance(x, MIterV):
            b = self.miter_eq(x, y)
            return V(("bool",), b if op == "==" else z3.Not(b))
        if isinstance(x, V) and isinstance(y, V):
            ty = x.ty
            if ty[0] in ("ref", "ptr"):
                ty = ("int", 64, True, "p")
            if ty[0] in ("rec",):
                return self.ev(st, sem)
            return V(("bool",), compare(op, ty, x.t, y.t))
        return self.ev(st, sem)

    def miter_eq(self, x, y):
        return z3.And(x.valid == y.valid, z3.Implies(x.valid, z3.And(*[p == q for p, q in zip(x.key, y.key)])))

    def e_LambdaExpr(self, st, e):
        return LamV(e, st, st.this)

    def e_CXXThrowExpr(self, st, e):
        w = "throw"
        if e.get("c"):
            try:
                s2 = st.copy()
                w = "throw " + str(self.u.types[e["c"][0]["t"]].get("s"))
            except Exception:
                pass
        self.exc.append((st.copy(), w, e.get("loc")))
        raise Dead()

    def e_InitListExpr(self, st, e):
        ty = self.ty(e)
        c = e.get("c", [])
        if ty[0] == "vec":
            el = ty[1]
            if len(ty) > 3 and len(c) == 1:
                t1 = self.ty(c[0])
                if t1[0] == "vec" and t1[1] == el:
                    x = self.read(st, self.ev(st, c[0]))
                    return V(ty, dict(x.t, len=iv(ty[3])))
            at = lift1_at(ty)
            if len(ty) > 3:
                # the elements without initialiser are value-initialised
                at = tmap(lambda x: z3.K(I, x), self.default_of(st, el, True))
            n = 0
            for x in c:
                v = self.read(st, self.ev(st, x))
                at = tstore(at, iv(n), self.coerce(v, el))
                n += 1
            if len(ty) > 3:
                n = ty[3]
            return V(ty, {"len": iv(n), "at": at})
        if ty[0] == "rec":
            fs = self.u.fields(ty[2])
            t = {}
            for (n, ft, ini), x in zip(fs, c):
                nt = self.u.norm(ft)
                v = self.read(st, self.ev(st, x))
                t[n] = self.coerce(v, nt)
            for n, ft, ini in fs[len(c):]:
                t[n] = tzero(self.u.norm(ft))
            return V(ty, t)
        if ty[0] == "pair":
            if len(c) == 1:
                return self.ev(st, c[0])
            a = self.read(st, self.ev(st, c[0]))
            b = self.read(st, self.ev(st, c[1]))
            return V(ty, {"first": a.t, "second": b.t})
        if len(c) == 1:
            return self.ev(st, c[0])
        if not c:
            return V(ty, tzero(ty))
        raise Unsupported("init list " + str(ty))

    def coerce(self, v, ty):
        if isinstance(v, V):
            return v.t
        if isinstance(v, PtrV) and v.lv is not None and v.lv.root[0] == "h" and not v.lv.path and z3.is_false(v.null):
            return v.lv.root[2]
        if isinstance(v, FnV):
            return z3.Int("fn." + v.fn["n"])
        raise Unsupported("cannot store %s" % type(v).__name__)

    # ---- stores
    def store(self, st, lv, v, e):
        if isinstance(lv, EigV):
            return self.eig_assign(st, lv, v, e)
        if not isinstance(lv, LV):
            raise Unsupported("store to " + type(lv).__name__)
        if isinstance(v, LV):
            v = self.read(st, v)
        if isinstance(v, EigV):
            v = self.eig_to_mat(st, v, e)
        if not lv.path and lv.root[0] == "v" and (isinstance(v, PyVal) or isinstance(st.vars.get(lv.root[1]), PyVal)):
            st.vars[lv.root[1]] = v
            return
        wr(st, lv, self.coerce(v, lv.ty))

    # -------------------------------------------------------------- calls
    def e_CallExpr(self, st, e):
        fn = e.get("fn")
        args = e["c"][1:]
        if fn is None:
            f = self.read(st, self.ev(st, e["c"][0]))
            if isinstance(f, FnV):
                return self.call(st, f.fn, None, args, e)
            if isinstance(f, LamV):
                return self.call_lambda(st, f, [self.ev(st, a) for a in args], e)
            c = self.contracts.indirect(self, st, f, e)
            if c is not None:
                return c(self, st, [self.ev(st, a) for a in args], e)
            raise Unsupported("indirect call at " + e["loc"])
        return self.call(st, fn, None, args, e)

    def e_CXXMemberCallExpr(self, st, e):
        me = e["c"][0]
        while me["k"] in TRANSPARENT:
            me = me["c"][0]
        fn = e["fn"]
        obj = self.ev(st, me["c"][0])
        if me["arrow"]:
            obj = self.deref(st, obj, e)
        return self.call(st, fn, obj, e["c"][1:], e)

    def e_CXXOperatorCallExpr(self, st, e):
        fn = e["fn"]
        args = e["c"][1:]
        if "cls" in fn and not fn.get("static"):
            obj = self.ev(st, args[0])
            return self.call(st, fn, obj, args[1:], e)
        return self.call(st, fn, None, args, e)

    def e_CXXConstructExpr(self, st, e):
        import models
        fn = e["fn"]
        ty = self.ty(e)
        args = e.get("c", [])
        args = [a for a in args if a is not None]
        if fn.get("copyctor") and len(args) == 1:
            x = self.read(st, self.ev(st, args[0]))
            if isinstance(x, V) and x.ty[0] == "rec" and ty[0] == "rec" and x.ty != ty:
                return V(ty, {n: x.t[n] for n, _, _ in self.u.fields(ty[2])})
            if isinstance(x, EigV) and ty[0] == "mat":
                return self.eig_to_mat(st, x, e)
            if fn.get("defaulted") or ty[0] != "rec":
                return x
        if ty[0] == "rec":
            c = self.contracts.lookup(fn, self.u)
            if c is not None and not self.contracts.inline_here(self, c):
                n = fresh_name("obj")
                st.vars[n] = V(ty, tfresh(ty, "obj"))
                lv = LV(("v", n), (), ty)
                vals = [self.argval(st, p, a) for p, a in zip(fn["p"], args)]
                self.apply_contract(st, c, fn, lv, vals, e)
                return self.read(st, lv)
            body = self.u.funcs.get(fn["d"])
            if body is None:
                if fn.get("defctor") or fn.get("defaulted"):
                    return V(ty, self.default_rec(st, ty, zero=e.get("zeroinit")))
                raise Unsupported("constructor without body: " + fn["n"])
            n = fresh_name("obj")
            init = tfresh(ty, fn["n"].split("::")[-1])
            st.vars[n] = V(ty, init)
            lv = LV(("v", n), (), ty)
            vals = [self.argval(st, p, a) for p, a in zip(fn["p"], args)]
            self.inline(st, body, lv, vals, e)
            return self.read(st, lv)
        return models.construct(self, st, ty, fn, args, e)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def default_rec(self, st, ty, zero=False):
        t = {}
        for n, ft, ini in self.u.fields(ty[2]):
            nt = self.u.norm(ft)
            if ini is not None:
                v = self.read(st, self.ev(st, ini))
                t[n] = self.coerce(v, nt)
            else:
                t[n] = self.default_of(st, nt, zero)
        return t

    def default_of(self, st, nt, zero=False):
        if nt[0] in ("vec", "umap", "uset", "mat", "ref", "variant"):
            return tzero(nt) if not (nt[0] == "vec" and len(nt) > 3) else {"len": iv(nt[3]), "at": tzero(nt)["at"]}
        if nt[0] == "pair":
            return tzero(nt)
        if nt[0] == "rec":
            # user-provided default constructor?
            for f in self.u.byname.get(nt[1] + "::" + nt[1].split("::")[-1], []):
                if len(f["params"]) == 0 and self.u.norm(f["cls"]) == nt:
                    n = fresh_name("obj")
                    st.vars[n] = V(nt, tfresh(nt, "o"))
                    lv = LV(("v", n), (), nt)
                    self.inline(st, f, lv, [], {"loc": ""})
                    return rd(st, lv)
            return self.default_rec(st, nt, zero)
        if zero:
            return tzero(nt)
        return tfresh(nt, "uninit")

    def argval(self, st, ptidx, a):
        """evaluate argument a for parameter type"""
        pt = self.u.norm(ptidx)
        x = self.ev(st, a)
        if pt[0] == "lref":
            return x
        return self.read(st, x)

    def call(self, st, fn, obj, args, e):
        import models
        c = self.contracts.lookup(fn, self.u)
        body = self.u.funcs.get(fn["d"])
        if c is not None and not self.contracts.inline_here(self, c):
            vals = [self.argval(st, p, a) for p, a in zip(fn["p"], args)]
            o = self.tmp(st, obj) if obj is not None else None
            return self.apply_contract(st, c, fn, o, vals, e)
        if body is not None:
            vals = [self.argval(st, p, a) for p, a in zip(fn["p"], args)]
            o = self.tmp(st, obj) if obj is not None and not isinstance(obj, PyVal) else obj
            if fn.get("lambda"):
                lam = self.read(st, obj)
                return self.call_lambda(st, lam, vals, e)
            return self.inline(st, body, o, vals, e)
        if fn.get("lambda"):
            lam = self.read(st, obj)
            vals = [self.argval(st, p, a) for p, a in zip(fn["p"], args)]
            return self.call_lambda(st, lam, vals, e)
        if fn.get("defaulted") and fn["n"].endswith("::operator=") and isinstance(obj, LV) and obj.ty[0] == "rec":
            x = self.read(st, self.ev(st, args[0]))
            if isinstance(x, V):
                if x.ty != obj.ty:
                    x = V(obj.ty, {n: x.t[n] for n, _, _ in self.u.fields(obj.ty[2])})
                wr(st, obj, x.t)
                return obj
            raise Unsupported("defaulted =")
        if fn.get("defaulted") and fn["n"].endswith("::operator==") and obj is not None:
            raise Unsupported("defaulted ==")
        return models.call(self, st, fn, obj, args, e)

    def bind_params(self, s, params, vals):
        for p, v in zip(params, vals):
            pt = self.u.norm(p["t"])
            if pt[0] == "lref":
                if not isinstance(v, LV):
                    if isinstance(v, PyVal):
                        s.vars[p["d"]] = v
                        continue
                    v = self.tmp(s, v)
                s.vars[p["d"]] = v
            else:
                v = self.read(s, v) if isinstance(v, LV) else v
                if isinstance(v, EigV):
                    v = self.eig_to_mat(s, v, None)
                s.vars[p["d"]] = v

    def inline(self, st, f, obj, vals, e):
        self.depth += 1
        if self.depth > 12:
            raise Unsupported("inline depth (recursion?) at " + f["n"])
        self.inlined.add(f["n"])
        try:
            s = st.copy()
            saved = {p["d"]: st.vars.get(p["d"]) for p in f["params"]}
            self.bind_params(s, f["params"], vals)
            s.this = obj if isinstance(obj, LV) else None
            npc = len(st.pc)
            outs = []
            states = [s]
            if "inits" in f:
                states = [self.ctor_inits(s, f, obj)]
            for s1 in states:
                outs += self.exec(s1, f["body"])
            rt = self.u.norm(f["r"])
            res = self.join_returns(st, outs, npc, rt, e)
            return res
        finally:
            self.depth -= 1

    def ctor_inits(self, s, f, obj):
        done = set()
        ty = obj.ty
        for it in f["inits"]:
            if "m" in it:
                fld = it["m"]
                ft = [t for n, t, _ in self.u.fields(ty[2]) if n == fld][0]
                nt = self.u.norm(ft)
                ini = it["e"]
                if ini and ini["k"] == "CXXDefaultInitExpr":
                    ini = ini["c"][0]
                x = self.read(s, self.ev(s, ini))
                if isinstance(x, EigV):
                    x = self.eig_to_mat(s, x, None)
                wr(s, obj.f(fld, nt), self.coerce(x, nt))
                done.add(fld)
            elif "base" in it:
                bt = self.u.norm(it["base"])
                x = self.read(s, self.ev(s, it["e"]))
                if bt[0] == "rec":
                    for n, t, _ in self.u.fields(bt[2]):
                        wr(s, obj.f(n, self.u.norm(t)), x.t[n])
                        done.add(n)
                elif bt[0] in ("vec", "umap"):
                    wr(s, obj.f("__std", bt), x.t)
                    done.add("__std")
            else:
                x = self.read(s, self.ev(s, it["e"]))
                wr(s, obj, x.t)
                return s
        for n, t, ini in self.u.fields(ty[2]):
            if n not in done:
                nt = self.u.norm(t)
                if ini is not None:
                    v = self.coerce(self.read(s, self.ev(s, ini)), nt)
                else:
                    v = self.default_of(s, nt)
                wr(s, obj.f(n, nt), v)
        return s

    def join_returns(self, st, outs, npc, rt, e):
        """merge the return outcomes of an inlined call into st"""
        rets = []
        for s, o in outs:
            if o is None:
                rets.append((s, V(("void",), {})))
            elif o[0] == "return":
                rets.append((s, o[1]))
            else:
                raise Unsupported("outcome %s escaping call" % o[0])
        if not rets:
            raise Dead()
        s, v = rets[-1]
        for s2, v2 in reversed(rets[:-1]):
            d = s2.pc[npc:]
            cond = self.selector(d) if d else z3.BoolVal(True)
            # conditions of different paths are mutually exclusive: select s2 by its path condition
            if rt[0] == "lref" and isinstance(v, LV) and isinstance(v2, LV) and v.key() != v2.key():
                raise Unsupported("reference return of different lvalues")
            m = self.merge2(cond, s2, s, npc)
            if m is None:
                raise Unsupported("cannot merge returns")
            if isinstance(v, LV) and isinstance(v2, LV) and rt[0] == "lref":
                mv = v
            else:
                a, b = self.read(s2, v2), self.read(s, v)
                mv = self.merge_val(cond, a, b)
                if mv is None:
                    raise Unsupported("cannot merge return values")
            s, v = m, mv
        this = st.this
        self.become(st, s)
        st.this = this
        return v

    def merge2(self, cond, s1, s0, npc):
        """merge by full path condition (cond = conjunction of s1's delta)"""
        base = s1.pc[:npc]
        d0 = s0.pc[npc:]
        t1, t0 = s1.copy(), s0.copy()
        t1.pc = base + [cond]
        t0.pc = base + [z3.Not(cond)]
        m = self.merge(cond, t1, t0, npc)
        if m is None:
            return None
        o0 = z3.And(*d0) if d0 else z3.BoolVal(True)
        m.pc = base + [z3.Or(z3.And(cond, *s1.pc[npc:]), o0)]
        return m

    def call_lambda(self, st, lam, vals, e):
        if not isinstance(lam, LamV):
            raise Unsupported("call of non-lambda")
        self.depth += 1
        try:
            s = st.copy()
            npc = len(st.pc)
            for c in lam.node["caps"]:
                if c.get("this"):
                    continue
                d = c.get("d")
                if d is not None and d not in s.vars and d in lam.captured.vars:
                    s.vars[d] = lam.captured.vars[d]
                elif d is not None and not c.get("ref") and d in lam.captured.vars:
                    pass
            self.bind_params(s, lam.node["params"], vals)
            s.this = lam.this
            outs = self.exec(s, lam.node["body"])
            return self.join_returns(st, outs, npc, self.u.norm(lam.node["fn"]["r"]), e)
        finally:
            self.depth -= 1

    def apply_contract(self, st, c, fn, obj, vals, e):
        self.called.add(c.name)
        return c.apply(self, st, fn, obj, vals, e)

    # -------------------------------------------------------------- statements
    def exec(self, st, s):
        """returns list of (state, outcome)"""
        if s is None:
            return [(st, None)]
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        try:
            if m is not None:
                return m(st, s)
            self.ev(st, s)
            return [(st, None)]
        except Dead:
            return []

    def seq(self, st, stmts):
        states = [(st, None)]
        for x in stmts:
            nxt = []
            for s, o in states:
                if o is not None:
                    nxt.append((s, o))
                else:
                    nxt += self.exec(s, x)
            states = nxt
            if len(states) > 200:
                raise Unsupported("path explosion")
        return states

    def s_CompoundStmt(self, st, s):
        return self.seq(st, s.get("c", []))

    def s_NullStmt(self, st, s):
        return [(st, None)]

    def s_AttributedStmt(self, st, s):
        return self.seq(st, s.get("c", []))

    def s_DeclStmt(self, st, s):
        for v in s["c"]:
            if v["k"] == "OtherDecl":
                continue
            self.declare(st, v)
        return [(st, None)]

    def declare(self, st, v):
        ty = self.u.norm(v["t"])
        if v.get("static") and not v.get("constexpr") and not self.const_static(v):
            if v["d"] in st.vars:
                return
            inv = self.cur.static_inv if self.cur else None
            val = tfresh(ty, "static." + v["n"])
            st.vars[v["d"]] = V(ty, val)
            self.typing(st, ty, val)
            if inv:
                f = inv(self, st, v["n"], V(ty, val))
                if f is not None:
                    # initial value must satisfy the invariant too
                    s2 = st.copy()
                    init = V(ty, self.default_of(s2, ty)) if "init" not in v or v["init"]["k"] == "CXXConstructExpr" and not v["init"].get("c") else self.read(s2, self.ev(s2, v["init"]))
                    self.ob(s2, inv(self, s2, v["n"], init), "static-invariant established by initialiser of " + v["n"], None, "inv")
                    st.pc.append(f)
                    self.statics.append((v["d"], v["n"], inv))
                    return
            raise Unsupported("static local without invariant: " + v["n"])
        if v["k"] == "DecompositionDecl":
            return self.decomp(st, v)
        if "init" in v and v["init"] is not None:
            x = self.ev(st, v["init"])
            if ty[0] == "lref":
                if not isinstance(x, (LV,)):
                    if isinstance(x, PyVal):
                        st.vars[v["d"]] = x
                        return
                    x = self.tmp(st, x)
                st.vars[v["d"]] = x
                return
            x = self.read(st, x)
            if isinstance(x, EigV):
                x = self.eig_to_mat(st, x, v)
            if isinstance(x, V) and x.ty[0] == "rec" and ty[0] == "rec" and x.ty != ty:
                x = V(ty, {n: x.t[n] for n, _, _ in self.u.fields(ty[2])})
            if isinstance(x, V):
                x = V(ty if ty[0] not in ("opaque",) else x.ty, x.t)
            st.vars[v["d"]] = x
            return
        if ty[0] in ("iter", "lambda", "miter"):
            st.vars[v["d"]] = V(("opaque", "uninit"), iv(0))
            return
        st.vars[v["d"]] = V(ty, self.default_of(st, ty) if ty[0] in ("rec", "vec", "umap", "uset", "mat", "pair", "ref", "variant") else tfresh(ty, v["n"]))
        self.typing(st, ty, st.vars[v["d"]].t)

    def const_static(self, v):
        t = self.u.types[v["t"]]
        return t.get("const", False)

    def decomp(self, st, v):
        x = self.ev(st, v["init"])
        for b in v["bindings"]:
            i = v["bindings"].index(b)
            nm = ["first", "second"][i] if i < 2 else str(i)
            if isinstance(x, MIterPair):
                st.vars[b["d"]] = x.field(self, st, nm)
                if "hv" in b:
                    st.vars[b["hv"]["d"]] = st.vars[b["d"]]
                continue
            lv = x if isinstance(x, LV) else self.tmp(st, x)
            if self.u.norm(v["t"])[0] != "lref":
                lv = self.tmp(st, self.read(st, lv))
            if lv.ty[0] == "pair":
                l2 = lv.f(nm, lv.ty[1 + i])
            elif lv.ty[0] == "tuple":
                l2 = lv.f(str(i), lv.ty[1 + i])
            else:
                raise Unsupported("structured binding")
            st.vars[b["d"]] = l2
            if "hv" in b:
                st.vars[b["hv"]["d"]] = l2

    def s_ReturnStmt(self, st, s):
        c = s.get("c", [None])
        if not c or c[0] is None:
            return [(st, ("return", V(("void",), {})))]
        v = self.ev(st, c[0])
        if not c[0].get("lv"):
            v = self.read(st, v)
        elif self.returns_value():
            v = self.read(st, v)
        return [(st, ("return", v))]

    def returns_value(self):
        return False

    def s_BreakStmt(self, st, s):
        return [(st, ("break",))]

    def s_ContinueStmt(self, st, s):
        return [(st, ("continue",))]

    def s_IfStmt(self, st, s):
        if s.get("init"):
            r = self.exec(st, s["init"])
            if not r:
                return []
        if s.get("condvar"):
            self.exec(st, s["condvar"])
        c = self.term(st, s["cond"])
        return self.branch(st, c, lambda a: self.exec(a, s["then"]), lambda a: self.exec(a, s["else"]))

    def branch(self, st, c, f1, f0):
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return f1(st)
        if z3.is_false(cs):
            return f0(st)
        npc = len(st.pc)
        s1, s0 = st.copy(), st.copy()
        s1.pc.append(c)
        s0.pc.append(z3.Not(c))
        o1 = f1(s1) if self.feasible(s1) else []
        o0 = f0(s0) if self.feasible(s0) else []
        return self.joinouts(c, o1, o0, npc)

    def feasible(self, s):
        return True

    def joinouts(self, c, o1, o0, npc):
        # merge when each side has exactly one normal continuation
        n1 = [x for x in o1 if x[1] is None]
        n0 = [x for x in o0 if x[1] is None]
        rest = [x for x in o1 + o0 if x[1] is not None]
        if len(n1) == 1 and len(n0) == 1:
            single = len(o1) == 1 and len(o0) == 1
            if single:
                m = self.merge(c, n1[0][0], n0[0][0], npc)
            else:
                d = n1[0][0].pc[npc:]
                m = self.merge2(self.selector(d) if d else z3.BoolVal(True), n1[0][0], n0[0][0], npc)
            if m is not None:
                return rest + [(m, None)]
        return rest + n1 + n0

    def s_SwitchStmt(self, st, s):
        v = self.term(st, s["cond"])
        body = s["body"]
        stmts = body.get("c", []) if body["k"] == "CompoundStmt" else [body]
        # flatten labels
        flat = []   # (labels, stmt)
        for x in stmts:
            labels = []
            y = x
            while y is not None and y["k"] in ("CaseStmt", "DefaultStmt"):
                labels.append(("default",) if y["k"] == "DefaultStmt" else ("case", y["val"]))
                y = y["sub"]
            flat.append((labels, y))
        conds = []
        starts = []
        for i, (ls, y) in enumerate(flat):
            for l in ls:
                if l[0] == "case":
                    conds.append(v == self.term(st, l[1]))
                    starts.append(i)
        default = [i for i, (ls, y) in enumerate(flat) if ("default",) in ls]
        npc = len(st.pc)

        def run(s0, i):
            outs = self.seq(s0, [y for _, y in flat[i:]])
            r = []
            for a, o in outs:
                r.append((a, None if o == ("break",) else o))
            return r

        def go(s0, j):
            if j == len(conds):
                if default:
                    return run(s0, default[0])
                return [(s0, None)]
            s1, s2 = s0.copy(), s0.copy()
            n = len(s0.pc)
            s1.pc.append(conds[j])
            s2.pc.append(z3.Not(conds[j]))
            return self.joinouts(conds[j], run(s1, starts[j]), go(s2, j + 1), n)
        return go(st, 0)

    # ---- loops: implemented in loops.py (mixed in)


class MIterPair:
    """*it for an unordered_map iterator: first = key, second = mapped lvalue"""

    def __init__(self, it):
        self.it = it
        self.ty = ("miterpair",)

    def field(self, ex, st, n):
        cty = self.it.lv.ty
        if n == "first":
            return V(cty[1], key_to_tree(cty[1], self.it.key))
        lv = self.it.lv
        return LV(lv.root, lv.path + (("k", tuple(self.it.key)),), cty[2])


def key_to_tree(kt, ks):
    it = iter(ks)
    return shape(kt, lambda p, s, t: next(it))


def pow2(b):
    if z3.is_int_value(b):
        return iv(1 << b.as_long())
    return z3.Function("pow2", I, I)(b)


def tytuple(x):
    return tuple(tytuple(y) for y in x) if isinstance(x, list) else x


def lift1_at(vecty):
    return tzero(vecty)["at"]
