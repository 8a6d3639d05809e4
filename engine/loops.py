"""Loop rule: havoc modified state, invariants from the contract plus inferred counters."""
import z3
from core import *
from execu import Exec, Dead, MIterPair, key_to_tree, TRANSPARENT
import models, execu

MAXUNROLL = 16


class LoopCtx:
    """what a loop-invariant function sees"""

    def __init__(self, ex, st, K, entry, n, ctx):
        self.ex, self.st, self.K, self.entry, self.n, self.ctx = ex, st, K, entry, n, ctx

    def acc(self, lv, st=None):
        from contracts import Acc
        return Acc(self.ex, st or self.st, lv)

    @property
    def this(self):
        return self.acc(self.ctx.this_lv)

    @property
    def order(self):
        """enumeration order of the unordered container this loop ranges over"""
        return self.ranged[3].order

    @property
    def enclosing(self):
        """range-for loops around (and including) this one: (position, enumeration order or None, container)"""
        ks = sorted([k for k in self.st.vars if isinstance(k, str) and k.startswith("rk!") and k in self.ex.__dict__.get("rkinfo", {})], key=lambda x: int(x.split("!")[1]))
        ks = [k for k in ks if k in self.entry.vars]
        return [(self.st.vars[k].t,) + self.ex.rkinfo[k] for k in ks]

    def arg(self, i):
        return self.ctx.arg_in(self.st, i)

    def local(self, name):
        # the most recently declared one of that name (an earlier one belongs to a scope that was left)
        for d, n in sorted(self.ex.varnames.items(), key=lambda x: -x[0] if isinstance(x[0], int) else 0):
            if n == name and d in self.st.vars:
                x = self.st.vars[d]
                if isinstance(x, LV):
                    return self.acc(x)
                return self.acc(LV(("v", d), (), x.ty))
        raise Unsupported("invariant refers to unknown local " + name)

    def locals_by(self, pred, modified_only=False):
        """in-scope locals (not parameters) of the verified function, in declaration order, whose type satisfies pred"""
        out = []
        for d in sorted([d for d in self.st.vars if isinstance(d, int)]):
            if d in self.ctx.paramids:
                continue
            x = self.st.vars[d]
            if isinstance(x, V) and pred(x.ty):
                if d in self.entry.vars:
                    out.append(self.acc(LV(("v", d), (), x.ty)))
        return out

    def entry_acc(self, a):
        return self.acc(a.lv, self.entry)


def loop_unsupported(node, why):
    raise Unsupported("loop at %s: %s" % (node.get("loc"), why))


def s_ForStmt(self, st, s):
    outs = [(st, None)]
    if s["init"] is not None:
        outs = self.exec(st, s["init"])
    res = []
    for a, o in outs:
        if o is not None:
            res.append((a, o))
            continue
        res += run_loop(self, a, s, cond=lambda x: self.term(x, s["cond"]) if s["cond"] else z3.BoolVal(True),
                        body=lambda x: self.exec(x, s["body"]),
                        inc=lambda x: self.ev(x, s["inc"]) if s["inc"] else None, condnode=s["cond"])
    return res


def s_WhileStmt(self, st, s):
    return run_loop(self, st, s, cond=lambda x: self.term(x, s["cond"]), body=lambda x: self.exec(x, s["body"]), inc=lambda x: None, condnode=s["cond"])


def s_DoStmt(self, st, s):
    # first iteration peeled
    outs = []
    for a, o in self.exec(st, s["body"]):
        if o is None or o == ("continue",):
            outs += s_WhileStmt(self, a, s)
        elif o == ("break",):
            outs.append((a, None))
        else:
            outs.append((a, o))
    return outs


def s_CXXForRangeStmt(self, st, s):
    r = self.ev(st, s["range"])
    if isinstance(r, EigV):
        loop_unsupported(s, "range over Eigen expression")
    lv = r if isinstance(r, LV) else self.tmp(st, r)
    v = s["var"]
    vt = self.u.norm(v["t"])
    kname = fresh_name("rk")
    self.varnames[v["d"]] = v.get("n", "")
    order = None
    if lv.ty[0] in ("umap", "uset"):
        order = models.set_order(self, st, lv)
    elif lv.ty[0] != "vec":
        loop_unsupported(s, "range over " + str(lv.ty[0]))
    st.vars[kname] = V(("int", 64, True, "idx"), iv(0))
    self.__dict__.setdefault("rkinfo", {})[kname] = (order, lv)
    klv = LV(("v", kname), (), ("int", 64, True, "idx"))

    def length(x):
        return order["len"] if order is not None else rd(x, lv)["len"]
    length.order = order
    if order is None:
        models.arraylen(self, st, lv.ty, rd(st, lv))
    len0 = length(st)

    def bindvar(x):
        k = rd(x, klv)
        if order is not None:
            it = models.miter_at(lv, order, k)
            if lv.ty[0] == "uset":
                x.vars[v["d"]] = V(lv.ty[1], key_to_tree(lv.ty[1], it.key))
                return
            mp = MIterPair(it)
            if v.get("bindings"):
                for b, nm in zip(v["bindings"], ("first", "second")):
                    f = mp.field(self, x, nm)
                    if nm == "second" and vt[0] != "lref":
                        f = self.read(x, f)
                    x.vars[b["d"]] = f
                    if "hv" in b:
                        x.vars[b["hv"]["d"]] = f
                return
            if vt[0] == "lref":
                x.vars[v["d"]] = PairRef(mp)
            else:
                fst, snd = self.read(x, mp.field(self, x, "first")), self.read(x, mp.field(self, x, "second"))
                x.vars[v["d"]] = V(("pair", lv.ty[1], lv.ty[2]), {"first": fst.t, "second": snd.t})
            return
        el = lv.i(k, lv.ty[1])
        if v.get("bindings"):
            base = el if vt[0] == "lref" else self.tmp(x, self.read(x, el))
            for i, b in enumerate(v["bindings"]):
                if base.ty[0] == "pair":
                    f = base.f(["first", "second"][i], base.ty[1 + i])
                else:
                    f = base.f(str(i), base.ty[1 + i])
                x.vars[b["d"]] = f
                if "hv" in b:
                    x.vars[b["hv"]["d"]] = f
            return
        if vt[0] == "lref":
            want = vt[1]
            if want == el.ty or want[0] == el.ty[0]:
                x.vars[v["d"]] = el
            else:
                x.vars[v["d"]] = V(want, models.conv_to(self, x, self.read(x, el), want))
        else:
            val = self.read(x, el)
            x.vars[v["d"]] = V(vt, models.conv_to(self, x, val, vt)) if isinstance(val, V) and val.ty != vt and vt[0] not in ("opaque",) else val

    def body(x):
        bindvar(x)
        return self.exec(x, s["body"])

    def inc(x):
        wr(x, klv, rd(x, klv) + 1)
    outs = run_loop(self, st, s, cond=lambda x: rd(x, klv) < length(x), body=body, inc=inc, condnode=None,
                    ranged=(klv, lv, len0, length))
    for x, _ in outs:
        x.vars.pop(kname, None)
    return outs


class PairRef(PyVal):
    """reference to an element of an unordered_map during iteration"""

    def __init__(self, mp):
        self.mp = mp
        self.ty = ("pairref",)


def modified(entry, s):
    """leaf-level differences between two states -> set of ('v',id,path) / ('h',key,path) ; None var kinds"""
    out = set()

    def diff(a, b, pre):
        if isinstance(a, dict):
            for k in a:
                diff(a[k], b[k], pre + (k,))
        elif not a.eq(b):
            out.add(pre)
    for k, a in entry.vars.items():
        b = s.vars.get(k)
        if b is a or b is None:
            continue
        if isinstance(a, V) and isinstance(b, V):
            diff(a.t, b.t, ("v", k))
        elif isinstance(a, IterV) and isinstance(b, IterV):
            if a.lv.key() != b.lv.key():
                raise Unsupported("iterator rebinding in loop")
            if not a.idx.eq(b.idx):
                out.add(("it", k))
        elif isinstance(a, MIterV) and isinstance(b, MIterV):
            out.add(("mit", k))
        elif isinstance(a, LV) and isinstance(b, LV) and a.key() == b.key():
            pass
        elif isinstance(a, LamV):
            pass
        elif isinstance(a, PtrV) and isinstance(b, PtrV) and a.lv is not None and b.lv is not None and a.lv.key() == b.lv.key() and a.null.eq(b.null):
            pass
        elif isinstance(a, V) and a.ty == ("opaque", "uninit"):
            raise Unsupported("uninitialised handle assigned in loop")
        else:
            raise Unsupported("loop rebinds a reference/handle (%s)" % type(a).__name__)
    for k in s.heap:
        a = entry.heap.get(k)
        if a is None:
            from execu import tytuple
            a = heap0(tytuple(json.loads(k)))
        diff(a, s.heap[k], ("h", k))
    for k in s.ghost:
        if k in entry.ghost:
            diff({"x": entry.ghost[k]} if not isinstance(entry.ghost[k], dict) else entry.ghost[k],
                 {"x": s.ghost[k]} if not isinstance(s.ghost[k], dict) else s.ghost[k], ("g", k))
    if not s.next.eq(entry.next):
        out.add(("next",))
    return out


def havoc(self, entry, mod):
    s = entry.copy()

    def set_(t, path, f):
        if not path:
            return f(t)
        n = dict(t)
        n[path[0]] = set_(t[path[0]], path[1:], f)
        return n

    def fr(x):
        return z3.Const(fresh_name("hv"), x.sort())
    for m in sorted(mod, key=str):
        if m[0] == "v":
            v = s.vars[m[1]]
            s.vars[m[1]] = V(v.ty, set_(v.t, m[2:], fr))
        elif m[0] == "it":
            v = s.vars[m[1]]
            s.vars[m[1]] = type(v)(v.lv, z3.Int(fresh_name("hvi")))
        elif m[0] == "mit":
            v = s.vars[m[1]]
            o = getattr(v, "order", None)
            if o is None:
                raise Unsupported("map iterator modified in loop")
            s.vars[m[1]] = models.miter_at(v.lv, o[0], z3.Int(fresh_name("hvmi")))
        elif m[0] == "h":
            from execu import tytuple
            t = s.heap[m[1]] if m[1] in s.heap else heap0(tytuple(json.loads(m[1])))
            s.heap[m[1]] = set_(t, m[2:], fr)
        elif m[0] == "g":
            g = s.ghost[m[1]]
            s.ghost[m[1]] = set_(g, m[2:], fr) if isinstance(g, dict) else fr(g)
        elif m[0] == "next":
            n = z3.Int(fresh_name("alloc"))
            s.pc.append(n >= s.next)
            s.next = n
    return s


def applies(st, m):
    """may this member of a modified set be havoced in st?"""
    if m[0] == "v":
        return isinstance(st.vars.get(m[1]), V)
    if m[0] == "it":
        return isinstance(st.vars.get(m[1]), IterV)
    if m[0] == "mit":
        return getattr(st.vars.get(m[1]), "order", None) is not None
    if m[0] == "g":
        return m[1] in st.ghost
    return True


def runs_long(st, node, cond, inc):
    """a for loop whose counter alone takes more steps than are unrolled"""
    if node.get("k") != "ForStmt":
        return False
    y = st.copy()
    n = len(y.pc)
    try:
        for _ in range(MAXUNROLL + 1):
            if not z3.is_true(z3.simplify(cond(y))):
                return False
            inc(y)
    except (Dead, Unsupported):
        return False
    return True


def run_loop(self, st, node, cond, body, inc, condnode, ranged=None):
    # --- constant trip count: unroll
    mark = (len(self.obs), len(self.exc), self.loopno)
    states = [st.copy()]
    done = []
    simple = not runs_long(st, node, cond, inc)
    del self.obs[mark[0]:]
    del self.exc[mark[1]:]
    for it in range(MAXUNROLL + 1 if simple else 0):
        nxt = []
        for x in states:
            y = x.copy()
            try:
                c = z3.simplify(cond(y))
            except Dead:
                continue
            if z3.is_false(c):
                done.append((y, None))
            elif z3.is_true(c):
                nxt.append(y)
            else:
                simple = False
                break
        if not simple:
            break
        if it == MAXUNROLL:
            simple = not nxt
            break
        if not nxt:
            break
        ns = []
        for y in nxt:
            for a, o in body(y):
                if o is None or o == ("continue",):
                    try:
                        inc(a)
                    except Dead:
                        continue
                    ns.append(a)
                elif o == ("break",):
                    done.append((a, None))
                else:
                    done.append((a, o))
        states = ns
        if not states:
            break
        if len(states) > 64:
            simple = False
            break
    if simple:
        for y, o in done:
            for k in list(y.vars) if o is None else []:
                if k not in st.vars:
                    del y.vars[k]
        return done
    del self.obs[mark[0]:]
    del self.exc[mark[1]:]
    self.loopno = mark[2]
    return general_loop(self, st, node, cond, body, inc, condnode, ranged)


def general_loop(self, st, node, cond, body, inc, condnode, ranged):
    n = self.loopno
    self.loopno += 1
    spec = self.loopspecs.get(n) if self.cur is not None else None
    loc = node.get("loc", "")
    entry = st
    def one_pass(s0, record):
        """run cond+body+inc once from s0; returns (backedge states, exits, others)"""
        back, exits, others = [], [], []
        s = s0.copy()
        c = cond(s)
        sx = s.copy()
        sx.pc.append(z3.Not(c))
        exits.append(sx)
        s.pc.append(c)
        for a, o in body(s):
            if o is None or o == ("continue",):
                inc(a)
                back.append(a)
            elif o == ("break",):
                exits.append(a)
            else:
                others.append((a, o))
        return back, exits, others

    # --- 1. modified set (dry runs)
    # (starts from what the last visit of this loop found: a larger set only havocs more)
    memo = self.__dict__.setdefault("modmemo", {})
    mod = {m for m in memo.get((n, id(node)), ()) if applies(entry, m)}
    saved = (self.loopno, list(self.exc), self.loopspecs)
    self.quiet += 1
    drysave = getattr(self, "dry", 0)
    self.dry = drysave + 1
    try:
        for _ in range(6):
            self.loopno = saved[0]
            self.exc = list(saved[1])
            h = havoc(self, entry, mod)
            back, exits, others = one_pass(h, False)
            new = set(mod)
            for a in back:
                new |= modified(h, a)
            for a in exits[1:]:
                new |= modified(h, a)
            new = normalize(new)
            if new <= mod:
                if self.dry > 1:
                    # only the effects matter
                    memo[(n, id(node))] = set(mod)
                    saved = (saved[0], self.exc, saved[2])
                    return [(x, None) for x in exits] + others
                break
            mod |= new
        else:
            loop_unsupported(node, "modified set does not stabilise")
    finally:
        self.quiet -= 1
        self.dry = drysave
        self.exc = saved[1]
        after_no = self.loopno
        self.loopno = saved[0]
    memo[(n, id(node))] = set(mod)
    K = z3.Int(fresh_name("K"))

    # --- 2. invariants
    def inv(s, k, head=None):
        if spec is None:
            return []
        L = LoopCtx(self, s, k, entry, n, self.cur)
        # the state at the start of the iteration, when the invariant is checked at its end
        L.head = head
        L.mod = mod
        L.ranged = ranged
        r = spec(L)
        return [(nm, f) for nm, f in r]

    def cands(s, k):
        out = []
        for m in sorted(mod, key=str):
            if m[0] == "it":
                e0, x = entry.vars[m[1]].idx, s.vars[m[1]].idx
                out.append(("it+%s" % (m[1],), x == e0 + k))
                out.append(("it-%s" % (m[1],), x == e0 - k))
            elif m[0] == "mit":
                e0, x = entry.vars[m[1]].order[1], s.vars[m[1]].order[1]
                out.append(("mit+%s" % (m[1],), x == e0 + k))
            elif m[0] in ("v", "h") :
                a = (entry.vars if m[0] == "v" else entry.heap)
                if m[0] == "h" and m[1] not in a:
                    continue
                e0 = a[m[1]].t if m[0] == "v" else a[m[1]]
                b = s.vars[m[1]].t if m[0] == "v" else s.heap[m[1]]
                for p in m[2:]:
                    e0, b = e0[p], b[p]
                if e0.sort() == I and (self.cur is None or self.cur.counters or str(m[1]).startswith("rk!")):
                    out.append(("+%s" % (m,), b == e0 + k))
                    out.append(("-%s" % (m,), b == e0 - k))
                    out.append((">=%s" % (m,), b >= e0))
        hk = sorted({m[1] for m in mod if m[0] == "h"})
        if self.cur is not None and not self.cur.auto_frames:
            hk = []
        for h_ in hk:
            ty = execu.tytuple(json.loads(h_))
            a0 = entry.heap[h_] if h_ in entry.heap else heap0(ty)
            a1 = s.heap[h_] if h_ in s.heap else heap0(ty)
            r = z3.Int("r!frame")
            for i, (x0, x1) in enumerate(zip(leaves(a0), leaves(a1))):
                if x0.eq(x1):
                    out.append(("frame%s.%d" % (h_, i), z3.BoolVal(True)))
                else:
                    out.append(("frame%s.%d" % (h_, i), z3.ForAll([r], z3.Implies(r < entry.next, x1[r] == x0[r]), patterns=[x1[r]] if z3.is_const(x1) else [x0[r]])))
        f = bound_cand(s)
        if f is not None:
            out.append(("bound", f))
            out.append(("bound1", z3.Or(k == 0, f)))
        return out

    def bound_cand(s):
        if ranged is not None:
            klv, lv, len0, length = ranged
            return z3.And(rd(s, klv) <= length(s), length(s) == len0)
        if condnode is None:
            return None
        c = condnode
        while c["k"] in TRANSPARENT or (c["k"] == "ImplicitCastExpr"):
            c = c["c"][0]
        if c["k"] == "BinaryOperator" and c["op"] in ("<", ">", "!=") or c["k"] in ("CXXRewrittenBinaryOperator", "CXXOperatorCallExpr") and c.get("op") in ("<", ">", "!="):
            x = s.copy()
            self.quiet += 1
            try:
                if c["k"] == "BinaryOperator":
                    l, r = self.rv(x, c["c"][0]), self.rv(x, c["c"][1])
                else:
                    l, r = self.rv(x, c["c"][-2]), self.rv(x, c["c"][-1])
            except (Unsupported, Dead):
                return None
            finally:
                self.quiet -= 1
            a = l.idx if isinstance(l, IterV) else (l.off if isinstance(l, models.DataPtr) else (l.t if isinstance(l, V) and l.ty[0] in ("int",) else None))
            b = r.idx if isinstance(r, IterV) else (r.off if isinstance(r, models.DataPtr) else (r.t if isinstance(r, V) and r.ty[0] in ("int",) else None))
            if isinstance(l, MIterV) and getattr(l, "order", None):
                return z3.And(0 <= l.order[1], l.order[1] <= l.order[0]["len"])
            if a is None or b is None:
                return None
            return a <= b if c["op"] in ("<", "!=") else a >= b
        return None

    h = havoc(self, entry, mod)
    h.pc.append(K >= 0)
    gcs = cands(h, K)
    guards = []
    c0 = dict(cands(entry, iv(0)))
    npc0 = len(entry.pc)
    for nm, f in gcs:
        if nm not in c0:
            continue
        guards.append((nm, z3.Bool(fresh_name("g")), f))
    # initial filter
    live = []
    for nm, g, f in guards:
        if self.prove_quick(entry.pc, c0[nm]):
            live.append((nm, g, f))
    for nm, g, f in live:
        h.pc.append(z3.Implies(g, f))
    for nm, f in inv(h, K):
        h.pc.append(f)
    # --- establish
    for nm, f in inv(entry, iv(0)):
        self.ob(entry, f, "loop %d invariant '%s' holds on entry" % (n, nm), node, "inv")
    # --- body once, recording obligations
    o0 = len(self.obs)
    e0 = len(self.exc)
    self.loopno = saved[0]
    head = h.copy()
    back, exits, others = one_pass(h, True)
    # Houdini on the guards
    changed = True
    checks = []
    for a in back:
        ca = dict(cands(a, K + 1))
        checks.append((a, ca))
    def holds(item):
        nm, g, f = item
        gs = [g_ for _, g_, _ in live]
        return all(nm in ca and self.prove_quick(a.pc + gs, ca[nm]) for a, ca in checks)
    # '+' (advances by one per iteration) makes '-' and '>=' on the same variable redundant
    for item in [x for x in live if "+(" in x[0][:6] or x[0].startswith(("+", "it+"))]:
        if holds(item):
            rest = item[0].split("+", 1)[1]
            live = [x for x in live if x[0] not in ("-" + rest, ">=" + rest, "it-" + rest)]
    while changed and live:
        changed = False
        for item in list(live):
            if not holds(item):
                live.remove(item)
                changed = True
                break
    on = [g for _, g, _ in live]
    if self.trace:
        print("loop", n, "live:", [nm for nm, _, _ in live], "dropped:", [nm for nm, g, _ in guards if not any(nm == x[0] for x in live)])
    off = [z3.Not(g) for nm, g, f in guards if g not in [x for x in on]]
    # --- preserve
    for a in back:
        for nm, f in inv(a, K + 1, head):
            self.ob(a, f, "loop %d invariant '%s' preserved" % (n, nm), node, "inv")
            if nm.startswith("* "):
                # proved: the later ones of this list may use it
                a.pc.append(f)
    # fix guards everywhere (behind the facts of the entry state, so that outer merges still find their common prefix)
    np = len(entry.pc)
    for ob in self.obs[o0:]:
        ob.pc = on + off + ob.pc
    ex2 = []
    for i, x in enumerate(self.exc):
        if i >= e0:
            x[0].pc[np:np] = on + off
    res = []
    for x in exits:
        x.pc[np:np] = on + off
        for k in list(x.vars):
            if k not in entry.vars:
                del x.vars[k]
        res.append((x, None))
    for x, o in others:
        x.pc[np:np] = on + off
        res.append((x, o))
    # merge exits when there are several
    if len([1 for _, o in res if o is None]) > 1 and len(others) <= 4:
        ex_states = [x for x, o in res if o is None]
        base = len(on) + len(h.pc)
        m = ex_states[-1]
        ok = True
        for y in reversed(ex_states[:-1]):
            common = 0
            while common < min(len(m.pc), len(y.pc)) and m.pc[common].eq(y.pc[common]):
                common += 1
            d = y.pc[common:]
            mm = self.merge2(self.selector(d) if d else z3.BoolVal(True), y, m, common)
            if mm is None:
                ok = False
                break
            m = mm
        if ok:
            res = [(m, None)] + [(x, o) for x, o in res if o is not None]
    return res


def normalize(mod):
    return set(mod)


Exec.s_ForStmt = s_ForStmt
Exec.s_WhileStmt = s_WhileStmt
Exec.s_DoStmt = s_DoStmt
Exec.s_CXXForRangeStmt = s_CXXForRangeStmt
