"""Contracts on real functions: specification contexts, registry, verification driver."""
import z3, time, json, os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from core import *
import core
import execu, loops, models, eig
from execu import Exec, Dead, Ob
import traceback


class Acc:
    """read access to a location in a state, for specifications"""
    __slots__ = ("_ex", "_st", "_lv")

    def __init__(self, ex, st, lv):
        object.__setattr__(self, "_ex", ex)
        object.__setattr__(self, "_st", st)
        object.__setattr__(self, "_lv", lv)

    @property
    def lv(self):
        return self._lv

    @property
    def ty(self):
        return self._lv.ty

    @property
    def t(self):
        return rd(self._st, self._lv)

    def __getattr__(self, n):
        ty = self._lv.ty
        if ty[0] == "rec":
            for fn, ft, _ in self._ex.u.fields(ty[2]):
                if fn == n:
                    nt = self._ex.u.norm(ft)
                    return Acc(self._ex, self._st, self._lv.f(n, nt))
            raise Unsupported("contract names missing field %s of %s" % (n, ty[1]))
        if ty[0] == "pair" and n in ("first", "second"):
            return Acc(self._ex, self._st, self._lv.f(n, ty[1 if n == "first" else 2]))
        if ty[0] == "tuple" and n.startswith("_"):
            return Acc(self._ex, self._st, self._lv.f(n[1:], ty[1 + int(n[1:])]))
        if ty[0] in ("vec",) and n == "len":
            return self.t["len"]
        if ty[0] == "mat" and n in ("rows", "cols"):
            return self.t[n]
        if ty[0] == "variant" and n == "which":
            return self.t["which"]
        if ty[0] == "variant" and n.startswith("alt"):
            i = int(n[3:])
            return Acc(self._ex, self._st, self._lv.f(str(i), ty[1 + i]))
        raise AttributeError(n)

    def __getitem__(self, i):
        if isinstance(i, int):
            i = iv(i)
        if self._lv.ty[0] != "vec":
            raise Unsupported("contract indexes a " + str(self._lv.ty[0]))
        return Acc(self._ex, self._st, self._lv.i(i, self._lv.ty[1]))

    def at(self, i, j):
        i = iv(i) if isinstance(i, int) else i
        j = iv(j) if isinstance(j, int) else j
        lv = self._lv
        return Acc(self._ex, self._st, LV(lv.root, lv.path + (("m", i, j),), lv.ty[1]))

    def key(self, *ks):
        lv = self._lv
        return Acc(self._ex, self._st, LV(lv.root, lv.path + (("k", tuple(ks)),), lv.ty[2]))

    def has(self, *ks):
        return models.mapget(self.t, list(ks))

    @property
    def o(self):
        """pointee"""
        ty = self._lv.ty
        return Acc(self._ex, self._st, LV(("h", ty[1], self.t), (), ty[1]))

    def within(self, st):
        return Acc(self._ex, st, self._lv)


class SpecAbort(Exception):
    pass


class Ctx:
    def __init__(self, ex, mode, contract, fn, st, this_lv, args):
        self.ex, self.mode, self.contract, self.fn = ex, mode, contract, fn
        self.st = st
        self.prest = st
        self.this_lv, self.args = this_lv, args
        self.ghosts = {}
        self.reqs, self.givens, self.enss, self.usefacts = [], [], [], []
        self.mods = None
        self.heapmods = set()
        self.throws = None
        self.result = None
        self.phase = "pre"
        self.loopspecs = {}
        self.static_inv = None
        self.inst = {}
        self.paramids = set()
        self.lemmas = []
        self.modheap_default = False
        self.auto_frames = True
        self.counters = True     # look for variables that grow by one per iteration (False: only the hidden ones of range-based for)

    @property
    def this(self):
        return Acc(self.ex, self.st, self.this_lv)

    @property
    def old_this(self):
        return Acc(self.ex, self.prest, self.this_lv)

    def arg_in(self, st, i):
        a = self.args[i]
        if isinstance(a, LV):
            return Acc(self.ex, st, a)
        if isinstance(a, V):
            return ValAcc(self.ex, st, a)
        return a

    def arg(self, i):
        return self.arg_in(self.st, i)

    def old_arg(self, i):
        return self.arg_in(self.prest, i)

    def requires(self, f, name=""):
        if self.phase == "pre":
            self.reqs.append((name, f))

    def given(self, f, name=""):
        self.givens.append((name, f))

    def ghost(self, name, sort):
        if name not in self.ghosts:
            self.ghosts[name] = z3.Const(fresh_name("ghost_" + name), sort)
        return self.ghosts[name]

    def gdbl(self, name):
        return D(self.ghost(name, R))

    def modifies(self, *accs):
        self.mods = [a.lv for a in accs]

    def modifies_heap(self, tyname):
        self.heapmods.add(tyname)

    def may_throw_when(self, f):
        self.throws = f

    def loop(self, n, f):
        self.loopspecs[n] = f

    def ensures(self, f, name=""):
        self.enss.append((name, f))

    def by_rule(self, check, use, name=""):
        """`check` is proved (for arbitrary ghosts); callers get `use`, which follows from it by generalising over the ghosts"""
        if self.mode != "use":
            if check is not None:
                self.enss.append((name, check))
        else:
            self.usefacts.append(use)

    def lemma(self, f, name=""):
        """proved first, then available to the following ensures"""
        self.enss.append(("lemma " + name, f, True))


class ValAcc(Acc):
    __slots__ = ("_v",)

    def __init__(self, ex, st, v):
        s = State()
        n = fresh_name("val")
        s.vars[n] = v
        s.heap = st.heap
        Acc.__init__(self, ex, s, LV(("v", n), (), v.ty))


class Contract:
    def __init__(self, name, spec, params=None, inline=False, prop=None, check=True, cls=None, note="", trusted=False, unit=None):
        self.name, self.spec, self.params, self.inline_ = name, spec, params, inline
        self.check = check
        self.cls = cls
        self.note = note
        self.trusted = trusted
        self.unit = unit

    @property
    def id(self):
        return self.name + ("(" + ",".join(self.params) + ")" if self.params is not None else "")

    def matches(self, fn, u):
        if fn["n"] != self.name:
            return False
        if self.params is not None:
            if len(fn["p"]) != len(self.params):
                return False
            for s, p in zip(self.params, fn["p"]):
                if s not in u.types[p]["s"]:
                    return False
        return True

    # ---- use at a call site
    def apply(self, ex, st, fn, obj, vals, e):
        pre = st.copy()
        args = []
        for p, v in zip(fn["p"], vals):
            pt = ex.u.norm(p)
            if pt[0] == "lref" and not isinstance(v, (LV, PyVal)):
                v = ex.tmp(st, v)
                pre = st.copy()
            elif pt[0] != "lref" and isinstance(v, LV):
                v = ex.read(st, v)
            elif pt[0] != "lref" and isinstance(v, EigV):
                v = ex.eig_to_mat(st, v, e)
            args.append(v)
        pre = st.copy()
        c = Ctx(ex, "use", self, fn, pre, obj if isinstance(obj, LV) else None, args)
        g = self.spec(c)
        next(g)
        for nm, f in c.reqs:
            ex.ob(st, f, "precondition of %s: %s" % (self.name, nm), e, "pre")
            st.pc.append(f)
        c.phase = "post"
        # frame
        if c.mods is not None:
            mods = c.mods
        else:
            mods = []
            if c.this_lv is not None and not fn.get("mconst") and not fn.get("static"):
                mods.append(c.this_lv)
            for p, a in zip(fn["p"], args):
                t = ex.u.types[p]
                if t["k"] in ("lref",) and not ex.u.types[t["to"]].get("const") and isinstance(a, LV):
                    mods.append(a)
        for lv in mods:
            nt = tfresh(lv.ty, "post")
            wr(st, lv, nt)
            ex.typing(st, lv.ty, nt)
        for tn in c.heapmods:
            ty = [x for x in map(lambda k: execu.tytuple(json.loads(k)), list(st.heap) + list(core._heap0)) if x[0] == "rec" and x[1] == tn]
            ty = ty[0] if ty else ex.rec_named(tn)
            st.heap[tykey(ty)] = lift1(ty, lambda p, s, t: z3.Const(fresh_name("heap"), s))
            n2 = z3.Int(fresh_name("alloc"))
            st.pc.append(n2 >= st.next)
            st.next = n2
        if c.throws is not None:
            if not z3.is_false(c.throws):
                s2 = st.copy()
                s2.pc.append(c.throws)
                ex.exc.append((s2, "throw from " + self.name, e.get("loc")))
                st.pc.append(z3.Not(c.throws))
        rt = ex.u.norm(fn["r"])
        c.st = st
        ret = V(("void",), {})
        if rt[0] == "lref":
            ret = getattr(self, "ret_lv", None)
            if ret is None:
                raise Unsupported("contract on reference-returning function")
            ret = ret(c)
            c.result = Acc(ex, st, ret)
        elif rt[0] != "void":
            tr = tfresh(rt, "ret")
            ex.typing(st, rt, tr)
            ret = V(rt, tr)
            n = fresh_name("retv")
            st.vars[n] = ret
            c.result = Acc(ex, st, LV(("v", n), (), rt))
        try:
            next(g)
        except StopIteration:
            pass
        st.pc += c.usefacts
        gs = list(c.ghosts.values())
        insts = ex.cur.inst.get(self.name) if ex.cur is not None else None
        for x in c.enss:
            f = x[1]
            if gs:
                ante = z3.And(*[q for _, q in c.givens]) if c.givens else z3.BoolVal(True)
                body = z3.Implies(ante, f)
                if insts is not None:
                    for d in (insts(c) if callable(insts) else insts):
                        sub = [(c.ghosts[k], d[k]) for k in c.ghosts if k in d]
                        b = z3.substitute(body, *sub)
                        rest = [c.ghosts[k] for k in c.ghosts if k not in d]
                        st.pc.append(z3.ForAll(rest, b) if rest else b)
                else:
                    st.pc.append(z3.ForAll(gs, body))
            else:
                if c.givens:
                    f = z3.Implies(z3.And(*[q for _, q in c.givens]), f)
                st.pc.append(f)
        return ret


class Registry:
    def __init__(self, contracts):
        self.cs = contracts
        self.current = None
        self.indirect_ = None
        self.ghosts_ = {}
        self.models_ = {}

    def lookup(self, fn, u):
        for c in self.cs:
            if c.matches(fn, u):
                return c
        return None

    def inline_here(self, ex, c):
        return c.inline_ or False

    def indirect(self, ex, st, f, e):
        if self.indirect_ is not None:
            return self.indirect_(ex, st, f, e)
        return None


class Verifier(Exec):
    def __init__(self, unit, reg, fname):
        Exec.__init__(self, unit, reg, fname)
        self.varnames = {}
        self.typfacts = {}
        self.dry = 0
        self.statics = []
        self.quick = 0
        self.quick_time = 0.0

    def eig_to_mat(self, st, x, e):
        return eig.to_mat(self, st, x)

    def eig_assign(self, st, lv, v, e):
        return eig.assign(self, st, lv, eig.as_eig(self, st, v), e)

    def rec_named(self, tn):
        for d, r in self.u.records.items():
            if r["n"] == tn:
                for i, t in enumerate(self.u.types):
                    if t["k"] == "record" and t.get("d") == d:
                        return self.u.norm(i)
        raise Unsupported("no record " + tn)

    def declare(self, st, v):
        self.varnames[v.get("d")] = v.get("n")
        return Exec.declare(self, st, v)

    def prove_quick(self, pc, goal):
        self.quick += 1
        t0 = time.time()
        r = None
        ground = [f for f in pc if not has_quant(f)]
        for fs, lim in ((ground, 4000000), (pc, 2000000)):
            if fs is pc and len(ground) == len(pc) and r is not None:
                break
            s = z3.Solver()
            s.set("rlimit", lim)      # deterministic: does not depend on the machine's speed
            s.set("timeout", 60000)
            s.set("smt.mbqi", False)
            for f in fs:
                s.add(f)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                break
        self.quick_time += time.time() - t0
        return r == z3.unsat


_hq = {}


def has_quant(f):
    k = f.get_id()
    if k in _hq and _hq[k][0].eq(f):
        return _hq[k][1]
    seen, todo, res = set(), [f], False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        todo.extend(x.children())
    _hq[k] = (f, res)
    return res


class FnResult:
    def __init__(self, c, fn):
        self.contract, self.fn = c, fn
        self.obs = []          # (Ob, status, solver, time, model)
        self.error = None
        self.inlined, self.called, self.models, self.assumed = set(), set(), set(), set()
        self.seconds = 0.0
        self.vac = None
        self.returns = 0


def verify_function(unit, reg, c, fn):
    """generate all obligations of fn against contract c"""
    core.set_unit(unit)
    core.reset_heap0()
    ex = Verifier(unit, reg, fn["n"])
    body = unit.funcs[fn["d"]]
    reg.current = c
    st = State()
    st.pc.append(st.next > 0)
    st.ghost.update(reg.ghosts_)
    this_lv = None
    if "cls" in fn and not fn.get("static"):
        cty = unit.norm(body["cls"])
        st.vars["this"] = V(cty, tfresh(cty, "this"))
        this_lv = LV(("v", "this"), (), cty)
        ex.typing(st, cty, st.vars["this"].t)
    args = []
    for i, p in enumerate(body["params"]):
        pt = unit.norm(p["t"])
        ty = pt[1] if pt[0] == "lref" else pt
        hook = getattr(c, "argmodel", None)
        if hook is not None:
            v = hook(ex, st, i, ty)
            if v is not None:
                st.vars[p["d"]] = v
                args.append(v if isinstance(v, (LV, PyVal)) else LV(("v", p["d"]), (), v.ty))
                ex.varnames[p["d"]] = p["n"]
                continue
        v = V(ty, tfresh(ty, "a%d_" % i + p["n"]))
        ex.typing(st, ty, v.t)
        if pt[0] == "lref":
            n = "arg%d" % i
            st.vars[n] = v
            lv = LV(("v", n), (), ty)
            st.vars[p["d"]] = lv
            args.append(lv)
        else:
            st.vars[p["d"]] = v
            args.append(LV(("v", p["d"]), (), ty))
        ex.varnames[p["d"]] = p["n"]
    st.this = this_lv
    pre = st.copy()
    byval = [unit.norm(p["t"])[0] != "lref" for p in body["params"]]
    ctx = Ctx(ex, "verify", c, fn, pre, this_lv, args)
    ctx.paramids = {p["d"] for p in body["params"]}
    ex.cur = ctx
    g = c.spec(ctx)
    next(g)
    ex.loopspecs = ctx.loopspecs
    for nm, f in ctx.reqs + ctx.givens:
        st.pc.append(f)
    res = FnResult(c, fn)
    pre_pc = list(st.pc)
    outs = []
    try:
        s0 = st
        if "inits" in body:
            s0 = ex.ctor_inits(st, body, this_lv)
        outs = ex.exec(s0, body["body"])
    except Dead:
        outs = []
    rt = unit.norm(body["r"])
    for s, o in outs:
        res.returns += 1
        val = V(("void",), {})
        if o is not None:
            if o[0] != "return":
                raise Unsupported("outcome " + o[0])
            val = o[1]
        # restore by-value parameters to their entry values for the postcondition
        s = s.copy()
        if rt[0] == "lref" and isinstance(val, LV):
            rlv = val
        elif rt[0] != "void":
            v = ex.read(s, val)
            if isinstance(v, EigV):
                v = ex.eig_to_mat(s, v, None)
            n = fresh_name("result")
            if isinstance(v, PyVal):
                v = V(rt, ex.coerce(v, rt))
            s.vars[n] = V(rt, models.conv_to(ex, s, v, rt))
            rlv = LV(("v", n), (), rt)
        else:
            rlv = None
        for p, a, bv in zip(body["params"], args, byval):
            if bv and p["d"] in pre.vars:
                s.vars[p["d"]] = pre.vars[p["d"]]
        c2 = Ctx(ex, "verify", c, fn, pre, this_lv, args)
        c2.ghosts = ctx.ghosts
        c2.paramids = ctx.paramids
        g2 = c.spec(c2)
        next(g2)
        c2.phase = "post"
        c2.st = s
        if rlv is not None:
            c2.result = Acc(ex, s, rlv)
        c2.result_val = val
        try:
            next(g2)
        except StopIteration:
            pass
        if c2.throws is not None:
            ex.ob(s, z3.Not(c2.throws), "returns normally only when it must not throw", None, "post")
        for x in c2.enss:
            nm, f = x[0], x[1]
            ex.ob(s, f, "ensures " + nm, None, "post")
            if len(x) > 2:
                s.pc.append(f)
        # frame: this const / const refs are guaranteed by the type system; explicit modifies
        if c2.mods is not None:
            allowed = {m.key() for m in c2.mods}
            targets = ([this_lv] if this_lv is not None and not fn.get("mconst") else [])
            for p, a, bv in zip(body["params"], args, byval):
                t = unit.types[p["t"]]
                if not bv and not unit.types[t["to"]].get("const") and isinstance(a, LV):
                    targets.append(a)
            for tlv in targets:
                for lv in sublvs(unit, tlv, allowed):
                    a, b = rd(pre, lv), rd(s, lv)
                    if not tsame(a, b):
                        ex.ob(s, teq(a, b), "frame: %s unchanged" % (lv.path,), None, "frame")
        for k, tree in s.heap.items():
            ty = execu.tytuple(json.loads(k))
            a = heap0(ty)
            if tsame(a, tree):
                continue
            if ty[0] == "rec" and ty[1] in c2.heapmods:
                continue
            r = z3.Int(fresh_name("r"))
            ex.ob(s, z3.Implies(z3.And(r > 0, r < pre.next), teq(tselect(a, r), tselect(tree, r))), "frame: objects of type %s unchanged" % (ty[1],), None, "frame")
        for d, n, inv in ex.statics:
            if d in s.vars:
                ex.ob(s, inv(ex, s, n, s.vars[d]), "static-invariant of %s maintained" % n, None, "inv")
    for s, w, loc in ex.exc:
        f = ctx.throws if ctx.throws is not None else z3.BoolVal(False)
        ex.obs.append(Ob("exceptional exit (%s) only when the contract allows it" % w, loc or "", list(s.pc), f, "exc"))
    res.obs = ex.obs
    res.inlined, res.called, res.models, res.assumed = ex.inlined, ex.called, ex.models_used, ex.assumed
    res.pre_pc = pre_pc
    res.quick, res.quick_time = ex.quick, ex.quick_time
    return res


def sublvs(unit, lv, allowed):
    if lv.key() in allowed:
        return []
    if lv.ty[0] == "rec":
        out = []
        for n, t, _ in unit.fields(lv.ty[2]):
            out += sublvs(unit, lv.f(n, unit.norm(t)), allowed)
        return out
    return [lv]


# ------------------------------------------------------------------ solving
def smt2(pc, goal):
    s = z3.Solver()
    for f in pc:
        s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()


def run_solver(cmd, text, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        p = f.name
    t0 = time.time()
    try:
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    finally:
        os.unlink(p)
    first = out.strip().split("\n")[0] if out.strip() else "?"
    return first, out, time.time() - t0


def discharge_one(args):
    text, tmo = args
    total = 0.0
    out = ""
    z = ["z3-new"]
    for cmd, t in [(z, 3), (["cvc5"], 4), (z + ["smt.mbqi=false"], 5), (z + ["smt.auto_config=false", "smt.mbqi=false", "smt.relevancy=0"], tmo), (["cvc5"], tmo // 2), (z, tmo), (z + ["smt.arith.solver=2", "smt.random_seed=7"], tmo // 2)]:
        cv = cmd[0] == "cvc5"
        st, out, dt = run_solver(cmd + (["--tlimit=%d" % (t * 1000)] if cv else ["-T:%d" % t]), ("(set-logic ALL)\n" if cv else "") + text, t)
        total += dt
        if st == "unsat":
            return "proved", " ".join(cmd), total, ""
        if st == "sat" and not cv and "smt.mbqi=false" not in cmd:
            st2, out2, t2 = run_solver(["z3-new", "-T:5"], text.replace("(check-sat)", "(check-sat)\n(get-model)"), 5)
            return "refuted", "z3", total + t2, out2[:20000]
    return "unknown", "z3 + cvc5", total, out[:2000]


def split_goal(g):
    if z3.is_and(g):
        out = []
        for x in g.children():
            out += split_goal(x)
        return out
    return [g]


def discharge(res, tmo=20, jobs=8):
    """decide all obligations of a FnResult; fills res.results"""
    t0 = time.time()
    work = []
    for ob in res.obs:
        if z3.is_true(ob.goal):
            work.append((ob, None))
            continue
        work.append((ob, smt2(ob.pc, ob.goal)))
    vac = smt2(res.pre_pc, z3.BoolVal(False))
    with ThreadPoolExecutor(jobs) as p:
        fs = [(ob, p.submit(discharge_one, (t, tmo)) if t is not None else None) for ob, t in work]
        fv = p.submit(run_solver, ["z3-new", "-T:4"], vac, 4)
        res.results = [(ob,) + (f.result() if f is not None else ("proved", "trivial", 0.0, "")) for ob, f in fs]
        res.vac = fv.result()[0]
    res.seconds = time.time() - t0
    return res
