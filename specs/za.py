"""C10: construction of the zone automaton (libmonaa/ta2za.cc)"""
from common import *
import zone
from zone import VAL, inzone, wf, nonneg, square, NE, ent, ZPOS, beq
from product import Edge
from zgraph import SET
from execu import MIterV
from models import IterV

VSEQ = z3.ArraySort(I, VAL)
LT, LE, GE, GT = 0, 1, 2, 3


def zvec(ty):
    return ty[0] == "vec" and ty[1][0] == "ref" and ty[1][1][1] == "ZAState"


def tvec(ty):
    return ty[0] == "vec" and ty[1][0] == "ref" and ty[1][1][1] == "TAState"


def izone(ty):
    return ty[0] == "rec" and ty[1] == "Zone"


def construct(c):
    HT = heapof(c, "TAState", c.prest)
    H0, N0 = heapof(c, "ZAState", c.prest), c.prest.next
    TI = c.arg(0).t["initialStates"]
    n = c.arg(0).t["maxConstraints"]["len"]
    za0 = c.old_arg(1).t
    S0, IS0 = za0["states"], za0["initialStates"]
    Z0 = c.old_arg(2).t["value"]
    c.modifies(c.arg(1), c.arg(2))
    c.modifies_heap("ZAState")
    c.auto_frames = False
    c.counters = False

    TS = c.ghost("ta_states", SET)
    ZS = c.ghost("za_states", SET)
    r, a, e, i = fi(), fi(), fi(), fi()
    E_ = Edge(HT, r, a, e)
    L_ = HT["next"]["at"]["len"]
    has = HT["next"]["has"]
    ok = And(0 <= e, e < L_[r][a])
    c.requires(And(n >= 0, n <= 255), "clocks fit one byte")
    c.given(ForAll([r], Implies(TS[r], And(r > 0, r < N0)), patterns=[TS[r]]), "states of the automaton are allocated")
    c.given(ForAll([i], Implies(And(0 <= i, i < TI["len"]), TS[TI["at"][i]]), patterns=[TI["at"][i]]), "initial states are states")
    c.given(ForAll([r, a], Implies(And(TS[r], has[r][a]), And(0 <= a, a < 127, L_[r][a] >= 0)), patterns=[z3.MultiPattern(TS[r], has[r][a])]), "letters are below 127")
    at = HT["next"]["at"]["at"]
    c.given(ForAll([r, a, e], Implies(And(TS[r], has[r][a], ok), And(E_.rl >= 0, E_.gl >= 0, Implies(E_.target != 0, TS[E_.target]))), patterns=[E_.target, E_.rl, E_.gl]), "targets are states")
    c.given(ForAll([r, a, e, i], Implies(And(TS[r], has[r][a], ok, 0 <= i, i < E_.rl), And(E_.ra[i] >= 0, E_.ra[i] < n)), patterns=[E_.ra[i]]), "resets are clocks of the automaton")
    c.given(ForAll([r, a, e, i], Implies(And(TS[r], has[r][a], ok, 0 <= i, i < E_.gl), And(E_.g["x"][i] >= 0, E_.g["x"][i] < n, E_.g["odr"][i] >= 0, E_.g["odr"][i] <= 3, E_.g["c"][i] > -2**31)), patterns=[E_.g["x"][i]]), "guards are over clocks of the automaton")

    def zv(h, s):
        return tselect(h["zone"], s)["value"]

    def good(h, s):
        m = zv(h, s)
        t = h["taState"][s]
        return And(TS[t], h["isMatch"][s] == HT["isMatch"][t], wf(m), m["rows"] == n + 1, nonneg(m, 0), tselect(h["zone"], s)["M"]["first"]["k"] == 0, h["next"]["len"][s] == 127)

    def sound_zone(z):
        return And(wf(z["value"]), z["value"]["rows"] == n + 1, z["M"]["first"]["k"] == 0)

    r = fi()
    c.given(ForAll([r], Implies(ZS[r], And(r > 0, r < N0, good(H0, r))), patterns=[ZS[r]]), "states already there stem from the automaton")
    q = fi()
    c.given(And(S0["len"] >= 0, ForAll([q], Implies(And(0 <= q, q < S0["len"]), ZS[S0["at"][q]]), patterns=[S0["at"][q]])), "states already there")
    q = fi()
    c.given(And(IS0["len"] >= 0, ForAll([q], Implies(And(0 <= q, q < IS0["len"]), ZS[IS0["at"][q]]), patterns=[IS0["at"][q]])), "initial states already there")
    c.requires(Or(And(Z0["rows"] == 0, Z0["cols"] == 0), And(wf(Z0), Z0["rows"] == n + 1, nonneg(Z0, 0))), "no initial zone, or one over the clocks of the automaton")

    # an arbitrary valuation of the initial zone
    u, gi = c.ghost("u", VAL), c.ghost("initial", I)
    c.given(Implies(Z0["rows"] > 0, inzone(u, Z0)), "u is in the initial zone")
    q = fi()
    c.given(Implies(Z0["rows"] <= 0, ForAll([q], u[q] == u[0], patterns=[u[q]])), "u is in the initial zone")
    ti = TI["at"][gi]
    isgi = And(0 <= gi, gi < TI["len"])

    # an arbitrary state created, an arbitrary valuation of its zone, a delay d and a transition that may then be taken
    gs, gt, ga, ge = [c.ghost(x, I) for x in ("state", "ta_state", "letter", "edge")]
    v, d, W = c.ghost("v", VAL), c.ghost("d", R), c.ghost("after_resets", VSEQ)
    v1 = z3.Store(v, IntVal(0), v[0] - d)
    E = Edge(HT, gt, ga, ge)
    c.given(d > 0, "positive delay")
    c.given(W[0] == v1, "W(0): the valuation after the delay")
    k = fi()
    c.given(ForAll([k], Implies(And(0 <= k, k < E.rl), W[k + 1] == z3.Store(W[k], E.ra[k] + 1, v1[0])), patterns=[E.ra[k]]), "W(k): after the first k resets")
    w = W[E.rl]
    k = fi()
    x = v1[E.g["x"][k] + 1] - v1[0]
    o, cc = E.g["odr"][k], ToReal(E.g["c"][k])
    c.given(ForAll([k], Implies(And(0 <= k, k < E.gl), If(o == LT, x < cc, If(o == LE, x <= cc, If(o == GE, x >= cc, x > cc)))), patterns=[E.g["x"][k]]), "the guard holds")
    isedge = And(TS[gt], has[gt][ga], 0 <= ge, ge < L_[gt][ga], E.target != 0)
    gj = c.ghost("succ", I)

    def created(s, st):
        return And(N0 <= s, s < st.next)

    def heap(st):
        return heapof(c, "ZAState", st)

    def enab(h):
        return And(h["taState"][gs] == gt, isedge, inzone(v, zv(h, gs)))

    def succ(h, s, a):
        return h["next"]["at"]["len"][s][a], h["next"]["at"]["at"][s][a]

    def reaches(h, j, st):
        ln, to = succ(h, gs, ga)
        return And(0 <= j, j < ln, to[j] > 0, to[j] < st.next, h["taState"][to[j]] == E.target, inzone(w, zv(h, to[j])))

    def done(h, st):
        ln, to = succ(h, gs, ga)
        j = fi()
        return Or(reaches(h, ln - 1, st), Exists([j], reaches(h, j, st)))

    def hasi(V_, s, lo=0):
        q = fi()
        return Or(And(V_["len"] > lo, V_["at"][V_["len"] - 1] == s), Exists([q], And(lo <= q, q < V_["len"], V_["at"][q] == s), **vpat(V_["at"][q])))

    def present(V_, h):
        """a state for the chosen initial state, with the valuation u"""
        at_ = lambda q: And(0 <= q, q < V_["len"], h["taState"][V_["at"][q]] == ti, inzone(u, zv(h, V_["at"][q])))
        q = fi()
        return Or(at_(V_["len"] - 1), Exists([q], at_(q), **vpat(V_["at"][q])))

    def kept(h, h1, upto, every=False):
        """the objects below `upto` are as in h1"""
        q = fi()
        fs = [f for f in h if every or f != "next"]
        return And(*[ForAll([q], Implies(And(0 <= q, q < upto), x[q] == y[q]), patterns=[x[q]]) for f in fs for x, y in zip(leaves(h[f]), leaves(h1[f])) if not x.eq(y)])

    def states_ok(S, st):
        q = fi()
        return And(S["len"] >= 0, ForAll([q], Implies(And(0 <= q, q < S["len"]), And(S["at"][q] > 0, S["at"][q] < st.next, Or(ZS[S["at"][q]], S["at"][q] >= N0))), patterns=[S["at"][q]]))

    def conf_ok(C, st):
        q = fi()
        return And(C["len"] >= 0, ForAll([q], Implies(And(0 <= q, q < C["len"]), created(C["at"][q], st)), patterns=[C["at"][q]]))

    def vecs(L):
        return [x.t for x in L.locals_by(zvec)]

    def world(L):
        h, st = heap(L.st), L.st
        S = L.arg(1).t["states"]
        yield "* allocation", L.st.next >= L.entry.next
        yield "* objects from before are kept", kept(h, H0, N0, True)
        yield "* zones and locations are kept", kept(h, heap(L.entry), L.entry.next)
        q = fi()
        yield "* created states", ForAll([q], Implies(created(q, st), good(h, q)), patterns=[h["taState"][q]])
        yield "* states", states_ok(S, st)
        q = fi()
        yield "* states from before", And(S["len"] >= S0["len"], ForAll([q], Implies(And(0 <= q, q < S0["len"]), S["at"][q] == S0["at"][q]), patterns=[S["at"][q]]))
        yield "* all created are states", Implies(created(gs, st), hasi(S, gs))

    def struct(L):
        h, st = heap(L.st), L.st
        ln, to = succ(h, gs, ga)
        t = to[gj]
        q = fi()
        T_ = at["target"][gt][ga]
        yield "successor lists", Implies(created(gs, st), ln >= 0)
        yield "successors", Implies(And(created(gs, st), h["taState"][gs] == gt, 0 <= gj, gj < ln), And(t > 0, t < st.next, Or(ZS[t], t >= N0), has[gt][ga],
                    Exists([q], And(0 <= q, q < L_[gt][ga], T_[q] != 0, T_[q] == h["taState"][t]), patterns=[T_[q]])))

    # ---- states of the automaton that are there already are left out
    def l0(L):
        V_ = [x.t for x in L.locals_by(tvec)][0]
        its = [L.st.vars[d_] for d_ in sorted(d_ for d_ in L.st.vars if isinstance(d_, int)) if isinstance(L.st.vars[d_], IterV)]
        k = its[-1].idx
        q = fi()
        yield "* position", And(0 <= k, k <= V_["len"])
        yield "* initial states", ForAll([q], Implies(And(0 <= q, q < V_["len"]), TS[V_["at"][q]]), patterns=[V_["at"][q]])
        yield "* left out or there", Implies(isgi, Or(hasi(V_, ti), present(L.arg(1).t["states"], heap(L.st))))
    c.loop(0, l0)

    # ---- initial states
    def l1(L):
        V_ = [x.t for x in L.locals_by(tvec)][0]
        h, st = heap(L.st), L.st
        C = vecs(L)[0]
        yield from world(L)
        yield "* waiting", conf_ok(C, st)
        yield "* created ones wait", Implies(created(gs, st), hasi(C, gs))
        yield "no successors yet", Implies(created(gs, st), succ(h, gs, ga)[0] == 0)
        yield "initial states", Implies(isgi, Or(hasi(V_, ti, L.K), present(L.arg(1).t["states"], h)))
        yield "initial ones", Implies(And(isgi, S0["len"] == 0), Or(hasi(V_, ti, L.K), present(L.arg(1).t["initialStates"], h)))
        q = fi()
        IS = L.arg(1).t["initialStates"]
        yield "* initial ones are allocated", states_ok(IS, st)
        yield "* initial zone", And(sound_zone(L.arg(2).t), nonneg(L.arg(2).t["value"], 0), inzone(u, L.arg(2).t["value"]))
    c.loop(1, l1)

    def there(L):
        h = heap(L.st)
        yield "initial states", Implies(isgi, present(L.arg(1).t["states"], h))
        yield "initial ones", Implies(And(isgi, S0["len"] == 0), present(L.arg(1).t["initialStates"], h))
        IS, IS1 = L.arg(1).t["initialStates"], L.entry_acc(L.arg(1)).t["initialStates"]
        yield "initial ones kept", And(*[x == y for x, y in zip(leaves(IS), leaves(IS1))])
        q = fi()
        yield "* initial ones are allocated", states_ok(IS, L.st)

    def l2(L):
        h, st = heap(L.st), L.st
        C = vecs(L)[0]
        yield from world(L)
        yield from struct(L)
        yield from there(L)
        yield "* waiting", conf_ok(C, st)
        yield "done or waiting", Implies(And(created(gs, st), enab(h)), Or(done(h, st), hasi(C, gs)))
    c.loop(2, l2)

    def pos(L, nth=0):
        cs = sorted([k for k in L.entry.vars if isinstance(k, str) and k.startswith("rk!")], key=lambda x: int(x.split("!")[1]))
        return L.st.vars[cs[nth]].t

    def l3(L):
        h, st = heap(L.st), L.st
        C, C1 = vecs(L)[:2]
        yield from world(L)
        yield from struct(L)
        yield from there(L)
        yield "* waiting", conf_ok(C, st)
        yield "* current", conf_ok(C1, st)
        yield "done or waiting", Implies(And(created(gs, st), enab(h)), Or(done(h, st), hasi(C, gs), hasi(C1, gs, L.K)))
    c.loop(3, l3)

    def order(L):
        it = [x for d_, x in L.st.vars.items() if isinstance(x, MIterV) and getattr(x, "order", None) is not None][-1]
        return it.order[0], it.order[1], it.key[0]

    def inner(L, part):
        h, st = heap(L.st), L.st
        C, C1 = vecs(L)[:2]
        k = pos(L)
        conf = C1["at"][k]
        yield from world(L)
        yield from struct(L)
        yield from there(L)
        yield "* waiting", conf_ok(C, st)
        yield "* current", conf_ok(C1, st)
        o_, i_, a_ = order(L)
        yield "done or waiting", Implies(And(created(gs, st), enab(h)), Or(done(h, st), hasi(C, gs), hasi(C1, gs, k + 1), And(conf == gs, part(o_["idx"](ga), i_))))

    c.loop(4, lambda L: inner(L, lambda p, i_: p >= i_))

    def l5(L):
        h, st = heap(L.st), L.st
        C1 = vecs(L)[1]
        conf = C1["at"][pos(L)]
        o_, i_, a_ = order(L)
        ln, to = succ(h, gs, ga)
        gen = inner(L, lambda p, i_: Or(p > i_, And(p == i_, ge >= L.K)))
        S, IS = L.arg(1).t["states"], L.arg(1).t["initialStates"]
        same = L.head is not None and all(x.eq(y) for x, y in zip(
            [*leaves(h), *leaves(S), *leaves(IS)],
            [*leaves(heap(L.head)), *leaves(L.ctx.arg_in(L.head, 1).t["states"]), *leaves(L.ctx.arg_in(L.head, 1).t["initialStates"])]))
        for nm, f in gen:
            if same and nm == "done or waiting":
                yield "* no transition here", Not(And(enab(h), conf == gs, a_ == ga, ge == L.K - 1))
            if nm == "successor lists" and L.head is not None and not same:
                hd = heap(L.head)
                ln0, to0 = succ(hd, gs, ga)
                old = created(gs, L.head)
                yield "* locations and zones as before", kept(h, hd, L.head.next)
                q = fi()
                yield "* successors stay", Implies(old, And(ln >= ln0, ln <= ln0 + 1, ForAll([q], Implies(And(0 <= q, q < ln0), to[q] == to0[q]), patterns=[to[q]] if z3.is_const(to) else [to0[q]])))
                yield "* the newest successor", Implies(And(old, h["taState"][gs] == gt, ln > ln0), And(to[ln0] > 0, to[ln0] < st.next, Or(ZS[to[ln0]], to[ln0] >= N0), has[gt][ga], 0 <= L.K - 1, L.K - 1 < L_[gt][ga],
                            a_ == ga, at["target"][gt][ga][L.K - 1] != 0, at["target"][gt][ga][L.K - 1] == h["taState"][to[ln0]]))
                yield "* done stays done", Implies(And(old, enab(h), done(hd, L.head)), done(h, st))
                S, Sh = L.arg(1).t["states"], L.ctx.arg_in(L.head, 1).t["states"]
                IS, ISh = L.arg(1).t["initialStates"], L.ctx.arg_in(L.head, 1).t["initialStates"]
                yield "* present stays present", Implies(present(Sh, hd), present(S, h))
                yield "* present stays present initially", Implies(present(ISh, hd), present(IS, h))
            if nm == "done or waiting" and not same:
                yield "* newest", Implies(And(created(gs, st), conf == gs, enab(h), a_ == ga, ge == L.K - 1), reaches(h, ln - 1, st))
            yield nm, f
    c.loop(5, l5)

    def cur(L):
        """the loops are at the chosen state and transition"""
        C1 = vecs(L)[1]
        h = heap(L.st)
        o_, i_, a_ = order(L)
        return And(C1["at"][pos(L)] == gs, enab(h), a_ == ga, pos(L, 1) == ge)

    def nz(L):
        return [x.t for x in L.locals_by(izone)][-1]

    def l6(L):
        z = nz(L)
        yield "* zone", sound_zone(z)
        yield "valuation", Implies(cur(L), inzone(v1, z["value"]))
    c.loop(6, l6)

    def l7(L):
        z = nz(L)
        yield "* zone", sound_zone(z)
        yield "* not empty", NE(z["value"])
        yield "valuation", Implies(cur(L), And(W[L.K][0] == v1[0], inzone(W[L.K], z["value"])))
    c.loop(7, l7)

    def atreset(cc_):
        cs = sorted([k for k in cc_.prest.vars if isinstance(k, str) and k.startswith("rk!")], key=lambda x: int(x.split("!")[1]))
        return [{"v": W[cc_.prest.vars[cs[-1]].t]}]
    l_ = IntVal(0)
    c.inst = {"Zone::tighten": [{"v": v1, "l": l_}], "Zone::isSatisfiable": [{"v": v1, "l": l_}], "Zone::elapse": [{"v": v, "d": d}], "Zone::reset": atreset,
              "Zone::abstractize": [{"v": w}], "Zone::canonize": [{"v": w, "l": l_}], "Zone::operator==": [{"v": w}, {"v": u}], "Zone::zero": [{"v": u}]}
    yield
    h = heapof(c, "ZAState")
    st = c.st
    S, IS = c.arg(1).t["states"], c.arg(1).t["initialStates"]
    ln, to = succ(h, gs, ga)
    t = to[gj]
    T_ = at["target"][gt][ga]
    q = fi()
    c.ensures(kept(h, H0, N0, True), "states from before are untouched")
    c.ensures(And(S["len"] >= S0["len"], ForAll([q], Implies(And(0 <= q, q < S0["len"]), S["at"][q] == S0["at"][q]), patterns=[S["at"][q]])), "the states from before stay")
    c.ensures(states_ok(S, st), "the others are created")
    c.ensures(Implies(created(gs, st), hasi(S, gs)), "every created state is a state of the zone automaton")
    c.ensures(Implies(created(gs, st), good(h, gs)), "created states: a location of the timed automaton, accepting as it is, and a well-formed zone over its clocks")
    c.ensures(Implies(isgi, present(S, h)), "every initial state of the timed automaton, with every valuation of the initial zone, is represented")
    c.ensures(Implies(And(isgi, S0["len"] == 0), present(IS, h)), "by an initial state, when the zone automaton was empty")
    c.ensures(Implies(And(created(gs, st), enab(h)), done(h, st)), "every transition that some valuation of a state's zone can take after some delay has a successor with the valuation it leads to")
    c.ensures(Implies(And(created(gs, st), h["taState"][gs] == gt, 0 <= gj, gj < ln), And(t > 0, t < st.next, Or(ZS[t], t >= N0), has[gt][ga],
                Exists([q], And(0 <= q, q < L_[gt][ga], T_[q] != 0, T_[q] == h["taState"][t]), patterns=[T_[q]]))), "every transition stems from one of the timed automaton, with the same letter and target")


def quantified(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


def facts(spec):
    """the contract of specs/zone.py with its definitions folded (zone.ABSTRACT), without the facts about single entries"""
    def s(c):
        g = spec(c)
        next(g)
        yield
        for _ in g:
            pass
        c.enss = [x for x in c.enss if not quantified(x[1]) or x[0] == "contains the valuation with all clocks 0"]
    return s


zone.ABSTRACT = True
CONTRACTS = [Contract("ta2za", construct)] + [Contract(x.name, facts(x.spec), check=False) for x in zone.CONTRACTS]
