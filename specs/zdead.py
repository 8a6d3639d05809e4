"""C10: ZoneAutomaton::removeDeadStates"""
from common import *
from zgraph import Graph, closed, SET, isset, isqueue
from models import IterV


def isstack(ty):
    return ty[0] == "vec" and len(ty) > 2 and ty[2] == "stack"


def ispred(ty):
    return ty[0] == "umap"


def dead(c):
    h = heapof(c, "ZAState", c.prest)
    G = Graph(h)
    acc = h["isMatch"]
    c.modifies(c.this)
    S0, I0 = c.old_this.t["states"], c.old_this.t["initialStates"]
    c.requires(refs_ok(c, S0), "states are allocated")
    c.requires(refs_ok(c, I0), "states are allocated")
    RR = c.ghost("closed_set", SET)
    q = fi()
    c.given(ForAll([q], Implies(And(0 <= q, q < I0["len"]), RR[I0["at"][q]]), patterns=[I0["at"][q]]), "R contains the initial states")
    c.given(closed(c, G, RR), "R is closed under transitions")
    B = c.ghost("coclosed_set", SET)
    q, s, a, e = fi(), fi(), fi(), fi()
    c.given(ForAll([q], Implies(acc[q], B[q]), patterns=[acc[q]]), "B contains the accepting states")
    c.given(ForAll([s, a, e], Implies(And(G.is_edge(s, a, e), B[G.edge(s, a, e)]), B[s]), patterns=[G.edge(s, a, e)]), "B is closed under transitions backwards")
    OS, OI = c.ghost("all_states", SET), c.ghost("all_initial", SET)
    for S_, O_ in ((S0, OS), (I0, OI)):
        q = fi()
        c.given(ForAll([q], Implies(And(0 <= q, q < S_["len"]), O_[S_["at"][q]]), patterns=[S_["at"][q]]), "the original states")
    gs, ga, ge, gi, gk, gacc = [c.ghost(n, I) for n in ("state", "letter", "edge", "initial", "kth", "accepting")]
    is_e = G.is_edge(gs, ga, ge)
    t = G.edge(gs, ga, ge)

    def inq(W, s, lo=0):
        q = fi()
        return Or(And(W["len"] > lo, W["at"][W["len"] - 1] == s), Exists([q], And(lo <= q, q < W["len"], W["at"][q] == s), **vpat(W["at"][q])))

    def pred(P, x):
        return P["at"]["len"][x], P["at"]["at"][x]

    def ispr(P, x, s, lo=0):
        """s is listed as a predecessor of x"""
        n, at = pred(P, x)
        q = fi()
        return Or(And(n > lo, at[n - 1] == s), Exists([q], And(lo <= q, q < n, at[q] == s)))

    def P_(L):
        return L.locals_by(ispred)[0].t

    def W_(L):
        return L.locals_by(isstack)[0].t

    def R_(L):
        return L.locals_by(isset)[0].t["has"]

    def pos(L, nth=0):
        cs = sorted([k for k in L.entry.vars if isinstance(k, str) and k.startswith("rk!")], key=lambda x: int(x.split("!")[1]))
        return L.st.vars[cs[nth]].t

    def waiting(W, V):
        q = fi()
        yield "waiting states are in it", And(W["len"] >= 0, ForAll([q], Implies(And(0 <= q, q < W["len"]), And(W["at"][q] != 0, V[W["at"][q]])), patterns=[W["at"][q]]))

    def common(L):
        P, W = P_(L), W_(L)
        V = P["has"]
        q = fi()
        yield "no null state", Not(V[0])
        yield "within R", ForAll([q], Implies(V[q], RR[q]), patterns=[V[q]])
        yield from waiting(W, V)
        q, i = fi(), fi()
        n, at = pred(P, q)
        yield "lists", ForAll([q], Implies(V[q], n >= 0), patterns=[V[q]])
        yield "predecessors are predecessors", ForAll([q, i], Implies(And(V[q], 0 <= i, i < n), And(at[i] != 0, V[at[i]], Implies(B[q], B[at[i]]))), patterns=[at[i]])

    def l0(L):
        P, W = P_(L), W_(L)
        yield from common(L)
        yield "initial states visited", Implies(And(0 <= gi, gi < I0["len"], gi < L.K), P["has"][I0["at"][gi]])
        yield "waiting", Implies(P["has"][gs], inq(W, gs))
    c.loop(0, l0)

    def doneP(L, more=None):
        P, W = P_(L), W_(L)
        V = P["has"]
        yield from common(L)
        yield "initial states visited", Implies(And(0 <= gi, gi < I0["len"]), V[I0["at"][gi]])
        yield "done or waiting", Implies(V[gs], Or(Implies(is_e, And(V[t], ispr(P, t, gs))), inq(W, gs), *([more] if more is not None else [])))
    c.loop(1, lambda L: doneP(L))

    def here(L):
        """the state whose edges are ranged over"""
        return L.ranged[1].path[0][1][0] if False else key_of(L)

    def key_of(L):
        lv = L.ranged[1]
        if lv.root[0] == "h":
            return lv.root[2]
        for p in lv.path:
            if p[0] == "k":
                return p[1][0]

    def now(L, part):
        P = P_(L)
        s = key_of(L)
        yield "current state", And(s != 0, P["has"][s])
        yield from doneP(L, And(s == gs, Implies(And(is_e, part(L)), And(P["has"][t], ispr(P, t, gs)))))
    c.loop(2, lambda L: now(L, lambda L: ga < L.K))
    c.loop(3, lambda L: now(L, lambda L: Or(ga < pos(L, 0), And(ga == pos(L, 0), ge < L.K))))

    def frozen(L):
        P, P0 = P_(L), L.entry_acc(L.locals_by(ispred)[0]).t
        yield "predecessors kept", And(*[x == y for x, y in zip(leaves(P), leaves(P0))])

    def commonR(L):
        P, W = P_(L), W_(L)
        V, R = P["has"], R_(L)
        q = fi()
        yield "visited", ForAll([q], Implies(R[q], And(q != 0, V[q], B[q])), patterns=[R[q]])
        yield from waiting(W, R)

    def l4(L):
        P, W = P_(L), W_(L)
        V, R = P["has"], R_(L)
        yield from commonR(L)
        yield "accepting states", Implies(And(V[gacc], acc[gacc]), Or(R[gacc], L.order["idx"](gacc) >= L.K))
        yield "waiting", Implies(R[t], inq(W, t))
    c.loop(4, l4)

    def l5(L, more=None):
        P, W = P_(L), W_(L)
        V, R = P["has"], R_(L)
        yield from frozen(L)
        yield from commonR(L)
        yield "accepting states", Implies(And(V[gacc], acc[gacc]), R[gacc])
        yield "done or waiting", Implies(And(R[t], V[gs], is_e), Or(R[gs], inq(W, t), *([more] if more is not None else [])))
    c.loop(5, lambda L: l5(L))

    def l6(L):
        s = key_of(L)
        yield "current state", And(s != 0, R_(L)[s])
        yield from l5(L, And(s == t, ispr(P_(L), t, gs, L.K)))
    c.loop(6, l6)

    def filt(field, S0, O, L):
        S = L.this.t[field]
        R = R_(L)
        its = [L.st.vars[d] for d in sorted(d for d in L.st.vars if isinstance(d, int)) if isinstance(L.st.vars[d], IterV)]
        k = its[-1].idx
        q = fi()
        yield "* position", And(0 <= k, k <= S["len"])
        yield "* originals", ForAll([q], Implies(And(0 <= q, q < S["len"]), And(S["at"][q] != 0, O[S["at"][q]])), patterns=[S["at"][q]])
        q = fi()
        yield "* kept ones", ForAll([q], Implies(And(0 <= q, q < k), R[S["at"][q]]), patterns=[S["at"][q]])
        q = fi()
        g = S0["at"][gk]
        yield "* all kept", Implies(And(0 <= gk, gk < S0["len"], R[g]), Or(And(k > 0, S["at"][k - 1] == g), Exists([q], And(0 <= q, q < S["len"], S["at"][q] == g), **vpat(S["at"][q]))))

    c.loop(7, lambda L: filt("states", S0, OS, L))

    def l8(L):
        yield from filt("initialStates", I0, OI, L)
        e = L.entry_acc(L.this).t["states"]
        yield "states done", And(*[x == y for x, y in zip(leaves(L.this.t["states"]), leaves(e))])
    c.loop(8, l8)
    yield
    P = [x for d, x in sorted((d, x) for d, x in c.st.vars.items() if isinstance(d, int)) if isinstance(x, V) and ispred(x.ty)][0].t
    R = [x for d, x in sorted((d, x) for d, x in c.st.vars.items() if isinstance(d, int)) if isinstance(x, V) and isset(x.ty)][0].t["has"]
    VV = P["has"]
    c.ensures(Implies(And(0 <= gi, gi < I0["len"]), VV[I0["at"][gi]]), "the visited set contains the initial states")
    c.ensures(Implies(And(VV[gs], is_e), VV[t]), "the visited set is closed under transitions")
    c.ensures(Implies(And(VV[gacc], acc[gacc]), R[gacc]), "live: contains the visited accepting states")
    c.ensures(Implies(And(VV[gs], is_e, R[t]), R[gs]), "live: closed backwards under transitions among the visited states")
    c.ensures(Implies(VV[gs], RR[gs]), "the visited set lies within every set closed under transitions that contains the initial states")
    c.ensures(Implies(R[gs], And(RR[gs], B[gs])), "live: only reachable states from which an accepting state is reachable")
    q = c.ghost("new", I)
    for n, S0_, O in (("states", S0, OS), ("initialStates", I0, OI)):
        S = c.this.t[n]
        x = S["at"][q]
        c.ensures(Implies(And(0 <= q, q < S["len"]), And(O[x], RR[x], B[x])), n + ": only original ones that are reachable and from which an accepting state is reachable")
        g = S0_["at"][gk]
        p = fi()
        c.ensures(Implies(And(0 <= gk, gk < S0_["len"], R[g]), Exists([p], And(0 <= p, p < S["len"], S["at"][p] == g), **vpat(S["at"][p]))), n + ": every live one is kept")


CONTRACTS = [Contract("ZoneAutomaton::removeDeadStates", dead)]
