"""C10: graph operations of the zone automaton (libmonaa/zone_automaton.hh)"""
from common import *

SET = z3.ArraySort(I, z3.BoolSort())


def isset(ty):
    return ty[0] == "uset"


def isqueue(ty):
    return ty[0] == "vec" and ty[1][0] in ("ref", "ptr")


class Graph:
    """edges of the zone automaton in heap h"""

    def __init__(self, h):
        nx = h["next"]
        # next: an array of 127 vectors, one per letter
        self.len, self.to = nx["at"]["len"], nx["at"]["at"]

    def edge(self, s, a, e):
        return self.to[s][a][e]

    def is_edge(self, s, a, e):
        return And(0 <= a, a < 127, 0 <= e, e < self.len[s][a], self.to[s][a][e] != 0)


def closed(c, G, S, letter=None, name="closed"):
    """S (array of Bool) is closed under the edges (with the letter) of G"""
    s, a, e = fi(), fi(), fi()
    a_ = IntVal(letter) if letter is not None else a
    b = [s, e] if letter is not None else [s, a, e]
    return ForAll(b, Implies(And(S[s], G.is_edge(s, a_, e)), S[G.edge(s, a_, e)]), patterns=[z3.MultiPattern(S[s], G.edge(s, a_, e))])


def closure(c):
    G = Graph(heapof(c, "ZAState", c.prest))
    c.modifies(c.arg(0))
    C0 = c.old_arg(0).t["has"]
    q = fi()
    c.requires(Not(C0[0]), "no null state")
    # any set that contains the states and is closed under unobservable transitions
    RR = c.ghost("closed_set", SET)
    c.given(ForAll([q], Implies(C0[q], RR[q]), patterns=[C0[q], RR[q]]), "R contains the states")
    c.given(closed(c, G, RR, 0), "R is closed")
    gs, ge, g0 = c.ghost("state", I), c.ghost("edge", I), c.ghost("start", I)
    is_e = G.is_edge(gs, IntVal(0), ge)
    t = G.edge(gs, IntVal(0), ge)

    def common(C, W):
        q = fi()
        yield "kept", Implies(C0[g0], C[g0])
        yield "no null state", Not(C[0])
        q = fi()
        yield "within R", ForAll([q], Implies(C[q], RR[q]), patterns=[C[q]])
        q = fi()
        yield "waiting states are in it", And(W["len"] >= 0, ForAll([q], Implies(And(0 <= q, q < W["len"]), C[W["at"][q]]), patterns=[W["at"][q]]))

    def waits(W, s, lo=0):
        q = fi()
        return Or(And(W["len"] > lo, W["at"][W["len"] - 1] == s), exists_pat2(W, s, lo))

    def exists_pat2(W, s, lo):
        q = fi()
        return Exists([q], And(lo <= q, q < W["len"], W["at"][q] == s), **({"patterns": [W["at"][q]]} if z3.is_const(W["at"]) else {}))

    def l0(L):
        C, W = L.arg(0).t["has"], L.locals_by(isqueue)[0].t
        yield from common(C, W)
        yield "done or waiting", Implies(And(C[gs], is_e), Or(C[t], waits(W, gs)))
    c.loop(0, l0)

    def l1(L):
        C, W = L.arg(0).t["has"], L.locals_by(isqueue)[0].t
        W0 = L.entry_acc(L.locals_by(isqueue)[0]).t
        yield from common(C, W)
        q = fi()
        yield "queue extended", And(W["len"] >= W0["len"], W0["len"] > 0, W["at"][0] == W0["at"][0])
        yield "done or waiting", Implies(And(C[gs], is_e), Or(C[t], waits(W, gs, 1), And(W0["at"][0] == gs, ge >= L.K)))
    c.loop(1, l1)
    yield
    C = c.arg(0).t["has"]
    c.ensures(Implies(C0[g0], C[g0]), "the states themselves are in it")
    c.ensures(Implies(And(C[gs], is_e), C[t]), "it is closed under unobservable transitions")
    c.ensures(Implies(C[gs], RR[gs]), "it is the least such set")


def empty(c):
    h = heapof(c, "ZAState", c.prest)
    G = Graph(h)
    acc = h["isMatch"]
    IS = c.this.t["initialStates"]
    q = fi()
    c.requires(ForAll([q], Implies(And(0 <= q, q < IS["len"]), IS["at"][q] != 0), patterns=[IS["at"][q]]), "no null state")
    RR = c.ghost("closed_set", SET)
    c.given(ForAll([q], Implies(And(0 <= q, q < IS["len"]), RR[IS["at"][q]]), patterns=[IS["at"][q]]), "R contains the initial states")
    c.given(closed(c, G, RR), "R is closed under transitions")
    gs, ga, ge, gi = c.ghost("state", I), c.ghost("letter", I), c.ghost("edge", I), c.ghost("initial", I)
    is_e = G.is_edge(gs, ga, ge)
    t = G.edge(gs, ga, ge)

    def inq(W, s, lo=0):
        q = fi()
        return Or(And(W["len"] > lo, W["at"][W["len"] - 1] == s), Exists([q], And(lo <= q, q < W["len"], W["at"][q] == s), **({"patterns": [W["at"][q]]} if z3.is_const(W["at"]) else {})))

    def common(V, queues):
        q = fi()
        yield "initial states visited", Implies(And(0 <= gi, gi < IS["len"]), V[IS["at"][gi]])
        yield "no null state", Not(V[0])
        yield "within R", ForAll([q], Implies(V[q], RR[q]), patterns=[V[q]])
        for n, W in queues:
            q = fi()
            yield n + " states are visited", And(W["len"] >= 0, ForAll([q], Implies(And(0 <= q, q < W["len"]), V[W["at"][q]]), patterns=[W["at"][q]]))

    def vis(L):
        return L.locals_by(isset)[0].t["has"]

    def queues(L):
        return [a.t for a in L.locals_by(isqueue)]

    def l0(L):
        V, W = vis(L), queues(L)[0]
        yield from common(V, [("waiting", W)])
        yield "done or waiting", Implies(V[gs], Or(And(Not(acc[gs]), Implies(is_e, V[t])), inq(W, gs)))
    c.loop(0, l0)

    def done(L, V, now):
        """now: whether the ghost transition of the current state is done"""
        C, N = queues(L)[:2]
        yield from common(V, [("current", C), ("next", N)])

    def pos(L, nth=0):
        cs = sorted([k for k in L.entry.vars if isinstance(k, str) and k.startswith("rk!")], key=lambda x: int(x.split("!")[1]))
        return L.st.vars[cs[nth]].t

    def l1(L):
        V = vis(L)
        C, N = queues(L)[:2]
        yield from done(L, V, None)
        yield "done or waiting", Implies(V[gs], Or(And(Not(acc[gs]), Implies(is_e, V[t])), inq(N, gs), inq(C, gs, L.K)))
    c.loop(1, l1)

    def inner(L, part):
        V = vis(L)
        C, N = queues(L)[:2]
        k = pos(L)
        yield from done(L, V, None)
        yield "done or waiting", Implies(V[gs], Or(And(Not(acc[gs]), Implies(is_e, V[t])), inq(N, gs), inq(C, gs, k + 1), And(C["at"][k] == gs, Not(acc[gs]), Implies(And(is_e, part(L)), V[t]))))

    c.loop(2, lambda L: inner(L, lambda L: ga < L.K))
    c.loop(3, lambda L: inner(L, lambda L: Or(ga < pos(L, 1), And(ga == pos(L, 1), ge < L.K))))
    yield
    r = c.result.t
    q = fi()
    c.ensures(Implies(Not(r), Exists([q], And(RR[q], acc[q]))), "not empty only if every set closed under transitions that contains the initial states contains an accepting one")
    vs = [x for d, x in sorted((d, x) for d, x in c.st.vars.items() if isinstance(d, int)) if isinstance(x, V) and isset(x.ty)]
    Vt = vs[0].t["has"]
    c.ensures(Implies(And(r, 0 <= gi, gi < IS["len"]), Vt[IS["at"][gi]]), "empty: the visited set contains the initial states")
    c.ensures(Implies(And(r, Vt[gs], is_e), Vt[t]), "empty: the visited set is closed under transitions")
    c.ensures(Implies(And(r, Vt[gs]), Not(acc[gs])), "empty: the visited set has no accepting state")


def update(c):
    h0, h = heapof(c, "ZAState", c.prest), None
    ht = heapof(c, "TAState", c.prest)
    c.modifies(c.this)
    c.modifies_heap("ZAState")
    S = c.old_this.t["states"]
    TI = c.arg(0).t
    q = fi()
    c.requires(refs_ok(c, S), "states are allocated")
    c.requires(ForAll([q], Implies(And(0 <= q, q < S["len"]), h0["taState"][S["at"][q]] != 0), patterns=[S["at"][q]]), "every state stems from a state of the timed automaton")
    gk, gq, gu, gr = c.ghost("k", I), c.ghost("q", I), c.ghost("u", I), c.ghost("other", I)
    s = S["at"][gk]
    isin = And(0 <= gk, gk < S["len"])
    ta = h0["taState"]
    u = fi()

    def hasi(W, s):
        q = fi()
        return Or(And(W["len"] > 0, W["at"][W["len"] - 1] == s), Exists([q], And(0 <= q, q < W["len"], W["at"][q] == s), **({"patterns": [W["at"][q]]} if z3.is_const(W["at"]) else {})))

    def listed(r):
        u = fi()
        return Exists([u], And(0 <= u, u < TI["len"], TI["at"][u] == r), patterns=[TI["at"][u]])

    def frame(st):
        h = heapof(c, "ZAState", st)
        yield "states kept", And(*[x == y for x, y in zip(leaves(c.arg_in(st, -1).t["states"]), leaves(S))]) if False else BoolVal(True)

    def keep(L):
        t = L.this.t["states"]
        yield "states kept", And(*[x == y for x, y in zip(leaves(t), leaves(S))])
        h = heapof(c, "ZAState", L.st)
        yield "graph kept", And(*[x == y for f in h if f != "isMatch" for x, y in zip(leaves(h[f]), leaves(h0[f]))])

    def sound(W):
        x = fi()
        return Implies(And(0 <= gq, gq < W["len"]), And(listed(ta[W["at"][gq]]), Exists([x], And(0 <= x, x < S["len"], S["at"][x] == W["at"][gq]), patterns=[S["at"][x]])))

    def l0(L):
        W = L.this.t["initialStates"]
        yield from keep(L)
        yield "length", W["len"] >= 0
        yield "initial", Implies(And(isin, gk < L.K, 0 <= gu, gu < TI["len"], TI["at"][gu] == ta[s]), hasi(W, s))
        yield "only these", sound(W)
        yield "flags untouched", heapof(c, "ZAState", L.st)["isMatch"] == h0["isMatch"]
    c.loop(0, l0)

    def l1(L):
        h = heapof(c, "ZAState", L.st)
        yield from keep(L)
        yield "initial states kept", And(*[x == y for x, y in zip(leaves(L.this.t["initialStates"]), leaves(c.acc_of(L.entry) if False else L.entry_acc(L.this).t["initialStates"]))])
        yield "flags", Implies(And(isin, gk < L.K), h["isMatch"][s] == ht["isMatch"][ta[s]])
    c.loop(1, l1)
    yield
    h1 = heapof(c, "ZAState")
    W = c.this.t["initialStates"]
    c.ensures(Implies(And(isin, 0 <= gu, gu < TI["len"], TI["at"][gu] == ta[s]), hasi(W, s)), "states of the given timed-automaton states are initial")
    c.ensures(sound(W), "and only these")
    c.ensures(Implies(isin, h1["isMatch"][s] == ht["isMatch"][ta[s]]), "accepting exactly if the timed-automaton state is")
    c.ensures(And(*[x == y for f in h1 if f != "isMatch" for x, y in zip(leaves(h1[f]), leaves(h0[f]))]), "transitions and zones untouched")


CONTRACTS = [
    Contract("epsilonClosure", closure),
    Contract("ZoneAutomaton::empty", empty),
    Contract("ZoneAutomaton::updateInitAccepting", update),
]
