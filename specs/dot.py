"""C12: from the graph that the DOT reader fills to the automaton (monaa/timed_automaton_parser.hh)"""
from common import *

Cnt = z3.Function("edges_before", I, I, I, I)
Init = z3.Function("initial_before", I, I)
Att = z3.Function("some_guard", I, I, z3.BoolSort())
Use = z3.Function("clock_used", I, z3.BoolSort())


def roots(t):
    """the array a chain of updates starts from"""
    while t.decl().kind() == z3.Z3_OP_STORE:
        t = t.arg(0)
    return t


def conv(c):
    G, h0, n0 = c.arg(0).t, heapof(c, "TAState", c.prest), c.prest.next
    V, st, ed = G["len"], G["at"]["first"], G["at"]["second"]
    deg, tgt, lab = ed["len"], ed["at"]["first"], ed["at"]["second"]
    rs, gd = lab["resetVars"]["resetVars"], lab["guard"]
    c.modifies(c.arg(1))
    c.modifies_heap("TAState")
    c.auto_frames = False
    v, e, k, x, a, b = (fi() for _ in range(6))
    inV = lambda v: And(0 <= v, v < V)
    inE = lambda v, e: And(inV(v), 0 <= e, e < deg[v])
    c.requires(ForAll([v, e], Implies(inE(v, e), inV(tgt[v][e])), patterns=[tgt[v][e]]), "edges of the graph end in its vertices")
    # definitions: how many edges of v before e carry letter x; how many vertices before v are initial
    c.given(ForAll([v, x], Cnt(v, x, 0) == 0, patterns=[Cnt(v, x, 0)]), "definition of edges_before")
    c.given(ForAll([v, x, e], Implies(e >= 0, Cnt(v, x, e + 1) == Cnt(v, x, e) + If(lab["c"][v][e] == x, 1, 0)), patterns=[z3.MultiPattern(Cnt(v, x, e), lab["c"][v][e])]), "definition of edges_before")
    c.given(Init(0) == 0, "definition of initial_before")
    c.given(ForAll([v], Implies(v >= 0, Init(v + 1) == Init(v) + If(st["isInit"][v], 1, 0)), patterns=[st["isInit"][v]]), "definition of initial_before")
    # the least relations with these closure properties: (clock, constant) of some guard; clock used by some guard or reset
    c.given(ForAll([v, e, k], Implies(And(inE(v, e), 0 <= k, k < gd["len"][v][e]), And(Att(gd["at"]["x"][v][e][k], gd["at"]["c"][v][e][k]), Use(gd["at"]["x"][v][e][k]))), patterns=[gd["at"]["x"][v][e][k]]), "definition of some_guard")
    c.given(ForAll([v, e, k], Implies(And(inE(v, e), 0 <= k, k < rs["len"][v][e]), Use(rs["at"][v][e][k])), patterns=[rs["at"][v][e][k]]), "definition of clock_used")
    gv, gc, ge, gg, gr, gx, go, gk = (c.ghost(n, I) for n in ("v", "letter", "e", "g", "r", "x", "o", "k"))
    c.given(inV(gv), "an arbitrary vertex")

    def same(tr, v, e, S, k):
        """transition tr is edge e of v (guards and resets position by position)"""
        fs = [tr["target"] == S[tgt[v][e]], tr["resetVars"]["len"] == rs["len"][v][e], tr["guard"]["len"] == gd["len"][v][e],
              Implies(And(0 <= k, k < rs["len"][v][e]), tr["resetVars"]["at"][k] == rs["at"][v][e][k])]
        fs += [Implies(And(0 <= k, k < gd["len"][v][e]), tr["guard"]["at"][f][k] == gd["at"][f][v][e][k]) for f in gd["at"]]
        return And(*fs)

    pick = lambda t, *ks: {f: pick(s, *ks) for f, s in t.items()} if isinstance(t, dict) else sel(t, *ks)

    def sel(t, *ks):
        for q in ks:
            t = t[q]
        return t

    def states(s, K):
        """the first K states are fresh, distinct and copies of their vertices; the initial ones are listed in order"""
        ta = Acc(c.ex, s, c.arg(1).lv).t
        S, N, h = ta["states"], ta["initialStates"], heapof(c, "TAState", s)
        q = fi()
        yield "one state per vertex", S["len"] == K
        yield "fresh states", ForAll([q], Implies(And(0 <= q, q < K), And(S["at"][q] >= n0, S["at"][q] < s.next)), **vpat(S["at"][q]))
        q, p = fi(), fi()
        ba = [roots(S["at"])]
        yield "distinct states", ForAll([q], Implies(And(0 <= q, q < K), ForAll([p], Implies(And(q < p, p < K), S["at"][q] < S["at"][p]), patterns=[b[p] for b in ba])), patterns=[b[q] for b in ba])
        yield "number of initial states", N["len"] == Init(K)
        yield "initial states in order", Implies(And(gv < K, st["isInit"][gv]), And(0 <= Init(gv), Init(gv) < N["len"], N["at"][Init(gv)] == S["at"][gv]))
        yield "acceptance", Implies(gv < K, h["isMatch"][S["at"][gv]] == st["isMatch"][gv])
        yield "dense", Implies(gv < K, Not(h["zeroDuration"][S["at"][gv]]))
        yield "old objects unchanged", Implies(And(0 < go, go < n0), And(*[p == q for p, q in zip(leaves(tselect(h, go)), leaves(tselect(h0, go)))]))

    def leaves(t):
        return [y for s in t.values() for y in leaves(s)] if isinstance(t, dict) else [t]

    def first(L):
        ta = Acc(c.ex, L.st, c.arg(1).lv).t
        K, m = L.local("first").t, L.local("stateConvMap").t
        yield "position", And(0 <= K, K <= V)
        yield from states(L.st, K)
        q = fi()
        yield "map", ForAll([q], Implies(And(0 <= q, q < K), And(m["has"][q], m["at"][q] == ta["states"]["at"][q])), **vpat(m["at"][q]))
        h = heapof(c, "TAState", L.st)
        yield "no transitions yet", Implies(gv < K, Not(h["next"]["has"][ta["states"]["at"][gv]][gc]))
        yield "no constants", ta["maxConstraints"]["len"] == 0

    def edges(h, S, up):
        """transitions of state gv for letter gc: its edges below up with that letter, in order"""
        nx, r = h["next"], S[gv]
        n = Cnt(gv, gc, up)
        yield "number of transitions", If(nx["has"][r][gc], nx["at"]["len"][r][gc], 0) == n
        tr = pick(nx["at"]["at"], r, gc, Cnt(gv, gc, ge))
        yield "transitions", Implies(And(0 <= ge, ge < up, lab["c"][gv][ge] == gc), And(nx["has"][r][gc], Cnt(gv, gc, ge) < n, same(tr, gv, ge, S, gk)))

    def consts(M, done):
        """done: the edge ge of gv has been handled, its guard gg and reset gr in particular"""
        g, r = done
        x = gd["at"]["x"][gv][ge][gg]
        yield "constant of a guard", Implies(And(g, 0 <= gg, gg < gd["len"][gv][ge]), And(x < M["len"], M["at"][x] >= gd["at"]["c"][gv][ge][gg]))
        yield "clock of a reset", Implies(And(r, 0 <= gr, gr < rs["len"][gv][ge]), rs["at"][gv][ge][gr] < M["len"])
        yield "constants of guards", Implies(And(0 <= gx, gx < M["len"]), And(M["at"][gx] >= 0, Or(M["at"][gx] == 0, Att(gx, M["at"][gx]))))
        yield "clocks that are used", And(M["len"] >= 0, Or(M["len"] == 0, Use(M["len"] - 1)))

    def inner(L, which):
        ta = Acc(c.ex, L.st, c.arg(1).lv).t
        K, m, h = L.local("first").t, L.local("stateConvMap").t, heapof(c, "TAState", L.st)
        S = ta["states"]["at"]
        yield "position", (And(0 <= K, K <= V) if which == 1 else And(0 <= K, K < V))
        yield from states(L.st, V)
        q = fi()
        yield "map", ForAll([q], Implies(And(0 <= q, q < V), And(m["has"][q], m["at"][q] == ta["states"]["at"][q])), **vpat(m["at"][q]))
        yield "map of targets", forall_tgt(m, S)
        if which == 1:
            up = If(gv < K, deg[gv], 0)
        else:
            E = L.local("firstEdge").t
            yield "place", And(E["first"] == K, 0 <= E["second"], E["second"] <= deg[K] if which == 2 else E["second"] < deg[K])
            up = If(gv < K, deg[gv], If(gv == K, E["second"], 0))
        yield from edges(h, S, up)
        done = And(0 <= ge, ge < up)
        if which == 3:
            now = And(gv == K, ge == E["second"])
            yield from consts(ta["maxConstraints"], (Or(done, And(now, gg < L.K)), done))
        elif which == 4:
            now = And(gv == K, ge == E["second"])
            yield from consts(ta["maxConstraints"], (Or(done, now), Or(done, And(now, gr < L.K))))
        else:
            yield from consts(ta["maxConstraints"], (done, done))

    def forall_tgt(m, S):
        a, b = fi(), fi()
        return ForAll([a, b], Implies(inE(a, b), inV(tgt[a][b])), patterns=[tgt[a][b]])

    c.loop(0, first)
    for n in (1, 2, 3, 4):
        c.loop(n, lambda L, n=n: inner(L, n))
    yield
    ta, h = c.arg(1).t, heapof(c, "TAState")
    for n, f in states(c.st, V):
        c.ensures(f, n)
    for n, f in edges(h, ta["states"]["at"], deg[gv]):
        c.ensures(f, n)
    d = And(0 <= ge, ge < deg[gv])
    for n, f in consts(ta["maxConstraints"], (d, d)):
        c.ensures(f, n)


CONTRACTS = [Contract("convBoostTA", conv)]
