"""C11: automata of timed regular expressions (monaa/tre.cc)"""
from common import *
from execu import MIterV

Off = z3.Function("copies_before", I, I, I, I)


def pick(t, *ks):
    if isinstance(t, dict):
        return {f: pick(s, *ks) for f, s in t.items()}
    for q in ks:
        t = t[q]
    return t


def leaves(t):
    return [y for s in t.values() for y in leaves(s)] if isinstance(t, dict) else [t]


def same(a, b):
    return And(*[p == q for p, q in zip(leaves(a), leaves(b))])


def cat2(c):
    h0, n0 = heapof(c, "TAState", c.prest), c.prest.next
    L0, R0 = c.arg(0).t, c.arg(1).t
    A1, A2, I1, I2 = L0["states"], R0["states"], L0["initialStates"], R0["initialStates"]
    M1, M2 = L0["maxConstraints"], R0["maxConstraints"]
    n2, nI = M2["len"], I2["len"]
    nx0 = h0["next"]
    c.modifies(c.arg(0))
    c.modifies_heap("TAState")
    c.auto_frames = False
    for nm, S in (("states of the left", A1), ("initial states of the left", I1), ("initial states of the right", I2)):
        c.requires(refs_ok(c, S), nm + " automaton are allocated")
    a, b, e = fi(), fi(), fi()
    c.requires(ForAll([a, b], Implies(And(0 <= a, a < A1["len"], 0 <= b, b < A1["len"], A1["at"][a] == A1["at"][b]), a == b), patterns=[z3.MultiPattern(A1["at"][a], A1["at"][b])]), "states of the left automaton are distinct")
    c.requires(n2 <= 256, "clocks fit one byte")
    tgt0 = lambda s, x, e: nx0["at"]["at"]["target"][s][x][e]
    acc = lambda s, x, e: And(tgt0(s, x, e) != 0, h0["isMatch"][tgt0(s, x, e)])
    len0 = lambda s, x: nx0["at"]["len"][s][x]
    c.given(ForAll([a, b], len0(a, b) >= 0, patterns=[len0(a, b)]), "vectors have a length")
    c.given(ForAll([a, b], Off(a, b, 0) == 0, patterns=[Off(a, b, 0)]), "definition of copies_before")
    c.given(ForAll([a, b, e], Implies(e >= 0, Off(a, b, e + 1) == Off(a, b, e) + If(acc(a, b, e), nI, 0)), patterns=[z3.MultiPattern(Off(a, b, e), tgt0(a, b, e))]), "definition of copies_before")
    # the least sets with these closure properties: states of the left automaton, initial states of the right one
    InL, InR = c.ghost("InL", z3.ArraySort(I, z3.BoolSort())), c.ghost("InR", z3.ArraySort(I, z3.BoolSort()))
    c.given(ForAll([a], Implies(And(0 <= a, a < A1["len"]), InL[A1["at"][a]]), patterns=[A1["at"][a]]), "InL: states of the left automaton")
    c.given(ForAll([a], Implies(And(0 <= a, a < nI), InR[I2["at"][a]]), patterns=[I2["at"][a]]), "InR: initial states of the right automaton")
    gi, gc, ge, gu, gk, gj, gx, go = (c.ghost(n, I) for n in ("i", "letter", "e", "u", "k", "j", "x", "o"))
    c.given(And(0 <= gi, gi < A1["len"]), "an arbitrary state of the left automaton")
    s = A1["at"][gi]
    here = And(nx0["has"][s][gc], 0 <= ge, ge < len0(s, gc))

    def edge(h, s, x, j):
        return pick(h["next"]["at"]["at"], s, x, j)

    def eqedge(t, u, k):
        """same transition (resets and guards at position k)"""
        fs = [t["target"] == u["target"], t["resetVars"]["len"] == u["resetVars"]["len"], t["guard"]["len"] == u["guard"]["len"], t["resetVars"]["at"][k] == u["resetVars"]["at"][k]]
        return And(*(fs + [t["guard"]["at"][f][k] == u["guard"]["at"][f][k] for f in t["guard"]["at"]]))

    def copy(t, u):
        """t is u redirected to the initial state gu of the right automaton, resetting all of its clocks"""
        fs = [t["target"] == I2["at"][gu], t["resetVars"]["len"] == n2, t["guard"]["len"] == u["guard"]["len"],
              Implies(And(0 <= gk, gk < n2), t["resetVars"]["at"][gk] == gk)]
        return And(*(fs + [t["guard"]["at"][f][gk] == u["guard"]["at"][f][gk] for f in t["guard"]["at"]]))

    def letters(h, done):
        """transitions of state s with letter gc"""
        yield "letters", h["next"]["has"][s][gc] == nx0["has"][s][gc]
        ln = h["next"]["at"]["len"][s][gc]
        yield "number of transitions", Implies(nx0["has"][s][gc], ln == len0(s, gc) + If(done, Off(s, gc, len0(s, gc)), 0))
        yield "old transitions", Implies(here, eqedge(edge(h, s, gc, ge), edge(h0, s, gc, ge), gk))
        j = len0(s, gc) + Off(s, gc, ge) + gu
        yield "new transitions", Implies(And(here, done, acc(s, gc, ge), 0 <= gu, gu < nI), And(j < ln, copy(edge(h, s, gc, j), edge(h0, s, gc, ge))))

    def entered(h, done):
        yield "entered states may last", Implies(And(here, done, acc(s, gc, ge), 0 <= gu, gu < nI), Not(h["zeroDuration"][I2["at"][gu]]))
        yield "zero durations elsewhere", Implies(Not(InR[go]), h["zeroDuration"][go] == h0["zeroDuration"][go])
        yield "transitions elsewhere", Implies(Not(InL[go]), And(h["next"]["has"][go][gc] == nx0["has"][go][gc], same(pick(h["next"]["at"], go, gc), pick(nx0["at"], go, gc))))

    def where(L):
        en = L.enclosing
        I_ = en[0][0]
        K1, o = (en[1][0], en[1][1]) if len(en) > 1 else (None, None)
        return en, I_, K1, o

    def phase1(L, n):
        h = heapof(c, "TAState", L.st)
        en, I_, K1, o = where(L)
        yield "acceptance is kept", h["isMatch"] == h0["isMatch"]
        yield "position", And(0 <= I_, I_ <= A1["len"] if n == 0 else I_ < A1["len"])
        done = gi < I_
        q, x = fi(), fi()
        yield "states to come", ForAll([q], Implies(And((I_ if n == 0 else I_ + 1) <= q, q < A1["len"]), same(pick(h["next"], A1["at"][q]), pick(nx0, A1["at"][q]))), patterns=[A1["at"][q]])
        if n >= 1:
            sc = A1["at"][I_]
            yield "letters of the state", h["next"]["has"][sc] == nx0["has"][sc]
            yield "letters to come", ForAll([x], Implies(And(nx0["has"][sc][x], o["idx"](x) >= (K1 if n == 1 else K1 + 1)), same(pick(h["next"]["at"], sc, x), pick(nx0["at"], sc, x))), patterns=[o["idx"](x)])
        if n >= 2:
            lc = o["at"][K1]
            yield "transitions of the letter", same(pick(h["next"]["at"], sc, lc), pick(nx0["at"], sc, lc))
        if n >= 1:
            done = Or(done, And(gi == I_, o["idx"](gc) < K1))
        yield from letters(h, done)
        d2 = done
        if n >= 2:
            cur = And(gi == I_, nx0["has"][s][gc], o["idx"](gc) == K1)
            E = en[2][0]
            N = L.locals_by(lambda ty: ty[0] == "vec" and ty[1][0] == "rec" and "TATransition" in ty[1][1])[-1].t
            sc, lc = A1["at"][I_], o["at"][K1]
            more = 0 if n == 2 else en[3][0]
            yield "letter", And(0 <= K1, K1 < o["len"], nx0["has"][sc][lc])
            yield "edge", And(0 <= E, E <= len0(sc, lc) if n == 2 else E < len0(sc, lc))
            yield "number of copies", N["len"] == Off(sc, lc, E) + more
            part = Or(ge < E, And(ge == E, gu < more)) if n == 3 else ge < E
            j = Off(s, gc, ge) + gu
            yield "room", Implies(And(here, cur, acc(s, gc, ge), ge < E), And(Off(s, gc, ge) >= 0, Off(s, gc, ge) + nI <= Off(sc, lc, E)))
            yield "more copies", Off(sc, lc, E) >= 0
            yield "copies", Implies(And(here, cur, acc(s, gc, ge), 0 <= gu, gu < nI, part), And(0 <= j, j < N["len"], copy(pick(N["at"], j), edge(h0, s, gc, ge))))
            d2 = Or(done, And(cur, part))
            if n == 3:
                yield "accepting", acc(sc, lc, E)
        yield from entered(h, d2)

    for n in range(4):
        c.loop(n, lambda L, n=n: phase1(L, n))

    def l4(L):
        h = heapof(c, "TAState", L.st)
        hb = heapof(c, "TAState", L.entry)
        yield "the rest is kept", And(h["zeroDuration"] == hb["zeroDuration"], same(h["next"], hb["next"]))
        yield "left states do not accept", Implies(gi < L.K, Not(h["isMatch"][s]))
        yield "acceptance elsewhere", Implies(Not(InL[go]), h["isMatch"][go] == h0["isMatch"][go])
    c.loop(4, l4)
    big = If(M1["len"] > n2, M1["len"], n2)
    m1, m2 = If(gx < M1["len"], M1["at"][gx], 0), If(gx < n2, M2["at"][gx], 0)
    mx = If(m1 >= m2, m1, m2)

    def l5(L):
        M = Acc(c.ex, L.st, c.arg(0).lv).t["maxConstraints"]
        i = L.local("i").t
        yield "position", And(0 <= i, i <= big)
        yield "clocks", M["len"] == big
        yield "constants", Implies(And(0 <= gx, gx < big), M["at"][gx] == If(gx < i, mx, m1))
    c.loop(5, l5)
    yield
    h = heapof(c, "TAState")
    T = c.arg(0).t
    for n, f in letters(h, BoolVal(True)):
        c.ensures(f, n)
    for n, f in entered(h, BoolVal(True)):
        c.ensures(f, n)
    c.ensures(Not(h["isMatch"][s]), "left states do not accept")
    c.ensures(Implies(Not(InL[go]), h["isMatch"][go] == h0["isMatch"][go]), "acceptance elsewhere")
    S, N = T["states"], T["initialStates"]
    c.ensures(S["len"] == A1["len"] + A2["len"], "number of states")
    c.ensures(S["at"][gi] == s, "states of the left automaton")
    c.ensures(Implies(And(0 <= gj, gj < A2["len"]), S["at"][A1["len"] + gj] == A2["at"][gj]), "states of the right automaton")
    q = fi()
    eps = exists_idx(I1["len"], lambda q: h0["isMatch"][I1["at"][q]])
    c.ensures(N["len"] == I1["len"] + If(eps, nI, 0), "number of initial states")
    c.ensures(Implies(And(0 <= gj, gj < I1["len"]), N["at"][gj] == I1["at"][gj]), "initial states of the left automaton")
    c.ensures(Implies(And(eps, 0 <= gj, gj < nI), N["at"][I1["len"] + gj] == I2["at"][gj]), "initial states of the right automaton")
    c.ensures(T["maxConstraints"]["len"] == big, "clocks")
    c.ensures(Implies(And(0 <= gx, gx < big), T["maxConstraints"]["at"][gx] == mx), "constants")


def stuck(c):
    h0, n0 = heapof(c, "TAState", c.prest), c.prest.next
    A, N0 = c.arg(0).t["states"], c.arg(0).t["initialStates"]
    nx0 = h0["next"]
    c.modifies(c.arg(0))
    c.modifies_heap("TAState")
    c.auto_frames = False
    for nm, S in (("states", A), ("initial states", N0)):
        c.requires(refs_ok(c, S), nm + " are allocated")
    a, b = fi(), fi()
    c.requires(ForAll([a, b], Implies(And(0 <= a, a < A["len"], 0 <= b, b < A["len"], A["at"][a] == A["at"][b]), a == b), patterns=[z3.MultiPattern(A["at"][a], A["at"][b])]), "states are distinct")
    len0 = lambda s, x: nx0["at"]["len"][s][x]
    c.given(ForAll([a, b], len0(a, b) >= 0, patterns=[len0(a, b)]), "vectors have a length")
    # stuck: not accepting and without letters
    Stuck = z3.Function("stuck", I, z3.BoolSort())
    Letters = z3.Function("some_letter", I, I)
    x = fi()
    c.given(ForAll([a, x], Implies(And(nx0["has"][a][x], Stuck(a)), False), patterns=[z3.MultiPattern(nx0["has"][a][x], Stuck(a))]), "definition of stuck")
    c.given(ForAll([a], Stuck(a) == And(Not(h0["isMatch"][a]), Not(nx0["has"][a][Letters(a)])), patterns=[Stuck(a)]), "definition of stuck")
    InA = c.ghost("InA", z3.ArraySort(I, z3.BoolSort()))
    c.given(ForAll([a], Implies(And(0 <= a, a < A["len"]), InA[A["at"][a]]), patterns=[A["at"][a]]), "InA: the least set containing the states")
    gi, gc, ge, gj, gt, go = (c.ghost(n, I) for n in ("i", "letter", "e", "j", "t", "o"))
    c.given(And(0 <= gi, gi < A["len"], 0 <= gt, gt < A["len"]), "arbitrary states")
    s, t = A["at"][gi], A["at"][gt]
    edge = lambda h, s, x, j: pick(h["next"]["at"]["at"], s, x, j)

    def filtered(h, done):
        """letter gc of s: the old transitions, without those into stuck states once done"""
        ln = h["next"]["at"]["len"][s][gc]
        e0 = edge(h0, s, gc, ge)
        q = fi()
        has0 = nx0["has"][s][gc]
        yield "kept transitions", Implies(And(has0, 0 <= ge, ge < len0(s, gc), Not(Stuck(e0["target"]))), Exists([q], And(0 <= q, q < ln, same(edge(h, s, gc, q), e0)), patterns=[edge(h, s, gc, q)["target"]]))
        e1 = edge(h, s, gc, gj)
        q = fi()
        yield "only old transitions", Implies(And(has0, 0 <= gj, gj < ln), Exists([q], And(0 <= q, q < len0(s, gc), same(e1, edge(h0, s, gc, q))), patterns=[edge(h0, s, gc, q)["target"]]))
        yield "no transition into a stuck state", Implies(And(has0, done, 0 <= gj, gj < ln, Stuck(t)), e1["target"] != t)

    def phase(L, n):
        h = heapof(c, "TAState", L.st)
        en = L.enclosing
        I_ = en[0][0]
        q, x = fi(), fi()
        W = L.locals_by(lambda ty: ty[0] == "vec" and ty[1][0] in ("ptr", "ref"))[0].t
        yield "acceptance is kept", h["isMatch"] == h0["isMatch"]
        yield "zero durations are kept", h["zeroDuration"] == h0["zeroDuration"]
        if n == 0:
            K = L.K
            q = fi()
            yield "collected states are stuck", ForAll([q], Implies(And(0 <= q, q < W["len"]), And(W["at"][q] != 0, Stuck(W["at"][q]))), **vpat(W["at"][q]))
            q = fi()
            w = W["len"] - 1
            yield "stuck states are collected", Implies(And(gt < K, Stuck(t)), Or(And(w >= 0, W["at"][w] == t), Exists([q], And(0 <= q, q < W["len"], W["at"][q] == t), **vpat(W["at"][q]))))
            return
        yield "position", And(0 <= I_, I_ <= A["len"] if n == 1 else I_ < A["len"])
        yield "states to come", ForAll([q], Implies(And((I_ if n == 1 else I_ + 1) <= q, q < A["len"]), And(h["next"]["has"][A["at"][q]] == nx0["has"][A["at"][q]], same(pick(h["next"]["at"], A["at"][q]), pick(nx0["at"], A["at"][q])))), patterns=[A["at"][q]])
        done, cleaned = gi < I_, gi < I_
        if n == 2:
            K1, o = en[1][0], en[1][1]
            sc = A["at"][I_]
            yield "letters of the state", h["next"]["has"][sc] == nx0["has"][sc]
            yield "letters to come", ForAll([x], Implies(And(nx0["has"][sc][x], o["idx"](x) >= K1), same(pick(h["next"]["at"], sc, x), pick(nx0["at"], sc, x))), patterns=[o["idx"](x)])
            done = Or(done, And(gi == I_, o["idx"](gc) < K1))
        if n == 3:
            it = [x for d_, x in L.st.vars.items() if isinstance(x, MIterV) and getattr(x, "order", None) is not None][-1]
            o, i = it.order
            yield "place", And(0 <= i, i <= o["len"])
            done = gi <= I_
            cleaned = Or(cleaned, And(gi == I_, o["idx"](gc) < i))
        yield from filtered(h, done)
        yield from letters(h, done, cleaned)
        yield from elsewhere(h)

    def letters(h, done, cleaned):
        hs, ln = h["next"]["has"][s][gc], h["next"]["at"]["len"][s][gc]
        yield "letters", And(Implies(hs, nx0["has"][s][gc]), Implies(And(nx0["has"][s][gc], ln > 0), hs), ln >= 0)
        yield "letters without transitions are removed", Implies(And(cleaned, hs), ln > 0)

    def elsewhere(h):
        yield "transitions elsewhere", Implies(Not(InA[go]), And(h["next"]["has"][go][gc] == nx0["has"][go][gc], same(pick(h["next"]["at"], go, gc), pick(nx0["at"], go, gc))))

    for n in range(4):
        c.loop(n, lambda L, n=n: phase(L, n))
    yield
    h = heapof(c, "TAState")
    c.ensures(And(h["isMatch"] == h0["isMatch"], h["zeroDuration"] == h0["zeroDuration"]), "flags are kept")
    for n, f in list(filtered(h, BoolVal(True))) + list(letters(h, BoolVal(True), BoolVal(True))) + list(elsewhere(h)):
        c.ensures(f, n)
    for nm, S0, S in (("states", A, c.arg(0).t["states"]), ("initial states", N0, c.arg(0).t["initialStates"])):
        q = fi()
        y = S0["at"][gj]
        c.ensures(Implies(And(0 <= gj, gj < S0["len"], Not(Stuck(y))), exists_pat(S["len"], S["at"], lambda q: S["at"][q] == y)), nm + " that are not stuck stay")
        y1 = S["at"][gj]
        c.ensures(Implies(And(0 <= gj, gj < S["len"]), exists_pat(S0["len"], S0["at"], lambda q: S0["at"][q] == y1)), "only old " + nm)
        c.ensures(Implies(And(0 <= gj, gj < S["len"], Stuck(t)), y1 != t), "no stuck " + nm)


CONTRACTS = [Contract("concat2", cat2), Contract("removeStuckStates", stuck)]
