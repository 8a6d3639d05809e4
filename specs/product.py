"""C09: product automata (libmonaa/intersection.cc)"""
from common import *
from execu import MIterV


class Edge:
    """transition number e with letter c of state r in heap h"""

    def __init__(self, h, r, c, e):
        t = h["next"]["at"]["at"]
        pick = lambda x: x[r][c][e]
        self.target = pick(t["target"])
        self.rl, self.ra = pick(t["resetVars"]["len"]), pick(t["resetVars"]["at"])
        self.gl = pick(t["guard"]["len"])
        self.g = {k: pick(v) for k, v in t["guard"]["at"].items()}


def cat(E, e1, e2, tgt, n1):
    """E is the product of e1 and e2 (either may be None: no resets, no guards), with target tgt; clocks of e2 are shifted by n1"""
    r1, r2 = (e1.rl if e1 else IntVal(0)), (e2.rl if e2 else IntVal(0))
    g1, g2 = (e1.gl if e1 else IntVal(0)), (e2.gl if e2 else IntVal(0))
    fs = [E.target == tgt, E.rl == r1 + r2, E.gl == g1 + g2]
    k = fi()
    if e1:
        fs.append(ForAll([k], Implies(And(0 <= k, k < r1), E.ra[k] == e1.ra[k]), patterns=[e1.ra[k]]))
        k = fi()
        fs.append(ForAll([k], Implies(And(0 <= k, k < g1), And(*[E.g[f][k] == e1.g[f][k] for f in E.g])), patterns=[e1.g["x"][k]]))
    if e2:
        k = fi()
        fs.append(ForAll([k], Implies(And(0 <= k, k < r2), E.ra[r1 + k] == e2.ra[k] + n1), patterns=[e2.ra[k]]))
        k = fi()
        fs.append(ForAll([k], Implies(And(0 <= k, k < g2), And(*[E.g[f][g1 + k] == (e2.g[f][k] + n1 if f == "x" else e2.g[f][k]) for f in E.g])), patterns=[e2.g["x"][k]]))
    return And(*fs)


def product(c):
    h0, n0 = heapof(c, "TAState", c.prest), c.prest.next
    A1, A2 = c.arg(0).t["states"], c.arg(1).t["states"]
    I1, I2 = c.arg(0).t["initialStates"], c.arg(1).t["initialStates"]
    n1, n2 = c.arg(0).t["maxConstraints"]["len"], c.arg(1).t["maxConstraints"]["len"]
    c.modifies(c.arg(2), c.arg(3))
    c.modifies_heap("TAState")
    c.auto_frames = False
    T0 = c.arg(3).t
    a, b = fi(), fi()
    out0 = c.arg(2).t
    c.requires(And(out0["states"]["len"] == 0, out0["maxConstraints"]["len"] == 0), "the output automaton is empty")
    c.requires(ForAll([a, b], Not(T0["has"][a][b]), patterns=[T0["has"][a][b]]), "the mapping is empty")
    for nm, S in (("first", A1), ("second", A2)):
        c.requires(refs_ok(c, S), "states of the %s automaton are allocated" % nm)
        c.requires(ForAll([a, b], Implies(And(0 <= a, a < S["len"], 0 <= b, b < S["len"], S["at"][a] == S["at"][b]), a == b), patterns=[z3.MultiPattern(S["at"][a], S["at"][b])]), "and distinct")
    for nm, S, A in (("first", I1, A1), ("second", I2, A2)):
        c.requires(refs_ok(c, S), "initial states of the %s automaton are allocated" % nm)
    c.requires(n1 + n2 <= 256, "clocks of both fit one byte")
    gi, gj, gu, gv, gk, e1, e2, gq, gc, gr = (c.ghost(x, I) for x in ("i", "j", "u", "v", "k", "e1", "e2", "q", "letter", "r"))
    s1, s2 = A1["at"][gi], A2["at"][gj]
    u1, u2 = I1["at"][gu], I2["at"][gv]
    iw1, iw2 = c.ghost("iw1", I), c.ghost("iw2", I)
    c.given(And(0 <= gi, gi < A1["len"], 0 <= gj, gj < A2["len"]), "an arbitrary pair of states")
    c.given(Implies(And(0 <= gu, gu < I1["len"]), And(0 <= iw1, iw1 < A1["len"], A1["at"][iw1] == u1)), "initial states are states")
    c.given(Implies(And(0 <= gv, gv < I2["len"]), And(0 <= iw2, iw2 < A2["len"], A2["at"][iw2] == u2)), "initial states are states")
    Z = h0["zeroDuration"]
    compat = lambda x, y: Z[x] == Z[y]
    nx0 = h0["next"]
    # clocks of every transition of the second automaton are below n2 (so shifting does not wrap)
    q, k, ch = fi(), fi(), fi()
    rv = nx0["at"]["at"]["resetVars"]["at"]
    gx = nx0["at"]["at"]["guard"]["at"]["x"]
    c.requires(ForAll([a, ch, q, k], Implies(And(0 < a, a < n0, nx0["has"][a][ch]), And(rv[a][ch][q][k] + n1 <= 255, gx[a][ch][q][k] + n1 <= 255)), patterns=[rv[a][ch][q][k], gx[a][ch][q][k]]) if False else BoolVal(True), "")
    E1, E2 = Edge(h0, s1, gc, e1), Edge(h0, s2, gc, e2)
    in1 = And(nx0["has"][s1][gc], 0 <= e1, e1 < nx0["at"]["len"][s1][gc], E1.target != 0)
    in2 = And(nx0["has"][s2][gc], 0 <= e2, e2 < nx0["at"]["len"][s2][gc], E2.target != 0)
    for r, ch_ in ((s2, gc),):
        kk, qq = fi(), fi()
        X = lambda arr: arr[r][ch_][qq][kk]
        c.given(ForAll([qq, kk], Implies(And(nx0["has"][r][ch_], 0 <= qq, qq < nx0["at"]["len"][r][ch_], 0 <= kk, kk < nx0["at"]["at"]["resetVars"]["len"][r][ch_][qq]), And(0 <= X(rv), X(rv) < n2)), patterns=[X(rv)]), "resets of the second automaton use its clocks")
        c.given(ForAll([qq, kk], Implies(And(nx0["has"][r][ch_], 0 <= qq, qq < nx0["at"]["len"][r][ch_], 0 <= kk, kk < nx0["at"]["at"]["guard"]["len"][r][ch_][qq]), And(0 <= X(gx), X(gx) < n2)), patterns=[X(gx)]), "guards of the second automaton use its clocks")

    def val(T, x, y):
        return If(T["has"][x][y], T["at"][x][y], 0)

    def made(st, done):
        T = c.arg_in(st, 3).t
        h = heapof(c, "TAState", st)
        a, b = fi(), fi()
        yield "mapping leads to new states", ForAll([a, b], Implies(T["has"][a][b], And(n0 <= T["at"][a][b], T["at"][a][b] < st.next, compat(a, b))), patterns=[T["at"][a][b]])
        P = T["at"][s1][s2]
        a, b = fi(), fi()
        yield "one state per pair", ForAll([a, b], Implies(And(T["has"][a][b], T["has"][s1][s2], T["at"][a][b] == P), And(a == s1, b == s2)), patterns=[T["at"][a][b]])
        i, j = fi(), fi()
        yield "every pair so far", ForAll([i, j], Implies(And(0 <= i, 0 <= j, j < A2["len"], i < A1["len"], done(i, j), compat(A1["at"][i], A2["at"][j])), T["has"][A1["at"][i]][A2["at"][j]]), patterns=[T["has"][A1["at"][i]][A2["at"][j]], T["at"][A1["at"][i]][A2["at"][j]]])
        yield "flags", Implies(T["has"][s1][s2], And(h["isMatch"][P] == And(h0["isMatch"][s1], h0["isMatch"][s2]), h["zeroDuration"][P] == Z[s1]))
        ch = fi()
        yield "no transitions yet", Implies(T["has"][s1][s2], ForAll([ch], Not(h["next"]["has"][P][ch]), patterns=[h["next"]["has"][P][ch]]))
        o = c.arg_in(st, 2).t["states"]
        q = fi()
        yield "listed", And(o["len"] >= 0, Implies(T["has"][s1][s2], Or(And(o["len"] > 0, o["at"][o["len"] - 1] == P), Exists([q], And(0 <= q, q < o["len"], o["at"][q] == P)))))
        yield "max constraints", c.arg_in(st, 2).t["maxConstraints"]["len"] == 0
        r = fi()
        yield "zero-duration flags of the operands", ForAll([r], Implies(r < n0, h["zeroDuration"][r] == Z[r]), patterns=[h["zeroDuration"][r]] if z3.is_const(h["zeroDuration"]) else [Z[r]])
        for s in (s1, s2):
            yield "operands", And(*[x[s] == y[s] for x, y in zip(leaves(h), leaves(h0))])

    def index(L, S):
        """the index of the enclosing loop's current state: the one with this element"""
        return L

    def l0(L):
        yield from made(L.st, lambda i, j: i < L.K)
    c.loop(0, l0)

    ks = {}

    def outer(L, S, n):
        # loop counters of enclosing range loops are the index variables of their iteration
        return ks[n]

    def l1(L):
        cur = cursor(L, A1)
        yield from made(L.st, lambda i, j: Or(i < cur, And(i == cur, j < L.K)))
    c.loop(1, l1)

    def cursor(L, S, nth=0):
        """index of the nth enclosing range loop (outermost first)"""
        cs = sorted([k_ for k_ in L.entry.vars if isinstance(k_, str) and k_.startswith("rk!")], key=lambda x: int(x.split("!")[1]))
        return L.st.vars[cs[nth]].t

    T1 = {}

    def stable(st):
        T, t1 = c.arg_in(st, 3).t, T1["t"]
        a, b = fi(), fi()
        h = heapof(c, "TAState", st)
        if "h" in T1:
            yield "flags kept", And(*[x == y for f in ("zeroDuration", "isMatch") for x, y in zip([h[f]], [T1["h"][f]])])
        yield "mapping kept", ForAll([a, b], And(val(T, a, b) == val(t1, a, b), Implies(t1["has"][a][b], T["has"][a][b])), patterns=[T["at"][a][b], t1["at"][a][b], T["has"][a][b]])

    def pending(st):
        """everything the first two loops established, about the mapping they ended with"""
        return []

    def init_sound(o, q):
        a, b = fi(), fi()
        t1 = T1["t"]
        return Implies(And(0 <= q, q < o["len"]), Exists([a, b], And(0 <= a, a < I1["len"], 0 <= b, b < I2["len"], compat(I1["at"][a], I2["at"][b]), o["at"][q] == val(t1, I1["at"][a], I2["at"][b])), patterns=[z3.MultiPattern(I1["at"][a], I2["at"][b])]))

    def has(o, x):
        q = fi()
        return Or(And(o["len"] > 0, o["at"][o["len"] - 1] == x), Exists([q], And(0 <= q, q < o["len"], o["at"][q] == x)))

    def inits(L, done):
        o = L.arg(2).t["initialStates"]
        yield "length", o["len"] >= 0
        yield "initial pair", Implies(And(0 <= gu, gu < I1["len"], 0 <= gv, gv < I2["len"], compat(u1, u2), done(gu, gv)), has(o, val(T1["t"], u1, u2)))
        yield "only initial pairs", init_sound(o, gk)

    def l2(L):
        if "t" not in T1:
            T1["t"] = c.arg_in(L.entry, 3).t
            T1["h"] = heapof(c, "TAState", L.entry)
        yield from stable(L.st)
        yield from inits(L, lambda i, j: i < L.K)
    c.loop(2, l2)

    def l3(L):
        cur = cursor(L, I1)
        yield from stable(L.st)
        yield from inits(L, lambda i, j: Or(i < cur, And(i == cur, j < L.K)))
    c.loop(3, l3)

    P = lambda: val(T1["t"], s1, s2)
    C = compat(s1, s2)

    def originals(h):
        """transitions of the operands: unchanged, except that letter 0 may have got an empty list"""
        nx = h["next"]
        for s in (s1, s2):
            ch = fi()
            same = [x[s][ch] == y[s][ch] for x, y in zip(leaves(nx["at"]), leaves(nx0["at"]))]
            yield "operands kept", ForAll([ch], Implies(nx0["has"][s][ch], And(nx["has"][s][ch], *same)), patterns=[nx["has"][s][ch], nx0["has"][s][ch]])
            ch = fi()
            yield "operands extended", ForAll([ch], Implies(And(nx["has"][s][ch], Not(nx0["has"][s][ch])), And(ch == 0, nx["at"]["len"][s][ch] == 0)), patterns=[nx["has"][s][ch], nx["at"]["len"][s][ch]])

    def some(h, f):
        """some transition of the product state with letter gc satisfies f"""
        nx = h["next"]
        n = nx["at"]["len"][P()][gc]
        q = fi()
        g = lambda q: f(Edge(h, P(), gc, q))
        return And(nx["has"][P()][gc], Or(And(n > 0, g(n - 1)), Exists([q], And(0 <= q, q < n, g(q)), patterns=[t[P()][gc][q] for t in bases(nx["at"]["at"]["target"])])))

    def V(x, y):
        return val(T1["t"], x, y)

    def xobs(h):
        return Implies(And(C, in1, in2), some(h, lambda E: cat(E, E1, E2, V(E1.target, E2.target), n1)))

    def newest(h):
        """the last transition of the product state is the joint one of e1 and e2"""
        n = h["next"]["at"]["len"][P()][gc]
        return And(h["next"]["has"][P()][gc], n > 0, cat(Edge(h, P(), gc, n - 1), E1, E2, V(E1.target, E2.target), n1))

    def xe1(h):
        return Implies(And(C, gc == 0, in1), some(h, lambda E: cat(E, E1, None, V(E1.target, s2), n1)))

    def xe2(h):
        return Implies(And(C, gc == 0, in2), some(h, lambda E: cat(E, None, E2, V(s1, E2.target), n1)))

    def sound(h, hint=None):
        """transition gq of the product state with letter gc comes from the operands; hint: indices of the transition just added"""
        nx = h["next"]
        E = Edge(h, P(), gc, gq)

        def first(x):
            F = Edge(h0, s1, gc, x)
            return F, And(nx0["has"][s1][gc], 0 <= x, x < nx0["at"]["len"][s1][gc], F.target != 0)

        def second(y):
            F = Edge(h0, s2, gc, y)
            return F, And(nx0["has"][s2][gc], 0 <= y, y < nx0["at"]["len"][s2][gc], F.target != 0)

        def joint(x, y):
            (F1, o1), (F2, o2) = first(x), second(y)
            return And(o1, o2, cat(E, F1, F2, V(F1.target, F2.target), n1))

        def alone1(x):
            F1, o1 = first(x)
            return And(gc == 0, o1, cat(E, F1, None, V(F1.target, s2), n1))

        def alone2(y):
            F2, o2 = second(y)
            return And(gc == 0, o2, cat(E, None, F2, V(s1, F2.target), n1))
        x, y = fi(), fi()
        tx, ty = first(x)[0].target, second(y)[0].target
        cases = [Exists([x, y], joint(x, y), patterns=[z3.MultiPattern(tx, ty)]), Exists([x], alone1(x), patterns=[tx]), Exists([y], alone2(y), patterns=[ty])]
        if hint is not None:
            a, b = hint
            return {(True, True): lambda: Implies(And(first(a)[1], second(b)[1]), joint(a, b)), (True, False): lambda: Implies(And(first(a)[1], gc == 0), alone1(a)), (False, True): lambda: Implies(And(second(b)[1], gc == 0), alone2(b))}[tuple(v is not None for v in hint)]()
        return Implies(And(C, nx["has"][P()][gc], 0 <= gq, gq < nx["at"]["len"][P()][gc]), Or(*cases))

    def same_list(h, g):
        r = P()
        return And(h["next"]["has"][r][gc] == g["next"]["has"][r][gc], *[x[r][gc] == y[r][gc] for x, y in zip(leaves(h["next"]["at"]), leaves(g["next"]["at"]))])

    def empty(h):
        return Implies(C, Not(h["next"]["has"][P()][gc]))

    def pairs(L, before, after):
        h = heapof(c, "TAState", L.st)
        yield from stable(L.st)
        yield from originals(h)
        yield "transitions: none before the pair's turn", Implies(before, empty(h))
        for nm, x in (("both", xobs), ("first waits" if False else "second waits", xe1), ("first waits", xe2), ("only these", sound)):
            yield "transitions: " + nm, Implies(after, x(h))

    def l4(L):
        yield from pairs(L, gi >= L.K, gi < L.K)
    c.loop(4, l4)

    def l5(L):
        cur = cursor(L, A1)
        yield from pairs(L, Or(gi > cur, And(gi == cur, gj >= L.K)), Or(gi < cur, And(gi == cur, gj < L.K)))
    c.loop(5, l5)

    def grown(g, h):
        """the list of the product state in heap g is the beginning of its list in heap h"""
        r, q = P(), fi()
        return Implies(g["next"]["has"][r][gc], And(h["next"]["has"][r][gc], h["next"]["at"]["len"][r][gc] >= g["next"]["at"]["len"][r][gc],
            ForAll([q], Implies(And(0 <= q, q < g["next"]["at"]["len"][r][gc]), And(*[x[r][gc][q] == y[r][gc][q] for x, y in zip(leaves(h["next"]["at"]["at"]), leaves(g["next"]["at"]["at"]))])), patterns=[b[r][gc][q] for b in bases(g["next"]["at"]["at"]["target"])])))

    def inner(L, own, hint=None, mine=lambda L: [], pre=lambda h, here: []):
        h, he = heapof(c, "TAState", L.st), heapof(c, "TAState", L.entry)
        here = And(cursor(L, A1, 0) == gi, cursor(L, A2, 1) == gj)
        yield from stable(L.st)
        yield from originals(h)
        yield "elsewhere", Implies(And(C, Not(here)), same_list(h, he))
        if L.head is not None:
            yield "* list extended", Implies(here, grown(heapof(c, "TAState", L.head), h))
        yield "* list extended since the loop began", Implies(here, grown(he, h))
        for nm, x in (("both", xobs), ("second waits", xe1), ("first waits", xe2)):
            yield "kept: " + nm, Implies(And(here, x(he)), x(h))
        last = h["next"]["at"]["len"][P()][gc] - 1
        for nm, f in pre(h, here):
            yield nm, f
        for s in (s1, s2):
            ch = fi()
            yield "* letters kept", Implies(here, ForAll([ch], Implies(he["next"]["has"][s][ch], h["next"]["has"][s][ch]), patterns=[b[s][ch] for b in bases(h["next"]["has"])]))
        S = sound(h)
        if hint is not None:
            N = sound(h, hint)
            yield "* the newest", Implies(And(here, C, gq == last, *mine(L)), N)
            yield "* only these: the newest", Implies(And(here, C, gq == last, N.arg(0), *mine(L)), S)
            yield "* only these: the others", Implies(And(here, gq != last), S)
            other = Not(And(*mine(L))) if mine(L) else gc != 0
            yield "* only these: other letters", Implies(And(here, gq == last, other), S)
            yield "* only these: nothing added", Implies(And(here, C, gq == last, Not(other), Not(N.arg(0))), S)
        yield "only these", Implies(here, S)
        for nm, f in own(h, here):
            yield nm, f

    c.loop(6, lambda L: inner(L, lambda h, here: [("second waits", Implies(And(here, e1 < L.K), xe1(h)))], (L.K - 1, None), pre=lambda h, here: [("* listed", Implies(here, h["next"]["has"][s1][0]))]))
    c.loop(7, lambda L: inner(L, lambda h, here: [("first waits", Implies(And(here, e2 < L.K), xe2(h)))], (None, L.K - 1), pre=lambda h, here: [("* listed", Implies(here, h["next"]["has"][s2][0]))]))

    def l8(L):
        it = [x for d, x in L.st.vars.items() if isinstance(x, MIterV) and getattr(x, "order", None) is not None][0]
        o, i = it.order
        yield from inner(L, lambda h, here: [("both", Implies(And(here, o["idx"](gc) < i), xobs(h)))])
    c.loop(8, l8)

    def letter(L):
        it = [x for d, x in L.st.vars.items() if isinstance(x, MIterV) and getattr(x, "order", None) is not None][0]
        return it.key[0]
    c.loop(9, lambda L: inner(L, lambda h, here: [("both", Implies(And(here, letter(L) == gc, e1 < L.K), xobs(h)))], pre=lambda h, here: [("* listed", Implies(here, h["next"]["has"][s1][letter(L)]))]))

    def l10(L):
        cur1 = cursor(L, A1, 2)
        yield from inner(L, lambda h, here: [("* both: the newest", Implies(And(here, C, in1, in2, letter(L) == gc, e1 == cur1, e2 == L.K - 1), newest(h))),
                                                 ("* both: the older", Implies(And(here, letter(L) == gc, e1 == cur1, e2 < L.K - 1), xobs(h))),
                                                 ("both", Implies(And(here, letter(L) == gc, e1 == cur1, e2 < L.K), xobs(h)))], (cur1, L.K - 1), lambda L: [letter(L) == gc], lambda h, here: [("* listed", Implies(here, And(h["next"]["has"][s1][letter(L)], h["next"]["has"][s2][letter(L)])))])
    c.loop(10, l10)
    yield
    h1 = heapof(c, "TAState")
    T, o = c.arg(3).t, c.arg(2).t
    T1.setdefault("t", T)
    Pf = val(T, s1, s2)
    c.ensures(Implies(C, And(Pf >= n0, Pf < c.st.next)), "every pair of states with equal zero-duration flags has a new state")
    a, b = fi(), fi()
    c.ensures(Implies(C, ForAll([a, b], Implies(val(T, a, b) == Pf, And(a == s1, b == s2)))), "no two pairs share a state")
    c.ensures(Implies(C, has(o["states"], Pf)), "the state is listed in the product")
    c.ensures(Implies(C, And(h1["isMatch"][Pf] == And(h0["isMatch"][s1], h0["isMatch"][s2]), h1["zeroDuration"][Pf] == Z[s1])), "accepting exactly if both are")
    c.ensures(Implies(And(0 <= gu, gu < I1["len"], 0 <= gv, gv < I2["len"], compat(u1, u2)), has(o["initialStates"], val(T, u1, u2))), "pairs of initial states are initial")
    x, y = fi(), fi()
    io = o["initialStates"]
    c.ensures(Implies(And(0 <= gk, gk < io["len"]), Exists([x, y], And(0 <= x, x < I1["len"], 0 <= y, y < I2["len"], io["at"][gk] == val(T, I1["at"][x], I2["at"][y])))), "and only these")
    mc = o["maxConstraints"]
    kk = c.ghost("clock", I)
    m1, m2 = c.arg(0).t["maxConstraints"], c.arg(1).t["maxConstraints"]
    c.ensures(And(mc["len"] == n1 + n2, Implies(And(0 <= kk, kk < n1), mc["at"][kk] == m1["at"][kk]), Implies(And(0 <= kk, kk < n2), mc["at"][n1 + kk] == m2["at"][kk])), "largest constants of the first automaton, then of the second")
    c.ensures(xobs(h1), "two transitions with the same letter give a joint transition")
    c.ensures(xe1(h1), "an unobservable transition of the first automaton moves it alone")
    c.ensures(xe2(h1), "an unobservable transition of the second automaton moves it alone")
    c.ensures(sound(h1), "every transition of the product is one of these")


def update(c):
    """initial and accepting states of the product again, after those of the operands have changed"""
    h0 = heapof(c, "TAState", c.prest)
    I1, I2 = c.arg(0).t["initialStates"], c.arg(1).t["initialStates"]
    T0 = c.old_arg(3).t
    c.modifies(c.arg(2), c.arg(3))
    c.modifies_heap("TAState")
    c.auto_frames = False
    for nm, S in (("first", I1), ("second", I2)):
        c.requires(refs_ok(c, S), "initial states of the %s automaton are allocated" % nm)
    gu, gv, gk, ka, kb, gr = (c.ghost(x, I) for x in ("u", "v", "k", "key1", "key2", "r"))
    other = c.ghost("other", z3.BoolSort())
    u1, u2 = I1["at"][gu], I2["at"][gv]
    Z, M = h0["zeroDuration"], h0["isMatch"]
    compat = lambda x, y: Z[x] == Z[y]
    val0 = lambda x, y: If(T0["has"][x][y], T0["at"][x][y], 0)
    P = val0(ka, kb)
    a, b = fi(), fi()
    c.requires(ForAll([a, b], Implies(T0["has"][a][b], And(T0["at"][a][b] >= 0, T0["at"][a][b] < c.prest.next)), patterns=[T0["at"][a][b]]), "the states of the mapping are allocated")
    a, b = fi(), fi()
    c.given(ForAll([a, b], Implies(And(T0["has"][a][b], T0["at"][a][b] != 0), And(T0["at"][a][b] != ka, T0["at"][a][b] != kb, Implies(T0["at"][a][b] == P, And(a == ka, b == kb)), Implies(other, T0["at"][a][b] != gr))), patterns=[T0["at"][a][b]]),
            "the mapping is one to one and its states are none of the operands'")
    c.given(And(ka >= 0, kb >= 0, gr > 0), "states")

    def rest(st, matches=True):
        h = heapof(c, "TAState", st)
        for f in h:
            if f != "isMatch":
                yield "all but acceptance is kept", And(*[x == y for x, y in zip(leaves(h[f]), leaves(h0[f])) if not x.eq(y)])
        if matches:
            yield "acceptance is kept", h["isMatch"] == M

    def inits(o, done):
        q = fi()
        x = val0(u1, u2)
        yield "length", o["len"] >= 0
        yield "initial pair", Implies(And(0 <= gu, gu < I1["len"], 0 <= gv, gv < I2["len"], compat(u1, u2), done(gu, gv)), Or(And(o["len"] > 0, o["at"][o["len"] - 1] == x), Exists([q], And(0 <= q, q < o["len"], o["at"][q] == x), patterns=[b_[q] for b_ in bases(o["at"])])))
        a, b = fi(), fi()
        yield "only initial pairs", Implies(And(0 <= gk, gk < o["len"]), Exists([a, b], And(0 <= a, a < I1["len"], 0 <= b, b < I2["len"], compat(I1["at"][a], I2["at"][b]), o["at"][gk] == val0(I1["at"][a], I2["at"][b])), patterns=[z3.MultiPattern(I1["at"][a], I2["at"][b])]))

    def mapping(T):
        a, b = fi(), fi()
        yield "mapping kept", ForAll([a, b], And(Implies(T0["has"][a][b], T["has"][a][b]), Implies(T["has"][a][b], T["at"][a][b] == val0(a, b))), patterns=[T["has"][a][b], T["at"][a][b]] + ([T0["has"][a][b]] if z3.is_const(T["has"]) else []))

    def cursor(L):
        cs = sorted([k_ for k_ in L.entry.vars if isinstance(k_, str) and k_.startswith("rk!")], key=lambda x: int(x.split("!")[1]))
        return L.st.vars[cs[0]].t

    def l0(L):
        yield from rest(L.st)
        yield from mapping(L.arg(3).t)
        yield from inits(L.arg(2).t["initialStates"], lambda i, j: i < L.K)
    c.loop(0, l0)

    def l1(L):
        cur = cursor(L)
        yield from rest(L.st)
        yield from mapping(L.arg(3).t)
        yield from inits(L.arg(2).t["initialStates"], lambda i, j: Or(i < cur, And(i == cur, j < L.K)))
    c.loop(1, l1)

    def updated(h):
        return Implies(And(ka != 0, kb != 0, P != 0), h["isMatch"][P] == And(M[ka], M[kb]))

    def l2(L):
        h = heapof(c, "TAState", L.st)
        it = [x for d_, x in L.st.vars.items() if isinstance(x, MIterV) and getattr(x, "order", None) is not None][-1]
        o, i = it.order
        yield "position", And(0 <= i, i <= o["len"])
        yield from rest(L.st, False)
        yield "acceptance of the operands is kept", And(h["isMatch"][ka] == M[ka], h["isMatch"][kb] == M[kb], Implies(other, h["isMatch"][gr] == M[gr]))
        yield "acceptance of the product", Implies(And(T0["has"][ka][kb], o["idx"](ka, kb) < i), updated(h))
    c.loop(2, l2)
    yield
    h = heapof(c, "TAState")
    for nm, f in inits(c.arg(2).t["initialStates"], lambda i, j: BoolVal(True)):
        c.ensures(f, nm)
    for nm, f in rest(c.st, False):
        c.ensures(f, nm)
    c.ensures(updated(h), "a pair is accepting exactly if both of its states are")
    c.ensures(Implies(other, h["isMatch"][gr] == M[gr]), "acceptance of all others is kept")


CONTRACTS = [
    Contract("intersectionTA", product),
    Contract("updateInitAccepting", update),
]
