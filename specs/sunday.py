"""C06: the table of Sunday's skip values (libmonaa/sunday_skip_value.hh)"""
from common import *
from execu import MIterV
from zgraph import Graph
import zone

# a run of the zone automaton that accepts: its states, the states reached from them by unobservable transitions, letters, edges
P, Q, Ltr, Ed = (z3.Function(n, I, I) for n in ("run_state", "run_from", "run_letter", "run_edge"))
Len = z3.Int("run_length")
cl = z3.Function("unobservably", I, I, z3.BoolSort())


def za(c):
    """no property of the result is used here"""
    c.modifies(c.arg(1))
    c.modifies_heap("ZAState")
    yield


def dead(c):
    """assumed (C10): an accepted word has a run that survives"""
    c.modifies(c.this)
    c.modifies_heap("ZAState")
    yield
    G, h = Graph(heapof(c, "ZAState")), heapof(c, "ZAState")
    IS = c.this.t["initialStates"]
    i = fi()
    q = fi()
    c.by_rule(None, ForAll([q], Implies(And(0 <= q, q < IS["len"]), IS["at"][q] != 0), patterns=[IS["at"][q]]))
    q = fi()
    c.by_rule(None, Exists([q], And(0 <= q, q < IS["len"], IS["at"][q] == P(0))))
    c.by_rule(None, ForAll([i], Implies(And(0 <= i, i < Len), And(cl(P(i), Q(i)), P(i) != 0, Q(i) != 0, 1 <= Ltr(i), Ltr(i) < 127, G.is_edge(Q(i), Ltr(i), Ed(i)), G.edge(Q(i), Ltr(i), Ed(i)) == P(i + 1))), patterns=[P(i)]))
    c.by_rule(None, And(Len >= 1, Len < 2 ** 31 - 1, h["isMatch"][P(Len)]))


def closure(c):
    """the contract proved in C10, and its consequence by induction over the chain of unobservable transitions"""
    c.modifies(c.arg(0))
    C0 = c.old_arg(0).t["has"]
    c.requires(Not(C0[0]), "no null state")
    yield
    C = c.arg(0).t["has"]
    a, b = fi(), fi()
    c.by_rule(None, Not(C[0]))
    c.by_rule(None, ForAll([a, b], Implies(And(C0[a], cl(a, b)), C[b]), patterns=[cl(a, b)]))


def ctor(c):
    c.modifies(c.this)
    c.modifies_heap("ZAState")
    c.auto_frames = False
    gi = c.ghost("i", I)

    def common(L, cs="CStates"):
        m = L.this.t["m"]
        S = L.local("charSet").t
        C = L.local(cs).t
        q, k = fi(), fi()
        yield "sets of letters", And(S["len"] == m, ForAll([q, k], Implies(And(0 <= q, q < m, S["at"]["has"][q][k]), And(1 <= k, k < 127)), patterns=[S["at"]["has"][q][k]]))
        q = fi()
        yield "no null state", ForAll([q], Implies(And(0 <= q, q < C["len"]), C["at"][q] != 0), patterns=[C["at"][q]])

    def member(C, lo, x):
        q = fi()
        return Exists([q], And(lo <= q, q < C["len"], C["at"][q] == x), patterns=[C["at"][q]])

    def l0(L):
        m, C, acc = L.this.t["m"], L.local("CStates").t, L.local("accepted").t
        S = L.local("charSet").t
        yield from common(L)
        yield "not longer than the run", And(0 <= m, m <= Len, Implies(acc, m >= 1), Implies(Not(acc), m < Len))
        yield "the run is followed", member(C, 0, P(m))
        yield "letters of the run", Implies(And(0 <= gi, gi < m), S["at"]["has"][gi][Ltr(gi)])
    c.loop(0, l0)

    def inner(L, n):
        h = heapof(c, "ZAState", L.st)
        m, C, acc, N, S = L.this.t["m"], L.local("CStates").t, L.local("accepted").t, L.local("NStates").t, L.local("charSet").t
        cur = m - 1
        en = L.enclosing
        K1 = en[0][0]
        yield from common(L)
        q = fi()
        yield "no null successor", ForAll([q], Implies(And(0 <= q, q < N["len"]), N["at"][q] != 0), **vpat(N["at"][q]))
        yield "not longer than the run", And(1 <= m, m <= Len)
        yield "earlier letters of the run", Implies(And(0 <= gi, gi < cur), S["at"]["has"][gi][Ltr(gi)])
        w = N["len"] - 1
        q = fi()
        nx = P(cur + 1)
        done = And(Or(And(w >= 0, N["at"][w] == nx), Exists([q], And(0 <= q, q < N["len"], N["at"][q] == nx), **vpat(N["at"][q]))), Implies(h["isMatch"][nx], acc), S["at"]["has"][cur][Ltr(cur)])
        late = member(C, K1 if n == 1 else K1 + 1, P(cur))
        alts = [done, late]
        if n >= 2:
            K2, o = en[1][0], en[1][1]
            cs = en[1][2]
            has = rd(L.st, cs)["has"]
            x = o["idx"](Q(cur))
            yield "closure", Not(has[0])
            alts.append(And(has[Q(cur)], x >= K2) if n == 2 else And(has[Q(cur)], x > K2))
            if n >= 3:
                ch = L.local("c").t
                yield "letter", And(1 <= ch, ch <= 127 if n == 3 else ch < 127)
                alts.append(And(has[Q(cur)], x == K2, Ltr(cur) >= ch if n == 3 else Ltr(cur) > ch))
                if n == 4:
                    alts.append(And(has[Q(cur)], x == K2, Ltr(cur) == ch, Ed(cur) >= en[2][0]))
        yield "the run is followed", Or(*alts)
    for n in (1, 2, 3, 4):
        c.loop(n, lambda L, n=n: inner(L, n))

    def table(L, n):
        T = L.this.t
        m, D, S = T["m"], T["delta"]["at"], L.local("charSet").t
        i = L.local("i").t
        q = fi()
        yield from list(common(L))[:1]
        yield "not longer than the run", And(1 <= m, m <= Len)
        yield "letters of the run", Implies(And(0 <= gi, gi < m), S["at"]["has"][gi][Ltr(gi)])
        yield "position", And(0 <= i, i <= m if n == 5 else i < m)
        yield "entries", ForAll([q], Implies(And(0 <= q, q < 127), And(1 <= D[q], D[q] <= m + 1)), patterns=[D[q]])
        d = gi < i
        if n == 6:
            K, o = L.enclosing[0][0], L.enclosing[0][1]
            d = Or(d, And(gi == i, o["idx"](Ltr(gi)) < K))
        yield "entry of a letter of the run", Implies(And(0 <= gi, gi < m, d), D[Ltr(gi)] <= m - gi)
    for n in (5, 6):
        c.loop(n, lambda L, n=n: table(L, n))
    yield
    T = c.this.t
    m, D = T["m"], T["delta"]["at"]
    c.ensures(And(1 <= m, m <= Len), "the shortest length is a lower bound on the accepted words")
    k = c.ghost("k", I)
    c.ensures(Implies(And(0 <= k, k < 127), And(1 <= D[k], D[k] <= m + 1)), "shifts are positive and at most one more than the length")
    c.ensures(Implies(And(0 <= gi, gi < m), D[Ltr(gi)] <= m - gi), "no shift beyond an occurrence of the letter in an accepted word")
    c.ensures(Implies(gi == m - 1, T["endChars"]["has"][Ltr(gi)]), "end letters of accepted words are known")


CONTRACTS = [Contract("ta2za", za, check=False), Contract("ZoneAutomaton::removeDeadStates", dead, check=False), Contract("epsilonClosure", closure, check=False)] + [Contract(x.name, x.spec, check=False) for x in zone.CONTRACTS if x.name == "Zone::zero"] + [Contract("SundaySkipValue::SundaySkipValue", ctor)]
