"""C08: timed automata (libmonaa/timed_automaton.hh)"""
from common import *
from constraint import holds, wf_constraint


def heap_leaves(h):
    return leaves(h)


def same_obj(h1, r1, h2, r2, skip=None):
    """every field of object r1 in heap h1 equals that of r2 in h2 (skip: leaf arrays left out)"""
    out = []
    for a, b in zip(leaves(h1), leaves(h2)):
        if skip is not None and any(a.eq(x) for x in skip):
            continue
        out.append(a[r1] == b[r2])
    return And(*out)


def tgt(h):
    return h["next"]["at"]["at"]["target"]


def deepcopy(c):
    c.modifies(c.arg(0), c.arg(1))
    c.modifies_heap("TAState")
    h0 = heapof(c, "TAState", c.prest)
    n0 = c.prest.next
    S, IS = c.this.t["states"], c.this.t["initialStates"]
    gi, ge, gj, gr, gk = (c.ghost(x, I) for x in ("i", "e", "j", "r", "k"))
    gc = c.ghost("c", I)
    gu, gw = c.ghost("u", I), c.ghost("w", I)
    N = S["len"]
    c.requires(And(c.arg(0).t["states"]["len"] == 0, c.arg(0).t["initialStates"]["len"] == 0), "the destination is empty")
    k = fi()
    c.requires(ForAll([k], Not(c.arg(1).t["has"][k]), patterns=[c.arg(1).t["has"][k]]), "the mapping is empty")
    c.requires(refs_ok(c, S), "states are allocated")
    a, b = fi(), fi()
    c.requires(ForAll([a, b], Implies(And(0 <= a, a < N, 0 <= b, b < N, S["at"][a] == S["at"][b]), a == b), patterns=[z3.MultiPattern(S["at"][a], S["at"][b])]), "states are distinct")
    # the ghost edge number ge with letter gc of state gi leads nowhere or to state gj
    t0 = tgt(h0)[S["at"][gi]][gc][ge]
    edge = And(0 <= gi, gi < N, h0["next"]["has"][S["at"][gi]][gc], 0 <= ge, ge < h0["next"]["at"]["len"][S["at"][gi]][gc])
    c.given(And(0 <= gr, gr < n0), "an arbitrary object of the original heap")
    c.given(Implies(edge, Or(t0 == 0, And(0 <= gj, gj < N, t0 == S["at"][gj]))), "every transition leads to a state of the automaton or nowhere")
    c.given(And(0 <= gw, gw < N, 0 <= gu, gu < IS["len"], IS["at"][gu] == S["at"][gw]) if False else Implies(And(0 <= gu, gu < IS["len"]), And(0 <= gw, gw < N, IS["at"][gu] == S["at"][gw])), "every initial state is a state")
    c.given(And(0 <= gk, gk < N), "an arbitrary state")

    def made(st, K):
        d, m = c.arg_in(st, 0).t, c.arg_in(st, 1).t
        q = fi()
        yield "one copy per state", And(d["states"]["len"] == K, st.next == n0 + K)
        q = fi()
        yield "copies are new objects", ForAll([q], Implies(And(0 <= q, q < K), d["states"]["at"][q] == n0 + q), patterns=[d["states"]["at"][q]])
        q = fi()
        yield "mapping", ForAll([q], Implies(And(0 <= q, q < K), And(m["has"][S["at"][q]], m["at"][S["at"][q]] == n0 + q)), patterns=[S["at"][q]])

    def l1(L):
        h = heapof(c, "TAState", L.st)
        m = L.arg(1).t
        yield from made(L.st, L.K)
        for x in (gi, gk):
            yield "copied", Implies(And(0 <= x, x < L.K), same_obj(h, n0 + x, h0, S["at"][x]))
        yield "originals", same_obj(h, gr, h0, gr)
        yield "no null", Not(m["has"][0])
        yield "initial", L.arg(0).t["initialStates"]["len"] == 0
    c.loop(0, l1)

    def nulls(m):
        return Implies(m["has"][0], m["at"][0] == 0)

    def l2(L):
        d = L.arg(0).t
        h = heapof(c, "TAState", L.st)
        yield from made(L.st, N)
        yield "null", nulls(L.arg(1).t)
        yield "length", d["initialStates"]["len"] == L.K
        yield "initial", Implies(And(0 <= gu, gu < L.K), d["initialStates"]["at"][gu] == n0 + gw)
    c.loop(1, l2)

    hs = {}
    def goal(h):
        t = tgt(h)[n0 + gi][gc][ge]
        return Implies(edge, t == If(t0 == 0, 0, n0 + gj))

    def raw(h):
        return Implies(edge, tgt(h)[n0 + gi][gc][ge] == t0)

    def frame(h):
        return tgt(h)[gr] == tgt(h0)[gr]

    def l3(L):
        h = heapof(c, "TAState", L.st)
        yield from made(L.st, N)
        yield "null", nulls(L.arg(1).t)
        yield "retargeted", Implies(gi < L.K, goal(h))
        yield "still raw", Implies(gi >= L.K, raw(h))
        yield "originals", frame(h)
    c.loop(2, l3)

    k3 = []

    def l4(L):
        h = heapof(c, "TAState", L.st)
        he = heapof(c, "TAState", L.entry)
        yield from made(L.st, N)
        yield "null", nulls(L.arg(1).t)
        pos = L.order["idx"](gc)
        here = L.ranged[1].root[2] == n0 + gi
        yield "retargeted", Implies(And(edge, here, pos < L.K), goal(h))
        yield "still raw", Implies(And(edge, here, pos >= L.K), raw(h))
        yield "others", Implies(Not(here), tgt(h)[n0 + gi][gc][ge] == tgt(he)[n0 + gi][gc][ge])
        yield "originals", frame(h)
    c.loop(3, l4)

    def l5(L):
        h = heapof(c, "TAState", L.st)
        he = heapof(c, "TAState", L.entry)
        lv = L.ranged[1]
        yield from made(L.st, N)
        yield "null", nulls(L.arg(1).t)
        here = And(lv.root[2] == n0 + gi, [p for p in lv.path if p[0] == "k"][0][1][0] == gc)
        yield "retargeted", Implies(And(edge, here, ge < L.K), goal(h))
        yield "still raw", Implies(And(edge, here, ge >= L.K), raw(h))
        yield "others", Implies(Not(here), tgt(h)[n0 + gi][gc][ge] == tgt(he)[n0 + gi][gc][ge])
        yield "originals", frame(h)
    c.loop(4, l5)
    yield
    h1 = heapof(c, "TAState")
    d, m = c.arg(0).t, c.arg(1).t
    A = d["states"]["at"]
    c.ensures(d["states"]["len"] == N, "as many states as the original")
    c.ensures(And(A[gk] >= n0, A[gk] < c.st.next), "no state is shared with the original")
    c.ensures(Implies(And(0 <= gi, gi < N, A[gk] == A[gi]), gk == gi), "states are distinct objects")
    c.ensures(And(m["has"][S["at"][gk]], m["at"][S["at"][gk]] == A[gk]), "the mapping leads from each state to its copy")
    c.ensures(And(h1["isMatch"][A[gk]] == h0["isMatch"][S["at"][gk]], h1["zeroDuration"][A[gk]] == h0["zeroDuration"][S["at"][gk]]), "accepting and zero-duration flags")
    nx1, nx0 = h1["next"], h0["next"]
    c.ensures(And(nx1["has"][A[gk]] == nx0["has"][S["at"][gk]], nx1["at"]["len"][A[gk]] == nx0["at"]["len"][S["at"][gk]]), "the same letters and the same number of transitions for each")
    e1, e0 = nx1["at"]["at"], nx0["at"]["at"]
    same = [x[A[gk]] == y[S["at"][gk]] for f in ("resetVars", "guard") for x, y in zip(leaves(e1[f]), leaves(e0[f]))]
    c.ensures(And(*same), "the same resets and guards")
    c.ensures(Implies(edge, e1["target"][A[gi]][gc][ge] == If(t0 == 0, 0, A[gj])), "each transition leads to the copy of the original target")
    c.ensures(d["initialStates"]["len"] == IS["len"], "as many initial states")
    c.ensures(Implies(And(0 <= gu, gu < IS["len"]), d["initialStates"]["at"][gu] == A[gw]), "initial states are the copies of the initial states")
    c.ensures(teq(d["maxConstraints"], c.this.t["maxConstraints"]), "the same largest constants")
    c.ensures(same_obj(h1, gr, h0, gr), "the original is unchanged")


def teq(a, b):
    return And(*[x == y for x, y in zip(leaves(a), leaves(b))])


def wf_ta(c, n, h, clocks):
    """every transition of every state: targets allocated or null, guard and reset clocks below the clock count"""
    r, a, e, j = fi(), fi(), fi(), fi()
    nx = h["next"]
    t = nx["at"]["at"]
    live = And(0 < r, r < n, nx["has"][r][a], 0 <= e, e < nx["at"]["len"][r][a])
    g = t["guard"]
    x = g["at"]["x"][r][a][e][j]
    o = g["at"]["odr"][r][a][e][j]
    v = t["resetVars"]["at"][r][a][e][j]
    c.requires(ForAll([r, a, e], Implies(live, And(0 <= t["target"][r][a][e], t["target"][r][a][e] < n, g["len"][r][a][e] >= 0, t["resetVars"]["len"][r][a][e] >= 0)), patterns=[t["target"][r][a][e]]), "targets are states or null")
    c.requires(ForAll([r, a, e, j], Implies(And(live, 0 <= j, j < g["len"][r][a][e]), And(0 <= x, x < clocks, 0 <= o, o <= 3)), patterns=[x]), "guards use clocks of the automaton")
    c.requires(ForAll([r, a, e, j], Implies(And(live, 0 <= j, j < t["resetVars"]["len"][r][a][e]), And(0 <= v, v < clocks)), patterns=[v]), "resets use clocks of the automaton")


def step(h, n, s, A, d, a, e, t, B):
    """one observable step: from state s with clock values A, after delay d, over transition e of letter a, to t with values B"""
    nx = h["next"]
    tr = nx["at"]["at"]
    j = fi()
    g = {k: v[s][a][e] for k, v in tr["guard"]["at"].items()}
    con = {k: v[j] for k, v in g.items()}
    guards = ForAll([j], Implies(And(0 <= j, j < tr["guard"]["len"][s][a][e]), holds(con, D(A[con["x"]] + d))), patterns=[con["x"]])
    rv, rl = tr["resetVars"]["at"][s][a][e], tr["resetVars"]["len"][s][a][e]
    return And(nx["has"][s][a], 0 <= e, e < nx["at"]["len"][s][a], tr["target"][s][a][e] == t, t != 0, guards, reset_rel(n, rv, rl, A, d, B))


def reset_rel(n, rv, rl, A, d, B):
    j, x, j2 = fi(), fi(), fi()
    return And(ForAll([j], Implies(And(0 <= j, j < rl), B[rv[j]] == 0), patterns=[rv[j]]),
               ForAll([x], Implies(And(0 <= x, x < n), Or(B[x] == A[x] + d, And(B[x] == 0, Exists([j2], And(0 <= j2, j2 < rl, rv[j2] == x), patterns=[rv[j2]])))), patterns=[B[x]]))


def member(c):
    AR = z3.ArraySort(I, R)
    w = c.arg(0).t
    h = heapof(c, "TAState", c.prest)
    n = c.this.t["maxConstraints"]["len"]
    IS = c.this.t["initialStates"]
    q = fi()
    c.requires(ForAll([q], Implies(And(0 <= q, q < w["len"]), w["at"]["second"]["k"][q] == 0), patterns=[w["at"]["second"]["k"][q]]), "timestamps are finite")
    c.requires(refs_ok(c, IS), "initial states are allocated")
    wf_ta(c, c.prest.next, h, n)
    letter = lambda i: w["at"]["first"][i]
    dt = lambda i: w["at"]["second"]["r"][i] - If(i > 0, w["at"]["second"]["r"][i - 1], RealVal(0))
    # completeness: a ghost run of the automaton over w
    gs, ge = c.ghost("state", z3.ArraySort(I, I)), c.ghost("edge", z3.ArraySort(I, I))
    gv = c.ghost("value", z3.ArraySort(I, AR))
    g0 = c.ghost("init", I)
    run = c.ghost("is_run", z3.BoolSort())
    i, x = fi(), fi()
    c.given(Implies(run, And(0 <= g0, g0 < IS["len"], gs[0] == IS["at"][g0], ForAll([x], Implies(And(0 <= x, x < n), gv[0][x] == 0), patterns=[gv[0][x]]))), "the ghost run starts in an initial state with all clocks 0")
    c.given(Implies(run, ForAll([i], Implies(And(0 <= i, i < w["len"]), step(h, n, gs[i], gv[i], dt(i), letter(i), ge[i], gs[i + 1], gv[i + 1])), patterns=[ge[i]])), "and takes a step of the automaton for every event")
    # soundness: reached is any predicate closed under the rules of runs
    reached = z3.Function("reached", I, I, AR, z3.BoolSort())
    A, B = z3.Const("A!", AR), z3.Const("B!", AR)
    s, t, e, k = fi(), fi(), fi(), fi()
    c.given(ForAll([k, s, A], Implies(And(0 <= k, k < IS["len"], s == IS["at"][k], ForAll([x], Implies(And(0 <= x, x < n), A[x] == 0))), reached(0, s, A)), patterns=[z3.MultiPattern(reached(0, s, A), IS["at"][k])]), "initial configurations are reached")
    tr = h["next"]["at"]["at"]["target"]
    c.given(ForAll([i, s, A, e, t, B], Implies(And(0 <= i, i < w["len"], reached(i, s, A), step(h, n, s, A, dt(i), letter(i), e, t, B)), reached(i + 1, t, B)), patterns=[z3.MultiPattern(reached(i, s, A), reached(i + 1, t, B), tr[s][letter(i)][e])]), "and so is what a step leads to")

    def wf(cs, st):
        q, x = fi(), fi()
        f, v = cs["at"]["first"], cs["at"]["second"]
        yield "states", And(cs["len"] >= 0, ForAll([q], Implies(And(0 <= q, q < cs["len"]), And(0 < f[q], f[q] < c.prest.next, v["len"][q] == n)), patterns=[f[q]]))
        yield "values", ForAll([q, x], Implies(And(0 <= q, q < cs["len"], 0 <= x, x < n), v["at"]["k"][q][x] == 0), patterns=[v["at"]["k"][q][x]])

    def cfg(cs, q):
        return cs["at"]["first"][q], cs["at"]["second"]["at"]["r"][q]

    def sound(cs, i):
        q = fi()
        f, v = cfg(cs, q)
        return "every configuration is reached", ForAll([q], Implies(And(0 <= q, q < cs["len"]), reached(i, f, v)), patterns=[f])

    def match(cs, q, i):
        f, v = cfg(cs, q)
        x = fi()
        return And(f == gs[i], ForAll([x], Implies(And(0 <= x, x < n), v[x] == gv[i][x]), patterns=[gv[i][x]] + ([v[x]] if z3.is_select(v) and z3.is_const(v.arg(0)) else [])))

    def has(cs, i, lo=None, hi=None):
        q = fi()
        lo = 0 if lo is None else lo
        hi = cs["len"] if hi is None else hi
        last = And(lo <= hi - 1, match(cs, hi - 1, i))  # redundant, a hint for the instance just added
        return Or(last, Exists([q], And(lo <= q, q < hi, match(cs, q, i)), patterns=[cs["at"]["first"][q]]))

    iscfg = lambda ty: ty[0] == "vec" and ty[1][0] == "pair"
    isint = lambda ty: ty[0] == "int"
    isc1 = lambda ty: ty[0] == "pair"

    def l0(L):
        cs = L.locals_by(iscfg)[0].t
        yield from wf(cs, L.st)
        yield sound(cs, IntVal(0))
        yield "one per initial state", cs["len"] == L.K
        yield "the run is followed", Implies(And(run, g0 < L.K), match(cs, g0, IntVal(0)))
    c.loop(0, l0)

    def l1(L):
        cs = L.locals_by(iscfg)[0].t
        yield from wf(cs, L.st)
        yield sound(cs, L.K)
        yield "the run is followed", Implies(run, has(cs, L.K))
    c.loop(1, l1)
    return_ = []

    def l2(L):
        cs, ns = [a.t for a in L.locals_by(iscfg)][:2]
        i = L.locals_by(isint)[0].t
        ce = L.entry_acc(L.locals_by(iscfg)[0]).t
        yield from wf(cs, L.st)
        for nm, f in wf(ns, L.st):
            yield "next " + nm, f
        yield "length", cs["len"] == ce["len"]
        q = fi()
        yield "later configurations untouched", ForAll([q], Implies(And(L.K <= q, q < cs["len"]), And(cs["at"]["first"][q] == ce["at"]["first"][q], cs["at"]["second"]["at"]["r"][q] == ce["at"]["second"]["at"]["r"][q])), patterns=[cs["at"]["first"][q]])
        yield sound(ns, i + 1)
        yield "the run is followed", Implies(And(run, 0 <= ge[i]), Or(has(ce, i, lo=L.K), has(ns, i + 1)))
    c.loop(2, l2)

    def l3(L):
        cs, ns = [a.t for a in L.locals_by(iscfg)][:2]
        i = L.locals_by(isint)[0].t
        ne = L.entry_acc(L.locals_by(iscfg)[1]).t
        for nm, f in wf(ns, L.st):
            yield "next " + nm, f
        yield sound(ns, i + 1)
        yield "kept", Implies(And(run, has(ne, i + 1)), has(ns, i + 1))
        cf = [L.acc(x) for d, x in sorted((d, x) for d, x in L.st.vars.items() if isinstance(d, int)) if isinstance(x, LV) and x.ty[0] == "pair"][0].t
        x = fi()
        here = And(cf["first"] == gs[i], ForAll([x], Implies(And(0 <= x, x < n), cf["second"]["at"]["r"][x] == gv[i][x] + dt(i)), patterns=[gv[i][x]]))
        yield "the run is followed", Implies(And(run, here, ge[i] < L.K), has(ns, i + 1))
    c.loop(3, l3)

    def l4(L):
        tc = L.locals_by(isc1)[0]
        t, t0 = tc.t["second"], L.entry_acc(tc).t["second"]
        rv = rd(L.st, L.ranged[1])
        j, x, j2 = fi(), fi(), fi()
        yield "length", t["len"] == n
        yield "finite", ForAll([x], Implies(And(0 <= x, x < n), t["at"]["k"][x] == 0), patterns=[t["at"]["k"][x]])
        yield "zero so far", ForAll([j], Implies(And(0 <= j, j < L.K), t["at"]["r"][rv["at"][j]] == 0), patterns=[rv["at"][j]])
        yield "others kept", ForAll([x], Implies(And(0 <= x, x < n), Or(t["at"]["r"][x] == t0["at"]["r"][x], And(t["at"]["r"][x] == 0, Exists([j2], And(0 <= j2, j2 < L.K, rv["at"][j2] == x), patterns=[rv["at"][j2]])))), patterns=[t["at"]["r"][x]])
    c.loop(4, l4)
    yield
    r = c.result.t
    c.ensures(Implies(And(run, h["isMatch"][gs[w["len"]]]), r), "true if there is an accepting run")
    s, A = fi(), z3.Const("A!r", AR)
    c.ensures(Implies(r, Exists([s, A], And(reached(w["len"], s, A), h["isMatch"][s]))), "only if there is an accepting run")


CONTRACTS = [
    Contract("TimedAutomaton::deepCopy", deepcopy),
    Contract("TimedAutomaton::isMember", member),
]
