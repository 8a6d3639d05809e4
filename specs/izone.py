"""P: match zones (libmonaa/intermediate_zone.hh).
A valuation v: v[0] is the constant, v[1] = t, v[2] = t' in interval form, v[x] the clock x in matrix form."""
from common import *
from zone import *
import zone as _zone


def cells(z):
    return z["intervals"]


def cell(z, k):
    return tselect(z["intervals"]["at"], iv(k))


def lo(z, k):
    return cell(z, k)["lowerBound"]


def up(z, k):
    return cell(z, k)["upperBound"]


def in_cells1(v, z):
    return And(le_ub(v[1] - v[0], up(z, 0)), le_ub(v[0] - v[1], lo(z, 0)))


def in_cells(v, z):
    n = z["intervals"]["len"]
    three = And(le_ub(v[2] - v[0], up(z, 1)), le_ub(v[0] - v[2], lo(z, 1)),
                le_ub(v[2] - v[1], up(z, 2)), le_ub(v[1] - v[2], lo(z, 2)))
    return And(in_cells1(v, z), Implies(n == 3, three))


def iz(v, z):
    """v is in the set denoted by the match zone z"""
    return If(z["useInterval"], in_cells(v, z), inzone(v, z["value"]))


def wf_cells(z, fin_only=False):
    n = z["intervals"]["len"]
    w = wf_b if fin_only else wf_c
    return And(Or(n == 1, n == 3), *[And(w(lo(z, k)), w(up(z, k))) if k == 0 else Implies(n == 3, And(w(lo(z, k)), w(up(z, k)))) for k in range(3)])


def wf_iz(z):
    m = z["value"]
    return And(Implies(z["useInterval"], And(wf_cells(z), z["newestClock"] == If(z["intervals"]["len"] == 1, 1, 2))),
               Implies(Not(z["useInterval"]), And(wfc(m), m["rows"] >= 2, z["newestClock"] >= 1, z["newestClock"] < m["rows"], z["isAllocated"]["len"] == m["rows"])))


def clock_ok(z, x):
    return If(z["useInterval"], x < If(z["intervals"]["len"] == 1, 2, 3), x < z["value"]["rows"])


def same_shape(n, m):
    """everything but the bounds"""
    return And(n["useInterval"] == m["useInterval"], n["newestClock"] == m["newestClock"], n["intervals"]["len"] == m["intervals"]["len"],
               n["value"]["rows"] == m["value"]["rows"], n["value"]["cols"] == m["value"]["cols"], n["isAllocated"]["len"] == m["isAllocated"]["len"])


def cl3(z):
    """the three cells are the tightest ones (t, t', t'-t as a 3x3 matrix over the constant, t, t')"""
    A, a, B, b, C, c_ = up(z, 0), lo(z, 0), up(z, 1), lo(z, 1), up(z, 2), lo(z, 2)
    # D(1,0)=A D(0,1)=a D(2,0)=B D(0,2)=b D(2,1)=C D(1,2)=c
    return And(ble(A, badd(c_, B)), ble(B, badd(C, A)), ble(a, badd(b, C)), ble(b, badd(a, c_)), ble(C, badd(B, a)), ble(c_, badd(A, b)))


def diag_zero(m):
    i = fi("i")
    return ForAll([i], Implies(And(0 <= i, i < m["rows"]), beq(ent(m, i, i), ZPOS)), patterns=[mpat(m, i, i)])


def nonneg3(z):
    n = z["intervals"]["len"]
    s = lambda k: ble(ZPOS, badd(lo(z, k), up(z, k)))
    return And(s(0), Implies(n == 3, And(s(1), s(2))))


def TV(v):
    return {"v": v, "i": iv(0), "j": iv(0), "l": iv(0)}


def tighten_xy(c):
    m = c.this.t
    x, y, b = c.arg(0).t, c.arg(1).t, c.arg(2).t
    c.requires(wf_iz(m), "well-formed match zone")
    c.requires(And(clock_ok(m, x), clock_ok(m, y), Implies(m["useInterval"], x != y)), "two clocks of the zone")
    c.requires(wf_c(b), "finite or infinite bound")
    v, i, j, l = c.ghost("v", VAL), c.ghost("i", I), c.ghost("j", I), c.ghost("l", I)
    c.inst = {"Zone::close1": [{"v": v, "l": iv(0)}]}
    c.modifies(c.this)
    yield
    n = c.this.t
    c.ensures(same_shape(n, m), "same representation and clocks")
    c.ensures(wf_iz(n), "well-formed match zone")
    c.ensures(teq(n["isAllocated"], m["isAllocated"]), "allocation kept")
    c.ensures(Implies(iz(v, n), And(iz(v, m), le_ub(v[x] - v[y], b))), "only members with x - y below the bound remain")
    c.ensures(Implies(And(iz(v, m), le_ub(v[x] - v[y], b)), iz(v, n)), "every member with x - y below the bound remains")
    mv, nv = m["value"], n["value"]
    R_ = mv["rows"]
    mat = And(Not(m["useInterval"]), wf(mv), wf_b(b), x != y, m["newestClock"] != 1, closed(mv), diag_zero(mv), diag_nonneg(nv), 0 <= i, i < R_, 0 <= j, j < R_, 0 <= l, l < R_)
    e = lambda p, q: ent(mv, p, q)
    c.lemma(Implies(mat, ble(ZPOS, badd(b, e(y, x)))), "no negative cycle through the new constraint")
    for (p, q, nm) in ((i, j, "(i,j)"), (i, l, "(i,l)"), (l, j, "(l,j)")):
        c.lemma(Implies(mat, And(ble(e(p, y), badd(e(p, x), e(x, y))), ble(e(p, q), badd(e(p, y), e(y, q))), ble(e(x, q), badd(e(x, y), e(y, q))), ble(e(p, q), badd(e(p, x), e(x, q))), ble(e(y, q), badd(e(y, x), e(x, q))))), "triangles " + nm)
        c.lemma(Implies(mat, ble(ent(nv, p, q), e(p, q))), "no bound grows " + nm)
        c.lemma(Implies(mat, beq(ent(nv, p, q), bmin(e(p, q), badd(badd(e(p, x), b), e(y, q))))), "each bound becomes the shorter of itself and the detour through the new constraint " + nm)
    c.lemma(Implies(mat, ble(e(i, j), badd(e(i, l), e(l, j)))), "triangle (i,l,j)")
    c.lemma(Implies(mat, And(ble(e(i, j), badd(e(i, l), e(l, j))), ble(e(y, j), badd(e(y, l), e(l, j))), ble(e(i, x), badd(e(i, l), e(l, x))), ble(e(y, x), badd(e(y, l), e(l, x))))), "more triangles")
    c.ensures(Implies(mat, ble(ent(nv, i, j), badd(ent(nv, i, l), ent(nv, l, j)))), "a canonical matrix stays canonical")
    c.ensures(Implies(mat, beq(ent(nv, i, i), ZPOS)), "diagonal")
    al = m["isAllocated"]["at"]
    c.ensures(Implies(And(mat, alloc_inv(m), al[x], al[y], Or(Not(al[i]), Not(al[j])), i != j), And(ent(nv, i, j)["first"]["k"] == 1, Not(ent(nv, i, j)["second"]))), "free clocks stay unconstrained")
    c.ensures(Implies(And(m["useInterval"], wf_cells(m, True), wf_b(b)), wf_cells(n, True)), "cells stay finite or +inf")
    c.ensures(Implies(And(m["useInterval"], m["intervals"]["len"] == 3, wf_cells(m, True), wf_b(b), cl3(m), nonneg3(n)), cl3(n)), "the cells stay the tightest ones unless the zone becomes empty")


def guard_bound(g):
    """(upper?, bound) of a guard: x < c, x <= c, x >= c, x > c"""
    o, k = g["odr"], ToReal(g["c"])
    return o, k


def sat_rel(d, g):
    """the difference d satisfies the guard's comparison"""
    o, k = g["odr"], ToReal(g["c"])
    return If(o == LT, d < k, If(o == LE, d <= k, If(o == GE, d >= k, d > k)))


from constraint import LT, LE, GE, GT


def gwf(g):
    return And(g["odr"] >= 0, g["odr"] <= 3, g["c"] > -(2 ** 31))


def tighten_clock(c):
    """(x, guard, reset): guard on x - reset"""
    m = c.this.t
    x, g, y = c.arg(0).t, c.arg(1).t, c.arg(2).t
    c.requires(wf_iz(m), "well-formed match zone")
    c.requires(And(clock_ok(m, x), clock_ok(m, y), Implies(m["useInterval"], x != y)), "two clocks of the zone")
    c.requires(gwf(g), "one of the four comparisons")
    v = c.ghost("v", VAL)
    c.inst = {"IntermediateZone::tighten": [TV(v)]}
    c.modifies(c.this)
    yield
    n = c.this.t
    c.ensures(same_shape(n, m), "same representation and clocks")
    c.ensures(wf_iz(n), "well-formed match zone")
    c.ensures(Implies(iz(v, n), And(iz(v, m), sat_rel(v[x] - v[y], g))), "only members satisfying the guard on x - reset remain")
    c.ensures(Implies(And(iz(v, m), sat_rel(v[x] - v[y], g)), iz(v, n)), "every member satisfying the guard on x - reset remains")


def tighten_time(c):
    """(x, guard, t): guard on x - t for a fixed time t"""
    m = c.this.t
    x, g, t = c.arg(0).t, c.arg(1).t, c.arg(2).t
    c.requires(wf_iz(m), "well-formed match zone")
    c.requires(And(clock_ok(m, x), x != 0), "a clock of the zone")
    c.requires(gwf(g), "one of the four comparisons")
    c.requires(fin(t), "finite time")
    v = c.ghost("v", VAL)
    c.inst = {"IntermediateZone::tighten": [TV(v)]}
    c.modifies(c.this)
    yield
    n = c.this.t
    d = v[x] - v[0] - t["r"]
    c.ensures(same_shape(n, m), "same representation and clocks")
    c.ensures(wf_iz(n), "well-formed match zone")
    c.ensures(Implies(iz(v, n), And(iz(v, m), sat_rel(d, g))), "only members satisfying the guard on x - t remain")
    c.ensures(Implies(And(iz(v, m), sat_rel(d, g)), iz(v, n)), "every member satisfying the guard on x - t remains")


def rt_ok(z, rt, lowest=0):
    """reset times: finite numbers, or clocks of the zone other than the newest"""
    q = fi()
    e = tselect(rt["at"], q)
    return ForAll([q], Implies(And(0 <= q, q < rt["len"]), And(
        Or(e["which"] == 0, e["which"] == 1),
        Implies(e["which"] == 0, fin(e["0"])),
        Implies(e["which"] == 1, And(clock_ok(z, e["1"]), e["1"] >= lowest, Implies(And(z["useInterval"], iv(lowest) == 0), e["1"] != z["newestClock"]))))), patterns=[e["which"]])


def guards_ok(gs, rt):
    q = fi()
    g = tselect(gs["at"], q)
    return ForAll([q], Implies(And(0 <= q, q < gs["len"]), And(gwf(g), g["x"] < rt["len"])), patterns=[g["x"]])


def guard_now(v, z, g, rt):
    """the guard holds at the newest time: newest - (its reset time)"""
    e = tselect(rt["at"], g["x"])
    d = If(e["which"] == 0, v[z["newestClock"]] - v[0] - e["0"]["r"], v[z["newestClock"]] - v[e["1"]])
    return sat_rel(d, g)


def guard_at(v, t, g, rt):
    """the guard holds at the fixed time t"""
    e = tselect(rt["at"], g["x"])
    d = If(e["which"] == 0, t["r"] - e["0"]["r"], t["r"] - (v[e["1"]] - v[0]))
    return sat_rel(d, g)


def all_guards(gs, f, upto=None):
    q = fi()
    g = tselect(gs["at"], q)
    return ForAll([q], Implies(And(0 <= q, q < (gs["len"] if upto is None else upto)), f(g)), patterns=[g["x"]])


def tighten_guards(c):
    m = c.this.t
    gs, rt = c.arg(0).t, c.arg(1).t
    c.requires(wf_iz(m), "well-formed match zone")
    c.requires(guards_ok(gs, rt), "guards on known clocks")
    c.requires(rt_ok(m, rt), "reset times are numbers or clocks of the zone")
    c.requires(Implies(m["useInterval"], m["newestClock"] >= 1), "there is a newest clock")
    v = c.ghost("v", VAL)
    c.inst = {"IntermediateZone::tighten": [TV(v)]}
    c.modifies(c.this)

    def inv(L):
        n = L.this.t
        yield "shape", And(same_shape(n, m), wf_iz(n))
        yield "members satisfy the guards so far", Implies(iz(v, n), And(iz(v, m), all_guards(gs, lambda g: guard_now(v, m, g, rt), L.K)))
        yield "members satisfying the guards so far remain", Implies(And(iz(v, m), all_guards(gs, lambda g: guard_now(v, m, g, rt), L.K)), iz(v, n))
    c.loop(0, inv)
    yield
    n = c.this.t
    c.ensures(same_shape(n, m), "same representation and clocks")
    c.ensures(wf_iz(n), "well-formed match zone")
    c.ensures(Implies(iz(v, n), And(iz(v, m), all_guards(gs, lambda g: guard_now(v, m, g, rt)))), "only members satisfying all guards at the newest time remain")
    c.ensures(Implies(And(iz(v, m), all_guards(gs, lambda g: guard_now(v, m, g, rt))), iz(v, n)), "every member satisfying all guards at the newest time remains")


def tighten_guards_at(c):
    m = c.this.t
    gs, rt, t = c.arg(0).t, c.arg(1).t, c.arg(2).t
    c.requires(wf_iz(m), "well-formed match zone")
    c.requires(guards_ok(gs, rt), "guards on known clocks")
    c.requires(rt_ok(m, rt, 1), "reset times are numbers or clocks of the zone")
    c.requires(fin(t), "finite time")
    v = c.ghost("v", VAL)
    c.inst = {"IntermediateZone::tighten": [TV(v)], "Zone::makeUnsat": [{"v": v}]}
    c.modifies(c.this)

    def inv(L):
        n = L.this.t
        yield "shape", And(same_shape(n, m), wf_iz(n))
        yield "no member appears", Implies(iz(v, n), iz(v, m))
        yield "members satisfy the guards so far", Implies(iz(v, n), all_guards(gs, lambda g: guard_at(v, t, g, rt), L.K))
        yield "members satisfying the guards so far remain", Implies(And(iz(v, m), all_guards(gs, lambda g: guard_at(v, t, g, rt), L.K)), iz(v, n))
    c.loop(0, inv)
    yield
    n = c.this.t
    c.ensures(same_shape(n, m), "same representation and clocks")
    c.ensures(wf_iz(n), "well-formed match zone")
    c.ensures(Implies(iz(v, n), And(iz(v, m), all_guards(gs, lambda g: guard_at(v, t, g, rt)))), "only members satisfying all guards at the time remain")
    c.ensures(Implies(And(iz(v, m), all_guards(gs, lambda g: guard_at(v, t, g, rt))), iz(v, n)), "every member satisfying all guards at the time remains")


def sat_canon(c):
    m = c.this.t
    c.requires(wf_iz(m), "well-formed match zone")
    v = c.ghost("v", VAL)
    c.modifies()
    yield
    r = c.result.t
    c.ensures(Implies(iz(v, m), r), "not reported empty when it has a member")
    c.ensures(Implies(And(r, Not(m["useInterval"])), diag_nonneg_pairs(m["value"])), "no negative cycle of two clocks when reported non-empty")
    w, u = fr("w"), fr("u")
    q1 = And(le_ub(w, up(m, 0)), le_ub(-w, lo(m, 0)))
    c.ensures(Implies(And(r, m["useInterval"], m["intervals"]["len"] == 1), Exists([w], q1)), "a member exists when one cell is reported non-empty")
    c.lemma(Implies(And(r, m["useInterval"]), nonneg3(m)), "no negative pair of cells when reported non-empty")
    vv = {0: RealVal(0), 1: w, 2: u}
    c.ensures(Implies(And(r, m["useInterval"], m["intervals"]["len"] == 3, wf_cells(m, True), cl3(m)), Exists([w, u], in_cells(vv, m))), "a member exists when three canonical cells are reported non-empty")


def diag_nonneg_pairs(m):
    i, j = fi("i"), fi("j")
    n = m["rows"]
    return ForAll([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < n), ble(ZPOS, badd(ent(m, i, j), ent(m, j, i)))), patterns=[mpat(m, i, j)])


def toans(c):
    m = c.this.t
    c.requires(wf_iz(m), "well-formed match zone")
    v = c.ghost("v", VAL)
    c.modifies(c.arg(0))
    yield
    a = c.arg(0).value.t
    n = m["newestClock"]
    c.ensures(And(a["rows"] == 3, a["cols"] == 3), "a zone over t and t'")
    three = And(m["useInterval"], m["intervals"]["len"] == 3)
    c.ensures(Implies(three, And(beq(ent(a, 1, 0), up(m, 0)), beq(ent(a, 0, 1), lo(m, 0)), beq(ent(a, 2, 0), up(m, 1)), beq(ent(a, 0, 2), lo(m, 1)), beq(ent(a, 2, 1), up(m, 2)), beq(ent(a, 1, 2), lo(m, 2)))), "exactly the cells for t, t' and t'-t")
    mv = m["value"]
    c.ensures(Implies(Not(m["useInterval"]), And(beq(ent(a, 1, 0), ent(mv, 1, 0)), beq(ent(a, 0, 1), ent(mv, 0, 1)), beq(ent(a, 2, 0), ent(mv, n, 0)), beq(ent(a, 0, 2), ent(mv, 0, n)), beq(ent(a, 2, 1), ent(mv, n, 1)), beq(ent(a, 1, 2), ent(mv, 1, n)))), "exactly the matrix bounds for t, t' and t'-t")
    c.ensures(And(*[beq(ent(a, i, i), ZPOS) for i in range(3)]), "diagonal")


def dealloc(c):
    m = c.this.value.t
    x = c.arg(0).t
    c.requires(And(square(m), x < m["rows"]), "a clock of the zone")
    c.modifies(c.this.value)
    yield
    n = c.this.value.t
    c.ensures(And(n["rows"] == m["rows"], n["cols"] == m["cols"]), "same dimension")
    i, j = fi("i"), fi("j")
    e = ent(n, i, j)
    c.ensures(ForAll([i, j], Implies(And(0 <= i, i < m["rows"], 0 <= j, j < m["rows"]),
              If(And(i == x, j == x), beq(e, ZPOS), If(Or(i == x, j == x), And(e["first"]["k"] == 1, Not(e["second"])), teq(e, ent(m, i, j))))), patterns=[mpat(n, i, j)]), "exactly the bounds of x are dropped")


def update(c):
    m = c.this.t
    rt = c.arg(0).t
    mv = m["value"]
    c.requires(wf_iz(m), "well-formed match zone")
    c.requires(Implies(Not(m["useInterval"]), rt_ok2(m, rt)), "reset times are numbers or clocks of the zone")
    c.requires(Implies(Not(m["useInterval"]), mv["rows"] <= 255), "clock numbers fit")
    c.modifies(c.this)

    def keep(x, upto=None):
        q = fi()
        e = tselect(rt["at"], q)
        return Or(x == 0, x == 1, x == m["newestClock"], Exists([q], And(0 <= q, q < (rt["len"] if upto is None else upto), e["which"] == 1, e["1"] == x)))

    def inv0(L):
        a = L.this.isAllocated.t
        q = fi()
        yield "length", a["len"] == mv["rows"]
        yield "kept so far", ForAll([q], Implies(And(0 <= q, q < a["len"]), a["at"][q] == keep(q, L.K)), patterns=[a["at"][q]])
        yield "rest", And(teq(L.this.value.t, mv), L.this.newestClock.t == m["newestClock"])

    def inv1(L):
        n = L.this.value.t
        a = L.this.isAllocated.t
        i, j = fi("i"), fi("j")
        e = ent(n, i, j)
        q = fi()
        gone = lambda y: And(1 <= y, y < L.K + 1, Not(a["at"][y]))
        yield "dimension", And(n["rows"] == mv["rows"], n["cols"] == mv["cols"])
        yield "entries", ForAll([i, j], Implies(And(0 <= i, i < mv["rows"], 0 <= j, j < mv["rows"]),
            If(Or(gone(i), gone(j)), If(i == j, beq(e, ZPOS), And(e["first"]["k"] == 1, Not(e["second"]))), teq(e, ent(mv, i, j)))), patterns=[mpat(n, i, j)])
    c.loop(0, inv0)
    c.loop(1, inv1)
    yield
    n = c.this.t
    nv = n["value"]
    c.ensures(And(n["useInterval"] == m["useInterval"], n["newestClock"] == m["newestClock"]), "same representation")
    c.ensures(Implies(m["useInterval"], teq(n["intervals"], m["intervals"])), "cells are kept")
    i, j = fi("i"), fi("j")
    e = ent(nv, i, j)
    c.ensures(Implies(Not(m["useInterval"]), And(nv["rows"] == mv["rows"], nv["cols"] == mv["cols"])), "same dimension")
    c.ensures(Implies(Not(m["useInterval"]), ForAll([i, j], Implies(And(0 <= i, i < mv["rows"], 0 <= j, j < mv["rows"]),
        If(And(keep(i), keep(j)), teq(e, ent(mv, i, j)), If(i == j, beq(e, ZPOS), And(e["first"]["k"] == 1, Not(e["second"]))))), patterns=[mpat(nv, i, j)])), "bounds among the constant, t, the newest clock and the clocks of reset times are kept, the others are forgotten")
    q = fi()
    c.ensures(Implies(Not(m["useInterval"]), ForAll([q], Implies(And(0 <= q, q < mv["rows"]), n["isAllocated"]["at"][q] == keep(q)), patterns=[n["isAllocated"]["at"][q]])), "exactly the kept clocks are marked allocated")


def rt_ok2(z, rt):
    q = fi()
    e = tselect(rt["at"], q)
    return ForAll([q], Implies(And(0 <= q, q < rt["len"]), And(Or(e["which"] == 0, e["which"] == 1), Implies(e["which"] == 1, e["1"] < z["value"]["rows"]))), patterns=[e["which"]])


def ctor_interval(c):
    it = c.arg(0).t
    v = c.ghost("v", VAL)
    c.requires(And(wf_interval(it), Implies(it["upperBound"]["first"]["k"] == 1, Not(it["upperBound"]["second"]))), "an interval")
    c.modifies(c.this)
    yield
    n = c.this.t
    c.ensures(And(n["useInterval"], n["intervals"]["len"] == 1, n["newestClock"] == 1), "interval form")
    c.ensures(wf_iz(n), "well-formed match zone")
    c.ensures(iz(v, n) == in_interval(v[1] - v[0], it), "t ranges over exactly the interval")


def alloc_inv(z):
    """matrix form: the constant, t and the newest clock are allocated; a free clock is unconstrained"""
    m, a = z["value"], z["isAllocated"]
    x, j = fi("x"), fi("j")
    free = lambda e, same: If(same, beq(e, ZPOS), And(e["first"]["k"] == 1, Not(e["second"])))
    return Implies(Not(z["useInterval"]), And(
        a["at"][0], a["at"][1], a["at"][z["newestClock"]],
        ForAll([x, j], Implies(And(0 <= x, x < m["rows"], 0 <= j, j < m["rows"], Or(Not(a["at"][x]), Not(a["at"][j]))), free(ent(m, x, j), x == j)), patterns=[mpat(m, x, j)])))


def alloc(c):
    m = c.this.t
    ub, lb = c.arg(0).t, c.arg(1).t
    c.requires(wf_iz(m), "well-formed match zone")
    c.requires(alloc_inv(m), "free clocks are unconstrained")
    c.requires(And(wf_b(ub), wf_b(lb)), "finite or +inf bounds")
    c.requires(Implies(Not(m["useInterval"]), m["value"]["rows"] <= 255), "clock numbers fit")
    c.requires(Implies(m["useInterval"], m["isAllocated"]["len"] == 0), "no clock is allocated in interval form")
    c.requires(Implies(m["useInterval"], wf_cells(m, True)), "cells are finite or +inf")
    v, i, j = c.ghost("v", VAL), c.ghost("i", I), c.ghost("j", I)
    c.modifies(c.this)
    filled = []

    def closing(L):
        n, o = L.this.value.t, L.entry_acc(L.this.value).t
        filled.append(o)
        yield "dimension", And(n["rows"] == o["rows"], n["cols"] == o["cols"])
        yield "wf", wfc(n)
        yield "set kept (=>)", Implies(inzone(v, o), inzone(v, n))
        yield "set kept (<=)", Implies(inzone(v, n), inzone(v, o))
        al = L.this.isAllocated.t["at"]
        p, q = fi("p"), fi("q")
        nk = L.local("newClock").t
        yield "others kept", ForAll([p, q], Implies(And(0 <= p, p < n["rows"], 0 <= q, q < n["rows"], p != nk, q != nk), teq(ent(n, p, q), ent(o, p, q))), patterns=[mpat(n, p, q)])
        yield "free clocks stay unconstrained", ForAll([p, q], Implies(And(0 <= p, p < n["rows"], 0 <= q, q < n["rows"], Or(Not(al[p]), Not(al[q]))), If(p == q, beq(ent(n, p, q), ZPOS), And(ent(n, p, q)["first"]["k"] == 1, Not(ent(n, p, q)["second"])))), patterns=[mpat(n, p, q)])
    c.loop(0, closing)
    c.loop(1, closing)
    c.loop(2, closing)
    yield
    n = c.this.t
    k = c.result.t
    c.ensures(wf_iz(n), "well-formed match zone")
    c.ensures(And(k == n["newestClock"], k >= 1), "the new clock is returned and is the newest")
    c.ensures(If(And(m["useInterval"], m["intervals"]["len"] == 1), And(n["useInterval"], n["intervals"]["len"] == 3, k == 2), Not(n["useInterval"])), "form")
    c.ensures(Implies(Not(m["useInterval"]), And(k != 0, k != 1, k != m["newestClock"], Or(k == m["value"]["rows"], Not(m["isAllocated"]["at"][k])))), "the clock was free")
    new = And(le_ub(v[k] - v[0], ub), le_ub(v[0] - v[k], lb), v[m["newestClock"]] <= v[k])
    c.ensures(Implies(iz(v, n), new), "members have the new clock within its bounds and not before the newest")
    if filled:
        o = filled[0]
        R_ = m["value"]["rows"]
        c.lemma(Implies(And(Not(m["useInterval"]), 0 <= i, i < R_, 0 <= j, j < R_, inzone(v, o)), And(i < o["rows"], j < o["cols"], le_ub(v[i] - v[j], ent(o, i, j)))), "the bounds before closing hold of the members")
        c.lemma(Implies(And(Not(m["useInterval"]), 0 <= i, i < R_, 0 <= j, j < R_, inzone(v, o)), le_ub(v[i] - v[j], ent(m["value"], i, j))), "the old bounds hold of the members")
    one, three = And(m["useInterval"], m["intervals"]["len"] == 1), And(m["useInterval"], m["intervals"]["len"] == 3)
    c.ensures(Implies(And(iz(v, n), one), iz(v, m)), "members are members of the old zone (one cell)")
    c.ensures(Implies(And(iz(v, n), three), iz(v, m)), "members are members of the old zone (three cells)")
    mv = m["value"]
    # i, j are ghosts: for all i, j
    c.ensures(Implies(And(Not(m["useInterval"]), iz(v, n), 0 <= i, i < mv["rows"], 0 <= j, j < mv["rows"]), le_ub(v[i] - v[j], ent(mv, i, j))), "members are members of the old zone (matrix)")
    c.ensures(Implies(And(iz(v, m), new), iz(v, n)), "every such extension is a member")
    c.ensures(Implies(Not(n["useInterval"]), And(n["isAllocated"]["at"][k], Implies(Not(m["useInterval"]), n["isAllocated"]["at"][m["newestClock"]]))), "the new clock is marked allocated")
    c.ensures(alloc_inv(n), "free clocks are unconstrained")
    A, a = up(m, 0), lo(m, 0)
    c.ensures(Implies(And(m["useInterval"], m["intervals"]["len"] == 1, ble(ZPOS, badd(A, a)), ble(ZPOS, badd(ub, lb)), ble(A, ub), ble(lb, a)), cl3(n)), "the three cells are the tightest ones when the new bounds are those of a later interval")


CONTRACTS = [
    Contract("IntermediateZone::alloc", alloc),
    Contract("IntermediateZone::IntermediateZone", ctor_interval, params=["struct Interval"]),
    Contract("IntermediateZone::tighten", tighten_xy, params=["const unsigned char", "const unsigned char", "pair<double"]),
    Contract("IntermediateZone::tighten", tighten_clock, params=["unsigned char", "Constraint", "const unsigned char"]),
    Contract("IntermediateZone::tighten", tighten_time, params=["unsigned char", "Constraint", "const double"]),
    Contract("IntermediateZone::tighten", tighten_guards, params=["vector<struct Constraint", "vector<class boost::variant"]),
    Contract("IntermediateZone::tighten", tighten_guards_at, params=["vector<struct Constraint", "vector<class boost::variant", "const double"]),
    Contract("IntermediateZone::isSatisfiableCanonized", sat_canon),
    Contract("IntermediateZone::toAns", toans),
    Contract("IntermediateZone::deallocate", dealloc),
    Contract("IntermediateZone::update", update),
] + [Contract(k.name, k.spec, params=k.params, check=False) for k in _zone.CONTRACTS if k.name in ("Zone::close1", "Zone::zero", "Zone::makeUnsat")]
