"""P: DBM zones (libmonaa/zone.hh)"""
from common import *
from models import lin_fns

BND = ("pair", ("double",), ("bool",))


def badd(a, b):
    return {"first": dadd(a["first"], b["first"]), "second": And(a["second"], b["second"])}


def blt(a, b):
    """lexicographic order of std::pair<double,bool> on NaN-free bounds"""
    return Or(dlt(a["first"], b["first"]), And(dsame(a["first"], b["first"]), Not(a["second"]), b["second"]))


def dsame(a, b):
    return And(a["k"] == b["k"], Implies(a["k"] == 0, a["r"] == b["r"]))


def ble(a, b):
    return Not(blt(b, a))


def beq(a, b):
    return And(dsame(a["first"], b["first"]), a["second"] == b["second"])


def bmin(a, b):
    return tite(blt(b, a), b, a)


def wf_b(b):
    """a DBM entry: finite, or the +inf bound (never marked as attained)"""
    return Or(b["first"]["k"] == 0, And(b["first"]["k"] == 1, Not(b["second"])))


def ent(m, i, j):
    return tselect(tselect(m["at"], iv(i) if isinstance(i, int) else i), iv(j) if isinstance(j, int) else j)


def mpat(m, i, j):
    return leaves(ent(m, i, j))[0]


def all_ij(m, f, extra=()):
    i, j = fi("i"), fi("j")
    n = m["rows"]
    return ForAll([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < n), f(i, j)), patterns=[mpat(m, i, j)] + [mpat(x, i, j) for x in extra])


def square(m):
    return And(m["rows"] == m["cols"], m["rows"] >= 1, m["rows"] <= 256)


ABSTRACT = False     # callers may use the names below for wf, wfc and inzone instead of the formulas


def named(name, m, *pre):
    ls = list(pre) + [m["rows"], m["cols"]] + leaves(m["at"])
    return z3.Function(name, *([x.sort() for x in ls] + [z3.BoolSort()]))(*ls)


def wf(m):
    if ABSTRACT:
        return And(square(m), named("wf", m))
    return And(square(m), all_ij(m, lambda i, j: wf_b(ent(m, i, j))))


def wf_c(b):
    """as wf_b, or the -inf bound that makeUnsat writes"""
    return Or(b["first"]["k"] == 0, And(Or(b["first"]["k"] == 1, b["first"]["k"] == -1), Not(b["second"])))


def wfc(m):
    if ABSTRACT:
        return And(square(m), Or(named("wf", m), named("wfc", m)))
    return And(square(m), all_ij(m, lambda i, j: wf_c(ent(m, i, j))))


def inzone(v, m, but=None):
    """valuation v (v[0] is the constant's value) satisfies every entry of m (except row/column `but`)"""
    if ABSTRACT:
        return named("inzone", m, v) if but is None else named("inzone_but", m, v, but)
    i, j = fi("i"), fi("j")
    n = m["rows"]
    g = And(0 <= i, i < n, 0 <= j, j < n)
    if but is not None:
        g = And(g, i != but, j != but)
    return ForAll([i, j], Implies(g, le_ub(v[i] - v[j], ent(m, i, j))), patterns=[mpat(m, i, j)])


ZPOS = {"first": D(0), "second": BoolVal(True)}


WHOLE = z3.Function("whole_number", R, z3.BoolSort())


def whole(m):
    """every finite bound is a whole number"""
    return all_ij(m, lambda i, j: Implies(ent(m, i, j)["first"]["k"] == 0, WHOLE(ent(m, i, j)["first"]["r"])))


def about_whole(c, sums=None, ints=False):
    """WHOLE names z3's is_int (the solver's own treatment of it does not terminate here); these facts about it are used"""
    if c.mode == "verify":
        a = fr()
        if sums:
            m, x = sums
            i, j = fi("i"), fi("j")
            a, b = ent(m, i, x)["first"]["r"], ent(m, x, j)["first"]["r"]
            c.given(ForAll([i, j], Implies(And(WHOLE(a), WHOLE(b)), WHOLE(a + b)), patterns=[z3.MultiPattern(WHOLE(a), WHOLE(b))]))
        else:
            c.given(ForAll([a], WHOLE(a) == WHOLE(-a), patterns=[WHOLE(a)]))
        if ints:
            c.given(ForAll([a], WHOLE(a) == z3.IsInt(a), patterns=[WHOLE(a)]))


def nonneg(m, i):
    return ble(ZPOS, ent(m, i, i))


def closed_via(m, l):
    """no detour through l is shorter"""
    i, j = fi("i"), fi("j")
    n = m["rows"]
    return ForAll([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < n), ble(ent(m, i, j), badd(ent(m, i, l), ent(m, l, j)))), patterns=[mpat(m, i, j)])


def closed(m, upto=None):
    i, j, l = fi("i"), fi("j"), fi("l")
    n = m["rows"]
    return ForAll([i, j, l], Implies(And(0 <= i, i < n, 0 <= j, j < n, 0 <= l, l < (n if upto is None else upto)), ble(ent(m, i, j), badd(ent(m, i, l), ent(m, l, j)))),
                  patterns=[z3.MultiPattern(mpat(m, i, l), mpat(m, l, j))])


def diag_nonneg(m):
    i = fi("i")
    return ForAll([i], Implies(And(0 <= i, i < m["rows"]), nonneg(m, i)), patterns=[mpat(m, i, i)])


VAL = z3.ArraySort(I, R)


def dim(c, x):
    """internal index of an external clock; 255 (that is -1) denotes the constant"""
    return If(x == 255, IntVal(0), x + 1)


def NE(m):
    """the zone has a valuation; a name for `exists v. inzone(v, m)` in the contracts' callers"""
    return named("zone_nonempty", m)


def close1(c):
    m, x = c.this.value.t, c.arg(0).t
    about_whole(c, sums=(m, x))
    whole_m = whole(m)
    c.requires(wfc(m), "square matrix of bounds")
    c.requires(And(0 <= x, x < m["rows"]), "x is an index of the matrix")
    v, l = c.ghost("v", VAL), c.ghost("l", I)
    c.given(And(0 <= l, l < m["rows"]), "l is an index of the matrix")
    c.modifies(c.this.value)

    def inv(L):
        n = L.this.value.t
        i, j = fi("i"), fi("j")
        K = L.K
        yield "dimension", And(n["rows"] == m["rows"], n["cols"] == m["cols"])
        rng = And(0 <= i, i < m["rows"], 0 <= j, j < m["rows"])
        yield "wf", ForAll([i, j], Implies(rng, And(wf_c(ent(n, i, j)), Implies(wf(m), wf_b(ent(n, i, j))))), patterns=[mpat(n, i, j)])
        yield "rows below K are shortened through x", ForAll([i, j], Implies(And(rng, i < K, nonneg(m, x)), beq(ent(n, i, j), bmin(ent(m, i, j), badd(ent(m, i, x), ent(m, x, j))))), patterns=[mpat(n, i, j)])
        yield "rows from K are untouched", ForAll([i, j], Implies(And(rng, i >= K), teq(ent(n, i, j), ent(m, i, j))), patterns=[mpat(n, i, j)])
        yield "no bound grows", ForAll([i, j], Implies(rng, ble(ent(n, i, j), ent(m, i, j))), patterns=[mpat(n, i, j)])
        yield "whole numbers", Implies(And(whole_m, nonneg(m, x)), whole(n))
        yield "row x", ForAll([j], Implies(And(0 <= j, j < m["rows"], nonneg(m, x)), teq(ent(n, x, j), ent(m, x, j))), patterns=[mpat(n, x, j)])
        yield "set kept (=>)", Implies(inzone(v, m), inzone(v, n))
    c.loop(0, inv)
    yield
    n = c.this.value.t
    i, j = fi("i"), fi("j")
    rng = And(0 <= i, i < m["rows"], 0 <= j, j < m["rows"])
    c.ensures(And(n["rows"] == m["rows"], n["cols"] == m["cols"]), "same dimension")
    c.ensures(And(wfc(n), Implies(wf(m), wf(n))), "bounds stay well formed")
    c.ensures(ForAll([i, j], Implies(And(rng, nonneg(m, x)), beq(ent(n, i, j), bmin(ent(m, i, j), badd(ent(m, i, x), ent(m, x, j))))), patterns=[mpat(n, i, j)]), "D'(i,j) = min(D(i,j), D(i,x)+D(x,j)) unless x lies on a negative cycle")
    c.ensures(ForAll([i, j], Implies(rng, ble(ent(n, i, j), ent(m, i, j))), patterns=[mpat(n, i, j), mpat(m, i, j)]), "no bound grows")
    c.ensures(Implies(diag_nonneg(n), diag_nonneg(m)), "a negative diagonal entry stays negative")
    c.ensures(Implies(And(whole_m, nonneg(m, x)), whole(n)), "whole numbers stay whole unless x lies on a negative cycle")
    c.ensures(Implies(inzone(v, m), inzone(v, n)), "no valuation is lost")
    c.lemma(Implies(inzone(v, n), inzone(v, m)), "no valuation is added")
    c.ensures(Implies(And(wf(m), nonneg(m, x)), closed_via(n, x)), "no shorter detour through x")
    c.ensures(Implies(And(wf(m), nonneg(m, x), closed_via(m, l)), closed_via(n, l)), "no shorter detour through l appears")


def canonize(c):
    m = c.this.value.t
    whole_m = whole(m)
    c.requires(wfc(m), "square matrix of bounds")
    v, l = c.ghost("v", VAL), c.ghost("l", I)
    iz = inzone(v, m)
    c.given(And(0 <= l, l < m["rows"]), "l is an index of the matrix")
    c.inst = {"Zone::close1": [{"v": v, "l": l}]}
    c.modifies(c.this.value)

    def inv(L):
        n = L.this.value.t
        yield "dimension", And(n["rows"] == m["rows"], n["cols"] == m["cols"])
        yield "wf", And(wfc(n), Implies(wf(m), wf(n)))
        i, j = fi("i"), fi("j")
        yield "no bound grows", ForAll([i, j], Implies(And(0 <= i, i < m["rows"], 0 <= j, j < m["rows"]), ble(ent(n, i, j), ent(m, i, j))), patterns=[mpat(n, i, j)])
        yield "whole numbers", Implies(And(whole_m, iz), whole(n))
        yield "closed below K", Implies(And(wf(m), diag_nonneg(n), l < L.K), closed_via(n, l))
        yield "set kept (=>)", Implies(inzone(v, m), inzone(v, n))
    c.loop(0, inv)
    yield
    n = c.this.value.t
    i, j = fi("i"), fi("j")
    c.ensures(And(n["rows"] == m["rows"], n["cols"] == m["cols"]), "same dimension")
    c.ensures(And(wfc(n), Implies(wf(m), wf(n))), "bounds stay well formed")
    c.ensures(ForAll([i, j], Implies(And(0 <= i, i < m["rows"], 0 <= j, j < m["rows"]), ble(ent(n, i, j), ent(m, i, j))), patterns=[mpat(n, i, j), mpat(m, i, j)]), "no bound grows")
    c.ensures(Implies(And(wf(m), diag_nonneg(n)), closed_via(n, l)), "every bound is the tightest one, or a negative cycle shows on the diagonal")
    c.ensures(Implies(And(whole_m, iz), whole(n)), "whole numbers stay whole in a zone with a valuation")
    c.ensures(Implies(inzone(v, m), inzone(v, n)), "no valuation is lost")
    c.ensures(Implies(inzone(v, n), inzone(v, m)), "no valuation is added")
    c.by_rule(None, Implies(NE(m), NE(n)))  # no valuation is lost
    c.by_rule(Implies(inzone(v, n), nonneg(n, 0)), Implies(NE(n), nonneg(n, 0)), "the constant's entry admits 0 when the zone has a valuation")


def satisfiable(c):
    m = c.this.value.t
    c.requires(wfc(m), "square matrix of bounds")
    v, l = c.ghost("v", VAL), c.ghost("l", I)
    c.given(And(0 <= l, l < m["rows"]), "l is an index of the matrix")
    c.inst = {"Zone::canonize": [{"v": v, "l": l}]}
    c.modifies(c.this.value)
    yield
    n = c.this.value.t
    r = c.result.t
    i, j = fi("i"), fi("j")
    c.ensures(And(n["rows"] == m["rows"], n["cols"] == m["cols"]), "same dimension")
    c.ensures(And(wfc(n), Implies(wf(m), wf(n))), "bounds stay well formed")
    c.ensures(Implies(inzone(v, m), inzone(v, n)), "no valuation is lost")
    c.ensures(Implies(inzone(v, n), inzone(v, m)), "no valuation is added")
    c.ensures(Implies(inzone(v, m), r), "not reported empty when some valuation is in the zone")
    c.lemma(Implies(r, diag_nonneg(n)), "no negative cycle when reported non-empty")
    c.ensures(Implies(And(wf(m), r), closed_via(n, l)), "closed when reported non-empty")
    # closed + nonnegative diagonal => a valuation exists: lemma closed_nonempty in lemmas/Dbm.lean
    c.by_rule(None, Implies(And(wf(m), r), NE(n)))


def tighten(c):
    m, b = c.this.value.t, c.arg(2).t
    x, y = dim(c, c.arg(0).t), dim(c, c.arg(1).t)
    c.requires(wfc(m), "square matrix of bounds")
    c.requires(And(x < m["rows"], y < m["rows"]), "clocks of the zone")
    c.requires(wf_c(b), "finite or infinite bound")
    v, l = c.ghost("v", VAL), c.ghost("l", I)
    c.given(And(0 <= l, l < m["rows"]), "l is an index of the matrix")
    c.inst = {"Zone::close1": [{"v": v, "l": l}]}
    c.modifies(c.this.value)
    yield
    n = c.this.value.t
    c.ensures(And(n["rows"] == m["rows"], n["cols"] == m["cols"]), "same dimension")
    c.ensures(And(wfc(n), Implies(And(wf(m), wf_b(b)), wf(n))), "bounds stay well formed")
    c.ensures(Implies(inzone(v, n), And(inzone(v, m), le_ub(v[x] - v[y], b))), "only valuations of the zone with x - y below the bound remain")
    c.ensures(Implies(And(inzone(v, m), le_ub(v[x] - v[y], b)), inzone(v, n)), "every valuation of the zone with x - y below the bound remains")


def reset(c):
    m = c.this.value.t
    x = dim(c, c.arg(0).t)
    c.requires(wf(m), "square matrix of finite or +inf bounds")
    c.requires(And(x >= 1, x < m["rows"]), "a clock of the zone")
    v = c.ghost("v", VAL)
    c.modifies(c.this.value)
    yield
    n = c.this.value.t
    c.ensures(And(n["rows"] == m["rows"], n["cols"] == m["cols"]), "same dimension")
    c.ensures(wf(n), "finite or +inf bounds")
    c.ensures(Implies(inzone(v, n), And(v[x] == v[0], inzone(v, m, but=x))), "afterwards x is 0 and the other clocks are as before")
    c.ensures(Implies(And(v[x] == v[0], inzone(v, m, but=x)), inzone(v, n)), "every valuation of the other clocks, with x = 0, is in the zone")
    w = z3.Store(v, x, v[0])
    c.ensures(Implies(inzone(v, m), inzone(w, n)), "v in the zone implies v[x:=0] in the zone afterwards")
    c.by_rule(None, Implies(NE(m), NE(n)))  # by the previous one
    i, j = fi("i"), fi("j")
    c.ensures(Implies(And(closed(m), diag_nonneg(m), beq(ent(m, 0, 0), ZPOS)), closed(n)), "a canonical zone stays canonical")


def elapse(c):
    m = c.this.value.t
    c.requires(wf(m), "square matrix of finite or +inf bounds")
    v, d = c.ghost("v", VAL), c.ghost("d", R)
    c.modifies(c.this.value)

    def inv(L):
        n = L.this.value.t
        i, j = fi("i"), fi("j")
        K = L.K
        yield "dimension", And(n["rows"] == m["rows"], n["cols"] == m["cols"])
        rng = And(0 <= i, i < m["rows"], 0 <= j, j < m["rows"])
        e, o = ent(n, i, j), ent(m, i, j)
        yield "entries", ForAll([i, j], Implies(rng, And(
            Implies(j == 0, And(e["first"]["k"] == 1, Not(e["second"]))),
            Implies(And(j != 0, i != 0), teq(e, o)),
            Implies(And(j != 0, i == 0), And(dsame(e["first"], o["first"]), e["second"] == And(o["second"], j >= K))))), patterns=[mpat(n, i, j)])
    c.loop(0, inv)
    yield
    n = c.this.value.t
    i, j = fi("i"), fi("j")
    q = fi("q")
    c.ensures(And(n["rows"] == m["rows"], n["cols"] == m["cols"]), "same dimension")
    c.ensures(wf(n), "finite or +inf bounds")
    c.ensures(ForAll([i], Implies(And(0 <= i, i < n["rows"]), ent(n, i, 0)["first"]["k"] == 1), patterns=[mpat(n, i, 0)]), "no upper bound remains")
    c.ensures(ForAll([i, j], Implies(And(1 <= i, i < n["rows"], 1 <= j, j < n["rows"]), beq(ent(n, i, j), ent(m, i, j))), patterns=[mpat(n, i, j)]), "differences are kept")
    c.ensures(ForAll([j], Implies(And(1 <= j, j < n["rows"]), And(dsame(ent(n, 0, j)["first"], ent(m, 0, j)["first"]), Not(ent(n, 0, j)["second"]))), patterns=[mpat(n, 0, j)]), "lower bounds are kept, strictly")
    # moving the constant back by d > 0 = letting time d pass for all clocks
    c.ensures(Implies(And(inzone(v, m), d > 0), inzone(z3.Store(v, IntVal(0), v[0] - d), n)), "letting positive time pass stays in the zone")


def abstractize(c):
    m, M = c.this.value.t, c.this.M.t
    about_whole(c)
    whole_m = whole(m)
    c.requires(wf(m), "square matrix of finite or +inf bounds")
    c.requires(wf_b(M), "M is not -inf")
    v = c.ghost("v", VAL)
    c.modifies(c.this.value)
    lin = lin_fns(m["rows"], m["cols"])[2]
    low = {"first": {"k": If(M["first"]["k"] == 0, iv(0), iv(-1)), "r": -M["first"]["r"]}, "second": BoolVal(False)}
    is_inf = lambda e: And(e["first"]["k"] == 1, Not(e["second"]))
    rounded = lambda e, o: If(ble(M, o), is_inf(e), If(blt(o, low), beq(e, low), beq(e, o)))

    def inv(L):
        n = L.this.value.t
        yield "dimension", And(n["rows"] == m["rows"], n["cols"] == m["cols"])
        i, j = fi("i"), fi("j")
        e, o = ent(n, i, j), ent(m, i, j)
        yield "entries", ForAll([i, j], Implies(And(0 <= i, i < m["rows"], 0 <= j, j < m["rows"]),
              If(lin(i, j) < L.K, rounded(e, o), teq(e, o))), patterns=[mpat(n, i, j)])
    c.loop(0, inv)
    yield
    n = c.this.value.t
    c.ensures(And(n["rows"] == m["rows"], n["cols"] == m["cols"]), "same dimension")
    c.ensures(wf(n), "finite or +inf bounds")
    c.ensures(all_ij(n, lambda i, j: Implies(And(Not(ble(M, ent(m, i, j))), Not(blt(ent(m, i, j), low))), beq(ent(n, i, j), ent(m, i, j)))), "bounds between -M and M are kept")
    c.ensures(all_ij(n, lambda i, j: Implies(ble(M, ent(m, i, j)), is_inf(ent(n, i, j)))), "every bound from M on is dropped")
    c.ensures(all_ij(n, lambda i, j: Implies(And(blt(ent(m, i, j), low), Not(ble(M, ent(m, i, j)))), beq(ent(n, i, j), low))), "every bound below -M becomes the strict bound -M")
    c.ensures(all_ij(n, lambda i, j: Or(is_inf(ent(n, i, j)), And(blt(ent(n, i, j), M), ble(low, ent(n, i, j))), ble(M, low))), "the remaining bounds are between -M and M (finitely many abstract zones)")
    c.ensures(all_ij(n, lambda i, j: ble(ent(m, i, j), ent(n, i, j))), "no bound becomes tighter")
    c.ensures(Implies(And(whole_m, WHOLE(M["first"]["r"])), whole(n)), "whole numbers stay whole")
    c.ensures(Implies(inzone(v, m), inzone(v, n)), "no valuation is lost")
    c.by_rule(None, Implies(NE(m), NE(n)))  # by the previous one


def cutvars(c):
    m, a, b = c.this.value.t, c.arg(1).t, c.arg(2).t
    c.requires(wf(m), "square matrix of finite or +inf bounds")
    c.requires(And(a <= b, b + 1 < m["rows"]), "a range of clocks of the zone")
    c.modifies_heap("Zone")
    c.modifies(c.arg(0))
    yield
    o = c.arg(0).o
    n = o.value.t
    d = b - a
    c.ensures(And(n["rows"] == d + 2, n["cols"] == d + 2), "dimension of the range")
    i, j = fi("i"), fi("j")
    src = lambda i: If(i == 0, IntVal(0), i + a)
    c.ensures(ForAll([i, j], Implies(And(0 <= i, i < d + 2, 0 <= j, j < d + 2, Or(i != 0, j != 0)), beq(ent(n, i, j), ent(m, src(i), src(j)))), patterns=[mpat(n, i, j)]), "exactly the bounds among the chosen clocks")
    c.ensures(beq(ent(n, 0, 0), ZPOS), "constant")
    c.ensures(teq(o.M.t, c.this.M.t), "M is kept")


def zero(c):
    k = c.arg(0).t
    c.requires(And(k >= 0, k <= 256), "dimension")
    c.static_inv = lambda ex, st, name, v: And(v.t["value"]["rows"] == v.t["value"]["cols"], v.t["value"]["rows"] >= 0, all_ij(v.t["value"], lambda i, j: beq(ent(v.t["value"], i, j), ZPOS)))
    yield
    n = c.result.value.t
    c.ensures(And(n["rows"] == k, n["cols"] == k), "dimension")
    c.ensures(all_ij(n, lambda i, j: beq(ent(n, i, j), ZPOS)), "all clocks are 0")
    c.ensures(Implies(k >= 1, And(wf(n), nonneg(n, 0))), "a zone over k - 1 clocks")
    v, q = c.ghost("v", VAL), fi("q")
    c.ensures(Implies(And(k >= 1, ForAll([q], v[q] == v[0], patterns=[v[q]])), inzone(v, n)), "contains the valuation with all clocks 0")


def universal(c):
    k = c.arg(0).t
    c.requires(And(k >= 0, k <= 255), "dimension")
    v = c.ghost("v", VAL)
    c.static_inv = lambda ex, st, name, s: And(s.t["value"]["rows"] == s.t["value"]["cols"], s.t["value"]["rows"] >= 0, all_ij(s.t["value"], lambda i, j: If(And(i == 0, j == 0), beq(ent(s.t["value"], i, j), ZPOS), And(ent(s.t["value"], i, j)["first"]["k"] == 1, Not(ent(s.t["value"], i, j)["second"])))))
    yield
    n = c.result.value.t
    c.ensures(And(n["rows"] == k + 1, n["cols"] == k + 1), "dimension")
    c.ensures(inzone(v, n), "contains every valuation")


def unsat(c):
    m = c.this.value.t
    c.requires(And(square(m)), "square matrix")
    v = c.ghost("v", VAL)
    c.modifies(c.this.value)
    yield
    n = c.this.value.t
    c.ensures(And(n["rows"] == m["rows"], n["cols"] == m["cols"]), "same dimension")
    c.ensures(all_ij(n, lambda i, j: Implies(Or(i != 0, j != 0), teq(ent(n, i, j), ent(m, i, j)))), "other bounds are kept")
    c.ensures(wf_c(ent(n, 0, 0)), "well-formed bound")
    c.ensures(Not(inzone(v, n)), "no valuation remains")


def equal(c):
    m, z = c.this.value.t, c.arg(0).value.t
    c.requires(And(wf(m), wf(z), m["rows"] == z["rows"]), "zones of the same dimension")
    v = c.ghost("v", VAL)
    yield
    i, j = fi("i"), fi("j")
    c.ensures(Implies(c.result.t, ForAll([i, j], Implies(And(0 <= i, i < m["rows"], 0 <= j, j < m["rows"], Or(i != 0, j != 0)), beq(ent(m, i, j), ent(z, i, j))), patterns=[mpat(m, i, j), mpat(z, i, j)])), "equal zones have equal bounds")
    same = And(*[ForAll([i, j], Implies(And(0 <= i, i < m["rows"], 0 <= j, j < m["rows"], Or(i != 0, j != 0)), beq(ent(m, i, j), ent(z, i, j))), patterns=[mpat(m, i, j), mpat(z, i, j)])])
    c.ensures(Implies(same, c.result.t), "zones with equal bounds are equal")
    for a, b in ((m, z), (z, m)):
        c.ensures(Implies(And(c.result.t, nonneg(a, 0), inzone(v, b)), inzone(v, a)), "equal zones have the same valuations")


def numvar(c):
    c.requires(And(c.this.value.t["cols"] >= 1, c.this.value.t["cols"] <= 256), "dimension")
    yield
    c.ensures(c.result.t == c.this.value.t["cols"] - 1, "dimension without the constant")


def intersection(c):
    m, z = c.this.value.t, c.arg(0).value.t
    c.requires(And(wf(m), wf(z), m["rows"] == z["rows"]), "zones of the same dimension")
    v = c.ghost("v", VAL)
    c.modifies(c.this.value)
    yield
    n = c.this.value.t
    c.ensures(And(n["rows"] == m["rows"], n["cols"] == m["cols"]), "same dimension")
    c.ensures(wf(n), "finite or +inf bounds")
    c.ensures(Implies(inzone(v, n), And(inzone(v, m), inzone(v, z))), "only common valuations remain")
    c.ensures(Implies(And(inzone(v, m), inzone(v, z)), inzone(v, n)), "every common valuation remains")


def make_guard(c):
    """the guard that a zone implies for single clocks, with constants below the abstraction constant"""
    m, M = c.this.value.t, c.this.M.t
    about_whole(c, ints=True)
    c.requires(And(wf(m), whole(m), m["rows"] <= 256), "square matrix of whole or +inf bounds")
    c.requires(And(M["first"]["k"] == 0, WHOLE(M["first"]["r"]), 0 <= M["first"]["r"], M["first"]["r"] < 2**31), "the abstraction constant is a natural number")
    v, l, k = c.ghost("v", VAL), c.ghost("l", I), c.ghost("clock", I)
    c.given(And(0 <= l, l < m["rows"], 0 <= k, k + 1 < m["rows"]), "an index and a clock")
    c.given(inzone(v, m), "v is a valuation of the zone")
    c.inst = {"Zone::canonize": [{"v": v, "l": l}], "Zone::abstractize": [{"v": v}]}
    c.modifies(c.this.value)
    low = {"first": {"k": iv(0), "r": -M["first"]["r"]}, "second": BoolVal(False)}
    num = lambda d: D(ToReal(d))

    def is_low(t, n):
        b = ent(n, 0, t["x"] + 1)
        return And(b["first"]["k"] == 0, blt(b, ZPOS), t["odr"] == If(b["second"], IntVal(2), IntVal(3)), -b["first"]["r"] == ToReal(t["c"]))

    def is_up(t, n):
        b = ent(n, t["x"] + 1, 0)
        return And(b["first"]["k"] == 0, blt(b, M), t["odr"] == If(b["second"], IntVal(1), IntVal(0)), b["first"]["r"] == ToReal(t["c"]))

    def read_off(g, n, upto):
        at, ln = g["at"], g["len"]
        q = fi()
        e = lambda i: tselect(at, i)
        some = lambda f: Or(*[And(ln >= d, f(e(ln - d))) for d in (1, 2)], Exists([q], And(0 <= q, q < ln, f(e(q))), **vpat(at["x"][q])))
        yield "every constraint is a bound of the zone", And(ln >= 0, ForAll([q], Implies(And(0 <= q, q < ln), And(0 <= at["x"][q], at["x"][q] < upto, Or(is_low(e(q), n), is_up(e(q), n)))), **vpat(at["x"][q])))
        yield "every lower bound but x >= 0 is there", Implies(And(k < upto, blt(ent(n, 0, k + 1), ZPOS)), some(lambda t: And(t["x"] == k, is_low(t, n))))
        yield "every upper bound below the abstraction constant is there", Implies(And(k < upto, blt(ent(n, k + 1, 0), M)), some(lambda t: And(t["x"] == k, is_up(t, n))))

    def inv(L):
        n = L.this.value.t
        g = [x.t for x in L.locals_by(lambda ty: ty[0] == "vec")][0]
        yield "position", L.K <= m["rows"] - 1
        yield from read_off(g, n, L.K)
    c.loop(0, inv)
    yield
    n = c.this.value.t
    for nm, f in read_off(c.result.t, n, m["rows"] - 1):
        c.ensures(f, nm)
    c.ensures(inzone(v, n), "no valuation of the zone is excluded")
    for i, j, what in ((k + 1, IntVal(0), "upper"), (IntVal(0), k + 1, "lower")):
        s = badd(ent(m, i, l), ent(m, l, j))
        c.ensures(Implies(blt(s, M), Or(ble(ent(n, i, j), s), beq(ent(n, i, j), low))), "%s bounds are the tightest implied ones, up to the abstraction constant" % what)


CONTRACTS = [
    Contract("Zone::makeGuard", make_guard),
    Contract("Zone::intersectionAssign", intersection),
    Contract("Zone::close1", close1),
    Contract("Zone::canonize", canonize),
    Contract("Zone::isSatisfiable", satisfiable),
    Contract("Zone::tighten", tighten),
    Contract("Zone::reset", reset),
    Contract("Zone::elapse", elapse),
    Contract("Zone::abstractize", abstractize),
    Contract("Zone::cutVars", cutvars),
    Contract("Zone::zero", zero),
    Contract("Zone::universal", universal),
    Contract("Zone::makeUnsat", unsat),
    Contract("Zone::operator==", equal),
    Contract("Zone::getNumOfVar", numvar),
]
