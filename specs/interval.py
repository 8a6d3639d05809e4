"""P: interval algebra (libmonaa/interval.hh)"""
from common import *


def nonempty(it):
    l, u = it["lowerBound"], it["upperBound"]
    return Or(u["first"]["k"] == 1, l["first"]["r"] < u["first"]["r"], And(l["first"]["r"] == u["first"]["r"], l["second"], u["second"]))


def contain(c):
    v, t = c.arg(0).t, c.this.t
    yield
    lb, ub = t["lowerBound"], t["upperBound"]
    c.ensures(c.result.t == And(If(lb["second"], dle(lb["first"], v), dlt(lb["first"], v)),
                                If(ub["second"], dle(v, ub["first"]), dlt(v, ub["first"]))), "value lies between the two ends, an end counts iff its flag is set")


def meet(c):
    a, b = c.arg(0).t, c.arg(1).t
    c.requires(And(wf_interval(a), wf_interval(b)), "well-formed intervals")
    x = c.ghost("x", R)
    yield
    r = c.result.t
    c.ensures(wf_interval(r), "well-formed result")
    c.ensures(in_interval(x, r) == And(in_interval(x, a), in_interval(x, b)), "x in (I && J) iff x in I and x in J")


def add(c):
    a, b = c.arg(0).t, c.arg(1).t
    c.requires(And(wf_interval(a), wf_interval(b)), "well-formed intervals")
    x, y = c.ghost("x", R), c.ghost("y", R)
    c.requires(And(nonempty(a), nonempty(b)), "non-empty intervals")
    yield
    r = c.result.t
    c.ensures(And(wf_interval(r), nonempty(r)), "well-formed result")
    c.ensures(Implies(And(in_interval(x, a), in_interval(y, b)), in_interval(x + y, r)), "I + J contains every sum")
    s = fr("s")
    c.ensures(Implies(in_interval(x, r), Exists([s], And(in_interval(s, a), in_interval(x - s, b)))), "every point of I + J is a sum")


def land1(c):
    left, right = c.arg(0).t, c.arg(1).t
    h0 = heapof(c, "Interval")
    c.requires(refs_ok(c, left), "left lists allocated intervals")
    c.requires(And(wf_interval(right), all_wf(left, h0, wf_interval)), "well-formed intervals")
    x = c.ghost("x", R)
    c.modifies_heap("Interval")
    c.inst = {"operator&&": [{"x": x}]}

    def inv(L):
        h, v = heapof(L, "Interval"), L.arg(0).t
        r, q = fi("r"), fi()
        yield "left not rewritten", teq(v, left)
        yield "processed intervals are cut", ForAll([q], Implies(And(0 <= q, q < L.K), in_interval(x, tselect(h, left["at"][q])) == And(in_interval(x, tselect(h0, left["at"][q])), in_interval(x, right))), patterns=[left["at"][q]])
        yield "wf", all_wf(left, h, wf_interval)
        q2 = fi()
        yield "others keep their value", ForAll([r], Or(teq(tselect(h, r), tselect(h0, r)), And(
            in_interval(x, tselect(h, r)) == And(in_interval(x, tselect(h0, r)), in_interval(x, right)), Exists([q2], And(0 <= q2, q2 < L.K, left["at"][q2] == r)))), patterns=[leaves(h)[0][r]])
    c.loop(0, inv)
    yield
    h, v = heapof(c, "Interval"), c.arg(0).t
    c.ensures(refs_ok(c, v), "left lists allocated intervals")
    c.ensures(all_wf(v, h, wf_interval), "well-formed results")
    iff(c, mem(x, v, h), And(mem(x, left, h0), in_interval(x, right)), "x in the union afterwards iff x in the old union and in right")
    r, q = fi("r"), fi()
    c.ensures(ForAll([r], Implies(And(r > 0, r < c.prest.next, Not(teq(tselect(h, r), tselect(h0, r)))), Exists([q], And(0 <= q, q < left["len"], left["at"][q] == r))), patterns=[leaves(h)[0][r]]), "only listed intervals change")
    c.ensures(v["len"] <= left["len"], "no interval is added")
    q3, q4 = fi(), fi()
    c.ensures(ForAll([q3], Implies(And(0 <= q3, q3 < v["len"]), Exists([q4], And(0 <= q4, q4 < left["len"], v["at"][q3] == left["at"][q4]))), patterns=[v["at"][q3]]), "kept entries come from left")


def land2(c):
    left, right = c.arg(0).t, c.arg(1).t
    h0 = heapof(c, "Interval")
    c.requires(And(refs_ok(c, left), refs_ok(c, right)), "allocated intervals")
    c.requires(And(all_wf(left, h0, wf_interval), all_wf(right, h0, wf_interval)), "well-formed intervals")
    x = c.ghost("x", R)
    n0 = c.st.next
    c.inst = {"land": [{"x": x}]}

    def fresh_list(L, tmp):
        q = fi()
        return ForAll([q], Implies(And(0 <= q, q < tmp["len"]), And(tmp["at"][q] >= n0, tmp["at"][q] < L.st.next)), patterns=[tmp["at"][q]])

    def outer(L):
        h = heapof(L, "Interval")
        tmp = L.locals_by(lambda t: t[0] == "vec" and t[1][0] == "ref")[0].t
        q, r = fi(), fi("r")
        yield "left kept", teq(L.arg(0).t, left)
        yield "old objects kept", ForAll([r], Implies(And(r > 0, r < n0), teq(tselect(h, r), tselect(h0, r))), patterns=[leaves(h)[0][r]])
        yield "result objects are new", fresh_list(L, tmp)
        yield "wf", all_wf(tmp, h, wf_interval)
        a, b = mem(x, tmp, h), And(mem(x, left, h0), exists_pat(L.K, right["at"], lambda q: in_interval(x, tselect(h0, right["at"][q]))))
        yield "union so far (=>)", Implies(a, b)
        yield "union so far (<=)", Implies(b, a)
        yield "alloc", L.st.next >= n0

    def inner(L):
        h = heapof(L, "Interval")
        v = L.locals_by(lambda t: t[0] == "vec" and t[1][0] == "ref")
        tl = v[-1].t
        e0 = L.entry.next
        q = fi()
        yield "length", tl["len"] == left["len"]
        yield "copied", ForAll([q], Implies(And(0 <= q, q < tl["len"]), If(q < L.K, And(tl["at"][q] >= e0, tl["at"][q] < L.st.next, teq(tselect(h, tl["at"][q]), tselect(h0, left["at"][q]))), tl["at"][q] == left["at"][q])), patterns=[tl["at"][q], left["at"][q]])
        yield "alloc", L.st.next >= e0
    c.loop(0, outer)
    c.loop(1, inner)
    yield
    h, v = heapof(c, "Interval"), c.arg(0).t
    q = fi()
    c.ensures(refs_ok(c, v), "allocated results")
    c.ensures(all_wf(v, h, wf_interval), "well-formed results")
    iff(c, mem(x, v, h), And(mem(x, left, h0), mem(x, right, h0)), "x in the union afterwards iff x in both unions")


def addall(c):
    left, right = c.arg(0).t, c.arg(1).t
    h0 = heapof(c, "Interval")
    c.requires(And(refs_ok(c, left), refs_ok(c, right)), "allocated intervals")
    ok = lambda it: And(wf_interval(it), nonempty(it))
    c.requires(And(all_wf(left, h0, ok), all_wf(right, h0, ok)), "well-formed non-empty intervals")
    c.requires(And(left["len"] < 2 ** 31, right["len"] < 2 ** 31), "fewer than 2^31 intervals each")
    x, y, z = c.ghost("x", R), c.ghost("y", R), c.ghost("z", R)
    c.inst = {"operator+": [{"x": x, "y": y}, {"x": z, "y": y}]}
    n0 = c.st.next
    s = fr("s")
    summand = Exists([s], And(mem(s, left, h0), mem(z - s, right, h0)))

    def common(L):
        h = heapof(L, "Interval")
        ans = L.locals_by(lambda t: t[0] == "vec" and t[1][0] == "ref")[0].t
        q, r = fi(), fi("r")
        yield "left kept", teq(L.arg(0).t, left)
        yield "old objects kept", ForAll([r], Implies(r < n0, teq(tselect(h, r), tselect(h0, r))), patterns=[leaves(h)[0][r]])
        yield "result objects are new", ForAll([q], Implies(And(0 <= q, q < ans["len"]), And(ans["at"][q] >= n0, ans["at"][q] < L.st.next)), patterns=[ans["at"][q]])
        yield "wf", all_wf(ans, h, ok)
        yield "alloc", L.st.next >= n0
        yield "only sums", Implies(mem(z, ans, h), summand)

    def upto(v, n, w):
        return exists_pat(n, v["at"], lambda q: in_interval(w, tselect(h0, v["at"][q])))

    def outer(L):
        yield from common(L)
        h = heapof(L, "Interval")
        ans = L.locals_by(lambda t: t[0] == "vec" and t[1][0] == "ref")[0].t
        yield "all sums so far", Implies(And(upto(left, L.K, x), mem(y, right, h0)), mem(x + y, ans, h))
        L.ctx.outerK = L.K

    def inner(L):
        yield from common(L)
        h = heapof(L, "Interval")
        ans = L.locals_by(lambda t: t[0] == "vec" and t[1][0] == "ref")[0].t
        k0 = outer_index(L)
        yield "earlier rows", Implies(And(upto(left, k0, x), mem(y, right, h0)), mem(x + y, ans, h))
        yield "this row", Implies(And(in_interval(x, tselect(h0, left["at"][k0])), upto(right, L.K, y)), mem(x + y, ans, h))

    def outer_index(L):
        # index of the enclosing range-for: its hidden counter is the first one in scope at loop entry
        ks = [k for k in L.entry.vars if isinstance(k, str) and k.startswith("rk!")]
        ks.sort(key=lambda k: int(k.split("!")[1]))
        return L.entry.vars[ks[0]].t
    c.loop(0, outer)
    c.loop(1, inner)
    yield
    h, v = heapof(c, "Interval"), c.arg(0).t
    c.ensures(refs_ok(c, v), "allocated results")
    c.ensures(all_wf(v, h, ok), "well-formed results")
    c.ensures(Implies(And(mem(x, left, h0), mem(y, right, h0)), mem(x + y, v, h)), "every sum is covered")
    c.ensures(Implies(mem(z, v, h), summand), "only sums are covered")


def plus1(c):
    it = c.this.t
    l, u = it["lowerBound"]["first"]["r"], it["upperBound"]["first"]["r"]
    inf = it["upperBound"]["first"]["k"] == 1
    n0 = c.st.next
    c.requires(wf_interval(it), "well-formed interval")
    c.requires(And(l >= 0, l <= 2 ** 30, z3.IsInt(l), Or(inf, And(z3.IsInt(u), u - l >= 1))), "integer end points 0 <= l < u (a point interval is the known finding interval-plus-point)")
    x, i = c.ghost("x", R), c.ghost("i", I)
    ri = ToReal(i)

    def in_power(v, k):
        return And(If(it["lowerBound"]["second"], k * l <= v, k * l < v), Or(inf, If(it["upperBound"]["second"], v <= k * u, v < k * u)))
    c.given(i >= 1, "i >= 1")
    # the exponent that witnesses a point of the unbounded tail
    qq = c.ghost("q", R)
    c.given(If(l > 0, qq * l == x, qq == x), "q is x/l")
    fl = z3.ToInt(qq)
    kk = If(l > 0, If(And(Not(it["lowerBound"]["second"]), ToReal(fl) == qq), fl - 1, fl), z3.ToInt(x) + 1)
    rk = ToReal(kk)

    def inv(L):
        h, v = heapof(L, "Interval"), L.arg(0).t
        q, r = fi(), fi("r")
        yield "len", v["len"] == L.K
        yield "old objects kept", ForAll([r], Implies(r < n0, teq(tselect(h, r), tselect(heapof(c, "Interval", c.prest), r))), patterns=[leaves(h)[0][r]])
        yield "new", ForAll([q], Implies(And(0 <= q, q < v["len"]), And(v["at"][q] >= n0, v["at"][q] < L.st.next)), patterns=[v["at"][q]])
        hq = lambda q: tselect(h, v["at"][q])
        yield "powers", ForAll([q], Implies(And(0 <= q, q < v["len"]), And(
            hq(q)["lowerBound"]["first"]["k"] == 0, hq(q)["upperBound"]["first"]["k"] == 0,
            hq(q)["lowerBound"]["first"]["r"] == l * ToReal(q + 1), hq(q)["upperBound"]["first"]["r"] == u * ToReal(q + 1),
            hq(q)["lowerBound"]["second"] == it["lowerBound"]["second"], hq(q)["upperBound"]["second"] == it["upperBound"]["second"])), patterns=[v["at"][q]])
        yield "alloc", L.st.next >= n0
    c.loop(0, inv)
    yield
    h, v = heapof(c, "Interval"), c.arg(0).t
    c.ensures(refs_ok(c, v), "allocated results")
    c.ensures(all_wf(v, h, wf_interval), "well-formed results")
    m = v["len"]
    last = tselect(h, v["at"][m - 1])
    c.ensures(And(m >= 1, last["upperBound"]["first"]["k"] == 1), "the last interval is unbounded")
    c.lemma(Implies(And(Not(inf), l == 0), last["lowerBound"]["first"]["r"] == 0), "tail starts at 0 when l is 0")
    c.lemma(Implies(And(Not(inf), l > 0), And(last["lowerBound"]["first"]["r"] == ToReal(m) * l, ToReal(m) * (u - l) >= l)), "tail starts at m*l")
    c.lemma(Implies(i >= m, ri * l >= ToReal(m) * l), "monotone")
    c.lemma(Implies(And(Not(inf), i < m, in_power(x, ri)), in_interval(x, tselect(h, v["at"][i - 1]))), "listed power")
    c.lemma(Implies(And(i >= m, in_power(x, ri)), in_interval(x, last)), "tail power")
    c.ensures(Implies(in_power(x, ri), mem(x, v, h)), "every power of I is covered")
    c.lemma(Implies(And(Not(inf), i < m, i >= 1, in_interval(x, tselect(h, v["at"][i - 1]))), in_power(x, ri)), "listed intervals are powers")
    tail = And(Not(inf), in_interval(x, last))
    t1, t2 = And(tail, l > 0), And(tail, l == 0)
    # both ends open and m*(u-l) == l: the point m*u is covered although no power contains it (known finding interval-plus-open)
    finding = And(Not(it["lowerBound"]["second"]), Not(it["upperBound"]["second"]), x == ToReal(m) * u, ToReal(m) * (u - l) == l)
    c.lemma(Implies(t1, And(rk * l <= x, Implies(Not(it["lowerBound"]["second"]), rk * l < x), x <= (rk + 1) * l)), "kk floors x/l")
    c.lemma(Implies(t1, (kk + 1) > m - 1), "kk large")
    c.lemma(Implies(t1, kk >= m), "kk >= m")
    c.lemma(Implies(t1, rk * (u - l) >= ToReal(m) * (u - l)), "mono")
    c.lemma(Implies(And(t1, kk > m), rk * (u - l) > ToReal(m) * (u - l)), "mono strict")
    c.lemma(Implies(And(t1, Not(finding)), in_power(x, rk)), "tail points with l>0 are in power kk")
    c.lemma(Implies(And(t2, x > 0), rk * u >= rk), "u>=1")
    c.lemma(Implies(t2, And(kk >= 1, in_power(x, rk))), "tail points with l=0 are in power kk")
    j = fi("j")
    c.ensures(Implies(And(tail, Not(finding)), Exists([j], And(j >= 1, in_power(x, ToReal(j))))), "only powers of I are covered (tail)")
    c.ensures(Implies(And(inf, mem(x, v, h)), in_power(x, RealVal(1))), "only powers of I are covered (unbounded I)")


CONTRACTS = [
    Contract("Interval::contain", contain),
    Contract("operator&&", meet, ["Interval", "Interval"]),
    Contract("operator+", add, ["Interval", "Interval"]),
    Contract("land", land1, ["vector", "const struct Interval &"]),
    Contract("land", land2, ["vector", "vector"]),
    Contract("operator+=", addall, ["vector", "vector"]),
    Contract("Interval::plus", plus1),
]
