"""P: guards of timed automata (libmonaa/constraint.hh)"""
from common import *

LT, LE, GE, GT = 0, 1, 2, 3


def holds(t, d):
    """real meaning of a Constraint tree on a double tree"""
    cc = D(ToReal(t["c"]))
    o = t["odr"]
    return If(o == LT, dlt(d, cc), If(o == LE, dle(d, cc), If(o == GE, dle(cc, d), dlt(cc, d))))


def wf_constraint(t):
    return And(0 <= t["odr"], t["odr"] <= 3)


def satisfy(c):
    t, d = c.this.t, c.arg(0).t
    c.requires(wf_constraint(t), "one of the four comparison operators")
    yield
    c.ensures(c.result.t == holds(t, d), "satisfy(d) iff  d odr c")


def call(c):
    t, val = c.this.t, c.arg(0)
    c.requires(wf_constraint(t), "one of the four comparison operators")
    x = t["x"]
    d = val[x].t
    c.may_throw_when(x >= val.t["len"])
    yield
    r = c.result.t
    # Order { LT, EQ, GT }
    c.ensures((r == 1) == holds(t, d), "EQ iff the valuation satisfies the constraint")
    c.ensures(Implies(Not(holds(t, d)), r == If(Or(t["odr"] == LT, t["odr"] == LE), IntVal(2), IntVal(0))), "GT above an upper bound, LT below a lower bound")


def maker(odr):
    def spec(c):
        x, k = c.this.t["x"], c.arg(0).t
        yield
        r = c.result.t
        c.ensures(And(r["x"] == x, r["odr"] == odr, r["c"] == k), "the constraint x odr c")
    return spec


def maker_ctor(c):
    yield
    c.ensures(c.this.t["x"] == c.arg(0).t, "the clock is kept")


def widen(c):
    g = c.arg(0).t
    at, n = g["at"], g["len"]
    q = fi()
    c.requires(ForAll([q], wf_constraint(tselect(at, q))), "comparison operators")
    yield
    h = c.arg(0).t
    up = lambda t: Or(t["odr"] == LT, t["odr"] == LE)
    i, j = fi("i"), fi("j")
    el = lambda a, k: tselect(a, k)
    c.ensures(ForAll([i], Implies(And(0 <= i, i < h["len"]), And(up(el(h["at"], i)), Exists([j], And(0 <= j, j < n, teq(el(h["at"], i), el(at, j)))))), patterns=[leaves(h["at"])[0][i]]), "only upper bounds of the old guard remain")
    c.ensures(ForAll([j], Implies(And(0 <= j, j < n, up(el(at, j))), Exists([i], And(0 <= i, i < h["len"], teq(el(h["at"], i), el(at, j))))), patterns=[leaves(at)[0][j]]), "every upper bound of the old guard remains")
    c.ensures(h["len"] <= n, "no constraint is added")


CONTRACTS = [
    Contract("Constraint::satisfy", satisfy),
    Contract("Constraint::operator()", call),
    Contract("ConstraintMaker::ConstraintMaker", maker_ctor, ["unsigned char"]),
    Contract("ConstraintMaker::operator<", maker(LT)),
    Contract("ConstraintMaker::operator<=", maker(LE)),
    Contract("ConstraintMaker::operator>", maker(GT)),
    Contract("ConstraintMaker::operator>=", maker(GE)),
    Contract("widen", widen),
]
