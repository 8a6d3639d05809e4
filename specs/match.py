"""contracts: the bound helpers of the matching procedures (libmonaa/monaa.hh)"""
from common import *
from constraint import wf_constraint, LT, LE, GE, GT


def between(x, up, lo):
    """x lies between the lower end lo = (b, s) and the upper end up = (b, s) of an interval of values"""
    return And(le_ub(x, up), ge_lb(x, lo))


def valid(c):
    """cells: x <= up, -x <= low"""
    up, lo = c.arg(0).t, c.arg(1).t
    c.requires(And(Or(fin(up["first"]), up["first"]["k"] == 1), Or(fin(lo["first"]), lo["first"]["k"] == 1)), "upper bounds of x and of -x")
    x = c.ghost("x", R)
    yield
    w = If(up["first"]["k"] == 0, If(lo["first"]["k"] == 0, (up["first"]["r"] - lo["first"]["r"]) / 2, up["first"]["r"] - 1), If(lo["first"]["k"] == 0, 1 - lo["first"]["r"], RealVal(0)))
    c.ensures(Implies(And(le_ub(x, up), le_ub(-x, lo)), c.result.t), "valid if some value satisfies both bounds")
    c.ensures(Implies(c.result.t, And(le_ub(w, up), le_ub(-w, lo))), "some value satisfies both bounds if valid")


def update(c):
    up, lo, d, v = c.arg(0).t, c.arg(1).t, c.arg(2).t, c.arg(3).t
    c.requires(wf_constraint(d), "one of the four comparison operators")
    c.requires(And(noNaN(up["first"]), noNaN(lo["first"]), fin(v)), "numbers")
    x = c.ghost("x", R)
    yield
    u2, l2 = c.arg(0).t, c.arg(1).t
    o = d["odr"]
    holds = If(o == LT, x < v["r"], If(o == LE, x <= v["r"], If(o == GE, x >= v["r"], x > v["r"])))
    c.ensures(between(x, u2, l2) == And(between(x, up, lo), holds), "x is between the new ends iff it was between the old ones and satisfies the comparison")


CONTRACTS = [
    Contract("isValidConstraint", valid),
    Contract("updateConstraint", update),
]
