"""specification vocabulary shared by all contracts"""
import z3, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "engine"))
from core import *
from contracts import Contract, Acc, Ctx
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Int, Real, Bool, BoolVal, IntVal, RealVal, ToReal

ZEROLE = {"first": D(0), "second": BoolVal(True)}


def fi(n="q"):
    return z3.Int(fresh_name(n))


def fr(n="r"):
    return z3.Real(fresh_name(n))


def noNaN(d):
    return d["k"] != 2


def fin(d):
    return d["k"] == 0


def le_ub(r, b):
    """real r satisfies  r (< or <=) bound b  (b: pair<double,bool> tree)"""
    return If(b["first"]["k"] == 0, If(b["second"], r <= b["first"]["r"], r < b["first"]["r"]), b["first"]["k"] == 1)


def ge_lb(r, b):
    """real r satisfies  bound b (< or <=) r"""
    return If(b["first"]["k"] == 0, If(b["second"], b["first"]["r"] <= r, b["first"]["r"] < r), b["first"]["k"] == -1)


def in_interval(r, it):
    """it: Interval tree"""
    return And(ge_lb(r, it["lowerBound"]), le_ub(r, it["upperBound"]))


def wf_interval(it):
    """the shape every constructor produces: finite lower end, upper end finite or +inf"""
    return And(it["lowerBound"]["first"]["k"] == 0, Or(it["upperBound"]["first"]["k"] == 0, it["upperBound"]["first"]["k"] == 1))


def forall_idx(n, f, lo=0, pat=None):
    q = fi()
    b = Implies(And(lo <= q, q < n), f(q))
    if pat is not None:
        return ForAll([q], b, patterns=[pat(q)])
    return ForAll([q], b)


def exists_idx(n, f, lo=0):
    q = fi()
    return Exists([q], And(lo <= q, q < n, f(q)))


def refs_ok(c, vec, st=None, heap=None):
    """every element of a vector of shared_ptr denotes an allocated object"""
    st = st or c.st
    q = fi()
    return ForAll([q], Implies(And(0 <= q, q < vec["len"]), And(vec["at"][q] > 0, vec["at"][q] < st.next)), patterns=[vec["at"][q]])


def mem(x, vec, heap):
    """x is in the union of the intervals listed in vec"""
    return exists_pat(vec["len"], vec["at"], lambda q: in_interval(x, tselect(heap, vec["at"][q])))


def exists_pat(n, arr, f):
    q = fi()
    b = And(0 <= q, q < n, f(q))
    if z3.is_const(arr) or z3.is_select(arr):
        return Exists([q], b, patterns=[arr[q]])
    return Exists([q], b)


def iff(c, a, b, name):
    c.ensures(Implies(a, b), name + " (=>)")
    c.ensures(Implies(b, a), name + " (<=)")


def all_wf(vec, heap, pred):
    q = fi()
    return ForAll([q], Implies(And(0 <= q, q < vec["len"]), pred(tselect(heap, vec["at"][q]))), patterns=[vec["at"][q]])


def heapof(c, name, st=None):
    return heap_of(st or c.st, c.ex.rec_named(name))


def bases(t):
    """the uninterpreted arrays a nested update expression starts from"""
    out, seen, todo = {}, set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.sort() == t.sort() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        todo += x.children()
    return list(out.values())


def vpat(x):
    """patterns for an array access: on the arrays a merged or updated term is made of"""
    if z3.is_const(x.arg(0)):
        return {"patterns": [x]}
    bs = bases(x.arg(0))
    return {"patterns": [b[x.arg(1)] for b in bs]} if bs else {}
