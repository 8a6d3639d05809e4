"""contracts: the printed answers (libmonaa/ans_vec.hh).

Ghost output: printf/puts append tokens (numbers, words, end of line) to the ghost sequence OUT.  The contract fixes the token
sequence, that is the text up to spacing and the number of decimals; widths and blanks are only compared by the bounded harness."""
from common import *
import re

NUM, WORD, EOL = 0, 1, 2
AI_ = z3.ArraySort(I, I)
AR_ = z3.ArraySort(I, R)
GHOSTS = {"n": z3.Int("out_n0"), "kind": z3.Const("out_kind0", AI_), "id": z3.Const("out_id0", AI_), "k": z3.Const("out_k0", AI_), "r": z3.Const("out_r0", AR_)}


def word(s):
    return strid(s)


def emit(st, kind, id=None, d=None):
    g = st.ghost
    n = g["n"]
    g["kind"] = z3.Store(g["kind"], n, iv(kind))
    if id is not None:
        g["id"] = z3.Store(g["id"], n, id)
    if d is not None:
        g["k"] = z3.Store(g["k"], n, d["k"])
        g["r"] = z3.Store(g["r"], n, d["r"])
    g["n"] = n + 1


def strval(ex, st, v):
    v = ex.read(st, v)
    if isinstance(v, StrV):
        return word(v.s)
    if isinstance(v, V) and v.ty == ("str",):
        return v.t
    raise Unsupported("printf of a string that is not a literal")


def literal(st, s):
    for piece in re.findall(r"\n|[^\s]+", s):
        if piece == "\n":
            emit(st, EOL)
        elif set(piece) == {"="}:
            emit(st, WORD, word("="))  # any separator line
        else:
            emit(st, WORD, word(piece))


def printf(ex, st, args, e):
    fmt = ex.read(st, args[0])
    if not isinstance(fmt, StrV):
        raise Unsupported("printf with a computed format")
    k = 1
    for m in re.finditer(r"%(?:[-+ 0#]*\d*(?:\.\d+)?l?)([a-zA-Z%])|([^%]+)", fmt.s):
        if m.group(2) is not None:
            literal(st, m.group(2))
        elif m.group(1) == "s":
            emit(st, WORD, strval(ex, st, args[k]))
            k += 1
        elif m.group(1) in "feg":
            v = ex.read(st, args[k])
            emit(st, NUM, d=v.t)
            k += 1
        else:
            raise Unsupported("printf conversion " + m.group(0))
    return V(ex.ty(e), z3.Int(fresh_name("printed")))


def puts(ex, st, args, e):
    s = ex.read(st, args[0])
    if not isinstance(s, StrV):
        raise Unsupported("puts of a computed string")
    literal(st, s.s + "\n")
    return V(ex.ty(e), z3.Int(fresh_name("printed")))


def putchar(ex, st, args, e):
    v = z3.simplify(ex.read(st, args[0]).t)
    literal(st, chr(v.as_long()))
    return V(ex.ty(e), v)


MODELS = {"printf": printf, "puts": puts, "putchar": putchar}


def push(c):
    z = c.arg(0).value
    quiet, n0 = c.this.t["isQuiet"], c.st.ghost["n"]
    c.requires(Or(quiet, And(z.rows == 3, z.cols == 3)), "a zone over t and t', unless quiet")
    g0 = dict(c.st.ghost)
    yield
    g = c.st.ghost
    c.ensures(c.this.t["count"] == (c.old_this.t["count"] + 1) % (1 << 64), "counted")
    c.ensures(c.this.t["isQuiet"] == quiet, "quiet mode kept")
    c.ensures(Implies(quiet, g["n"] == n0), "quiet mode prints nothing")
    want = []
    for lo, up, name in ((z.at(0, 1).t, z.at(1, 0).t, ["t"]), (z.at(0, 2).t, z.at(2, 0).t, ["t'"]), (z.at(1, 2).t, z.at(2, 1).t, ["t'", "-", "t"])):
        neg = {"k": If(lo["first"]["k"] == 2, iv(2), -lo["first"]["k"]), "r": -lo["first"]["r"]}
        want.append((NUM, neg))
        want.append((WORD, If(lo["second"], word("<="), word("<"))))
        want += [(WORD, word(w)) for w in name]
        want.append((WORD, If(up["second"], word("<="), word("<"))))
        want.append((NUM, up["first"]))
        want.append((EOL, None))
    want += [(WORD, word("=")), (EOL, None)]
    loud = Not(quiet)
    c.ensures(Implies(loud, g["n"] == n0 + len(want)), "one block per answer, nothing else")
    for i, (k, v) in enumerate(want):
        at = n0 + i
        f = z3.Select(g["kind"], at) == k
        if k == WORD:
            f = And(f, z3.Select(g["id"], at) == v)
        elif k == NUM:
            f = And(f, z3.Select(g["k"], at) == v["k"], Implies(v["k"] == 0, z3.Select(g["r"], at) == v["r"]))
        c.ensures(Implies(loud, f), "token %d of the block" % i)
    q = fi()
    c.ensures(ForAll([q], Implies(q < n0, And(*[z3.Select(g[x], q) == z3.Select(g0[x], q) for x in ("kind", "id", "k", "r")]))), "earlier output stays")


def wpush(c):
    g0 = dict(c.st.ghost)
    z = c.arg(0).value
    c.requires(Or(c.this.t["vec"]["isQuiet"], And(z.rows == 3, z.cols == 3)), "a zone over t and t', unless quiet")
    yield
    c.ensures(c.this.t["vec"]["count"] == (c.old_this.t["vec"]["count"] + 1) % (1 << 64), "counted")


def simple(k):
    def f(c):
        n0 = c.st.ghost["n"]
        yield
        w = "vec" in c.this.t
        o = c.old_this.t["vec"] if w else c.old_this.t
        t = c.this.t["vec"] if w else c.this.t
        if k == "size":
            c.ensures(c.result.t == o["count"], "number of answers")
        else:
            c.ensures(t["count"] == (0 if k == "clear" else o["count"]), "count")
        c.ensures(t["isQuiet"] == o["isQuiet"], "quiet mode kept")
        c.ensures(c.st.ghost["n"] == n0, "prints nothing")
    return f


def ctor(c):
    yield
    c.ensures(c.this.t["isQuiet"] == c.arg(0).t, "quiet exactly as asked")
    c.ensures(c.this.t["count"] == 0, "no answer yet")


def wctor(c):
    yield
    c.ensures(teq(c.this.t["vec"], c.arg(0).t), "wraps the given container")


CONTRACTS = [
    Contract("PrintContainer::PrintContainer", ctor, params=["_Bool"]),
    Contract("PrintContainer::push_back", push),
    Contract("PrintContainer::size", simple("size")),
    Contract("PrintContainer::clear", simple("clear")),
    Contract("PrintContainer::reserve", simple("reserve")),
    Contract("AnsContainer<PrintContainer>::AnsContainer", wctor, params=["PrintContainer"]),
    Contract("AnsContainer<PrintContainer>::push_back", wpush),
    Contract("AnsContainer<PrintContainer>::size", simple("size")),
    Contract("AnsContainer<PrintContainer>::clear", simple("clear")),
    Contract("AnsContainer<PrintContainer>::reserve", simple("reserve")),
]
