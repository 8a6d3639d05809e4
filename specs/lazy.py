"""contracts: libmonaa/lazy_deque.hh, word_container.hh.

Ghost stream: the file holds the records REC(0..LEN-1); POS is the number of records consumed so far.
The reader (LazyDeque::getElem) is specified by `reader` below: it is assumed of fscanf/fread-based getOne/getOneBinary
(getOneBinary is itself proved against it from an assumed contract of fread; getOne rests on fscanf)."""
from common import *

RECC = z3.Function("stream_letter", I, I)
RECK = z3.Function("stream_time_k", I, I)
RECR = z3.Function("stream_time_r", I, R)
LEN = z3.Int("stream_length")
POS0 = z3.Int("stream_pos0")
MAX = (1 << 64) - 1
BIG = 1 << 62  # streams are shorter than this
FILE0 = z3.Int("stream_file")
GHOSTS = {"pos": POS0, "half": iv(0), "file": FILE0}


def pos(st):
    return st.ghost["pos"]


def isrec(t, k):
    return And(t["first"] == RECC(k), t["second"]["k"] == RECK(k), t["second"]["r"] == RECR(k))


def inv(th, p):
    """th: tree of a LazyDeque, p: stream position"""
    d, fr_, N = th["__std"], th["front"], th["N"]
    k = fi()
    content = ForAll([k], Implies(And(0 <= k, k < d["len"]), isrec(tselect(d["at"], k), fr_ + k)), patterns=[d["at"]["first"][k]])
    return And(0 <= p, p <= LEN, LEN < BIG, fr_ >= 0, th["file"] == FILE0, Or(*[th["getElem"] == x for x in READERS]), Or(N == MAX, N == LEN),
               Or(fr_ + d["len"] == p, And(d["len"] == 0, fr_ > LEN, p == LEN, N == LEN)), content)


def consume(ex, st, lv, e):
    """the next record is stored in lv; -> condition that there was one"""
    p = st.ghost["pos"]
    t = tfresh(lv.ty, "elem")
    ex.typing(st, lv.ty, t)
    wr(st, lv, t)
    ok = p < LEN
    st.pc.append(Implies(ok, isrec(t, p)))
    st.ghost["pos"] = If(ok, p + 1, p)
    return ok


def reader(ex, st, args, e):
    """the contract of the record readers: next record, or EOF at the end"""
    f = ex.read(st, args[0])
    ex.ob(st, f.t == FILE0, "reads from the stream it was given", e, "pre")
    r = z3.Int(fresh_name("got"))
    ok = consume(ex, st, args[1], e)
    st.pc.append(Implies(ok, r != -1))
    st.pc.append(Implies(Not(ok), r == -1))
    return V(ex.ty(e), r)


READERS = [z3.Int("fn.getOne"), z3.Int("fn.getOneBinary")]


def INDIRECT(ex, st, f, e):
    def call(ex, st, args, e):
        ex.ob(st, Or(*[f.t == x for x in READERS]), "the reader is one of the two record readers", e, "pre")
        return reader(ex, st, args, e)
    return call


def fread(ex, st, args, e):
    p, size, count, file = args[0], ex.read(st, args[1]), ex.read(st, args[2]), ex.read(st, args[3])
    lv = getattr(p, "lv", None)
    if lv is None or not z3.is_int_value(z3.simplify(size.t)) or z3.simplify(count.t).as_long() != 1:
        raise Unsupported("fread of an unexpected object")
    n = z3.simplify(size.t).as_long()
    ex.ob(st, file.t == FILE0, "reads from the stream it was given", e, "pre")
    pos_, half = st.ghost["pos"], st.ghost["half"]
    t = tfresh(lv.ty, "bytes")
    ex.typing(st, lv.ty, t)
    wr(st, lv, t)
    r = z3.Int(fresh_name("items"))
    if lv.ty[0] == "int" and n == 1:
        ex.ob(st, half == 0, "the letter is read first", e, "pre")
        more = pos_ < LEN
        st.pc.append(And(r >= 0, r <= 1, Implies(more, And(r == 1, t == RECC(pos_)))))
        st.ghost["half"] = If(more, iv(1), If(r == 1, iv(2), iv(0)))
    elif lv.ty[0] == "dbl" and n == 8:
        ex.ob(st, half != 0, "the time is read after its letter", e, "pre")
        st.pc.append(r == If(half == 1, 1, 0))
        st.pc.append(Implies(half == 1, And(t["k"] == RECK(pos_), t["r"] == RECR(pos_))))
        st.ghost["pos"] = If(half == 1, pos_ + 1, pos_)
        st.ghost["half"] = iv(0)
    else:
        raise Unsupported("fread of an unexpected size")
    return V(ex.ty(e), r)


def fscanf(ex, st, args, e):
    import re
    file, fmt = ex.read(st, args[0]), ex.read(st, args[1])
    if not isinstance(fmt, StrV) or not re.fullmatch(r"\s+%c\s*%lf\s*", fmt.s):
        raise Unsupported("fscanf with another format")
    ex.ob(st, file.t == FILE0, "reads from the stream it was given", e, "pre")
    a, b = args[2].lv, args[3].lv
    pos_ = st.ghost["pos"]
    for lv in (a, b):
        t = tfresh(lv.ty, "field")
        ex.typing(st, lv.ty, t)
        wr(st, lv, t)
    ta, tb = rd(st, a), rd(st, b)
    more = pos_ < LEN
    st.pc.append(Implies(more, And(ta == RECC(pos_), tb["k"] == RECK(pos_), tb["r"] == RECR(pos_))))
    st.ghost["pos"] = If(more, pos_ + 1, pos_)
    ex.assumed.add("fscanf(\" %c %lf\") on a stream of well-formed records stores the next record and returns 2, or returns EOF")
    return V(ex.ty(e), If(more, iv(2), iv(-1)))


MODELS = {"fread": fread, "fscanf": fscanf}


def getone(c):
    p0 = pos(c.st)
    c.requires(And(c.arg(0).t == FILE0, c.st.ghost["half"] == 0, 0 <= p0, p0 <= LEN), "at a record boundary")
    yield
    t = c.arg(1).t
    p1 = pos(c.st)
    c.ensures(Implies(p0 < LEN, And(c.result.t != -1, isrec(t, p0), p1 == p0 + 1)), "the next record")
    c.ensures(Implies(p0 >= LEN, And(c.result.t == -1, p1 == p0)), "EOF at the end")
    c.ensures(c.st.ghost["half"] == 0, "stops at a record boundary")


def touch(c):
    """in use mode the stream position is part of the frame"""
    if c.phase == "post" and c.mode == "use":
        c.st.ghost["pos"] = z3.Int(fresh_name("pos"))


def fetch(c):
    n = c.arg(0)
    c.requires(inv(c.this.t, pos(c.st)), "object invariant")
    c.may_throw_when(BoolVal(False))

    def L(l):
        p = pos(l.st)
        yield "invariant", inv(l.this.t, p)
        yield "front", l.this.t["front"] == l.entry_acc(l.this).t["front"]
        yield "N", l.this.t["N"] == l.entry_acc(l.this).t["N"]
        yield "n", And(l.arg(0).t >= l.this.t["front"], l.arg(0).t < l.this.t["N"])
    c.loop(0, L)
    yield
    touch(c)
    o = c.old_this.t
    c.ensures(inv(c.this.t, pos(c.st)), "object invariant")
    c.ensures(c.this.t["front"] == o["front"], "discards nothing")
    c.ensures(c.this.t["file"] == o["file"], "same stream")
    c.ensures(c.this.t["getElem"] == o["getElem"], "same reader")
    c.ensures(Implies(c.result.t, And(n.t >= o["front"], n.t < LEN)), "success only inside the stream")
    c.ensures(Implies(And(n.t >= o["front"], n.t < LEN), c.result.t), "success for every retained position of the stream")
    c.ensures(Implies(c.result.t, n.t < o["front"] + c.this.t["__std"]["len"]), "the position is available")
    c.ensures(c.this.t["__std"]["len"] >= o["__std"]["len"], "nothing is lost")
    c.ensures(Implies(And(Not(c.result.t), n.t >= o["front"], n.t < MAX), c.this.t["N"] == LEN), "the length is known once the end was seen")


def getelem(c):
    n = c.arg(0).t
    t = c.this.t
    c.requires(inv(t, pos(c.st)), "object invariant")
    c.may_throw_when(Or(n < t["front"], n >= t["front"] + t["__std"]["len"]))
    c.modifies()
    yield
    t = c.old_this.t
    c.ensures(isrec(c.result.t, n), "the n-th record of the stream")
    c.ensures(n < LEN, "the position exists")


def setfront(c):
    nf = c.arg(0).t
    t = c.this.t
    c.requires(inv(t, pos(c.st)), "object invariant")
    c.may_throw_when(nf < t["front"])

    def L(l):
        p = pos(l.st)
        t = l.this.t
        o = l.entry_acc(l.this).t
        i = l.local("i").t
        rt = l.local("readTimes").t
        yield "range", And(0 <= i, i <= rt)
        yield "front", And(t["front"] == nf, t["front"] >= rt)
        yield "pos", And(0 <= p, p <= LEN, LEN < MAX, Or(t["N"] == MAX, t["N"] == LEN))
        yield "empty", Implies(rt > 0, t["__std"]["len"] == 0)
        yield "kept", l.this.t["__std"]["len"] == o["__std"]["len"]
        yield "place", Or(p + t["__std"]["len"] * 0 == t["front"] - rt + i + t["__std"]["len"], And(t["__std"]["len"] == 0, i == 0, p == LEN, t["N"] == LEN, t["front"] - rt > LEN))
    c.loop(0, L)
    yield
    touch(c)
    o = c.old_this.t
    t = c.this.t
    c.ensures(inv(t, pos(c.st)), "object invariant")
    c.ensures(t["front"] == nf, "the positions below are discarded")
    c.ensures(t["file"] == o["file"], "same stream")
    c.ensures(t["getElem"] == o["getElem"], "same reader")
    c.ensures(Implies(nf < o["front"] + o["__std"]["len"], nf + t["__std"]["len"] == o["front"] + o["__std"]["len"]), "no position at or above n is lost")
    c.ensures(Implies(nf >= o["front"] + o["__std"]["len"], t["__std"]["len"] == 0), "nothing remains below")


def size(c):
    c.requires(inv(c.this.t, pos(c.st)), "object invariant")
    yield
    c.ensures(Or(c.result.t == MAX, c.result.t == LEN), "unknown, or the length of the stream")


def ctor(c):
    c.requires(And(c.arg(0).t > 0, c.arg(0).t == FILE0), "a stream is given")
    c.requires(And(pos(c.st) == 0, 0 <= LEN, LEN < BIG), "the stream is at its beginning")
    yield
    c.ensures(inv(c.this.t, pos(c.st)), "object invariant")
    c.ensures(c.this.t["front"] == 0, "starts at position 0")
    c.ensures(c.this.t["getElem"] == If(c.arg(1).t, READERS[1], READERS[0]), "the binary reader exactly for binary streams")
    c.ensures(c.this.t["file"] == c.arg(0).t, "keeps the stream")


# ---- WordContainer<LazyDeque>: the same contracts on the wrapped object
class Sub:
    """context of the wrapped container"""

    def __init__(self, c):
        self._c = c

    def __getattr__(self, n):
        return getattr(self._c, n)

    @property
    def this(self):
        return self._c.this.vec

    @property
    def old_this(self):
        return self._c.old_this.vec


def wrapped(spec):
    def f(c):
        s = Sub(c)
        yield from spec(s)
    return f


# ---- WordVector: everything is read at once
def vec_ok(t):
    d = t["__std"]
    k = fi()
    return And(d["len"] == LEN, ForAll([k], Implies(And(0 <= k, k < LEN), isrec(tselect(d["at"], k), k)), patterns=[d["at"]["first"][k]]))


def wordvector(c):
    c.requires(And(c.arg(0).t == FILE0, pos(c.st) == 0, 0 <= LEN, LEN < BIG), "the stream is at its beginning")

    def L(l):
        p = pos(l.st)
        d = l.this.t["vec"]["__std"]
        k = fi()
        yield "position", And(0 <= p, p <= LEN, d["len"] == p)
        yield "content", ForAll([k], Implies(And(0 <= k, k < p), isrec(tselect(d["at"], k), k)), patterns=[d["at"]["first"][k]])
    c.loop(0, L)
    yield
    touch(c)
    c.ensures(vec_ok(c.this.t["vec"]), "holds exactly the records of the stream")


def vfetch(c):
    yield
    c.ensures(c.result.t == (c.arg(0).t < c.old_this.t["__std"]["len"]), "success exactly below the length")
    c.ensures(teq(c.this.t, c.old_this.t), "unchanged")


def wvfetch(c):
    yield
    c.ensures(c.result.t == (c.arg(0).t < c.old_this.t["vec"]["__std"]["len"]), "success exactly below the length")
    c.ensures(teq(c.this.t, c.old_this.t), "unchanged")


def vsetfront(c):
    yield
    c.ensures(teq(c.this.t, c.old_this.t), "keeps everything")


def wvget(c):
    n = c.arg(0).t
    d = c.this.t["vec"]["__std"]
    c.requires(n < d["len"], "fetched position")
    c.may_throw_when(BoolVal(False))
    yield
    c.ensures(teq(c.result.t, tselect(c.old_this.t["vec"]["__std"]["at"], n)), "the element at that position")
    c.ensures(teq(c.this.t, c.old_this.t), "unchanged")


def wvat(c):
    n = c.arg(0).t
    c.may_throw_when(n >= c.this.t["vec"]["__std"]["len"])
    yield
    c.ensures(teq(c.result.t, tselect(c.old_this.t["vec"]["__std"]["at"], n)), "the element at that position")


def wvsize(c):
    yield
    c.ensures(c.result.t == c.old_this.t["vec"]["__std"]["len"], "number of elements")


# ---- answer containers
def avpush(c):
    yield
    o, t = c.old_this.t["vec"], c.this.t["vec"]
    k = fi()
    c.ensures(t["len"] == o["len"] + 1, "one more")
    c.ensures(ForAll([k], Implies(And(0 <= k, k < o["len"]), teq(tselect(t["at"], k), tselect(o["at"], k)))), "earlier answers kept in order")
    c.ensures(teq(tselect(t["at"], o["len"]), c.old_arg(0).t), "the pushed answer is last")


def avclear(c):
    yield
    c.ensures(c.this.t["vec"]["len"] == 0, "empty")


def avsize(c):
    yield
    c.ensures(c.result.t == c.old_this.t["vec"]["len"], "number of answers")


def avreserve(c):
    yield
    c.ensures(teq(c.this.t["vec"], c.old_this.t["vec"]), "no answer changes")


def cnt(d, f=None):
    def g(c):
        yield
        cv = lambda t: t["vec"]["count"] if "vec" in t else t["count"]
        o, t = cv(c.old_this.t), cv(c.this.t)
        if d == "push":
            c.requires(BoolVal(True))
            c.ensures(t == (o + 1) % (1 << 64), "counts one more")
        elif d == "clear":
            c.ensures(t == 0, "counts from zero")
        elif d == "reserve":
            c.ensures(t == o, "count unchanged")
        else:
            c.ensures(c.result.t == o, "the count")
    return g


VEC = "Vector<std::pair<char, double>>"
AV = "AnsContainer<std::vector<Zone>>::"
AI = "AnsContainer<IntContainer<Zone>>::"

CONTRACTS = [
    Contract("LazyDeque::LazyDeque", ctor, params=["_IO_FILE", "_Bool"]),
    Contract("LazyDeque::fetch", fetch),
    Contract("LazyDeque::operator[]", getelem),
    Contract("LazyDeque::at", getelem),
    Contract("LazyDeque::setFront", setfront),
    Contract("LazyDeque::size", size),
    Contract("getOne", getone),
    Contract("getOneBinary", getone),
    Contract("WordContainer<LazyDeque>::WordContainer", wrapped(ctor)),
    Contract("WordContainer<LazyDeque>::fetch", wrapped(fetch)),
    Contract("WordContainer<LazyDeque>::operator[]", wrapped(getelem)),
    Contract("WordContainer<LazyDeque>::at", wrapped(getelem)),
    Contract("WordContainer<LazyDeque>::setFront", wrapped(setfront)),
    Contract("WordContainer<LazyDeque>::size", wrapped(size)),
    Contract(VEC + "::fetch", vfetch),
    Contract(VEC + "::setFront", vsetfront),
    Contract("WordContainer<%s>::fetch" % VEC, wvfetch),
    Contract("WordContainer<%s>::operator[]" % VEC, wvget),
    Contract("WordContainer<%s>::at" % VEC, wvat),
    Contract("WordContainer<%s>::size" % VEC, wvsize),
    Contract("WordContainer<%s>::setFront" % VEC, vsetfront),
    Contract("WordVector<std::pair<char, double>>::WordVector", wordvector),
    Contract(AV + "push_back", avpush),
    Contract(AV + "clear", avclear),
    Contract(AV + "size", avsize),
    Contract(AV + "reserve", avreserve),
    Contract("IntContainer<Zone>::push_back", cnt("push")),
    Contract("IntContainer<Zone>::clear", cnt("clear")),
    Contract("IntContainer<Zone>::size", cnt("size")),
    Contract(AI + "push_back", cnt("push")),
    Contract(AI + "clear", cnt("clear")),
    Contract(AI + "size", cnt("size")),
    Contract(AI + "reserve", cnt("reserve")),
]
