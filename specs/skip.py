"""contracts: skip tables (libmonaa/sunday_skip_value.hh, kmp_skip_value.hh)"""
from common import *


def sunday_at(c):
    n = c.arg(0).t
    c.may_throw_when(n >= c.this.t["delta"]["len"])
    yield
    c.ensures(c.result.t == c.old_this.t["delta"]["at"][n], "the entry for this letter")


def sunday_index(c):
    n = c.arg(0).t
    c.requires(n < c.this.t["delta"]["len"], "a letter of the table")
    yield
    c.ensures(c.result.t == c.old_this.t["delta"]["at"][n], "the entry for this letter")


def sunday_m(c):
    yield
    c.ensures(c.result.t == c.this.t["m"], "the shortest length")


def sunday_end(c):
    k = c.ghost("k", I)
    yield
    c.ensures(c.arg(0).t["has"][k] == c.this.t["endChars"]["has"][k], "exactly the letters of the set")


def kmp_at(c):
    s = c.arg(0).t
    has, val = c.this.t["beta"]["has"], c.this.t["beta"]["at"]
    c.may_throw_when(Not(has[s]))
    yield
    c.ensures(c.result.t == val[s], "the entry for this state")


CONTRACTS = [
    Contract("SundaySkipValue::at", sunday_at),
    Contract("SundaySkipValue::operator[]", sunday_index),
    Contract("SundaySkipValue::getM", sunday_m),
    Contract("SundaySkipValue::getEndChars", sunday_end),
    Contract("KMPSkipValue::at", kmp_at),
    Contract("KMPSkipValue::operator[]", kmp_at),
]
