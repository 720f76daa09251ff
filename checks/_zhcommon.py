"""Shared by the Chinese grammar checks."""
from ref.zh import Digits
from vf.cnf import F, T, g_and, g_in, g_not, g_or  # noqa: F401
from vf.fst import Alt, Enum, Ref

LEFT = ["我", "共", "了", "，", "。", "（", "a", "Z", "'", "ß", "🙂", " "]
RIGHT = ["了", "的", "吧", "，", "！", "）", "b", "Q", "é", "🙂", " "]
HALF = {"，": ",", "！": "!", "（": "(", "）": ")", "。": "."}
SIGNS = Enum  # noqa: F841


def ctx(slots, words):
    slots.append(Enum(words, out=[HALF.get(w, w) for w in words]))
    return len(slots) - 1


class Num:
    """An optionally signed number of n digits with k decimals; the input and its reading."""

    def __init__(self, slots, n, k=0, sign=False, lone="二", zero=None, liang=True):
        self.d = Digits(slots, n, zero=(n == 1 if zero is None else zero))
        self.f = Digits(slots, k, zero=True) if k else None
        self.inp = list(self.d.inp())
        if sign:
            slots.append(Enum(["", "+", "-", "±"], han=["", "正", "负", "正负"]))
            self.sign = len(slots) - 1
            self.inp = [Ref(self.sign)] + self.inp
        self.out = self.read(self.d, liang, lone if not k else "二")
        if sign:
            bare = g_in(self.sign, [0])
            self.out = [Ref(self.sign, "han"), Alt((bare, self.out), (g_not(bare), self.read(self.d, False, "二")))]
        if k:
            self.inp += ["."] + self.f.inp()
            self.out = [self.out, "点", self.f.one_by_one()]

    @staticmethod
    def read(d, liang, lone):
        if d.n > 1:
            return d.read(liang, lone)
        two = d.at(0, 2)
        return [Alt((two, [lone]), (g_not(two), [Ref(d.k[0], "han")]))]


def span(x, lo, hi, width=None):
    """The digits spell a number of lo..hi, written with x.n digits."""
    return g_or(*[x.equals("%0*d" % (x.n, v)) for v in range(lo, hi + 1) if len(str(v)) <= x.n])


def monthlike(x):
    return span(x, 1, 12) if x.n == 2 else F


def daylike(x):
    return span(x, 1, 31) if x.n in (1, 2) else F


def yearlike(x):
    return g_not(x.zero(0)) if x.n == 4 else F


def date2(a, b):
    """a SEP b is a date: mm/d, mm/dd, yyyy/mm, mm/yyyy."""
    return g_or(g_and(monthlike(a), daylike(b)), g_and(yearlike(a), monthlike(b)), g_and(monthlike(a), yearlike(b)))


def anymonth(x):
    return span(x, 1, 12) if x.n in (1, 2) else F


def date3(a, b, c):
    """y/m/d or d/m/y"""
    return g_or(g_and(yearlike(a), anymonth(b), daylike(c)), g_and(daylike(a), anymonth(b), yearlike(c)))
