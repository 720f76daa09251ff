"""Shared by the English ITN checks."""
from ref import en
from vf.cnf import F, T, g_and, g_in, g_not, g_or  # noqa: F401
from vf.family import Char, Fam, char_is, run_check, replay  # noqa: F401
from vf.fst import Alt, Enum, Ref  # noqa: F401

W99 = [en.below100(n) for n in range(1, 100)]
SCALES = ["thousand", "million", "billion", "trillion"]
CONTEXT = [("we saw ", " today"), ("yes , ", ""), ("( ", " )")]


def table(d):
    k = sorted(d)
    return Enum(k, out=[d[x] for x in k])


def below(lo, hi):
    """The numbers lo-hi (below 100) in words."""
    r = range(lo, hi + 1)
    return Enum([en.below100(n) for n in r], d=[str(n) for n in r], d2=["%02d" % n for n in r], d3=["%03d" % n for n in r])


def conj():
    return Enum(["", " and"])


class Families:

    def __init__(self):
        self.out = []

    def add(self, name, slots, inp, res, where=T, context=False, more=CONTEXT):
        self.out.append(("en_itn", {}, Fam(name, slots, [inp], [res], where=where)))
        if context:
            n = len(slots)
            s = list(slots) + [Enum([a + "X" + b for a, b in more], left=[a for a, _ in more], right=[b for _, b in more])]
            self.out.append(("en_itn", {}, Fam(name + " in context", s, [Ref(n, "left"), inp, Ref(n, "right")], [Ref(n, "left"), res, Ref(n, "right")],
                                                where=where)))


def digit(slots, zero=False):
    r = range(0 if zero else 1, 10)
    slots.append(Enum([en.ONES[n] for n in r], d=[str(n) for n in r]))
    return len(slots) - 1


class Group:
    """A group of three digits: "" (nothing), t (1-99), h (d hundred), a (d hundred [and] t), x (11-99, without whole tens: d hundred as in eleven hundred),
    y (the same with [and] t)."""

    def __init__(self, slots, kind, lo=1, hi=99, first=True):
        self.kind = kind
        self.inp, self.full, self.padded = [], [], ["000"]
        if kind in "ha" and kind:
            k = digit(slots)
            self.inp, self.full = [Ref(k), " hundred"], [Ref(k, "d")]
            if kind == "h":
                self.full = self.full + ["00"]
        if kind in "xy" and kind:
            ns = [n for n in range(11, 100) if n % 10]
            slots.append(Enum([en.below100(n) for n in ns], d=[str(n) for n in ns]))
            k = len(slots) - 1
            self.inp, self.full = [Ref(k), " hundred"], [Ref(k, "d")]
            if kind == "x":
                self.full = self.full + ["00"]
        if kind in "ay" and kind:
            slots.append(conj())
            slots.append(below(lo, hi))
            self.inp = self.inp + [Ref(len(slots) - 2), " ", Ref(len(slots) - 1)]
            self.full = self.full + [Ref(len(slots) - 1, "d2")]
        self.padded = self.full
        if kind == "t":
            slots.append(below(lo, hi))
            k = len(slots) - 1
            self.inp, self.full, self.padded = [Ref(k)], [Ref(k, "d")], [Ref(k, "d3")]
        if not kind:
            self.padded = ["000"]


class Number:
    """Groups from the highest down to the units, as kinds; the units may follow an "and" when they are below 100."""

    def __init__(self, slots, *kinds, lo=1, hi=99):
        n = len(kinds)
        self.inp, self.out = [], []
        for i, kind in enumerate(kinds):
            g = Group(slots, kind, lo if n == 1 else 1, hi)
            p = n - 1 - i
            if i and kind:
                if kind == "t" and p == 0:
                    slots.append(conj())
                    self.inp.append(Ref(len(slots) - 1))
                self.inp.append(" ")
            self.inp += g.inp
            if p and kind:
                self.inp.append(" " + SCALES[p - 1])
            self.out += g.padded if i else g.full
        self.name = "-".join(k or "0" for k in kinds)


def digits(slots, n):
    """n digits said one by one: input and output, zero as zero or o."""
    ks = []
    for _ in range(n):
        slots.append(Enum(["o"] + en.ONES, d=list("00123456789")))
        ks.append(len(slots) - 1)
    inp = []
    for i, k in enumerate(ks):
        inp += [" "] * (i > 0) + [Ref(k)]
    return inp, [Ref(k, "d") for k in ks]
