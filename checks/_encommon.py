"""Shared by the English grammar checks."""
from ref import en
from vf.cnf import F, T, g_and, g_in, g_not, g_or  # noqa: F401
from vf.family import Alt, Enum, Fam, Ref  # noqa: F401

CLOSE = (5, 5)
WORDS = (40, 5)  # every word costs 100, sums are float32
ENCLOSED = [("(", ")"), ("\"", "\""), ("a, ", "!"), ("", ".")]
DOTLESS = [("see ", " today"), ("Zoe, ", " or so"), ("(it was ", ")")]  # for text that may itself end in a full stop
SENTENCE = [("see ", " today"), ("give us ", "."), ("Zoe, ", " or so"), ("(it was ", ")")]


class Families:

    def __init__(self):
        self.out = []

    def add(self, name, slots, inp, res, where=T, context=False, words=False, sentence=None):
        """The family bare; in brackets, quotes and the like (context); between words."""
        self.out.append(("en_tn", {}, Fam(name, slots, [inp], [res], where=where, eps=CLOSE)))
        for on, kind, cases in ((context, "enclosed", ENCLOSED), (words, "in a sentence", sentence or SENTENCE)):
            if on:
                more = list(slots) + [Enum([a + "X" + b for a, b in cases], left=[a for a, _ in cases], right=[b for _, b in cases])]
                n = len(slots)
                self.out.append(("en_tn", {}, Fam("%s %s" % (name, kind), more, [Ref(n, "left"), inp, Ref(n, "right")],
                                                  [Ref(n, "left"), res, Ref(n, "right")], where=where, eps=WORDS)))


class Number:
    """Digits in groups of three: lead of 1-3 digits, then full groups; spelled in every way the rules need."""

    def __init__(self, slots, lead, groups, comma=False, some=None, top=None):
        lo, hi = (0 if lead == 1 and not groups else 10**(lead - 1)), 10**lead
        self.slots = slots
        top = top or list(range(lo, hi))
        slots.append(Enum(top, andy=[en.group(v, True) for v in top], bare=[en.group(v) for v in top],
                          ord=[en.ordinal(v) for v in top]))
        self.k = [len(slots) - 1]
        for _ in range(groups):
            three = list(some or range(1000))
            slots.append(Enum(["%03d" % v for v in three], andy=["and " * (0 < v < 100) + en.group(v, True) for v in three],
                              both=[en.group(v, True) for v in three], bare=[en.group(v) for v in three], ord=[en.ordinal(v) for v in three]))
            self.k.append(len(slots) - 1)
        self.inp = [Ref(self.k[0])]
        for k in self.k[1:]:
            self.inp += ["," if comma else "", Ref(k)]
        self.one = lead == 1 and groups == 1

    def read(self, last="andy", drop=False):
        """drop: a leading "one thousand" is said "thousand"."""
        n = len(self.k)
        if n == 1:
            return [Ref(self.k[0], last)]
        # tail i: everything from group i on, with what goes in front of it
        tail = [[]]
        for i in range(n - 1, 0, -1):
            nz = g_not(g_in(self.k[i], [0]))  # 0 comes first in every group
            if i == n - 1 and last == "andy" and n > 2:  # "thousand and one" but "million one"
                thou = g_not(g_in(self.k[i - 1], [0]))
                word = Alt((thou, [Ref(self.k[i], "andy")]), (g_not(thou), [Ref(self.k[i], "both")]))
            else:
                word = [Ref(self.k[i], last)] if i == n - 1 else [Ref(self.k[i], "bare"), " ", en.SCALES[n - 1 - i]]
            tail = [Alt((nz, [" ", word]), (g_not(nz), []))] + [tail]
        head = [Ref(self.k[0], "bare"), " ", en.SCALES[n - 1]]
        if drop and self.one:
            one = g_in(self.k[0], [0])
            head = [Alt((one, ["thousand"]), (g_not(one), head))]
        return [head, tail]

    def is_value(self, v):
        """The whole number is v (given as its digit groups)."""
        return g_and(*[g_in(k, [x - (self.slots[k].values[0] if k == self.k[0] else 0)]) for k, x in zip(self.k, v)])
