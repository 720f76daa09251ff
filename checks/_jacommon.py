"""Shared by the Japanese TN checks."""
from vf.cnf import F, T, g_and, g_in, g_not, g_or  # noqa: F401
from vf.family import Fam, Group, run_check, replay  # noqa: F401
from vf.fst import Alt, Enum, Ref  # noqa: F401

KANJI = "〇一二三四五六七八九"
WIDE = "０１２３４５６７８９"
CONTEXT = [("今は", "です"), ("約", "の"), ("、", "。"), ("a", "b"), ("「", "」")]


def half(text):
    return text.replace("。", ".")


def place(unit, always=False):
    """Readings of the digits 0-9 in front of a place name."""
    return [""] + [(KANJI[d] if d > 1 or always or not unit else "") + unit for d in range(1, 10)]


def said(n):
    """The reading of n below 10^8."""
    if n == 0:
        return "〇"
    out = ""
    if n >= 10**4:
        hi = n // 10**4
        out = "".join(place(u, u == "千")[int(d)] for u, d in zip(("千", "百", "十", ""), "%04d" % hi)) + "万"
    return out + "".join(place(u)[int(d)] for u, d in zip(("千", "百", "十", ""), "%04d" % (n % 10**4)))


class Families:

    def __init__(self):
        self.out = []

    def add(self, name, slots, inp, res, where=T, context=False, more=CONTEXT, **opt):
        """The family bare; between other text (context)."""
        self.out.append(("ja_tn", opt, Fam(name, slots, [inp], [res], where=where)))
        if context:
            n = len(slots)
            s = list(slots) + [Enum([a + "X" + b for a, b in more], left=[a for a, _ in more], right=[b for _, b in more], said=[half(b) for _, b in more])]
            self.out.append(("ja_tn", opt, Fam(name + " in context", s, [Ref(n, "left"), inp, Ref(n, "right")], [Ref(n, "left"), res, Ref(n, "said")],
                                               where=where)))


class Number:
    """A number of the given count of digits (up to 8) without leading zeros."""

    def __init__(self, slots, n, wide=False, comma=False, zero=True):
        sym = WIDE if wide else "0123456789"
        self.k = []
        for i in range(n):
            p = n - 1 - i
            unit = ("", "十", "百", "千")[p % 4]
            read = place(unit, p == 7)
            lead = i == 0
            if n == 1 and zero:
                read = ["〇"] + read[1:]
            first = 1 if lead and not (n == 1 and zero) else 0
            slots.append(Enum(sym[first:], said=read[first:], digit=list(KANJI)[first:]))
            self.k.append(len(slots) - 1)
        self.inp, self.read = [], []
        for i, k in enumerate(self.k):
            p = n - 1 - i
            self.inp += [Ref(k)] + [","] * (comma and p and p % 3 == 0)
            self.read += [Ref(k, "said")] + ["万"] * (p == 4)
        self.digits = [Ref(k, "digit") for k in self.k]


def digits(slots, n, wide=False, **more):
    ks = []
    for _ in range(n):
        slots.append(Enum(WIDE if wide else "0123456789", digit=list(KANJI), zero=["ゼロ"] + list(KANJI)[1:]))
        ks.append(len(slots) - 1)
    return ks
