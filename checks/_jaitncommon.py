"""Shared by the Japanese ITN checks."""
from vf.cnf import F, T, g_and, g_in, g_not, g_or  # noqa: F401
from vf.family import Char, Fam, char_is, run_check, replay  # noqa: F401
from vf.fst import Alt, Enum, Ref  # noqa: F401

KANJI = "〇一二三四五六七八九"
CONTEXT = [("今は", "です"), ("約", "ぐらい"), ("、", "。"), ("a", "b"), ("「", "」")]
SIGN = {"": "", "プラス": "+", "マイナス": "-", "プラスマイナス": "±", "負の": "-"}
# the places of a group of four: how each digit can be said
PLACE = [
    [("0", "")] + [(str(d), KANJI[d]) for d in range(1, 10)],
    [("0", ""), ("1", "十")] + [(str(d), KANJI[d] + "十") for d in range(2, 10)],
    [("0", ""), ("1", "百"), ("1", "一百")] + [(str(d), KANJI[d] + "百") for d in range(2, 10)],
    [("0", ""), ("1", "千"), ("1", "一千")] + [(str(d), KANJI[d] + "千") for d in range(2, 10)],
]


def table(d):
    k = sorted(d)
    return Enum(k, said=[d[x] for x in k])


class Families:

    def __init__(self):
        self.out = []

    def add(self, name, slots, inp, res, where=T, context=False, more=CONTEXT, **opt):
        """The family bare; between other text (context)."""
        self.out.append(("ja_itn", opt, Fam(name, slots, [inp], [res], where=where)))
        if context:
            n = len(slots)
            if opt.get("full_to_half"):
                more = [(a, b) for a, b in more if "。" not in b]
            s = list(slots) + [Enum([a + "X" + b for a, b in more], left=[a for a, _ in more], right=[b for _, b in more])]
            self.out.append(("ja_itn", opt, Fam(name + " in context", s, [Ref(n, "left"), inp, Ref(n, "right")], [Ref(n, "left"), res, Ref(n, "right")],
                                                where=where)))


class Group4:
    """A number of exactly n digits (n up to 4; 0: nothing), padded says the output has four digits."""

    def __init__(self, slots, n, zero=False):
        self.inp, self.digits = [], []
        for i in range(n):
            p = n - 1 - i
            rows = [r for r in PLACE[p] if i or r[0] != "0"]
            if zero and n == 1:
                rows = [("0", "〇"), ("0", "零"), ("0", "ゼロ"), ("0", "れい")] + rows
            slots.append(Enum([t for _, t in rows], digit=[d for d, _ in rows]))
            self.inp.append(Ref(len(slots) - 1))
            self.digits.append(Ref(len(slots) - 1, "digit"))
        self.n = n

    @property
    def padded(self):
        return ["0"] * (4 - self.n) + self.digits


class Number:
    """hi 万 lo, hi and lo with the given counts of digits; lo alone without hi."""

    def __init__(self, slots, lo, hi=0, million=False, zero=False):
        first = len(slots)
        h = Group4(slots, hi)
        low = Group4(slots, lo, zero)
        self.single = not hi and lo == 1
        self.slots = range(first, len(slots))
        if not hi:
            self.inp, self.out = low.inp, low.digits
        elif million or hi <= 2:
            self.inp, self.out = h.inp + ["万"] + low.inp, h.digits + low.padded
        else:
            self.inp, self.out = h.inp + ["万"] + low.inp, h.digits + ["万"] + low.digits
        self.name = "%d万%d" % (hi, lo) if hi else "%d digits" % lo


def digits(slots, n, zero=True, plain=False):
    ks = []
    rows = [(str(d), KANJI[d]) for d in range(0 if zero else 1, 10)] + ([("0", "零"), ("0", "ゼロ"), ("0", "れい")] if zero and not plain else [])
    for _ in range(n):
        slots.append(Enum([t for _, t in rows], digit=[d for d, _ in rows]))
        ks.append(len(slots) - 1)
    return ks
