"""Independent statement of how Chinese reads numbers, written from the language, not from the grammar sources."""
from vf.cnf import F, T, g_and, g_in, g_not, g_or
from vf.fst import Alt, Enum, Ref

HAN = "零一二三四五六七八九"
YAO = "零幺二三四五六七八九"
UNIT = ["", "十", "百", "千"]


def digit(lo=0, hi=9, mixed=False):
    """A digit slot; mixed: each digit may be half- or full-width."""
    vals = [str(d) for d in range(lo, hi + 1)]
    d = [int(v) for v in vals]
    if mixed:
        vals += [chr(0xFF10 + x) for x in d]
        d += d
    e = Enum(vals, han=[HAN[x] for x in d], yao=[YAO[x] for x in d], full=[chr(0xFF10 + x) for x in d], half=[str(x) for x in d])
    e.digits = d
    return e


class Digits:
    """n digit slots (the first one nonzero unless zero=True) added to a slot list."""

    def __init__(self, slots, n, zero=False, mixed=False, nonzero=False):
        self.k = []
        self.slots = slots
        for i in range(n):
            slots.append(digit(1 if nonzero or i == 0 and not zero else 0, mixed=mixed))
            self.k.append(len(slots) - 1)
        self.n = n

    def inp(self, m="id"):
        return [Ref(k, m) for k in self.k]

    def one_by_one(self, m="han"):
        return [Ref(k, m) for k in self.k]

    def at(self, i, *ds):
        """guard: digit i is one of ds"""
        ds = [int(d) for d in ds]
        return g_in(self.k[i], [j for j, x in enumerate(self.slots[self.k[i]].digits) if x in ds])

    def zero(self, i):
        return self.at(i, 0)

    def equals(self, text, at=0):
        return g_and(*[self.at(at + i, c) for i, c in enumerate(text)])

    def concat_of(self, words):
        """The digits are one or more of the words written together."""
        ok = [F] * (self.n + 1)
        ok[self.n] = T
        for i in range(self.n - 1, -1, -1):
            ok[i] = g_or(*[g_and(self.equals(w, i), ok[i + len(w)]) for w in words if i + len(w) <= self.n])
        return ok[0]

    def read(self, liang=True, lone="二"):
        """Reading of the integer; lone is how a single 2 is read."""
        n = self.n
        first = n % 4 or 4
        groups = [list(range(0, first))]
        p = first
        while p < n:
            groups.append(list(range(p, p + 4)))
            p += 4
        assert len(groups) <= 3
        out = []
        for gi, g in enumerate(groups):
            for j, i in enumerate(g):
                unit = UNIT[len(g) - 1 - j]
                out.append(self._one(groups, gi, j, i, unit, liang, lone))
            big = ["", "万", "亿"][len(groups) - 1 - gi]
            if gi == 0:
                out.append(big)
            elif big:
                allzero = g_and(*[self.zero(i) for i in g])
                out.append(Alt((allzero, []), (g_not(allzero), [big])))
        return out

    def _one(self, groups, gi, j, i, unit, liang, lone):
        ref = Ref(self.k[i], "han")
        if gi == 0 and j == 0:
            n = len(groups[0])
            if n == 2:
                one = self.at(i, 1)
                return Alt((one, ["十"]), (g_not(one), [ref, "十"]))
            two = self.at(i, 2)
            if n == 1 and len(groups) == 1:
                return Alt((two, [lone]), (g_not(two), [ref]))
            if liang:
                return Alt((two, ["两", unit]), (g_not(two), [ref, unit]))
            return [ref, unit]
        z = self.zero(i)
        if j > 0:
            before = self.zero(i - 1)
        elif gi == 2:
            before = g_and(*[self.zero(x) for x in groups[1]])
        else:
            before = "F"
        if before == "F":
            return Alt((z, []), (g_not(z), [ref, unit]))
        return Alt((z, []), (g_and(g_not(z), before), ["零", ref, unit]), (g_and(g_not(z), g_not(before)), [ref, unit]))


def read_int(text, liang=True):
    """Concrete reading, for testing the symbolic one."""
    from vf.fst import render
    slots = []
    d = Digits(slots, len(text))
    return render(slots, d.read(liang), [slots[k].values.index(c) for k, c in zip(d.k, text)])


# numbers everybody dials, read digit by digit
HOTLINES = ("110 111 112 114 119 120 122 10086 10010 12306 12315 12345 12110 12320 12366 12333 12328 95110 95120 95188 95500 "
            "95511 95533 95555 95566 95588 95598 95599").split()
SIGN = [("", ""), ("+", "正"), ("-", "负"), ("±", "正负")]
