"""English ITN: numbers, ordinals, decimals, measures and money in figures."""
from ref.enitn import CURRENCY, PLURAL, UNITS
from ._enitncommon import en, Alt, Enum, Families, Number, Ref, T, below, digit, digits, g_and, g_in, g_not, g_or, replay, run_check, table  # noqa: F401

NEG = Enum(["", "minus ", "negative "], out=["", "-", "-"])
MINUS = Enum(["", "minus "], out=["", "-"])
ORD_CONTEXT = [("the ", " one"), ("on ", " street"), ("yes , ", ""), ("", " people left")]


def families(tier):
    big = tier == "thorough"
    fs = Families()
    add = fs.add
    # integers
    s = [Enum(en.ONES + ["ten", "eleven", "twelve"]), Enum(["", "minus ", "negative ", "a "])]
    add("0-12", s, [Ref(1), Ref(0)], [Ref(1), Ref(0)], context=True)
    shapes = [("h", ), ("a", ), ("x", ), ("y", ), ("t", ""), ("t", "t"), ("t", "h"), ("h", ""), ("h", "t"), ("h", "a"), ("t", "", "t"), ("t", "t", ""), ("t", "", "", "t")]
    if big:
        shapes += [("t", "a"), ("a", "t"), ("t", "", "h"), ("h", "t", "h"), ("t", "a", "t"), ("t", "t", "t"), ("t", "t", "", ""), ("t", "", "t", ""), ("a", "a"),
                   ("a", "", "a"), ("a", "h", "t"), ("t", "t", "t", "t"), ("h", "a", "", "a"), ("t", "", "", "", "t"), ("t", "t", "", "t", "")]
    s = []
    x = Number(s, "t", lo=13)
    s.append(NEG)
    add("13-99", s, [Ref(1), x.inp], [Ref(1, "out"), x.out], context=True)
    for sh in shapes:
        s = []
        x = Number(s, *sh)
        s.append(NEG)
        k = len(s) - 1
        add(x.name, s, [Ref(k), x.inp], [Ref(k, "out"), x.out], context=sh in (("h", ), ("x", ), ("t", "")) or big, more=[("we saw ", " today")])
    for kind in "tha":
        s = []
        x = Number(s, kind)
        s += [Enum(["million", "billion", "trillion"]), MINUS]
        k = len(s)
        plain = g_in(1, [0]) if kind == "a" else T
        add("%s million" % kind, s, [Ref(k - 1), x.inp, " ", Ref(k - 2)], [Ref(k - 1, "out"), x.out, " ", Ref(k - 2)], context=kind == "t", where=plain)
    # ordinals
    words = [n for n in range(1, 100)]

    def suffix(n):
        return "th" if n // 10 % 10 == 1 else {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")
    o99 = Enum([en.ordinal(n) for n in words], d=[str(n) + suffix(n) for n in words], d2=["%02d" % n + suffix(n) for n in words], d3=["%03d" % n + suffix(n) for n in words])
    add("ordinals to 99", [o99], [Ref(0)], [Ref(0, "d")], context=True)
    for pre, out in ((" hundred", "d2"), (" thousand", "d3")):
        s = []
        k = digit(s)
        s += [Enum(["", " and"]), o99]
        add("ordinals%s" % pre, s, [Ref(k), pre, Ref(1), " ", Ref(2)], [Ref(k, "d"), Ref(2, out)], context=True)
        s = []
        k = digit(s)
        add("round ordinals%s" % pre, s, [Ref(k), pre + "th"], [Ref(k, "d"), "00th" if "hundred" in pre else "000th"], context=True)
    s = []
    x = Number(s, "t", "h")
    s += [Enum(["", " and"]), o99]
    add("ordinals thousand hundred", s, [x.inp, Ref(len(s) - 2), " ", Ref(len(s) - 1)], [x.out[:-1], Ref(len(s) - 1, "d2")])
    # decimals
    for kinds, n in ((("t", ), 1), (("t", ), 3), (("a", ), 2), (("h", "t"), 2), (None, 1), (None, 3), ("zero", 2)) + (((("t", ), 6), (("a", "a"), 2)) if big else ()):
        s = []
        if kinds == "zero":
            a, b = ["zero "], ["0"]
        elif kinds:
            x = Number(s, *kinds)
            a, b = x.inp + [" "], x.out
        else:
            a, b = [], []
        i, o = digits(s, n)
        s.append(MINUS)
        k = len(s) - 1
        dec = [a, "point ", i], [b, ".", o]
        name = "%s.%d" % (kinds and "-".join(kinds) or "", n)
        add("decimal " + name, s, [Ref(k), dec[0]], [Ref(k, "out"), dec[1]], context=n < 3 and kinds in (None, ("t", )))
        if kinds and n < 3:
            add("decimal %s million" % name, s + [Enum(["thousand", "million", "billion", "trillion"])], [Ref(k), dec[0], " ", Ref(k + 1)],
                [Ref(k, "out"), dec[1], " ", Ref(k + 1)])
        if n < 3:
            u = s + [table(PLURALS), NEG]
            add("decimal %s units" % name, u[:k] + u[k + 1:], [Ref(k + 1), dec[0], " ", Ref(k)], [Ref(k + 1, "out"), dec[1], " ", Ref(k, "out")])
            add("decimal %s dollars" % name, s[:k] + [table(MONEY)], [dec[0], " ", Ref(k)], [Ref(k, "out"), dec[1]])
            if kinds:
                add("decimal %s million dollars" % name, s[:k] + [table(MONEY), Enum(["million", "billion", "trillion"])], [dec[0], " ", Ref(k + 1), " ", Ref(k)],
                    [Ref(k, "out"), dec[1], " ", Ref(k + 1)])
    # measures
    add("one unit", [table(SINGULAR), NEG], [Ref(1), "one ", Ref(0)], [Ref(1, "out"), "1 ", Ref(0, "out")], context=True)
    names = sorted(PLURALS)
    hours, miles = [names.index("hours")], [names.index("miles")]
    per = table({"hour": "h", "second": "s", "minute": "min", "meter": "m", "square meter": "m²", "kilogram": "kg"})
    for kinds in (("t", ), ("h", ), ("a", ), ("t", ""), ("h", "a"), ("t", "", "")):
        s = []
        x = Number(s, *kinds)
        k = len(s)
        add("units " + x.name, s + [table(PLURALS), NEG], [Ref(k + 1), x.inp, " ", Ref(k)], [Ref(k + 1, "out"), x.out, " ", Ref(k, "out")], context=len(kinds) == 1,
            where=g_not(g_in(k, hours)) if kinds == ("h", ) else T)
        add("units per unit " + x.name, s + [table(PLURALS), per], [x.inp, " ", Ref(k), " per ", Ref(k + 1)], [x.out, " ", Ref(k, "out"), "/", Ref(k + 1, "out")],
            where=g_not(g_and(g_in(k, miles), g_in(k + 1, [0]))))
    # money
    add("one dollar", [table(CURRENCY)], ["one ", Ref(0)], [Ref(0, "out"), "1"], context=True)
    for kinds, lo in ((("t", ), 2), (("h", ), 1), (("a", ), 1), (("x", ), 1), (("t", ""), 1), (("h", "a"), 1), (("t", "", "t"), 1)):
        s = []
        x = Number(s, *kinds, lo=lo)
        k = len(s)
        add("dollars " + x.name, s + [table(MONEY)], [x.inp, " ", Ref(k)], [Ref(k, "out"), x.out], context=kinds in (("t", ), ("h", )))
        if len(kinds) == 1 and kinds[0] != "x":
            t = s + [table(MONEY), Enum(["million", "billion", "trillion"])]
            add("million dollars " + x.name, t, [x.inp, " ", Ref(k + 1), " ", Ref(k)], [Ref(k, "out"), x.out, " ", Ref(k + 1)], context=kinds[0] == "t", where=g_in(1, [0]) if kinds[0] == "a" else T)
        t = s + [below(1, 99), Enum(["", "and "]), Enum([" cents", " cent"])]
        if kinds[0] != "x":
            add("dollars and cents " + x.name, t, [x.inp, " dollars ", Ref(k + 1), Ref(k), Ref(k + 2)], ["$", x.out, ".", Ref(k, "d2")], context=kinds == ("t", ))
            add("dollars without cents " + x.name, s + [below(1, 99)], [x.inp, " dollars ", Ref(k)], ["$", x.out, ".", Ref(k, "d2")], context=kinds == ("t", ))
    add("cents", [below(1, 99), Enum([" cents", " cent"])], [Ref(0), Ref(1)], ["$0.", Ref(0, "d2")], context=True)
    s = []
    digit(s)
    add("one fifty five dollars", s + [below(10, 99), table(MONEY)], [Ref(0), " ", Ref(1), " ", Ref(2)], [Ref(2, "out"), Ref(0, "d"), Ref(1, "d")], context=True)
    return fs.out


PLURALS = {PLURAL[u]: UNITS[u] for u in PLURAL}
SINGULAR = dict(UNITS)
MONEY = {}
for _n, _s in CURRENCY.items():
    MONEY[_n + ("es" if _n.endswith("s") else "s")] = _s

FUNCTIONS = ["itn.english.rules.cardinal.Cardinal", "itn.english.rules.ordinal.Ordinal", "itn.english.rules.decimal.Decimal", "itn.english.rules.measure.Measure",
             "itn.english.rules.money.Money", "itn.english.rules.date.Date", "itn.english.inverse_normalizer.InverseNormalizer", "tn.processor.Processor"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 400,
        "numbers up to a billion in every spelling with and without \"and\" (shapes of groups stated in the check), up to 3 (thorough 6) decimals, every listed unit and "
        "currency, all ordinals to 99 and with hundred and thousand",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
