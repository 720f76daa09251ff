"""English ITN: dates, years and clock times in figures."""
from ._enitncommon import en, Alt, Enum, Families, Ref, T, below, digit, g_and, g_in, g_not, g_or, replay, run_check, table  # noqa: F401

MONTH = Enum(en.MONTHS)
DAYS = Enum([en.ordinal(n) for n in range(1, 32)] + [en.below100(n) for n in range(1, 32)], d=[str(n) for n in range(1, 32)] * 2)
ZONES = {"cst": "c s t", "cet": "c e t", "pst": "p s t", "est": "e s t", "pt": "p t", "et": "e t", "gmt": "g m t"}
MARK = {"p m": "p.m.", "pm": "p.m.", "p.m.": "p.m.", "p.m": "p.m.", "a m": "a.m.", "am": "a.m.", "a.m.": "a.m.", "a.m": "a.m."}
ERA = {"b c e": "BCE", "before common era": "BCE", "b c": "BC", "c e": "CE", "common era": "CE", "a d": "AD"}
DECADES = [("tens", "1"), ("twenties", "2"), ("thirties", "3"), ("forties", "4"), ("fifties", "5"), ("sixties", "6"), ("seventies", "7"), ("eighties", "8"), ("nineties", "9")]
CONTEXT = [("we met on ", " at home"), ("yes , ", ""), ("( ", " )")]


def year(slots, kind):
    """A year: two pairs of digits, a pair and one digit (o), whole hundreds, thousands."""
    k = len(slots)
    if kind == "pairs":
        slots += [below(10, 99), below(10, 99)]
        return [Ref(k), " ", Ref(k + 1)], [Ref(k, "d"), Ref(k + 1, "d")]
    if kind == "o":
        slots += [below(10, 99), Enum(["o", "oh"])]
        d = digit(slots)
        return [Ref(k), " ", Ref(k + 1), " ", Ref(d)], [Ref(k, "d"), "0", Ref(d, "d")]
    if kind == "hundred":
        ns = [n for n in range(11, 100) if n % 10]
        slots.append(Enum([en.below100(n) for n in ns], d=[str(n) for n in ns]))
        return [Ref(k), " hundred"], [Ref(k, "d"), "00"]
    d = digit(slots)
    if kind == "thousand":
        return [Ref(d), " thousand"], [Ref(d, "d"), "000"]
    slots += [Enum(["", " and"]), below(1, 99)]
    return [Ref(d), " thousand", Ref(d + 1), " ", Ref(d + 2)], [Ref(d, "d"), Ref(d + 2, "d3")]


KINDS = ("pairs", "o", "hundred", "thousand", "thousands")


def families(tier):
    big = tier == "thorough"
    fs = Families()

    def add(name, slots, inp, res, where=T, context=False):
        fs.add(name, slots, inp, res, where, context, CONTEXT)

    add("month and day", [MONTH, DAYS], [Ref(0), " ", Ref(1)], [Ref(0), " ", Ref(1, "d")], context=True)
    add("the day of a month", [MONTH, DAYS], ["the ", Ref(1), " of ", Ref(0)], [Ref(1, "d"), " ", Ref(0)], context=True)
    for kind in KINDS:
        s = []
        i, o = year(s, kind)
        hours = T
        if kind == "pairs":
            # ten thirty is the year 1030 and the time 10:30
            hours = T
        add("year (%s)" % kind, s, i, o, where=hours, context=kind in ("pairs", "hundred"))
        s = [MONTH]
        i, o = year(s, kind)
        add("month and year (%s)" % kind, s, [Ref(0), " ", i], [Ref(0), " ", o], context=kind == "pairs")
        s = [MONTH, DAYS]
        i, o = year(s, kind)
        add("month, day and year (%s)" % kind, s, [Ref(0), " ", Ref(1), " ", i], [Ref(0), " ", Ref(1, "d"), " ", o], context=kind == "thousands")
        add("the day of a month and year (%s)" % kind, s, ["the ", Ref(1), " of ", Ref(0), " ", i], [Ref(1, "d"), " ", Ref(0), " ", o])
        s = [Enum(["first", "second", "third", "fourth"], d=list("1234"))]
        i, o = year(s, kind)
        add("quarter of a year (%s)" % kind, s, [Ref(0), " quarter of ", i], ["Q", Ref(0, "d"), " ", o], context=kind == "pairs")
        add("half of a year (%s)" % kind, s, [Ref(0), " half of ", i], ["H", Ref(0, "d"), " ", o], where=g_in(0, [0, 1]), context=kind == "thousands")
        s = [table(ERA)]
        i, o = year(s, kind)
        add("year of an era (%s)" % kind, s, [i, " ", Ref(0)], [o, Ref(0, "out")], context=kind == "pairs")
    s = []
    d = digit(s)
    s += [below(10, 99), table(ERA)]
    add("year of three digits of an era", s, [Ref(0), " ", Ref(1), " ", Ref(2)], [Ref(0, "d"), Ref(1, "d"), Ref(2, "out")], context=True)
    add("decades", [below(10, 99), Enum([w for w, _ in DECADES], d=[d for _, d in DECADES])], [Ref(0), " ", Ref(1)], [Ref(0, "d"), Ref(1, "d"), "0s"], context=True)
    ns = [n for n in range(10, 100)]
    add("centuries", [Enum([en.below100(n) for n in ns], d=[str(n) for n in ns])], [Ref(0), " hundreds"], [Ref(0, "d"), "00s"], context=True)
    add("millennium", [Enum(["", "the "])], [Ref(0), "two thousands"], [Ref(0), "2000s"], context=True)
    # times
    hour = Enum([en.below100(n) for n in range(1, 24)], d=["%02d" % n for n in range(1, 24)])
    h12 = Enum([en.below100(n) for n in range(1, 13)], d=["%02d" % n for n in range(1, 13)], before=["%02d" % ((n - 2) % 12 + 1) for n in range(1, 13)])
    single = Enum([en.below100(n) for n in range(1, 10)], d=["%02d" % n for n in range(1, 10)])
    double = below(10, 59)
    to = Enum([en.below100(n) for n in range(1, 60)], d=["%02d" % n for n in range(1, 60)], rest=["%02d" % (60 - n) for n in range(1, 60)])
    mark = table(MARK)
    zone = Enum(sorted(ZONES.values()), out=[k for v, k in sorted((v, k) for k, v in ZONES.items())])
    clock = Enum(["o'clock", "o' clock", "o clock", "oclock", "hundred hours"])
    add("o'clock", [hour, clock], [Ref(0), " ", Ref(1)], [Ref(0, "d"), ":00"], context=True)
    add("o'clock in a zone", [hour, clock, zone], [Ref(0), " ", Ref(1), " ", Ref(2)], [Ref(0, "d"), ":00 ", Ref(2, "out")], context=big)
    # from ten on "o" makes a year
    add("o minutes", [hour, single], [Ref(0), " o ", Ref(1)], [Ref(0, "d"), ":", Ref(1, "d")], context=True, where=g_in(0, range(9)))
    add("o minutes with mark", [hour, single, mark], [Ref(0), " o ", Ref(1), " ", Ref(2)], [Ref(0, "d"), ":", Ref(1, "d"), " ", Ref(2, "out")], context=big)
    add("o minutes with mark in a zone", [hour, single, mark, zone], [Ref(0), " o ", Ref(1), " ", Ref(2), " ", Ref(3)],
        [Ref(0, "d"), ":", Ref(1, "d"), " ", Ref(2, "out"), " ", Ref(3, "out")])
    add("hour with mark", [hour, mark], [Ref(0), " ", Ref(1)], [Ref(0, "d"), ":00 ", Ref(1, "out")], context=True)
    add("hour with mark in a zone", [hour, mark, zone], [Ref(0), " ", Ref(1), " ", Ref(2)], [Ref(0, "d"), ":00 ", Ref(1, "out"), " ", Ref(2, "out")])
    add("hour and minutes with mark", [hour, double, mark], [Ref(0), " ", Ref(1), " ", Ref(2)], [Ref(0, "d"), ":", Ref(1, "d"), " ", Ref(2, "out")], context=big)
    add("hour and minutes with mark in a zone", [hour, double, mark, zone], [Ref(0), " ", Ref(1), " ", Ref(2), " ", Ref(3)],
        [Ref(0, "d"), ":", Ref(1, "d"), " ", Ref(2, "out"), " ", Ref(3, "out")])
    add("hour and minutes", [hour, double], [Ref(0), " ", Ref(1)], [Ref(0, "d"), ":", Ref(1, "d")], where=g_and(g_in(0, range(9)), g_not(g_and(g_in(0, [6]), g_in(1, [1])))),  # seven eleven is a listed name
        context=True)
    add("past", [hour, to], [Ref(1), " past ", Ref(0)], [Ref(0, "d"), ":", Ref(1, "d")], context=True)
    add("half and quarter past", [hour, Enum(["half", "quarter"], d=["30", "15"])], [Ref(1), " past ", Ref(0)], [Ref(0, "d"), ":", Ref(1, "d")], context=True)
    add("quarter to", [h12, Enum(["to", "till"])], ["quarter ", Ref(1), " ", Ref(0)], [Ref(0, "before"), ":45"], context=True)
    minutes = Enum(["min", "mins", "minute", "minutes"])
    add("past with mark", [hour, to, mark], [Ref(1), " past ", Ref(0), " ", Ref(2)], [Ref(0, "d"), ":", Ref(1, "d"), " ", Ref(2, "out")])
    add("half and quarter past with mark", [hour, Enum(["half", "quarter"], d=["30", "15"]), mark], [Ref(1), " past ", Ref(0), " ", Ref(2)],
        [Ref(0, "d"), ":", Ref(1, "d"), " ", Ref(2, "out")])
    add("minutes to", [h12, to, Enum(["to", "till"]), mark], [Ref(1), " ", Ref(2), " ", Ref(0), " ", Ref(3)], [Ref(0, "before"), ":", Ref(1, "rest"), " ", Ref(3, "out")])
    add("so many minutes to", [h12, to, Enum(["to", "till"]), minutes, mark], [Ref(1), " ", Ref(3), " ", Ref(2), " ", Ref(0), " ", Ref(4)],
        [Ref(0, "before"), ":", Ref(1, "rest"), " ", Ref(4, "out")])
    add("quarter to with mark", [h12, Enum(["to", "till"]), mark], ["quarter ", Ref(1), " ", Ref(0), " ", Ref(2)], [Ref(0, "before"), ":45 ", Ref(2, "out")])
    return fs.out


FUNCTIONS = ["itn.english.rules.date.Date", "itn.english.rules.time.Time", "itn.english.rules.ordinal.Ordinal", "itn.english.rules.cardinal.Cardinal",
             "itn.english.inverse_normalizer.InverseNormalizer (weights, composition)", "tn.token_parser.TokenParser.reorder", "itn/english/data (tables)"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 400,
        "every month, day 1-31 (ordinal or cardinal), year 1000-9999 in every spelling, decade, century, quarter, half and era; every clock time in every spelling, "
        "mark and zone", FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
