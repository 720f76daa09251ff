"""English TN: dates, years, clock times, ranges, arithmetic."""
from vf.family import run_check, replay  # noqa: F401
from ._encommon import DOTLESS, Alt, Enum, Families, Number, Ref, en, g_and, g_in, g_not, g_or

NAMES = [m for m in en.MONTHS if m != "may"]
SHORT = {"jan": "january", "feb": "february", "mar": "march", "apr": "april", "jun": "june", "jul": "july", "aug": "august", "sep": "september",
         "sept": "september", "oct": "october", "nov": "november", "dec": "december"}
AMPM = {"am": "AM", "AM": "AM", "a.m.": "AM", "A.M.": "AM", "a.m": "AM", "pm": "PM", "PM": "PM", "p.m.": "PM", "P.M.": "PM", "p.m": "PM"}
ZONES = {z: z.replace(".", "").upper() for z in ("cst", "c.s.t", "cet", "c.e.t", "pst", "p.s.t", "est", "e.s.t", "pt", "p.t", "et", "e.t", "gmt", "g.m.t")}
DAYS = {"Mon": "Monday", "Tu": "Tuesday", "Wed": "Wednesday", "Th": "Thursday", "Thur": "Thursday", "Thurs": "Thursday", "Fri": "Friday",
        "Sat": "Saturday", "Sun": "Sunday"}


def months():
    names = [f(m) for m in NAMES for f in (str, str.capitalize, str.upper)] + [f(m) for m in SHORT for f in (str, str.capitalize, str.upper)]
    return Enum(names, full=[SHORT.get(n.lower(), n.lower()) for n in names])


def days(lo=1, padded=True, ending=False):
    v = ["%d" % d for d in range(lo, 32)] + (["%02d" % d for d in range(lo, 10)] if padded else [])
    if ending:
        v += ["%d%s" % (d, en.suffix(d)) for d in range(lo, 32)]
    num = [int("".join(c for c in x if c.isdigit())) for x in v]
    return Enum(v, ord=[en.ordinal(n) for n in num])


def years(lo=1000, hi=2999):
    v = range(lo, hi + 1)
    return Enum(v, year=[en.year(y) for y in v])


def month_numbers():
    v = ["%d" % n for n in range(1, 13)] + ["%02d" % n for n in range(1, 10)]
    return Enum(v, full=[en.MONTHS[int(x) - 1] for x in v])


def clock():
    """[hour, minute] slots"""
    h = ["%d" % x for x in range(24)] + ["%02d" % x for x in range(10)]
    mi = ["%02d" % x for x in range(60)]
    word = lambda x: en.below100(int(x))
    return [Enum(h, words=[word(x) for x in h], unit=[word(x) + (" hour" if int(x) == 1 else " hours") for x in h]),
            Enum(mi, words=["zero" if x == "00" else ("o " if x[0] == "0" else "") + word(x) for x in mi],
                 unit=[word(x) + (" minute" if int(x) == 1 else " minutes") for x in mi],
                 second=[word(x) + (" second" if int(x) == 1 else " seconds") for x in mi])]


def families(tier):
    big = tier == "thorough"
    fs = Families()
    add = fs.add
    yr = years() if big else years(1890, 2049)
    # numeric dates
    for sep in "-/.":
        ymd = [years(), month_numbers(), days()]
        add("y%sm%sd" % (sep, sep), ymd if big or sep == "-" else [yr] + ymd[1:], [Ref(0), sep, Ref(1), sep, Ref(2)],
            ["the ", Ref(2, "ord"), " of ", Ref(1, "full"), " ", Ref(0, "year")], words=sep == "-" and big, context=sep == "/" and big)
        add("m%sd%sy" % (sep, sep), [yr, month_numbers(), days()], [Ref(1), sep, Ref(2), sep, Ref(0)],
            ["the ", Ref(2, "ord"), " of ", Ref(1, "full"), " ", Ref(0, "year")])
        add("d%sm%sy with d > 12" % (sep, sep), [yr, month_numbers(), days(13)], [Ref(2), sep, Ref(1), sep, Ref(0)],
            ["the ", Ref(2, "ord"), " of ", Ref(1, "full"), " ", Ref(0, "year")])
    small = [years(1999, 2013), month_numbers(), Enum(["1", "02", "12", "13", "23", "30", "31"], ord=["first", "second", "twelfth", "thirteenth",
                                                                                                 "twenty third", "thirtieth", "thirty first"])]
    for name, order in (("y-m-d", (0, 1, 2)), ("m-d-y", (1, 2, 0))):
        inp = []
        for i in order:
            inp += (["-"] if inp else []) + [Ref(i)]
        add("some " + name, small, inp, ["the ", Ref(2, "ord"), " of ", Ref(1, "full"), " ", Ref(0, "year")], context=True, words=True)
    # named months
    d, m = days(ending=True), months()
    few = years(1950, 2029) if not big else yr
    add("month day", [m, d], [Ref(0), " ", Ref(1)], ["the ", Ref(1, "ord"), " of ", Ref(0, "full")], words=True)
    add("month. day", [m, days()], [Ref(0), ". ", Ref(1)], ["the ", Ref(1, "ord"), " of ", Ref(0, "full")])
    for sep, said in ((", ", ", "), (" ", " "), (",", ", ")):
        add("month day%syear" % sep, [m, d, few], [Ref(0), " ", Ref(1), sep, Ref(2)],
            ["the ", Ref(1, "ord"), " of ", Ref(0, "full"), said, Ref(2, "year")])
    add("day month year", [m, d, few], [Ref(1), " ", Ref(0), " ", Ref(2)], ["the ", Ref(1, "ord"), " of ", Ref(0, "full"), " ", Ref(2, "year")])
    add("day month", [m, d], [Ref(1), " ", Ref(0)], ["the ", Ref(1, "ord"), " of ", Ref(0, "full")], words=big)
    add("month year", [m, yr], [Ref(0), " ", Ref(1)], [Ref(0, "full"), " ", Ref(1, "year")])
    add("year month day", [m, days(padded=False), few], [Ref(2), " ", Ref(0), " ", Ref(1)],
        ["the ", Ref(1, "ord"), " of ", Ref(0, "full"), " ", Ref(2, "year")])
    # decades and periods
    tens = {1: "tens", 2: "twenties", 3: "thirties", 4: "forties", 5: "fifties", 6: "sixties", 7: "seventies", 8: "eighties", 9: "nineties"}
    dec = [(c, t) for c in range(10, 30) for t in range(10) if t or c not in (10, 20)]
    word = [en.below100(c) + (" " + tens[t] if t else " hundreds") for c, t in dec]
    dec = ["%d%d0s" % x for x in dec] + ["1000s", "2000s"]
    decades = Enum(dec, words=word + ["one thousands", "two thousands"])
    add("decade", [decades], [Ref(0)], [Ref(0, "words")], context=True, words=True)
    add("mid decade", [decades], ["mid-", Ref(0)], ["mid ", Ref(0, "words")])
    add("decade-decade", [decades, decades], [Ref(0), "-", Ref(1)], [Ref(0, "words"), " to ", Ref(1, "words")])
    short = Enum(["%d0s" % t for t in range(2, 10)] + ["'%d0s" % t for t in range(2, 10)], words=[tens[t] for t in range(2, 10)] * 2)
    add("short decade", [short], [Ref(0)], [Ref(0, "words")], words=True)
    two = ["%02d" % y for y in range(10, 100)]
    add("half or quarter", [Enum(["1H", "2H", "1Q", "2Q", "3Q", "4Q"], words=["first half", "second half", "first quarter", "second quarter",
                                                                           "third quarter", "fourth quarter"]),
                            Enum(two, words=[en.below100(int(y)) for y in two])], [Ref(0), Ref(1)], ["the ", Ref(0, "words"), " of ", Ref(1, "words")])
    y2 = years(1100, 2999) if big else years(1890, 2039)
    era = Enum(["A.D.", "B.C.", "a.d.", "b.c", "B.C", "A.D"], words=["AD", "BC", "AD", "BC", "BC", "AD"])
    add("year and era", [y2, era], [Ref(0), " ", Ref(1)], [Ref(0, "year"), " ", Ref(1, "words")])
    n3 = range(110, 1000)
    add("three digit year and era", [Enum([v for v in n3 if v % 100 > 9], words=["%s %s" % (en.ONES[v // 100], en.below100(v % 100)) for v in n3 if v % 100 > 9]),
                                     era], [Ref(0), " ", Ref(1)], [Ref(0, "words"), " ", Ref(1, "words")])
    for sep in ("-", " - "):
        add("year%syear" % sep, [y2, y2], [Ref(0), sep, Ref(1)], [Ref(0, "year"), " to ", Ref(1, "year")], words=big and sep == "-")
        # clock times below
    # times
    hm = clock()
    zero = g_in(1, [0])
    said = [Ref(0, "words"), " ", Alt((zero, ["o'clock"]), (g_not(zero), [Ref(1, "words")]))]
    add("h:mm", hm, [Ref(0), ":", Ref(1)], said, context=True, words=True)
    ap = Enum(sorted(AMPM), words=[AMPM[x] for x in sorted(AMPM)])
    zn = Enum(sorted(ZONES), words=[ZONES[x] for x in sorted(ZONES)])
    for sp in ("", " "):
        said = [Ref(0, "words"), Alt((zero, []), (g_not(zero), [" ", Ref(1, "words")])), " ", Ref(2, "words")]
        add("h:mm%sam" % sp, hm + [ap], [Ref(0), ":", Ref(1), sp, Ref(2)], said)
        add("h.mm%sam" % sp, hm + [ap], [Ref(0), ".", Ref(1), sp, Ref(2)], said)
        add("h:mm%sam zone" % sp, hm + [ap, zn], [Ref(0), ":", Ref(1), sp, Ref(2), " ", Ref(3)], said + [" ", Ref(3, "words")])
        add("h%sam" % sp, [hm[0], ap], [Ref(0), sp, Ref(1)], [Ref(0, "words"), " ", Ref(1, "words")])
    bare = [x for x in sorted(AMPM) if x[-1] != "."]  # a mark's full stop also ends the sentence
    add("some h am", [hm[0], Enum(bare, words=[AMPM[x] for x in bare])], [Ref(0), " ", Ref(1)], [Ref(0, "words"), " ", Ref(1, "words")], words=True,
        sentence=DOTLESS)
    s = hm + [Enum(["", " am", " p.m."], words=["", " AM", " PM"]), hm[1]]
    add("h:mm:ss", s, [Ref(0), ":", Ref(1), ":", Ref(3), Ref(2)], [Ref(0, "unit"), " ", Ref(1, "unit"), " and ", Ref(3, "second"), Ref(2, "words")])
    add("some h:mm:ss", [Enum(["1", "12", "21"], unit=["one hour", "twelve hours", "twenty one hours"]), hm[1], hm[1]],
        [Ref(0), ":", Ref(1), ":", Ref(2)], [Ref(0, "unit"), " ", Ref(1, "unit"), " and ", Ref(2, "second")], words=True)
    s = clock() + clock()
    z2 = g_in(3, [0])
    add("h:mm-h:mm", s, [Ref(0), ":", Ref(1), "-", Ref(2), ":", Ref(3)],
        [Ref(0, "words"), " ", Alt((zero, ["o'clock"]), (g_not(zero), [Ref(1, "words")])), " to ",
         Ref(2, "words"), " ", Alt((z2, ["o'clock"]), (g_not(z2), [Ref(3, "words")]))])
    add("ham-hpm", [hm[0], ap, hm[0], ap], [Ref(0), Ref(1), "-", Ref(2), Ref(3)],
        [Ref(0, "words"), " ", Ref(1, "words"), " to ", Ref(2, "words"), " ", Ref(3, "words")])
    add("~h:mm", hm, ["~", Ref(0), ":", Ref(1)], ["approximately ", Ref(0, "words"), " ", Alt((zero, ["o'clock"]), (g_not(zero), [Ref(1, "words")]))])
    # weekdays, ranges, arithmetic
    wd = sorted(DAYS) + [x + "." for x in sorted(DAYS)]
    week = Enum(wd, words=[DAYS[x.rstrip(".")] for x in wd])
    for sep in ("-", " - ", "~"):
        add("weekday%sweekday" % sep, [week, week], [Ref(0), sep, Ref(1)], [Ref(0, "words"), " to ", Ref(1, "words")])
    plain = Enum(sorted(DAYS), words=[DAYS[x] for x in sorted(DAYS)])
    add("some weekdays", [plain, plain], [Ref(0), "-", Ref(1)], [Ref(0, "words"), " to ", Ref(1, "words")], words=True,
        sentence=DOTLESS)
    pairs = [(1, 0), (2, 0), (3, 0)] + ([(1, 1)] if big else [])
    for la, ga in pairs:
        for lb, gb in ((1, 0), (2, 0), (3, 0)):
            for op, said in (("-", " to "), (" - ", " to "), ("+", " plus "), (" + ", " plus "), ("x", " by "), (" x ", " by "), ("*", " times "),
                             (" * ", " times ")):
                if (la, lb) not in ((1, 1), (2, 2), (3, 3)) and op not in "-+" and not big:
                    continue
                s = []
                a, b = Number(s, la, ga), Number(s, lb, gb)
                add("%d%s%d digits" % (la + 3 * ga, op, lb), s, [a.inp, op, b.inp], [a.read(), said, b.read()], words=op == "-" and la == lb == 1)
    for la, lb in ((1, 1), (2, 2), (3, 1), (1, 3)):
        s = []
        a, b = Number(s, la, 0), Number(s, lb, 0)
        if lb != 2:
            add("%d:%d digits" % (la, lb), s, [a.inp, ":", b.inp], [a.read(), " to ", b.read()])
        for x in ("%-", "-", "% to ", "% - "):
            add("%d%s%d percent" % (la, x, lb), s, [a.inp, x, b.inp, "%"], [a.read(), " to ", b.read(), " percent"])
    s = []
    a = Number(s, 2, 0)
    add("approximately", s, ["~", a.inp], ["approximately ", a.read()], words=True)
    s = [Enum(["No. ", "No ", "NO. ", "NO ", "no ", "no. "], words=["Number", "Number", "Number", "Number", "number", "number"])]
    a = Number(s, 3, 0)
    add("number sign", s, [Ref(0), a.inp], [Ref(0, "words"), " ", a.read()])
    s = []
    a = Number(s, 2, 0)
    s.append(Enum(["x", " x"]))
    add("times", s, [a.inp, Ref(1)], [a.read(), " times"])
    s = []
    a, b, c = (Number(s, 1, 0) for _ in range(3))
    for op, said in (("+", "plus"), ("*", "times"), ("/", "divided by")):
        add("d%sd%sd" % (op, op), s, [a.inp, op, b.inp, op, c.inp], [a.read(), " %s " % said, b.read(), " %s " % said, c.read()])
        if op != "/":
            add("d%sd=d" % op, s, [a.inp, op, b.inp, "=", c.inp], [a.read(), " %s " % said, b.read(), " equals ", c.read()])
    return fs.out


FUNCTIONS = ["tn.english.rules.date.Date", "tn.english.rules.time.Time", "tn.english.rules.range.Range", "tn.english.rules.measure.Measure",
             "tn.english.normalizer.Normalizer.build_tagger_and_verbalizer", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 230,
                     "all days and months with years 1000-2999 (some notations 1890-2049; thorough: all), all clock times with marks and zones, ranges of up to "
                     "3 digits per side, decades 1000s-2990s",
                     FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
