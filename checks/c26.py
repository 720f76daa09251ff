"""English TN: numbers, ordinals, decimals, fractions, money, percentages."""
from vf.family import run_check, replay  # noqa: F401
from ._encommon import Alt, Enum, Families, Number, Ref, T, en, g_and, g_in, g_not, g_or

D = "0123456789"
CURRENCY = {"$": "dollar", "US$": "us dollar", "£": "pound", "€": "euro", "₩": "won", "¥": "yen", "hk$": "hong kong dollar"}
PLURAL = {"won": "won", "yen": "yen"}
VULGAR = {"¼": "1/4", "½": "1/2", "¾": "3/4", "⅐": "1/7", "⅑": "1/9", "⅒": "1/10", "⅓": "1/3", "⅔": "2/3", "⅕": "1/5", "⅖": "2/5", "⅗": "3/5",
          "⅘": "4/5", "⅙": "1/6", "⅚": "5/6", "⅛": "1/8", "⅜": "3/8", "⅝": "5/8", "⅞": "7/8"}


def digit_slots(slots, k):
    r = []
    for _ in range(k):
        slots.append(Enum(D, oh=["oh"] + en.ONES[1:]))
        r.append(len(slots) - 1)
    return r


def spelled(ks):
    out = []
    for i, k in enumerate(ks):
        out += [" "] * (i > 0) + [Ref(k, "oh")]
    return out


def fraction_words(n, d):
    """n/d with the denominator as an ordinal, half or quarter."""
    if d == 2:
        return "half" if n == 1 else "halves"
    word = "quarter" if d == 4 else en.ordinal(d)
    return word if n == 1 else word + "s"


def families(tier):
    big = tier == "thorough"
    fs = Families()
    add = fs.add
    # integers
    for lead in (1, 2, 3):
        s = []
        x = Number(s, lead, 0)
        add("%d digits" % lead, s, x.inp, x.read(), words=lead == 2, context=lead == 2)
        s = []
        x = Number(s, lead, 0)
        add("minus %d digits" % lead, s, ["-", x.inp], ["negative ", x.read()], words=lead == 2)
        s = []
        x = Number(s, lead, 0)
        s.append(Enum(["0", "00", "000"], oh=["oh", "oh oh", "oh oh oh"]))
        add("0 and %d digits" % lead, s, [Ref(1), x.inp], [Ref(1, "oh"), " ", x.read()])
    years = Enum(range(1000, 3000), year=[en.year(v) for v in range(1000, 3000)])
    add("1000-2999 alone", [years], [Ref(0)], [Ref(0, "year")], words=big)
    years = Enum(range(1900, 2031), year=[en.year(v) for v in range(1900, 2031)])
    add("1900-2030", [years], [Ref(0)], [Ref(0, "year")], words=True)
    s = []
    x = Number(s, 1, 1)
    add("3000-9999", s, x.inp, x.read(), where=g_in(x.k[0], range(2, 9)))
    s = []
    x = Number(s, 1, 1, True)
    add("d,ddd", s, x.inp, x.read(drop=True), words=big)
    s = []
    x = Number(s, 1, 1)
    add("-dddd", s, ["-", x.inp], ["negative ", x.read(drop=True)])
    few = [0, 1, 2, 10, 12, 19, 20, 21, 30, 99, 100, 101, 110, 115, 120, 200, 305, 480, 555, 999]
    shapes = [(2, 1, None), (3, 1, None if big else few), (1, 2, few), (2, 3, few)]
    if big:
        shapes += [(1, 2, None), (2, 2, None), (3, 2, few), (1, 3, few), (3, 3, few)]
    for lead, groups, some in shapes:
        for comma in (False, True):
            s = []
            x = Number(s, lead, groups, comma, some)
            s.append(Enum(["", "-"], han=["", "negative "]))
            add("%d+%dx3 digits%s%s" % (lead, groups, " with commas" * comma, " (some)" * bool(some)), s, [Ref(len(s) - 1), x.inp],
                [Ref(len(s) - 1, "han"), x.read()])
    # decimals
    for lead, groups, k in [(1, 0, 1), (2, 0, 2), (3, 0, 1), (1, 0, 4), (1, 1, 2)] + ([(3, 1, 2), (3, 0, 6), (2, 2, 2)] if big else []):
        s = []
        x = Number(s, lead, groups)
        f = digit_slots(s, k)
        s.append(Enum(["", "-"], han=["", "minus "]))
        m = len(s) - 1
        add("decimal %d+%dx3.%d" % (lead, groups, k), s, [Ref(m), x.inp, ".", [Ref(i) for i in f]],
            [Ref(m, "han"), x.read(drop=True), " point ", spelled(f)], words=k == 1 and lead == 1)
    for k in (1, 2, 3):
        s = []
        f = digit_slots(s, k)
        add(".%d digits" % k, s, [".", [Ref(i) for i in f]], ["point ", spelled(f)])
    for k in (0, 1):
        s = []
        x = Number(s, 3 if k == 0 else 2, 0)
        f = digit_slots(s, k)
        s.append(Enum(["million", "billion", "trillion", "quadrillion"]))
        q = len(s) - 1
        add("quantity .%d" % k, s, [x.inp, "." if k else "", [Ref(i) for i in f], " ", Ref(q)],
            [x.read(), " point " if k else "", spelled(f), " ", Ref(q)])
    # ordinals
    n3 = [v for v in range(1, 1000)]
    add("ordinals", [Enum(["%d%s" % (v, en.suffix(v)) for v in n3], ord=[en.ordinal(v) for v in n3])], [Ref(0)], [Ref(0, "ord")])
    n2 = n3[:99]
    add("two digit ordinals", [Enum(["%d%s" % (v, en.suffix(v)) for v in n2], ord=[en.ordinal(v) for v in n2])], [Ref(0)], [Ref(0, "ord")],
        context=True, words=True)
    for comma in (False, True):
        s = []
        x = Number(s, 2 if big else 1, 1, comma)
        suf = Enum(["st", "nd", "rd", "th"])
        s.append(suf)
        by = [[v for v in range(1000) if en.suffix(v) == t] for t in suf.values]
        add("ordinals of thousands%s" % (" with a comma" * comma), s, [x.inp, Ref(len(s) - 1)],
            [Ref(x.k[0], "bare"), " ", Alt((g_in(x.k[1], [0]), ["thousandth"]), (g_not(g_in(x.k[1], [0])), ["thousand ", Ref(x.k[1], "ord")]))],
            where=g_or(*[g_and(g_in(len(s) - 1, [i]), g_in(x.k[1], vs)) for i, vs in enumerate(by)]))
    # fractions
    top = list(range(100 if big else 40))
    dens = list(range(2, 100))
    for mixed in (False, True):
        num = Enum(top, words=[en.cardinal(v) for v in top])
        den = Enum(dens, one=[fraction_words(1, d) for d in dens], many=[fraction_words(2, d) for d in dens])
        s = [num, den]
        word = Alt((g_in(0, [1]), [Ref(1, "one")]), (g_not(g_in(0, [1])), [Ref(1, "many")]))
        if mixed:
            s.append(Enum(range(1, 1000), words=[en.cardinal(v, False) for v in range(1, 1000)]))
            half = g_and(g_in(0, [1]), g_in(1, [0]))
            add("mixed number", s, [Ref(2), " ", Ref(0), "/", Ref(1)],
                [Ref(2, "words"), " and ", Alt((half, ["a "]), (g_not(half), [Ref(0, "words"), " "])), word])
        else:
            add("fraction", s, [Ref(0), "/", Ref(1)], [Ref(0, "words"), " ", word], words=True)
    v = sorted(VULGAR)
    parts = [[int(c) for c in VULGAR[x].split("/")] for x in v]
    read = ["%s %s" % (en.cardinal(n), fraction_words(n, d)) for n, d in parts]
    some = ["%s %s" % ("a" if (n, d) == (1, 2) else en.cardinal(n), fraction_words(n, d)) for n, d in parts]
    add("vulgar fraction", [Enum(v, words=read)], [Ref(0)], [Ref(0, "words")], context=True)
    add("mixed vulgar", [Enum(range(1, 100), words=[en.cardinal(n) for n in range(1, 100)]), Enum(v, words=some)],
        [Ref(0), " ", Ref(1)], [Ref(0, "words"), " and ", Ref(1, "words")])
    # money
    cur = sorted(CURRENCY)
    names = [CURRENCY[c] for c in cur]
    money = Enum(cur, one=names, many=[PLURAL.get(n) or en.plural(n) for n in names])
    for lead, groups, comma in [(1, 0, False), (2, 0, False), (3, 0, False), (1, 1, False), (1, 1, True), (2, 1, True)] + ([(3, 2, True)] if big else []):
        for k in (0, 1, 2):
            s = [money]
            x = Number(s, lead, groups, comma)
            f = digit_slots(s, k)
            one = x.is_value([1]) if lead == 1 and not groups else None
            unit = Ref(0, "many") if one is None else Alt((one, [Ref(0, "one")]), (g_not(one), [Ref(0, "many")]))
            whole = [x.read(drop=not k), " ", unit]
            if k:
                z = [g_in(i, [0]) for i in f]
                frac = lambda n: [x.read(drop=True), " point ", spelled(f[:n]), " ", Ref(0, "many")]
                cases = [(g_and(*z), whole)]
                for n in range(1, k + 1):
                    cases.append((g_and(g_not(z[n - 1]), *z[n:]), frac(n)))
                whole = [Alt(*cases)]
            add("money %d+%dx3.%d%s" % (lead, groups, k, comma), s, [Ref(0), x.inp, "." if k else "", [Ref(i) for i in f]], whole,
                words=lead == 2 and k == 2 and not groups)
    s = [money]
    x = Number(s, 3 if big else 2, 0)
    s.append(Enum([" million", " billion", " trillion", "m", "M", "bn", "b", "B", " M", "mln"],
                  words=["million", "billion", "trillion", "million", "million", "billion", "billion", "billion", "million", "million"]))
    add("money millions", s, [Ref(0), x.inp, Ref(2)], [x.read(), " ", Ref(2, "words"), " ", Ref(0, "many")])
    # percentages
    for lead, k in ((1, 0), (2, 0), (3, 0), (2, 1), (1, 2)):
        s = []
        x = Number(s, lead, 0)
        f = digit_slots(s, k)
        s.append(Enum(["%", " %"]))
        s.append(Enum(["", "-"], han=["", "negative "]) if not k else Enum([""], han=[""]))
        n = len(s)
        add("percent %d.%d" % (lead, k), s, [Ref(n - 1), x.inp, "." if k else "", [Ref(i) for i in f], Ref(n - 2)],
            [Ref(n - 1, "han"), x.read(), " point " if k else "", spelled(f), " percent"], words=k == 0 and lead == 2)
    return fs.out


FUNCTIONS = ["tn.english.rules.cardinal.Cardinal", "tn.english.rules.ordinal.Ordinal", "tn.english.rules.decimal.Decimal",
             "tn.english.rules.fraction.Fraction", "tn.english.rules.money.Money", "tn.english.rules.measure.Measure",
             "tn.english.normalizer.Normalizer.build_tagger_and_verbalizer", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 230,
                     "integers up to 11 digits (thorough 12), 4 decimals (thorough 6), fractions up to 39/99 (thorough 99/99), amounts up to 5+2 digits in 8 currencies",
                     FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
