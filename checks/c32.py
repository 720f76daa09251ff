"""Japanese ITN: numbers, codes, fractions, formulas, ranges, dates, times, measures and money in figures."""
from ref.jaitn import CURRENCY, UNITS_EN, UNITS_JA
from ._jaitncommon import KANJI, SIGN, Alt, Enum, Families, Number, Ref, T, digits, g_and, F, g_in, g_not, g_or, replay, run_check, table  # noqa: F401

OPS = {"カケル": "×", "負": "-", "マイナス": "-", "プラス": "+", "イコール": "=", "ワル": "÷", "から": "~", "対": ":"}
SIZES = [(1, 0), (2, 0), (3, 0), (4, 0)]
BIG = [(lo, hi) for hi in (1, 2, 3, 4) for lo in (0, 1, 2, 3, 4)]
RATE = {"時": "h", "分": "min", "秒": "s", "キログラム": "kg", "平方メートル": "m²"}


KEPT = ["十", "百", "千", "十d", "d十", "d十d", "百d", "百十d", "d百", "d百d十", "d百d十d", "d百十d", "千d", "千d百d十d", "d千d", "d千d百d十d", "d万", "十d万", "d百d十万", "d千万",
        "d万d千d百", "d億", "d億d万", "d兆d億", "d兆d億d千d百d十d万d千d百d十d"]


def jsaid(n):
    if n == 0:
        return "零"
    return (KANJI[n // 10] if n >= 20 else "") + ("十" if n >= 10 else "") + (KANJI[n % 10] if n % 10 else "")


def numbered(lo, hi):
    return Enum([jsaid(n) for n in range(lo, hi + 1)], digit=[str(n) for n in range(lo, hi + 1)])


def families(tier):
    big = tier == "thorough"
    fs = Families()
    add = fs.add
    sign = table(SIGN)

    # numbers
    for o in ({}, dict(enable_million=True), dict(enable_0_to_9=True), dict(full_to_half=True), dict(enable_standalone_number=False)):
        stay = o.get("enable_standalone_number") is False
        sizes = SIZES + BIG if big or len(o) == 0 or o.get("enable_million") else SIZES + [(2, 1), (3, 2), (4, 4)]
        for lo, hi in sizes:
            s = []
            x = Number(s, lo, hi, million=o.get("enable_million", False))
            k = len(s)
            s.append(sign)
            said = [Ref(k), x.inp]
            keep = x.single and not o.get("enable_0_to_9")
            if not stay:
                add("%s %s" % (x.name, o), s, said, said if keep else [Ref(k, "said"), x.out], context=(lo, hi) in ((3, 0), (4, 0), (2, 2), (2, 3)), **o)
        for a, b, c in ((1, 0, 0), (2, 1, 0), (3, 2, 0), (4, 4, 0), (1, 3, 1), (2, 4, 4), (0, 0, 3)) if not o or big else ((2, 3, 1), ):
            # 億, 万 and the rest
            if stay:
                continue
            s = []
            x = Number(s, a or 1)
            inp, res = x.inp + ["億"], x.out + ["億"]
            if b:
                y = Number(s, b)
                inp, res = inp + y.inp + ["万"], res + y.out + ["万"]
            if c:
                z = Number(s, c)
                inp, res = inp + z.inp, res + z.out
            add("%d億%d万%d %s" % (a or 1, b, c, o), s, inp, res, context=a == 2, **o)
            s = s[:]
            w = Number(s, 2)
            add("2兆%d億%d万%d %s" % (a or 1, b, c, o), s, [w.inp, "兆", inp], [w.out, "兆", res], **o)
        for shape in KEPT if stay else ():
            s = []
            inp = []
            for a, b in zip(shape, shape[1:] + "."):
                if a == "d":
                    s.append(Enum("二三四五六七八九" if b in "十百千" else "一二三四五六七八九"))
                inp.append(Ref(len(s) - 1) if a == "d" else a)
            add("%s kept" % shape, s, inp, inp, context=len(shape) < 4, **o)
        # digit by digit
        for n in (2, 3, 4, 5) if not big else range(2, 9):
            s = []
            ks = digits(s, n)
            keep = stay and n == 2
            add("%d digits in a row %s" % (n, o), s, [Ref(i) for i in ks], [Ref(i) if keep else Ref(i, "digit") for i in ks], context=n == 3, **o)
        for a, b in ((1, 1), (2, 2), (4, 3)) if not big else ((1, 1), (1, 5), (2, 2), (3, 3), (4, 4)):
            s = []
            x = Number(s, a, zero=True)
            f = digits(s, b)
            k = len(s)
            s.append(sign)
            add("decimal %d.%d %s" % (a, b, o), s, [Ref(k), x.inp, "点", [Ref(i) for i in f]], [Ref(k, "said"), x.out, ".", [Ref(i, "digit") for i in f]],
                context=(a, b) == (2, 2), **o)
            add("decimal percentage %d.%d %s" % (a, b, o), s, [Ref(k), x.inp, "点", [Ref(i) for i in f], "パーセント"],
                [Ref(k, "said"), x.out, ".", [Ref(i, "digit") for i in f], "%"], **o)
        for lo, hi in ((1, 0), (2, 0), (3, 0), (4, 2)):
            s = []
            x = Number(s, lo, hi, million=o.get("enable_million", False))
            k = len(s)
            s.append(sign)
            add("percentage %s %s" % (x.name, o), s, [Ref(k), x.inp, "パーセント"], [Ref(k, "said"), x.out, "%"], context=lo == 2, **o)
        s = []
        a, b, c, d = digits(s, 1, zero=False) + digits(s, 1, zero=False), digits(s, 1), digits(s, 2), digits(s, 1)
        groups = (a, b, c, d)
        add("numbers with points %s" % o, s, [[Ref(i) for i in g] + (["点"] if g is not d else []) for g in groups],
            [[Ref(i, "digit") for i in g] + (["."] if g is not d else []) for g in groups], context=True, **o)
    # fractions
    root = Enum(["", "√", "ルート"], said=["", "√", "√"])
    for a, b in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (4, 1)) + (((2, 3), (1, 4), (4, 2)) if big else ()):
        s = []
        x, y = Number(s, a), Number(s, b)
        k = len(s)
        s.append(sign)
        add("fraction %d/%d" % (b, a), s, [Ref(k), x.inp, "分の", y.inp], [Ref(k, "said"), y.out, "/", x.out], context=a + b < 4)
        if a + b < 4:
            t = s[:-1] + [root, root]
            add("fraction %d/%d of roots" % (b, a), t, [Ref(k), x.inp, "分の", Ref(k + 1), y.inp],
                [Ref(k + 1, "said"), y.out, "/", Ref(k, "said"), x.out], context=(a, b) == (1, 1))
    s = []
    x, y = Number(s, 2), Number(s, 2)
    f, g = digits(s, 2), digits(s, 1)
    add("fraction of decimals", s, [x.inp, "点", [Ref(i) for i in f], "分の", y.inp, "点", [Ref(i) for i in g]],
        [y.out, ".", [Ref(i, "digit") for i in g], "/", x.out, ".", [Ref(i, "digit") for i in f]])
    # formulas, ratios and ranges, with and without a unit
    unit = dict(UNITS_EN)
    unit.update({u: u for u in UNITS_JA if u not in unit})
    unit.update({u: u for u in CURRENCY})
    for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (4, 4)):
        s = []
        x, y = Number(s, a), Number(s, b)
        k = len(s)
        s.append(table(OPS))
        add("formula %d %d" % (a, b), s, [x.inp, Ref(k), y.inp], [x.out, Ref(k, "said"), y.out], context=(a, b) == (2, 2))
        z = Number(s, 2)
        s.append(table(OPS))
        add("formula %d %d 2" % (a, b), s, [x.inp, Ref(k), y.inp, Ref(len(s) - 1), z.inp], [x.out, Ref(k, "said"), y.out, Ref(len(s) - 1, "said"), z.out])
        for o in ({}, dict(enable_0_to_9=True)):
            s = []
            x, y = Number(s, a), Number(s, b)
            u = [w for w in sorted(unit) if w not in ("千キロメートル", )]
            s.append(Enum(u, said=[unit[w] for w in u]))
            add("range with unit %d %d %s" % (a, b, o), s, [x.inp, "から", y.inp, Ref(len(s) - 1)], [x.out, "~", y.out, Ref(len(s) - 1, "said")],
                where=T if b > 1 else g_not(g_in(len(s) - 1, [i for i, w in enumerate(u) if w in ("分", "秒", "時", "時間")])), context=(a, b) == (2, 2) and (big or not o), **o)
    for n in (1, 2, 3):
        s = []
        x = Number(s, n)
        add("第 %d digits" % n, s, ["第", x.inp], ["第", x.out], context=True)
        add("%d digits 番目" % n, s, [x.inp, "番目"], [x.out, "番目"], context=True)
    # dates
    month, day = numbered(1, 12), numbered(1, 31)
    add("month and day", [month, day], [Ref(0), "月", Ref(1), "日"], [Ref(0, "digit"), "月", Ref(1, "digit"), "日"], context=True)
    for n in (1, 2, 3, 4):
        s = [month, day]
        y = Number(s, n)
        add("year of %d digits, month" % n, s[:1] + s[2:], [[Ref(r.slot - 1) for r in y.inp], "年", Ref(0), "月"],
            [[Ref(r.slot - 1, "digit") for r in y.out], "年", Ref(0, "digit"), "月"], context=n == 4)
        add("year of %d digits, month and day" % n, s, [y.inp, "年", Ref(0), "月", Ref(1), "日"],
            [y.out, "年", Ref(0, "digit"), "月", Ref(1, "digit"), "日"], context=n == 4)
        s = []
        y = Number(s, n)
        s.append(Enum(list("RHSTM"), said=["令和", "平成", "昭和", "大正", "明治"]))
        s.append(Enum(["今年は", "来年は", "再来年は", "去年は", "一昨年は", "おととしは"]))
        add("year of an era %d" % n, s, [Ref(len(s) - 1), Ref(len(s) - 2), y.inp], [Ref(len(s) - 1), Ref(len(s) - 2, "said"), y.out], where=T)
    s = [month, day]
    ks = digits(s, 4, plain=True)
    add("year in digits, month and day", s, [[Ref(i) for i in ks], "年", Ref(0), "月", Ref(1), "日"],
        [[Ref(i, "digit") for i in ks], "年", Ref(0, "digit"), "月", Ref(1, "digit"), "日"], context=True)
    add("range of days", [month, day, day], [Ref(0), "月", Ref(1), "から", Ref(2), "日"], [Ref(0, "digit"), "月", Ref(1, "digit"), "〜", Ref(2, "digit"), "日"])
    # times
    hour, minute, second = numbered(0, 24), numbered(1, 59), numbered(1, 59)
    for o in ({}, dict(enable_standalone_number=False), dict(enable_0_to_9=True)):
        add("hour %s" % o, [hour], [Ref(0), "時"], [Ref(0, "digit"), "時"], context=True, **o)
        add("hour and minute %s" % o, [hour, minute], [Ref(0), "時", Ref(1), "分"], [Ref(0, "digit"), "時", Ref(1, "digit"), "分"], context=True, **o)
        add("minute %s" % o, [minute], [Ref(0), "分"], [Ref(0, "digit"), "分"], context=True, **o)
        add("second %s" % o, [second], [Ref(0), "秒"], [Ref(0, "digit"), "秒"], context=True, **o)
        add("minute and second %s" % o, [minute, second], [Ref(0), "分", Ref(1), "秒"], [Ref(0, "digit"), "分", Ref(1, "digit"), "秒"], **o)
        add("hour, minute and second %s" % o, [hour, minute, second], [Ref(0), "時", Ref(1), "分", Ref(2), "秒"],
            [Ref(0, "digit"), "時", Ref(1, "digit"), "分", Ref(2, "digit"), "秒"], **o)
        add("hours to hours %s" % o, [hour, hour], [Ref(0), "時から", Ref(1), "時"], [Ref(0, "digit"), "時から", Ref(1, "digit"), "時"], **o)
    # measures and money
    for o in ({}, dict(enable_0_to_9=True), dict(enable_million=True)):
        u = sorted(unit)
        money = sorted(CURRENCY)
        for lo, hi in ((1, 0), (2, 0), (3, 0), (4, 0), (0, 1), (4, 2), (1, 3)):
            s = []
            x = Number(s, lo, hi, million=o.get("enable_million", False))
            keep = x.single and not o.get("enable_0_to_9")
            ok = [w for w in u if w not in CURRENCY and w != "千キロメートル" and not (keep and w in ("分", "秒", "時", "時間", "パーセント"))]
            k = len(s)
            said = [x.inp, Ref(k)]
            if keep:
                for n in sorted({len(w) for w in ok + money}):
                    w = [w for w in ok + money if len(w) == n]
                    w = [v for v in w if v[0] not in "分秒時"]
                    chars = {"c%d" % i: [v[i] for v in w] for i in range(n)}
                    said = [x.inp] + [Ref(k, "c%d" % i) for i in range(n)]
                    add("single digit and a unit of %d %s" % (n, o), s + [Enum(w, **chars)], said, said, context=not o and n == 2, **o)
            else:
                listed = [("18", "番"), ("210", "日")]
                listed = g_or(*[g_and(g_in(k, [i for i, v in enumerate(ok) if v == w]), *[g_in(i, [j for j, v in enumerate(s[i].maps["digit"]) if v == d]) for i, d in zip(x.slots, n)])
                                for n, w in listed if len(n) == lo and not hi])
                s.append(Enum(ok, said=[unit[w] for w in ok]))
                add("measure %s %s" % (x.name, o), s, said, [x.out, Ref(k, "said")], where=g_not(listed),
                    context=lo == 2 and not o, **o)
                s = s[:k] + [Enum(money, said=[CURRENCY[w] for w in money])]
                add("money %s %s" % (x.name, o), s, said, [Ref(k, "said"), x.out], context=lo == 2 and not o, **o)
            if lo in (1, 3):
                s = s[:k] + [Enum(money, said=[CURRENCY[w] for w in money])]
                f = digits(s, 2)
                add("money %s and decimals %s" % (x.name, o), s, [x.inp, "点", [Ref(i) for i in f], Ref(k)],
                    [Ref(k, "said"), x.out, ".", [Ref(i, "digit") for i in f]], **o)
                s = s[:k] + [Enum(ok, said=[unit[w] for w in ok])] + s[k + 1:]
                add("measure %s and decimals %s" % (x.name, o), s, [x.inp, "点", [Ref(i) for i in f], Ref(k)],
                    [x.out, ".", [Ref(i, "digit") for i in f], Ref(k, "said")], **o)
            if not keep and lo in (1, 2, 3):
                en = sorted(UNITS_EN)
                en = [w for w in en if w != "千キロメートル"]
                s = s[:k] + [Enum(en, said=[UNITS_EN[w] for w in en]), Enum(["毎", "每"]), table(RATE)]
                add("rate %s %s" % (x.name, o), s, [x.inp, Ref(k), Ref(k + 1), Ref(k + 2)], [x.out, Ref(k, "said"), "/", Ref(k + 2, "said")], **o)
    return fs.out


FUNCTIONS = ["itn.japanese.rules.cardinal.Cardinal", "itn.japanese.rules.date.Date", "itn.japanese.rules.fraction.Fraction", "itn.japanese.rules.math.Math",
             "itn.japanese.rules.measure.Measure", "itn.japanese.rules.money.Money", "itn.japanese.rules.ordinal.Ordinal", "itn.japanese.rules.time.Time",
             "itn.japanese.inverse_normalizer.InverseNormalizer (weights, composition)", "itn.japanese.data (tables)", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 400,
        "numbers up to 8 digits with 万 (12 and more with 億 and 兆), every sign, digit strings up to 5 (thorough 8), up to 3 decimals, all dates 1-9999, "
        "all clock times, every listed unit with one abbreviation and every listed currency, operands up to 4 digits",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
