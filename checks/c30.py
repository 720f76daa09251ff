"""Japanese TN: numbers, fractions, formulas, dates, times, units, money, scores and codes."""
from ref.jadata import CURRENCY_CODE, CURRENCY_SYMBOL, TEAMS, UNITS_EN, UNITS_JA
from ._jacommon import CONTEXT, Alt, Enum, Families, Number, Ref, T, digits, g_and, g_in, g_not, g_or, replay, run_check, said  # noqa: F401

OPS = {"×": "カケル", "=": "イコール", ">": "大なり", "<": "小なり", "≥": "大なりイコール", "≤": "小なりイコール", ">=": "大なりイコール", "<=": "小なりイコール",
       "÷": "ワル", "+": "プラス"}
NOON = {"a m": "午前", "a.m.": "午前", "am": "午前", "A M": "午前", "AM": "午前", "p m": "午後", "p.m.": "午後", "pm": "午後", "P M": "午後", "PM": "午後"}
SIGN = {"": "", "+": "プラス", "-": "マイナス", "±": "プラスマイナス"}


def table(d):
    k = sorted(d)
    return Enum(k, said=[d[x] for x in k])


def numbered(lo, hi, unit, pad=None):
    v = ["%d" % n for n in range(lo, hi + 1)] + (["%02d" % n for n in range(lo, 10)] if pad else [])
    return Enum(v, said=[said(int(x)) + unit for x in v])


def families(tier):
    big = tier == "thorough"
    fs = Families()
    add = fs.add
    sign = table(SIGN)
    # numbers
    for n in range(1, 9):
        for wide in (False, True):
            s = []
            x = Number(s, n, wide)
            s.append(sign)
            if n == 1:
                add("0-9%s" % (" wide" * wide), s[:1], x.inp, x.read, context=True)
            add("%d digits%s" % (n, " wide" * wide), s, [Ref(n), x.inp], [Ref(n, "said"), x.read], context=not wide and n in (2, 4, 5) or big)
        if n > 3:
            s = []
            x = Number(s, n, comma=True)
            add("%d digits with commas" % n, s, x.inp, x.read, context=n == 5)
    for n in (9, 10, 11, 13):
        s = [Enum("123456789", digit=list("一二三四五六七八九"))]
        ks = digits(s, n - 1)
        nz = g_not(g_and(*[g_in(k, [0]) for k in (range(n - 8, n - 4))]))
        add("%d digits one by one" % n, s, [Ref(k) for k in range(n)], [Ref(k, "digit") for k in range(n)], where=nz)
    for a in (1, 2, 3):
        s = []
        x, y = Number(s, a, zero=False), Number(s, 4, zero=False)
        add("%d0000dddd" % a, s, [x.inp, "0000", y.inp], [x.read, "億", y.read])
        for b in (1, 2, 3):
            s2 = []
            x2, y2 = Number(s2, a, zero=False), Number(s2, b, zero=False)
            add("%d0000%s%s" % (a, "0" * (4 - b), "d" * b), s2, [x2.inp, "0000" + "0" * (4 - b), y2.inp], [x2.read, "億", y2.read])
        add("%d00000000" % a, s[:a], [x.inp, "00000000"], [x.read, "億"])
    for n, k in ((1, 1), (2, 2), (4, 3), (1, 5)) if not big else ((1, 1), (2, 2), (4, 4), (1, 8), (8, 2)):
        for wide in (False, True):
            s = []
            x = Number(s, n, wide)
            f = digits(s, k, wide)
            s.append(sign)
            m = len(s) - 1
            add("decimal %d.%d%s" % (n, k, " wide" * wide), s, [Ref(m), x.inp, "．" if wide else ".", [Ref(i) for i in f]],
                [Ref(m, "said"), x.read, "点", [Ref(i, "digit") for i in f]], context=(n, k) == (2, 2) and not wide)
            s = s + [Enum(["%", "％"])]
            add("percent %d.%d%s" % (n, k, " wide" * wide), s, [Ref(m), x.inp, ".", [Ref(i) for i in f], Ref(m + 1)],
                [Ref(m, "said"), x.read, "点", [Ref(i, "digit") for i in f], "パーセント"], context=n == 1 and k == 1)
    for n in (1, 2, 3, 5):
        s = []
        x = Number(s, n)
        s += [sign, Enum(["%", "％"])]
        add("%d digits percent" % n, s, [Ref(n), x.inp, Ref(n + 1)], [Ref(n, "said"), x.read, "パーセント"], context=n == 2)
    for n in (2, 3, 4):
        s = [Enum("0", digit=["〇"])]
        digits(s, n - 1)
        add("0 and %d digits" % (n - 1), s, [Ref(i) for i in range(n)],
            ["〇" if n == 2 else "", [Ref(1, "digit")]] if n == 2 else [Ref(i, "digit") for i in range(n)], where=T if n == 2 else g_in(1, [0]) if n == 3 else
            g_and(g_in(1, [0]), g_in(2, [0])))
    # fractions
    for a, b in ((1, 1), (1, 2), (2, 2), (3, 3), (2, 1), (4, 4)) if not big else [(i, j) for i in range(1, 6) for j in range(1, 6)]:
        s = []
        x, y = Number(s, a), Number(s, b)
        s.append(Enum(["/", " / ", "／"]))
        slash = Ref(len(s) - 1)
        add("fraction %d/%d" % (a, b), s, [x.inp, slash, y.inp], [y.read, "分の", x.read], context=a == b == 1)
    s = []
    x, y = Number(s, 1), Number(s, 2)
    f = digits(s, 1)
    add("fraction of decimal", s, [x.inp, ".", Ref(f[0]), "/", y.inp], [y.read, "分の", x.read, "点", Ref(f[0], "digit")])
    # formulas
    ops = table(OPS)
    for a, b in ((1, 1), (2, 3), (4, 2)):
        s = []
        x, y = Number(s, a), Number(s, b)
        s += [ops, Enum(["", " "])]
        n = len(s)
        add("formula %d %d" % (a, b), s, [x.inp, Ref(n - 1), Ref(n - 2), Ref(n - 1), y.inp], [x.read, Ref(n - 2, "said"), y.read], context=a == b == 1,
            where=g_or(g_not(g_in(n - 2, [ops.values.index("+")])), g_in(n - 1, [0])))
    s = []
    x, y, z = Number(s, 1), Number(s, 2), Number(s, 2)
    s += [table({k: v for k, v in OPS.items() if k != "+"})] * 2
    add("long formula", s, [x.inp, Ref(5), y.inp, Ref(6), z.inp], [x.read, Ref(5, "said"), y.read, Ref(6, "said"), z.read])
    # dates
    year = lambda: Number(s, 4)
    for sep in ("/", "-", ".", "／"):
        s = []
        y = Number(s, 4)
        s += [numbered(1, 12, "月", True), numbered(1, 31, "日", True)]
        read = [y.read, "年", Ref(4, "said"), Ref(5, "said")]
        add("y%sm%sd" % (sep, sep), s, [y.inp, sep, Ref(4), sep, Ref(5)], read, context=sep == "/")
        add("d%sm%sy" % (sep, sep), s, [Ref(5), sep, Ref(4), sep, y.inp], read)
        s2 = s[:4] + [Enum(["%02d" % k for k in range(1, 10)], said=[said(k) + "月" for k in range(1, 10)]), s[5]]
        if sep != ".":
            add("y%s0m" % sep, s2[:5], [y.inp, sep, Ref(4)], [y.read, "年", Ref(4, "said")])
            add("0m%sy" % sep, s2[:5], [Ref(4), sep, y.inp], [y.read, "年", Ref(4, "said")])
            add("0m%sd" % sep, [s2[4], s2[5]], [Ref(0), sep, Ref(1)], [Ref(0, "said"), Ref(1, "said")])
    few = Enum(["1999", "2008", "2021"], said=["千九百九十九年", "二千八年", "二千二十一年"])
    m, d = numbered(1, 12, "月", True), numbered(1, 31, "日", True)
    for to in ("-", "~", "から"):
        add("dates y/m/d%s" % to, [few, m, d, few, m, d], [Ref(0), "/", Ref(1), "/", Ref(2), to, Ref(3), "/", Ref(4), "/", Ref(5)],
            [[Ref(i, "said") for i in range(3)], "から", [Ref(i, "said") for i in range(3, 6)]])
    # times
    h = ["%d" % x for x in range(25)] + ["%02d" % x for x in range(10)]
    hour = Enum(h, said=[said(int(x)) + "時" for x in h])
    mi = ["%02d" % x for x in range(60)]
    minute = Enum(mi, said=["" if x == "00" else said(int(x)) + "分" for x in mi])
    second = Enum(mi, said=["" if x == "00" else said(int(x)) + "秒" for x in mi])
    noon = table(NOON)
    for c in (":", "："):
        add("h%smm" % c, [hour, minute], [Ref(0), c, Ref(1)], [Ref(0, "said"), Ref(1, "said")], context=True)
        add("h%smm%sss" % (c, c), [hour, minute, second], [Ref(0), c, Ref(1), c, Ref(2)], [Ref(i, "said") for i in range(3)], context=c == ":")
    for sp in ("", " "):
        add("h:mm%sam" % sp, [hour, minute, noon], [Ref(0), ":", Ref(1), sp, Ref(2)], [Ref(2, "said"), Ref(0, "said"), Ref(1, "said")])
        add("h:mm:ss%sam" % sp, [hour, minute, noon, second], [Ref(0), ":", Ref(1), ":", Ref(3), sp, Ref(2)],
            [Ref(2, "said"), Ref(0, "said"), Ref(1, "said"), Ref(3, "said")])
    add("ham", [hour, noon], [Ref(0), Ref(1)], [Ref(1, "said"), Ref(0, "said")])
    for to in ("-", "~", "から"):
        add("times%s" % to, [hour, minute, hour, minute], [Ref(0), ":", Ref(1), to, Ref(2), ":", Ref(3)],
            [Ref(0, "said"), Ref(1, "said"), "から", Ref(2, "said"), Ref(3, "said")])
    # units
    units = {u: UNITS_EN[u] for u in UNITS_EN if u not in ("N/m²", "A/m")}  # also rates
    units.update({u: u for u in UNITS_JA})
    unit = table(units)
    latin = table(UNITS_EN)
    some = table({u: units[u] for u in ("kg", "m", "km", "℃", "人", "個", "円", "年", "月", "時間") if u in units})
    for n, k in ((1, 0), (2, 0), (4, 0), (5, 0), (1, 1), (3, 2)):
        s = []
        x = Number(s, n)
        f = digits(s, k)
        s += [sign, unit if n < 4 or big else some, Enum(["", " "])]
        m = len(s)
        add("%d.%d digits and unit" % (n, k), s, [Ref(m - 3), x.inp, "." if k else "", [Ref(i) for i in f], Ref(m - 1), Ref(m - 2)],
            [Ref(m - 3, "said"), x.read, "点" if k else "", [Ref(i, "digit") for i in f], Ref(m - 2, "said")], context=(n, k) == (2, 0),
            more=[c for c in CONTEXT if c[1] != "b"])
    for n, k, to in ((1, 1, "-"), (1, 2, "~"), (2, 2, "から"), (2, 3, "-")):
        s = []
        x, y = Number(s, n), Number(s, k)
        s += [unit]
        add("%d%s%d unit" % (n, to, k), s, [x.inp, to, y.inp, Ref(n + k)], [x.read, "から", y.read, Ref(n + k, "said")])
        add("%dunit%s%d unit" % (n, to, k), s, [x.inp, Ref(n + k), to, y.inp, Ref(n + k)], [x.read, Ref(n + k, "said"), "から", y.read, Ref(n + k, "said")])
    s = []
    x = Number(s, 2)
    s += [latin, unit]
    add("rate", s, [x.inp, Ref(2), "/", Ref(3)], [x.read, Ref(2, "said"), "毎", Ref(3, "said")])
    ymd = []
    y = Number(ymd, 4)
    ymd += [numbered(1, 12, "月"), numbered(1, 31, "日")]
    add("年月日", ymd, [y.inp, "年", Ref(4), "月", Ref(5), "日"], [y.read, "年", Ref(4, "said"), Ref(5, "said")], context=True)
    # money
    cur = dict(CURRENCY_CODE)
    cur.update(CURRENCY_SYMBOL)
    cur["HK$"] = "香港ドル"
    cur = table(cur)
    for n, k in ((1, 0), (2, 0), (5, 0), (1, 2), (3, 1)):
        s = []
        x = Number(s, n, comma=n == 5)
        f = digits(s, k)
        s += [cur, Enum(["", " "])]
        m = len(s)
        add("money %d.%d" % (n, k), s, [Ref(m - 2), Ref(m - 1), x.inp, "." if k else "", [Ref(i) for i in f]],
            [x.read, "点" if k else "", [Ref(i, "digit") for i in f], Ref(m - 2, "said")], context=(n, k) == (2, 0))
    # scores
    team = Enum(sorted(set(TEAMS)))
    for a, b in ((1, 1), (2, 2), (3, 3)):
        s = []
        x, y = Number(s, a), Number(s, b)
        s += [team, Enum(["", " "]), Enum([":", "-", "/"])]
        m = len(s)
        add("team %d:%d" % (a, b), s, [Ref(m - 3), Ref(m - 2), x.inp, Ref(m - 1), y.inp], [Ref(m - 3), x.read, "対", y.read], context=a == 1 and big)
        if b != 2:
            add("%d:%d" % (a, b), s[:a + b], [x.inp, ":", y.inp], [x.read, "対", y.read], context=a == 1)
    # codes
    for form in ("0d0-dddd-dddd", "0d-dddd-dddd", "0d-ddd-dddd", "0d0-ddddddd", "+81-0d0-dddd-dddd", "+810d-dddd-dddd", "+81 0d0-dddd-dddd"):
        s, inp, res = [], [], []
        body = form
        if form.startswith("+81"):
            body = form[3:].lstrip("- ")
            inp, res = [form[:len(form) - len(body)]], ["プラス八一" + "の" * (form[3] == "-")]
        for i, c in enumerate(body):
            if c == "d":
                ks = digits(s, 1)
                if i == 1:
                    s[ks[0]] = Enum("123456789", zero=list("一二三四五六七八九"))
                inp.append(Ref(ks[0]))
                res.append(Ref(ks[0], "zero"))
            else:
                inp.append(c)
                res.append({"0": "ゼロ", "-": "の"}[c])
        add(form, s, inp, res, context=form == "0d0-dddd-dddd")
    parts = [["%d" % v for v in range(256)]] * 4
    spell = lambda v: ["".join("〇一二三四五六七八九"[int(c)] for c in x) for x in v]
    s = [Enum(v, digit=spell(v)) for v in parts]
    add("ip", s, [Ref(0), ".", Ref(1), ".", Ref(2), ".", Ref(3)], [Ref(0, "digit"), "点", Ref(1, "digit"), "点", Ref(2, "digit"), "点", Ref(3, "digit")])
    for n in (1, 3, 5):
        for w in ("No.", "番号", "番号は"):
            s = []
            ks = digits(s, n)
            add("%s%d" % (w, n), s, [w, [Ref(k) for k in ks]], [w, [Ref(k, "digit") for k in ks]])
        s = []
        ks = digits(s, n)
        add("%d号室" % n, s, [[Ref(k) for k in ks], "号室"], [[Ref(k, "digit") for k in ks], "号室"], context=n == 3)
    return fs.out


FUNCTIONS = ["tn.japanese.rules.cardinal.Cardinal", "tn.japanese.rules.fraction.Fraction", "tn.japanese.rules.math.Math", "tn.japanese.rules.date.Date",
             "tn.japanese.rules.time.Time", "tn.japanese.rules.measure.Measure", "tn.japanese.rules.money.Money", "tn.japanese.rules.sport.Sport",
             "tn.japanese.rules.range.Range", "tn.japanese.normalizer.Normalizer.build_tagger_and_verbalizer", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 230,
                     "integers up to 8 digits (longer ones digit by digit up to 13), decimals up to 4+5 digits, fractions up to 4 digits, all dates with years 1000-9999, all "
                     "clock times and marks, all listed units, currencies and teams with numbers of 1-5 digits, telephone, IP, room and serial numbers",
                     FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
