"""Chinese dates and times."""
from ref.zh import HAN
from vf.family import Fam, run_check, replay  # noqa: F401
from ._zhcommon import LEFT, RIGHT, Alt, Digits, Enum, Num, Ref, T, F, ctx, g_and, g_in, g_not, g_or  # noqa: F401


def small(v):
    """1..99 as spoken"""
    t, o = divmod(v, 10)
    return (("" if t < 2 else HAN[t]) + "十" if t else "") + (HAN[o] if o or not t else "")


def span(lo, hi, unit, plain=True, padded=True, zero=None, lone="二"):
    """Enum of the spellings of lo..hi, one- and two-digit, with their reading."""
    vals, out = [], []
    for v in range(lo, hi + 1):
        for text in sorted({str(v)} if plain and (v >= 10 or not padded) else {"%02d" % v} if padded and not plain else {str(v), "%02d" % v}):
            vals.append(text)
            out.append(lone + unit if v == 2 else small(v) + unit)
    return Enum(vals, out=out)


def months(plain=True, padded=True):
    return span(1, 12, "月", plain, padded)


def days(plain=True, padded=True):
    return span(1, 31, "日", plain, padded)


def hours():
    v = [str(i) for i in range(1, 10)] + ["%02d" % i for i in range(25)]
    return Enum(v, out=["两点" if int(x) == 2 else ("零" if int(x) == 0 else small(int(x))) + "点" for x in v])


def minutes():
    v = ["%02d" % i for i in range(60)]
    return Enum(v, out=["" if i == 0 else ("零" if i < 10 else "") + small(i) + "分" for i in range(60)])


def seconds():
    v = ["%02d" % i for i in range(60)]
    return Enum(v, out=["" if i == 0 else small(i) + "秒" for i in range(60)])


NOON = {"am": "上午", "a.m.": "上午", "AM": "上午", "a m": "上午", "A M": "上午", "pm": "下午", "p.m.": "下午", "PM": "下午", "p m": "下午", "P M": "下午"}


class Date:

    def __init__(self, s, shape, sep=None):
        y = Digits(s, 4)
        self.year = [y.one_by_one(), "年"]
        if sep is None:
            s.append(Enum("/-."))
            sep = len(s) - 1
        self.sep = sep

        def add(e):
            s.append(e)
            return Ref(len(s) - 1), Ref(len(s) - 1, "out")

        p = Ref(sep)
        if shape == "ymd":
            m, d = add(months()), add(days())
            self.inp, self.out = [y.inp(), p, m[0], p, d[0]], [self.year, m[1], d[1]]
        elif shape == "dmy":
            m, d = add(months()), add(days())
            self.inp, self.out = [d[0], p, m[0], p, y.inp()], [self.year, m[1], d[1]]
        elif shape == "ym":
            m = add(months(False))
            self.inp, self.out = [y.inp(), p, m[0]], [self.year, m[1]]
        elif shape == "my":
            m = add(months(False))
            self.inp, self.out = [m[0], p, y.inp()], [self.year, m[1]]
        else:
            m, d = add(months(False)), add(days())
            self.inp, self.out = [m[0], p, d[0]], [m[1], d[1]]


class Clock:

    def __init__(self, s, sec=False, noon=False):
        def add(e):
            s.append(e)
            return Ref(len(s) - 1), Ref(len(s) - 1, "out")

        c = add(Enum([":", "："]))[0]
        h, m = add(hours()), add(minutes())
        self.inp, self.out = [h[0], c, m[0]], [h[1], m[1]]
        if sec:
            x = add(seconds())
            self.inp += [c, x[0]]
            self.out += [x[1]]
        if noon:
            sp = add(Enum(["", " "]))[0]
            v = sorted(NOON)
            n = add(Enum(v, out=[NOON[x] for x in v]))
            self.inp += [sp, n[0]]
            self.out = [n[1]] + self.out


def families(tier):
    out = []
    big = tier == "thorough"

    def fam(name, slots, inp, res, where=T, context=True, blank=True):
        if context:
            # a time may swallow the blank after it
            left, right = ctx(slots, LEFT), ctx(slots, RIGHT if blank else [x for x in RIGHT if x != " "])
            inp, res = [Ref(left), inp, Ref(right)], [Ref(left, "out"), res, Ref(right, "out")]
        out.append(("zh_tn", {}, Fam(name, slots, inp, res, where=where)))

    for shape in ("ymd", "dmy", "ym", "my", "md"):
        s = []
        d = Date(s, shape)
        fam("date " + shape, s, d.inp, d.out)
    for a in ("ymd", "dmy", "ym", "md") if not big else ("ymd", "dmy", "ym", "my", "md"):
        for b in ("ymd", "md") if not big else ("ymd", "dmy", "ym", "my", "md"):
            s = []
            x = Date(s, a)
            s.append(Enum("~" if b == "md" or a in ("my", "dmy", "ym") or big else "-~", out=lambda v: "到"))
            r = len(s) - 1
            y = Date(s, b, sep=x.sep)
            fam("date range %s %s" % (a, b), s, [x.inp, Ref(r), y.inp], [x.out, "到", y.out], g_not(g_in(x.sep, [2])) if a == "md" and b == "md" else T, False)
    for sec in (False, True):
        for noon in (False, True):
            s = []
            t = Clock(s, sec, noon)
            fam("time %s %s" % (sec, noon), s, t.inp, t.out, T, True, False)
    for sec, noon in ((False, False), (True, False)) + (((False, True), (True, True)) if big else ()):
        s = []
        a = Clock(s, sec, noon)
        s.append(Enum("-~"))
        r = len(s) - 1
        b = Clock(s, sec, noon)
        fam("time range %s %s" % (sec, noon), s, [a.inp, Ref(r), b.inp], [a.out, "到", b.out], T, False)
    # date and time
    for shape in ("ymd", "md"):
        s = []
        d = Date(s, shape)
        s.append(Enum([" ", "，"], out=[" ", ","]))
        k = len(s) - 1
        t = Clock(s)
        fam("date and time " + shape, s, [d.inp, Ref(k), t.inp], [d.out, Ref(k, "out"), t.out], T, False)
    # 2008年8月8日
    s = []
    y = Digits(s, 4, zero=True)
    s.append(Enum(["年", "年度", "赛季"]))
    fam("yyyy年", s, [y.inp(), Ref(4)], [y.one_by_one(), Ref(4)])
    s = []
    y = Digits(s, 4, zero=True)
    z = Digits(s, 4, zero=True)
    s += [Enum(["年", "年度", "赛季"]), Enum(["-", "~", "到"]), Enum(["", "年"])]
    fam("yyyy-yyyy年", s, [y.inp(), Ref(10), Ref(9), z.inp(), Ref(8)], [y.one_by_one(), Ref(10), "到", z.one_by_one(), Ref(8)], T, False)
    s = []
    y = Digits(s, 4, zero=True)
    s += [months(True, False), days(True, False), Enum(["日", "号"])]
    s[5].maps["bare"] = [v[:-1] for v in s[5].map("out")]
    fam("yyyy年m月d日", s, [y.inp(), "年", Ref(4), "月", Ref(5), Ref(6)], [y.one_by_one(), "年", Ref(4, "out"), Ref(5, "bare"), Ref(6)])
    s = [months(True, False), days(True, False), Enum(["日", "号"])]
    s[1].maps["bare"] = [v[:-1] for v in s[1].map("out")]
    fam("m月d日", s, [Ref(0), "月", Ref(1), Ref(2)], [Ref(0, "out"), Ref(1, "bare"), Ref(2)])
    for e, unit in ((months(True, False), ["月"]), (days(True, False), ["日", "号"])):
        s = [e, e, Enum(unit), Enum(["-", "~", "到"])]
        e.maps["bare"] = [v[:-1] for v in e.map("out")]
        fam("range of %s" % unit, s, [Ref(0), Ref(3), Ref(1), Ref(2)], [Ref(0, "bare"), "到", Ref(1, "bare"), Ref(2)])
        s = [e, e, Enum(unit), Enum(["-", "~", "到"])]
        fam("range of %s, twice" % unit, s, [Ref(0), Ref(2), Ref(3), Ref(1), Ref(2)], [Ref(0, "bare"), Ref(2), "到", Ref(1, "bare"), Ref(2)])
    for n in (1, 2, 3):
        s = []
        x = Num(s, n, zero=False)
        from ref.zh import HOTLINES
        fam("%d-digit years" % n, s, [x.inp, "年"], [x.out, "年"], g_not(x.d.concat_of(HOTLINES)), False)
    return out


FUNCTIONS = ["tn.chinese.rules.date.Date", "tn.chinese.rules.time.Time", "tn.chinese.rules.range.Range", "tn.chinese.rules.measure.Measure",
             "tn.chinese.normalizer.Normalizer.build_tagger_and_verbalizer", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 700 if tier == "thorough" else 200,
        "every date and time of the listed shapes (years 0000 to 9999), every pair of such dates or times in a range",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
