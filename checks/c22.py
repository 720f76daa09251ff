"""Chinese inverse normalization of dates, times, fractions, percentages, formulas, plates and trains."""
from ref.zh import HAN, Digits
from vf.cnf import F, T, g_and, g_in, g_not, g_or
from vf.family import Fam, run_check, replay  # noqa: F401
from vf.fst import Alt, Enum, Group, Ref
from .c21 import LEFT, RIGHT, arabic, spelled, spoken

PROVINCE = "京津沪渝冀豫云辽黑湘皖鲁新苏浙赣鄂桂甘晋蒙陕吉闽贵粤青藏川宁琼"
TRAIN = {"高": "G", "动": "D", "特": "T", "快": "K", "直": "Z", "慢": "L", "临": "L"}
NOON = {"上午": "a.m.", "早上": "a.m.", "早晨": "a.m.", "下午": "p.m.", "晚上": "p.m.", "傍晚": "p.m."}
OPS = {"加": "+", "减": "-", "乘": "×", "除": "÷", "到": "~", "比": ":", "等于": "="}


def under100(v):
    """Reading of a number below 100."""
    if v < 10:
        return HAN[v]
    return ("" if v < 20 else HAN[v // 10]) + "十" + (HAN[v % 10] if v % 10 else "")


def upto(lo, hi):
    return Enum([under100(v) for v in range(lo, hi + 1)], dd=["%02d" % v for v in range(lo, hi + 1)], d=[str(v) for v in range(lo, hi + 1)])


def number(slots, n, k=0):
    """Spoken number of n digits and k decimals, and its digits."""
    d = Digits(slots, n, zero=n == 1)
    a = spoken(slots, d) if n > 1 else [Ref(d.k[0], "han")]
    b = arabic(d, False) if n > 1 else [Ref(d.k[0])]
    if k:
        f = Digits(slots, k, zero=True)
        a, b = [a, "点", f.one_by_one()], [b, ".", f.inp()]
    return Group(a), b


def families(tier):
    out = []
    big = tier == "thorough"

    def fam(name, slots, inp, res, where=T, ctx=True, **opt):
        if ctx:
            slots.append(Enum(LEFT))
            slots.append(Enum(RIGHT))
            a, b = Ref(len(slots) - 2), Ref(len(slots) - 1)
            inp, res = [a, inp, b], [a, res, b]
        out.append(("zh_itn", opt, Fam(name, slots, [inp], [res], where=where)))

    # dates
    def year(slots, n):
        s = [spelled() for _ in range(n)]
        slots.extend(s)
        ks = list(range(len(slots) - n, len(slots)))
        nz = g_in(ks[0], [i for i, x in enumerate(s[0].maps["d"]) if x != "0"])
        return Group([Ref(k) for k in ks]), [Ref(k, "d") for k in ks], nz if n > 2 else T

    for n in (2, 3, 4):
        s = []
        a, b, w = year(s, n)
        fam("year of %d digits" % n, s, [a, "年"], [b, "年"], w)
        s = []
        a, b, w = year(s, n)
        s.append(upto(1, 12))
        fam("year of %d digits and month" % n, s, [a, "年", Ref(n), "月"], [b, "/", Ref(n, "dd")], w)
        s = []
        a, b, w = year(s, n)
        s += [upto(1, 12), upto(1, 31), Enum("日号")]
        fam("year of %d digits, month and day" % n, s, [a, "年", Ref(n), "月", Ref(n + 1), Ref(n + 2)],
            [b, "/", Ref(n, "dd"), "/", Ref(n + 1, "dd")], w, n < 4)
    fam("month and day", [upto(1, 12), upto(1, 31), Enum("日号")], [Ref(0), "月", Ref(1), Ref(2)], [Ref(0, "dd"), "/", Ref(1, "dd")])
    # times
    noon = Enum(list(NOON), v=NOON)
    hour = [under100(v) if v != 2 else "两" for v in range(25)]

    def h():
        return Enum(hour, d=[str(v) if v else "00" for v in range(25)])

    mins = Enum(["半"] + [under100(v) for v in range(10, 60)], dd=["30"] + ["%02d" % v for v in range(10, 60)])
    fam("hour and minute", [h(), mins, Enum(["", "分"])], [Ref(0), "点", Ref(1), Ref(2)], [Ref(0, "d"), ":", Ref(1, "dd")])
    fam("hour and minute of a half day", [noon, h(), mins, Enum(["", "分"])], [Ref(0), Ref(1), "点", Ref(2), Ref(3)],
        [Ref(1, "d"), ":", Ref(2, "dd"), Ref(0, "v")])
    fam("hour, minute and second", [h(), mins, upto(1, 59)], [Ref(0), "点", Ref(1), "分", Ref(2), "秒"],
        [Ref(0, "d"), ":", Ref(1, "dd"), ":", Ref(2, "dd")], T, False)
    low = Enum(["零" + HAN[v] for v in range(1, 10)], dd=["0%d" % v for v in range(1, 10)])
    fam("hour and early minute", [h(), low], [Ref(0), "点", Ref(1), "分"], [Ref(0, "d"), ":", Ref(1, "dd")])
    fam("hour and early minute of a half day", [noon, h(), low, Enum(["", "分"])], [Ref(0), Ref(1), "点", Ref(2), Ref(3)],
        [Ref(1, "d"), ":", Ref(2, "dd"), Ref(0, "v")])
    fam("hour, early minute and second of a half day", [noon, h(), low, Enum(["", "分"]), upto(1, 59)],
        [Ref(0), Ref(1), "点", Ref(2), Ref(3), Ref(4), "秒"], [Ref(1, "d"), ":", Ref(2, "dd"), ":", Ref(4, "dd"), Ref(0, "v")], T, False)
    # fractions
    shapes = [((1, 0), (1, 0)), ((2, 0), (1, 0)), ((1, 0), (2, 0)), ((2, 0), (2, 0)), ((3, 0), (2, 0)), ((1, 1), (1, 2))]
    if big:
        shapes += [((4, 0), (3, 0)), ((5, 0), (4, 0)), ((2, 2), (2, 2))]
    for (n, k), (m, j) in shapes:
        s = []
        a, x = number(s, n, k)
        b, y = number(s, m, j)
        s.append(Enum(["", "负", "负的", "正"], v=["", "-", "-", "+"]))
        bad = F
        fam("fraction %d.%d / %d.%d" % (m, j, n, k), s, [Ref(len(s) - 1), a, "分之", b], [Ref(len(s) - 1, "v"), y, "/", x], g_not(bad), n + m + k + j < 4)
    # percentages
    for n, k in ((1, 0), (2, 0), (3, 0), (1, 2), (2, 1)) + (((5, 0), (3, 3)) if big else ()):
        s = []
        a, x = number(s, n, k)
        s.append(Enum(["百分之", "百分"]))
        s.append(Enum(["", "负", "正"], v=["", "-", "+"]))
        i = len(s)
        fam("percentage %d.%d" % (n, k), s, [Ref(i - 1), Ref(i - 2), a], [Ref(i - 1, "v"), x, "%"], T, n + k < 4)
    for n, m in ((1, 1), (2, 2), (1, 2)):
        s = []
        a, x = number(s, n)
        b, y = number(s, m)
        s.append(Enum(["到", "到百分之"]))
        fam("percentages %d to %d" % (n, m), s, ["百分之", a, Ref(len(s) - 1), b], [x, "~", y, "%"], T, n + m < 4)
    s = [Enum(["百分之百", "百分百"])]
    fam("whole", s, [Ref(0)], ["100%"])
    # formulas
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)) + (((4, 4), (5, 3)) if big else ()):
        s = []
        a, x = number(s, n)
        b, y = number(s, m)
        s.append(Enum(list(OPS), v=OPS))
        fam("formula %d ? %d" % (n, m), s, [a, Ref(len(s) - 1), b], [x, Ref(len(s) - 1, "v"), y], T, n + m < 4)
    s = []
    a, x = number(s, 1)
    b, y = number(s, 2)
    c, z = number(s, 2)
    s.append(Enum(["加", "减", "乘", "除"], v="+-×÷"))
    fam("equation", s, [a, Ref(len(s) - 1), b, "等于", c], [x, Ref(len(s) - 1, "v"), y, "=", z], T, False)
    # licence plates, trains
    letter = "ABCDEFGHJKLMNPQRSTUVWXYZabxz"
    rest = letter if big else "AIXZaz"
    for n in (5, 6):
        s = [Enum(PROVINCE), Enum(letter)]
        for _ in range(n):
            v = "零洞一幺二三四五六七拐八九"
            s.append(Enum(list(v) + list(rest), d=list("0011234567789") + list(rest)))
        fam("licence plate of %d" % n, s, [Ref(i) for i in range(n + 2)], [Ref(0), Ref(1)] + [Ref(i, "d") for i in range(2, n + 2)], T, False)
    for n in (2, 3, 4):
        s = [Enum(list(TRAIN), v=TRAIN)] + [spelled() for _ in range(n)]
        fam("train of %d digits" % n, s, [Ref(i) for i in range(n + 1)], [Ref(0, "v")] + [Ref(i, "d") for i in range(1, n + 1)])
    return out


FUNCTIONS = ["itn.chinese.rules." + x for x in ("date.Date", "time.Time", "fraction.Fraction", "measure.Measure (percent)", "math.Math", "license_plate.LicensePlate",
                                                "train_number.TrainNumber", "cardinal.Cardinal")] + ["tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 700 if tier == "thorough" else 250,
        "all dates, all clock times; operands of up to 3 digits and 2 decimals (thorough 5 and 3); all plates and train numbers",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
