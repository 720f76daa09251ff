"""Chinese inverse normalization of measures and money."""
from ref.zhitndata import CURRENCY_CODE, CURRENCY_SYMBOL, UNITS_EN, UNITS_ZH, WHITELIST
from ref.zh import HAN
from vf.cnf import F, T, g_and, g_in, g_not, g_or
from vf.family import Fam, run_check, replay  # noqa: F401
from vf.fst import Alt, Enum, Group, Ref
from .c21 import LEFT
from .c22 import number

RIGHT = ["了", "的", "吧", "，", "！", "）", "b", "Q", "é", "🙂"]


def families(tier):
    out = []
    big = tier == "thorough"

    def fam(name, slots, inp, res, where=T, ctx=True, **opt):
        if ctx:
            slots.append(Enum(LEFT))
            slots.append(Enum(RIGHT))
            a, b = Ref(len(slots) - 2), Ref(len(slots) - 1)
            inp, res = [a, inp, b], [a, res, b]
        out.append(("zh_itn", opt, Fam(name, slots, [inp], [res], where=where)))

    def w(n, k, u, s, i):
        """七点零四分 is a time and 九江 a city."""
        ok = g_in(i, [j for j, x in enumerate(u.values) if not (k == 2 and x == "分")])
        if n == 1 and not k:
            ok = g_and(ok, *[g_not(g_and(g_in(0, [HAN.index(d)]), g_in(i, [j]))) for d in HAN for j, x in enumerate(u.values) if d + x in WHITELIST])
        if n > 3:  # 九万二千克 may be 92000 g or 92 kg
            ok = g_and(ok, g_not(g_and(*[g_in(j, [0]) for j in range(n - 3, n)])))
        return ok

    en = Enum(list(UNITS_EN), v=UNITS_EN)
    zh = Enum([u for u in UNITS_ZH if u not in UNITS_EN and u != "元"])  # 元 is a currency
    for o in ({}, {"enable_0_to_9": True}):
        tag = "default" if not o else "0 to 9"
        sizes = ((1, 0), (2, 0), (3, 0), (1, 2), (2, 1)) + (((4, 0), (5, 0), (3, 2)) if big else ())
        for n, k in sizes:
            if n == 1 and not k and not o:
                for size in (1, 2):
                    s = []
                    a, x = number(s, 1)
                    pick = [w for w in list(UNITS_EN) + UNITS_ZH if len(w) == size and w[0] not in "年百千万兆元"]  # 三千赫兹 is 3000 Hz
                    if size > 1:
                        pick = pick[::8]
                    s.append(Enum(pick))
                    bad = g_or(*[g_and(g_in(0, [HAN.index(d)]), g_in(1, [j])) for d in HAN for j, x in enumerate(pick) if d + x in WHITELIST])
                    fam("one digit and unit of %d stay" % size, s, [a, Ref(1)], [a, Ref(1)], g_not(bad), False, **o)
                continue
            for u, what in ((en, "unit"), (zh, "measure word")):
                s = []
                a, x = number(s, n, k)
                s.append(u)
                i = len(s) - 1
                fam("%d.%d %s, %s" % (n, k, what, tag), s, [a, Ref(i)], [x, Ref(i, "v" if u is en else "id")], w(n, k, u, s, i), n + k < 4, **o)
        for n in (2, 3, 4) if big else (2, 3):
            for mult, sym in (("万", "W"), ("亿", "00M"), ("兆", "T")):
                for u, what in ((en, "unit"), (zh, "measure word")):
                    s = []
                    a, x = number(s, n)
                    s.append(u)
                    i = len(s) - 1
                    ok = [j for j, w in enumerate(u.values) if mult + w not in UNITS_EN]
                    fam("%d %s %s, %s" % (n, mult, what, tag), s, [a, mult, Ref(i)], [x, sym if u is en else mult, Ref(i, "v" if u is en else "id")], g_in(i, ok), False, **o)
        for n, m in ((2, 2), (2, 3)):
            for u, what in ((en, "unit"), (zh, "measure word")):
                s = []
                a, x = number(s, n)
                b, y = number(s, m)
                s.append(u)
                i = len(s) - 1
                fam("%d to %d %s, %s" % (n, m, what, tag), s, [a, "到", b, Ref(i)], [x, "~", y, Ref(i, "v" if u is en else "id")], T, False, **o)
        # rates
        for n in (2, 3):
            s = []
            a, x = number(s, n)
            s += [en, en]
            i = len(s) - 1
            fam("rate %d, %s" % (n, tag), s, ["每", Ref(i), a, Ref(i - 1)], [x, Ref(i - 1, "v"), "/", Ref(i, "v")], T, False, **o)
        # money
        sym = Enum(list(CURRENCY_SYMBOL), v=CURRENCY_SYMBOL)
        code = Enum(list(CURRENCY_CODE), v=CURRENCY_CODE)
        for cur, what in ((sym, "symbol"), (code, "code")):
            for n, k in ((2, 0), (3, 0), (1, 2), (4, 0)) + (((1, 0), ) if o else ()):
                s = []
                a, x = number(s, n, k)
                s.append(cur)
                i = len(s) - 1
                fam("money %d.%d by %s, %s" % (n, k, what, tag), s, [a, Ref(i)], [Ref(i, "v"), x], T, n + k < 3, **o)
        one = Enum("一二三四五六七八九", d="123456789")
        for n in (2, 3):
            s = []
            a, x = number(s, n)
            s += [Enum(["元", "美元", "英镑"], v="¥$£"), one, Enum("毛角"), one]
            i = len(s) - 1
            fam("money %d and 毛, %s" % (n, tag), s, [a, Ref(i - 3), Ref(i - 2), Ref(i - 1)], [Ref(i - 3, "v"), x, ".", Ref(i - 2, "d")], T, n < 3, **o)
            fam("money %d, 毛 and 分, %s" % (n, tag), s, [a, Ref(i - 3), Ref(i - 2), Ref(i - 1), Ref(i), "分"],
                [Ref(i - 3, "v"), x, ".", Ref(i - 2, "d"), Ref(i, "d")], T, False, **o)
        for n in (1, 2, 3):
            s = []
            a, x = number(s, n)
            s += [Enum("一二三四五六七八九", d="123456789"), Enum(["", "毛", "角"], v=["", "毛", ""])]
            i = len(s) - 1
            fam("colloquial money %d, %s" % (n, tag), s, [a, "块", Ref(i - 1), Ref(i)], [x, "块", Ref(i - 1, "d"), Ref(i, "v")], T, n < 3, **o)
    return out


FUNCTIONS = ["itn.chinese.rules.measure.Measure", "itn.chinese.rules.money.Money", "itn.chinese.rules.cardinal.Cardinal",
             "itn.chinese.inverse_normalizer.InverseNormalizer.build_tagger_and_verbalizer", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 700 if tier == "thorough" else 250,
        "every listed unit, measure word and currency with numbers of up to 3 digits and 2 decimals (thorough 5), multipliers, ranges and rates",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
