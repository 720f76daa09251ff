"""Chinese measures, rates and money."""
from ref.zhdata import CURRENCY, TEAMS, TRADITIONAL, UNITS_EN, UNITS_ZH
from vf.family import Fam, run_check, replay  # noqa: F401
from ._zhcommon import Alt, Digits, Enum, Num, Ref, T, F, ctx, g_and, g_in, g_not, g_or

LEFT = ["我", "共", "了", "，", "（", "是", "'", "🙂", " "]
RIGHT = ["了", "的", "吧", "，", "！", "）", "🙂", " "]
ERUNITS = ["两", "月", "号", "日"]


def unit_table(kw=False, simple=False):
    t = {}
    for u, z in UNITS_EN.items():
        t[u] = z
    for u in UNITS_ZH:
        t.setdefault(u, u)
    for z in UNITS_EN.values():
        t.setdefault(z, z)
    if kw:
        base = dict(t)
        t = {}
        for p, z in (("k", "千"), ("w", "万")):
            for u, o in base.items():
                if p + u not in base:
                    t[p + u] = z + o
    names = sorted(t)
    e = Enum(names, out=[t[u] for u in names])
    e.er = [i for i, u in enumerate(names) if u in ERUNITS]
    return e


def families(tier):
    out = []
    big = tier == "thorough"

    def fam(name, slots, inp, res, where=T, context=True, right=None, left=None):
        if context:
            l, r = ctx(slots, left or LEFT), ctx(slots, right or RIGHT)
            inp, res = [Ref(l), inp, Ref(r)], [Ref(l, "out"), res, Ref(r, "out")]
        out.append(("zh_tn", {}, Fam(name, slots, inp, res, where=where)))

    def lone(s, x, unit):
        """A single 2 is 两 before a unit, but 二 before 两/月/号/日."""
        if x.d.n > 1 or x.f is not None or len(x.inp) > 1:
            return x.out
        two = x.d.at(0, 2)
        er = g_in(unit, s[unit].er)
        return [Alt((g_and(two, er), ["二"]), (g_and(two, g_not(er)), ["两"]), (g_not(two), [Ref(x.d.k[0], "han")]))]

    for n, k in [(1, 0), (2, 0), (3, 0), (4, 0), (1, 1), (2, 2)] + ([(5, 0), (6, 0), (9, 0), (12, 0), (3, 1), (5, 3)] if big else [(6, 0)]):
        for kw in (False, True):
            if kw and not big and n + k > 1:
                continue
            s = []
            x = Num(s, n, k, zero=False if not k else None)
            s.append(unit_table(kw))
            u = len(s) - 1
            s.append(Enum(["", " "]))
            fam("%d.%d with a %sunit" % (n, k, "k/w " if kw else ""), s, [x.inp, Ref(u + 1), Ref(u)], [lone(s, x, u), Ref(u, "out")], T, n + k == 1)
    for n in (1, 2, 3):
        s = []
        x = Num(s, n, 0, sign=True, zero=False)
        s.append(unit_table())
        u = len(s) - 1
        bare = g_in(x.sign, [0])
        res = [Ref(x.sign, "han"), Alt((bare, lone_bare(s, x, u)), (g_not(bare), Num.read(x.d, False, "二")))]
        fam("signed %d with a unit" % n, s, [x.inp, Ref(u)], res + [Ref(u, "out")], T, False)
    for groups in (2, 3):
        for first in (1, 2, 3):
            s = []
            n = first + 3 * (groups - 1)
            x = Num(s, n, 0)
            s.append(unit_table())
            u = len(s) - 1
            s.append(Enum(",，"))
            inp = []
            for i, r in enumerate(x.inp):
                if i and (n - i) % 3 == 0:
                    inp.append(Ref(u + 1))
                inp.append(r)
            if n < 9 or big:
                fam("%d digits grouped with commas and a unit" % n, s, [inp, Ref(u)], [x.out, Ref(u, "out")], T, False)
    for n in (1, 2):
        s = []
        x = Num(s, n, 0, zero=False)
        s.append(unit_table())
        u = len(s) - 1
        fam("%d%% with a unit" % n, s, [x.inp, "%", Ref(u)], ["百分之", x.out, Ref(u, "out")], T, False)
    for n, m in ((1, 1), (1, 2), (2, 2), (2, 3), (1, 3)):
        s = []
        x, y = Num(s, n, 0, zero=False), Num(s, m, 0, zero=False)
        s.append(unit_table())
        u = len(s) - 1
        s.append(Enum("-~到"))
        fam("range %d-%d with a unit" % (n, m), s, [x.inp, Ref(u + 1), y.inp, Ref(u)], [lone(s, x, u), "到", lone(s, y, u), Ref(u, "out")], T, n + m == 2)
        s = []
        x, y = Num(s, n, 0, zero=False), Num(s, m, 0, zero=False)
        s.append(unit_table())
        u = len(s) - 1
        s.append(Enum("-~到"))
        fam("range %du-%du" % (n, m), s, [x.inp, Ref(u), Ref(u + 1), y.inp, Ref(u)],
            [lone(s, x, u), Ref(u, "out"), "到", lone(s, y, u), Ref(u, "out")], T, False)
    for n, k in [(1, 0), (2, 0), (3, 0), (1, 1)] + ([(4, 0), (6, 0), (4, 2)] if big else []):
        s = []
        x = Num(s, n, k, zero=False if not k else None)
        s.append(unit_table())
        s.append(unit_table())
        u = len(s) - 2
        s.append(Enum(["/", " / "]))
        fam("%d.%d per unit" % (n, k), s, [x.inp, Ref(u), Ref(u + 2), Ref(u + 1)], ["每", Ref(u + 1, "out"), lone(s, x, u), Ref(u, "out")], T, n + k == 1)
        s = []
        x = Num(s, n, k, zero=False if not k else None)
        y = Num(s, 1, 0, zero=False)
        s.append(unit_table())
        s.append(unit_table())
        u = len(s) - 2
        fam("%d.%d per number of units" % (n, k), s, [x.inp, Ref(u), "/", y.inp, Ref(u + 1)],
            ["每", lone(s, y, u + 1), Ref(u + 1, "out"), lone(s, x, u), Ref(u, "out")], T, False)
    names = sorted(CURRENCY)
    for n, k in [(1, 0), (2, 0), (3, 0), (1, 1), (2, 2), (4, 2)] + ([(5, 0), (9, 0), (12, 0), (6, 2)] if big else [(6, 0)]):
        for sign in (False, True):
            if sign and n + k > 3 and not big:
                continue
            s = []
            x = Num(s, n, k, sign=sign, zero=False if not k else None)
            s.append(Enum(names, out=[CURRENCY[c] for c in names]))
            c = len(s) - 1
            s.append(Enum(["", " "]))
            fam("money %d.%d%s" % (n, k, " signed" if sign else ""), s, [Ref(c), Ref(c + 1), x.inp], [x.out, Ref(c, "out")], T, n + k < 4)
    s = []
    x, y = Num(s, 2, 0, zero=False), Num(s, 3, 0, zero=False)
    s.append(Enum([t for t in TEAMS if not t[-1].isdigit()], out=lambda t: ''.join(TRADITIONAL.get(c, c) for c in t)))
    s.append(Enum("-:/"))
    fam("score", s, [Ref(5), x.inp, Ref(6), y.inp], [Ref(5, "out"), x.out, "比", y.out], T, False)
    if not big:
        return out
    s = []
    x, y = Num(s, 1, 0), Num(s, 1, 0)
    s.append(Enum([t for t in TEAMS if not t[-1].isdigit()], out=lambda t: ''.join(TRADITIONAL.get(c, c) for c in t)))
    s.append(Enum("-:/"))
    s.append(Enum(["", " "]))
    fam("small score", s, [Ref(2), Ref(4), x.inp, Ref(3), y.inp], [Ref(2, "out"), x.out, "比", y.out], T, False)
    return out


def lone_bare(s, x, u):
    if x.d.n > 1:
        return x.d.read()
    two = x.d.at(0, 2)
    er = g_in(u, s[u].er)
    return [Alt((g_and(two, er), ["二"]), (g_and(two, g_not(er)), ["两"]), (g_not(two), [Ref(x.d.k[0], "han")]))]


FUNCTIONS = ["tn.chinese.rules.measure.Measure", "tn.chinese.rules.money.Money", "tn.chinese.rules.sport.Sport", "tn.chinese.rules.cardinal.Cardinal",
             "tn.chinese.normalizer.Normalizer.build_tagger_and_verbalizer", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 700 if tier == "thorough" else 200,
        "all units, currencies and teams of the tables with every number of up to 6 digits (thorough 12) and 2 decimals",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
