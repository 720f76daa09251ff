"""Chinese: percentages, fractions, arithmetic, ratios, ranges, dotted and dashed digit strings."""
from ref.zh import HOTLINES
from vf.family import Fam, run_check, replay  # noqa: F401
from ._zhcommon import LEFT, RIGHT, Alt, Digits, Enum, Num, Ref, T, F, ctx, date2, date3, g_and, g_in, g_not, g_or, span

OPS = {"×": "乘", "-": "减", "+": "加", "=": "等于", "÷": "除", "≥": "大于等于", "≤": "小于等于", ">=": "大于等于", "<=": "小于等于",
       "~": "到", ":": "比", "<": "小于", ">": "大于"}


def part(d, i, j):
    x = object.__new__(Digits)
    x.slots, x.k, x.n = d.slots, d.k[i:j], j - i
    return x


def families(tier):
    out = []
    big = tier == "thorough"

    def fam(name, slots, inp, res, where=T, context=True):
        if context:
            left, right = ctx(slots, LEFT), ctx(slots, RIGHT)
            inp, res = [Ref(left), inp, Ref(right)], [Ref(left, "out"), res, Ref(right, "out")]
        out.append(("zh_tn", {}, Fam(name, slots, inp, res, where=where)))

    for n, k in [(1, 0), (2, 0), (3, 0), (1, 1), (2, 2), (3, 1)] + ([(4, 0), (5, 0), (6, 0), (9, 0), (12, 0), (4, 3), (8, 2)] if big else [(6, 0)]):
        s = []
        x = Num(s, n, k, sign=True)
        fam("percent %d.%d" % (n, k), s, [x.inp, "%"], ["百分之", x.out], T, n + k < 3)
    shapes = [((1, 0), (1, 0)), ((1, 0), (2, 0)), ((2, 0), (1, 0)), ((2, 0), (2, 0)), ((3, 0), (3, 0)), ((1, 1), (2, 0)), ((4, 0), (2, 0))]
    if big:
        shapes += [((2, 0), (4, 0)), ((4, 0), (4, 0)), ((3, 2), (3, 1)), ((6, 0), (2, 0)), ((1, 0), (8, 0)), ((12, 0), (12, 0))]
    for (n, k), (m, j) in shapes:
        for sign in (False, True):
            s = []
            a = Num(s, n, k, sign=sign, zero=False)
            b = Num(s, m, j, zero=False)
            s.append(Enum(["/", " /", "/ ", " / "]))
            bad = date2(a.d, b.d) if not k and not j else F
            fam("fraction %d.%d/%d.%d %s" % (n, k, m, j, sign), s, [a.inp, Ref(len(s) - 1), b.inp], [b.out, "分之", a.out], g_not(bad),
                n + m + k + j < 3)
    for (n, k), (m, j) in shapes:
        s = []
        a = Num(s, n, k, zero=False)
        b = Num(s, m, j, zero=False)
        ops = sorted(OPS)
        s.append(Enum(ops, han=[OPS[o] for o in ops]))
        op = len(s) - 1
        s.append(Enum(["", " "]))
        sp = len(s) - 1
        one = lambda *o: g_in(op, [ops.index(x) for x in o])
        bad = F
        if not k and not j:
            bad = g_and(one("-"), date2(a.d, b.d))
            if m == 2 and n in (1, 2):
                bad = g_or(bad, g_and(one(":"), span(a.d, 0, 24), span(b.d, 0, 59)))
            if m == 2 and n > 2:  # a hotline number followed by a time
                for r in (1, 2):
                    head, rest = part(a.d, 0, n - r), part(a.d, n - r, n)
                    bad = g_or(bad, g_and(one(":"), head.concat_of(HOTLINES), span(rest, 0, 24), span(b.d, 0, 59)))
        if n == 3 and m == 8:
            bad = g_or(bad, one("-"))
        if n + m > 8:  # hotline numbers may be joined to dates at either end
            bad = g_or(bad, one("-", ":"))
        if k or j:  # 9:50, 8-10 ... inside
            bad = g_or(bad, one(":"))
        fam("arithmetic %d.%d ? %d.%d" % (n, k, m, j), s, [a.inp, Ref(sp), Ref(op), Ref(sp), b.inp], [a.out, Ref(op, "han"), b.out],
            g_not(bad), n + m + k + j < 3)
    for n, m, r in ((1, 1, 1), (2, 1, 2), (2, 2, 3)):
        s = []
        a, b, c = (Num(s, x, zero=False) for x in (n, m, r))
        s.append(Enum("+-×÷", han="加减乘除"))
        op = len(s) - 1
        s.append(Enum(["=", ">", "≥", "<"], han=["等于", "大于", "大于等于", "小于"]))
        eq = len(s) - 1
        fam("equation %d ? %d = %d" % (n, m, r), s, [a.inp, Ref(op), b.inp, Ref(eq), c.inp],
            [a.out, Ref(op, "han"), b.out, Ref(eq, "han"), c.out], g_not(g_and(g_in(op, [1]), date2(a.d, b.d))), False)
    # digit strings
    for a, b, c in [(3, 4, 4), (3, 3, 4), (1, 1, 1), (4, 2, 2), (2, 2, 4), (2, 3, 3)] + ([(4, 4, 4), (1, 2, 3), (5, 5, 5)] if big else []):
        s = []
        d = [Digits(s, x, zero=True) for x in (a, b, c)]
        fam("digits %d-%d-%d" % (a, b, c), s, [d[0].inp(), "-", d[1].inp(), "-", d[2].inp()], [x.one_by_one() for x in d],
            g_not(date3(*d)), a == 3)
    s = []
    d = [Digits(s, x, zero=True) for x in (3, 8)]
    fam("ddd-dddddddd", s, [d[0].inp(), "-", d[1].inp()], [x.one_by_one() for x in d], T, False)
    for n in ((1, 1, 1, 1), (3, 1, 1, 1), (3, 3, 3, 3), (2, 2, 2, 2), (1, 2, 3, 1)):
        s = []
        d = [Digits(s, x, zero=True) for x in n]
        inp, res = [], []
        for i, x in enumerate(d):
            inp += (["."] if i else []) + x.inp()
            res += (["点"] if i else []) + x.one_by_one()
        fam("dotted %s" % (n, ), s, inp, res, T, sum(n) < 6)
    s = [Enum(["尾号", "尾号是", "尾号为"])]
    d = Digits(s, 4, zero=True)
    fam("tail number", s, [Ref(0), d.inp()], [Ref(0), d.one_by_one("yao")])
    for n, k in ((1, 0), (2, 0), (3, 0), (1, 1), (4, 0)):
        s = [Enum(["约", "人均", "约人均"])]
        x = Num(s, n, k)
        fam("about %d.%d" % (n, k), s, [Ref(0), x.inp], [Ref(0), x.out], g_not(x.d.concat_of(HOTLINES)) if not k else T, False)
    s = [Enum(["×", "÷", "≥", "≤", ">=", "<="], han=["乘", "除", "大于等于", "小于等于", "大于等于", "小于等于"])]
    fam("operator alone", s, [Ref(0)], [Ref(0, "han")])
    return out




FUNCTIONS = ["tn.chinese.rules.cardinal.Cardinal.build_tagger", "tn.chinese.rules.fraction.Fraction", "tn.chinese.rules.math.Math",
             "tn.chinese.normalizer.Normalizer.build_tagger_and_verbalizer", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 700 if tier == "thorough" else 200,
        "numbers of up to 6 digits and 2 decimals (thorough 12), all operators, digit strings of up to 3+4+4 or 3x4 digits",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
