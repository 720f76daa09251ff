"""Chinese cardinals: integers, signs, decimals, full-width digits, hotline and mobile numbers, in any neutral context."""
from ref.zh import HOTLINES, Digits
from vf.cnf import F, T, g_and, g_in, g_not, g_or
from vf.family import Char, Enum, Fam, Ref, char_is, run_check, replay as _replay  # noqa: F401

LEFT = ["我", "共", "了", "，", "。", "（", "a", "Z", "'", "ß", "🙂", " "]
RIGHT = ["了", "的", "吧", "，", "！", "）", "b", "Q", "é", "🙂", " "]
HALF = {"，": ",", "！": "!", "（": "(", "）": ")", "。": "."}


def ctx(slots, words):
    slots.append(Enum(words, out=[HALF.get(w, w) for w in words]))
    return len(slots) - 1


def families(tier):
    out = []
    big = tier == "thorough"

    def fam(name, slots, inp, res, where=T, alone=False):
        if alone:
            out.append(("zh_tn", {}, Fam(name, slots, [inp], [res], where=where)))
            return
        left, right = ctx(slots, LEFT), ctx(slots, RIGHT)
        out.append(("zh_tn", {}, Fam(name, slots, [Ref(left), inp, Ref(right)], [Ref(left, "out"), res, Ref(right, "out")], where=where)))

    for n in list(range(1, 11)) + [12]:
        s = []
        d = Digits(s, n)
        fam("integer of %d digits" % n, s, d.inp(), d.read(), g_not(d.concat_of(HOTLINES)), n > 3)
    s = []
    d = Digits(s, 11)
    fam("11 digits", s, d.inp(), d.one_by_one("yao"), T, True)
    s = []
    d = Digits(s, 1, zero=True)
    fam("single digit", s, d.inp(), d.one_by_one())
    for a, b in (('"', '"'), ("\\", ""), ("", "\\"), ("", '"'), (" ", " ")):
        s = []
        d = Digits(s, 2)
        out.append(("zh_tn", {}, Fam("2 digits between %r and %r" % (a, b), s, [a, d.inp(), b], [a, d.read(), b])))
    s = [Enum(HOTLINES, yao=[w.translate(str.maketrans("0123456789", "零幺二三四五六七八九")) for w in HOTLINES])]
    fam("hotline", s, [Ref(0)], [Ref(0, "yao")])
    for n in range(1, 9 if big else 7):
        s = []
        d = Digits(s, n, mixed=True)
        half = g_and(*[g_in(k, range(len(s[k]) // 2)) for k in d.k])
        fam("half- and full-width digits, %d" % n, s, d.inp(), d.read(), g_not(g_and(half, d.concat_of(HOTLINES))), n > 2)
    for n in (1, 2, 3, 5, 9) if not big else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12):
        s = []
        d = Digits(s, n)
        s.append(Enum(["+", "-", "±"], han=["正", "负", "正负"]))
        fam("signed integer of %d digits" % n, s, [Ref(n), d.inp()], [Ref(n, "han"), d.read(liang=False)], T, n > 2)
    for n, k in [(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (3, 2), (4, 1), (4, 2), (6, 2), (9, 3)] + ([(2, 4), (3, 6), (5, 5), (6, 6), (7, 3)] if big else []):
        s = []
        d = Digits(s, n, zero=n == 1)
        f = Digits(s, k, zero=True)
        s.append(Enum(["", "+", "-", "±"], han=["", "正", "负", "正负"]))
        bare = g_in(n + k, [0])
        res = Alt_sign(d, bare)
        fam("decimal %d.%d" % (n, k), s, [Ref(n + k), d.inp(), ".", f.inp()], [Ref(n + k, "han"), res, "点", f.one_by_one()],
            g_not(datelike(d, f)), n + k > 3)
    if big:
        from vf.cnf import g_and as _a
        rare = traditional() + list("呃啊儿约均号是为")
        for n in (1, 2, 3, 5):
            for side in (0, 1):
                s = []
                d = Digits(s, n)
                s.append(Char([(0x4E00, 0x9FFF)], picks="我的"))
                stop = rare + (["年", "后"] + unit_heads() if side else [])
                w = _a(g_not(char_is(n, stop)), g_not(d.concat_of(HOTLINES)))
                c = Ref(n)
                out.append(("zh_tn", {}, Fam("%d digits beside any Chinese character" % n, s, [d.inp(), c] if side else [c, d.inp()],
                                             [d.read(), c] if side else [c, d.read()], where=w)))
    return out


def Alt_sign(d, bare):
    from vf.fst import Alt
    return Alt((bare, d.read()), (g_not(bare), d.read(liang=False)))


def datelike(d, f):
    """mm.dd, mm.d and yyyy.mm are dates."""

    def span(x, lo, hi):
        return g_or(*[x.equals("%0*d" % (x.n, v)) for v in range(lo, hi + 1) if len(str(v)) <= x.n])

    if d.n == 2 and f.n in (1, 2):
        return g_and(span(d, 1, 12), span(f, 1, 31 if f.n == 2 else 9))
    if d.n == 4 and f.n == 2:
        return span(f, 1, 12)
    if d.n == 2 and f.n == 4:
        return g_and(span(d, 1, 12), g_not(f.zero(0)))
    return F


def traditional():
    from ref.zhdata import TRADITIONAL
    return list(TRADITIONAL)


def unit_heads():
    from ref.zhdata import UNITS_EN, UNITS_ZH
    return sorted({u[0] for u in list(UNITS_ZH) + list(UNITS_EN.values())})


FUNCTIONS = ["tn.chinese.normalizer.Normalizer.build_tagger_and_verbalizer", "tn.chinese.rules.cardinal.Cardinal.build_tagger",
             "tn.chinese.rules.math.Math.build_tagger", "tn.processor.Processor.tag_field", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 700 if tier == "thorough" else 200,
        "integers of 1 to 12 digits, decimals of up to 9+3 digits (thorough: 6+6), one sign, one neighbour on each side",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])


replay = _replay
