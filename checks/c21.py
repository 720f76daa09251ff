"""Chinese inverse normalization of numbers, under each number option."""
from ref.zh import Digits
from vf.cnf import F, T, g_and, g_in, g_not, g_or
from vf.family import Fam, run_check, replay  # noqa: F401
from vf.fst import Alt, Enum, Group, Ref

LEFT = ["我", "共", "了", "，", "。", "（", "a", "Z", "'", "🙂", "3", " "]
RIGHT = ["了", "的", "吧", "，", "！", "）", "b", "Q", "é", "🙂"]
SMALL = "零一二三四五六七八九"
TILDE = ["%s%s" % (SMALL[i], SMALL[i + 1]) for i in range(1, 9)] + ["三五"]
MODES = [{}, {"enable_0_to_9": True}, {"enable_million": True}, {"enable_0_to_9": True, "enable_million": True}, {"enable_standalone_number": False},
         {"enable_standalone_number": False, "enable_0_to_9": True}]


def han(slots, n, zero=False, nonzero=False):
    return Digits(slots, n, zero=zero, nonzero=nonzero)


def drop0(d, ks, keep_one=False):
    """The digits of positions ks without leading zeros."""
    out = []
    seen = F
    for j, k in enumerate(ks):
        z = g_and(*[d.zero(i) for i in ks[:j + 1]])
        if keep_one and j == len(ks) - 1:
            z = F
        out.append(Alt((z, []), (g_not(z), [Ref(d.k[k])])) if z != F else Ref(d.k[k]))
    return out


def upto8(d, ks, million):
    """Arabic form of the number spelled by positions ks (at most 8): from a million on 万 stays, unless enable_million."""
    if million or len(ks) <= 6:
        return drop0(d, ks)
    hi, lo = ks[:-4], ks[-4:]
    big = g_or(*[g_not(d.zero(i)) for i in hi[:-2]])
    kept = [drop0(d, hi), "万", drop0(d, lo)]
    return [Alt((big, kept), (g_not(big), drop0(d, ks)))]


def arabic(d, million):
    n = d.n
    ks = list(range(n))
    if n <= 8:
        return upto8(d, ks, million)
    return [drop0(d, ks[:-8]), "亿", upto8(d, ks[-8:], million)]


def spoken(slots, d):
    """The number's reading, with 二 or 两 for a two in front of 百 千 万 亿."""
    slots.append(Enum(["liang", "er"]))
    k = len(slots) - 1
    return [Group(Alt((g_in(k, [0]), d.read(True)), (g_in(k, [1]), d.read(False))))]


def spelled():
    """One digit in any of its spellings."""
    v = "零洞一幺壹二贰三叁四肆五伍六陆七柒拐八捌九玖"
    return Enum(v, d="0011122334455667778899")


def families(tier):
    out = []
    big = tier == "thorough"
    modes = MODES[:5] if not big else MODES

    def fam(name, slots, inp, res, where=T, ctx=True, **opt):
        if ctx:
            slots.append(Enum(LEFT))
            slots.append(Enum(RIGHT))
            a, b = Ref(len(slots) - 2), Ref(len(slots) - 1)
            inp, res = [a, inp, b], [a, res, b]
        out.append(("zh_itn", opt, Fam(name, slots, [inp], [res], where=where)))

    for o in modes:
        alone = o.get("enable_standalone_number", True)
        small = o.get("enable_0_to_9", False)
        million = o.get("enable_million", False)
        tag = " ".join(sorted(o)) or "default"
        # one digit
        s = []
        d = han(s, 1, zero=True)
        fam("one digit, " + tag, s, [Ref(d.k[0], "han")], [Ref(d.k[0]) if small and alone else Ref(d.k[0], "han")], T, **o)
        sizes = [(n, 0) for n in ((2, 3, 4, 5, 6, 7, 8) if big else (2, 3, 4, 5, 6, 7) if not o else (2, 4, 6))] + [(n, 1) for n in (9, 10, 11, 12)]
        for n, full in sizes:
            s = []
            d = han(s, n, nonzero=full)
            sp = spoken(s, d)
            if not alone and n < 5:
                fam("%d digits, %s" % (n, tag), s, sp, sp, T, n < 3, **o)
            elif alone:
                fam("%d %sdigits, %s" % (n, "nonzero " * full, tag), s, sp, arabic(d, million), T, n < 5, **o)
        if not alone:
            continue
        # round numbers
        for n in (1, 2, 3, 4):
            s = []
            d = han(s, n)
            sp = spoken(s, d)
            if n > 1 or small:
                fam("%d digits of 亿, %s" % (n, tag), s, [sp, "亿"], [d.inp(), "亿"], T, n < 4, **o)
        for n, k in ((1, 1), (2, 2), (1, 3), (2, 4), (4, 2)) if not o or big else ((2, 1), (2, 3)):
            s = []
            d, e = han(s, n), han(s, k)
            a, b = spoken(s, d), spoken(s, e)
            fam("%d digits of 亿 and %d of 万, %s" % (n, k, tag), s, [a, "亿", b, "万"],
                [d.inp(), "亿", e.inp(), "0000" if million or k < 3 else "万"], T, False, **o)
        for n, k in ((1, 2), (2, 3), (3, 4)):
            s = []
            d, e = han(s, n), han(s, k)
            a, b = spoken(s, d), spoken(s, e)
            fam("%d digits of 亿 and %d digits, %s" % (n, k, tag), s, [a, "亿零", b], [d.inp(), "亿", e.inp()], T, False, **o)
        if million and not big:
            continue
        # decimals, with every sign
        for n, k in [(1, 1), (2, 1), (1, 3), (3, 2)] + ([(5, 2), (4, 3), (1, 6)] if big else []):
            s = []
            d, f = han(s, n, zero=n == 1), Digits(s, k, zero=True)
            body = spoken(s, d) if n > 1 else [Ref(d.k[0], "han")]
            s.append(Enum(["", "正", "负", "负的", "正负"], sym=["", "+", "-", "-", "±"]))
            s.append(Enum("点點"))
            dec = len(s) - 1
            fam("decimal %d.%d, %s" % (n, k, tag), s, [Ref(dec - 1), body, Ref(dec), f.one_by_one()],
                [Ref(dec - 1, "sym"), d.inp() if n < 7 else arabic(d, million), ".", f.inp()], T, n + k < 4, **o)
        if small:
            for n in (1, 2, 3, 5):
                s = []
                d = han(s, n, zero=n == 1)
                body = spoken(s, d) if n > 1 else [Ref(d.k[0], "han")]
                s.append(Enum(["正", "负", "负的", "正负"], sym=["+", "-", "-", "±"]))
                fam("signed, %d digits, %s" % (n, tag), s, [Ref(len(s) - 1), body], [Ref(len(s) - 1, "sym"), d.inp()], T, n < 4, **o)
        # digit strings
        for n in (3, 4, 5, 11, 18) if big or not o else (3, 4, 5):
            s = [spelled() for _ in range(n)]
            fam("digit string of %d, %s" % (n, tag), s, [Group([Ref(i) for i in range(n)])], [Ref(i, "d") for i in range(n)], T, n < 6, **o)
        s = [spelled() for _ in range(17)] + [Enum("xX")]
        if not o or big:
            fam("identity number, %s" % tag, s, [Group([Ref(i) for i in range(18)])], [Ref(i, "d") for i in range(17)] + [Ref(17)], T, False, **o)
        for shape in ((1, 1, 1), (3, 1, 1, 1), (3, 3, 3, 3), (2, 2, 2)):
            s = [spelled() for _ in range(sum(shape))]
            inp, res, k = [], [], 0
            for i, n in enumerate(shape):
                inp += (["点"] if i else []) + [Ref(j) for j in range(k, k + n)]
                res += (["."] if i else []) + [Ref(j, "d") for j in range(k, k + n)]
                k += n
            fam("dotted %s, %s" % (shape, tag), s, [Group(inp)], res, T, k < 6, **o)
        # digits with repetition: 幺三八四个八
        for n in (1, 2, 4):
            s = [spelled() for _ in range(n + 1)] + [Enum("三叁四肆五伍六陆七柒八捌九玖")]
            rep = Alt(*[(g_in(n + 1, [2 * i, 2 * i + 1]), [Ref(n, "d")] * (i + 3)) for i in range(7)])
            fam("%d digits and a repetition, %s" % (n, tag), s, [Group([Ref(i) for i in range(n)], Ref(n + 1), "个", Ref(n))],
                [Ref(i, "d") for i in range(n)] + [rep], T, False, **o)
        # colloquial: 一百二, 三千五, 两万八
        for unit, zeros in (("百", "0"), ("千", "00"), ("万", "000")):
            s = [Enum("一二两三四五六七八九", d="1223456789"), Enum("一二三四五六七八九", d="123456789")]
            fam("digit %s digit, %s" % (unit, tag), s, [Group(Ref(0), unit, Ref(1))], [Ref(0, "d"), Ref(1, "d"), zeros], T, True, **o)
        # approximate: 七八十, 三五千, 四五十万
        first = "一二两三三四五六七八"
        second = "二三三四五五六七八九"
        pairs = [a + b for a, b in zip(first, second)]
        for unit, zeros in (("十", "0"), ("百", "00"), ("千", "000")):
            use = [i for i, p in enumerate(pairs) if p != "两三" or unit != "十"]
            s = [Enum([pairs[i] for i in use], a=["1223345678"[i] for i in use], b=["2334556789"[i] for i in use]), Enum(["", "万", "亿"])]
            fam("approximate %s, %s" % (unit, tag), s, [Group(Ref(0), unit, Ref(1))], [Ref(0, "a"), zeros, "~", Ref(0, "b"), zeros, Ref(1)], T, True, **o)
    return out


FUNCTIONS = ["itn.chinese.rules.cardinal.Cardinal.build_tagger", "itn.chinese.inverse_normalizer.InverseNormalizer.build_tagger_and_verbalizer"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 250,
        "numbers of up to 12 digits, each with 二 or 两; digit strings of the accepted lengths; all combinations of the number options",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
