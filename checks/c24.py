"""Chinese inverse normalization leaves other text alone."""
from ref.zhitndata import CURRENCY_CODE, CURRENCY_SYMBOL, UNITS_EN, UNITS_ZH, WHITELIST
from vf.cnf import F, T, g_and, g_in, g_not, g_or
from vf.family import Char, Fam, char_is, run_check, replay  # noqa: F401
from vf.fst import Alt, Enum, Group, Ref

ALL = [(1, 0xD7FF), (0xE000, 0x10FFFF)]
NUMBER = "零洞一幺壹二两贰三叁四肆五伍六陆七柒拐八捌九玖十"
MODES = [{}, {"remove_interjections": False}, {"enable_0_to_9": True}, {"enable_standalone_number": False}]


def families(tier):
    out = []
    big = tier == "thorough"

    def fam(name, slots, inp, res, where=T, **opt):
        out.append(("zh_itn", opt, Fam(name, slots, [inp], [res], where=where)))

    for o in MODES:
        keep = not o.get("remove_interjections", True)
        tag = " ".join(o) or "default"
        small = o.get("enable_0_to_9", False)
        lone = g_not(char_is(0, list("呃啊十\"\\ ") + (list(NUMBER) if small else [])))
        for a, b in (("", ""), ("我", "们"), ("a", "!")):
            fam("any character in %r %r, %s" % (a, b, tag), [Char(ALL, picks="我点。9")], [a, Ref(0), b], [a, Ref(0), b], lone, **o)
        fam("interjection, %s" % tag, [Enum("呃啊")], ["我", Ref(0), "去"], ["我", Ref(0) if keep else "", "去"], **o)
        w = sorted(WHITELIST)
        for a, b in (("", ""), ("我", "了")):
            fam("listed words in %r %r, %s" % (a, b, tag), [Enum(w, v=WHITELIST)], [a, Ref(0), b], [a, Ref(0, "v"), b], **o)
        for k in (2, 3) if not big else (2, 3, 4, 5):
            s = [Char(ALL, picks="我们点是") for _ in range(k)]
            stop = list(NUMBER) + list("呃啊\"\\ 十" + "百" * (k > 2))
            where = g_and(*[g_not(char_is(i, stop)) for i in range(k)])
            fam("any %d characters, %s" % (k, tag), s, [Ref(i) for i in range(k)], [Ref(i) for i in range(k)], where, **o)
        for c in '"\\ ':
            for a, b in (("我", "们"), (c, c + "a"), ("a", '"b'), ("二十", "三十"), ("二零零八年", "五十公里")):
                want = {"二十": "20", "三十": "30", "二零零八年": "2008年", "五十公里": "50km"}
                if o.get("enable_standalone_number", True) or a[0] != "二":
                    fam("%r between %r %r, %s" % (c, a, b, tag), [Enum([c])], [a, Ref(0), b], [want.get(a, a), Ref(0), want.get(b, b)], **o)
    # single digits: left alone unless enable_0_to_9
    digits = {d: str("零一二三四五六七八九".index(d)) for d in "一二三四五六七八九"}
    left = list(NUMBER) + list("百千万亿兆点點呃啊\"\\ ") + [w[i] for w in WHITELIST for i in range(len(w) - 1) if w[i + 1] in digits]
    right = list(NUMBER) + list("百千万亿兆点點呃啊\"\\ ") + [w[i + 1] for w in WHITELIST for i in range(len(w) - 1) if w[i] in digits]
    beside = g_and(g_not(char_is(0, left)), g_not(char_is(2, right)))
    for o, show in (({}, Ref(1)), ({"remove_interjections": False}, Ref(1)), ({"enable_0_to_9": True}, Ref(1, "v")), ({"enable_standalone_number": False}, Ref(1))):
        s = [Char(ALL, picks="我高动京a"), Enum(list(digits), v=list(digits.values())), Char(ALL, picks="我们a。")]
        more = []
        if o.get("enable_0_to_9"):
            more = [g_not(char_is(2, sorted({u[0] for u in list(UNITS_EN) + UNITS_ZH + list(CURRENCY_SYMBOL) + list(CURRENCY_CODE)} | set("年月日号点分成")))), g_not(char_is(0, list("正负")))]
        tag = " ".join(o) or "default"
        fam("digit between any characters, %s" % tag, s, [Ref(0), Ref(1), Ref(2)], [Ref(0), show, Ref(2)], g_and(beside, *more), **o)
        fam("digit behind any character, %s" % tag, s[:2], [Ref(0), Ref(1)], [Ref(0), show], g_and(g_not(char_is(0, left)), *more[1:]), **o)
    # numbers inside other text, one character of any kind on each side
    stop = list(NUMBER) + list("百千万亿兆点點年月日号元角毛分半负正的呃啊个到比加减乘除等\"\\ 秒几多贝")
    for text, want in (("二十五", "25"), ("一百二十", "120"), ("十点五", "10.5"), ("百分之五十", "50%"), ("三月五日", "03/05"), ("五十公里", "50km"),
                       ("八点二十分", "8:20"), ("三分之二", "2/3"), ("十五美元", "$15")):
        for side in (0, 1):
            s = [Char(ALL, picks="我们a") for _ in range(1)]
            more = [u[0] for u in list(UNITS_EN) + UNITS_ZH + list(CURRENCY_SYMBOL) + list(CURRENCY_CODE)] if side else [w[-1] for w in WHITELIST]
            if side:
                more += list("第") + [w[1] for w in WHITELIST if len(w) > 1]
            where = g_not(char_is(0, stop + more + list("每高动特快直慢临京津沪渝冀豫云辽黑湘皖鲁新苏浙赣鄂桂甘晋蒙陕吉闽贵粤青藏川宁琼")))
            fam("%s %s any character" % (text, ["after", "before"][side]), s, [text, Ref(0)] if side else [Ref(0), text],
                [want, Ref(0)] if side else [Ref(0), want], where)
    return out


FUNCTIONS = ["itn.chinese.rules.char.Char", "itn.chinese.rules.whitelist.Whitelist", "itn.chinese.rules.postprocessor.PostProcessor",
             "itn.chinese.inverse_normalizer.InverseNormalizer.__init__", "tn.processor.Processor (CHAR, SIGMA, wire encoding)"]


def run(tier):
    return run_check(families(tier), 700 if tier == "thorough" else 250,
        "every Unicode scalar value alone, between neighbours and beside converted text; strings of 2 (thorough 4) free characters",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
