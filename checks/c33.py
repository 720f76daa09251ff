"""Japanese ITN: what is not a number stays as it is; a converted number leaves its neighbours alone."""
from ref.jadata import HALF
from ref.jaitn import WHITELIST
from ._jaitncommon import Char, Enum, Fam, Ref, T, char_is, g_and, g_not, replay, run_check  # noqa: F401

ALL = [(1, 0xD7FF), (0xE000, 0x10FFFF)]
NUM = "〇零一二三四五六七八九十百千万"
# れい is read as zero wherever it stands
QUOTE = "\"\\两れゼ"
VALUES = {"十三": "13", "二十": "20", "百五": "105", "千二百": "1200", "二三": "23", "三万": "30000", "三点五": "3.5", "五パーセント": "5%", "十月一日": "10月1日", "三時五分": "3時5分",
          "二分の一": "1/2", "三対二": "3:2", "百ドル": "$100", "十キロメートル": "10km", "第五": "第5", "五億": "5億"}
# what can go on with a number
JOIN = NUM + "度足点億兆毎每湖"


def families(tier):
    big = tier == "thorough"
    out = []

    def fam(name, slots, inp, res, where=T, **opt):
        out.append(("ja_itn", opt, Fam(name, slots, inp, res, where=where)))

    for o in OPTIONS:
        full = o.get("full_to_half", False)
        half = sorted(HALF)
        s = [Enum(half, out=[HALF[c] if full else c for c in half])]
        fam("full-width characters %s" % o, s, ["あ", Ref(0), "い"], ["あ", Ref(0, "out"), "い"], **o)
        fam("full-width characters alone %s" % o, s, [Ref(0)], [Ref(0, "out")], **o)
        stop = list(NUM + QUOTE) + (half if full else [])
        plain = g_not(char_is(0, stop))
        s = [Char(ALL, picks="我A。")]
        fam("any character alone %s" % o, s, [Ref(0)], [Ref(0)], plain, **o)
        fam("any character %s" % o, s, ["あ", Ref(0), "い"], ["あ", Ref(0), "い"], plain, **o)
        for k in (2, 3, 4) if not big else (2, 3, 4, 5, 6):
            if o and k > 2 and not big:
                continue
            s = [Char(ALL, picks="今日はい") for _ in range(k)]
            fam("any %d characters %s" % (k, o), s, [Ref(i) for i in range(k)], [Ref(i) for i in range(k)], g_and(*[g_not(char_is(i, stop)) for i in range(k)]), **o)
        one = "〇零一二三四五六七八九"
        zero = o.get("enable_0_to_9") and o.get("enable_standalone_number", True)
        s = [Enum(one, out=["0", "0"] + list("123456789") if zero else one)]
        fam("a single digit %s" % o, s, ["あ", Ref(0), "い"], ["あ", Ref(0, "out"), "い"], **o)
        s = [Char(ALL, picks="我A"), Enum(one, out=["0", "0"] + list("123456789") if zero else one), Char(ALL, picks="我A")]
        fam("a single digit between any characters %s" % o, s, [Ref(0), Ref(1), Ref(2)], [Ref(0), Ref(1, "out"), Ref(2)],
            g_and(g_not(char_is(0, stop + ["第", "√"])), g_not(char_is(2, stop + list(JOIN + "分秒時"))) if not o.get("enable_0_to_9") else
                  g_not(char_is(2, stop + list(JOIN + "分秒時")))), **o)
        for k in sorted({len(w) for w in WHITELIST}):
            w = [x for x in WHITELIST if len(x) == k]
            fam("listed words of %d characters %s" % (k, o), [Enum(w)], ["は", Ref(0), "が"], ["は", Ref(0), "が"], **o)
        if not o or full or big:
            v = sorted(VALUES)
            for x in v:
                res = VALUES[x]
                s = [Char(ALL, picks="我A"), Char(ALL, picks="我A")]
                fam("%s between any characters %s" % (x, o), s, [Ref(0), x, Ref(1)], [Ref(0), res, Ref(1)],
                    g_and(g_not(char_is(0, stop + ["第", "√"])), g_not(char_is(1, stop + list(JOIN + "分秒時番√")))), **o)
            for a, b in (("13", "4"), ("a", "2.5"), ("", "2024年"), ("１", "２"), ("3月", "5日")):
                fam("figures %r %r %s" % (a, b, o), [Enum(list("〇あ-.,"))], [a, Ref(0), b], [a.translate(ASCII) if full else a, Ref(0), b.translate(ASCII) if full else b], **o)
    for c in '"\\':
        for a, b in (("", ""), ("今", "は"), (c, ""), ("", "\\"), ("a", '"'), ("十三", "十四"), ("十月一日", "百ドル")):
            fam("quote %r %r %r" % (a, c, b), [Enum([c])], [a, Ref(0), b], [WANT.get(a, a), Ref(0), WANT.get(b, b)])
    return out


WANT = {"十三": "13", "十四": "14", "十月一日": "10月1日", "百ドル": "$100"}
ASCII = {ord(k): v for k, v in HALF.items()}
OPTIONS = [{}, dict(full_to_half=True), dict(enable_standalone_number=False), dict(enable_0_to_9=True), dict(enable_million=True)]
FUNCTIONS = ["itn.japanese.rules.char.Char", "itn.japanese.rules.whitelist.Whitelist", "itn.japanese.rules.preprocessor.PreProcessor",
             "itn.japanese.inverse_normalizer.InverseNormalizer.__init__", "tn.processor.Processor (VCHAR, SIGMA, wire encoding)", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 300,
        "every Unicode scalar value once between neighbours and alone, every string of up to 4 (thorough 6) characters without number characters, every "
        "listed word, single digits and sixteen converted texts between any two characters, under each option switched on its own",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
