"""Chinese: what is not a number, a date or a listed word passes through, one character at a time, according to the options."""
from ref.zhdata import CHARSET, CHARSET_EXT, ERHUA, FULL, PUNCT_ZH, TRADITIONAL, WHITELIST
from vf.family import Char, Fam, char_is, run_check, replay  # noqa: F401
from ._zhcommon import Alt, Enum, Ref, T, F, g_and, g_in, g_not, g_or

ALL = [(1, 0xD7FF), (0xE000, 0x10FFFF)]
DIGITS = {c: "零一二三四五六七八九"[i % 10] for i, c in enumerate("0123456789０１２３４５６７８９")}
OPERATOR = {"×": "乘", "÷": "除", "≥": "大于等于", "≤": "小于等于"}
INTERJECTION = ["呃", "啊"]
ASCII_PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
PUNCT = PUNCT_ZH + ASCII_PUNCT + "．"
SPECIAL = sorted(set(DIGITS) | set(OPERATOR) | set(INTERJECTION) | {"儿"} | set(TRADITIONAL) | set(FULL))
DEFAULT = dict(remove_interjections=True, remove_erhua=True, traditional_to_simple=True, remove_puncts=False, full_to_half=True, tag_oov=False)


def expected(c, **o):
    """The reading of one character on its own."""
    opt = dict(DEFAULT, **o)
    if c in DIGITS:
        c = DIGITS[c]
    elif c in OPERATOR:
        return OPERATOR[c]
    elif c == "儿":
        return "" if opt["remove_erhua"] else c
    if opt["traditional_to_simple"]:
        c = TRADITIONAL.get(c, c)
    if opt["remove_interjections"] and c in INTERJECTION:
        return ""
    if opt["remove_puncts"] and c in PUNCT:
        return ""
    if opt["full_to_half"]:
        c = FULL.get(c, c)
    if opt["tag_oov"] and not (c in CHARSET or c in CHARSET_EXT or c in PUNCT or c.isascii() and (c.isalnum() or c in " \t\n\r") or c == "\u00a0"):
        return "<oov>%s</oov>" % c
    return c


def families(tier):
    out = []
    big = tier == "thorough"

    def fam(name, slots, inp, res, where=T, **opt):
        out.append(("zh_tn", opt, Fam(name, slots, inp, res, where=where)))

    # one character of every kind, between two others
    for o in ({}, dict(remove_puncts=True), dict(full_to_half=False), dict(traditional_to_simple=False), dict(remove_interjections=False),
              dict(remove_erhua=False), dict(tag_oov=True)) if not big else OPTIONS:
        names = [c for c in SPECIAL if c != "儿"]
        if not big:
            names = [c for i, c in enumerate(names) if c not in TRADITIONAL or i % 5 == 0 or o == dict(traditional_to_simple=False)]
        punct = sorted(set(PUNCT) - set(names))
        s = [Enum(names, out=[expected(c, **o) for c in names])]
        fam("listed characters %s" % o, s, ["我", Ref(0), "们"], ["我", Ref(0, "out"), "们"], T, **o)
        s = [Enum(punct, out=[expected(c, **o) for c in punct])]
        fam("punctuation %s" % o, s, ["我", Ref(0), "们"], ["我", Ref(0, "out"), "们"], T, **o)
        fam("punctuation alone %s" % o, s, [Ref(0)], [Ref(0, "out")], T, **o)
        e = [w for w in ERHUA if all(c not in TRADITIONAL for c in w)]
        fam("erhua words %s" % o, [Enum(e)], ["我", Ref(0), "们"], ["我", Ref(0), "们"], T, **o)
        stop = sorted({w[w.index("儿") - 1] for w in e if "儿" in w and w.index("儿")} | set(TRADITIONAL) | {"呃", "啊", "儿"})
        if not o.get("tag_oov"):
            s = [Char([(0x4E00, 0x9FFF)], picks="玩")]
            fam("erhua %s" % o, s, [Ref(0), "儿", "了"], [Ref(0), "" if o.get("remove_erhua", True) else "儿", "了"], g_not(char_is(0, stop)), **o)
        w = sorted(WHITELIST)
        s = [Enum(w, out=[WHITELIST[x] for x in w])]
        if not o.get("remove_puncts"):
            fam("listed words %s" % o, s, ["我", Ref(0), "们"], ["我", Ref(0, "out"), "们"], T, **o)
        # any other character
        s = [Char(ALL, picks="我A。")]
        plain = g_not(char_is(0, SPECIAL + list("\"\\") + (list(PUNCT) if o.get("remove_puncts") else [])))
        if o.get("tag_oov"):
            inside = [c for c in CHARSET + CHARSET_EXT + PUNCT if c not in SPECIAL] + [chr(c) for c in range(1, 128) if chr(c).isalnum() or chr(c) in " \t\n\r"] + ["\u00a0"]
            ok = char_is(0, inside)
            fam("any character out of the charset", s, ["我", Ref(0), "们"], ["我<oov>", Ref(0), "</oov>们"], g_and(plain, g_not(ok)), **o)
            fam("any character of the charset", s, ["我", Ref(0), "们"], ["我", Ref(0), "们"], g_and(plain, ok), **o)
        else:
            fam("any character %s" % o, s, ["我", Ref(0), "们"], ["我", Ref(0), "们"], plain, **o)
            if not o or big:
                fam("any character alone %s" % o, s, [Ref(0)], [Ref(0)], plain, **o)
    for c in '"\\':
        for a, b in (("", ""), ("我", "们"), (c, ""), ("", "\\"), ("a", '"'), ("3", "4"), ("2008-08-08", "3kg")):
            want = {"3": "三", "4": "四", "2008-08-08": "二零零八年八月八日", "3kg": "三千克"}
            fam("quote %r %r %r" % (a, c, b), [Enum([c])], [a, Ref(0), b], [want.get(a, a), Ref(0), want.get(b, b)])
    stop = SPECIAL + list("\"\\")
    for k in (2,) if not big else (2, 3, 4):
        s = [Char(ALL, picks="我们是") for _ in range(k)]
        where = g_and(*[g_not(char_is(i, stop)) for i in range(k)],
                      *[g_not(g_and(char_is(i, "<>"), char_is(i + 1, "="))) for i in range(k - 1)])
        fam("any %d characters" % k, s, [Ref(i) for i in range(k)], [Ref(i) for i in range(k)], where)
    return out


OPTIONS = [{}] + [{k: not v} for k, v in DEFAULT.items()] + [dict(remove_puncts=True, full_to_half=False), dict(remove_puncts=True, tag_oov=True),
           dict(tag_oov=True, traditional_to_simple=False), dict(tag_oov=True, full_to_half=False), dict(remove_erhua=False, remove_interjections=False)]
FUNCTIONS = ["tn.chinese.rules.char.Char", "tn.chinese.rules.whitelist.Whitelist", "tn.chinese.rules.postprocessor.PostProcessor",
             "tn.chinese.normalizer.Normalizer.__init__", "tn.processor.Processor (CHAR, SIGMA, wire encoding)", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 300,
        "every Unicode scalar value once between neighbours and alone, every string of 2 or 3 (thorough 4) characters without special ones, every listed "
        "word, under each option switched on its own",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
