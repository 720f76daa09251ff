"""Japanese TN: what is not a number, a date or a listed word passes through, one character at a time, according to the options."""
from ref.jadata import HALF, KANA, KANJI as CHARSET, PUNCT as PUNCT_JA, TEAMS, TRANSLITERATION, WHITELIST
from vf.family import Char, Fam, char_is, run_check, replay  # noqa: F401
from vf.fst import Enum, Ref
from ._jacommon import T, g_and, g_not

ALL = [(1, 0xD7FF), (0xE000, 0x10FFFF)]
DIGITS = {c: "〇一二三四五六七八九"[i % 10] for i, c in enumerate("0123456789０１２３４５６７８９")}
ASCII_PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
PUNCT = sorted(set(PUNCT_JA + ASCII_PUNCT))
DEFAULT = dict(remove_interjections=False, remove_puncts=False, full_to_half=True, tag_oov=False, transliterate=False)
SPECIAL = sorted(set(DIGITS) | set("@＠") | set(HALF))
INSIDE = set(KANA + CHARSET + PUNCT_JA + ASCII_PUNCT + " \t\n\r\u00a0") | {chr(c) for c in range(1, 128) if chr(c).isalnum()}
KANJI1 = [k for k in TRANSLITERATION if len(k) == 1]


def finish(text, **o):
    """What the options make of a text that is read as it stands."""
    opt = dict(DEFAULT, **o)
    if opt["full_to_half"]:
        text = "".join(HALF.get(c, c) for c in text)
    if opt["remove_puncts"]:
        text = "".join(c for c in text if c not in PUNCT)
    if opt["tag_oov"]:
        text = "".join(c if c in INSIDE else "<oov>%s</oov>" % c for c in text)
    return text


def expected(c, **o):
    """The reading of one character on its own."""
    if dict(DEFAULT, **o)["transliterate"]:
        for k in KANJI1:
            if c == k or HALF.get(c) == k:
                return finish(TRANSLITERATION[k], **o)
    if c in DIGITS:
        return finish(DIGITS[c], **o)
    if c == "@" or c == "＠" and dict(DEFAULT, **o)["full_to_half"]:
        return "アットマーク"
    return finish(c, **o)


def families(tier):
    out = []
    big = tier == "thorough"

    def fam(name, slots, inp, res, where=T, **opt):
        out.append(("ja_tn", opt, Fam(name, slots, inp, res, where=where)))

    for o in OPTIONS if big else OPTIONS[:6]:
        s = [Enum(SPECIAL, out=[expected(c, **o) for c in SPECIAL])]
        fam("listed characters %s" % o, s, ["あ", Ref(0), "い"], ["あ", Ref(0, "out"), "い"], **o)
        fam("listed characters alone %s" % o, s, [Ref(0)], [Ref(0, "out")], **o)
        punct = [c for c in PUNCT if c not in SPECIAL]
        s = [Enum(punct, out=[expected(c, **o) for c in punct])]
        fam("punctuation %s" % o, s, ["あ", Ref(0), "い"], ["あ", Ref(0, "out"), "い"], **o)
        fam("punctuation alone %s" % o, s, [Ref(0)], [Ref(0, "out")], **o)
        if not o.get("remove_puncts"):
            w = [x for x in sorted(WHITELIST) if o.get("full_to_half", True) or x.isascii()]
            s = [Enum(w, out=[finish(WHITELIST[x], **o) for x in w])]
            fam("listed words %s" % o, s, ["は", Ref(0), "が"], ["は", Ref(0, "out"), "が"], **o)
            for k in sorted({len(t) for t in TEAMS}) if not o or big and not o.get("transliterate") else ():
                t = [x for x in sorted(TEAMS) if len(x) == k]
                s = [Enum(t, **{"c%d" % i: [x[i] for x in t] for i in range(k)}, **{"r%d" % i: [finish(x[i], **o) for x in t] for i in range(k)})]
                fam("team names of %d characters %s" % (k, o), s, ["は", [Ref(0, "c%d" % i) for i in range(k)], "が"],
                    ["は", [Ref(0, "r%d" % i) for i in range(k)], "が"], **o)
        # any other character
        s = [Char(ALL, picks="我A。")]
        plain = g_not(char_is(0, SPECIAL + list("\"\\") + (PUNCT if o.get("remove_puncts") else []) + (KANJI1 if o.get("transliterate") else [])))
        if o.get("tag_oov"):
            ok = char_is(0, sorted(INSIDE))
            fam("any character out of the charset %s" % o, s, ["あ", Ref(0), "い"], ["あ<oov>", Ref(0), "</oov>い"], g_and(plain, g_not(ok)), **o)
            fam("any character of the charset %s" % o, s, ["あ", Ref(0), "い"], ["あ", Ref(0), "い"], g_and(plain, ok), **o)
        else:
            fam("any character %s" % o, s, ["あ", Ref(0), "い"], ["あ", Ref(0), "い"], plain, **o)
            fam("any character alone %s" % o, s, [Ref(0)], [Ref(0)], plain, **o)
        for k in (2, 3) if not big else (2, 3, 4, 5):
            if o.get("tag_oov") or o.get("remove_puncts") or o.get("transliterate") or (o and not big):
                continue
            s = [Char(ALL, picks="今日は") for _ in range(k)]
            where = g_and(*[g_not(char_is(i, SPECIAL + list("\"\\"))) for i in range(k)])
            fam("any %d characters %s" % (k, o), s, [Ref(i) for i in range(k)], [Ref(i) for i in range(k)], where, **o)
    for c in '"\\':
        for a, b in (("", ""), ("今", "は"), (c, ""), ("", "\\"), ("a", '"'), ("3", "4"), ("2008-08-08", "3kg")):
            want = {"3": "三", "4": "四", "2008-08-08": "二千八年八月八日", "3kg": "三キログラム"}
            fam("quote %r %r %r" % (a, c, b), [Enum([c])], [a, Ref(0), b], [want.get(a, a), Ref(0), want.get(b, b)])
    # the listed katakana readings
    for o in (dict(transliterate=True),):
        w = sorted(k for k in TRANSLITERATION if SAFE(k))
        s = [Enum(w, out=[finish(TRANSLITERATION[x], **o) for x in w])]
        fam("listed readings %s" % o, s, ["は", Ref(0), "が"], ["は", Ref(0, "out"), "が"], **o)
    return out


def SAFE(word):
    """Words without digits and that no other listed word is part of."""
    if any(c in DIGITS or c in "@＠" for c in word):
        return False
    return not any(word[i:j] in TRANSLITERATION for i in range(len(word)) for j in range(i + 1, len(word) + 1) if j - i < len(word))


OPTIONS = [{}, dict(remove_puncts=True), dict(full_to_half=False), dict(tag_oov=True), dict(remove_interjections=True), dict(transliterate=True),
           dict(remove_puncts=True, full_to_half=False), dict(remove_puncts=True, tag_oov=True), dict(tag_oov=True, full_to_half=False)]
FUNCTIONS = ["tn.japanese.rules.char.Char", "tn.japanese.rules.whitelist.Whitelist", "tn.japanese.rules.transliteration.Transliteration",
             "tn.japanese.rules.postprocessor.PostProcessor", "tn.japanese.rules.preprocessor.PreProcessor",
             "tn.japanese.normalizer.Normalizer.__init__", "tn.processor.Processor (CHAR, SIGMA, wire encoding)", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 300,
        "every Unicode scalar value once between neighbours and alone, every string of 2 or 3 (thorough 5) characters without special ones, every listed "
        "word and reading, under each option switched on its own",
        FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
