"""English ITN: what is not a number, a date, a code or a listed name stays as it is."""
from ref.enitn import CURRENCY, PLURAL, UNITS, WHITELIST
from ._enitncommon import Char, Enum, Fam, Ref, T, char_is, en, g_and, g_in, g_not, g_or, replay, run_check, table  # noqa: F401

LOW = "abcdefghijklmnopqrstuvwxyz"
ALL = [(1, 0xD7FF), (0xE000, 0x10FFFF)]
BLANKS = " \t\n\x0b\x0c\r\xa0"
PUNCT = "!#$%&'()*+,-./:;<=>?@^_`{|}~\\\""
WORDS = {w for k in WHITELIST for w in k.split(" ")}
VALUES = {"thirteen": "13", "twenty first": "21st", "one hundred and five": "105", "three point five": "3.5", "five dollars": "$5", "ten kilometers": "10 km",
          "two thirty pm": "02:30 p.m.", "july fourth": "july 4", "nineteen eighties": "1980s", "two million": "2 million", "one two three four": "1234", "c p u": "CPU",
          "a b at c dot com": "ab@c.com", "half past two": "02:30", "ten percent": "10 %", "minus fourteen": "-14"}
# words that make something else of a number beside them
NUMBERS = set(en.ONES + en.TEENS + en.TENS[2:] + ["hundred", "thousand", "million", "o", "oh", "point", "minus", "negative", "and", "dot", "at", "double", "triple", "plus"])


def word(slots, n, letters=LOW):
    k = len(slots)
    slots.extend(Enum(letters) for _ in range(n))
    return list(range(k, k + n))


def spells(ks, slots, w):
    return g_and(*[g_in(k, [slots[k].values.index(c)]) for k, c in zip(ks, w)])


def none_of(ks, slots, words):
    return g_and(*[g_not(spells(ks, slots, w)) for w in words if len(w) == len(ks) and all(c in slots[k].values for k, c in zip(ks, w))])


def refs(ks):
    return [Ref(k) for k in ks]


def families(tier):
    big = tier == "thorough"
    out = []

    def fam(name, slots, inp, res, where=T):
        out.append(("en_itn", {}, Fam(name, slots, [inp], [res], where=where)))

    single = {k for k in WHITELIST if " " not in k}
    # words alone; "one" and "ten" stay words
    for n in range(1, 7 if big else 6):
        s = []
        w = word(s, n)
        fam("any %d small letters" % n, s, refs(w), refs(w), none_of(w, s, single | {"fifth", "sixth", "ninth", "tenth", "forty", "fifty", "sixty", "fifths"} | ({
            en.ordinal(k) for k in range(100)} | {en.below100(k) for k in range(13, 100)})) if n < 5 else g_and(
                none_of(w, s, single | {en.ordinal(k) for k in range(100)} | {en.below100(k) for k in range(13, 100)}), not_ending(w, s)))
    for n in (2, 3):
        s = []
        w = word(s, n, LOW.upper() + LOW)
        fam("any %d letters" % n, s, refs(w), refs(w), none_of(w, s, single))
    # two and three words of two and more letters, not in any listed name
    for n, m in ((2, 2), (3, 2), (3, 3)) if big else ((2, 2), (3, 2)):
        s = []
        a, b = word(s, n), word(s, m)
        s.append(Enum([" ", "  ", "\t", " \n ", "\xa0"]))
        keep = g_and(none_of(a, s, WORDS | NUMBERS), none_of(b, s, WORDS | NUMBERS))
        fam("words of %d and %d letters" % (n, m), s, [refs(a), Ref(n + m), refs(b)], [refs(a), " ", refs(b)], keep)
    for lead, end in ((" ", ""), ("", " "), ("\t", "\n"), ("  ", "  ")):
        s = []
        a = word(s, 2)
        fam("word within blanks %r %r" % (lead, end), s, [lead, refs(a), end], [refs(a)], none_of(a, s, single))
    # punctuation
    marks = Enum(list(PUNCT))
    s = []
    a, b = word(s, 2), word(s, 2)
    keep = g_and(none_of(a, s, WORDS | NUMBERS), none_of(b, s, WORDS | NUMBERS))
    s += [marks, marks]
    for name, text in (("%s%s", [refs(a), Ref(4), refs(b)]), ("%s %s", [refs(a), Ref(4), " ", refs(b)]), (" %s ", [refs(a), " ", Ref(4), " ", refs(b)]),
                       ("(%s %s)", [Ref(4), refs(a), " ", refs(b), Ref(5)])):
        fam("words and marks %s" % name, s, text, text, keep)
    # any character
    for a, b in (("", ""), ("see ", " now"), ("he", ""), ("", "is"), ("no ", ", yes")):
        fam("any character between %r %r" % (a, b), [Char(ALL, picks="a,é中")], [a, Ref(0), b], [a, Ref(0), b], g_not(char_is(0, BLANKS + PUNCT * (b[:1] == ",") + "a" * (b == "is"))))
    for n in (2, 3) if big else (2, ):
        s = [Char(ALL, picks="a,é中") for _ in range(n)]
        letters = LOW + LOW.upper()
        fam("any %d characters" % n, s, refs(range(n)), refs(range(n)), g_and(*[g_not(char_is(i, list(BLANKS) + (list(letters) if i else []))) for i in range(n)]))
    # listed names
    fam("listed", [table({k: v for k, v in WHITELIST.items()})], [Ref(0)], [Ref(0, "out")])
    for a, b in (("see ", " ok"), ("my ", ""), ("( ", " )"), ("so , ", " , then")):
        fam("listed between %r %r" % (a, b), [table(WHITELIST)], [a, Ref(0), b], [a, Ref(0, "out"), b])
    # text beside a converted number
    other = WORDS | NUMBERS | {"may", "the", "per", "www", "est", "cst", "cet", "pst", "gmt"} | MONEY3
    for said, v in VALUES.items():
        s = []
        a = word(s, 3)
        keep = none_of(a, s, other)
        fam("word before %s" % said, s, [refs(a), " " + said], [refs(a), " " + v], keep)
        fam("word behind %s" % said, s, [said + " ", refs(a)], [v + " ", refs(a)], keep)
        keep = g_not(char_is(0, list(BLANKS) + list(LOW + LOW.upper())))
        fam("character before %s" % said, [Char(ALL, picks="é中")], [Ref(0), " " + said], [Ref(0), " " + v], keep)
        fam("character behind %s" % said, [Char(ALL, picks="é中")], ["it , " + said + " ", Ref(0)], ["it , " + v + " ", Ref(0)], keep)
        # marks directly behind or before a number stand apart
        fam("mark behind %s" % said, [Enum(list(PUNCT))], [said, Ref(0)], [v + " ", Ref(0)])
        fam("mark before %s" % said, [Enum(list(PUNCT))], [Ref(0), said], [Ref(0), " " + v])
    return out


MONEY3 = {w for t in (CURRENCY, UNITS, PLURAL) for k in t for w in k.split(" ")[:1]} | {w + "s" for w in CURRENCY} | {"cent"}


def not_ending(ks, slots):
    """No invented ordinals such as oneth (the rules read the ending th off any number)."""
    return g_and(none_of(ks, slots, [w + "th" for w in en.ONES + en.TEENS + en.TENS[2:]]))


FUNCTIONS = ["itn.english.rules.word.Word", "itn.english.rules.char.Char", "itn.english.rules.punctuation.Punctuation", "itn.english.rules.whitelist.Whitelist",
             "itn.english.inverse_normalizer.InverseNormalizer (weights, composition)", "tn.token_parser.TokenParser", "itn/english/data (tables)"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 300,
        "words of up to 5 (thorough 6) free letters, two words with any blanks or marks between, any 3 (thorough 4) Unicode characters, all listed names, words and characters "
        "beside 16 kinds of converted text", FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
