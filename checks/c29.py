"""English TN: words, punctuation and other characters, codes of letters and digits, listed abbreviations and symbols."""
from ref.enwhite import WHITELIST
from vf.family import char_is, run_check, replay  # noqa: F401
from vf.fst import Char
from ._encommon import CLOSE, WORDS, Alt, Enum, Fam, Families, Number, Ref, T, en, g_and, g_in, g_not, g_or

LOW = "abcdefghijklmnopqrstuvwxyz"
ABC = LOW + LOW.upper()
ALL = [(1, 0xD7FF), (0xE000, 0x10FFFF)]
BLANKS = " \t\n\x0b\x0c\r\xa0"
UNITS = {x for x in en.UNITS} | set("tb yb au atm bq cc cd da eb ev f gb g gl gpa gy ha h hl hp hs kb kl kn kt kv lm ma mA mb mc mf m mm ms mv mV mw mW pb pg "
                                   "ps s zb am pm st nd rd th x k K M m b B bn mln".split())
MONEY = "nzd rs chf dkk fim aed czk mro pkr crc npr awg nok tzs sek cyp r sar cve rsd dm shp php cad ssp scr mvr DH Dh".split()
MONTHS = "jan feb mar apr jun jul aug sep oct nov dec".split()


def cases(words):
    """The words with their letters in either case."""
    out = set()
    for w in words:
        for k in range(2**len(w)):
            out.add("".join(c.upper() if k >> i & 1 else c.lower() for i, c in enumerate(w)))
    return sorted(out)



def word(slots, n, letters=LOW):
    k = len(slots)
    slots.extend(Enum(letters) for _ in range(n))
    return [Ref(i) for i in range(k, k + n)]


def spells(ks, slots, w):
    return g_and(*[g_in(k, [slots[k].values.index(c)]) for k, c in zip(ks, w)])


def none_of(ks, slots, words):
    return g_and(*[g_not(spells(ks, slots, w)) for w in words if len(w) == len(ks) and all(c in slots[k].values for k, c in zip(ks, w))])


def families(tier):
    big = tier == "thorough"
    fs = Families()
    add = fs.add
    raw = fs.out

    def fam(name, slots, inp, res, where=T, eps=WORDS):
        raw.append(("en_tn", {}, Fam(name, slots, [inp], [res], where=where, eps=eps)))

    listed = list(WHITELIST)
    # words
    for n in range(1, 7 if big else 5):
        s = []
        w = word(s, n)
        fam("any %d small letters" % n, s, w, w, none_of(range(n), s, listed))
    for n in range(1, 5 if big else 4):
        s = []
        w = word(s, n, ABC)
        fam("any %d letters" % n, s, w, w, none_of(range(n), s, listed))
    gaps = [" ", ", ", "; ", ": ", ". ", "! ", "? ", " - ", "-", " (", ") ", "... ", "'", "!? ", "--", " , ", "\u2019", "\u2014", "\u3002"]
    for n in (1, 2):
        s = []
        a, b = word(s, n), word(s, n)
        s.append(Enum(gaps))
        w = g_and(none_of(range(n), s, listed), none_of(range(n, 2 * n), s, listed))
        fam("two words of %d letters" % n, s, [a, Ref(2 * n), b], [a, Ref(2 * n), b], w)
    s = []
    a, b = word(s, 2), word(s, 2)
    s += [Enum(gaps), Enum(gaps)]
    fam("three words", s, [a, Ref(4), b, Ref(5), "then"], [a, Ref(4), b, Ref(5), "then"], g_and(none_of((0, 1), s, listed), none_of((2, 3), s, listed)))
    s = []
    a, b = word(s, 2), word(s, 2)
    s += [Enum(["  ", "   ", "\t", "\n", " \n "])]
    fam("wide blanks", s, [a, Ref(4), b], [a, " ", b], g_and(none_of((0, 1), s, listed), none_of((2, 3), s, listed)))
    s = []
    a, b = word(s, 2), word(s, 2)
    s += [Enum(["(", "\"", "<", "'", "{", "\u201c"]), Enum([")", "\"", ">", "'", "}", "\u201d", ".", "!", ")."])]
    fam("enclosed words", s, [Ref(4), a, " ", b, Ref(5)], [Ref(4), a, " ", b, Ref(5)], g_and(none_of((0, 1), s, listed), none_of((2, 3), s, listed)))
    # any character
    single = [w for w in listed if len(w) == 1]
    vulgar = list("\u00bc\u00bd\u00be\u2150\u2151\u2152\u2153\u2154\u2155\u2156\u2157\u2158\u2159\u215a\u215b\u215c\u215d\u215e")
    stop = single + vulgar + list("0123456789\"\\") + list(BLANKS)
    for a, b in (("", ""), ("he ", " go"), ("he ", ".")):
        fam("any character between %r %r" % (a, b), [Char(ALL, picks="a,é中")], [a, Ref(0), b], [a, Ref(0), b], g_not(char_is(0, stop + list("/=" + ".," * bool(b == ".")))))
    for n in (2, 3) if big else (2, ):
        s = [Char(ALL, picks="a,é中") for _ in range(n)]
        more = [w[i] for w in listed if len(w) == n for i in range(n)] if n == 2 else []
        fam("any %d characters" % n, s, [Ref(i) for i in range(n)], [Ref(i) for i in range(n)],
            g_and(*[g_not(char_is(i, stop + list("/=") + (list(ABC) if i else []))) for i in range(n)]))
    # listed
    order = sorted(listed)
    table = Enum(order, said=[WHITELIST[x] for x in order])
    fam("listed", [table], [Ref(0)], [Ref(0, "said")], eps=CLOSE)
    for a, b in (("see ", " go"), ("Zoe: ", " or"), ("(", " of")):
        skip = [i for i, x in enumerate(order) if x in ("~", ) or not x[0].isalpha()] if a == "(" else []
        fam("listed between %r %r" % (a, b), [table], [a, Ref(0), b], [a, Ref(0, "said"), b], g_not(g_in(0, skip)))
    for n in (3, 4):
        for dot in (".", ". "):
            for end in ("", "."):
                s = [Enum(LOW.upper()) for _ in range(n)]
                inp = [Ref(0)]
                for i in range(1, n):
                    inp += [dot, Ref(i)]
                fam("initials %d%s%s" % (n, dot, end), s, [inp, end], [Ref(i) for i in range(n)], eps=CLOSE)
    # codes
    for lead in (1, 2, 3):
        for n in (1, 2, 3):
            for sep in ("", "-"):
                s = []
                x = Number(s, lead, 0, top=None if big or lead < 3 else [100, 101, 110, 119, 200, 256, 305, 360, 512, 747, 999])
                said = x.read("bare") if lead > 1 else Alt((g_in(0, [0]), ["oh"]), (g_not(g_in(0, [0])), x.read("bare")))
                w = word(s, n, ABC if n < 3 or big else LOW.upper())
                ks = range(1, 1 + n)
                add("%d letters%s%d digits" % (n, sep, lead), s, [w, sep, x.inp], [w, sep or " ", said], words=n == 1 and lead == 2,
                    where=none_of(ks, s, cases(["no"] + (MONTHS if sep else MONEY))))
                bad = cases(u for u in UNITS if len(u) < 4)
                add("%d digits%s%d letters" % (lead, sep, n), s, [x.inp, sep, w], [said, sep or " ", w], where=g_and(none_of(ks, s, bad), g_not(g_in(1, [c for c, y in enumerate(s[1].values) if y in "xX"]))) if not sep else T)
    for k in (2, 3):
        s = [Enum(LOW.upper())] + [Enum("0123456789", oh=["oh"] + en.ONES[1:10]) for _ in range(k)]
        add("letter and 0%s" % ("d" * k), s, [Ref(0), "0", [Ref(i) for i in range(1, 1 + k)]], [Ref(0), " oh", [[" ", Ref(i, "oh")] for i in range(1, 1 + k)]])
    s = [Enum(LOW.upper())] + [Enum("0123456789", oh=["oh"] + en.ONES[1:10]) for _ in range(6)]
    add("letter and 6 digits", s, [Ref(0), [Ref(i) for i in range(1, 7)]], [Ref(0), [[" ", Ref(i, "oh")] for i in range(1, 7)]])
    s = []
    x, y = Number(s, 2, 0), Number(s, 2, 0)
    a, b = word(s, 1, LOW.upper()), word(s, 1, LOW.upper())
    add("AdBdd", s, [a, x.inp, b, y.inp], [a, " ", x.read("bare"), " ", b, " ", y.read("bare")])
    add("AddB", s[1:3], [Ref(1), Ref(0), Ref(1)], [Ref(1), " ", Ref(0, "bare"), " ", Ref(1)])
    add("A-dd-B", s[1:4], [Ref(1), "-", Ref(0), "-", Ref(2)], [Ref(1), "-", Ref(0, "bare"), "-", Ref(2)])
    return fs.out


FUNCTIONS = ["tn.english.rules.word.Word", "tn.english.rules.punctuation.Punctuation", "tn.english.rules.whitelist.WhiteList",
             "tn.english.rules.serial.Serial", "tn.english.normalizer.Normalizer.build_tagger_and_verbalizer"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 230,
                     "words of up to 4 small or 3 mixed letters (thorough 6, 4), two of 2 letters with 19 separators, any 1 or 2 Unicode characters (thorough 3), all listed "
                     "abbreviations and symbols, initials of 3 and 4 letters, codes of up to 3 letters and 3 digits",
                     FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
