"""English ITN: telephone, card and serial numbers, IP, e-mail and web addresses."""
from ref.enitn import WHITELIST
from ._enitncommon import en, Alt, Enum, Families, Ref, T, below, g_and, g_in, g_not, g_or, replay, run_check, table  # noqa: F401

SAID = ["o", "oh"] + en.ONES
ABC = "abcdefghijklmnopqrstuvwxyz"
CONTEXT = [("call ", " today"), ("( ", " )")]
SYMBOLS = {".": "dot", "-": "dash", "- ": "hyphen", "_": "underscore", "!": "exclamation mark", "#": "number sign", "$": "dollar sign", "%": "percent sign", "&": "ampersand",
           "*": "asterisk", "+": "plus", "/": "slash", "=": "equal sign", "?": "question mark", "^": "circumflex", "{": "left brace", "|": "vertical bar", "}": "right brace",
           "~": "tilde", ",": "comma"}


def one(slots, o=True):
    said = SAID if o else SAID[1:]
    slots.append(Enum(said, d=list("00" if o else "0") + [str(i) for i in range(10)]))
    return [Ref(len(slots) - 1)], [Ref(len(slots) - 1, "d")]


def row(slots, n, o=True):
    inp, out = [], []
    for i in range(n):
        a, b = one(slots, o)
        inp += [" "] * (i > 0) + a
        out.append(b)
    return inp, out


def letters(slots, n, alphabet=ABC):
    ks = []
    for _ in range(n):
        slots.append(Enum(alphabet))
        ks.append(len(slots) - 1)
    return ks


def spoken(ks):
    inp = []
    for i, k in enumerate(ks):
        inp += [" "] * (i > 0) + [Ref(k)]
    return inp


def spells(ks, slots, w):
    return g_and(*[g_in(k, [slots[k].values.index(c)]) for k, c in zip(ks, w)])


def none_of(ks, slots, words):
    return g_and(*[g_not(spells(ks, slots, w)) for w in words if len(w) == len(ks) and all(c in slots[k].values for k, c in zip(ks, w))])


def unlisted(ks, slots):
    """No listed name, unit or time of day inside."""
    out = []
    for w in list(WHITELIST) + ["c c", "p m", "a m", "a d", "b c", "c e"]:
        p = w.split(" ")
        for i in range(len(ks) - len(p) + 1):
            if all(x in slots[k].values for k, x in zip(ks[i:], p)):
                out.append(g_not(g_and(*[g_in(k, [slots[k].values.index(x)]) for k, x in zip(ks[i:], p)])))
    return g_and(*out)


def formatted(out, *sizes, sep="-"):
    res, i = [], 0
    for n in sizes:
        res += [sep] * (i > 0) + out[i:i + n]
        i += n
    return res


def families(tier):
    big = tier == "thorough"
    fs = Families()

    def add(name, slots, inp, res, where=T, context=False):
        fs.add(name, slots, inp, res, where, context, CONTEXT)

    for n in (3, 4, 5, 6, 7, 8):
        s = []
        i, o = row(s, n, n not in (3, 6))  # two o five is a time
        add("%d digits" % n, s, i, o, context=n in (3, 5))
    for sizes in ((3, 2, 4), (3, 3, 4)):
        s = []
        i, o = row(s, sum(sizes))
        add("number of %d digits" % sum(sizes), s, i, formatted(o, *sizes), context=True)
    for sizes in ((4, 6, 4), (4, 6, 5), (4, 4, 4, 4)):
        s = []
        i, o = row(s, sum(sizes))
        add("card of %d digits" % sum(sizes), s, i, formatted(o, *sizes, sep=" "), context=sum(sizes) == 16)
    for plus in ("", "plus "):
        for n in (1, 2, 3):
            s = []
            c, co = row(s, n)
            i, o = row(s, 10)
            add("%scountry code of %d digits" % (plus, n), s, [plus, c, " ", i], ["+" if plus else "", co, " ", formatted(o, 3, 3, 4)], context=plus and n == 2)
        s = [below(20, 99)]
        i, o = row(s, 10)
        add("%scountry code as a number" % plus, s, [plus, Ref(0), " ", i], ["+" if plus else "", Ref(0, "d"), " ", formatted(o, 3, 3, 4)])
    for where in (0, 3, 6, 8):
        s = []
        i, o = row(s, where)
        s.append(Enum(SAID, d=["00", "00"] + [str(x) * 2 for x in range(10)]))
        k = len(s) - 1
        j, p = row(s, 8 - where)
        digits = o + [[Ref(k, "d")]] + p  # the two digits of a double count as two
        text = i + [" "] * bool(where) + ["double ", Ref(k)] + [" "] * (where < 8) + j
        flat = o + [[Ref(k, "half")], [Ref(k, "half")]] + p
        s[k] = Enum(SAID, half=["0", "0"] + [str(x) for x in range(10)])
        add("double digit after %d" % where, s, text, formatted(flat, 3, 3, 4))
    for where in (0, 3, 7):
        s = []
        i, o = row(s, where)
        s.append(Enum(SAID, third=["0", "0"] + [str(x) for x in range(10)]))
        k = len(s) - 1
        j, p = row(s, 7 - where)
        text = i + [" "] * bool(where) + ["triple ", Ref(k)] + [" "] * (where < 7) + j
        add("triple digit after %d" % where, s, text, formatted(o + [[Ref(k, "third")]] * 3 + p, 3, 3, 4))
    for sizes in ((1, 1, 1, 1), (3, 3, 3, 3), (3, 1, 2, 1), (2, 3, 1, 3)) if not big else [(a, b, c, d) for a in (1, 2, 3) for b in (1, 3) for c in (1, 2) for d in (1, 2, 3)]:
        s, inp, res = [], [], []
        for n in sizes:
            i, o = row(s, n)
            inp += [" dot "] * bool(inp) + i
            res += ["."] * bool(res) + o
        add("address %s" % (sizes, ), s, inp, res, context=sizes == (3, 1, 2, 1))
    s, inp, res = [], [], []
    for _ in range(4):
        s += [below(20, 99)]
        inp += [" dot "] * bool(inp) + [Ref(len(s) - 1)]
        res += ["."] * bool(res) + [Ref(len(s) - 1, "d")]
    add("address of numbers", s, inp, res)
    # serial numbers
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            if n + m < 3:
                continue
            s = []
            ks = letters(s, n, ABC.replace("o", "").replace("a", "" if n == 1 else "a"))
            i, o = row(s, m, False)
            add("%d letters and %d digits" % (n, m), s, [spoken(ks), " ", i], [[Ref(k) for k in ks], o], where=unlisted(range(n + m), s), context=n == m == 2)
            s = []
            i, o = row(s, m, False)
            ks = letters(s, n, ABC.replace("o", ""))
            add("%d digits and %d letters" % (m, n), s, [i, " ", spoken(ks)], [o, [Ref(k) for k in ks]], where=unlisted(range(n + m), s))
    s = []
    ks = letters(s, 2, ABC.replace("o", "").replace("a", ""))
    i, o = row(s, 2, False)
    k2 = letters(s, 2, ABC.replace("o", ""))
    add("2 letters, 2 digits, 2 letters", s, [spoken(ks), " ", i, " ", spoken(k2)], [[Ref(k) for k in ks], o, [Ref(k) for k in k2]], where=unlisted(range(6), s))
    s = []
    ks = letters(s, 1, ABC.replace("o", "").replace("a", ""))
    s.append(below(13, 99))
    add("letter and number", s, [Ref(0), " ", Ref(1)], [Ref(0), Ref(1, "d")], context=True)
    # e-mail and web addresses
    for n, m in ((1, 1), (2, 2), (3, 1)):
        s = []
        u, d = letters(s, n), letters(s, m)
        s.append(Enum(["com", "org", "fr", "ai", "c o m"], out=["com", "org", "fr", "ai", "com"]))
        c = len(s) - 1
        add("e-mail of letters %d %d" % (n, m), s, [spoken(u), " at ", spoken(d), " dot ", Ref(c)], [[Ref(k) for k in u], "@", [Ref(k) for k in d], ".", Ref(c, "out")], context=n == 2)
        add("web address of letters %d %d" % (n, m), s, ["w w w dot ", spoken(u), " dot ", spoken(d), " dot ", Ref(c)],
            ["www.", [Ref(k) for k in u], ".", [Ref(k) for k in d], ".", Ref(c, "out")], context=n == 2)
        p = s + [Enum(["h t t p", "h t t p s"], out=["http", "https"])]
        add("web address with protocol %d %d" % (n, m), p, [Ref(c + 1), " colon slash slash ", spoken(u), " dot ", spoken(d), " dot ", Ref(c)],
            [Ref(c + 1, "out"), "://", [Ref(k) for k in u], ".", [Ref(k) for k in d], ".", Ref(c, "out")], context=n == 2)
        s = []
        u, d = letters(s, n), letters(s, m)
        sym = Enum(list(SYMBOLS.values()), out=[k.strip() for k in SYMBOLS])
        s.append(sym)
        w = len(s) - 1
        add("e-mail with symbol %d %d" % (n, m), s, [spoken(u), " ", Ref(w), " ", spoken(d), " at gmail dot com"], [[Ref(k) for k in u], Ref(w, "out"), [Ref(k) for k in d], "@gmail.com"])
    s = []
    ks = letters(s, 6)
    words = [[Ref(k) for k in ks[:3]], [Ref(k) for k in ks[3:]]]
    add("e-mail of words", s, [words[0], " at ", words[1], " dot com"], [words[0], "@", words[1], ".com"],
        where=g_and(none_of(ks[:3], s, ["dot", "one", "two", "six"]), none_of(ks[3:], s, ["dot", "one", "two", "six"])))
    s = []
    ks = letters(s, 2)
    i, o = row(s, 3)
    zero = g_and(*[g_not(g_in(k, [0, 1])) for k in range(2, 5)])
    add("e-mail with digits", s, [spoken(ks), " ", i, " at gmail dot com"], [[Ref(k) for k in ks], o, "@gmail.com"], where=zero, context=True)
    return fs.out


FUNCTIONS = ["itn.english.rules.telephone.Telephone", "itn.english.rules.electronic.Electronic", "itn.english.rules.whitelist.Whitelist",
             "itn.english.inverse_normalizer.InverseNormalizer (weights, composition)", "tn.token_parser.TokenParser.reorder", "itn/english/data (tables)"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 400,
        "all digits of numbers of 3-8, 9, 10, 14, 15 and 16 digits, country codes of up to 3, double and triple digits, addresses, serials of up to 3 letters and 3 digits, "
        "e-mail and web addresses of up to 3 free letters and one symbol word", FUNCTIONS,
        ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
