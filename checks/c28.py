"""English TN: measures, addresses, telephone, IP and social security numbers, mail addresses and URLs."""
from vf.family import run_check, replay  # noqa: F401
from ._encommon import DOTLESS, Alt, Enum, Families, Number, Ref, en, g_and, g_in, g_not, g_or

D = "0123456789"
UNITS = en.UNITS
PROMPTS = {"call me at": "call me at", "reach at": "reach at", "reached at": "reached at", "my number is": "my number is", "hit me up at": "hit me up at",
           "phone": "phone", "or": "or"}
SAID = {".com": "dot com", ".org": "dot org", ".gov": "dot gov", ".net": "dot net", ".uk": "dot UK", ".fr": "dot FR", ".br": "dot BR", ".in": "dot IN",
        ".ru": "dot RU", ".de": "dot DE", ".it": "dot IT"}
MARK = {".": "dot", "-": "dash", "_": "underscore"}
LOW = "abcdefghijklmnopqrstuvwxyz"


def unit_slot(names=None, big=False):
    v, one, many = [], [], []
    for u in names or UNITS:
        o, m = UNITS[u]
        forms = [u] + ([u.upper(), u.capitalize()] if names is None and u.isascii() and u.isalpha() else []) + (["kHz", "MHz", "GHz", "kWh", "dB", "kPa", "mL", "KHz"] if u == "khz" else [])
        for f in forms:
            key = f.lower()
            if f in v or len(f) != len(u) and u != "khz" or key not in UNITS or (len(u) < 2 and f != u):
                continue
            v.append(f)
            one.append(UNITS[key][0])
            many.append(UNITS[key][1])
    return Enum(v, one=one, many=many)


def spelled(ks, m="said", sep=" "):
    out = []
    for i, k in enumerate(ks):
        out += [sep] * (i > 0) + [Ref(k, m)]
    return out


class Digits:

    def __init__(self, slots, n):
        self.ks = []
        for _ in range(n):
            slots.append(Enum(D, said=en.ONES[:10]))
            self.ks.append(len(slots) - 1)
        self.inp = [Ref(k) for k in self.ks]
        self.said = spelled(self.ks)


def families(tier):
    big = tier == "thorough"
    fs = Families()
    add = fs.add
    # measures
    shapes = [(1, 0, False), (2, 0, False), (3, 0, False), (1, 1, False), (1, 1, True)] + ([(2, 1, True), (3, 1, False)] if big else [])
    few = ["kg", "cm", "km", "min", "°C", "ft", "sq ft", "lb"]
    for lead, groups, comma in shapes:
        for sp in ("", " "):
            if groups and sp == "" and not big:
                continue
            s = []
            x = Number(s, lead, groups, comma)
            one = g_in(x.k[0], [1]) if lead == 1 and not groups else None
            s.append(Enum(["", "-"], said=["", "negative "]))
            n = len(s)
            s.append(unit_slot() if not groups else unit_slot(few))
            s_unit = [" ", Ref(n, "many") if one is None else Alt((one, [Ref(n, "one")]), (g_not(one), [Ref(n, "many")]))]
            add("%d+%dx3 digits%s and%s unit" % (lead, groups, " with comma" * comma, " blank and" * bool(sp)), s, [Ref(n - 1), x.inp, sp, Ref(n)],
                [Ref(n - 1, "said"), x.read(), s_unit])
    s = []
    x = Number(s, 1, 0)
    s.append(unit_slot(few))
    one = g_in(x.k[0], [1])
    add("some measures", s, [x.inp, " ", Ref(1)], [x.read(), " ", Alt((one, [Ref(1, "one")]), (g_not(one), [Ref(1, "many")]))], context=True, words=True)
    for lead, k in ((1, 1), (2, 2), (3, 1)):
        s = []
        x = Number(s, lead, 0)
        f = []
        for _ in range(k):
            s.append(Enum(D, oh=["oh"] + en.ONES[1:10]))
            f.append(len(s) - 1)
        s.append(Enum(["", "-"], said=["", "minus "]))
        s.append(unit_slot(None if lead == 1 or big else few))
        s.append(Enum(["", " "]))
        n = len(s)
        add("%d.%d digits and unit" % (lead, k), s, [Ref(n - 3), x.inp, ".", [Ref(i) for i in f], Ref(n - 1), Ref(n - 2)],
            [Ref(n - 3, "said"), x.read(), " point ", spelled(f, "oh"), " ", Ref(n - 2, "many")])
    s = []
    x = Number(s, 2, 0)
    s += [unit_slot(few), unit_slot(["kg", "km", "m2", "cm2", "cm", "min", "oz", "lb", "mi"]), Enum(["/", " / ", "/ ", " /"])]
    add("rates", s, [x.inp, " ", Ref(1), Ref(3), Ref(2)], [x.read(), " ", Ref(1, "many"), " per ", Ref(2, "one")])
    for la, lb in ((1, 1), (2, 2), (2, 3)):
        for op, said in (("-", " to "), (" - ", " to "), ("x", " by "), (" x ", " by "), ("*", " times ")):
            s = []
            a, b = Number(s, la, 0), Number(s, lb, 0)
            s.append(unit_slot(None if big else few))
            add("%d%s%d unit" % (la, op, lb), s, [a.inp, op, b.inp, " ", Ref(2)], [a.read(), said, b.read(), " ", Ref(2, "many")])
    s = []
    x = Number(s, 2, 0)
    s += [Enum(D, oh=["oh"] + en.ONES[1:10]), Enum(["AM", "FM"])]
    add("radio", s, [x.inp, ".", Ref(1), " ", Ref(2)], [x.read(), " point ", Ref(1, "oh"), " ", Ref(2)])
    # telephone numbers
    n10 = ["ddd-ddd-dddd", "ddd.ddd.dddd", "(ddd) ddd-dddd", "(ddd)ddd-dddd", "(ddd)-ddd-dddd"]
    for form in n10:
        for pre in ("", "+d ", "+d-", "+dd ", "+ddd ", "d-", "prompt "):
            if pre and form not in n10[:1] + n10[2:3] and not big:
                continue
            if form[0] == "(" and pre in ("+d-", "d-"):
                continue
            s = []
            head, read = [], []
            cc = Digits(s, pre.count("d"))
            if pre == "prompt ":
                s.append(Enum(sorted(PROMPTS)))
                head, read = [Ref(0), " "], [Ref(0), " "]
            elif pre:
                head = [pre[:1] if pre[0] == "+" else "", cc.inp, pre[-1]]
                read = ["plus " if pre[0] == "+" else "", cc.said, ", "]
            a, b, c = Digits(s, 3), Digits(s, 3), Digits(s, 4)
            area = [i for i in a.ks]
            free = g_and(g_in(area[0], [8]), g_in(area[1], [0]), g_in(area[2], [0]))
            inp = [form[:1] if form[0] == "(" else "", a.inp, form[3:].lstrip("d").split("d")[0], b.inp, form[-5], c.inp]
            add("%s%s" % (pre, form), s, [head, inp],
                [read, Alt((free, ["eight hundred"]), (g_not(free), [a.said])), ", ", b.said, ", ", c.said])
    s = [Enum(["123-456-7890", "800-555-0100", "999-000-1111"], said=["one two three, four five six, seven eight nine zero",
         "eight hundred, five five five, zero one zero zero", "nine nine nine, zero zero zero, one one one one"])]
    add("some telephone numbers", s, [Ref(0)], [Ref(0, "said")], context=True, words=True)
    s = []
    a, b, c, e = Digits(s, 3), Digits(s, 3), Digits(s, 4), Digits(s, 3)
    not8 = g_not(g_in(0, [8]))
    for k in (1, 2, 3):
        add("extension %d" % k, s[:10 + k], [a.inp, "-", b.inp, "-", c.inp, "-", e.inp[:k]],
            [a.said, ", ", b.said, ", ", c.said, ", ", spelled(e.ks[:k])], where=not8)
    s = []
    a, b, c = Digits(s, 3), Digits(s, 2), Digits(s, 4)
    s.append(Enum(["", "ssn is ", "SSN is ", "number "], said=["", "SSN is ", "SSN is ", "number "]))
    add("social security number", s, [Ref(9), a.inp, "-", b.inp, "-", c.inp], [Ref(9, "said"), a.said, ", ", b.said, ", ", c.said])
    s = []
    byte = ["%d" % v for v in range(256)]
    short = byte if big else ["0", "1", "9", "10", "38", "64", "100", "127", "168", "192", "200", "254", "255"]
    word = lambda v: [" ".join(en.ONES[int(c)] for c in x) for x in v]
    s = [Enum(short, said=word(short)), Enum(short, said=word(short)), Enum(byte, said=word(byte)), Enum(byte, said=word(byte)),
         Enum(["", "IP is ", "IP address is ", "see "])]
    add("ip", s, [Ref(4), Ref(0), ".", Ref(1), ".", Ref(2), ".", Ref(3)],
        [Ref(4), Ref(0, "said"), " dot ", Ref(1, "said"), " dot ", Ref(2, "said"), " dot ", Ref(3, "said")])
    # mail addresses and URLs
    letters = lambda n: [Enum(LOW) for _ in range(n)]
    dom = sorted(SAID)
    doms = Enum(dom, said=[SAID[x] for x in dom])
    mark = Enum(sorted(MARK), said=[MARK[x] for x in sorted(MARK)])
    for n in (1, 2):
        k = 2 * n
        s = letters(k) + [doms]
        add("mail %d" % n, s, [[Ref(i) for i in range(n)], "@", [Ref(i) for i in range(n, k)], Ref(k)],
            [[Ref(i) for i in range(n)], " at ", [Ref(i) for i in range(n, k)], " ", Ref(k, "said")], words=n == 1, sentence=DOTLESS)
        s = letters(k) + [doms, mark] + letters(1)
        add("mail %d mark" % n, s, [[Ref(i) for i in range(n)], Ref(k + 1), Ref(k + 2), "@", [Ref(i) for i in range(n, k)], Ref(k)],
            [[Ref(i) for i in range(n)], " ", Ref(k + 1, "said"), " ", Ref(k + 2), " at ", [Ref(i) for i in range(n, k)], " ", Ref(k, "said")])
        s = letters(n) + [doms]
        start = Enum(["www.", "http://", "https://", "http://www.", "https://www."],
                     said=["WWW dot ", "HTTP colon slash slash ", "HTTPS colon slash slash ", "HTTP colon slash slash WWW dot ",
                           "HTTPS colon slash slash WWW dot "])
        name = [Ref(i) for i in range(n)]
        add("domain %d" % n, s, [name, Ref(n)], [name, " ", Ref(n, "said")], words=n == 1, sentence=DOTLESS)
        s = s + [start]
        add("url %d" % n, s, [Ref(n + 1), name, Ref(n)], [Ref(n + 1, "said"), name, " ", Ref(n, "said")])
        s = s + [Enum(LOW)]
        add("url %d with path" % n, s, [Ref(n + 1), name, Ref(n), "/", Ref(n + 2)],
            [Ref(n + 1, "said"), name, " ", Ref(n, "said"), " slash ", Ref(n + 2)])
    s = letters(2) + [doms]
    x = Number(s, 2, 0)
    add("mail with number", s, [Ref(0), x.inp, "@", Ref(1), Ref(2)], [Ref(0), " ", x.read(), " at ", Ref(1), " ", Ref(2, "said")])
    return fs.out


FUNCTIONS = ["tn.english.rules.measure.Measure", "tn.english.rules.telephone.Telephone", "tn.english.rules.electronic.Electronic",
             "tn.english.normalizer.Normalizer.build_tagger_and_verbalizer", "tn.token_parser.TokenParser.reorder"]


def run(tier):
    return run_check(families(tier), 800 if tier == "thorough" else 230,
                     "the listed units with one reading after integers up to 3 digits (4 for eight of them), decimals up to 3+2 digits and ranges, rates of 8 by 9 units, "
                     "all 10-digit telephone numbers with country codes up to 3 digits and extensions up to 3, IP and social security numbers, "
                     "mail addresses and URLs with up to 3 free letters per part and 11 top-level domains",
                     FUNCTIONS, ["the library's shortest-path search returns a cheapest path (replayed on the counterexamples)"])
