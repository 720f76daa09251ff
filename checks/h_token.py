"""Harnesses for the tagged-token wire format (tn/token_parser.py)."""
import string

LETTERS = [(65, 90), (95, 95), (97, 122)]
WS = string.whitespace


def esc(v):
    """Reference escaping of a raw field value."""
    out = ""
    for ch in v:
        if ch == "\\":
            out = out + "\\\\"
        elif ch == '"':
            out = out + '\\"'
        else:
            out = out + ch
    return out


def wire_token(name, fields, gaps=None):
    """name { k: "v" ... }  with extra spaces before each field and the brace."""
    out = name + " { "
    first = True
    for i, (k, v) in enumerate(fields):
        if not first:
            out = out + " "
        first = False
        if gaps:
            out = out + " " * gaps[i]
        out = out + k + ': "' + esc(v) + '"'
    if fields:
        out = out + " "
    if gaps:
        out = out + " " * gaps[len(fields)]
    return out + "}"


def token_list(parser):
    """What a consumer of the parser reads: name and ordered fields."""
    return [(t.name, [(k, t.members[k]) for k in t.order]) for t in parser.tokens]


def make(ctx, shape, keys=None):
    toks = []
    for i, (nl, fields) in enumerate(shape):
        name = ctx.str("name%d" % i, nl, LETTERS)
        fs = []
        for j, (kl, vl) in enumerate(fields):
            k = ctx.str("key%d_%d" % (i, j), kl, LETTERS)
            pad, vl = vl if isinstance(vl, (tuple, list)) else (0, vl)
            v = "w" * pad + ctx.str("val%d_%d" % (i, j), vl)
            for k2, _ in fs:
                ctx.assume(k != k2)
            fs.append((k, v))
        toks.append((name, fs))
    return toks


def roundtrip(ctx, shape, gap=0, dirty=False):
    m = ctx.load("tn.token_parser")
    toks = make(ctx, shape)
    texts = []
    for i, (name, fs) in enumerate(toks):
        gaps = [gap] * (len(fs) + 1) if gap else None
        texts.append(wire_token(name, fs, gaps))
    wire = (" " * gap) + (" " + " " * gap).join(texts) + " " * gap
    parser = m.TokenParser({})
    if dirty:
        # an earlier, failed or successful, parse leaves nothing behind
        junk = ctx.str("junk", dirty)
        try:
            parser.parse('old { zz: "' + junk)
        except ValueError:
            pass
    parser.parse(wire)
    got = token_list(parser)
    ctx.observe("tokens", got)
    ctx.check(len(got) == len(toks), "number of parsed tokens differs")
    for (n, fs), (gn, gfs) in zip(toks, got):
        ctx.check(ctx.eq(gn, n), "parsed token name differs")
        ctx.check(len(gfs) == len(fs), "number of parsed fields differs")
        ctx.check(ctx.eq([k for k, _ in gfs], [k for k, _ in fs]), "parsed field keys or their order differ")
        ctx.check(ctx.eq([v for _, v in gfs], [v for _, v in fs]), "parsed field value differs from the serialized one")
    for t, (n, fs) in zip(parser.tokens, toks):
        ctx.check(set(map(len, t.members)) == set(len(k) for k, _ in fs) and len(t.members) == len(fs),
                  "token members differ from its fields")
    # spans in the source text
    for t, text in zip(parser.tokens, texts):
        ctx.check(ctx.eq(wire[t.start:t.end], text), "token source span is not the token's text")
    # re-serialization (no canonical order applies) is the canonical text, a fixpoint
    out, spans = m.TokenParser({}).reorder_with_spans(wire)
    ctx.check(ctx.eq(out, canon_text(toks)), "re-serialized stream differs")
    ctx.check(ctx.eq(m.TokenParser({}).reorder(out), out), "re-serialization is not a fixpoint")
    ctx.check(ctx.eq(m.escape_value(toks[0][1][0][1]) if toks and toks[0][1] else "", esc(toks[0][1][0][1]) if toks and toks[0][1] else ""),
              "escaping a value differs from the wire encoding")


def join(parts):
    return " ".join(parts)


def canon_text(toks):
    """Canonical serialization: single spaces, empty tokens as 'name { }'."""
    parts = []
    for n, fs in toks:
        t = n + " {"
        for k, v in fs:
            t = t + " " + k + ': "' + esc(v) + '"'
        parts.append(t + " }")
    return join(parts)


# ------------------------------------------------------------------ reorder
def expected_order(name, fields, orders):
    order = None
    for n, ks in orders:
        if n == name:
            order = ks
    if order is None:
        return fields
    for k, v in fields:
        if k == "preserve_order" and v == "true":
            return fields
    out = []
    for k in order:
        for fk, v in fields:
            if fk == k:
                out.append((fk, v))
    for fk, v in fields:
        inside = False
        for k in order:
            if fk == k:
                inside = True
        if not inside:
            out.append((fk, v))
    return out


def reorder(ctx, ntok, nfields, norder, vlen=1, preserve=None, gap=0):
    """Symbolic keys, canonical order and values; every equality pattern."""
    m = ctx.load("tn.token_parser")
    onames = ctx.str("oname", 1, LETTERS)
    order = [ctx.str("o%d" % i, 1, LETTERS) for i in range(norder)]
    for i in range(norder):
        for j in range(i):
            ctx.assume(order[i] != order[j])
    canon = list(order)
    if preserve is not None and preserve.get("in_order") is not None:
        canon.insert(preserve["in_order"], "preserve_order")
    toks = []
    for t in range(ntok):
        name = ctx.str("name%d" % t, 1, LETTERS)
        fs = []
        for f in range(nfields):
            k = ctx.str("k%d_%d" % (t, f), 1, LETTERS)
            for k2, _ in fs:
                ctx.assume(k != k2)
            fs.append((k, ctx.str("v%d_%d" % (t, f), vlen)))
        if preserve is not None:
            fs.insert(preserve["at"], ("preserve_order", ctx.str("p%d" % t, preserve["len"], preserve.get("chars"))))
        toks.append((name, fs))
    wire = join([wire_token(n, fs, [gap] * (len(fs) + 1)) for n, fs in toks])
    orders = [(onames, canon)]
    parser = m.TokenParser(mk_orders(ctx, orders))
    out, spans = parser.reorder_with_spans(wire)
    ctx.observe("out", out)
    ctx.observe("spans", list(spans))
    want = [(n, expected_order(n, fs, orders)) for n, fs in toks]
    ctx.check(ctx.eq(out, canon_text(want)), "reordered stream is not the canonical permutation of its fields")
    ctx.check(len(spans) == len(want), "one span per token")
    pos = 0
    for (s, e), tok in zip(spans, want):
        text = canon_text([tok])
        ctx.check(ctx.eq(out[s:e], text), "reported span does not delimit its token in the reordered text")
        ctx.check(s == pos, "spans are not contiguous up to the separator")
        pos = e + 1
    ctx.check(pos == len(out) + 1, "spans do not cover the reordered text")
    ctx.check(ctx.eq(parser.reorder(wire), out), "the two reordering entry points disagree")
    again = m.TokenParser(mk_orders(ctx, orders)).reorder(out)
    ctx.check(ctx.eq(again, out), "reordering is not idempotent")


def mk_orders(ctx, orders):
    return {n: list(ks) for n, ks in orders}


def long_stream(ctx, ntok, nfields, vlen):
    """Many tokens and fields, long values, one symbolic character in each."""
    m = ctx.load("tn.token_parser")
    toks = []
    for t in range(ntok):
        fs = []
        for f in range(nfields):
            sym = f == t % nfields and t in (0, ntok // 2, ntok - 1)
            v = "v" * (vlen // 2) + (ctx.str("c%d" % t, 1) if sym else "q") + "z" * (vlen - vlen // 2)
            fs.append((alpha(f), v))
        toks.append(("tok" + alpha(t), fs))
    wire = canon_text(toks)
    p = m.TokenParser({})
    p.parse(wire)
    got = token_list(p)
    ctx.check(ctx.eq([n for n, _ in got], [n for n, _ in toks]), "parsed token name differs")
    ctx.check(ctx.eq([[k for k, _ in f] for _, f in got], [[k for k, _ in f] for _, f in toks]),
              "parsed field keys or their order differ")
    ctx.check(ctx.eq([[v for _, v in f] for _, f in got], [[v for _, v in f] for _, f in toks]),
              "parsed field value differs from the serialized one")
    out, spans = m.TokenParser({}).reorder_with_spans(wire)
    ctx.check(ctx.eq(out, wire), "re-serialized stream differs")
    ctx.check(len(spans) == ntok, "one span per token")
    for (s, e), t in zip(spans, toks):
        ctx.check(ctx.eq(out[s:e], canon_text([t])), "reported span does not delimit its token in the reordered text")


def alpha(n):
    s = ""
    while True:
        s = chr(97 + n % 26) + s
        n = n // 26
        if n == 0:
            return s + "_"


# ------------------------------------------------------------------ malformed
class Bad(Exception):
    pass


def ref_parse(s):
    """Reference grammar:  stream := (sp* token)* sp* ; token := name ' { ' (sp* field)* sp* '}'."""
    n = len(s)
    if n == 0:
        raise Bad()
    i = 0
    toks = []

    def spaces(i):
        while i < n and s[i] == " ":
            i += 1
        return i

    def word(i):
        j = i
        while j < n and (("a" <= s[j]) & (s[j] <= "z") | ("A" <= s[j]) & (s[j] <= "Z") | (s[j] == "_")):
            j += 1
        if j == i:
            raise Bad()
        return s[i:j], j

    def lit(i, t):
        if i + len(t) > n or s[i:i + len(t)] != t:
            raise Bad()
        return i + len(t)

    while True:
        i = spaces(i)
        if i >= n:
            return toks
        start = i
        name, i = word(i)
        i = lit(i, " { ")
        fields = []
        while True:
            i = spaces(i)
            if i >= n:
                raise Bad()
            if s[i] == "}":
                i += 1
                break
            key, i = word(i)
            i = lit(i, ': "')
            val = ""
            while True:
                if i >= n:
                    raise Bad()
                ch = s[i]
                if ch == '"':
                    i += 1
                    break
                if ch == "\\":
                    if i + 1 >= n:
                        raise Bad()
                    nx = s[i + 1]
                    if nx == '"':
                        val = val + '"'
                    elif nx == "\\":
                        val = val + "\\"
                    else:
                        val = val + "\\" + nx
                    i += 2
                else:
                    val = val + ch
                    i += 1
            for k, _ in fields:
                if k == key:
                    raise Bad()
            fields.append((key, val))
        toks.append((name, fields, start, i))


def malformed(ctx, n, head="", tail="", before=()):
    m = ctx.load("tn.token_parser")
    s = head + ctx.str("s", n) + tail if n else head + tail
    if ctx.params.get("whole") and n == 0:
        s = ""
    want = None
    try:
        want = ref_parse(s)
    except Bad:
        pass
    parser = m.TokenParser({})
    for earlier in before:
        # what was parsed before on this parser, well-formed or not, has no influence
        try:
            parser.parse(s if earlier is None else earlier)
        except ValueError:
            pass
    got = None
    try:
        parser.parse(s)
        got = token_list(parser)
    except m.TokenParseError:
        pass
    ctx.observe("got", got)
    if want is None:
        ctx.check(got is None, "a malformed token stream is accepted")
        return
    ctx.check(got is not None, "a well-formed token stream is rejected")
    ctx.check(len(got) == len(want), "number of parsed tokens differs")
    for (n1, fs, st, en), (gn, gfs) in zip(want, got):
        ctx.check(ctx.eq(gn, n1), "parsed token name differs")
        ctx.check(ctx.eq([k for k, _ in gfs], [k for k, _ in fs]), "parsed field keys or their order differ")
        ctx.check(ctx.eq([v for _, v in gfs], [v for _, v in fs]), "parsed field value differs")
    for t, (n1, fs, st, en) in zip(parser.tokens, want):
        ctx.check((t.start == st) and (t.end == en), "token source span differs")


def duplicate(ctx, nfields, a, b, vlen, ntok=1):
    """The same key twice in one token is rejected wherever it stands."""
    m = ctx.load("tn.token_parser")
    key = ctx.str("key", 2, LETTERS)
    toks = []
    for t in range(ntok):
        fs = []
        for f in range(nfields):
            k = key if t == ntok - 1 and f in (a, b) else alpha(f)
            fs.append((k, ctx.str("v%d_%d" % (t, f), vlen)))
        toks.append(("tok", fs))
    wire = join([wire_token(n, fs) for n, fs in toks])
    for entry in ("parse", "reorder", "reorder_with_spans"):
        bad = False
        try:
            getattr(m.TokenParser("tn"), entry)(wire)
        except m.TokenParseError:
            bad = True
        ctx.check(bad, "a duplicated field is accepted")
