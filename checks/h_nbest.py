"""Harnesses for Processor.normalize / normalize_with_mapping over stub graphs."""
from checks.h_token import canon_text

LETTERS = [(97, 122)]


def processor(ctx, orders=None):
    m = ctx.load("tn.processor")
    p = m.Processor("x", token_orders={} if orders is None else orders)
    vf = ctx.world.stubs["pynini"].vf
    p.tagger = vf.Graph("TAGGER")
    p.verbalizer = vf.Graph("VERBALIZER")
    return p, vf


def ranked(ctx, items, n, name):
    """The n best of items (already in weight order)."""
    return items[:n]


def model(ctx, nverbs, first, alphabet):
    """Tags with symbolic weights, each with weighted verbalizations."""
    tags = []
    prev = None
    for t, nv in enumerate(nverbs):
        w = ctx.real("tw%d" % t, -100, 100)
        if prev is not None:
            ctx.assume(prev <= w)
        prev = w
        fields = [("v", "abcdefgh"[t])]
        outs = []
        pv = None
        for v in range(nv):
            vw = ctx.real("vw%d_%d" % (t, v), -100, 100)
            if pv is not None:
                ctx.assume(pv <= vw)
            pv = vw
            o = ctx.str("out%d_%d" % (t, v), 1, alphabet)
            for o2, _ in outs:
                ctx.assume(o != o2)
            outs.append((o, vw))
        tags.append((canon_text([("tok", fields)]), w, outs))
    return tags


def reference(tags, nbest):
    """All joint candidates, best first; ties by tag rank, then output rank."""
    cands = []
    for tr, (_, tw, outs) in enumerate(tags):
        for vr, (o, vw) in enumerate(outs):
            cands.append((tw + vw - outs[0][1], tr, vr, o))
    # selection sort: comparisons fork where the order is not determined
    out = []
    rest = cands
    while rest and len(out) < nbest:
        best = rest[0]
        for c in rest[1:]:
            if c[0] < best[0]:
                best = c
        rest = [c for c in rest if c is not best]
        dup = False
        for o, _ in out:
            if o == best[3]:
                dup = True
        if not dup:
            out.append((best[3], best[0]))
    return out


def nbest(ctx, nverbs, n, raw_order=False, extra_space=False):
    p, vf = processor(ctx)
    tags = model(ctx, nverbs, None, LETTERS)
    calls = []

    def lookup(parts, k):
        calls.append((parts, k))
        if len(parts) == 2 and parts[1] == "TAGGER":
            ctx.check(ctx.eq(parts[0], "input"), "the text handed to the tagger is not the input")
            outs = [(t + (" " if extra_space else ""), w) for t, w, _ in tags]
            return vf.Shortest(None, outs[:k])
        if len(parts) == 2 and parts[1] == "VERBALIZER":
            for t, _, outs in tags:
                if ctx.eq(parts[0], t):
                    return vf.Shortest(None, outs[:k])
            ctx.fail("the verbalizer is applied to something that is no reordered tag")
        ctx.fail("unexpected composition")

    vf.holder.lookup = lookup
    want = reference(tags, n)
    try:
        got = p.normalize("input", nbest=n)
    except RuntimeError:
        ctx.check(not want, "normalization fails although a path exists")
        ctx.observe("got", "error")
        return
    ctx.check(bool(want), "normalization succeeds without a path")
    if n == 1:
        got = [got]
    ctx.observe("got", got)
    ctx.check(isinstance(got, list) and len(got) == len(want), "wrong number of candidates")
    for i in range(len(got)):
        for j in range(i):
            ctx.check(got[i] != got[j], "the same output is returned twice")
    ctx.check(ctx.eq(got, [o for o, _ in want]), "candidates are not the best joint outputs in weight order")


def deep(ctx, sizes, n, shared):
    """Many candidates: ladders of weights, one symbolic shift per further tag.

    ``shared`` outputs of every tag are spelled as in the first tag.
    """
    p, vf = processor(ctx)
    tags = []
    prev = None
    for t, k in enumerate(sizes):
        w = 0.0 if t == 0 else ctx.real("tw%d" % t, 0, 60)
        if prev is not None:
            ctx.assume(prev <= w)
        prev = w
        outs = [(("o%d" % v) if v % 3 < shared else "o%d_%d" % (t, v), 1.5 * v + 7) for v in range(k)]
        tags.append((canon_text([("tok", [("v", "abc"[t])])]), w, outs))

    def lookup(parts, k):
        if parts[1] == "TAGGER":
            return vf.Shortest(None, [(t, w) for t, w, _ in tags][:k])
        for t, _, outs in tags:
            if parts[0] == t:
                return vf.Shortest(None, outs[:k])
        ctx.fail("the verbalizer is applied to something that is no reordered tag")

    vf.holder.lookup = lookup
    got = p.normalize("input", nbest=n)
    want = reference(tags, n)
    ctx.check(len(got) == len(want), "wrong number of candidates")
    ctx.check(len(set(got)) == len(got), "the same output is returned twice")
    ctx.check(got == [o for o, _ in want], "candidates are not the best joint outputs in weight order")


def nbest_argument(ctx, kind):
    """Only positive integers are accepted, by every entry point."""
    p, vf = processor(ctx)
    tags = model(ctx, [2], None, LETTERS)

    def lookup(parts, k):
        if parts[1] == "TAGGER":
            return vf.Shortest(None, [(t, w) for t, w, _ in tags][:k])
        return vf.Shortest(None, tags[0][2][:k])

    vf.holder.lookup = lookup
    text = ctx.choice("text", ["", "input"])
    if kind == "int":
        n = ctx.int("n", -3, 4)
    elif kind == "bool":
        n = ctx.bool("n")
    else:
        n = {"none": None, "float": 2.0, "str": "2", "list": [1], "half": 1.5}[kind]
    good = kind == "int" and bool(n >= 1)
    for entry in ("normalize", "tag", "normalize_with_mapping"):
        if entry == "normalize_with_mapping" and text and good:
            continue
        bad = False
        got = None
        try:
            got = getattr(p, entry)(text, nbest=n)
        except ValueError:
            bad = True
        ctx.check(bad == (not good), entry + " accepts an nbest that is not a positive integer, or refuses one that is")
        if good and not text:
            if n == 1:
                one = got
            else:
                ctx.check(len(got) == 1, entry + " of empty text")
                one = got[0]
            if entry == "normalize_with_mapping":
                ctx.check(one.input_text == "" and one.output_text == "" and one.mappings == (), "empty text is not mapped to itself")
            else:
                ctx.check(one == "", entry + " of empty text is not empty")


def prefix_consistent(ctx, nverbs, n):
    """The n best are the first n of the n+1 best, and tag() lists tags best first."""
    p, vf = processor(ctx)
    tags = model(ctx, nverbs, None, LETTERS)

    def lookup(parts, k):
        if parts[1] == "TAGGER":
            return vf.Shortest(None, [(t, w) for t, w, _ in tags][:k])
        for t, _, outs in tags:
            if ctx.eq(parts[0], t):
                return vf.Shortest(None, outs[:k])
        ctx.fail("the verbalizer is applied to something that is no reordered tag")

    vf.holder.lookup = lookup
    try:
        a = p.normalize("input", nbest=n)
        b = p.normalize("input", nbest=n + 1)
    except RuntimeError:
        return
    if n == 1:
        a = [a]
    ctx.check(ctx.eq(a, b[:n]), "asking for more candidates changes the first ones")
    t1 = p.tag("input", nbest=n)
    t1 = [t1] if n == 1 else t1
    ctx.check(ctx.eq(t1, [t for t, _, _ in tags][:n]), "tag() does not list the best taggings in order")


# ------------------------------------------------------------------ mapping
SIZES = {1: [(1, 127)], 3: [(0x800, 0xD7FF), (0xE000, 0xFFFF)]}


def mapping(ctx, tokens, isizes, osizes, include_identity, nb=1, gaps=0):
    """A path with known token ownership is reported exactly.

    ``isizes``/``osizes`` give, per token, the byte sizes of the characters the
    token consumes and emits; ``gaps`` adds an unowned space between spoken
    tokens.
    """
    p, vf = processor(ctx)
    ntok = len(isizes)
    ins, outs, toks = [], [], []
    for t in range(ntok):
        src = ""
        for i, b in enumerate(isizes[t]):
            src = src + ctx.str("i%d_%d" % (t, i), 1, SIZES[b])
        for ch in src:
            ctx.assume(not bool(ch.isspace()))
            ctx.assume(ch != '"')
            ctx.assume(ch != "\\")
        dst = ""
        for i, b in enumerate(osizes[t]):
            dst = dst + ctx.str("o%d_%d" % (t, i), 1, SIZES[b])
        ins.append(src)
        outs.append(dst)
        toks.append((tokens[t], [("value", src)]))
    text = "".join(ins)
    tagged = canon_text(toks)
    sep = " " if gaps else ""
    spoken = sep.join(outs)

    # tagger: inserts the wire text around the copied characters
    arcs, n = {}, 0

    def arc(i, o):
        nonlocal n
        arcs[n] = [vf.Arc(i, o, n + 1)]
        n += 1

    for t, (name, fs) in enumerate(toks):
        for b in ((" " if t else "") + name + ' { value: "').encode("utf-8"):
            arc(0, b)
        for b in ins[t].encode("utf-8"):
            arc(b, b)
        for b in b'" }':
            arc(0, b)
    arcs[n] = []
    tpath = vf.Path(arcs, 0, tagged)
    # verbalizer: deletes the wire text, replaces the value
    arcs, n = {}, 0
    for t, (name, fs) in enumerate(toks):
        for b in (name + ' { value: "').encode("utf-8"):
            arc(b, 0)
        src = ins[t].encode("utf-8")
        dst = outs[t].encode("utf-8")
        for k in range(max(len(src), len(dst))):
            arc(src[k] if k < len(src) else 0, dst[k] if k < len(dst) else 0)
        for b in b'" }':
            arc(b, 0)
        if t + 1 < ntok:
            arc(32, 32 if gaps else 0)
    arcs[n] = []
    vpath = vf.Path(arcs, 0, spoken)
    other = "z" + spoken

    def lookup(parts, k):
        if parts[1] == "TAGGER":
            if len(parts) == 2:
                return vf.Shortest(None, [(tagged, 1.0)][:k])
            return vf.Shortest(tpath)
        if len(parts) == 2:
            cheap = [(other, 0.0), (spoken, 1.0)] if nb > 1 else [(spoken, 0.0)]
            return vf.Shortest(vpath, cheap[:k])
        if ctx.eq(parts[2], spoken):
            return vf.Shortest(vpath)
        if nb > 1 and ctx.eq(parts[2], other):
            first = {0: [vf.Arc(0, 122, 1)]}
            for s, a in vpath._arcs.items():
                first[s + 1] = [vf.Arc(x.ilabel, x.olabel, x.nextstate + 1) for x in a]
            return vf.Shortest(vf.Path(first, 0, other))
        ctx.fail("mapping is traced for another output than the candidate's")

    vf.holder.lookup = lookup
    result = p.normalize_with_mapping(text, nbest=nb, include_identity=include_identity)
    if nb == 1:
        results = [result]
        wants = [spoken]
    else:
        results = result
        wants = [other, spoken]
    ctx.check(len(results) == len(wants), "wrong number of mapped candidates")
    for r, want in zip(results, wants):
        lead = 1 if nb > 1 and want is other else 0
        ctx.check(ctx.eq(r.input_text, text), "input text of the result differs")
        ctx.check(ctx.eq(r.output_text, want), "output text of the result differs from the candidate")
        exp = []
        ipos, opos = 0, lead
        for t in range(ntok):
            i0, i1 = ipos, ipos + len(ins[t])
            o0, o1 = opos, opos + len(outs[t])
            if t == 0:
                o0 -= lead
            src, dst = ins[t], want[o0:o1]
            if ctx.eq(src, dst):
                kind = "equal"
            elif o0 == o1:
                kind = "delete"
            else:
                kind = "replace"
            if include_identity or kind != "equal":
                exp.append((kind, tokens[t], i0, i1, o0, o1, src, dst))
            ipos = i1
            opos = o1 + len(sep)
        got = [(g.kind, g.token_type, g.input_start, g.input_end, g.output_start, g.output_end, g.input_text, g.output_text)
               for g in r.mappings]
        ctx.observe("got", got)
        ctx.check(len(got) == len(exp), "wrong set of mappings is reported")
        for g, e in zip(got, exp):
            ctx.check(g[0] == e[0], "mapping kind is wrong")
            ctx.check(g[1] == e[1], "mapping token type is wrong")
            ctx.check(g[2:6] == e[2:6], "mapping offsets are wrong")
            ctx.check(ctx.eq(g[6], e[6]), "mapping input text is not the delimited input")
            ctx.check(ctx.eq(g[7], e[7]), "mapping output text is not the delimited output")
        d = r.as_dict()
        ctx.check(ctx.eq(d["input"], text) and ctx.eq(d["output"], want) and len(d["mappings"]) == len(exp), "dictionary form differs")
        for g, e in zip(d["mappings"], exp):
            ctx.check(g["kind"] == e[0] and g["token_type"] == e[1] and
                      (g["input"]["start"], g["input"]["end"], g["output"]["start"], g["output"]["end"]) == e[2:6],
                      "dictionary form of a mapping differs")
            ctx.check(ctx.all([ctx.eq(g["input"]["text"], e[6]), ctx.eq(g["output"]["text"], e[7])]),
                      "dictionary form of a mapping's text differs")
