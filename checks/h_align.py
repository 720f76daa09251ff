"""Harnesses for tn/alignment.py: span tracing over an arbitrary path."""

SIZES = {
    1: [(1, 0x7F)],
    2: [(0x80, 0x7FF)],
    3: [(0x800, 0xD7FF), (0xE000, 0xFFFF)],
    4: [(0x10000, 0x10FFFF)],
}
C, E, CE, EPS = "c", "e", "ce", "eps"


def text_of(ctx, name, sizes):
    out = ""
    for i, b in enumerate(sizes):
        out = out + ctx.str("%s%d" % (name, i), 1, SIZES[b])
    return out


def boundaries(sizes):
    b = [0]
    for s in sizes:
        b.append(b[-1] + s)
    return b


def spaces(text, sizes):
    out = []
    for ch, s in zip(text, sizes):
        out.extend([bool(ch.isspace())] * s)
    return out


def symbolic_path(ctx, stub, intext, outtext, neps=0, arcs=None):
    """Every way to interleave consuming intext with emitting outtext."""
    ib = intext.encode("utf-8")
    ob = outtext.encode("utf-8")
    i = o = k = 0
    steps = []
    while i < len(ib) or o < len(ob):
        opts = []
        if i < len(ib):
            opts.append(C)
        if o < len(ob):
            opts.append(E)
        if i < len(ib) and o < len(ob):
            opts.append(CE)
        if neps > 0:
            opts.append(EPS)
        kind = ctx.choice("step%d" % k, opts)
        k += 1
        if kind == EPS:
            neps -= 1
        steps.append((kind, i, o))
        if kind in (C, CE):
            i += 1
        if kind in (E, CE):
            o += 1
    arcs = {}
    for n, (kind, a, b) in enumerate(steps):
        arcs[n] = [stub.Arc(ib[a] if kind in (C, CE) else 0, ob[b] if kind in (E, CE) else 0, n + 1)]
    arcs[len(steps)] = []
    return stub.Path(arcs, 0, outtext), steps


def symbolic_spans(ctx, name, k, n, least=1):
    """k character spans, in order, of at least the given length."""
    spans = []
    prev = 0
    for j in range(k):
        s = ctx.choice("%s_s%d" % (name, j), range(prev, n + 1 - least * (k - j)))
        e = ctx.choice("%s_e%d" % (name, j), range(s + least, n + 1 - least * (k - j - 1)))
        spans.append((s, e))
        prev = e
    return spans


NONE = "AlignmentError"


# ------------------------------------------------------------- verbalizer side
def ref_emitted(steps, ispans, ob, ospace, obnd):
    """Output spans (characters) of the input byte spans, or NONE.

    Output emitted while inside a token belongs to it (output before the first
    token's first input byte counts as inside); at a boundary whitespace is
    unowned and anything else belongs to the token before it; a token without
    output gets the empty span at the output position reached at its start.
    """
    owner_of = {}
    reached = {0: 0}
    for kind, i, o in steps:
        reached[i] = o
        emits = kind in (E, CE)
        if not emits:
            continue
        inside = None
        for t, (s, e) in enumerate(ispans):
            if kind == CE:
                if s <= i < e:
                    inside = t
            elif s < i < e or (t == 0 and i == s):
                inside = t
        if inside is None and kind == E and not ospace[o]:
            before = [t for t, (s, e) in enumerate(ispans) if e <= i]
            after = [t for t, (s, e) in enumerate(ispans) if s <= i < e]
            if before:
                inside = before[-1]
        if inside is not None:
            owner_of[o] = inside
    if steps:
        kind, i, o = steps[-1]
        reached[i + (1 if kind in (C, CE) else 0)] = o + (1 if kind in (E, CE) else 0)
    out = []
    prev = 0
    for t, (s, e) in enumerate(ispans):
        mine = [o for o in sorted(owner_of) if owner_of[o] == t]
        if mine:
            a, b = mine[0], mine[-1] + 1
            if a < prev:
                return NONE
        else:
            a = b = max(reached[s], prev)
        if a not in obnd or b not in obnd:
            return NONE
        out.append((obnd.index(a), obnd.index(b)))
        prev = b
    return out


def emitted(ctx, isizes, osizes, ntok, neps=0, given=False):
    a = ctx.load("tn.alignment")
    stub = ctx.world.stubs["pynini"].vf
    intext = text_of(ctx, "i", isizes)
    outtext = text_of(ctx, "o", osizes)
    path, steps = symbolic_path(ctx, stub, intext, outtext, neps)
    spans = symbolic_spans(ctx, "t", ntok, len(isizes))
    ospace = spaces(outtext, osizes)
    stub.holder.path = path
    got = None
    try:
        got = a.transduce_with_spans(intext, stub.FST, spans, output_text=outtext if given else None)
    except a.AlignmentError:
        got = NONE
    ibnd, obnd = boundaries(isizes), boundaries(osizes)
    want = ref_emitted(steps, [(ibnd[s], ibnd[e]) for s, e in spans], None, ospace, obnd)
    ctx.observe("got", got)
    if want == NONE:
        ctx.check(got == NONE, "an untraceable verbalization is mapped instead of refused")
        return
    ctx.check(got != NONE, "a traceable verbalization is refused")
    text, ospans = got
    ctx.check(ctx.eq(text, outtext), "returned text is not the selected path's output")
    ospans = [tuple(x) for x in ospans]
    prev = 0
    for s, e in ospans:
        ctx.check(prev <= s <= e <= len(osizes), "output spans overlap, are out of order or out of range")
        prev = e
    ctx.check(ospans == want, "a token's output span is not what the path emitted for it")


# ------------------------------------------------------------- tagger side
def ref_consumed(steps, ospans, ispace, ibnd):
    first = [None] * len(ospans)
    last = [None] * len(ospans)
    for kind, i, o in steps:
        if kind not in (C, CE):
            continue
        live = [t for t, (s, e) in enumerate(ospans) if e > o]
        if not live:
            continue
        t = live[0]
        s, e = ospans[t]
        mine = False
        if s <= o < e and (o > s or kind == CE):
            # consumed while the token's text is being emitted; whitespace
            # deleted before its first written character stays outside
            mine = not (kind == C and ispace[i] and first[t] is None)
        elif kind == CE and o + 1 == s and not ispace[i]:
            # consumed together with the separator in front of the token
            mine = True
        if mine:
            if first[t] is None:
                first[t] = i
            last[t] = i + 1
    out = []
    for a, b in zip(first, last):
        if a is None or a not in ibnd or b not in ibnd:
            return NONE
        out.append((ibnd.index(a), ibnd.index(b)))
    return out


def consumed(ctx, isizes, osizes, ntok, neps=0, least=1):
    a = ctx.load("tn.alignment")
    stub = ctx.world.stubs["pynini"].vf
    intext = text_of(ctx, "i", isizes)
    outtext = text_of(ctx, "o", osizes)
    path, steps = symbolic_path(ctx, stub, intext, outtext, neps)
    spans = symbolic_spans(ctx, "t", ntok, len(osizes), least)
    ispace = spaces(intext, isizes)
    stub.holder.path = path
    try:
        got = a.trace_input_spans(intext, outtext, stub.FST, iter(spans))
    except a.AlignmentError:
        got = NONE
    ibnd, obnd = boundaries(isizes), boundaries(osizes)
    want = ref_consumed(steps, [(obnd[s], obnd[e]) for s, e in spans], ispace, ibnd)
    ctx.observe("got", got)
    if want == NONE:
        ctx.check(got == NONE, "an untraceable tagging is mapped instead of refused")
        return
    ctx.check(got != NONE, "a traceable tagging is refused")
    got = [tuple(x) for x in got]
    prev = 0
    for s, e in got:
        ctx.check(prev <= s < e <= len(isizes), "input spans overlap, are empty, out of order or out of range")
        prev = e
    ctx.check(got == want, "a token's input span is not what the path consumed for it")


# ------------------------------------------------------------- argument checks
def badspans(ctx, n, k, side):
    """Spans that are not ordered character ranges are refused."""
    a = ctx.load("tn.alignment")
    stub = ctx.world.stubs["pynini"].vf
    text = text_of(ctx, "x", [ctx.choice("size%d" % i, [1, 3]) for i in range(n)])
    spans = []
    for j in range(k):
        spans.append((ctx.int("s%d" % j, 0, n + 2), ctx.int("e%d" % j, 0, n + 2)))
    ok = True
    prev = 0
    for s, e in spans:
        if not (prev <= s and s <= e and e <= n):
            ok = False
        if side == "verbalizer" and s == e:
            ok = False
        prev = e
    ib = text.encode("utf-8") if n else b""
    arcs = {i: [stub.Arc(b, b, i + 1)] for i, b in enumerate(ib)}
    arcs[len(ib)] = []
    stub.holder.path = stub.Path(arcs, 0, text)
    refused = False
    got = None
    try:
        if side == "verbalizer":
            got = a.transduce_with_spans(text, stub.FST, spans)[1]
        else:
            got = a.trace_input_spans(text, text, stub.FST, spans)
    except (a.AlignmentError, ValueError):
        refused = True
    if ok:
        if side == "verbalizer":
            ctx.check(not refused, "valid spans are refused")
            ctx.check(ctx.eq([list(x) for x in got], [[s, e] for s, e in spans]),
                      "an identity path does not map spans to themselves")
    else:
        ctx.check(refused, "invalid spans are accepted")


def badpath(ctx, n, kind, side):
    """No path, a branching path and a cyclic path are refused."""
    a = ctx.load("tn.alignment")
    stub = ctx.world.stubs["pynini"].vf
    text = text_of(ctx, "x", [1] * n)
    arcs = {i: [stub.Arc(97, 97, i + 1)] for i in range(n)}
    arcs[n] = []
    start = 0
    at = ctx.choice("at", range(n))
    if kind == "none":
        start = -1
        arcs = {}
    elif kind == "branch":
        arcs[at].append(stub.Arc(97, 98, at + 1))
    elif kind == "cycle":
        arcs[n - 1] = [stub.Arc(97, 97, at)]
    elif kind == "short":
        arcs[at] = []
    stub.holder.path = stub.Path(arcs, start, text if start >= 0 else "")
    refused = False
    try:
        if side == "verbalizer":
            a.transduce_with_spans(text, stub.FST, [(0, n)])
        else:
            a.trace_input_spans(text, text, stub.FST, [(0, n)])
    except a.AlignmentError:
        refused = True
    if kind == "short" and side != "verbalizer":
        return
    ctx.check(refused, "a malformed path is traced instead of refused")
