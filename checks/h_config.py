"""Options of the six pipelines and the identity of their cached graphs."""
from checks.h_cli import OPTIONS
from checks.cliworld import CLASSES


def make(ctx, direction, lang, opts, seen, positional=False, cache_dir="/c", overwrite=False):
    P = ctx.load("tn.processor").Processor
    mod, cls = CLASSES[(direction, lang)]
    K = getattr(ctx.load(mod), cls)
    old = P.build_fst

    def build_fst(self, prefix, cache_dir, overwrite_cache, cache_config=None):
        seen.append((self, prefix, cache_dir, overwrite_cache, cache_config))

    P.build_fst = build_fst
    try:
        if positional:
            return K(cache_dir, overwrite, *[opts[n] for n, _ in OPTIONS[(direction, lang)] if n in opts])
        return K(cache_dir=cache_dir, overwrite_cache=overwrite, **opts)
    finally:
        P.build_fst = old


def key(ctx, seen):
    p, prefix, _, _, config = seen
    return (prefix, p.ordertype, {} if config is None else config)


def same_config(ctx, a, b):
    if sorted(a.keys()) != sorted(b.keys()):
        return False
    return bool(ctx.all([a[k] == b[k] for k in a]))


def option_identity(ctx, direction, lang):
    """Two processors share a key exactly when all their options agree."""
    names = [n for n, _ in OPTIONS[(direction, lang)]]
    seen = []
    o = []
    for i in (0, 1):
        opts = {n: ctx.bool("%s%d" % (n, i)) for n in names}
        o.append(opts)
        make(ctx, direction, lang, opts, seen)
    a, b = key(ctx, seen[0]), key(ctx, seen[1])
    ctx.check(a[0] == b[0] and a[1] == b[1], "one pipeline has two cache prefixes")
    same = ctx.all([o[0][n] == o[1][n] for n in names])
    shared = ctx.all([k in b[2] and a[2][k] == b[2][k] for k in a[2]] + [k in a[2] for k in b[2]])
    ctx.check(same == shared, "the cache key does not identify the options")
    ctx.check(seen[0][2] == "/c" and seen[0][3] is False, "cache location or overwriting is not passed on")
    ctx.observe("n", len(a[2]))


def option_defaults(ctx, direction, lang):
    """Leaving an option out is the same as giving its documented default."""
    opts = OPTIONS[(direction, lang)]
    seen = []
    given = {}
    full = {}
    for n, d in opts:
        v = ctx.bool(n)
        leave = ctx.choice("leave_" + n, [False, True])
        if leave:
            full[n] = d
        else:
            given[n] = v
            full[n] = v
    make(ctx, direction, lang, given, seen)
    make(ctx, direction, lang, full, seen)
    ctx.check(same_config(ctx, key(ctx, seen[0])[2], key(ctx, seen[1])[2]), "an option's default is not the documented one")
    ctx.observe("n", len(given))


def pipelines_distinct(ctx, one, two):
    seen = []
    for i, (d, l) in enumerate((one, two)):
        make(ctx, d, l, {n: ctx.bool("%s%d" % (n, i)) for n, _ in OPTIONS[(d, l)]}, seen)
    a, b = key(ctx, seen[0]), key(ctx, seen[1])
    same = a[0] == b[0] and a[1] == b[1] and same_config(ctx, a[2], b[2])
    ctx.check(not same, "two pipelines share a cache key")
    ctx.observe("same", same)
