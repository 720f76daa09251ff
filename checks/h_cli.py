"""Harnesses for the command line (tn.cli)."""

# documented options: name -> default
OPTIONS = {
    ("tn", "zh"): [("remove_interjections", True), ("remove_erhua", True), ("traditional_to_simple", True), ("remove_puncts", False),
                   ("full_to_half", True), ("tag_oov", False)],
    ("tn", "en"): [],
    ("tn", "ja"): [("transliterate", False), ("remove_interjections", False), ("remove_puncts", False), ("full_to_half", True),
                   ("tag_oov", False)],
    ("itn", "zh"): [("enable_standalone_number", True), ("enable_0_to_9", False), ("enable_million", False),
                    ("remove_interjections", True)],
    ("itn", "en"): [],
    ("itn", "ja"): [("enable_standalone_number", True), ("enable_0_to_9", False), ("enable_million", False), ("full_to_half", False)],
}
ALL = ["remove_interjections", "remove_erhua", "traditional_to_simple", "remove_puncts", "full_to_half", "tag_oov", "transliterate",
       "enable_standalone_number", "enable_0_to_9", "enable_million"]


def start(ctx):
    vf = ctx.world.stubs["pynini"].vf
    vf.reset()
    return ctx.load("tn.cli"), vf


def attempt(ctx, vf, f):
    """(result, exited)"""
    try:
        return f(), False
    except vf.Exit:
        return None, True


FORMS = ("absent", "--x", "--no-x", "--x True", "--x False", "--x=true", "--x-", "--no-x-", "--x- FALSE")


def spell(name, form):
    """(arguments, value or None)"""
    h = name.replace("_", "-")
    return {
        "absent": ([], None),
        "--x": (["--" + name], True),
        "--no-x": (["--no-" + name], False),
        "--x True": (["--" + name, "True"], True),
        "--x False": (["--" + name, "False"], False),
        "--x=true": (["--" + name + "=true"], True),
        "--x-": (["--" + h], True),
        "--no-x-": (["--no-" + h], False),
        "--x- FALSE": (["--" + h, "FALSE"], False),
    }[form]


def options(ctx, direction, lang, vary, where):
    """Every spelling of the varied options, in every direction and language."""
    cli, vf = start(ctx)
    opts = OPTIONS[(direction, lang)]
    want = {k: v for k, v in opts}
    argv = []
    for i in vary:
        name = opts[i][0]
        args, val = spell(name, ctx.choice("form%d" % i, list(FORMS)))
        argv = argv + args
        if val is not None:
            want[name] = val
    cache = ctx.choice("cache", [None, "--cache_dir", "--cache-dir"])
    if cache is not None:
        argv = argv + [cache, "/some/dir"]
    over = ctx.choice("overwrite", [None, "--overwrite_cache", "--overwrite-cache"])
    if over is not None:
        argv = argv + [over]
    want["cache_dir"] = None if cache is None else "/some/dir"
    want["overwrite_cache"] = over is not None
    lg = ["--language", lang] if not (lang == "zh" and where == "default") else []
    argv = lg + ["--text", "x"] + argv if where != "last" else argv + ["--text", "x"] + lg
    res, exited = attempt(ctx, vf, lambda: cli.run(direction, argv=argv, stdin=vf.Lines([]), stdout=vf.Out()))
    ctx.check(not exited, "documented options are refused")
    ctx.check(len(vf.made) == 1, "not exactly one processor is constructed")
    d, l, p = vf.made[0]
    ctx.observe("kw", sorted(p.kw.items()))
    ctx.check(d == direction and l == lang, "the processor is for another direction or language")
    ctx.check(len(p.args) == 0, "positional constructor arguments")
    defaults = {k: v for k, v in opts}
    defaults["cache_dir"] = None
    defaults["overwrite_cache"] = False
    got = dict(defaults.items())
    for k, v in p.kw.items():
        ctx.check(k in defaults, "an unknown constructor argument is passed")
        got[k] = v
    for k, v in want.items():
        ctx.check(got[k] is v or (not isinstance(v, bool) and got[k] == v), "option %s does not reach the processor" % k)


def foreign_option(ctx, direction, lang):
    cli, vf = start(ctx)
    own = [o[0] for o in OPTIONS[(direction, lang)]]
    name = ctx.choice("name", [o for o in ALL])
    args, _ = spell(name, ctx.choice("form", ["--x", "--no-x", "--x True", "--no-x-"]))
    res, exited = attempt(ctx, vf, lambda: cli.run(direction, argv=["--language", lang, "--text", "x"] + args, stdin=vf.Lines([]), stdout=vf.Out()))
    ctx.observe("exited", exited)
    ctx.check(exited == (name not in own), "an option of another pipeline is accepted" if not exited else "an own option is refused")
    if exited:
        ctx.check(len(vf.made) == 0, "a processor is built for a refused command line")


def bool_value(ctx, n):
    """Any string as a boolean value."""
    cli, vf = start(ctx)
    s = ctx.str("value", n, [(32, 126)])
    if n:
        ctx.assume(s[0] != "-")
    low = s.lower()
    truth = None
    if low == "true":
        truth = True
    elif low == "false":
        truth = False
    res, exited = attempt(ctx, vf, lambda: cli.run("tn", argv=["--text", "x", "--remove_erhua", s], stdin=vf.Lines([]), stdout=vf.Out()))
    ctx.observe("exited", exited)
    ctx.check(exited == (truth is None), "a malformed boolean is accepted" if not exited else "a boolean value is refused")
    if truth is not None:
        ctx.check(vf.made[0][2].kw["remove_erhua"] is truth, "a boolean value is misread")


def language(ctx, n):
    cli, vf = start(ctx)
    s = ctx.str("language", n, [(32, 126)])
    if n:
        ctx.assume(s[0] != "-")
    ok = s == "zh" or s == "en" or s == "ja"
    for direction in ("tn", "itn"):
        vf.reset()
        res, exited = attempt(ctx, vf, lambda: cli.run(direction, argv=["--language", s, "--text", "x"], stdin=vf.Lines([]), stdout=vf.Out()))
        ctx.check(exited != ok, "an unknown language is accepted" if not exited else "a language is refused")
        if ok:
            ctx.check(vf.made[0][0] == direction and vf.made[0][1] == s, "the processor is for another direction or language")
    ctx.observe("ok", ok)


def lines(ctx, source, sizes, ends, direction="tn", ranges=None):
    """Text of any content in; two lines per input line out."""
    cli, vf = start(ctx)
    texts, raw = [], []
    for i, n in enumerate(sizes):
        t = ctx.str("line%d" % i, n)
        for ch in t:
            if source != "text":
                ctx.assume(ch != "\n")
        if source != "text" and n:
            ctx.assume(t[n - 1] != "\r")
        texts.append(t)
        raw.append(t + ends[i])
    out = vf.Out()
    argv = []
    stdin = vf.Lines([])
    if source == "text":
        if sizes[0]:
            ctx.assume(texts[0][0] != "-")
        argv = ["--text", texts[0]]
    elif source == "file":
        vf.files["in.txt"] = raw
        argv = ["--file", "in.txt"]
    elif source == "stdin":
        stdin = vf.Lines(raw)
    else:
        vf.sys.stdin = vf.Lines(raw)
        vf.sys.stdout = out
        stdin = None
    res, exited = attempt(ctx, vf, lambda: cli.run(direction, argv=argv, stdin=stdin, stdout=None if source == "sys" else out))
    ctx.check(not exited, "the command fails")
    want = []
    for t in texts:
        want = want + ["T<" + t + ">\n", "V<T<" + t + ">>\n"]
    joined = "".join(want)
    ctx.observe("out", out.text())
    ctx.check(ctx.eq(out.text(), joined), "the output is not the tagged and verbalized line of each input line, in order")
    calls = vf.made[0][2].calls
    ctx.check(len(calls) == 2 * len(texts), "a line is processed more or less than once")


def missing_file(ctx, direction):
    cli, vf = start(ctx)
    out = vf.Out()
    res, exited = attempt(ctx, vf, lambda: cli.run(direction, argv=["--file", "nope.txt"], stdin=vf.Lines(["x\n"]), stdout=out))
    ctx.check(exited, "a missing input file is not reported")
    ctx.check(len(out.parts) == 0, "output although the input file is missing")
    ctx.observe("exited", exited)


def both_inputs(ctx, direction):
    cli, vf = start(ctx)
    vf.files["f"] = ["x\n"]
    res, exited = attempt(ctx, vf, lambda: cli.run(direction, argv=["--file", "f", "--text", "y"], stdin=vf.Lines([]), stdout=vf.Out()))
    ctx.check(exited, "--file and --text are accepted together")
    ctx.observe("exited", exited)
