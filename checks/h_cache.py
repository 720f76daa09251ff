"""Harnesses for the persistent graph cache (tn.cache, Processor.build_fst)."""

ASCII = [(32, 126)]
ANY = None
SAFE = [(45, 46), (48, 57), (65, 90), (95, 95), (97, 122)]
FILES = ("tagger.fst", "verbalizer.fst", "manifest.json")


def start(ctx):
    vf = ctx.world.stubs["pynini"].vf
    vf.reset()
    m = ctx.load("tn.cache")
    return m, vf


def make(m, **k):
    a = dict(cache_root="/c", prefix="zh", ordertype="tn", cache_config=dict(x=True), source_fingerprint="fp")
    a.update(k)
    return m.CacheBundle(**a)


def leaks(ctx, vf):
    ctx.check(len(vf.fs.fds) == 0, "a file descriptor is left open")


# ------------------------------------------------------------------ identity
def cfg(ctx, name, shape, n):
    """(value, canonical description) of one configuration."""
    if shape == "b":
        v = ctx.bool(name + ".b")
        return dict(flag=v), [("flag", "bool", v)]
    if shape == "bb":
        v, w = ctx.bool(name + ".b"), ctx.bool(name + ".c")
        return dict(flag=v, more=w), [("flag", "bool", v), ("more", "bool", w)]
    if shape == "rev":
        v, w = ctx.bool(name + ".b"), ctx.bool(name + ".c")
        return dict(more=w, flag=v), [("flag", "bool", v), ("more", "bool", w)]
    if shape == "s":
        v = ctx.str(name + ".s", n, ASCII)
        return dict(flag=v), [("flag", "str", v)]
    if shape == "ss":
        v, w = ctx.str(name + ".s", n, ASCII), ctx.str(name + ".t", n, ASCII)
        return dict(flag=v, more=w), [("flag", "str", v), ("more", "str", w)]
    if shape == "i":
        v = ctx.int(name + ".i", 0, 2)
        return dict(flag=v), [("flag", "int", v)]
    if shape == "none":
        return dict(flag=None), [("flag", "none", 0)]
    if shape == "key":
        k = ctx.str(name + ".k", 4, [(97, 122)])
        v = ctx.bool(name + ".b")
        return {k: v}, [(k, "bool", v)]
    if shape == "nest":
        v = ctx.bool(name + ".b")
        return dict(flag=dict(flag=v)), [("flag", "nest", v)]
    return {}, []


def same_cfg(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[1] != y[1]:
            return False
        if not (x[0] == y[0]):
            return False
        if not (x[2] == y[2]):
            return False
    return True


def identity(ctx, shapes, n, vary):
    m, vf = start(ctx)
    got = []
    for i in (0, 1):
        c, desc = cfg(ctx, "c%d" % i, shapes[i], n)
        prefix = ctx.str("prefix%d" % i, n, [(97, 122)]) if "prefix" in vary else "zh"
        order = ctx.str("order%d" % i, n, ASCII) if "order" in vary else "tn"
        fp = ctx.str("fp%d" % i, n, [(48, 57), (97, 102)]) if "fp" in vary else "fp"
        if "builder" in vary:
            vf.sys.version_info = (3, ctx.choice("minor%d" % i, [11, 12]), 0)
            vf.impl = ctx.choice("impl%d" % i, ["CPython", "PyPy"])
            vf.pynini.__version__ = ctx.choice("pynini%d" % i, ["2.1.6", "2.1.7"])
            vf.sys.byteorder = ctx.choice("order_of_bytes%d" % i, ["little", "big"])
        bid = (vf.sys.version_info[1], vf.impl if "builder" in vary else "", vf.pynini.__version__, vf.sys.byteorder)
        b = make(m, prefix=prefix, ordertype=order, cache_config=c, source_fingerprint=fp)
        got.append((b, (prefix, order, fp), desc, bid))
        ctx.check(str(b.path).startswith("/c/"), "the bundle is not below the cache root")
    vf.sys.version_info = (3, 12, 0)
    vf.pynini.__version__ = "2.1.7"
    vf.sys.byteorder = "little"
    (b0, k0, d0, i0), (b1, k1, d1, i1) = got
    same = i0 == i1 and k0[0] == k1[0] and k0[1] == k1[1] and k0[2] == k1[2] and same_cfg(d0, d1)
    samepath = str(b0.path) == str(b1.path)
    ctx.observe("same", samepath)
    if same:
        ctx.check(samepath, "equal configurations do not share their bundle")
    else:
        ctx.check(not samepath, "different configurations share a bundle")
    ctx.check((str(b0.lock_path) == str(b1.lock_path)) == samepath, "lock and bundle identities disagree")


def prefix(ctx, n):
    m, vf = start(ctx)
    p = ctx.str("prefix", n)
    ok = n > 0
    for ch in p:
        if not ("a" <= ch <= "z" or "A" <= ch <= "Z" or "0" <= ch <= "9" or ch == "_" or ch == "." or ch == "-"):
            ok = False
    if p == "." or p == "..":
        ok = False
    try:
        b = make(m, prefix=p)
    except ValueError:
        ctx.check(not ok, "a plain directory name is refused as a prefix")
        ctx.observe("ok", False)
        return
    ctx.check(ok, "a prefix that is no plain directory name is accepted")
    ctx.observe("ok", True)
    ctx.check(ctx.eq(str(b.path)[:3 + n + 1], "/c/" + p + "/"), "the bundle is not below <root>/<prefix>")


# --------------------------------------------------------------- fingerprint
def fingerprint(ctx, trees, sizes):
    """trees: two lists of paths; contents are symbolic bytes of given sizes."""
    m, vf = start(ctx)
    got = []
    for t in (0, 1):
        root = "/p%d" % t
        desc = []
        vf.fs.mkdirs(root + "/tn")
        vf.fs.mkdirs(root + "/itn")
        for i, path in enumerate(trees[t]):
            size = sizes[t][i]
            c = ctx.bytes("f%d_%d" % (t, i), size)
            vf.fs.put(root + "/" + path, c)
            parts = path.split("/")
            if parts[0] in ("tn", "itn") and path.endswith((".py", ".tsv", ".far")) and "test" not in parts and "__pycache__" not in parts and parts[-1] != "_version.py":
                desc.append((path, c))
        desc.sort(key=lambda x: x[0])
        got.append((m.production_source_fingerprint(root), desc))
    (f0, d0), (f1, d1) = got
    same = len(d0) == len(d1)
    if same:
        for x, y in zip(d0, d1):
            if x[0] != y[0] or not (x[1] == y[1]):
                same = False
                break
    ctx.observe("same", f0 == f1)
    if same:
        ctx.check(f0 == f1, "equal sources have different fingerprints")
    else:
        ctx.check(f0 != f1, "different sources have the same fingerprint")
    leaks(ctx, vf)


# ---------------------------------------------------------------------- load
def published(ctx, m, vf, n=2, b=None):
    t = ctx.bytes("tagger", n)
    v = ctx.bytes("verbalizer", n)
    b = b or make(m)
    b.publish(vf.Graph(t), vf.Graph(v))
    vf.fs.log.clear()
    return b, t, v


def data(g):
    return None if g is None else (g[0].data, g[1].data)


def load_tampered(ctx, what, n=2, m2=2):
    m, vf = start(ctx)
    fs = vf.fs
    b, t, v = published(ctx, m, vf, n)
    d = str(b.path)
    intact = True
    victim = None
    if what in ("content", "swap", "missing", "link", "dir", "fifo"):
        victim = ctx.choice("victim", list(FILES))
    p = None if victim is None else d + "/" + victim
    if what == "content":
        c = ctx.bytes("content", m2)
        if victim == "manifest.json":
            fs.put(p, vf.JsonDoc(None, 50, ctx.choice("bad", ["utf8", "json"])))
            intact = False
        else:
            old = t if victim == "tagger.fst" else v
            intact = bool(c == old)
            fs.put(p, c)
    elif what == "swap":
        a, c = fs.resolve(d + "/tagger.fst"), fs.resolve(d + "/verbalizer.fst")
        a.content, c.content = c.content, a.content
        intact = bool(t == v)
    elif what == "missing":
        fs.resolve(d).entries.pop(victim)
        intact = False
    elif what == "extra":
        fs.put(d + "/" + ctx.choice("name", ["tagger.fst.tmp", "x", ".DS_Store"]), b"")
        intact = False
    elif what == "link":
        src = fs.resolve(p).content
        fs.put("/outside/" + victim, src)
        fs.resolve(d).entries.pop(victim)
        fs.put(p, b"", "l", "/outside/" + victim)
        intact = False
    elif what == "dir":
        fs.resolve(d).entries.pop(victim)
        fs.mkdirs(p)
        intact = False
    elif what == "fifo":
        fs.put(p, b"", "p")
        intact = False
    elif what == "ancestor":
        # a directory of the chain becomes a link to an identical copy
        which = ctx.choice("which", ["/c", "/c/zh", str(b.parent), d])
        up, name, node = fs.walk(which, False)
        up.entries.pop(name)
        fs.mkdirs("/elsewhere").entries["copy"] = node
        fs.put(which, b"", "l", "/elsewhere/copy")
        intact = which == "/c" and False
    elif what == "unreadable":
        vf.fst_ok = lambda data: False
        intact = False
    elif what == "big_manifest":
        fs.resolve(d + "/manifest.json").content = vf.JsonDoc(fs_manifest(b, t, v, m), 1024 * 1024 + 1)
        intact = False
    before = fs.tree("/")
    got, error = None, False
    try:
        got = b.load()
    except m.CacheError:
        error = True
    except OSError:
        ctx.check(what == "ancestor", "loading fails with an unrelated error")
        error = True
    ctx.observe("got", data(got) if got else error)
    if intact:
        ctx.check(got is not None, "an intact bundle is not loaded")
    if got is not None:
        ctx.check(intact, "a bundle that is not intact is loaded")
        ctx.check(ctx.eq(data(got), (t, v)), "the loaded graphs are not the published ones")
    leaks(ctx, vf)
    ctx.check(len(fs.log) == 0 and same_tree(ctx, before, fs.tree("/")), "loading modifies the file system")


def same_tree(ctx, a, b):
    if list(a.keys()) != list(b.keys()):
        return False
    for k in a:
        x, y = a[k], b[k]
        if x[0] != y[0] or x[2] != y[2]:
            return False
        if x[1] is not y[1] and not (x[1] == y[1]):
            return False
    return True


def fs_manifest(b, t, v, m):
    hs = m.hashlib
    d = dict(b._expected_manifest_identity())
    d["files"] = {
        "tagger.fst": dict(sha256=hs.sha256(t).hexdigest(), size=len(t)),
        "verbalizer.fst": dict(sha256=hs.sha256(v).hexdigest(), size=len(v)),
    }
    return d


def manifest_fields(ctx, field, how):
    """One manifest value replaced by a near miss."""
    m, vf = start(ctx)
    fs = vf.fs
    b, t, v = published(ctx, m, vf)
    path = str(b.path) + "/manifest.json"
    doc = m.json.loads(fs.resolve(path).content.decode("utf-8"))
    doc = fs_doc(doc)
    intact = False
    if how == "list":
        doc = [doc]
    elif how == "drop":
        doc.pop(field)
    elif field in ("size_t", "size_v", "sha_t", "sha_v", "meta_t", "meta_v", "files"):
        f = doc["files"]
        name = "tagger.fst" if field.endswith("_t") else "verbalizer.fst"
        if field == "files":
            if how == "none":
                doc["files"] = None
            elif how == "missing":
                f.pop("tagger.fst")
            elif how == "extra":
                f["other.fst"] = dict(f["tagger.fst"])
        elif field.startswith("meta"):
            f[name] = None if how == "none" else []
        elif field.startswith("size"):
            if how == "int":
                s = ctx.int("size", -3, 2**70)
                f[name]["size"] = s
                intact = bool(s == 2)
            elif how == "none":
                f[name]["size"] = None
            elif how == "true":
                f[name]["size"] = True
            else:
                f[name]["size"] = "2"
        else:
            other = m.hashlib.sha256(ctx.bytes("other", 2)).hexdigest()
            if how == "none":
                f[name].pop("sha256")
            else:
                intact = other == f[name]["sha256"]
                f[name]["sha256"] = other
    else:
        old = doc[field]
        if how == "str":
            s = ctx.str("value", 2, ASCII)
            doc[field] = s
            if isinstance(old, str):
                intact = bool(s == old)
        elif how == "int":
            s = ctx.int("value", 0, 5)
            doc[field] = s
            intact = isinstance(old, int) and bool(s == old)
        elif how == "none":
            doc[field] = None
        elif how == "near":
            doc[field] = near(old)
    fs.resolve(path).content = vf.JsonDoc(doc, 400)
    got = None
    try:
        got = b.load()
    except m.CacheError:
        pass
    ctx.observe("got", data(got))
    if intact:
        ctx.check(got is not None, "an intact bundle is not loaded")
        ctx.check(ctx.eq(data(got), (t, v)), "the loaded graphs are not the published ones")
    else:
        ctx.check(got is None, "a bundle whose manifest does not match is loaded")
    leaks(ctx, vf)


def fs_doc(doc):
    if isinstance(doc, dict):
        return {k: fs_doc(x) for k, x in doc.items()}
    return doc


def near(old):
    if isinstance(old, str):
        return old[:-1] + ("0" if old[-1:] != "0" else "1")
    if isinstance(old, dict):
        d = dict(old.items())
        d["extra"] = 1
        return d
    return [old]


def read_race(ctx, n, what):
    """Reads return fewer bytes than asked, and the file changes in between."""
    m, vf = start(ctx)
    fs = vf.fs
    b, t, v = published(ctx, m, vf, n)
    d = str(b.path)
    victim = ctx.choice("victim", ["tagger.fst", "verbalizer.fst"])
    node = fs.resolve(d + "/" + victim)
    at = ctx.int("at", 0, 6)
    st = {"i": 0, "changed": False}

    def read_hook(ent, k):
        if ent[0] is not node:
            return k
        i = st["i"]
        st["i"] = i + 1
        if at == i and what != "short":
            st["changed"] = True
            if what == "grow":
                node.content = node.content + b"x"
            elif what == "shrink":
                node.content = node.content[:len(node.content) - 1]
            elif what == "rewrite":
                node.content = ctx.bytes("rewritten", n)
        if k > 1 and i < 6:
            return ctx.choice("read%d" % i, [1, k])
        return k

    fs.read_hook = read_hook
    got = None
    try:
        got = b.load()
    except m.CacheError:
        pass
    ctx.observe("got", data(got))
    if got is not None:
        ctx.check(ctx.eq(data(got), (t, v)), "the loaded graphs are not the published ones")
    if not st["changed"]:
        ctx.check(got is not None, "an intact bundle is not loaded")
    leaks(ctx, vf)


# ----------------------------------------------------------- crash atomicity
def same_pair(ctx, got, pair):
    return bool(ctx.eq(data(got), pair))


def tear(ctx, fs, mode):
    if mode == "lost":
        fs.power_loss()
    elif mode == "torn":
        # names survive, contents not fsynced are gone
        seen = []

        def walk(node):
            if node.kind == "d":
                for c in node.entries.values():
                    walk(c)
            elif node.kind == "f" and not (node.content is node.durable):
                if node not in seen:
                    seen.append(node)
                    node.content = node.durable if node.durable is not None else b""

        walk(fs.root)
    elif mode == "names":
        # contents survive, name changes not fsynced are gone in the bundle's parent only
        pass


def publish_crash(ctx, old, flow, after, kmax, foreign=True):
    """The process dies at any operation; then a new process looks."""
    m, vf = start(ctx)
    fs = vf.fs
    b = make(m)
    oldpair = None
    if old:
        ot, ov = ctx.bytes("old_tagger", 1), ctx.bytes("old_verbalizer", 1)
        b.publish(vf.Graph(ot), vf.Graph(ov))
        oldpair = (ot, ov)
    else:
        b._ensure_parent()
    if foreign:
        fs.put("/c/zh/unrelated.fst", b"keep")
        fs.put(str(b.parent) + "/.other.previous-1/tagger.fst", b"keep")
    if old == "previous":
        fs.replace(str(b.path), str(b.parent) + "/." + b.bundle_digest + ".previous-0")
    with b.lock(0):
        pass
    fs.settle()
    t, v = ctx.bytes("new_tagger", 1), ctx.bytes("new_verbalizer", 1)
    k = ctx.int("crash_at", 0, kmax)
    st = {"i": 0}

    def on_op(op, path):
        i = st["i"]
        st["i"] = i + 1
        if k == i:
            fs.dead = True
            raise vf.Crash()

    fs.log.clear()
    fs.on_op = on_op
    done = False
    try:
        with b.lock(0):
            b.recover_residuals()
            if flow == "repair":
                if b.load() is None:
                    b.remove_invalid()
            b.publish(vf.Graph(t), vf.Graph(v))
            done = True
    except vf.Crash:
        pass
    fs.reboot()
    tear(ctx, fs, after)
    b2 = make(m)
    for step in ("before", "after"):
        if step == "after":
            with b2.lock(0):
                b2.recover_residuals()
        got = b2.load()
        ctx.observe(step, data(got))
        if got is not None:
            ok = same_pair(ctx, got, (t, v)) or (oldpair is not None and same_pair(ctx, got, oldpair))
            ctx.check(ok, "after a crash a pair is loaded that was never published")
        if done:
            ctx.check(got is not None and same_pair(ctx, got, (t, v)), "a completed publication is lost")
        if step == "after" and oldpair is not None and after == "kept":
            ctx.check(got is not None, "the previous bundle is lost in a crash")
    if foreign:
        ctx.check(fs.exists("/c/zh/unrelated.fst") and fs.exists(str(b.parent) + "/.other.previous-1/tagger.fst"),
                  "a foreign file disappears")
    leaks(ctx, vf)


def publish_fault(ctx, old, kmax, twice=False):
    """Operations fail with an I/O error; the process goes on."""
    m, vf = start(ctx)
    fs = vf.fs
    b = make(m)
    oldpair = None
    if old:
        ot, ov = ctx.bytes("old_tagger", 1), ctx.bytes("old_verbalizer", 1)
        b.publish(vf.Graph(ot), vf.Graph(ov))
        oldpair = (ot, ov)
    fs.settle()
    t, v = ctx.bytes("new_tagger", 1), ctx.bytes("new_verbalizer", 1)
    k = ctx.int("fault_at", 0, kmax)
    k2 = ctx.int("fault2_at", 0, kmax) if twice else -1
    st = {"i": 0}

    def on_op(op, path):
        i = st["i"]
        st["i"] = i + 1
        if k == i or (twice and k2 == i):
            raise vf.err(vf.errno.EIO, path)

    fs.on_op = on_op
    done = False
    try:
        with b.lock(0):
            b.publish(vf.Graph(t), vf.Graph(v))
            done = True
    except (OSError, m.CacheError):
        pass
    leaks(ctx, vf)
    fs.on_op = None
    ctx.check(len(fs.lock_owner) == 0, "the lock is still held")
    for step in ("before", "after"):
        if step == "after":
            with b.lock(0):
                b.recover_residuals()
        got = b.load()
        ctx.observe(step, data(got))
        if got is not None:
            ok = same_pair(ctx, got, (t, v)) or (oldpair is not None and same_pair(ctx, got, oldpair))
            ctx.check(ok, "after an I/O error a pair is loaded that was never published")
        if done:
            ctx.check(got is not None and same_pair(ctx, got, (t, v)), "a publication reported as done is not loaded")
        if oldpair is not None and (step == "after" or not twice):
            ctx.check(got is not None, "the previous bundle is lost on an I/O error")


def reader_race(ctx, old, kmax):
    """Another process reads at any moment of a publication."""
    m, vf = start(ctx)
    fs = vf.fs
    b = make(m)
    pairs = []
    if old:
        ot, ov = ctx.bytes("old_tagger", 1), ctx.bytes("old_verbalizer", 1)
        b.publish(vf.Graph(ot), vf.Graph(ov))
        pairs.append((ot, ov))
    t, v = ctx.bytes("new_tagger", 1), ctx.bytes("new_verbalizer", 1)
    pairs.append((t, v))
    k = ctx.int("read_at", 0, kmax)
    st = {"i": 0, "got": None, "ran": False, "bytes": 0}

    def on_op(op, path):
        i = st["i"]
        st["i"] = i + 1
        if k == i:
            fs.on_op = None
            st["got"] = make(m).load()
            st["ran"] = True

    fs.on_op = on_op
    with b.lock(0):
        b.publish(vf.Graph(t), vf.Graph(v))
    fs.on_op = None
    got = st["got"]
    ctx.observe("got", data(got))
    if got is not None:
        ok = False
        for p in pairs:
            if same_pair(ctx, got, p):
                ok = True
        ctx.check(ok, "a reader sees a pair that was never published")
    got = b.load()
    ctx.check(got is not None and same_pair(ctx, got, (t, v)), "a completed publication is lost")
    leaks(ctx, vf)


def writer_race(ctx, old, kmax):
    """A whole publication of another process happens at any moment of a load."""
    m, vf = start(ctx)
    fs = vf.fs
    b = make(m)
    pairs = []
    if old:
        ot, ov = ctx.bytes("old_tagger", 1), ctx.bytes("old_verbalizer", 1)
        b.publish(vf.Graph(ot), vf.Graph(ov))
        pairs.append((ot, ov))
    t, v = ctx.bytes("new_tagger", 1), ctx.bytes("new_verbalizer", 1)
    pairs.append((t, v))
    k = ctx.int("write_at", 0, kmax)
    st = {"i": 0}

    def on_any():
        i = st["i"]
        st["i"] = i + 1
        if k == i:
            fs.on_any = None
            make(m).publish(vf.Graph(t), vf.Graph(v))

    fs.on_any = on_any
    got = None
    try:
        got = b.load()
    except m.CacheError:
        pass
    fs.on_any = None
    ctx.observe("got", data(got))
    if got is not None:
        ok = False
        for p in pairs:
            if same_pair(ctx, got, p):
                ok = True
        ctx.check(ok, "a reader sees a pair that was never published")
    leaks(ctx, vf)


# ------------------------------------------------------------------- removal
KINDS = ("absent", "file", "link", "dir", "fifo")


def cleanup(ctx, how, names, kinds, self_kind="d"):
    """What the cache may delete: flat directories of its own files, entirely."""
    m, vf = start(ctx)
    fs = vf.fs
    b = make(m)
    b._ensure_parent()
    parent = str(b.parent)
    where = {
        "invalid": str(b.path),
        "tmp": parent + "/." + b.bundle_digest + ".tmp-x",
        "previous": parent + "/." + b.bundle_digest + ".previous-x",
        "corrupt": parent + "/." + b.bundle_digest + ".corrupt-x",
        "foreign": parent + "/.x" + b.bundle_digest[1:] + ".tmp-x",
        "foreign2": parent + "/" + b.bundle_digest[:-1] + "x",
        "nodot": parent + "/" + b.bundle_digest + ".tmp-x",
        "lockname": parent + "/." + b.bundle_digest + ".lockx",
    }.get(how) or parent + "/" + how.replace("DIGEST", b.bundle_digest)
    fs.put("/outside/target", b"keep")
    fs.put("/outside/dir/file", b"keep")
    target = where
    if self_kind == "l":
        target = "/outside/bundle"
    fs.mkdirs(target)
    if self_kind == "l":
        fs.put(where, b"", "l", target)
    removable = self_kind == "d" and how in ("invalid", "tmp", "previous", "corrupt")
    for i, name in enumerate(names):
        kind = ctx.choice("kind%d" % i, kinds)
        if kind == "absent":
            continue
        if kind == "file":
            fs.put(target + "/" + name, b"data")
            if name not in FILES:
                removable = False
        elif kind == "link":
            fs.put(target + "/" + name, b"", "l", "/outside/dir")
        elif kind == "dir":
            fs.put(target + "/" + name + "/inner", b"keep")
            removable = False
        else:
            fs.put(target + "/" + name, b"", "p")
            removable = False
    before = fs.tree("/")
    with b.lock(0):
        try:
            if how == "invalid":
                b.remove_invalid()
            else:
                b.recover_residuals()
        except m.CacheError:
            ctx.check(self_kind == "l", "clean-up fails on an ordinary directory")
    after = fs.tree("/")
    # every inode that disappeared must be inside the removable directory
    inodes = {}
    for p, e in after.items():
        inodes[e[2]] = e
    for p, e in before.items():
        gone = e[2] not in inodes
        inside = p == where or p.startswith(where + "/")
        if gone:
            ctx.check(inside and removable, "clean-up deletes something that is not a flat bundle of its own key")
        elif not inside:
            ctx.check(p in after and after[p][2] == e[2], "clean-up moves something outside the bundle")
        if not gone and not inside and e[0] == "f" and not p.endswith(".lock"):
            ctx.check(after[p][1] == e[1], "clean-up changes a file outside the bundle")
    ctx.observe("after", len(after))
    if removable:
        ctx.check(where not in after, "an own residual is not cleaned up")
    elif how == "invalid" and self_kind == "d":
        ctx.check(where not in after, "the invalid bundle is still in place")
    leaks(ctx, vf)


def replaced_during_cleanup(ctx, kmax):
    """The directory is swapped for a link while it is being removed."""
    m, vf = start(ctx)
    fs = vf.fs
    b = make(m)
    b._ensure_parent()
    where = str(b.parent) + "/." + b.bundle_digest + ".tmp-x"
    for n in FILES:
        fs.put(where + "/" + n, b"data")
        fs.put("/outside/victim/" + n, b"keep")
    k = ctx.int("swap_at", 0, kmax)
    st = {"i": 0}

    def on_any():
        i = st["i"]
        st["i"] = i + 1
        if k == i:
            fs.on_any = None
            up, name, node = fs.walk(where, False)
            if node is not None:
                up.entries.pop(name)
                fs.put(where, b"", "l", "/outside/victim")

    fs.on_any = on_any
    try:
        m._remove_flat_bundle(where, best_effort=True)
    finally:
        fs.on_any = None
    for n in FILES:
        ctx.check(fs.exists("/outside/victim/" + n), "clean-up deletes through a link")
    ctx.observe("n", st["i"])
    leaks(ctx, vf)


# ---------------------------------------------------------------------- lock
def lock_clock(ctx, attempts, body):
    """Busy or free, at each attempt; any clock."""
    m, vf = start(ctx)
    fs = vf.fs
    b = make(m)
    timeout = ctx.real("timeout", 0, 1000)
    clock = {"now": ctx.real("t0", 0, 1000000), "n": 0}
    log = []

    def now():
        # time passes between readings
        i = clock["n"]
        clock["n"] = i + 1
        if i:
            clock["now"] = clock["now"] + ctx.real("dt%d" % i, 0, 100)
        log.append(("now", clock["now"]))
        return clock["now"]

    vf.now = now

    def on_sleep(s):
        ctx.check(s >= 0, "sleeps for a negative time")
        log.append(("sleep", s))
        clock["now"] = clock["now"] + s

    vf.on_sleep = on_sleep
    fc = ctx.world.stubs["fcntl"]
    real_flock = fs.flock
    n = {"tries": 0}

    def flock(fd, op):
        if op & fc.LOCK_UN:
            real_flock(fd, op)
            return
        i = n["tries"]
        n["tries"] = i + 1
        out = ctx.choice("try%d" % i, ["free", "busy", "eacces", "eio"]) if i < attempts else "free"
        log.append(("try", out))
        if out == "free":
            real_flock(fd, op)
        elif out == "busy":
            raise BlockingIOError(vf.errno.EWOULDBLOCK, "busy")
        elif out == "eacces":
            raise vf.err(vf.errno.EACCES)
        else:
            raise vf.err(vf.errno.EIO)

    fc.flock = fc.lockf = flock
    result = "?"
    try:
        with b.lock(timeout):
            result = "body"
            ctx.check(len(fs.lock_owner) == 1, "the body runs without the lock")
            if body == "raise":
                raise KeyError("body")
    except m.CacheLockTimeout:
        result = "timeout"
    except m.CacheError:
        result = "error"
    except KeyError:
        result = "raised"
    fc.flock = fc.lockf = real_flock
    tries = [x for k, x in log if k == "try"]
    ctx.observe("result", (result, len(tries)))
    times = [x for k, x in log if k == "now"]
    ctx.check(len(tries) >= 1, "the lock is never tried")
    last = tries[-1]
    if last == "free":
        ctx.check(result == ("raised" if body == "raise" else "body"), "the body does not run although the lock is free")
    elif last == "eio":
        ctx.check(result == "error", "an unexpected locking error is not reported")
    else:
        ctx.check(result == "timeout", "waiting ends without the lock and without a timeout")
        # no early timeout: some reading after the last attempt is past the deadline
        ctx.check(times[-1] >= times[0] + timeout, "the timeout fires early")
    # at most one more attempt once a reading after a busy attempt is past the deadline
    late = 0
    past = False
    for k, x in log:
        if k == "now":
            if len(tries) > 1 and not past:
                past = bool(x >= times[0] + timeout)
        elif k == "try" and past:
            late = late + 1
    ctx.check(late <= 1, "waiting goes on after the deadline")
    ctx.check(len(fs.lock_owner) == 0, "the lock is still held")
    leaks(ctx, vf)


def lock_exclusion(ctx, same):
    m, vf = start(ctx)
    fs = vf.fs
    b1 = make(m)
    b2 = make(m) if same else make(m, ordertype="itn")
    entered = False
    timed_out = False
    with b1.lock(0):
        try:
            with b2.lock(0):
                entered = True
        except m.CacheLockTimeout:
            timed_out = True
    ctx.check(entered != same, "two holders of one key's lock" if same else "different keys block each other")
    ctx.check(timed_out == same, "a busy lock is not reported as a timeout")
    with b2.lock(0):
        entered = True
    ctx.check(entered, "the lock is not free after its holder left")
    ctx.observe("ok", True)
    leaks(ctx, vf)


def lock_timeout_value(ctx, source):
    m, vf = start(ctx)
    b = make(m)
    text = ctx.choice("text", ["nan", "inf", "-inf", "-1", "abc", "", "0", "0.5", "7", "-0.0", "1e400"])
    good = text in ("0", "0.5", "7", "-0.0")
    try:
        if source == "env":
            vf.environ["WETEXTPROCESSING_CACHE_LOCK_TIMEOUT"] = text
            with b.lock():
                pass
        else:
            with b.lock(text):
                pass
        got = True
    except ValueError:
        got = False
    ctx.check(got == good, "lock timeout %r is %s" % (text, "refused" if good else "accepted"))
    ctx.observe("got", got)
    leaks(ctx, vf)


# ----------------------------------------------------------------- build_fst
def builder(ctx, vf, name="zh_tn"):
    P = ctx.load("tn.processor").Processor
    built = []

    class Grammar(P):

        def build_tagger(self):
            built.append("t")
            if self.hook is not None:
                self.hook()
            self.tagger = vf.Graph(self.tdata)

        def build_verbalizer(self):
            built.append("v")
            self.verbalizer = vf.Graph(self.vdata)

        def _source_fingerprint(self, prefix):
            return self.fps[min(self.nfp(), len(self.fps) - 1)]

        def nfp(self):
            self.n += 1
            return self.n - 1

    g = Grammar(name)
    g.hook = None
    g.fps = ["fp"]
    g.n = 0
    return g, built


def build(ctx, state, overwrite, event, cache_dir="/c"):
    """state: what is on disk before; event: what another process does meanwhile."""
    m, vf = start(ctx)
    fs = vf.fs
    p, built = builder(ctx, vf)
    p.tdata, p.vdata = ctx.bytes("new_tagger", 1), ctx.bytes("new_verbalizer", 1)
    b = make(m, ordertype=p.ordertype, cache_config=dict(x=True))
    old = (ctx.bytes("old_tagger", 1), ctx.bytes("old_verbalizer", 1))
    other = (ctx.bytes("other_tagger", 1), ctx.bytes("other_verbalizer", 1))
    valid = None
    if state in ("valid", "corrupt", "previous"):
        b.publish(vf.Graph(old[0]), vf.Graph(old[1]))
        if state == "valid":
            valid = old
        if state == "corrupt":
            vic = ctx.choice("corrupt", ["missing", "flipped", "manifest"])
            node = fs.resolve(str(b.path))
            if vic == "missing":
                node.entries.pop("verbalizer.fst")
            elif vic == "flipped":
                node.entries["tagger.fst"].content = b"damaged"
            else:
                node.entries["manifest.json"].content = b"{"
        if state == "previous":
            fs.replace(str(b.path), str(b.parent) + "/." + b.bundle_digest + ".previous-0")
            valid = old
    st = {"i": 0, "held": 0, "lockless": 0}
    lockname = str(b.lock_path)

    def on_op(op, path):
        path = str(path)
        if op in ("replace", "rmdir", "unlink", "write", "mkdir", "truncate", "create") and b.bundle_digest in path and not path.endswith(".lock"):
            if len(fs.lock_owner) == 0:
                st["lockless"] += 1

    fs.on_op = on_op
    fc = ctx.world.stubs["fcntl"]
    real_flock = fs.flock
    published_by_other = {"v": False}

    def flock(fd, op):
        # another process finishes its publication before we get the lock
        if event == "published" and not published_by_other["v"] and not op & fc.LOCK_UN:
            published_by_other["v"] = True
            fs.on_op = None
            make(m, ordertype=p.ordertype, cache_config=dict(x=True)).publish(vf.Graph(other[0]), vf.Graph(other[1]))
            fs.on_op = on_op
        real_flock(fd, op)

    fc.flock = fc.lockf = flock
    if event == "changed":
        p.fps = ["fp", "fp2"]
    error = False
    try:
        p.build_fst("zh", cache_dir, overwrite, dict(x=True))
    except RuntimeError:
        error = True
    finally:
        fc.flock = fc.lockf = real_flock
        fs.on_op = None
    got = None if error else (p.tagger.data, p.verbalizer.data)
    disk = b.load()
    ctx.observe("got", (got, data(disk), len(built)))
    ctx.check(st["lockless"] == 0, "the bundle is changed without holding its lock")
    leaks(ctx, vf)
    ctx.check(len(fs.lock_owner) == 0, "the lock is still held")
    new = (p.tdata, p.vdata)
    if valid is not None and not overwrite and (state == "valid" or event is None or event == "changed"):
        # a valid bundle is used as it is
        ctx.check(not error and len(built) == 0, "a valid bundle is not reused")
        ctx.check(ctx.eq(got, valid) and ctx.eq(data(disk), valid), "the graphs in use are not the cached ones")
        return
    if event == "published" and not overwrite:
        ctx.check(not error and len(built) == 0, "graphs published by another process meanwhile are not reused")
        ctx.check(ctx.eq(got, other) and ctx.eq(data(disk), other), "the graphs in use are not the cached ones")
        return
    ctx.check(len(built) == 2, "the grammar is not built")
    if event == "changed":
        ctx.check(error, "graphs built from changing sources are accepted")
        if disk is not None:
            ctx.check(not bool(ctx.eq(data(disk), new)) or (valid is not None and bool(ctx.eq(valid, new))) ,
                      "graphs built from changing sources are published")
        return
    ctx.check(not error, "building fails")
    ctx.check(ctx.eq(got, new), "the graphs in use are not the built ones")
    ctx.check(disk is not None and ctx.eq(data(disk), new), "the built graphs are not what the cache holds")


def build_memory(ctx, overwrite):
    m, vf = start(ctx)
    p, built = builder(ctx, vf)
    p.tdata, p.vdata = ctx.bytes("new_tagger", 1), ctx.bytes("new_verbalizer", 1)
    p.build_fst("zh", False, overwrite, dict(x=True))
    ctx.observe("log", len(vf.fs.log))
    ctx.check(len(vf.fs.log) == 0, "in-memory building touches the file system")
    ctx.check(ctx.eq((p.tagger.data, p.verbalizer.data), (p.tdata, p.vdata)), "the graphs in use are not the built ones")


def default_dir(ctx, xdg):
    """Default location: absolute XDG_CACHE_HOME, otherwise ~/.cache."""
    m, vf = start(ctx)
    if xdg is not None:
        vf.environ["XDG_CACHE_HOME"] = xdg
    got = str(m.default_cache_dir())
    base = xdg if xdg and xdg.startswith("/") else "/home/u/" + xdg[2:] if xdg and xdg.startswith("~/") else "/home/u/.cache"
    ctx.check(got == base + "/wetextprocessing", "unexpected default cache directory")
    ctx.check(len(vf.fs.log) == 0, "the default directory is created")
    ctx.observe("got", got)
