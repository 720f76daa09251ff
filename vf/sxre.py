"""Backtracking regular-expression matching over symbolic strings.

Walks the parse tree of the standard library's own parser; character tests on
symbolic characters are branches of the exploring engine.
"""
import re
import re._constants as C
import re._parser as P

from . import sx


class SxMatch:

    def __init__(self, pat, s, start, end, groups):
        self.re, self.string, self._s, self._e, self._g = pat, s, start, end, groups
        self.pos = 0

    def _span(self, g):
        if g == 0:
            return self._s, self._e
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return self._g.get(g, (-1, -1))

    def group(self, *gs):
        out = []
        for g in gs or (0, ):
            a, b = self._span(g)
            out.append(None if a < 0 else self.string[a:b])
        return out[0] if len(out) == 1 else tuple(out)

    def groups(self, default=None):
        return tuple(default if self._span(i)[0] < 0 else self.group(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: (default if self._span(i)[0] < 0 else self.group(i)) for k, i in self.re.groupindex.items()}

    def __getitem__(self, g):
        return self.group(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def span(self, g=0):
        return self._span(g)


def _cat(ch, cat, ascii_):
    if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        r = bool(ch >= "0" and ch <= "9") if ascii_ else bool(ch.isdecimal())
        return r != (cat == C.CATEGORY_NOT_DIGIT)
    if cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        r = ch in " \t\n\r\f\v" if ascii_ else bool(ch.isspace())
        return bool(r) != (cat == C.CATEGORY_NOT_SPACE)
    if cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        r = bool(ch == "_") or bool(ch.isalnum())
        if ascii_:
            r = bool(ch == "_") or bool(ch >= "0" and ch <= "9") or bool(ch >= "a" and ch <= "z") or bool(ch >= "A" and ch <= "Z")
        return r != (cat == C.CATEGORY_NOT_WORD)
    raise sx.Unsupported("regex category")


class Matcher:

    def __init__(self, pat):
        self.pat = pat
        self.flags = pat.flags
        if self.flags & re.IGNORECASE:
            raise sx.Unsupported("case-insensitive regex on symbolic text")
        self.tree = P.parse(pat.pattern, pat.flags & ~re.DEBUG & ~re.UNICODE if isinstance(pat.pattern, str) else pat.flags)
        self.ascii = bool(self.flags & re.ASCII)

    def one(self, op, av, ch):
        if op is C.LITERAL:
            return bool(ch == chr(av))
        if op is C.NOT_LITERAL:
            return not ch == chr(av)
        if op is C.ANY:
            return True if self.flags & re.DOTALL else not ch == "\n"
        neg, hit = False, False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                hit = bool(ch == chr(a))
            elif o is C.RANGE:
                hit = bool(ch >= chr(a[0])) and bool(ch <= chr(a[1]))
            elif o is C.CATEGORY:
                hit = _cat(ch, a, self.ascii)
            else:
                raise sx.Unsupported("regex set")
            if hit:
                break
        return hit != neg

    def run(self, items, k, s, i, g):
        """Yields (end, groups) of every way items[k:] match at i."""
        if k == len(items):
            yield i, g
            return
        op, av = items[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i < len(s) and self.one(op, av, s[i]):
                yield from self.run(items, k + 1, s, i + 1, g)
        elif op is C.SUBPATTERN:
            gid, _, _, sub = av
            for e, g2 in self.run(list(sub), 0, s, i, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, e)
                yield from self.run(items, k + 1, s, e, g2)
        elif op is C.BRANCH:
            for alt in av[1]:
                for e, g2 in self.run(list(alt), 0, s, i, g):
                    yield from self.run(items, k + 1, s, e, g2)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            hi = len(s) + 1 if hi is C.MAXREPEAT else hi
            yield from self.repeat(list(sub), lo, hi, op is C.MAX_REPEAT, 0, items, k, s, i, g)
        elif op is C.AT:
            n = len(s)
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0 or (av is C.AT_BEGINNING and self.flags & re.MULTILINE and bool(s[i - 1] == "\n"))
            elif av is C.AT_END:
                ok = i == n or (i == n - 1 and bool(s[i] == "\n")) or (self.flags & re.MULTILINE and i < n and bool(s[i] == "\n"))
            elif av is C.AT_END_STRING:
                ok = i == n
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = i > 0 and _cat(s[i - 1], C.CATEGORY_WORD, self.ascii)
                b = i < n and _cat(s[i], C.CATEGORY_WORD, self.ascii)
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise sx.Unsupported("regex anchor")
            if ok:
                yield from self.run(items, k + 1, s, i, g)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                w = P.SubPattern(self.tree.state, list(sub)).getwidth()
                if w[0] != w[1]:
                    raise sx.Unsupported("regex look-behind")
                st = i - int(w[0])
                hit = None if st < 0 else next(iter(self.run(list(sub), 0, s, st, g)), None)
            else:
                hit = next(iter(self.run(list(sub), 0, s, i, g)), None)
            if (hit is not None) == (op is C.ASSERT):
                yield from self.run(items, k + 1, s, i, g if hit is None else hit[1])
        elif op is C.GROUPREF:
            if av in g:
                a, b = g[av]
                if i + b - a <= len(s) and bool(s[i:i + b - a] == s[a:b]):
                    yield from self.run(items, k + 1, s, i + b - a, g)
        else:
            raise sx.Unsupported("regex operator %s" % op)

    def repeat(self, sub, lo, hi, greedy, count, items, k, s, i, g):
        sx.tick()
        if not greedy and count >= lo:
            yield from self.run(items, k + 1, s, i, g)
        if count < hi:
            for e, g2 in self.run(sub, 0, s, i, g):
                if e == i and count >= lo:
                    continue
                yield from self.repeat(sub, lo, hi, greedy, count + 1, items, k, s, e, g2)
        if greedy and count >= lo:
            yield from self.run(items, k + 1, s, i, g)

    def at(self, s, i, full=False):
        for e, g in self.run(list(self.tree), 0, s, i, {}):
            if not full or e == len(s):
                return SxMatch(self.pat, s, i, e, g)
        return None

    def iter(self, s):
        i = 0
        last = -1
        while i <= len(s):
            m = self.at(s, i)
            if m is None or (m.end() == m.start() and m.end() == last):
                i += 1
                continue
            yield m
            last = m.end()
            i = m.end() if m.end() > m.start() else i + 1


def call(pat, name, args, kw):
    mt = Matcher(pat)
    if name in ("match", "fullmatch", "search"):
        s = sx.SymStr.lift(args[0])
        if len(args) > 1 or kw:
            raise sx.Unsupported("regex position arguments")
        if name == "match":
            return mt.at(s, 0)
        if name == "fullmatch":
            return mt.at(s, 0, True)
        for i in range(len(s) + 1):
            m = mt.at(s, i)
            if m is not None:
                return m
        return None
    if name == "finditer":
        return mt.iter(sx.SymStr.lift(args[0]))
    if name == "findall":
        out = []
        for m in mt.iter(sx.SymStr.lift(args[0])):
            out.append(m.group() if not pat.groups else (m.group(1) or "") if pat.groups == 1 else m.groups(""))
        return out
    if name in ("sub", "subn"):
        repl, s = args[0], sx.SymStr.lift(args[1])
        count = args[2] if len(args) > 2 else kw.get("count", 0)
        out, p, n = [], 0, 0
        for m in mt.iter(s):
            if count and n >= count:
                break
            out.append(s[p:m.start()])
            if callable(repl):
                out.append(repl(m))
            else:
                if isinstance(repl, str) and "\\" in repl:
                    raise sx.Unsupported("regex template")
                out.append(repl)
            p = m.end()
            n += 1
        out.append(s[p:])
        r = sx.sx_concat(out)
        return r if name == "sub" else (r, n)
    if name == "split":
        s = sx.SymStr.lift(args[0])
        out, p = [], 0
        mx = args[1] if len(args) > 1 else kw.get("maxsplit", 0)
        for m in mt.iter(s):
            if mx and len(out) >= mx:
                break
            out.append(s[p:m.start()])
            out.extend(m.groups())
            p = m.end()
        out.append(s[p:])
        return out
    raise sx.Unsupported("regex " + name)
