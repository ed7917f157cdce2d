"""P16: the excerpt helpers show the expression as laid out in the file, cut exactly as their options say."""
import re
from ..common import *
from ..lang import Node, lit

BOUNDS = {
    "quick": "20 expression shapes; every gap between tokens replaced by each of 9 layouts (pairs for the short shapes) x 4 helpers; option grid: excerpt_line {-,1..7} x truncate "
             "{-,default,0..12} x line numbers x 5 paddings over 8 layouts; all strings over 4 characters (multi-byte, newline) to length 4 and all lengths to 14 x limits 0..14; "
             "line numbers around 9999/10000; the same helpers on $source at hooked sites; option order and separators; expressions of 11 to 130 lines under line limits to 1000, long literals under limits to 1000; tabs and blanks at line ends inside literals",
    "thorough": "as quick with all gap pairs of all shapes and all strings to length 5",
}
HELP = "::hooq::source_excerpt_helpers::"
TOK = re.compile(r'''r#"(?:[^"]|"(?!\#))*"\#|r"[^"]*"|b?c?"(?:\\.|[^"\\])*"|b?'(?:\\.|[^'\\])'|'\w+|\w+|::|->|=>|\.\.=|\.\.|&&|\|\||==|\+=|.''', re.S)


def tokens(text):
    """[(token, gap after it)]"""
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        t = m.group(0)
        i = m.end()
        g = re.compile(r"\s*").match(text, i)
        out.append([t, g.group(0)])
        i = g.end()
    return out


def value(t):
    """value of a str literal token, None for anything else"""
    if t.startswith("r#"):
        return t[3:-2]
    if t.startswith('r"'):
        return t[2:-1]
    if not t.startswith('"'):
        return None
    t = re.sub(r"\\\n\s*", "", t[1:-1])
    esc = {"n": "\n", "t": "\t", "\\": "\\", '"': '"', "'": "'", "0": "\0", "r": "\r"}
    return re.sub(r"\\(?:u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|(.))",
                  lambda m: chr(int(m.group(1) or m.group(2), 16)) if m.group(3) is None else esc[m.group(3)], t)


def cut(v, n):
    """every line longer than n keeps about (n - 2) characters around `..`"""
    out = []
    for ln in v.split("\n"):
        if len(ln) > n:
            keep = max(n - 2, 0)
            a = keep // 2
            b = keep - a
            ln = ln[:a] + ".." + (ln[len(ln) - b:] if b else "")
        out.append(ln)
    return "\n".join(out)


def shown(t, trunc, masked):
    if trunc is None or masked:
        return t
    v = value(t)
    return t if v is None else lit(cut(v, trunc))


def mask(toks):
    """tokens inside macro arguments are not looked into"""
    out, stack, inside = [], [], 0
    for i, (t, _) in enumerate(toks):
        if t in "([{":
            mac = i > 0 and toks[i - 1][0] == "!" and i > 1 and re.match(r"\w", toks[i - 2][0])
            stack.append(bool(mac))
            inside += bool(mac)
        out.append(inside > 0)
        if t in ")]}":
            inside -= stack.pop()
    return out


def rlines(s):
    ls = s.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    return ls


def layout(toks, pos, trunc):
    """toks: [(token, gap)], pos: [(line, column, end column)] -> text"""
    out, line, col = "", None, None
    for (t, _), (l, c, e), mk in zip(toks, pos, mask(toks)):
        s = shown(t, trunc, mk)
        if line is None:
            out += "    "
        elif l > line:
            out += "\n" * (l - line) + " " * (c - 1)
        else:
            out += " " * max(0, c - col)
        out += s
        line, col = l + s.count("\n"), e
    return out


def helper(name, o, toks, pos):
    trunc = o.get("truncate_str")
    if trunc == "-":
        trunc = 10
    if name == "truncate_lit_str":
        trunc = 10 if trunc is None else trunc
        return "".join(shown(t, trunc, mk) + g for (t, g), mk in zip(toks, mask(toks)))
    if name == "one_line_stringify":
        return lit(" ".join(x.strip() for x in rlines(layout(toks, pos, trunc))))
    ex = name == "excerpted_pretty_stringify"
    if ex and trunc is None:
        trunc = 10
    if not ex:
        trunc = None
    body = layout(toks, pos, trunc)
    nums = ex or "show_line_num" in o
    pad = o.get("padding", "bottom" if ex else None)
    if "padding" in o and ex and pad == "top":
        pad = "both"
    w = max(4, len(str(pos[0][0] + max(len(rlines(body)), 1) - 1)))
    if nums:
        body = "\n".join(f"{pos[0][0] + i:>{w}}{'|' if i else '>'}{x}" for i, x in enumerate(rlines(body)))
    if ex:
        n = o.get("excerpt_line", 5)
        ls = rlines(body)
        if n == 1:
            body = ls[-1] if ls else ""
        elif len(ls) > max(2, n):
            body = "\n".join([ls[0], "..."] + ls[len(ls) - (n - 1):])
    top = (" " * w + "|\n") if nums else "\n"
    bot = ("\n" + " " * w + "|") if nums else "\n"
    return lit((top if pad in ("top", "both", "-") else "") + body + (bot if pad in ("bottom", "both", "-") else ""))


def opts_src(o, sep=", "):
    out = ""
    for k, v in o.items():
        if k == "show_line_num" or v == "-":
            out += f"@{k}"
        elif k == "padding":
            out += f'@{k} = "{v}"'
        else:
            out += f"@{k} = {v}"
        out += sep
    return out


class Toks(Node):
    """a token list with explicit gaps"""

    def __init__(self, toks):
        self.toks = toks

    def emit(self, b):
        self.s0, self.p0 = b.off, b.pos()
        self.pt = self.p0
        self.pos = []
        for i, (t, g) in enumerate(self.toks):
            l, c = b.pos()
            b.w(t)
            l2, c2 = b.pos()
            self.pos.append((l, c, c2))
            self.last = l2
            if i < len(self.toks) - 1:
                b.w(g)
        self.s1 = b.off


class Help(Node):
    """static X: T = helper!(options expression);"""

    def __init__(self, name, o, toks, sep=", ", opts=None, lines=0):
        self.name, self.o, self.t, self.sep, self.opts, self.lines = name, o, Toks(toks), sep, opts, lines

    def emit_body(self, b):
        b.w("\n" * self.lines + f"static X: i32 = {HELP}{self.name}!(" + (self.opts if self.opts is not None else opts_src(self.o, self.sep)))
        self.t.emit(b)
        b.w(");")

    def expected(self, m):
        m.states.add((self.name, tuple(self.o.items()), len(self.t.toks)))
        m.trans.add((self.name, tuple(self.o.items()), tuple(map(tuple, self.t.toks))))
        return f"static X: i32 = {helper(self.name, self.o, self.t.toks, self.t.pos)};"


class Hooked(Node):
    """a hooked function whose method shows $source"""

    def __init__(self, name, o, toks, kind):
        self.name, self.o, self.t, self.kind = name, o, Toks(toks), kind

    def emit_body(self, b):
        b.w(f"#[::hooq::hooq] #[hooq::method(.h({HELP}{self.name}!({opts_src(self.o)}$source)))] #[hooq::hook_in_macros(false)] fn f() -> Result<i32, i32> {{ ")
        if self.kind == "return":
            b.w("if a0 { return  ")
        self.start = b.pos() if self.kind != "return" else (b.pos()[0], b.pos()[1] - 8)
        self.t.emit(b)
        if self.kind == "question":
            b.w("? ; Ok(a0)")
        elif self.kind == "return":
            b.w(" ; } Ok(a0)")
        b.w(" }")

    def expected(self, m):
        toks, pos = [list(x) for x in self.t.toks], list(self.t.pos)
        ex = "".join(t + (g if i < len(toks) - 1 else "") for i, (t, g) in enumerate(toks))
        m.trans.add((self.name, self.kind, ex))
        if self.kind == "question":
            toks.append(["?", ""])
            pos.append((self.t.last, pos[-1][2], pos[-1][2] + 1))
        if self.kind == "return":
            toks.insert(0, ["return", "  "])
            pos.insert(0, (*self.start, self.start[1] + 6))
        h = helper(self.name, self.o, toks, pos)
        ex = f"({ex}).h({h})"
        return "fn f() -> Result<i32, i32> { " + {"question": ex + "?; Ok(a0)", "return": "if a0 { return " + ex + "; } Ok(a0)", "tail": ex}[self.kind] + " }"


SHAPES = {
    "id": "a1", "call": 'g(a1, "s")', "long": 'g("0123456789ab", a1)', "chain": 'a1.m("0123456789a").h(a2)', "uni": 'g("日本語日本語日本語日本", "é")', "esc": 'g("a\\t\\"b\\\\c\\u{e9}\\x41defghi")',
    "raw": 'g(r#"a"b\\c0123456789"#, r"\\d")', "ml": 'g("line one is long\nb\n\nline four is long", a1)', "cont": 'g("abcdef \\\n      ghijkl", a1)', "bytes": 'g(b"0123456789abc", b\'x\', \'é\', c"0123456789abc")',
    "mac": 'g(tup!("0123456789abc", a1), "0123456789abc")', "blk": '{ let x = "0123456789abc"; g(x); a1 }', "match": 'match a1 { "0123456789abc" => a2, _ => "0123456789abc".m() }', "arr": '["a", "bcdefghijklmn", [a1, "0123456789abc"],]',
    "st": 'S { f: "0123456789abc", g: a1 }', "clo": '|x| -> i32 { x += "0123456789abc"; a1 }', "try": 'g("0123456789abc")?.m::<i32>(&a1, ..)', "if": 'if a1 == "0123456789abc" && a2 { a3 } else { g::<\'static>(a4) }',
    "ws": 'g("\ta\t\n\tb \n \t c\t\n  d\t \n\n  \n", a1)', "wsraw": 'g(r"\ta\t\n\tb \n\t c\t\n\t", a1)',
}
SHORT = ["id", "call", "long", "uni", "raw", "ml"]
GAPS = {"sp": " ", "sp3": "   ", "nl": "\n", "nlin": "\n      ", "nl2": "\n\n  ", "tab": "\t", "cm": " /* c */ ", "cml": "/* é\n x */", "lc": " // c\n    "}
TRUNC = [None, "-"] + list(range(13))
PADS = [None, "top", "bottom", "both", "-"]
HELPERS = ["pretty_stringify", "one_line_stringify", "excerpted_pretty_stringify", "truncate_lit_str"]


def one(key, node):
    return Case(key, lambda: [(None, node)], None, errors_ok=True)


def gaps(c):
    for sk, text in SHAPES.items():
        base = tokens(text)
        slots = range(len(base) - 1)
        for k in (0, 1, 2):
            if k == 2 and not (c.thorough or sk in SHORT):
                continue
            for where in itertools.combinations(slots, k):
                for gs in itertools.product(GAPS, repeat=k):
                    toks = [list(x) for x in base]
                    for w, g in zip(where, gs):
                        toks[w][1] = GAPS[g]
                    for h in HELPERS:
                        if h == "truncate_lit_str" and (k or sk == "mac"):
                            continue
                        o = {"show_line_num": 1} if h == "pretty_stringify" else {"truncate_str": "-"} if h == "one_line_stringify" and sum(where) % 2 else {}
                        yield one(f"gap:{h}:{sk}:{','.join(map(str, where))}:{','.join(gs)}", Help(h, o, toks))


LAY = {
    "1": 'g("0123456789abcdef", a1)', "2": 'g("0123456789abcdef",\n      a1)', "3": 'g(\n   a1,\n"0123456789abcdef")', "5": 'a1\n  .m()\n  .m("0123456789abcdef")\n    .h()\n.f', "6": "g(\n 1,\n 2,\n 3,\n 4\n)",
    "8": 'g(\n\n 1,\n "ab\ncd",\n 3,\n)', "ml": '"one is a long line\ntwo\nthree is a long line\nfour\nfive is a long line\nsix"', "12": "g(\n" + "".join(f"  {i},\n" for i in range(10)) + ")",
    "tabs": '"\tone\t\n\ttwo is a long line\t\n \tthree\t "',
}
LAY2 = {"11": "g(\n" + "".join(f"  {i},\n" for i in range(9)) + ")", "12": LAY["12"], "13": "a1\n" + "\n".join(f"  .m{i}()" for i in range(12)), "24": "g(\n" + "".join(f"  \"{i:*>15}\",\n" for i in range(22)) + ")",
        "130": "g(\n" + "".join(f"  {i},\n" for i in range(128)) + ")"}


def options():
    for lk, text in LAY.items():
        toks = tokens(text)
        for n, tr, show, pad in itertools.product([None] + list(range(1, 8)), TRUNC, (0, 1), PADS):
            o = {}
            if n is not None:
                o["excerpt_line"] = n
            if tr is not None:
                o["truncate_str"] = tr
            if show:
                o["show_line_num"] = 1
            if pad is not None:
                o["padding"] = pad
            yield one(f"opt:excerpt:{lk}:{o}", Help(HELPERS[2], o, toks))
            if n is None:
                for h in (HELPERS[0], HELPERS[1], HELPERS[3]):
                    if h == HELPERS[3] and (show or pad):
                        continue
                    yield one(f"opt:{h}:{lk}:{o}", Help(h, o, toks))
    for lk, text in LAY2.items():
        toks = tokens(text)
        for n in [None] + list(range(1, 28)) + [99, 100, 127, 128, 129, 130, 131, 1000]:
            for o in ({}, {"truncate_str": 4}, {"padding": "both"}):
                yield one(f"opt-long:{lk}:{n}:{o}", Help(HELPERS[2], {**({} if n is None else {"excerpt_line": n}), **o}, toks))
        for h in (HELPERS[0], HELPERS[1], HELPERS[3]):
            yield one(f"opt-long:{h}:{lk}", Help(h, {}, toks))
    long = lit("0123456789abcdefghijklmnopqrstuvwxyz" * 8)
    for tr in list(range(13, 40)) + [63, 64, 65, 127, 128, 255, 256, 257, 286, 287, 288, 289, 1000]:
        for h in HELPERS[1:]:
            yield one(f"opt-trunc:{h}:{tr}", Help(h, {"truncate_str": tr}, tokens(f"g({long}, a1)")))
    toks = tokens(LAY["5"])
    full = {"excerpt_line": 3, "truncate_str": 6, "show_line_num": 1, "padding": "both"}
    for perm in itertools.permutations(full):
        o = {k: full[k] for k in perm}
        for sep in (", ", ",", " ,\n"):
            yield one(f"order:{'/'.join(perm)}:{sep!r}", Help(HELPERS[2], o, toks, sep=sep))
        yield one(f"order-semi:{'/'.join(perm)}", Help(HELPERS[2], o, toks, opts=opts_src(o)[:-2] + "; "))
        twice = opts_src({k: {"excerpt_line": 2, "truncate_str": 3, "show_line_num": 1, "padding": "bottom"}[k] for k in perm}) + opts_src(o)
        yield one(f"order-twice:{'/'.join(perm)}", Help(HELPERS[2], o, toks, opts=twice))


def strings(c):
    for s in seqs("aé😀\n", 0, 5 if c.thorough else 4):
        v = "".join(s)
        for n in range(0, 6):
            yield one(f"str:{v!r}:{n}", Help("truncate_lit_str", {"truncate_str": n}, tokens(lit(v))))
    for k in range(0, 15):
        for tail in ("", "\n", "\nab", "\n" + "xyzxyzxyzxyz", '"', "\\", "\té"):
            v = "abcdefghijklmno"[:k] + tail
            for n in list(range(0, 15)) + ["-"]:
                for h in ("truncate_lit_str", "excerpted_pretty_stringify"):
                    yield one(f"len:{h}:{v!r}:{n}", Help(h, {"truncate_str": n}, tokens(f"g({lit(v)}, a1)")))


def lines():
    for at in (9, 99, 998, 9995, 9996, 9997, 9998, 9999, 10000, 99998):
        for h in (HELPERS[0], HELPERS[2]):
            for lay in ("1", "2", "3", "6"):
                o = {"show_line_num": 1, "padding": "both"}
                yield at, f"line:{at}:{h}:{lay}", lambda pad, h=h, lay=lay, o=o: Help(h, o, tokens(LAY[lay]), lines=pad)


def hooked():
    for sk, text in [x for x in SHAPES.items() if x[0] != "try"] + [("lay" + k, v) for k, v in LAY.items()]:
        base = tokens(text)
        if text[0] in "|{im\"" or sk == "id":
            base = [["(", ""]] + base + [[")", ""]]
        for kind in ("question", "return", "tail"):
            for h in HELPERS[:3]:
                for o in ({}, {"truncate_str": 5}, {"excerpt_line": 3}, {"excerpt_line": 2, "truncate_str": "-", "padding": "top", "show_line_num": 1}):
                    if h == HELPERS[0] and "truncate_str" in o:
                        continue
                    yield one(f"hooked:{kind}:{h}:{sk}:{o}", Hooked(h, o, base, kind))


def check(c):
    d = project()

    def cases():
        yield from gaps(c)
        yield from options()
        yield from strings(c)
        yield from hooked()
    c.expand("helpers", cases(), STD, d)
    from .. import run

    def far():
        for at, k, mk in lines():
            # one program per case: the expression sits on line `at`
            yield None, [one(k, mk(at - run.STUB_LINES - 1 if at > run.STUB_LINES else 0))], STD
    c.expand_groups("line number width", far(), per_job=10)
