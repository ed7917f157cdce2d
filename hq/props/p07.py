"""P07: $line/$column/$path/$file are the position of the `?`, of the `return`, or of the first token of the tail expression."""
import os
import shutil
import tempfile
from ..common import *
from .. import run
from ..lang import Node, lit

BOUNDS = {
    "quick": "all triples of layout gaps (space, newline, tab, CRLF, comments with multi-byte text and newlines, doc-like and nested comments) before a site, "
             "inside it and after a preceding site on the same line, for each site kind; 14 operand shapes with multi-byte and multi-line literals; "
             "10 source paths; modules in other files and include!",
    "thorough": "as quick with gap sequences of length 4",
}
GAP = {"sp": " ", "sp3": "   ", "nl": "\n", "nl2": "\n\n  ", "tab": "\t", "crlf": "\r\n ", "c": "/* c */", "cu": "/* é日本😀 */", "cnl": "/* a\n é */",
       "lc": "// 日本 ?\n", "nest": "/* /* ? */ */ ", "none": ""}
OPERAND = {
    "id": "a1", "uni": 'g("é日本")', "emoji": 'g("😀", a1)', "ml": 'g("x\ny")', "mlu": 'g("é\n 日本")', "cont": 'g("x\\\n   y")', "raw": 'g(r#"a"é\n"#)', "bytes": "g(b\"x\")",
    "call": "g(\n  a1,\n  a2)", "chain": "a1\n    .m()\n    .m()", "chr": "g('é')", "life": "g::<'static>()", "esc": r'g("\u{1F600}\n")', "blk": "{\n a1\n}",
}


class GQ(Q):
    def __init__(self, e, gap):
        super().__init__(e)
        self.gap = gap

    def emit_body(self, b):
        self.e.emit(b)
        b.w(self.gap)
        self.qp = b.pos()
        b.w("?")


class GRet(Ret):
    def __init__(self, e, gap):
        super().__init__(e)
        self.gap = gap

    def emit_body(self, b):
        b.w("return")
        b.w(self.gap or " ")
        self.e.emit(b)


def gap(g):
    return Stmt(GAP[g], label="gap")


HP = ("method", ".h($line, $column, $col, $path, $file, $nth)")


def layouts(c):
    names = list(GAP)
    four = ([()] if not c.thorough else []) + ([(x,) for x in names] if c.thorough else [])
    for kind in ("q", "ret", "tail", "qq", "macro", "clo"):
        for g1, g2, g3 in itertools.product(names, repeat=3):
            for rest in four:
                if rest and (g1 == "none" or kind in ("macro", "clo")):
                    continue
                def mk(N, kind=kind, g1=g1, g2=g2, g3=g3, rest=rest):
                    pre = [gap(x) for x in (g1,) + rest]
                    if kind == "q":
                        return blk(stmt(Q(N.x())), *pre, semi(GQ(N.x(), GAP[g2])), gap(g3), stmt(Q(N.x())))
                    if kind == "ret":
                        return blk(stmt(If(N.x(), blk(*pre, semi(GRet(call("Err", N.x()), GAP[g2]))))), gap(g3), stmt(Q(N.x())))
                    if kind == "tail":
                        return blk(stmt(Q(N.x())), *pre, semi(GQ(N.x(), GAP[g2])), gap(g3), tail=call("Err", N.x()))
                    if kind == "qq":
                        return blk(*pre, semi(GQ(X(GQ(N.x(), GAP[g2]), GAP[g3], ".m()"), GAP[g1])), stmt(Q(N.x())))
                    if kind == "macro":
                        return blk(*pre, Let("_v", Mac([(GQ(N.x(), GAP[g2]), ","), (X(GAP[g3], Q(N.x())), "")], name="tup")), tail=call("Ok", N.x()))
                    return blk(*pre, Let("_v", Closure(X(GAP[g3], GQ(N.x(), GAP[g2])))), stmt(Q(N.x())))
                yield fn_case(f"layout:{kind}:{g1}:{g2}:{g3}:{'/'.join(rest)}", mk, attrs=[HP])


def operands():
    for (o, t), (o2, t2) in itertools.product(OPERAND.items(), repeat=2):
        for g in ("none", "nl", "cu", "tab"):
            def mk(N, t=t, t2=t2, g=g):
                a, b_ = fit_txt(t), fit_txt(t2)
                return blk(semi(GQ(a, GAP[g])), gap(g), semi(GQ(b_, GAP[g])), stmt(If(N.x(), blk(gap(g), semi(Ret(call("Err", txt(t))))))), gap(g), tail=call("Err", txt(t2)))
            yield fn_case(f"operand:{o}:{o2}:{g}", mk, attrs=[HP])


def txt(t):
    return X(t, label="lit")


def fit_txt(t):
    return par(txt(t)) if t.startswith("{") else txt(t)


# ---- attributes in front of the site
AT = {"none": [], "foreign": [("foreign", "#[allow(unused)]")], "foreign-nl": [("foreign", "#[allow(unused)]\n   ")], "hooq": [("binding", "v", "a1")], "skip": [("skip",)],
      "foreign-hooq": [("foreign", "#[allow(unused)]\n"), ("binding", "v", "a1")], "hooq-foreign": [("binding", "v", "a1"), ("foreign", '#[doc = "é日\n"]\n')],
      "two": [("foreign", "#[allow(unused)]"), ("foreign", "#[warn(unused)]\n ")]}


def attrs_before(c):
    """every attribute list on the site's own element, its operand and the element around it"""
    end = {"call": lambda N, a: call("Err", N.x(), attrs=a), "q": lambda N, a: Q(N.x(), attrs=a), "chain": lambda N, a: X(N.x(), "\n .m()", attrs=a), "chain-q": lambda N, a: X(Q(N.x()), "\n .m()", attrs=a),
           "bin": lambda N, a: X(N.x(), " + ", Q(N.x())), "ret": lambda N, a: Ret(call("Err", N.x()), attrs=a), "mac": lambda N, a: X("tup!(", ")", attrs=a), "blk": lambda N, a: BlkX(blk(stmt(Q(N.x()))), attrs=a)}
    for (k, a), (k2, a2), (e, f) in itertools.product(AT.items(), AT.items(), end.items()):
        if e == "bin" and k != "none" or e == "mac" and any(x[0] == "foreign" for x in a + a2):
            continue

        def mk(N, a=a, a2=a2, f=f):
            return blk(stmt(If(N.x(), blk(semi(Ret(f(N, a2), attrs=a))))), semi(Q(X("g(", f(N, a2), ")"), attrs=a)) if f is not end["bin"] and f is not end["ret"] else stmt(Q(N.x(), attrs=a)),
                       Let("_v", Closure(f(N, a), attrs=a2)), stmt(Match(N.x(), [("_", None, f(N, a))], attrs=a2)), tail=f(N, a))
        yield fn_case(f"attrs:{e}:{k}:{k2}", mk, attrs=[HP])


# ---- paths
PATHS = ["s.rs", "d/s.rs", "d/e/s.rs", "./s.rs", "d/../s.rs", "d e/s s.rs", "dé/日本.rs", "a.b/s.x.rs", "ABS/s.rs", "ABS/d/s.rs"]


def path_case(N=None):
    N = Names()
    return [("", Fn(blk(stmt(Q(N.x())), stmt(If(N.x(), blk(stmt(Ret(call("Err", N.x())))))), tail=call("Err", Q(N.x()))), attrs=[HP]))]


def paths(c):
    """the same program at different source paths, as the crate root, as a `mod` file, through #[path] and through include!"""
    hooq, man = c.hooq(), project()
    fails, n = [], 0
    for form in ("root", "mod", "path", "include"):
        for p in PATHS:
            work = tempfile.mkdtemp(prefix="hq-")
            try:
                rel = p.replace("ABS", work + "/x")
                full = os.path.join(work, rel)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                os.makedirs(os.path.join(work, "d"), exist_ok=True)
                case = Case(f"path:{form}:{p}", path_case)
                line = run.STUB_LINES + 1 if form == "root" else 1
                t, e, m = run.emit_case(0, case, STD, line, rel, None, True)
                inner = t if form == "root" else t.replace("mod c0 { ", "", 1).rstrip()[:-1]
                if form != "root":
                    # positions shift: lay the file out again from its own start
                    N = path_case()
                    b = Buf(1)
                    b.w("use crate::p::*; #[::hooq::hooq] ")
                    N[0][1].emit(b)
                    m = Model(path=rel, flavors=STD)
                    m.text = b.text()
                    inner = b.text() + "\n"
                    e = "mod e0 { use crate::p::*; " + N[0][1].walk(m, ctx_of(STD["default"])) + " }\n"
                if form == "root":
                    d, err = run.expand(hooq, c.canon, work, full[:-3] if "ABS" in p else rel[:-3], run.STUBS + t + e, man)
                else:
                    with open(full, "w") as f:
                        f.write(inner)
                    # rustc names such a file relative to the directory of the file that names it
                    if form == "include":
                        head = "mod c0 { include!(%s); }\n" % lit(rel)
                    elif form == "path":
                        head = "#[path = %s] mod c0;\n" % lit(rel)
                    else:
                        if p != "s.rs":
                            continue
                        os.rename(full, os.path.join(work, "c0.rs"))
                        head = "mod c0;\n"
                        e = e.replace('"s.rs"', '"c0.rs"')
                    d, err = run.expand(hooq, c.canon, work, "main", run.STUBS + head + e, man)
                n += 1
                got = (d or {}).get("c0", "<nothing> " + err[-500:])
                exp = (d or {}).get("e0", "")
                if got != exp:
                    fails.append(Failure(case.key, "expansion differs", inner, e, got, exp))
            finally:
                shutil.rmtree(work, ignore_errors=True)
    c.record("source paths", n, fails, paths=PATHS)


def check(c):
    def cases():
        yield from layouts(c)
        yield from operands()
        yield from attrs_before(c)
    c.expand("layouts", cases(), STD, project())
    paths(c)
