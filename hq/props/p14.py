"""P14: `#[hooq::FIELD = FLAVOR]` takes exactly that field from the flavor; later settings override, lists of one element accumulate as documented."""
from ..common import *
from .. import build
from .p13 import presets, resolve, toml_of, SPELL, lookup

BOUNDS = {
    "quick": "all sequences of settings attributes to length 3 on one element (7 fields from 2 flavors, to length 2 also from a flavor whose fields are all set and empty, the whole flavor, 10 direct forms); all pairs on nested elements over 5 carriers "
             "and 4 root flavors; every field x every preset and user flavor x 6 spellings; every carrier; all sequences to length 3 of 10 identifier-list attributes (0..3 entries) and of 8 target/type lists; 10 identifiers x 8 uses",
    "thorough": "as quick with all sequences to length 3 also split over two nested elements in every way, and length 4 over the list-valued settings",
}
TABLES = {
    "default": {"method": ".d($nth)", "bindings": {"x": "a63"}},
    "A": {"trait_uses": ["crate::p::Tr"], "method": ".h1($nth)", "hook_targets": ["return", "tail_expr"], "tail_expr_idents": ["h1", "!h2"], "ignore_tail_expr_idents": ["Good"],
          "result_types": ["MyResult"], "hook_in_macros": False, "bindings": {"x": "a60", "u": "a61"},
          "sub": {"s": {"method": "w2($expr, $nth)", "hook_targets": ["all"], "tail_expr_idents": ["Err"], "ignore_tail_expr_idents": [], "hook_in_macros": True, "bindings": {"y": "a0"}}}},
    "C": {"trait_uses": [], "method": ".h2($line) !", "hook_targets": [], "tail_expr_idents": [], "ignore_tail_expr_idents": [], "result_types": [], "hook_in_macros": False, "bindings": {}},
    "B": {"method": "w($expr, $nth)", "hook_targets": ["?"], "tail_expr_idents": ["h2", "Err"], "result_types": ["Option", "Result"], "bindings": {"x": "a59", "y": "1 + 2"}},
}
FIELDS = ("flavor", "method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings")
DIRECT = [("method", ".h2($nth)"), ("hook_targets", ["tail_expr", "?"]), ("hook_targets", []), ("tail_expr_idents", ["h2", "!Good"]), ("tail_expr_idents", ["h1"]), ("tail_expr_idents", ["!h1"]),
          ("ignore_tail_expr_idents", ["h2"]), ("ignore_tail_expr_idents", []), ("result_types", ["Option"]), ("hook_in_macros", True), ("binding", "x", "a58"), ("bind", "z", "a57")]
ALPHA = [("from", f, fl) for f in FIELDS for fl in ("A", "B")] + DIRECT
EMPTIES = [("from", f, "C") for f in FIELDS]       # a flavor whose every field is set, and empty
WIDE = ALPHA + EMPTIES


def key(at):
    return "+".join((a[1] + "=" + a[2]) if a[0] == "from" else a[0] + ":" + str(a[1:]) for a in at) or "-"


def fns(N, at=()):
    a = N.x
    return [
        Fn(blk(stmt(Q(a())), stmt(If(a(), blk(stmt(Ret(a()))))), stmt(If(a(), blk(stmt(Ret(call("Err", a())))))), stmt(Mac([(Q(a()), ", "), (a(), "")], name="tup")),
               stmt(If(a(), blk(tail=call("h1", a())), blk(tail=call("h2", a())))), tail=call("Good", a())), name="f1", ret="Result<i32, String>", attrs=at),
        Fn(blk(stmt(If(a(), blk(stmt(Ret(call("Ok", a())))))), tail=call("Ok", a())), name="f5", ret="Result<i32, String>", attrs=at),
        Fn(blk(tail=call("h2", a())), name="f2", ret="MyResult<i32>", attrs=at),
        Fn(blk(tail=call("h1", a())), name="f3", ret="Option<i32>", attrs=at),
        Fn(blk(stmt(Q(a())), stmt(Ret(a()))), name="f4", ret="MyResult<i32>", attrs=list(at) + [("method", ".h3($bindings, $nth)"), ("hook_targets", ["all"])]),
    ]


def small(N):
    a = N.x
    return blk(stmt(Q(a())), stmt(If(a(), blk(stmt(Ret(a()))))), stmt(If(a(), blk(tail=call("h1", a())), blk(tail=call("Err", a())))), stmt(Mac([(Q(a()), "")], name="tup")), tail=call("Good", a()))


CARRY = {
    "mod": lambda N, at: [Group("mod sub", [Raw("use crate::p::*;")] + fns(N), attrs=at)],
    "impl": lambda N, at: [Group("impl S", [Fn(small(N), name="m1", params="&self"), Fn(small(N), name="m2", params="&self", ret="MyResult<i32>")], attrs=at)],
    "impl-fn": lambda N, at: [Group("impl S", [Fn(small(N), name="m1", params="&self", attrs=at), Fn(small(N), name="m2", params="&self", ret="MyResult<i32>")])],
    "trait-fn": lambda N, at: [Group("trait T", [Fn(small(N), name="m1", params="&self", attrs=at), Fn(small(N), name="m2", params="&self", ret="MyResult<i32>")])],
    "block": lambda N, at: [Fn(blk(stmt(Q(N.x())), stmt(BlkX(small(N), attrs=at)), tail=call("Err", N.x())), name="f", ret="MyResult<i32>")],
    "closure": lambda N, at: [Fn(blk(stmt(Q(N.x())), Let("_v", Closure(small(N), ret="Option<i32>", attrs=at)), tail=call("Err", N.x())), name="f", ret="MyResult<i32>")],
    "stmt": lambda N, at: [Fn(blk(Let("_v", BlkX(small(N)), attrs=at), stmt(Q(N.x())), tail=call("Err", N.x())), name="f", ret="MyResult<i32>")],
    "match": lambda N, at: [Fn(blk(stmt(Match(Q(N.x()), [("0", None, call("h1", N.x())), ("_", None, small(N))], attrs=at)), tail=call("h2", N.x())), name="f", ret="Option<i32>")],
    "question": lambda N, at: [Fn(blk(Let("_v", Q(call("g", Q(N.x())), attrs=at)), tail=call("h2", N.x())), name="f")],
    "return": lambda N, at: [Fn(blk(stmt(Ret(call("h1", Q(N.x())), attrs=at)), tail=call("h2", N.x())), name="f", ret="MyResult<i32>")],
    "tail": lambda N, at: [Fn(blk(stmt(Q(N.x())), tail=call("h1", Q(N.x()), attrs=at)), name="f", ret="MyResult<i32>")],
    "macro": lambda N, at: [Fn(blk(Let("_v", Mac([(Q(N.x()), ", "), (call("Err", N.x()), "")], name="tup", attrs=at)), stmt(Q(N.x()))), name="f")],
    "inner-fn": lambda N, at: [Fn(blk(item_stmt(Fn(small(N), name="g1", attrs=at)), stmt(Q(N.x())), tail=call("h1", N.x())), name="f", ret="MyResult<i32>")],
}


def case(k, mk, root, flavor):
    def b():
        N = Names()
        return [(root, it) for it in mk(N)]
    return Case(k, b, flavor, errors_ok=True, trait_use=())


def cases(c, FL):
    dflt = FL["default"]
    for s in itertools.chain(seqs(WIDE, 1, 2), seqs(ALPHA, 3, 3)):
        yield case("seq:" + key(s), lambda N, s=s: [Group("mod sub", [Raw("use crate::p::*;")] + fns(N, s if len(s) < 3 else ()), attrs=s if len(s) == 3 else ())], "", dflt)
    for s in seqs(WIDE, 2, 2):
        for outer, inner in (("mod", "fn"), ("fn", "block"), ("block", "closure"), ("impl", "impl-fn"), ("inner-fn", "match")):
            for root in ("", "A", "empty"):
                if root and (outer, inner) not in (("mod", "fn"), ("fn", "block")):
                    continue
                o, i = [s[0]], [s[1]]

                def mk(N, outer=outer, inner=inner, o=o, i=i):
                    if (outer, inner) == ("mod", "fn"):
                        return [Group("mod sub", [Raw("use crate::p::*;")] + fns(N, i) + [Fn(small(N), name="z")], attrs=o)]
                    if (outer, inner) == ("fn", "block"):
                        return [Fn(blk(stmt(BlkX(small(N), attrs=i)), stmt(Q(N.x())), tail=call("h1", N.x())), attrs=o, ret="MyResult<i32>")]
                    if (outer, inner) == ("block", "closure"):
                        return [Fn(blk(stmt(BlkX(blk(Let("_v", Closure(small(N), ret="Option<i32>", attrs=i)), tail=Q(N.x())), attrs=o)), tail=call("h2", N.x())))]
                    if (outer, inner) == ("impl", "impl-fn"):
                        return [Group("impl S", [Fn(small(N), name="m1", attrs=i), Fn(small(N), name="m2", ret="MyResult<i32>")], attrs=o)]
                    return [Fn(blk(item_stmt(Fn(blk(stmt(Match(Q(N.x()), [("0", None, call("h1", N.x())), ("_", None, small(N))], attrs=i)), tail=call("h2", N.x())), name="i", attrs=o)),
                                   tail=call("h1", N.x())), ret="MyResult<i32>")]
                yield case(f"nest:{outer}/{inner}:{root}:{key(s)}", mk, root, FL[root or "default"])
    for a in WIDE:
        for k, mk in CARRY.items():
            for root in ("", "B", "A::s"):
                yield case(f"carry:{k}:{root}:{key([a])}", lambda N, mk=mk, a=a: mk(N, [a]), root, lookup(FL, (root or "default").split("::")))
    if c.thorough:
        for s in seqs(ALPHA, 3, 3):
            for cut in (1, 2):
                yield case(f"split{cut}:{key(s)}", lambda N, s=s, cut=cut: [Group("mod sub", [Raw("use crate::p::*;")] + fns(N, s[cut:]), attrs=s[:cut])], "", dflt)
        LISTS = [a for a in ALPHA if "tail_expr_idents" in (a[0], a[1]) or a[0] == "ignore_tail_expr_idents"] + [("from", "flavor", "B")]
        for s in seqs(LISTS, 4, 4):
            yield case("lists:" + key(s), lambda N, s=s: fns(N, s)[:3], "", dflt)


IDL = [("tail_expr_idents", l) for l in ([], ["h1"], ["h1", "!Good"], ["!h1", "!h2"], ["h2", "h1", "Err"], ["!Good", "!Ok", "!Err"])] + \
      [("ignore_tail_expr_idents", l) for l in ([], ["h2"], ["h1", "Good"], ["Err", "h2", "Ok"])]
LST = [("hook_targets", l) for l in ([], ["?"], ["return", "tail_expr"], ["all"])] + [("result_types", l) for l in ([], ["Option"], ["MyResult", "Result"], ["Option", "MyResult", "Result"])]
IDENTS = ["my_err", "_e", "e1", "Ö", "oops_2", "E", "Errr", "H1", "ok", "Self_"]


def repeated(FL):
    """repeated list-valued attributes with lists of 0..3 entries, over empty and non-empty inherited lists"""
    for s in seqs(IDL, 1, 3):
        for root in ("", "A") if len(s) < 3 else ("",):
            yield case(f"lists:{root}:{key(s)}", lambda N, s=s: fns(N, s)[:4], root, FL[root or "default"])
    for s in seqs(LST, 1, 3):
        yield case("lists2:" + key(s), lambda N, s=s: fns(N, s)[:4], "B", FL["B"])
    for s in seqs(IDL, 2, 2):
        yield case("lists-nested:" + key(s), lambda N, s=s: [Group("mod sub", [Raw("use crate::p::*;")] + fns(N, [s[1]])[:4], attrs=[s[0]])], "", FL["default"])
    for n in IDENTS:
        for at in ([("tail_expr_idents", [n])], [("tail_expr_idents", ["!" + n])], [("ignore_tail_expr_idents", [n])], [("tail_expr_idents", ["h1", "!" + n, "h2"])], [("tail_expr_idents", [n, "!" + n])],
                   [("tail_expr_idents", [n + "x", "!x" + n])], [("result_types", [n])], [("result_types", ["Option", n])]):
            def mk(N, n=n, at=at):
                a = N.x
                return [Fn(blk(stmt(If(a(), blk(stmt(Ret(call(n, a())))))), stmt(If(a(), blk(stmt(Ret(call("h1", a())))))), tail=call(n, a())), name="f1", ret=r, attrs=at)
                        for r in ("Result<i32, String>", "i32", f"{n}<i32>", f"crate::p::{n}<i32>")]
            yield case(f"ident:{n}:{key(at)}", mk, "", FL["default"])


SP = {"path": lambda p: "::".join(p), "str-dot": lambda p: '"' + ".".join(p) + '"', "str-path": lambda p: '"' + "::".join(p) + '"', "raw": lambda p: 'r"' + "::".join(p) + '"',
      "mixed": lambda p: '"' + ".".join(p[:1]) + "".join("::" + x for x in p[1:]) + '"', "spaced": lambda p: " :: ".join(p)}


def spelled(FL):
    paths = [("default",), ("empty",), ("hook",), ("log",), ("log", "warn"), ("tracing",), ("tracing", "info"), ("anyhow",), ("eyre",), ("color_eyre",), ("A",), ("A", "s"), ("B",), ("C",)]
    fl = dict(FL)
    for p in paths:
        fl["::".join(p)] = lookup(FL, p)
    for p in paths:
        for k, sp in SP.items():
            for f in FIELDS:
                at = [("from", f, "::".join(p), sp(p))]
                yield case(f"spell:{k}:{f}:{'.'.join(p)}", lambda N, at=at: [Group("mod sub", [Raw("use crate::p::*;")] + fns(N), attrs=[("binding", "level", "a4")] + at)], "B", FL["B"])
                yield case(f"spell-fn:{k}:{f}:{'.'.join(p)}", lambda N, at=at: fns(N, [("binding", "level", "a5")] + at), "", FL["default"])


def check(c):
    FL = resolve(TABLES, presets())
    d = project(toml_of(TABLES))
    ex = build.ensure_stubs()
    c.expand("sequences and nesting", cases(c, FL), FL, d, extra=ex)
    c.expand("repeated lists", repeated(FL), FL, d, extra=ex)
    fl = dict(FL)
    for n, f in list(FL.items()):
        for k, s in f.subs.items():
            fl[f"{n}::{k}"] = s
    c.expand("every field of every flavor", spelled(FL), fl, d, extra=ex)
