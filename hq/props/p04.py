"""P04: settings attributes act lexically, from their element inwards; they vanish from the output and foreign attributes stay."""
from ..common import *
from ..lang import Sty, attr_src

BOUNDS = {
    "quick": "every settings attribute (11 forms) on every slot and on its content, siblings probed before and after; every pair of attributes "
             "on nested elements; small slot set at depth 2 with the attribute on either level; attribute on every carrier (let, fields, "
             "closure bodies, items, macros); all interleavings of foreign attributes with hooq attributes up to length 3; every attribute in 8 spellings and as an inner attribute of 14 constructs; every attribute on each child of 37 list-like constructs with up to 5 children; every slot nested in itself with another setting on each level",
    "thorough": "as quick with the core slot set at depth 2, both levels, and pairs on all slots, lists of up to 7 children, 22 nested settings",
}
BASE = [("method", ".h0($v, $nth)"), ("binding", "v", "a0")]
SET = {
    "method": ("method", ".h1($v)"),
    "methodr": ("method", "w($expr, $v)"),
    "targets": ("hook_targets", ["return"]),
    "targets0": ("hook_targets", ["?", "tail_expr"]),
    "tails": ("tail_expr_idents", ["g", "!Err"]),
    "ign": ("ignore_tail_expr_idents", ["Err", "g"]),
    "rtypes": ("result_types", ["i32"]),
    "nomac": ("hook_in_macros", False),
    "bind": ("binding", "v", "a60"),
    "var": ("var", "v", "a61"),
    "bind2": ("bind", "v", "a62"),
}


def probe(N):
    return BlkX(blk(stmt(Q(N.x())), Mac([(Q(N.x()), ", "), (N.x(), "")], name="tup", stmt_semi=";"),
                    stmt(If(N.x(), blk(stmt(Ret(N.x()))))), stmt(If(N.x(), blk(stmt(Ret(call("g", N.x())))))),
                    stmt(If(N.x(), blk(tail=call("g", N.x())), blk(tail=call("Err", N.x()))))))


def sibling(N):
    return [Mac([(Q(N.x()), "")], name="tup", stmt_semi=";"), stmt(If(N.x(), blk(stmt(Ret(N.x()))))), stmt(If(N.x(), blk(tail=call("Err", N.x()))))]


def nest(slots, at, ret="Result<i32, String>"):
    """at[i] = names of settings on level i; the last one on the probe"""
    def mk(N):
        n = probe(N)
        n.attrs = [SET[x] for x in at[-1]]
        for lvl in range(len(slots) - 1, -1, -1):
            n = S[slots[lvl]](n, N, attrs=[SET[x] for x in at[lvl]])
        return blk(*sibling(N), stmt(n), *sibling(N), tail=call("Ok", N.x()))
    return fn_case(f"{'/'.join(slots)}:{'|'.join('+'.join(a) for a in at)}:{ret}", mk, attrs=BASE, ret=ret)


def carriers():
    for k in SET:
        for k2 in [None] + list(SET):
            a = [SET[k]] + ([SET[k2]] if k2 else [])
            mk = {
                "let": lambda N, a=a: blk(*sibling(N), Let("_v", probe(N), attrs=a), *sibling(N)),
                "letelse": lambda N, a=a: blk(*sibling(N), Let("Some(_v)", par(probe(N)), blk(stmt(probe(N)), tail=call("Err", N.x())), attrs=a), *sibling(N)),
                "ret": lambda N, a=a: blk(*sibling(N), stmt(If(N.x(), blk(stmt(Ret(probe(N), attrs=a))))), *sibling(N)),
                "retcall": lambda N, a=a: blk(*sibling(N), stmt(If(N.x(), blk(stmt(Ret(call("g", Q(N.x())), attrs=a))))), *sibling(N)),
                "tailcall": lambda N, a=a: blk(*sibling(N), tail=call("g", Q(N.x()), attrs=a)),
                "tailerr": lambda N, a=a: blk(*sibling(N), stmt(BlkX(blk(tail=call("Err", Q(N.x()), attrs=a)))), tail=call("Err", Q(N.x()), attrs=a)),
                "q": lambda N, a=a: blk(*sibling(N), stmt(Q(X("g(", probe(N), ")"), attrs=a)), *sibling(N)),
                "clo-battr": lambda N, a=a: blk(*sibling(N), Let("_v", Closure(blk(stmt(probe(N)), tail=call("g", N.x())), battrs=a)), *sibling(N)),
                "clo-attr": lambda N, a=a: blk(*sibling(N), Let("_v", Closure(probe(N), attrs=a)), *sibling(N)),
                "clo-body": lambda N, a=a: blk(*sibling(N), Let("_v", Closure(call("g", Q(N.x()), attrs=a))), *sibling(N)),
                "arm-body": lambda N, a=a: blk(*sibling(N), Let("_v", Match(N.x(), [("0", None, call("g", Q(N.x()), attrs=a)), ("_", Q(N.x()), call("Err", N.x()))])), *sibling(N)),
                "field": lambda N, a=a: blk(*sibling(N), Let("_v", X("S { ", FieldVal("f", probe(N), a), ", g: ", Q(N.x()), " }", struct=True, label="struct")), *sibling(N)),
                "macstmt": lambda N, a=a: blk(*sibling(N), Mac([(Q(N.x()), ", "), (probe(N), "")], name="tup", attrs=a, stmt_semi=";"), *sibling(N)),
                "inner-fn": lambda N, a=a: blk(*sibling(N), item_stmt(Fn(blk(stmt(probe(N)), tail=call("g", N.x())), name="i", ret="i32", attrs=a)), *sibling(N)),
                "fn": lambda N, a=a: blk(*sibling(N), stmt(probe(N)), tail=call("g", N.x())),
            }
            for name, f in mk.items():
                yield fn_case(f"carrier:{name}:{k}+{k2}", f, attrs=BASE + (a if name == "fn" else []))

            def mod(a=a):
                N = Names()
                return [("", Group("mod sub", [Raw("use crate::p::*;"),
                                               Group("impl S", [Fn(blk(*sibling(N), tail=probe(N)), name="m", params="&self", attrs=a),
                                                                Fn(blk(*sibling(N)), name="m2"),
                                                                ItemX("const C: i32 = ", Q(N.x()), ";", attrs=a),
                                                                ItemX("const D: i32 = ", Q(N.x()), ";")]),
                                               Group("impl Q", [Fn(blk(*sibling(N)), name="m")], attrs=a),
                                               Group("trait T", [Fn(blk(*sibling(N)), name="m")], attrs=a),
                                               Group("trait T2", [Fn(blk(*sibling(N)), name="m", attrs=a), Fn(blk(*sibling(N)), name="m2"),
                                                                  ItemX("const C: i32 = ", Q(N.x()), ";", attrs=a)]),
                                               Group("mod sub2", [Raw("use crate::p::*;"), Fn(blk(*sibling(N)), name="m2")], attrs=a),
                                               Mac([(ItemX("const _C: i32 = ", Q(N.x()), ";"), "")], name="raw", attrs=a, stmt_semi=";"),
                                               ItemX("static _C: i32 = ", Q(N.x()), ";", attrs=a),
                                               Fn(blk(*sibling(N)), name="f2")], attrs=BASE))]
            yield Case(f"items:{k}+{k2}", mod)


STYLES = ("colon", "spaced", "lines", "braces", "brackets", "comma", "raw", "escape")


def styles():
    """every way Rust lets one write the attribute; inner attributes"""
    every = dict(SET, skip=("skip",), skip_all=("skip_all",), targetsall=("hook_targets", ["all"]), targetsnone=("hook_targets", []), inmac=("hook_in_macros", True))
    place = {
        "let": lambda N, a: blk(*sibling(N), Let("_v", probe(N), attrs=a), *sibling(N)),
        "block": lambda N, a: blk(*sibling(N), stmt(BlkX(probe(N).block, attrs=a)), *sibling(N)),
        "clo": lambda N, a: blk(*sibling(N), Let("_v", Closure(probe(N), attrs=a)), *sibling(N)),
        "tail": lambda N, a: blk(*sibling(N), tail=call("Err", Q(N.x()), attrs=a)),
        "inner-fn": lambda N, a: blk(*sibling(N), item_stmt(Fn(blk(stmt(probe(N)), tail=call("g", N.x())), name="i", attrs=a)), *sibling(N)),
        "fn": lambda N, a: blk(stmt(probe(N)), tail=call("g", N.x())),
    }
    for k, at in every.items():
        for st in STYLES:
            if attr_src(Sty(at, st)) == attr_src(at):
                continue
            for name, f in place.items():
                a = [Sty(at, st)]
                yield fn_case(f"style:{st}:{name}:{k}", lambda N, f=f, a=a: f(N, a), attrs=BASE + (a if name == "fn" else []))
        inner = {
            "block": lambda N, a: stmt(BlkX(probe(N).block, attrs=a)), "lblock": lambda N, a: stmt(BlkX(probe(N).block, "'l: ", attrs=a)),
            "unsafe": lambda N, a: stmt(BlkX(probe(N).block, "unsafe ", attrs=a)), "loop": lambda N, a: stmt(BlkX(probe(N).block, "loop ", attrs=a)),
            "while": lambda N, a: stmt(BlkX(probe(N).block, "while ", cond=Q(N.x()), attrs=a)), "for": lambda N, a: stmt(BlkX(probe(N).block, "for _v in ", cond=Q(N.x()), attrs=a)),
            "match": lambda N, a: stmt(Match(Q(N.x()), [("0", None, probe(N)), ("_", Q(N.x()), call("Err", N.x()))], attrs=a)),
            "clo-body": lambda N, a: Let("_v", Closure(BlkX(probe(N).block, attrs=a))),
            "fn": lambda N, a: item_stmt(Fn(blk(stmt(probe(N)), tail=call("g", N.x())), name="i", attrs=a)),
            "impl": lambda N, a: item_stmt(Group("impl S", [Fn(blk(stmt(probe(N)), tail=call("g", N.x())), name="i"), ItemX("const C: i32 = ", Q(N.x()), ";")], attrs=a)),
            "impl-fn": lambda N, a: item_stmt(Group("impl S", [Fn(blk(stmt(probe(N)), tail=call("g", N.x())), name="i", attrs=a), ItemX("const C: i32 = ", Q(N.x()), ";")])),
            "trait-fn": lambda N, a: item_stmt(Group("trait T", [Fn(blk(stmt(probe(N)), tail=call("g", N.x())), name="i", attrs=a), Fn(blk(stmt(probe(N))), name="i2")])),
            "trait": lambda N, a: item_stmt(Group("trait T", [Fn(blk(stmt(probe(N)), tail=call("g", N.x())), name="i")], attrs=a)),
            "mod": lambda N, a: item_stmt(Group("mod inner", [Raw("use crate::p::*;"), Fn(blk(stmt(probe(N)), tail=call("g", N.x())), name="i")], attrs=a)),
        }
        for name, f in inner.items():
            for pre in ((), (("method", ".h5()"), ("binding", "v", "a63"))):
                a = [*pre, Sty(at, "inner")]
                yield fn_case(f"inner:{name}:{k}:{len(pre)}", lambda N, f=f, a=a: blk(*sibling(N), f(N, a), *sibling(N)), attrs=BASE)
        a = [Sty(at, "inner")]
        yield fn_case(f"inner:self:{k}", lambda N: blk(stmt(probe(N)), tail=call("g", N.x())), attrs=BASE + a)


FOREIGN = [("foreign", "#[allow(unused)]"), ("foreign", '#[doc = "x"]'), ("foreign", "#[rustfmt::skip]"), ("foreign", "#[warn(clippy::all)]"), ("foreign", "#[cfg_attr(any(), hooq::skip)]")]
HQ = [("method", ".h9()"), ("skip",), ("skip_all",), ("binding", "v", "a9"), ("hook_targets", ["?"]), ("result_types", ["i32"])]


def foreign(c):
    al = FOREIGN + HQ
    for seq in seqs(al, 1, 3 if c.thorough else 2):
        if not any(x[0] == "foreign" for x in seq):
            continue
        tag = "+".join(x[1] if x[0] == "foreign" else x[0] for x in seq)
        a = list(seq)

        def mk(N, a=a):
            return blk(Let("_v", Q(N.x()), attrs=a), stmt(Q(X("g(", Q(N.x()), ")"), attrs=a)), stmt(BlkX(blk(stmt(Q(N.x()))), attrs=a)),
                       Let("_v", Closure(Q(N.x()), attrs=a)), Let("_v", X("S { ", FieldVal("f", Q(N.x()), a), " }", struct=True)),
                       Mac([(Q(N.x()), "")], name="tup", attrs=[x for x in a if x[0] != "foreign"], stmt_semi=";"),
                       item_stmt(Fn(blk(stmt(Q(N.x()))), name="i", attrs=a)), item_stmt(ItemX("const _C: i32 = ", Q(N.x()), ";", attrs=a)),
                       item_stmt(Group("impl S", [Fn(blk(stmt(Q(N.x()))), name="m", attrs=a), ItemX("const C: i32 = ", Q(N.x()), ";", attrs=a)], attrs=a)),
                       tail=call("Err", N.x(), attrs=a))
        yield fn_case("foreign:" + tag, mk, attrs=BASE + a)


def wides(c):
    """one child of a list carries the attribute: its siblings see the settings of the list"""
    for w in WIDE:
        for n in (2, 3, 5) if not c.thorough else (2, 3, 4, 5, 7):
            for k in range(n):
                for a in SET:
                    if not c.thorough and a in ("targets0", "var", "bind2"):
                        continue

                    def mk(N, w=w, n=n, k=k, a=a):
                        ns = [BlkX(blk(stmt(Q(N.x())), tail=call("g", N.x()))) for _ in range(n)]
                        ns[k].attrs = [SET[a]]
                        return blk(stmt(WIDE[w](ns, N)), *sibling(N), tail=call("Ok", N.x()))
                    yield fn_case(f"wide:{w}:{n}:{k}:{a}", mk, attrs=BASE)


def towers(c):
    """one setting on every level of one slot nested in itself, each level setting another one"""
    ks = list(SET)
    for s in LABELS:
        for d in (5, len(ks)) if not c.thorough else (3, 4, 5, 7, len(ks), 2 * len(ks)):
            for rot in range(len(ks)) if c.thorough or d == 5 else (0,):
                def mk(N, s=s, d=d, rot=rot):
                    n = probe(N)
                    for k in range(d - 1, -1, -1):
                        n = S[s](n, N, attrs=[SET[ks[(k + rot) % len(ks)]]])
                    return blk(stmt(n), *sibling(N), tail=call("Ok", N.x()))
                yield fn_case(f"tower:{s}:{d}:{rot}", mk, attrs=BASE)


def cases(c):
    yield from wides(c)
    yield from towers(c)
    for s in LABELS:
        for k in SET:
            for ret in ("Result<i32, String>", "i32"):
                yield nest((s,), ((k,), ()), ret)
            yield nest((s,), ((), (k,)))
    for s in (LABELS if c.thorough else TINY):
        for k, k2 in itertools.product(SET, repeat=2):
            yield nest((s,), ((k,), (k2,)))
    for s in itertools.product(CORE if c.thorough else TINY, repeat=2):
        for k in SET:
            if not c.thorough and k in ("targets0", "var", "bind2", "methodr"):
                continue
            yield nest(s, ((k,), (), ()))
            yield nest(s, ((), (k,), ()))
    yield from carriers()
    yield from styles()
    yield from foreign(c)


def check(c):
    c.expand("settings scopes", cases(c), STD, project())
