"""P03: skip / skip_all suppress hooks exactly within their documented scope."""
from ..common import *

BOUNDS = {
    "quick": "every assignment of {none, skip, skip_all} to the levels of: function > slot > site, for all slots; "
             "function > slot > slot > site over the small slot set; statements, closure bodies, struct fields and items as carriers; either attribute on each child of 37 list-like constructs with up to 6 children and on each level of every slot nested in itself (depth 6)",
    "thorough": "as quick with the core slot set at depth 2 and the small slot set at depth 3, lists of up to 11 children, self-nesting to depth 9",
}
SK = [(), (("skip",),), (("skip_all",),)]
BOTH = (("skip",), ("skip_all",))


def probe(N):
    """a block with one site of every kind"""
    return BlkX(blk(stmt(Q(N.x())), stmt(If(N.x(), blk(stmt(Ret(call("Err", N.x())))))), Let("_w", Closure(Q(N.x()))), tail=call("Err", N.x())))


def site_of(name, N, attrs):
    if name == "probe":
        n = probe(N)
        n.attrs = attrs
        return n
    return SITES[name](N, attrs=attrs)


def nest(slots, site, at, fa):
    def mk(N):
        n = site_of(site, N, at[-1])
        for lvl in range(len(slots) - 1, -1, -1):
            n = S[slots[lvl]](n, N, attrs=at[lvl])
        return blk(stmt(n), stmt(Q(N.x())), tail=call("Ok", N.x()))
    tag = ",".join("".join(a[0] for a in x) or "-" for x in (fa,) + tuple(at))
    return fn_case(f"{'/'.join(slots)}:{site}:{tag}", mk, attrs=[H] + list(fa), ret="i32")


def carriers():
    for s in SK + [BOTH, tuple(reversed(BOTH)), (("skip",), ("skip",))]:
        for t in SK:
            s, t = tuple(s), tuple(t)
            tag = f"{[a[0] for a in s]}/{[a[0] for a in t]}"

            def inner(N, t=t):
                return BlkX(blk(stmt(Q(N.x())), tail=Q(call("g", Q(N.x(), attrs=()), attrs=()))), attrs=t)
            mk = {
                "let": lambda N, s=s: blk(Let("_v", Q(X("g(", inner(N), ")")), attrs=s), stmt(Q(N.x()))),
                "letelse": lambda N, s=s: blk(Let("Some(_v)", Q(N.x()), blk(stmt(inner(N)), tail=call("Err", N.x())), attrs=s), stmt(Q(N.x()))),
                "stmt": lambda N, s=s: blk(stmt(Q(X("g(", inner(N), ")"), attrs=s)), stmt(Q(N.x()))),
                "ret": lambda N, s=s: blk(stmt(Ret(Q(inner(N)) if False else Q(X("g(", inner(N), ")")), attrs=s)), tail=call("Err", N.x())),
                "tail": lambda N, s=s: blk(stmt(Q(N.x())), tail=X("Err(", inner(N), ")", call="Err", attrs=s)),
                "clo-battr": lambda N, s=s: blk(Let("_v", Closure(blk(stmt(Q(N.x())), stmt(inner(N)), tail=call("Err", N.x())), battrs=s)), stmt(Q(N.x()))),
                "clo-attr": lambda N, s=s: blk(Let("_v", Closure(Q(X("g(", inner(N), ")")), attrs=s)), stmt(Q(N.x()))),
                "clo-body": lambda N, s=s: blk(Let("_v", Closure(Q(X("g(", inner(N), ")"), attrs=s))), stmt(Q(N.x()))),
                "arm-body": lambda N, s=s: blk(Let("_v", Match(Q(N.x()), [("0", Q(N.x()), Q(X("g(", inner(N), ")"), attrs=s)), ("_", None, call("Err", Q(N.x())))])), stmt(Q(N.x()))),
                "match": lambda N, s=s: blk(Let("_v", Match(Q(N.x()), [("0", Q(N.x()), inner(N)), ("_", None, call("Err", Q(N.x())))], attrs=s)), stmt(Q(N.x()))),
                "if": lambda N, s=s: blk(stmt(If(Q(N.x()), blk(stmt(Q(N.x())), stmt(inner(N)), tail=call("Err", N.x())), If(Q(N.x()), blk(stmt(Q(N.x()))), blk(tail=Q(N.x()))), attrs=s)), stmt(Q(N.x()))),
                "while": lambda N, s=s: blk(stmt(BlkX(blk(stmt(Q(N.x())), stmt(inner(N))), "while ", attrs=s, cond=Q(N.x()))), stmt(Q(N.x()))),
                "for": lambda N, s=s: blk(stmt(BlkX(blk(stmt(Q(N.x())), stmt(inner(N))), "for _v in ", attrs=s, cond=Q(N.x()))), stmt(Q(N.x()))),
                "field": lambda N, s=s: blk(Let("_v", X("S { ", FieldVal("f", Q(X("g(", inner(N), ")")), s), ", g: ", Q(N.x()), " }", struct=True, label="struct")), stmt(Q(N.x()))),
                "mac": lambda N, s=s: blk(Let("_v", Mac([(Q(N.x()), ", "), (inner(N), "")], name="tup", attrs=s)), stmt(Q(N.x()))),
                "macstmt": lambda N, s=s: blk(Mac([(Q(N.x()), ", "), (inner(N), "")], name="tup", attrs=s, stmt_semi=";"), stmt(Q(N.x()))),
                "block": lambda N, s=s: blk(stmt(BlkX(blk(stmt(Q(N.x())), stmt(inner(N))), attrs=s)), stmt(Q(N.x()))),
                "inner-fn": lambda N, s=s: blk(item_stmt(Fn(blk(stmt(Q(N.x())), stmt(inner(N)), tail=Q(N.x())), name="i", attrs=s)), stmt(Q(N.x()))),
                "inner-const": lambda N, s=s: blk(item_stmt(ItemX("const _C: i32 = ", Q(X("g(", inner(N), ")")), ";", attrs=s)), stmt(Q(N.x()))),
            }
            for k, f in mk.items():
                for fa in SK:
                    yield fn_case(f"carrier:{k}:{tag}:{[a[0] for a in fa]}", f, attrs=[H] + list(fa), ret="i32")


def item_levels():
    """skip on mod > impl/fn > fn > statement, every assignment"""
    for a, b_, d, e in itertools.product(SK, repeat=4):
        tag = "/".join("".join(x[0] for x in y) or "-" for y in (a, b_, d, e))

        def body_(N, e):
            return blk(stmt(Q(N.x(), attrs=e)), stmt(Q(N.x())), tail=call("Err", Q(N.x())))

        def mod(a=a, b_=b_, d=d, e=e):
            N = Names()
            return [("", Group("mod sub", [Raw("use crate::p::*;"),
                                           Group("impl S", [Fn(body_(N, e), name="m", params="&self", attrs=d), Fn(body_(N, e), name="m2"),
                                                            ItemX("const C: i32 = ", Q(N.x()), ";", attrs=d)], attrs=b_),
                                           Group("trait T", [Fn(body_(N, e), name="m", params="&self", attrs=d), ItemX("const C: i32 = ", Q(N.x()), ";", attrs=d)], attrs=b_),
                                           Group("mod sub2", [Raw("use crate::p::*;"), Fn(body_(N, e), name="m2", attrs=d)], attrs=b_),
                                           Fn(body_(N, e), name="f2", attrs=b_),
                                           ItemX("static _C: i32 = ", Q(N.x()), ";", attrs=b_)], attrs=[H] + list(a)))]
        yield Case("items:" + tag, mod)


def wides(c):
    """one child of a long list carries the attribute: its siblings are hooked"""
    for w in WIDE:
        for n in (2, 3, 6) if not c.thorough else (2, 3, 4, 5, 6, 8, 11):
            for k in range(n):
                for a in SK[1:]:
                    for site in ("q", "probe"):
                        def mk(N, w=w, n=n, k=k, a=a, site=site):
                            return blk(stmt(WIDE[w]([site_of(site, N, a if i == k else ()) if site == "q" or i == k else Q(N.x()) for i in range(n)], N)),
                                       stmt(Q(N.x())), tail=call("Ok", N.x()))
                        yield fn_case(f"wide:{w}:{n}:{k}:{a[0][0]}:{site}", mk, ret="i32")


def towers(c):
    """the attribute at each level of one slot nested in itself"""
    for s in LABELS:
        for d in (4, 6) if not c.thorough else (4, 5, 6, 9):
            for lvl in range(d + 1):
                for a in SK[1:]:
                    def mk(N, s=s, d=d, lvl=lvl, a=a):
                        n = Q(N.x(), attrs=a if lvl == d else ())
                        for k in range(d - 1, -1, -1):
                            n = Q(fit(S[s](n, N, attrs=a if k == lvl else ()), 3)) if k % 2 else S[s](n, N, attrs=a if k == lvl else ())
                        return blk(stmt(n), tail=call("Ok", N.x()))
                    yield fn_case(f"tower:{s}:{d}:{lvl}:{a[0][0]}", mk, ret="i32")


def cases(c):
    yield from wides(c)
    yield from towers(c)
    for s in LABELS:
        for fa, a0, a1 in itertools.product(SK, repeat=3):
            for site in ("q", "ret", "err", "probe"):
                if fa and site in ("ret", "err") and not c.thorough:
                    continue
                yield nest((s,), site, (a0, a1), fa)
    for s in itertools.product(CORE if c.thorough else TINY, repeat=2):
        for a in itertools.product(SK, repeat=3):
            if any(a):
                yield nest(s, "probe", a, ())
    if c.thorough:
        for s in itertools.product(TINY, repeat=3):
            for a in itertools.product(SK, repeat=3):
                if any(a):
                    yield nest(s, "q", a + ((),), ())
    yield from carriers()
    yield from item_levels()


def check(c):
    c.expand("skip scopes", cases(c), STD, project())
