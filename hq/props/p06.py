"""P06: $count / $nth is the ordinal of the site among the sites of its kind in its function, in execution-text order."""
from ..common import *

BOUNDS = {
    "quick": "all sequences up to length 3 over 17 event kinds in one function; all pairs of short sequences in two functions of a module, an impl, a trait, "
             "nested functions and nested modules; lists of up to 12 children in 37 constructs and slots nested in themselves; provided methods, items inside functions and inside constants; ordinals 1..1130 for each of the three kinds",
    "thorough": "as quick with sequences up to length 4, and up to 5 over the 8 event kinds that touch the counters; ordinals 1..2130",
}


def ifret(*vals):
    return lambda N: stmt(If(N.x(), blk(stmt(Ret(vals[0](N))))))


E = {
    "q": lambda N: stmt(Q(N.x())),
    "ret": lambda N: stmt(If(N.x(), blk(stmt(Ret(call("Err", N.x())))))),
    "retok": lambda N: stmt(If(N.x(), blk(stmt(Ret(call("Ok", N.x())))))),
    "retx": lambda N: stmt(If(N.x(), blk(stmt(Ret(Q(N.x())))))),
    "blk": lambda N: Let("_v", BlkX(blk(stmt(Q(N.x())), tail=call("Err", Q(N.x()))))),
    "nest": lambda N: stmt(Q(call("g", Q(N.x()), Q(call("g", Q(N.x())))))),
    "chain": lambda N: stmt(Q(X(Q(X(Q(N.x()), ".m(", Q(N.x()), ")")), ".m()"))),
    "skip": lambda N: stmt(Q(call("g", BlkX(blk(tail=Q(N.x())))), attrs=[("skip",)])),
    "skipall": lambda N: stmt(Q(call("g", BlkX(blk(tail=Q(N.x())))), attrs=[("skip_all",)])),
    "off": lambda N: stmt(Q(call("g", Q(N.x())), attrs=[("hook_targets", ["return"])])),
    "off2": lambda N: stmt(BlkX(blk(stmt(If(N.x(), blk(stmt(Ret(call("Err", N.x())))))), tail=call("Err", N.x())), attrs=[("hook_targets", ["?"])])),
    "off0": lambda N: stmt(BlkX(blk(stmt(Q(N.x())), stmt(If(N.x(), blk(stmt(Ret(call("Err", N.x())))))), tail=call("Err", N.x())), attrs=[("hook_targets", [])])),
    "clo": lambda N: Let("_v", Closure(blk(stmt(Q(N.x())), stmt(If(N.x(), blk(stmt(Ret(call("Err", Q(N.x()))))))), tail=call("Err", N.x())))),
    "clores": lambda N: Let("_v", Closure(blk(stmt(If(N.x(), blk(stmt(Ret(Q(N.x())))))), tail=N.x()), ret="Result<i32, i32>", params="_v: i32")),
    "inner": lambda N: item_stmt(Fn(blk(stmt(Q(N.x())), stmt(If(N.x(), blk(stmt(Ret(call("Err", N.x())))))), Let("_w", Closure(Q(N.x()))), tail=Q(N.x())), name="inner")),
    "mac": lambda N: Let("_v", Mac([(Q(N.x()), ", "), (call("Err", Q(N.x())), ", "), (BlkX(blk(tail=call("Err", N.x()))), "")], name="tup")),
    "const": lambda N: item_stmt(ItemX("const _C: i32 = ", Q(call("g", Q(N.x()))), ";", label="const")),
}
CORE_E = ["q", "ret", "blk", "nest", "off", "skip", "clo", "inner"]


def build_body(N, seq):
    return blk(*[E[e](N) for e in seq], tail=Q(N.x()))


def sequences(c):
    for ret in ("Result<i32, String>", "i32"):
        for s in seqs(list(E), 0, 4 if c.thorough and ret[0] == "R" else 3):
            if s.count("inner") > 1 and len(s) > 3:
                continue
            yield fn_case(f"seq:{ret[0]}:{'+'.join(s)}", lambda N, s=s: uniq(build_body(N, s)), attrs=[HS], ret=ret)
    if c.thorough:
        for s in seqs(CORE_E, 5, 5):
            yield fn_case(f"seq5:{'+'.join(s)}", lambda N, s=s: uniq(build_body(N, s)), attrs=[HS])


def uniq(b):
    """distinct names for repeated inner functions and constants"""
    k = 0
    for s in b.stmts:
        if getattr(s, "label", "") == "item-stmt":
            k += 1
            it = s.parts[0]
            if isinstance(it, Fn):
                it.name = f"inner{k}"
            elif isinstance(it, ItemX):
                it.parts = (it.parts[0].replace("_C", f"_C{k}"),) + tuple(it.parts[1:])
    return b


def two(c):
    short = list(seqs(["q", "ret", "blk", "clo", "inner", "nest", "skip"], 0, 2))
    second = list(seqs(["q", "ret", "clo"], 1, 2 if c.thorough else 1))
    for a in short:
        for b_ in second:
            for shape in ("mod", "impl", "trait", "modmod", "mixed", "trait2", "infn", "inconst"):
                def b(a=a, b_=b_, shape=shape):
                    N = Names()
                    use = Raw("use crate::p::*;")
                    f1 = lambda n, **k: Fn(uniq(build_body(N, a)), name=n, **k)
                    f2 = lambda n, **k: Fn(uniq(build_body(N, b_)), name=n, **k)
                    if shape == "mod":
                        g = Group("mod sub", [use, f1("x"), f2("y"), ItemX("const _C: i32 = ", Q(N.x()), ";", label="const"), f1("z")], attrs=[HS])
                    elif shape == "impl":
                        g = Group("impl S", [f1("x", params="&self"), f2("y"), ItemX("const C: i32 = ", Q(N.x()), ";", label="const"), f2("z")], attrs=[HS])
                    elif shape == "trait":
                        g = Group("trait T", [f1("x", params="&self"), Fn(None, name="d"), f2("y")], attrs=[HS])
                    elif shape == "trait2":
                        g = Group("trait T", [f1("x"), ItemX("const C: i32 = ", Q(N.x()), ";", label="const"), f2("y"), f1("z"), ItemX("const D: i32 = ", Q(N.x()), ";", label="const"), f2("w", quals="unsafe ")], attrs=[HS])
                    elif shape == "infn":
                        items = [Group("trait T", [f1("x"), f2("y", params="&self")]), Group("impl S", [f1("x"), f2("y", params="&self")]), Group("mod m", [use, f1("x"), f2("y")]), f1("z"), f2("w", quals="const ")]
                        g = Fn(blk(*[s for it in items for s in (stmt(Q(N.x())), item_stmt(it))], tail=call("Err", Q(N.x()))), attrs=[HS])
                    elif shape == "inconst":
                        items = [Group("trait T", [f1("x"), f2("y")]), Group("impl S", [f1("x"), f2("y")]), f1("z")]
                        g = ItemX("const _C: i32 = ", BlkX(blk(*[s for it in items for s in (stmt(Q(N.x())), item_stmt(it))], tail=Q(N.x()))), ";", label="const", attrs=[HS])
                    elif shape == "modmod":
                        g = Group("mod sub", [use, f1("x"), Group("mod s2", [use, f2("y"), f1("w")]), f2("z")], attrs=[HS])
                    else:
                        g = Group("mod sub", [use, f1("x"), Group("impl S", [f2("y"), f1("w")]), Group("trait T", [f1("v")]), f2("z")], attrs=[HS])
                    return [("", g)]
                yield Case(f"two:{shape}:{'+'.join(a)}|{'+'.join(b_)}", b)


def wides(c):
    """long lists of children: the ordinals follow the order of the text"""
    for w in WIDE:
        for n, ss in wide_sets((2, 3, 7, 12) if not c.thorough else (2, 3, 4, 5, 6, 7, 9, 12, 16, 24)):
            if len(ss) == 1 and n > 3:
                continue
            for site in ("q", "ret", "reterr", "err"):
                def mk(N, w=w, n=n, ss=ss, site=site):
                    return blk(stmt(Q(N.x())), stmt(If(N.x(), blk(stmt(Ret(call("Err", N.x())))))), stmt(wide(w, n, ss, N, site)), stmt(Q(N.x())), tail=call("Err", N.x()))
                yield fn_case(f"wide:{w}:{n}:{len(ss)}:{ss[0]}:{site}", mk, attrs=[HS])
    for s in LABELS:
        for d in (3, 6) if not c.thorough else (3, 4, 6, 9, 13):
            def mk(N, s=s, d=d):
                n = Q(N.x())
                for _ in range(d):
                    n = Q(fit(S[s](n, N), 3))
                return blk(stmt(Q(N.x())), stmt(n), stmt(Q(N.x())), tail=call("Err", N.x()))
            yield fn_case(f"tower:{s}:{d}", mk, attrs=[HS])


def ordinals(c):
    n = 2130 if c.thorough else 1130
    for k, f in {"?": lambda N: stmt(Q(atom("a1"))),
                 "return": lambda N: stmt(If(atom("a1"), blk(stmt(Ret(call("Err", atom("a2"))))))),
                 "tail": lambda N: stmt(BlkX(blk(tail=call("Err", atom("a2")))))}.items():
        yield fn_case(f"ordinals:{k}:{n}", lambda N, f=f: blk(*[f(N) for _ in range(n)]), attrs=[HS])


def check(c):
    def cases():
        yield from sequences(c)
        yield from two(c)
        yield from wides(c)
        yield from ordinals(c)
    c.expand("counter histories", cases(), STD, project())
