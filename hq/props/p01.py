"""P01: every `?` in every expression position is hooked exactly once, at its place, and nothing else changes."""
from ..common import *

BOUNDS = {
    "quick": "all expression contexts of nesting depth <= 2 over every slot of the grammar, as tail / statement / initialiser; "
             "every item kind at depth 1; every pair of `?` in one operator chain; 37 list-like constructs with 2..4 children under every subset of sites and with up to 27 children; every slot nested in itself to depth 10",
    "thorough": "as quick, plus depth 3 over the core slots and pairs of sibling `?` sites at depth 2, lists of up to 101 children, self-nesting to depth 24",
}
RETS = {"tail": "Result<i32, String>", "stmt": "i32", "let": None}


def nest(slots, place):
    def mk(N):
        return PLACES[place](chain(slots, "q", N), N)
    return fn_case("/".join(slots) + ":" + place, mk, ret=RETS[place])


def pair(s1, s2, order):
    def mk(N):
        n1, n2 = chain((s1,), "q", N), chain((s2,), "q", N)
        if order == 0:
            return blk(stmt(n1), stmt(n2), tail=call("Ok", N.x()))
        return blk(Let("_v", X("(", n1, ", ", n2, ")", label="tuple")), tail=call("Ok", N.x()))
    return fn_case(f"pair{order}:{s1}+{s2}", mk)


def items(slot):
    def f1(N, **k):
        return Fn(blk(tail=S[slot](Q(N.x()), N)), **k)
    kinds = {
        "impl-fn": lambda N: Group("impl S", [f1(N, name="m1", params="&self"), f1(N, name="m2", quals="pub ")], attrs=[H]),
        "trait-fn": lambda N: Group("trait T", [Raw("fn no_body(&self) -> i32;"), f1(N, name="m1", params="&self")], attrs=[H]),
        "mod-fn": lambda N: Group("mod sub", [Raw("use crate::p::*;"), f1(N, name="m1"), Group("mod sub2", [Raw("use crate::p::*;"), f1(N, name="m2")])], attrs=[H]),
        "const": lambda N: ItemX("const _C: i32 = ", S[slot](Q(N.x()), N), ";", attrs=[H]),
        "static": lambda N: ItemX("static _C: i32 = ", S[slot](Q(N.x()), N), ";", attrs=[H]),
        "impl-const": lambda N: Group("impl S", [ItemX("const C: i32 = ", S[slot](Q(N.x()), N), ";")], attrs=[H]),
        "trait-const": lambda N: Group("trait T", [ItemX("const C: i32 = ", S[slot](Q(N.x()), N), ";")], attrs=[H]),
        "async-fn": lambda N: f1(N, quals="async ", attrs=[H]),
        "unsafe-fn": lambda N: f1(N, quals="pub unsafe ", attrs=[H]),
    }
    for k, mk in kinds.items():
        yield Case(f"item:{k}:{slot}", lambda mk=mk: [("", mk(Names()))])


def postfix_chains(n):
    ops = ["?", ".m({a})", ".f", ".await", "[{a}]", "({a})"]
    for seq in seqs(range(len(ops)), 1, n):
        def mk(N, seq=seq):
            e = N.x()
            for o in seq:
                if o == 0:
                    e = Q(e)
                elif o == 5 and e.label == ".f":
                    e = X(par(e), "(", N.x(), ")")
                else:
                    e = X(e, ops[o].replace("{a}", N.a()), label=ops[o][:2])
            return blk(stmt(e), tail=call("Ok", N.x()))
        yield fn_case("postfix:" + "".join(ops[o][:2] for o in seq), mk)


def wides(c):
    """lists of children: every subset of up to 4 (5) children, every single child and all of them in long lists"""
    top = 5 if c.thorough else 4
    for w in WIDE:
        sets = [(n, ss) for n in range(2, top + 1) for k in range(1, n + 1) for ss in itertools.combinations(range(n), k)]
        for n in (6, 9, 13, 27) if not c.thorough else (*range(6, 20), 27, 40, 101):
            sets += [(n, (i,)) for i in range(n)] + [(n, tuple(range(n))), (n, tuple(range(0, n, 2)))]
        for n, ss in sets:
            def mk(N, w=w, n=n, ss=ss):
                return blk(stmt(wide(w, n, ss, N)), tail=call("Ok", N.x()))
            yield fn_case(f"wide:{w}:{n}:{','.join(map(str, ss)) if len(ss) < 6 else len(ss)}", mk)


def towers(c):
    """one slot nested in itself, with a site at the bottom, or at every level"""
    for s in LABELS:
        for d in (3, 4, 5, 7, 10) if not c.thorough else (3, 4, 5, 6, 7, 8, 10, 13, 17, 24):
            yield fn_case(f"tower:{s}:{d}", lambda N, s=s, d=d: blk(stmt(tower(s, d, Q(N.x()), N)), tail=call("Ok", N.x())))

            def every(N, s=s, d=d):
                n = Q(N.x())
                for _ in range(d):
                    n = Q(fit(S[s](n, N), 3))
                return blk(stmt(n), tail=call("Ok", N.x()))
            if d <= 5:
                yield fn_case(f"tower-q:{s}:{d}", every)


def cases(c):
    yield from wides(c)
    yield from towers(c)
    for d in (0, 1, 2):
        for s in itertools.product(LABELS, repeat=d):
            for place in PLACES:
                if d == 2 and place == "let" and not c.thorough:
                    continue
                yield nest(s, place)
    for slot in LABELS:
        yield from items(slot)
    yield from postfix_chains(5 if c.thorough else 4)
    for s1, s2 in itertools.product(LABELS if c.thorough else CORE, repeat=2):
        for o in (0, 1):
            yield pair(s1, s2, o)
    if c.thorough:
        for s in itertools.product(CORE, repeat=3):
            yield nest(s, "stmt")


def check(c):
    c.expand("`?` sites", cases(c), STD, project())
