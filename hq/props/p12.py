"""P12: insertion / replacement templates, and the trailing `!` that consumes the `?` only in builds that enable it."""
from ..common import *

BOUNDS = {
    "quick": "12 templates with and without trailing `!` x every slot around the site and every slot inside the operand x 3 places, 5 site kinds; "
             "all assignments of 7 templates, and of 6 ways of taking one from a flavor, to 4 nested levels; templates from hooq.toml; the whole non-consuming family again on the default-feature and the "
             "feature-less build",
    "thorough": "as quick with the small slot set at depth 2 around the site for all templates and the core set for 3 templates",
}
FL = {"default": Flavor(method=Method(".d($nth)")), "con": Flavor(method=Method(".d($nth)!")), "conr": Flavor(method=Method("w($expr) !")), "empty": EMPTY}
TOML = """[default]
method = ".d($nth)"
[con]
method = ".d($nth)!"
[conr]
method = "w($expr) !"
"""
TOML_NOCON = TOML.split("[con]")[0]
T = {"i": ".h($nth)", "iaw": ".await", "if": ".h(!a0).f", "r": "w($expr, $nth)", "rb": "$expr", "rn": "!$expr", "ra": "a0 + $expr", "rcl": "|_e| $expr", "rblk": "{ $expr; a0 }", "rst": "S { f: $expr, g: a0 }",
     "rmatch": "match $expr { _ => a0 }", "ras": "a0 = $expr", "none": "w()", "rarr": "[$expr]"}


def one(t, bang, slots, place, site="q", inner=(), at=()):
    def mk(N):
        if inner:
            op = chain(inner, "a", N)
            n = {"q": lambda: Q(fit(op, 3), attrs=at), "ret": lambda: Ret(op), "err": lambda: call("Err", op)}[site]()
        else:
            n = SITES[site](N, attrs=at)
        return PLACES[place](chain(slots, n, N), N)
    return fn_case(f"{t}{bang}:{'/'.join(slots)}:{place}:{site}:{'/'.join(inner)}:{len(at)}", mk, attrs=[("method", T[t] + bang)], flavor=FL["default"])


FOREIGN = [("foreign", "#[allow(unused)]"), ("binding", "v", "a1")]


def family(c, bangs):
    for t in T:
        for bang in bangs:
            for s in LABELS:
                for place in PLACES:
                    yield one(t, bang, (s,), place)
                yield one(t, bang, (), "stmt", "q", (s,))
                yield one(t, bang, (), "tail", "q", (s,))
                yield one(t, bang, (s,), "let", "ret")
                yield one(t, bang, (s,), "let", "err")
                if s in ("block-tail", "arm", "let-init", "then-tail", "clo", "paren", "arg", "tuple"):
                    yield one(t, bang, (s,), "stmt", at=FOREIGN)
            for place in PLACES:
                yield one(t, bang, (), place)
                yield one(t, bang, (), place, at=FOREIGN)
    for s in itertools.product(CORE if c.thorough else TINY, repeat=2):
        for t in ("i", "ra", "rblk") if not c.thorough else T:
            for bang in bangs:
                if c.thorough and t not in ("i", "ra", "rblk") and not all(x in TINY for x in s):
                    continue
                yield one(t, bang, s, "stmt")


def levels(bangs):
    direct = [None] + [x + b for x in (".h($nth)", "w($expr, $nth)", ".$so_far.h2($nth)") for b in bangs]
    # methods taken from a flavor of hooq.toml by an attribute carry their `!` along
    froms = [("from", f, fl) for f in ("method", "flavor") for fl in ("con", "conr", "default")] if len(bangs) > 1 else []
    for fl in FL:
        if fl in ("con", "conr") and "!" not in bangs:
            continue
        if fl == "empty":
            continue
        for a, b_, d, e in itertools.chain(itertools.product(direct, repeat=4), (t for t in itertools.product(froms + [None, direct[2]], repeat=4) if any(isinstance(x, tuple) for x in t))
                                           if fl == "default" and froms else ()):
            def mk(N, a=a, b_=b_, d=d, e=e):
                at = lambda x: ([x] if isinstance(x, tuple) else [("method", x)]) if x else []
                q = Q(X(Q(X(Q(N.x()), ".m(", Q(N.x(), attrs=()), ")")), ".m()"))
                return blk(stmt(Q(N.x())), stmt(BlkX(blk(stmt(Q(N.x())), stmt(Q(call("g", q, Q(N.x(), attrs=at(e))), attrs=at(d))), tail=call("Err", Q(N.x()))), attrs=at(b_))), stmt(Q(N.x())))
            yield fn_case(f"levels:{fl}:{a}|{b_}|{d}|{e}", mk, attrs=([a] if isinstance(a, tuple) else [("method", a)]) if a else [], flavor=FL[fl], root=fl if fl != "default" else "")


def check(c):
    def full():
        yield from family(c, ("", "!"))
        yield from levels(("", " !"))
    c.expand("modes, all features", full(), FL, project(TOML))
    for v in ("default", "bare"):
        def rest():
            yield from family(c, ("",))
            if v == "default":
                yield from levels(("",))
        c.expand(f"modes, {v} features", rest(), {k: FL[k] for k in ("default", "empty")}, project(TOML_NOCON), variant=v)
