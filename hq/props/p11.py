"""P11: $so_far stands for the method in force just outside the element that sets the current one, transitively."""
from ..common import *

BOUNDS = {
    "quick": "all sequences up to length 4 of 8 method attributes (insertion, replacement, one/two/zero uses of $so_far at any depth, taken from a flavor) over nested elements, with "
             "elements that set nothing or something else in between; 6 carriers; siblings probed",
    "thorough": "as quick with length 5, and all carrier sequences to length 3",
}
FL = {"default": Flavor(method=Method(".d($nth)")), "fl": Flavor(method=Method("w($expr, a7)")), "empty": EMPTY}
TOML = """[default]
method = ".d($nth)"
[fl]
method = "w($expr, a7)"
"""
T = {
    "a": ("method", ".h1($line, cap!($source))"), "b": ("method", ".$so_far.h2($nth)"), "bb": ("method", ".h3(|| { $so_far }).$sofar"), "c": ("method", "w($expr, cap!($source))"),
    "d": ("method", "w2($expr.$so_far)"), "dd": ("method", "w2($expr.$so_far, [$expr.$so_far])"), "f": ("from", "method", "fl"), "x": ("binding", "v", "a1"),
    "g": ("method", ".h($v, tup!($so_far))"),
}
WRAP = {
    "blk": lambda n, N, at: BlkX(blk(stmt(Q(N.x())), stmt(n), stmt(Q(N.x()))), attrs=at),
    "unsafe": lambda n, N, at: BlkX(blk(stmt(n), tail=call("Err", N.x())), "unsafe ", attrs=at),
    "clo": lambda n, N, at: call("g", Closure(blk(stmt(n), tail=Q(N.x())), attrs=at)),
    "fn": lambda n, N, at: BlkX(blk(item_stmt(Fn(blk(stmt(n), tail=Q(N.x())), name="i" + N.a(), attrs=at)), stmt(Q(N.x())))),
    "if": lambda n, N, at: If(Q(N.x()), blk(stmt(n)), attrs=at),
    "mod": lambda n, N, at: BlkX(blk(item_stmt(Group("mod inm", [Raw("use crate::p::*;"), Group("impl S", [Fn(blk(stmt(n)), name="me")])], attrs=at)), stmt(Q(N.x())))),
}


def case(ts, ws, site, second=()):
    def mk(N):
        n = site_node(site, N)
        for t, w in reversed(list(zip(ts[1:], ws))):
            n = WRAP[w](n, N, [T[t]])
        return blk(stmt(Q(N.x())), stmt(n), stmt(Q(N.x())), tail=call("Err", N.x()))
    return fn_case(f"{'/'.join(ts)}:{'/'.join(ws)}:{site}", mk, attrs=[("bind", "v", "a0"), T[ts[0]]] if ts else [("bind", "v", "a0")], flavor=FL["default"])


def site_node(site, N):
    return {"q": lambda: Q(call("g", Q(N.x()))), "ret": lambda: If(N.x(), blk(stmt(Ret(call("Err", Q(N.x())))))), "err": lambda: BlkX(blk(tail=call("Err", N.x())))}[site]()


def cases(c):
    for ts in seqs(list(T), 0, 4):
        yield case(ts, ("blk",) * 4, "q")
        if len(ts) <= 3:
            yield case(ts, ("blk",) * 4, "ret")
            yield case(ts, ("blk",) * 4, "err")
    for ts in seqs(["a", "b", "c", "d", "x"], 2, 4 if c.thorough else 3):
        for ws in itertools.product(WRAP, repeat=len(ts) - 1):
            if ws.count("mod") > 1 or len(ws) == 3 and not c.thorough:
                continue
            yield case(ts, ws, "q")
    if c.thorough:
        for ts in seqs(["a", "b", "bb", "c", "d", "f", "x"], 5, 5):
            if sum(t in ("bb",) for t in ts) <= 2:
                yield case(ts, ("blk",) * 5, "q")
    # several method attributes on one element: the last one counts, and its $so_far is the outer one
    for ts in seqs(["a", "b", "bb", "c", "d", "f"], 2, 3):
        for outer in ("a", "b", "c"):
            def mk(N, ts=ts):
                return blk(stmt(BlkX(blk(stmt(Q(N.x())), stmt(BlkX(blk(stmt(Q(N.x()))), attrs=[T["b"]]))), attrs=[T[t] for t in ts])), stmt(Q(N.x())))
            yield fn_case(f"same:{outer}:{'/'.join(ts)}", mk, attrs=[T[outer]], flavor=FL["default"])


def check(c):
    c.expand("method histories", cases(c), FL, project(TOML))
