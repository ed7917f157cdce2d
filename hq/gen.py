"""Generators: the syntactic slots of Rust expressions, statements and items."""
import itertools
from .lang import *  # noqa: F401,F403
from .lang import Node


class Names:
    """distinct operand names per case: a0, a1, ..."""

    def __init__(self):
        self.i = 0

    def a(self):
        self.i += 1
        return f"a{self.i}"

    def x(self):
        return atom(self.a())


def par(n, attrs=()):
    return X("(", n, ")", attrs=attrs, label="paren")


def fit(n, prec=0, stmt=False, head=False):
    """parenthesise n where the grammar needs it"""
    p = 2 if (n.attrs and n.prec > 2) else n.prec
    if p < prec or (head and (n.struct or p == 0)) or \
            (stmt and n.lead_block and not n.pure_block) or (prec >= 3 and n.attrs):
        return par(n)
    return n


def stmt(n):
    """expression statement"""
    n = fit(n, stmt=True)
    return bare(n) if n.pure_block else semi(n)


def blk(*stmts, tail=None):
    if tail is not None:
        tail = fit(tail, stmt=True)
    return Block(stmts, tail)


def body(n):
    """closure / arm body: a leading block-like expression must not be continued"""
    if n.lead_block and not n.pure_block:
        return par(n)
    return n


# ---- slots: label -> fn(h: Node, N: Names, attrs) -> Node

S = {}


def slot(label):
    def d(f):
        S[label] = f
        return f
    return d


def postfix(label, pre, post, **k):
    def f(h, N, attrs=()):
        parts = [p if p != "@" else N.x() for p in pre] + [fit(h, 3)] + [p if p != "@" else N.x() for p in post]
        return X(*parts, attrs=attrs, label=label, **k)
    S[label] = f


def free(label, pre, post, prec=0, rprec=3, struct=False, call=None, head=False):
    """h needs precedence `prec` there; the whole has precedence rprec"""
    def f(h, N, attrs=()):
        parts = [p if p != "@" else N.x() for p in pre] + [fit(h, prec, head=head)] + [p if p != "@" else N.x() for p in post]
        n = X(*parts, label=label, prec=rprec, struct=struct, call=call)
        if attrs:
            if rprec in (1,) or label in ("assign-l", "assign-r", "opassign-l", "opassign-r", "range-from", "range-to", "range-open",
                                          "range-all", "range-incl"):
                return par(n, attrs)
            n.attrs = attrs
        return n
    S[label] = f


free("paren", ["("], [")"])
free("not", ["!"], [], 2, 2)
free("neg", ["-"], [], 2, 2)
free("deref", ["*"], [], 2, 2)
free("ref", ["&"], [], 2, 2)
free("refmut", ["&mut "], [], 2, 2)
free("raw", ["&raw const "], [], 2, 2)
free("add-l", [], [" + ", "@"], 2, 1)
free("add-r", ["@", " + "], [], 2, 1)
free("and-l", [], [" && ", "@"], 2, 1)
free("and-r", ["@", " && "], [], 2, 1)
free("eq-r", ["@", " == "], [], 2, 1)
free("shl-l", [], [" << ", "@"], 2, 1)
free("cast", [], [" as i32"], 2, 1)
free("assign-l", [], [" = ", "@"], 2, 0)
free("assign-r", ["@", " = "], [], 1, 0)
free("opassign-l", [], [" += ", "@"], 2, 0)
free("opassign-r", ["@", " += "], [], 1, 0)
free("range-from", [], ["..", "@"], 1, 0)
free("range-to", ["@", ".. "], [], 1, 0)
free("range-open", [], [".."], 1, 0)
free("range-all", [".. "], [], 1, 0)
free("range-incl", ["@", "..= "], [], 1, 0)
postfix("field", [], [".f"])
postfix("tfield", [], [".0"])
postfix("await", [], [".await"])
postfix("recv", [], [".m(", "@", ")"])
postfix("fncall", [], ["(", "@", ")"])
postfix("index-base", [], ["[", "@", "]"])
free("marg", ["@", ".m("], [", ", "@", ")"])
free("marg2", ["@", ".m::<i32>(", "@", ", "], [")"])
free("arg", ["g("], [", ", "@", ")"], call="g")
free("arg2", ["g(", "@", ", "], [")"], call="g")
free("okarg", ["Ok("], [")"], call="Ok")
free("errarg", ["Err("], [")"], call="Err")
free("index-ix", ["@", "["], ["]"])
free("array", ["["], [", ", "@", "]"])
free("array2", ["[", "@", ", "], ["]"])
free("rep-elem", ["["], ["; 3]"])
free("rep-len", ["[", "@", "; "], ["]"])
free("tuple", ["("], [", ", "@", ")"])
free("tuple2", ["(", "@", ", "], [",)"])
free("field-val", ["S { f: "], [", g: ", "@", " }"], struct=True)
free("base", ["S { f: ", "@", ", .. "], [" }"], struct=True)


def break_slot(label, kw):
    def f(h, N, attrs=()):
        return X(kw, par(h) if h.lead_block else h, label=label, prec=0, attrs=attrs)
    S[label] = f


break_slot("break", "break ")
break_slot("break-l", "break 'l ")
break_slot("yield", "yield ")


@slot("try")
def _(h, N, attrs=()):
    return Q(fit(h, 3), attrs=attrs)


@slot("return")
def _(h, N, attrs=()):
    return Ret(h, attrs=attrs)


@slot("if-cond")
def _(h, N, attrs=()):
    return If(fit(h, head=True), blk(tail=N.x()), blk(tail=N.x()), attrs=attrs)


@slot("if-let")
def _(h, N, attrs=()):
    return If(X("let Some(_v) = ", fit(h, 1, head=True), label="let-cond"), blk(tail=N.x()), attrs=attrs)


@slot("let-chain")
def _(h, N, attrs=()):
    return If(X(N.x(), " && ", X("let _v = ", fit(h, 2, head=True), label="let-cond"), " && ", N.x(), label="chain"),
              blk(tail=N.x()), attrs=attrs)


@slot("then-tail")
def _(h, N, attrs=()):
    return If(N.x(), blk(tail=h), attrs=attrs)


@slot("then-stmt")
def _(h, N, attrs=()):
    return If(N.x(), blk(stmt(h), tail=N.x()), blk(tail=N.x()), attrs=attrs)


@slot("else-tail")
def _(h, N, attrs=()):
    return If(N.x(), blk(tail=N.x()), blk(tail=h), attrs=attrs)


@slot("elif-cond")
def _(h, N, attrs=()):
    return If(N.x(), blk(tail=N.x()), If(fit(h, head=True), blk(tail=N.x())), attrs=attrs)


@slot("elif-tail")
def _(h, N, attrs=()):
    return If(N.x(), blk(tail=N.x()), If(N.x(), blk(tail=h), blk(tail=N.x())), attrs=attrs)


def block_slots(name, prefix, cond=None):
    @slot(name + "-tail")
    def _(h, N, attrs=()):
        return BlkX(blk(tail=h), prefix, attrs=attrs, cond=cond and cond(N))

    @slot(name + "-stmt")
    def _(h, N, attrs=()):
        return BlkX(blk(stmt(h)), prefix, attrs=attrs, cond=cond and cond(N))

    @slot(name + "-mid")
    def _(h, N, attrs=()):
        return BlkX(blk(stmt(h), tail=N.x()), prefix, attrs=attrs, cond=cond and cond(N))


block_slots("block", "")
block_slots("lblock", "'l: ")
block_slots("unsafe", "unsafe ")
block_slots("async", "async ")
block_slots("asyncmove", "async move ")
block_slots("const", "const ")
block_slots("tryb", "try ")
block_slots("loop", "loop ")
block_slots("lloop", "'l: loop ")
block_slots("while", "while ", lambda N: N.x())
block_slots("for", "for _v in ", lambda N: N.x())


@slot("while-cond")
def _(h, N, attrs=()):
    return BlkX(blk(stmt(N.x())), "while ", attrs=attrs, cond=fit(h, head=True))


@slot("while-let")
def _(h, N, attrs=()):
    return BlkX(blk(stmt(N.x())), "while ", attrs=attrs,
                cond=X("let Some(_v) = ", fit(h, 1, head=True), label="let-cond"))


@slot("for-iter")
def _(h, N, attrs=()):
    return BlkX(blk(stmt(N.x())), "for _v in ", attrs=attrs, cond=fit(h, head=True))


@slot("match-scrut")
def _(h, N, attrs=()):
    return Match(fit(h, head=True), [("_", None, N.x())], attrs=attrs)


@slot("arm")
def _(h, N, attrs=()):
    return Match(N.x(), [("0", None, body(h)), ("_", None, N.x())], attrs=attrs)


@slot("arm-block")
def _(h, N, attrs=()):
    return Match(N.x(), [("0", None, blk(tail=h)), ("_", None, N.x())], attrs=attrs)


@slot("guard")
def _(h, N, attrs=()):
    return Match(N.x(), [("0", fit(h, 0), N.x()), ("_", None, N.x())], attrs=attrs)


@slot("let-init")
def _(h, N, attrs=()):
    return BlkX(blk(Let("_v", h), tail=N.x()), attrs=attrs)


@slot("let-ty")
def _(h, N, attrs=()):
    return BlkX(blk(Let("_v: i32", h)), attrs=attrs)


@slot("letelse-init")
def _(h, N, attrs=()):
    # an initialiser followed by `else` may not end in `}` nor be a lazy boolean
    return BlkX(blk(Let("Some(_v)", par(h), blk(tail=N.x())), tail=N.x()), attrs=attrs)


@slot("letelse-tail")
def _(h, N, attrs=()):
    return BlkX(blk(Let("Some(_v)", N.x(), blk(tail=h)), tail=N.x()), attrs=attrs)


@slot("letelse-stmt")
def _(h, N, attrs=()):
    return BlkX(blk(Let("Some(_v)", N.x(), blk(stmt(h), tail=N.x()))), attrs=attrs)


@slot("clo")
def _(h, N, attrs=()):
    return Closure(body(h), attrs=attrs)


def clo_slots(name, **k):
    @slot(name + "-tail")
    def _(h, N, attrs=()):
        return Closure(blk(tail=h), attrs=attrs, **k)

    @slot(name + "-stmt")
    def _(h, N, attrs=()):
        return Closure(blk(stmt(h), tail=N.x()), attrs=attrs, **k)


clo_slots("clo")
clo_slots("clores", params="_v: i32", ret="Result<i32, i32>")
clo_slots("cloi32", params="_v: i32", ret="i32", prefix="move ")
clo_slots("cloasync", prefix="async ")


@slot("mac-arg")
def _(h, N, attrs=()):
    return Mac([(N.x(), ", "), (h, ", "), (N.x(), "")], name="tup", attrs=attrs)


@slot("mac-one")
def _(h, N, attrs=()):
    return Mac([(h, "")], name="tup", attrs=attrs)


@slot("mac-semi")
def _(h, N, attrs=()):
    return Mac([(h, "; "), (N.x(), "")], name="seq", delim="[]", attrs=attrs)


def item_stmt(node):  # noqa
    return Stmt(node, label="item-stmt")


@slot("inner-fn-tail")
def _(h, N, attrs=()):
    return BlkX(blk(item_stmt(Fn(blk(tail=h), name="inner", attrs=attrs)), tail=N.x()))


@slot("inner-fn-stmt")
def _(h, N, attrs=()):
    return BlkX(blk(item_stmt(Fn(blk(stmt(h)), name="inner", ret="i32", attrs=attrs)), tail=N.x()))


@slot("inner-const")
def _(h, N, attrs=()):
    return BlkX(blk(item_stmt(ItemX("const _C: i32 = ", h, ";", attrs=attrs, label="const"))))


@slot("inner-static")
def _(h, N, attrs=()):
    return BlkX(blk(item_stmt(ItemX("static _C: i32 = ", h, ";", attrs=attrs, label="static"))))


@slot("inner-impl")
def _(h, N, attrs=()):
    return BlkX(blk(item_stmt(Group("impl S", [Fn(blk(tail=h), name="meth", params="&self")], attrs=attrs))))


@slot("inner-impl-const")
def _(h, N, attrs=()):
    return BlkX(blk(item_stmt(Group("impl S", [ItemX("const C: i32 = ", h, ";", label="const")], attrs=attrs))))


@slot("inner-trait")
def _(h, N, attrs=()):
    return BlkX(blk(item_stmt(Group("trait T", [Fn(blk(tail=h), name="deft", params="&self")], attrs=attrs))))


@slot("inner-trait-const")
def _(h, N, attrs=()):
    return BlkX(blk(item_stmt(Group("trait T", [ItemX("const C: i32 = ", h, ";", label="const")], attrs=attrs))))


@slot("inner-mod")
def _(h, N, attrs=()):
    return BlkX(blk(item_stmt(Group("mod inner", [Raw("use crate::p::*;"), Fn(blk(tail=h), name="infn")], attrs=attrs))))


# ---- constructs with any number of children: label -> fn(list of expressions, N) -> Node

def _sep(pre, ns, post, prec=0, label="wide", **k):
    parts = [pre]
    for i, n in enumerate(ns):
        if i:
            parts.append(", ")
        parts.append(n)
    return X(*parts, post, label=label, **k)


def _bin(op):
    def f(ns, N):
        parts = []
        for i, n in enumerate(ns):
            parts += ([op] if i else []) + [fit(n, 2)]
        return X(*parts, label="wide-bin", prec=1)
    return f


def _elif(ns, N):
    e = blk(tail=N.x())
    for n in reversed(ns):
        e = If(fit(n, head=True), blk(tail=N.x()), e)
    return e


def _elif_tail(ns, N):
    e = blk(tail=ns[-1])
    for n in reversed(ns[:-1]):
        e = If(N.x(), blk(tail=n), e)
    return e if isinstance(e, If) else If(N.x(), e)


def _mchain(ns, N):
    parts = [N.x()]
    for n in ns:
        parts += [".m(", n, ")"]
    return X(*parts, label="wide-mchain")


def _items(head, item):
    def f(ns, N):
        return BlkX(blk(item_stmt(Group(head, ([Raw("use crate::p::*;")] if head[:3] == "mod" else []) + [item(i, n) for i, n in enumerate(ns)]))))
    return f


WIDE = {
    "array": lambda ns, N: _sep("[", ns, "]"),
    "tuple": lambda ns, N: _sep("(", ns, ",)"),
    "call": lambda ns, N: _sep("g(", ns, ")", call="g"),
    "mcall": lambda ns, N: X(N.x(), ".m", _sep("(", ns, ")"), label="wide-mcall"),
    "fields": lambda ns, N: X("S { ", *[x for i, n in enumerate(ns) for x in (f"f{i}: ", n, ", ")], "}", label="wide-fields", struct=True),
    "fields-base": lambda ns, N: X("S { ", *[x for i, n in enumerate(ns[1:]) for x in (f"f{i}: ", n, ", ")], "..", ns[0], " }", label="wide-fields", struct=True),
    "add": _bin(" + "),
    "and": _bin(" && "),
    "mchain": _mchain,
    "stmts": lambda ns, N: BlkX(blk(*[stmt(n) for n in ns])),
    "lets": lambda ns, N: BlkX(blk(*[Let("_v", n) for n in ns], tail=N.x())),
    "loop-stmts": lambda ns, N: BlkX(blk(*[stmt(n) for n in ns]), "loop "),
    "unsafe-stmts": lambda ns, N: BlkX(blk(*[stmt(n) for n in ns], tail=N.x()), "unsafe "),
    "async-stmts": lambda ns, N: BlkX(blk(*[stmt(n) for n in ns], tail=N.x()), "async "),
    "const-stmts": lambda ns, N: BlkX(blk(*[stmt(n) for n in ns], tail=N.x()), "const "),
    "for-stmts": lambda ns, N: BlkX(blk(*[stmt(n) for n in ns]), "for _v in ", cond=N.x()),
    "while-stmts": lambda ns, N: BlkX(blk(*[stmt(n) for n in ns]), "while ", cond=N.x()),
    "then-stmts": lambda ns, N: If(N.x(), blk(*[stmt(n) for n in ns])),
    "else-stmts": lambda ns, N: If(N.x(), blk(tail=N.x()), blk(*[stmt(n) for n in ns], tail=N.x())),
    "clo-stmts": lambda ns, N: Closure(blk(*[stmt(n) for n in ns], tail=N.x())),
    "fn-stmts": lambda ns, N: BlkX(blk(item_stmt(Fn(blk(*[stmt(n) for n in ns], tail=N.x()), name="inner")), tail=N.x())),
    "letelse-stmts": lambda ns, N: BlkX(blk(Let("Some(_v)", N.x(), blk(*[stmt(n) for n in ns], tail=N.x())), tail=N.x())),
    "arm-stmts": lambda ns, N: Match(N.x(), [("_", None, blk(*[stmt(n) for n in ns], tail=N.x()))]),
    "arms": lambda ns, N: Match(N.x(), [(str(i), None, body(n)) for i, n in enumerate(ns)]),
    "arm-blocks": lambda ns, N: Match(N.x(), [(str(i), None, blk(tail=n)) for i, n in enumerate(ns)]),
    "guards": lambda ns, N: Match(N.x(), [(str(i), fit(n), N.x()) for i, n in enumerate(ns)]),
    "elif": _elif,
    "elif-tail": _elif_tail,
    "mac-args": lambda ns, N: Mac([(n, ", " if i + 1 < len(ns) else "") for i, n in enumerate(ns)], name="tup"),
    "mac-semis": lambda ns, N: Mac([(n, "; " if i + 1 < len(ns) else "") for i, n in enumerate(ns)], name="seq", delim="[]"),
    "impl-fns": _items("impl S", lambda i, n: Fn(blk(tail=n), name=f"m{i}", params="&self")),
    "impl-consts": _items("impl S", lambda i, n: ItemX(f"const C{i}: i32 = ", n, ";", label="const")),
    "trait-fns": _items("trait T", lambda i, n: Fn(blk(tail=n), name=f"m{i}", params="&self")),
    "trait-consts": _items("trait T", lambda i, n: ItemX(f"const C{i}: i32 = ", n, ";", label="const")),
    "mod-fns": _items("mod inner", lambda i, n: Fn(blk(tail=n), name=f"m{i}")),
    "mod-consts": _items("mod inner", lambda i, n: ItemX(f"const C{i}: i32 = ", n, ";", label="const")),
    "inner-fns": lambda ns, N: BlkX(blk(*[item_stmt(Fn(blk(tail=n), name=f"inner{i}")) for i, n in enumerate(ns)], tail=N.x())),
}


def wide(label, n, sites, N, site="q", sattrs=()):
    """the construct with n children, those in `sites` being hook sites"""
    return WIDE[label]([SITES[site](N, attrs=sattrs) if i in sites else N.x() for i in range(n)], N)


def wide_sets(lengths, every=True):
    """(n, positions of the sites): each position alone, all of them, every other one"""
    for n in lengths:
        for i in range(n):
            yield n, (i,)
        if every:
            yield n, tuple(range(n))
            yield n, tuple(range(1, n, 2))


def tower(slot, depth, inner, N, attrs=()):
    """one slot nested in itself `depth` times"""
    for _ in range(depth):
        inner = S[slot](inner, N, attrs=attrs)
    return inner


LABELS = list(S)
ITEM_SLOTS = [l for l in LABELS if l.startswith("inner-")]

# ---- sites: fn(N) -> Node

SITES = {
    "q": lambda N, attrs=(): Q(N.x(), attrs=attrs),
    "ret": lambda N, attrs=(): Ret(N.x(), attrs=attrs),
    "retok": lambda N, attrs=(): Ret(call("Ok", N.x()), attrs=attrs),
    "reterr": lambda N, attrs=(): Ret(call("Err", N.x()), attrs=attrs),
    "err": lambda N, attrs=(): call("Err", N.x(), attrs=attrs),
    "ok": lambda N, attrs=(): call("Ok", N.x(), attrs=attrs),
    "g": lambda N, attrs=(): call("g", N.x(), attrs=attrs),
    "a": lambda N, attrs=(): N.x(),
}

# places a body can hang in a function
def place_tail(n, N):
    return blk(tail=n)


def place_stmt(n, N):
    return blk(stmt(n), tail=call("Ok", N.x()))


def place_let(n, N):
    return blk(Let("_v", n), tail=call("Ok", N.x()))


PLACES = {"tail": place_tail, "stmt": place_stmt, "let": place_let}


def chain(slots, site, N, sattrs=(), attrs_at=None):
    """slots applied outermost first around the site; attrs_at: {level: attrs}"""
    n = SITES[site](N, attrs=sattrs) if isinstance(site, str) else site
    attrs_at = attrs_at or {}
    for lvl in range(len(slots) - 1, -1, -1):
        n = S[slots[lvl]](n, N, attrs=attrs_at.get(lvl, ()))
    return n
