"""An executable fragment of Rust: typed program slots that carry their meaning.

Every slot builds a `lang` node (so the real macro and the expansion model see
the same program) and attaches to it a small-step meaning in Python; `run`
interprets a program for one choice of failing calls and yields the trace of
calls, hook events and the result.  Types: I (i32), R (Result<i32, E>).
"""
from .gen import *  # noqa: F401,F403
from .lang import *  # noqa: F401,F403
from . import gen


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    def __init__(self, label, v):
        self.label, self.v = label, v


class VM:
    def __init__(self, bits, events="both"):
        self.bits, self.t, self.ev_mode = bits, [], events

    def bit(self, k):
        return (self.bits >> k) & 1

    def p(self, k):
        self.t.append(f"p{k}")
        return ("Err", k) if self.bit(k) else ("Ok", k)

    def q(self, k, x):
        self.t.append(f"q{k}:{x}")
        return ("Err", k) if self.bit(k) else ("Ok", x)

    def b(self, k):
        self.t.append(f"b{k}")
        return not self.bit(k)

    def v(self, n):
        self.t.append(f"v{n}")
        return n

    def hook(self, info, val):
        _, (line, col), count, _, _ = info
        if val[0] == "Err" or self.ev_mode == "both":
            self.t.append(f"h{line}:{col} {count} {show(val)}")
        return val


def show(v):
    if isinstance(v, tuple):
        return f"{v[0]}({v[1]})" if v[0] == "Ok" else f"Err(E({v[1]}))"
    return str(v)


def wrap32(x):
    return (x + 2**31) % 2**32 - 2**31


def sem(node, f):
    node.sem = f
    return node


def ev(node, vm):
    """value of a node, with the hook of its tail position when one was placed there"""
    v = node.sem(vm)
    hk = getattr(node, "hk", None)
    if hk and "tail_expr" in hk:
        v = vm.hook(hk["tail_expr"], v)
    return v


def _same(r, n):
    """the parentheses the grammar asks for mean what they hold"""
    if r is not n:
        r.sem = lambda vm: ev(n, vm)
    return r


def par(n, attrs=()):
    return _same(gen.par(n, attrs), n)


def fit(n, *a, **k):
    return _same(gen.fit(n, *a, **k), n)


def body(n):
    return _same(gen.body(n), n)


class Pts:
    """numbers the failure points and plain calls of one program"""

    def __init__(self, busy=False):
        self.k = self.n = 0
        self.busy = busy          # every other operand is itself a site

    def pt(self):
        self.k += 1
        return self.k - 1

    def v(self):
        if self.busy:
            return T["try"][2](self.p(), self)
        self.n += 1
        n = self.n
        return sem(X(f"v({n})", label="v"), lambda vm: vm.v(n))

    def b(self):
        k = self.pt()
        return sem(X(f"b({k})", label="b"), lambda vm: vm.b(k))

    def p(self):
        k = self.pt()
        return sem(X(f"p({k})", label="p", call="p"), lambda vm: vm.p(k))


# ---- slots: name -> (hole type, result type, builder(h, N, attrs))
T = {}


def tslot(name, hole, res):
    def d(f):
        T[name] = (hole, res, f)
        return f
    return d


def simple(name, hole, res, parts, meaning, prec=0, rprec=3, call=None, head=False, rest=True):
    """parts: strings, '@' (a plain call v(n)), '#' the hole; meaning(vm, hv, others) where others are thunks"""
    def f(h, N, attrs=()):
        out, others, seen = [], [], []
        for p in parts:
            if p == "#":
                out.append(fit(h, prec, head=head))
                seen.append("#")
            elif p == "@":
                n = N.v()
                out.append(n)
                seen.append(n)
            else:
                out.append(p)
        order = list(seen)

        def run(vm):
            vals = []
            hv = None
            for o in order:
                if o == "#":
                    hv = ev(h, vm)
                else:
                    vals.append(ev(o, vm))
            return meaning(hv, vals)
        node = X(*out, label=name, prec=rprec, call=call)
        if attrs:
            if rprec in (0, 1):
                node = X("(", node, ")", attrs=attrs, label="paren")
            else:
                node.attrs = attrs
        return sem(node, run)
    T[name] = (hole, res, f)


I_, R_ = "I", "R"
simple("paren", I_, I_, ["(", "#", ")"], lambda h, o: h)
simple("rparen", R_, R_, ["(", "#", ")"], lambda h, o: h)
simple("neg", I_, I_, ["-", "#"], lambda h, o: wrap32(-h), 2, 2)
simple("not", I_, I_, ["!", "#"], lambda h, o: ~h, 2, 2)
simple("deref", I_, I_, ["*&", "#"], lambda h, o: h, 2, 2)
simple("add-l", I_, I_, ["#", " + ", "@"], lambda h, o: wrap32(h + o[0]), 2, 1)
simple("add-r", I_, I_, ["@", " + ", "#"], lambda h, o: wrap32(h + o[0]), 2, 1)
simple("mul-r", I_, I_, ["@", " * ", "#"], lambda h, o: wrap32(h * o[0]), 2, 1)
simple("cast", I_, I_, ["#", " as i64 as i32"], lambda h, o: h, 2, 1)
simple("recv", I_, I_, ["#", ".m(", "@", ")"], lambda h, o: wrap32(h + o[0]), 3)
simple("marg", I_, I_, ["@", ".m(", "#", ")"], lambda h, o: wrap32(h + o[0]))
simple("arg1", I_, I_, ["g(", "#", ", ", "@", ")"], lambda h, o: wrap32(h - o[0]), call="g")
simple("arg2", I_, I_, ["g(", "@", ", ", "#", ")"], lambda h, o: wrap32(o[0] - h), call="g")
simple("array", I_, I_, ["[", "@", ", ", "#", ", ", "@", "][1]"], lambda h, o: h)
simple("index", I_, I_, ["[10, 20][(", "#", " & 1) as usize]"], lambda h, o: 20 if h & 1 else 10, 2)
simple("tuple", I_, I_, ["(", "@", ", ", "#", ", ", "@", ").1"], lambda h, o: h)
simple("field-val", I_, I_, ["S { x: ", "#", ", y: ", "@", " }.x"], lambda h, o: h)
simple("base", I_, I_, ["S { x: ", "@", ", ..S { x: 0, y: ", "#", " } }.y"], lambda h, o: h)
simple("range", I_, I_, ["(0..", "#", ").end"], lambda h, o: h, 2)
simple("ok", I_, R_, ["Ok::<i32, E>(", "#", ")"], lambda h, o: ("Ok", h), call="Ok")
simple("err", I_, R_, ["Err::<i32, E>(E(", "#", "))"], lambda h, o: ("Err", h), call="Err")
simple("ok-plain", I_, R_, ["Ok(", "#", ")"], lambda h, o: ("Ok", h), call="Ok")
simple("err-plain", I_, R_, ["Err(E(", "#", "))"], lambda h, o: ("Err", h), call="Err")
OUTER_ONLY = ("ok-plain", "err-plain", "ret-tail")
simple("unwrap-or", R_, I_, ["#", ".unwrap_or(", "@", ")"], lambda h, o: h[1] if h[0] == "Ok" else o[0], 3)
simple("map", R_, R_, ["#", ".map(|x| x ^ 1)"], lambda h, o: ("Ok", h[1] ^ 1) if h[0] == "Ok" else h, 3)


@tslot("q", I_, R_)
def _(h, N, attrs=()):
    k = N.pt()
    return sem(X(f"q({k}, ", h, ")", label="q", call="q", attrs=attrs), lambda vm: vm.q(k, ev(h, vm)))


@tslot("try", R_, I_)
def _(h, N, attrs=()):
    n = Q(fit(h, 3), attrs=attrs)

    def run(vm):
        v = ev(h, vm)
        hk = getattr(n, "hk", None)
        if hk and "question" in hk:
            v = vm.hook(hk["question"], v)
        if v[0] == "Err":
            raise Return(v)
        return v[1]
    return sem(n, run)


def mkret(h, attrs=()):
    n = Ret(h, attrs=attrs)

    def run(vm):
        v = ev(h, vm)
        hk = getattr(n, "hk", None)
        if hk and "return" in hk:
            v = vm.hook(hk["return"], v)
        raise Return(v)
    return sem(n, run)


def sblk(*stmts, tail=None):
    """stmts: (node, meaning) pairs"""
    if tail is not None:
        tail = fit(tail, stmt=True)
    b = blk(*[s for s, _ in stmts], tail=tail)

    def run(vm):
        for _, f in stmts:
            f(vm)
        if tail is not None:
            return ev(tail, vm)
        return None
    b.sem = run
    return b


def st(n):
    return stmt(n), lambda vm: ev(n, vm)


for typ, pre in ((I_, ""), (R_, "r")):
    def both(name, f, typ=typ, pre=pre):
        T[pre + name] = (typ, typ, f)

    def done(N, typ=typ):
        """another expression of the type"""
        if typ == I_:
            return N.v()
        v = N.v()
        return sem(X("Ok::<i32, E>(", v, ")", label="call", call="Ok"), lambda vm: ("Ok", ev(v, vm)))

    def block_tail(prefix, name, done=done):
        def f(h, N, attrs=()):
            s = N.v()
            b = sblk(st(s), tail=h)
            return sem(BlkX(b, prefix, attrs=attrs), b.sem)
        both(name, f)
    block_tail("", "block-tail")
    block_tail("unsafe ", "unsafe-tail")
    block_tail("'l: ", "label-tail")

    def _if_then(h, N, attrs=(), done=done):
        c, t, e = N.b(), sblk(tail=h), sblk(tail=done(N))
        return sem(If(c, t, e, attrs=attrs), lambda vm: t.sem(vm) if ev(c, vm) else e.sem(vm))
    both("then-tail", _if_then)

    def _if_else(h, N, attrs=(), done=done):
        c, t, e = N.b(), sblk(tail=done(N)), sblk(tail=h)
        return sem(If(c, t, e, attrs=attrs), lambda vm: t.sem(vm) if ev(c, vm) else e.sem(vm))
    both("else-tail", _if_else)

    def _elif(h, N, attrs=(), done=done):
        c, t, c2, t2, e = N.b(), sblk(tail=done(N)), N.b(), sblk(tail=h), sblk(tail=done(N))
        return sem(If(c, t, If(c2, t2, e), attrs=attrs), lambda vm: t.sem(vm) if ev(c, vm) else (t2.sem(vm) if ev(c2, vm) else e.sem(vm)))
    both("elif-tail", _elif)

    def _arm(h, N, attrs=(), done=done):
        c, o = N.b(), done(N)
        h = body(h)
        return sem(Match(c, [("true", None, h), ("false", None, o)], attrs=attrs), lambda vm: ev(h, vm) if ev(c, vm) else ev(o, vm))
    both("arm", _arm)

    def _arm_block(h, N, attrs=(), done=done):
        c, o = N.b(), done(N)
        b = sblk(st(N.v()), tail=h)
        return sem(Match(c, [("false", None, o), ("_", None, b)], attrs=attrs), lambda vm: b.sem(vm) if ev(c, vm) else ev(o, vm))
    both("arm-block", _arm_block)

    def _let(h, N, attrs=()):
        z = sem(X("z", label="z"), None)
        box = {}
        z.sem = lambda vm: box["z"]
        b = blk(Let("z", h), stmt(N_v := N.v()), tail=z)

        def run(vm):
            box["z"] = ev(h, vm)
            ev(N_v, vm)
            return ev(z, vm)
        return sem(BlkX(b, attrs=attrs), run)
    both("let-init", _let)

    def _loop(h, N, attrs=()):
        # two rounds, then `break h`
        c = N.v()
        br = X("break ", par(h) if h.lead_block else h, label="break", prec=0)
        inner = If(X("n > 2", label="cmp"), blk(stmt(br)))
        b = blk(Let("mut n", atom("0")), stmt(BlkX(blk(stmt(X("n += 1", label="asg", prec=0)), stmt(c), stmt(inner)), "loop ")))

        def run(vm):
            for _ in range(3):
                ev(c, vm)
            return ev(h, vm)
        # the loop is the block's tail
        return sem(BlkX(b, attrs=attrs), run)
    both("loop-break", _loop)

    def _lbreak(h, N, attrs=(), done=done):
        c, o = N.b(), done(N)
        br = X("break 'm ", par(h) if h.lead_block else h, label="break", prec=0)
        b = blk(stmt(If(c, blk(stmt(br)))), tail=o)

        def run(vm):
            if ev(c, vm):
                return ev(h, vm)
            return ev(o, vm)
        return sem(BlkX(b, "'m: ", attrs=attrs), run)
    both("label-break", _lbreak)

    def _mac(h, N, attrs=()):
        a, b = N.v(), N.v()
        m = Mac([(a, ", "), (h, ", "), (b, "")], name="tup")

        def run(vm):
            ev(a, vm)
            r = ev(h, vm)
            ev(b, vm)
            return r
        return sem(X(m, ".1", label="mac", attrs=attrs), run)
    both("mac-arg", _mac)

    def _mac1(h, N, attrs=()):
        return sem(Mac([(h, "")], name="idm", attrs=attrs), lambda vm: ev(h, vm))
    both("mac-one", _mac1)

    def _match_scrut(h, N, attrs=()):
        z = X("w", label="z")
        a = N.v()
        b = blk(stmt(a), tail=z)

        def run(vm):
            r = ev(h, vm)
            ev(a, vm)
            return r
        return sem(Match(fit(h, head=True), [("w", None, b)], attrs=attrs), run)
    both("match-scrut", _match_scrut)

    def _assign(h, N, attrs=()):
        b = blk(Stmt("let z;", label="let-none"), stmt(X("z = ", fit(h, 1), label="assign-r", prec=0)), tail=X("z", label="z"))
        return sem(BlkX(b, attrs=attrs), lambda vm: ev(h, vm))
    both("assign", _assign)

    def _stmt(h, N, attrs=(), done=done):
        o = done(N)
        b = blk(Let("_", h), tail=o)

        def run(vm):
            ev(h, vm)
            return ev(o, vm)
        return sem(BlkX(b, attrs=attrs), run)
    both("discard", _stmt)

    def _for(h, N, attrs=()):
        e = X("last = Some(", h, ")", label="asg", prec=0)
        b = blk(Let("mut last", atom("None")), stmt(BlkX(blk(stmt(e)), "for _ in 0..2 ")), tail=X("last.unwrap()", label="z"))

        def run(vm):
            for _ in range(2):
                r = ev(h, vm)
            return r
        return sem(BlkX(b, attrs=attrs), run)
    both("for-body", _for)

    def _while(h, N, attrs=()):
        e = X("last = Some(", h, ")", label="asg", prec=0)
        b = blk(Let("mut last", atom("None")), Let("mut i", atom("0")),
                stmt(BlkX(blk(stmt(X("i += 1", label="asg", prec=0)), stmt(e)), "while ", cond=X("i < 2", label="cmp"))), tail=X("last.unwrap()", label="z"))

        def run(vm):
            for _ in range(2):
                r = ev(h, vm)
            return r
        return sem(BlkX(b, attrs=attrs), run)
    both("while-body", _while)


@tslot("if-cond", I_, I_)
def _(h, N, attrs=()):
    t, e = sblk(tail=N.v()), sblk(tail=N.v())
    c = X(fit(h, 2, head=True), " & 1 == 1", label="cmp", prec=1)
    return sem(If(c, t, e, attrs=attrs), lambda vm: t.sem(vm) if ev(h, vm) & 1 else e.sem(vm))


@tslot("and", I_, I_)
def _(h, N, attrs=()):
    """short circuit"""
    c = N.b()
    t, e = sblk(tail=N.v()), sblk(tail=N.v())
    cond = X(c, " && ", X("(", fit(h, 2), " & 1 == 1)", label="cmp"), label="and", prec=1)

    def run(vm):
        return t.sem(vm) if ev(c, vm) and ev(h, vm) & 1 else e.sem(vm)
    return sem(If(cond, t, e, attrs=attrs), run)


@tslot("guard", I_, I_)
def _(h, N, attrs=()):
    s, a, b = N.v(), N.v(), N.v()
    g = X(fit(h, 2), " & 1 == 1", label="cmp", prec=1)

    def run(vm):
        ev(s, vm)
        return ev(a, vm) if ev(h, vm) & 1 else ev(b, vm)
    return sem(Match(s, [("_", g, a), ("_", None, b)], attrs=attrs), run)


@tslot("if-let", R_, I_)
def _(h, N, attrs=()):
    t, e = sblk(tail=N.v()), sblk(tail=N.v())
    return sem(If(X("let Ok(_x) = ", fit(h, 2, head=True), label="let-cond"), t, e, attrs=attrs), lambda vm: t.sem(vm) if ev(h, vm)[0] == "Ok" else e.sem(vm))


@tslot("match-r", R_, I_)
def _(h, N, attrs=()):
    a = N.v()

    def run(vm):
        r = ev(h, vm)
        return r[1] if r[0] == "Ok" else wrap32(ev(a, vm) - r[1])
    return sem(Match(fit(h, head=True), [("Ok(x)", None, X("x", label="z")), ("Err(E(c))", None, X(a, " - c", label="sub", prec=1))], attrs=attrs), run)


def _okflip(h, N, mk):
    """a match over the hole whose temporaries live as long as the match's"""
    a = N.v()
    y = sem(X("Ok::<i32, E>(x - ", a, ")", label="call", call="Ok"), None)
    z = sem(X("Err::<i32, E>(e)", label="call", call="Err"), None)
    box = {}
    y.sem = lambda vm: ("Ok", wrap32(box["x"] - ev(a, vm)))
    z.sem = lambda vm: ("Err", box["x"])

    def run(vm):
        r = ev(h, vm)
        box["x"] = r[1]
        return ev(y if r[0] == "Ok" else z, vm)
    return sem(mk(y, z), run)


@tslot("rmatch-r", R_, R_)
def _(h, N, attrs=()):
    return _okflip(h, N, lambda y, z: Match(fit(h, head=True), [("Ok(x)", None, y), ("Err(e)", None, z)], attrs=attrs))


@tslot("letelse-init", R_, I_)
def _(h, N, attrs=()):
    k = N.v()
    r = mkret(sem(X("Err::<i32, E>(E(", k, "))", label="call", call="Err"), lambda vm: ("Err", ev(k, vm))))
    b = blk(Let("Ok(y)", par(h), blk(stmt(r))), tail=X("y", label="z"))

    def run(vm):
        v = ev(h, vm)
        if v[0] == "Err":
            ev(r, vm)
        return v[1]
    return sem(BlkX(b, attrs=attrs), run)


@tslot("letelse-else", R_, I_)
def _(h, N, attrs=()):
    o = N.p()
    r = mkret(h)
    b = blk(Let("Ok(y)", o, blk(stmt(r))), tail=X("y", label="z"))

    def run(vm):
        v = ev(o, vm)
        if v[0] == "Err":
            ev(r, vm)
        return v[1]
    return sem(BlkX(b, attrs=attrs), run)


@tslot("ret-if", R_, I_)
def _(h, N, attrs=()):
    c, r, o = N.b(), mkret(h), sblk(tail=N.v())
    t = blk(stmt(r))

    def run(vm):
        if ev(c, vm):
            ev(r, vm)
        return o.sem(vm)
    return sem(If(c, t, o, attrs=attrs), run)


@tslot("ret-arm", R_, I_)
def _(h, N, attrs=()):
    c, r, o = N.b(), mkret(h), N.v()

    def run(vm):
        if ev(c, vm):
            ev(r, vm)
        return ev(o, vm)
    return sem(Match(c, [("true", None, r), ("false", None, o)], attrs=attrs), run)


@tslot("ret-tail", R_, R_)
def _(h, N, attrs=()):
    return mkret(h, attrs)


@tslot("and-then", R_, R_)
def _(h, N, attrs=()):
    p = N.p()

    def run(vm):
        v = ev(h, vm)
        return ev(p, vm) if v[0] == "Ok" else v
    return sem(X(fit(h, 3), ".and_then(", Closure(p, params="_x"), ")", attrs=attrs, label="and-then"), run)


@tslot("or-else", R_, R_)
def _(h, N, attrs=()):
    p, h = N.p(), body(h)

    def run(vm):
        v = ev(p, vm)
        return ev(h, vm) if v[0] == "Err" else v
    return sem(X(p, ".or_else(", Closure(h, params="_x"), ")", attrs=attrs, label="or-else"), lambda vm: frame(run, vm))


def frame(f, vm):
    try:
        return f(vm)
    except Return as r:
        return r.v


def framed(f):
    return lambda vm: frame(f, vm)


def clo(name, **k):
    @tslot(name, R_, R_)
    def _(h, N, attrs=()):
        a = N.v()
        b = sblk(st(a), tail=h)
        return sem(X("(", Closure(b, **k), ")()", attrs=attrs, label="clo-call"), framed(b.sem))


clo("clo")
clo("clo-res", ret="Result<i32, E>")
clo("clo-move", ret="Result<i32, E>", prefix="move ")


@tslot("clo-expr", R_, R_)
def _(h, N, attrs=()):
    h = body(h)
    return sem(X("(", Closure(h), ")()", attrs=attrs, label="clo-call"), lambda vm: frame(lambda v: ev(h, v), vm))


def asy(name, prefix):
    @tslot(name, R_, R_)
    def _(h, N, attrs=()):
        b = sblk(st(N.v()), tail=h)
        x = BlkX(b, prefix)
        return sem(X("block_on(", x, ")", attrs=attrs, label="async", call="block_on"), framed(b.sem))


asy("async", "async ")
asy("async-move", "async move ")


@tslot("async-clo", R_, R_)
def _(h, N, attrs=()):
    b = sblk(st(N.v()), tail=h)
    return sem(X("block_on((", Closure(b, prefix="async "), ")())", attrs=attrs, label="async", call="block_on"), framed(b.sem))


def item_fn(name, mk):
    @tslot(name, R_, R_)
    def _(h, N, attrs=()):
        b = sblk(st(N.v()), tail=h)
        item, use, call_ = mk(b, attrs)
        u = sem(X(use, label="use", call=call_), framed(b.sem))
        bb = blk(item_stmt(item), tail=u)
        return sem(BlkX(bb), lambda vm: ev(u, vm))


def _inner_impl(b, attrs):
    return (Group("impl Q2", [Fn(b, name="meth", params="&self", ret="Result<i32, E>")], attrs=attrs), "Q2.meth()", None)


item_fn("inner-fn", lambda b, attrs: (Fn(b, name="inner", ret="Result<i32, E>", attrs=attrs), "inner()", "inner"))
item_fn("inner-async-fn", lambda b, attrs: (Fn(b, name="inner", ret="Result<i32, E>", quals="async ", attrs=attrs), "block_on(inner())", "block_on"))
item_fn("inner-mod", lambda b, attrs: (Group("mod im", [Raw("use super::*;"), Fn(b, name="inn", ret="Result<i32, E>", quals="pub ")], attrs=attrs), "im::inn()", "inn"))

LEAF = {
    "p": (R_, lambda N: N.p()),
    "v": (I_, lambda N: N.v()),
    "errv": (R_, lambda N: (lambda v: sem(X("Err::<i32, E>(E(", v, "))", label="call", call="Err"), lambda vm: ("Err", ev(v, vm))))(N.v())),
    "drop": (R_, lambda N: (lambda k: sem(X(f"D({k}).r({k})", label="drop"), lambda vm: vm.p(k)))(N.pt())),
}


def typed_chains(depth, names=None, leaf="p", want=(I_, R_)):
    """all slot sequences (outermost first) of that length that type-check over the leaf"""
    names = names or list(T)
    lt = LEAF[leaf][0]

    def go(d, outer_hole):
        if d == 0:
            if outer_hole is None or outer_hole == lt:
                yield ()
            return
        for n in names:
            hole, res, _ = T[n]
            if outer_hole is None and res not in want:
                continue
            if outer_hole is not None and (res != outer_hole or n in OUTER_ONLY):
                continue
            for rest in go(d - 1, hole):
                yield (n,) + rest
    yield from go(depth, None)


def build(chain_, leaf, N, attrs_at=None):
    n = LEAF[leaf][1](N)
    for lvl in range(len(chain_) - 1, -1, -1):
        n = T[chain_[lvl]][2](n, N, attrs=(attrs_at or {}).get(lvl, ()))
    return n


PRELUDE = r"""#![allow(warnings)]
use std::cell::{Cell, RefCell};
thread_local! { static BITS: Cell<u64> = Cell::new(0); static T: RefCell<Vec<String>> = RefCell::new(vec![]); }
pub fn log(s: String) { T.with(|t| t.borrow_mut().push(s)) }
fn bit(k: u32) -> bool { BITS.with(|b| b.get() >> k & 1 == 1) }
#[derive(Debug, Clone, Copy, PartialEq)] pub struct E(pub i32);
pub struct S { pub x: i32, pub y: i32 }
pub struct D(pub u32);
impl Drop for D { fn drop(&mut self) { log(format!("d{}", self.0)) } }
impl D { pub fn r(&self, k: u32) -> Result<i32, E> { p(k) } }
pub fn p(k: u32) -> Result<i32, E> { log(format!("p{k}")); if bit(k) { Err(E(k as i32)) } else { Ok(k as i32) } }
pub fn q(k: u32, x: i32) -> Result<i32, E> { log(format!("q{k}:{x}")); if bit(k) { Err(E(k as i32)) } else { Ok(x) } }
pub fn b(k: u32) -> bool { log(format!("b{k}")); !bit(k) }
pub fn v(n: i32) -> i32 { log(format!("v{n}")); n }
pub fn g(a: i32, b: i32) -> i32 { a.wrapping_sub(b) }
pub trait M { fn m(self, o: i32) -> i32; }
impl M for i32 { fn m(self, o: i32) -> i32 { self.wrapping_add(o) } }
pub trait Hk: Sized { fn hk(self, line: usize, col: usize, n: &str) -> Self; }
impl<A: std::fmt::Debug> Hk for Result<A, E> { fn hk(self, line: usize, col: usize, n: &str) -> Self { log(format!("h{line}:{col} {n} {self:?}")); self } }
pub fn hkf<A: std::fmt::Debug>(r: Result<A, E>, line: usize, col: usize, n: &str) -> Result<A, E> { r.hk(line, col, n) }
macro_rules! tup { ($($e:expr),*) => { ($($e),*) } }
macro_rules! idm { ($e:expr) => { $e } }
pub(crate) use {tup, idm};
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) { std::task::Poll::Ready(x) => x, _ => panic!() }
}
fn exec(name: &str, k: u32, f: fn() -> Result<i32, E>) {
    for bits in 0..1u64 << k {
        BITS.with(|b| b.set(bits));
        T.with(|t| t.borrow_mut().clear());
        let r = f();
        T.with(|t| println!("{name} {bits} {} => {r:?}", t.borrow().join(",")));
    }
}
"""
PRELUDE_LINES = PRELUDE.count("\n")
