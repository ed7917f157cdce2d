"""P24: code that reaches hooq through the fragments of a macro_rules! macro is treated like the same code written out."""
import re

from ..common import *

BOUNDS = {
    "quick": "every slot x 8 sites x place x declared return type (itself written out or a `ty` fragment), with every non-empty subset of {site, slot, operand} passed as `expr` fragments (one inside the other "
             "through two macros); all pairs of 26 slots with the site, the inner or both passed; blocks, statements, items, callees, types, attributes, templates, bindings, patterns, literals, identifiers, "
             "lifetimes, visibilities and token trees as fragments; fragments repeated and handed through up to three macros",
    "thorough": "as quick with all pairs of the 57 core slots and every subset of the three levels",
}
HSRC = ("method", ".h($nth, cap!($source))")


def lifter(*extra):
    """annotated text in which the lifted slices arrive as macro fragments; extra: (text, fragment kind[, which occurrence])"""
    def wrap(i, text, lifts):
        L = list(lifts)
        for t, kind, *k in extra:
            o = -1
            for _ in range(k[0] + 1 if k else 1):
                o = text.index(t, o + 1)
            L.append((o, o + len(t), kind, o, o + len(t)))
        assert L, text
        L.sort(key=lambda x: (x[0], -x[1]))
        # how many lifted slices a slice lies in; of equal ones the first listed is the outer
        lv = [sum(1 for j, y in enumerate(L) if j != k and y[0] <= x[0] and x[1] <= y[1] and (y[:2] != x[:2] or j < k)) for k, x in enumerate(L)]

        def sub(lo, hi, level):
            out, at = [], lo
            for k, x in enumerate(L):
                if lv[k] == level and lo <= x[0] and x[1] <= hi:
                    out += [text[at:x[0]], f"$zz{k}"]
                    at = x[1]
            return "".join(out) + text[at:hi]

        def args(level, inner):
            return ", ".join(sub(x[3], x[4], inner) if inner is not None else text[x[3]:x[4]] for k, x in enumerate(L) if lv[k] == level)
        o0, o1 = text.index("use crate::p::*; ") + len("use crate::p::*; "), text.rindex("}")
        top = max(lv)
        out = []
        for level in range(top + 1):
            pat = ", ".join(f"$zz{k}:{x[2]}" for k, x in enumerate(L) if lv[k] == level)
            body = sub(o0, o1, 0) if level == 0 else f"lift{i}_{level - 1}! {{ {args(level - 1, level)} }}"
            out.append(f"macro_rules! lift{i}_{level} {{ ({pat}) => {{ {body} }} }} ")
        return "".join(out) + text[:o0] + f"lift{i}_{top}! {{ {args(top, None)} }} " + text[o1:]
    return wrap


def up(n, kind="expr"):
    n.lift = kind
    return n


def unparen(n, N):
    """parentheses the grammar asks for around a lifted node: the fragment brings its own invisible ones"""
    for p in getattr(n, "parts", ()):
        if isinstance(p, Node) and p.label == "paren" and len(p.parts) == 3 and isinstance(p.parts[1], Node) and p.parts[1].lift == "expr":
            p.parts[1].lift = None
            p.lift = N.paren = "paren"
    for f in ("e", "cond", "init", "scrut"):
        p = getattr(n, f, None)
        if isinstance(p, X) and p.label == "paren" and p.parts[1].lift == "expr":
            p.parts[1].lift = None
            p.lift = N.paren = "paren"
    return n


def operand(n):
    """the operand of a site"""
    for f in ("e",):
        if getattr(n, f, None) is not None:
            return operand(n.e) if isinstance(n.e, X) and n.e.label == "call" else n.e
    return n.parts[2]


class Op(Names):
    """names whose first operand is a looser expression, so that the fragment's precedence shows"""

    def __init__(self, first):
        super().__init__()
        self.first = first

    def x(self):
        if self.first is not None:
            f, self.first = self.first, None
            return f(Names())
        return super().x()


SITES24 = ["q", "ret", "retok", "reterr", "err", "ok", "g", "a"]
RETS = {"res": ("Result<i32, String>", False), "res-ty": ("Result<i32, String>", True), "i32": ("i32", False), "other-ty": ("Option<i32>", True)}
SUBSETS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1)]


def place(n, p, N):
    if p == "tail":
        b = blk(tail=n)
    elif p == "let":
        b = blk(Let("_v", n), tail=call("Ok", N.x()))
    elif p == "clo":
        b = blk(stmt(call("g", Closure(body(n)))), tail=call("Ok", N.x()))
    elif p == "arm":
        b = blk(stmt(Match(N.x(), [("0", None, body(n)), ("_", None, call("Err", N.x()))])), tail=call("Ok", N.x()))
    else:
        b = blk(semi(fit(n, stmt=True)), tail=call("Ok", N.x()))
    return b


def one(labels, site, sub, p, ret):
    def b():
        N = Names()
        n = SITES[site](N)
        if sub[0]:
            up(n)
        if sub[2] and site != "a":
            up(operand(n))
        inner = n
        for j, l in enumerate(reversed(labels)):
            n = unparen(S[l](n, N), N)
            if len(sub) > 3 + j and sub[3 + j] or j == len(labels) - 1 and sub[1]:
                up(n)
        f = Fn(place(n, p, N), name="f", ret=RETS[ret][0], attrs=[HSRC])
        f.lift_ret = RETS[ret][1]
        for x in bodies(f.block):
            unparen(x, N)
        if getattr(N, "paren", None):      # the text of invisible parentheses is not the text of written ones
            f.attrs = [HS]
        return [("", f)]
    return b


def bodies(b):
    out = list(b.stmts)
    return out + ([b.tail] if b.tail is not None else [])


def slots(c):
    for l in LABELS:
        for site in SITES24:
            for sub in SUBSETS:
                if site == "a" and (sub[2] or not sub[1]):
                    continue
                for p in ("tail", "let", "clo", "arm", "stmt"):
                    if p in ("let", "stmt") and not (sub == (1, 1, 0) or sub == (0, 1, 0)) and not c.thorough:
                        continue
                    for r in RETS:
                        if p != "tail" and r in ("i32", "other-ty") or p in ("let", "arm", "stmt") and r != "res-ty" and not c.thorough:
                            continue
                        yield Case(f"slot:{l}:{site}:{''.join(map(str, sub))}:{p}:{r}", one([l], site, sub, p, r), wrap=lifter())


def pairs(c):
    al = CORE if c.thorough else TINY
    for a, d in itertools.product(al, al):
        for site in ("q", "reterr", "err", "g"):
            for sub in ((1, 0, 0, 0), (0, 0, 0, 1), (0, 1, 0, 1), (1, 1, 0, 1)) if not c.thorough else [s + (k,) for s in SUBSETS for k in (0, 1)]:
                for r in ("res-ty",) if not c.thorough else ("res-ty", "i32"):
                    yield Case(f"pair:{a}/{d}:{site}:{''.join(map(str, sub))}:{r}", one([a, d], site, sub, "tail", r), wrap=lifter())



# ---- calls whose callee, functions and closures whose return type, is a fragment
PATHS = ["Err", "Ok", "g", "Fail", "std::result::Result::Err", "::core::result::Result::Ok", "crate::p::r::Err", "r::Ok", "Result::<i32, i32>::Err"]
TYPES = ["Result<i32, String>", "::std::result::Result<i32, ()>", "crate::p::MyResult<i32>", "MyResult<Result<i32, ()>>", "Option<i32>", "i32", "(Result<i32, ()>, i32)", "&'static Result<i32, ()>", "r::Result<i32>",
         "Result", "impl Tr", "fn() -> Result<i32, ()>", "[Result<i32, ()>; 2]"]
SETS = {"-": [], "tail": [("tail_expr_idents", ["Fail", "!g"])], "rt": [("result_types", ["MyResult", "Option"])], "off": [("hook_targets", ["return"])]}


def ends(N, mk):
    """a call at every kind of end"""
    return [stmt(If(N.x(), blk(stmt(Ret(mk())), tail=mk()), blk(tail=mk()))), Let("_v", Closure(mk())), Let("_v", Closure(blk(tail=mk()), ret="Result<i32, i32>")),
            stmt(Match(N.x(), [("0", None, mk()), ("1", None, blk(tail=mk())), ("_", None, Ret(mk()))])), stmt(call("g", mk()))]


TOML = """[a]
hook_targets = ["return"]
[a.b]
tail_expr_idents = ["Fail"]
"""
FA = Flavor(targets=["return"])
FAB = FA.copy(tails=("Fail",))
FLS = dict(STD, **{"a": FA, "a::b": FAB})


def callees(c):
    for path, kind, ret, st in itertools.product(PATHS, ("path", "expr", "ident", "tt"), ("Result<i32, String>", "i32"), SETS):
        if kind in ("ident", "tt") and "::" in path:
            continue
        for whole in (False, True):
            def b(path=path, kind=kind, ret=ret, st=st, whole=whole):
                N = Names()

                def mk():
                    x = call(path, N.x())
                    x.lift_head = kind
                    return up(x) if whole else x
                return [("", Fn(blk(*ends(N, mk), tail=mk()), name="f", ret=ret, attrs=[HSRC] + SETS[st]))]
            yield Case(f"callee:{path}:{kind}:{ret}:{st}:{whole}", b, wrap=lifter())


def types(c):
    for ty, st, cl in itertools.product(TYPES, SETS, (None,) + tuple(TYPES)):
        if cl and st not in ("-", "rt"):
            continue
        for inner in (None, "i32", "Result"):
            if inner and (not re.search(r"\b%s\b" % inner, ty) or cl):
                continue
            def b(ty=ty, st=st, cl=cl):
                N = Names()
                clo = Closure(blk(stmt(Q(N.x())), tail=X(N.x())), ret=cl or "Result<i32, ()>")
                clo.lift_ret = cl is not None
                m = Fn(blk(stmt(Q(N.x())), tail=N.x()), name="m", ret=ty)
                f = Fn(blk(stmt(If(N.x(), blk(stmt(Ret(N.x())), tail=call("g", N.x())))), Let("_v", clo), item_stmt(Group("impl S", [m])), tail=X(N.x())), name="f", ret=ty, attrs=[HS] + SETS[st])
                f.lift_ret = m.lift_ret = True
                return [("", f)]
            kind = "ty" if inner == "i32" else "ident"
            yield Case(f"type:{ty}:{st}:{cl}:{inner}", b, wrap=lifter() if not inner else inner_type(ty, inner, kind), errors_ok=True)


def inner_type(ty, inner, kind):
    """part of the type is itself a fragment of the macro around"""
    def wrap(i, text, lifts):
        o = [x[0] for x in lifts]
        ex = []
        for k in o:
            j = re.compile(r"\b%s\b" % inner).search(text, k).start()
            ex.append((j, j + len(inner), kind, j, j + len(inner)))
        return lifter()(i, text, lifts + [e for e in ex if e[:2] not in [x[:2] for x in lifts]])
    return wrap


# ---- blocks, statements, items
def upb(b):
    b.lift = "block"
    return b


BLOCKS = {
    "fn": lambda b, N: None,
    "clo": lambda b, N: call("g", Closure(b)),
    "clores": lambda b, N: call("g", Closure(b, ret="Result<i32, i32>", prefix="move ")),
    "arm": lambda b, N: Match(N.x(), [("0", None, b), ("_", None, N.x())]),
    "then": lambda b, N: If(N.x(), b, blk(tail=N.x())),
    "else": lambda b, N: If(N.x(), blk(tail=N.x()), b),
    "elif": lambda b, N: If(N.x(), blk(tail=N.x()), If(N.x(), b, blk(tail=N.x()))),
    "loop": lambda b, N: BlkX(b, "'l: loop "),
    "while": lambda b, N: BlkX(b, "while ", cond=N.x()),
    "for": lambda b, N: BlkX(b, "for _v in ", cond=N.x()),
    "unsafe": lambda b, N: BlkX(b, "unsafe "),
    "async": lambda b, N: BlkX(b, "async move "),
    "const": lambda b, N: BlkX(b, "const "),
    "plain": lambda b, N: BlkX(b),
    "letelse": lambda b, N: BlkX(blk(Let("Some(_v)", N.x(), b), tail=N.x())),
    "innerfn": lambda b, N: BlkX(blk(item_stmt(Fn(b, name="inner")), tail=N.x())),
}
CONTENT = {
    "q": lambda N: blk(stmt(Q(N.x())), tail=N.x()),
    "err": lambda N: blk(tail=call("Err", N.x())),
    "ok": lambda N: blk(stmt(Q(Q(N.x()))), tail=call("Ok", N.x())),
    "ret": lambda N: blk(stmt(Ret(call("Err", Q(N.x())))), stmt(If(N.x(), blk(tail=Ret(N.x()))))),
    "if": lambda N: blk(tail=If(Q(N.x()), blk(tail=call("Err", N.x())), blk(tail=Q(N.x())))),
    "": lambda N: blk(),
}


def blocks(c):
    for k, j, ct, ret in itertools.product(BLOCKS, (None,) + tuple(BLOCKS), CONTENT, ("Result<i32, String>", "i32")):
        for mask in ((1,) if j is None else (1, 2, 3)):
            if "fn" in (j,):
                continue
            for p in ("tail", "let", "stmt"):
                if p != "tail" and (j or mask > 1):
                    continue
                def b(k=k, j=j, ct=ct, ret=ret, mask=mask, p=p):
                    N = Names()
                    x = CONTENT[ct](N)
                    if mask & 1:
                        upb(x)
                    if j is not None:
                        x = blk(stmt(Q(N.x())), tail=BLOCKS[j](x, N))
                        if mask & 2:
                            upb(x)
                    if k == "fn":
                        fb = x
                    else:
                        fb = place(BLOCKS[k](x, N), p, N)
                    return [("", Fn(fb, name="f", ret=ret, attrs=[HSRC]))]
                yield Case(f"block:{k}/{j}:{ct}:{ret}:{mask}:{p}", b, wrap=lifter())


STM = {
    "q": lambda N: semi(Q(N.x())),
    "let": lambda N: Let("_v", Q(N.x())),
    "letty": lambda N: Let("_v: i32", Q(N.x())),
    "letelse": lambda N: Let("Some(_v)", par(Q(N.x())), blk(stmt(Q(N.x())), tail=Ret(call("Err", N.x())))),
    "letun": lambda N: Stmt("let _v: i32;", label="let"),
    "letclo": lambda N: Let("_v", Closure(call("Err", Q(N.x())))),
    "assign": lambda N: semi(X(N.x(), " = ", Q(N.x()), label="assign-r", prec=0)),
    "ret": lambda N: semi(Ret(call("Err", Q(N.x())))),
    "retv": lambda N: semi(Ret(N.x())),
    "mac": lambda N: Stmt(Mac([(Q(N.x()), ", "), (N.x(), "")], name="tup"), ";", label="expr-stmt"),
    "err": lambda N: semi(call("Err", Q(N.x()))),
    "block": lambda N: semi(BlkX(blk(stmt(Q(N.x())), tail=call("Err", N.x())))),
    "match": lambda N: semi(Match(Q(N.x()), [("0", None, call("Err", N.x())), ("_", None, Q(N.x()))])),
    "break": lambda N: semi(X("break 'l ", Q(N.x()), label="break", prec=0)),
    "fn": lambda N: item_stmt(Fn(blk(stmt(Q(N.x())), tail=N.x()), name="i" + N.a())),
    "const": lambda N: item_stmt(ItemX(f"const _C{N.a()}: i32 = ", Q(N.x()), ";", label="const")),
    "impl": lambda N: item_stmt(Group("impl S", [Fn(blk(stmt(Q(N.x())), tail=call("g", N.x())), name="m" + N.a(), params="&self"), ItemX("const C: i32 = ", Q(N.x()), ";", label="const")])),
    "trait": lambda N: item_stmt(Group("trait T" + N.a(), [Fn(blk(tail=call("g", N.x())), name="m", params="&self"), Fn(None, name="d")])),
    "struct": lambda N: item_stmt(ItemX(f"struct Z{N.a()};", label="item")),
    "mod": lambda N: item_stmt(Group("mod n" + N.a(), [Raw("use crate::p::*;"), Fn(blk(tail=Q(N.x())), name="infn")])),
}
ITEMS = ("fn", "const", "impl", "trait", "struct", "mod")


def stmts(c):
    for k, j in itertools.product(STM, (None,) + tuple(STM)):
        for kind in ("stmt", "item") if k in ITEMS else ("stmt",):
            if kind == "stmt" and (k in ("const", "struct") or j in ("const", "struct")):
                continue           # rustc itself refuses such a statement fragment
            for where in ("fn", "clo", "loop"):
                for skip in ((), [("skip",)], [("skip_all",)]):
                    if skip and (j or where != "fn"):
                        continue
                    def b(k=k, j=j, kind=kind, where=where, skip=skip):
                        N = Names()
                        ss = [up(STM[k](N), kind)]
                        if skip:
                            ss[0] = wrap_attr(ss[0], skip)
                        ss.append(stmt(Q(N.x())))
                        if j:
                            ss.append(up(STM[j](N), "item" if j in ITEMS else "stmt"))
                        x = blk(*ss, tail=N.x())
                        if where == "clo":
                            x = blk(stmt(call("g", Closure(x))), tail=Q(N.x()))
                        elif where == "loop":
                            x = blk(stmt(BlkX(x, "'l: loop ")), tail=N.x())
                        return [("", Fn(x, name="f", attrs=[HS if k == "mac" else HSRC]))]
                    yield Case(f"stmt:{k}/{j}:{kind}:{where}:{skip}", b, wrap=lifter())


def wrap_attr(s, attrs):
    """the attribute stays in the macro, the statement is the fragment: here both go into a block"""
    return stmt(BlkX(blk(s), attrs=attrs))


def items(c):
    for k, j in itertools.product(ITEMS, repeat=2):
        for cont in ("root", "mod", "modmod"):
            for at in ((), [("skip_all",)], [("hook_targets", ["question"])]):
                def b(k=k, j=j, cont=cont, at=at):
                    N = Names()
                    a, d = up(STM[k](N), "item"), up(STM[j](N), "item")
                    if cont == "root":
                        x = a.parts[0]
                        a.lift = d.lift = None
                        x.attrs = [HSRC] + list(at)
                        if k == "struct":
                            x.attrs = []
                        return [("", up(x, "item0")), ("", Fn(blk(tail=Q(N.x())), name="z", attrs=[HSRC]))]
                    inner = [Raw("use crate::p::*;"), a, d]
                    if cont == "modmod":
                        inner = [Raw("use crate::p::*;"), Group("mod sub2", inner)]
                    return [("", Group("mod sub", inner, attrs=[HSRC] + list(at)))]
                yield Case(f"item:{k}/{j}:{cont}:{at}", b, wrap=root_item if cont == "root" else lifter())


def root_item(i, text, lifts):
    return lifter()(i, text, [(x[0], x[1], "item", x[3], x[4]) for x in lifts])


# ---- tokens of other kinds, and the settings themselves
def sample_prog(attrs, tail="Err", ret="Result<i32, String>"):
    def b():
        N = Names()
        return [("", Fn(blk(Let("Some((_w, 0 | 1))", Q(N.x()), blk(tail=call("Fail", N.x()))), stmt(BlkX(blk(stmt(X("break 'l ", Q(N.x()), label="break", prec=0))), "'l: loop ")),
                            stmt(Match(Q(N.x()), [("7 | 8", Q(N.x()), call("Err", N.x())), ("Some(9)", None, N.x()), ("_", None, Ret(call("Fail", N.x())))])),
                            stmt(X(Q(X("(-5)")), ".mmth(", Q(N.x()), ")")), Let("_v", Closure(Q(N.x()), params="_q")), tail=call(tail, N.x())),
                        name="fff", quals="pub(crate) ", generics="<'a, T>", params="xx: &'a T", ret=ret, attrs=attrs))]
    return b


TOKENS = [("Some((_w, 0 | 1))", "pat"), ("7 | 8", "pat"), ("Some(9)", "pat"), ("'l", "lifetime"), ("'l", "tt"), ("fff", "ident"), ("fff", "tt"), ("pub(crate)", "vis"), ("xx", "ident"), ("xx", "pat"),
          ("&'a T", "ty"), ("'a", "lifetime"), ("-5", "literal"), ("-5", "expr"), ("mmth", "ident"), ("mmth", "tt"), ("_q", "pat"), ("_q", "ident"), ("Err", "ident"), ("Fail", "path"), ("Fail", "ident"),
          ("(a2)", "tt"), ("7 ", "literal"), ("i32", "ty"), ("i32", "ident"), ("String", "path"), ("String", "tt"), ("Result<i32, String>", "ty"), ("Result<i32, String>", "path"), ("a3?", "expr")]


def tokens(c):
    pr = sample_prog([HS])
    for k in (1, 2, 3) if c.thorough else (1, 2):
        for xs in itertools.combinations(TOKENS, k):
            if len({t for t, _ in xs}) < k or any(a != b_ and a.strip() in b_.strip() for a, _ in xs for b_, _ in xs):
                continue
            yield Case("token:" + "+".join(f"{t}:{k_}" for t, k_ in xs), pr, wrap=lifter(*xs), errors_ok=True)


# settings: (attributes, lifted texts)
SETTINGS = {
    "method-expr": ([("method", ".h(2 * (a8 + a9), $nth)")], [("(a8 + a9)", "paren")]),
    "method-expr-recv": ([("method", ".h((a8 + a9).m(), $nth)")], [("(a8 + a9)", "paren")]),
    "method-neg": ([("method", ".h((-a8).m(), $nth)")], [("(-a8)", "paren")]),
    "method-neglit": ([("method", ".h((-8).m(), $nth)")], [("(-8)", "paren")]),
    "method-lit": ([("method", ".h((-8).m(), $nth)")], [("(-8)", "parenlit")]),
    "method-ref": ([("method", ".h((&a8).m() == (*a9).m(), $nth)")], [("(&a8)", "paren"), ("(*a9)", "paren")]),
    "method-cast": ([("method", ".h((a8 as i32).m() < (a8 as u8).m(), $nth)")], [("(a8 as i32)", "paren"), ("(a8 as u8)", "paren")]),
    "method-range": ([("method", ".h((0..a8).m(), ..a9, $nth)")], [("(0..a8)", "paren"), ("..a9", "expr")]),
    "method-clo": ([("method", ".h((|x| x + 1)(2), $nth)")], [("(|x| x + 1)", "paren")]),
    "method-cmp": ([("method", ".h((a8 == a9) == (a8 && a9), $nth)")], [("(a8 == a9)", "paren"), ("(a8 && a9)", "paren")]),
    "method-block": ([("method", ".h(if a8 { a9 } else { a7 }, $nth)")], [("{ a9 }", "block"), ("{ a7 }", "block")]),
    "method-closure": ([("method", ".h(|e| { let v: Vec<i32> = e; match v { Some(_) => a8 + 1, _ => a9 } })")], [("Vec<i32>", "ty"), ("Some(_)", "pat"), ("a8 + 1", "expr"), ("let v: Vec<i32> = e", "stmt")]),
    "method-fn": ([("method", "crate::p::w($expr, $nth)")], [("crate::p::w", "path")]),
    "method-name": ([("method", ".hhh($nth)")], [("hhh", "ident")]),
    "method-tt": ([("method", ".h($nth)")], [("hooq", "ident"), ("method", "ident")]),
    "method-call": ([("method", ".h($nth, g(a8 + a9), [a8; 2 + 1], S { f: a8 + 1 })")], [("a8 + a9", "expr"), ("2 + 1", "expr"), ("S { f: a8 + 1 }", "expr")]),
    "method-ty": ([("method", ".h::<&'static i32>(a9 as *const i32, $nth)")], [("&'static i32", "ty"), ("*const i32", "ty")]),
    "method-q": ([("method", ".h((a8?)?, $nth)")], [("(a8?)", "paren")]),
    "replace": ([("method", "w($expr, 2 * (a8 + a9))")], [("(a8 + a9)", "paren")]),
    "replace-expr": ([("method", "w2((a8 + a9) * 2, $expr.m())")], [("(a8 + a9)", "paren")]),
    "so_far": ([("method", ".h(2 * (a8 + a9))"), ], [("(a8 + a9)", "paren")]),
    "bind": ([("bind", "x", "a8 + a9"), ("method", ".h($x * 2, $nth, $x.m())")], [("a8 + a9", "expr")]),
    "bind2": ([("binding", "x", "a8 + a9"), ("bind", "y", "-a7"), ("method", ".h($y.m() + $x * 2, $nth)")], [("a8 + a9", "expr"), ("-a7", "expr")]),
    "bind-block": ([("binding", "x", "{ a8 }"), ("method", ".h($x + 2, match $x { _ => 1 })")], [("{ a8 }", "block")]),
    "bind-struct": ([("binding", "x", "S { f: a8 }"), ("method", ".h(if $x == $x { 1 })")], [("S { f: a8 }", "expr")]),
    "bind-lit": ([("bind", "x", "-8"), ("method", ".h($x.m())")], [("-8", "literal")]),
    "bind-nested": ([("bind", "x", "2 * (a8 + a9)"), ("method", ".h($x.m())")], [("(a8 + a9)", "paren")]),
    "bind-name": ([("binding", "xyz", "a8 - 1"), ("method", ".h(1 - $xyz)")], [("a8 - 1", "expr")]),
    "bindings": ([("bind", "x", "a8 + a9"), ("method", ".h($bindings)")], [("a8 + a9", "expr")]),
    "targets": ([HS, ("hook_targets", ["question", "return"])], [('"question"', "literal"), ('"return"', "expr")]),
    "tails": ([HS, ("tail_expr_idents", ["Fail", "!Err"])], [('"Fail"', "literal"), ('"!Err"', "literal")]),
    "ign": [[HS, ("ignore_tail_expr_idents", ["Err"])], [('"Err"', "literal")]],
    "rtypes": ([HS, ("result_types", ["Result", "X"])], [('"Result"', "literal"), ('"X"', "tt")]),
    "inmac": ([HS, ("hook_in_macros", False)], [("false", "literal")]),
    "inmac2": ([HS, ("hook_in_macros", True)], [("true", "ident")]),
    "meta-skip": ([HS, ("skip_all",)], [("hooq::skip_all", "meta")]),
    "meta-method": ([HS], [("hooq::method(.h($nth))", "meta")]),
    "meta-all": ([HS, ("hook_targets", ["question"]), ("bind", "q", "1")], [('hooq::hook_targets("question")', "meta"), ("hooq::q = 1", "meta")]),
    "meta-foreign": ([HS, ("foreign", "#[allow(unused)]")], [("allow(unused)", "meta")]),
    "path": ([HS, ("tail_expr_idents", ["Fail"])], [("hooq::tail_expr_idents", "path"), ]),
    "flavor": ([("from", "flavor", "empty")], [("empty", "ident")]),
    "flavor-str": ([("from", "flavor", "empty", '"empty"')], [('"empty"', "literal")]),
    "flavor-expr": ([("from", "flavor", "empty", '"empty"')], [('"empty"', "expr")]),
    "method-flavor": ([HS, ("from", "method", "empty")], [("empty", "expr"), ]),
    "sub-flavor": ([HS, ("from", "hook_targets", "a::b"), ("from", "tail_expr_idents", "a::b", '"a::b"')], [("a::b", "path"), ('"a::b"', "literal")]),
    "field": ([HS, ("from", "hook_targets", "empty")], [("empty", "path")]),
}


def settings(c):
    for k, (attrs, lifted) in SETTINGS.items():
        subs = [s for n in range(1, len(lifted) + 1) for s in itertools.combinations(lifted, n)]
        # the lifted texts of a block inside another one: only one of the two
        for s in subs:
            if any(a is not b_ and a[0] in b_[0] for a in s for b_ in s):
                continue
            for depth in (0, 1, 2):
                for ret in ("Result<i32, String>", "i32"):
                    at = list(attrs)
                    if k == "so_far":
                        def b(at=at, ret=ret):
                            N = Names()
                            return [("", Fn(blk(stmt(Q(N.x())), stmt(BlkX(blk(stmt(Q(N.x()))), attrs=[("method", ".h3($so_far, $nth)")])), tail=call("Err", N.x())), name="f", ret=ret, attrs=at))]
                    else:
                        b = sample_prog(at, ret=ret)
                    yield Case(f"setting:{k}:{'+'.join(t for t, _ in s)}:{depth}:{ret}", b, wrap=hand_through(s, depth), errors_ok=True)


ROOT = [("", [], None), ("empty", [("empty", "ident")], "empty"), ("empty", [("empty", "path")], "empty"), ("empty", [("empty", "tt")], "empty"), ("empty", [("empty", "meta")], "empty"),
        ('flavor = "empty"', [('"empty"', "literal")], "empty"), ('flavor = "empty"', [('"empty"', "expr")], "empty"), ('flavor = "empty"', [("flavor", "ident"), ('"empty"', "tt")], "empty"),
        ('flavor = "empty"', [('flavor = "empty"', "meta")], "empty"),
        ("a::b", [("a::b", "path")], "a::b"), ("a::b", [("b", "ident", 1)], "a::b"),
        ("trait_use(crate::p::Tr)", [("crate::p::Tr", "path")], None), ("trait_use(crate::p::Tr)", [("Tr", "ident")], None), ("trait_use(crate::p::Tr)", [("trait_use", "ident")], None),
        ("trait_use(crate::p::Tr)", [("trait_use(crate::p::Tr)", "meta")], None), ("trait_uses(crate::p::Tr), a", [("a", "ident", 5)], "a"), ("trait_use(crate::p::Tr), a::b", [("crate::p::Tr", "path"), ("a::b", "path")], "a::b")]


def roots(c):
    for root, lifted, fl in ROOT:
        for n in range(1, len(lifted) + 1):
            for xs in itertools.combinations(lifted, n):
                for ret in ("Result<i32, String>", "i32"):
                    def b(root=root, ret=ret):
                        return [(root, sample_prog([HS], ret=ret)()[0][1])]
                    yield Case(f"root:{root}:{xs}:{ret}", b, flavor=fl, wrap=in_root(root, xs), errors_ok=True, **({"trait_use": ["crate::p::Tr"]} if "trait" in root else {}))


def in_root(root, xs):
    def wrap(i, text, lifts):
        at = text.index("::hooq(") + 7
        L = []
        for t, kind, *k in xs:
            o = root.rindex(t) if k else root.index(t)
            L.append((at + o, at + o + len(t), kind, at + o, at + o + len(t)))
        return lifter()(i, text, L)
    return wrap


def hand_through(texts, depth):
    """the fragments pass through `depth` more macros of the same fragment kind before they are used"""
    def wrap(i, text, lifts):
        L = []
        for t, kind in texts:
            o = text.index(t)
            d = 1 if kind.startswith("paren") else 0
            kk = {"paren": "expr", "parenlit": "literal"}.get(kind, kind)
            L += [(o, o + len(t), kk, o + d, o + len(t) - d)]
            for _ in range(depth):
                L.append((o + d, o + len(t) - d, kk, o + d, o + len(t) - d))
        return lifter()(i, text, L)
    return wrap


def cases(c):
    yield from slots(c)
    yield from pairs(c)


def others(c):
    yield from callees(c)
    yield from types(c)
    yield from blocks(c)
    yield from stmts(c)
    yield from items(c)
    yield from tokens(c)
    yield from settings(c)
    yield from roots(c)


def check(c):
    c.expand("expressions as fragments", cases(c), STD, project())
    c.expand("other fragments", others(c), FLS, project(TOML))
