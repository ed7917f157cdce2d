"""P09: $fn_name / $fn_sig name the innermost function or closure around the site."""
from ..common import *

BOUNDS = {
    "quick": "all nestings up to depth 3 of 11 function-like and non-function constructs around a site; all combinations of 11 qualifier sets, 7 generics, 15 parameter lists, "
             "7 return types for functions (pairwise over a base) and 9 parameter lists x 4 return types x 5 prefixes for closures; every site kind; every pair of constructs alternating to depth 8",
    "thorough": "as quick with nestings to depth 4 and the full product of the signature parts, alternations to depth 12",
}
HF = ("method", '.h($fn_name, $fnname, concat!("§", $fn_sig), concat!("§", $fnsig), $nth)')
QUAL = ["", "pub ", "pub(crate) ", "const ", "async ", "unsafe ", 'extern "C" ', "pub async unsafe ", 'pub(in crate) const unsafe extern "C" ', "pub const ", 'unsafe extern "C" ']
GEN = [("", ""), ("<T>", ""), ("<'a, T: 'a + Clone>", ""), ("<const N: usize>", ""), ("<T, U>", "where T: Clone, U: Into<T>,"), ("<'a>", "where 'a: 'static"), ("<T: Fn(i32) -> i32>", "")]
PAR = ["", "x: i32", "mut x: i32, y: &'static str", "(a, b): (i32, i32)", "_: S", "S { f, g }: S", "x: [i32; 2], y: fn(i32) -> i32,", "#[allow(unused)] x: i32", "x: impl Tr, y: Box<dyn Tr + 'static>",
       'x: [u8; { "a  b".len() }]', "x: [u8; { 'a' as usize + b' ' as usize }]", 'x: [u8; { r#"a "  b"#.len() }]', '/** a  b */ x: i32', "r#type: i32, Ö: r#i32", 'x: [u8; { "\\n{}\\"".len() }]']
RET = [None, "Result<i32, String>", "i32", "impl Tr", "Option<Result<(), ()>>", "&'static str", "fn(i32) -> i32"]
CPAR = ["", "_", "x", "x: i32", "mut x, y", "(a, b): (i32, i32)", "S { f, .. }: S", "x: &str, &y: &i32", "#[allow(unused)] x: i32"]
CRET = [None, "i32", "Result<i32, ()>", "(i32, i32)"]
CPRE = ["", "move ", "async ", "async move ", "static "]

# constructs: k -> fn(block content: list of Stmt makers, tail) ; each wraps "inner" (a Node)
NEST = {
    "fn": lambda n, N: blk(item_stmt(Fn(blk(stmt(Q(N.x())), stmt(n)), name="i" + N.a()))),
    "r#fn": lambda n, N: blk(item_stmt(Fn(blk(stmt(n)), name="r#try", quals="async ", params="_v: i32"))),
    "clo": lambda n, N: blk(stmt(call("g", Closure(blk(stmt(n), tail=Q(N.x())), params="_v")))),
    "cloret": lambda n, N: blk(stmt(call("g", Closure(blk(stmt(Q(N.x())), stmt(n)), ret="Result<i32, i32>", prefix="move ")))),
    "cloexpr": lambda n, N: blk(stmt(call("g", Closure(call("Err", n))))),
    "block": lambda n, N: blk(stmt(BlkX(blk(stmt(n), tail=call("Err", N.x()))))),
    "async": lambda n, N: blk(stmt(BlkX(blk(stmt(n), tail=call("Err", N.x())), "async "))),
    "if": lambda n, N: blk(stmt(If(Q(N.x()), blk(stmt(n))))),
    "const": lambda n, N: blk(item_stmt(ItemX("const _C: i32 = ", n, ";", label="const"))),
    "impl": lambda n, N: blk(item_stmt(Group("impl S", [Fn(blk(stmt(n)), name="meth", params="&mut self, x: i32"), ItemX("const C: i32 = ", Q(N.x()), ";", label="const")]))),
    "trait": lambda n, N: blk(item_stmt(Group("trait T<X>: Tr", [Fn(blk(stmt(n)), name="deft", params="self: Box<Self>"), Fn(None, name="decl")]))),
    "mod": lambda n, N: blk(item_stmt(Group("mod inner", [Raw("use crate::p::*;"), Fn(blk(stmt(n)), name="infn")]))),
    "mac": lambda n, N: blk(Let("_v", Mac([(n, "")], name="tup"))),
}


def wrap(ks, N):
    n = BlkX(blk(stmt(Q(N.x())), stmt(If(N.x(), blk(stmt(Ret(call("Err", N.x())))))), tail=call("Err", N.x())))
    for k in reversed(ks):
        n = BlkX(NEST[k](n, N))
    return n


def nestings(c):
    for ks in seqs(list(NEST), 0, 4 if c.thorough else 3):
        yield fn_case("nest:" + "/".join(ks), lambda N, ks=ks: blk(stmt(Q(N.x())), stmt(wrap(ks, N)), stmt(Q(N.x()))), attrs=[HF])
    for k, k2 in itertools.product(NEST, repeat=2):
        for d in (5, 8) if not c.thorough else (5, 6, 8, 12):
            ks = tuple((k, k2)[i % 2] for i in range(d))
            yield fn_case(f"deep:{k}/{k2}:{d}", lambda N, ks=ks: blk(stmt(Q(N.x())), stmt(wrap(ks, N)), stmt(Q(N.x()))), attrs=[HF])
    for ks in seqs([k for k in NEST if k not in ("impl", "trait", "fn")], 0, 2):
        def b(ks=ks):
            N = Names()
            return [("", Group("mod sub", [Raw("use crate::p::*;"),
                                           ItemX("const _A: i32 = ", wrap(ks, N), ";", label="const"), Fn(blk(stmt(wrap(ks, N))), name="x"),
                                           ItemX("static _B: i32 = ", wrap(ks, N), ";", label="static"),
                                           Group("impl S", [ItemX("const C: i32 = ", wrap(ks, N), ";", label="const"), Fn(blk(stmt(wrap(ks, N))), name="y", params="&self")]),
                                           Group("trait T", [Fn(blk(stmt(wrap(ks, N))), name="z"), Fn(None, name="w"), ItemX("const C: i32 = ", wrap(ks, N), ";", label="const")])],
                               attrs=[HF]))]
        yield Case("items:" + "/".join(ks), b, errors_ok=True)


def sigs(c):
    base = ("", GEN[0], "", "Result<i32, String>")
    dims = (QUAL, GEN, PAR, RET)
    combos = itertools.product(*dims) if c.thorough else \
        dict.fromkeys(tuple(x if i == k else y if j == k else base[k] for k in range(4))
                      for i in range(4) for j in range(i + 1, 4) for x in dims[i] for y in dims[j])
    for q, (g, w), p, r in combos:
        def mk(q=q, g=g, w=w, p=p, r=r):
            N = Names()
            return [("", Fn(blk(stmt(Q(N.x())), Let("_v", Closure(blk(stmt(Q(N.x())), stmt(BlkX(blk(stmt(Closure(Closure(Q(N.x()), params="y"), params="z"))), "async ")), tail=N.x()))), tail=call("Err", N.x())), name="f", quals=q, generics=g, where=w, params=p, ret=r, attrs=[HF]))]
        yield Case(f"sig:{q}|{g}{w}|{p}|{r}", mk, errors_ok=True)
    for w in ("x: i32", "&self", "self: &Self", "mut self", "&'static mut self, x: i32"):
        for cont in ("impl S", "impl<X> S where X: Tr", "impl Tr for S", "trait T", "unsafe impl Tr for S"):
            def mk(w=w, cont=cont):
                N = Names()
                return [("", Group(cont, [Fn(blk(stmt(Q(N.x())), stmt(call("g", Closure(Closure(Q(N.x()), params="y"), params="z"))), tail=call("Err", N.x())), name="m", params=w)], attrs=[HF]))]
            yield Case(f"method:{cont}:{w}", mk, errors_ok=True)
    for p, r, pre in itertools.product(CPAR, CRET, CPRE):
        for at in ((), (("foreign", "#[allow(unused)]"),)):
            def mk(N, p=p, r=r, pre=pre, at=at):
                return blk(Let("_v", Closure(blk(stmt(Q(N.x())), stmt(Closure(Q(N.x()), params="z")), tail=call("Err", N.x())), params=p, ret=r, prefix=pre, attrs=at)), stmt(Q(N.x())))
            yield fn_case(f"clo:{p}|{r}|{pre}|{len(at)}", mk, attrs=[HF], errors_ok=True)


def check(c):
    def cases():
        yield from nestings(c)
        yield from sigs(c)
    c.expand("functions and closures", cases(), STD, project())
