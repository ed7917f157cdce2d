"""P08: $expr is the hooked expression (inner sites hooked) and $source its original tokens, wherever the template mentions them."""
from ..common import *

BOUNDS = {
    "quick": "117 operand texts (every token and literal kind, every expression form) x 9 templates x 4 roles; 22 templates (insertion and replacement; $expr/$source zero, one or several times, in every bracket depth and operator position) x every slot "
             "as operand with an inner site x site kinds; small slots at depth 2 x 8 templates; 19 leading expressions (block-like, struct literals, brace macros, operators) x all sequences of up to 2 of 7 postfix operators x 10 templates x 5 surroundings x 3 arrangements of `?`",
    "thorough": "as quick with every operand under all templates, core slots at depth 2 x all templates, depth 3 over the small slots x 3 templates, postfix sequences to length 3 under all templates",
}
TPL = {
    "i-src": ".h(cap!($source))", "i-src2": ".h($source, cap!($source))", "i-expr": ".h(cap!($expr))", "i-both": ".h(|| $expr, cap!($source))", "i-none": ".h()",
    "i-chain": ".h(cap!($source)).h2($expr).f", "i-nest": ".h([({ g($expr, $source) })])", "i-turbo": ".h::<{ 1 }>(cap!($source))", "i-await": ".await.h($source)",
    "r-fn": "w($expr, cap!($source))", "r-bare": "$expr", "r-twice": "w($expr, $expr)", "r-none": "w()", "r-src": "$source", "r-not": "!$expr", "r-add": "a0 + $expr",
    "r-add2": "$expr + a0", "r-recv": "$expr.m(cap!($source))", "r-match": "match $expr { _ => cap!($source) }", "r-blk": "{ let _x = $expr; g(_x, cap!($source)) }",
    "r-tup": "($expr, [$source], S { f: $expr, g: a0 })", "r-clo": "(|| $expr)(cap!($source))", "r-mac": "tup!($expr, $source)", "r-ret": "g(return $expr)", "r-stm": "{ $expr.m(); $expr + a0; $expr }", "r-if": "if a0 == $expr { $source } else { a0 }", "r-idx": "$expr[0]", "r-spaced": "w( $ expr , cap!($  source) )",
}
FEW = ["i-src", "i-both", "r-fn", "r-bare", "r-twice", "r-add", "r-recv", "r-match", "r-stm"]
ROLE = {
    "q": lambda n, N: blk(stmt(Q(fit(n, 3)))),
    "ret": lambda n, N: blk(stmt(If(N.x(), blk(stmt(Ret(n)))))),
    "tail": lambda n, N: blk(stmt(Q(N.x())), tail=n),
    "err": lambda n, N: blk(stmt(If(N.x(), blk(tail=call("Err", n))))),
}


def one(t, slots, role, site):
    def mk(N):
        return ROLE[role](chain(slots, site, N), N)
    return fn_case(f"{t}:{'/'.join(slots)}:{role}:{site}", mk, attrs=[("method", TPL[t])], ret="i32" if role == "err" else "Result<i32, String>")


# operand texts: every token kind and the spellings a printer might change
OPER = {3: ["a0", "r#type", "1", "1u8", "0xff_u8", "0b1", "1_000i64", "(1.)", "1.5", "1e5", "1.5e-3f64", "'c'", r"'\''", r"'\u{41}'", '"s"', r'"a\"b\n"', '"{a0} {{}} {:?}"', 'r"raw"', 'r#"a"b"#', 'b"x"', "b'x'", 'br#"x"#', 'c"x"', '"$line $expr"', "()", "(a0,)", "(a0, a1)", "((a0))",
             "[a0; 2]", "[]", "a0.f", "a0.0", "a0.0.1", "a0.0.1.2", "a0[..]", "a0[1..=2][a1]", "g(a0)(a1)", "a0.m::<i32, Vec<Vec<i32>>>(a1,)", "a0.m::<'static, i32, { 1 + 1 }, -1>()", "Vec::<i32>::new()", "<S as Tr>::f(a0)", "<[i32]>::len(a0)", "<Vec<Vec<i32>>>::new()",
             "Self::f()", "self.f", "crate::p::g(a0)", "::std::mem::drop(a0)", "r#fn::r#loop(a0)", "tup!(a0, a1)", "tup![a0; 2]", "none!()", "cap![ a => b $ c # ! 'x \"y\" ]", "cap!(a0 +)", "S { f: a0, g: a1 }", "S { f, g: a1 }", "S { f: a0, ..a1 }", "S { 0: a0 }", "S::<i32> { f: a0 }.f",
             "a0.await", "(|| a0)()", "(&a0).f", "(a0 as u8).f", "(a0..a1).next()", "{ a0 }.f", "a0.r#m()"],
        0: ["|x| a0", "|x: &'static str, (a, b): (i32, i32)| -> i32 { a0 }", "move || a0", "async || a0", "async { a0 }", "async move { a0 }", "a0..a1", "a0..=a1", "..a1", "a0..", ".."],
        2: ["-1", "-a0", "!a0", "*a0", "**a0", "&a0", "&&a0", "&mut a0", "&raw const a0", "&raw mut a0", "- -1", "&*a0"],
        1: ["a0 + a1 * a2", "a0 - -1", "a0 < a1", "a0 << 1 >> 2", "a0 && a1 || a2", "a0 as i32", "a0 as i32 as u8", "a0 as Vec<Vec<i32>>", "a0 as fn(i32) -> i32", "a0 as &'static [i32]", "a0 == a1", "(a0, a1) < (a2, a3)"]}
OPER_BLK = ["{ a0 }", "'l: { break 'l a0 }", "unsafe { a0 }", "const { a0 }", "loop { break a0 }", "if a0 { a1 } else if a2 { a3 } else { a4 }", "if let Some(x) | Err(x) = a0 { a1 } else { a2 }", "if a0 && let 1..=2 = a1 { a2 } else { a3 }",
            "match a0 { 0 | 1 => a1, x @ 2..=3 if x > a2 => a3, S { f, .. } => a4, [a, .., b] => a5, &(ref a, ref mut b) => { a6 } _ => a7 }", "{ let x: &'static str = a0; x }", "{ fn f<'a, T: ?Sized + 'a>(x: &'a T) where T: for<'b> Tr2 {} a0 }",
            "{ struct L<'a>(&'a i32); impl<'a> L<'a> { const C: i32 = 1; } a0 }", "{ use crate::p::g as _; type X = dyn Fn(i32) -> i32; a0 }", "{ ; ; a0 }", "{ while a0 { continue; } for (i, x) in a1 { break; } a2 }", "{ let x; x = a0; x += 1; a1 }", "{ let Some(x) = a0 else { loop {} }; x }"]


def raw_op(t, prec):
    n = X(t, prec=prec, call=None, struct=t.startswith("S"))
    if prec == 9:
        n.prec, n.lead_block, n.pure_block = 3, True, True
    return n


def operand(t, op, prec, role):
    callee = {"g(a0)(a1)": None, "Vec::<i32>::new()": "new", "<S as Tr>::f(a0)": "f", "<[i32]>::len(a0)": "len", "<Vec<Vec<i32>>>::new()": "new", "Self::f()": "f", "crate::p::g(a0)": "g", "::std::mem::drop(a0)": "drop", "r#fn::r#loop(a0)": "r#loop"}

    def mk(N):
        n = raw_op(op, prec)
        n.call_ident = callee.get(op)
        return ROLE[role](n, N)
    return fn_case(f"op:{t}:{role}:{op}", mk, attrs=[("method", TPL[t])], ret="i32" if role == "err" else "Result<i32, String>", errors_ok=True)


def operands(c):
    for prec, ops in [*OPER.items(), (9, OPER_BLK)]:
        for op in ops:
            for t in TPL if c.thorough else FEW:
                for role in ROLE:
                    if op in ("none!()",) and t in ("r-bare", "r-recv", "r-stm"):
                        continue
                    yield operand(t, op, prec, role)


# what starts with a struct literal or a block and goes on with postfix operators, where no parentheses are due
HEADS = ["S { f: a0 }", "{ a0 }", "unsafe { a0 }", "const { a0 }", "loop { break a0 }", "if a0 { a1 } else { a2 }", "match a0 { _ => a1 }", "'l: { a0 }", "while a0 {}", "for _v in a0 {}", "async { a0 }", "(a0)", "[a0]", "tup! { a0 }", "|| a0", "-a0", "&a0", "*a0", "!a0"]
TAILS = [".f", ".0", ".m(a3)", ".m::<i32>()", "[a3]", "(a3)", ".await"]
AROUND = {
    "arg": lambda n, N: blk(stmt(call("g", n))),
    "let": lambda n, N: blk(Let("_v", n)),
    "paren": lambda n, N: blk(stmt(par(n))),
    "assign": lambda n, N: blk(stmt(X("a9 = ", n, label="assign-r", prec=0))),
    "ret": lambda n, N: blk(stmt(Ret(n))),
}


def heads(c):
    for head in HEADS:
        for ts in seqs(TAILS, 0, 3 if c.thorough else 2):
            if ts and head[0] in "|-&*!":
                continue
            txt = head + "".join(ts)
            if ".f(" in txt or ".0(" in txt:
                continue          # a field is called in parentheses
            for t in TPL if c.thorough else ("i-both", "r-bare", "r-match", "r-stm", "r-recv", "r-add", "r-add2", "r-if", "r-not", "r-idx"):
                for k, around in AROUND.items():
                    if k == "ret" and (head != HEADS[0] or len(ts) > 1) and not c.thorough:
                        continue
                    if k in ("paren", "assign") and len(ts) > 1 and not c.thorough:
                        continue
                    for q in (0, 1, 2) if k != "ret" else (0,):
                        def mk(N, txt=txt, around=around, q=q, k=k):
                            n = X(txt, label="head")
                            if txt[0] in "|-&*!":
                                n = par(n)
                            if k != "ret":
                                n = Q(n)
                            if q == 1:
                                n = Q(X(n, ".m()", label="recv"))
                            if q == 2:
                                n = Q(Q(n))
                            return around(n, N)
                        if t == "r-idx" and q:
                            continue
                        yield fn_case(f"head:{t}:{k}:{q}:{txt}", mk, attrs=[("method", TPL[t])], errors_ok=True)


def cases(c):
    yield from heads(c)
    yield from operands(c)
    # a template that duplicates or drops code may not be placed around labels or captured statements, so item slots are left to the FEW
    for t in TPL:
        for s in LABELS:
            for role in ROLE:
                for site in ("q", "a") + (("err",) if c.thorough else ()):
                    yield one(t, (s,), role, site)
    for s in itertools.product(CORE if c.thorough else TINY, repeat=2):
        for t in TPL if c.thorough else FEW:
            yield one(t, s, "q", "q")
            if t in FEW:
                yield one(t, s, "tail", "q")
    if c.thorough:
        for s in itertools.product(TINY, repeat=3):
            for t in ("i-both", "r-twice", "r-add"):
                yield one(t, s, "q", "q")


def check(c):
    c.expand("templates", cases(c), STD, project())
