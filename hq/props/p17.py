"""P17: whatever hooq cannot apply as written is a compile error, never silently ignored."""
import os
import shutil
import tempfile
import traceback
from ..common import *
from .. import build, run
from ..build import ToolError
from .p13 import q

BOUNDS = {
    "quick": "113 malformed settings attributes x 26 carriers, alone and combined with a valid attribute before/after and inside skip/skip_all; 41 malformed root attributes x 4 items; "
             "40 unusable templates x 3 ways to set them x 3 kinds of site; 60 unusable hooq.toml files x 3 nesting levels; a malformed attribute and an unusable template at every slot (as statement, tail, initialiser, on 3 kinds of site), at every child of 37 list-like constructs and at every kind of item; each paired with its well-formed control; three feature sets",
    "thorough": "as quick with all pairs of malformed attributes and all pairs of slots",
}

BAD = ["unknown", "unknown(1)", "unknown(\"a\")", "skip(1)", "skip()", "skip_all(a)", "method", "method = 1", "method = nope", 'method = "nope"', 'method = ""', 'method = "a..b"', "method = a::<i32>", "method = default::nope",
       "hook_targets", 'hook_targets("bogus")', 'hook_targets("?", "bogus")', "hook_targets(?)", "hook_targets(return)", 'hook_targets("?" "return")', "hook_targets(1)", 'hook_targets("all", "retrun")', 'hook_targets("?", "return", "tail_expr", "x")', 'hook_targets("x", "all")', 'hook_targets("question ")', 'hook_targets("Return")', 'hook_targets("")',
       "hook_targets = nope", "hook_targets = true", "tail_expr_idents", "tail_expr_idents(Err)", "tail_expr_idents(1)", 'tail_expr_idents("a" "b")', "tail_expr_idents = nope", "tail_expr_idents = [1]",
       "ignore_tail_expr_idents", "ignore_tail_expr_idents(Ok)", "ignore_tail_expr_idents = default", 'ignore_tail_expr_idents = "default"', "result_types", "result_types(Result)", 'result_types("a";)',
       "result_types = nope", "result_types = 3", "hook_in_macros", "hook_in_macros()", 'hook_in_macros("true")', "hook_in_macros(1)", "hook_in_macros(yes)", "hook_in_macros(true, false)", "hook_in_macros = nope",
       "hook_in_macros = true", "flavor", "flavor(default)", "flavor = nope", 'flavor = "nope"', 'flavor = "default."', 'flavor = "::default"', "flavor = 1", "flavor = default::x", "flavor = default()",
       "bindings", "bindings(x = 1)", "bindings = nope", "bindings = 5", "binding", "binding()", "binding(x)", "binding(x, 1)", "binding(a::b = 1)", "binding(x = )", "binding(x = 1, y = 2)", "binding(1 = 1)",
       "var", "var(x)", "var(a::b = 1)", "a::b", "a::b = 1", "a::b(1)", "skip::all", "method::x(.h())", "skip = true", "skip = 1", "skip_all = true", 'skip = "?"', "binding = 1", "var = x", "skip{}", "skip_all[]", 'flavor = " default"', 'flavor = "default "', 'flavor = "log. warn"', 'flavor = "log .warn"', 'flavor = "log:warn"', 'flavor = "Default"', "flavor = Default", 'flavor = "log/warn"', 'flavor = "log.warn."', 'hook_targets(" ?")', 'hook_targets("all ")', 'hook_targets("Tail_expr")', "method = Hook", "bindings = Log::warn", "hook_in_macros{1}",
       'hook_targets["bogus"]', 'hook_targets{"?", "bogus"}', "binding[x]", "var{x, 1}", "method = {default}", 'hook_targets(b"?")', "hook_targets('?')", 'result_types("a" , , "b")', 'tail_expr_idents(, "a")']
GOOD = ["skip", "method(.h1())", 'hook_targets("?")', 'tail_expr_idents("Err")', 'ignore_tail_expr_idents("Ok")', 'result_types("Result")', "hook_in_macros(true)", "hook_in_macros(false)", "flavor = default",
        'flavor = "default"', "bindings = default", "binding(x = 1)", "var(x = 1)", "x = 1", "skip_all", "method = hook", "hook_targets = empty", "tail_expr_idents = empty", 'flavor = "log.warn"', "flavor = log::warn",
        "hook_targets()", "tail_expr_idents()", "method{.h1()}", "method[.h1()]", 'hook_targets["?", ]', 'result_types{r#"Result"#}', "binding[x = 1]", "var{x = 1}", "hook_in_macros{true}"]

CARRIER = {
    "fn": "@ fn f() -> Result<i32, i32> { a1?; Ok(a2) }", "mod": "@ mod sub { use crate::p::*; fn f() -> Result<i32, i32> { a1?; Ok(a2) } }", "mod-fn": "mod sub { use crate::p::*; @ fn f() -> Result<i32, i32> { a1?; Ok(a2) } }",
    "impl": "@ impl Q { fn f() -> Result<i32, i32> { a1?; Ok(a2) } }", "impl-fn": "impl Q { @ fn f() -> Result<i32, i32> { a1?; Ok(a2) } }", "impl-const": "impl Q { @ const C: i32 = a1; }",
    "trait-fn": "trait T { @ fn f() -> Result<i32, i32> { a1?; Ok(a2) } }", "trait-sig": "trait T { @ fn f() -> Result<i32, i32>; fn g() -> Result<i32, i32> { a1?; Ok(a2) } }",
    "const": "@ const C: i32 = a1;", "static": "@ static C: i32 = a1;", "inner-fn": "fn f() -> Result<i32, i32> { @ fn i() -> Result<i32, i32> { a1?; Ok(a2) } Ok(a2) }",
    "stmt": "fn f() -> Result<i32, i32> { @ g(a1?); Ok(a2) }", "let": "fn f() -> Result<i32, i32> { @ let x = a1?; Ok(a2) }", "block": "fn f() -> Result<i32, i32> { @ { a1?; } Ok(a2) }",
    "if": "fn f() -> Result<i32, i32> { @ if a1 { a2?; } Ok(a2) }", "match": "fn f() -> Result<i32, i32> { @ match a1 { _ => a2? } Ok(a2) }", "loop": "fn f() -> Result<i32, i32> { @ loop { a2?; } Ok(a2) }",
    "tail": "fn f() -> Result<i32, i32> { a1?; @ g(a2) }", "arg": "fn f() -> Result<i32, i32> { g(a1, @ g(a2?)); Ok(a2) }", "closure": "fn f() -> Result<i32, i32> { g(@ |x| a1?); Ok(a2) }",
    "macro": "fn f() -> Result<i32, i32> { @ tup!(a1?, a2); Ok(a2) }", "return": "fn f() -> Result<i32, i32> { @ return g(a2?); }", "arm": "fn f() -> Result<i32, i32> { match a1 { @ 0 => a2, _ => g(a2?) }; Ok(a2) }",
    "struct-field": "fn f() -> Result<i32, i32> { S { @ f: a1?, g: a2 }; Ok(a2) }", "in-skip": "fn f() -> Result<i32, i32> { #[hooq::skip] { @ g(a1?); } Ok(a2) }",
    "in-skip-all": "fn f() -> Result<i32, i32> { #[hooq::skip_all] { @ g(a1?); } Ok(a2) }", "in-empty": "fn f() -> Result<i32, i32> { #[hooq::flavor = empty] { @ g(a1?); } Ok(a2) }",
}

COLON = ("fn", "let", "tail", "closure", "in-skip")

ROOT_BAD = ["nope", "default::nope", "log::nope", "log::warn::x", 'flavor = "nope"', 'flavor = ""', 'flavor = "log."', 'flavor = ".log"', 'flavor = "log..warn"', 'flavor = " default"', 'flavor = "default "', 'flavor = "log. warn"', 'flavor = "log :: warn"', 'flavor = "log:warn"', 'flavor = "Default"', "Default", "log::Warn", "Log::warn", 'flavor = "log::warn::"', "flavor = log", "flavor = 1", "flavor", "flavor(log)",
            "trait_use", "trait_use = \"a\"", 'trait_use("a")', "trait_use(1)", "trait_use(a b)", "trait_uses(a; b)", "unknown(a)", 'unknown = "a"', "method(.h())", 'hook_targets("?")', "log warn", "log, nope", "1", '"log"',
            "log(warn)", "log = \"warn\"", "a::<i32>", "skip"]
ROOT_GOOD = ["", "log", "log::warn", 'flavor = "log.warn"', "trait_use(crate::p::Tr)", "trait_use()", "trait_uses(crate::p::Tr, crate::p::Tr2), log", "empty", "log,", "nope, default"]

TPL_BAD = ["$nope", ".h($nope)", ".h($Line)", ".h($lines)", "w($expr, $nope)", ".h(|| { $nope })", ".h([($nope)])", ".h($so_fa)", ".h() +", ".", ".h", "", "w($expr) w()", ".h(;)", ".h() .", "w(,)", ".1.h(", "fn x() {}", "let x = 1;",
           ".h($)", ".h($ +)", ".h(1 2)", "if", "= 1", ".h() => 1", ".h::<>>()", "$expr $expr", "..h()", ".h(let)", "#"]
TPL_BAD = [t for t in TPL_BAD if t.count("(") == t.count(")")]
FIELDLESS = {".h"}          # a field access is a legal template
TPL_BAD = [t for t in TPL_BAD if t not in FIELDLESS]
TPL_GOOD = [".h($nth)", "w($expr)", ".f", ".h(|| { $line })", ".h([($path)])", "if a1 { $expr } else { a2 }", ".h($hooq_meta)", ".h() . f", "return", ".h(|x| { let y = 1; })"]
SITE = {"?": "fn f() -> Result<i32, i32> { a1?; Ok(a2) }", "return": "fn f() -> Result<i32, i32> { if a0 { return a1; } Ok(a2) }", "tail": "fn f() -> Result<i32, i32> { a1 }", "err": "fn f() { g(|| { Err(a1) }); }"}

TOML_BAD = ["x", "x = 1", "[x", "[x]\nmethod = 1", "[x]\nmethod = ['a']", "[x]\nmethod = 'h('", "[x]\nmethod = \"a'b\"", "[x]\nhook_targets = '?'", "[x]\nhook_targets = [1]", "[x]\nhook_targets = ['nope']", "[x]\nhook_targets = ['all', 'nope']", "[x]\nhook_targets = ['?', 'return', 'tail_expr', '']", "[x]\nhook_targets = ['?', 'all', 1]",
            "[x]\nbindings = { a = '1', b = '1 +' }", "[x]\ntrait_uses = ['a', 'b c']", "[x]\nresult_types = ['a', 1]", "[x]\ntail_expr_idents = ['!a', 1]",
            "[x]\nhook_targets = ['?', 'Return']", "[x]\ntail_expr_idents = 'Err'", "[x]\ntail_expr_idents = [1]", "[x]\nignore_tail_expr_idents = 'Ok'", "[x]\nignore_tail_expr_idents = true",
            "[x]\nresult_types = 'Result'", "[x]\nresult_types = [[]]", "[x]\nhook_in_macros = 'true'", "[x]\nhook_in_macros = 1", "[x]\nbindings = 1", "[x]\nbindings = { a = 1 }", "[x]\nbindings = { a = '1 +' }",
            "[x]\nbindings = { a = '' }", "[x]\nbindings = { a = 'let x = 1;' }", "[x]\ntrait_uses = 'a'", "[x]\ntrait_uses = ['a b']", "[x]\ntrait_uses = ['']", "[x]\ntrait_uses = [1]", "[x]\nmethd = '.h()'",
            "[x]\nMethod = '.h()'", "[x]\nhook_target = ['?']", "[x]\ntail_expr_ident = []", "[x]\ntrait_use = ['a']", "[x]\nskip = true", "[x]\nx = 1.5", "[x]\n[x]", "[x]\nmethod='.a()'\nmethod='.b()'",
            "[empty]\nmethod = '.h()'", "[empty]", "[empty.sub]\nmethod = '.h()'", "['']\nmethod = '.h()'", "[x.empty]\nmethod = '.h()'", "[[x]]\nmethod = '.h()'", "[x]\nhooks = { method = 1 }", "x = []", "[x.bindings.a]\nb = '1'",
            "\x00", "[x]\nmethod = '''", "[x]\nbindings = { 'a b' = }", "=", "[x]\nflavor = 'log'"]
TOML_GOOD = ["", "[x]", "[x]\nmethod = '.h1()'", "[x]\nhook_targets = []", "[x]\nbindings = { a = '1' }", "[x.bindings]\na = '1'", "[x.y.z]\nmethod='.h1()'", "[default]", "[log.warn]", "# c", "x = {}", "[x]\ntrait_uses = []",
             "[x]\ntail_expr_idents = ['!Ok', 'Err']", "[log.mine]\nhook_in_macros = true"]


def attr_cases(c):
    for k, t in CARRIER.items():
        for g in GOOD:
            ok = k not in ("arm", "trait-sig", "impl-const")
            if ok:
                yield f"good:{k}:{g}", "#[::hooq::hooq] " + t.replace("@", f"#[hooq::{g}]"), False
        for b in BAD:
            yield f"bad:{k}:{b}", "#[::hooq::hooq] " + t.replace("@", f"#[hooq::{b}]"), True
        if k in COLON:
            for g in GOOD:
                yield f"good-colon:{k}:{g}", "#[::hooq::hooq] " + t.replace("@", f"#[::hooq::{g}]"), False
            for b in BAD:
                yield f"bad-colon:{k}:{b}", "#[::hooq::hooq] " + t.replace("@", f"#[::hooq::{b}]"), True
    for k in ("fn", "block", "let", "closure", "tail"):
        t = CARRIER[k]
        for b in BAD:
            for o in ("#[hooq::skip]", "#[hooq::skip_all]", "#[hooq::flavor = empty]", "#[hooq::x = 1]", "#[allow(unused)]", "#[hooq::method(.h2())]"):
                yield f"bad2:{k}:{b}:{o}", "#[::hooq::hooq] " + t.replace("@", f"#[hooq::{b}] {o}"), True
                yield f"bad2r:{k}:{b}:{o}", "#[::hooq::hooq] " + t.replace("@", f"{o} #[hooq::{b}]"), True
        if c.thorough:
            for a, b in itertools.product(BAD, repeat=2):
                yield f"bad-bad:{k}:{a}:{b}", "#[::hooq::hooq] " + t.replace("@", f"#[hooq::{a}] #[hooq::{b}]"), True


def text_of(node):
    b = Buf()
    node.emit(b)
    return "#[::hooq::hooq] " + b.text()


def slot_cases(c):
    """a malformed attribute, or a template that cannot be used, at every place of the grammar: nothing is swallowed on the way up"""
    def one(key, mk, bad, attrs=(), rets=("Result<i32, String>",)):
        for ret in rets:
            yield f"slot:{key}:{ret}", text_of(Fn(mk(Names()), name="f", ret=ret, attrs=list(attrs))), bad

    atts = {"bad": ([("foreign", "#[hooq::nope]")], True), "bad2": ([("foreign", '#[hooq::hook_targets("x")]')], True), "good": ([("skip",)], False)}
    tpls = {"bad": (("method", ".h($nope)"), True), "good": (("method", ".h($line)"), False)}
    for s in LABELS:
        for place in PLACES:
            for k, (at, bad) in atts.items():
                for site in ("q", "a", "err"):
                    def mk(N, s=s, at=at, site=site, place=place):
                        n = SITES[site](N, at) if site != "a" else call("g", N.x(), attrs=at)
                        return PLACES[place](S[s](n, N), N)
                    yield from one(f"{s}:{place}:{site}:attr-{k}", mk, bad)
            for k, (m, bad) in tpls.items():
                for site in ("q", "reterr"):
                    yield from one(f"{s}:{place}:{site}:tpl-{k}", lambda N, s=s, site=site, place=place: PLACES[place](chain((s,), site, N), N), bad, [m])
    for s in itertools.product(LABELS if c.thorough else TINY, repeat=2):
        yield from one("/".join(s) + ":attr-bad", lambda N, s=s: PLACES["stmt"](chain(s, "q", N, [("foreign", "#[hooq::nope]")]), N), True)
        yield from one("/".join(s) + ":tpl-bad", lambda N, s=s: PLACES["stmt"](chain(s, "q", N), N), True, [tpls["bad"][0]])
    for s in LABELS:
        for d in (3, 6, 9):
            yield from one(f"tower:{s}:{d}", lambda N, s=s, d=d: PLACES["stmt"](tower(s, d, Q(N.x(), attrs=[("foreign", "#[hooq::nope]")]), N), N), True)
    for w in WIDE:
        for n in (1, 2, 3, 7):
            for i in range(n):
                def mk(N, w=w, n=n, i=i):
                    return PLACES["stmt"](WIDE[w]([Q(N.x(), attrs=[("foreign", "#[hooq::nope]")] if j == i else ()) for j in range(n)], N), N)
                yield from one(f"wide:{w}:{n}:{i}:attr-bad", mk, True)

                def mk(N, w=w, n=n, i=i):
                    return PLACES["stmt"](wide(w, n, (i,), N), N)
                yield from one(f"wide:{w}:{n}:{i}:tpl-bad", mk, True, [tpls["bad"][0]])
            yield from one(f"wide:{w}:{n}:good", lambda N, w=w, n=n: PLACES["stmt"](wide(w, n, range(n), N), N), False, [tpls["good"][0]])
    # the same on items
    for k, f in {"impl-const": lambda e: Group("impl S", [ItemX("const C: i32 = ", e, ";")]), "trait-const": lambda e: Group("trait T", [ItemX("const C: i32 = ", e, ";")]), "const": lambda e: ItemX("const C: i32 = ", e, ";"),
                 "static": lambda e: ItemX("static C: i32 = ", e, ";"), "impl-fn": lambda e: Group("impl S", [Fn(blk(tail=e), name="m")]), "trait-fn": lambda e: Group("trait T", [Fn(blk(tail=e), name="m")]),
                 "mod-fn": lambda e: Group("mod sub", [Raw("use crate::p::*;"), Fn(blk(tail=e), name="m")]), "mod-mod": lambda e: Group("mod sub", [Group("mod sub2", [Raw("use crate::p::*;"), ItemX("const C: i32 = ", e, ";")])]),
                 "mac": lambda e: Group("mod sub", [Raw("use crate::p::*;"), Mac([(ItemX("const C: i32 = ", e, ";"), "")], name="raw", stmt_semi=";")])}.items():
        for at, m, bad in (([("foreign", "#[hooq::nope]")], None, True), ((), ("method", ".h($nope)"), True), ((), ("method", ".h($line)"), False)):
            n = f(Q(atom("a1"), attrs=at))
            n.attrs = [m] if m else []
            yield f"slot-item:{k}:{bool(at)}:{bad}", text_of(n), bad


def root_cases():
    items = {"fn": SITE["?"], "impl": CARRIER["impl"].replace("@ ", ""), "mod": CARRIER["mod"].replace("@ ", ""), "trait": "trait T { fn f() -> Result<i32, i32> { a1?; Ok(a2) } }"}
    for k, t in items.items():
        for r in ROOT_GOOD:
            yield f"root-good:{k}:{r}", f"#[::hooq::hooq({r})] {t}", False
        for r in ROOT_BAD:
            yield f"root-bad:{k}:{r}", f"#[::hooq::hooq({r})] {t}", True


def tpl_cases(consume):
    bang = [".h()!", "w($expr)!", ".h($nth) !"]
    for tl, bad in ((TPL_GOOD, False), (TPL_BAD, True), (bang, not consume)):
        for t in tl:
            for sk, s in SITE.items():
                if not bad and t == "return" and sk != "?":
                    pass
                yield f"tpl:{sk}:{t}", f"#[::hooq::hooq] #[hooq::method({t})] {s}", bad
                yield f"tpl-so-far:{sk}:{t}", f"#[::hooq::hooq] mod sub {{ use crate::p::*; #[hooq::method({t})] mod s2 {{ use crate::p::*; #[hooq::method(.$so_far)] {s} }} }}", None if not bad else True
    for sk, s in SITE.items():
        # definitions that are out of scope at the site
        yield f"scope:{sk}", f"#[::hooq::hooq] mod sub {{ use crate::p::*; #[hooq::x = 1] fn z() {{}} #[hooq::method(.h($x))] {s} }}", True
        yield f"scope2:{sk}", f"#[::hooq::hooq] mod sub {{ use crate::p::*; #[hooq::method(.h($x))] {s} fn z() {{ #[hooq::x = 1] {{ a1 }} }} }}", True
        yield f"scope3:{sk}", f"#[::hooq::hooq] mod sub {{ use crate::p::*; #[hooq::x = 1] #[hooq::method(.h($x))] {s} }}", False


def process(hooq, canon, toml, cases):
    work = tempfile.mkdtemp(prefix="hq-")
    d = project(toml)
    fails, n, states, trans = [], 0, set(), set()
    try:
        line = run.STUB_LINES + 1
        text = run.STUBS
        for i, (k, t, bad) in enumerate(cases):
            text += f"mod c{i} {{ use crate::p::*; {t} }}\n"
        out, err = run.expand(hooq, canon, work, "s", text, d)
        errs = {}
        for ln, m in run.errors_by_line(err):
            if not any(x in m for x in ("E0425", "E0426", "E0658")):  # names and labels the stubs do not declare, `yield`
                errs.setdefault(ln, []).append(m)
        # rustc gives up on a file it cannot parse; the programs here all lex and parse
        for i, (k, t, bad) in enumerate(cases):
            if bad is None:
                continue
            n += 1
            states.add(k.rsplit(":", 1)[0])
            trans.add(k)
            got = errs.get(line + i, [])
            if bad and not got:
                fails.append(Failure(k, "accepted silently", t, "", "no compile error", "a compile error", err[-1500:]))
            if not bad and got:
                fails.append(Failure(k, "rejected although well-formed", t, "", "\n".join(got), "no compile error", ""))
            if toml is not None:
                for f in fails:
                    f.files = {"hooq.toml": toml}
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
    return {"n": n, "fails": fails[:20], "nfails": len(fails), "states": {run.h8(x) for x in states}, "trans": {run.h8(x) for x in trans}, "fired": {"question": 0, "return": 0, "tail_expr": 0},
            "nhook": 0, "samples": [cases[len(cases) // 2][1]]}


def worker(conn, args):
    try:
        conn.send(("ok", process(*args)))
    except ToolError as e:
        conn.send(("tool", str(e)))
    except BaseException:
        conn.send(("tool", traceback.format_exc()))
    finally:
        conn.close()


def explore(c, name, groups, variant="full"):
    import time
    t = time.time()
    hooq = dict(c.hooq(variant), extra=build.ensure_stubs())
    res = run.Result()
    run.parallel(((hooq, c.canon, toml, cs) for toml, cs in groups), worker, res.add, stop=lambda: res.nfails > 80)
    c._expanded(name, res, t)


def split(cases, n=150):
    cases = list(cases)
    for i in range(0, len(cases), n):
        yield None, cases[i:i + n]


def tomls():
    site = [("a", "#[::hooq::hooq] " + SITE["?"]), ("b", "#[::hooq::hooq] " + SITE["tail"]), ("c", "#[::hooq::hooq(hook)] " + SITE["?"]), ("d", "#[::hooq::hooq] #[hooq::flavor = hook] " + SITE["?"])]
    for lvl in range(3):
        for tl, bad in ((TOML_GOOD, False), (TOML_BAD, True)):
            for t in tl:
                if lvl:
                    if not t.startswith("[x]\n"):
                        continue
                    t = t.replace("[x]", "[" + ".".join("xyz"[:lvl + 1]) + "]")
                yield t, [(f"toml:{t!r}:{k}", s, bad) for k, s in site]
    for tl, bad in ((TPL_GOOD, False), (TPL_BAD, True), ([".$so_far", ".h($so_far)", "w($so_far)"], True)):
        for t in tl:
            if "'" in t:
                continue
            yield f"[x]\nmethod = {q(t)}\nbindings = {{ a = '1' }}\n", [(f"toml-tpl:{t}:{sk}", f"#[::hooq::hooq(x)] {s}", bad) for sk, s in SITE.items()] + [(f"toml-tpl-at:{t}:{sk}", f"#[::hooq::hooq] #[hooq::method = x] {s}", bad) for sk, s in SITE.items()
                                                                                                                              if "so_far" not in t]
    # nothing says the flavor's bindings come along with its method alone
    yield "[x]\nmethod = '.h($a)'\nbindings = { a = '1' }\n", [("flavor-binding", "#[::hooq::hooq(x)] " + SITE["?"], False), ("method-without-binding", "#[::hooq::hooq] #[hooq::method = x] " + SITE["?"], True),
                                                               ("method-and-bindings", "#[::hooq::hooq] #[hooq::method = x] #[hooq::bindings = x] " + SITE["?"], False)]


def check(c):
    explore(c, "attributes", split(attr_cases(c)))
    explore(c, "every place of the grammar", split(slot_cases(c)))
    explore(c, "root attributes", split(root_cases()))
    explore(c, "templates", split(tpl_cases(True)))
    explore(c, "hooq.toml", tomls())
    explore(c, "templates, default features", split(tpl_cases(False)), "default")
    # presets whose feature is off are unknown flavors
    off = [(f"off:{f}:{k}", s, True) for f in ("log", "tracing", "anyhow", "eyre", "color_eyre", "log::warn") for k, s in
           (("root", f"#[::hooq::hooq({f})] {SITE['?']}"), ("attr", f"#[::hooq::hooq] #[hooq::flavor = {f}] {SITE['?']}"), ("method", f"#[::hooq::hooq] #[hooq::method = {f}] {SITE['?']}"))]
    on = [(f"on:{f}", f"#[::hooq::hooq({f})] {SITE['?']}", False) for f in ("default", "empty", "hook")]
    explore(c, "presets without their feature", [(None, off + on)], "bare")
