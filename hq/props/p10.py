"""P10: bindings resolve to the innermost definition, as grouped expressions; $bindings and $hooq_meta describe the site completely."""
import re
from ..common import *
from .. import exe, run

BOUNDS = {
    "quick": "all sequences up to length 3 of 8 binding attributes on one element; all assignments of 7 binding attributes to 4 nested levels; 16 value kinds x 9 template "
             "positions x 3 definition forms; bindings named like each of the 19 meta variables; $hooq_meta and $bindings in every slot at depth 1 and small slots at depth 2 for each site kind; "
             "at run time, every (key, requested type) pair over 8 typed bindings, and 38 names of user variables (all singles, pairs of 12, triples of 6) in binding values x 5 ways to refer to them",
    "thorough": "as quick with sequences up to length 4, core slots at depth 2",
}
FL = {"default": Flavor(method=Method(".d($nth)"), binds={"x": "100", "z": "a0"}), "other": Flavor(method=Method(".o($nth)"), binds={"x": "200", "w": "\"w\""}), "empty": EMPTY}
TOML = """[default]
method = ".d($nth)"
bindings = { x = "100", z = "a0" }
[other]
method = ".o($nth)"
bindings = { x = "200", w = '"w"' }
"""
M = ("method", ".h($x, $y, $z, $bindings, $vars)")
B8 = [("binding", "x", "1"), ("var", "x", "2"), ("bind", "x", "3"), ("binding", "y", '"s \\" é\\n"'), ("bind", "q", "a5.m(a6)"), ("from", "bindings", "other"),
      ("from", "flavor", "other"), ("var", "y", "g(a1)")]
Y = ("bind", "y", "0")


def tag(at):
    return "+".join("/".join(a) for a in at) or "-"


def sequences(c):
    for s in seqs(B8, 0, 4 if c.thorough else 3):
        for carrier in ("fn", "blk", "q"):
            if len(s) == 4 and carrier != "blk":
                continue
            # `flavor = other` also replaces the method, so the method is stated after it
            at = [Y] + list(s) + [M]
            def mk(N, at=at, carrier=carrier):
                return blk(stmt(Q(N.x())) if carrier == "fn" else stmt(N.x()), stmt(BlkX(blk(stmt(Q(N.x(), attrs=at if carrier == "q" else ()))), attrs=at if carrier == "blk" else ())))
            yield fn_case(f"seq:{carrier}:{tag(s)}", mk, attrs=at if carrier == "fn" else [], flavor=FL["default"])


def levels():
    opts = [[]] + [[b] for b in B8[:6]]
    for a, b_, d, e in itertools.product(opts, repeat=4):
        def mk(N, b_=b_, d=d, e=e):
            inner = BlkX(blk(stmt(Q(N.x(), attrs=d)), stmt(Q(N.x())), tail=call("Err", N.x())), attrs=b_)
            return blk(stmt(Q(N.x())), stmt(inner), item_stmt(Fn(blk(tail=Q(N.x())), name="i", attrs=e)), Let("_v", Closure(Q(N.x()), attrs=e)), stmt(Q(N.x())))
        yield fn_case(f"levels:{tag(a)}|{tag(b_)}|{tag(d)}|{tag(e)}", mk, attrs=[M, Y] + a, flavor=FL["default"])


VAL = {"int": "1", "str": '"a\\"\\\\ é"', "raw": 'r#"a"b"#', "path": "a1", "path2": "crate::p::a1", "call": "g(a1, a2)", "mth": "a1.m().f", "add": "a1 + a2", "not": "!a1", "neg": "-1", "ref": "&a1",
       "cast": "a1 as i32", "mac": "tup!(a1, a2)", "clo": "|e| e", "blk": "{ a1 }", "if": "if a1 { a2 } else { a3 }", "st": "S { f: a1, g: a2 }", "tup": "(a1, a2)", "rng": "a1..a2", "q": "a1?",
       "arr": "[a1; 3]", "asn": "a1 = a2", "match": "match a1 { _ => a2 }"}
POS = {"arg": "h($v)", "mul": "h(a9 * $v)", "mulr": "h($v * a9)", "recv": "h($v.m())", "not": "h(!$v)", "mac": "h(tup!($v))", "match": "h(match $v { _ => a9 })", "stm": "h({ $v.m(); a9 })", "two": "h($v, [$v])",
       "cap": "h(cap!($v))"}
FORM = ("binding", "var", "bind")


def values():
    for (vk, v), (pk, p), f in itertools.product(VAL.items(), POS.items(), FORM):
        for mode in (".", ""):
            t = "." + p if mode else "w($expr, a8." + p + ")"
            yield fn_case(f"value:{vk}:{pk}:{f}:{mode}", lambda N: blk(stmt(Q(N.x())), tail=call("Err", Q(N.x()))), attrs=[("method", t), (f, "v", v)])
        yield fn_case(f"valueb:{vk}:{pk}:{f}", lambda N: blk(stmt(Q(N.x()))), attrs=[("method", "." + p + ".k($bindings, $hooq_meta)"), (f, "v", v)])


def names():
    for n in ("line1", "exprs", "paths", "_", "é", "x_y", "Line", "nth_", "A", "self_", "level", "h", "bindingsx"):
        if n == "_":
            continue
        for f in FORM:
            yield fn_case(f"name:{n}:{f}", lambda N: blk(stmt(Q(N.x()))), attrs=[("method", f".h(${n}, $line, $bindings)"), (f, n, "a7")])
            yield fn_case(f"names:{n}:{f}", lambda N: blk(stmt(Q(N.x()))), attrs=[("method", f".h(${n}, $zz, $bindings)"), ("bind", "zz", "a5"), (f, n, "a7"), ("bind", "aa", "a6")])


METAVARS = ["line", "column", "col", "path", "file", "expr", "count", "nth", "fn_name", "fnname", "fn_sig", "fnsig", "bindings", "vars", "hooq_meta", "hooqmeta", "source", "so_far", "sofar"]


def collisions():
    """bindings called like a meta variable: the template's word is the meta variable, the map lists the binding; keywords and raw names"""
    for n in METAVARS:
        for f in FORM:
            if (n, f) == ("bindings", "bind"):
                continue        # a setting
            use = f"cap!(${n})" if n in ("source",) else f"g(${n})" if "so" in n and "sour" not in n else f"${n}"
            if n.startswith("so") and n != "source":
                use = f"g().${n}"
            elif n in ("fn_sig", "fnsig"):
                use = "1"            # its text is compared in P09; here only the map
            at = [("method", f".h({use}, $zz, $vars)"), ("bind", "zz", "a5"), (f, n, "a7")]
            for place in ("fn", "blk"):
                yield fn_case(f"collision:{n}:{f}:{place}", lambda N, at=at, place=place: blk(stmt(BlkX(blk(stmt(Q(N.x())), tail=call("Err", N.x())), attrs=at if place == "blk" else ()))),
                              attrs=[("method", ".h9()"), *(at if place == "fn" else ())] if place == "fn" else [("method", ".h9()")], flavor=FL["default"])
    for n in ("r#type", "r#match", "r#fn", "r#async"):
        for f in FORM:
            yield fn_case(f"keyword:{n}:{f}", lambda N: blk(stmt(Q(N.x()))), attrs=[("method", f".h(${n}, $zz, $bindings)"), ("bind", "zz", "a5"), (f, n, "a7")])


def metas(c):
    t = ("method", ".h($hooq_meta, $hooqmeta, $bindings)")
    for s in LABELS:
        for site in ("q", "ret", "err"):
            yield fn_case(f"meta:{s}:{site}", lambda N, s=s, site=site: blk(stmt(Q(N.x())), tail=chain((s,), site, N)), attrs=[t, ("bind", "k", "a1")], errors_ok=True)
    for s in itertools.product(CORE if c.thorough else TINY, repeat=2):
        yield fn_case(f"meta:{'/'.join(s)}", lambda N, s=s: blk(stmt(Q(N.x())), tail=chain(s, "q", N)), attrs=[t, ("bind", "k", "a1")], errors_ok=True)


# ---- run time
TYPES = [("i32", "5i32"), ("u8", "7u8"), ("&'static str", '"é"'), ("String", 'String::from("s")'), ("bool", "true"), ("Vec<i32>", "vec![1, 2]"), ("Option<char>", "Some('x')"), ("(i32, bool)", "(1, false)")]


def runtime(c):
    """every binding asked for under every type and every key, plus all the other fields of the meta value"""
    binds = "".join(f"#[hooq::bind(k{i} = {v})] ".replace("hooq::bind", "hooq::binding") for i, (_, v) in enumerate(TYPES))
    asks = []
    for k in [f"k{i}" for i in range(len(TYPES))] + ["k", "", "K0", "k00"]:
        for t, _ in TYPES:
            asks.append(f'println!("{k}|{t}|{{:?}}", meta.get_binding::<{t}>("{k}"));')
    prog = f"""mod sub {{
#[derive(Debug)] pub struct E;
pub trait Ask {{ fn ask(self, meta: hooq::HooqMeta) -> Self; }}
impl<T> Ask for Result<T, E> {{ fn ask(self, meta: hooq::HooqMeta) -> Self {{
  println!("at {{}}:{{}} {{}} {{}} [{{}}] {{}} {{}}", meta.line, meta.column, meta.path, meta.file, meta.source_str, meta.count, meta.bindings.len());
  let mut ks: Vec<_> = meta.bindings.iter().map(|(k, v)| format!("{{k}}={{}}={{v:?}}", v.expr)).collect(); ks.sort(); println!("{{ks:?}}");
  {' '.join(asks)}
  self }} }}
#[hooq::hooq]
#[hooq::method(.ask($hooq_meta))]
{binds}
pub fn f() -> Result<i32, E> {{
    Ok::<i32, E>(1)?;
  if false {{ return Err(E); }} Err::<i32, E>(E)
}}
}}
fn main() {{ println!("{{:?}}", sub::f()); }}
"""
    ok, diag, rc, out, err = exe.build_and_run(c.hooq(), prog, project(), path="a b/main.rs")
    fails = []
    n = 0

    def bad(key, exp, got):
        fails.append(Failure(key, "run-time meta value differs", prog, "", got, exp, diag))
    if not ok or rc != 0:
        bad("runtime", "compiles and runs", diag + err)
        c.record("run-time bindings", 1, fails)
        return
    lines = prog.split("\n")
    ql = next(i for i, t in enumerate(lines) if "(1)?;" in t)
    exp = []
    show = {"i32": "5", "u8": "7", "&'static str": '"é"', "String": '"s"', "bool": "true", "Vec<i32>": "[1, 2]", "Option<char>": "Some('x')", "(i32, bool)": "(1, false)"}
    for line, col, src, cnt in ((ql + 1, lines[ql].index("?") + 1, "Ok::<i32,E>(1)?", "1st ?"), (ql + 2, lines[ql + 1].index("Err::<") + 1, "Err::<i32,E>(E)", "1st tail expr")):
        exp.append(f"at {line}:{col} a b/main.rs main.rs [{src}] {cnt} {len(TYPES)}")
        exp.append(None)
        for k in [f"k{i}" for i in range(len(TYPES))] + ["k", "", "K0", "k00"]:
            for t, _ in TYPES:
                hit = k[:1] == "k" and k[1:].isdigit() and len(k) == 2 and TYPES[int(k[1:])][0] == t
                exp.append(f"{k}|{t}|" + (f"Some({show[t]})" if hit else "None"))
    exp.append("Err(E)")
    got = out.rstrip("\n").split("\n")
    if len(got) != len(exp):
        bad("runtime", str(len(exp)) + " lines", out)
    for e, g in zip(exp, got):
        n += 1
        if e is None:
            items = [f"k{i}={v}" for i, (_, v) in enumerate(TYPES)]
            for it in items:
                if it.replace(" ", "") not in g.replace('\\"', '"').replace(" ", ""):
                    bad("runtime:" + it, it, g)
        elif e.startswith("at "):
            g2 = re.sub(r"\[(.*)\]", lambda m: "[" + m.group(1).replace(" ", "") + "]", g)
            if g2 != e:
                bad("runtime:" + e, e, g2)
        elif e != g:
            bad("runtime:" + e, e, g)
    c.record("run-time bindings", n, fails)


UNAMES = ["expr", "value", "key", "k", "v", "e", "err", "error", "path", "line", "col", "column", "file", "source", "source_str", "count", "bindings", "meta", "hooq_meta", "level", "hooq", "hook", "r", "x", "it",
          "tuples", "payload", "binding", "map", "this", "val", "name", "q", "res", "result", "_e", "f", "method", "self_"]
UFORM = {"id": "{n}", "sum": "{n} + 0", "blk": "{{ {n} }}", "mac": "vec![{n}].remove(0)", "clo": "(|| {n})()", "let": "{{ let y = {n}; y }}"}


def user_names(c):
    """binding values that mention local variables of the user, whatever they are called, seen through every reference to the binding"""
    fns, calls, exp = [], [], []
    jobs = [((n,), (f,)) for n in UNAMES for f in UFORM] + [(p, ("id", "sum")) for p in itertools.permutations(UNAMES[:12], 2)] + [(t, ("id", "blk", "sum")) for t in itertools.permutations(UNAMES[:6], 3)]
    for ns, fs in jobs:
        ds = "".join(f"let {n} = {10 * (UNAMES.index(n) + 1)};" for n in ns)
        bs = "".join(f"#[hooq::b{i} = {UFORM[f].format(n=n)}] " for i, (n, f) in enumerate(zip(ns, fs)))
        vals = [10 * (UNAMES.index(n) + 1) for n in ns]
        for ref, root, at in (("meta", "", ".see(|| $hooq_meta)"), ("preset", "hook", None), ("map", "", ".seeb(|| $bindings)"),
                              ("name", "", ".seev(|| vec![" + ", ".join(f"$b{i}" for i in range(len(ns))) + "])"), ("whole", "", "see_all($expr, || $hooq_meta)")):
            k = len(fns)
            fns.append(f"#[hooq::hooq" + (f"({root})" if root else "") + "] " + (f"#[hooq::method({at})] " if at else "") +
                       f"fn f{k}() -> Result<i32, E> {{ {ds} #[hooq::skip] {{ {bs.replace('] ', '] ')} Err::<i32, E>(E)?; }} Ok(1) }}\n")
            calls.append(f'print!("{k} "); f{k}().ok(); println!();\n')
            exp.append(("+".join(f"{n}:{f}" for n, f in zip(ns, fs)) + "/" + ref, " " + " ".join(map(str, vals)) + " ", fns[-1]))
    head = """#![allow(warnings)]
pub struct E;
pub fn show(m: &std::collections::HashMap<String, hooq::BindingPayload>) {
  let mut ks: Vec<_> = m.keys().filter(|k| k.starts_with('b')).cloned().collect(); ks.sort();
  for k in ks { print!(" {}", m[&k].value.downcast_ref::<i32>().unwrap()); } print!(" "); }
pub fn see_all<T>(r: Result<T, E>, f: impl FnOnce() -> hooq::HooqMeta) -> Result<T, E> { show(&f().bindings); r }
pub trait Ask: Sized {
  fn see(self, f: impl FnOnce() -> hooq::HooqMeta) -> Self { show(&f().bindings); self }
  fn hook(self, f: impl FnOnce() -> hooq::HooqMeta) -> Self { show(&f().bindings); self }
  fn seeb(self, f: impl FnOnce() -> std::collections::HashMap<String, hooq::BindingPayload>) -> Self { show(&f()); self }
  fn seev(self, f: impl FnOnce() -> Vec<i32>) -> Self { for v in f() { print!(" {v}"); } print!(" "); self } }
impl<T> Ask for Result<T, E> {}
"""
    base = head.count("\n") + 1
    broken = set()
    for _ in range(4):
        prog = head + "".join(f if i not in broken else "\n" for i, f in enumerate(fns)) + "fn main() { " + "".join(x for i, x in enumerate(calls) if i not in broken) + "}\n"
        ok, diag, rc, out, err = exe.build_and_run(c.hooq(), prog, project())
        if ok:
            break
        at = {int(x) - base for x in re.findall(r"main\.rs:(\d+):", diag)} & set(range(len(fns)))
        if not at - broken:
            broken = set(range(len(fns)))
            break
        broken |= at
    got = dict(ln.split(" ", 1) for ln in out.splitlines()) if ok else {}
    fails = []
    for k, (key, want, src) in enumerate(exp):
        g = got.get(str(k), "<does not compile or run>")
        if not ok and k not in broken:
            continue
        # a hook that ran at all must have shown the user's values
        if g.strip() != want.strip():
            fails.append(Failure("user names:" + key, "a binding's value is not the user's variable", src, "", g, want, (diag + err)[-3000:]))
    c.record("user variables in binding values", len(exp), fails, states={run.h8(x[0]) for x in exp}, trans={run.h8((x[0], x[1])) for x in exp})


def check(c):
    def cases():
        yield from sequences(c)
        yield from levels()
        yield from values()
        yield from names()
        yield from collisions()
        yield from metas(c)
    c.expand("bindings", cases(), FL, project(TOML))
    runtime(c)
    user_names(c)
