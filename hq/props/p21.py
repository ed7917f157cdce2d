"""P21: generated code reaches hooq's own types and macros by the name the project's Cargo.toml gives the crate."""
import os
import shutil
import subprocess
import tempfile
import traceback
from ..common import *
from .. import build, run
from ..build import ToolError
from ..run import h8

BOUNDS = {
    "quick": "36 ways to depend on hooq (plain, table, renamed, dashed, dev, target, inherited from a workspace, decoys, hooq-macros, hooq itself, none, no manifest, broken, unset) x 9 kinds of "
             "generated reference; 14 of them near misses of the names hooq compares with; histories of length 1 over all, 2 over 22, and 3 over 6, of projects served by one compiler process; every program executed against tagged stand-ins of the crate",
    "thorough": "as quick with length 3 over 22 ways",
}
HEAD = '[package]\nname = "k"\nversion = "0.1.0"\nedition = "2024"\n'
W = "\n[workspace]\n"
# name: (Cargo.toml | None, workspace Cargo.toml | None, the crate that must be named)
FORMS = {
    "plain": (HEAD + '[dependencies]\nhooq = "0.3"\n' + W, None, "hooq"),
    "inline": (HEAD + '[dependencies]\nserde = "1"\nhooq = { version = "0.3", features = ["full"] }\n' + W, None, "hooq"),
    "table": (HEAD + '[dependencies.hooq]\nversion = "0.3"\n' + W, None, "hooq"),
    "rename": (HEAD + '[dependencies]\nhq = { package = "hooq", version = "0.3" }\n' + W, None, "hq"),
    "rename2": (HEAD + '[dependencies]\nother = { package = "hooq", path = "../hooq" }\n' + W, None, "other"),
    "rename-table": (HEAD + '[dependencies.hq]\npackage = "hooq"\nversion = "0.3"\n' + W, None, "hq"),
    "dash": (HEAD + '[dependencies]\nmy-hq = { package = "hooq", version = "0.3" }\n' + W, None, "my_hq"),
    "dev": (HEAD + '[dev-dependencies]\nhq = { package = "hooq", version = "0.3" }\n' + W, None, "hq"),
    "target": (HEAD + '[target."cfg(unix)".dependencies]\nhq = { package = "hooq", version = "0.3" }\n' + W, None, "hq"),
    "workspace": (HEAD + '[dependencies]\nhooq = { workspace = true }\n', '[workspace.dependencies]\nhooq = "0.3"\n', "hooq"),
    "workspace-dotted": (HEAD + '[dependencies]\nhooq.workspace = true\n', '[workspace.dependencies]\nhooq = "0.3"\n', "hooq"),
    "workspace-rename": (HEAD + '[dependencies]\nhq = { workspace = true }\n', '[workspace.dependencies]\nhq = { package = "hooq", version = "0.3" }\n', "hq"),
    "decoy": (HEAD + '[dependencies]\nhq = { package = "hoop", version = "0.3" }\nother = { package = "hooq", version = "0.3" }\n' + W, None, "other"),
    "both": (HEAD + '[dependencies]\nhooq-macros = "0.3"\nhq = { package = "hooq", version = "0.3" }\n' + W, None, "hq"),
    "both-plain": (HEAD + '[dependencies]\nhooq = "0.3"\nhooq-macros = "0.3"\n' + W, None, "hooq"),
    "macros": (HEAD + '[dependencies]\nhooq-macros = "0.3"\n' + W, None, "hooq_macros"),
    "itself": (HEAD.replace('"k"', '"hooq"') + W, None, "hooq"),
    "absent": (HEAD + '[dependencies]\nserde = "1"\n' + W, None, "hooq"),
    "no-manifest": (None, None, "hooq"),
    "broken": ("[package\n", None, "hooq"),
    "case": (HEAD + '[dependencies]\nHq = { package = "hooq", version = "0.3" }\n' + W, None, "Hq"),
    "unset": ("-", None, "hooq"),
}
# further names, given to the crate by renaming: near misses of the names hooq itself compares with
NEAR = ["hook-macros", "my_hooq_macros", "hooq-macro", "hooq_macros2", "macros", "hooqs", "hooq2", "xhooq", "hooq_", "_hooq", "h", "source_excerpt_helpers", "a-b-c", "hooq-rs"]
ORIGINAL = list(FORMS)
for _n in NEAR:
    FORMS["name:" + _n] = (HEAD + f'[dependencies]\n{_n} = {{ package = "hooq", version = "0.3" }}\n' + W, None, _n.replace("-", "_"))
SIX = ["plain", "rename", "dash", "macros", "absent", "rename2"]
NAMES = ["hooq", "hq", "other", "my_hq", "Hq", "hooq_macros"] + [n.replace("-", "_") for n in NEAR]

TAGGER = r"""use std::cell::RefCell;
thread_local! { static L: RefCell<Vec<String>> = RefCell::new(vec![]); }
pub fn seen(s: &'static str) -> &'static str { note(s.to_string()); s }
pub fn note(s: String) { L.with(|l| l.borrow_mut().push(s)) }
pub fn take() -> Vec<String> { L.with(|l| std::mem::take(&mut *l.borrow_mut())) }
"""
FACADE = r"""extern crate tagger;
#[doc(hidden)] pub fn __seen() -> &'static str { ::tagger::seen("m:@N@") }
"""
HELPERS = ("excerpted_pretty_stringify", "truncate_lit_str", "pretty_stringify", "one_line_stringify")
# hooq_macros has the macros at its root, hooq only in source_excerpt_helpers
ROOT = "".join(f"#[macro_export] macro_rules! {n} {{ ($($t:tt)*) => {{ $crate::__seen() }} }}\n" for n in HELPERS)
INNER = "".join(f"#[macro_export] #[doc(hidden)] macro_rules! __seen_{n} {{ ($($t:tt)*) => {{ $crate::__seen() }} }}\n" for n in HELPERS)
FULL = INNER + "pub mod source_excerpt_helpers { pub use crate::{" + ", ".join(f"__seen_{n} as {n}" for n in HELPERS) + "}; }\n" + r"""
pub struct BindingPayload { pub expr: String, pub value: std::rc::Rc<dyn std::any::Any> }
pub struct HooqMeta { pub line: usize, pub column: usize, pub path: &'static str, pub file: &'static str, pub source_str: &'static str, pub count: &'static str,
  pub bindings: std::collections::HashMap<String, BindingPayload> }
"""


def ensure_facades():
    d = os.path.join(build.CACHE, "facades")
    with build.Lock("facades"):
        os.makedirs(d, exist_ok=True)
        out = ["-L", "dependency=" + d]
        for n, t in [("tagger", TAGGER)] + [("t_" + n, FACADE.replace("@N@", n) + (ROOT if n == "hooq_macros" else FULL)) for n in NAMES]:
            rlib, src = os.path.join(d, f"lib{n}.rlib"), os.path.join(d, n + ".rs")
            if not (os.path.exists(rlib) and os.path.exists(src) and open(src).read() == t):
                with open(src, "w") as f:
                    f.write(t)
                r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", n, "-L", d, "-o", rlib, src], env=build.env(), capture_output=True, text=True)
                if r.returncode != 0:
                    raise ToolError(r.stderr)
            out += ["--extern", f"{n[2:] if n.startswith('t_') else n}={rlib}"]
    return out


PRE = r"""#![allow(warnings)]
pub struct E; impl std::fmt::Debug for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("E") } }
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("E") } } impl std::error::Error for E {}
pub fn bad() -> Result<i32, E> { Err(E) }
pub fn tn<M>(_: &M) { let s = std::any::type_name::<M>(); ::tagger::note(format!("t:{}", s.splitn(2, "t_").nth(1).unwrap_or(s).split("::").next().unwrap())) }
pub trait Tag: Sized { fn tag<M>(self, m: M) -> Self { tn(&m); self } fn hook<M>(self, f: impl FnOnce() -> M) -> Self { tn(&f()); self }
  fn tagb<M>(self, m: std::collections::HashMap<String, M>) -> Self { for v in m.values() { tn(v) } if m.is_empty() { tn(&m) } self } }
impl<T, E> Tag for Result<T, E> {}
struct L; impl ::log::Log for L { fn enabled(&self, _: &::log::Metadata) -> bool { true } fn flush(&self) {} fn log(&self, r: &::log::Record) { let _ = r.args().to_string(); } }
static LG: L = L;
struct V; impl ::tracing::field::Visit for V { fn record_debug(&mut self, f: &::tracing::field::Field, v: &dyn std::fmt::Debug) { let _ = format!("{v:?}"); } }
struct Sub; impl ::tracing::Subscriber for Sub { fn enabled(&self, _: &::tracing::Metadata<'_>) -> bool { true }
  fn new_span(&self, _: &::tracing::span::Attributes<'_>) -> ::tracing::span::Id { ::tracing::span::Id::from_u64(1) }
  fn record(&self, _: &::tracing::span::Id, _: &::tracing::span::Record<'_>) {} fn record_follows_from(&self, _: &::tracing::span::Id, _: &::tracing::span::Id) {}
  fn event(&self, e: &::tracing::Event<'_>) { e.record(&mut V) } fn enter(&self, _: &::tracing::span::Id) {} fn exit(&self, _: &::tracing::span::Id) {} }
"""
# kind of reference: (root attribute, attributes on the function, error type, what is seen: m: macro, t: type)
REFS = {
    "default": ("", "", "E", "m"), "anyhow": ("anyhow", "", "::anyhow::Error", "m"), "eyre": ("eyre", "", "::eyre::Report", "m"),
    "color_eyre": ("color_eyre", "", "::eyre::Report", "m"), "log": ("log", "", "E", "m"), "tracing": ("tracing", "", "E", "m"),
    "hook": ("hook", "", "E", "t"), "meta": ("", "#[hooq::method(.tag($hooq_meta))]", "E", "t"),
    "bindings": ("", "#[hooq::method(.tagb($bindings))] #[hooq::v = 1]", "E", "t"),
}


def expected(form, what):
    n = FORMS[form][2]
    if n == "hooq_macros" and what == "t":
        n = "hooq"
    return what + ":" + n


def make(top, form):
    man, ws, _ = FORMS[form]
    if man == "-":
        return "-"
    d = os.path.join(top, "w", "app") if ws else os.path.join(top, "app")
    os.makedirs(d)
    if ws:
        with open(os.path.join(top, "w", "Cargo.toml"), "w") as f:
            f.write('[workspace]\nmembers = ["app"]\nresolver = "2"\n' + ws)
    if man is not None:
        os.makedirs(os.path.join(d, "src"))
        with open(os.path.join(d, "src", "lib.rs"), "w"):
            pass
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(man)
    return d


def program(i, hist, refs, dirs):
    """-> (module text, main text, expectations)"""
    b, main, exp = [f"mod c{i} {{ use crate::*; ::envset::step!{{\n"], [], []
    for k, form in enumerate(hist):
        b.append(f'"{dirs[k]}"\n')
        for r in refs:
            root, attrs, err, what = REFS[r]
            b.append(f"pub mod {r}{k} {{ use crate::*; #[::rh::hooq" + (f"({root})" if root else "") + f"] {attrs} pub fn f() -> Result<i32, {err}> {{ bad()?; Ok(0) }} }}\n")
            main.append(f'let r = c{i}::{r}{k}::f().is_err(); show("{i}:{k}:{r}", r);\n')
            exp.append((f"{i}:{k}:{r}", expected(form, what)))
    b.append("} }\n")
    return "".join(b), "".join(main), exp


def cargo_path():
    r = subprocess.run(["rustup", "which", "cargo", "--toolchain", build.TOOLCHAIN], capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("rustup which cargo: " + r.stderr)
    return r.stdout.strip()


def process(hooq, ext, cargo, hists):
    work = tempfile.mkdtemp(prefix="hq21-")
    fails, states, trans = [], set(), set()
    try:
        texts, mains, exps = [], [], []
        for i, (h, refs) in enumerate(hists):
            dirs = []
            for k, form in enumerate(h):
                dirs.append(make(os.path.join(work, f"d{i}", str(k)), form))
                states.add(h8(h[:k + 1]))
                trans.add(h8((h[:k], h[k], refs)))
            t, m, e = program(i, h, refs, dirs)
            texts.append(t)
            mains.append(m)
            exps.append(e)
        text = (PRE + "".join(texts) + 'fn show(n: &str, r: bool) { println!("{n} {} {r}", ::tagger::take().join(",")) }\n' +
                "".join(f"fn m{i}() {{ {m} }}\n" for i, m in enumerate(mains)) +
                "fn main() { ::log::set_logger(&LG).unwrap(); ::log::set_max_level(::log::LevelFilter::Trace); ::tracing::subscriber::set_global_default(Sub).unwrap();\n" +
                "".join(f"m{i}();" for i in range(len(mains))) + "}\n")
        with open(os.path.join(work, "main.rs"), "w") as f:
            f.write(text)
        exe = os.path.join(work, "exe")
        cmd = ["rustc", "--edition", "2024", "--crate-type", "bin", "--crate-name", "k", "--cap-lints", "allow", "-Cdebuginfo=0", "--error-format=short",
               "--extern", "rh=" + hooq["rlib"], "-L", "dependency=" + hooq["deps"], *ext, "-o", exe, "main.rs"]
        e = build.env(CARGO=cargo, CARGO_PKG_NAME="k")
        e.pop("CARGO_MANIFEST_DIR", None)
        got, err = {}, ""
        r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, errors="replace", timeout=600)
        err = r.stderr
        if r.returncode == 0:
            x = subprocess.run([exe], cwd=work, capture_output=True, text=True, errors="replace", timeout=300)
            if x.returncode != 0:
                raise ToolError("P21 program failed: " + x.stderr[-2000:])
            got = {ln.split(" ", 1)[0]: ln.split(" ", 1)[1] for ln in x.stdout.splitlines()}
        for i, (h, refs) in enumerate(hists):
            for (n, want) in exps[i]:
                g = got.get(n, "<does not compile>")
                if g != want + " true":
                    k, ref = n.split(":")[1:]
                    if r.returncode != 0 and len(hists) > 1:
                        continue
                    fails.append(run.Failure(">".join(h) + f" step {k} {ref}", "the generated code names another crate than the project's Cargo.toml", texts[i],
                                             f"project {h[int(k)]}:\n{FORMS[h[int(k)]][0]}", g, want + " true", err[-2000:]))
        if r.returncode != 0 and len(hists) > 1:
            # find out which ones
            n = 0
            for h in hists:
                s = process(hooq, ext, cargo, [h])
                fails += s["fails"]
                n += s["nfails"]
                if n > 20:
                    break
            if not fails:
                raise ToolError("programs compile alone but not together:\n" + err[-3000:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return {"n": sum(len(h) * len(rf) for h, rf in hists), "fails": fails[:20], "nfails": len(fails), "states": states, "trans": trans,
            "fired": {"question": 0, "return": 0, "tail_expr": 0}, "nhook": len(hists), "samples": [">".join(hists[0][0]) + "\n" + texts[0]]}


def worker(conn, args):
    try:
        conn.send(("ok", process(*args)))
    except ToolError as e:
        conn.send(("tool", str(e)))
    except BaseException:
        conn.send(("tool", traceback.format_exc()))
    finally:
        conn.close()


def explore(c, name, hists, size):
    import time
    t = time.time()
    hooq = c.hooq()
    ext = build.ensure_envset() + build.ensure_ext() + ensure_facades()
    cargo = cargo_path()
    res = run.Result()

    def jobs():
        it = iter(hists)
        while True:
            ch = list(itertools.islice(it, size))
            if not ch:
                return
            yield (hooq, ext, cargo, ch)
    run.parallel(jobs(), worker, res.add, stop=lambda: res.nfails > 60)
    c._expanded(name, res, t)


def check(c):
    allr = tuple(REFS)
    few = ("default", "hook", "bindings")
    explore(c, "one project per process", (((f,), allr) for f in FORMS), 1)
    explore(c, "one history per process", ((h, few) for h in seqs(SIX, 2, 2)), 1)
    explore(c, "two projects", ((h, few) for h in seqs(ORIGINAL, 2, 2)), 30)
    explore(c, "three projects", ((h, few) for h in seqs(ORIGINAL if c.thorough else SIX, 3, 3)), 30)
