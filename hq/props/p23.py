"""P23: hooks mean the same whatever names the user's code gives to its own things (generated code depends on no name in scope)."""
import time
from ..common import *
from .. import build, sem
from ..run import parallel
from . import p19
from .p19 import ROOTS, Prog, _worker

BOUNDS = {
    "quick": "every one of 148 shadowing declarations (modules, types, traits, functions, macros, imports, generics, locals, parameters, prelude switched off) under 12 presets x 5 programs, "
             "every pair of 59 of them x 2 programs, triples of 10, each with every combination of failing calls; editions 2018, 2021 and 2024",
    "thorough": "as quick with all pairs x 5 programs and triples of 20",
}
MODS = ["std", "core", "alloc", "hooq", "anyhow", "eyre", "color_eyre", "log", "tracing", "rc", "string", "collections", "any", "fmt"]
TYPES = ["String", "Vec", "Box", "Rc", "Any", "HashMap", "HooqMeta", "BindingPayload", "Level", "str", "usize", "Arguments", "Report", "Error"]
TRAITS = ["ToString", "Into", "From", "Clone", "Context", "WrapErr", "Display", "Debug", "Fn", "FnOnce", "Drop"]
FNS = ["drop", "from", "new", "to_string", "inspect_err", "with_context", "wrap_err_with", "expr", "stringify", "format", "eprintln"]
MACROS = ["format", "eprintln", "println", "concat", "stringify", "format_args", "line", "column", "file", "module_path", "vec", "panic", "write", "writeln", "print", "eprint",
          "log", "event", "include_str", "env", "dbg", "matches", "assert", "unreachable", "error", "excerpted_pretty_stringify", "one_line_stringify", "summary"]
LOCALS = ["e", "path", "line", "col", "expr", "level", "value", "err", "error", "meta", "result", "r", "file", "column", "source", "bindings", "nth", "hooq", "std", "self_", "__hooq", "v2"]

# key -> (text in the module, edits of the function)
D = {}
for n in MODS:
    D["mod " + n] = (f"#[allow(dead_code)] mod {n} {{ pub fn nothing() {{}} }}", {})
for n in TYPES:
    D["struct " + n] = (f"#[allow(non_camel_case_types)] pub struct {n};", {})
for n in TRAITS:
    D["trait " + n] = (f"pub trait {n} {{ fn nothing(&self) {{}} }}", {})
for n in FNS:
    D["fn " + n] = (f"pub fn {n}() {{}}", {})
for n in MACROS:
    D["macro " + n] = (f"macro_rules! {n} {{ ($($t:tt)*) => {{ compile_error!(\"the user's macro was called\") }} }}", {})
for n in LOCALS:
    D["let " + n] = ("", {"let": n})
    D["label '" + n] = ("", {"label": n})
for n in ("e", "String", "Rc", "std", "ToString"):
    D["generic " + n] = ("", {"gen": n})
for n in ("format", "eprintln", "e", "path"):
    D["inner fn " + n] = ("", {"item": f"fn {n}() -> i32 {{ 0 }}"})
D["inner macro format"] = ("", {"item": "macro_rules! format { ($($t:tt)*) => { compile_error!(\"the user's macro was called\") } }"})
D["inner macro eprintln"] = ("", {"item": "macro_rules! eprintln { ($($t:tt)*) => { compile_error!(\"the user's macro was called\") } }"})
D["inner use"] = ("", {"item": "use crate::g as format;"})
D["no prelude"] = ("#![no_implicit_prelude] use ::std::result::Result::{self, Ok, Err};", {})
D["type Result"] = ("pub type Result<T> = ::std::result::Result<T, E>;", {"ret": "Result<i32>"})
D["own Result"] = ("use ::std::result::Result as Result;", {})
D["use as std"] = ("use ::std::collections as std;", {})
D["glob"] = ("pub mod sh { pub struct String; pub struct Rc; pub mod std {} pub fn format() {} } use sh::*;", {})
D["type params"] = ("", {"gen": "Result2"})
for n in ("inspect_err", "to_string", "new", "clone", "into", "hooq", "line", "fmt"):
    D["ext " + n] = (f"pub trait Ext {{ fn {n}(self, _: &i32) -> i32 where Self: ::std::marker::Sized {{ ::std::process::abort() }} }} impl<T> Ext for T {{}}", {})
KEYS = list(D)
PAIRS = [d for d in KEYS if d.split(" ")[0] in ("generic", "inner", "no", "ext", "type", "own", "use", "glob") or d in (
    "mod std mod core mod hooq mod log struct String struct Vec struct Rc struct HashMap struct HooqMeta trait ToString trait From trait Context trait Into fn format fn inspect_err fn from "
    "macro format macro eprintln macro concat macro stringify macro format_args macro line macro file macro log macro event let e let path let line let col let expr let level let value label 'e").replace(
        " mod", "|mod").replace(" struct", "|struct").replace(" trait", "|trait").replace(" fn", "|fn").replace(" macro", "|macro").replace(" let", "|let").replace(" label", "|label").split("|")]
CH = [("try",), ("ret-tail",), ("try", "q", "try"), ("rblock-tail",), ("then-tail", "try"), ("clo-res",)]


class Shadow(Prog):
    def __init__(self, root, ch, ds, attrs=(), leaf="p"):
        super().__init__(root, ch, leaf=leaf, attrs=attrs)
        self.ds = ds
        self.key = f"{'+'.join(ds)}:{root}:{'/'.join(ch)}:{leaf}"
        texts = [D[d][0] for d in ds]
        inner = [t for t in texts if t.startswith("#!")]
        self.pre = " ".join(inner + ["use crate::*;"] + [t for t in texts if not t.startswith("#!")])
        self.ed = [D[d][1] for d in ds]
        gens = [e["gen"] for e in self.ed if "gen" in e]
        self.gens = "<" + ", ".join(gens) + ">" if gens else ""
        self.inst = "::<" + ", ".join("()" for _ in gens) + ">" if gens else ""

    def build(self):
        f, k = super().build()
        b, run0 = f.block, f.body_sem
        lets = [e["let"] for e in self.ed if "let" in e]
        pre, uses = [], []
        for e in self.ed:
            if "item" in e:
                pre.append(Stmt(Raw(e["item"]), label="item-stmt"))
            if "label" in e:
                pre.append(stmt(BlkX(blk(stmt(X(f"break '{e['label']}", label="break", prec=0))), f"'{e['label']}: ")))
        for i, n in enumerate(lets):
            pre.append(Let(n, atom(str(900 + i))))
        for i, n in enumerate(lets):                       # each local is the operand of a site, and still itself afterwards
            kk, k = k, k + 1
            site = sem.T["try"][2](sem.sem(X(f"q({kk}, {n})", label="q", call="q"), lambda vm, kk=kk, i=i: vm.q(kk, 900 + i)), None)
            after = sem.sem(X(f"v({n})", label="v", call="v"), lambda vm, i=i: vm.v(900 + i))
            pre += [stmt(site), stmt(after)]
            uses += [site, after]
        nb = blk(*pre, *b.stmts, tail=b.tail)

        def run(vm):
            for u in uses:
                sem.ev(u, vm)
            return run0(vm)
        ret = next((e["ret"] for e in self.ed if "ret" in e), "Result<i32, E>")
        g = Fn(nb, name="f", ret=ret, quals="pub ", generics=self.gens, attrs=f.attrs)
        g.body_sem = run
        return g, k


def ok(ds):
    names = [d.split(" ", 1) for d in ds]
    space = {"mod": "T", "struct": "T", "trait": "T", "type": "T", "own": "T", "use": "T", "glob": "G", "fn": "V", "macro": "M", "let": "L", "label": "B", "generic": "P", "inner": "N", "no": "A", "ext": "X"}
    seen = set()
    for d, n in zip(ds, names):
        key = ("X",) if n[0] == "ext" else (space[n[0]], n[-1].replace("as ", ""))
        if n[0] in ("struct", "fn"):
            if ("V", n[-1]) in seen:
                return False
            seen.add(("V", n[-1]))
        if key in seen:
            return False
        seen.add(key)
    if "inner use" in ds and "inner fn format" in ds or "type Result" in ds and "glob" in ds:
        return False
    if sum("Result" in d and d.split()[0] in ("type", "own") for d in ds) > 1:
        return False
    if "no prelude" in ds and any("Result" in d and d.split()[0] in ("type", "own") for d in ds):
        return False
    return True


# `::tracing::event!` itself calls the caller's `module_path!`: nothing hooq could do
def skip(p):
    return p.root.startswith("tracing") and "macro module_path" in p.ds


def attrs_for(root):
    return [("bind", "x", "1"), ("binding", "expr2", "g(2, 1)")] if root == "hook" else []


def progs(c):
    roots = [r for r in ROOTS if "::" not in r] + ["log::warn", "tracing::info"]
    for root in roots:
        for d in sorted(KEYS, key=lambda d: d == "no prelude"):
            for ch in CH[:-1] if d == "type Result" else CH:
                yield Shadow(root, ch, (d,), attrs_for(root))
        for ds in itertools.combinations(KEYS if c.thorough else PAIRS, 2):
            if ok(ds) and not (root == "hook" and "no prelude" in ds):
                for ch in CH[:5 if c.thorough else 2]:
                    yield Shadow(root, ch, ds, attrs_for(root))
        few = ["mod std", "mod core", "struct String", "struct Rc", "trait ToString", "macro format", "macro eprintln", "no prelude", "let e", "let expr"]
        if c.thorough:
            few += ["mod hooq", "struct HashMap", "macro format_args", "macro concat", "macro stringify", "let line", "let path", "generic e", "inner fn path", "type Result"]
        for ds in itertools.combinations(few, 3):
            if ok(ds) and not (root == "hook" and "no prelude" in ds):
                yield Shadow(root, CH[2], ds, attrs_for(root))


def check(c):
    t0 = time.time()
    mdir = project()
    hooq, ext = c.hooq(), build.ensure_ext()
    tot = {"n": 0, "fails": [], "nf": 0, "ev": 0}
    states, trans, per = set(), set(), {}

    def jobs():
        for (kit, _), group in itertools.groupby((p for p in progs(c) if not skip(p)), key=lambda p: (p.root.split("::")[0], p.root == "hook" and "no prelude" in p.ds)):
            it = iter(group)
            while True:
                chunk = list(itertools.islice(it, 150))
                if not chunk:
                    break
                per[kit] = per.get(kit, 0) + len(chunk)
                yield hooq, ext, kit, chunk, mdir
        for ed in ("2018", "2021"):
            for kit, group in itertools.groupby((p for p in (Shadow(r, ch, (d,), attrs_for(r)) for r in ROOTS if "::" not in r for d in KEYS if (r, d) != ("hook", "no prelude") for ch in CH[:2]) if not skip(p)), key=lambda p: p.root):
                chunk = list(group)
                per[f"{kit}/{ed}"] = len(chunk)
                yield hooq, ext, kit, chunk, mdir, ed

    def add(r):
        tot["n"] += r[0]
        tot["fails"] += r[1]
        tot["nf"] += r[2]
        states.update(r[3])
        trans.update(r[4])
        tot["ev"] += r[5]
    parallel(jobs(), _worker, add, stop=lambda: tot["nf"] > 60)
    c.record("shadowed names", tot["n"], tot["fails"], states, trans, programs=per, reports=tot["ev"], seconds=round(time.time() - t0, 1))
