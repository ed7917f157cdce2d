"""Builds what the checks run on: hooq from /repo's current tree, and `canon`."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HQ_REPO", "/repo")
CACHE = os.environ.get("HQ_CACHE", os.path.join(VERIF, ".cache"))
TOOLCHAIN = "1.88.0"

VARIANTS = {
    "full": ["--no-default-features", "--features", "full"],
    "default": [],
    "bare": ["--no-default-features"],
}


class ToolError(Exception):
    """the check cannot run (never a verdict)"""


def env(**k):
    e = dict(os.environ)
    for v in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTC_WORKSPACE_WRAPPER", "CARGO"):
        e.pop(v, None)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_PROFILE_DEV_BUILD_OVERRIDE_OPT_LEVEL="1",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.update(k)
    return e


def tree_hash():
    h = hashlib.sha256()
    for sub in ("hooq", "hooq-macros", "hooq-helpers", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, sub)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, dirs, fs in os.walk(p):
                dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


class BuildBroken(ToolError):
    pass


def ensure_hooq(variant="full"):
    """-> dict(rlib, deps, dir)"""
    tgt = os.path.join(CACHE, "hooq-" + variant)
    with Lock("hooq-" + variant):
        h = tree_hash()
        stamp = os.path.join(tgt, "TREE")
        old = open(stamp).read() if os.path.exists(stamp) else None
        rlib = os.path.join(tgt, "debug", "libhooq.rlib")
        if old != h or not os.path.exists(rlib):
            # never trust time stamps: drop every fingerprint of the repository's own crates
            fp = os.path.join(tgt, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("hooq"):
                        shutil.rmtree(os.path.join(fp, d))
            deps = os.path.join(tgt, "debug", "deps")
            if os.path.isdir(deps):
                for f in os.listdir(deps):
                    if f.startswith(("libhooq", "hooq")):
                        os.unlink(os.path.join(deps, f))
            r = subprocess.run(["cargo", "build", "--locked", "--offline", "-p", "hooq", "--target-dir", tgt]
                               + VARIANTS[variant], cwd=REPO, env=env(), capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildBroken("cargo build of /repo failed:\n" + r.stderr[-4000:])
            with open(stamp, "w") as f:
                f.write(h)
    return {"rlib": rlib, "deps": os.path.join(tgt, "debug", "deps"), "dir": tgt, "variant": variant}


def ensure_canon():
    tgt = os.path.join(CACHE, "canon")
    with Lock("canon"):
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", tgt],
                           cwd=os.path.join(VERIF, "canon"), env=env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("cargo build of canon failed:\n" + r.stderr[-4000:])
    return os.path.join(tgt, "release", "canon")


STUB_CRATES = {
    "log": """pub enum Level { Error, Warn, Info, Debug, Trace }
#[macro_export] macro_rules! log { ($l:expr, $($t:tt)+) => { $crate::sink($l, ::std::format_args!($($t)+)) } }
pub fn sink<A, B>(_: A, _: B) {}""",
    "tracing": """pub struct Level;
impl Level { pub const ERROR: i32 = 0; pub const WARN: i32 = 1; pub const INFO: i32 = 2; pub const DEBUG: i32 = 3; pub const TRACE: i32 = 4; }
#[macro_export] macro_rules! event {
    (@ $l:tt [$($o:tt)*]) => { $crate::sink($l, $($o)*) };
    (@ $l:tt [$($o:tt)*] $n:ident = % $e:expr, $($t:tt)*) => { $crate::event!(@ $l [$($o)* (stringify!($n), "%", $e),] $($t)*) };
    (@ $l:tt [$($o:tt)*] $n:ident, $($t:tt)*) => { $crate::event!(@ $l [$($o)* (stringify!($n), $n),] $($t)*) };
    ($l:expr, $($t:tt)+) => { $crate::event!(@ ($l) [] $($t)+) };
}
pub fn sink() {}""",
    "anyhow": "pub trait Context {}",
    "eyre": "pub trait ContextCompat {} pub trait WrapErr {}",
    "color_eyre": "pub mod eyre { pub trait ContextCompat {} pub trait WrapErr {} }",
}


def ensure_stubs():
    """--extern arguments for stand-ins of the crates the preset flavors mention"""
    d = os.path.join(CACHE, "stubs")
    with Lock("stubs"):
        os.makedirs(d, exist_ok=True)
        out = []
        for n, t in STUB_CRATES.items():
            rlib, src = os.path.join(d, f"lib{n}.rlib"), os.path.join(d, n + ".rs")
            if not (os.path.exists(rlib) and os.path.exists(src) and open(src).read() == t):
                with open(src, "w") as f:
                    f.write(t)
                r = subprocess.run(["rustc", "--edition", "2024", "--crate-type", "rlib", "--crate-name", n, "-o", rlib, src], env=env(), capture_output=True, text=True)
                if r.returncode != 0:
                    raise ToolError(r.stderr)
            out += ["--extern", f"{n}={rlib}"]
    return out


ENVSET = r"""extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};
/// step!{ "dir" tokens.. "dir" tokens.. } : sets CARGO_MANIFEST_DIR ("-": unset), emits the tokens and continues with the rest
#[proc_macro]
pub fn step(ts: TokenStream) -> TokenStream {
    let mut it = ts.into_iter().peekable();
    let Some(TokenTree::Literal(l)) = it.next() else { return TokenStream::new() };
    let d = l.to_string();
    let d = d.trim_matches('"');
    unsafe { if d == "-" { std::env::remove_var("CARGO_MANIFEST_DIR") } else { std::env::set_var("CARGO_MANIFEST_DIR", d) } }
    let mut out: Vec<TokenTree> = vec![];
    while let Some(t) = it.peek() {
        if let TokenTree::Literal(_) = t { break }
        out.push(it.next().unwrap());
    }
    let rest: TokenStream = it.collect();
    if !rest.is_empty() {
        let call: TokenStream = "::envset::step!".parse().unwrap();
        out.extend(call);
        out.push(TokenTree::Group(proc_macro::Group::new(proc_macro::Delimiter::Brace, rest)));
    }
    out.into_iter().collect()
}
"""


def ensure_envset():
    """a proc macro that switches the project the compiler process is working for"""
    d = os.path.join(CACHE, "envset")
    with Lock("envset"):
        os.makedirs(d, exist_ok=True)
        so, src = os.path.join(d, "libenvset.so"), os.path.join(d, "envset.rs")
        if not (os.path.exists(so) and os.path.exists(src) and open(src).read() == ENVSET):
            with open(src, "w") as f:
                f.write(ENVSET)
            r = subprocess.run(["rustc", "--edition", "2024", "--crate-type", "proc-macro", "--crate-name", "envset", "-o", so, src], env=env(), capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError(r.stderr)
    return ["--extern", "envset=" + so]


EXT = ("anyhow", "eyre", "color_eyre", "log", "tracing")


def ensure_ext():
    """the real crates behind the preset flavors, from the cargo cache -> rustc arguments"""
    tgt = os.path.join(CACHE, "ext")
    with Lock("ext"):
        deps = os.path.join(tgt, "debug", "deps")
        r = subprocess.run(["cargo", "build", "--locked", "--offline", "--target-dir", tgt], cwd=os.path.join(VERIF, "ext"), env=env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("cargo build of ext failed:\n" + r.stderr[-4000:])
        out = ["-L", "dependency=" + deps]
        for n in EXT:
            fs = [f for f in os.listdir(deps) if f.startswith(f"lib{n}-") and f.endswith(".rlib")]
            if len(fs) != 1:
                raise ToolError(f"{n}: {fs}")
            out += ["--extern", f"{n}={os.path.join(deps, fs[0])}"]
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or VARIANTS:
        print(ensure_hooq(v))
    print(ensure_canon(), ensure_stubs(), ensure_envset(), ensure_ext(), sep="\n")
