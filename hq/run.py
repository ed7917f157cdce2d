"""Runs cases through the real hooq and compares with the model's expectation."""
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build
from .build import ToolError, VERIF
from .lang import Buf, Model, Flavor, ctx_of, ModelError

JOBS = int(os.environ.get("HQ_JOBS", "8"))

N_NAMES = 256
STUBS = r"""#![allow(warnings)] #![feature(try_blocks, yield_expr)]
mod p {
    macro_rules! cap { ($($t:tt)*) => { concat!("§", stringify!($($t)*)) } }
    macro_rules! tup { ($($t:tt)*) => { ($($t)*) } }
    macro_rules! seq { ($($t:tt)*) => { { $($t)* } } }
    macro_rules! raw { ($($t:tt)*) => { $($t)* } }
    macro_rules! none { ($($t:tt)*) => { } }
    pub(crate) use {cap, tup, seq, raw, none};
    pub struct S { pub f: i32, pub g: i32 }
    pub struct Q;
    pub trait Tr {}
    pub trait Tr2 {}
    pub fn g() {}
    pub fn w() {}
    pub fn w2() {} pub fn d() {} pub fn h() {} pub fn h1() {} pub fn h2() {} pub fn h3() {}
    pub fn Fail() {}
    pub fn Good() {}
    pub fn Errr() {}
    pub fn err() {}
    pub type MyResult<T> = Result<T, ()>; pub type XResult<T> = Result<T, ()>; pub type ResultX = Result<i32, ()>;
    pub fn Fail_() {} pub fn _Err() {} pub fn OkErr() {} pub fn ERR() {}
    pub trait TrE<T = i32> { type Result<U>; type T; fn Err(); fn g(); } pub mod Err { pub fn g() {} } pub mod Ok { pub fn g() {} }
    pub mod result { pub type Result2<T> = T; pub mod Result { pub type Inner = i32; pub use crate::p::r::Ok; } }
    pub mod r { pub type Result<T> = T; pub type MyResult<T> = T; pub use crate::p::*; pub fn Err() {} pub fn Ok() {} }
    @NAMES@
}
""".replace("@NAMES@", " ".join(f"pub static a{i}: i32 = 0;" for i in range(N_NAMES)))
# the stubs are compressed to a fixed number of lines
STUB_LINES = STUBS.count("\n")


class Case:
    """key: readable identity; build() -> list of (root attribute args | None, Node)
    where None means an item without #[hooq]."""
    __slots__ = ("key", "build", "flavor", "opt")

    def __init__(self, key, build, flavor=None, **opt):
        self.key, self.build, self.flavor, self.opt = key, build, flavor, opt


def emit_case(i, case, flavors, line, path, cov, consume):
    """-> (annotated module text, expected module text, model)"""
    items = case.build()
    b = Buf(line)
    b.w(f"mod c{i} {{ use crate::p::*; ")
    for root, node in items:
        if root is not None:
            b.w("#[::hooq::hooq" + (f"({root})" if root else "") + "] ")
        node.emit(b)
        b.w(" ")
    b.w("}\n")
    m = Model(path=path, flavors=flavors, consume=consume, cov=cov)
    m.text = b.text()
    exp = [f"mod e{i} {{ use crate::p::*; "]
    for k, (root, node) in enumerate(items):
        if root is None:
            exp.append(node.expected(m) if hasattr(node, "expected") else m.text[node.s0 - 0:node.s1])
            continue
        fl = case.flavor
        if isinstance(fl, (list, tuple)):
            fl = fl[k]
        if isinstance(fl, str):
            fl = flavors[fl]
        fl = fl or flavors["default"]
        uses = list(case.opt.get("trait_use", ()))
        for u in uses + list(fl.trait_uses):
            exp.append(f"#[allow(unused)] use {u} as _; ")
        exp.append(node.walk(m, ctx_of(fl)))
        exp.append(" ")
    exp.append("}\n")
    wrap = case.opt.get("wrap")
    return (wrap(i, m.text, b.lifts) if wrap else m.text), "".join(exp), m


def rustc_cmd(hooq, src, extra=()):
    return ["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", "k",
            "--extern", "hooq=" + hooq["rlib"], "-L", "dependency=" + hooq["deps"], *hooq.get("extra", ()), *extra, src]


def rustc_env(manifest_dir):
    return build.env(RUSTC_BOOTSTRAP="1", CARGO_MANIFEST_DIR=manifest_dir, CARGO_PKG_NAME="k")


def expand(hooq, canon, work, name, text, manifest_dir, timeout=600):
    """-> (dict name -> canonical text) or None when rustc or canon cannot process the file"""
    src = os.path.join(work, name + ".rs")
    with open(src, "w") as f:
        f.write(text)
    out = os.path.join(work, name + ".exp")
    with open(out, "w") as fo, open(os.path.join(work, name + ".err"), "w") as fe:
        try:
            subprocess.run(rustc_cmd(hooq, name + ".rs", ["-Zunpretty=expanded", "--cap-lints", "allow", "--error-format=short"]), cwd=work,
                           env=rustc_env(manifest_dir), stdout=fo, stderr=fe, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"rustc timed out on {src}")
    err = open(os.path.join(work, name + ".err"), errors="replace").read()
    if os.path.getsize(out) == 0:
        return None, err
    r = subprocess.run([canon, out], capture_output=True, text=True)
    if r.returncode != 0:
        return None, err + "\n" + r.stderr
    d = {}
    for ln in r.stdout.split("\n"):
        if ln:
            k, _, v = ln.partition("\t")
            d[k] = v
    return d, err


def case_opt_errors_ok(cs):
    return any(c.opt.get("errors_ok") for c in cs)


def h8(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Failure:
    def __init__(self, key, kind, src="", exp_src="", got="", exp="", err=""):
        self.key, self.kind, self.src, self.exp_src = key, kind, src, exp_src
        self.got, self.exp, self.err = got, exp, err


def run_shard(hooq, canon, cases, flavors, manifest_dir, consume, work):
    """compare every case; returns dict"""
    cov = (set(), set())
    fired = {"question": 0, "return": 0, "tail_expr": 0}
    fails = []
    todo = [(0, list(cases))]
    n = 0
    nhook = 0
    serial = 0
    samples = []
    while todo:
        depth, cs = todo.pop()
        serial += 1
        name = f"s{serial}"
        path = name + ".rs"
        parts, exps, srcs = [], [], []
        line = STUB_LINES + 1
        for i, c in enumerate(cs):
            t, e, m = emit_case(i, c, flavors, line, path, cov, consume)
            parts.append(t)
            exps.append(e)
            line += t.count("\n")
            if depth == 0:
                for k, _, _ in m.fired:
                    fired[k] += 1
                nhook += bool(m.fired)
                if m.fired and len(samples) < 2 and i % 7 == 3:
                    samples.append(f"{c.key}\n{t}{e}")
        d, err = expand(hooq, canon, work, name, STUBS + "".join(parts) + "".join(exps), manifest_dir)
        if d is None:
            if len(cs) > 1:
                h = len(cs) // 2
                todo.append((depth + 1, cs[:h]))
                todo.append((depth + 1, cs[h:]))
                if len(fails) > 30:
                    break
                continue
            # alone: is it the expected twin that is at fault?
            d2, err2 = expand(hooq, canon, work, name + "x", STUBS + exps[0], manifest_dir)
            if d2 is None:
                raise ToolError(f"the expected program of case {cs[0].key} does not expand:\n{exps[0]}\n{err2[-3000:]}")
            fails.append(Failure(cs[0].key, "hooq's output does not parse", parts[0], exps[0], "<no output>", d2.get("e0", ""), err[-3000:]))
            continue
        errs = errors_by_line(err)
        if not case_opt_errors_ok(cs):
            alltext = None
            for k, t in errs:
                if k < line or re.search(r"error\[E(?!0425)\d+\]", t):
                    continue
                alltext = alltext or (STUBS + "".join(parts) + "".join(exps)).split("\n")
                if "#[hooq::" in alltext[k - 1]:     # attributes inside a macro body hooq must not touch
                    continue
                raise ToolError(f"an expected program does not compile: {t}\n{alltext[k - 1]}")
        first = STUB_LINES + 1
        for i, c in enumerate(cs):
            n += 1
            lo, first = first, first + parts[i].count("\n")
            got, exp = d.get(f"c{i}"), d.get(f"e{i}")
            if exp is None:
                raise ToolError(f"no expected expansion for {c.key}")
            if "§§" in exp:
                raise ToolError("marker collision")
            if got != exp:
                fails.append(Failure(c.key, "expansion differs", parts[i], exps[i], got or "<missing>", exp,
                                     err_for(errs, lo, first - 1)))
                if len(fails) > 200:
                    break
    return {"n": n, "fails": fails[:40], "nfails": len(fails), "states": {h8(x) for x in cov[0]}, "trans": {h8(x) for x in cov[1]},
            "fired": fired, "nhook": nhook, "samples": samples}


ERR = re.compile(r"^[\w./-]+\.rs:(\d+):\d+: error(?:\[\w+\])?: (.*)$")


def errors_by_line(err):
    out = []
    for ln in err.split("\n"):
        mo = ERR.match(ln)
        if mo:
            out.append((int(mo.group(1)), ln))
    return out


def err_for(errs, first, last):
    return "\n".join(t for k, t in errs if first <= k <= last)[:1500]


def _worker(conn, args):
    work = tempfile.mkdtemp(prefix="hq-")
    try:
        conn.send(("ok", run_shard(*args, work)))
    except ToolError as e:
        conn.send(("tool", str(e)))
    except BaseException:
        conn.send(("tool", traceback.format_exc()))
    finally:
        shutil.rmtree(work, ignore_errors=True)
        conn.close()


class Result:
    def __init__(self):
        self.n = self.nhook = self.nfails = 0
        self.fails, self.states, self.trans = [], set(), set()
        self.fired = {"question": 0, "return": 0, "tail_expr": 0}
        self.shards = 0
        self.samples = []

    def add(self, r):
        self.n += r["n"]
        self.nhook += r["nhook"]
        self.nfails += r["nfails"]
        self.fails += r["fails"]
        self.states |= r["states"]
        self.samples += r["samples"]
        del self.samples[6:]
        self.trans |= r["trans"]
        for k in self.fired:
            self.fired[k] += r["fired"][k]
        self.shards += 1


def parallel(jobs_iter, worker, on_result, stop=lambda: False, jobs=None):
    """fork one process per job (args tuple), at most JOBS at a time"""
    ctx = mp.get_context("fork")
    live = []
    it = iter(jobs_iter)
    done = False
    jobs = jobs or JOBS
    try:
        while True:
            while not done and len(live) < jobs and not stop():
                try:
                    a = next(it)
                except StopIteration:
                    done = True
                    break
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=worker, args=(w, a))
                p.start()
                w.close()
                live.append((p, r))
            if not live:
                break
            ready = mp.connection.wait([r for _, r in live], timeout=900)
            if not ready:
                raise ToolError("worker stalled")
            for p, r in list(live):
                if r in ready:
                    try:
                        st, val = r.recv()
                    except EOFError:
                        raise ToolError("a worker died")
                    p.join()
                    live.remove((p, r))
                    if st != "ok":
                        raise ToolError(val)
                    on_result(val)
            if stop():
                done = True
    finally:
        for p, _ in live:
            p.terminate()
            p.join()


import multiprocessing.connection  # noqa: E402


def run_cases(cases, hooq, canon, flavors, manifest_dir, consume=True, shard=500, limit_fails=60, deadline=None):
    res = Result()

    def shards():
        it = iter(cases)
        size = 60
        while True:
            chunk = list(itertools.islice(it, size))
            if not chunk:
                return
            yield (hooq, canon, chunk, flavors, manifest_dir, consume)
            size = shard

    parallel(shards(), _worker, res.add, stop=lambda: res.nfails > limit_fails)
    return res


def _gworker(conn, args):
    """one job: several groups, each with its own hooq.toml"""
    hooq, canon, groups, consume = args
    from .common import project
    acc = None
    try:
        for toml, cases, flavors in groups:
            work = tempfile.mkdtemp(prefix="hq-")
            d = project(toml)
            try:
                r = run_shard(hooq, canon, cases, flavors, d, consume, work)
                for f in r["fails"]:
                    f.files = {"hooq.toml": toml or ""}
            finally:
                shutil.rmtree(work, ignore_errors=True)
                shutil.rmtree(d, ignore_errors=True)
            if acc is None:
                acc = r
            else:
                for k in ("n", "nfails", "nhook"):
                    acc[k] += r[k]
                acc["fails"] += r["fails"]
                acc["samples"] += r["samples"]
                acc["states"] |= r["states"]
                acc["trans"] |= r["trans"]
                for k in acc["fired"]:
                    acc["fired"][k] += r["fired"][k]
        conn.send(("ok", acc))
    except ToolError as e:
        conn.send(("tool", str(e)))
    except BaseException:
        conn.send(("tool", traceback.format_exc()))
    finally:
        conn.close()


def run_groups(groups, hooq, canon, consume=True, per_job=4, limit_fails=60):
    """groups: iterable of (hooq.toml text, cases, flavors)"""
    res = Result()

    def jobs():
        it = iter(groups)
        while True:
            chunk = list(itertools.islice(it, per_job))
            if not chunk:
                return
            yield (hooq, canon, chunk, consume)

    parallel(jobs(), _gworker, res.add, stop=lambda: res.nfails > limit_fails)
    return res
