"""P25: an expansion depends on nothing but the program and its configuration: not on hash seeds, nor on the environment of the process."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import tempfile
import time
from ..common import *
from .. import build, run
from ..build import ToolError
from .p13 import toml_of
from .p17 import BAD

BOUNDS = {
    "quick": "programs: all assignments of 3 bindings to {absent, hooq.toml, outer, inner attribute} x 5 templates (one naming an unknown variable); projects: 3 flavors (a preset, a new one, default) x {absent, two settings, two mistakes} "
             "with sub-flavors, all projects without mistakes over 4 flavors, 6 ways to name a flavor (half of them unknown); all triples of 10 look-alike names as bindings, flavors and sub-flavors; pairs of malformed attributes; each expanded (and its messages recorded) under every one of 64 hash seeds (every relative order of any 3 names "
             "occurs in every map), and under each change of 14 environment variables, the working directory, the thread count",
    "thorough": "as quick with 4 bindings, 500 seeds (every order of any 4 names), all pairs of malformed attributes and of environment variables",
}
SHIM = r"""
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
static uint64_t n;
ssize_t getrandom(void *b, size_t len, unsigned flags) {
    const char *s = getenv("HQ_HASH_SEED");
    uint64_t x = (s ? strtoull(s, 0, 10) : 0) * 0x9E3779B97F4A7C15ull + __sync_fetch_and_add(&n, 1) * 0xD1B54A32D192ED03ull + 1;
    for (size_t i = 0; i < len; i++) {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        ((uint8_t *)b)[i] = (uint8_t)(z ^ (z >> 31));
    }
    return len;
}
"""
# prints, for each of `argv[1]` hash maps in a row, the order in which it yields the names given
PROBE = """use std::collections::HashMap;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[1].parse().unwrap();
    for _ in 0..n {
        let mut m = HashMap::new();
        for (i, k) in a[2..].iter().enumerate() { m.insert(k.clone(), i); }
        println!("{}", m.values().map(|i| i.to_string()).collect::<Vec<_>>().join(" "));
    }
}
"""
NAMES = {3: ["s", "t", "log"], 4: ["s", "t", "log", "x"]}


def shim():
    d = os.path.join(build.CACHE, "hashseed")
    with build.Lock("hashseed"):
        os.makedirs(d, exist_ok=True)
        so, pr = os.path.join(d, "libseed.so"), os.path.join(d, "probe")
        for src, text, cmd in ((os.path.join(d, "seed.c"), SHIM, ["gcc", "-O1", "-shared", "-fPIC", "-o", so]), (os.path.join(d, "probe.rs"), PROBE, ["rustc", "-O", "-o", pr])):
            if not (os.path.exists(cmd[-1]) and os.path.exists(src) and open(src).read() == text):
                with open(src, "w") as f:
                    f.write(text)
                r = subprocess.run(cmd + [src], env=build.env(), capture_output=True, text=True)
                if r.returncode:
                    raise ToolError("the hash seed shim does not build:\n" + r.stderr)
    return so, pr


def seeded(seed, so):
    return {"LD_PRELOAD": so, "HQ_HASH_SEED": str(seed)}


def orders_covered(so, probe, seeds, k):
    """every order of k names occurs under the seeds, for the first maps of a process"""
    maps = 40
    seen = [set() for _ in range(maps)]
    for s in seeds:
        out = subprocess.run([probe, str(maps), *NAMES[k]], env=build.env(**seeded(s, so)), capture_output=True, text=True).stdout
        for i, ln in enumerate(out.splitlines()):
            seen[i].add(ln)
    return min(len(x) for x in seen), set().union(*seen)


# ---- programs
TPL = {"all": ".h($bindings)", "meta": ".h($hooq_meta)", "each": ".h({})", "unknown": ".h($nowhere)", "repl": "w($expr, $bindings)"}
ATTRS = ["method(.h1($nth))", 'hook_targets("bogus")', "binding(x)", "method = nope", 'tail_expr_idents(1)', "result_types(Result)", "hook_in_macros(1)", "flavor = nope", "unknown", "skip(1)", "binding(a::b = 1)", "bindings = nope"]


def bind_items(c):
    """(toml, item)"""
    names = ["s", "t", "log", "x"][:4 if c.thorough else 3]
    for where in itertools.product(("-", "toml", "outer", "inner", "both"), repeat=len(names)):
        on = [n for n, w in zip(names, where) if w != "-"]
        toml = {"default": {"bindings": {n: f'"toml {n}"' for n, w in zip(names, where) if w == "toml"}}}
        at = {p: " ".join(f'#[hooq::{n} = "{p} {n}"]' for n, w in zip(names, where) if w == p or w == "both") for p in ("outer", "inner")}
        for t, tpl in TPL.items():
            if t == "each" and not on:
                continue
            tpl = tpl.format(", ".join("$" + n for n in on))
            yield toml, "", f"#[hooq::method({tpl})] {at['outer']} fn f() -> Result<i32, String> {{ a1?; {at['inner']} {{ a2?; g(|| -> Result<i32, i32> {{ a3 }}) }} a4 }}", f"bindings:{','.join(where)}:{t}"


KIND = {"-": None, "method": {"method": ".h2($nth)"}, "bind": {"bindings": {"s": "1", "t": "2", "log": "3"}}, "badbind": {"bindings": {"s": "1 +", "t": "2 -", "log": ")"}},
        "baduse": {"trait_uses": ["a b", "c d"]}}
ROOTS = ["", "x", "x::s", "nope", "x::nope", "log::nope::more"]
FBODY = "fn f() -> Result<i32, String> {{ a1?; #[hooq::method({})] {{ a2?; }} a4 }}"


def flavor_items(c):
    for ks in itertools.product(KIND, repeat=3):
        toml = {n: dict(KIND[k]) for n, k in zip(("x", "log", "default"), ks) if KIND[k] is not None}
        for r in ROOTS[:2] + ROOTS[3:4] if not c.thorough else ROOTS:
            yield toml, r, FBODY.format(".h1($nth)"), f"flavors:{','.join(ks)}:{r}"
    for ks in itertools.product(KIND, repeat=3):
        toml = {"x": {"sub": {n: dict(KIND[k]) for n, k in zip(("s", "t", "log"), ks) if KIND[k] is not None}}}
        for r in ROOTS[2:5] if not c.thorough else ROOTS:
            yield toml, r, FBODY.format(".h1($bindings)"), f"sub-flavors:{','.join(ks)}:{r}"


def resolve_items(c):
    """projects without mistakes: what a flavor inherits and which bindings it ends up with"""
    good = {"-": None, "method": {"method": ".h2($nth)"}, "bind": {"bindings": {"s": "1", "t": "2"}}, "targets": {"hook_targets": ["?"], "bindings": {"t": "3"}}}
    for ks in itertools.product(good, repeat=4):
        x, d, xs, xt = (good[k] for k in ks)
        toml = {n: dict(v) for n, v in (("x", x), ("default", d)) if v is not None}
        for n, v in (("s", xs), ("t", xt)):
            if v is not None:
                toml.setdefault("x", {}).setdefault("sub", {})[n] = dict(v)
        for r in [""] + ["x"] * ("x" in toml) + ["x::s"] * (xs is not None) + ["x::t"] * (xt is not None):
            yield toml, r, FBODY.format(".h1($bindings)"), f"resolve:{','.join(ks)}:{r}"


def attr_items(c):
    al = BAD if c.thorough else ATTRS
    for a, d in itertools.product(al, al):
        yield {}, "", f"#[hooq::{a}] #[hooq::{d}] fn f() -> Result<i32, String> {{ a1?; a4 }}", f"attributes:{a}/{d}"
    for a, d in itertools.combinations(ATTRS, 2):
        yield {}, "", f"fn f() -> Result<i32, String> {{ #[hooq::{a}] {{ a1?; }} #[hooq::{d}] {{ a2?; }} a4 }}", f"siblings:{a}/{d}"


POOL = ["a", "b", "ab", "ba", "A", "Ab", "a_b", "a1", "bb", "Ö"]


def name_items(c):
    """every triple of names that agree in length, first or last letter, case, prefix, ..: no order but that of the whole name tells them apart"""
    for ns in itertools.combinations(POOL, 3):
        for where in itertools.product(("toml", "outer", "inner"), repeat=3) if c.thorough else (("outer",) * 3, ("toml",) * 3, ("inner",) * 3, ("outer", "inner", "toml")):
            toml = {"default": {"bindings": {n: f'"toml {n}"' for n, w in zip(ns, where) if w == "toml" and n.isascii()}}}
            at = {p: " ".join(f'#[hooq::{n} = "{p} {n}"]' for n, w in zip(ns, where) if w == p) for p in ("outer", "inner")}
            for t in ("all", "meta", "unknown") if c.thorough else ("all",):
                yield toml, "", f"#[hooq::method({TPL[t]})] {at['outer']} fn f() -> Result<i32, String> {{ a1?; {at['inner']} {{ a2?; }} a4 }}", f"names:{','.join(ns)}:{','.join(where)}:{t}"
        if all(n.isascii() for n in ns):
            for kind in ("method", "badbind", "baduse", "bad"):
                d = dict(KIND[kind]) if kind != "bad" else {"method": "h("}
                if kind == "method" or c.thorough or len(set(map(len, ns))) < 3:
                    yield {n: dict(d) for n in ns}, "nope", FBODY.format(".h1($nth)"), f"names-toml:{','.join(ns)}:{kind}"
                    yield {"x": {"sub": {n: dict(d) for n in ns}}}, "x::nope", FBODY.format(".h1($nth)"), f"names-sub:{','.join(ns)}:{kind}"


def make(top, items):
    """-> (source text, [(first line, last line, key, project)])"""
    dirs, parts, where = {}, [], []
    line = run.STUB_LINES + 1
    for i, (toml, root, body, key) in enumerate(items):
        t = toml_of(toml)
        if t not in dirs:
            p = os.path.join(top, f"d{len(dirs)}")
            os.makedirs(p)
            with open(os.path.join(p, "Cargo.toml"), "w") as f:
                f.write('[package]\nname = "k"\nversion = "0.1.0"\n[dependencies]\nhooq = "0.3"\n[workspace]\n')
            if t:
                with open(os.path.join(p, "hooq.toml"), "w") as f:
                    f.write(t)
            dirs[t] = p
        parts.append(f'mod c{i} {{ use crate::p::*; ::envset::step!{{ "{dirs[t]}" #[::hooq::hooq' + (f"({root})" if root else "") + f"] {body} }} }}\n")
        where.append((line, key, parts[-1], t))
        line += 1
    return run.STUBS + "".join(parts), where, next(iter(dirs.values()))


def compiler():
    """the compiler itself: rustup's proxy would look at the environment, too"""
    r = subprocess.run(["rustc", "--print", "sysroot"], env=build.env(), capture_output=True, text=True)
    if r.returncode:
        raise ToolError(r.stderr)
    return os.path.join(r.stdout.strip(), "bin", "rustc")


def one(hooq, work, name, start, env, cwd=None, threads=None):
    """what the compiler prints, and the messages"""
    cmd = run.rustc_cmd(hooq, os.path.join(work, name), extra=["-Zunpretty=expanded", "--error-format=short", "--cap-lints=allow"] + (["-Zthreads=%d" % threads] if threads else []))
    r = subprocess.run([hooq["rustc"]] + cmd[1:], cwd=cwd or work, env=dict(run.rustc_env(start), **env), capture_output=True, text=True, timeout=600)
    if r.returncode and not r.stdout:
        raise ToolError("a program does not expand:\n" + r.stderr[-3000:])
    return r.stdout, r.stderr


def split(out, err, where):
    """per item: its expansion and its messages"""
    d = {}
    for ch in out.split("\nmod c")[1:]:
        k, _, t = ch.partition(" {")
        if k.isdigit():
            d[int(k)] = t
    msgs, cur = {}, None
    for ln in err.split("\n"):
        mo = re.match(r"[\w./-]*\.rs:(\d+):\d+: error", ln)
        if mo:
            cur = int(mo.group(1))
        elif re.match(r"[\w./-]*\.rs:\d+:\d+: |error: aborting", ln):
            cur = None
        if cur is not None:
            msgs.setdefault(cur, []).append(ln)
    l0 = where[0][0]
    return {i: (d.get(i), tuple(msgs.get(l0 + i, ()))) for i in range(len(where))}


ENVS = [("HOME", "/nonexistent"), ("USER", "somebody"), ("LANG", "ja_JP.UTF-8"), ("LC_ALL", "C"), ("TZ", "Asia/Tokyo"), ("COLUMNS", "20"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("RUST_BACKTRACE", "1"), ("CARGO_PKG_NAME", "hooq"),
        ("CARGO_PKG_VERSION", "9.9.9"), ("CARGO_CRATE_NAME", "zz"), ("OUT_DIR", "/nonexistent/out"), ("PROFILE", "release")]


def difference(a, b, where, what):
    for i in range(len(where)):
        if a[i] != b[i]:
            f = run.Failure(where[i][1], f"the result depends on {what}", where[i][2], where[i][2], "\n".join([str(b[i][0]), *b[i][1]]), "\n".join([str(a[i][0]), *a[i][1]]))
            f.files = {"hooq.toml": where[i][3]}
            yield f


def explore(c, name, items, seeds, so, envs=()):
    t0 = time.time()
    hooq = dict(c.hooq(), extra=build.ensure_envset(), rustc=compiler())
    work = tempfile.mkdtemp(prefix="hq-")
    fails, n = {}, 0
    try:
        text, where, start = make(work, items)
        with open(os.path.join(work, "s.rs"), "w") as f:
            f.write(text)
        runs = [("the hash seed (%d)" % s, seeded(s, so), {}) for s in seeds]
        for k in (1, 2) if c.thorough else (1,):
            for vs in itertools.combinations(envs, k):
                runs.append(("the environment (%s)" % ", ".join("=".join(v) for v in vs), dict(seeded(0, so), **dict(vs)), {}))
        if envs:
            os.mkdir(os.path.join(work, "elsewhere"))
            with open(os.path.join(work, "elsewhere", "hooq.toml"), "w") as f:
                f.write('[default]\nmethod = ".elsewhere()"\n')
            runs += [("the working directory", seeded(0, so), {"cwd": os.path.join(work, "elsewhere")}), ("the number of compiler threads", seeded(0, so), {"threads": 4})]
        base = None
        with cf.ThreadPoolExecutor(run.JOBS) as ex:
            outs = ex.map(lambda r: one(hooq, work, "s.rs" if "cwd" not in r[2] else os.path.join(work, "s.rs"), start, r[1], **r[2]), runs)
            for (what, _, kw), (out, err) in zip(runs, outs):
                if base is None:
                    base = out, err
                    sb = split(out, err, where)
                    nexp = sum(x[0] is not None for x in sb.values())
                    nerr = sum(bool(x[1]) for x in sb.values())
                    if nexp != len(where):
                        raise ToolError(f"{name}: {len(where) - nexp} items are missing from the output\n{err[-2000:]}")
                n += len(where)
                if (out, err) != base:
                    for f in difference(sb, split(out, err, where), where, what):
                        fails.setdefault(f.key, f)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    c.record(name, n, list(fails.values()), states={run.h8((name, w[1])) for w in where}, trans={run.h8((name, i, r[0])) for i, r in enumerate(runs)},
             programs=len(where), programs_with_messages=nerr, runs=len(runs), seconds=round(time.time() - t0, 1))
    c.sample(where[len(where) // 2][1] + "\n" + where[len(where) // 2][2])


def check(c):
    so, probe = shim()
    k = 4 if c.thorough else 3
    seeds = range(500 if c.thorough else 64)
    least, all_ = orders_covered(so, probe, seeds, k)
    c.notes["hash orders"] = {"names": k, "orders seen overall": len(all_), "least number of orders seen by one map": least}
    if least < [1, 1, 2, 6, 24][k]:
        raise ToolError(f"the seeds do not produce every order of {k} names")
    explore(c, "bindings", list(bind_items(c)), seeds, so)
    explore(c, "flavors", list(flavor_items(c)), seeds, so)
    explore(c, "resolution", list(resolve_items(c)), seeds, so)
    explore(c, "malformed attributes", list(attr_items(c)), seeds, so)
    explore(c, "names", list(name_items(c)), seeds, so)
    some = [x for g in (bind_items, name_items, flavor_items, resolve_items, attr_items) for x in list(g(c))[::7]]
    explore(c, "environment", some, [0], so, ENVS)
