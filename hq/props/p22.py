"""P22: the compiler's reports about annotated code are the ones about the same code without hooks, at the same places."""
import json
import os
import shutil
import subprocess
import tempfile
import time
import traceback
from ..common import *
from .. import run, sem
from ..build import ToolError
from ..run import parallel, h8

BOUNDS = {
    "quick": "26 mistakes and 12 lints of the user (unresolved names, types, borrows, unsafety, unused things, ...) in every typed slot and all chains to length 2 over 37 slots, x 5 methods; "
             "every error and warning (code, level, line, columns) compared with those of the same file without hooks",
    "thorough": "as quick with all chains to length 2 over all slots",
}
PRE = sem.PRELUDE.replace("#![allow(warnings)]", "").split("fn exec(")[0]
PRE = "mod base { #![allow(warnings)]\n" + PRE.replace("fn bit(", "pub fn bit(") + """
pub trait Nop: Sized { fn nop(self) -> Self { self } fn nopn(self, _: usize, _: &str) -> Self { self } fn nopf(self, _: impl FnOnce()) -> Self { self } }
impl<T> Nop for T {}
pub fn idf<T>(t: T, _: usize) -> T { t }
pub unsafe fn uns(n: i32) -> i32 { n }
#[must_use] pub fn must() -> i32 { 1 }
#[deprecated] pub fn old(n: i32) -> i32 { n }
pub struct Pv { f: i32 }
pub mod inn { fn hidden(n: i32) -> i32 { n } }
pub fn other() -> Result<i32, String> { Ok(1) }
}
"""
METH = {"insert": ".nop()", "args": ".nopn($line, $nth)", "closure": ".nopf(|| { let path = $path; let expr = stringify!($source); let _ = (path, expr); })",
        "replace": "idf($expr, $line)", "match": "match $expr { r => r }"}
LOOSE = ("unused_parens", "unused_braces")
# phase: {name: (code, type)}; one compilation per phase, since rustc stops at the first phase with errors
BAD = {
    "resolve": {"name": ("nope", "I"), "fn": ("nope(1)", "R"), "path": ("crate::nope::x(1)", "R"), "struct": ("Nope { x: 1 }.x", "I"), "type": ("Vec::<Nope>::new().len() as i32", "I"),
                "label": ("{ loop { break 'nolabel; } }", "I"), "inner": ("v(nope)", "I"), "clo": ("(|a: i32| a + nope)(1)", "I"), "arg": ("p(nope)", "R"), "private": ("inn::hidden(1)", "I")},
    "macro": {"mac": ("nomac!(1)", "I"), "mac2": ("std::nomac!(p(1)?)", "R")},
    "type": {"arg": ('v("s")', "I"), "argr": ('p("s")', "R"), "count": ("v(1, 2)", "I"), "method": ("v(1).nomethod()", "I"), "field": ("S { x: 1, y: 2 }.z", "I"), "let": ('{ let _a: i32 = "s"; v(1) }', "I"),
             "cast": ('{ let _a = "s" as i32; v(1) }', "I"), "op": ("{ let _a = 1i32 + \"s\"; v(1) }", "I"), "bound": ("{ drop::<Box<dyn Fn()>>(1); p(1) }", "R"), "missing": ("S { x: 1 }.x", "I"),
             "privf": ("{ let _ = |a: Pv| a.f; v(1) }", "I"), "deref": ("*v(1)", "I"), "q-not": ("v(1)?", "I"), "q-conv": ("other()?", "I")},
    "borrow": {"moved": ("{ let s = String::new(); drop(s); drop(s); v(1) }", "I"), "uninit": ("{ let a: i32; v(a) }", "I"), "twice": ("{ let a = 1; a = 2; v(a) }", "I"), "mutb": ("{ let s = String::new(); s.push('a'); p(1) }", "R"),
               "dangle": ("{ let r; { let a = 1; r = &a; } v(*r) }", "I"), "alias": ("{ let mut a = vec![1]; let r = &a; a.push(1); v(r[0]) }", "I"), "unsafe": ("uns(1)", "I")},
    "lint": {"var": ("{ let unused = 1; v(1) }", "I"), "mut": ("{ let mut a = 1; v(a) }", "I"), "must": ("{ must(); v(1) }", "I"), "mustr": ("{ p(1); v(1) }", "I"), "parens": ("v((1))", "I"), "dep": ("old(1)", "I"),
             "assign": ("{ let mut a = 1; a = 2; v(a) }", "I"), "stmt": ("{ 1 + 1; v(1) }", "I"), "braces": ("v({ 1 })", "I"), "unsafe": ("unsafe { v(1) }", "I"), "case": ("{ let aB = 1; v(aB) }", "I"), "clean": ("v(1)", "I"), "cleanr": ("p(1)", "R"),
             "ovf": ("{ while true { break; } v(1) }", "I"), "unreach": ("{ if v(1) > 0 { return Ok(1); } v(2) }", "I")},
}
MID = ["try", "q", "err", "unwrap-or", "add-r", "arg2", "recv", "array", "block-tail", "let-init", "then-tail", "elif-tail", "arm", "guard", "and", "loop-break", "for-body", "mac-arg", "assign",
       "rthen-tail", "rarm-block", "rblock-tail", "rlet-init", "rlabel-break", "rmac-one", "rdiscard", "letelse-init", "letelse-else", "ret-if", "match-r", "and-then", "or-else", "clo", "clo-res", "async",
       "inner-fn", "inner-mod"]


def texts(ch, code, typ, meth):
    """-> annotated, plain; same layout"""
    out = []
    for plain in (False, True):
        N = sem.Pts(False)
        n = atom(code)
        if code[0] in "*{" or "{" in code or " as " in code:
            n = par(n)
        for name in reversed(ch):
            n = sem.T[name][2](n, N)
        b = Buf(plain=plain)
        if (sem.T[ch[0]][1] if ch else typ) == "R":
            body_ = blk(stmt(N.v()), tail=fit(n, stmt=True))
        else:
            body_ = blk(Let("z", n), tail=X("Ok(z)", label="call", call="Ok"))
        Fn(body_, name="f", ret="Result<i32, E>", quals="pub ").emit(b)
        head = "" if plain else f"#[::hooq::hooq] #[hooq::method({METH[meth]})]"
        out.append(head + "\n" + b.text() + "\n")
    return out


def diags(hooq, text, mdir):
    work = tempfile.mkdtemp(prefix="hq22-")
    try:
        with open(os.path.join(work, "main.rs"), "w") as f:
            f.write(text)
        cmd = ["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", "k", "--emit=metadata", "--error-format=json", "-Wunused", "-Wnonstandard-style",
               "--extern", "hooq=" + hooq["rlib"], "-L", "dependency=" + hooq["deps"], "-o", os.path.join(work, "o"), "main.rs"]
        r = subprocess.run(cmd, cwd=work, env=run.rustc_env(mdir), capture_output=True, text=True, errors="replace", timeout=300)
        out = {}
        for ln in r.stderr.splitlines():
            if not ln.startswith("{"):
                raise ToolError("rustc: " + r.stderr[-2000:])
            d = json.loads(ln)
            sp = [s for s in d["spans"] if s["is_primary"]]
            if not sp:
                if "aborting due to" in d["message"] or "warning" in d["message"] or "have detailed" in d["message"] or d["message"].startswith("For more"):
                    continue
                out.setdefault(0, []).append((d["level"], d["message"]))
                continue
            s = sp[0]
            code = (d.get("code") or {}).get("code") or d["message"][:60]
            out.setdefault(s["line_start"], []).append((d["level"], code, s["column_start"], s["line_end"] - s["line_start"], s["column_end"], d["message"]))
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def chunk(hooq, phase, progs, mdir):
    ann, pla = [PRE], [PRE]
    line = PRE.count("\n") + 1
    at = []
    for i, (key, ch, code, typ, meth) in enumerate(progs):
        a, p = texts(ch, code, typ, meth)
        assert a.count("\n") == p.count("\n")
        for l, t in ((ann, a), (pla, p)):
            l.append(f"pub mod c{i} {{ #[allow(unused_imports)] use crate::base::*;\n{t}}}\n")
        at.append((line, line + a.count("\n") + 2))
        line += a.count("\n") + 2
    ga, gp = diags(hooq, "".join(ann), mdir), diags(hooq, "".join(pla), mdir)
    fails, n = [], 0

    def norm(k, x, key):
        level, code, c0, dl, c1, _ = x
        if code == "E0277" and key.startswith("type:q-"):
            c0 = "?"                # the operator with or without its operand; what counts is the `?` it ends with
        return (k, level, code, c0, dl, c1)

    def part(g, lo, hi, key):
        return sorted(norm(k - lo, x, key) for k in range(lo, hi) for x in g.get(k, []))

    def msgs(g, lo, hi):
        return "\n".join(f"{k - lo}: {x}" for k in range(lo, hi) for x in g.get(k, []))
    for i, (key, ch, code, typ, meth) in enumerate(progs):
        lo, hi = at[i]
        n += 1
        a, p = part(ga, lo, hi, key), part(gp, lo, hi, key)
        if phase != "lint" and not any(x[1] == "error" for x in p) and ("unsafe" not in key or "unsafe" not in pla[i + 1]):
            raise ToolError(f"{key}: the mistake is not reported without hooks\n" + pla[i + 1] + str(gp.get(0)))
        if phase == "lint" and any(x[1] == "error" for x in p):
            raise ToolError(f"{key}: does not compile without hooks\n" + pla[i + 1] + msgs(gp, lo, hi))
        # whether parentheses of the user's are redundant depends on what stands around them, and that may now be a hook; all else is compared
        a, p = [x for x in a if x[2] not in LOOSE], [x for x in p if x[2] not in LOOSE]
        if a != p:
            fails.append(Failure(key, "the compiler's reports differ from those without hooks", ann[i + 1], pla[i + 1], msgs(ga, lo, hi), msgs(gp, lo, hi)))
    return n, fails, {h8(x[0]) for x in progs}, {h8((x[1][-1:], x[2], x[4])) for x in progs}


def worker(conn, args):
    try:
        conn.send(("ok", chunk(*args)))
    except ToolError as e:
        conn.send(("tool", str(e)))
    except BaseException:
        conn.send(("tool", traceback.format_exc()))
    finally:
        conn.close()


def programs(c, phase):
    for name, (code, typ) in BAD[phase].items():
        for d in (0, 1, 2):
            if d == 0:
                chs = [()] if True else []
            else:
                lt = typ
                sem.LEAF["bad"] = (lt, None)
                chs = list(sem.typed_chains(d, None if d == 1 or c.thorough else MID, leaf="bad"))
            for ch in chs:
                for meth in METH if d < 2 else ("insert", "replace"):
                    if name.startswith("q-") and meth == "match":
                        continue        # syn puts a nested `match .. {}?` into parentheses of its own: no place of the user's is left for the `?`
                    yield (f"{phase}:{name}:{'/'.join(ch)}:{meth}", ch, code, typ, meth)


def check(c):
    hooq, mdir = c.hooq(), project()
    for phase in BAD:
        t0 = time.time()
        tot = {"n": 0, "f": [], "nf": 0}
        states, trans = set(), set()

        def jobs():
            it = iter(programs(c, phase))
            while True:
                ch = list(itertools.islice(it, 250))
                if not ch:
                    return
                yield hooq, phase, ch, mdir

        def add(r):
            tot["n"] += r[0]
            tot["f"] += r[1][:40]
            tot["nf"] += len(r[1])
            states.update(r[2])
            trans.update(r[3])
        parallel(jobs(), worker, add, stop=lambda: tot["nf"] > 60)
        c.record(phase, tot["n"], tot["f"], states, trans, seconds=round(time.time() - t0, 1))
