"""P18: observing hooks leave a program's behaviour alone, and see every hooked value exactly once."""
import os
import re
import time
import shutil
import tempfile
import traceback
from ..common import *
from .. import exe, sem
from ..build import ToolError
from ..run import parallel, h8

BOUNDS = {
    "quick": "86 typed slots (every construct with its evaluation order) in all chains to length 2 over 3 kinds of leaf (the one with a droppable temporary also under two replacing methods) and to length 3 over 37 of them (over 19 with the droppable temporary under three methods), also with every other operand a site; "
             "all 8 target sets x 5 methods x chains to length 2 over 13 slots; 10 settings on each element of these chains and 25 pairs; every program under every combination of failing calls; "
             "40 everyday programs x 7 method forms x every combination of failing calls; these and chains to length 2 over 13 slots also under editions 2018 and 2021",
    "thorough": "as quick with all chains to length 3 over all slots and two leaves, length 4 over 13 slots, settings and targets over 37 slots",
}
HK = ".hk($line, $col, $nth)"
METH = {"i": (HK, "both"), "r": ("hkf($expr, $line, $col, $nth)", "both"),
        "m": ("match $expr { Err(e) => { log(format!(\"h{}:{} {} Err({:?})\", $line, $col, $nth, e)); Err(e) } ok => ok }", "err"),
        "c": (".inspect_err(|e| { let path = $path; let line = $line; let col = $col; log(format!(\"h{line}:{col} {} Err({e:?})\", $nth)); })", "err"),
        "s": (".hk($line, $col, concat!($nth, \"\"))", "both")}


class Prog:
    """key, build() -> (fn node, number of failure points); flavor: Flavor"""

    def __init__(self, key, mk, attrs, ret="Result<i32, E>", quals="", mode="both", flavor=None, maxbits=10, busy=False):
        self.key, self.mk, self.attrs, self.ret, self.quals, self.mode, self.flavor, self.maxbits, self.busy = key, mk, attrs, ret, quals, mode, flavor, maxbits, busy

    def build(self):
        N = sem.Pts(self.busy)
        b = self.mk(N)
        f = Fn(b, name="f", ret=self.ret, quals="pub " + self.quals, attrs=self.attrs)
        f.body_sem = b.sem
        return f, N.k


def run_progs(hooq, progs, mdir, edition="2024"):
    """-> executions, failures, states, transitions"""
    cov = (set(), set())
    text = [sem.PRELUDE]
    line = sem.PRELUDE_LINES + 1
    built = []
    for i, pr in enumerate(progs):
        f, k = pr.build()
        if k > pr.maxbits:
            raise ToolError(f"{pr.key}: {k} failure points")      # callers choose chains that stay below
        b = Buf(line)
        b.w(f"mod c{i} {{ use crate::*; #[::hooq::hooq] ")
        f.emit(b)
        b.w(" }\n")
        t = b.text()
        m = Model(path="main.rs", flavors=STD, cov=cov)
        m.text = t
        f.walk(m, ctx_of(pr.flavor or STD["default"]))
        f2, _ = pr.build()
        b2 = Buf(plain=True)
        b2.w(f"mod n{i} {{ use crate::*; ")
        f2.emit(b2)
        b2.w(" }\n")
        text += [t, b2.text()]
        line += t.count("\n") + b2.text().count("\n")
        built.append((pr, f, k, t, b2.text()))
    main = "fn main() { " + " ".join(f'exec("c{i}", {k}, c{i}::f); exec("n{i}", {k}, n{i}::f);' if not built[i][0].quals else
                                    f'exec("c{i}", {k}, || block_on(c{i}::f())); exec("n{i}", {k}, || block_on(n{i}::f()));' for i, (_, _, k, _, _) in enumerate(built)) + " }\n"
    ok, diag, rc, out, err = exe.build_and_run(hooq, "".join(text) + main, mdir, edition=edition)
    fails = []
    if not ok:
        # which program? drop the ones whose own lines carry an error
        at = set(int(x) for x in re.findall(r"--> main\.rs:(\d+):", diag))
        ln = sem.PRELUDE_LINES + 1
        bad = []
        for i, (pr, f, k, t, t2) in enumerate(built):
            n = t.count("\n")
            if any(ln <= a < ln + n for a in at):
                bad.append(i)
            ln += n
            if any(ln <= a < ln + t2.count("\n") for a in at):
                raise ToolError(f"the plain program of {pr.key} does not compile:\n{t2}\n" + diag[:3000])
            ln += t2.count("\n")
        if not bad:
            raise ToolError("programs do not compile:\n" + diag[:4000])
        for i in bad:
            pr, f, k, t, t2 = built[i]
            fails.append(Failure(pr.key, "the annotated program does not compile, the plain one does", t, t2, diag[:3000], "compiles"))
        return len(bad), fails, cov, 0
    got = {}
    for ln in out.split("\n"):
        if ln:
            n, bits, rest = ln.split(" ", 2)
            got[n, int(bits)] = rest
    n = events = 0
    for i, (pr, f, k, t, t2) in enumerate(built):
        for bits in range(1 << k):
            n += 1
            g, p = got.get((f"c{i}", bits)), got.get((f"n{i}", bits))
            if p is None:
                raise ToolError(f"{pr.key}: no trace of the plain program\n{err[-2000:]}")
            vm = sem.VM(bits, pr.mode)
            try:
                r = f.body_sem(vm)
                hk = None
            except sem.Return as e:
                r = e.v
            want = ",".join(vm.t) + f" => {sem.show(r)}"
            wplain = ",".join(x for x in vm.t if x[0] != "h") + f" => {sem.show(r)}"

            def strip(s, kinds):
                if s is None:
                    return "<none>"
                a, _, z = s.rpartition(" => ")
                return ",".join(x for x in a.split(",") if x and x[0] not in kinds) + " => " + z
            if strip(p, "d") != wplain:
                raise ToolError(f"{pr.key} bits {bits}: the plain program runs as {p}, the semantics says {wplain}\n{t2}")
            events += sum(x[0] == "h" for x in vm.t)
            for kind, a, b_ in (("behaviour differs from the program without hooks", strip(g, "h"), strip(p, "")), ("hook events differ", strip(g, "d"), want)):
                if a != b_:
                    fails.append(Failure(f"{pr.key}:{bits:b}", kind, t, t2, g or "<none>", b_, err[-500:]))
                    break
    return n, fails, cov, events


def _worker(conn, args):
    try:
        n, fails, cov, events = run_progs(*args)
        conn.send(("ok", (n, fails[:20], len(fails), {h8(x) for x in cov[0]}, {h8(x) for x in cov[1]}, events)))
    except ToolError as e:
        conn.send(("tool", str(e)))
    except BaseException:
        conn.send(("tool", traceback.format_exc()))
    finally:
        conn.close()


def explore(c, name, progs, shard=120, edition="2024"):
    t0 = time.time()
    mdir = project()
    hooq = c.hooq()
    tot = {"n": 0, "fails": [], "nf": 0, "ev": 0, "p": 0}
    states, trans = set(), set()

    def jobs():
        it = iter(progs)
        while True:
            chunk = list(itertools.islice(it, shard))
            if not chunk:
                return
            tot["p"] += len(chunk)
            yield hooq, chunk, mdir, edition

    def add(r):
        tot["n"] += r[0]
        tot["fails"] += r[1]
        tot["nf"] += r[2]
        states.update(r[3])
        trans.update(r[4])
        tot["ev"] += r[5]
    parallel(jobs(), _worker, add, stop=lambda: tot["nf"] > 60)
    c.record(name, tot["n"], tot["fails"], states, trans, programs=tot["p"], hook_events=tot["ev"], seconds=round(time.time() - t0, 1))



TGT = ["?", "return", "tail_expr"]


def prog(key, ch, leaf="p", meth="i", attrs=(), attrs_at=None, quals="", flavor=None, busy=False):
    want = sem.T[ch[0]][1] if ch else sem.LEAF[leaf][0]
    tpl, mode = METH[meth]

    def mk(N):
        n = sem.build(ch, leaf, N, attrs_at)
        if want == "R":
            return sem.sblk(sem.st(N.v()), tail=n)
        z = sem.sem(X("Ok(z)", label="call", call="Ok"), None)
        box = {}
        z.sem = lambda vm: ("Ok", box["z"])
        b = blk(Let("z", n), tail=z)

        def run(vm):
            box["z"] = sem.ev(n, vm)
            return sem.ev(z, vm)
        b.sem = run
        return b
    return Prog(f"{key}:{'/'.join(ch)}:{leaf}:{meth}", mk, [("method", tpl)] + list(attrs), mode=mode, quals=quals, flavor=flavor, busy=busy)


MID = ["try", "q", "err", "unwrap-or", "add-r", "arg2", "recv", "array", "block-tail", "let-init", "then-tail", "elif-tail", "arm", "guard", "and", "loop-break", "for-body", "mac-arg", "assign",
       "rthen-tail", "rarm-block", "rblock-tail", "rlet-init", "rlabel-break", "rmac-one", "rdiscard", "letelse-init", "letelse-else", "ret-if", "match-r", "and-then", "or-else", "clo", "clo-res", "async",
       "inner-fn", "inner-mod"]
SMALL = ["try", "block-tail", "ret-if", "err", "clo-res", "async", "inner-fn", "rthen-tail", "rarm", "or-else", "letelse-else", "add-r", "q"]
DROPS = ["try", "arg1", "recv", "add-l", "mac-arg", "let-init", "block-tail", "match-r", "rmatch-r", "rthen-tail", "rarm", "rblock-tail", "rlet-init", "rmac-one", "rparen", "map", "or-else", "and-then", "unwrap-or"]
SETS = [("skip",), ("skip_all",), ("hook_targets", []), ("hook_targets", ["?"]), ("hook_targets", ["return", "tail_expr"]), ("tail_expr_idents", ["p", "!Ok"]), ("ignore_tail_expr_idents", ["p"]),
        ("result_types", []), ("method", METH["r"][0]), ("hook_in_macros", False)]


def shapes(c):
    for leaf in ("p", "drop", "errv"):
        for d in (0, 1, 2):
            for ch in sem.typed_chains(d, leaf=leaf):
                yield prog("shape", ch, leaf)
                if leaf == "drop":
                    for meth in "rm":      # temporaries live as long under a replacing method
                        yield prog("shape", ch, leaf, meth)
    for ch in sem.typed_chains(3, None if c.thorough else MID):
        yield prog("shape", ch)
    # temporaries of the operand against what the rest of the statement does after it
    for ch in sem.typed_chains(3, DROPS, leaf="drop"):
        for meth in "irm":
            yield prog("drops", ch, "drop", meth)
    if c.thorough:
        for ch in sem.typed_chains(3, leaf="drop"):
            yield prog("shape", ch, "drop")
        for ch in sem.typed_chains(4, SMALL):
            yield prog("shape", ch)


def busy(c):
    """every other operand of the constructs is a site too"""
    for d in (1, 2):
        for ch in sem.typed_chains(d):
            yield prog("busy", ch, busy=True)


def targets(c):
    for ch in itertools.chain(sem.typed_chains(1), sem.typed_chains(2, SMALL if not c.thorough else MID)):
        for meth in METH:
            for k in range(4):
                for s in itertools.combinations(TGT, k):
                    yield prog("tgt:" + "+".join(s), ch, meth=meth, attrs=[("hook_targets", list(s))])
        yield prog("async-fn", ch, quals="async ")


def settings(c):
    """settings on the elements at every level"""
    for ch in itertools.chain(sem.typed_chains(1), sem.typed_chains(2, SMALL if not c.thorough else MID)):
        for lvl in range(len(ch)):
            for a in SETS:
                if ch[lvl].startswith("inner") and a[0] == "skip" and False:
                    continue
                yield prog(f"set:{lvl}:{a}", ch, attrs_at={lvl: [a]}, busy=True)
        if len(ch) == 2:
            for a, b_ in itertools.product(SETS[:5], repeat=2):
                yield prog(f"set2:{a}:{b_}", ch, attrs_at={0: [a], 1: [b_]})


# ---- everyday code, given as text: annotated and plain run side by side
ANY = """
pub trait Hz: Sized { fn hz(self, line: usize, col: usize, n: &str) -> Self; }
impl<A, B> Hz for Result<A, B> { fn hz(self, line: usize, col: usize, n: &str) -> Self { log(format!("h{line}:{col} {n} {}", self.is_ok())); self } }
impl<A> Hz for Option<A> { fn hz(self, line: usize, col: usize, n: &str) -> Self { log(format!("h{line}:{col} {n} {}", self.is_some())); self } }
pub fn hzf<R: Hz>(r: R, line: usize, col: usize, n: &str) -> R { r.hz(line, col, n) }
fn exec2(name: &str, k: u32, f: fn()) { for bits in 0..1u64 << k { BITS.with(|b| b.set(bits)); T.with(|t| t.borrow_mut().clear()); f(); T.with(|t| println!("{name} {bits} {}", t.borrow().join(","))); } }
"""
FORMS = {
    "insert": "#[::hooq::hooq] #[hooq::method(.hz($line, $col, $nth))]",
    "replace": "#[::hooq::hooq] #[hooq::method(hzf($expr, $line, $col, $nth))]",
    "rebind": "#[::hooq::hooq] #[hooq::method(match $expr { e => { let path = $path; let line = $line; let col = $col; let expr = stringify!($source); e.hz(line, col, $nth) } })]",
    "chain": "#[::hooq::hooq] #[hooq::method(.hz($line, $col, $nth).hz(0, 0, $fn_name))]",
    "no-macros": "#[::hooq::hooq] #[hooq::hook_in_macros(false)] #[hooq::method(.hz($line, $col, $nth))]",
    "questions": "#[::hooq::hooq] #[hooq::hook_targets(\"?\")] #[hooq::method(.hz($line, $col, $nth))]",
    "skipped": "#[::hooq::hooq] #[hooq::skip_all] #[hooq::method(.hz($line, $col, $nth))]",
}


def norm(x):
    return x.split(" ", 1)[1]


def snips():
    out = {}
    for part in open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "data", "snips.rs"), encoding="utf-8").read().split("//// ")[1:]:
        name, _, t = part.partition("\n")
        out[name] = t
    return out


def everyday(c, edition="2024"):
    t0 = time.time()
    hooq, mdir = c.hooq(), project()
    jobs = []
    for name, t in snips().items():
        k = 1 + max([int(x) for x in re.findall(r"\b(?:p|bit)\((\d+)\)|\bq\((\d+),|\.[rc]\((\d+)\)|leaf\((\d+)\)", t) for x in x if x] or [0])
        if "(0..3).map(p)" in t or "3..5" in t:
            k = max(k, 6)
        jobs.append((name, t, k))
    n, fails, events, skipped = 0, [], 0, []
    from concurrent.futures import ThreadPoolExecutor

    def one(job):
        name, t, k = job
        parts, main = [sem.PRELUDE, ANY], []
        src = {}
        for fm, h in dict(FORMS, plain="").items():
            m = fm.replace("-", "_")
            src[m] = f"mod {m} {{ use crate::*; {t.replace('@H', h)} }}\n"
            parts.append(src[m])
            main.append(f'exec2("{m}", {k}, {m}::run);')
        return job, src, exe.build_and_run(hooq, "".join(parts) + "fn main() { " + " ".join(main) + " }\n", mdir, edition=edition)
    with ThreadPoolExecutor(8) as ex:
        for (name, t, k), src, (ok, diag, rc, out, err) in ex.map(one, jobs):
            if not ok:
                if edition != "2024" and not exe.build_and_run(hooq, sem.PRELUDE + ANY + src["plain"] + "fn main() {}", mdir, edition=edition, compile_only=True)[0]:
                    skipped.append(name)        # not a program of that edition
                    continue
                fails.append(Failure(f"everyday:{name}", "annotated code does not compile", t, "", diag[:3000], "compiles"))
                n += 1
                continue
            got = {}
            for ln in out.split("\n"):
                if ln:
                    a, b_, r = ln.split(" ", 2)
                    got.setdefault(a, {})[int(b_)] = r
            for fm in src:
                if fm == "plain":
                    continue
                for bits in range(1 << k):
                    n += 1
                    g, p = got.get(fm, {}).get(bits), got.get("plain", {}).get(bits)
                    ev = [x for x in (g or "").split(",") if re.match(r"h\d+:", x)]
                    events += len(ev)
                    g2 = None if g is None else ",".join(x for x in g.split(",") if not re.match(r"h\d+:", x))
                    if g is None or g2 != p or (fm == "skipped" and ev):
                        fails.append(Failure(f"everyday:{name}:{fm}:{bits:b}", "behaviour differs from the program without hooks", src[fm], src["plain"], g or "<none> " + err[-800:], p or "<none>"))
                        break
                    # the form of the method does not change what the hooks see
                    ref = [norm(x) for x in (got["insert"][bits] or "").split(",") if re.match(r"h\d+:", x)]
                    if fm == "questions":
                        ref = [x for x in ref if " ?" in x]
                    elif (fm == "no_macros" and ("!(" in t or "![" in t)) or fm in ("chain", "skipped"):
                        continue
                    if [norm(x) for x in ev] != ref:
                        fails.append(Failure(f"everyday:{name}:{fm}:{bits:b}:events", "hook events differ between equivalent methods", src[fm], src["insert"], g, ",".join(ref)))
                        break
    c.record("everyday code, edition " + edition, n, fails, programs=len(jobs) - len(skipped), not_of_that_edition=skipped, hook_events=events, seconds=round(time.time() - t0, 1))


def check(c):
    for ed in ("2024", "2021", "2018"):
        everyday(c, ed)
        if ed != "2024":
            explore(c, "typed programs, edition " + ed, (prog("shape" + ed, ch) for d in (1, 2) for ch in sem.typed_chains(d, None if d == 1 else SMALL)), edition=ed)
    explore(c, "typed programs", shapes(c))
    explore(c, "programs full of sites", busy(c))
    explore(c, "targets and methods", targets(c))
    explore(c, "settings at every level", settings(c))
