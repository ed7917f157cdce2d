"""P19: the preset flavors report every failing hooked site once, in order, with place, error and excerpt, through the real crates."""
import re
import time
import traceback
from ..common import *
from .. import build, exe, sem
from ..build import ToolError
from ..run import parallel, h8

BOUNDS = {
    "quick": "16 presets and sub-flavors x all typed chains of slots to length 2 over 28 slots (every slot at length 1), with other operands as sites too, x every combination of failing "
             "calls, executed with the real anyhow, eyre, color-eyre, log and tracing; Options under the context flavors; `level` bound at 3 places to 5 levels",
    "thorough": "as quick with length 2 over all slots and length 3 over 28",
}

COMMON = sem.PRELUDE.split("#[derive(Debug, Clone, Copy, PartialEq)] pub struct E")[0]
REST = "pub struct S" + sem.PRELUDE.split("pub struct S", 1)[1].split("pub trait Hk", 1)[0] + "macro_rules! tup" + sem.PRELUDE.split("macro_rules! tup", 1)[1].split("fn exec(")[0]
SIMPLE_E = "#[derive(Clone, Copy, PartialEq)] pub struct E(pub i32);\nimpl std::fmt::Debug for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, \"dbg{}\", self.0) } }\n" \
           "impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, \"dsp{}\", self.0) } }\nimpl std::error::Error for E {}\n"
ERR = "pub fn mkerr(k: i32) -> E { E(k) }\npub fn fin(r: Result<i32, E>) -> String { format!(\"{r:?}\") }\nfn init() {}\n"


def dyn(crate, ty, o):
    return (SIMPLE_E.replace("pub struct E", "pub struct Root").replace("for E", "for Root") +
            f"pub type E = {ty}; #[allow(non_snake_case)] pub fn E(k: i32) -> E {{ {ty}::from(Root(k)) }}\n"
            "pub fn fin(r: Result<i32, E>) -> String { match r { Ok(v) => format!(\"Ok({v})\"), Err(e) => format!(\"Err{:?} root={:?}\", e.chain().map(|c| c.to_string()).collect::<Vec<_>>(), "
            "e.downcast_ref::<Root>().map(|r| r.0)) } }\nfn init() {}\n"
            "pub fn o(k: u32) -> Option<i32> { log(format!(\"p{k}\")); if bit(k) { None } else { Some(k as i32) } }\n")


KIT = {
    "default": COMMON + SIMPLE_E + ERR + REST,
    "anyhow": COMMON + dyn("anyhow", "::anyhow::Error", 1) + REST,
    "eyre": COMMON + dyn("eyre", "::eyre::Report", 1) + REST,
    "color_eyre": COMMON + dyn("color_eyre", "::color_eyre::Report", 1) + REST,
    "log": COMMON + SIMPLE_E + ERR.replace("fn init() {}", """struct L; impl ::log::Log for L { fn enabled(&self, _: &::log::Metadata) -> bool { true } fn flush(&self) {}
  fn log(&self, r: &::log::Record) { log(format!("h{} {:?} {}", r.level(), r.args().to_string(), r.line().is_some())) } }
static LG: L = L; fn init() { ::log::set_logger(&LG).unwrap(); ::log::set_max_level(::log::LevelFilter::Trace); }""") + REST,
    "tracing": COMMON + SIMPLE_E + ERR.replace("fn init() {}", """struct V(String); impl ::tracing::field::Visit for V {
  fn record_debug(&mut self, f: &::tracing::field::Field, v: &dyn std::fmt::Debug) { self.0 += &format!(" {}={v:?}", f.name()) } }
struct Sub; impl ::tracing::Subscriber for Sub { fn enabled(&self, _: &::tracing::Metadata<'_>) -> bool { true }
  fn new_span(&self, _: &::tracing::span::Attributes<'_>) -> ::tracing::span::Id { ::tracing::span::Id::from_u64(1) }
  fn record(&self, _: &::tracing::span::Id, _: &::tracing::span::Record<'_>) {} fn record_follows_from(&self, _: &::tracing::span::Id, _: &::tracing::span::Id) {}
  fn event(&self, e: &::tracing::Event<'_>) { let mut v = V(String::new()); e.record(&mut v); log(format!("h{}{}", e.metadata().level(), v.0)) }
  fn enter(&self, _: &::tracing::span::Id) {} fn exit(&self, _: &::tracing::span::Id) {} }
fn init() { ::tracing::subscriber::set_global_default(Sub).unwrap(); }""") + REST,
    "hook": COMMON + SIMPLE_E + ERR + REST + """pub trait Hook { fn hook(self, f: impl FnOnce() -> ::hooq::HooqMeta) -> Self; }
impl<A: std::fmt::Debug> Hook for Result<A, E> { fn hook(self, f: impl FnOnce() -> ::hooq::HooqMeta) -> Self { if let Err(e) = &self { let m = f();
  log(format!("h{}:{} {} {} {:?} {} {} {e:?}", m.line, m.column, m.path, m.file, m.source_str.split_whitespace().collect::<String>(), m.count, m.bindings.len())); } self } }
""",
    "empty": COMMON + SIMPLE_E + ERR + REST,
}
EXEC = r"""
fn exec(name: &str, k: u32, f: fn() -> Result<i32, E>) {
    for bits in 0..1u64 << k {
        BITS.with(|b| b.set(bits));
        T.with(|t| t.borrow_mut().clear());
        eprintln!("@{name} {bits}");
        let r = f();
        let r = fin(r);
        T.with(|t| println!("{}", format!("{name} {bits} {} => {r}", t.borrow().join("\x01")).replace("\n", "\x02")));
    }
}
"""
LEVELS = ["Error", "Warn", "Info", "Debug", "Trace"]


class V2(sem.VM):
    def __init__(self, bits, kit, root):
        super().__init__(bits)
        self.kit, self.root, self.err = kit, root, []

    def p(self, k):
        v = super().p(k)
        return ("Err", (k, ())) if v[0] == "Err" else v

    def q(self, k, x):
        v = super().q(k, x)
        return ("Err", (k, ())) if v[0] == "Err" else v

    def hook(self, info, val):
        kind, (line, col), count, src, binds = info
        if val[0] == "Ok":
            return val
        code, ctx = val[1] if isinstance(val[1], tuple) else (val[1], ())
        ex = f"{line:>4}>    {src}\n    |"
        if self.kit == "default":
            self.err.append(f"[main.rs:{line}:{col}] dbg{code}\n{ex}")
        elif self.kit in ("anyhow", "eyre", "color_eyre"):
            return ("Err", (code, (f"[main.rs:{line}:{col}]\n{ex}",) + ctx))
        elif self.kit == "log":
            lv = binds["level"].rsplit("::", 1)[-1]
            self.t.append(f"h{lv.upper()} {rust_debug(f'(main.rs:{line}:{col}) dsp{code}' + chr(10) + ex)} true")
        elif self.kit == "tracing":
            lv = binds["level"].rsplit("::", 1)[-1]
            self.t.append(f'h{lv.upper()} path="main.rs" line={line} col={col} error=dsp{code} expr={rust_debug(src)}')
        elif self.kit == "hook":
            self.t.append(f"h{line}:{col} main.rs main.rs {rust_debug(''.join(src.split()))} {count} {len(binds)} dbg{code}")
        return val


def rust_debug(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def showv(vm, v):
    if v[0] == "Ok":
        return f"Ok({v[1]})"
    code, ctx = v[1] if isinstance(v[1], tuple) else (v[1], ())
    if vm.kit in ("anyhow", "eyre", "color_eyre"):
        root = [f"dsp{code}"] if code is not None else []
        return "Err[" + ", ".join(rust_debug(x) for x in list(ctx) + root) + "] root=" + (f"Some({code})" if code is not None else "None")
    return f"Err(dbg{code})"


def preset(root):
    kit = root.split("::")[0]
    if kit == "empty":
        return kit, EMPTY
    if kit == "log":
        lv = (root.split("::") + ["error"])[1]
        return kit, Flavor(binds={"level": "::log::Level::" + lv.capitalize()})
    if kit == "tracing":
        lv = (root.split("::") + ["error"])[1]
        return kit, Flavor(binds={"level": "::tracing::Level::" + lv.upper()})
    return kit, Flavor()


class Prog:
    pre, inst = "use crate::*;", ""      # what stands before the function in its module; its generic arguments

    def __init__(self, root, ch, leaf="p", busy=False, attrs=(), attrs_at=None, binds=None):
        self.root, self.ch, self.leaf, self.busy, self.attrs, self.attrs_at = root, ch, leaf, busy, list(attrs), attrs_at
        self.key = f"{root}:{'/'.join(ch)}:{leaf}:{busy}:{attrs}:{attrs_at}"

    def build(self):
        N = sem.Pts(self.busy)
        n = sem.build(self.ch, self.leaf, N, self.attrs_at)
        want = sem.T[self.ch[0]][1] if self.ch else "R"
        if want == "R":
            b = sem.sblk(sem.st(N.v()), tail=n)
        else:
            z = sem.sem(X("Ok(z)", label="call", call="Ok"), None)
            box = {}
            z.sem = lambda vm: ("Ok", box["z"])
            b = blk(Let("z", n), tail=z)

            def run(vm):
                box["z"] = sem.ev(n, vm)
                return sem.ev(z, vm)
            b.sem = run
        f = Fn(b, name="f", ret="Result<i32, E>", quals="pub ", attrs=self.attrs)
        f.body_sem = b.sem
        return f, N.k


sem.LEAF["opt"] = ("R", lambda N: (lambda k: sem.sem(X(f"o({k})", label="opt", call="o"), lambda vm: ("Err", (None, ())) if vm.p(k)[0] == "Err" else ("Ok", k)))(N.pt()))


def run_progs(hooq, ext, kit, progs, mdir, edition="2024"):
    cov = (set(), set())
    head = "#![allow(warnings)]\n" + KIT[kit].replace("#![allow(warnings)]\n", "", 1) + EXEC
    line = head.count("\n") + 1
    text, built = [head], []
    for i, pr in enumerate(progs):
        f, k = pr.build()
        b = Buf(line)
        b.w(f"mod c{i} {{ {pr.pre} #[::hooq::hooq" + (f"({pr.root})" if pr.root != "default" else "") + "] ")
        f.emit(b)
        b.w(" }\n")
        t = b.text()
        m = Model(path="main.rs", flavors=STD, cov=cov)
        m.text = t
        f.walk(m, ctx_of(preset(pr.root)[1]))
        text.append(t)
        line += t.count("\n")
        built.append((pr, f, k, t))
    main = "fn main() { init(); " + " ".join(f'exec("c{i}", {k}, c{i}::f{pr.inst});' for i, (pr, _, k, _) in enumerate(built)) + " }\n"
    ok, diag, rc, out, err = exe.build_and_run(hooq, "".join(text) + main, mdir, extra=ext, edition=edition)
    if not ok:
        at = [int(x) for x in re.findall(r"--> main\.rs:(\d+):", diag)]
        first = head.count("\n") + 1
        fails = [Failure(built[i][0].key, "the annotated program does not compile", built[i][3], "", diag[:3000], "compiles") for i in sorted({a - first for a in at if 0 <= a - first < len(built)})]
        if not fails:
            raise ToolError("programs do not compile:\n" + diag[:3000])
        return len(fails), fails, cov, 0
    got, errs = {}, {}
    for ln in out.split("\n"):
        if ln:
            n, bits, rest = ln.split(" ", 2)
            got[n, int(bits)] = rest
    cur = None
    for ln in err.split("\n"):
        if ln.startswith("@c"):
            n, bits = ln[1:].split(" ")
            cur = errs.setdefault((n, int(bits)), [])
        elif cur is not None:
            cur.append(ln)
    n = ev = 0
    fails = []
    for i, (pr, f, k, t) in enumerate(built):
        for bits in range(1 << k):
            n += 1
            vm = V2(bits, kit, pr.root)
            try:
                r = f.body_sem(vm)
            except sem.Return as e:
                r = e.v
            ev += sum(x[0] == "h" for x in vm.t) + len(vm.err) + (len(r[1][1]) if r[0] == "Err" and isinstance(r[1], tuple) else 0)
            want = ("\x01".join(vm.t) + " => " + showv(vm, r)).replace("\n", "\x02") + "\n\n" + "\n".join(vm.err)
            g = got.get((f"c{i}", bits), "<none>") + "\n\n" + "\n".join(errs.get((f"c{i}", bits), [])).rstrip("\n")
            if g != want.rstrip("\n") and g.rstrip("\n") != want.rstrip("\n"):
                fails.append(Failure(f"{pr.key}:{bits:b}", "reports differ", t, "", g, want))
                break
    return n, fails, cov, ev


def _worker(conn, args):
    try:
        n, fails, cov, events = run_progs(*args)
        conn.send(("ok", (n, fails[:20], len(fails), {h8((args[2], x)) for x in cov[0]}, {h8((args[2], x)) for x in cov[1]}, events)))
    except ToolError as e:
        conn.send(("tool", str(e)))
    except BaseException:
        conn.send(("tool", traceback.format_exc()))
    finally:
        conn.close()


ROOTS = ["default", "anyhow", "eyre", "color_eyre", "hook", "empty"] + ["log"] + ["log::" + x.lower() for x in LEVELS] + ["tracing"] + ["tracing::" + x.lower() for x in LEVELS]
CTXF = ("anyhow", "eyre", "color_eyre")
NAMES = ["try", "q", "err", "ok", "add-r", "arg2", "block-tail", "then-tail", "arm", "guard", "loop-break", "for-body", "mac-arg", "rthen-tail", "relif-tail", "rarm-block", "rblock-tail", "rlet-init", "rmac-one",
         "letelse-else", "ret-if", "ret-tail", "and-then", "or-else", "clo-res", "async", "inner-fn", "inner-mod"]


def progs(c):
    for root in ROOTS:
        names = [n for n in sem.T if n != "match-r" and not n.endswith("-plain")]
        few = NAMES if root in ("default", "anyhow", "log", "tracing", "hook", "color_eyre") or c.thorough else NAMES[:6] + ["ret-if", "rthen-tail", "clo-res"]
        for leaf in ("p", "errv"):
            for ch in sem.typed_chains(1, names, leaf=leaf):
                yield Prog(root, ch, leaf)
            for ch in sem.typed_chains(2, names if c.thorough else few, leaf=leaf):
                yield Prog(root, ch, leaf)
        for ch in sem.typed_chains(1, names):
            yield Prog(root, ch, busy=True)
        for ch in sem.typed_chains(2, few):
            yield Prog(root, ch, busy=True)
        if c.thorough:
            for ch in sem.typed_chains(3, few):
                yield Prog(root, ch)
        if root in CTXF:
            for ch in itertools.chain([("try",)], *(sem.typed_chains(d, few) for d in (2, 3 if c.thorough else 2))):
                if ch[-1] == "try":
                    yield Prog(root, ch, "opt")
        kit = root.split("::")[0]
        if kit in ("log", "tracing"):
            for lv in LEVELS:
                v = f"::{kit}::Level::{lv if kit == 'log' else lv.upper()}"
                for ch in sem.typed_chains(2, ["try", "block-tail", "ret-if", "err", "rthen-tail"]):
                    yield Prog(root, ch, attrs=[("bind", "level", v)])
                    yield Prog(root, ch, attrs_at={1: [("binding", "level", v)]})
                    yield Prog(root, ch, busy=True, attrs=[("bind", "level", v)], attrs_at={0: [("var", "level", f"::{kit}::Level::{'Warn' if kit == 'log' else 'WARN'}")]})


def check(c):
    t0 = time.time()
    mdir = project()
    hooq, ext = c.hooq(), build.ensure_ext()
    tot = {"n": 0, "fails": [], "nf": 0, "ev": 0}
    states, trans, per = set(), set(), {}

    def jobs():
        for kit, group in itertools.groupby(progs(c), key=lambda p: p.root.split("::")[0]):
            it = iter(group)
            while True:
                chunk = list(itertools.islice(it, 120))
                if not chunk:
                    break
                per[kit] = per.get(kit, 0) + len(chunk)
                yield hooq, ext, kit, chunk, mdir

    def add(r):
        tot["n"] += r[0]
        tot["fails"] += r[1]
        tot["nf"] += r[2]
        states.update(r[3])
        trans.update(r[4])
        tot["ev"] += r[5]
    parallel(jobs(), _worker, add, stop=lambda: tot["nf"] > 60)
    c.record("presets", tot["n"], tot["fails"], states, trans, programs=per, reports=tot["ev"], seconds=round(time.time() - t0, 1))
