"""P15: every item is expanded under the hooq.toml of its own project, whatever the process handled before."""
import os
import shutil
import tempfile
import traceback
from ..common import *
from .. import build, run
from ..build import ToolError
from ..lang import Method
from .p13 import presets, resolve

BOUNDS = {
    "quick": "one compiler process serving several projects: all histories to length 3 of (project in {own toml, other toml, no toml, toml only in the parent, broken toml, unreadable toml, "
             "manifest dir unset}) x (attribute in {default, flavor x, flavor y by inert attribute}); every history replayed on fresh directories in one process, and every history of "
             "length 2 in a process of its own",
    "thorough": "as quick with histories to length 4 over two attributes",
}
TA = {"default": {"method": ".h1($nth)"}, "x": {"method": ".h2($nth)", "bindings": {"v": "a60"}}}
TB = {"x": {"method": "w($expr, $nth)", "hook_targets": ["?"]}, "y": {"method": ".h3($nth)", "tail_expr_idents": ["Good"]}}
TCWD = {"default": {"method": ".d($nth)"}}
from .p13 import toml_of  # noqa: E402

PROJ = {"A": TA, "B": TB, "none": {}, "nested": {}, "broken": None, "bad": None, "dir": None, "unset": TCWD}
ATTR = {"-": ("", []), "x": ("x", []), "y": ("", [("from", "flavor", "y")])}


def make_dirs(top):
    """fresh directories of every project under top -> {project: CARGO_MANIFEST_DIR}"""
    d = {}

    def mk(name, toml=None, sub=""):
        p = os.path.join(top, name, sub) if sub else os.path.join(top, name)
        os.makedirs(p, exist_ok=True)
        with open(os.path.join(p, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "k"\nversion = "0.1.0"\n[dependencies]\nhooq = "0.3"\n[workspace]\n')
        if toml is not None:
            with open(os.path.join(top, name, "hooq.toml"), "w") as f:
                f.write(toml)
        return p
    # the directories differ pairwise in one respect only: last component equal, one a prefix of the other, case, parent
    d["A"] = mk("p/app", toml_of(TA))
    d["B"] = mk("q é x/app", toml_of(TB))
    d["none"] = mk("none/app")
    d["nested"] = mk("p/app", toml_of(TA), sub="inner")
    d["broken"] = mk("p/App", "[x\nmethod = 1")
    d["bad"] = mk("p/app2", '[x]\nmethod = ".h2()"\nhook_targets = ["nothing"]\n')
    d["dir"] = mk("q é x/ap")
    os.mkdir(os.path.join(d["dir"], "hooq.toml"))
    d["unset"] = "-"
    return d


FLAV = {p: resolve(t, presets()) if t is not None else None for p, t in PROJ.items()}


def outcome(proj, attr):
    """the flavor in force, or None for a compile error"""
    fl = FLAV[proj]
    if fl is None:
        return None
    root, at = ATTR[attr]
    f = fl.get(root or "default")
    if f is None or (at and at[0][2] not in fl):
        return None
    return f


def emit(i, hist, dirs, line, path, cov):
    b = Buf(line)
    b.w(f"mod c{i} {{ use crate::p::*; ::envset::step!{{ ")
    exp = [f"mod e{i} {{ use crate::p::*; "]
    errs = []
    for k, (proj, attr) in enumerate(hist):
        root, at = ATTR[attr]
        N = Names()
        node = Fn(blk(stmt(Q(N.x())), stmt(If(N.x(), blk(tail=call("Good", N.x())))), tail=N.x()), name=f"f{k}", attrs=at)
        b.w(f'"{dirs[proj]}" ' + "#[::hooq::hooq" + (f"({root})" if root else "") + "] ")
        node.emit(b)
        b.w("\n")
        fl = outcome(proj, attr)
        cov[1].add((tuple(hist[:k]), hist[k]))
        cov[0].add(tuple(hist[:k + 1]))
        if fl is None:
            errs.append(b.line - 1)
        else:
            m = Model(path=path, flavors=FLAV[proj], cov=None)
            m.text = b.text()
            exp.append(node.walk(m, ctx_of(fl)))
    b.w("} }\n")
    exp.append("}\n")
    return b.text(), "".join(exp), errs


def key(h):
    return ">".join(f"{p}:{a}" for p, a in h)


def process(hooq, canon, hists, same_dirs=False):
    """one compiler process"""
    cov = (set(), set())
    fails = []
    work = tempfile.mkdtemp(prefix="hq-")
    tops = []
    try:
        with open(os.path.join(work, "hooq.toml"), "w") as f:
            f.write(toml_of(TCWD))
        with open(os.path.join(work, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "k"\nversion = "0.1.0"\n[dependencies]\nhooq = "0.3"\n[workspace]\n')
        line = run.STUB_LINES + 1
        parts, exps, errl = [], [], []
        for i, h in enumerate(hists):
            if not (same_dirs and tops):
                tops.append(tempfile.mkdtemp(prefix="hqd-"))
                dirs = make_dirs(tops[-1])
            t, e, er = emit(i, h, dirs, line, "s.rs", cov)
            parts.append(t)
            exps.append(e)
            errl.append(er)
            line += t.count("\n")
        start = make_dirs(tempfile.mkdtemp(prefix="st-", dir=tops[0]))["none"]
        d, err = run.expand(hooq, canon, work, "s", run.STUBS + "".join(parts) + "".join(exps), start)
        if d is None:
            raise ToolError("histories do not expand:\n" + err[-3000:])
        el = {k for k, _ in run.errors_by_line(err)}
        for i, h in enumerate(hists):
            got, exp = d.get(f"c{i}"), d.get(f"e{i}")
            if got != exp:
                fails.append(Failure(key(h), "an item is expanded under the wrong settings", parts[i], exps[i], got or "<missing>", exp, err[-2000:]))
            for ln in errl[i]:
                if ln not in el:
                    fails.append(Failure(key(h), "unusable settings are accepted silently", parts[i], exps[i], "no compile error", f"a compile error on line {ln}", err[-2000:]))
    finally:
        for t in tops + [work]:
            shutil.rmtree(t, ignore_errors=True)
    return {"n": len(hists), "fails": fails[:20], "nfails": len(fails), "states": {run.h8(x) for x in cov[0]}, "trans": {run.h8(x) for x in cov[1]},
            "fired": {"question": 0, "return": 0, "tail_expr": 0}, "nhook": len(hists), "samples": [key(hists[len(hists) // 2]) + "\n" + parts[len(hists) // 2]]}


def worker(conn, args):
    try:
        conn.send(("ok", process(*args)))
    except ToolError as e:
        conn.send(("tool", str(e)))
    except BaseException:
        conn.send(("tool", traceback.format_exc()))
    finally:
        conn.close()


def explore(c, name, hists, size, same=False):
    import time
    t = time.time()
    hooq = dict(c.hooq(), extra=build.ensure_envset())
    res = run.Result()

    def jobs():
        it = iter(hists)
        while True:
            ch = list(itertools.islice(it, size))
            if not ch:
                return
            yield (hooq, c.canon, ch, same)
    run.parallel(jobs(), worker, res.add, stop=lambda: res.nfails > 60)
    c._expanded(name, res, t)


def check(c):
    ops = list(itertools.product(PROJ, ATTR))
    explore(c, "histories on fresh directories", seqs(ops, 1, 3), 150)
    explore(c, "one history per process", seqs(ops, 2, 2), 1)
    explore(c, "many histories over the same directories", seqs(ops, 1, 2), 100, same=True)
    if c.thorough:
        few = list(itertools.product(PROJ, ("-", "x")))
        explore(c, "histories of length 4", seqs(few, 4, 4), 150)
