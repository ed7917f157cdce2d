"""P13: the flavor named in the attribute is the one hooq.toml and the presets define, field by field."""
from ..common import *
from .. import build
from ..lang import Method, Flavor, EMPTY, HOOKS, parse_targets

BOUNDS = {
    "quick": "all subsets of the 8 fields for a new flavor and for every preset and sub-preset override; parent x child: all parent subsets x {none, each, all, complement}; "
             "grandchildren: all pairs of fields x all set/unset assignments over 3 levels; 7 x 5 x 7 x 5 tail/ignore lists over parent and child; all hook-target lists to length 2; "
             "8 path spellings; 16 x 16 flavor names in 4 spellings; 10 identifiers x 9 uses in the lists; table orders; feature sets",
    "thorough": "as quick with all parent x child subsets and all triples of fields over 3 levels",
}

# ---------------------------------------------------------------- model of the resolution
EXC = 'let path = $path; let line = $line; let col = $col; let expr = $__excerpt; '
LOGM = Method('.inspect_err(|e| { ' + EXC + 'let level = $level; ::log::log!(level, "({path}:{line}:{col}) {e}\\n{expr}"); })')
TRACEM = Method('.inspect_err(|e| { let path = $path; let line = $line; let col = $col; let expr = $__oneline; '
                '::tracing::event!($level, path, line, col, error = %e, expr,); })')
FMT = 'format!("[{path}:{line}:{col}]\\n{expr}")'


def presets(variant="full"):
    out = {"default": Flavor(), "empty": EMPTY, "hook": Flavor(method=Method(".hook(|| { $hooq_meta })"))}
    if variant != "bare":
        def lv(pre, names):
            return {n.lower(): f"::{pre}::Level::{n}" for n in names}
        log = lv("log", ("Error", "Warn", "Info", "Debug", "Trace"))
        tra = lv("tracing", ("ERROR", "WARN", "INFO", "DEBUG", "TRACE"))
        out["log"] = Flavor(method=LOGM, binds={"level": log["error"]}, subs={k: Flavor(method=LOGM, binds={"level": v}) for k, v in log.items()})
        out["tracing"] = Flavor(method=TRACEM, binds={"level": tra["error"]}, subs={k: Flavor(method=TRACEM, binds={"level": v}) for k, v in tra.items()})
        out["anyhow"] = Flavor(method=Method(".with_context(|| { " + EXC + FMT + " })"), trait_uses=("::anyhow::Context",))
        w = Method(".wrap_err_with(|| { " + EXC + FMT + " })")
        out["eyre"] = Flavor(method=w, trait_uses=("::eyre::ContextCompat", "::eyre::WrapErr"))
        out["color_eyre"] = Flavor(method=w, trait_uses=("::color_eyre::eyre::ContextCompat", "::color_eyre::eyre::WrapErr"))
    return out


FIELDS = ("trait_uses", "method", "hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types", "hook_in_macros", "bindings")


def resolve(tables, base=None, parent=None):
    """tables: {name: {field: value, 'sub': {name: table}}} -> {name: Flavor}"""
    out = dict(base if base is not None else {})
    for name, t in tables.items():
        f = out.get(name, parent or Flavor()).copy()
        if "trait_uses" in t:
            f.trait_uses = tuple(t["trait_uses"])
        if "method" in t:
            f.method = Method(t["method"])
        if "hook_targets" in t:
            f.targets = frozenset(parse_targets(t["hook_targets"]))
        ign = None
        if "tail_expr_idents" in t:
            f.tails = tuple(x for x in t["tail_expr_idents"] if x[:1] != "!")
            neg = [x[1:] for x in t["tail_expr_idents"] if x[:1] == "!"]
            ign = neg or None
        if "ignore_tail_expr_idents" in t:
            ign = (ign or []) + list(t["ignore_tail_expr_idents"])
        if ign is not None:
            f.ign = tuple(ign)
        if "result_types" in t:
            f.rtypes = tuple(t["result_types"])
        if "hook_in_macros" in t:
            f.inmac = t["hook_in_macros"]
        f.binds = dict(f.binds, **t.get("bindings", {}))
        if t.get("sub"):
            f.subs = resolve(t["sub"], f.subs, f)
        out[name] = f
    return out


def q(s):
    return "'''" + s + "'''" if "'" not in s else '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def toml_of(tables, prefix=(), inline=False):
    out = []
    for name, t in tables.items():
        p = prefix + (name,)
        body = []
        for f in FIELDS:
            if f not in t:
                continue
            v = t[f]
            if f == "bindings":
                body.append("bindings = { " + ", ".join(f"{k} = {q(x)}" for k, x in v.items()) + " }")
            elif f == "hook_in_macros":
                body.append(f"{f} = {'true' if v else 'false'}")
            elif isinstance(v, str):
                body.append(f"{f} = {q(v)}")
            else:
                body.append(f"{f} = [" + ", ".join(q(x) for x in v) + "]")
        out.append("[" + ".".join(x if x.isascii() else chr(34) + x + chr(34) for x in p) + "]\n" + "\n".join(body) + "\n")
        if t.get("sub"):
            out.append(toml_of(t["sub"], p))
    return "\n".join(out)


def lookup(flavors, path):
    f = flavors[path[0]]
    for x in path[1:]:
        f = f.subs[x]
    return f


# ---------------------------------------------------------------- the probe: every field is observable in it
SHOW = ("method", ".h3($bindings, $nth)")


def probe(spelling, flavor, key):
    def build_():
        N = Names()
        a = N.x
        fns = [
            # method, targets, hook_in_macros, tail idents in every position
            Fn(blk(stmt(Q(a())), stmt(If(a(), blk(stmt(Ret(a()))))), stmt(If(a(), blk(stmt(Ret(call("Err", a())))))), stmt(Mac([(Q(a()), ", "), (a(), "")], name="tup")),
                   tail=call("Ok", a())), name="f1", ret="Result<i32, String>"),
            Fn(blk(stmt(If(a(), blk(tail=call("Err", a())), blk(tail=call("h1", a())))), stmt(If(a(), blk(tail=call("Ok", a())), blk(tail=call("Good", a())))),
                   tail=call("h2", a())), name="f2", ret="Result<i32, String>"),
            Fn(blk(tail=call("Good", a())), name="f3", ret="MyResult<i32>"),
            Fn(blk(tail=a()), name="f4", ret="MyResult<i32>"),
            Fn(blk(tail=call("h1", a())), name="f5", ret="i32"),
            Fn(blk(tail=a()), name="f6", ret="Option<i32>"),
            Fn(blk(stmt(Q(a())), stmt(Ret(a()))), name="f7", ret="Result<i32, String>", attrs=[SHOW, ("hook_targets", ["all"])]),
        ]
        return [(spelling, Group("mod sub", [Raw("use crate::p::*;")] + fns))]
    return Case(key, build_, flavor, errors_ok=True)


def paths_of(tables, prefix=()):
    for n, t in tables.items():
        yield prefix + (n,)
        if t.get("sub"):
            yield from paths_of(t["sub"], prefix + (n,))


def group(tables, label, extra=(), variant="full", spell=None):
    """one hooq.toml and a probe of every flavor it defines, plus `extra` paths"""
    fl = resolve(tables, presets(variant))
    cases = []
    for p in list(paths_of(tables)) + list(extra):
        cases.append(probe((spell or "::".join)(p), lookup(fl, p), f"{label}:{'.'.join(p)}"))
    return toml_of(tables), cases, fl


VAL = {"trait_uses": ["crate::p::Tr"], "method": ".h1($nth)", "hook_targets": ["return", "tail_expr"], "tail_expr_idents": ["h1"], "ignore_tail_expr_idents": ["Good"],
       "result_types": ["MyResult"], "hook_in_macros": False, "bindings": {"x": "a60"}}
VAL2 = {"trait_uses": ["crate::p::Tr2", "crate::p::Tr"], "method": "w($expr, $nth)", "hook_targets": ["?"], "tail_expr_idents": ["h2", "Err"], "ignore_tail_expr_idents": [],
        "result_types": ["Option", "Result"], "hook_in_macros": True, "bindings": {"x": "a61", "y": "1 + 2"}}
VAL3 = {"trait_uses": [], "method": ".h2($line)", "hook_targets": [], "tail_expr_idents": [], "ignore_tail_expr_idents": ["h1", "Ok"],
        "result_types": [], "hook_in_macros": False, "bindings": {"y": '"é"', "z": "a62"}}


def subsets():
    for k in range(len(FIELDS) + 1):
        yield from itertools.combinations(FIELDS, k)


def pick(vals, fs):
    return {f: vals[f] for f in FIELDS if f in fs}


def chunked(entries, n, label):
    """entries: (name, table); several flavors share one hooq.toml"""
    cur = {}
    for name, t in entries:
        cur[name] = t
        if len(cur) == n:
            yield group(cur, label)
            cur = {}
    if cur:
        yield group(cur, label)


def new_flavors():
    for vk, vals in (("a", VAL), ("b", VAL2), ("c", VAL3)):
        yield from chunked(((f"fl{vk}{i}", pick(vals, s)) for i, s in enumerate(subsets())), 64, "new")


def tag(s):
    return "".join("1" if f in s else "0" for f in FIELDS)


def parent_child(thorough):
    def gen():
        for i, ps in enumerate(subsets()):
            rest = tuple(f for f in FIELDS if f not in ps)
            cs = [()] + [(f,) for f in FIELDS] + [FIELDS, rest]
            if thorough:
                cs = list(subsets())
            yield f"p{tag(ps)}", dict(pick(VAL, ps), sub={f"c{tag(c)}": pick(VAL2, c) for c in cs})
    yield from chunked(gen(), 1 if thorough else 6, "parent-child")


def grand(thorough):
    def gen():
        for fs in itertools.combinations(FIELDS, 3 if thorough else 2):
            for bits in itertools.product(range(2 ** len(fs)), repeat=3):
                sets = [tuple(f for j, f in enumerate(fs) if b >> j & 1) for b in bits]
                yield ("g" + "_".join(tag(s) for s in sets),
                       dict(pick(VAL, sets[0]), sub={"m": dict(pick(VAL2, sets[1]), sub={"n": pick(VAL3, sets[2])})}))
    yield from chunked(gen(), 40, "three-levels")


def overrides(variant):
    pre = presets(variant)
    for s in subsets():
        t = {}
        for name in pre:
            if name != "empty":
                t[name] = pick(VAL if len(s) % 2 else VAL2, s)
        t["fresh"] = {}
        ex = [("empty",)] + [(p, k) for p in pre for k in pre[p].subs]
        yield group(t, f"override:{variant}:{tag(s)}", extra=ex, variant=variant)
    # sub-presets overridden while the parent is not, or is
    if variant != "bare":
        for s in subsets():
            for parent in ((), FIELDS):
                t = {n: dict(pick(VAL, parent), sub={k: pick(VAL2, s) for k in ("warn", "trace", "mine")}) for n in ("log", "tracing")}
                t["hook"] = dict(pick(VAL3, s), sub={"warn": pick(VAL, s)})
                yield group(t, f"sub-preset:{tag(s)}:{len(parent)}", extra=[("log", "error"), ("tracing", "info"), ("default",)], variant=variant)


TAILS = [None, [], ["h1"], ["!Good"], ["h1", "!Good"], ["!Ok", "Err", "!h2"], ["!h1", "h1"]]
IGNS = [None, [], ["Ok"], ["h2"], ["!Good"]]


def lists():
    def t(tl, ig):
        d = {}
        if tl is not None:
            d["tail_expr_idents"] = tl
        if ig is not None:
            d["ignore_tail_expr_idents"] = ig
        return d

    def gen():
        i = 0
        for a, b in itertools.product(TAILS, IGNS):
            sub = {f"s{j}": t(x, y) for j, (x, y) in enumerate(itertools.product(TAILS, IGNS))}
            yield f"t{i}", dict(t(a, b), method=".h1($nth)", sub=sub)
            i += 1
    yield from chunked(gen(), 2, "lists")
    tg = ["?", "question", "return", "tail_expr", "tail expr", "tailexpr", "tailExpr", "all"]
    yield from chunked(((f"k{i}", {"method": ".h1($nth)", "hook_targets": list(x)}) for i, x in enumerate(seqs(tg, 0, 2))), 80, "targets")
    rt = ["Result", "MyResult", "Option", "i32"]
    yield from chunked(((f"r{i}", {"method": ".h1($nth)", "result_types": list(x)}) for i, x in enumerate(seqs(rt, 0, 2))), 40, "result-types")


SPELL = {
    "path": "::".join, "str-dot": lambda p: 'flavor = "' + ".".join(p) + '"', "str-path": lambda p: 'flavor = "' + "::".join(p) + '"',
    "mixed": lambda p: 'flavor = "' + ".".join(p[:2]) + "".join("::" + x for x in p[2:]) + '"', "comma": lambda p: "::".join(p) + ",",
    "last-wins": lambda p: 'flavor = "empty", ' + "::".join(p), "last-wins2": lambda p: 'empty, flavor = "' + ".".join(p) + '"', "raw": lambda p: 'flavor = r#"' + ".".join(p) + '"#',
    "spaced": lambda p: " :: ".join(p),
}


def spellings():
    t = {"a": dict(VAL, sub={"b": dict(VAL2, sub={"c": dict(VAL3, sub={"a": VAL})}), "a": {"method": ".h2()"}}), "b": {"method": ".h3()", "sub": {"a": VAL3}}}
    for k, sp in SPELL.items():
        yield group(t, "spelling:" + k, spell=sp)
    # the written order of tables, quoting and dotted keys change nothing
    fl = resolve(t, presets())
    variants = {
        "child-first": "[a.b.c]\nmethod='.h1()'\n[a.b]\nmethod='.h2()'\n[a]\nmethod='.h3()'\n",
        "inline": "a = { method = '.h3()', b = { method = '.h2()', c = { method = '.h1()' } } }\n",
        "dotted": "a.method = '.h3()'\na.b.method = '.h2()'\na.b.c.method = '.h1()'\n",
        "quoted": "[\"a\"]\nmethod='''.h3()'''\n[a.'b']\nmethod=\".h2()\"\n[\"a\".b.\"c\"]\n\"method\"='.h1()'\n",
        "comments": "# x\n[a] # y\nmethod='.h3()'\n\n[ a . b ]\nmethod='.h2()'\n[a.b.c]\nmethod = \"\"\"\n.h1()\n\"\"\"\n",
    }
    tt = {"a": {"method": ".h3()", "sub": {"b": {"method": ".h2()", "sub": {"c": {"method": ".h1()"}}}}}}
    fl = resolve(tt, presets())
    for k, text in variants.items():
        yield text, [probe("::".join(p), lookup(fl, p), f"layout:{k}:{'.'.join(p)}") for p in paths_of(tt)], fl
    names = ["default2", "log2", "r_x", "_u", "Ärger", "A", "method2", "skip", "flavor", "trait_use", "hooq", "error", "warn"]
    yield group({n: dict(method=f".h1($nth, {i})", sub={m: {"method": f".h2($nth, {i})"} for m in names}) for i, n in enumerate(names)}, "names",
                spell=lambda p: 'flavor = "' + ".".join(p) + '"')
    names = ["default2", "log2", "r_x", "_u", "Ärger", "A", "aB", "a1B_2", "ABC", "method2", "skip", "flavor_x", "error", "warn", "Warn", "LOG"]
    for k, sp in (("path", "::".join), ("attr-path", "::".join), ("attr-str", lambda p: '"' + "::".join(p) + '"')):
        t = {n: dict(method=f".h1($nth, {i})", sub={m: {"method": f".h2($nth, {i})"} for m in names}) for i, n in enumerate(names)}
        if k == "path":
            yield group(t, "names-path", spell=sp)
        else:
            fl = resolve(t, presets())
            cs = []
            for p in paths_of(t):
                def b(p=p, sp=sp):
                    N = Names()
                    return [("", Fn(blk(stmt(Q(N.x())), tail=call("Ok", N.x())), ret="Result<i32, String>", attrs=[("from", "flavor", "::".join(p), sp(p))]))]
                cs.append(Case(f"names-{k}:{'.'.join(p)}", b, fl["default"]))
            f2 = dict(fl)
            for p in paths_of(t):
                f2["::".join(p)] = lookup(fl, p)
            yield toml_of(t), cs, f2
    yield from idents()
    for text, lab in (("", "empty-file"), (None, "no-file"), ("# nothing\n", "comment-file")):
        for variant_paths in [[("default",), ("empty",), ("hook",), ("log",), ("log", "warn"), ("tracing",), ("tracing", "debug"), ("anyhow",), ("eyre",), ("color_eyre",)]
                              + [(p, k) for p in ("log", "tracing") for k in ("error", "warn", "info", "debug", "trace")]]:
            pre = presets()
            yield text, [probe("::".join(p), lookup(pre, p), f"{lab}:{'.'.join(p)}") for p in variant_paths] + [probe("", pre["default"], lab + ":-")], pre


IDENTS = ["my_err", "_e", "e1", "Ö", "oops_2", "E", "Errr", "H1", "ok", "ERR"]


def idents():
    """identifiers of every shape in the identifier lists, and types in result_types"""
    t, use = {}, {}
    for i, n in enumerate(IDENTS):
        for j, d in enumerate(({"tail_expr_idents": [n]}, {"tail_expr_idents": ["!" + n]}, {"ignore_tail_expr_idents": [n]}, {"tail_expr_idents": ["h1", "!" + n, "h2"]}, {"tail_expr_idents": [n, "!" + n]},
                               {"tail_expr_idents": [n + "x", "!x" + n]}, {"result_types": [n]}, {"result_types": ["Option", n]},
                               {"tail_expr_idents": ["!" + n], "ignore_tail_expr_idents": ["h1", n + "2", "h2"]})):
            t[f"i{i}_{j}"] = dict(method=".h1($nth)", **d)
            use[f"i{i}_{j}"] = n
    fl = resolve(t, presets())
    cs = []
    for k, n in use.items():
        def b(k=k, n=n):
            N = Names()
            a = N.x
            return [(k, Fn(blk(stmt(If(a(), blk(stmt(Ret(call(n, a())))))), stmt(If(a(), blk(stmt(Ret(call("h1", a())))))), stmt(BlkX(blk(tail=call(n, a())))), tail=call(n, a())), name="f1", ret=r))
                    for r in ("Result<i32, String>", "i32", f"{n}<i32>", f"crate::p::{n}<i32>")]
        cs.append(Case(f"idents:{n}:{k}", b, fl[k], errors_ok=True))
    yield toml_of(t), cs, fl


def check(c):
    ex = build.ensure_stubs()
    c.expand_groups("new flavors: field subsets", new_flavors(), extra=ex)
    c.expand_groups("parent and child", parent_child(c.thorough), extra=ex, per_job=4)
    c.expand_groups("three levels", grand(c.thorough), extra=ex, per_job=4)
    c.expand_groups("overridden presets", overrides("full"), extra=ex, per_job=8)
    c.expand_groups("overridden presets, no features", overrides("bare"), variant="bare", extra=ex, per_job=8)
    c.expand_groups("lists", lists(), extra=ex)
    c.expand_groups("spellings", spellings(), extra=ex)
