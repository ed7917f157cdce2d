"""P05: macro arguments are rewritten exactly when they are lists of Rust fragments and hook_in_macros is on."""
from ..common import *

BOUNDS = {
    "quick": "all fragment sequences up to length 3 over 12 fragment kinds and both separators, with every trailing separator, in every delimiter "
             "and position (length <= 2); nesting of macros to depth 3; hook_in_macros x skip x hook_targets on every enclosing level; "
             "12 macro names (qualified, raw, unicode) in every position and delimiter; macros as items of modules, impls and traits; argument lists that are not fragment lists; macro_rules! definitions; argument lists of up to 16 entries with each kind of fragment at each position; macros nested to depth 9",
    "thorough": "as quick with length 3 in every position and delimiter, and length 4 over a reduced alphabet, argument lists to 33 entries",
}
FRAG = {
    "q": lambda N: Q(N.x()),
    "a": lambda N: N.x(),
    "str": lambda N: atom('"x {}"'),
    "err": lambda N: call("Err", Q(N.x())),
    "blk": lambda N: BlkX(blk(stmt(Q(N.x())), tail=call("Err", N.x()))),
    "let": lambda N: X("let _v = ", Q(N.x()), label="let-expr", prec=0),
    "kv": lambda N: X("k = ", Q(N.x()), label="kv", prec=0),
    "ret": lambda N: Ret(N.x()),
    "clo": lambda N: Closure(Q(N.x())),
    "fn": lambda N: Fn(blk(stmt(Q(N.x())), tail=N.x()), name="inner"),
    "mac": lambda N: Mac([(Q(N.x()), ", "), (N.x(), "")]),
    "if": lambda N: If(Q(N.x()), blk(tail=call("Err", N.x())), blk(tail=Q(N.x()))),
}
# fragments that make the argument list something other than a list of Rust fragments
OPAQUE = {
    "arrow": "k => a1?", "two": "a1? a2?", "ifthen": "if a1 {} a2?", "dollar": "$x", "attr": "#[x]", "op": "+ a1?", "semi2": "; ;", "colon": "a1: a2?", "kw": "match", "fmt": '"{}" a1?',
    "comma": ", a1?", "at": "a1? @ a2?", "hash": "# a1?",
}
POS = {
    "let": lambda m, N: blk(Let("_v", m), stmt(Q(N.x()))),
    "stmt": lambda m, N: blk(with_semi(m), stmt(Q(N.x()))),
    "tail": lambda m, N: blk(stmt(Q(N.x())), tail=m),
    "arg": lambda m, N: blk(stmt(call("g", N.x(), m, Q(N.x())))),
    "q": lambda m, N: blk(stmt(Q(m)), stmt(Q(N.x()))),
    "arm": lambda m, N: blk(stmt(Match(N.x(), [("0", None, m), ("_", None, Q(N.x()))])), stmt(Q(N.x()))),
    "ret": lambda m, N: blk(stmt(If(N.x(), blk(stmt(Ret(m))))), tail=call("Ok", N.x())),
    "recv": lambda m, N: blk(stmt(X(m, ".m(", Q(N.x()), ")"))),
}


def with_semi(m):
    m.stmt_semi = ";"
    return m


def mac_of(kinds, sps, trail, delim, N, name="cap", attrs=()):
    es = []
    for i, k in enumerate(kinds):
        sep = sps[i] if i < len(kinds) - 1 else trail
        es.append((FRAG[k](N), sep + " " if sep else ""))
    return Mac(es, name=name, delim=delim, attrs=attrs)


def lists(c):
    for kinds in seqs(list(FRAG), 0, 3):
        if len(kinds) == 3 and not c.thorough and "str" in kinds[1:]:
            continue
        for sps in itertools.product((",", ";"), repeat=max(0, len(kinds) - 1)):
            if len(kinds) == 3 and not c.thorough and sps[0] != sps[1]:
                continue
            for trail in ("", ",", ";") if kinds else ("",):
                full = len(kinds) <= 1 or c.thorough and len(kinds) == 2
                if len(kinds) == 3 and trail == ";" and not c.thorough:
                    continue
                for delim in ("()", "[]", "{}") if full or len(kinds) == 2 else ("()",):
                    for pos in POS if full else ("let", "tail") if len(kinds) == 2 else ("let",):
                        if delim == "{}" and pos not in ("let", "arg"):
                            continue
                        def mk(N, kinds=kinds, sps=sps, trail=trail, delim=delim, pos=pos):
                            return POS[pos](mac_of(kinds, sps, trail, delim, N), N)
                        yield fn_case(f"list:{'+'.join(kinds)}:{''.join(sps)}:{trail}:{delim}:{pos}", mk)
    if c.thorough:
        for kinds in seqs(["q", "fn", "let", "ret", "mac"], 4, 4):
            for sps in itertools.product((",", ";"), repeat=3):
                def mk(N, kinds=kinds, sps=sps):
                    return POS["let"](mac_of(kinds, sps, "", "()", N), N)
                yield fn_case(f"list:{'+'.join(kinds)}:{''.join(sps)}", mk)


def long_lists(c):
    """long argument lists: a fragment of each kind at each position, and an opaque one"""
    for n in (4, 5, 7, 10, 16) if not c.thorough else (*range(4, 17), 24, 33):
        for k in FRAG:
            for i in range(n) if k in ("q", "fn", "mac", "let") else (0, n // 2, n - 1):
                for sep in (", ", "; "):
                    for trail in ("", sep):
                        def mk(N, n=n, k=k, i=i, sep=sep, trail=trail):
                            es = [((FRAG[k](N) if j == i else Q(N.x()) if (i + j) % 3 == 0 else N.x()), sep if j < n - 1 else trail) for j in range(n)]
                            return POS["let"](Mac(es), N)
                        yield fn_case(f"long:{n}:{k}:{i}:{sep}{trail}", mk)
        for k, txt in OPAQUE.items():
            for i in (0, n - 1):
                def mk(N, n=n, i=i, txt=txt):
                    return POS["let"](Mac([((txt if j == i else Q(N.x())), ", " if j < n - 1 else "") for j in range(n)], opaque=True), N)
                yield fn_case(f"long-opaque:{n}:{k}:{i}", mk)
    for d in (4, 6, 9):
        for frag in ("q", "blk", "clo", "ret"):
            def mk(N, d=d, frag=frag):
                m = FRAG[frag](N)
                for _ in range(d):
                    m = Mac([(Q(N.x()), ", "), (m, ", "), (N.x(), "")], name="tup")
                return blk(Let("_v", m), stmt(Q(N.x())))
            yield fn_case(f"deep:{d}:{frag}", mk)


def opaque():
    for k, txt in OPAQUE.items():
        for lead in (None,) + tuple(FRAG):
            for delim in ("()", "[]", "{}"):
                for pos in POS:
                    if delim == "{}" and pos not in ("let", "arg"):
                        continue
                    def mk(N, txt=txt, lead=lead, delim=delim, pos=pos):
                        es = ([(FRAG[lead](N), ", ")] if lead else []) + [(txt, "")]
                        return POS[pos](Mac(es, delim=delim, opaque=True), N)
                    yield fn_case(f"opaque:{k}:{lead}:{delim}:{pos}", mk)


def nested():
    for names in seqs(["cap", "tup", "crate::p::cap", "seq"], 2, 3):
        for delims in itertools.product(("()", "[]", "{}"), repeat=len(names)):
            if delims[0] == "{}":
                continue
            for frag in ("q", "blk", "clo", "ret"):
                for op in (False, True):
                    def mk(N, names=names, delims=delims, frag=frag, op=op):
                        n = FRAG[frag](N)
                        for i in range(len(names) - 1, -1, -1):
                            last = i == len(names) - 1
                            if last and op:
                                n = Mac([("k => a9?", "")], name="cap", delim=delims[i], opaque=True)
                            elif names[i] == "seq":
                                n = Mac([(Q(N.x()), "; "), (n, "")], name=names[i], delim=delims[i])
                            else:
                                n = Mac([(Q(N.x()), ", "), (n, "")], name=names[i], delim=delims[i])
                        return blk(Let("_v", n), stmt(Q(N.x())))
                    yield fn_case(f"nested:{'/'.join(names)}:{''.join(delims)}:{frag}:{op}", mk)


NAMES = ["std::m", "crate::p::tup", "::std::m", "self::m", "super::m", "m_1", "_m", "Ö", "a::b::c", "r#try", "crate::r#m", "M"]


def names():
    for n in NAMES:
        for kinds in (["q"], ["a", "q"], ["blk"], ["mac"], ["clo", "err"]):
            for delim in ("()", "[]", "{}"):
                for pos in POS:
                    if delim == "{}" and pos not in ("let", "arg"):
                        continue
                    def mk(N, n=n, kinds=kinds, delim=delim, pos=pos):
                        return POS[pos](mac_of(kinds, [","] * 2, "", delim, N, name=n), N)
                    yield fn_case(f"name:{n}:{'+'.join(kinds)}:{delim}:{pos}", mk, errors_ok=True)
                if delim == "{}":
                    for at in ("mid", "first"):
                        def mk(N, n=n, kinds=kinds, at=at):
                            m = mac_of(kinds, [","] * 2, "", "{}", N, name=n)
                            m.stmt_semi = ""
                            return blk(item_stmt(m), stmt(Q(N.x()))) if at == "first" else blk(stmt(Q(N.x())), item_stmt(m), stmt(Q(N.x())))
                        yield fn_case(f"name:{n}:{'+'.join(kinds)}:brace-{at}", mk, errors_ok=True)


ON, OFF = ("hook_in_macros", True), ("hook_in_macros", False)
ATT = {"-": [], "on": [ON], "off": [OFF], "off,on": [OFF, ON], "on,off": [ON, OFF], "skip": [("skip",)], "skip_all": [("skip_all",)],
       "tgt": [("hook_targets", ["return"])], "m": [("method", ".h2($nth)")]}


def levels():
    for a, b_, d in itertools.product(ATT, ATT, ATT):
        for frag in ("q", "blk", "clo", "mac", "fn"):
            for nest in (False, True):
                def mk(N, b_=b_, d=d, frag=frag, nest=nest):
                    m = Mac([(FRAG[frag](N), ", "), (Q(N.x()), "")], attrs=ATT[d])
                    if nest:
                        m = Mac([(m, ", "), (Q(N.x()), "")], name="tup")
                    return blk(stmt(BlkX(blk(Let("_v", m), stmt(Q(N.x()))), attrs=ATT[b_])), Let("_v", Mac([(Q(N.x()), "")])), tail=call("Ok", N.x()))
                if nest and frag not in ("q", "blk"):
                    continue
                yield fn_case(f"levels:{a}/{b_}/{d}:{frag}:{nest}", mk, attrs=[H] + ATT[a])


def item_macros():
    frs = {"fn": lambda N: [(Fn(blk(stmt(Q(N.x())), tail=N.x()), name="g1"), "")],
           "fn2": lambda N: [(Fn(blk(stmt(Q(N.x())), tail=N.x()), name="g1"), " "), (Fn(blk(stmt(Q(N.x())), tail=N.x()), name="g2"), "")],
           "const": lambda N: [(ItemX("const C1: i32 = ", Q(N.x()), ";", label="const"), " "), (ItemX("const C2: i32 = ", Q(N.x()), ";", label="const"), "")],
           "doc": lambda N: [("#![allow(unused)] ", ""), (Fn(blk(tail=Q(N.x())), name="g1"), "")],
           "mod": lambda N: [(Group("mod inm", [Raw("use crate::p::*;"), Fn(blk(tail=Q(N.x())), name="g1")]), "")],
           "q": lambda N: [(Q(N.x()), ", "), (Q(N.x()), "")]}
    for k, fr in frs.items():
        for delim in ("()", "[]", "{}"):
            for at in ("-", "off", "skip_all", "m"):
                for cont in ("mod", "root", "impl", "trait", "fnbody", "modmod"):
                    def b(fr=fr, delim=delim, at=at, cont=cont, k=k):
                        N = Names()
                        name = "raw" if k in ("fn", "fn2", "const", "mod") and not (k == "mod" and cont in ("impl", "trait")) else "none"
                        m = Mac(fr(N), name=name, delim=delim, attrs=ATT[at], stmt_semi="" if delim == "{}" else ";")
                        sib = Fn(blk(stmt(Q(N.x()))), name="sib")
                        if cont == "root":
                            m.attrs = [H] + ATT[at]
                            return [("", m)]
                        if cont == "fnbody":
                            return [("", Fn(blk(item_stmt(m), stmt(Q(N.x()))), attrs=[H]))]
                        if cont == "modmod":
                            return [("", Group("mod sub", [Raw("use crate::p::*;"), Group("mod sub2", [Raw("use crate::p::*;"), m]), sib], attrs=[H]))]
                        head = {"mod": "mod sub", "impl": "impl S", "trait": "trait T"}[cont]
                        return [("", Group(head, ([Raw("use crate::p::*;")] if cont == "mod" else []) + [m, sib], attrs=[H]))]
                    yield Case(f"itemmac:{k}:{delim}:{at}:{cont}", b)


def definitions():
    defs = ["macro_rules! z { ($e:expr) => { $e? } }", "macro_rules! z { () => { a1? }; ($x:tt) => { return $x; } }", "macro_rules! z { (a1?) => { fn q() { a1?; } } }"]
    for i, d in enumerate(defs):
        for pos in ("fn", "mod", "root"):
            for at in ("", "#[allow(unused)] "):
                def b(d=d, pos=pos, at=at):
                    N = Names()
                    r = Raw(at + d, label="macro_rules")
                    if pos == "fn":
                        return [("", Fn(blk(item_stmt(r), stmt(Q(N.x()))), attrs=[H]))]
                    if pos == "root":
                        return [("", Raw(at + d)), ("", Fn(blk(stmt(Q(N.x()))), attrs=[H]))]
                    return [("", Group("mod sub", [Raw("use crate::p::*;"), r, Fn(blk(stmt(Q(N.x()))), name="q")], attrs=[H]))]
                yield Case(f"def:{i}:{pos}:{at}", b)


def cases(c):
    yield from lists(c)
    yield from long_lists(c)
    yield from opaque()
    yield from nested()
    yield from names()
    yield from levels()
    yield from item_macros()
    yield from definitions()


def check(c):
    c.expand("macro arguments", cases(c), STD, project())
