"""P02: which `return`s and tail expressions are hooked, for every function kind and setting."""
from ..common import *

BOUNDS = {
    "quick": "7 end-expressions x all slots (depth 1) x 12 declared return types x 3 places (28 on the small slot set); x 19 settings of "
             "tail_expr_idents/ignore_tail_expr_idents/result_types/hook_targets; depth 2 over the core slots x 3 end-expressions "
             "x 2 return types; 29 callee path shapes x 9 call forms x positions x settings; exits at every place of 37 list-like constructs with up to 9 children; every slot nested in itself to depth 8",
    "thorough": "as quick with depth 2 over all slots, all settings at depth 2 on the small slot set, depth 3 on the small slot set, lists of up to 27 children, self-nesting to depth 12",
}
RETS = ["Result<i32, String>", "i32", None, "r::Result<i32>", "::std::result::Result<i32, ()>", "MyResult<i32>", "Option<Result<i32, ()>>",
        "impl Tr", "&'static Result<i32, ()>", "(Result<i32, ()>)", "Box<dyn Tr>", "r::MyResult<i32>",
        "<S as TrE>::Result<i32>", "<Result<i32, ()> as TrE>::T", "Result", "::core::result::Result<Vec<Result<i32, ()>>, ()>", "XResult<i32>", "ResultX", "result::Result2<i32>",
        "result::Result::Inner", "S::Result", "[Result<i32, ()>; 1]", "fn() -> Result<i32, ()>", "Box<dyn Fn() -> Result<i32, ()>>", "!", "()", "*const Result<i32, ()>",
        "r :: Result < i32 >"]
SITES7 = ["q", "ret", "retok", "reterr", "err", "ok", "g"]
TGT = ["?", "question", "return", "tail_expr", "tail expr", "tailexpr", "tailExpr", "all"]
SETTINGS = [
    [("tail_expr_idents", ["Err"])], [("tail_expr_idents", [])], [("tail_expr_idents", ["g"])], [("tail_expr_idents", ["Err", "g", "Fail"])],
    [("tail_expr_idents", ["Err", "!g"])], [("tail_expr_idents", ["!Err", "!Ok"])], [("tail_expr_idents", ["Ok", "!Ok"])],
    [("ignore_tail_expr_idents", [])], [("ignore_tail_expr_idents", ["g"])], [("ignore_tail_expr_idents", ["Ok", "Err", "g"])],
    [("tail_expr_idents", ["g", "!Err"]), ("ignore_tail_expr_idents", ["Good"])],
    [("ignore_tail_expr_idents", ["Good"]), ("tail_expr_idents", ["g", "!Err"])],
    [("result_types", [])], [("result_types", ["MyResult"])], [("result_types", ["Result", "MyResult", "i32"])], [("result_types", ["Option", "Box"])],
    [("hook_targets", ["return"])], [("hook_targets", ["tail_expr"])], [("hook_targets", [])],
]


def nest(slots, site, place, ret, sets=(), where="fn"):
    def mk(N):
        return PLACES[place](chain(slots, site, N), N)
    return fn_case(f"{'/'.join(slots)}:{site}:{place}:{ret}:{list(sets)}", mk, attrs=(H,) + tuple(sets), ret=ret)


def paths():
    shapes = ["Err", "Result::Err", "::std::result::Result::Err", "r::Err", "Err::<i32, i32>", "Result::<i32, ()>::Err", "Ok", "Result::Ok",
              "r::Ok", "Ok::<i32, i32>", "Fail", "Good", "g", "r::g", "Errr", "err",
              "<Result<i32, ()>>::Err", "<Result<i32, ()>>::Ok", "<S as TrE<i32>>::Err", "<S>::Fail::<i32>", "crate::p::r::Err",
              "r :: Err", "Err::g", "Ok::g", "result::Result::Ok", "Fail_", "_Err", "OkErr", "ERR", "<S as TrE<Result<i32, ()>>>::g"]
    sets = [[], [("tail_expr_idents", ["Err", "Fail"])], [("tail_expr_idents", ["Fail"])], [("ignore_tail_expr_idents", ["Good"])],
            [("tail_expr_idents", ["Err", "Ok"])], [("tail_expr_idents", ["g", "!Ok", "!Good"])], [("tail_expr_idents", ["Result"])]]
    for sh in shapes:
        parts = {
            "call": lambda N, sh=sh: X(sh, "(", N.x(), ")", label="call", call=path_ident(sh)),
            "paren": lambda N, sh=sh: par(X(sh, "(", N.x(), ")", label="call", call=path_ident(sh))),
            "path": lambda N, sh=sh: X(sh, label="path"),
            "mcall": lambda N, sh=sh: X(N.x(), ".", path_ident(sh), "(", N.x(), ")", label="mcall"),
            "call0": lambda N, sh=sh: X(sh, "()", label="call", call=path_ident(sh)),
            "call2": lambda N, sh=sh: X(sh, "(", N.x(), ", ", N.x(), ",)", label="call", call=path_ident(sh)),
            "callcall": lambda N, sh=sh: X(X(sh, "(", N.x(), ")", label="call"), "(", N.x(), ")", label="call"),
            "cast": lambda N, sh=sh: X(X(sh, "(", N.x(), ")", label="call"), " as i32", label="cast", prec=1),
            "struct": lambda N, sh=sh: X(sh, " { f: ", N.x(), " }", label="struct", struct=True) if re.match(r"^[\w:]+$", sh) else None,
            "callq": lambda N, sh=sh: X(sh, "(", Q(N.x()), ")", label="call", call=path_ident(sh)),
        }
        for pn, p in parts.items():
            if p(Names()) is None:
                continue
            for s in sets if pn in ("call", "callq", "path") else sets[:2]:
                for ret in ("Result<i32, String>", "i32"):
                    for pos in ("fn", "block", "return", "arm", "closure", "clores", "let", "noparse"):
                        def mk(N, p=p, pos=pos):
                            e = p(N)
                            if pos == "fn":
                                return blk(tail=e)
                            if pos == "block":
                                return blk(Let("_v", BlkX(blk(tail=e))))
                            if pos == "return":
                                return blk(stmt(If(N.x(), blk(stmt(Ret(e))))), tail=N.x())
                            if pos == "arm":
                                return blk(Let("_v", Match(N.x(), [("_", None, e)])))
                            if pos == "closure":
                                return blk(Let("_v", Closure(e)))
                            if pos == "clores":
                                return blk(Let("_v", Closure(blk(tail=e), ret="Result<i32, i32>")))
                            if pos == "noparse":
                                return blk(stmt(e))
                            return blk(Let("_v", e))
                        yield fn_case(f"path:{sh}:{pn}:{s}:{ret}:{pos}", mk, attrs=[H] + s, ret=ret)


def multi(c):
    """several exits in one body: every sequence of exits up to length 3"""
    exits = {
        "ret": lambda N: stmt(If(N.x(), blk(stmt(Ret(N.x()))))),
        "ret0": lambda N: stmt(If(N.x(), blk(stmt(Ret())))),
        "reterr": lambda N: stmt(If(N.x(), blk(stmt(Ret(call("Err", N.x())))))),
        "retok": lambda N: stmt(If(N.x(), blk(stmt(Ret(call("Ok", N.x())))))),
        "iferr": lambda N: stmt(If(N.x(), blk(tail=call("Err", N.x())), blk(tail=call("Ok", N.x())))),
        "match": lambda N: Let("_v", Match(N.x(), [("0", None, call("Err", N.x())), ("1", N.x(), blk(tail=call("Err", N.x()))), ("_", None, call("Ok", N.x()))])),
        "clo": lambda N: Let("_v", Closure(blk(stmt(Ret(N.x())), tail=N.x()), ret="Result<i32, i32>")),
        "loop": lambda N: stmt(BlkX(blk(stmt(X("break ", call("Err", N.x()), label="break", prec=0))), "loop ")),
    }
    tails = {"none": None, "err": lambda N: call("Err", N.x()), "ok": lambda N: call("Ok", N.x()), "x": lambda N: N.x(), "ret": lambda N: Ret(N.x()),
             "if": lambda N: If(N.x(), blk(tail=call("Err", N.x())), blk(tail=N.x())),
             "match": lambda N: Match(N.x(), [("0", None, call("Err", N.x())), ("_", None, blk(tail=N.x()))]),
             "mac": lambda N: Mac([(call("Err", N.x()), "")], name="tup")}
    for seq in seqs(list(exits), 1, 3 if c.thorough else 2):
        for t in tails:
            for ret in ("Result<i32, String>", "i32"):
                def mk(N, seq=seq, t=t):
                    return blk(*[exits[e](N) for e in seq], tail=tails[t](N) if tails[t] else None)
                yield fn_case(f"multi:{'+'.join(seq)}:{t}:{ret}", mk, ret=ret)


def wides(c):
    """exits in long lists of children"""
    for w in WIDE:
        for n, ss in wide_sets((2, 3, 6, 9) if not c.thorough else (2, 3, 4, 5, 6, 7, 9, 13, 27)):
            for site in ("ret", "reterr", "err", "ok"):
                if site == "ok" and len(ss) == 1:
                    continue
                for ret in RETS[:2]:
                    for place in ("stmt", "tail"):
                        if place == "tail" and (site == "ok" or ret == RETS[1]):
                            continue

                        def mk(N, w=w, n=n, ss=ss, site=site, place=place):
                            return PLACES[place](wide(w, n, ss, N, site), N)
                        yield fn_case(f"wide:{w}:{n}:{','.join(map(str, ss))}:{site}:{ret}:{place}", mk, ret=ret)


def towers(c):
    for s in LABELS:
        for d in (3, 5, 8) if not c.thorough else (3, 4, 5, 6, 8, 12):
            for site in ("ret", "err"):
                yield fn_case(f"tower:{s}:{d}:{site}", lambda N, s=s, d=d, site=site: blk(tail=tower(s, d, SITES[site](N), N)))


def cases(c):
    yield from wides(c)
    yield from towers(c)
    for site in SITES7 + ["a"]:
        for place in PLACES:
            for ret in RETS:
                yield nest((), site, place, ret)
                for s in LABELS:
                    if ret in RETS[:4] or place == "tail" and (ret in RETS[:12] or c.thorough or s in TINY):
                        yield nest((s,), site, place, ret)
            for sets in SETTINGS:
                for ret in (RETS[0], RETS[1], RETS[5]):
                    yield nest((), site, place, ret, sets)
    for site in ("ret", "err", "ok", "g"):
        for sets in SETTINGS:
            for s in (LABELS if c.thorough else CORE):
                for ret in (RETS[0], RETS[1]):
                    yield nest((s,), site, "tail", ret, sets)
    for t in itertools.chain.from_iterable(itertools.combinations(TGT, k) for k in (0, 1, 2)):
        for site in ("q", "ret", "err"):
            yield nest((), site, "tail", RETS[0], [("hook_targets", list(t))])
    yield from paths()
    yield from multi(c)
    for s in itertools.product(LABELS if c.thorough else CORE, repeat=2):
        for site in ("ret", "err", "g"):
            for ret in (RETS[0], RETS[1]):
                if site == "g" and ret == RETS[1]:
                    continue
                yield nest(s, site, "tail", ret)
    if c.thorough:
        for s in itertools.product(TINY, repeat=3):
            for site in ("ret", "err", "g"):
                yield nest(s, site, "tail", RETS[0])
        for s in itertools.product(TINY, repeat=2):
            for site in ("ret", "err", "g"):
                for sets in SETTINGS:
                    yield nest(s, site, "tail", RETS[0], sets)


def check(c):
    c.expand("`return` and tail expressions", cases(c), STD, project())
