"""Reference model of hooq: a tiny program AST with two interpretations.

`emit` writes the annotated source the real macro is run on (recording the
position of every hook site); `walk` is the *model*: it interprets the same
program under the documented rules and returns the source text hooq is expected
to produce.  A model state is a `Ctx` (settings in force + skip status + kind of
the enclosing function) together with the tail role of the position; a
transition is the entry into a syntactic slot, an attribute, or a hook firing.
The model records every state and transition it visits in `Model`.
"""
import json
import re

HOOKS = ("question", "return", "tail_expr")


class Buf:
    __slots__ = ("parts", "line", "col", "off", "plain", "lifts")

    def __init__(self, line=1, plain=False):
        self.parts, self.line, self.col, self.off, self.plain = [], line, 1, 0, plain      # plain: leave hooq's attributes out
        self.lifts = []        # (start, end, fragment kind, start and end of the fragment's text): see props/p24.py

    def w(self, s):
        if not s:
            return
        self.parts.append(s)
        self.off += len(s)
        k = s.rfind("\n")
        if k < 0:
            self.col += len(s)
        else:
            self.line += s.count("\n")
            self.col = len(s) - k

    def pos(self):
        return (self.line, self.col)

    def text(self):
        return "".join(self.parts)


class Counter:
    __slots__ = ("n",)

    def __init__(self):
        self.n = {"question": 0, "return": 0, "tail_expr": 0}


class Method:
    """mode 'i' (insertion) or 'r' (replacement); tpl is the template without the
    leading dot and without a consumed trailing `!`."""
    __slots__ = ("mode", "tpl", "exc")

    def __init__(self, text, consume=True):
        t = text.strip()
        self.mode = "r"
        if t.startswith("."):
            self.mode, t = "i", t[1:]
        self.exc = False
        if consume and t.rstrip().endswith("!"):
            self.exc = True
            t = t.rstrip()[:-1]
        self.tpl = t


DEFAULT_METHOD = Method('.inspect_err(|e| { let path = $path; let line = $line; let col = $col; '
                        'let expr = $__excerpt; '
                        '::std::eprintln!("[{path}:{line}:{col}] {e:?}\\n{expr}"); })')


class Ctx:
    F = ("skip", "methods", "targets", "tails", "ign", "rtypes", "inmac", "binds",
         "fn", "fnname", "counter")
    __slots__ = F

    def __init__(self, **k):
        for f in Ctx.F:
            setattr(self, f, k[f])

    def but(self, **k):
        c = Ctx.__new__(Ctx)
        for f in Ctx.F:
            setattr(c, f, getattr(self, f))
        for f, v in k.items():
            setattr(c, f, v)
        return c

    def is_result(self):
        return self.fn is not None and self.fn[2] is not None and self.fn[2] in self.rtypes

    def key(self):
        """the abstract model state (what the future depends on, minus counters)"""
        m = self.methods[-1]
        return (self.skip, len(self.methods), m.mode, m.exc, m.tpl, tuple(sorted(self.targets)),
                self.tails, self.ign, self.rtypes, self.inmac, tuple(self.binds),
                None if self.fn is None else (self.fn[0], self.fn[2]))


class Flavor:
    def __init__(self, method=DEFAULT_METHOD, targets=HOOKS, tails=("Err",), ign=("Ok",),
                 rtypes=("Result",), inmac=True, binds=(), trait_uses=(), subs=None):
        self.method, self.targets, self.tails, self.ign = method, frozenset(targets), tuple(tails), tuple(ign)
        self.rtypes, self.inmac, self.binds, self.trait_uses = tuple(rtypes), inmac, dict(binds), tuple(trait_uses)
        self.subs = subs or {}

    def copy(self, **k):
        f = Flavor.__new__(Flavor)
        f.__dict__.update(self.__dict__)
        f.binds = dict(self.binds)
        f.subs = dict(self.subs)
        f.__dict__.update(k)
        return f


EMPTY = Flavor(method=Method("$expr"), targets=(), tails=(), ign=(), rtypes=(), inmac=False)


def ctx_of(flavor):
    return Ctx(skip=None, methods=(flavor.method,), targets=flavor.targets, tails=flavor.tails,
               ign=flavor.ign, rtypes=flavor.rtypes, inmac=flavor.inmac,
               binds=tuple(sorted(flavor.binds.items())), fn=None, fnname=None, counter=Counter())


def ordinal(n):
    if n % 100 in (11, 12, 13):
        return f"{n}th"
    return f"{n}" + {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")


KIND_TXT = {"question": "?", "return": "return", "tail_expr": "tail expr"}


class ModelError(Exception):
    """the model predicts a compile error"""


class Model:
    """one interpretation run; collects coverage"""

    def __init__(self, path="<path>", flavors=None, consume=True, cov=None):
        self.path = path
        self.file = path.rsplit("/", 1)[-1]
        self.flavors = flavors or {}
        self.consume = consume
        self.text = None
        self.fired = []          # (kind, pos, count string)
        self.states = cov[0] if cov else set()
        self.trans = cov[1] if cov else set()

    # ---- coverage
    def enter(self, ctx, label, tail="-"):
        k = (ctx.key(), tail)
        self.states.add(k)
        self.trans.add((k, label))

    # ---- attributes
    def apply(self, attrs, ctx):
        """attribute list of one element -> context of the element"""
        upd, ign_set, binds = {}, None, dict(ctx.binds)
        skip = None
        method = None
        for a in attrs:
            k = a[0]
            if k == "foreign":
                continue
            self.trans.add((ctx.key(), "attr:" + k))
            if k == "skip":
                skip = skip or "same"
            elif k == "skip_all":
                skip = "all"
            elif k == "method":
                method = Method(a[1], self.consume)
            elif k == "hook_targets":
                upd["targets"] = frozenset(parse_targets(a[1]))
            elif k == "tail_expr_idents":
                inc = [x for x in a[1] if not x.startswith("!")]
                exc = [x[1:] for x in a[1] if x.startswith("!")]
                upd["tails"] = tuple(inc)
                if ign_set is not None:
                    ign_set = ign_set + exc
                elif exc:
                    ign_set = exc
            elif k == "ignore_tail_expr_idents":
                ign_set = (ign_set or []) + list(a[1])
            elif k == "result_types":
                upd["rtypes"] = tuple(a[1])
            elif k == "hook_in_macros":
                upd["inmac"] = a[1]
            elif k in ("binding", "var", "bind"):
                binds[a[1]] = a[2]
            elif k == "from":                      # #[hooq::FIELD = FLAVOR]
                fl = self.flavors[a[2]]
                f = a[1]
                if f in ("method", "flavor"):
                    method = fl.method
                if f in ("hook_targets", "flavor"):
                    upd["targets"] = fl.targets
                if f in ("tail_expr_idents", "flavor"):
                    upd["tails"] = fl.tails
                    ign_set = list(fl.ign)
                if f in ("result_types", "flavor"):
                    upd["rtypes"] = fl.rtypes
                if f in ("hook_in_macros", "flavor"):
                    upd["inmac"] = fl.inmac
                if f in ("bindings", "flavor"):
                    binds.update(fl.binds)
            else:
                raise AssertionError(k)
        if ign_set is not None:
            upd["ign"] = tuple(ign_set)
        if method is not None:
            upd["methods"] = ctx.methods + (method,)
        upd["binds"] = tuple(sorted(binds.items()))
        if skip and ctx.skip != "all":
            upd["skip"] = skip
        return ctx.but(**upd)

    def sub(self, ctx):
        return ctx if ctx.skip == "all" else ctx.but(skip=None)

    # ---- firing a hook
    def fire(self, kind, ctx, expr, src, pos, node=None):
        """returns (new text of the hooked expression, question-mark consumed?)"""
        if ctx.skip is not None:
            self.trans.add((ctx.key(), "skipped:" + kind))
            return expr, False
        ctx.counter.n[kind] += 1
        if kind not in ctx.targets:
            self.trans.add((ctx.key(), "off:" + kind))
            return expr, False
        self.trans.add((ctx.key(), "fire:" + kind))
        count = f"{ordinal(ctx.counter.n[kind])} {KIND_TXT[kind]}"
        self.fired.append((kind, pos, count))
        if node is not None:
            node.hk = dict(getattr(node, "hk", {}), **{kind: (kind, pos, count, src, dict(ctx.binds))})
        m = ctx.methods[-1]
        body = self.render(m.tpl, ctx, len(ctx.methods) - 1, expr, src, pos, count)
        if m.mode == "i":
            return f"({expr}).{body}", m.exc
        return f"({body})", m.exc

    def render(self, tpl, ctx, level, expr, src, pos, count):
        def binding_map():
            return ctx.binds

        def sub(mo):
            v = mo.group(1)
            if v == "line":
                return f"{pos[0]}usize"
            if v in ("column", "col"):
                return f"{pos[1]}usize"
            if v == "path":
                return lit(self.path)
            if v == "file":
                return lit(self.file)
            if v == "expr":
                return f"({expr})"
            if v == "source":
                return src
            if v in ("nth", "count"):
                return lit(count)
            if v in ("fn_name", "fnname"):
                return lit(ctx.fn[0] if ctx.fn else "<unknown>")
            if v in ("fn_sig", "fnsig"):
                return lit(ctx.fn[1] if ctx.fn else "<unknown>")
            if v in ("so_far", "sofar"):
                if level == 0:
                    raise ModelError("`$so_far` used but no overridden method found.")
                return self.render(ctx.methods[level - 1].tpl, ctx, level - 1, expr, src, pos, count)
            if v in ("bindings", "vars"):
                return self.bindings(ctx)
            if v in ("hooq_meta", "hooqmeta"):
                return ("::hooq::HooqMeta { line: %dusize, column: %dusize, path: %s, file: %s, "
                        "source_str: %s, count: %s, bindings: %s, }" % (
                            pos[0], pos[1], lit(self.path), lit(self.file),
                            lit(src), lit(count), self.bindings(ctx)))
            if v == "__excerpt":      # excerpted_pretty_stringify! of a one-line source
                assert "\n" not in src, src
                return lit(f"{self.src_line(pos, src):>4}>    {src}\n    |")
            if v == "__oneline":
                assert "\n" not in src, src
                return lit(src)
            d = dict(binding_map())
            if v in d:
                return f"({d[v]})"
            raise ModelError("unknown meta variable or binding: $" + v)
        return re.sub(r"\$\s*((?:r#)?\w+)", sub, tpl)

    def src_line(self, pos, src):
        return pos[0]

    def bindings(self, ctx):
        items = []
        for k, v in ctx.binds:
            items.append("(::std::string::ToString::to_string(%s), { let expr = ::std::string::ToString::to_string(%s); "
                         "let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new(%s); "
                         "::hooq::BindingPayload { expr, value, } })" % (lit(k), lit(v), v))
        return "::std::collections::HashMap::from([" + ", ".join(items) + "])"


def lit(s):
    """Rust string literal"""
    out = s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")
    return '"' + out + '"'


def parse_targets(v):
    out = set()
    for s in v:
        if s in ("?", "question"):
            out.add("question")
        elif s == "return":
            out.add("return")
        elif s in ("tail_expr", "tail expr", "tailexpr", "tailExpr"):
            out.add("tail_expr")
        elif s == "all":
            out |= set(HOOKS)
        else:
            raise ModelError(s)
    return out


class Sty(tuple):
    """an attribute written in one of the ways Rust allows: Sty(attr, style)"""

    def __new__(cls, a, style):
        t = tuple.__new__(cls, a)
        t.style = style
        return t


DELIMS = {"braces": "{}", "brackets": "[]"}


def styled(a):
    t = attr_src(tuple(a))
    st = a.style
    if st == "inner":
        return "#!" + t[1:]
    if st == "colon":
        return t.replace("#[hooq::", "#[::hooq::")
    if st == "spaced":
        return re.sub(r"^#\[(\w+)::(\w+)", r"# [ \1 :: /* c */ \2 ", t)
    if st == "lines":
        return re.sub(r"^#\[(\w+)::(\w+)", "#[ \\1 // x\n ::\n \\2 ", t)
    m = re.match(r"^(#\[hooq::\w+)\((.*)\)\]$", t, re.S)
    if st in DELIMS and m:
        return m.group(1) + DELIMS[st][0] + m.group(2) + DELIMS[st][1] + "]"
    if st == "comma" and m and a[0] in ("hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types") and a[1]:
        return m.group(1) + "(" + m.group(2) + " , )]"
    if st == "raw" and m and a[0] in ("hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types"):
        return m.group(1) + "(" + re.sub(r'"([^"]*)"', r'r#"\1"#', m.group(2)) + ")]"
    if st == "escape" and m and a[0] in ("hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types"):
        return m.group(1) + "(" + re.sub(r'"([^"])([^"]*)"', lambda q: '"\\u{%x}%s"' % (ord(q.group(1)), q.group(2)), m.group(2)) + ")]"
    return t


def inner_attrs(node):
    return [a for a in node.attrs if getattr(a, "style", "") == "inner"]


def attr_src(a):
    if isinstance(a, Sty):
        return styled(a)
    k = a[0]
    if k == "foreign":
        return a[1]
    if k in ("skip", "skip_all"):
        return f"#[hooq::{k}]"
    if k == "method":
        return f"#[hooq::method({a[1]})]"
    if k in ("hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types"):
        return f"#[hooq::{k}(" + ", ".join(lit(x) for x in a[1]) + ")]"
    if k == "hook_in_macros":
        return f"#[hooq::hook_in_macros({'true' if a[1] else 'false'})]"
    if k in ("binding", "var"):
        return f"#[hooq::{k}({a[1]} = {a[2]})]"
    if k == "bind":
        return f"#[hooq::{a[1]} = {a[2]}]"
    if k == "from":
        return f"#[hooq::{a[1]} = {a[3] if len(a) > 3 else a[2]}]"
    raise AssertionError(k)


# ---------------------------------------------------------------- nodes

class Node:
    attrs = ()
    call_ident = None      # last path segment when the node is a call of a path
    label = "node"
    prec = 3               # 3 postfix/primary, 2 prefix, 1 binary/cast, 0 loosest
    lead_block = False     # starts with a block-like expression
    pure_block = False     # is a block-like expression (needs no `;` as a statement)
    struct = False         # exposes a struct literal (illegal in `if`/`while`/`match`/`for` heads)
    lift = None            # macro_rules fragment kind this node is passed as
    lift_head = None       # the same for its leading text (the callee of a call)

    def emit(self, b):
        first = None
        lift0 = b.off
        for a in self.attrs:
            if b.plain and a[0] != "foreign" or getattr(a, "style", "") == "inner":
                continue
            if a[0] == "foreign" and first is None:
                first = b.pos()
            b.w(attr_src(a) + " ")
        self.s0, self.p0 = b.off, b.pos()
        self.pt = first or self.p0      # its first remaining token
        self.emit_body(b)
        self.s1 = b.off
        if self.lift:
            s0 = lift0 if self.lift == "item" or self.lift == "stmt" else self.s0
            d = 1 if self.lift == "paren" else 0
            semi = 1 if self.lift == "stmt" and b.parts[-1].endswith(";") else 0
            b.lifts.append((s0, self.s1 - semi, "expr" if d else self.lift, s0 + d, self.s1 - d - semi))

    def foreign(self):
        return "".join(a[1] + " " for a in self.attrs if a[0] == "foreign")

    def source(self, m):
        return self.foreign() + m.text[self.s0:self.s1]

    def walk(self, m, ctx):
        """non-tail position"""
        ctx2 = m.apply(self.attrs, ctx) if self.attrs else ctx
        return self.foreign() + self.walk_body(m, ctx2)

    def walk_tail(self, m, ctx, role):
        """role 'fn' or 'block': this expression is the tail of a body"""
        ctx2 = m.apply(self.attrs, ctx) if self.attrs else ctx
        m.enter(ctx2, self.label, role)
        out = self.foreign() + self.walk_body(m, ctx2)
        if isinstance(self, Ret):
            return out
        call = self.call_ident in ctx2.tails if self.call_ident else False
        ncall = self.call_ident in ctx2.ign if self.call_ident else False
        if call or (ctx2.is_result() and role == "fn" and not ncall):
            out, _ = m.fire("tail_expr", ctx2, out, self.source(m), self.pt, self)
        return out


class X(Node):
    """generic expression: parts are strings or child nodes, all in the same scope.
    A child wrapped in ('sub', node) is walked in the sub-scope."""

    def __init__(self, *parts, attrs=(), label=None, call=None, prec=3, struct=False):
        self.parts, self.attrs, self.call_ident, self.prec = parts, attrs, call, prec
        self.label = label or "x"
        f = parts[0]
        self.lead_block = isinstance(f, Node) and f.lead_block
        self.struct = struct or any(isinstance(p, Node) and p.struct for p in parts)

    def emit_body(self, b):
        for i, p in enumerate(self.parts):
            if isinstance(p, str):
                if i == 0 and self.lift_head:
                    b.lifts.append((b.off, b.off + len(p), self.lift_head, b.off, b.off + len(p)))
                b.w(p)
            elif isinstance(p, tuple):
                p[1].emit(b)
            else:
                p.emit(b)

    def walk_body(self, m, ctx):
        m.enter(ctx, self.label)
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, tuple):
                out.append(p[1].walk(m, m.sub(ctx)))
            else:
                out.append(p.walk(m, ctx))
        return "".join(out)


def atom(s, attrs=()):
    return X(s, attrs=attrs, label="atom")


def call(path, *args, attrs=(), fn=None):
    parts = [path, "("]
    for i, a in enumerate(args):
        if i:
            parts.append(", ")
        parts.append(a if not isinstance(a, str) else a)
    parts.append(")")
    return X(*parts, attrs=attrs, label="call", call=path_ident(path))


class Q(Node):
    label = "?"

    def __init__(self, e, attrs=()):
        self.e, self.attrs = e, attrs
        self.lead_block, self.struct = e.lead_block, e.struct

    def emit_body(self, b):
        self.e.emit(b)
        self.qp = b.pos()
        b.w("?")

    def walk_body(self, m, ctx):
        m.enter(ctx, "?")
        src = self.source(m)
        inner = self.e.walk(m, ctx)
        new, consumed = m.fire("question", ctx, inner, src, self.qp, self)
        if consumed:
            self.consumed = True
        return f"({new})" if consumed else f"({new})?"

    def walk(self, m, ctx):
        ctx2 = m.apply(self.attrs, ctx) if self.attrs else ctx
        return self.foreign() + self.walk_body(m, ctx2)


class Ret(Node):
    label = "return"
    prec = 0

    def __init__(self, e=None, attrs=()):
        self.e, self.attrs = e, attrs

    def emit_body(self, b):
        b.w("return")
        if self.e is not None:
            b.w(" ")
            self.e.emit(b)

    def walk_body(self, m, ctx):
        m.enter(ctx, "return")
        src = self.source(m)
        if self.e is None:
            return "return"
        out = self.e.walk(m, ctx)
        call_ = self.e.call_ident in ctx.tails if self.e.call_ident else False
        ncall = self.e.call_ident in ctx.ign if self.e.call_ident else False
        if call_ or (ctx.is_result() and not ncall):
            out, _ = m.fire("return", ctx, out, src, self.p0, self)
        return "return " + out


class Block:
    """{ stmts; tail }  (not an expression by itself)"""

    def __init__(self, stmts=(), tail=None):
        self.stmts, self.tail = list(stmts), tail
        if tail is None and self.stmts and getattr(self.stmts[-1], "label", "") == "bare-stmt":
            # a block-like expression at the end, without `;`, is the block's value
            self.tail = self.stmts.pop().parts[0]

    lift = None

    def emit(self, b, inner=()):
        s0 = b.off
        b.w("{ ")
        for a in inner:
            b.w(attr_src(a) + " ")
        for s in self.stmts:
            s.emit(b)
            b.w(" ")
        if self.tail is not None:
            self.tail.emit(b)
            b.w(" ")
        b.w("}")
        if self.lift:
            b.lifts.append((s0, b.off, "block", s0, b.off))

    def walk(self, m, ctx, role):
        ctx = m.sub(ctx)
        out = ["{ "]
        for s in self.stmts:
            out.append(s.walk(m, ctx))
            out.append(" ")
        if self.tail is not None:
            out.append(self.tail.walk_tail(m, ctx, role))
        out.append(" }")
        return "".join(out)


class Stmt(Node):
    """parts like X; semicolon included in the text"""

    def __init__(self, *parts, attrs=(), label="stmt"):
        self.parts, self.attrs, self.label = parts, attrs, label

    emit_body = X.emit_body
    walk_body = X.walk_body


def semi(e):
    return Stmt(e, ";", label="expr-stmt")


def bare(e):
    """block-like expression statement without semicolon (not a tail)"""
    return Stmt(e, label="bare-stmt")


class Let(Node):
    label = "let"

    def __init__(self, pat, init, else_=None, attrs=()):
        self.pat, self.init, self.else_, self.attrs = pat, init, else_, attrs

    def emit_body(self, b):
        b.w(f"let {self.pat} = ")
        self.init.emit(b)
        if self.else_ is not None:
            b.w(" else ")
            self.else_.emit(b)
        b.w(";")

    def walk_body(self, m, ctx):
        m.enter(ctx, "let")
        out = f"let {self.pat} = " + self.init.walk(m, ctx)
        if self.else_ is not None:
            m.enter(ctx, "let-else")
            out += " else " + self.else_.walk(m, ctx, "block")
        return out + ";"


class BlkX(Node):
    """prefix + block: `{}`, `unsafe {}`, `async {}`, `const {}`, `loop {}`, `'a: {}` ..."""

    lead_block = pure_block = True

    def __init__(self, block, prefix="", attrs=(), cond=None, mid=""):
        self.block, self.prefix, self.attrs, self.cond, self.mid = block, prefix, attrs, cond, mid
        self.label = "block:" + prefix.strip()
        if prefix.startswith("async"):
            self.lead_block = self.pure_block = False

    def is_block(self):
        """a plain or labelled block (one grammar production)"""
        return self.prefix == "" or re.match(r"^'\w+: $", self.prefix) is not None

    def emit_body(self, b):
        b.w(self.prefix)
        if self.cond is not None:
            self.cond.emit(b)
            b.w(" ")
        self.block.emit(b, inner_attrs(self))

    def walk_body(self, m, ctx):
        m.enter(ctx, self.label)
        out = self.prefix
        if self.cond is not None:
            out += self.cond.walk(m, ctx) + " "
        return out + self.block.walk(m, ctx, "block")


class If(Node):
    label = "if"
    lead_block = pure_block = True

    def __init__(self, cond, then, else_=None, attrs=()):
        self.cond, self.then, self.else_, self.attrs = cond, then, else_, attrs

    def emit_body(self, b):
        b.w("if ")
        self.cond.emit(b)
        b.w(" ")
        self.then.emit(b)
        if self.else_ is not None:
            b.w(" else ")
            self.else_.emit(b)

    def walk_body(self, m, ctx):
        m.enter(ctx, "if")
        out = "if " + self.cond.walk(m, ctx) + " " + self.then.walk(m, ctx, "block")
        if self.else_ is not None:
            s = m.sub(ctx)
            if isinstance(self.else_, Block):
                e = self.else_.walk(m, s, "block")
            else:
                e = self.else_.walk(m, s)
            out += " else " + e
        return out


class Match(Node):
    """arms: (pat, guard|None, body) with body a Node or a Block"""
    label = "match"
    lead_block = pure_block = True

    def __init__(self, scrut, arms, attrs=()):
        self.scrut, self.arms, self.attrs = scrut, arms, attrs

    def emit_body(self, b):
        b.w("match ")
        self.scrut.emit(b)
        b.w(" { ")
        for a in inner_attrs(self):
            b.w(attr_src(a) + " ")
        for pat, guard, body in self.arms:
            b.w(pat)
            if guard is not None:
                b.w(" if ")
                guard.emit(b)
            b.w(" => ")
            body.emit(b)
            b.w(", ")
        b.w("}")

    def walk_body(self, m, ctx):
        m.enter(ctx, "match")
        out = "match " + self.scrut.walk(m, ctx) + " { "
        s = m.sub(ctx)
        for pat, guard, body in self.arms:
            out += pat
            if guard is not None:
                m.enter(s, "guard")
                out += " if " + guard.walk(m, s)
            out += " => "
            if isinstance(body, Block):
                m.enter(s, "arm-block")
                out += body.walk(m, s, "block")
            elif isinstance(body, BlkX) and body.is_block():
                out += body.walk(m, s)
            else:
                m.enter(s, "arm")
                out += body.walk_tail(m, s, "block")
            out += ", "
        return out + "}"


class Closure(Node):
    label = "closure"
    prec = 0

    def __init__(self, body, params="", ret=None, prefix="", attrs=(), battrs=()):
        self.body, self.params, self.ret, self.prefix = body, params, ret, prefix
        self.attrs, self.battrs = attrs, battrs

    def head(self):
        r = f" -> {self.ret}" if self.ret else ""
        return f"{self.prefix}|{self.params}|{r} "

    lift_ret = False

    def emit_body(self, b):
        if self.lift_ret:
            o = b.off + len(f"{self.prefix}|{self.params}| -> ")
            b.lifts.append((o, o + len(self.ret), "ty", o, o + len(self.ret)))
        b.w(self.head())
        for a in self.battrs:
            if not b.plain or a[0] == "foreign":
                b.w(attr_src(a) + " ")
        self.body.emit(b)

    def walk_body(self, m, ctx):
        m.enter(ctx, "closure")
        name = f"__closure_in_{ctx.fnname or '<unknown>'}__"
        c = ctx.but(fn=(name, self.foreign() + self.head() + "{}", ret_ident(self.ret)))
        if isinstance(self.body, Block):
            if self.battrs:
                c = m.apply(self.battrs, c)
            m.enter(c, "closure-block", "fn")
            return self.head() + self.body.walk(m, c, "fn")
        if isinstance(self.body, BlkX) and self.body.is_block():
            # the block *is* the closure's body: its tail is the closure's tail
            bx = self.body
            c = m.apply(bx.attrs, c) if bx.attrs else c
            m.enter(c, "closure-block", "fn")
            return self.head() + bx.foreign() + bx.prefix + bx.block.walk(m, c, "fn")
        return self.head() + self.body.walk_tail(m, c, "fn")


def path_ident(text):
    """last segment identifier of a (possibly qualified) path, None when the text is no path"""
    t, out, depth = text.strip(), "", 0
    for i, ch in enumerate(t):
        if ch == "<":
            depth += 1
        elif ch == ">" and t[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out += ch
    out = re.sub(r"(\s*::\s*)+", "::", out).strip()
    out = out[:-2] if out.endswith("::") else out
    if not re.match(r"^(::)?[^\W\d]\w*(::[^\W\d]\w*)*$", out) or re.match(r"^(impl|dyn)\b", t):
        return None
    return out.rsplit("::", 1)[-1]


def ret_ident(ret):
    """identifier that decides whether the declared return type is a result type"""
    return None if ret is None else path_ident(ret)


class Fn(Node):
    """item / impl / trait function"""
    label = "fn"
    lift_ret = False

    def __init__(self, block, name="f", params="", ret="Result<i32, String>", quals="", generics="",
                 where="", attrs=(), ret_id=...):
        self.block, self.name, self.params, self.ret = block, name, params, ret
        self.quals, self.generics, self.where, self.attrs = quals, generics, where, attrs
        self.rid = ret_ident(ret) if ret_id is ... else ret_id

    def sig(self):
        r = f" -> {self.ret}" if self.ret else ""
        w = f" {self.where}" if self.where else ""
        return f"fn {self.name}{self.generics}({self.params}){r}{w}"

    def quals_sig(self):
        return re.sub(r"^pub(\([^)]*\))?\s*", "", self.quals)

    def emit_body(self, b):
        if self.lift_ret:
            o = b.off + len(self.quals + f"fn {self.name}{self.generics}({self.params}) -> ")
            b.lifts.append((o, o + len(self.ret), "ty", o, o + len(self.ret)))
        b.w(self.quals + self.sig() + " ")
        if self.block is None:
            b.w(";")
        else:
            self.block.emit(b, inner_attrs(self))

    def walk_body(self, m, ctx):
        m.enter(ctx, "fn")
        c = ctx.but(fn=(self.name, self.quals_sig() + self.sig(), self.rid), fnname=self.name, counter=Counter())
        if self.block is None:
            return self.quals + self.sig() + " ;"
        m.enter(c, "fn-body", "fn")
        return self.quals + self.sig() + " " + self.block.walk(m, c, "fn")


class Group(Node):
    """impl / trait / mod: head { items }"""

    def __init__(self, head, items, attrs=()):
        self.head, self.items, self.attrs = head, items, attrs
        self.label = head.split()[0]

    def emit_body(self, b):
        b.w(self.head + " { ")
        for a in inner_attrs(self):
            b.w(attr_src(a) + " ")
        for it in self.items:
            it.emit(b)
            b.w(" ")
        b.w("}")

    def walk_body(self, m, ctx):
        m.enter(ctx, self.label)
        return self.head + " { " + " ".join(it.walk(m, ctx) for it in self.items) + " }"


class ItemX(Node):
    """const/static: text with expression children; raw item when no children"""

    def __init__(self, *parts, attrs=(), label="item"):
        self.parts, self.attrs, self.label = parts, attrs, label

    emit_body = X.emit_body
    walk_body = X.walk_body


class Raw(Node):
    """an item or statement hooq must leave alone, attributes included"""

    def __init__(self, text, label="raw"):
        self.t, self.label = text, label

    def emit_body(self, b):
        b.w(self.t)

    def walk_body(self, m, ctx):
        m.enter(ctx, self.label)
        return self.t


class Mac(Node):
    """macro invocation.  entries: list of (node|str, sep).  `opaque` says that the
    argument list is not a `,`/`;` separated list of Rust fragments."""

    def __init__(self, entries, name="cap", delim="()", opaque=False, attrs=(), stmt_semi=""):
        self.entries, self.name, self.delim, self.opaque, self.attrs = entries, name, delim, opaque, attrs
        self.stmt_semi = stmt_semi
        self.label = "macro" + ("-opaque" if opaque else "")

    def emit_body(self, b):
        b.w(self.name + "!" + self.delim[0])
        for e, sep in self.entries:
            if isinstance(e, str):
                b.w(e)
            else:
                e.emit(b)
            b.w(sep)
        b.w(self.delim[1] + self.stmt_semi)

    def walk_body(self, m, ctx):
        m.enter(ctx, self.label)
        o, c = self.delim[0], self.delim[1]
        if self.opaque or not ctx.inmac:
            raw = m.text[self.s0:self.s1]
            return raw
        out = self.name + "!" + o
        for e, sep in self.entries:
            out += (e if isinstance(e, str) else mac_walk(e, m, ctx)) + sep
        return out + c + self.stmt_semi


def mac_walk(e, m, ctx):
    return e.walk(m, ctx)


class FieldVal(Node):
    """`name: expr` of a struct literal; attributes scope over the value"""
    label = "field"

    def __init__(self, name, e, attrs=()):
        self.name, self.e, self.attrs = name, e, attrs

    def emit_body(self, b):
        b.w(self.name + ": ")
        self.e.emit(b)

    def walk_body(self, m, ctx):
        return self.name + ": " + self.e.walk(m, ctx)
