"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/table.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "hooq-macros/src/impls/"
WALK = [("recursive walk over items, statements and expressions", I + "walker/mod.rs"), ("hook insertion", I + "walker/hook_expr.rs")]
CTX = [("lexical hook context", I + "inert_attr/context.rs"), ("attribute parser", I + "inert_attr/parse.rs")]
EXP = "`rustc -Zunpretty=expanded` of the annotated program"

P = []


def prop(id, title, statement, over, text, why, mech, note, technique, observe=(EXP,), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, note=note,
                  technique=technique, observe=list(observe), state=list(state)))


T_EXP = "explicit-state model of the rewriting rules; exhaustive bounded program enumeration, every trace replayed on the real proc macro"
N_EXP = ("Every program of the bounded space is interpreted by the model and expanded by the real macro; the two expansions must be equal token for token "
         "(redundant parentheses, trailing commas and literal suffixes aside). Trusts: the model, the canonicaliser, rustc's expanded printer. ")

prop("P01", "Every `?` is hooked exactly once, in place, and nothing else changes",
     "Under the attribute, each `?` operator of the annotated item receives exactly one hook on its operand, whatever expression, statement or item it is nested in; "
     "every other token of the item, including types, patterns, generics and foreign attributes, comes out unchanged and the hooked operand keeps its grouping.",
     ["programs"], "all item bodies: every nesting of expression contexts, to depth 2 (3 for the core contexts), in tail, statement and initialiser place; all item kinds",
     "tests expand a few dozen hand-written functions; a context the walker forgets, visits twice or regroups shows up only in the nesting that uses it",
     WALK, N_EXP + "Bounds: nesting depth and slot table.", T_EXP)
prop("P02", "`return` values and tail expressions are hooked exactly when the rules say",
     "A `return` value or body tail is hooked exactly when it is a call named in the tail identifiers, or it ends a function or closure whose declared return type is a result type and it is not a "
     "call named in the ignore list; block, branch and arm tails are hooked only by the first rule; nothing else is hooked and each such site is hooked once.",
     ["programs", "configurations"], "all combinations of end expression, enclosing construct, declared return type, place and tail/ignore/result-type/target setting",
     "tests fix one return type and a handful of settings; the rule is a product of five independent conditions at every nesting level",
     WALK + CTX, N_EXP + "Bounds: nesting depth; table of return types and settings.", T_EXP)
prop("P03", "`skip` and `skip_all` suppress hooks exactly within their scope",
     "An element marked skip contributes no hook of its own while the bodies nested in it are hooked again; an element marked skip_all contributes no hook anywhere inside, whatever marks are "
     "nested in it; sites outside the element are unaffected, and a skipped site does not consume an ordinal.",
     ["programs"], "all assignments of {no mark, skip, skip_all} to all levels of all nestings within bounds, for every attribute carrier",
     "tests mark one level at a time; scope defects need marks on several nesting levels",
     WALK + CTX, N_EXP, T_EXP)
prop("P04", "Settings attributes act lexically and leave no trace",
     "A settings attribute on an element changes the hooks of that element and of everything nested in it and of nothing else; inner settings override outer ones; every settings attribute is removed "
     "from the output and every foreign attribute stays where it was, in order.",
     ["programs"], "every settings attribute form on every carrier and slot, every pair on nested elements, all interleavings with foreign attributes to length 3",
     "tests set attributes on functions and a few statements; leakage to siblings or loss of foreign attributes depends on carrier and nesting",
     CTX + WALK, N_EXP, T_EXP)
prop("P05", "Macro arguments are rewritten exactly when they are Rust fragment lists",
     "With hooking in macros enabled, an invocation whose arguments are a `,`/`;` separated list of Rust fragments has each fragment rewritten as if it stood there as code, separators kept; any other "
     "argument list, every macro definition, and every invocation where it is disabled or skipped, comes out verbatim; delimiters and position never matter.",
     ["programs"], "all fragment sequences to length 3 (12 kinds, both separators, all trailing separators), all delimiters and positions, nested macros to depth 3, opaque lists, item macros, all setting levels",
     "tests use a handful of well-known macros; token streams admit unboundedly many argument shapes",
     [("fragment-list parser and walker for macro tokens", I + "walker/walk_macro.rs")] + CTX, N_EXP, T_EXP)
prop("P06", "The ordinal of a hook counts the sites of its kind in its function",
     "The ordinal given to a hook is its position, in evaluation-text order, among the non-skipped sites of the same kind in the same function; other functions, however nested or ordered, never "
     "influence it, and it is written with the correct English suffix.",
     ["histories", "programs"], "all sequences of site events to length 3 (15 kinds), all pairs of functions in modules/impls/traits, ordinals to 230",
     "tests count at most a few sites; the counters are state carried through the whole walk and depend on the event history",
     [("per-kind counters", I + "inert_attr/context.rs"), ("ordinal rendering", I + "method/render/mod.rs")] + WALK, N_EXP + "Bounds: sequence length.", T_EXP)


def load_more():
    p = os.path.join(V, "tools", "more.py")
    if os.path.exists(p):
        exec(compile(open(p).read(), p, "exec"), globals())


NOT_APPLICABLE = []
load_more()


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            mech = [{"name": n, "where": w} for n, w in p["mech"]]
            files = []
            for m in mech:
                if m["where"] not in files:
                    files.append(m["where"])
            a = {"files": files, "mechanism": mech, "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": x[0], "meaning": x[1], "where": x[2]} for x in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
            for x in files:
                assert os.path.exists(os.path.join("/repo", x)), x
            assert len(p["title"]) <= 80, p["title"]
    na = {x["property"] for x in NOT_APPLICABLE}
    checks = [{"property": p["id"], "quick_cmd": f"python3 -m hq.check {p['id']} quick", "thorough_cmd": f"python3 -m hq.check {p['id']} thorough",
               "technique": p["technique"], "level": "model_checking", "level_note": p["note"].strip()} for p in P if p["id"] not in na]
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -m hq.build", "checks": checks, "not_applicable": NOT_APPLICABLE,
                   "notes": "No hooks were added to /repo: every check drives the unmodified proc macro through rustc."}, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
