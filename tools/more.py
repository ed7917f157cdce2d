prop("P07", "Position meta variables point at the site in the user's file",
     "`$line`, `$column`, `$path` and `$file` of a hook are the position of the `?`, of the `return` keyword, or of the first token of the tail expression (settings attributes excluded) in the file that "
     "contains it, counted in characters from 1, whatever layout, comments, multi-byte text or other sites precede it.",
     ["programs"], "all triples of layout gaps x site kinds x operand shapes with multi-byte and multi-line tokens; source path shapes, modules in other files, include!",
     "tests pin a few literal positions; the position depends on the whole text before the site",
     [("position meta variables", I + "method/render/mod.rs"), ("hook insertion", I + "walker/hook_expr.rs"), ("walk and spans", I + "walker/mod.rs")], N_EXP, T_EXP)
prop("P08", "`$expr` is the hooked expression and `$source` the text the user wrote",
     "Wherever a template mentions them, at any bracket depth and any number of times, `$expr` stands for the operand with its inner sites already hooked and keeps its grouping, and `$source` stands "
     "for the original tokens of the site (without any hook); all other template tokens come out unchanged.",
     ["programs"], "all templates of the table x every slot as operand with an inner site x every site kind",
     "tests use a few templates on simple operands; grouping and the original/hooked distinction break only for particular operand x template pairs",
     [("template parsing", I + "method/mod.rs"), ("meta variable substitution", I + "method/render/mod.rs"), ("hook insertion", I + "walker/hook_expr.rs")], N_EXP, T_EXP)
prop("P09", "`$fn_name` and `$fn_sig` name the innermost function or closure of the site",
     "`$fn_name` is the name of the innermost enclosing function, or `__closure_in_F__` for a closure within function F; `$fn_sig` is that function's signature as written (qualifiers, generics, "
     "parameters, return type, where clause) or the closure's head; constructs that are no functions never change them and leaving one restores the outer.",
     ["programs"], "all nestings of function-like and other constructs to depth 3; all signature parts pairwise; closures' heads",
     "tests look at one function and one closure; the value is restored context whose staleness needs nesting and siblings",
     [("function context", I + "inert_attr/context.rs"), ("rendering", I + "method/render/mod.rs")] + WALK, N_EXP, T_EXP)
prop("P10", "Bindings resolve to the innermost definition and metadata describes the site",
     "A binding mentioned in a template stands, as one grouped expression, for its innermost definition at the site (attributes over flavor, later over earlier, `#[hooq::x = ..]`, `binding` and `var` "
     "alike); `$bindings` lists exactly the bindings in scope with source text and value; `$hooq_meta` carries the site's line, column, path, file, source, count and bindings.",
     ["programs", "histories"], "all sequences of binding attributes to length 3 on one element, all assignments to 4 nested levels, value kinds x template positions; all (key, type) lookups at run time",
     "tests define one or two bindings on one function; shadowing and leakage need nested definitions",
     [("binding scopes", I + "inert_attr/context.rs"), ("binding attributes", I + "inert_attr/parse.rs"), ("metadata rendering", I + "method/render/mod.rs"), ("run-time lookup", "hooq-helpers/src/lib.rs")], N_EXP, T_EXP,
     observe=(EXP, "HooqMeta::get_binding results of a compiled program"))
prop("P11", "`$so_far` stands for the method in force just outside",
     "In a method attribute `$so_far` stands for the method that the current one overrides (the innermost of the enclosing elements, finally the flavor's), rendered for the same site, transitively and "
     "any number of times; elements that set no method are transparent, and siblings do not see it.",
     ["histories", "programs"], "all sequences to length 4 of method attributes over nested elements with transparent elements in between; six carriers",
     "tests chain two methods; an off-by-one in the chain or a leak shows only with three levels or siblings",
     [("method chain", I + "inert_attr/context.rs"), ("rendering of $so_far", I + "method/render/mod.rs")], N_EXP, T_EXP)
prop("P12", "Templates are inserted or replace as written; `!` consumes the `?` when enabled",
     "A template starting with `.` is appended to the operand as a method chain, any other replaces the hooked expression; with the consume feature a trailing `!` of the method in force removes the "
     "site's `?` (attributes and grouping kept), at `return`/tail sites it changes nothing; without the feature no `?` is ever removed, and templates behave identically in every feature set.",
     ["programs", "configurations"], "14 templates with/without `!` x every slot around and inside the site; assignments to nested levels; three feature sets",
     "tests use `!` on single expressions; precedence and mixed nested modes are untested",
     [("template parsing", I + "method/mod.rs"), ("hook insertion and `?` removal", I + "walker/hook_expr.rs"), ("walk of `?`", I + "walker/mod.rs")], N_EXP, T_EXP)
prop("P13", "A flavor resolves field by field from hooq.toml, its parent and the presets",
     "The flavor named by the root attribute, in any spelling, has each field from the innermost table of its path in hooq.toml that sets it, otherwise from the overridden preset or parent flavor, and "
     "for a new top-level flavor from the built-in default; the fields are independent of each other and of table order, and the hooks use exactly these.",
     ["configurations", "programs"], "all field subsets on every preset, parent x child subsets, grandchildren, list-valued fields, spellings, table orders, feature sets",
     "tests load a few hand-written hooq.toml files; a wrongly inherited field shows only for particular set/unset combinations over levels",
     [("flavor table and inheritance", I + "flavor/mod.rs"), ("presets", I + "flavor/presets/"), ("hooq.toml format", I + "flavor/toml_load/mod.rs"), ("root attribute", I + "root_attr/mod.rs")], N_EXP, T_EXP)
prop("P14", "`#[hooq::FIELD = flavor]` takes exactly that field from the flavor",
     "A settings attribute naming a flavor sets that one field (with `flavor`, all fields) for its element to the flavor's and leaves the others; within an element later attributes override earlier "
     "ones, lists accumulate only as documented, and nested elements start from the enclosing values.",
     ["histories", "configurations"], "all sequences to length 3 of settings attributes on one element, all pairs over nested elements and carriers, all fields x flavors x spellings",
     "tests apply single attributes; the combination of partial settings is a state machine over attribute histories",
     CTX + [("flavor lookup", I + "flavor/mod.rs")], N_EXP, T_EXP)
prop("P15", "Each item expands under its own project's hooq.toml, whatever came before",
     "The expansion of an item depends only on the item, its attribute and the hooq.toml of the project whose manifest directory is set at that moment; not on which items, projects, flavors or failures "
     "the same compiler process (proc-macro server, IDE, workspace build) handled earlier.",
     ["histories"], "all histories to length 3 of (project state x attribute) in one process, each length-2 history also in a process of its own",
     "tests compile one project per process; caches keyed too coarsely, poisoned by an error or filled by an absence need a history",
     [("per-directory toml cache and flavor table", I + "flavor/mod.rs")],
     "Each history is replayed in a real rustc process whose CARGO_MANIFEST_DIR is switched by a helper proc macro; every step must equal the model's history-free expansion. Trusts: the model, the "
     "switching macro. ", "exhaustive enumeration of histories up to a depth on the real proc macro in one process, compared with a history-free model")
prop("P16", "Source excerpts show the expression as laid out, cut as their options say",
     "The excerpt helpers render the expression with the user's line breaks, the positions in each line and the line numbers of the file; truncation keeps the first and last lines or characters its "
     "options allow, marks the cut, and never splits a character or fails, for every expression text and option value.",
     ["inputs", "configurations"], "expression shapes x layouts of every gap, option grid, all strings over 4 characters to length 4 and lengths to 14 x limits, number-width boundaries",
     "tests pin a few excerpts; off-by-one, multi-byte and width errors depend on particular layout x limit pairs",
     [("excerpt macros", "hooq-macros/src/impls/utils/source_excerpt_macros.rs"), ("excerpt rendering", "hooq-macros/src/impls/utils/source_excerpt.rs")],
     "Every input is evaluated by the real macros and compared with a small independent specification of the layout. Trusts: that specification, rustc. ",
     "exhaustive enumeration of inputs and options within bounds on the real proc macros against an executable specification")
prop("P17", "What hooq cannot apply as written is a compile error, never ignored",
     "An unknown or malformed hooq attribute, root attribute, flavor path, template, meta variable or hooq.toml entry produces a compile error at the annotated item, wherever it stands and whatever "
     "surrounds it, also inside skipped code (templates and meta variables: at every site that would use them); a well-formed one produces none.",
     ["inputs", "programs"], "malformed attributes x carriers x companions, malformed root attributes x items, unusable templates x ways to set them x sites, unusable hooq.toml files x levels, feature sets",
     "tests cover some diagnostics; a setting that is dropped silently changes which errors get logged without anyone noticing",
     [("attribute parser", I + "inert_attr/parse.rs"), ("root attribute", I + "root_attr/mod.rs"), ("hooq.toml format", I + "flavor/toml_load/mod.rs"), ("template substitution", I + "method/render/mod.rs")],
     "Each malformed input is expanded by the real macro and must produce an error on its own line; each well-formed control must produce none. Trusts: the tables of good and bad forms. ",
     "exhaustive enumeration of malformed and well-formed configurations on the real proc macro")
RUN = "output of the compiled programs, annotated and plain"
prop("P18", "Observing hooks leave the program's behaviour alone",
     "With a method that only observes its value, annotated code compiles whenever the plain code does and behaves exactly like it: same side effects in the same order, same result, same drops, whatever "
     "fails; each hook runs exactly once each time its site is evaluated, with the site's value, and at no other time.",
     ["programs", "schedules"], "all typed chains of executable constructs to length 2 (3 over the common ones), every combination of failing calls, all target sets, 5 methods, settings at every level; "
     "40 everyday programs x 7 forms, editions 2018/2021/2024",
     "tests run a few programs down one path; evaluation order, short circuits, loops, early exits, temporaries and closures multiply the paths a moved or doubled operand shows up on",
     WALK + [("hook rendering", I + "method/render/mod.rs")],
     "Programs are interpreted by an executable semantics and run, annotated and plain, under every combination of failing calls; traces must agree event by event. Trusts: the semantics (itself checked against the "
     "plain run), rustc. ", "explicit-state exploration of program x fault-pattern executions, each replayed on the compiled annotated program", observe=(RUN,))
prop("P19", "The preset flavors report every failing site once, through the real crates",
     "Under a preset flavor (default, anyhow, eyre, color_eyre, log, tracing, hook, and their level sub-flavors) each failing hooked site is reported exactly once, innermost first, with file, line, "
     "column, the error and the source excerpt, at the level in force; succeeding sites report nothing; `empty` reports nothing; the result carries the same root error.",
     ["programs", "configurations"], "16 presets x typed chains of constructs to length 2 x every combination of failing calls; None under the context flavors; all levels bound at every place",
     "tests show one or two snippets per preset; order, duplication and wrong levels need nested failing sites",
     [("presets", I + "flavor/presets/"), ("hook rendering", I + "method/render/mod.rs"), ("excerpt macros", "hooq-macros/src/impls/utils/source_excerpt_macros.rs")] + WALK[:1],
     "The programs run with the real anyhow, eyre, color-eyre, log and tracing; what their subscribers and error chains show must equal the model's. Trusts: the executable semantics, those crates. ",
     "explicit-state exploration of program x fault-pattern executions, each replayed on the compiled annotated program", observe=("log records, tracing events, error chains and standard error of the compiled programs",))
prop("P20", "The root attribute applies its flavor and its trait imports to its item only",
     "`#[hooq(FLAVOR, trait_use(A, B))]`, in any order and repetition its grammar admits, hooks the item with that flavor and imports exactly the listed traits and the flavor's, anonymously, next to the "
     "item; on items without code it changes nothing else.",
     ["inputs", "programs"], "all argument sequences to length 3 x 4 kinds of item, path forms x 9 kinds of item x flavors",
     "tests use one flavor or one trait at a time; a lost or misplaced import shows only with particular combinations",
     [("root attribute", I + "root_attr/mod.rs"), ("macro entry point", I + "mod.rs"), ("flavor table", I + "flavor/mod.rs")], N_EXP, T_EXP)
prop("P21", "Generated code names hooq as the project's Cargo.toml does",
     "Paths in generated code to hooq's own macros and types lead to the crate under the name the expanding project's Cargo.toml gives it (renamed, dashed, dev, target-specific or workspace-inherited "
     "dependency; `hooq` where it gives none), for every template and preset, whichever projects the compiler process handled before.",
     ["configurations", "histories"], "22 manifest forms x 9 kinds of reference; all histories to length 2 of projects in one process, length 3 over 6 forms",
     "tests run with one manifest each; a hard-wired or remembered name shows only with a renamed dependency or a second project",
     [("crate name lookup", I + "utils/get_hooq_crate_name.rs"), ("metadata rendering", I + "method/render/mod.rs"), ("presets", I + "flavor/presets/"), ("default method", I + "flavor/mod.rs")],
     "Programs are compiled against tagged stand-ins of the crate under every name and run; the tags seen must be the right ones. Trusts: the stand-ins, rustc. ",
     "exhaustive enumeration of configurations and histories to a depth on the real proc macro in one process", observe=("tags printed by the compiled programs",))
prop("P22", "The compiler's reports about the user's code stay what and where they were",
     "A mistake in annotated code (unresolved name, type, borrow, missing unsafe, misuse of `?`) and every lint it triggers is reported with the same code at the same line and columns as without hooks, and "
     "hooks add no report of their own, for methods that keep the type of their value.",
     ["programs"], "38 mistakes and lints x every typed slot and chains to length 2 x 5 methods",
     "one test pins two error messages; a lost span depends on the construct around the mistake and on the form of the method",
     [("hook rendering and spans", I + "method/render/mod.rs")] + WALK + [("macro arguments", I + "walker/walk_macro.rs")],
     "Each program is compiled annotated and plain in the same layout; the sets of (level, code, line, columns) must be equal. Lints about redundant parentheses are left out: what stands around the parentheses changes. "
     "Trusts: rustc's diagnostics. ", "exhaustive bounded enumeration of programs on the real proc macro, compared with the compiler's reports on the plain program", observe=("rustc --error-format=json",))
prop("P23", "Hooks mean the same whatever names the user's code defines",
     "Annotated code keeps compiling and hooks report the same whatever the surrounding code calls its own modules, types, traits, functions, macros, imports, generic parameters, labels, parameters and local "
     "variables, even without the prelude; and the user's own names keep their meaning inside hooked expressions, binding values and afterwards. (Not claimed: constants and statics in lower case.)",
     ["programs", "configurations"], "148 shadowing declarations x 10 presets x 5 programs, pairs of 59, triples of 10, every combination of failing calls, three editions",
     "tests never define a name that generated code also uses; only the meeting of one particular name with one particular preset fails",
     [("presets", I + "flavor/presets/"), ("default method", I + "flavor/mod.rs"), ("metadata rendering", I + "method/render/mod.rs"), ("excerpt macros", "hooq-macros/src/impls/utils/source_excerpt_macros.rs")],
     "As P19, with the shadowing declarations around the function or in it. Trusts: the executable semantics, the crates behind the presets. ",
     "explicit-state exploration of program x fault-pattern executions, each replayed on the compiled annotated program", observe=("log records, tracing events, error chains and standard error of the compiled programs",))
prop("P24", "Code from macro_rules fragments is treated like the same code written out",
     "When a `macro_rules!` macro generates annotated code, whatever of it arrives as a fragment (`$e:expr`, `$t:ty`, `$b:block`, `$s:stmt`, `$i:item`, `$p:path`, `$p:pat`, `$l:lifetime`, `$m:meta`, ..) is hooked, judged and configured "
     "exactly like the same tokens written out: the same sites, ordinals and tail and return rules, the same settings, methods and bindings, and a fragment keeps its own precedence wherever a method or a binding puts it.",
     ["programs"], "every slot x 8 sites x every subset of {site, slot, operand, return type} passed as fragments; pairs of 26 slots; every other fragment kind, at every place of a program and of the settings; hand-over through up to three macros",
     "the tests write their programs out; a fragment arrives as an invisible group that prints like its content, so only the meeting of one construct with one fragment kind shows the difference",
     WALK + CTX + [("macro arguments", I + "walker/walk_macro.rs"), ("method rendering", I + "method/render/mod.rs"), ("return type", I + "utils/function_info.rs"), ("entry", "hooq-macros/src/lib.rs")],
     N_EXP + "The oracle is the model's expansion of the program written out. Not claimed: what rustc itself loses of an invisible group in any attribute macro's output. ", T_EXP)
prop("P25", "An expansion depends on nothing but the program and its configuration",
     "Compiling the same annotated program with the same hooq.toml gives the same expansion and the same messages, in every process: hash seeds, the environment (other than the variables that say which project is compiled), "
     "the working directory and the number of compiler threads make no difference.",
     ["configurations", "schedules"], "all placements of 3 bindings x 5 methods, all projects over 3-4 flavors and their mistakes, pairs of malformed attributes; each under 64 hash seeds that realise every order of 3 names in every map, and under 16 environments",
     "a test sees one hash seed per run and passes or flickers; that some seed gives another order shows only when the seeds are driven",
     [("bindings", I + "inert_attr/context.rs"), ("flavor store", I + "flavor/mod.rs"), ("applying hooq.toml", I + "flavor/toml_load/apply.rs"), ("parsing hooq.toml", I + "flavor/toml_load/mod.rs"), ("attribute parser", I + "inert_attr/parse.rs")],
     "The compiler runs with a getrandom of our own, so that every order of 3 names (thorough: 4) is known to occur in every hash map; outputs and messages must be the same bytes. Trusts: the seed shim, rustc. ",
     "exhaustive enumeration of the nondeterministic choices (hash seeds, environment) of the real compiler process", observe=(EXP, "rustc's messages"))
