#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
W = "hooq-macros/src/impls/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=[W + f if not f.startswith("hooq") else f for f in files], state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=None)))


EXP = ["token stream returned by #[hooq] for an item"]

p("C01", "Every enabled `?` gets the method exactly once, on its own operand",
  "In the expansion of an item, every `?` in the code hooq visits whose hooking is enabled (hook target `?` on, not "
  "skipped) has the method in force at that place applied exactly once to its operand, the operand having been "
  "processed first; every other `?` stays as written. The visited code is every sub-expression, in source order, of "
  "every expression form (operands on both sides of assignments and operators, receivers, arguments, indices, "
  "conditions, match scrutinees, guards and arms, closure and block bodies, struct fields, let initialisers with "
  "their else branch, break/return/yield values), nested items, impl/trait/mod members and const/static values.",
  ["programs", "configurations"],
  "all items, all nestings of all expression, statement and item forms, all settings in force",
  "The snapshot tests expand a few dozen fixed functions; a form that is not descended into only in some nesting, or a "
  "hook applied twice, needs arbitrary recursive nesting of ~40 expression forms.",
  ["walker/mod.rs", "walker/hook_expr.rs"],
  [("walk_expr / walk_stmt / walk_item recursion", W + "walker/mod.rs"), ("hook_expr", W + "walker/hook_expr.rs")], EXP)

p("C02", "`return` and tail values are hooked exactly when the documented rule says",
  "A `return` value, or the tail expression of a function or closure body, is hooked once iff its target kind is "
  "enabled, it is not skipped, and either it is a call whose path ends in a tail_expr_idents ident or the declared "
  "return type's path ends in a result_types ident and the value is not a call whose path ends in an "
  "ignore_tail_expr_idents ident. The tail of any other block or match arm is hooked only in the tail_expr_idents "
  "case, a non-tail statement or one with a trailing semicolon never, and a tail that is itself a `return` only as a "
  "return; the rule uses the innermost enclosing function or closure.",
  ["programs", "configurations"],
  "all functions, methods and closures, all block nestings, all ident lists and return types",
  "The rule combines four settings, the block kind, the statement position and the enclosing function; tests sample a "
  "handful of combinations.",
  ["walker/mod.rs", "inert_attr/context.rs", "utils/function_info.rs", "utils/mod.rs"],
  [("handle_tail_expr, Expr::Return arm, target_call_check_bools", W + "walker/mod.rs"),
   ("return_type_is_result, path_is_hook_call_like_err, path_is_not_hook_call_like_ok", W + "inert_attr/context.rs"),
   ("path_is_end_of", W + "utils/mod.rs")], EXP)

p("C03", "Nothing but hooks and hooq attributes changes",
  "Erasing the inserted hooks from the expansion gives back the input item with its hooq attributes removed: no "
  "expression, statement, item, pattern, type, token or foreign attribute is dropped, duplicated, reordered or "
  "altered. With all hook targets off the expansion is exactly the input without the hooq attributes, and no hooq "
  "attribute survives on an item, member, statement, expression, struct-field value or match arm that contains code "
  "hooq visits.",
  ["programs", "configurations"],
  "all items and all settings",
  "Preservation is about everything that did not change, in every construct; snapshots only show it for their own code.",
  ["walker/mod.rs", "walker/hook_expr.rs", "walker/walk_macro.rs", "inert_attr/parse.rs", "utils/get_attrs.rs"],
  [("in-place mutation of only the hooked nodes and attrs", W + "walker/mod.rs"),
   ("keeps/retain in extract_hooq_info_from_attrs", W + "inert_attr/parse.rs"),
   ("get_attrs_from_expr", W + "utils/get_attrs.rs")], EXP)

p("C04", "skip covers exactly its scope, skip_all everything inside",
  "Under #[hooq::skip_all] no hook is applied anywhere inside the annotated construct, at any depth and whatever other "
  "hooq attributes (including skip) appear inside it. Under #[hooq::skip] no hook is applied to the annotated "
  "construct and what it contains up to, but not into, nested scopes (blocks, bodies, branches, match arms), which are "
  "hooked as if there were no skip; siblings and what follows are unaffected. Skipped places do not advance `$count`, "
  "and the hooq attributes inside a skipped region are still consumed.",
  ["programs", "configurations"],
  "all nestings of skip, skip_all and scopes",
  "Depends on the interleaving of two attributes with every scope-opening construct at unbounded depth.",
  ["inert_attr/mod.rs", "inert_attr/context.rs", "walker/mod.rs", "walker/hook_expr.rs"],
  [("SkipStatus in for_sub_scope_context / updated_by_inert_attr / is_skipped", W + "inert_attr/context.rs"),
   ("handle_inert_attrs", W + "inert_attr/mod.rs")], EXP,
  [dict(name="skip_status", meaning="None, SkipSameScope or SkipAll at this node", where=W + "inert_attr/context.rs")])

p("C05", "A setting applies to its construct and everything inside, and nowhere else",
  "Each hooq setting (method, hook_targets, tail_expr_idents, ignore_tail_expr_idents, result_types, hook_in_macros, "
  "bindings) written on a construct is in force for that construct and everything nested in it until overridden "
  "there, and never for siblings, enclosing or later code. A setting that is not written is inherited from the "
  "innermost enclosing construct that wrote it, finally from the root flavor; bindings merge name by name, the "
  "innermost value winning.",
  ["programs", "configurations"],
  "all nestings of attributes and constructs",
  "Leaks between siblings or lost inheritance of one field show up only for particular attribute/nesting combinations.",
  ["inert_attr/context.rs", "inert_attr/mod.rs", "walker/mod.rs"],
  [("HookContext::new / updated_by_inert_attr / for_sub_scope_context", W + "inert_attr/context.rs"),
   ("LocalContextField::from_parent / merged_from_parent", W + "inert_attr/context.rs")], EXP,
  [dict(name="LocalContext", meaning="settings in force at a node", where=W + "inert_attr/context.rs")])

p("C06", "The attributes on one construct are read as documented",
  "Of several hooq attributes on one construct the last one that sets a field wins for that field (a flavor "
  "assignment sets all fields, and its bindings are added), except that ignore lists given on the same construct "
  "accumulate: `!Ident` in tail_expr_idents counts as an ignore ident, and only a non-empty or explicitly written "
  "ignore list overrides the inherited one. hook_targets accepts exactly the documented names (`?`/question, return, "
  "tail_expr spellings, all), and every other hooq-prefixed list or bare attribute, unknown target, malformed value "
  "or unknown flavor is reported as an error, while `#[hooq::x = v]`, binding(x = v) and var(x = v) define the "
  "binding x. Attributes that are not hooq's are neither interpreted nor removed.",
  ["inputs", "configurations"],
  "all sequences of attributes on a construct",
  "Order and combination of a dozen attribute forms; tests use mostly one attribute at a time.",
  ["inert_attr/parse.rs", "inert_attr/context.rs"],
  [("extract_hooq_info_from_attrs", W + "inert_attr/parse.rs"), ("get_binding_name, get_flavor_path, "
   "Strings::split_include_or_not_include", W + "inert_attr/parse.rs"),
   ("HookTargetSwitch::try_from", W + "inert_attr/context.rs")], EXP)

p("C07", "`$count` numbers the targets of each kind in processing order",
  "Within one expansion the targets of each kind (`?`, return, tail expr) that are not skipped are numbered 1, 2, 3, "
  "... without gaps or repeats in the order they are processed (source order, an operand before its operator), each "
  "kind on its own and including targets whose kind is switched off. `$count` renders as the number, its English "
  "ordinal suffix (11th, 12th, 13th, 111th, but 21st, 102nd, 1003rd) and the kind.",
  ["programs", "inputs"],
  "all programs, all counts",
  "Tests see the first few ordinals only; suffix rules and gap-freeness range over all counts and nestings.",
  ["inert_attr/context.rs", "walker/hook_expr.rs", "method/render/mod.rs"],
  [("Counter::count_up / get_count", W + "inert_attr/context.rs"), ("hook_expr", W + "walker/hook_expr.rs"),
   ("HookInfo::get_count", W + "method/render/mod.rs")], EXP,
  [dict(name="Counter", meaning="targets seen so far, per kind", where=W + "inert_attr/context.rs")])

p("C08", "Meta variables in a method expand everywhere, and nothing else does",
  "Every `$name` in the method, at any depth of delimiters, is replaced by the value documented for that name or alias "
  "(predefined names take precedence over bindings, otherwise the innermost binding of that name), and all other "
  "tokens and delimiters are kept in order. `$bindings` lists every binding in force sorted by name, `$source` is the "
  "target as written (hooq attributes on it removed, inner code unhooked) and `$expr` the operand after inner hooks. "
  "A `$` that is not followed by a name, or an unknown name, is a compile error rather than silently dropped or kept.",
  ["inputs", "configurations"],
  "all method token trees, all bindings",
  "Methods are arbitrary token trees; tests use a few shallow ones.",
  ["method/render/mod.rs", "method/render/meta_vars.rs", "inert_attr/context.rs"],
  [("expand_meta_vars / meta_vars2token_stream", W + "method/render/mod.rs"),
   ("MetaVars::from_str", W + "method/render/meta_vars.rs"),
   ("HookInfo::available_bindings / get_binding", W + "inert_attr/context.rs")], EXP)

p("C09", "`$so_far` is the method this one overrides, resolved one level at a time",
  "`$so_far` expands to the body (without the leading dot) of the method that the method containing it overrides, and "
  "a `$so_far` inside that body to the next one out, so that a chain of n nested methods expands in order from the "
  "innermost outwards and ends at the root flavor's method; other meta variables in the inherited body take their "
  "values at the hooked target. Using it where nothing is overridden is a compile error.",
  ["programs", "configurations"],
  "all nestings of method overrides of any depth",
  "Tests chain two or three levels; resolution must be right at every depth and with intermediate constructs that "
  "do not override.",
  ["method/render/mod.rs", "inert_attr/context.rs"],
  [("MetaVars::SoFar", W + "method/render/mod.rs"), ("overridden_ancestor", W + "inert_attr/context.rs")], EXP)

p("C10", "Insertion appends to the whole target, replacement replaces it",
  "A method that starts with `.` is appended to the whole target expression (in parentheses when it binds weaker than "
  "a method call), before the `?` or at the end of the return/tail value; any other method replaces the target "
  "expression, keeping a `?` behind it. With the consume-question feature a method ending in `!` loses that one `!` "
  "and a hooked `?` is then removed; without the feature, for return and tail targets, and for a `!` elsewhere, "
  "nothing is consumed.",
  ["inputs", "configurations"],
  "all methods and target expressions, feature on and off",
  "Precedence of every expression form against appended calls and the placement of `!` is not sampled by the tests.",
  ["method/mod.rs", "method/render/mod.rs", "walker/mod.rs"],
  [("Method::parse, split_tail_exclamation", W + "method/mod.rs"),
   ("render_expr_with_method", W + "method/render/mod.rs"), ("Expr::Try arm", W + "walker/mod.rs")], EXP)

p("C11", "Macro arguments are hooked only as whole Rust fragments, else left untouched",
  "The arguments of a function-like macro are processed iff hook_in_macros is in force there and they split completely "
  "into items, expressions or statements each followed by `,`, `;` or the end; then each fragment is processed in order like "
  "ordinary code with the same settings (no fragment counting as a tail expression) and every separator is kept. "
  "Otherwise the tokens of the call are left exactly as written, and macro_rules definitions are never touched.",
  ["inputs", "programs"],
  "all macro calls in expression, statement, item and member position, all argument token streams",
  "Argument grammars are open-ended and the fragments nest further macros.",
  ["walker/walk_macro.rs", "walker/mod.rs"],
  [("walk_macro, handle_token_stream, EvaluableList::parse", W + "walker/walk_macro.rs")], EXP)

p("C12", "A flavor name denotes exactly the table at that path",
  "`a.b.c`, `a::b::c` and mixtures of the two, as a string or a path, denote sub-flavor c of b of a; the lookup returns "
  "that flavor's own settings if every step exists and otherwise an error that lists every available flavor path "
  "once, and never falls back to a prefix or another flavor. Empty segments and generic arguments are rejected, and a "
  "missing flavor argument means `default`, including a `default` redefined in hooq.toml.",
  ["inputs", "configurations"],
  "all flavor trees and all name strings/paths",
  "Arbitrary trees and separators; tests use depth one or two.",
  ["flavor/mod.rs", "flavor/flavor_path.rs", "root_attr/mod.rs", "root_attr/parse.rs"],
  [("FlavorPath::try_from", W + "flavor/flavor_path.rs"), ("get_flavor_inner, get_flavor, all_flavor_names",
   W + "flavor/mod.rs"), ("RootContext::load", W + "root_attr/mod.rs")],
  ["settings applied by #[hooq(flavor)] and #[hooq::x = flavor]"])

p("C13", "hooq.toml tables override the fields they write and inherit the rest",
  "A table changes exactly the fields it writes: a table named like a built-in flavor starts from that flavor, a new "
  "top-level table from the default settings, and a new sub-table from its parent table as written in the same file, "
  "except that trait_uses is always taken from the table itself; bindings are added name by name and `!Ident` in "
  "tail_expr_idents goes to the ignore list. A table named `empty` or with an empty name, an unknown hook target, or "
  "text that does not parse is an error, and tables never affect other tables except their own sub-tables.",
  ["configurations"],
  "all hooq.toml contents",
  "Each field is optional at each level of an arbitrary tree.",
  ["flavor/toml_load/apply.rs", "flavor/mod.rs"],
  [("update_flavor_inner", W + "flavor/toml_load/apply.rs")], ["settings in force under the flavor"])

p("C14", "String truncation keeps the ends of each over-long line and nothing else changes",
  "Truncating with limit n leaves every line (split at newlines) of every string literal of at most n characters "
  "unchanged and replaces a longer one by its first floor((n-2)/2) characters, `..`, and its last ceil((n-2)/2) "
  "characters, so the result has max(n, 2) characters; line breaks are kept, characters are never split, and the default limit is 10 with four "
  "characters kept at each end. Nothing but ordinary string literals in the expression changes, and no limit makes "
  "it fail.",
  ["inputs"],
  "all expressions, string contents (any Unicode) and limits",
  "Lengths, limits (including 0, 1, 2) and Unicode contents are unbounded; tests use two literals.",
  ["utils/source_excerpt.rs"],
  [("TruncateStrFolder::new / fold_lit_str", W + "utils/source_excerpt.rs")],
  ["output of truncate_lit_str!, one_line_stringify!, excerpted_pretty_stringify!"])

p("C15", "Excerpts keep the first line and the last lines within the limit",
  "excerpted_pretty_stringify! with limit n>=2 returns all lines if there are at most max(n,2), and otherwise the first "
  "line, one `...` line, and exactly the last n-1 lines, each as pretty_stringify! prints it; with n=1 it returns only "
  "the last line, and n=0 is an error. The requested padding lines surround the excerpt and are not counted.",
  ["inputs"],
  "all expressions and limits",
  "Line counts and limits range over all naturals, with boundary cases around n = lines, 1, 2.",
  ["utils/source_excerpt.rs"],
  [("into_excerpted_line_pretty_str", W + "utils/source_excerpt.rs")], ["output of excerpted_pretty_stringify!"])

p("C16", "Pretty printing reproduces every token on its own source line",
  "pretty_stringify! prints every token of the expression once, in order, nothing else but white space, with as many "
  "line breaks between two tokens as there are in the source; with line numbers each output line carries the number "
  "of the source line its tokens stand on, right-aligned to a common width of at least four, `>` marking the first "
  "line and `|` the others. one_line_stringify! is the same text with its lines trimmed and joined by single spaces.",
  ["inputs"],
  "all expressions with any layout",
  "Layouts (line gaps, columns, nesting, multi-line literals) are unbounded.",
  ["utils/source_excerpt.rs"],
  [("into_pretty_str_inner, add_tt, add_line_prefix", W + "utils/source_excerpt.rs")],
  ["output of pretty_stringify! and one_line_stringify!"])

p("C17", "`$fn_name` and `$fn_sig` name the innermost enclosing function or closure",
  "At every hooked place `$fn_name` is the name of the innermost enclosing function or method, or, inside a closure, "
  "`__closure_in_F__` with F the nearest enclosing function however many closures lie between; `$fn_sig` is that "
  "function's signature, or the closure's text with its body emptied. Outside any function both are `<unknown>`, and "
  "leaving a closure or nested function restores the outer values.",
  ["programs"],
  "all nestings of functions, methods, closures, items",
  "Nesting depth and mixture of closures and functions is unbounded.",
  ["utils/function_info.rs", "walker/mod.rs", "inert_attr/context.rs", "method/render/mod.rs"],
  [("ClosureInfo::new, FunctionInfo::name/sig", W + "utils/function_info.rs"),
   ("update_fn_info", W + "inert_attr/context.rs")], EXP)

p("C18", "HooqMeta::get_binding returns a binding iff name and type match",
  "get_binding::<T>(key) returns the stored value, shared and not copied, iff a binding of exactly that name exists and "
  "its value has type T, and None otherwise; it never panics and never changes the metadata.",
  ["inputs"],
  "all binding maps, keys and types",
  "All combinations of key and type; the tests call it for one or two bindings.",
  ["hooq-helpers/src/lib.rs"],
  [("HooqMeta::get_binding", "hooq-helpers/src/lib.rs")], ["return value of get_binding"])

p("C19", "Helper-macro options have exactly their documented effect",
  "In the excerpt helper macros, options written before the expression in any order set exactly their own parameter "
  "(the last one winning) and leave the others at the documented defaults: @excerpt_line=n (default 5), @truncate_str "
  "(limit 10) or @truncate_str=n, @show_line_num, and @padding (both) or @padding=\"top\"|\"bottom\"|\"both\". An unknown "
  "option, a missing or mistyped value, or an unknown padding is a compile error.",
  ["inputs"],
  "all option sequences",
  "All orders, repetitions and values; tests use a few fixed ones.",
  ["utils/source_excerpt_macros.rs"],
  [("ExcerptMacroArgs::parse, pretty_stringify, one_line_stringify, excerpted_pretty_stringify",
    W + "utils/source_excerpt_macros.rs")], ["output of the helper macros"])

p("C20", "Trait imports are emitted once each, in order, and only outside the item",
  "The expansion is one `#[allow(unused)] use PATH as _;` per trait path, first those of all trait_use(...)/"
  "trait_uses(...) arguments in order and then the applied flavor's trait_uses in order, followed by the item; "
  "no path is lost, repeated or reordered, a flavor named later in the arguments replaces an earlier one, and an "
  "argument of any other form is an error.",
  ["configurations"],
  "all root argument lists and flavors",
  "All sequences of root arguments combined with any flavor.",
  ["root_attr/mod.rs", "root_attr/parse.rs", "mod.rs"],
  [("RootContext::load / trait_uses_token_stream", W + "root_attr/mod.rs"),
   ("RootAttribute::parse, parse_meta_list", W + "root_attr/parse.rs"), ("hooq_impls", W + "mod.rs")], EXP)

p("C21", "Expansions do not influence one another",
  "What an item expands to, or whether it is refused, depends only on the item, the arguments of its attribute and the "
  "hooq.toml of its own project, as it is during the compilation: not on which other expansions ran before in the same "
  "compiler process, in whatever project, order or number, whether they succeeded or failed, and not on the order of a "
  "hash table. Ordinals, the function at hand and every setting start afresh for each item.",
  ["histories", "programs", "configurations"],
  "all sequences of expansions in one compiler process (a rust-analyzer proc-macro server serves several projects)",
  "The kept hooq.toml is process-wide state; every test compiles one project, with at most one hooq.toml, and cannot "
  "see what a second project, an earlier failure or a repeated expansion would be given.",
  ["flavor/mod.rs", "root_attr/mod.rs", "mod.rs", "inert_attr/context.rs"],
  [("TomlStore::load / get / set", W + "flavor/mod.rs"), ("FlavorStore::with_hooq_toml", W + "flavor/mod.rs"),
   ("RootContext::load", W + "root_attr/mod.rs")], EXP, ["LOADED_HOOQ_TOML"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
