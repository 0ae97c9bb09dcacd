#!/usr/bin/env python3
"""Generates specs/walk_spec.vspec: what processing each construct means, from the table of expression forms below
(children in source order, and whether a child opens a nested scope).  The walk functions of /repo are proved against it."""
import os
# form: (variant, struct, [children]); child = (field, kind)
# kinds: box, opt (Option<Box>), optpair (Option<(Tok, Box)>), list (Punctuated<Expr>), block:<tail>, sub (switch to the nested scope),
#        subblock is block that opens the scope itself
B = "block:TailExprTargetKind::BlockTailExpr"
FORMS = [
    ("Array", [("elems", "list")]),
    ("Assign", [("left", "box"), ("right", "box")]),
    ("Async", [("block", B)]),
    ("Await", [("base", "box")]),
    ("Binary", [("left", "box"), ("right", "box")]),
    ("Block", [("block", B)]),
    ("Break", [("expr", "opt")]),
    ("Call", [("func", "box"), ("args", "list")]),
    ("Cast", [("expr", "box")]),
    ("Const", [("block", B)]),
    ("Field", [("base", "box")]),
    ("ForLoop", [("expr", "box"), ("body", B)]),
    ("Group", [("expr", "box")]),
    ("If", [("cond", "box"), ("then_branch", B), ("else_branch", "optpair_sub")]),
    ("Index", [("expr", "box"), ("index", "box")]),
    ("Let", [("expr", "box")]),
    ("Loop", [("body", B)]),
    ("Match", [("expr", "box"), ("arms", "arms_sub")]),
    ("MethodCall", [("receiver", "box"), ("args", "list")]),
    ("Paren", [("expr", "box")]),
    ("Range", [("start", "opt"), ("end", "opt")]),
    ("RawAddr", [("expr", "box")]),
    ("Reference", [("expr", "box")]),
    ("Repeat", [("expr", "box"), ("len", "box")]),
    ("Struct", [("fields", "fields"), ("rest", "opt")]),
    ("TryBlock", [("block", B)]),
    ("Tuple", [("elems", "list")]),
    ("Unary", [("expr", "box")]),
    ("Unsafe", [("block", B)]),
    ("While", [("cond", "box"), ("body", B)]),
    ("Yield", [("expr", "opt")]),
]
SPECIAL = ["Try", "Return", "Closure", "Macro"]
LEAVES = ["Continue", "Infer", "Lit", "Path"]
ALL = [f for f, _ in FORMS] + SPECIAL + LEAVES

def child(x, field, kind, ctx, k, new, body):
    """text binding `new` (value for the field) and k+1, around body(k+1)"""
    n = k + 1
    if kind == "box":
        return f"match sp_expr(*{x}.{field}, {ctx}, k{k}) {{ None => None, Some((z{n}, k{n})) => {body(n, f'Box::new(z{n})')} }}"
    if kind == "opt":
        return f"match sp_opt({x}.{field}, {ctx}, k{k}) {{ None => None, Some((z{n}, k{n})) => {body(n, f'z{n}')} }}"
    if kind == "optpair_sub":
        return f"match sp_optpair({x}.{field}, sub_ctx({ctx}), k{k}) {{ None => None, Some((z{n}, k{n})) => {body(n, f'z{n}')} }}"
    if kind == "list":
        return f"match sp_exprs({x}.{field}.items, {ctx}, 0, Seq::empty(), k{k}) {{ None => None, Some((z{n}, k{n})) => {body(n, f'{x}.{field}.with_seq(z{n})')} }}"
    if kind.startswith("block:"):
        t = kind[6:]
        return f"match sp_block({x}.{field}, {t}, {ctx}, k{k}) {{ None => None, Some((z{n}, k{n})) => {body(n, f'z{n}')} }}"
    if kind == "arms_sub":
        return f"match sp_arms({x}.{field}, sub_ctx({ctx}), 0, Seq::empty(), k{k}) {{ None => None, Some((z{n}, k{n})) => {body(n, f'vec_of(z{n})')} }}"
    if kind == "fields":
        return f"match sp_fields({x}.{field}.items, {ctx}, 0, Seq::empty(), k{k}) {{ None => None, Some((z{n}, k{n})) => {body(n, f'{x}.{field}.with_seq(z{n})')} }}"
    raise Exception(kind)

def form(v, kids):
    def rec(i, k, vals):
        if i == len(kids):
            fs = ", ".join(f"{f}: {e}" for (f, _), e in zip(kids, vals))
            return f"Some((Expr::{v}(Expr{v} {{ attrs: at, {fs}, ..x }}), k{k}))"
        f, kd = kids[i]
        return child("x", f, kd, "c", k, None, lambda n, e: rec(i + 1, n, vals + [e]))
    parts[v] = rec(0, 0, [])
    return f"        Expr::{v}(x) => core_{v}(x, at, c, k0),\n"
parts = {}
NOTES = {'Try': 'C01: the operand first, then the `?` itself', 'Return': 'C02: a return value by the rule for return', 'Closure': 'C02 C17: the body of a closure is a function body of its own', 'Macro': ''}
SP = {
    'Try': '''match sp_expr(*x.expr, c, k0) {
            None => None,
            Some((z1, k1)) => match sp_hook(z1, tokens_of(ExprTry { attrs: at, ..x }), HookTargetKind::Question, span_of(x.question_token), c, k1) {
                None => None,
                Some((z2, consumed, k2)) => Some((if consumed { outer_attrs(z2, at) } else { Expr::Try(ExprTry { attrs: at, expr: Box::new(z2), ..x }) }, k2)),
            },
        }''',
    'Return': '''match x.expr {
            None => Some((Expr::Return(ExprReturn { attrs: at, ..x }), k0)),
            Some(v) => match sp_expr(*v, c, k0) {
                None => None,
                Some((z1, k1)) => if return_target(z1, c) {
                    match sp_hook(z1, tokens_of(ExprReturn { attrs: at, ..x }), HookTargetKind::Return, span_of(x.return_token), c, k1) {
                        None => None,
                        Some((z2, _, k2)) => Some((Expr::Return(ExprReturn { attrs: at, expr: Some(Box::new(z2)), ..x }), k2)),
                    }
                } else { Some((Expr::Return(ExprReturn { attrs: at, expr: Some(Box::new(z1)), ..x }), k1)) },
            },
        }''',
    'Closure': '''{
            let cc = closure_ctx(c, ExprClosure { attrs: at, ..x });
            match *x.body {
                Expr::Block(b) => match sp_attrs(b.attrs, cc) {
                    None => None,
                    Some((bat, c2)) => match sp_block(b.block, TailExprTargetKind::FnBlockTailExpr, c2, k0) {
                        None => None,
                        Some((z1, k1)) => Some((Expr::Closure(ExprClosure { attrs: at, body: Box::new(Expr::Block(ExprBlock { attrs: bat, block: z1, ..b })), ..x }), k1)),
                    },
                },
                _ => match sp_tail(*x.body, TailExprTargetKind::FnBlockTailExpr, cc, k0) {
                    None => None,
                    Some((z1, k1)) => Some((Expr::Closure(ExprClosure { attrs: at, body: Box::new(z1), ..x }), k1)),
                },
            }
        }''',
    'Macro': '''match sp_macro(x.mac, c, k0) {
            None => None,
            Some((m, k1)) => Some((Expr::Macro(ExprMacro { attrs: at, mac: m }), k1)),
        }''',
}
parts.update(SP)

o = []
o.append("// generated by tools/gen_walk.py; do not edit\n")
o.append("//@synty " + " ".join(["Expr", "ExprLet", "Stmt", "Block", "Local", "LocalInit", "StmtMacro", "Arm", "FieldValue", "Macro"] +
         ["Expr" + v for v in ALL if v not in ("Let", "Closure")] +
         ["Item", "ItemFn", "ItemImpl", "ItemMod", "ItemConst", "ItemStatic", "ItemTrait", "ItemMacro", "ImplItem", "ImplItemFn", "ImplItemConst", "ImplItemMacro",
          "TraitItem", "TraitItemConst", "TraitItemFn", "TraitItemMacro", "File"]) + "\n")
o.append("//@ty walker/mod.rs TailExprTargetKind TargetCallCheckBools\n//@ty inert_attr/mod.rs HandleInertAttrsResult\n//@ty walker/walk_macro.rs Evaluable EvaluableList\n")
o.append("pub type St = Map<int, Counter>;\n")
o.append("#[verifier::opaque]\npub open spec fn attrs_of(e: Expr) -> Option<Vec<Attribute>> {\n    match e {\n")
for v in ALL:
    o.append(f"        Expr::{v}(x) => Some(x.attrs),\n")
o.append("        _ => None,\n    }\n}\n")
o.append("#[verifier::opaque]\npub open spec fn with_attrs(e: Expr, at: Vec<Attribute>) -> Expr {\n    match e {\n")
for v in ALL:
    o.append(f"        Expr::{v}(x) => Expr::{v}(Expr{v} {{ attrs: at, ..x }}),\n")
o.append("        _ => e,\n    }\n}\n")
o.append("/// the attributes of a removed `?` stay on what takes its place\npub open spec fn outer_attrs(e: Expr, at: Vec<Attribute>) -> Expr { match attrs_of(e) { Some(a) => with_attrs(e, vec_of(at@ + a@)), None => e } }\n")
o.append("/// expressions in which there is nothing to process\n#[verifier::opaque]\npub open spec fn is_leaf(e: Expr) -> bool {\n    match e {\n")
for v in [f for f, _ in FORMS] + SPECIAL:
    o.append(f"        Expr::{v}(x) => false,\n")
o.append("        _ => true,\n    }\n}\n")
import re
def reveals(body, *also):
    return " ".join(f"reveal({n});" for n in sorted(set(also) | {n for n in OPAQUE + ["sp_core"] if n + "(" in body}))
def opaque(text, names):
    """makes the named spec functions opaque and adds a lemma unf_<name> stating the definition"""
    out, pos = [], 0
    for m in re.finditer(r"pub open spec fn (\w+)\(([^\n]*?)\) -> ([^\n]*?) decreases [^\n]*? \{\n(.*?)\n\}\n", text, re.S):
        if m.group(1) not in names:
            continue
        args = ", ".join(a.split(":")[0].strip() for a in re.split(r", (?=\w+: )", m.group(2)))
        out.append(text[pos:m.start()] + "#[verifier::opaque]\n" + m.group(0))
        b = m.group(1) in BROAD
        out.append(f"pub {'broadcast ' if b else ''}proof fn unf_{m.group(1)}({m.group(2)}) ensures {'#[trigger] ' if b else ''}{m.group(1)}({args}) == ({{\n{m.group(4)}\n}}) {{ {reveals(m.group(4), m.group(1))} }}\n")
        pos = m.end()
    return "".join(out) + text[pos:]
BROAD = ["sp_block", "sp_opt", "sp_optpair"]
OPAQUE = "sp_block sp_opt sp_optpair sp_expr sp_tail sp_stmt sp_arm sp_field sp_impl_item sp_trait_item sp_item sp_exprs sp_items sp_arms sp_fields sp_impl_items sp_trait_items sp_stmts".split()
o.append(opaque(open(os.path.join(os.path.dirname(__file__), "walk_rules.txt")).read(), OPAQUE))
o.append('''#[verifier::opaque]
/// an expression whose hooq attributes have been read: `at` is what remains of its attributes, `c` what is in force in it
pub open spec fn sp_core(e: Expr, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases e, 0int {
    match e {
        Expr::Try(x) => core_Try(x, at, c, k0),
        Expr::Return(x) => core_Return(x, at, c, k0),
        Expr::Closure(x) => core_Closure(x, at, c, k0),
        Expr::Macro(x) => core_Macro(x, at, c, k0),
''')
for v, kids in FORMS:
    o.append(form(v, kids))
o.append("        _ => Some((with_attrs(e, at), k0)),\n    }\n}\n")

NONLEAF = ' || '.join(f'e is {v}' for v in [f for f, _ in FORMS] + SPECIAL)
SAME = "sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e"
for v in ALL:
    if v in parts:
        if v in NOTES and NOTES[v]:
            o.append(f"/// {NOTES[v]}\n")
        o.append(f"#[verifier::opaque]\npub open spec fn core_{v}(x: Expr{v}, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {{\n    {parts[v]}\n}}\n")
        o.append(f"proof fn same_{v}(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is {v} ensures {SAME} {{\n"
                 f"    {reveals(parts[v], 'core_' + v, 'sp_core', 'attrs_of', 'with_attrs', 'is_leaf')}\n    let x = e->{v}_0;\n    let x2 = Expr{v} {{ attrs: at, ..x }};\n    assert(with_attrs(e, at) == Expr::{v}(x2));\n    assert(core_{v}(x2, at2, c, k) == core_{v}(x, at2, c, k));\n}}\n")
        body = re.sub(r"\bk0\b", "k", re.sub(r"\bc\b", "c1", parts[v]))
        o.append(f"pub proof fn unf_{v}(e: Expr, c: CtxV, k: St) ensures e is {v} ==> sp_expr(e, c, k) == ({{ let x = e->{v}_0; match sp_attrs(x.attrs, c) {{ None => None, Some((at, c1)) => {body} }} }}) {{\n"
                 f"    {reveals(parts[v], 'sp_expr', 'sp_core', 'core_' + v, 'attrs_of', 'is_leaf')}\n    if let Expr::{v}(x) = e {{ if let Some((at, c1)) = sp_attrs(x.attrs, c) {{ assert(sp_core(e, at, c1, k) == core_{v}(x, at, c1, k)); }} }}\n}}\n")
    else:
        o.append(f"pub proof fn unf_{v}(e: Expr, c: CtxV, k: St) ensures {NONLEAF} || sp_expr(e, c, k) == Some((e, k)) {{ reveal(sp_expr); reveal(is_leaf); }}\n")

def fold(name, ty, elem, arg="", argn="", extra=None):
    el = extra or f"{elem}(v@[i as int], c, k)"
    return opaque(f'''pub open spec fn {name}(v: Vec<{ty}>{arg}, c: CtxV, i: nat, acc: Seq<{ty}>, k: St) -> Option<(Seq<{ty}>, St)> decreases v, v@.len() - i {{
    if i >= v@.len() {{ Some((acc, k)) }} else {{
        match {el} {{ None => None, Some((y, k2)) => {name}(v{argn}, c, i + 1, acc.push(y), k2) }}
    }}
}}
''', OPAQUE)
o.append(fold("sp_exprs", "Expr", "sp_expr"))
o.append(fold("sp_items", "Item", "sp_item"))
o.append(fold("sp_arms", "Arm", "sp_arm"))
o.append(fold("sp_fields", "FieldValue", "sp_field"))
o.append(fold("sp_impl_items", "ImplItem", "sp_impl_item"))
o.append(fold("sp_trait_items", "TraitItem", "sp_trait_item"))
o.append(fold("sp_stmts", "Stmt", "sp_stmt", ", tail: TailExprTargetKind", ", tail",
              "sp_stmt(v@[i as int], if i + 1 == v@.len() { tail } else { TailExprTargetKind::NotTarget }, c, k)"))
# attributes of an expression are read once
o.append('''pub proof fn core_attrs(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St)
    requires attrs_of(e) is Some
    ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k),
        attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e),
        with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e,
{
    match e {
''' + "".join(f"        Expr::{v}(x) => {{ same_{v}(e, at, at2, c, k); }}\n" for v in ALL if v in parts) + '''        _ => { reveal(sp_core); reveal(attrs_of); reveal(with_attrs); reveal(is_leaf); }
    }
}
''')
o.append('''pub proof fn unf_other(e: Expr, c: CtxV, k: St) ensures ''' + NONLEAF + ''' || sp_expr(e, c, k) == Some((e, k)) { reveal(sp_expr); reveal(is_leaf); }
/// an expression whose attributes were read already: reading them again changes nothing
pub proof fn tail_attrs(e: Expr, c: CtxV, k: St)
    ensures attrs_of(e) is Some ==> (match sp_attrs(attrs_of(e)->0, c) {
        None => true,
        Some((at, c1)) => sp_expr(with_attrs(e, at), c1, k) == (if is_leaf(e) { Some((with_attrs(e, at), k)) } else { sp_core(e, at, c1, k) }) && sp_core(e, at, c1, k) == (if is_leaf(e) { Some((with_attrs(e, at), k)) } else { sp_core(e, at, c1, k) }),
    })
{
    if attrs_of(e) is Some {
        if let Some((at, c1)) = sp_attrs(attrs_of(e)->0, c) {
            attrs_once(attrs_of(e)->0, c);
            core_attrs(e, at, at, c1, k); reveal(is_leaf);
            unf_sp_expr(with_attrs(e, at), c1, k);
            reveal(sp_core);
        }
    }
}
''')
open(os.path.join(os.path.dirname(__file__), "../specs/walk_spec.vspec"), "w").write("".join(o))
