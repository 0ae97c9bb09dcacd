//! Turning extracted items into Verus text.
use crate::pass::{Ctx, LoopInfo, TypePass};
use crate::source::Found;
use crate::{FnSpec, Pack};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::VisitMut;
use syn::*;

pub const BUILTIN: &[&str] = &[
    "Self", "Vec", "Option", "Some", "None", "Ok", "Err", "Result", "Box", "Rc", "String", "str", "usize", "u8", "u32",
    "u64", "i32", "bool", "char", "T", "K", "V", "P", "E", "isize", "Any", "FnOnce",
];

#[derive(Default)]
pub struct FnInfo {
    pub loops: usize,
    pub unmatched: usize,
    pub unknown: Vec<String>,
    pub src_line: usize,
}

/// canonical text of a token stream
pub fn canon(ts: TokenStream) -> String {
    let mut s = String::new();
    for t in ts {
        if !s.is_empty() {
            s.push(' ');
        }
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(a);
                s.push(' ');
                s.push_str(&canon(g.stream()));
                s.push(' ');
                s.push_str(b);
            }
            t => s.push_str(&t.to_string()),
        }
    }
    s
}

struct Refs<'a>(&'a mut BTreeSet<String>);
impl<'b> syn::visit::Visit<'b> for Refs<'_> {
    fn visit_type_path(&mut self, t: &'b TypePath) {
        if t.path.segments.len() == 1 {
            self.0.insert(t.path.segments[0].ident.to_string());
        }
        syn::visit::visit_type_path(self, t);
    }
}

pub fn has_generics(i: &Item) -> bool {
    match i {
        Item::Struct(s) => !s.generics.params.is_empty(),
        Item::Enum(s) => !s.generics.params.is_empty(),
        _ => true,
    }
}

pub fn emit_type(mut item: Item, pack: &Pack, refs: &mut BTreeSet<String>) -> String {
    TypePass { pack, assoc: vec![] }.visit_item_mut(&mut item);
    let mut gens = vec![];
    match &mut item {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in &mut s.fields {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
            gens = s.generics.type_params().map(|t| t.ident.to_string()).collect();
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in &mut s.variants {
                v.attrs.clear();
                v.discriminant = None;
            }
            if s.variants.iter().all(|v| v.fields.is_empty()) {
                s.attrs.push(parse_quote!(#[derive(PartialEq, Eq, Structural, Clone, Copy)]));
            }
            gens = s.generics.type_params().map(|t| t.ident.to_string()).collect();
        }
        _ => {}
    }
    let mut r = BTreeSet::new();
    syn::visit::Visit::visit_item(&mut Refs(&mut r), &item);
    for g in gens {
        r.remove(&g);
    }
    refs.extend(r);
    prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![item] })
}

fn fill(t: &str, l: &LoopInfo) -> String {
    let id = l.id;
    let mut s = t.to_string();
    for (a, b) in [
        ("$v0", format!("__v0_{id}")),
        ("$w0", format!("__w0_{id}")),
        ("$acc", format!("__acc{id}")),
        ("$tail", l.tail.clone()),
        ("$src", l.source.clone()),
        ("$v", format!("__v{id}")),
        ("$i", format!("__i{id}")),
        ("$y", format!("__y{id}")),
    ] {
        s = s.replace(a, &b);
    }
    // $a(callee,k): k-th argument of the first call of callee in the loop body
    while let Some(p) = s.find("$a(") {
        let q = p + s[p..].find(')').unwrap();
        let spec = s[p + 3..q].to_string();
        let (c, k) = spec.split_once(',').unwrap();
        let k: usize = k.trim().parse().unwrap();
        let arg = l.calls.iter().find(|(n, a)| n == c.trim() && a.len() > k).map(|(_, a)| a[k].clone()).unwrap_or_else(|| "__missing".into());
        s.replace_range(p..=q, &format!("({arg})"));
    }
    s
}

fn selects(sel: &str, l: &LoopInfo, nth: usize) -> bool {
    if let Ok(n) = sel.parse::<usize>() {
        return n == nth;
    }
    if let Some(c) = sel.strip_prefix("call ") {
        return l.calls.iter().any(|(n, _)| n == c.trim());
    }
    if let Some(c) = sel.strip_prefix("text ") {
        return crate::source::strip_ws(&l.body).contains(&crate::source::strip_ws(c));
    }
    if let Some(c) = sel.strip_prefix("src ") {
        let (a, b) = (crate::source::strip_ws(&l.source), crate::source::strip_ws(c));
        return a.contains(&b);
    }
    false
}

/// sections of a loop text: invariants, then optional `top:`, `bot:`, `end:`, `ghost:` parts
fn sections(t: &str) -> (String, String, String, String, String) {
    let (mut inv, mut gho, mut top, mut bot, mut end) = (String::new(), String::new(), String::new(), String::new(), String::new());
    let mut cur = 0;
    for l in t.lines() {
        match l.trim() {
            "ghost:" => cur = 1,
            "top:" => cur = 2,
            "bot:" => cur = 3,
            "end:" => cur = 4,
            _ => {
                let d = match cur {
                    0 => &mut inv,
                    1 => &mut gho,
                    2 => &mut top,
                    3 => &mut bot,
                    _ => &mut end,
                };
                d.push_str(l);
                d.push('\n');
            }
        }
    }
    (inv, gho, top, bot, end)
}

/// the arms of the match a function ends in
fn split_match(b: &mut Block) -> Option<&mut Vec<Arm>> {
    match b.stmts.last_mut() {
        Some(Stmt::Expr(Expr::Match(m), None)) => Some(&mut m.arms),
        _ => None,
    }
}

/// alternatives that bind become arms of their own; all bodies but the k-th are cut off
fn split_arms(v: Vec<Arm>, k: usize) -> Vec<Arm> {
    let mut out = vec![];
    for (n, mut a) in v.into_iter().enumerate() {
        if n != k {
            a.body = Box::new(parse_quote!({ __vcut!() }));
        }
        a.comma = Some(Default::default());
        out.push(a);
    }
    out
}

pub fn arm_names(b: &Block) -> Vec<String> {
    let mut b = b.clone();
    let Some(v) = split_match(&mut b) else { return vec![] };
    let mut names: Vec<String> = vec![];
    for a in v.iter() {
        struct N(Option<String>);
        impl<'a> syn::visit::Visit<'a> for N {
            fn visit_path(&mut self, p: &'a Path) {
                if self.0.is_none() {
                    self.0 = Some(p.segments.last().unwrap().ident.to_string());
                }
            }
        }
        let mut n = N(None);
        syn::visit::Visit::visit_pat(&mut n, &a.pat);
        let mut s = n.0.unwrap_or_else(|| "_".into());
        while names.contains(&s) {
            s.push('\'');
        }
        names.push(s);
    }
    names
}

pub fn emit_fn(ff: &Found, s: &FnSpec, pack: &Pack, assume: bool, refs: &mut BTreeSet<String>, arm: Option<usize>) -> std::result::Result<(String, FnInfo), String> {
    let mut cx = Ctx::new(pack, s);
    let assoc: Vec<(String, Type)> = match &ff.imp {
        Some(i) if !s.asimpl => i.items.iter().filter_map(|x| match x {
            ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
            _ => None,
        }).collect(),
        _ => vec![],
    };
    cx.assoc = assoc.clone();
    cx.ret = crate::source::strip_ws(&ff.sig.output.to_token_stream().to_string());
    if cx.ret.contains("Self::Error") {
        if let Some((_, t)) = cx.assoc.iter().find(|(n, _)| n == "Error") {
            cx.ret = format!("Result<Self,{}>", crate::source::strip_ws(&t.to_token_stream().to_string()));
        }
    }
    cx.has_mut = ff.sig.inputs.iter().any(|a| a.to_token_stream().to_string().contains("& mut"));
    let mut sig = ff.sig.clone();
    let mut info = FnInfo { src_line: ff.line, ..Default::default() };
    if let Some(n) = &s.newname {
        sig.ident = format_ident!("{}", n);
    }
    let name = ff.sig.ident.to_string();
    let mut pre: Vec<Stmt> = vec![];
    // parameter patterns become let bindings
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            match &*t.pat {
                Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                    if i.mutability.is_some() {
                        let id = i.ident.clone();
                        *t.pat = parse_quote!(#id);
                        pre.push(parse_quote!(let mut #id = #id;));
                    }
                }
                p => {
                    let p = p.clone();
                    let id = format_ident!("__p{}", k);
                    let n: Stmt = parse_quote!(let #p = #id;);
                    pre.push(n);
                    *t.pat = parse_quote!(#id);
                }
            }
        }
    }
    let mut block = ff.block.clone();
    if let Some(k) = arm {
        if let Some(m) = split_match(&mut block) {
            *m = split_arms(std::mem::take(m), k);
        }
        sig.ident = format_ident!("{}__arm{}", sig.ident, k);
    }
    let mut stmts = pre;
    stmts.extend(block.stmts);
    block.stmts = stmts;
    let plain = s.path.split('@').next().unwrap().to_string();
    if (ff.imp.is_none() && pack.world.contains(&name)) || pack.world.contains(&plain) || pack.world.contains(&format!("{plain}/self")) || s.newname.as_ref().map(|n| pack.world.contains(n)).unwrap_or(false) {
        sig.inputs.push(parse_quote!(w: &mut World));
    }
    {
        let mut tp = TypePass { pack, assoc: assoc.clone() };
        tp.visit_signature_mut(&mut sig);
    }
    sig.abi = None;
    let ret = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some((**t).clone()),
    };
    sig.output = ReturnType::Default;
    let mut rs = BTreeSet::new();
    syn::visit::Visit::visit_signature(&mut Refs(&mut rs), &sig);
    if let Some(r) = &ret {
        syn::visit::Visit::visit_type(&mut Refs(&mut rs), r);
    }
    for g in sig.generics.type_params() {
        rs.remove(&g.ident.to_string());
    }
    let body_text;
    if assume {
        body_text = "{ unimplemented!() }\n".to_string();
    } else {
        crate::pass::TokPass.visit_block_mut(&mut block);
        cx.visit_block_mut(&mut block);
        if let Some(e) = cx.err.take() {
            return Err(e);
        }
        // run again: rewriting may leave constructs that only became visible later
        let wrapper: ItemFn = parse_quote!(fn __f() #block);
        let mut text = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Fn(wrapper)] });
        let p = text.find('{').unwrap();
        text = text[p..].to_string();
        info.loops = cx.loops.len();
        let mut ordered: Vec<usize> = cx.loops.iter().map(|l| l.id).collect();
        ordered.sort();
        for l in &cx.loops {
            let nth = ordered.iter().position(|x| *x == l.id).unwrap();
            let spec = s.loops.iter().find(|(sel, _)| selects(sel, l, nth)).or_else(|| pack.looptemplates.iter().find(|(sel, _)| selects(sel, l, nth)));
            let (inv, gho, top, bot, end) = match spec {
                Some((_, t)) => sections(&fill(t, l)),
                None => {
                    info.unmatched += 1;
                    Default::default()
                }
            };
            for (m, t) in [("gho", &gho), ("top", &top), ("bot", &bot), ("end", &end)] {
                text = text.replace(&format!("__v{m}_{}!();", l.id), t.trim_end());
            }
            let mk = format!("__vinv_{}!();", l.id);
            if let Some(p) = text.find(&mk) {
                let b = text[..p].rfind('{').unwrap();
                text.replace_range(b..p + mk.len(), &format!("\n{}{{", inv));
            }
        }
        text = text.replace("__vcut!()", "{ proof { assume(false); } unreached() }");
        for (k, r) in cx.raws.iter().enumerate() {
            text = text.replace(&format!("__vraw_{k}!();"), r);
        }
        for (pat, t) in &s.before {
            insert_near(&mut text, pat, t, true);
        }
        for (pat, t) in &s.after {
            insert_near(&mut text, pat, t, false);
        }
        let ep = s.epilogue.clone();
        let mut t2 = String::from("{\n");
        let bc = s.bc.as_ref().unwrap_or(&pack.broadcast);
        if !bc.is_empty() {
            t2.push_str(&format!("broadcast use {{{}}};\n", bc.join(", ")));
        }
        let arm_name = arm.and_then(|k| arm_names(&ff.block).get(k).cloned()).unwrap_or_default();
        t2.push_str(&s.prologue.replace("$arm", if arm_name == "_" { "other" } else { arm_name.trim_end_matches('\'') }));
        t2.push_str(text.trim_start().strip_prefix('{').unwrap());
        if !ep.trim().is_empty() {
            if let Some(p) = t2.trim_end().rfind('}') {
                t2.truncate(p);
                t2.push_str(&ep);
                t2.push_str("}\n");
            }
        }
        body_text = t2;
        info.unknown = cx.unknown.iter().cloned().collect();
    }
    if let Some(i) = &ff.imp {
        for g in i.generics.type_params() {
            rs.remove(&g.ident.to_string());
        }
    }
    refs.extend(rs);
    let mut attrs = String::new();
    if assume {
        attrs.push_str("#[verifier::external_body]\n");
    } else {
        attrs.push_str("#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n");
    }
    for a in &s.attrs {
        if !a.starts_with("feature:") {
            attrs.push_str(&format!("#[verifier::{a}]\n"));
        }
    }
    let rets = match &ret {
        Some(t) => format!(" -> (r: {})", t.to_token_stream()),
        None => String::new(),
    };
    let where_ = sig.generics.where_clause.take();
    let sigs = format!("{}{}", quote!(#sig), rets);
    let wh = where_.map(|w| format!(" {}", w.to_token_stream())).unwrap_or_default();
    let vis = if s.asimpl { "" } else { "pub " };
    let f = format!("{attrs}{vis}{sigs}{wh}\n{}{}", s.contract, body_text);
    let out = match &ff.imp {
        Some(i) => {
            let mut i = i.clone();
            TypePass { pack, assoc: vec![] }.visit_item_impl_mut(&mut i);
            let (g, wc, st) = (&i.generics, &i.generics.where_clause, &i.self_ty);
            let mut gp = g.clone();
            gp.where_clause = None;
            if !s.asimpl {
                for t in gp.type_params_mut() {
                    t.bounds.clear();
                    if body_text.contains("v_clone") {
                        t.bounds.push(parse_quote!(VClone));
                    }
                }
            }
            let wc: Option<WhereClause> = if s.asimpl { wc.clone() } else { None };
            if s.asimpl {
                let tr = i.trait_.as_ref().map(|t| t.1.clone()).ok_or("asimpl without a trait")?;
                let assoc: TokenStream = i.items.iter().map(|x| x.to_token_stream()).collect();
                format!("impl {} {} for {} {} {{\n{}\n{f}}}\n", gp.to_token_stream(), tr.to_token_stream(), st.to_token_stream(), wc.to_token_stream(), assoc)
            } else {
                let assoc = String::new();
                format!("impl {} {} {} {{\n{assoc}{f}}}\n", gp.to_token_stream(), st.to_token_stream(), wc.to_token_stream())
            }
        }
        None => f,
    };
    Ok((out, info))
}

fn insert_near(text: &mut String, pat: &str, t: &str, before: bool) {
    let mut out = String::new();
    let mut done = false;
    // "after" a construct that spans lines: after the line that closes it
    let mut until: Option<usize> = None;
    let np = crate::source::strip_ws(pat);
    let indent = |l: &str| l.len() - l.trim_start().len();
    for l in text.lines() {
        let hit = !done && crate::source::strip_ws(l).contains(&np);
        if hit && before {
            out.push_str(t);
        }
        out.push_str(l);
        out.push('\n');
        if let Some(d) = until {
            let e = l.trim_end();
            if indent(l) == d && (e.trim_start().starts_with('}') || e.trim_start().starts_with(')') || e.trim_start().starts_with(']')) && !e.ends_with('{') && !e.ends_with('(') {
                out.push_str(t);
                until = None;
            }
        }
        if hit && !before {
            let e = l.trim_end();
            if e.ends_with('{') || e.ends_with('(') || e.ends_with('[') {
                until = Some(indent(l));
            } else {
                out.push_str(t);
            }
        }
        done |= hit;
    }
    *text = out;
}
