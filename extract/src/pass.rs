//! Source-to-source passes bringing a function body into the subset Verus accepts.
//! Every pass keeps the order of evaluation; what each drops is listed in /verif/DESIGN.md.
use crate::{FnSpec, Pack};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type R<T> = std::result::Result<T, String>;

pub struct LoopInfo {
    pub id: usize,
    pub source: String,
    pub body: String,
    pub kind: &'static str, // iter | iter_mut | into | while
    pub calls: Vec<(String, Vec<String>)>,
    pub tail: String,
    pub fused: bool,
}

pub struct Ctx<'a> {
    pub pack: &'a Pack,
    pub spec: &'a FnSpec,
    pub loops: Vec<LoopInfo>,
    pub raws: Vec<String>,
    pub err: Option<String>,
    pub unknown: BTreeSet<String>,
    pub uses_world: bool,
    pub tmp: usize,
    pub has_mut: bool,
    /// text of the return type
    pub ret: String,
    pub assoc: Vec<(String, Type)>,
}

const MODS: &[&str] = &["crate", "self", "super", "std", "core", "alloc", "syn", "proc_macro2", "quote", "toml"];

pub fn rewrite_path(p: &mut Path, pack: &Pack) {
    let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let fulls = full.join("::");
    if let Some(n) = pack.prename.get(&fulls) {
        let args = p.segments.last().unwrap().arguments.clone();
        let mut np: Path = parse_str(n).unwrap();
        let l = np.segments.last_mut().unwrap();
        if !args.is_none() {
            l.arguments = args;
        }
        *p = np;
        return;
    }
    if full.len() == 1 && p.leading_colon.is_none() {
        return;
    }
    let special = match fulls.as_str() {
        "syn::Result" => Some("SynResult"),
        "syn::Error" => Some("SynError"),
        "std::fmt::Result" | "fmt::Result" => Some("FmtResult"),
        "std::fmt::Formatter" | "fmt::Formatter" => Some("Formatter"),
        _ => None,
    };
    p.leading_colon = None;
    if let Some(s) = special {
        let args = p.segments.last().unwrap().arguments.clone();
        let mut seg: PathSegment = PathSegment::from(Ident::new(s, Span::call_site()));
        if s != "Formatter" {
            seg.arguments = args;
        } else {
            seg.arguments = PathArguments::None;
        }
        p.segments = std::iter::once(seg).collect();
        return;
    }
    if fulls.starts_with("syn::Error::") {
        p.segments = p.segments.iter().skip(2).cloned().collect();
        p.segments.insert(0, PathSegment::from(Ident::new("SynError", Span::call_site())));
        return;
    }
    if full.iter().any(|s| s == "token") && full.len() >= 2 && full[full.len() - 2] == "token" {
        *p = parse_quote!(Tok);
        return;
    }
    // drop leading module segments
    let mut keep = 0;
    for (i, s) in full.iter().enumerate() {
        let lower = s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false);
        if i + 1 < full.len() && (lower || MODS.contains(&s.as_str())) && s != "Self" {
            keep = i + 1;
        } else {
            break;
        }
    }
    p.segments = p.segments.iter().skip(keep).cloned().collect();
}

pub struct TypePass<'a> {
    pub pack: &'a Pack,
    pub assoc: Vec<(String, Type)>,
}
impl VisitMut for TypePass<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Macro(m) = t {
            if m.mac.path.segments.last().map(|s| s.ident == "Token").unwrap_or(false) {
                *t = parse_quote!(Tok);
                return;
            }
        }
        if matches!(t, Type::TraitObject(o) if o.bounds.len() == 1 && o.to_token_stream().to_string().ends_with("Any")) {
            *t = parse_quote!(VAny);
            return;
        }
        visit_mut::visit_type_mut(self, t);
        if matches!(t, Type::Path(p) if p.path.is_ident("ParseStream")) {
            *t = parse_quote!(&mut ParseBuffer);
            return;
        }
        if let Type::Slice(x) = t {
            let el = &x.elem;
            *t = parse_quote!(Vec<#el>);
            return;
        }
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some((_, ty)) = self.assoc.iter().find(|(n, _)| p.path.segments[1].ident == n) {
                    *t = ty.clone();
                    self.visit_type_mut(t);
                    return;
                }
            }
            let Type::Path(p) = t else { unreachable!() };
            if let Some(l) = p.path.segments.last_mut() {
                if l.ident == "Punctuated" {
                    if let PathArguments::AngleBracketed(a) = &mut l.arguments {
                        a.args = a.args.iter().take(1).cloned().collect();
                    }
                } else if l.ident == "RefCell" {
                    l.ident = format_ident!("VRefCell");
                }
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        rewrite_path(p, self.pack);
    }
}
/// reading a token: which token it is stands in its type
pub struct TokPass;
impl VisitMut for TokPass {
    // reading a token: which token it is stands in its type
    fn visit_local_mut(&mut self, l: &mut Local) {
        let mut fork = false;
        if let (Pat::Type(t), Some(init)) = (&l.pat, &mut l.init) {
            if let (Some(k), Some(m)) = (tok_ty(&t.ty), parse_call(&mut init.expr)) {
                if m.turbofish.is_none() {
                    m.method = format_ident!("v_parse_tok");
                    m.args.push(parse_quote!(TokKind(#k)));
                }
            }
        }
        if let Some(init) = &l.init {
            if let Expr::MethodCall(m) = &*init.expr {
                fork = m.method == "fork" && m.args.is_empty();
            }
        }
        if fork {
            if let Pat::Ident(i) = &mut l.pat {
                i.mutability = Some(Default::default());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        if m.method == "parse" && m.args.is_empty() {
            let k = match m.turbofish.as_ref().and_then(|t| t.args.first()) {
                Some(GenericArgument::Type(t)) => tok_ty(t),
                _ => None,
            };
            if let Some(k) = k {
                m.turbofish = None;
                m.method = format_ident!("v_parse_tok");
                m.args.push(parse_quote!(TokKind(#k)));
            }
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
}
/// the token a `Token![..]` type names
fn tok_ty(t: &Type) -> Option<LitStr> {
    match t {
        Type::Macro(m) if m.mac.path.segments.last()?.ident == "Token" => {
            Some(LitStr::new(&crate::source::strip_ws(&m.mac.tokens.to_string()), proc_macro2::Span::call_site()))
        }
        Type::Path(p) => {
            let k = match p.path.segments.last()?.ident.to_string().as_str() {
                "Comma" => ",", "Semi" => ";", "Dot" => ".", "At" => "@", "Eq" => "=", "Not" => "!", "Colon" => ":",
                _ => return None,
            };
            Some(LitStr::new(k, proc_macro2::Span::call_site()))
        }
        _ => None,
    }
}
fn parse_call(e: &mut Expr) -> Option<&mut ExprMethodCall> {
    match e {
        Expr::Try(t) => parse_call(&mut t.expr),
        Expr::MethodCall(m) if m.method == "parse" && m.args.is_empty() => Some(m),
        _ => None,
    }
}

fn is_call_to(e: &Expr, name: &str) -> bool {
    matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(name)))
}

fn iter_source(m: &str) -> bool {
    matches!(m, "iter" | "iter_mut" | "into_iter" | "lines" | "chars" | "split")
}
fn iter_adaptor(m: &str) -> bool {
    matches!(m, "map" | "enumerate" | "filter" | "flat_map" | "rev" | "take" | "skip")
}

/// chain as (source receiver, [(method, args, turbofish)]) when `e` is an iterator chain
fn chain(e: &Expr) -> Option<(Expr, Vec<ExprMethodCall>)> {
    let mut v = vec![];
    let mut cur = e;
    loop {
        match cur {
            Expr::MethodCall(m) => {
                v.push(m.clone());
                let n = m.method.to_string();
                if iter_source(&n) {
                    let src = (*m.receiver).clone();
                    v.reverse();
                    return Some((src, v));
                }
                if !iter_adaptor(&n) && v.len() > 1 {
                    return None;
                }
                cur = &m.receiver;
            }
            _ => return None,
        }
    }
}

fn ends_in_ok(e: &Expr) -> bool {
    match e {
        Expr::Call(_) => is_call_to(e, "Ok") || is_call_to(e, "Err"),
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, None)) => ends_in_ok(e),
            _ => false,
        },
        _ => false,
    }
}

fn diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, _)) => diverges(e),
            _ => false,
        },
        _ => false,
    }
}

/// `body` evaluates to Result; rewrite so that it evaluates to the Ok payload, propagating Err with `?`
fn peel_ok(e: Expr) -> Expr {
    match e {
        Expr::Call(c) if is_call_to(&Expr::Call(c.clone()), "Ok") => c.args.into_iter().next().unwrap(),
        Expr::Block(mut b) => {
            if let Some(Stmt::Expr(t, None)) = b.block.stmts.pop() {
                b.block.stmts.push(Stmt::Expr(peel_ok(t), None));
                Expr::Block(b)
            } else {
                Expr::Block(b)
            }
        }
        Expr::If(mut i) => {
            let t = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch });
            i.then_branch = match peel_ok(t) {
                Expr::Block(b) => b.block,
                o => parse_quote!({ #o }),
            };
            if let Some((_, e)) = &mut i.else_branch {
                let n = peel_ok((**e).clone());
                *e = Box::new(n);
            }
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            for a in &mut m.arms {
                let n = peel_ok((*a.body).clone());
                *a.body = n;
            }
            Expr::Match(m)
        }
        e if diverges(&e) => e,
        Expr::Return(r) => Expr::Return(r),
        e => parse_quote!((#e)?),
    }
}

/// `return` inside a closure body that becomes a loop body: only `return Err(..)` keeps its meaning
struct ReturnCheck(bool);
impl VisitMut for ReturnCheck {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        if !r.expr.as_ref().map(|e| is_call_to(e, "Err")).unwrap_or(false) {
            self.0 = true;
        }
    }
}

impl<'a> Ctx<'a> {
    pub fn new(pack: &'a Pack, spec: &'a FnSpec) -> Self {
        Ctx { pack, spec, loops: vec![], raws: vec![], err: None, unknown: BTreeSet::new(), uses_world: false, tmp: 0, has_mut: false, ret: String::new(), assoc: vec![] }
    }
    fn fail(&mut self, s: &str) {
        if self.err.is_none() {
            self.err = Some(s.to_string());
        }
    }
    pub fn raw(&mut self, s: String) -> Stmt {
        let k = self.raws.len();
        self.raws.push(s);
        let id = format_ident!("__vraw_{}", k);
        parse_quote!(#id!();)
    }

    fn calls_of(body: &Expr) -> (Vec<(String, Vec<String>)>, String) {
        struct C(Vec<(String, Vec<String>)>, String);
        impl<'b> syn::visit::Visit<'b> for C {
            fn visit_expr_call(&mut self, c: &'b ExprCall) {
                if let Expr::Path(p) = &*c.func {
                    self.0.push((
                        p.path.segments.last().unwrap().ident.to_string(),
                        c.args.iter().map(|a| a.to_token_stream().to_string()).collect(),
                    ));
                }
                syn::visit::visit_expr_call(self, c)
            }
            fn visit_expr_method_call(&mut self, c: &'b ExprMethodCall) {
                let mut v = vec![c.receiver.to_token_stream().to_string()];
                v.extend(c.args.iter().map(|a| a.to_token_stream().to_string()));
                self.0.push((c.method.to_string(), v));
                syn::visit::visit_expr_method_call(self, c)
            }
            fn visit_path(&mut self, p: &'b Path) {
                if p.segments.len() >= 2 {
                    let n = p.segments.len();
                    if p.segments[n - 2].ident == "TailExprTargetKind" && p.segments[n - 1].ident != "NotTarget" && self.1.is_empty() {
                        self.1 = format!("TailExprTargetKind::{}", p.segments[n - 1].ident);
                    }
                }
                syn::visit::visit_path(self, p)
            }
        }
        let mut c = C(vec![], String::new());
        syn::visit::Visit::visit_expr(&mut c, body);
        if c.1.is_empty() {
            c.1 = "TailExprTargetKind::NotTarget".into();
        }
        (c.0, c.1)
    }

    /// builds `{ let v = SRC; let mut acc..; while i < v.len() { let PAT = elem; i += 1; BODY } RESULT }`
    #[allow(clippy::too_many_arguments)]
    fn mk_loop(&mut self, src: Expr, kind: &'static str, stages: Vec<(String, Option<ExprClosure>)>, pat: Option<Pat>,
               body: Expr, result: LoopResult) -> Expr {
        let id = self.loops.len();
        let (calls, tail) = Self::calls_of(&body);
        self.loops.push(LoopInfo {
            id,
            source: src.to_token_stream().to_string(),
            body: body.to_token_stream().to_string(),
            kind,
            calls,
            tail,
            fused: matches!(result, LoopResult::Try { .. }),
        });
        let v = format_ident!("__v{}", id);
        let i = format_ident!("__i{}", id);
        let acc = format_ident!("__acc{}", id);
        let inv = format_ident!("__vinv_{}", id);
        let ghosts = format_ident!("__vgho_{}", id);
        let end = format_ident!("__vend_{}", id);
        let top = format_ident!("__vtop_{}", id);
        let bot = format_ident!("__vbot_{}", id);
        let src_e: Expr = match kind {
            "iter" => parse_quote!((#src).v_items()),
            "iter_mut" => parse_quote!((#src).v_items_mut()),
            "into" => parse_quote!((#src).v_into_items()),
            "ready" => parse_quote!(#src),
            _ => unreachable!(),
        };
        let elem: Expr = match kind {
            "iter" => parse_quote!(&#v[#i]),
            "iter_mut" => parse_quote!(&mut #v[#i]),
            _ => parse_quote!(v_nth(&#v, #i)),
        };
        let enumerate = stages.iter().any(|s| s.0 == "enumerate");
        let elem: Expr = if enumerate { parse_quote!((#i, #elem)) } else { elem };
        let bind: TokenStream = match pat {
            Some(Pat::Tuple(t)) if enumerate && t.elems.len() == 2 => {
                // split so that no tuple with a mutable borrow is built
                let (a, b) = (&t.elems[0], &t.elems[1]);
                let Expr::Tuple(et) = &elem else { unreachable!() };
                let (x, y) = (&et.elems[0], &et.elems[1]);
                quote!(let #a = #x; let #b = #y;)
            }
            Some(p) => quote!(let #p = #elem;),
            None => quote!(let _ = #elem;),
        };
        let inc = quote!(#i = #i + 1;);
        let (pre, step, post): (TokenStream, TokenStream, TokenStream) = match result {
            LoopResult::Unit => (quote!(), quote!(#body;), quote!()),
            LoopResult::Try { unit } => {
                let b = peel_ok(body);
                if unit {
                    (quote!(), quote!(#b;), quote!())
                } else {
                    let y = format_ident!("__y{}", id);
                    (quote!(let mut #acc = Vec::new();), quote!(let #y = #b; #acc.push(#y);), quote!(#acc))
                }
            }
            LoopResult::Map => {
                let y = format_ident!("__y{}", id);
                (quote!(let mut #acc = Vec::new();), quote!(let #y = #body; #acc.push(#y);), quote!(#acc))
            }
            LoopResult::Filter => {
                let y = format_ident!("__y{}", id);
                (quote!(let mut #acc = Vec::new();), quote!(if #body { let #y = v_nth(&#v, #i - 1); #acc.push(#y); }), quote!(#acc))
            }
            LoopResult::Flat => (quote!(let mut #acc = Vec::new();), quote!(v_append(&mut #acc, #body);), quote!(#acc)),
            LoopResult::Any => (quote!(let mut #acc = false;), quote!(if #body { #acc = true; break; }), quote!(#acc)),
            LoopResult::All => (quote!(let mut #acc = true;), quote!(if !(#body) { #acc = false; break; }), quote!(#acc)),
        };
        parse_quote!({
            let #v = #src_e;
            #pre
            #ghosts!();
            let mut #i: usize = 0;
            while #i < #v.len() {
                #inv!();
                #top!();
                #bind
                #inc
                #step
                #bot!();
            }
            #end!();
            #post
        })
    }

    fn closure1(&mut self, e: &Expr) -> Option<(Pat, Expr)> {
        match e {
            Expr::Closure(c) if c.inputs.len() == 1 => Some((
                match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                },
                (*c.body).clone(),
            )),
            Expr::Path(p) => {
                self.tmp += 1;
                let x = format_ident!("__x{}", self.tmp);
                Some((parse_quote!(#x), parse_quote!(#p(#x))))
            }
            _ => None,
        }
    }

    fn fn_result_ty(turbofish: &Option<AngleBracketedGenericArguments>) -> (bool, bool, Option<Type>) {
        // (is Result, payload is Vec<()>, payload type)
        if let Some(t) = turbofish {
            if let Some(GenericArgument::Type(Type::Path(p))) = t.args.first() {
                let l = p.path.segments.last().unwrap();
                if l.ident == "Result" || l.ident == "SynResult" {
                    if let PathArguments::AngleBracketed(a) = &l.arguments {
                        if let Some(GenericArgument::Type(ty)) = a.args.first() {
                            let s = crate::source::strip_ws(&ty.to_token_stream().to_string());
                            return (true, s == "Vec<()>", Some(ty.clone()));
                        }
                    }
                    return (true, false, None);
                }
                return (false, false, Some(Type::Path(p.clone())));
            }
        }
        (false, false, None)
    }

    /// eager translation of the iterator stages before the consumer; returns an expression of type Vec
    fn stages(&mut self, src: Expr, ms: &[ExprMethodCall]) -> R<Expr> {
        let m0 = &ms[0];
        let mut cur: Expr;
        let mut kind: &'static str;
        match m0.method.to_string().as_str() {
            "iter" => {
                cur = src;
                kind = "iter";
            }
            "iter_mut" => {
                cur = src;
                kind = "iter_mut";
            }
            "into_iter" => {
                cur = src;
                kind = "into";
            }
            n => {
                let f = format_ident!("v_{}", n);
                let a = &m0.args;
                cur = parse_quote!((#src).#f(#a));
                kind = "ready";
            }
        }
        let mut pend: Vec<(String, Option<ExprClosure>)> = vec![];
        for m in &ms[1..] {
            let n = m.method.to_string();
            match n.as_str() {
                "enumerate" => pend.push((n, None)),
                "map" | "flat_map" | "filter" => {
                    let (p, b) = self.closure1(&m.args[0]).ok_or("closure form")?;
                    let mut rc = ReturnCheck(false);
                    let mut bb = b.clone();
                    rc.visit_expr_mut(&mut bb);
                    if has_return(&b) {
                        return Err("return inside a lazily evaluated closure".into());
                    }
                    let r = match n.as_str() {
                        "map" => LoopResult::Map,
                        "filter" => LoopResult::Filter,
                        _ => LoopResult::Flat,
                    };
                    let b = if n == "flat_map" { self.eager(b)? } else { b };
                    let b = if n == "filter" { b } else { b };
                    let p = if n == "filter" { strip_ref(p) } else { p };
                    cur = self.mk_loop(cur, kind, std::mem::take(&mut pend), Some(p), b, r);
                    kind = "ready";
                }
                "rev" | "take" | "skip" => {
                    let base: Expr = match kind {
                        "ready" => cur,
                        "into" => parse_quote!((#cur).v_into_items()),
                        _ => return Err(format!("{n} on borrowed items")),
                    };
                    let f = format_ident!("v_{}", n);
                    let a = &m.args;
                    cur = parse_quote!((#base).#f(#a));
                    kind = "ready";
                }
                _ => return Err(format!("iterator adaptor {n}")),
            }
        }
        if !pend.is_empty() {
            return Err("enumerate without map".into());
        }
        Ok(match kind {
            "iter" => parse_quote!((#cur).v_items()),
            "into" => parse_quote!((#cur).v_into_items()),
            "iter_mut" => return Err("iter_mut escapes".into()),
            _ => cur,
        })
    }

    /// errors are converted to the error type of the enclosing function
    fn map_err_name(&self) -> Ident {
        if self.ret.contains("String>") { format_ident!("v_map_err_string") } else { format_ident!("v_map_err") }
    }

    fn eager(&mut self, b: Expr) -> R<Expr> {
        if let Some((s, ms)) = chain(&b) {
            return self.stages(s, &ms);
        }
        Ok(b)
    }

    /// one pre-order rewriting step
    fn step(&mut self, e: &Expr) -> R<Option<Expr>> {
        match e {
            Expr::Call(c) if matches!(&*c.func, Expr::Macro(m) if m.mac.path.segments.last().map(|s| s.ident == "Token").unwrap_or(false)) => {
                let (f, a) = (&c.func, &c.args);
                Ok(Some(parse_quote!(v_tok(#f, #a))))
            }
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "String" && p.path.segments[1].ident == "from") => {
                let a = &c.args[0];
                Ok(Some(parse_quote!((#a).v_to_string())))
            }
            Expr::Call(c) if is_call_to(e, "Err") && !self.spec.keeperr => {
                if c.args.len() == 1 && is_call_to(&c.args[0], "v_err") {
                    return Ok(None);
                }
                return Ok(Some(parse_quote!(Err(v_err()))));
            }
            // SRC....map(f).collect::<Result<..>>()[.map_err(..)]?
            Expr::Try(t) => {
                let mut inner: &Expr = &t.expr;
                let mut conv = false;
                if let Expr::MethodCall(m) = inner {
                    if m.method == "map_err" {
                        conv = true;
                        inner = &m.receiver;
                    }
                }
                if let Expr::MethodCall(m) = inner {
                    if m.method == "collect" {
                        let (is_res, unit, payload) = Self::fn_result_ty(&m.turbofish);
                        if is_res {
                            if let Some((src, ms)) = chain(inner) {
                                return self.fused(src, &ms[..ms.len() - 1], unit, payload, conv).map(Some);
                            }
                        }
                    }
                }
                Ok(None)
            }
            Expr::MethodCall(m) => self.method_step(e, m),
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    return Err("labeled loop".into());
                }
                let (src, kind, stages): (Expr, &'static str, Vec<(String, Option<ExprClosure>)>) = match &*f.expr {
                    Expr::Reference(r) if r.mutability.is_none() => ((*r.expr).clone(), "iter", vec![]),
                    Expr::Reference(r) => ((*r.expr).clone(), "iter_mut", vec![]),
                    ex => match chain(ex) {
                        Some((s, ms)) => {
                            if ms.len() == 1 && ms[0].method == "iter" {
                                (s, "iter", vec![])
                            } else if ms.len() == 1 && ms[0].method == "iter_mut" {
                                (s, "iter_mut", vec![])
                            } else if ms.len() == 1 && ms[0].method == "into_iter" {
                                (s, "into", vec![])
                            } else if ms.len() == 2 && ms[0].method == "iter_mut" && ms[1].method == "enumerate" {
                                (s, "iter_mut", vec![("enumerate".into(), None)])
                            } else if ms.len() == 2 && ms[0].method == "iter" && ms[1].method == "enumerate" {
                                (s, "iter", vec![("enumerate".into(), None)])
                            } else if ms.len() == 2 && ms[0].method == "into_iter" && ms[1].method == "enumerate" {
                                (s, "into", vec![("enumerate".into(), None)])
                            } else {
                                (self.stages(s, &ms)?, "ready", vec![])
                            }
                        }
                        None => {
                            if matches!(ex, Expr::Range(_)) {
                                return Err("range loop".into());
                            }
                            (ex.clone(), "into", vec![])
                        }
                    },
                };
                let body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.body.clone() });
                Ok(Some(self.mk_loop(src, kind, stages, Some((*f.pat).clone()), body, LoopResult::Unit)))
            }
            Expr::While(w) => {
                if let Some(Stmt::Macro(m)) = w.body.stmts.first() {
                    if m.mac.path.to_token_stream().to_string().starts_with("__vinv_") {
                        return Ok(None);
                    }
                }
                // conditions with `let`: test at the top of the body
                let mut conds = vec![];
                split_and(&w.cond, &mut conds);
                let id = self.loops.len();
                let b = Expr::Block(ExprBlock { attrs: vec![], label: None, block: w.body.clone() });
                let (calls, tail) = Self::calls_of(&b);
                self.loops.push(LoopInfo {
                    id,
                    source: w.cond.to_token_stream().to_string(),
                    body: b.to_token_stream().to_string(),
                    kind: "while",
                    calls,
                    tail,
                    fused: false,
                });
                let inv = format_ident!("__vinv_{}", id);
                let ghosts = format_ident!("__vgho_{}", id);
                let top = format_ident!("__vtop_{}", id);
                let end = format_ident!("__vend_{}", id);
                let bot = format_ident!("__vbot_{}", id);
                let mut plain: Vec<Expr> = vec![];
                let mut rest = conds.clone();
                while let Some(c) = rest.first() {
                    if matches!(c, Expr::Let(_)) {
                        break;
                    }
                    plain.push(rest.remove(0));
                }
                let cond: Expr = if plain.is_empty() { parse_quote!(true) } else {
                    let mut it = plain.into_iter();
                    let mut acc = it.next().unwrap();
                    for x in it {
                        acc = parse_quote!(#acc && #x);
                    }
                    acc
                };
                let mut tests: Vec<Stmt> = vec![];
                for c in rest {
                    match c {
                        Expr::Let(l) => {
                            let (p, x) = (&l.pat, &l.expr);
                            tests.push(parse_quote!(let #p = #x else { break; };));
                        }
                        c => tests.push(parse_quote!(if !(#c) { break; })),
                    }
                }
                let body = &w.body.stmts;
                Ok(Some(parse_quote!({
                    #ghosts!();
                    while #cond { #inv!(); #top!(); #(#tests)* #(#body)* #bot!(); }
                    #end!();
                })))
            }
            Expr::If(i) => {
                let mut conds = vec![];
                split_and(&i.cond, &mut conds);
                if conds.len() > 1 && conds.iter().any(|c| matches!(c, Expr::Let(_))) {
                    // nest; the else branch is repeated
                    let els: Option<Expr> = i.else_branch.as_ref().map(|x| (*x.1).clone());
                    let then = &i.then_branch;
                    let mut acc: Expr = parse_quote!(#then);
                    for c in conds.into_iter().rev() {
                        acc = match &els {
                            Some(el) => parse_quote!(if #c { #acc } else { #el }),
                            None => parse_quote!(if #c { #acc }),
                        };
                    }
                    return Ok(Some(acc));
                }
                Ok(None)
            }
            Expr::Match(m) => self.match_step(m),
            Expr::Macro(m) => self.macro_step(m),
            Expr::Binary(b) if self.spec.veq && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                fn num(e: &Expr) -> bool {
                    match e {
                        Expr::Lit(l) => !matches!(l.lit, Lit::Str(_)),
                        Expr::Binary(_) => true,
                        _ => false,
                    }
                }
                if num(&b.left) || num(&b.right) {
                    return Ok(None);
                }
                let l = &b.left;
                let r: Expr = match &*b.right {
                    Expr::Reference(r) => (*r.expr).clone(),
                    Expr::Lit(_) => (*b.right).clone(),
                    r => r.clone(),
                };
                let rr: Expr = parse_quote!(&#r);
                Ok(Some(if matches!(b.op, BinOp::Eq(_)) {
                    parse_quote!((#l).v_eq(#rr))
                } else {
                    parse_quote!((!(#l).v_eq(#rr)))
                }))
            }
            Expr::Closure(_) => Err("closure".into()),
            Expr::Unsafe(_) => Err("unsafe".into()),
            _ => Ok(None),
        }
    }

    fn fused(&mut self, src: Expr, ms: &[ExprMethodCall], unit: bool, payload: Option<Type>, conv: bool) -> R<Expr> {
        let Some(last) = ms.last() else { return Err("empty chain".into()) };
        if last.method != "map" {
            return Err("collect into Result without map".into());
        }
        let Some((p, b)) = self.closure1(&last.args[0]) else { return Err("closure form".into()) };
        let mut rc = ReturnCheck(false);
        rc.visit_expr_mut(&mut b.clone());
        if rc.0 {
            return Err("return of a value inside a closure".into());
        }
        let b = if conv {
            // the closure's `?` leave it with its own error type, which map_err converts
            struct Conv(Ident);
            impl VisitMut for Conv {
                fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
                fn visit_expr_try_mut(&mut self, t: &mut ExprTry) {
                    visit_mut::visit_expr_try_mut(self, t);
                    let (e, f) = (&t.expr, &self.0);
                    *t.expr = parse_quote!((#e).#f());
                }
            }
            let f = self.map_err_name();
            let mut b = b;
            if !ends_in_ok(&b) {
                b = parse_quote!((#b).#f());
            }
            Conv(f).visit_expr_mut(&mut b);
            b
        } else { b };
        let first = ms[0].method.to_string();
        let mid = &ms[1..ms.len() - 1];
        let (src, kind, st): (Expr, &'static str, Vec<(String, Option<ExprClosure>)>) =
            if mid.is_empty() || (mid.len() == 1 && mid[0].method == "enumerate") {
                let st = if mid.is_empty() { vec![] } else { vec![("enumerate".to_string(), None)] };
                match first.as_str() {
                    "iter" => (src, "iter", st),
                    "iter_mut" => (src, "iter_mut", st),
                    "into_iter" => (src, "into", st),
                    _ => (self.stages(src, &ms[..ms.len() - 1])?, "ready", st),
                }
            } else {
                (self.stages(src, &ms[..ms.len() - 1])?, "ready", vec![])
            };
        let l = self.mk_loop(src, kind, st, Some(p), b, LoopResult::Try { unit });
        let isvec = payload.as_ref().map(|t| crate::source::strip_ws(&t.to_token_stream().to_string()).starts_with("Vec<")).unwrap_or(false);
        Ok(if unit || isvec { l } else { parse_quote!((#l).v_collect()) })
    }

    fn method_step(&mut self, e: &Expr, m: &ExprMethodCall) -> R<Option<Expr>> {
        let n = m.method.to_string();
        let recv = &m.receiver;
        // iterator consumers
        if matches!(n.as_str(), "collect" | "any" | "all" | "count" | "last" | "next_back" | "for_each" | "sum" | "next") {
            if let Some((src, ms)) = chain(e) {
                if ms.len() >= 2 {
                    let (st, _) = ms.split_at(ms.len() - 1);
                    // an array written out: one step for each element
                    if let (Expr::Array(a), "collect", 2) = (&src, n.as_str(), st.len()) {
                        if st[0].method == "into_iter" && st[1].method == "map" {
                            let (p, b) = self.closure1(&st[1].args[0]).ok_or("closure form")?;
                            if has_return(&b) {
                                return Err("return in closure".into());
                            }
                            self.tmp += 1;
                            let x = format_ident!("__a{}", self.tmp);
                            let el = a.elems.iter();
                            return Ok(Some(parse_quote!({ let mut #x = Vec::new(); #(#x.push({ let #p = #el; #b });)* #x.v_collect() })));
                        }
                    }
                    match n.as_str() {
                        "collect" => {
                            let (_, _, payload) = Self::fn_result_ty(&m.turbofish);
                            let v = self.stages(src, st)?;
                            return Ok(Some(match payload {
                                Some(t) => {
                                    let t2 = t.clone();
                                    parse_quote!({ let __c: #t2 = (#v).v_collect(); __c })
                                }
                                None => parse_quote!((#v).v_collect()),
                            }));
                        }
                        "any" | "all" => {
                            let (p, b) = self.closure1(&m.args[0]).ok_or("closure form")?;
                            if has_return(&b) {
                                return Err("return in closure".into());
                            }
                            let r = if n == "any" { LoopResult::Any } else { LoopResult::All };
                            let (s2, kind): (Expr, &'static str) = if st.len() == 1 {
                                match st[0].method.to_string().as_str() {
                                    "iter" => (src, "iter"),
                                    "into_iter" => (src, "into"),
                                    _ => (self.stages(src, st)?, "ready"),
                                }
                            } else {
                                (self.stages(src, st)?, "ready")
                            };
                            return Ok(Some(self.mk_loop(s2, kind, vec![], Some(p), b, r)));
                        }
                        _ => {
                            let src_m = st[0].method.to_string();
                            let v = self.stages(src, st)?;
                            // the last item of an iterator of values, as opposed to a slice's last()
                            let f = if n == "last" && src_m != "iter" { format_ident!("v_it_last") } else { format_ident!("v_{}", n) };
                            let a = &m.args;
                            return Ok(Some(parse_quote!((#v).#f(#a))));
                        }
                    }
                }
            }
        }
        if m.args.is_empty() && (n == "borrow_mut" || n == "borrow") {
            self.uses_world = true;
            let f = format_ident!("v_{}", n);
            return Ok(Some(parse_quote!(w.#f(&(#recv)))));
        }
        if let (Expr::Array(a), "into") = (&**recv, n.as_str()) {
            self.tmp += 1;
            let x = format_ident!("__a{}", self.tmp);
            let el = a.elems.iter();
            return Ok(Some(parse_quote!({ let mut #x = Vec::new(); #(#x.push(#el);)* #x.v_collect() })));
        }
        match n.as_str() {
            "collect" if m.turbofish.is_some() && Self::fn_result_ty(&m.turbofish).0 == false => {
                if let Some(GenericArgument::Type(t)) = m.turbofish.as_ref().and_then(|t| t.args.first()) {
                    let t = t.clone();
                    return Ok(Some(parse_quote!({ let __c: #t = (#recv).v_collect(); __c })));
                }
            }
            "map_err" => {
                let f = self.map_err_name();
                return Ok(Some(parse_quote!((#recv).#f())));
            }
            "ok_or_else" if self.spec.keeperr => {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() && !has_return(&c.body) {
                        let b = &c.body;
                        return Ok(Some(parse_quote!(match #recv { Some(__x) => Ok(__x), None => Err(#b) })));
                    }
                }
                return Err("ok_or_else with another argument".into());
            }
            "ok_or_else" | "ok_or" => return Ok(Some(parse_quote!((#recv).v_ok_or()))),
            "map" => {
                let (p, b) = self.closure1(&m.args[0]).ok_or("closure form")?;
                if has_return(&b) {
                    return Err("return in closure".into());
                }
                return Ok(Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None })));
            }
            "and_then" => {
                let (p, b) = self.closure1(&m.args[0]).ok_or("closure form")?;
                if has_return(&b) {
                    return Err("return in closure".into());
                }
                return Ok(Some(parse_quote!(match #recv { Some(#p) => #b, None => None })));
            }
            "filter" => {
                // on an Option; an iterator here does not type-check
                let (p, b) = self.closure1(&m.args[0]).ok_or("closure form")?;
                if has_return(&b) {
                    return Err("return in closure".into());
                }
                return Ok(Some(parse_quote!(match #recv { Some(__x) => { let __k = { let #p = &__x; #b }; if __k { Some(__x) } else { None } }, None => None })));
            }
            "or_else" => {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() && !has_return(&c.body) {
                        let b = &c.body;
                        return Ok(Some(parse_quote!(match #recv { Some(__x) => Some(__x), None => #b })));
                    }
                    if c.inputs.len() == 1 && matches!(c.inputs[0], Pat::Wild(_) | Pat::Ident(_)) && !has_return(&c.body) {
                        // on a Result; an Option here does not type-check
                        let (p, b) = (&c.inputs[0], &c.body);
                        return Ok(Some(parse_quote!(match #recv { Ok(__x) => Ok(__x), Err(#p) => #b })));
                    }
                }
            }
            "is_some_and" => {
                let (p, b) = self.closure1(&m.args[0]).ok_or("closure form")?;
                if has_return(&b) {
                    return Err("return in closure".into());
                }
                return Ok(Some(parse_quote!(match #recv { Some(#p) => #b, None => false })));
            }
            "map_or" => {
                let d = &m.args[0];
                let (p, b) = self.closure1(&m.args[1]).ok_or("closure form")?;
                if has_return(&b) {
                    return Err("return in closure".into());
                }
                return Ok(Some(parse_quote!({ let __d = #d; match #recv { Some(#p) => #b, None => __d } })));
            }
            "unwrap_or" => {
                let d = &m.args[0];
                return Ok(Some(parse_quote!({ let __r = #recv; let __d = #d; match __r { Some(__x) => __x, None => __d } })));
            }
            "unwrap_or_else" if matches!(m.args[0], Expr::Path(_)) => {
                // on a Result; an Option here does not type-check
                let f = &m.args[0];
                return Ok(Some(parse_quote!(match #recv { Ok(__x) => __x, Err(__e) => #f(__e) })));
            }
            "unwrap_or_else" => {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() {
                        let b = &c.body;
                        if has_return(b) {
                            return Err("return in closure".into());
                        }
                        return Ok(Some(parse_quote!(match #recv { Some(__x) => __x, None => #b })));
                    }
                    // on a Result: only where the error is not looked at
                    if matches!(c.inputs[0], syn::Pat::Wild(_)) {
                        let b = &c.body;
                        if has_return(b) {
                            return Err("return in closure".into());
                        }
                        return Ok(Some(parse_quote!(match #recv { Ok(__x) => __x, Err(_) => #b })));
                    }
                    return Err("unwrap_or_else on a Result".into());
                }
            }
            "unwrap_or_default" => {
                return Ok(Some(parse_quote!(match #recv { Some(__x) => __x, None => v_default() })));
            }
            "parse_terminated" if m.args.len() == 2 => {
                let t: Type = match &m.args[0] {
                    Expr::Path(p) if p.qself.is_some() => (*p.qself.as_ref().unwrap().ty).clone(),
                    Expr::Path(p) if p.path.segments.len() >= 2 => {
                        let mut q = p.path.clone();
                        q.segments.pop();
                        let last = q.segments.pop().unwrap().into_value();
                        q.segments.push(last);
                        parse_quote!(#q)
                    }
                    _ => return Err("parse_terminated form".into()),
                };
                let sep = &m.args[1];
                return Ok(Some(parse_quote!((#recv).v_parse_terminated::<#t>(#sep))));
            }
            "or_insert_with" => {
                if let Expr::Closure(c) = &m.args[0] {
                    let b = &c.body;
                    if let Expr::MethodCall(en) = &**recv {
                        if en.method == "entry" && en.args.len() == 1 {
                            let (x, k) = (&en.receiver, &en.args[0]);
                            return Ok(Some(parse_quote!((#x).v_entry_or(#k, #b))));
                        }
                    }
                    // the default is evaluated eagerly: it is required to be free of effects
                    return Ok(Some(parse_quote!((#recv).v_or_insert(#b))));
                }
            }
            "retain" => {
                // keep the items whose flag, read off an iterator, is set
                if let Expr::Closure(c) = &m.args[0] {
                    if let Expr::Unary(u) = &*c.body {
                        if let Expr::MethodCall(un) = &*u.expr {
                            if let Expr::MethodCall(nx) = &*un.receiver {
                                if matches!(u.op, UnOp::Deref(_)) && un.method == "unwrap" && nx.method == "next" && matches!(c.inputs.first(), Some(Pat::Wild(_))) {
                                    let it = &nx.receiver;
                                    return Ok(Some(parse_quote!((#recv).v_retain_by(&mut #it))));
                                }
                            }
                        }
                    }
                }
                return Err("retain".into());
            }
            "sort_by" => {
                let c = crate::source::strip_ws(&m.args.to_token_stream().to_string());
                if c == "|(k1,_),(k2,_)|k1.cmp(k2)" {
                    return Ok(Some(parse_quote!((#recv).v_sort_by_key0())));
                }
                return Err("sort_by with another order".into());
            }
            "then" => {
                if let Expr::Closure(c) = &m.args[0] {
                    let b = &c.body;
                    return Ok(Some(parse_quote!(if #recv { Some(#b) } else { None })));
                }
            }
            _ => {}
        }
        let ren = match n.as_str() {
            "clone" | "as_ref" | "to_string" | "into" | "try_into" | "flatten" | "join" | "concat" | "strip_prefix"
            | "repeat" | "trim" | "lines" | "chars" | "split" | "parse" | "extend" | "take" | "rev" | "unwrap" | "expect"
            | "matches" | "rsplit" | "is_ident" | "get_ident" | "ok" | "insert" | "as_deref" | "sort_by" | "next"
            | "next_back" | "iter" | "into_iter" | "as_slice" | "pop" | "last" | "entry" | "downcast" | "max"
            | "parse_terminated" | "is_empty" | "cloned" | "starts_with" | "ends_with" | "contains" | "push_str" | "unwrap_or_default_" => {
                Some(format!("v_{n}"))
            }
            _ => None,
        };
        let ren = self.pack.mrename.get(&n).cloned().or(ren);
        if let Some(r) = ren {
            if r != n {
                let mut m2 = m.clone();
                m2.method = format_ident!("{}", r);
                if r == "v_expect" {
                    m2.args.clear();
                    m2.method = format_ident!("v_unwrap");
                }
                return Ok(Some(Expr::MethodCall(m2)));
            }
        }
        Ok(None)
    }

    fn match_step(&mut self, m: &ExprMatch) -> R<Option<Expr>> {
        // string patterns
        fn is_str(p: &Pat) -> bool {
            match p {
                Pat::Lit(l) => matches!(l.lit, Lit::Str(_)),
                Pat::Or(o) => o.cases.iter().all(is_str),
                _ => false,
            }
        }
        if m.arms.iter().any(|a| is_str(&a.pat)) {
            self.tmp += 1;
            let s = format_ident!("__s{}", self.tmp);
            let mut acc: Expr = parse_quote!(unreachable!());
            for a in m.arms.iter().rev() {
                if a.guard.is_some() {
                    return Err("guard in a string match".into());
                }
                let b = &a.body;
                acc = match &a.pat {
                    Pat::Wild(_) => parse_quote!({ #b }),
                    Pat::Ident(i) => {
                        let i = &i.ident;
                        parse_quote!({ let #i = #s; #b })
                    }
                    p if is_str(p) => {
                        let lits: Vec<Pat> = match p {
                            Pat::Or(o) => o.cases.iter().cloned().collect(),
                            p => vec![p.clone()],
                        };
                        let mut c: Option<Expr> = None;
                        for l in lits {
                            let t: Expr = parse_quote!(str_eq(#s, #l));
                            c = Some(match c {
                                None => t,
                                Some(c) => parse_quote!(#c || #t),
                            });
                        }
                        let c = c.unwrap();
                        let el: Expr = match acc {
                            Expr::If(_) | Expr::Block(_) => acc,
                            a => parse_quote!({ #a }),
                        };
                        parse_quote!(if #c { #b } else #el)
                    }
                    _ => return Err("string match arm".into()),
                };
            }
            let sc = &m.expr;
            return Ok(Some(parse_quote!({ let #s = #sc; #acc })));
        }
        // `A | B if g`: one arm for each alternative
        if m.arms.iter().any(|a| a.guard.is_some() && matches!(a.pat, Pat::Or(_))) {
            let mut n = m.clone();
            n.arms = vec![];
            for a in &m.arms {
                match (&a.pat, &a.guard) {
                    (Pat::Or(o), Some(_)) => {
                        for c in &o.cases {
                            let mut b = a.clone();
                            b.pat = c.clone();
                            if b.comma.is_none() {
                                b.comma = Some(Default::default());
                            }
                            n.arms.push(b);
                        }
                    }
                    _ => n.arms.push(a.clone()),
                }
            }
            return Ok(Some(Expr::Match(n)));
        }
        // a guard that does not use what its pattern binds, next to mutable bindings: test it first
        if self.has_mut {
            for (n, a) in m.arms.iter().enumerate() {
                if let Some((_, g)) = &a.guard {
                    let mut names: Vec<Ident> = vec![];
                    struct N<'x>(&'x mut Vec<Ident>);
                    impl<'a> syn::visit::Visit<'a> for N<'_> {
                        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
                            self.0.push(i.ident.clone())
                        }
                    }
                    syn::visit::Visit::visit_pat(&mut N(&mut names), &a.pat);
                    let gt: Vec<String> = crate::render::canon(g.to_token_stream()).split(' ').map(|x| x.to_string()).collect();
                    if names.iter().any(|x| gt.contains(&x.to_string())) || names.is_empty() || !matches!(&*m.expr, Expr::Path(_)) {
                        continue;
                    }
                    let g = g.clone();
                    let mut with = m.clone();
                    with.arms[n].guard = None;
                    let mut without = m.clone();
                    without.arms.remove(n);
                    return Ok(Some(parse_quote!(if #g { #with } else { #without })));
                }
            }
        }
        // arms with alternatives that bind: one arm each
        let mut changed = false;
        let mut arms = vec![];
        for a in &m.arms {
            match &a.pat {
                Pat::Or(o) if o.cases.iter().any(binds) => {
                    changed = true;
                    for c in &o.cases {
                        let mut na = a.clone();
                        na.pat = c.clone();
                        arms.push(na);
                    }
                }
                _ => arms.push(a.clone()),
            }
        }
        if changed {
            let mut m2 = m.clone();
            m2.arms = arms;
            for a in &mut m2.arms {
                a.comma = Some(Default::default());
            }
            return Ok(Some(Expr::Match(m2)));
        }
        Ok(None)
    }

    fn macro_step(&mut self, m: &ExprMacro) -> R<Option<Expr>> {
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        if name.starts_with("__v") {
            return Ok(None);
        }
        match name.as_str() {
            "matches" => {
                let ts = m.mac.tokens.clone();
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Token![,]>();
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = parse2(ts).map_err(|e| format!("matches!: {e}"))?;
                let gg = g.map(|g| quote!(if #g));
                Ok(Some(parse_quote!(match #e { #p #gg => true, _ => false })))
            }
            "unreachable" | "panic" | "vec" | "assert" | "Token" => {
                if name == "Token" {
                    let s = crate::source::strip_ws(&m.mac.tokens.to_string());
                    return Ok(Some(parse_quote!(TokKind(#s))));
                }
                if name == "vec" {
                    let ts = &m.mac.tokens;
                    let arr: ExprArray = parse2(quote!([#ts])).map_err(|_| "vec!")?;
                    self.tmp += 1;
                    let x = format_ident!("__l{}", self.tmp);
                    let el = arr.elems.iter();
                    return Ok(Some(parse_quote!({ let mut #x = Vec::new(); #(#x.push(#el);)* #x })));
                }
                if name == "unreachable" {
                    return Ok(None);
                }
                Err(format!("macro {name}!"))
            }
            "parse_macro_input" => {
                struct P(Expr, Type);
                impl syn::parse::Parse for P {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let c: ExprCast = i.parse()?;
                        Ok(P(*c.expr, *c.ty))
                    }
                }
                let P(e, t) = parse2(m.mac.tokens.clone()).map_err(|e| format!("parse_macro_input!: {e}"))?;
                Ok(Some(parse_quote!(match v_parse2::<#t>(#e) { Ok(__x) => __x, Err(__e) => { return v_compile_error(__e); } })))
            }
            "format" => {
                struct F(LitStr, Vec<Expr>);
                impl syn::parse::Parse for F {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let l: LitStr = i.parse()?;
                        let mut v = vec![];
                        while !i.is_empty() {
                            i.parse::<Token![,]>()?;
                            if i.is_empty() {
                                break;
                            }
                            v.push(i.parse()?);
                        }
                        Ok(F(l, v))
                    }
                }
                let F(l, args) = parse2(m.mac.tokens.clone()).map_err(|e| format!("format!: {e}"))?;
                Ok(Some(format_expr(&l.value(), &args)?))
            }
            "write" => {
                struct W(Expr, TokenStream);
                impl syn::parse::Parse for W {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        Ok(W(e, i.parse()?))
                    }
                }
                let W(f, rest) = parse2(m.mac.tokens.clone()).map_err(|e| format!("write!: {e}"))?;
                Ok(Some(parse_quote!((#f).v_write(format!(#rest)))))
            }
            "quote" | "parse_quote" => {
                let b = quote_builder(m.mac.tokens.clone())?;
                Ok(Some(if name == "quote" { b } else { parse_quote!((#b).v_parse_quote()) }))
            }
            _ => Err(format!("macro {name}!")),
        }
    }
}

fn strip_ref(p: Pat) -> Pat {
    match p {
        Pat::Reference(r) => *r.pat,
        p => p,
    }
}

pub enum LoopResult {
    Unit,
    Try { unit: bool },
    Map,
    Filter,
    Flat,
    Any,
    All,
}

fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

fn binds(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            let c = i.ident.to_string().chars().next().unwrap_or('a');
            if c.is_lowercase() || c == '_' {
                self.0 = true
            }
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}

fn split_and(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            split_and(&b.left, out);
            split_and(&b.right, out);
        }
        e => out.push(e.clone()),
    }
}

/// `format!` with plain placeholders as a concatenation
pub fn format_expr(f: &str, args: &[Expr]) -> R<Expr> {
    let mut parts: Vec<Expr> = vec![];
    let mut lit = String::new();
    let mut it = f.chars().peekable();
    let mut next = 0;
    let flush = |lit: &mut String, parts: &mut Vec<Expr>| {
        if !lit.is_empty() {
            let l = LitStr::new(lit, Span::call_site());
            parts.push(parse_quote!(str_lit(#l)));
            lit.clear();
        }
    };
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                lit.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                lit.push('}');
            }
            '{' => {
                let mut n = String::new();
                loop {
                    match it.next() {
                        Some('}') => break,
                        Some(c) => n.push(c),
                        None => return Err("format string".into()),
                    }
                }
                flush(&mut lit, &mut parts);
                let (name, fmt) = match n.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (n, String::new()),
                };
                let arg: Expr = if name.is_empty() {
                    next += 1;
                    args.get(next - 1).cloned().ok_or("format argument")?
                } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                    let id = format_ident!("{}", name);
                    parse_quote!(#id)
                } else {
                    return Err("format argument".into());
                };
                if fmt.is_empty() {
                    parts.push(parse_quote!((#arg).v_to_string()));
                } else if let Some(wd) = fmt.strip_prefix(" >").and_then(|s| s.strip_suffix('$')) {
                    let w = format_ident!("{}", wd);
                    parts.push(parse_quote!(v_pad_left(&(#arg).v_to_string(), #w)));
                } else {
                    return Err(format!("format spec {fmt}"));
                }
            }
            c => lit.push(c),
        }
    }
    flush(&mut lit, &mut parts);
    let mut acc: Expr = parse_quote!(str_empty());
    for p in parts {
        acc = parse_quote!(str_cat(#acc, #p));
    }
    Ok(acc)
}

/// `quote!` as a concatenation of literal token runs and interpolations
pub fn quote_builder(ts: TokenStream) -> R<Expr> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut acc: Expr = parse_quote!(ts_empty());
    let mut run: Vec<TokenTree> = vec![];
    fn flush(run: &mut Vec<TokenTree>, acc: &mut Expr) {
        if !run.is_empty() {
            let t: TokenStream = run.drain(..).collect();
            let s = crate::render::canon(t);
            *acc = parse_quote!(ts_cat(#acc, ts_lit(#s)));
        }
    }
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '#' && i + 1 < v.len() => match &v[i + 1] {
                TokenTree::Ident(id) => {
                    flush(&mut run, &mut acc);
                    acc = parse_quote!(ts_cat(#acc, (#id).v_tokens()));
                    i += 2;
                    continue;
                }
                TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Parenthesis => {
                    flush(&mut run, &mut acc);
                    // #(#x),*  -- only the simple repetition of one variable
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let [TokenTree::Punct(h), TokenTree::Ident(id)] = &inner[..] {
                        if h.as_char() == '#' {
                            if let Some(TokenTree::Punct(star)) = v.get(i + 2) {
                                if star.as_char() == '*' {
                                    acc = parse_quote!(ts_cat(#acc, ts_all(&#id)));
                                    i += 3;
                                    continue;
                                }
                            }
                            if let (Some(TokenTree::Punct(sep)), Some(TokenTree::Punct(star))) = (v.get(i + 2), v.get(i + 3)) {
                                if star.as_char() == '*' {
                                    let s = sep.as_char().to_string();
                                    acc = parse_quote!(ts_cat(#acc, ts_join(#id, #s)));
                                    i += 4;
                                    continue;
                                }
                            }
                        }
                    }
                    return Err("quote repetition".into());
                }
                _ => {}
            },
            TokenTree::Group(g) => {
                flush(&mut run, &mut acc);
                let inner = quote_builder(g.stream())?;
                let d = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => "(",
                    proc_macro2::Delimiter::Brace => "{",
                    proc_macro2::Delimiter::Bracket => "[",
                    proc_macro2::Delimiter::None => "",
                };
                acc = parse_quote!(ts_cat(#acc, ts_group(#d, #inner)));
                i += 1;
                continue;
            }
            _ => {}
        }
        run.push(v[i].clone());
        i += 1;
    }
    flush(&mut run, &mut acc);
    Ok(acc)
}

/// the specification counterpart of `quote_builder`, for `$q{..}` in packs; `#(e)` interpolates a specification expression
pub fn quote_spec(ts: TokenStream) -> String {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut acc = String::from("ts_empty_spec()");
    let mut run: Vec<TokenTree> = vec![];
    fn flush(run: &mut Vec<TokenTree>, acc: &mut String) {
        if !run.is_empty() {
            let t: TokenStream = run.drain(..).collect();
            *acc = format!("ts_cat_spec({acc}, ts_lit_spec({:?}@))", crate::render::canon(t));
        }
    }
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '#' && i + 1 < v.len() => match &v[i + 1] {
                TokenTree::Ident(id) => {
                    flush(&mut run, &mut acc);
                    acc = format!("ts_cat_spec({acc}, tokens_of({id}))");
                    i += 2;
                    continue;
                }
                TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Parenthesis => {
                    flush(&mut run, &mut acc);
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let [TokenTree::Punct(h), rest @ ..] = &inner[..] {
                        if h.as_char() == '#' {
                            let rest: TokenStream = rest.iter().cloned().collect();
                            let sep = v[i + 2].to_string();
                            acc = format!("ts_cat_spec({acc}, ts_join_spec({rest}, {sep:?}@))");
                            i += 4;
                            continue;
                        }
                    }
                    acc = format!("ts_cat_spec({acc}, tokens_of({}))", g.stream());
                    i += 2;
                    continue;
                }
                _ => {}
            },
            TokenTree::Group(g) => {
                flush(&mut run, &mut acc);
                let d = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => "(",
                    proc_macro2::Delimiter::Brace => "{",
                    proc_macro2::Delimiter::Bracket => "[",
                    proc_macro2::Delimiter::None => "",
                };
                acc = format!("ts_cat_spec({acc}, ts_group_spec({d:?}@, {}))", quote_spec(g.stream()));
                i += 1;
                continue;
            }
            _ => {}
        }
        run.push(v[i].clone());
        i += 1;
    }
    flush(&mut run, &mut acc);
    acc
}

impl VisitMut for Ctx<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        rewrite_path(p, self.pack);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        TypePass { pack: self.pack, assoc: self.assoc.clone() }.visit_type_mut(t);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
        // let (A(x) | B(x)) = e;
        for s in &mut b.stmts {
            if let Stmt::Local(l) = s {
                let pat = match &l.pat {
                    Pat::Paren(p) => (*p.pat).clone(),
                    p => p.clone(),
                };
                if let Pat::Or(o) = pat {
                    let mut names: Vec<Ident> = vec![];
                    struct N<'x>(&'x mut Vec<Ident>);
                    impl<'a> syn::visit::Visit<'a> for N<'_> {
                        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
                            self.0.push(i.ident.clone())
                        }
                    }
                    syn::visit::Visit::visit_pat(&mut N(&mut names), &o.cases[0]);
                    if let (Some(init), [n]) = (&l.init, &names[..]) {
                        let e = &init.expr;
                        let cs = o.cases.iter();
                        *s = parse_quote!(let #n = match #e { #(#cs => #n,)* };);
                    } else {
                        self.fail("or-pattern in let");
                    }
                }
            }
            // an iterator chain bound by `let`: its items, collected
            if let Stmt::Local(l) = s {
                if let Some(init) = &mut l.init {
                    if let Some((src, ms)) = chain(&init.expr) {
                        if ms.len() >= 2 && iter_adaptor(&ms.last().unwrap().method.to_string()) && ms.last().unwrap().method != "enumerate" {
                            match self.stages(src, &ms) {
                                Ok(e) => *init.expr = e,
                                Err(x) => self.fail(&x),
                            }
                        }
                    }
                }
            }
            if let Stmt::Macro(m) = s {
                let n = m.mac.path.to_token_stream().to_string();
                if !n.starts_with("__v") {
                    let mac = m.mac.clone();
                    let semi = m.semi_token;
                    *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac }), semi);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..50 {
            match self.step(e) {
                Ok(Some(n)) => *e = n,
                Ok(None) => break,
                Err(x) => {
                    self.fail(&x);
                    break;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // after the children: thread the world through calls, note calls nobody has a contract for
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let k = p.path.segments.len();
                    let q = if k >= 2 { format!("{}::{}", p.path.segments[k - 2].ident, n) } else { n.clone() };
                    if self.pack.world.contains(&q) || (k == 1 && self.pack.world.contains(&n)) {
                        self.uses_world = true;
                        c.args.push(parse_quote!(w));
                    }
                    let up = n.chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
                    let std_from = n == "from" && k >= 2 && ["String", "Vec", "Option", "HashMap", "Box", "Rc", "PathBuf", "TokenStream"].contains(&p.path.segments[k - 2].ident.to_string().as_str());
                    if std_from {
                        self.unknown.insert(q.clone());
                    }
                    if !up && n != "clone" && !self.pack.known.contains(&n) && !n.starts_with("v_") && !n.starts_with("str_") && !n.starts_with("ts_")
                    {
                        self.unknown.insert(n);
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let on_self = m.receiver.to_token_stream().to_string() == "self";
                if self.pack.world.iter().any(|x| x.ends_with(&format!("::{n}")) || (on_self && x.ends_with(&format!("::{n}/self")))) {
                    self.uses_world = true;
                    m.args.push(parse_quote!(w));
                }
            }
            _ => {}
        }
    }
}
