//! Locating items in the working tree and in the locked syn release.
use crate::FnSpec;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;

pub struct Sources {
    repo: String,
    synsrc: String,
    files: HashMap<String, Option<syn::File>>,
    syn_types: Option<HashMap<String, syn::Item>>,
}

#[derive(Clone)]
pub struct Found {
    pub attrs: Vec<syn::Attribute>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub imp: Option<syn::ItemImpl>, // header (items emptied except associated types)
    pub line: usize,
}

pub fn strip_ws(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn drop_hash_markers(ts: TokenStream) -> TokenStream {
    // `#full` / `#no_visit` markers of syn's own macros
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '#' && i + 1 < v.len() && matches!(v[i + 1], TokenTree::Ident(_)) {
                i += 2;
                continue;
            }
        }
        out.push(v[i].clone());
        i += 1;
    }
    out.into_iter().collect()
}

pub fn scan_declared(t: &str, d: &mut HashMap<String, ()>) {
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        for k in 0..w.len().saturating_sub(1) {
            if matches!(w[k], "struct" | "enum" | "type" | "trait") {
                let n: String = w[k + 1].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                d.insert(n, ());
            }
        }
    }
}

fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && strip_ws(&a.to_token_stream().to_string()).contains("cfg(test)"))
}

/// attributes like #[cfg(feature = "...")]: keep the version with the named features on/off as the pack's file says
fn cfg_ok(attrs: &[syn::Attribute], features: &[&str]) -> bool {
    attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| {
        let s = strip_ws(&a.to_token_stream().to_string());
        for f in ["consume-question", "log", "anyhow", "eyre", "tracing"] {
            if s == format!("#[cfg(feature=\"{f}\")]") {
                return features.contains(&f);
            }
            if s == format!("#[cfg(not(feature=\"{f}\"))]") {
                return !features.contains(&f);
            }
        }
        true
    })
}

impl Sources {
    pub fn new(repo: &str, synsrc: &str) -> Self {
        Sources { repo: repo.into(), synsrc: synsrc.into(), files: HashMap::new(), syn_types: None }
    }
    fn file(&mut self, f: &str) -> Option<&syn::File> {
        if !self.files.contains_key(f) {
            let p = if f.starts_with("hooq-helpers/") || f.starts_with("hooq-macros/") { format!("{}/{}", self.repo, f) }
                else { format!("{}/hooq-macros/src/impls/{}", self.repo, f) };
            let parsed = std::fs::read_to_string(p).ok().and_then(|t| syn::parse_file(&t).ok());
            self.files.insert(f.to_string(), parsed);
        }
        self.files[f].as_ref()
    }
    pub fn syn_type(&mut self, n: &str) -> Option<syn::Item> {
        if self.syn_types.is_none() {
            let mut m = HashMap::new();
            for e in std::fs::read_dir(&self.synsrc).unwrap() {
                let p = e.unwrap().path();
                if p.extension().and_then(|x| x.to_str()) != Some("rs") {
                    continue;
                }
                let Ok(f) = syn::parse_file(&std::fs::read_to_string(&p).unwrap()) else { continue };
                fn items(v: Vec<syn::Item>, m: &mut HashMap<String, syn::Item>) {
                    for i in v {
                        match i {
                            syn::Item::Macro(im) => {
                                let n = im.mac.path.to_token_stream().to_string();
                                if n.starts_with("ast_") {
                                    if let Ok(it) = syn::parse2::<syn::Item>(drop_hash_markers(im.mac.tokens)) {
                                        match &it {
                                            syn::Item::Struct(s) => m.insert(s.ident.to_string(), it.clone()),
                                            syn::Item::Enum(s) => m.insert(s.ident.to_string(), it.clone()),
                                            _ => None,
                                        };
                                    }
                                }
                            }
                            syn::Item::Struct(ref s) => {
                                m.entry(s.ident.to_string()).or_insert(i.clone());
                            }
                            syn::Item::Enum(ref s) => {
                                m.entry(s.ident.to_string()).or_insert(i.clone());
                            }
                            syn::Item::Mod(mm) => {
                                if let Some((_, v)) = mm.content {
                                    items(v, m)
                                }
                            }
                            _ => {}
                        }
                    }
                }
                items(f.items, &mut m);
            }
            self.syn_types = Some(m);
        }
        self.syn_types.as_ref().unwrap().get(n).cloned()
    }
    pub fn repo_type(&mut self, f: &str, n: &str) -> Option<syn::Item> {
        struct V<'a>(&'a str, Option<syn::Item>);
        impl<'ast> syn::visit::Visit<'ast> for V<'_> {
            fn visit_item(&mut self, i: &'ast syn::Item) {
                match i {
                    syn::Item::Struct(s) if s.ident == self.0 => self.1 = Some(i.clone()),
                    syn::Item::Enum(s) if s.ident == self.0 => self.1 = Some(i.clone()),
                    _ => syn::visit::visit_item(self, i),
                }
            }
        }
        let file = self.file(f)?;
        let mut v = V(n, None);
        syn::visit::visit_file(&mut v, file);
        v.1
    }
    pub fn find_fn(&mut self, s: &FnSpec) -> Option<Found> {
        let features: Vec<&str> = s.attrs.iter().filter_map(|a| a.strip_prefix("feature:")).collect();
        let (path, tr) = match s.path.split_once('@') {
            Some((p, t)) => (p.to_string(), Some(t.to_string())),
            None => (s.path.clone(), None),
        };
        struct V<'a> {
            ty: Option<String>,
            name: String,
            tr: Option<String>,
            outer: Option<String>,
            found: Option<Found>,
            cur_impl: Option<syn::ItemImpl>,
            cur_fn: Vec<String>,
            features: Vec<&'a str>,
        }
        impl V<'_> {
            fn hit(&mut self, attrs: &[syn::Attribute], sig: &syn::Signature, block: &syn::Block) {
                if self.found.is_some() || sig.ident != self.name || !cfg_ok(attrs, &self.features) {
                    return;
                }
                if let Some(o) = &self.outer {
                    if self.cur_fn.last() != Some(o) {
                        return;
                    }
                }
                let imp = match (&self.ty, &self.cur_impl) {
                    (Some(t), Some(i)) => {
                        let st = strip_ws(&i.self_ty.to_token_stream().to_string());
                        let base = st.split('<').next().unwrap().rsplit("::").next().unwrap();
                        if base != t && st != *t {
                            return;
                        }
                        if !cfg_ok(&i.attrs, &self.features) {
                            return;
                        }
                        if let Some(tr) = &self.tr {
                            let x = i.trait_.as_ref().map(|t| strip_ws(&t.1.to_token_stream().to_string())).unwrap_or_default();
                            if &x != tr && x.rsplit("::").next() != Some(tr) {
                                return;
                            }
                        }
                        Some(i.clone())
                    }
                    (None, None) => None,
                    (None, Some(_)) if self.outer.is_some() => None,
                    _ => return,
                };
                self.found = Some(Found {
                    attrs: attrs.to_vec(),
                    sig: sig.clone(),
                    block: block.clone(),
                    imp,
                    line: sig.ident.span().start().line,
                });
            }
        }
        impl<'ast> syn::visit::Visit<'ast> for V<'_> {
            fn visit_item_mod(&mut self, i: &'ast syn::ItemMod) {
                if !has_cfg_test(&i.attrs) {
                    syn::visit::visit_item_mod(self, i)
                }
            }
            fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
                let old = self.cur_impl.take();
                if self.ty.is_none() {
                    self.hit(&i.attrs, &i.sig, &i.block);
                }
                self.cur_fn.push(i.sig.ident.to_string());
                syn::visit::visit_item_fn(self, i);
                self.cur_fn.pop();
                self.cur_impl = old;
            }
            fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
                let mut h = i.clone();
                h.items.retain(|x| matches!(x, syn::ImplItem::Type(_)));
                let old = self.cur_impl.replace(h);
                for it in &i.items {
                    if let syn::ImplItem::Fn(f) = it {
                        if self.ty.is_some() {
                            self.hit(&f.attrs, &f.sig, &f.block);
                        }
                        self.cur_fn.push(f.sig.ident.to_string());
                        syn::visit::visit_block(self, &f.block);
                        self.cur_fn.pop();
                    }
                }
                self.cur_impl = old;
            }
        }
        // path forms: name | Type::name | outer>name (nested fn) | outer>Type::name
        let (outer, rest) = match path.split_once('>') {
            Some((o, r)) if !path.contains('<') => (Some(o.to_string()), r.to_string()),
            _ => (None, path.clone()),
        };
        let (ty, name) = match rest.rsplit_once("::") {
            Some((t, n)) => (Some(t.to_string()), n.to_string()),
            None => (None, rest),
        };
        let mut v = V { ty, name, tr, outer, found: None, cur_impl: None, cur_fn: vec![], features };
        let file = self.file(&s.file)?;
        let feats: Vec<String> = v.features.iter().map(|s| s.to_string()).collect();
        syn::visit::visit_file(&mut v, file);
        let mut found = v.found;
        if let Some(f) = &mut found {
            let mut macs = HashMap::new();
            for i in &file.items {
                if let syn::Item::Macro(m) = i {
                    if let (true, Some(n)) = (m.mac.path.is_ident("macro_rules"), &m.ident) {
                        macs.insert(n.to_string(), m.mac.tokens.clone());
                    }
                }
            }
            let mut e = Expand { macs, feats };
            syn::visit_mut::VisitMut::visit_block_mut(&mut e, &mut f.block);
        }
        found
    }
}

/// What happens before type checking: macro_rules! of the same file with one arm of `$x:expr` parameters, #[cfg(feature)] on
/// array elements, and the type of `..Default::default()` in a struct expression.
struct Expand {
    macs: HashMap<String, TokenStream>,
    feats: Vec<String>,
}

fn subst(ts: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Ident(id))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '$' {
                if let Some(t) = m.get(&id.to_string()) {
                    out.extend(t.clone());
                    i += 2;
                    continue;
                }
            }
        }
        out.push(match &v[i] {
            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m))),
            t => t.clone(),
        });
        i += 1;
    }
    out.into_iter().collect()
}

impl Expand {
    fn expand(&self, name: &str, args: TokenStream) -> Option<syn::Expr> {
        let v: Vec<TokenTree> = self.macs.get(name)?.clone().into_iter().collect();
        let (TokenTree::Group(pat), TokenTree::Group(body)) = (v.first()?, v.get(3)?) else { return None };
        if v.len() > 5 {
            return None; // several arms
        }
        let mut params = vec![];
        let p: Vec<TokenTree> = pat.stream().into_iter().collect();
        for c in p.split(|t| matches!(t, TokenTree::Punct(c) if c.as_char() == ',')) {
            match c.iter().map(|t| t.to_string()).collect::<Vec<_>>().as_slice() {
                [] => {}
                [d, x, c, k] if d == "$" && c == ":" && (k == "expr" || k == "path" || k == "ident" || k == "literal") => params.push(x.clone()),
                _ => return None,
            }
        }
        let args = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated, args).ok()?;
        if args.len() != params.len() {
            return None;
        }
        let m = params.into_iter().zip(args.into_iter().map(|a| a.to_token_stream())).collect();
        syn::parse2(subst(body.stream(), &m)).ok()
    }
}

impl syn::visit_mut::VisitMut for Expand {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if let Some(i) = m.mac.path.get_ident() {
                if let Some(x) = self.expand(&i.to_string(), m.mac.tokens.clone()) {
                    *e = x;
                }
            }
        }
        if let syn::Expr::Array(a) = e {
            let feats: Vec<&str> = self.feats.iter().map(|s| s.as_str()).collect();
            a.elems = std::mem::take(&mut a.elems)
                .into_iter()
                .filter(|x| match x {
                    syn::Expr::Tuple(t) => cfg_ok(&t.attrs, &feats),
                    syn::Expr::Call(t) => cfg_ok(&t.attrs, &feats),
                    _ => true,
                })
                .map(|mut x| {
                    if let syn::Expr::Tuple(t) = &mut x {
                        t.attrs.retain(|a| !a.path().is_ident("cfg"));
                    }
                    x
                })
                .collect();
        }
        if let syn::Expr::Struct(s) = e {
            if let Some(r) = &s.rest {
                if strip_ws(&r.to_token_stream().to_string()) == "Default::default()" {
                    let p = &s.path;
                    s.rest = Some(Box::new(syn::parse_quote!(#p::default())));
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
