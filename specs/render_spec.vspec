// ---------------------------------------------------------------------------------------------
// What a hook writes around an expression (C07 C08 C09 C10 C17)
// ---------------------------------------------------------------------------------------------
//@include tokens.vspec
//@ty method/render/meta_vars.rs MetaVars
//@include pm.vspec
/// the part of a string after the last occurrence of a character
pub open spec fn after_last(s: Seq<char>, c: char) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == c { Seq::empty() } else { after_last(s.drop_last(), c).push(s.last()) }
}
pub struct VRSplit<'a> { pub s: &'a str, pub c: char }
pub trait VRSplitOps { fn v_rsplit(&self, c: char) -> (r: VRSplit<'_>); }
impl VRSplitOps for String {
    #[verifier::external_body]
    fn v_rsplit(&self, c: char) -> (r: VRSplit<'_>) ensures r.s@ == self@, r.c == c { unimplemented!() }
}
impl<'a> VRSplit<'a> {
    #[verifier::external_body]
    pub fn v_next(self) -> (r: Option<&'a str>) ensures r is Some, r->0@ == after_last(self.s@, self.c) { unimplemented!() }
}
// ---- meta variables ----------------------------------------------------------------------------
/// C08: the documented names
pub open spec fn meta_of(s: Seq<char>) -> Option<MetaVars> {
    if s == "line"@ { Some(MetaVars::Line) }
    else if s == "column"@ || s == "col"@ { Some(MetaVars::Column) }
    else if s == "path"@ { Some(MetaVars::Path) }
    else if s == "file"@ { Some(MetaVars::File) }
    else if s == "expr"@ { Some(MetaVars::Expr) }
    else if s == "source"@ { Some(MetaVars::Source) }
    else if s == "nth"@ || s == "count"@ { Some(MetaVars::Count) }
    else if s == "fnname"@ || s == "fn_name"@ { Some(MetaVars::FnName) }
    else if s == "fnsig"@ || s == "fn_sig"@ { Some(MetaVars::FnSig) }
    else if s == "sofar"@ || s == "so_far"@ { Some(MetaVars::SoFar) }
    else if s == "bindings"@ || s == "vars"@ { Some(MetaVars::Bindings) }
    else if s == "hooqmeta"@ || s == "hooq_meta"@ { Some(MetaVars::HooqMeta) }
    else { None }
}
/// one hook being written: where, around what, with what in force
pub struct HookV { pub ctx: CtxV, pub expr: Expr, pub src: TokenStream, pub kind: HookTargetKind, pub span: Span, pub counter: Counter }
pub open spec fn ordinal_suffix(n: int) -> Seq<char> {
    if 11 <= n % 100 <= 13 { "th"@ } else if n % 10 == 1 { "st"@ } else if n % 10 == 2 { "nd"@ } else if n % 10 == 3 { "rd"@ } else { "th"@ }
}
/// C07: "3rd ?"
pub open spec fn count_str(h: HookV) -> Seq<char> {
    nat_str(count_of(h.counter, h.kind) as nat) + ordinal_suffix(count_of(h.counter, h.kind)) + " "@ + kind_name(h.kind)
}
pub open spec fn fn_name_str(h: HookV) -> Seq<char> { match h.ctx.fns.cur { Some(f) => fi_name(f), None => "<unknown>"@ } }
pub open spec fn fn_sig_str(h: HookV) -> Seq<char> { match h.ctx.fns.cur { Some(f) => fi_sig(f), None => "<unknown>"@ } }
pub open spec fn file_name(s: Span) -> Seq<char> { after_last(pm_file(pm_span(s)), '/') }
pub open spec fn binding_entry(e: (String, Rc<Expr>)) -> TokenStream {
    $q{ (::std::string::ToString::to_string(#(e.0)), {
        let expr = ::std::string::ToString::to_string(#(string_of(ts_string(tokens_of(*e.1)))));
        let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new(#(*e.1));
        ::hooq::BindingPayload { expr, value, }
    }) }
}
pub open spec fn bindings_ts(c: CtxV) -> TokenStream {
    $q{ ::std::collections::HashMap::from([ #(#sorted_entries(c.binds).map_values(|e: (String, Rc<Expr>)| binding_entry(e))),* ]) }
}
/// C08: what a meta variable other than $so_far stands for; a name that is none of them is a binding or an error
pub open spec fn meta_ts(name: Seq<char>, h: HookV) -> Option<TokenStream> {
    match meta_of(name) {
        Some(MetaVars::Line) => Some(tokens_of(pm_line(pm_span(h.span)))),
        Some(MetaVars::Column) => Some(tokens_of(pm_column(pm_span(h.span)))),
        Some(MetaVars::Path) => Some(tokens_of(string_of(pm_file(pm_span(h.span))))),
        Some(MetaVars::File) => Some(tokens_of(string_of(file_name(h.span)))),
        Some(MetaVars::Expr) => Some(tokens_of(h.expr)),
        Some(MetaVars::Source) => Some(h.src),
        Some(MetaVars::Count) => Some(tokens_of(string_of(count_str(h)))),
        Some(MetaVars::FnName) => Some(tokens_of(string_of(fn_name_str(h)))),
        Some(MetaVars::FnSig) => Some(tokens_of(string_of(fn_sig_str(h)))),
        Some(MetaVars::Bindings) => Some(bindings_ts(h.ctx)),
        Some(MetaVars::HooqMeta) => Some($q{ ::hooq::HooqMeta {
            line: #(pm_line(pm_span(h.span))),
            column: #(pm_column(pm_span(h.span))),
            path: #(string_of(pm_file(pm_span(h.span)))),
            file: #(string_of(file_name(h.span))),
            source_str: #(string_of(ts_string(h.src))),
            count: #(string_of(count_str(h))),
            bindings: #(bindings_ts(h.ctx)),
        } }),
        Some(MetaVars::SoFar) => None,
        None => if h.ctx.binds.contains_key(string_of(name)) { Some(tokens_of(*h.ctx.binds[string_of(name)])) } else { None },
    }
}
/// token trees are finite: a rank that decreases inside groups and along the sequence
pub open spec fn is_dollar(t: TokenTree) -> bool { t matches TokenTree::Punct(p) && punct_char(p) == '$' }
pub open spec fn cat2(a: Option<TokenStream>, b: Option<TokenStream>) -> Option<TokenStream> {
    match (a, b) { (Some(x), Some(y)) => Some(ts_cat_spec(x, y)), _ => None }
}
pub open spec fn method_body(m: Method) -> TokenStream { match m { Method::Insert(_, t, _) => t, Method::Replace(t, _) => t } }
/// the template with every `$name` replaced, at any depth; every other token stays.  `ms` are the method being written
/// followed by the ones it overrides: `$so_far` is what the next one expands to (C09), and an error when there is none.
pub open spec fn sp_expand(s: Seq<TokenTree>, h: HookV, ms: Seq<Method>) -> Option<TokenStream>
    decreases ms.len(), tts_size(s) via sp_expand_dec
{
    if s.len() == 0 { Some(ts_empty_spec()) }
    else if is_dollar(s[0]) {
        if s.len() < 2 { None } else {
            match s[1] {
                TokenTree::Ident(id) => cat2(
                    if meta_of(ident_str(id)) == Some(MetaVars::SoFar) {
                        if ms.len() < 2 { None } else { sp_expand(ts_seq(method_body(ms[1])), h, ms.skip(1)) }
                    } else { meta_ts(ident_str(id), h) },
                    sp_expand(s.skip(2), h, ms)),
                _ => None,
            }
        }
    } else {
        cat2(match s[0] {
            TokenTree::Group(g) => match sp_expand(ts_seq(group_stream(g)), h, ms) {
                Some(t) => Some(one(TokenTree::Group(group_new(group_delim(g), t)))), None => None },
            t => Some(one(t)),
        }, sp_expand(s.skip(1), h, ms))
    }
}
#[via_fn]
proof fn sp_expand_dec(s: Seq<TokenTree>, h: HookV, ms: Seq<Method>) { tts_size_ax(s); }
/// C10: an expression that binds weaker than a method call is put in parentheses
pub open spec fn binds_weaker(e: Expr) -> bool {
    match e {
        Expr::Assign(_) | Expr::Binary(_) | Expr::Break(_) | Expr::Cast(_) | Expr::Closure(_) | Expr::Let(_) | Expr::Range(_) | Expr::RawAddr(_)
        | Expr::Reference(_) | Expr::Return(_) | Expr::Unary(_) | Expr::Yield(_) => true,
        _ => false,
    }
}
pub open spec fn receiver_ts(e: Expr) -> TokenStream { if binds_weaker(e) { $q{ (#e) } } else { tokens_of(e) } }
/// C10: an inserted method is called on the whole expression, a replacing one stands in its place; the flag tells
/// whether the method ends in the mark that consumes the `?`
#[verifier::opaque]
pub open spec fn sp_render(c: CtxV, e: Expr, src: TokenStream, kind: HookTargetKind, span: Span, n: Counter) -> Option<(Expr, bool)> {
    let h = HookV { ctx: c, expr: e, src, kind, span, counter: n };
    match sp_expand(ts_seq(method_body(c.methods[0])), h, c.methods) {
        None => None,
        Some(t) => Some(match c.methods[0] {
            Method::Insert(dot, _, exc) => (parsed::<Expr>($q{ #(receiver_ts(e)) #dot #(respan(t, span)) }), exc is Some),
            Method::Replace(_, exc) => (parsed::<Expr>($q{ #(respan(t, span)) }), exc is Some),
        }),
    }
}
