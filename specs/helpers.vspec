//@include prelude.vspec
//@include tokens.vspec
//@include parse_lib.vspec
//@synty Expr Lit
//@include excerpt_spec.vspec
//@ty utils/source_excerpt_macros.rs Padding ExcerptMacroArgs Opt
//@method into_token_stream to_token_stream
//@path syn::parse2 v_parse2
//@path truncate_lit_str_inner v_truncate_lit_str_inner
//@path into_excerpted_line_pretty_str v_into_excerpted_line_pretty_str
//@path into_one_line_pretty_str v_into_one_line_pretty_str
//@path into_pretty_str v_into_pretty_str
// ---- what utils/source_excerpt.rs does, as proved in the excerpt pack (same predicates)
#[verifier::external_body]
pub struct IntoPrettyStrRes { v: u64 }
pub uninterp spec fn res_text(r: IntoPrettyStrRes) -> Seq<char>;
impl VToString for IntoPrettyStrRes { open spec fn str_spec(&self) -> Seq<char> { res_text(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn v_into_pretty_str(expr: Expr, s: PrettyStrSettings) -> (r: IntoPrettyStrRes) ensures res_text(r) == pretty_text(expr, s) { unimplemented!() }
#[verifier::external_body]
pub fn v_into_one_line_pretty_str(expr: Expr, t: TruncateLitStrSetting) -> (r: SynResult<String>) ensures r is Ok, r->Ok_0@ == one_line_text(expr, t) { unimplemented!() }
#[verifier::external_body]
pub fn v_into_excerpted_line_pretty_str(expr: Expr, s: ExcerptSetting) -> (r: SynResult<String>) ensures match excerpt_text(expr, s) { None => r is Err, Some(t) => r is Ok && r->Ok_0@ == t } { unimplemented!() }
#[verifier::external_body]
pub fn v_truncate_lit_str_inner(expr: Expr, max_len: Option<usize>) -> (r: SynResult<TokenStream>) ensures r is Ok, r->Ok_0 == tokens_of(with_short_lits(expr, limits_of(max_len))) { unimplemented!() }
// ---- literals
pub uninterp spec fn int_value<N>(l: LitInt) -> Option<N>;
impl LitInt { #[verifier::external_body] pub fn base10_parse<N>(&self) -> (r: SynResult<N>) ensures match int_value::<N>(*self) { Some(n) => r is Ok && r->Ok_0 == n, None => r is Err } { unimplemented!() } }
pub trait VFlatten<T> { spec fn flat_o(self) -> Option<T>; fn v_flatten(self) -> (r: Option<T>); }
impl<T> VFlatten<T> for Option<Option<T>> { open spec fn flat_o(self) -> Option<T> { match self { Some(x) => x, None => None } }
    fn v_flatten(self) -> (r: Option<T>) ensures r == self.flat_o() { match self { Some(x) => x, None => None } } }
// ---- C19: the options
/// `@name` before a `,` or `;`, or `@name = literal`
pub open spec fn sp_opt(s: Seq<TokenTree>) -> Option<(Seq<char>, Option<Lit>, Seq<TokenTree>)> {
    if !tok_head(s, "@"@) { None } else {
        match sp_take::<Ident>(s.skip(1)) {
            None => None,
            Some((n, t)) => if tok_head(t, ","@) || tok_head(t, ";"@) { Some((ident_str(n), None, t)) } else if !tok_head(t, "="@) { None } else {
                match sp_take::<Lit>(t.skip(1)) { None => None, Some((l, u)) => Some((ident_str(n), Some(l), u)) }
            }
        }
    }
}
pub axiom fn take_opt(s: Seq<TokenTree>)
    ensures match sp_take::<Opt>(s) { Some((o, t)) => sp_opt(s) == Some((o.name@, o.val, t)), None => sp_opt(s) is None };
/// reading something leaves a suffix
pub axiom fn take_shrinks<T>(s: Seq<TokenTree>) ensures match sp_take::<T>(s) { Some((x, t)) => t.len() <= s.len(), None => true };
pub proof fn opt_shrinks(s: Seq<TokenTree>) ensures match sp_opt(s) { Some((n, l, t)) => t.len() < s.len(), None => true } {
    reveal_strlit("@"); reveal_strlit("=");
    if let Some((n, t)) = sp_take::<Ident>(s.skip(1)) { take_shrinks::<Ident>(s.skip(1)); take_shrinks::<Lit>(t.skip(1)); }
}
pub struct OptV { pub lines: Option<usize>, pub trunc: Option<Option<usize>>, pub num: bool, pub pad: Option<(bool, bool)> }
pub open spec fn opts0() -> OptV { OptV { lines: None, trunc: None, num: false, pad: None } }
/// the effect of one option: exactly its own parameter; None is an error
pub open spec fn opt_effect(v: OptV, name: Seq<char>, val: Option<Lit>) -> Option<OptV> {
    if name == "excerpt_line"@ { match val { Some(Lit::Int(n)) => match int_value::<usize>(n) { Some(n) => Some(OptV { lines: Some(n), ..v }), None => None }, _ => None } }
    else if name == "truncate_str"@ { match val { None => Some(OptV { trunc: Some(None), ..v }), Some(Lit::Int(n)) => match int_value::<usize>(n) { Some(n) => Some(OptV { trunc: Some(Some(n)), ..v }), None => None }, _ => None } }
    else if name == "show_line_num"@ { Some(OptV { num: true, ..v }) }
    else if name == "padding"@ {
        match val {
            None => Some(OptV { pad: Some((true, true)), ..v }),
            Some(Lit::Str(s)) => if lit_str_value(s) == "top"@ { Some(OptV { pad: Some((true, false)), ..v }) } else if lit_str_value(s) == "bottom"@ { Some(OptV { pad: Some((false, true)), ..v }) }
                else if lit_str_value(s) == "both"@ { Some(OptV { pad: Some((true, true)), ..v }) } else { None },
            _ => None,
        }
    } else { None }
}
pub open spec fn after_comma(t: Seq<TokenTree>) -> Seq<TokenTree> { if tok_head(t, ","@) { t.skip(1) } else { t } }
/// all the options before the expression, from left to right
pub open spec fn sp_opts(s: Seq<TokenTree>, v: OptV) -> Option<(OptV, Seq<TokenTree>)> decreases s.len() {
    if s.len() == 0 { Some((v, s)) } else if tok_head(s, ";"@) { Some((v, s.skip(1))) } else {
        match sp_opt(s) {
            None => Some((v, s)),
            Some((n, l, t)) => match opt_effect(v, n, l) { None => None, Some(w) => if after_comma(t).len() < s.len() { sp_opts(after_comma(t), w) } else { None } },
        }
    }
}
pub open spec fn pad_view(p: Option<Padding>) -> Option<(bool, bool)> { match p { None => None, Some(Padding::Top) => Some((true, false)), Some(Padding::Bottom) => Some((false, true)), Some(Padding::Both) => Some((true, true)) } }
pub open spec fn opts_view(n: Option<usize>, t: Option<Option<usize>>, l: Option<()>, p: Option<Padding>) -> OptV { OptV { lines: n, trunc: t, num: l is Some, pad: pad_view(p) } }
/// options, expression, what is left
pub open spec fn sp_args(s: Seq<TokenTree>) -> Option<(OptV, Expr, Seq<TokenTree>)> {
    match sp_opts(s, opts0()) { None => None, Some((v, t)) => match sp_take::<Expr>(t) { None => None, Some((e, u)) => Some((v, e, u)) } }
}
pub open spec fn args_view(a: ExcerptMacroArgs) -> (OptV, Expr) { (opts_view(a.max_excerpted_line_num, a.truncate_lit_str_max_len, a.show_line_num, a.padding), a.expr) }
/// parse2 runs ExcerptMacroArgs::parse and wants nothing left
pub open spec fn args_of(t: TokenStream) -> Option<(OptV, Expr)> { match sp_args(ts_seq(t)) { Some((v, e, u)) => if u.len() == 0 { Some((v, e)) } else { None }, None => None } }
pub broadcast axiom fn parse2_args(t: TokenStream)
    ensures match #[trigger] sp_parse::<ExcerptMacroArgs>(t) { Some(a) => args_of(t) == Some(args_view(a)), None => args_of(t) is None };
//@broadcast parse2_args
pub open spec fn pad_at(p: Option<(bool, bool)>) -> (bool, bool) { match p { Some(x) => x, None => (false, false) } }
/// the settings the options ask for
pub open spec fn pretty_settings(v: OptV) -> PrettyStrSettings { PrettyStrSettings { show_line_num: v.num, top_padding: pad_at(v.pad).0, bottom_padding: pad_at(v.pad).1 } }
pub open spec fn excerpt_settings(v: OptV) -> ExcerptSetting {
    ExcerptSetting { max_excerpted_line_num: match v.lines { Some(n) => n, None => 5 },
        truncate_lit_str_setting: TruncateLitStrSetting::Truncate(match v.trunc { Some(x) => x, None => None }),
        pretty_str_settings: PrettyStrSettings { show_line_num: true, top_padding: pad_at(v.pad).0, bottom_padding: true } }
}
pub open spec fn one_line_setting(v: OptV) -> TruncateLitStrSetting { match v.trunc { Some(x) => TruncateLitStrSetting::Truncate(x), None => TruncateLitStrSetting::NoTruncation } }
pub open spec fn is_lit(r: SynResult<TokenStream>, t: Seq<char>) -> bool { r is Ok && exists|s: String| s@ == t && r->Ok_0 == #[trigger] tokens_of(s) }
//@fn utils/source_excerpt.rs ExcerptSetting::default@Default owners=C19
    ensures r == excerpt_settings(opts0())
//@end
//@fn utils/source_excerpt_macros.rs parse>Opt::parse@Parse owners=C19 name=opt_parse
    ensures match sp_opt(rest_of(*old(input))) { None => r is Err, Some((n, l, t)) => r is Ok && r->Ok_0.name@ == n && r->Ok_0.val == l && rest_of(*final(input)) == t }
//@prologue
    proof { reveal_strlit("@"); reveal_strlit(","); reveal_strlit(";"); reveal_strlit("="); }
//@end
//@fn utils/source_excerpt_macros.rs ExcerptMacroArgs::parse@Parse owners=C19 name=args_parse attr=allow_complex_invariants
    ensures match sp_args(rest_of(*old(input))) { None => r is Err, Some((v, e, t)) => r is Ok && args_view(r->Ok_0) == (v, e) && rest_of(*final(input)) == t }
//@prologue
    proof { reveal_strlit(";"); reveal_strlit(","); }
//@loop 0
    invariant_except_break
        sp_opts(rest_of(*old(input)), opts0()) == sp_opts(rest_of(*input), opts_view(max_excerpted_line_num, truncate_lit_str_max_len, show_line_num, padding)),
    ensures
        sp_opts(rest_of(*old(input)), opts0()) == Some((opts_view(max_excerpted_line_num, truncate_lit_str_max_len, show_line_num, padding), rest_of(*input))),
    decreases rest_of(*input).len()
top:
    proof { take_opt(rest_of(*input)); opt_shrinks(rest_of(*input)); }
//@end
//@fn utils/source_excerpt_macros.rs truncate_lit_str owners=C19
    ensures match args_of(ts) { None => r is Err, Some((v, e)) => r is Ok && r->Ok_0 == tokens_of(with_short_lits(e, limits_of(match v.trunc { Some(x) => x, None => None }))) }
//@end
//@fn utils/source_excerpt_macros.rs pretty_stringify owners=C19
    ensures match args_of(ts) { None => r is Err, Some((v, e)) => is_lit(r, pretty_text(e, pretty_settings(v))) }
//@end
//@fn utils/source_excerpt_macros.rs one_line_stringify owners=C19
    ensures match args_of(ts) { None => r is Err, Some((v, e)) => is_lit(r, one_line_text(e, one_line_setting(v))) }
//@end
//@fn utils/source_excerpt_macros.rs excerpted_pretty_stringify owners=C19
    ensures match args_of(ts) { None => r is Err, Some((v, e)) => match excerpt_text(e, excerpt_settings(v)) { None => r is Err, Some(t) => is_lit(r, t) } }
//@end
// ---- the entry points: what the macro crate exports
/// the tokens of compile_error!
pub uninterp spec fn is_compile_error(t: TokenStream) -> bool;
#[verifier::external_body] pub fn v_compile_error(e: SynError) -> (r: TokenStream) ensures is_compile_error(r) { unimplemented!() }
//@path syn::Error::into_compile_error v_compile_error
pub open spec fn lit_or_error(r: TokenStream, t: Option<Seq<char>>) -> bool { match t { None => is_compile_error(r), Some(t) => is_lit(Ok(r), t) } }
//@path impls::utils::source_excerpt_macros::truncate_lit_str truncate_lit_str
//@fn hooq-macros/src/lib.rs truncate_lit_str owners=C19 name=entry_truncate_lit_str
    ensures match args_of(item) { None => is_compile_error(r), Some((v, e)) => r == tokens_of(with_short_lits(e, limits_of(match v.trunc { Some(x) => x, None => None }))) }
//@end
//@path impls::utils::source_excerpt_macros::pretty_stringify pretty_stringify
//@fn hooq-macros/src/lib.rs pretty_stringify owners=C19 name=entry_pretty_stringify
    ensures match args_of(item) { None => is_compile_error(r), Some((v, e)) => is_lit(Ok(r), pretty_text(e, pretty_settings(v))) }
//@end
//@path impls::utils::source_excerpt_macros::one_line_stringify one_line_stringify
//@fn hooq-macros/src/lib.rs one_line_stringify owners=C19 name=entry_one_line_stringify
    ensures match args_of(item) { None => is_compile_error(r), Some((v, e)) => is_lit(Ok(r), one_line_text(e, one_line_setting(v))) }
//@end
//@path impls::utils::source_excerpt_macros::excerpted_pretty_stringify excerpted_pretty_stringify
//@fn hooq-macros/src/lib.rs excerpted_pretty_stringify owners=C19 name=entry_excerpted_pretty_stringify
    ensures match args_of(item) { None => is_compile_error(r), Some((v, e)) => lit_or_error(r, excerpt_text(e, excerpt_settings(v))) }
//@end
