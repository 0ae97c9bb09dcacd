// spans of the original source
#[verifier::external_body]
pub struct PmSpan { v: u64 }
pub uninterp spec fn pm_span(s: Span) -> PmSpan;
pub uninterp spec fn pm_line(s: PmSpan) -> usize;
pub uninterp spec fn pm_column(s: PmSpan) -> usize;
pub uninterp spec fn pm_file(s: PmSpan) -> Seq<char>;
impl Span { #[verifier::external_body] pub fn v_unwrap(&self) -> (r: PmSpan) ensures r == pm_span(*self) { unimplemented!() } }
impl PmSpan {
    #[verifier::external_body]
    pub fn line(&self) -> (r: usize) ensures r == pm_line(*self), r <= 0xffff_ffff { unimplemented!() }
    #[verifier::external_body]
    pub fn column(&self) -> (r: usize) ensures r == pm_column(*self), r <= 0xffff_ffff { unimplemented!() }
    #[verifier::external_body]
    pub fn file(&self) -> (r: String) ensures r@ == pm_file(*self) { unimplemented!() }
}
impl VTokens for usize { #[verifier::external_body] fn v_tokens(&self) -> (r: TokenStream) { unimplemented!() } }
impl VTokens for bool { #[verifier::external_body] fn v_tokens(&self) -> (r: TokenStream) { unimplemented!() } }
#[verifier::opaque]
pub open spec fn nat_str(n: nat) -> Seq<char> decreases n {
    (if n < 10 { Seq::empty() } else { nat_str(n / 10) }).push(seq!['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'][(n % 10) as int])
}
impl VToString for usize { open spec fn str_spec(&self) -> Seq<char> { nat_str(*self as nat) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn tts_size(s: Seq<TokenTree>) -> nat;
pub axiom fn tts_size_ax(s: Seq<TokenTree>)
    ensures s.len() > 0 ==> tts_size(s.skip(1)) < tts_size(s),
        s.len() > 1 ==> tts_size(s.skip(2)) < tts_size(s),
        s.len() > 0 ==> (s[0] matches TokenTree::Group(g) ==> tts_size(ts_seq(group_stream(g))) < tts_size(s)),
        s.len() > 0 ==> tts_size(s.drop_last()) < tts_size(s),
        s.len() > 0 ==> (s.last() matches TokenTree::Group(g) ==> tts_size(ts_seq(group_stream(g))) < tts_size(s));
