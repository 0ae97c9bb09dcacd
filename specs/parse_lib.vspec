// ---- a parse buffer is the sequence of the tokens that are left (groups without delimiters are not seen through)
//@method peek v_peek
pub struct TokKind<'a>(pub &'a str);
#[verifier::external_body]
pub struct ParseBuffer { v: u64 }
pub uninterp spec fn rest_of(p: ParseBuffer) -> Seq<TokenTree>;
/// what reading a T at the head of some tokens gives, and what it leaves
pub uninterp spec fn sp_take<T>(s: Seq<TokenTree>) -> Option<(T, Seq<TokenTree>)>;
/// reading Ts separated by a token up to the end
pub uninterp spec fn sp_take_list<T>(s: Seq<TokenTree>, sep: Seq<char>) -> Option<Seq<T>>;
pub broadcast axiom fn take_ts(s: Seq<TokenTree>) ensures #[trigger] sp_take::<TokenStream>(s) == Some((ts_of(s), Seq::<TokenTree>::empty()));
/// a one-character token is seen at the head
pub open spec fn tok_head(s: Seq<TokenTree>, k: Seq<char>) -> bool { s.len() > 0 && k.len() == 1 && (s[0] matches TokenTree::Punct(p) && punct_char(p) == k[0]) }
impl ParseBuffer {
    #[verifier::external_body]
    pub fn v_parse<T>(&mut self) -> (r: SynResult<T>)
        ensures match sp_take::<T>(rest_of(*old(self))) { Some((x, t)) => r is Ok && r->Ok_0 == x && rest_of(*final(self)) == t, None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_parse_tok(&mut self, k: TokKind) -> (r: SynResult<Tok>)
        requires k.0@.len() == 1
        ensures
            r is Ok <==> tok_head(rest_of(*old(self)), k.0@),
            r is Ok ==> tokens_of(r->Ok_0) == one(rest_of(*old(self))[0]) && rest_of(*final(self)) == rest_of(*old(self)).skip(1),
            r is Err ==> rest_of(*final(self)) == rest_of(*old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_peek(&self, k: TokKind) -> (r: bool) requires k.0@.len() == 1 ensures r == tok_head(rest_of(*self), k.0@) { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) { unimplemented!() }
    #[verifier::external_body]
    pub fn fork(&self) -> (r: ParseBuffer) ensures rest_of(r) == rest_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn advance_to(&mut self, o: &ParseBuffer) ensures rest_of(*final(self)) == rest_of(*o) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_parse_terminated<T>(&mut self, k: TokKind) -> (r: SynResult<Punctuated<T>>)
        ensures match sp_take_list::<T>(rest_of(*old(self)), k.0@) {
            Some(s) => r is Ok && r->Ok_0.items@ == s && rest_of(*final(self)).len() == 0, None => r is Err }
    { unimplemented!() }
}
impl VIsEmpty for ParseBuffer { open spec fn empty_spec(&self) -> bool { rest_of(*self).len() == 0 } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
