// ---------------------------------------------------------------------------------------------
// Token trees, and reading them with syn (trusted)
// ---------------------------------------------------------------------------------------------
//@broadcast parsed_ts ts_seq_cat ts_seq_empty ts_of_seq tokens_of_rc
#[verifier::external_body]
pub struct Group { v: u64 }
#[verifier::external_body]
pub struct Punct { v: u64 }
#[verifier::external_body]
pub struct Literal { v: u64 }
pub enum TokenTree { Group(Group), Ident(Ident), Punct(Punct), Literal(Literal) }
//@foreachtypes Group Punct Literal TokenTree
pub uninterp spec fn ts_seq(t: TokenStream) -> Seq<TokenTree>;
pub uninterp spec fn ts_of(s: Seq<TokenTree>) -> TokenStream;
pub broadcast axiom fn ts_seq_cat(a: TokenStream, b: TokenStream) ensures #[trigger] ts_seq(ts_cat_spec(a, b)) == ts_seq(a) + ts_seq(b);
pub broadcast axiom fn ts_seq_empty() ensures #[trigger] ts_seq(ts_empty_spec()) == Seq::<TokenTree>::empty();
pub broadcast axiom fn ts_of_seq(t: TokenStream) ensures ts_of(#[trigger] ts_seq(t)) == t;
pub broadcast axiom fn ts_seq_of(s: Seq<TokenTree>) ensures ts_seq(#[trigger] ts_of(s)) == s;
pub broadcast axiom fn parsed_ts(t: TokenStream) ensures #[trigger] parsed::<TokenStream>(t) == t;
pub broadcast axiom fn tokens_of_rc<T>(t: Rc<T>) ensures #[trigger] tokens_of(t) == tokens_of(*t);
pub uninterp spec fn punct_char(p: Punct) -> char;
pub uninterp spec fn group_stream(g: Group) -> TokenStream;
pub enum Delimiter { Parenthesis, Brace, Bracket, None }
pub uninterp spec fn group_delim(g: Group) -> Delimiter;
pub uninterp spec fn group_new(d: Delimiter, t: TokenStream) -> Group;
impl Punct { #[verifier::external_body] pub fn as_char(&self) -> (r: char) ensures r == punct_char(*self) { unimplemented!() } }
impl Group {
    #[verifier::external_body]
    pub fn stream(&self) -> (r: TokenStream) ensures r == group_stream(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn delimiter(&self) -> (r: Delimiter) ensures r == group_delim(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(d: Delimiter, t: TokenStream) -> (r: Group) ensures r == group_new(d, t) { unimplemented!() }
}
/// a token with another span (for a group, the whole group)
pub uninterp spec fn tt_at(t: TokenTree, s: Span) -> TokenTree;
impl TokenTree { #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures *final(self) == tt_at(*old(self), s) { unimplemented!() } }
pub open spec fn respan(t: TokenStream, s: Span) -> TokenStream { ts_of(ts_seq(t).map_values(|x: TokenTree| tt_at(x, s))) }
pub open spec fn one(t: TokenTree) -> TokenStream { ts_of(seq![t]) }
impl VItems<TokenTree> for TokenStream {
    open spec fn seq_of(&self) -> Seq<TokenTree> { ts_seq(*self) }
    open spec fn with_seq(&self, s: Seq<TokenTree>) -> Self { ts_of(s) }
    #[verifier::external_body]
    fn v_items(&self) -> (r: &Vec<TokenTree>) { unimplemented!() }
    #[verifier::external_body]
    fn v_items_mut(&mut self) -> (r: &mut Vec<TokenTree>) { unimplemented!() }
    #[verifier::external_body]
    fn v_into_items(self) -> (r: Vec<TokenTree>) { unimplemented!() }
}
impl VCollect<TokenStream> for Vec<TokenTree> {
    open spec fn collected(&self, c: TokenStream) -> bool { c == ts_of(self@) }
    #[verifier::external_body]
    fn v_collect(self) -> (r: TokenStream) { unimplemented!() }
}
impl VExtend<[TokenTree; 1]> for TokenStream {
    open spec fn extended(&self, a: [TokenTree; 1], r: Self) -> bool { r == ts_cat_spec(*self, one(a@[0])) }
    #[verifier::external_body]
    fn v_extend(&mut self, a: [TokenTree; 1]) { unimplemented!() }
}
impl VExtend<[TokenStream; 1]> for TokenStream {
    open spec fn extended(&self, a: [TokenStream; 1], r: Self) -> bool { r == ts_cat_spec(*self, a@[0]) }
    #[verifier::external_body]
    fn v_extend(&mut self, a: [TokenStream; 1]) { unimplemented!() }
}
impl VExtend<TokenStream> for TokenStream {
    open spec fn extended(&self, a: TokenStream, r: Self) -> bool { r == ts_cat_spec(*self, a) }
    #[verifier::external_body]
    fn v_extend(&mut self, a: TokenStream) { unimplemented!() }
}
impl TokenStream { #[verifier::external_body] pub fn new() -> (r: TokenStream) ensures r == ts_empty_spec() { unimplemented!() } }
pub open spec fn ts_join_spec(v: Seq<TokenStream>, sep: Seq<char>) -> TokenStream decreases v.len() {
    if v.len() == 0 { ts_empty_spec() } else if v.len() == 1 { v[0] } else { ts_cat_spec(ts_cat_spec(v[0], ts_lit_spec(sep)), ts_join_spec(v.skip(1), sep)) }
}
#[verifier::external_body]
pub fn ts_join(v: Vec<TokenStream>, sep: &str) -> (r: TokenStream) ensures r == ts_join_spec(v@, sep@) { unimplemented!() }
pub open spec fn toks<T>(s: Seq<T>) -> Seq<TokenStream> { s.map_values(|x: T| tokens_of(x)) }
/// `#(#x)*`
#[verifier::external_body]
pub fn ts_all<T: VTokens>(v: &Vec<T>) -> (r: TokenStream) ensures r == ts_flat(toks(v@)) { unimplemented!() }
