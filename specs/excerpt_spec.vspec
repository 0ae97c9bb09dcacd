// ---------------------------------------------------------------------------------------------
// Printing and shortening source text (C14 C15 C16)
// ---------------------------------------------------------------------------------------------
//@ty utils/source_excerpt.rs TruncateLitStrSetting PrettyStrSettings ExcerptSetting
//@include pm.vspec
global size_of usize == 8;
// ---- text
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn sp_split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else { let p = sp_split(s.drop_last(), c); if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) } }
}
pub open spec fn sp_join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { sp_join(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn sp_repeat(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { sp_repeat(s, (n - 1) as nat) + s } }
pub open spec fn count_of(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() == 0 { 0 } else { count_of(s.drop_last(), c) + (if s.last() == c { 1nat } else { 0 }) } }
pub open spec fn strip_cr(l: Seq<char>) -> Seq<char> { if l.len() > 0 && l.last() == '\r' { l.drop_last() } else { l } }
/// str::lines
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> {
    let p = sp_split(s, '\n');
    (if p.last().len() == 0 { p.drop_last() } else { p }).map_values(|l: Seq<char>| strip_cr(l))
}
pub uninterp spec fn sp_trim(s: Seq<char>) -> Seq<char>;
pub open spec fn pad_left(s: Seq<char>, w: int) -> Seq<char> { if s.len() < w { sp_repeat(" "@, (w - s.len()) as nat) + s } else { s } }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
pub trait VText {
    spec fn tx(&self) -> Seq<char>;
    fn v_split(&self, c: char) -> (r: Vec<&'static str>) ensures views(r@) == sp_split(self.tx(), c), r@.len() == sp_split(self.tx(), c).len();
    fn v_lines(&self) -> (r: Vec<&'static str>) ensures views(r@) == lines_of(self.tx()), r@.len() == lines_of(self.tx()).len(), r@.len() <= 0x7fff_ffff_ffff_ffff;
    fn v_chars(&self) -> (r: Vec<char>) ensures r@ == self.tx();
    fn v_trim(&self) -> (r: &'static str) ensures r@ == sp_trim(self.tx());
    fn v_repeat(&self, n: usize) -> (r: String) ensures r@ == sp_repeat(self.tx(), n as nat);
    fn v_matches(&self, c: char) -> (r: VMatches) ensures r.n == count_of(self.tx(), c), r.n <= 0x7fff_ffff_ffff_ffff;
}
pub struct VMatches { pub n: usize }
impl VMatches { pub fn count(self) -> (r: usize) ensures r == self.n { self.n } }
impl VText for str {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_split(&self, c: char) -> (r: Vec<&'static str>) { unimplemented!() }
    #[verifier::external_body] fn v_lines(&self) -> (r: Vec<&'static str>) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &'static str) { unimplemented!() }
    #[verifier::external_body] fn v_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_matches(&self, c: char) -> (r: VMatches) { unimplemented!() }
}
impl VText for String {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_split(&self, c: char) -> (r: Vec<&'static str>) { unimplemented!() }
    #[verifier::external_body] fn v_lines(&self) -> (r: Vec<&'static str>) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &'static str) { unimplemented!() }
    #[verifier::external_body] fn v_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_matches(&self, c: char) -> (r: VMatches) { unimplemented!() }
}
pub trait VPush { fn v_push_str(&mut self, s: &str); }
impl VPush for String { #[verifier::external_body] fn v_push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() } }
pub trait VJoin { spec fn joined(&self, sep: Seq<char>) -> Seq<char>; fn v_join(&self, sep: &str) -> (r: String) ensures r@ == self.joined(sep@); }
impl VJoin for Vec<String> { open spec fn joined(&self, sep: Seq<char>) -> Seq<char> { sp_join(strs(self@), sep) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl<'a> VJoin for Vec<&'a str> { open spec fn joined(&self, sep: Seq<char>) -> Seq<char> { sp_join(views(self@), sep) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub trait VSeqStages<T> : Sized {
    spec fn sq(&self) -> Seq<T>;
    fn v_count(self) -> (r: usize) ensures r == self.sq().len();
    fn v_take(self, n: usize) -> (r: Vec<T>) ensures r@ == self.sq().take(imin(n as int, self.sq().len() as int));
    fn v_skip(self, n: usize) -> (r: Vec<T>) ensures r@ == self.sq().skip(imin(n as int, self.sq().len() as int));
    fn v_rev(self) -> (r: Vec<T>) ensures r@ == self.sq().reverse();
    fn v_it_last(self) -> (r: Option<T>) ensures match r { Some(x) => self.sq().len() > 0 && x == self.sq().last(), None => self.sq().len() == 0 };
}
impl<T> VSeqStages<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_count(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_take(self, n: usize) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn v_skip(self, n: usize) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn v_rev(self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn v_it_last(self) -> (r: Option<T>) { unimplemented!() }
}
pub trait VPopFront<T> : Sized { spec fn pf(&self) -> Seq<T>; fn v_next(&mut self) -> (r: Option<T>)
    ensures match r { Some(x) => old(self).pf().len() > 0 && x == old(self).pf()[0] && final(self).pf() == old(self).pf().skip(1), None => old(self).pf().len() == 0 && final(self).pf() == old(self).pf() }; }
impl<T> VPopFront<T> for Vec<T> { open spec fn pf(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_next(&mut self) -> (r: Option<T>) { unimplemented!() } }
impl VCollect<String> for Vec<char> { open spec fn collected(&self, c: String) -> bool { c@ == self@ } #[verifier::external_body] fn v_collect(self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn v_pad_left(s: &String, w: usize) -> (r: String) ensures r@ == pad_left(s@, w as int) { unimplemented!() }
impl VToString for char { open spec fn str_spec(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
pub trait VNum : Sized { spec fn nm(self) -> int; fn v_max(self, o: Self) -> (r: Self) ensures r.nm() == imax(self.nm(), o.nm()); fn v_sat_sub(self, o: Self) -> (r: Self) ensures r.nm() == imax(0, self.nm() - o.nm()); }
impl VNum for usize { open spec fn nm(self) -> int { self as int } #[verifier::external_body] fn v_max(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn v_sat_sub(self, o: Self) -> (r: Self) { unimplemented!() } }
//@method saturating_sub v_sat_sub
//@path String::new str_empty
pub open spec fn opt_text(o: Option<String>) -> Seq<char> { match o { Some(s) => s@, None => Seq::empty() } }
pub trait VAsDeref { fn v_as_deref(&self) -> (r: Option<&str>); }
impl VAsDeref for Option<String> { #[verifier::external_body] fn v_as_deref(&self) -> (r: Option<&str>) ensures r is Some == self is Some, r is Some ==> r->0@ == self->0@ { unimplemented!() } }
// ---- C14: shortening
/// (limit, characters kept at the start, characters kept at the end)
pub open spec fn limits_of(n: Option<usize>) -> (int, int, int) {
    match n { None => (10, 4, 4), Some(n) => if n < 2 { (n as int, 0, 0) } else { (n as int, (n - 2) / 2, (n - 2 + 1) / 2) } }
}
pub open spec fn trunc_line(l: Seq<char>, m: (int, int, int)) -> Seq<char> {
    if l.len() > m.0 { l.take(imin(m.1, l.len() as int)) + ".."@ + l.skip(imax(0, l.len() - m.2)) } else { l }
}
pub open spec fn trunc_lines(v: Seq<Seq<char>>, m: (int, int, int)) -> Seq<Seq<char>> { v.map_values(|l: Seq<char>| trunc_line(l, m)) }
pub open spec fn trunc_text(s: Seq<char>, m: (int, int, int)) -> Seq<char> { sp_join(trunc_lines(sp_split(s, '\n'), m), "\n"@) }
#[verifier::external_body]
pub struct LitStr { v: u64 }
pub uninterp spec fn lit_str_value(l: LitStr) -> Seq<char>;
pub uninterp spec fn lit_span(l: LitStr) -> Span;
impl LitStr {
    #[verifier::external_body]
    pub fn value(&self) -> (r: String) ensures r@ == lit_str_value(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == lit_span(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: &str, sp: Span) -> (r: LitStr) ensures lit_str_value(r) == s@, lit_span(r) == sp { unimplemented!() }
}
/// the expression with the value of every string literal in it replaced by its shortened text (syn::fold::Fold visits every one)
pub uninterp spec fn with_short_lits(e: Expr, m: (int, int, int)) -> Expr;
pub open spec fn shortened(e: Expr, t: TruncateLitStrSetting) -> Expr {
    match t { TruncateLitStrSetting::NoTruncation => e, TruncateLitStrSetting::Truncate(n) => with_short_lits(e, limits_of(n)) }
}
/// C14: what shortening a line does
pub proof fn c14_line(l: Seq<char>, n: usize)
    ensures l.len() <= n ==> trunc_line(l, limits_of(Some(n))) == l,
        l.len() > n ==> ({ let t = trunc_line(l, limits_of(Some(n))); let a = if n < 2 { 0int } else { (n - 2) / 2 }; let b = if n < 2 { 0int } else { n - 2 - (n - 2) / 2 };
            t.len() == imax(n as int, 2) && t =~= l.take(a) + ".."@ + l.skip(l.len() - b) }),
        l.len() <= 10 ==> trunc_line(l, limits_of(None)) == l,
        l.len() > 10 ==> trunc_line(l, limits_of(None)) =~= l.take(4) + ".."@ + l.skip(l.len() - 4)
{ reveal_strlit(".."); assert(".."@.len() == 2); }
pub proof fn split_nonempty(s: Seq<char>, c: char) ensures sp_split(s, c).len() > 0 decreases s.len() { if s.len() > 0 { split_nonempty(s.drop_last(), c); } }
pub proof fn join_push(v: Seq<Seq<char>>, sep: Seq<char>, x: Seq<char>)
    requires v.len() > 0
    ensures sp_join(v.push(x), sep) == sp_join(v, sep) + sep + x
{ assert(v.push(x).drop_last() =~= v); }
/// C14: a text none of whose lines is too long stays as it is
pub proof fn c14_identity(s: Seq<char>, m: (int, int, int))
    requires forall|i: int| 0 <= i < sp_split(s, '\n').len() ==> (#[trigger] sp_split(s, '\n')[i]).len() <= m.0
    ensures trunc_text(s, m) == s
{
    assert(trunc_lines(sp_split(s, '\n'), m) =~= sp_split(s, '\n'));
    join_split(s);
}
pub proof fn join_split(s: Seq<char>) ensures sp_join(sp_split(s, '\n'), "\n"@) == s decreases s.len() {
    reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
    if s.len() > 0 {
        let p = sp_split(s.drop_last(), '\n');
        join_split(s.drop_last()); split_nonempty(s.drop_last(), '\n');
        if s.last() == '\n' { join_push(p, "\n"@, Seq::empty()); assert(sp_join(p, "\n"@) + "\n"@ + Seq::<char>::empty() =~= s); }
        else {
            let q = p.drop_last().push(p.last().push(s.last()));
            if p.len() > 1 { join_push(p.drop_last(), "\n"@, p.last()); join_push(p.drop_last(), "\n"@, p.last().push(s.last())); assert(p.drop_last().push(p.last()) =~= p); }
            else { assert(q =~= seq![p.last().push(s.last())]); assert(p =~= seq![p.last()]); }
            assert(sp_join(q, "\n"@) =~= sp_join(p, "\n"@).push(s.last()));
            assert(s.drop_last().push(s.last()) =~= s);
        }
    }
}
pub proof fn count_cat(a: Seq<char>, b: Seq<char>, c: char) ensures count_of(a + b, c) == count_of(a, c) + count_of(b, c) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { count_cat(a, b.drop_last(), c); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn count_sub(s: Seq<char>, i: int, j: int, c: char) requires 0 <= i <= j <= s.len() ensures count_of(s.subrange(i, j), c) <= count_of(s, c) {
    count_cat(s.subrange(0, i), s.subrange(i, j), c); count_cat(s.subrange(0, j), s.subrange(j, s.len() as int), c);
    assert(s.subrange(0, i) + s.subrange(i, j) =~= s.subrange(0, j)); assert(s.subrange(0, j) + s.subrange(j, s.len() as int) =~= s);
}
/// splitting leaves no separator in the pieces and loses none
pub proof fn split_counts(s: Seq<char>, c: char)
    ensures sp_split(s, c).len() == count_of(s, c) + 1, forall|i: int| 0 <= i < sp_split(s, c).len() ==> count_of(#[trigger] sp_split(s, c)[i], c) == 0
    decreases s.len()
{
    if s.len() > 0 {
        split_counts(s.drop_last(), c);
        let p = sp_split(s.drop_last(), c);
        if s.last() != c { assert(p.last().push(s.last()).drop_last() =~= p.last()); assert(count_of(p[p.len() - 1], c) == 0); }
    }
}
pub proof fn join_counts(v: Seq<Seq<char>>, sep: Seq<char>, c: char)
    requires v.len() > 0, forall|i: int| 0 <= i < v.len() ==> count_of(#[trigger] v[i], c) == 0, count_of(sep, c) == 1
    ensures count_of(sp_join(v, sep), c) == v.len() - 1
    decreases v.len()
{
    if v.len() == 1 { assert(count_of(v[0], c) == 0); } else {
        join_counts(v.drop_last(), sep, c);
        count_cat(sp_join(v.drop_last(), sep) + sep, v.last(), c); count_cat(sp_join(v.drop_last(), sep), sep, c);
        assert(count_of(v[v.len() - 1], c) == 0);
    }
}
/// C14: line breaks are kept whatever the limit
pub proof fn c14_breaks(s: Seq<char>, n: Option<usize>) ensures count_of(trunc_text(s, limits_of(n)), '\n') == count_of(s, '\n') {
    reveal_strlit("\n"); reveal_strlit(".."); assert("\n"@ =~= seq!['\n']); assert(".."@ =~= seq!['.', '.']);
    let m = limits_of(n); let p = sp_split(s, '\n'); let t = trunc_lines(p, m);
    split_counts(s, '\n');
    assert(seq!['\n'].drop_last() =~= Seq::<char>::empty()); assert(count_of("\n"@, '\n') == 1) by { assert(count_of(Seq::<char>::empty(), '\n') == 0); }
    assert(count_of(".."@, '\n') == 0) by { assert(seq!['.', '.'].drop_last() =~= seq!['.']); assert(seq!['.'].drop_last() =~= Seq::<char>::empty()); assert(count_of(seq!['.'], '\n') == 0); }
    assert forall|i: int| 0 <= i < t.len() implies count_of(#[trigger] t[i], '\n') == 0 by {
        let l = p[i]; assert(count_of(l, '\n') == 0);
        if l.len() > m.0 {
            let a = imin(m.1, l.len() as int); let b = imax(0, l.len() - m.2);
            count_sub(l, 0, a, '\n'); count_sub(l, b, l.len() as int, '\n');
            assert(l.take(a) =~= l.subrange(0, a)); assert(l.skip(b) =~= l.subrange(b, l.len() as int));
            count_cat(l.take(a) + ".."@, l.skip(b), '\n'); count_cat(l.take(a), ".."@, '\n');
        }
    }
    join_counts(t, "\n"@, '\n');
}
// ---- C16: printing tokens where they stand
pub struct Cell { pub text: Seq<char>, pub line: int, pub col: int, pub end: int }
pub open spec fn delim_open(d: Delimiter) -> Seq<char> { match d { Delimiter::Parenthesis => "("@, Delimiter::Brace => "{"@, Delimiter::Bracket => "["@, Delimiter::None => ""@ } }
pub open spec fn delim_close(d: Delimiter) -> Seq<char> { match d { Delimiter::Parenthesis => ")"@, Delimiter::Brace => "}"@, Delimiter::Bracket => "]"@, Delimiter::None => ""@ } }
pub uninterp spec fn tt_text(t: TokenTree) -> Seq<char>;
pub uninterp spec fn tt_span(t: TokenTree) -> Span;
pub uninterp spec fn pm_end_col(s: PmSpan) -> usize;
pub uninterp spec fn pm_end_line(s: PmSpan) -> usize;
pub uninterp spec fn group_span_open(g: Group) -> Span;
pub uninterp spec fn group_span_close(g: Group) -> Span;
impl VToString for TokenTree { open spec fn str_spec(&self) -> Seq<char> { tt_text(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl TokenTree { #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == tt_span(*self) { unimplemented!() } }
impl Group {
    #[verifier::external_body] pub fn span_open(&self) -> (r: Span) ensures r == group_span_open(*self) { unimplemented!() }
    #[verifier::external_body] pub fn span_close(&self) -> (r: Span) ensures r == group_span_close(*self) { unimplemented!() }
}
/// a position: the start or the end of a span of the compiler
#[verifier::external_body]
pub struct PmPos { v: u64 }
pub uninterp spec fn pos_line(p: PmPos) -> usize;
pub uninterp spec fn pos_col(p: PmPos) -> usize;
impl PmPos {
    #[verifier::external_body] pub fn line(&self) -> (r: usize) ensures r == pos_line(*self), r <= 0xffff_ffff { unimplemented!() }
    #[verifier::external_body] pub fn column(&self) -> (r: usize) ensures r == pos_col(*self), r <= 0xffff_ffff { unimplemented!() }
}
impl PmSpan {
    #[verifier::external_body] pub fn start(&self) -> (r: PmPos) ensures pos_line(r) == pm_line(*self), pos_col(r) == pm_column(*self) { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: PmPos) ensures pos_line(r) == pm_end_line(*self), pos_col(r) == pm_end_col(*self) { unimplemented!() }
}
pub struct LineColumn { pub line: usize, pub column: usize }
pub uninterp spec fn span_line(s: Span) -> int;
impl Span { #[verifier::external_body] pub fn start(&self) -> (r: LineColumn) ensures r.line == span_line(*self), r.line <= 0xffff_ffff { unimplemented!() } }
pub open spec fn token_cell(t: TokenTree) -> Cell { let s = pm_span(tt_span(t)); Cell { text: tt_text(t), line: pm_line(s) as int, col: pm_column(s) as int, end: pm_end_col(s) as int } }
pub open spec fn open_cell(g: Group) -> Cell { let s = pm_span(group_span_open(g)); Cell { text: delim_open(group_delim(g)), line: pm_line(s) as int, col: pm_column(s) as int, end: pm_column(s) + 1 } }
pub open spec fn close_cell(g: Group) -> Cell { let s = pm_span(group_span_close(g)); Cell { text: delim_close(group_delim(g)), line: pm_end_line(s) as int, col: imax(0, pm_end_col(s) - 1), end: pm_end_col(s) as int } }
/// every token of a stream in order, a group being its two delimiters around its contents
pub open spec fn flat(s: Seq<TokenTree>) -> Seq<Cell> decreases tts_size(s) via flat_dec {
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + (match s.last() { TokenTree::Group(g) => seq![open_cell(g)] + flat(ts_seq(group_stream(g))) + seq![close_cell(g)], t => seq![token_cell(t)] }) }
}
#[via_fn]
proof fn flat_dec(s: Seq<TokenTree>) { tts_size_ax(s); }
pub struct Out { pub out: Seq<char>, pub line: Option<int>, pub col: Option<int>, pub top: bool }
/// the white space before a token: as many line breaks as the source has, and its column
pub open spec fn gap(o: Out, c: Cell) -> Seq<char> {
    (if o.top { "    "@ } else { Seq::empty() })
    + (if o.line is Some && c.line > o.line->0 { sp_repeat("\n"@, (c.line - o.line->0) as nat) + sp_repeat(" "@, imax(0, c.col - 1) as nat) }
       else if o.col is Some && c.col > o.col->0 { sp_repeat(" "@, (c.col - o.col->0) as nat) } else { Seq::empty() })
}
pub open spec fn put(o: Out, c: Cell) -> Out { Out { out: o.out + gap(o, c) + c.text, line: Some(c.line + count_of(c.text, '\n')), col: Some(c.end), top: false } }
pub open spec fn put_all(v: Seq<Cell>, o: Out) -> Out decreases v.len() { if v.len() == 0 { o } else { put(put_all(v.drop_last(), o), v.last()) } }
pub proof fn put_cat(a: Seq<Cell>, b: Seq<Cell>, o: Out) ensures put_all(a + b, o) == put_all(b, put_all(a, o)) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { put_cat(a, b.drop_last(), o); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
/// what is already written does not influence what follows
pub proof fn put_shift(v: Seq<Cell>, o: Out, p: Seq<char>)
    ensures put_all(v, Out { out: p, ..o }).out =~= p + put_all(v, Out { out: Seq::empty(), ..o }).out,
        put_all(v, Out { out: p, ..o }).line == put_all(v, Out { out: Seq::empty(), ..o }).line, put_all(v, Out { out: p, ..o }).col == put_all(v, Out { out: Seq::empty(), ..o }).col,
        put_all(v, Out { out: p, ..o }).top == put_all(v, Out { out: Seq::empty(), ..o }).top,
    decreases v.len()
{
    if v.len() > 0 { put_shift(v.drop_last(), o, p); }
}
pub open spec fn lc(x: Option<usize>) -> Option<int> { match x { Some(n) => Some(n as int), None => None } }
pub open spec fn out0() -> Out { Out { out: Seq::empty(), line: None, col: None, top: true } }
/// the text of an expression
pub open spec fn printed(e: Expr) -> Seq<char> { put_all(flat(ts_seq(tokens_of(e))), out0()).out }
pub proof fn repeat_counts(s: Seq<char>, n: nat, c: char) ensures count_of(sp_repeat(s, n), c) == n * count_of(s, c) decreases n {
    if n > 0 { repeat_counts(s, (n - 1) as nat, c); count_cat(sp_repeat(s, (n - 1) as nat), s, c); assert(n * count_of(s, c) == (n - 1) * count_of(s, c) + count_of(s, c)) by(nonlinear_arith) requires n > 0; }
    else { assert(0 * count_of(s, c) == 0); }
}
pub proof fn one_char(c: char, d: char) ensures count_of(seq![c], d) == (if c == d { 1nat } else { 0nat }) { assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(count_of(Seq::<char>::empty(), d) == 0); }
/// tokens stand in reading order
pub open spec fn ordered(v: Seq<Cell>) -> bool { forall|i: int| #![trigger v[i]] 0 < i < v.len() ==> v[i].line >= v[i - 1].line + count_of(v[i - 1].text, '\n') }
/// C16: the end of what is printed so far is on the output line that corresponds to the source line of the last token's end
pub proof fn c16_lines(v: Seq<Cell>)
    requires v.len() > 0, ordered(v)
    ensures count_of(put_all(v, out0()).out, '\n') == v.last().line + count_of(v.last().text, '\n') - v[0].line, put_all(v, out0()).line == Some(v.last().line + count_of(v.last().text, '\n'))
    decreases v.len()
{
    let w = v.drop_last(); let o = put_all(w, out0()); let c = v.last(); let g = gap(o, c);
    reveal_strlit("\n"); reveal_strlit(" "); reveal_strlit("    ");
    assert("\n"@ =~= seq!['\n']); assert(" "@ =~= seq![' ']); one_char('\n', '\n'); one_char(' ', '\n');
    assert("    "@ =~= sp_repeat(" "@, 4)) by { reveal_with_fuel(sp_repeat, 5); }
    repeat_counts(" "@, 4, '\n');
    count_cat(o.out + g, c.text, '\n'); count_cat(o.out, g, '\n');
    let a = if o.top { "    "@ } else { Seq::<char>::empty() };
    assert(count_of(Seq::<char>::empty(), '\n') == 0); assert(count_of(a, '\n') == 0);
    let b = if o.line is Some && c.line > o.line->0 { sp_repeat("\n"@, (c.line - o.line->0) as nat) + sp_repeat(" "@, imax(0, c.col - 1) as nat) } else if o.col is Some && c.col > o.col->0 { sp_repeat(" "@, (c.col - o.col->0) as nat) } else { Seq::empty() };
    count_cat(a, b, '\n');
    if o.line is Some && c.line > o.line->0 {
        repeat_counts("\n"@, (c.line - o.line->0) as nat, '\n'); repeat_counts(" "@, imax(0, c.col - 1) as nat, '\n');
        count_cat(sp_repeat("\n"@, (c.line - o.line->0) as nat), sp_repeat(" "@, imax(0, c.col - 1) as nat), '\n');
    } else if o.col is Some && c.col > o.col->0 { repeat_counts(" "@, (c.col - o.col->0) as nat, '\n'); }
    if w.len() > 0 {
        assert(ordered(w)) by { assert forall|i: int| #![trigger w[i]] 0 < i < w.len() implies w[i].line >= w[i - 1].line + count_of(w[i - 1].text, '\n') by { assert(w[i] == v[i] && w[i - 1] == v[i - 1]); } }
        c16_lines(w);
        assert(v[v.len() - 1] == c && v[v.len() - 2] == w.last());
    }
}
pub open spec fn only_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == ' ' || s[i] == '\n' }
pub open spec fn weave(g: Seq<Seq<char>>, v: Seq<Cell>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { weave(g.drop_last(), v.drop_last()) + g.last() + v.last().text } }
pub proof fn repeat_ws(s: Seq<char>, n: nat) requires only_ws(s) ensures only_ws(sp_repeat(s, n)) decreases n { if n > 0 { repeat_ws(s, (n - 1) as nat); } }
/// C16: the text is every token once, in order, and white space
pub proof fn c16_tokens(v: Seq<Cell>) -> (g: Seq<Seq<char>>)
    ensures g.len() == v.len(), forall|i: int| 0 <= i < g.len() ==> only_ws(#[trigger] g[i]), put_all(v, out0()).out == weave(g, v)
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else {
        let h = c16_tokens(v.drop_last()); let o = put_all(v.drop_last(), out0()); let c = v.last(); let x = gap(o, c);
        reveal_strlit("\n"); reveal_strlit(" "); reveal_strlit("    ");
        assert("\n"@ =~= seq!['\n']); assert(" "@ =~= seq![' ']); assert("    "@ =~= seq![' ', ' ', ' ', ' ']);
        repeat_ws("\n"@, imax(0, if o.line is Some { c.line - o.line->0 } else { 0 }) as nat); repeat_ws(" "@, imax(0, c.col - 1) as nat); repeat_ws(" "@, imax(0, if o.col is Some { c.col - o.col->0 } else { 0 }) as nat);
        assert(only_ws(x));
        let g = h.push(x);
        assert(g.drop_last() =~= h);
        assert forall|i: int| 0 <= i < g.len() implies only_ws(#[trigger] g[i]) by { if i < h.len() { assert(g[i] == h[i]); } }
        g
    }
}
// ---- line numbers
pub open spec fn num_width(start: int, lines: int) -> int { imax(nat_str((start + imax(0, lines - 1)) as nat).len() as int, 4) }
pub open spec fn numbered_line(start: int, w: int, i: int, l: Seq<char>) -> Seq<char> { pad_left(nat_str((start + i) as nat), w) + seq![if i == 0 { '>' } else { '|' }] + l }
pub open spec fn numbered(v: Seq<Seq<char>>, start: int) -> Seq<Seq<char>> { let w = num_width(start, v.len() as int); Seq::new(v.len(), |i: int| numbered_line(start, w, i, v[i])) }
pub proof fn nat_str_mono(a: nat, b: nat) requires a <= b ensures nat_str(a).len() <= nat_str(b).len() decreases b {
    reveal(nat_str);
    if a >= 10 { assert(a / 10 <= b / 10); nat_str_mono(a / 10, b / 10); }
}
/// C16: every line number is written in full, right-aligned to the common width
pub proof fn c16_width(v: Seq<Seq<char>>, start: int, i: int)
    requires 0 <= start, 0 <= i < v.len()
    ensures ({ let w = num_width(start, v.len() as int); let n = nat_str((start + i) as nat);
        w >= 4 && n.len() <= w && numbered(v, start)[i] =~= sp_repeat(" "@, (w - n.len()) as nat) + n + seq![if i == 0 { '>' } else { '|' }] + v[i] })
{ nat_str_mono((start + i) as nat, (start + v.len() - 1) as nat); }
pub open spec fn pretty_body(e: Expr, s: PrettyStrSettings) -> Seq<char> {
    if s.show_line_num { sp_join(numbered(lines_of(printed(e)), span_line(span_of(e))), "\n"@) } else { printed(e) }
}
pub open spec fn pads(e: Expr, s: PrettyStrSettings) -> (Seq<char>, Seq<char>) {
    let bar = sp_repeat(" "@, num_width(span_line(span_of(e)), lines_of(printed(e)).len() as int) as nat);
    (if !s.top_padding { Seq::empty() } else if s.show_line_num { bar + "|\n"@ } else { "\n"@ },
     if !s.bottom_padding { Seq::empty() } else if s.show_line_num { "\n"@ + bar + "|"@ } else { "\n"@ })
}
// ---- C15: excerpts
pub open spec fn excerpt_lines(v: Seq<Seq<char>>, n: int) -> Seq<Seq<char>> {
    if v.len() <= imax(n, 2) { v } else { seq![v[0], "..."@] + v.skip(v.len() - (n - 1)) }
}
/// the excerpt of a text; a text of at most two lines is taken as it is
pub open spec fn excerpt(t: Seq<char>, n: int) -> Seq<char> {
    let v = lines_of(t);
    if n == 1 { if v.len() == 0 { Seq::empty() } else { v.last() } } else if v.len() <= 2 { t } else { sp_join(excerpt_lines(v, n), "\n"@) }
}
/// C15: the counts
pub proof fn c15_counts(v: Seq<Seq<char>>, n: int)
    requires n >= 2
    ensures v.len() <= imax(n, 2) ==> excerpt_lines(v, n) == v,
        v.len() > imax(n, 2) ==> ({ let x = excerpt_lines(v, n); x.len() == n + 1 && x[0] == v[0] && x[1] == "..."@ && forall|i: int| 2 <= i < x.len() ==> x[i] == v[v.len() - x.len() + i] })
{}
// ---- what the helpers return
pub open spec fn one_line_text(e: Expr, t: TruncateLitStrSetting) -> Seq<char> { sp_join(lines_of(printed(shortened(e, t))).map_values(|l: Seq<char>| sp_trim(l)), " "@) }
pub open spec fn pretty_text(e: Expr, s: PrettyStrSettings) -> Seq<char> { pads(e, s).0 + pretty_body(e, s) + pads(e, s).1 }
pub open spec fn excerpt_text(e: Expr, s: ExcerptSetting) -> Option<Seq<char>> {
    if s.max_excerpted_line_num == 0 { None } else {
        let e = shortened(e, s.truncate_lit_str_setting); let p = pads(e, s.pretty_str_settings);
        Some(p.0 + excerpt(pretty_body(e, s.pretty_str_settings), s.max_excerpted_line_num as int) + p.1)
    }
}
