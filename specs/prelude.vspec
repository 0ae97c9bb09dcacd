//@broadcast tokens_of_ts string_of_view string_of_inv vec_of_view vec_of_inv map_of_view map_of_inv map_entries_map ts_cat_empty ts_cat_empty2 ts_cat_assoc
// ---------------------------------------------------------------------------------------------
// Library layer shared by every pack: types that stay opaque and the contracts assumed of std, syn,
// proc_macro2 and quote. Everything here is trusted and is counted in the evidence.
// ---------------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct SynError { v: u64 }
pub type SynResult<T> = Result<T, SynError>;
/// the value carried by an `Err` (messages and spans of errors are not part of any property)
#[verifier::external_body]
pub fn v_err<E>() -> (r: E) { unimplemented!() }
#[verifier::external_body]
pub struct Tok { v: u64 }

// ---- strings: String is its sequence of characters
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn string_of_view(s: Seq<char>) ensures (#[trigger] string_of(s))@ == s;
pub broadcast axiom fn string_of_inv(s: String) ensures string_of(#[trigger] s@) == s;
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }

// ---- vectors: Vec is its sequence of elements
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn vec_of_view<T>(s: Seq<T>) ensures s.len() <= usize::MAX ==> (#[trigger] vec_of(s))@ == s;
pub broadcast axiom fn vec_of_inv<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v;
#[verifier::external_body]
pub fn v_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn v_append<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }

// ---- Punctuated
pub struct Punctuated<T> { pub items: Vec<T>, pub seps: u64 }
pub trait VItems<T> : Sized {
    spec fn seq_of(&self) -> Seq<T>;
    spec fn with_seq(&self, s: Seq<T>) -> Self;
    fn v_items(&self) -> (r: &Vec<T>) ensures r@ == self.seq_of();
    fn v_items_mut(&mut self) -> (r: &mut Vec<T>)
        ensures r@ == old(self).seq_of(), *final(self) == old(self).with_seq(final(r)@);
    fn v_into_items(self) -> (r: Vec<T>) ensures r@ == self.seq_of();
}
impl<T> VItems<T> for Vec<T> {
    open spec fn seq_of(&self) -> Seq<T> { self@ }
    open spec fn with_seq(&self, s: Seq<T>) -> Self { vec_of(s) }
    fn v_items(&self) -> (r: &Vec<T>) { self }
    fn v_items_mut(&mut self) -> (r: &mut Vec<T>) { broadcast use vec_of_inv; self }
    fn v_into_items(self) -> (r: Vec<T>) { self }
}
impl<T> VItems<T> for Punctuated<T> {
    open spec fn seq_of(&self) -> Seq<T> { self.items@ }
    open spec fn with_seq(&self, s: Seq<T>) -> Self { Punctuated { items: vec_of(s), seps: self.seps } }
    fn v_items(&self) -> (r: &Vec<T>) { &self.items }
    fn v_items_mut(&mut self) -> (r: &mut Vec<T>) { broadcast use vec_of_inv; &mut self.items }
    fn v_into_items(self) -> (r: Vec<T>) { self.items }
}

// ---- hash maps
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
pub uninterp spec fn map_view<K, V>(m: HashMap<K, V>) -> Map<K, V>;
pub uninterp spec fn map_of<K, V>(m: Map<K, V>) -> HashMap<K, V>;
pub uninterp spec fn map_entries<K, V>(m: HashMap<K, V>) -> Seq<(K, V)>;
pub open spec fn pairs_map<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { pairs_map(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub broadcast axiom fn map_of_view<K, V>(m: Map<K, V>) ensures map_view(#[trigger] map_of(m)) == m;
pub broadcast axiom fn map_of_inv<K, V>(m: HashMap<K, V>) ensures map_of(#[trigger] map_view(m)) == m;
pub broadcast axiom fn map_entries_map<K, V>(m: HashMap<K, V>) ensures pairs_map(#[trigger] map_entries(m)) == map_view(m);
pub broadcast axiom fn map_entries_nodup<K, V>(m: HashMap<K, V>)
    ensures forall|i: int, j: int| 0 <= i < j < (#[trigger] map_entries(m)).len() ==> map_entries(m)[i].0 != map_entries(m)[j].0;
pub broadcast proof fn map_entries_dom<K, V>(m: HashMap<K, V>)
    ensures (#[trigger] map_entries(m)).len() == 0 <==> map_view(m) =~= Map::<K, V>::empty()
{
    map_entries_map(m);
    let s = map_entries(m);
    if s.len() > 0 { assert(map_view(m).dom().contains(s.last().0)); }
}
impl<K, V> HashMap<K, V> {
    pub open spec fn view(&self) -> Map<K, V> { map_view(*self) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_entry_or(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { d }), final(self)@ == old(self)@.insert(k, *final(r))
    { unimplemented!() }
}
impl<K, V> VItems<(K, V)> for HashMap<K, V> {
    open spec fn seq_of(&self) -> Seq<(K, V)> { map_entries(*self) }
    uninterp spec fn with_seq(&self, s: Seq<(K, V)>) -> Self;
    #[verifier::external_body]
    fn v_items(&self) -> (r: &Vec<(K, V)>) { unimplemented!() }
    #[verifier::external_body]
    fn v_items_mut(&mut self) -> (r: &mut Vec<(K, V)>) { unimplemented!() }
    #[verifier::external_body]
    fn v_into_items(self) -> (r: Vec<(K, V)>) { unimplemented!() }
}
pub trait VIsEmpty { spec fn empty_spec(&self) -> bool; fn v_is_empty(&self) -> (r: bool) ensures r == self.empty_spec(); }
impl<K, V> VIsEmpty for HashMap<K, V> { open spec fn empty_spec(&self) -> bool { self@ == Map::<K, V>::empty() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VIsEmpty for Vec<T> { open spec fn empty_spec(&self) -> bool { self@.len() == 0 } fn v_is_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T> VIsEmpty for Punctuated<T> { open spec fn empty_spec(&self) -> bool { self.items@.len() == 0 } fn v_is_empty(&self) -> (r: bool) { self.items.len() == 0 } }
impl VIsEmpty for String { open spec fn empty_spec(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl VIsEmpty for str { open spec fn empty_spec(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() } }
pub trait VCollect<C> : Sized {
    spec fn collected(&self, c: C) -> bool;
    fn v_collect(self) -> (r: C) ensures self.collected(r);
}
impl<K, V> VCollect<HashMap<K, V>> for Vec<(K, V)> {
    open spec fn collected(&self, c: HashMap<K, V>) -> bool { c@ == pairs_map(self@) }
    #[verifier::external_body]
    fn v_collect(self) -> (r: HashMap<K, V>) { unimplemented!() }
}
pub open spec fn ts_flat(s: Seq<TokenStream>) -> TokenStream decreases s.len() { if s.len() == 0 { ts_empty_spec() } else { ts_cat_spec(ts_flat(s.drop_last()), s.last()) } }
impl VCollect<TokenStream> for Vec<TokenStream> {
    open spec fn collected(&self, c: TokenStream) -> bool { c == ts_flat(self@) }
    #[verifier::external_body]
    fn v_collect(self) -> (r: TokenStream) { unimplemented!() }
}
impl<T> VCollect<Vec<T>> for Vec<T> {
    open spec fn collected(&self, c: Vec<T>) -> bool { c == *self }
    fn v_collect(self) -> (r: Vec<T>) { self }
}
/// collecting (k, f(v)) pairs gives the map with f applied to every value
pub proof fn pairs_map_values<K, V, W>(s: Seq<(K, V)>, t: Seq<(K, W)>, f: spec_fn(V) -> W)
    requires t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> t[i].0 == s[i].0 && t[i].1 == f(s[i].1),
    ensures pairs_map(t) =~= pairs_map(s).map_values(f)
    decreases s.len()
{
    if s.len() > 0 {
        pairs_map_values(s.drop_last(), t.drop_last(), f);
        assert(t.drop_last().push(t.last()) =~= t);
    }
}

pub trait VExtend<A> : Sized { spec fn extended(&self, a: A, r: Self) -> bool; fn v_extend(&mut self, a: A) ensures old(self).extended(a, *final(self)); }
impl<T> VExtend<Vec<T>> for Vec<T> {
    open spec fn extended(&self, a: Vec<T>, r: Self) -> bool { r@ == self@ + a@ }
    #[verifier::external_body]
    fn v_extend(&mut self, a: Vec<T>) { unimplemented!() }
}
impl<T> VExtend<Punctuated<T>> for Vec<T> {
    open spec fn extended(&self, a: Punctuated<T>, r: Self) -> bool { r@ == self@ + a.items@ }
    #[verifier::external_body]
    fn v_extend(&mut self, a: Punctuated<T>) { unimplemented!() }
}
impl<K, V> VExtend<HashMap<K, V>> for HashMap<K, V> {
    open spec fn extended(&self, a: HashMap<K, V>, r: Self) -> bool { r == map_of(self@.union_prefer_right(a@)) }
    #[verifier::external_body]
    fn v_extend(&mut self, a: HashMap<K, V>) { unimplemented!() }
}
impl<K, V> VExtend<Vec<(K, V)>> for HashMap<K, V> {
    open spec fn extended(&self, a: Vec<(K, V)>, r: Self) -> bool { r == map_of(self@.union_prefer_right(pairs_map(a@))) }
    #[verifier::external_body]
    fn v_extend(&mut self, a: Vec<(K, V)>) { unimplemented!() }
}
pub trait VOptUnwrap<T> : Sized { spec fn opt(self) -> Option<T>; fn v_unwrap(self) -> (r: T) requires self.opt() is Some ensures Some(r) == self.opt(); }
impl<T> VOptUnwrap<T> for Option<T> { open spec fn opt(self) -> Option<T> { self } fn v_unwrap(self) -> (r: T) { match self { Some(x) => x, None => unreached() } } }
pub trait VVec<T> : Sized {
    spec fn vv(&self) -> Seq<T>;
    fn v_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vv().len() > 0 && *x == self.vv().last(), None => self.vv().len() == 0 };
    fn v_pop(&mut self) -> (r: Option<T>) ensures match r { Some(x) => old(self).vv().len() > 0 && x == old(self).vv().last() && final(self).vv() == old(self).vv().drop_last(), None => old(self).vv().len() == 0 && final(self).vv() == old(self).vv() };
}
impl<T> VVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_last(&self) -> (r: Option<&T>) { self.last() }
    #[verifier::external_body]
    fn v_pop(&mut self) -> (r: Option<T>) { self.pop() }
}
pub trait VConcat<T> : Sized { spec fn concat_spec(&self) -> Seq<T>; fn v_concat(self) -> (r: Vec<T>) ensures r@ == self.concat_spec(); }
impl<T> VConcat<T> for [Vec<T>; 2] {
    open spec fn concat_spec(&self) -> Seq<T> { self@[0]@ + self@[1]@ }
    #[verifier::external_body]
    fn v_concat(self) -> (r: Vec<T>) { unimplemented!() }
}
// ---- iterators held in a variable
pub struct VIter<'a, T> { pub v: &'a Vec<T>, pub i: usize }
impl<'a, T> VIter<'a, T> {
    pub open spec fn rest(&self) -> Seq<T> { if self.i <= self.v@.len() { self.v@.skip(self.i as int) } else { Seq::empty() } }
    pub fn v_next(&mut self) -> (r: Option<&'a T>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() =~= old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && *r->0 == old(self).rest()[0] && final(self).rest() =~= old(self).rest().skip(1)
    {
        let v = self.v; let i = self.i;
        if i < v.len() { self.i = i + 1; Some(&v[i]) } else { None }
    }
}
impl<'a, T> VItems<&'a T> for VIter<'a, T> {
    open spec fn seq_of(&self) -> Seq<&'a T> { self.rest().map_values(|x: T| &x) }
    uninterp spec fn with_seq(&self, s: Seq<&'a T>) -> Self;
    #[verifier::external_body]
    fn v_items(&self) -> (r: &Vec<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_items_mut(&mut self) -> (r: &mut Vec<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_into_items(self) -> (r: Vec<&'a T>) { unimplemented!() }
}
pub trait VIterable<T> { spec fn iter_seq(&self) -> Seq<T>; fn v_iter(&self) -> (r: VIter<'_, T>) ensures r.rest() =~= self.iter_seq(); }
impl<T> VIterable<T> for Vec<T> { open spec fn iter_seq(&self) -> Seq<T> { self@ } fn v_iter(&self) -> (r: VIter<'_, T>) { VIter { v: self, i: 0 } } }
impl<T> VIterable<T> for Punctuated<T> { open spec fn iter_seq(&self) -> Seq<T> { self.items@ } fn v_iter(&self) -> (r: VIter<'_, T>) { VIter { v: &self.items, i: 0 } } }
/// the items whose flag is set
pub open spec fn flagged<T>(s: Seq<T>, f: Seq<bool>) -> Seq<T> decreases f.len() {
    if f.len() == 0 { Seq::empty() } else if f.last() { flagged(s, f.drop_last()).push(s[f.len() - 1]) } else { flagged(s, f.drop_last()) }
}
pub trait VRetain<T> : Sized {
    spec fn rseq(&self) -> Seq<T>;
    fn v_retain_by(&mut self, f: &mut VIter<bool>)
        requires old(f).rest().len() >= old(self).rseq().len()
        ensures final(self).rseq() == flagged(old(self).rseq(), old(f).rest().take(old(self).rseq().len() as int));
}
impl<T> VRetain<T> for Vec<T> {
    open spec fn rseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_retain_by(&mut self, f: &mut VIter<bool>) { unimplemented!() }
}
// ---- conversions that may fail
pub trait VTryInto<T> : Sized { type Er; spec fn try_is(self, r: Option<T>) -> bool; fn v_try_into(self) -> (r: Result<T, Self::Er>)
    ensures self.try_is(match r { Ok(x) => Some(x), Err(_) => None }); }
pub trait VResult<T, E> : Sized {
    spec fn ok_spec(self) -> Option<T>;
    fn v_map_err(self) -> (r: Result<T, SynError>) ensures r is Ok ==> self.ok_spec() == Some(r->Ok_0), r is Err ==> self.ok_spec() is None;
    fn v_map_err_string(self) -> (r: Result<T, String>) ensures r is Ok ==> self.ok_spec() == Some(r->Ok_0), r is Err ==> self.ok_spec() is None;
    fn v_unwrap(self) -> (r: T) requires self.ok_spec() is Some ensures self.ok_spec() == Some(r);
    fn v_ok(self) -> (r: Option<T>) ensures r == self.ok_spec();
}
impl<T, E> VResult<T, E> for Result<T, E> {
    open spec fn ok_spec(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn v_map_err(self) -> (r: Result<T, SynError>) { match self { Ok(x) => Ok(x), Err(_) => Err(v_err()) } }
    fn v_map_err_string(self) -> (r: Result<T, String>) { match self { Ok(x) => Ok(x), Err(_) => Err(v_err()) } }
    fn v_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => unreached() } }
    fn v_ok(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => None } }
}
pub trait VOption<T> : Sized {
    spec fn some_spec(self) -> Option<T>;
    fn v_ok_or<E>(self) -> (r: Result<T, E>) ensures r is Ok ==> self.some_spec() == Some(r->Ok_0), r is Err ==> self.some_spec() is None;
}
impl<T> VOption<T> for Option<T> {
    open spec fn some_spec(self) -> Option<T> { self }
    fn v_ok_or<E>(self) -> (r: Result<T, E>) { match self { Some(x) => Ok(x), None => Err(v_err()) } }
}
// ---- parsing
/// what parsing the whole of a token stream / of a text as a T gives
pub uninterp spec fn sp_parse<T>(t: TokenStream) -> Option<T>;
pub uninterp spec fn sp_parse_str<T>(t: Seq<char>) -> Option<T>;
#[verifier::external_body]
pub fn v_parse2<T>(t: TokenStream) -> (r: SynResult<T>) ensures r is Ok ==> sp_parse::<T>(t) == Some(r->Ok_0), r is Err ==> sp_parse::<T>(t) is None { unimplemented!() }
#[verifier::external_body]
pub fn v_parse_str<T>(t: &str) -> (r: SynResult<T>) ensures r is Ok ==> sp_parse_str::<T>(t@) == Some(r->Ok_0), r is Err ==> sp_parse_str::<T>(t@) is None { unimplemented!() }
// ---- cloning and conversions
pub trait VClone : Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for Rc<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> VClone for Box<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> VClone for Vec<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> VClone for Option<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl<K, V> VClone for HashMap<K, V> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> VClone for Punctuated<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for bool { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for usize { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VAsRef<T> { spec fn as_ref_spec(&self) -> &T; fn v_as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec(); }
impl<T> VAsRef<T> for Rc<T> { open spec fn as_ref_spec(&self) -> &T { &**self } fn v_as_ref(&self) -> (r: &T) { &**self } }
impl<T> VAsRef<T> for Box<T> { open spec fn as_ref_spec(&self) -> &T { &**self } fn v_as_ref(&self) -> (r: &T) { &**self } }
pub trait VAsRefOpt<T> { spec fn opt_spec(&self) -> Option<T>; fn v_as_ref(&self) -> (r: Option<&T>)
    ensures r is Some <==> self.opt_spec() is Some, r is Some ==> *r->0 == self.opt_spec()->0; }
impl<T> VAsRefOpt<T> for Option<T> {
    open spec fn opt_spec(&self) -> Option<T> { *self }
    fn v_as_ref(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } }
}
pub trait VToString { spec fn str_spec(&self) -> Seq<char>; fn v_to_string(&self) -> (r: String) ensures r@ == self.str_spec(); }
impl VToString for str { open spec fn str_spec(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { self.to_string() } }
impl VToString for String { open spec fn str_spec(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { self.clone() } }
pub trait VAsStr { fn as_str_(&self) -> &str; }
pub trait VSlice<T> { fn v_as_slice(&self) -> (r: &Vec<T>); }
impl<T> VSlice<T> for Vec<T> { fn v_as_slice(&self) -> (r: &Vec<T>) ensures r == self { self } }

// ---- shared cells: contents live in the world that is threaded through the functions that touch them
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VRefCell<T> { v: std::marker::PhantomData<T> }
pub uninterp spec fn cell_id<T>(c: VRefCell<T>) -> int;
#[verifier::external_body]
pub struct World { v: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Span { v: u64 }
#[verifier::external_body]
pub struct TokenStream { v: u64 }
#[verifier::external_body]
pub struct Ident { v: u64 }
pub uninterp spec fn ident_str(i: Ident) -> Seq<char>;
impl VToString for Ident { open spec fn str_spec(&self) -> Seq<char> { ident_str(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
pub trait VEq<B> { spec fn eq_spec_(&self, b: &B) -> bool; fn v_eq(&self, b: &B) -> (r: bool) ensures r == self.eq_spec_(b); }
impl<'a> VEq<&'a str> for Ident { open spec fn eq_spec_(&self, b: &&'a str) -> bool { ident_str(*self) == b@ } #[verifier::external_body] fn v_eq(&self, b: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a> VEq<&'a str> for String { open spec fn eq_spec_(&self, b: &&'a str) -> bool { self@ == b@ } #[verifier::external_body] fn v_eq(&self, b: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a, 'b> VEq<&'a str> for &'b str { open spec fn eq_spec_(&self, b: &&'a str) -> bool { self@ == b@ } #[verifier::external_body] fn v_eq(&self, b: &&'a str) -> (r: bool) { unimplemented!() } }
pub trait VSeqOps<T> { fn v_next_back(&self) -> (r: Option<&T>); }
impl<T> VSeqOps<T> for Vec<T> {
    #[verifier::external_body]
    fn v_next_back(&self) -> (r: Option<&T>)
        ensures r is Some <==> self@.len() > 0, r is Some ==> *r->0 == self@.last()
    { unimplemented!() }
}
// ---- token streams
pub uninterp spec fn tokens_of<T>(t: T) -> TokenStream;
pub uninterp spec fn ts_string(t: TokenStream) -> Seq<char>;
pub trait ToTokenStream : Sized { fn to_token_stream(&self) -> (r: TokenStream) ensures r == tokens_of(*self); fn into_token_stream(self) -> (r: TokenStream) ensures r == tokens_of(self) { self.to_token_stream() } }
//@foreachtypes Tok Span TokenStream Ident String SynError
//@foreach
impl VClone for $T { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl ToTokenStream for $T { #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() } }
impl VTokens for $T { #[verifier::external_body] fn v_tokens(&self) -> (r: TokenStream) { unimplemented!() } }
impl VSpan for $T { #[verifier::external_body] fn span(&self) -> (r: Span) { unimplemented!() } }
//@end
pub uninterp spec fn span_of<T>(t: T) -> Span;
pub trait VSpan : Sized { fn span(&self) -> (r: Span) ensures r == span_of(*self); }
pub trait VInto<T> : Sized { spec fn into_spec(self) -> T; fn v_into(self) -> (r: T) ensures r == self.into_spec(); }
impl VInto<TokenStream> for TokenStream { open spec fn into_spec(self) -> TokenStream { self } fn v_into(self) -> (r: TokenStream) { self } }
pub broadcast axiom fn tokens_of_ts(t: TokenStream) ensures #[trigger] tokens_of(t) == t;
impl VToString for TokenStream { open spec fn str_spec(&self) -> Seq<char> { ts_string(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
// ---- strings under construction
#[verifier::external_body]
pub fn str_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn str_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn str_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub struct Formatter { v: u64 }
pub uninterp spec fn fmt_out(f: Formatter) -> Seq<char>;
pub type FmtResult = Result<(), SynError>;
impl Formatter {
    #[verifier::external_body]
    pub fn v_write(&mut self, s: String) -> (r: FmtResult)
        ensures r is Ok ==> fmt_out(*final(self)) == fmt_out(*old(self)) + s@
    { unimplemented!() }
}
pub uninterp spec fn ts_lit_spec(s: Seq<char>) -> TokenStream;
pub uninterp spec fn ts_cat_spec(a: TokenStream, b: TokenStream) -> TokenStream;
pub uninterp spec fn ts_group_spec(d: Seq<char>, a: TokenStream) -> TokenStream;
pub uninterp spec fn ts_empty_spec() -> TokenStream;
pub broadcast axiom fn ts_cat_empty(a: TokenStream) ensures #[trigger] ts_cat_spec(ts_empty_spec(), a) == a;
pub broadcast axiom fn ts_cat_empty2(a: TokenStream) ensures #[trigger] ts_cat_spec(a, ts_empty_spec()) == a;
pub broadcast axiom fn ts_cat_assoc(a: TokenStream, b: TokenStream, c: TokenStream)
    ensures #[trigger] ts_cat_spec(ts_cat_spec(a, b), c) == ts_cat_spec(a, ts_cat_spec(b, c));
#[verifier::external_body]
pub fn ts_empty() -> (r: TokenStream) ensures r == ts_empty_spec() { unimplemented!() }
#[verifier::external_body]
pub fn ts_lit(s: &str) -> (r: TokenStream) ensures r == ts_lit_spec(s@) { unimplemented!() }
#[verifier::external_body]
pub fn ts_cat(a: TokenStream, b: TokenStream) -> (r: TokenStream) ensures r == ts_cat_spec(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn ts_group(d: &str, a: TokenStream) -> (r: TokenStream) ensures r == ts_group_spec(d@, a) { unimplemented!() }
pub trait VTokens : Sized { fn v_tokens(&self) -> (r: TokenStream) ensures r == tokens_of(*self); }
/// parse_quote!: the tokens are what the macro's author wrote, so parsing them cannot fail
pub uninterp spec fn parsed<T>(t: TokenStream) -> T;
impl TokenStream { #[verifier::external_body] pub fn v_parse_quote<T>(self) -> (r: T) ensures r == parsed::<T>(self) { unimplemented!() } }
