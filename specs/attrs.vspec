//@assume flavor.vspec
//@synty Attribute ExprPath LitBool
//@ty inert_attr/parse.rs Strings
//@path HookTargetSwitch::try_from HookTargetSwitch::hts_from_names
//@path Vec::with_capacity v_with_capacity
// ---------------------------------------------------------------------------------------------
// The attributes of one construct (C06)
// ---------------------------------------------------------------------------------------------
/// the names of a path written without a leading `::` and without generic arguments
pub open spec fn path_plain(p: Path) -> Option<Seq<Seq<char>>> {
    if p.leading_colon is None && (forall|i: int| 0 <= i < p.segments.items@.len() ==> (#[trigger] p.segments.items@[i]).arguments is None) { Some(p.segments.items@.map_values(|s: PathSegment| ident_str(s.ident))) } else { None }
}
/// parse_quote! of such a path
pub axiom fn hooq_paths()
    ensures
        path_plain(parsed::<Path>($q{ hooq::flavor })) == Some(seq!["hooq"@, "flavor"@]),
        path_plain(parsed::<Path>($q{ hooq::method })) == Some(seq!["hooq"@, "method"@]),
        path_plain(parsed::<Path>($q{ hooq::hook_targets })) == Some(seq!["hooq"@, "hook_targets"@]),
        path_plain(parsed::<Path>($q{ hooq::tail_expr_idents })) == Some(seq!["hooq"@, "tail_expr_idents"@]),
        path_plain(parsed::<Path>($q{ hooq::ignore_tail_expr_idents })) == Some(seq!["hooq"@, "ignore_tail_expr_idents"@]),
        path_plain(parsed::<Path>($q{ hooq::result_types })) == Some(seq!["hooq"@, "result_types"@]),
        path_plain(parsed::<Path>($q{ hooq::hook_in_macros })) == Some(seq!["hooq"@, "hook_in_macros"@]),
        path_plain(parsed::<Path>($q{ hooq::bindings })) == Some(seq!["hooq"@, "bindings"@]),
        path_plain(parsed::<Path>($q{ hooq::binding })) == Some(seq!["hooq"@, "binding"@]),
        path_plain(parsed::<Path>($q{ hooq::var })) == Some(seq!["hooq"@, "var"@]),
        path_plain(parsed::<Path>($q{ hooq::skip })) == Some(seq!["hooq"@, "skip"@]),
        path_plain(parsed::<Path>($q{ hooq::skip_all })) == Some(seq!["hooq"@, "skip_all"@]),
;
/// syn's equality of paths, against a path written in the macro's own code
impl VEq<Path> for Path {
    uninterp spec fn eq_spec_(&self, b: &Path) -> bool;
    #[verifier::external_body] fn v_eq(&self, b: &Path) -> (r: bool) { unimplemented!() }
}
pub broadcast axiom fn path_eq(a: Path, b: Path) ensures path_plain(b) is Some ==> (#[trigger] a.eq_spec_(&b)) == (path_plain(a) == path_plain(b));
pub open spec fn named(p: Path, n: Seq<char>) -> bool { path_plain(p) == Some(seq!["hooq"@, n]) }
impl Path { #[verifier::external_body] pub fn v_get_ident(&self) -> (r: Option<&Ident>)
    ensures match r { Some(i) => path_plain(*self) is Some && self.segments.items@.len() == 1 && *i == self.segments.items@[0].ident, None => path_plain(*self) is None || self.segments.items@.len() != 1 } { unimplemented!() } }
pub open spec fn single(p: Path) -> Option<Seq<char>> { if path_plain(p) is Some && p.segments.items@.len() == 1 { Some(ident_str(p.segments.items@[0].ident)) } else { None } }
/// the x of hooq::x; Err: something longer; Ok(None): not hooq's
pub open spec fn hooq_name(p: Path) -> Result<Option<Seq<char>>, ()> {
    let s = p.segments.items@;
    if s.len() == 0 || ident_str(s[0].ident) != "hooq"@ { Ok(None) } else if s.len() > 2 { Err(()) } else if s.len() == 1 { Ok(None) } else { Ok(Some(ident_str(s[1].ident))) }
}
/// "..", ".."
pub open spec fn strings_of(s: Seq<TokenTree>) -> Option<Seq<String>> { match sp_take_list::<LitStr>(s, ","@) { None => None, Some(l) => Some(l.map_values(|x: LitStr| string_of(lit_str_value(x)))) } }
/// syn::parse2 runs the Parse implementation on the tokens
pub broadcast axiom fn parse2_strings(t: TokenStream) ensures match (#[trigger] sp_parse::<Strings>(t)) { Some(a) => strings_of(ts_seq(t)) == Some(a.0@), None => strings_of(ts_seq(t)) is None };
pub uninterp spec fn lit_bool(l: LitBool) -> bool;
impl LitBool { #[verifier::external_body] pub fn value(&self) -> (r: bool) ensures r == lit_bool(*self) { unimplemented!() } }
/// the flavor named by a value
pub open spec fn value_names(e: Expr) -> Option<Seq<String>> {
    match e { Expr::Path(p) => names_of_path(p.path), Expr::Lit(l) => match l.lit { Lit::Str(s) => names_of_text(lit_str_value(s)), _ => None }, _ => None }
}
pub open spec fn value_flavor(e: Expr) -> Option<Flavor> {
    match (value_names(e), project_flavors()) { (Some(n), Some(fl)) => fl_lookup(fl, n), _ => None }
}
pub struct IaV {
    pub method: Option<Method>, pub targets: Option<HookTargetSwitch>, pub tails: Option<Seq<String>>, pub ignores: Option<Seq<String>>, pub rtypes: Option<Seq<String>>,
    pub in_macros: Option<bool>, pub binds: Map<String, Expr>, pub skip: bool, pub skip_all: bool,
}
pub open spec fn ov(x: Option<Vec<String>>) -> Option<Seq<String>> { match x { Some(v) => Some(v@), None => None } }
impl InertAttribute {
    pub open spec fn view(&self) -> IaV { IaV { method: self.method, targets: self.hook_targets, tails: ov(self.tail_expr_idents), ignores: ov(self.ignore_tail_expr_idents), rtypes: ov(self.result_types),
        in_macros: self.hook_in_macros, binds: self.bindings@, skip: self.is_skipped, skip_all: self.is_skipped_all } }
}
pub open spec fn ia0() -> IaV { IaV { method: None, targets: None, tails: None, ignores: None, rtypes: None, in_macros: None, binds: Map::empty(), skip: false, skip_all: false } }
pub open spec fn plus(old: Option<Seq<String>>, x: Seq<String>) -> Seq<String> { match old { Some(v) => v + x, None => x } }
pub open spec fn with_binds(b: Map<String, Expr>, f: Flavor) -> Map<String, Expr> { b.union_prefer_right(f.bindings@.map_values(|e: Rc<Expr>| *e)) }
/// `#[hooq::n = v]`: the second component says whether the attribute stays
pub open spec fn sp_value(p: Path, e: Expr, v: IaV) -> Option<(IaV, bool)> {
    let f = value_flavor(e);
    if named(p, "flavor"@) { match f { None => None, Some(f) => Some((IaV { method: Some(f.method), targets: Some(f.hook_targets), tails: Some(f.tail_expr_idents@), ignores: Some(f.ignore_tail_expr_idents@), rtypes: Some(f.result_types@),
            in_macros: Some(f.hook_in_macros), binds: with_binds(v.binds, f), ..v }, false)) } }
    else if named(p, "method"@) { match f { None => None, Some(f) => Some((IaV { method: Some(f.method), ..v }, false)) } }
    else if named(p, "hook_targets"@) { match f { None => None, Some(f) => Some((IaV { targets: Some(f.hook_targets), ..v }, false)) } }
    else if named(p, "tail_expr_idents"@) { match f { None => None, Some(f) => Some((IaV { tails: Some(f.tail_expr_idents@), ignores: Some(f.ignore_tail_expr_idents@), ..v }, false)) } }
    else if named(p, "ignore_tail_expr_idents"@) { None }
    else if named(p, "result_types"@) { match f { None => None, Some(f) => Some((IaV { rtypes: Some(f.result_types@), ..v }, false)) } }
    else if named(p, "hook_in_macros"@) { match f { None => None, Some(f) => Some((IaV { in_macros: Some(f.hook_in_macros), ..v }, false)) } }
    else if named(p, "bindings"@) { match f { None => None, Some(f) => Some((IaV { binds: with_binds(v.binds, f), ..v }, false)) } }
    else { match hooq_name(p) { Err(_) => None, Ok(None) => Some((v, true)), Ok(Some(n)) => Some((IaV { binds: v.binds.insert(string_of(n), e), ..v }, false)) } }
}
/// `#[hooq::n(..)]`
pub open spec fn sp_list(p: Path, t: TokenStream, v: IaV) -> Option<(IaV, bool)> {
    let l = strings_of(ts_seq(t));
    if named(p, "method"@) { match method_spec(t) { None => None, Some(m) => Some((IaV { method: Some(m), ..v }, false)) } }
    else if named(p, "hook_targets"@) { match l { None => None, Some(l) => match targets_of(l) { None => None, Some(s) => Some((IaV { targets: Some(s), ..v }, false)) } } }
    else if named(p, "tail_expr_idents"@) { match l { None => None, Some(l) => Some((IaV { tails: Some(poss(l)), ignores: if v.ignores is None && negs(l).len() == 0 { None } else { Some(plus(v.ignores, negs(l))) }, ..v }, false)) } }
    else if named(p, "ignore_tail_expr_idents"@) { match l { None => None, Some(l) => Some((IaV { ignores: Some(plus(v.ignores, l)), ..v }, false)) } }
    else if named(p, "result_types"@) { match l { None => None, Some(l) => Some((IaV { rtypes: Some(l), ..v }, false)) } }
    else if named(p, "hook_in_macros"@) { match sp_parse::<LitBool>(t) { None => None, Some(b) => Some((IaV { in_macros: Some(lit_bool(b)), ..v }, false)) } }
    else if named(p, "binding"@) || named(p, "var"@) { match sp_parse::<MetaNameValue>(t) { None => None, Some(b) => match single(b.path) { None => None, Some(n) => Some((IaV { binds: v.binds.insert(string_of(n), b.value), ..v }, false)) } } }
    else { match hooq_name(p) { Ok(None) => Some((v, true)), _ => None } }
}
/// `#[hooq::n]`
pub open spec fn sp_word(p: Path, v: IaV) -> Option<(IaV, bool)> {
    if named(p, "skip"@) { Some((IaV { skip: true, ..v }, false)) }
    else if named(p, "skip_all"@) { Some((IaV { skip_all: true, ..v }, false)) }
    else { match hooq_name(p) { Ok(None) => Some((v, true)), _ => None } }
}
pub open spec fn sp_attr(a: Attribute, v: IaV) -> Option<(IaV, bool)> {
    match a.meta { Meta::NameValue(n) => sp_value(n.path, n.value, v), Meta::List(l) => sp_list(l.path, l.tokens, v), Meta::Path(p) => sp_word(p, v) }
}
/// the attributes of a construct from first to last: what they say, and which of them stay
pub open spec fn sp_attrs(s: Seq<Attribute>) -> Option<(IaV, Seq<bool>)> decreases s.len() {
    if s.len() == 0 { Some((ia0(), Seq::empty())) } else {
        match sp_attrs(s.drop_last()) { None => None, Some((v, k)) => match sp_attr(s.last(), v) { None => None, Some((w, b)) => Some((w, k.push(b))) } }
    }
}
pub proof fn attrs_none(l: Seq<Attribute>, n: int)
    requires 0 <= n <= l.len(), sp_attrs(l.take(n)) is None
    ensures sp_attrs(l) is None
    decreases l.len() - n
{
    if n < l.len() { assert(l.take(n + 1).drop_last() =~= l.take(n)); attrs_none(l, n + 1); } else { assert(l.take(n) =~= l); }
}
/// an attribute that stays says nothing, whatever was said before it
pub proof fn kept_says_nothing(a: Attribute, v: IaV, w: IaV)
    requires sp_attr(a, v) is Some, (sp_attr(a, v)->0).1
    ensures sp_attr(a, v) == Some((v, true)), sp_attr(a, w) == Some((w, true))
{
    match a.meta { Meta::NameValue(n) => { let h = hooq_name(n.path); }, Meta::List(l) => { let h = hooq_name(l.path); }, Meta::Path(p) => { let h = hooq_name(p); } }
}
pub open spec fn all_kept(n: nat) -> Seq<bool> { Seq::new(n, |i: int| true) }
pub proof fn flagged_all<T>(s: Seq<T>, n: nat) requires n <= s.len() ensures flagged(s, all_kept(n)) == s.take(n as int) decreases n {
    if n > 0 { flagged_all(s, (n - 1) as nat); assert(all_kept(n).drop_last() =~= all_kept((n - 1) as nat)); assert(s.take(n - 1).push(s[n - 1]) =~= s.take(n as int)); }
    else { assert(flagged(s, all_kept(0)) =~= s.take(0)); }
}
pub proof fn flagged_front<T>(s: Seq<T>, f: Seq<bool>) requires f.len() < s.len() ensures flagged(s.drop_last(), f) == flagged(s, f) decreases f.len() {
    if f.len() > 0 { flagged_front(s, f.drop_last()); }
}
pub proof fn kept_all(s: Seq<Attribute>) ensures flagged(s, all_kept(s.len())) == s { flagged_all(s, s.len()); assert(s.take(s.len() as int) =~= s); }
/// what remains of the attributes of a construct says nothing and remains when it is read again (walk_spec's ext_once)
pub proof fn read_again(s: Seq<Attribute>)
    requires sp_attrs(s) is Some
    ensures ({ let k = (sp_attrs(s)->0).1; let rest = flagged(s, k);
        k.len() == s.len() && sp_attrs(rest) == Some((ia0(), all_kept(rest.len()))) && flagged(rest, all_kept(rest.len())) == rest })
    decreases s.len()
{
    let (v, k) = sp_attrs(s)->0;
    let rest = flagged(s, k);
    if s.len() == 0 {
        assert(rest =~= Seq::<Attribute>::empty()); assert(all_kept(0) =~= Seq::<bool>::empty());
    } else {
        read_again(s.drop_last());
        let (v0, k0) = sp_attrs(s.drop_last())->0;
        let r0 = flagged(s.drop_last(), k0);
        assert(k.drop_last() =~= k0);
        flagged_front(s, k0);
        if k.last() {
            kept_says_nothing(s.last(), v0, ia0());
            assert(rest =~= r0.push(s.last()));
            assert(rest.drop_last() =~= r0);
            assert(all_kept(rest.len()) =~= all_kept(r0.len()).push(true));
        } else {
            assert(rest =~= r0);
        }
    }
    kept_all(rest);
}
pub open spec fn entries_over(b: Map<String, Expr>, s: Seq<(String, Rc<Expr>)>, n: int) -> Map<String, Expr> { b.union_prefer_right(pairs_map(s.take(n)).map_values(|e: Rc<Expr>| *e)) }
pub proof fn entries_over_0(b: Map<String, Expr>, s: Seq<(String, Rc<Expr>)>) ensures entries_over(b, s, 0) == b { assert(s.take(0) =~= Seq::empty()); assert(entries_over(b, s, 0) =~= b); }
pub proof fn entries_over_next(b: Map<String, Expr>, s: Seq<(String, Rc<Expr>)>, n: int) requires 0 <= n < s.len() ensures entries_over(b, s, n + 1) == entries_over(b, s, n).insert(s[n].0, *s[n].1) {
    assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(entries_over(b, s, n + 1) =~= entries_over(b, s, n).insert(s[n].0, *s[n].1));
}
pub open spec fn hooq_paths_ok(a: Path, b: Path, c: Path, d: Path, e: Path, f: Path, g: Path, h: Path, i: Path, j: Path, k: Path, l: Path) -> bool {
    named(a, "flavor"@) && named(b, "method"@) && named(c, "hook_targets"@) && named(d, "tail_expr_idents"@) && named(e, "ignore_tail_expr_idents"@) && named(f, "result_types"@)
        && named(g, "hook_in_macros"@) && named(h, "bindings"@) && named(i, "binding"@) && named(j, "var"@) && named(k, "skip"@) && named(l, "skip_all"@)
}
pub open spec fn ia_ok(s: Seq<Attribute>, v: IaV, after: Seq<Attribute>) -> bool { match sp_attrs(s) { None => false, Some((w, k)) => w == v && after == flagged(s, k) } }
#[verifier::external_body] pub fn v_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@.len() == 0 { unimplemented!() }
impl<'a> VTryInto<FlavorPath> for &'a Path { type Er = String; open spec fn try_is(self, r: Option<FlavorPath>) -> bool { fl_names(r) == names_of_path(*self) }
    fn v_try_into(self) -> (r: Result<FlavorPath, String>) { FlavorPath::fp_from_path_ref(self) } }
//@fn inert_attr/parse.rs get_binding_name owners=C06 veq
    ensures match hooq_name(*path) { Err(_) => r is Err, Ok(None) => r is Ok && r->Ok_0 is None, Ok(Some(n)) => r is Ok && r->Ok_0 is Some && r->Ok_0->0@ == n }
//@end
//@fn inert_attr/parse.rs Strings::parse@Parse owners=C06
    ensures match strings_of(rest_of(*old(input))) { None => r is Err, Some(l) => r is Ok && r->Ok_0.0@ == l }
//@loop 0
    invariant
        $i <= $v@.len(), $acc@.len() == $i, forall|j: int| #![trigger $acc@[j]] #![trigger $v@[j]] 0 <= j < $i ==> $acc@[j] == string_of(lit_str_value($v@[j])),
    decreases $v@.len() - $i
end:
    assert($acc@ =~= $v@.map_values(|x: LitStr| string_of(lit_str_value(x))));
//@end
//@fn inert_attr/parse.rs Strings::split_include_or_not_include owners=C06
    ensures r.0@ == poss(self.0@), r.1@ == negs(self.0@)
//@prologue
    proof { reveal(poss); reveal(negs); }
//@loop 0
    invariant
        $v@ == self.0@, $i <= $v@.len(), includes@ =~= poss($v@.take($i as int)), not_includes@ =~= negs($v@.take($i as int)),
    decreases $v@.len() - $i
top:
    proof { assert($v@.take($i + 1).drop_last() =~= $v@.take($i as int)); }
end:
    assert($v@.take($i as int) =~= $v@);
//@end
//@fn inert_attr/parse.rs get_flavor_path owners=C06
    ensures match value_names(*value) { None => r is Err, Some(n) => r is Ok && r->Ok_0.0@ == n }
//@end
//@fn inert_attr/parse.rs get_flavor owners=C06
    ensures
        r is Ok ==> project_flavors() is Some && fl_lookup(project_flavors()->0, flavor_path.0@) == Some(r->Ok_0),
        r is Err ==> toml_bad() || (project_flavors() is Some && fl_lookup(project_flavors()->0, flavor_path.0@) is None),
//@end
//@fn inert_attr/parse.rs extract_hooq_info_from_attrs owners=C06 veq attr=rlimit(30) bc=map_of_view,vec_of_view,string_of_inv,map_entries_map,path_eq,parse2_strings
    ensures
        r is Ok ==> ia_ok(old(attrs)@, r->Ok_0@, final(attrs)@),
        r is Err ==> toml_bad() || sp_attrs(old(attrs)@) is None,
//@prologue
    proof { hooq_paths(); }
    let ghost __as = attrs@;
//@loop 0
    invariant
        $v@ == __as, $i <= $v@.len(), hooq_paths_ok(hooq_flavor, hooq_method, hooq_hook_targets, hooq_tail_expr_idents, hooq_ignore_tail_expr_idents, hooq_result_types, hooq_hook_in_macros, hooq_bindings, hooq_binding, hooq_var, hooq_skip, hooq_skip_all),
        keeps@.len() == $i,
        sp_attrs($v@.take($i as int)) == Some((IaV { method: method, targets: hook_targets, tails: ov(tail_expr_idents), ignores: ov(ignore_tail_expr_idents), rtypes: ov(result_types), in_macros: hook_in_macros, binds: bindings@, skip: is_skipped, skip_all: is_skipped_all }, keeps@)),
    decreases $v@.len() - $i
ghost:
    assert($v@.take(0) =~= Seq::empty());
top:
    proof { assert($v@.take($i + 1).drop_last() =~= $v@.take($i as int)); assert($v@.take($i + 1).last() == $v@[$i as int]);
        if sp_attrs($v@.take($i + 1)) is None { attrs_none($v@, $i + 1); } }
    let ghost __pre = IaV { method: method, targets: hook_targets, tails: ov(tail_expr_idents), ignores: ov(ignore_tail_expr_idents), rtypes: ov(result_types), in_macros: hook_in_macros, binds: bindings@, skip: is_skipped, skip_all: is_skipped_all }; let ghost __ks = keeps@; let ghost __at = $v@[$i as int];
bot:
    proof { assert(keeps@ =~= __ks.push(keeps@.last())); assert(sp_attr(__at, __pre) == Some((IaV { method: method, targets: hook_targets, tails: ov(tail_expr_idents), ignores: ov(ignore_tail_expr_idents), rtypes: ov(result_types), in_macros: hook_in_macros, binds: bindings@, skip: is_skipped, skip_all: is_skipped_all }, keeps@.last()))); }
end:
    assert($v@.take($i as int) =~= $v@); assert(keeps@.take(__as.len() as int) =~= keeps@);
//@loop 1
    invariant
        $i <= $v@.len(), bindings@ == entries_over(__b1, $v@, $i as int),
    decreases $v@.len() - $i
ghost:
    let ghost __b1 = bindings@; proof { entries_over_0(__b1, $v@); }
top:
    proof { entries_over_next(__b1, $v@, $i as int); }
end:
    assert($v@.take($i as int) =~= $v@);
//@loop 2
    invariant
        $i <= $v@.len(), bindings@ == entries_over(__b2, $v@, $i as int),
    decreases $v@.len() - $i
ghost:
    let ghost __b2 = bindings@; proof { entries_over_0(__b2, $v@); }
top:
    proof { entries_over_next(__b2, $v@, $i as int); }
end:
    assert($v@.take($i as int) =~= $v@);
//@end
