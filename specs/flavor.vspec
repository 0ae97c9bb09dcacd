//@assume ctx.vspec
//@include tokens.vspec
//@include parse_lib.vspec
//@broadcast take_ts
//@include flavor_spec.vspec
//@synty Expr
// ---- library contracts used here
impl PathArguments { pub fn is_none(&self) -> (r: bool) ensures r == (*self is None) { match self { PathArguments::None => true, _ => false } } }
impl VIsEmpty for FlavorPath { open spec fn empty_spec(&self) -> bool { self.0@.len() == 0 } fn v_is_empty(&self) -> (r: bool) { self.0.len() == 0 } }
impl VIterable<String> for FlavorPath { open spec fn iter_seq(&self) -> Seq<String> { self.0@ } fn v_iter(&self) -> (r: VIter<'_, String>) { VIter { v: &self.0, i: 0 } } }
pub trait VSplit { fn v_split<P: VPat>(&self, p: P) -> (r: Vec<&str>); }
pub trait VPat { spec fn pat(self) -> Seq<char>; }
impl VPat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl VPat for &str { open spec fn pat(self) -> Seq<char> { self@ } }
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
impl VSplit for str { #[verifier::external_body] fn v_split<P: VPat>(&self, p: P) -> (r: Vec<&str>) ensures views(r@) == split_on(self@, p.pat()) { unimplemented!() } }
impl VSplit for String { #[verifier::external_body] fn v_split<P: VPat>(&self, p: P) -> (r: Vec<&str>) ensures views(r@) == split_on(self@, p.pat()) { unimplemented!() } }
pub trait VStrip { spec fn vs(&self) -> Seq<char>; fn v_strip_prefix(&self, c: char) -> (r: Option<&str>)
    ensures match r { Some(x) => self.vs().len() > 0 && self.vs()[0] == c && x@ == self.vs().skip(1), None => self.vs().len() == 0 || self.vs()[0] != c }; }
impl VStrip for String { open spec fn vs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_strip_prefix(&self, c: char) -> (r: Option<&str>) { unimplemented!() } }
impl VStrip for str { open spec fn vs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_strip_prefix(&self, c: char) -> (r: Option<&str>) { unimplemented!() } }
impl VTryInto<HookTargetSwitch> for Vec<String> { type Er = String; open spec fn try_is(self, r: Option<HookTargetSwitch>) -> bool { r == targets_of(self@) }
    fn v_try_into(self) -> (r: Result<HookTargetSwitch, String>) { HookTargetSwitch::hts_from_names(self) } }
impl VTryInto<FlavorPath> for String { type Er = String; open spec fn try_is(self, r: Option<FlavorPath>) -> bool { fl_names(r) == names_of_text(self@) }
    fn v_try_into(self) -> (r: Result<FlavorPath, String>) { FlavorPath::fp_from_text(self) } }
impl VTryInto<FlavorPath> for Path { type Er = String; open spec fn try_is(self, r: Option<FlavorPath>) -> bool { fl_names(r) == names_of_path(self) }
    fn v_try_into(self) -> (r: Result<FlavorPath, String>) { FlavorPath::fp_from_path(self) } }
impl VTryInto<Method> for TokenStream { type Er = SynError; open spec fn try_is(self, r: Option<Method>) -> bool { r == method_spec(self) }
    fn v_try_into(self) -> (r: Result<Method, SynError>) { Method::method_from_ts(self) } }
//@path parse2 v_parse2
//@fn flavor/flavor_path.rs FlavorPath::try_from@TryFrom<&syn::Path> owners=C12 name=fp_from_path_ref
    ensures r is Ok ==> names_of_path(*value) == Some(r->Ok_0.0@), r is Err ==> names_of_path(*value) is None
//@loop 0
    invariant
        $v@ == value.segments.items@, $i <= $v@.len(), $acc@.len() == $i,
        forall|j: int| #![trigger $acc@[j]] #![trigger $v@[j]] 0 <= j < $i ==> seg_ok($v@[j]) && $acc@[j] == string_of(ident_str($v@[j].ident)),
    decreases $v@.len() - $i
end:
    assert($acc@ =~= $v@.map_values(|s: PathSegment| string_of(ident_str(s.ident))));
    assert forall|j: int| 0 <= j < $v@.len() implies seg_ok(#[trigger] value.segments.items@[j]) by { assert($acc@[j] == string_of(ident_str($v@[j].ident))); }
//@end
//@fn flavor/flavor_path.rs FlavorPath::try_from@TryFrom<syn::Path> owners=C12 name=fp_from_path
    ensures r is Ok ==> names_of_path(value) == Some(r->Ok_0.0@), r is Err ==> names_of_path(value) is None
//@end
//@fn flavor/flavor_path.rs FlavorPath::try_from@TryFrom<String> owners=C12 name=fp_from_text
    ensures r is Ok ==> names_of_text(value@) == Some(r->Ok_0.0@), r is Err ==> names_of_text(value@) is None
//@prologue
    proof { reveal_strlit("::"); }
//@loop 0
    invariant
        views($v@) == split_on(value@, seq!['.']), $i <= $v@.len(),
        views($acc@) == split_all(views($v@).take($i as int), "::"@),
    decreases $v@.len() - $i
ghost:
    assert(views($v@).take(0) =~= Seq::empty()); assert(views(Seq::<&str>::empty()) =~= Seq::empty());
bot:
    proof { assert(views($v@).take($i as int).drop_last() =~= views($v@).take($i - 1));
        assert(views($acc@) =~= split_all(views($v@).take($i - 1), "::"@) + split_on(views($v@)[$i - 1], "::"@)); }
end:
    assert(views($v@).take($i as int) =~= views($v@));
//@loop 1
    invariant
        views($v@) == split_all(split_on(value@, seq!['.']), "::"@), $i <= $v@.len(), $acc@.len() == $i,
        forall|j: int| #![trigger $acc@[j]] #![trigger $v@[j]] 0 <= j < $i ==> $v@[j]@.len() > 0 && $acc@[j] == string_of($v@[j]@),
    decreases $v@.len() - $i
top:
    assert(views($v@)[$i as int] == $v@[$i as int]@);
end:
    assert($acc@ =~= views($v@).map_values(|x: Seq<char>| string_of(x)));
    assert forall|j: int| 0 <= j < views($v@).len() implies #[trigger] views($v@)[j].len() > 0 by { assert($acc@[j] == string_of($v@[j]@)); }
//@end
//@fn flavor/mod.rs FlavorStore::get_flavor_inner owners=C12
    ensures r == fl_lookup(self.flavors@, path.0@)
//@loop 0
    invariant
        $v@.len() + 1 == __names.len(), $i <= $v@.len(),
        forall|j: int| 0 <= j < $v@.len() ==> *#[trigger] $v@[j] == __names[j + 1],
        fl_lookup(self.flavors@, __names) == fl_step(*current, __names.skip(1 + $i)),
    decreases $v@.len() - $i
ghost:
    assert forall|j: int| 0 <= j < $v@.len() implies *#[trigger] $v@[j] == __names[j + 1] by { assert(path.rest()[j] == __names[j + 1]); }
top:
    proof { assert(__names.skip(1 + $i)[0] == __names[1 + $i]); assert(__names.skip(1 + $i).skip(1) =~= __names.skip(2 + $i)); }
end:
    assert(__names.skip(1 + $i) =~= Seq::empty());
//@prologue
    let ghost __names = path.0@;
//@end
//@fn flavor/mod.rs all_flavor_names>collect_names owners=C12
    ensures
        final(names)@.len() >= old(names)@.len(), final(names)@.take(old(names)@.len() as int) == old(names)@,
        exists|ps: Seq<Seq<String>>| #[trigger] lists_all(Some(prefix@), flavor.sub_flavors, final(names)@.skip(old(names)@.len() as int), ps)
//@prologue
    let ghost n0 = names@;
//@loop 0
    invariant
        n0 == old(names)@, names@.len() >= n0.len(), names@.take(n0.len() as int) == n0, current_name@ == prefix@ + "::"@,
        $v@ == map_entries(flavor.sub_flavors), $i <= $v@.len(), listed_to(Some(prefix@), flavor.sub_flavors, $i as int, names@.skip(n0.len() as int), ps),
    decreases $v@.len() - $i
ghost:
    let ghost mut ps = Seq::<Seq<String>>::empty();
    proof { listed_0(Some(prefix@), flavor.sub_flavors); assert(names@.skip(n0.len() as int) =~= Seq::empty()); }
top:
    let ghost b = names@;
bot:
    proof {
        let a = n0.len() as int; let z = names@; let c = b.len() as int;
        assert(z.take(c + 1)[c] == z[c]);
        assert(z.take(c + 1).take(c) =~= b);
        let qs = choose|qs: Seq<Seq<String>>| #[trigger] lists_all(Some(z[c]@), map_entries(flavor.sub_flavors)[$i - 1].1.sub_flavors, z.skip(c + 1), qs);
        ps = listed_step(Some(prefix@), flavor.sub_flavors, $i - 1, b.skip(a), ps, z[c], z.skip(c + 1), qs);
        assert(b.skip(a).push(z[c]) + z.skip(c + 1) =~= z.skip(a)) by { assert forall|x: int| 0 <= x < c implies z[x] == b[x] by { assert(z.take(c + 1).take(c)[x] == b[x]); } }
        assert(z.take(a) =~= n0) by { assert forall|x: int| 0 <= x < a implies z[x] == n0[x] by { assert(z.take(c + 1).take(c)[x] == b[x]); assert(b.take(a)[x] == n0[x]); } }
    }
end:
    proof { listed_end(Some(prefix@), flavor.sub_flavors, names@.skip(n0.len() as int), ps); }
//@end
//@fn flavor/mod.rs FlavorStore::all_flavor_names owners=C12
    ensures exists|ps: Seq<Seq<String>>| #[trigger] lists_all(None, self.flavors, r@, ps)
//@prologue
    let ghost n0 = Seq::<String>::empty();
//@loop 0
    invariant
        names@.len() >= 0, names@.take(0) == n0, n0.len() == 0,
        $v@ == map_entries(self.flavors), $i <= $v@.len(), listed_to(None, self.flavors, $i as int, names@.skip(n0.len() as int), ps),
    decreases $v@.len() - $i
ghost:
    let ghost mut ps = Seq::<Seq<String>>::empty();
    proof { listed_0(None, self.flavors); assert(names@.skip(n0.len() as int) =~= Seq::empty()); }
top:
    let ghost b = names@;
bot:
    proof {
        let a = n0.len() as int; let z = names@; let c = b.len() as int;
        assert(z.take(c + 1)[c] == z[c]);
        assert(z.take(c + 1).take(c) =~= b);
        let qs = choose|qs: Seq<Seq<String>>| #[trigger] lists_all(Some(z[c]@), map_entries(self.flavors)[$i - 1].1.sub_flavors, z.skip(c + 1), qs);
        ps = listed_step(None, self.flavors, $i - 1, b.skip(a), ps, z[c], z.skip(c + 1), qs);
        assert(b.skip(a).push(z[c]) + z.skip(c + 1) =~= z.skip(a)) by { assert forall|x: int| 0 <= x < c implies z[x] == b[x] by { assert(z.take(c + 1).take(c)[x] == b[x]); } }
        assert(z.take(a) =~= n0) by { assert forall|x: int| 0 <= x < a implies z[x] == n0[x] by { assert(z.take(c + 1).take(c)[x] == b[x]); assert(b.take(a)[x] == n0[x]); } }
    }
end:
    assert(names@.skip(0) =~= names@);
    proof { listed_end(None, self.flavors, names@.skip(n0.len() as int), ps); }
//@end
//@fn flavor/mod.rs FlavorStore::get_flavor owners=C12 keeperr
    ensures r is Ok ==> fl_lookup(self.flavors@, path.0@) == Some(r->Ok_0),
        r is Err ==> fl_lookup(self.flavors@, path.0@) is None && exists|ns: Seq<String>, ps: Seq<Seq<String>>| #[trigger] lists_all(None, self.flavors, ns, ps) && has_lines(r->Err_0@, ns)
//@loop 0
    invariant
        $v@ == ns, $i <= $v@.len(), txs($acc@) == bullets(ns).take($i as int),
    decreases $v@.len() - $i
ghost:
    let ghost ns = $v@;
    assert(txs($acc@) =~= bullets(ns).take(0));
    let ghost px = "flavor `"@ + tx_join(txs(path.0@), "::"@) + "` is not found. available flavors:\n"@;
bot:
    assert(txs($acc@) =~= bullets(ns).take($i as int)) by { let w = $acc@; assert(txs(w).drop_last() =~= bullets(ns).take($i - 1)); assert(w.last()@ =~= "  - "@ + ns[$i - 1]@);
        assert forall|x: int| 0 <= x < $i implies txs(w)[x] == bullets(ns)[x] by { if x < $i - 1 { assert(txs(w).drop_last()[x] == txs(w)[x]); } } }
end:
    assert(txs($acc@) =~= bullets(ns));
    assert(Seq::<char>::empty() + "flavor `"@ =~= "flavor `"@);
    proof { lines_in(px, ns); }
//@end
//@fn inert_attr/context.rs HookTargetSwitch::try_from@TryFrom<Vec<String>> owners=C06,C13 name=hts_from_names
    ensures r is Ok ==> targets_of(value@) == Some(r->Ok_0), r is Err ==> targets_of(value@) is None
//@prologue
    proof { reveal(targets_of); reveal_strlit("?"); reveal_strlit("question"); reveal_strlit("return"); reveal_strlit("tail_expr"); reveal_strlit("tail expr"); reveal_strlit("tailexpr"); reveal_strlit("tailExpr"); reveal_strlit("all"); }
//@loop 0
    invariant
        $v@ == value@, $i <= $v@.len(), targets_of(value@.take($i as int)) == Some(switch),
    decreases $v@.len() - $i
ghost:
    assert(value@.take(0) =~= Seq::empty());
top:
    proof { assert(value@.take($i + 1).drop_last() =~= value@.take($i as int)); assert(target_of(value@[$i as int]@) is None ==> targets_of(value@.take($i + 1)) is None);
        if target_of(value@[$i as int]@) is None { targets_none(value@, $i + 1); } }
end:
    assert(value@.take($i as int) =~= value@);
//@end
//@fn flavor/toml_load/apply.rs split_include_or_not_include owners=C13
    ensures r.0@ == poss(idents@), r.1@ == negs(idents@)
//@prologue
    proof { reveal(poss); reveal(negs); }
//@loop 0
    invariant
        $v@ == idents@, $i <= $v@.len(), include_idents@ =~= poss($v@.take($i as int)), not_include_idents@ =~= negs($v@.take($i as int)),
    decreases $v@.len() - $i
top:
    proof { assert($v@.take($i + 1).drop_last() =~= $v@.take($i as int)); }
end:
    assert($v@.take($i as int) =~= $v@);
//@end
//@fn flavor/toml_load/apply.rs update_flavor_inner owners=C13 veq bc=map_of_view,vec_of_view attr=rlimit(40) attr=spinoff_prover
    ensures match sp_tables(old(flavors)@, flavor_tables@, *base_flavor) { Some(m) => r is Ok && final(flavors)@ == m, None => r is Err }
//@prologue
    let ghost fl0 = old(flavors)@; let ghost tabs = flavor_tables@; let ghost base = *base_flavor;
    proof { reveal_strlit("empty"); }
//@loop 0
    invariant
        fl0 == old(flavors)@, base == *base_flavor,
        $v@ == map_entries(flavor_tables), $i <= $v@.len(),
        applied(flavors@, fl0, flavor_tables, base, $i as int),
    decreases $v@.len() - $i
ghost:
    proof { applied_0(fl0, flavor_tables, base); }
top:
    let ghost key = $v@[$i as int].0; let ghost tab = $v@[$i as int].1; let ghost pre = flavors@; let ghost st = start_of(fl0, base, key); let ghost mut gf = st;
    proof { applied_bad(pre, fl0, flavor_tables, base, $i as int); }
bot:
    proof {
        assert(flavors@ == pre.insert(key, gf));
        applied_next(pre, flavors@, fl0, flavor_tables, base, $i - 1, key, tab, st, gf);
    }
end:
    proof { applied_end(flavors@, fl0, flavor_tables, base); }
//@loop 1
    invariant
        $v@ == tab.trait_uses@, $i <= $v@.len(), paths_done($v@, $acc@, $i as int),
    decreases $v@.len() - $i
ghost:
    proof { paths_0($v@); }
top:
    proof { paths_step($v@, $acc@, $i as int); }
end:
    proof { paths_end($v@, $acc@); }
//@loop 2
    invariant
        $v@ == map_entries(tab.bindings), $i <= $v@.len(), binds_done(tab.bindings, $acc@, $i as int),
    decreases $v@.len() - $i
ghost:
    proof { binds_0(tab.bindings); }
top:
    proof { binds_step(tab.bindings, $acc@, $i as int); }
end:
    proof { binds_end(tab.bindings, $acc@); }
//@before flavor.trait_uses =
    proof { assert(parse_all(tab.trait_uses@) == Some(trait_uses@)); }
//@before if let Some(method)

    proof { reveal(table_method); }
//@before if let Some(hook_targets)
    assert(table_method(st, tab) == Some(flavor.method));

    proof { reveal(table_targets); }
//@before if let Some(tail_expr_idents)
    assert(table_targets(st, tab) == Some(flavor.hook_targets));

    proof { reveal(table_ignores); reveal(table_tails); }
//@before if let Some(result_types)
    assert(table_ignores(st, tab) == flavor.ignore_tail_expr_idents) by { broadcast use vec_of_inv; }
    assert(table_tails(st, tab) == flavor.tail_expr_idents) by { broadcast use vec_of_inv; }
    assert(flavor.bindings == st.bindings && flavor.sub_flavors == st.sub_flavors && flavor.hook_in_macros == st.hook_in_macros && flavor.result_types == st.result_types);
    let ghost fl4 = *flavor;
//@before flavor.bindings.v_extend
    let ghost bs = bindings@;
    proof { assert(parse_binds(tab.bindings@) == Some(pairs_map(bs))); }
    assert(flavor.bindings@ == st.bindings@);
//@before if !sub_flavors
    let ghost g = *flavor;
    assert(g.bindings@ == st.bindings@.union_prefer_right(pairs_map(bs)));
    assert(parse_all(tab.trait_uses@) == Some(g.trait_uses@));
    assert(table_method(st, tab) == Some(g.method));
    assert(table_targets(st, tab) == Some(g.hook_targets));
    assert(g.bindings@ == st.bindings@.union_prefer_right(parse_binds(tab.bindings@)->0));
    proof { upd_fields_is(st, tab, g); if tab.sub_flavors.empty_spec() { upd_flat(st, tab, g); } else { upd_nest(st, tab, g); } }
//@after if !sub_flavors
    proof { gf = *flavor; assert(tab.sub_flavors.empty_spec() ==> gf == g); assert(!tab.sub_flavors.empty_spec() ==> gf == Flavor { sub_flavors: gf.sub_flavors, ..g });
    assert(!tab.sub_flavors.empty_spec() ==> sp_tables(g.sub_flavors@, tab.sub_flavors@, g) == Some(gf.sub_flavors@)); assert(upd_flavor(st, tab) == Some(gf)); }
//@end
//@fn flavor/toml_load/apply.rs update_flavors owners=C13
    ensures match sp_tables(old(flavors)@, hooq_toml.flavors@, flavor_default()) { Some(m) => r is Ok && final(flavors)@ == m, None => r is Err }
//@end
//@fn method/mod.rs Method::try_from@TryFrom<TokenStream> owners=C13 name=method_from_ts
    ensures r is Ok ==> method_spec(value) == Some(r->Ok_0), r is Err ==> method_spec(value) is None
//@end
//@fn flavor/mod.rs default_method owners=C12
    ensures r == preset_method("default"@)
//@prologue
    broadcast use presets_parse; proof { preset_names(); reveal(preset_tokens); }
//@end
//@fn flavor/mod.rs Flavor::default@Default owners=C13
    ensures r == flavor_default()
//@end
//@ty flavor/mod.rs TomlStore
//@path std::env::var v_env_var
//@path PathBuf::from v_path_of
//@path std::fs::read_to_string v_read_file
//@path toml::from_str v_toml_parse
#[verifier::external_body] pub fn v_env_var(k: &str) -> (r: Result<String, String>) ensures match r { Ok(s) => env_var(k@) == Some(s@), Err(_) => env_var(k@) is None } { unimplemented!() }
#[verifier::external_body] pub struct PathBuf { v: u64 }
pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;
#[verifier::external_body] pub fn v_path_of(s: String) -> (r: PathBuf) ensures path_text(r) == path_of(s@) { unimplemented!() }
impl PathBuf {
    #[verifier::external_body] pub fn v_join(&self, s: &str) -> (r: PathBuf) ensures path_text(r) == path_join(path_text(*self), s@) { unimplemented!() }
    #[verifier::external_body] pub fn try_exists(&self) -> (r: Result<bool, String>) ensures (file_at(path_text(*self)) is Some) == (r == Ok::<bool, String>(true)) { unimplemented!() }
}
#[verifier::external_body] pub fn v_read_file(p: &PathBuf) -> (r: Result<String, String>) ensures match r { Ok(s) => file_at(path_text(*p)) == Some(Some(s@)), Err(_) => file_at(path_text(*p)) == Some(None::<Seq<char>>) } { unimplemented!() }
#[verifier::external_body] pub fn v_toml_parse(s: &String) -> (r: Result<HooqToml, String>) ensures match r { Ok(t) => toml_parsed(s@) == Some(t), Err(_) => toml_parsed(s@) is None } { unimplemented!() }
pub trait VCloned<T> { fn v_cloned(self) -> Option<T>; }
impl VCloned<CheckedHooqToml> for Option<&CheckedHooqToml> { #[verifier::external_body] fn v_cloned(self) -> (r: Option<CheckedHooqToml>) ensures match self { Some(x) => r == Some(*x), None => r is None } { unimplemented!() } }
impl CheckedHooqToml { #[verifier::external_body] pub fn v_clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---- what is kept from one expansion to the next: for each project at most its own, checked, hooq.toml.  The lock gives access to a map
// ---- that satisfies this, and whatever is put in has to keep it
pub open spec fn kept_ok(dir: Seq<char>, c: CheckedHooqToml) -> bool { toml_of(dir) == Some(c.inner) && toml_checked(c.inner) }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Mutex<T> { v: std::marker::PhantomData<T> }
pub struct Kept { v: u64 }
impl<T> Mutex<T> { #[verifier::external_body] pub fn lock(&self) -> (r: Result<Kept, String>) ensures r is Ok { unimplemented!() } }
impl Kept {
    #[verifier::external_body] pub fn v_insert(&mut self, k: String, c: CheckedHooqToml) -> (r: Option<CheckedHooqToml>) requires kept_ok(k@, c) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&CheckedHooqToml>) ensures match r { Some(c) => kept_ok(k@, *c), None => true } { unimplemented!() }
}
#[verifier::external_body] pub const fn v_kept() -> TomlStore { TomlStore { inner: Mutex { v: std::marker::PhantomData } } }
pub exec static LOADED_HOOQ_TOML: TomlStore ensures true { v_kept() }
impl FlavorPath { #[verifier::external_body] pub fn v_join(&self, s: &str) -> (r: String) ensures r@ == tx_join(txs(self.0@), s@) { unimplemented!() } }
pub trait VJoinTx { spec fn joined(&self, sep: Seq<char>) -> Seq<char>; fn v_join(&self, sep: &str) -> (r: String) ensures r@ == self.joined(sep@); }
impl VJoinTx for Vec<String> { open spec fn joined(&self, sep: Seq<char>) -> Seq<char> { tx_join(txs(self@), sep) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
//@path presets::preset_flavors preset_flavors
//@path toml_load::apply::update_flavors update_flavors
//@path FlavorStore::try_from FlavorStore::fs_from_toml
//@path CheckedHooqToml::try_from CheckedHooqToml::checked_from_toml
//@method is_ident v_is_ident
impl Path { #[verifier::external_body] pub fn v_is_ident(&self, s: &str) -> (r: bool) ensures r == path_is_ident(*self, s@) { unimplemented!() } }
impl LitStr { #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == lit_str_value(*self) { unimplemented!() } }
impl HooqToml { #[verifier::external_body] pub fn v_clone(&self) -> (r: HooqToml) ensures r == *self { unimplemented!() } }
pub proof fn split_all_none(l: Seq<Seq<char>>, sep: Seq<char>)
    requires l.len() == 1, sep.len() > 0, forall|i: int| 0 <= i < l[0].len() ==> l[0][i] != sep[0]
    ensures split_all(l, sep) =~= l
{ split_none(l[0], sep); assert(l.drop_last() =~= Seq::empty()); reveal_with_fuel(split_all, 3); }
pub proof fn default_name()
    ensures names_of_text("default"@) == Some(seq![string_of("default"@)])
{
    reveal_strlit("default"); reveal_strlit("::");
    let d = "default"@;
    split_none(d, seq!['.']); split_all_none(seq![d], "::"@);
    let l = split_all(split_on(d, seq!['.']), "::"@);
    assert(l =~= seq![d]);
    assert(l.map_values(|x: Seq<char>| string_of(x)) =~= seq![string_of(d)]);
}
//@path default::default_flavor default_flavor
//@path empty::empty_flavor empty_flavor
//@path hook::hook_flavor hook_flavor
//@path log::log_flavor log_flavor
//@path anyhow::anyhow_flavor anyhow_flavor
//@path eyre::eyre_flavor eyre_flavor
//@path eyre::color_eyre_flavor color_eyre_flavor
//@path tracing::tracing_flavor tracing_flavor
//@fn flavor/presets/empty.rs empty_method owners=C12
    ensures r == preset_tokens("empty"@, helpers_path(mdir()))
//@prologue
    proof { preset_names(); reveal(preset_tokens); }
//@end
//@fn flavor/presets/hook.rs hook_method owners=C12
    ensures r == preset_tokens("hook"@, helpers_path(mdir()))
//@prologue
    proof { preset_names(); reveal(preset_tokens); }
//@end
//@fn flavor/presets/log.rs log_method owners=C12
    ensures r == preset_tokens("log"@, helpers_path(mdir()))
//@prologue
    proof { preset_names(); reveal(preset_tokens); }
//@end
//@fn flavor/presets/anyhow.rs anyhow_method owners=C12
    ensures r == preset_tokens("anyhow"@, helpers_path(mdir()))
//@prologue
    proof { preset_names(); reveal(preset_tokens); }
//@end
//@fn flavor/presets/eyre.rs eyre_method owners=C12
    ensures r == preset_tokens("eyre"@, helpers_path(mdir()))
//@prologue
    proof { preset_names(); reveal(preset_tokens); }
//@end
//@fn flavor/presets/tracing.rs tracing_method owners=C12
    ensures r == preset_tokens("tracing"@, helpers_path(mdir()))
//@prologue
    proof { preset_names(); reveal(preset_tokens); }
//@end
//@fn flavor/presets/default.rs default_flavor owners=C12
    ensures r == flavor_default()
//@prologue
    broadcast use presets_parse;
//@end
//@fn flavor/presets/empty.rs empty_flavor owners=C12
    ensures r == flavor_empty()
//@prologue
    broadcast use presets_parse;
//@end
//@fn flavor/presets/hook.rs hook_flavor owners=C12
    ensures r == flavor_hook()
//@prologue
    broadcast use presets_parse;
//@end
//@fn flavor/presets/log.rs log_flavor owners=C12
    ensures r == flavor_log()
//@prologue
    broadcast use presets_parse;
    proof { reveal_with_fuel(pairs_map, 6); }
//@end
//@fn flavor/presets/anyhow.rs anyhow_flavor owners=C12
    ensures r == flavor_anyhow()
//@prologue
    broadcast use presets_parse;
//@end
//@fn flavor/presets/eyre.rs eyre_flavor owners=C12
    ensures r == flavor_eyre()
//@prologue
    broadcast use presets_parse;
    let ghost pa = parsed::<Path>($q{ ::eyre::ContextCompat }); let ghost pb = parsed::<Path>($q{ ::eyre::WrapErr });
    assert(Seq::<Path>::empty().push(pa).push(pb) =~= seq![pa, pb]);
//@end
//@fn flavor/presets/eyre.rs color_eyre_flavor owners=C12
    ensures r == flavor_color_eyre()
//@prologue
    broadcast use presets_parse;
    let ghost pa = parsed::<Path>($q{ ::color_eyre::eyre::ContextCompat }); let ghost pb = parsed::<Path>($q{ ::color_eyre::eyre::WrapErr });
    assert(Seq::<Path>::empty().push(pa).push(pb) =~= seq![pa, pb]);
//@end
//@fn flavor/presets/tracing.rs tracing_flavor owners=C12
    ensures r == flavor_tracing()
//@prologue
    broadcast use presets_parse;
    proof { reveal_with_fuel(pairs_map, 6); }
//@end
//@fn flavor/presets/mod.rs preset_flavors owners=C12,C13 attr=feature:log attr=feature:anyhow attr=feature:eyre attr=feature:tracing
    ensures r@ == presets()
//@prologue
    proof { reveal(presets); reveal_with_fuel(pairs_map, 9); }
//@end
//@fn flavor/mod.rs TomlStore::get owners=C21
    ensures match r { Some(c) => kept_ok(mdir(), c), None => true }
//@end
//@fn flavor/mod.rs TomlStore::set owners=C21
    requires kept_ok(mdir(), checked_hooq_toml)
//@end
//@fn flavor/mod.rs TomlStore::load owners=C21,C13
    ensures match r { Ok(Some(c)) => kept_ok(mdir(), c), Ok(None) => toml_text(mdir()) is None, Err(_) => toml_bad() }
//@end
//@fn flavor/mod.rs FlavorStore::new owners=C13
    ensures r.flavors@ == presets()
//@end
//@fn flavor/mod.rs FlavorStore::with_hooq_toml owners=C12,C13
    ensures r is Ok ==> project_flavors() == Some(r->Ok_0.flavors@), r is Err ==> toml_bad()
//@end
//@fn flavor/mod.rs FlavorStore::try_from@TryFrom<HooqToml> owners=C13 name=fs_from_toml
    ensures r is Ok ==> sp_tables(presets(), value.flavors@, flavor_default()) == Some(r->Ok_0.flavors@), r is Err ==> !toml_checked(value)
//@end
//@fn flavor/mod.rs CheckedHooqToml::try_from@TryFrom<HooqToml> owners=C13 name=checked_from_toml
    ensures r is Ok ==> r->Ok_0.inner == value && toml_checked(value), r is Err ==> !toml_checked(value)
//@end
//@fn root_attr/mod.rs RootContext::load owners=C12,C13,C20
    ensures
        r is Ok ==> project_flavors() is Some && root_matches(r->Ok_0, __p0@, project_flavors()->0),
        r is Err ==> toml_bad() || (project_flavors() is Some && fl_lookup(project_flavors()->0, flavor_names(__p0@)) is None),
//@prologue
    proof { default_name(); }
//@end
//@fn root_attr/mod.rs RootContext::trait_uses_token_stream owners=C20
    ensures r == imports(self.trait_uses@)
//@loop 0
    invariant
        $v@ == self.trait_uses@, $i <= $v@.len(), ts_flat($acc@) == imports($v@.take($i as int)),
    decreases $v@.len() - $i
ghost:
    assert($v@.take(0) =~= Seq::empty());
top:
    let ghost __pre = $acc@;
bot:
    proof { assert($v@.take($i as int).drop_last() =~= $v@.take($i - 1)); assert($acc@.drop_last() =~= __pre); assert($y == import_of($v@[$i - 1])); }
end:
    assert($v@.take($i as int) =~= $v@);
//@end
//@fn root_attr/parse.rs parse_meta_path owners=C12,C20
    ensures match names_of_path(input) {
        None => r is Err, Some(n) => r is Ok && fl_names(*final(flavor)) == (if n.len() > 0 { Some(n) } else { fl_names(*old(flavor)) }) }
//@end
//@ty root_attr/parse.rs Paths
//@fn root_attr/parse.rs get_paths>Paths::parse@Parse owners=C20 name=paths_parse
    ensures match sp_take_list::<Path>(rest_of(*old(input)), ","@) { None => r is Err, Some(s) => r is Ok && r->Ok_0.0.items@ == s }
//@end
/// syn::parse2 runs the Parse implementation on the tokens
pub broadcast axiom fn parse2_paths(t: TokenStream) ensures match (#[trigger] sp_parse::<Paths>(t)) { Some(a) => paths_of(t) == Some(a.0.items@), None => paths_of(t) is None };
//@fn root_attr/parse.rs get_paths owners=C20
    ensures match paths_of(tokens) { None => r is Err, Some(s) => r is Ok && r->Ok_0.items@ == s }
//@prologue
    broadcast use parse2_paths;
//@end
#[verifier::external_body] pub fn crate_name(s: &str) -> (r: Result<FoundCrate, String>) ensures match r { Ok(f) => crate_found(mdir(), s@) == Some(f), Err(_) => crate_found(mdir(), s@) is None } { unimplemented!() }
pub trait VReplace { fn v_replace(&self, a: &str, b: &str) -> (r: String); }
impl VReplace for String { #[verifier::external_body] fn v_replace(&self, a: &str, b: &str) -> (r: String) ensures r@ == replaced(self@, a@, b@) { unimplemented!() } }
//@method replace v_replace
//@known crate_name
//@fn utils/get_hooq_crate_name.rs get_hooq_crate_name owners=C21
    ensures r@ == hooq_crate(mdir())
//@end
//@fn utils/get_hooq_crate_name.rs get_source_excerpt_helpers_name_space owners=C21
    ensures r == helpers_path(mdir())
//@prologue
    broadcast use helpers_is_path;
//@end
//@fn root_attr/parse.rs parse_meta_list owners=C20
    ensures match meta_list_spec(__p0.path, __p0.tokens) { None => r is Err, Some(s) => r is Ok && final(trait_uses)@ == old(trait_uses)@ + s }
//@end
//@fn root_attr/parse.rs parse_name_value owners=C12,C20
    ensures match name_value_spec(input) { None => r is Err, Some(x) => r is Ok && fl_names(*final(flavor)) == Some(x) }
//@end
//@fn root_attr/parse.rs RootAttribute::parse@Parse owners=C12,C20
    ensures match sp_root(rest_of(*old(input))) { None => r is Err, Some(v) => r is Ok && r->Ok_0@ == v }
//@loop 0
    invariant
        sp_take_list::<Meta>(rest_of(*old(input)), ","@) == Some($v@), $i <= $v@.len(),
        root_steps($v@.take($i as int)) == Some(RootV { trait_uses: trait_uses@, flavor: fl_names(flavor) }),
    decreases $v@.len() - $i
ghost:
    assert($v@.take(0) =~= Seq::empty());
top:
    proof { assert($v@.take($i + 1).drop_last() =~= $v@.take($i as int)); if root_step(RootV { trait_uses: trait_uses@, flavor: fl_names(flavor) }, $v@[$i as int]) is None { root_none($v@, $i + 1); } }
end:
    assert($v@.take($i as int) =~= $v@);
//@end
pub uninterp spec fn tt_span(t: TokenTree) -> Span;
impl Punct { #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() } }
impl TokenTree { #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == tt_span(*self) { unimplemented!() } }
#[verifier::external_body]
pub fn v_tok(k: TokKind, s: Span) -> (r: Tok) { unimplemented!() }
//@path TokenStream::from_iter v_from_iter
#[verifier::external_body]
pub fn v_from_iter(v: Vec<TokenTree>) -> (r: TokenStream) ensures r == ts_of(v@) { unimplemented!() }
//@fn method/mod.rs Method::parse@Parse owners=C10 name=method_parse
    ensures r is Ok, is_method(rest_of(*old(input)), false, r->Ok_0)
//@prologue
    proof { reveal_strlit("."); assert("."@ =~= seq!['.']); }
//@end
//@fn method/mod.rs Method::parse@Parse owners=C10 name=method_parse_cq attr=feature:consume-question
    ensures r is Ok, is_method(rest_of(*old(input)), true, r->Ok_0)
//@prologue
    broadcast use ts_seq_of;
    proof { reveal_strlit("."); assert("."@ =~= seq!['.']); }
//@end
//@fn method/mod.rs split_tail_exclamation owners=C10 attr=feature:consume-question
    ensures r.0 == ts_of(if ends_in_exc(ts_seq(ts)) { ts_seq(ts).drop_last() } else { ts_seq(ts) }), (r.1 is Some) == ends_in_exc(ts_seq(ts))
//@end
// ---- the whole macro: imports, then the walked item (what walking does is the walk pack's)
#[verifier::external_body]
pub struct Item { v: u64 }
impl VTokens for Item { #[verifier::external_body] fn v_tokens(&self) -> (r: TokenStream) { unimplemented!() } }
pub open spec fn expansion(ts: TokenStream, rc: RootContext, it: Item) -> bool { ts == ts_cat_spec(imports(rc.trait_uses@), tokens_of(it)) }
pub uninterp spec fn walked(old: Item, c: HookContext, new: Item) -> bool;
/// syn::parse2 runs the Parse implementation on the tokens
pub broadcast axiom fn parse2_root(t: TokenStream)
    ensures match (#[trigger] sp_parse::<RootAttribute>(t)) { Some(a) => sp_root(ts_seq(t)) == Some(a@), None => sp_root(ts_seq(t)) is None };
//@path syn::parse2 v_parse2
//@fn walker/mod.rs walk_item assume
    ensures r is Ok ==> walked(*old(item), *context, *final(item))
//@end
pub open spec fn impl_ok(root_attr: TokenStream, item: Item, out: TokenStream) -> bool {
    sp_root(ts_seq(root_attr)) is Some && project_flavors() is Some && exists|rc: RootContext, it: Item, c: HookContext|
        root_matches(rc, sp_root(ts_seq(root_attr))->0, project_flavors()->0) && c@ == root_ctx(c@.cid, rc) && #[trigger] walked(item, c, it) && #[trigger] expansion(out, rc, it)
}
//@world hooq_impls
//@fn mod.rs hooq_impls owners=C20,C12
    ensures
        r is Ok ==> impl_ok(root_attr, item, r->Ok_0),
        sp_root(ts_seq(root_attr)) is None ==> r is Err,
//@prologue
    broadcast use parse2_root; let ghost item0 = item; let ghost ra = root_attr;
//@before let context =
    let ghost rc = root_context;
//@before Ok(ts_cat
    proof {
        assert(trait_use_paths == imports(rc.trait_uses@));
        assert(walked(item0, context, item));
        assert(sp_parse::<RootAttribute>(ra) is Some);
        assert(sp_root(ts_seq(ra)) is Some);
        assert(root_matches(rc, sp_root(ts_seq(ra))->0, project_flavors()->0));
        assert(context@ == root_ctx(context@.cid, rc));
        assert(expansion(ts_cat_spec(imports(rc.trait_uses@), tokens_of(item)), rc, item));
        assert(impl_ok(ra, item0, ts_cat_spec(imports(rc.trait_uses@), tokens_of(item))));
    }
//@end
// ---- the entry point: what the macro crate exports
/// the tokens of compile_error!
pub uninterp spec fn is_compile_error(t: TokenStream) -> bool;
#[verifier::external_body] pub fn v_compile_error(e: SynError) -> (r: TokenStream) ensures is_compile_error(r) { unimplemented!() }
//@path syn::Error::into_compile_error v_compile_error
//@path impls::hooq_impls hooq_impls
//@world entry_hooq hooq
//@fn hooq-macros/src/lib.rs hooq owners=C20,C12 name=entry_hooq
    ensures is_compile_error(r) || (sp_parse::<Item>(item) is Some && impl_ok(attr, sp_parse::<Item>(item)->0, r)),
        sp_root(ts_seq(attr)) is None ==> is_compile_error(r),
//@end
