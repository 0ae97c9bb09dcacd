// ---------------------------------------------------------------------------------------------
// Flavors, hooq.toml and the arguments of #[hooq(..)] (C12 C13 C20)
// ---------------------------------------------------------------------------------------------
//@ty flavor/mod.rs Flavor FlavorStore CheckedHooqToml
//@ty flavor/flavor_path.rs FlavorPath
//@ty flavor/toml_load/mod.rs HooqToml FlavorTable
//@ty root_attr/mod.rs RootAttribute
//@synty Meta MetaList MetaNameValue ExprLit Lit PathArguments
//@path FlavorPath::try_from FlavorPath::fp_from_path_ref
//@path Default::default Flavor::default
//@path syn::parse_str v_parse_str
//@path Method::try_from Method::method_from_ts
pub open spec fn start_of(fl: Map<String, Flavor>, base: Flavor, k: String) -> Flavor { if fl.contains_key(k) { fl[k] } else { base } }
// ---- C12: names
pub open spec fn fl_step(f: Flavor, names: Seq<String>) -> Option<Flavor> decreases names.len() {
    if names.len() == 0 { Some(f) }
    else if !f.sub_flavors@.contains_key(names[0]) { None }
    else { fl_step(f.sub_flavors@[names[0]], names.skip(1)) }
}
/// the flavor a path names: every step has to exist
pub open spec fn fl_lookup(fl: Map<String, Flavor>, names: Seq<String>) -> Option<Flavor> {
    if names.len() == 0 || !fl.contains_key(names[0]) { None } else { fl_step(fl[names[0]], names.skip(1)) }
}
// ---- C12: the list of all flavors.  Every path that names a flavor is listed once, by its text
pub open spec fn nm_seg(t: Option<Seq<char>>, k: Seq<char>) -> Seq<char> { match t { Some(t) => t + "::"@ + k, None => k } }
pub open spec fn nm_after(t: Seq<char>, p: Seq<String>) -> Seq<char> decreases p.len() {
    if p.len() == 0 { t } else { nm_after(nm_seg(Some(t), p[0]@), p.skip(1)) }
}
pub open spec fn nm_text(t: Option<Seq<char>>, p: Seq<String>) -> Seq<char> { nm_after(nm_seg(t, p[0]@), p.skip(1)) }
#[verifier::opaque] pub open spec fn nodup<T>(s: Seq<T>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> s[a] != s[b] }
pub open spec fn among(e: Seq<(String, Flavor)>, i: int, k: String) -> bool { exists|j: int| 0 <= j < i && (#[trigger] e[j]).0 == k }
#[verifier::opaque] pub open spec fn nm_all(t: Option<Seq<char>>, ns: Seq<String>, ps: Seq<Seq<String>>) -> bool {
    &&& ns.len() == ps.len()
    &&& forall|a: int| 0 <= a < ns.len() ==> #[trigger] nm_1(t, ns[a], ps[a])
}
/// `ns` lists the flavors under the first `i` entries of `m`, `ps` are their paths
#[verifier::opaque] pub open spec fn listed_to(t: Option<Seq<char>>, m: HashMap<String, Flavor>, i: int, ns: Seq<String>, ps: Seq<Seq<String>>) -> bool {
    &&& nm_all(t, ns, ps)
    &&& nodup(ps)
    &&& forall|p: Seq<String>| #![trigger fl_lookup(m@, p)] ps.contains(p) <==> fl_lookup(m@, p) is Some && among(map_entries(m), i, p[0])
}
/// `ns` lists every flavor of `m` once
#[verifier::opaque] pub open spec fn lists_all(t: Option<Seq<char>>, m: HashMap<String, Flavor>, ns: Seq<String>, ps: Seq<Seq<String>>) -> bool {
    &&& nm_all(t, ns, ps)
    &&& nodup(ps)
    &&& forall|p: Seq<String>| #![trigger fl_lookup(m@, p)] ps.contains(p) <==> fl_lookup(m@, p) is Some
}
pub proof fn listed_0(t: Option<Seq<char>>, m: HashMap<String, Flavor>)
    ensures listed_to(t, m, 0, Seq::empty(), Seq::empty())
{ reveal(nm_all); reveal(nodup); reveal(listed_to); }
pub open spec fn below(k: String, qs: Seq<Seq<String>>) -> Seq<Seq<String>> { qs.map_values(|q: Seq<String>| seq![k] + q) }
pub proof fn under_one(k: String, q: Seq<String>) ensures (seq![k] + q).skip(1) == q, (seq![k] + q)[0] == k, (seq![k] + q).len() == q.len() + 1 { assert((seq![k] + q).skip(1) =~= q); }
pub open spec fn nm_1(t: Option<Seq<char>>, n: String, p: Seq<String>) -> bool { p.len() > 0 && n@ == nm_text(t, p) }
pub proof fn nm_at(t: Option<Seq<char>>, k: String, s: String, n: String, q: Seq<String>)
    requires s@ == nm_seg(t, k@), nm_1(Some(s@), n, q)
    ensures nm_1(t, n, seq![k] + q)
{
    under_one(k, q);
    assert(nm_after(s@, q) == nm_after(nm_seg(Some(s@), q[0]@), q.skip(1)));
}
pub proof fn nm_step(t: Option<Seq<char>>, k: String, ns: Seq<String>, ps: Seq<Seq<String>>, s: String, rest: Seq<String>, qs: Seq<Seq<String>>)
    requires nm_all(t, ns, ps), s@ == nm_seg(t, k@), nm_all(Some(s@), rest, qs)
    ensures nm_all(t, ns.push(s) + rest, ps.push(seq![k]) + below(k, qs))
{
    reveal(nm_all);
    let n1 = ns.push(s) + rest;
    let r = ps.push(seq![k]) + below(k, qs);
    assert forall|a: int| 0 <= a < n1.len() implies #[trigger] nm_1(t, n1[a], r[a]) by {
        if a < ns.len() { assert(n1[a] == ns[a]); assert(r[a] == ps[a]); assert(nm_1(t, ns[a], ps[a])); }
        else if a == ns.len() { assert(r[a] == seq![k]); assert(n1[a] == s); assert(seq![k].skip(1) =~= Seq::empty()); assert(seq![k][0] == k); }
        else {
            let b = a - ns.len() - 1;
            assert(n1[a] == rest[b]); assert(r[a] == seq![k] + qs[b]);
            assert(nm_1(Some(s@), rest[b], qs[b]));
            nm_at(t, k, s, rest[b], qs[b]);
        }
    }
}
pub proof fn nodup_step(k: String, ps: Seq<Seq<String>>, qs: Seq<Seq<String>>)
    requires nodup(ps), nodup(qs), forall|a: int| 0 <= a < ps.len() ==> (#[trigger] ps[a]).len() > 0 && ps[a][0] != k, forall|a: int| 0 <= a < qs.len() ==> (#[trigger] qs[a]).len() > 0
    ensures nodup(ps.push(seq![k]) + below(k, qs))
{
    reveal(nodup);
    let r = ps.push(seq![k]) + below(k, qs);
    let n = ps.len() as int;
    assert forall|a: int, b: int| 0 <= a < b < r.len() implies r[a] != r[b] by {
        if a < n { assert(r[a] == ps[a]); }
        if b < n { assert(r[b] == ps[b]); }
        if b == n { assert(r[b] == seq![k]); assert(r[b][0] == k); }
        if b > n { let d = qs[b - n - 1]; under_one(k, d); assert(r[b] == seq![k] + d); assert(r[b].len() > 1); }
        if a == n { assert(r[a] == seq![k]); }
        if a > n { let c = qs[a - n - 1]; under_one(k, c); assert(r[a] == seq![k] + c); assert(qs[a - n - 1] != qs[b - n - 1]); }
    }
}
pub proof fn lists_step(m: HashMap<String, Flavor>, i: int, ps: Seq<Seq<String>>, qs: Seq<Seq<String>>, p: Seq<String>)
    requires
        0 <= i < map_entries(m).len(),
        ps.contains(p) <==> fl_lookup(m@, p) is Some && among(map_entries(m), i, p[0]),
        forall|p: Seq<String>| #![trigger fl_lookup(map_entries(m)[i].1.sub_flavors@, p)] qs.contains(p) <==> fl_lookup(map_entries(m)[i].1.sub_flavors@, p) is Some
    ensures (ps.push(seq![map_entries(m)[i].0]) + below(map_entries(m)[i].0, qs)).contains(p) <==> fl_lookup(m@, p) is Some && among(map_entries(m), i + 1, p[0])
{
    let e = map_entries(m);
    let k = e[i].0;
    let f = e[i].1;
    let n = ps.len() as int;
    entries_lookup(m, i);
    let r = ps.push(seq![k]) + below(k, qs);
    if r.contains(p) {
        let a = choose|a: int| 0 <= a < r.len() && r[a] == p;
        if a < n { assert(ps[a] == p); assert(ps.contains(p)); let j = choose|j: int| 0 <= j < i && (#[trigger] e[j]).0 == p[0]; assert(e[j].0 == p[0]); }
        else if a == n { assert(p == seq![k]); assert(p[0] == k); assert(e[i].0 == p[0]); assert(p.skip(1).len() == 0); assert(fl_step(f, p.skip(1)) is Some); }
        else {
            let q = qs[a - n - 1];
            assert(p == seq![k] + q); under_one(k, q); assert(qs.contains(q)); assert(fl_lookup(f.sub_flavors@, q) is Some);
            assert(e[i].0 == p[0]);
            assert(fl_step(f, q) == fl_step(f.sub_flavors@[q[0]], q.skip(1)));
        }
    }
    if fl_lookup(m@, p) is Some && among(e, i + 1, p[0]) {
        let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] e[j]).0 == p[0];
        if j < i {
            assert(among(e, i, p[0])); assert(ps.contains(p));
            let a = choose|a: int| 0 <= a < ps.len() && ps[a] == p; assert(r[a] == p);
        } else {
            let q = p.skip(1); assert(seq![k] + q =~= p);
            if q.len() == 0 { assert(p =~= seq![k]); assert(r[n] == p); }
            else {
                assert(fl_lookup(f.sub_flavors@, q) is Some); assert(qs.contains(q));
                let c = choose|c: int| 0 <= c < qs.len() && qs[c] == q; assert(r[n + 1 + c] == p);
            }
        }
    }
}
pub proof fn listed_step(t: Option<Seq<char>>, m: HashMap<String, Flavor>, i: int, ns: Seq<String>, ps: Seq<Seq<String>>, s: String, rest: Seq<String>, qs: Seq<Seq<String>>) -> (r: Seq<Seq<String>>)
    requires
        listed_to(t, m, i, ns, ps), 0 <= i < map_entries(m).len(), s@ == nm_seg(t, map_entries(m)[i].0@),
        lists_all(Some(s@), map_entries(m)[i].1.sub_flavors, rest, qs)
    ensures listed_to(t, m, i + 1, ns.push(s) + rest, r)
{
    reveal(listed_to); reveal(lists_all);
    let e = map_entries(m);
    let k = e[i].0;
    map_entries_nodup(m);
    let r = ps.push(seq![k]) + below(k, qs);
    nm_step(t, k, ns, ps, s, rest, qs);
    assert forall|a: int| 0 <= a < ps.len() implies (#[trigger] ps[a]).len() > 0 && ps[a][0] != k by {
        let p = ps[a]; reveal(nm_all); assert(nm_1(t, ns[a], p)); assert(ps.contains(p)); assert(fl_lookup(m@, p) is Some); assert(among(e, i, p[0]));
    }
    assert forall|a: int| 0 <= a < qs.len() implies (#[trigger] qs[a]).len() > 0 by { reveal(nm_all); assert(nm_1(Some(s@), rest[a], qs[a])); }
    nodup_step(k, ps, qs);
    assert forall|p: Seq<String>| #![trigger fl_lookup(m@, p)] r.contains(p) <==> fl_lookup(m@, p) is Some && among(e, i + 1, p[0]) by { lists_step(m, i, ps, qs, p); }
    r
}
pub proof fn listed_end(t: Option<Seq<char>>, m: HashMap<String, Flavor>, ns: Seq<String>, ps: Seq<Seq<String>>)
    requires listed_to(t, m, map_entries(m).len() as int, ns, ps)
    ensures lists_all(t, m, ns, ps)
{
    reveal(listed_to); reveal(lists_all);
    map_entries_map(m);
    assert forall|p: Seq<String>| #![trigger fl_lookup(m@, p)] fl_lookup(m@, p) is Some implies among(map_entries(m), map_entries(m).len() as int, p[0]) by {
        let i = pairs_index(map_entries(m), p[0]); assert(map_entries(m)[i].0 == p[0]);
    }
}
/// [T]::join
pub open spec fn tx_join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { tx_join(v.drop_last(), sep) + sep + v.last() }
}
/// a message with one line for each name, in order
pub open spec fn txs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
pub open spec fn bullets(ns: Seq<String>) -> Seq<Seq<char>> { ns.map_values(|n: String| "  - "@ + n@) }
pub open spec fn around(a: Seq<char>, b: Seq<char>, c: Seq<char>) -> Seq<char> { a + b + c }
#[verifier::opaque] pub open spec fn has_lines(s: Seq<char>, ns: Seq<String>) -> bool {
    exists|a: Seq<char>, z: Seq<char>| s == #[trigger] around(a, tx_join(bullets(ns), "\n"@), z)
}
pub proof fn lines_in(a: Seq<char>, ns: Seq<String>)
    ensures has_lines(a + tx_join(bullets(ns), "\n"@), ns)
{ reveal(has_lines); let b = tx_join(bullets(ns), "\n"@); assert(a + b =~= around(a, b, Seq::empty())); }
/// str::split
pub uninterp spec fn split_on(s: Seq<char>, sep: Seq<char>) -> Seq<Seq<char>>;
pub axiom fn split_none(s: Seq<char>, sep: Seq<char>)
    requires sep.len() > 0, forall|i: int| 0 <= i < s.len() ==> s[i] != sep[0]
    ensures split_on(s, sep) == seq![s];
pub open spec fn split_all(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<Seq<char>> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { split_all(l.drop_last(), sep) + split_on(l.last(), sep) }
}
pub open spec fn none_empty(l: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i].len() > 0 }
/// the names in a text: separated by `.` and `::`, none of them empty
pub open spec fn names_of_text(s: Seq<char>) -> Option<Seq<String>> {
    let l = split_all(split_on(s, seq!['.']), "::"@);
    if none_empty(l) { Some(l.map_values(|x: Seq<char>| string_of(x))) } else { None }
}
pub open spec fn seg_ok(s: PathSegment) -> bool { s.arguments is None && ident_str(s.ident).len() > 0 }
/// the names in a path: no generic arguments
pub open spec fn names_of_path(p: Path) -> Option<Seq<String>> {
    if forall|i: int| 0 <= i < p.segments.items@.len() ==> seg_ok(#[trigger] p.segments.items@[i]) {
        Some(p.segments.items@.map_values(|s: PathSegment| string_of(ident_str(s.ident))))
    } else { None }
}
// ---- C06: names of hook targets
pub open spec fn target_of(s: Seq<char>) -> Option<HookTargetSwitch> {
    if s == "?"@ || s == "question"@ { Some(HookTargetSwitch { question: true, return_: false, tail_expr: false }) }
    else if s == "return"@ { Some(HookTargetSwitch { question: false, return_: true, tail_expr: false }) }
    else if s == "tail_expr"@ || s == "tail expr"@ || s == "tailexpr"@ || s == "tailExpr"@ { Some(HookTargetSwitch { question: false, return_: false, tail_expr: true }) }
    else if s == "all"@ { Some(HookTargetSwitch { question: true, return_: true, tail_expr: true }) }
    else { None }
}
pub open spec fn sw_or(a: HookTargetSwitch, b: HookTargetSwitch) -> HookTargetSwitch {
    HookTargetSwitch { question: a.question || b.question, return_: a.return_ || b.return_, tail_expr: a.tail_expr || b.tail_expr }
}
#[verifier::opaque]
pub open spec fn targets_of(l: Seq<String>) -> Option<HookTargetSwitch> decreases l.len() {
    if l.len() == 0 { Some(HookTargetSwitch { question: false, return_: false, tail_expr: false }) }
    else { match (targets_of(l.drop_last()), target_of(l.last()@)) { (Some(a), Some(b)) => Some(sw_or(a, b)), _ => None } }
}
pub proof fn targets_none(l: Seq<String>, n: int)
    requires 0 <= n <= l.len(), targets_of(l.take(n)) is None
    ensures targets_of(l) is None
    decreases l.len() - n
{
    reveal(targets_of);
    if n < l.len() { assert(l.take(n + 1).drop_last() =~= l.take(n)); targets_none(l, n + 1); } else { assert(l.take(n) =~= l); }
}
/// `!Ident` entries, without the mark / the other entries
pub open spec fn is_neg(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '!' }
#[verifier::opaque]
pub open spec fn negs(l: Seq<String>) -> Seq<String> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if is_neg(l.last()@) { negs(l.drop_last()).push(string_of(l.last()@.skip(1))) } else { negs(l.drop_last()) }
}
#[verifier::opaque]
pub open spec fn poss(l: Seq<String>) -> Seq<String> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if is_neg(l.last()@) { poss(l.drop_last()) } else { poss(l.drop_last()).push(l.last()) }
}
// ---- methods
pub open spec fn method_spec(t: TokenStream) -> Option<Method> { sp_parse::<Method>(t) }
/// a method text starting with a dot is put behind the expression, every other one replaces it;
/// with consume-question a final `!` is taken off and says that the `?` goes away
pub open spec fn ends_in_exc(s: Seq<TokenTree>) -> bool { s.len() > 0 && (s.last() matches TokenTree::Punct(p) && punct_char(p) == '!') }
pub open spec fn is_method(s: Seq<TokenTree>, cq: bool, m: Method) -> bool {
    let dot = tok_head(s, seq!['.']);
    let b = if dot { s.skip(1) } else { s };
    let ex = cq && ends_in_exc(b);
    let body = ts_of(if ex { b.drop_last() } else { b });
    match m {
        Method::Insert(d, t, e) => dot && tokens_of(d) == one(s[0]) && t == body && (e is Some) == ex,
        Method::Replace(t, e) => !dot && t == body && (e is Some) == ex,
    }
}
// ---- C13: tables
#[verifier::opaque]
pub open spec fn parse_all(l: Seq<String>) -> Option<Seq<Path>> {
    if forall|i: int| 0 <= i < l.len() ==> sp_parse_str::<Path>(#[trigger] l[i]@) is Some { Some(l.map_values(|s: String| sp_parse_str::<Path>(s@)->0)) } else { None }
}
#[verifier::opaque]
pub open spec fn parse_binds(m: Map<String, String>) -> Option<Map<String, Rc<Expr>>> {
    if forall|k: String| m.contains_key(k) ==> sp_parse_str::<Expr>(#[trigger] m[k]@) is Some { Some(m.map_values(|s: String| Rc::new(sp_parse_str::<Expr>(s@)->0))) } else { None }
}
#[verifier::opaque]
pub open spec fn table_method(f: Flavor, t: FlavorTable) -> Option<Method> {
    match t.method { None => Some(f.method), Some(s) => match sp_parse_str::<TokenStream>(s@) { None => None, Some(ts) => method_spec(ts) } }
}
#[verifier::opaque]
pub open spec fn table_targets(f: Flavor, t: FlavorTable) -> Option<HookTargetSwitch> {
    match t.hook_targets { None => Some(f.hook_targets), Some(l) => targets_of(l@) }
}
#[verifier::opaque]
pub open spec fn table_ignores(f: Flavor, t: FlavorTable) -> Vec<String> {
    let n = match t.tail_expr_idents { Some(l) => negs(l@), None => Seq::empty() };
    match t.ignore_tail_expr_idents {
        Some(l) => vec_of(n + l@),
        None => if n.len() > 0 { vec_of(n) } else { f.ignore_tail_expr_idents },
    }
}
/// tables nest finitely
pub uninterp spec fn tb_depth(m: Map<String, FlavorTable>) -> nat;
pub axiom fn tb_depth_ax(m: Map<String, FlavorTable>, k: String) requires m.contains_key(k) ensures tb_depth(m[k].sub_flavors@) < tb_depth(m);
#[verifier::opaque]
pub open spec fn paths_done(v: Seq<String>, acc: Seq<Path>, i: int) -> bool {
    0 <= i <= v.len() && acc.len() == i && forall|j: int| #![trigger acc[j]] #![trigger v[j]] 0 <= j < i ==> sp_parse_str::<Path>(v[j]@) is Some && acc[j] == sp_parse_str::<Path>(v[j]@)->0
}
pub proof fn paths_0(v: Seq<String>) ensures paths_done(v, Seq::empty(), 0) { reveal(paths_done); }
pub proof fn paths_step(v: Seq<String>, acc: Seq<Path>, i: int)
    requires paths_done(v, acc, i), i < v.len()
    ensures sp_parse_str::<Path>(v[i]@) is None ==> parse_all(v) is None,
        forall|p: Path| sp_parse_str::<Path>(v[i]@) == Some(p) ==> #[trigger] paths_done(v, acc.push(p), i + 1),
{ reveal(paths_done); reveal(parse_all); }
pub proof fn paths_end(v: Seq<String>, acc: Seq<Path>)
    requires paths_done(v, acc, v.len() as int)
    ensures parse_all(v) == Some(acc)
{ reveal(paths_done); reveal(parse_all); assert(acc =~= v.map_values(|s: String| sp_parse_str::<Path>(s@)->0)); }
#[verifier::opaque]
pub open spec fn binds_done(m: HashMap<String, String>, acc: Seq<(String, Rc<Expr>)>, i: int) -> bool {
    let v = map_entries(m);
    0 <= i <= v.len() && acc.len() == i && forall|j: int| #![trigger acc[j]] #![trigger v[j]] 0 <= j < i ==> sp_parse_str::<Expr>(v[j].1@) is Some && acc[j] == (v[j].0, Rc::new(sp_parse_str::<Expr>(v[j].1@)->0))
}
pub proof fn binds_0(m: HashMap<String, String>) ensures binds_done(m, Seq::empty(), 0) { reveal(binds_done); }
pub proof fn binds_step(m: HashMap<String, String>, acc: Seq<(String, Rc<Expr>)>, i: int)
    requires binds_done(m, acc, i), i < map_entries(m).len()
    ensures sp_parse_str::<Expr>(map_entries(m)[i].1@) is None ==> parse_binds(m@) is None,
        forall|e: Expr| sp_parse_str::<Expr>(map_entries(m)[i].1@) == Some(e) ==> #[trigger] binds_done(m, acc.push((map_entries(m)[i].0, Rc::new(e))), i + 1),
{ reveal(binds_done); reveal(parse_binds); entries_lookup(m, i); }
pub proof fn binds_end(m: HashMap<String, String>, acc: Seq<(String, Rc<Expr>)>)
    requires binds_done(m, acc, map_entries(m).len() as int)
    ensures parse_binds(m@) == Some(pairs_map(acc))
{
    reveal(binds_done); reveal(parse_binds);
    let v = map_entries(m);
    assert forall|k: String| m@.contains_key(k) implies sp_parse_str::<Expr>(#[trigger] m@[k]@) is Some by {
        map_entries_map(m);
        let j = pairs_index(v, k); entries_lookup(m, j);
        assert(acc[j] == (v[j].0, Rc::new(sp_parse_str::<Expr>(v[j].1@)->0)));
    }
    map_entries_map(m);
    pairs_map_values(v, acc, |s: String| Rc::new(sp_parse_str::<Expr>(s@)->0));
}
/// a flavor with the fields of one table applied: every field that is written changes, every other one stays; trait_uses is the table's
#[verifier::opaque]
pub open spec fn upd_fields(f: Flavor, t: FlavorTable) -> Option<Flavor> {
    match (parse_all(t.trait_uses@), table_method(f, t), table_targets(f, t), parse_binds(t.bindings@)) {
        (Some(tu), Some(me), Some(ta), Some(bi)) => Some(Flavor {
            trait_uses: vec_of(tu), method: me, hook_targets: ta,
            tail_expr_idents: table_tails(f, t),
            ignore_tail_expr_idents: table_ignores(f, t),
            result_types: over(t.result_types, f.result_types),
            hook_in_macros: over(t.hook_in_macros, f.hook_in_macros),
            bindings: map_of(f.bindings@.union_prefer_right(bi)),
            sub_flavors: f.sub_flavors,
        }),
        _ => None,
    }
}
#[verifier::opaque]
pub open spec fn table_tails(f: Flavor, t: FlavorTable) -> Vec<String> { match t.tail_expr_idents { Some(l) => vec_of(poss(l@)), None => f.tail_expr_idents } }
pub proof fn upd_fields_is(f: Flavor, t: FlavorTable, g: Flavor)
    requires parse_all(t.trait_uses@) == Some(g.trait_uses@), table_method(f, t) == Some(g.method), table_targets(f, t) == Some(g.hook_targets),
        g.tail_expr_idents == table_tails(f, t), g.ignore_tail_expr_idents == table_ignores(f, t),
        g.result_types == over(t.result_types, f.result_types), g.hook_in_macros == over(t.hook_in_macros, f.hook_in_macros),
        parse_binds(t.bindings@) is Some, g.bindings@ == f.bindings@.union_prefer_right(parse_binds(t.bindings@)->0), g.sub_flavors == f.sub_flavors,
    ensures upd_fields(f, t) == Some(g)
{ reveal(upd_fields); broadcast use {vec_of_inv, map_of_inv}; }
pub proof fn upd_fields_none(f: Flavor, t: FlavorTable)
    ensures (parse_all(t.trait_uses@) is None || table_method(f, t) is None || table_targets(f, t) is None || parse_binds(t.bindings@) is None) ==> upd_fields(f, t) is None
{ reveal(upd_fields); broadcast use {vec_of_inv, map_of_inv}; }
/// a flavor with one table applied; its sub tables start from the flavor itself when their name is new
#[verifier::opaque]
pub open spec fn upd_flavor(f: Flavor, t: FlavorTable) -> Option<Flavor> decreases tb_depth(t.sub_flavors@), 2int {
    match upd_fields(f, t) {
        None => None,
        Some(g) => if t.sub_flavors@ == Map::<String, FlavorTable>::empty() { Some(g) } else {
            match sp_tables(g.sub_flavors@, t.sub_flavors@, g) { Some(m) => Some(Flavor { sub_flavors: map_of(m), ..g }), None => None }
        },
    }
}
/// the flavor under a name after its table is applied
#[verifier::opaque]
pub open spec fn sp_entry(fl: Map<String, Flavor>, tables: Map<String, FlavorTable>, base: Flavor, k: String) -> Option<Flavor>
    decreases tb_depth(tables), 0int
{
    if k@.len() == 0 || k@ == "empty"@ { None }
    else if tb_depth(tables[k].sub_flavors@) < tb_depth(tables) { upd_flavor(start_of(fl, base, k), tables[k]) } else { None }
}
/// all tables of one level: each one alone decides the flavor of its name
#[verifier::opaque]
pub open spec fn sp_tables(fl: Map<String, Flavor>, tables: Map<String, FlavorTable>, base: Flavor) -> Option<Map<String, Flavor>>
    decreases tb_depth(tables), 1int
{
    if exists|k: String| #[trigger] tables.contains_key(k) && sp_entry(fl, tables, base, k) is None { None }
    else { Some(Map::new(fl.dom().union(tables.dom()), |k: String| if tables.contains_key(k) { sp_entry(fl, tables, base, k)->0 } else { fl[k] })) }
}
pub proof fn tables_none(fl: Map<String, Flavor>, tables: Map<String, FlavorTable>, base: Flavor, k: String)
    requires tables.contains_key(k), sp_entry(fl, tables, base, k) is None
    ensures sp_tables(fl, tables, base) is None
{ reveal(sp_tables); reveal(sp_entry); reveal(upd_flavor); }
pub proof fn unf_entry(fl: Map<String, Flavor>, tables: Map<String, FlavorTable>, base: Flavor, k: String)
    requires tables.contains_key(k)
    ensures sp_entry(fl, tables, base, k) == (if k@.len() == 0 || k@ == "empty"@ { None } else { upd_flavor(start_of(fl, base, k), tables[k]) })
{ reveal(sp_tables); reveal(sp_entry); reveal(upd_flavor); tb_depth_ax(tables, k); }
pub proof fn unf_upd(f: Flavor, t: FlavorTable)
    ensures upd_flavor(f, t) == match upd_fields(f, t) {
        None => None,
        Some(g) => if t.sub_flavors@ == Map::<String, FlavorTable>::empty() { Some(g) } else {
            match sp_tables(g.sub_flavors@, t.sub_flavors@, g) { Some(m) => Some(Flavor { sub_flavors: map_of(m), ..g }), None => None }
        },
    }
{ reveal(sp_tables); reveal(sp_entry); reveal(upd_flavor); }
pub proof fn upd_bad(f: Flavor, t: FlavorTable)
    ensures (parse_all(t.trait_uses@) is None || table_method(f, t) is None || table_targets(f, t) is None || parse_binds(t.bindings@) is None) ==> upd_flavor(f, t) is None
{ upd_fields_none(f, t); unf_upd(f, t); }
pub proof fn upd_flat(f: Flavor, t: FlavorTable, g: Flavor)
    requires upd_fields(f, t) == Some(g), t.sub_flavors.empty_spec()
    ensures upd_flavor(f, t) == Some(g)
{ unf_upd(f, t); }
pub proof fn upd_nest(f: Flavor, t: FlavorTable, g: Flavor)
    requires upd_fields(f, t) == Some(g), !t.sub_flavors.empty_spec()
    ensures sp_tables(g.sub_flavors@, t.sub_flavors@, g) is None ==> upd_flavor(f, t) is None,
        forall|s: HashMap<String, Flavor>| #![trigger s@] sp_tables(g.sub_flavors@, t.sub_flavors@, g) == Some(s@) ==> upd_flavor(f, t) == Some(Flavor { sub_flavors: s, ..g })
{ unf_upd(f, t); broadcast use map_of_inv; }
/// the first i tables are applied, nothing else is changed
#[verifier::opaque]
pub open spec fn applied(cur: Map<String, Flavor>, fl: Map<String, Flavor>, tables: HashMap<String, FlavorTable>, base: Flavor, i: int) -> bool {
    let v = map_entries(tables);
    &&& forall|j: int| 0 <= j < i ==> cur.contains_key(#[trigger] v[j].0) && sp_entry(fl, tables@, base, v[j].0) == Some(cur[v[j].0])
    &&& forall|k: String| (forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).0 != k)
            ==> (#[trigger] cur.contains_key(k)) == fl.contains_key(k) && (fl.contains_key(k) ==> cur[k] == fl[k])
}
pub proof fn applied_0(fl: Map<String, Flavor>, tables: HashMap<String, FlavorTable>, base: Flavor)
    ensures applied(fl, fl, tables, base, 0)
{ reveal(applied); }
pub proof fn applied_start(cur: Map<String, Flavor>, fl: Map<String, Flavor>, tables: HashMap<String, FlavorTable>, base: Flavor, i: int)
    requires applied(cur, fl, tables, base, i), 0 <= i < map_entries(tables).len()
    ensures ({ let k = map_entries(tables)[i].0; let t = map_entries(tables)[i].1;
        &&& tables@.contains_key(k) && tables@[k] == t
        &&& start_of(cur, base, k) == start_of(fl, base, k)
        &&& sp_entry(fl, tables@, base, k) == (if k@.len() == 0 || k@ == "empty"@ { None } else { upd_flavor(start_of(fl, base, k), t) })
        &&& (sp_entry(fl, tables@, base, k) is None ==> sp_tables(fl, tables@, base) is None) })
{
    reveal(applied);
    let k = map_entries(tables)[i].0;
    entries_lookup(tables, i); map_entries_nodup(tables);
    unf_entry(fl, tables@, base, k);
    assert(cur.contains_key(k) == fl.contains_key(k));
    if sp_entry(fl, tables@, base, k) is None { tables_none(fl, tables@, base, k); }
}
pub proof fn applied_bad(cur: Map<String, Flavor>, fl: Map<String, Flavor>, tables: HashMap<String, FlavorTable>, base: Flavor, i: int)
    requires applied(cur, fl, tables, base, i), 0 <= i < map_entries(tables).len()
    ensures ({ let k = map_entries(tables)[i].0; let t = map_entries(tables)[i].1; let f = start_of(fl, base, k);
        &&& start_of(cur, base, k) == f
        &&& ((k@.len() == 0 || k@ == "empty"@ || parse_all(t.trait_uses@) is None || table_method(f, t) is None || table_targets(f, t) is None || parse_binds(t.bindings@) is None || upd_flavor(f, t) is None) ==> sp_tables(fl, tables@, base) is None) })
{ let k = map_entries(tables)[i].0; let t = map_entries(tables)[i].1; applied_start(cur, fl, tables, base, i); upd_bad(start_of(fl, base, k), t); }
pub proof fn applied_next(cur: Map<String, Flavor>, nxt: Map<String, Flavor>, fl: Map<String, Flavor>, tables: HashMap<String, FlavorTable>, base: Flavor, i: int, key: String, tab: FlavorTable, st: Flavor, f: Flavor)
    requires applied(cur, fl, tables, base, i), 0 <= i < map_entries(tables).len(), map_entries(tables)[i] == (key, tab), st == start_of(fl, base, key),
       key@.len() != 0 && key@ != "empty"@, upd_flavor(st, tab) == Some(f), nxt == cur.insert(key, f)
    ensures applied(nxt, fl, tables, base, i + 1)
{ applied_start(cur, fl, tables, base, i); applied_step(cur, fl, tables, base, i, f); }
pub proof fn applied_step(cur: Map<String, Flavor>, fl: Map<String, Flavor>, tables: HashMap<String, FlavorTable>, base: Flavor, i: int, f: Flavor)
    requires applied(cur, fl, tables, base, i), 0 <= i < map_entries(tables).len(), sp_entry(fl, tables@, base, map_entries(tables)[i].0) == Some(f)
    ensures applied(cur.insert(map_entries(tables)[i].0, f), fl, tables, base, i + 1)
{
    reveal(applied);
    entries_lookup(tables, i); map_entries_nodup(tables);
    let v = map_entries(tables);
    let k0 = v[i].0; let c2 = cur.insert(k0, f);
    assert forall|k: String| (forall|j: int| 0 <= j < i + 1 ==> (#[trigger] v[j]).0 != k)
            implies (#[trigger] c2.contains_key(k)) == fl.contains_key(k) && (fl.contains_key(k) ==> c2[k] == fl[k]) by {
        assert(v[i].0 != k); assert(cur.contains_key(k) == fl.contains_key(k));
    }
}
pub proof fn applied_end(cur: Map<String, Flavor>, fl: Map<String, Flavor>, tables: HashMap<String, FlavorTable>, base: Flavor)
    requires applied(cur, fl, tables, base, map_entries(tables).len() as int)
    ensures sp_tables(fl, tables@, base) == Some(cur)
{
    reveal(applied);
    let v = map_entries(tables); let tabs = tables@;
    assert forall|k: String| tabs.contains_key(k) implies (#[trigger] sp_entry(fl, tabs, base, k)) is Some && cur.contains_key(k) && cur[k] == sp_entry(fl, tabs, base, k)->0 by {
        map_entries_map(tables);
        let j = pairs_index(v, k); assert(v[j].0 == k);
    }
    assert forall|j: int| 0 <= j < v.len() implies tabs.contains_key((#[trigger] v[j]).0) by { entries_lookup(tables, j); }
    assert forall|k: String| !tabs.contains_key(k) implies (#[trigger] cur.contains_key(k)) == fl.contains_key(k) && (fl.contains_key(k) ==> cur[k] == fl[k]) by {
        assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).0 != k by { entries_lookup(tables, j); }
        assert(cur.contains_key(k) == fl.contains_key(k));
        if fl.contains_key(k) { assert(cur[k] == fl[k]); }
    }
    tables_some(fl, tabs, base, cur);
}
pub proof fn tables_some(fl: Map<String, Flavor>, tables: Map<String, FlavorTable>, base: Flavor, m: Map<String, Flavor>)
    requires
        forall|k: String| tables.contains_key(k) ==> (#[trigger] sp_entry(fl, tables, base, k)) is Some && m.contains_key(k) && m[k] == sp_entry(fl, tables, base, k)->0,
        forall|k: String| !tables.contains_key(k) ==> (#[trigger] m.contains_key(k)) == fl.contains_key(k) && (fl.contains_key(k) ==> m[k] == fl[k]),
    ensures sp_tables(fl, tables, base) == Some(m)
{
    reveal(sp_tables); reveal(sp_entry); reveal(upd_flavor);
    if exists|k: String| #[trigger] tables.contains_key(k) && sp_entry(fl, tables, base, k) is None {
        let k = choose|k: String| #[trigger] tables.contains_key(k) && sp_entry(fl, tables, base, k) is None;
        assert(false);
    }
    assert(sp_tables(fl, tables, base) is Some);
    let r = sp_tables(fl, tables, base)->0;
    assert forall|k: String| r.contains_key(k) == m.contains_key(k) && (m.contains_key(k) ==> r[k] == m[k]) by {
        if tables.contains_key(k) { let z = sp_entry(fl, tables, base, k); assert(z is Some && m[k] == z->0); assert(r.contains_key(k)); assert(r[k] == z->0); } else { assert(m.contains_key(k) == fl.contains_key(k)); }
    }
    assert(r =~= m);
}
/// entries of a map and the map
pub proof fn entries_lookup<V>(m: HashMap<String, V>, i: int)
    requires 0 <= i < map_entries(m).len()
    ensures m@.contains_key(map_entries(m)[i].0), m@[map_entries(m)[i].0] == map_entries(m)[i].1
{
    map_entries_map(m); map_entries_nodup(m);
    pairs_lookup(map_entries(m), i);
}
pub proof fn pairs_lookup<V>(s: Seq<(String, V)>, i: int)
    requires 0 <= i < s.len(), forall|a: int, b: int| 0 <= a < b < s.len() ==> s[a].0 != s[b].0
    ensures pairs_map(s).contains_key(s[i].0), pairs_map(s)[s[i].0] == s[i].1
    decreases s.len()
{
    if i < s.len() - 1 { pairs_lookup(s.drop_last(), i); assert(s.drop_last()[i] == s[i]); }
}
pub proof fn pairs_index<V>(s: Seq<(String, V)>, k: String) -> (i: int)
    requires pairs_map(s).contains_key(k)
    ensures 0 <= i < s.len(), s[i].0 == k
    decreases s.len()
{
    if s.last().0 == k { s.len() - 1 } else { let j = pairs_index(s.drop_last(), k); assert(s.drop_last()[j] == s[j]); j }
}
// ---- the name by which the project that is being expanded knows hooq (proc_macro_crate looks it up in the project's Cargo.toml)
pub enum FoundCrate { Itself, Name(String) }
pub uninterp spec fn crate_found(dir: Seq<char>, name: Seq<char>) -> Option<FoundCrate>;
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub open spec fn found_name(f: FoundCrate) -> Seq<char> { match f { FoundCrate::Itself => "hooq"@, FoundCrate::Name(n) => replaced(n@, "-"@, "_"@) } }
pub open spec fn hooq_crate(dir: Seq<char>) -> Seq<char> {
    match crate_found(dir, "hooq"@) { Some(f) => found_name(f), None => match crate_found(dir, "hooq-macros"@) { Some(f) => found_name(f), None => "hooq"@ } }
}
pub open spec fn helpers_text(dir: Seq<char>) -> Seq<char> { "::"@ + hooq_crate(dir) + (if hooq_crate(dir) == "hooq_macros"@ { ""@ } else { "::source_excerpt_helpers"@ }) }
/// a crate's name is an identifier, so that this is a path
pub broadcast axiom fn helpers_is_path(dir: Seq<char>) ensures sp_parse_str::<Path>(#[trigger] helpers_text(dir)) is Some;
pub open spec fn helpers_path(dir: Seq<char>) -> Path { sp_parse_str::<Path>(helpers_text(dir))->0 }
// ---- presets: the documented built-in flavors
/// the documented method of each; `excerpted_helpers_path` is where the project's hooq has its helper macros
pub open spec fn pt_default(excerpted_helpers_path: Path) -> TokenStream { $q{ .inspect_err(|e| { let path = $path; let line = $line; let col = $col; let expr = #excerpted_helpers_path ::excerpted_pretty_stringify!($source); ::std::eprintln!("[{path}:{line}:{col}] {e:?}\n{expr}"); }) } }
pub open spec fn pt_empty(excerpted_helpers_path: Path) -> TokenStream { $q{ $expr } }
pub open spec fn pt_hook(excerpted_helpers_path: Path) -> TokenStream { $q{ .hook(|| { $hooq_meta }) } }
pub open spec fn pt_log(excerpted_helpers_path: Path) -> TokenStream { $q{ .inspect_err(|e| { let path = $path; let line = $line; let col = $col; let expr = #excerpted_helpers_path ::excerpted_pretty_stringify!($source); let level = $level; ::log::log!(level, "({path}:{line}:{col}) {e}\n{expr}"); }) } }
pub open spec fn pt_anyhow(excerpted_helpers_path: Path) -> TokenStream { $q{ .with_context(|| { let path = $path; let line = $line; let col = $col; let expr = #excerpted_helpers_path ::excerpted_pretty_stringify!($source); format!("[{path}:{line}:{col}]\n{expr}") }) } }
pub open spec fn pt_eyre(excerpted_helpers_path: Path) -> TokenStream { $q{ .wrap_err_with(|| { let path = $path; let line = $line; let col = $col; let expr = #excerpted_helpers_path ::excerpted_pretty_stringify!($source); format!("[{path}:{line}:{col}]\n{expr}") }) } }
pub open spec fn pt_tracing(excerpted_helpers_path: Path) -> TokenStream { $q{ .inspect_err(|e| { let path = $path; let line = $line; let col = $col; let expr = #excerpted_helpers_path ::one_line_stringify!($source); ::tracing::event!( $level, path, line, col, error = %e, expr, ); }) } }
#[verifier::opaque]
pub open spec fn preset_tokens(n: Seq<char>, p: Path) -> TokenStream {
    if n == "default"@ { pt_default(p) } else if n == "empty"@ { pt_empty(p) } else if n == "hook"@ { pt_hook(p) } else if n == "log"@ { pt_log(p) }
    else if n == "anyhow"@ { pt_anyhow(p) } else if n == "eyre"@ { pt_eyre(p) } else { pt_tracing(p) }
}
pub open spec fn preset_method(n: Seq<char>) -> Method { method_spec(preset_tokens(n, helpers_path(mdir())))->0 }
/// they are methods
pub broadcast axiom fn presets_parse(n: Seq<char>, p: Path) ensures method_spec(#[trigger] preset_tokens(n, p)) is Some;
pub open spec fn strs(l: Seq<&'static str>) -> Vec<String> { vec_of(l.map_values(|s: &'static str| string_of(s@))) }
pub open spec fn one_str(a: Seq<char>) -> Vec<String> { vec_of(seq![string_of(a)]) }
pub open spec fn flavor_default() -> Flavor {
    Flavor {
        trait_uses: vec_of(Seq::empty()), method: preset_method("default"@),
        hook_targets: HookTargetSwitch { question: true, return_: true, tail_expr: true },
        tail_expr_idents: one_str("Err"@), ignore_tail_expr_idents: one_str("Ok"@), result_types: one_str("Result"@),
        hook_in_macros: true, bindings: map_of(Map::empty()), sub_flavors: map_of(Map::empty()),
    }
}
pub open spec fn flavor_empty() -> Flavor {
    Flavor {
        trait_uses: vec_of(Seq::empty()), method: preset_method("empty"@),
        hook_targets: HookTargetSwitch { question: false, return_: false, tail_expr: false },
        tail_expr_idents: vec_of(Seq::empty()), ignore_tail_expr_idents: vec_of(Seq::empty()), result_types: vec_of(Seq::empty()),
        hook_in_macros: false, bindings: map_of(Map::empty()), sub_flavors: map_of(Map::empty()),
    }
}
pub open spec fn flavor_hook() -> Flavor { Flavor { method: preset_method("hook"@), ..flavor_default() } }
pub open spec fn flavor_anyhow() -> Flavor { Flavor { trait_uses: vec_of(seq![parsed::<Path>($q{ ::anyhow::Context })]), method: preset_method("anyhow"@), ..flavor_default() } }
pub open spec fn flavor_eyre() -> Flavor { Flavor { trait_uses: vec_of(seq![parsed::<Path>($q{ ::eyre::ContextCompat }), parsed::<Path>($q{ ::eyre::WrapErr })]), method: preset_method("eyre"@), ..flavor_default() } }
pub open spec fn flavor_color_eyre() -> Flavor {
    Flavor { trait_uses: vec_of(seq![parsed::<Path>($q{ ::color_eyre::eyre::ContextCompat }), parsed::<Path>($q{ ::color_eyre::eyre::WrapErr })]), method: preset_method("eyre"@), ..flavor_default() }
}
pub open spec fn level_of(t: TokenStream) -> HashMap<String, Rc<Expr>> { map_of(Map::empty().insert(string_of("level"@), Rc::new(parsed::<Expr>(t)))) }
pub open spec fn level_flavor(m: Seq<char>, t: TokenStream) -> Flavor { Flavor { method: preset_method(m), bindings: level_of(t), ..flavor_default() } }
pub open spec fn level_flavors(m: Seq<char>, e: TokenStream, w: TokenStream, i: TokenStream, d: TokenStream, t: TokenStream) -> HashMap<String, Flavor> {
    map_of(Map::empty().insert(string_of("error"@), level_flavor(m, e)).insert(string_of("warn"@), level_flavor(m, w)).insert(string_of("info"@), level_flavor(m, i))
        .insert(string_of("debug"@), level_flavor(m, d)).insert(string_of("trace"@), level_flavor(m, t)))
}
pub open spec fn flavor_log() -> Flavor {
    Flavor { sub_flavors: level_flavors("log"@, $q{ ::log::Level::Error }, $q{ ::log::Level::Warn }, $q{ ::log::Level::Info }, $q{ ::log::Level::Debug }, $q{ ::log::Level::Trace }),
        ..level_flavor("log"@, $q{ ::log::Level::Error }) }
}
pub open spec fn flavor_tracing() -> Flavor {
    Flavor { sub_flavors: level_flavors("tracing"@, $q{ ::tracing::Level::ERROR }, $q{ ::tracing::Level::WARN }, $q{ ::tracing::Level::INFO }, $q{ ::tracing::Level::DEBUG }, $q{ ::tracing::Level::TRACE }),
        ..level_flavor("tracing"@, $q{ ::tracing::Level::ERROR }) }
}
/// all features on, as the crate's default features are
#[verifier::opaque]
pub open spec fn presets() -> Map<String, Flavor> {
    Map::empty().insert(string_of("default"@), flavor_default()).insert(string_of("empty"@), flavor_empty()).insert(string_of("hook"@), flavor_hook())
        .insert(string_of("log"@), flavor_log()).insert(string_of("anyhow"@), flavor_anyhow()).insert(string_of("eyre"@), flavor_eyre())
        .insert(string_of("color_eyre"@), flavor_color_eyre()).insert(string_of("tracing"@), flavor_tracing())
}
pub proof fn preset_names()
    ensures "default"@ != "empty"@, "default"@ != "hook"@, "default"@ != "log"@, "default"@ != "anyhow"@, "default"@ != "eyre"@, "default"@ != "tracing"@,
        "empty"@ != "hook"@, "empty"@ != "log"@, "empty"@ != "anyhow"@, "empty"@ != "eyre"@, "empty"@ != "tracing"@, "hook"@ != "log"@, "hook"@ != "anyhow"@, "hook"@ != "eyre"@,
        "hook"@ != "tracing"@, "log"@ != "anyhow"@, "log"@ != "eyre"@, "log"@ != "tracing"@, "anyhow"@ != "eyre"@, "anyhow"@ != "tracing"@, "eyre"@ != "tracing"@
{
    reveal_strlit("default"); reveal_strlit("empty"); reveal_strlit("hook"); reveal_strlit("log"); reveal_strlit("anyhow"); reveal_strlit("eyre"); reveal_strlit("tracing");
    assert("default"@.len() == 7 && "empty"@.len() == 5 && "hook"@.len() == 4 && "log"@.len() == 3 && "anyhow"@.len() == 6 && "eyre"@.len() == 4 && "tracing"@.len() == 7);
    assert("default"@[0] == 'd' && "tracing"@[0] == 't' && "hook"@[0] == 'h' && "eyre"@[0] == 'e');
}
// ---- the project's hooq.toml, when there is one
/// the environment, the file system and the toml parser, as they are during the compilation
pub uninterp spec fn env_var(k: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn path_of(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn path_join(p: Seq<char>, s: Seq<char>) -> Seq<char>;
/// None: there is no such file; Some(None): it cannot be read
pub uninterp spec fn file_at(p: Seq<char>) -> Option<Option<Seq<char>>>;
pub uninterp spec fn toml_parsed(t: Seq<char>) -> Option<HooqToml>;
/// the directory of the project the expansion belongs to
pub open spec fn mdir() -> Seq<char> { match env_var("CARGO_MANIFEST_DIR"@) { Some(s) => s, None => "."@ } }
pub open spec fn toml_text(dir: Seq<char>) -> Option<Option<Seq<char>>> { file_at(path_join(path_of(dir), "hooq.toml"@)) }
/// what the hooq.toml of a project says
pub open spec fn toml_of(dir: Seq<char>) -> Option<HooqToml> { match toml_text(dir) { Some(Some(t)) => toml_parsed(t), _ => None } }
pub open spec fn project_toml() -> Option<HooqToml> { toml_of(mdir()) }
pub open spec fn project_flavors() -> Option<Map<String, Flavor>> {
    match project_toml() { None => Some(presets()), Some(t) => sp_tables(presets(), t.flavors@, flavor_default()) }
}
/// every entry of the file can be used; a file that cannot be read, or holds something else, is refused
pub open spec fn toml_checked(t: HooqToml) -> bool { sp_tables(presets(), t.flavors@, flavor_default()) is Some }
pub open spec fn toml_bad() -> bool {
    match toml_text(mdir()) { None => false, Some(None) => true, Some(Some(t)) => match toml_parsed(t) { None => true, Some(h) => !toml_checked(h) } }
}
// ---- C20: the arguments of #[hooq(..)]
pub struct RootV { pub trait_uses: Seq<Path>, pub flavor: Option<Seq<String>> }
impl RootAttribute {
    pub open spec fn view(&self) -> RootV { RootV { trait_uses: self.trait_uses@, flavor: match self.flavor { Some(f) => Some(f.0@), None => None } } }
}
/// the single identifier a path is written as
pub uninterp spec fn path_is_ident(p: Path, s: Seq<char>) -> bool;
pub uninterp spec fn lit_str_value(l: LitStr) -> Seq<char>;
/// paths separated by commas
pub open spec fn paths_of(t: TokenStream) -> Option<Seq<Path>> { sp_take_list::<Path>(ts_seq(t), ","@) }
pub open spec fn fl_names(f: Option<FlavorPath>) -> Option<Seq<String>> { match f { Some(f) => Some(f.0@), None => None } }
pub open spec fn meta_list_spec(p: Path, t: TokenStream) -> Option<Seq<Path>> { if path_is_ident(p, "trait_use"@) || path_is_ident(p, "trait_uses"@) { paths_of(t) } else { None } }
pub open spec fn name_value_spec(n: MetaNameValue) -> Option<Seq<String>> {
    match n.value {
        Expr::Lit(l) => match l.lit { Lit::Str(s) => if path_is_ident(n.path, "flavor"@) { names_of_text(lit_str_value(s)) } else { None }, _ => None },
        _ => None,
    }
}
pub open spec fn root_step(v: RootV, m: Meta) -> Option<RootV> {
    match m {
        Meta::Path(p) => match names_of_path(p) { None => None, Some(n) => Some(RootV { flavor: if n.len() > 0 { Some(n) } else { v.flavor }, ..v }) },
        Meta::List(l) => match meta_list_spec(l.path, l.tokens) { None => None, Some(s) => Some(RootV { trait_uses: v.trait_uses + s, ..v }) },
        Meta::NameValue(n) => match name_value_spec(n) { None => None, Some(x) => Some(RootV { flavor: Some(x), ..v }) },
    }
}
pub open spec fn root_steps(s: Seq<Meta>) -> Option<RootV> decreases s.len() {
    if s.len() == 0 { Some(RootV { trait_uses: Seq::empty(), flavor: None }) }
    else { match root_steps(s.drop_last()) { None => None, Some(v) => root_step(v, s.last()) } }
}
pub proof fn root_none(l: Seq<Meta>, n: int)
    requires 0 <= n <= l.len(), root_steps(l.take(n)) is None
    ensures root_steps(l) is None
    decreases l.len() - n
{
    if n < l.len() { assert(l.take(n + 1).drop_last() =~= l.take(n)); root_none(l, n + 1); } else { assert(l.take(n) =~= l); }
}
/// what #[hooq(ARGS)] asks for
pub open spec fn sp_root(s: Seq<TokenTree>) -> Option<RootV> {
    match sp_take_list::<Meta>(s, ","@) { None => None, Some(l) => root_steps(l) }
}
pub open spec fn flavor_names(v: RootV) -> Seq<String> { match v.flavor { Some(n) => n, None => seq![string_of("default"@)] } }
/// settings that hold for the item: the flavor's, and the imports of the arguments before those of the flavor
pub open spec fn root_matches(rc: RootContext, v: RootV, fl: Map<String, Flavor>) -> bool {
    match fl_lookup(fl, flavor_names(v)) {
        None => false,
        Some(f) => rc.trait_uses@ == v.trait_uses + f.trait_uses@ && rc.method == f.method && rc.hook_targets == f.hook_targets
            && rc.tail_expr_idents@ == f.tail_expr_idents@ && rc.ignore_tail_expr_idents@ == f.ignore_tail_expr_idents@
            && rc.result_types@ == f.result_types@ && rc.hook_in_macros == f.hook_in_macros && rc.bindings@ == f.bindings@,
    }
}
/// one import for each path, in order
pub open spec fn imports(l: Seq<Path>) -> TokenStream decreases l.len() {
    if l.len() == 0 { ts_empty_spec() } else { ts_cat_spec(imports(l.drop_last()), import_of(l.last())) }
}
pub open spec fn import_of(p: Path) -> TokenStream { $q{ # [allow(unused)] use #p as _; } }
