//@include prelude.vspec
//@path RefCell::new v_new_cell
//@world v_new_cell
// ---------------------------------------------------------------------------------------------
// Contexts: what is in force at a place (C02 C04 C05 C07 C17)
// ---------------------------------------------------------------------------------------------
//@ty inert_attr/context.rs HookTargetKind Counter LocalContextField SkipStatus HookTargetSwitch LocalContext HookContext HookInfo
//@ty inert_attr/mod.rs InertAttribute
//@ty method/mod.rs Method
//@ty utils/function_info.rs ClosureInfo FunctionInfo
//@ty root_attr/mod.rs RootContext
//@synty Path PathSegment ReturnType
//@synty Type TypePath ExprClosure Signature
//@method deref v_as_ref
pub struct FnV { pub cur: Option<FunctionInfo>, pub near: Option<Seq<char>> }
/// everything that is in force at one place of the code
pub struct CtxV {
    pub cid: int,
    pub methods: Seq<Method>,          // innermost first; [1..] are the methods it overrides
    pub targets: HookTargetSwitch,
    pub tails: Seq<String>,
    pub ignores: Seq<String>,
    pub rtypes: Seq<String>,
    pub in_macros: bool,
    pub binds: Map<String, Rc<Expr>>,
    pub skip: Option<SkipStatus>,
    pub fns: FnV,
}
pub open spec fn chain(l: LocalContextField<Method>) -> Seq<Method> decreases l {
    match l.overridden_ancestor {
        Some(p) => seq![*l.val] + chain(*p),
        None => seq![*l.val],
    }
}
/// name of the nearest enclosing function, closures passed over (C17)
pub open spec fn fn_near(l: LocalContextField<Option<FunctionInfo>>) -> Option<Seq<char>> decreases l {
    match *l.val {
        Some(FunctionInfo::Function(sig)) => Some(ident_str(sig.ident)),
        _ => match l.overridden_ancestor { Some(p) => fn_near(*p), None => None },
    }
}
pub open spec fn fns_of(l: LocalContextField<Option<FunctionInfo>>) -> FnV { FnV { cur: *l.val, near: fn_near(l) } }
impl HookContext {
    pub open spec fn view(&self) -> CtxV {
        let l = self.local_context;
        CtxV {
            cid: cell_id(*self.counter),
            methods: chain(*l.method),
            targets: *l.hook_targets.val,
            tails: l.tail_expr_idents.val@,
            ignores: l.ignore_tail_expr_idents.val@,
            rtypes: l.result_types.val@,
            in_macros: *l.hook_in_macros.val,
            binds: l.bindings.val@,
            skip: *l.skip_status.val,
            fns: fns_of(*l.fn_info),
        }
    }
}
// ---- the rules -------------------------------------------------------------------------------
pub open spec fn over<T>(new: Option<T>, old: T) -> T { match new { Some(x) => x, None => old } }
/// C04: under skip_all nothing changes the status any more; otherwise what the attributes say
pub open spec fn upd_skip(outer: Option<SkipStatus>, ia: InertAttribute) -> Option<SkipStatus> {
    if outer == Some(SkipStatus::SkipAll) { outer }
    else if ia.is_skipped_all { Some(SkipStatus::SkipAll) }
    else if ia.is_skipped { Some(SkipStatus::SkipSameScope) }
    else { outer }
}
/// C05: a written setting is in force from here on, an unwritten one is inherited; bindings merge by name
pub open spec fn upd_ctx(c: CtxV, ia: InertAttribute) -> CtxV {
    CtxV {
        methods: match ia.method { Some(m) => seq![m] + c.methods, None => c.methods },
        targets: over(ia.hook_targets, c.targets),
        tails: match ia.tail_expr_idents { Some(v) => v@, None => c.tails },
        ignores: match ia.ignore_tail_expr_idents { Some(v) => v@, None => c.ignores },
        rtypes: match ia.result_types { Some(v) => v@, None => c.rtypes },
        in_macros: over(ia.hook_in_macros, c.in_macros),
        binds: c.binds.union_prefer_right(ia.bindings@.map_values(|e: Expr| Rc::new(e))),
        skip: upd_skip(c.skip, ia),
        ..c
    }
}
/// C04: entering a nested scope ends skip but not skip_all
pub open spec fn sub_ctx(c: CtxV) -> CtxV {
    CtxV { skip: if c.skip == Some(SkipStatus::SkipAll) { c.skip } else { None }, ..c }
}
pub open spec fn fn_ctx(c: CtxV, sig: Signature) -> CtxV {
    CtxV { fns: FnV { cur: Some(FunctionInfo::Function(sig)), near: Some(ident_str(sig.ident)) }, ..c }
}
pub open spec fn closure_name(near: Option<Seq<char>>) -> Seq<char> {
    "__closure_in_"@ + (match near { Some(n) => n, None => "<unknown>"@ }) + "__"@
}
pub open spec fn empty_block() -> Expr { parsed::<Expr>(ts_group_spec("{"@, ts_empty_spec())) }
pub open spec fn closure_info(e: ExprClosure, near: Option<Seq<char>>) -> ClosureInfo {
    ClosureInfo { expr: ExprClosure { body: Box::new(empty_block()), ..e }, name: string_of(closure_name(near)) }
}
pub open spec fn closure_ctx(c: CtxV, e: ExprClosure) -> CtxV {
    CtxV { fns: FnV { cur: Some(FunctionInfo::Closure(closure_info(e, c.fns.near))), near: c.fns.near }, ..c }
}
pub open spec fn path_ends(p: Path, s: Seq<char>) -> bool {
    p.segments.items@.len() > 0 && ident_str(p.segments.items@.last().ident) == s
}
pub open spec fn any_ends(p: Path, l: Seq<String>) -> bool { exists|i: int| 0 <= i < l.len() && path_ends(p, #[trigger] l[i]@) }
pub open spec fn rt_is(rt: ReturnType, l: Seq<String>) -> bool {
    match rt { ReturnType::Type(_, t) => match *t { Type::Path(tp) => any_ends(tp.path, l), _ => false }, _ => false }
}
pub open spec fn fi_output(f: FunctionInfo) -> ReturnType {
    match f { FunctionInfo::Function(s) => s.output, FunctionInfo::Closure(c) => c.expr.output }
}
pub open spec fn fi_name(f: FunctionInfo) -> Seq<char> {
    match f { FunctionInfo::Function(s) => ident_str(s.ident), FunctionInfo::Closure(c) => c.name@ }
}
pub open spec fn fi_sig(f: FunctionInfo) -> Seq<char> {
    match f { FunctionInfo::Function(s) => ts_string(tokens_of(s)), FunctionInfo::Closure(c) => ts_string(tokens_of(c.expr)) }
}
pub open spec fn ctx_rt_is(c: CtxV) -> bool { match c.fns.cur { Some(f) => rt_is(fi_output(f), c.rtypes), None => false } }
pub open spec fn enabled(c: CtxV, k: HookTargetKind) -> bool {
    match k { HookTargetKind::Question => c.targets.question, HookTargetKind::Return => c.targets.return_, HookTargetKind::TailExpr => c.targets.tail_expr }
}
pub open spec fn count_of(c: Counter, k: HookTargetKind) -> int {
    match k { HookTargetKind::Question => c.question as int, HookTargetKind::Return => c.return_ as int, HookTargetKind::TailExpr => c.tail_expr as int }
}
pub open spec fn counted(c: Counter, k: HookTargetKind) -> Counter {
    match k {
        HookTargetKind::Question => Counter { question: (c.question + 1) as usize, ..c },
        HookTargetKind::Return => Counter { return_: (c.return_ + 1) as usize, ..c },
        HookTargetKind::TailExpr => Counter { tail_expr: (c.tail_expr + 1) as usize, ..c },
    }
}
// ---- the world of counters ---------------------------------------------------------------------
impl World { pub uninterp spec fn view(&self) -> Map<int, Counter>; }
#[verifier::external_body]
pub fn v_new_cell(x: Counter, w: &mut World) -> (r: VRefCell<Counter>)
    ensures final(w)@ == old(w)@.insert(cell_id(r), x), !old(w)@.contains_key(cell_id(r))
{ unimplemented!() }
impl World {
    /// fewer than usize::MAX targets of one kind are processed
    #[verifier::external_body]
    pub fn v_borrow_mut(&mut self, c: &VRefCell<Counter>) -> (r: &mut Counter)
        ensures *r == old(self)@[cell_id(*c)], final(self)@ == old(self)@.insert(cell_id(*c), *final(r)),
            r.question < usize::MAX, r.return_ < usize::MAX, r.tail_expr < usize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_borrow(&self, c: &VRefCell<Counter>) -> (r: &Counter) ensures *r == self@[cell_id(*c)] { unimplemented!() }
}
// ---- functions -----------------------------------------------------------------------------------
//@fn inert_attr/context.rs HookTargetKind::fmt@Display owners=C07 name=kind_fmt
    ensures r is Ok ==> fmt_out(*final(f)) == fmt_out(*old(f)) + kind_name(*self)
//@prologue

    assert forall|a: Seq<char>, b: Seq<char>| a + (Seq::<char>::empty() + b) == #[trigger] (a + b) by { assert(a + (Seq::<char>::empty() + b) =~= a + b); }
    assert(Seq::<char>::empty() + "?"@ =~= "?"@); assert(Seq::<char>::empty() + "return"@ =~= "return"@); assert(Seq::<char>::empty() + "tail expr"@ =~= "tail expr"@);
//@end
pub open spec fn kind_name(k: HookTargetKind) -> Seq<char> {
    match k { HookTargetKind::Question => "?"@, HookTargetKind::Return => "return"@, HookTargetKind::TailExpr => "tail expr"@ }
}
impl VToString for HookTargetKind { open spec fn str_spec(&self) -> Seq<char> { kind_name(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
//@fn inert_attr/context.rs Counter::new owners=C07
    ensures r == (Counter { question: 0, return_: 0, tail_expr: 0 })
//@end
//@fn inert_attr/context.rs Counter::count_up owners=C07
    requires old(self).question < usize::MAX, old(self).return_ < usize::MAX, old(self).tail_expr < usize::MAX
    ensures *final(self) == counted(*old(self), kind)
//@end
//@fn inert_attr/context.rs Counter::get_count owners=C07
    ensures r == count_of(*self, kind)
//@end
//@fn inert_attr/context.rs LocalContextField::new owners=C05
    ensures *r.val == val, r.overridden_ancestor is None
//@end
//@fn inert_attr/context.rs LocalContextField::from_parent owners=C05,C09
    ensures val is None ==> r == *parent,
        val is Some ==> *r.val == val->0 && r.overridden_ancestor == Some(*parent)
//@end
//@fn inert_attr/context.rs LocalContextField::get_overridden_ancestor owners=C09
    ensures r == self.overridden_ancestor
//@end
//@fn inert_attr/context.rs LocalContextField::deref@Deref owners=C05 asimpl
    ensures *r == *self.val
//@end
//@fn inert_attr/context.rs LocalContextField<HashMap<K,Rc<V>>>::merged_from_parent owners=C05
    ensures r.val@ =~= parent.val@.union_prefer_right(new_map@)
//@prologue
    broadcast use map_entries_map;
    assert(new_map@ =~= Map::empty() ==> parent.val@.union_prefer_right(new_map@) =~= parent.val@);
//@loop 0
    invariant
        $v@ == map_entries(*parent.val), $i <= $v@.len(), $acc@.len() == $i,
        forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == $v@[j],
    decreases $v@.len() - $i
end:
    assert($acc@ =~= $v@);
//@end
//@fn inert_attr/mod.rs InertAttribute::get_skip_status owners=C04
    ensures r == (if self.is_skipped_all { Some(SkipStatus::SkipAll) } else if self.is_skipped { Some(SkipStatus::SkipSameScope) } else { None })
//@end
//@fn inert_attr/context.rs HookContext::new owners=C05,C07
    ensures
        r@ == root_ctx(cell_id(*r.counter), __p0),
        final(w)@ == old(w)@.insert(r@.cid, Counter { question: 0, return_: 0, tail_expr: 0 }),
        !old(w)@.contains_key(r@.cid)
//@end
pub open spec fn root_ctx(cid: int, r: RootContext) -> CtxV {
    CtxV {
        cid, methods: seq![r.method], targets: r.hook_targets, tails: r.tail_expr_idents@, ignores: r.ignore_tail_expr_idents@,
        rtypes: r.result_types@, in_macros: r.hook_in_macros, binds: r.bindings@, skip: None, fns: FnV { cur: None, near: None },
    }
}
//@world HookContext::new
//@fn inert_attr/context.rs HookContext::updated_by_inert_attr owners=C04,C05,C09
    ensures r@ == upd_ctx(parent_context@, inert_attr)
//@loop 0
    invariant
        $v@ == map_entries(inert_attr.bindings), $i <= $v@.len(), $acc@.len() == $i,
        forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == ($v@[j].0, Rc::new($v@[j].1)),
    decreases $v@.len() - $i
end:
    proof { pairs_map_values($v@, $acc@, |e: Expr| Rc::new(e)); }
//@end
//@fn inert_attr/context.rs HookContext::as_hook_info owners=C07
    ensures r == (HookInfo { source_tokenstream, kind, hook_context: self })
//@end
//@fn inert_attr/context.rs HookContext::for_sub_scope_context owners=C04
    ensures r@ == sub_ctx(self@)
//@end
//@fn inert_attr/context.rs HookContext::update_fn_info owners=C17
    ensures final(self)@ == (CtxV { fns: FnV { cur: Some(function_info), near: match function_info {
        FunctionInfo::Function(s) => Some(ident_str(s.ident)), _ => old(self)@.fns.near } }, ..old(self)@ })
//@end
//@fn inert_attr/context.rs HookContext::is_skipped owners=C04
    ensures r == (self@.skip is Some)
//@end
//@fn inert_attr/context.rs HookContext::hook_in_macros owners=C11
    ensures r == self@.in_macros
//@end
//@fn utils/mod.rs path_is_end_of owners=C02 veq
    ensures r == path_ends(*path, target@)
//@end
//@fn inert_attr/context.rs HookContext::path_is_hook_call_like_err owners=C02
    ensures r == any_ends(*path, self@.tails)
//@loop 0
    invariant $v@ == self@.tails, $i <= $v@.len(), !$acc ==> forall|j: int| 0 <= j < $i ==> !path_ends(*path, #[trigger] $v@[j]@),
        $acc ==> exists|j: int| 0 <= j < $v@.len() && path_ends(*path, #[trigger] $v@[j]@),
    decreases $v@.len() - $i
//@end
//@fn inert_attr/context.rs HookContext::path_is_not_hook_call_like_ok owners=C02
    ensures r == any_ends(*path, self@.ignores)
//@loop 0
    invariant $v@ == self@.ignores, $i <= $v@.len(), !$acc ==> forall|j: int| 0 <= j < $i ==> !path_ends(*path, #[trigger] $v@[j]@),
        $acc ==> exists|j: int| 0 <= j < $v@.len() && path_ends(*path, #[trigger] $v@[j]@),
    decreases $v@.len() - $i
//@end
//@fn utils/function_info.rs return_type_is_result_inner owners=C02
    ensures r == rt_is(*rt, result_types@)
//@loop 0
    invariant $v@ == result_types@, $i <= $v@.len(), !$acc ==> forall|j: int| 0 <= j < $i ==> !path_ends(*path, #[trigger] $v@[j]@),
        $acc ==> exists|j: int| 0 <= j < $v@.len() && path_ends(*path, #[trigger] $v@[j]@),
    decreases $v@.len() - $i
//@end
//@fn utils/function_info.rs FunctionInfo::return_type_is_result owners=C02
    ensures r == rt_is(fi_output(*self), result_types@)
//@end
//@fn utils/function_info.rs FunctionInfo::name owners=C17
    ensures r@ == fi_name(*self)
//@end
//@fn utils/function_info.rs FunctionInfo::sig owners=C17
    ensures r@ == fi_sig(*self)
//@end
//@fn inert_attr/context.rs HookContext::return_type_is_result owners=C02
    ensures r == ctx_rt_is(self@)
//@end
//@fn inert_attr/context.rs HookContext::get_overridden_ancestor_of_method owners=C09
    ensures match r { Some(a) => self@.methods =~= seq![self@.methods[0]] + chain(*a), None => self@.methods.len() == 1 }
//@end
//@fn utils/function_info.rs ClosureInfo::new owners=C17
    ensures r == closure_info(expr, fn_near(*current))
//@loop 0
    invariant
        ancestor_function_name is Some ==> fn_near(*current) == Some(ancestor_function_name->0@),
        ancestor_function_name is None ==> fn_near(*current) == fn_near(*ptr) && !(*ptr.val matches Some(FunctionInfo::Function(_))),
//@end
//@fn inert_attr/context.rs HookInfo::counter owners=C07
    ensures r == self.hook_context.counter
//@end
//@fn inert_attr/context.rs HookInfo::fn_info owners=C17
    ensures r is Some <==> self.hook_context@.fns.cur is Some, r is Some ==> *r->0 == self.hook_context@.fns.cur->0
//@end
//@fn inert_attr/context.rs HookInfo::method owners=C05
    ensures *r == self.hook_context@.methods[0]
//@end
//@fn inert_attr/context.rs HookInfo::is_hook_target owners=C01,C02
    ensures r == enabled(self.hook_context@, self.kind)
//@end
//@fn inert_attr/context.rs HookInfo::available_bindings owners=C08
    ensures r@ == sorted_entries(self.hook_context@.binds)
//@loop 0
    invariant
        $v@ == map_entries(*self.hook_context.local_context.bindings.val), $i <= $v@.len(), $acc@.len() == $i,
        forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == $v@[j],
    decreases $v@.len() - $i
end:
    assert($acc@ =~= $v@);
//@prologue
    broadcast use {map_entries_map, map_entries_nodup};
//@end
//@fn inert_attr/context.rs HookInfo::get_binding owners=C08
    ensures r is Some <==> self.hook_context@.binds.contains_key(string_of(key@)),
        r is Some ==> *r->0 == *self.hook_context@.binds[string_of(key@)]
//@end
/// the entries of a map in the order of their keys
pub uninterp spec fn sorted_entries<V>(m: Map<String, V>) -> Seq<(String, V)>;
pub trait VSort<V> { fn v_sort_by_key0(&mut self); }
impl<V> VSort<V> for Vec<(String, V)> {
    #[verifier::external_body]
    fn v_sort_by_key0(&mut self)
        ensures (forall|i: int, j: int| 0 <= i < j < old(self)@.len() ==> old(self)@[i].0 != old(self)@[j].0)
            ==> final(self)@ == sorted_entries(pairs_map(old(self)@))
    { unimplemented!() }
}
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(string_of(k@)), r is Some ==> *r->0 == self@[string_of(k@)]
    { unimplemented!() }
}
//@fn utils/function_info.rs FunctionInfo::from@From<ClosureInfo> owners=C17
    ensures r == FunctionInfo::Closure(value)
//@end
impl VInto<FunctionInfo> for ClosureInfo {
    open spec fn into_spec(self) -> FunctionInfo { FunctionInfo::Closure(self) }
    fn v_into(self) -> (r: FunctionInfo) { FunctionInfo::from(self) }
}
