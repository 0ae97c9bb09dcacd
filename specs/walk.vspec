//@assume ctx.vspec
//@include render_spec.vspec
//@include walk_spec.vspec
//@path syn::parse2 v_parse2
//@broadcast unf_sp_block unf_sp_opt unf_sp_optpair
//@world walk_expr walk_stmt walk_item walk_macro handle_tail_expr hook_expr handle_token_stream HookInfo::render_expr_with_method
//@looptemplate text ImplItem::
    invariant
        $i <= $v@.len(), $v@.len() == $v0@.len(),
        forall|j: int| $i <= j < $v@.len() ==> #[trigger] $v@[j] == $v0@[j],
        sp_impl_items($v0, $a(handle_inert_attrs,1)@, 0, Seq::empty(), $w0) == sp_impl_items($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@),
    decreases $v@.len() - $i
ghost:
    let ghost $v0 = *$v; let ghost $w0 = w@;
    assert($v@.subrange(0, 0) =~= Seq::empty());
    let ghost mut __pre = $v@;
top:
    proof { __pre = $v@; unf_sp_impl_items($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@); unf_sp_impl_item($v0@[$i as int], $a(handle_inert_attrs,1)@, w@); }
bot:
    proof { assert($v@.subrange(0, $i as int) =~= __pre.subrange(0, $i - 1).push($v@[$i - 1])); }
end:
    proof { unf_sp_impl_items($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@); assert($v@.subrange(0, $i as int) =~= $v@); }
//@end
//@looptemplate text TraitItem::
    invariant
        $i <= $v@.len(), $v@.len() == $v0@.len(),
        forall|j: int| $i <= j < $v@.len() ==> #[trigger] $v@[j] == $v0@[j],
        sp_trait_items($v0, $a(handle_inert_attrs,1)@, 0, Seq::empty(), $w0) == sp_trait_items($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@),
    decreases $v@.len() - $i
ghost:
    let ghost $v0 = *$v; let ghost $w0 = w@;
    assert($v@.subrange(0, 0) =~= Seq::empty());
    let ghost mut __pre = $v@;
top:
    proof { __pre = $v@; unf_sp_trait_items($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@); unf_sp_trait_item($v0@[$i as int], $a(handle_inert_attrs,1)@, w@); }
bot:
    proof { assert($v@.subrange(0, $i as int) =~= __pre.subrange(0, $i - 1).push($v@[$i - 1])); }
end:
    proof { unf_sp_trait_items($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@); assert($v@.subrange(0, $i as int) =~= $v@); }
//@end
//@looptemplate text .guard
    invariant
        $i <= $v@.len(), $v@.len() == $v0@.len(),
        forall|j: int| $i <= j < $v@.len() ==> #[trigger] $v@[j] == $v0@[j],
        sp_arms($v0, $a(handle_inert_attrs,1)@, 0, Seq::empty(), $w0) == sp_arms($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@),
    decreases $v@.len() - $i
ghost:
    let ghost $v0 = *$v; let ghost $w0 = w@;
    assert($v@.subrange(0, 0) =~= Seq::empty());
    let ghost mut __pre = $v@;
top:
    proof { __pre = $v@; unf_sp_arms($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@); unf_sp_arm($v0@[$i as int], $a(handle_inert_attrs,1)@, w@); }
bot:
    proof { assert($v@.subrange(0, $i as int) =~= __pre.subrange(0, $i - 1).push($v@[$i - 1])); }
end:
    proof { unf_sp_arms($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@); assert($v@.subrange(0, $i as int) =~= $v@); }
//@end
//@looptemplate call handle_inert_attrs
    invariant
        $i <= $v@.len(), $v@.len() == $v0@.len(),
        forall|j: int| $i <= j < $v@.len() ==> #[trigger] $v@[j] == $v0@[j],
        sp_fields($v0, $a(handle_inert_attrs,1)@, 0, Seq::empty(), $w0) == sp_fields($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@),
    decreases $v@.len() - $i
ghost:
    let ghost $v0 = *$v; let ghost $w0 = w@;
    assert($v@.subrange(0, 0) =~= Seq::empty());
    let ghost mut __pre = $v@;
top:
    proof { __pre = $v@; unf_sp_fields($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@); unf_sp_field($v0@[$i as int], $a(handle_inert_attrs,1)@, w@); }
bot:
    proof { assert($v@.subrange(0, $i as int) =~= __pre.subrange(0, $i - 1).push($v@[$i - 1])); }
end:
    proof { unf_sp_fields($v0, $a(handle_inert_attrs,1)@, $i as nat, $v@.subrange(0, $i as int), w@); assert($v@.subrange(0, $i as int) =~= $v@); }
//@end
//@looptemplate call walk_stmt
    invariant
        $i <= $v@.len(), $v@.len() == $v0@.len(),
        forall|j: int| $i <= j < $v@.len() ==> #[trigger] $v@[j] == $v0@[j],
        sp_stmts($v0, $tail, $a(walk_stmt,2)@, 0, Seq::empty(), $w0) == sp_stmts($v0, $tail, $a(walk_stmt,2)@, $i as nat, $v@.subrange(0, $i as int), w@),
    decreases $v@.len() - $i
ghost:
    let ghost $v0 = *$v; let ghost $w0 = w@;
    assert($v@.subrange(0, 0) =~= Seq::empty());
    let ghost mut __pre = $v@;
top:
    proof { __pre = $v@; unf_sp_stmts($v0, $tail, $a(walk_stmt,2)@, $i as nat, $v@.subrange(0, $i as int), w@); }
bot:
    proof { assert($v@.subrange(0, $i as int) =~= __pre.subrange(0, $i - 1).push($v@[$i - 1])); }
end:
    proof { unf_sp_stmts($v0, $tail, $a(walk_stmt,2)@, $i as nat, $v@.subrange(0, $i as int), w@); assert($v@.subrange(0, $i as int) =~= $v@); }
//@end
//@looptemplate call walk_item
    invariant
        $i <= $v@.len(), $v@.len() == $v0@.len(),
        forall|j: int| $i <= j < $v@.len() ==> #[trigger] $v@[j] == $v0@[j],
        sp_items($v0, $a(walk_item,1)@, 0, Seq::empty(), $w0) == sp_items($v0, $a(walk_item,1)@, $i as nat, $v@.subrange(0, $i as int), w@),
    decreases $v@.len() - $i
ghost:
    let ghost $v0 = *$v; let ghost $w0 = w@;
    assert($v@.subrange(0, 0) =~= Seq::empty());
    let ghost mut __pre = $v@;
top:
    proof { __pre = $v@; unf_sp_items($v0, $a(walk_item,1)@, $i as nat, $v@.subrange(0, $i as int), w@); }
bot:
    proof { assert($v@.subrange(0, $i as int) =~= __pre.subrange(0, $i - 1).push($v@[$i - 1])); }
end:
    proof { unf_sp_items($v0, $a(walk_item,1)@, $i as nat, $v@.subrange(0, $i as int), w@); assert($v@.subrange(0, $i as int) =~= $v@); }
//@end
//@looptemplate call walk_expr
    invariant
        $i <= $v@.len(), $v@.len() == $v0@.len(),
        forall|j: int| $i <= j < $v@.len() ==> #[trigger] $v@[j] == $v0@[j],
        sp_exprs($v0, $a(walk_expr,1)@, 0, Seq::empty(), $w0) == sp_exprs($v0, $a(walk_expr,1)@, $i as nat, $v@.subrange(0, $i as int), w@),
    decreases $v@.len() - $i
ghost:
    let ghost $v0 = *$v; let ghost $w0 = w@;
    assert($v@.subrange(0, 0) =~= Seq::empty());
    let ghost mut __pre = $v@;
top:
    proof { __pre = $v@; unf_sp_exprs($v0, $a(walk_expr,1)@, $i as nat, $v@.subrange(0, $i as int), w@); }
bot:
    proof { assert($v@.subrange(0, $i as int) =~= __pre.subrange(0, $i - 1).push($v@[$i - 1])); }
end:
    proof { unf_sp_exprs($v0, $a(walk_expr,1)@, $i as nat, $v@.subrange(0, $i as int), w@); assert($v@.subrange(0, $i as int) =~= $v@); }
//@end

//@fn inert_attr/parse.rs extract_hooq_info_from_attrs assume
    ensures r is Ok ==> ext(*old(attrs)) == Some((*final(attrs), r->Ok_0)), r is Err ==> ext(*old(attrs)) is None
//@end
//@fn method/render/mod.rs HookInfo::render_expr_with_method assume
    ensures *final(w) == *old(w),
        r is Ok ==> sp_render(self.hook_context@, *old(expr), self.source_tokenstream, self.kind, q_span, old(w)@[self.hook_context@.cid])
            == Some((*final(expr), r->Ok_0 is Some)),
        r is Err ==> sp_render(self.hook_context@, *old(expr), self.source_tokenstream, self.kind, q_span, old(w)@[self.hook_context@.cid]) is None
//@end
//@fn inert_attr/mod.rs handle_inert_attrs owners=C03,C04,C05
    ensures
        r is Ok ==> sp_attrs(*old(attrs), context@) == Some((*final(attrs), r->Ok_0.new_context@)) && r->Ok_0.is_skipped == (r->Ok_0.new_context@.skip is Some),
        r is Err ==> sp_attrs(*old(attrs), context@) is None,
//@end
//@fn utils/get_attrs.rs get_attrs_from_expr owners=C03,C05
    ensures
        r is None <==> attrs_of(*old(expr)) is None,
        r is None ==> *final(expr) == *old(expr),
        r is Some ==> attrs_of(*old(expr)) == Some(*r->0) && *final(expr) == with_attrs(*old(expr), *final(r->0)),
//@prologue
    reveal(attrs_of); reveal(with_attrs);
//@end
//@fn walker/mod.rs TailExprTargetKind::is_target owners=C02
    ensures r == (*self != TailExprTargetKind::NotTarget)
//@end
//@fn walker/mod.rs target_call_check_bools owners=C02
    ensures r.is_target_call == err_like(*expr, context@), r.is_not_target_call == ok_like(*expr, context@)
//@end
//@fn walker/hook_expr.rs hook_expr owners=C01,C02,C04,C07
    requires apply == (context@.skip is None)
    ensures
        r is Ok ==> match sp_hook(*old(expr_field), source_tokenstream, kind, q_span, context@, old(w)@) {
            Some((e, consumed, k)) => e == *final(expr_field) && k == final(w)@ && consumed == (r->Ok_0 is Some), None => false },
        r is Err ==> sp_hook(*old(expr_field), source_tokenstream, kind, q_span, context@, old(w)@) is None,
//@end
//@fn walker/mod.rs handle_tail_expr owners=C02,C05
    ensures
        r is Ok ==> sp_tail(*old(expr), tail_expr_target_kind, context@, old(w)@) == Some((*final(expr), final(w)@)),
        r is Err ==> sp_tail(*old(expr), tail_expr_target_kind, context@, old(w)@) is None,
//@prologue
    proof { unf_sp_tail(*expr, tail_expr_target_kind, context@, w@); tail_attrs(*expr, context@, w@); }
//@end
//@fn walker/mod.rs walk_stmt owners=C01,C02,C03,C04,C05
    ensures
        r is Ok ==> sp_stmt(*old(stmt), tail_expr_target_kind, context@, old(w)@) == Some((*final(stmt), final(w)@)),
        r is Err ==> sp_stmt(*old(stmt), tail_expr_target_kind, context@, old(w)@) is None,
//@prologue
    proof { unf_sp_stmt(*stmt, tail_expr_target_kind, context@, w@); }
//@end
//@fn walker/mod.rs walk_item owners=C01,C02,C03,C04,C05,C17 split
    ensures
        r is Ok ==> sp_item(*old(item), context@, old(w)@) == Some((*final(item), final(w)@)),
        r is Err ==> sp_item(*old(item), context@, old(w)@) is None,
//@prologue
    proof { unf_sp_item(*item, context@, w@); }
//@end
//@fn walker/mod.rs walk_expr owners=C01,C02,C03,C04,C05,C17 split
    ensures
        r is Ok ==> sp_expr(*old(expr), context@, old(w)@) == Some((*final(expr), final(w)@)),
        r is Err ==> sp_expr(*old(expr), context@, old(w)@) is None,
//@prologue
    proof { unf_$arm(*expr, context@, w@); }
//@end
//@fn walker/walk_macro.rs walk_macro owners=C11,C03
    ensures
        r is Ok ==> sp_macro_at(*old(attrs), *old(mac), context@, old(w)@) == Some((*final(attrs), *final(mac), final(w)@)),
        r is Err ==> sp_macro_at(*old(attrs), *old(mac), context@, old(w)@) is None,
//@end
//@include macro_spec.vspec
//@fn walker/walk_macro.rs Evaluable::parse@Parse owners=C11
    ensures match sp_ev(rest_of(*old(input))) { None => r is Err, Some((e, t)) => r is Ok && r->Ok_0 == e && rest_of(*final(input)) == t }
//@prologue
    proof { reveal_strlit(";"); reveal_strlit(","); }
//@end
//@fn walker/walk_macro.rs EvaluableList::parse@Parse owners=C11 bc=take_ev,take_shrinks attr=allow_complex_invariants
    ensures match sp_evs(rest_of(*old(input))) { None => r is Err, Some(l) => r is Ok && r->Ok_0.0@ == l }
//@prologue
    let ghost __s0 = rest_of(*input);
    proof { reveal_strlit(";"); reveal_strlit(","); }
//@loop 0
    invariant
        match (sp_evs(__s0), sp_evs(rest_of(*input))) { (None, None) => true, (Some(a), Some(b)) => a =~= res@ + b, _ => false },
    decreases rest_of(*input).len()
top:
    proof { reveal_strlit(";"); reveal_strlit(","); }
//@end
//@fn walker/walk_macro.rs handle_token_stream owners=C11 bc=parse2_evs,vec_of_inv,vec_of_view,tokens_of_ts,ts_cat_empty,ts_cat_empty2
    ensures
        r is Ok ==> sp_mactok(*token_stream, context@, old(w)@) == Some((r->Ok_0, final(w)@)),
        r is Err ==> sp_mactok(*token_stream, context@, old(w)@) is None,
//@prologue
    proof { unf_mactok(*token_stream, context@, w@); }
    let ghost __w0 = w@; let ghost __evs = sp_evs(ts_seq(*token_stream));
//@loop 0
    invariant
        __evs == Some($v@), $i <= $v@.len(), sp_pieces($v@.take($i as int), context@, __w0) == Some(($acc@, w@)),
        sp_mactok(*token_stream, context@, __w0) == (match sp_pieces($v@, context@, __w0) { None => None, Some((a, k1)) => Some((Some(ts_flat(a)), k1)) }),
    decreases $v@.len() - $i
ghost:
    assert($v@.take(0) =~= Seq::empty());
top:
    let ghost __ap = $acc@;
    proof { assert($v@.take($i + 1).drop_last() =~= $v@.take($i as int)); assert($v@.take($i + 1).last() == $v@[$i as int]);
        if sp_piece($v@[$i as int].0, context@, w@) is None { pieces_none($v@, $i + 1, context@, __w0); } }
end:
    assert($v@.take($i as int) =~= $v@);
//@loop 1
    invariant
        $i <= $v@.len(), __vi == $v, toks(__its) =~= $acc@, sp_items(__vi, context@, 0, Seq::empty(), __wi) == sp_items(__vi, context@, $i as nat, __its, w@),
    decreases $v@.len() - $i
ghost:
    let ghost __vi = $v; let ghost __wi = w@; let ghost mut __its = Seq::<Item>::empty();
top:
    let ghost __wp = w@;
    proof { unf_sp_items(__vi, context@, $i as nat, __its, w@); }
bot:
    proof { __its = __its.push((sp_item($v@[$i - 1], context@, __wp)->0).0); }
end:
    proof { unf_sp_items(__vi, context@, $i as nat, __its, w@); }
//@end
