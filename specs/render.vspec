//@assume ctx.vspec
//@synty Expr
//@include render_spec.vspec
//@world HookInfo::render_expr_with_method HookInfo::expand_meta_vars HookInfo::meta_vars2token_stream HookInfo::get_count/self
pub open spec fn methods_from(c: CtxV, m: Option<Rc<LocalContextField<Method>>>) -> Seq<Method> {
    match m { Some(a) => chain(*a), None => c.methods }
}
pub open spec fn hookv(hi: HookInfo, e: Expr, span: Span, k: Map<int, Counter>) -> HookV {
    HookV { ctx: hi.hook_context@, expr: e, src: hi.source_tokenstream, kind: hi.kind, span, counter: k[hi.hook_context@.cid] }
}
//@fn method/render/meta_vars.rs MetaVars::from_str@FromStr owners=C08 keeperr
    ensures match r { Ok(m) => meta_of(s@) == Some(m), Err(b) => meta_of(s@) is None && b@ == s@ }
//@prologue
    proof { reveal_strlit("line"); reveal_strlit("column"); reveal_strlit("col"); reveal_strlit("path"); reveal_strlit("file"); reveal_strlit("expr");
    reveal_strlit("source"); reveal_strlit("nth"); reveal_strlit("count"); reveal_strlit("fnname"); reveal_strlit("fn_name"); reveal_strlit("fnsig");
    reveal_strlit("fn_sig"); reveal_strlit("sofar"); reveal_strlit("so_far"); reveal_strlit("bindings"); reveal_strlit("vars"); reveal_strlit("hooqmeta"); reveal_strlit("hooq_meta"); }
//@end
//@fn method/render/mod.rs get_file_name owners=C08
    ensures r@ == file_name(q_span)
//@end
//@fn method/render/mod.rs parenthesize_if_needed owners=C10
    ensures r == receiver_ts(*expr)
//@end
//@fn method/render/mod.rs render_expr_with_method>spanned owners=C10
    ensures r == respan(method, q_span)
//@loop 0
    invariant
        $v@ == ts_seq(method), $i <= $v@.len(), $acc@.len() == $i,
        forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == tt_at($v@[j], q_span),
    decreases $v@.len() - $i
end:
    assert($acc@ =~= ts_seq(method).map_values(|x: TokenTree| tt_at(x, q_span)));
//@end
//@fn method/render/mod.rs HookInfo::get_count owners=C07
    ensures *final(w) == *old(w), r@ == count_str(hookv(*self, arbitrary(), arbitrary(), old(w)@))
//@prologue
    assert forall|a: Seq<char>, b: Seq<char>| a + (Seq::<char>::empty() + b) == #[trigger] (a + b) by { assert(a + (Seq::<char>::empty() + b) =~= a + b); }
    assert forall|b: Seq<char>| #[trigger] (Seq::<char>::empty() + b) == b by { assert((Seq::<char>::empty() + b) =~= b); }
//@end
//@fn method/render/mod.rs HookInfo::get_fn_name owners=C17
    ensures r@ == fn_name_str(hookv(*self, arbitrary(), arbitrary(), arbitrary()))
//@end
//@fn method/render/mod.rs HookInfo::get_fn_sig owners=C17
    ensures r@ == fn_sig_str(hookv(*self, arbitrary(), arbitrary(), arbitrary()))
//@end
//@fn method/render/mod.rs HookInfo::get_bindings_token_stream owners=C08
    ensures r == bindings_ts(self.hook_context@)
//@loop 0
    invariant
        $v@ == sorted_entries(self.hook_context@.binds), $i <= $v@.len(), $acc@.len() == $i,
        forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == binding_entry($v@[j]),
    decreases $v@.len() - $i
end:
    assert($acc@ =~= $v@.map_values(|e: (String, Rc<Expr>)| binding_entry(e)));
//@end
//@fn method/render/mod.rs HookInfo::meta_vars2token_stream owners=C08,C09
    ensures *final(w) == *old(w),
        ({
            let h = hookv(*self, *expr, q_span, old(w)@);
            let ms = methods_from(self.hook_context@, method_context);
            let want = if meta_of(ident_str(*var_ident)) == Some(MetaVars::SoFar) {
                if ms.len() < 2 { None } else { sp_expand(ts_seq(method_body(ms[1])), h, ms.skip(1)) }
            } else { meta_ts(ident_str(*var_ident), h) };
            match r { Ok(t) => want == Some(t), Err(_) => want is None }
        })
//@prologue
    proof {
        assert forall|x: Method, s: Seq<Method>| #[trigger] (seq![x] + s).skip(1) =~= s by { }
        assert forall|x: Method, s: Seq<Method>| (#[trigger] (seq![x] + s)).len() == s.len() + 1 by { }
        assert forall|x: Method, s: Seq<Method>| s.len() > 0 implies #[trigger] (seq![x] + s)[1] == s[0] by { }
        assert forall|l: LocalContextField<Method>| (#[trigger] chain(l)).len() > 0 && chain(l)[0] == *l.val by { }
    }
//@end
//@fn method/render/mod.rs HookInfo::expand_meta_vars owners=C08,C09,C10
    ensures *final(w) == *old(w),
        ({
            let want = sp_expand(ts_seq(ts), hookv(*self, *expr, q_span, old(w)@), methods_from(self.hook_context@, method_context));
            match r { Ok(t) => want == Some(t), Err(_) => want is None }
        })
//@loop 0
    invariant
        *w == *old(w), $v@ == ts_seq(ts), $i <= $v@.len(),
        next_is_replace_target ==> $i > 0 && is_dollar($v@[$i - 1]),
        sp_expand(ts_seq(ts), __h, __ms) == cat2(Some(res), sp_expand($v@.skip(if next_is_replace_target { $i - 1 } else { $i as int }), __h, __ms)),
    decreases $v@.len() - $i
ghost:
    let ghost __h = hookv(*self, *expr, q_span, w@); let ghost __ms = methods_from(self.hook_context@, method_context);
    assert($v@.skip(0) =~= $v@);
top:
    proof {
        assert(forall|k: int| 0 <= k < $v@.len() ==> #[trigger] $v@.skip(k)[0] == $v@[k]);
        assert(forall|k: int| 0 <= k < $v@.len() ==> #[trigger] $v@.skip(k).skip(1) =~= $v@.skip(k + 1));
        assert(forall|k: int| 0 <= k < $v@.len() - 1 ==> #[trigger] $v@.skip(k).skip(2) =~= $v@.skip(k + 2));
    }
end:
    proof { assert($v@.skip($i as int) =~= Seq::empty()); }
//@end
//@fn method/render/mod.rs HookInfo::render_expr_with_method owners=C08,C09,C10
    ensures *final(w) == *old(w),
        r is Ok ==> sp_render(self.hook_context@, *old(expr), self.source_tokenstream, self.kind, q_span, old(w)@[self.hook_context@.cid])
            == Some((*final(expr), r->Ok_0 is Some)),
        r is Err ==> sp_render(self.hook_context@, *old(expr), self.source_tokenstream, self.kind, q_span, old(w)@[self.hook_context@.cid]) is None
//@prologue
    reveal(sp_render);
//@end
