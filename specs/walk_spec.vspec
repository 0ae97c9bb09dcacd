// generated by tools/gen_walk.py; do not edit
//@synty Expr ExprLet Stmt Block Local LocalInit StmtMacro Arm FieldValue Macro ExprArray ExprAssign ExprAsync ExprAwait ExprBinary ExprBlock ExprBreak ExprCall ExprCast ExprConst ExprField ExprForLoop ExprGroup ExprIf ExprIndex ExprLoop ExprMatch ExprMethodCall ExprParen ExprRange ExprRawAddr ExprReference ExprRepeat ExprStruct ExprTryBlock ExprTuple ExprUnary ExprUnsafe ExprWhile ExprYield ExprTry ExprReturn ExprMacro ExprContinue ExprInfer ExprLit ExprPath Item ItemFn ItemImpl ItemMod ItemConst ItemStatic ItemTrait ItemMacro ImplItem ImplItemFn ImplItemConst ImplItemMacro TraitItem TraitItemConst TraitItemFn TraitItemMacro File
//@ty walker/mod.rs TailExprTargetKind TargetCallCheckBools
//@ty inert_attr/mod.rs HandleInertAttrsResult
//@ty walker/walk_macro.rs Evaluable EvaluableList
pub type St = Map<int, Counter>;
#[verifier::opaque]
pub open spec fn attrs_of(e: Expr) -> Option<Vec<Attribute>> {
    match e {
        Expr::Array(x) => Some(x.attrs),
        Expr::Assign(x) => Some(x.attrs),
        Expr::Async(x) => Some(x.attrs),
        Expr::Await(x) => Some(x.attrs),
        Expr::Binary(x) => Some(x.attrs),
        Expr::Block(x) => Some(x.attrs),
        Expr::Break(x) => Some(x.attrs),
        Expr::Call(x) => Some(x.attrs),
        Expr::Cast(x) => Some(x.attrs),
        Expr::Const(x) => Some(x.attrs),
        Expr::Field(x) => Some(x.attrs),
        Expr::ForLoop(x) => Some(x.attrs),
        Expr::Group(x) => Some(x.attrs),
        Expr::If(x) => Some(x.attrs),
        Expr::Index(x) => Some(x.attrs),
        Expr::Let(x) => Some(x.attrs),
        Expr::Loop(x) => Some(x.attrs),
        Expr::Match(x) => Some(x.attrs),
        Expr::MethodCall(x) => Some(x.attrs),
        Expr::Paren(x) => Some(x.attrs),
        Expr::Range(x) => Some(x.attrs),
        Expr::RawAddr(x) => Some(x.attrs),
        Expr::Reference(x) => Some(x.attrs),
        Expr::Repeat(x) => Some(x.attrs),
        Expr::Struct(x) => Some(x.attrs),
        Expr::TryBlock(x) => Some(x.attrs),
        Expr::Tuple(x) => Some(x.attrs),
        Expr::Unary(x) => Some(x.attrs),
        Expr::Unsafe(x) => Some(x.attrs),
        Expr::While(x) => Some(x.attrs),
        Expr::Yield(x) => Some(x.attrs),
        Expr::Try(x) => Some(x.attrs),
        Expr::Return(x) => Some(x.attrs),
        Expr::Closure(x) => Some(x.attrs),
        Expr::Macro(x) => Some(x.attrs),
        Expr::Continue(x) => Some(x.attrs),
        Expr::Infer(x) => Some(x.attrs),
        Expr::Lit(x) => Some(x.attrs),
        Expr::Path(x) => Some(x.attrs),
        _ => None,
    }
}
#[verifier::opaque]
pub open spec fn with_attrs(e: Expr, at: Vec<Attribute>) -> Expr {
    match e {
        Expr::Array(x) => Expr::Array(ExprArray { attrs: at, ..x }),
        Expr::Assign(x) => Expr::Assign(ExprAssign { attrs: at, ..x }),
        Expr::Async(x) => Expr::Async(ExprAsync { attrs: at, ..x }),
        Expr::Await(x) => Expr::Await(ExprAwait { attrs: at, ..x }),
        Expr::Binary(x) => Expr::Binary(ExprBinary { attrs: at, ..x }),
        Expr::Block(x) => Expr::Block(ExprBlock { attrs: at, ..x }),
        Expr::Break(x) => Expr::Break(ExprBreak { attrs: at, ..x }),
        Expr::Call(x) => Expr::Call(ExprCall { attrs: at, ..x }),
        Expr::Cast(x) => Expr::Cast(ExprCast { attrs: at, ..x }),
        Expr::Const(x) => Expr::Const(ExprConst { attrs: at, ..x }),
        Expr::Field(x) => Expr::Field(ExprField { attrs: at, ..x }),
        Expr::ForLoop(x) => Expr::ForLoop(ExprForLoop { attrs: at, ..x }),
        Expr::Group(x) => Expr::Group(ExprGroup { attrs: at, ..x }),
        Expr::If(x) => Expr::If(ExprIf { attrs: at, ..x }),
        Expr::Index(x) => Expr::Index(ExprIndex { attrs: at, ..x }),
        Expr::Let(x) => Expr::Let(ExprLet { attrs: at, ..x }),
        Expr::Loop(x) => Expr::Loop(ExprLoop { attrs: at, ..x }),
        Expr::Match(x) => Expr::Match(ExprMatch { attrs: at, ..x }),
        Expr::MethodCall(x) => Expr::MethodCall(ExprMethodCall { attrs: at, ..x }),
        Expr::Paren(x) => Expr::Paren(ExprParen { attrs: at, ..x }),
        Expr::Range(x) => Expr::Range(ExprRange { attrs: at, ..x }),
        Expr::RawAddr(x) => Expr::RawAddr(ExprRawAddr { attrs: at, ..x }),
        Expr::Reference(x) => Expr::Reference(ExprReference { attrs: at, ..x }),
        Expr::Repeat(x) => Expr::Repeat(ExprRepeat { attrs: at, ..x }),
        Expr::Struct(x) => Expr::Struct(ExprStruct { attrs: at, ..x }),
        Expr::TryBlock(x) => Expr::TryBlock(ExprTryBlock { attrs: at, ..x }),
        Expr::Tuple(x) => Expr::Tuple(ExprTuple { attrs: at, ..x }),
        Expr::Unary(x) => Expr::Unary(ExprUnary { attrs: at, ..x }),
        Expr::Unsafe(x) => Expr::Unsafe(ExprUnsafe { attrs: at, ..x }),
        Expr::While(x) => Expr::While(ExprWhile { attrs: at, ..x }),
        Expr::Yield(x) => Expr::Yield(ExprYield { attrs: at, ..x }),
        Expr::Try(x) => Expr::Try(ExprTry { attrs: at, ..x }),
        Expr::Return(x) => Expr::Return(ExprReturn { attrs: at, ..x }),
        Expr::Closure(x) => Expr::Closure(ExprClosure { attrs: at, ..x }),
        Expr::Macro(x) => Expr::Macro(ExprMacro { attrs: at, ..x }),
        Expr::Continue(x) => Expr::Continue(ExprContinue { attrs: at, ..x }),
        Expr::Infer(x) => Expr::Infer(ExprInfer { attrs: at, ..x }),
        Expr::Lit(x) => Expr::Lit(ExprLit { attrs: at, ..x }),
        Expr::Path(x) => Expr::Path(ExprPath { attrs: at, ..x }),
        _ => e,
    }
}
/// the attributes of a removed `?` stay on what takes its place
pub open spec fn outer_attrs(e: Expr, at: Vec<Attribute>) -> Expr { match attrs_of(e) { Some(a) => with_attrs(e, vec_of(at@ + a@)), None => e } }
/// expressions in which there is nothing to process
#[verifier::opaque]
pub open spec fn is_leaf(e: Expr) -> bool {
    match e {
        Expr::Array(x) => false,
        Expr::Assign(x) => false,
        Expr::Async(x) => false,
        Expr::Await(x) => false,
        Expr::Binary(x) => false,
        Expr::Block(x) => false,
        Expr::Break(x) => false,
        Expr::Call(x) => false,
        Expr::Cast(x) => false,
        Expr::Const(x) => false,
        Expr::Field(x) => false,
        Expr::ForLoop(x) => false,
        Expr::Group(x) => false,
        Expr::If(x) => false,
        Expr::Index(x) => false,
        Expr::Let(x) => false,
        Expr::Loop(x) => false,
        Expr::Match(x) => false,
        Expr::MethodCall(x) => false,
        Expr::Paren(x) => false,
        Expr::Range(x) => false,
        Expr::RawAddr(x) => false,
        Expr::Reference(x) => false,
        Expr::Repeat(x) => false,
        Expr::Struct(x) => false,
        Expr::TryBlock(x) => false,
        Expr::Tuple(x) => false,
        Expr::Unary(x) => false,
        Expr::Unsafe(x) => false,
        Expr::While(x) => false,
        Expr::Yield(x) => false,
        Expr::Try(x) => false,
        Expr::Return(x) => false,
        Expr::Closure(x) => false,
        Expr::Macro(x) => false,
        _ => true,
    }
}
// ---- attributes: read once, then what they say is in force (the reading itself is specified in the attrs pack)
/// reading the attributes of one construct: what remains of them and what the hooq ones say; None is an error
pub uninterp spec fn ext(attrs: Vec<Attribute>) -> Option<(Vec<Attribute>, InertAttribute)>;
pub open spec fn nothing_said(ia: InertAttribute) -> bool {
    ia.method is None && ia.hook_targets is None && ia.tail_expr_idents is None && ia.ignore_tail_expr_idents is None
        && ia.result_types is None && ia.hook_in_macros is None && ia.bindings@ =~= Map::<String, Expr>::empty() && !ia.is_skipped && !ia.is_skipped_all
}
/// what remains contains no hooq attributes (proved in the attrs pack)
pub broadcast axiom fn ext_once(a: Vec<Attribute>)
    ensures (#[trigger] ext(a)) is Some ==> ext((ext(a)->0).0) is Some && (ext((ext(a)->0).0)->0).0 == (ext(a)->0).0 && nothing_said((ext((ext(a)->0).0)->0).1);
pub open spec fn sp_attrs(attrs: Vec<Attribute>, c: CtxV) -> Option<(Vec<Attribute>, CtxV)> {
    match ext(attrs) { None => None, Some((at, ia)) => Some((at, upd_ctx(c, ia))) }
}
pub proof fn upd_nothing(c: CtxV, ia: InertAttribute) requires nothing_said(ia) ensures upd_ctx(c, ia) == c {
    assert(c.binds.union_prefer_right(ia.bindings@.map_values(|e: Expr| Rc::new(e))) =~= c.binds);
}
pub proof fn attrs_once(a: Vec<Attribute>, c: CtxV)
    ensures sp_attrs(a, c) is Some ==> sp_attrs((sp_attrs(a, c)->0).0, (sp_attrs(a, c)->0).1) == sp_attrs(a, c)
{
    broadcast use ext_once;
    if ext(a) is Some { upd_nothing(upd_ctx(c, (ext(a)->0).1), (ext((ext(a)->0).0)->0).1); }
}
// ---- hooking one target (C01 C02 C04 C07)
/// the expression the method in force makes of a target (specified in the render pack); true: a consuming `!` was there
pub open spec fn sp_hook(e: Expr, src: TokenStream, kind: HookTargetKind, span: Span, c: CtxV, k: St) -> Option<(Expr, bool, St)> {
    if c.skip is Some { Some((e, false, k)) } else {
        let k1 = k.insert(c.cid, counted(k[c.cid], kind));
        if !enabled(c, kind) { Some((e, false, k1)) } else {
            match sp_render(c, e, src, kind, span, k1[c.cid]) { None => None, Some((e2, consumed)) => Some((e2, consumed, k1)) }
        }
    }
}
// ---- which values count (C02)
pub open spec fn err_like(e: Expr, c: CtxV) -> bool { match e { Expr::Call(x) => match *x.func { Expr::Path(p) => any_ends(p.path, c.tails), _ => false }, _ => false } }
pub open spec fn ok_like(e: Expr, c: CtxV) -> bool { match e { Expr::Call(x) => match *x.func { Expr::Path(p) => any_ends(p.path, c.ignores), _ => false }, _ => false } }
pub open spec fn return_target(e: Expr, c: CtxV) -> bool { err_like(e, c) || (ctx_rt_is(c) && !ok_like(e, c)) }
pub open spec fn tail_target(e: Expr, kind: TailExprTargetKind, c: CtxV) -> bool {
    kind != TailExprTargetKind::NotTarget && !(e is Return)
        && (err_like(e, c) || (kind == TailExprTargetKind::FnBlockTailExpr && ctx_rt_is(c) && !ok_like(e, c)))
}
// ---- macros (C11)
pub uninterp spec fn parse_as<T>(t: TokenStream) -> Option<T>;
pub uninterp spec fn ts_concat(s: Seq<TokenStream>) -> TokenStream;
/// tokens of a macro call after processing; Some(None): left exactly as written
pub uninterp spec fn sp_mactok(t: TokenStream, c: CtxV, k: St) -> Option<(Option<TokenStream>, St)>;
pub open spec fn sp_macro(m: Macro, c: CtxV, k: St) -> Option<(Macro, St)> {
    if !c.in_macros { Some((m, k)) } else {
        match sp_mactok(m.tokens, c, k) { None => None, Some((None, k1)) => Some((m, k1)), Some((Some(t), k1)) => Some((Macro { tokens: t, ..m }, k1)) }
    }
}
pub open spec fn sp_macro_at(attrs: Vec<Attribute>, m: Macro, c: CtxV, k: St) -> Option<(Vec<Attribute>, Macro, St)> {
    match sp_attrs(attrs, c) { None => None, Some((at, c1)) => match sp_macro(m, c1, k) { None => None, Some((m2, k2)) => Some((at, m2, k2)) } }
}
// ---- expressions, statements, items: in source order, each place with what is in force there (C01 C03 C04 C05)
#[verifier::opaque]
pub open spec fn sp_expr(e: Expr, c: CtxV, k: St) -> Option<(Expr, St)> decreases e, 1int {
    if is_leaf(e) { Some((e, k)) } else {
        match sp_attrs(attrs_of(e)->0, c) { None => None, Some((at, c1)) => sp_core(e, at, c1, k) }
    }
}
pub proof fn unf_sp_expr(e: Expr, c: CtxV, k: St) ensures sp_expr(e, c, k) == ({
    if is_leaf(e) { Some((e, k)) } else {
        match sp_attrs(attrs_of(e)->0, c) { None => None, Some((at, c1)) => sp_core(e, at, c1, k) }
    }
}) { reveal(sp_core); reveal(sp_expr); }
/// a value in tail position of a body (kind FnBlockTailExpr), of another block or arm (BlockTailExpr)
#[verifier::opaque]
pub open spec fn sp_tail(e: Expr, kind: TailExprTargetKind, c: CtxV, k: St) -> Option<(Expr, St)> decreases e, 2int {
    match attrs_of(e) {
        None => Some((e, k)),
        Some(a) => match sp_attrs(a, c) {
            None => None,
            Some((at, c1)) => match sp_core(e, at, c1, k) {
                None => None,
                Some((e2, k2)) => if tail_target(e2, kind, c1) {
                    match sp_hook(e2, tokens_of(with_attrs(e, at)), HookTargetKind::TailExpr, span_of(e2), c1, k2) {
                        None => None, Some((e3, _, k3)) => Some((e3, k3)),
                    }
                } else { Some((e2, k2)) },
            },
        },
    }
}
pub proof fn unf_sp_tail(e: Expr, kind: TailExprTargetKind, c: CtxV, k: St) ensures sp_tail(e, kind, c, k) == ({
    match attrs_of(e) {
        None => Some((e, k)),
        Some(a) => match sp_attrs(a, c) {
            None => None,
            Some((at, c1)) => match sp_core(e, at, c1, k) {
                None => None,
                Some((e2, k2)) => if tail_target(e2, kind, c1) {
                    match sp_hook(e2, tokens_of(with_attrs(e, at)), HookTargetKind::TailExpr, span_of(e2), c1, k2) {
                        None => None, Some((e3, _, k3)) => Some((e3, k3)),
                    }
                } else { Some((e2, k2)) },
            },
        },
    }
}) { reveal(sp_core); reveal(sp_tail); }
#[verifier::opaque]
pub open spec fn sp_opt(e: Option<Box<Expr>>, c: CtxV, k: St) -> Option<(Option<Box<Expr>>, St)> decreases e, 0int {
    match e { None => Some((None, k)), Some(b) => match sp_expr(*b, c, k) { None => None, Some((z, k1)) => Some((Some(Box::new(z)), k1)) } }
}
pub broadcast proof fn unf_sp_opt(e: Option<Box<Expr>>, c: CtxV, k: St) ensures #[trigger] sp_opt(e, c, k) == ({
    match e { None => Some((None, k)), Some(b) => match sp_expr(*b, c, k) { None => None, Some((z, k1)) => Some((Some(Box::new(z)), k1)) } }
}) { reveal(sp_expr); reveal(sp_opt); }
#[verifier::opaque]
pub open spec fn sp_optpair(e: Option<(Tok, Box<Expr>)>, c: CtxV, k: St) -> Option<(Option<(Tok, Box<Expr>)>, St)> decreases e, 0int {
    match e { None => Some((None, k)), Some((t, b)) => match sp_expr(*b, c, k) { None => None, Some((z, k1)) => Some((Some((t, Box::new(z))), k1)) } }
}
pub broadcast proof fn unf_sp_optpair(e: Option<(Tok, Box<Expr>)>, c: CtxV, k: St) ensures #[trigger] sp_optpair(e, c, k) == ({
    match e { None => Some((None, k)), Some((t, b)) => match sp_expr(*b, c, k) { None => None, Some((z, k1)) => Some((Some((t, Box::new(z))), k1)) } }
}) { reveal(sp_expr); reveal(sp_optpair); }
/// a block opens a nested scope (C04); its last statement is its tail
#[verifier::opaque]
pub open spec fn sp_block(b: Block, tail: TailExprTargetKind, c: CtxV, k: St) -> Option<(Block, St)> decreases b, 0int {
    match sp_stmts(b.stmts, tail, sub_ctx(c), 0, Seq::empty(), k) { None => None, Some((s, k1)) => Some((Block { stmts: vec_of(s), ..b }, k1)) }
}
pub broadcast proof fn unf_sp_block(b: Block, tail: TailExprTargetKind, c: CtxV, k: St) ensures #[trigger] sp_block(b, tail, c, k) == ({
    match sp_stmts(b.stmts, tail, sub_ctx(c), 0, Seq::empty(), k) { None => None, Some((s, k1)) => Some((Block { stmts: vec_of(s), ..b }, k1)) }
}) { reveal(sp_block); reveal(sp_stmts); }
#[verifier::opaque]
pub open spec fn sp_stmt(s: Stmt, tail: TailExprTargetKind, c: CtxV, k: St) -> Option<(Stmt, St)> decreases s, 0int {
    match s {
        Stmt::Local(l) => match l.init {
            None => Some((s, k)),
            Some(i) => match sp_attrs(l.attrs, c) {
                None => None,
                Some((at, c1)) => match sp_expr(*i.expr, c1, k) {
                    None => None,
                    Some((z1, k1)) => match sp_optpair(i.diverge, c1, k1) {
                        None => None,
                        Some((z2, k2)) => Some((Stmt::Local(Local { attrs: at, init: Some(LocalInit { expr: Box::new(z1), diverge: z2, ..i }), ..l }), k2)),
                    },
                },
            },
        },
        Stmt::Item(it) => match sp_item(it, c, k) { None => None, Some((z, k1)) => Some((Stmt::Item(z), k1)) },
        Stmt::Expr(e, semi) => if semi is None && tail != TailExprTargetKind::NotTarget {
            match sp_tail(e, tail, c, k) { None => None, Some((z, k1)) => Some((Stmt::Expr(z, semi), k1)) }
        } else {
            match sp_expr(e, c, k) { None => None, Some((z, k1)) => Some((Stmt::Expr(z, semi), k1)) }
        },
        Stmt::Macro(m) => match sp_macro_at(m.attrs, m.mac, c, k) {
            None => None, Some((at, mac, k1)) => Some((Stmt::Macro(StmtMacro { attrs: at, mac, ..m }), k1)),
        },
    }
}
pub proof fn unf_sp_stmt(s: Stmt, tail: TailExprTargetKind, c: CtxV, k: St) ensures sp_stmt(s, tail, c, k) == ({
    match s {
        Stmt::Local(l) => match l.init {
            None => Some((s, k)),
            Some(i) => match sp_attrs(l.attrs, c) {
                None => None,
                Some((at, c1)) => match sp_expr(*i.expr, c1, k) {
                    None => None,
                    Some((z1, k1)) => match sp_optpair(i.diverge, c1, k1) {
                        None => None,
                        Some((z2, k2)) => Some((Stmt::Local(Local { attrs: at, init: Some(LocalInit { expr: Box::new(z1), diverge: z2, ..i }), ..l }), k2)),
                    },
                },
            },
        },
        Stmt::Item(it) => match sp_item(it, c, k) { None => None, Some((z, k1)) => Some((Stmt::Item(z), k1)) },
        Stmt::Expr(e, semi) => if semi is None && tail != TailExprTargetKind::NotTarget {
            match sp_tail(e, tail, c, k) { None => None, Some((z, k1)) => Some((Stmt::Expr(z, semi), k1)) }
        } else {
            match sp_expr(e, c, k) { None => None, Some((z, k1)) => Some((Stmt::Expr(z, semi), k1)) }
        },
        Stmt::Macro(m) => match sp_macro_at(m.attrs, m.mac, c, k) {
            None => None, Some((at, mac, k1)) => Some((Stmt::Macro(StmtMacro { attrs: at, mac, ..m }), k1)),
        },
    }
}) { reveal(sp_expr); reveal(sp_item); reveal(sp_optpair); reveal(sp_stmt); reveal(sp_tail); }
#[verifier::opaque]
pub open spec fn sp_arm(a: Arm, c: CtxV, k: St) -> Option<(Arm, St)> decreases a, 0int {
    match sp_attrs(a.attrs, c) {
        None => None,
        Some((at, c1)) => match sp_optpair(a.guard, c1, k) {
            None => None,
            Some((g, k1)) => match (if *a.body is Block { sp_expr(*a.body, c1, k1) } else { sp_tail(*a.body, TailExprTargetKind::BlockTailExpr, c1, k1) }) {
                None => None,
                Some((z, k2)) => Some((Arm { attrs: at, guard: g, body: Box::new(z), ..a }, k2)),
            },
        },
    }
}
pub proof fn unf_sp_arm(a: Arm, c: CtxV, k: St) ensures sp_arm(a, c, k) == ({
    match sp_attrs(a.attrs, c) {
        None => None,
        Some((at, c1)) => match sp_optpair(a.guard, c1, k) {
            None => None,
            Some((g, k1)) => match (if *a.body is Block { sp_expr(*a.body, c1, k1) } else { sp_tail(*a.body, TailExprTargetKind::BlockTailExpr, c1, k1) }) {
                None => None,
                Some((z, k2)) => Some((Arm { attrs: at, guard: g, body: Box::new(z), ..a }, k2)),
            },
        },
    }
}) { reveal(sp_arm); reveal(sp_expr); reveal(sp_optpair); reveal(sp_tail); }
#[verifier::opaque]
pub open spec fn sp_field(f: FieldValue, c: CtxV, k: St) -> Option<(FieldValue, St)> decreases f, 0int {
    match sp_attrs(f.attrs, c) {
        None => None,
        Some((at, c1)) => match sp_expr(f.expr, c1, k) { None => None, Some((z, k1)) => Some((FieldValue { attrs: at, expr: z, ..f }, k1)) },
    }
}
pub proof fn unf_sp_field(f: FieldValue, c: CtxV, k: St) ensures sp_field(f, c, k) == ({
    match sp_attrs(f.attrs, c) {
        None => None,
        Some((at, c1)) => match sp_expr(f.expr, c1, k) { None => None, Some((z, k1)) => Some((FieldValue { attrs: at, expr: z, ..f }, k1)) },
    }
}) { reveal(sp_expr); reveal(sp_field); }
#[verifier::opaque]
pub open spec fn sp_impl_item(i: ImplItem, c: CtxV, k: St) -> Option<(ImplItem, St)> decreases i, 0int {
    match i {
        ImplItem::Fn(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_block(f.block, TailExprTargetKind::FnBlockTailExpr, fn_ctx(c1, f.sig), k) {
                None => None, Some((z, k1)) => Some((ImplItem::Fn(ImplItemFn { attrs: at, block: z, ..f }), k1)),
            },
        },
        ImplItem::Const(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_expr(f.expr, c1, k) { None => None, Some((z, k1)) => Some((ImplItem::Const(ImplItemConst { attrs: at, expr: z, ..f }), k1)) },
        },
        ImplItem::Macro(m) => match sp_macro_at(m.attrs, m.mac, c, k) {
            None => None, Some((at, mac, k1)) => Some((ImplItem::Macro(ImplItemMacro { attrs: at, mac, ..m }), k1)),
        },
        _ => Some((i, k)),
    }
}
pub proof fn unf_sp_impl_item(i: ImplItem, c: CtxV, k: St) ensures sp_impl_item(i, c, k) == ({
    match i {
        ImplItem::Fn(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_block(f.block, TailExprTargetKind::FnBlockTailExpr, fn_ctx(c1, f.sig), k) {
                None => None, Some((z, k1)) => Some((ImplItem::Fn(ImplItemFn { attrs: at, block: z, ..f }), k1)),
            },
        },
        ImplItem::Const(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_expr(f.expr, c1, k) { None => None, Some((z, k1)) => Some((ImplItem::Const(ImplItemConst { attrs: at, expr: z, ..f }), k1)) },
        },
        ImplItem::Macro(m) => match sp_macro_at(m.attrs, m.mac, c, k) {
            None => None, Some((at, mac, k1)) => Some((ImplItem::Macro(ImplItemMacro { attrs: at, mac, ..m }), k1)),
        },
        _ => Some((i, k)),
    }
}) { reveal(sp_block); reveal(sp_expr); reveal(sp_impl_item); }
#[verifier::opaque]
pub open spec fn sp_trait_item(i: TraitItem, c: CtxV, k: St) -> Option<(TraitItem, St)> decreases i, 0int {
    match i {
        TraitItem::Fn(f) => match f.default {
            None => Some((i, k)),
            Some(b) => match sp_attrs(f.attrs, c) {
                None => None,
                Some((at, c1)) => match sp_block(b, TailExprTargetKind::FnBlockTailExpr, fn_ctx(c1, f.sig), k) {
                    None => None, Some((z, k1)) => Some((TraitItem::Fn(TraitItemFn { attrs: at, default: Some(z), ..f }), k1)),
                },
            },
        },
        TraitItem::Const(f) => match f.default {
            None => Some((i, k)),
            Some((t, e)) => match sp_attrs(f.attrs, c) {
                None => None,
                Some((at, c1)) => match sp_expr(e, c1, k) { None => None, Some((z, k1)) => Some((TraitItem::Const(TraitItemConst { attrs: at, default: Some((t, z)), ..f }), k1)) },
            },
        },
        TraitItem::Macro(m) => match sp_macro_at(m.attrs, m.mac, c, k) {
            None => None, Some((at, mac, k1)) => Some((TraitItem::Macro(TraitItemMacro { attrs: at, mac, ..m }), k1)),
        },
        _ => Some((i, k)),
    }
}
pub proof fn unf_sp_trait_item(i: TraitItem, c: CtxV, k: St) ensures sp_trait_item(i, c, k) == ({
    match i {
        TraitItem::Fn(f) => match f.default {
            None => Some((i, k)),
            Some(b) => match sp_attrs(f.attrs, c) {
                None => None,
                Some((at, c1)) => match sp_block(b, TailExprTargetKind::FnBlockTailExpr, fn_ctx(c1, f.sig), k) {
                    None => None, Some((z, k1)) => Some((TraitItem::Fn(TraitItemFn { attrs: at, default: Some(z), ..f }), k1)),
                },
            },
        },
        TraitItem::Const(f) => match f.default {
            None => Some((i, k)),
            Some((t, e)) => match sp_attrs(f.attrs, c) {
                None => None,
                Some((at, c1)) => match sp_expr(e, c1, k) { None => None, Some((z, k1)) => Some((TraitItem::Const(TraitItemConst { attrs: at, default: Some((t, z)), ..f }), k1)) },
            },
        },
        TraitItem::Macro(m) => match sp_macro_at(m.attrs, m.mac, c, k) {
            None => None, Some((at, mac, k1)) => Some((TraitItem::Macro(TraitItemMacro { attrs: at, mac, ..m }), k1)),
        },
        _ => Some((i, k)),
    }
}) { reveal(sp_block); reveal(sp_expr); reveal(sp_trait_item); }
#[verifier::opaque]
pub open spec fn sp_item(it: Item, c: CtxV, k: St) -> Option<(Item, St)> decreases it, 0int {
    match it {
        Item::Fn(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_block(*f.block, TailExprTargetKind::FnBlockTailExpr, fn_ctx(c1, f.sig), k) {
                None => None, Some((z, k1)) => Some((Item::Fn(ItemFn { attrs: at, block: Box::new(z), ..f }), k1)),
            },
        },
        Item::Impl(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_impl_items(f.items, c1, 0, Seq::empty(), k) {
                None => None, Some((z, k1)) => Some((Item::Impl(ItemImpl { attrs: at, items: vec_of(z), ..f }), k1)),
            },
        },
        Item::Trait(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_trait_items(f.items, c1, 0, Seq::empty(), k) {
                None => None, Some((z, k1)) => Some((Item::Trait(ItemTrait { attrs: at, items: vec_of(z), ..f }), k1)),
            },
        },
        Item::Mod(f) => match f.content {
            None => Some((it, k)),
            Some((t, v)) => match sp_attrs(f.attrs, c) {
                None => None,
                Some((at, c1)) => match sp_items(v, c1, 0, Seq::empty(), k) {
                    None => None, Some((z, k1)) => Some((Item::Mod(ItemMod { attrs: at, content: Some((t, vec_of(z))), ..f }), k1)),
                },
            },
        },
        Item::Const(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_expr(*f.expr, c1, k) { None => None, Some((z, k1)) => Some((Item::Const(ItemConst { attrs: at, expr: Box::new(z), ..f }), k1)) },
        },
        Item::Static(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_expr(*f.expr, c1, k) { None => None, Some((z, k1)) => Some((Item::Static(ItemStatic { attrs: at, expr: Box::new(z), ..f }), k1)) },
        },
        // C11: a macro_rules definition (a macro item with a name) is never touched
        Item::Macro(m) => if m.ident is Some { Some((it, k)) } else {
            match sp_macro_at(m.attrs, m.mac, c, k) { None => None, Some((at, mac, k1)) => Some((Item::Macro(ItemMacro { attrs: at, mac, ..m }), k1)) }
        },
        _ => Some((it, k)),
    }
}
pub proof fn unf_sp_item(it: Item, c: CtxV, k: St) ensures sp_item(it, c, k) == ({
    match it {
        Item::Fn(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_block(*f.block, TailExprTargetKind::FnBlockTailExpr, fn_ctx(c1, f.sig), k) {
                None => None, Some((z, k1)) => Some((Item::Fn(ItemFn { attrs: at, block: Box::new(z), ..f }), k1)),
            },
        },
        Item::Impl(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_impl_items(f.items, c1, 0, Seq::empty(), k) {
                None => None, Some((z, k1)) => Some((Item::Impl(ItemImpl { attrs: at, items: vec_of(z), ..f }), k1)),
            },
        },
        Item::Trait(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_trait_items(f.items, c1, 0, Seq::empty(), k) {
                None => None, Some((z, k1)) => Some((Item::Trait(ItemTrait { attrs: at, items: vec_of(z), ..f }), k1)),
            },
        },
        Item::Mod(f) => match f.content {
            None => Some((it, k)),
            Some((t, v)) => match sp_attrs(f.attrs, c) {
                None => None,
                Some((at, c1)) => match sp_items(v, c1, 0, Seq::empty(), k) {
                    None => None, Some((z, k1)) => Some((Item::Mod(ItemMod { attrs: at, content: Some((t, vec_of(z))), ..f }), k1)),
                },
            },
        },
        Item::Const(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_expr(*f.expr, c1, k) { None => None, Some((z, k1)) => Some((Item::Const(ItemConst { attrs: at, expr: Box::new(z), ..f }), k1)) },
        },
        Item::Static(f) => match sp_attrs(f.attrs, c) {
            None => None,
            Some((at, c1)) => match sp_expr(*f.expr, c1, k) { None => None, Some((z, k1)) => Some((Item::Static(ItemStatic { attrs: at, expr: Box::new(z), ..f }), k1)) },
        },
        // C11: a macro_rules definition (a macro item with a name) is never touched
        Item::Macro(m) => if m.ident is Some { Some((it, k)) } else {
            match sp_macro_at(m.attrs, m.mac, c, k) { None => None, Some((at, mac, k1)) => Some((Item::Macro(ItemMacro { attrs: at, mac, ..m }), k1)) }
        },
        _ => Some((it, k)),
    }
}) { reveal(sp_block); reveal(sp_expr); reveal(sp_impl_items); reveal(sp_item); reveal(sp_items); reveal(sp_trait_items); }
#[verifier::opaque]
/// an expression whose hooq attributes have been read: `at` is what remains of its attributes, `c` what is in force in it
pub open spec fn sp_core(e: Expr, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases e, 0int {
    match e {
        Expr::Try(x) => core_Try(x, at, c, k0),
        Expr::Return(x) => core_Return(x, at, c, k0),
        Expr::Closure(x) => core_Closure(x, at, c, k0),
        Expr::Macro(x) => core_Macro(x, at, c, k0),
        Expr::Array(x) => core_Array(x, at, c, k0),
        Expr::Assign(x) => core_Assign(x, at, c, k0),
        Expr::Async(x) => core_Async(x, at, c, k0),
        Expr::Await(x) => core_Await(x, at, c, k0),
        Expr::Binary(x) => core_Binary(x, at, c, k0),
        Expr::Block(x) => core_Block(x, at, c, k0),
        Expr::Break(x) => core_Break(x, at, c, k0),
        Expr::Call(x) => core_Call(x, at, c, k0),
        Expr::Cast(x) => core_Cast(x, at, c, k0),
        Expr::Const(x) => core_Const(x, at, c, k0),
        Expr::Field(x) => core_Field(x, at, c, k0),
        Expr::ForLoop(x) => core_ForLoop(x, at, c, k0),
        Expr::Group(x) => core_Group(x, at, c, k0),
        Expr::If(x) => core_If(x, at, c, k0),
        Expr::Index(x) => core_Index(x, at, c, k0),
        Expr::Let(x) => core_Let(x, at, c, k0),
        Expr::Loop(x) => core_Loop(x, at, c, k0),
        Expr::Match(x) => core_Match(x, at, c, k0),
        Expr::MethodCall(x) => core_MethodCall(x, at, c, k0),
        Expr::Paren(x) => core_Paren(x, at, c, k0),
        Expr::Range(x) => core_Range(x, at, c, k0),
        Expr::RawAddr(x) => core_RawAddr(x, at, c, k0),
        Expr::Reference(x) => core_Reference(x, at, c, k0),
        Expr::Repeat(x) => core_Repeat(x, at, c, k0),
        Expr::Struct(x) => core_Struct(x, at, c, k0),
        Expr::TryBlock(x) => core_TryBlock(x, at, c, k0),
        Expr::Tuple(x) => core_Tuple(x, at, c, k0),
        Expr::Unary(x) => core_Unary(x, at, c, k0),
        Expr::Unsafe(x) => core_Unsafe(x, at, c, k0),
        Expr::While(x) => core_While(x, at, c, k0),
        Expr::Yield(x) => core_Yield(x, at, c, k0),
        _ => Some((with_attrs(e, at), k0)),
    }
}
#[verifier::opaque]
pub open spec fn core_Array(x: ExprArray, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_exprs(x.elems.items, c, 0, Seq::empty(), k0) { None => None, Some((z1, k1)) => Some((Expr::Array(ExprArray { attrs: at, elems: x.elems.with_seq(z1), ..x }), k1)) }
}
proof fn same_Array(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Array ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Array); reveal(is_leaf); reveal(sp_core); reveal(sp_exprs); reveal(with_attrs);
    let x = e->Array_0;
    let x2 = ExprArray { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Array(x2));
    assert(core_Array(x2, at2, c, k) == core_Array(x, at2, c, k));
}
pub proof fn unf_Array(e: Expr, c: CtxV, k: St) ensures e is Array ==> sp_expr(e, c, k) == ({ let x = e->Array_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_exprs(x.elems.items, c1, 0, Seq::empty(), k) { None => None, Some((z1, k1)) => Some((Expr::Array(ExprArray { attrs: at, elems: x.elems.with_seq(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Array); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(sp_exprs);
    if let Expr::Array(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Array(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Assign(x: ExprAssign, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.left, c, k0) { None => None, Some((z1, k1)) => match sp_expr(*x.right, c, k1) { None => None, Some((z2, k2)) => Some((Expr::Assign(ExprAssign { attrs: at, left: Box::new(z1), right: Box::new(z2), ..x }), k2)) } }
}
proof fn same_Assign(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Assign ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Assign); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Assign_0;
    let x2 = ExprAssign { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Assign(x2));
    assert(core_Assign(x2, at2, c, k) == core_Assign(x, at2, c, k));
}
pub proof fn unf_Assign(e: Expr, c: CtxV, k: St) ensures e is Assign ==> sp_expr(e, c, k) == ({ let x = e->Assign_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.left, c1, k) { None => None, Some((z1, k1)) => match sp_expr(*x.right, c1, k1) { None => None, Some((z2, k2)) => Some((Expr::Assign(ExprAssign { attrs: at, left: Box::new(z1), right: Box::new(z2), ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_Assign); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Assign(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Assign(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Async(x: ExprAsync, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_block(x.block, TailExprTargetKind::BlockTailExpr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Async(ExprAsync { attrs: at, block: z1, ..x }), k1)) }
}
proof fn same_Async(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Async ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Async); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(with_attrs);
    let x = e->Async_0;
    let x2 = ExprAsync { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Async(x2));
    assert(core_Async(x2, at2, c, k) == core_Async(x, at2, c, k));
}
pub proof fn unf_Async(e: Expr, c: CtxV, k: St) ensures e is Async ==> sp_expr(e, c, k) == ({ let x = e->Async_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_block(x.block, TailExprTargetKind::BlockTailExpr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Async(ExprAsync { attrs: at, block: z1, ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Async); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr);
    if let Expr::Async(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Async(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Await(x: ExprAwait, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.base, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Await(ExprAwait { attrs: at, base: Box::new(z1), ..x }), k1)) }
}
proof fn same_Await(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Await ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Await); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Await_0;
    let x2 = ExprAwait { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Await(x2));
    assert(core_Await(x2, at2, c, k) == core_Await(x, at2, c, k));
}
pub proof fn unf_Await(e: Expr, c: CtxV, k: St) ensures e is Await ==> sp_expr(e, c, k) == ({ let x = e->Await_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.base, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Await(ExprAwait { attrs: at, base: Box::new(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Await); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Await(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Await(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Binary(x: ExprBinary, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.left, c, k0) { None => None, Some((z1, k1)) => match sp_expr(*x.right, c, k1) { None => None, Some((z2, k2)) => Some((Expr::Binary(ExprBinary { attrs: at, left: Box::new(z1), right: Box::new(z2), ..x }), k2)) } }
}
proof fn same_Binary(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Binary ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Binary); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Binary_0;
    let x2 = ExprBinary { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Binary(x2));
    assert(core_Binary(x2, at2, c, k) == core_Binary(x, at2, c, k));
}
pub proof fn unf_Binary(e: Expr, c: CtxV, k: St) ensures e is Binary ==> sp_expr(e, c, k) == ({ let x = e->Binary_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.left, c1, k) { None => None, Some((z1, k1)) => match sp_expr(*x.right, c1, k1) { None => None, Some((z2, k2)) => Some((Expr::Binary(ExprBinary { attrs: at, left: Box::new(z1), right: Box::new(z2), ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_Binary); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Binary(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Binary(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Block(x: ExprBlock, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_block(x.block, TailExprTargetKind::BlockTailExpr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Block(ExprBlock { attrs: at, block: z1, ..x }), k1)) }
}
proof fn same_Block(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Block ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Block); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(with_attrs);
    let x = e->Block_0;
    let x2 = ExprBlock { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Block(x2));
    assert(core_Block(x2, at2, c, k) == core_Block(x, at2, c, k));
}
pub proof fn unf_Block(e: Expr, c: CtxV, k: St) ensures e is Block ==> sp_expr(e, c, k) == ({ let x = e->Block_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_block(x.block, TailExprTargetKind::BlockTailExpr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Block(ExprBlock { attrs: at, block: z1, ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Block); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr);
    if let Expr::Block(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Block(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Break(x: ExprBreak, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_opt(x.expr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Break(ExprBreak { attrs: at, expr: z1, ..x }), k1)) }
}
proof fn same_Break(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Break ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Break); reveal(is_leaf); reveal(sp_core); reveal(sp_opt); reveal(with_attrs);
    let x = e->Break_0;
    let x2 = ExprBreak { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Break(x2));
    assert(core_Break(x2, at2, c, k) == core_Break(x, at2, c, k));
}
pub proof fn unf_Break(e: Expr, c: CtxV, k: St) ensures e is Break ==> sp_expr(e, c, k) == ({ let x = e->Break_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_opt(x.expr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Break(ExprBreak { attrs: at, expr: z1, ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Break); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(sp_opt);
    if let Expr::Break(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Break(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Call(x: ExprCall, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.func, c, k0) { None => None, Some((z1, k1)) => match sp_exprs(x.args.items, c, 0, Seq::empty(), k1) { None => None, Some((z2, k2)) => Some((Expr::Call(ExprCall { attrs: at, func: Box::new(z1), args: x.args.with_seq(z2), ..x }), k2)) } }
}
proof fn same_Call(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Call ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Call); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(sp_exprs); reveal(with_attrs);
    let x = e->Call_0;
    let x2 = ExprCall { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Call(x2));
    assert(core_Call(x2, at2, c, k) == core_Call(x, at2, c, k));
}
pub proof fn unf_Call(e: Expr, c: CtxV, k: St) ensures e is Call ==> sp_expr(e, c, k) == ({ let x = e->Call_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.func, c1, k) { None => None, Some((z1, k1)) => match sp_exprs(x.args.items, c1, 0, Seq::empty(), k1) { None => None, Some((z2, k2)) => Some((Expr::Call(ExprCall { attrs: at, func: Box::new(z1), args: x.args.with_seq(z2), ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_Call); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(sp_exprs);
    if let Expr::Call(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Call(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Cast(x: ExprCast, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Cast(ExprCast { attrs: at, expr: Box::new(z1), ..x }), k1)) }
}
proof fn same_Cast(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Cast ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Cast); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Cast_0;
    let x2 = ExprCast { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Cast(x2));
    assert(core_Cast(x2, at2, c, k) == core_Cast(x, at2, c, k));
}
pub proof fn unf_Cast(e: Expr, c: CtxV, k: St) ensures e is Cast ==> sp_expr(e, c, k) == ({ let x = e->Cast_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Cast(ExprCast { attrs: at, expr: Box::new(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Cast); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Cast(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Cast(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Const(x: ExprConst, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_block(x.block, TailExprTargetKind::BlockTailExpr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Const(ExprConst { attrs: at, block: z1, ..x }), k1)) }
}
proof fn same_Const(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Const ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Const); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(with_attrs);
    let x = e->Const_0;
    let x2 = ExprConst { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Const(x2));
    assert(core_Const(x2, at2, c, k) == core_Const(x, at2, c, k));
}
pub proof fn unf_Const(e: Expr, c: CtxV, k: St) ensures e is Const ==> sp_expr(e, c, k) == ({ let x = e->Const_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_block(x.block, TailExprTargetKind::BlockTailExpr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Const(ExprConst { attrs: at, block: z1, ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Const); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr);
    if let Expr::Const(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Const(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Field(x: ExprField, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.base, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Field(ExprField { attrs: at, base: Box::new(z1), ..x }), k1)) }
}
proof fn same_Field(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Field ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Field); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Field_0;
    let x2 = ExprField { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Field(x2));
    assert(core_Field(x2, at2, c, k) == core_Field(x, at2, c, k));
}
pub proof fn unf_Field(e: Expr, c: CtxV, k: St) ensures e is Field ==> sp_expr(e, c, k) == ({ let x = e->Field_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.base, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Field(ExprField { attrs: at, base: Box::new(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Field); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Field(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Field(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_ForLoop(x: ExprForLoop, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => match sp_block(x.body, TailExprTargetKind::BlockTailExpr, c, k1) { None => None, Some((z2, k2)) => Some((Expr::ForLoop(ExprForLoop { attrs: at, expr: Box::new(z1), body: z2, ..x }), k2)) } }
}
proof fn same_ForLoop(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is ForLoop ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_ForLoop); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->ForLoop_0;
    let x2 = ExprForLoop { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::ForLoop(x2));
    assert(core_ForLoop(x2, at2, c, k) == core_ForLoop(x, at2, c, k));
}
pub proof fn unf_ForLoop(e: Expr, c: CtxV, k: St) ensures e is ForLoop ==> sp_expr(e, c, k) == ({ let x = e->ForLoop_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => match sp_block(x.body, TailExprTargetKind::BlockTailExpr, c1, k1) { None => None, Some((z2, k2)) => Some((Expr::ForLoop(ExprForLoop { attrs: at, expr: Box::new(z1), body: z2, ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_ForLoop); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr);
    if let Expr::ForLoop(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_ForLoop(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Group(x: ExprGroup, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Group(ExprGroup { attrs: at, expr: Box::new(z1), ..x }), k1)) }
}
proof fn same_Group(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Group ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Group); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Group_0;
    let x2 = ExprGroup { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Group(x2));
    assert(core_Group(x2, at2, c, k) == core_Group(x, at2, c, k));
}
pub proof fn unf_Group(e: Expr, c: CtxV, k: St) ensures e is Group ==> sp_expr(e, c, k) == ({ let x = e->Group_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Group(ExprGroup { attrs: at, expr: Box::new(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Group); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Group(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Group(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_If(x: ExprIf, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.cond, c, k0) { None => None, Some((z1, k1)) => match sp_block(x.then_branch, TailExprTargetKind::BlockTailExpr, c, k1) { None => None, Some((z2, k2)) => match sp_optpair(x.else_branch, sub_ctx(c), k2) { None => None, Some((z3, k3)) => Some((Expr::If(ExprIf { attrs: at, cond: Box::new(z1), then_branch: z2, else_branch: z3, ..x }), k3)) } } }
}
proof fn same_If(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is If ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_If); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr); reveal(sp_optpair); reveal(with_attrs);
    let x = e->If_0;
    let x2 = ExprIf { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::If(x2));
    assert(core_If(x2, at2, c, k) == core_If(x, at2, c, k));
}
pub proof fn unf_If(e: Expr, c: CtxV, k: St) ensures e is If ==> sp_expr(e, c, k) == ({ let x = e->If_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.cond, c1, k) { None => None, Some((z1, k1)) => match sp_block(x.then_branch, TailExprTargetKind::BlockTailExpr, c1, k1) { None => None, Some((z2, k2)) => match sp_optpair(x.else_branch, sub_ctx(c1), k2) { None => None, Some((z3, k3)) => Some((Expr::If(ExprIf { attrs: at, cond: Box::new(z1), then_branch: z2, else_branch: z3, ..x }), k3)) } } } } }) {
    reveal(attrs_of); reveal(core_If); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr); reveal(sp_optpair);
    if let Expr::If(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_If(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Index(x: ExprIndex, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => match sp_expr(*x.index, c, k1) { None => None, Some((z2, k2)) => Some((Expr::Index(ExprIndex { attrs: at, expr: Box::new(z1), index: Box::new(z2), ..x }), k2)) } }
}
proof fn same_Index(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Index ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Index); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Index_0;
    let x2 = ExprIndex { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Index(x2));
    assert(core_Index(x2, at2, c, k) == core_Index(x, at2, c, k));
}
pub proof fn unf_Index(e: Expr, c: CtxV, k: St) ensures e is Index ==> sp_expr(e, c, k) == ({ let x = e->Index_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => match sp_expr(*x.index, c1, k1) { None => None, Some((z2, k2)) => Some((Expr::Index(ExprIndex { attrs: at, expr: Box::new(z1), index: Box::new(z2), ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_Index); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Index(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Index(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Let(x: ExprLet, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Let(ExprLet { attrs: at, expr: Box::new(z1), ..x }), k1)) }
}
proof fn same_Let(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Let ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Let); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Let_0;
    let x2 = ExprLet { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Let(x2));
    assert(core_Let(x2, at2, c, k) == core_Let(x, at2, c, k));
}
pub proof fn unf_Let(e: Expr, c: CtxV, k: St) ensures e is Let ==> sp_expr(e, c, k) == ({ let x = e->Let_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Let(ExprLet { attrs: at, expr: Box::new(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Let); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Let(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Let(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Loop(x: ExprLoop, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_block(x.body, TailExprTargetKind::BlockTailExpr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Loop(ExprLoop { attrs: at, body: z1, ..x }), k1)) }
}
proof fn same_Loop(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Loop ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Loop); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(with_attrs);
    let x = e->Loop_0;
    let x2 = ExprLoop { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Loop(x2));
    assert(core_Loop(x2, at2, c, k) == core_Loop(x, at2, c, k));
}
pub proof fn unf_Loop(e: Expr, c: CtxV, k: St) ensures e is Loop ==> sp_expr(e, c, k) == ({ let x = e->Loop_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_block(x.body, TailExprTargetKind::BlockTailExpr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Loop(ExprLoop { attrs: at, body: z1, ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Loop); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr);
    if let Expr::Loop(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Loop(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Match(x: ExprMatch, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => match sp_arms(x.arms, sub_ctx(c), 0, Seq::empty(), k1) { None => None, Some((z2, k2)) => Some((Expr::Match(ExprMatch { attrs: at, expr: Box::new(z1), arms: vec_of(z2), ..x }), k2)) } }
}
proof fn same_Match(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Match ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Match); reveal(is_leaf); reveal(sp_arms); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Match_0;
    let x2 = ExprMatch { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Match(x2));
    assert(core_Match(x2, at2, c, k) == core_Match(x, at2, c, k));
}
pub proof fn unf_Match(e: Expr, c: CtxV, k: St) ensures e is Match ==> sp_expr(e, c, k) == ({ let x = e->Match_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => match sp_arms(x.arms, sub_ctx(c1), 0, Seq::empty(), k1) { None => None, Some((z2, k2)) => Some((Expr::Match(ExprMatch { attrs: at, expr: Box::new(z1), arms: vec_of(z2), ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_Match); reveal(is_leaf); reveal(sp_arms); reveal(sp_core); reveal(sp_expr);
    if let Expr::Match(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Match(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_MethodCall(x: ExprMethodCall, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.receiver, c, k0) { None => None, Some((z1, k1)) => match sp_exprs(x.args.items, c, 0, Seq::empty(), k1) { None => None, Some((z2, k2)) => Some((Expr::MethodCall(ExprMethodCall { attrs: at, receiver: Box::new(z1), args: x.args.with_seq(z2), ..x }), k2)) } }
}
proof fn same_MethodCall(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is MethodCall ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_MethodCall); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(sp_exprs); reveal(with_attrs);
    let x = e->MethodCall_0;
    let x2 = ExprMethodCall { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::MethodCall(x2));
    assert(core_MethodCall(x2, at2, c, k) == core_MethodCall(x, at2, c, k));
}
pub proof fn unf_MethodCall(e: Expr, c: CtxV, k: St) ensures e is MethodCall ==> sp_expr(e, c, k) == ({ let x = e->MethodCall_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.receiver, c1, k) { None => None, Some((z1, k1)) => match sp_exprs(x.args.items, c1, 0, Seq::empty(), k1) { None => None, Some((z2, k2)) => Some((Expr::MethodCall(ExprMethodCall { attrs: at, receiver: Box::new(z1), args: x.args.with_seq(z2), ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_MethodCall); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(sp_exprs);
    if let Expr::MethodCall(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_MethodCall(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Paren(x: ExprParen, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Paren(ExprParen { attrs: at, expr: Box::new(z1), ..x }), k1)) }
}
proof fn same_Paren(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Paren ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Paren); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Paren_0;
    let x2 = ExprParen { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Paren(x2));
    assert(core_Paren(x2, at2, c, k) == core_Paren(x, at2, c, k));
}
pub proof fn unf_Paren(e: Expr, c: CtxV, k: St) ensures e is Paren ==> sp_expr(e, c, k) == ({ let x = e->Paren_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Paren(ExprParen { attrs: at, expr: Box::new(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Paren); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Paren(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Paren(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Range(x: ExprRange, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_opt(x.start, c, k0) { None => None, Some((z1, k1)) => match sp_opt(x.end, c, k1) { None => None, Some((z2, k2)) => Some((Expr::Range(ExprRange { attrs: at, start: z1, end: z2, ..x }), k2)) } }
}
proof fn same_Range(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Range ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Range); reveal(is_leaf); reveal(sp_core); reveal(sp_opt); reveal(with_attrs);
    let x = e->Range_0;
    let x2 = ExprRange { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Range(x2));
    assert(core_Range(x2, at2, c, k) == core_Range(x, at2, c, k));
}
pub proof fn unf_Range(e: Expr, c: CtxV, k: St) ensures e is Range ==> sp_expr(e, c, k) == ({ let x = e->Range_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_opt(x.start, c1, k) { None => None, Some((z1, k1)) => match sp_opt(x.end, c1, k1) { None => None, Some((z2, k2)) => Some((Expr::Range(ExprRange { attrs: at, start: z1, end: z2, ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_Range); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(sp_opt);
    if let Expr::Range(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Range(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_RawAddr(x: ExprRawAddr, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::RawAddr(ExprRawAddr { attrs: at, expr: Box::new(z1), ..x }), k1)) }
}
proof fn same_RawAddr(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is RawAddr ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_RawAddr); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->RawAddr_0;
    let x2 = ExprRawAddr { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::RawAddr(x2));
    assert(core_RawAddr(x2, at2, c, k) == core_RawAddr(x, at2, c, k));
}
pub proof fn unf_RawAddr(e: Expr, c: CtxV, k: St) ensures e is RawAddr ==> sp_expr(e, c, k) == ({ let x = e->RawAddr_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::RawAddr(ExprRawAddr { attrs: at, expr: Box::new(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_RawAddr); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::RawAddr(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_RawAddr(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Reference(x: ExprReference, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Reference(ExprReference { attrs: at, expr: Box::new(z1), ..x }), k1)) }
}
proof fn same_Reference(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Reference ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Reference); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Reference_0;
    let x2 = ExprReference { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Reference(x2));
    assert(core_Reference(x2, at2, c, k) == core_Reference(x, at2, c, k));
}
pub proof fn unf_Reference(e: Expr, c: CtxV, k: St) ensures e is Reference ==> sp_expr(e, c, k) == ({ let x = e->Reference_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Reference(ExprReference { attrs: at, expr: Box::new(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Reference); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Reference(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Reference(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Repeat(x: ExprRepeat, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => match sp_expr(*x.len, c, k1) { None => None, Some((z2, k2)) => Some((Expr::Repeat(ExprRepeat { attrs: at, expr: Box::new(z1), len: Box::new(z2), ..x }), k2)) } }
}
proof fn same_Repeat(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Repeat ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Repeat); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Repeat_0;
    let x2 = ExprRepeat { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Repeat(x2));
    assert(core_Repeat(x2, at2, c, k) == core_Repeat(x, at2, c, k));
}
pub proof fn unf_Repeat(e: Expr, c: CtxV, k: St) ensures e is Repeat ==> sp_expr(e, c, k) == ({ let x = e->Repeat_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => match sp_expr(*x.len, c1, k1) { None => None, Some((z2, k2)) => Some((Expr::Repeat(ExprRepeat { attrs: at, expr: Box::new(z1), len: Box::new(z2), ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_Repeat); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Repeat(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Repeat(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Struct(x: ExprStruct, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_fields(x.fields.items, c, 0, Seq::empty(), k0) { None => None, Some((z1, k1)) => match sp_opt(x.rest, c, k1) { None => None, Some((z2, k2)) => Some((Expr::Struct(ExprStruct { attrs: at, fields: x.fields.with_seq(z1), rest: z2, ..x }), k2)) } }
}
proof fn same_Struct(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Struct ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Struct); reveal(is_leaf); reveal(sp_core); reveal(sp_fields); reveal(sp_opt); reveal(with_attrs);
    let x = e->Struct_0;
    let x2 = ExprStruct { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Struct(x2));
    assert(core_Struct(x2, at2, c, k) == core_Struct(x, at2, c, k));
}
pub proof fn unf_Struct(e: Expr, c: CtxV, k: St) ensures e is Struct ==> sp_expr(e, c, k) == ({ let x = e->Struct_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_fields(x.fields.items, c1, 0, Seq::empty(), k) { None => None, Some((z1, k1)) => match sp_opt(x.rest, c1, k1) { None => None, Some((z2, k2)) => Some((Expr::Struct(ExprStruct { attrs: at, fields: x.fields.with_seq(z1), rest: z2, ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_Struct); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(sp_fields); reveal(sp_opt);
    if let Expr::Struct(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Struct(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_TryBlock(x: ExprTryBlock, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_block(x.block, TailExprTargetKind::BlockTailExpr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::TryBlock(ExprTryBlock { attrs: at, block: z1, ..x }), k1)) }
}
proof fn same_TryBlock(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is TryBlock ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_TryBlock); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(with_attrs);
    let x = e->TryBlock_0;
    let x2 = ExprTryBlock { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::TryBlock(x2));
    assert(core_TryBlock(x2, at2, c, k) == core_TryBlock(x, at2, c, k));
}
pub proof fn unf_TryBlock(e: Expr, c: CtxV, k: St) ensures e is TryBlock ==> sp_expr(e, c, k) == ({ let x = e->TryBlock_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_block(x.block, TailExprTargetKind::BlockTailExpr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::TryBlock(ExprTryBlock { attrs: at, block: z1, ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_TryBlock); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr);
    if let Expr::TryBlock(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_TryBlock(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Tuple(x: ExprTuple, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_exprs(x.elems.items, c, 0, Seq::empty(), k0) { None => None, Some((z1, k1)) => Some((Expr::Tuple(ExprTuple { attrs: at, elems: x.elems.with_seq(z1), ..x }), k1)) }
}
proof fn same_Tuple(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Tuple ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Tuple); reveal(is_leaf); reveal(sp_core); reveal(sp_exprs); reveal(with_attrs);
    let x = e->Tuple_0;
    let x2 = ExprTuple { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Tuple(x2));
    assert(core_Tuple(x2, at2, c, k) == core_Tuple(x, at2, c, k));
}
pub proof fn unf_Tuple(e: Expr, c: CtxV, k: St) ensures e is Tuple ==> sp_expr(e, c, k) == ({ let x = e->Tuple_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_exprs(x.elems.items, c1, 0, Seq::empty(), k) { None => None, Some((z1, k1)) => Some((Expr::Tuple(ExprTuple { attrs: at, elems: x.elems.with_seq(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Tuple); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(sp_exprs);
    if let Expr::Tuple(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Tuple(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Unary(x: ExprUnary, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Unary(ExprUnary { attrs: at, expr: Box::new(z1), ..x }), k1)) }
}
proof fn same_Unary(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Unary ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Unary); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Unary_0;
    let x2 = ExprUnary { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Unary(x2));
    assert(core_Unary(x2, at2, c, k) == core_Unary(x, at2, c, k));
}
pub proof fn unf_Unary(e: Expr, c: CtxV, k: St) ensures e is Unary ==> sp_expr(e, c, k) == ({ let x = e->Unary_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Unary(ExprUnary { attrs: at, expr: Box::new(z1), ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Unary); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Unary(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Unary(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Unsafe(x: ExprUnsafe, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_block(x.block, TailExprTargetKind::BlockTailExpr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Unsafe(ExprUnsafe { attrs: at, block: z1, ..x }), k1)) }
}
proof fn same_Unsafe(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Unsafe ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Unsafe); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(with_attrs);
    let x = e->Unsafe_0;
    let x2 = ExprUnsafe { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Unsafe(x2));
    assert(core_Unsafe(x2, at2, c, k) == core_Unsafe(x, at2, c, k));
}
pub proof fn unf_Unsafe(e: Expr, c: CtxV, k: St) ensures e is Unsafe ==> sp_expr(e, c, k) == ({ let x = e->Unsafe_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_block(x.block, TailExprTargetKind::BlockTailExpr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Unsafe(ExprUnsafe { attrs: at, block: z1, ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Unsafe); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr);
    if let Expr::Unsafe(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Unsafe(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_While(x: ExprWhile, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.cond, c, k0) { None => None, Some((z1, k1)) => match sp_block(x.body, TailExprTargetKind::BlockTailExpr, c, k1) { None => None, Some((z2, k2)) => Some((Expr::While(ExprWhile { attrs: at, cond: Box::new(z1), body: z2, ..x }), k2)) } }
}
proof fn same_While(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is While ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_While); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->While_0;
    let x2 = ExprWhile { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::While(x2));
    assert(core_While(x2, at2, c, k) == core_While(x, at2, c, k));
}
pub proof fn unf_While(e: Expr, c: CtxV, k: St) ensures e is While ==> sp_expr(e, c, k) == ({ let x = e->While_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.cond, c1, k) { None => None, Some((z1, k1)) => match sp_block(x.body, TailExprTargetKind::BlockTailExpr, c1, k1) { None => None, Some((z2, k2)) => Some((Expr::While(ExprWhile { attrs: at, cond: Box::new(z1), body: z2, ..x }), k2)) } } } }) {
    reveal(attrs_of); reveal(core_While); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr);
    if let Expr::While(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_While(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Yield(x: ExprYield, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_opt(x.expr, c, k0) { None => None, Some((z1, k1)) => Some((Expr::Yield(ExprYield { attrs: at, expr: z1, ..x }), k1)) }
}
proof fn same_Yield(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Yield ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Yield); reveal(is_leaf); reveal(sp_core); reveal(sp_opt); reveal(with_attrs);
    let x = e->Yield_0;
    let x2 = ExprYield { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Yield(x2));
    assert(core_Yield(x2, at2, c, k) == core_Yield(x, at2, c, k));
}
pub proof fn unf_Yield(e: Expr, c: CtxV, k: St) ensures e is Yield ==> sp_expr(e, c, k) == ({ let x = e->Yield_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_opt(x.expr, c1, k) { None => None, Some((z1, k1)) => Some((Expr::Yield(ExprYield { attrs: at, expr: z1, ..x }), k1)) } } }) {
    reveal(attrs_of); reveal(core_Yield); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(sp_opt);
    if let Expr::Yield(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Yield(x, at, c1, k)); } }
}
/// C01: the operand first, then the `?` itself
#[verifier::opaque]
pub open spec fn core_Try(x: ExprTry, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_expr(*x.expr, c, k0) {
            None => None,
            Some((z1, k1)) => match sp_hook(z1, tokens_of(ExprTry { attrs: at, ..x }), HookTargetKind::Question, span_of(x.question_token), c, k1) {
                None => None,
                Some((z2, consumed, k2)) => Some((if consumed { outer_attrs(z2, at) } else { Expr::Try(ExprTry { attrs: at, expr: Box::new(z2), ..x }) }, k2)),
            },
        }
}
proof fn same_Try(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Try ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Try); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Try_0;
    let x2 = ExprTry { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Try(x2));
    assert(core_Try(x2, at2, c, k) == core_Try(x, at2, c, k));
}
pub proof fn unf_Try(e: Expr, c: CtxV, k: St) ensures e is Try ==> sp_expr(e, c, k) == ({ let x = e->Try_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_expr(*x.expr, c1, k) {
            None => None,
            Some((z1, k1)) => match sp_hook(z1, tokens_of(ExprTry { attrs: at, ..x }), HookTargetKind::Question, span_of(x.question_token), c1, k1) {
                None => None,
                Some((z2, consumed, k2)) => Some((if consumed { outer_attrs(z2, at) } else { Expr::Try(ExprTry { attrs: at, expr: Box::new(z2), ..x }) }, k2)),
            },
        } } }) {
    reveal(attrs_of); reveal(core_Try); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Try(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Try(x, at, c1, k)); } }
}
/// C02: a return value by the rule for return
#[verifier::opaque]
pub open spec fn core_Return(x: ExprReturn, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match x.expr {
            None => Some((Expr::Return(ExprReturn { attrs: at, ..x }), k0)),
            Some(v) => match sp_expr(*v, c, k0) {
                None => None,
                Some((z1, k1)) => if return_target(z1, c) {
                    match sp_hook(z1, tokens_of(ExprReturn { attrs: at, ..x }), HookTargetKind::Return, span_of(x.return_token), c, k1) {
                        None => None,
                        Some((z2, _, k2)) => Some((Expr::Return(ExprReturn { attrs: at, expr: Some(Box::new(z2)), ..x }), k2)),
                    }
                } else { Some((Expr::Return(ExprReturn { attrs: at, expr: Some(Box::new(z1)), ..x }), k1)) },
            },
        }
}
proof fn same_Return(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Return ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Return); reveal(is_leaf); reveal(sp_core); reveal(sp_expr); reveal(with_attrs);
    let x = e->Return_0;
    let x2 = ExprReturn { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Return(x2));
    assert(core_Return(x2, at2, c, k) == core_Return(x, at2, c, k));
}
pub proof fn unf_Return(e: Expr, c: CtxV, k: St) ensures e is Return ==> sp_expr(e, c, k) == ({ let x = e->Return_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match x.expr {
            None => Some((Expr::Return(ExprReturn { attrs: at, ..x }), k)),
            Some(v) => match sp_expr(*v, c1, k) {
                None => None,
                Some((z1, k1)) => if return_target(z1, c1) {
                    match sp_hook(z1, tokens_of(ExprReturn { attrs: at, ..x }), HookTargetKind::Return, span_of(x.return_token), c1, k1) {
                        None => None,
                        Some((z2, _, k2)) => Some((Expr::Return(ExprReturn { attrs: at, expr: Some(Box::new(z2)), ..x }), k2)),
                    }
                } else { Some((Expr::Return(ExprReturn { attrs: at, expr: Some(Box::new(z1)), ..x }), k1)) },
            },
        } } }) {
    reveal(attrs_of); reveal(core_Return); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Return(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Return(x, at, c1, k)); } }
}
/// C02 C17: the body of a closure is a function body of its own
#[verifier::opaque]
pub open spec fn core_Closure(x: ExprClosure, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    {
            let cc = closure_ctx(c, ExprClosure { attrs: at, ..x });
            match *x.body {
                Expr::Block(b) => match sp_attrs(b.attrs, cc) {
                    None => None,
                    Some((bat, c2)) => match sp_block(b.block, TailExprTargetKind::FnBlockTailExpr, c2, k0) {
                        None => None,
                        Some((z1, k1)) => Some((Expr::Closure(ExprClosure { attrs: at, body: Box::new(Expr::Block(ExprBlock { attrs: bat, block: z1, ..b })), ..x }), k1)),
                    },
                },
                _ => match sp_tail(*x.body, TailExprTargetKind::FnBlockTailExpr, cc, k0) {
                    None => None,
                    Some((z1, k1)) => Some((Expr::Closure(ExprClosure { attrs: at, body: Box::new(z1), ..x }), k1)),
                },
            }
        }
}
proof fn same_Closure(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Closure ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Closure); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_tail); reveal(with_attrs);
    let x = e->Closure_0;
    let x2 = ExprClosure { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Closure(x2));
    assert(core_Closure(x2, at2, c, k) == core_Closure(x, at2, c, k));
}
pub proof fn unf_Closure(e: Expr, c: CtxV, k: St) ensures e is Closure ==> sp_expr(e, c, k) == ({ let x = e->Closure_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => {
            let cc = closure_ctx(c1, ExprClosure { attrs: at, ..x });
            match *x.body {
                Expr::Block(b) => match sp_attrs(b.attrs, cc) {
                    None => None,
                    Some((bat, c2)) => match sp_block(b.block, TailExprTargetKind::FnBlockTailExpr, c2, k) {
                        None => None,
                        Some((z1, k1)) => Some((Expr::Closure(ExprClosure { attrs: at, body: Box::new(Expr::Block(ExprBlock { attrs: bat, block: z1, ..b })), ..x }), k1)),
                    },
                },
                _ => match sp_tail(*x.body, TailExprTargetKind::FnBlockTailExpr, cc, k) {
                    None => None,
                    Some((z1, k1)) => Some((Expr::Closure(ExprClosure { attrs: at, body: Box::new(z1), ..x }), k1)),
                },
            }
        } } }) {
    reveal(attrs_of); reveal(core_Closure); reveal(is_leaf); reveal(sp_block); reveal(sp_core); reveal(sp_expr); reveal(sp_tail);
    if let Expr::Closure(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Closure(x, at, c1, k)); } }
}
#[verifier::opaque]
pub open spec fn core_Macro(x: ExprMacro, at: Vec<Attribute>, c: CtxV, k0: St) -> Option<(Expr, St)> decreases x, 0int {
    match sp_macro(x.mac, c, k0) {
            None => None,
            Some((m, k1)) => Some((Expr::Macro(ExprMacro { attrs: at, mac: m }), k1)),
        }
}
proof fn same_Macro(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St) requires e is Macro ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k), attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e), with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e {
    reveal(attrs_of); reveal(core_Macro); reveal(is_leaf); reveal(sp_core); reveal(with_attrs);
    let x = e->Macro_0;
    let x2 = ExprMacro { attrs: at, ..x };
    assert(with_attrs(e, at) == Expr::Macro(x2));
    assert(core_Macro(x2, at2, c, k) == core_Macro(x, at2, c, k));
}
pub proof fn unf_Macro(e: Expr, c: CtxV, k: St) ensures e is Macro ==> sp_expr(e, c, k) == ({ let x = e->Macro_0; match sp_attrs(x.attrs, c) { None => None, Some((at, c1)) => match sp_macro(x.mac, c1, k) {
            None => None,
            Some((m, k1)) => Some((Expr::Macro(ExprMacro { attrs: at, mac: m }), k1)),
        } } }) {
    reveal(attrs_of); reveal(core_Macro); reveal(is_leaf); reveal(sp_core); reveal(sp_expr);
    if let Expr::Macro(x) = e { if let Some((at, c1)) = sp_attrs(x.attrs, c) { assert(sp_core(e, at, c1, k) == core_Macro(x, at, c1, k)); } }
}
pub proof fn unf_Continue(e: Expr, c: CtxV, k: St) ensures e is Array || e is Assign || e is Async || e is Await || e is Binary || e is Block || e is Break || e is Call || e is Cast || e is Const || e is Field || e is ForLoop || e is Group || e is If || e is Index || e is Let || e is Loop || e is Match || e is MethodCall || e is Paren || e is Range || e is RawAddr || e is Reference || e is Repeat || e is Struct || e is TryBlock || e is Tuple || e is Unary || e is Unsafe || e is While || e is Yield || e is Try || e is Return || e is Closure || e is Macro || sp_expr(e, c, k) == Some((e, k)) { reveal(sp_expr); reveal(is_leaf); }
pub proof fn unf_Infer(e: Expr, c: CtxV, k: St) ensures e is Array || e is Assign || e is Async || e is Await || e is Binary || e is Block || e is Break || e is Call || e is Cast || e is Const || e is Field || e is ForLoop || e is Group || e is If || e is Index || e is Let || e is Loop || e is Match || e is MethodCall || e is Paren || e is Range || e is RawAddr || e is Reference || e is Repeat || e is Struct || e is TryBlock || e is Tuple || e is Unary || e is Unsafe || e is While || e is Yield || e is Try || e is Return || e is Closure || e is Macro || sp_expr(e, c, k) == Some((e, k)) { reveal(sp_expr); reveal(is_leaf); }
pub proof fn unf_Lit(e: Expr, c: CtxV, k: St) ensures e is Array || e is Assign || e is Async || e is Await || e is Binary || e is Block || e is Break || e is Call || e is Cast || e is Const || e is Field || e is ForLoop || e is Group || e is If || e is Index || e is Let || e is Loop || e is Match || e is MethodCall || e is Paren || e is Range || e is RawAddr || e is Reference || e is Repeat || e is Struct || e is TryBlock || e is Tuple || e is Unary || e is Unsafe || e is While || e is Yield || e is Try || e is Return || e is Closure || e is Macro || sp_expr(e, c, k) == Some((e, k)) { reveal(sp_expr); reveal(is_leaf); }
pub proof fn unf_Path(e: Expr, c: CtxV, k: St) ensures e is Array || e is Assign || e is Async || e is Await || e is Binary || e is Block || e is Break || e is Call || e is Cast || e is Const || e is Field || e is ForLoop || e is Group || e is If || e is Index || e is Let || e is Loop || e is Match || e is MethodCall || e is Paren || e is Range || e is RawAddr || e is Reference || e is Repeat || e is Struct || e is TryBlock || e is Tuple || e is Unary || e is Unsafe || e is While || e is Yield || e is Try || e is Return || e is Closure || e is Macro || sp_expr(e, c, k) == Some((e, k)) { reveal(sp_expr); reveal(is_leaf); }
#[verifier::opaque]
pub open spec fn sp_exprs(v: Vec<Expr>, c: CtxV, i: nat, acc: Seq<Expr>, k: St) -> Option<(Seq<Expr>, St)> decreases v, v@.len() - i {
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_expr(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_exprs(v, c, i + 1, acc.push(y), k2) }
    }
}
pub proof fn unf_sp_exprs(v: Vec<Expr>, c: CtxV, i: nat, acc: Seq<Expr>, k: St) ensures sp_exprs(v, c, i, acc, k) == ({
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_expr(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_exprs(v, c, i + 1, acc.push(y), k2) }
    }
}) { reveal(sp_expr); reveal(sp_exprs); }
#[verifier::opaque]
pub open spec fn sp_items(v: Vec<Item>, c: CtxV, i: nat, acc: Seq<Item>, k: St) -> Option<(Seq<Item>, St)> decreases v, v@.len() - i {
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_item(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_items(v, c, i + 1, acc.push(y), k2) }
    }
}
pub proof fn unf_sp_items(v: Vec<Item>, c: CtxV, i: nat, acc: Seq<Item>, k: St) ensures sp_items(v, c, i, acc, k) == ({
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_item(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_items(v, c, i + 1, acc.push(y), k2) }
    }
}) { reveal(sp_item); reveal(sp_items); }
#[verifier::opaque]
pub open spec fn sp_arms(v: Vec<Arm>, c: CtxV, i: nat, acc: Seq<Arm>, k: St) -> Option<(Seq<Arm>, St)> decreases v, v@.len() - i {
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_arm(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_arms(v, c, i + 1, acc.push(y), k2) }
    }
}
pub proof fn unf_sp_arms(v: Vec<Arm>, c: CtxV, i: nat, acc: Seq<Arm>, k: St) ensures sp_arms(v, c, i, acc, k) == ({
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_arm(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_arms(v, c, i + 1, acc.push(y), k2) }
    }
}) { reveal(sp_arm); reveal(sp_arms); }
#[verifier::opaque]
pub open spec fn sp_fields(v: Vec<FieldValue>, c: CtxV, i: nat, acc: Seq<FieldValue>, k: St) -> Option<(Seq<FieldValue>, St)> decreases v, v@.len() - i {
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_field(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_fields(v, c, i + 1, acc.push(y), k2) }
    }
}
pub proof fn unf_sp_fields(v: Vec<FieldValue>, c: CtxV, i: nat, acc: Seq<FieldValue>, k: St) ensures sp_fields(v, c, i, acc, k) == ({
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_field(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_fields(v, c, i + 1, acc.push(y), k2) }
    }
}) { reveal(sp_field); reveal(sp_fields); }
#[verifier::opaque]
pub open spec fn sp_impl_items(v: Vec<ImplItem>, c: CtxV, i: nat, acc: Seq<ImplItem>, k: St) -> Option<(Seq<ImplItem>, St)> decreases v, v@.len() - i {
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_impl_item(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_impl_items(v, c, i + 1, acc.push(y), k2) }
    }
}
pub proof fn unf_sp_impl_items(v: Vec<ImplItem>, c: CtxV, i: nat, acc: Seq<ImplItem>, k: St) ensures sp_impl_items(v, c, i, acc, k) == ({
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_impl_item(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_impl_items(v, c, i + 1, acc.push(y), k2) }
    }
}) { reveal(sp_impl_item); reveal(sp_impl_items); }
#[verifier::opaque]
pub open spec fn sp_trait_items(v: Vec<TraitItem>, c: CtxV, i: nat, acc: Seq<TraitItem>, k: St) -> Option<(Seq<TraitItem>, St)> decreases v, v@.len() - i {
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_trait_item(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_trait_items(v, c, i + 1, acc.push(y), k2) }
    }
}
pub proof fn unf_sp_trait_items(v: Vec<TraitItem>, c: CtxV, i: nat, acc: Seq<TraitItem>, k: St) ensures sp_trait_items(v, c, i, acc, k) == ({
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_trait_item(v@[i as int], c, k) { None => None, Some((y, k2)) => sp_trait_items(v, c, i + 1, acc.push(y), k2) }
    }
}) { reveal(sp_trait_item); reveal(sp_trait_items); }
#[verifier::opaque]
pub open spec fn sp_stmts(v: Vec<Stmt>, tail: TailExprTargetKind, c: CtxV, i: nat, acc: Seq<Stmt>, k: St) -> Option<(Seq<Stmt>, St)> decreases v, v@.len() - i {
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_stmt(v@[i as int], if i + 1 == v@.len() { tail } else { TailExprTargetKind::NotTarget }, c, k) { None => None, Some((y, k2)) => sp_stmts(v, tail, c, i + 1, acc.push(y), k2) }
    }
}
pub proof fn unf_sp_stmts(v: Vec<Stmt>, tail: TailExprTargetKind, c: CtxV, i: nat, acc: Seq<Stmt>, k: St) ensures sp_stmts(v, tail, c, i, acc, k) == ({
    if i >= v@.len() { Some((acc, k)) } else {
        match sp_stmt(v@[i as int], if i + 1 == v@.len() { tail } else { TailExprTargetKind::NotTarget }, c, k) { None => None, Some((y, k2)) => sp_stmts(v, tail, c, i + 1, acc.push(y), k2) }
    }
}) { reveal(sp_stmt); reveal(sp_stmts); }
pub proof fn core_attrs(e: Expr, at: Vec<Attribute>, at2: Vec<Attribute>, c: CtxV, k: St)
    requires attrs_of(e) is Some
    ensures sp_core(with_attrs(e, at), at2, c, k) == sp_core(e, at2, c, k),
        attrs_of(with_attrs(e, at)) == Some(at), is_leaf(with_attrs(e, at)) == is_leaf(e),
        with_attrs(with_attrs(e, at), at2) == with_attrs(e, at2), with_attrs(e, attrs_of(e)->0) == e,
{
    match e {
        Expr::Array(x) => { same_Array(e, at, at2, c, k); }
        Expr::Assign(x) => { same_Assign(e, at, at2, c, k); }
        Expr::Async(x) => { same_Async(e, at, at2, c, k); }
        Expr::Await(x) => { same_Await(e, at, at2, c, k); }
        Expr::Binary(x) => { same_Binary(e, at, at2, c, k); }
        Expr::Block(x) => { same_Block(e, at, at2, c, k); }
        Expr::Break(x) => { same_Break(e, at, at2, c, k); }
        Expr::Call(x) => { same_Call(e, at, at2, c, k); }
        Expr::Cast(x) => { same_Cast(e, at, at2, c, k); }
        Expr::Const(x) => { same_Const(e, at, at2, c, k); }
        Expr::Field(x) => { same_Field(e, at, at2, c, k); }
        Expr::ForLoop(x) => { same_ForLoop(e, at, at2, c, k); }
        Expr::Group(x) => { same_Group(e, at, at2, c, k); }
        Expr::If(x) => { same_If(e, at, at2, c, k); }
        Expr::Index(x) => { same_Index(e, at, at2, c, k); }
        Expr::Let(x) => { same_Let(e, at, at2, c, k); }
        Expr::Loop(x) => { same_Loop(e, at, at2, c, k); }
        Expr::Match(x) => { same_Match(e, at, at2, c, k); }
        Expr::MethodCall(x) => { same_MethodCall(e, at, at2, c, k); }
        Expr::Paren(x) => { same_Paren(e, at, at2, c, k); }
        Expr::Range(x) => { same_Range(e, at, at2, c, k); }
        Expr::RawAddr(x) => { same_RawAddr(e, at, at2, c, k); }
        Expr::Reference(x) => { same_Reference(e, at, at2, c, k); }
        Expr::Repeat(x) => { same_Repeat(e, at, at2, c, k); }
        Expr::Struct(x) => { same_Struct(e, at, at2, c, k); }
        Expr::TryBlock(x) => { same_TryBlock(e, at, at2, c, k); }
        Expr::Tuple(x) => { same_Tuple(e, at, at2, c, k); }
        Expr::Unary(x) => { same_Unary(e, at, at2, c, k); }
        Expr::Unsafe(x) => { same_Unsafe(e, at, at2, c, k); }
        Expr::While(x) => { same_While(e, at, at2, c, k); }
        Expr::Yield(x) => { same_Yield(e, at, at2, c, k); }
        Expr::Try(x) => { same_Try(e, at, at2, c, k); }
        Expr::Return(x) => { same_Return(e, at, at2, c, k); }
        Expr::Closure(x) => { same_Closure(e, at, at2, c, k); }
        Expr::Macro(x) => { same_Macro(e, at, at2, c, k); }
        _ => { reveal(sp_core); reveal(attrs_of); reveal(with_attrs); reveal(is_leaf); }
    }
}
pub proof fn unf_other(e: Expr, c: CtxV, k: St) ensures e is Array || e is Assign || e is Async || e is Await || e is Binary || e is Block || e is Break || e is Call || e is Cast || e is Const || e is Field || e is ForLoop || e is Group || e is If || e is Index || e is Let || e is Loop || e is Match || e is MethodCall || e is Paren || e is Range || e is RawAddr || e is Reference || e is Repeat || e is Struct || e is TryBlock || e is Tuple || e is Unary || e is Unsafe || e is While || e is Yield || e is Try || e is Return || e is Closure || e is Macro || sp_expr(e, c, k) == Some((e, k)) { reveal(sp_expr); reveal(is_leaf); }
/// an expression whose attributes were read already: reading them again changes nothing
pub proof fn tail_attrs(e: Expr, c: CtxV, k: St)
    ensures attrs_of(e) is Some ==> (match sp_attrs(attrs_of(e)->0, c) {
        None => true,
        Some((at, c1)) => sp_expr(with_attrs(e, at), c1, k) == (if is_leaf(e) { Some((with_attrs(e, at), k)) } else { sp_core(e, at, c1, k) }) && sp_core(e, at, c1, k) == (if is_leaf(e) { Some((with_attrs(e, at), k)) } else { sp_core(e, at, c1, k) }),
    })
{
    if attrs_of(e) is Some {
        if let Some((at, c1)) = sp_attrs(attrs_of(e)->0, c) {
            attrs_once(attrs_of(e)->0, c);
            core_attrs(e, at, at, c1, k); reveal(is_leaf);
            unf_sp_expr(with_attrs(e, at), c1, k);
            reveal(sp_core);
        }
    }
}
