//@include parse_lib.vspec
// ---------------------------------------------------------------------------------------------
// Rust code inside macro calls (C11)
// ---------------------------------------------------------------------------------------------
pub open spec fn ev_end(s: Seq<TokenTree>) -> bool { tok_head(s, ";"@) || tok_head(s, ","@) || s.len() == 0 }
/// one piece: whole items first, an item, an expression, a statement, whichever is the first to reach a separator or the end
pub open spec fn sp_ev(s: Seq<TokenTree>) -> Option<(Evaluable, Seq<TokenTree>)> {
    match sp_take::<File>(s) { Some((f, t)) if ev_end(t) => Some((Evaluable::File(f), t)), _ =>
    match sp_take::<Item>(s) { Some((f, t)) if ev_end(t) => Some((Evaluable::Item(f), t)), _ =>
    match sp_take::<Expr>(s) { Some((f, t)) if ev_end(t) => Some((Evaluable::Expr(f), t)), _ =>
    match sp_take::<Stmt>(s) { Some((f, t)) if ev_end(t) => Some((Evaluable::Stmt(f), t)), _ => None } } } }
}
/// syn's parse::<Evaluable>() runs the implementation
pub broadcast axiom fn take_ev(s: Seq<TokenTree>) ensures #[trigger] sp_take::<Evaluable>(s) == sp_ev(s);
/// a piece is at least one token
pub broadcast axiom fn take_shrinks(s: Seq<TokenTree>) ensures (#[trigger] sp_ev(s)) matches Some((e, t)) ==> s.len() > 0 ==> t.len() < s.len();
pub open spec fn sep(t: Seq<TokenTree>) -> (Option<TokenStream>, Seq<TokenTree>) {
    if tok_head(t, ","@) || tok_head(t, ";"@) { (Some(one(t[0])), t.skip(1)) } else { (None, t) }
}
/// pieces with their separators, up to the end
pub open spec fn sp_evs(s: Seq<TokenTree>) -> Option<Seq<(Evaluable, Option<TokenStream>)>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else {
        match sp_ev(s) { None => None, Some((e, t)) => if sep(t).1.len() >= s.len() { None } else {
            match sp_evs(sep(t).1) { None => None, Some(l) => Some(seq![(e, sep(t).0)] + l) } } }
    }
}
pub broadcast axiom fn parse2_evs(t: TokenStream) ensures match (#[trigger] sp_parse::<EvaluableList>(t)) { Some(a) => sp_evs(ts_seq(t)) == Some(a.0@), None => sp_evs(ts_seq(t)) is None };
/// what a piece becomes
pub open spec fn sp_piece(e: Evaluable, c: CtxV, k: St) -> Option<(TokenStream, St)> {
    match e {
        Evaluable::File(f) => match sp_items(f.items, c, 0, Seq::empty(), k) { None => None, Some((l, k1)) => Some((ts_cat_spec(ts_flat(toks(f.attrs@)), ts_flat(toks(l))), k1)) },
        Evaluable::Expr(x) => match sp_expr(x, c, k) { None => None, Some((x, k1)) => Some((tokens_of(x), k1)) },
        Evaluable::Item(x) => match sp_item(x, c, k) { None => None, Some((x, k1)) => Some((tokens_of(x), k1)) },
        Evaluable::Stmt(x) => match sp_stmt(x, TailExprTargetKind::NotTarget, c, k) { None => None, Some((x, k1)) => Some((tokens_of(x), k1)) },
    }
}
pub open spec fn with_sep(t: TokenStream, p: Option<TokenStream>) -> TokenStream { match p { None => t, Some(p) => ts_cat_spec(t, p) } }
/// the pieces in order, each with its separator
pub open spec fn sp_pieces(l: Seq<(Evaluable, Option<TokenStream>)>, c: CtxV, k: St) -> Option<(Seq<TokenStream>, St)> decreases l.len() {
    if l.len() == 0 { Some((Seq::empty(), k)) } else {
        match sp_pieces(l.drop_last(), c, k) { None => None, Some((a, k1)) =>
            match sp_piece(l.last().0, c, k1) { None => None, Some((t, k2)) => Some((a.push(with_sep(t, l.last().1)), k2)) } }
    }
}
pub proof fn pieces_none(l: Seq<(Evaluable, Option<TokenStream>)>, n: int, c: CtxV, k: St)
    requires 0 <= n <= l.len(), sp_pieces(l.take(n), c, k) is None
    ensures sp_pieces(l, c, k) is None
    decreases l.len() - n
{
    if n < l.len() { assert(l.take(n + 1).drop_last() =~= l.take(n)); pieces_none(l, n + 1, c, k); } else { assert(l.take(n) =~= l); }
}
/// tokens inside tokens get fewer, so this defines what becomes of a macro's tokens
pub axiom fn unf_mactok(t: TokenStream, c: CtxV, k: St) ensures sp_mactok(t, c, k) == (match sp_evs(ts_seq(t)) {
    None => Some((None, k)),
    Some(l) => match sp_pieces(l, c, k) { None => None, Some((a, k1)) => Some((Some(ts_flat(a)), k1)) } });
