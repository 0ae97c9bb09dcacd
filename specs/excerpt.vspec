//@include prelude.vspec
//@include tokens.vspec
//@synty Expr
//@include excerpt_spec.vspec
//@ty utils/source_excerpt.rs TruncateStrFolder IntoPrettyStrRes Padding AddTTPos
pub open spec fn folder_limits(f: TruncateStrFolder) -> (int, int, int) { (f.max_len as int, f.start_len as int, f.end_len as int) }
/// syn's default for a literal: nothing inside it is visited
#[verifier::external_body]
pub fn fold_lit_str(f: &mut TruncateStrFolder, l: LitStr) -> (r: LitStr) ensures r == l, *final(f) == *old(f) { unimplemented!() }
impl TruncateStrFolder { #[verifier::external_body] pub fn fold_expr(&mut self, e: Expr) -> (r: Expr) ensures r == with_short_lits(e, folder_limits(*old(self))) { unimplemented!() } }
pub open spec fn pads_of(p: Padding) -> (Seq<char>, Seq<char>) { (opt_text(p.top_padding), opt_text(p.bottom_padding)) }
//@method into_token_stream to_token_stream
//@fn utils/source_excerpt.rs TruncateStrFolder::default@Default owners=C14
    ensures folder_limits(r) == limits_of(None)
//@end
//@fn utils/source_excerpt.rs TruncateStrFolder::new owners=C14
    ensures folder_limits(r) == limits_of(Some(max_len))
//@end
//@fn utils/source_excerpt.rs TruncateStrFolder::fold_lit_str@Fold owners=C14
    ensures lit_str_value(r) == trunc_text(lit_str_value(i), folder_limits(*old(self))), lit_span(r) == lit_span(i), *final(self) == *old(self)
//@prologue
    let ghost s0 = lit_str_value(i); let ghost m = folder_limits(*self);
//@loop 0
    invariant
        folder_limits(*self) == m, m == folder_limits(*old(self)), *self == *old(self), views($v@) == sp_split(s0, '\n'), $v@.len() == views($v@).len(), $i <= $v@.len(), strs(truncated_value@) == trunc_lines(views($v@), m).take($i as int),
    decreases $v@.len() - $i
bot:
    proof {
        let l = views($v@)[$i - 1]; let k = imin(m.2, l.len() as int);
        assert(l.reverse().take(k).reverse() =~= l.skip(l.len() - k));
        assert(strs(truncated_value@).last() =~= trunc_line(l, m)); assert(strs(truncated_value@) =~= trunc_lines(views($v@), m).take($i as int));
    }
end:
    assert(strs(truncated_value@) =~= trunc_lines(views($v@), m));
//@end
//@fn utils/source_excerpt.rs truncate_lit_str_inner owners=C14
    ensures r == with_short_lits(expr, limits_of(max_len))
//@end
//@fn utils/source_excerpt.rs TruncateLitStrSetting::apply owners=C14
    ensures r == shortened(expr, self)
//@end
//@fn utils/source_excerpt.rs delim_start owners=C16
    ensures r@ == delim_open(d)
//@end
//@fn utils/source_excerpt.rs delim_end owners=C16
    ensures r@ == delim_close(d)
//@end
//@fn utils/source_excerpt.rs into_pretty_str_inner>add_tt owners=C16
    requires __p2.line <= 0xffff_ffff
    ensures ({ let o = put(Out { out: old(res)@, line: lc(*old(current_line)), col: lc(*old(current_column)), top: is_top },
            Cell { text: tt_str@, line: __p2.line as int, col: __p2.column as int, end: __p2.end_column as int });
        final(res)@ == o.out && lc(*final(current_line)) == o.line && lc(*final(current_column)) == o.col })
//@epilogue
    proof { assert(res@ =~= put(Out { out: old(res)@, line: lc(*old(current_line)), col: lc(*old(current_column)), top: is_top },
            Cell { text: tt_str@, line: tt_line as int, col: tt_column as int, end: tt_end_column as int }).out); }
//@end
//@fn utils/source_excerpt.rs into_pretty_str_inner owners=C16
    ensures ({ let o = put_all(flat(ts_seq(input)), Out { out: Seq::empty(), line: lc(*old(current_line)), col: lc(*old(current_column)), top: is_top });
        r@ == o.out && lc(*final(current_line)) == o.line && lc(*final(current_column)) == o.col })
//@prologue
    let ghost o0 = Out { out: Seq::empty(), line: lc(*current_line), col: lc(*current_column), top: is_top };
//@loop 0
    invariant
        $v@ == ts_seq(input), $i <= $v@.len(), ({ let o = put_all(flat($v@.take($i as int)), o0);
        res@ == o.out && lc(*current_line) == o.line && lc(*current_column) == o.col && is_top == o.top }),
    decreases $v@.len() - $i
top:
    let ghost o1 = put_all(flat($v@.take($i as int)), o0);
    proof { assert($v@.take($i + 1).drop_last() =~= $v@.take($i as int)); }
bot:
    proof {
        let s = $v@.take($i as int);
        let tq = s.last();
        match tq {
            TokenTree::Group(g) => {
                let f = flat(ts_seq(group_stream(g)));
                put_cat(flat(s.drop_last()), seq![open_cell(g)] + f + seq![close_cell(g)], o0);
                put_cat(seq![open_cell(g)] + f, seq![close_cell(g)], o1);
                put_cat(seq![open_cell(g)], f, o1);
                let o2 = put(o1, open_cell(g));
                assert(seq![open_cell(g)].drop_last() =~= Seq::<Cell>::empty());
                assert(put_all(seq![open_cell(g)], o1) == put(put_all(Seq::<Cell>::empty(), o1), open_cell(g)));
                put_shift(f, o2, o2.out);
                let o3 = put_all(f, o2);
                assert(seq![close_cell(g)].drop_last() =~= Seq::<Cell>::empty());
                assert(put_all(seq![close_cell(g)], o3) == put(put_all(Seq::<Cell>::empty(), o3), close_cell(g)));
            }
            _ => {
                put_cat(flat(s.drop_last()), seq![token_cell(tq)], o0);
                assert(seq![token_cell(tq)].drop_last() =~= Seq::<Cell>::empty());
                assert(put_all(seq![token_cell(tq)], o1) == put(put_all(Seq::<Cell>::empty(), o1), token_cell(tq)));
            }
        }
    }
end:
    assert($v@.take($i as int) =~= $v@);
//@end
//@fn utils/source_excerpt.rs add_line_prefix owners=C16
    requires start_line <= 0xffff_ffff
    ensures r.body@ == sp_join(numbered(lines_of(s@), start_line as int), "\n"@),
        ({ let bar = sp_repeat(" "@, num_width(start_line as int, lines_of(s@).len() as int) as nat);
        pads_of(r.padding) == (if top_padding { bar + "|\n"@ } else { Seq::empty() }, if bottom_padding { "\n"@ + bar + "|"@ } else { Seq::empty() }) })
//@loop 0
    invariant
        views($v@) == lines_of(s@), $v@.len() == lines_of(s@).len(), $i <= $v@.len(), $v@.len() <= 0x7fff_ffff_ffff_ffff,
        index == start_line + $i, punct == (if $i == 0 { '>' } else { '|' }), padding_num == num_width(start_line as int, $v@.len() as int),
        strs(res@) == numbered(views($v@), start_line as int).take($i as int),
    decreases $v@.len() - $i
bot:
    proof { assert(strs(res@).last() =~= numbered_line(start_line as int, padding_num as int, $i - 1, views($v@)[$i - 1])); assert(strs(res@) =~= numbered(views($v@), start_line as int).take($i as int)); }
end:
    assert(strs(res@) =~= numbered(lines_of(s@), start_line as int));
//@end
//@fn utils/source_excerpt.rs Padding::wrap owners=C15,C16
    ensures r@ == pads_of(*self).0 + expr_str@ + pads_of(*self).1
//@prologue
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@fn utils/source_excerpt.rs IntoPrettyStrRes::fmt@std::fmt::Display owners=C16
    ensures r is Ok ==> fmt_out(*final(f)) == fmt_out(*old(f)) + (pads_of(self.padding).0 + self.body@ + pads_of(self.padding).1)
//@end
//@fn utils/source_excerpt.rs into_pretty_str owners=C16
    ensures r.body@ == pretty_body(expr, __p1), pads_of(r.padding) == pads(expr, __p1)
//@end
//@fn utils/source_excerpt.rs into_one_line_pretty_str owners=C16
    ensures r is Ok, r->Ok_0@ == one_line_text(expr, truncate_lit_str_setting)
//@loop 0
    invariant
        views($v@) == lines_of(printed(expr)), $v@.len() == lines_of(printed(expr)).len(), $i <= $v@.len(), views($acc@) == lines_of(printed(expr)).map_values(|l: Seq<char>| sp_trim(l)).take($i as int),
    decreases $v@.len() - $i
bot:
    assert(views($acc@) =~= lines_of(printed(expr)).map_values(|l: Seq<char>| sp_trim(l)).take($i as int));
end:
    assert(views($acc@) =~= lines_of(printed(expr)).map_values(|l: Seq<char>| sp_trim(l)));
//@end
//@fn utils/source_excerpt.rs into_excerpted_line_pretty_str owners=C15
    ensures match excerpt_text(expr, __p1) { None => r is Err, Some(t) => r is Ok && r->Ok_0@ == t }
//@prologue
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@before Ok(padding.wrap(&res))
    proof {
        let v = lines_of(pretty_body(expr, pretty_str_settings)); let n = max_excerpted_line_num as int; let k = imin(n - 1, v.len() - 1);
        assert(views(tail0) =~= v.skip(v.len() - k));
        assert(views(res0@) =~= excerpt_lines(v, n));
    }
//@before if line_count > max
    let ghost tail0 = tail_lines@;
//@before let res = res
    let ghost res0 = res;
//@end
//@fn utils/source_excerpt.rs truncate_lit_str owners=C14
    ensures r is Ok, r->Ok_0 == tokens_of(with_short_lits(expr, limits_of(max_len)))
//@end
