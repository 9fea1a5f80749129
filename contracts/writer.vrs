//@ include common.vrs
//@ include cell.vrs
//@ include termbase.vrs
verus! {

//@ world drop__ write write_data flush write_bytes write_str write_char expand clear_attributes set_fg set_bg add_style remove_style set_style set_theme set_attrs
//@ world clear_fg clear_bg set_fg_color set_bg_color clear_screen clear_to_line_end clear_to_screen_end move_up move_down move_left move_right
//@ world move_to_first_column move_cursor set_cursor_mode write_styled
//@ rewrite const $n! : $t! = $e ; ==> let $n: $t = $e;
//@ rewrite i32 :: max_value ( ) ==> i32::MAX
//@ rewrite $c! . encode_utf8 ( & mut [ 0 ; 4 ] ) ==> encode__($c)
/// encode_utf8: a string of one character
#[verifier::external_body]
pub fn encode__(c: char) -> (r: &'static str) ensures r@ == seq![c] { unimplemented!() }

/// all that was requested: taken by the device, or to be
pub open spec fn tot(w: World, g: TerminalWriteGuard) -> Seq<u8> { w.sent[g.term.out_fd] + g.writer.out_buffer@ }
pub open spec fn info(g: TerminalWriteGuard) -> Database { g.term.info }
pub open spec fn dv(w: World, g: TerminalWriteGuard) -> Dev { shows(w.sent, w.env, g) }
pub open spec fn shows(sent: Map<RawFd, Seq<u8>>, env: int, g: TerminalWriteGuard) -> Dev { dev(g.term.info, env, sent[g.term.out_fd] + g.writer.out_buffer@) }
/// whatever was sent went to this file
pub open spec fn only_fd(a: World, b: World, fd: RawFd) -> bool { others(a.sent, b.sent, fd) }
pub open spec fn others(a: Map<RawFd, Seq<u8>>, b: Map<RawFd, Seq<u8>>, fd: RawFd) -> bool { forall|x: RawFd| x != fd ==> #[trigger] b[x] == a[x] }
pub open spec fn ext(a: Seq<u8>, b: Seq<u8>) -> bool { a.is_prefix_of(b) }
pub proof fn lemma_goes(m: Map<RawFd, Seq<u8>>, fd: RawFd)
    ensures others(m, m, fd), forall|b: Map<RawFd, Seq<u8>>, c: Map<RawFd, Seq<u8>>| others(m, b, fd) && #[trigger] others(b, c, fd) ==> others(m, c, fd),
        forall|a: Seq<u8>| #[trigger] ext(a, a), forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] ext(a, b) && #[trigger] ext(b, c) ==> ext(a, c)
{}
/// the attributes believed active are kept
pub open spec fn same_attrs(a: TerminalWriteGuard, b: TerminalWriteGuard) -> bool {
    a.term == b.term && a.writer.fg == b.writer.fg && a.writer.bg == b.writer.bg && a.writer.cur_style == b.writer.cur_style
}
/// output goes on from what there was
pub open spec fn grows(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard) -> bool {
    output_only(w0, w1) && g0.term == g1.term && only_fd(w0, w1, g0.term.out_fd) && ext(w0.sent[g0.term.out_fd], w1.sent[g0.term.out_fd]) && ext(tot(w0, g0), tot(w1, g1))
        && vcap(g0.writer.out_buffer) <= vcap(g1.writer.out_buffer)
}
pub proof fn lemma_grows(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard)
    requires grows(w0, g0, w1, g1), grows(w1, g1, w2, g2)
    ensures grows(w0, g0, w2, g2)
{
}

//@ fn src/unix/terminal.rs TerminalWriteGuard::write_data params="buf" attr="verifier::exec_allows_no_decreases_clause"
    ensures
        r.0 <= buf@.len(), output_only(*old(w), *final(w)),
        final(w).sent[self.term.out_fd] == old(w).sent[self.term.out_fd] + buf@.take(r.0 as int), only_fd(*old(w), *final(w), self.term.out_fd),
        r.1 is Ok ==> r.0 == buf@.len(), buf@.len() == 0 ==> r.1 is Ok,
//@ start
    let ghost s0 = w.sent[self.term.out_fd];
    proof { assert(buf@.take(0) =~= Seq::<u8>::empty()); assert(s0 + Seq::<u8>::empty() =~= s0); ax_slice(buf); }
    proof {
        assert forall|a: int, b: int| 0 <= a <= b <= buf@.len() implies s0 + buf@.take(a) + #[trigger] buf@.skip(a).take(b - a) == s0 + #[trigger] buf@.take(b) by {
            assert(s0 + buf@.take(a) + buf@.skip(a).take(b - a) =~= s0 + buf@.take(b));
        }
    }
//@ loop 0
    invariant
        offset <= buf@.len(), buf@.len() <= isize::MAX, output_only(*old(w), *w), s0 == old(w).sent[self.term.out_fd], only_fd(*old(w), *w, self.term.out_fd),
        w.sent[self.term.out_fd] == s0 + buf@.take(offset as int),
        forall|a: int, b: int| 0 <= a <= b <= buf@.len() ==> s0 + buf@.take(a) + #[trigger] buf@.skip(a).take(b - a) == s0 + #[trigger] buf@.take(b),
    ensures
        offset <= buf@.len(), output_only(*old(w), *w), only_fd(*old(w), *w, self.term.out_fd), w.sent[self.term.out_fd] == s0 + buf@.take(offset as int),
        lv0__ matches Ok(_) ==> offset == buf@.len(), buf@.len() == 0 ==> lv0__ is Ok,
//@ loopbody 0
            proof { let ghost o = offset as int; assert forall|n: int| 0 <= n <= buf@.len() - o implies s0 + buf@.take(o) + #[trigger] buf@.skip(o).take(n) == s0 + buf@.take(o + n) by {
                assert(s0 + buf@.take(o) + buf@.skip(o).take(o + n - o) == s0 + buf@.take(o + n)); } }
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::flush
    ensures
        silent(*old(w), *old(self), *final(w), *final(self)), grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r is Ok ==> final(self).writer.out_buffer@.len() == 0,
        old(self).writer.out_buffer@.len() == 0 ==> r is Ok,
        vcap(final(self).writer.out_buffer) == vcap(old(self).writer.out_buffer),
//@ start
    let ghost s0 = w.sent[self.term.out_fd];
    let ghost b0 = self.writer.out_buffer@;
    proof {
        assert forall|n: int| 0 <= n <= b0.len() implies s0 + #[trigger] b0.take(n) + b0.skip(n) == s0 + b0 by { assert(s0 + b0.take(n) + b0.skip(n) =~= s0 + b0); }
    }
//@ end

//@ rewrite eprintln ! ( $m ) ==> ()
//@ fn src/unix/terminal.rs Drop for TerminalWriteGuard::drop as=drop__
    ensures
        tot(*final(w), *final(self)) == tot(*old(w), *old(self)), grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        old(self).writer.out_buffer@.len() == 0 ==> final(self).writer.out_buffer@.len() == 0,
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::write_bytes params="buf"
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r is Ok ==> tot(*final(w), *final(self)) == tot(*old(w), *old(self)) + buf@,
        tot(*final(w), *final(self)).is_prefix_of(tot(*old(w), *old(self)) + buf@),
        r is Err && buf@.len() <= vcap(old(self).writer.out_buffer) ==> silent(*old(w), *old(self), *final(w), *final(self)),
//@ start
    let ghost t0 = tot(*w, *self);
    proof {
        ax_slice(buf); ax_vec(self.writer.out_buffer);
        assert forall|s: Seq<u8>, o: Seq<u8>, b: Seq<u8>| #[trigger] (s + (o + b)) == s + o + b by { assert(s + (o + b) =~= s + o + b); }
        assert forall|s: Seq<u8>, o: Seq<u8>, b: Seq<u8>| o.len() == 0 implies #[trigger] (s + b + o) == s + o + b by { assert(s + b + o =~= s + o + b); }
    }
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::write_str params="s"
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r is Ok ==> tot(*final(w), *final(self)) == tot(*old(w), *old(self)) + utf8(s@),
        tot(*final(w), *final(self)).is_prefix_of(tot(*old(w), *old(self)) + utf8(s@)),
        r is Err && utf8(s@).len() <= vcap(old(self).writer.out_buffer) ==> silent(*old(w), *old(self), *final(w), *final(self)),
//@ end
//@ fn src/unix/terminal.rs TerminalWriteGuard::write_char params="ch"
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r is Ok ==> tot(*final(w), *final(self)) == tot(*old(w), *old(self)) + utf8(seq![ch]),
        tot(*final(w), *final(self)).is_prefix_of(tot(*old(w), *old(self)) + utf8(seq![ch])),
        r is Err && utf8(seq![ch]).len() <= vcap(old(self).writer.out_buffer) ==> silent(*old(w), *old(self), *final(w), *final(self)),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::expand params="exp"
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)), *final(w) == *old(w),
        r is Ok ==> tot(*final(w), *final(self)) == tot(*old(w), *old(self)) + capb(exp.db(), exp.cap(), exp.params()),
        r is Ok && exp.db() == info(*old(self)) && dv(*old(w), *old(self)).ground && params_ok(exp.cap(), exp.params()) && meant(exp.cap())
            ==> dv(*final(w), *final(self)) == step_cap(dv(*old(w), *old(self)), exp.cap(), exp.params()),
        r is Ok <==> expands(exp.db(), exp.cap(), exp.params()),
//@ sigrewrite fn expand < T : AsRef < [ u8 ] > > ==> fn expand
//@ sigrewrite Expansion < T > ==> Expansion
//@ start
    proof {
        let s = w.sent[self.term.out_fd]; let o = self.writer.out_buffer@; let b = capb(exp.db(), exp.cap(), exp.params());
        assert(s + (o + b) =~= s + o + b);
        if dv(*w, *self).ground && params_ok(exp.cap(), exp.params()) && meant(exp.cap()) { ax_cap(self.term.info, w.env, tot(*w, *self), exp.cap(), exp.params()); }
        assert forall|b: Seq<u8>| #[trigger] o.is_prefix_of(b) implies (s + o).is_prefix_of(s + b) by {
            assert((s + b).take((s + o).len() as int) =~= s + o); }
    }
//@ end

// ---------------------------------------------------------------------------
// attributes
// ---------------------------------------------------------------------------
/// the terminal has a way back from what it can turn on
pub open spec fn has_exits(i: Database) -> bool {
    &&& i.knows(Cap::ExitAttributeMode)
    &&& i.knows(Cap::EnterItalicsMode) ==> i.knows(Cap::ExitItalicsMode)
    &&& i.knows(Cap::EnterUnderlineMode) ==> i.knows(Cap::ExitUnderlineMode)
}
/// the part of some attributes that the terminal can show
pub open spec fn can_fg(i: Database, fg: Option<Color>) -> Option<Color> { if i.knows(Cap::SetAForeground) { fg } else { None } }
pub open spec fn can_bg(i: Database, bg: Option<Color>) -> Option<Color> { if i.knows(Cap::SetABackground) { bg } else { None } }
pub open spec fn can_style(i: Database, s: Style) -> Style {
    Style { bold: s.bold && i.knows(Cap::EnterBoldMode), italic: s.italic && i.knows(Cap::EnterItalicsMode),
        reverse: s.reverse && i.knows(Cap::EnterReverseMode), underline: s.underline && i.knows(Cap::EnterUnderlineMode) }
}
/// the device with these attributes active, otherwise as it is
pub open spec fn attrd(i: Database, d: Dev, fg: Option<Color>, bg: Option<Color>, style: Style) -> Dev {
    Dev { fg: can_fg(i, fg), bg: can_bg(i, bg), style: can_style(i, style), ..d }
}
/// what is believed active is active
pub open spec fn agree(w: World, g: TerminalWriteGuard) -> bool {
    dv(w, g).ground && dv(w, g) == attrd(info(g), dv(w, g), g.writer.fg, g.writer.bg, g.writer.cur_style)
}
pub open spec fn ready(w: World, g: TerminalWriteGuard) -> bool { agree(w, g) && has_exits(info(g)) }
/// now these are the attributes, here and on the device, and nothing else on it has changed
pub open spec fn now(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard, fg: Option<Color>, bg: Option<Color>, style: Style) -> bool {
    &&& g1.writer.fg == fg && g1.writer.bg == bg && g1.writer.cur_style == style
    &&& dv(w1, g1) == attrd(info(g0), dv(w0, g0), fg, bg, style)
}

//@ fn src/unix/terminal.rs color_code
    ensures r < 8, color_of(r as int) == color,
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::clear_attributes params="" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> now(*old(w), *old(self), *final(w), *final(self), None, None, Style::s_empty()),
        old(self).writer.fg is None && old(self).writer.bg is None && old(self).writer.cur_style == Style::s_empty()
            ==> r is Ok && silent(*old(w), *old(self), *final(w), *final(self)) && final(self).writer.out_buffer@.len() == old(self).writer.out_buffer@.len(),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::set_fg params="fg" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> now(*old(w), *old(self), *final(w), *final(self), fg, old(self).writer.bg, old(self).writer.cur_style),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::set_bg params="bg" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> now(*old(w), *old(self), *final(w), *final(self), old(self).writer.fg, bg, old(self).writer.cur_style),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::add_style params="style" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> now(*old(w), *old(self), *final(w), *final(self), old(self).writer.fg, old(self).writer.bg, old(self).writer.cur_style.s_union(style)),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::remove_style params="style" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> now(*old(w), *old(self), *final(w), *final(self), old(self).writer.fg, old(self).writer.bg, old(self).writer.cur_style.s_diff(style)),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::set_style params="style" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> now(*old(w), *old(self), *final(w), *final(self), old(self).writer.fg, old(self).writer.bg, style),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::set_theme params="theme" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> now(*old(w), *old(self), *final(w), *final(self), theme.fg, theme.bg, theme.style),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::set_attrs params="fg bg style" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> now(*old(w), *old(self), *final(w), *final(self), fg, bg, style),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::clear_fg params="" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> now(*old(w), *old(self), *final(w), *final(self), None, old(self).writer.bg, old(self).writer.cur_style),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::clear_bg params="" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> now(*old(w), *old(self), *final(w), *final(self), old(self).writer.fg, None, old(self).writer.cur_style),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::set_fg_color params="fg"
    requires dv(*old(w), *old(self)).ground,
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> dv(*final(w), *final(self)) == (Dev { fg: if info(*old(self)).knows(Cap::SetAForeground) { Some(fg) } else { dv(*old(w), *old(self)).fg }, ..dv(*old(w), *old(self)) }),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::set_bg_color params="bg"
    requires dv(*old(w), *old(self)).ground,
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
        r is Ok ==> dv(*final(w), *final(self)) == (Dev { bg: if info(*old(self)).knows(Cap::SetABackground) { Some(bg) } else { dv(*old(w), *old(self)).bg }, ..dv(*old(w), *old(self)) }),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::write_styled params="fg bg style text" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)), plain(text@),
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        r is Ok ==> styled_so(*old(w), *old(self), *final(w), *final(self), fg, bg, style, text@),
//@ start
    proof {
        let w0 = *w; let g0 = *self; let i = self.term.info; let e = w.env; let t = utf8(text@);
        assert forall|b: Seq<u8>| dev(i, e, b).ground implies ({ let d0 = dev(i, e, b); let d1 = #[trigger] dev(i, e, b + t);
            d1 == (Dev { line: d1.line, column: d1.column, pending: d1.pending, cells: d1.cells, ..d0 }) }) by { ax_plain(i, e, b, text@); }
        assert forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard, w3: World, g3: TerminalWriteGuard|
            #[trigger] now(w0, g0, w1, g1, fg, bg, style) && grows(w0, g0, w1, g1) && #[trigger] grows(w1, g1, w2, g2) && tot(w2, g2) == tot(w1, g1) + t
            && #[trigger] now(w2, g2, w3, g3, None, None, Style::s_empty()) && grows(w2, g2, w3, g3)
            implies styled_text(w0, g0, w3, g3, fg, bg, style, text@, tot(w1, g1)) by {}
    }
//@ end
pub open spec fn styled_so(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard, fg: Option<Color>, bg: Option<Color>, style: Style, text: Seq<char>) -> bool {
    exists|b: Seq<u8>| styled_text(w0, g0, w1, g1, fg, bg, style, text, b)
}
/// what is written as text is written with these attributes, and none is left
pub open spec fn styled_text(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard, fg: Option<Color>, bg: Option<Color>, style: Style, text: Seq<char>, b: Seq<u8>) -> bool {
    &&& tot(w0, g0).is_prefix_of(b) && (b + utf8(text)).is_prefix_of(tot(w1, g1))
    &&& dev(info(g0), w0.env, b) == attrd(info(g0), dv(w0, g0), fg, bg, style)
    &&& dv(w1, g1) == attrd(info(g0), dev(info(g0), w0.env, b + utf8(text)), None, None, Style::s_empty())
    &&& g1.writer.fg is None && g1.writer.bg is None && g1.writer.cur_style == Style::s_empty()
}

// ---------------------------------------------------------------------------
// cursor and clearing
// ---------------------------------------------------------------------------
/// 32 and 64 bit
global size_of usize == 8;
pub open spec fn clamp(n: int) -> int { if n >= 0x7fff_fffe { 0x7fff_fffe } else { n } }
//@ fn src/unix/terminal.rs to_u32 params="u"
    ensures r == clamp(u as int),
//@ end
/// nothing has been asked for
pub open spec fn silent(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard) -> bool { tot(w1, g1) == tot(w0, g0) }
/// what a move may end in; it can be done when the terminal has `a` (for one step) and `b`
pub open spec fn moved(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard, n: usize, a: Cap, b: Cap, ok: bool, d: Dev) -> bool {
    &&& grows(w0, g0, w1, g1) && same_attrs(g0, g1)
    &&& n == 0 ==> ok && silent(w0, g0, w1, g1)
    &&& ok && n != 0 && dv(w0, g0).ground ==> dv(w1, g1) == d
    &&& sane(info(g0)) && !ok ==> silent(w0, g0, w1, g1)
    &&& n != 0 && !info(g0).knows(a) && !info(g0).knows(b) ==> !ok
    &&& sane(info(g0)) && info(g0).knows(b) && (n == 1 ==> info(g0).knows(a)) ==> ok
}
/// an operation the terminal has or lacks
pub open spec fn did(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard, able: bool, ok: bool, d: Dev) -> bool {
    &&& grows(w0, g0, w1, g1) && same_attrs(g0, g1)
    &&& ok && dv(w0, g0).ground ==> dv(w1, g1) == d
    &&& sane(info(g0)) && !ok ==> silent(w0, g0, w1, g1)
    &&& !able ==> !ok && silent(w0, g0, w1, g1)
    &&& sane(info(g0)) && able ==> ok
}

//@ fn src/unix/terminal.rs TerminalWriteGuard::move_up params="n"
    ensures grows(*old(w), *old(self), *final(w), *final(self)),
        moved(*old(w), *old(self), *final(w), *final(self), n, Cap::CursorUp, Cap::ParmUpCursor, r is Ok, to_line(dv(*old(w), *old(self)), dv(*old(w), *old(self)).line - n)),
//@ start
    proof { ax_dev(self.term.info, w.env, tot(*w, *self)); }
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::move_down params="n"
    ensures grows(*old(w), *old(self), *final(w), *final(self)),
        moved(*old(w), *old(self), *final(w), *final(self), n, Cap::ParmDownCursor, Cap::ParmDownCursor, r is Ok, to_line(dv(*old(w), *old(self)), dv(*old(w), *old(self)).line + n)),
//@ start
    proof { ax_dev(self.term.info, w.env, tot(*w, *self)); }
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::move_left params="n"
    ensures grows(*old(w), *old(self), *final(w), *final(self)),
        moved(*old(w), *old(self), *final(w), *final(self), n, Cap::CursorLeft, Cap::ParmLeftCursor, r is Ok, to_column(dv(*old(w), *old(self)), dv(*old(w), *old(self)).column - n)),
//@ start
    proof { ax_dev(self.term.info, w.env, tot(*w, *self)); }
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::move_right params="n"
    ensures grows(*old(w), *old(self), *final(w), *final(self)),
        moved(*old(w), *old(self), *final(w), *final(self), n, Cap::CursorRight, Cap::ParmRightCursor, r is Ok, to_column(dv(*old(w), *old(self)), dv(*old(w), *old(self)).column + n)),
//@ start
    proof { ax_dev(self.term.info, w.env, tot(*w, *self)); }
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::move_cursor params="pos"
    ensures grows(*old(w), *old(self), *final(w), *final(self)),
        did(*old(w), *old(self), *final(w), *final(self), info(*old(self)).knows(Cap::CursorAddress) || pos.line == 0 && pos.column == 0 && info(*old(self)).knows(Cap::CursorHome),
        r is Ok, to_column(to_line(dv(*old(w), *old(self)), pos.line as int), pos.column as int)),
//@ start
    proof { ax_dev(self.term.info, w.env, tot(*w, *self)); }
//@ end
//@ fn src/unix/terminal.rs TerminalWriteGuard::move_to_first_column
    ensures grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r is Ok && dv(*old(w), *old(self)).ground ==> dv(*final(w), *final(self)) == to_column(dv(*old(w), *old(self)), 0),
//@ rewrite b"\r" ==> &[13u8]
//@ start
    proof { if dv(*w, *self).ground { ax_cr(self.term.info, w.env, tot(*w, *self)); }
        assert forall|t: Seq<u8>, c: Seq<u8>| c.len() == 1 implies #[trigger] (t + c) == t.push(c[0]) by { assert(t + c =~= t.push(c[0])); } }
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::clear_screen
    ensures grows(*old(w), *old(self), *final(w), *final(self)),
        did(*old(w), *old(self), *final(w), *final(self), info(*old(self)).knows(Cap::ClearScreen), r is Ok, step_cap(dv(*old(w), *old(self)), Cap::ClearScreen, Seq::empty())),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::clear_to_line_end
    ensures grows(*old(w), *old(self), *final(w), *final(self)),
        did(*old(w), *old(self), *final(w), *final(self), info(*old(self)).knows(Cap::ClrEol), r is Ok, step_cap(dv(*old(w), *old(self)), Cap::ClrEol, Seq::empty())),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::clear_to_screen_end
    ensures grows(*old(w), *old(self), *final(w), *final(self)),
        did(*old(w), *old(self), *final(w), *final(self), info(*old(self)).knows(Cap::ClrEos), r is Ok, step_cap(dv(*old(w), *old(self)), Cap::ClrEos, Seq::empty())),
//@ end

//@ fn src/unix/terminal.rs TerminalWriteGuard::set_cursor_mode params="mode"
    ensures grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r is Ok && dv(*old(w), *old(self)).ground && info(*old(self)).knows(Cap::CursorNormal) && info(*old(self)).knows(Cap::CursorInvisible)
            ==> dv(*final(w), *final(self)) == (Dev { visible: !(mode is Invisible), ..dv(*old(w), *old(self)) }),
        sane(info(*old(self))) ==> r is Ok,
//@ end


// ---------------------------------------------------------------------------
// modes
// ---------------------------------------------------------------------------
/// names of terminals that take xterm's mouse modes
pub open spec fn xterm_name(n: Seq<char>) -> bool {
    n == seq!['x', 't', 'e', 'r', 'm'] || n.len() >= 6 && n.take(6) == seq!['x', 't', 'e', 'r', 'm', '-']
}
#[verifier::external_body]
pub fn eq_str__(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn starts_with__(a: &str, b: &str) -> (r: bool) ensures r == (a@.len() >= b@.len() && a@.take(b@.len() as int) == b@) { unimplemented!() }
//@ fn src/unix/terminal.rs is_xterm params="name"
    ensures r == xterm_name(name@),
//@ rewrite name == $s! ==> eq_str__(name, $s)
//@ rewrite name . starts_with ( $s! ) ==> starts_with__(name, $s)
//@ start
    proof { reveal_strlit("xterm"); reveal_strlit("xterm-"); assert("xterm"@ =~= seq!['x', 't', 'e', 'r', 'm']); assert("xterm-"@ =~= seq!['x', 't', 'e', 'r', 'm', '-']); }
//@ end
//@ fn src/unix/terminal.rs Terminal::name
    ensures r@ == self.info.s_name(),
//@ end
//@ fn src/unix/terminal.rs Terminal::is_xterm
    ensures r == xterm_name(self.info.s_name()),
//@ end

//@ const src/unix/terminal.rs XTERM_ENABLE_MOUSE chars=1
//@ const src/unix/terminal.rs XTERM_DISABLE_MOUSE chars=1
//@ const src/unix/terminal.rs XTERM_ENABLE_MOUSE_MOTION chars=1
//@ const src/unix/terminal.rs XTERM_DISABLE_MOUSE_MOTION chars=1

/// mode settings one after the other
pub open spec fn step_modes(i: Database, d: Dev, s: Seq<char>) -> Dev decreases s.len() {
    if s.len() < 8 { d } else { step_modes(i, step_mode(i, d, mode_of(s.take(8)), s[7] == 'h'), s.skip(8)) }
}
pub open spec fn all_modes(s: Seq<char>) -> bool decreases s.len() {
    s.len() == 0 || s.len() >= 8 && sets_mode(s.take(8)) && all_modes(s.skip(8))
}
pub proof fn lemma_modes(i: Database, env: int, b: Seq<u8>, s: Seq<char>)
    requires dev(i, env, b).ground, all_modes(s)
    ensures dev(i, env, b + utf8(s)) == step_modes(i, dev(i, env, b), s), dev(i, env, b + utf8(s)).ground
    decreases s.len()
{
    if s.len() == 0 {
        reveal_with_fuel(vstd::utf8::encode_utf8, 2);
        assert(b + utf8(s) =~= b);
    } else {
        let (p, q) = (s.take(8), s.skip(8));
        assert(p + q =~= s);
        vstd::utf8::encode_utf8_concat(p, q);
        assert(b + utf8(s) =~= b + utf8(p) + utf8(q));
        ax_mode(i, env, b, p);
        lemma_modes(i, env, b + utf8(p), q);
    }
}
/// the device with the mouse reported
pub open spec fn mouse_on(i: Database, d: Dev, motion: bool) -> Dev {
    if exclusive(i) { Dev { sgr: true, drag: !motion, motion, ..d } } else { Dev { sgr: true, drag: true, motion: motion || d.motion, ..d } }
}
pub open spec fn keypad_is(d: Dev, x: bool) -> Dev { Dev { keypad: x, ..d } }
pub open spec fn mouse_off(d: Dev) -> Dev { Dev { sgr: false, drag: false, motion: false, ..d } }
pub proof fn lemma_mouse(i: Database, env: int)
    ensures
        forall|b: Seq<u8>, s: Seq<char>| (#[trigger] dev(i, env, b + vstd::utf8::encode_utf8(s))) == dev(i, env, b + utf8(s)) && dev(i, env, b).ground && all_modes(s)
            ==> dev(i, env, b + utf8(s)) == step_modes(i, dev(i, env, b), s) && dev(i, env, b + utf8(s)).ground,
{
    assert forall|b: Seq<u8>, s: Seq<char>| (#[trigger] dev(i, env, b + vstd::utf8::encode_utf8(s))) == dev(i, env, b + utf8(s)) && dev(i, env, b).ground && all_modes(s)
            implies dev(i, env, b + utf8(s)) == step_modes(i, dev(i, env, b), s) && dev(i, env, b + utf8(s)).ground by { lemma_modes(i, env, b, s); }
}

//@ world enable_mouse disable_mouse enable_keypad disable_keypad enter_screen exit_screen
//@ fn src/unix/terminal.rs TerminalWriteGuard::enable_mouse params="track_motion"
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r matches Ok(on) ==> on == xterm_name(info(*old(self)).s_name()),
        r is Ok && xterm_name(info(*old(self)).s_name()) && dv(*old(w), *old(self)).ground ==> dv(*final(w), *final(self)) == mouse_on(info(*old(self)), dv(*old(w), *old(self)), track_motion),
        !xterm_name(info(*old(self)).s_name()) ==> silent(*old(w), *old(self), *final(w), *final(self)),
//@ start
    proof {
        lemma_mouse(self.term.info, w.env);
        lit_XTERM_ENABLE_MOUSE(); lit_XTERM_DISABLE_MOUSE(); lit_XTERM_ENABLE_MOUSE_MOTION(); lit_XTERM_DISABLE_MOUSE_MOTION();
        reveal_with_fuel(step_modes, 3); reveal_with_fuel(all_modes, 3);
    }
//@ end
//@ fn src/unix/terminal.rs TerminalWriteGuard::disable_mouse
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r is Ok && dv(*old(w), *old(self)).ground ==> dv(*final(w), *final(self)) == mouse_off(dv(*old(w), *old(self))),
//@ start
    proof {
        lemma_mouse(self.term.info, w.env);
        lit_XTERM_ENABLE_MOUSE(); lit_XTERM_DISABLE_MOUSE(); lit_XTERM_ENABLE_MOUSE_MOTION(); lit_XTERM_DISABLE_MOUSE_MOTION();
        reveal_with_fuel(step_modes, 3); reveal_with_fuel(all_modes, 3);
    }
//@ end
//@ fn src/unix/terminal.rs TerminalWriteGuard::enable_keypad
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r matches Ok(on) ==> on == info(*old(self)).knows(Cap::KeypadXmit),
        r is Ok && info(*old(self)).knows(Cap::KeypadXmit) && dv(*old(w), *old(self)).ground ==> dv(*final(w), *final(self)) == keypad_is(dv(*old(w), *old(self)), true),
        r is Err || !info(*old(self)).knows(Cap::KeypadXmit) ==> sane(info(*old(self))) ==> silent(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
//@ end
//@ fn src/unix/terminal.rs TerminalWriteGuard::disable_keypad
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r is Ok && info(*old(self)).knows(Cap::KeypadLocal) && dv(*old(w), *old(self)).ground ==> dv(*final(w), *final(self)) == keypad_is(dv(*old(w), *old(self)), false),
        !info(*old(self)).knows(Cap::KeypadLocal) ==> silent(*old(w), *old(self), *final(w), *final(self)),
        sane(info(*old(self))) ==> r is Ok,
//@ end

//@ world ioctl get_winsize size
//@ fn src/unix/terminal.rs get_winsize params="fd"
    ensures r matches Ok(s) ==> s == old(w).win[fd], *final(w) == *old(w),
//@ end
//@ fn src/unix/terminal.rs TerminalWriteGuard::size params=""
    ensures r matches Ok(s) ==> s == old(w).win[self.term.out_fd], *final(w) == *old(w),
//@ end
//@ fn src/unix/terminal.rs TerminalWriteGuard::enter_screen params="" attr="verifier::exec_allows_no_decreases_clause"
    requires ready(*old(w), *old(self)), old(w).win[old(self).term.out_fd].lines > 0, // no terminal has no lines
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)),
        r is Ok ==> final(self).writer.fg is None && final(self).writer.bg is None && final(self).writer.cur_style == Style::s_empty(),
        r is Ok ==> entered(info(*old(self)), dv(*old(w), *old(self)), dv(*final(w), *final(self))),
//@ start
    hide(attrd);
    proof { lemma_enter(self.term.info, w.env, dv(*w, *self)); }
//@ end
/// nothing on the screen
#[verifier::opaque]
pub open spec fn all_blank(d: Dev) -> bool { forall|k: int| 0 <= k < d.cells.len() ==> #[trigger] d.cells[k] == TCell::Shown(blank()) }
/// a clear screen, and the cursor at its beginning
#[verifier::opaque]
pub open spec fn entered(i: Database, d0: Dev, d1: Dev) -> bool {
    &&& d1 == ({ let d = attrd(i, d0, None, None, Style::s_empty()); Dev { alt: d.alt || i.knows(Cap::EnterCaMode), line: 0, column: 0, pending: false, cells: d1.cells, ..d } })
    &&& all_blank(d1)
}
/// the device on its way there
#[verifier::opaque]
pub open spec fn before(i: Database, d0: Dev, d: Dev) -> bool {
    d == (Dev { alt: d0.alt || i.knows(Cap::EnterCaMode), line: d.line, column: d.column, pending: d.pending, cells: d.cells, ..attrd(i, d0, None, None, Style::s_empty()) })
}
#[verifier::opaque]
pub open spec fn mid(d0: Dev, d: Dev, alt: bool) -> bool { d == (Dev { alt, line: d.line, column: d.column, pending: d.pending, cells: d.cells, ..d0 }) }
pub proof fn lemma_enter(i: Database, env: int, d0: Dev)
    ensures
        mid(d0, d0, d0.alt),
        forall|d: Dev, a: bool, p: Seq<int>| #[trigger] mid(d0, d, a) ==> mid(d0, #[trigger] step_cap(d, Cap::EnterCaMode, p), true),
        forall|d: Dev, a: bool, p: Seq<int>| #[trigger] mid(d0, d, a) ==> mid(d0, #[trigger] step_cap(d, Cap::ChangeScrollRegion, p), a),
        forall|d: Dev, a: bool, p: Seq<int>| #[trigger] mid(d0, d, a) ==> mid(d0, #[trigger] step_cap(d, Cap::CursorHome, p), a),
        forall|d: Dev, a: bool, fg: Option<Color>, bg: Option<Color>, style: Style| d0 == attrd(i, d0, fg, bg, style) && #[trigger] mid(d0, d, a) ==> d == #[trigger] attrd(i, d, fg, bg, style),
        forall|d: Dev, a: bool| a == (d0.alt || i.knows(Cap::EnterCaMode)) && #[trigger] mid(d0, d, a) ==> before(i, d0, attrd(i, d, None, None, Style::s_empty())),
        forall|d: Dev, a: bool| #[trigger] mid(d0, d, a) ==> d.ground == d0.ground && attrd(i, d, None, None, Style::s_empty()).ground == d0.ground,
        forall|b: Seq<u8>, p: Seq<int>| before(i, d0, dev(i, env, b)) ==> entered(i, d0, #[trigger] step_cap(dev(i, env, b), Cap::ClearScreen, p)),
{
    reveal(all_blank); reveal(entered); reveal(mid); reveal(before);
    assert forall|b: Seq<u8>, p: Seq<int>| before(i, d0, dev(i, env, b)) implies entered(i, d0, #[trigger] step_cap(dev(i, env, b), Cap::ClearScreen, p)) by { ax_dev(i, env, b); }
}
//@ fn src/unix/terminal.rs TerminalWriteGuard::exit_screen params=""
    ensures
        grows(*old(w), *old(self), *final(w), *final(self)), same_attrs(*old(self), *final(self)),
        r is Ok && dv(*old(w), *old(self)).ground && info(*old(self)).knows(Cap::ExitCaMode) ==> dv(*final(w), *final(self)) == step_cap(dv(*old(w), *old(self)), Cap::ExitCaMode, Seq::empty())
            && final(self).writer.out_buffer@.len() == 0,
        r is Ok && !info(*old(self)).knows(Cap::ExitCaMode) ==> silent(*old(w), *old(self), *final(w), *final(self)),
//@ end
} // verus!
fn main() {}
