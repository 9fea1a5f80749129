//@ include common.vrs
//@ include cell.vrs
//@ include io.vrs
//@ include termbase.vrs
//@ use writer.vrs
//@ include lockbase.vrs
verus! {
//@ world write_data flush write_bytes write_str write_char expand clear_attributes set_fg set_bg add_style remove_style set_style set_theme
//@ world clear_screen clear_to_line_end clear_to_screen_end move_up move_down move_left move_right enter_screen exit_screen
//@ world move_to_first_column move_cursor set_cursor_mode write_styled close_fd drop_terminal__
//@ rewrite $c! . encode_utf8 ( & mut [ 0 ; 4 ] ) ==> encode__($c)
/// the world of one that holds the writer's lock
pub open spec fn locked(w0: World, w: World) -> World { World { writing: true, writer: w0.writer, ..w } }
pub open spec fn asked_by(t: &Terminal, w: World) -> Seq<u8> { tot(w, wguard(t, w)) }
/// the attributes of the writer
pub open spec fn kept_attrs(w0: World, w1: World) -> bool { w1.writer.fg == w0.writer.fg && w1.writer.bg == w0.writer.bg && w1.writer.cur_style == w0.writer.cur_style }
//@ fn src/unix/terminal.rs Terminal::move_up params="n"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        moved(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), n, Cap::CursorUp, Cap::ParmUpCursor, r is Ok, to_line(dv(locked(*old(w), *old(w)), wguard(self, *old(w))), dv(locked(*old(w), *old(w)), wguard(self, *old(w))).line - n)),
//@ end
//@ fn src/unix/terminal.rs Terminal::move_down params="n"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        moved(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), n, Cap::ParmDownCursor, Cap::ParmDownCursor, r is Ok, to_line(dv(locked(*old(w), *old(w)), wguard(self, *old(w))), dv(locked(*old(w), *old(w)), wguard(self, *old(w))).line + n)),
//@ end
//@ fn src/unix/terminal.rs Terminal::move_left params="n"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        moved(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), n, Cap::CursorLeft, Cap::ParmLeftCursor, r is Ok, to_column(dv(locked(*old(w), *old(w)), wguard(self, *old(w))), dv(locked(*old(w), *old(w)), wguard(self, *old(w))).column - n)),
//@ end
//@ fn src/unix/terminal.rs Terminal::move_right params="n"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        moved(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), n, Cap::CursorRight, Cap::ParmRightCursor, r is Ok, to_column(dv(locked(*old(w), *old(w)), wguard(self, *old(w))), dv(locked(*old(w), *old(w)), wguard(self, *old(w))).column + n)),
//@ end
//@ fn src/unix/terminal.rs Terminal::clear_screen params=""
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        did(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), self.info.knows(Cap::ClearScreen), r is Ok, step_cap(dv(locked(*old(w), *old(w)), wguard(self, *old(w))), Cap::ClearScreen, Seq::empty())),
//@ end
//@ fn src/unix/terminal.rs Terminal::clear_to_line_end params=""
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        did(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), self.info.knows(Cap::ClrEol), r is Ok, step_cap(dv(locked(*old(w), *old(w)), wguard(self, *old(w))), Cap::ClrEol, Seq::empty())),
//@ end
//@ fn src/unix/terminal.rs Terminal::clear_to_screen_end params=""
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        did(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), self.info.knows(Cap::ClrEos), r is Ok, step_cap(dv(locked(*old(w), *old(w)), wguard(self, *old(w))), Cap::ClrEos, Seq::empty())),
//@ end
//@ fn src/unix/terminal.rs Terminal::move_to_first_column params=""
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        kept_attrs(*old(w), *final(w)),
        r is Ok && dv(locked(*old(w), *old(w)), wguard(self, *old(w))).ground ==> dv(locked(*old(w), *final(w)), wguard(self, *final(w))) == to_column(dv(locked(*old(w), *old(w)), wguard(self, *old(w))), 0),
//@ end
//@ fn src/unix/terminal.rs Terminal::set_cursor_mode params="mode"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        kept_attrs(*old(w), *final(w)),
        r is Ok && dv(locked(*old(w), *old(w)), wguard(self, *old(w))).ground && self.info.knows(Cap::CursorNormal) && self.info.knows(Cap::CursorInvisible)
            ==> dv(locked(*old(w), *final(w)), wguard(self, *final(w))) == (Dev { visible: !(mode is Invisible), ..dv(locked(*old(w), *old(w)), wguard(self, *old(w))) }),
        sane(self.info) ==> r is Ok,
//@ end
//@ fn src/unix/terminal.rs Terminal::write_str params="s"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        kept_attrs(*old(w), *final(w)),
        r is Ok ==> asked_by(self, *final(w)) == asked_by(self, *old(w)) + utf8(s@),
        asked_by(self, *final(w)).is_prefix_of(asked_by(self, *old(w)) + utf8(s@)),
//@ end
//@ fn src/unix/terminal.rs Terminal::write_char params="ch"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        kept_attrs(*old(w), *final(w)),
        r is Ok ==> asked_by(self, *final(w)) == asked_by(self, *old(w)) + utf8(seq![ch]),
        asked_by(self, *final(w)).is_prefix_of(asked_by(self, *old(w)) + utf8(seq![ch])),
//@ end
//@ fn src/unix/terminal.rs Terminal::clear_attributes params=""
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(self, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        sane(self.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), None, None, Style::s_empty()),
//@ end
//@ fn src/unix/terminal.rs Terminal::set_fg params="fg"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(self, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        sane(self.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), fg, old(w).writer.bg, old(w).writer.cur_style),
//@ end
//@ fn src/unix/terminal.rs Terminal::set_bg params="bg"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(self, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        sane(self.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), old(w).writer.fg, bg, old(w).writer.cur_style),
//@ end
//@ fn src/unix/terminal.rs Terminal::add_style params="style"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(self, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        sane(self.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), old(w).writer.fg, old(w).writer.bg, old(w).writer.cur_style.s_union(style)),
//@ end
//@ fn src/unix/terminal.rs Terminal::remove_style params="style"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(self, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        sane(self.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), old(w).writer.fg, old(w).writer.bg, old(w).writer.cur_style.s_diff(style)),
//@ end
//@ fn src/unix/terminal.rs Terminal::set_style params="style"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(self, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        sane(self.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), old(w).writer.fg, old(w).writer.bg, style),
//@ end
//@ fn src/unix/terminal.rs Terminal::set_theme params="theme"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(self, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        sane(self.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), theme.fg, theme.bg, theme.style),
//@ end
//@ fn src/unix/terminal.rs Terminal::write_styled params="fg bg style text"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(self, *old(w))), plain(text@),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        r is Ok ==> styled_so(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w)), fg, bg, style, text@),
//@ start
    proof { let w0 = locked(*w, *w); let g0 = wguard(self, *w);
        assert forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard| #[trigger] styled_so(w0, g0, w1, g1, fg, bg, style, text@) && #[trigger] grows(w1, g1, w2, g2) && grows(w0, g0, w1, g1) && same_attrs(g1, g2) && tot(w2, g2) == tot(w1, g1)
            implies styled_so(w0, g0, w2, g2, fg, bg, style, text@) by { let b = choose|b: Seq<u8>| styled_text(w0, g0, w1, g1, fg, bg, style, text@, b); assert(styled_text(w0, g0, w2, g2, fg, bg, style, text@, b)); } }
//@ end
//@ fn src/unix/terminal.rs Terminal::enter_screen params=""
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(self, *old(w))), old(w).win[self.out_fd].lines > 0,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        r is Ok ==> final(w).writer.fg is None && final(w).writer.bg is None && final(w).writer.cur_style == Style::s_empty(),
        r is Ok ==> entered(self.info, dv(locked(*old(w), *old(w)), wguard(self, *old(w))), dv(locked(*old(w), *final(w)), wguard(self, *final(w)))),
//@ end
//@ fn src/unix/terminal.rs Terminal::exit_screen params=""
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(self, *old(w)), locked(*old(w), *final(w)), wguard(self, *final(w))),
        kept_attrs(*old(w), *final(w)),
        r is Ok && dv(locked(*old(w), *old(w)), wguard(self, *old(w))).ground && self.info.knows(Cap::ExitCaMode) ==> dv(locked(*old(w), *final(w)), wguard(self, *final(w))) == step_cap(dv(locked(*old(w), *old(w)), wguard(self, *old(w))), Cap::ExitCaMode, Seq::empty()),
        r is Ok && !self.info.knows(Cap::ExitCaMode) ==> asked_by(self, *final(w)) == asked_by(self, *old(w)),
//@ end
/// unistd: the file is no longer ours
#[verifier::external_body]
pub unsafe fn close_fd(fd: RawFd, Tracked(w): Tracked<&mut World>) ensures *final(w) == *old(w) { unimplemented!() }
//@ rewrite eprintln ! ( $m , $x! ) ==> ()
//@ fn src/unix/terminal.rs Drop for Terminal::drop as=drop_terminal__
    requires !old(w).writing,
    ensures
        !final(w).writing, *final(self) == *old(self),
        ({ let a = locked(*old(w), *old(w)); let b = locked(*old(w), *final(w)); let g = wguard(&*old(self), *old(w)); let h = wguard(&*old(self), *final(w));
            &&& grows(a, g, b, h)
            &&& sane(old(self).info) && dv(a, g).ground && old(self).info.knows(Cap::CursorNormal) && old(self).info.knows(Cap::CursorInvisible) ==> dv(b, h) == (Dev { visible: true, ..dv(a, g) }) }),
//@ end
} // verus!
fn main() {}
