//@ include common.vrs
//@ include cell.vrs
//@ include io.vrs
//@ include fmtbase.vrs
//@ use writer.vrs mod=sys names="World,Database,Cap,Dev,TCell,Theme,CursorMode,PrepareConfig,tot,dv,shows,info,grows,same_attrs,silent,moved,did,now,ready,agree,attrd,step_cap,to_line,to_column,plain,utf8,entered,styled_text,styled_so,has_exits,sane"
verus! {
//@ type src/terminal.rs TerminalWriteGuard
//@ world write_fmt write_data flush write_bytes write_str write_char expand clear_attributes set_fg set_bg add_style remove_style set_style set_theme
//@ world clear_screen clear_to_line_end clear_to_screen_end move_up move_down move_left move_right enter_screen exit_screen
//@ world move_to_first_column move_cursor set_cursor_mode write_styled bold italic underline reverse size
/// From and Into are functions
pub uninterp spec fn into<T, A>(t: T) -> A;
#[verifier::external_body]
pub fn into__<T: Into<A>, A>(t: T) -> (r: A) ensures r == into::<T, A>(t) { unimplemented!() }
pub open spec fn style_of<S>(s: S) -> Style { match into::<S, Option<Style>>(s) { Some(x) => x, None => Style::s_empty() } }
/// Style's Default is the empty set
#[verifier::external_body]
pub fn or_default__(s: Option<Style>) -> (r: Style) ensures r == (match s { Some(x) => x, None => Style::s_empty() }) { unimplemented!() }
//@ rewrite $x! . into ( ) . unwrap_or_default ( ) ==> or_default__(into__($x))
//@ rewrite $x! . into ( ) ==> into__($x)
//@ fn src/terminal.rs TerminalWriteGuard::clear_screen params=""
    ensures grows(*old(w), old(self).0, *final(w), final(self).0),
        did(*old(w), old(self).0, *final(w), final(self).0, info(old(self).0).knows(Cap::ClearScreen), r is Ok, step_cap(dv(*old(w), old(self).0), Cap::ClearScreen, Seq::empty())),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::clear_to_line_end params=""
    ensures grows(*old(w), old(self).0, *final(w), final(self).0),
        did(*old(w), old(self).0, *final(w), final(self).0, info(old(self).0).knows(Cap::ClrEol), r is Ok, step_cap(dv(*old(w), old(self).0), Cap::ClrEol, Seq::empty())),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::clear_to_screen_end params=""
    ensures grows(*old(w), old(self).0, *final(w), final(self).0),
        did(*old(w), old(self).0, *final(w), final(self).0, info(old(self).0).knows(Cap::ClrEos), r is Ok, step_cap(dv(*old(w), old(self).0), Cap::ClrEos, Seq::empty())),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::move_up params="n"
    ensures grows(*old(w), old(self).0, *final(w), final(self).0),
        moved(*old(w), old(self).0, *final(w), final(self).0, n, Cap::CursorUp, Cap::ParmUpCursor, r is Ok, to_line(dv(*old(w), old(self).0), dv(*old(w), old(self).0).line - n)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::move_down params="n"
    ensures grows(*old(w), old(self).0, *final(w), final(self).0),
        moved(*old(w), old(self).0, *final(w), final(self).0, n, Cap::ParmDownCursor, Cap::ParmDownCursor, r is Ok, to_line(dv(*old(w), old(self).0), dv(*old(w), old(self).0).line + n)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::move_left params="n"
    ensures grows(*old(w), old(self).0, *final(w), final(self).0),
        moved(*old(w), old(self).0, *final(w), final(self).0, n, Cap::CursorLeft, Cap::ParmLeftCursor, r is Ok, to_column(dv(*old(w), old(self).0), dv(*old(w), old(self).0).column - n)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::move_right params="n"
    ensures grows(*old(w), old(self).0, *final(w), final(self).0),
        moved(*old(w), old(self).0, *final(w), final(self).0, n, Cap::CursorRight, Cap::ParmRightCursor, r is Ok, to_column(dv(*old(w), old(self).0), dv(*old(w), old(self).0).column + n)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::move_to_first_column params=""
    ensures grows(*old(w), old(self).0, *final(w), final(self).0), same_attrs(old(self).0, final(self).0),
        r is Ok && dv(*old(w), old(self).0).ground ==> dv(*final(w), final(self).0) == to_column(dv(*old(w), old(self).0), 0),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::set_cursor_mode params="mode"
    ensures grows(*old(w), old(self).0, *final(w), final(self).0), same_attrs(old(self).0, final(self).0),
        r is Ok && dv(*old(w), old(self).0).ground && info(old(self).0).knows(Cap::CursorNormal) && info(old(self).0).knows(Cap::CursorInvisible)
            ==> dv(*final(w), final(self).0) == (Dev { visible: !(mode is Invisible), ..dv(*old(w), old(self).0) }),
        sane(info(old(self).0)) ==> r is Ok,
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::add_style params="style"
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, old(self).0.writer.fg, old(self).0.writer.bg, old(self).0.writer.cur_style.s_union(style)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::remove_style params="style"
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, old(self).0.writer.fg, old(self).0.writer.bg, old(self).0.writer.cur_style.s_diff(style)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::set_style params="style"
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, old(self).0.writer.fg, old(self).0.writer.bg, style_of(style)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::set_theme params="theme"
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, theme.fg, theme.bg, theme.style),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::set_fg params="fg"
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, into::<C, Option<Color>>(fg), old(self).0.writer.bg, old(self).0.writer.cur_style),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::set_bg params="bg"
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, old(self).0.writer.fg, into::<C, Option<Color>>(bg), old(self).0.writer.cur_style),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::clear_attributes params=""
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, None, None, Style::s_empty()),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::write_styled params="fg bg style s"
    requires ready(*old(w), old(self).0), plain(s@),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        r is Ok ==> styled_so(*old(w), old(self).0, *final(w), final(self).0, into::<F, Option<Color>>(fg), into::<B, Option<Color>>(bg), style_of(style), s@),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::write_char params="ch"
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0), same_attrs(old(self).0, final(self).0),
        r is Ok ==> tot(*final(w), final(self).0) == tot(*old(w), old(self).0) + utf8(seq![ch]),
        tot(*final(w), final(self).0).is_prefix_of(tot(*old(w), old(self).0) + utf8(seq![ch])),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::write_str params="s"
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0), same_attrs(old(self).0, final(self).0),
        r is Ok ==> tot(*final(w), final(self).0) == tot(*old(w), old(self).0) + utf8(s@),
        tot(*final(w), final(self).0).is_prefix_of(tot(*old(w), old(self).0) + utf8(s@)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::write_fmt params="args"
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0), same_attrs(old(self).0, final(self).0),
        r is Ok ==> tot(*final(w), final(self).0) == tot(*old(w), old(self).0) + utf8(args@),
        tot(*final(w), final(self).0).is_prefix_of(tot(*old(w), old(self).0) + utf8(args@)),
//@ rewrite self . write_str ( & $x! ) ==> self.write_str($x.as_str())
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::borrow_term_write_guard
    ensures *r == *old(self), *final(self) == *final(r),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::flush params=""
    ensures
        silent(*old(w), old(self).0, *final(w), final(self).0), grows(*old(w), old(self).0, *final(w), final(self).0), same_attrs(old(self).0, final(self).0),
        r is Ok ==> final(self).0.writer.out_buffer@.len() == 0,
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::size params=""
    ensures r matches Ok(s) ==> s == old(w).win[self.0.term.out_fd], *final(w) == *old(w),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::bold params=""
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, old(self).0.writer.fg, old(self).0.writer.bg, old(self).0.writer.cur_style.s_union(Style::BOLD)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::italic params=""
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, old(self).0.writer.fg, old(self).0.writer.bg, old(self).0.writer.cur_style.s_union(Style::ITALIC)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::underline params=""
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, old(self).0.writer.fg, old(self).0.writer.bg, old(self).0.writer.cur_style.s_union(Style::UNDERLINE)),
//@ end
//@ fn src/terminal.rs TerminalWriteGuard::reverse params=""
    requires ready(*old(w), old(self).0),
    ensures
        grows(*old(w), old(self).0, *final(w), final(self).0),
        sane(info(old(self).0)) ==> r is Ok,
        r is Ok ==> now(*old(w), old(self).0, *final(w), final(self).0, old(self).0.writer.fg, old(self).0.writer.bg, old(self).0.writer.cur_style.s_union(Style::REVERSE)),
//@ end
} // verus!
fn main() {}
