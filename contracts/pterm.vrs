//@ include common.vrs
//@ include cell.vrs
//@ include io.vrs
//@ include fmtbase.vrs
//@ use terminal.vrs mod=sys names="World,Database,Cap,Dev,TCell,Theme,CursorMode,PrepareConfig,tot,dv,shows,info,grows,same_attrs,silent,moved,did,now,ready,agree,attrd,step_cap,to_line,to_column,plain,utf8,entered,styled_text,styled_so,has_exits,sane,wguard,locked,asked_by,kept_attrs"
verus! {
//@ type src/terminal.rs Terminal
//@ world write_fmt write_data flush write_bytes write_str write_char expand clear_attributes set_fg set_bg add_style remove_style set_style set_theme
//@ world clear_screen clear_to_line_end clear_to_screen_end move_up move_down move_left move_right enter_screen exit_screen
//@ world move_to_first_column move_cursor set_cursor_mode write_styled bold italic underline reverse size
/// From and Into are functions
pub uninterp spec fn into<T, A>(t: T) -> A;
#[verifier::external_body]
pub fn into__<T: Into<A>, A>(t: T) -> (r: A) ensures r == into::<T, A>(t) { unimplemented!() }
pub open spec fn style_of<S>(s: S) -> Style { match into::<S, Option<Style>>(s) { Some(x) => x, None => Style::s_empty() } }
/// Style's Default is the empty set
#[verifier::external_body]
pub fn or_default__(s: Option<Style>) -> (r: Style) ensures r == (match s { Some(x) => x, None => Style::s_empty() }) { unimplemented!() }
//@ rewrite $x! . into ( ) . unwrap_or_default ( ) ==> or_default__(into__($x))
//@ rewrite $x! . into ( ) ==> into__($x)
//@ fn src/terminal.rs Terminal::clear_screen params=""
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        did(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), self.0.info.knows(Cap::ClearScreen), r is Ok, step_cap(dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))), Cap::ClearScreen, Seq::empty())),
//@ end
//@ fn src/terminal.rs Terminal::clear_to_line_end params=""
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        did(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), self.0.info.knows(Cap::ClrEol), r is Ok, step_cap(dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))), Cap::ClrEol, Seq::empty())),
//@ end
//@ fn src/terminal.rs Terminal::clear_to_screen_end params=""
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        did(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), self.0.info.knows(Cap::ClrEos), r is Ok, step_cap(dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))), Cap::ClrEos, Seq::empty())),
//@ end
//@ fn src/terminal.rs Terminal::move_up params="n"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        moved(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), n, Cap::CursorUp, Cap::ParmUpCursor, r is Ok, to_line(dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))), dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))).line - n)),
//@ end
//@ fn src/terminal.rs Terminal::move_down params="n"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        moved(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), n, Cap::ParmDownCursor, Cap::ParmDownCursor, r is Ok, to_line(dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))), dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))).line + n)),
//@ end
//@ fn src/terminal.rs Terminal::move_left params="n"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        moved(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), n, Cap::CursorLeft, Cap::ParmLeftCursor, r is Ok, to_column(dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))), dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))).column - n)),
//@ end
//@ fn src/terminal.rs Terminal::move_right params="n"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        moved(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), n, Cap::CursorRight, Cap::ParmRightCursor, r is Ok, to_column(dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))), dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))).column + n)),
//@ end
//@ fn src/terminal.rs Terminal::move_to_first_column params=""
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        kept_attrs(*old(w), *final(w)),
        r is Ok && dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))).ground ==> dv(locked(*old(w), *final(w)), wguard(&self.0, *final(w))) == to_column(dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))), 0),
//@ end
//@ fn src/terminal.rs Terminal::set_cursor_mode params="mode"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        kept_attrs(*old(w), *final(w)),
        r is Ok && dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))).ground && self.0.info.knows(Cap::CursorNormal) && self.0.info.knows(Cap::CursorInvisible)
            ==> dv(locked(*old(w), *final(w)), wguard(&self.0, *final(w))) == (Dev { visible: !(mode is Invisible), ..dv(locked(*old(w), *old(w)), wguard(&self.0, *old(w))) }),
        sane(self.0.info) ==> r is Ok,
//@ end
//@ fn src/terminal.rs Terminal::add_style params="style"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), old(w).writer.fg, old(w).writer.bg, old(w).writer.cur_style.s_union(style)),
//@ end
//@ fn src/terminal.rs Terminal::remove_style params="style"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), old(w).writer.fg, old(w).writer.bg, old(w).writer.cur_style.s_diff(style)),
//@ end
//@ fn src/terminal.rs Terminal::set_style params="style"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), old(w).writer.fg, old(w).writer.bg, style_of(style)),
//@ end
//@ fn src/terminal.rs Terminal::set_theme params="theme"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), theme.fg, theme.bg, theme.style),
//@ end
//@ fn src/terminal.rs Terminal::set_fg params="fg"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), into::<C, Option<Color>>(fg), old(w).writer.bg, old(w).writer.cur_style),
//@ end
//@ fn src/terminal.rs Terminal::set_bg params="bg"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), old(w).writer.fg, into::<C, Option<Color>>(bg), old(w).writer.cur_style),
//@ end
//@ fn src/terminal.rs Terminal::clear_attributes params=""
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), None, None, Style::s_empty()),
//@ end
//@ fn src/terminal.rs Terminal::write_styled params="fg bg style s"
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))), plain(s@),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        r is Ok ==> styled_so(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), into::<F, Option<Color>>(fg), into::<B, Option<Color>>(bg), style_of(style), s@),
//@ end
//@ fn src/terminal.rs Terminal::write_char params="ch"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        kept_attrs(*old(w), *final(w)),
        r is Ok ==> asked_by(&self.0, *final(w)) == asked_by(&self.0, *old(w)) + utf8(seq![ch]),
        asked_by(&self.0, *final(w)).is_prefix_of(asked_by(&self.0, *old(w)) + utf8(seq![ch])),
//@ end
//@ fn src/terminal.rs Terminal::write_str params="s"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        kept_attrs(*old(w), *final(w)),
        r is Ok ==> asked_by(&self.0, *final(w)) == asked_by(&self.0, *old(w)) + utf8(s@),
        asked_by(&self.0, *final(w)).is_prefix_of(asked_by(&self.0, *old(w)) + utf8(s@)),
//@ end
//@ fn src/terminal.rs Terminal::write_fmt params="args"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        kept_attrs(*old(w), *final(w)),
        r is Ok ==> asked_by(&self.0, *final(w)) == asked_by(&self.0, *old(w)) + utf8(args@),
        asked_by(&self.0, *final(w)).is_prefix_of(asked_by(&self.0, *old(w)) + utf8(args@)),
//@ rewrite self . write_str ( & $x! ) ==> self.write_str($x.as_str())
//@ end
//@ fn src/terminal.rs Terminal::bold params=""
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), old(w).writer.fg, old(w).writer.bg, old(w).writer.cur_style.s_union(Style::BOLD)),
//@ end
//@ fn src/terminal.rs Terminal::italic params=""
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), old(w).writer.fg, old(w).writer.bg, old(w).writer.cur_style.s_union(Style::ITALIC)),
//@ end
//@ fn src/terminal.rs Terminal::underline params=""
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), old(w).writer.fg, old(w).writer.bg, old(w).writer.cur_style.s_union(Style::UNDERLINE)),
//@ end
//@ fn src/terminal.rs Terminal::reverse params=""
    requires !old(w).writing, ready(locked(*old(w), *old(w)), wguard(&self.0, *old(w))),
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w))),
        sane(self.0.info) ==> r is Ok,
        r is Ok ==> now(locked(*old(w), *old(w)), wguard(&self.0, *old(w)), locked(*old(w), *final(w)), wguard(&self.0, *final(w)), old(w).writer.fg, old(w).writer.bg, old(w).writer.cur_style.s_union(Style::REVERSE)),
//@ end
} // verus!
fn main() {}
