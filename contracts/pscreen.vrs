//@ include common.vrs
//@ include cell.vrs
//@ include io.vrs
//@ include fmtbase.vrs
//@ use sscreen.vrs mod=sys names="World,Own,Database,Cap,Dev,TCell,Theme,CursorMode,BS,PrepareConfig,PrepareState,Event,Duration,ScreenWriteGuard as W__,tot,dv,info,grows,same_attrs,ready,okay,believes,believed,sane,small,refreshed,idle,unknown,tidied,wiped,wrote,aside,followed,displays,wguard,rguard,locked,made,sound,once,waited,elapsed,answers,coherent,raw,input,handed,worked,with_attrs,put,puts,at,styled,no_odd,fits"
verus! {
//@ type src/terminal.rs Terminal
//@ type src/screen.rs Screen
/// From and Into are functions
pub uninterp spec fn into<T, A>(t: T) -> A;
#[verifier::external_body]
pub fn into__<T: Into<A>, A>(t: T) -> (r: A) ensures r == into::<T, A>(t) { unimplemented!() }
pub open spec fn style_of<S>(s: S) -> Style { match into::<S, Option<Style>>(s) { Some(x) => x, None => Style::s_empty() } }
/// Style's Default is the empty set
#[verifier::external_body]
pub fn or_default__(s: Option<Style>) -> (r: Style) ensures r == (match s { Some(x) => x, None => Style::s_empty() }) { unimplemented!() }
//@ rewrite $x! . into ( ) . unwrap_or_default ( ) ==> or_default__(into__($x))
//@ rewrite $x! . into ( ) ==> into__($x)
//@ world set_cursor_mode refresh wait_event read_event read_raw with_terminal
//@ world2 write_fmt set_cursor next_line clear_attributes add_style remove_style set_style set_fg set_bg set_theme write_char write_str write_at write_styled write_styled_at clear_screen size cursor bold italic underline reverse refresh read_event read_raw wait_event with_terminal
//@ fn src/screen.rs Screen::set_cursor params="pos"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { cursor: into::<C, Cursor>(pos), ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::next_line params="column"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { cursor: Cursor { line: sat1(old(v).data.buffer.st().cursor.line), column }, ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::clear_attributes params=""
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, with_attrs(old(v).data.buffer.st(), None, None, Style::s_empty())), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::add_style params="style"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { style: old(v).data.buffer.st().style.s_union(style), ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::remove_style params="style"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { style: old(v).data.buffer.st().style.s_diff(style), ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::set_style params="style"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { style: style_of(style), ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::set_fg params="fg"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { fg: into::<C, Option<Color>>(fg), ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::set_bg params="bg"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { bg: into::<C, Option<Color>>(bg), ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::set_theme params="theme"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, with_attrs(old(v).data.buffer.st(), theme.fg, theme.bg, theme.style)), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::write_char params="ch"
    requires !old(v).held, old(v).data.buffer.wf(), !odd(ch),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, put(old(v).data.buffer.st(), ch).0), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::write_str params="s"
    requires !old(v).held, old(v).data.buffer.wf(), no_odd(s@),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, puts(old(v).data.buffer.st(), s@).0), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::write_fmt params="args"
    requires !old(v).held, old(v).data.buffer.wf(), no_odd(args@),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, puts(old(v).data.buffer.st(), args@).0), !final(v).held,
//@ rewrite self . write_str ( & $x! ) ==> self.write_str($x.as_str())
//@ end
//@ fn src/screen.rs Screen::write_at params="pos text"
    requires !old(v).held, old(v).data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, if inb(into::<C, Cursor>(pos), old(v).data.buffer.st().size) { puts(at(old(v).data.buffer.st(), into::<C, Cursor>(pos)), text@).0 } else { old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::write_styled params="fg bg style text"
    requires !old(v).held, old(v).data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, styled(old(v).data.buffer.st(), into::<F, Option<Color>>(fg), into::<B, Option<Color>>(bg), style_of(style), text@).0), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::write_styled_at params="pos fg bg style text"
    requires !old(v).held, old(v).data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, if inb(into::<C, Cursor>(pos), old(v).data.buffer.st().size) { styled(at(old(v).data.buffer.st(), into::<C, Cursor>(pos)), into::<F, Option<Color>>(fg), into::<B, Option<Color>>(bg), style_of(style), text@).0 } else { old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::clear_screen params=""
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { cells: final(v).data.buffer.buffer@, ..old(v).data.buffer.st() }), !final(v).held,
        forall|i: int| 0 <= i < final(v).data.buffer.buffer@.len() ==> final(v).data.buffer.buffer@[i] == blank(),
//@ end
//@ fn src/screen.rs Screen::size params=""
    requires !old(v).held,
    ensures r == old(v).data.buffer.size, *final(v) == *old(v),
//@ end
//@ fn src/screen.rs Screen::cursor params=""
    requires !old(v).held,
    ensures r == old(v).data.buffer.cursor, *final(v) == *old(v),
//@ end
//@ fn src/screen.rs Screen::bold params=""
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { style: old(v).data.buffer.st().style.s_union(Style::BOLD), ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::italic params=""
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { style: old(v).data.buffer.st().style.s_union(Style::ITALIC), ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::underline params=""
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { style: old(v).data.buffer.st().style.s_union(Style::UNDERLINE), ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::reverse params=""
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { style: old(v).data.buffer.st().style.s_union(Style::REVERSE), ..old(v).data.buffer.st() }), !final(v).held,
//@ end
//@ fn src/screen.rs Screen::set_cursor_mode params="mode"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.0.term, *old(w)), locked(*old(w), *final(w)), wguard(&self.0.term, *final(w))),
        sys::sys::kept_attrs(*old(w), *final(w)),
        r is Ok && dv(locked(*old(w), *old(w)), wguard(&self.0.term, *old(w))).ground && self.0.term.info.knows(Cap::CursorNormal) && self.0.term.info.knows(Cap::CursorInvisible)
            ==> dv(locked(*old(w), *final(w)), wguard(&self.0.term, *final(w))) == (Dev { visible: !(mode is Invisible), ..dv(locked(*old(w), *old(w)), wguard(&self.0.term, *old(w))) }),
        sane(self.0.term.info) ==> r is Ok,
//@ end
//@ fn src/screen.rs Screen::refresh params=""
    requires !old(w).writing, !old(v).held,
        okay(locked(*old(w), *old(w)), wguard(&self.0.term, *old(w)), old(v).data.buffer.size),
        believes(self.0.term.info, dv(locked(*old(w), *old(w)), wguard(&self.0.term, *old(w))), old(v).data),
        // or the refresh at the end of the lock works on a terminal whose attributes are not known
        sane(self.0.term.info), small(old(v).data.buffer.buffer@, wguard(&self.0.term, *old(w))),
    ensures
        !final(w).writing, !final(v).held, final(v).data.buffer.wf(), final(v).data.buffer.st() == old(v).data.buffer.st(),
        ({ let a = locked(*old(w), *old(w)); let b = locked(*old(w), *final(w)); let g = wguard(&self.0.term, *old(w)); let h = wguard(&self.0.term, *final(w));
            &&& grows(a, g, b, h)
            &&& r is Ok ==> refreshed(dv(b, h), self.0.term.info, old(v).data.buffer.st(), h) && idle(final(v).data, h)
            &&& r is Ok && old(v).data.clear_screen ==> wiped(a, g, b, h)
            &&& believes(self.0.term.info, dv(b, h), final(v).data)
            &&& okay(b, h, old(v).data.buffer.size)
        }),
//@ end
//@ fn src/screen.rs Screen::wait_event params="timeout"
    requires sound(self.0.term), !old(w).reading,
    ensures
        *final(w) == (World { waits: final(w).waits, ..*old(w) }), *final(v) == *old(v),
        waited(*old(w), *final(w), self.0.term.in_fd, timeout), r == Ok::<bool, io::Error>(false) <==> elapsed(*old(w), *final(w)), // [C20]
//@ end
//@ fn src/screen.rs Screen::read_event params="timeout"
    requires sound(self.0.term), !old(w).reading, !old(w).writing, !old(v).held, old(v).data.buffer.wf(), size_ok(old(w).win[self.0.term.out_fd]),
    ensures
        once(old(w).got, final(w).got, self.0.term, old(w).reader.in_buffer@, r, final(w).reader.in_buffer@), // [C19 C09 C10]
        waited(*old(w), *final(w), self.0.term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), rguard(&self.0.term, *old(w)), *final(w), rguard(&self.0.term, *final(w)), r), // [C21]
        coherent(old(w).reader) && r is Ok ==> coherent(final(w).reader), // [C21]
        !final(w).reading, !final(w).writing, !final(v).held,
        followed(old(v).data, final(v).data, r), // [C05 C01 C21]
//@ end
//@ fn src/screen.rs TerminalExt for Screen::read_raw as=read_raw params="buf timeout"
    requires sound(old(self).0.term), !old(w).reading, !old(w).writing, !old(v).held, old(v).data.buffer.wf(), size_ok(old(w).win[old(self).0.term.out_fd]),
    ensures
        final(buf)@.len() == old(buf)@.len(),
        match raw(r) { // [C19]
            Some(n) => n <= old(buf)@.len() && final(buf)@.skip(n as int) == old(buf)@.skip(n as int)
                && handed(old(w).got, final(w).got, old(self).0.term, old(w).reader.in_buffer@, final(buf)@.take(n as int), final(w).reader.in_buffer@),
            None => final(buf)@ == old(buf)@ && final(w).reader.in_buffer@ == old(w).reader.in_buffer@ && final(w).got == old(w).got,
        },
        waited(*old(w), *final(w), old(self).0.term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), rguard(&old(self).0.term, *old(w)), *final(w), rguard(&final(self).0.term, *final(w)), r), // [C21]
        coherent(old(w).reader) && r is Ok ==> coherent(final(w).reader), // [C21]
        *final(self) == *old(self), !final(w).reading, !final(w).writing, !final(v).held,
        followed(old(v).data, final(v).data, r), // [C05 C01 C21]
//@ end
//@ rewrite sys :: Screen :: new ( $a! . 0 , $b! ) . map ( Screen ) ==> (match sys::Screen::new($a.0, $b, Tracked(&mut *w), Tracked(&mut *v)) { Ok(s__) => Ok(Screen(s__)), Err(e__) => Err(e__) })
//@ fn src/screen.rs Screen::with_terminal params="term config"
    requires !old(w).reading, !old(w).writing, size_ok(old(w).win[term.0.out_fd]),
        okay(locked(*old(w), *old(w)), wguard(&term.0, *old(w)), old(w).win[term.0.out_fd]),
        believed(*old(w), wguard(&term.0, *old(w)), old(w).reader),
    ensures
        r matches Ok(s) ==> s.0.term == term.0 && !final(w).reading && !final(w).writing && !final(v).held
            && (s.0.state matches Some(p) && made(*old(w), rguard(&term.0, *old(w)), *final(w), rguard(&term.0, *final(w)), config, p)), // [C18]
        r matches Ok(s) ==> final(v).data.buffer.st() == (BS { cells: final(v).data.buffer.buffer@, size: old(w).win[term.0.out_fd], cursor: Cursor::s_default(), fg: None, bg: None, style: Style::s_empty() })
            && (forall|i: int| 0 <= i < final(v).data.buffer.buffer@.len() ==> final(v).data.buffer.buffer@[i] == blank())
            && okay(locked(*old(w), *final(w)), wguard(&term.0, *final(w)), old(w).win[term.0.out_fd]),
        r matches Ok(s) ==> believes(term.0.info, dv(*final(w), wguard(&term.0, *final(w))), final(v).data), // [C01]
//@ end
} // verus!
fn main() {}
