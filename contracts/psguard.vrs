//@ include common.vrs
//@ include cell.vrs
//@ include io.vrs
//@ include fmtbase.vrs
//@ use sscreen.vrs mod=sys names="World,Own,Database,Cap,Dev,TCell,Theme,CursorMode,BS,Terminal,PrepareConfig,PrepareState,Event,Duration,tot,dv,info,grows,same_attrs,ready,okay,believes,believed,sane,small,refreshed,idle,unknown,tidied,wiped,wrote,aside,followed,displays,wguard,rguard,locked,made,sound,once,waited,elapsed,answers,coherent,raw,input,handed,worked,with_attrs,put,puts,at,styled,no_odd,fits"
verus! {
//@ type src/screen.rs ScreenReadGuard
//@ type src/screen.rs ScreenWriteGuard
/// From and Into are functions
pub uninterp spec fn into<T, A>(t: T) -> A;
#[verifier::external_body]
pub fn into__<T: Into<A>, A>(t: T) -> (r: A) ensures r == into::<T, A>(t) { unimplemented!() }
pub open spec fn style_of<S>(s: S) -> Style { match into::<S, Option<Style>>(s) { Some(x) => x, None => Style::s_empty() } }
/// Style's Default is the empty set
#[verifier::external_body]
pub fn or_default__(s: Option<Style>) -> (r: Style) ensures r == (match s { Some(x) => x, None => Style::s_empty() }) { unimplemented!() }
//@ rewrite $x! . into ( ) . unwrap_or_default ( ) ==> or_default__(into__($x))
//@ rewrite $x! . into ( ) ==> into__($x)
//@ world set_cursor_mode refresh wait_event read_event read_raw
//@ world2 wait_event read_event read_raw
//@ fn src/screen.rs ScreenWriteGuard::set_cursor params="pos"
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { cursor: into::<C, Cursor>(pos), ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::next_line params="column"
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { cursor: Cursor { line: sat1(old(self).0.data.buffer.st().cursor.line), column }, ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::clear_attributes params=""
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, with_attrs(old(self).0.data.buffer.st(), None, None, Style::s_empty())), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::add_style params="style"
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { style: old(self).0.data.buffer.st().style.s_union(style), ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::remove_style params="style"
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { style: old(self).0.data.buffer.st().style.s_diff(style), ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::set_style params="style"
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { style: style_of(style), ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::set_fg params="fg"
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { fg: into::<C, Option<Color>>(fg), ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::set_bg params="bg"
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { bg: into::<C, Option<Color>>(bg), ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::set_theme params="theme"
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, with_attrs(old(self).0.data.buffer.st(), theme.fg, theme.bg, theme.style)), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::write_char params="ch"
    requires old(self).0.data.buffer.wf(), !odd(ch),
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, put(old(self).0.data.buffer.st(), ch).0), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::write_str params="s"
    requires old(self).0.data.buffer.wf(), no_odd(s@),
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, puts(old(self).0.data.buffer.st(), s@).0), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::write_fmt params="args"
    requires old(self).0.data.buffer.wf(), no_odd(args@),
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, puts(old(self).0.data.buffer.st(), args@).0), final(self).0.writer == old(self).0.writer,
//@ rewrite self . write_str ( & $x! ) ==> self.write_str($x.as_str())
//@ end
//@ fn src/screen.rs ScreenWriteGuard::borrow_term_write_guard
    ensures *r == *old(self), *final(self) == *final(r),
//@ end
//@ fn src/screen.rs ScreenWriteGuard::write_at params="pos text"
    requires old(self).0.data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, if inb(into::<C, Cursor>(pos), old(self).0.data.buffer.st().size) { puts(at(old(self).0.data.buffer.st(), into::<C, Cursor>(pos)), text@).0 } else { old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::write_styled params="fg bg style text"
    requires old(self).0.data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, styled(old(self).0.data.buffer.st(), into::<F, Option<Color>>(fg), into::<B, Option<Color>>(bg), style_of(style), text@).0), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::write_styled_at params="pos fg bg style text"
    requires old(self).0.data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, if inb(into::<C, Cursor>(pos), old(self).0.data.buffer.st().size) { styled(at(old(self).0.data.buffer.st(), into::<C, Cursor>(pos)), into::<F, Option<Color>>(fg), into::<B, Option<Color>>(bg), style_of(style), text@).0 } else { old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::clear_screen params=""
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { cells: final(self).0.data.buffer.buffer@, ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
        forall|i: int| 0 <= i < final(self).0.data.buffer.buffer@.len() ==> final(self).0.data.buffer.buffer@[i] == blank(),
//@ end
//@ fn src/screen.rs ScreenWriteGuard::size params=""
    
    ensures r == self.0.data.buffer.size, 
//@ end
//@ fn src/screen.rs ScreenWriteGuard::cursor params=""
    
    ensures r == self.0.data.buffer.cursor, 
//@ end
//@ fn src/screen.rs ScreenWriteGuard::bold params=""
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { style: old(self).0.data.buffer.st().style.s_union(Style::BOLD), ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::italic params=""
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { style: old(self).0.data.buffer.st().style.s_union(Style::ITALIC), ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::underline params=""
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { style: old(self).0.data.buffer.st().style.s_union(Style::UNDERLINE), ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::reverse params=""
    requires old(self).0.data.buffer.wf(), 
    ensures
        aside(old(self).0.data, final(self).0.data), // [C01]
        wrote(old(self).0.data, final(self).0.data, BS { style: old(self).0.data.buffer.st().style.s_union(Style::REVERSE), ..old(self).0.data.buffer.st() }), final(self).0.writer == old(self).0.writer,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::set_cursor_mode params="mode"
    ensures final(self).0.data == old(self).0.data,
        grows(*old(w), old(self).0.writer, *final(w), final(self).0.writer), same_attrs(old(self).0.writer, final(self).0.writer),
        r is Ok && dv(*old(w), old(self).0.writer).ground && info(old(self).0.writer).knows(Cap::CursorNormal) && info(old(self).0.writer).knows(Cap::CursorInvisible)
            ==> dv(*final(w), final(self).0.writer) == (Dev { visible: !(mode is Invisible), ..dv(*old(w), old(self).0.writer) }),
        sane(info(old(self).0.writer)) ==> r is Ok,
//@ end
//@ fn src/screen.rs ScreenWriteGuard::refresh params=""
    requires
        okay(*old(w), old(self).0.writer, old(self).0.data.buffer.size), believes(info(old(self).0.writer), dv(*old(w), old(self).0.writer), old(self).0.data),
    ensures
        grows(*old(w), old(self).0.writer, *final(w), final(self).0.writer),
        final(self).0.data.buffer.st() == old(self).0.data.buffer.st(), final(self).0.data.buffer.wf(),
        r is Ok ==> refreshed(dv(*final(w), final(self).0.writer), info(old(self).0.writer), old(self).0.data.buffer.st(), final(self).0.writer),
        r is Ok ==> idle(final(self).0.data, final(self).0.writer) && okay(*final(w), final(self).0.writer, old(self).0.data.buffer.size),
        idle(old(self).0.data, old(self).0.writer) ==> r is Ok,
        r is Ok && old(self).0.data.clear_screen ==> wiped(*old(w), old(self).0.writer, *final(w), final(self).0.writer),
        r is Err ==> unknown(final(self).0.data),
        believes(info(old(self).0.writer), dv(*final(w), final(self).0.writer), final(self).0.data),
        sane(info(old(self).0.writer)) && small(old(self).0.data.buffer.buffer@, old(self).0.writer) ==> okay(*final(w), final(self).0.writer, old(self).0.data.buffer.size),
//@ end
//@ fn src/screen.rs ScreenReadGuard::wait_event params="timeout"
    requires sound(*old(self).0.reader.term),
    ensures
        final(self).0 == old(self).0, *final(w) == (World { waits: final(w).waits, ..*old(w) }), *final(v) == *old(v),
        waited(*old(w), *final(w), old(self).0.reader.term.in_fd, timeout), r == Ok::<bool, io::Error>(false) <==> elapsed(*old(w), *final(w)), // [C20]
//@ end
//@ fn src/screen.rs ScreenReadGuard::read_event params="timeout"
    requires sound(*old(self).0.reader.term), !old(w).writing, !old(v).held, old(v).data.buffer.wf(), size_ok(old(w).win[old(self).0.reader.term.out_fd]),
    ensures
        final(self).0.screen == old(self).0.screen, final(self).0.reader.term == old(self).0.reader.term, !final(v).held,
        once(old(w).got, final(w).got, *old(self).0.reader.term, old(self).0.reader.reader.in_buffer@, r, final(self).0.reader.reader.in_buffer@), // [C19 C09 C10]
        waited(*old(w), *final(w), old(self).0.reader.term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), old(self).0.reader, *final(w), final(self).0.reader, r), // [C21]
        coherent(old(self).0.reader.reader) && r is Ok ==> coherent(final(self).0.reader.reader), // [C21]
        worked(*old(w), *final(w)),
        followed(old(v).data, final(v).data, r), // [C05 C01 C21]
//@ end
//@ fn src/screen.rs TerminalExt for ScreenReadGuard::read_raw as=read_raw params="buf timeout"
    requires sound(*old(self).0.reader.term), !old(w).writing, !old(v).held, old(v).data.buffer.wf(), size_ok(old(w).win[old(self).0.reader.term.out_fd]),
    ensures
        final(self).0.screen == old(self).0.screen, final(self).0.reader.term == old(self).0.reader.term, !final(v).held, final(buf)@.len() == old(buf)@.len(),
        match raw(r) { // [C19]
            Some(n) => n <= old(buf)@.len() && final(buf)@.skip(n as int) == old(buf)@.skip(n as int)
                && handed(old(w).got, final(w).got, *old(self).0.reader.term, old(self).0.reader.reader.in_buffer@, final(buf)@.take(n as int), final(self).0.reader.reader.in_buffer@),
            None => final(buf)@ == old(buf)@ && final(self).0.reader.reader.in_buffer@ == old(self).0.reader.reader.in_buffer@ && final(w).got == old(w).got,
        },
        r is Ok && old(buf)@.len() > 0 && old(self).0.reader.reader.in_buffer@.len() > 0 ==> (raw(r) matches Some(n) && n > 0), // [C19]
        !(r matches Ok(Some(e)) && input(e)),
        waited(*old(w), *final(w), old(self).0.reader.term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), old(self).0.reader, *final(w), final(self).0.reader, r), // [C21]
        coherent(old(self).0.reader.reader) && r is Ok ==> coherent(final(self).0.reader.reader), // [C21]
        worked(*old(w), *final(w)),
        followed(old(v).data, final(v).data, r), // [C05 C01 C21]
//@ end
} // verus!
fn main() {}
