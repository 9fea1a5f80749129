//@ include common.vrs
//@ include cell.vrs
//@ include io.vrs
//@ use screen.vrs
verus! {
pub use sys::{Event, Duration, Terminal, TerminalReadGuard, PrepareConfig, PrepareState, Mutex, wguard, rguard, locked, entered, sound, made, unmade, worked, once, waited, elapsed, answers, coherent, raw, input, handed, believed, moded, all_blank};
//@ type src/unix/screen.rs Screen
//@ type src/unix/screen.rs ScreenReadGuard
// ---------------------------------------------------------------------------
// the lock of what is drawn, as one thread sees it: what it guards is here while nobody holds it
// (what taking it reports when somebody does is in unit slocks)
// ---------------------------------------------------------------------------
pub tracked struct Own { pub ghost data: Writer, pub ghost held: bool }
impl Screen {
    #[verifier::external_body]
    pub fn lock_write_data(&self, Tracked(v): Tracked<&mut Own>) -> (r: Writer)
        requires !old(v).held // or it waits for itself
        ensures r == old(v).data, *final(v) == (Own { held: true, ..*old(v) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_writer(&self, Tracked(w): Tracked<&mut World>, Tracked(v): Tracked<&mut Own>) -> (r: ScreenWriteGuard<'_>)
        requires !old(w).writing, !old(v).held
        ensures r.writer == wguard(&self.term, *old(w)), r.data == old(v).data, *final(w) == (World { writing: true, ..*old(w) }), *final(v) == (Own { held: true, ..*old(v) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_reader(&self, Tracked(w): Tracked<&mut World>) -> (r: ScreenReadGuard<'_>)
        requires !old(w).reading
        ensures r.screen == self, r.reader == rguard(&self.term, *old(w)), *final(w) == (World { reading: true, ..*old(w) })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn unlock_data__(g: Writer, Tracked(v): Tracked<&mut Own>)
    requires old(v).held
    ensures *final(v) == (Own { held: false, data: g })
{ unimplemented!() }
/// its fields are dropped: the terminal's guard, which flushes, and the other
#[verifier::external_body]
pub fn unlock_screen__(g: ScreenWriteGuard, Tracked(w): Tracked<&mut World>, Tracked(v): Tracked<&mut Own>)
    requires old(w).writing, old(v).held
    ensures *final(w) == (World { writing: false, writer: g.writer.writer, ..*old(w) }), *final(v) == (Own { held: false, data: g.data })
{ unimplemented!() }
#[verifier::external_body]
pub fn unlock_sreader__(g: ScreenReadGuard, Tracked(w): Tracked<&mut World>)
    requires old(w).reading
    ensures *final(w) == (World { reading: false, reader: g.reader.reader, ..*old(w) })
{ unimplemented!() }
//@ paired lock_write_data unlock_data__
//@ paired lock_writer unlock_screen__
//@ paired lock_reader unlock_sreader__
//@ world2 lock_write_data unlock_data__
//@ rewrite self . screen . lock_write_data ( ) . $m! $a! ==> { let mut g__ = self.screen.lock_write_data(); let r__ = g__.$m $a; unlock_data__(g__); r__ }
//@ rewrite $x! . lock_write_data ( ) . buffer . $m! $a! ==> { let mut g__ = $x.lock_write_data(); let r__ = g__.buffer.$m $a; unlock_data__(g__); r__ }
//@ rewrite self . lock_reader ( ) . $m! ( $a ) ==> { let mut g__ = (self).lock_reader(Tracked(&mut *w)); let r__ = ScreenReadGuard::$m(&mut g__, $a, Tracked(&mut *w), Tracked(&mut *v)); unlock_sreader__(g__, Tracked(&mut *w)); r__ }
//@ rewrite self . lock_writer ( ) . $m! ( ) ==> { let mut g__ = (self).lock_writer(Tracked(&mut *w), Tracked(&mut *v)); let r__ = ScreenWriteGuard::$m(&mut g__, Tracked(&mut *w)); g__.drop_screen__(Tracked(&mut *w)); g__.writer.drop__(Tracked(&mut *w)); unlock_screen__(g__, Tracked(&mut *w), Tracked(&mut *v)); r__ }
//@ rewrite self . reader . $m! ( $a ) ==> TerminalReadGuard::$m(&mut self.reader, $a, Tracked(&mut *w))
//@ rewrite self . term . $m! ( $a ) ==> Terminal::$m(&self.term, $a, Tracked(&mut *w))

/// only what the buffer holds, its cursor and its attributes: to this
pub open spec fn wrote(a: Writer, b: Writer, s: BS) -> bool {
    b.buffer.st() == s && b.buffer.wf()
}
/// what is believed to be shown stays
pub open spec fn aside(a: Writer, b: Writer) -> bool { b.buffer.back_buffer == a.buffer.back_buffer && b.clear_screen == a.clear_screen && b.real_cursor == a.real_cursor }
pub proof fn lemma_wf()
    ensures forall|a: ScreenBuffer, b: ScreenBuffer| #[trigger] a.wf() && b.back_buffer == a.back_buffer && b.st().cells == a.st().cells && b.st().size == a.st().size ==> #[trigger] b.wf(),
{
    assert forall|a: ScreenBuffer, b: ScreenBuffer| #[trigger] a.wf() && b.back_buffer == a.back_buffer && b.st().cells == a.st().cells && b.st().size == a.st().size implies #[trigger] b.wf() by { lemma_frame_ok(a.st(), b.st()); }
}
//@ fn src/unix/screen.rs Screen::size params="" threads="v"
    requires !old(v).held,
    ensures r == old(v).data.buffer.size, *final(v) == *old(v),
//@ end
//@ fn src/unix/screen.rs Screen::cursor params="" threads="v"
    requires !old(v).held,
    ensures r == old(v).data.buffer.cursor, *final(v) == *old(v),
//@ end
//@ fn src/unix/screen.rs Screen::set_cursor params="pos" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { cursor: pos, ..old(v).data.buffer.st() }), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::next_line params="column" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { cursor: Cursor { line: sat1(old(v).data.buffer.st().cursor.line), column }, ..old(v).data.buffer.st() }), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::clear_attributes params="" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, with_attrs(old(v).data.buffer.st(), None, None, Style::s_empty())), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::add_style params="style" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { style: old(v).data.buffer.st().style.s_union(style), ..old(v).data.buffer.st() }), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::remove_style params="style" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { style: old(v).data.buffer.st().style.s_diff(style), ..old(v).data.buffer.st() }), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::set_style params="style" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { style, ..old(v).data.buffer.st() }), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::set_fg params="fg" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { fg, ..old(v).data.buffer.st() }), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::set_bg params="bg" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { bg, ..old(v).data.buffer.st() }), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::set_theme params="theme" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, with_attrs(old(v).data.buffer.st(), theme.fg, theme.bg, theme.style)), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::write_char params="ch" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), !odd(ch),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, put(old(v).data.buffer.st(), ch).0), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::write_str params="s" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), no_odd(s@),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, puts(old(v).data.buffer.st(), s@).0), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::write_at params="pos text" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, if inb(pos, old(v).data.buffer.st().size) { puts(at(old(v).data.buffer.st(), pos), text@).0 } else { old(v).data.buffer.st() }), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::write_styled params="fg bg style text" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, styled(old(v).data.buffer.st(), fg, bg, style, text@).0), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::write_styled_at params="pos fg bg style text" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, if inb(pos, old(v).data.buffer.st().size) { styled(at(old(v).data.buffer.st(), pos), fg, bg, style, text@).0 } else { old(v).data.buffer.st() }), !final(v).held,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs Screen::clear_screen params="" threads="v"
    requires !old(v).held, old(v).data.buffer.wf(), 
    ensures
        aside(old(v).data, final(v).data), // [C01]
        wrote(old(v).data, final(v).data, BS { cells: final(v).data.buffer.buffer@, ..old(v).data.buffer.st() }), !final(v).held,
        forall|i: int| 0 <= i < final(v).data.buffer.buffer@.len() ==> final(v).data.buffer.buffer@[i] == blank(),
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::size params="" threads=""
    
    ensures r == self.data.buffer.size, 
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::cursor params="" threads=""
    
    ensures r == self.data.buffer.cursor, 
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::set_cursor params="pos" threads=""
    requires old(self).data.buffer.wf(), 
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, BS { cursor: pos, ..old(self).data.buffer.st() }), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::next_line params="column" threads=""
    requires old(self).data.buffer.wf(), 
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, BS { cursor: Cursor { line: sat1(old(self).data.buffer.st().cursor.line), column }, ..old(self).data.buffer.st() }), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::clear_attributes params="" threads=""
    requires old(self).data.buffer.wf(), 
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, with_attrs(old(self).data.buffer.st(), None, None, Style::s_empty())), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::add_style params="style" threads=""
    requires old(self).data.buffer.wf(), 
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, BS { style: old(self).data.buffer.st().style.s_union(style), ..old(self).data.buffer.st() }), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::remove_style params="style" threads=""
    requires old(self).data.buffer.wf(), 
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, BS { style: old(self).data.buffer.st().style.s_diff(style), ..old(self).data.buffer.st() }), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::set_style params="style" threads=""
    requires old(self).data.buffer.wf(), 
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, BS { style, ..old(self).data.buffer.st() }), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::set_fg params="fg" threads=""
    requires old(self).data.buffer.wf(), 
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, BS { fg, ..old(self).data.buffer.st() }), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::set_bg params="bg" threads=""
    requires old(self).data.buffer.wf(), 
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, BS { bg, ..old(self).data.buffer.st() }), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::set_theme params="theme" threads=""
    requires old(self).data.buffer.wf(), 
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, with_attrs(old(self).data.buffer.st(), theme.fg, theme.bg, theme.style)), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::write_char params="ch" threads=""
    requires old(self).data.buffer.wf(), !odd(ch),
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, put(old(self).data.buffer.st(), ch).0), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::write_str params="s" threads=""
    requires old(self).data.buffer.wf(), no_odd(s@),
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, puts(old(self).data.buffer.st(), s@).0), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::write_at params="pos text" threads=""
    requires old(self).data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, if inb(pos, old(self).data.buffer.st().size) { puts(at(old(self).data.buffer.st(), pos), text@).0 } else { old(self).data.buffer.st() }), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::write_styled params="fg bg style text" threads=""
    requires old(self).data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, styled(old(self).data.buffer.st(), fg, bg, style, text@).0), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::write_styled_at params="pos fg bg style text" threads=""
    requires old(self).data.buffer.wf(), no_odd(text@),
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, if inb(pos, old(self).data.buffer.st().size) { styled(at(old(self).data.buffer.st(), pos), fg, bg, style, text@).0 } else { old(self).data.buffer.st() }), final(self).writer == old(self).writer,
//@ start
    proof { lemma_wf(); }
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::clear_screen params="" threads=""
    requires old(self).data.buffer.wf(), 
    ensures
        aside(old(self).data, final(self).data), // [C01]
        wrote(old(self).data, final(self).data, BS { cells: final(self).data.buffer.buffer@, ..old(self).data.buffer.st() }), final(self).writer == old(self).writer,
        forall|i: int| 0 <= i < final(self).data.buffer.buffer@.len() ==> final(self).data.buffer.buffer@[i] == blank(),
//@ start
    proof { lemma_wf(); }
//@ end
/// a resize that was reported is taken into account
pub open spec fn followed(a: Writer, b: Writer, r: io::Result<Option<Event>>) -> bool {
    match r { Ok(Some(Event::Resize(s))) => resized(a, b, s) && forall|i: Database, d: Dev| #[trigger] believes(i, d, b), _ => a == b }
}
//@ fn src/unix/screen.rs ScreenReadGuard::wait_event params="timeout" threads="w v"
    requires sound(*old(self).reader.term),
    ensures
        *final(self) == *old(self), *final(w) == (World { waits: final(w).waits, ..*old(w) }), *final(v) == *old(v),
        waited(*old(w), *final(w), old(self).reader.term.in_fd, timeout), r == Ok::<bool, io::Error>(false) <==> elapsed(*old(w), *final(w)), // [C20]
//@ end
//@ fn src/unix/screen.rs ScreenReadGuard::read_event params="timeout" threads="w v"
    requires sound(*old(self).reader.term), !old(w).writing, !old(v).held, old(v).data.buffer.wf(), size_ok(old(w).win[old(self).reader.term.out_fd]),
    ensures
        final(self).screen == old(self).screen, final(self).reader.term == old(self).reader.term, !final(v).held,
        once(old(w).got, final(w).got, *old(self).reader.term, old(self).reader.reader.in_buffer@, r, final(self).reader.reader.in_buffer@), // [C19 C09 C10]
        waited(*old(w), *final(w), old(self).reader.term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), old(self).reader, *final(w), final(self).reader, r), // [C21]
        coherent(old(self).reader.reader) && r is Ok ==> coherent(final(self).reader.reader), // [C21]
        worked(*old(w), *final(w)),
        followed(old(v).data, final(v).data, r), // [C05 C01 C21]
//@ start
    proof { lemma_sized(); }
//@ end
//@ fn src/unix/screen.rs ScreenReadGuard::read_raw params="buf timeout" threads="w v"
    requires sound(*old(self).reader.term), !old(w).writing, !old(v).held, old(v).data.buffer.wf(), size_ok(old(w).win[old(self).reader.term.out_fd]),
    ensures
        final(self).screen == old(self).screen, final(self).reader.term == old(self).reader.term, !final(v).held, final(buf)@.len() == old(buf)@.len(),
        match raw(r) { // [C19]
            Some(n) => n <= old(buf)@.len() && final(buf)@.skip(n as int) == old(buf)@.skip(n as int)
                && handed(old(w).got, final(w).got, *old(self).reader.term, old(self).reader.reader.in_buffer@, final(buf)@.take(n as int), final(self).reader.reader.in_buffer@),
            None => final(buf)@ == old(buf)@ && final(self).reader.reader.in_buffer@ == old(self).reader.reader.in_buffer@ && final(w).got == old(w).got,
        },
        r is Ok && old(buf)@.len() > 0 && old(self).reader.reader.in_buffer@.len() > 0 ==> (raw(r) matches Some(n) && n > 0), // [C19]
        !(r matches Ok(Some(e)) && input(e)),
        waited(*old(w), *final(w), old(self).reader.term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), old(self).reader, *final(w), final(self).reader, r), // [C21]
        coherent(old(self).reader.reader) && r is Ok ==> coherent(final(self).reader.reader), // [C21]
        worked(*old(w), *final(w)),
        followed(old(v).data, final(v).data, r), // [C05 C01 C21]
//@ start
    proof { lemma_sized(); }
//@ end
/// a reported size is the window's
pub proof fn lemma_sized()
    ensures forall|w0: World, g0: TerminalReadGuard, w1: World, g1: TerminalReadGuard, r: io::Result<Option<Event>>| #[trigger] answers(w0, g0, w1, g1, r) ==>
        (r matches Ok(Some(Event::Resize(s))) ==> s == w0.win[g0.term.out_fd]),
{ reveal(sys::outcome); }
//@ fn src/unix/screen.rs Screen::wait_event params="timeout" threads="w v"
    requires sound(self.term), !old(w).reading,
    ensures
        *final(w) == (World { waits: final(w).waits, ..*old(w) }), *final(v) == *old(v),
        waited(*old(w), *final(w), self.term.in_fd, timeout), r == Ok::<bool, io::Error>(false) <==> elapsed(*old(w), *final(w)), // [C20]
//@ end
//@ fn src/unix/screen.rs Screen::read_event params="timeout" threads="w v"
    requires sound(self.term), !old(w).reading, !old(w).writing, !old(v).held, old(v).data.buffer.wf(), size_ok(old(w).win[self.term.out_fd]),
    ensures
        once(old(w).got, final(w).got, self.term, old(w).reader.in_buffer@, r, final(w).reader.in_buffer@), // [C19 C09 C10]
        waited(*old(w), *final(w), self.term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), rguard(&self.term, *old(w)), *final(w), rguard(&self.term, *final(w)), r), // [C21]
        coherent(old(w).reader) && r is Ok ==> coherent(final(w).reader), // [C21]
        !final(w).reading, !final(w).writing, !final(v).held,
        followed(old(v).data, final(v).data, r), // [C05 C01 C21]
//@ start
    proof { lemma_sized(); lemma_reading(); }
//@ end
//@ fn src/unix/screen.rs Screen::read_raw params="buf timeout" threads="w v"
    requires sound(self.term), !old(w).reading, !old(w).writing, !old(v).held, old(v).data.buffer.wf(), size_ok(old(w).win[self.term.out_fd]),
    ensures
        final(buf)@.len() == old(buf)@.len(),
        match raw(r) { // [C19]
            Some(n) => n <= old(buf)@.len() && final(buf)@.skip(n as int) == old(buf)@.skip(n as int)
                && handed(old(w).got, final(w).got, self.term, old(w).reader.in_buffer@, final(buf)@.take(n as int), final(w).reader.in_buffer@),
            None => final(buf)@ == old(buf)@ && final(w).reader.in_buffer@ == old(w).reader.in_buffer@ && final(w).got == old(w).got,
        },
        waited(*old(w), *final(w), self.term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), rguard(&self.term, *old(w)), *final(w), rguard(&self.term, *final(w)), r), // [C21]
        coherent(old(w).reader) && r is Ok ==> coherent(final(w).reader), // [C21]
        !final(w).reading, !final(w).writing, !final(v).held,
        followed(old(v).data, final(v).data, r), // [C05 C01 C21]
//@ start
    proof { lemma_sized(); lemma_reading(); }
//@ end
/// what happens while the reader is locked happened
pub proof fn lemma_reading()
    ensures
        forall|w0: World, v1: World, w1: World, g: TerminalReadGuard, g1: TerminalReadGuard, r: io::Result<Option<Event>>|
            #[trigger] answers((World { reading: true, ..w0 }), g, v1, g1, r) && w1 == (World { reading: false, reader: g1.reader, ..v1 }) ==> #[trigger] answers(w0, g, w1, g1, r),
{
    assert forall|w0: World, v1: World, w1: World, g: TerminalReadGuard, g1: TerminalReadGuard, r: io::Result<Option<Event>>|
            #[trigger] answers((World { reading: true, ..w0 }), g, v1, g1, r) && w1 == (World { reading: false, reader: g1.reader, ..v1 }) implies #[trigger] answers(w0, g, w1, g1, r) by {
        reveal(sys::held);
        sys::lemma_held();
        assert(sys::held(w0, World { reading: true, ..w0 }));
        assert(sys::held(v1, w1));
    }
}
//@ fn src/unix/screen.rs Screen::set_cursor_mode params="mode" threads="w"
    requires !old(w).writing,
    ensures
        !final(w).writing, grows(locked(*old(w), *old(w)), wguard(&self.term, *old(w)), locked(*old(w), *final(w)), wguard(&self.term, *final(w))),
        sys::kept_attrs(*old(w), *final(w)),
        r is Ok && dv(locked(*old(w), *old(w)), wguard(&self.term, *old(w))).ground && self.term.info.knows(Cap::CursorNormal) && self.term.info.knows(Cap::CursorInvisible)
            ==> dv(locked(*old(w), *final(w)), wguard(&self.term, *final(w))) == (Dev { visible: !(mode is Invisible), ..dv(locked(*old(w), *old(w)), wguard(&self.term, *old(w))) }),
        sane(self.term.info) ==> r is Ok,
//@ end
//@ fn src/unix/screen.rs Screen::refresh params="" threads="w v"
    requires !old(w).writing, !old(v).held,
        okay(locked(*old(w), *old(w)), wguard(&self.term, *old(w)), old(v).data.buffer.size),
        believes(self.term.info, dv(locked(*old(w), *old(w)), wguard(&self.term, *old(w))), old(v).data),
        // or the refresh at the end of the lock works on a terminal whose attributes are not known
        sane(self.term.info), small(old(v).data.buffer.buffer@, wguard(&self.term, *old(w))),
    ensures
        !final(w).writing, !final(v).held, final(v).data.buffer.wf(), final(v).data.buffer.st() == old(v).data.buffer.st(),
        ({ let a = locked(*old(w), *old(w)); let b = locked(*old(w), *final(w)); let g = wguard(&self.term, *old(w)); let h = wguard(&self.term, *final(w));
            &&& grows(a, g, b, h)
            &&& r is Ok ==> refreshed(dv(b, h), self.term.info, old(v).data.buffer.st(), h) && idle(final(v).data, h)
            &&& r is Ok && old(v).data.clear_screen ==> wiped(a, g, b, h)
            &&& believes(self.term.info, dv(b, h), final(v).data)
            &&& okay(b, h, old(v).data.buffer.size)
        }),
//@ start
    let ghost w0 = locked(*w, *w); let ghost g0 = wguard(&self.term, *w);
    proof { lemma_okay(v.data.buffer.size); lemma_trans(w0, g0); lemma_wiped(w0, g0); lemma_locked(*w); lemma_idle(w0, g0, v.data.buffer.size); }
//@ end
/// who holds the lock does not matter to what was sent
pub proof fn lemma_locked(w0: World)
    ensures
        (World { writing: true, ..w0 }) == locked(w0, w0),
        forall|g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard| #[trigger] grows(locked(w0, w0), g0, w1, g1) ==> w1.writing && w1.writer == w0.writer && g1.term == g0.term,
        forall|w1: World, wr: sys::Writer| w1.writing && w1.writer == w0.writer ==> #[trigger] locked(w0, World { writing: false, writer: wr, ..w1 }) == w1,
{ reveal(grows); }
/// what is idle is known, and stays as it is when nothing is sent
pub proof fn lemma_idle(w: World, g0: TerminalWriteGuard, s: Size)
    requires okay(w, g0, s)
    ensures
        forall|data: Writer, g: TerminalWriteGuard| #[trigger] idle(data, g) && data.buffer.wf() && data.buffer.size == s ==> !unknown(data),
        forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard| #[trigger] okay(w1, g1, s) && #[trigger] grows(w1, g1, w2, g2) && tot(w2, g2) == tot(w1, g1) && same_attrs(g1, g2) ==> okay(w2, g2, s) && dv(w2, g2) == dv(w1, g1),
{
    reveal(okay); reveal(grows); reveal(ready); 
    broadcast use ax_sstr;
    ax_dev(info(g0), w.env, tot(w, g0));
    assert forall|data: Writer, g: TerminalWriteGuard| #[trigger] idle(data, g) && data.buffer.wf() && data.buffer.size == s implies !unknown(data) by {
        lemma_shape(data.buffer.st()); reveal(bs_ok); reveal(area);
        assert(s.lines * s.columns >= 1) by (nonlinear_arith) requires s.lines >= 1, s.columns >= 1;
        reveal(all_void);
        assert(data.buffer.buffer@[0] == data.buffer.back_buffer@[0]);
        lemma_cell(data.buffer.st(), 0);
    }
}
/// a lock is made: nobody holds it
#[verifier::external_body]
pub fn guarded__(d: Writer, Tracked(v): Tracked<&mut Own>) -> (r: Mutex<Writer>) ensures *final(v) == (Own { data: d, held: false }) { unimplemented!() }
/// a clear screen is shown, on a terminal that was prepared
pub open spec fn begun(i: Database, s: Size, w0: World, g0: TerminalWriteGuard, keypad: bool, mouse: Option<sys::MouseTracking>, d0: Dev, d1: Dev, w1: World, g1: TerminalWriteGuard) -> bool {
    &&& okay(w0, g0, s) && info(g0) == i && info(g1) == i
    &&& d0 == moded(i, dv(w0, g0), keypad, mouse) && entered(i, d0, d1) && d1 == dv(w1, g1)
}
pub proof fn lemma_new(i: Database, s: Size, w0: World, g0: TerminalWriteGuard)
    requires okay(w0, g0, s)
    ensures
        forall|keypad: bool, mouse: Option<sys::MouseTracking>, d: Dev, d0: Dev, d1: Dev, w1: World, g1: TerminalWriteGuard, k: Seq<Cell>| #![trigger moded(i, d, keypad, mouse), entered(i, d0, d1), synced(i, dv(w1, g1), k)]
            d == dv(w0, g0) && begun(i, s, w0, g0, keypad, mouse, d0, d1, w1, g1) && k.len() == area(s) && (forall|j: int| 0 <= j < k.len() ==> k[j] == blank()) ==> synced(i, dv(w1, g1), k),
        forall|keypad: bool, mouse: Option<sys::MouseTracking>, d: Dev, d0: Dev, d1: Dev, w1: World, g1: TerminalWriteGuard| #![trigger moded(i, d, keypad, mouse), entered(i, d0, d1), okay(w1, g1, s)]
            d == dv(w0, g0) && begun(i, s, w0, g0, keypad, mouse, d0, d1, w1, g1) && g1.writer.fg is None && g1.writer.bg is None && g1.writer.cur_style == Style::s_empty() ==> okay(w1, g1, s),
        forall|d0: Dev, d1: Dev| #[trigger] entered(i, d0, d1) ==> d1.line == 0 && d1.column == 0 && !d1.pending,
        forall|w2: World, g2: TerminalWriteGuard, d: Dev, keypad: bool, mouse: Option<sys::MouseTracking>|
            #![trigger ready(w2, g2), moded(i, d, keypad, mouse)]
            info(g0) == i && g0.term == g2.term && same_attrs(g0, g2) && d == dv(w0, g0) && moded(i, d, keypad, mouse) == dv(w2, g2) ==> ready(w2, g2),
        forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard, r: sys::Reader| #![trigger believed(w1, g1, r), believed(w2, g2, r)]
            believed(w1, g1, r) && g1.term == g2.term && dv(w1, g1) == dv(w2, g2) ==> believed(w2, g2, r),
        forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard| #[trigger] grows(w1, g1, w2, g2) ==> w2 == (World { sent: w2.sent, ..w1 }),
        forall|w0: World, a: TerminalReadGuard, w1: World, b: TerminalReadGuard, v0: World, v1: World, b1: TerminalReadGuard, c: PrepareConfig, p: sys::PrepareState| #![trigger made(v0, a, v1, b, c, p), made(w0, a, w1, b1, c, p)]
            made(v0, a, v1, b, c, p) && v0.tio == w0.tio && v0.acts == w0.acts && v1.tio == w1.tio && v1.acts == w1.acts && b1 == b ==> made(w0, a, w1, b1, c, p),
{
    reveal(entered); reveal(moded); reveal(ready); reveal(okay); reveal(grows); reveal(sys::made); reveal(sys::believed);
    assert forall|keypad: bool, mouse: Option<sys::MouseTracking>, d: Dev, d0: Dev, d1: Dev, w1: World, g1: TerminalWriteGuard, k: Seq<Cell>| #![trigger moded(i, d, keypad, mouse), entered(i, d0, d1), synced(i, dv(w1, g1), k)]
            d == dv(w0, g0) && begun(i, s, w0, g0, keypad, mouse, d0, d1, w1, g1) && k.len() == area(s) && (forall|j: int| 0 <= j < k.len() ==> k[j] == blank()) implies synced(i, dv(w1, g1), k) by {
        ax_dev(i, w1.env, tot(w1, g1)); reveal(synced); lemma_blank_ok(); reveal(area); reveal(sys::all_blank);
        assert forall|j: int| 0 <= j < k.len() && k[j].text@.len() > 0 implies #[trigger] cell_shown(i, dv(w1, g1), j, k[j]) by {
            assert(k[j] == blank()); let d = dv(w1, g1);
            assert(d.lines == s.lines && d.columns == s.columns); assert(area(s) == d.cells.len());
            assert(d.cells[j] == TCell::Shown(blank()));
            assert(can_style(i, Style::s_empty()) == Style::s_empty()); assert(shown(i, blank()) == TCell::Shown(blank()));
        }
    }
}
//@ fn src/unix/screen.rs Screen::new params="term config" threads="w v"
    requires !old(w).reading, !old(w).writing, size_ok(old(w).win[term.out_fd]),
        okay(locked(*old(w), *old(w)), wguard(&term, *old(w)), old(w).win[term.out_fd]),
        believed(*old(w), wguard(&term, *old(w)), old(w).reader),
    ensures
        r matches Ok(s) ==> s.term == term && !final(w).reading && !final(w).writing && !final(v).held
            && (s.state matches Some(p) && made(*old(w), rguard(&term, *old(w)), *final(w), rguard(&term, *final(w)), config, p)), // [C18]
        r matches Ok(s) ==> final(v).data.buffer.st() == (BS { cells: final(v).data.buffer.buffer@, size: old(w).win[term.out_fd], cursor: Cursor::s_default(), fg: None, bg: None, style: Style::s_empty() })
            && (forall|i: int| 0 <= i < final(v).data.buffer.buffer@.len() ==> final(v).data.buffer.buffer@[i] == blank())
            && okay(locked(*old(w), *final(w)), wguard(&term, *final(w)), old(w).win[term.out_fd]),
        r matches Ok(s) ==> believes(term.info, dv(*final(w), wguard(&term, *final(w))), final(v).data), // [C01]
//@ rewrite term . size ( ) ==> Terminal::size(&term, Tracked(&mut *w))
//@ rewrite term . prepare ( $a ) ==> Terminal::prepare(&term, $a, Tracked(&mut *w))
//@ rewrite $x! . term . enter_screen ( ) ==> Terminal::enter_screen(&$x.term, Tracked(&mut *w))
//@ rewrite Mutex :: new ( $a ) ==> guarded__($a, Tracked(&mut *v))
//@ start
    proof { reveal(sys::acted); lemma_new(term.info, w.win[term.out_fd], locked(*w, *w), wguard(&term, *w)); lemma_locked(*w); lemma_okay(w.win[term.out_fd]); }
//@ end
} // verus!
fn main() {}
