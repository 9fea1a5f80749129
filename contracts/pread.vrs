//@ include common.vrs
//@ include cell.vrs
//@ include io.vrs
//@ use reader.vrs mod=sys names="World,Event,Duration,PrepareConfig,acted,answers,believed,coherent,dv,elapsed,fits,handed,info,input,kept,made,moded,once,raw,rguard,same_taken,sound,unmade,waited,wguard,worked"
verus! {
//@ type src/terminal.rs PrepareState
//@ type src/terminal.rs Terminal
//@ type src/terminal.rs TerminalReadGuard
//@ type src/terminal.rs TerminalWriteGuard
//@ world prepare restore prepare_with_lock restore_with_lock wait_event read_event read_raw size
//@ rewrite self . 0 . $m! $a! . map ( PrepareState ) ==> (match self.0.$m $a { Ok(s__) => Ok(PrepareState(s__)), Err(e__) => Err(e__) })
//@ fn src/terminal.rs Terminal::size params=""
    requires !old(w).writing,
    ensures acted(*old(w), *final(w), self.0), r matches Ok(s) ==> s == old(w).win[self.0.out_fd],
//@ end
//@ fn src/terminal.rs Terminal::prepare params="config"
    requires !old(w).reading, !old(w).writing,
    ensures
        r matches Ok(s) ==> made(*old(w), rguard(&self.0, *old(w)), *final(w), rguard(&self.0, *final(w)), config, s.0),
        r is Ok && believed(*old(w), wguard(&self.0, *old(w)), old(w).reader) ==> believed(*final(w), wguard(&self.0, *final(w)), final(w).reader)
            && dv(*final(w), wguard(&self.0, *final(w))) == moded(self.0.info, dv(*old(w), wguard(&self.0, *old(w))), final(w).reader.keypad, final(w).reader.mouse),
        !final(w).reading, !final(w).writing,
//@ end
//@ fn src/terminal.rs Terminal::restore params="state"
    requires !old(w).reading, !old(w).writing,
    ensures
        r is Ok ==> unmade(*old(w), *final(w), rguard(&self.0, *final(w)), state.0),
        r is Ok && believed(*old(w), wguard(&self.0, *old(w)), old(w).reader) && fits(self.0.info, state.0, old(w).reader) ==> believed(*final(w), wguard(&self.0, *final(w)), final(w).reader)
            && dv(*final(w), wguard(&self.0, *final(w))) == moded(self.0.info, dv(*old(w), wguard(&self.0, *old(w))), final(w).reader.keypad, final(w).reader.mouse),
        !final(w).reading, !final(w).writing,
//@ end
//@ fn src/terminal.rs Terminal::wait_event params="timeout"
    requires sound(self.0), !old(w).reading,
    ensures
        *final(w) == (World { waits: final(w).waits, ..*old(w) }),
        waited(*old(w), *final(w), self.0.in_fd, timeout), r == Ok::<bool, io::Error>(false) <==> elapsed(*old(w), *final(w)), // [C20]
//@ end
//@ fn src/terminal.rs Terminal::read_event params="timeout"
    requires sound(self.0), !old(w).reading, !old(w).writing,
    ensures
        once(old(w).got, final(w).got, self.0, old(w).reader.in_buffer@, r, final(w).reader.in_buffer@), // [C19 C09 C10]
        waited(*old(w), *final(w), self.0.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), rguard(&self.0, *old(w)), *final(w), rguard(&self.0, *final(w)), r), // [C21]
        coherent(old(w).reader) && r is Ok ==> coherent(final(w).reader), !final(w).reading, !final(w).writing, // [C21]
//@ end
//@ fn src/terminal.rs TerminalReadGuard::prepare params="config"
    requires !old(w).writing,
    ensures
        acted(*old(w), *final(w), *old(self).0.term),
        final(self).0.term == old(self).0.term, final(self).0.reader.in_buffer == old(self).0.reader.in_buffer,
        r matches Ok(s) ==> made(*old(w), old(self).0, *final(w), final(self).0, config, s.0),
        r is Ok && believed(*old(w), wguard(old(self).0.term, *old(w)), old(self).0.reader) ==> believed(*final(w), wguard(old(self).0.term, *final(w)), final(self).0.reader)
            && dv(*final(w), wguard(old(self).0.term, *final(w))) == moded(old(self).0.term.info, dv(*old(w), wguard(old(self).0.term, *old(w))), final(self).0.reader.keypad, final(self).0.reader.mouse),
//@ end
//@ fn src/terminal.rs TerminalReadGuard::prepare_with_lock params="writer config"
    requires old(writer).0.term == old(self).0.term,
    ensures
        kept(*old(w), old(writer).0, *final(w), final(writer).0),
        final(self).0.term == old(self).0.term, final(self).0.reader.in_buffer == old(self).0.reader.in_buffer,
        r matches Ok(s) ==> made(*old(w), old(self).0, *final(w), final(self).0, config, s.0),
        r is Ok ==> final(writer).0.writer.out_buffer@.len() == 0,
        r is Ok && believed(*old(w), old(writer).0, old(self).0.reader) ==> believed(*final(w), final(writer).0, final(self).0.reader)
            && dv(*final(w), final(writer).0) == moded(info(old(writer).0), dv(*old(w), old(writer).0), final(self).0.reader.keypad, final(self).0.reader.mouse),
//@ end
//@ fn src/terminal.rs TerminalReadGuard::restore params="state"
    requires !old(w).writing,
    ensures
        acted(*old(w), *final(w), *old(self).0.term),
        final(self).0.term == old(self).0.term, final(self).0.reader.in_buffer == old(self).0.reader.in_buffer,
        r is Ok ==> unmade(*old(w), *final(w), final(self).0, state.0),
        r is Ok && believed(*old(w), wguard(old(self).0.term, *old(w)), old(self).0.reader) && fits(old(self).0.term.info, state.0, old(self).0.reader) ==> believed(*final(w), wguard(old(self).0.term, *final(w)), final(self).0.reader)
            && dv(*final(w), wguard(old(self).0.term, *final(w))) == moded(old(self).0.term.info, dv(*old(w), wguard(old(self).0.term, *old(w))), final(self).0.reader.keypad, final(self).0.reader.mouse),
//@ end
//@ fn src/terminal.rs TerminalReadGuard::restore_with_lock params="writer state"
    requires old(writer).0.term == old(self).0.term,
    ensures
        kept(*old(w), old(writer).0, *final(w), final(writer).0),
        final(self).0.term == old(self).0.term, final(self).0.reader.in_buffer == old(self).0.reader.in_buffer,
        r is Ok ==> unmade(*old(w), *final(w), final(self).0, state.0),
        r is Ok ==> final(writer).0.writer.out_buffer@.len() == 0,
        r is Ok && believed(*old(w), old(writer).0, old(self).0.reader) && fits(info(old(writer).0), state.0, old(self).0.reader) ==> believed(*final(w), final(writer).0, final(self).0.reader)
            && dv(*final(w), final(writer).0) == moded(info(old(writer).0), dv(*old(w), old(writer).0), final(self).0.reader.keypad, final(self).0.reader.mouse),
//@ end
//@ fn src/terminal.rs TerminalReadGuard::wait_event params="timeout"
    requires sound(*old(self).0.term),
    ensures
        final(self).0 == old(self).0, *final(w) == (World { waits: final(w).waits, ..*old(w) }), same_taken(*old(w), *final(w)),
        waited(*old(w), *final(w), old(self).0.term.in_fd, timeout),
        r == Ok::<bool, io::Error>(false) ==> elapsed(*old(w), *final(w)),
        elapsed(*old(w), *final(w)) ==> r == Ok::<bool, io::Error>(false),
//@ end
//@ fn src/terminal.rs TerminalReadGuard::read_event params="timeout"
    requires sound(*old(self).0.term), !old(w).writing,
    ensures
        final(self).0.term == old(self).0.term,
        once(old(w).got, final(w).got, *old(self).0.term, old(self).0.reader.in_buffer@, r, final(self).0.reader.in_buffer@), // [C19 C09 C10]
        waited(*old(w), *final(w), old(self).0.term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), old(self).0, *final(w), final(self).0, r), // [C21]
        coherent(old(self).0.reader) && r is Ok ==> coherent(final(self).0.reader), // [C21]
        worked(*old(w), *final(w)),
//@ end
//@ fn src/terminal.rs TerminalExt for Terminal::read_raw params="buf timeout"
    requires sound(old(self).0), !old(w).reading, !old(w).writing,
    ensures
        final(self).0 == old(self).0,
        final(buf)@.len() == old(buf)@.len(),
        match raw(r) { // [C19]
            Some(n) => n <= old(buf)@.len() && final(buf)@.skip(n as int) == old(buf)@.skip(n as int)
                && handed(old(w).got, final(w).got, old(self).0, old(w).reader.in_buffer@, final(buf)@.take(n as int), final(w).reader.in_buffer@),
            None => final(buf)@ == old(buf)@ && final(w).reader.in_buffer@ == old(w).reader.in_buffer@ && final(w).got == old(w).got,
        },
        waited(*old(w), *final(w), old(self).0.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), rguard(&old(self).0, *old(w)), *final(w), rguard(&old(self).0, *final(w)), r), // [C21]
        coherent(old(w).reader) && r is Ok ==> coherent(final(w).reader), !final(w).reading, !final(w).writing, // [C21]
//@ end
//@ fn src/terminal.rs TerminalExt for TerminalReadGuard::read_raw params="buf timeout"
    requires sound(*old(self).0.term), !old(w).writing,
    ensures
        final(self).0.term == old(self).0.term, final(buf)@.len() == old(buf)@.len(),
        match raw(r) { // [C19]
            Some(n) => n <= old(buf)@.len() && final(buf)@.skip(n as int) == old(buf)@.skip(n as int)
                && handed(old(w).got, final(w).got, *old(self).0.term, old(self).0.reader.in_buffer@, final(buf)@.take(n as int), final(self).0.reader.in_buffer@),
            None => final(buf)@ == old(buf)@ && final(self).0.reader.in_buffer@ == old(self).0.reader.in_buffer@ && final(w).got == old(w).got,
        },
        r is Ok && old(buf)@.len() > 0 && old(self).0.reader.in_buffer@.len() > 0 ==> (raw(r) matches Some(n) && n > 0), // [C19]
        !(r matches Ok(Some(e)) && input(e)),
        waited(*old(w), *final(w), old(self).0.term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), old(self).0, *final(w), final(self).0, r), // [C21]
        coherent(old(self).0.reader) && r is Ok ==> coherent(final(self).0.reader), // [C21]
        worked(*old(w), *final(w)),
//@ end
} // verus!
fn main() {}
