//@ include common.vrs
//@ include cell.vrs
verus! {
//@ type src/terminal.rs Key derive=Structural
//@ type src/terminal.rs MouseButton derive=Structural
//@ type src/terminal.rs MouseInput derive=Structural
}
//@ use signal.vrs
//@ include io.vrs
//@ use events.vrs mod=events names="Event,SeqData,SeqMap,MouseEvent,ModifierState,peek_event,invalid_prefix_len,event_at,waits,broken,bad_len,is_up,incomplete,SequenceMap,lemma_up"
//@ included seqmap.vrs
//@ include termbase.vrs
//@ use modes.vrs opaque=made,believed,fits,adjusted,unmade
//@ include lockbase.vrs
//@ include readbase.vrs
verus! {

/// a duration as the operating system is asked to wait: milliseconds, unless there are too many
#[verifier::opaque]
pub open spec fn asked(d: Duration, u: int) -> bool {
    if d.secs() <= TV_MAX_SECONDS { u == (d.secs() * 1000 + d.nanos() / 1_000_000) * 1000 } else { u >= TV_MAX_SECONDS * 1_000_000 }
}
//@ fn src/unix/terminal.rs to_timeval params="d"
    ensures asked(d, r.us()),
//@ start
    proof { reveal(asked); }
//@ end

/// the signals that are caught
pub open spec fn caught(n: int) -> Option<Signal> {
    if n == 18 { Some(Signal::Continue) } else if n == 2 { Some(Signal::Interrupt) } else if n == 3 { Some(Signal::Quit) }
    else if n == 20 { Some(Signal::Suspend) } else if n == 28 { Some(Signal::Resize) } else { None }
}
//@ fn src/unix/terminal.rs conv_signal params="sig"
    ensures r == caught(sig as int),
//@ start
    proof { assert(signum(NixSignal::SIGCONT) == 18 && signum(NixSignal::SIGINT) == 2 && signum(NixSignal::SIGQUIT) == 3 && signum(NixSignal::SIGTSTP) == 20 && signum(NixSignal::SIGWINCH) == 28); }
//@ end
//@ fn src/unix/terminal.rs get_signal params=""
    ensures true,
//@ end
//@ fn src/unix/terminal.rs take_signal params=""
    ensures took(*old(w), *final(w), r), final(w).taken.len() == old(w).taken.len() + 1,
        *final(w) == (World { taken: final(w).taken, left: 0, ..*old(w) }),
//@ start
    proof { reveal(took); }
//@ end
/// the handler: notes the number where the next take_signal finds it
//@ world handle_signal
//@ fn src/unix/terminal.rs handle_signal as=on_signal__ params="signum"
    requires signum >= 0,
    ensures *final(w) == (World { left: signum as int, ..*old(w) }),
//@ end
/// signals were taken; the last of them is the one there is, and the others are none that is caught
#[verifier::opaque]
pub open spec fn took(w0: World, w1: World, r: Option<Signal>) -> bool {
    &&& w0.taken.len() <= w1.taken.len()
    &&& forall|k: int| 0 <= k < w0.taken.len() ==> #[trigger] w1.taken[k] == w0.taken[k]
    &&& forall|k: int| w0.taken.len() <= k < w1.taken.len() - 1 ==> caught(#[trigger] w1.taken[k]) is None
    &&& r == (if w1.taken.len() > w0.taken.len() { caught(w1.taken.last()) } else { None })
    &&& w1.left == (if w1.taken.len() > w0.taken.len() { 0 } else { w0.left })
}
pub proof fn lemma_took(w0: World)
    ensures took(w0, w0, None), forall|a: World, b: World, r: Option<Signal>| #[trigger] took(w0, a, None) && #[trigger] took(a, b, r) ==> took(w0, b, r),
        forall|a: World, b: World| #[trigger] took(w0, a, None) && #[trigger] same_taken(a, b) ==> took(w0, b, None),
        forall|a: World, b: World| a.taken == b.taken && a.left == b.left ==> #[trigger] same_taken(a, b),
{
    reveal(took); reveal(same_taken);
    assert forall|a: World, b: World, r: Option<Signal>| #[trigger] took(w0, a, None) && #[trigger] took(a, b, r) implies took(w0, b, r) by {
        assert forall|k: int| 0 <= k < w0.taken.len() implies #[trigger] b.taken[k] == w0.taken[k] by { assert(b.taken[k] == a.taken[k]); }
        assert forall|k: int| w0.taken.len() <= k < b.taken.len() - 1 implies caught(#[trigger] b.taken[k]) is None by {
            if k < a.taken.len() { assert(b.taken[k] == a.taken[k]); if k == a.taken.len() - 1 { assert(a.taken.last() == a.taken[k]); } }
        }
        if b.taken.len() == a.taken.len() && a.taken.len() > w0.taken.len() { assert(b.taken.last() == b.taken[b.taken.len() - 1]); assert(a.taken.last() == a.taken[b.taken.len() - 1]); }
    }
}
#[verifier::opaque]
pub open spec fn same_taken(a: World, b: World) -> bool { a.taken == b.taken && a.left == b.left }
/// only input was read
pub open spec fn input_only(w0: World, w1: World) -> bool { w1 == (World { got: w1.got, waits: w1.waits, taken: w1.taken, left: w1.left, ..w0 }) }
/// the waits that were added ask for what was asked for, then for the rest of it
pub open spec fn waited(w0: World, w1: World, fd: RawFd, t: Option<Duration>) -> bool { chain(w0.waits, w1.waits, fd, t) }
#[verifier::opaque]
pub open spec fn first(t: Option<Duration>, u: Option<int>) -> bool { match t { Some(d) => u matches Some(n) && asked(d, n), None => u is None } }
#[verifier::opaque]
pub open spec fn chain(a: Seq<Wait>, b: Seq<Wait>, fd: RawFd, t: Option<Duration>) -> bool {
    &&& a.is_prefix_of(b)
    &&& forall|k: int| a.len() <= k < b.len() ==> (#[trigger] b[k]).fds.contains(fd) && b[k].nfds > fd
    &&& forall|k: int| a.len() < k < b.len() ==> (#[trigger] b[k]).given == b[k - 1].rest
    &&& b.len() > a.len() ==> first(t, b[a.len() as int].given)
}
pub proof fn lemma_chain(a: Seq<Wait>, fd: RawFd, t: Option<Duration>)
    ensures
        chain(a, a, fd, t), forall|x: Set<RawFd>| #[trigger] x.insert(fd).contains(fd),
        forall|b: Seq<Wait>, e: Wait| #[trigger] chain(a, b, fd, t) && e.fds.contains(fd) && e.nfds > fd && (if b.len() == a.len() { first(t, e.given) } else { e.given == b.last().rest })
            ==> chain(a, #[trigger] b.push(e), fd, t),
        forall|b: Seq<Wait>| #[trigger] chain(a, b, fd, t) ==> a.len() <= b.len(),
{ reveal(chain); }
pub proof fn lemma_first(t: Option<Duration>)
    ensures t is None ==> first(t, None), forall|x: TimeVal| t is Some && asked(t->0, x.us()) ==> first(t, Some(#[trigger] x.us()))
{ reveal(first); }
/// the last of them found nothing
pub open spec fn elapsed(w0: World, w1: World) -> bool { w1.waits.len() > w0.waits.len() && w1.waits.last().ready == 0 }

/// what is known of a terminal
pub open spec fn sound(t: Terminal) -> bool { 0 <= t.in_fd < 1024 && t.sequences.wf() }

pub open spec fn woke(w0: World, w1: World, n: c_int) -> bool { w1.waits.len() > w0.waits.len() && w1.waits.last().ready == n }
//@ fn src/unix/terminal.rs TerminalReadGuard::wait_event params="timeout" attr="verifier::exec_allows_no_decreases_clause"
    requires sound(*old(self).term),
    ensures
        *final(self) == *old(self), *final(w) == (World { waits: final(w).waits, ..*old(w) }), same_taken(*old(w), *final(w)),
        waited(*old(w), *final(w), old(self).term.in_fd, timeout0),
        r == Ok::<bool, io::Error>(false) ==> elapsed(*old(w), *final(w)),
        elapsed(*old(w), *final(w)) ==> r == Ok::<bool, io::Error>(false),
//@ sigrewrite timeout : ==> timeout0:
//@ loop 0
    invariant_except_break
        !elapsed(*old(w), *w),
    invariant
        *self == *old(self), *w == (World { waits: w.waits, ..*old(w) }), sound(*self.term),
        waited(*old(w), *w, self.term.in_fd, timeout0),
        if w.waits.len() == old(w).waits.len() { first(timeout0, us(timeout)) } else { us(timeout) == w.waits.last().rest },
    ensures
        *self == *old(self), *w == (World { waits: w.waits, ..*old(w) }),
        waited(*old(w), *w, self.term.in_fd, timeout0), woke(*old(w), *w, lv0__),
//@ loopbody 0
            proof { lemma_chain(old(w).waits, self.term.in_fd, timeout0); reveal(same_taken); }
//@ start
    let timeout = timeout0;
    proof { lemma_chain(w.waits, self.term.in_fd, timeout); lemma_first(timeout); reveal(same_taken); }
//@ end

/// bytes that were read
pub open spec fn reads(w0: World, w1: World, fd: RawFd, b: Seq<u8>) -> bool { w1.got == w0.got.insert(fd, w0.got[fd] + b) }
pub open spec fn raw(r: io::Result<Option<Event>>) -> Option<usize> { match r { Ok(Some(Event::Raw(n))) => Some(n), _ => None } }
pub open spec fn signalled(r: io::Result<Option<Event>>) -> Option<Signal> { match r { Ok(Some(Event::Signal(s))) => Some(s), _ => None } }
/// what it ends in; t: what was allowed to pass
pub open spec fn inputs(w0: World, w1: World, fd: RawFd, t: Option<Duration>, r: io::Result<Option<Event>>) -> bool {
    &&& input_only(w0, w1) && waited(w0, w1, fd, t) && took(w0, w1, signalled(r))
    &&& elapsed(w0, w1) ==> (r matches Ok(None))
    &&& (r matches Ok(None)) ==> elapsed(w0, w1)
    &&& r is Ok ==> (r->Ok_0 matches Some(e) ==> e is Raw || e is Signal)
}
//@ fn src/unix/terminal.rs TerminalReadGuard::read_input params="buf timeout" attr="verifier::exec_allows_no_decreases_clause"
    requires sound(*old(self).term),
    ensures
        *final(self) == *old(self), inputs(*old(w), *final(w), old(self).term.in_fd, timeout, r), final(buf)@.len() == old(buf)@.len(),
        match raw(r) {
            Some(n) => n <= old(buf)@.len() && final(buf)@.skip(n as int) == old(buf)@.skip(n as int) && reads(*old(w), *final(w), old(self).term.in_fd, final(buf)@.take(n as int)),
            None => final(buf)@ == old(buf)@ && final(w).got == old(w).got,
        },
//@ start
    proof { lemma_took(*w); lemma_chain(w.waits, self.term.in_fd, timeout); }
//@ loop 0
    invariant_except_break
        took(*old(w), *w, None), buf@ == old(buf)@, w.got == old(w).got, !elapsed(*old(w), *w),
    invariant
        *self == *old(self), input_only(*old(w), *w), waited(*old(w), *w, self.term.in_fd, timeout), sound(*self.term), buf@.len() == old(buf)@.len(),
    ensures
        *self == *old(self), inputs(*old(w), *w, self.term.in_fd, timeout, lv0__), buf@.len() == old(buf)@.len(),
        raw(lv0__) matches Some(n) && n <= old(buf)@.len() && buf@.skip(n as int) == old(buf)@.skip(n as int) && reads(*old(w), *w, self.term.in_fd, buf@.take(n as int)),
//@ loopbody 0
            proof { lemma_took(*old(w)); }
//@ end

pub proof fn lemma_bytes()
    ensures
        forall|a: Seq<u8>, n: int| 0 <= n <= a.len() ==> #[trigger] a.take(n) + a.skip(n) == a,
        forall|a: Seq<u8>, b: Seq<u8>| #[trigger] (a + b).take(a.len() as int) == a,
        forall|a: Seq<u8>, b: Seq<u8>, n: int| 0 <= n <= b.len() ==> #[trigger] (a + b).take(a.len() + n) == a + b.take(n),
        forall|a: Seq<u8>| #[trigger] a.take(a.len() as int) == a,
{
    assert forall|a: Seq<u8>, n: int| 0 <= n <= a.len() implies #[trigger] a.take(n) + a.skip(n) == a by { assert(a.take(n) + a.skip(n) =~= a); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] (a + b).take(a.len() as int) == a by { assert((a + b).take(a.len() as int) =~= a); }
    assert forall|a: Seq<u8>, b: Seq<u8>, n: int| 0 <= n <= b.len() implies #[trigger] (a + b).take(a.len() + n) == a + b.take(n) by { assert((a + b).take(a.len() + n) =~= a + b.take(n)); }
    assert forall|a: Seq<u8>| #[trigger] a.take(a.len() as int) == a by { assert(a.take(a.len() as int) =~= a); }
}
/// the reader is as it was, but for the bytes that it has not delivered
pub open spec fn keeps(a: Reader, b: Reader) -> bool { a.resume == b.resume && a.report_signals == b.report_signals && a.keypad == b.keypad && a.mouse == b.mouse }
/// what was read, if anything, is at the end of the buffer
pub open spec fn more(a: Map<RawFd, Seq<u8>>, b: Map<RawFd, Seq<u8>>, fd: RawFd, x: Seq<u8>, y: Seq<u8>) -> bool {
    a == b && x == y || exists|n: Seq<u8>| b == #[trigger] a.insert(fd, a[fd] + n) && y == x + n
}
//@ fn src/unix/terminal.rs TerminalReadGuard::read_into_buffer params="timeout"
    requires sound(*old(self).term),
    ensures
        final(self).term == old(self).term, keeps(old(self).reader, final(self).reader), inputs(*old(w), *final(w), old(self).term.in_fd, timeout, r),
        more(old(w).got, final(w).got, old(self).term.in_fd, old(self).reader.in_buffer@, final(self).reader.in_buffer@),
        raw(r) is None ==> final(self).reader.in_buffer@ == old(self).reader.in_buffer@,
//@ start
    proof { lemma_bytes(); }
//@ end

/// what b begins with is delivered and taken away; of what is no text, the part that cannot become any
pub open spec fn parsed(m: SeqMap, b: Seq<u8>, r: io::Result<Option<Event>>, c: Seq<u8>) -> bool {
    match r {
        Ok(Some(e)) => input(e) && exists|n: int| #[trigger] event_at(m, b, e, n) && c == b.skip(n),
        Ok(None) => waits(b) && c == b,
        Err(_) => broken(b) && 1 <= bad_len(b) <= b.len() && c == b.skip(bad_len(b)),
    }
}
pub open spec fn input(e: Event) -> bool { e is Key || e is Mouse }
//@ rewrite invalid_prefix_len ( in_buffer ) ==> invalid_prefix_len(bytes__(in_buffer))
pub proof fn lemma_nothing()
    ensures forall|b: Seq<u8>| b.len() == 0 ==> #[trigger] waits(b)
{
    assert forall|b: Seq<u8>| b.len() == 0 implies #[trigger] waits(b) by { lemma_up(b); assert(b =~= Seq::<u8>::empty()); }
}
//@ fn src/unix/terminal.rs TerminalReadGuard::try_read params=""
    requires sound(*old(self).term),
    ensures
        final(self).term == old(self).term, keeps(old(self).reader, final(self).reader),
        parsed(old(self).term.sequences, old(self).reader.in_buffer@, r, final(self).reader.in_buffer@),
//@ start
    proof { lemma_nothing(); }
//@ end

// ---------------------------------------------------------------------------
// with the writer locked on the way
// ---------------------------------------------------------------------------
//@ world enable_mouse disable_mouse enable_keypad disable_keypad flush tcgetattr tcsetattr sigaction prepare prepare_with_lock restore restore_with_lock size
//@ world resume read_event
/// only this terminal's settings, handlers and output
#[verifier::opaque]
pub open spec fn acted(a: World, b: World, t: Terminal) -> bool { b == (World { sent: b.sent, tio: b.tio, acts: b.acts, writer: b.writer, ..a }) && only_fd(a, b, t.out_fd) }
pub proof fn lemma_acted(a: World, t: Terminal)
    ensures acted(a, a, t), forall|a: World, b: World, t: Terminal| #[trigger] acted(a, b, t) ==> same_taken(a, b) && b.waits == a.waits && b.got == a.got && b.writing == a.writing && b.reading == a.reading && b.win == a.win,
{ reveal(acted); reveal(same_taken); }
//@ fn src/unix/terminal.rs TerminalReadGuard::prepare params="config"
    requires !old(w).writing,
    ensures
        acted(*old(w), *final(w), *old(self).term),
        final(self).term == old(self).term, final(self).reader.in_buffer == old(self).reader.in_buffer,
        r matches Ok(s) ==> made(*old(w), *old(self), *final(w), *final(self), config, s),
        r is Ok && believed(*old(w), wguard(old(self).term, *old(w)), old(self).reader) ==> believed(*final(w), wguard(old(self).term, *final(w)), final(self).reader)
            && dv(*final(w), wguard(old(self).term, *final(w))) == moded(old(self).term.info, dv(*old(w), wguard(old(self).term, *old(w))), final(self).reader.keypad, final(self).reader.mouse),
        same_attrs(wguard(old(self).term, *old(w)), wguard(old(self).term, *final(w))), // [C01 C07]
//@ start
    proof { reveal(acted); reveal(made); reveal(believed); reveal(kept); reveal(grows); reveal(same_attrs); reveal(shows); }
//@ end
//@ fn src/unix/terminal.rs TerminalReadGuard::restore params="state"
    requires !old(w).writing,
    ensures
        acted(*old(w), *final(w), *old(self).term),
        final(self).term == old(self).term, final(self).reader.in_buffer == old(self).reader.in_buffer,
        r is Ok ==> unmade(*old(w), *final(w), *final(self), state),
        r is Ok && believed(*old(w), wguard(old(self).term, *old(w)), old(self).reader) && fits(old(self).term.info, state, old(self).reader) ==> believed(*final(w), wguard(old(self).term, *final(w)), final(self).reader)
            && dv(*final(w), wguard(old(self).term, *final(w))) == moded(old(self).term.info, dv(*old(w), wguard(old(self).term, *old(w))), final(self).reader.keypad, final(self).reader.mouse),
//@ start
    proof { reveal(acted); reveal(unmade); reveal(believed); reveal(kept); reveal(grows); reveal(same_attrs); reveal(shows); }
//@ end
//@ fn src/unix/terminal.rs Terminal::size params=""
    requires !old(w).writing,
    ensures acted(*old(w), *final(w), *self), r matches Ok(s) ==> s == old(w).win[self.out_fd],
        tot(*final(w), wguard(self, *final(w))) == tot(*old(w), wguard(self, *old(w))), same_attrs(wguard(self, *old(w)), wguard(self, *final(w))), // [C01 C07]
        final(w).tio == old(w).tio, final(w).acts == old(w).acts, // [C18]
//@ start
    proof { reveal(acted); reveal(grows); }
//@ end
//@ fn src/unix/terminal.rs TerminalReadGuard::resume params=""
    requires !old(w).writing,
    ensures
        acted(*old(w), *final(w), *old(self).term),
        final(self).term == old(self).term, final(self).reader.in_buffer == old(self).reader.in_buffer,
        match old(self).reader.resume {
            Some(x) => r is Ok ==> exists|s: PrepareState| #[trigger] made(*old(w), *old(self), *final(w), *final(self), x.config, s),
            None => r is Ok && *final(w) == *old(w) && *final(self) == *old(self),
        },
        r is Ok && believed(*old(w), wguard(old(self).term, *old(w)), old(self).reader) ==> believed(*final(w), wguard(old(self).term, *final(w)), final(self).reader),
//@ start
    proof { lemma_acted(*w, *self.term); }
//@ end
/// what becomes of a caught signal
#[verifier::opaque]
pub open spec fn outcome(w0: World, g0: TerminalReadGuard, w1: World, g1: TerminalReadGuard, s: Signal, r: io::Result<Option<Event>>) -> bool {
    match s {
        Signal::Resize => r is Ok ==> r == Ok::<Option<Event>, io::Error>(Some(Event::Resize(w0.win[g0.term.out_fd]))),
        Signal::Continue => {
            &&& r is Ok ==> r == reported(g1.reader.report_signals, s)
            &&& r is Ok && coherent(g0.reader) ==> r == reported(g0.reader.report_signals, s)
            // the configuration in force is applied again
            &&& r is Ok ==> (g0.reader.resume matches Some(x) ==> exists|p: PrepareState| #[trigger] made(w0, g0, w1, g1, x.config, p))
        }
        _ => r == reported(g0.reader.report_signals, s),
    }
}
pub open spec fn reported(c: SignalSet, s: Signal) -> io::Result<Option<Event>> { if c.has(s) { Ok(Some(Event::Signal(s))) } else { Ok(None) } }
/// made as configured, so what is reported is what the configuration has
pub proof fn lemma_made(w0: World, a: TerminalReadGuard, w1: World, b: TerminalReadGuard, c: PrepareConfig, s: PrepareState)
    requires made(w0, a, w1, b, c, s)
    ensures b.reader.report_signals == c.report_signals, b.reader.resume == Some(Resume { config: c }), coherent(b.reader)
{ reveal(made); }
//@ fn src/unix/terminal.rs TerminalReadGuard::handle_signal params="sig"
    requires !old(w).writing,
    ensures
        acted(*old(w), *final(w), *old(self).term),
        final(self).term == old(self).term, final(self).reader.in_buffer == old(self).reader.in_buffer,
        outcome(*old(w), *old(self), *final(w), *final(self), sig, r),
        coherent(old(self).reader) && r is Ok ==> coherent(final(self).reader),
        r matches Ok(Some(e)) ==> e is Signal || e is Resize,
//@ start
    proof { reveal(outcome); lemma_acted(*w, *self.term);
        assert forall|a: TerminalReadGuard, v: World, b: TerminalReadGuard, c: PrepareConfig, s: PrepareState| #[trigger] made(*w, a, v, b, c, s) implies
            b.reader.report_signals == c.report_signals && b.reader.resume == Some(Resume { config: c }) && coherent(b.reader) by { lemma_made(*w, a, v, b, c, s); } }
//@ end

/// what a call delivers of the bytes b, and what it leaves
pub open spec fn delivers(m: SeqMap, b: Seq<u8>, r: io::Result<Option<Event>>, c: Seq<u8>) -> bool {
    match r {
        Ok(Some(e)) => if input(e) { parsed(m, b, r, c) } else { !(e is Raw) && c == b },
        Ok(None) => c == b,
        Err(_) => c == b || parsed(m, b, r, c),
    }
}
/// every byte that was read or left is delivered, or left, once and in order
#[verifier::opaque]
pub open spec fn once(a: Map<RawFd, Seq<u8>>, b: Map<RawFd, Seq<u8>>, t: Terminal, x: Seq<u8>, r: io::Result<Option<Event>>, y: Seq<u8>) -> bool {
    exists|z: Seq<u8>| #[trigger] more(a, b, t.in_fd, x, z) && delivers(t.sequences, z, r, y)
}
/// as bytes, d of them
#[verifier::opaque]
pub open spec fn handed(a: Map<RawFd, Seq<u8>>, b: Map<RawFd, Seq<u8>>, t: Terminal, x: Seq<u8>, d: Seq<u8>, y: Seq<u8>) -> bool {
    more(a, b, t.in_fd, x, d + y)
}
/// nothing but reading and what is done about signals
pub open spec fn worked(a: World, b: World) -> bool { b == (World { sent: b.sent, got: b.got, tio: b.tio, acts: b.acts, waits: b.waits, taken: b.taken, left: b.left, writer: b.writer, ..a }) }
/// the signal that was taken, if any, and what became of it
pub open spec fn answers(w0: World, g0: TerminalReadGuard, w1: World, g1: TerminalReadGuard, r: io::Result<Option<Event>>) -> bool {
    exists|s: Option<Signal>| #[trigger] took(w0, w1, s) && match s { Some(s) => outcome(w0, g0, w1, g1, s, r), None => !(r matches Ok(Some(e)) && (e is Signal || e is Resize)) }
}
pub proof fn lemma_answers(w0: World, g0: TerminalReadGuard)
    ensures
        forall|v: World, w1: World, t: Terminal, s: Option<Signal>| #[trigger] took(w0, v, s) && #[trigger] acted(v, w1, t) ==> took(w0, w1, s),
        forall|v: World, w1: World, t: Terminal, d: Option<Duration>| #[trigger] acted(v, w1, t) && #[trigger] waited(w0, v, t.in_fd, d) ==> waited(w0, w1, t.in_fd, d),
        forall|v: World, g: TerminalReadGuard, w1: World, g1: TerminalReadGuard, s: Signal, r: io::Result<Option<Event>>| input_only(w0, v) && keeps(g0.reader, g.reader) && g.term == g0.term
            && #[trigger] outcome(v, g, w1, g1, s, r) ==> outcome(w0, g0, w1, g1, s, r),
        forall|v: World, w1: World, t: Terminal| input_only(w0, v) && #[trigger] acted(v, w1, t) ==> worked(w0, w1),
        forall|a: TerminalReadGuard, b: TerminalReadGuard| keeps(a.reader, b.reader) && #[trigger] coherent(a.reader) ==> #[trigger] coherent(b.reader),
{
    reveal(acted); reveal(took); reveal(chain);
    assert forall|v: World, g: TerminalReadGuard, w1: World, g1: TerminalReadGuard, s: Signal, r: io::Result<Option<Event>>| input_only(w0, v) && keeps(g0.reader, g.reader) && g.term == g0.term
            && #[trigger] outcome(v, g, w1, g1, s, r) implies outcome(w0, g0, w1, g1, s, r) by {
        reveal(outcome);
        assert(coherent(g0.reader) ==> coherent(g.reader));
        if s is Continue && r is Ok { if let Some(x) = g0.reader.resume {
            let p = choose|p: PrepareState| #[trigger] made(v, g, w1, g1, x.config, p);
            assert(made(w0, g0, w1, g1, x.config, p)) by { reveal(made); }
        } }
    }
}
//@ fn src/unix/terminal.rs TerminalReadGuard::read_event params="timeout"
    requires sound(*old(self).term), !old(w).writing,
    ensures
        final(self).term == old(self).term,
        once(old(w).got, final(w).got, *old(self).term, old(self).reader.in_buffer@, r, final(self).reader.in_buffer@), // [C19 C09 C10]
        waited(*old(w), *final(w), old(self).term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), *old(self), *final(w), *final(self), r), // [C21]
        coherent(old(self).reader) && r is Ok ==> coherent(final(self).reader), // [C21]
        worked(*old(w), *final(w)),
//@ start
    proof { lemma_took(*w); lemma_chain(w.waits, self.term.in_fd, timeout); lemma_answers(*w, *self); lemma_acted(*w, *self.term); reveal(once); reveal(handed);
        assert(more(w.got, w.got, self.term.in_fd, self.reader.in_buffer@, self.reader.in_buffer@)); }
//@ end
//@ fn src/unix/terminal.rs TerminalReadGuard::read_raw params="buf timeout"
    requires sound(*old(self).term), !old(w).writing,
    ensures
        final(self).term == old(self).term, final(buf)@.len() == old(buf)@.len(),
        match raw(r) { // [C19]
            Some(n) => n <= old(buf)@.len() && final(buf)@.skip(n as int) == old(buf)@.skip(n as int)
                && handed(old(w).got, final(w).got, *old(self).term, old(self).reader.in_buffer@, final(buf)@.take(n as int), final(self).reader.in_buffer@),
            None => final(buf)@ == old(buf)@ && final(self).reader.in_buffer@ == old(self).reader.in_buffer@ && final(w).got == old(w).got,
        },
        r is Ok && old(buf)@.len() > 0 && old(self).reader.in_buffer@.len() > 0 ==> (raw(r) matches Some(n) && n > 0), // [C19]
        !(r matches Ok(Some(e)) && input(e)),
        waited(*old(w), *final(w), old(self).term.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), *old(self), *final(w), *final(self), r), // [C21]
        coherent(old(self).reader) && r is Ok ==> coherent(final(self).reader), // [C21]
        worked(*old(w), *final(w)),
//@ start
    proof { lemma_took(*w); lemma_chain(w.waits, self.term.in_fd, timeout); lemma_answers(*w, *self); lemma_acted(*w, *self.term); lemma_bytes(); reveal(handed);
        assert(more(w.got, w.got, self.term.in_fd, self.reader.in_buffer@, self.reader.in_buffer@)); }
//@ end

// ---------------------------------------------------------------------------
// the methods that take the lock
// ---------------------------------------------------------------------------
pub proof fn lemma_held()
    ensures
        forall|w0: World, v: World, v1: World, w1: World, g: TerminalReadGuard, g1: TerminalReadGuard, r: io::Result<Option<Event>>|
            #[trigger] held(w0, v) && #[trigger] held(v1, w1) && #[trigger] answers(v, g, v1, g1, r) ==> answers(w0, g, w1, g1, r),
{
    assert forall|w0: World, v: World, v1: World, w1: World, g: TerminalReadGuard, g1: TerminalReadGuard, r: io::Result<Option<Event>>|
            #[trigger] held(w0, v) && #[trigger] held(v1, w1) && #[trigger] answers(v, g, v1, g1, r) implies answers(w0, g, w1, g1, r) by {
        reveal(held); reveal(took); reveal(outcome);
        let s = choose|s: Option<Signal>| #[trigger] took(v, v1, s) && match s { Some(s) => outcome(v, g, v1, g1, s, r), None => !(r matches Ok(Some(e)) && (e is Signal || e is Resize)) };
        assert(took(w0, w1, s));
        if let Some(s) = s {
            if s is Continue && r is Ok { if let Some(x) = g.reader.resume {
                let p = choose|p: PrepareState| #[trigger] made(v, g, v1, g1, x.config, p);
                assert(made(w0, g, w1, g1, x.config, p)) by { reveal(made); }
            } }
            assert(outcome(w0, g, w1, g1, s, r));
        }
    }
}
//@ fn src/unix/terminal.rs Terminal::wait_event params="timeout"
    requires sound(*self), !old(w).reading,
    ensures
        *final(w) == (World { waits: final(w).waits, ..*old(w) }),
        waited(*old(w), *final(w), self.in_fd, timeout), r == Ok::<bool, io::Error>(false) <==> elapsed(*old(w), *final(w)), // [C20]
//@ end
//@ fn src/unix/terminal.rs Terminal::read_event params="timeout"
    requires sound(*self), !old(w).reading, !old(w).writing,
    ensures
        once(old(w).got, final(w).got, *self, old(w).reader.in_buffer@, r, final(w).reader.in_buffer@), // [C19 C09 C10]
        waited(*old(w), *final(w), self.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), rguard(self, *old(w)), *final(w), rguard(self, *final(w)), r), // [C21]
        coherent(old(w).reader) && r is Ok ==> coherent(final(w).reader), !final(w).reading, !final(w).writing, // [C21]
//@ start
    proof { lemma_held(); }
//@ end
//@ fn src/unix/terminal.rs Terminal::read_raw params="buf timeout"
    requires sound(*self), !old(w).reading, !old(w).writing,
    ensures
        final(buf)@.len() == old(buf)@.len(),
        match raw(r) { // [C19]
            Some(n) => n <= old(buf)@.len() && final(buf)@.skip(n as int) == old(buf)@.skip(n as int)
                && handed(old(w).got, final(w).got, *self, old(w).reader.in_buffer@, final(buf)@.take(n as int), final(w).reader.in_buffer@),
            None => final(buf)@ == old(buf)@ && final(w).reader.in_buffer@ == old(w).reader.in_buffer@ && final(w).got == old(w).got,
        },
        waited(*old(w), *final(w), self.in_fd, timeout), elapsed(*old(w), *final(w)) ==> (r matches Ok(None)), // [C20]
        answers(*old(w), rguard(self, *old(w)), *final(w), rguard(self, *final(w)), r), // [C21]
        coherent(old(w).reader) && r is Ok ==> coherent(final(w).reader), !final(w).reading, !final(w).writing, // [C21]
//@ start
    proof { lemma_held(); }
//@ end
//@ fn src/unix/terminal.rs Terminal::prepare params="config"
    requires !old(w).reading, !old(w).writing,
    ensures
        r matches Ok(s) ==> made(*old(w), rguard(self, *old(w)), *final(w), rguard(self, *final(w)), config, s),
        r is Ok && believed(*old(w), wguard(self, *old(w)), old(w).reader) ==> believed(*final(w), wguard(self, *final(w)), final(w).reader)
            && dv(*final(w), wguard(self, *final(w))) == moded(self.info, dv(*old(w), wguard(self, *old(w))), final(w).reader.keypad, final(w).reader.mouse),
        same_attrs(wguard(self, *old(w)), wguard(self, *final(w))), final(w).win == old(w).win, final(w).env == old(w).env, // [C01 C07]
        !final(w).reading, !final(w).writing,
//@ start
    proof { reveal(made); reveal(believed); reveal(acted); reveal(shows); }
//@ end
//@ fn src/unix/terminal.rs Terminal::restore params="state"
    requires !old(w).reading, !old(w).writing,
    ensures
        r is Ok ==> unmade(*old(w), *final(w), rguard(self, *final(w)), state),
        r is Ok && believed(*old(w), wguard(self, *old(w)), old(w).reader) && fits(self.info, state, old(w).reader) ==> believed(*final(w), wguard(self, *final(w)), final(w).reader)
            && dv(*final(w), wguard(self, *final(w))) == moded(self.info, dv(*old(w), wguard(self, *old(w))), final(w).reader.keypad, final(w).reader.mouse),
        !final(w).reading, !final(w).writing,
//@ start
    proof { reveal(unmade); reveal(believed); reveal(acted); reveal(shows); }
//@ end
} // verus!
fn main() {}
