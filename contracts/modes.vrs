//@ include common.vrs
//@ include cell.vrs
//@ include io.vrs
//@ use signal.vrs
//@ include termbase.vrs
//@ use writer.vrs opaque=mouse_on,mouse_off,keypad_is,grows,same_attrs,shows,silent
//@ include modebase.vrs
verus! {
//@ type src/unix/terminal.rs PrepareState

/// what a configuration asks of the input settings
pub open spec fn adjusted(a: Termios, c: PrepareConfig, b: Termios) -> bool {
    &&& forall|f: Inf| #[trigger] b.input_flags@.contains(f) == (if f is INLCR || f is ICRNL { false } else if f is IXON { c.enable_control_flow } else { a.input_flags@.contains(f) })
    &&& forall|f: Lof| #[trigger] b.local_flags@.contains(f) == (if f is ICANON || f is ECHO { false } else if f is ISIG { !c.block_signals } else { a.local_flags@.contains(f) })
    &&& b.output_flags == a.output_flags && b.control_flags == a.control_flags
    &&& forall|k: int| 0 <= k < 32 ==> #[trigger] b.control_chars[k] == (if k == VMIN || k == VTIME { 0u8 } else { a.control_chars[k] })
}
/// the signals it wants to know of
pub open spec fn watched(c: PrepareConfig, s: NixSignal) -> bool {
    s is SIGCONT || s is SIGWINCH || s is SIGINT && c.report_signals.has(Signal::Interrupt) || s is SIGTSTP && c.report_signals.has(Signal::Suspend) || s is SIGQUIT && c.report_signals.has(Signal::Quit)
}
pub open spec fn same_set(a: SignalSet, b: SignalSet) -> bool { forall|s: Signal| #[trigger] a.has(s) == b.has(s) }
/// what is in force
pub open spec fn in_force(r: Option<Resume>, s: Signal) -> bool { r matches Some(x) && x.config.report_signals.has(s) }
pub open spec fn coherent(r: Reader) -> bool { forall|s: Signal| #[trigger] r.report_signals.has(s) == in_force(r.resume, s) }
/// the device with the modes that the reader believes in
#[verifier::opaque]
pub open spec fn moded(i: Database, d: Dev, keypad: bool, mouse: Option<MouseTracking>) -> Dev {
    let motion = mouse matches Some(m) && m.motion;
    Dev { keypad, sgr: mouse is Some, motion, drag: mouse is Some && !(exclusive(i) && motion), ..d }
}
#[verifier::opaque]
pub open spec fn like(i: Database, a: Dev, b: Dev, keypad: bool, mouse: Option<MouseTracking>) -> bool { b.ground && b == moded(i, a, keypad, mouse) }
pub proof fn lemma_like(i: Database, a: Dev)
    ensures
        forall|d: Dev, k: bool, m: Option<MouseTracking>, t: bool| #[trigger] like(i, a, d, k, m) && !(m matches Some(x) && x.motion && !t) ==> like(i, a, #[trigger] mouse_on(i, d, t), k, Some(MouseTracking { motion: t })),
        forall|d: Dev, k: bool, m: Option<MouseTracking>| #[trigger] like(i, a, d, k, m) ==> like(i, a, mouse_off(d), k, None),
        forall|d: Dev, k: bool, m: Option<MouseTracking>, x: bool| #[trigger] like(i, a, d, k, m) ==> like(i, a, #[trigger] keypad_is(d, x), x, m),
        forall|d: Dev, k: bool, m: Option<MouseTracking>| #[trigger] like(i, a, d, k, m) ==> d.ground && like(i, d, d, k, m) && d == moded(i, a, k, m),
{ reveal(like); reveal(moded); reveal(mouse_on); reveal(mouse_off); reveal(keypad_is);}
pub open spec fn believed(w: World, t: TerminalWriteGuard, r: Reader) -> bool {
    &&& sane(info(t)) && like(info(t), dv(w, t), dv(w, t), r.keypad, r.mouse)
    &&& r.mouse is Some ==> xterm_name(info(t).s_name())
}
/// the state fits what is believed now
pub open spec fn fits(i: Database, s: PrepareState, r: Reader) -> bool {
    &&& if s.restore_mouse { r.mouse is Some && xterm_name(i.s_name()) } else { r.mouse == s.prev_mouse }
    &&& s.prev_mouse is Some ==> xterm_name(i.s_name())
    &&& if s.restore_keypad { r.keypad && i.knows(Cap::KeypadXmit) } else { r.keypad == s.prev_keypad }
    // a terminal that can turn it on can turn it off
    &&& i.knows(Cap::KeypadXmit) ==> i.knows(Cap::KeypadLocal)
}
#[verifier::opaque]
pub open spec fn saved(s: Option<SigAction>, on: bool, a: Map<NixSignal, SigAction>, n: NixSignal) -> bool { s == (if on { Some(a[n]) } else { None }) }
/// one handler for them all
#[verifier::opaque]
pub open spec fn installed(a: Map<NixSignal, SigAction>, b: Map<NixSignal, SigAction>, c: PrepareConfig) -> bool {
    b[NixSignal::SIGCONT].handler() is Ours && forall|n: NixSignal| #[trigger] b[n] == (if watched(c, n) { b[NixSignal::SIGCONT] } else { a[n] })
}
/// the terminal is as the configuration has it, and the state knows what it was
pub open spec fn made(w0: World, a: TerminalReadGuard, w1: World, b: TerminalReadGuard, c: PrepareConfig, s: PrepareState) -> bool {
    let (r0, r1, fd, i) = (a.reader, b.reader, a.term.in_fd, a.term.info);
    &&& adjusted(w0.tio[fd], c, w1.tio[fd]) && forall|f: RawFd| f != fd ==> #[trigger] w1.tio[f] == w0.tio[f]
    &&& installed(w0.acts, w1.acts, c)
    &&& r1.report_signals == c.report_signals && r1.resume == Some(Resume { config: c })
    &&& r1.mouse == (if c.enable_mouse && xterm_name(i.s_name()) { Some(MouseTracking { motion: c.always_track_motion }) } else { r0.mouse })
    &&& r1.keypad == (r0.keypad || c.enable_keypad && i.knows(Cap::KeypadXmit))
    &&& s.old_tio == w0.tio[fd] && s.prev_resume == r0.resume && s.prev_keypad == r0.keypad && s.prev_mouse == r0.mouse
    &&& saved(s.old_sigcont, true, w0.acts, NixSignal::SIGCONT) && saved(s.old_sigwinch, true, w0.acts, NixSignal::SIGWINCH)
    &&& saved(s.old_sigint, watched(c, NixSignal::SIGINT), w0.acts, NixSignal::SIGINT) && saved(s.old_sigtstp, watched(c, NixSignal::SIGTSTP), w0.acts, NixSignal::SIGTSTP)
        && saved(s.old_sigquit, watched(c, NixSignal::SIGQUIT), w0.acts, NixSignal::SIGQUIT)
    &&& s.restore_mouse == (c.enable_mouse && xterm_name(i.s_name())) && s.restore_keypad == (c.enable_keypad && i.knows(Cap::KeypadXmit))
}
#[verifier::opaque]
pub open spec fn or(a: Option<SigAction>, b: SigAction) -> SigAction { match a { Some(x) => x, None => b } }
pub proof fn lemma_get()
    ensures forall|m: Map<NixSignal, SigAction>, n: NixSignal, o: Option<SigAction>, k: NixSignal| #[trigger] put(m, n, o)[k] == (if k == n { or(o, m[n]) } else { m[k] }),
{ reveal(put); reveal(or); }
pub proof fn lemma_put()
    ensures
        forall|m: Map<NixSignal, SigAction>, n: NixSignal| #[trigger] put(m, n, None) == m,
{ reveal(put); reveal(or);}
#[verifier::opaque]
pub open spec fn given_back(a: Map<NixSignal, SigAction>, b: Map<NixSignal, SigAction>, s: PrepareState) -> bool {
    forall|n: NixSignal| #[trigger] b[n] == match n { NixSignal::SIGCONT => or(s.old_sigcont, a[n]), NixSignal::SIGWINCH => or(s.old_sigwinch, a[n]),
        NixSignal::SIGINT => or(s.old_sigint, a[n]), NixSignal::SIGTSTP => or(s.old_sigtstp, a[n]), NixSignal::SIGQUIT => or(s.old_sigquit, a[n]), _ => a[n] }
}
/// what the state says is in force again
pub open spec fn unmade(w0: World, w1: World, b: TerminalReadGuard, s: PrepareState) -> bool {
    let (r1, fd) = (b.reader, b.term.in_fd);
    &&& w1.tio[fd] == s.old_tio && forall|f: RawFd| f != fd ==> #[trigger] w1.tio[f] == w0.tio[f]
    &&& given_back(w0.acts, w1.acts, s)
    &&& r1.resume == s.prev_resume && coherent(r1) && r1.mouse == s.prev_mouse && r1.keypad == s.prev_keypad
}
pub open spec fn settings_only(w0: World, w1: World) -> bool { w1 == (World { sent: w1.sent, tio: w1.tio, acts: w1.acts, ..w0 }) }

/// nothing but the settings, the handlers and what was sent to the terminal
#[verifier::opaque]
pub open spec fn kept(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard) -> bool {
    settings_only(w0, w1) && only_fd(w0, w1, g0.term.out_fd) && same_attrs(g0, g1)
}
pub proof fn lemma_kept(w0: World, g0: TerminalWriteGuard)
    ensures
        kept(w0, g0, w0, g0),
        forall|a: World, g: TerminalWriteGuard, b: World, h: TerminalWriteGuard| #[trigger] grows(a, g, b, h) ==> h.term == g.term && b.tio == a.tio && b.acts == a.acts,
        forall|a: World, g: TerminalWriteGuard, b: World, h: TerminalWriteGuard| #[trigger] kept(w0, g0, a, g) && #[trigger] grows(a, g, b, h) && #[trigger] same_attrs(g, h) ==> kept(w0, g0, b, h),
        forall|a: World, g: TerminalWriteGuard, b: World, h: TerminalWriteGuard| #[trigger] grows(a, g, b, h) && #[trigger] silent(a, g, b, h) ==> dv(b, h) == dv(a, g),
        forall|a: World, b: World| #[trigger] only_tio(a, b) ==> b.acts == a.acts && b.sent == a.sent && b.env == a.env,
        forall|a: World, b: World| #[trigger] only_acts(a, b) ==> b.tio == a.tio && b.sent == a.sent && b.env == a.env,
        forall|a: World, g: TerminalWriteGuard, b: World| #[trigger] kept(w0, g0, a, g) && #[trigger] only_tio(a, b) ==> kept(w0, g0, b, g),
        forall|a: World, g: TerminalWriteGuard, b: World| #[trigger] kept(w0, g0, a, g) && #[trigger] only_acts(a, b) ==> kept(w0, g0, b, g),
{ reveal(kept); reveal(grows); reveal(same_attrs); reveal(shows); reveal(silent); reveal(only_tio); reveal(only_acts);}
//@ fn src/unix/terminal.rs TerminalReadGuard::prepare_with_lock params="writer config" attr="verifier::rlimit(80)"
    requires old(writer).term == old(self).term,
    ensures
        kept(*old(w), *old(writer), *final(w), *final(writer)),
        final(self).term == old(self).term, final(self).reader.in_buffer == old(self).reader.in_buffer,
        r matches Ok(s) ==> made(*old(w), *old(self), *final(w), *final(self), config, s),
        r is Ok ==> final(writer).writer.out_buffer@.len() == 0,
        r is Ok && believed(*old(w), *old(writer), old(self).reader) ==> believed(*final(w), *final(writer), final(self).reader)
            && dv(*final(w), *final(writer)) == moded(info(*old(writer)), dv(*old(w), *old(writer)), final(self).reader.keypad, final(self).reader.mouse),
//@ start
    proof { lemma_like(info(*writer), dv(*w, *writer)); lemma_kept(*w, *writer); }
    broadcast use {ax_inf, ax_lof};
//@ hint before self . reader . report_signals = config . report_signals ;
        proof {
            assert(installed(old(w).acts, w.acts, config)
                && saved(state.old_sigcont, true, old(w).acts, NixSignal::SIGCONT) && saved(state.old_sigwinch, true, old(w).acts, NixSignal::SIGWINCH)
                && saved(state.old_sigint, watched(config, NixSignal::SIGINT), old(w).acts, NixSignal::SIGINT) && saved(state.old_sigtstp, watched(config, NixSignal::SIGTSTP), old(w).acts, NixSignal::SIGTSTP)
                && saved(state.old_sigquit, watched(config, NixSignal::SIGQUIT), old(w).acts, NixSignal::SIGQUIT)) by { reveal(installed); reveal(saved); reveal(or); lemma_get(); }
        }
//@ end

//@ fn src/unix/terminal.rs TerminalReadGuard::restore_with_lock params="writer state" attr="verifier::rlimit(80)"
    requires old(writer).term == old(self).term,
    ensures
        kept(*old(w), *old(writer), *final(w), *final(writer)),
        final(self).term == old(self).term, final(self).reader.in_buffer == old(self).reader.in_buffer,
        r is Ok ==> unmade(*old(w), *final(w), *final(self), state),
        r is Ok ==> final(writer).writer.out_buffer@.len() == 0,
        r is Ok && believed(*old(w), *old(writer), old(self).reader) && fits(info(*old(writer)), state, old(self).reader) ==> believed(*final(w), *final(writer), final(self).reader)
            && dv(*final(w), *final(writer)) == moded(info(*old(writer)), dv(*old(w), *old(writer)), final(self).reader.keypad, final(self).reader.mouse),
//@ start
    proof { lemma_like(info(*writer), dv(*w, *writer)); lemma_kept(*w, *writer); lemma_put(); }
//@ hint after if state . restore_mouse $b!
        proof { }
//@ hint before if let Some ( ref $v! ) = state . old_sigcont $b!
            let ghost a_cont = w.acts;
//@ hint after if let Some ( ref $v! ) = state . old_sigcont $b!
            proof { assert(w.acts == put(a_cont, NixSignal::SIGCONT, state.old_sigcont)); }
//@ hint before if let Some ( ref $v! ) = state . old_sigint $b!
            let ghost a_int = w.acts;
//@ hint after if let Some ( ref $v! ) = state . old_sigint $b!
            proof { assert(w.acts == put(a_int, NixSignal::SIGINT, state.old_sigint)); }
//@ hint before if let Some ( ref $v! ) = state . old_sigtstp $b!
            let ghost a_tstp = w.acts;
//@ hint after if let Some ( ref $v! ) = state . old_sigtstp $b!
            proof { assert(w.acts == put(a_tstp, NixSignal::SIGTSTP, state.old_sigtstp)); }
//@ hint before if let Some ( ref $v! ) = state . old_sigquit $b!
            let ghost a_quit = w.acts;
//@ hint after if let Some ( ref $v! ) = state . old_sigquit $b!
            proof { assert(w.acts == put(a_quit, NixSignal::SIGQUIT, state.old_sigquit)); }
//@ hint before if let Some ( ref $v! ) = state . old_sigwinch $b!
            let ghost a_winch = w.acts;
//@ hint after if let Some ( ref $v! ) = state . old_sigwinch $b!
            proof { assert(w.acts == put(a_winch, NixSignal::SIGWINCH, state.old_sigwinch)); }
            proof { assert(given_back(old(w).acts, w.acts, state)) by { reveal(given_back); lemma_get(); } }
//@ end

/// what is between a prepare and its restore left things as it found them
pub open spec fn nested(w1: World, b: TerminalReadGuard, w2: World, c: TerminalReadGuard) -> bool {
    &&& forall|f: RawFd| #[trigger] w2.tio[f] == w1.tio[f]
    &&& forall|n: NixSignal| #[trigger] w2.acts[n] == w1.acts[n]
    &&& c.term == b.term && c.reader.mouse == b.reader.mouse && c.reader.keypad == b.reader.keypad
}
/// so restoring undoes preparing: settings, handlers, modes and reported signals; and with `nested` of the pair, pairs can be nested
pub proof fn undoes(w0: World, a: TerminalReadGuard, w1: World, b: TerminalReadGuard, w2: World, c: TerminalReadGuard, w3: World, d: TerminalReadGuard, x: PrepareConfig, s: PrepareState)
    requires made(w0, a, w1, b, x, s), b.term == a.term, nested(w1, b, w2, c), unmade(w2, w3, d, s), d.term == c.term, coherent(a.reader),
        a.reader.mouse is Some ==> xterm_name(a.term.info.s_name()), a.term.info.knows(Cap::KeypadXmit) ==> a.term.info.knows(Cap::KeypadLocal),
    ensures fits(a.term.info, s, c.reader), nested(w0, a, w3, d), d.reader.resume == a.reader.resume, same_set(d.reader.report_signals, a.reader.report_signals),
{ reveal(or); reveal(given_back); reveal(installed); reveal(saved);
    assert(w3.acts[NixSignal::SIGCONT] == w0.acts[NixSignal::SIGCONT]);
    assert forall|n: NixSignal| #[trigger] w3.acts[n] == w0.acts[n] by { assert(w2.acts[n] == w1.acts[n]); }
    assert forall|f: RawFd| #[trigger] w3.tio[f] == w0.tio[f] by { assert(w2.tio[f] == w1.tio[f]); assert(w1.tio[f] == w0.tio[f] || f == a.term.in_fd); }
    assert forall|k: Signal| #[trigger] d.reader.report_signals.has(k) == a.reader.report_signals.has(k) by {
        assert(in_force(d.reader.resume, k) == in_force(a.reader.resume, k));
    }
}
} // verus!
fn main() {}
