verus! {
// ---------------------------------------------------------------------------
// the locks of the terminal, as one thread sees them: what they guard is in the world while nobody holds them
// (what taking them reports when somebody does is in unit locks)
// ---------------------------------------------------------------------------
impl Terminal {
    #[verifier::external_body]
    pub fn lock_writer(&self, Tracked(w): Tracked<&mut World>) -> (r: TerminalWriteGuard<'_>)
        requires !old(w).writing // or it waits for itself
        ensures r.term == self, r.writer == old(w).writer, *final(w) == (World { writing: true, ..*old(w) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_reader(&self, Tracked(w): Tracked<&mut World>) -> (r: TerminalReadGuard<'_>)
        requires !old(w).reading
        ensures r.term == self, r.reader == old(w).reader, *final(w) == (World { reading: true, ..*old(w) }), held(*old(w), *final(w))
    { unimplemented!() }
}
#[verifier::external_body]
pub fn unlock_writer__(g: TerminalWriteGuard, Tracked(w): Tracked<&mut World>)
    requires old(w).writing
    ensures *final(w) == (World { writing: false, writer: g.writer, ..*old(w) })
{ unimplemented!() }
#[verifier::external_body]
pub fn unlock_reader__(g: TerminalReadGuard, Tracked(w): Tracked<&mut World>)
    requires old(w).reading
    ensures *final(w) == (World { reading: false, reader: g.reader, ..*old(w) }), held(*old(w), *final(w))
{ unimplemented!() }
/// the same but for the reader's lock
#[verifier::opaque]
pub open spec fn held(a: World, b: World) -> bool { b == (World { reading: b.reading, reader: b.reader, ..a }) }
/// what a thread finds that takes the lock
pub open spec fn wguard(t: &Terminal, w: World) -> TerminalWriteGuard<'_> { TerminalWriteGuard { term: t, writer: w.writer } }
pub open spec fn rguard(t: &Terminal, w: World) -> TerminalReadGuard<'_> { TerminalReadGuard { term: t, reader: w.reader } }
//@ paired lock_writer unlock_writer__
//@ paired lock_reader unlock_reader__
//@ world lock_writer lock_reader unlock_writer__ unlock_reader__ drop__
//@ rewrite self . lock_writer ( ) . $m! $a! ==> { let mut g__ = self.lock_writer(); let r__ = g__.$m $a; g__.drop__(); unlock_writer__(g__); r__ }
//@ rewrite self . lock_reader ( ) . $m! $a! ==> { let mut g__ = self.lock_reader(); let r__ = g__.$m $a; unlock_reader__(g__); r__ }
//@ rewrite self . term . lock_writer ( ) . $m! $a! ==> { let mut g__ = self.term.lock_writer(); let r__ = g__.$m $a; g__.drop__(); unlock_writer__(g__); r__ }
//@ rewrite self . prepare_with_lock ( & mut writer , $c ) ==> { let r__ = Self::prepare_with_lock(self, &mut writer, $c); writer.drop__(); unlock_writer__(writer); r__ }
//@ rewrite self . restore_with_lock ( & mut writer , $c ) ==> { let r__ = Self::restore_with_lock(self, &mut writer, $c); writer.drop__(); unlock_writer__(writer); r__ }
} // verus!
