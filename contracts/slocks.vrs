//@ include common.vrs
//@ include lockmodel.vrs
//@ use locks.vrs mod=tl names="Terminal,TerminalReadGuard,TerminalWriteGuard,map_lock_result,map_try_lock_result,map2_lock_result,map2_try_lock_result,inner,try_inner"
verus! {
#[verifier::external_body]
pub struct PrepareState { r: u8 }
/// what the lock guards does not matter here
#[verifier::external_body]
pub struct Writer { r: u8 }
//@ type src/unix/screen.rs Screen
//@ type src/unix/screen.rs ScreenReadGuard
//@ type src/unix/screen.rs ScreenWriteGuard
impl<'a> ScreenReadGuard<'a> { pub open spec fn is_of(self, s: &Screen) -> bool { self.screen == s && self.reader.is_of(&s.term) } }
impl<'a> ScreenWriteGuard<'a> { pub open spec fn is_of(self, s: &Screen) -> bool { self.writer.is_of(&s.term) && self.data.of() == s.writer.id() } }
impl Screen {
    pub open spec fn reader_id(self) -> int { self.term.reader_id() }
    pub open spec fn writer_id(self) -> int { self.term.writer_id() }
    pub open spec fn data_id(self) -> int { self.writer.id() }
}
//@ fn src/unix/screen.rs ScreenReadGuard::new params="screen reader"
    ensures r.screen == screen, r.reader == reader,
//@ end
//@ fn src/unix/screen.rs ScreenWriteGuard::new params="writer data"
    ensures r.writer == writer, r.data == data,
//@ end
//@ world lock try_lock lock_read lock_write try_lock_read try_lock_write lock_reader lock_writer lock_write_data
//@ rewrite , | $x! | ScreenReadGuard :: new ( $a! , $b! ) ) ==> , |$x: TerminalReadGuard| -> (g__: ScreenReadGuard) ensures g__.screen == $a && g__.reader == $b { ScreenReadGuard::new($a, $b) })
//@ rewrite , | $x! , $y! | ScreenWriteGuard :: new ( $a! , $b! ) ) ==> , |$x: TerminalWriteGuard, $y: MutexGuard<Writer>| -> (g__: ScreenWriteGuard) ensures g__.writer == $a && g__.data == $b { ScreenWriteGuard::new($a, $b) })
//@ rewrite self . $f! ( ) . expect ( $m ) ==> expect__(self.$f(), $m)
//@ rewrite self . term . $f! ( ) . expect ( $m ) ==> expect__(self.term.$f(), $m)
//@ rewrite self . writer . lock ( ) . expect ( $m ) ==> expect__(self.writer.lock(), $m)
//@ fn src/unix/screen.rs Screen::lock_read
    ensures attempted(*old(w), *final(w), set![self.reader_id()]),
        match r { Ok(g) => g.is_of(self) && plainly(*old(w), *final(w)), Err(p) => p.v.is_of(self) && poisoned(*old(w), *final(w)) },
//@ end
//@ fn src/unix/screen.rs Screen::try_lock_read
    ensures attempted(*old(w), *final(w), set![self.reader_id()]),
        match r { Ok(g) => g.is_of(self) && plainly(*old(w), *final(w)), Err(TryLockError::Poisoned(p)) => p.v.is_of(self) && poisoned(*old(w), *final(w)), Err(TryLockError::WouldBlock) => blocks(*old(w), *final(w)) },
//@ end
//@ fn src/unix/screen.rs Screen::lock_write
    ensures attempted(*old(w), *final(w), set![self.writer_id(), self.data_id()]),
        match r { Ok(g) => g.is_of(self) && plainly(*old(w), *final(w)), Err(p) => p.v.is_of(self) && poisoned(*old(w), *final(w)) },
//@ start
    proof { lemma_tried(); lemma_then(); }
//@ end
//@ fn src/unix/screen.rs Screen::try_lock_write
    ensures attempted(*old(w), *final(w), set![self.writer_id(), self.data_id()]),
        match r { Ok(g) => g.is_of(self) && plainly(*old(w), *final(w)), Err(TryLockError::Poisoned(p)) => p.v.is_of(self) && poisoned(*old(w), *final(w)), Err(TryLockError::WouldBlock) => blocks(*old(w), *final(w)) },
//@ start
    proof { lemma_tried(); lemma_then(); }
//@ end
//@ fn src/unix/screen.rs Screen::lock_reader
    ensures attempted(*old(w), *final(w), set![self.reader_id()]), r.is_of(self) && plainly(*old(w), *final(w)),
//@ end
//@ fn src/unix/screen.rs Screen::lock_writer
    ensures attempted(*old(w), *final(w), set![self.writer_id(), self.data_id()]), r.is_of(self) && plainly(*old(w), *final(w)),
//@ end
//@ fn src/unix/screen.rs Screen::lock_write_data
    ensures attempted(*old(w), *final(w), set![self.data_id()]), r.of() == self.data_id() && plainly(*old(w), *final(w)),
//@ start
    proof { lemma_tried(); }
//@ end
} // verus!
fn main() {}
