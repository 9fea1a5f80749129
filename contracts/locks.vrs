//@ include common.vrs
//@ include lockmodel.vrs
verus! {
#[verifier::external_body]
pub struct Database { d: u8 }
#[verifier::external_body]
pub struct SeqMap { m: u8 }
pub type RawFd = i32;
/// what the locks guard does not matter here
#[verifier::external_body]
pub struct Reader { r: u8 }
#[verifier::external_body]
pub struct Writer { r: u8 }
//@ type src/unix/terminal.rs Terminal
//@ type src/unix/terminal.rs TerminalWriteGuard
//@ type src/unix/terminal.rs TerminalReadGuard
impl Terminal {
    pub open spec fn reader_id(self) -> int { self.reader.id() }
    pub open spec fn writer_id(self) -> int { self.writer.id() }
}
impl<'a> TerminalReadGuard<'a> { pub open spec fn is_of(self, t: &Terminal) -> bool { self.term == t && self.reader.of() == t.reader.id() } }
impl<'a> TerminalWriteGuard<'a> { pub open spec fn is_of(self, t: &Terminal) -> bool { self.term == t && self.writer.of() == t.writer.id() } }

//@ fn src/priv_util.rs map_lock_result params="res f"
    requires match res { Ok(t) => f.requires((t,)), Err(p) => f.requires((p.v,)) },
    ensures match res { Ok(t) => r matches Ok(u) && f.ensures((t,), u), Err(p) => r matches Err(q) && f.ensures((p.v,), q.v) },
//@ end
//@ fn src/priv_util.rs map_try_lock_result params="res f"
    requires match res { Ok(t) => f.requires((t,)), Err(TryLockError::Poisoned(p)) => f.requires((p.v,)), _ => true },
    ensures match res {
        Ok(t) => r matches Ok(u) && f.ensures((t,), u),
        Err(TryLockError::Poisoned(p)) => r matches Err(TryLockError::Poisoned(q)) && f.ensures((p.v,), q.v),
        Err(TryLockError::WouldBlock) => r matches Err(TryLockError::WouldBlock),
    },
//@ end
pub open spec fn inner<T>(r: LockResult<T>) -> T { match r { Ok(t) => t, Err(p) => p.v } }
pub open spec fn try_inner<T>(r: TryLockResult<T>) -> Option<T> { match r { Ok(t) => Some(t), Err(TryLockError::Poisoned(p)) => Some(p.v), Err(TryLockError::WouldBlock) => None } }
//@ fn src/priv_util.rs map2_lock_result params="res res2 f"
    requires f.requires((inner(res), inner(res2))),
    ensures f.ensures((inner(res), inner(res2)), inner(r)), r is Ok <==> res is Ok && res2 is Ok,
//@ end
//@ fn src/priv_util.rs map2_try_lock_result params="res res2 f"
    requires (try_inner(res) matches Some(t) && try_inner(res2) matches Some(u)) ==> f.requires((try_inner(res)->0, try_inner(res2)->0)),
    ensures
        try_inner(r) is None <==> try_inner(res) is None || try_inner(res2) is None,
        (try_inner(res) matches Some(t) && try_inner(res2) matches Some(u)) ==> f.ensures((try_inner(res)->0, try_inner(res2)->0), try_inner(r)->0),
        r is Ok <==> res is Ok && res2 is Ok,
//@ end

//@ fn src/unix/terminal.rs TerminalReadGuard::new params="term reader"
    ensures r.term == term, r.reader == reader,
//@ end
//@ fn src/unix/terminal.rs TerminalWriteGuard::new params="term writer"
    ensures r.term == term, r.writer == writer,
//@ end
//@ world lock try_lock lock_read lock_write try_lock_read try_lock_write lock_reader lock_writer
//@ rewrite , | $x! | TerminalReadGuard :: new ( $a! , $b! ) ) ==> , |$x: MutexGuard<Reader>| -> (g__: TerminalReadGuard) ensures g__.term == $a && g__.reader == $b { TerminalReadGuard::new($a, $b) })
//@ rewrite , | $x! | TerminalWriteGuard :: new ( $a! , $b! ) ) ==> , |$x: MutexGuard<Writer>| -> (g__: TerminalWriteGuard) ensures g__.term == $a && g__.writer == $b { TerminalWriteGuard::new($a, $b) })
//@ rewrite self . $f! ( ) . expect ( $m ) ==> expect__(self.$f(), $m)
//@ rewrite self . term . $f! ( ) . expect ( $m ) ==> expect__(self.term.$f(), $m)
//@ fn src/unix/terminal.rs Terminal::lock_read
    ensures attempted(*old(w), *final(w), set![self.reader_id()]),
        match r { Ok(g) => g.is_of(self) && plainly(*old(w), *final(w)), Err(p) => p.v.is_of(self) && poisoned(*old(w), *final(w)) },
//@ start
    proof { lemma_tried(); }
//@ end
//@ fn src/unix/terminal.rs Terminal::lock_write
    ensures attempted(*old(w), *final(w), set![self.writer_id()]),
        match r { Ok(g) => g.is_of(self) && plainly(*old(w), *final(w)), Err(p) => p.v.is_of(self) && poisoned(*old(w), *final(w)) },
//@ start
    proof { lemma_tried(); }
//@ end
//@ fn src/unix/terminal.rs Terminal::try_lock_read
    ensures attempted(*old(w), *final(w), set![self.reader_id()]),
        match r { Ok(g) => g.is_of(self) && plainly(*old(w), *final(w)), Err(TryLockError::Poisoned(p)) => p.v.is_of(self) && poisoned(*old(w), *final(w)), Err(TryLockError::WouldBlock) => blocks(*old(w), *final(w)) },
//@ start
    proof { lemma_tried(); }
//@ end
//@ fn src/unix/terminal.rs Terminal::try_lock_write
    ensures attempted(*old(w), *final(w), set![self.writer_id()]),
        match r { Ok(g) => g.is_of(self) && plainly(*old(w), *final(w)), Err(TryLockError::Poisoned(p)) => p.v.is_of(self) && poisoned(*old(w), *final(w)), Err(TryLockError::WouldBlock) => blocks(*old(w), *final(w)) },
//@ start
    proof { lemma_tried(); }
//@ end
//@ fn src/unix/terminal.rs Terminal::lock_reader
    ensures attempted(*old(w), *final(w), set![self.reader_id()]), r.is_of(self) && plainly(*old(w), *final(w)),
//@ end
//@ fn src/unix/terminal.rs Terminal::lock_writer
    ensures attempted(*old(w), *final(w), set![self.writer_id()]), r.is_of(self) && plainly(*old(w), *final(w)),
//@ end
} // verus!
fn main() {}
