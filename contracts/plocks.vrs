//@ include common.vrs
//@ include lockmodel.vrs
//@ use locks.vrs mod=sys names="map_lock_result,map_try_lock_result,inner,try_inner"
verus! {
//@ type src/terminal.rs Terminal
//@ type src/terminal.rs TerminalReadGuard
//@ type src/terminal.rs TerminalWriteGuard
//@ world lock try_lock lock_read lock_write try_lock_read try_lock_write borrow_term_write_guard
//@ rewrite , TerminalReadGuard ) ==> , |x: sys::TerminalReadGuard| -> (g__: TerminalReadGuard) ensures g__.0 == x { TerminalReadGuard(x) })
//@ rewrite , TerminalWriteGuard ) ==> , |x: sys::TerminalWriteGuard| -> (g__: TerminalWriteGuard) ensures g__.0 == x { TerminalWriteGuard(x) })
//@ rewrite | $x! | TerminalReadGuard ( $y! ) ) ==> |$x: sys::TerminalReadGuard| -> (g__: TerminalReadGuard) ensures g__.0 == $x { (TerminalReadGuard)($y) })
//@ rewrite | $x! | TerminalWriteGuard ( $y! ) ) ==> |$x: sys::TerminalWriteGuard| -> (g__: TerminalWriteGuard) ensures g__.0 == $x { (TerminalWriteGuard)($y) })
//@ rewrite self . lock_write ( ) . unwrap ( ) ==> unwrap__(self.lock_write())
//@ fn src/terminal.rs Terminal::lock_read
    ensures attempted(*old(w), *final(w), set![self.0.reader_id()]),
        match r { Ok(g) => g.0.is_of(&self.0) && plainly(*old(w), *final(w)), Err(p) => p.v.0.is_of(&self.0) && poisoned(*old(w), *final(w)) },
//@ end
//@ fn src/terminal.rs Terminal::lock_write
    ensures attempted(*old(w), *final(w), set![self.0.writer_id()]),
        match r { Ok(g) => g.0.is_of(&self.0) && plainly(*old(w), *final(w)), Err(p) => p.v.0.is_of(&self.0) && poisoned(*old(w), *final(w)) },
//@ end
//@ fn src/terminal.rs Terminal::try_lock_read
    ensures attempted(*old(w), *final(w), set![self.0.reader_id()]),
        match r { Ok(g) => g.0.is_of(&self.0) && plainly(*old(w), *final(w)), Err(TryLockError::Poisoned(p)) => p.v.0.is_of(&self.0) && poisoned(*old(w), *final(w)), Err(TryLockError::WouldBlock) => blocks(*old(w), *final(w)) },
//@ end
//@ fn src/terminal.rs Terminal::try_lock_write
    ensures attempted(*old(w), *final(w), set![self.0.writer_id()]),
        match r { Ok(g) => g.0.is_of(&self.0) && plainly(*old(w), *final(w)), Err(TryLockError::Poisoned(p)) => p.v.0.is_of(&self.0) && poisoned(*old(w), *final(w)), Err(TryLockError::WouldBlock) => blocks(*old(w), *final(w)) },
//@ end
//@ fn src/terminal.rs Terminal::borrow_term_write_guard
    ensures attempted(*old(w), *final(w), set![self.0.writer_id()]), r.0.is_of(&self.0) && plainly(*old(w), *final(w)),
//@ end
} // verus!
fn main() {}
