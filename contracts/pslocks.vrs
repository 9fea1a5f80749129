//@ include common.vrs
//@ include lockmodel.vrs
//@ use slocks.vrs mod=sys names="map_lock_result,map_try_lock_result,inner,try_inner"
verus! {
//@ type src/screen.rs Screen
//@ type src/screen.rs ScreenReadGuard
//@ type src/screen.rs ScreenWriteGuard
//@ world lock try_lock lock_read lock_write try_lock_read try_lock_write borrow_term_write_guard
//@ rewrite , ScreenReadGuard ) ==> , |x: sys::ScreenReadGuard| -> (g__: ScreenReadGuard) ensures g__.0 == x { ScreenReadGuard(x) })
//@ rewrite , ScreenWriteGuard ) ==> , |x: sys::ScreenWriteGuard| -> (g__: ScreenWriteGuard) ensures g__.0 == x { ScreenWriteGuard(x) })
//@ rewrite | $x! | ScreenReadGuard ( $y! ) ) ==> |$x: sys::ScreenReadGuard| -> (g__: ScreenReadGuard) ensures g__.0 == $x { (ScreenReadGuard)($y) })
//@ rewrite | $x! | ScreenWriteGuard ( $y! ) ) ==> |$x: sys::ScreenWriteGuard| -> (g__: ScreenWriteGuard) ensures g__.0 == $x { (ScreenWriteGuard)($y) })
//@ rewrite self . lock_write ( ) . unwrap ( ) ==> unwrap__(self.lock_write())
//@ fn src/screen.rs Screen::lock_read
    ensures attempted(*old(w), *final(w), set![self.0.reader_id()]),
        match r { Ok(g) => g.0.is_of(&self.0) && plainly(*old(w), *final(w)), Err(p) => p.v.0.is_of(&self.0) && poisoned(*old(w), *final(w)) },
//@ end
//@ fn src/screen.rs Screen::lock_write
    ensures attempted(*old(w), *final(w), set![self.0.writer_id(), self.0.data_id()]),
        match r { Ok(g) => g.0.is_of(&self.0) && plainly(*old(w), *final(w)), Err(p) => p.v.0.is_of(&self.0) && poisoned(*old(w), *final(w)) },
//@ end
//@ fn src/screen.rs Screen::try_lock_read
    ensures attempted(*old(w), *final(w), set![self.0.reader_id()]),
        match r { Ok(g) => g.0.is_of(&self.0) && plainly(*old(w), *final(w)), Err(TryLockError::Poisoned(p)) => p.v.0.is_of(&self.0) && poisoned(*old(w), *final(w)), Err(TryLockError::WouldBlock) => blocks(*old(w), *final(w)) },
//@ end
//@ fn src/screen.rs Screen::try_lock_write
    ensures attempted(*old(w), *final(w), set![self.0.writer_id(), self.0.data_id()]),
        match r { Ok(g) => g.0.is_of(&self.0) && plainly(*old(w), *final(w)), Err(TryLockError::Poisoned(p)) => p.v.0.is_of(&self.0) && poisoned(*old(w), *final(w)), Err(TryLockError::WouldBlock) => blocks(*old(w), *final(w)) },
//@ end
//@ fn src/screen.rs Screen::borrow_term_write_guard
    ensures attempted(*old(w), *final(w), set![self.0.writer_id(), self.0.data_id()]), r.0.is_of(&self.0) && plainly(*old(w), *final(w)),
//@ end
} // verus!
fn main() {}
