verus! {
// ---------------------------------------------------------------------------
// input settings and signal handlers
// ---------------------------------------------------------------------------
#[verifier::external_body]
pub fn inf__(f: Inf) -> (r: InputFlags) ensures r@ == Set::<Inf>::empty().insert(f) { unimplemented!() }
impl InputFlags {
    #[verifier::external_body]
    pub fn insert(&mut self, o: InputFlags) ensures forall|f: Inf| #[trigger] final(self)@.contains(f) == (old(self)@.contains(f) || o@.contains(f)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, o: InputFlags) ensures forall|f: Inf| #[trigger] final(self)@.contains(f) == (old(self)@.contains(f) && !o@.contains(f)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, o: InputFlags, v: bool) ensures forall|f: Inf| #[trigger] final(self)@.contains(f) == (if o@.contains(f) { v } else { old(self)@.contains(f) }) { unimplemented!() }
    pub uninterp spec fn s_or(self, o: InputFlags) -> InputFlags;
}
#[verifier::external_body]
pub fn lof__(f: Lof) -> (r: LocalFlags) ensures r@ == Set::<Lof>::empty().insert(f) { unimplemented!() }
impl LocalFlags {
    #[verifier::external_body]
    pub fn insert(&mut self, o: LocalFlags) ensures forall|f: Lof| #[trigger] final(self)@.contains(f) == (old(self)@.contains(f) || o@.contains(f)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, o: LocalFlags) ensures forall|f: Lof| #[trigger] final(self)@.contains(f) == (old(self)@.contains(f) && !o@.contains(f)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, o: LocalFlags, v: bool) ensures forall|f: Lof| #[trigger] final(self)@.contains(f) == (if o@.contains(f) { v } else { old(self)@.contains(f) }) { unimplemented!() }
    pub uninterp spec fn s_or(self, o: LocalFlags) -> LocalFlags;
}
pub broadcast axiom fn ax_inf(a: InputFlags, b: InputFlags) ensures (#[trigger] a.s_or(b))@ == a@.union(b@);
pub broadcast axiom fn ax_lof(a: LocalFlags, b: LocalFlags) ensures (#[trigger] a.s_or(b))@ == a@.union(b@);
impl vstd::std_specs::ops::BitOrSpecImpl for InputFlags {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: InputFlags) -> bool { true }
    open spec fn bitor_spec(self, o: InputFlags) -> InputFlags { self.s_or(o) }
}
impl std::ops::BitOr for InputFlags { type Output = InputFlags; #[verifier::external_body] fn bitor(self, o: InputFlags) -> (r: InputFlags) { unimplemented!() } }
impl vstd::std_specs::ops::BitOrSpecImpl for LocalFlags {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: LocalFlags) -> bool { true }
    open spec fn bitor_spec(self, o: LocalFlags) -> LocalFlags { self.s_or(o) }
}
impl std::ops::BitOr for LocalFlags { type Output = LocalFlags; #[verifier::external_body] fn bitor(self, o: LocalFlags) -> (r: LocalFlags) { unimplemented!() } }
impl Termios {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Termios) ensures r == *self { unimplemented!() }
}
/// places of control characters (Linux)
pub const VTIME: usize = 5;
pub const VMIN: usize = 6;
pub enum SetArg { TCSANOW, TCSADRAIN, TCSAFLUSH }
#[verifier::external_body]
pub fn tcgetattr(fd: RawFd, Tracked(w): Tracked<&mut World>) -> (r: Result<Termios, Errno>)
    ensures *final(w) == *old(w), r matches Ok(t) ==> t == old(w).tio[fd],
{ unimplemented!() }
#[verifier::opaque]
pub open spec fn only_tio(a: World, b: World) -> bool { b == (World { tio: b.tio, ..a }) }
#[verifier::opaque]
pub open spec fn only_acts(a: World, b: World) -> bool { b == (World { acts: b.acts, ..a }) }
#[verifier::external_body]
pub fn tcsetattr(fd: RawFd, a: SetArg, t: &Termios, Tracked(w): Tracked<&mut World>) -> (r: Result<(), Errno>)
    ensures only_tio(*old(w), *final(w)), r is Ok ==> final(w).tio == old(w).tio.insert(fd, *t),
{ unimplemented!() }
/// Ours: what notes the signal's number
pub enum SigHandler { SigDfl, SigIgn, Ours }
#[verifier::external_body]
pub struct SaFlags { f: u8 }
impl SaFlags {
    #[verifier::external_body]
    pub fn empty() -> SaFlags { unimplemented!() }
}
#[verifier::external_body]
pub struct SigSet { s: u8 }
impl SigSet {
    #[verifier::external_body]
    pub fn all() -> SigSet { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> SigSet { unimplemented!() }
}
impl SigAction {
    pub uninterp spec fn handler(self) -> SigHandler;
    #[verifier::external_body]
    pub fn new(h: SigHandler, f: SaFlags, s: SigSet) -> (r: SigAction) ensures r.handler() == h { unimplemented!() }
}
#[verifier::opaque]
pub open spec fn put(m: Map<NixSignal, SigAction>, n: NixSignal, o: Option<SigAction>) -> Map<NixSignal, SigAction> { match o { Some(a) => m.insert(n, a), None => m } }
#[verifier::external_body]
pub fn sigaction(s: NixSignal, a: &SigAction, Tracked(w): Tracked<&mut World>) -> (r: Result<SigAction, Errno>)
    ensures only_acts(*old(w), *final(w)), r is Err ==> final(w).acts == old(w).acts,
        r matches Ok(o) ==> final(w).acts == put(old(w).acts, s, Some(*a)) && o == old(w).acts[s],
{ unimplemented!() }
/// the error turned into an io::Error
pub trait Io__<T>: Sized { spec fn res__(self) -> Result<T, Errno>; fn io__(self) -> (r: io::Result<T>) ensures r is Ok <==> self.res__() is Ok, r matches Ok(v) ==> self.res__() == Ok::<T, Errno>(v); }
impl<T> Io__<T> for Result<T, Errno> {
    open spec fn res__(self) -> Result<T, Errno> { self }
    #[verifier::external_body]
    fn io__(self) -> (r: io::Result<T>) { unimplemented!() }
}
//@ world enable_mouse disable_mouse enable_keypad disable_keypad flush tcgetattr tcsetattr sigaction prepare prepare_with_lock restore restore_with_lock
//@ rewrite use nix :: sys :: termios :: SpecialCharacterIndices :: * ; ==> 
//@ rewrite InputFlags :: $f! ==> inf__(Inf::$f)
//@ rewrite LocalFlags :: $f! ==> lof__(Lof::$f)
//@ rewrite SigHandler :: Handler ( handle_signal ) ==> SigHandler::Ours
//@ rewrite old_tio . into ( ) ==> old_tio
//@ rewrite state . $f! . map_or ( $d , | $v! | $b ) ==> (match state.$f { Some($v) => $b, None => $d })
//@ rewrite & state . old_tio . into ( ) ==> &state.old_tio
//@ rewrite . map_err ( nix_to_io ) ==> .io__()
} // verus!
