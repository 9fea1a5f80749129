verus! {
// ---------------------------------------------------------------------------
// waiting
// ---------------------------------------------------------------------------
/// std: a duration, in seconds and nanoseconds
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Duration { d: std::time::Duration }
impl Duration {
    pub uninterp spec fn secs(self) -> u64;
    pub uninterp spec fn nanos(self) -> u32;
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self.secs() { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_millis(&self) -> (r: u32) ensures r == self.nanos() / 1_000_000, self.nanos() < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_micros(&self) -> (r: u32) ensures r == self.nanos() / 1_000, self.nanos() < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.nanos(), self.nanos() < 1_000_000_000 { unimplemented!() }
}
/// nix: a time in microseconds; the constructors panic outside its range
#[verifier::external_body]
pub struct TimeVal { t: i64 }
pub spec const TV_MAX_SECONDS: int = 9_223_372_036_853; // i64::MAX / 1_000_000 - 1
impl TimeVal {
    pub uninterp spec fn us(self) -> int;
    #[verifier::external_body]
    pub fn milliseconds(n: i64) -> (r: TimeVal) requires -TV_MAX_SECONDS * 1000 <= n <= TV_MAX_SECONDS * 1000 + 999 ensures r.us() == n * 1000 { unimplemented!() }
    #[verifier::external_body]
    pub fn microseconds(n: i64) -> (r: TimeVal) requires -TV_MAX_SECONDS * 1_000_000 <= n <= TV_MAX_SECONDS * 1_000_000 + 999_999 ensures r.us() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn seconds(n: i64) -> (r: TimeVal) requires -TV_MAX_SECONDS <= n <= TV_MAX_SECONDS ensures r.us() == n * 1_000_000 { unimplemented!() }
}
/// nix: a set of files below 1024
#[verifier::external_body]
pub struct FdSet { s: u8 }
impl FdSet {
    pub uninterp spec fn view(self) -> Set<RawFd>;
    #[verifier::external_body]
    pub fn new() -> (r: FdSet) ensures r@ == Set::<RawFd>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, fd: RawFd) requires 0 <= fd < 1024 ensures final(self)@ == old(self)@.insert(fd) { unimplemented!() }
}
pub open spec fn us(t: Option<TimeVal>) -> Option<int> { match t { Some(t) => Some(t.us()), None => None } }
/// select(2); on Linux it leaves the time that was not waited
#[verifier::external_body]
pub fn select__(n: c_int, r: &mut FdSet, t: &mut Option<TimeVal>, Tracked(w): Tracked<&mut World>) -> (res: Result<c_int, Errno>)
    ensures
        *final(w) == (World { waits: old(w).waits.push(Wait { fds: old(r)@, nfds: n as int, given: us(*old(t)), rest: us(*final(t)), ready: match res { Ok(n) => n as int, Err(_) => -1 } }), ..*old(w) }),
        *final(t) is Some <==> *old(t) is Some, res matches Ok(n) ==> n >= 0,
        *final(t) matches Some(x) && *old(t) matches Some(y) ==> 0 <= x.us() <= y.us() || x.us() == y.us(),
{ unimplemented!() }
//@ rewrite select ( $n , Some ( & mut $r! ) , None , Some ( & mut $e! ) , $t . as_mut ( ) ) ==> select__($n, &mut $r, &mut $t)
//@ rewrite select ( $n , Some ( & mut $r! ) , None , None , $t . as_mut ( ) ) ==> select__($n, &mut $r, &mut $t)
//@ rewrite $t! . map ( to_timeval ) ==> (match $t { Some(d__) => Some(to_timeval(d__)), None => None })
//@ rewrite const $n! : $t! = $e ; ==> let $n: $t = $e;
//@ rewrite i64 :: max_value ( ) ==> i64::MAX

// ---------------------------------------------------------------------------
// signals
// ---------------------------------------------------------------------------
/// their numbers on Linux (x86, arm)
pub open spec fn signum(s: NixSignal) -> int {
    match s {
        NixSignal::SIGHUP => 1, NixSignal::SIGINT => 2, NixSignal::SIGQUIT => 3, NixSignal::SIGILL => 4, NixSignal::SIGTRAP => 5, NixSignal::SIGABRT => 6, NixSignal::SIGBUS => 7,
        NixSignal::SIGFPE => 8, NixSignal::SIGKILL => 9, NixSignal::SIGUSR1 => 10, NixSignal::SIGSEGV => 11, NixSignal::SIGUSR2 => 12, NixSignal::SIGPIPE => 13, NixSignal::SIGALRM => 14,
        NixSignal::SIGTERM => 15, NixSignal::SIGCHLD => 17, NixSignal::SIGCONT => 18, NixSignal::SIGSTOP => 19, NixSignal::SIGTSTP => 20, NixSignal::SIGTTIN => 21, NixSignal::SIGTTOU => 22,
        NixSignal::SIGURG => 23, NixSignal::SIGWINCH => 28, NixSignal::SIGIO => 29,
    }
}
#[verifier::external_body]
pub fn nix_signal__(n: c_int) -> (r: Option<NixSignal>)
    ensures r matches Some(s) ==> signum(s) == n, r is None ==> forall|s: NixSignal| #[trigger] signum(s) != n,
{ unimplemented!() }
//@ rewrite NixSignal :: try_from ( $s ) . ok ( ) ==> nix_signal__($s)
/// the last caught signal, which a handler may change at any time
#[verifier::external_body]
pub fn last_load__() -> (r: usize) ensures r <= 64 { unimplemented!() }
#[verifier::external_body]
pub fn last_swap__(n: usize, Tracked(w): Tracked<&mut World>) -> (r: usize)
    ensures r <= 64, *final(w) == (World { taken: old(w).taken.push(r as int), left: n as int, ..*old(w) }),
{ unimplemented!() }
//@ rewrite LAST_SIGNAL . load ( Ordering :: $o! ) ==> last_load__()
//@ rewrite LAST_SIGNAL . swap ( $n , Ordering :: $o! ) ==> last_swap__($n)
#[verifier::external_body]
pub fn last_store__(n: usize, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { left: n as int, ..*old(w) }) { unimplemented!() }
//@ rewrite LAST_SIGNAL . store ( $n , Ordering :: $o! ) ==> last_store__($n)
//@ world last_store__ last_swap__ select__ take_signal wait_event read read_input read_into_buffer read_raw

/// read(2)
#[verifier::external_body]
pub fn read(fd: RawFd, b: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<usize, Errno>)
    ensures
        final(b)@.len() == old(b)@.len(),
        r matches Ok(n) ==> n <= old(b)@.len() && final(b)@.skip(n as int) == old(b)@.skip(n as int) && *final(w) == (World { got: old(w).got.insert(fd, old(w).got[fd] + final(b)@.take(n as int)), ..*old(w) }),
        r is Err ==> *final(w) == *old(w) && final(b)@ == old(b)@,
        same_taken(*old(w), *final(w)),
{ unimplemented!() }

// ---------------------------------------------------------------------------
// std: the input buffer
// ---------------------------------------------------------------------------
#[verifier::external_body]
pub fn set_len__(v: &mut Vec<u8>, n: usize)
    requires n <= vcap(*old(v))
    ensures final(v)@.len() == n, vcap(*final(v)) == vcap(*old(v)), if n <= old(v)@.len() { final(v)@ == old(v)@.take(n as int) } else { final(v)@.take(old(v)@.len() as int) == old(v)@ }
{ unimplemented!() }
#[verifier::external_body]
pub fn reserve__(v: &mut Vec<u8>, n: usize) ensures final(v)@ == old(v)@, vcap(*final(v)) >= old(v)@.len() + n { unimplemented!() }
#[verifier::external_body]
pub fn tail__(v: &mut Vec<u8>, n: usize) -> (r: &mut [u8])
    requires n <= old(v)@.len()
    ensures r@ == old(v)@.skip(n as int), final(r)@.len() == r@.len() ==> final(v)@ == old(v)@.take(n as int) + final(r)@ && vcap(*final(v)) == vcap(*old(v))
{ unimplemented!() }
#[verifier::external_body]
pub fn bytes__(v: &Vec<u8>) -> (r: &[u8]) ensures r@ == v@ { unimplemented!() }
/// buf[..n].copy_from_slice(&src[..m])
#[verifier::external_body]
pub fn copy__(b: &mut [u8], n: usize, s: &Vec<u8>, m: usize)
    requires n <= old(b)@.len(), m <= s@.len(), n == m
    ensures final(b)@ == s@.take(m as int) + old(b)@.skip(n as int)
{ unimplemented!() }
//@ rewrite $x! . reserve ( $n ) ==> reserve__(&mut $x, $n)
//@ rewrite $x! . set_len ( $n ) ==> set_len__(&mut $x, $n)
//@ rewrite $x! . capacity ( ) ==> capacity__(&$x)
//@ rewrite & mut $b! [ $o .. ] ==> tail__(&mut $b, $o)
//@ rewrite $b! [ .. $n ] . copy_from_slice ( & $s [ .. $m ] ) ==> copy__($b, $n, &$s, $m)
//@ rewrite $x! . reader . in_buffer . drain ( .. $n ) ==> drain_to__(&mut $x.reader.in_buffer, $n)
//@ rewrite in_buffer . drain ( .. $n ) ==> drain_to__(in_buffer, $n)
//@ rewrite peek_event ( & $b , $s ) ==> peek_event(bytes__(&$b), $s)
} // verus!
