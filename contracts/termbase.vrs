verus! {

// ---------------------------------------------------------------------------
// The world outside: what the operating system has seen.  Functions that act on
// it get it as a ghost argument (the extractor adds it to their calls).
// ---------------------------------------------------------------------------
pub tracked struct World {
    /// bytes each file has taken, and given
    pub ghost sent: Map<RawFd, Seq<u8>>,
    pub ghost got: Map<RawFd, Seq<u8>>,
    /// the size of the window behind each file
    pub ghost win: Map<RawFd, Size>,
    /// input settings of each file
    pub ghost tio: Map<RawFd, Termios>,
    /// what the process does on a signal
    pub ghost acts: Map<NixSignal, SigAction>,
    /// the times the process has waited for input
    pub ghost waits: Seq<Wait>,
    /// caught signals that have been taken, by number, and what was left in their place
    pub ghost taken: Seq<int>,
    pub ghost left: int,
    /// what the locks guard while nobody holds them, and whether somebody does
    pub ghost reader: Reader,
    pub ghost writer: Writer,
    pub ghost reading: bool,
    pub ghost writing: bool,
    /// whatever else the device depends on: its user resizes it
    pub ghost env: int,
}
/// one select: the files it watches, the time it was given and the time that was left after it (microseconds), how many are ready (-1: error)
pub struct Wait { pub fds: Set<RawFd>, pub nfds: int, pub given: Option<int>, pub rest: Option<int>, pub ready: int }
/// only output happened
pub open spec fn output_only(a: World, b: World) -> bool { b == (World { sent: b.sent, ..a }) }
} // verus!
//@ include io.vrs
verus! {
/// nix
pub enum Errno { EINTR, EAGAIN, EIO, EBADF, EINVAL, EPIPE, ENOSPC, Other }
#[verifier::external_body]
pub fn nix_to_io(e: Errno) -> io::Error { unimplemented!() }
/// makes the message
#[verifier::external_body]
pub fn not_supported(op: &str) -> io::Error { unimplemented!() }

pub type RawFd = i32;
#[allow(non_camel_case_types)]
pub type c_int = i32;
#[allow(non_camel_case_types)]
pub type c_ushort = u16;
pub enum NixSignal { SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGKILL, SIGUSR1, SIGSEGV, SIGUSR2, SIGPIPE, SIGALRM, SIGTERM, SIGCHLD, SIGCONT, SIGSTOP, SIGTSTP, SIGTTIN, SIGTTOU, SIGURG, SIGWINCH, SIGIO }
/// what is done on a signal
#[verifier::external_body]
pub struct SigAction { a: u8 }
pub enum Inf { IGNBRK, BRKINT, IGNPAR, PARMRK, INPCK, ISTRIP, INLCR, IGNCR, ICRNL, IXON, IXOFF, IXANY, IMAXBEL, IUTF8 }
pub enum Lof { ISIG, ICANON, ECHO, ECHOE, ECHOK, ECHONL, ECHOCTL, ECHOKE, ECHOPRT, NOFLSH, TOSTOP, IEXTEN, EXTPROC, FLUSHO, PENDIN }
#[verifier::external_body]
pub struct InputFlags { f: u32 }
impl InputFlags { pub uninterp spec fn view(self) -> Set<Inf>; }
#[verifier::external_body]
pub struct LocalFlags { f: u32 }
impl LocalFlags { pub uninterp spec fn view(self) -> Set<Lof>; }
#[verifier::external_body]
pub struct OtherFlags { f: u32 }
/// nix: the input settings; here also libc's
pub struct Termios { pub input_flags: InputFlags, pub output_flags: OtherFlags, pub control_flags: OtherFlags, pub local_flags: LocalFlags, pub control_chars: [u8; 32] }
#[allow(non_camel_case_types)]
pub type termios = Termios;

// ---------------------------------------------------------------------------
// terminfo
// ---------------------------------------------------------------------------
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum Cap {
    EnterCaMode, ExitCaMode, ChangeScrollRegion, CursorHome, CursorAddress, ColumnAddress, RowAddress, ExitAttributeMode, EnterBoldMode, EnterItalicsMode,
    ExitItalicsMode, EnterReverseMode, EnterUnderlineMode, ExitUnderlineMode, EnterStandoutMode, ExitStandoutMode, EnterDimMode, EnterBlinkMode,
    SetAForeground, SetABackground, SetForeground, SetBackground, OrigPair, ClearScreen, ClrEol, ClrBol,
    ClrEos, CursorUp, ParmUpCursor, CursorDown, ParmDownCursor, CursorLeft, ParmLeftCursor, CursorRight, ParmRightCursor, CarriageReturn,
    CursorNormal, CursorInvisible, CursorVisible, KeypadLocal, KeypadXmit, SaveCursor, RestoreCursor,
    KeyUp, KeyDown, KeyLeft, KeyRight, KeyHome, KeyEnd, KeyNPage, KeyPPage, KeyDc, KeyIc, KeyF1, KeyF2, KeyF3, KeyF4, KeyF5, KeyF6, KeyF7, KeyF8, KeyF9, KeyF10, KeyF11, KeyF12, KeyBackspace, KeyBTab, KeyEnter, KeyClear,
}
#[verifier::external_body]
pub struct Database { d: u8 }
impl Database {
    pub uninterp spec fn knows(self, c: Cap) -> bool;
    pub uninterp spec fn s_name(self) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    #[verifier::external_body]
    pub fn get__(&self, c: Cap) -> (r: Option<CapV>) ensures r is Some <==> self.knows(c), r matches Some(v) ==> v.cap() == c && v.db() == *self
    { unimplemented!() }
}
/// a capability's string
#[verifier::external_body]
pub struct CapV { c: u8 }
impl CapV {
    pub uninterp spec fn cap(self) -> Cap;
    pub uninterp spec fn db(self) -> Database;
    #[verifier::external_body]
    pub fn expand__(&self) -> (r: Expansion) ensures r.cap() == self.cap(), r.db() == self.db(), r.params() == Seq::<int>::empty() { unimplemented!() }
}
pub trait Param: Sized { spec fn n(self) -> int; }
impl Param for u32 { open spec fn n(self) -> int { self as int } }
impl Param for u8 { open spec fn n(self) -> int { self as int } }
#[verifier::external_body]
pub struct Expansion { e: u8 }
impl Expansion {
    pub uninterp spec fn cap(self) -> Cap;
    pub uninterp spec fn db(self) -> Database;
    pub uninterp spec fn params(self) -> Seq<int>;
    #[verifier::external_body]
    pub fn parameters1__<P: Param>(self, a: P) -> (r: Expansion) ensures r.cap() == self.cap(), r.db() == self.db(), r.params() == seq![a.n()] { unimplemented!() }
    #[verifier::external_body]
    pub fn parameters2__(self, a: u32, b: u32) -> (r: Expansion) ensures r.cap() == self.cap(), r.db() == self.db(), r.params() == seq![a as int, b as int] { unimplemented!() }
}
/// what a capability expands to
pub uninterp spec fn capb(d: Database, c: Cap, p: Seq<int>) -> Seq<u8>;
/// whether it can be expanded
pub uninterp spec fn expands(d: Database, c: Cap, p: Seq<int>) -> bool;
#[verifier::external_body]
pub struct Context { c: u8 }
/// Expansion::with(context).to(buffer); an expansion that fails may have written a part
#[verifier::external_body]
pub fn to__(e: Expansion, c: &mut Context, out: &mut Vec<u8>) -> (r: io::Result<()>)
    ensures r is Ok ==> final(out)@ == old(out)@ + capb(e.db(), e.cap(), e.params()),
        r is Ok <==> expands(e.db(), e.cap(), e.params()),
        old(out)@.is_prefix_of(final(out)@), vcap(*final(out)) >= vcap(*old(out)),
{ unimplemented!() }

//@ rewrite . info . get :: < cap :: $c! > ( ) ==> .info.get__(Cap::$c)
//@ rewrite . parameters ( $a , $b ) ==> .parameters2__($a, $b)
//@ rewrite . parameters ( $a ) ==> .parameters1__($a)
//@ rewrite $e! . expand ( ) ==> $e.expand__()
//@ rewrite self . term . info . get__ ( $c ) . ok_or_else ( | | $e ) . and_then ( | $x! | $b ) ==> (match self.term.info.get__($c) { Some($x) => $b, None => Err($e) })
//@ rewrite $e! . with ( $c ) . to ( $o ) . map_err ( ti_to_io ) ==> to__($e, $c, $o)
//@ rewrite & mut * self . writer ; ==> &mut self.writer;

// ---------------------------------------------------------------------------
// std: vectors and slices
// ---------------------------------------------------------------------------
pub uninterp spec fn vcap(v: Vec<u8>) -> nat;
#[verifier::external_body]
pub fn capacity__(v: &Vec<u8>) -> (r: usize) ensures r == vcap(*v), r >= v@.len(), r <= isize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn from__<'a>(b: &'a [u8], n: usize) -> (r: &'a [u8]) requires n <= b@.len() ensures r@ == b@.skip(n as int) { unimplemented!() }
/// extend with a slice of bytes
#[verifier::external_body]
pub fn extend__(v: &mut Vec<u8>, b: &[u8]) ensures final(v)@ == old(v)@ + b@, vcap(*final(v)) >= vcap(*old(v)) { unimplemented!() }
/// drain(..n), dropped
#[verifier::external_body]
pub fn drain_to__(v: &mut Vec<u8>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.skip(n as int), vcap(*final(v)) == vcap(*old(v)) { unimplemented!() }
/// a slice has at most isize::MAX bytes
pub axiom fn ax_slice(b: &[u8]) ensures b@.len() <= isize::MAX;
pub axiom fn ax_vec(v: Vec<u8>) ensures v@.len() <= vcap(v) <= isize::MAX;
/// the bytes of a string
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }

//@ rewrite $x! . writer . out_buffer . capacity ( ) ==> capacity__(&$x.writer.out_buffer)
//@ rewrite & $b! [ $o .. ] ==> from__($b, $o)
//@ rewrite $x! . writer . out_buffer . extend ( $b ) ==> extend__(&mut $x.writer.out_buffer, $b)
//@ rewrite $x! . writer . out_buffer . extend_from_slice ( $b ) ==> extend__(&mut $x.writer.out_buffer, $b)
//@ rewrite $x! . writer . out_buffer . drain ( .. $n ) ==> drain_to__(&mut $x.writer.out_buffer, $n)

/// write(2): takes a part of what it is given, or nothing and an error
#[verifier::external_body]
pub fn write(fd: RawFd, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<usize, Errno>)
    ensures output_only(*old(w), *final(w)),
        r matches Ok(n) ==> n <= b@.len() && final(w).sent == old(w).sent.insert(fd, old(w).sent[fd] + b@.take(n as int)),
        r is Err ==> *final(w) == *old(w),
{ unimplemented!() }

/// ioctl(2): the only request there is
pub const TIOCGWINSZ: u64 = 0x5413;
//@ type src/unix/terminal.rs Winsize
#[verifier::external_body]
pub fn zeroed__() -> (r: Winsize) ensures r == (Winsize { ws_row: 0, ws_col: 0, ws_xpixel: 0, ws_ypixel: 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn ioctl(fd: c_int, req: u64, s: &mut Winsize, Tracked(w): Tracked<&mut World>) -> (r: c_int)
    ensures *final(w) == *old(w),
        r != -1 && req == TIOCGWINSZ ==> final(s).ws_row == old(w).win[fd].lines && final(s).ws_col == old(w).win[fd].columns,
{ unimplemented!() }
//@ rewrite TIOCGWINSZ . into ( ) ==> TIOCGWINSZ
//@ rewrite unsafe { zeroed ( ) } ==> zeroed__()
//@ rewrite io :: Error :: last_os_error ( ) ==> io::Error::last_os_error__()

// ---------------------------------------------------------------------------
// the types of /repo; a lock guard is what it guards
// ---------------------------------------------------------------------------
//@ rewrite MutexGuard < 'a , $t! > ==> $t
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { m: std::sync::Mutex<T> }
impl<T> Mutex<T> { pub uninterp spec fn inv(self) -> bool; }

//@ type src/terminal.rs Theme keep="Clone Copy PartialEq Eq"
//@ type src/terminal.rs CursorMode keep="Clone Copy PartialEq Eq" derive=Structural
//@ include seqmap.vrs
//@ type src/signal.rs SignalSet keep="Clone Copy PartialEq Eq" derive=Structural
//@ type src/terminal.rs PrepareConfig keep="Clone Copy"
//@ type src/unix/terminal.rs Resume keep="Clone Copy"
//@ type src/unix/terminal.rs MouseTracking keep="Clone Copy"
//@ type src/unix/terminal.rs Reader
//@ type src/unix/terminal.rs Writer
//@ type src/unix/terminal.rs Terminal
//@ type src/unix/terminal.rs TerminalWriteGuard
//@ type src/unix/terminal.rs TerminalReadGuard

// ---------------------------------------------------------------------------
// The device: what it shows after the bytes it has been sent
// ---------------------------------------------------------------------------
pub enum TCell { Shown(Cell), Cont, Garbage }
pub struct Dev {
    /// not inside a control sequence
    pub ground: bool,
    pub fg: Option<Color>, pub bg: Option<Color>, pub style: Style,
    pub lines: int, pub columns: int,
    /// the cursor; pending: the last column is written, the next character wraps
    pub line: int, pub column: int, pub pending: bool,
    pub cells: Seq<TCell>,
    pub visible: bool, pub keypad: bool, pub alt: bool,
    /// mouse reports: their form, of buttons and drags, of all motion
    pub sgr: bool, pub drag: bool, pub motion: bool,
}
pub uninterp spec fn dev(i: Database, env: int, b: Seq<u8>) -> Dev;
/// sizes are 16 bit
pub axiom fn ax_dev(i: Database, env: int, b: Seq<u8>)
    ensures ({ let d = dev(i, env, b);
        &&& 0 < d.lines <= 0xffff && 0 < d.columns <= 0xffff
        &&& 0 <= d.line < d.lines && 0 <= d.column < d.columns
        &&& d.cells.len() == d.lines * d.columns
    });
pub open spec fn color_of(n: int) -> Color {
    if n == 0 { Color::Black } else if n == 1 { Color::Red } else if n == 2 { Color::Green } else if n == 3 { Color::Yellow }
    else if n == 4 { Color::Blue } else if n == 5 { Color::Magenta } else if n == 6 { Color::Cyan } else { Color::White }
}
pub open spec fn no_attrs(d: Dev) -> bool { d.fg is None && d.bg is None && d.style == Style::s_empty() }
/// an erased cell; with attributes active it is up to the device
pub open spec fn erased(d: Dev) -> TCell { if no_attrs(d) { TCell::Shown(blank()) } else { TCell::Garbage } }
/// cells a..b erased; a wide character cut in half is lost
pub open spec fn erase(d: Dev, a: int, b: int) -> Seq<TCell> {
    Seq::new(d.cells.len(), |i: int| if a <= i < b { erased(d) } else if i + 1 == a && 0 <= a < d.cells.len() && d.cells[a] is Cont { TCell::Garbage }
        else if i == b && d.cells[i] is Cont { TCell::Garbage } else { d.cells[i] })
}
pub open spec fn here(d: Dev) -> int { d.line * d.columns + d.column }
pub open spec fn to_line(d: Dev, l: int) -> Dev { Dev { line: if l < 0 { 0 } else if l >= d.lines { d.lines - 1 } else { l }, pending: false, ..d } }
pub open spec fn to_column(d: Dev, c: int) -> Dev { Dev { column: if c < 0 { 0 } else if c >= d.columns { d.columns - 1 } else { c }, pending: false, ..d } }
/// what a device shows after it enters or leaves its second screen
pub uninterp spec fn switched(d: Dev, c: Cap) -> Seq<TCell>;
/// what terminfo says the capabilities do; None: nothing is known
pub open spec fn step_cap(d: Dev, c: Cap, p: Seq<int>) -> Dev {
    match c {
        Cap::ExitAttributeMode => Dev { fg: None, bg: None, style: Style::s_empty(), ..d },
        Cap::EnterBoldMode => Dev { style: d.style.s_union(Style::BOLD), ..d },
        Cap::EnterItalicsMode => Dev { style: d.style.s_union(Style::ITALIC), ..d },
        Cap::EnterReverseMode => Dev { style: d.style.s_union(Style::REVERSE), ..d },
        Cap::EnterUnderlineMode => Dev { style: d.style.s_union(Style::UNDERLINE), ..d },
        Cap::ExitItalicsMode => Dev { style: d.style.s_diff(Style::ITALIC), ..d },
        Cap::ExitUnderlineMode => Dev { style: d.style.s_diff(Style::UNDERLINE), ..d },
        Cap::SetAForeground => Dev { fg: Some(color_of(p[0])), ..d },
        Cap::SetABackground => Dev { bg: Some(color_of(p[0])), ..d },
        Cap::ClearScreen => Dev { cells: erase(d, 0, d.lines * d.columns), line: 0, column: 0, pending: false, ..d },
        Cap::ClrEol => Dev { cells: erase(d, here(d), d.line * d.columns + d.columns), pending: false, ..d },
        Cap::ClrEos => Dev { cells: erase(d, here(d), d.lines * d.columns), pending: false, ..d },
        Cap::CursorUp => to_line(d, d.line - 1),
        Cap::ParmUpCursor => to_line(d, d.line - p[0]),
        Cap::ParmDownCursor => to_line(d, d.line + p[0]),
        Cap::CursorLeft => to_column(d, d.column - 1),
        Cap::ParmLeftCursor => to_column(d, d.column - p[0]),
        Cap::CursorRight => to_column(d, d.column + 1),
        Cap::ParmRightCursor => to_column(d, d.column + p[0]),
        Cap::CursorHome => to_column(to_line(d, 0), 0),
        Cap::CursorAddress => to_column(to_line(d, p[0]), p[1]),
        Cap::ColumnAddress => to_column(d, p[0]),
        Cap::RowAddress => to_line(d, p[0]),
        Cap::CarriageReturn => to_column(d, 0),
        Cap::CursorNormal => Dev { visible: true, ..d },
        Cap::CursorInvisible => Dev { visible: false, ..d },
        Cap::KeypadXmit => Dev { keypad: true, ..d },
        Cap::KeypadLocal => Dev { keypad: false, ..d },
        Cap::EnterCaMode => Dev { alt: true, cells: switched(d, c), ..d },
        Cap::ExitCaMode => Dev { alt: false, cells: switched(d, c), ..d },
        // leaves the cursor at the beginning
        Cap::ChangeScrollRegion => to_column(to_line(d, 0), 0),
        _ => arbitrary(),
    }
}
/// the parameters a terminal can take: signed, and may be incremented
pub open spec fn params_ok(c: Cap, p: Seq<int>) -> bool {
    &&& forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < 0x7fff_ffff
    &&& match c {
        Cap::ParmUpCursor | Cap::ParmDownCursor | Cap::ParmLeftCursor | Cap::ParmRightCursor => p.len() == 1 && p[0] > 0,
        Cap::SetAForeground | Cap::SetABackground => p.len() == 1 && p[0] < 8,
        Cap::ColumnAddress | Cap::RowAddress => p.len() == 1,
        Cap::CursorAddress | Cap::ChangeScrollRegion => p.len() == 2,
        _ => p.len() == 0,
    }
}
/// what a key sends
pub open spec fn key_cap(c: Cap) -> bool {
    c is KeyUp || c is KeyDown || c is KeyLeft || c is KeyRight || c is KeyHome || c is KeyEnd || c is KeyNPage || c is KeyPPage || c is KeyDc || c is KeyIc || c is KeyF1 || c is KeyF2 || c is KeyF3 || c is KeyF4
        || c is KeyF5 || c is KeyF6 || c is KeyF7 || c is KeyF8 || c is KeyF9 || c is KeyF10 || c is KeyF11 || c is KeyF12 || c is KeyBackspace || c is KeyBTab || c is KeyEnter || c is KeyClear
}
pub open spec fn meant(c: Cap) -> bool {
    !(c is EnterStandoutMode || c is ExitStandoutMode || c is EnterDimMode || c is EnterBlinkMode || c is SetForeground || c is SetBackground || c is OrigPair
        || c is ClrBol || c is CursorDown || key_cap(c) || c is CursorVisible || c is SaveCursor || c is RestoreCursor)
}
/// every capability the entry has can be expanded
pub open spec fn sane(i: Database) -> bool { forall|c: Cap, p: Seq<int>| i.knows(c) && params_ok(c, p) && meant(c) ==> #[trigger] expands(i, c, p) }
pub axiom fn ax_cap(i: Database, env: int, b: Seq<u8>, c: Cap, p: Seq<int>)
    requires dev(i, env, b).ground, params_ok(c, p), meant(c)
    ensures dev(i, env, b + capb(i, c, p)) == step_cap(dev(i, env, b), c, p);
/// xterm has one kind of mouse tracking at a time; others can have several
pub uninterp spec fn exclusive(i: Database) -> bool;
pub uninterp spec fn other_mode(d: Dev, n: int, on: bool) -> Dev;
pub open spec fn step_mode(i: Database, d: Dev, n: int, on: bool) -> Dev {
    let e = exclusive(i);
    if n == 1006 { Dev { sgr: on, ..d } }
    else if n == 1002 { Dev { drag: on, motion: if e { false } else { d.motion }, ..d } }
    else if n == 1003 { Dev { motion: on, drag: if e { false } else { d.drag }, ..d } }
    else { other_mode(d, n, on) }
}
pub open spec fn dec(c: char) -> bool { '0' <= c && c <= '9' }
/// ESC [ ? n h  or  ESC [ ? n l  with n of four digits
pub open spec fn sets_mode(s: Seq<char>) -> bool {
    s.len() == 8 && s[0] == '\x1b' && s[1] == '[' && s[2] == '?' && dec(s[3]) && dec(s[4]) && dec(s[5]) && dec(s[6]) && (s[7] == 'h' || s[7] == 'l')
}
pub open spec fn mode_of(s: Seq<char>) -> int { (s[3] as int - 48) * 1000 + (s[4] as int - 48) * 100 + (s[5] as int - 48) * 10 + (s[6] as int - 48) }
pub axiom fn ax_mode(i: Database, env: int, b: Seq<u8>, s: Seq<char>)
    requires dev(i, env, b).ground, sets_mode(s)
    ensures dev(i, env, b + utf8(s)) == step_mode(i, dev(i, env, b), mode_of(s), s[7] == 'h'), dev(i, env, b + utf8(s)).ground;
/// text without control characters, but for those that move the cursor
pub open spec fn plain(t: Seq<char>) -> bool { forall|k: int| 0 <= k < t.len() ==> ((#[trigger] t[k] as u32) >= 32 || 8 <= t[k] as u32 <= 13) && !(127 <= (t[k] as u32) && (t[k] as u32) < 160) }
pub axiom fn ax_plain(i: Database, env: int, b: Seq<u8>, t: Seq<char>)
    requires dev(i, env, b).ground, plain(t)
    ensures ({ let d0 = dev(i, env, b); let d1 = dev(i, env, b + utf8(t));
        d1 == (Dev { line: d1.line, column: d1.column, pending: d1.pending, cells: d1.cells, ..d0 }) });
/// one character and its combining marks, where there is room for it
pub open spec fn printed(d: Dev, t: Seq<char>) -> Dev {
    let k = here(d); let n = cw(t[0]);
    Dev {
        column: if d.column + n >= d.columns { d.columns - 1 } else { d.column + n }, pending: d.column + n >= d.columns,
        cells: Seq::new(d.cells.len(), |i: int| if i == k { TCell::Shown(mk(d.fg, d.bg, d.style, t)) } else if i == k + 1 && n == 2 { TCell::Cont }
            // half of a wide character is left
            else if i + 1 == k && d.cells[k] is Cont && (d.cells[i] matches TCell::Shown(c) && wide(c)) { TCell::Garbage }
            else if i == k + n && d.cells[i] is Cont { TCell::Garbage } else { d.cells[i] }),
        ..d
    }
}
pub axiom fn ax_print(i: Database, env: int, b: Seq<u8>, t: Seq<char>)
    requires dev(i, env, b).ground, !dev(i, env, b).pending, text_ok(t), dev(i, env, b).column + cw(t[0]) <= dev(i, env, b).columns
    ensures dev(i, env, b + utf8(t)) == printed(dev(i, env, b), t);
pub axiom fn ax_cr(i: Database, env: int, b: Seq<u8>)
    requires dev(i, env, b).ground
    ensures dev(i, env, b.push(13u8)) == to_column(dev(i, env, b), 0);

} // verus!
