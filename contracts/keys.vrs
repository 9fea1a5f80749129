//@ include common.vrs
//@ include cell.vrs
verus! {
//@ type src/terminal.rs Key derive=Structural
//@ type src/terminal.rs MouseButton derive=Structural
//@ type src/terminal.rs MouseInput derive=Structural
}
//@ use signal.vrs
//@ include io.vrs
//@ use events.vrs mod=events names="SeqData,SeqMap,SmallString as KeyString,SequenceMap" opaque=wf,sorted
//@ included seqmap.vrs
//@ include termbase.vrs
verus! {
//@ const src/unix/terminal.rs XTERM_MOUSE_INTRO chars=1
/// name of xterm, or of one of its kind
pub open spec fn xterm_name(n: Seq<char>) -> bool {
    n == seq!['x', 't', 'e', 'r', 'm'] || n.len() >= 6 && n.take(6) == seq!['x', 't', 'e', 'r', 'm', '-']
}
#[verifier::external_body]
pub fn eq_str__(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn starts_with__(a: &str, b: &str) -> (r: bool) ensures r == (a@.len() >= b@.len() && a@.take(b@.len() as int) == b@) { unimplemented!() }
//@ fn src/unix/terminal.rs is_xterm params="name"
    ensures r == xterm_name(name@),
//@ rewrite name == $s! ==> eq_str__(name, $s)
//@ rewrite name . starts_with ( $s! ) ==> starts_with__(name, $s)
//@ start
    proof { reveal_strlit("xterm"); reveal_strlit("xterm-"); assert("xterm"@ =~= seq!['x', 't', 'e', 'r', 'm']); assert("xterm-"@ =~= seq!['x', 't', 'e', 'r', 'm', '-']); }
//@ end

/// the bytes of a capability that takes no parameters
pub uninterp spec fn capstr(i: Database, c: Cap) -> Seq<u8>;
impl CapV {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == capstr(self.db(), self.cap()) { unimplemented!() }
}
pub open spec fn ascii(b: Seq<u8>) -> bool { forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] < 128 }
pub open spec fn text(b: Seq<u8>) -> Seq<char> { vstd::utf8::decode_utf8(b) }
#[verifier::external_body]
pub fn is_ascii__(b: &[u8]) -> (r: bool) ensures r == ascii(b@) { unimplemented!() }
#[verifier::external_body]
pub unsafe fn from_utf8_unchecked(b: &[u8]) -> (r: &str) requires ascii(b@) ensures r@ == text(b@) { unimplemented!() }
#[verifier::external_body]
pub fn small__(s: &str) -> (r: KeyString) ensures r@ == s@ { unimplemented!() }
//@ rewrite use std :: str :: from_utf8_unchecked ; ==> 
//@ rewrite $s! . is_ascii ( ) ==> is_ascii__($s)
//@ fn src/unix/terminal.rs ascii_str params="s"
    ensures r is Some <==> ascii(s@), r matches Some(t) ==> t@ == text(s@),
//@ end

/// the key that a capability is the sequence of
pub open spec fn key_of_cap(c: Cap) -> Option<Key> {
    match c {
        Cap::KeyUp => Some(Key::Up), Cap::KeyDown => Some(Key::Down), Cap::KeyLeft => Some(Key::Left), Cap::KeyRight => Some(Key::Right),
        Cap::KeyHome => Some(Key::Home), Cap::KeyEnd => Some(Key::End), Cap::KeyNPage => Some(Key::PageDown), Cap::KeyPPage => Some(Key::PageUp),
        Cap::KeyDc => Some(Key::Delete), Cap::KeyIc => Some(Key::Insert),
        Cap::KeyF1 => Some(Key::F(1)), Cap::KeyF2 => Some(Key::F(2)), Cap::KeyF3 => Some(Key::F(3)), Cap::KeyF4 => Some(Key::F(4)), Cap::KeyF5 => Some(Key::F(5)), Cap::KeyF6 => Some(Key::F(6)),
        Cap::KeyF7 => Some(Key::F(7)), Cap::KeyF8 => Some(Key::F(8)), Cap::KeyF9 => Some(Key::F(9)), Cap::KeyF10 => Some(Key::F(10)), Cap::KeyF11 => Some(Key::F(11)), Cap::KeyF12 => Some(Key::F(12)),
        _ => None,
    }
}
/// the entry says that t is the sequence of c
pub open spec fn said(i: Database, c: Cap, t: Seq<char>) -> bool { i.knows(c) && ascii(capstr(i, c)) && text(capstr(i, c)) == t }
pub open spec fn intro() -> Seq<char> { seq!['\x1b', '[', '<'] }
/// the map has the sequences of these capabilities
#[verifier::opaque]
pub open spec fn has_caps(m: SeqMap, i: Database, done: Set<Cap>) -> bool {
    forall|t: Seq<char>| match #[trigger] m.val(t) {
        Some(SeqData::Key(k)) => exists|c: Cap| #[trigger] said(i, c, t) && done.contains(c) && key_of_cap(c) == Some(k),
        Some(SeqData::XTermMouse) => false,
        None => forall|c: Cap| done.contains(c) ==> !#[trigger] said(i, c, t),
    }
}
#[verifier::opaque]
pub open spec fn puts(a: SeqMap, b: SeqMap, t: Seq<char>, d: SeqData) -> bool { b.val(t) == Some(d) && forall|u: Seq<char>| u != t ==> #[trigger] b.val(u) == a.val(u) }
/// insert, with the text made a key
pub fn put__(m: &mut SeqMap, s: &str, d: SeqData)
    requires old(m).wf()
    ensures final(m).wf(), puts(*old(m), *final(m), s@, d)
{ proof { reveal(puts); } let _ = m.insert(small__(s), d); }
pub open spec fn added(a: SeqMap, b: SeqMap, i: Database, c: Cap) -> bool {
    if i.knows(c) && ascii(capstr(i, c)) {
        key_of_cap(c) matches Some(k) && puts(a, b, text(capstr(i, c)), SeqData::Key(k))
    } else { a == b }
}
pub proof fn lemma_add(a: SeqMap, b: SeqMap, i: Database, c: Cap, done: Set<Cap>)
    requires has_caps(a, i, done), added(a, b, i, c)
    ensures has_caps(b, i, done.insert(c))
{
    reveal(has_caps); reveal(puts);
    assert forall|t: Seq<char>| match #[trigger] b.val(t) {
        Some(SeqData::Key(k)) => exists|c2: Cap| #[trigger] said(i, c2, t) && done.insert(c).contains(c2) && key_of_cap(c2) == Some(k),
        Some(SeqData::XTermMouse) => false,
        None => forall|c2: Cap| done.insert(c).contains(c2) ==> !#[trigger] said(i, c2, t),
    } by {
        if said(i, c, t) { } else {
            assert(b.val(t) == a.val(t));
            if let Some(SeqData::Key(k)) = a.val(t) { let c2 = choose|c2: Cap| #[trigger] said(i, c2, t) && done.contains(c2) && key_of_cap(c2) == Some(k); assert(done.insert(c).contains(c2)); }
        }
    }
}
/// it has the keys' sequences, and no others are keys
#[verifier::opaque]
pub open spec fn keyed(r: SeqMap, i: Database) -> bool {
    &&& forall|t: Seq<char>| (#[trigger] r.val(t) matches Some(SeqData::Key(k)) ==> exists|c: Cap| #[trigger] said(i, c, t) && key_of_cap(c) == Some(k))
    &&& forall|t: Seq<char>, c: Cap| #[trigger] said(i, c, t) && key_of_cap(c) is Some ==> #[trigger] r.val(t) is Some
}
/// and what begins the report of a mouse, where there is one
#[verifier::opaque]
pub open spec fn moused(r: SeqMap, i: Database) -> bool { forall|t: Seq<char>| #[trigger] r.val(t) == Some(SeqData::XTermMouse) <==> t == intro() && xterm_name(i.s_name()) }
pub open spec fn every(done: Set<Cap>) -> bool { forall|c: Cap| key_of_cap(c) is Some ==> #[trigger] done.contains(c) }
pub proof fn lemma_done(m: SeqMap, i: Database, done: Set<Cap>)
    requires has_caps(m, i, done)
    ensures every(done) ==> keyed(m, i), !xterm_name(i.s_name()) ==> moused(m, i),
        every(done) ==> forall|b: SeqMap| #[trigger] puts(m, b, intro(), SeqData::XTermMouse) ==> keyed(b, i),
        xterm_name(i.s_name()) ==> forall|b: SeqMap| #[trigger] puts(m, b, intro(), SeqData::XTermMouse) ==> moused(b, i),
{ reveal(has_caps); reveal(puts); reveal(keyed); reveal(moused); }
//@ rewrite info . get :: < cap :: $c! > ( ) ==> info.get__(Cap::$c)
/// what is done for one key, in a function of its own: the text is that of the rule below
pub fn add__(info: &Database, sequences: &mut SeqMap, c: Cap, d: SeqData, Ghost(done): Ghost<Set<Cap>>)
    requires old(sequences).wf(), has_caps(*old(sequences), *info, done), key_of_cap(c) is Some, d == SeqData::Key(key_of_cap(c)->0)
    ensures final(sequences).wf(), has_caps(*final(sequences), *info, done.insert(c))
{
    if let Some(seq) = info.get__(c) { if let Some(s) = ascii_str(seq.as_ref()) { sequences.insert(small__(s), d); } }
    proof { assert(added(*old(sequences), *sequences, *info, c)) by { reveal(puts); } lemma_add(*old(sequences), *sequences, *info, c, done); }
}
//@ fn src/unix/terminal.rs sequences params="info"
    ensures r.wf(),
        keyed(r, *info), // [C09]
        moused(r, *info), // [C10]
//@ rewrite macro_rules ! add $b! ==> 
//@ rewrite if let Some ( seq ) = info . get__ ( $c ) { if let Some ( s ) = ascii_str ( seq . as_ref ( ) ) { sequences . insert ( s . into ( ) , $d ) ; } } ==> add__(info, &mut sequences, $c, $d, Ghost(done__)); proof { done__ = done__.insert($c); }
//@ rewrite sequences . insert ( $s! . into ( ) , $d ) ==> put__(&mut sequences, $s, $d)
//@ start
    let ghost mut done__ = Set::<Cap>::empty();
    proof { lit_XTERM_MOUSE_INTRO(); assert(XTERM_MOUSE_INTRO@ =~= intro()); }
//@ hint after let mut sequences = $e ;
    proof { assert(has_caps(sequences, *info, done__)) by { reveal(has_caps); } }
//@ hint before if is_xterm ( $e )
    proof { assert(every(done__)); lemma_done(sequences, *info, done__); }
//@ end

// ---------------------------------------------------------------------------
// a terminal to begin with
// ---------------------------------------------------------------------------
impl<T> Mutex<T> {
    pub uninterp spec fn first(self) -> T;
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Mutex<T>) ensures r.first() == v { unimplemented!() }
}
#[verifier::external_body]
pub fn entry__() -> io::Result<Database> { unimplemented!() }
//@ rewrite Database :: from_env ( ) . map_err ( ti_to_io ) ==> entry__()
#[verifier::external_body]
pub fn context__() -> Context { unimplemented!() }
//@ rewrite Context :: default ( ) ==> context__()
//@ const src/unix/terminal.rs OUT_BUFFER_SIZE
//@ fn src/unix/terminal.rs Writer::new
    ensures r.out_buffer@.len() == 0, r.fg is None, r.bg is None, r.cur_style == Style::s_empty(), // [C07 C08]
//@ end
//@ fn src/unix/terminal.rs Terminal::new params="in_fd out_fd owned_fd"
    ensures r matches Ok(t) ==> {
        &&& t.in_fd == in_fd && t.out_fd == out_fd && t.sequences.wf()
        &&& keyed(t.sequences, t.info) // [C09]
        &&& moused(t.sequences, t.info) // [C10]
        // nothing is prepared, believed or waiting
        &&& t.reader.first().in_buffer@.len() == 0 && t.reader.first().resume is None && !t.reader.first().keypad && t.reader.first().mouse is None // [C18 C19]
        &&& forall|s: Signal| !#[trigger] t.reader.first().report_signals.has(s) // [C21]
        &&& t.writer.first().out_buffer@.len() == 0 && t.writer.first().fg is None && t.writer.first().bg is None && t.writer.first().cur_style == Style::s_empty() // [C07 C08]
    },
//@ end
} // verus!
fn main() {}
