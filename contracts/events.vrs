use vstd::prelude::*;
use vstd::utf8::*;

verus! {

//@ type src/terminal.rs Key derive=Structural
//@ type src/signal.rs Signal derive=Structural
//@ type src/terminal.rs Cursor derive=Structural
//@ type src/terminal.rs Size derive=Structural
//@ type src/terminal.rs MouseButton derive=Structural
//@ type src/terminal.rs MouseInput derive=Structural
//@ use mouse.vrs mod=mouse names="ModifierState,MouseEvent,report,says,parse_mouse_data"
//@ use seq.vrs mod=seq names="StrKey,SequenceMap,FindResult,val,key,sorted,holds,pre,longer,at,lemma_val,lt_irrefl"
//@ use util.vrs mod=util names="key_of,prefixes,Prefixes"
//@ type src/terminal.rs Event keep="Clone Copy"
//@ type src/unix/terminal.rs SeqData

} // verus!
//@ include io.vrs
verus! {

/// smallstr
#[verifier::external_body]
pub struct SmallString { s: String }
impl SmallString { pub uninterp spec fn view(&self) -> Seq<char>; }
impl StrKey for SmallString {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() }
}
//@ rewrite SmallString < [ u8 ; 8 ] > ==> SmallString
//@ type src/unix/terminal.rs SeqMap

// ---------------------------------------------------------------------------
// std: the valid beginning of some bytes
// ---------------------------------------------------------------------------
#[verifier::external_body]
pub struct Utf8Error { e: std::str::Utf8Error }
/// the longest beginning that is valid UTF-8
pub open spec fn is_up(b: Seq<u8>, n: int) -> bool {
    0 <= n <= b.len() && valid_utf8(b.take(n)) && forall|m: int| n < m <= b.len() ==> !valid_utf8(#[trigger] b.take(m))
}
/// more bytes can make it valid
pub open spec fn incomplete(b: Seq<u8>) -> bool { exists|c: Seq<u8>| valid_utf8(b + c) }
/// how much of what begins b is invalid, if it is
pub uninterp spec fn bad_len(b: Seq<u8>) -> int;
impl Utf8Error {
    pub uninterp spec fn of(self) -> Seq<u8>;
    pub uninterp spec fn up(self) -> int;
    #[verifier::external_body]
    pub fn valid_up_to(&self) -> (r: usize) ensures r == self.up() { unimplemented!() }
    #[verifier::external_body]
    pub fn error_len(&self) -> (r: Option<usize>)
        ensures r is None <==> incomplete(self.of().skip(self.up())), r matches Some(n) ==> n == bad_len(self.of().skip(self.up())),
            r matches Some(n) ==> 1 <= n <= 3 && self.up() + n <= self.of().len() { unimplemented!() }
}
#[verifier::external_body]
pub fn from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
    ensures r is Ok <==> valid_utf8(b@), r matches Ok(s) ==> s@ == decode_utf8(b@) && encode_utf8(s@) == b@,
        r matches Err(e) ==> e.of() == b@ && is_up(b@, e.up()) && e.up() < b@.len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn unreach__<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn from__<'a>(b: &'a [u8], n: usize) -> (r: &'a [u8]) requires n <= b@.len() ensures r@ == b@.skip(n as int), b@.len() <= isize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn to__<'a>(b: &'a [u8], n: usize) -> (r: &'a [u8]) requires n <= b@.len() ensures r@ == b@.take(n as int) { unimplemented!() }
pub trait Len__ { spec fn n__(&self) -> int; fn len__(&self) -> (r: usize) ensures r == self.n__(), r <= isize::MAX; fn is_empty__(&self) -> (r: bool) ensures r == (self.n__() == 0); }
impl Len__ for str {
    open spec fn n__(&self) -> int { encode_utf8(self@).len() as int }
    #[verifier::external_body]
    fn len__(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty__(&self) -> (r: bool) { unimplemented!() }
}
impl Len__ for [u8] {
    open spec fn n__(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn len__(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty__(&self) -> (r: bool) { unimplemented!() }
}
//@ rewrite & $b! [ $o .. ] ==> from__($b, $o)
//@ rewrite & $b! [ .. $o ] ==> to__($b, $o)
//@ rewrite $x! . len ( ) ==> $x.len__()
//@ rewrite $x! . is_empty ( ) ==> $x.is_empty__()
//@ rewrite from_utf8 ( $x ) . map_err ( | _ | unreachable ! ( ) ) ==> (match from_utf8($x) { Ok(s__) => Ok(s__), Err(_) => Ok(unreach__()) })
//@ rewrite Err ( ref $x! ) ==> Err($x)
//@ rewrite for $p! in prefixes ( $s ) $b! ==> let mut pi__ = prefixes($s); while let Some($p) = pi__.next() $b
//@ rewrite $x! . and_then ( | ( $a , $b ) | $body ) ==> (match $x { Some(($a, $b)) => $body, None => None })
//@ rewrite $c! . into ( ) ==> Key::from($c)

//@ fn src/unix/terminal.rs utf8_prefix params="buf"
    ensures exists|n: int| #[trigger] is_up(buf@, n) && (
        if n > 0 { r matches Ok(s) && encode_utf8(s@) == buf@.take(n) && s@ == decode_utf8(buf@.take(n)) }
        else if buf@.len() == 0 || incomplete(buf@) { r matches Ok(s) && s@.len() == 0 && encode_utf8(s@).len() == 0 }
        else { r is Err }),
//@ start
    proof { lemma_up(buf@); }
//@ end
pub proof fn lemma_up(b: Seq<u8>)
    ensures b.skip(0) == b, b.take(b.len() as int) == b, valid_utf8(b) ==> is_up(b, b.len() as int), valid_utf8(Seq::<u8>::empty()),
        encode_utf8(Seq::<char>::empty()).len() == 0, ""@.len() == 0,
        forall|s: Seq<char>| s.len() == 0 ==> (#[trigger] encode_utf8(s)).len() == 0,
        forall|s: Seq<char>| s.len() > 0 ==> (#[trigger] encode_utf8(s)).len() > 0,
        forall|n: int, m: int| #[trigger] is_up(b, n) && #[trigger] is_up(b, m) ==> n == m,
{
    assert(b.skip(0) =~= b);
    assert(b.take(b.len() as int) =~= b);
    reveal_strlit("");
    reveal_with_fuel(encode_utf8, 2);
    encode_utf8_valid_utf8(Seq::<char>::empty());
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
}

//@ fn src/unix/terminal.rs invalid_prefix_len params="buf"
    ensures buf@.len() > 0 && is_up(buf@, 0) && !incomplete(buf@) ==> r == bad_len(buf@) && 1 <= r <= buf@.len(),
        !(buf@.len() > 0 && is_up(buf@, 0) && !incomplete(buf@)) ==> r == 0,
//@ start
    proof { lemma_up(buf@); }
//@ end

/// the longest beginning of t, other than the empty one, that the map holds has n characters; 0 if there is none
pub open spec fn longest(m: SeqMap, t: Seq<char>, n: int) -> bool {
    0 <= n <= t.len() && (n > 0 ==> m.val(t.take(n)) is Some) && forall|j: int| n < j <= t.len() ==> m.val(#[trigger] t.take(j)) is None
}
/// the key of the first character
pub open spec fn plain_key(t: Seq<char>, e: Event, c: int) -> bool { e == Event::Key(key_of(t[0])) && c == encode_utf8(t.take(1)).len() }
/// the event that `b` begins with, t being what is text in b, and the bytes that it takes
pub open spec fn decodes(m: SeqMap, b: Seq<u8>, t: Seq<char>, e: Event, c: int) -> bool {
    exists|n: int| #[trigger] longest(m, t, n) && {
        let len = encode_utf8(t.take(n)).len() as int;
        if n == 0 { plain_key(t, e, c) }
        else { match m.val(t.take(n)) {
            Some(SeqData::Key(k)) => e == Event::Key(k) && c == len,
            Some(SeqData::XTermMouse) => match report(b.skip(len)) {
                Some((x, co, li, down, l)) => e matches Event::Mouse(v) && says(v, x, co, li, down) && c == len + l,
                None => plain_key(t, e, c) },
            None => false,
        } }
    }
}
pub open spec fn event_at(m: SeqMap, b: Seq<u8>, e: Event, c: int) -> bool {
    exists|n: int| #[trigger] is_up(b, n) && n > 0 && decodes(m, b, decode_utf8(b.take(n)), e, c) && 0 < c <= b.len()
}
/// nothing but the beginning of a character
pub open spec fn waits(b: Seq<u8>) -> bool { is_up(b, 0) && (b.len() == 0 || incomplete(b)) }
/// not text
pub open spec fn broken(b: Seq<u8>) -> bool { is_up(b, 0) && b.len() > 0 && !incomplete(b) }

//@ rewrite $s! . chars ( ) . next ( ) . unwrap ( ) ==> first__($s)
//@ rewrite $c! . len_utf8 ( ) ==> len_utf8__($c)
#[verifier::external_body]
pub fn first__(s: &str) -> (r: char) requires s@.len() > 0 ensures r == s@[0] { unimplemented!() }
#[verifier::external_body]
pub fn len_utf8__(c: char) -> (r: usize) ensures r == encode_utf8(seq![c]).len() { unimplemented!() }

/// encodings of beginnings are beginnings
pub proof fn lemma_enc(t: Seq<char>)
    ensures forall|n: int| 0 <= n <= t.len() ==> (#[trigger] encode_utf8(t.take(n))).len() <= encode_utf8(t).len() && encode_utf8(t.take(n)) == encode_utf8(t).take(encode_utf8(t.take(n)).len() as int),
        forall|n: int| 0 < n <= t.len() ==> (#[trigger] encode_utf8(t.take(n))).len() > 0,
        t.len() > 0 ==> seq![t[0]] == t.take(1),
{
    assert forall|n: int| 0 <= n <= t.len() implies (#[trigger] encode_utf8(t.take(n))).len() <= encode_utf8(t).len() && encode_utf8(t.take(n)) == encode_utf8(t).take(encode_utf8(t.take(n)).len() as int) by {
        encode_utf8_concat(t.take(n), t.skip(n));
        assert(t.take(n) + t.skip(n) =~= t);
        assert(encode_utf8(t).take(encode_utf8(t.take(n)).len() as int) =~= encode_utf8(t.take(n)));
    }
    assert forall|n: int| 0 < n <= t.len() implies (#[trigger] encode_utf8(t.take(n))).len() > 0 by { lemma_up(Seq::<u8>::empty()); assert(t.take(n).len() > 0); }
    if t.len() > 0 { assert(t.take(1) =~= seq![t[0]]); }
}
/// no longer key begins with k, so the map has no value for anything that does
pub proof fn lemma_stop(m: SeqMap, t: Seq<char>, i: int)
    requires 0 <= i <= t.len(), !longer(m.sequences@, t.take(i)), m.wf()
    ensures forall|j: int| i < j <= t.len() ==> m.val(#[trigger] t.take(j)) is None
{
    assert forall|j: int| i < j <= t.len() implies m.val(#[trigger] t.take(j)) is None by {
        if m.val(t.take(j)) is Some {
            let x = choose|x: int| at(m.sequences@, t.take(j), x);
            assert(t.take(j).take(i) =~= t.take(i));
            assert(key(m.sequences@, x).len() == j);
        }
    }
}

//@ fn src/unix/terminal.rs peek_event params="buf sequences"
    requires sequences.wf()
    ensures r is Err <==> broken(buf@), // [C09]
        r matches Ok(None) ==> waits(buf@), // [C09]
        r matches Ok(Some((e, c))) ==> event_at(*sequences, buf@, e, c as int), // [C09 C10]
//@ rewrite let mut last_match = None ; ==> let mut last_match: Option<(&str, SeqData)> = None;
//@ start
    let ghost up = choose|n: int| #[trigger] is_up(buf@, n);
    proof { lemma_up(buf@); lemma_enc(decode_utf8(buf@.take(up))); }
//@ loop 0 kind=while
    invariant
        pi__.wf(), pi__.s@ == s@, s@.len() > 0, sequences.wf(), 0 <= pi__.iter.at() <= s@.len(),
        last_match is None ==> forall|j: int| 0 < j <= pi__.iter.at() ==> sequences.val(#[trigger] s@.take(j)) is None,
        last_match matches Some((p, v)) ==> 0 < p@.len() <= pi__.iter.at() && p@ == s@.take(p@.len() as int) && sequences.val(p@) == Some(v)
            && forall|j: int| p@.len() < j <= pi__.iter.at() ==> sequences.val(#[trigger] s@.take(j)) is None,
    ensures
        last_match is None ==> longest(*sequences, s@, 0),
        last_match matches Some((p, v)) ==> 0 < p@.len() && p@ == s@.take(p@.len() as int) && sequences.val(p@) == Some(v) && longest(*sequences, s@, p@.len() as int),
    decreases s@.len() - pi__.iter.at(),
//@ loopbody 0
            proof {
                assert(pfx@ == s@.take(pi__.iter.at()));
                if !longer(sequences.sequences@, pfx@) { lemma_stop(*sequences, s@, pi__.iter.at()); }
            }
//@ end
} // verus!
fn main() {}
