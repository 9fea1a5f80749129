use vstd::prelude::*;

verus! {

//@ const src/unix/terminal.rs XTERM_SHIFT_MASK
//@ const src/unix/terminal.rs XTERM_META_MASK
//@ const src/unix/terminal.rs XTERM_CTRL_MASK
//@ const src/unix/terminal.rs XTERM_MODIFIER_MASK

//@ type src/terminal.rs Cursor derive=Structural
//@ type src/terminal.rs MouseButton derive=Structural
//@ type src/terminal.rs MouseInput derive=Structural
//@ type src/terminal.rs MouseEvent

/// bitflags: the three modifier flags
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct ModifierState { pub alt: bool, pub ctrl: bool, pub shift: bool }
impl ModifierState {
    pub const ALT: ModifierState = ModifierState { alt: true, ctrl: false, shift: false };
    pub const CTRL: ModifierState = ModifierState { alt: false, ctrl: true, shift: false };
    pub const SHIFT: ModifierState = ModifierState { alt: false, ctrl: false, shift: true };
    #[verifier::external_body]
    pub fn empty() -> (r: ModifierState) ensures r == (ModifierState { alt: false, ctrl: false, shift: false }) { unimplemented!() }
    #[verifier::external_body]
    pub fn union(self, o: ModifierState) -> (r: ModifierState)
        ensures r == (ModifierState { alt: self.alt || o.alt, ctrl: self.ctrl || o.ctrl, shift: self.shift || o.shift }) { unimplemented!() }
}
impl ModifierState {
    pub open spec fn s_union(self, o: ModifierState) -> ModifierState { ModifierState { alt: self.alt || o.alt, ctrl: self.ctrl || o.ctrl, shift: self.shift || o.shift } }
}
impl vstd::std_specs::ops::BitOrSpecImpl for ModifierState {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: ModifierState) -> bool { true }
    open spec fn bitor_spec(self, o: ModifierState) -> ModifierState { self.s_union(o) }
}
impl std::ops::BitOr for ModifierState { type Output = ModifierState; #[verifier::external_body] fn bitor(self, o: ModifierState) -> (r: ModifierState) { unimplemented!() } }
impl vstd::std_specs::ops::BitOrAssignSpecImpl for ModifierState {
    open spec fn obeys_bitor_assign_spec() -> bool { true }
    open spec fn bitor_assign_req(&self, o: ModifierState) -> bool { true }
    open spec fn bitor_assign_spec(&self, o: ModifierState) -> &ModifierState { &self.s_union(o) }
}
impl std::ops::BitOrAssign for ModifierState { #[verifier::external_body] fn bitor_assign(&mut self, o: ModifierState) { unimplemented!() } }

/// std: slice::Iter
#[verifier::external_body]
pub struct SliceIter<'a> { i: std::slice::Iter<'a, u8> }
impl<'a> SliceIter<'a> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a u8>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(&old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    /// `Some(&b) = next()`
    #[verifier::external_body]
    pub fn next_copied(&mut self) -> (r: Option<u8>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &'a [u8]) ensures r@ == self.rest() { unimplemented!() }
}
#[verifier::external_body]
pub fn iter__<'a>(b: &'a [u8]) -> (r: SliceIter<'a>) ensures r.rest() == b@, b@.len() <= isize::MAX { unimplemented!() }
//@ rewrite while let Some ( & $b! ) = $i! . next ( ) ==> while let Some($b) = $i.next_copied()
//@ rewrite $b! . iter ( ) ==> iter__($b)

// ---------------------------------------------------------------------------
// xterm's SGR mouse report, after its introduction: number ; column ; line M|m
// ---------------------------------------------------------------------------
pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
/// digits at the beginning
pub open spec fn digits(s: Seq<u8>) -> nat decreases s.len() { if s.len() > 0 && digit(s[0]) { 1 + digits(s.skip(1)) } else { 0 } }
pub open spec fn value(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { value(s.drop_last()) * 10 + (s.last() - 48) } }
/// a number and the byte that ends it: (value, length with the end)
pub open spec fn number(s: Seq<u8>) -> Option<(int, int)> {
    let d = digits(s) as int;
    if 0 < d < s.len() && value(s.take(d)) <= u32::MAX { Some((value(s.take(d)), d + 1)) } else { None }
}
pub proof fn lemma_digits(s: Seq<u8>)
    ensures digits(s) <= s.len(), forall|i: int| 0 <= i < digits(s) ==> digit(#[trigger] s[i]), digits(s) < s.len() ==> !digit(s[digits(s) as int]),
    decreases s.len()
{
    if s.len() > 0 && digit(s[0]) {
        lemma_digits(s.skip(1));
        assert forall|i: int| 0 <= i < digits(s) implies digit(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        if digits(s) < s.len() { assert(s.skip(1)[digits(s) - 1] == s[digits(s) as int]); }
    }
}
pub proof fn lemma_run(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> digit(#[trigger] s[i])
    ensures n <= digits(s), n < s.len() && !digit(s[n]) ==> digits(s) == n, n == s.len() ==> digits(s) == n
{
    lemma_digits(s);
    if n > digits(s) { assert(digit(s[digits(s) as int])); }
}
pub proof fn lemma_value(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|i: int| 0 <= i < b ==> digit(#[trigger] s[i])
    ensures 0 <= value(s.take(a)) <= value(s.take(b))
    decreases b
{
    if b > 0 {
        assert(s.take(b).drop_last() =~= s.take(b - 1));
        assert(s.take(b).last() == s[b - 1]);
        if a < b { lemma_value(s, a, b - 1); } else { lemma_value(s, b - 1, b - 1); }
    }
}

//@ fn src/unix/terminal.rs parse_integer params="buf"
    ensures number(old(buf)@) is None ==> r is None,
        number(old(buf)@) matches Some((v, l)) ==> 0 <= v && r == Some((v as u32, old(buf)@[l - 1])) && final(buf)@ == old(buf)@.skip(l),
//@ start
    let ghost src = buf@;
    let ghost k = 0int;
    proof { lemma_digits(src); lemma_value(src, 0, digits(src) as int); assert(src.skip(0) =~= src); assert(src.take(0) =~= Seq::<u8>::empty()); }
//@ loop 0 kind=while
    invariant
        buf@ == src, src == old(buf)@, src.len() <= isize::MAX, 0 <= k <= src.len(), iter.rest() == src.skip(k), n == value(src.take(k)),
        forall|i: int| 0 <= i < k ==> digit(#[trigger] src[i]), digits(src) <= src.len(),
        forall|i: int| 0 <= i < digits(src) ==> digit(#[trigger] src[i]),
        k == digits(src) || k < digits(src),
    ensures iter.rest().len() == 0,
    decreases iter.rest().len(),
//@ loopbody 0
            proof {
                assert(b == src[k]);
                assert(src.skip(k).skip(1) =~= src.skip(k + 1));
                if digit(b) {
                    assert(src.take(k + 1).drop_last() =~= src.take(k));
                    assert(src.take(k + 1).last() == b);
                    lemma_run(src, k + 1);
                    lemma_value(src, k + 1, digits(src) as int);
                    assert(value(src.take(k + 1)) == n * 10 + (b - 48));
                } else { lemma_run(src, k); }
                k = k + 1;
            }
//@ end

//@ fn src/unix/terminal.rs mouse_button_event params="input is_pressed"
    ensures r == button(input as int, is_pressed),
//@ end
pub open spec fn button(n: int, down: bool) -> MouseInput {
    let b = if n == 0 { MouseButton::Left } else if n == 1 { MouseButton::Middle } else if n == 2 { MouseButton::Right } else { MouseButton::Other(n as u32) };
    if down { MouseInput::ButtonPressed(b) } else { MouseInput::ButtonReleased(b) }
}

/// a report: (number, column, line, pressed, length)
pub open spec fn report(s: Seq<u8>) -> Option<(int, int, int, bool, int)> {
    match number(s) {
        Some((n, l)) if s[l - 1] == 59 => match number(s.skip(l)) {
            Some((c, m)) if s.skip(l)[m - 1] == 59 => match number(s.skip(l).skip(m)) {
                Some((i, k)) if s.skip(l).skip(m)[k - 1] == 77 || s.skip(l).skip(m)[k - 1] == 109 =>
                    Some((n, c, i, s.skip(l).skip(m)[k - 1] == 77, l + m + k)),
                _ => None },
            _ => None },
        _ => None }
}
/// what a report says: bits 2, 3 and 4 are shift, meta and control, the others the kind of event
pub open spec fn bit(n: int, k: int) -> bool { (n / k) % 2 == 1 }
pub open spec fn kind(n: int) -> int { n - (if bit(n, 4) { 4int } else { 0 }) - (if bit(n, 8) { 8int } else { 0 }) - (if bit(n, 16) { 16int } else { 0 }) }
pub open spec fn says(e: MouseEvent, n: int, c: int, i: int, down: bool) -> bool {
    &&& e.position.line == (if i > 0 { i - 1 } else { 0 }) && e.position.column == (if c > 0 { c - 1 } else { 0 })
    &&& e.modifiers == (ModifierState { shift: bit(n, 4), alt: bit(n, 8), ctrl: bit(n, 16) })
    &&& e.input == (if kind(n) <= 3 { button(kind(n), down) } else if kind(n) == 64 { MouseInput::WheelUp }
        else if kind(n) == 65 { MouseInput::WheelDown } else { MouseInput::Motion })
}

pub proof fn lemma_mods()
    ensures forall|x: u32, m: u32| m == 4 || m == 8 || m == 16 ==> ((#[trigger] (x & m)) != 0) == bit(x as int, m as int),
        forall|x: u32, m: u32| m == 0xffff_ffe3u32 ==> #[trigger] (x & m) == kind(x as int),
        XTERM_SHIFT_MASK == 4, XTERM_META_MASK == 8, XTERM_CTRL_MASK == 16, !XTERM_MODIFIER_MASK == 0xffff_ffe3u32,
{
    assert forall|x: u32, m: u32| m == 4 || m == 8 || m == 16 implies ((#[trigger] (x & m)) != 0) == bit(x as int, m as int) by {
        assert((x & 4 != 0) == ((x / 4) % 2 == 1)) by (bit_vector);
        assert((x & 8 != 0) == ((x / 8) % 2 == 1)) by (bit_vector);
        assert((x & 16 != 0) == ((x / 16) % 2 == 1)) by (bit_vector);
    }
    assert forall|x: u32, m: u32| m == 0xffff_ffe3u32 implies #[trigger] (x & m) == kind(x as int) by {
        assert((x & 0xffff_ffe3u32) + (if (x / 4) % 2 == 1 { 4u32 } else { 0 }) + (if (x / 8) % 2 == 1 { 8u32 } else { 0 }) + (if (x / 16) % 2 == 1 { 16u32 } else { 0 }) == x) by (bit_vector);
    }
    assert(!(4u32 | 8u32 | 16u32) == 0xffff_ffe3u32) by (bit_vector);
}
//@ fn src/unix/terminal.rs parse_mouse_data params="buf"
    ensures report(buf@) is None ==> r is None,
        report(buf@) matches Some((n, c, i, down, l)) ==> (r matches Some((e, m)) && m == l && says(e, n, c, i, down)),
        r matches Some((e, m)) ==> 0 < m <= buf@.len(),
//@ start
    proof { lemma_mods(); }
//@ end

} // verus!
fn main() {}
