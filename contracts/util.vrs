use vstd::prelude::*;

verus! {

//@ const src/util.rs CTRL_MASK
//@ const src/util.rs UNCTRL_BIT
//@ type src/terminal.rs Key derive=Structural

/// std: char::to_ascii_lowercase
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char)
    ensures r as u32 == (if 'A' <= *c && *c <= 'Z' { (*c as u32 + 32) as u32 } else { *c as u32 });

//@ fn src/util.rs ctrl
    ensures r as u32 == (ch as u32) % 32,
//@ start
    proof {
        let x = ch as u32;
        assert((x as u8 & 0x1f) as u32 == x % 32) by (bit_vector);
    }
//@ end
//@ fn src/util.rs is_ctrl
    ensures r == ((ch as u32) < 0x20),
//@ start
    proof {
        let x = ch as u32;
        assert((x & 0x1f == x) == (x < 0x20)) by (bit_vector);
    }
//@ end
//@ fn src/util.rs unctrl_upper
    ensures ch as u32 <= 0x1f ==> r as u32 == ch as u32 + 0x40,
//@ start
    proof {
        let x = ch as u32;
        assert(x <= 0x1f ==> (x as u8 | 0x40) as u32 == x + 0x40) by (bit_vector);
    }
//@ end
//@ fn src/util.rs unctrl_lower
    ensures ch as u32 <= 0x1f ==> r as u32 == (if 1 <= ch as u32 && ch as u32 <= 26 { ch as u32 + 0x60 } else { ch as u32 + 0x40 }),
//@ end

/// the key a character stands for
pub open spec fn key_of(c: char) -> Key {
    if c == '\x1b' { Key::Escape } else if c == '\x7f' { Key::Backspace } else if c == '\r' || c == '\n' { Key::Enter }
    else if c == '\t' { Key::Tab } else if (c as u32) < 0x20 { Key::Ctrl(lower_of(c)) } else { Key::Char(c) }
}
pub open spec fn lower_of(c: char) -> char { (if 1 <= c as u32 && c as u32 <= 26 { (c as u32 + 0x60) as u8 } else { (c as u32 + 0x40) as u8 }) as char }

//@ fn src/terminal.rs From for Key::from
    ensures r == key_of(ch),
//@ rewrite use crate :: util :: $x! ; ==> 
//@ end

/// control characters and their letters, both ways (over the contracts above)
pub proof fn c15(c: char, up: char, low: char, back: char, back2: char)
    requires (c as u32) < 0x20, up as u32 == c as u32 + 0x40,
        low as u32 == (if 1 <= c as u32 && c as u32 <= 26 { c as u32 + 0x60 } else { c as u32 + 0x40 }),
        back as u32 == (up as u32) % 32, back2 as u32 == (low as u32) % 32,
    ensures back == c, back2 == c, 1 <= c as u32 <= 26 ==> 'A' <= up && up <= 'Z' && 'a' <= low && low <= 'z',
        low == lower_of(c),
{}

// ---------------------------------------------------------------- prefixes

/// bytes of the first n characters
pub open spec fn off(t: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else { off(t, n - 1) + len8(t[n - 1]) } }
pub open spec fn len8(c: char) -> int { c.len_utf8() as int }
pub proof fn lemma_off(t: Seq<char>, a: int, b: int)
    requires 0 <= a <= b
    ensures off(t, a) <= off(t, b), a < b ==> off(t, a) < off(t, b), 0 <= off(t, a)
    decreases b
{ if a < b { lemma_off(t, a, b - 1); } else if b > 0 { lemma_off(t, a - 1, b - 1); } }

/// std: a string has at most isize::MAX bytes
pub axiom fn ax_str(s: &str) ensures off(s@, s@.len() as int) <= isize::MAX;


/// std: str::char_indices
#[verifier::external_body]
pub struct CharIndices<'a> { i: std::str::CharIndices<'a> }
impl<'a> CharIndices<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures final(self).text() == old(self).text(),
            old(self).at() < old(self).text().len() ==> final(self).at() == old(self).at() + 1
                && r == Some((off(old(self).text(), old(self).at()) as usize, old(self).text()[old(self).at()])),
            old(self).at() >= old(self).text().len() ==> r is None && final(self).at() == old(self).at(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn char_indices__<'a>(s: &'a str) -> (r: CharIndices<'a>) ensures r.text() == s@, r.at() == 0 { unimplemented!() }
/// std: &s[..n]
#[verifier::external_body]
pub fn slice_to__<'a>(s: &'a str, n: usize) -> (r: &'a str)
    requires exists|k: int| 0 <= k <= s@.len() && off(s@, k) == n,
    ensures forall|k: int| 0 <= k <= s@.len() && off(s@, k) == n ==> r@ == s@.take(k),
{ unimplemented!() }

//@ rewrite $x! . char_indices ( ) ==> char_indices__($x)
//@ rewrite & $x! . s [ .. $e ] ==> slice_to__($x.s, $e)
//@ rewrite $x! . iter . next ( ) . map ( | ( $a , $b ) | $e ) ==> match $x.iter.next() { Some(($a, $b)) => Some($e), None => None }

//@ type src/util.rs Prefixes

impl<'a> Prefixes<'a> {
    pub open spec fn wf(self) -> bool { self.iter.text() == self.s@ && 0 <= self.iter.at() <= self.s@.len() }
}
//@ fn src/util.rs prefixes
    ensures r.wf(), r.s@ == s@, r.iter.at() == 0,
//@ sigrewrite -> Prefixes ==> -> Prefixes<'_>
//@ end

//@ fn src/util.rs Iterator for Prefixes::next
    requires old(self).wf(),
    ensures final(self).wf(), final(self).s == old(self).s,
        old(self).iter.at() < old(self).s@.len() ==> (r matches Some(p) && p@ == old(self).s@.take(old(self).iter.at() + 1)) && final(self).iter.at() == old(self).iter.at() + 1,
        old(self).iter.at() >= old(self).s@.len() ==> r is None && final(self).iter.at() == old(self).iter.at(),
//@ start
    proof {
        ax_str(self.s);
        let (t, n) = (self.s@, self.iter.at());
        if n < t.len() {
            lemma_off(t, n + 1, t.len() as int); lemma_off(t, n, n + 1);
            assert(off(t, n + 1) == off(t, n) + len8(t[n]));
            assert forall|k: int| 0 <= k <= t.len() && #[trigger] off(t, k) == off(t, n + 1) implies k == n + 1 by {
                if k < n + 1 { lemma_off(t, k, n + 1); }
                if k > n + 1 { lemma_off(t, n + 1, k); }
            }
        }
    }
//@ end

} // verus!
fn main() {}
