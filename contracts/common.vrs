use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::mem::{swap, replace};
use std::ops::Range;

verus! {

// ---------------------------------------------------------------------------
// Contract-only stubs of dependencies.  Every `external_body`, `uninterp` and
// axiom below is an assumption; the runner lists them in the evidence.
// ---------------------------------------------------------------------------

/// unicode-width: `UnicodeWidthChar::width`, with None as 0
pub uninterp spec fn cw_opt(c: char) -> Option<usize>;
pub open spec fn cw(c: char) -> int { match cw_opt(c) { Some(n) => n as int, None => 0 } }
/// unicode-normalization: `is_combining_mark`
pub uninterp spec fn comb(c: char) -> bool;

pub open spec fn vis(c: char) -> bool { c == '\t' || c == '\r' || c == '\n' || cw(c) != 0 }

/// Facts about the Unicode tables (the runner checks them on the real
/// functions for every scalar value).  U+17D8 is the one character of width 3.
pub open spec fn odd(c: char) -> bool { c == '\u{17d8}' }
pub broadcast axiom fn ax_width(c: char)
    ensures
        #[trigger] cw_opt(c) is Some ==> cw_opt(c)->0 <= 3,
        !odd(c) ==> cw(c) <= 2,
        c == ' ' ==> cw_opt(c) == Some(1usize),
        (c == '\t' || c == '\r' || c == '\n') ==> cw(c) == 0;
pub broadcast axiom fn ax_comb(c: char)
    ensures (c == ' ' || c == '\t' || c == '\r' || c == '\n') ==> !(#[trigger] comb(c));

pub mod unicode_width {
    use vstd::prelude::*;
    verus! {
    pub trait UnicodeWidthChar: Sized { spec fn s_width(self) -> Option<usize>; fn width(self) -> (r: Option<usize>) ensures r == self.s_width(); }
    impl UnicodeWidthChar for char {
        open spec fn s_width(self) -> Option<usize> { super::cw_opt(self) }
        #[verifier::external_body]
        fn width(self) -> (r: Option<usize>) { unimplemented!() }
    }
    }
}
pub mod unicode_normalization { pub mod char {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub fn is_combining_mark(c: char) -> (r: bool) ensures r == super::super::comb(c) { unimplemented!() }
    }
} }
//@ fn src/util.rs char_width params="ch"
    ensures r == cw_opt(ch),
//@ end
//@ fn src/util.rs is_combining_mark params="ch"
    ensures r == comb(ch),
//@ end

/// smallstr: a growable string seen as its characters
#[verifier::external_body]
pub struct SmallString { s: String }
impl SmallString {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn chars(&self) -> (r: std::str::Chars<'_>) ensures r.remaining() == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: SmallString) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl From<char> for SmallString {
    #[verifier::external_body]
    fn from(c: char) -> (r: SmallString) ensures r@ == seq![c] { unimplemented!() }
}
impl PartialEq for SmallString {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
#[verifier::external]
unsafe impl Structural for SmallString {}
/// a string is determined by its characters
pub uninterp spec fn sstr(s: Seq<char>) -> SmallString;
pub broadcast axiom fn ax_smallstr_ext(a: SmallString)
    ensures sstr(#[trigger] a.view()) == a;
pub broadcast axiom fn ax_sstr(s: Seq<char>)
    ensures #[trigger] sstr(s).view() == s;

/// bitflags: `Style` as the set of its four named flags
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct Style { pub bold: bool, pub italic: bool, pub reverse: bool, pub underline: bool }
impl Style {
    pub const BOLD: Style = Style { bold: true, italic: false, reverse: false, underline: false };
    pub const ITALIC: Style = Style { bold: false, italic: true, reverse: false, underline: false };
    pub const REVERSE: Style = Style { bold: false, italic: false, reverse: true, underline: false };
    pub const UNDERLINE: Style = Style { bold: false, italic: false, reverse: false, underline: true };
    pub open spec fn s_empty() -> Style { Style { bold: false, italic: false, reverse: false, underline: false } }
    pub open spec fn s_union(self, o: Style) -> Style {
        Style { bold: self.bold || o.bold, italic: self.italic || o.italic,
            reverse: self.reverse || o.reverse, underline: self.underline || o.underline }
    }
    pub open spec fn s_inter(self, o: Style) -> Style {
        Style { bold: self.bold && o.bold, italic: self.italic && o.italic,
            reverse: self.reverse && o.reverse, underline: self.underline && o.underline }
    }
    pub open spec fn s_diff(self, o: Style) -> Style {
        Style { bold: self.bold && !o.bold, italic: self.italic && !o.italic,
            reverse: self.reverse && !o.reverse, underline: self.underline && !o.underline }
    }
    pub open spec fn s_xor(self, o: Style) -> Style {
        Style { bold: self.bold != o.bold, italic: self.italic != o.italic,
            reverse: self.reverse != o.reverse, underline: self.underline != o.underline }
    }
    #[verifier::external_body]
    pub fn empty() -> (r: Style) ensures r == Style::s_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn all() -> (r: Style)
        ensures r == (Style { bold: true, italic: true, reverse: true, underline: true }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (*self == Style::s_empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, o: Style) -> (r: bool) ensures r == (self.s_inter(o) == o) { unimplemented!() }
    #[verifier::external_body]
    pub fn intersects(&self, o: Style) -> (r: bool) ensures r == (self.s_inter(o) != Style::s_empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn union(self, o: Style) -> (r: Style) ensures r == self.s_union(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn intersection(self, o: Style) -> (r: Style) ensures r == self.s_inter(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn difference(self, o: Style) -> (r: Style) ensures r == self.s_diff(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, o: Style) ensures *final(self) == old(self).s_union(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, o: Style) ensures *final(self) == old(self).s_diff(o) { unimplemented!() }
}

impl vstd::std_specs::ops::BitOrSpecImpl for Style {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: Style) -> bool { true }
    open spec fn bitor_spec(self, o: Style) -> Style { self.s_union(o) }
}
impl std::ops::BitOr for Style { type Output = Style; #[verifier::external_body] fn bitor(self, o: Style) -> (r: Style) { unimplemented!() } }
impl vstd::std_specs::ops::BitOrAssignSpecImpl for Style {
    open spec fn obeys_bitor_assign_spec() -> bool { true }
    open spec fn bitor_assign_req(&self, o: Style) -> bool { true }
    open spec fn bitor_assign_spec(&self, o: Style) -> &Style { &self.s_union(o) }
}
impl std::ops::BitOrAssign for Style { #[verifier::external_body] fn bitor_assign(&mut self, o: Style) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndSpecImpl for Style {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, o: Style) -> bool { true }
    open spec fn bitand_spec(self, o: Style) -> Style { self.s_inter(o) }
}
impl std::ops::BitAnd for Style { type Output = Style; #[verifier::external_body] fn bitand(self, o: Style) -> (r: Style) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndAssignSpecImpl for Style {
    open spec fn obeys_bitand_assign_spec() -> bool { true }
    open spec fn bitand_assign_req(&self, o: Style) -> bool { true }
    open spec fn bitand_assign_spec(&self, o: Style) -> &Style { &self.s_inter(o) }
}
impl std::ops::BitAndAssign for Style { #[verifier::external_body] fn bitand_assign(&mut self, o: Style) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl for Style {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Style) -> bool { true }
    open spec fn sub_spec(self, o: Style) -> Style { self.s_diff(o) }
}
impl std::ops::Sub for Style { type Output = Style; #[verifier::external_body] fn sub(self, o: Style) -> (r: Style) { unimplemented!() } }
impl vstd::std_specs::ops::SubAssignSpecImpl for Style {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, o: Style) -> bool { true }
    open spec fn sub_assign_spec(&self, o: Style) -> &Style { &self.s_diff(o) }
}
impl std::ops::SubAssign for Style { #[verifier::external_body] fn sub_assign(&mut self, o: Style) { unimplemented!() } }
impl vstd::std_specs::ops::BitXorSpecImpl for Style {
    open spec fn obeys_bitxor_spec() -> bool { true }
    open spec fn bitxor_req(self, o: Style) -> bool { true }
    open spec fn bitxor_spec(self, o: Style) -> Style { self.s_xor(o) }
}
impl std::ops::BitXor for Style { type Output = Style; #[verifier::external_body] fn bitxor(self, o: Style) -> (r: Style) { unimplemented!() } }
impl vstd::std_specs::ops::BitXorAssignSpecImpl for Style {
    open spec fn obeys_bitxor_assign_spec() -> bool { true }
    open spec fn bitxor_assign_req(&self, o: Style) -> bool { true }
    open spec fn bitxor_assign_spec(&self, o: Style) -> &Style { &self.s_xor(o) }
}
impl std::ops::BitXorAssign for Style { #[verifier::external_body] fn bitxor_assign(&mut self, o: Style) { unimplemented!() } }

// ---------------------------------------------------------------------------
// Items of /repo
// ---------------------------------------------------------------------------

//@ rewrite SmallString < [ u8 ; 8 ] > ==> SmallString
//@ rewrite crate :: terminal :: ==> 
//@ rewrite . unwrap_or_else ( | | panic ! $x! ) ==> .expect("value")

//@ type src/terminal.rs Color derive=Structural
//@ type src/terminal.rs Cursor derive=Structural
//@ type src/terminal.rs Size derive=Structural

impl Cursor {
    pub open spec fn s_default() -> Cursor { Cursor { line: 0, column: 0 } }
    // derived Default
    #[verifier::external_body]
    pub fn default() -> (r: Cursor) ensures r == Cursor::s_default() { unimplemented!() }
}

pub open spec fn inb(p: Cursor, s: Size) -> bool { p.line < s.lines && p.column < s.columns }
#[verifier::opaque]
pub open spec fn ix(p: Cursor, s: Size) -> int { p.line * s.columns + p.column }
pub open spec fn sat1(n: usize) -> usize { if n == usize::MAX { n } else { (n + 1) as usize } }
/// a valid size: no zero dimension, area representable
pub open spec fn size_ok(s: Size) -> bool { s.lines > 0 && s.columns > 0 && area(s) <= usize::MAX }
#[verifier::opaque]
pub open spec fn area(s: Size) -> int { s.lines * s.columns }

pub proof fn lemma_ix(p: Cursor, s: Size)
    requires inb(p, s)
    ensures 0 <= ix(p, s) < area(s), ix(p, s) % (s.columns as int) == p.column,
        ix(p, s) / (s.columns as int) == p.line,
        p.line * s.columns >= 0,
{
    reveal(ix); reveal(area);
    assert(p.line * s.columns + p.column < s.lines * s.columns) by (nonlinear_arith)
        requires p.line < s.lines, p.column < s.columns;
    assert(p.line * s.columns >= 0) by (nonlinear_arith) requires p.line >= 0, s.columns >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(ix(p, s), s.columns as int, p.line as int, p.column as int);
}

/// the position before `c`, if any
pub open spec fn prev(c: Cursor, s: Size) -> Cursor {
    if c.column > 0 { Cursor { line: c.line, column: (c.column - 1) as usize } }
    else { Cursor { line: (c.line - 1) as usize, column: (s.columns - 1) as usize } }
}
pub open spec fn origin(c: Cursor) -> bool { c.line == 0 && c.column == 0 }
pub proof fn lemma_prev_ix(c: Cursor, s: Size)
    requires size_ok(s),
    ensures inb(c, s) && !origin(c) ==> inb(prev(c, s), s) && ix(prev(c, s), s) == ix(c, s) - 1,
        inb(c, s) && origin(c) ==> ix(c, s) == 0,
        inb(c, s) && !origin(c) ==> ix(c, s) > 0,
        inb(c, s) ==> 0 <= ix(c, s) < area(s),
{
    reveal(ix); reveal(area);
    if inb(c, s) {
        lemma_ix(c, s);
        if !origin(c) {
            let p = prev(c, s);
            lemma_ix(p, s);
            if c.column == 0 {
                assert(p.line * s.columns + s.columns == c.line * s.columns) by (nonlinear_arith) requires p.line + 1 == c.line;
            }
        } else {
            assert(0 * s.columns == 0);
        }
    }
}

pub proof fn lemma_next_ix(c: Cursor, s: Size)
    requires inb(c, s), c.column + 1 < s.columns
    ensures ix(Cursor { line: c.line, column: (c.column + 1) as usize }, s) == ix(c, s) + 1
{ reveal(ix); reveal(area); }

//@ fn src/terminal.rs Cursor::previous
    requires self.column == 0 && self.line > 0 ==> size.columns > 0,
    ensures
        r == (if origin(*self) { None } else { Some(prev(*self, size)) }),
//@ end

//@ fn src/terminal.rs Cursor::is_out_of_bounds
    ensures r == !inb(*self, size),
//@ end

//@ fn src/terminal.rs Cursor::last
    requires size.lines > 0, size.columns > 0,
    ensures r == (Cursor { line: (size.lines - 1) as usize, column: (size.columns - 1) as usize }),
//@ end

//@ fn src/terminal.rs Cursor::as_index
    requires size_ok(size), inb(*self, size),
    ensures r == ix(*self, size),
//@ start
    proof {
        reveal(ix); reveal(area);
        lemma_ix(*self, size);
    }
//@ end

//@ fn src/terminal.rs Size::checked_area
    ensures
        area(*self) <= usize::MAX ==> r == Some((area(*self)) as usize),
        area(*self) > usize::MAX ==> r is None,
//@ start
    proof { reveal(area); }
//@ end

//@ fn src/terminal.rs Size::area
    requires area(*self) <= usize::MAX,
    ensures r == area(*self),
//@ start
    proof { reveal(area); }
//@ end

} // verus!
