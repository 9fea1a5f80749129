verus! {

//@ type src/buffer.rs Cell keep="PartialEq" derive=Structural
//@ type src/buffer.rs OutOfBounds
//@ const src/buffer.rs TAB_STOP

impl Clone for Cell {
    // derived Clone
    #[verifier::external_body]
    fn clone(&self) -> (r: Cell) ensures r == *self { unimplemented!() }
}

pub open spec fn mk(fg: Option<Color>, bg: Option<Color>, style: Style, t: Seq<char>) -> Cell {
    Cell { fg, bg, style, text: sstr(t) }
}
pub open spec fn blank() -> Cell { mk(None, None, Style::s_empty(), seq![' ']) }
pub open spec fn void() -> Cell { mk(None, None, Style::s_empty(), Seq::empty()) }
pub open spec fn wide(c: Cell) -> bool { c.text@.len() > 0 && cw(c.text@[0]) == 2 }
/// a cell text: a visible character of width one or two, then combining marks
pub open spec fn text_ok(t: Seq<char>) -> bool {
    t.len() > 0 && (cw(t[0]) == 1 || cw(t[0]) == 2) && !odd(t[0])
        && (forall|k: int| 1 <= k < t.len() ==> comb(#[trigger] t[k]))
}

//@ fn src/buffer.rs Cell::new
    ensures r == mk(fg, bg, style, seq![chr]),
//@ start
    broadcast use {ax_smallstr_ext, ax_sstr};
//@ end

//@ fn src/buffer.rs Default for Cell::default
    ensures r == blank(),
//@ end

//@ fn src/buffer.rs Cell::invalid
    ensures r == void(),
//@ start
    broadcast use {ax_smallstr_ext, ax_sstr};
//@ end

//@ fn src/buffer.rs Cell::attrs
    ensures r == (self.fg, self.bg, self.style),
//@ end

//@ fn src/buffer.rs Cell::text
    ensures r@ == self.text@,
//@ rewrite & self . text ==> self.text.as_str()
//@ end

//@ fn src/buffer.rs Cell::first_char
    requires self.text@.len() > 0,
    ensures r == self.text@[0],
//@ end

//@ fn src/buffer.rs Cell::is_wide
    ensures r == wide(*self),
//@ start
    broadcast use ax_width;
//@ end

} // verus!
