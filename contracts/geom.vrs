//@ include common.vrs
verus! {

/// the cell after `c` in reading order; a column past the end counts as the end of its line
pub open spec fn next(c: Cursor, s: Size) -> Option<Cursor> {
    if c.column + 1 < s.columns { if c.line < s.lines { Some(Cursor { line: c.line, column: (c.column + 1) as usize }) } else { None } }
    else if c.line + 1 < s.lines { Some(Cursor { line: (c.line + 1) as usize, column: 0 }) }
    else { None }
}
/// the cell before, in the same terms
pub open spec fn s_prev(c: Cursor, s: Size) -> Option<Cursor> { if origin(c) { None } else { Some(prev(c, s)) } }
pub open spec fn s_first() -> Cursor { Cursor { line: 0, column: 0 } }
pub open spec fn s_last(s: Size) -> Cursor { Cursor { line: (s.lines - 1) as usize, column: (s.columns - 1) as usize } }

//@ fn src/terminal.rs Cursor::next
    ensures size.columns > 0 && size.lines > 0 ==> r == next(*self, size),
//@ end
//@ fn src/terminal.rs Cursor::first
    ensures r == s_first(),
//@ end
//@ fn src/terminal.rs From for Cursor::from
    ensures r.line == tup__.0, r.column == tup__.1,
//@ sigrewrite ( ( line , column ) : ( usize , usize ) ) ==> (tup__: (usize, usize))
//@ start
    let (line, column) = tup__;
//@ end

/// next goes through the cells in reading order and stops after the last one
pub proof fn c16_next(c: Cursor, s: Size)
    requires size_ok(s), inb(c, s)
    ensures next(c, s) is None <==> ix(c, s) + 1 == area(s),
        next(c, s) matches Some(d) ==> inb(d, s) && ix(d, s) == ix(c, s) + 1 && s_prev(d, s) == Some(c),
        next(c, s) is None <==> c == s_last(s),
{
    reveal(ix); reveal(area);
    lemma_ix(c, s);
    lemma_ix(s_last(s), s);
    assert((c.line + 1) * s.columns == c.line * s.columns + s.columns) by (nonlinear_arith);
    assert((s.lines - 1) * s.columns + s.columns == s.lines * s.columns) by (nonlinear_arith);
    if c.column + 1 == s.columns && c.line + 1 < s.lines {
        assert((c.line + 1) * s.columns < s.lines * s.columns) by (nonlinear_arith) requires c.line + 1 < s.lines, s.columns > 0;
    }
    if c.column + 1 < s.columns && c.line + 1 < s.lines {
        assert((c.line + 1) * s.columns <= s.lines * s.columns) by (nonlinear_arith) requires c.line + 1 < s.lines, s.columns > 0;
    }
}
pub proof fn c16_prev(c: Cursor, s: Size)
    requires size_ok(s), inb(c, s)
    ensures s_prev(c, s) is None <==> ix(c, s) == 0,
        s_prev(c, s) matches Some(d) ==> inb(d, s) && ix(d, s) == ix(c, s) - 1 && next(d, s) == Some(c),
        s_prev(c, s) is None <==> c == s_first(),
{
    lemma_prev_ix(c, s);
    reveal(ix);
}
/// positions within the screen and indices below the area are the same thing
pub proof fn c16_order(s: Size)
    requires size_ok(s)
    ensures forall|c: Cursor, d: Cursor| inb(c, s) && inb(d, s) && #[trigger] ix(c, s) == #[trigger] ix(d, s) ==> c == d,
        forall|c: Cursor, d: Cursor| inb(c, s) && inb(d, s) ==> (#[trigger] ix(c, s) < #[trigger] ix(d, s) <==> c.line < d.line || c.line == d.line && c.column < d.column),
        forall|c: Cursor| #[trigger] inb(c, s) ==> 0 <= ix(c, s) < area(s),
        ix(s_first(), s) == 0, ix(s_last(s), s) == area(s) - 1, inb(s_first(), s), inb(s_last(s), s),
{
    assert forall|c: Cursor| #[trigger] inb(c, s) implies 0 <= ix(c, s) < area(s) by { lemma_ix(c, s); }
    assert forall|c: Cursor, d: Cursor| inb(c, s) && inb(d, s) implies
        (#[trigger] ix(c, s) < #[trigger] ix(d, s) <==> c.line < d.line || c.line == d.line && c.column < d.column) && (ix(c, s) == ix(d, s) ==> c == d) by {
        lemma_ix(c, s); lemma_ix(d, s); reveal(ix);
        if c.line < d.line {
            assert(c.line * s.columns + s.columns <= d.line * s.columns) by (nonlinear_arith) requires c.line + 1 <= d.line, s.columns > 0;
        }
        if d.line < c.line {
            assert(d.line * s.columns + s.columns <= c.line * s.columns) by (nonlinear_arith) requires d.line + 1 <= c.line, s.columns > 0;
        }
    }
    reveal(ix); reveal(area);
    assert((s.lines - 1) * s.columns + s.columns == s.lines * s.columns) by (nonlinear_arith);
    assert(0 * s.columns == 0);
}

} // verus!
fn main() {}
