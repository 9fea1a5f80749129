verus! {

/// slice chunking: `chunks_mut(n)` as the k-th chunk and the number of chunks
pub open spec fn nchunks(len: int, n: int) -> int { (len + n - 1) / n }
pub open spec fn chunk_end(len: int, k: int, n: int) -> int { if (k + 1) * n <= len { (k + 1) * n } else { len } }
pub proof fn lemma_chunks(lines: int, n: int)
    requires lines >= 0, n > 0
    ensures nchunks(lines * n, n) == lines,
        forall|k: int| 0 <= k < lines ==> #[trigger] chunk_end(lines * n, k, n) == (k + 1) * n && (k + 1) * n == k * n + n && 0 <= k * n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(lines * n + n - 1, n, lines, n - 1);
    assert forall|k: int| 0 <= k < lines implies #[trigger] chunk_end(lines * n, k, n) == (k + 1) * n && (k + 1) * n == k * n + n && 0 <= k * n by {
        assert((k + 1) * n <= lines * n && (k + 1) * n == k * n + n && 0 <= k * n) by (nonlinear_arith) requires 0 <= k < lines, n > 0;
    }
}
pub trait Chunks__ {
    spec fn cells__(&self) -> Seq<Cell>;
    fn nchunks__(&self, n: usize) -> (r: usize)
        requires n > 0
        ensures r == nchunks(self.cells__().len() as int, n as int);
    fn chunk__(&mut self, k: usize, n: usize) -> (r: &mut [Cell])
        requires n > 0, k < nchunks(old(self).cells__().len() as int, n as int)
        ensures
            r@ == old(self).cells__().subrange(k * n, chunk_end(old(self).cells__().len() as int, k as int, n as int)),
            final(self).cells__() == old(self).cells__().subrange(0, k * n) + final(r)@
                + old(self).cells__().subrange(chunk_end(old(self).cells__().len() as int, k as int, n as int), old(self).cells__().len() as int);
}
impl Chunks__ for Vec<Cell> {
    open spec fn cells__(&self) -> Seq<Cell> { self@ }
    #[verifier::external_body]
    fn nchunks__(&self, n: usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn chunk__(&mut self, k: usize, n: usize) -> (r: &mut [Cell]) { unimplemented!() }
}

} // verus!
verus! {

//@ type src/buffer.rs ScreenBuffer
//@ type src/terminal.rs Theme

/// What a user of a screen can see
pub struct BS { pub cells: Seq<Cell>, pub size: Size, pub cursor: Cursor,
    pub fg: Option<Color>, pub bg: Option<Color>, pub style: Style }

impl ScreenBuffer {
    pub open spec fn st(&self) -> BS {
        BS { cells: self.buffer@, size: self.size, cursor: self.cursor, fg: self.fg, bg: self.bg, style: self.style }
    }
    pub open spec fn shape(&self) -> bool {
        size_ok(self.size) && self.buffer@.len() == area(self.size)
    }
    pub open spec fn wf(&self) -> bool {
        self.shape() && bs_ok(self.st()) && self.back_buffer@.len() == self.buffer@.len()
    }
}

/// C04: every wide character keeps two adjacent columns of one line
pub open spec fn wide_ok(cells: Seq<Cell>, cols: int) -> bool {
    forall|i: int| 0 <= i < cells.len() && wide(#[trigger] cells[i]) ==>
        i % cols + 1 < cols && i + 1 < cells.len() && cells[i + 1].text@ == seq![' ']
}
#[verifier::opaque]
pub open spec fn bs_ok(b: BS) -> bool {
    &&& size_ok(b.size)
    &&& b.cells.len() == area(b.size)
    &&& forall|i: int| 0 <= i < b.cells.len() ==> text_ok(#[trigger] b.cells[i].text@)
    &&& wide_ok(b.cells, b.size.columns as int)
}

pub open spec fn ink(b: BS, t: Seq<char>) -> Cell { mk(b.fg, b.bg, b.style, t) }

/// the cells after a wide character whose second column is at `k` is removed
pub open spec fn unwide(cells: Seq<Cell>, k: int) -> Seq<Cell> {
    if k > 0 && wide(cells[k - 1]) { cells.update(k - 1, blank()) } else { cells }
}

pub open spec fn advance(b: BS, w: int) -> Cursor {
    if b.cursor.column + w >= b.size.columns { Cursor { line: sat1(b.cursor.line), column: 0 } }
    else { Cursor { line: b.cursor.line, column: (b.cursor.column + w) as usize } }
}

/// `ch` stored at the cursor, which has room for it
pub open spec fn place(b: BS, ch: char) -> BS {
    let k = ix(b.cursor, b.size);
    let c1 = b.cells.update(k, ink(b, seq![ch]));
    let c2 = if cw(ch) == 2 { c1.update(k + 1, ink(b, seq![' '])) } else { c1 };
    BS { cells: c2, cursor: advance(b, cw(ch)), ..b }
}

/// C02: what writing one visible character does (and whether it fit)
pub open spec fn put_vis(b: BS, ch: char) -> (BS, bool) {
    if !inb(b.cursor, b.size) || cw(ch) > b.size.columns {
        (b, false)
    } else {
        let k = ix(b.cursor, b.size);
        let b1 = BS { cells: unwide(b.cells, k), ..b };
        if b.cursor.column + cw(ch) <= b.size.columns {
            (place(b1, ch), true)
        } else {
            let b2 = BS { cells: b1.cells.update(k, ink(b, seq![' '])),
                cursor: Cursor { line: sat1(b.cursor.line), column: 0 }, ..b };
            if inb(b2.cursor, b.size) { (place(b2, ch), true) } else { (b2, false) }
        }
    }
}

/// C02: a combining mark joins the character before the cursor
pub open spec fn put_comb(b: BS, ch: char) -> (BS, bool) {
    let c = b.cursor;
    if origin(c) { (b, true) }
    else {
        let p = prev(c, b.size);
        if !inb(p, b.size) { (b, false) }
        else {
            let k = ix(p, b.size);
            let t = if k > 0 && wide(b.cells[k - 1]) { k - 1 } else { k };
            let old = b.cells[t];
            (BS { cells: b.cells.update(t, mk(old.fg, old.bg, old.style, old.text@.push(ch))), ..b }, true)
        }
    }
}

/// C02: `n` spaces
pub open spec fn put_spaces(b: BS, n: nat) -> (BS, bool)
    decreases n
{
    if n == 0 { (b, true) }
    else {
        let (b1, ok) = put_vis(b, ' ');
        if ok { put_spaces(b1, (n - 1) as nat) } else { (b1, false) }
    }
}

pub open spec fn tab_width(b: BS) -> nat {
    let rem = (b.size.columns - b.cursor.column) as int;
    let stop = 8 - (b.cursor.column as int) % 8;
    (if rem <= stop { rem } else { stop }) as nat
}

/// C02: what writing one character does
pub open spec fn put(b: BS, ch: char) -> (BS, bool) {
    if ch == '\t' {
        if inb(b.cursor, b.size) { put_spaces(b, tab_width(b)) } else { (b, false) }
    } else if ch == '\r' {
        (BS { cursor: Cursor { line: b.cursor.line, column: 0 }, ..b }, true)
    } else if ch == '\n' {
        (BS { cursor: Cursor { line: sat1(b.cursor.line), column: 0 }, ..b }, true)
    } else if comb(ch) { put_comb(b, ch) }
    else if vis(ch) { put_vis(b, ch) }
    else { (b, true) }
}

/// C02: what writing a text does; it ends at the first character that does not fit
pub open spec fn puts(b: BS, s: Seq<char>) -> (BS, bool)
    decreases s.len()
{
    if s.len() == 0 { (b, true) }
    else {
        let (b1, ok) = put(b, s[0]);
        if ok { puts(b1, s.drop_first()) } else { (b1, false) }
    }
}

pub open spec fn with_attrs(b: BS, fg: Option<Color>, bg: Option<Color>, style: Style) -> BS { BS { fg, bg, style, ..b } }

/// the second column of a wide character: nothing of its own is shown there
pub open spec fn covered(cells: Seq<Cell>, i: int) -> bool { i > 0 && wide(cells[i - 1]) }

/// C05: what a cell of the resized screen shows
pub open spec fn keep(cells: Seq<Cell>, old: Size, new: Size, l: int, c: int) -> Cell {
    if l < old.lines && c < old.columns {
        let x = cells[l * old.columns + c];
        if wide(x) && c + 1 >= new.columns { blank() } else { x }
    } else { blank() }
}
pub open spec fn kept(cells: Seq<Cell>, old: Size, new: Size, r: Seq<Cell>) -> bool {
    &&& r.len() == area(new)
    &&& forall|l: int, c: int| 0 <= l < new.lines && 0 <= c < new.columns ==>
        #[trigger] r[l * new.columns + c] == keep(cells, old, new, l, c)
}

/// the first `k` lines copied
pub open spec fn part(cells: Seq<Cell>, old: Size, new: Size, k: int, r: Seq<Cell>) -> bool {
    &&& r.len() == area(new)
    &&& forall|l: int, c: int| 0 <= l < new.lines && 0 <= c < new.columns ==>
        #[trigger] r[l * new.columns + c] == (if l < k { keep(cells, old, new, l, c) } else { blank() })
}

pub open spec fn at(b: BS, pos: Cursor) -> BS { BS { cursor: pos, ..b } }
/// C06: styled text: written under the given attributes, which do not outlive it
pub open spec fn styled(b: BS, fg: Option<Color>, bg: Option<Color>, style: Style, s: Seq<char>) -> (BS, bool) {
    let (b1, ok) = puts(with_attrs(b, fg, bg, style), s);
    (with_attrs(b1, None, None, Style::s_empty()), ok)
}

pub open spec fn no_odd(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !odd(#[trigger] s[i]) }

/// writing back what is there changes nothing
pub broadcast proof fn lemma_update_same(s: Seq<Cell>, i: int, x: Cell)
    ensures 0 <= i < s.len() && x == s[i] ==> #[trigger] s.update(i, x) == s
{ if 0 <= i < s.len() && x == s[i] { assert(s.update(i, x) =~= s); } }
pub broadcast proof fn lemma_update_twice(s: Seq<Cell>, i: int, x: Cell, y: Cell)
    ensures 0 <= i < s.len() ==> #[trigger] s.update(i, x).update(i, y) == s.update(i, y)
{ if 0 <= i < s.len() { assert(s.update(i, x).update(i, y) =~= s.update(i, y)); } }

// ---------------------------------------------------------------------------
// Lemmas: the model keeps its invariant and its frame
// ---------------------------------------------------------------------------

pub proof fn lemma_char(c: char)
    ensures !odd(c) ==> 0 <= cw(c) <= 2,
        (c == '\t' || c == '\r' || c == '\n') ==> cw(c) == 0 && !comb(c),
        c == ' ' ==> cw(c) == 1 && !comb(c),
{ 
    broadcast use {ax_width, ax_comb};
    assert(cw_opt(c) is Some ==> cw_opt(c)->0 <= 3);
    assert(comb(c) || !comb(c));
}

pub proof fn lemma_blank_ok()
    ensures text_ok(seq![' ']), !wide(blank()), blank().text@ == seq![' '],
        forall|f: Option<Color>, g: Option<Color>, s: Style, t: Seq<char>| (#[trigger] mk(f, g, s, t)).text@ == t,
        cw(' ') == 1,
{
    broadcast use {ax_width, ax_comb, ax_sstr};
    assert(cw_opt(' ') == Some(1usize));
    assert(seq![' '][0] == ' ');
}

pub proof fn lemma_shape(b: BS)
    requires bs_ok(b)
    ensures size_ok(b.size), b.cells.len() == area(b.size),
{ reveal(bs_ok); reveal(area); }

/// a screen of blanks is well formed
pub broadcast proof fn lemma_blank_screen(b: BS)
    ensures size_ok(b.size) && b.cells.len() == area(b.size)
        && (forall|i: int| 0 <= i < b.cells.len() ==> b.cells[i] == blank()) ==> #[trigger] bs_ok(b),
{ reveal(bs_ok); reveal(area); lemma_blank_ok(); assert(seq![' '][0] == ' '); }

pub proof fn lemma_cell(b: BS, i: int)
    requires bs_ok(b), 0 <= i < b.cells.len(),
    ensures b.cells[i].text@.len() > 0, text_ok(b.cells[i].text@),
        wide(b.cells[i]) ==> i + 1 < b.cells.len() && !wide(b.cells[i + 1]),
{
    reveal(bs_ok); reveal(area);
    assert(text_ok(b.cells[i].text@));
    lemma_char(' ');
    if wide(b.cells[i]) { assert(b.cells[i + 1].text@ == seq![' ']); assert(seq![' '][0] == ' '); }
}

pub proof fn lemma_unwide_ok(b: BS, k: int)
    requires bs_ok(b), 0 <= k < b.cells.len(),
    ensures bs_ok(BS { cells: unwide(b.cells, k), ..b }),
        k > 0 ==> !wide(unwide(b.cells, k)[k - 1]),
{
    reveal(bs_ok); reveal(area);
    lemma_blank_ok();
}

pub proof fn lemma_place_ok(b: BS, ch: char)
    requires bs_ok(b), inb(b.cursor, b.size), 1 <= cw(ch) <= 2, !odd(ch), b.cursor.column + cw(ch) <= b.size.columns,
        ix(b.cursor, b.size) > 0 ==> !wide(b.cells[ix(b.cursor, b.size) - 1]),
    ensures bs_ok(place(b, ch)),
{
    reveal(bs_ok); reveal(area);
    lemma_blank_ok();
    lemma_ix(b.cursor, b.size);
    let k = ix(b.cursor, b.size);
    let cols = b.size.columns as int;
    if cw(ch) == 2 {
        let p = Cursor { line: b.cursor.line, column: (b.cursor.column + 1) as usize };
        lemma_ix(p, b.size);
        lemma_next_ix(b.cursor, b.size);
    }
    let r = place(b, ch);
    assert(seq![ch][0] == ch);
    assert forall|i: int| 0 <= i < r.cells.len() && wide(#[trigger] r.cells[i]) implies
        i % cols + 1 < cols && i + 1 < r.cells.len() && r.cells[i + 1].text@ == seq![' '] by {
        if i == k {
        } else {
            assert(wide(b.cells[i]));
        }
    }
}

pub proof fn lemma_put_vis_ok(b: BS, ch: char)
    requires bs_ok(b), 1 <= cw(ch) <= 2, !odd(ch),
    ensures bs_ok(put_vis(b, ch).0),
{
    reveal(bs_ok); reveal(area);
    if inb(b.cursor, b.size) && cw(ch) <= b.size.columns {
        lemma_ix(b.cursor, b.size);
        lemma_blank_ok();
        let k = ix(b.cursor, b.size);
        lemma_unwide_ok(b, k);
        let b1 = BS { cells: unwide(b.cells, k), ..b };
        if b.cursor.column + cw(ch) <= b.size.columns {
            lemma_place_ok(b1, ch);
        } else {
            let sp = ink(b, seq![' ']);
            let b2 = BS { cells: b1.cells.update(k, sp),
                cursor: Cursor { line: sat1(b.cursor.line), column: 0 }, ..b };
            assert(seq![' '][0] == ' ');
            assert(!wide(sp));
            assert(bs_ok(b2));
            if inb(b2.cursor, b.size) {
                lemma_ix(b2.cursor, b.size);
                reveal(ix); reveal(area);
                assert(ix(b2.cursor, b.size) == k + 1) by (nonlinear_arith)
                    requires k == b.cursor.line * b.size.columns + b.cursor.column,
                        b.cursor.column + 1 == b.size.columns, b2.cursor.line == b.cursor.line + 1, b2.cursor.column == 0,
                        ix(b2.cursor, b.size) == b2.cursor.line * b.size.columns + b2.cursor.column;
                lemma_place_ok(b2, ch);
            }
        }
    }
}

pub proof fn lemma_put_comb_ok(b: BS, ch: char)
    requires bs_ok(b), comb(ch),
    ensures bs_ok(put_comb(b, ch).0),
{
    reveal(bs_ok); reveal(area);
    lemma_blank_ok();
    let c = b.cursor;
    if !origin(c) {
        let p = prev(c, b.size);
        if inb(p, b.size) {
            lemma_ix(p, b.size);
            let k = ix(p, b.size);
            let t = if k > 0 && wide(b.cells[k - 1]) { k - 1 } else { k };
            let old = b.cells[t];
            let nw = mk(old.fg, old.bg, old.style, old.text@.push(ch));
            assert(text_ok(b.cells[t].text@));
            assert(nw.text@ == old.text@.push(ch));
            assert(nw.text@[0] == old.text@[0]);
            assert(text_ok(nw.text@));
            assert(wide(nw) == wide(old));
            let cells = b.cells.update(t, nw);
            let cols = b.size.columns as int;
            assert forall|i: int| 0 <= i < cells.len() && wide(#[trigger] cells[i]) implies
                i % cols + 1 < cols && i + 1 < cells.len() && cells[i + 1].text@ == seq![' '] by {
                assert(wide(b.cells[i]));
                assert(b.cells[i + 1].text@ == seq![' ']);
                if i + 1 == t {
                    // then t is a placeholder, and the mark would have gone to the wide cell
                    if t == k { } else { assert(wide(b.cells[t])); assert(seq![' '][0] == ' '); assert(false); }
                }
            }
        }
    }
}

pub proof fn lemma_put_spaces_ok(b: BS, n: nat)
    requires bs_ok(b),
    ensures bs_ok(put_spaces(b, n).0),
    decreases n,
{
    if n > 0 {
        lemma_blank_ok();
        broadcast use ax_width;
        assert(cw_opt(' ') is Some);
        lemma_put_vis_ok(b, ' ');
        if put_vis(b, ' ').1 { lemma_put_spaces_ok(put_vis(b, ' ').0, (n - 1) as nat); }
    }
}

/// the invariant does not depend on the cursor and attributes
pub proof fn lemma_frame_ok(b: BS, c: BS)
    requires bs_ok(b), c.cells == b.cells, c.size == b.size,
    ensures bs_ok(c),
{ reveal(bs_ok); reveal(area); }

pub proof fn lemma_rc(l: int, c: int, n: int, cols: int)
    requires 0 <= l < n, 0 <= c < cols
    ensures 0 <= l * cols + c < n * cols, (l * cols + c) % cols == c, (l * cols + c) / cols == l, l * cols >= 0,
{
    assert(l * cols + c < n * cols) by (nonlinear_arith) requires l < n, c < cols, cols >= 0;
    assert(l * cols >= 0) by (nonlinear_arith) requires l >= 0, cols >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l * cols + c, cols, l, c);
}
pub proof fn lemma_cr(i: int, n: int, cols: int)
    requires 0 <= i < n * cols, cols > 0
    ensures 0 <= i / cols < n, 0 <= i % cols < cols, i == (i / cols) * cols + i % cols,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, cols);
    vstd::arithmetic::mul::lemma_mul_is_commutative(cols, i / cols);
    let q = i / cols;
    assert(0 <= i % cols < cols);
    assert(q < n) by (nonlinear_arith) requires i == q * cols + i % cols, i < n * cols, 0 <= i % cols, cols > 0;
    assert(q >= 0) by (nonlinear_arith) requires i == q * cols + i % cols, i >= 0, i % cols < cols, cols > 0;
}

/// one line copied by a resize
pub proof fn lemma_step(g: Seq<Cell>, old: Size, new: Size, k: int, x0: Seq<Cell>, y0: Seq<Cell>, x1: Seq<Cell>, y1: Seq<Cell>, fa: Seq<Cell>, fb: Seq<Cell>)
    requires
        size_ok(old), size_ok(new), 0 <= k < old.lines, k < new.lines,
        g.len() == area(old), x0.len() == g.len(), y0.len() == area(new),
        forall|i: int| k * old.columns <= i < g.len() ==> #[trigger] x0[i] == g[i],
        part(g, old, new, k, y0),
        fa.len() == old.columns, fb.len() == new.columns,
        x1 == x0.subrange(0, k * old.columns) + fa + x0.subrange(chunk_end(g.len() as int, k, old.columns as int), g.len() as int),
        y1 == y0.subrange(0, k * new.columns) + fb + y0.subrange(chunk_end(y0.len() as int, k, new.columns as int), y0.len() as int),
        forall|c: int| 0 <= c < new.columns ==> #[trigger] fb[c] == keep(g, old, new, k, c),
    ensures
        x1.len() == x0.len(), y1.len() == y0.len(),
        forall|i: int| (k + 1) * old.columns <= i < g.len() ==> #[trigger] x1[i] == g[i],
        part(g, old, new, k + 1, y1),
{
    reveal(area);
    let (oc, nc) = (old.columns as int, new.columns as int);
    lemma_chunks(old.lines as int, oc);
    lemma_chunks(new.lines as int, nc);
    assert(chunk_end(old.lines * oc, k, oc) == (k + 1) * oc);
    assert(chunk_end(new.lines * nc, k, nc) == (k + 1) * nc);
    assert forall|l: int, c: int| 0 <= l < new.lines && 0 <= c < nc implies
        #[trigger] y1[l * nc + c] == (if l < k + 1 { keep(g, old, new, l, c) } else { blank() }) by {
        lemma_rc(l, c, new.lines as int, nc);
        assert(y0[l * nc + c] == (if l < k { keep(g, old, new, l, c) } else { blank() }));
        if l < k {
            lemma_rc(l, c, k, nc);
        } else if l == k {
            assert(y1[k * nc + c] == fb[c]);
        } else {
            assert(l * nc >= (k + 1) * nc) by (nonlinear_arith) requires l >= k + 1, nc > 0;
        }
    }
}
pub proof fn lemma_row(g: Seq<Cell>, old: Size, new: Size, k: int, x0: Seq<Cell>, y0: Seq<Cell>, a0: Seq<Cell>, b0: Seq<Cell>)
    requires
        size_ok(old), size_ok(new), 0 <= k < old.lines, k < new.lines,
        g.len() == area(old), x0.len() == g.len(), y0.len() == area(new),
        wide_ok(g, old.columns as int),
        forall|i: int| k * old.columns <= i < g.len() ==> #[trigger] x0[i] == g[i],
        part(g, old, new, k, y0),
        a0 == x0.subrange(k * old.columns, chunk_end(g.len() as int, k, old.columns as int)),
        b0 == y0.subrange(k * new.columns, chunk_end(y0.len() as int, k, new.columns as int)),
    ensures
        a0.len() == old.columns, b0.len() == new.columns,
        forall|c: int| 0 <= c < new.columns ==> #[trigger] b0[c] == blank(),
        !wide(a0[old.columns - 1]),
        forall|c: int| 0 <= c < new.columns ==> #[trigger] keep(g, old, new, k, c) ==
            (if c < old.columns { if wide(a0[c]) && c + 1 >= new.columns { blank() } else { a0[c] } } else { blank() }),
{
    reveal(area);
    let (oc, nc) = (old.columns as int, new.columns as int);
    lemma_chunks(old.lines as int, oc);
    lemma_chunks(new.lines as int, nc);
    assert(chunk_end(old.lines * oc, k, oc) == (k + 1) * oc);
    assert(chunk_end(new.lines * nc, k, nc) == (k + 1) * nc);
    assert forall|c: int| 0 <= c < nc implies #[trigger] b0[c] == blank() by {
        assert(y0[k * nc + c] == blank());
    }
    assert forall|c: int| 0 <= c < oc implies #[trigger] a0[c] == g[k * oc + c] by {
        lemma_rc(k, c, old.lines as int, oc);
    }
    lemma_rc(k, oc - 1, old.lines as int, oc);
    assert(a0[oc - 1] == g[k * oc + (oc - 1)]);
}
pub proof fn lemma_part0(g: Seq<Cell>, old: Size, new: Size)
    requires size_ok(old), size_ok(new), g.len() == area(old),
    ensures g.len() > 0,
        forall|y: Seq<Cell>| y.len() == area(new) && (forall|i: int| 0 <= i < y.len() ==> y[i] == blank())
            ==> #[trigger] part(g, old, new, 0, y),
        forall|y: Seq<Cell>, k: int| #[trigger] part(g, old, new, k, y) && (k == old.lines && k <= new.lines || k == new.lines && k <= old.lines) ==> kept(g, old, new, y),
{
    reveal(area);
    assert(old.lines * old.columns > 0) by (nonlinear_arith) requires old.lines > 0, old.columns > 0;
    assert forall|y: Seq<Cell>| y.len() == area(new) && (forall|i: int| 0 <= i < y.len() ==> y[i] == blank())
        implies #[trigger] part(g, old, new, 0, y) by {
        assert forall|l: int, c: int| 0 <= l < new.lines && 0 <= c < new.columns implies
            #[trigger] y[l * new.columns + c] == (if l < 0 { keep(g, old, new, l, c) } else { blank() }) by {
            lemma_rc(l, c, new.lines as int, new.columns as int);
        }
    }
}

/// C04, C05: a resize keeps the invariant
pub proof fn lemma_kept_ok(b: BS, new: Size, r: Seq<Cell>)
    requires bs_ok(b), size_ok(new), kept(b.cells, b.size, new, r),
    ensures bs_ok(BS { cells: r, size: new, ..b }),
{
    reveal(bs_ok); reveal(area);
    lemma_blank_ok();
    assert(seq![' '][0] == ' ');
    let nc = new.columns as int;
    let oc = b.size.columns as int;
    assert forall|i: int| 0 <= i < r.len() implies text_ok(#[trigger] r[i].text@) by {
        lemma_cr(i, new.lines as int, nc);
        let (l, c) = (i / nc, i % nc);
        assert(r[l * nc + c] == keep(b.cells, b.size, new, l, c));
        if l < b.size.lines && c < oc { lemma_rc(l, c, b.size.lines as int, oc); }
    }
    assert forall|i: int| 0 <= i < r.len() && wide(#[trigger] r[i]) implies
        i % nc + 1 < nc && i + 1 < r.len() && r[i + 1].text@ == seq![' '] by {
        lemma_cr(i, new.lines as int, nc);
        let (l, c) = (i / nc, i % nc);
        assert(r[l * nc + c] == keep(b.cells, b.size, new, l, c));
        lemma_rc(l, c, b.size.lines as int, oc);
        let k = l * oc + c;
        assert(wide(b.cells[k]));
        assert(c + 1 < oc);
        lemma_rc(l, c + 1, new.lines as int, nc);
        lemma_rc(l, c + 1, b.size.lines as int, oc);
        assert(r[l * nc + (c + 1)] == keep(b.cells, b.size, new, l, c + 1));
        assert(b.cells[k + 1].text@ == seq![' ']);
    }
}

/// C04: the invariant is kept by writing any character
pub proof fn lemma_put_ok(b: BS, ch: char)
    requires bs_ok(b), !odd(ch),
    ensures bs_ok(put(b, ch).0),
{
    broadcast use ax_width;
    assert(cw_opt(ch) is Some ==> cw_opt(ch)->0 <= 3);
    if ch == '\t' {
        if inb(b.cursor, b.size) { lemma_put_spaces_ok(b, tab_width(b)); }
    } else if ch == '\r' || ch == '\n' {
        reveal(bs_ok); reveal(area);
    } else if comb(ch) { lemma_put_comb_ok(b, ch); }
    else if vis(ch) { lemma_put_vis_ok(b, ch); }
}

pub proof fn lemma_puts_ok(b: BS, s: Seq<char>)
    requires bs_ok(b), no_odd(s),
    ensures bs_ok(puts(b, s).0),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_put_ok(b, s[0]);
        if put(b, s[0]).1 {
            assert(no_odd(s.drop_first())) by {
                assert forall|i: int| 0 <= i < s.drop_first().len() implies !odd(#[trigger] s.drop_first()[i]) by {
                    assert(s.drop_first()[i] == s[i + 1]);
                }
            }
            lemma_puts_ok(put(b, s[0]).0, s.drop_first());
        }
    }
}

} // verus!
