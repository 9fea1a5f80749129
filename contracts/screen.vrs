//@ include common.vrs
//@ include cell.vrs
//@ include io.vrs
//@ use buffer.vrs
//@ use sysall.vrs mod=sys names="World,Database,Cap,Dev,TCell,TerminalWriteGuard,CursorMode,tot,dv,dev,info,grows,lemma_grows,same_attrs,silent,did,now,ready,agree,attrd,can_fg,can_bg,can_style,has_exits,sane,step_cap,to_line,to_column,here,utf8,printed,ax_print,ax_dev,vcap,ext,no_attrs" opaque=grows,did,now,ready
verus! {
//@ rewrite MutexGuard < 'a , $t! > ==> $t
//@ type src/unix/screen.rs Writer
//@ type src/unix/screen.rs ScreenWriteGuard
//@ world clear_screen clear_attributes set_attrs write_str flush move_cursor apply_attrs draw refresh set_cursor_mode drop__ drop_screen__

//@ fn src/terminal.rs From for Cursor::from as=from__
    ensures r.line == tup__.0, r.column == tup__.1,
//@ sigrewrite ( ( line , column ) : ( usize , usize ) ) ==> (tup__: (usize, usize))
//@ start
    let (line, column) = tup__;
//@ end
//@ rewrite ( $a , $b ) . into ( ) ==> Cursor::from__(($a, $b))
//@ rewrite eprintln ! ( $m , $x! ) ==> ()

pub open spec fn s_last(s: Size) -> Cursor { Cursor { line: (s.lines - 1) as usize, column: (s.columns - 1) as usize } }

// ---------------------------------------------------------------------------
// what the terminal shows of a screen
// ---------------------------------------------------------------------------
/// a cell on this terminal, which may lack some attributes
pub open spec fn shown(i: Database, c: Cell) -> TCell { TCell::Shown(mk(can_fg(i, c.fg), can_bg(i, c.bg), can_style(i, c.style), c.text@)) }
pub open spec fn cell_shown(i: Database, d: Dev, k: int, c: Cell) -> bool { d.cells[k] == shown(i, c) && (wide(c) ==> k + 1 < d.cells.len() && d.cells[k + 1] is Cont) }
/// C01: every cell of the screen, but for the second columns of wide characters, which these fill
#[verifier::opaque]
pub open spec fn displays(i: Database, d: Dev, b: Seq<Cell>) -> bool { forall|k: int| 0 <= k < b.len() && !covered(b, k) ==> #[trigger] cell_shown(i, d, k, b[k]) }
/// what is remembered as shown is shown
#[verifier::opaque]
pub open spec fn synced(i: Database, d: Dev, back: Seq<Cell>) -> bool { forall|k: int| 0 <= k < back.len() && back[k].text@.len() > 0 ==> #[trigger] cell_shown(i, d, k, back[k]) }
/// nothing is
#[verifier::opaque]
pub open spec fn all_void(back: Seq<Cell>) -> bool { forall|k: int| 0 <= k < back.len() ==> #[trigger] back[k] == void() }
/// the cells up to here are as remembered
pub open spec fn done(b: Seq<Cell>, back: Seq<Cell>, n: int) -> bool { forall|k: int| 0 <= k < n && !covered(b, k) ==> b[k] == #[trigger] back[k] }
pub open spec fn fits(d: Dev, s: Size) -> bool { d.lines == s.lines && d.columns == s.columns }
/// the device's cursor is where it is believed to be
pub open spec fn cursor_at(d: Dev, c: Cursor, s: Size) -> bool { inb(c, s) ==> d.line == c.line && d.column == c.column && !d.pending }
/// each cell goes to the device through the buffer
pub open spec fn small(b: Seq<Cell>, g: TerminalWriteGuard) -> bool { forall|k: int| 0 <= k < b.len() ==> utf8(#[trigger] b[k].text@).len() <= vcap(g.writer.out_buffer) }
/// where the cursor is shown
pub open spec fn target(b: BS) -> Cursor { if inb(b.cursor, b.size) { b.cursor } else { s_last(b.size) } }
/// a screen between its operations: what it believes of the device is so
pub open spec fn believes(i: Database, d: Dev, data: Writer) -> bool {
    &&& data.buffer.wf()
    &&& data.clear_screen ==> all_void(data.buffer.back_buffer@)
    &&& !data.clear_screen ==> synced(i, d, data.buffer.back_buffer@) && cursor_at(d, data.real_cursor, data.buffer.size)
}
/// the screen has been cleared
pub open spec fn wiped(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard) -> bool { exists|b: Seq<u8>| wiped_at(w0, g0, w1, g1, b) }
pub open spec fn wiped_at(w0: World, g0: TerminalWriteGuard, w1: World, g1: TerminalWriteGuard, b: Seq<u8>) -> bool {
    ext(tot(w0, g0), b) && ext(b, tot(w1, g1)) && dev(info(g0), w0.env, b) == step_cap(dv(w0, g0), Cap::ClearScreen, Seq::empty())
}
/// after a refresh that went well
pub open spec fn refreshed(d: Dev, i: Database, b: BS, g: TerminalWriteGuard) -> bool {
    &&& displays(i, d, b.cells)
    &&& d.line == target(b).line && d.column == target(b).column && !d.pending
    &&& no_attrs(d) && g.writer.fg is None && g.writer.bg is None && g.writer.cur_style == Style::s_empty()
    &&& g.writer.out_buffer@.len() == 0
}
/// there is nothing to do
pub open spec fn idle(data: Writer, g: TerminalWriteGuard) -> bool {
    &&& !data.clear_screen && data.real_cursor == target(data.buffer.st())
    &&& done(data.buffer.buffer@, data.buffer.back_buffer@, data.buffer.buffer@.len() as int)
    &&& g.writer.fg is None && g.writer.bg is None && g.writer.cur_style == Style::s_empty() && g.writer.out_buffer@.len() == 0
}

pub proof fn lemma_void(i: Database, d: Dev, b: Seq<Cell>, back: Seq<Cell>)
    ensures all_void(back) ==> synced(i, d, back), done(b, back, 0)
{ reveal(all_void); reveal(synced); broadcast use ax_sstr; }
/// moving and changing attributes shows nothing
pub proof fn lemma_kept(i: Database, d0: Dev, d1: Dev, back: Seq<Cell>)
    requires d0.cells == d1.cells, synced(i, d0, back)
    ensures synced(i, d1, back)
{ reveal(synced); assert forall|k: int| 0 <= k < back.len() && back[k].text@.len() > 0 implies #[trigger] cell_shown(i, d1, k, back[k]) by { assert(cell_shown(i, d0, k, back[k])); } }
/// all cells are as remembered
pub proof fn lemma_all(i: Database, d: Dev, st: BS, back: Seq<Cell>)
    requires bs_ok(st), st.cells.len() == back.len(), synced(i, d, back), done(st.cells, back, st.cells.len() as int)
    ensures displays(i, d, st.cells)
{
    reveal(synced); reveal(displays);
    assert forall|k: int| 0 <= k < st.cells.len() && !covered(st.cells, k) implies #[trigger] cell_shown(i, d, k, st.cells[k]) by {
        lemma_cell(st, k);
        assert(st.cells[k] == back[k]);
        assert(cell_shown(i, d, k, back[k]));
    }
}
/// drawing the next cell that differs
pub proof fn lemma_draw(i: Database, env: int, t: Seq<u8>, st: BS, back: Seq<Cell>, pos: Cursor, d: Dev, n: int)
    requires
        bs_ok(st), inb(pos, st.size), st.cells.len() == back.len(), n <= ix(pos, st.size),
        fits(d, st.size), d == dev(i, env, t), d.ground, cursor_at(d, pos, st.size),
        ({ let k = ix(pos, st.size); let c = st.cells[k];
            &&& !covered(st.cells, k) && st.cells[k] != back[k]
            &&& d == attrd(i, d, c.fg, c.bg, c.style)
            &&& done(st.cells, back, n)
            &&& forall|j: int| n <= j < k && !covered(st.cells, j) ==> st.cells[j] == #[trigger] back[j]
            &&& synced(i, d, back) }),
    ensures
        ({ let k = ix(pos, st.size); let c = st.cells[k]; let b1 = back.update(k, c); let b2 = if wide(c) { b1.update(k + 1, void()) } else { b1 };
            let d1 = dev(i, env, t + utf8(c.text@)); let w = if wide(c) { 2int } else { 1int };
            &&& d1 == printed(d, c.text@) && d1.ground && fits(d1, st.size) && d1 == attrd(i, d1, c.fg, c.bg, c.style)
            &&& synced(i, d1, b2)
            &&& done(st.cells, b2, k + w)
            &&& pos.column + w <= st.size.columns
            &&& cursor_at(d1, Cursor { line: pos.line, column: (pos.column + w) as usize }, st.size) }),
{
    let k = ix(pos, st.size); let b = st.cells; let c = b[k]; let b1 = back.update(k, c); let b2 = if wide(c) { b1.update(k + 1, void()) } else { b1 };
    lemma_ix(pos, st.size); lemma_shape(st); ax_dev(i, env, t); lemma_cell(st, k);
    broadcast use {ax_sstr, ax_smallstr_ext};
    reveal(ix); reveal(area);
    let tx = c.text@;
    assert(wide(c) <==> cw(tx[0]) == 2);
    assert(pos.column + cw(tx[0]) <= st.size.columns) by {
        if wide(c) { reveal(bs_ok); assert(k % (st.size.columns as int) + 1 < st.size.columns); lemma_rc(pos.line as int, pos.column as int, st.size.lines as int, st.size.columns as int); }
    }
    ax_print(i, env, t, tx);
    let d1 = printed(d, tx);
    assert(here(d) == k);
    assert(mk(d.fg, d.bg, d.style, tx) == mk(can_fg(i, c.fg), can_bg(i, c.bg), can_style(i, c.style), tx));
    assert(done(b, b2, k + cw(tx[0]))) by {
        assert forall|j: int| 0 <= j < k + cw(tx[0]) && !covered(b, j) implies b[j] == #[trigger] b2[j] by {
            if j < n { assert(b[j] == back[j]); } else if j < k { assert(b[j] == back[j]); }
        }
    }
    reveal(synced);
    assert forall|j: int| 0 <= j < b2.len() && b2[j].text@.len() > 0 implies #[trigger] cell_shown(i, d1, j, b2[j]) by {
        if j == k {
        } else {
            assert(b2[j] == back[j]);
            assert(cell_shown(i, d, j, back[j]));
            if j + 1 == k {
                // not the first half of a wide character that is cut
                if wide(back[j]) {
                    if covered(b, j) {
                        // its own cell shows the second half of the one before
                        assert(wide(b[j - 1]));
                        lemma_cell(st, j - 1);
                        if !covered(b, j - 1) {
                            assert(b[j - 1] == back[j - 1]) by { }
                            lemma_cell(st, j - 1);
                            assert(cell_shown(i, d, j - 1, back[j - 1]));
                        } else {
                            assert(wide(b[j - 2]));
                            lemma_cell(st, j - 2);
                        }
                        assert(false);
                    } else {
                        assert(b[j] == back[j]) by { }
                        assert(false);
                    }
                }
            }
        }
    }
}

/// attributes are as believed, and the device has the size of the screen
#[verifier::opaque]
pub open spec fn okay(w: World, g: TerminalWriteGuard, s: Size) -> bool { ready(w, g) && fits(dv(w, g), s) }
pub open spec fn same_cells(a: Dev, b: Dev) -> bool { a.cells == b.cells && a.line == b.line && a.column == b.column && a.pending == b.pending }
pub proof fn lemma_okay(s: Size)
    ensures
        forall|w: World, g: TerminalWriteGuard| #[trigger] okay(w, g, s) ==> ready(w, g) && fits(dv(w, g), s) && dv(w, g).ground,
        forall|w: World, g: TerminalWriteGuard| #[trigger] ready(w, g) && fits(dv(w, g), s) ==> okay(w, g, s),
        forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard| #[trigger] okay(w1, g1, s) && #[trigger] grows(w1, g1, w2, g2) && silent(w1, g1, w2, g2) && same_attrs(g1, g2) ==> okay(w2, g2, s) && dv(w2, g2) == dv(w1, g1),
        forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard, able: bool, ok: bool, d: Dev| #[trigger] okay(w1, g1, s) && #[trigger] did(w1, g1, w2, g2, able, ok, d) ==>
            (!ok && sane(info(g1)) ==> okay(w2, g2, s)) && (ok && d == step_cap(dv(w1, g1), Cap::ClearScreen, Seq::empty()) ==> okay(w2, g2, s) && home(dv(w2, g2))),
        forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard, fg: Option<Color>, bg: Option<Color>, style: Style| #[trigger] okay(w1, g1, s) && grows(w1, g1, w2, g2) && #[trigger] now(w1, g1, w2, g2, fg, bg, style) ==>
            okay(w2, g2, s) && same_cells(dv(w1, g1), dv(w2, g2)) && dv(w2, g2) == attrd(info(g1), dv(w2, g2), fg, bg, style) && g2.writer.fg == fg && g2.writer.bg == bg && g2.writer.cur_style == style,
        forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard| #[trigger] okay(w1, g1, s) && #[trigger] grows(w1, g1, w2, g2) && same_attrs(g1, g2) && dv(w2, g2).ground && fits(dv(w2, g2), s)
            && dv(w2, g2) == attrd(info(g1), dv(w2, g2), g1.writer.fg, g1.writer.bg, g1.writer.cur_style) ==> okay(w2, g2, s),
        forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard, pos: Cursor| #[trigger] okay(w1, g1, s) && grows(w1, g1, w2, g2) && same_attrs(g1, g2) && #[trigger] placed(dv(w1, g1), dv(w2, g2), pos) ==> okay(w2, g2, s),
        forall|w: World, g: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard| #[trigger] now(w2, g2, w, g, None, None, Style::s_empty()) && okay(w2, g2, s) ==> no_attrs(dv(w, g)) && g.writer.fg is None && g.writer.bg is None && g.writer.cur_style == Style::s_empty(),
{
    reveal(okay); reveal(grows); reveal(did); reveal(now); reveal(ready);
}
pub open spec fn placed(d0: Dev, d1: Dev, pos: Cursor) -> bool { d1 == (Dev { line: pos.line as int, column: pos.column as int, pending: false, ..d0 }) }
pub proof fn lemma_trans(w0: World, g0: TerminalWriteGuard)
    ensures
        grows(w0, g0, w0, g0),
        forall|w1: World, g1: TerminalWriteGuard| #[trigger] grows(w0, g0, w1, g1) ==> w1.env == w0.env && g1.term == g0.term && vcap(g0.writer.out_buffer) <= vcap(g1.writer.out_buffer),
        forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard| #[trigger] grows(w0, g0, w1, g1) && #[trigger] grows(w1, g1, w2, g2) ==> grows(w0, g0, w2, g2),
{ reveal(grows);
}
pub open spec fn home(d: Dev) -> bool { d.line == 0 && d.column == 0 && !d.pending }
pub proof fn lemma_wipe(w0: World, g0: TerminalWriteGuard)
    ensures forall|w1: World, g1: TerminalWriteGuard, able: bool, d: Dev| #[trigger] did(w0, g0, w1, g1, able, true, d) && dv(w0, g0).ground && d == step_cap(dv(w0, g0), Cap::ClearScreen, Seq::empty()) ==> wiped(w0, g0, w1, g1),
{ reveal(did); reveal(grows);
    assert forall|w1: World, g1: TerminalWriteGuard, able: bool, d: Dev| #[trigger] did(w0, g0, w1, g1, able, true, d) && dv(w0, g0).ground && d == step_cap(dv(w0, g0), Cap::ClearScreen, Seq::empty()) implies wiped(w0, g0, w1, g1) by {
        assert(wiped_at(w0, g0, w1, g1, tot(w1, g1)));
    }
}
pub proof fn lemma_wiped(w0: World, g0: TerminalWriteGuard)
    ensures forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard| #[trigger] wiped(w0, g0, w1, g1) && #[trigger] grows(w1, g1, w2, g2) ==> wiped(w0, g0, w2, g2),
{ reveal(grows);
    assert forall|w1: World, g1: TerminalWriteGuard, w2: World, g2: TerminalWriteGuard| #[trigger] wiped(w0, g0, w1, g1) && #[trigger] grows(w1, g1, w2, g2) implies wiped(w0, g0, w2, g2) by {
        let b = choose|b: Seq<u8>| wiped_at(w0, g0, w1, g1, b);
        assert(wiped_at(w0, g0, w2, g2, b));
    }
}
pub proof fn lemma_start(i: Database, st: BS, back: Seq<Cell>, d0: Dev)
    requires bs_ok(st), back.len() == st.cells.len()
    ensures
        forall|d: Dev| all_void(back) ==> #[trigger] synced(i, d, back),
        forall|k: Seq<Cell>, d1: Dev, d2: Dev| #[trigger] synced(i, d1, k) && d1.cells == d2.cells ==> #[trigger] synced(i, d2, k),
        forall|k: Seq<Cell>, d1: Dev, d2: Dev| k.len() == st.cells.len() && #[trigger] synced(i, d1, k) && done(st.cells, k, st.cells.len() as int) && d1.cells == d2.cells ==> #[trigger] displays(i, d2, st.cells),
        st.cells.len() > 0, inb(s_last(st.size), st.size), !covered(st.cells, 0),
        forall|k: Seq<Cell>| #[trigger] all_void(k) && k.len() == st.cells.len() ==> k[0] != st.cells[0],
{
    assert forall|d: Dev| all_void(back) implies #[trigger] synced(i, d, back) by { lemma_void(i, d, st.cells, back); }
    assert forall|k: Seq<Cell>, d1: Dev, d2: Dev| #[trigger] synced(i, d1, k) && d1.cells == d2.cells implies #[trigger] synced(i, d2, k) by { lemma_kept(i, d1, d2, k); }
    assert forall|k: Seq<Cell>, d1: Dev, d2: Dev| k.len() == st.cells.len() && #[trigger] synced(i, d1, k) && done(st.cells, k, st.cells.len() as int) && d1.cells == d2.cells implies #[trigger] displays(i, d2, st.cells) by { lemma_kept(i, d1, d2, k); lemma_all(i, d2, st, k); }
    lemma_shape(st);
    assert(st.cells.len() > 0) by { reveal(area); assert(st.size.lines * st.size.columns > 0) by (nonlinear_arith) requires st.size.lines > 0, st.size.columns > 0; }
    assert forall|k: Seq<Cell>| #[trigger] all_void(k) && k.len() == st.cells.len() implies k[0] != st.cells[0] by { reveal(all_void); broadcast use ax_sstr; lemma_cell(st, 0); assert(k[0] == void()); }
}
/// the first cell is drawn when nothing is remembered
pub proof fn lemma_first(st: BS, back: Seq<Cell>, pos: Cursor)
    requires bs_ok(st), inb(pos, st.size), back.len() == st.cells.len()
    ensures
        all_void(back) && (forall|j: int| 0 <= j < ix(pos, st.size) && !covered(st.cells, j) ==> st.cells[j] == #[trigger] back[j]) ==> pos.line == 0 && pos.column == 0,
        0 <= ix(pos, st.size) < st.cells.len(),
        forall|k: Seq<Cell>| #[trigger] all_void(k) && k.len() == st.cells.len() ==> k[0] != st.cells[0],
{
    lemma_shape(st); lemma_ix(pos, st.size);
    assert forall|k: Seq<Cell>| #[trigger] all_void(k) && k.len() == st.cells.len() implies k[0] != st.cells[0] by { reveal(all_void); broadcast use ax_sstr; lemma_cell(st, 0); assert(k[0] == void()); }
    if all_void(back) && ix(pos, st.size) > 0 && (forall|j: int| 0 <= j < ix(pos, st.size) && !covered(st.cells, j) ==> st.cells[j] == #[trigger] back[j]) {
        reveal(all_void); broadcast use ax_sstr; lemma_cell(st, 0);
        assert(st.cells[0] == back[0]); assert(back[0] == void());
    }
    if ix(pos, st.size) == 0 { reveal(ix); assert(pos.line == 0 && pos.column == 0) by (nonlinear_arith) requires pos.line * st.size.columns + pos.column == 0, st.size.columns > 0, pos.line >= 0, pos.column >= 0; }
}
pub proof fn lemma_keep(i: Database, d0: Dev, back: Seq<Cell>)
    ensures synced(i, d0, back) ==> forall|d: Dev| d.cells == d0.cells ==> #[trigger] synced(i, d, back)
{
    assert forall|d: Dev| synced(i, d0, back) && d.cells == d0.cells implies #[trigger] synced(i, d, back) by { lemma_kept(i, d0, d, back); }
}
/// lemma_draw, for whatever has been sent by then
pub open spec fn drawn(i: Database, env: int, st: BS, back: Seq<Cell>, pos: Cursor, t: Seq<u8>) -> bool {
    let k = ix(pos, st.size); let c = st.cells[k]; let b1 = back.update(k, c); let b2 = if wide(c) { b1.update(k + 1, void()) } else { b1 };
    let d1 = dev(i, env, t + utf8(c.text@)); let w = if wide(c) { 2int } else { 1int };
    &&& d1.ground && fits(d1, st.size) && d1 == attrd(i, d1, c.fg, c.bg, c.style)
    &&& synced(i, d1, b2)
    &&& done(st.cells, b2, k + w)
    &&& pos.column + w <= st.size.columns
    &&& cursor_at(d1, Cursor { line: pos.line, column: (pos.column + w) as usize }, st.size)
}
pub proof fn lemma_next(i: Database, env: int, st: BS, back: Seq<Cell>, pos: Cursor)
    requires bs_ok(st), inb(pos, st.size), st.cells.len() == back.len(), done(st.cells, back, ix(pos, st.size)), !covered(st.cells, ix(pos, st.size)), st.cells[ix(pos, st.size)] != back[ix(pos, st.size)],
    ensures
        forall|t: Seq<u8>| ({ let d = dev(i, env, t); let c = st.cells[ix(pos, st.size)];
            fits(d, st.size) && d.ground && cursor_at(d, pos, st.size) && d == attrd(i, d, c.fg, c.bg, c.style) && synced(i, d, back) })
            ==> (#[trigger] (t + utf8(st.cells[ix(pos, st.size)].text@))).len() >= 0 && drawn(i, env, st, back, pos, t)
{
    assert forall|t: Seq<u8>| ({ let d = dev(i, env, t); let c = st.cells[ix(pos, st.size)];
            fits(d, st.size) && d.ground && cursor_at(d, pos, st.size) && d == attrd(i, d, c.fg, c.bg, c.style) && synced(i, d, back) })
            implies (#[trigger] (t + utf8(st.cells[ix(pos, st.size)].text@))).len() >= 0 && drawn(i, env, st, back, pos, t) by {
        lemma_draw(i, env, t, st, back, pos, dev(i, env, t), ix(pos, st.size));
    }
}

//@ fn src/unix/screen.rs ScreenWriteGuard::move_cursor params="pos"
    requires ready(*old(w), old(self).writer), inb(pos, old(self).data.buffer.size), fits(dv(*old(w), old(self).writer), old(self).data.buffer.size),
        old(self).data.real_cursor == pos ==> cursor_at(dv(*old(w), old(self).writer), pos, old(self).data.buffer.size),
    ensures
        grows(*old(w), old(self).writer, *final(w), final(self).writer), same_attrs(old(self).writer, final(self).writer),
        final(self).data.buffer == old(self).data.buffer, final(self).data.clear_screen == old(self).data.clear_screen,
        r is Ok ==> final(self).data.real_cursor == pos
            && placed(dv(*old(w), old(self).writer), dv(*final(w), final(self).writer), pos),
        r is Err && sane(info(old(self).writer)) ==> silent(*old(w), old(self).writer, *final(w), final(self).writer),
        old(self).data.real_cursor == pos ==> r is Ok && silent(*old(w), old(self).writer, *final(w), final(self).writer) && final(self).writer.writer.out_buffer@.len() == old(self).writer.writer.out_buffer@.len(),
//@ start
    proof { reveal(ready); reveal(did); reveal(grows); }
//@ end

//@ fn src/unix/screen.rs ScreenWriteGuard::apply_attrs params="attrs__"
    requires ready(*old(w), old(self).writer),
    ensures
        grows(*old(w), old(self).writer, *final(w), final(self).writer), final(self).data == old(self).data,
        r is Ok ==> now(*old(w), old(self).writer, *final(w), final(self).writer, attrs__.0, attrs__.1, attrs__.2),
        sane(info(old(self).writer)) ==> r is Ok,
//@ sigrewrite ( fg , bg , style ) : $t! ==> attrs__: $t
//@ start
    let (fg, bg, style) = attrs__;
//@ end

//@ fn src/unix/screen.rs ScreenWriteGuard::draw params="" attr="verifier::rlimit(60)"
    requires
        okay(*old(w), old(self).writer, old(self).data.buffer.size), believes(info(old(self).writer), dv(*old(w), old(self).writer), old(self).data),
    ensures
        grows(*old(w), old(self).writer, *final(w), final(self).writer),
        final(self).data.buffer.st() == old(self).data.buffer.st(), final(self).data.buffer.wf(),
        r is Ok ==> refreshed(dv(*final(w), final(self).writer), info(old(self).writer), old(self).data.buffer.st(), final(self).writer),
        r is Ok ==> idle(final(self).data, final(self).writer) && okay(*final(w), final(self).writer, old(self).data.buffer.size) && believes(info(old(self).writer), dv(*final(w), final(self).writer), final(self).data),
        idle(old(self).data, old(self).writer) ==> r is Ok,
        r is Ok && old(self).data.clear_screen ==> wiped(*old(w), old(self).writer, *final(w), final(self).writer),
        sane(info(old(self).writer)) && small(old(self).data.buffer.buffer@, old(self).writer) ==> okay(*final(w), final(self).writer, old(self).data.buffer.size),
//@ start
    let ghost w0 = *w; let ghost g0 = self.writer; let ghost i = info(g0); let ghost st = self.data.buffer.st(); let ghost env = w.env;
    let ghost mut back = self.data.buffer.back_buffer@;
    proof { lemma_okay(st.size); lemma_trans(w0, g0); lemma_wipe(w0, g0); lemma_wiped(w0, g0); lemma_start(i, st, back, dv(*w, self.writer)); lemma_shape(st); ax_dev(i, env, tot(*w, self.writer)); }
//@ loop 0 kind=while
    invariant_except_break
        cursor_at(dv(*w, self.writer), self.data.real_cursor, st.size) || all_void(back) && indices.start == 0 && home(dv(*w, self.writer)),
    invariant
        grows(w0, g0, *w, self.writer), w0 == *old(w), g0 == old(self).writer, i == info(g0), env == w0.env, st == old(self).data.buffer.st(),
        self.data.buffer.st() == st, self.data.buffer.wf(), okay(*w, self.writer, st.size), !self.data.clear_screen,
        old(self).data.clear_screen ==> wiped(w0, g0, *w, self.writer),
        indices.start <= indices.end, indices.end == st.cells.len(), indices.start < indices.end ==> !covered(st.cells, indices.start as int),
        back == self.data.buffer.back_buffer@, synced(i, dv(*w, self.writer), back), done(st.cells, back, indices.start as int),
        all_void(back) ==> back[0] != st.cells[0], st.cells.len() > 0, !covered(st.cells, 0),
        idle(old(self).data, g0) ==> idle(self.data, self.writer),
    ensures
        done(st.cells, back, st.cells.len() as int), cursor_at(dv(*w, self.writer), self.data.real_cursor, st.size),
    decreases indices.end - indices.start,
//@ loopbody 0
            let ghost back0 = back;
            proof {
                back = self.data.buffer.back_buffer@;
                lemma_okay(st.size); lemma_trans(w0, g0); lemma_wiped(w0, g0); lemma_shape(st); lemma_first(st, back0, pos);
                lemma_keep(i, dv(*w, self.writer), back0);
                lemma_next(i, env, st, back0, pos);
            }
//@ end

/// nothing is known of what is shown, and the next refresh draws all
pub open spec fn unknown(data: Writer) -> bool { data.buffer.wf() && all_void(data.buffer.back_buffer@) && data.real_cursor == (Cursor { line: usize::MAX, column: usize::MAX }) }
pub proof fn lemma_unknown(i: Database, env: int)
    ensures
        forall|back: Seq<Cell>| (forall|k: int| 0 <= k < back.len() ==> #[trigger] back[k] == void()) ==> #[trigger] all_void(back),
        forall|d: Dev, data: Writer| unknown(data) ==> #[trigger] believes(i, d, data),
{
    reveal(all_void); reveal(synced); broadcast use ax_sstr;
}
//@ fn src/unix/screen.rs ScreenWriteGuard::refresh params=""
    requires
        okay(*old(w), old(self).writer, old(self).data.buffer.size), believes(info(old(self).writer), dv(*old(w), old(self).writer), old(self).data),
    ensures
        grows(*old(w), old(self).writer, *final(w), final(self).writer),
        final(self).data.buffer.st() == old(self).data.buffer.st(), final(self).data.buffer.wf(),
        r is Ok ==> refreshed(dv(*final(w), final(self).writer), info(old(self).writer), old(self).data.buffer.st(), final(self).writer),
        r is Ok ==> idle(final(self).data, final(self).writer) && okay(*final(w), final(self).writer, old(self).data.buffer.size),
        idle(old(self).data, old(self).writer) ==> r is Ok,
        r is Ok && old(self).data.clear_screen ==> wiped(*old(w), old(self).writer, *final(w), final(self).writer),
        r is Err ==> unknown(final(self).data),
        believes(info(old(self).writer), dv(*final(w), final(self).writer), final(self).data),
        sane(info(old(self).writer)) && small(old(self).data.buffer.buffer@, old(self).writer) ==> okay(*final(w), final(self).writer, old(self).data.buffer.size),
//@ start
    proof { lemma_unknown(info(self.writer), w.env); assert(!0usize == usize::MAX) by (bit_vector); }
//@ end

/// a screen that was written: refreshed when it could be
pub open spec fn tidied(w0: World, s0: ScreenWriteGuard, w1: World, s1: ScreenWriteGuard) -> bool {
    &&& grows(w0, s0.writer, w1, s1.writer)
    &&& s1.data.buffer.st() == s0.data.buffer.st() && s1.data.buffer.wf()
    &&& unknown(s1.data) || refreshed(dv(w1, s1.writer), info(s0.writer), s0.data.buffer.st(), s1.writer) && okay(w1, s1.writer, s0.data.buffer.size) && idle(s1.data, s1.writer)
        && (s0.data.clear_screen ==> wiped(w0, s0.writer, w1, s1.writer))
    &&& idle(s0.data, s0.writer) ==> idle(s1.data, s1.writer)
    &&& believes(info(s0.writer), dv(w1, s1.writer), s1.data)
    &&& sane(info(s0.writer)) && small(s0.data.buffer.buffer@, s0.writer) ==> okay(w1, s1.writer, s0.data.buffer.size)
}
//@ fn src/unix/screen.rs Drop for ScreenWriteGuard::drop as=drop_screen__ params=""
    requires
        okay(*old(w), old(self).writer, old(self).data.buffer.size), believes(info(old(self).writer), dv(*old(w), old(self).writer), old(self).data),
    ensures tidied(*old(w), *old(self), *final(w), *final(self)),
//@ end

//@ fn src/unix/screen.rs ScreenWriteGuard::set_cursor_mode params="mode"
    ensures final(self).data == old(self).data,
        grows(*old(w), old(self).writer, *final(w), final(self).writer), same_attrs(old(self).writer, final(self).writer),
        r is Ok && dv(*old(w), old(self).writer).ground && info(old(self).writer).knows(Cap::CursorNormal) && info(old(self).writer).knows(Cap::CursorInvisible)
            ==> dv(*final(w), final(self).writer) == (Dev { visible: !(mode is Invisible), ..dv(*old(w), old(self).writer) }),
        sane(info(old(self).writer)) ==> r is Ok,
//@ end

/// the screen after the terminal's size changed: nothing that was shown is believed to be
pub open spec fn resized(a: Writer, b: Writer, new_size: Size) -> bool {
    &&& b.buffer.wf() && b.clear_screen && all_void(b.buffer.back_buffer@)
    &&& b.buffer.st() == (BS { size: new_size, cells: b.buffer.buffer@, ..a.buffer.st() })
    &&& a.buffer.size == new_size ==> b.buffer.buffer@ == a.buffer.buffer@
    &&& a.buffer.size != new_size ==> kept(a.buffer.buffer@, a.buffer.size, new_size, b.buffer.buffer@)
}
//@ fn src/unix/screen.rs Writer::update_size params="new_size"
    requires old(self).buffer.wf(), size_ok(new_size),
    ensures resized(*old(self), *final(self), new_size),
        forall|i: Database, d: Dev| #[trigger] believes(i, d, *final(self)),
//@ start
    proof { reveal(all_void); assert(!0usize == usize::MAX) by (bit_vector); }
//@ end
} // verus!
fn main() {}
