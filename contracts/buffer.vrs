//@ include common.vrs
//@ include cell.vrs
//@ include bufmodel.vrs
verus! {

//@ fn src/priv_util.rs is_visible
    ensures r == vis(ch),
//@ start
    broadcast use ax_width;
//@ end

//@ fn src/buffer.rs ScreenBuffer::new
    requires size_ok(size),
    ensures r.wf(), forall|i: int| 0 <= i < r.buffer@.len() ==> r.buffer@[i] == blank(),
        r.st() == (BS { cells: r.buffer@, size, cursor: Cursor::s_default(), fg: None, bg: None, style: Style::s_empty() }),
        r.back_buffer@ == r.buffer@, // [C01]
//@ start
    broadcast use lemma_blank_screen;
//@ end

//@ fn src/buffer.rs ScreenBuffer::cursor
    ensures r == self.cursor,
//@ end
//@ fn src/buffer.rs ScreenBuffer::size
    ensures r == self.size,
//@ end
//@ fn src/buffer.rs ScreenBuffer::set_cursor
    ensures
        final(self).st() == (BS { cursor: pos, ..old(self).st() }),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ end
//@ fn src/buffer.rs ScreenBuffer::next_line
    ensures final(self).st() == (BS { cursor: Cursor { line: sat1(old(self).cursor.line), column }, ..old(self).st() }),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ end
//@ fn src/buffer.rs ScreenBuffer::clear_attributes
    ensures final(self).st() == with_attrs(old(self).st(), None, None, Style::s_empty()),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ end
//@ fn src/buffer.rs ScreenBuffer::add_style
    ensures final(self).st() == (BS { style: old(self).style.s_union(style), ..old(self).st() }),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ end
//@ fn src/buffer.rs ScreenBuffer::remove_style
    ensures final(self).st() == (BS { style: old(self).style.s_diff(style), ..old(self).st() }),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ end
//@ fn src/buffer.rs ScreenBuffer::set_style
    ensures
        final(self).st() == (BS { style, ..old(self).st() }),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ end
//@ fn src/buffer.rs ScreenBuffer::set_fg
    ensures
        final(self).st() == (BS { fg, ..old(self).st() }),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ end
//@ fn src/buffer.rs ScreenBuffer::set_bg
    ensures
        final(self).st() == (BS { bg, ..old(self).st() }),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ end
//@ fn src/buffer.rs ScreenBuffer::set_theme
    ensures final(self).st() == with_attrs(old(self).st(), theme.fg, theme.bg, theme.style),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ end

//@ fn src/buffer.rs ScreenBuffer::cell_mut
    requires old(self).shape(), inb(pos, old(self).size),
    ensures *r == old(self).buffer@[ix(pos, old(self).size)],
        final(self).st() == (BS { cells: old(self).buffer@.update(ix(pos, old(self).size), *final(r)), ..old(self).st() }),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ start
    proof { lemma_ix(pos, self.size); }
//@ end

//@ fn src/buffer.rs ScreenBuffer::set_cell
    requires old(self).shape(), inb(pos, old(self).size),
    ensures
        final(self).st() == (BS { cells: old(self).buffer@.update(ix(pos, old(self).size), ink(old(self).st(), seq![ch])), ..old(self).st() }),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ start
    broadcast use {ax_smallstr_ext, ax_sstr};
//@ end

//@ fn src/buffer.rs ScreenBuffer::try_cursor
    ensures r is Ok <==> inb(self.cursor, self.size),
//@ end
//@ fn src/buffer.rs ScreenBuffer::try_cursor_at
    ensures r is Ok <==> inb(pos, self.size),
//@ end

//@ fn src/buffer.rs ScreenBuffer::write_char attr="verifier::rlimit(200);verifier::spinoff_prover"
    requires old(self).wf(), !odd(ch),
    ensures
        final(self).st() == put(old(self).st(), ch).0,
        r is Ok <==> put(old(self).st(), ch).1,
        final(self).back_buffer == old(self).back_buffer, // [C01]
        final(self).wf(),
    decreases (if ch == '\t' { 1int } else { 0int }),
//@ start
    let ghost b0 = self.st();
    broadcast use {ax_smallstr_ext, lemma_update_same};
    let ghost k0 = ix(b0.cursor, b0.size);
    let ghost b1 = BS { cells: unwide(b0.cells, k0), ..b0 };
    let ghost b2 = BS { cells: b1.cells.update(k0, ink(b0, seq![' '])),
        cursor: Cursor { line: sat1(b0.cursor.line), column: 0 }, ..b0 };
    proof {
        lemma_put_ok(b0, ch);
        lemma_char(ch); lemma_char(' ');
        lemma_prev_ix(b0.cursor, b0.size);
        if !origin(b0.cursor) { lemma_prev_ix(prev(b0.cursor, b0.size), b0.size); }
        if inb(b2.cursor, b0.size) { lemma_ix(b2.cursor, b0.size); }
    }
//@ loop 0 kind=for iter=it
    invariant
        self.wf(), self.size == b0.size, n == tab_width(b0),
        self.back_buffer == old(self).back_buffer,
        b0 == old(self).st(), ch == '\t', inb(b0.cursor, b0.size), cw(' ') == 1, !comb(' '),
        put(b0, ch) == put_spaces(b0, n as nat),
        put_spaces(self.st(), (n - it.index@) as nat) == put_spaces(b0, n as nat),
//@ loop 1 kind=for iter=it
    invariant
        self.shape(), self.size == b0.size, rem == 1, inb(b0.cursor, b0.size), b0.cursor.column + 1 == b0.size.columns,
        self.back_buffer == old(self).back_buffer,
        k0 == ix(b0.cursor, b0.size),
        it.index@ == 0 ==> pos == b0.cursor && self.st() == b1,
        it.index@ == 1 ==> self.st() == (BS { cursor: b0.cursor, ..b2 }),
        b2.cells == b1.cells.update(k0, ink(b0, seq![' '])),
        b1 == (BS { cells: unwide(b0.cells, k0), ..b0 }),
        b2 == (BS { cells: b2.cells, cursor: b2.cursor, ..b0 }),
//@ loop 2 kind=for iter=it
    invariant
        self.shape(), 1 <= width <= 2, width == cw(ch),
        self.back_buffer == old(self).back_buffer,
        inb(self.cursor, self.size), self.cursor.column + width <= self.size.columns,
        pos.line == self.cursor.line,
        bp.cursor == self.cursor, bp.size == self.size,
        self.st() == (BS { cells: self.buffer@, ..bp }),
        it.index@ == 0 ==> pos == self.cursor && self.buffer@ == bp.cells.update(ix(bp.cursor, bp.size), ink(bp, seq![ch])),
        it.index@ == 1 ==> width == 2 && self.buffer@ == bp.cells.update(ix(bp.cursor, bp.size), ink(bp, seq![ch]))
            .update(ix(bp.cursor, bp.size) + 1, ink(bp, seq![' '])),
//@ loopbody 2
            proof { lemma_next_ix(bp.cursor, bp.size); }
//@ hint before #1 let mut pos = self . cursor ;
            let ghost bp = self.st();
            assert(bp == if b0.cursor.column + cw(ch) <= b0.size.columns { b1 } else { b2 });
//@ hint before #1 let rem = self . size . columns - self . cursor . column ;
            assert(self.st() == b1);
//@ end

//@ fn src/buffer.rs ScreenBuffer::write_str
    requires old(self).wf(), no_odd(s@),
    ensures
        final(self).st() == puts(old(self).st(), s@).0,
        r is Ok <==> puts(old(self).st(), s@).1,
        final(self).back_buffer == old(self).back_buffer, // [C01]
        final(self).wf(),
//@ start
    let ghost b0 = self.st();
    assert(s@.skip(0) =~= s@);
//@ hint before self . write_char ( ch )
            proof {
                assert(s@.skip(it.index@ as int)[0] == s@[it.index@ as int]);
                assert(s@.skip(it.index@ as int).drop_first() =~= s@.skip(it.index@ + 1));
            }
//@ loop 0 kind=for iter=it
    invariant
        self.wf(), self.back_buffer == old(self).back_buffer, no_odd(s@), b0 == old(self).st(),
        puts(b0, s@) == puts(self.st(), s@.skip(it.index@ as int)),
//@ end

//@ fn src/buffer.rs ScreenBuffer::write_at
    requires old(self).wf(), no_odd(text@),
    ensures
        !inb(pos, old(self).size) ==> r is Err && final(self).st() == old(self).st(),
        inb(pos, old(self).size) ==> final(self).st() == puts(at(old(self).st(), pos), text@).0
            && (r is Ok <==> puts(at(old(self).st(), pos), text@).1),
        final(self).back_buffer == old(self).back_buffer, // [C01]
        final(self).wf(),
//@ start
    proof { lemma_frame_ok(self.st(), at(self.st(), pos)); }
//@ end

//@ fn src/buffer.rs ScreenBuffer::write_styled
    requires old(self).wf(), no_odd(text@),
    ensures
        final(self).st() == styled(old(self).st(), fg, bg, style, text@).0,
        r is Ok <==> styled(old(self).st(), fg, bg, style, text@).1,
        final(self).back_buffer == old(self).back_buffer, // [C01]
        final(self).wf(),
//@ start
    proof {
        lemma_frame_ok(self.st(), with_attrs(self.st(), fg, bg, style));
        let b = with_attrs(self.st(), fg, bg, style);
        lemma_puts_ok(b, text@);
        lemma_frame_ok(puts(b, text@).0, styled(self.st(), fg, bg, style, text@).0);
    }
//@ end

//@ fn src/buffer.rs ScreenBuffer::write_styled_at
    requires old(self).wf(), no_odd(text@),
    ensures
        !inb(pos, old(self).size) ==> r is Err && final(self).st() == old(self).st(),
        inb(pos, old(self).size) ==> final(self).st() == styled(at(old(self).st(), pos), fg, bg, style, text@).0
            && (r is Ok <==> styled(at(old(self).st(), pos), fg, bg, style, text@).1),
        final(self).back_buffer == old(self).back_buffer, // [C01]
        final(self).wf(),
//@ start
    proof { lemma_frame_ok(self.st(), at(self.st(), pos)); }
//@ end

//@ fn src/buffer.rs ScreenBuffer::clear_screen
    requires old(self).wf(),
    ensures final(self).wf(), final(self).buffer@.len() == old(self).buffer@.len(),
        forall|i: int| 0 <= i < final(self).buffer@.len() ==> final(self).buffer@[i] == blank(),
        final(self).st() == (BS { cells: final(self).buffer@, ..old(self).st() }),
        final(self).back_buffer == old(self).back_buffer, // [C01]
//@ rewrite for $x! in & mut self . buffer $b! ==> let mut i__ = 0usize; while i__ < self.buffer.len() { let $x = &mut self.buffer[i__]; $b i__ += 1; }
//@ start
    broadcast use lemma_blank_screen;
    let ghost b0 = self.st();
//@ loop 0 kind=while
    invariant
        0 <= i__ <= self.buffer@.len(), self.shape(), self.back_buffer == old(self).back_buffer, self.back_buffer@.len() == self.buffer@.len(),
        forall|i: int| 0 <= i < i__ ==> self.buffer@[i] == blank(),
        b0 == old(self).st(), self.st() == (BS { cells: self.buffer@, ..b0 }), b0.cells.len() == self.buffer@.len(),
    decreases self.buffer@.len() - i__,
//@ end

//@ fn src/buffer.rs ScreenBuffer::indices
    requires self.shape(),
    ensures r.start == 0, r.end == self.buffer@.len(),
//@ end

//@ fn src/buffer.rs ScreenBuffer::next_cell
    requires old(self).wf(), old(indices).start <= old(indices).end, old(indices).end == old(self).buffer@.len(),
        old(indices).start < old(indices).end ==> !covered(old(self).buffer@, old(indices).start as int),
    ensures
        final(self).st() == old(self).st(), final(self).wf(),
        final(indices).end == old(indices).end, old(indices).start <= final(indices).start <= final(indices).end,
        final(indices).start < final(indices).end ==> !covered(old(self).buffer@, final(indices).start as int),
        r is None ==> final(self).back_buffer == old(self).back_buffer
            && (forall|i: int| old(indices).start <= i < old(indices).end && !covered(old(self).buffer@, i) ==>
                old(self).buffer@[i] == #[trigger] old(self).back_buffer@[i]),
        r matches Some((pos, cell)) ==> inb(pos, old(self).size) && ({
            let k = ix(pos, old(self).size);
            let b = old(self).buffer@;
            let b1 = old(self).back_buffer@.update(k, cell);
            &&& old(indices).start <= k < old(indices).end && !covered(b, k)
            &&& cell == b[k] && b[k] != old(self).back_buffer@[k]
            &&& forall|i: int| old(indices).start <= i < k && !covered(b, i) ==> b[i] == #[trigger] old(self).back_buffer@[i]
            &&& final(indices).start == k + (if wide(cell) { 2int } else { 1int })
            &&& final(self).back_buffer@ == (if wide(cell) { b1.update(k + 1, void()) } else { b1 })
        }),
//@ start
    let ghost b = self.buffer@;
    let ghost s0 = indices.start;
//@ loop 0 kind=while
    invariant
        self.wf(), b == self.buffer@, b == old(self).buffer@, s0 == old(indices).start,
        self.st() == old(self).st(), self.back_buffer == old(self).back_buffer,
        s0 <= indices.start <= indices.end, indices.end == b.len(), indices.end == old(indices).end,
        indices.start < indices.end ==> !covered(b, indices.start as int),
        forall|i: int| s0 <= i < indices.start && !covered(b, i) ==> b[i] == #[trigger] self.back_buffer@[i],
    ensures indices.start == indices.end,
    decreases indices.end - indices.start,
//@ loopbody 0
            proof {
                reveal(ix); reveal(area);
                let k = indices.start - 1;
                lemma_cr(k, self.size.lines as int, self.size.columns as int);
                lemma_cell(self.st(), k);
                if k + 1 < b.len() { lemma_cell(self.st(), k + 1); }
            }
//@ end

//@ fn src/buffer.rs ScreenBuffer::invalidate
    requires old(self).wf(),
    ensures final(self).wf(), final(self).st() == old(self).st(),
        forall|i: int| 0 <= i < final(self).back_buffer@.len() ==> final(self).back_buffer@[i] == void(),
//@ end

//@ fn src/buffer.rs new_buffer
    requires size_ok(new_size),
    ensures final(buf)@.len() == area(new_size),
        forall|i: int| 0 <= i < final(buf)@.len() ==> final(buf)@[i] == void(),
//@ end

//@ fn src/buffer.rs resize_buffer params="buf size0 size1" attr="verifier::rlimit(40)"
    requires size_ok(size0), size_ok(size1), old(buf)@.len() == area(size0),
        wide_ok(old(buf)@, size0.columns as int),
    ensures size0 == size1 ==> final(buf)@ == old(buf)@,
        size0 != size1 ==> kept(old(buf)@, size0, size1, final(buf)@),
//@ rewrite for ( $a , $b ) in $x . chunks_mut ( $n ) . zip ( $y . chunks_mut ( $m ) ) $body! ==> let n__ = $n; let m__ = $m; let mut k__ = 0usize; while k__ < $x.nchunks__(n__) && k__ < $y.nchunks__(m__) { proof { reveal(area); lemma_chunks(size0g.lines as int, oc); lemma_chunks(size1g.lines as int, nc); } let ghost x0__ = $x@; let ghost y0__ = $y@; let $a = $x.chunk__(k__, n__); let $b = $y.chunk__(k__, m__); let ghost fa__ = final($a)@; let ghost fb__ = final($b)@; let ghost a0__ = $a@; let ghost b0__ = $b@; proof { lemma_row(g0, size0g, size1g, k__ as int, x0__, y0__, a0__, b0__); } $body proof { lemma_step(g0, size0g, size1g, k__ as int, x0__, y0__, buf@, new_buf@, fa__, fb__); } k__ += 1; }
//@ start
    let ghost g0 = buf@;
    let ghost size0g = size0;
    let ghost size1g = size1;
    let ghost oc = size0.columns as int;
    let ghost nc = size1.columns as int;
    proof {
        reveal(area);
        lemma_chunks(size0.lines as int, oc);
        lemma_chunks(size1.lines as int, nc);
        lemma_part0(g0, size0, size1);
    }
//@ hint before #0 * buf = new_buf
    proof { assert(new_buf@.len() == area(size1));
      assert(g0.len() > 0);
     assert(part(g0, size0, size1, if size0.lines <= size1.lines { size0.lines as int } else { size1.lines as int } , new_buf@)); }
//@ loop 0 kind=while
    invariant
        size_ok(size0), size_ok(size1), size0 != size1, size0g == size0, size1g == size1, n__ == size0.columns, m__ == size1.columns,
        oc == size0.columns, nc == size1.columns, n_cols == (if oc <= nc { oc } else { nc }),
        g0.len() == area(size0), wide_ok(g0, oc), buf@.len() == g0.len(), new_buf@.len() == area(size1),
        nchunks(g0.len() as int, oc) == size0.lines, nchunks(new_buf@.len() as int, nc) == size1.lines,
        0 <= k__ <= size0.lines, k__ <= size1.lines,
        forall|i: int| k__ * oc <= i < g0.len() ==> #[trigger] buf@[i] == g0[i],
        part(g0, size0, size1, k__ as int, new_buf@),
    decreases size0.lines - k__,
//@ loop 1 kind=for iter=it
    invariant
        n_cols == (if oc <= nc { oc } else { nc }),
        size0@.len() == oc, size1@.len() == nc, a0__.len() == oc,
        final(size0)@ == fa__, final(size1)@ == fb__,
        forall|j: int| it.index@ <= j < oc ==> #[trigger] size0@[j] == a0__[j],
        forall|j: int| 0 <= j < it.index@ ==> #[trigger] size1@[j] == a0__[j],
        forall|j: int| it.index@ <= j < nc ==> #[trigger] size1@[j] == blank(),
//@ end


//@ fn src/buffer.rs ScreenBuffer::resize
    requires old(self).wf(), size_ok(new_size),
    ensures final(self).wf(),
        final(self).st() == (BS { size: new_size, cells: final(self).buffer@, ..old(self).st() }),
        old(self).size == new_size ==> final(self).buffer@ == old(self).buffer@,
        old(self).size != new_size ==> kept(old(self).buffer@, old(self).size, new_size, final(self).buffer@),
        forall|i: int| 0 <= i < final(self).back_buffer@.len() ==> final(self).back_buffer@[i] == void(),
//@ start
    let ghost b0 = self.st();
    proof { reveal(bs_ok); reveal(area); }
//@ hint before #0 self . size = new_size ;
    proof { if b0.size != new_size { lemma_kept_ok(b0, new_size, self.buffer@); } }
//@ end

} // verus!
fn main() {}
