//! What a screen holds, told from the properties C02 to C06 alone.
use crate::ops::Op;
use crate::vt::{width, At};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Rc { One(String, At), Wide(String, At), Cont(At) }

pub struct RefScreen { pub lines: usize, pub cols: usize, pub cells: Vec<Rc>, pub cur: (usize, usize), pub at: At }

fn blank() -> Rc { Rc::One(" ".into(), At::default()) }
fn joins(c: char) -> bool { unicode_normalization::char::is_combining_mark(c) }

impl RefScreen {
    pub fn new(lines: usize, cols: usize) -> RefScreen {
        RefScreen { lines, cols, cells: vec![blank(); lines * cols], cur: (0, 0), at: At::default() }
    }
    fn inside(&self, p: (usize, usize)) -> bool { p.0 < self.lines && p.1 < self.cols }
    fn put(&mut self, l: usize, c: usize, new: Rc) {
        let i = l * self.cols + c;
        match self.cells[i].clone() {
            Rc::Wide(_, a) if c + 1 < self.cols => self.cells[i + 1] = Rc::One(" ".into(), a),
            Rc::Cont(_) if c > 0 => self.cells[i - 1] = blank(),
            _ => (),
        }
        self.cells[i] = new;
    }
    fn ch(&mut self, ch: char) -> bool {
        match ch {
            '\t' => {
                if !self.inside(self.cur) { return false }
                let stop = ((self.cur.1 / 8 + 1) * 8).min(self.cols);
                for _ in self.cur.1..stop { if !self.ch(' ') { return false } }
            }
            '\r' => self.cur.1 = 0,
            '\n' => self.cur = (self.cur.0.saturating_add(1), 0),
            _ if joins(ch) => {
                // the character before the cursor
                let p = if self.cur.1 > 0 { (self.cur.0, self.cur.1 - 1) }
                    else if self.cur.0 > 0 { (self.cur.0 - 1, self.cols - 1) }
                    else { return true };
                if !self.inside(p) { return false }
                let mut i = p.0 * self.cols + p.1;
                if let Rc::Cont(_) = self.cells[i] { i -= 1 }
                match &mut self.cells[i] { Rc::One(t, _) | Rc::Wide(t, _) => t.push(ch), _ => unreachable!() }
            }
            _ if width(ch) == 0 => (),
            _ => {
                let w = width(ch);
                if !self.inside(self.cur) || w > self.cols { return false }
                let (mut l, mut c) = self.cur;
                if c + w > self.cols {
                    for k in c..self.cols { self.put(l, k, Rc::One(" ".into(), self.at)) }
                    l += 1;
                    c = 0;
                    self.cur = (l, c);
                    if !self.inside(self.cur) { return false }
                }
                if w == 1 { self.put(l, c, Rc::One(ch.to_string(), self.at)) }
                else {
                    self.put(l, c, blank());
                    self.put(l, c + 1, blank());
                    self.cells[l * self.cols + c] = Rc::Wide(ch.to_string(), self.at);
                    self.cells[l * self.cols + c + 1] = Rc::Cont(self.at);
                }
                self.cur.1 += w;
                if self.cur.1 >= self.cols { self.cur = (l + 1, 0) }
            }
        }
        true
    }
    fn text(&mut self, s: &str) { for c in s.chars() { if !self.ch(c) { return } } }
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Write(s) | Op::Fmt(s) => self.text(s),
            Op::Chars(s) => for c in s.chars() { self.ch(c); },
            Op::At(l, c, s) => if self.inside((*l, *c)) { self.cur = (*l, *c); self.text(s) },
            Op::Styled(a, s) => { self.at = *a; self.text(s); self.at = At::default() }
            Op::StyledAt(l, c, a, s) => if self.inside((*l, *c)) { self.cur = (*l, *c); self.at = *a; self.text(s); self.at = At::default() },
            Op::Cursor(l, c) => self.cur = (*l, *c),
            Op::NextLine(c) => self.cur = (self.cur.0.saturating_add(1), *c),
            Op::Clear => self.cells = vec![blank(); self.lines * self.cols],
            Op::ClearAttrs => self.at = At::default(),
            Op::AddStyle(b) | Op::Sugar(b) => self.at.st |= b,
            Op::RemoveStyle(b) => self.at.st &= !b,
            Op::SetStyle(b) => self.at.st = *b,
            Op::Fg(c) => self.at.fg = *c,
            Op::Bg(c) => self.at.bg = *c,
            Op::Theme(a) => self.at = *a,
            Op::Resize(l, c, _) => self.resize(*l, *c),
            Op::Refresh | Op::FailRefresh(_) => (),
            Op::Batch(v) => for o in v { self.apply(o) },
        }
    }
    fn resize(&mut self, lines: usize, cols: usize) {
        let mut n = vec![blank(); lines * cols];
        for l in 0..lines.min(self.lines) {
            for c in 0..cols.min(self.cols) {
                let cell = self.cells[l * self.cols + c].clone();
                n[l * cols + c] = match cell { Rc::Wide(..) if c + 1 >= cols => blank(), x => x };
            }
        }
        self.lines = lines;
        self.cols = cols;
        self.cells = n;
    }
}
