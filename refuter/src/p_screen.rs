//! C01 to C06
use crate::dev::{self, R, W};
use crate::fw::*;
use crate::ops::*;
use crate::refscreen::{Rc, RefScreen};
use crate::vt::{At, Slot, Vt};
use mortal::unix::TerminalExt;
use mortal::{Event, PrepareConfig, Screen, Size, Terminal};
use std::mem::ManuallyDrop;
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Case { pub lines: usize, pub cols: usize, pub ops: Vec<Op> }

fn shrink(c: &Case) -> Vec<Case> {
    let mut o: Vec<Case> = cuts(&c.ops).into_iter().map(|ops| Case { ops, ..c.clone() }).collect();
    for (i, op) in c.ops.iter().enumerate() {
        let mut alt = |n: Op| { let mut ops = c.ops.clone(); ops[i] = n; o.push(Case { ops, ..c.clone() }) };
        match op {
            Op::Batch(v) => for w in cuts(v) { alt(Op::Batch(w)) },
            Op::Write(s) | Op::Chars(s) | Op::Fmt(s) => for w in cuts(&s.chars().collect::<Vec<_>>()) { alt(Op::Write(w.into_iter().collect())) },
            Op::At(l, k, s) => for w in cuts(&s.chars().collect::<Vec<_>>()) { alt(Op::At(*l, *k, w.into_iter().collect())) },
            Op::Styled(a, s) => for w in cuts(&s.chars().collect::<Vec<_>>()) { alt(Op::Styled(*a, w.into_iter().collect())) },
            Op::StyledAt(l, k, a, s) => for w in cuts(&s.chars().collect::<Vec<_>>()) { alt(Op::StyledAt(*l, *k, *a, w.into_iter().collect())) },
            _ => (),
        }
    }
    o
}

/// Compares cells seen on a surface with what the screen has to hold
fn compare(r: &RefScreen, seen: &[Slot], what: &str) -> Result<(), String> {
    for l in 0..r.lines {
        for c in 0..r.cols {
            let i = l * r.cols + c;
            let ok = match (&r.cells[i], &seen[i]) {
                (Rc::One(t, a), Slot::Ch(u, b)) => t == u && a == b,
                (Rc::Wide(t, a), Slot::Ch(u, b)) => t == u && a == b && c + 1 < r.cols && seen[i + 1] == Slot::Cont,
                (Rc::Cont(_), Slot::Cont) => true,
                _ => false,
            };
            if !ok { return Err(format!("{what}: cell ({l},{c}) is {:?}, expected {:?}", seen[i], r.cells[i])) }
        }
    }
    Ok(())
}

macro_rules! apply_to {
    ($s:expr, $op:expr) => {
        match $op {
            Op::Write(t) => $s.write_str(t),
            Op::Chars(t) => for c in t.chars() { $s.write_char(c) },
            Op::Fmt(t) => $s.write_fmt(format_args!("{}{}", t, "")),
            Op::At(l, c, t) => $s.write_at((*l, *c), t),
            Op::Styled(a, t) => $s.write_styled(color(a.fg), color(a.bg), style(a.st), t),
            Op::StyledAt(l, c, a, t) => $s.write_styled_at((*l, *c), color(a.fg), color(a.bg), style(a.st), t),
            Op::Cursor(l, c) => $s.set_cursor((*l, *c)),
            Op::NextLine(c) => $s.next_line(*c),
            Op::Clear => $s.clear_screen(),
            Op::ClearAttrs => $s.clear_attributes(),
            Op::AddStyle(b) => $s.add_style(style(*b)),
            Op::RemoveStyle(b) => $s.remove_style(style(*b)),
            Op::SetStyle(b) => $s.set_style(style(*b)),
            Op::Sugar(b) => {
                if b & 1 != 0 { $s.bold() }
                if b & 2 != 0 { $s.italic() }
                if b & 4 != 0 { $s.reverse() }
                if b & 8 != 0 { $s.underline() }
            }
            Op::Fg(c) => $s.set_fg(color(*c)),
            Op::Bg(c) => $s.set_bg(color(*c)),
            Op::Theme(a) => $s.set_theme(theme(*a)),
            _ => (),
        }
    };
}

// ---------------------------------------------------------------- the buffer itself

#[cfg(mortal_verif)]
fn run_buffer(c: &Case) -> Result<(), String> {
    use mortal::verif::ScreenBuffer;
    let mut b = ScreenBuffer::new(Size { lines: c.lines, columns: c.cols });
    let mut r = RefScreen::new(c.lines, c.cols);
    fn one(b: &mut ScreenBuffer, op: &Op) {
        match op {
            Op::Write(t) | Op::Fmt(t) => { let _ = b.write_str(t); }
            Op::Chars(t) => for ch in t.chars() { let _ = b.write_char(ch); },
            Op::At(l, k, t) => { let _ = b.write_at((*l, *k).into(), t); }
            Op::Styled(a, t) => { let _ = b.write_styled(color(a.fg), color(a.bg), style(a.st), t); }
            Op::StyledAt(l, k, a, t) => { let _ = b.write_styled_at((*l, *k).into(), color(a.fg), color(a.bg), style(a.st), t); }
            Op::Cursor(l, k) => b.set_cursor((*l, *k).into()),
            Op::NextLine(k) => b.next_line(*k),
            Op::Clear => b.clear_screen(),
            Op::ClearAttrs => b.clear_attributes(),
            Op::AddStyle(s) | Op::Sugar(s) => b.add_style(style(*s)),
            Op::RemoveStyle(s) => b.remove_style(style(*s)),
            Op::SetStyle(s) => b.set_style(style(*s)),
            Op::Fg(x) => b.set_fg(color(*x)),
            Op::Bg(x) => b.set_bg(color(*x)),
            Op::Theme(a) => b.set_theme(theme(*a)),
            Op::Resize(l, k, _) => b.resize(Size { lines: *l, columns: *k }),
            Op::Batch(v) => for o in v { one(b, o) },
            Op::Refresh | Op::FailRefresh(_) => (),
        }
    }
    fn view(b: &mut ScreenBuffer) -> Result<Vec<Slot>, String> {
        let s = b.size();
        let mut g = vec![Slot::Garbage; s.lines * s.columns];
        b.invalidate();
        let mut ix = b.indices();
        while let Some((p, cell)) = b.next_cell(&mut ix) {
            if p.line >= s.lines || p.column >= s.columns { return Err(format!("cell outside the screen {p:?}")) }
            let i = p.line * s.columns + p.column;
            g[i] = Slot::Ch(cell.text().to_string(), at_of(cell.attrs()));
            if cell.text().chars().next().map_or(0, crate::vt::width) == 2 && p.column + 1 < s.columns { g[i + 1] = Slot::Cont }
        }
        Ok(g)
    }
    let check = |b: &mut ScreenBuffer, r: &RefScreen, what: &str| -> Result<(), String> {
        let s = b.size();
        if (s.lines, s.columns) != (r.lines, r.cols) { return Err(format!("{what}: size {s:?}")) }
        let p = b.cursor();
        if (p.line, p.column) != r.cur { return Err(format!("{what}: cursor {p:?}, expected {:?}", r.cur)) }
        compare(r, &view(b)?, what)
    };
    for (i, op) in c.ops.iter().enumerate() {
        one(&mut b, op);
        r.apply(op);
        if i + 1 == c.ops.len() || i % 3 == 2 { check(&mut b, &r, &format!("after operation {i}"))?; }
    }
    // the attributes in force show on the next character
    for op in [Op::Cursor(0, 0), Op::Write("p".into())] { one(&mut b, &op); r.apply(&op) }
    check(&mut b, &r, "attributes in force at the end")
}
#[cfg(not(mortal_verif))]
fn run_buffer(c: &Case) -> Result<(), String> { run_screen(c) }

// ---------------------------------------------------------------- a whole screen on a device

pub struct Rig { pub s: ManuallyDrop<Screen>, pub vt: Vt, pub r: RefScreen }

pub fn e2s<T>(r: std::io::Result<T>, what: &str) -> Result<T, String> { r.map_err(|e| format!("{what}: unexpected error {e}")) }

impl Rig {
    pub fn new(lines: usize, cols: usize) -> Result<Rig, String> {
        dev::open("xterm-vrf", lines as u16, cols as u16);
        let s = e2s(Screen::with_terminal(e2s(Terminal::new(), "open")?, PrepareConfig::default()), "screen")?;
        Ok(Rig { s: ManuallyDrop::new(s), vt: Vt::new(lines, cols), r: RefScreen::new(lines, cols) })
    }
    fn sync(&mut self) { let o = dev::take_out(); self.vt.feed(&o) }
    fn check(&mut self, what: &str) -> Result<(), String> {
        self.sync();
        let r = &self.r;
        if self.vt.pending() != 0 { return Err(format!("{what}: an unfinished sequence was sent")) }
        if let Some(b) = self.vt.bad.first() { return Err(format!("{what}: sent to the terminal: {b}")) }
        compare(r, &self.vt.grid, what)?;
        let cur = if r.cur.0 < r.lines && r.cur.1 < r.cols { r.cur } else { (r.lines - 1, r.cols - 1) };
        if self.vt.cur != cur { return Err(format!("{what}: terminal cursor at {:?}, expected {cur:?}", self.vt.cur)) }
        let p = self.s.cursor();
        if (p.line, p.column) != r.cur { return Err(format!("{what}: cursor {p:?}, expected {:?}", r.cur)) }
        let z = self.s.size();
        if (z.lines, z.columns) != (r.lines, r.cols) { return Err(format!("{what}: size {z:?}")) }
        Ok(())
    }
    pub fn step(&mut self, i: usize, op: &Op) -> Result<(), String> {
        let what = format!("after operation {i}");
        match op {
            Op::Refresh => { e2s(self.s.refresh(), "refresh")?; return self.check(&what) }
            Op::FailRefresh(n) => {
                let w = match n % 4 { 0 => vec![W::Fail(libc::EIO)], 1 => vec![W::Short(n / 4), W::Fail(libc::EIO)], 2 => vec![W::Short(n / 4), W::Zero], _ => vec![W::Intr, W::Short(n / 8), W::Short(n / 16), W::Fail(libc::ENOSPC)] };
                dev::dev().w = w.into();
                let res = self.s.refresh();
                let left = dev::dev().w.len();
                dev::dev().w.clear();
                self.sync();
                let told = !std::mem::take(&mut dev::dev().err).is_empty();
                if res.is_ok() && left == 0 && !told { return Err(format!("{what}: an output error was not reported")) }
                // a success is one all the same
                if res.is_ok() && !told { return self.check(&what) }
            }
            Op::Resize(l, c, raw) => {
                dev::dev().size = (*l as u16, *c as u16);
                self.sync();
                self.vt.resize(*l, *c);
                dev::raise(libc::SIGWINCH);
                let want = Some(Event::Resize(Size { lines: *l, columns: *c }));
                let t = Some(Duration::from_millis(0));
                let ev = if *raw { let mut b = [0u8; 8]; let s: &mut Screen = &mut self.s; if i % 2 == 0 { s.read_raw(&mut b, t) } else { s.lock_read().unwrap().read_raw(&mut b, t) } }
                    else if i % 2 == 0 { self.s.read_event(t) } else { self.s.lock_read().unwrap().read_event(t) };
                let ev = e2s(ev, "read")?;
                if ev != want { return Err(format!("{what}: read gave {ev:?}, expected {want:?}")) }
                self.r.apply(op);
                let z = self.s.size();
                if (z.lines, z.columns) != (*l, *c) { return Err(format!("{what}: the resize was not applied, size is {z:?}")) }
            }
            Op::Batch(v) => {
                let mut g = self.s.lock_write().unwrap();
                for o in v {
                    if let Op::Refresh = o { e2s(g.refresh(), "refresh")?; continue }
                    apply_to!(g, o);
                    self.r.apply(o);
                    let p = g.cursor();
                    if (p.line, p.column) != self.r.cur { return Err(format!("{what}: cursor {p:?}, expected {:?}", self.r.cur)) }
                }
                drop(g);
                if !dev::dev().err.is_empty() { return Err(format!("{what}: {}", String::from_utf8_lossy(&dev::dev().err))) }
                return self.check(&what);
            }
            _ => { apply_to!(self.s, op); self.r.apply(op) }
        }
        Ok(())
    }
}

fn run_screen(c: &Case) -> Result<(), String> {
    let mut g = Rig::new(c.lines, c.cols)?;
    for (i, op) in c.ops.iter().enumerate() { g.step(i, op)? }
    let n = c.ops.len();
    g.step(n, &Op::Refresh)?;
    // the attributes in force show on the next character
    g.step(n, &Op::Cursor(0, 0))?;
    g.step(n, &Op::Chars("p".into()))?;
    g.step(n, &Op::Refresh)?;
    dev::dev().r.push_back(R::Timeout);
    let vt = &g.vt;
    if vt.at != At::default() { return Err("attributes stay active on the terminal after a refresh".into()) }
    unsafe { ManuallyDrop::drop(&mut g.s) }
    Ok(())
}

// ---------------------------------------------------------------- generators

struct G { wide: bool, comb: bool, zero: bool, ctl: bool, oob: bool, styled: usize, attrs: usize, resize: usize, refresh: usize, fail: usize, maxlen: usize }

fn pos(r: &mut Rng, l: usize, c: usize, oob: bool) -> (usize, usize) {
    if !oob { return (r.below(l), r.below(c)) }
    let f = |r: &mut Rng, n: usize| match r.below(8) { 0 => n, 1 => n + 1, 2 => usize::MAX, 3 => usize::MAX - 1, 4 => n.wrapping_sub(1), _ => r.below(n) };
    (f(r, l), f(r, c))
}

fn gen_op(r: &mut Rng, g: &G, size: &mut (usize, usize), inner: bool) -> Op {
    let m = Mix { wide: g.wide, comb: g.comb, zero: g.zero, ctl: g.ctl, maxlen: g.maxlen };
    let (l, c) = *size;
    loop {
        let k = r.below(100 + g.styled + g.attrs + g.resize + g.refresh + g.fail);
        return match k {
            0..=24 => Op::Write(gen_text(r, m)),
            25..=34 => Op::Chars(gen_text(r, m)),
            35..=39 => Op::Fmt(gen_text(r, m)),
            40..=59 => { let p = pos(r, l, c, g.oob); Op::At(p.0, p.1, gen_text(r, m)) }
            60..=79 => { let p = pos(r, l, c, g.oob); Op::Cursor(p.0, p.1) }
            80..=84 => Op::NextLine(pos(r, l, c, g.oob).1),
            85..=87 => Op::Clear,
            88..=99 => if inner { continue } else {
                let n = r.below(4);
                Op::Batch((0..n).map(|_| gen_op(r, &G { resize: 0, refresh: if g.refresh > 0 { 5 } else { 0 }, fail: 0, ..*g }, size, true)).collect())
            },
            k if k < 100 + g.styled => {
                let p = pos(r, l, c, g.oob);
                let t = gen_text(r, m);
                if r.chance(1, 2) { Op::Styled(gen_at(r), t) } else { Op::StyledAt(p.0, p.1, gen_at(r), t) }
            }
            k if k < 100 + g.styled + g.attrs => match r.below(9) {
                0 => Op::ClearAttrs,
                1 => Op::AddStyle(r.below(16) as u8),
                2 => Op::RemoveStyle(r.below(16) as u8),
                3 => Op::SetStyle(r.below(16) as u8),
                4 => Op::Sugar(1 << r.below(4)),
                5 | 6 => Op::Fg(gen_at(r).fg),
                7 => Op::Bg(gen_at(r).bg),
                _ => Op::Theme(gen_at(r)),
            },
            k if k < 100 + g.styled + g.attrs + g.resize => {
                let n = if r.chance(1, 6) { *size } else { (r.range(1, 5), r.range(1, 9)) };
                *size = n;
                Op::Resize(n.0, n.1, r.chance(1, 2))
            }
            k if k < 100 + g.styled + g.attrs + g.resize + g.refresh => Op::Refresh,
            _ => Op::FailRefresh(r.below(400)),
        };
    }
}

fn gen(r: &mut Rng, g: &G, maxops: usize) -> Case {
    let (lines, cols) = if r.chance(1, 10) { (r.range(1, 3), r.range(7, 20)) } else { (r.range(1, 4), r.range(1, 6)) };
    let mut size = (lines, cols);
    let n = r.range(1, maxops);
    Case { lines, cols, ops: (0..n).map(|_| gen_op(r, g, &mut size, false)).collect() }
}

const BASE: G = G { wide: true, comb: true, zero: true, ctl: true, oob: false, styled: 10, attrs: 15, resize: 0, refresh: 0, fail: 0, maxlen: 6 };

fn gen01(_: u64, r: &mut Rng) -> Case { let g = G { resize: 12, refresh: 40, fail: 12, oob: r.chance(1, 3), ..BASE }; gen(r, &g, 12) }
fn gen01big(_: u64, r: &mut Rng) -> Case {
    let (lines, cols) = (r.range(10, 40), r.range(30, 90));
    let mut size = (lines, cols);
    let g = G { refresh: 20, fail: 15, maxlen: 400, styled: 40, ..BASE };
    let mut ops: Vec<Op> = vec![];
    // enough attribute changes for the output to exceed the library's buffer
    for i in 0..r.range(1, 3) {
        for l in 0..lines { let mut b = vec![]; for c in 0..cols { if r.chance(1, 2) { b.push(Op::StyledAt(l, c, gen_at(r), NARROW[r.below(4)].to_string())) } } ops.extend(b) }
        ops.push(if r.chance(1, 2) { Op::FailRefresh(r.below(60000)) } else { Op::Refresh });
        if i == 0 { ops.push(gen_op(r, &g, &mut size, false)); ops.push(Op::Refresh) }
    }
    Case { lines, cols, ops }
}
fn gen02(_: u64, r: &mut Rng) -> Case { gen(r, &BASE, 8) }
fn gen03(_: u64, r: &mut Rng) -> Case { let g = G { oob: true, wide: r.chance(1, 4), maxlen: 10, ..BASE }; gen(r, &g, 6) }
fn gen04(_: u64, r: &mut Rng) -> Case { let g = G { zero: false, resize: if r.chance(1, 3) { 15 } else { 0 }, ..BASE }; gen(r, &g, 10) }
fn gen05(_: u64, r: &mut Rng) -> Case { let g = G { resize: 80, zero: false, oob: r.chance(1, 4), ..BASE }; gen(r, &g, 8) }
fn gen06(_: u64, r: &mut Rng) -> Case { let g = G { styled: 100, oob: r.chance(1, 2), ..BASE }; gen(r, &g, 6) }

const TINY: [(usize, usize); 6] = [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (1, 4)];
fn tiny_ops(kind: u8, l: usize, c: usize) -> Vec<Op> {
    let s = |x: &str| x.to_string();
    let a = At { fg: Some(1), bg: None, st: 1 };
    match kind {
        // refresh
        1 => vec![Op::At(0, 0, s("a")), Op::At(0, 0, s("中")), Op::At(0, c / 2, s("中")), Op::At(l - 1, c - 1, s("b")), Op::StyledAt(0, 0, a, s("a")),
            Op::Write(s("\u{301}")), Op::Clear, Op::Refresh, Op::FailRefresh(0), Op::FailRefresh(17), Op::Resize(2, 2, false), Op::Resize(l, c, true), Op::Cursor(l - 1, c - 1), Op::Cursor(9, 9)],
        // text
        2 => vec![Op::Write(s("a")), Op::Write(s("中")), Op::Chars(s("bc")), Op::Write(s("\t")), Op::Write(s("\r")), Op::Write(s("\n")), Op::Write(s("\u{301}")), Op::Write(s("\u{200b}")),
            Op::Fg(Some(2)), Op::At(0, c / 2, s("x")), Op::Cursor(0, c - 1), Op::NextLine(c - 1)],
        // outside
        3 => vec![Op::Cursor(l, 0), Op::Cursor(0, c), Op::Cursor(l - 1, c - 1), Op::Cursor(usize::MAX, usize::MAX), Op::Cursor(0, usize::MAX), Op::At(l, 0, s("z")), Op::At(0, c, s("z")), Op::At(usize::MAX, 0, s("z")),
            Op::Write(s("abcdefgh")), Op::Write(s("\t")), Op::Write(s("\n")), Op::Write(s("\u{301}")), Op::Write(s("中")), Op::NextLine(usize::MAX), Op::StyledAt(l, 0, a, s("q"))],
        // wide
        4 => vec![Op::At(0, 0, s("中")), Op::At(0, c / 2, s("中")), Op::At(l - 1, c - 1, s("한")), Op::At(0, 0, s("a")), Op::At(0, c - 1, s("b")), Op::At(0, c / 2, s("c")), Op::Write(s("字")), Op::Write(s("d")),
            Op::Write(s("\u{301}")), Op::Resize(l, c + 1, false), Op::Resize(l, (c - 1).max(1), false), Op::Fg(Some(3)), Op::Clear],
        // size
        5 => vec![Op::Resize(1, 1, false), Op::Resize(2, 2, false), Op::Resize(1, 3, true), Op::Resize(3, 2, false), Op::Resize(l, c, false), Op::At(0, 0, s("ab中d")), Op::At(0, 1, s("中")), Op::At(1, 0, s("xyz")), Op::Theme(a),
            Op::Cursor(1, 2), Op::Write(s("k"))],
        // styled
        _ => vec![Op::Styled(a, s("ab")), Op::Styled(a, s("")), Op::Styled(a, s("abcdefghij")), Op::StyledAt(0, 0, a, s("x")), Op::StyledAt(l, 0, a, s("x")), Op::StyledAt(0, c, a, s("x")), Op::StyledAt(l - 1, c - 1, At { bg: Some(5), ..a }, s("中é")),
            Op::Theme(At { fg: Some(4), bg: Some(6), st: 8 }), Op::Write(s("w")), Op::Cursor(0, 0), Op::Cursor(l, c), Op::Sugar(4)],
    }
}
fn tiny(kind: u8, mut idx: u64) -> Case {
    let (l, c) = TINY[(idx % 6) as usize];
    idx /= 6;
    let v = tiny_ops(kind, l, c);
    let mut ops = vec![];
    for _ in 0..4 { ops.push(v[(idx % v.len() as u64) as usize].clone()); idx /= v.len() as u64 }
    Case { lines: l, cols: c, ops }
}
fn tn(kind: u8) -> u64 { 6 * (tiny_ops(kind, 2, 3).len() as u64).pow(4) }
macro_rules! tg { ($k:expr) => { |i, _| tiny($k, i) } }

pub fn kinds(p: &str) -> Vec<Box<dyn Kind>> {
    fn k(name: &'static str, q: u64, t: u64, gen: fn(u64, &mut Rng) -> Case, run: fn(&Case) -> Result<(), String>) -> Box<dyn Kind> { Box::new(K { name, quick: q, thorough: t, all: false, gen, run, shrink }) }
    fn x(name: &'static str, n: u64, gen: fn(u64, &mut Rng) -> Case, run: fn(&Case) -> Result<(), String>) -> Box<dyn Kind> { Box::new(K { name, quick: n, thorough: n, all: true, gen, run, shrink }) }
    match p {
        "C01" => vec![k("ops", 60_000, 1_500_000, gen01, run_screen), k("big", 64, 800, gen01big, run_screen), x("tiny", tn(1), tg!(1), run_screen)],
        "C02" => vec![k("buffer", 120_000, 4_000_000, gen02, run_buffer), k("screen", 20_000, 400_000, gen02, run_screen), x("tiny", tn(2), tg!(2), run_buffer)],
        "C03" => vec![k("buffer", 120_000, 4_000_000, gen03, run_buffer), k("screen", 20_000, 400_000, gen03, run_screen), x("tiny", tn(3), tg!(3), run_buffer)],
        "C04" => vec![k("buffer", 120_000, 4_000_000, gen04, run_buffer), k("screen", 20_000, 400_000, gen04, run_screen), x("tiny", tn(4), tg!(4), run_buffer)],
        "C05" => vec![k("buffer", 120_000, 4_000_000, gen05, run_buffer), k("screen", 20_000, 400_000, gen05, run_screen), x("tiny", tn(5), tg!(5), run_buffer), k("tinyscreen", 20_000, tn(5), tg!(5), run_screen)],
        _ => vec![k("buffer", 120_000, 4_000_000, gen06, run_buffer), k("screen", 20_000, 400_000, gen06, run_screen), x("tiny", tn(6), tg!(6), run_buffer)],
    }
}

/// Recorded findings: Err when the finding still shows
pub fn known(p: &str) -> Vec<(&'static str, fn() -> Result<(), String>)> {
    fn u17d8() -> Result<(), String> {
        dev::open("xterm-vrf", 1, 10);
        let s = ManuallyDrop::new(Screen::with_terminal(e2s(Terminal::new(), "open")?, PrepareConfig::default()).map_err(|e| e.to_string())?);
        s.write_str("abcdef");
        s.refresh().map_err(|e| e.to_string())?;
        s.write_at((0, 0), "a\u{17d8}b");
        dev::take_out();
        s.refresh().map_err(|e| e.to_string())?;
        let out = dev::take_out();
        dev::dev().r.push_back(R::Timeout);
        let out = String::from_utf8_lossy(&out).into_owned();
        if out.contains("\u{17d8} ") { return Err("refresh draws spaces over the second and third column of U+17D8, a character of width 3".into()) }
        Ok(())
    }
    match p { "C01" => vec![("U+17D8", u17d8)], _ => vec![] }
}
