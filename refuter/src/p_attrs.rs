//! C07 and C23: what the terminal device is asked for
use crate::dev;
use crate::fw::*;
use crate::ops::*;
use crate::p_screen::e2s;
use crate::vt::{At, Slot, Vt};
use mortal::{PrepareConfig, Screen, Terminal};
use std::mem::ManuallyDrop;

#[derive(Clone, Debug)]
enum T { Fg(Option<u8>), Bg(Option<u8>), Add(u8), Remove(u8), Set(u8), Theme(At), Clear, Sugar(u8), Styled(At) }

#[derive(Clone, Debug)]
struct Case { ops: Vec<(T, bool)>, term: &'static str }

fn expect(a: &mut At, o: &T) {
    match o {
        T::Fg(c) => a.fg = *c,
        T::Bg(c) => a.bg = *c,
        T::Add(b) | T::Sugar(b) => a.st |= b,
        T::Remove(b) => a.st &= !b,
        T::Set(b) => a.st = *b,
        T::Theme(t) => *a = *t,
        T::Clear | T::Styled(_) => *a = At::default(),
    }
}

macro_rules! attr_op {
    ($t:expr, $o:expr) => {
        match $o {
            T::Fg(c) => $t.set_fg(color(*c)),
            T::Bg(c) => $t.set_bg(color(*c)),
            T::Add(b) => $t.add_style(style(*b)),
            T::Remove(b) => $t.remove_style(style(*b)),
            T::Set(b) => $t.set_style(style(*b)),
            T::Theme(a) => $t.set_theme(theme(*a)),
            T::Clear => $t.clear_attributes(),
            T::Sugar(1) => $t.bold(),
            T::Sugar(2) => $t.italic(),
            T::Sugar(4) => $t.reverse(),
            T::Sugar(_) => $t.underline(),
            T::Styled(a) => $t.write_styled(color(a.fg), color(a.bg), style(a.st), "S"),
        }
    };
}

fn run07(c: &Case) -> Result<(), String> {
    dev::open(c.term, 4, 70);
    let t = ManuallyDrop::new(e2s(Terminal::new(), "open")?);
    let mut vt = Vt::new(4, 70);
    vt.feed(b"\x1b[H");
    let mut want = At::default();
    for (i, (o, guard)) in c.ops.iter().enumerate() {
        e2s(if *guard { let mut g = t.lock_write().unwrap(); attr_op!(g, o) } else { attr_op!(t, o) }, "attribute call")?;
        let o1 = dev::take_out();
        vt.feed(&o1);
        if let T::Styled(a) = o {
            let l = vt.cur;
            let s = vt.grid[l.0 * 70 + l.1 - 1].clone();
            if s != Slot::Ch("S".into(), *a) { return Err(format!("call {i} {o:?}: its text appears as {s:?}, expected {a:?}")) }
        }
        expect(&mut want, o);
        e2s(t.write_str("x"), "write")?;
        let o2 = dev::take_out();
        vt.feed(&o2);
        let l = vt.cur;
        let s = vt.grid[l.0 * 70 + l.1 - 1].clone();
        if s != Slot::Ch("x".into(), want) { return Err(format!("after call {i} {o:?}: text appears as {s:?}, expected {want:?}")) }
        if let Some(b) = vt.bad.first() { return Err(format!("after call {i}: sent to the terminal: {b}")) }
        if vt.cur.1 > 60 { vt.feed(b"\x1b[H") }
    }
    Ok(())
}

fn shrink07(c: &Case) -> Vec<Case> { cuts(&c.ops).into_iter().map(|ops| Case { ops, ..c.clone() }).collect() }

fn nth_at(i: u64) -> At {
    let f = |x: u64| if x == 0 { None } else { Some((x - 1) as u8) };
    At { fg: f(i % 9), bg: f(i / 9 % 9), st: (i / 81 % 16) as u8 }
}
const STATES: u64 = 9 * 9 * 16;
fn nth_op(i: u64) -> Option<T> {
    Some(match i {
        0..=8 => T::Fg(nth_at(i).fg),
        9..=17 => T::Bg(nth_at(i - 9).fg),
        18..=33 => T::Add((i - 18) as u8),
        34..=49 => T::Remove((i - 34) as u8),
        50..=65 => T::Set((i - 50) as u8),
        66 => T::Clear,
        67..=70 => T::Sugar(1 << (i - 67)),
        _ => return None,
    })
}
fn reach(a: At, how: u64) -> Vec<(T, bool)> {
    match how % 3 {
        0 => vec![(T::Theme(a), false)],
        1 => vec![(T::Fg(a.fg), false), (T::Bg(a.bg), true), (T::Set(a.st), false)],
        _ => vec![(T::Add(a.st), true), (T::Bg(a.bg), false), (T::Fg(a.fg), false)],
    }
}
fn gen_states(i: u64, _: &mut Rng) -> Case {
    let (s, o) = (i % STATES, i / STATES);
    let mut ops = reach(nth_at(s), s + o);
    ops.push((nth_op(o).unwrap(), (s + o) % 2 == 0));
    Case { ops, term: if (s / 3) % 2 == 0 { "xterm-vrf" } else { "vrf-odd" } }
}
fn gen_themes(i: u64, _: &mut Rng) -> Case {
    // a permutation of the pairs, so that a prefix samples them evenly
    let n = STATES * STATES * 2;
    let i = (i.wrapping_mul(1_234_577)) % n;
    let (s, o) = (i % STATES, i / STATES);
    let mut ops = reach(nth_at(s), s + o);
    let a = nth_at(o % STATES);
    ops.push((if o < STATES { T::Theme(a) } else { T::Styled(a) }, (s + o) % 2 == 0));
    Case { ops, term: "xterm-vrf" }
}
fn gen_seq(_: u64, r: &mut Rng) -> Case {
    let n = r.range(2, 20);
    let ops = (0..n).map(|_| {
        let o = match r.below(10) { 0 | 1 => T::Theme(gen_at(r)), 2 => T::Styled(gen_at(r)), _ => nth_op(r.below(71) as u64).unwrap() };
        (o, r.chance(1, 2))
    }).collect();
    Case { ops, term: *r.pick(&["xterm-vrf", "vrf-odd"]) }
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug)]
enum M { Up(usize), Down(usize), Left(usize), Right(usize), Column1, Clear, ToLineEnd, ToScreenEnd, Text(usize) }
#[derive(Clone, Debug)]
struct Moves { term: &'static str, lines: usize, cols: usize, start: (usize, usize), ops: Vec<(M, bool)> }

macro_rules! move_op {
    ($t:expr, $o:expr) => {
        match $o {
            M::Up(n) => $t.move_up(*n),
            M::Down(n) => $t.move_down(*n),
            M::Left(n) => $t.move_left(*n),
            M::Right(n) => $t.move_right(*n),
            M::Column1 => $t.move_to_first_column(),
            M::Clear => $t.clear_screen(),
            M::ToLineEnd => $t.clear_to_line_end(),
            M::ToScreenEnd => $t.clear_to_screen_end(),
            M::Text(n) => $t.write_str(&"t".repeat(*n)),
        }
    };
}
#[derive(PartialEq)]
enum Cap { Must, May, Never }
/// whether the terminal can do it: has the plain and the general capability
fn can(term: &str, o: &M) -> Cap {
    let full = term == "xterm-vrf" || term == "vrf-odd";
    let two = |n: usize, one: bool, any: bool| {
        if n == 0 { Cap::Must } else if n == 1 && one && any { Cap::Must } else if n == 1 && (one || any) { Cap::May } else if any { Cap::Must } else if one { Cap::May } else { Cap::Never }
    };
    let has = |l: &[&str]| l.contains(&term);
    let b = |x: bool| if x { Cap::Must } else { Cap::Never };
    match o {
        M::Up(n) => two(*n, full || has(&["vrf-nocup"]), full || has(&["vrf-nohome"])),
        M::Left(n) | M::Right(n) => two(*n, full || has(&["vrf-nocup"]), full || has(&["vrf-nohome"])),
        M::Down(n) => if *n == 0 { Cap::Must } else { b(full) },
        M::Column1 | M::Text(_) => Cap::Must,
        M::Clear => b(full || has(&["vrf-nohome", "xtermish"])),
        M::ToLineEnd => b(full || has(&["vrf-nohome"])),
        M::ToScreenEnd => b(full || has(&["vrf-nocup"])),
    }
}
fn run23(c: &Moves) -> Result<(), String> {
    dev::open(c.term, c.lines as u16, c.cols as u16);
    let t = ManuallyDrop::new(e2s(Terminal::new(), "open")?);
    let mut vt = Vt::new(c.lines, c.cols);
    for s in &mut vt.grid { *s = Slot::Ch("z".into(), At::default()) }
    vt.feed(format!("\x1b[{};{}H", c.start.0 + 1, c.start.1 + 1).as_bytes());
    for (i, (o, guard)) in c.ops.iter().enumerate() {
        let (l, k) = vt.cur;
        let before = vt.grid.clone();
        let res = if *guard { let mut g = t.lock_write().unwrap(); move_op!(g, o) } else { move_op!(t, o) };
        let out = dev::take_out();
        vt.feed(&out);
        let what = format!("operation {i} {o:?} at ({l},{k})");
        if let Some(b) = vt.bad.first() { return Err(format!("{what}: sent to the terminal: {b}")) }
        if vt.pending() != 0 { return Err(format!("{what}: unfinished sequence")) }
        let cap = can(c.term, o);
        if res.is_err() {
            if cap == Cap::Must { return Err(format!("{what}: failed: {}", res.unwrap_err())) }
            if !out.is_empty() { return Err(format!("{what}: reports an error but sent {out:?}")) }
            continue;
        }
        if cap == Cap::Never { return Err(format!("{what}: the terminal cannot do it, but no error is reported")) }
        if let M::Text(_) = o { continue }
        let zero = matches!(o, M::Up(0) | M::Down(0) | M::Left(0) | M::Right(0));
        if zero && !out.is_empty() { return Err(format!("{what}: sent {out:?}")) }
        let want = match o {
            M::Up(n) => (l.saturating_sub(*n), k),
            M::Down(n) => (l.saturating_add(*n).min(c.lines - 1), k),
            M::Left(n) => (l, k.saturating_sub(*n)),
            M::Right(n) => (l, k.saturating_add(*n).min(c.cols - 1)),
            M::Column1 => (l, 0),
            M::Clear => (0, 0),
            _ => (l, k),
        };
        if vt.cur != want { return Err(format!("{what}: cursor goes to {:?}, expected {want:?}", vt.cur)) }
        let at = l * c.cols + k;
        let gone = match o { M::Clear => 0..c.lines * c.cols, M::ToLineEnd => at..(l + 1) * c.cols, M::ToScreenEnd => at..c.lines * c.cols, _ => 0..0 };
        for (j, s) in vt.grid.iter().enumerate() {
            let w = if gone.contains(&j) { Slot::Ch(" ".into(), At::default()) } else { before[j].clone() };
            if *s != w { return Err(format!("{what}: cell ({},{}) is {s:?}, expected {w:?}", j / c.cols, j % c.cols)) }
        }
    }
    Ok(())
}
fn shrink23(c: &Moves) -> Vec<Moves> { cuts(&c.ops).into_iter().map(|ops| Moves { ops, ..c.clone() }).collect() }
const TERMS: [&str; 6] = ["xterm-vrf", "vrf-odd", "vrf-nohome", "vrf-nocup", "vrf-none", "xtermish"];
const BIG: [usize; 16] = [0, 1, 2, 3, 5, 79, 255, 256, 65535, 65536, i32::MAX as usize - 1, i32::MAX as usize, i32::MAX as usize + 1, u32::MAX as usize, 1 << 32, usize::MAX];
fn nth_move(i: u64) -> M {
    let (k, n) = (i / 16, BIG[(i % 16) as usize]);
    match k { 0 => M::Up(n), 1 => M::Down(n), 2 => M::Left(n), 3 => M::Right(n), _ => [M::Column1, M::Clear, M::ToLineEnd, M::ToScreenEnd][(i % 4) as usize].clone() }
}
const NMOVES: u64 = 68;
fn gen_one(i: u64, _: &mut Rng) -> Moves {
    let m = nth_move(i % NMOVES);
    let i = i / NMOVES;
    let term = TERMS[(i % 6) as usize];
    let i = i / 6;
    let guard = i % 2 == 1;
    let start = [(0, 0), (1, 2), (3, 4), (3, 0), (0, 4), (2, 3)][(i / 2 % 6) as usize];
    Moves { term, lines: 4, cols: 5, start, ops: vec![(m, guard)] }
}
fn gen_moves(_: u64, r: &mut Rng) -> Moves {
    let (lines, cols) = (r.range(1, 30), r.range(1, 100));
    let n = r.range(1, 12);
    let ops = (0..n).map(|_| {
        let k = if r.chance(1, 3) { *r.pick(&BIG) } else { r.below(40) };
        let m = match r.below(12) { 0 | 1 => M::Up(k), 2 | 3 => M::Down(k), 4 | 5 => M::Left(k), 6 | 7 => M::Right(k), 8 => M::Text(r.below(cols.min(6))), _ => nth_move(64 + r.below(4) as u64) };
        (m, r.chance(1, 2))
    }).collect();
    Moves { term: TERMS[if r.chance(3, 4) { r.below(2) } else { r.below(6) }], lines, cols, start: (r.below(lines), r.below(cols)), ops }
}

#[derive(Clone, Debug)]
struct Goto { lines: u16, cols: u16, pos: Vec<(usize, usize)> }
fn run_goto(c: &Goto) -> Result<(), String> {
    dev::open("xterm-vrf", c.lines, c.cols);
    let s = ManuallyDrop::new(e2s(Screen::with_terminal(e2s(Terminal::new(), "open")?, PrepareConfig::default()), "screen")?);
    let mut vt = Vt::new(c.lines as usize, c.cols as usize);
    for p in &c.pos {
        s.set_cursor(*p);
        e2s(s.refresh(), "refresh")?;
        let o = dev::take_out();
        vt.feed(&o);
        let want = if p.0 < c.lines as usize && p.1 < c.cols as usize { *p } else { (c.lines as usize - 1, c.cols as usize - 1) };
        if vt.cur != want { return Err(format!("cursor set to {p:?}: the terminal's goes to {:?}", vt.cur)) }
        if let Some(b) = vt.bad.first() { return Err(format!("cursor set to {p:?}: sent to the terminal: {b}")) }
    }
    Ok(())
}
fn gen_goto(_: u64, r: &mut Rng) -> Goto {
    let (lines, cols) = match r.below(4) { 0 => (r.range(1, 400), r.range(1, 20)), 1 => (r.range(1, 20), r.range(1, 600)), _ => (r.range(1, 30), r.range(1, 90)) };
    let n = r.range(1, 10);
    Goto { lines: lines as u16, cols: cols as u16, pos: (0..n).map(|_| match r.below(6) { 0 => (0, 0), 1 => (r.below(lines), 0), 2 => (0, r.below(cols)), 3 => (usize::MAX, r.below(cols)), _ => (r.below(lines), r.below(cols)) }).collect() }
}

// C06 on a terminal: write_styled writes its text with its attributes and leaves none
#[derive(Clone, Debug)]
struct Styled { before: Vec<(T, bool)>, at: At, text: &'static str, guard: bool, term: &'static str }
fn run_styled(c: &Styled) -> Result<(), String> {
    dev::open(c.term, 4, 70);
    let t = ManuallyDrop::new(e2s(Terminal::new(), "open")?);
    let mut vt = Vt::new(4, 70);
    vt.feed(b"\x1b[H");
    for (o, guard) in &c.before { e2s(if *guard { let mut g = t.lock_write().unwrap(); attr_op!(g, o) } else { attr_op!(t, o) }, "attribute call")?; }
    let (fg, bg, st) = (color(c.at.fg), color(c.at.bg), style(c.at.st));
    vt.feed(&dev::take_out());
    let start = vt.cur.1;
    e2s(if c.guard { t.lock_write().unwrap().write_styled(fg, bg, st, c.text) } else { t.write_styled(fg, bg, st, c.text) }, "write_styled")?;
    e2s(t.write_str("x"), "write")?;
    vt.feed(&dev::take_out());
    let mut k = start;
    for ch in c.text.chars() {
        if vt.grid[k] != Slot::Ch(ch.to_string(), c.at) { return Err(format!("{ch:?} at column {k} appears as {:?}, expected {:?}", vt.grid[k], c.at)) }
        k += unicode_width::UnicodeWidthChar::width(ch).unwrap_or(0);
    }
    if vt.grid[k] != Slot::Ch("x".into(), At::default()) { return Err(format!("text after it appears as {:?} at column {k}", vt.grid[k])) }
    if let Some(b) = vt.bad.first() { return Err(format!("sent to the terminal: {b}")) }
    Ok(())
}
fn gen_styled(i: u64, r: &mut Rng) -> Styled {
    let k = (i.wrapping_mul(1_234_577)) % (STATES * STATES);
    let (s, o) = (k % STATES, k / STATES);
    let at = match i % 5 { 0 => nth_at(s), 1 => At::default(), _ => nth_at(o) };
    Styled { before: reach(nth_at(s), k), at, text: *r.pick(&["S", "", "ab", "é中", " ", "a b"]), guard: r.chance(1, 2), term: *r.pick(&["xterm-vrf", "vrf-odd"]) }
}
fn shrink_styled(c: &Styled) -> Vec<Styled> { cuts(&c.before).into_iter().map(|before| Styled { before, ..c.clone() }).collect() }

pub fn kinds(p: &str) -> Vec<Box<dyn Kind>> {
    if p == "C06" { return vec![Box::new(K { name: "terminal", quick: 30_000, thorough: 600_000, all: false, gen: gen_styled, run: run_styled, shrink: shrink_styled })] }
    if p == "C07" {
        vec![
            Box::new(K { name: "states", quick: STATES * 71, thorough: STATES * 71, all: true, gen: gen_states, run: run07, shrink: shrink07 }),
            Box::new(K { name: "themes", quick: 100_000, thorough: STATES * STATES * 2, all: false, gen: gen_themes, run: run07, shrink: shrink07 }),
            Box::new(K { name: "calls", quick: 40_000, thorough: 1_000_000, all: false, gen: gen_seq, run: run07, shrink: shrink07 }),
        ]
    } else {
        vec![
            Box::new(K { name: "one", quick: NMOVES * 72, thorough: NMOVES * 72, all: true, gen: gen_one, run: run23, shrink: shrink23 }),
            Box::new(K { name: "moves", quick: 40_000, thorough: 1_000_000, all: false, gen: gen_moves, run: run23, shrink: shrink23 }),
            Box::new(K { name: "goto", quick: 4_000, thorough: 40_000, all: false, gen: gen_goto, run: run_goto, shrink: no_shrink }),
        ]
    }
}
