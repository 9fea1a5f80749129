//! C14, C15, C16, C17
use crate::fw::*;
use mortal::signal::{Signal, SignalSet};
use mortal::util::{ctrl, is_ctrl, prefixes, unctrl_lower, unctrl_upper};
use mortal::{Cursor, Key, Size};

fn eq<A: PartialEq + std::fmt::Debug>(a: A, b: A, what: &str) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{what} gives {a:?}, should be {b:?}")) }
}

// C14
const S: [Signal; 6] = [Signal::Break, Signal::Continue, Signal::Interrupt, Signal::Resize, Signal::Suspend, Signal::Quit];
fn mk(b: u8) -> SignalSet { let mut s = SignalSet::new(); for i in 0..6 { if b >> i & 1 == 1 { s.insert(S[i]) } } s }
fn is(s: SignalSet, b: u8, what: &str) -> Result<(), String> {
    for i in 0..6 { eq(s.contains(S[i]), b >> i & 1 == 1, &format!("{what}: contains({:?})", S[i]))?; }
    // a set with the same members is the same set
    let t = mk(b);
    if s != t { return Err(format!("{what}: {s:?} differs from {t:?} though it has the same members")) }
    eq(s.is_empty(), b == 0, &format!("{what}: is_empty"))?;
    eq(s.contains_all(t) && t.contains_all(s), true, &format!("{what}: inclusion both ways"))?;
    Ok(())
}
fn run_sets(c: &(u8, u8)) -> Result<(), String> {
    let (a, b) = *c;
    let (x, y) = (mk(a), mk(b));
    is(x, a, "built by insert")?;
    eq(x == y, a == b, "==")?;
    eq(x != y, a != b, "!=")?;
    eq(x.contains_all(y), a & b == b, "contains_all")?;
    eq(x.intersects(y), a & b != 0, "intersects")?;
    is(x.union(y), a | b, "union")?; is(x | y, a | b, "|")?;
    is(x.intersection(y), a & b, "intersection")?; is(x & y, a & b, "&")?;
    is(x.difference(y), a & !b, "difference")?; is(x - y, a & !b, "-")?;
    is(x.symmetric_difference(y), a ^ b, "symmetric_difference")?; is(x ^ y, a ^ b, "^")?;
    is(x.inverse(), !a & 63, "inverse")?; is(!x, !a & 63, "!")?;
    let mut z = x; z |= y; is(z, a | b, "|=")?;
    let mut z = x; z &= y; is(z, a & b, "&=")?;
    let mut z = x; z -= y; is(z, a & !b, "-=")?;
    let mut z = x; z ^= y; is(z, a ^ b, "^=")?;
    let list: Vec<Signal> = (0..6).filter(|i| b >> i & 1 == 1).map(|i| S[i]).collect();
    let mut z = x; z.extend(list.iter().cloned()); is(z, a | b, "extend")?;
    let mut twice = list.clone(); twice.extend(list.iter().rev().cloned());
    is(twice.iter().cloned().collect(), b, "collect")?;
    is(SignalSet::default(), 0, "default")?; is(SignalSet::new(), 0, "new")?; is(SignalSet::all(), 63, "all")?;
    for i in 0..6 {
        let bit = 1u8 << i;
        let s = S[i];
        let mut z = x; z.insert(s); is(z, a | bit, "insert")?;
        let mut z = x; z.remove(s); is(z, a & !bit, "remove")?;
        let mut z = x; z.set(s, true); is(z, a | bit, "set(true)")?;
        let mut z = x; z.set(s, false); is(z, a & !bit, "set(false)")?;
        is(SignalSet::from(s), bit, "from a signal")?;
        is(!s, !bit & 63, "! of a signal")?;
        for j in 0..6 { is(s | S[j], bit | 1 << j, "| of signals")?; }
    }
    eq(x.clone() == x, true, "clone")
}

// C15
fn run_chars(c: &u32) -> Result<(), String> {
    for v in *c * 1024..(*c + 1) * 1024 {
        let ch = match char::from_u32(v) { Some(c) => c, None => continue };
        let u = format!("U+{v:04X}");
        eq(is_ctrl(ch), v < 0x20, &format!("is_ctrl({u})"))?;
        if v < 0x20 {
            let up = char::from_u32(v + 0x40).unwrap();
            let low = up.to_ascii_lowercase();
            eq(unctrl_upper(ch), up, &format!("unctrl_upper({u})"))?;
            eq(unctrl_lower(ch), low, &format!("unctrl_lower({u})"))?;
            eq(ctrl(up), ch, &format!("ctrl({up:?})"))?;
            eq(ctrl(low), ch, &format!("ctrl({low:?})"))?;
        } else { ctrl(ch); unctrl_lower(ch); unctrl_upper(ch); }
        let want = match v {
            0x1b => Key::Escape, 0x7f => Key::Backspace, 0x0d | 0x0a => Key::Enter, 9 => Key::Tab,
            0..=0x1f => Key::Ctrl(char::from_u32(v + 0x40).unwrap().to_ascii_lowercase()),
            _ => Key::Char(ch),
        };
        eq(Key::from(ch), want, &format!("Key::from({u})"))?;
    }
    Ok(())
}

// C16
fn run_geo(c: &((usize, usize), (usize, usize))) -> Result<(), String> {
    let (s, p) = (Size { lines: c.0.0, columns: c.0.1 }, Cursor { line: c.1.0, column: c.1.1 });
    let out = p.line >= s.lines || p.column >= s.columns;
    eq(p.is_out_of_bounds(s), out, "is_out_of_bounds")?;
    eq(s.checked_area(), (s.lines as u128 * s.columns as u128).try_into().ok(), "checked_area")?;
    if let Some(a) = s.checked_area() { eq(s.area(), a, "area")?; }
    eq(Cursor::first(), Cursor { line: 0, column: 0 }, "first")?;
    let n = p.next(s);
    if !out {
        let ix = p.line as u128 * s.columns as u128 + p.column as u128;
        let to = |i: u128| Cursor { line: (i / s.columns as u128) as usize, column: (i % s.columns as u128) as usize };
        let all = s.lines as u128 * s.columns as u128;
        eq(n, if ix + 1 < all { Some(to(ix + 1)) } else { None }, "next")?;
        eq(p.previous(s), if ix > 0 { Some(to(ix - 1)) } else { None }, "previous")?;
        if let Some(q) = n { eq(q.previous(s), Some(p), "previous of next")?; }
        if let Some(q) = p.previous(s) { eq(q.next(s), Some(p), "next of previous")?; }
        if ix == 0 { eq(p, Cursor::first(), "first")?; }
        if ix + 1 == all { eq(p, Cursor::last(s), "last")?; }
        if all < 5000 && ix == 0 {
            let (mut k, mut q) = (0u128, p);
            loop { eq(q, to(k), "walk")?; match q.next(s) { Some(r) => q = r, None => break } k += 1; }
            eq(k + 1, all, "length of the walk")?;
            eq(q, Cursor::last(s), "end of the walk")?;
        }
    } else if let (Some(q), true) = (n, s.columns > 0) {
        // from outside the screen a step forward may only lead into it
        eq(q.is_out_of_bounds(s), false, "next of a cursor outside: out of bounds")?;
    }
    let a: Cursor = (c.1.0, c.1.1).into();
    eq(a, p, "from a pair")?;
    if s.lines > 0 && s.columns > 0 { eq(Cursor::last(s), Cursor { line: s.lines - 1, column: s.columns - 1 }, "last")?; }
    Ok(())
}
fn small(i: u64, _: &mut Rng) -> ((usize, usize), (usize, usize)) {
    let i = i as usize;
    ((i % 9, i / 9 % 9), (i / 81 % 11, i / 891 % 11))
}
fn extreme(i: u64, _: &mut Rng) -> ((usize, usize), (usize, usize)) {
    let e = [0usize, 1, 2, 3, u32::MAX as usize - 1, u32::MAX as usize, u32::MAX as usize + 1, u32::MAX as usize + 2, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX];
    let n = e.len();
    let i = i as usize;
    ((e[i % n], e[i / n % n]), (e[i / n / n % n], e[i / n / n / n % n]))
}
fn shrink_geo(c: &((usize, usize), (usize, usize))) -> Vec<((usize, usize), (usize, usize))> {
    let mut o = vec![];
    let v = [c.0.0, c.0.1, c.1.0, c.1.1];
    for i in 0..4 { for x in [0, v[i] / 2, v[i].wrapping_sub(1)] { if x < v[i] { let mut w = v; w[i] = x; o.push(((w[0], w[1]), (w[2], w[3]))) } } }
    o
}

// C17
fn run_prefixes(s: &String) -> Result<(), String> {
    let want: Vec<&str> = (1..=s.len()).filter(|&i| s.is_char_boundary(i)).map(|i| &s[..i]).collect();
    let mut it = prefixes(s);
    for w in &want {
        let g = it.next();
        eq(g, Some(*w), "the next prefix")?;
        if g.unwrap().as_ptr() != s.as_ptr() { return Err("a prefix is not a part of the string".into()) }
    }
    for _ in 0..3 { eq(it.next(), None, "after the last prefix, next")?; }
    Ok(())
}
const A: [char; 5] = ['a', 'é', '中', '😀', '\0'];
fn gen_all(mut i: u64, _: &mut Rng) -> String { let mut s = String::new(); for _ in 0..6 { let x = i % 6; i /= 6; if x < 5 { s.push(A[x as usize]) } } s }
fn gen_str(_: u64, r: &mut Rng) -> String { let n = r.below(80); (0..n).map(|_| loop { let b = *r.pick(&[0x80u64, 0x800, 0x10000, 0x110000]); if let Some(c) = char::from_u32((r.next() % b) as u32) { break c } }).collect() }
// long strings: every length about the powers of two a small counter would wrap at
fn gen_long(i: u64, r: &mut Rng) -> String {
    let n = [60, 127, 128, 255, 256, 257, 300, 511, 512, 1000, 1024, 2000, 4095, 4096, 4097, 20_000, 32_767, 32_768, 65_535, 65_536, 70_000][i as usize % 21];
    match i / 21 {
        0 => "a".repeat(n),
        1 => "é".repeat(n / 2 + 1),
        2 => "中".repeat(n / 3 + 1),
        3 => "😀".repeat(n / 4 + 1),
        _ => { let mut s = String::new(); while s.len() < n { s.push_str(&gen_str(0, r)) } s }
    }
}
fn shrink_str(s: &String) -> Vec<String> { cuts(&s.chars().collect::<Vec<_>>()).into_iter().map(|v| v.into_iter().collect()).collect() }

pub fn kinds(p: &str) -> Vec<Box<dyn Kind>> {
    match p {
        "C14" => vec![Box::new(K { name: "pairs", quick: 4096, thorough: 4096, all: true, gen: |i, _| ((i % 64) as u8, (i / 64) as u8), run: run_sets, shrink: no_shrink })],
        "C15" => vec![Box::new(K { name: "chars", quick: 1088, thorough: 1088, all: true, gen: |i, _| i as u32, run: run_chars, shrink: no_shrink })],
        "C16" => vec![
            Box::new(K { name: "small", quick: 81 * 121, thorough: 81 * 121, all: true, gen: small, run: run_geo, shrink: shrink_geo }),
            Box::new(K { name: "extreme", quick: 20736, thorough: 20736, all: true, gen: extreme, run: run_geo, shrink: shrink_geo }),
        ],
        _ => vec![
            Box::new(K { name: "small", quick: 46656, thorough: 46656, all: true, gen: gen_all, run: run_prefixes, shrink: shrink_str }),
            Box::new(K { name: "long", quick: 126, thorough: 126, all: true, gen: gen_long, run: run_prefixes, shrink: shrink_str }),
            Box::new(K { name: "random", quick: 20_000, thorough: 1_000_000, all: false, gen: gen_str, run: run_prefixes, shrink: shrink_str }),
        ],
    }
}
