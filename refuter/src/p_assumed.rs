//! What the contracts assume about dependencies, tried on the dependencies themselves
use crate::fw::*;
use mortal::Style;
use nix::sys::termios::{InputFlags, LocalFlags};
use nix::sys::time::{TimeVal, TimeValLike};
use smallstr::SmallString;
use unicode_normalization::char::is_combining_mark;
use unicode_width::UnicodeWidthChar;

macro_rules! must { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)) } } }

// a block of 4096 characters
fn chars(b: &u32) -> Result<(), String> {
    for c in (b << 12..(b + 1) << 12).filter_map(char::from_u32) {
        let w = c.width();
        must!(w.unwrap_or(0) <= 3, "{c:?} has width {w:?}");
        must!(c == '\u{17d8}' || w.unwrap_or(0) <= 2, "{c:?} has width {w:?}");
        must!(c != ' ' || w == Some(1), "a space has width {w:?}");
        must!(!"\t\r\n".contains(c) || w.unwrap_or(0) == 0, "{c:?} has width {w:?}");
        must!(!" \t\r\n".contains(c) || !is_combining_mark(c), "{c:?} is a combining mark");
        let u = c as u32;
        let want: Vec<u8> = if u < 0x80 { vec![u as u8] } else if u < 0x800 { vec![0xc0 | (u >> 6) as u8, 0x80 | (u & 63) as u8] }
            else if u < 0x10000 { vec![0xe0 | (u >> 12) as u8, 0x80 | (u >> 6 & 63) as u8, 0x80 | (u & 63) as u8] }
            else { vec![0xf0 | (u >> 18) as u8, 0x80 | (u >> 12 & 63) as u8, 0x80 | (u >> 6 & 63) as u8, 0x80 | (u & 63) as u8] };
        let mut buf = [0u8; 4];
        must!(c.encode_utf8(&mut buf).as_bytes() == want && c.len_utf8() == want.len(), "{c:?} is encoded as {:x?}", c.encode_utf8(&mut [0; 4]).as_bytes());
        must!(c.to_ascii_lowercase() as u32 == if (0x41..=0x5a).contains(&u) { u + 32 } else { u }, "{c:?} in lower case is {:?}", c.to_ascii_lowercase());
        must!(c.is_ascii() == (u < 0x80), "{c:?}: is_ascii gives {}", c.is_ascii());
    }
    Ok(())
}

const F: [Style; 4] = [Style::BOLD, Style::ITALIC, Style::REVERSE, Style::UNDERLINE];
fn sty(b: u8) -> Style { let mut s = Style::empty(); for i in 0..4 { if b >> i & 1 == 1 { s = s.union(F[i]) } } s }
fn bits(s: Style) -> u8 { (0..4).map(|i| (s.contains(F[i]) as u8) << i).sum() }
fn style(a: &u8) -> Result<(), String> {
    let x = sty(*a);
    must!(bits(x) == *a && x.is_empty() == (*a == 0), "{a}: {x:?}");
    must!(bits(Style::all()) == 15 && bits(Style::empty()) == 0 && bits(Style::default()) == 0, "all, empty or default");
    for b in 0..16 {
        let y = sty(b);
        must!((x == y) == (*a == b), "{a} {b}: ==");
        must!(x.contains(y) == (a & b == b) && x.intersects(y) == (a & b != 0), "{a} {b}: contains, intersects");
        let (mut p, mut q) = (x, x);
        p.insert(y); q.remove(y);
        let (mut or, mut and, mut sub, mut xor) = (x, x, x, x);
        or |= y; and &= y; sub -= y; xor ^= y;
        for (got, want, what) in [(x.union(y), a | b, "union"), (x.intersection(y), a & b, "intersection"), (x.difference(y), a & !b, "difference"), (p, a | b, "insert"), (q, a & !b, "remove"),
            (x | y, a | b, "|"), (x & y, a & b, "&"), (x - y, a & !b, "-"), (x ^ y, a ^ b, "^"), (or, a | b, "|="), (and, a & b, "&="), (sub, a & !b, "-="), (xor, a ^ b, "^=")] {
            must!(bits(got) == want && got == sty(want), "{a} {b}: {what} gives {got:?}");
        }
    }
    Ok(())
}

fn small(t: &String) -> Result<(), String> {
    let mut s = SmallString::<[u8; 8]>::new();
    must!(s.is_empty() && s.as_str() == "" && s.chars().next().is_none(), "new");
    let mut n = vec![];
    for c in t.chars() {
        s.push(c); n.push(c);
        must!(s.chars().eq(n.iter().cloned()) && s.as_str().chars().eq(n.iter().cloned()) && !s.is_empty(), "push {c:?} gives {s:?}");
        let one = SmallString::<[u8; 8]>::from(c);
        must!(one.chars().eq(std::iter::once(c)), "from {c:?} gives {one:?}");
    }
    must!(s == SmallString::<[u8; 8]>::from(&t[..]), "equal texts differ");
    if let Some(c) = n.pop() { must!(s != SmallString::<[u8; 8]>::from(&n.iter().collect::<String>()[..]), "without {c:?} it is the same") }
    Ok(())
}
fn gen_text(_: u64, r: &mut Rng) -> String {
    let n = r.below(12);
    (0..n).map(|_| *r.pick(&['a', ' ', '\u{301}', 'é', '中', '\u{1f600}', '\u{20dd}', '\0'])).collect()
}
fn less(t: &String) -> Vec<String> { cuts(&t.chars().collect::<Vec<_>>()).into_iter().map(|v| v.into_iter().collect()).collect() }

/// the length of the character that b begins with; Err(true): more bytes can make one; Err(false): they cannot
fn first(b: &[u8]) -> Result<usize, bool> {
    let (n, lo, hi) = match b.first() {
        None => return Err(true),
        Some(0..=0x7f) => return Ok(1),
        Some(0xc2..=0xdf) => (2, 0x80, 0xbf), Some(0xe0) => (3, 0xa0, 0xbf), Some(0xed) => (3, 0x80, 0x9f), Some(0xe1..=0xef) => (3, 0x80, 0xbf),
        Some(0xf0) => (4, 0x90, 0xbf), Some(0xf1..=0xf3) => (4, 0x80, 0xbf), Some(0xf4) => (4, 0x80, 0x8f),
        _ => return Err(false),
    };
    for i in 1..n {
        match b.get(i) { None => return Err(true), Some(x) if i == 1 && !(lo..=hi).contains(x) || x & 0xc0 != 0x80 => return Err(false), _ => () }
    }
    Ok(n)
}
fn utf8_one(b: &[u8]) -> Result<(), String> {
    let mut n = 0;
    let end = loop { if n == b.len() { break None } match first(&b[n..]) { Ok(k) => n += k, Err(e) => break Some(e) } };
    match (std::str::from_utf8(b), end) {
        (Ok(s), None) => { must!(s.as_bytes() == b && s.len() == b.len(), "{b:x?}: text {s:?}"); }
        (Err(e), Some(more)) => {
            must!(e.valid_up_to() == n && n < b.len(), "{b:x?}: valid up to {}", e.valid_up_to());
            must!(e.error_len().is_none() == more, "{b:x?}: error length {:?}", e.error_len());
            if let Some(k) = e.error_len() { must!((1..=3).contains(&k) && n + k <= b.len(), "{b:x?}: error length {k}"); }
        }
        (r, _) => return Err(format!("{b:x?}: from_utf8 gives {r:?}")),
    }
    Ok(())
}
const B: [u8; 24] = [0, 0x1b, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
/// everything of up to four bytes that begins with this one, over one byte of each class
fn utf8(a: &u8) -> Result<(), String> {
    utf8_one(&[])?; utf8_one(&[*a])?;
    for b in B {
        utf8_one(&[*a, b])?;
        for c in B {
            utf8_one(&[*a, b, c])?;
            for d in B { utf8_one(&[*a, b, c, d])?; }
        }
    }
    Ok(())
}

fn times(n: &i64) -> Result<(), String> {
    const S: i64 = i64::MAX / 1_000_000 - 1;
    let us = |t: TimeVal| t.tv_sec() as i128 * 1_000_000 + t.tv_usec() as i128;
    let s = (*n).clamp(-S, S);
    must!(us(TimeVal::seconds(s)) == s as i128 * 1_000_000, "seconds({s})");
    let m = (*n).clamp(-S * 1000, S * 1000 + 999);
    must!(us(TimeVal::milliseconds(m)) == m as i128 * 1000, "milliseconds({m})");
    let u = (*n).clamp(-S * 1_000_000, S * 1_000_000 + 999_999);
    must!(us(TimeVal::microseconds(u)) == u as i128, "microseconds({u})");
    let d = std::time::Duration::new(n.unsigned_abs(), (n.unsigned_abs() % 1_000_000_000) as u32);
    let k = (n.unsigned_abs() % 1_000_000_000) as u32;
    must!(d.as_secs() == n.unsigned_abs() && d.subsec_nanos() == k && d.subsec_micros() == k / 1000 && d.subsec_millis() == k / 1_000_000, "{d:?}");
    Ok(())
}
fn gen_time(i: u64, r: &mut Rng) -> i64 {
    match i { 0 => 0, 1 => i64::MAX, 2 => i64::MIN, 3 => 1, 4 => -1, _ => (r.next() as i64) >> r.below(63) }
}

/// the flags the terminal is prepared with are different bits
fn flags(_: &u8) -> Result<(), String> {
    use LocalFlags as L; use InputFlags as I;
    let l = [L::ISIG, L::ICANON, L::ECHO, L::ECHOE, L::ECHOK, L::ECHONL, L::ECHOCTL, L::ECHOKE, L::ECHOPRT, L::NOFLSH, L::TOSTOP, L::IEXTEN, L::EXTPROC, L::FLUSHO, L::PENDIN];
    let i = [I::IGNBRK, I::BRKINT, I::IGNPAR, I::PARMRK, I::INPCK, I::ISTRIP, I::INLCR, I::IGNCR, I::ICRNL, I::IXON, I::IXOFF, I::IXANY, I::IMAXBEL, I::IUTF8];
    for (n, a) in l.iter().enumerate() { for (m, b) in l.iter().enumerate() {
        must!(a.intersects(*b) == (n == m), "{a:?} {b:?}");
        let (mut x, mut y) = (L::all(), L::empty());
        x.remove(*a); y.insert(*a);
        must!(x.contains(*b) == (n != m) && y.contains(*b) == (n == m) && (*a | *b).contains(*a), "{a:?} {b:?}: insert, remove");
    } }
    for (n, a) in i.iter().enumerate() { for (m, b) in i.iter().enumerate() {
        must!(a.intersects(*b) == (n == m), "{a:?} {b:?}");
        let (mut x, mut y) = (I::all(), I::empty());
        x.remove(*a); y.insert(*a);
        must!(x.contains(*b) == (n != m) && y.contains(*b) == (n == m) && (*a | *b).contains(*a), "{a:?} {b:?}: insert, remove");
    } }
    Ok(())
}

pub fn kinds(p: &str) -> Vec<Box<dyn Kind>> {
    fn x<C: Clone + std::fmt::Debug + 'static>(name: &'static str, n: u64, gen: fn(u64, &mut Rng) -> C, run: fn(&C) -> Result<(), String>) -> Box<dyn Kind> { Box::new(K { name, quick: n, thorough: n, all: true, gen, run, shrink: no_shrink }) }
    let c = || x("assumed of characters", 272, |i, _| i as u32, chars);
    let s = || x("assumed of Style", 16, |i, _| i as u8, style);
    let t = || -> Box<dyn Kind> { Box::new(K { name: "assumed of SmallString", quick: 400, thorough: 20_000, all: false, gen: gen_text, run: small, shrink: less }) };
    let u = || x("assumed of from_utf8", 256, |i, _| i as u8, utf8);
    let d = || -> Box<dyn Kind> { Box::new(K { name: "assumed of TimeVal and Duration", quick: 2000, thorough: 100_000, all: false, gen: gen_time, run: times, shrink: no_shrink }) };
    match p {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => vec![c(), s(), t()],
        "C07" => vec![c(), s()],
        "C08" | "C23" => vec![c()],
        "C09" | "C10" | "C19" => vec![c(), u()],
        "C15" | "C17" => vec![c()],
        "C18" => vec![x("assumed of terminal flags", 1, |_, _| 0, flags)],
        "C20" => vec![d()],
        _ => vec![],
    }
}
