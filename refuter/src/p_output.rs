//! C08: what reaches the device
use crate::dev::{self, W};
use crate::fw::*;
use crate::p_screen::e2s;
use mortal::Terminal;
use std::mem::ManuallyDrop;

#[derive(Clone, Debug, PartialEq)]
enum O {
    Write(usize), Char, Column1, Fmt(usize), Bold, Unbold, Flush,
    /// the guard is released and taken again
    Release,
    /// through the terminal itself, the guard being released
    Direct(usize),
}
#[derive(Clone, Debug)]
struct Case { ops: Vec<O>, script: Vec<W>, off: u8 }

/// text of a given length in which every position is recognizable
fn text(n: usize, at: &mut usize) -> String {
    let mut s = String::with_capacity(n);
    while s.len() < n {
        let c = b'a' + (*at * 7 + *at / 26 + *at / 677) as u8 % 26;
        s.push(c as char);
        *at += 1;
    }
    s
}

enum Part { Full(Vec<u8>), UpTo(Vec<u8>) }

fn matches(parts: &[Part], out: &[u8]) -> bool {
    // which offsets of `out` can be reached after each part
    let mut pos = vec![0usize];
    for p in parts {
        let mut next = vec![];
        for &q in &pos {
            match p {
                Part::Full(b) => if out[q..].starts_with(b) { next.push(q + b.len()) },
                Part::UpTo(b) => {
                    let mut k = 0;
                    loop { next.push(q + k); if k < b.len() && q + k < out.len() && out[q + k] == b[k] { k += 1 } else { break } }
                }
            }
        }
        next.sort_unstable();
        next.dedup();
        if next.is_empty() { return false }
        pos = next;
    }
    pos.contains(&out.len())
}

/// everything requested so far, in order: is `out` a beginning of it?
fn is_prefix(parts: &[Part], out: &[u8]) -> bool {
    let mut pos = vec![0usize];
    for p in parts {
        let mut next = vec![];
        for &q in &pos {
            if q == out.len() { return true }
            match p {
                Part::Full(b) => { let k = b.len().min(out.len() - q); if out[q..q + k] == b[..k] { next.push(q + k) } }
                Part::UpTo(b) => { let mut k = 0; loop { next.push(q + k); if k < b.len() && q + k < out.len() && out[q + k] == b[k] { k += 1 } else { break } } }
            }
        }
        next.sort_unstable();
        next.dedup();
        if next.is_empty() { return false }
        pos = next;
    }
    pos.contains(&out.len())
}

fn run(c: &Case) -> Result<(), String> {
    dev::open("vrf-none", 10, 70);
    run_on(c, false)?;
    dev::open("xterm-vrf", 10, 70);
    run_on(c, true)
}
fn run_on(c: &Case, full: bool) -> Result<(), String> {
    let t = ManuallyDrop::new(e2s(Terminal::new(), "open")?);
    dev::dev().w = c.script.clone().into();
    let hard = |w: &W| matches!(w, W::Fail(_) | W::Zero);
    let mut at = c.off as usize;
    let mut parts: Vec<Part> = vec![];
    let mut bold = false;
    {
        let mut g = Some(t.lock_write().unwrap());
        for (i, o) in c.ops.iter().enumerate() {
            let errs = dev::dev().w.iter().filter(|w| hard(w)).count();
            let (bytes, res): (Vec<u8>, _) = match o {
                O::Write(n) => { let s = text(*n, &mut at); let r = g.as_mut().unwrap().write_str(&s); (s.into_bytes(), r) }
                O::Fmt(n) => { let s = text(*n, &mut at); let r = g.as_mut().unwrap().write_fmt(format_args!("{}{}", &s[..n / 2], &s[n / 2..])); (s.into_bytes(), r) }
                O::Char => { let ch = ['é', '中', 'q', '😀'][at % 4]; at += 1; let r = g.as_mut().unwrap().write_char(ch); (ch.to_string().into_bytes(), r) }
                O::Column1 => (b"\r".to_vec(), g.as_mut().unwrap().move_to_first_column()),
                O::Bold => { let b = if full && !bold { b"\x1b[1m".to_vec() } else { vec![] }; bold = true; (b, g.as_mut().unwrap().bold()) }
                O::Unbold => { let b = if full && bold { b"\x1b(B\x1b[m".to_vec() } else { vec![] }; bold = false; (b, g.as_mut().unwrap().clear_attributes()) }
                O::Flush => (vec![], g.as_mut().unwrap().flush()),
                O::Release => { drop(g.take()); g = Some(t.lock_write().unwrap()); (vec![], Ok(())) }
                O::Direct(n) => { drop(g.take()); let s = text(*n, &mut at); let r = t.write_str(&s); g = Some(t.lock_write().unwrap()); (s.into_bytes(), r) }
            };
            let errs_after = dev::dev().w.iter().filter(|w| hard(w)).count();
            let what = format!("operation {i} {o:?}");
            let ok = res.is_ok();
            if !ok && errs == errs_after { return Err(format!("{what}: reports {} though no write failed", res.unwrap_err())) }
            if ok && errs != errs_after && !matches!(o, O::Release | O::Direct(_)) { return Err(format!("{what}: a failed write was not reported")) }
            if bytes.is_empty() || ok { parts.push(Part::Full(bytes)) } else { parts.push(Part::UpTo(bytes)) }
            let out = dev::dev().out.clone();
            if !is_prefix(&parts, &out) { return Err(format!("{what}: what has reached the device is not a beginning of what was requested: {} bytes", out.len())) }
            if ok && matches!(o, O::Flush) && !matches(&parts, &out) { return Err(format!("{what}: flushed, but {} bytes reached the device", out.len())) }
        }
        dev::dev().w.clear();
        drop(g);
    }
    let out = dev::dev().out.clone();
    if !matches(&parts, &out) {
        let total: usize = parts.iter().map(|p| match p { Part::Full(b) | Part::UpTo(b) => b.len() }).sum();
        return Err(format!("{} bytes requested, {} reached the device, not the same ones in order", total, out.len()));
    }
    Ok(())
}

fn shrink(c: &Case) -> Vec<Case> {
    let mut o: Vec<Case> = cuts(&c.ops).into_iter().map(|ops| Case { ops, ..c.clone() }).collect();
    o.extend(cuts(&c.script).into_iter().map(|script| Case { script, ..c.clone() }));
    o
}
fn len(r: &mut Rng) -> usize {
    match r.below(8) { 0 => r.range(8180, 8200), 1 => r.range(4000, 4200), 2 => r.range(8193, 30000), 3 => *r.pick(&[8191, 8192, 8193, 16384]), 4 => 0, _ => r.below(60) }
}
fn script(r: &mut Rng, hard: bool) -> Vec<W> {
    (0..r.below(10)).map(|_| match r.below(10) {
        0..=2 => W::Short(r.below(12)  + 1),
        3..=4 => W::Short(r.below(9000) + 1),
        5..=6 => W::Intr,
        7 if hard => W::Fail(*r.pick(&[libc::EIO, libc::EAGAIN, libc::ENOSPC, libc::EPIPE])),
        8 if hard => W::Zero,
        _ => W::Short(1),
    }).collect()
}
fn op(r: &mut Rng) -> O {
    match r.below(14) {
        0..=4 => O::Write(len(r)), 5 => O::Char, 6 => O::Column1, 7 => O::Fmt(len(r)), 8 => O::Bold, 9 => O::Unbold, 10 | 11 => O::Flush, 12 => O::Release, _ => O::Direct(len(r)),
    }
}
fn gen_soft(_: u64, r: &mut Rng) -> Case { let n = r.range(1, 10); Case { ops: (0..n).map(|_| op(r)).collect(), script: script(r, false), off: r.below(200) as u8 } }
fn gen_hard(_: u64, r: &mut Rng) -> Case { let n = r.range(1, 10); Case { ops: (0..n).map(|_| op(r)).collect(), script: script(r, true), off: r.below(200) as u8 } }
fn gen_tiny(mut i: u64, _: &mut Rng) -> Case {
    let mut take = |n: u64| { let x = i % n; i /= n; x };
    let ops = (0..3).map(|_| match take(8) { 0 => O::Write(5), 1 => O::Write(8190), 2 => O::Write(9000), 3 => O::Flush, 4 => O::Release, 5 => O::Bold, 6 => O::Direct(3), _ => O::Write(8192) }).collect();
    let script = (0..3).map(|_| match take(6) { 0 => W::Short(1), 1 => W::Short(3), 2 => W::Short(8191), 3 => W::Intr, 4 => W::Fail(libc::EIO), _ => W::Zero }).collect();
    Case { ops, script, off: 0 }
}

pub fn kinds(_: &str) -> Vec<Box<dyn Kind>> {
    vec![
        Box::new(K { name: "tiny", quick: 512 * 216, thorough: 512 * 216, all: true, gen: gen_tiny, run, shrink }),
        Box::new(K { name: "split", quick: 20_000, thorough: 400_000, all: false, gen: gen_soft, run, shrink }),
        Box::new(K { name: "errors", quick: 40_000, thorough: 800_000, all: false, gen: gen_hard, run, shrink }),
    ]
}
