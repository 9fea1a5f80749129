//! C11, C12, C13: sequence maps
use crate::fw::*;
use mortal::sequence::{Entry, FindResult, SequenceMap};
use std::collections::BTreeMap;

const U: [&str; 12] = ["", "a", "ab", "abc", "ac", "b", "ba", "é", "éa", "中", "a\0", "\u{7f}"];
type M = SequenceMap<String, u32>;

#[derive(Clone, Debug, PartialEq)]
enum O {
    Insert(usize), Remove(usize), GetMut(usize), OrInsert(usize), OrInsertWith(usize), AndModify(usize), AndModifyOr(usize),
    Match(usize, u8), SequencesMut, Clone, Rebuild(bool),
}
#[derive(Clone, Debug)]
struct Case { start: Option<(bool, Vec<usize>)>, ops: Vec<O> }

fn build(from: bool, ks: &[usize], v: &mut u32) -> (M, BTreeMap<String, u32>) {
    let mut vec: Vec<(String, u32)> = vec![];
    let mut r = BTreeMap::new();
    for &k in ks {
        *v += 1;
        let key = U[k].to_string();
        vec.push((key.clone(), *v));
        if from { r.entry(key).or_insert(*v); } else { r.insert(key, *v); }
    }
    (if from { M::from(vec) } else { vec.into_iter().collect() }, r)
}

fn check(m: &M, r: &BTreeMap<String, u32>, what: &str) -> Result<(), String> {
    let list: Vec<(String, u32)> = m.sequences().to_vec();
    let want: Vec<(String, u32)> = r.iter().map(|(k, v)| (k.clone(), *v)).collect();
    if list != want { return Err(format!("{what}: the listing is {list:?}, should be {want:?}")) }
    for k in U {
        if m.get(k) != r.get(k) { return Err(format!("{what}: get({k:?}) = {:?}, should be {:?}", m.get(k), r.get(k))) }
    }
    Ok(())
}
fn eq<A: PartialEq + std::fmt::Debug>(a: A, b: A, what: &str) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{what} gives {a:?}, should be {b:?}")) }
}

fn run_ops(c: &Case) -> Result<(), String> {
    let mut v = 0;
    let (mut m, mut r) = match &c.start { Some((f, ks)) => build(*f, ks, &mut v), None => (if c.ops.len() % 2 == 0 { M::new() } else { M::with_capacity(3) }, BTreeMap::new()) };
    check(&m, &r, "at the start")?;
    for (i, o) in c.ops.iter().enumerate() {
        v += 1;
        let what = format!("operation {i} {o:?}");
        let ks = |k: usize| U[k].to_string();
        match *o {
            O::Insert(k) => eq(m.insert(ks(k), v), r.insert(ks(k), v), &what)?,
            O::Remove(k) => eq(m.remove(U[k]), r.remove_entry(U[k]), &what)?,
            O::GetMut(k) => {
                eq(m.get_mut(U[k]).map(|x| *x), r.get_mut(U[k]).map(|x| *x), &what)?;
                if let Some(x) = m.get_mut(U[k]) { *x = v }
                if let Some(x) = r.get_mut(U[k]) { *x = v }
            }
            O::OrInsert(k) => { let a = m.entry(ks(k)).or_insert(v); let b = r.entry(ks(k)).or_insert(v); eq(*a, *b, &what)?; *a += 100; *b += 100; }
            O::OrInsertWith(k) => {
                let (mut na, mut nb) = (0, 0);
                let a = m.entry(ks(k)).or_insert_with(|| { na += 1; v });
                let b = r.entry(ks(k)).or_insert_with(|| { nb += 1; v });
                eq(*a, *b, &what)?;
                *a += 200; *b += 200;
                eq(na, nb, "number of calls of the closure")?;
            }
            O::AndModify(k) => { let e = m.entry(ks(k)).and_modify(|x| *x += 1000); eq(e.key().clone(), ks(k), "key of the entry")?; drop(e); r.entry(ks(k)).and_modify(|x| *x += 1000); }
            O::AndModifyOr(k) => { let a = *m.entry(ks(k)).and_modify(|x| *x += 1000).or_insert(v); let b = *r.entry(ks(k)).and_modify(|x| *x += 1000).or_insert(v); eq(a, b, &what)?; }
            O::Match(k, how) => {
                let key = ks(k);
                match m.entry(key.clone()) {
                    Entry::Occupied(mut e) => {
                        eq(Some(*e.get()), r.get(&key).copied(), &what)?;
                        eq(e.key().clone(), key.clone(), "key of the entry")?;
                        match how {
                            0 => eq(e.remove(), r.remove(&key).unwrap(), &what)?,
                            1 => eq(e.remove_entry(), r.remove_entry(&key).unwrap(), &what)?,
                            2 => eq(e.insert(v), r.insert(key, v).unwrap(), &what)?,
                            3 => { *e.get_mut() = v; r.insert(key, v); }
                            _ => { *e.into_mut() = v; r.insert(key, v); }
                        }
                    }
                    Entry::Vacant(e) => {
                        if r.contains_key(&key) { return Err(format!("{what}: vacant, though the key is present")) }
                        eq(e.key().clone(), key.clone(), "key of the entry")?;
                        match how {
                            0 => eq(e.into_key(), key, &what)?,
                            1 => drop(e),
                            _ => { let x = e.insert(v); eq(*x, v, &what)?; *x += 1; r.insert(key, v + 1); }
                        }
                    }
                }
            }
            O::SequencesMut => { for (_, x) in m.sequences_mut() { *x = x.wrapping_mul(3); } for x in r.values_mut() { *x = x.wrapping_mul(3); } }
            O::Clone => { let n = m.clone(); check(&m, &r, &what)?; m = n; }
            O::Rebuild(from) => { let l = m.sequences().to_vec(); m = if from { M::from(l) } else { l.into_iter().collect() }; }
        }
        check(&m, &r, &what)?;
    }
    Ok(())
}
fn one(x: usize, r: usize) -> O {
    match x {
        0..=2 => O::Insert(r), 3 | 4 => O::Remove(r), 5 => O::GetMut(r), 6 => O::OrInsert(r), 7 => O::OrInsertWith(r), 8 => O::AndModify(r), 9 => O::AndModifyOr(r),
        10 => O::Match(r, 0), 11 => O::Match(r, 1), 12 => O::Match(r, 2), 13 => O::Match(r, 3), 14 => O::Match(r, 4),
        15 => O::SequencesMut, 16 => O::Clone, 17 => O::Rebuild(true), _ => O::Rebuild(false),
    }
}
fn gen_ops(_: u64, r: &mut Rng) -> Case {
    let u = r.range(2, U.len());
    let base = r.below(U.len());
    let key = move |r: &mut Rng| (base + r.below(u)) % U.len();
    let start = if r.chance(1, 2) { None } else { let n = r.below(12); Some((r.chance(1, 2), (0..n).map(|_| key(r)).collect())) };
    let n = r.range(1, 14);
    Case { start, ops: (0..n).map(|_| { let x = r.below(19); let k = key(r); one(x, k) }).collect() }
}
/// every operation on every key, after every subset of eight keys
fn gen_each(i: u64, _: &mut Rng) -> Case {
    let (set, op, k) = (i % 256, i / 256 % 15, i / 256 / 15);
    Case { start: Some((i % 2 == 0, (0..8).filter(|b| set >> b & 1 == 1).map(|b| b as usize).collect())), ops: vec![one(op as usize, k as usize)] }
}
fn shrink_ops(c: &Case) -> Vec<Case> {
    let mut o: Vec<Case> = cuts(&c.ops).into_iter().map(|ops| Case { ops, ..c.clone() }).collect();
    if let Some((f, ks)) = &c.start { o.extend(cuts(ks).into_iter().map(|k| Case { start: Some((*f, k)), ops: c.ops.clone() })); }
    o
}

// C13
fn run_build(c: &Case) -> Result<(), String> {
    let (from, ks) = c.start.as_ref().unwrap();
    let mut v = 0;
    let (m, r) = build(*from, ks, &mut v);
    check(&m, &r, if *from { "built from a vector" } else { "built from an iterator" })?;
    let mut v = 0;
    // an iterator that tells nothing about its length, borrowed keys
    let mut vec: Vec<(&str, u32)> = vec![];
    for &k in ks { v += 1; vec.push((U[k], v)); }
    let n: SequenceMap<&str, u32> = if *from { SequenceMap::from(vec) } else { vec.into_iter().filter(|_| true).collect() };
    let list: Vec<(String, u32)> = n.sequences().iter().map(|(k, v)| (k.to_string(), *v)).collect();
    eq(list, r.into_iter().collect(), "the listing")
}
fn gen_build(_: u64, r: &mut Rng) -> Case {
    let big = r.chance(1, 20);
    let n = if big { r.range(20, 200) } else { r.below(12) };
    let u = if r.chance(1, 2) { r.range(1, 4) } else { U.len() };
    Case { start: Some((r.chance(1, 2), (0..n).map(|_| r.below(u)).collect())), ops: vec![] }
}
/// every list of up to five of four keys
fn gen_small(mut i: u64, _: &mut Rng) -> Case {
    let from = i % 2 == 0;
    i /= 2;
    let mut ks = vec![];
    for _ in 0..5 { let x = i % 5; i /= 5; if x < 4 { ks.push([1, 0, 2, 5][x as usize]) } }
    Case { start: Some((from, ks)), ops: vec![] }
}

// C12
#[derive(Clone, Debug)]
struct Find { keys: Vec<String>, ask: Vec<String>, how: u8 }
fn run_find(c: &Find) -> Result<(), String> {
    let mut v = 0;
    let pairs: Vec<(String, u32)> = c.keys.iter().map(|k| { v += 1; (k.clone(), v) }).collect();
    let m: M = match c.how { 0 => pairs.iter().cloned().collect(), 1 => M::from(pairs.clone()), _ => { let mut m = M::new(); for (k, v) in &pairs { m.entry(k.clone()).or_insert(*v); } m.insert("zz".into(), 0); m.remove("zz"); m } };
    let have: BTreeMap<&str, u32> = pairs.iter().rev().map(|(k, v)| (&k[..], *v)).collect();
    let have = if c.how == 0 { pairs.iter().map(|(k, v)| (&k[..], *v)).collect() } else { have };
    for q in &c.ask {
        let longer = c.keys.iter().any(|k| k != q && k.starts_with(&q[..]));
        let want = match (have.get(&q[..]), longer) {
            (None, false) => FindResult::NotFound, (None, true) => FindResult::Incomplete,
            (Some(v), false) => FindResult::Found(*v), (Some(v), true) => FindResult::Undecided(*v),
        };
        let got = m.find(q);
        let g2 = match got { FindResult::NotFound => FindResult::NotFound, FindResult::Incomplete => FindResult::Incomplete, FindResult::Found(v) => FindResult::Found(*v), FindResult::Undecided(v) => FindResult::Undecided(*v) };
        eq(g2, want, &format!("find({q:?})"))?;
        eq(got.cloned(), want, &format!("find({q:?}).cloned()"))?;
    }
    Ok(())
}
const ABC: [&str; 7] = ["", "a", "b", "aa", "ab", "ba", "bb"];
/// every subset of the strings over {a,b} up to length 2 and of six more; all questions
fn gen_find_all(i: u64, _: &mut Rng) -> Find {
    let more = ["aaa", "aab", "é", "éa", "abb"];
    let mut keys: Vec<String> = vec![];
    for (b, k) in ABC.iter().chain(&more).enumerate() { if i >> b & 1 == 1 { keys.push(k.to_string()) } }
    let ask = ABC.iter().chain(&more).map(|s| s.to_string()).chain(["abc", "aaaa", "\u{e8}", "c", "éab"].iter().map(|s| s.to_string())).collect();
    if i % 3 == 0 { keys.reverse() }
    Find { keys, ask, how: (i % 3) as u8 }
}
fn rand_str(r: &mut Rng) -> String { let n = r.below(6); (0..n).map(|_| *r.pick(&['\x1b', '[', '1', 'é', '中', 'O', '\u{10ffff}', '\0', '\x7f'])).collect() }
fn gen_find(_: u64, r: &mut Rng) -> Find {
    let n = r.below(20);
    let mut keys: Vec<String> = (0..n).map(|_| rand_str(r)).collect();
    for i in 0..keys.len() { if r.chance(1, 3) { let mut s = keys[i].clone(); s.push(*r.pick(&['a', '中', '\u{10ffff}', '\0'])); keys.push(s); } }
    let mut ask: Vec<String> = (0..6).map(|_| rand_str(r)).collect();
    for k in &keys { ask.push(k.clone()); let mut p = k.clone(); p.pop(); ask.push(p); ask.push(format!("{k}\0")); }
    Find { keys, ask, how: r.below(3) as u8 }
}
fn shrink_find(c: &Find) -> Vec<Find> {
    let mut o: Vec<Find> = cuts(&c.keys).into_iter().map(|keys| Find { keys, ..c.clone() }).collect();
    o.extend(cuts(&c.ask).into_iter().map(|ask| Find { ask, ..c.clone() }));
    o
}

pub fn kinds(p: &str) -> Vec<Box<dyn Kind>> {
    match p {
        "C11" => vec![
            Box::new(K { name: "each", quick: 256 * 15 * 9, thorough: 256 * 15 * 9, all: true, gen: gen_each, run: run_ops, shrink: shrink_ops }),
            Box::new(K { name: "ops", quick: 150_000, thorough: 5_000_000, all: false, gen: gen_ops, run: run_ops, shrink: shrink_ops }),
        ],
        "C12" => vec![
            Box::new(K { name: "subsets", quick: 4096, thorough: 4096, all: true, gen: gen_find_all, run: run_find, shrink: shrink_find }),
            Box::new(K { name: "random", quick: 50_000, thorough: 2_000_000, all: false, gen: gen_find, run: run_find, shrink: shrink_find }),
        ],
        _ => vec![
            Box::new(K { name: "small", quick: 2 * 3125, thorough: 2 * 3125, all: true, gen: gen_small, run: run_build, shrink: shrink_ops }),
            Box::new(K { name: "random", quick: 100_000, thorough: 3_000_000, all: false, gen: gen_build, run: run_build, shrink: shrink_ops }),
        ],
    }
}
