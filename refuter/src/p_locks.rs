//! C24: outcomes of locking
use crate::dev::{self, R};
use crate::fw::*;
use crate::p_screen::e2s;
use mortal::{PrepareConfig, Screen, Terminal};
use std::mem::ManuallyDrop;
use std::sync::mpsc::channel;
use std::sync::{Arc, TryLockError};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum St { Free, Held, Poisoned }
const STS: [St; 3] = [St::Free, St::Held, St::Poisoned];

#[derive(Clone, Debug)]
struct Case { screen: bool, reader: St, writer: St, data: St, what: u8, hold_poison: bool }

enum Out { Plain, Poison, Block }

fn wait(f: impl FnOnce() -> Result<(), String> + Send + 'static) -> Result<(), String> {
    let (tx, rx) = channel();
    std::thread::spawn(move || { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into())); let _ = tx.send(r); });
    rx.recv_timeout(Duration::from_secs(20)).unwrap_or_else(|_| Err("a lock that is free is waited for without end".into()))
}
fn poison(f: impl FnOnce() + Send + 'static) { let _ = std::thread::spawn(f).join(); }

fn expect(got: &Out, want: &Out, what: &str) -> Result<(), String> {
    let n = |o: &Out| match o { Out::Plain => "a guard", Out::Poison => "poisoned", Out::Block => "would block" };
    if std::mem::discriminant(got) == std::mem::discriminant(want) { Ok(()) } else { Err(format!("{what} gives: {}, should be: {}", n(got), n(want))) }
}
macro_rules! look {
    ( $r:expr, $use:expr ) => { match $r {
        Ok(mut g) => { $use(&mut g)?; Out::Plain }
        Err(TryLockError::Poisoned(p)) => { let mut g = p.into_inner(); $use(&mut g)?; Out::Poison }
        Err(TryLockError::WouldBlock) => Out::Block,
    } }
}
macro_rules! look_lock {
    ( $r:expr, $use:expr ) => { match $r { Ok(mut g) => { $use(&mut g)?; Out::Plain } Err(p) => { let mut g = p.into_inner(); $use(&mut g)?; Out::Poison } } }
}
fn outcome(s: St, blocking: bool) -> Option<Out> {
    match s { St::Free => Some(Out::Plain), St::Poisoned => Some(Out::Poison), St::Held => if blocking { None } else { Some(Out::Block) } }
}
fn outcome2(a: St, b: St, blocking: bool) -> Option<Out> {
    if a == St::Held || b == St::Held { return outcome(St::Held, blocking) }
    if a == St::Poisoned || b == St::Poisoned { Some(Out::Poison) } else { Some(Out::Plain) }
}

fn run_term(c: &Case) -> Result<(), String> {
    dev::open("xterm-vrf", 4, 12);
    dev::dev().r.push_back(R::Data(b"k".to_vec()));
    let t: &'static Terminal = Box::leak(Box::new(e2s(Terminal::new(), "open")?));
    if c.reader == St::Poisoned || c.hold_poison { poison(move || { let _g = t.lock_read(); panic!() }) }
    if c.writer == St::Poisoned || c.hold_poison { poison(move || { let _g = t.lock_write(); panic!() }) }
    let hr = if c.reader == St::Held { Some(ManuallyDrop::new(t.lock_read().unwrap_or_else(|e| e.into_inner()))) } else { None };
    let hw = if c.writer == St::Held { Some(ManuallyDrop::new(t.lock_write().unwrap_or_else(|e| e.into_inner()))) } else { None };
    let reader = if c.hold_poison && c.reader == St::Free { St::Poisoned } else { c.reader };
    let writer = if c.hold_poison && c.writer == St::Free { St::Poisoned } else { c.writer };
    let c2 = c.clone();
    wait(move || {
        dev::dev().r.clear();
        for round in 0..2 {
            let what = |w: &str| format!("{w} (reader {reader:?}, writer {writer:?}, time {round})");
            dev::dev().r.push_back(R::Data(b"k".to_vec()));
            let rd = |g: &mut mortal::TerminalReadGuard| -> Result<(), String> {
                match g.read_event(Some(Duration::from_secs(0))) { Ok(Some(_)) => Ok(()), r => Err(format!("the read guard does not read: {r:?}")) }
            };
            let wr = |g: &mut mortal::TerminalWriteGuard| -> Result<(), String> {
                dev::take_out();
                e2s(g.write_str("hi"), "write")?; e2s(g.flush(), "flush")?;
                if dev::take_out() != b"hi" { return Err("the write guard does not write".into()) }
                Ok(())
            };
            if c2.what == 0 {
                if let Some(w) = outcome(reader, true) { expect(&look_lock!(t.lock_read(), rd), &w, &what("lock_read"))?; dev::dev().r.push_back(R::Data(b"k".to_vec())); }
                expect(&look!(t.try_lock_read(), rd), &outcome(reader, false).unwrap(), &what("try_lock_read"))?;
            } else {
                if let Some(w) = outcome(writer, true) { expect(&look_lock!(t.lock_write(), wr), &w, &what("lock_write"))? }
                expect(&look!(t.try_lock_write(), wr), &outcome(writer, false).unwrap(), &what("try_lock_write"))?;
            }
        }
        Ok(())
    })?;
    drop(hr.map(ManuallyDrop::into_inner));
    drop(hw.map(ManuallyDrop::into_inner));
    // nothing is left locked
    wait(move || {
        if let Err(TryLockError::WouldBlock) = t.try_lock_read() { return Err("the reader is left locked".into()) }
        if let Err(TryLockError::WouldBlock) = t.try_lock_write() { return Err("the writer is left locked".into()) }
        Ok(())
    })
}

fn run_screen(c: &Case) -> Result<(), String> {
    dev::open("xterm-vrf", 4, 12);
    let s: &'static Screen = Box::leak(Box::new(e2s(Screen::with_terminal(e2s(Terminal::new(), "open")?, PrepareConfig::default()), "screen")?));
    // the public interface only takes the terminal's lock and the data's lock together
    if c.reader == St::Poisoned { poison(move || { let _g = s.lock_read(); panic!() }) }
    if c.writer == St::Poisoned { poison(move || { let _g = s.lock_write(); panic!() }) }
    let hr = if c.reader == St::Held { Some(s.lock_read().unwrap_or_else(|e| e.into_inner())) } else { None };
    let hw = if c.writer == St::Held { Some(s.lock_write().unwrap_or_else(|e| e.into_inner())) } else { None };
    let (reader, writer, what) = (c.reader, c.writer, c.what);
    wait(move || {
        for round in 0..2 {
            let name = |w: &str| format!("{w} of a screen (reader {reader:?}, writer {writer:?}, time {round})");
            dev::dev().r.clear();
            dev::dev().r.push_back(R::Data(b"k".to_vec()));
            let rd = |g: &mut mortal::screen::ScreenReadGuard| -> Result<(), String> {
                match g.read_event(Some(Duration::from_secs(0))) { Ok(Some(_)) => Ok(()), r => Err(format!("the read guard does not read: {r:?}")) }
            };
            let wr = |g: &mut mortal::screen::ScreenWriteGuard| -> Result<(), String> {
                dev::take_out();
                g.clear_screen();
                e2s(g.refresh(), "refresh")?;
                dev::take_out();
                g.write_str("hi");
                e2s(g.refresh(), "refresh")?;
                let o = dev::take_out();
                if !o.windows(2).any(|w| w == b"hi") { return Err(format!("the write guard does not write: {:?}", String::from_utf8_lossy(&o))) }
                Ok(())
            };
            if what == 0 {
                if let Some(w) = outcome(reader, true) { expect(&look_lock!(s.lock_read(), rd), &w, &name("lock_read"))?; dev::dev().r.push_back(R::Data(b"k".to_vec())); }
                expect(&look!(s.try_lock_read(), rd), &outcome(reader, false).unwrap(), &name("try_lock_read"))?;
            } else {
                if let Some(w) = outcome(writer, true) { expect(&look_lock!(s.lock_write(), wr), &w, &name("lock_write"))? }
                expect(&look!(s.try_lock_write(), wr), &outcome(writer, false).unwrap(), &name("try_lock_write"))?;
            }
        }
        Ok(())
    })?;
    drop(hr);
    drop(hw);
    wait(move || {
        if let Err(TryLockError::WouldBlock) = s.try_lock_read() { return Err("the reader is left locked".into()) }
        if let Err(TryLockError::WouldBlock) = s.try_lock_write() { return Err("the writer is left locked".into()) }
        Ok(())
    })
}
fn run(c: &Case) -> Result<(), String> { if c.screen { run_screen(c) } else { run_term(c) } }
fn gen(mut i: u64, _: &mut Rng) -> Case {
    let mut take = |n: u64| { let x = i % n; i /= n; x };
    Case { screen: take(2) == 1, reader: STS[take(3) as usize], writer: STS[take(3) as usize], what: take(2) as u8, data: St::Free, hold_poison: take(2) == 1 }
}

// the functions that combine outcomes, each combination
#[cfg(mortal_verif)]
mod combine {
    use super::*;
    use mortal::verif::*;
    use std::sync::{LockResult, Mutex, PoisonError, TryLockResult};

    fn res(s: St, v: u8) -> LockResult<u8> { match s { St::Poisoned => Err(PoisonError::new(v)), _ => Ok(v) } }
    fn tres(s: St, v: u8) -> TryLockResult<u8> { match s { St::Free => Ok(v), St::Poisoned => Err(TryLockError::Poisoned(PoisonError::new(v))), St::Held => Err(TryLockError::WouldBlock) } }
    fn sl<T: PartialEq + std::fmt::Debug>(r: LockResult<T>, want: St, v: T) -> Result<(), String> {
        let (w, g) = match r { Ok(x) => (St::Free, x), Err(p) => (St::Poisoned, p.into_inner()) };
        if w == want && g == v { Ok(()) } else { Err(format!("gives {w:?} {g:?}, should be {want:?} {v:?}")) }
    }
    fn st<T: PartialEq + std::fmt::Debug>(r: TryLockResult<T>, want: St, v: T) -> Result<(), String> {
        let (w, g) = match r { Ok(x) => (St::Free, Some(x)), Err(TryLockError::Poisoned(p)) => (St::Poisoned, Some(p.into_inner())), Err(TryLockError::WouldBlock) => (St::Held, None) };
        if w == want && (want == St::Held || g == Some(v)) { Ok(()) } else { Err(format!("gives {w:?} {g:?}, should be {want:?}")) }
    }
    pub fn run(i: &u64) -> Result<(), String> {
        let (a, b) = (STS[(*i % 3) as usize], STS[(*i / 3 % 3) as usize]);
        let which = *i / 9;
        let both = if a == St::Held || b == St::Held { St::Held } else if a == St::Poisoned || b == St::Poisoned { St::Poisoned } else { St::Free };
        let at = |r: Result<(), String>, n: &str| r.map_err(|m| format!("{n} of {a:?}, {b:?} {m}"));
        match which {
            0 => { if a != St::Held { at(sl(map_lock_result(res(a, 7), |x| x + 1), a, 8), "map_lock_result")? } }
            1 => at(st(map_try_lock_result(tres(a, 7), |x| x + 1), a, 8), "map_try_lock_result")?,
            2 => { if a != St::Held && b != St::Held { at(sl(map2_lock_result(res(a, 7), res(b, 9), |x, y| (x, y)), both, (7, 9)), "map2_lock_result")? } }
            3 => at(st(map2_try_lock_result(tres(a, 7), tres(b, 9), |x, y| (x, y)), both, (7, 9)), "map2_try_lock_result")?,
            _ => {
                // with real locks: a guard that is not given out is released
                let (m, n) = (Arc::new(Mutex::new(1)), Arc::new(Mutex::new(2)));
                for (k, s) in [(&m, a), (&n, b)] { if s == St::Poisoned { let k = k.clone(); poison(move || { let _g = k.lock(); panic!() }) } }
                let h1 = if a == St::Held { m.lock().ok() } else { None };
                let h2 = if b == St::Held { n.lock().ok() } else { None };
                match map2_try_lock_result(m.try_lock(), n.try_lock(), |x, y| (x, y)) {
                    Ok((x, y)) => { if both != St::Free || (*x, *y) != (1, 2) { return Err(format!("real locks {a:?} {b:?}: a guard is given")) } }
                    Err(TryLockError::Poisoned(p)) => { let (x, y) = p.into_inner(); if both != St::Poisoned || (*x, *y) != (1, 2) { return Err(format!("real locks {a:?} {b:?}: poisoned")) }
                        if m.try_lock().is_ok() || n.try_lock().is_ok() { return Err("the guard does not hold both locks".into()) } }
                    Err(TryLockError::WouldBlock) => if both != St::Held { return Err(format!("real locks {a:?} {b:?}: would block")) },
                }
                drop((h1, h2));
                for k in [&m, &n] { if let Err(TryLockError::WouldBlock) = k.try_lock() { return Err(format!("real locks {a:?} {b:?}: one is left locked")) } }
            }
        }
        Ok(())
    }
}

pub fn kinds(_: &str) -> Vec<Box<dyn Kind>> {
    let mut v: Vec<Box<dyn Kind>> = vec![Box::new(K { name: "states", quick: 72, thorough: 72, all: true, gen, run, shrink: no_shrink })];
    #[cfg(mortal_verif)]
    v.push(Box::new(K { name: "combinations", quick: 45, thorough: 45, all: true, gen: |i, _| i, run: combine::run, shrink: no_shrink }));
    v
}
