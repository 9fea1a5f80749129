//! C18: preparing and restoring
use crate::dev::{self, Act};
use crate::fw::*;
use crate::p_screen::e2s;
use crate::vt::Vt;
use mortal::{Event, PrepareConfig, PrepareState, Screen, Signal, SignalSet, Terminal};
use std::mem::ManuallyDrop;
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
struct Cfg { block: bool, flow: bool, keypad: bool, mouse: bool, motion: bool, sigs: u8 }
#[derive(Clone, Debug)]
struct Case { term: &'static str, tio: u8, acts: u32, cfgs: Vec<Cfg>, how: Vec<u8>, cont: Option<usize>, screen: bool, again: bool, exclusive: bool }

const SIGS: [(i32, Signal); 5] = [(libc::SIGCONT, Signal::Continue), (libc::SIGINT, Signal::Interrupt), (libc::SIGQUIT, Signal::Quit), (libc::SIGTSTP, Signal::Suspend), (libc::SIGWINCH, Signal::Resize)];
const ALLSIG: [Signal; 6] = [Signal::Continue, Signal::Interrupt, Signal::Quit, Signal::Suspend, Signal::Resize, Signal::Break];

extern "C" fn mine(_: i32) {}

fn set_of(b: u8) -> SignalSet { (0..6).filter(|i| b >> i & 1 == 1).map(|i| ALLSIG[i]).collect() }
fn cfg(c: &Cfg) -> PrepareConfig {
    PrepareConfig { block_signals: c.block, enable_control_flow: c.flow, enable_keypad: c.keypad, enable_mouse: c.mouse, always_track_motion: c.motion, report_signals: set_of(c.sigs) }
}
type Shot = (Vec<u8>, Vec<(i32, Act)>, bool, bool, std::collections::BTreeSet<u32>);
fn bytes(t: &libc::termios) -> Vec<u8> {
    let mut v = vec![];
    for f in [t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag] { v.extend_from_slice(&f.to_le_bytes()) }
    v.extend_from_slice(&t.c_cc);
    v
}
fn shot(vt: &mut Vt) -> Shot {
    let o = dev::take_out();
    vt.feed(&o);
    let d = dev::dev();
    let none = Act { handler: 0, flags: 0, mask: 0 };
    let sigs = SIGS.iter().map(|(n, _)| (*n, d.sigs.get(n).copied().unwrap_or(none))).collect();
    (bytes(&d.tio), sigs, vt.appkeypad, vt.modes.contains(&1), vt.modes.iter().copied().filter(|m| [1000, 1002, 1003, 1006].contains(m)).collect())
}
fn differs(a: &Shot, b: &Shot) -> Option<&'static str> {
    if a.0 != b.0 { Some("input settings") } else if a.1 != b.1 { Some("signal handlers") } else if (a.2, a.3) != (b.2, b.3) { Some("keypad mode") } else if a.4 != b.4 { Some("mouse mode") } else { None }
}

/// the settings while the configurations `cs` are prepared, innermost last
fn prepared(cs: &[Cfg], xterm: bool, exclusive: bool, keypad: bool, base: &Shot, now: &Shot) -> Result<(), String> {
    let c = cs.last().unwrap();
    let t = dev::dev().tio;
    let bit = |w: u32, b: u32| w & b != 0;
    if bit(t.c_lflag, libc::ISIG) == c.block { return Err("signals from input are not as configured".into()) }
    if bit(t.c_iflag, libc::IXON) != c.flow { return Err("control flow is not as configured".into()) }
    if bit(t.c_lflag, libc::ICANON | libc::ECHO) || bit(t.c_iflag, libc::INLCR | libc::ICRNL) { return Err("input is not raw".into()) }
    if t.c_cc[libc::VMIN] != 0 || t.c_cc[libc::VTIME] != 0 { return Err("a read would wait".into()) }
    let mut same = bytes(&t);
    let b = &base.0;
    // nothing else changed
    for i in 0..16 {
        let m = match i / 4 { 0 => libc::INLCR | libc::ICRNL | libc::IXON, 3 => libc::ISIG | libc::ICANON | libc::ECHO, _ => 0 }.to_le_bytes()[i % 4];
        same[i] = same[i] & !m | b[i] & m;
    }
    same[16 + libc::VMIN] = b[16 + libc::VMIN];
    same[16 + libc::VTIME] = b[16 + libc::VTIME];
    if &same != b { return Err("other input settings were changed".into()) }
    let asked = |f: &dyn Fn(&Cfg) -> bool| cs.iter().any(|c| f(c));
    let kp = keypad && asked(&|c| c.keypad);
    if (now.2, now.3) != (kp, kp) { return Err(format!("keypad mode is {:?}, should be {kp}", (now.2, now.3))) }
    let mut want: std::collections::BTreeSet<u32> = Default::default();
    // the innermost that asks for the mouse
    if let Some(m) = cs.iter().rev().find(|c| c.mouse).filter(|_| xterm) {
        want.insert(1006);
        if m.motion { want.insert(1003); }
        if !m.motion || !exclusive { want.insert(1002); }
    }
    if now.4 != want { return Err(format!("mouse modes are {:?}, should be {want:?}", now.4)) }
    for (i, (n, _)) in SIGS.iter().enumerate() {
        let caught = now.1[i].1.handler > 4096 && now.1[i].1.handler != mine as *const () as usize;
        let always = *n == libc::SIGCONT || *n == libc::SIGWINCH;
        let should = always || cs.iter().any(|c| c.sigs >> i & 1 == 1);
        if caught != should { return Err(format!("signal {n} is{} caught", if caught { "" } else { " not" })) }
        if !should && now.1[i] != base.1[i] { return Err(format!("the handler of signal {n} was changed though it is not to be reported")) }
    }
    Ok(())
}

fn drain(t: &Terminal) { for _ in 0..2 { dev::dev().r.clear(); let _ = t.read_event(Some(Duration::from_secs(0))); } }

/// which signals are reported now
fn reported(t: &Terminal, want: Option<u8>) -> Result<(), String> {
    drain(t);
    let keep = dev::dev().tio;
    for (i, (n, s)) in SIGS.iter().enumerate() {
        if *n == libc::SIGCONT || *n == libc::SIGWINCH { continue }
        // deliver it as if it were still caught by the library
        let h = dev::dev().sigs.get(&libc::SIGWINCH).copied();
        let old = dev::dev().sigs.get(n).copied();
        if let Some(h) = h { if h.handler > 4096 && h.handler != mine as *const () as usize {
            dev::dev().sigs.insert(*n, h);
            dev::raise(*n);
            match old { Some(o) => { dev::dev().sigs.insert(*n, o); } None => { dev::dev().sigs.remove(n); } }
            let r = e2s(t.read_event(Some(Duration::from_secs(0))), "read_event")?;
            let w = want.unwrap_or(0) >> i & 1 == 1;
            if r != (if w { Some(Event::Signal(*s)) } else { None }) { return Err(format!("{s:?} gives {r:?} though it is{} to be reported", if w { "" } else { " not" })) }
        } }
    }
    dev::dev().tio = keep;
    Ok(())
}

fn setup(c: &Case) {
    dev::open(c.term, 5, 10);
    let mut d = dev::dev();
    let t = &mut d.tio;
    let on = |b: u8| c.tio >> b & 1 == 1;
    if on(0) { t.c_lflag &= !libc::ISIG }
    if on(1) { t.c_iflag &= !libc::IXON }
    if on(2) { t.c_lflag &= !libc::ICANON }
    if on(3) { t.c_lflag &= !(libc::ECHO | libc::ECHOE) }
    if on(4) { t.c_iflag |= libc::INLCR | libc::ISTRIP }
    if on(5) { t.c_iflag &= !libc::ICRNL; t.c_oflag = 0 }
    if on(6) { t.c_cc[libc::VMIN] = 7; t.c_cc[libc::VTIME] = 9 }
    if on(7) { t.c_cflag = libc::CS7 | libc::PARENB | libc::CREAD; t.c_lflag &= !libc::IEXTEN }
    let mut a = c.acts;
    for (n, _) in SIGS.iter() {
        let act = match a % 4 { 1 => Act { handler: libc::SIG_IGN, flags: 0, mask: 0 }, 2 => Act { handler: mine as *const () as usize, flags: libc::SA_RESTART, mask: 1 << 14 }, 3 => Act { handler: mine as *const () as usize, flags: 0, mask: 0 }, _ => Act { handler: 0, flags: 0, mask: 0 } };
        a /= 4;
        if act.handler != 0 { d.sigs.insert(*n, act); }
    }
}

fn run(c: &Case) -> Result<(), String> {
    setup(c);
    let xterm = c.term.starts_with("xterm-");
    let keypad = matches!(c.term, "xterm-vrf" | "vrf-odd");
    let mut vt = Vt::new(5, 10);
    vt.exclusive = c.exclusive;
    if c.screen {
        let base = shot(&mut vt);
        let t = e2s(Terminal::new(), "open")?;
        let s = e2s(Screen::with_terminal(t, cfg(&c.cfgs[0])), "screen")?;
        let now = shot(&mut vt);
        prepared(&c.cfgs[..1], xterm, c.exclusive, keypad, &base, &now)?;
        if c.again { s.write_str("hello"); e2s(s.refresh(), "refresh")?; }
        if c.cont == Some(0) { dev::raise(libc::SIGCONT); e2s(s.read_event(Some(Duration::from_secs(0))), "read_event")?; }
        drop(s);
        let after = shot(&mut vt);
        if let Some(w) = differs(&base, &after) { return Err(format!("{w} are not restored when the screen is dropped")) }
        if vt.modes.contains(&1049) || !vt.modes.contains(&25) { return Err("the screen is not left".into()) }
        return Ok(());
    }
    let t = ManuallyDrop::new(e2s(Terminal::new(), "open")?);
    let rounds = if c.again { 2 } else { 1 };
    for round in 0..rounds {
        let mut shots = vec![shot(&mut vt)];
        let mut states: Vec<PrepareState> = vec![];
        for (i, k) in c.cfgs.iter().enumerate() {
            let st = match c.how[2 * i] {
                0 => t.prepare(cfg(k)),
                1 => t.lock_read().unwrap().prepare(cfg(k)),
                _ => { let mut r = t.lock_read().unwrap(); let mut w = t.lock_write().unwrap(); r.prepare_with_lock(&mut w, cfg(k)) }
            };
            states.push(e2s(st, "prepare")?);
            let now = shot(&mut vt);
            prepared(&c.cfgs[..=i], xterm, c.exclusive, keypad, &shots[0], &now).map_err(|m| format!("prepared {} deep: {m}", i + 1))?;
            if c.cont == Some(i) {
                // stopped and continued; someone else changed the settings meanwhile
                { let mut d = dev::dev(); d.tio.c_lflag |= libc::ICANON | libc::ECHO; d.tio.c_iflag |= libc::ICRNL; d.tio.c_cc[libc::VMIN] = 1; }
                dev::raise(libc::SIGCONT);
                e2s(t.read_event(Some(Duration::from_secs(0))), "read_event")?;
                let again = shot(&mut vt);
                if let Some(w) = differs(&now, &again) { return Err(format!("{w} are not as before after being continued")) }
            }
            shots.push(if c.cont == Some(i) { shot(&mut vt) } else { now });
            reported(&t, Some(k.sigs)).map_err(|m| format!("prepared {} deep: {m}", i + 1))?;
        }
        for i in (0..c.cfgs.len()).rev() {
            let st = states.pop().unwrap();
            e2s(match c.how[2 * i + 1] {
                0 => t.restore(st),
                1 => t.lock_read().unwrap().restore(st),
                _ => { let mut r = t.lock_read().unwrap(); let mut w = t.lock_write().unwrap(); r.restore_with_lock(&mut w, st) }
            }, "restore")?;
            let now = shot(&mut vt);
            let want = &shots[i];
            if let Some(w) = differs(want, &now) { return Err(format!("round {round}, back to depth {i}: {w} are not as before the prepare")) }
            if i > 0 { reported(&t, Some(c.cfgs[i - 1].sigs)).map_err(|m| format!("back to depth {i}: {m}"))?; }
        }
    }
    late_signals(c, &t)
}

/// A signal that is caught just before the last restore and looked at after it is not reported
fn late_signals(c: &Case, t: &Terminal) -> Result<(), String> {
    for (i, (n, s)) in SIGS.iter().enumerate() {
        if *n == libc::SIGWINCH || *n == libc::SIGCONT || c.cfgs[0].sigs >> i & 1 == 0 { continue }
        drain(t);
        let st = e2s(t.prepare(cfg(&c.cfgs[0])), "prepare")?;
        dev::raise(*n);
        e2s(t.restore(st), "restore")?;
        let r = e2s(t.read_event(Some(Duration::from_secs(0))), "read_event")?;
        if r.is_some() { return Err(format!("after the restore {s:?} is still reported: {r:?}")) }
    }
    drain(t);
    Ok(())
}

const TERMS: [&str; 6] = ["xterm-vrf", "vrf-odd", "vrf-nohome", "vrf-none", "xtermish", "vrf-nocup"];
fn one(mut i: u64) -> Cfg {
    let mut b = || { let x = i % 2 == 1; i /= 2; x };
    Cfg { block: b(), flow: b(), keypad: b(), mouse: b(), motion: b(), sigs: (i % 64) as u8 }
}
fn gen_single(i: u64, _: &mut Rng) -> Case {
    let k = i % 2048;
    Case { term: TERMS[(i / 2048 % 2) as usize], tio: (i / 4096 * 37 + k) as u8, acts: (k * 7 + i / 4096) as u32, cfgs: vec![one(k)], how: vec![(k % 3) as u8, (k / 3 % 3) as u8], cont: if k % 5 == 0 { Some(0) } else { None }, screen: false, again: k % 2 == 0, exclusive: k % 3 == 0 }
}
/// every pair of configurations, three signals
fn gen_pairs(i: u64, _: &mut Rng) -> Case {
    let f = |k: u64| { let mut c = one(k % 32); c.sigs = [0u8, 2, 6, 14][(k / 32) as usize % 4]; c };
    let (a, b) = (i % 128, i / 128 % 128);
    Case { term: "xterm-vrf", tio: (a ^ b) as u8, acts: (a * 3 + b) as u32, cfgs: vec![f(a), f(b)], how: vec![(a % 3) as u8, (b % 3) as u8, (a / 3 % 3) as u8, (b / 3 % 3) as u8], cont: None, screen: false, again: false, exclusive: (a + b) % 2 == 0 }
}
fn gen_any(_: u64, r: &mut Rng) -> Case {
    let n = r.range(1, 4);
    let screen = r.chance(1, 5);
    let term = if screen { *r.pick(&["xterm-vrf", "vrf-odd", "xtermish"]) } else { *r.pick(&TERMS) };
    Case { term, tio: if r.chance(1, 2) { 0 } else { r.below(256) as u8 }, acts: r.below(1024) as u32, cfgs: (0..n).map(|_| one(r.next())).collect(), how: (0..2 * n).map(|_| r.below(3) as u8).collect(),
        cont: if r.chance(1, 4) { Some(r.below(n)) } else { None }, screen, again: r.chance(1, 3), exclusive: r.chance(1, 2) }
}
fn shrink(c: &Case) -> Vec<Case> {
    let mut o = vec![];
    for i in 0..c.cfgs.len() { if c.cfgs.len() > 1 { let mut d = c.clone(); d.cfgs.remove(i); d.how.drain(2 * i..2 * i + 2); d.cont = d.cont.filter(|&k| k < d.cfgs.len()); o.push(d) } }
    if c.cont.is_some() { let mut d = c.clone(); d.cont = None; o.push(d) }
    if c.again { let mut d = c.clone(); d.again = false; o.push(d) }
    if c.exclusive { let mut d = c.clone(); d.exclusive = false; o.push(d) }
    if c.tio != 0 { let mut d = c.clone(); d.tio = 0; o.push(d) }
    if c.acts != 0 { let mut d = c.clone(); d.acts = 0; o.push(d) }
    if c.how.iter().any(|h| *h != 0) { let mut d = c.clone(); d.how.iter_mut().for_each(|h| *h = 0); o.push(d) }
    for i in 0..c.cfgs.len() {
        let k = c.cfgs[i];
        for b in 0..6 { let mut e = k; match b { 0 => e.block = true, 1 => e.flow = false, 2 => e.keypad = false, 3 => e.mouse = false, 4 => e.motion = false, _ => e.sigs = 0 }
            if format!("{e:?}") != format!("{k:?}") { let mut d = c.clone(); d.cfgs[i] = e; o.push(d) } }
    }
    o
}

pub fn kinds(_: &str) -> Vec<Box<dyn Kind>> {
    vec![
        Box::new(K { name: "single", quick: 4096 * 4, thorough: 4096 * 32, all: false, gen: gen_single, run, shrink }),
        Box::new(K { name: "pairs", quick: 16384, thorough: 16384, all: true, gen: gen_pairs, run, shrink }),
        Box::new(K { name: "nested", quick: 60_000, thorough: 2_000_000, all: false, gen: gen_any, run, shrink }),
    ]
}
