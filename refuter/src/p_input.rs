//! C09, C10, C19, C20, C21: what is read
use crate::dev::{self, Log, R};
use crate::fw::*;
use crate::p_screen::e2s;
use mortal::unix::TerminalExt;
use mortal::{Cursor, Event, Key, ModifierState, MouseButton, MouseEvent, MouseInput, PrepareConfig, PrepareState, Screen, Signal, SignalSet, Size, Terminal};
use std::mem::ManuallyDrop;
use std::time::Duration;

// ---------------------------------------------------------------- the reference decoder

pub fn key_of(c: char) -> Key {
    match c as u32 {
        0x1b => Key::Escape,
        0x7f => Key::Backspace,
        0x0a | 0x0d => Key::Enter,
        0x09 => Key::Tab,
        n if n < 0x20 => Key::Ctrl(char::from_u32(if (1..=26).contains(&n) { n + 0x60 } else { n + 0x40 }).unwrap()),
        _ => Key::Char(c),
    }
}
const XTERM: &[(&str, Key)] = &[
    ("\x1bOA", Key::Up), ("\x1bOB", Key::Down), ("\x1bOC", Key::Right), ("\x1bOD", Key::Left), ("\x1bOH", Key::Home), ("\x1bOF", Key::End),
    ("\x1b[6~", Key::PageDown), ("\x1b[5~", Key::PageUp), ("\x1b[3~", Key::Delete), ("\x1b[2~", Key::Insert),
    ("\x1bOP", Key::F(1)), ("\x1bOQ", Key::F(2)), ("\x1bOR", Key::F(3)), ("\x1bOS", Key::F(4)), ("\x1b[15~", Key::F(5)), ("\x1b[17~", Key::F(6)),
    ("\x1b[18~", Key::F(7)), ("\x1b[19~", Key::F(8)), ("\x1b[20~", Key::F(9)), ("\x1b[21~", Key::F(10)), ("\x1b[23~", Key::F(11)), ("\x1b[24~", Key::F(12)),
];
const ODD: &[(&str, Key)] = &[
    ("\x1b[A", Key::Up), ("\x1b[B", Key::Down), ("\x1b[A1", Key::F(1)), ("\x1b[A12", Key::F(2)), ("\x1b[A1234", Key::F(3)), ("\x1b[[A", Key::F(4)),
    ("qq", Key::F(5)), ("q", Key::F(6)), ("qqqq", Key::F(7)), ("\x7f", Key::Delete), ("\x1b", Key::Home), ("\x1b\x1b", Key::End),
];
pub fn table(term: &str) -> &'static [(&'static str, Key)] {
    match term { "xterm-vrf" => XTERM, "vrf-odd" => ODD, _ => &[("\x1bOA", Key::Up)] }
}

#[derive(Debug, PartialEq)]
pub enum Dec { More, Invalid(usize), Ev(Event, usize) }

pub fn decode(term: &str, buf: &[u8]) -> Dec {
    let text = match std::str::from_utf8(buf) {
        Ok(s) => s,
        Err(e) if e.valid_up_to() > 0 => std::str::from_utf8(&buf[..e.valid_up_to()]).unwrap(),
        Err(e) => return match e.error_len() { Some(n) => Dec::Invalid(n), None => Dec::More },
    };
    let Some(first) = text.chars().next() else { return Dec::More };
    let plain = Dec::Ev(Event::Key(key_of(first)), first.len_utf8());
    let best = table(term).iter().filter(|(s, _)| text.starts_with(s)).max_by_key(|(s, _)| s.len());
    if term == "xterm-vrf" && text.starts_with("\x1b[<") {
        return match mouse(&buf[3..]) { Some((m, n)) => Dec::Ev(Event::Mouse(m), n + 3), None => plain };
    }
    match best { Some((s, k)) => Dec::Ev(Event::Key(*k), s.len()), None => plain }
}
fn mouse(b: &[u8]) -> Option<(MouseEvent, usize)> {
    let mut i = 0;
    let mut num = |ends: &[u8]| -> Option<(u64, u8)> {
        let s = i;
        let mut v: u64 = 0;
        while i < b.len() && b[i].is_ascii_digit() { v = v.saturating_mul(10).saturating_add((b[i] - b'0') as u64); i += 1 }
        if i == s || i >= b.len() || !ends.contains(&b[i]) || v > u32::MAX as u64 { return None }
        i += 1;
        Some((v, b[i - 1]))
    };
    let (btn, _) = num(b";")?;
    let (x, _) = num(b";")?;
    let (y, end) = num(b"Mm")?;
    let mut mods = ModifierState::empty();
    if btn & 4 != 0 { mods |= ModifierState::SHIFT }
    if btn & 8 != 0 { mods |= ModifierState::ALT }
    if btn & 16 != 0 { mods |= ModifierState::CTRL }
    let input = match btn & !28 {
        k @ 0..=3 => {
            let bt = match k { 0 => MouseButton::Left, 1 => MouseButton::Middle, 2 => MouseButton::Right, _ => MouseButton::Other(3) };
            if end == b'M' { MouseInput::ButtonPressed(bt) } else { MouseInput::ButtonReleased(bt) }
        }
        64 => MouseInput::WheelUp,
        65 => MouseInput::WheelDown,
        _ => MouseInput::Motion,
    };
    Some((MouseEvent { position: Cursor { line: y.saturating_sub(1) as usize, column: x.saturating_sub(1) as usize }, input, modifiers: mods }, i))
}

// ---------------------------------------------------------------- the rig

#[derive(Clone, Debug, PartialEq)]
enum A { Event(u8), Raw(usize, u8), Wait(u8), Signal(i32) }
#[derive(Clone, Debug)]
struct Case { term: &'static str, script: Vec<R>, acts: Vec<(A, bool)>, maxread: usize, screen: bool, sigs: u8 }

fn tmo(k: u8) -> Option<Duration> { match k % 3 { 0 => Some(Duration::from_millis(0)), 1 => Some(Duration::from_millis(20)), _ => None } }
const SIGS: [(i32, Signal); 5] = [(libc::SIGINT, Signal::Interrupt), (libc::SIGQUIT, Signal::Quit), (libc::SIGTSTP, Signal::Suspend), (libc::SIGCONT, Signal::Continue), (libc::SIGWINCH, Signal::Resize)];
fn set_of(bits: u8) -> SignalSet { let mut s = SignalSet::new(); for (i, (_, g)) in SIGS.iter().enumerate() { if bits & (1 << i) != 0 { s.insert(*g) } } s }

enum Src { T(ManuallyDrop<Terminal>), S(ManuallyDrop<Screen>) }
impl Src {
    fn event(&mut self, g: bool, t: Option<Duration>) -> std::io::Result<Option<Event>> {
        match self { Src::T(x) => if g { x.lock_read().unwrap().read_event(t) } else { x.read_event(t) }, Src::S(x) => if g { x.lock_read().unwrap().read_event(t) } else { x.read_event(t) } }
    }
    fn raw(&mut self, g: bool, b: &mut [u8], t: Option<Duration>) -> std::io::Result<Option<Event>> {
        match self {
            Src::T(x) => { let x: &mut Terminal = x; if g { x.lock_read().unwrap().read_raw(b, t) } else { x.read_raw(b, t) } }
            Src::S(x) => { let x: &mut Screen = x; if g { x.lock_read().unwrap().read_raw(b, t) } else { x.read_raw(b, t) } }
        }
    }
    fn wait(&mut self, g: bool, t: Option<Duration>) -> std::io::Result<bool> {
        match self { Src::T(x) => if g { x.lock_read().unwrap().wait_event(t) } else { x.wait_event(t) }, Src::S(x) => if g { x.lock_read().unwrap().wait_event(t) } else { x.wait_event(t) } }
    }
}

/// nothing is left over from an earlier case in the library's signal slot
fn drain_slot(s: &mut Src) {
    dev::dev().r.push_front(R::Timeout);
    let mut b = [0u8; 1];
    for _ in 0..2 { let _ = s.raw(false, &mut b, Some(Duration::from_millis(0))); }
    dev::dev().r.clear();
    dev::dev().log.clear();
}

fn run(c: &Case) -> Result<(), String> {
    dev::open(c.term, 5, 10);
    let cfg = PrepareConfig { report_signals: set_of(c.sigs), ..PrepareConfig::default() };
    let mut keep: Option<ManuallyDrop<PrepareState>> = None;
    let mut s = {
        let t = e2s(Terminal::new(), "open")?;
        if c.screen { Src::S(ManuallyDrop::new(e2s(Screen::with_terminal(t, cfg), "screen")?)) } else { keep = Some(ManuallyDrop::new(e2s(t.prepare(cfg), "prepare")?)); Src::T(ManuallyDrop::new(t)) }
    };
    let _ = keep;
    drain_slot(&mut s);
    { let mut d = dev::dev(); d.r = c.script.clone().into(); d.maxread = c.maxread.max(1); }
    let mut pend: Vec<u8> = vec![];
    let mut slot: Option<i32> = None;
    let n = c.acts.len();
    // at the end everything still undelivered has to come out
    let mut i = 0;
    loop {
        let (act, g) = if i < n { c.acts[i].clone() } else { (A::Raw(64, 0), i % 2 == 0) };
        if i >= n && pend.is_empty() && dev::dev().r.is_empty() && slot.is_none() { break }
        if i > n + 5000 { return Err("input is never delivered".into()) }
        let what = format!("call {i} {act:?}");
        dev::dev().log.clear();
        let before = decode(c.term, &pend);
        let slot0 = slot;
        let had = pend.clone();
        let mut buf = [0xa5u8; 96];
        let mut cap = 0;
        let res: std::io::Result<Option<Event>> = match act {
            A::Event(t) => s.event(g, tmo(t)),
            A::Raw(k, t) => { cap = k.min(64); s.raw(g, &mut buf[16..16 + cap], tmo(t)) }
            A::Wait(t) => s.wait(g, tmo(t)).map(|b| if b { Some(Event::NoEvent) } else { None }),
            A::Signal(x) => { if dev::raise(x) { slot = Some(x) } i += 1; continue }
        };
        i += 1;
        // what happened on the device meanwhile
        let mut failed = false;
        let mut got = 0;
        let mut sigs: Vec<i32> = vec![];
        let mut blocked = false;
        for l in &dev::dev().log {
            match l {
                Log::Read(b) => { pend.extend_from_slice(b); got += b.len() }
                Log::ReadErr => failed = true,
                Log::Sig(x) => sigs.push(*x),
                Log::Unexpected(u) => if u.contains("for ever") { blocked = true } else { return Err(format!("{what}: {u}")) },
                _ => (),
            }
        }
        if let Some(x) = sigs.last() { slot = Some(*x) }
        if buf[..16].iter().chain(&buf[16 + cap..]).any(|b| *b != 0xa5) { return Err(format!("{what}: writes outside the caller's buffer")) }
        match (&act, &res) {
            (A::Wait(_), Ok(r)) => {
                if got > 0 { return Err(format!("{what}: waiting read {got} bytes")) }
                let ready = before != Dec::More || slot0.is_some();
                if ready && r.is_none() { return Err(format!("{what}: an event is ready, but none is reported")) }
                continue;
            }
            (A::Wait(_), Err(e)) => {
                if matches!(before, Dec::Invalid(_)) || failed || blocked || e.raw_os_error().is_some() { continue }
                return Err(format!("{what}: unexpected error {e}"));
            }
            _ => (),
        }
        let _ = had;
        match res {
            Ok(Some(Event::Raw(k))) => {
                if !matches!(act, A::Raw(..)) { return Err(format!("{what}: raw data from an event read")) }
                if k > cap { return Err(format!("{what}: {k} bytes reported in a buffer of {cap}")) }
                if pend.len() < k || buf[16..16 + k] != pend[..k] { return Err(format!("{what}: delivers {:?}, pending are {pend:?}", &buf[16..16 + k])) }
                pend.drain(..k);
            }
            Ok(Some(Event::Resize(_))) => { if slot.is_none() { return Err(format!("{what}: a resize out of nowhere")) } slot = None }
            Ok(Some(Event::Signal(x))) => {
                if slot.map_or(true, |v| !SIGS.contains(&(v, x))) { return Err(format!("{what}: signal {x:?} out of nowhere")) }
                if !set_of(c.sigs).contains(x) { return Err(format!("{what}: signal {x:?} was not asked for")) }
                slot = None;
            }
            Ok(Some(ev)) => {
                let now = decode(c.term, &pend);
                match now {
                    Dec::Ev(want, k) if want == ev && matches!(act, A::Event(_)) => { pend.drain(..k); }
                    _ => return Err(format!("{what}: gives {ev:?}, but pending input is {pend:?}: {now:?}")),
                }
            }
            Ok(None) => {
                if got == 0 && matches!(act, A::Event(_)) && before != Dec::More { return Err(format!("{what}: no event, though {before:?} is pending")) }
                if got > 0 {
                    if matches!(act, A::Raw(..)) { return Err(format!("{what}: {got} bytes read and not delivered")) }
                    let now = decode(c.term, &pend);
                    if now != Dec::More { return Err(format!("{what}: no event, though {now:?} is pending")) }
                }
                // a signal that is not reported is used up
                if let Some(v) = slot {
                    let rep = SIGS.iter().any(|(a, x)| *a == v && (set_of(c.sigs).contains(*x) || *x == Signal::Resize));
                    if rep && sigs.is_empty() && slot0.is_some() { return Err(format!("{what}: the pending signal {v} is not reported")) }
                    slot = None;
                }
            }
            Err(e) => {
                let now = decode(c.term, &pend);
                if failed || blocked || e.raw_os_error().is_some() { if pend.len() < had.len() { return Err(format!("{what}: input lost by an error")) } continue }
                match now {
                    Dec::Invalid(k) if matches!(act, A::Event(_)) => { pend.drain(..k); }
                    _ => return Err(format!("{what}: unexpected error {e}, pending is {pend:?}")),
                }
            }
        }
    }
    Ok(())
}

fn shrink(c: &Case) -> Vec<Case> {
    let mut o: Vec<Case> = cuts(&c.acts).into_iter().map(|acts| Case { acts, ..c.clone() }).collect();
    o.extend(cuts(&c.script).into_iter().map(|script| Case { script, ..c.clone() }));
    for (i, r) in c.script.iter().enumerate() {
        if let R::Data(b) = r { for w in cuts(b) { let mut script = c.script.clone(); script[i] = R::Data(w); o.push(Case { script, ..c.clone() }) } }
    }
    o
}

fn gen_bytes(r: &mut Rng, term: &str) -> Vec<u8> {
    let mut v = vec![];
    let t = table(term);
    for _ in 0..r.range(1, 8) {
        match r.below(16) {
            0..=4 => v.extend_from_slice(r.pick(t).0.as_bytes()),
            5 => { let s = r.pick(t).0.as_bytes(); v.extend_from_slice(&s[..r.below(s.len() + 1)]) }
            6 => v.push(r.below(128) as u8),
            7 => v.push(r.below(256) as u8),
            8 | 9 => { let c = *r.pick(&['é', '中', '😀', 'ж', '\u{7ff}', '\u{ffff}', '\u{10ffff}']); v.extend_from_slice(c.to_string().as_bytes()) }
            10 => { let c = *r.pick(&['é', '中', '😀']); let s = c.to_string(); v.extend_from_slice(&s.as_bytes()[..r.below(s.len())]) }
            11 => v.extend_from_slice(&r.pick(&[&[0xffu8][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf8], &[0x80], &[0xe4, 0x41]])[..]),
            12 => v.extend_from_slice(format!("\x1b[<{};{};{}{}", r.below(100), r.below(300), r.below(300), if r.chance(1, 2) { 'M' } else { 'm' }).as_bytes()),
            13 => v.extend_from_slice(b"\x1b[<"),
            _ => v.push(*r.pick(b"qqA1234[\x1bO;<~ az\t\r\n\x7f\x03")),
        }
    }
    v
}
fn split(r: &mut Rng, v: Vec<u8>) -> Vec<R> {
    let mut o = vec![];
    let mut i = 0;
    let fine = r.below(3);
    while i < v.len() {
        let n = match fine { 0 => v.len(), 1 => r.range(1, 4), _ => r.range(1, 20) }.min(v.len() - i);
        o.push(R::Data(v[i..i + n].to_vec()));
        i += n;
    }
    o
}
fn gen09(_: u64, r: &mut Rng) -> Case {
    let term = *r.pick(&["xterm-vrf", "vrf-odd", "vrf-odd", "xtermish"]);
    let b = gen_bytes(r, term);
    let n = b.len() + 4;
    let mut script = vec![];
    for d in split(r, b) { if r.chance(1, 6) { script.push(R::Intr) } if r.chance(1, 10) { script.push(R::Timeout) } script.push(d) }
    Case { term, script, acts: (0..n).map(|_| (A::Event(0), r.chance(1, 2))).collect(), maxread: if r.chance(1, 5) { r.range(1, 3) } else { 4096 }, screen: false, sigs: 0 }
}
/// every short input over a few bytes that matter
fn gen09x(mut i: u64, _: &mut Rng) -> Case {
    const AL: [u8; 10] = [0x1b, b'[', b'A', b'1', b'2', b'q', 0xc3, 0xa9, 0xff, b'O'];
    let term = if i % 2 == 0 { "vrf-odd" } else { "xterm-vrf" };
    i /= 2;
    let mut v = vec![];
    for _ in 0..4 { v.push(AL[(i % 10) as usize]); i /= 10 }
    let cut = i as usize % 4;
    let script = if cut == 0 { vec![R::Data(v)] } else { vec![R::Data(v[..cut].to_vec()), R::Data(v[cut..].to_vec())] };
    Case { term, script, acts: vec![(A::Event(0), false); 7], maxread: 4096, screen: false, sigs: 0 }
}
fn one(term: &'static str, v: Vec<u8>) -> Case { Case { term, script: vec![R::Data(v)], acts: vec![(A::Event(0), false), (A::Event(1), true)], maxread: 4096, screen: false, sigs: 0 } }
fn gen10b(i: u64, _: &mut Rng) -> Case {
    // every button code, pressed or released, at a few positions
    let (b, i) = (i % 260, i / 260);
    let (e, i) = (if i % 2 == 0 { 'M' } else { 'm' }, i / 2);
    let (x, y) = [(1, 1), (2, 1), (1, 2), (224, 99), (0, 0), (0, 5), (5, 0), (4294967295u64, 4294967295u64)][i as usize % 8];
    one("xterm-vrf", format!("\x1b[<{b};{x};{y}{e}z").into_bytes())
}
fn gen10x(mut i: u64, _: &mut Rng) -> Case {
    const AL: &[u8; 9] = b"0129;Mm-x";
    let n = 6;
    let mut v = b"\x1b[<".to_vec();
    for _ in 0..n { v.push(AL[(i % 9) as usize]); i /= 9 }
    one("xterm-vrf", v)
}
fn gen10(_: u64, r: &mut Rng) -> Case {
    let num = |r: &mut Rng| match r.below(12) {
        0 => String::new(), 1 => "4294967295".into(), 2 => "4294967296".into(), 3 => "4294967297".into(), 4 => "99999999999999999999999".into(), 5 => "18446744073709551616".into(),
        6 => format!("{}", r.below(1 << 32)), 7 => "0".into(), 8 => "007".into(), 9 => format!("{}", (1u64 << r.below(34)) - 1), _ => format!("{}", r.below(300)),
    };
    let sep = |r: &mut Rng| if r.chance(1, 12) { r.pick(&["", ",", ";;", " ", "M", "\u{e9}"]).to_string() } else { ";".into() };
    let mut s = String::from("\x1b[<");
    let b = if r.chance(2, 3) { format!("{}", r.below(96)) } else { num(r) };
    s += &b;
    s += &sep(r);
    s += &num(r);
    s += &sep(r);
    s += &num(r);
    s += *r.pick(&["M", "m", "M", "m", "M", "", "x", ";", ";1M"]);
    if r.chance(1, 2) { s += *r.pick(&["a", "\x1b[A", "\x1b[<0;1;1M", "é", "\x1b"]) }
    let mut v = s.into_bytes();
    if r.chance(1, 8) { v.push(0xff) }
    if r.chance(1, 8) { let n = r.below(v.len()); v.truncate(n.max(1)) }
    let mut c = one(if r.chance(7, 8) { "xterm-vrf" } else { "vrf-odd" }, v);
    c.acts = vec![(A::Event(0), false); 5];
    c
}
fn gen19(_: u64, r: &mut Rng) -> Case {
    let term = *r.pick(&["xterm-vrf", "vrf-odd"]);
    let mut script = vec![];
    for _ in 0..r.range(1, 5) {
        let mut b = gen_bytes(r, term);
        if r.chance(1, 6) { while b.len() < 200 && !b.is_empty() { let x = b.clone(); b.extend(x) } b.truncate(r.range(100, 330)) }
        for d in split(r, b) {
            if r.chance(1, 3) {
                script.push(match r.below(6) { 0 => R::Intr, 1 => R::Timeout, 2 => R::Fail(libc::EIO), 3 => R::Sig(r.pick(&SIGS).0), 4 => R::SigQuiet(r.pick(&SIGS).0), _ => R::Intr });
            }
            script.push(d);
        }
    }
    let n = r.range(1, 30);
    let acts = (0..n).map(|_| {
        let a = match r.below(12) { 0..=4 => A::Event(r.below(3) as u8), 5..=8 => A::Raw(*r.pick(&[0, 1, 2, 3, 5, 17, 64]), r.below(3) as u8), 9 | 10 => A::Wait(r.below(3) as u8), _ => A::Signal(r.pick(&SIGS).0) };
        (a, r.chance(1, 2))
    }).collect();
    Case { term, script, acts, maxread: if r.chance(1, 4) { r.range(1, 7) } else { 4096 }, screen: term == "xterm-vrf" && r.chance(1, 4), sigs: r.below(32) as u8 }
}
/// every short mixture over a few calls and device answers
fn gen19x(mut i: u64, _: &mut Rng) -> Case {
    let mut take = |n: u64| { let x = i % n; i /= n; x };
    let script = (0..3).map(|_| match take(7) { 0 => R::Data(b"a".to_vec()), 1 => R::Data(b"\x1b[A1".to_vec()), 2 => R::Data(vec![0xc3]), 3 => R::Data(vec![0xa9, b'b', 0xff]), 4 => R::Timeout, 5 => R::Sig(libc::SIGINT), _ => R::SigQuiet(libc::SIGQUIT) }).collect();
    let acts = (0..4).map(|_| (match take(5) { 0 | 1 => A::Event(0), 2 => A::Raw(1, 0), 3 => A::Raw(8, 0), _ => A::Wait(0) }, false)).collect();
    Case { term: "vrf-odd", script, acts, maxread: 4096, screen: false, sigs: 1 }
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug)]
struct Wait { d: Option<Duration>, how: u8, guard: bool, screen: bool, intr: u8, ready: bool }
fn run20(c: &Wait) -> Result<(), String> {
    dev::open("xterm-vrf", 5, 10);
    let t = e2s(Terminal::new(), "open")?;
    let mut s = if c.screen { Src::S(ManuallyDrop::new(e2s(Screen::with_terminal(t, PrepareConfig::default()), "screen")?)) } else { Src::T(ManuallyDrop::new(t)) };
    drain_slot(&mut s);
    {
        let mut d = dev::dev();
        for _ in 0..c.intr { d.r.push_back(R::Intr) }
        d.r.push_back(if c.ready || c.d.is_none() { R::Data(b"k".to_vec()) } else { R::Timeout });
    }
    let mut b = [0u8; 4];
    let res = match c.how {
        0 => s.wait(c.guard, c.d).map(|x| if x { Some(Event::NoEvent) } else { None }),
        1 => s.event(c.guard, c.d),
        _ => s.raw(c.guard, &mut b, c.d),
    };
    let res = e2s(res, "waiting")?;
    let want = if c.ready || c.d.is_none() { Some(match c.how { 0 => Event::NoEvent, 1 => Event::Key(Key::Char('k')), _ => Event::Raw(1) }) } else { None };
    if res != want { return Err(format!("gives {res:?}, expected {want:?}")) }
    let mut n = 0;
    const CAP: u64 = i64::MAX as u64 / 1_000_000 - 1;
    for l in &dev::dev().log {
        match l {
            Log::Select(tv) => {
                n += 1;
                let ok = match (c.d, tv) {
                    (None, None) => true,
                    (Some(d), Some((s, us))) if d.as_secs() <= CAP => (*s as u64, *us as u64) == (d.as_secs(), d.subsec_millis() as u64 * 1000),
                    (Some(_), Some((s, us))) => *s as u64 >= CAP && *s >= 0 && (0..1_000_000).contains(us),
                    _ => false,
                };
                if !ok { return Err(format!("the system is asked to wait {tv:?} for {:?}", c.d)) }
            }
            Log::Unexpected(u) => return Err(u.clone()),
            _ => (),
        }
    }
    if n != c.intr as usize + 1 { return Err(format!("waits {n} times, interrupted {} times", c.intr)) }
    Ok(())
}
fn extreme(i: usize) -> Option<Duration> {
    let secs = [0u64, 1, 2, 59, 3600, u32::MAX as u64, u32::MAX as u64 + 1, 9_223_372_036_853, 9_223_372_036_854, 9_223_372_036_855, 9_223_372_036_854_774, 9_223_372_036_854_775, 9_223_372_036_854_776,
        i64::MAX as u64 / 1000, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX, i32::MAX as u64, i32::MAX as u64 + 1];
    let nanos = [0u32, 1, 999, 1000, 999_999, 1_000_000, 1_000_001, 1_999_999, 500_000_000, 999_000_000, 999_999_999, 123_456_789];
    let n = secs.len() * nanos.len();
    if i >= n { None } else { Some(Duration::new(secs[i % secs.len()], nanos[i / secs.len()])) }
}
const NEXT: u64 = 21 * 12 + 1;
fn gen20x(i: u64, _: &mut Rng) -> Wait {
    let d = extreme((i % NEXT) as usize);
    let i = i / NEXT;
    Wait { d, how: (i % 3) as u8, guard: i / 3 % 2 == 1, screen: i / 6 % 2 == 1, intr: (i / 12 % 2) as u8, ready: i / 24 % 2 == 1 }
}
fn gen20(_: u64, r: &mut Rng) -> Wait {
    let s = if r.chance(1, 2) { r.next() >> r.below(64) } else { r.below(100_000) as u64 };
    let d = if r.chance(1, 10) { None } else { Some(Duration::new(s, r.below(1_000_000_000) as u32)) };
    Wait { d, how: r.below(3) as u8, guard: r.chance(1, 2), screen: r.chance(1, 4), intr: r.below(3) as u8, ready: r.chance(1, 3) }
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug)]
struct Sg { outer: Option<u8>, set: u8, sig: usize, when: u8, how: u8, guard: bool, screen: bool, data: bool, mouse: bool }
fn run21(c: &Sg) -> Result<(), String> {
    dev::open("xterm-vrf", 5, 10);
    let t = e2s(Terminal::new(), "open")?;
    let mut states: Vec<ManuallyDrop<PrepareState>> = vec![];
    let cfg = |set: u8, on: bool| PrepareConfig { report_signals: set_of(set), block_signals: !on, enable_mouse: c.mouse, enable_control_flow: c.mouse, ..PrepareConfig::default() };
    let mut s = if c.screen { Src::S(ManuallyDrop::new(e2s(Screen::with_terminal(t, cfg(c.set, true)), "screen")?)) } else {
        if let Some(o) = c.outer { states.push(ManuallyDrop::new(e2s(t.prepare(cfg(o, false)), "prepare")?)) }
        states.push(ManuallyDrop::new(e2s(t.prepare(cfg(c.set, true)), "prepare")?));
        Src::T(ManuallyDrop::new(t))
    };
    drain_slot(&mut s);
    dev::take_out();
    let tio = dev::dev().tio;
    let (num, sig) = SIGS[c.sig];
    {
        let mut d = dev::dev();
        d.size = (7, 33);
        match c.when { 1 => d.r.push_back(R::Sig(num)), 2 => d.r.push_back(R::SigQuiet(num)), _ => () }
        if c.data { d.r.push_back(R::Data(b"k".to_vec())) } else if c.when == 2 { d.r.push_back(R::Eof) } else { d.r.push_back(R::Timeout) }
        // someone else took the terminal meanwhile
        if sig == Signal::Continue { d.tio = dev::base_tio() }
    }
    let caught = dev::dev().sigs.get(&num).map_or(false, |a| a.handler > 1);
    let inset = c.set & (1 << c.sig) != 0;
    if (inset || sig == Signal::Continue || sig == Signal::Resize) && !caught { return Err(format!("{sig:?} is not caught")) }
    if !caught { return Ok(()) }
    if c.when == 0 { dev::raise(num); }
    let mut b = [0u8; 4];
    let tm = Some(Duration::from_millis(if c.data { 5 } else { 0 }));
    let res = e2s(if c.how == 0 { s.event(c.guard, tm) } else { s.raw(c.guard, &mut b, tm) }, "reading")?;
    let data = if c.how == 0 { Event::Key(Key::Char('k')) } else { Event::Raw(1) };
    let want = match sig { Signal::Resize => Some(Event::Resize(Size { lines: 7, columns: 33 })), _ if inset => Some(Event::Signal(sig)), _ => None };
    // a signal no one asked for may be passed over on the way to the input
    let mut seen = res == want;
    if !seen && want.is_none() && c.data && res == Some(data) { seen = true }
    if !seen { return Err(format!("{sig:?} is reported as {res:?}, expected {want:?}")) }
    if sig == Signal::Continue {
        let now = dev::dev().tio;
        if now.c_lflag != tio.c_lflag || now.c_iflag != tio.c_iflag || now.c_cc != tio.c_cc { return Err("the settings were not applied again after continuing".into()) }
        let out = dev::take_out();
        let has = |x: &[u8]| out.windows(x.len()).any(|w| w == x);
        if !has(b"\x1b[?1h\x1b=") { return Err("the keypad was not enabled again after continuing".into()) }
        if c.mouse && !(has(b"\x1b[?1006h") && has(b"\x1b[?1002h")) { return Err("the mouse was not enabled again after continuing".into()) }
        for (n, _) in SIGS.iter() { if *n == libc::SIGCONT || *n == libc::SIGWINCH { if dev::dev().sigs.get(n).map_or(true, |a| a.handler <= 1) { return Err("signals are no longer caught after continuing".into()) } } }
    }
    // once only
    dev::dev().r.retain(|x| matches!(x, R::Data(_)));
    for _ in 0..3 {
        let res = e2s(if c.how == 0 { s.event(c.guard, tm) } else { s.raw(c.guard, &mut b, tm) }, "reading")?;
        if let Some(Event::Signal(_)) | Some(Event::Resize(_)) = res { return Err(format!("{sig:?} is reported again as {res:?}")) }
    }
    Ok(())
}
fn gen21(mut i: u64, _: &mut Rng) -> Sg {
    let mut take = |n: u64| { let x = i % n; i /= n; x };
    let sig = take(5) as usize;
    let when = take(3) as u8;
    let how = take(2) as u8;
    let guard = take(2) == 1;
    let data = take(2) == 1;
    let set = take(32) as u8;
    let kind = take(4);
    Sg { outer: match kind { 1 => Some(31), 2 => Some(!set & 31), _ => None }, screen: kind == 3, set, sig, when, how, guard, data, mouse: set % 2 == 1 }
}

pub fn kinds(p: &str) -> Vec<Box<dyn Kind>> {
    match p {
        "C09" => vec![
            Box::new(K { name: "short", quick: 2 * 40_000, thorough: 2 * 40_000, all: true, gen: gen09x, run, shrink }),
            Box::new(K { name: "input", quick: 100_000, thorough: 3_000_000, all: false, gen: gen09, run, shrink }),
        ],
        "C10" => vec![
            Box::new(K { name: "buttons", quick: 260 * 16, thorough: 260 * 16, all: true, gen: gen10b, run, shrink }),
            Box::new(K { name: "short", quick: 9u64.pow(6) / 5, thorough: 9u64.pow(6), all: false, gen: gen10x, run, shrink }),
            Box::new(K { name: "reports", quick: 80_000, thorough: 2_000_000, all: false, gen: gen10, run, shrink }),
        ],
        "C19" => vec![
            Box::new(K { name: "short", quick: 343 * 625, thorough: 343 * 625, all: true, gen: gen19x, run, shrink }),
            Box::new(K { name: "mixed", quick: 60_000, thorough: 2_000_000, all: false, gen: gen19, run, shrink }),
        ],
        "C20" => vec![
            Box::new(K { name: "extremes", quick: NEXT * 48, thorough: NEXT * 48, all: true, gen: gen20x, run: run20, shrink: no_shrink }),
            Box::new(K { name: "durations", quick: 40_000, thorough: 1_000_000, all: false, gen: gen20, run: run20, shrink: no_shrink }),
        ],
        _ => vec![Box::new(K { name: "signals", quick: 5 * 3 * 8 * 128, thorough: 5 * 3 * 8 * 128, all: true, gen: gen21, run: run21, shrink: no_shrink })],
    }
}
