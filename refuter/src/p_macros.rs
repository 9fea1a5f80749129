//! C22: term_write! and term_writeln!
//!
//! Every kind of argument, alone, in pairs and in threes, on a recording
//! terminal whose k-th operation fails, and on the real terminal and screen.
use crate::dev;
use crate::fw::*;
use crate::p_screen::e2s;
use mortal::{term_write, term_writeln, Color, PrepareConfig, Screen, Style, Terminal, Theme};
use std::cell::RefCell;
use std::fmt;
use std::io;
use std::mem::ManuallyDrop;

#[derive(Clone, Debug, PartialEq)]
enum Op { Fg(Option<Color>), Bg(Option<Color>), Add(Style), Del(Style), Style(Style), Theme(Option<Color>, Option<Color>, Style), Reset, Text(String), Other(&'static str) }

struct Log { ops: Vec<Op>, fail: Option<usize>, locks: usize, held: usize, n: usize }
trait Out: Sized { fn out(fail: Option<usize>) -> Self; fn failed(&self) -> Option<usize>; }
impl Out for () { fn out(_: Option<usize>) {} fn failed(&self) -> Option<usize> { None } }
impl Out for io::Result<()> {
    fn out(f: Option<usize>) -> Self { match f { Some(n) => Err(io::Error::new(io::ErrorKind::Other, n.to_string())), None => Ok(()) } }
    fn failed(&self) -> Option<usize> { self.as_ref().err().map(|e| e.to_string().parse().unwrap_or(usize::MAX)) }
}
struct Mock<R> { log: RefCell<Log>, _r: std::marker::PhantomData<R> }
struct Guard<'a, R> { m: &'a Mock<R> }
impl<R: Out> Mock<R> {
    fn new(fail: Option<usize>) -> Self { Mock { log: RefCell::new(Log { ops: vec![], fail, locks: 0, held: 0, n: 0 }), _r: std::marker::PhantomData } }
    fn borrow_term_write_guard(&self) -> Guard<'_, R> { let mut l = self.log.borrow_mut(); l.locks += 1; l.held += 1; Guard { m: self } }
}
impl<'a, R> Drop for Guard<'a, R> { fn drop(&mut self) { self.m.log.borrow_mut().held -= 1; } }
#[allow(dead_code)]
impl<'a, R: Out> Guard<'a, R> {
    fn op(&mut self, o: Op) -> R {
        let mut l = self.m.log.borrow_mut();
        let k = l.n;
        l.n += 1;
        if l.fail == Some(k) { return R::out(Some(k)) }
        l.ops.push(o);
        R::out(None)
    }
    fn borrow_term_write_guard(&mut self) -> &mut Self { self }
    fn set_fg<C: Into<Option<Color>>>(&mut self, c: C) -> R { self.op(Op::Fg(c.into())) }
    fn set_bg<C: Into<Option<Color>>>(&mut self, c: C) -> R { self.op(Op::Bg(c.into())) }
    fn add_style(&mut self, s: Style) -> R { self.op(Op::Add(s)) }
    fn remove_style(&mut self, s: Style) -> R { self.op(Op::Del(s)) }
    fn set_style<S: Into<Option<Style>>>(&mut self, s: S) -> R { self.op(Op::Style(s.into().unwrap_or_default())) }
    fn set_theme(&mut self, t: Theme) -> R { self.op(Op::Theme(t.fg, t.bg, t.style)) }
    fn clear_attributes(&mut self) -> R { self.op(Op::Reset) }
    fn bold(&mut self) -> R { self.add_style(Style::BOLD) }
    fn italic(&mut self) -> R { self.add_style(Style::ITALIC) }
    fn underline(&mut self) -> R { self.add_style(Style::UNDERLINE) }
    fn reverse(&mut self) -> R { self.add_style(Style::REVERSE) }
    fn write_char(&mut self, c: char) -> R { self.op(Op::Text(c.to_string())) }
    fn write_str(&mut self, s: &str) -> R { self.op(Op::Text(s.to_string())) }
    fn write_fmt(&mut self, a: fmt::Arguments) -> R { self.op(Op::Text(a.to_string())) }
    fn flush(&mut self) -> R { self.op(Op::Other("flush")) }
    fn refresh(&mut self) -> R { self.op(Op::Other("refresh")) }
    fn clear_screen(&mut self) -> R { self.op(Op::Other("clear_screen")) }
}

struct Item {
    text: &'static str,
    ops: fn() -> Vec<Op>,
    res: fn(&Mock<io::Result<()>>) -> io::Result<()>,
    unit: fn(&Mock<()>),
    term: fn(&Terminal) -> io::Result<()>,
    screen: fn(&Screen),
}
fn t(s: &str) -> Op { Op::Text(s.into()) }

fn value() -> Color { Color::Magenta }
fn theme() -> Theme { Theme::new(Color::Blue, None, Style::ITALIC) }
fn some_fg() -> Option<Color> { Some(Color::Cyan) }
fn style() -> Style { Style::REVERSE | Style::BOLD }

macro_rules! item {
    ( $name:ident ! $n:expr ; { $($a:tt)* } { $($x:tt)* } $ops:expr ) => {
        Item {
            text: stringify!($($a)* $($x)*),
            ops: || $ops,
            res: |m| $name!(m, $($a)* $($x)*),
            unit: |m| $name!(m, $($a)* $($x)*),
            term: |m| $name!(m, $($a)* $($x)*),
            screen: |m| $name!(m, $($a)* $($x)*),
        }
    };
}
macro_rules! both {
    ( $v:ident ; { $($a:tt)* } $ea:expr ; { $($b:tt)* } $eb:expr ) => {
        $v.push(item!(term_write ! 0; { $($a)* } { $($b)* } vec![$ea, $eb]));
    };
}
macro_rules! row {
    ( $v:ident ; $a:tt $ea:tt ; $( $b:tt $eb:tt )* ) => { $( both!($v; $a $ea; $b $eb); )* };
}
macro_rules! single {
    ( $v:ident ; { $($a:tt)* } $ea:expr ) => {
        $v.push(item!(term_write ! 0; { $($a)* } { } vec![$ea]));
        $v.push(item!(term_writeln ! 0; { $($a)* } { } vec![$ea, t("\n")]));
        $v.push(item!(term_write ! 0; { "<" $($a)* } { ">" } vec![t("<"), $ea, t(">")]));
        $v.push(item!(term_write ! 0; { $($a)* [bold] } { $($a)* } vec![$ea, Op::Add(Style::BOLD), $ea]));
    };
}
macro_rules! all {
    ( $v:ident ; $( $a:tt $ea:tt )* ) => {
        $( single!($v; $a $ea); )*
        // before and after everything of each group
        $( row!($v; $a $ea;
            { [red] } (Op::Fg(Some(Color::Red))) { [#white] } (Op::Bg(Some(Color::White))) { [underline] } (Op::Add(Style::UNDERLINE)) { [!italic] } (Op::Del(Style::ITALIC))
            { [reset] } (Op::Reset) { [!fg] } (Op::Fg(None)) { [fg = value()] } (Op::Fg(Some(value()))) { [style += style()] } (Op::Add(style()))
            { "lit" } (t("lit")) { 'c' } (t("c")) { (: 7) } (t("7")) { (? "q") } (t("\"q\"")) { ("{}-{}", 1, "b") } (t("1-b")) ); )*
    };
}

fn items() -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    v.push(Item { text: "(nothing) newline", ops: || vec![t("\n")], res: |m| term_writeln!(m), unit: |m| term_writeln!(m), term: |m| term_writeln!(m), screen: |m| term_writeln!(m) });
    all! { v;
        { [black] } (Op::Fg(Some(Color::Black))) { [blue] } (Op::Fg(Some(Color::Blue))) { [cyan] } (Op::Fg(Some(Color::Cyan))) { [green] } (Op::Fg(Some(Color::Green)))
        { [magenta] } (Op::Fg(Some(Color::Magenta))) { [red] } (Op::Fg(Some(Color::Red))) { [white] } (Op::Fg(Some(Color::White))) { [yellow] } (Op::Fg(Some(Color::Yellow)))
        { [#black] } (Op::Bg(Some(Color::Black))) { [#blue] } (Op::Bg(Some(Color::Blue))) { [#cyan] } (Op::Bg(Some(Color::Cyan))) { [#green] } (Op::Bg(Some(Color::Green)))
        { [#magenta] } (Op::Bg(Some(Color::Magenta))) { [#red] } (Op::Bg(Some(Color::Red))) { [#white] } (Op::Bg(Some(Color::White))) { [#yellow] } (Op::Bg(Some(Color::Yellow)))
        { [bold] } (Op::Add(Style::BOLD)) { [italic] } (Op::Add(Style::ITALIC)) { [reverse] } (Op::Add(Style::REVERSE)) { [underline] } (Op::Add(Style::UNDERLINE))
        { [!bold] } (Op::Del(Style::BOLD)) { [!italic] } (Op::Del(Style::ITALIC)) { [!reverse] } (Op::Del(Style::REVERSE)) { [!underline] } (Op::Del(Style::UNDERLINE))
        { [reset] } (Op::Reset) { [!fg] } (Op::Fg(None)) { [!bg] } (Op::Bg(None)) { [!style] } (Op::Style(Style::empty()))
        { [fg = value()] } (Op::Fg(Some(value()))) { [bg = value()] } (Op::Bg(Some(value()))) { [fg = some_fg()] } (Op::Fg(some_fg())) { [bg = None] } (Op::Bg(None))
        { [style = style()] } (Op::Style(style())) { [style += style()] } (Op::Add(style())) { [style -= style()] } (Op::Del(style()))
        { [theme = theme()] } (Op::Theme(theme().fg, theme().bg, theme().style))
        { "lit" } (t("lit")) { 'c' } (t("c")) { 12 } (t("12")) { "{}" } (t("{}")) { true } (t("true"))
        { (: 1 + 1) } (t("2")) { (? "q\n") } (t("\"q\\n\"")) { ("{:>3}|{}", 5, "b") } (t("  5|b")) { ("plain") } (t("plain")) { ("{x}", x = 3) } (t("3")) { ("") } (t(""))
    }
    v.push(Item { text: "twelve arguments", ops: || vec![t("a"), Op::Fg(Some(Color::Red)), t("b"), Op::Bg(Some(Color::Blue)), t("c"), Op::Add(Style::BOLD), t("d"), Op::Del(Style::BOLD), t("e"), Op::Reset, t("1"), t("2 3")],
        res: |m| term_write!(m, "a" [red] "b" [#blue] "c" [bold] "d" [!bold] "e" [reset] (: 1) ("{} {}", 2, 3)),
        unit: |m| term_write!(m, "a" [red] "b" [#blue] "c" [bold] "d" [!bold] "e" [reset] (: 1) ("{} {}", 2, 3)),
        term: |m| term_write!(m, "a" [red] "b" [#blue] "c" [bold] "d" [!bold] "e" [reset] (: 1) ("{} {}", 2, 3)),
        screen: |m| term_write!(m, "a" [red] "b" [#blue] "c" [bold] "d" [!bold] "e" [reset] (: 1) ("{} {}", 2, 3)) });
    v
}

/// texts that follow one another are one text
fn joined(v: &[Op]) -> Vec<Op> {
    let mut o: Vec<Op> = vec![];
    for x in v {
        match (o.last_mut(), x) { (Some(Op::Text(a)), Op::Text(b)) => a.push_str(b), (_, Op::Text(b)) if b.is_empty() => (), _ => o.push(x.clone()) }
    }
    o
}
fn beginning(want: &[Op], got: &[Op]) -> bool { (0..=want.len()).any(|k| joined(&want[..k]) == joined(got)) }

fn run(i: &u64) -> Result<(), String> {
    thread_local!(static ITEMS: Vec<Item> = items());
    ITEMS.with(|v| {
        let it = match v.get(*i as usize) { Some(it) => it, None => return Ok(()) };
        let want = (it.ops)();
        let what = it.text;
        // no failure
        let m = Mock::new(None);
        let r = (it.res)(&m);
        let l = m.log.borrow();
        if joined(&l.ops) != joined(&want) { return Err(format!("{what}: performs {:?}, should be {want:?}", l.ops)) }
        if let Err(e) = r { return Err(format!("{what}: fails with {e} though no operation did")) }
        if l.locks != 1 || l.held != 0 { return Err(format!("{what}: the terminal is locked {} times, {} left", l.locks, l.held)) }
        let all = l.n;
        let m = Mock::new(None);
        (it.unit)(&m);
        let l = m.log.borrow();
        if joined(&l.ops) != joined(&want) { return Err(format!("{what}: on a screen, performs {:?}, should be {want:?}", l.ops)) }
        if l.locks != 1 || l.held != 0 { return Err(format!("{what}: the screen is locked {} times, {} left", l.locks, l.held)) }
        // each operation fails
        for k in 0..all {
            let m = Mock::new(Some(k));
            let r = (it.res)(&m);
            let l = m.log.borrow();
            if r.failed() != Some(k) { return Err(format!("{what}: operation {k} fails and the result is {r:?}")) }
            if l.n != k + 1 { return Err(format!("{what}: operation {k} fails and {} more are performed", l.n - k - 1)) }
            if !beginning(&want, &l.ops) { return Err(format!("{what}: operation {k} fails and {:?} were performed", l.ops)) }
        }
        real(it, &want)
    })
}

fn real(it: &Item, want: &[Op]) -> Result<(), String> {
    dev::open("xterm-vrf", 4, 12);
    let tm = ManuallyDrop::new(e2s(Terminal::new(), "open")?);
    e2s((it.term)(&tm), it.text)?;
    let got = dev::take_out();
    dev::open("xterm-vrf", 4, 12);
    let tm = ManuallyDrop::new(e2s(Terminal::new(), "open")?);
    {
        let mut g = tm.lock_write().unwrap();
        for o in want {
            e2s(match o {
                Op::Fg(c) => g.set_fg(*c), Op::Bg(c) => g.set_bg(*c), Op::Add(s) => g.add_style(*s), Op::Del(s) => g.remove_style(*s), Op::Style(s) => g.set_style(*s),
                Op::Theme(f, b, s) => g.set_theme(Theme::new(*f, *b, *s)), Op::Reset => g.clear_attributes(), Op::Text(s) => g.write_str(s), Op::Other(_) => Ok(()),
            }, "direct call")?;
        }
    }
    let exp = dev::take_out();
    if got != exp { return Err(format!("{}: writes {:?} to the terminal, should be {:?}", it.text, String::from_utf8_lossy(&got), String::from_utf8_lossy(&exp))) }
    let mut shots: Vec<Vec<u8>> = vec![];
    for direct in [false, true] {
        dev::open("xterm-vrf", 4, 12);
        let s = ManuallyDrop::new(e2s(Screen::with_terminal(e2s(Terminal::new(), "open")?, PrepareConfig::default()), "screen")?);
        if direct {
            let mut g = s.lock_write().unwrap();
            for o in want {
                match o {
                    Op::Fg(c) => g.set_fg(*c), Op::Bg(c) => g.set_bg(*c), Op::Add(s) => g.add_style(*s), Op::Del(s) => g.remove_style(*s), Op::Style(s) => g.set_style(*s),
                    Op::Theme(f, b, s) => g.set_theme(Theme::new(*f, *b, *s)), Op::Reset => g.clear_attributes(), Op::Text(s) => g.write_str(s), Op::Other(_) => (),
                }
            }
        } else { (it.screen)(&s) }
        // and what is written afterwards
        s.write_str("z");
        e2s(s.refresh(), "refresh")?;
        shots.push(dev::take_out());
    }
    if shots[0] != shots[1] {
        // the order of bytes may differ with the number of refreshes; what is shown may not
        let mut a = crate::vt::Vt::new(4, 12); a.feed(&shots[0]);
        let mut b = crate::vt::Vt::new(4, 12); b.feed(&shots[1]);
        if a.grid != b.grid { return Err(format!("{}: on a screen, shows something else", it.text)) }
    }
    Ok(())
}

fn run_fail(i: &u64) -> Result<(), String> {
    // the device fails while the k-th of three large texts is written
    let k = *i as usize;
    dev::open("vrf-none", 4, 12);
    let big = "x".repeat(9000);
    let tm = ManuallyDrop::new(e2s(Terminal::new(), "open")?);
    for _ in 0..k { dev::dev().w.push_back(dev::W::Short(1 << 20)); }
    dev::dev().w.push_back(dev::W::Fail(libc::EIO));
    let r = term_write!(tm, (: big) (: big) (: big));
    let out = dev::take_out();
    if k < 3 {
        if r.is_ok() { return Err(format!("write {k} fails and the macro reports success")) }
        if out.len() != 9000 * k { return Err(format!("write {k} fails and {} bytes are written", out.len())) }
    } else if r.is_err() || out.len() != 27000 { return Err("nothing fails but not all is written".into()) }
    Ok(())
}

// the device fails in every way a device can: the kind of the error is nothing the macros look at
fn run_errno(i: &u64) -> Result<(), String> {
    let (k, errno) = ((*i % 3) as usize, (*i / 3) as i32 + 1);
    if errno == libc::EINTR { return Ok(()) } // the writer tries again
    dev::open("vrf-none", 4, 12);
    let big = "x".repeat(9000);
    let tm = ManuallyDrop::new(e2s(Terminal::new(), "open")?);
    for _ in 0..k { dev::dev().w.push_back(dev::W::Short(1 << 20)); }
    dev::dev().w.push_back(dev::W::Fail(errno));
    let r = term_write!(tm, (: big) (: big) (: big));
    let out = dev::take_out();
    if r.is_ok() { return Err(format!("write {k} fails with error {errno} and the macro reports success")) }
    if out.len() != 9000 * k { return Err(format!("write {k} fails with error {errno} and {} bytes are written", out.len())) }
    Ok(())
}

fn run_chain(i: &u64) -> Result<(), String> {
    use std::io::{Error, ErrorKind, Result as R};
    use mortal::macros::Chain;
    use ErrorKind::*;
    let kinds = [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse,
        AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted,
        Unsupported, UnexpectedEof, OutOfMemory, Other];
    let k = (*i / 2) as usize;
    let before: R<()> = if *i % 2 == 1 { Ok(()) } else if k < kinds.len() { Err(Error::from(kinds[k])) } else { Err(Error::from_raw_os_error((k - kinds.len()) as i32)) };
    let said = before.as_ref().map_err(|e| (e.kind(), e.raw_os_error())).copied();
    let mut ran = 0;
    let r = Chain::chain(before, || -> R<()> { ran += 1; Err(Error::new(Other, "the next")) });
    match said {
        Ok(()) => if ran != 1 || r.is_ok() { return Err(format!("after a step that succeeds, the next ran {ran} times")) },
        Err(e) => {
            if ran != 0 { return Err(format!("after a step that fails with {e:?}, the next runs")) }
            match r { Ok(()) => return Err(format!("a step fails with {e:?} and the whole succeeds")), Err(f) => if (f.kind(), f.raw_os_error()) != e { return Err(format!("a step fails with {e:?} and the whole reports {f:?}")) } }
        }
    }
    Ok(())
}

pub fn kinds(_: &str) -> Vec<Box<dyn Kind>> {
    let n = items().len() as u64;
    vec![
        Box::new(K { name: "arguments", quick: n, thorough: n, all: true, gen: |i, _| i, run, shrink: no_shrink }),
        Box::new(K { name: "failing device", quick: 4, thorough: 4, all: true, gen: |i, _| i, run: run_fail, shrink: no_shrink }),
        Box::new(K { name: "errors", quick: 3 * 133, thorough: 3 * 133, all: true, gen: |i, _| i, run: run_errno, shrink: no_shrink }),
        Box::new(K { name: "chain", quick: 2 * (20 + 134), thorough: 2 * (20 + 134), all: true, gen: |i, _| i, run: run_chain, shrink: no_shrink }),
    ]
}
