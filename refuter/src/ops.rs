//! Screen operations and generators shared by the explorers
use crate::fw::Rng;
use crate::vt::{self, At};
use mortal::{Color, Style, Theme};

pub const COLORS: [Color; 8] = [Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White];
pub fn color(c: Option<u8>) -> Option<Color> { c.map(|c| COLORS[c as usize]) }
pub fn style(b: u8) -> Style {
    let mut s = Style::empty();
    if b & vt::BOLD != 0 { s |= Style::BOLD }
    if b & vt::ITALIC != 0 { s |= Style::ITALIC }
    if b & vt::REVERSE != 0 { s |= Style::REVERSE }
    if b & vt::UNDERLINE != 0 { s |= Style::UNDERLINE }
    s
}
pub fn bits(s: Style) -> u8 {
    let mut b = 0;
    if s.contains(Style::BOLD) { b |= vt::BOLD }
    if s.contains(Style::ITALIC) { b |= vt::ITALIC }
    if s.contains(Style::REVERSE) { b |= vt::REVERSE }
    if s.contains(Style::UNDERLINE) { b |= vt::UNDERLINE }
    b
}
pub fn at_of(a: (Option<Color>, Option<Color>, Style)) -> At {
    let f = |c: Option<Color>| c.map(|c| COLORS.iter().position(|x| *x == c).unwrap() as u8);
    At { fg: f(a.0), bg: f(a.1), st: bits(a.2) }
}
pub fn theme(a: At) -> Theme { Theme::new(color(a.fg), color(a.bg), style(a.st)) }

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Write(String), Chars(String), Fmt(String),
    At(usize, usize, String), Styled(At, String), StyledAt(usize, usize, At, String),
    Cursor(usize, usize), NextLine(usize), Clear, ClearAttrs,
    AddStyle(u8), RemoveStyle(u8), SetStyle(u8), Sugar(u8), Fg(Option<u8>), Bg(Option<u8>), Theme(At),
    /// the window takes this size and the event is read (raw or decoded)
    Resize(usize, usize, bool),
    Refresh,
    /// a refresh whose output fails after that many bytes
    FailRefresh(usize),
    /// done on one write guard
    Batch(Vec<Op>),
}

pub fn gen_at(r: &mut Rng) -> At {
    let c = |r: &mut Rng| if r.chance(1, 2) { None } else { Some(r.below(8) as u8) };
    At { fg: c(r), bg: c(r), st: r.below(16) as u8 }
}

#[derive(Clone, Copy)]
pub struct Mix { pub wide: bool, pub comb: bool, pub zero: bool, pub ctl: bool, pub maxlen: usize }

pub const NARROW: &[char] = &['a', 'b', 'c', 'X', ' ', '~', 'é', 'ß', 'Ж', '0'];
pub const WIDE: &[char] = &['中', '한', 'Ａ', '😀', '　', '字'];
pub const COMB: &[char] = &['\u{301}', '\u{308}', '\u{20d0}', '\u{327}', '\u{fe0f}'];
pub const ZERO: &[char] = &['\0', '\u{7}', '\u{1b}', '\u{7f}', '\u{200b}', '\u{200d}', '\u{85}', '\u{feff}', '\u{1}', '\u{b}'];

pub fn gen_text(r: &mut Rng, m: Mix) -> String {
    let n = if r.chance(1, 8) { r.below(m.maxlen * 3 + 1) } else { r.below(m.maxlen + 1) };
    let mut s = String::new();
    for _ in 0..n {
        let k = r.below(20);
        s.push(match k {
            0..=5 if m.wide => *r.pick(WIDE),
            6..=8 if m.comb => *r.pick(COMB),
            9 if m.zero => *r.pick(ZERO),
            10 | 11 if m.ctl => *r.pick(&['\t', '\r', '\n']),
            _ => *r.pick(NARROW),
        });
    }
    s
}
