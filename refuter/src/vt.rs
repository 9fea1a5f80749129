//! A terminal that obeys the bytes it is sent.
use unicode_width::UnicodeWidthChar;

pub const BOLD: u8 = 1;
pub const ITALIC: u8 = 2;
pub const REVERSE: u8 = 4;
pub const UNDERLINE: u8 = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Hash)]
pub struct At { pub fg: Option<u8>, pub bg: Option<u8>, pub st: u8 }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Slot { Ch(String, At), Cont, Garbage }

pub fn width(c: char) -> usize { c.width().unwrap_or(0) }

pub struct Vt {
    pub lines: usize, pub cols: usize,
    pub grid: Vec<Slot>,
    pub cur: (usize, usize),
    pub known: bool,
    pend: bool,
    pub at: At,
    pub modes: std::collections::BTreeSet<u32>,
    /// the kinds of mouse tracking exclude one another, as in xterm
    pub exclusive: bool,
    pub appkeypad: bool,
    pub region: (usize, usize),
    pub bad: Vec<String>,
    pub saw_clear: bool,
    buf: Vec<u8>,
}

impl Vt {
    pub fn new(lines: usize, cols: usize) -> Vt {
        Vt { lines, cols, grid: vec![Slot::Garbage; lines * cols], cur: (0, 0), known: true, pend: false, at: At::default(),
            modes: [25].into_iter().collect(), exclusive: false, appkeypad: false, region: (0, lines.saturating_sub(1)), bad: vec![], saw_clear: false, buf: vec![] }
    }
    /// The window changes size; what it then shows is anybody's guess
    pub fn resize(&mut self, lines: usize, cols: usize) {
        self.lines = lines; self.cols = cols;
        self.grid = vec![Slot::Garbage; lines * cols];
        self.region = (0, lines - 1);
        self.cur = (self.cur.0.min(lines - 1), self.cur.1.min(cols - 1));
        self.pend = false;
    }
    fn blank(&self) -> Slot { Slot::Ch(" ".into(), At { bg: self.at.bg, ..At::default() }) }
    fn kill(&mut self, l: usize, c: usize) {
        // the other half of a wide character that is overwritten
        let i = l * self.cols + c;
        match self.grid[i] {
            Slot::Cont => if c > 0 { self.grid[i - 1] = Slot::Garbage },
            _ => if c + 1 < self.cols && self.grid[i + 1] == Slot::Cont { self.grid[i + 1] = Slot::Garbage },
        }
    }
    fn linefeed(&mut self) {
        if self.cur.0 + 1 >= self.lines {
            let b = self.blank();
            self.grid.drain(..self.cols);
            self.grid.resize(self.lines * self.cols, b);
        } else { self.cur.0 += 1; }
    }
    fn put(&mut self, ch: char) {
        let w = width(ch);
        if w == 0 {
            let (l, c) = self.cur;
            let c = if self.pend { c } else if c == 0 { self.bad.push(format!("{ch:?} has nothing to join")); return } else { c - 1 };
            let mut i = l * self.cols + c;
            if self.grid[i] == Slot::Cont { i -= 1; }
            if let Slot::Ch(t, _) = &mut self.grid[i] { t.push(ch); }
            return;
        }
        if self.pend || self.cur.1 + w > self.cols {
            self.pend = false;
            self.cur.1 = 0;
            self.linefeed();
        }
        if w > self.cols { self.bad.push(format!("{ch:?} does not fit")); return }
        let (l, c) = self.cur;
        for k in 0..w { self.kill(l, c + k); }
        self.grid[l * self.cols + c] = Slot::Ch(ch.to_string(), self.at);
        for k in 1..w { self.grid[l * self.cols + c + k] = Slot::Cont; }
        if c + w >= self.cols { self.cur.1 = self.cols - 1; self.pend = true; } else { self.cur.1 = c + w; }
    }
    pub fn feed(&mut self, bytes: &[u8]) {
        let mut data = std::mem::take(&mut self.buf);
        data.extend_from_slice(bytes);
        let mut i = 0;
        while i < data.len() {
            match self.step(&data[i..]) {
                Some(n) => i += n,
                None => { self.buf = data[i..].to_vec(); return }
            }
        }
    }
    /// bytes of an unfinished character or sequence
    pub fn pending(&self) -> usize { self.buf.len() }
    fn step(&mut self, d: &[u8]) -> Option<usize> {
        match d[0] {
            0x1b => self.esc(d),
            b'\r' => { self.cur.1 = 0; self.pend = false; Some(1) }
            b'\n' => { self.linefeed(); self.pend = false; Some(1) }
            0x08 => { self.pend = false; self.cur.1 = self.cur.1.saturating_sub(1); Some(1) }
            b'\t' => { self.cur.1 = ((self.cur.1 / 8 + 1) * 8).min(self.cols - 1); Some(1) }
            b if b < 0x20 || b == 0x7f => { self.bad.push(format!("control character {b:#x}")); Some(1) }
            b => {
                let n = if b < 0x80 { 1 } else if b >= 0xf0 { 4 } else if b >= 0xe0 { 3 } else { 2 };
                if d.len() < n { return None; }
                match std::str::from_utf8(&d[..n]) {
                    Ok(s) => { let c = s.chars().next().unwrap(); self.put(c); Some(n) }
                    Err(_) => { self.bad.push(format!("invalid utf-8 {:?}", &d[..n])); Some(1) }
                }
            }
        }
    }
    fn esc(&mut self, d: &[u8]) -> Option<usize> {
        if d.len() < 2 { return None; }
        match d[1] {
            b'[' => {
                let mut i = 2;
                let private = d.get(2) == Some(&b'?');
                if private { i += 1; }
                let start = i;
                while i < d.len() && (d[i].is_ascii_digit() || d[i] == b';') { i += 1; }
                if i >= d.len() { return None; }
                let txt = std::str::from_utf8(&d[start..i]).unwrap();
                let mut ps: Vec<u64> = vec![];
                if !txt.is_empty() {
                    for p in txt.split(';') {
                        match if p.is_empty() { Ok(0) } else { p.parse::<i32>().map(|v| v as u64) } {
                            Ok(v) => ps.push(v),
                            Err(_) => { self.bad.push(format!("parameter out of range {p}")); ps.push(0) }
                        }
                    }
                }
                self.csi(private, &ps, d[i]);
                Some(i + 1)
            }
            b'(' => { if d.len() < 3 { return None; } if d[2] != b'B' { self.bad.push("charset".into()) } Some(3) }
            b'=' => { self.appkeypad = true; Some(2) }
            b'>' => { self.appkeypad = false; Some(2) }
            b => { self.bad.push(format!("escape {:?}", b as char)); Some(2) }
        }
    }
    fn csi(&mut self, private: bool, ps: &[u64], f: u8) {
        let p = |i: usize| ps.get(i).copied().unwrap_or(0);
        let n = p(0).max(1).min(1 << 20) as usize;
        if private {
            for &m in ps {
                match f {
                    b'h' => { if self.exclusive && (m == 1002 || m == 1003) { self.modes.remove(&1002); self.modes.remove(&1003); } self.modes.insert(m as u32); if m == 1049 { self.grid.iter_mut().for_each(|s| *s = Slot::Garbage) } }
                    b'l' => { if self.exclusive && (m == 1002 || m == 1003) { self.modes.remove(&1002); self.modes.remove(&1003); } self.modes.remove(&(m as u32)); }
                    _ => self.bad.push(format!("private {}", f as char)),
                }
            }
            return;
        }
        match f {
            b'A' => { self.pend = false; self.cur.0 = self.cur.0.saturating_sub(n) }
            b'B' => { self.pend = false; self.cur.0 = (self.cur.0 + n).min(self.lines - 1) }
            b'C' => { self.pend = false; self.cur.1 = (self.cur.1 + n).min(self.cols - 1) }
            b'D' => { self.pend = false; self.cur.1 = self.cur.1.saturating_sub(n) }
            b'H' => {
                self.pend = false; self.known = true;
                self.cur = ((p(0).max(1) - 1).min(self.lines as u64 - 1) as usize, (p(1).max(1) - 1).min(self.cols as u64 - 1) as usize)
            }
            b'J' => {
                let i = self.cur.0 * self.cols + self.cur.1;
                let b = self.blank();
                match p(0) {
                    0 => { self.kill(self.cur.0, self.cur.1); for s in &mut self.grid[i..] { *s = b.clone() } }
                    2 => { self.saw_clear = true; for s in &mut self.grid { *s = b.clone() } }
                    k => self.bad.push(format!("erase {k}")),
                }
            }
            b'K' => {
                let (l, c) = self.cur;
                let b = self.blank();
                if p(0) != 0 { self.bad.push("erase line".into()) }
                self.kill(l, c);
                for s in &mut self.grid[l * self.cols + c..(l + 1) * self.cols] { *s = b.clone() }
            }
            b'r' => {
                self.pend = false;
                let a = p(0).max(1) as usize - 1;
                let z = (if p(1) == 0 { self.lines } else { p(1) as usize }).saturating_sub(1);
                if a >= z && self.lines > 1 || z >= self.lines { self.bad.push(format!("scroll region {a}..{z}")) }
                self.region = (a, z);
                self.cur = (0, 0);
            }
            b'm' => {
                let one = [0];
                for &v in if ps.is_empty() { &one[..] } else { ps } {
                    match v {
                        0 => self.at = At::default(),
                        1 => self.at.st |= BOLD,
                        3 => self.at.st |= ITALIC,
                        4 => self.at.st |= UNDERLINE,
                        7 => self.at.st |= REVERSE,
                        23 => self.at.st &= !ITALIC,
                        24 => self.at.st &= !UNDERLINE,
                        30..=37 => self.at.fg = Some((v - 30) as u8),
                        40..=47 => self.at.bg = Some((v - 40) as u8),
                        _ => self.bad.push(format!("attribute {v}")),
                    }
                }
            }
            _ => self.bad.push(format!("sequence ending in {:?}", f as char)),
        }
    }
}
