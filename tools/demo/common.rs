#![allow(dead_code)]
use crate::dev;
use crate::vt::{Slot, Vt};
use mortal::{PrepareConfig, Screen, Terminal};
use std::mem::ManuallyDrop;

pub fn open(lines: usize, cols: usize) -> (ManuallyDrop<Screen>, Vt) {
    dev::open("xterm-vrf", lines as u16, cols as u16);
    let s = Screen::with_terminal(Terminal::new().expect("open"), PrepareConfig::default()).expect("screen");
    (ManuallyDrop::new(s), Vt::new(lines, cols))
}
pub fn sync(vt: &mut Vt) { let o = dev::take_out(); vt.feed(&o) }
/// the rows of the terminal, `_` for the second half of a wide character, `?` for garbage
pub fn rows(vt: &Vt) -> Vec<String> {
    (0..vt.lines).map(|l| (0..vt.cols).map(|c| match &vt.grid[l * vt.cols + c] { Slot::Ch(t, _) => t.clone(), Slot::Cont => "_".into(), Slot::Garbage => "?".into() }).collect()).collect()
}
pub fn expect(what: &str, got: Vec<String>, want: &[&str]) {
    if got != want { finish(&format!("{what}: shows {got:?}, expected {want:?}")) }
}
pub fn finish(msg: &str) -> ! {
    dev::close();
    if msg.is_empty() { println!("ok"); std::process::exit(0) }
    println!("WRONG: {msg}");
    std::process::exit(1)
}
