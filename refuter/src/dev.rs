//! A scripted terminal device. The library's system calls (read, write, select,
//! tcgetattr, tcsetattr, sigaction, ioctl) are interposed and served from here
//! while a case runs; otherwise they go through.
use libc::{c_int, c_ulong, c_void, fd_set, size_t, ssize_t, termios, timeval};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, MutexGuard};

#[derive(Clone, Debug, PartialEq)]
pub enum W { Short(usize), Fail(i32), Zero, Intr, SigIntr(i32) }
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    /// bytes available; given out up to the caller's buffer size
    Data(Vec<u8>),
    /// a signal interrupts the call
    Sig(i32),
    /// a signal is caught, the call goes on
    SigQuiet(i32),
    /// the call is interrupted and nothing was caught
    Intr,
    Timeout,
    Fail(i32),
    Eof,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Log { Read(Vec<u8>), ReadErr, Select(Option<(i64, i64)>), Write(usize), WriteErr, SetAttr, SigSet(i32) , Sig(i32), Unexpected(String) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Act { pub handler: usize, pub flags: c_int, pub mask: u64 }

pub struct Dev {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub w: VecDeque<W>,
    pub r: VecDeque<R>,
    pub log: Vec<Log>,
    pub tio: termios,
    pub sigs: BTreeMap<i32, Act>,
    pub size: (u16, u16),
    pub fail_tcget: bool,
    pub fail_tcset: bool,
    pub fail_sigaction: Option<i32>,
    pub calls: usize,
    pub maxread: usize,
}

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static DEV: Mutex<Option<Dev>> = Mutex::new(None);

pub fn dev() -> DevRef { DevRef(DEV.lock().unwrap_or_else(|e| e.into_inner())) }
pub struct DevRef(MutexGuard<'static, Option<Dev>>);
impl std::ops::Deref for DevRef { type Target = Dev; fn deref(&self) -> &Dev { self.0.as_ref().unwrap() } }
impl std::ops::DerefMut for DevRef { fn deref_mut(&mut self) -> &mut Dev { self.0.as_mut().unwrap() } }

pub fn base_tio() -> termios {
    let mut t: termios = unsafe { std::mem::zeroed() };
    t.c_iflag = libc::ICRNL | libc::IXON | libc::BRKINT;
    t.c_oflag = libc::OPOST | libc::ONLCR;
    t.c_cflag = libc::CS8 | libc::CREAD;
    t.c_lflag = libc::ISIG | libc::ICANON | libc::ECHO | libc::ECHOE | libc::IEXTEN;
    t.c_cc[libc::VMIN] = 1;
    t.c_cc[libc::VINTR] = 3;
    t.c_cc[libc::VQUIT] = 28;
    t
}

/// Starts a fresh device
pub fn open(term: &str, lines: u16, cols: u16) {
    std::env::set_var("TERM", term);
    *DEV.lock().unwrap_or_else(|e| e.into_inner()) = Some(Dev {
        out: vec![], err: vec![], w: VecDeque::new(), r: VecDeque::new(), log: vec![],
        tio: base_tio(), sigs: BTreeMap::new(), size: (lines, cols),
        fail_tcget: false, fail_tcset: false, fail_sigaction: None, calls: 0, maxread: usize::MAX,
    });
    ACTIVE.store(true, Ordering::SeqCst);
}
/// Back to the real system calls
pub fn close() { ACTIVE.store(false, Ordering::SeqCst); }
pub fn active() -> bool { ACTIVE.load(Ordering::SeqCst) }

/// Takes what was written since the last call
pub fn take_out() -> Vec<u8> { std::mem::take(&mut dev().out) }

/// Delivers a signal the way the kernel would, if it is caught
pub fn raise(sig: i32) -> bool {
    let h = { let d = dev(); d.sigs.get(&sig).map(|a| a.handler).unwrap_or(libc::SIG_DFL) };
    if h == libc::SIG_DFL || h == libc::SIG_IGN || h < 4096 { return false; }
    dev().log.push(Log::Sig(sig));
    let f: extern "C" fn(c_int) = unsafe { std::mem::transmute(h) };
    f(sig);
    true
}

fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e } }

fn budget() {
    let n = { let mut d = dev(); d.calls += 1; d.calls };
    if n > 200_000 { crate::die("the library makes system calls without end"); }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !active() || fd > 2 { return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t; }
    budget();
    let data = std::slice::from_raw_parts(buf as *const u8, n);
    let mut d = dev();
    if fd == 2 { d.err.extend_from_slice(data); return n as ssize_t; }
    match d.w.pop_front() {
        None => { d.out.extend_from_slice(data); d.log.push(Log::Write(n)); n as ssize_t }
        Some(W::Short(k)) => {
            let k = k.min(n);
            d.out.extend_from_slice(&data[..k]);
            d.log.push(Log::Write(k));
            k as ssize_t
        }
        Some(W::Zero) => { d.log.push(Log::WriteErr); 0 }
        Some(W::Intr) => { set_errno(libc::EINTR); -1 }
        Some(W::SigIntr(s)) => { drop(d); raise(s); set_errno(libc::EINTR); -1 }
        Some(W::Fail(e)) => { d.log.push(Log::WriteErr); set_errno(e); -1 }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !active() || fd > 2 { return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t; }
    budget();
    loop {
        let mut d = dev();
        let front = d.r.pop_front();
        match front {
            Some(R::Data(mut b)) => {
                let max = d.maxread;
                let k = b.len().min(n).min(max);
                std::ptr::copy_nonoverlapping(b.as_ptr(), buf as *mut u8, k);
                let given: Vec<u8> = b.drain(..k).collect();
                if !b.is_empty() { d.r.push_front(R::Data(b)); }
                d.log.push(Log::Read(given));
                return k as ssize_t;
            }
            Some(R::Sig(s)) => { drop(d); if raise(s) { set_errno(libc::EINTR); return -1; } }
            Some(R::SigQuiet(s)) => { drop(d); raise(s); }
            Some(R::Intr) => { set_errno(libc::EINTR); return -1; }
            Some(R::Timeout) => { d.log.push(Log::Read(vec![])); return 0; }
            Some(R::Fail(e)) => { d.log.push(Log::ReadErr); set_errno(e); return -1; }
            Some(R::Eof) | None => { d.log.push(Log::Read(vec![])); return 0; }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn select(nfds: c_int, r: *mut fd_set, w: *mut fd_set, e: *mut fd_set, tv: *mut timeval) -> c_int {
    if !active() {
        return libc::syscall(libc::SYS_select, nfds, r, w, e, tv) as c_int;
    }
    budget();
    {
        let mut d = dev();
        let t = if tv.is_null() { None } else { Some(((*tv).tv_sec as i64, (*tv).tv_usec as i64)) };
        d.log.push(Log::Select(t));
        if nfds < 1 || r.is_null() || !libc::FD_ISSET(0, r) { d.log.push(Log::Unexpected("select does not watch the input".into())); }
        if let Some((s, u)) = t {
            if s < 0 || u < 0 || u >= 1_000_000 { set_errno(libc::EINVAL); return -1; }
        }
    }
    loop {
        let mut d = dev();
        let front = d.r.front().cloned();
        match front {
            Some(R::Data(_)) | Some(R::Eof) => { if !e.is_null() { libc::FD_ZERO(e); } return 1; }
            Some(R::Sig(s)) => { d.r.pop_front(); drop(d); if raise(s) { set_errno(libc::EINTR); return -1; } }
            Some(R::SigQuiet(s)) => { d.r.pop_front(); drop(d); raise(s); }
            Some(R::Intr) => { d.r.pop_front(); set_errno(libc::EINTR); return -1; }
            Some(R::Fail(er)) => { d.r.pop_front(); set_errno(er); return -1; }
            Some(R::Timeout) | None => {
                if front.is_some() { d.r.pop_front(); }
                if tv.is_null() {
                    // nothing will ever arrive; a caller that waits here waits for ever
                    d.log.push(Log::Unexpected("waits for ever".into()));
                    set_errno(libc::EBADF);
                    return -1;
                }
                if !r.is_null() { libc::FD_ZERO(r); }
                if !e.is_null() { libc::FD_ZERO(e); }
                return 0;
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, t: *mut termios) -> c_int {
    if !active() { return libc::syscall(libc::SYS_ioctl, fd, libc::TCGETS, t) as c_int; }
    let d = dev();
    if d.fail_tcget { set_errno(libc::ENOTTY); return -1; }
    *t = d.tio;
    0
}

#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, _act: c_int, t: *const termios) -> c_int {
    if !active() { return libc::syscall(libc::SYS_ioctl, fd, libc::TCSETS, t) as c_int; }
    let mut d = dev();
    if d.fail_tcset { set_errno(libc::EIO); return -1; }
    d.tio = *t;
    d.log.push(Log::SetAttr);
    0
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
    if !active() || req != libc::TIOCGWINSZ { return libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int; }
    let d = dev();
    let ws = arg as *mut libc::winsize;
    (*ws).ws_row = d.size.0;
    (*ws).ws_col = d.size.1;
    0
}

#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, new: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    if !active() {
        type F = unsafe extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int;
        let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"sigaction\0".as_ptr() as *const libc::c_char));
        return f(sig, new, old);
    }
    let mut d = dev();
    if d.fail_sigaction == Some(sig) { set_errno(libc::EINVAL); return -1; }
    let cur = d.sigs.get(&sig).copied().unwrap_or(Act { handler: 0, flags: 0, mask: 0 });
    if !old.is_null() {
        *old = std::mem::zeroed();
        (*old).sa_sigaction = cur.handler;
        (*old).sa_flags = cur.flags;
        std::ptr::copy_nonoverlapping(&cur.mask as *const u64 as *const u8, &mut (*old).sa_mask as *mut _ as *mut u8, 8);
    }
    if !new.is_null() {
        let mut mask = 0u64;
        std::ptr::copy_nonoverlapping(&(*new).sa_mask as *const _ as *const u8, &mut mask as *mut u64 as *mut u8, 8);
        d.sigs.insert(sig, Act { handler: (*new).sa_sigaction, flags: (*new).sa_flags, mask });
        d.log.push(Log::SigSet(sig));
    }
    0
}
