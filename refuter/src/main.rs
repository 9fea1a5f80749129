//! Looks for inputs on which the real library breaks a property.
mod dev; mod vt; mod fw; mod ops; mod refscreen;
mod p_screen; mod p_attrs; mod p_output; mod p_input; mod p_prepare; mod p_seq; mod p_misc; mod p_locks; mod p_assumed;
#[cfg(feature = "macros")] mod p_macros;
pub use fw::die;
use fw::*;
use std::sync::atomic::Ordering;

pub fn kinds(p: &str) -> Vec<Box<dyn Kind>> {
    let mut v = p_assumed::kinds(p);
    v.extend(code_kinds(p));
    v
}
fn code_kinds(p: &str) -> Vec<Box<dyn Kind>> {
    match p {
        "C06" => { let mut v = p_attrs::kinds(p); v.extend(p_screen::kinds(p)); v }
        "C01" | "C02" | "C03" | "C04" | "C05" => p_screen::kinds(p),
        "C07" | "C23" => p_attrs::kinds(p),
        "C08" => p_output::kinds(p),
        "C09" | "C10" | "C19" | "C20" | "C21" => p_input::kinds(p),
        "C11" | "C12" | "C13" => p_seq::kinds(p),
        "C14" | "C15" | "C16" | "C17" => p_misc::kinds(p),
        "C18" => p_prepare::kinds(p),
        #[cfg(feature = "macros")]
        "C22" => p_macros::kinds(p),
        "C24" => p_locks::kinds(p),
        _ => vec![],
    }
}

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }

fn fail_json(f: &Fail) -> String {
    format!("{{\"kind\":{},\"idx\":{},\"msg\":{},\"case\":{},\"shrunk\":{}}}", js(&f.kind), f.idx, js(&f.msg), js(&f.case), js(&f.shrunk))
}

extern "C" fn crashed(s: i32) {
    unsafe { libc::signal(s, libc::SIG_DFL); }
    dev::close();
    die(&format!("the process is ended by signal {s}"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = arg(&a, "--terminfo").unwrap_or_else(|| format!("{}/terminfo", env!("CARGO_MANIFEST_DIR")));
    std::env::set_var("TERMINFO", root);
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut p = PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if p.is_none() { *p = Some(format!("{m} ({l})")); }
    }));
    let seed: u64 = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] { libc::signal(s, crashed as *const () as usize); }
    }
    match a.get(1).map(|s| &s[..]) {
        Some("run") => {
            let p = &a[2];
            let out = arg(&a, "--out");
            *OUT.lock().unwrap() = out.clone();
            let (i, n) = arg(&a, "--shard").and_then(|s| { let (x, y) = s.split_once('/')?; Some((x.parse().ok()?, y.parse().ok()?)) }).unwrap_or((0u64, 1u64));
            let budget = arg(&a, "--budget").and_then(|s| s.parse().ok()).unwrap_or(60.0);
            let ks = kinds(p);
            watchdog();
            let r = explore(p, &ks, arg(&a, "--tier").as_deref() == Some("thorough"), seed, i, n, budget);
            CASE.store(u64::MAX, Ordering::SeqCst);
            let s = format!("{{\"fails\":[{}],\"evals\":{},\"distinct\":{},\"per\":[{}]}}\n",
                r.fails.iter().map(fail_json).collect::<Vec<_>>().join(","), r.evals, r.distinct,
                r.per.iter().map(|(k, d, n, e)| format!("[{},{},{},{}]", js(k), d, n, e)).collect::<Vec<_>>().join(","));
            match out { Some(f) => std::fs::write(f, s).unwrap(), None => print!("{s}") }
        }
        Some("replay") => {
            let p = &a[2];
            let idx: u64 = a[4].parse().unwrap();
            for k in kinds(p) {
                if k.name() == a[3] {
                    *KIND.lock().unwrap() = (p.clone(), a[3].clone());
                    CASE.store(idx, Ordering::SeqCst);
                    watchdog();
                    let (_, f) = k.run(seed, idx, a.iter().any(|x| x == "--shrink"));
                    CASE.store(u64::MAX, Ordering::SeqCst);
                    match f {
                        Some(f) => { println!("{}", fail_json(&f)); std::process::exit(1) }
                        None => { println!("holds on this case"); std::process::exit(0) }
                    }
                }
            }
            println!("no such case"); std::process::exit(2)
        }
        Some("known") => {
            // the recorded findings that still show on this tree
            for (id, f) in p_screen::known(&a[2]) {
                *KIND.lock().unwrap() = (a[2].clone(), id.to_string());
                CASE.store(0, Ordering::SeqCst);
                let r = std::panic::catch_unwind(f);
                dev::close();
                if r.is_err() { eprintln!("{id}: {:?}", PANIC.lock().unwrap_or_else(|e| e.into_inner())) }
                if let Ok(Err(m)) = r { println!("{{\"id\":{},\"msg\":{}}}", js(id), js(&m)) }
            }
        }
        Some("sample") => {
            for k in kinds(&a[2]) {
                let mut t = k.show(seed, k.count(false) / 2);
                if t.chars().count() > 600 { t = t.chars().take(600).collect::<String>() + " ..." }
                println!("[{},{},{},{},{}]", js(k.name()), k.count(false), k.count(true), k.exhaustive(), js(&t));
            }
        }
        _ => { eprintln!("run|replay|sample"); std::process::exit(2) }
    }
}
