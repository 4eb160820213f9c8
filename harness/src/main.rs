//! Runs the monitors of one property over many cases and reports what they observed.
//!
//! harness run PROP --seed N --cases N [--from N] [--threads N] [--time SEC] [--out FILE] [--tiny]
//! harness run PROP --seed N --case N            one case, in the main thread
//!
//! Exit codes: 0 held, 1 violated, 2 inconclusive, 3 a case does not end, 70 a case crashed.

mod ctx;
mod g_bb;
mod g_cmp;
mod g_edge;
mod g_legal;
mod g_local;
mod g_pos;
mod g_soak;
#[cfg(all(not(miri), target_arch = "x86_64"))]
mod g_step;
mod g_storm;
mod g_text;
mod g_thr;
mod g_val;
mod gen;
#[cfg(not(miri))]
mod guard;
mod model;
mod obs;
mod rng;

use ctx::{json_str, Ctx, Fail, R};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Group = fn(&mut Ctx, u64) -> R;

fn group(name: &str) -> Option<Group> {
    Some(match name {
        "C01" => g_pos::c01,
        "C02" => g_pos::c02,
        "C03" => g_pos::c03,
        "C04" => g_pos::c04,
        "C05" => g_pos::c05,
        "C06" => g_text::c06,
        "C07" => g_text::c07,
        "C08" => g_text::c08,
        "C09" => g_text::c09,
        "C10" => g_bb::c10,
        "C11" => g_bb::c11,
        "C12" => g_bb::c12,
        "C13" => g_val::c13,
        "C14" => g_val::c14,
        "C15" => g_val::c15,
        "C16" => g_cmp::c16,
        "C17" => g_legal::c17,
        "C18" => g_val::c18,
        "C01local" => g_local::c01,
        "C02local" => g_local::c02,
        "C03local" => g_local::c03,
        "C04local" => g_local::c04,
        "C06local" => g_local::c06,
        "C10local" => g_local::c10,
        "C11local" => g_local::c11,
        "C12local" => g_local::c12,
        "C13local" => g_local::c13,
        "C16local" => g_local::c16,
        "C22" => g_storm::c22,
        "C22edge" => g_edge::edge,
        "C24" => g_thr::c24,
        "C24first" => g_soak::first,
        "C24soak" => g_soak::soak,
        #[cfg(all(not(miri), target_arch = "x86_64"))]
        "C24step" => g_step::step,
        _ => return None,
    })
}

thread_local! {
    static CASE: Cell<u64> = const { Cell::new(0) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

#[cfg(not(miri))]
mod signals {
    use std::ffi::c_void;
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, act: *const Action, old: *mut c_void) -> i32;
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(code: i32) -> !;
    }
    extern "C" fn on(sig: i32) {
        let mut b = [0u8; 64];
        let mut n = 0;
        let mut put = |s: &[u8]| {
            for &c in s {
                if n < b.len() {
                    b[n] = c;
                    n += 1;
                }
            }
        };
        put(b"\nCRASH signal ");
        num(&mut put, sig as u64);
        put(b" case ");
        num(&mut put, super::CASE.with(|c| c.get()));
        put(b"\n");
        unsafe {
            write(2, b.as_ptr(), n);
            _exit(70)
        }
    }
    fn num(put: &mut impl FnMut(&[u8]), mut v: u64) {
        let mut d = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            d[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        put(&d[i..]);
    }
    pub fn install() {
        // Sanitizers bring handlers of their own.
        if std::env::var_os("HARNESS_NO_SIGNALS").is_some() {
            return;
        }
        for s in [4, 6, 7, 8, 11] {
            let a = Action { handler: on as *const () as usize, mask: [0; 16], flags: 0x0800_0000 | 0x4000_0000, restorer: 0 };
            unsafe {
                sigaction(s, &a, std::ptr::null_mut());
            }
        }
    }
}

struct Args {
    prop: String,
    seed: u64,
    cases: u64,
    from: u64,
    case: Option<u64>,
    threads: usize,
    time: f64,
    hang: u64,
    out: Option<String>,
    tiny: bool,
}

fn args() -> Result<Args, String> {
    let mut it = std::env::args().skip(1);
    if it.next().as_deref() != Some("run") {
        return Err("usage: harness run PROP [options]".into());
    }
    let mut a = Args { prop: it.next().ok_or("which property?")?, seed: 1, cases: 100, from: 0, case: None, threads: 1, time: 1e9, hang: 120, out: None, tiny: false };
    while let Some(k) = it.next() {
        if k == "--tiny" {
            a.tiny = true;
            continue;
        }
        let v = it.next().ok_or(format!("{k} needs a value"))?;
        let num = || v.parse::<u64>().map_err(|_| format!("{k}: not a number: {v}"));
        match k.as_str() {
            "--seed" => a.seed = num()?,
            "--cases" => a.cases = num()?,
            "--from" => a.from = num()?,
            "--case" => a.case = Some(num()?),
            "--threads" => a.threads = num()? as usize,
            "--time" => a.time = v.parse().map_err(|_| "--time".to_string())?,
            "--hang" => a.hang = num()?,
            "--out" => a.out = Some(v),
            _ => return Err(format!("unknown option {k}")),
        }
    }
    Ok(a)
}

enum Verdict {
    Held,
    Violated(Fail),
    Inconclusive(String),
}

fn one(g: Group, cx: &mut Ctx, case: u64) -> Verdict {
    CASE.with(|c| c.set(case));
    cx.start(case);
    match catch_unwind(AssertUnwindSafe(|| g(cx, case))) {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(f)) => Verdict::Violated(f),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if m.contains("HARNESS:") {
                Verdict::Inconclusive(m)
            } else {
                Verdict::Violated(ctx::fail("panic", m))
            }
        }
    }
}

fn main() {
    let a = match args() {
        Ok(a) => a,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2)
        }
    };
    let Some(g) = group(&a.prop) else {
        eprintln!("no monitors for {}", a.prop);
        std::process::exit(2)
    };
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // A panic that must not unwind ends the process: say where we were.
        eprintln!("PANIC case {}: {msg} ({at})", CASE.with(|c| c.get()));
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked: {msg} ({at})")));
    }));
    #[cfg(not(miri))]
    signals::install();

    let mut total = Ctx::new(&a.prop, a.seed, a.tiny);
    let mut fails: Vec<(u64, Fail)> = Vec::new();
    let mut unsure: Vec<(u64, String)> = Vec::new();
    let ran;
    if let Some(c) = a.case {
        ran = 1;
        match one(g, &mut total, c) {
            Verdict::Held => {}
            Verdict::Violated(f) => fails.push((c, f)),
            Verdict::Inconclusive(m) => unsure.push((c, m)),
        }
    } else if a.threads <= 1 {
        let t0 = Instant::now();
        let mut n = 0;
        for c in a.from..a.from + a.cases {
            if t0.elapsed().as_secs_f64() > a.time || fails.len() >= 5 {
                break;
            }
            n += 1;
            match one(g, &mut total, c) {
                Verdict::Held => {}
                Verdict::Violated(f) => fails.push((c, f)),
                Verdict::Inconclusive(m) => unsure.push((c, m)),
            }
        }
        ran = n;
    } else {
        let next = AtomicU64::new(a.from);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let out: Mutex<(&mut Ctx, &mut Vec<(u64, Fail)>, &mut Vec<(u64, String)>)> = Mutex::new((&mut total, &mut fails, &mut unsure));
        // (case + 1, start in milliseconds) of every worker.
        let now: Vec<(AtomicU64, AtomicU64)> = (0..a.threads).map(|_| Default::default()).collect();
        let live = AtomicU64::new(a.threads as u64);
        let t0 = Instant::now();
        std::thread::scope(|s| {
            for w in 0..a.threads {
                let (next, done, stop, out, now, live, a) = (&next, &done, &stop, &out, &now, &live, &a);
                s.spawn(move || {
                    let mut cx = Ctx::new(&a.prop, a.seed, a.tiny);
                    while !stop.load(Ordering::Relaxed) && t0.elapsed().as_secs_f64() < a.time {
                        let c = next.fetch_add(1, Ordering::Relaxed);
                        if c >= a.from + a.cases {
                            break;
                        }
                        now[w].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                        now[w].0.store(c + 1, Ordering::SeqCst);
                        match one(g, &mut cx, c) {
                            Verdict::Held => {}
                            Verdict::Violated(f) => {
                                let mut o = out.lock().unwrap();
                                o.1.push((c, f));
                                if o.1.len() >= 5 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Verdict::Inconclusive(m) => {
                                out.lock().unwrap().2.push((c, m));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        now[w].0.store(0, Ordering::SeqCst);
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    out.lock().unwrap().0.merge(cx);
                    live.fetch_sub(1, Ordering::SeqCst);
                });
            }
            // The watchdog.
            while live.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for n in &now {
                    let c = n.0.load(Ordering::SeqCst);
                    if c != 0 && t0.elapsed().as_millis() as u64 > n.1.load(Ordering::Relaxed) + a.hang * 1000 && n.0.load(Ordering::SeqCst) == c {
                        eprintln!("HANG case {}", c - 1);
                        std::process::exit(3);
                    }
                }
            }
        });
        ran = done.into_inner();
    }

    fails.sort_by_key(|f| f.0);
    let mut j = String::from("{");
    j += &format!("\"property\":{},\"seed\":{},\"ran\":{},\"evals\":{},\"distinct\":{},", json_str(&a.prop), a.seed, ran, total.evals, total.distinct.len());
    j += &format!("\"counters\":{{{}}},", total.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
    j += &format!("\"samples\":[{}],", total.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    j += &format!("\"violations\":[{}],", fails.iter().map(|(c, f)| format!("{{\"case\":{},\"sig\":{},\"msg\":{}}}", c, json_str(&f.sig), json_str(&f.msg))).collect::<Vec<_>>().join(","));
    j += &format!("\"inconclusive\":[{}]}}", unsure.iter().map(|(c, m)| json_str(&format!("case {c}: {m}"))).collect::<Vec<_>>().join(","));
    match &a.out {
        Some(p) => {
            if let Err(e) = std::fs::write(p, &j) {
                eprintln!("cannot write {p}: {e}");
                std::process::exit(2)
            }
        }
        None => println!("{j}"),
    }
    std::process::exit(if !fails.is_empty() {
        1
    } else if !unsure.is_empty() {
        2
    } else {
        0
    })
}
