//! Conformance harness: executes sessions (a file plus a list of queries) on the
//! real library and logs what it answered, one JSON line per case.
//!
//! usage: lorverif CASES.ndjson OUT.ndjson [--timeout SECS] [--skip N]
mod capi;
mod enc;
mod ops;

use serde_json::{json, Value as J};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};
use std::io::{BufRead, Write};
use std::sync::mpsc;
use std::time::Duration;

/// Counts what is allocated.
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
/// Fill the memory when it is allocated and when it is freed.
static FILL: AtomicBool = AtomicBool::new(false);
unsafe fn fill(p: *mut u8, n: usize, v: u8) -> *mut u8 {
    if !p.is_null() && FILL.load(Relaxed) {
        std::ptr::write_bytes(p, v, n);
    }
    p
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        PEAK.fetch_max(n, Relaxed);
        fill(System.alloc(l), l.size(), 0xA5)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        PEAK.fetch_max(n, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        fill(p, l.size(), 0xDD);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if FILL.load(Relaxed) {
            let q = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, size.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        let d = size as i64 - l.size() as i64;
        let n = LIVE.fetch_add(d, Relaxed) + d;
        PEAK.fetch_max(n, Relaxed);
        System.realloc(p, l, size)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// Formats the messages, for nobody.
struct Mute;
impl log::Log for Mute {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}

fn run_case(case: &J) -> J {
    let mut out = json!({ "id": case["id"] });
    log::set_max_level(if case["log"] == true { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    run_case_(case, &mut out);
    out["peak"] = json!(((PEAK.load(Relaxed) - base) / 1024) as i32);
    out
}

fn run_case_(case: &J, out: &mut J) {
    if case.get("direct").is_some() {
        out["obs"] = J::Array(
            case["direct"].as_array().unwrap().iter().map(ops::run_direct).collect(),
        );
    } else if case.get("hist").is_some() {
        out["obs"] = ops::run_hist(case);
    } else if case.get("capi").is_some() {
        out["obs"] = capi::run_capi(case);
    } else {
        let (open, obs) = ops::run_session(case);
        out["open"] = open;
        out["obs"] = obs;
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("HARNESS_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    log::set_logger(&Mute).unwrap();
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("cases"));
    let mut out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .expect("out");
    let mut timeout = 20u64;
    let mut skip = 0usize;
    let mut i = 3;
    while i < args.len() {
        match args[i].as_str() {
            "--timeout" => timeout = args[i + 1].parse().unwrap(),
            "--skip" => skip = args[i + 1].parse().unwrap(),
            _ => panic!("bad arg"),
        }
        i += 2;
    }
    for (n, line) in input.lines().enumerate() {
        if n < skip {
            continue;
        }
        let line = line.unwrap();
        let (tx, rx) = mpsc::channel();
        let l2 = line.clone();
        let thread = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let case: J = serde_json::from_str(&l2).expect("case json");
                let r = run_case(&case);
                let _ = tx.send(serde_json::to_string(&r).unwrap());
            })
            .unwrap();
        match rx.recv_timeout(Duration::from_secs(timeout)) {
            Ok(s) => {
                // nothing of this case is left when the next one starts
                let _ = thread.join();
                writeln!(out, "{s}").unwrap()
            }
            Err(e) => {
                // hang, or the thread died outside an operation
                let what = match e {
                    mpsc::RecvTimeoutError::Timeout => "hang",
                    _ => "died",
                };
                let case: J = serde_json::from_str(&line).unwrap();
                writeln!(out, "{}", json!({"id": case["id"], "fatal": what})).unwrap();
                out.flush().unwrap();
                // a hung thread would keep burning: let the driver restart after this case
                std::process::exit(75);
            }
        }
    }
}
