//! monitor run <ID> --seed S --count N --secs T --tier quick|thorough --out DIR [--skip-streams ..]
//! monitor case <ID> <seed> <stream> <index> <tier>
//! monitor effects <seed> <count> <out dir> [close|settings]
//! monitor eval '<program>'

mod alloc;
mod big;
mod exec;
mod expr;
mod gen;
mod long;
mod model;
mod props;
mod rng;
mod shadow;
mod stress;
mod trace;

use exec::*;
use props::Cx;
use rng::Rng;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Independent streams of cases; fixed, so that a case is named by (seed, stream, index).
const STREAMS: u64 = 8;
/// Cases per recorded outcome.
const BLOCK: u64 = 64;

fn one(id: &str, seed: u64, stream: u64, index: u64, thorough: bool, st: &mut Stats) -> Verdict {
    let salt = id.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let r = Rng::new(seed ^ salt.wrapping_mul(0x2545_F491_4F6C_DD1D), stream + STREAMS * index);
    st.signature = 0;
    let mut cx = Cx { r, st, g: index * STREAMS + stream, thorough };
    let v = catch_unwind(AssertUnwindSafe(|| match id {
        "C01" => props::c01(&mut cx),
        "C02" => props::c02(&mut cx),
        "C03" => props::c03(&mut cx),
        "C04" => props::c04(&mut cx),
        "C05" => props::c05(&mut cx),
        "C06" => props::c06(&mut cx),
        "C07" => props::c07(&mut cx),
        "C08" => props::c08(&mut cx),
        "C09" => props::c09(&mut cx),
        "C10" => props::c10(&mut cx),
        "C11" => props::c11(&mut cx),
        "C12" => trace::c12(&mut cx),
        "C13" => trace::c13(&mut cx),
        "C14" => props::c14(&mut cx),
        "C16" => props::c16(&mut cx),
        "C17" => props::c17(&mut cx),
        "C18" => stress::c18(&mut cx),
        "C19" => stress::c19(&mut cx),
        "C20" => props::c20(&mut cx),
        "C21" => props::c21(&mut cx),
        _ => {
            eprintln!("unknown or unavailable property {}", id);
            std::process::exit(3);
        }
    }));
    match v {
        Ok(v) => v,
        Err(p) => {
            if p.is::<big::OracleCap>() {
                Verdict::Skip("reference ran out of digits")
            } else if p.is::<Stop>() {
                Verdict::Skip("unproductive operand")
            } else if last_message().starts_with("attempt to ") && last_message().contains(" @src/") {
                // numbers too large for the arithmetic of the monitor
                Verdict::Skip("reference ran out of range")
            } else {
                // an error of the monitor itself
                let m = last_message();
                if let Some(w) = p.downcast_ref::<String>() {
                    eprintln!("{}", w);
                }
                eprintln!("monitor error in {} seed {} stream {} index {}: {}", id, seed, stream, index, m);
                resume_unwind(p)
            }
        }
    }
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.into())
}

fn main() {
    install_hook();
    speak_up(true);
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("effects") => effects(&a),
        Some("case") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let (id, seed, stream, index, thorough) = (a[1].clone(), n(2), n(3), n(4), a.get(5).map_or(false, |t| t == "thorough"));
            // same stack as in a run
            let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
                let mut st = Stats::default();
                let v = one(&id, seed, stream, index, thorough, &mut st);
                println!("case: {}", st.sample);
                println!("{:?}", v);
                if let Verdict::Fail(_) = v {
                    1
                } else {
                    0
                }
            });
            std::process::exit(h.unwrap().join().unwrap_or(4));
        }
        Some("eval") => {
            let mut st = Stats::default();
            for e in expr::Expr::parse_many(&a[1]).expect("program") {
                println!("{}: {}", e.show(), match judge(&e, &mut st) {
                    Ok(Seen::Complete(n)) => format!("exact, {} symbols", n),
                    Ok(Seen::DivZero) => "zero denominator, reported".into(),
                    Ok(Seen::Range) => format!("range exhausted: {}", last_message()),
                    Err(m) => format!("VIOLATED {}", m),
                });
            }
        }
        _ => {
            eprintln!("usage: monitor run|case|eval ...");
            std::process::exit(3);
        }
    }
}

const STACK: usize = 256 << 20;
const THREADS: usize = 4;

extern "C" {
    fn close(fd: i32) -> i32;
    static environ: *const *const std::os::raw::c_char;
}

/// While set, every environment variable seems to be there, with the value 1.
static SETTINGS: AtomicBool = AtomicBool::new(false);
static LOOKUPS: AtomicU64 = AtomicU64::new(0);

/// Takes the place of the C library's function of that name.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const std::os::raw::c_char) -> *const std::os::raw::c_char {
    if SETTINGS.load(Ordering::Relaxed) {
        LOOKUPS.fetch_add(1, Ordering::Relaxed);
        return b"1\0".as_ptr() as *const _;
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let (mut a, mut b) = (name, *p);
        while *a != 0 && *a == *b {
            a = a.add(1);
            b = b.add(1);
        }
        if *a == 0 && *b == b'=' as std::os::raw::c_char {
            return b.add(1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

/// Calls its function when dropped.
struct AtDrop<F: FnMut()>(F);

impl<F: FnMut()> Drop for AtDrop<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}

/// Runs the same cases in several threads: the first one, one that has its name, another named
/// one, unnamed ones, one that is unwinding. Between the two marks this program does nothing
/// but run them, so whatever the process does there is done by the code under test.
/// What operations could change in the process without asking the system: the environment and who is told of panics.
fn surroundings() -> Vec<String> {
    let mut v: Vec<String> = std::env::vars_os().map(|(k, v)| format!("{:?}={:?}", k, v)).collect();
    v.sort();
    speak_up(false);
    let _ = catch_unwind(|| panic!("probe of the panic hook"));
    speak_up(true);
    let m = last_message();
    v.push(format!("panic hook: {}", m.split(" @").next().unwrap_or("")));
    v
}

fn effects(a: &[String]) {
    let (seed, count): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let out = a[3].clone();
    let cases = move || {
        let mut digest = 0u64;
        for i in 0..count {
            let mut r = Rng::new(seed ^ 0xEFFE_C750, i);
            digest = digest.rotate_left(5).wrapping_mul(31) ^ props::observe(&mut r);
        }
        digest
    };
    let gate = Arc::new(std::sync::Barrier::new(THREADS + 1));
    let handles: Vec<_> = (0..THREADS)
        .map(|i| {
            let gate = gate.clone();
            let b = std::thread::Builder::new().stack_size(STACK);
            let b = match i {
                0 => b.name("main".into()),
                1 => b.name("worker".into()),
                _ => b,
            };
            b.spawn(move || {
                gate.wait();
                gate.wait();
                let mut digest = 0;
                if i == 2 {
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        let _late = AtDrop(|| digest = cases());
                        resume_unwind(Box::new(0));
                    }));
                } else {
                    digest = cases();
                }
                gate.wait();
                digest
            })
            .unwrap()
        })
        .collect();
    if a.get(4).map_or(false, |c| c == "close") {
        for fd in 0..3 {
            unsafe { close(fd) };
        }
    }
    let before = surroundings();
    // the standard library's own first-time probing happens before the mark
    let _ = std::fs::metadata(format!("{}/warm-up", out));
    gate.wait();
    let _ = std::fs::metadata(format!("{}/mark-begin", out));
    SETTINGS.store(a.get(4).map_or(false, |c| c == "settings"), Ordering::SeqCst);
    gate.wait();
    speak_up(false);
    let own = cases();
    speak_up(true);
    gate.wait();
    SETTINGS.store(false, Ordering::SeqCst);
    let _ = std::fs::metadata(format!("{}/mark-end", out));
    // the probe must not find the message of the one before
    speak_up(false);
    let _ = catch_unwind(|| panic!("between"));
    let after = surroundings();
    if after != before {
        let differs = |a: &[String], b: &[String]| a.iter().filter(|x| !b.contains(x)).cloned().collect::<Vec<_>>().join(", ");
        std::fs::write(format!("{}/changed", out), format!("before: {}; after: {}", differs(&before, &after), differs(&after, &before))).unwrap();
    }
    let mut d = vec![own.to_string()];
    d.extend(handles.into_iter().map(|h| h.join().unwrap_or(0).to_string()));
    std::fs::write(format!("{}/digest", out), d.join(" ")).unwrap();
    std::fs::write(format!("{}/lookups", out), LOOKUPS.load(Ordering::SeqCst).to_string()).unwrap();
    std::process::exit(0);
}

fn run(a: &[String]) {
    let id = a[1].clone();
    let seed: u64 = arg(a, "--seed", "1").parse().unwrap();
    let count: u64 = arg(a, "--count", "1000").parse().unwrap();
    let secs: u64 = arg(a, "--secs", "20").parse().unwrap();
    let patience: u64 = arg(a, "--patience", "20").parse().unwrap();
    let out = arg(a, "--out", "/tmp");
    let thorough = arg(a, "--tier", "quick") == "thorough";
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Stats::default()));
    let fails = Arc::new(Mutex::new(Vec::<(u64, u64, String)>::new()));
    let progress: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..STREAMS).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect());
    let file = std::fs::File::create(format!("{}/progress", out)).unwrap();
    let file = Arc::new(file);
    let mut handles = vec![];
    for stream in 0..STREAMS {
        let outdir = out.clone();
        let (id, stop, total, fails, progress, file) = (id.clone(), stop.clone(), total.clone(), fails.clone(), progress.clone(), file.clone());
        let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
            use std::os::unix::fs::FileExt;
            let mut st = Stats::default();
            let mut index = 0u64;
            // what this build did, for comparison with other builds
            let mut outcomes = if id == "C21" { Some(Vec::new()) } else { None };
            while !stop.load(Ordering::Relaxed) && index * STREAMS < count && start.elapsed() < Duration::from_secs(secs) {
                progress[stream as usize].0.store(index, Ordering::Relaxed);
                progress[stream as usize].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                // survives a crash of this process
                let _ = file.write_at(&index.to_le_bytes(), stream * 8);
                st.sample.clear();
                let v = one(&id, seed, stream, index, thorough, &mut st);
                st.evaluations += 1;
                match v {
                    Verdict::Pass(nontrivial) => {
                        if nontrivial {
                            st.count("nontrivial");
                            let s = st.signature;
                            if st.distinct.len() < 4_000_000 {
                                st.distinct.insert(s);
                            }
                            if !st.sample.is_empty() {
                                let s = std::mem::take(&mut st.sample);
                                st.samples.push(s);
                            }
                        }
                    }
                    Verdict::Skip(why) => st.count(why),
                    Verdict::Fail(m) => {
                        fails.lock().unwrap().push((stream, index, m));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                if let Some(o) = &mut outcomes {
                    if index % BLOCK == 0 {
                        o.push(0u64);
                    }
                    let last = o.last_mut().unwrap();
                    *last = last.rotate_left(7).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ st.signature;
                }
                index += 1;
            }
            if let Some(o) = outcomes {
                // the last block may be cut short by the clock
                let whole = &o[..(index / BLOCK) as usize];
                let bytes: Vec<u8> = whole.iter().flat_map(|v| v.to_le_bytes()).collect();
                let _ = std::fs::write(format!("{}/outcomes-{}", outdir, stream), bytes);
            }
            progress[stream as usize].1.store(u64::MAX, Ordering::Relaxed);
            let _ = file.write_at(&u64::MAX.to_le_bytes(), stream * 8);
            let mut t = total.lock().unwrap();
            t.evaluations += st.evaluations;
            for (k, v) in st.counters {
                *t.counters.entry(k).or_insert(0) += v;
            }
            for (k, v) in st.maxima {
                t.max(k, v);
            }
            if t.distinct.is_empty() {
                t.distinct = st.distinct;
            } else {
                t.distinct.extend(st.distinct);
            }
            t.samples.extend(st.samples.into_iter().take(2));
        });
        handles.push(h.unwrap());
    }
    // watchdog: names the case that does not return
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        let now = start.elapsed().as_millis() as u64;
        for (s, p) in progress.iter().enumerate() {
            let since = p.1.load(Ordering::Relaxed);
            if since != u64::MAX && now > since + patience * 1000 {
                let i = p.0.load(Ordering::Relaxed);
                let _ = std::fs::write(format!("{}/stuck", out), format!("{} {}", s, i));
                std::process::exit(42);
            }
        }
    }
    for h in handles {
        if h.join().is_err() {
            std::process::exit(4);
        }
    }
    let t = total.lock().unwrap();
    let f = fails.lock().unwrap();
    let map = |m: &BTreeMap<&'static str, u64>| m.iter().map(|(k, v)| format!("{}: {}", quote(k), v)).collect::<Vec<_>>().join(", ");
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"evaluations\": {}, \"distinct\": {}, \"counters\": {{{}}}, \"maxima\": {{{}}}, \"samples\": [{}], \"fails\": [{}], \"hook\": {}, \"wall_s\": {:.2}}}",
        t.evaluations,
        t.distinct.len(),
        map(&t.counters),
        map(&t.maxima),
        t.samples.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", "),
        f.iter().map(|(s, i, m)| format!("{{\"stream\": {}, \"index\": {}, \"detail\": {}}}", s, i, quote(m))).collect::<Vec<_>>().join(", "),
        cfg!(clarith_verif),
        start.elapsed().as_secs_f64()
    );
    std::fs::write(format!("{}/result.json", out), j).unwrap();
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}
