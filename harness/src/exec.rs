//! Executes code under test, catches its panics and judges what it delivered.

use crate::big::*;
use crate::expr::*;
use crate::model::*;
use crate::shadow;
use clarith::Number;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Panic message of the current thread, in a fixed buffer so that recording it
/// does not disturb the allocation monitor.
struct Msg {
    len: usize,
    buf: [u8; 240],
}

thread_local! {
    static MSG: RefCell<Msg> = const { RefCell::new(Msg { len: 0, buf: [0; 240] }) };
    static QUIET: Cell<bool> = const { Cell::new(true) };
}

impl std::fmt::Write for Msg {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.len < self.buf.len() {
                self.buf[self.len] = if b.is_ascii() { b } else { b'?' };
                self.len += 1;
            }
        }
        Ok(())
    }
}

pub fn speak_up(loud: bool) {
    QUIET.with(|q| q.set(!loud));
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        use std::fmt::Write;
        MSG.with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                m.len = 0;
                let s = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.as_str()
                } else {
                    "(no message)"
                };
                let _ = m.write_str(s);
                if let Some(l) = info.location() {
                    let _ = write!(m, " @{}:{}", l.file(), l.line());
                }
            }
        });
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic: {}", info);
        }
    }));
}

pub fn last_message() -> String {
    MSG.with(|m| {
        let m = m.borrow();
        String::from_utf8_lossy(&m.buf[..m.len]).into_owned()
    })
}

/// Payload used by instrumented operands to end an unproductive run.
pub struct Stop;

/// Runs code under test. Panics of the reference side pass through.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<OracleCap>() || p.is::<Stop>() {
                resume_unwind(p);
            }
            Err(last_message())
        }
    }
}

#[derive(Debug)]
pub enum Verdict {
    /// the claim was evaluated and held; true when the case counts as nontrivial
    Pass(bool),
    /// nothing could be decided, with the reason
    Skip(&'static str),
    Fail(String),
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub signature: u64,
    pub sample: String,
}

impl Stats {
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    pub fn sign<T: Hash>(&mut self, v: &T) {
        let mut h = DefaultHasher::new();
        v.hash(&mut h);
        self.signature ^= h.finish().rotate_left(17).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    /// Text of the current case, only made when it will be kept.
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.sample = f();
        }
    }
    pub fn head(&mut self, h: Head) {
        self.count(match h {
            Head::Zero => "head zero",
            Head::PosOne => "head one",
            Head::NegOne => "head minus one",
            Head::Plain => "head none",
            Head::Turn => "head turn",
            Head::Reflect => "head reflect",
            Head::Ground => "head ground",
        });
    }
}

/// Panics that no exhaustion of integer range can explain.
pub fn forbidden(msg: &str) -> bool {
    msg.contains("logic error")
}

pub fn is_divzero(msg: &str) -> bool {
    msg.contains("division by zero")
}

pub enum Outcome {
    /// read to the end, all as expected; number of symbols
    Complete(u64),
    /// panicked after a correct prefix; number of symbols
    Failed(String, u64),
    Wrong(String),
}

/// Compares a live number with the representation of `want`, reading it to the end
/// (at most `limit` symbols) and `past` times beyond.
pub fn watch(x: Number, want: &Q, limit: u64, past: u32) -> Outcome {
    let (h, c) = represent(want);
    let got = head_of(&x);
    if got != h {
        return Outcome::Wrong(format!("value {} must start as {:?} but starts as {:?}", want.show(), h, got));
    }
    let (mut c, mut g) = match (c, x) {
        (Some(c), Number::Other(_, g)) => (c, g),
        _ => return Outcome::Complete(0),
    };
    let mut n = 0u64;
    let r = guarded(|| loop {
        if n >= limit {
            return None;
        }
        let w = c.next();
        let s = g.egest().map(|s| sym_of(&s));
        if w != s {
            return Some(format!("value {}: symbol {} must be {:?} but is {:?}", want.show(), n, w, s));
        }
        if w.is_none() {
            for i in 0..past {
                if let Some(s) = g.egest() {
                    return Some(format!("value {}: read {} after the end delivers {:?}", want.show(), i + 1, sym_of(&s)));
                }
            }
            return None;
        }
        n += 1;
    });
    match r {
        Ok(None) => Outcome::Complete(n),
        Ok(Some(m)) => Outcome::Wrong(m),
        Err(m) => Outcome::Failed(format!("{} (after {} symbols of {})", m, n, want.show()), n),
    }
}

#[derive(PartialEq, Clone, Copy)]
pub enum Seen {
    Complete(u64),
    DivZero,
    Range,
}

/// The verdict shared by most properties: exact or a permitted failure.
pub fn judge(e: &Expr, st: &mut Stats) -> Result<Seen, String> {
    judge_with(e, st, u64::MAX, 2)
}

pub fn judge_with(e: &Expr, st: &mut Stats, limit: u64, past: u32) -> Result<Seen, String> {
    let want = e.eval();
    let built = guarded(|| e.build());
    match (want, built) {
        (Err(_), Ok(_)) => Err(format!("{}: zero denominator not reported", e.show())),
        (Err(_), Err(m)) => {
            if is_divzero(&m) {
                st.count("zero denominators reported");
                Ok(Seen::DivZero)
            } else if forbidden(&m) || shadow::roomy(e) {
                Err(format!("{}: zero denominator reported as: {}", e.show(), m))
            } else {
                st.count("range exhausted");
                Ok(Seen::Range)
            }
        }
        (Ok(q), Err(m)) => permitted(e, &m, Some(&q), 0, st),
        (Ok(q), Ok(x)) => {
            st.head(head_of(&x));
            match watch(x, &q, limit, past) {
                Outcome::Complete(n) => {
                    st.count("read to the end");
                    st.add("symbols checked", n);
                    st.max("longest sequence", n);
                    Ok(Seen::Complete(n))
                }
                Outcome::Wrong(m) => Err(format!("{}: {}", e.show(), m)),
                Outcome::Failed(m, n) => permitted(e, &m, None, n + 1, st),
            }
        }
    }
}

/// A panic where a value was due: fine only when the integer range may be exhausted
/// after what was delivered (the head and the symbols).
fn permitted(e: &Expr, m: &str, q: Option<&Q>, delivered: u64, st: &mut Stats) -> Result<Seen, String> {
    let v = q.map(|q| format!(", value {}", q.show())).unwrap_or_default();
    if is_divzero(m) || forbidden(m) {
        return Err(format!("{}: fails with: {}{}", e.show(), m, v));
    }
    if delivered < shadow::assured(e) {
        return Err(format!("{}: fails although all working coefficients fit: {}{}", e.show(), m, v));
    }
    st.count("range exhausted");
    Ok(Seen::Range)
}
