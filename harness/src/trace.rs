//! Monitors that see every read of an operand (hook `clarith::verif::clog_from`).
//!
//! The monitor keeps the exact transformation from the unread operands to the undelivered
//! result. Each remaining operand lies anywhere in the open interval (0,1), so what has been
//! read justifies a delivery exactly when it is right at all corners of that box.

use crate::alloc;
use crate::exec::*;
use crate::expr::{comb, comb_value, hom, hom_value};
use crate::gen::*;
use crate::model::*;
use crate::props::{after_failure, Cx};
use crate::rng::Rng;
use clarith::protocol::Reduction;
#[cfg(clarith_verif)]
use clarith::verif::clog_from;
use clarith::Number;
use std::cell::{Cell, RefCell};
use std::panic::panic_any;
use std::rc::Rc;

type I = i128;

/// Without the hook only operands made through the public API can be watched.
pub const HOOK: bool = cfg!(clarith_verif);

#[cfg(not(clarith_verif))]
fn clog_from<F: FnMut() -> Option<Reduction> + 'static>(_: F) -> clarith::Clog {
    unreachable!("built without cfg(clarith_verif)")
}

/// (a xy + b x + c y + d) / (e xy + f x + g y + h)
#[derive(Clone, Copy, Debug)]
pub struct Form(pub [I; 8]);

fn gcd(mut a: I, mut b: I) -> I {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.abs()
}

impl Form {
    fn tidy(mut self) -> Form {
        let or = self.0.iter().fold(0, |a, b| a | b);
        if or != 0 {
            let s = or.trailing_zeros();
            if s > 0 {
                self.0 = self.0.map(|v| v >> s);
            }
        }
        if self.0.iter().any(|v| v.unsigned_abs() > 1 << 100) {
            let g = self.0.iter().fold(0, |a, b| gcd(a, *b));
            if g > 1 {
                self.0 = self.0.map(|v| v / g);
            }
            if self.0.iter().any(|v| v.unsigned_abs() > 1 << 110) {
                panic_any(crate::big::OracleCap);
            }
        }
        self
    }

    fn dbl(v: I) -> I {
        2 * v
    }

    /// a b + c d
    fn sum(a: I, b: I, c: I, d: I) -> I {
        a.checked_mul(b)
            .and_then(|v| v.checked_add(c.checked_mul(d)?))
            .unwrap_or_else(|| panic_any(crate::big::OracleCap))
    }

    pub fn identity() -> Form {
        Form([0, 1, 0, 0, 0, 0, 0, 1])
    }

    fn read_x(self, s: Sym) -> Form {
        let [a, b, c, d, e, f, g, h] = self.0;
        let t = Form::dbl;
        Form(match s {
            Sym::A => [a, b, t(c), t(d), e, f, t(g), t(h)],
            Sym::U => [c, d, a + c, b + d, g, h, e + g, f + h],
        })
        .tidy()
    }

    fn flip(self) -> Form {
        // exchange the roles of x and y
        let [a, b, c, d, e, f, g, h] = self.0;
        Form([a, c, b, d, e, g, f, h])
    }

    fn end_x(self) -> Form {
        let [a, b, c, d, e, f, g, h] = self.0;
        Form([0, 0, a + 2 * c, b + 2 * d, 0, 0, e + 2 * g, f + 2 * h]).tidy()
    }

    fn head_x(self, head: Head) -> Form {
        let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = self.0;
        if matches!(head, Head::Turn | Head::Ground) {
            std::mem::swap(&mut a, &mut c);
            std::mem::swap(&mut b, &mut d);
            std::mem::swap(&mut e, &mut g);
            std::mem::swap(&mut f, &mut h);
        }
        if matches!(head, Head::Reflect | Head::Ground) {
            a = -a;
            b = -b;
            e = -e;
            f = -f;
        }
        Form([a, b, c, d, e, f, g, h])
    }

    /// x := (p x + q) / (r x + s)
    fn pre_x(self, k: &[i64; 4]) -> Form {
        let [p, q, r, s] = k.map(|v| v as I);
        let [a, b, c, d, e, f, g, h] = self.0;
        let t = Form::sum;
        Form([t(a, p, c, r), t(b, p, d, r), t(a, q, c, s), t(b, q, d, s), t(e, p, g, r), t(f, p, h, r), t(e, q, g, s), t(f, q, h, s)]).tidy()
    }

    /// z := (p z + q) / (r z + s)
    fn post(self, k: &[i64; 4]) -> Form {
        let [p, q, r, s] = k.map(|v| v as I);
        let mut o = [0; 8];
        for i in 0..4 {
            o[i] = Form::sum(p, self.0[i], q, self.0[i + 4]);
            o[i + 4] = Form::sum(r, self.0[i], s, self.0[i + 4]);
        }
        Form(o).tidy()
    }

    fn deliver_head(self, head: Head) -> Form {
        match head {
            Head::Turn => self.post(&[0, 1, 1, 0]),
            Head::Reflect => self.post(&[-1, 0, 0, 1]),
            Head::Ground => self.post(&[0, -1, 1, 0]),
            _ => self,
        }
    }

    fn deliver(self, s: Sym) -> Form {
        match s {
            Sym::A => self.post(&[2, 0, 0, 1]),
            Sym::U => self.post(&[-1, 1, 1, 0]),
        }
    }

    /// Corner values (num, den) over the unit square, global sign fixed.
    fn corners(&self) -> [(I, I); 4] {
        let k = &self.0;
        let mut v = [
            (k[3], k[7]),
            (k[2] + k[3], k[6] + k[7]),
            (k[1] + k[3], k[5] + k[7]),
            (k[0] + k[1] + k[2] + k[3], k[4] + k[5] + k[6] + k[7]),
        ];
        let s = v.iter().map(|c| c.1.signum()).find(|s| *s != 0).unwrap_or(1);
        for c in v.iter_mut() {
            c.0 *= s;
            c.1 *= s;
        }
        v
    }

    /// The result lies in the open interval (0,1) whatever is still to be read.
    fn inside(&self) -> bool {
        let c = self.corners();
        c.iter().all(|(n, d)| *n >= 0 && *d - *n >= 0) && c.iter().any(|(n, _)| *n > 0) && c.iter().any(|(n, d)| *d - *n > 0)
    }

    fn is_const(&self, p: I, q: I) -> bool {
        (0..4).all(|i| q * self.0[i] == p * self.0[i + 4]) && self.0[4..].iter().any(|v| *v != 0)
    }

    /// The head is fixed with room to spare over the closed box.
    fn head_due(&self) -> Option<Head> {
        let c = self.corners();
        let all = |f: &dyn Fn(I, I) -> bool| c.iter().all(|(n, d)| *d > 0 && f(*n, *d));
        if all(&|n, d| n > 0 && n < d) {
            Some(Head::Plain)
        } else if all(&|n, d| n > d) {
            Some(Head::Turn)
        } else if all(&|n, d| n < 0 && n > -d) {
            Some(Head::Reflect)
        } else if all(&|n, d| n < -d) {
            Some(Head::Ground)
        } else {
            None
        }
    }

    /// One operand left, and the result really depends on it.
    fn moving(&self) -> bool {
        let k = &self.0;
        k[0] == 0 && k[2] == 0 && k[4] == 0 && k[6] == 0 && k[1].checked_mul(k[7]) != k[3].checked_mul(k[5])
    }

    /// What every continuation agrees on. A moving form stays off the ends of its image, so
    /// those may touch a limit; otherwise the head or symbol must be fixed with room to spare.
    fn head_fixed(&self) -> Option<Head> {
        if self.moving() {
            [Head::Plain, Head::Turn, Head::Reflect, Head::Ground].into_iter().find(|h| self.deliver_head(*h).inside())
        } else {
            self.head_due()
        }
    }

    fn symbol_fixed(&self) -> Option<Sym> {
        if self.moving() {
            [Sym::A, Sym::U].into_iter().find(|s| self.deliver(*s).inside())
        } else {
            self.symbol_due()
        }
    }

    fn symbol_due(&self) -> Option<Sym> {
        let c = self.corners();
        if c.iter().all(|(n, d)| *n > 0 && *d > 2 * *n) {
            Some(Sym::A)
        } else if c.iter().all(|(n, d)| *d > *n && 2 * *n > *d) {
            Some(Sym::U)
        } else {
            None
        }
    }
}

/// Where an instrumented operand takes its symbols from.
#[derive(Clone, Debug)]
pub struct Feed {
    pub head: Head,
    pub start: Vec<Sym>,
    /// repeated for ever; empty for a finite operand
    pub cycle: Vec<Sym>,
    /// endless and aperiodic: generator state
    pub noise: Option<u64>,
}

impl Feed {
    pub fn random(r: &mut Rng) -> Feed {
        let head = *r.pick(&[Head::Plain, Head::Plain, Head::Turn, Head::Reflect, Head::Ground]);
        let n = *r.pick(&[0usize, 2, 6, 15, 40]);
        let n = r.below(n as u64 + 1) as usize;
        let mut start = symbols(r, n);
        if r.chance(1, 12) {
            // longer than any machine integer can follow
            let run = r.range(50, 140) as usize;
            let at = r.below(start.len() as u64 + 1) as usize;
            start.splice(at..at, std::iter::repeat(Sym::A).take(run));
        }
        match r.below(3) {
            0 => Feed { head, start, cycle: vec![], noise: None },
            1 => {
                let m = r.range(1, 9) as usize;
                let mut cycle = symbols(r, m);
                if !cycle.contains(&Sym::U) {
                    cycle[0] = Sym::U;
                }
                Feed { head, start, cycle, noise: None }
            }
            _ => Feed { head, start, cycle: vec![], noise: Some(r.next()) },
        }
    }

    pub fn endless(r: &mut Rng) -> Feed {
        loop {
            let f = Feed::random(r);
            if f.is_endless() {
                return f;
            }
        }
    }

    pub fn is_endless(&self) -> bool {
        !self.cycle.is_empty() || self.noise.is_some()
    }

    pub fn symbols(&self) -> impl FnMut() -> Option<Sym> {
        let f = self.clone();
        let mut i = 0usize;
        let mut rng = f.noise.map(|s| Rng::new(s, 77));
        let mut run = 0u32;
        move || {
            i += 1;
            if i <= f.start.len() {
                return Some(f.start[i - 1]);
            }
            if let Some(r) = rng.as_mut() {
                // runs of Amplify are kept below 24
                let s = if run < 24 && r.chance(1, 2) { Sym::A } else { Sym::U };
                run = if s == Sym::A { run + 1 } else { 0 };
                return Some(s);
            }
            if f.cycle.is_empty() {
                return None;
            }
            Some(f.cycle[(i - 1 - f.start.len()) % f.cycle.len()])
        }
    }

    pub fn show(&self) -> String {
        format!(
            "{:?} {}{}",
            self.head,
            show_syms(&self.start),
            match (&self.noise, self.cycle.is_empty()) {
                (Some(s), _) => format!(" then random({})", s),
                (None, true) => " end".into(),
                _ => format!(" then ({})*", show_syms(&self.cycle)),
            }
        )
    }
}

fn red(s: Sym) -> Reduction {
    match s {
        Sym::A => Reduction::Amplify,
        Sym::U => Reduction::Uncover,
    }
}

/// A number with the given symbols.
pub fn feed(f: &Feed) -> Number {
    let mut next = f.symbols();
    Number::Other(primer_of(f.head), clog_from(move || next().map(red)))
}

#[derive(PartialEq, Clone, Copy)]
enum Want {
    Head,
    Symbol,
    Nothing,
}

struct Log {
    form: Form,
    want: Want,
    ended: [bool; 2],
    reads: [u64; 2],
    /// reads made although the delivery was already fixed
    excess: u32,
    slack: Option<u32>,
    idle_reads: u64,
    fault: Option<String>,
    events: Vec<u8>,
}

impl Log {
    fn event(&mut self, b: u8) {
        if self.events.len() < 400 {
            self.events.push(b);
        }
    }
}

/// Reads without a delivery before an endless run is given up as undecided.
const PATIENCE: u64 = 600;

fn source(feed: &Feed, which: usize, log: &Rc<RefCell<Log>>) -> Number {
    let mut next = feed.symbols();
    let log = Rc::clone(log);
    let clog = clog_from(move || {
        let mut l = log.borrow_mut();
        if l.ended[which] {
            return None;
        }
        l.idle_reads += 1;
        if l.idle_reads > PATIENCE {
            drop(l);
            panic_any(Stop);
        }
        let due = match l.want {
            Want::Head if l.slack == Some(0) => l.form.head_fixed().is_some(),
            Want::Head => l.form.head_due().is_some(),
            Want::Symbol if l.slack == Some(0) => l.form.symbol_fixed().is_some(),
            Want::Symbol => l.form.symbol_due().is_some(),
            Want::Nothing => true,
        };
        if due {
            l.excess += 1;
            if let Some(s) = l.slack {
                if l.excess > s && l.fault.is_none() {
                    l.fault = Some(format!("read {} of operand {} although the next delivery was fixed", l.reads[which] + 1, which + 1));
                }
            }
        }
        l.reads[which] += 1;
        let s = next();
        l.event(match (s, which) {
            (Some(Sym::A), 0) => b'a',
            (Some(Sym::U), 0) => b'u',
            (None, 0) => b'.',
            (Some(Sym::A), _) => b'c',
            (Some(Sym::U), _) => b'w',
            (None, _) => b':',
        });
        let mut f = l.form;
        if which == 1 {
            f = f.flip();
        }
        f = match s {
            Some(s) => f.read_x(s),
            None => f.end_x(),
        };
        if which == 1 {
            f = f.flip();
        }
        l.form = f;
        if s.is_none() {
            l.ended[which] = true;
        }
        s.map(red)
    });
    Number::Other(primer_of(feed.head), clog)
}

pub struct Traced {
    pub delivered: u64,
    pub reads: u64,
    pub ended: bool,
    pub special: bool,
    pub undecided: bool,
    pub panic: Option<String>,
    pub fault: Option<String>,
    pub unjustified: Option<String>,
    pub text: String,
}

/// Builds with `make` from instrumented operands and reads up to `pulls` symbols.
fn traced(form: Form, feeds: &[&Feed], slack: Option<u32>, pulls: u64, make: impl FnOnce(Vec<Number>) -> Number) -> Traced {
    let mut form = form.head_x(feeds[0].head);
    if let Some(f) = feeds.get(1) {
        form = form.flip().head_x(f.head).flip();
    }
    let log = Rc::new(RefCell::new(Log {
        form,
        want: Want::Head,
        ended: [false, feeds.len() < 2],
        reads: [0, 0],
        excess: 0,
        slack,
        idle_reads: 0,
        fault: None,
        events: vec![],
    }));
    let mut t = Traced { delivered: 0, reads: 0, ended: false, special: false, undecided: false, panic: None, fault: None, unjustified: None, text: String::new() };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let nums = feeds.iter().enumerate().map(|(i, f)| source(f, i, &log)).collect();
        let z = match guarded(|| make(nums)) {
            Ok(z) => z,
            Err(m) => {
                t.panic = Some(m);
                return;
            }
        };
        let head = head_of(&z);
        {
            let mut l = log.borrow_mut();
            l.want = Want::Nothing;
            l.event(b'!');
            if head.is_special() {
                let v = match head {
                    Head::Zero => 0,
                    Head::PosOne => 1,
                    _ => -1,
                };
                t.special = true;
                if !l.form.is_const(v, 1) {
                    t.unjustified = Some(format!("{:?} delivered while the result still is {:?}", head, l.form.0));
                }
                return;
            }
            l.form = l.form.deliver_head(head);
            if !l.form.inside() {
                t.unjustified = Some(format!("{:?} delivered, leaving {:?}, after {:?} reads", head, l.form.0, l.reads));
                return;
            }
        }
        let mut c = match z {
            Number::Other(_, c) => c,
            _ => return,
        };
        for i in 0..pulls {
            {
                let mut l = log.borrow_mut();
                l.want = Want::Symbol;
                l.excess = 0;
                l.idle_reads = 0;
            }
            let s = match guarded(|| c.egest()) {
                Ok(s) => s.map(|s| sym_of(&s)),
                Err(m) => {
                    t.panic = Some(m);
                    return;
                }
            };
            let mut l = log.borrow_mut();
            l.want = Want::Nothing;
            l.event(match s {
                Some(Sym::A) => b'A',
                Some(Sym::U) => b'U',
                None => b'H',
            });
            match s {
                Some(s) => {
                    l.form = l.form.deliver(s);
                    if !l.form.inside() {
                        t.unjustified = Some(format!("symbol {} delivered as {:?}, leaving {:?}, after {:?} reads", i, s, l.form.0, l.reads));
                        return;
                    }
                    t.delivered += 1;
                }
                None => {
                    if !l.form.is_const(1, 2) {
                        t.unjustified = Some(format!("end delivered after {} symbols while the rest is {:?}", i, l.form.0));
                    }
                    t.ended = true;
                    return;
                }
            }
        }
    }));
    if let Err(p) = res {
        if p.is::<Stop>() {
            t.undecided = true;
        } else {
            std::panic::resume_unwind(p);
        }
    }
    let l = log.borrow();
    t.reads = l.reads[0] + l.reads[1];
    t.fault = l.fault.clone();
    t.text = String::from_utf8_lossy(&l.events).into_owned();
    t
}

fn form4(k: &[i64; 4]) -> Form {
    Form([0, k[0] as I, 0, k[1] as I, 0, k[2] as I, 0, k[3] as I])
}

fn form8(k: &[i64; 8]) -> Form {
    Form(k.map(|v| v as I))
}

fn note(t: &Traced, cx: &mut Cx) {
    cx.st.add("operand reads seen", t.reads);
    cx.st.add("symbols delivered", t.delivered);
    cx.st.max("longest sequence", t.delivered);
    cx.st.count(if t.panic.is_some() {
        "stopped by a failure"
    } else if t.undecided {
        "undecided by unending operands"
    } else if t.special {
        "special result"
    } else if t.ended {
        "read to the end"
    } else {
        "read as far as asked"
    });
}

/// A failure must be a loud one: a genuine zero denominator or exhausted range.
fn failure(t: &Traced, endless: bool) -> Option<String> {
    let m = t.panic.as_ref()?;
    if forbidden(m) || endless && is_divzero(m) {
        return Some(m.clone());
    }
    None
}

fn sizes(r: &mut Rng) -> u32 {
    *r.pick(&[1, 2, 3, 3, 4, 6, 10, 16, 24])
}

/// Single operations, for both C12 and C13.
fn single(cx: &mut Cx, lazy: bool) -> Verdict {
    let r = &mut cx.r;
    let bits = sizes(r);
    let pulls = *r.pick(&[0, 1, 5, 20, 100]);
    let x = Feed::random(r);
    let (t, text, endless) = if r.chance(1, 2) {
        let k = coefs4(r, bits, None, Aim::Any);
        let null = k[2] == 0 && k[3] == 0;
        cx.st.sign(&(k, &x.start, &x.cycle, x.noise, x.head, pulls));
        let t = traced(form4(&k), &[&x], Some(0), pulls, |mut v| hom(v.pop().unwrap(), &k));
        (t, format!("homographic {:?} of [{}], {} reads asked", k, x.show(), pulls), x.is_endless() && !null)
    } else {
        let y = Feed::random(r);
        let k = coefs8(r, bits.min(10), None, Aim::Any);
        cx.st.sign(&(k, &x.start, &x.cycle, x.noise, x.head, pulls));
        cx.st.sign(&(&y.start, &y.cycle, y.noise, y.head));
        let t = traced(form8(&k), &[&x, &y], Some(1), pulls, |mut v| {
            let y = v.pop().unwrap();
            comb(v.pop().unwrap(), y, &k)
        });
        (t, format!("combine {:?} of [{}] and [{}], {} reads asked", k, x.show(), y.show(), pulls), false)
    };
    cx.st.describe(|| format!("{}: {}", text, t.text));
    note(&t, cx);
    if lazy {
        if let Some(m) = t.fault {
            return Verdict::Fail(format!("{}: {}; {}", text, m, t.text));
        }
        return Verdict::Pass(t.delivered >= 1 && t.reads >= 1);
    }
    if let Some(m) = t.unjustified.clone().or_else(|| failure(&t, endless)) {
        return Verdict::Fail(format!("{}: {}; {}", text, m, t.text));
    }
    Verdict::Pass(t.delivered >= 1 && t.reads >= 1)
}

// ---------------------------------------------------------------- C12

fn counted(feed: &Feed, reads: &Rc<RefCell<Vec<Sym>>>, limit: usize) -> Number {
    let mut next = feed.symbols();
    let reads = Rc::clone(reads);
    Number::Other(
        primer_of(feed.head),
        clog_from(move || {
            let s = next();
            let mut v = reads.borrow_mut();
            if v.len() >= limit {
                drop(v);
                panic_any(Stop);
            }
            if let Some(s) = s {
                v.push(s);
            }
            s.map(red)
        }),
    )
}

pub fn compare_lazy(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let mut x = Feed::random(r);
    let mut y = x.clone();
    if r.chance(1, 3) {
        y.head = *r.pick(&[Head::Plain, Head::Turn, Head::Reflect, Head::Ground]);
    }
    let n = if r.chance(1, 2000) {
        150_000
    } else if r.chance(1, 60) {
        20_000
    } else {
        *r.pick(&[0u64, 3, 20, 100, 400])
    };
    let n = r.below(n + 1) as usize;
    let p = symbols(r, n);
    x.start = p.clone();
    y.start = p;
    let m = r.below(3);
    if m == 0 {
        // one of them ends here
        x.cycle.clear();
        x.noise = None;
    } else {
        x.start.push(Sym::A);
    }
    y.start.push(if m == 2 || r.chance(1, 2) { Sym::U } else { Sym::A });
    let first = if m == 0 { None } else { Some(Sym::A) };
    let second = *y.start.last().unwrap();
    if first == Some(second) {
        y.start.pop();
        y.start.push(Sym::U);
    }
    if !x.is_endless() && m != 0 {
        x.start.push(Sym::U);
    }
    let second = *y.start.last().unwrap();
    let same_head = x.head == y.head;
    // expected order, from the documented meaning of the symbols
    let rank = |s: Option<Sym>| match s {
        Some(Sym::A) => 0,
        None => 1,
        Some(Sym::U) => 2,
    };
    let hrank = |h: Head| match h {
        Head::Ground => 0,
        Head::Reflect => 1,
        Head::Plain => 2,
        _ => 3,
    };
    let mut want = rank(first).cmp(&rank(Some(second)));
    let us = x.start[..n].iter().filter(|s| **s == Sym::U).count();
    if us % 2 == 1 {
        want = want.reverse();
    }
    if matches!(x.head, Head::Turn | Head::Reflect) {
        want = want.reverse();
    }
    if !same_head {
        want = hrank(x.head).cmp(&hrank(y.head));
    }
    let (rx, ry) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![])));
    let flip = r.chance(1, 2);
    let limit = if same_head { n + 1 } else { 0 };
    let text = format!("compare [{}] with [{}]{}", x.show(), y.show(), if flip { " exchanged" } else { "" });
    cx.st.sign(&(&x.start, &y.start, x.head, y.head, &x.cycle, x.noise, flip));
    cx.st.describe(|| text.clone());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        guarded(|| {
            let (a, b) = (counted(&x, &rx, limit + 1), counted(&y, &ry, limit + 1));
            if flip {
                Number::compare(b, a).reverse()
            } else {
                Number::compare(a, b)
            }
        })
    }));
    let (nx, ny) = (rx.borrow().len(), ry.borrow().len());
    cx.st.add("operand reads seen", (nx + ny) as u64);
    cx.st.max("longest common prefix", n as u64);
    cx.st.count(if same_head { "comparisons decided by symbols" } else { "comparisons decided by heads" });
    match res {
        Err(_) => Verdict::Fail(format!("{}: reads beyond the first difference at {}", text, n)),
        Ok(_) if nx > limit || ny > limit => Verdict::Fail(format!("{}: {} and {} symbols read, {} suffice", text, nx, ny, limit)),
        Ok(Err(m)) => Verdict::Fail(format!("{}: fails with: {}", text, m)),
        Ok(Ok(o)) if o != want => Verdict::Fail(format!("{}: {:?} instead of {:?}", text, o, want)),
        Ok(Ok(_)) => Verdict::Pass(true),
    }
}

pub fn c12(cx: &mut Cx) -> Verdict {
    if !HOOK {
        return poisoned(cx);
    }
    match cx.r.below(10) {
        0 => compare_lazy(cx),
        1 => consume_endless(cx),
        2 if cx.r.chance(1, 2) => poisoned(cx),
        _ => single(cx, true),
    }
}

/// Public API only: an operand whose next symbol cannot be computed must not be read before
/// everything it already determines has been delivered.
pub fn poisoned(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let bits = *r.pick(&[12, 20, 31, 40]);
    let inner = crate::expr::Expr::h(leaf(r, 63), coefs4(r, bits, None, Aim::Any));
    // how far can the operand be read?
    let mut given = vec![];
    let fails = guarded(|| {
        if let Number::Other(_, mut c) = inner.build() {
            while let Some(s) = c.egest() {
                given.push(sym_of(&s));
            }
        }
    })
    .is_err();
    let head = match guarded(|| head_of(&inner.build())) {
        Ok(h) if !h.is_special() && fails => h,
        _ => return Verdict::Skip("operand does not fail"),
    };
    let k = *r.pick(&[[1, 0, 0, 1], [-1, 0, 0, 1], [0, 1, 1, 0], [0, -1, 1, 0]]);
    cx.st.sign(&(&inner, k));
    let text = format!("homographic {:?} of {}, which fails after {}", k, inner.show(), show_syms(&given));
    cx.st.describe(|| text.clone());
    let mut form = form4(&k).head_x(head);
    // what the readable symbols determine
    let mut due = vec![];
    let mut have_head = None;
    let mut i = 0;
    loop {
        if have_head.is_none() {
            have_head = form.head_fixed();
            if let Some(h) = have_head {
                form = form.deliver_head(h);
                continue;
            }
        } else if let Some(s) = form.symbol_fixed() {
            form = form.deliver(s);
            due.push(s);
            continue;
        }
        if i == given.len() {
            break;
        }
        form = form.read_x(given[i]);
        i += 1;
    }
    let mut got = vec![];
    let mut got_head = None;
    let _ = guarded(|| {
        let z = hom(inner.build(), &k);
        got_head = Some(head_of(&z));
        if let Number::Other(_, mut c) = z {
            while let Some(s) = c.egest() {
                got.push(sym_of(&s));
            }
        }
    });
    cx.st.count("operands that fail later");
    if have_head.is_some() && got_head != have_head || got.len() < due.len() {
        return Verdict::Fail(format!("{}: delivers {:?} {} but {:?} {} is determined", text, got_head, show_syms(&got), have_head, show_syms(&due)));
    }
    Verdict::Pass(!due.is_empty())
}

// ---------------------------------------------------------------- C17

/// An operand one read of which fails; everything else about it is fine.
pub fn flaky(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let n = r.range(1, 60) as usize;
    let s = symbols(r, n);
    let head = *r.pick(&[Head::Plain, Head::Turn, Head::Reflect, Head::Ground]);
    let v = apply_head(head, &decode(&s));
    let at = r.below(n as u64 + 1) as usize;
    let (i, down) = (Rc::new(Cell::new(0usize)), Rc::new(Cell::new(false)));
    let (i2, down2) = (Rc::clone(&i), Rc::clone(&down));
    let feed = s.clone();
    let x = Number::Other(
        primer_of(head),
        clog_from(move || {
            if i2.get() == at && !down2.get() {
                down2.set(true);
                panic!("this read fails");
            }
            let s = feed.get(i2.get()).copied();
            i2.set(i2.get() + 1);
            s.map(red)
        }),
    );
    let (want, built, text) = if r.chance(1, 2) {
        let k = coefs4(r, 6, Some(&v), Aim::Any);
        (hom_value(&v, &k), guarded(|| hom(x, &k)), format!("homographic {:?}", k))
    } else {
        let y = leaf(r, 5);
        let vy = match y.eval() {
            Ok(q) => q,
            Err(_) => return Verdict::Skip("zero denominator"),
        };
        let k = coefs8(r, 4, Some((&v, &vy)), Aim::Any);
        if r.chance(1, 2) {
            (comb_value(&v, &vy, &k), guarded(|| comb(x, y.build(), &k)), format!("combine {:?} with {}", k, y.show()))
        } else {
            (comb_value(&vy, &v, &k), guarded(|| comb(y.build(), x, &k)), format!("combine {:?} after {}", k, y.show()))
        }
    };
    let text = format!("{} of [{:?} {}], whose read {} fails once", text, head, show_syms(&s), at + 1);
    cx.st.sign(&(&s, &text));
    cx.st.describe(|| text.clone());
    match (want, built) {
        (Err(_), _) => Verdict::Skip("zero denominator"),
        (_, Err(_)) => Verdict::Skip("fails while building"),
        (Ok(q), Ok(z)) => after_failure(z, &q, &text, cx).unwrap_or(Verdict::Pass(false)),
    }
}

// ---------------------------------------------------------------- C13

/// Identity, negation and reciprocals of an endless operand, stacked, for a long time.
fn stream(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let x = Feed::endless(r);
    let forms = [[1i64, 0, 0, 1], [-1, 0, 0, 1], [0, 1, 1, 0], [0, -1, 1, 0]];
    let chain: Vec<[i64; 4]> = (0..r.range(1, 4)).map(|_| *r.pick(&forms)).collect();
    let long = if cx.thorough { 400_000 } else if r.chance(1, 40) { 150_000 } else { 20_000 };
    let n = r.range(1_000, long);
    let text = format!("{:?} applied to [{}], {} symbols", chain, x.show(), n);
    cx.st.sign(&(&chain, &x.start, &x.cycle, x.noise, x.head, n));
    cx.st.describe(|| text.clone());
    cx.st.count("endless streams");
    let mut want = x.head;
    for k in &chain {
        // negation keeps the symbols, the reciprocal as well
        let (neg, inv) = (k[0] < 0 || k[1] < 0, k[0] == 0);
        let (mut s, mut m) = (matches!(want, Head::Reflect | Head::Ground), matches!(want, Head::Turn | Head::Ground));
        s ^= neg;
        m ^= inv;
        want = match (s, m) {
            (false, false) => Head::Plain,
            (false, true) => Head::Turn,
            (true, false) => Head::Reflect,
            (true, true) => Head::Ground,
        };
    }
    let reads = Rc::new(RefCell::new(0u64));
    let mut done = 0u64;
    let res = guarded(|| {
        let mut next = x.symbols();
        let r2 = Rc::clone(&reads);
        let mut z = Number::Other(
            primer_of(x.head),
            clog_from(move || {
                *r2.borrow_mut() += 1;
                next().map(red)
            }),
        );
        for k in &chain {
            z = hom(z, k);
        }
        if head_of(&z) != want {
            return Some(format!("head {:?} instead of {:?}", head_of(&z), want));
        }
        let mut expected = x.symbols();
        if let Number::Other(_, mut c) = z {
            for i in 0..n as u64 {
                let (s, e) = (c.egest().map(|s| sym_of(&s)), expected());
                if s != e {
                    return Some(format!("symbol {} is {:?} instead of {:?}", i, s, e));
                }
                done = i;
            }
        }
        None
    });
    cx.st.add("symbols delivered", done);
    cx.st.add("operand reads seen", *reads.borrow());
    cx.st.max("longest sequence", done);
    match res {
        Ok(None) => Verdict::Pass(true),
        Ok(Some(m)) => Verdict::Fail(format!("{}: {}", text, m)),
        Err(m) => Verdict::Fail(format!("{}: fails after {} symbols with: {}", text, done, m)),
    }
}

/// Programs of several operations over one or two instrumented operands.
fn nested(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let bits = *r.pick(&[1, 2, 3, 5, 8]);
    let pulls = *r.pick(&[3, 10, 40]);
    let (x, y) = (Feed::random(r), Feed::random(r));
    let chain = |r: &mut Rng| -> Vec<[i64; 4]> { (0..r.below(3)).map(|_| coefs4(r, bits, None, Aim::Any)).collect() };
    let (px, py, post) = (chain(r), chain(r), chain(r));
    let two = r.chance(2, 3);
    let k = coefs8(r, bits, None, Aim::Any);
    let mut form = if two { form8(&k) } else { Form::identity() };
    for c in px.iter().rev() {
        form = form.pre_x(c);
    }
    if two {
        form = form.flip();
        for c in py.iter().rev() {
            form = form.pre_x(c);
        }
        form = form.flip();
    }
    for c in &post {
        form = form.post(c);
    }
    let text = format!("{:?} on [{}], {:?} on [{}], combine {:?}, then {:?}", px, x.show(), py, y.show(), if two { &k[..] } else { &[] }, post);
    cx.st.sign(&(&px, &py, &post, k, two, &x.start, &y.start));
    cx.st.sign(&(&x.cycle, x.noise, &y.cycle, y.noise, x.head, y.head, pulls));
    let make = |mut v: Vec<Number>| {
        let mut b = if two { v.pop() } else { None };
        let mut a = v.pop().unwrap();
        for c in &px {
            a = hom(a, c);
        }
        if let Some(mut q) = b.take() {
            for c in &py {
                q = hom(q, c);
            }
            a = comb(a, q, &k);
        }
        for c in &post {
            a = hom(a, c);
        }
        a
    };
    let feeds: Vec<&Feed> = if two { vec![&x, &y] } else { vec![&x] };
    let t = traced(form, &feeds, None, pulls, make);
    cx.st.describe(|| format!("{}: {}", text, t.text));
    note(&t, cx);
    cx.st.count("programs of several operations");
    if let Some(m) = t.unjustified.clone().or_else(|| failure(&t, false)) {
        return Verdict::Fail(format!("{}: {}; {}", text, m, t.text));
    }
    Verdict::Pass(t.delivered >= 1 && t.reads >= 1)
}

pub fn c13(cx: &mut Cx) -> Verdict {
    if !HOOK {
        return if cx.r.chance(1, 2) { crate::props::c02(cx) } else { crate::props::c03(cx) };
    }
    if cx.g % 400 == 7 {
        return stream(cx);
    }
    match cx.r.below(4) {
        0 => nested(cx),
        _ => single(cx, false),
    }
}

// ---------------------------------------------------------------- C05 on endless operands

pub fn consume_endless(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let x = Feed::random(r);
    let reads = Rc::new(RefCell::new(vec![]));
    let text = format!("consume [{}]", x.show());
    cx.st.sign(&(&x.start, &x.cycle, x.noise, x.head));
    cx.st.describe(|| text.clone());
    cx.st.count("instrumented operands consumed");
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        guarded(|| {
            let (y, a, b, c, d) = Number::consume(counted(&x, &reads, 20_000));
            (y.is_some(), [a as I, b as I, c as I, d as I])
        })
    }));
    let seen = reads.borrow();
    cx.st.add("operand reads seen", seen.len() as u64);
    let (rest, k) = match res {
        Err(_) => return Verdict::Fail(format!("{}: does not return within 20000 reads", text)),
        Ok(Err(m)) => return Verdict::Fail(format!("{}: fails after {} reads with: {}", text, seen.len(), m)),
        Ok(Ok(v)) => v,
    };
    // the coefficients must hold exactly what has been read
    let mut f = Form::identity().head_x(x.head);
    for s in seen.iter() {
        f = f.read_x(*s);
    }
    let w = [f.0[1], f.0[3], f.0[5], f.0[7]];
    let cross = |i: usize, j: usize| w[i].checked_mul(k[j]) == w[j].checked_mul(k[i]);
    let prop = (0..4).all(|i| (i + 1..4).all(|j| cross(i, j)));
    if !prop || k[0] * k[3] == k[1] * k[2] {
        return Verdict::Fail(format!("{}: coefficients {:?} are not what {} means", text, k, show_syms(&seen)));
    }
    if !rest && x.is_endless() {
        return Verdict::Fail(format!("{}: claims to be complete", text));
    }
    if !rest && seen.len() != x.start.len() {
        return Verdict::Fail(format!("{}: claims to be complete after {} symbols", text, seen.len()));
    }
    let top = k.iter().map(|v| v.unsigned_abs()).max().unwrap();
    if rest && top < (i64::MAX / 8) as u128 {
        return Verdict::Fail(format!("{}: stops at {:?}, far from the limit", text, k));
    }
    cx.st.max("largest coefficient (bits)", (128 - top.leading_zeros()) as u64);
    Verdict::Pass(seen.len() >= 3)
}

// ---------------------------------------------------------------- C14 on endless operands

/// Endless operands: everything before the range is exhausted must be delivered.
pub fn assured_endless(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let (x, y) = (Feed::random(r), Feed::random(r));
    let bits = *r.pick(&[1, 2, 4, 8, 16, 30]);
    let two = r.chance(1, 2);
    let operand = |f: &Feed| (f.head, Some(Box::new(f.symbols()) as Box<dyn FnMut() -> Option<Sym>>));
    let (text, least, made) = if two {
        let k = coefs8(r, bits, None, Aim::Any);
        let least = crate::shadow::assured_of_two(&|| operand(&x), &|| operand(&y), k);
        (format!("combine {:?} of [{}] and [{}]", k, x.show(), y.show()), least, guarded(|| if least == 0 { None } else { Some(comb(feed(&x), feed(&y), &k)) }))
    } else {
        let k = coefs4(r, bits, None, Aim::Any);
        let least = crate::shadow::assured_of(operand(&x), k);
        (format!("homographic {:?} of [{}]", k, x.show()), least, guarded(|| if least == 0 { None } else { Some(hom(feed(&x), &k)) }))
    };
    cx.st.sign(&(&text, x.noise, y.noise));
    cx.st.describe(|| text.clone());
    let z = match made {
        Ok(Some(z)) => z,
        Ok(None) => return Verdict::Skip("integer range may be exhausted"),
        Err(m) if is_divzero(&m) => return Verdict::Skip("zero denominator"),
        Err(m) => return Verdict::Fail(format!("{}: fails although the range suffices for its head: {}", text, m)),
    };
    let mut n = 0u64;
    let res = guarded(|| {
        if let Number::Other(_, mut c) = z {
            while n + 1 < least && n < 2000 && c.egest().is_some() {
                n += 1;
            }
        }
    });
    cx.st.count("instrumented operands with room for a part");
    cx.st.add("assured symbols", n);
    match res {
        Ok(()) => Verdict::Pass(n >= 2),
        Err(m) => Verdict::Fail(format!("{}: fails after {} symbols although the range suffices for {}: {}", text, n, least - 1, m)),
    }
}

pub fn memory_endless(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let x = Feed::endless(r);
    let forms = [[1i64, 0, 0, 1], [-1, 0, 0, 1], [0, 1, 1, 0], [0, -1, 1, 0]];
    let chain: Vec<[i64; 4]> = (0..r.range(1, 4)).map(|_| *r.pick(&forms)).collect();
    let n = if cx.thorough { 300_000u64 } else { 40_000 };
    let text = format!("{:?} applied to [{}], {} symbols", chain, x.show(), n);
    cx.st.sign(&(&chain, &x.start, &x.cycle, x.noise, x.head));
    cx.st.describe(|| text.clone());
    let mut next = x.symbols();
    let before = alloc::live().0;
    let mut early = 0;
    let mut late = 0;
    let mut z = Number::Other(primer_of(x.head), clog_from(move || next().map(red)));
    for k in &chain {
        z = hom(z, k);
    }
    if let Number::Other(_, mut c) = z {
        for i in 0..n {
            if c.egest().is_none() {
                break;
            }
            let now = alloc::live().0 - before;
            if i < 100 {
                early = early.max(now);
            } else {
                late = late.max(now);
            }
        }
    }
    // dropping `next` gives back the operand's own buffers, which were allocated before
    let after = alloc::live().0 - before;
    cx.st.add("symbols read", n);
    cx.st.count("endless streams");
    cx.st.max("peak bytes", late.max(0) as u64);
    if late > early + 1024 {
        return Verdict::Fail(format!("{}: heap use grows from {} to {} bytes", text, early, late));
    }
    if after > 0 {
        return Verdict::Fail(format!("{}: {} bytes are not released", text, after));
    }
    Verdict::Pass(true)
}

/// Peak heap use of one piece of work on operands of two lengths.
pub fn memory_long(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let long = if cx.thorough { r.range(100_000, 400_000) } else { r.range(30_000, 80_000) } as usize;
    let kind = r.below(4);
    let tail = |r: &mut crate::rng::Rng| {
        let n = r.range(1, 10) as usize;
        symbols(r, n)
    };
    let (p, q) = (tail(r), tail(r));
    let run = if kind == 2 { symbols(r, long) } else { vec![Sym::A; long] };
    let s = |r: &mut crate::rng::Rng| *r.pick(&[1i64, -1, 1, 2, -3]);
    let k4 = *r.pick(&[[1, 0, 1, 0], [-1, 0, 1, 0], [3, 0, -3, 0], [0, 0, 1, 0]]);
    let k8 = match r.below(4) {
        0 => [0, s(r), 0, 0, 0, 0, s(r), 0],
        1 => [0, 0, s(r), 0, 0, s(r), 0, 0],
        2 => [0, s(r), s(r), 0, 0, s(r), s(r), 0],
        _ => [s(r), 0, 0, 0, s(r), 0, 0, 0],
    };
    let text = match kind {
        0 => format!("homographic {:?} of A*{} {}", k4, long, show_syms(&p)),
        1 | 3 => format!("combine {:?} of A*{} {} and A*{} {}", k8, long, show_syms(&p), long, show_syms(&q)),
        _ => format!("comparing after {} common symbols", long),
    };
    cx.st.sign(&(kind, long, &p, &q, k4, k8));
    cx.st.describe(|| text.clone());
    let mut peaks = [0i64; 2];
    for (i, n) in [400, long].iter().enumerate() {
        let feed = |tail: &[Sym]| {
            let mut start = run[..*n].to_vec();
            start.extend_from_slice(tail);
            feed(&Feed { head: Head::Plain, start, cycle: vec![], noise: None })
        };
        let (x, y) = (feed(&p), feed(&q));
        let before = alloc::live().0;
        alloc::reset_peak();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let z = match kind {
                0 => hom(x, &k4),
                1 | 3 => comb(x, y, &k8),
                _ => {
                    Number::compare(x, y);
                    return;
                }
            };
            if let Number::Other(_, mut c) = z {
                for _ in 0..100 {
                    if c.egest().is_none() {
                        break;
                    }
                }
            }
        }));
        if res.is_err() {
            return Verdict::Skip("range exhausted");
        }
        peaks[i] = alloc::peak() - before;
    }
    cx.st.count("work on operands of two lengths");
    cx.st.max("operand symbols", long as u64);
    if peaks[1] > peaks[0] + 3000 {
        return Verdict::Fail(format!("{}: {} bytes of heap grow to {} bytes from 400 symbols to {}", text, peaks[0], peaks[1], long));
    }
    Verdict::Pass(true)
}
