//! Monitors of resources other than the heap: stack depth and processor time.

use crate::exec::*;
use crate::expr::*;
use crate::gen::*;
use crate::model::*;
use crate::props::Cx;
use crate::rng::Rng;
use crate::trace;
use clarith::Number;
use std::ptr::{read_volatile, write_volatile};

// ---------------------------------------------------------------- C18

const DEEP: usize = 4 << 20;
const NEAR: usize = 4096;
const PAINT: u64 = 0x5A3C_96E1_0FB4_87D2;

/// Runs `f` and tells how many bytes of stack it touched (at least NEAR, at most DEEP).
#[inline(never)]
fn stack_used<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let here = 0u64;
    let top = (&here as *const u64 as usize) & !7;
    // this thread's stack is far larger than DEEP, and nothing below here is in use
    let low = top - DEEP;
    let mut p = top - NEAR;
    while p > low {
        p -= 8;
        unsafe { write_volatile(p as *mut u64, PAINT) };
    }
    let v = f();
    let mut p = low;
    while p < top - NEAR && unsafe { read_volatile(p as *const u64) } == PAINT {
        p += 8;
    }
    (v, top - p)
}

/// Stack a program may use: a part for each operation, and one for the caller and the runtime.
fn allowance(operations: u64) -> usize {
    (operations as usize + 1) * 4096 + 48 * 1024
}

/// A tiny number with a long run of Amplify at its beginning: how it is made, and how many operations it takes.
enum Tiny {
    Fed(trace::Feed),
    Chain(Expr, u64),
}

impl Tiny {
    fn random(r: &mut Rng, len: usize, tail: bool) -> Tiny {
        if trace::HOOK && r.chance(4, 5) {
            let mut start = vec![Sym::A; len];
            if tail {
                let n = r.range(0, 12) as usize;
                start.extend(symbols(r, n));
            }
            let head = *r.pick(&[Head::Plain, Head::Reflect]);
            return Tiny::Fed(trace::Feed { head, start, cycle: vec![], noise: None });
        }
        let n = (len / 60).min(100) as u64;
        let e = if tail { leaf(r, 8) } else { Expr::R(1, 2) };
        Tiny::Chain(e, n)
    }
    fn operations(&self) -> u64 {
        match self {
            Tiny::Fed(_) => 1,
            Tiny::Chain(_, n) => n + 1,
        }
    }
    fn make(&self) -> Number {
        match self {
            Tiny::Fed(f) => trace::feed(f),
            Tiny::Chain(e, n) => (0..*n).fold(e.build(), |x, _| hom(x, &[1, 0, 0, 1 << 60])),
        }
    }
    fn show(&self) -> String {
        match self {
            Tiny::Fed(f) => format!("[{:?} A*{} {}]", f.head, f.start.iter().take_while(|s| **s == Sym::A).count(), {
                let s = show_syms(&f.start);
                s.trim_start_matches('A').to_string()
            }),
            Tiny::Chain(e, n) => format!("[{} divided {} times by 2^60]", e.show(), n),
        }
    }
}

fn read(z: Number, most: u64) -> u64 {
    let mut n = 0;
    if let Number::Other(_, mut c) = z {
        while n < most && c.egest().is_some() {
            n += 1;
        }
    }
    n
}

pub fn c18(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let len = if cx.thorough && r.chance(1, 10) { r.range(20_000, 200_000) } else { r.range(2_000, 8_000) } as usize;
    let wrap: Vec<[i64; 4]> = (0..r.below(3)).map(|_| *r.pick(&[[1, 0, 0, 1], [-1, 0, 0, 1], [0, 1, 1, 0], [0, -1, 1, 0]])).collect();
    let mut operations = wrap.len() as u64 + 1;
    let (res, used, text) = match r.below(8) {
        0 => {
            // constant, but only the end of the operand tells
            let x = Tiny::random(r, len, true);
            let k = *r.pick(&[[1, 0, 1, 0], [-1, 0, 1, 0], [3, 0, -3, 0], [0, 0, 1, 0], [0, 0, -5, 0]]);
            operations += x.operations();
            let (res, used) = stack_used(|| guarded(|| read(wrap.iter().fold(hom(x.make(), &k), |z, k| hom(z, k)), 100)));
            (res, used, format!("homographic {:?} of {}, then {:?}", k, x.show(), wrap))
        }
        1..=3 => {
            // quotients and other ratios of two tiny numbers
            let (x, y) = (Tiny::random(r, len, true), Tiny::random(r, len, true));
            let s = |r: &mut Rng| *r.pick(&[1i64, -1, 1, 2, -3]);
            let k = match r.below(4) {
                0 => [0, s(r), 0, 0, 0, 0, s(r), 0],
                1 => [0, 0, s(r), 0, 0, s(r), 0, 0],
                2 => [0, s(r), s(r), 0, 0, s(r), s(r), 0],
                _ => [s(r), 0, 0, 0, s(r), 0, 0, 0],
            };
            operations += x.operations() + y.operations();
            let (res, used) = stack_used(|| guarded(|| read(wrap.iter().fold(comb(x.make(), y.make(), &k), |z, k| hom(z, k)), 100)));
            (res, used, format!("combine {:?} of {} and {}, then {:?}", k, x.show(), y.show(), wrap))
        }
        4 => {
            // agreement for a long time
            let (x, y) = (Tiny::random(r, len, true), Tiny::random(r, len, true));
            operations += x.operations() + y.operations();
            let (res, used) = stack_used(|| guarded(|| Number::compare(x.make(), y.make()) as i32 as u64));
            (res.map(|_| len as u64), used, format!("compare {} and {}", x.show(), y.show()))
        }
        5 | 6 => {
            // delivery for a long time
            let (x, n) = if trace::HOOK {
                (Tiny::Fed(trace::Feed::endless(r)), len as u64)
            } else {
                (Tiny::Chain(Expr::V(true, u64::MAX >> r.below(3), (u64::MAX >> 3) - r.below(1 << 40)), 0), u64::MAX)
            };
            operations += x.operations();
            let (res, used) = stack_used(|| guarded(|| read(wrap.iter().fold(x.make(), |z, k| hom(z, k)), n)));
            (res, used, format!("{} symbols of {:?} of {}", n, wrap, x.show()))
        }
        _ => {
            let z = Size { leaf: 16, coef: 8 };
            let e = expr(r, 3, z);
            operations += e.size() as u64;
            let (res, used) = stack_used(|| guarded(|| read(e.build(), u64::MAX)));
            (res, used, e.show())
        }
    };
    cx.st.sign(&text);
    cx.st.describe(|| text.clone());
    match res {
        // reporting a failure takes stack of its own
        Err(_) => {
            cx.st.count("failing programs");
            Verdict::Pass(false)
        }
        Ok(n) => {
            cx.st.count("programs");
            cx.st.add("symbols delivered", n);
            cx.st.max("deepest stack (bytes)", used as u64);
            cx.st.max("deepest stack (percent of allowance)", (used * 100 / allowance(operations)) as u64);
            if used > allowance(operations) {
                return Verdict::Fail(format!("{}: {} operations use {} bytes of stack", text, operations, used));
            }
            Verdict::Pass(true)
        }
    }
}

// ---------------------------------------------------------------- C19

#[repr(C)]
struct Timespec {
    sec: i64,
    nano: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time of this thread in nanoseconds.
fn spent() -> u64 {
    let mut t = Timespec { sec: 0, nano: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nano as u64
}

/// Processor time and elapsed time in nanoseconds.
#[derive(Clone, Copy)]
struct Cost {
    work: u64,
    wall: u64,
}

impl Cost {
    const MAX: Cost = Cost { work: u64::MAX, wall: u64::MAX };
    fn min(self, o: Cost) -> Cost {
        Cost { work: self.work.min(o.work), wall: self.wall.min(o.wall) }
    }
}

fn timed<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let (start, began) = (spent(), std::time::Instant::now());
    let v = f();
    (v, Cost { work: spent() - start, wall: began.elapsed().as_nanos() as u64 })
}

/// Cost of a small and of a large piece of work, and how much more the large one may cost.
struct Costs {
    small: Cost,
    large: Cost,
    factor: u64,
}

impl Costs {
    fn allowed(&self) -> u64 {
        self.factor * self.small.work + 1_000_000
    }
    /// Elapsed time depends on what else the machine does; only waiting that cannot come from there counts.
    fn fine(&self) -> bool {
        self.large.work <= self.allowed() && self.large.wall <= self.factor * self.small.wall + 300_000_000
    }
}

/// The cheapest of some stretches of `n` symbols at the beginning and at the end of `total` symbols.
fn stretches(z: Number, n: u64, total: u64, factor: u64) -> Option<Costs> {
    let (mut small, mut large) = (Cost::MAX, Cost::MAX);
    if let Number::Other(_, mut c) = z {
        for i in 0..total / n {
            let (ok, t) = timed(|| (0..n).all(|_| c.egest().is_some()));
            if !ok {
                return None;
            }
            if i < 3 {
                small = small.min(t);
            }
            if i + 3 >= total / n {
                large = large.min(t);
            }
        }
        return Some(Costs { small, large, factor });
    }
    None
}

/// The same over many copies of a short sequence.
fn copies(make: impl Fn() -> Number, n: u64, total: u64, factor: u64) -> Option<Costs> {
    let none = Cost { work: 0, wall: 0 };
    let (mut small, mut large) = (none, none);
    let add = |c: &mut Cost, t: Cost| *c = Cost { work: c.work + t.work, wall: c.wall + t.wall };
    for _ in 0..400 {
        if let Number::Other(_, mut c) = make() {
            let mut part = |n: u64| timed(|| (0..n).all(|_| c.egest().is_some()));
            part(20);
            let (a, t) = part(n);
            add(&mut small, t);
            let (b, _) = part(total - 2 * n - 20);
            let (c, t) = part(n);
            add(&mut large, t);
            if !(a && b && c) {
                return None;
            }
        }
    }
    Some(Costs { small, large, factor })
}

/// Cost of what grows in proportion to `n`, at n and at 16 n.
fn growth(n: usize, mut f: impl FnMut(usize)) -> Costs {
    let small = (0..3).fold(Cost::MAX, |c, _| c.min(timed(|| f(n)).1));
    let large = timed(|| f(16 * n)).1;
    Costs { small, large, factor: 16 * 6 }
}

pub fn c19(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let kind = r.below(6);
    let seed = r.next();
    let mut text = String::new();
    let mut worst = None;
    let mut measured = false;
    for attempt in 0..3 {
        // the same work in every attempt
        let mut r = Rng::new(seed, 5);
        let r = &mut r;
        let wrap: Vec<[i64; 4]> = (0..r.below(4)).map(|_| *r.pick(&[[1, 0, 0, 1], [-1, 0, 0, 1], [0, 1, 1, 0], [0, -1, 1, 0]])).collect();
        let wrapped = |x: Number| wrap.iter().fold(x, |z, k| hom(z, k));
        let long = if cx.thorough { 4 } else { 1 };
        let fed = |f: &trace::Feed, n: usize| {
            let mut f = f.clone();
            f.start.splice(0..0, std::iter::repeat(Sym::A).take(n));
            trace::feed(&f)
        };
        let c = guarded(|| match kind {
            0 | 1 if trace::HOOK => {
                let f = trace::Feed::endless(r);
                text = format!("64000 symbols of {:?} of [{}]", wrap, f.show());
                stretches(wrapped(trace::feed(&f)), 2000, 64_000 * long, 8)
            }
            2 if trace::HOOK => {
                let mut f = trace::Feed::endless(r);
                f.cycle = vec![];
                f.noise = None;
                text = format!("comparing [{}] with itself behind 2000 and 32000 symbols", f.show());
                let s = symbols(r, 32_000);
                Some(growth(2000, |n| {
                    let mut f = f.clone();
                    f.start.splice(0..0, s[..n].iter().copied());
                    Number::compare(trace::feed(&f), trace::feed(&f));
                }))
            }
            3 if trace::HOOK => {
                let n = r.below(10) as usize;
                let f = trace::Feed { head: Head::Plain, start: symbols(r, n), cycle: vec![], noise: None };
                let k = *r.pick(&[[0, 1, 0, 0, 0, 0, 1, 0], [0, 1, 1, 0, 0, 0, 1, 0], [1, 0, 0, 0, 3, 0, 0, 0]]);
                text = format!("combine {:?} of [{}] and 3/7, both 2000 and 32000 times halved", k, f.show());
                let y = trace::Feed { head: Head::Plain, start: vec![Sym::A, Sym::U, Sym::A], cycle: vec![], noise: None };
                Some(growth(2000, |n| {
                    read(comb(fed(&f, n), fed(&y, n), &k), 100);
                }))
            }
            4 => {
                // more operations on top of each other
                let e = leaf(r, 16);
                match r.below(3) {
                    0 => {
                        text = format!("100 symbols of {}, 10 and 160 times divided by 2^12", e.show());
                        Some(growth(10, |n| {
                            read((0..n).fold(e.build(), |x, _| hom(x, &[1, 0, 0, 1 << 12])), 100);
                        }))
                    }
                    1 => {
                        let k = *r.pick(&[[1, 0, 0, 1], [-1, 0, 0, 1], [0, 1, 1, 0], [0, -1, 1, 0]]);
                        text = format!("{}, 60 and 960 times transformed by {:?}", e.show(), k);
                        Some(growth(60, |n| {
                            read((0..n).fold(e.build(), |x, _| hom(x, &k)), 200);
                        }))
                    }
                    _ => {
                        let (p, q) = (r.range(1, 6) as isize, r.range(7, 12) as isize);
                        text = format!("{}, 30 and 480 times multiplied and divided by {}/{}", e.show(), p, q);
                        Some(growth(30, |n| {
                            let mut z = e.build();
                            for _ in 0..n {
                                z = comb(z, Number::ratio(p, q), &[1, 0, 0, 0, 0, 0, 0, 1]);
                                z = comb(z, Number::ratio(p, q), &[0, 1, 0, 0, 0, 0, 1, 0]);
                            }
                            read(z, 200);
                        }))
                    }
                }
            }
            _ => {
                if r.chance(1, 2) {
                    // the longest sequences of ratios
                    let (n, d) = *r.pick(&[(1, 0), (2, 0), (1, 1), (1, 2)]);
                    let e = Expr::V(r.chance(1, 2), n, (i64::MAX as u64) >> d);
                    let total = [2000, 1930, 1850][d as usize];
                    text = format!("symbols of {:?} of 400 copies of {}", wrap, e.show());
                    return copies(|| wrapped(e.build()), 200, total, 8);
                }
                let e = Expr::V(true, u64::MAX - r.below(4), u64::MAX - 5 - r.below(4));
                text = format!("symbols of {:?} of {}", wrap, e.show());
                stretches(wrapped(e.build()), 60, 2000, 8)
            }
        });
        match c {
            Ok(Some(c)) => {
                cx.st.count("measurements");
                measured = true;
                if c.fine() {
                    worst = None;
                    cx.st.max("largest cost (percent of allowance)", c.large.work * 100 / c.allowed());
                    break;
                }
                worst = Some(c);
                if attempt < 2 {
                    cx.st.count("measurements repeated");
                }
            }
            Ok(None) => break,
            Err(_) => {
                cx.st.count("failing programs");
                break;
            }
        }
    }
    cx.st.sign(&text);
    cx.st.describe(|| text.clone());
    match worst {
        Some(c) => Verdict::Fail(format!("{}: {} ns of work ({} ns elapsed) grow to {} ({}), allowed are {} times as much", text, c.small.work, c.small.wall, c.large.work, c.large.wall, c.factor)),
        None => Verdict::Pass(measured),
    }
}
