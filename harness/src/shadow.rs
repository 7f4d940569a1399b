//! How large the working coefficients of Gosper's algorithm get for a program, on
//! the canonical symbols of its operands. Used only to decide whether a
//! *failure* of the code under test may be put down to exhausted integer range:
//! everything below 2^60 must have worked.

use crate::big::*;
use crate::expr::*;
use crate::model::*;

type I = i128;
const LIMIT: I = 1 << 60;

struct TooBig;
type R<T> = Result<T, TooBig>;

/// Symbols of an operand.
pub trait Source {
    fn next(&mut self) -> Option<Sym>;
}

impl Source for Canon {
    fn next(&mut self) -> Option<Sym> {
        Canon::next(self)
    }
}

impl Source for Box<dyn FnMut() -> Option<Sym>> {
    fn next(&mut self) -> Option<Sym> {
        self()
    }
}

/// A special value, or the head and the symbols of a number.
type Operand<S> = (Head, Option<S>);

fn chk(v: I) -> R<I> {
    if v.abs() >= LIMIT {
        Err(TooBig)
    } else {
        Ok(v)
    }
}

fn fix(mut n: I, mut d: I) -> (I, I) {
    if d == 0 {
        n = n.signum()
    }
    if d < 0 {
        n = -n;
        d = -d
    }
    if n == 0 {
        d = 1
    }
    (n, d)
}

fn widen(r: (I, I, I, I), n: I, d: I) -> R<(I, I, I, I)> {
    let (a, b) = fix(r.0, r.1);
    let (c, e) = fix(r.2, r.3);
    let (n, d) = fix(n, d);
    let (p, q, s, t) = (chk(n * b)?, chk(a * d)?, chk(n * e)?, chk(c * d)?);
    Ok(if p < q {
        (n, d, c, e)
    } else if s > t {
        (a, b, n, d)
    } else {
        (a, b, c, e)
    })
}

fn evn(v: &[I]) -> bool {
    v.iter().all(|x| x % 2 == 0)
}

fn with_head(h: Head, mut k: [I; 4]) -> [I; 4] {
    if matches!(h, Head::Reflect | Head::Ground) {
        k[0] = -k[0];
        k[2] = -k[2];
    }
    if matches!(h, Head::Turn | Head::Ground) {
        k.swap(0, 1);
        k.swap(2, 3);
    }
    k
}

/// `told` counts what was delivered before the range was exhausted, the head included.
fn hom<S: Source>(x: Operand<S>, k: [I; 4], told: &mut u64) -> R<()> {
    for v in k {
        chk(v)?;
    }
    if k[0] == 0 && k[2] == 0 || k[2] == 0 && k[3] == 0 {
        return Ok(());
    }
    let mut c = match x.1 {
        None => {
            let s = if x.0 == Head::NegOne { -1 } else { 1 };
            chk(k[1] + s * k[0])?;
            chk(k[3] + s * k[2])?;
            return Ok(());
        }
        Some(c) => c,
    };
    let mut k = with_head(x.0, k);
    let mut primed = false;
    for _ in 0..20000 {
        for v in k {
            chk(2 * v)?;
        }
        let [nx, n, dx, d] = k;
        let (n1, d1) = (nx + n, dx + d);
        // the two extremes may be put in order by the determinant as well
        chk(nx * d)?;
        chk(n * dx)?;
        let am = |m: I, s: I| m == 0 || s == 0 || m.signum() == s.signum();
        let mut done = false;
        if am(n, n1) && am(d, d1) && !(n == 0 && d == 0) && !(n1 == 0 && d1 == 0) {
            let v0 = if d == 0 { n.signum() * d1.signum() } else { n };
            let v1 = if d1 == 0 { n1.signum() * d.signum() } else { n1 };
            let (a, b, e, f) = widen((v0, d, v0, d), v1, d1)?;
            if !primed {
                let sp = b != 0 && (a == 0 || a == b || a == -b);
                if !(a == e && b == f && sp) {
                    // b and f are never negative here; zero means infinite
                    let ge = |p: I, q: I, v: I| p >= v * q && (q > 0 || p > 0);
                    let le = |p: I, q: I, v: I| p <= v * q && (q > 0 || p < 0);
                    done = true;
                    if le(e, f, -1) {
                        k = [-dx, -d, nx, n];
                    } else if ge(a, b, 1) {
                        k = [dx, d, nx, n];
                    } else if ge(a, b, -1) && le(e, f, 0) {
                        k = [-nx, -n, dx, d];
                    } else if ge(a, b, 0) && le(e, f, 1) {
                    } else {
                        done = false;
                    }
                    primed = done;
                    // a combination that ended here has told its head before
                    if done && *told == 0 {
                        *told = 1;
                    }
                }
            } else {
                if 2 * a == b && 2 * e == f {
                    return Ok(());
                }
                done = true;
                if 2 * e <= f {
                    if evn(&[dx, d]) {
                        k = [nx, n, dx / 2, d / 2];
                    } else {
                        k = [2 * nx, 2 * n, dx, d];
                    }
                } else if 2 * a >= b {
                    k = [dx - nx, d - n, nx, n];
                } else {
                    done = false;
                }
                *told += done as u64;
            }
        }
        if done {
            continue;
        }
        match c.next() {
            None => {
                chk(nx + 2 * n)?;
                chk(dx + 2 * d)?;
                return Ok(());
            }
            Some(Sym::A) => {
                k = if evn(&[nx, dx]) { [nx / 2, n, dx / 2, d] } else { [nx, 2 * n, dx, 2 * d] };
            }
            Some(Sym::U) => k = [n, n1, d, d1],
        }
    }
    Err(TooBig)
}

/// With `single`, one operand is read at a time and the result looked at in between.
fn comb<S: Source>(x: Operand<S>, y: Operand<S>, mut k: [I; 8], single: bool, told: &mut u64) -> R<()> {
    for v in k {
        chk(v)?;
    }
    let special = |h: Head| match h {
        Head::NegOne => -1,
        Head::PosOne => 1,
        _ => 0,
    };
    let (mut cx, mut cy) = match (x.1, y.1) {
        (None, y1) => {
            let s = special(x.0);
            return hom((y.0, y1), [k[2] + s * k[0], k[3] + s * k[1], k[6] + s * k[4], k[7] + s * k[5]], told);
        }
        (x1, None) => {
            let s = special(y.0);
            return hom((x.0, x1), [k[1] + s * k[0], k[3] + s * k[2], k[5] + s * k[4], k[7] + s * k[6]], told);
        }
        (Some(a), Some(b)) => (a, b),
    };
    let swap = |k: &mut [I; 8], s: &[(usize, usize)]| {
        for (i, j) in s {
            k.swap(*i, *j)
        }
    };
    let neg = |k: &mut [I; 8], s: [usize; 4]| {
        for i in s {
            k[i] = -k[i]
        }
    };
    if matches!(x.0, Head::Turn | Head::Ground) {
        swap(&mut k, &[(0, 2), (1, 3), (4, 6), (5, 7)]);
    }
    if matches!(x.0, Head::Reflect | Head::Ground) {
        neg(&mut k, [0, 1, 4, 5]);
    }
    if matches!(y.0, Head::Turn | Head::Ground) {
        swap(&mut k, &[(0, 1), (2, 3), (4, 5), (6, 7)]);
    }
    if matches!(y.0, Head::Reflect | Head::Ground) {
        neg(&mut k, [0, 2, 4, 6]);
    }
    let mut primed = false;
    let mut second = false;
    for _ in 0..40000 {
        for v in k {
            chk(2 * v)?;
        }
        let [a, b, c, d, e, f, g, h] = k;
        let cor = [(d, h), (c + d, g + h), (b + d, f + h), (a + b + c + d, e + f + g + h)];
        for v in [b + c, f + g, a + b + c, e + f + g] {
            chk(v)?;
        }
        for (u, v) in cor {
            chk(u)?;
            chk(v)?;
        }
        let one = |f: &dyn Fn(&(I, I)) -> I| {
            let s = f(&cor[0]).signum();
            s != 0 && cor.iter().all(|c| f(c).signum() == s)
        };
        let mut done = false;
        if one(&|c| c.0) && one(&|c| c.1) {
            let mut r = (d, h, d, h);
            for c in &cor[1..] {
                r = widen(r, c.0, c.1)?;
            }
            // in whatever order the corners are compared
            for c in &cor {
                for o in &cor {
                    chk(c.0 * o.1)?;
                }
            }
            let (n0, d0, n1, d1) = r;
            done = true;
            if !primed {
                if n1 < -d1 {
                    k = [-e, -f, -g, -h, a, b, c, d];
                } else if n0 > -d0 && n1 < 0 {
                    k = [-a, -b, -c, -d, e, f, g, h];
                } else if n0 > 0 && n1 < d1 {
                } else if n0 > d0 {
                    k = [e, f, g, h, a, b, c, d];
                } else {
                    done = false;
                }
                primed = done;
            } else if 2 * n1 < d1 {
                if evn(&[e, f, g, h]) {
                    k = [a, b, c, d, e / 2, f / 2, g / 2, h / 2];
                } else {
                    k = [2 * a, 2 * b, 2 * c, 2 * d, e, f, g, h];
                }
            } else if 2 * n0 > d0 {
                k = [e - a, f - b, g - c, h - d, a, b, c, d];
            } else {
                done = false;
            }
            *told += done as u64;
        }
        if done {
            continue;
        }
        if !second {
            match cx.next() {
                None => {
                    let kk = if evn(&[a, b, e, f]) {
                        [c + a / 2, d + b / 2, g + e / 2, h + f / 2]
                    } else {
                        [a + 2 * c, b + 2 * d, e + 2 * g, f + 2 * h]
                    };
                    return hom((Head::Plain, Some(cy)), kk, told);
                }
                Some(Sym::A) => {
                    k = if evn(&[a, b, e, f]) {
                        [a / 2, b / 2, c, d, e / 2, f / 2, g, h]
                    } else {
                        [a, b, 2 * c, 2 * d, e, f, 2 * g, 2 * h]
                    }
                }
                Some(Sym::U) => k = [c, d, a + c, b + d, g, h, e + g, f + h],
            }
        }
        if single && !second {
            second = true;
            continue;
        }
        second = false;
        for v in k {
            chk(2 * v)?;
        }
        let [a, b, c, d, e, f, g, h] = k;
        match cy.next() {
            None => {
                let kk = if evn(&[a, c, e, g]) {
                    [b + a / 2, d + c / 2, f + e / 2, h + g / 2]
                } else {
                    [a + 2 * b, c + 2 * d, e + 2 * f, g + 2 * h]
                };
                return hom((Head::Plain, Some(cx)), kk, told);
            }
            Some(Sym::A) => {
                k = if evn(&[a, c, e, g]) {
                    [a / 2, b, c / 2, d, e / 2, f, g / 2, h]
                } else {
                    [a, 2 * b, c, 2 * d, e, 2 * f, g, 2 * h]
                }
            }
            Some(Sym::U) => k = [b, a + b, d, c + d, f, e + f, h, g + h],
        }
    }
    Err(TooBig)
}

fn consume(x: (Head, Option<Canon>)) -> R<()> {
    let mut c = match x.1 {
        None => return Ok(()),
        Some(c) => c,
    };
    let mut k = with_head(x.0, [1, 0, 0, 1]);
    loop {
        let [nx, n, dx, d] = k;
        match c.next() {
            None => {
                // the harness rebuilds the number from these coefficients
                let half = Canon { n: U::from(1), d: U::from(2) };
                return hom((Head::Plain, Some(half)), k, &mut 0);
            }
            Some(Sym::A) => k = if evn(&[nx, dx]) { [nx / 2, n, dx / 2, d] } else { [nx, 2 * n, dx, 2 * d] },
            Some(Sym::U) => k = [n, nx + n, d, dx + d],
        }
        for v in k {
            chk(v)?;
        }
    }
}

fn told(f: impl FnOnce(&mut u64) -> R<()>) -> u64 {
    let mut n = 0;
    match f(&mut n) {
        Ok(()) => u64::MAX,
        Err(TooBig) => n,
    }
}

/// How much a transformation must deliver at least, the head included; u64::MAX stands for everything.
pub fn assured_of<S: Source>(x: Operand<S>, k: [i64; 4]) -> u64 {
    told(|n| hom(x, k.map(|c| c as I), n))
}

/// Nothing says which operand is read first, whether both are read at once, nor that an operand without influence is read at all.
pub fn assured_of_two<S: Source>(x: &dyn Fn() -> Operand<S>, y: &dyn Fn() -> Operand<S>, k: [i64; 8]) -> u64 {
    let k = k.map(|c| c as I);
    let [a, b, c, d, e, f, g, h] = k;
    let mut least = u64::MAX;
    for single in [false, true] {
        least = least.min(told(|n| comb(x(), y(), k, single, n)));
        least = least.min(told(|n| comb(y(), x(), [a, c, b, d, e, g, f, h], single, n)));
    }
    if [a, c, e, g] == [0; 4] {
        least = least.min(told(|n| hom(x(), [b, d, f, h], n)));
    }
    if [a, b, e, f] == [0; 4] {
        least = least.min(told(|n| hom(y(), [c, d, g, h], n)));
    }
    least
}

/// How much a program must deliver at least. Zero where an operand may fail.
pub fn assured(e: &Expr) -> u64 {
    match e {
        Expr::H(x, k) if roomy(x) => x.eval().map_or(u64::MAX, |v| assured_of(represent(&v), *k)),
        Expr::C(x, y, k) if roomy(x) && roomy(y) => match (x.eval(), y.eval()) {
            (Ok(v), Ok(w)) => assured_of_two(&|| represent(&v), &|| represent(&w), *k),
            _ => u64::MAX,
        },
        Expr::H(..) | Expr::C(..) => 0,
        _ if roomy(e) => u64::MAX,
        _ => 0,
    }
}

/// True when no step of the program comes near the machine integer limit, so that
/// only a zero denominator may make it fail. Programs with a zero denominator
/// inside are walked up to that point.
pub fn roomy(e: &Expr) -> bool {
    match e {
        Expr::R(..) | Expr::V(..) => true,
        Expr::T(x, _) | Expr::P(x, _) => roomy(x),
        Expr::K(x) => roomy(x) && x.eval().map_or(true, |v| consume(represent(&v)).is_ok()),
        Expr::H(..) | Expr::C(..) => assured(e) == u64::MAX,
    }
}
