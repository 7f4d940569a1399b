//! Operands with thousands of symbols that operations can follow without large
//! coefficients: a simple number divided by a high power of two.

use crate::big::*;
use crate::exec::*;
use crate::expr::*;
use crate::gen::symbols;
use crate::model::*;
use crate::props::Cx;
use crate::rng::Rng;
use crate::trace;
use clarith::Number;

const ONES: [[i64; 4]; 4] = [[1, 0, 0, 1], [-1, 0, 0, 1], [0, 1, 1, 0], [0, -1, 1, 0]];

/// w / 2^n with w a ratio.
struct Tiny {
    w: (i64, i64),
    n: u64,
    /// rebuilt as one of ONES of itself, of which so many symbols are read
    rest: Option<(usize, u64)>,
}

impl Tiny {
    fn random(r: &mut Rng, n: u64) -> Tiny {
        let top = *r.pick(&[3, 8, 30]);
        let d = r.range(2, top);
        let p = 1 + r.below(d as u64 - 1) as i64;
        let p = if r.chance(1, 2) { p } else { -p };
        let n = if trace::HOOK { n } else { n.min(3000) / 60 * 60 };
        Tiny { w: (p, d), n, rest: None }
    }
    /// Numerator and denominator of the value, and the power of two it is divided by.
    fn value(&self) -> (i64, i64, u64) {
        match self.rest {
            None => (self.w.0, self.w.1, self.n),
            Some((_, k)) => (self.w.0.abs(), self.w.1, self.n - k),
        }
    }
    fn make(&self) -> Number {
        let x = if trace::HOOK {
            let (head, c) = represent(&Q::new(Z::from(self.w.0 as i128), Z::from(self.w.1 as i128)).unwrap());
            let mut c = c.unwrap();
            let mut start = vec![Sym::A; self.n as usize];
            while let Some(s) = c.next() {
                start.push(s);
            }
            trace::feed(&trace::Feed { head, start, cycle: vec![], noise: None })
        } else {
            (0..self.n / 60).fold(Number::ratio(self.w.0 as isize, self.w.1 as isize), |x, _| hom(x, &[1, 0, 0, 1 << 60]))
        };
        match self.rest {
            None => x,
            Some((f, k)) => match hom(x, &ONES[f]) {
                Number::Other(_, mut c) => {
                    for _ in 0..k {
                        c.egest();
                    }
                    Number::Other(None, c)
                }
                s => s,
            },
        }
    }
    fn show(&self) -> String {
        let x = format!("{}/{}/2^{}", self.w.0, self.w.1, self.n);
        match self.rest {
            None => x,
            Some((f, k)) => format!("rest of {:?} of {} after {} symbols", ONES[f], x, k),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    One,
    Two,
    Pole,
    Rest,
}

/// p/q/2^m: head and symbols.
struct Long {
    head: Head,
    amplify: u64,
    then: Option<Canon>,
}

fn long(p: i64, q: i64, m: u64, reciprocal: bool) -> Option<Long> {
    let q = Q::new(Z::from(p as i128), Z::from(q as i128))?;
    if m == 0 || q.n.is_zero() {
        let q = if reciprocal { Q::new(if q.n.neg { Z::u(q.d).neg() } else { Z::u(q.d) }, Z::u(q.n.m))? } else { q };
        let (head, then) = represent(&q);
        return Some(Long { head, amplify: 0, then });
    }
    let (mut c, mut amplify) = (Canon { n: q.n.m, d: q.d }, m);
    // into (0,1), one Amplify for each halving that is still due
    while c.n.cmp(&c.d) != std::cmp::Ordering::Less {
        c.d = c.d.dbl();
        amplify -= 1;
    }
    let head = match (q.n.neg, reciprocal) {
        (false, false) => Head::Plain,
        (true, false) => Head::Reflect,
        (false, true) => Head::Turn,
        (true, true) => Head::Ground,
    };
    Some(Long { head, amplify, then: Some(c) })
}

/// A projection: whatever the other operand, the symbols of one operand come through.
fn echo(cx: &mut Cx, kind: Kind) -> Verdict {
    let r = &mut cx.r;
    let n = match r.below(60) {
        0 => r.range(65_000, 140_000),
        1..=8 => r.range(3000, 12_000),
        _ => r.range(100, 3000),
    };
    let operand = |r: &mut Rng, n: i64| {
        let mut f = trace::Feed::random(r);
        let more = symbols(r, n as usize);
        f.start.extend(more);
        f.cycle = vec![];
        f.noise = None;
        f
    };
    let x = operand(r, n);
    let m = if r.chance(1, 2) { r.range(0, 12) } else { n };
    let y = operand(r, m);
    let (neg, inv) = (r.chance(1, 2), r.chance(1, 2));
    let s = if neg { -1 } else { 1 };
    let c = r.range(1, 4);
    let (text, made) = if kind == Kind::Two {
        // s*x/1 or s*1/x, both terms multiplied by 1 or by a form of y alone
        let f = if r.chance(1, 3) && matches!(y.head, Head::Plain | Head::Turn) { [1, c] } else { [0, c] };
        let mut k = if inv { [0, 0, s * f[0], s * f[1], f[0], f[1], 0, 0] } else { [s * f[0], s * f[1], 0, 0, 0, 0, f[0], f[1]] };
        let swap = r.chance(1, 2);
        if swap {
            k.swap(1, 2);
            k.swap(5, 6);
        }
        let text = format!("combine {:?} of {}[{:?} with {} symbols] and [{:?} with {} symbols]", k, if swap { "exchanged " } else { "" }, x.head, x.start.len(), y.head, y.start.len());
        (text, guarded(|| if swap { comb(trace::feed(&y), trace::feed(&x), &k) } else { comb(trace::feed(&x), trace::feed(&y), &k) }))
    } else {
        let k = if inv { [0, s * c, c, 0] } else { [s * c, 0, 0, c] };
        (format!("homographic {:?} of [{:?} with {} symbols]", k, x.head, x.start.len()), guarded(|| hom(trace::feed(&x), &k)))
    };
    cx.st.sign(&(&text, &x.start, &y.start));
    cx.st.describe(|| text.clone());
    cx.st.count("long projections");
    let (negative, above) = (matches!(x.head, Head::Reflect | Head::Ground) ^ neg, matches!(x.head, Head::Turn | Head::Ground) ^ inv);
    let head = match (negative, above) {
        (false, false) => Head::Plain,
        (true, false) => Head::Reflect,
        (false, true) => Head::Turn,
        (true, true) => Head::Ground,
    };
    let made = match made {
        Ok(z) => z,
        Err(e) if is_divzero(&e) || forbidden(&e) => return Verdict::Fail(format!("{} fails with: {}", text, e)),
        Err(_) => return Verdict::Skip("range exhausted while building"),
    };
    if head_of(&made) != head {
        return Verdict::Fail(format!("{}: must start as {:?} but starts as {:?}", text, head, head_of(&made)));
    }
    let mut n = 0u64;
    if let Number::Other(_, mut c) = made {
        let mut want = x.symbols();
        loop {
            let w = want();
            match guarded(|| c.egest().map(|s| sym_of(&s))) {
                Ok(s) if s == w => {
                    if s.is_none() {
                        break;
                    }
                    n += 1;
                }
                Ok(s) => return Verdict::Fail(format!("{}: symbol {} must be {:?} but is {:?}", text, n, w, s)),
                Err(e) if is_divzero(&e) || forbidden(&e) => return Verdict::Fail(format!("{}: symbol {} fails with: {}", text, n, e)),
                Err(_) => {
                    cx.st.add("symbols of projections", n);
                    cx.st.max("symbols of one projection", n);
                    return Verdict::Skip("range exhausted while reading");
                }
            }
        }
    }
    cx.st.add("symbols of projections", n);
    cx.st.max("symbols of one projection", n);
    Verdict::Pass(true)
}

pub fn case(cx: &mut Cx, kind: Kind) -> Verdict {
    if trace::HOOK && matches!(kind, Kind::One | Kind::Two) && cx.r.chance(1, 2) {
        return echo(cx, kind);
    }
    let r = &mut cx.r;
    let n = match r.below(40) {
        0 => r.range(65_000, 140_000),
        1..=8 => r.range(3000, 12_000),
        _ => r.range(200, 3000),
    } as u64;
    let mut x = Tiny::random(r, n);
    let mut y = Tiny::random(r, n);
    if kind == Kind::Rest {
        let k = r.below(x.n - 80);
        x.rest = Some((r.below(4) as usize, k));
        y.rest = Some((r.below(4) as usize, k + r.below(16)));
    }
    if kind != Kind::One && r.chance(1, 2) {
        // close relatives
        let f = *r.pick(&[1i64, 1, -1]);
        y = Tiny { w: (f * x.w.0, x.w.1), n: x.n, rest: x.rest };
    }
    let coef = |r: &mut Rng| {
        let top = *r.pick(&[1, 3, 20]);
        let v = r.range(1, top);
        if r.chance(1, 2) { v } else { -v }
    };
    let (a, b, d) = (coef(r), coef(r), coef(r));
    let ((xp, xq, xn), (yp, yq, yn)) = (x.value(), y.value());
    let reciprocal = r.chance(1, 3);
    let one = kind == Kind::One || kind == Kind::Rest && r.chance(1, 2);
    // what is made, and p/q/2^m (or its reciprocal) that it must be
    let (text, made, p, q, m) = if one {
        let k = if reciprocal { [0, d, a, 0] } else { [a, 0, 0, d] };
        let text = format!("homographic {:?} of {}", k, x.show());
        (text, guarded(|| hom(x.make(), &k)), a * xp, d * xq, xn)
    } else {
        // ratios of linear forms: the powers of two cancel but for their difference
        let gap = xn.max(yn) - xn.min(yn);
        if gap > 20 {
            return Verdict::Skip("terms too far apart");
        }
        let (sx, sy) = if xn < yn { (1 << gap, 1) } else { (1, 1 << gap) };
        let (u, v) = (xp * yq * sx, yp * xq * sy);
        let e = coef(r);
        let mut k = [0, a, b, 0, 0, d, e, 0];
        if r.chance(1, 3) {
            k[1 + r.below(2) as usize] = 0;
        }
        if r.chance(1, 3) {
            k[5 + r.below(2) as usize] = 0;
        }
        if kind == Kind::Pole && r.chance(1, 2) && u.abs() == v.abs() {
            k[5] = d;
            k[6] = if u == v { -d } else { d };
        }
        if r.chance(1, 2) && reciprocal {
            k.rotate_left(4);
        }
        let text = format!("combine {:?} of {} and {}", k, x.show(), y.show());
        let made = guarded(|| comb(x.make(), y.make(), &k));
        (text, made, k[1] * u + k[2] * v, k[5] * u + k[6] * v, 0)
    };
    let reciprocal = one && reciprocal;
    cx.st.sign(&text);
    cx.st.describe(|| text.clone());
    cx.st.count("long operands");
    let want = long(p, q, m, reciprocal);
    let made = match (made, &want) {
        (Err(e), None) if is_divzero(&e) => return Verdict::Pass(true),
        (Err(e), _) if is_divzero(&e) || forbidden(&e) => return Verdict::Fail(format!("{} fails with: {}", text, e)),
        (Err(_), _) => return Verdict::Skip("range exhausted while building"),
        (Ok(_), None) => return Verdict::Fail(format!("{}: zero denominator not reported", text)),
        (Ok(x), Some(_)) => x,
    };
    let want = want.unwrap();
    if head_of(&made) != want.head {
        return Verdict::Fail(format!("{}: must start as {:?} but starts as {:?}", text, want.head, head_of(&made)));
    }
    if let (Number::Other(_, mut c), Some(mut then)) = (made, want.then) {
        let mut amplify = want.amplify;
        let mut n = 0u64;
        loop {
            let w = if amplify > 0 {
                amplify -= 1;
                Some(Sym::A)
            } else {
                then.next()
            };
            match guarded(|| c.egest().map(|s| sym_of(&s))) {
                Ok(s) if s == w => {
                    if s.is_none() {
                        break;
                    }
                    n += 1;
                }
                Ok(s) => return Verdict::Fail(format!("{}: symbol {} must be {:?} but is {:?}", text, n, w, s)),
                Err(e) if is_divzero(&e) || forbidden(&e) => return Verdict::Fail(format!("{}: symbol {} fails with: {}", text, n, e)),
                Err(_) => return Verdict::Skip("range exhausted while reading"),
            }
        }
        cx.st.add("symbols of long results", n);
        cx.st.max("symbols of one long result", n);
    }
    Verdict::Pass(true)
}
