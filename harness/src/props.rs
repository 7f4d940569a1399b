//! The monitored properties that need nothing but the public API.

use crate::alloc;
use crate::big::*;
use crate::exec::*;
use crate::expr::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::shadow;
use clarith::{Clog, Number};
use std::cmp::Ordering;

pub struct Cx<'a> {
    pub r: Rng,
    pub st: &'a mut Stats,
    /// running number of the case over all streams
    pub g: u64,
    pub thorough: bool,
}

const SIZES: [Size; 14] = [
    Size { leaf: 4, coef: 3 },
    Size { leaf: 6, coef: 4 },
    Size { leaf: 8, coef: 8 },
    Size { leaf: 12, coef: 10 },
    Size { leaf: 16, coef: 4 },
    Size { leaf: 16, coef: 12 },
    Size { leaf: 24, coef: 8 },
    Size { leaf: 31, coef: 16 },
    Size { leaf: 10, coef: 20 },
    Size { leaf: 5, coef: 28 },
    Size { leaf: 40, coef: 20 },
    Size { leaf: 63, coef: 3 },
    Size { leaf: 64, coef: 30 },
    Size { leaf: 64, coef: 64 },
];

fn size(r: &mut Rng) -> Size {
    // most cases from the part of the table where runs complete
    if r.chance(3, 4) {
        *r.pick(&SIZES[..8])
    } else {
        *r.pick(&SIZES)
    }
}

fn small(r: &mut Rng) -> Size {
    *r.pick(&SIZES[..5])
}

/// Operand program: mostly leaves, sometimes results of other operations.
fn operand(r: &mut Rng, z: Size) -> Expr {
    if r.chance(1, 100) {
        return high(r, z);
    }
    match r.below(10) {
        0..=5 => leaf(r, z.leaf),
        6 | 7 => expr(r, 1, z),
        8 => expr(r, 2, small_of(z)),
        _ => expr(r, 3, small_of(z)),
    }
}

/// Operations on top of each other, up to some hundred.
fn high(r: &mut Rng, z: Size) -> Expr {
    let most = *r.pick(&[6, 12, 12, 40, 40, 300]);
    let n = r.range(3, most) as u32;
    let back = r.chance(1, 2);
    let base = leaf(r, z.leaf.min(8).max(2));
    tower(r, base, n, back)
}

fn small_of(z: Size) -> Size {
    Size { leaf: z.leaf.min(10), coef: z.coef.min(4) }
}

fn verdict(e: &Expr, cx: &mut Cx, nontrivial: impl Fn(Seen) -> bool) -> Verdict {
    cx.st.sign(e);
    cx.st.describe(|| e.show());
    match judge(e, cx.st) {
        Ok(s) => {
            let n = e.size() as u64;
            if n > 12 {
                cx.st.count("programs of more than 12 operations");
                if let Seen::Complete(_) = s {
                    cx.st.max("operations in a program read to its end", n);
                }
            }
            Verdict::Pass(nontrivial(s))
        }
        Err(m) => Verdict::Fail(m),
    }
}

// ---------------------------------------------------------------- C01

fn boundary() -> Vec<u64> {
    let mut v: Vec<u64> = (0..=9).collect();
    for k in [4, 5, 8, 15, 16, 30, 31, 32, 33, 47, 61, 62, 63] {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1, p + p / 2]);
    }
    v.extend([u64::MAX, u64::MAX - 1, u64::MAX - 2, u64::MAX / 2, u64::MAX / 3, u64::MAX / 3 * 2, 12200160415121876738, 7540113804746346429, 4660046610375530309]);
    v
}

/// The examples given in the documentation of the symbols, as they are printed there.
const DOCUMENTED: [(i64, i64, &str); 10] = [
    (5, 10, ""),
    (1, 10, "AAAUA"),
    (567, 1000, "UUAUUUUUUUAAAAUA"),
    (8, 9, "UAA"),
    (-5, 10, "R"),
    (5, 1, "TAAUA"),
    (-314, 100, "GAUUUAUUUAAUUUU"),
    (0, 7, "Zero"),
    (7, 7, "PosOne"),
    (7, -7, "NegOne"),
];

fn documented((n, d, text): (i64, i64, &str), st: &mut Stats) -> Verdict {
    let e = Expr::R(n, d);
    st.sign(&e);
    st.count("documented examples");
    let seen = guarded(|| {
        let x = e.build();
        let mut s = format!("{:?}", head_of(&x));
        if let Number::Other(p, mut c) = x {
            s.truncate(p.map_or(0, |_| 1));
            while let Some(v) = c.egest() {
                s.push_str(&format!("{:?}", sym_of(&v)));
                if s.len() > 1000 {
                    break;
                }
            }
        }
        s
    });
    match seen {
        Ok(s) if s == text => Verdict::Pass(true),
        s => Verdict::Fail(format!("{}: documented as {:?}, delivered {:?}", e.show(), text, s)),
    }
}

pub fn c01(cx: &mut Cx) -> Verdict {
    let b = boundary();
    let nb = b.len() as u64;
    let (g1, g2, g3) = (81 * 80, nb * nb * 2, nb * nb * 4);
    let g = cx.g;
    let e = if g < g1 {
        let (n, d) = ((g % 81) as i64 - 40, (g / 81) as i64 - 40);
        cx.st.count("grid of small terms");
        Expr::R(n, if d >= 0 { d + 1 } else { d })
    } else if g < g1 + g2 {
        let k = g - g1;
        cx.st.count("grid of boundary terms, unsigned");
        Expr::V(k & 1 == 0, b[(k / 2 % nb) as usize], b[(k / 2 / nb) as usize].max(1))
    } else if g < g1 + g2 + g3 {
        let k = g - g1 - g2;
        cx.st.count("grid of boundary terms, signed");
        let f = |v: u64, neg: bool| if neg { (v as i64).wrapping_neg() } else { v as i64 };
        let n = f(b[(k / 4 % nb) as usize], k & 1 == 1);
        let d = f(b[(k / 4 / nb) as usize], k & 2 == 2);
        Expr::R(n, if d == 0 { i64::MIN } else { d })
    } else if cx.r.chance(1, 1000) {
        return documented(*cx.r.pick(&DOCUMENTED), cx.st);
    } else {
        let bits = *cx.r.pick(&[8, 16, 31, 32, 33, 62, 63, 64, 64, 64]);
        if cx.r.chance(1, 10) {
            let (n, d) = (signed(&mut cx.r, 64), signed(&mut cx.r, 64));
            Expr::R(n, if d == 0 { i64::MIN } else { d })
        } else if cx.r.chance(1, 6) {
            cx.st.count("terms scaled into the full range");
            scaled_leaf(&mut cx.r)
        } else {
            leaf(&mut cx.r, bits)
        }
    };
    cx.st.sign(&e);
    cx.st.describe(|| e.show());
    let q = match e.eval() {
        Ok(q) => q,
        Err(_) => return Verdict::Skip("zero denominator"),
    };
    // any failure is a violation here
    let x = match guarded(|| e.build()) {
        Ok(x) => x,
        Err(m) => return Verdict::Fail(format!("{}: fails with: {}", e.show(), m)),
    };
    cx.st.head(head_of(&x));
    // second opinion: read first, then decode what was read
    if cx.r.chance(1, 4) {
        let h = head_of(&x);
        if let Number::Other(_, mut c) = x {
            let mut s = vec![];
            let r = guarded(|| {
                while let Some(v) = c.egest() {
                    s.push(sym_of(&v));
                    if s.len() > 100_000 {
                        break;
                    }
                }
            });
            if let Err(m) = r {
                return Verdict::Fail(format!("{}: fails with: {}", e.show(), m));
            }
            if s.len() > 100_000 {
                return Verdict::Fail(format!("{}: sequence does not end", e.show()));
            }
            let v = apply_head(h, &decode(&s));
            if v.cmp(&q) != Ordering::Equal {
                return Verdict::Fail(format!("{}: the symbols denote {}", e.show(), v.show()));
            }
            cx.st.count("decoded");
            cx.st.add("symbols checked", s.len() as u64);
            return Verdict::Pass(s.len() >= 3);
        }
        return if h == represent(&q).0 { Verdict::Pass(false) } else { Verdict::Fail(format!("{}: {:?}", e.show(), h)) };
    }
    match watch(x, &q, u64::MAX, 2) {
        Outcome::Complete(n) => {
            cx.st.add("symbols checked", n);
            cx.st.max("longest sequence", n);
            Verdict::Pass(n >= 3)
        }
        Outcome::Wrong(m) | Outcome::Failed(m, _) => Verdict::Fail(format!("{}: {}", e.show(), m)),
    }
}

// ---------------------------------------------------------------- C02, C03

pub fn c02(cx: &mut Cx) -> Verdict {
    if cx.r.chance(1, 2000) {
        return crate::long::case(cx, crate::long::Kind::One);
    }
    let z = size(&mut cx.r);
    let x = operand(&mut cx.r, z);
    let v = x.eval().ok();
    let k = coefs4(&mut cx.r, z.coef, v.as_ref(), Aim::Any);
    let e = Expr::h(x, k);
    verdict(&e, cx, |s| matches!(s, Seen::Complete(n) if n >= 2))
}

pub fn c03(cx: &mut Cx) -> Verdict {
    if cx.r.chance(1, 2000) {
        return crate::long::case(cx, crate::long::Kind::Two);
    }
    let z = size(&mut cx.r);
    let z = Size { leaf: z.leaf.min(if cx.r.chance(4, 5) { 8 } else { 64 }), coef: z.coef.min(if cx.r.chance(4, 5) { 6 } else { 64 }) };
    let x = operand(&mut cx.r, z);
    let y = if cx.r.chance(1, 15) { x.clone() } else { operand(&mut cx.r, z) };
    let (vx, vy) = (x.eval().ok(), y.eval().ok());
    let xy = vx.as_ref().and_then(|a| vy.as_ref().map(|b| (a, b)));
    let k = coefs8(&mut cx.r, z.coef, xy, Aim::Any);
    let e = Expr::c(x, y, k);
    verdict(&e, cx, |s| matches!(s, Seen::Complete(n) if n >= 2))
}

// ---------------------------------------------------------------- C04

/// Ratio denoted by exactly these symbols, when it fits.
fn ratio_of(s: &[Sym]) -> Option<(u64, u64)> {
    let (mut n, mut d) = (1u128, 2u128);
    for s in s.iter().rev() {
        let (a, b) = match s {
            Sym::A if n % 2 == 0 => (n / 2, d),
            Sym::A => (n, d * 2),
            Sym::U => (d, n + d),
        };
        n = a;
        d = b;
        if d > u64::MAX as u128 {
            return None;
        }
    }
    Some((n as u64, d as u64))
}

fn headed(r: &mut Rng, h: u64, (n, d): (u64, u64)) -> Expr {
    let _ = r;
    match h {
        0 => Expr::V(true, n, d),
        1 => Expr::V(true, d, n),
        2 => Expr::V(false, n, d),
        _ => Expr::V(false, d, n),
    }
}

/// A program with the same value as e.
pub fn same_value(r: &mut Rng, e: Expr, bits: u32) -> Expr {
    match r.below(12) {
        0 => {
            let k = signed(r, bits).max(1);
            Expr::h(e, [k, 0, 0, k])
        }
        1 => {
            let k = if r.chance(1, 2) { 1 } else { -1 };
            Expr::h(Expr::h(e, [0, k, 1, 0]), [0, k, 1, 0])
        }
        2 => Expr::h(Expr::h(e, [-1, 0, 0, 1]), [1, 0, 0, -1]),
        3 | 4 => {
            let (a, b, c, d) = (coef(r, bits), coef(r, bits), coef(r, bits), coef(r, bits));
            if a as i128 * d as i128 == b as i128 * c as i128 {
                return Expr::h(e, [1, 0, 0, 1]);
            }
            Expr::h(Expr::h(e, [a, b, c, d]), [d, -b, -c, a])
        }
        5 => {
            let y = leaf(r, bits.max(2));
            Expr::c(Expr::c(e, y.clone(), [0, 1, 1, 0, 0, 0, 0, 1]), y, [0, 1, -1, 0, 0, 0, 0, 1])
        }
        6 => {
            let y = leaf(r, bits.max(2));
            Expr::c(Expr::c(e, y.clone(), [1, 0, 0, 0, 0, 0, 0, 1]), y, [0, 1, 0, 0, 0, 0, 1, 0])
        }
        7 => Expr::c(e, Expr::R(0, 1), [0, 1, 1, 0, 0, 0, 0, 1]),
        8 => Expr::c(Expr::R(1, 1), e, [1, 0, 0, 0, 0, 0, 0, 1]),
        9 => Expr::K(Box::new(e)),
        10 => match e {
            Expr::R(n, d) => {
                let k = signed(r, 12).max(1);
                match (n.checked_mul(k), d.checked_mul(k)) {
                    (Some(n), Some(d)) => Expr::R(n, d),
                    _ => Expr::R(n, d),
                }
            }
            e => Expr::c(e.clone(), e, [0, 1, 1, 0, 0, 0, 0, 2]),
        },
        _ => {
            // k symbols in front are pulled and put back by an equivalent homographic form
            let y = leaf(r, 4);
            Expr::c(e, y, [0, 1, 0, 0, 0, 0, 0, 1])
        }
    }
}

fn near_pair(r: &mut Rng) -> (Expr, Expr) {
    let bits = *r.pick(&[6, 10, 16, 31, 48, 63, 64]);
    match r.below(8) {
        0 | 1 | 2 => {
            // common symbols, then different
            let len = *r.pick(&[0i64, 3, 8, 20, 60, 61, 120, 300]);
            let len = r.range(0, len) as usize;
            for _ in 0..20 {
                let p = symbols(r, len);
                let mut a = p.clone();
                let mut b = p;
                let m = r.below(3);
                if m != 0 {
                    a.push(Sym::A);
                    let n = r.below(6) as usize;
                    a.extend(symbols(r, n));
                }
                if m != 1 {
                    b.push(Sym::U);
                    let n = r.below(6) as usize;
                    b.extend(symbols(r, n));
                }
                if let (Some(a), Some(b)) = (ratio_of(&a), ratio_of(&b)) {
                    let h = r.below(4);
                    return (headed(r, h, a), headed(r, h, b));
                }
            }
            (leaf(r, bits), leaf(r, bits))
        }
        3 => {
            let (n, d) = pair(r, bits);
            let s = r.chance(1, 2);
            let (m, e) = match r.below(4) {
                0 => (n.wrapping_add(1), d),
                1 => (n, d.wrapping_add(1)),
                2 => (n.wrapping_add(1), d.wrapping_add(1)),
                _ => (n.wrapping_add(d), d.wrapping_add(n)),
            };
            (Expr::V(s, n, d), Expr::V(s, m, e.max(1)))
        }
        4 => {
            let (n, d) = pair(r, bits / 2);
            let k = mag(r, bits / 2).max(1);
            let s = r.chance(1, 2);
            (Expr::V(s, n, d), Expr::V(s, n * k + r.below(2), d * k))
        }
        5 => {
            let (n, d) = pair(r, bits);
            let (h, i) = (r.below(4), r.below(4));
            if n < d && n > 0 {
                (headed(r, h, (n, d)), headed(r, i, (n, d)))
            } else {
                (Expr::V(true, n, d), Expr::V(false, n, d))
            }
        }
        6 => {
            let v = [Expr::R(0, 1), Expr::R(1, 1), Expr::R(-1, 1)];
            let s = v[r.below(3) as usize].clone();
            let t = if r.chance(1, 3) { v[r.below(3) as usize].clone() } else { leaf(r, bits) };
            if r.chance(1, 2) {
                (s, t)
            } else {
                (t, s)
            }
        }
        _ => (leaf(r, bits), leaf(r, bits)),
    }
}

/// Agreement in hundreds of symbols, from powers of two far beyond the machine integers.
fn far_pair(r: &mut Rng) -> (Expr, Expr) {
    let (mut a, mut b) = near_pair(r);
    for _ in 0..r.range(2, 12) {
        let k = 1i64 << r.range(20, 58);
        let k = if r.chance(1, 4) { -k } else { k };
        a = Expr::h(a, [1, 0, 0, k]);
        b = Expr::h(b, [1, 0, 0, k]);
    }
    (a, b)
}

/// Judges one comparison. Failures are permitted only when reading was needed and
/// the operands' integer range may be exhausted.
fn compare_case(a: &Expr, b: &Expr, st: &mut Stats) -> Verdict {
    let (va, vb) = match (a.eval(), b.eval()) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Verdict::Skip("zero denominator"),
    };
    let want = va.cmp(&vb);
    let (x, y) = match (guarded(|| a.build()), guarded(|| b.build())) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(m), _) | (_, Err(m)) => {
            let e = if shadow::roomy(a) && shadow::roomy(b) || forbidden(&m) || is_divzero(&m) {
                return Verdict::Fail(format!("{} {}: fails with: {}", a.show(), b.show(), m));
            } else {
                "range exhausted while building"
            };
            return Verdict::Skip(e);
        }
    };
    let heads = (head_of(&x), head_of(&y));
    let same_head = heads.0 == heads.1 && !heads.0.is_special();
    match guarded(|| Number::compare(x, y)) {
        Ok(o) => {
            if o != want {
                return Verdict::Fail(format!("compare {} with {} says {:?}, must be {:?}", a.show(), b.show(), o, want));
            }
            st.count(match o {
                Ordering::Less => "less",
                Ordering::Equal => "equal",
                Ordering::Greater => "greater",
            });
            if same_head {
                st.count("decided by symbols");
            } else {
                st.count("decided by heads");
            }
            Verdict::Pass(same_head)
        }
        Err(m) => {
            if !same_head {
                return Verdict::Fail(format!("compare {} with {}: heads {:?} decide, yet it fails with: {}", a.show(), b.show(), heads, m));
            }
            if forbidden(&m) || is_divzero(&m) || shadow::roomy(a) && shadow::roomy(b) {
                return Verdict::Fail(format!("compare {} with {} fails with: {}", a.show(), b.show(), m));
            }
            Verdict::Skip("range exhausted while comparing")
        }
    }
}

pub fn c04(cx: &mut Cx) -> Verdict {
    if cx.g % 40 == 11 && crate::trace::HOOK {
        return crate::trace::compare_lazy(cx);
    }
    let r = &mut cx.r;
    let (a, b) = if cx.g < 2 * 61 * 61 {
        // exhaustive: all pairs out of 61 values around the special ones
        let vals = |i: u64| {
            let i = i as i64 - 30;
            Expr::R(i, 10)
        };
        let k = cx.g / 2;
        (vals(k % 61), vals(k / 61))
    } else {
        match r.below(10) {
            0..=5 => near_pair(r),
            6 => {
                let z = small(r);
                (expr(r, 2, z), expr(r, 2, z))
            }
            7 if r.chance(1, 20) => {
                let (a, b) = near_pair(r);
                let n = *r.pick(&[3, 8, 30, 100]);
                (tower(r, a.clone(), n, true), if r.chance(1, 2) { a } else { b })
            }
            7 => {
                let z = small(r);
                let e = expr(r, 1, z);
                let f = same_value(r, e.clone(), 3);
                (e, f)
            }
            8 if r.chance(1, 4) => far_pair(r),
            8 => {
                // the heads decide, the symbols cannot be read
                let z = Size { leaf: 64, coef: 62 };
                (hom_of(r, 0, z), hom_of(r, 0, z))
            }
            _ => {
                let (a, b) = near_pair(r);
                (same_value(r, a, 3), same_value(r, b, 3))
            }
        }
    };
    cx.st.sign(&(&a, &b));
    cx.st.describe(|| format!("compare {} {}", a.show(), b.show()));
    match compare_case(&a, &b, cx.st) {
        Verdict::Pass(n) => match compare_case(&b, &a, cx.st) {
            Verdict::Pass(_) => Verdict::Pass(n),
            v => v,
        },
        v => v,
    }
}

// ---------------------------------------------------------------- C05

/// Checks what consume returned for value q.
pub fn check_consumed(q: &Q, y: Option<Number>, k: [i64; 4], st: &mut Stats) -> Result<bool, String> {
    let z = |v: i64| Z::from(v as i128);
    let (ny, n, dy, d) = (z(k[0]), z(k[1]), z(k[2]), z(k[3]));
    let xd = Z::u(q.d);
    let top = k.iter().map(|v| v.unsigned_abs()).max().unwrap();
    st.max("largest coefficient (bits)", (64 - top.leading_zeros()) as u64);
    if represent(q).1.is_none() {
        // special: independent of y
        let ok = ny.mul(&xd).cmp(&dy.mul(&q.n)) == Ordering::Equal
            && n.mul(&xd).cmp(&d.mul(&q.n)) == Ordering::Equal
            && !(dy.is_zero() && d.is_zero())
            // no y at all may make the denominator zero
            && (y.is_some() || dy.is_zero());
        return if ok { Ok(false) } else { Err(format!("special {} became {:?}", q.show(), k)) };
    }
    match y {
        None => {
            st.count("consumed completely");
            let num = ny.add(&n.add(&n));
            let den = dy.add(&d.add(&d));
            match Q::new(num, den) {
                Some(v) if v.cmp(q) == Ordering::Equal => Ok(true),
                v => Err(format!("{} consumed completely into {:?}, which is {}", q.show(), k, v.map_or("undefined".into(), |v| v.show()))),
            }
        }
        Some(y) => {
            st.count("consumed partly");
            if top < (i64::MAX / 8) as u64 {
                return Err(format!("{} consumed only into {:?}, far from the limit", q.show(), k));
            }
            // y = (n - q d) / (q dy - ny)
            let num = n.mul(&xd).sub(&q.n.mul(&d));
            let den = q.n.mul(&dy).sub(&ny.mul(&xd));
            let want = match Q::new(num, den) {
                Some(w) => w,
                None => return Err(format!("{}: coefficients {:?} are degenerate", q.show(), k)),
            };
            if want.n.sgn() <= 0 || want.n.m.cmp(&want.d) != Ordering::Less {
                return Err(format!("{}: coefficients {:?} need a remainder {}", q.show(), k, want.show()));
            }
            match watch(y, &want, u64::MAX, 1) {
                Outcome::Complete(n) => {
                    st.add("remainder symbols checked", n);
                    Ok(true)
                }
                Outcome::Wrong(m) | Outcome::Failed(m, _) => Err(format!("{} consumed into {:?}; remainder: {}", q.show(), k, m)),
            }
        }
    }
}

pub fn c05(cx: &mut Cx) -> Verdict {
    if cx.r.chance(1, 6) && crate::trace::HOOK {
        return crate::trace::consume_endless(cx);
    }
    let r = &mut cx.r;
    let plain = r.chance(3, 4);
    let e = if plain {
        let bits = *r.pick(&[5, 12, 31, 60, 61, 62, 63, 64, 64]);
        leaf(r, bits)
    } else {
        let z = small(r);
        if r.chance(1, 20) {
            high(r, z)
        } else {
            expr(r, 2, z)
        }
    };
    cx.st.sign(&e);
    cx.st.describe(|| format!("consume {}", e.show()));
    let q = match e.eval() {
        Ok(q) => q,
        Err(_) => return Verdict::Skip("zero denominator"),
    };
    let res = guarded(|| {
        let (y, a, b, c, d) = Number::consume(e.build());
        (y, [a as i64, b as i64, c as i64, d as i64])
    });
    let (y, k) = match res {
        Ok(v) => v,
        Err(m) => {
            if plain || forbidden(&m) || is_divzero(&m) || shadow::roomy(&e) {
                return Verdict::Fail(format!("consume {} fails with: {}", e.show(), m));
            }
            return Verdict::Skip("operand exhausted its integer range");
        }
    };
    if y.is_some() && !plain && !shadow::roomy(&e) {
        return Verdict::Skip("operand may exhaust its integer range");
    }
    match check_consumed(&q, y, k, cx.st) {
        Ok(n) => Verdict::Pass(n),
        Err(m) => Verdict::Fail(format!("consume {}: {}", e.show(), m)),
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(cx: &mut Cx) -> Verdict {
    if cx.r.chance(1, 2000) {
        return crate::long::case(cx, crate::long::Kind::Pole);
    }
    let r = &mut cx.r;
    let z = if r.chance(3, 4) { *r.pick(&SIZES[..5]) } else { size(r) };
    let e = match r.below(12) {
        0 => {
            let n = signed(r, 64);
            if r.chance(1, 2) {
                Expr::R(n, 0)
            } else {
                Expr::V(r.chance(1, 2), n as u64, 0)
            }
        }
        1..=4 => {
            let x = operand(r, z);
            let v = x.eval().ok();
            let k = coefs4(r, z.coef, v.as_ref(), Aim::Pole);
            Expr::h(x, k)
        }
        5..=8 => {
            let x = operand(r, z);
            let y = if r.chance(1, 8) { x.clone() } else { operand(r, z) };
            let (vx, vy) = (x.eval().ok(), y.eval().ok());
            let xy = vx.as_ref().and_then(|a| vy.as_ref().map(|b| (a, b)));
            let k = coefs8(r, z.coef, xy, Aim::Pole);
            Expr::c(x, y, k)
        }
        k => {
            // next to a pole: one coefficient off by one, or an operand one step aside
            let x = leaf(r, z.leaf);
            let y = leaf(r, z.leaf);
            let (vx, vy) = (x.eval().ok(), y.eval().ok());
            if k == 9 || vx.is_none() || vy.is_none() {
                let mut c = coefs4(r, z.coef, vx.as_ref(), Aim::Pole);
                let i = 2 + r.below(2) as usize;
                c[i] = c[i].wrapping_add(if r.chance(1, 2) { 1 } else { -1 });
                Expr::h(x, c)
            } else {
                let mut c = coefs8(r, z.coef, vx.as_ref().and_then(|a| vy.as_ref().map(|b| (a, b))), Aim::Pole);
                let i = 4 + r.below(4) as usize;
                c[i] = c[i].wrapping_add(if r.chance(1, 2) { 1 } else { -1 });
                Expr::c(x, y, c)
            }
        }
    };
    verdict(&e, cx, |s| s == Seen::DivZero)
}

// ---------------------------------------------------------------- C07

fn extreme(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => *r.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, i64::MIN / 2, i64::MAX / 2, i64::MAX / 2 + 1, i64::MIN / 2 - 1]),
        1 => {
            let k = *r.pick(&[30, 31, 32, 33, 61, 62]);
            let v = (1i64 << k) + r.range(-3, 3);
            if r.chance(1, 2) {
                v
            } else {
                -v
            }
        }
        2 | 3 => 0,
        4 => r.range(-3, 3),
        5 => signed(r, 33),
        _ => signed(r, 64),
    }
}

fn any_leaf(r: &mut Rng) -> Expr {
    let bits = *r.pick(&[3, 5, 8, 16, 31, 33, 63, 64]);
    if r.chance(1, 10) {
        let d = extreme(r);
        Expr::R(extreme(r), if d == 0 { 1 } else { d })
    } else {
        leaf(r, bits)
    }
}

/// A number with runs of the same symbol, which inflate coefficients fast.
fn running_leaf(r: &mut Rng) -> Expr {
    let k = r.range(8, 63) as u32;
    let (n, d) = match r.below(5) {
        0 | 1 => (1 + 2 * r.below(4), 1u64 << k),
        2 => ((1u64 << k) - 1, 1u64 << k),
        3 => (1u64 << (k - r.below(8) as u32), (1u64 << k) - 1),
        _ => {
            let n = r.below(200) + 1;
            (n, n + 1)
        }
    };
    let s = r.chance(1, 2);
    let x = if r.chance(1, 2) { Expr::V(s, n, d) } else { Expr::V(s, d, n) };
    if r.chance(1, 3) {
        let k = signed(r, 31);
        return Expr::h(x, *r.pick(&[[1, 0, 0, k], [k, 0, 0, 1], [1, k, 0, 1], [1, 0, 1, k]]));
    }
    x
}

/// Numerator or denominator vanish exactly at the operands, or almost, so that nothing can be
/// told before the operands end, whatever becomes of the coefficients.
fn vanishing(r: &mut Rng) -> Expr {
    let operand = |r: &mut Rng| match r.below(4) {
        0 => any_leaf(r),
        1 => leaf(r, 24),
        _ => running_leaf(r),
    };
    let (x, y) = (operand(r), operand(r));
    let terms = |e: &Expr| -> Option<(i128, i128)> {
        let q = e.eval().ok()?.reduced();
        if q.n.m.bits() > 64 || q.d.bits() > 64 {
            return None;
        }
        let n = q.n.m.low() as i128;
        Some((if q.n.neg { -n } else { n }, q.d.low() as i128))
    };
    let mut k = [0; 8].map(|_| r.range(-9, 9) | r.chance(1, 2) as i64);
    let wide = *r.pick(&[2, 4, 8, 20]);
    let mut row = [0i128; 4];
    if let (Some((p, q)), Some((s, t))) = (terms(&x), terms(&y)) {
        for z in [[t, -s, 0, 0], [0, 0, t, -s], [q, 0, -p, 0], [0, q, 0, -p]] {
            if r.chance(1, 2) {
                let c = coef(r, wide) as i128;
                for i in 0..4 {
                    row[i] += c.saturating_mul(z[i]);
                }
            }
        }
    }
    if r.chance(1, 4) {
        row[r.below(4) as usize] += r.range(-1, 1) as i128;
    }
    let at = if r.chance(1, 3) { 4 } else { 0 };
    for i in 0..4 {
        k[at + i] = row[i].clamp(i64::MIN as i128, i64::MAX as i128) as i64;
    }
    if r.chance(1, 4) {
        return Expr::h(x, [k[1], k[3], k[5], k[7]]);
    }
    Expr::c(x, y, k)
}

/// Coefficients about a quarter to all of the range, with signs by which they cancel in sums.
fn balanced(r: &mut Rng, n: usize) -> Vec<i64> {
    let base = *r.pick(&[1i64 << 60, 1 << 61, 3 << 60, 1 << 62, 5 << 60, 3 << 61, 7 << 60, i64::MAX]);
    let noise = *r.pick(&[2u64, 8, 1 << 10, 1 << 32, 1 << 58, 1 << 60]);
    let signs: u64 = match r.below(5) {
        0 => 0b0110,
        1 => 0b0011,
        2 => 0b0101,
        3 => 0,
        _ => r.next(),
    };
    let flip = r.chance(1, 2);
    let part = *r.pick(&[2u64, 8, 1000]);
    (0..n)
        .map(|i| {
            let v = base as i128 + r.below(2 * noise) as i128 - noise as i128;
            let v = if (signs >> i & 1 == 1) != flip { -v } else { v };
            let v = if r.chance(1, part) { v >> r.below(64) } else { v };
            v.clamp(i64::MIN as i128, i64::MAX as i128) as i64
        })
        .collect()
}

/// A program with large coefficients that cancel in sums, so that single steps leave the range.
fn balanced_program(r: &mut Rng) -> Expr {
    let leaf_bits = *r.pick(&[2, 3, 5, 8, 31]);
    let start = |r: &mut Rng| if r.chance(1, 8) { any_leaf(r) } else { leaf(r, leaf_bits) };
    let small = *r.pick(&[1, 2, 4, 30, 61]);
    let half = |r: &mut Rng, n: usize| match r.below(4) {
        0 => (0..n).map(|_| coef(r, small)).collect(),
        _ => balanced(r, n),
    };
    let x = start(r);
    if r.chance(1, 3) {
        let (n, d) = (half(r, 2), half(r, 2));
        return Expr::h(x, [n[0], n[1], d[0], d[1]]);
    }
    let y = start(r);
    let (n, d) = (half(r, 4), half(r, 4));
    Expr::c(x, y, [n[0], n[1], n[2], n[3], d[0], d[1], d[2], d[3]])
}

/// A program at the limits of the integer range.
fn extreme_program(r: &mut Rng) -> Expr {
    if r.chance(1, 6) {
        return vanishing(r);
    }
    if r.chance(1, 5) {
        return balanced_program(r);
    }
    let k4 = |r: &mut Rng| [extreme(r), extreme(r), extreme(r), extreme(r)];
    let k8 = |r: &mut Rng| [extreme(r), extreme(r), extreme(r), extreme(r), extreme(r), extreme(r), extreme(r), extreme(r)];
    match r.below(12) {
        0..=3 => Expr::h(any_leaf(r), k4(r)),
        4 | 5 => {
            let x = any_leaf(r);
            let v = x.eval().ok();
            let b = *r.pick(&[31, 32, 48, 62, 63, 64]);
            let k = coefs4(r, b, v.as_ref(), Aim::Any);
            Expr::h(x, k)
        }
        6 | 7 => Expr::c(any_leaf(r), any_leaf(r), k8(r)),
        8 | 9 => {
            let (x, y) = (any_leaf(r), any_leaf(r));
            let (vx, vy) = (x.eval().ok(), y.eval().ok());
            let b = *r.pick(&[16, 31, 32, 48, 62, 63, 64]);
            let k = coefs8(r, b, vx.as_ref().and_then(|a| vy.as_ref().map(|b| (a, b))), Aim::Any);
            Expr::c(x, y, k)
        }
        10 => {
            let x = any_leaf(r);
            let y = Expr::h(x, k4(r));
            let z = Expr::h(y, k4(r));
            if r.chance(1, 2) {
                Expr::K(Box::new(z))
            } else {
                z
            }
        }
        _ => Expr::K(Box::new(any_leaf(r))),
    }
}

/// An operation some of whose coefficients are multiplied by a number.
struct Growing {
    x: Expr,
    y: Expr,
    one: bool,
    k: Vec<i64>,
    mask: u64,
    odd: i64,
    top: i64,
}

impl Growing {
    fn new(r: &mut Rng) -> Option<Growing> {
        let bits = *r.pick(&[2, 3, 5, 8, 16, 24, 31]);
        let leaf_bits = *r.pick(&[2, 3, 5, 8, 16, 31]);
        let start = |r: &mut Rng| match r.below(8) {
            0 => any_leaf(r),
            1 => running_leaf(r),
            _ => leaf(r, leaf_bits),
        };
        let (x, y) = (start(r), start(r));
        let one = r.chance(1, 3);
        let n = if one { 4 } else { 8 };
        let mut k: Vec<i64> = if r.chance(1, 2) {
            (0..n).map(|_| coef(r, bits)).collect()
        } else if one {
            coefs4(r, bits, x.eval().ok().as_ref(), Aim::Any).to_vec()
        } else {
            let (vx, vy) = (x.eval().ok(), y.eval().ok());
            let known = if r.chance(1, 2) { vx.as_ref().and_then(|a| vy.as_ref().map(|b| (a, b))) } else { None };
            coefs8(r, bits, known, Aim::Any).to_vec()
        };
        if r.chance(1, 3) {
            // what is scaled must not be cancelled
            for v in k.iter_mut() {
                if *v != 0 && r.chance(1, 2) {
                    *v |= 1;
                }
            }
        }
        let mask: u64 = match r.below(6) {
            0 => u64::MAX,
            1 => (1 << n / 2) - 1,
            2 => !((1 << n / 2) - 1),
            3 | 4 => 1 << r.below(n as u64),
            _ => r.next(),
        };
        let top = k.iter().enumerate().filter(|(i, v)| mask >> i & 1 == 1 && **v != 0).map(|(_, v)| i64::MAX / v.saturating_abs()).min()?;
        Some(Growing { x, y, one, k, mask, odd: r.chance(1, 2) as i64, top })
    }

    fn at(&self, s: i64) -> Expr {
        let s = s | self.odd;
        let k: Vec<i64> = self.k.iter().enumerate().map(|(i, v)| if self.mask >> i & 1 == 1 { v.saturating_mul(s) } else { *v }).collect();
        if self.one {
            Expr::h(self.x.clone(), [k[0], k[1], k[2], k[3]])
        } else {
            Expr::c(self.x.clone(), self.y.clone(), [k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7]])
        }
    }
}

/// Programs ever closer to the point where the integer range is exhausted: some of
/// the coefficients are multiplied by a number that is bisected between one with
/// which the program works and one with which it fails.
fn edge_walk(cx: &mut Cx) -> Verdict {
    let g = match Growing::new(&mut cx.r) {
        Some(g) => g,
        None => return Verdict::Skip("nothing to scale"),
    };
    cx.st.sign(&(&g.x, &g.y, &g.k, g.mask));
    cx.st.describe(|| format!("{} with growing coefficients {:b}", g.at(1).show(), g.mask));
    let (mut lo, mut hi) = (0, g.top);
    let mut s = g.top;
    let mut steps = 0;
    while hi - lo > 1 {
        match judge(&g.at(s), cx.st) {
            Ok(Seen::Range) => hi = s,
            Ok(_) => lo = s,
            Err(m) => return Verdict::Fail(m),
        }
        steps += 1;
        s = lo + (hi - lo) / 2;
        if s == lo {
            break;
        }
    }
    cx.st.add("programs judged on the way to the edge of the range", steps);
    cx.st.count(if hi == g.top { "edge not found" } else { "edge of the range found" });
    Verdict::Pass(steps > 3)
}

pub fn c07(cx: &mut Cx) -> Verdict {
    if cx.r.chance(1, 16) {
        return edge_walk(cx);
    }
    let e = extreme_program(&mut cx.r);
    if cx.r.chance(1, 10) {
        let f = any_leaf(&mut cx.r);
        cx.st.sign(&(&e, &f));
        cx.st.describe(|| format!("compare {} {}", e.show(), f.show()));
        return match compare_case(&e, &f, cx.st) {
            Verdict::Skip(_) => Verdict::Pass(false),
            v => v,
        };
    }
    verdict(&e, cx, |s| matches!(s, Seen::Complete(n) if n >= 2) || s == Seen::Range)
}

// ---------------------------------------------------------------- C08

fn terms_within(q: &Q, m: u64) -> bool {
    let q = q.reduced();
    q.n.m.cmp(&U::from(m as u128)) != Ordering::Greater && q.d.cmp(&U::from(m as u128)) != Ordering::Greater
}

fn any_within(r: &mut Rng, m: i64) -> i64 {
    match r.below(6) {
        0 => 0,
        1 => *r.pick(&[1, -1, m, -m, m - 1, 1 - m]),
        2 => r.range(-3.min(m), 3.min(m)),
        _ => r.range(-m, m),
    }
}

fn ratio_within(r: &mut Rng, m: i64) -> Expr {
    if r.chance(1, 3) {
        // long sequences of small terms
        let n = r.range(1, m);
        return Expr::R(if r.chance(1, 2) { n } else { -n }, r.range((m - 3).max(1), m));
    }
    Expr::R(r.range(-m, m), r.range(1, m))
}

/// Programs that exhaust the range: everything before that must be delivered.
fn assured_part(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let e = if r.chance(1, 2) {
        let z = *r.pick(&SIZES[5..]);
        hom_of(r, 0, z)
    } else {
        let z = Size { leaf: *r.pick(&[6, 8, 12, 24, 64]), coef: *r.pick(&[2, 8, 12, 20, 40]) };
        comb_of(r, 0, z)
    };
    cx.st.sign(&e);
    cx.st.describe(|| e.show());
    let q = match e.eval() {
        Ok(q) => q,
        Err(_) => return Verdict::Skip("zero denominator"),
    };
    let least = shadow::assured(&e);
    if least == 0 {
        return Verdict::Skip("integer range may be exhausted");
    }
    let x = match guarded(|| e.build()) {
        Ok(x) => x,
        Err(m) => return Verdict::Fail(format!("{}: value {}: fails although the range suffices for its head: {}", e.show(), q.show(), m)),
    };
    cx.st.count(if least == u64::MAX { "programs with room to the end" } else { "programs with room for a part" });
    match watch(x, &q, least - 1, 0) {
        Outcome::Complete(n) => {
            cx.st.add("assured symbols", n);
            Verdict::Pass(n >= 2)
        }
        Outcome::Wrong(m) => Verdict::Fail(format!("{}: {}", e.show(), m)),
        Outcome::Failed(m, _) => Verdict::Fail(format!("{}: fails although the range suffices for {} symbols: {}", e.show(), least - 1, m)),
    }
}

/// Programs whose coefficients are about as large as they can be with room to the end.
fn brink(cx: &mut Cx) -> Verdict {
    let g = match Growing::new(&mut cx.r) {
        Some(g) => g,
        None => return Verdict::Skip("nothing to scale"),
    };
    if !shadow::roomy(&g.at(1)) {
        return Verdict::Skip("integer range may be exhausted");
    }
    let (mut lo, mut hi) = (1, g.top);
    while hi - lo > lo / 8 && hi - lo > 1 {
        // by orders of magnitude first
        let s = if hi / lo > 4 { ((lo as f64) * (hi as f64)).sqrt() as i64 } else { lo + (hi - lo) / 2 };
        let s = s.clamp(lo + 1, hi - 1);
        if shadow::roomy(&g.at(s)) {
            lo = s;
        } else {
            hi = s;
        }
    }
    cx.st.count("programs brought to the brink of their room");
    let e = g.at(lo);
    verdict(&e, cx, |s| matches!(s, Seen::Complete(n) if n >= 2))
}

pub fn c08(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let class = r.below(11);
    if class == 10 {
        return brink(cx);
    }
    if class >= 8 {
        return if r.chance(1, 8) && crate::trace::HOOK { crate::trace::assured_endless(cx) } else { assured_part(cx) };
    }
    let e = match class {
        0 | 1 => {
            let (m, p) = *r.pick(&[(1000, 63), (10, 127)]);
            let x = ratio_within(r, p);
            let k = if r.chance(1, 3) {
                let v = x.eval().ok();
                coefs4(r, 9, v.as_ref(), Aim::Any).map(|c| c.clamp(-m, m))
            } else {
                [0; 4].map(|_| any_within(r, m))
            };
            Expr::h(x, k)
        }
        2 | 3 => {
            let (m, p) = *r.pick(&[(1000, 15), (2, 31), (2, 31)]);
            let (x, y) = (ratio_within(r, p), ratio_within(r, p));
            let k = if r.chance(1, 3) {
                let (vx, vy) = (x.eval().ok(), y.eval().ok());
                let k = coefs8(r, 9, vx.as_ref().and_then(|a| vy.as_ref().map(|b| (a, b))), Aim::Any);
                k.map(|c| c.clamp(-m, m))
            } else {
                [0; 8].map(|_| any_within(r, m))
            };
            Expr::c(x, y, k)
        }
        4 => {
            // operands that are results of operations inside the envelope
            let (m, p) = *r.pick(&[(30, 7), (10, 9)]);
            let x = Expr::h(ratio_within(r, p), [0; 4].map(|_| any_within(r, 3)));
            let y = if r.chance(1, 2) {
                ratio_within(r, p)
            } else {
                Expr::c(ratio_within(r, 3), ratio_within(r, 3), [0; 8].map(|_| any_within(r, 1)))
            };
            match (x.eval(), y.eval()) {
                (Ok(a), Ok(b)) if terms_within(&a, 15) && terms_within(&b, 15) => {
                    if r.chance(1, 2) {
                        Expr::h(x, [0; 4].map(|_| any_within(r, m)))
                    } else {
                        Expr::c(x, y, [0; 8].map(|_| any_within(r, m)))
                    }
                }
                _ => return Verdict::Skip("operand outside the envelope"),
            }
        }
        5 => {
            let mut x = leaf(r, 64);
            for _ in 0..r.range(1, 3) {
                x = Expr::h(x, *r.pick(&[[1, 0, 0, 1], [-1, 0, 0, 1], [0, 1, 1, 0], [0, -1, 1, 0], [1, 0, 0, -1], [0, 1, -1, 0], [-1, 0, 0, -1]]));
            }
            x
        }
        6 => {
            let z = *r.pick(&SIZES[4..12]);
            hom_of(r, 0, z)
        }
        _ => {
            let z = Size { leaf: *r.pick(&[4, 6, 8]), coef: *r.pick(&[2, 8, 12, 20]) };
            comb_of(r, 0, z)
        }
    };
    if class >= 6 {
        // the general clause; judge() refuses any failure of a roomy program
        if !shadow::roomy(&e) {
            return Verdict::Skip("integer range may be exhausted");
        }
        cx.st.count("roomy programs");
        return verdict(&e, cx, |s| matches!(s, Seen::Complete(n) if n >= 2));
    }
    cx.st.count(if class == 5 { "identity, negation, reciprocal" } else { "envelope programs" });
    cx.st.sign(&e);
    cx.st.describe(|| e.show());
    match judge(&e, cx.st) {
        Ok(Seen::Range) => Verdict::Fail(format!("{}: fails inside the working range: {}", e.show(), last_message())),
        Ok(s) => Verdict::Pass(matches!(s, Seen::Complete(n) if n >= 2)),
        Err(m) => Verdict::Fail(m),
    }
}

// ---------------------------------------------------------------- C09

fn scaled_leaf(r: &mut Rng) -> Expr {
    match scaled_terms(r).1 {
        Expr::V(s, n, d) if n <= i64::MAX as u64 && d <= i64::MAX as u64 && r.chance(1, 2) => {
            let (n, d) = (n as i64, d as i64);
            let t = r.chance(1, 2);
            Expr::R(if t == s { n } else { -n }, if t { d } else { -d })
        }
        e => e,
    }
}

/// A simple value twice with terms scaled up as far as they fit, one of them perhaps off by a little.
fn scaled_pair(r: &mut Rng) -> (Expr, Expr) {
    let (a, b) = scaled_terms(r);
    match r.below(4) {
        0 => (a, Expr::h(b, [1, 0, 0, 1])),
        1 => (Expr::K(Box::new(a)), b),
        _ => (a, b),
    }
}

fn scaled_terms(r: &mut Rng) -> (Expr, Expr) {
    let bits = *r.pick(&[1, 2, 3, 6, 16, 31]);
    let (n, d) = pair(r, bits);
    let (n, d) = (n.max(1), d.max(1));
    let s = r.chance(1, 2);
    let scale = |r: &mut Rng| {
        let most = u64::MAX / n.max(d);
        match r.below(4) {
            0 => most,
            1 => 1u64 << (63 - most.leading_zeros()),
            2 => 1 + r.next() % most,
            _ => 1 + (r.next() % most >> r.below(48)),
        }
    };
    let (j, k) = (scale(r), scale(r));
    let (mut m, mut e) = (n * k, d * k);
    if r.chance(1, 2) {
        let step = 1 + (r.next() & 0xfff >> r.below(12));
        match r.below(4) {
            0 => m = m.saturating_add(step),
            1 => m = m.saturating_sub(step),
            2 => e = e.saturating_add(step),
            _ => e = e.saturating_sub(step).max(1),
        }
    }
    (Expr::V(s, n * j, d * j), Expr::V(s, m, e))
}

/// One value by two origins, one of them changed now and then.
fn origins(r: &mut Rng) -> (Expr, Expr) {
    let z = Size { leaf: *r.pick(&[3, 5, 8, 16]), coef: 3 };
    let base = match r.below(4) {
        0 => Expr::R(*r.pick(&[-2, -1, 0, 1, 2]), *r.pick(&[1, 1, 2, 3])),
        1 => expr(r, 1, z),
        _ => leaf(r, z.leaf),
    };
    if r.chance(1, 50) {
        let n = *r.pick(&[3, 8, 30, 100]);
        let b = tower(r, base.clone(), n, true);
        return (base, b);
    }
    let mut a = base.clone();
    let mut b = base;
    for _ in 0..r.below(3) {
        a = same_value(r, a, 3);
    }
    for _ in 0..r.range(1, 3) {
        b = same_value(r, b, 3);
    }
    let different = r.chance(1, 5);
    if different {
        b = Expr::h(b, *r.pick(&[[1, 1, 0, 1], [1000, 1, 0, 1000], [-1, 0, 0, 1], [1, 0, 0, 2], [0, 1, 1, 0]]));
    }
    (a, b)
}

pub fn c09(cx: &mut Cx) -> Verdict {
    let (a, b) = match cx.r.below(8) {
        0 => {
            cx.st.count("neighbouring values");
            near_pair(&mut cx.r)
        }
        1 => {
            cx.st.count("terms scaled into the full range");
            scaled_pair(&mut cx.r)
        }
        _ => origins(&mut cx.r),
    };
    cx.st.sign(&(&a, &b));
    cx.st.describe(|| format!("{} and {}", a.show(), b.show()));
    let (va, vb) = match (a.eval(), b.eval()) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Verdict::Skip("zero denominator"),
    };
    let equal = va.cmp(&vb) == Ordering::Equal;
    // direct comparison of the two live representations, without the reference model
    let res = guarded(|| {
        let (x, y) = (a.build(), b.build());
        let (h, i) = (head_of(&x), head_of(&y));
        if h != i {
            return (false, 0, format!("heads {:?} and {:?}", h, i));
        }
        let mut n = 0u64;
        if let (Number::Other(_, mut c), Number::Other(_, mut d)) = (x, y) {
            loop {
                let (s, t) = (c.egest().map(|s| sym_of(&s)), d.egest().map(|s| sym_of(&s)));
                if s != t {
                    return (false, n, format!("symbol {}: {:?} and {:?}", n, s, t));
                }
                if s.is_none() || n > 100_000 {
                    break;
                }
                n += 1;
            }
        }
        (true, n, String::new())
    });
    match res {
        Ok((same, n, what)) => {
            if same != equal {
                return Verdict::Fail(format!(
                    "{} and {} have {} values ({} and {}) but {}",
                    a.show(),
                    b.show(),
                    if equal { "equal" } else { "different" },
                    va.show(),
                    vb.show(),
                    if same { "one representation".into() } else { what }
                ));
            }
            cx.st.count(if equal { "equal values" } else { "different values" });
            cx.st.add("symbols compared", n);
            cx.st.max("longest sequence", n);
        }
        Err(m) => {
            if forbidden(&m) || is_divzero(&m) || shadow::roomy(&a) && shadow::roomy(&b) {
                return Verdict::Fail(format!("{} and {}: fails with: {}", a.show(), b.show(), m));
            }
            return Verdict::Skip("range exhausted");
        }
    }
    // and each against the documented representation
    match judge(&b, cx.st) {
        Ok(_) => Verdict::Pass(equal),
        Err(m) => Verdict::Fail(m),
    }
}

// ---------------------------------------------------------------- C10

pub fn c10(cx: &mut Cx) -> Verdict {
    if cx.r.chance(1, 2000) {
        return crate::long::case(cx, crate::long::Kind::Rest);
    }
    let r = &mut cx.r;
    let z = Size { leaf: *r.pick(&[3, 5, 8, 16, 63]), coef: *r.pick(&[2, 3, 6]) };
    let e = match r.below(6) {
        0 | 1 => leaf(r, z.leaf),
        2 if r.chance(1, 20) => high(r, z),
        2 | 3 => hom_of(r, 0, z),
        _ => comb_of(r, 0, z),
    };
    if r.chance(1, 3) {
        // reads past the end, for every origin
        cx.st.sign(&e);
        cx.st.describe(|| format!("{} read past its end", e.show()));
        cx.st.count("read past the end");
        let most = match cx.r.below(4000) {
            0 => 200_000,
            1..=40 => 4000,
            _ => 40,
        };
        let past = cx.r.range(1, most) as u32;
        return match judge_with(&e, cx.st, u64::MAX, past) {
            Ok(s) => Verdict::Pass(matches!(s, Seen::Complete(n) if n >= 1)),
            Err(m) => Verdict::Fail(m),
        };
    }
    let k = match r.below(3) {
        0 => 5000 + r.below(2) as u32,
        _ => cut(r),
    };
    let t = Expr::T(Box::new(e), k);
    let used = match r.below(7) {
        0 => t.clone(),
        1 => Expr::P(Box::new(t.clone()), r.below(4) as u8),
        2 => Expr::K(Box::new(t.clone())),
        3 | 4 => {
            let v = t.eval().ok();
            let c = coefs4(r, z.coef, v.as_ref(), Aim::Any);
            Expr::h(t.clone(), c)
        }
        _ => {
            let y = if r.chance(1, 3) { Expr::T(Box::new(leaf(r, z.leaf)), cut(r)) } else { leaf(r, z.leaf) };
            let (vx, vy) = (t.eval().ok(), y.eval().ok());
            let c = coefs8(r, z.coef, vx.as_ref().and_then(|a| vy.as_ref().map(|b| (a, b))), Aim::Any);
            if r.chance(1, 2) {
                Expr::c(t.clone(), y, c)
            } else {
                Expr::c(y, t.clone(), [c[0], c[2], c[1], c[3], c[4], c[6], c[5], c[7]])
            }
        }
    };
    if r.chance(1, 5) {
        // the rest, compared with a fresh number of the same or nearly the same value
        let q = match t.eval() {
            Ok(q) => q.reduced(),
            Err(_) => return Verdict::Skip("zero denominator"),
        };
        if q.n.m.bits() > 62 || q.d.bits() > 62 {
            return Verdict::Skip("rest does not fit a ratio");
        }
        let f = Expr::V(!q.n.neg, q.n.m.low() + r.below(2), q.d.low());
        cx.st.sign(&(&t, &f));
        cx.st.describe(|| format!("compare {} {}", t.show(), f.show()));
        cx.st.count("rest compared");
        return compare_case(&t, &f, cx.st);
    }
    cx.st.count("rest used");
    verdict(&used, cx, |s| matches!(s, Seen::Complete(_)))
}

// ---------------------------------------------------------------- C14

/// Heap bytes a live number may hold per operation it was built from.
const PER_NODE: i64 = 4096;
/// Heap bytes it may gain per operation while it is read, after the first symbols.
const GAIN: i64 = 256;

/// How a number comes to its end.
enum End {
    Read,
    Compare(Expr, bool),
    Consume(u64),
    Special,
    Other,
}

impl End {
    fn draw(r: &mut Rng, e: &Expr, z: Size) -> End {
        match r.below(12) {
            0 | 1 => {
                let f = match r.below(5) {
                    0 => e.clone(),
                    1 => {
                        let (n, d) = *r.pick(&[(0, 1), (1, 1), (-1, 1), (1, 2), (-2, 1)]);
                        Expr::R(n, d)
                    }
                    2 => leaf(r, 64),
                    3 => hom_of(r, 0, z),
                    _ => comb_of(r, 0, z),
                };
                End::Compare(f, r.chance(1, 2))
            }
            2 => End::Consume(1 + r.below(4)),
            3 => End::Special,
            4 => End::Other,
            _ => End::Read,
        }
    }

    fn show(&self) -> String {
        match self {
            End::Read => "read".to_string(),
            End::Compare(f, false) => format!("compared with {}", f.show()),
            End::Compare(f, true) => format!("compared to by {}", f.show()),
            End::Consume(k) => format!("consumed {} times, then read", k),
            End::Special => "unwrapped as special".to_string(),
            End::Other => "unwrapped as other, then read".to_string(),
        }
    }
}

/// One number: built, put to its end, read up to `stop` symbols, dropped. Symbols read, and
/// the largest gain of heap use since symbol 32. Makes no allocation of its own.
fn life(e: &Expr, end: &End, stop: u64) -> (u64, i64) {
    let mut n = 0u64;
    let mut gain = 0i64;
    let x = match end {
        End::Read => e.build(),
        End::Compare(f, swapped) => {
            let (x, y) = (e.build(), f.build());
            let _ = if *swapped { Number::compare(y, x) } else { Number::compare(x, y) };
            return (2, 0);
        }
        End::Consume(k) => {
            let mut x = e.build();
            for _ in 0..*k {
                match Number::consume(x).0 {
                    Some(y) => x = y,
                    None => return (2, 0),
                }
            }
            x
        }
        End::Special => {
            e.build().unwrap_special();
            return (2, 0);
        }
        End::Other => {
            let (p, c) = e.build().unwrap_other();
            Number::Other(p, c)
        }
    };
    if let Number::Other(_, mut c) = x {
        let mut start = alloc::live().0;
        while n < stop && n < 100_000 {
            if c.egest().is_none() {
                break;
            }
            n += 1;
            if n == 32 {
                start = alloc::live().0;
                gain = 0;
            }
            gain = gain.max(alloc::live().0 - start);
        }
    }
    (n, gain)
}

/// Many different numbers one after another: nothing may pile up.
fn many_lives(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let programs: Vec<Expr> = (0..900)
        .map(|_| match r.below(4) {
            0 => leaf(r, 64),
            1 => {
                let z = Size { leaf: 64, coef: 30 };
                hom_of(r, 0, z)
            }
            2 => {
                let z = small(r);
                comb_of(r, 0, z)
            }
            _ => {
                let z = small(r);
                hom_of(r, 1, z)
            }
        })
        .collect();
    cx.st.sign(&programs[0]);
    cx.st.describe(|| format!("900 programs from {} on", programs[0].show()));
    let mut symbols = 0;
    let mut held = [0i64; 4];
    held[0] = alloc::live().0;
    for (third, part) in programs.chunks(300).enumerate() {
        for e in part {
            if let Ok((n, _)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| life(e, &End::Read, u64::MAX))) {
                symbols += n;
            }
        }
        held[third + 1] = alloc::live().0;
    }
    cx.st.add("symbols read", symbols);
    cx.st.count("batches of 900 programs");
    if held[2] - held[1] > 2048 && held[3] - held[2] > 2048 {
        return Verdict::Fail(format!("heap use goes from {} over {} and {} to {} bytes in thirds of 900 programs from {} on", held[0], held[1], held[2], held[3], programs[0].show()));
    }
    Verdict::Pass(symbols >= 900)
}

pub fn c14(cx: &mut Cx) -> Verdict {
    if cx.r.chance(1, 400) && crate::trace::HOOK {
        return if cx.r.chance(1, 2) { crate::trace::memory_endless(cx) } else { crate::trace::memory_long(cx) };
    }
    if cx.r.chance(1, 4000) {
        return many_lives(cx);
    }
    let r = &mut cx.r;
    let z = match r.below(3) {
        0 => Size { leaf: 64, coef: 20 },
        _ => small(r),
    };
    let e = match r.below(5) {
        0 if r.chance(1, 8) => {
            // the longest sequences of machine ratios
            let top = u64::MAX >> r.below(3);
            let n = top - r.below(4);
            Expr::V(r.chance(1, 2), n, n - 1 - r.below(4))
        }
        0 => leaf(r, 64),
        1 if r.chance(1, 20) => high(r, z),
        1 => hom_of(r, 1, z),
        2 => comb_of(r, 1, z),
        3 => {
            let x = leaf(r, 64);
            Expr::h(x, *r.pick(&[[1, 0, 0, 1], [0, 1, 1, 0], [-1, 0, 0, 1]]))
        }
        _ => expr(r, 3, z),
    };
    let stop = if r.chance(1, 3) { r.below(30) } else { u64::MAX };
    let end = End::draw(r, &e, z);
    let text = || format!("{} {}, up to {} symbols", e.show(), end.show(), stop);
    cx.st.sign(&(&e, std::mem::discriminant(&end), stop));
    cx.st.describe(text);
    let nodes = (e.size() + if let End::Compare(f, _) = &end { f.size() } else { 0 }) as i64;
    let mut symbols = 0u64;
    let mut panicked = false;
    let mut top = 0i64;
    let mut gain = 0i64;
    let mut leak = [(0i64, 0i64); 3];
    for lap in leak.iter_mut() {
        let before = alloc::live();
        alloc::reset_peak();
        // no String is made in here, so that the balance is that of the code under test
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| life(&e, &end, stop)));
        panicked |= ok.is_err();
        let (n, g) = *ok.as_ref().unwrap_or(&(0, 0));
        symbols = symbols.max(n);
        gain = gain.max(g);
        drop(ok);
        top = top.max(alloc::peak() - before.0);
        let after = alloc::live();
        *lap = (after.0 - before.0, after.1 - before.1);
    }
    cx.st.add("symbols read", symbols);
    cx.st.max("peak bytes", top as u64);
    cx.st.max("bytes gained while read", gain as u64);
    cx.st.count(if panicked { "failing programs" } else { "completing programs" });
    cx.st.count(match end {
        End::Read => "ends: read",
        End::Compare(..) => "ends: compared",
        End::Consume(_) => "ends: consumed",
        _ => "ends: unwrapped",
    });
    // The first lap may set up per-thread state once; the others must balance.
    if leak[1].1 > 0 && leak[2].1 > 0 || leak[1].0 > 0 && leak[2].0 > 0 {
        return Verdict::Fail(format!("{}: {:?} (bytes, blocks) are not released", text(), leak));
    }
    if symbols > 32 && gain > GAIN * (nodes + 1) {
        return Verdict::Fail(format!("{}: heap use grows by {} bytes over {} symbols read", text(), gain, symbols));
    }
    if top > PER_NODE * (nodes + 2) {
        return Verdict::Fail(format!("{}: {} bytes held by {} operations", text(), top, nodes));
    }
    Verdict::Pass(symbols >= 2 || panicked)
}

// ---------------------------------------------------------------- C16

struct Live {
    e: Expr,
    want: Canon,
    clog: Clog,
    n: u64,
}

/// Takes a number, partly read or not, out of the pool and compares it, consumes it or makes it
/// an operand. Some(verdict) only if something is wrong.
fn mingle(pool: &mut Vec<Live>, i: usize, cx: &mut Cx) -> Option<Verdict> {
    let r = &mut cx.r;
    let l = pool.swap_remove(i);
    let among = pool.len();
    let rest = |l: &Live| Expr::T(Box::new(l.e.clone()), l.n as u32);
    let q = l.want.q();
    let bad = |what: String, m: &str, roomy: bool| {
        if forbidden(m) || is_divzero(m) || roomy {
            Some(Verdict::Fail(format!("{} fails among {} live numbers with: {}", what, among, m)))
        } else {
            None
        }
    };
    match r.below(4) {
        0 if !pool.is_empty() => {
            let j = r.below(pool.len() as u64) as usize;
            let o = pool.swap_remove(j);
            let want = q.cmp(&o.want.q());
            let what = || format!("comparing {} with {}", rest(&l).show(), rest(&o).show());
            let roomy = shadow::roomy(&l.e) && shadow::roomy(&o.e);
            let text = what();
            match guarded(|| Number::compare(Number::Other(None, l.clog), Number::Other(None, o.clog))) {
                Ok(got) if got == want => None,
                Ok(got) => Some(Verdict::Fail(format!("{} says {:?} among {} live numbers, must be {:?}", text, got, among, want))),
                Err(m) => bad(text, &m, roomy),
            }
        }
        1 => {
            let text = format!("consuming {}", rest(&l).show());
            let roomy = shadow::roomy(&l.e);
            let got = guarded(|| {
                let (y, a, b, c, d) = Number::consume(Number::Other(None, l.clog));
                (y, [a as i64, b as i64, c as i64, d as i64])
            });
            match got {
                Ok((Some(_), _)) if !roomy => None,
                Ok((y, k)) => match check_consumed(&q, y, k, cx.st) {
                    Ok(_) => None,
                    Err(m) => Some(Verdict::Fail(format!("{} among {} live numbers: {}", text, among, m))),
                },
                Err(m) => bad(text, &m, roomy),
            }
        }
        _ if l.e.size() > 8 => None,
        _ => {
            let z = small(r);
            let two = !pool.is_empty() && r.chance(1, 2);
            let (e, x) = if two {
                let j = r.below(pool.len() as u64) as usize;
                if pool[j].e.size() > 8 {
                    return None;
                }
                let o = pool.swap_remove(j);
                let k = coefs8(r, z.coef, Some((&q, &o.want.q())), Aim::Any);
                let e = Expr::c(rest(&l), rest(&o), k);
                (e, guarded(|| comb(Number::Other(None, l.clog), Number::Other(None, o.clog), &k)))
            } else {
                let k = coefs4(r, z.coef, Some(&q), Aim::Any);
                let e = Expr::h(rest(&l), k);
                (e, guarded(|| hom(Number::Other(None, l.clog), &k)))
            };
            match (x, e.eval()) {
                (Ok(_), Err(_)) => Some(Verdict::Fail(format!("{}: zero denominator not reported among {} live numbers", e.show(), among))),
                (Err(m), w) => {
                    if w.is_err() && is_divzero(&m) {
                        return None;
                    }
                    let roomy = shadow::roomy(&e);
                    bad(e.show(), &m, roomy)
                }
                (Ok(x), Ok(q)) => {
                    let (h, c) = represent(&q);
                    if h != head_of(&x) {
                        return Some(Verdict::Fail(format!("{}: must start as {:?} but starts as {:?} among {} live numbers", e.show(), h, head_of(&x), among)));
                    }
                    if let (Number::Other(_, clog), Some(want)) = (x, c) {
                        pool.push(Live { e, want, clog, n: 0 });
                    }
                    None
                }
            }
        }
    }
}

pub fn c16(cx: &mut Cx) -> Verdict {
    let mut pool: Vec<Live> = vec![];
    let mut steps = 0u64;
    let (mut finished, mut dropped, mut failed, mut mingled) = (0u64, 0u64, 0u64, 0u64);
    let crowd = cx.r.chance(1, 60);
    let (budget, room) = if crowd { (20_000, 5000) } else { (cx.r.range(200, 600) as u64, 24) };
    let mut sig = 0u64;
    while steps < budget {
        steps += 1;
        let r = &mut cx.r;
        if pool.len() < room && (pool.is_empty() || r.chance(1, if crowd { 2 } else { 6 })) {
            let z = small(r);
            let e = if r.chance(1, 4) && !pool.is_empty() {
                pool[r.below(pool.len() as u64) as usize].e.clone()
            } else if r.chance(1, 10) {
                hom_of(r, 0, Size { leaf: 64, coef: 64 })
            } else if r.chance(1, 40) {
                high(r, z)
            } else {
                expr(r, 2, z)
            };
            cx.st.sign(&e);
            sig = sig.wrapping_add(1);
            let want = e.eval();
            match (guarded(|| e.build()), want) {
                (Ok(_), Err(_)) => return Verdict::Fail(format!("{}: zero denominator not reported", e.show())),
                (Err(m), w) => {
                    failed += 1;
                    let expected = w.is_err() && is_divzero(&m);
                    if !expected && (forbidden(&m) || is_divzero(&m) || shadow::roomy(&e)) {
                        return Verdict::Fail(format!("{}: fails among {} live numbers with: {}", e.show(), pool.len(), m));
                    }
                }
                (Ok(x), Ok(q)) => {
                    let (h, c) = represent(&q);
                    if h != head_of(&x) {
                        return Verdict::Fail(format!("{}: must start as {:?} but starts as {:?} among {} live numbers", e.show(), h, head_of(&x), pool.len()));
                    }
                    if let (Number::Other(_, clog), Some(want)) = (x, c) {
                        pool.push(Live { e, want, clog, n: 0 });
                    }
                }
            }
            continue;
        }
        let i = r.below(pool.len() as u64) as usize;
        if r.chance(1, 40) {
            pool.swap_remove(i);
            dropped += 1;
            continue;
        }
        if r.chance(1, 15) {
            // other uses of live numbers, as far as they are unread
            if let Some(v) = mingle(&mut pool, i, cx) {
                return v;
            }
            mingled += 1;
            continue;
        }
        let burst = if crowd { 1 } else { r.range(1, 4) };
        let l = &mut pool[i];
        let mut end = false;
        for _ in 0..burst {
            let w = l.want.next();
            match guarded(|| l.clog.egest().map(|s| sym_of(&s))) {
                Ok(s) if s == w => {
                    l.n += 1;
                    end = s.is_none();
                    if end {
                        break;
                    }
                }
                Ok(s) => {
                    return Verdict::Fail(format!("{}: symbol {} must be {:?} but is {:?} when read among other numbers", l.e.show(), l.n, w, s));
                }
                Err(m) => {
                    if forbidden(&m) || is_divzero(&m) || shadow::roomy(&l.e) {
                        return Verdict::Fail(format!("{}: fails after {} symbols among other numbers with: {}", l.e.show(), l.n, m));
                    }
                    failed += 1;
                    end = true;
                    break;
                }
            }
        }
        if end {
            pool.swap_remove(i);
            finished += 1;
        }
    }
    let live = pool.len() as u64;
    if crowd {
        cx.st.count("crowds");
    }
    cx.st.describe(|| format!("{} steps, {} numbers finished, {} dropped, {} failed, {} still live", steps, finished, dropped, failed, live));
    cx.st.add("steps", steps);
    cx.st.add("numbers finished", finished);
    cx.st.add("numbers dropped early", dropped);
    cx.st.add("numbers failed", failed);
    cx.st.add("numbers compared, consumed or made operands", mingled);
    cx.st.max("live numbers", live);
    Verdict::Pass(finished >= 3)
}

// ---------------------------------------------------------------- C17

/// Reads a number until a read fails, then judges what can still be got out of it.
/// None when no read fails.
pub fn after_failure(x: Number, want: &Q, text: &str, cx: &mut Cx) -> Option<Verdict> {
    let (h, c) = represent(want);
    // wrong heads are judged elsewhere
    let right = head_of(&x) == h;
    let (mut c, mut g) = match (c, x) {
        (Some(c), Number::Other(_, g)) if right => (c, g),
        _ => return None,
    };
    let mut n = 0u64;
    loop {
        let rest = c;
        let w = c.next();
        match guarded(|| g.egest().map(|s| sym_of(&s))) {
            Ok(s) if s == w && s.is_some() => n += 1,
            Ok(_) => return None,
            Err(_) => {
                c = rest;
                break;
            }
        }
    }
    cx.st.count("reads that failed");
    cx.st.max("longest sequence", n);
    let r = &mut cx.r;
    let rest = c.q();
    let how = r.below(8);
    let say = |m: String| Some(Verdict::Fail(format!("{}, after a read failed behind {} symbols: {}", text, n, m)));
    match how {
        0..=3 => {
            // further reads
            let mut refused = 0;
            for i in 0..2000 {
                let before = c;
                let w = c.next();
                match guarded(|| g.egest().map(|s| sym_of(&s))) {
                    Err(_) if refused >= 40 => break,
                    Err(_) => {
                        c = before;
                        refused += 1;
                    }
                    Ok(s) if s == w => {
                        cx.st.count("later reads that continue");
                        if s.is_none() {
                            break;
                        }
                    }
                    Ok(s) => return say(format!("read {} delivers {:?} where {:?} is due", i + 1, s, w)),
                }
                cx.st.count("later reads");
            }
        }
        4 => {
            let k = coefs4(r, 3, Some(&rest), Aim::Any);
            if let Ok(want) = hom_value(&rest, &k) {
                if let Ok(z) = guarded(|| hom(Number::Other(None, g), &k)) {
                    if let Outcome::Wrong(m) = watch(z, &want, 5000, 1) {
                        return say(format!("{:?} of the rest: {}", k, m));
                    }
                }
            }
            cx.st.count("operations on the rest");
        }
        5 => {
            let y = leaf(r, 4);
            if let Ok(vy) = y.eval() {
                let k = coefs8(r, 3, Some((&rest, &vy)), Aim::Any);
                if let Ok(want) = comb_value(&rest, &vy, &k) {
                    if let Ok(z) = guarded(|| comb(Number::Other(None, g), y.build(), &k)) {
                        if let Outcome::Wrong(m) = watch(z, &want, 5000, 1) {
                            return say(format!("{:?} of the rest and {}: {}", k, y.show(), m));
                        }
                    }
                }
            }
            cx.st.count("operations on the rest");
        }
        6 => {
            let d = r.range(2, 6);
            let (y, v) = (Expr::R(1, d), Q { n: Z::from(1), d: U::from(d as u128) });
            if let Ok(o) = guarded(|| Number::compare(Number::Other(None, g), y.build())) {
                if o != rest.cmp(&v) {
                    return say(format!("comparing the rest with {} gives {:?}", y.show(), o));
                }
            }
            cx.st.count("comparisons of the rest");
        }
        _ => {
            if let Ok((y, a, b, c, d)) = guarded(|| Number::consume(Number::Other(None, g))) {
                let k = [a as i64, b as i64, c as i64, d as i64];
                // a returned remainder may fail like the number it is taken from
                if y.is_none() {
                    if let Err(m) = check_consumed(&rest, y, k, cx.st) {
                        return say(m);
                    }
                }
            }
            cx.st.count("rests consumed");
        }
    }
    Some(Verdict::Pass(true))
}

pub fn c17(cx: &mut Cx) -> Verdict {
    if crate::trace::HOOK && cx.r.chance(1, 3) {
        return crate::trace::flaky(cx);
    }
    let e = extreme_program(&mut cx.r);
    let want = match e.eval() {
        Ok(q) => q,
        Err(_) => return Verdict::Skip("zero denominator"),
    };
    cx.st.sign(&e);
    let text = e.show();
    cx.st.describe(|| text.clone());
    match guarded(|| e.build()) {
        Ok(x) => after_failure(x, &want, &text, cx).unwrap_or(Verdict::Pass(false)),
        Err(_) => Verdict::Skip("fails while building"),
    }
}

// ---------------------------------------------------------------- C20

pub fn c20(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let z = small(r);
    let e = match r.below(6) {
        0 | 1 => {
            let bits = *r.pick(&[2, 3, 8, 64]);
            leaf(r, bits)
        }
        2 => Expr::R(r.range(-2, 2), r.range(1, 2)),
        3 => hom_of(r, 0, z),
        4 if r.chance(1, 20) => high(r, z),
        4 => comb_of(r, 0, z),
        _ => expr(r, 2, z),
    };
    let want = match e.eval() {
        Ok(q) => q,
        Err(_) => return Verdict::Skip("zero denominator"),
    };
    let special = represent(&want).1.is_none();
    cx.st.sign(&e);
    cx.st.describe(|| e.show());
    let x = match guarded(|| (e.build(), e.build(), e.build())) {
        Ok(x) => x,
        Err(_) => return Verdict::Skip("range exhausted"),
    };
    if head_of(&x.0) != represent(&want).0 {
        return Verdict::Skip("wrong head, judged elsewhere");
    }
    let fail = |m: &str| Verdict::Fail(format!("{}, which is {}: {}", e.show(), want.show(), m));
    let s = guarded(|| x.0.unwrap_special());
    let o = guarded(|| x.1.unwrap_other());
    match (special, s, o) {
        (true, Ok(s), Err(_)) => {
            cx.st.count("special values taken out");
            let head = head_of(&Number::Special(s));
            if head != represent(&want).0 {
                return fail(&format!("{:?} was taken out", head));
            }
            cx.st.head(head);
            Verdict::Pass(true)
        }
        (false, Err(_), Ok((p, c))) => {
            cx.st.count("primers and symbols taken out");
            let y = Number::Other(p, c);
            cx.st.head(head_of(&y));
            match watch(y, &want, u64::MAX, 1) {
                Outcome::Wrong(m) => return fail(&m),
                Outcome::Complete(n) => cx.st.add("symbols checked", n),
                Outcome::Failed(..) => {
                    // it must fail in the same way without having been taken apart
                    cx.st.count("range exhausted");
                    if let Outcome::Complete(_) = watch(x.2, &want, u64::MAX, 1) {
                        return fail("cannot be read after it was taken apart and put together");
                    }
                }
            }
            Verdict::Pass(true)
        }
        (true, Err(_), _) => fail("the special value cannot be taken out"),
        (false, _, Err(_)) => fail("primer and symbols cannot be taken out"),
        (true, _, Ok(_)) => fail("a special value was taken for something else"),
        (false, Ok(_), _) => fail("a special value was taken out"),
    }
}

// ---------------------------------------------------------------- C11

/// A workload that touches every operation; the supervisor watches the process.
pub fn c11(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    match r.below(4) {
        0 => c02(cx),
        1 => c03(cx),
        2 => c04(cx),
        _ => c05(cx),
    }
}

/// Digest of everything one case delivers, without judging it.
pub fn observe(r: &mut Rng) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let z = size(r);
    let (e, f) = match r.below(4) {
        0 => (leaf(r, 64), leaf(r, 64)),
        1 => (hom_of(r, 1, z), leaf(r, z.leaf)),
        2 => (comb_of(r, 1, z), hom_of(r, 0, z)),
        _ => near_pair(r),
    };
    let op = r.below(3);
    let sequence = |x: Number, h: &mut std::collections::hash_map::DefaultHasher| {
        head_of(&x).hash(h);
        if let Number::Other(_, mut c) = x {
            for _ in 0..5000 {
                match c.egest() {
                    Some(s) => sym_of(&s).hash(h),
                    None => break,
                }
            }
        }
    };
    let ok = guarded(|| match op {
        0 => sequence(e.build(), &mut h),
        1 => (Number::compare(e.build(), f.build()) as i8).hash(&mut h),
        _ => {
            let (y, a, b, c, d) = Number::consume(e.build());
            (a, b, c, d).hash(&mut h);
            if let Some(y) = y {
                sequence(y, &mut h)
            }
        }
    });
    match ok {
        Ok(()) => 0u8.hash(&mut h),
        Err(m) => is_divzero(&m).hash(&mut h),
    }
    h.finish()
}

// ---------------------------------------------------------------- C21

/// What a number delivers, and how it goes on after its end or failure.
fn transcript(x: Number, out: &mut String) {
    out.push_str(&format!("{:?} ", head_of(&x)));
    if let Number::Other(_, mut c) = x {
        let mut over = 0;
        for _ in 0..6000 {
            match guarded(|| c.egest()) {
                Ok(Some(s)) => out.push(if sym_of(&s) == Sym::A { 'A' } else { 'U' }),
                Ok(None) => {
                    out.push('H');
                    over += 1;
                }
                Err(m) => {
                    out.push(if is_divzero(&m) { '0' } else { '!' });
                    over += 1;
                }
            }
            if over > 2 {
                break;
            }
        }
    }
}

/// Everything that can be seen of one case; the check compares it between builds.
pub fn c21(cx: &mut Cx) -> Verdict {
    let r = &mut cx.r;
    let z = size(r);
    let (e, f) = match r.below(10) {
        0 => (leaf(r, 64), leaf(r, 64)),
        1 => (hom_of(r, 1, z), leaf(r, z.leaf)),
        2 => (comb_of(r, 1, z), hom_of(r, 0, z)),
        3 => near_pair(r),
        4..=6 => (extreme_program(r), extreme_program(r)),
        7 => (operand(r, z), operand(r, z)),
        8 => {
            let t = Expr::T(Box::new(operand(r, z)), cut(r));
            (if r.chance(1, 2) { Expr::P(Box::new(t), r.below(4) as u8) } else { t }, any_leaf(r))
        }
        _ => (scaled_leaf(r), any_leaf(r)),
    };
    let op = r.below(6);
    let mut out = String::new();
    let ok = guarded(|| match op {
        0..=2 => transcript(e.build(), &mut out),
        3 => out.push_str(&format!("{:?}", Number::compare(e.build(), f.build()))),
        4 => {
            let mut rest = Some(e.build());
            for _ in 0..4 {
                if let Some(x) = rest {
                    let (y, a, b, c, d) = Number::consume(x);
                    out.push_str(&format!("{} {} {} {} ", a, b, c, d));
                    rest = y;
                }
            }
            if let Some(x) = rest {
                transcript(x, &mut out)
            }
        }
        _ => {
            let x = e.build();
            if r.chance(1, 2) {
                out.push_str(&format!("{:?}", head_of(&Number::Special(x.unwrap_special()))));
            } else {
                let (p, c) = x.unwrap_other();
                transcript(Number::Other(p, c), &mut out);
            }
        }
    });
    if let Err(m) = &ok {
        out.push_str(if is_divzero(m) { "division by zero" } else { "failure" });
        cx.st.count(if is_divzero(m) { "zero denominators" } else { "failures outside reading" });
    } else {
        cx.st.count("completed");
    }
    if out.contains('!') {
        cx.st.count("failed reads");
    }
    cx.st.add("characters of transcripts", out.len() as u64);
    let what = ["read", "read", "read", "compare", "consume", "unwrap"][op as usize];
    cx.st.sign(&out);
    cx.st.describe(|| format!("{} {} {} -> {}", what, e.show(), if op == 3 { f.show() } else { String::new() }, out));
    Verdict::Pass(ok.is_ok() && out.len() > 4)
}
