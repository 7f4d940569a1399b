//! Workload generators. Deterministic in the Rng handed in.

use crate::big::*;
use crate::expr::*;
use crate::model::*;
use crate::rng::Rng;

/// A magnitude below 2^bits (bits <= 64), from a mixture of shapes.
pub fn mag(r: &mut Rng, bits: u32) -> u64 {
    let cap: u64 = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match r.below(12) {
        0 | 1 => r.below(13),
        2 | 3 | 4 => {
            let b = r.range(1, bits as i64) as u32;
            r.next() >> (64 - b)
        }
        5 => 1u64 << r.below(bits as u64),
        6 => (1u64 << r.below(bits as u64)).wrapping_sub(r.below(4)),
        7 => (1u64 << r.below(bits as u64)).wrapping_add(r.below(4)),
        8 => cap - r.below(5).min(cap),
        9 => {
            // Fibonacci
            let (mut a, mut b) = (1u64, 1u64);
            for _ in 0..r.below(92) {
                if b > cap {
                    break;
                }
                let c = a.wrapping_add(b);
                a = b;
                b = c;
            }
            a
        }
        10 => {
            // smooth
            let mut v = 1u64;
            for _ in 0..r.below(24) {
                let w = v.wrapping_mul(*r.pick(&[2, 2, 2, 3, 5, 7]));
                if w > cap || w < v {
                    break;
                }
                v = w;
            }
            v
        }
        _ => {
            // a few bits set
            let mut v = 0;
            for _ in 0..r.range(1, 4) {
                v |= 1u64 << r.below(bits as u64);
            }
            v
        }
    };
    if v > cap {
        v & cap
    } else {
        v
    }
}

pub fn signed(r: &mut Rng, bits: u32) -> i64 {
    if bits >= 64 && r.chance(1, 12) {
        return *r.pick(&[i64::MIN, i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1]);
    }
    let m = mag(r, bits.min(63)) as i64;
    if r.chance(1, 2) {
        m
    } else {
        -m
    }
}

pub fn coef(r: &mut Rng, bits: u32) -> i64 {
    match r.below(8) {
        0 | 1 => 0,
        2 => 1 - 2 * r.below(2) as i64,
        3 => r.range(-4, 4),
        _ => signed(r, bits),
    }
}

/// Random symbol string with run structure.
pub fn symbols(r: &mut Rng, len: usize) -> Vec<Sym> {
    let style = r.below(6);
    let pa = *r.pick(&[10u64, 25, 50, 50, 75, 90]);
    let period: Vec<Sym> = (0..r.range(1, 7)).map(|_| if r.chance(pa, 100) { Sym::A } else { Sym::U }).collect();
    let mut v = Vec::with_capacity(len);
    while v.len() < len {
        match style {
            0 => v.push(period[v.len() % period.len()]),
            1 => {
                for _ in 0..r.below(12) {
                    v.push(Sym::A);
                }
                v.push(Sym::U);
            }
            2 => {
                for _ in 0..r.below(8) {
                    v.push(Sym::U);
                }
                v.push(Sym::A);
            }
            _ => v.push(if r.chance(pa, 100) { Sym::A } else { Sym::U }),
        }
    }
    v.truncate(len);
    v
}

/// Fraction of at most `bits` bits denoted by a random symbol string (made back to front).
fn from_symbols(r: &mut Rng, bits: u32) -> (u64, u64) {
    let cap: u128 = (1u128 << bits.min(64)) - 1;
    let len = match r.below(3) {
        0 => r.range(0, 8),
        1 => r.range(0, 60),
        _ => 4000,
    } as usize;
    let (mut n, mut d) = (1u128, 2u128);
    for s in symbols(r, len).iter().rev() {
        let (n2, d2) = match s {
            Sym::A => {
                if n % 2 == 0 {
                    (n / 2, d)
                } else {
                    (n, d * 2)
                }
            }
            Sym::U => (d, n + d),
        };
        if d2 > cap {
            break;
        }
        n = n2;
        d = d2;
    }
    if bits < 2 {
        return (1, 1);
    }
    (n as u64, d as u64)
}

/// Unsigned pair with nonzero second member.
pub fn pair(r: &mut Rng, bits: u32) -> (u64, u64) {
    let (mut n, mut d) = match r.below(8) {
        0 | 1 => (mag(r, bits), mag(r, bits)),
        2 => {
            let v = mag(r, bits);
            (v, v.wrapping_add(r.below(3)).wrapping_sub(1))
        }
        3 => {
            let n = mag(r, bits);
            (n, (n << 1).wrapping_add(r.below(3)).wrapping_sub(1))
        }
        4 => {
            // not in lowest terms
            let g = mag(r, (bits / 2).max(1)).max(1);
            let h = bits - (64 - g.leading_zeros()).min(bits - 1);
            (mag(r, h).wrapping_mul(g), mag(r, h).wrapping_mul(g))
        }
        _ => from_symbols(r, bits),
    };
    let cap: u64 = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    n &= cap;
    d &= cap;
    if d == 0 {
        d = 1;
    }
    if r.chance(1, 2) && n != 0 {
        std::mem::swap(&mut n, &mut d);
    }
    (n, d)
}

/// Leaf program with terms below 2^bits.
pub fn leaf(r: &mut Rng, bits: u32) -> Expr {
    let (n, d) = pair(r, bits);
    if r.chance(1, 4) || n > i64::MAX as u64 || d > i64::MAX as u64 {
        if r.chance(1, 40) && bits >= 64 {
            return Expr::R(if r.chance(1, 2) { i64::MIN } else { signed(r, 64) }, if r.chance(1, 2) { i64::MIN } else { signed(r, 64) | 1 });
        }
        return Expr::V(r.chance(1, 2), n, d);
    }
    let (n, d) = (n as i64, d as i64);
    Expr::R(if r.chance(1, 2) { n } else { -n }, if r.chance(3, 4) { d } else { -d })
}

fn small_terms(x: &Q) -> Option<(i64, i64)> {
    let x = x.reduced();
    if x.n.m.bits() > 40 || x.d.bits() > 40 {
        return None;
    }
    let n = x.n.m.low() as i64;
    Some((if x.n.neg { -n } else { n }, x.d.low() as i64))
}

fn fit(v: i128) -> Option<i64> {
    if v.unsigned_abs() <= i64::MAX as u128 {
        Some(v as i64)
    } else {
        None
    }
}

fn targets(r: &mut Rng) -> (i64, i64) {
    match r.below(10) {
        0 | 1 => (0, 1),
        2 => (1, 1),
        3 => (-1, 1),
        4 => (1, 2),
        5 => (1, 0),
        6 => (*r.pick(&[1, -1, 2, -2, 3]), *r.pick(&[2, 3, 4])),
        7 => (*r.pick(&[2, -2, 3, -3, 4]), 1),
        _ => (r.range(-20, 20), r.range(1, 20)),
    }
}

pub enum Aim {
    Any,
    Pole,
}

/// Coefficients by which the operands move the result by a hair, close to a place where the next symbol changes.
fn hair(r: &mut Rng, bits: u32, k: &mut [i64]) {
    let n = k.len() / 2;
    let wb = (*r.pick(&[2, 3, 4, 6])).min(bits / 2);
    for v in k.iter_mut() {
        *v = if r.chance(1, 3) { 0 } else { r.range(-(1 << wb), 1 << wb) };
    }
    let (s, u) = if r.chance(1, 2) { *r.pick(&[(1, 1), (1, 2), (-1, 1), (-1, 2)]) } else { targets(r) };
    let bits = bits.min(63).saturating_sub(5).max(1);
    let m = if r.chance(1, 2) { signed(r, bits) } else { (1 << bits) + (r.next() >> (64 - bits)) as i64 };
    let i = r.below(n as u64) as usize;
    k[i] = k[i].saturating_add(s.saturating_mul(m));
    k[n + i] = k[n + i].saturating_add(u.saturating_mul(m));
}

/// Coefficients of a homographic transformation meant for operand x.
pub fn coefs4(r: &mut Rng, bits: u32, x: Option<&Q>, aim: Aim) -> [i64; 4] {
    let pole = matches!(aim, Aim::Pole);
    let style = if pole { 6 } else { r.below(11) };
    let c = |r: &mut Rng| coef(r, bits);
    match style {
        0 => {
            let s = |r: &mut Rng| if r.chance(1, 2) { 1 } else { -1 };
            let (p, q) = (signed(r, bits), signed(r, bits));
            match r.below(8) {
                0 => [1, p, 0, 1],
                1 => [p, 0, 0, q],
                2 => [0, p, q, 0],
                3 => [s(r), 0, 0, 1],
                4 => [0, s(r), 1, 0],
                5 => [s(r), p, 0, s(r)],
                6 => [0, 1, s(r), p],
                _ => [1, s(r), s(r), 1],
            }
        }
        1 => {
            // degenerate: rows proportional
            let w = [signed(r, bits.div_ceil(2)), signed(r, bits.div_ceil(2))];
            let (a, b) = (signed(r, bits / 2), signed(r, bits / 2));
            [a.wrapping_mul(w[0]), a.wrapping_mul(w[1]), b.wrapping_mul(w[0]), b.wrapping_mul(w[1])]
        }
        2 => {
            // zero mask, large values
            let m = r.below(16);
            let mut k = [0; 4];
            for (i, v) in k.iter_mut().enumerate() {
                if m >> i & 1 == 1 {
                    *v = signed(r, bits);
                }
            }
            k
        }
        3 => {
            // even coefficients
            let s = r.below(6);
            let mut k = [0; 4];
            for v in k.iter_mut() {
                *v = coef(r, bits.saturating_sub(s as u32).max(1)).wrapping_shl(s as u32);
            }
            k
        }
        4 | 5 | 6 | 7 => {
            if let Some((p, q)) = x.and_then(small_terms) {
                let (s, u) = if pole { (if r.chance(1, 6) { 0 } else { 1 }, 0) } else { targets(r) };
                let wb = (bits / 3).max(1);
                let (w0, w1) = (coef(r, wb), coef(r, wb));
                let (a, b) = (coef(r, wb), coef(r, wb));
                let f = |s: i64, w: i64, a: i64, z: i64| fit(s as i128 * w as i128 + a as i128 * z as i128);
                if let (Some(k0), Some(k1), Some(k2), Some(k3)) =
                    (f(s, w0, a, q), f(s, w1, a, -p), f(u, w0, b, q), f(u, w1, b, -p))
                {
                    let mut k = [k0, k1, k2, k3];
                    if !pole && r.chance(1, 3) {
                        let i = r.below(4) as usize;
                        k[i] = k[i].wrapping_add(if r.chance(1, 2) { 1 } else { -1 });
                    }
                    return k;
                }
            }
            if pole {
                [c(r), c(r), 0, 0]
            } else {
                [c(r), c(r), c(r), c(r)]
            }
        }
        8 => {
            let mut k = [0; 4];
            hair(r, bits, &mut k);
            k
        }
        _ => [c(r), c(r), c(r), c(r)],
    }
}

/// Coefficients of a combination meant for operands x and y.
pub fn coefs8(r: &mut Rng, bits: u32, xy: Option<(&Q, &Q)>, aim: Aim) -> [i64; 8] {
    let pole = matches!(aim, Aim::Pole);
    let style = if pole { 6 } else { r.below(13) };
    match style {
        0 | 1 => {
            let mut k = *r.pick(&[
                [0, 1, 1, 0, 0, 0, 0, 1],
                [0, 1, -1, 0, 0, 0, 0, 1],
                [1, 0, 0, 0, 0, 0, 0, 1],
                [0, 1, 0, 0, 0, 0, 1, 0],
                [0, 0, 1, 0, 0, 1, 0, 0],
                [0, 0, 0, 1, 1, 0, 0, 0],
                [1, 0, 0, 0, 0, 1, 1, 0],
                [0, 1, 1, 0, 0, 0, 0, 2],
                [0, 1, 1, 0, -1, 0, 0, 1],
                [1, 0, 0, 1, 0, 1, 1, 0],
                [0, 1, -1, 0, 0, 1, 1, 0],
            ]);
            if r.chance(1, 2) {
                let s = signed(r, bits);
                for v in k.iter_mut() {
                    if *v != 0 && r.chance(1, 3) {
                        *v = s;
                    }
                }
            }
            k
        }
        2 => {
            // depends on one operand only, or on none
            let mut k = [0; 8];
            let keep: &[usize] = *r.pick(&[&[1usize, 3, 5, 7][..], &[2, 3, 6, 7][..], &[3, 7][..], &[0, 4][..], &[0, 7][..], &[3, 4][..]]);
            for i in keep {
                k[*i] = signed(r, bits);
            }
            k
        }
        3 => {
            let mut k = [0; 8];
            let m = r.below(256);
            for (i, v) in k.iter_mut().enumerate() {
                if m >> i & 1 == 1 {
                    *v = signed(r, bits);
                }
            }
            k
        }
        4 => {
            let h = bits.div_ceil(2);
            let w = [coef(r, h), coef(r, h), coef(r, h), coef(r, h)];
            let (a, b) = (signed(r, bits / 2), signed(r, bits / 2));
            let mut k = [0; 8];
            for i in 0..4 {
                k[i] = a.wrapping_mul(w[i]);
                k[4 + i] = b.wrapping_mul(w[i]);
            }
            k
        }
        5 => {
            let s = r.below(5);
            let mut k = [0; 8];
            for v in k.iter_mut() {
                *v = coef(r, bits.saturating_sub(s as u32).max(1)).wrapping_shl(s as u32);
            }
            k
        }
        6 | 7 | 8 => {
            if let Some(((p, q), (s, t))) = xy.and_then(|(x, y)| Some((small_terms(x)?, small_terms(y)?))) {
                let (num, den) = if pole { (if r.chance(1, 6) { 0 } else { 1 }, 0) } else { targets(r) };
                let wb = (bits / 3).max(1);
                let w = [coef(r, wb), coef(r, wb), coef(r, wb), coef(r, wb)];
                let null: [[i64; 4]; 4] = [[t, -s, 0, 0], [0, 0, t, -s], [q, 0, -p, 0], [0, q, 0, -p]];
                let row = |r: &mut Rng, m: i64| -> Option<[i64; 4]> {
                    let mut v = w.map(|c| m as i128 * c as i128);
                    for z in null.iter() {
                        if r.chance(1, 2) {
                            let c = coef(r, wb) as i128;
                            for i in 0..4 {
                                v[i] += c * z[i] as i128;
                            }
                        }
                    }
                    Some([fit(v[0])?, fit(v[1])?, fit(v[2])?, fit(v[3])?])
                };
                let (n, d) = (row(r, num), row(r, den));
                if let (Some(n), Some(d)) = (n, d) {
                    let mut k = [n[0], n[1], n[2], n[3], d[0], d[1], d[2], d[3]];
                    if !pole && r.chance(1, 3) {
                        let i = r.below(8) as usize;
                        k[i] = k[i].wrapping_add(if r.chance(1, 2) { 1 } else { -1 });
                    }
                    return k;
                }
            }
            let mut k = [0; 8];
            for v in k.iter_mut().take(if pole { 4 } else { 8 }) {
                *v = coef(r, bits);
            }
            k
        }
        9 => {
            let mut k = [0; 8];
            hair(r, bits, &mut k);
            k
        }
        _ => {
            let mut k = [0; 8];
            for v in k.iter_mut() {
                *v = coef(r, bits);
            }
            k
        }
    }
}

/// Size limits (in bits) for leaves and coefficients.
#[derive(Clone, Copy)]
pub struct Size {
    pub leaf: u32,
    pub coef: u32,
}

/// Random program of at most the given depth.
pub fn expr(r: &mut Rng, depth: u32, z: Size) -> Expr {
    if depth == 0 {
        return leaf(r, z.leaf);
    }
    let d = depth - 1;
    match r.below(12) {
        0 => leaf(r, z.leaf),
        1 | 2 | 3 | 4 => hom_of(r, d, z),
        5 | 6 | 7 | 8 => comb_of(r, d, z),
        9 => {
            let k = cut(r);
            Expr::T(Box::new(expr(r, d, z)), k)
        }
        10 => {
            let k = r.below(4) as u8;
            Expr::P(Box::new(expr(r, d, z)), k)
        }
        _ => Expr::K(Box::new(expr(r, d, z))),
    }
}

pub fn cut(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => r.below(3) as u32,
        1 | 2 => r.below(12) as u32,
        _ => r.below(200) as u32,
    }
}

pub fn hom_of(r: &mut Rng, depth: u32, z: Size) -> Expr {
    let x = expr(r, depth, z);
    let v = x.eval().ok();
    let k = coefs4(r, z.coef, v.as_ref(), Aim::Any);
    Expr::h(x, k)
}

pub fn comb_of(r: &mut Rng, depth: u32, z: Size) -> Expr {
    let x = expr(r, depth, z);
    let y = if r.chance(1, 12) { x.clone() } else { expr(r, depth, z) };
    let (vx, vy) = (x.eval().ok(), y.eval().ok());
    let xy = vx.as_ref().and_then(|a| vy.as_ref().map(|b| (a, b)));
    let k = coefs8(r, z.coef, xy, Aim::Any);
    Expr::c(x, y, k)
}

const STEPS: [([i64; 4], [i64; 4]); 12] = [
    ([1, 0, 0, 1], [1, 0, 0, 1]),
    ([-1, 0, 0, 1], [-1, 0, 0, 1]),
    ([0, 1, 1, 0], [0, 1, 1, 0]),
    ([0, -1, 1, 0], [0, 1, -1, 0]),
    ([1, 1, 0, 1], [1, -1, 0, 1]),
    ([1, -1, 0, 1], [1, 1, 0, 1]),
    ([-1, 1, 0, 1], [-1, 1, 0, 1]),
    ([1, 0, 1, 1], [1, 0, -1, 1]),
    ([0, 1, 1, 1], [-1, 1, 1, 0]),
    ([2, 0, 0, 1], [1, 0, 0, 2]),
    ([1, 0, 0, 3], [3, 0, 0, 1]),
    ([3, 2, 1, 1], [1, -2, -1, 3]),
];

/// Many operations on top of each other; with `back`, all undone again in reverse order.
/// Stops early rather than divide by zero.
pub fn tower(r: &mut Rng, mut e: Expr, height: u32, back: bool) -> Expr {
    let mut undo = vec![];
    let mut v = match e.eval() {
        Ok(v) => v,
        Err(_) => return e,
    };
    for _ in 0..height {
        if r.chance(1, 8) && !back {
            e = match r.below(3) {
                0 => Expr::K(Box::new(e)),
                1 => Expr::T(Box::new(e), r.below(4) as u32),
                _ => Expr::P(Box::new(e), r.below(4) as u8),
            };
            v = match e.eval() {
                Ok(v) => v.reduced(),
                Err(_) => return e,
            };
            continue;
        }
        if r.chance(1, 4) {
            // an operand beside it
            let y = Expr::R(*r.pick(&[1, 2, 3, -1, -2, -3, 5]), *r.pick(&[1, 2, 3, 4]));
            let (k, u) = *r.pick(&[
                ([0, 1, 1, 0, 0, 0, 0, 1], [0, 1, -1, 0, 0, 0, 0, 1]),
                ([0, 1, -1, 0, 0, 0, 0, 1], [0, 1, 1, 0, 0, 0, 0, 1]),
                ([1, 0, 0, 0, 0, 0, 0, 1], [0, 1, 0, 0, 0, 0, 1, 0]),
                ([0, 1, 0, 0, 0, 0, 1, 0], [1, 0, 0, 0, 0, 0, 0, 1]),
            ]);
            if let Ok(w) = y.eval().and_then(|w| comb_value(&v, &w, &k)) {
                v = w.reduced();
                e = Expr::c(e, y.clone(), k);
                undo.push(Err((y, u)));
            }
        } else {
            let (k, u) = *r.pick(&STEPS);
            if let Ok(w) = hom_value(&v, &k) {
                v = w.reduced();
                e = Expr::h(e, k);
                undo.push(Ok(u));
            }
        }
        // a walk that gets too long would only overflow
        if v.n.m.bits() > 40 || v.d.bits() > 40 {
            break;
        }
    }
    if back {
        for u in undo.into_iter().rev() {
            e = match u {
                Ok(k) => Expr::h(e, k),
                Err((y, k)) => Expr::c(e, y, k),
            };
        }
    }
    e
}
