//! Exact arithmetic for the reference side: fixed capacity unsigned integers
//! and signed rationals. Independent of the code under test. Exceeding the
//! capacity raises `OracleCap`, which the runner counts as an inconclusive case.

use std::cmp::Ordering;

pub const LIMBS: usize = 16;

/// Panic payload: the reference ran out of digits. Never a verdict.
pub struct OracleCap;

fn cap() -> ! {
    std::panic::panic_any(OracleCap)
}

#[derive(Clone, Copy)]
pub struct U {
    len: usize,
    w: [u64; LIMBS],
}

impl U {
    pub const ZERO: U = U { len: 0, w: [0; LIMBS] };

    pub fn from(v: u128) -> U {
        let mut u = U::ZERO;
        u.w[0] = v as u64;
        u.w[1] = (v >> 64) as u64;
        u.len = if u.w[1] != 0 { 2 } else if u.w[0] != 0 { 1 } else { 0 };
        u
    }

    fn trim(&mut self) {
        while self.len > 0 && self.w[self.len - 1] == 0 {
            self.len -= 1;
        }
    }

    pub fn is_zero(&self) -> bool {
        self.len == 0
    }

    pub fn is_even(&self) -> bool {
        self.len == 0 || self.w[0] & 1 == 0
    }

    pub fn bits(&self) -> u32 {
        if self.len == 0 { 0 } else { self.len as u32 * 64 - self.w[self.len - 1].leading_zeros() }
    }

    pub fn trailing_zeros(&self) -> u32 {
        for i in 0..self.len {
            if self.w[i] != 0 {
                return i as u32 * 64 + self.w[i].trailing_zeros();
            }
        }
        0
    }

    pub fn cmp(&self, o: &U) -> Ordering {
        if self.len != o.len {
            return self.len.cmp(&o.len);
        }
        for i in (0..self.len).rev() {
            if self.w[i] != o.w[i] {
                return self.w[i].cmp(&o.w[i]);
            }
        }
        Ordering::Equal
    }

    pub fn add(&self, o: &U) -> U {
        let n = self.len.max(o.len);
        let mut r = U::ZERO;
        let mut c = 0u128;
        for i in 0..n {
            let s = self.w[i] as u128 + o.w[i] as u128 + c;
            r.w[i] = s as u64;
            c = s >> 64;
        }
        r.len = n;
        if c != 0 {
            if n == LIMBS {
                cap();
            }
            r.w[n] = c as u64;
            r.len = n + 1;
        }
        r
    }

    /// self - o, requires self >= o.
    pub fn sub(&self, o: &U) -> U {
        debug_assert!(self.cmp(o) != Ordering::Less);
        let mut r = U::ZERO;
        let mut b = 0u64;
        for i in 0..self.len {
            let (x, b1) = self.w[i].overflowing_sub(o.w[i]);
            let (y, b2) = x.overflowing_sub(b);
            r.w[i] = y;
            b = (b1 | b2) as u64;
        }
        r.len = self.len;
        r.trim();
        r
    }

    pub fn mul(&self, o: &U) -> U {
        let mut r = U::ZERO;
        if self.len + o.len > LIMBS {
            cap();
        }
        for i in 0..self.len {
            let mut c = 0u128;
            for j in 0..o.len {
                let t = self.w[i] as u128 * o.w[j] as u128 + r.w[i + j] as u128 + c;
                r.w[i + j] = t as u64;
                c = t >> 64;
            }
            r.w[i + o.len] = c as u64;
        }
        r.len = self.len + o.len;
        r.trim();
        r
    }

    pub fn dbl(&self) -> U {
        self.add(self)
    }

    pub fn shr(&self, k: u32) -> U {
        let (q, s) = ((k / 64) as usize, k % 64);
        let mut r = U::ZERO;
        if q >= self.len {
            return r;
        }
        for i in q..self.len {
            let lo = self.w[i] >> s;
            let hi = if s > 0 && i + 1 < self.len { self.w[i + 1] << (64 - s) } else { 0 };
            r.w[i - q] = lo | hi;
        }
        r.len = self.len - q;
        r.trim();
        r
    }

    pub fn half(&self) -> U {
        self.shr(1)
    }

    pub fn gcd(&self, o: &U) -> U {
        let (mut a, mut b) = (*self, *o);
        if a.is_zero() {
            return b;
        }
        if b.is_zero() {
            return a;
        }
        let k = a.trailing_zeros().min(b.trailing_zeros());
        a = a.shr(a.trailing_zeros());
        b = b.shr(b.trailing_zeros());
        loop {
            match a.cmp(&b) {
                Ordering::Equal => break,
                Ordering::Less => std::mem::swap(&mut a, &mut b),
                Ordering::Greater => {}
            }
            a = a.sub(&b);
            a = a.shr(a.trailing_zeros());
        }
        for _ in 0..k {
            a = a.dbl();
        }
        a
    }

    /// Exact or truncating division (bit by bit; used for gcd reduction and printing only).
    pub fn divrem(&self, o: &U) -> (U, U) {
        let mut q = U::ZERO;
        let mut r = U::ZERO;
        for i in (0..self.bits()).rev() {
            r = r.dbl();
            if self.w[(i / 64) as usize] >> (i % 64) & 1 == 1 {
                r.w[0] |= 1;
                if r.len == 0 {
                    r.len = 1;
                }
            }
            if r.cmp(o) != Ordering::Less {
                r = r.sub(o);
                q.w[(i / 64) as usize] |= 1 << (i % 64);
            }
        }
        q.len = LIMBS;
        q.trim();
        (q, r)
    }

    pub fn show(&self) -> String {
        if self.len <= 2 {
            return format!("{}", self.w[0] as u128 | (self.w[1] as u128) << 64);
        }
        let mut s = String::from("0x");
        for i in (0..self.len).rev() {
            s += &(if i + 1 == self.len { format!("{:x}", self.w[i]) } else { format!("{:016x}", self.w[i]) });
        }
        s
    }
}

/// Signed integer.
#[derive(Clone, Copy)]
pub struct Z {
    pub neg: bool,
    pub m: U,
}

impl Z {
    pub fn from(v: i128) -> Z {
        Z { neg: v < 0, m: U::from(v.unsigned_abs()) }
    }
    pub fn u(m: U) -> Z {
        Z { neg: false, m }
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_zero()
    }
    pub fn neg(&self) -> Z {
        Z { neg: !self.neg && !self.m.is_zero(), m: self.m }
    }
    pub fn add(&self, o: &Z) -> Z {
        if self.neg == o.neg {
            return Z { neg: self.neg, m: self.m.add(&o.m) };
        }
        match self.m.cmp(&o.m) {
            Ordering::Equal => Z::from(0),
            Ordering::Greater => Z { neg: self.neg, m: self.m.sub(&o.m) },
            Ordering::Less => Z { neg: o.neg, m: o.m.sub(&self.m) },
        }
    }
    pub fn sub(&self, o: &Z) -> Z {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Z) -> Z {
        let m = self.m.mul(&o.m);
        Z { neg: (self.neg != o.neg) && !m.is_zero(), m }
    }
    pub fn cmp(&self, o: &Z) -> Ordering {
        let s = self.sub(o);
        if s.is_zero() {
            Ordering::Equal
        } else if s.neg {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
    pub fn sgn(&self) -> i32 {
        if self.m.is_zero() { 0 } else if self.neg { -1 } else { 1 }
    }
    pub fn show(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.m.show())
    }
}

/// Rational with positive denominator (not necessarily in lowest terms).
#[derive(Clone, Copy)]
pub struct Q {
    pub n: Z,
    pub d: U,
}

impl Q {
    /// n / d; None when d is zero.
    pub fn new(n: Z, d: Z) -> Option<Q> {
        if d.is_zero() {
            return None;
        }
        let n = if d.neg { n.neg() } else { n };
        Some(Q { n, d: d.m }.small())
    }

    /// Lowest terms when the numbers get big, to keep chains within capacity.
    fn small(self) -> Q {
        if self.n.m.bits().max(self.d.bits()) > 192 {
            self.reduced()
        } else {
            self
        }
    }

    pub fn reduced(self) -> Q {
        if self.n.is_zero() {
            return Q { n: self.n, d: U::from(1) };
        }
        let g = self.n.m.gcd(&self.d);
        if g.bits() <= 1 {
            return self;
        }
        Q { n: Z { neg: self.n.neg, m: self.n.m.divrem(&g).0 }, d: self.d.divrem(&g).0 }
    }

    pub fn int(v: i128) -> Q {
        Q { n: Z::from(v), d: U::from(1) }
    }

    pub fn cmp(&self, o: &Q) -> Ordering {
        self.n.mul(&Z::u(o.d)).cmp(&o.n.mul(&Z::u(self.d)))
    }

    pub fn show(&self) -> String {
        let r = self.reduced();
        format!("{}/{}", r.n.show(), r.d.show())
    }
}

impl U {
    pub fn low(&self) -> u64 {
        self.w[0]
    }
}
