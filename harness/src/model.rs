//! Executable specification of the representation (from the documentation of
//! `clarith::protocol`): what head and which symbols a rational must have.

use crate::big::*;
use clarith::protocol::{Primer, Reduction, Special};
use clarith::Number;
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sym {
    A,
    U,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Head {
    Zero,
    PosOne,
    NegOne,
    Plain,
    Turn,
    Reflect,
    Ground,
}

impl Head {
    pub fn is_special(self) -> bool {
        matches!(self, Head::Zero | Head::PosOne | Head::NegOne)
    }
}

/// Representation state: fraction in (0,1), n < d, both nonzero.
#[derive(Clone, Copy)]
pub struct Canon {
    pub n: U,
    pub d: U,
}

impl Canon {
    /// Next symbol of the canonical expansion; None exactly at one half.
    pub fn next(&mut self) -> Option<Sym> {
        match self.n.dbl().cmp(&self.d) {
            Ordering::Equal => None,
            Ordering::Less => {
                if self.d.is_even() {
                    self.d = self.d.half();
                } else {
                    self.n = self.n.dbl();
                }
                Some(Sym::A)
            }
            Ordering::Greater => {
                let n = self.d.sub(&self.n);
                self.d = self.n;
                self.n = n;
                Some(Sym::U)
            }
        }
    }
    pub fn q(&self) -> Q {
        Q { n: Z::u(self.n), d: self.d }
    }
}

/// The head a value must have, and the fraction its symbols must expand.
pub fn represent(v: &Q) -> (Head, Option<Canon>) {
    if v.n.is_zero() {
        return (Head::Zero, None);
    }
    match v.n.m.cmp(&v.d) {
        Ordering::Equal => (if v.n.neg { Head::NegOne } else { Head::PosOne }, None),
        Ordering::Less => (if v.n.neg { Head::Reflect } else { Head::Plain }, Some(Canon { n: v.n.m, d: v.d })),
        Ordering::Greater => (if v.n.neg { Head::Ground } else { Head::Turn }, Some(Canon { n: v.d, d: v.n.m })),
    }
}

/// Value of a head applied to a fraction in (0,1).
pub fn apply_head(h: Head, c: &Canon) -> Q {
    match h {
        Head::Plain => Q { n: Z::u(c.n), d: c.d },
        Head::Reflect => Q { n: Z { neg: true, m: c.n }, d: c.d },
        Head::Turn => Q { n: Z::u(c.d), d: c.n },
        Head::Ground => Q { n: Z { neg: true, m: c.d }, d: c.n },
        Head::Zero => Q::int(0),
        Head::PosOne => Q::int(1),
        Head::NegOne => Q::int(-1),
    }
}

/// Inverse direction, used as a second oracle: the fraction denoted by symbols.
pub fn decode(syms: &[Sym]) -> Canon {
    let (mut n, mut d) = (U::from(1), U::from(2));
    for s in syms.iter().rev() {
        match s {
            Sym::A => {
                if n.is_even() {
                    n = n.half();
                } else {
                    d = d.dbl();
                }
            }
            Sym::U => {
                let t = n.add(&d);
                n = d;
                d = t;
            }
        }
    }
    Canon { n, d }
}

pub fn head_of(x: &Number) -> Head {
    match x {
        Number::Special(Special::Zero) => Head::Zero,
        Number::Special(Special::PosOne) => Head::PosOne,
        Number::Special(Special::NegOne) => Head::NegOne,
        Number::Other(None, _) => Head::Plain,
        Number::Other(Some(Primer::Turn), _) => Head::Turn,
        Number::Other(Some(Primer::Reflect), _) => Head::Reflect,
        Number::Other(Some(Primer::Ground), _) => Head::Ground,
    }
}

pub fn primer_of(h: Head) -> Option<Primer> {
    match h {
        Head::Turn => Some(Primer::Turn),
        Head::Reflect => Some(Primer::Reflect),
        Head::Ground => Some(Primer::Ground),
        _ => None,
    }
}

pub fn sym_of(r: &Reduction) -> Sym {
    match r {
        Reduction::Amplify => Sym::A,
        Reduction::Uncover => Sym::U,
    }
}

pub fn show_syms(s: &[Sym]) -> String {
    s.iter().map(|x| if *x == Sym::A { 'A' } else { 'U' }).collect()
}
