//! Programs over the public API of the crate: how a Number was produced.
//! Every program has an exact meaning (`eval`) and a real execution (`build`).

use crate::big::*;
use crate::model::*;
use clarith::Number;

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Expr {
    /// Number::ratio
    R(i64, i64),
    /// Number::ratio_u
    V(bool, u64, u64),
    /// Number::homographic
    H(Box<Expr>, [i64; 4]),
    /// Number::combine
    C(Box<Expr>, Box<Expr>, [i64; 8]),
    /// Number::consume, then put back together with Number::homographic
    K(Box<Expr>),
    /// pull up to k symbols, go on with the rest as a Number in (0,1);
    /// odd k also reads past the end when it gets there
    T(Box<Expr>, u32),
    /// put another primer in front of the same symbols
    P(Box<Expr>, u8),
}

pub struct DivZero;

pub fn head_code(c: u8) -> Head {
    [Head::Plain, Head::Turn, Head::Reflect, Head::Ground][(c & 3) as usize]
}

pub fn hom_value(x: &Q, k: &[i64; 4]) -> Result<Q, DivZero> {
    let z = |v: i64| Z::from(v as i128);
    let lin = |a: i64, b: i64| z(a).mul(&x.n).add(&z(b).mul(&Z::u(x.d)));
    Q::new(lin(k[0], k[1]), lin(k[2], k[3])).ok_or(DivZero)
}

pub fn comb_value(x: &Q, y: &Q, k: &[i64; 8]) -> Result<Q, DivZero> {
    let z = |v: i64| Z::from(v as i128);
    let (xn, xd, yn, yd) = (x.n, Z::u(x.d), y.n, Z::u(y.d));
    let (nn, nd, dn, dd) = (xn.mul(&yn), xn.mul(&yd), xd.mul(&yn), xd.mul(&yd));
    let bil = |k: &[i64]| z(k[0]).mul(&nn).add(&z(k[1]).mul(&nd)).add(&z(k[2]).mul(&dn)).add(&z(k[3]).mul(&dd));
    Q::new(bil(&k[0..4]), bil(&k[4..8])).ok_or(DivZero)
}

impl Expr {
    pub fn h(x: Expr, k: [i64; 4]) -> Expr {
        Expr::H(Box::new(x), k)
    }
    pub fn c(x: Expr, y: Expr, k: [i64; 8]) -> Expr {
        Expr::C(Box::new(x), Box::new(y), k)
    }

    /// Exact meaning.
    pub fn eval(&self) -> Result<Q, DivZero> {
        match self {
            Expr::R(n, d) => Q::new(Z::from(*n as i128), Z::from(*d as i128)).ok_or(DivZero),
            Expr::V(pos, n, d) => {
                let n = Z::from(if *pos { *n as i128 } else { -(*n as i128) });
                Q::new(n, Z::from(*d as i128)).ok_or(DivZero)
            }
            Expr::H(x, k) => hom_value(&x.eval()?, k),
            Expr::C(x, y, k) => {
                let x = x.eval()?;
                comb_value(&x, &y.eval()?, k)
            }
            Expr::K(x) => x.eval(),
            Expr::T(x, k) => {
                let v = x.eval()?;
                Ok(match represent(&v) {
                    (_, None) => v,
                    (_, Some(mut c)) => {
                        for _ in 0..*k {
                            if c.next().is_none() {
                                break;
                            }
                        }
                        c.q()
                    }
                })
            }
            Expr::P(x, p) => {
                let v = x.eval()?;
                Ok(match represent(&v) {
                    (_, None) => v,
                    (_, Some(c)) => apply_head(head_code(*p), &c),
                })
            }
        }
    }

    /// Real execution (may panic).
    pub fn build(&self) -> Number {
        match self {
            Expr::R(n, d) => Number::ratio(*n as isize, *d as isize),
            Expr::V(pos, n, d) => Number::ratio_u(*pos, *n as usize, *d as usize),
            Expr::H(x, k) => hom(x.build(), k),
            Expr::C(x, y, k) => {
                let x = x.build();
                comb(x, y.build(), k)
            }
            Expr::K(x) => {
                let (y, nx, n, dx, d) = Number::consume(x.build());
                Number::homographic(y.unwrap_or_else(|| Number::ratio(1, 2)), nx, n, dx, d)
            }
            Expr::T(x, k) => match x.build() {
                Number::Other(_, mut c) => {
                    for _ in 0..*k {
                        if c.egest().is_none() {
                            if k % 2 == 1 {
                                // insist, the end must be final
                                assert!(c.egest().is_none() && c.egest().is_none(), "logic error: symbol after the end");
                            }
                            break;
                        }
                    }
                    Number::Other(None, c)
                }
                s => s,
            },
            Expr::P(x, p) => match x.build() {
                Number::Other(_, c) => Number::Other(primer_of(head_code(*p)), c),
                s => s,
            },
        }
    }

    pub fn size(&self) -> usize {
        match self {
            Expr::R(..) | Expr::V(..) => 1,
            Expr::H(x, _) | Expr::K(x) | Expr::T(x, _) | Expr::P(x, _) => 1 + x.size(),
            Expr::C(x, y, _) => 1 + x.size() + y.size(),
        }
    }

    pub fn show(&self) -> String {
        let join = |k: &[i64]| k.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
        match self {
            Expr::R(n, d) => format!("(r {} {})", n, d),
            Expr::V(p, n, d) => format!("(v {} {} {})", if *p { '+' } else { '-' }, n, d),
            Expr::H(x, k) => format!("(h {} {})", x.show(), join(k)),
            Expr::C(x, y, k) => format!("(c {} {} {})", x.show(), y.show(), join(k)),
            Expr::K(x) => format!("(k {})", x.show()),
            Expr::T(x, k) => format!("(t {} {})", x.show(), k),
            Expr::P(x, p) => format!("(p {} {})", x.show(), p),
        }
    }

    /// Parse a whitespace separated list of programs.
    pub fn parse_many(s: &str) -> Option<Vec<Expr>> {
        let t: Vec<String> =
            s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
        let mut i = 0;
        let mut v = vec![];
        while i < t.len() {
            v.push(Expr::parse_at(&t, &mut i)?);
        }
        Some(v)
    }

    fn parse_at(t: &[String], i: &mut usize) -> Option<Expr> {
        fn num<T: std::str::FromStr>(t: &[String], i: &mut usize) -> Option<T> {
            let r = t.get(*i)?.parse().ok();
            *i += 1;
            r
        }
        if t.get(*i)? != "(" {
            return None;
        }
        let op = t.get(*i + 1)?.clone();
        *i += 2;
        let e = match op.as_str() {
            "r" => Expr::R(num(t, i)?, num(t, i)?),
            "v" => {
                let p = t.get(*i)? == "+";
                *i += 1;
                Expr::V(p, num(t, i)?, num(t, i)?)
            }
            "h" => {
                let x = Expr::parse_at(t, i)?;
                let mut k = [0; 4];
                for v in k.iter_mut() {
                    *v = num(t, i)?;
                }
                Expr::h(x, k)
            }
            "c" => {
                let x = Expr::parse_at(t, i)?;
                let y = Expr::parse_at(t, i)?;
                let mut k = [0; 8];
                for v in k.iter_mut() {
                    *v = num(t, i)?;
                }
                Expr::c(x, y, k)
            }
            "k" => Expr::K(Box::new(Expr::parse_at(t, i)?)),
            "t" => Expr::T(Box::new(Expr::parse_at(t, i)?), num(t, i)?),
            "p" => Expr::P(Box::new(Expr::parse_at(t, i)?), num(t, i)?),
            _ => return None,
        };
        if t.get(*i)? != ")" {
            return None;
        }
        *i += 1;
        Some(e)
    }
}

pub fn hom(x: Number, k: &[i64; 4]) -> Number {
    Number::homographic(x, k[0] as isize, k[1] as isize, k[2] as isize, k[3] as isize)
}

pub fn comb(x: Number, y: Number, k: &[i64; 8]) -> Number {
    let k = k.map(|v| v as isize);
    Number::combine(x, y, k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7])
}
