//! Exact rational constants.
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Q {
    pub n: BigInt,
    pub d: BigInt,
}

impl Q {
    pub fn new(n: BigInt, d: BigInt) -> Q {
        assert!(!d.is_zero());
        if d.is_one() {
            return Q { n, d };
        }
        let g = n.gcd(&d);
        let (mut n, mut d) = (n / &g, d / &g);
        if d.sign() == Sign::Minus {
            n = -n;
            d = -d;
        }
        Q { n, d }
    }
    pub fn int<I: Into<BigInt>>(i: I) -> Q {
        Q { n: i.into(), d: BigInt::one() }
    }
    pub fn zero() -> Q {
        Q::int(0)
    }
    pub fn one() -> Q {
        Q::int(1)
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn is_one(&self) -> bool {
        self.n.is_one() && self.d.is_one()
    }
    pub fn is_int(&self) -> bool {
        self.d.is_one()
    }
    pub fn neg(&self) -> Q {
        Q { n: -&self.n, d: self.d.clone() }
    }
    pub fn add(&self, o: &Q) -> Q {
        if self.d.is_one() && o.d.is_one() {
            return Q { n: &self.n + &o.n, d: BigInt::one() };
        }
        Q::new(&self.n * &o.d + &o.n * &self.d, &self.d * &o.d)
    }
    pub fn mul(&self, o: &Q) -> Q {
        if self.d.is_one() && o.d.is_one() {
            return Q { n: &self.n * &o.n, d: BigInt::one() };
        }
        Q::new(&self.n * &o.n, &self.d * &o.d)
    }
    pub fn inv(&self) -> Q {
        assert!(!self.n.is_zero());
        Q::new(self.d.clone(), self.n.clone())
    }
    pub fn pow(&self, e: i32) -> Q {
        let b = if e < 0 { self.inv() } else { self.clone() };
        let e = e.unsigned_abs();
        Q { n: num_traits::pow(b.n, e as usize), d: num_traits::pow(b.d, e as usize) }
    }
    /// SMT-LIB real literal.
    pub fn smt(&self) -> String {
        fn i(n: &BigInt) -> String {
            if n.is_negative() {
                format!("(- {}.0)", -n)
            } else {
                format!("{}.0", n)
            }
        }
        if self.d.is_one() {
            i(&self.n)
        } else {
            format!("(/ {} {})", i(&self.n), i(&self.d))
        }
    }
}

impl std::fmt::Display for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.d.is_one() {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
