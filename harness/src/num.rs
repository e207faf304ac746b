//! Exact integers (i128 with automatic promotion to arbitrary precision) and exact scaling of
//! doubles to integers. Used only by the oracles.
use std::cmp::Ordering;
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big {
    neg: bool,
    mag: Vec<u64>, // little endian, no leading zero limbs; zero = empty and !neg
}
impl Big {
    fn from_i128(v: i128) -> Big {
        let m = v.unsigned_abs();
        let mut mag = vec![m as u64, (m >> 64) as u64];
        trim(&mut mag);
        Big { neg: v < 0, mag }
    }
    fn sign(&self) -> i32 {
        if self.mag.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    fn demote(self) -> Int {
        if self.mag.len() <= 2 {
            let m = self.mag.first().copied().unwrap_or(0) as u128
                | ((self.mag.get(1).copied().unwrap_or(0) as u128) << 64);
            if m < (1u128 << 127) {
                let v = m as i128;
                return Int::S(if self.neg { -v } else { v });
            }
        }
        Int::B(self)
    }
}
fn trim(m: &mut Vec<u64>) {
    while m.last() == Some(&0) {
        m.pop();
    }
}
fn cmp_mag(a: &[u64], b: &[u64]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let (s, c1) = a[i].overflowing_add(*b.get(i).unwrap_or(&0));
        let (s, c2) = s.overflowing_add(c);
        c = c1 as u64 + c2 as u64;
        r.push(s);
    }
    if c > 0 {
        r.push(c);
    }
    r
}
fn sub_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = Vec::with_capacity(a.len());
    let mut c = 0u64;
    for i in 0..a.len() {
        let (s, c1) = a[i].overflowing_sub(*b.get(i).unwrap_or(&0));
        let (s, c2) = s.overflowing_sub(c);
        c = c1 as u64 + c2 as u64;
        r.push(s);
    }
    trim(&mut r);
    r
}
fn mul_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = vec![0u64; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + b.len()] = c as u64;
    }
    trim(&mut r);
    r
}
fn add_big(a: &Big, b: &Big) -> Big {
    if a.neg == b.neg {
        return Big { neg: a.neg, mag: add_mag(&a.mag, &b.mag) };
    }
    match cmp_mag(&a.mag, &b.mag) {
        Ordering::Equal => Big { neg: false, mag: vec![] },
        Ordering::Greater => Big { neg: a.neg, mag: sub_mag(&a.mag, &b.mag) },
        Ordering::Less => Big { neg: b.neg, mag: sub_mag(&b.mag, &a.mag) },
    }
}

/// Exact integer.
#[derive(Clone, Debug)]
pub enum Int {
    S(i128),
    B(Big),
}
use Int::*;
impl Int {
    pub fn sign(&self) -> i32 {
        match self {
            S(v) => v.signum() as i32,
            B(b) => b.sign(),
        }
    }
    fn big(&self) -> Big {
        match self {
            S(v) => Big::from_i128(*v),
            B(b) => b.clone(),
        }
    }
    pub fn is_zero(&self) -> bool {
        self.sign() == 0
    }
    pub fn shl(&self, n: u32) -> Int {
        if let S(v) = self {
            if n < 120 {
                let lim = 1i128 << (126 - n);
                if *v < lim && *v > -lim {
                    return S(*v << n);
                }
            }
        }
        let b = self.big();
        let (w, s) = ((n / 64) as usize, n % 64);
        let mut m = vec![0u64; w];
        let mut c = 0u64;
        for &x in &b.mag {
            if s == 0 {
                m.push(x);
            } else {
                m.push((x << s) | c);
                c = x >> (64 - s);
            }
        }
        if c > 0 {
            m.push(c);
        }
        trim(&mut m);
        Big { neg: b.neg && !m.is_empty(), mag: m }.demote()
    }
    pub fn abs(&self) -> Int {
        if self.sign() < 0 {
            -self
        } else {
            self.clone()
        }
    }
    /// Closest double up to a relative error of a few 2^-52 (diagnostics and tolerance checks).
    pub fn approx(&self) -> (f64, i32) {
        match self {
            S(v) => (*v as f64, 0),
            B(b) => {
                let n = b.mag.len();
                let hi = b.mag[n - 1] as f64 * 18446744073709551616.0
                    + if n > 1 { b.mag[n - 2] as f64 } else { 0.0 };
                (if b.neg { -hi } else { hi }, (n as i32 - 2) * 64)
            }
        }
    }
}
impl PartialEq for Int {
    fn eq(&self, o: &Int) -> bool {
        (self - o).sign() == 0
    }
}
impl Eq for Int {}
impl PartialOrd for Int {
    fn partial_cmp(&self, o: &Int) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Int {
    fn cmp(&self, o: &Int) -> Ordering {
        (self - o).sign().cmp(&0)
    }
}
impl From<i128> for Int {
    fn from(v: i128) -> Int {
        S(v)
    }
}
impl From<i64> for Int {
    fn from(v: i64) -> Int {
        S(v as i128)
    }
}
impl<'a> Add<&'a Int> for &'a Int {
    type Output = Int;
    fn add(self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if let Some(r) = a.checked_add(*b) {
                if r != i128::MIN {
                    return S(r);
                }
            }
        }
        add_big(&self.big(), &o.big()).demote()
    }
}
impl<'a> Sub<&'a Int> for &'a Int {
    type Output = Int;
    fn sub(self, o: &Int) -> Int {
        self + &(-o)
    }
}
impl Neg for &Int {
    type Output = Int;
    fn neg(self) -> Int {
        match self {
            S(v) => S(-v),
            B(b) => B(Big { neg: !b.neg, mag: b.mag.clone() }),
        }
    }
}
impl<'a> Mul<&'a Int> for &'a Int {
    type Output = Int;
    fn mul(self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if let Some(r) = a.checked_mul(*b) {
                if r != i128::MIN {
                    return S(r);
                }
            }
        }
        let (a, b) = (self.big(), o.big());
        let mag = mul_mag(&a.mag, &b.mag);
        Big { neg: (a.neg != b.neg) && !mag.is_empty(), mag }.demote()
    }
}
macro_rules! fwd {
    ($t:ident,$m:ident) => {
        impl $t<Int> for Int {
            type Output = Int;
            fn $m(self, o: Int) -> Int {
                (&self).$m(&o)
            }
        }
        impl<'a> $t<&'a Int> for Int {
            type Output = Int;
            fn $m(self, o: &Int) -> Int {
                (&self).$m(o)
            }
        }
        impl<'a> $t<Int> for &'a Int {
            type Output = Int;
            fn $m(self, o: Int) -> Int {
                self.$m(&o)
            }
        }
    };
}
fwd!(Add, add);
fwd!(Sub, sub);
fwd!(Mul, mul);
impl Neg for Int {
    type Output = Int;
    fn neg(self) -> Int {
        -&self
    }
}

/// v = m * 2^e with odd m (or m = 0).
pub fn decompose(v: f64) -> (i64, i32) {
    assert!(v.is_finite(), "not finite: {v}");
    if v == 0.0 {
        return (0, i32::MAX);
    }
    let b = v.to_bits();
    let ex = ((b >> 52) & 0x7ff) as i32;
    let fr = (b & ((1u64 << 52) - 1)) as i64;
    let (mut m, mut e) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
    let z = m.trailing_zeros();
    m >>= z;
    e += z as i32;
    (if v < 0.0 { -m } else { m }, e)
}
/// Smallest exponent such that every value is an integer multiple of 2^exponent.
pub fn min_exp<'a>(v: impl IntoIterator<Item = &'a f64>) -> i32 {
    v.into_iter().map(|&x| decompose(x).1).min().unwrap_or(0).min(i32::MAX)
}
/// v / 2^e as an exact integer (e at most v's own exponent).
pub fn to_int(v: f64, e: i32) -> Int {
    let (m, x) = decompose(v);
    if m == 0 {
        return S(0);
    }
    assert!(x >= e);
    S(m as i128).shl((x - e) as u32)
}
/// Scales all values by one common power of two to exact integers.
pub fn ints(v: &[f64]) -> Vec<Int> {
    let e = min_exp(v);
    v.iter().map(|&x| if x == 0.0 { S(0) } else { to_int(x, e) }).collect()
}

/// Exact dyadic number m * 2^e.
#[derive(Clone, Debug)]
pub struct Dy {
    pub m: Int,
    pub e: i32,
}
impl Dy {
    pub fn new(v: f64) -> Dy {
        let (m, e) = decompose(v);
        Dy { m: S(m as i128), e: if m == 0 { 0 } else { e } }
    }
    pub fn zero() -> Dy {
        Dy { m: S(0), e: 0 }
    }
    fn align(&self, o: &Dy) -> (Int, Int, i32) {
        if self.m.is_zero() {
            return (S(0), o.m.clone(), o.e);
        }
        if o.m.is_zero() {
            return (self.m.clone(), S(0), self.e);
        }
        let e = self.e.min(o.e);
        (self.m.shl((self.e - e) as u32), o.m.shl((o.e - e) as u32), e)
    }
    pub fn add(&self, o: &Dy) -> Dy {
        let (a, b, e) = self.align(o);
        Dy { m: a + b, e }
    }
    pub fn sub(&self, o: &Dy) -> Dy {
        let (a, b, e) = self.align(o);
        Dy { m: a - b, e }
    }
    pub fn mul(&self, o: &Dy) -> Dy {
        Dy { m: &self.m * &o.m, e: self.e + o.e }
    }
    pub fn neg(&self) -> Dy {
        Dy { m: -&self.m, e: self.e }
    }
    pub fn sign(&self) -> i32 {
        self.m.sign()
    }
    pub fn cmp(&self, o: &Dy) -> Ordering {
        self.sub(o).sign().cmp(&0)
    }
    pub fn sum(v: &[f64]) -> Dy {
        v.iter().fold(Dy::zero(), |a, &x| a.add(&Dy::new(x)))
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basic() {
        // promotion and demotion against a modular check
        let p = 1_000_000_007i128;
        let modp = |i: &Int| -> i128 {
            match i {
                S(v) => v.rem_euclid(p),
                B(b) => {
                    let mut r = 0i128;
                    for &l in b.mag.iter().rev() {
                        r = ((r << 64) % p * 1 + (l as i128)) % p;
                    }
                    if b.neg {
                        (p - r) % p
                    } else {
                        r
                    }
                }
            }
        };
        let mut x = S(3);
        let mut xm = 3i128;
        for i in 0..60i128 {
            let k = S((i - 30) * 987654321987654321 + 7);
            let km = modp(&k);
            let y = &x * &k;
            let z = &y + &x;
            let w = &z - &y;
            assert_eq!(modp(&y), xm * km % p);
            assert_eq!(w, x);
            assert_eq!(modp(&x.shl(67)), xm * ((1i128 << 67) % p) % p);
            if i % 7 == 6 {
                x = S(5 + i);
                xm = 5 + i;
            } else {
                xm = modp(&z);
                x = z;
            }
        }
        assert_eq!(Dy::new(0.1).add(&Dy::new(-0.1)).sign(), 0);
        assert_eq!(Dy::new(5e-324).mul(&Dy::new(1e300)).cmp(&Dy::new(0.0)), Ordering::Greater);
    }
}
