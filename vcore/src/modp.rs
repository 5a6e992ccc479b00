//! Polynomials over prime fields, irreducibility certificates over Q, and a slow
//! complete factoriser (big-prime Zassenhaus without lifting) used as an oracle.
use crate::q::{self, Z};
use crate::src::Rng;
use crate::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};

/// prime field
pub trait F: Clone {
    type E: Clone + PartialEq + std::fmt::Debug;
    fn zero(&self) -> Self::E;
    fn one(&self) -> Self::E;
    fn add(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn sub(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn mul(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn inv(&self, a: &Self::E) -> Self::E;
    fn from(&self, a: &BigInt) -> Self::E;
    fn to(&self, a: &Self::E) -> BigInt;
    fn p(&self) -> BigInt;
    fn rand(&self, r: &mut Rng) -> Self::E;
    fn is_zero(&self, a: &Self::E) -> bool {
        *a == self.zero()
    }
}
#[derive(Clone)]
pub struct F64(pub u64);
impl F for F64 {
    type E = u64;
    fn zero(&self) -> u64 {
        0
    }
    fn one(&self) -> u64 {
        1 % self.0
    }
    fn add(&self, a: &u64, b: &u64) -> u64 {
        ((*a as u128 + *b as u128) % self.0 as u128) as u64
    }
    fn sub(&self, a: &u64, b: &u64) -> u64 {
        ((*a as u128 + self.0 as u128 - *b as u128) % self.0 as u128) as u64
    }
    fn mul(&self, a: &u64, b: &u64) -> u64 {
        ((*a as u128 * *b as u128) % self.0 as u128) as u64
    }
    fn inv(&self, a: &u64) -> u64 {
        let (mut r, mut b, mut e) = (1u64, *a, self.0 - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = self.mul(&r, &b);
            }
            b = self.mul(&b, &b);
            e >>= 1;
        }
        r
    }
    fn from(&self, a: &BigInt) -> u64 {
        a.mod_floor(&BigInt::from(self.0)).to_u64().unwrap()
    }
    fn to(&self, a: &u64) -> BigInt {
        BigInt::from(*a)
    }
    fn p(&self) -> BigInt {
        self.0.into()
    }
    fn rand(&self, r: &mut Rng) -> u64 {
        r.next() % self.0
    }
}
#[derive(Clone)]
pub struct FB(pub BigInt);
impl F for FB {
    type E = BigInt;
    fn zero(&self) -> BigInt {
        BigInt::zero()
    }
    fn one(&self) -> BigInt {
        BigInt::one()
    }
    fn add(&self, a: &BigInt, b: &BigInt) -> BigInt {
        let s = a + b;
        if s >= self.0 { s - &self.0 } else { s }
    }
    fn sub(&self, a: &BigInt, b: &BigInt) -> BigInt {
        let s = a - b;
        if s.is_negative() { s + &self.0 } else { s }
    }
    fn mul(&self, a: &BigInt, b: &BigInt) -> BigInt {
        (a * b) % &self.0
    }
    fn inv(&self, a: &BigInt) -> BigInt {
        a.modpow(&(&self.0 - 2), &self.0)
    }
    fn from(&self, a: &BigInt) -> BigInt {
        a.mod_floor(&self.0)
    }
    fn to(&self, a: &BigInt) -> BigInt {
        a.clone()
    }
    fn p(&self) -> BigInt {
        self.0.clone()
    }
    fn rand(&self, r: &mut Rng) -> BigInt {
        let mut v = BigInt::zero();
        for _ in 0..(self.0.bits() / 64 + 1) {
            v = (v << 64) + r.next();
        }
        v % &self.0
    }
}
pub type Pf<T> = Vec<<T as F>::E>;
pub fn trim<T: F>(f: &T, p: &mut Pf<T>) {
    while p.last().map_or(false, |c| f.is_zero(c)) {
        p.pop();
    }
}
pub fn from_z<T: F>(f: &T, z: &Z) -> Pf<T> {
    let mut r: Pf<T> = z.iter().map(|c| f.from(c)).collect();
    trim(f, &mut r);
    r
}
pub fn sub<T: F>(f: &T, a: &Pf<T>, b: &Pf<T>) -> Pf<T> {
    let n = a.len().max(b.len());
    let z = f.zero();
    let mut r: Pf<T> = (0..n).map(|i| f.sub(a.get(i).unwrap_or(&z), b.get(i).unwrap_or(&z))).collect();
    trim(f, &mut r);
    r
}
pub fn mul<T: F>(f: &T, a: &Pf<T>, b: &Pf<T>) -> Pf<T> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![f.zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        if f.is_zero(x) {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            r[i + j] = f.add(&r[i + j], &f.mul(x, y));
        }
    }
    trim(f, &mut r);
    r
}
pub fn divrem<T: F>(f: &T, a: &Pf<T>, b: &Pf<T>) -> (Pf<T>, Pf<T>) {
    assert!(!b.is_empty());
    let mut r = a.clone();
    if r.len() < b.len() {
        return (vec![], r);
    }
    let il = f.inv(b.last().unwrap());
    let mut quo = vec![f.zero(); r.len() - b.len() + 1];
    for k in (0..quo.len()).rev() {
        let c = f.mul(&r[k + b.len() - 1], &il);
        if !f.is_zero(&c) {
            for (j, y) in b.iter().enumerate() {
                r[k + j] = f.sub(&r[k + j], &f.mul(&c, y));
            }
        }
        quo[k] = c;
    }
    trim(f, &mut r);
    trim(f, &mut quo);
    (quo, r)
}
pub fn monic<T: F>(f: &T, a: &Pf<T>) -> Pf<T> {
    match a.last() {
        None => vec![],
        Some(l) => {
            let il = f.inv(l);
            a.iter().map(|c| f.mul(c, &il)).collect()
        }
    }
}
pub fn gcd<T: F>(f: &T, a: &Pf<T>, b: &Pf<T>) -> Pf<T> {
    let (mut x, mut y) = (a.clone(), b.clone());
    while !y.is_empty() {
        let r = divrem(f, &x, &y).1;
        x = y;
        y = r;
    }
    monic(f, &x)
}
pub fn powmod<T: F>(f: &T, a: &Pf<T>, e: &BigInt, m: &Pf<T>) -> Pf<T> {
    let mut r: Pf<T> = divrem(f, &vec![f.one()], m).1;
    let base = divrem(f, a, m).1;
    for i in (0..e.bits()).rev() {
        r = divrem(f, &mul(f, &r, &r), m).1;
        if e.bit(i) {
            r = divrem(f, &mul(f, &r, &base), m).1;
        }
    }
    r
}
pub fn deriv<T: F>(f: &T, a: &Pf<T>) -> Pf<T> {
    let mut r: Pf<T> = a.iter().enumerate().skip(1).map(|(i, c)| f.mul(c, &f.from(&BigInt::from(i)))).collect();
    trim(f, &mut r);
    r
}
pub fn squarefree<T: F>(f: &T, a: &Pf<T>) -> bool {
    let d = deriv(f, a);
    !d.is_empty() && gcd(f, a, &d).len() == 1
}
/// distinct-degree factorisation of a monic square-free polynomial: (degree, product)
pub fn ddf<T: F>(f: &T, a: &Pf<T>) -> Vec<(usize, Pf<T>)> {
    let mut out = vec![];
    let mut rest = monic(f, a);
    let x: Pf<T> = vec![f.zero(), f.one()];
    let mut h = divrem(f, &x, &rest).1;
    let mut d = 0;
    while rest.len() > 1 {
        d += 1;
        if 2 * d > rest.len() - 1 {
            out.push((rest.len() - 1, rest.clone()));
            break;
        }
        h = powmod(f, &h, &f.p(), &rest);
        let g = gcd(f, &rest, &sub(f, &h, &x));
        if g.len() > 1 {
            rest = divrem(f, &rest, &g).0;
            h = divrem(f, &h, &rest).1;
            out.push((d, g));
        }
    }
    out
}
/// degrees of the irreducible factors
pub fn degrees<T: F>(f: &T, a: &Pf<T>) -> Vec<usize> {
    let mut v = vec![];
    for (d, g) in ddf(f, a) {
        for _ in 0..(g.len() - 1) / d {
            v.push(d);
        }
    }
    v
}
pub fn is_irreducible<T: F>(f: &T, a: &Pf<T>) -> bool {
    if a.len() < 2 {
        return false;
    }
    if a.len() == 2 {
        return true;
    }
    squarefree(f, a) && degrees(f, a).len() == 1
}
/// equal-degree splitting (odd characteristic)
pub fn edf<T: F>(f: &T, a: &Pf<T>, d: usize, r: &mut Rng) -> Vec<Pf<T>> {
    let n = a.len() - 1;
    if n == d {
        return vec![monic(f, a)];
    }
    let e: BigInt = (num_traits::pow(f.p(), d) - 1) / 2;
    loop {
        let mut t: Pf<T> = (0..n).map(|_| f.rand(r)).collect();
        trim(f, &mut t);
        if t.len() < 2 {
            continue;
        }
        let h = powmod(f, &t, &e, a);
        let g = gcd(f, a, &sub(f, &h, &vec![f.one()]));
        if g.len() > 1 && g.len() < a.len() {
            let o = divrem(f, a, &g).0;
            let mut v = edf(f, &g, d, r);
            v.extend(edf(f, &o, d, r));
            return v;
        }
    }
}
pub const SMALL_PRIMES: [u64; 24] = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97];
/// true = certainly irreducible over Q (degree-set argument); false = inconclusive
pub fn irreducible_certificate(z: &Z, tries: usize) -> bool {
    let n = z.len() - 1;
    if n == 1 {
        return true;
    }
    let mut possible: u128 = (1u128 << (n + 1)) - 1;
    for p in SMALL_PRIMES.iter().take(tries) {
        let f = F64(*p);
        let m = from_z(&f, z);
        if m.len() != z.len() || !squarefree(&f, &m) {
            continue;
        }
        let mut set: u128 = 1;
        for d in degrees(&f, &m) {
            set |= set << d;
        }
        possible &= set;
        if possible == (1 | (1 << n)) {
            return true;
        }
    }
    false
}
pub fn is_probable_prime(n: &BigInt) -> bool {
    if *n < BigInt::from(4) {
        return *n == BigInt::from(2) || *n == BigInt::from(3);
    }
    if n.is_even() {
        return false;
    }
    let m: BigInt = n - 1;
    let s = m.trailing_zeros().unwrap();
    let d = &m >> s;
    'w: for a in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43] {
        let a = BigInt::from(a) % n;
        if a.is_zero() {
            continue;
        }
        let mut x = a.modpow(&d, n);
        if x.is_one() || x == m {
            continue;
        }
        for _ in 1..s {
            x = &x * &x % n;
            if x == m {
                continue 'w;
            }
        }
        return false;
    }
    true
}
/// complete irreducibility decision for a primitive square-free integer polynomial
pub fn is_irreducible_q(z: &Z) -> bool {
    if z.len() < 2 {
        return false;
    }
    if z.len() == 2 || irreducible_certificate(z, 24) {
        return true;
    }
    find_factor(z).is_none()
}
/// a proper factor over Z of a square-free primitive polynomial, if any
pub fn find_factor(z: &Z) -> Option<Z> {
    let n = z.len() - 1;
    // Mignotte: |coef| <= 2^n * (n+1) * max * lead
    let mx = z.iter().map(|c| c.abs()).max().unwrap();
    let bound = (BigInt::one() << (n + 2)) * BigInt::from(n + 1) * mx * z.last().unwrap().abs();
    let mut p: BigInt = bound | BigInt::one();
    let f = loop {
        if is_probable_prime(&p) {
            let f = FB(p.clone());
            let m = from_z(&f, z);
            if m.len() == z.len() && squarefree(&f, &m) {
                break f;
            }
        }
        p += 2;
    };
    let m = monic(&f, &from_z(&f, z));
    let mut rng = Rng::new(0x5eed);
    let mut facs = vec![];
    for (d, g) in ddf(&f, &m) {
        facs.extend(edf(&f, &g, d, &mut rng));
    }
    let k = facs.len();
    assert!(k <= 24, "too many modular factors for the oracle");
    let lead = f.from(z.last().unwrap());
    let half = &f.0 / 2;
    let zq = q::z2q(z);
    for size in 1..=k / 2 {
        for mask in 0u32..(1 << k) {
            if mask.count_ones() as usize != size {
                continue;
            }
            let mut g: Vec<BigInt> = vec![lead.clone()];
            for (i, h) in facs.iter().enumerate() {
                if mask >> i & 1 == 1 {
                    g = mul(&f, &g, h);
                }
            }
            let lift: Z = g.iter().map(|c| if *c > half { c - &f.0 } else { c.clone() }).collect();
            let cand = q::zprimitive(&lift);
            if q::divrem(&zq, &q::z2q(&cand)).1.is_empty() {
                return Some(cand);
            }
        }
    }
    None
}
/// complete factorisation of a square-free primitive polynomial (oracle)
pub fn factor_squarefree(z: &Z) -> Vec<Z> {
    if z.len() <= 2 || irreducible_certificate(z, 12) {
        return vec![z.clone()];
    }
    match find_factor(z) {
        None => vec![z.clone()],
        Some(g) => {
            let o = q::primitive(&q::divrem(&q::z2q(z), &q::z2q(&g)).0);
            let mut v = factor_squarefree(&g);
            v.extend(factor_squarefree(&o));
            v
        }
    }
}
/// irreducible and non-constant, for any primitive polynomial
pub fn is_irreducible_q_any(z: &Z) -> bool {
    let p = q::z2q(z);
    z.len() >= 2 && q::gcd(&p, &q::deriv(&p)).len() == 1 && is_irreducible_q(z)
}
