//! Coefficient rings: how the reference model's coefficients correspond to the crate's.
use algebraics::mod_int::{KnownPrime, ModularInteger};
use algebraics::polynomial::{Polynomial, PolynomialCoefficient};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::fmt::{Debug, Display};
use vcore::{BigInt, Ratio, Src, Q};

pub trait Ring {
    type T: PolynomialCoefficient + Display;
    type M: Clone + PartialEq + Debug;
    fn gen(&self, s: &mut Src) -> Self::M;
    fn lib(&self, m: &Self::M) -> Self::T;
    fn model(&self, t: &Self::T) -> Self::M;
    fn add(&self, a: &Self::M, b: &Self::M) -> Self::M;
    fn mul(&self, a: &Self::M, b: &Self::M) -> Self::M;
    fn neg(&self, a: &Self::M) -> Self::M;
    fn int(&self, n: i64) -> Self::M;
    fn is_zero(&self, a: &Self::M) -> bool {
        *a == self.int(0)
    }
    /// size of a coefficient, for fixed-width rings (0 where nothing can overflow)
    fn size(&self, _a: &Self::M) -> BigInt {
        BigInt::zero()
    }
    fn fits(&self, _b: &BigInt) -> bool {
        true
    }
    fn text(&self, a: &Self::M) -> String;
    const VAR: &'static str = "X";
    const PAREN: bool = false;
}
/// rings where every nonzero element has an inverse in the model (the field of fractions)
pub trait Frac: Ring {
    fn inv(&self, a: &Self::M) -> Option<Self::M>;
    /// is the model value an element of the ring itself
    fn inside(&self, _a: &Self::M) -> bool {
        true
    }
}

pub struct Zr;
impl Ring for Zr {
    type T = BigInt;
    type M = Q;
    fn gen(&self, s: &mut Src) -> Q {
        Q::from(match s.weighted(&[3, 4, 1]) {
            0 => BigInt::from(s.int(-2, 2)),
            1 => BigInt::from(s.int(-12, 12)),
            _ => s.bigint(100),
        })
    }
    fn lib(&self, m: &Q) -> BigInt {
        assert!(m.is_integer());
        m.numer().clone()
    }
    fn model(&self, t: &BigInt) -> Q {
        Q::from(t.clone())
    }
    fn add(&self, a: &Q, b: &Q) -> Q {
        a + b
    }
    fn mul(&self, a: &Q, b: &Q) -> Q {
        a * b
    }
    fn neg(&self, a: &Q) -> Q {
        -a
    }
    fn int(&self, n: i64) -> Q {
        Q::from(BigInt::from(n))
    }
    fn text(&self, a: &Q) -> String {
        a.to_string()
    }
}
impl Frac for Zr {
    fn inv(&self, a: &Q) -> Option<Q> {
        if a.is_zero() { None } else { Some(a.recip()) }
    }
    fn inside(&self, a: &Q) -> bool {
        a.is_integer()
    }
}
pub struct Qr;
impl Ring for Qr {
    type T = Ratio<BigInt>;
    type M = Q;
    fn gen(&self, s: &mut Src) -> Q {
        match s.weighted(&[3, 4, 1]) {
            0 => Q::from(BigInt::from(s.int(-2, 2))),
            1 => s.small_ratio(9, 6),
            _ => s.ratio(60),
        }
    }
    fn lib(&self, m: &Q) -> Q {
        m.clone()
    }
    fn model(&self, t: &Q) -> Q {
        t.clone()
    }
    fn add(&self, a: &Q, b: &Q) -> Q {
        a + b
    }
    fn mul(&self, a: &Q, b: &Q) -> Q {
        a * b
    }
    fn neg(&self, a: &Q) -> Q {
        -a
    }
    fn int(&self, n: i64) -> Q {
        Q::from(BigInt::from(n))
    }
    fn text(&self, a: &Q) -> String {
        a.to_string()
    }
}
impl Frac for Qr {
    fn inv(&self, a: &Q) -> Option<Q> {
        if a.is_zero() { None } else { Some(a.recip()) }
    }
}
/// ratios of i64, kept small
pub struct Rr;
impl Ring for Rr {
    type T = Ratio<i64>;
    type M = Q;
    fn gen(&self, s: &mut Src) -> Q {
        let n = s.int(-6, 6);
        let d = *s.pick(&[1i64, 1, 2, 3, 4]);
        Q::new(n.into(), d.into())
    }
    fn lib(&self, m: &Q) -> Ratio<i64> {
        Ratio::new(m.numer().to_i64().unwrap(), m.denom().to_i64().unwrap())
    }
    fn model(&self, t: &Ratio<i64>) -> Q {
        Q::new((*t.numer()).into(), (*t.denom()).into())
    }
    fn add(&self, a: &Q, b: &Q) -> Q {
        a + b
    }
    fn mul(&self, a: &Q, b: &Q) -> Q {
        a * b
    }
    fn neg(&self, a: &Q) -> Q {
        -a
    }
    fn int(&self, n: i64) -> Q {
        Q::from(BigInt::from(n))
    }
    fn text(&self, a: &Q) -> String {
        a.to_string()
    }
    /// elements over a common denominator
    fn size(&self, a: &Q) -> BigInt {
        a.numer().abs() * 12i32 + a.denom()
    }
    fn fits(&self, b: &BigInt) -> bool {
        b.bits() < 30
    }
}
impl Frac for Rr {
    fn inv(&self, a: &Q) -> Option<Q> {
        if a.is_zero() { None } else { Some(a.recip()) }
    }
}
/// fixed-width integers
pub struct Ir<T>(pub std::marker::PhantomData<T>);
macro_rules! ir {
    ($($t:ident $f:ident),*) => {$(
        impl Ring for Ir<$t> {
            type T = $t;
            type M = Q;
            fn gen(&self, s: &mut Src) -> Q {
                Q::from(match s.weighted(&[4, 2, 1]) {
                    0 => BigInt::from(s.int(-3, 3)),
                    1 => s.bigint($t::BITS as usize / 2 - 2),
                    _ => {
                        let m = BigInt::from($t::MAX) - s.int(0, 2);
                        if s.bool() { -m } else { m }
                    }
                })
            }
            fn lib(&self, m: &Q) -> $t { assert!(m.is_integer()); m.numer().$f().unwrap() }
            fn model(&self, t: &$t) -> Q { Q::from(BigInt::from(*t)) }
            fn add(&self, a: &Q, b: &Q) -> Q { a + b }
            fn mul(&self, a: &Q, b: &Q) -> Q { a * b }
            fn neg(&self, a: &Q) -> Q { -a }
            fn int(&self, n: i64) -> Q { Q::from(BigInt::from(n)) }
            fn text(&self, a: &Q) -> String { a.to_string() }
            fn size(&self, a: &Q) -> BigInt { a.numer().abs() }
            fn fits(&self, b: &BigInt) -> bool { *b <= BigInt::from($t::MAX) }
        }
        impl Frac for Ir<$t> {
            fn inv(&self, a: &Q) -> Option<Q> { if a.is_zero() { None } else { Some(a.recip()) } }
            fn inside(&self, a: &Q) -> bool { a.is_integer() }
        }
    )*};
}
ir!(i8 to_i8, i16 to_i16, i32 to_i32, i64 to_i64, i128 to_i128, isize to_isize);

/// integers modulo m, with the modulus value held in V (plain) or marked prime
pub struct Mr<V> {
    pub m: BigInt,
    pub v: V,
}
pub struct Pr<V> {
    pub m: BigInt,
    pub v: V,
}
fn mod_gen(m: &BigInt, s: &mut Src) -> BigInt {
    match s.weighted(&[3, 3, 2]) {
        0 => BigInt::from(s.int(-2, 2)).mod_floor(m),
        1 => BigInt::from(s.uint_bits(m.bits() as usize + 1)).mod_floor(m),
        _ => (BigInt::from(s.int(-9, 9)) * s.int(0, 9)).mod_floor(m),
    }
}
pub fn mod_inv(a: &BigInt, m: &BigInt) -> Option<BigInt> {
    let e = a.extended_gcd(m);
    if e.gcd.is_one() { Some(e.x.mod_floor(m)) } else { None }
}
macro_rules! mr {
    ($name:ident, $v:ident, $modt:ty, $mk:expr, $f:ident) => {
        impl Ring for $name<$v> {
            type T = ModularInteger<$v, $modt>;
            type M = BigInt;
            fn gen(&self, s: &mut Src) -> BigInt { mod_gen(&self.m, s) }
            fn lib(&self, a: &BigInt) -> Self::T { ModularInteger::new(a.$f().unwrap(), ($mk)(self.v.clone())) }
            fn model(&self, t: &Self::T) -> BigInt { BigInt::from(t.value().clone()) }
            fn add(&self, a: &BigInt, b: &BigInt) -> BigInt { (a + b).mod_floor(&self.m) }
            fn mul(&self, a: &BigInt, b: &BigInt) -> BigInt { (a * b).mod_floor(&self.m) }
            fn neg(&self, a: &BigInt) -> BigInt { (-a).mod_floor(&self.m) }
            fn int(&self, n: i64) -> BigInt { BigInt::from(n).mod_floor(&self.m) }
            fn text(&self, a: &BigInt) -> String { format!("mod_int({}, {})", a, self.m) }
        }
        impl Frac for $name<$v> {
            fn inv(&self, a: &BigInt) -> Option<BigInt> { mod_inv(a, &self.m) }
        }
    };
}
trait Same {
    fn same(&self) -> Option<BigInt>;
}
impl Same for BigInt {
    fn same(&self) -> Option<BigInt> {
        Some(self.clone())
    }
}
mr!(Mr, i32, i32, |v| v, to_i32);
mr!(Mr, u8, u8, |v| v, to_u8);
mr!(Mr, i8, i8, |v| v, to_i8);
mr!(Mr, u64, u64, |v| v, to_u64);
mr!(Mr, BigInt, BigInt, |v| v, same);
mr!(Pr, i32, KnownPrime<i32>, KnownPrime::new_unsafe, to_i32);
mr!(Pr, u8, KnownPrime<u8>, KnownPrime::new_unsafe, to_u8);
mr!(Pr, i8, KnownPrime<i8>, KnownPrime::new_unsafe, to_i8);
mr!(Pr, i64, KnownPrime<i64>, KnownPrime::new_unsafe, to_i64);
mr!(Pr, BigInt, KnownPrime<BigInt>, KnownPrime::new_unsafe, same);

/// polynomials over big integers as coefficients
pub struct Nr;
impl Ring for Nr {
    type T = Polynomial<BigInt>;
    type M = Vec<Q>;
    fn gen(&self, s: &mut Src) -> Vec<Q> {
        let n = s.usize(0, 3);
        vcore::q::trimmed((0..n).map(|_| Q::from(BigInt::from(s.int(-5, 5)))).collect())
    }
    fn lib(&self, m: &Vec<Q>) -> Polynomial<BigInt> {
        m.iter().map(|c| c.numer().clone()).collect::<Vec<_>>().into()
    }
    fn model(&self, t: &Polynomial<BigInt>) -> Vec<Q> {
        t.iter().map(Q::from).collect()
    }
    fn add(&self, a: &Vec<Q>, b: &Vec<Q>) -> Vec<Q> {
        vcore::q::add(a, b)
    }
    fn mul(&self, a: &Vec<Q>, b: &Vec<Q>) -> Vec<Q> {
        vcore::q::mul(a, b)
    }
    fn neg(&self, a: &Vec<Q>) -> Vec<Q> {
        vcore::q::neg(a)
    }
    fn int(&self, n: i64) -> Vec<Q> {
        vcore::q::trimmed(vec![Q::from(BigInt::from(n))])
    }
    fn text(&self, a: &Vec<Q>) -> String {
        text_of(&Zr, a)
    }
    const VAR: &'static str = "Y";
    const PAREN: bool = true;
}
/// three levels
pub struct NNr;
impl Ring for NNr {
    type T = Polynomial<Polynomial<BigInt>>;
    type M = Vec<Vec<Q>>;
    fn gen(&self, s: &mut Src) -> Self::M {
        let n = s.usize(0, 2);
        ptrim(&Nr, (0..n).map(|_| Nr.gen(s)).collect())
    }
    fn lib(&self, m: &Self::M) -> Self::T {
        m.iter().map(|c| Nr.lib(c)).collect::<Vec<_>>().into()
    }
    fn model(&self, t: &Self::T) -> Self::M {
        t.iter().map(|c| Nr.model(&c)).collect()
    }
    fn add(&self, a: &Self::M, b: &Self::M) -> Self::M {
        padd(&Nr, a, b)
    }
    fn mul(&self, a: &Self::M, b: &Self::M) -> Self::M {
        pmul(&Nr, a, b)
    }
    fn neg(&self, a: &Self::M) -> Self::M {
        pneg(&Nr, a)
    }
    fn int(&self, n: i64) -> Self::M {
        ptrim(&Nr, vec![Nr.int(n)])
    }
    fn text(&self, a: &Self::M) -> String {
        text_of(&Nr, a)
    }
    const VAR: &'static str = "Z";
    const PAREN: bool = true;
}

// ---- model polynomials ----
pub type MP<R> = Vec<<R as Ring>::M>;
pub fn ptrim<R: Ring>(r: &R, mut p: MP<R>) -> MP<R> {
    while p.last().map_or(false, |c| r.is_zero(c)) {
        p.pop();
    }
    p
}
pub fn padd<R: Ring>(r: &R, a: &MP<R>, b: &MP<R>) -> MP<R> {
    let z = r.int(0);
    let n = a.len().max(b.len());
    ptrim(r, (0..n).map(|i| r.add(a.get(i).unwrap_or(&z), b.get(i).unwrap_or(&z))).collect())
}
pub fn pneg<R: Ring>(r: &R, a: &MP<R>) -> MP<R> {
    a.iter().map(|c| r.neg(c)).collect()
}
pub fn psub<R: Ring>(r: &R, a: &MP<R>, b: &MP<R>) -> MP<R> {
    padd(r, a, &pneg(r, b))
}
pub fn pmul<R: Ring>(r: &R, a: &MP<R>, b: &MP<R>) -> MP<R> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut o = vec![r.int(0); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] = r.add(&o[i + j], &r.mul(x, y));
        }
    }
    ptrim(r, o)
}
pub fn pscale<R: Ring>(r: &R, a: &MP<R>, c: &R::M) -> MP<R> {
    ptrim(r, a.iter().map(|x| r.mul(x, c)).collect())
}
pub fn ppow<R: Ring>(r: &R, a: &MP<R>, e: usize) -> MP<R> {
    let mut o = ptrim(r, vec![r.int(1)]);
    for _ in 0..e {
        o = pmul(r, &o, a);
    }
    o
}
pub fn pderiv<R: Ring>(r: &R, a: &MP<R>) -> MP<R> {
    ptrim(r, a.iter().enumerate().skip(1).map(|(i, c)| r.mul(c, &r.int(i as i64))).collect())
}
pub fn peval<R: Ring>(r: &R, a: &MP<R>, x: &R::M) -> R::M {
    // sum of powers, not Horner
    let mut acc = r.int(0);
    let mut p = r.int(1);
    for c in a {
        acc = r.add(&acc, &r.mul(c, &p));
        p = r.mul(&p, x);
    }
    acc
}
/// quotient and remainder; the leading coefficient must be invertible in the model
pub fn pdivrem<R: Frac>(r: &R, a: &MP<R>, b: &MP<R>) -> (MP<R>, MP<R>) {
    let li = r.inv(b.last().unwrap()).expect("leading coefficient has an inverse");
    let mut rem = a.clone();
    if a.len() < b.len() {
        return (vec![], rem);
    }
    let mut quo = vec![r.int(0); a.len() - b.len() + 1];
    for i in (0..quo.len()).rev() {
        let c = r.mul(&rem[i + b.len() - 1], &li);
        for (j, y) in b.iter().enumerate() {
            rem[i + j] = r.add(&rem[i + j], &r.neg(&r.mul(&c, y)));
        }
        quo[i] = c;
    }
    (ptrim(r, quo), ptrim(r, rem))
}
pub fn pgcd<R: Frac>(r: &R, a: &MP<R>, b: &MP<R>) -> MP<R> {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_empty() {
        let t = pdivrem(r, &a, &b).1;
        a = b;
        b = t;
    }
    pmonic(r, &a)
}
pub fn pmonic<R: Frac>(r: &R, a: &MP<R>) -> MP<R> {
    match a.last() {
        None => vec![],
        Some(l) => pscale(r, a, &r.inv(l).unwrap()),
    }
}
/// determinant of the Sylvester matrix by elimination
pub fn presultant<R: Frac>(r: &R, a: &MP<R>, b: &MP<R>) -> R::M {
    let (n, m) = (a.len() - 1, b.len() - 1);
    let sz = n + m;
    let mut rows: Vec<Vec<R::M>> = vec![];
    for (cnt, p) in [(m, a), (n, b)] {
        for i in 0..cnt {
            let mut row = vec![r.int(0); sz];
            for (j, c) in p.iter().rev().enumerate() {
                row[i + j] = c.clone();
            }
            rows.push(row);
        }
    }
    let mut d = r.int(1);
    for c in 0..sz {
        let Some(p) = (c..sz).find(|&k| !r.is_zero(&rows[k][c])) else { return r.int(0) };
        if p != c {
            rows.swap(p, c);
            d = r.neg(&d);
        }
        d = r.mul(&d, &rows[c][c]);
        let iv = r.inv(&rows[c][c]).unwrap();
        for k in c + 1..sz {
            if r.is_zero(&rows[k][c]) {
                continue;
            }
            let f = r.neg(&r.mul(&rows[k][c], &iv));
            for l in c..sz {
                let t = r.mul(&f, &rows[c][l]);
                rows[k][l] = r.add(&rows[k][l], &t);
            }
        }
    }
    d
}
pub fn text_of<R: Ring>(r: &R, a: &MP<R>) -> String {
    if a.is_empty() {
        return "0".into();
    }
    let (l, p) = if R::PAREN { ("(", ")") } else { ("", "") };
    let mut o = String::new();
    for (i, c) in a.iter().enumerate() {
        let t = r.text(c);
        o += &match i {
            0 => t,
            1 => format!(" + {l}{t}{p}*{}", R::VAR),
            _ => format!(" + {l}{t}{p}*{}^{i}", R::VAR),
        };
    }
    o
}
pub fn to_lib<R: Ring>(r: &R, a: &MP<R>) -> Polynomial<R::T> {
    Polynomial::from(a.iter().map(|c| r.lib(c)).collect::<Vec<_>>())
}
pub fn norm1<R: Ring>(r: &R, a: &MP<R>) -> BigInt {
    a.iter().map(|c| r.size(c)).sum()
}
