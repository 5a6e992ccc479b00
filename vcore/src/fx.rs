//! Fixed-point intervals [lo, hi] / 2^k with outward rounding (reference model only).
use crate::{BigInt, Q};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

#[derive(Clone, Debug)]
pub struct Fx {
    pub lo: BigInt,
    pub hi: BigInt,
    pub k: usize,
}
impl Fx {
    pub fn from_q(x: &Q, k: usize) -> Fx {
        Fx { lo: crate::q::floor_scaled(x, k), hi: crate::q::ceil_scaled(x, k), k }
    }
    pub fn from_qs(a: &Q, b: &Q, k: usize) -> Fx {
        Fx { lo: crate::q::floor_scaled(a, k), hi: crate::q::ceil_scaled(b, k), k }
    }
    pub fn lo_q(&self) -> Q {
        Q::new(self.lo.clone(), BigInt::one() << self.k)
    }
    pub fn hi_q(&self) -> Q {
        Q::new(self.hi.clone(), BigInt::one() << self.k)
    }
    pub fn add(&self, o: &Fx) -> Fx {
        Fx { lo: &self.lo + &o.lo, hi: &self.hi + &o.hi, k: self.k }
    }
    pub fn sub(&self, o: &Fx) -> Fx {
        Fx { lo: &self.lo - &o.hi, hi: &self.hi - &o.lo, k: self.k }
    }
    pub fn neg(&self) -> Fx {
        Fx { lo: -&self.hi, hi: -&self.lo, k: self.k }
    }
    pub fn mul(&self, o: &Fx) -> Fx {
        let p = [&self.lo * &o.lo, &self.lo * &o.hi, &self.hi * &o.lo, &self.hi * &o.hi];
        let mn = p.iter().min().unwrap();
        let mx = p.iter().max().unwrap();
        let d = BigInt::one() << self.k;
        Fx { lo: mn.div_floor(&d), hi: -((-mx).div_floor(&d)), k: self.k }
    }
    pub fn mul_int(&self, c: &BigInt) -> Fx {
        let (a, b) = (&self.lo * c, &self.hi * c);
        if c.is_negative() { Fx { lo: b, hi: a, k: self.k } } else { Fx { lo: a, hi: b, k: self.k } }
    }
    pub fn div_int(&self, c: &BigInt) -> Fx {
        assert!(c.is_positive());
        Fx { lo: self.lo.div_floor(c), hi: -((-&self.hi).div_floor(c)), k: self.k }
    }
    /// divisor must be positive
    pub fn div_pos(&self, o: &Fx) -> Fx {
        assert!(o.lo.is_positive());
        let f = |n: &BigInt, d: &BigInt| (n << self.k).div_floor(d);
        let c = |n: &BigInt, d: &BigInt| -((-(n << self.k)).div_floor(d));
        let lo = if self.lo.is_negative() { f(&self.lo, &o.lo) } else { f(&self.lo, &o.hi) };
        let hi = if self.hi.is_negative() { c(&self.hi, &o.hi) } else { c(&self.hi, &o.lo) };
        Fx { lo, hi, k: self.k }
    }
    pub fn sqrt(&self) -> Fx {
        assert!(!self.lo.is_negative());
        let f = |n: &BigInt| (n << self.k).sqrt();
        let c = |n: &BigInt| {
            let v = n << self.k;
            let s = v.sqrt();
            if &s * &s == v { s } else { s + 1 }
        };
        Fx { lo: f(&self.lo), hi: c(&self.hi), k: self.k }
    }
    pub fn sign(&self) -> Option<i32> {
        if self.lo.is_positive() {
            Some(1)
        } else if self.hi.is_negative() {
            Some(-1)
        } else if self.lo.is_zero() && self.hi.is_zero() {
            Some(0)
        } else {
            None
        }
    }
    pub fn show(&self) -> String {
        format!("[{}, {}]/2^{}", self.lo, self.hi, self.k)
    }
    pub fn width(&self) -> BigInt {
        &self.hi - &self.lo
    }
    pub fn union(&self, o: &Fx) -> Fx {
        Fx { lo: (&self.lo).min(&o.lo).clone(), hi: (&self.hi).max(&o.hi).clone(), k: self.k }
    }
    /// change scale outward
    pub fn rescale(&self, k: usize) -> Fx {
        if k >= self.k {
            Fx { lo: &self.lo << (k - self.k), hi: &self.hi << (k - self.k), k }
        } else {
            let d = BigInt::one() << (self.k - k);
            Fx { lo: self.lo.div_floor(&d), hi: -((-&self.hi).div_floor(&d)), k }
        }
    }
}

/// enclosure of exp(x), x rational, at about `k` fractional bits of absolute accuracy
/// relative to the scale of the result. Independent of the crate: halve the argument
/// until |x| < 2^-8, Taylor with explicit remainder, square back.
pub fn exp_q(x: &Q, k: usize) -> Fx {
    // integer part magnitude
    let mag = crate::q::ceil(&x.abs()).bits() as usize; // |x| < 2^mag
    let halvings = mag + 8;
    // result bits: e^x < 2^(1.45 x + 1)
    let int_bits = if x.is_positive() { (crate::q::ceil(x) * 3i32 / 2i32 + 2i32).to_string().parse::<usize>().expect("exp argument too large for the reference") } else { 2 };
    let w = k + 2 * halvings + int_bits + 32;
    let r = x / Q::from_integer(BigInt::one() << halvings);
    let rx = Fx::from_q(&r, w);
    // sum r^n/n!, |r| < 2^-8
    let one = BigInt::one() << w;
    let mut sum = Fx { lo: one.clone(), hi: one.clone(), k: w };
    let mut term = Fx { lo: one.clone(), hi: one, k: w };
    let mut n = 1u32;
    loop {
        term = term.mul(&rx).div_int(&BigInt::from(n));
        sum = sum.add(&term);
        n += 1;
        let m = term.lo.abs().max(term.hi.abs());
        if m <= BigInt::from(2) {
            // remainder < 2*|term| * 2^-8...: bounded by 4 units
            sum.lo -= 4;
            sum.hi += 4;
            break;
        }
    }
    for _ in 0..halvings {
        sum = sum.mul(&sum);
    }
    sum
}

/// enclosure of ln(x) for rational x > 0 with width about 2^-k: ln x = m ln2 + 2 atanh((y-1)/(y+1)),
/// y = x / 2^m in [2/3, 4/3]-ish; atanh by its Taylor series with explicit remainder.
pub fn ln_q(x: &Q, k: usize) -> Fx {
    assert!(x.is_positive());
    let mut m = x.numer().bits() as i64 - x.denom().bits() as i64;
    let shift = |m: i64| if m >= 0 { Q::new(x.numer().clone(), x.denom() << m as usize) } else { Q::new(x.numer() << (-m) as usize, x.denom().clone()) };
    let mut y = shift(m);
    while y > Q::new(4.into(), 3.into()) {
        m += 1;
        y = shift(m);
    }
    while y < Q::new(2.into(), 3.into()) {
        m -= 1;
        y = shift(m);
    }
    let w = k + 40 + 64;
    let one = Q::one();
    let z = (&y - &one) / (&y + &one);
    let t = atanh_fx(&Fx::from_q(&z, w)).mul_int(&2.into());
    if m == 0 {
        t
    } else {
        ln2(w).mul_int(&m.into()).add(&t)
    }
}
/// atanh of an interval with |z| <= 1/3
fn atanh_fx(z: &Fx) -> Fx {
    let z2 = z.mul(z);
    // z*z of an interval through zero may go below zero by rounding; clamp
    let z2 = Fx { lo: if z2.lo.is_negative() { BigInt::zero() } else { z2.lo }, hi: z2.hi, k: z2.k };
    let mut p = z.clone();
    let mut s = z.clone();
    let mut n = 1u32;
    loop {
        p = p.mul(&z2);
        n += 2;
        let t = p.div_int(&BigInt::from(n));
        s = s.add(&t);
        if p.lo.abs().max(p.hi.abs()) <= BigInt::from(2) {
            s.lo -= 4;
            s.hi += 4;
            return s;
        }
    }
}
/// ln 2 = 18 atanh(1/26) - 2 atanh(1/4801) + 8 atanh(1/8749)
pub fn ln2(k: usize) -> Fx {
    thread_local! { static C: std::cell::RefCell<Option<Fx>> = const { std::cell::RefCell::new(None) }; }
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.as_ref().map_or(true, |f| f.k < k + 16) {
            let w = k + k / 2 + 64;
            let a = |d: i64| atanh_fx(&Fx::from_q(&Q::new(1.into(), d.into()), w));
            let v = a(26).mul_int(&18.into()).sub(&a(4801).mul_int(&2.into())).add(&a(8749).mul_int(&8.into()));
            *c = Some(v);
        }
        c.as_ref().unwrap().rescale(k)
    })
}
/// AGM of two positive rationals enclosed with width about 2^-k (monotone iteration)
pub fn agm_q(a: &Q, b: &Q, k: usize) -> Fx {
    let w = k + 64;
    let mut x = Fx::from_q(a, w);
    let mut y = Fx::from_q(b, w);
    for _ in 0..400 {
        // the true AGM lies between min and max of the current pair
        let lo = (&x.lo).min(&y.lo).clone();
        let hi = (&x.hi).max(&y.hi).clone();
        if &hi - &lo < BigInt::from(1 << 20) {
            return Fx { lo, hi, k: w };
        }
        let m = x.add(&y).div_int(&2.into());
        let g = x.mul(&y);
        let g = Fx { lo: if g.lo.is_negative() { BigInt::zero() } else { g.lo }, hi: g.hi, k: w }.sqrt();
        x = m;
        y = g;
    }
    let lo = (&x.lo).min(&y.lo).clone();
    let hi = (&x.hi).max(&y.hi).clone();
    Fx { lo, hi, k: w }
}
