//! Dense polynomials over Q and Z (lowest power first), Sturm counting, root isolation.
use crate::{BigInt, Q};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

pub fn q(n: i64) -> Q {
    Q::from_integer(n.into())
}
pub fn qi(n: &BigInt) -> Q {
    Q::from_integer(n.clone())
}
pub fn bi(n: i64) -> BigInt {
    n.into()
}
pub type P = Vec<Q>;
pub type Z = Vec<BigInt>;

pub fn trim<T: Zero>(p: &mut Vec<T>) {
    while p.last().map_or(false, |c| c.is_zero()) {
        p.pop();
    }
}
pub fn trimmed<T: Zero>(mut p: Vec<T>) -> Vec<T> {
    trim(&mut p);
    p
}
pub fn z2q(p: &Z) -> P {
    p.iter().map(qi).collect()
}
pub fn add(a: &P, b: &P) -> P {
    let n = a.len().max(b.len());
    trimmed((0..n).map(|i| a.get(i).cloned().unwrap_or_else(Q::zero) + b.get(i).cloned().unwrap_or_else(Q::zero)).collect())
}
pub fn neg(a: &P) -> P {
    a.iter().map(|c| -c).collect()
}
pub fn sub(a: &P, b: &P) -> P {
    add(a, &neg(b))
}
pub fn mul(a: &P, b: &P) -> P {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![Q::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        if x.is_zero() {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            if !y.is_zero() {
                r[i + j] += x * y;
            }
        }
    }
    trimmed(r)
}
pub fn scale(a: &P, c: &Q) -> P {
    trimmed(a.iter().map(|x| x * c).collect())
}
pub fn zmul(a: &Z, b: &Z) -> Z {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![BigInt::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += x * y;
        }
    }
    trimmed(r)
}
pub fn zadd(a: &Z, b: &Z) -> Z {
    let n = a.len().max(b.len());
    trimmed((0..n).map(|i| a.get(i).cloned().unwrap_or_default() + b.get(i).cloned().unwrap_or_default()).collect())
}
pub fn zscale(a: &Z, c: &BigInt) -> Z {
    trimmed(a.iter().map(|x| x * c).collect())
}
pub fn zpow(a: &Z, e: usize) -> Z {
    let mut r = vec![BigInt::one()];
    for _ in 0..e {
        r = zmul(&r, a);
    }
    r
}
pub fn divrem(a: &P, b: &P) -> (P, P) {
    assert!(!b.is_empty());
    let mut r = a.clone();
    trim(&mut r);
    if r.len() < b.len() {
        return (vec![], r);
    }
    let lead = b.last().unwrap();
    let mut quo = vec![Q::zero(); r.len() - b.len() + 1];
    for k in (0..quo.len()).rev() {
        let c = &r[k + b.len() - 1] / lead;
        if !c.is_zero() {
            for (j, y) in b.iter().enumerate() {
                let t = &c * y;
                r[k + j] -= t;
            }
        }
        quo[k] = c;
    }
    trim(&mut r);
    (trimmed(quo), r)
}
pub fn monic(a: &P) -> P {
    match a.last() {
        None => vec![],
        Some(l) => {
            let l = l.clone();
            a.iter().map(|x| x / &l).collect()
        }
    }
}
pub fn gcd(a: &P, b: &P) -> P {
    let (mut x, mut y) = (monic(a), monic(b));
    while !y.is_empty() {
        let r = monic(&divrem(&x, &y).1);
        x = y;
        y = r;
    }
    x
}
pub fn deriv(a: &P) -> P {
    trimmed(a.iter().enumerate().skip(1).map(|(i, c)| c * q(i as i64)).collect())
}
pub fn eval(a: &P, x: &Q) -> Q {
    let mut r = Q::zero();
    for c in a.iter().rev() {
        r = r * x + c;
    }
    r
}
/// sign of an integer polynomial at a rational (integer arithmetic only)
pub fn zsign(a: &Z, x: &Q) -> i32 {
    // sum c_i n^i d^(deg-i)
    let (n, d) = (x.numer(), x.denom());
    let mut r = BigInt::zero();
    let mut dp = BigInt::one();
    for c in a.iter().rev() {
        r = r * n + c * &dp;
        dp *= d;
    }
    sgn(&r)
}
pub fn sgn(v: &BigInt) -> i32 {
    if v.is_positive() { 1 } else if v.is_negative() { -1 } else { 0 }
}
pub fn qsgn(v: &Q) -> i32 {
    sgn(v.numer())
}
/// primitive integer polynomial with positive leading coefficient proportional to p
pub fn primitive(p: &P) -> Z {
    let mut l = BigInt::one();
    for c in p {
        l = l.lcm(c.denom());
    }
    let v: Z = p.iter().map(|c| c.numer() * (&l / c.denom())).collect();
    zprimitive(&v)
}
pub fn zcontent(v: &Z) -> BigInt {
    let mut g = BigInt::zero();
    for c in v {
        g = g.gcd(c);
    }
    g
}
pub fn zprimitive(v: &Z) -> Z {
    let mut v = v.clone();
    trim(&mut v);
    if v.is_empty() {
        return v;
    }
    let mut g = zcontent(&v);
    if v.last().unwrap().is_negative() {
        g = -g;
    }
    v.iter().map(|c| c / &g).collect()
}
pub fn zderiv(v: &Z) -> Z {
    trimmed(v.iter().enumerate().skip(1).map(|(i, c)| c * BigInt::from(i)).collect())
}
/// Sturm chain with integer primitive (positively scaled) members
pub fn sturm(v: &Z) -> Vec<Z> {
    let mut chain = vec![pos_primitive(v)];
    let d = pos_primitive(&zderiv(v));
    if d.is_empty() {
        return chain;
    }
    chain.push(d);
    loop {
        let k = chain.len();
        let r = divrem(&z2q(&chain[k - 2]), &z2q(&chain[k - 1])).1;
        if r.is_empty() {
            break;
        }
        let mut l = BigInt::one();
        for c in &r {
            l = l.lcm(c.denom());
        }
        let w: Z = r.iter().map(|c| -(c.numer() * (&l / c.denom()))).collect();
        chain.push(pos_primitive(&w));
    }
    chain
}
fn pos_primitive(v: &Z) -> Z {
    let mut v = v.clone();
    trim(&mut v);
    let g = zcontent(&v);
    if g.is_zero() {
        return v;
    }
    v.iter().map(|c| c / &g).collect()
}
pub fn variations(chain: &[Z], x: &Q) -> usize {
    let mut last = 0;
    let mut n = 0;
    for p in chain {
        let s = zsign(p, x);
        if s != 0 {
            if last != 0 && s != last {
                n += 1;
            }
            last = s;
        }
    }
    n
}
/// number of distinct real roots in (a, b]  (v need not be square-free)
pub fn count_half_open(chain: &[Z], a: &Q, b: &Q) -> usize {
    if a >= b {
        return 0;
    }
    variations(chain, a) - variations(chain, b)
}
/// number of distinct real roots in [a, b]
pub fn count_closed(chain: &[Z], a: &Q, b: &Q) -> usize {
    if a > b {
        return 0;
    }
    count_half_open(chain, a, b) + (zsign(&chain[0], a) == 0) as usize
}
/// all |roots| < 2^k for the returned k
pub fn root_bound_log2(v: &Z) -> usize {
    let lead = v.last().unwrap().abs();
    let m = v.iter().map(|c| c.abs()).max().unwrap();
    // Cauchy: 1 + m/lead
    ((m / lead) + BigInt::from(2)).bits() as usize + 1
}

/// A real root of a square-free integer polynomial: either an exact rational or an
/// open isolating interval (lo, hi) with opposite nonzero signs at the ends.
#[derive(Clone, Debug)]
pub struct Root {
    pub poly: Z,
    pub lo: Q,
    pub hi: Q,
    slo: i32,
}
impl Root {
    pub fn exact(&self) -> bool {
        self.lo == self.hi
    }
    pub fn step(&mut self) {
        if self.exact() {
            return;
        }
        let mid = (&self.lo + &self.hi) / q(2);
        let s = zsign(&self.poly, &mid);
        if s == 0 {
            self.lo = mid.clone();
            self.hi = mid;
        } else if s == self.slo {
            self.lo = mid;
        } else {
            self.hi = mid;
        }
    }
    /// refine until hi - lo <= 2^-bits
    pub fn refine(&mut self, bits: i64) {
        let w = if bits >= 0 { Q::new(BigInt::one(), BigInt::one() << bits as usize) } else { Q::from_integer(BigInt::one() << (-bits) as usize) };
        while &self.hi - &self.lo > w {
            self.step();
        }
    }
    /// compare the root with a rational
    pub fn cmp_q(&mut self, x: &Q) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        if self.exact() {
            return self.lo.cmp(x);
        }
        if x <= &self.lo {
            return Greater;
        }
        if x >= &self.hi {
            return Less;
        }
        let s = zsign(&self.poly, x);
        if s == 0 {
            self.lo = x.clone();
            self.hi = x.clone();
            return Equal;
        }
        if s == self.slo {
            self.lo = x.clone();
            Greater
        } else {
            self.hi = x.clone();
            Less
        }
    }
}
/// isolates the real roots of a square-free polynomial, in increasing order
pub fn isolate(v: &Z) -> Vec<Root> {
    let chain = sturm(v);
    assert!(v.len() < 2 || chain.last().map_or(false, |g| g.len() == 1), "isolate: not square-free");
    let k = root_bound_log2(v);
    let b = Q::from_integer(BigInt::one() << k);
    let mut out = vec![];
    fn rec(v: &Z, chain: &[Z], a: Q, b: Q, out: &mut Vec<Root>) {
        // a and b are not roots... or b root handled by caller splitting
        let n = count_half_open(chain, &a, &b);
        if n == 0 {
            return;
        }
        let (sa, sb) = (zsign(v, &a), zsign(v, &b));
        if n == 1 && sa != 0 && sb != 0 {
            out.push(Root { poly: v.clone(), lo: a, hi: b, slo: sa });
            return;
        }
        if n == 1 && sb == 0 {
            out.push(Root { poly: v.clone(), lo: b.clone(), hi: b, slo: 0 });
            return;
        }
        let mid = (&a + &b) / q(2);
        rec(v, chain, a, mid.clone(), out);
        rec(v, chain, mid, b, out);
    }
    rec(v, &chain, -b.clone(), b, &mut out);
    out
}
/// determinant by fraction-free elimination over Q
pub fn det(mut m: Vec<Vec<Q>>) -> Q {
    let n = m.len();
    let mut d = Q::one();
    for c in 0..n {
        let Some(p) = (c..n).find(|&r| !m[r][c].is_zero()) else { return Q::zero() };
        if p != c {
            m.swap(p, c);
            d = -d;
        }
        let piv = m[c][c].clone();
        d *= &piv;
        for r in c + 1..n {
            if m[r][c].is_zero() {
                continue;
            }
            let f = &m[r][c] / &piv;
            for k in c..n {
                let t = &f * &m[c][k];
                m[r][k] -= t;
            }
        }
    }
    d
}
/// Sylvester resultant of nonzero polynomials
pub fn resultant(a: &P, b: &P) -> Q {
    let (n, m) = (a.len() - 1, b.len() - 1);
    let sz = n + m;
    let mut rows = vec![];
    for i in 0..m {
        let mut r = vec![Q::zero(); sz];
        for (j, c) in a.iter().rev().enumerate() {
            r[i + j] = c.clone();
        }
        rows.push(r);
    }
    for i in 0..n {
        let mut r = vec![Q::zero(); sz];
        for (j, c) in b.iter().rev().enumerate() {
            r[i + j] = c.clone();
        }
        rows.push(r);
    }
    det(rows)
}
pub fn show(v: &Z) -> String {
    let t: Vec<String> = v.iter().map(|c| c.to_string()).collect();
    format!("[{}]", t.join(","))
}
pub fn showq(v: &P) -> String {
    let t: Vec<String> = v.iter().map(|c| c.to_string()).collect();
    format!("[{}]", t.join(","))
}
pub fn floor(x: &Q) -> BigInt {
    x.numer().div_floor(x.denom())
}
pub fn ceil(x: &Q) -> BigInt {
    -((-x.numer()).div_floor(x.denom()))
}
/// floor(x * 2^k)
pub fn floor_scaled(x: &Q, k: usize) -> BigInt {
    (x.numer() << k).div_floor(x.denom())
}
pub fn ceil_scaled(x: &Q, k: usize) -> BigInt {
    -((-(x.numer() << k)).div_floor(x.denom()))
}
pub fn dyadic(n: &BigInt, k: usize) -> Q {
    Q::new(n.clone(), BigInt::one() << k)
}
