//! Reference model of real algebraic numbers: an explicit number field
//! K = Q[x,y]/(f(x), g(x,y)) with a chosen real embedding. Elements are rational
//! vectors; equality is exact; order is decided by an exact zero test plus interval
//! refinement. Fields are irreducible by construction.
use crate::fx::Fx;
use crate::q::{self, bi, isolate, q as qq, Root, P, Z};
use crate::src::Src;
use crate::{modp, BigInt, Q};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;

pub struct Field {
    pub n: usize,
    pub m: usize,
    /// monic f: coefficients 0..n of x^n = -(...)
    f: P,
    /// monic g in y: m elements of Q[x]/f
    g: Vec<P>,
    xr: RefCell<Root>,
    yr: RefCell<Option<Root>>,
    pub name: String,
}
pub type Elem = Vec<Q>;

impl Field {
    fn new(fz: &Z, root_index: usize, name: String) -> Field {
        let f = q::monic(&q::z2q(fz));
        let roots = isolate(fz);
        let r = roots[root_index % roots.len()].clone();
        let n = f.len() - 1;
        Field { n, m: 1, f: f[..n].to_vec(), g: vec![], xr: RefCell::new(r), yr: RefCell::new(None), name }
    }
    /// Q(root number i of z)
    pub fn from_root(z: &Z, i: usize) -> Field {
        Field::new(z, i, format!("Q[x]/{} root#{i}", q::show(z)))
    }
    pub fn dim(&self) -> usize {
        self.n * self.m
    }
    pub fn zero(&self) -> Elem {
        vec![Q::zero(); self.dim()]
    }
    pub fn rat(&self, v: Q) -> Elem {
        let mut e = self.zero();
        e[0] = v;
        e
    }
    pub fn x(&self) -> Elem {
        let mut e = self.zero();
        if self.n == 1 {
            e[0] = -self.f[0].clone();
        } else {
            e[1] = Q::one();
        }
        e
    }
    pub fn y(&self) -> Elem {
        let mut e = self.zero();
        e[self.n] = Q::one();
        e
    }
    fn xmul(&self, a: &[Q], b: &[Q]) -> Vec<Q> {
        let n = self.n;
        let mut r = vec![Q::zero(); 2 * n - 1];
        for i in 0..n {
            if a[i].is_zero() {
                continue;
            }
            for j in 0..n {
                if !b[j].is_zero() {
                    r[i + j] += &a[i] * &b[j];
                }
            }
        }
        for k in (n..2 * n - 1).rev() {
            let c = std::mem::replace(&mut r[k], Q::zero());
            if c.is_zero() {
                continue;
            }
            for j in 0..n {
                let t = &c * &self.f[j];
                r[k - n + j] -= t;
            }
        }
        r.truncate(n);
        r
    }
    pub fn add(&self, a: &Elem, b: &Elem) -> Elem {
        a.iter().zip(b).map(|(x, y)| x + y).collect()
    }
    pub fn sub(&self, a: &Elem, b: &Elem) -> Elem {
        a.iter().zip(b).map(|(x, y)| x - y).collect()
    }
    pub fn neg(&self, a: &Elem) -> Elem {
        a.iter().map(|x| -x).collect()
    }
    pub fn mul(&self, a: &Elem, b: &Elem) -> Elem {
        let (n, m) = (self.n, self.m);
        if m == 1 {
            return self.xmul(a, b);
        }
        let mut r: Vec<Vec<Q>> = vec![vec![Q::zero(); n]; 2 * m - 1];
        for i in 0..m {
            let ai = &a[i * n..(i + 1) * n];
            if ai.iter().all(|c| c.is_zero()) {
                continue;
            }
            for j in 0..m {
                let bj = &b[j * n..(j + 1) * n];
                if bj.iter().all(|c| c.is_zero()) {
                    continue;
                }
                let t = self.xmul(ai, bj);
                for (d, s) in r[i + j].iter_mut().zip(t) {
                    *d += s;
                }
            }
        }
        for k in (m..2 * m - 1).rev() {
            let c = std::mem::replace(&mut r[k], vec![Q::zero(); n]);
            if c.iter().all(|v| v.is_zero()) {
                continue;
            }
            for j in 0..m {
                let t = self.xmul(&c, &self.g[j]);
                for (d, s) in r[k - m + j].iter_mut().zip(t) {
                    *d -= s;
                }
            }
        }
        r.truncate(m);
        r.concat()
    }
    pub fn pow(&self, a: &Elem, e: usize) -> Elem {
        let mut r = self.rat(Q::one());
        for _ in 0..e {
            r = self.mul(&r, a);
        }
        r
    }
    pub fn is_zero(&self, a: &Elem) -> bool {
        a.iter().all(|c| c.is_zero())
    }
    pub fn to_q(&self, a: &Elem) -> Option<Q> {
        if a[1..].iter().all(|c| c.is_zero()) { Some(a[0].clone()) } else { None }
    }
    /// multiplicative inverse (a nonzero)
    pub fn inv(&self, a: &Elem) -> Elem {
        if let Some(v) = self.to_q(a) {
            return self.rat(v.recip());
        }
        // from the minimal polynomial: c0 + c1 a + ... = 0 => a^-1 = -(c1 + c2 a + ...)/c0
        let m = self.minpoly_q(a);
        let mut r = self.zero();
        for c in m[1..].iter().rev() {
            r = self.mul(&r, a);
            r[0] += c;
        }
        let c0 = -m[0].clone();
        r.iter().map(|v| v / &c0).collect()
    }
    /// monic minimal polynomial over Q
    pub fn minpoly_q(&self, a: &Elem) -> P {
        let d = self.dim();
        // rows: reduced powers with combination vectors
        let mut rows: Vec<(usize, Vec<Q>, Vec<Q>)> = vec![];
        let mut p = self.rat(Q::one());
        for k in 0..=d {
            let mut v = p.clone();
            let mut comb = vec![Q::zero(); d + 1];
            comb[k] = Q::one();
            for (piv, rv, rc) in &rows {
                if !v[*piv].is_zero() {
                    let c = v[*piv].clone();
                    for (x, y) in v.iter_mut().zip(rv) {
                        *x -= &c * y;
                    }
                    for (x, y) in comb.iter_mut().zip(rc) {
                        *x -= &c * y;
                    }
                }
            }
            match v.iter().position(|c| !c.is_zero()) {
                None => {
                    let mut r = comb;
                    q::trim(&mut r);
                    return q::monic(&r);
                }
                Some(piv) => {
                    let c = v[piv].clone();
                    for x in v.iter_mut() {
                        *x /= &c;
                    }
                    for x in comb.iter_mut() {
                        *x /= &c;
                    }
                    rows.push((piv, v, comb));
                }
            }
            p = self.mul(&p, a);
        }
        unreachable!()
    }
    /// primitive integer minimal polynomial, positive leading coefficient
    pub fn minpoly(&self, a: &Elem) -> Z {
        q::primitive(&self.minpoly_q(a))
    }
    /// enclosure at k fractional bits (working precision, not guaranteed width)
    pub fn enclose(&self, a: &Elem, k: usize) -> Fx {
        let xi = {
            let mut r = self.xr.borrow_mut();
            r.refine(k as i64);
            Fx::from_qs(&r.lo, &r.hi, k)
        };
        let yi = self.yr.borrow_mut().as_mut().map(|r| {
            r.refine(k as i64);
            Fx::from_qs(&r.lo, &r.hi, k)
        });
        let zero = Fx { lo: BigInt::zero(), hi: BigInt::zero(), k };
        let mut acc = zero.clone();
        for j in (0..self.m).rev() {
            let mut inner = zero.clone();
            for i in (0..self.n).rev() {
                inner = inner.mul(&xi).add(&Fx::from_q(&a[j * self.n + i], k));
            }
            acc = match &yi {
                Some(y) => acc.mul(y).add(&inner),
                None => inner,
            };
        }
        acc
    }
    pub fn sign(&self, a: &Elem) -> i32 {
        if let Some(v) = self.to_q(a) {
            return q::qsgn(&v);
        }
        let mut k = 64;
        loop {
            if let Some(s) = self.enclose(a, k).sign() {
                return s;
            }
            k *= 2;
            assert!(k < 1 << 20, "reference refinement diverged");
        }
    }
    pub fn cmp(&self, a: &Elem, b: &Elem) -> Ordering {
        self.sign(&self.sub(a, b)).cmp(&0)
    }
    pub fn cmp_q(&self, a: &Elem, v: &Q) -> Ordering {
        let mut d = a.clone();
        d[0] -= v;
        self.sign(&d).cmp(&0)
    }
    pub fn floor(&self, a: &Elem) -> BigInt {
        if let Some(v) = self.to_q(a) {
            return q::floor(&v);
        }
        let mut k = 64;
        loop {
            let e = self.enclose(a, k);
            let (l, h) = (q::floor(&e.lo_q()), q::floor(&e.hi_q()));
            if l == h {
                return l;
            }
            k *= 2;
        }
    }
    /// floor(log2(a)) for a > 0
    pub fn floor_log2(&self, a: &Elem) -> i64 {
        // guess from an enclosure, then fix exactly
        let mut k = 64;
        let e = loop {
            let e = self.enclose(a, k);
            if e.lo.is_positive() {
                break e;
            }
            k *= 2;
        };
        let mut g = e.lo.bits() as i64 - 1 - k as i64;
        let p2 = |g: i64| if g >= 0 { Q::from_integer(BigInt::one() << g as usize) } else { Q::new(BigInt::one(), BigInt::one() << (-g) as usize) };
        while self.cmp_q(a, &p2(g)) == Ordering::Less {
            g -= 1;
        }
        while self.cmp_q(a, &p2(g + 1)) != Ordering::Less {
            g += 1;
        }
        g
    }
    pub fn show(&self, a: &Elem) -> String {
        format!("{} in {}", q::showq(a), self.name)
    }
    pub fn height_bits(&self, a: &Elem) -> u64 {
        a.iter().map(|c| c.numer().bits().max(c.denom().bits())).max().unwrap_or(0)
    }
}

/// irreducible integer polynomial of degree d with at least one real root
pub fn gen_irreducible(s: &mut Src, d: usize) -> Z {
    let small = |s: &mut Src, n: i64| bi(s.int(-n, n));
    loop_free(s, d, small)
}
fn has_real_root(z: &Z) -> bool {
    z.len() % 2 == 0 || !isolate(z).is_empty()
}
fn loop_free(s: &mut Src, d: usize, small: impl Fn(&mut Src, i64) -> BigInt) -> Z {
    if d == 1 {
        let b = s.int(1, 6);
        let a = s.int(-9, 9);
        return q::zprimitive(&vec![bi(-a), bi(b)]);
    }
    // 1) random polynomial, if certified
    if s.chance(1, 2) {
        let h = *s.pick(&[3i64, 9, 40]);
        let mut z: Z = (0..=d).map(|_| small(s, h)).collect();
        if z[d].is_zero() {
            z[d] = BigInt::one();
        }
        if z[0].is_zero() {
            z[0] = bi(-1);
        }
        let z = q::zprimitive(&z);
        if sqfree(&z) && has_real_root(&z) && modp::irreducible_certificate(&z, 10) {
            return z;
        }
    }
    // 2) Eisenstein by construction, constant term of opposite sign to the leading one
    let p = *s.pick(&[2i64, 3, 5, 7]);
    let mut z: Z = vec![];
    let u = { let v = s.int(1, 4); if v % p == 0 { v + 1 } else { v } };
    let u = if u % p == 0 { u + 1 } else { u };
    z.push(bi(-p * u));
    for _ in 1..d {
        z.push(if s.chance(1, 2) { bi(p * s.int(-3, 3)) } else { bi(0) });
    }
    let l = s.int(1, 3);
    let l = if l % p == 0 { 1 } else { l };
    z.push(bi(l));
    let z = q::zprimitive(&z);
    let z = match s.below(4) {
        1 => q::zprimitive(&z.iter().rev().cloned().collect()),
        2 => shift(&z, &bi(s.int(-3, 3))),
        3 => q::zprimitive(&shift(&z, &bi(s.int(-2, 2))).iter().rev().cloned().collect()),
        _ => z,
    };
    debug_assert!(has_real_root(&z));
    z
}
pub fn sqfree(z: &Z) -> bool {
    q::gcd(&q::z2q(z), &q::deriv(&q::z2q(z))).len() == 1
}
/// z(x + c)
pub fn shift(z: &Z, c: &BigInt) -> Z {
    let mut r: Z = vec![];
    for a in z.iter().rev() {
        // r = r*(x+c) + a
        let mut t = vec![BigInt::zero(); r.len() + 1];
        for (i, v) in r.iter().enumerate() {
            t[i + 1] += v;
            t[i] += v * c;
        }
        t[0] += a;
        r = q::trimmed(t);
    }
    r
}
fn is_square(v: &BigInt) -> bool {
    if v.is_negative() {
        return false;
    }
    let s = v.sqrt();
    &s * &s == *v
}
fn nonsquare(s: &mut Src) -> i64 {
    let v = s.int(2, 40);
    if is_square(&bi(v)) { v + 1 } else { v }
}
fn simple(s: &mut Src, d: usize) -> Field {
    let z = gen_irreducible(s, d);
    let r = s.usize(0, d - 1);
    let name = format!("Q[x]/{} root#{}", q::show(&z), r);
    Field::new(&z, r, name)
}
/// A simple extension of high degree (6 to max), often with many and close real roots.
pub fn gen_tall(s: &mut Src, max: usize) -> Field {
    let d = s.usize(6, max);
    let z = if s.bool() {
        gen_irreducible(s, d)
    } else {
        // Eisenstein: prod (x - p b_i) + p u, with all b_i integers; repeated b_i give close pairs
        let p = *s.pick(&[2i64, 3, 5, 7]);
        let mut z: Z = vec![bi(1)];
        for _ in 0..d {
            let b = s.int(-3, 3);
            z = q::zmul(&z, &vec![bi(-p * b), bi(1)]);
        }
        z[0] += bi(if s.bool() { p } else { -p });
        if !has_real_root(&z) {
            // + p and - p cannot both leave the polynomial positive everywhere near a root of the product
            z[0] -= bi(2 * p);
        }
        if s.chance(1, 3) { z = q::zprimitive(&z.iter().rev().cloned().collect()); }
        z
    };
    let r = s.usize(0, d - 1);
    Field::new(&z, r, format!("Q[x]/{} root#{}", q::show(&z), r))
}
/// A field of dimension at most `max_dim` with a real embedding.
pub fn gen_field(s: &mut Src, max_dim: usize) -> Field {
    let k = s.weighted(&[1, 5, 4, 3, 2, 3, 3, 2, 2]);
    match k {
        0 => simple(s, 1),
        1 => simple(s, 2),
        2 if max_dim >= 3 => simple(s, 3),
        3 if max_dim >= 4 => simple(s, 4),
        4 if max_dim >= 5 => { let d = s.usize(5, max_dim.min(7)); simple(s, d) }
        5 if max_dim >= 4 => {
            // Q(sqrt a, sqrt b)
            let a = nonsquare(s);
            let mut b = nonsquare(s);
            while is_square(&bi(a * b)) || is_square(&bi(b)) {
                b += 1;
            }
            let mut fl = Field::new(&vec![bi(-a), bi(0), bi(1)], s.usize(0, 1), String::new());
            let yr = isolate(&vec![bi(-b), bi(0), bi(1)])[s.usize(0, 1)].clone();
            fl.m = 2;
            fl.g = vec![vec![qq(-b), qq(0)], vec![qq(0), qq(0)]];
            fl.yr = RefCell::new(Some(yr));
            fl.name = format!("Q(sqrt {a}, sqrt {b}) [{}]", sgn_name(&fl));
            fl
        }
        6 if max_dim >= 6 => {
            // coprime degrees 2 and 3: always a field
            let mut fl = simple(s, 3);
            let z = gen_irreducible(s, 2);
            let r = s.usize(0, 1);
            let g = q::monic(&q::z2q(&z));
            fl.m = 2;
            fl.g = (0..2).map(|i| vec![g[i].clone(), qq(0), qq(0)]).collect();
            let roots = isolate(&z);
            fl.yr = RefCell::new(Some(roots[r % roots.len()].clone()));
            fl.name = format!("{} (x) Q[y]/{} root#{}", fl.name, q::show(&z), r);
            fl
        }
        7 if max_dim >= 6 => {
            // splitting field of a cubic with three real roots and non-square discriminant
            let f = *s.pick(&[[1i64, -4, 0], [1, -5, 0], [1, -4, 1], [-1, -6, 0], [3, -9, 1], [1, -3, -2], [-3, -8, 1]]);
            let z: Z = vec![bi(f[0]), bi(f[1]), bi(f[2]), bi(1)];
            let roots = isolate(&z);
            let disc = {
                let (a, b, c, d) = (1, f[2], f[1], f[0]);
                18 * a * b * c * d - 4 * b * b * b * d + b * b * c * c - 4 * a * c * c * c - 27 * a * a * d * d
            };
            if roots.len() != 3 || is_square(&bi(disc)) || !modp::irreducible_certificate(&z, 20) {
                return simple(s, 3);
            }
            let i = s.usize(0, 2);
            let j = (i + s.usize(1, 2)) % 3;
            let mut fl = Field::new(&z, i, String::new());
            // g = y^2 + (x + a2) y + (x^2 + a2 x + a1)
            fl.m = 2;
            fl.g = vec![vec![qq(f[1]), qq(f[2]), qq(1)], vec![qq(f[2]), qq(1), qq(0)]];
            fl.yr = RefCell::new(Some(roots[j].clone()));
            fl.name = format!("split({}) x=root#{i} y=root#{j}", q::show(&z));
            fl
        }
        8 if max_dim >= 4 => {
            // nested radical: y = +-sqrt(u + v sqrt d), norm not a square
            let d = nonsquare(s);
            let (mut u, v) = (s.int(1, 9), s.int(1, 4));
            let sgn = s.bool();
            loop {
                let nrm = u * u - v * v * d;
                if nrm > 0 && !is_square(&bi(nrm)) {
                    break;
                }
                u += 1;
            }
            // both conjugates positive (norm > 0, u > 0); y^4 - 2u y^2 + norm irreducible iff
            // u + v sqrt d is not a square in Q(sqrt d); norm not a square suffices
            let mut fl = Field::new(&vec![bi(-d), bi(0), bi(1)], 1, String::new());
            let quart: Z = vec![bi(u * u - v * v * d), bi(0), bi(-2 * u), bi(0), bi(1)];
            let roots = isolate(&quart);
            // sqrt(u + v sqrt d) is the largest root
            let r = if sgn { roots[0].clone() } else { roots[3].clone() };
            fl.m = 2;
            fl.g = vec![vec![qq(-u), qq(-v)], vec![qq(0), qq(0)]];
            fl.yr = RefCell::new(Some(r));
            fl.name = format!("Q({}sqrt({u}+{v}sqrt{d}))", if sgn { "-" } else { "" });
            fl
        }
        _ => simple(s, 2),
    }
}
fn sgn_name(f: &Field) -> String {
    let x = f.xr.borrow();
    let y = f.yr.borrow();
    format!("{}{}", if x.hi.is_positive() { "+" } else { "-" }, if y.as_ref().unwrap().hi.is_positive() { "+" } else { "-" })
}
/// a random element; small coordinates
pub fn gen_elem(s: &mut Src, f: &Field) -> Elem {
    let d = f.dim();
    match s.weighted(&[3, 2, 5, 1]) {
        0 => {
            // generator-like, scaled and shifted
            let mut e = if f.m > 1 && s.bool() { f.y() } else { f.x() };
            let c = s.small_ratio(5, 4);
            let c = if c.is_zero() { qq(1) } else { c };
            for v in e.iter_mut() {
                *v *= &c;
            }
            e[0] += s.small_ratio(6, 5);
            e
        }
        1 => {
            let v = s.small_ratio(30, 12);
            f.rat(v)
        }
        2 => (0..d).map(|_| if s.chance(2, 3) { s.small_ratio(4, 3) } else { Q::zero() }).collect(),
        _ => (0..d).map(|_| if s.chance(1, 2) { s.ratio(24) } else { Q::zero() }).collect(),
    }
}
/// Random dyadic isolating interval for element e with minimal polynomial z:
/// (lower numerator, upper numerator, log2 of the denominator).
pub fn gen_interval(s: &mut Src, f: &Field, e: &Elem, z: &Z) -> (BigInt, BigInt, usize) {
    let mut roots = isolate(z);
    // index of e among the roots
    let idx = {
        let mut i = 0;
        loop {
            if i + 1 == roots.len() {
                break i;
            }
            // e <= root i  iff  e < separating point hi_i (not a root unless exact)
            let hi = roots[i].hi.clone();
            let c = f.cmp_q(e, &hi);
            if c != Ordering::Greater {
                break i;
            }
            i += 1;
        }
    };
    let style = s.weighted(&[6, 6, 4, 4, 1]);
    // wanted slack on each side, in units of 2^-k
    let mut k = s.usize(0, 6);
    if style == 2 {
        k += s.usize(4, 40);
    }
    loop {
        for r in roots.iter_mut() {
            r.refine(k as i64 + 4);
        }
        let er = roots[idx].clone();
        // candidate numerators: lower in (prev, e], upper in [e, next)
        let lo_max = q::floor_scaled(&er.lo, k);
        let hi_min = q::ceil_scaled(&er.hi, k);
        let lo_min = if idx > 0 { Some(q::ceil_scaled(&roots[idx - 1].hi, k)) } else { None };
        let hi_max = if idx + 1 < roots.len() { Some(q::floor_scaled(&roots[idx + 1].lo, k)) } else { None };
        // avoid touching a neighbouring root
        let touches = |n: &BigInt, r: &Root| r.exact() && q::dyadic(n, k) == r.lo;
        let lo_min = lo_min.map(|n| if touches(&n, &roots[idx - 1]) { n + 1 } else { n });
        let hi_max = hi_max.map(|n| if touches(&n, &roots[idx + 1]) { n - 1 } else { n });
        let ok = lo_min.as_ref().map_or(true, |m| *m <= lo_max) && hi_max.as_ref().map_or(true, |m| *m >= hi_min);
        if !ok {
            k += 1;
            continue;
        }
        let slack = |s: &mut Src, avail: Option<BigInt>| -> BigInt {
            let cap: BigInt = match style {
                0 | 2 => bi(s.int(0, 3)),
                1 => BigInt::from(s.usize(0, 1000)) << k,
                4 => BigInt::one() << s.usize(0, k + 150),
                _ => avail.clone().unwrap_or_else(|| BigInt::from(s.usize(0, 50)) << k),
            };
            match avail {
                Some(a) => a.min(cap),
                None => cap,
            }
        };
        let a = slack(s, lo_min.map(|m| &lo_max - m));
        let b = slack(s, hi_max.map(|m| m - &hi_min));
        return (lo_max - a, hi_min + b, k);
    }
}
/// gcd helper re-export for callers
pub fn igcd(a: &BigInt, b: &BigInt) -> BigInt {
    a.gcd(b)
}
