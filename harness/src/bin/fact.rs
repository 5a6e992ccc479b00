//! C14: factoring integer polynomials. C15: square-free factorisation and Sturm sequences.
use algebraics::mod_int::{KnownPrime, ModularInteger};
use algebraics::polynomial::{Polynomial, PolynomialFactors};
use harness::{coefs, lib_poly};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rand::{RngCore, SeedableRng};
use rand_pcg::Pcg64Mcg;
use vcore::modp::{self, F64};
use vcore::q::{self, Z};
use vcore::run::{fam, Prop, Rec};
use vcore::{ensure, BigInt, Ratio, Res, Src, Q};

fn z(v: &[i64]) -> Z {
    v.iter().map(|c| BigInt::from(*c)).collect()
}
fn zneg(v: &Z) -> Z {
    v.iter().map(|c| -c).collect()
}
fn zsub(a: &Z, b: &Z) -> Z {
    q::trimmed(q::zadd(a, &zneg(b)))
}
/// p(a x + b)
fn affine(p: &Z, a: &BigInt, b: &BigInt) -> Z {
    let l: Z = vec![b.clone(), a.clone()];
    let mut r: Z = vec![];
    for c in p.iter().rev() {
        r = q::zadd(&q::zmul(&r, &l), &vec![c.clone()]);
    }
    q::trimmed(r)
}
/// x^(k-1) + ... : the n-th cyclotomic polynomial
fn cyclotomic(n: usize) -> Z {
    let mut p: Z = vec![BigInt::zero(); n + 1];
    p[0] = BigInt::from(-1);
    p[n] = BigInt::one();
    for d in 1..n {
        if n % d == 0 {
            let (qq, r) = q::divrem(&q::z2q(&p), &q::z2q(&cyclotomic(d)));
            assert!(r.is_empty());
            p = q::primitive(&qq);
        }
    }
    p
}
/// minimal polynomial of sqrt a1 + ... + sqrt ak for distinct primes: splits into small pieces modulo every prime
fn swinnerton(ps: &[i64]) -> Z {
    // represent p(x) over Z[s], s^2 = prime: multiply p(x - s) by its conjugate
    let mut p: Z = z(&[0, 1]);
    for pr in ps {
        // p(x - s) = e(x) + s o(x)
        let n = p.len();
        let (mut e, mut o): (Z, Z) = (vec![BigInt::zero(); n], vec![BigInt::zero(); n]);
        for (i, c) in p.iter().enumerate() {
            let mut bin = BigInt::one();
            for j in 0..=i {
                // x^(i-j) (-s)^j
                let pw = BigInt::from(*pr).pow((j / 2) as u32);
                if j % 2 == 0 {
                    e[i - j] += c * &bin * &pw;
                } else {
                    o[i - j] -= c * &bin * &pw;
                }
                bin = bin * BigInt::from(i - j) / BigInt::from(j + 1);
            }
        }
        let (e, o) = (q::trimmed(e), q::trimmed(o));
        p = zsub(&q::zmul(&e, &e), &q::zscale(&q::zmul(&o, &o), &BigInt::from(*pr)));
    }
    p
}
fn rev(p: &Z) -> Z {
    let mut v = p.clone();
    v.reverse();
    q::trimmed(v)
}
/// an invertible change of variable that keeps irreducibility (not for multiples of x)
fn disguise(s: &mut Src, p: &Z) -> Z {
    let mut p = p.clone();
    if s.chance(1, 3) && !p[0].is_zero() {
        p = rev(&p);
    }
    if s.chance(1, 3) {
        let a = s.int(1, 5) * if s.bool() { -1 } else { 1 };
        p = affine(&p, &a.into(), &s.int(-4, 4).into());
    }
    if s.chance(1, 4) && p.len() > 1 && !p[0].is_zero() {
        p = rev(&p);
    }
    q::zprimitive(&p)
}
fn random_poly(s: &mut Src, deg: usize, bits: usize) -> Z {
    let mut v: Z = (0..=deg).map(|_| if s.chance(1, 5) { BigInt::zero() } else { s.bigint(bits) }).collect();
    if v[deg].is_zero() {
        v[deg] = BigInt::one();
    }
    v
}
/// primitive irreducible factors (positive lead, distinct) of one generated piece
fn gen_irreducibles(s: &mut Src, hard: bool) -> Vec<Z> {
    let kind = if hard { s.weighted(&[0, 3, 3, 3, 2, 2, 1]) } else { s.weighted(&[6, 2, 1, 1, 1, 0, 2]) };
    match kind {
        0 => {
            // any polynomial, factored by the oracle
            let deg = s.usize(1, 6);
            let bits = *s.pick(&[2usize, 3, 5, 12, 40]);
            let p = q::zprimitive(&random_poly(s, deg, bits));
            split(&p)
        }
        1 => {
            // Eisenstein at a small prime
            let pr = *s.pick(&[2i64, 3, 5, 7]);
            let deg = s.usize(2, 8);
            let mut p: Z = (0..=deg).map(|_| BigInt::from(s.int(-6, 6) * pr)).collect();
            p[0] = BigInt::from(pr * (pr * s.int(-3, 3) + 1));
            p[deg] = BigInt::from(pr * s.int(0, 40) + 1);
            vec![disguise(s, &q::zprimitive(&p))]
        }
        2 => {
            let n = s.usize(if hard { 5 } else { 1 }, 36);
            vec![disguise(s, &cyclotomic(n))]
        }
        3 => {
            let pool = [2i64, 3, 5, 7, 11, 13, -1];
            let k = if hard { *s.pick(&[2usize, 2, 2, 3]) } else { 2 };
            let mut ps = vec![];
            while ps.len() < k {
                let x = *s.pick(&pool);
                if !ps.contains(&x) {
                    ps.push(x);
                }
            }
            vec![disguise(s, &q::zprimitive(&swinnerton(&ps)))]
        }
        4 => {
            // agrees with a product modulo a power of a small prime
            let pr = BigInt::from(*s.pick(&[3i64, 5, 7, 11]));
            let e = s.usize(1, 24) as u32;
            let (d1, d2) = (s.usize(1, 3), s.usize(1, 3));
            let (a, b) = (random_poly(s, d1, 4), random_poly(s, d2, 4));
            let d3 = s.usize(0, d1 + d2);
            let r = random_poly(s, d3, 2);
            let p = q::zadd(&q::zmul(&a, &b), &q::zscale(&r, &pr.pow(e)));
            let p = q::trimmed(p);
            if p.len() < 2 {
                return vec![z(&[0, 1])];
            }
            split(&q::zprimitive(&p))
        }
        5 => {
            // x^n - a: many factors modulo primes with p = 1 mod n
            let n = s.usize(4, 12);
            let mut p: Z = vec![BigInt::zero(); n + 1];
            p[n] = BigInt::from(*s.pick(&[1i64, 1, 1, 2, 3, 4, 16, 64]));
            p[0] = BigInt::from(*s.pick(&[-1i64, 1, -2, -4, 4, -8, -16, -27, 64, -64]));
            split(&q::zprimitive(&p))
        }
        _ => {
            // linear, possibly with large or coincident leading coefficient
            let a = match s.usize(0, 3) {
                0 => BigInt::one(),
                1 => s.biguint(60).into(),
                2 => BigInt::from(3 * 5 * 7 * 11 * s.int(0, 9) + 1),
                _ => BigInt::from(s.int(1, 30)),
            };
            let a = if a.is_zero() { BigInt::one() } else { a };
            let k = if s.bool() { 60 } else { 4 };
            let p = vec![s.bigint(k), a];
            vec![q::zprimitive(&p)]
        }
    }
}
/// irreducible factors of a primitive polynomial, by the reference factoriser
fn split(p: &Z) -> Vec<Z> {
    let mut out: Vec<Z> = vec![];
    let mut rest = q::z2q(p);
    loop {
        if rest.len() < 2 {
            return out;
        }
        let g = q::gcd(&rest, &q::deriv(&rest));
        let sf = q::divrem(&rest, &g).0;
        for f in modp::factor_squarefree(&q::primitive(&sf)) {
            let f = q::zprimitive(&f);
            if !out.contains(&f) {
                out.push(f);
            }
        }
        rest = g;
    }
}
struct Rng2(u64, u32);
/// generators from degenerate to good
impl RngCore for Rng2 {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        match self.1 {
            0 => {
                self.0 = self.0.wrapping_add(1);
                self.0
            }
            1 => {
                self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
                self.0
            }
            _ => {
                self.0 ^= self.0 << 13;
                self.0 ^= self.0 >> 7;
                self.0 ^= self.0 << 17;
                self.0
            }
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = (self.next_u64() >> 32) as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn sorted(f: &PolynomialFactors<BigInt>) -> Vec<(usize, Z)> {
    let mut v: Vec<(usize, Z)> = f.polynomial_factors.iter().map(|f| (f.power, coefs(&f.polynomial))).collect();
    v.sort();
    v
}
fn show_factors(c: &BigInt, v: &[(usize, Z)]) -> String {
    v.iter().fold(c.to_string(), |a, (e, p)| format!("{a} * ({})^{e}", q::show(p)))
}
/// parts: distinct irreducibles with multiplicities
fn check_factor(s: &mut Src, rec: &mut Rec, parts: Vec<(usize, Z)>, c: BigInt) -> Res {
    let mut p: Z = vec![c.clone()];
    for (e, f) in &parts {
        p = q::zmul(&p, &q::zpow(f, *e));
    }
    rec.desc = format!("{} = {}", q::show(&p), show_factors(&c, &parts));
    if parts.len() > 1 || parts.iter().any(|p| p.1.len() > 3) {
        rec.nt();
    }
    if parts.iter().any(|p| p.0 > 1) {
        rec.label("repeated");
    }
    if parts.len() == 1 && parts[0].0 == 1 {
        rec.label("irreducible");
    }
    let l = lib_poly(&p);
    let mut want = parts;
    want.sort();
    let go = |f: PolynomialFactors<BigInt>, how: &str| -> Res {
        let got = sorted(&f);
        ensure!(f.constant_factor == c && got == want, "{how} gives {}", show_factors(&f.constant_factor, &got));
        Ok(())
    };
    go(l.factor(), "factor")?;
    if s.chance(1, 2) {
        let seed = s.raw();
        go(l.factor_with_rng(&mut Pcg64Mcg::seed_from_u64(seed)), "factor_with_rng")?;
        let kind = s.usize(1, 2) as u32;
        go(l.factor_with_rng(&mut Rng2(seed | 1, kind)), "factor_with_rng (other generator)")?;
    }
    Ok(())
}
fn gen_content(s: &mut Src) -> BigInt {
    match s.usize(0, 3) {
        0 => BigInt::one(),
        1 => BigInt::from(*s.pick(&[-1i64, 2, -2, 3, -3, 6, 12, -30, 105])),
        _ => s.nonzero_bigint(70),
    }
}
fn combine(s: &mut Src, hard: bool, max_parts: usize, max_deg: usize) -> Vec<(usize, Z)> {
    let mut parts: Vec<(usize, Z)> = vec![];
    let mut deg = 0;
    for _ in 0..s.usize(if hard { 1 } else { 0 }, max_parts) {
        for f in gen_irreducibles(s, hard) {
            if parts.iter().any(|p| p.1 == f) || f.len() < 2 {
                continue;
            }
            let e = if s.chance(1, 4) { s.usize(1, 4) } else { 1 };
            let e = if deg + e * (f.len() - 1) > max_deg { 1 } else { e };
            if deg + e * (f.len() - 1) > max_deg {
                continue;
            }
            deg += e * (f.len() - 1);
            parts.push((e, f));
        }
    }
    parts
}
fn products(s: &mut Src, rec: &mut Rec) -> Res {
    let parts = combine(s, false, 4, 14);
    let c = gen_content(s);
    check_factor(s, rec, parts, c)
}
fn hard(s: &mut Src, rec: &mut Rec) -> Res {
    let parts = combine(s, true, 3, 20);
    let c = gen_content(s);
    check_factor(s, rec, parts, c)
}
/// many small factors: large recombination searches
fn many(s: &mut Src, rec: &mut Rec) -> Res {
    let mut parts: Vec<(usize, Z)> = vec![];
    for _ in 0..s.usize(2, 8) {
        let f = match s.usize(0, 2) {
            0 => q::zprimitive(&z(&[s.int(-9, 9), s.int(1, 6)])),
            1 => {
                let p = q::zprimitive(&z(&[s.int(-9, 9), s.int(-9, 9), s.int(1, 6)]));
                if !modp::is_irreducible_q_any(&p) {
                    continue;
                }
                p
            }
            _ => cyclotomic(s.usize(1, 12)),
        };
        if !parts.iter().any(|p| p.1 == f) {
            parts.push((1, f));
        }
    }
    let c = gen_content(s);
    check_factor(s, rec, parts, c)
}
/// high multiplicities
fn powers(s: &mut Src, rec: &mut Rec) -> Res {
    let mut parts: Vec<(usize, Z)> = vec![];
    let mut deg = 0;
    for _ in 0..s.usize(1, 3) {
        for f in gen_irreducibles(s, false) {
            let d = f.len().max(1) - 1;
            let e = s.usize(1, 14);
            if d == 0 || d > 4 || deg + e * d > 30 || parts.iter().any(|p| p.1 == f) {
                continue;
            }
            deg += e * d;
            parts.push((e, f));
        }
    }
    let c = gen_content(s);
    check_factor(s, rec, parts, c)
}
/// short vectors of the lattice spanned by the rows (floating point; any row stays in the lattice)
fn reduce(mut b: Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let dot = |x: &[f64], y: &[f64]| x.iter().zip(y).map(|(x, y)| x * y).sum::<f64>();
    let (mut k, mut steps) = (1, 0);
    while k < b.len() && steps < 600 {
        steps += 1;
        // Gram-Schmidt of the first k + 1 rows
        let mut o: Vec<Vec<f64>> = vec![];
        for i in 0..=k {
            let mut v = b[i].clone();
            for w in &o {
                let m = dot(&b[i], w) / dot(w, w);
                v.iter_mut().zip(w).for_each(|(v, w)| *v -= m * w);
            }
            o.push(v);
        }
        for j in (0..k).rev() {
            let m = (dot(&b[k], &o[j]) / dot(&o[j], &o[j])).round();
            let w = b[j].clone();
            b[k].iter_mut().zip(&w).for_each(|(v, w)| *v -= m * w);
        }
        let m = dot(&b[k], &o[k - 1]) / dot(&o[k - 1], &o[k - 1]);
        if dot(&o[k], &o[k]) >= (0.75 - m * m) * dot(&o[k - 1], &o[k - 1]) {
            k += 1;
        } else {
            b.swap(k, k - 1);
            k = (k - 1).max(1);
        }
    }
    b
}
/// polynomials whose factors have much larger coefficients than they do
fn tall(s: &mut Src, rec: &mut Rec) -> Res {
    let mut g = z(&[1]);
    for round in 0..s.usize(1, 2) {
        let base = match s.usize(0, 3) {
            0 => z(&[if round == 0 { -1 } else { 1 }, 1]),
            1 => z(&[1, -1, 1]),
            2 => z(&[1, 0, 1]),
            _ => z(&[s.int(-2, 2), s.int(-2, 2), 1]),
        };
        let k = if base.len() == 2 { s.usize(4, 8) } else { s.usize(2, 4) };
        let mut b = q::zpow(&base, k);
        for _ in 0..s.usize(1, 2) {
            let i = s.usize(0, b.len() - 2);
            b[i] += BigInt::from(*s.pick(&[1i64, -1]));
        }
        g = q::zmul(&g, &b);
    }
    if s.bool() && g.len() < 12 {
        // splits into many factors modulo every prime, so that the tall factor is found first
        g = q::zmul(&g, &cyclotomic(*s.pick(&[8usize, 12, 15, 16, 20, 24])));
    }
    let d = g.len() - 1;
    let n = s.usize(d + 2, d + 10);
    let row = |i: usize| -> Vec<f64> {
        let mut v = vec![0.0; n + 1];
        for (j, c) in g.iter().enumerate() {
            v[i + j] = c.to_f64().unwrap();
        }
        v
    };
    let rows = reduce((0..=n - d).map(row).collect());
    let norm = |v: &Vec<f64>| v.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let best = rows.iter().min_by(|a, b| norm(a).partial_cmp(&norm(b)).unwrap()).unwrap();
    let f: Z = q::trimmed(best.iter().map(|v| BigInt::from(v.round() as i64)).collect());
    if f.len() < 2 {
        return Ok(());
    }
    let f = q::zprimitive(&f);
    let parts: Vec<(usize, Z)> = factor_all(&f);
    let h = |p: &Z| p.iter().map(|c| c.abs()).max().unwrap();
    if parts.iter().any(|p| h(&p.1) > h(&f) * 3) {
        rec.label("factor with larger coefficients");
    }
    check_factor(s, rec, parts, BigInt::one())
}
/// irreducible factors and multiplicities of a primitive polynomial, by the reference factoriser
fn factor_all(prim: &Z) -> Vec<(usize, Z)> {
    let mut parts = vec![];
    for f in split(prim) {
        let mut e = 0;
        let mut rest = q::z2q(prim);
        loop {
            let (d, r) = q::divrem(&rest, &q::z2q(&f));
            if !r.is_empty() {
                break;
            }
            rest = d;
            e += 1;
        }
        parts.push((e, f));
    }
    parts
}
/// total degree up to 44
fn large(s: &mut Src, rec: &mut Rec) -> Res {
    let parts = combine(s, false, 7, 44);
    let c = gen_content(s);
    check_factor(s, rec, parts, c)
}
/// arbitrary coefficient vectors, judged by the reference factoriser
fn arbitrary(s: &mut Src, rec: &mut Rec) -> Res {
    let deg = s.usize(0, 9);
    let bits = *s.pick(&[1usize, 2, 3, 4, 8, 30, 100]);
    let p = random_poly(s, deg, bits);
    let prim = q::zprimitive(&p);
    let sign = if p.last().unwrap().is_negative() { -1 } else { 1 };
    let c = q::zcontent(&p) * sign;
    if s.chance(1, 50) {
        let f = Polynomial::<BigInt>::zero().factor();
        ensure!(f.constant_factor.is_zero() && f.polynomial_factors.is_empty(), "factors of zero");
    }
    let parts = factor_all(&prim);
    check_factor(s, rec, parts, c)
}

// ---------------------------------------------------------------- C15
fn gen_real_rooted(s: &mut Src) -> Z {
    // clustered or exact rational roots, or anything
    match s.weighted(&[3, 3, 2, 1]) {
        0 => {
            let (d, b) = (s.usize(0, 5), *s.pick(&[2usize, 4, 20]));
            random_poly(s, d, b)
        }
        1 => {
            let mut p = z(&[1]);
            let base = s.int(-3, 3);
            let den = *s.pick(&[1i64, 2, 3, 16, 1000]);
            for _ in 0..s.usize(1, 4) {
                let r = base * den + s.int(-3, 3);
                p = q::zmul(&p, &z(&[-r, den]));
            }
            p
        }
        2 => {
            // even or sparse: remainder degrees drop by more than one
            let n = s.usize(2, 9);
            let mut v: Z = vec![BigInt::zero(); n + 1];
            v[0] = s.bigint(4);
            v[n] = s.nonzero_bigint(3);
            let k = s.usize(0, n);
            v[k] += s.bigint(4);
            if v[n].is_zero() {
                v[n] = BigInt::one();
            }
            v
        }
        _ => swinnerton(if s.bool() { &[2, 3] } else { &[2, 5] }),
    }
}
fn lib_q(p: &[Q]) -> Polynomial<Q> {
    p.to_vec().into()
}
/// factor a random product: expected square-free parts are computed from gcds
fn yun(s: &mut Src, rec: &mut Rec) -> Res {
    let mut p: Vec<Q> = vec![s.small_ratio(30, 12)];
    if p[0].is_zero() {
        p[0] = if s.chance(1, 8) { Q::zero() } else { Q::one() };
    }
    for _ in 0..s.usize(0, 3) {
        let f = q::z2q(&gen_real_rooted(s));
        let (reps, lim) = if f.len() < 4 && s.chance(1, 4) { (s.usize(1, 12), 28) } else { (s.usize(1, 3), 18) };
        for _ in 0..reps {
            if p.len() + f.len() < lim {
                p = q::mul(&p, &f);
            }
        }
    }
    let p = q::trimmed(p);
    rec.desc = q::showq(&p);
    let l = lib_q(&p);
    let r = l.square_free_factorization_using_yuns_algorithm();
    let got: Vec<Vec<Q>> = r.polynomial_factors.iter().map(|f| f.iter().collect()).collect();
    if p.len() < 2 {
        ensure!(got.is_empty() && r.constant_factor == p.first().cloned().unwrap_or_else(Q::zero), "constant polynomial gives {} and {} factors", r.constant_factor, got.len());
        return Ok(());
    }
    // multiplicities from the reference: successive gcds
    let mut want: Vec<Vec<Q>> = vec![];
    let mut f = p.clone();
    let mut prev: Option<Vec<Q>> = None; // radical of the previous stage
    loop {
        let g = q::gcd(&f, &q::deriv(&f));
        let rad = q::monic(&q::divrem(&f, &g).0);
        if let Some(pr) = prev {
            want.push(q::monic(&q::divrem(&pr, &rad).0));
        }
        if rad.len() == 1 {
            break;
        }
        prev = Some(rad);
        f = g;
    }
    if want.len() > 1 {
        rec.nt();
        rec.label("repeated");
    } else if p.len() > 2 {
        rec.nt();
    }
    let norm: Vec<Vec<Q>> = got.iter().map(|f| if f.is_empty() { vec![] } else { q::monic(f) }).collect();
    ensure!(norm == want, "square-free parts [{}] want [{}]", norm.iter().map(|f| q::showq(f)).collect::<Vec<_>>().join("; "), want.iter().map(|f| q::showq(f)).collect::<Vec<_>>().join("; "));
    let mut prod: Vec<Q> = vec![r.constant_factor.clone()];
    for (i, f) in got.iter().enumerate() {
        for _ in 0..=i {
            prod = q::mul(&prod, f);
        }
    }
    ensure!(prod == p, "the parts multiply to {}", q::showq(&prod));
    let sf = q::gcd(&p, &q::deriv(&p)).len() == 1;
    ensure!(l.is_square_free() == sf, "is_square_free is {} but should be {sf}", !sf);
    Ok(())
}
/// the square-free test, over the rationals and prime fields
fn sqfree(s: &mut Src, rec: &mut Rec) -> Res {
    let mut p = gen_real_rooted(s);
    if s.bool() {
        let f = gen_real_rooted(s);
        p = q::zmul(&p, &f);
        if s.bool() {
            p = q::zmul(&p, &f);
        }
    }
    let pr = *s.pick(&[2u64, 3, 5, 7, 11, 13, 101, 65521]);
    rec.desc = format!("{} (mod {pr})", q::show(&p));
    if p.len() > 2 {
        rec.nt();
    }
    let sf = q::gcd(&q::z2q(&p), &q::deriv(&q::z2q(&p))).len() <= 1;
    ensure!(lib_q(&q::z2q(&p)).is_square_free() == sf, "is_square_free over the rationals is {}", !sf);
    let f = F64(pr);
    let m = modp::from_z(&f, &p);
    let want = m.len() <= 1 || modp::squarefree(&f, &m);
    let lib: Polynomial<ModularInteger<i64, KnownPrime<i64>>> = m.iter().map(|c| ModularInteger::new(*c as i64, KnownPrime::new_unsafe(pr as i64))).collect();
    rec.label(if want { "square-free mod p" } else { "not square-free mod p" });
    ensure!(lib.is_square_free() == want, "is_square_free modulo {pr} is {}", !want);
    Ok(())
}
fn changes<T: Clone + Signed>(v: impl Iterator<Item = T>) -> usize {
    let mut last = 0i32;
    let mut n = 0;
    for x in v {
        let s = if x.is_zero() { 0 } else if x.is_negative() { -1 } else { 1 };
        if s != 0 {
            if last != 0 && last != s {
                n += 1;
            }
            last = s;
        }
    }
    n
}
fn sturm(s: &mut Src, rec: &mut Rec) -> Res {
    let mut p = gen_real_rooted(s);
    if s.bool() {
        p = q::zmul(&p, &gen_real_rooted(s));
    }
    if s.chance(1, 6) {
        p = q::zscale(&p, &s.nonzero_bigint(20));
    }
    rec.desc = q::show(&p);
    let scale = { let v = s.small_ratio(40, 9); if v.is_zero() { Q::one() } else { v } };
    let pq = q::scale(&q::z2q(&p), &scale);
    let lq = lib_q(&pq);
    let lz = lib_poly(&p);
    let seqs: Vec<(&str, Vec<Vec<Q>>)> = vec![
        ("to_sturm_sequence", lq.to_sturm_sequence().iter().map(|p| p.iter().collect()).collect()),
        ("into_sturm_sequence", lq.clone().into_sturm_sequence().iter().map(|p| p.iter().collect()).collect()),
        ("to_primitive_sturm_sequence over Q", lq.to_primitive_sturm_sequence().iter().map(|p| p.iter().collect()).collect()),
        ("into_primitive_sturm_sequence over Q", lq.clone().into_primitive_sturm_sequence().iter().map(|p| p.iter().collect()).collect()),
        ("to_primitive_sturm_sequence over Z", lz.to_primitive_sturm_sequence().iter().map(|p| q::z2q(&p.iter().collect())).collect()),
        ("into_primitive_sturm_sequence over Z", lz.clone().into_primitive_sturm_sequence().iter().map(|p| q::z2q(&p.iter().collect())).collect()),
    ];
    for (n, q1) in &seqs {
        let first = if n.ends_with('Z') { q::z2q(&p) } else { pq.clone() };
        ensure!(q1.first() == Some(&first), "{n} does not start with the polynomial");
    }
    if p.len() < 2 {
        return Ok(());
    }
    // reference: radical, exact root isolation
    let g = q::gcd(&q::z2q(&p), &q::deriv(&q::z2q(&p)));
    if g.len() > 1 {
        rec.label("repeated roots");
    }
    let rad = q::primitive(&q::divrem(&q::z2q(&p), &g).0);
    let chain = q::sturm(&rad);
    let b = Q::from_integer(BigInt::one() << q::root_bound_log2(&rad));
    let mut pts: Vec<Q> = vec![-b.clone(), b.clone()];
    let roots = q::isolate(&rad);
    if p.len() > 2 && !roots.is_empty() {
        rec.nt();
    }
    for mut r in roots {
        r.refine(s.usize(0, 30) as i64);
        let e = Q::new(1.into(), BigInt::one() << s.usize(0, 40));
        pts.push(&r.lo - &e);
        pts.push(&r.hi + &e);
    }
    for _ in 0..s.usize(1, 4) {
        pts.push(s.small_ratio(60, 16));
    }
    pts.retain(|x| q::zsign(&rad, x) != 0);
    pts.sort();
    pts.dedup();
    for (n, seq) in &seqs {
        let v: Vec<usize> = pts.iter().map(|x| changes(seq.iter().map(|p| q::eval(p, x)))).collect();
        for i in 1..pts.len() {
            let want = q::count_half_open(&chain, &pts[i - 1], &pts[i]);
            ensure!(v[i - 1] as i64 - v[i] as i64 == want as i64, "{n}: {} - {} sign changes on ({}, {}) but {want} roots", v[i - 1], v[i], pts[i - 1], pts[i]);
        }
    }
    Ok(())
}
fn main() {
    vcore::run::main(vec![
        Prop {
            id: "C14",
            rule: "at least two distinct irreducible factors, or one of degree three or more",
            assumptions: &["reference: irreducibility by construction (Eisenstein, cyclotomic, Swinnerton-Dyer) or by a reference factoriser working modulo one large prime", "degree at most about 20 (the recombination under test is exponential)", "random generators that never stop returning the same value are not used"],
            families: vec![fam("products", 15000, 150_000, products), fam("hard", 12000, 60_000, hard), fam("many", 10000, 80_000, many), fam("powers", 6000, 60_000, powers), fam("large", 1500, 20_000, large), fam("tall", 6000, 100_000, tall), fam("arbitrary", 40000, 300_000, arbitrary)],
        },
        Prop {
            id: "C15",
            rule: "degree at least two (Sturm: and at least one real root)",
            assumptions: &["reference: repeated gcds over the rationals; root counts from an independent Sturm chain of the radical and exact bisection"],
            families: vec![fam("yun", 50000, 600_000, yun), fam("square-free test", 60000, 1_000_000, sqfree), fam("sturm", 20000, 600_000, sturm)],
        },
    ])
}
