//! C11: polynomial ring operations. C12: division. C13: gcd and resultant.
use algebraics::polynomial::{Polynomial, PolynomialCoefficient, PolynomialCoefficientAbsSupported, PolynomialDivSupported, PolynomialReducingFactorSupported, PseudoDivRem};
use algebraics::traits::{ExactDiv, ExactDivAssign, ExtendedGCD, GCD};
use harness::ring::*;
use num_integer::Integer;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedRem, CheckedSub, FromPrimitive, One, Pow, Signed, ToPrimitive, Zero};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use vcore::q;
use vcore::run::{fam, panics, Prop, Rec};
use vcore::{ensure, BigInt, Ratio, Res, Src, Q};

fn bpow(b: BigInt, e: usize) -> BigInt {
    (0..e).fold(BigInt::one(), |a, _| a * &b)
}
fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
macro_rules! forms {
    ($a:expr, $b:expr, $op:tt, $opa:tt) => {{
        let (a, b) = (&$a, &$b);
        let mut v = vec![("& &", a $op b), ("val &", a.clone() $op b), ("& val", a $op b.clone()), ("val val", a.clone() $op b.clone())];
        let mut t = a.clone();
        t $opa b;
        v.push(("assign &", t));
        let mut t = a.clone();
        t $opa b.clone();
        v.push(("assign val", t));
        v
    }};
}
fn same<T: PolynomialCoefficient>(got: &Polynomial<T>, want: &Polynomial<T>, what: &str) -> Res {
    ensure!(got == want && want == got && hash(got) == hash(want) && got.len() == want.len(), "{what}: {got:?} is not the canonical {want:?}");
    Ok(())
}
/// the polynomial has exactly the wanted coefficients, through every accessor
fn check<R: Ring>(r: &R, s: &mut Src, got: &Polynomial<R::T>, want: &MP<R>, what: &str) -> Res {
    let l = to_lib(r, want);
    let c: MP<R> = got.iter().map(|c| r.model(&c)).collect();
    ensure!(c == *want, "{what}: got {} want {}", text_of(r, &c), text_of(r, want));
    same(got, &l, what)?;
    ensure!(got.len() == want.len() && got.is_empty() == want.is_empty() && got.is_zero() == want.is_empty(), "{what}: length");
    ensure!(got.degree() == want.len().checked_sub(1), "{what}: degree");
    for i in 0..want.len() + 2 {
        let g = got.nonzero_coefficient(i).map(|c| r.model(&c));
        ensure!(g.as_ref() == want.get(i), "{what}: coefficient {i}");
    }
    ensure!(got.nonzero_highest_power_coefficient().map(|c| r.model(&c)).as_ref() == want.last(), "{what}: highest coefficient");
    // iterators from both ends
    let mut it = got.iter();
    let mut own = got.clone().into_iter();
    let (mut lo, mut hi) = (0, want.len());
    while lo < hi {
        ensure!(it.len() == hi - lo && own.len() == hi - lo, "{what}: iterator length");
        let (i, a, b) = if s.bool() {
            hi -= 1;
            (hi, it.next_back(), own.next_back())
        } else {
            lo += 1;
            (lo - 1, it.next(), own.next())
        };
        ensure!(a.map(|c| r.model(&c)).as_ref() == Some(&want[i]), "{what}: iter at {i}");
        ensure!(b.map(|c| r.model(&c)).as_ref() == Some(&want[i]), "{what}: into_iter at {i}");
    }
    ensure!(it.next().is_none() && it.next_back().is_none() && own.next().is_none() && own.next_back().is_none(), "{what}: iterator end");
    let v: MP<R> = got.clone().into_coefficients().iter().map(|c| r.model(c)).collect();
    ensure!(v == *want, "{what}: into_coefficients");
    ensure!(got.clone().split_out_divisor() == l.split_out_divisor(), "{what}: split_out_divisor");
    ensure!(got.to_string() == text_of(r, want), "{what}: prints {} want {}", got, text_of(r, want));
    Ok(())
}
fn all<R: Ring>(r: &R, s: &mut Src, v: Vec<(&str, Polynomial<R::T>)>, want: &MP<R>, what: &str) -> Res {
    let l = to_lib(r, want);
    for (i, (f, p)) in v.into_iter().enumerate() {
        if i == 0 {
            check(r, s, &p, want, &format!("{what} [{f}]"))?;
        } else {
            same(&p, &l, &format!("{what} [{f}]"))?;
        }
    }
    Ok(())
}
fn gen_poly<R: Ring>(r: &R, s: &mut Src, max: usize) -> MP<R> {
    if (4..10).contains(&max) && s.chance(1, 40) {
        // few terms, wide gaps
        let n = s.usize(max, 4 * max);
        return ptrim(r, (0..n).map(|i| if i + 1 < n && s.chance(4, 5) { r.int(0) } else { r.gen(s) }).collect());
    }
    gen_short(r, s, max)
}
fn gen_short<R: Ring>(r: &R, s: &mut Src, max: usize) -> MP<R> {
    let n = if s.chance(1, 4) { s.usize(0, max) } else { s.usize(2.min(max), max) };
    let mut v: MP<R> = (0..n).map(|_| if s.chance(1, 4) { r.int(0) } else { r.gen(s) }).collect();
    v = ptrim(r, v);
    v
}
/// a second operand related to the first often enough for terms to cancel
fn gen_second<R: Ring>(r: &R, s: &mut Src, a: &MP<R>, max: usize) -> MP<R> {
    match s.weighted(&[4, 1, 1, 2, 1]) {
        0 => gen_poly(r, s, max),
        1 => a.clone(),
        2 => pneg(r, a),
        3 => {
            // agree with a (or its negative) in the top coefficients
            let mut b = if s.bool() { a.clone() } else { pneg(r, a) };
            let k = s.usize(0, b.len());
            for c in b.iter_mut().take(k) {
                *c = r.gen(s);
            }
            ptrim(r, b)
        }
        _ => {
            let mut b = a.clone();
            b.reverse();
            ptrim(r, b)
        }
    }
}
/// conversion from an array of the same length, for every length that has one
fn from_array<T: PolynomialCoefficient>(v: &[T]) -> Option<Polynomial<T>> {
    macro_rules! go {
        ($($n:literal)*) => {
            match v.len() {
                $($n => {
                    let a: [T; $n] = v.to_vec().try_into().ok()?;
                    Some(Polynomial::from(a))
                })*
                _ => None,
            }
        };
    }
    go!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}
fn ring_case<R: Ring>(r: &R, s: &mut Src, rec: &mut Rec, maxlen: usize, maxpow: usize) -> Res {
    let maxlen = if s.chance(1, 50) { s.usize(2, 8) * maxlen } else { maxlen };
    let a = gen_poly(r, s, maxlen);
    let b = gen_second(r, s, &a, maxlen);
    let c = if s.chance(1, 8) { r.int(0) } else if s.chance(1, 5) && !a.is_empty() { a[0].clone() } else { r.gen(s) };
    rec.desc = format!("a={} b={} c={}", text_of(r, &a), text_of(r, &b), r.text(&c));
    if a.len() > 1 && b.len() > 1 {
        rec.nt();
    }
    let (la, lb, lc) = (to_lib(r, &a), to_lib(r, &b), r.lib(&c));
    check(r, s, &la, &a, "construct")?;
    // construction forms
    let mut pad: Vec<R::T> = a.iter().map(|m| r.lib(m)).collect();
    for _ in 0..s.usize(0, 2) {
        pad.push(r.lib(&r.int(0)));
    }
    all(r, s, vec![
        ("Vec", pad.clone().into()),
        ("slice", (&pad[..]).into()),
        ("Cow", Polynomial::from(Cow::Borrowed(&pad[..]))),
        ("iterator", pad.iter().cloned().collect()),
        ("elements", { let (e, d) = la.clone().split_out_divisor(); Polynomial::from((e, d)) }),
    ], &a, "construction")?;
    if let Some(p) = from_array(&pad) {
        same(&p, &la, &format!("array of {}", pad.len()))?;
    }
    let pc = ptrim(r, vec![c.clone()]);
    all(r, s, vec![("T", Polynomial::from(lc.clone())), ("&T", Polynomial::from(&lc))], &pc, "constant")?;
    let e = s.usize(0, 4);
    let mut mono = vec![r.int(0); e];
    mono.push(c.clone());
    let mono = ptrim(r, mono);
    check(r, s, &Polynomial::make_monomial(lc.clone(), e), &mono, "make_monomial")?;
    // equality
    ensure!((la == lb) == (a == b) && (la != lb) == (a != b), "equality of different polynomials");
    let (na, nb, nc) = (norm1(r, &a), norm1(r, &b), r.size(&c));
    // ring operations
    if r.fits(&(&na + &nb)) {
        let w = padd(r, &a, &b);
        all(r, s, forms!(la, lb, +, +=), &w, "a + b")?;
        same(&la.checked_add(&lb).ok_or("checked_add absent")?, &to_lib(r, &w), "checked_add")?;
        let w = psub(r, &a, &b);
        all(r, s, forms!(la, lb, -, -=), &w, "a - b")?;
        same(&la.checked_sub(&lb).ok_or("checked_sub absent")?, &to_lib(r, &w), "checked_sub")?;
    }
    if r.fits(&(&na * &nb)) {
        let w = pmul(r, &a, &b);
        all(r, s, forms!(la, lb, *, *=), &w, "a * b")?;
        same(&la.checked_mul(&lb).ok_or("checked_mul absent")?, &to_lib(r, &w), "checked_mul")?;
    }
    if r.fits(&(&na + &nc)) {
        all(r, s, forms!(la, lc, +, +=), &padd(r, &a, &pc), "a + scalar")?;
        all(r, s, forms!(la, lc, -, -=), &psub(r, &a, &pc), "a - scalar")?;
    }
    if r.fits(&(&na * &nc)) {
        all(r, s, forms!(la, lc, *, *=), &pscale(r, &a, &c), "a * scalar")?;
    }
    all(r, s, vec![("val", -la.clone()), ("&", -&la), ("negate", { let mut t = la.clone(); t.negate(); t })], &pneg(r, &a), "negation")?;
    // powers
    let e = if a.len() > 16 { s.usize(0, 2) } else { s.usize(0, maxpow) };
    if !(e == 0 && a.is_empty()) && r.fits(&bpow(na.clone(), e)) {
        let w = ppow(r, &a, e);
        all(r, s, vec![("&", (&la).pow(e)), ("val", la.clone().pow(e as u8)), ("BigInt", (&la).pow(BigInt::from(e)))], &w, "power")?;
    }
    // derivative
    if r.fits(&(&na * a.len())) {
        all(r, s, vec![("&", la.derivative()), ("val", la.clone().into_derivative())], &pderiv(r, &a), "derivative")?;
    }
    // evaluation
    let big = bpow(nc.clone() + 1, a.len()) * &na;
    if r.fits(&big) {
        let w = peval(r, &a, &c);
        ensure!(r.model(&la.eval(&lc)) == w, "eval of {} at {}", text_of(r, &a), r.text(&c));
        ensure!(r.model(&la.clone().into_eval(&lc)) == w, "into_eval of {} at {}", text_of(r, &a), r.text(&c));
    }
    let comp = bpow(nb.clone() + 1, a.len()) * &na;
    if a.len() <= 4 && b.len() <= 4 && r.fits(&comp) {
        // substitution b for the variable
        let mut w: MP<R> = vec![];
        for (i, k) in a.iter().enumerate() {
            w = padd(r, &w, &pscale(r, &ppow(r, &b, i), k));
        }
        let g = la.eval_generic(&lb, Polynomial::<R::T>::zero());
        let h = la.clone().into_eval_generic(&lb, Polynomial::<R::T>::zero());
        all(r, s, vec![("&", g), ("val", h)], &w, "composition")?;
    }
    // ones
    if a.is_empty() {
        ensure!(la.to_one_if_nonzero().is_none() && la.clone().into_one_if_nonzero().is_err() && la.clone().set_one_if_nonzero().is_err(), "one of zero");
    } else {
        let w = ptrim(r, vec![r.int(1)]);
        all(r, s, vec![
            ("to", la.to_one_if_nonzero().ok_or("to_one_if_nonzero absent")?),
            ("into", la.clone().into_one_if_nonzero().map_err(|_| "into_one_if_nonzero absent")?),
            ("set", { let mut t = la.clone(); t.set_one_if_nonzero().map_err(|_| "set_one_if_nonzero failed")?; t }),
        ], &w, "one")?;
    }
    ensure!(la.is_one() == (a == vec![r.int(1)]), "is_one of {}", text_of(r, &a));
    let mut z = la.clone();
    z.set_zero();
    check(r, s, &z, &vec![], "set_zero")?;
    Ok(())
}
/// a chain of operations: results stay canonical whatever came before
fn history<R: Ring>(r: &R, s: &mut Src, rec: &mut Rec) -> Res {
    let mut vals: Vec<(MP<R>, Polynomial<R::T>)> = vec![];
    for _ in 0..2 {
        let a = gen_poly(r, s, 4);
        let l = to_lib(r, &a);
        vals.push((a, l));
    }
    let mut d = vals.iter().map(|v| text_of(r, &v.0)).collect::<Vec<_>>().join(", ");
    for _ in 0..s.usize(1, 8) {
        let i = s.usize(0, vals.len() - 1);
        let j = s.usize(0, vals.len() - 1);
        let (x, y) = (vals[i].clone(), vals[j].clone());
        let op = s.usize(0, 8);
        d += &format!("; {op}({i},{j})");
        rec.desc = d.clone();
        let n = match op {
            0 => (padd(r, &x.0, &y.0), x.1 + y.1),
            1 => (psub(r, &x.0, &y.0), &x.1 - &y.1),
            2 | 3 => (pmul(r, &x.0, &y.0), x.1 * &y.1),
            4 => (pneg(r, &x.0), -x.1),
            5 => (pderiv(r, &x.0), x.1.derivative()),
            6 => {
                let c = r.gen(s);
                let lc = r.lib(&c);
                (padd(r, &x.0, &ptrim(r, vec![c])), x.1 + lc)
            }
            7 => {
                let c = r.gen(s);
                let lc = r.lib(&c);
                (pscale(r, &x.0, &c), &x.1 * &lc)
            }
            _ => {
                let mut t = x.1;
                t -= &y.1;
                (psub(r, &x.0, &y.0), t)
            }
        };
        if n.0.len() > 16 || n.0.iter().any(|c| r.text(c).len() > 400) {
            continue;
        }
        check(r, s, &n.1, &n.0, &format!("step {op}"))?;
        rec.nt();
        vals.push(n);
    }
    Ok(())
}
/// norms, FromPrimitive/ToPrimitive and Zero/One where the coefficient type has them
fn norms<R: Ring<M = Q>>(r: &R, s: &mut Src, rec: &mut Rec) -> Res
where
    R::T: Ord + PolynomialCoefficientAbsSupported + Zero + FromPrimitive + ToPrimitive,
{
    let a = gen_poly(r, s, 6);
    rec.desc = text_of(r, &a);
    if a.len() > 1 {
        rec.nt();
    }
    let la = to_lib(r, &a);
    let m = a.iter().map(|c| c.abs()).max().unwrap_or_else(Q::zero);
    let t: Q = a.iter().map(|c| c.abs()).sum();
    ensure!(r.model(&la.max_norm()) == m && la.nonzero_max_norm().map(|v| r.model(&v)) == if a.is_empty() { None } else { Some(m) }, "max norm of {}", text_of(r, &a));
    if r.fits(&norm1(r, &a)) {
        ensure!(r.model(&la.manhattan_norm()) == t && la.nonzero_manhattan_norm().map(|v| r.model(&v)) == if a.is_empty() { None } else { Some(t) }, "manhattan norm of {}", text_of(r, &a));
    }
    ensure!(la.coefficient(1) == a.get(1).map_or_else(R::T::zero, |c| r.lib(c)), "coefficient(1)");
    ensure!(la.coefficient(40).is_zero(), "coefficient(40)");
    ensure!(r.model(&la.highest_power_coefficient()) == a.last().cloned().unwrap_or_else(Q::zero), "highest_power_coefficient");
    let v = s.int(-100, 100);
    let k = Polynomial::<R::T>::from_i64(v).ok_or("from_i64 absent")?;
    check(r, s, &k, &ptrim(r, vec![r.int(v)]), "from_i64")?;
    ensure!(k.to_i64() == Some(v) && k.to_i8() == v.to_i8() && k.to_u8() == v.to_u8() && k.to_i128() == Some(v as i128), "to primitive of {v}");
    macro_rules! prim {
        ($($from:ident $to:ident $t:ty),*) => {$(
            {
                let p = s.chance(1, 3);
                let v: $t = if p { <$t>::MAX - s.int(0, 2) as $t } else { s.int(0, 127) as $t };
                let c = R::T::$from(v);
                let k = Polynomial::<R::T>::$from(v);
                ensure!(k.is_some() == c.is_some(), "{} of {v}", stringify!($from));
                if let (Some(c), Some(k)) = (c, k) {
                    check(r, s, &k, &ptrim(r, vec![r.model(&c)]), stringify!($from))?;
                    ensure!(k.$to() == c.$to(), "{} of {v}", stringify!($to));
                }
                let w = if a.is_empty() { Some(0) } else if a.len() == 1 { r.lib(&a[0]).$to() } else { None };
                ensure!(la.$to() == w, "{} of {}", stringify!($to), text_of(r, &a));
            }
        )*};
    }
    prim!(from_i8 to_i8 i8, from_i16 to_i16 i16, from_i32 to_i32 i32, from_i64 to_i64 i64, from_i128 to_i128 i128, from_isize to_isize isize);
    prim!(from_u8 to_u8 u8, from_u16 to_u16 u16, from_u32 to_u32 u32, from_u64 to_u64 u64, from_u128 to_u128 u128, from_usize to_usize usize);
    let f = s.int(-100, 100) as f64;
    if let (Some(c), Some(k)) = (R::T::from_f64(f), Polynomial::<R::T>::from_f64(f)) {
        check(r, s, &k, &ptrim(r, vec![r.model(&c)]), "from_f64")?;
        ensure!(k.to_f64() == Some(f) && k.to_f32() == Some(f as f32), "to_f64 of {f}");
    }
    ensure!(a.len() <= 1 || (la.to_f64().is_none() && la.to_f32().is_none()), "to_f64 of a non-constant");
    Ok(())
}
/// high powers of short polynomials, in several exponent types
fn powers<R: Ring>(r: &R, s: &mut Src, rec: &mut Rec, maxpow: usize) -> Res {
    let a = gen_poly(r, s, 3);
    let e = s.usize(1, maxpow);
    rec.desc = format!("a={} e={e}", text_of(r, &a));
    if a.iter().any(|c| r.text(c).len() > 12) || !r.fits(&bpow(norm1(r, &a), e)) {
        return Ok(());
    }
    if a.len() > 1 && e > 4 {
        rec.nt();
    }
    let la = to_lib(r, &a);
    let v = match s.below(6) {
        0 => la.clone().pow(e as u8),
        1 => (&la).pow(e as i8),
        2 => la.clone().pow(e as i64),
        3 => (&la).pow(e as u128),
        4 => la.clone().pow(BigInt::from(e)),
        _ => (&la).pow(e),
    };
    check(r, s, &v, &ppow(r, &a, e), "power")
}
/// degrees of hundreds and thousands, few terms
fn long_poly<R: Ring>(r: &R, s: &mut Src, max: usize) -> MP<R> {
    let n = s.usize(30, max);
    let mut v: MP<R> = vec![r.int(0); n];
    for _ in 0..s.usize(1, 8) {
        let i = match s.below(3) { 0 => n - 1, 1 => s.usize(0, n - 1), _ => n - 1 - s.usize(0, 3) };
        v[i] = if s.chance(1, 4) { r.int(*s.pick(&[1, -1])) } else { r.gen(s) };
    }
    ptrim(r, v)
}
fn long_case<R: Ring>(r: &R, s: &mut Src, rec: &mut Rec) -> Res {
    let a = long_poly(r, s, 3000);
    let max = if s.chance(1, 3) { 1200 } else { 200 };
    let b = match s.below(3) { 0 => gen_short(r, s, 4), 1 => long_poly(r, s, max), _ => pneg(r, &a) };
    rec.desc = format!("long a of degree {} b={}", a.len() as i64 - 1, if b.len() > 9 { "long".to_string() } else { text_of(r, &b) });
    if a.len() > 256 {
        rec.nt();
    }
    let (la, lb) = (to_lib(r, &a), to_lib(r, &b));
    ensure!(la.len() == a.len() && la.degree() == a.len().checked_sub(1), "length {} degree {:?} instead of {}", la.len(), la.degree(), a.len());
    let (na, nb) = (norm1(r, &a), norm1(r, &b));
    if r.fits(&(&na + &nb)) {
        all(r, s, vec![("+", &la + &lb)], &padd(r, &a, &b), "a + b")?;
        all(r, s, vec![("-", &la - &lb)], &psub(r, &a, &b), "a - b")?;
    }
    if a.len() * b.len() <= 700_000 && r.fits(&(&na * &nb)) {
        all(r, s, vec![("*", &la * &lb)], &pmul(r, &a, &b), "a * b")?;
    }
    all(r, s, vec![("neg", -&la)], &pneg(r, &a), "negation")?;
    if r.fits(&(&na * a.len())) {
        all(r, s, vec![("&", la.derivative())], &pderiv(r, &a), "derivative")?;
    }
    for v in [0, 1, -1] {
        if r.fits(&na) {
            let c = r.int(v);
            ensure!(r.model(&la.eval(&r.lib(&c))) == peval(r, &a, &c), "value at {v}");
        }
    }
    let i = s.usize(0, a.len() + 2);
    ensure!(la.nonzero_coefficient(i).map(|c| r.model(&c)).unwrap_or_else(|| r.int(0)) == a.get(i).cloned().unwrap_or_else(|| r.int(0)), "coefficient {i}");
    Ok(())
}
fn c11_long(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(5) {
        0 => long_case(&Zr, s, rec),
        1 => long_case(&Qr, s, rec),
        2 => long_case(&Ir::<i64>(PhantomData), s, rec),
        3 => { let m = gen_modulus(s, i32::MAX as i64); long_case(&Mr { m: m.into(), v: m as i32 }, s, rec) }
        _ => long_case(&Nr, s, rec),
    }
}
fn c11_powers(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(6) {
        0 => powers(&Zr, s, rec, 70),
        1 => powers(&Qr, s, rec, 40),
        2 => powers(&Ir::<i64>(PhantomData), s, rec, 40),
        3 => powers(&Ir::<i128>(PhantomData), s, rec, 60),
        4 => { let m = gen_modulus(s, i32::MAX as i64); powers(&Mr { m: m.into(), v: m as i32 }, s, rec, 70) }
        _ => powers(&Nr, s, rec, 12),
    }
}
fn c11_z(s: &mut Src, rec: &mut Rec) -> Res {
    ring_case(&Zr, s, rec, 6, 5)
}
fn c11_q(s: &mut Src, rec: &mut Rec) -> Res {
    ring_case(&Qr, s, rec, 6, 4)
}
fn c11_fixed(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(7) {
        0 => ring_case(&Ir::<i8>(PhantomData), s, rec, 5, 3),
        1 => ring_case(&Ir::<i16>(PhantomData), s, rec, 5, 3),
        2 => ring_case(&Ir::<i32>(PhantomData), s, rec, 6, 4),
        3 => ring_case(&Ir::<i64>(PhantomData), s, rec, 6, 4),
        4 => ring_case(&Ir::<i128>(PhantomData), s, rec, 6, 4),
        5 => ring_case(&Ir::<isize>(PhantomData), s, rec, 6, 4),
        _ => ring_case(&Rr, s, rec, 4, 2),
    }
}
const PRIMES: &[i64] = &[2, 3, 5, 7, 11, 13, 127];
fn gen_prime(s: &mut Src) -> BigInt {
    match s.weighted(&[4, 1, 1]) {
        0 => (*s.pick(PRIMES)).into(),
        1 => 2147483647i64.into(),
        _ => "170141183460469231731687303715884105727".parse().unwrap(),
    }
}
fn gen_modulus(s: &mut Src, max: i64) -> i64 {
    match s.weighted(&[3, 2, 1]) {
        0 => s.int(1, 16.min(max)),
        1 => s.int(1, max),
        _ => max - s.int(0, 3),
    }
}
fn c11_mod(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(6) {
        0 => { let m = gen_modulus(s, i32::MAX as i64); ring_case(&Mr { m: m.into(), v: m as i32 }, s, rec, 6, 4) }
        1 => { let m = gen_modulus(s, 255); ring_case(&Mr { m: m.into(), v: m as u8 }, s, rec, 6, 4) }
        2 => { let m = gen_modulus(s, 127); ring_case(&Mr { m: m.into(), v: m as i8 }, s, rec, 6, 4) }
        3 => { let m = gen_modulus(s, i64::MAX) as u64 * 2 + 1; ring_case(&Mr { m: m.into(), v: m }, s, rec, 6, 4) }
        4 => { let m: BigInt = BigInt::from(s.biguint(90)) + 1i32; ring_case(&Mr { m: m.clone(), v: m }, s, rec, 6, 4) }
        _ => { let m = gen_prime(s); ring_case(&Pr { m: m.clone(), v: m }, s, rec, 6, 4) }
    }
}
fn c11_nested(s: &mut Src, rec: &mut Rec) -> Res {
    if s.chance(1, 5) { ring_case(&NNr, s, rec, 3, 2) } else { ring_case(&Nr, s, rec, 4, 3) }
}
/// the helper operations every coefficient type provides
fn coeff<R: Ring>(r: &R, s: &mut Src, rec: &mut Rec) -> Res {
    type E<R> = <<R as Ring>::T as PolynomialCoefficient>::Element;
    type D<R> = <<R as Ring>::T as PolynomialCoefficient>::Divisor;
    let (a, b) = (r.gen(s), r.gen(s));
    let n = s.usize(0, 6);
    let (zero, one) = (r.int(0), r.int(1));
    let (sa, sb) = (r.size(&a), r.size(&b));
    rec.desc = format!("coefficients {} and {}, {n}", r.text(&a), r.text(&b));
    if !r.is_zero(&a) && a != one {
        rec.nt();
    }
    let (la, lb) = (r.lib(&a), r.lib(&b));
    let is = |t: &R::T, w: &R::M, what: &str| -> Res {
        ensure!(r.model(t) == *w && *t == r.lib(w) && hash(t) == hash(&r.lib(w)), "{what}: {t:?} want {}", r.text(w));
        Ok(())
    };
    let mk = |e: &E<R>, d: &D<R>| R::T::make_coefficient(Cow::Borrowed(e), Cow::Borrowed(d));
    ensure!(R::T::is_coefficient_zero(&la) == (a == zero) && (one == zero || R::T::is_coefficient_one(&la) == (a == one)), "is zero/one");
    let mut t = la.clone();
    R::T::set_coefficient_zero(&mut t);
    is(&t, &zero, "set_coefficient_zero")?;
    let mut t = la.clone();
    R::T::set_coefficient_one(&mut t);
    is(&t, &one, "set_coefficient_one")?;
    is(&R::T::make_zero_coefficient_from_coefficient(Cow::Borrowed(&la)), &zero, "zero from coefficient")?;
    is(&R::T::make_zero_coefficient_from_coefficient(Cow::Owned(la.clone())), &zero, "zero from coefficient")?;
    is(&R::T::make_one_coefficient_from_coefficient(Cow::Borrowed(&la)), &one, "one from coefficient")?;
    is(&R::T::make_one_coefficient_from_coefficient(Cow::Owned(la.clone())), &one, "one from coefficient")?;
    // split and rejoin
    let (e, d) = R::T::coefficient_to_element(Cow::Borrowed(&la));
    ensure!(R::T::coefficient_to_element(Cow::Owned(la.clone())) == (e.clone(), d.clone()), "coefficient_to_element by value");
    is(&mk(&e, &d), &a, "make_coefficient")?;
    is(&R::T::make_coefficient(Cow::Owned(e.clone()), Cow::Owned(d.clone())), &a, "make_coefficient by value")?;
    let u: D<R> = One::one();
    for o in [false, true] {
        let get = || if o { Cow::Owned(e.clone()) } else { Cow::Borrowed(&e) };
        let z = R::T::make_zero_element(get());
        let w = R::T::make_one_element(get());
        ensure!(R::T::is_element_zero(&z) && (one == zero || !R::T::is_element_one(&z)), "make_zero_element");
        ensure!(R::T::is_element_one(&w) || one == zero, "make_one_element");
        is(&mk(&z, &u), &zero, "make_zero_element")?;
        is(&mk(&w, &u), &one, "make_one_element")?;
        is(&R::T::make_zero_coefficient_from_element(get()), &zero, "zero from element")?;
        is(&R::T::make_one_coefficient_from_element(get()), &one, "one from element")?;
    }
    let mut t = e.clone();
    R::T::set_element_zero(&mut t);
    is(&mk(&t, &u), &zero, "set_element_zero")?;
    let mut t = e.clone();
    R::T::set_element_one(&mut t);
    is(&mk(&t, &u), &one, "set_element_one")?;
    let mut t = e.clone();
    R::T::negate_element(&mut t);
    is(&mk(&t, &d), &r.neg(&a), "negate_element")?;
    ensure!(R::T::is_element_zero(&e) == (a == zero), "is_element_zero");
    // a divisor as an element over itself is one
    let de = R::T::divisor_to_element(Cow::Borrowed(&d), Cow::Borrowed(&e));
    ensure!(de == R::T::divisor_to_element(Cow::Owned(d.clone()), Cow::Owned(e.clone())), "divisor_to_element by value");
    is(&mk(&de, &d), &one, "divisor over itself")?;
    // multiples
    if r.fits(&(&sa * n)) {
        let w = r.mul(&a, &r.int(n as i64));
        is(&mk(&R::T::mul_element_by_usize(Cow::Borrowed(&e), n), &d), &w, "mul_element_by_usize")?;
        is(&mk(&R::T::mul_element_by_usize(Cow::Owned(e.clone()), n), &d), &w, "mul_element_by_usize by value")?;
        let mut t = e.clone();
        R::T::mul_assign_element_by_usize(&mut t, n);
        is(&mk(&t, &d), &w, "mul_assign_element_by_usize")?;
    }
    // powers
    // (a zero polynomial to the power zero is refused by design: zero has no ring of coefficients to make one from)
    if r.fits(&bpow(sa.clone(), 2 * n + 2)) && !(n == 0 && r.is_zero(&a)) {
        let mut w = one.clone();
        for _ in 0..n {
            w = r.mul(&w, &a);
        }
        is(&R::T::coefficient_pow_usize(la.clone(), n), &w, "coefficient_pow_usize")?;
        let (pe, pd) = (R::T::element_pow_usize(e.clone(), n), R::T::divisor_pow_usize(d.clone(), n));
        is(&mk(&pe, &pd), &w, "element and divisor powers")?;
        let mut x: D<R> = One::one();
        for _ in 0..n {
            x *= &d;
        }
        ensure!(pd == x, "divisor_pow_usize {pd:?} want {x:?}");
    }
    // several over one divisor
    if r.fits(&bpow(sa.max(sb), 4)) {
        let list = [la.clone(), lb.clone(), la.clone()];
        let (v, d) = R::T::coefficients_to_elements(Cow::Borrowed(&list));
        ensure!(R::T::coefficients_to_elements(Cow::Owned(list.to_vec())) == (v.clone(), d.clone()), "coefficients_to_elements by value");
        ensure!(v.len() == 3, "coefficients_to_elements length");
        for (e, w) in v.iter().zip([&a, &b, &a]) {
            is(&mk(e, &d), w, "coefficients_to_elements")?;
        }
        // reducing keeps the values
        let k = R::T::divisor_to_element(Cow::Borrowed(&d), Cow::Borrowed(&v[0]));
        let wide: Vec<_> = v.iter().map(|e| e.clone() * &k).collect();
        let dd = d.clone() * &d;
        let (rv, rd) = R::T::get_reduced_divisor(&wide, &dd);
        let (mut mv, mut md) = (wide, dd);
        R::T::reduce_divisor(&mut mv, &mut md);
        ensure!(rv == mv && rd == md, "get_reduced_divisor differs from reduce_divisor");
        for (e, w) in rv.iter().zip([&a, &b, &a]) {
            is(&mk(e, &rd), w, "get_reduced_divisor")?;
        }
        if a != zero || b != zero {
            let p: Polynomial<R::T> = list.to_vec().into();
            let q: Polynomial<R::T> = rv.iter().map(|e| mk(e, &rd)).collect();
            same(&q, &p, "polynomial from reduced elements")?;
        }
    }
    let (x, y) = (s.usize(0, 1500), s.usize(0, 1500));
    let (nx, ny) = (algebraics::polynomial::get_variable_name(x), algebraics::polynomial::get_variable_name(y));
    ensure!(!nx.is_empty() && (nx == ny) == (x == y), "variable names {nx} and {ny} at depths {x} and {y}");
    Ok(())
}
fn c11_coeff(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(13) {
        0 => coeff(&Zr, s, rec),
        1 | 2 => coeff(&Qr, s, rec),
        3 => coeff(&Ir::<i8>(PhantomData), s, rec),
        4 => coeff(&Ir::<i32>(PhantomData), s, rec),
        5 => coeff(&Ir::<i128>(PhantomData), s, rec),
        6 => coeff(&Rr, s, rec),
        7 => { let m = gen_modulus(s, i32::MAX as i64); coeff(&Mr { m: m.into(), v: m as i32 }, s, rec) }
        8 => { let m = gen_modulus(s, 255); coeff(&Mr { m: m.into(), v: m as u8 }, s, rec) }
        9 => { let m: BigInt = BigInt::from(s.biguint(90)) + 1i32; coeff(&Mr { m: m.clone(), v: m }, s, rec) }
        10 => { let m = gen_prime(s); coeff(&Pr { m: m.clone(), v: m }, s, rec) }
        11 => coeff(&Nr, s, rec),
        _ => coeff(&NNr, s, rec),
    }
}
/// zero and one through the numeric traits
fn units<R: Ring>(r: &R, s: &mut Src, rec: &mut Rec) -> Res
where
    <R::T as PolynomialCoefficient>::Element: One,
{
    let a = match s.weighted(&[4, 1, 1, 1]) {
        0 => gen_poly(r, s, 5),
        1 => vec![r.int(1)],
        2 => ptrim(r, vec![r.gen(s)]),
        _ => ptrim(r, vec![r.int(1), r.gen(s)]),
    };
    rec.desc = text_of(r, &a);
    if a.len() > 1 {
        rec.nt();
    }
    let la = to_lib(r, &a);
    type P<R> = Polynomial<<R as Ring>::T>;
    ensure!(<P<R> as One>::is_one(&la) == (a == vec![r.int(1)]), "One::is_one of {}", text_of(r, &a));
    ensure!(<P<R> as Zero>::is_zero(&la) == a.is_empty(), "Zero::is_zero of {}", text_of(r, &a));
    let one = {
        let mut t = la.clone();
        One::set_one(&mut t);
        t
    };
    all(r, s, vec![("set", one), ("one", One::one())], &vec![r.int(1)], "one")?;
    let zero = {
        let mut t = la.clone();
        Zero::set_zero(&mut t);
        t
    };
    all(r, s, vec![("set", zero), ("zero", Zero::zero()), ("default", Default::default())], &vec![], "zero")?;
    check(r, s, &(<P<R> as One>::one() * &la), &a, "one times a")?;
    check(r, s, &(<P<R> as Zero>::zero() + &la), &a, "zero plus a")
}
fn c11_units(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(7) {
        0 => units(&Zr, s, rec),
        1 | 2 => units(&Qr, s, rec),
        3 => units(&Ir::<i8>(PhantomData), s, rec),
        4 => units(&Ir::<i64>(PhantomData), s, rec),
        5 => units(&Rr, s, rec),
        _ => units(&Nr, s, rec),
    }
}
fn c11_history(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(4) {
        0 => history(&Zr, s, rec),
        1 => history(&Qr, s, rec),
        2 => { let m = gen_modulus(s, 30); history(&Mr { m: m.into(), v: m as i32 }, s, rec) }
        _ => history(&Nr, s, rec),
    }
}
fn c11_norms(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(4) {
        0 => norms(&Zr, s, rec),
        1 => norms(&Qr, s, rec),
        2 => norms(&Ir::<i64>(PhantomData), s, rec),
        _ => norms(&Ir::<i8>(PhantomData), s, rec),
    }
}

// ---------------------------------------------------------------- C12
/// dividend and divisor, with exact multiples and structured remainders common
fn gen_div<R: Ring>(r: &R, s: &mut Src, maxq: usize, maxd: usize) -> (MP<R>, MP<R>) {
    let k = if s.chance(1, 50) { s.usize(2, 6) } else { 1 };
    let (maxq, maxd) = (k * maxq, k * maxd);
    let b = gen_poly(r, s, maxd);
    let a = match s.weighted(&[3, 3, 2, 1]) {
        0 => pmul(r, &gen_poly(r, s, maxq), &b),
        1 => {
            let k = b.len().saturating_sub(1);
            padd(r, &pmul(r, &gen_poly(r, s, maxq), &b), &gen_poly(r, s, k))
        }
        2 => gen_poly(r, s, maxq + maxd),
        _ => pscale(r, &b, &r.gen(s)),
    };
    (a, b)
}
/// (label, quotient) forms of exact division, checked and unchecked
fn div_case<R: Frac>(r: &R, s: &mut Src, rec: &mut Rec, a: MP<R>, b: MP<R>, domain: bool) -> Res
where
    R::T: for<'a> ExactDiv<&'a R::T, Output = R::T>,
{
    rec.desc = format!("a={} b={}", text_of(r, &a), text_of(r, &b));
    let (la, lb) = (to_lib(r, &a), to_lib(r, &b));
    if b.is_empty() {
        ensure!(la.clone().checked_pseudo_div_rem(&lb).is_none(), "pseudo division by zero gives a result");
        ensure!(la.clone().checked_div_rem(&lb).is_none(), "division by zero gives a result");
        ensure!(la.clone().checked_exact_pseudo_div(&lb).is_none(), "exact pseudo division by zero gives a result");
        ensure!(ExactDiv::<&Polynomial<R::T>>::checked_exact_div(&la, &lb).is_none(), "exact division by zero gives a result");
        let mut t = la.clone();
        ensure!(ExactDivAssign::<&Polynomial<R::T>>::checked_exact_div_assign(&mut t, &lb).is_err(), "exact division by zero succeeds");
        same(&t, &la, "operand after a refused division by zero")?;
        ensure!(panics(|| la.clone().pseudo_div_rem(&lb)), "pseudo_div_rem by zero returned");
        return Ok(());
    }
    if a.len() >= b.len() && b.len() > 1 {
        rec.nt();
    }
    // pseudo division, in any commutative ring
    let PseudoDivRem { quotient, remainder, factor } = la.clone().checked_pseudo_div_rem(&lb).ok_or("checked_pseudo_div_rem absent")?;
    let f = r.model(&factor);
    let (q0, r0): (MP<R>, MP<R>) = (quotient.iter().map(|c| r.model(&c)).collect(), remainder.iter().map(|c| r.model(&c)).collect());
    check(r, s, &quotient, &ptrim(r, q0.clone()), "pseudo quotient")?;
    check(r, s, &remainder, &ptrim(r, r0.clone()), "pseudo remainder")?;
    ensure!(padd(r, &pmul(r, &q0, &b), &r0) == pscale(r, &a, &f), "pseudo division: factor {} quotient {} remainder {}", r.text(&f), text_of(r, &q0), text_of(r, &r0));
    ensure!(r0.len() < b.len(), "pseudo remainder {} is not of lower degree", text_of(r, &r0));
    ensure!(!domain || !r.is_zero(&f), "pseudo division factor is zero");
    let again = la.clone().pseudo_div_rem(&lb);
    ensure!(again.quotient == quotient && again.remainder == remainder && again.factor == factor, "pseudo_div_rem differs");
    if domain {
        let e = la.clone().checked_exact_pseudo_div(&lb);
        ensure!(e.is_some() == r0.is_empty(), "checked_exact_pseudo_div presence");
        if let Some((q1, f1)) = e {
            ensure!(q1 == quotient && f1 == factor, "checked_exact_pseudo_div value");
            let (q1, f1) = la.clone().exact_pseudo_div(&lb);
            ensure!(q1 == quotient && f1 == factor, "exact_pseudo_div value");
        }
    }
    // division with remainder
    if r.inv(b.last().unwrap()).is_none() {
        // leading coefficient is a zero divisor (composite modulus): division there is not claimed
        return Ok(());
    }
    let (wq, wr) = pdivrem(r, &a, &b);
    let inq = wq.iter().all(|c| r.inside(c));
    let inr = wr.iter().all(|c| r.inside(c));
    match la.clone().checked_div_rem(&lb) {
        Some((q1, r1)) => {
            ensure!(inq && inr, "checked_div_rem gives {q1:?} although the quotient is not in the ring");
            check(r, s, &q1, &wq, "quotient")?;
            check(r, s, &r1, &wr, "remainder")?;
            let (q2, r2) = la.clone().div_rem(&lb);
            same(&q2, &q1, "div_rem quotient")?;
            same(&r2, &r1, "div_rem remainder")?;
        }
        None => ensure!(!(inq && inr), "checked_div_rem absent although quotient {} and remainder {} exist", text_of(r, &wq), text_of(r, &wr)),
    }
    // exact division
    let exists = wr.is_empty() && inq;
    let got: Vec<(&str, Option<Polynomial<R::T>>)> = vec![
        ("& &", ExactDiv::<&Polynomial<R::T>>::checked_exact_div(&la, &lb)),
        ("val &", ExactDiv::<&Polynomial<R::T>>::checked_exact_div(la.clone(), &lb)),
        ("& val", ExactDiv::<Polynomial<R::T>>::checked_exact_div(&la, lb.clone())),
        ("val val", ExactDiv::<Polynomial<R::T>>::checked_exact_div(la.clone(), lb.clone())),
    ];
    for (w, g) in got {
        ensure!(g.is_some() == exists, "checked_exact_div [{w}]: present={} but the exact quotient exists={exists}", g.is_some());
        if let Some(g) = g {
            check(r, s, &g, &wq, &format!("checked_exact_div [{w}]"))?;
        }
    }
    for by_ref in [true, false] {
        let mut t = la.clone();
        let res = if by_ref { ExactDivAssign::<&Polynomial<R::T>>::checked_exact_div_assign(&mut t, &lb) } else { ExactDivAssign::<Polynomial<R::T>>::checked_exact_div_assign(&mut t, lb.clone()) };
        ensure!(res.is_ok() == exists, "checked_exact_div_assign ok={} exists={exists}", res.is_ok());
        if exists {
            same(&t, &to_lib(r, &wq), "checked_exact_div_assign")?;
        } else {
            same(&t, &la, "operand after a failed checked_exact_div_assign")?;
        }
    }
    if exists {
        rec.label("exact");
        let w = to_lib(r, &wq);
        same(&ExactDiv::<&Polynomial<R::T>>::exact_div(&la, &lb), &w, "exact_div & &")?;
        same(&ExactDiv::<&Polynomial<R::T>>::exact_div(la.clone(), &lb), &w, "exact_div val &")?;
        same(&ExactDiv::<Polynomial<R::T>>::exact_div(&la, lb.clone()), &w, "exact_div & val")?;
        same(&ExactDiv::<Polynomial<R::T>>::exact_div(la.clone(), lb.clone()), &w, "exact_div val val")?;
        let mut t = la.clone();
        ExactDivAssign::<&Polynomial<R::T>>::exact_div_assign(&mut t, &lb);
        same(&t, &w, "exact_div_assign &")?;
        let mut t = la.clone();
        ExactDivAssign::<Polynomial<R::T>>::exact_div_assign(&mut t, lb.clone());
        same(&t, &w, "exact_div_assign val")?;
    }
    Ok(())
}
/// division by a coefficient
fn scalar_case<R: Frac>(r: &R, s: &mut Src, rec: &mut Rec) -> Res
where
    R::T: for<'a> ExactDiv<&'a R::T, Output = R::T>,
{
    let c = if s.chance(1, 10) { r.int(0) } else { r.gen(s) };
    let n = if s.chance(1, 50) { 40 } else { 5 };
    let a0 = gen_poly(r, s, n);
    let mut a = if s.bool() && r.fits(&(norm1(r, &a0) * r.size(&c))) { pscale(r, &a0, &c) } else { a0 };
    if !a.is_empty() && s.chance(1, 4) {
        // one coefficient off
        let i = s.usize(0, a.len() - 1);
        let m = r.add(&a[i], &r.int(1));
        if r.fits(&r.size(&m)) {
            a[i] = m;
        }
        a = ptrim(r, a);
    }
    rec.desc = format!("a={} c={}", text_of(r, &a), r.text(&c));
    if a.len() > 1 && c != r.int(1) {
        rec.nt();
    }
    if r.int(1) == r.int(0) || (a.is_empty() && c != r.int(0) && r.inv(&c).is_none()) {
        return Ok(()); // the zero ring, or 0 divided by a zero divisor: not claimed
    }
    let (la, lc) = (to_lib(r, &a), r.lib(&c));
    let want: Option<MP<R>> = r.inv(&c).map(|i| pscale(r, &a, &i)).filter(|w| w.iter().all(|m| r.inside(m)));
    let got = [
        ("& &", ExactDiv::<&R::T>::checked_exact_div(&la, &lc)),
        ("val &", ExactDiv::<&R::T>::checked_exact_div(la.clone(), &lc)),
        ("& val", ExactDiv::<R::T>::checked_exact_div(&la, lc.clone())),
        ("val val", ExactDiv::<R::T>::checked_exact_div(la.clone(), lc.clone())),
    ];
    for (w, g) in got {
        ensure!(g.is_some() == want.is_some(), "checked_exact_div by {} [{w}]: present={} want={}", r.text(&c), g.is_some(), want.is_some());
        if let (Some(g), Some(w)) = (g, &want) {
            check(r, s, &g, w, "checked_exact_div by a coefficient")?;
        }
    }
    for by_ref in [true, false] {
        let mut t = la.clone();
        let res = if by_ref { ExactDivAssign::<&R::T>::checked_exact_div_assign(&mut t, &lc) } else { ExactDivAssign::<R::T>::checked_exact_div_assign(&mut t, lc.clone()) };
        ensure!(res.is_ok() == want.is_some(), "checked_exact_div_assign by a coefficient");
        match &want {
            Some(w) => same(&t, &to_lib(r, w), "checked_exact_div_assign by a coefficient")?,
            None => same(&t, &la, "operand after a failed checked_exact_div_assign by a coefficient")?,
        }
    }
    if let Some(w) = &want {
        all(r, s, vec![
            ("/ & &", &la / &lc), ("/ & val", &la / lc.clone()), ("/ val &", la.clone() / &lc), ("/ val val", la.clone() / lc.clone()),
            ("exact_div & &", ExactDiv::<&R::T>::exact_div(&la, &lc)), ("exact_div & val", ExactDiv::<R::T>::exact_div(&la, lc.clone())),
            ("exact_div val &", ExactDiv::<&R::T>::exact_div(la.clone(), &lc)), ("exact_div val val", ExactDiv::<R::T>::exact_div(la.clone(), lc.clone())),
            ("/= &", { let mut t = la.clone(); t /= &lc; t }), ("/= val", { let mut t = la.clone(); t /= lc.clone(); t }),
            ("exact_div_assign", { let mut t = la.clone(); ExactDivAssign::<&R::T>::exact_div_assign(&mut t, &lc); t }),
        ], w, "division by a coefficient")?;
        if !a.is_empty() && r.inside(&r.inv(a.last().unwrap()).unwrap_or_else(|| r.int(0))) {
            if let Some(i) = r.inv(a.last().unwrap()) {
                all(r, s, vec![("into_monic", la.clone().into_monic()), ("monic_assign", { let mut t = la.clone(); t.monic_assign(); t })], &pscale(r, &a, &i), "monic")?;
            }
        }
    }
    Ok(())
}
/// operators over fields, and modular powers
fn field_case<R: Frac>(r: &R, s: &mut Src, rec: &mut Rec) -> Res
where
    R::T: PolynomialDivSupported + for<'a> ExactDiv<&'a R::T, Output = R::T> + PolynomialReducingFactorSupported,
{
    let (a, b) = gen_div(r, s, 4, 4);
    div_case(r, s, rec, a.clone(), b.clone(), true)?;
    let (la, lb) = (to_lib(r, &a), to_lib(r, &b));
    if b.is_empty() {
        ensure!(la.checked_div(&lb).is_none() && la.checked_rem(&lb).is_none(), "checked division by zero present");
        ensure!(la.checked_powmod(1 + s.usize(0, 2), &lb).is_none(), "power modulo zero present");
        return Ok(());
    }
    let (wq, wr) = pdivrem(r, &a, &b);
    all(r, s, forms!(la, lb, /, /=), &wq, "a / b")?;
    all(r, s, forms!(la, lb, %, %=), &wr, "a % b")?;
    all(r, s, vec![("checked_div", la.checked_div(&lb).ok_or("checked_div absent")?)], &wq, "checked_div")?;
    all(r, s, vec![("checked_rem", la.checked_rem(&lb).ok_or("checked_rem absent")?)], &wr, "checked_rem")?;
    // modular power
    let e = match s.weighted(&[2, 4, 1]) {
        0 => s.usize(0, 1),
        1 => s.usize(2, 9),
        _ => s.usize(10, 20),
    };
    let small = a.iter().chain(&b).all(|c| r.text(c).len() < 8);
    if a.len() <= 5 && (e <= 5 || small) && !(e == 0 && a.is_empty()) {
        let mut w = pdivrem(r, &ptrim(r, vec![r.int(1)]), &b).1;
        for _ in 0..e {
            w = pdivrem(r, &pmul(r, &w, &a), &b).1;
        }
        if e > 1 && b.len() > 1 {
            rec.label("powmod");
        }
        all(r, s, vec![
            ("checked", la.checked_powmod(e, &lb).ok_or_else(|| format!("checked_powmod {e} absent"))?),
            ("BigInt", la.powmod(BigInt::from(e), &lb)),
        ], &w, &format!("power {e} modulo b"))?;
        ensure!(la.checked_powmod(-1i32, &lb).is_none(), "negative modular power present");
    }
    // reduced forms
    if !a.is_empty() {
        let w = pmonic(r, &a);
        all(r, s, vec![("to_reduced", la.to_reduced()), ("into_reduced", la.clone().into_reduced()), ("reduce_assign", { let mut t = la.clone(); t.reduce_assign(); t })], &w, "reduced")?;
        ensure!(la.nonzero_reducing_factor().map(|f| r.model(&f)).as_ref() == a.last(), "reducing factor");
    } else {
        ensure!(la.nonzero_reducing_factor().is_none() && la.to_reduced().is_zero(), "reducing zero");
    }
    Ok(())
}
/// modular powers with exponents of any size over prime fields of every width
fn bigpow<R: Frac>(r: &R, s: &mut Src, rec: &mut Rec) -> Res
where
    R::T: PolynomialDivSupported,
{
    let a = gen_poly(r, s, 6);
    let b = gen_poly(r, s, 5);
    let e = match s.weighted(&[2, 3, 2]) {
        0 => BigInt::from(s.int(1, 64)),
        1 => BigInt::from(s.biguint(64)) + 1,
        _ => BigInt::from(s.biguint(300)) + 1,
    };
    rec.desc = format!("a={} b={} e={e}", text_of(r, &a), text_of(r, &b));
    if b.is_empty() {
        return Ok(());
    }
    if b.len() > 1 && a.len() > 1 {
        rec.nt();
    }
    // left to right: another schedule than the usual right to left one
    let mut w = pdivrem(r, &ptrim(r, vec![r.int(1)]), &b).1;
    for i in (0..e.bits()).rev() {
        w = pdivrem(r, &pmul(r, &w, &w), &b).1;
        if e.bit(i) {
            w = pdivrem(r, &pmul(r, &w, &a), &b).1;
        }
    }
    let (la, lb) = (to_lib(r, &a), to_lib(r, &b));
    check(r, s, &la.powmod(e.clone(), &lb), &w, "modular power")?;
    if let Some(e) = e.to_u64() {
        check(r, s, &la.checked_powmod(e, &lb).ok_or("checked_powmod absent")?, &w, "modular power, u64")?;
    }
    Ok(())
}
fn c12_powmod(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(5) {
        0 => { let m = *s.pick(PRIMES); bigpow(&Pr { m: m.into(), v: m as i8 }, s, rec) }
        1 => { let m = *s.pick(&[2i64, 3, 4294967291]); bigpow(&Pr { m: m.into(), v: m }, s, rec) }
        2 => { let m = *s.pick(&[2i64, 3, 5, 65537, 2147483647]); bigpow(&Pr { m: m.into(), v: m as i32 }, s, rec) }
        3 => { let m = 9223372036854775783i64; bigpow(&Pr { m: m.into(), v: m }, s, rec) }
        _ => { let m = gen_prime(s); bigpow(&Pr { m: m.clone(), v: m }, s, rec) }
    }
}
fn c12_z(s: &mut Src, rec: &mut Rec) -> Res {
    let (a, b) = gen_div(&Zr, s, 4, 4);
    div_case(&Zr, s, rec, a, b, true)
}
fn c12_fixed(s: &mut Src, rec: &mut Rec) -> Res {
    fn go<R: Frac<M = Q>>(r: &R, s: &mut Src, rec: &mut Rec) -> Res
    where
        R::T: for<'a> ExactDiv<&'a R::T, Output = R::T>,
    {
        let (a, b) = gen_div(r, s, 2, 3);
        // keep every intermediate inside the width
        let k = a.len() + 1;
        let bound: BigInt = (norm1(r, &a) + 1) * bpow(norm1(r, &b) + 1, k) * 4;
        if !r.fits(&bound) {
            return Ok(());
        }
        div_case(r, s, rec, a, b, true)
    }
    match s.below(3) {
        0 => go(&Ir::<i32>(PhantomData), s, rec),
        1 => go(&Ir::<i64>(PhantomData), s, rec),
        _ => go(&Ir::<i128>(PhantomData), s, rec),
    }
}
fn c12_scalar(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(7) {
        0 => scalar_case(&Zr, s, rec),
        1 => scalar_case(&Qr, s, rec),
        2 => scalar_case(&Ir::<i8>(PhantomData), s, rec),
        3 => scalar_case(&Ir::<i64>(PhantomData), s, rec),
        4 => { let m = gen_modulus(s, 40); scalar_case(&Mr { m: m.into(), v: m as i32 }, s, rec) }
        5 => { let m = gen_modulus(s, 127); scalar_case(&Mr { m: m.into(), v: m as i8 }, s, rec) }
        _ => { let m = gen_prime(s); scalar_case(&Pr { m: m.clone(), v: m }, s, rec) }
    }
}
fn c12_field(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(7) {
        5 => { let m = 2147483647i64; field_case(&Pr { m: m.into(), v: m as i32 }, s, rec) }
        6 => { let m = 9223372036854775783i64; field_case(&Pr { m: m.into(), v: m }, s, rec) }
        0 | 1 => field_case(&Qr, s, rec),
        2 => { let m = *s.pick(PRIMES); field_case(&Pr { m: m.into(), v: m as i32 }, s, rec) }
        3 => { let m = *s.pick(PRIMES); field_case(&Pr { m: m.into(), v: m as i8 }, s, rec) }
        _ => { let m = gen_prime(s); field_case(&Pr { m: m.clone(), v: m }, s, rec) }
    }
}
fn long_div<R: Frac>(r: &R, s: &mut Src, rec: &mut Rec) -> Res
where
    R::T: PolynomialDivSupported + for<'a> ExactDiv<&'a R::T, Output = R::T>,
{
    let b = if s.chance(1, 4) { long_poly(r, s, 60) } else { gen_short(r, s, 5) };
    let b = pmonic(r, &b);
    let mut a = if s.bool() { pmul(r, &long_poly(r, s, 700), &b) } else { long_poly(r, s, 400) };
    if s.bool() {
        a = padd(r, &a, &gen_short(r, s, 3));
    }
    rec.desc = format!("long dividend of degree {} divisor {}", a.len() as i64 - 1, text_of(r, &b));
    if b.len() > 1 {
        rec.nt();
    }
    if b.is_empty() {
        return Ok(());
    }
    let (la, lb) = (to_lib(r, &a), to_lib(r, &b));
    let (wq, wr) = pdivrem(r, &a, &b);
    all(r, s, vec![("/", &la / &lb)], &wq, "a / b")?;
    all(r, s, vec![("%", &la % &lb)], &wr, "a % b")?;
    let e = ExactDiv::<&Polynomial<R::T>>::checked_exact_div(&la, &lb);
    ensure!(e.is_some() == wr.is_empty(), "exact division present: {}, remainder {}", e.is_some(), text_of(r, &wr));
    match e {
        Some(e) => all(r, s, vec![("exact", e)], &wq, "exact division"),
        None => Ok(()),
    }
}
fn c12_long(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(3) {
        0 => { let m = *s.pick(PRIMES); long_div(&Pr { m: m.into(), v: m as i32 }, s, rec) }
        1 => { let m = 9223372036854775783i64; long_div(&Pr { m: m.into(), v: m }, s, rec) }
        _ => { let m = gen_prime(s); long_div(&Pr { m: m.clone(), v: m }, s, rec) }
    }
}
fn c12_ring(s: &mut Src, rec: &mut Rec) -> Res {
    // composite moduli
    let m = gen_modulus(s, 60);
    let r = Mr { m: m.into(), v: m as i32 };
    let (a, b) = gen_div(&r, s, 4, 4);
    div_case(&r, s, rec, a, b, false)
}
/// nested polynomials: exact division by a polynomial of polynomials
fn c12_nested(s: &mut Src, rec: &mut Rec) -> Res {
    let r = Nr;
    let b = gen_poly(&r, s, 3);
    let qm = gen_poly(&r, s, 3);
    let mut a = pmul(&r, &qm, &b);
    let perturbed = s.chance(1, 3);
    if perturbed {
        a = padd(&r, &a, &gen_poly(&r, s, 3));
    }
    rec.desc = format!("a={} b={}", text_of(&r, &a), text_of(&r, &b));
    if a.len() > 1 && b.len() > 1 {
        rec.nt();
    }
    let (la, lb) = (to_lib(&r, &a), to_lib(&r, &b));
    let g = ExactDiv::<&Polynomial<Polynomial<BigInt>>>::checked_exact_div(&la, &lb);
    if b.is_empty() {
        ensure!(g.is_none(), "exact division by zero present");
        return Ok(());
    }
    let pd = la.clone().pseudo_div_rem(&lb);
    let f = r.model(&pd.factor);
    let (q0, r0): (Vec<Vec<Q>>, Vec<Vec<Q>>) = (pd.quotient.iter().map(|c| r.model(&c)).collect(), pd.remainder.iter().map(|c| r.model(&c)).collect());
    ensure!(padd(&r, &pmul(&r, &q0, &b), &r0) == pscale(&r, &a, &f) && r0.len() < b.len() && !f.is_empty(), "nested pseudo division law");
    match g {
        Some(g) => {
            let gm: Vec<Vec<Q>> = g.iter().map(|c| r.model(&c)).collect();
            ensure!(pmul(&r, &gm, &b) == a, "nested exact division gives a wrong quotient {}", text_of(&r, &gm));
            check(&r, s, &g, &gm, "nested exact quotient")?;
        }
        None => ensure!(perturbed, "nested exact division absent although the quotient is {}", text_of(&r, &qm)),
    }
    let mut t = la.clone();
    let ok = ExactDivAssign::<&Polynomial<Polynomial<BigInt>>>::checked_exact_div_assign(&mut t, &lb).is_ok();
    if !ok {
        same(&t, &la, "operand after a failed nested division")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C13
fn gen_pair<R: Ring>(r: &R, s: &mut Src, k: usize) -> (MP<R>, MP<R>) {
    let (k, gk) = if k >= 4 && s.chance(1, 80) { (s.usize(k, 12), s.usize(3, 9)) } else { (k, 3) };
    let g = match s.weighted(&[3, 4]) {
        0 => ptrim(r, vec![r.int(1)]),
        _ => gen_poly(r, s, gk),
    };
    let a = pmul(r, &gen_poly(r, s, k), &g);
    let b = match s.weighted(&[5, 1, 1, 1]) {
        0 => pmul(r, &gen_poly(r, s, k), &g),
        1 => pderiv(r, &a),
        2 => {
            // degree drops in the remainder sequence: a times something plus a low-degree rest
            let rest = gen_poly(r, s, 2);
            padd(r, &pmul(r, &a, &gen_poly(r, s, 2)), &pmul(r, &g, &rest))
        }
        _ => pscale(r, &a, &r.gen(s)),
    };
    if s.bool() { (a, b) } else { (b, a) }
}
fn coefs<R: Ring>(r: &R, p: &Polynomial<R::T>) -> MP<R> {
    p.iter().map(|c| r.model(&c)).collect()
}
fn gcd_case<R: Frac>(r: &R, s: &mut Src, rec: &mut Rec, k: usize) -> Res
where
    R::T: PolynomialDivSupported + for<'a> ExactDiv<&'a R::T, Output = R::T> + PolynomialReducingFactorSupported,
{
    let (a, b) = gen_pair(r, s, k);
    rec.desc = format!("a={} b={}", text_of(r, &a), text_of(r, &b));
    let (la, lb) = (to_lib(r, &a), to_lib(r, &b));
    let want = pgcd(r, &a, &b);
    if want.len() > 1 && a.len() > want.len() && b.len() > want.len() {
        rec.label("proper common factor");
    }
    if a.len() > 1 && b.len() > 1 {
        rec.nt();
    }
    let g = GCD::gcd(&la, &lb);
    let gm = coefs(r, &g);
    ensure!(pmonic(r, &gm) == want, "gcd gives {} want {} up to a unit", text_of(r, &gm), text_of(r, &want));
    check(r, s, &g, &gm, "gcd")?;
    let gl = GCD::gcd_lcm(&la, &lb);
    let el = la.extended_gcd_lcm(&lb);
    let lcm = GCD::lcm(&la, &lb);
    let e = la.extended_gcd(&lb);
    for (n, v) in [("gcd_lcm", &gl.gcd), ("extended_gcd", &e.gcd), ("extended_gcd_lcm", &el.gcd)] {
        ensure!(pmonic(r, &coefs(r, v)) == want, "{n}: gcd {} want {}", text_of(r, &coefs(r, v)), text_of(r, &want));
    }
    let wl = if want.is_empty() { vec![] } else { pmonic(r, &pdivrem(r, &pmul(r, &a, &b), &want).0) };
    for (n, v) in [("lcm", &lcm), ("gcd_lcm", &gl.lcm), ("extended_gcd_lcm", &el.lcm)] {
        let m = coefs(r, v);
        ensure!(pmonic(r, &m) == wl, "{n}: lcm {} want {} up to a unit", text_of(r, &m), text_of(r, &wl));
        check(r, s, v, &m, n)?;
    }
    for (n, x, y, g) in [("extended_gcd", &e.x, &e.y, &e.gcd), ("extended_gcd_lcm", &el.x, &el.y, &el.gcd)] {
        let (x, y, g) = (coefs(r, x), coefs(r, y), coefs(r, g));
        let got = padd(r, &pmul(r, &x, &a), &pmul(r, &y, &b));
        ensure!(got == g, "{n}: x={} y={} give {} not the gcd {}", text_of(r, &x), text_of(r, &y), text_of(r, &got), text_of(r, &g));
    }
    // square-free test
    if !a.is_empty() {
        let sf = pgcd(r, &a, &pderiv(r, &a)).len() <= 1;
        ensure!(la.is_square_free() == sf, "is_square_free of {}", text_of(r, &a));
    }
    res_case(r, &a, &b)?;
    Ok(())
}
fn res_case<R: Frac>(r: &R, a: &MP<R>, b: &MP<R>) -> Res
where
    R::T: for<'a> ExactDiv<&'a R::T, Output = R::T>,
{
    let (la, lb) = (to_lib(r, a), to_lib(r, b));
    let got = la.clone().nonzero_resultant(lb.clone()).map(|v| r.model(&v)).unwrap_or_else(|| r.int(0));
    let want = if a.is_empty() || b.is_empty() { r.int(0) } else { presultant(r, a, b) };
    ensure!(got == want, "resultant is {} but the Sylvester determinant is {}", r.text(&got), r.text(&want));
    // non-reduced gcd
    let g = coefs(r, &la.subresultant_gcd(lb));
    let w = pgcd(r, a, b);
    ensure!(pmonic(r, &g) == w, "subresultant_gcd gives {} want a multiple of {}", text_of(r, &g), text_of(r, &w));
    Ok(())
}
fn c13_field(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(6) {
        5 => { let m = *s.pick(&[4294967291i64, 9223372036854775783]); gcd_case(&Pr { m: m.into(), v: m }, s, rec, 5) }
        0 | 1 => gcd_case(&Qr, s, rec, 4),
        2 => { let m = *s.pick(PRIMES); gcd_case(&Pr { m: m.into(), v: m as i32 }, s, rec, 6) }
        3 => { let m = *s.pick(PRIMES); gcd_case(&Pr { m: m.into(), v: m }, s, rec, 6) }
        _ => { let m = gen_prime(s); gcd_case(&Pr { m: m.clone(), v: m }, s, rec, 6) }
    }
}
fn c13_z(s: &mut Src, rec: &mut Rec) -> Res {
    let k = *s.pick(&[3usize, 5, 7]);
    let (a, b) = gen_pair(&Zr, s, k);
    rec.desc = format!("a={} b={}", text_of(&Zr, &a), text_of(&Zr, &b));
    if a.len() > 2 && b.len() > 2 {
        rec.nt();
    }
    let (la, lb) = (to_lib(&Zr, &a), to_lib(&Zr, &b));
    let want = if a.is_empty() || b.is_empty() { Q::zero() } else { presultant(&Zr, &a, &b) };
    ensure!(Q::from(la.clone().resultant(lb.clone())) == want, "resultant differs from {want}");
    ensure!(la.nonzero_resultant(lb).is_some() == !want.is_zero(), "nonzero_resultant presence");
    res_case(&Zr, &a, &b)
}
/// the shape used by the crate itself: resultants of polynomials whose coefficients are polynomials
fn c13_nested(s: &mut Src, rec: &mut Rec) -> Res {
    let r = Nr;
    let (a, b) = match s.below(3) {
        0 => gen_pair(&r, s, 3),
        1 => (gen_short(&r, s, 4), gen_short(&r, s, 4)),
        _ => {
            // p(y) and q(x - y): the sum construction
            let p: Vec<Vec<Q>> = gen_short(&Zr, s, 4).into_iter().map(|c| q::trimmed(vec![c])).collect();
            let mut w: Vec<Vec<Q>> = vec![];
            let d: Vec<Vec<Q>> = vec![vec![q::q(0), q::q(1)], vec![q::q(-1)]];
            for (i, c) in gen_short(&Zr, s, 4).into_iter().enumerate() {
                w = padd(&r, &w, &pscale(&r, &ppow(&r, &d, i), &q::trimmed(vec![c])));
            }
            (p, w)
        }
    };
    rec.desc = format!("a={} b={}", text_of(&r, &a), text_of(&r, &b));
    let (la, lb) = (to_lib(&r, &a), to_lib(&r, &b));
    let res: Vec<Q> = la.clone().resultant(lb.clone()).iter().map(Q::from).collect();
    ensure!(la.clone().nonzero_resultant(lb.clone()).is_some() == !res.is_empty(), "nonzero_resultant presence");
    if a.is_empty() || b.is_empty() {
        ensure!(res.is_empty(), "resultant with zero is {}", q::showq(&res));
        return Ok(());
    }
    if a.len() > 1 && b.len() > 1 {
        rec.nt();
    }
    let at = |p: &Vec<Vec<Q>>, x: &Q| -> Vec<Q> { p.iter().map(|c| q::eval(c, x)).collect() };
    // a polynomial in X of bounded degree: equal when equal at enough points
    let da = a.iter().map(|c| c.len()).max().unwrap();
    let db = b.iter().map(|c| c.len()).max().unwrap();
    let deg = da * (b.len() - 1) + db * (a.len() - 1);
    ensure!(res.len() <= deg + 1, "resultant of degree {}", res.len());
    for i in 0..=deg as i64 {
        let x = q::q(if i % 2 == 0 { i / 2 } else { -(i + 1) / 2 });
        let want = presultant(&Zr, &at(&a, &x), &at(&b, &x));
        let got = q::eval(&res, &x);
        ensure!(got == want, "resultant at X={x} is {got} but the Sylvester determinant is {want}");
    }
    // gcd over the fraction field
    let g = la.subresultant_gcd(lb);
    let gm = coefs(&r, &g);
    ensure!(!gm.is_empty(), "gcd of nonzero polynomials is zero");
    let mut best = usize::MAX;
    for i in 0..24i64 {
        let x = q::q(1000 + 37 * i);
        let (ax, bx, gx) = (at(&a, &x), at(&b, &x), at(&gm, &x));
        if ax.last().unwrap().is_zero() || bx.last().unwrap().is_zero() || gx.last().unwrap().is_zero() {
            continue;
        }
        best = best.min(q::gcd(&ax, &bx).len());
        ensure!(q::divrem(&ax, &gx).1.is_empty() && q::divrem(&bx, &gx).1.is_empty(), "gcd {} does not divide both", text_of(&r, &gm));
    }
    ensure!(gm.len() == best, "gcd {} has length {} want {best}", text_of(&r, &gm), gm.len());
    Ok(())
}
/// gcd, lcm and Bezout of rationals and integers used as coefficients of contents
fn c13_content(s: &mut Src, rec: &mut Rec) -> Res {
    fn go<R: Frac<M = Q>>(r: &R, s: &mut Src, rec: &mut Rec) -> Res
    where
        R::T: GCD<Output = R::T> + PartialOrd + Zero + for<'a> ExactDiv<&'a R::T, Output = R::T>,
    {
        let c = r.gen(s);
        let a = pscale(r, &gen_poly(r, s, 5), &c);
        rec.desc = text_of(r, &a);
        let la = to_lib(r, &a);
        if a.is_empty() {
            ensure!(la.nonzero_content().is_none() && la.content().is_zero() && la.primitive_part().is_zero(), "content of zero");
            return Ok(());
        }
        if a.len() > 1 {
            rec.nt();
        }
        // content: gcd of the coefficients with the sign of the leading one
        let den = a.iter().fold(BigInt::one(), |l, c| Integer::lcm(&l, c.denom()));
        let num = a.iter().fold(BigInt::zero(), |g, c| Integer::gcd(&g, &(c * Q::from(den.clone())).to_integer()));
        let mut want = Q::new(num, den);
        if a.last().unwrap().is_negative() {
            want = -want;
        }
        ensure!(r.model(&la.content()) == want && la.nonzero_content().map(|c| r.model(&c)) == Some(want.clone()), "content of {} is {} want {want}", text_of(r, &a), r.text(&r.model(&la.content())));
        let pp = pscale(r, &a, &want.recip());
        all(r, s, vec![("primitive_part", la.primitive_part()), ("into", la.clone().into_primitive_part()), ("assign", { let mut t = la.clone(); t.primitive_part_assign(); t })], &pp, "primitive part")
    }
    /// integer polynomials reduce to content-free ones, and those over the rationals to monic ones
    fn reduced<R: Frac<M = Q>>(r: &R, s: &mut Src, rec: &mut Rec, monic: bool) -> Res
    where
        R::T: algebraics::polynomial::PolynomialReducingFactorSupported + Zero + for<'a> ExactDiv<&'a R::T, Output = R::T>,
    {
        let c = r.gen(s);
        let mut a = pscale(r, &gen_poly(r, s, 5), &c);
        if a.iter().any(|c| !r.fits(&(r.size(c) * 2i32))) {
            a = gen_poly(r, s, 5);
        }
        rec.desc = text_of(r, &a);
        let la = to_lib(r, &a);
        if a.is_empty() {
            ensure!(la.nonzero_reducing_factor().is_none() && la.reducing_factor().is_zero() && la.to_reduced().is_zero(), "reducing zero");
            return Ok(());
        }
        if a.len() > 1 {
            rec.nt();
        }
        let mut want = a.last().unwrap().clone();
        if !monic {
            let g = a.iter().fold(BigInt::zero(), |g, c| Integer::gcd(&g, c.numer()));
            want = Q::from(if want.is_negative() { -g } else { g });
        }
        let f = la.nonzero_reducing_factor().map(|f| r.model(&f));
        ensure!(f.as_ref() == Some(&want) && r.model(&la.reducing_factor()) == want, "reducing factor {f:?} want {want}");
        let w = pscale(r, &a, &want.recip());
        all(r, s, vec![("to", la.to_reduced()), ("into", la.clone().into_reduced()), ("assign", { let mut t = la.clone(); t.reduce_assign(); t })], &w, "reduced")
    }
    match s.below(6) {
        0 | 1 => go(&Zr, s, rec),
        2 | 3 => go(&Qr, s, rec),
        4 => reduced(&Zr, s, rec, false),
        _ => reduced(&Qr, s, rec, true),
    }
}
#[allow(unused)]
fn _unused(_: Ratio<i32>) {}
fn main() {
    vcore::run::main(vec![
        Prop {
            id: "C11",
            rule: "both operands non-constant (history: at least one step executed; norms: non-constant)",
            assumptions: &["reference: coefficient vectors over exact integers, rationals or residues", "lengths up to 16", "fixed-width operands are drawn so that the exact result and every partial sum fit", "zero to the power zero is not claimed"],
            families: vec![
                fam("integers", 300_000, 2_000_000, c11_z),
                fam("rationals", 300_000, 2_000_000, c11_q),
                fam("fixed", 400_000, 2_000_000, c11_fixed),
                fam("modular", 400_000, 2_000_000, c11_mod),
                fam("nested", 120_000, 800_000, c11_nested),
                fam("history", 300_000, 1_000_000, c11_history),
                fam("norms", 200_000, 1_000_000, c11_norms),
                fam("powers", 20_000, 400_000, c11_powers),
                fam("coefficients", 400_000, 2_000_000, c11_coeff),
                fam("units", 150_000, 1_000_000, c11_units), fam("long", 3000, 30_000, c11_long),
            ],
        },
        Prop {
            id: "C12",
            rule: "divisor non-constant and not longer than the dividend (scalar: non-constant dividend and scalar other than one)",
            assumptions: &["reference: schoolbook division over the field of fractions", "exponents of modular powers up to 300 bits (over the rationals up to 20)", "zero base with exponent zero is not claimed"],
            families: vec![
                fam("integers", 400_000, 2_000_000, c12_z),
                fam("fixed", 400_000, 2_000_000, c12_fixed),
                fam("scalar", 600_000, 3_000_000, c12_scalar),
                fam("field", 400_000, 2_000_000, c12_field),
                fam("composite modulus", 300_000, 2_000_000, c12_ring),
                fam("nested", 200_000, 600_000, c12_nested),
                fam("powmod", 150_000, 400_000, c12_powmod), fam("long", 3000, 30_000, c12_long),
            ],
        },
        Prop {
            id: "C13",
            rule: "both operands non-constant (content: non-constant)",
            assumptions: &["reference: Euclid over the field of fractions and elimination on the Sylvester matrix", "degrees up to about 10"],
            families: vec![
                fam("field", 250_000, 1_000_000, c13_field),
                fam("integers", 250_000, 1_000_000, c13_z),
                fam("nested", 60_000, 300_000, c13_nested),
                fam("content", 300_000, 1_500_000, c13_content),
            ],
        },
    ])
}
