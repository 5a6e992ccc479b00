//! C08: dyadic interval arithmetic against exact rational images.
use algebraics::traits::{ExactDiv, ExactDivAssign, IntervalUnion, IntervalUnionAssign};
use harness::*;
use num_integer::Integer;
use num_traits::{One, Pow, Signed, Zero};
use std::ops::*;
use vcore::q;
use vcore::run::{fam, panics, Prop, Rec};
use vcore::{ensure, BigInt, BigUint, Ratio, Res, Src, Q};

fn gen_k(s: &mut Src) -> usize {
    match s.weighted(&[60, 100, 40, 20, 1]) {
        0 => s.usize(0, 2),
        1 => s.usize(0, 12),
        2 => s.usize(0, 70),
        3 => s.usize(0, 300),
        _ => s.usize(300, 3000),
    }
}
fn gen_numer(s: &mut Src, k: usize) -> BigInt {
    match s.weighted(&[4, 3, 2, 2]) {
        0 => BigInt::from(s.int(-6, 6)),
        1 => s.bigint(k + 8),
        2 => {
            // around an integer or a half
            let v = BigInt::from(s.int(-9, 9)) << k;
            let v = if k > 0 && s.bool() { v + (BigInt::one() << (k - 1)) } else { v };
            v + s.int(-1, 1)
        }
        _ => s.bigint(200),
    }
}
fn gen_iv(s: &mut Src) -> Dfi {
    let k = gen_k(s);
    let a = gen_numer(s, k);
    let b = match s.weighted(&[2, 3, 3, 1, 1]) {
        0 => a.clone(),
        1 => &a + s.int(0, 5),
        2 => gen_numer(s, k),
        3 => BigInt::zero(),
        _ => -&a,
    };
    if a <= b { Dfi::new(a, b, k) } else { Dfi::new(b, a, k) }
}
fn show(i: &Dfi) -> String {
    format!("[{}, {}]/2^{}", i.lower_bound_numer(), i.upper_bound_numer(), i.log2_denom())
}
fn ends(i: &Dfi) -> (Q, Q) {
    (q::dyadic(i.lower_bound_numer(), i.log2_denom()), q::dyadic(i.upper_bound_numer(), i.log2_denom()))
}
/// result encloses [lo, hi], at precision k, and (tight) by no more than rounding
fn check(r: &Dfi, lo: &Q, hi: &Q, k: usize, tight: bool, what: &str) -> Res {
    ensure!(r.lower_bound_numer() <= r.upper_bound_numer(), "{what}: inverted {}", show(r));
    ensure!(r.log2_denom() == k, "{what}: precision {} instead of {k}", r.log2_denom());
    let (a, b) = ends(r);
    ensure!(a <= *lo && *hi <= b, "{what}: {} does not contain [{lo}, {hi}]", show(r));
    if tight {
        let (wl, wh) = (q::floor_scaled(lo, k), q::ceil_scaled(hi, k));
        ensure!(*r.lower_bound_numer() == wl && *r.upper_bound_numer() == wh, "{what}: {} is wider than the tightest [{wl}, {wh}]/2^{k}", show(r));
    }
    Ok(())
}
fn signs(rec: &mut Rec, i: &Dfi, second: bool) {
    let (l, u) = (i.lower_bound_numer(), i.upper_bound_numer());
    let t = match (l.is_negative(), u.is_positive(), l.is_zero() || u.is_zero()) {
        (true, true, _) => 0,
        (_, _, true) => 1,
        (true, false, _) => 2,
        _ => 3,
    };
    const A: [&str; 4] = ["lhs straddles zero", "lhs touches zero", "lhs negative", "lhs positive"];
    const B: [&str; 4] = ["rhs straddles zero", "rhs touches zero", "rhs negative", "rhs positive"];
    rec.label(if second { B[t] } else { A[t] });
}
macro_rules! bin_forms {
    ($s:expr, $a:expr, $b:expr, $op:ident, $opa:ident) => {{
        let (a, b) = ($a, $b);
        match $s.below(6) {
            0 => a.clone().$op(b.clone()),
            1 => a.clone().$op(b),
            2 => a.$op(b.clone()),
            3 => a.$op(b),
            4 => { let mut t = a.clone(); t.$opa(b.clone()); t }
            _ => { let mut t = a.clone(); t.$opa(b); t }
        }
    }};
}
fn minmax(v: &[Q]) -> (Q, Q) {
    (v.iter().min().unwrap().clone(), v.iter().max().unwrap().clone())
}
fn corners(a: &Dfi, b: &(Q, Q), f: impl Fn(&Q, &Q) -> Q) -> (Q, Q) {
    let (al, ah) = ends(a);
    minmax(&[f(&al, &b.0), f(&al, &b.1), f(&ah, &b.0), f(&ah, &b.1)])
}
fn binary(s: &mut Src, rec: &mut Rec) -> Res {
    let a = gen_iv(s);
    let mut b = gen_iv(s);
    if s.chance(1, 10) {
        b = a.clone();
    }
    let op = s.usize(0, 4);
    rec.desc = format!("{} {} {}", show(&a), ["+", "-", "*", "/", "union"][op], show(&b));
    rec.label(["add", "sub", "mul", "div", "union"][op]);
    signs(rec, &a, false);
    signs(rec, &b, true);
    if a.log2_denom() != b.log2_denom() {
        rec.label("different precisions");
    }
    if !a.lower_bound_numer().is_zero() || !a.upper_bound_numer().is_zero() {
        rec.nt();
    }
    let k = a.log2_denom().max(b.log2_denom());
    let be = ends(&b);
    match op {
        0 => {
            let r = bin_forms!(s, &a, &b, add, add_assign);
            let (lo, hi) = corners(&a, &be, |x, y| x + y);
            check(&r, &lo, &hi, k, true, "add")
        }
        1 => {
            let r = bin_forms!(s, &a, &b, sub, sub_assign);
            let (lo, hi) = corners(&a, &be, |x, y| x - y);
            check(&r, &lo, &hi, k, true, "sub")
        }
        2 => {
            let r = bin_forms!(s, &a, &b, mul, mul_assign);
            let (lo, hi) = corners(&a, &be, |x, y| x * y);
            check(&r, &lo, &hi, k, true, "mul")
        }
        3 => {
            let zero = !b.lower_bound_numer().is_positive() && !b.upper_bound_numer().is_negative();
            let c = match s.below(4) {
                0 => (&a).checked_exact_div(&b),
                1 => a.clone().checked_exact_div(b.clone()),
                2 => { let mut t = a.clone(); t.checked_exact_div_assign(&b).ok().map(|_| t) }
                _ => {
                    let mut t = a.clone();
                    let r = t.checked_exact_div_assign(b.clone());
                    if r.is_err() {
                        ensure!(t.is_same(&a), "failed division changed its operand to {}", show(&t));
                    }
                    r.ok().map(|_| t)
                }
            };
            ensure!(c.is_none() == zero, "checked division by {} gives {:?}", show(&b), c.as_ref().map(show));
            if zero {
                rec.label("division by an interval containing zero");
                ensure!(panics(|| &a / &b), "division by an interval containing zero did not refuse");
                return Ok(());
            }
            let (lo, hi) = corners(&a, &be, |x, y| x / y);
            check(&c.unwrap(), &lo, &hi, k, false, "checked_exact_div")?;
            let r = if s.bool() { bin_forms!(s, &a, &b, div, div_assign) } else { bin_forms!(s, &a, &b, exact_div, exact_div_assign) };
            check(&r, &lo, &hi, k, false, "div")
        }
        _ => {
            let r = bin_forms!(s, &a, &b, interval_union, interval_union_assign);
            let (al, ah) = ends(&a);
            check(&r, &al.min(be.0.clone()), &ah.max(be.1.clone()), k, true, "union")
        }
    }
}
macro_rules! scalar_ops {
    ($s:expr, $rec:expr, $a:expr, $rhs:expr, $v:expr, $ty:expr) => {{
        let (a, rhs, v): (&Dfi, _, Q) = ($a, $rhs, $v);
        let op = $s.usize(0, 3);
        $rec.desc = format!("{} {} {} ({})", show(a), ["+", "-", "*", "/"][op], v, $ty);
        let k = a.log2_denom();
        let pt = (v.clone(), v.clone());
        match op {
            0 => {
                let r = bin_forms!($s, a, &rhs, add, add_assign);
                let (lo, hi) = corners(a, &pt, |x, y| x + y);
                check(&r, &lo, &hi, k, true, "add scalar")
            }
            1 => {
                let r = bin_forms!($s, a, &rhs, sub, sub_assign);
                let (lo, hi) = corners(a, &pt, |x, y| x - y);
                check(&r, &lo, &hi, k, true, "sub scalar")
            }
            2 => {
                let r = bin_forms!($s, a, &rhs, mul, mul_assign);
                let (lo, hi) = corners(a, &pt, |x, y| x * y);
                check(&r, &lo, &hi, k, true, "mul scalar")
            }
            _ => {
                if v.is_zero() {
                    ensure!(panics(|| a / &rhs), "division by zero did not refuse");
                    return Ok(());
                }
                let r = bin_forms!($s, a, &rhs, div, div_assign);
                let (lo, hi) = corners(a, &pt, |x, y| x / y);
                check(&r, &lo, &hi, k, true, "div scalar")
            }
        }
    }};
}
macro_rules! prim {
    ($s:expr, $rec:expr, $a:expr, $t:ty) => {{
        let gen = |s: &mut Src| -> $t {
            match s.below(5) {
                0 => s.below(20) as $t,
                1 => <$t>::MAX - (s.below(3) as $t),
                2 => <$t>::MIN + (s.below(3) as $t),
                _ => {
                    let w = ((s.raw() as u128) << 64 | s.raw() as u128) as $t;
                    w >> s.usize(0, <$t>::BITS as usize - 1)
                }
            }
        };
        let n: $t = gen($s);
        if $s.bool() {
            scalar_ops!($s, $rec, $a, n, Q::from_integer(BigInt::from(n)), stringify!($t))
        } else {
            let mut d = gen($s);
            if d < 1 as $t { d = 1 as $t }
            let (bn, bd) = (BigInt::from(n), BigInt::from(d));
            let g = bn.gcd(&bd);
            let r = Ratio::new_raw(<$t>::try_from(&bn / &g).unwrap(), <$t>::try_from(&bd / &g).unwrap());
            scalar_ops!($s, $rec, $a, r, Q::new(bn, bd), concat!("Ratio of ", stringify!($t)))
        }
    }};
}
fn scalar(s: &mut Src, rec: &mut Rec) -> Res {
    let a = gen_iv(s);
    signs(rec, &a, false);
    if !a.lower_bound_numer().is_zero() || !a.upper_bound_numer().is_zero() {
        rec.nt();
    }
    let a = &a;
    match s.below(20) {
        0 => prim!(s, rec, a, u8),
        1 => prim!(s, rec, a, u16),
        2 => prim!(s, rec, a, u32),
        3 => prim!(s, rec, a, u64),
        4 => prim!(s, rec, a, u128),
        5 => prim!(s, rec, a, usize),
        6 => prim!(s, rec, a, i8),
        7 => prim!(s, rec, a, i16),
        8 => prim!(s, rec, a, i32),
        9 => prim!(s, rec, a, i64),
        10 => prim!(s, rec, a, i128),
        11 => prim!(s, rec, a, isize),
        12 => {
            let u: BigUint = s.biguint(150);
            scalar_ops!(s, rec, a, u.clone(), Q::from_integer(u.into()), "BigUint")
        }
        13 => {
            let u: BigUint = s.biguint(100);
            let d: BigUint = s.biguint(60) + 1u32;
            scalar_ops!(s, rec, a, Ratio::new(u.clone(), d.clone()), Q::new(u.into(), d.into()), "Ratio of BigUint")
        }
        14 | 15 | 16 => {
            let v = s.bigint(150);
            scalar_ops!(s, rec, a, v.clone(), Q::from_integer(v), "BigInt")
        }
        _ => {
            let v = if s.bool() { s.ratio(90) } else { s.small_ratio(9, 9) };
            scalar_ops!(s, rec, a, v.clone(), v, "Ratio of BigInt")
        }
    }
}
fn unary(s: &mut Src, rec: &mut Rec) -> Res {
    let a = gen_iv(s);
    let op = s.usize(0, 8);
    const N: [&str; 9] = ["neg", "abs", "square", "sqrt", "recip", "floor", "ceil", "convert", "queries"];
    rec.desc = format!("{} {}", N[op], show(&a));
    rec.label(N[op]);
    signs(rec, &a, false);
    if !a.lower_bound_numer().is_zero() || !a.upper_bound_numer().is_zero() {
        rec.nt();
    }
    let (lo, hi) = ends(&a);
    let k = a.log2_denom();
    let zero = !lo.is_positive() && !hi.is_negative();
    match op {
        0 => {
            check(&(-&a), &-hi.clone(), &-lo.clone(), k, true, "neg")?;
            check(&(-a.clone()), &-hi, &-lo, k, true, "neg")
        }
        1 => {
            let r = match s.below(3) { 0 => a.abs(), 1 => a.clone().into_abs(), _ => { let mut t = a.clone(); t.abs_assign(); t } };
            let (x, y) = minmax(&[lo.abs(), hi.abs()]);
            check(&r, &if zero { Q::zero() } else { x }, &y, k, true, "abs")
        }
        2 => {
            let r = match s.below(3) { 0 => a.square(), 1 => a.clone().into_square(), _ => { let mut t = a.clone(); t.square_assign(); t } };
            let (x, y) = minmax(&[&lo * &lo, &hi * &hi]);
            check(&r, &if zero { Q::zero() } else { x }, &y, k, true, "square")
        }
        3 => {
            let form = s.below(3);
            let run = |a: &Dfi| match form { 0 => a.sqrt(), 1 => a.clone().into_sqrt(), _ => { let mut t = a.clone(); t.sqrt_assign(); t } };
            if lo.is_negative() {
                rec.label("sqrt of a negative bound");
                ensure!(panics(|| run(&a)), "sqrt of a negative bound did not refuse: {}", show(&run(&a)));
                return Ok(());
            }
            let r = run(&a);
            ensure!(r.log2_denom() == k, "sqrt precision");
            // tightest: l^2 <= lo < (l+1)^2 and (h-1)^2 < hi <= h^2 at scale 2^-k
            let (l, h) = (r.lower_bound_numer().clone(), r.upper_bound_numer().clone());
            ensure!(!l.is_negative() && l <= h, "sqrt gives {}", show(&r));
            let (nl, nh) = (a.lower_bound_numer() << k, a.upper_bound_numer() << k);
            ensure!(&l * &l <= nl, "sqrt lower bound too large: {}", show(&r));
            ensure!(&h * &h >= nh, "sqrt upper bound too small: {}", show(&r));
            let l1: BigInt = &l + 1;
            ensure!(&l1 * &l1 > nl, "sqrt lower bound not tight: {}", show(&r));
            let h1: BigInt = &h - 1;
            ensure!(h.is_zero() || &h1 * &h1 < nh, "sqrt upper bound not tight: {}", show(&r));
            Ok(())
        }
        4 => {
            let r = a.checked_recip();
            ensure!(r.is_none() == zero, "checked_recip gives {:?}", r.as_ref().map(show));
            if zero {
                ensure!(panics(|| a.recip()), "recip of an interval containing zero did not refuse");
                return Ok(());
            }
            check(&r.unwrap(), &hi.recip(), &lo.recip(), k, true, "checked_recip")?;
            check(&a.recip(), &hi.recip(), &lo.recip(), k, true, "recip")
        }
        5 | 6 => {
            let nk = gen_k(s);
            let form = s.below(3);
            let (r, x, y) = if op == 5 {
                (match form { 0 => a.floor(nk), 1 => a.clone().into_floor(nk), _ => { let mut t = a.clone(); t.floor_assign(nk); t } }, q::floor(&lo), q::floor(&hi))
            } else {
                (match form { 0 => a.ceil(nk), 1 => a.clone().into_ceil(nk), _ => { let mut t = a.clone(); t.ceil_assign(nk); t } }, q::ceil(&lo), q::ceil(&hi))
            };
            check(&r, &Q::from_integer(x), &Q::from_integer(y), nk, true, N[op])
        }
        7 => {
            let nk = if s.bool() { gen_k(s) } else { k.saturating_sub(s.usize(0, 6)) };
            let r = match s.below(3) { 0 => a.to_converted_log2_denom(nk), 1 => a.clone().into_converted_log2_denom(nk), _ => { let mut t = a.clone(); t.convert_log2_denom(nk); t } };
            check(&r, &lo, &hi, nk, true, "convert")?;
            if nk >= k {
                check(&r.to_converted_log2_denom(k), &lo, &hi, k, true, "convert there and back")?;
            }
            Ok(())
        }
        _ => {
            ensure!(a.lower_bound() == lo && a.upper_bound() == hi, "bounds");
            ensure!(a.clone().into_lower_bound() == lo && a.clone().into_upper_bound() == hi, "into bounds");
            ensure!(a.to_ratio_range() == (lo.clone(), hi.clone()) && a.clone().into_ratio_range() == (lo.clone(), hi.clone()), "ratio range");
            ensure!(a.contains_zero() == zero, "contains_zero");
            ensure!(a.clone().destructure() == (a.lower_bound_numer().clone(), a.upper_bound_numer().clone(), k), "destructure");
            ensure!(a.is_same(&a.clone()), "is_same with itself");
            let b = gen_iv(s);
            let same = a.lower_bound_numer() == b.lower_bound_numer() && a.upper_bound_numer() == b.upper_bound_numer() && k == b.log2_denom();
            ensure!(a.is_same(&b) == same, "is_same");
            let mut t = a.clone();
            match s.below(7) {
                0 => { t.set_to_lower_bound(); check(&t, &lo, &lo, k, true, "set_to_lower_bound") }
                1 => { t.set_to_upper_bound(); check(&t, &hi, &hi, k, true, "set_to_upper_bound") }
                2 => {
                    if hi.is_negative() {
                        ensure!(panics(move || t.set_lower_bound_to_zero()), "set_lower_bound_to_zero above the upper bound did not refuse");
                        return Ok(());
                    }
                    t.set_lower_bound_to_zero();
                    check(&t, &Q::zero(), &hi, k, true, "set_lower_bound_to_zero")
                }
                3 => {
                    if lo.is_positive() {
                        ensure!(panics(move || t.set_upper_bound_to_zero()), "set_upper_bound_to_zero below the lower bound did not refuse");
                        return Ok(());
                    }
                    t.set_upper_bound_to_zero();
                    check(&t, &lo, &Q::zero(), k, true, "set_upper_bound_to_zero")
                }
                4 => { t.set_zero(); check(&t, &Q::zero(), &Q::zero(), k, true, "set_zero") }
                5 => { t.set_one(); check(&t, &Q::one(), &Q::one(), k, true, "set_one") }
                _ => { t.set_negative_one(); check(&t, &-Q::one(), &-Q::one(), k, true, "set_negative_one") }
            }
        }
    }
}
fn construct(s: &mut Src, rec: &mut Rec) -> Res {
    let k = gen_k(s);
    let gen_q = |s: &mut Src| match s.below(3) {
        0 => s.small_ratio(20, 9),
        1 => q::dyadic(&s.bigint(60), s.usize(0, 40)),
        _ => s.ratio(120),
    };
    let (x, y) = (gen_q(s), gen_q(s));
    let (lo, hi) = if x <= y { (x, y) } else { (y, x) };
    rec.desc = format!("construct [{lo}, {hi}] at {k}");
    if !lo.is_integer() || !hi.is_integer() {
        rec.nt();
    }
    check(&Dfi::from_ratio_range(lo.clone(), hi.clone(), k), &lo, &hi, k, true, "from_ratio_range")?;
    check(&Dfi::from_ratio(lo.clone(), k), &lo, &lo, k, true, "from_ratio")?;
    check(&Dfi::from_ratio(hi.clone(), k), &hi, &hi, k, true, "from_ratio")?;
    if lo < hi {
        ensure!(panics(|| Dfi::from_ratio_range(hi.clone(), lo.clone(), k)), "inverted from_ratio_range accepted");
    }
    let (a, b) = (q::floor(&lo), q::floor(&hi));
    let (qa, qb) = (q::qi(&a), q::qi(&b));
    check(&Dfi::from_int(a.clone(), k), &qa, &qa, k, true, "from_int")?;
    check(&Dfi::from_int_range(a.clone(), b.clone(), k), &qa, &qb, k, true, "from_int_range")?;
    let d = q::dyadic(&a, k);
    check(&Dfi::from_dyadic_fraction(a.clone(), k), &d, &d, k, true, "from_dyadic_fraction")?;
    check(&Dfi::new(a.clone(), b.clone(), k), &d, &q::dyadic(&b, k), k, true, "new")?;
    if a < b {
        ensure!(panics(|| Dfi::new(b.clone(), a.clone(), k)), "inverted new accepted");
    }
    let t = Dfi::new(a.clone(), b.clone(), k);
    ensure!(t.to_string() == format!("[{a} / 2^{k}, {b} / 2^{k}]"), "prints {t}");
    let dbg = format!("{t:?}");
    ensure!(dbg == format!("DyadicFractionInterval {{ lower_bound_numer: {a}, upper_bound_numer: {b}, log2_denom: {k} }}"), "prints {dbg}");
    check(&Dfi::zero(k), &Q::zero(), &Q::zero(), k, true, "zero")?;
    check(&Dfi::one(k), &Q::one(), &Q::one(), k, true, "one")?;
    check(&Dfi::negative_one(k), &-Q::one(), &-Q::one(), k, true, "negative_one")?;
    let mut t = Dfi::new(a.clone(), b.clone(), k);
    let c: BigInt = &a + s.int(-3, 3);
    if c <= b {
        t.set_lower_bound_numer(c.clone());
        check(&t, &q::dyadic(&c, k), &q::dyadic(&b, k), k, true, "set_lower_bound_numer")?;
        t.set_upper_bound_numer(&c + 2);
        check(&t, &q::dyadic(&c, k), &q::dyadic(&(&c + 2), k), k, true, "set_upper_bound_numer")?;
        ensure!(panics(move || t.set_upper_bound_numer(&c - 1)), "set_upper_bound_numer below the lower bound accepted");
    } else {
        ensure!(panics(move || t.set_lower_bound_numer(c)), "set_lower_bound_numer above the upper bound accepted");
    }
    Ok(())
}
fn qpow(x: &Q, n: u32) -> Q {
    Ratio::new_raw(Pow::pow(x.numer(), n), Pow::pow(x.denom(), n))
}
fn power(s: &mut Src, rec: &mut Rec) -> Res {
    let mut a = gen_iv(s);
    let big = a.lower_bound_numer().bits().max(a.upper_bound_numer().bits()) + a.log2_denom() as u64 > 120;
    let small = a.lower_bound_numer().bits().max(a.upper_bound_numer().bits()) + a.log2_denom() as u64 <= 24;
    let e = if big { s.int(-4, 4) } else if small && s.chance(1, 40) { s.int(-600, 600) } else { s.int(-17, 17) };
    if e < 0 && s.chance(1, 3) {
        a = a.abs() + BigInt::one();
    }
    rec.desc = format!("{} ^ {e}", show(&a));
    signs(rec, &a, false);
    rec.label(if e < 0 { "negative exponent" } else if e % 2 == 0 { "even exponent" } else { "odd exponent" });
    if e.abs() > 1 {
        rec.nt();
    }
    let (lo, hi) = ends(&a);
    let zero = !lo.is_positive() && !hi.is_negative();
    let form = s.below(6);
    let run = |a: &Dfi| match form {
        0 => a.pow(e),
        1 if e.abs() < 100 => a.clone().pow(e as i8),
        2 => a.pow(BigInt::from(e)),
        3 if e >= 0 => a.pow(e as u32),
        4 if e >= 0 => a.clone().pow(BigUint::from(e as u32)),
        _ => a.clone().pow(e as i128),
    };
    if e < 0 && zero {
        ensure!(panics(|| run(&a)), "negative power of an interval containing zero did not refuse");
        return Ok(());
    }
    let n = e.unsigned_abs() as u32;
    let (x, y) = if e < 0 { (hi.recip(), lo.recip()) } else { (lo, hi) };
    let (p, r) = (qpow(&x, n), qpow(&y, n));
    let (wl, wh) = if n % 2 == 0 && zero && n > 0 { (Q::zero(), p.max(r)) } else { minmax(&[p, r]) };
    check(&run(&a), &wl, &wh, a.log2_denom(), n <= 1, "pow")
}
/// random expression: the interval result contains the exact value at sampled points
fn expr(s: &mut Src, rec: &mut Rec) -> Res {
    let n = s.usize(2, 3);
    let mut vals: Vec<(Q, Dfi)> = vec![];
    let mut d = String::new();
    for _ in 0..n {
        let k = s.usize(0, 10);
        let a = s.bigint(k + 4);
        let w = s.int(0, 4);
        let off = s.small_ratio(8, 8).abs();
        let off = if off > Q::one() { off.recip() } else { off };
        let i = Dfi::new(a.clone(), &a + w, k);
        let (lo, hi) = ends(&i);
        let pt = &lo + (&hi - &lo) * off;
        d += &format!("{}@{} ", show(&i), pt);
        vals.push((pt, i));
    }
    let steps = s.usize(2, 7);
    for _ in 0..steps {
        let i = s.usize(0, vals.len() - 1);
        let j = s.usize(0, vals.len() - 1);
        let (x, ix) = vals[i].clone();
        let (y, iy) = vals[j].clone();
        let op = s.usize(0, 9);
        d += &format!("; {op}({i},{j})");
        let r = match op {
            0 | 1 => (&x + &y, &ix + &iy),
            2 => (&x - &y, &ix - &iy),
            3 | 4 => (&x * &y, ix * iy),
            5 => match ix.checked_exact_div(&iy) { Some(r) => (&x / &y, r), None => continue },
            6 => (&x * &x, ix.square()),
            7 => (x.abs(), ix.abs()),
            8 => (qpow(&x, 3), ix.pow(3)),
            _ => { let k = s.usize(0, 8); (x, ix.into_converted_log2_denom(k)) }
        };
        if r.0.numer().bits() > 4000 || r.1.upper_bound_numer().bits() > 4000 {
            break;
        }
        let (lo, hi) = ends(&r.1);
        rec.desc = d.clone();
        ensure!(lo <= hi, "step {op}: inverted {}", show(&r.1));
        ensure!(lo <= r.0 && r.0 <= hi, "step {op}: {} does not contain {}", show(&r.1), r.0);
        rec.nt();
        vals.push(r);
    }
    rec.desc = d;
    Ok(())
}
fn main() {
    vcore::run::main(vec![Prop {
        id: "C08",
        rule: "operand other than the point zero (construct: a bound that is not an integer; power: exponent magnitude above one; expression: at least one step executed)",
        assumptions: &["reference: exact images of intervals in rational arithmetic", "exponents up to 17 in magnitude, precisions up to 300 bits"],
        families: vec![
            fam("binary", 1_500_000, 20_000_000, binary),
            fam("scalar", 1_500_000, 20_000_000, scalar),
            fam("unary", 1_000_000, 15_000_000, unary),
            fam("construct", 200_000, 3_000_000, construct),
            fam("power", 1_000_000, 15_000_000, power),
            fam("expression", 400_000, 6_000_000, expr),
        ],
    }])
}
