//! C01-C07: real algebraic numbers against explicit number fields.
use algebraics::algebraic_numbers::IntoRationalExponent;
use algebraics::traits::{ExactDiv, ExactDivAssign};
use harness::*;
use num_integer::Integer;
use num_traits::{One, Pow, Signed, Zero};
use std::cmp::Ordering;
use vcore::field::{gen_elem, gen_field, gen_irreducible, Elem, Field, gen_tall};
use vcore::q::{self, bi, isolate, Root, Z};
use vcore::run::{fam, Prop, Rec};
use vcore::{ensure, modp, BigInt, BigUint, Ratio, Res, Src, Q};

// ---------------------------------------------------------------- helpers
fn add_form(form: u64, a: &Num, b: &Num) -> Num {
    match form {
        0 => a + b,
        1 => a.clone() + b,
        2 => a + b.clone(),
        3 => a.clone() + b.clone(),
        4 => { let mut t = a.clone(); t += b; t }
        _ => { let mut t = a.clone(); t += b.clone(); t }
    }
}
fn sub_form(form: u64, a: &Num, b: &Num) -> Num {
    match form {
        0 => a - b,
        1 => a.clone() - b,
        2 => a - b.clone(),
        3 => a.clone() - b.clone(),
        4 => { let mut t = a.clone(); t -= b; t }
        _ => { let mut t = a.clone(); t -= b.clone(); t }
    }
}
fn mul_form(form: u64, a: &Num, b: &Num) -> Num {
    match form {
        0 => a * b,
        1 => a.clone() * b,
        2 => a * b.clone(),
        3 => a.clone() * b.clone(),
        4 => { let mut t = a.clone(); t *= b; t }
        _ => { let mut t = a.clone(); t *= b.clone(); t }
    }
}
fn div_form(form: u64, a: &Num, b: &Num) -> Option<Num> {
    match form {
        0 => Some(a / b),
        1 => Some(a.clone() / b),
        2 => Some(a / b.clone()),
        3 => Some(a.clone() / b.clone()),
        4 => { let mut t = a.clone(); t /= b; Some(t) }
        5 => { let mut t = a.clone(); t /= b.clone(); Some(t) }
        f => checked_div_form(f - 6, a, b),
    }
}
fn checked_div_form(form: u64, a: &Num, b: &Num) -> Option<Num> {
    match form {
        0 => a.checked_exact_div(b),
        1 => a.clone().checked_exact_div(b),
        2 => a.checked_exact_div(b.clone()),
        3 => a.clone().checked_exact_div(b.clone()),
        4 => { let mut t = a.clone(); t.checked_exact_div_assign(b).ok()?; Some(t) }
        _ => { let mut t = a.clone(); t.checked_exact_div_assign(b.clone()).ok()?; Some(t) }
    }
}
fn rem_form(form: u64, a: &Num, b: &Num) -> Num {
    match form {
        0 => a % b,
        1 => a.clone() % b,
        2 => a % b.clone(),
        3 => a.clone() % b.clone(),
        4 => { let mut t = a.clone(); t %= b; t }
        _ => { let mut t = a.clone(); t %= b.clone(); t }
    }
}
const OPS: [&str; 6] = ["add", "sub", "mul", "div", "neg", "recip"];
/// one arithmetic operation: model result (None = undefined) and crate result
fn apply(s: &mut Src, f: &Field, op: usize, a: &(Elem, Num), b: &(Elem, Num)) -> (Option<Elem>, Option<Num>) {
    let form = s.below(6);
    match op {
        0 => (Some(f.add(&a.0, &b.0)), Some(add_form(form, &a.1, &b.1))),
        1 => (Some(f.sub(&a.0, &b.0)), Some(sub_form(form, &a.1, &b.1))),
        2 => (Some(f.mul(&a.0, &b.0)), Some(mul_form(form, &a.1, &b.1))),
        3 => {
            if f.is_zero(&b.0) {
                (None, checked_div_form(form, &a.1, &b.1))
            } else {
                let fm = s.below(12);
                (Some(f.mul(&a.0, &f.inv(&b.0))), div_form(fm, &a.1, &b.1))
            }
        }
        4 => (Some(f.neg(&a.0)), Some(if form % 2 == 0 { -&a.1 } else { -a.1.clone() })),
        _ => {
            if f.is_zero(&a.0) {
                (None, a.1.checked_recip())
            } else {
                (Some(f.inv(&a.0)), if form % 2 == 0 { Some(a.1.recip()) } else { a.1.checked_recip() })
            }
        }
    }
}
type Chk = fn(&Field, &Elem, &Num, &str) -> Res;
fn check_opt(f: &Field, want: &Option<Elem>, got: &Option<Num>, what: &str, chk: Chk) -> Res {
    match (want, got) {
        (None, None) => Ok(()),
        (Some(w), Some(g)) => chk(f, w, g, what),
        (None, Some(g)) => Err(format!("{what}: undefined, but returned {}", show_num(g))),
        (Some(_), None) => Err(format!("{what}: defined, but reported absent")),
    }
}
/// size limit so that a case stays cheap: estimated bit size of the minimal polynomial
fn too_big(f: &Field, e: &Elem, limit: u64) -> bool {
    f.height_bits(e) > limit
}
fn classify(rec: &mut Rec, f: &Field, a: &Elem, b: &Elem) {
    let (ra, rb) = (f.to_q(a).is_some(), f.to_q(b).is_some());
    match (ra, rb) {
        (true, true) => rec.label("both rational"),
        (false, false) => { rec.label("both irrational"); rec.nt() }
        _ => { rec.label("mixed"); rec.nt() }
    }
}
fn wide(rec: &mut Rec, n: &Num) {
    if n.interval().contains_zero() && !n.is_zero() {
        rec.label("interval straddles zero");
    }
    if n.interval().log2_denom() == 0 {
        rec.label("integer interval ends");
    }
}
/// a partner related to a, so that results cancel or lose degree
fn related(s: &mut Src, f: &Field, a: &Elem) -> Elem {
    let c = f.rat(s.small_ratio(9, 6));
    match s.below(6) {
        0 => a.clone(),
        1 => f.neg(a),
        2 => f.sub(&c, a),
        3 if !f.is_zero(a) => f.mul(&c, &f.inv(a)),
        4 => f.add(a, &c),
        _ => f.mul(a, &c),
    }
}
/// work estimate of a binary operation: the resultant has degree da*db and
/// coefficients of about db*bits_a + da*bits_b bits
fn work(f: &Field, a: &Elem, b: &Elem) -> u64 {
    let (za, zb) = (f.minpoly(a), f.minpoly(b));
    let bits = |z: &Z| z.iter().map(|c| c.bits()).max().unwrap_or(0);
    let (da, db) = (za.len() as u64 - 1, zb.len() as u64 - 1);
    (da * db).pow(2) * (db * bits(&za) + da * bits(&zb))
}
const WORK: u64 = 150_000;
fn pair(s: &mut Src, f: &Field) -> (Elem, Elem) {
    let a = gen_elem(s, f);
    let b = if s.chance(2, 5) { related(s, f, &a) } else { gen_elem(s, f) };
    limit(s, f, a, b)
}
/// keeps a case affordable: replaces an operand that would make it too expensive
fn limit(s: &mut Src, f: &Field, a: Elem, b: Elem) -> (Elem, Elem) {
    if work(f, &a, &b) <= WORK {
        return (a, b);
    }
    let b = f.rat(s.small_ratio(9, 6));
    if work(f, &a, &b) <= WORK {
        return (a, b);
    }
    (f.x(), b)
}
fn dims(s: &mut Src) -> usize {
    *s.pick(&[2usize, 3, 4, 4, 6, 6])
}

// ---------------------------------------------------------------- C01 / C03 single operations
fn single_op(s: &mut Src, rec: &mut Rec, chk: Chk) -> Res {
    let d = dims(s);
    let f = gen_field(s, d);
    let (a, b) = pair(s, &f);
    let (na, nb) = (make(s, &f, &a), make(s, &f, &b));
    let op = s.usize(0, 5);
    rec.desc = format!("{} a={} b={} field {} as {} , {}", OPS[op], q::showq(&a), q::showq(&b), f.name, show_num(&na), show_num(&nb));
    classify(rec, &f, &a, &b);
    rec.label(OPS[op]);
    wide(rec, &na);
    let (w, g) = apply(s, &f, op, &(a.clone(), na.clone()), &(b.clone(), nb.clone()));
    if let Some(w) = &w {
        if f.minpoly(w).len() < f.minpoly(&a).len().max(f.minpoly(&b).len()) {
            rec.label("degree drops");
        }
    } else {
        rec.label("undefined");
    }
    check_opt(&f, &w, &g, OPS[op], chk)?;
    // operands are not changed by by-reference forms
    ensure!(coefs(na.minimal_polynomial()) == f.minpoly(&a), "operand changed");
    Ok(())
}
fn c01_single(s: &mut Src, rec: &mut Rec) -> Res {
    single_op(s, rec, check_value)
}
/// every form of one operator on one pair
fn c01_forms(s: &mut Src, rec: &mut Rec) -> Res {
    let f = gen_field(s, 4);
    let (a, b) = pair(s, &f);
    let (na, nb) = (make(s, &f, &a), make(s, &f, &b));
    let op = s.usize(0, 3);
    rec.desc = format!("forms {} {} {} in {}", OPS[op], show_num(&na), show_num(&nb), f.name);
    classify(rec, &f, &a, &b);
    for form in 0..6 {
        match op {
            0 => check_value(&f, &f.add(&a, &b), &add_form(form, &na, &nb), "add")?,
            1 => check_value(&f, &f.sub(&a, &b), &sub_form(form, &na, &nb), "sub")?,
            2 => check_value(&f, &f.mul(&a, &b), &mul_form(form, &na, &nb), "mul")?,
            _ => {
                if f.is_zero(&b) {
                    rec.label("divide by zero");
                    ensure!(checked_div_form(form, &na, &nb).is_none(), "division by zero returned a number (form {form})");
                    let mut t = na.clone();
                    ensure!(t.checked_exact_div_assign(&nb).is_err(), "assigning division by zero succeeded");
                    ensure!(nb.checked_recip().is_none(), "recip of zero");
                } else {
                    let w = f.mul(&a, &f.inv(&b));
                    check_opt(&f, &Some(w.clone()), &div_form(form, &na, &nb), "div", check_value)?;
                    check_opt(&f, &Some(w), &checked_div_form(form, &na, &nb), "checked div", check_value)?;
                }
            }
        }
    }
    Ok(())
}
/// straight-line programs; every intermediate result is checked and reused
fn chain(s: &mut Src, rec: &mut Rec, chk: Chk) -> Res {
    let d = *s.pick(&[2usize, 3, 4, 4, 4, 6]);
    let f = gen_field(s, d);
    let mut pool: Vec<(Elem, Num)> = vec![];
    for _ in 0..s.usize(2, 3) {
        let e = gen_elem(s, &f);
        let n = make(s, &f, &e);
        pool.push((e, n));
    }
    let steps = if f.dim() > 4 { s.usize(2, 4) } else { s.usize(2, 8) };
    rec.desc = format!("chain in {}: start {}", f.name, pool.iter().map(|p| show_num(&p.1)).collect::<Vec<_>>().join(" "));
    let mut irr = 0;
    for _ in 0..steps {
        let i = s.usize(0, pool.len() - 1);
        let j = s.usize(0, pool.len() - 1);
        let op = s.weighted(&[4, 4, 4, 3, 1, 2]);
        if work(&f, &pool[i].0, &pool[j].0) > WORK {
            rec.label("operand skipped (size)");
            continue;
        }
        rec.desc += &format!("; {}({i},{j})", OPS[op]);
        let (a, b) = (pool[i].clone(), pool[j].clone());
        let (w, g) = apply(s, &f, op, &a, &b);
        check_opt(&f, &w, &g, OPS[op], chk)?;
        if let (Some(w), Some(g)) = (w, g) {
            if f.to_q(&w).is_none() {
                irr += 1;
            }
            pool.push((w, g));
        }
    }
    if irr >= 2 {
        rec.nt();
    }
    rec.label(if irr >= 4 { ">=4 irrational steps" } else { "short" });
    Ok(())
}
fn c01_chain(s: &mut Src, rec: &mut Rec) -> Res {
    chain(s, rec, check_value)
}

// ------------------------------------------------ independent numbers (no common field given)
struct Ind {
    z: Z,
    root: Root,
    all: Vec<Root>,
    num: Num,
}
fn ind(s: &mut Src, z: Z) -> Ind {
    let all = isolate(&z);
    let i = s.usize(0, z.len() - 2) % all.len();
    ind_at(s, z, all, i)
}
fn ind_at(s: &mut Src, z: Z, all: Vec<Root>, i: usize) -> Ind {
    let f = Field::from_root(&z, i);
    let e = f.x();
    let num = make(s, &f, &e);
    Ind { z, root: all[i].clone(), all, num }
}
/// values of the annihilating polynomial R of (a op b), found by interpolation
fn annihilator(op: usize, f: &Z, g: &Z) -> Z {
    let (n, m) = (f.len() - 1, g.len() - 1);
    let deg = n * m;
    let fq = q::z2q(f);
    let mut xs = vec![];
    let mut ys = vec![];
    let mut t = 1i64;
    while xs.len() <= deg {
        let x = q::q(t);
        t = if t > 0 { -t } else { 1 - t };
        // polynomial in y whose roots beta satisfy: x = alpha op beta for root alpha of f
        // add: f(x - y); sub: f(x + y); mul: y^n f(x / y); div: f(x y)
        let h: Vec<Q> = match op {
            0 | 1 => {
                // f(x -+ y)
                let lin = vec![x.clone(), q::q(if op == 0 { -1 } else { 1 })];
                let mut r: Vec<Q> = vec![];
                for c in fq.iter().rev() {
                    r = q::add(&q::mul(&r, &lin), &q::trimmed(vec![c.clone()]));
                }
                r
            }
            2 => {
                let mut xp = q::q(1);
                let mut r = vec![Q::zero(); n + 1];
                for (i, c) in fq.iter().enumerate() {
                    r[n - i] = c * &xp;
                    xp *= &x;
                }
                q::trimmed(r)
            }
            _ => {
                let mut xp = q::q(1);
                let mut r = vec![Q::zero(); n + 1];
                for (i, c) in fq.iter().enumerate() {
                    r[i] = c * &xp;
                    xp *= &x;
                }
                q::trimmed(r)
            }
        };
        ys.push(q::resultant(&q::z2q(g), &h));
        xs.push(x);
    }
    // Newton interpolation
    let mut c = ys.clone();
    for k in 1..c.len() {
        for i in (k..c.len()).rev() {
            c[i] = (&c[i] - &c[i - 1]) / (&xs[i] - &xs[i - k]);
        }
    }
    let mut r: Vec<Q> = vec![];
    for i in (0..c.len()).rev() {
        r = q::add(&q::mul(&r, &vec![-xs[i].clone(), q::q(1)]), &q::trimmed(vec![c[i].clone()]));
    }
    q::primitive(&r)
}
fn combine(op: usize, a: &Root, b: &Root) -> (Q, Q) {
    let v: Vec<Q> = match op {
        0 => return (&a.lo + &b.lo, &a.hi + &b.hi),
        1 => return (&a.lo - &b.hi, &a.hi - &b.lo),
        2 => vec![&a.lo * &b.lo, &a.lo * &b.hi, &a.hi * &b.lo, &a.hi * &b.hi],
        _ => vec![&a.lo / &b.lo, &a.lo / &b.hi, &a.hi / &b.lo, &a.hi / &b.hi],
    };
    (v.iter().min().unwrap().clone(), v.iter().max().unwrap().clone())
}
fn independent(s: &mut Src, rec: &mut Rec, canon: bool) -> Res {
    let (da, db) = *s.pick(&[(2usize, 2usize), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (1, 4), (5, 1), (2, 5)]);
    let za = gen_irreducible(s, da);
    let a = ind(s, za.clone());
    // conjugates of one number, or an unrelated one
    let b = if da == db && s.bool() {
        let k = a.all.len();
        let i = s.usize(0, k - 1);
        rec.label("same minimal polynomial");
        ind_at(s, za, a.all.clone(), i)
    } else {
        let zb = gen_irreducible(s, db);
        ind(s, zb)
    };
    let op = s.usize(0, 3);
    rec.label(OPS[op]);
    if da > 1 && db > 1 {
        rec.nt();
    }
    rec.desc = format!("{} {} {}", OPS[op], show_num(&a.num), show_num(&b.num));
    let form = s.below(6);
    if b.z.len() == 2 && b.z[0].is_zero() && op == 3 {
        ensure!(checked_div_form(form, &a.num, &b.num).is_none(), "division by zero");
        return Ok(());
    }
    let got = match op {
        0 => add_form(form, &a.num, &b.num),
        1 => sub_form(form, &a.num, &b.num),
        2 => mul_form(form, &a.num, &b.num),
        _ => div_form(form, &a.num, &b.num).unwrap(),
    };
    if op >= 2 && a.z.len() == 2 && a.z[0].is_zero() || op == 2 && b.z.len() == 2 && b.z[0].is_zero() {
        ensure!(got.is_zero(), "zero times/over a number is {}", show_num(&got));
        return Ok(());
    }
    let r = annihilator(op, &a.z, &b.z);
    let rs = q::primitive(&q::divrem(&q::z2q(&r), &q::gcd(&q::z2q(&r), &q::deriv(&q::z2q(&r)))).0);
    let p = coefs(got.minimal_polynomial());
    let what = OPS[op];
    ensure!(p.len() >= 2, "{what}: constant polynomial");
    ensure!(q::divrem(&q::z2q(&rs), &q::z2q(&q::zprimitive(&p))).1.is_empty(), "{what}: {} does not divide the resultant {}", show_num(&got), q::show(&rs));
    // pin the true value down to one root of rs
    let chain = q::sturm(&rs);
    let (mut ra, mut rb) = (a.root.clone(), b.root.clone());
    if op == 3 {
        while !rb.exact() && !(rb.lo.is_positive() || rb.hi.is_negative()) {
            rb.step();
        }
    }
    let (lo, hi) = loop {
        let (lo, hi) = combine(op, &ra, &rb);
        if q::count_closed(&chain, &lo, &hi) == 1 {
            break (lo, hi);
        }
        ra.step();
        rb.step();
    };
    let (glo, ghi) = got.interval().to_ratio_range();
    let (ilo, ihi) = (lo.max(glo.clone()), hi.min(ghi.clone()));
    ensure!(ilo <= ihi && q::count_closed(&chain, &ilo, &ihi) == 1, "{what}: true value not in the interval of {}", show_num(&got));
    let pc = q::sturm(&q::zprimitive(&p));
    ensure!(q::count_closed(&pc, &ilo, &ihi) == 1, "{what}: true value is not a root of {}", show_num(&got));
    ensure!(q::count_closed(&pc, &glo, &ghi) == 1, "{what}: interval of {} is not isolating", show_num(&got));
    if canon {
        ensure!(p == q::zprimitive(&p), "{what}: {} not primitive with positive lead", show_num(&got));
        ensure!(modp::is_irreducible_q(&p), "{what}: {} is reducible", show_num(&got));
    }
    Ok(())
}
fn c01_ind(s: &mut Src, rec: &mut Rec) -> Res {
    independent(s, rec, false)
}

// ---------------------------------------------------------------- C02
fn close_partner(s: &mut Src, rec: &mut Rec, f: &Field, a: &Elem) -> Elem {
    match s.below(4) {
        0 => { rec.label("equal values"); a.clone() }
        1 => {
            rec.label("very close");
            let k = s.usize(1, 60);
            let mut e = a.clone();
            let d = Q::new(bi(if s.bool() { 1 } else { -1 }), BigInt::one() << k);
            e[0] += d;
            e
        }
        2 => {
            // a rational approximation of a
            rec.label("rational approximation");
            let k = s.usize(0, 40);
            let x = f.enclose(a, k);
            f.rat(if s.bool() { x.lo_q() } else { x.hi_q() })
        }
        _ => gen_elem(s, f),
    }
}
fn c02_cmp(s: &mut Src, rec: &mut Rec) -> Res {
    let d = dims(s);
    let f = gen_field(s, d);
    let a = gen_elem(s, &f);
    let b = close_partner(s, rec, &f, &a);
    let (a, b) = limit(s, &f, a, b);
    let (na, nb) = (make(s, &f, &a), make(s, &f, &b));
    rec.desc = format!("cmp {} {} in {}", show_num(&na), show_num(&nb), f.name);
    classify(rec, &f, &a, &b);
    let w = f.cmp(&a, &b);
    ensure!(na.cmp(&nb) == w, "cmp gives {:?}, should be {:?}", na.cmp(&nb), w);
    match s.below(4) {
        0 => {
            ensure!(na.partial_cmp(&nb) == Some(w), "partial_cmp");
            ensure!((na == nb) == (w == Ordering::Equal), "==");
            ensure!((na != nb) == (w != Ordering::Equal), "!=");
        }
        1 => {
            ensure!((na < nb) == (w == Ordering::Less), "<");
            ensure!((na <= nb) == (w != Ordering::Greater), "<=");
        }
        2 => {
            ensure!((na > nb) == (w == Ordering::Greater), ">");
            ensure!((na >= nb) == (w != Ordering::Less), ">=");
            ensure!(nb.cmp(&na) == w.reverse(), "cmp not antisymmetric");
        }
        _ => {
            let (mx, mn) = (na.clone().max(nb.clone()), na.clone().min(nb.clone()));
            let (emx, emn) = if w == Ordering::Less { (&b, &a) } else { (&a, &b) };
            check_value(&f, emx, &mx, "max")?;
            check_value(&f, emn, &mn, "min")?;
            ensure!((na == nb) == (w == Ordering::Equal), "==");
        }
    }
    Ok(())
}
fn c02_sign(s: &mut Src, rec: &mut Rec) -> Res {
    let d = dims(s);
    let f = gen_field(s, d);
    let mut a = gen_elem(s, &f);
    match s.below(5) {
        0 => a = f.rat(q::q(*s.pick(&[0, 1, -1, 2]))),
        1 => {
            // shift close to zero
            let k = s.usize(0, 40);
            let x = f.enclose(&a, k);
            a[0] -= if s.bool() { x.lo_q() } else { x.hi_q() };
        }
        _ => {}
    }
    let n = make(s, &f, &a);
    rec.desc = format!("sign {} in {}", show_num(&n), f.name);
    wide(rec, &n);
    if f.to_q(&a).is_none() || n.interval().contains_zero() {
        rec.nt();
    }
    let w = f.sign(&a);
    ensure!(n.cmp_with_zero() == w.cmp(&0), "cmp_with_zero {:?}, sign {w}", n.cmp_with_zero());
    ensure!(n.is_zero() == (w == 0), "is_zero");
    ensure!(n.is_positive() == (w > 0), "is_positive");
    ensure!(n.is_negative() == (w < 0), "is_negative");
    let v = f.to_q(&a);
    ensure!(n.is_one() == (v == Some(q::q(1))), "is_one");
    ensure!(n.is_negative_one() == (v == Some(q::q(-1))), "is_negative_one");
    check_value(&f, &f.rat(q::q(w as i64)), &n.signum(), "signum")?;
    check_value(&f, &if w < 0 { f.neg(&a) } else { a.clone() }, &n.abs(), "abs")?;
    if s.bool() {
        let b = gen_elem(s, &f);
        if work(&f, &a, &b) > WORK {
            return Ok(());
        }
        let nb = make(s, &f, &b);
        let d = f.sub(&a, &b);
        let w = if f.sign(&d) > 0 { d } else { f.zero() };
        check_value(&f, &w, &n.abs_sub(&nb), "abs_sub")?;
    }
    let mut t = n.clone();
    match s.below(3) {
        0 => { t.set_zero(); check_value(&f, &f.zero(), &t, "set_zero")? }
        1 => { t.set_one(); check_value(&f, &f.rat(q::q(1)), &t, "set_one")? }
        _ => { t.set_negative_one(); check_value(&f, &f.rat(q::q(-1)), &t, "set_negative_one")? }
    }
    Ok(())
}
/// conjugates and unrelated numbers; sort
fn c02_sort(s: &mut Src, rec: &mut Rec) -> Res {
    let mut v: Vec<(Root, Num)> = vec![];
    for _ in 0..s.usize(1, 2) {
        let d = s.usize(1, 4);
        let mut z = gen_irreducible(s, d);
        if d > 1 && isolate(&z).len() < 2 {
            z = gen_irreducible(s, d);
        }
        let all = isolate(&z);
        for i in 0..all.len().min(3) {
            let x = ind_at(s, z.clone(), all.clone(), i);
            v.push((x.root, x.num));
        }
    }
    let k = v.len();
    rec.desc = format!("sort {}", v.iter().map(|x| show_num(&x.1)).collect::<Vec<_>>().join(" "));
    if k >= 3 {
        rec.nt();
    }
    for _ in 0..4 {
        let (i, j) = (s.usize(0, k - 1), s.usize(0, k - 1));
        let (mut a, mut b) = (v[i].0.clone(), v[j].0.clone());
        let w = if a.poly == b.poly {
            // same polynomial: same root iff same isolating index
            let same = a.lo == b.lo && a.hi == b.hi;
            if same { Ordering::Equal } else { a.lo.cmp(&b.lo).then(a.hi.cmp(&b.hi)) }
        } else {
            loop {
                if a.hi < b.lo { break Ordering::Less; }
                if b.hi < a.lo { break Ordering::Greater; }
                a.step();
                b.step();
            }
        };
        let (x, y) = (&v[i].1, &v[j].1);
        if i != j && x.minimal_polynomial() == y.minimal_polynomial() {
            rec.label("conjugates");
            if x.interval().upper_bound() >= y.interval().lower_bound() && y.interval().upper_bound() >= x.interval().lower_bound() {
                rec.label("conjugates with overlapping intervals");
            }
        }
        // every operator: each could have its own short cut
        ensure!(x.cmp(y) == w, "cmp({i},{j}) = {:?}, should be {w:?}", x.cmp(y));
        ensure!((x == y) == (w == Ordering::Equal), "==({i},{j}), order is {w:?}");
        ensure!((x != y) == (w != Ordering::Equal), "!=({i},{j}), order is {w:?}");
        match s.below(4) {
            0 => ensure!(x.partial_cmp(y) == Some(w), "partial_cmp({i},{j}), order is {w:?}"),
            1 => ensure!((x < y) == (w == Ordering::Less), "<({i},{j}), order is {w:?}"),
            2 => ensure!((x >= y) == (w != Ordering::Less), ">=({i},{j}), order is {w:?}"),
            _ => {
                let m = if s.bool() { (x.clone().max(y.clone()), w == Ordering::Greater) } else { (x.clone().min(y.clone()), w == Ordering::Less) };
                // which of the two was returned is visible in its interval
                let e = if m.1 { x } else { y };
                if w != Ordering::Equal {
                    ensure!(m.0.minimal_polynomial() == e.minimal_polynomial() && m.0.interval().is_same(e.interval()), "min/max({i},{j}), order is {w:?}");
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03
fn c03_single(s: &mut Src, rec: &mut Rec) -> Res {
    single_op(s, rec, check_canon)
}
fn c03_chain(s: &mut Src, rec: &mut Rec) -> Res {
    chain(s, rec, check_canon)
}
fn c03_ind(s: &mut Src, rec: &mut Rec) -> Res {
    independent(s, rec, true)
}
/// the remaining producers of numbers
fn c03_other(s: &mut Src, rec: &mut Rec) -> Res {
    let d = *s.pick(&[2usize, 3, 4]);
    let f = gen_field(s, d);
    let a = if s.chance(1, 4) { f.rat(s.small_ratio(20, 12)) } else { gen_elem(s, &f) };
    let n = make(s, &f, &a);
    rec.desc = format!("producers {} in {}", show_num(&n), f.name);
    if f.to_q(&a).is_none() {
        rec.nt();
    }
    let fl = f.rat(Q::from_integer(f.floor(&a)));
    match s.below(10) {
        0 => check_canon(&f, &f.sub(&a, &fl), &n.fract(), "fract"),
        1 => check_canon(&f, &fl, &n.floor(), "floor"),
        2 => check_canon(&f, &f.neg(&a), &-&n, "neg"),
        3 => {
            if f.is_zero(&a) { return Ok(()); }
            let w = f.inv(&a);
            check_canon(&f, &w, &n.recip(), "recip")?;
            check_canon(&f, &a, &n.recip().recip(), "recip recip")
        }
        4 => {
            let k = s.int(-3, 4);
            rec.desc += &format!(" pow {k}");
            if f.is_zero(&a) && k <= 0 { return Ok(()); }
            let w = f.pow(&a, k.unsigned_abs() as usize);
            let w = if k < 0 { f.inv(&w) } else { w };
            check_canon(&f, &w, &(&n).pow(k), "pow")
        }
        6 => {
            // exact roots
            let w = if f.sign(&a) < 0 { f.neg(&a) } else { a };
            let k = s.usize(2, 3);
            let b = f.pow(&w, k);
            if f.is_zero(&w) || too_big(&f, &b, 40) { return Ok(()); }
            let nb = make(s, &f, &b);
            let neg = s.bool();
            let w = if neg { f.inv(&w) } else { w };
            rec.desc += &format!(" root {k} of {}", show_num(&nb));
            check_canon(&f, &w, &nb.pow((if neg { -1 } else { 1 }, k as i64)), "root")
        }
        7 => check_canon(&f, &if f.sign(&a) < 0 { f.neg(&a) } else { a.clone() }, &n.abs(), "abs"),
        8 => {
            let w = f.rat(q::q(f.sign(&a) as i64));
            check_canon(&f, &w, &n.signum(), "signum")?;
            let w = f.rat(Q::from_integer(-f.floor(&f.neg(&a))));
            check_canon(&f, &w, &n.ceil(), "ceil")?;
            check_canon(&f, &f.rat(Q::from_integer(model_trunc(&f, &a))), &n.trunc(), "trunc")
        }
        5 => {
            let c = s.small_ratio(20, 9);
            let nc = Num::from(c.clone());
            check_canon(&f, &f.rat(c.clone()), &nc, "from ratio")?;
            check_canon(&f, &f.add(&a, &f.rat(c)), &(n + nc), "add ratio")
        }
        _ => {
            let b = gen_elem(s, &f);
            if f.is_zero(&b) { return Ok(()); }
            let nb = make(s, &f, &b);
            let w = model_rem(&f, &a, &b);
            check_canon(&f, &w, &(n % nb), "rem")
        }
    }
}

// ---------------------------------------------------------------- C04
fn model_trunc(f: &Field, a: &Elem) -> BigInt {
    if f.sign(a) < 0 { -f.floor(&f.neg(a)) } else { f.floor(a) }
}
fn model_rem(f: &Field, a: &Elem, b: &Elem) -> Elem {
    let t = model_trunc(f, &f.mul(a, &f.inv(b)));
    f.sub(a, &f.mul(b, &f.rat(Q::from_integer(t))))
}
/// elements including ones close to an integer
fn roundish(s: &mut Src, rec: &mut Rec, f: &Field) -> Elem {
    let mut a = gen_elem(s, f);
    match s.below(4) {
        0 => {
            rec.label("near an integer");
            let k = s.usize(1, 50);
            let x = f.enclose(&a, k);
            a[0] -= if s.bool() { x.lo_q() } else { x.hi_q() };
            a[0] += q::q(s.int(-20, 20));
        }
        1 => {
            let c = s.ratio(70);
            a[0] += c;
        }
        _ => {}
    }
    a
}
fn c04_round(s: &mut Src, rec: &mut Rec) -> Res {
    let d = dims(s);
    let f = gen_field(s, d);
    let a = roundish(s, rec, &f);
    let n = make(s, &f, &a);
    rec.desc = format!("round {} in {}", show_num(&n), f.name);
    if f.to_q(&a).map_or(true, |v| !v.is_integer()) {
        rec.nt();
    }
    if f.sign(&a) < 0 {
        rec.label("negative");
    }
    let fl = f.floor(&a);
    let ce = -f.floor(&f.neg(&a));
    let tr = model_trunc(&f, &a);
    let r = |v: &BigInt| f.rat(Q::from_integer(v.clone()));
    match s.below(4) {
        0 => {
            ensure!(n.to_integer_floor() == fl, "to_integer_floor {} should be {fl}", n.to_integer_floor());
            ensure!(n.clone().into_integer_floor() == fl, "into_integer_floor");
            check_value(&f, &r(&fl), &n.floor(), "floor")?;
            check_value(&f, &r(&fl), &n.into_floor(), "into_floor")
        }
        1 => {
            ensure!(n.to_integer_ceil() == ce, "to_integer_ceil {} should be {ce}", n.to_integer_ceil());
            ensure!(n.clone().into_integer_ceil() == ce, "into_integer_ceil");
            check_value(&f, &r(&ce), &n.ceil(), "ceil")?;
            check_value(&f, &r(&ce), &n.into_ceil(), "into_ceil")
        }
        2 => {
            ensure!(n.to_integer_trunc() == tr, "to_integer_trunc {} should be {tr}", n.to_integer_trunc());
            ensure!(n.clone().into_integer_trunc() == tr, "into_integer_trunc");
            check_value(&f, &r(&tr), &n.trunc(), "trunc")?;
            check_value(&f, &r(&tr), &n.into_trunc(), "into_trunc")
        }
        _ => {
            let w = f.sub(&a, &r(&fl));
            check_value(&f, &w, &n.fract(), "fract")?;
            check_value(&f, &w, &n.into_fract(), "into_fract")
        }
    }
}
fn c04_rem(s: &mut Src, rec: &mut Rec) -> Res {
    let d = *s.pick(&[2usize, 3, 4, 4]);
    let f = gen_field(s, d);
    let b = gen_elem(s, &f);
    if f.is_zero(&b) {
        return Ok(());
    }
    let a = if s.chance(1, 3) {
        // exact or nearly exact multiples
        rec.label("multiple");
        let mut t = f.mul(&b, &f.rat(q::q(s.int(-6, 6))));
        if s.bool() {
            t[0] += Q::new(bi(s.int(-1, 1)), BigInt::one() << s.usize(0, 20));
        }
        t
    } else {
        gen_elem(s, &f)
    };
    let (na, nb) = (make(s, &f, &a), make(s, &f, &b));
    rec.desc = format!("rem {} {} in {}", show_num(&na), show_num(&nb), f.name);
    classify(rec, &f, &a, &b);
    rec.label(match (f.sign(&a), f.sign(&b)) {
        (-1, -1) => "--",
        (-1, _) => "-+",
        (_, -1) => "+-",
        _ => "++",
    });
    let w = model_rem(&f, &a, &b);
    let form = s.below(6);
    check_value(&f, &w, &rem_form(form, &na, &nb), "rem")
}

// ---------------------------------------------------------------- C05
fn pow_form(s: &mut Src, n: &Num, p: i64, qd: i64) -> Option<Num> {
    let ex = Q::new(bi(p), bi(qd));
    match s.below(5) {
        0 => n.checked_pow(ex),
        1 => n.clone().checked_into_pow(ex),
        2 => n.checked_pow((p, qd)),
        3 if qd == 1 => n.checked_pow(p),
        3 => n.clone().checked_into_pow(&(p, qd)),
        _ => n.clone().checked_into_pow(Ratio::new(p, qd)),
    }
}
fn c05_int(s: &mut Src, rec: &mut Rec) -> Res {
    let d = *s.pick(&[2usize, 3, 4]);
    let f = gen_field(s, d);
    let a = gen_elem(s, &f);
    let n = make(s, &f, &a);
    let lim = if f.dim() <= 2 { 9 } else if f.dim() == 3 { 5 } else { 4 };
    let e = s.int(-lim, lim);
    rec.desc = format!("pow {} ^ {e} in {}", show_num(&n), f.name);
    let z = f.is_zero(&a);
    if !z && e.abs() > 1 && f.to_q(&a).is_none() {
        rec.nt();
    }
    if f.sign(&a) < 0 { rec.label("negative base"); }
    if e < 0 { rec.label("negative exponent"); }
    let want = if z && e <= 0 { None } else {
        let p = f.pow(&a, e.unsigned_abs() as usize);
        Some(if e < 0 { f.inv(&p) } else { p })
    };
    let got = pow_form(s, &n, e, 1);
    check_opt(&f, &want, &got, "pow", check_value)?;
    if let Some(w) = want {
        if s.chance(1, 4) {
            check_value(&f, &w, &if s.bool() { (&n).pow(e) } else { n.pow(e) }, "Pow::pow")?;
        }
    }
    Ok(())
}
/// base = w^q exactly, so base^(p/q) = w^p
fn c05_exact(s: &mut Src, rec: &mut Rec) -> Res {
    let d = *s.pick(&[2usize, 2, 3]);
    let f = gen_field(s, d);
    let mut w = gen_elem(s, &f);
    if f.is_zero(&w) {
        w = f.rat(q::q(1));
    }
    if f.sign(&w) < 0 {
        w = f.neg(&w);
    }
    let qd = s.int(2, if f.dim() == 3 { 2 } else { 4 });
    let mut p = s.int(-3, 3);
    if p.gcd(&qd) != 1 {
        p = 1;
    }
    let base = f.pow(&w, qd as usize);
    if too_big(&f, &base, 40) {
        return Ok(());
    }
    let neg = s.chance(1, 5);
    let base = if neg { f.neg(&base) } else { base };
    let n = make(s, &f, &base);
    rec.desc = format!("exact root {} ^ ({p}/{qd}) in {}", show_num(&n), f.name);
    rec.nt();
    let want = if neg { rec.label("negative base, fractional exponent"); None } else {
        let t = f.pow(&w, p.unsigned_abs() as usize);
        Some(if p < 0 { f.inv(&t) } else { t })
    };
    // the same exponent written unreduced
    let k = s.int(1, 3);
    let got = if s.bool() { n.checked_pow((p * k, qd * k)) } else { pow_form(s, &n, p, qd) };
    check_opt(&f, &want, &got, "pow", check_value)
}
/// general roots: validity of the result
fn c05_general(s: &mut Src, rec: &mut Rec) -> Res {
    let d = *s.pick(&[1usize, 2, 2, 3]);
    let f = if d == 1 { Field::from_root(&vec![bi(0), bi(1)], 0) } else { gen_field(s, d) };
    let mut a = gen_elem(s, &f);
    if f.is_zero(&a) {
        a = f.rat(q::q(2));
    }
    if f.sign(&a) < 0 {
        a = f.neg(&a);
    }
    let maxq = match f.minpoly(&a).len() { 2 => 6, 3 => 4, _ => 3 };
    let qd = s.int(2, maxq);
    let lim = if f.minpoly(&a).len() <= 3 { 4 } else { 2 };
    let mut p = s.int(-lim, lim);
    if p.gcd(&qd) != 1 {
        p = 1;
    }
    let n = make(s, &f, &a);
    rec.desc = format!("root {} ^ ({p}/{qd}) in {}", show_num(&n), f.name);
    rec.nt();
    let got = match pow_form(s, &n, p, qd) { Some(g) => g, None => return Err("defined power reported absent".into()) };
    let e = f.pow(&a, p.unsigned_abs() as usize);
    let e = if p < 0 { f.inv(&e) } else { e };
    check_root_of(&f, &e, qd as usize, &got)
}
/// got is the positive q-th root of e > 0
fn check_root_of(f: &Field, e: &Elem, qd: usize, got: &Num) -> Res {
    let m = f.minpoly(e);
    let mut big = vec![BigInt::zero(); (m.len() - 1) * qd + 1];
    for (i, c) in m.iter().enumerate() {
        big[i * qd] = c.clone();
    }
    let p = coefs(got.minimal_polynomial());
    ensure!(p.len() >= 2, "constant minimal polynomial");
    ensure!(q::divrem(&q::z2q(&big), &q::z2q(&p)).1.is_empty(), "{} does not divide {}", show_num(got), q::show(&big));
    let (lo, hi) = got.interval().to_ratio_range();
    ensure!(lo <= hi && !hi.is_negative(), "bad interval {}", show_num(got));
    let pw = |v: &Q| { let mut r = q::q(1); for _ in 0..qd { r *= v; } r };
    ensure!(lo.is_negative() || f.cmp_q(e, &pw(&lo)) != Ordering::Less, "root below the interval of {}", show_num(got));
    ensure!(f.cmp_q(e, &pw(&hi)) != Ordering::Greater, "root above the interval of {}", show_num(got));
    // exactly one root of p there, and it is the q-th root of e: e's other conjugates
    // contribute different roots of big, so isolate with respect to big restricted to x>0
    let c = q::count_closed(&q::sturm(&q::zprimitive(&p)), &lo, &hi);
    ensure!(c == 1, "interval of {} holds {c} roots", show_num(got));
    // the true root is a root of p: shrink the true root's bracket until big has one root
    let bs = { let b = q::z2q(&big); q::primitive(&q::divrem(&b, &q::gcd(&b, &q::deriv(&b))).0) };
    let chain = q::sturm(&bs);
    let pc = q::sturm(&q::zprimitive(&p));
    let mut k = 8;
    loop {
        let x = f.enclose(e, 2 * k * qd.max(1));
        // bracket of e^(1/q) on the grid 2^-k
        let l = root_floor(&x.lo_q(), qd, k);
        let h = root_floor(&x.hi_q(), qd, k) + 1;
        let (l, h) = (q::dyadic(&l, k), q::dyadic(&h, k));
        if q::count_closed(&chain, &l, &h) == 1 {
            ensure!(q::count_closed(&pc, &l, &h) == 1, "the root is not a root of {}", show_num(got));
            break;
        }
        k *= 2;
        if k > 4096 {
            return Err("reference separation failed".into());
        }
    }
    Ok(())
}
/// floor(v^(1/q) * 2^k), 0 for v <= 0
fn root_floor(v: &Q, qd: usize, k: usize) -> BigInt {
    if !v.is_positive() {
        return BigInt::zero();
    }
    q::floor_scaled(v, k * qd).nth_root(qd as u32)
}
fn c05_special(s: &mut Src, rec: &mut Rec) -> Res {
    // rational bases with perfect powers, units, zero
    let b = match s.below(4) {
        0 => q::q(s.int(-1, 1)),
        1 => { let v = s.small_ratio(12, 12); let k = s.int(1, 4); let mut r = q::q(1); for _ in 0..k { r *= &v; } r }
        2 => { let k = s.usize(0, 30); let v = Q::from_integer(BigInt::one() << k); if s.bool() { v.recip() } else { v } }
        _ => s.small_ratio(60, 30),
    };
    let b = if s.chance(1, 3) { -b } else { b };
    let (mut p, qd) = (s.int(-5, 5), if s.chance(1, 3) { 1 } else { s.int(2, 6) });
    if qd == 1 && s.chance(1, 3) && b.numer().bits().max(b.denom().bits()) <= 8 {
        rec.label("large integer exponent");
        rec.nt();
        p = s.int(-1100, 1100);
    }
    let f = Field::from_root(&vec![bi(0), bi(1)], 0);
    let n = make(s, &f, &f.rat(b.clone()));
    rec.desc = format!("rational pow {} ^ ({p}/{qd})", b);
    let ex = Q::new(bi(p), bi(qd));
    let got = pow_form(s, &n, p, qd);
    let undefined = if b.is_zero() { !ex.is_positive() } else { b.is_negative() && !ex.is_integer() };
    rec.label(if undefined { "undefined" } else { "defined" });
    if undefined || !ex.is_integer() {
        rec.nt();
    }
    if undefined {
        ensure!(got.is_none(), "undefined power returned {}", show_num(&got.unwrap()));
        return Ok(());
    }
    let Some(got) = got else { return Err("defined power reported absent".into()) };
    if ex.is_zero() {
        return check_value(&f, &f.rat(q::q(1)), &got, "pow 0");
    }
    let mut t = q::q(1);
    for _ in 0..ex.numer().abs().try_into().unwrap_or(0u32) {
        t *= &b;
    }
    if ex.is_negative() {
        t = t.recip();
    }
    if ex.is_integer() {
        return check_value(&f, &f.rat(t), &got, "integer pow");
    }
    if t.is_zero() {
        return check_value(&f, &f.zero(), &got, "zero pow");
    }
    check_root_of(&f, &f.rat(t), ex.denom().try_into().unwrap_or(1usize), &got)
}

// ---------------------------------------------------------------- C06
fn c06_log2(s: &mut Src, rec: &mut Rec) -> Res {
    let d = dims(s);
    let f = gen_field(s, d);
    let mut a = match s.below(4) {
        0 => {
            rec.label("exact power of two");
            let k = s.usize(0, 150);
            let v = Q::from_integer(BigInt::one() << k);
            f.rat(if s.bool() { v.recip() } else { v })
        }
        1 => {
            rec.label("next to a power of two");
            let k = s.usize(0, 60);
            let mut v = f.rat(Q::from_integer(BigInt::one() << k));
            let g = gen_elem(s, &f);
            let j = s.usize(1, 60);
            for (x, y) in v.iter_mut().zip(g) {
                *x += y / Q::from_integer(BigInt::one() << j);
            }
            let m = s.usize(0, 80);
            v.into_iter().map(|x| x / Q::from_integer(BigInt::one() << m)).collect()
        }
        2 => f.rat(s.ratio(100)),
        _ => gen_elem(s, &f),
    };
    if f.sign(&a) < 0 && s.chance(3, 4) {
        a = f.neg(&a);
    }
    let n = make(s, &f, &a);
    rec.desc = format!("log2 {} in {}", show_num(&n), f.name);
    wide(rec, &n);
    let w = if f.sign(&a) > 0 {
        let fl = f.floor_log2(&a);
        let p2 = if fl >= 0 { Q::from_integer(BigInt::one() << fl as usize) } else { Q::new(BigInt::one(), BigInt::one() << (-fl) as usize) };
        let exact = f.cmp_q(&a, &p2) == Ordering::Equal;
        rec.nt();
        Some((fl, if exact { fl } else { fl + 1 }, exact))
    } else {
        rec.label("not positive");
        None
    };
    ensure!(n.checked_floor_log2() == w.map(|x| x.0), "floor_log2 {:?} should be {:?}", n.checked_floor_log2(), w);
    ensure!(n.checked_ceil_log2() == w.map(|x| x.1), "ceil_log2 {:?} should be {:?}", n.checked_ceil_log2(), w);
    ensure!(n.to_integer_log2() == w.and_then(|x| if x.2 { Some(x.0) } else { None }), "to_integer_log2 {:?} should be {:?}", n.to_integer_log2(), w);
    if s.bool() {
        ensure!(n.clone().into_checked_floor_log2() == w.map(|x| x.0), "into_checked_floor_log2");
        ensure!(n.into_checked_ceil_log2() == w.map(|x| x.1), "into_checked_ceil_log2");
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
fn c07_check(n: Num, v: Q, what: &str) -> Res {
    let z = q::primitive(&vec![-v.clone(), q::q(1)]);
    ensure!(coefs(n.minimal_polynomial()) == z, "{what}: {} for {v}", show_num(&n));
    let (lo, hi) = n.interval().to_ratio_range();
    ensure!(lo <= v && v <= hi, "{what}: interval of {} misses {v}", show_num(&n));
    ensure!(n.is_rational(), "{what}: is_rational");
    ensure!(n.to_rational() == Some(v.clone()), "{what}: to_rational {:?} for {v}", n.to_rational());
    if let Some(r) = n.to_rational() {
        ensure!(r.denom().is_positive() && r.numer().gcd(r.denom()).is_one(), "{what}: not reduced");
    }
    ensure!(n.is_integer() == v.is_integer(), "{what}: is_integer");
    ensure!(n.to_integer() == if v.is_integer() { Some(v.to_integer()) } else { None }, "{what}: to_integer {:?} for {v}", n.to_integer());
    ensure!(n.degree() == 1, "{what}: degree");
    ensure!(n.cmp_with_zero() == v.cmp(&Q::zero()), "{what}: sign");
    Ok(())
}
macro_rules! width_case {
    ($s:expr, $rec:expr, $t:ty) => {{
        let bits = <$t>::BITS as usize;
        let gen = |s: &mut Src| -> $t {
            match s.below(5) {
                0 => <$t>::MIN,
                1 => <$t>::MAX,
                2 => (s.below(20) as $t),
                3 => <$t>::MAX - (s.below(20) as $t),
                _ => {
                    let k = s.usize(0, bits - 1);
                    let hi = s.raw() as u128;
                    let lo = s.raw() as u128;
                    (((hi << 64) | lo) as $t) >> k
                }
            }
        };
        let v: $t = gen($s);
        let mut d: $t = gen($s);
        if d < 1 as $t { d = 1 as $t; }
        // reduce by hand (the type's Ratio must be in lowest terms)
        let (bv, bd) = (BigInt::from(v), BigInt::from(d));
        let g = bv.gcd(&bd);
        let (rn, rd) = (<$t>::try_from(&bv / &g).unwrap(), <$t>::try_from(&bd / &g).unwrap());
        $rec.desc = format!("{} {v} and {rn}/{rd}", stringify!($t));
        if v != 0 as $t { $rec.nt(); }
        c07_check(Num::from(v), Q::from_integer(BigInt::from(v)), concat!("from ", stringify!($t)))?;
        let r = Ratio::new_raw(rn, rd);
        let want = Q::new(bv.clone(), bd.clone());
        c07_check(Num::from(r.clone()), want.clone(), concat!("from ratio of ", stringify!($t)))?;
        ensure!(v.into_rational_exponent() == Q::from_integer(bv.clone()), "exponent from int");
        ensure!((&v).into_rational_exponent() == Q::from_integer(bv.clone()), "exponent from &int");
        ensure!(r.into_rational_exponent() == want, "exponent from ratio");
        ensure!((&r).into_rational_exponent() == want, "exponent from &ratio");
        ensure!((v, d).into_rational_exponent() == want, "exponent from pair");
        ensure!((bv, d).into_rational_exponent() == want, "exponent from mixed pair");
    }};
}
fn c07_widths(s: &mut Src, rec: &mut Rec) -> Res {
    match s.below(12) {
        0 => width_case!(s, rec, u8),
        1 => width_case!(s, rec, u16),
        2 => width_case!(s, rec, u32),
        3 => width_case!(s, rec, u64),
        4 => width_case!(s, rec, u128),
        5 => width_case!(s, rec, usize),
        6 => width_case!(s, rec, i8),
        7 => width_case!(s, rec, i16),
        8 => width_case!(s, rec, i32),
        9 => width_case!(s, rec, i64),
        10 => width_case!(s, rec, i128),
        _ => width_case!(s, rec, isize),
    }
    Ok(())
}
fn c07_big(s: &mut Src, rec: &mut Rec) -> Res {
    let r = s.ratio(300);
    let n = s.bigint(400);
    rec.desc = format!("big {n} and {r}");
    rec.nt();
    c07_check(Num::from(n.clone()), Q::from_integer(n.clone()), "from BigInt")?;
    c07_check(Num::from(r.clone()), r.clone(), "from Ratio<BigInt>")?;
    let u: BigUint = s.biguint(400);
    let d: BigUint = s.biguint(100);
    let d = if d.is_zero() { BigUint::one() } else { d };
    c07_check(Num::from(u.clone()), Q::from_integer(u.clone().into()), "from BigUint")?;
    let ru = Ratio::new(u.clone(), d.clone());
    let w = Q::new(u.clone().into(), d.clone().into());
    c07_check(Num::from(ru.clone()), w.clone(), "from Ratio<BigUint>")?;
    ensure!(n.clone().into_rational_exponent() == Q::from_integer(n.clone()), "exponent BigInt");
    ensure!(r.clone().into_rational_exponent() == r, "exponent ratio");
    ensure!((&r).into_rational_exponent() == r, "exponent &ratio");
    ensure!(ru.into_rational_exponent() == w, "exponent Ratio<BigUint>");
    ensure!((u.clone(), d.clone()).into_rational_exponent() == w, "exponent pair");
    // sign of the denominator in a pair
    let dn = -BigInt::from(d);
    ensure!((u, dn).into_rational_exponent() == -w, "exponent pair with negative denominator");
    Ok(())
}
/// conversions back, from general numbers
fn c07_back(s: &mut Src, rec: &mut Rec) -> Res {
    let d = dims(s);
    let f = gen_field(s, d);
    let mut a = gen_elem(s, &f);
    if s.chance(1, 3) {
        a = f.rat(s.ratio(80));
    }
    let n = make(s, &f, &a);
    rec.desc = format!("back {} in {}", show_num(&n), f.name);
    rec.nt();
    let v = f.to_q(&a);
    rec.label(if v.is_none() { "irrational" } else { "rational" });
    ensure!(n.to_rational() == v, "to_rational {:?} should be {:?}", n.to_rational(), v);
    ensure!(n.is_rational() == v.is_some(), "is_rational");
    let i = v.as_ref().and_then(|v| if v.is_integer() { Some(v.to_integer()) } else { None });
    ensure!(n.is_integer() == i.is_some(), "is_integer");
    ensure!(n.to_integer() == i, "to_integer {:?} should be {:?}", n.to_integer(), i);
    // a result that collapses to a rational is recognised as one
    let c = s.small_ratio(30, 12);
    let b = f.sub(&f.rat(c.clone()), &a);
    if work(&f, &a, &b) > WORK {
        return Ok(());
    }
    let nb = make(s, &f, &b);
    let sum = &n + &nb;
    ensure!(sum.to_rational() == Some(c.clone()), "a + (c - a) converts to {:?}, c = {c}", sum.to_rational());
    Ok(())
}

// ---------------------------------------------------------------- high degree
/// a number of degree 6 to 14: a rational multiple and shift of a field generator
fn tall(s: &mut Src, rec: &mut Rec) -> (Field, Elem) {
    let f = gen_tall(s, 14);
    let mut e = f.x();
    if s.chance(1, 3) {
        let c = s.small_ratio(5, 4);
        if !c.is_zero() {
            e[1] = c;
        }
    }
    if s.chance(1, 3) {
        e[0] = s.small_ratio(6, 3);
    }
    rec.nt();
    rec.label(if f.n >= 10 { "degree 10-14" } else { "degree 6-9" });
    (f, e)
}
fn tall_op(s: &mut Src, rec: &mut Rec, chk: Chk) -> Res {
    let (f, e) = tall(s, rec);
    let r = f.rat(s.small_ratio(9, 6));
    let (ne, nr) = (make(s, &f, &e), make(s, &f, &r));
    let op = s.usize(0, 5);
    let ((a, na), (b, nb)) = if op >= 4 || s.chance(2, 3) { ((e, ne), (r, nr)) } else { ((r, nr), (e, ne)) };
    rec.desc = format!("{} of {} , {}", OPS[op], show_num(&na), show_num(&nb));
    rec.label(OPS[op]);
    let (w, g) = apply(s, &f, op, &(a, na), &(b, nb));
    check_opt(&f, &w, &g, OPS[op], chk)
}
fn c01_tall(s: &mut Src, rec: &mut Rec) -> Res {
    tall_op(s, rec, check_value)
}
fn c03_tall(s: &mut Src, rec: &mut Rec) -> Res {
    tall_op(s, rec, check_canon)
}
/// sign queries, absolute value and order against rationals close by
fn c02_tall(s: &mut Src, rec: &mut Rec) -> Res {
    let (f, mut e) = tall(s, rec);
    let k = s.usize(0, 60);
    let x = f.enclose(&e, k);
    let near = if s.bool() { x.lo_q() } else { x.hi_q() };
    if s.chance(1, 3) {
        e[0] -= near;
        let n = make(s, &f, &e);
        rec.desc = format!("sign {}", show_num(&n));
        let w = f.sign(&e);
        ensure!(n.cmp_with_zero() == w.cmp(&0), "cmp_with_zero {:?}, sign {w}", n.cmp_with_zero());
        ensure!(n.is_positive() == (w > 0) && n.is_negative() == (w < 0) && !n.is_zero(), "is_positive/is_negative/is_zero");
        check_value(&f, &f.rat(q::q(w as i64)), &n.signum(), "signum")?;
        return check_value(&f, &if w < 0 { f.neg(&e) } else { e.clone() }, &n.abs(), "abs");
    }
    let b = f.rat(near);
    let (n, nb) = (make(s, &f, &e), make(s, &f, &b));
    rec.desc = format!("cmp {} {}", show_num(&n), show_num(&nb));
    let w = f.cmp(&e, &b);
    ensure!(n.cmp(&nb) == w, "cmp gives {:?}, should be {w:?}", n.cmp(&nb));
    ensure!(nb.cmp(&n) == w.reverse(), "cmp not antisymmetric");
    ensure!(n != nb && nb != n, "equal to a rational");
    Ok(())
}
fn c04_tall(s: &mut Src, rec: &mut Rec) -> Res {
    let (f, mut e) = tall(s, rec);
    if s.chance(1, 3) {
        rec.label("near an integer");
        let k = s.usize(1, 50);
        let x = f.enclose(&e, k);
        e[0] -= if s.bool() { x.lo_q() } else { x.hi_q() };
        e[0] += q::q(s.int(-20, 20));
    }
    let n = make(s, &f, &e);
    let (fl, tr) = (f.floor(&e), model_trunc(&f, &e));
    let r = |v: &BigInt| f.rat(Q::from_integer(v.clone()));
    if s.bool() {
        rec.desc = format!("round {}", show_num(&n));
        ensure!(n.to_integer_floor() == fl, "to_integer_floor {} should be {fl}", n.to_integer_floor());
        ensure!(n.to_integer_ceil() == &fl + 1, "to_integer_ceil {} should be {fl}+1", n.to_integer_ceil());
        ensure!(n.to_integer_trunc() == tr, "to_integer_trunc {} should be {tr}", n.to_integer_trunc());
        return check_value(&f, &f.sub(&e, &r(&fl)), &n.fract(), "fract");
    }
    let m = s.small_ratio(9, 6);
    let m = f.rat(if m.is_zero() { q::q(1) } else { m });
    let nm = make(s, &f, &m);
    rec.desc = format!("rem {} {}", show_num(&n), show_num(&nm));
    let form = s.below(6);
    check_value(&f, &model_rem(&f, &e, &m), &rem_form(form, &n, &nm), "rem")
}
fn c06_tall(s: &mut Src, rec: &mut Rec) -> Res {
    let (f, mut e) = tall(s, rec);
    if s.bool() {
        rec.label("next to a power of two");
        let k = s.usize(1, 50);
        let x = f.enclose(&e, k);
        e[0] -= if s.bool() { x.lo_q() } else { x.hi_q() };
        e[0] += Q::from_integer(BigInt::one() << s.usize(0, 20));
    }
    if f.sign(&e) < 0 {
        e = f.neg(&e);
    }
    let n = make(s, &f, &e);
    rec.desc = format!("log2 {}", show_num(&n));
    let w = f.floor_log2(&e);
    ensure!(n.checked_floor_log2() == Some(w), "floor_log2 {:?} should be {w}", n.checked_floor_log2());
    ensure!(n.checked_ceil_log2() == Some(w + 1), "ceil_log2 {:?} should be {w}+1", n.checked_ceil_log2());
    ensure!(n.to_integer_log2().is_none(), "to_integer_log2");
    Ok(())
}

// ---------------------------------------------------------------- extreme sizes
/// numbers of low degree that are huge, tiny, of long fractions, or within up to 2^-700 of an integer or power of two
fn ext_field(s: &mut Src) -> Field {
    let d = *s.pick(&[2usize, 2, 3, 3, 4]);
    gen_field(s, d)
}
fn pow2(k: usize) -> Q {
    Q::from_integer(BigInt::one() << k)
}
fn ext_elem(s: &mut Src, rec: &mut Rec, f: &Field) -> Elem {
    let mut e = gen_elem(s, f);
    match s.below(6) {
        0 => {
            rec.label("scaled");
            let c = pow2(s.usize(0, 500));
            let c = if s.bool() { c.recip() } else { c };
            for x in e.iter_mut() {
                *x *= &c;
            }
        }
        1 => {
            rec.label("long fractions");
            let c = s.ratio(250);
            let c = if c.is_zero() { q::q(1) } else { c };
            for x in e.iter_mut() {
                *x *= &c;
            }
            e[0] += s.ratio(250);
        }
        2 => {
            rec.label("far from zero");
            e[0] += Q::from_integer(s.bigint(600));
        }
        3 => {
            rec.label("next to zero or an integer");
            let k = s.usize(30, 700);
            let x = f.enclose(&e, k);
            e[0] -= if s.bool() { x.lo_q() } else { x.hi_q() };
            if s.bool() {
                e[0] += Q::from_integer(s.bigint(200));
            }
        }
        4 => {
            rec.label("next to a power of two");
            let j = pow2(s.usize(30, 700));
            for x in e.iter_mut() {
                *x /= &j;
            }
            let c = pow2(s.usize(0, 300));
            e[0] += if s.bool() { c.recip() } else { c };
        }
        _ => {
            rec.label("power of two");
            let c = pow2(s.usize(0, 1500));
            e = f.rat(if s.bool() { c.recip() } else { c });
        }
    }
    if s.chance(1, 3) { f.neg(&e) } else { e }
}
fn ext_op(s: &mut Src, rec: &mut Rec, chk: Chk) -> Res {
    let f = ext_field(s);
    let a = ext_elem(s, rec, &f);
    let mut b = match s.below(4) {
        0 => f.rat(s.ratio(400)),
        1 => related(s, &f, &a),
        2 => gen_elem(s, &f),
        _ => ext_elem(s, rec, &f),
    };
    if work(&f, &a, &b) > 2 * WORK {
        b = f.rat(s.ratio(200));
    }
    let (na, nb) = (make(s, &f, &a), make(s, &f, &b));
    let op = s.usize(0, 5);
    let ((a, na), (b, nb)) = if op < 4 && s.chance(1, 3) { ((b, nb), (a, na)) } else { ((a, na), (b, nb)) };
    rec.desc = format!("{} of {} , {}", OPS[op], show_num(&na), show_num(&nb));
    classify(rec, &f, &a, &b);
    rec.label(OPS[op]);
    let (w, g) = apply(s, &f, op, &(a, na), &(b, nb));
    check_opt(&f, &w, &g, OPS[op], chk)
}
fn c01_ext(s: &mut Src, rec: &mut Rec) -> Res {
    ext_op(s, rec, check_value)
}
fn c03_ext(s: &mut Src, rec: &mut Rec) -> Res {
    ext_op(s, rec, check_canon)
}
fn c02_ext(s: &mut Src, rec: &mut Rec) -> Res {
    let f = ext_field(s);
    let a = ext_elem(s, rec, &f);
    let na = make(s, &f, &a);
    if f.to_q(&a).is_none() {
        rec.nt();
    }
    if s.chance(1, 3) {
        rec.desc = format!("sign {}", show_num(&na));
        let w = f.sign(&a);
        ensure!(na.cmp_with_zero() == w.cmp(&0), "cmp_with_zero {:?}, sign {w}", na.cmp_with_zero());
        ensure!(na.is_positive() == (w > 0) && na.is_negative() == (w < 0) && na.is_zero() == (w == 0), "is_positive/is_negative/is_zero");
        ensure!(na.is_one() == (f.to_q(&a) == Some(q::q(1))), "is_one");
        check_value(&f, &f.rat(q::q(w as i64)), &na.signum(), "signum")?;
        return check_value(&f, &if w < 0 { f.neg(&a) } else { a.clone() }, &na.abs(), "abs");
    }
    let mut b = match s.below(4) {
        0 => { rec.label("equal values"); a.clone() }
        1 => {
            rec.label("very close");
            let d = pow2(s.usize(1, 900)).recip();
            let mut e = a.clone();
            e[0] += if s.bool() { d } else { -d };
            e
        }
        2 => {
            rec.label("rational approximation");
            let k = s.usize(0, 700);
            let x = f.enclose(&a, k);
            f.rat(if s.bool() { x.lo_q() } else { x.hi_q() })
        }
        _ => ext_elem(s, rec, &f),
    };
    if work(&f, &a, &b) > 2 * WORK {
        let x = f.enclose(&a, 300);
        b = f.rat(if s.bool() { x.lo_q() } else { x.hi_q() });
    }
    let nb = make(s, &f, &b);
    rec.desc = format!("cmp {} {}", show_num(&na), show_num(&nb));
    let w = f.cmp(&a, &b);
    ensure!(na.cmp(&nb) == w, "cmp gives {:?}, should be {w:?}", na.cmp(&nb));
    ensure!((na == nb) == (w == Ordering::Equal) && (nb == na) == (w == Ordering::Equal), "==");
    ensure!(nb.cmp(&na) == w.reverse(), "cmp not antisymmetric");
    ensure!((na < nb) == (w == Ordering::Less), "<");
    Ok(())
}
fn c04_ext(s: &mut Src, rec: &mut Rec) -> Res {
    let f = ext_field(s);
    let a = ext_elem(s, rec, &f);
    let n = make(s, &f, &a);
    if f.to_q(&a).map_or(true, |v| !v.is_integer()) {
        rec.nt();
    }
    let r = |v: &BigInt| f.rat(Q::from_integer(v.clone()));
    if s.bool() {
        rec.desc = format!("round {}", show_num(&n));
        let (fl, ce, tr) = (f.floor(&a), -f.floor(&f.neg(&a)), model_trunc(&f, &a));
        ensure!(n.to_integer_floor() == fl, "to_integer_floor {} should be {fl}", n.to_integer_floor());
        ensure!(n.to_integer_ceil() == ce, "to_integer_ceil {} should be {ce}", n.to_integer_ceil());
        ensure!(n.to_integer_trunc() == tr, "to_integer_trunc {} should be {tr}", n.to_integer_trunc());
        check_value(&f, &f.sub(&a, &r(&fl)), &n.fract(), "fract")?;
        return match s.below(3) {
            0 => check_value(&f, &r(&fl), &n.floor(), "floor"),
            1 => check_value(&f, &r(&ce), &n.ceil(), "ceil"),
            _ => check_value(&f, &r(&tr), &n.into_trunc(), "into_trunc"),
        };
    }
    let mut m = match s.below(3) {
        0 => f.rat(s.ratio(300)),
        1 => { let c = pow2(s.usize(0, 300)); f.rat(if s.bool() { c.recip() } else { c }) }
        _ => gen_elem(s, &f),
    };
    if f.is_zero(&m) || 3 * work(&f, &a, &m) > 2 * WORK {
        m = f.rat(q::q(3));
    }
    let nm = make(s, &f, &m);
    rec.desc = format!("rem {} {}", show_num(&n), show_num(&nm));
    let form = s.below(6);
    check_value(&f, &model_rem(&f, &a, &m), &rem_form(form, &n, &nm), "rem")
}
fn c05_ext(s: &mut Src, rec: &mut Rec) -> Res {
    rec.nt();
    if s.chance(1, 3) {
        // irrational bases of degree two, longer exponents
        let f = gen_field(s, 2);
        let a = gen_elem(s, &f);
        if f.is_zero(&a) || too_big(&f, &a, 12) {
            return Ok(());
        }
        let n = make(s, &f, &a);
        let e = s.int(10, 40) * if s.bool() { 1 } else { -1 };
        rec.label("long integer exponent");
        rec.desc = format!("pow {} ^ {e} in {}", show_num(&n), f.name);
        let p = f.pow(&a, e.unsigned_abs() as usize);
        let w = if e < 0 { f.inv(&p) } else { p };
        let got = pow_form(s, &n, e, 1);
        return check_opt(&f, &Some(w), &got, "pow", check_value);
    }
    let f = Field::from_root(&vec![bi(0), bi(1)], 0);
    let qd = s.int(2, 16);
    let mut p = s.int(-9, 9);
    if p.gcd(&qd) != 1 {
        p = if s.bool() { 1 } else { -1 };
    }
    let w = s.ratio(90).abs();
    let w = if w.is_zero() { q::q(7) } else { w };
    let mut b = q::q(1);
    for _ in 0..qd {
        b *= &w;
    }
    let exact = s.chance(1, 2);
    if !exact {
        rec.label("inexact root");
        // one beside an exact power, or anything
        b = match s.below(3) {
            0 => &b + q::q(1),
            1 => if b > q::q(1) { &b - q::q(1) } else { b.recip() + q::q(2) },
            _ => { let v = s.ratio(200).abs(); if v.is_zero() { q::q(5) } else { v } }
        };
    } else {
        rec.label("exact root");
    }
    let n = make(s, &f, &f.rat(b.clone()));
    rec.desc = format!("rational pow {b} ^ ({p}/{qd})");
    if exact {
        let mut t = q::q(1);
        for _ in 0..p.abs() {
            t *= &w;
        }
        let t = f.rat(if p < 0 { t.recip() } else { t });
        return check_opt(&f, &Some(t), &pow_form(s, &n, p, qd), "exact root", check_value);
    }
    let p = p.signum();
    let Some(got) = pow_form(s, &n, p, qd) else { return Err("defined power reported absent".into()) };
    let t = if p < 0 { b.recip() } else { b };
    check_root_of(&f, &f.rat(t), qd as usize, &got)
}
fn c06_ext(s: &mut Src, rec: &mut Rec) -> Res {
    let f = ext_field(s);
    let mut a = ext_elem(s, rec, &f);
    if f.sign(&a) < 0 {
        a = f.neg(&a);
    }
    if f.is_zero(&a) {
        return Ok(());
    }
    rec.nt();
    let n = make(s, &f, &a);
    rec.desc = format!("log2 {}", show_num(&n));
    let w = f.floor_log2(&a);
    let exact = f.cmp_q(&a, &if w >= 0 { pow2(w as usize) } else { pow2((-w) as usize).recip() }) == Ordering::Equal;
    ensure!(n.checked_floor_log2() == Some(w), "floor_log2 {:?} should be {w}", n.checked_floor_log2());
    ensure!(n.checked_ceil_log2() == Some(if exact { w } else { w + 1 }), "ceil_log2 {:?}, floor {w}, exact {exact}", n.checked_ceil_log2());
    ensure!(n.to_integer_log2() == if exact { Some(w) } else { None }, "to_integer_log2 {:?}, floor {w}, exact {exact}", n.to_integer_log2());
    Ok(())
}

fn main() {
    let field_asm: &'static [&'static str] = &["operands are built with RealAlgebraicNumber::new_unchecked from a minimal polynomial and an isolating dyadic interval, as its contract requires", "reference: exact arithmetic in explicit number fields of dimension <= 14 (or resultant annihilators of degree <= 10)"];
    vcore::run::main(vec![
        Prop { id: "C01", rule: "at least one operand irrational (chains: two or more irrational intermediate results)", assumptions: field_asm, families: vec![
            fam("single", 12000, 60000, c01_single), fam("forms", 1500, 7500, c01_forms), fam("chain", 2700, 13500, c01_chain), fam("independent", 3600, 18000, c01_ind), fam("tall", 2400, 12000, c01_tall), fam("extreme", 3000, 30000, c01_ext)] },
        Prop { id: "C02", rule: "at least one operand irrational, or (sign queries) an interval that contains zero; three or more numbers sorted", assumptions: field_asm, families: vec![
            fam("cmp", 12000, 60000, c02_cmp), fam("sign", 12000, 60000, c02_sign), fam("sort", 3200, 16000, c02_sort), fam("tall", 2400, 12000, c02_tall), fam("extreme", 3000, 30000, c02_ext)] },
        Prop { id: "C03", rule: "irrational operand (chains: two or more irrational intermediate results)", assumptions: field_asm, families: vec![
            fam("single", 12000, 60000, c03_single), fam("chain", 3600, 18000, c03_chain), fam("independent", 4000, 20000, c03_ind), fam("producers", 10000, 50000, c03_other), fam("tall", 2400, 12000, c03_tall), fam("extreme", 3000, 30000, c03_ext)] },
        Prop { id: "C04", rule: "not an integer (rounding); at least one operand irrational (remainder)", assumptions: field_asm, families: vec![
            fam("round", 36000, 180000, c04_round), fam("rem", 9000, 45000, c04_rem), fam("tall", 2400, 12000, c04_tall), fam("extreme", 3000, 30000, c04_ext)] },
        Prop { id: "C05", rule: "exponent magnitude > 1 on an irrational base, a fractional exponent, or an undefined power", assumptions: field_asm, families: vec![
            fam("integer", 18000, 90000, c05_int), fam("exact_root", 7200, 36000, c05_exact), fam("general_root", 7200, 36000, c05_general), fam("rational_base", 18000, 90000, c05_special), fam("extreme", 3000, 30000, c05_ext)] },
        Prop { id: "C06", rule: "positive number", assumptions: field_asm, families: vec![fam("log2", 36000, 180000, c06_log2), fam("tall", 2400, 12000, c06_tall), fam("extreme", 3000, 30000, c06_ext)] },
        Prop { id: "C07", rule: "nonzero value", assumptions: field_asm, families: vec![
            fam("widths", 100000, 500000, c07_widths), fam("big", 20000, 100000, c07_big), fam("back", 12500, 62500, c07_back)] },
    ])
}
