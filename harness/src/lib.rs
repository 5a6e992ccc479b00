//! Conversions between the reference model and the crate under test.
pub mod ring;
use algebraics::algebraic_numbers::RealAlgebraicNumber;
use algebraics::interval_arithmetic::DyadicFractionInterval;
use algebraics::polynomial::Polynomial;
use std::cmp::Ordering;
use vcore::field::{gen_interval, Elem, Field};
use vcore::q::{self, Z};
use vcore::{ensure, BigInt, Res, Src, Q};

pub type Num = RealAlgebraicNumber;
pub type Dfi = DyadicFractionInterval;

pub fn lib_poly(z: &Z) -> Polynomial<BigInt> {
    Polynomial::from(z.clone())
}
pub fn coefs(p: &Polynomial<BigInt>) -> Z {
    p.iter().collect()
}
/// the crate's number for a field element, with a random valid isolating interval
pub fn make(s: &mut Src, f: &Field, e: &Elem) -> Num {
    let z = f.minpoly(e);
    let (a, b, k) = gen_interval(s, f, e, &z);
    Num::new_unchecked(lib_poly(&z), Dfi::new(a, b, k))
}
pub fn show_num(n: &Num) -> String {
    format!("{{{} in {}..{}/2^{}}}", q::show(&coefs(n.minimal_polynomial())), n.interval().lower_bound_numer(), n.interval().upper_bound_numer(), n.interval().log2_denom())
}
/// the number denotes exactly the value of e: its polynomial vanishes there and its
/// interval holds that root and no other root of the polynomial
pub fn check_value(f: &Field, e: &Elem, n: &Num, what: &str) -> Res {
    let p = coefs(n.minimal_polynomial());
    let want = f.minpoly(e);
    ensure!(!p.is_empty(), "{what}: zero polynomial");
    if p != want {
        let r = q::divrem(&q::z2q(&p), &q::z2q(&want)).1;
        ensure!(r.is_empty(), "{what}: got {} but the value's minimal polynomial is {}", show_num(n), q::show(&want));
    }
    check_interval(f, e, n, &p, what)?;
    if p == want {
        return Ok(());
    }
    // an unusual representation must still compare equal to the value written down directly
    let direct = Num::new_unchecked(lib_poly(&want), n.interval().clone());
    ensure!(*n == direct && direct == *n, "{what}: {} does not compare equal to {}", show_num(n), show_num(&direct));
    Ok(())
}
pub fn check_interval(f: &Field, e: &Elem, n: &Num, p: &Z, what: &str) -> Res {
    let (lo, hi): (Q, Q) = (n.interval().lower_bound(), n.interval().upper_bound());
    ensure!(lo <= hi, "{what}: inverted interval {}", show_num(n));
    ensure!(
        f.cmp_q(e, &lo) != Ordering::Less && f.cmp_q(e, &hi) != Ordering::Greater,
        "{what}: value {} outside interval of {}",
        f.enclose(e, 64).show(),
        show_num(n)
    );
    if p.len() > 2 {
        let c = q::count_closed(&q::sturm(p), &lo, &hi);
        ensure!(c == 1, "{what}: interval of {} holds {c} roots", show_num(n));
    }
    Ok(())
}
/// canonical representation: exact primitive irreducible polynomial, positive lead
pub fn check_canon(f: &Field, e: &Elem, n: &Num, what: &str) -> Res {
    let p = coefs(n.minimal_polynomial());
    let want = f.minpoly(e);
    ensure!(p == want, "{what}: minimal polynomial of {} should be {}", show_num(n), q::show(&want));
    ensure!(n.degree() == want.len() - 1, "{what}: degree {} of {}", n.degree(), show_num(n));
    let rat = f.to_q(e);
    ensure!(n.is_rational() == rat.is_some(), "{what}: is_rational of {}", show_num(n));
    ensure!(n.is_integer() == rat.as_ref().map_or(false, |r| r.is_integer()), "{what}: is_integer of {}", show_num(n));
    ensure!(n.to_rational() == rat, "{what}: to_rational of {}", show_num(n));
    let (d, own) = (n.data(), n.clone().into_data());
    let same = |x: &Dfi, y: &Dfi| x.lower_bound_numer() == y.lower_bound_numer() && x.upper_bound_numer() == y.upper_bound_numer() && x.log2_denom() == y.log2_denom();
    ensure!(
        d.minimal_polynomial == *n.minimal_polynomial() && same(&d.interval, n.interval()) && own.minimal_polynomial == *n.minimal_polynomial() && same(&own.interval, n.interval()),
        "{what}: data of {} differ from its polynomial and interval",
        show_num(n)
    );
    check_interval(f, e, n, &p, what)
}
