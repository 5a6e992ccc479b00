//! C16: modular integers. C17: integer utilities.
use algebraics::mod_int::*;
use algebraics::traits::*;
use algebraics::util::{is_prime_u32, next_prime_i32, next_prime_u32, prev_prime_i32, prev_prime_u32, Sign};
use num_bigint::BigUint;
use num_integer::Integer;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, One, Signed, ToPrimitive, Zero};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::ops::*;
use vcore::run::{fam, panics, Prop, Rec};
use vcore::{ensure, BigInt, Ratio, Res, Src};

/// an integer type seen from outside
trait Int: Clone + Eq + Ord + Hash + Debug + Display {
    const NAME: &'static str;
    fn of(v: &BigInt) -> Self;
    fn big(&self) -> BigInt;
    fn lo() -> Option<BigInt>;
    fn hi() -> Option<BigInt>;
    fn fits(v: &BigInt) -> bool {
        Self::lo().map_or(true, |l| *v >= l) && Self::hi().map_or(true, |h| *v <= h)
    }
}
macro_rules! prim {
    ($($t:ident $to:ident),*) => {$(impl Int for $t {
        const NAME: &'static str = stringify!($t);
        fn of(v: &BigInt) -> Self { v.$to().unwrap() }
        fn big(&self) -> BigInt { BigInt::from(*self) }
        fn lo() -> Option<BigInt> { Some(BigInt::from($t::MIN)) }
        fn hi() -> Option<BigInt> { Some(BigInt::from($t::MAX)) }
    })*};
}
prim!(i8 to_i8, u8 to_u8, i16 to_i16, u16 to_u16, i32 to_i32, u32 to_u32, i64 to_i64, u64 to_u64, i128 to_i128, u128 to_u128, isize to_isize, usize to_usize);
impl Int for BigInt {
    const NAME: &'static str = "BigInt";
    fn of(v: &BigInt) -> Self {
        v.clone()
    }
    fn big(&self) -> BigInt {
        self.clone()
    }
    fn lo() -> Option<BigInt> {
        None
    }
    fn hi() -> Option<BigInt> {
        None
    }
}
impl Int for BigUint {
    const NAME: &'static str = "BigUint";
    fn of(v: &BigInt) -> Self {
        v.to_biguint().unwrap()
    }
    fn big(&self) -> BigInt {
        self.clone().into()
    }
    fn lo() -> Option<BigInt> {
        Some(BigInt::zero())
    }
    fn hi() -> Option<BigInt> {
        None
    }
}
/// integer in [lo, hi] with the ends, powers of two and small values favoured
fn gen_in(s: &mut Src, lo: &BigInt, hi: &BigInt) -> BigInt {
    let d = |s: &mut Src| BigInt::from(s.int(-2, 2));
    let v = match s.weighted(&[3, 2, 2, 2, 4]) {
        0 => BigInt::from(s.int(-12, 12)),
        1 => hi - BigInt::from(s.usize(0, 3)),
        2 => lo + BigInt::from(s.usize(0, 3)),
        3 => {
            let k = s.usize(0, hi.bits() as usize);
            let v = (BigInt::one() << k) + d(s);
            if s.bool() { v } else { -v }
        }
        _ => {
            let n: BigInt = hi - lo + 1;
            lo + BigInt::from(s.uint_bits(n.bits() as usize + 16)).mod_floor(&n)
        }
    };
    if v < *lo || v > *hi {
        lo + (v - lo).mod_floor(&(hi - lo + 1))
    } else {
        v
    }
}
fn gen_value<V: Int>(s: &mut Src) -> BigInt {
    let bits = *s.pick(&[8usize, 70, 140, 300]);
    let lim = BigInt::one() << bits;
    gen_in(s, &V::lo().unwrap_or(-&lim), &V::hi().unwrap_or(lim))
}
fn gen_mod<V: Int>(s: &mut Src) -> BigInt {
    let bits = *s.pick(&[8usize, 64, 130, 300]);
    let hi = V::hi().unwrap_or(BigInt::one() << bits);
    let v = match s.weighted(&[2, 1, 3, 3]) {
        0 => BigInt::from(s.int(1, 20)),
        1 => hi.clone() - BigInt::from(s.usize(0, 4)),
        2 => (BigInt::one() << s.usize(0, hi.bits() as usize)) + BigInt::from(s.int(-2, 2)),
        _ => gen_in(s, &BigInt::one(), &hi),
    };
    if v < BigInt::one() || v > hi { BigInt::one() + v.mod_floor(&hi) } else { v }
}
fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
macro_rules! forms {
    ($a:expr, $b:expr, $op:tt, $opa:tt) => {{
        let (a, b) = (&$a, &$b);
        let mut v = vec![("& &", a $op b), ("val &", a.clone() $op b), ("& val", a $op b.clone()), ("val val", a.clone() $op b.clone())];
        let mut t = a.clone();
        t $opa b;
        v.push(("assign &", t));
        let mut t = a.clone();
        t $opa b.clone();
        v.push(("assign val", t));
        v
    }};
}
macro_rules! refused {
    ($a:expr, $b:expr, $op:tt, $opa:tt, $what:expr) => {{
        let (a, b) = (&$a, &$b);
        ensure!(panics(|| a $op b), "{}: & & returned", $what);
        ensure!(panics(|| a.clone() $op b), "{}: val & returned", $what);
        ensure!(panics(|| a $op b.clone()), "{}: & val returned", $what);
        ensure!(panics(|| a.clone() $op b.clone()), "{}: val val returned", $what);
        ensure!(panics(|| { let mut t = a.clone(); t $opa b; t }), "{}: assign & returned", $what);
        ensure!(panics(|| { let mut t = a.clone(); t $opa b.clone(); t }), "{}: assign val returned", $what);
    }};
}
fn is<V: Int, M: Clone + Eq + Debug + Hash>(g: &ModularInteger<V, M>, want: &BigInt, m: &M, what: &str) -> Res
where
    V: ModularReduce,
    M: Modulus<V>,
{
    ensure!(g.value().big() == *want, "{what}: value {} want {want}", g.value());
    ensure!(g.modulus() == m, "{what}: modulus {:?}", g.modulus());
    let w = ModularInteger::new(V::of(want), m.clone());
    ensure!(*g == w && w == *g && hash(g) == hash(&w), "{what}: not equal to the same residue built directly");
    let (v, mm): (V, M) = g.clone().into();
    ensure!(v.big() == *want && mm == *m, "{what}: into parts");
    Ok(())
}
trait PowAll: ModularReducePow<u8> + ModularReducePow<u64> + ModularReducePow<BigUint> + ModularReducePow<usize> {}
impl<T: ModularReducePow<u8> + ModularReducePow<u64> + ModularReducePow<BigUint> + ModularReducePow<usize>> PowAll for T {}
/// ring part, any modulus type
fn ring<V: Int + PowAll, M: Modulus<V> + Debug + Hash + Display>(s: &mut Src, rec: &mut Rec, m: M) -> Res {
    let mb = m.to_modulus().into_owned().big();
    let (av, bv) = (gen_value::<V>(s), gen_value::<V>(s));
    rec.desc = format!("{}: a={av} b={bv} modulo {mb}", V::NAME);
    if mb > BigInt::from(2) {
        rec.nt();
    }
    ensure!(m.clone().into_modulus().big() == mb, "into_modulus");
    let r = |v: BigInt| v.mod_floor(&mb);
    let (a, b) = (ModularInteger::new(V::of(&av), m.clone()), ModularInteger::from((V::of(&bv), m.clone())));
    let (ra, rb) = (r(av.clone()), r(bv.clone()));
    is(&a, &ra, &m, "new")?;
    is(&b, &rb, &m, "from pair")?;
    ensure!(a.has_matching_moduli(&b), "has_matching_moduli");
    ensure!((a == b) == (ra == rb), "equality");
    ensure!(a.to_string() == format!("mod_int({ra}, {mb})"), "prints {a}");
    for (f, g) in forms!(a, b, +, +=) {
        is(&g, &r(&ra + &rb), &m, &format!("sum [{f}]"))?;
    }
    for (f, g) in forms!(a, b, -, -=) {
        is(&g, &r(&ra - &rb), &m, &format!("difference [{f}]"))?;
    }
    for (f, g) in forms!(a, b, *, *=) {
        is(&g, &r(&ra * &rb), &m, &format!("product [{f}]"))?;
    }
    is(&a.checked_add(&b).ok_or("checked_add absent")?, &r(&ra + &rb), &m, "checked_add")?;
    is(&a.checked_sub(&b).ok_or("checked_sub absent")?, &r(&ra - &rb), &m, "checked_sub")?;
    is(&a.checked_mul(&b).ok_or("checked_mul absent")?, &r(&ra * &rb), &m, "checked_mul")?;
    is(&-&a, &r(-&ra), &m, "neg &")?;
    is(&-a.clone(), &r(-&ra), &m, "neg val")?;
    let mut t = a.clone();
    t.neg_assign();
    is(&t, &r(-&ra), &m, "neg_assign")?;
    // reduction of raw values
    let raw = V::of(&av);
    ensure!(raw.clone().modular_reduce(&m).big() == ra, "modular_reduce");
    let mut t = raw.clone();
    t.modular_reduce_assign(&m);
    ensure!(t.big() == ra, "modular_reduce_assign");
    // construction from every integer type
    macro_rules! from {
        ($($t:ident $f:ident),*) => {$({
            let v = gen_value::<$t>(s);
            is(&ModularInteger::<V, M>::$f($t::of(&v), m.clone()), &r(v.clone()), &m, &format!("{} of {v}", stringify!($f)))?;
        })*};
    }
    from!(u8 from_u8, i8 from_i8, u16 from_u16, i16 from_i16, u32 from_u32, i32 from_i32, u64 from_u64, i64 from_i64, u128 from_u128, i128 from_i128, usize from_usize, isize from_isize);
    let v = s.bigint(300);
    is(&ModularInteger::<V, M>::from_bigint(&v, m.clone()), &r(v.clone()), &m, &format!("from_bigint of {v}"))?;
    let v = s.biguint(300);
    is(&ModularInteger::<V, M>::from_biguint(&v, m.clone()), &r(v.clone().into()), &m, &format!("from_biguint of {v}"))?;
    // powers
    let e = s.biguint(100);
    let e8 = s.below(256) as u8;
    let e64 = s.raw() >> s.usize(0, 63);
    let pw = |e: BigInt| r(ra.modpow(&e, &mb));
    ensure!(ModularReducePow::<BigUint>::pow_modular_reduce(&raw, &e, &m).big() == pw(e.clone().into()), "{av} to the power {e}");
    ensure!(ModularReducePow::<u8>::pow_modular_reduce(&raw, &e8, &m).big() == pw(e8.into()), "{av} to the power {e8} (u8)");
    ensure!(ModularReducePow::<u64>::pow_modular_reduce(&raw, &e64, &m).big() == pw(e64.into()), "{av} to the power {e64} (u64)");
    ensure!(ModularReducePow::<usize>::pow_modular_reduce(&raw, &(e8 as usize), &m).big() == pw(e8.into()), "{av} to the power {e8} (usize)");
    Ok(())
}
fn egcd(a: &BigInt, m: &BigInt) -> Option<BigInt> {
    let (mut r0, mut r1, mut t0, mut t1) = (m.clone(), a.mod_floor(m), BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let n = &r0 - &q * &r1;
        r0 = std::mem::replace(&mut r1, n);
        let n = &t0 - &q * &t1;
        t0 = std::mem::replace(&mut t1, n);
    }
    if r0.is_one() { Some(t0.mod_floor(m)) } else { None }
}
/// inverses and division, for the types that have them
fn field<V: Int + ModularReduce + One + Zero + GCD<Output = V> + ExtendedGCD, M: Modulus<V> + Debug + Hash>(s: &mut Src, rec: &mut Rec, m: M) -> Res {
    let mb = m.to_modulus().into_owned().big();
    let (av, mut bv) = (gen_value::<V>(s), gen_value::<V>(s));
    if s.chance(1, 3) && mb > BigInt::one() {
        // share a factor with the modulus
        let g = BigInt::from(*s.pick(&[2, 3, 5, 7, 11]));
        if (&mb % &g).is_zero() {
            bv = (bv * g).mod_floor(&mb);
        }
    }
    rec.desc = format!("{}: {av} / {bv} modulo {mb}", V::NAME);
    if mb.is_one() {
        return Ok(()); // the zero ring: not claimed
    }
    let (a, b) = (ModularInteger::new(V::of(&av), m.clone()), ModularInteger::new(V::of(&bv), m.clone()));
    match egcd(&bv, &mb) {
        Some(i) => {
            rec.nt();
            rec.label("unit");
            is(&b.checked_inverse().ok_or("checked_inverse absent")?, &i, &m, "checked_inverse")?;
            is(&b.inverse(), &i, &m, "inverse")?;
            let w = (&av * &i).mod_floor(&mb);
            for (f, g) in forms!(a, b, /, /=) {
                is(&g, &w, &m, &format!("quotient [{f}]"))?;
            }
            is(&a.checked_div(&b).ok_or("checked_div absent")?, &w, &m, "checked_div")?;
            for (f, g) in [("& &", (&a).checked_exact_div(&b)), ("val &", a.clone().checked_exact_div(&b)), ("& val", (&a).checked_exact_div(b.clone())), ("val val", a.clone().checked_exact_div(b.clone()))] {
                is(&g.ok_or("checked_exact_div absent")?, &w, &m, &format!("checked_exact_div [{f}]"))?;
            }
            for (f, g) in [("& &", (&a).exact_div(&b)), ("val &", a.clone().exact_div(&b)), ("& val", (&a).exact_div(b.clone())), ("val val", a.clone().exact_div(b.clone()))] {
                is(&g, &w, &m, &format!("exact_div [{f}]"))?;
            }
            let mut t = a.clone();
            ensure!(t.checked_exact_div_assign(&b).is_ok(), "checked_exact_div_assign & fails");
            is(&t, &w, &m, "checked_exact_div_assign &")?;
            let mut t = a.clone();
            ensure!(t.checked_exact_div_assign(b.clone()).is_ok(), "checked_exact_div_assign val fails");
            is(&t, &w, &m, "checked_exact_div_assign val")?;
            let mut t = a.clone();
            t.exact_div_assign(&b);
            is(&t, &w, &m, "exact_div_assign")?;
        }
        None => {
            rec.label("non-unit");
            ensure!(b.checked_inverse().is_none(), "non-unit has the inverse {:?}", b.checked_inverse());
            ensure!(panics(|| b.inverse()), "inverse of a non-unit returned");
            ensure!(a.checked_div(&b).is_none() && (&a).checked_exact_div(&b).is_none() && a.clone().checked_exact_div(b.clone()).is_none(), "division by a non-unit succeeds");
            let mut t = a.clone();
            ensure!(t.checked_exact_div_assign(&b).is_err() && t == a, "failed division changed its operand");
            refused!(a, b, /, /=, "division by a non-unit");
        }
    }
    Ok(())
}
/// operands with different moduli
fn mismatch<V: Int + ModularReduce + Modulus<V>>(s: &mut Src, rec: &mut Rec) -> Res {
    let (m1, m2) = (gen_mod::<V>(s), gen_mod::<V>(s));
    let (a, b) = (ModularInteger::new(V::of(&gen_value::<V>(s)), V::of(&m1)), ModularInteger::new(V::of(&gen_value::<V>(s)), V::of(&m2)));
    rec.desc = format!("{a} and {b} ({})", V::NAME);
    ensure!(a.has_matching_moduli(&b) == (m1 == m2), "has_matching_moduli");
    if m1 == m2 {
        return Ok(());
    }
    rec.nt();
    ensure!(a != b, "residues of different moduli are equal");
    ensure!(a.checked_add(&b).is_none() && a.checked_sub(&b).is_none() && a.checked_mul(&b).is_none(), "checked operation on different moduli succeeds");
    refused!(a, b, +, +=, "sum with different moduli");
    refused!(a, b, -, -=, "difference with different moduli");
    refused!(a, b, *, *=, "product with different moduli");
    Ok(())
}
macro_rules! by_type {
    ($s:expr, $f:ident, $rec:expr, [$($t:ident),*]) => {{
        const N: usize = [$(stringify!($t)),*].len();
        let k = $s.usize(0, N - 1);
        let mut i = 0;
        $(if i == k { return $f::<$t>($s, $rec); } i += 1;)*
        let _ = i;
        unreachable!()
    }};
}
fn ring_runtime<V: Int + PowAll + Modulus<V>>(s: &mut Src, rec: &mut Rec) -> Res {
    let m = V::of(&gen_mod::<V>(s));
    ring::<V, V>(s, rec, m)
}
fn field_runtime<V: Int + ModularReduce + Modulus<V> + One + Zero + GCD<Output = V> + ExtendedGCD>(s: &mut Src, rec: &mut Rec) -> Res {
    let m = V::of(&gen_mod::<V>(s));
    field::<V, V>(s, rec, m)
}
/// the wrappers of a runtime modulus
fn ring_wrapped(s: &mut Src, rec: &mut Rec) -> Res {
    match s.usize(0, 5) {
        0 => { let m = BigInt::of(&gen_mod::<BigInt>(s)); ring(s, rec, KnownPrime::<BigInt>::new_unsafe(m)) }
        1 => { let m = u64::of(&gen_mod::<u64>(s)); ring(s, rec, KnownPrime::<u64>::new_unsafe(m)) }
        2 => { let m = i32::of(&gen_mod::<i32>(s)); ring(s, rec, KnownOdd::<i32>::new_unsafe(m)) }
        3 => { let m = i32::of(&gen_mod::<i32>(s)); ring(s, rec, KnownOddPrime::<i32>::new_odd_prime_unsafe(m)) }
        4 => { let m = i8::of(&gen_mod::<i8>(s)); field(s, rec, KnownPrime::<i8>::new_unsafe(m)) }
        _ => { let m = BigUint::of(&gen_mod::<BigUint>(s)); ring::<BigUint, &BigUint>(s, rec, &m) }
    }
}
fn c16_ring(s: &mut Src, rec: &mut Rec) -> Res {
    if s.chance(1, 4) {
        return ring_wrapped(s, rec);
    }
    by_type!(s, ring_runtime, rec, [i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint])
}
/// the reducing operations on plain integers, beneath the modular numbers
fn reduction<V: Int + ModularReduce + Modulus<V>>(s: &mut Src, rec: &mut Rec) -> Res {
    let m = gen_mod::<V>(s);
    let lm = V::of(&m);
    let red = |s: &mut Src| match s.weighted(&[2, 1]) {
        0 => gen_value::<V>(s).mod_floor(&m),
        _ => (&m - BigInt::from(s.int(0, 2))).mod_floor(&m),
    };
    let (a, b) = (red(s), red(s));
    rec.desc = format!("{a}, {b} modulo {m} ({})", V::NAME);
    if !a.is_zero() && !b.is_zero() && m > BigInt::from(2) {
        rec.nt();
    }
    let (la, lb) = (V::of(&a), V::of(&b));
    macro_rules! op {
        ($w:expr, $what:expr, $rr:ident, $rm:ident, $mr:ident, $mm:ident, $ra:ident, $ma:ident) => {{
            let w: BigInt = $w;
            let w = w.mod_floor(&m);
            let got = [
                la.$rr(&lb, &lm),
                la.$rm(lb.clone(), lm.clone()),
                la.clone().$mr(&lb, &lm),
                la.clone().$mm(lb.clone(), &lm),
                { let mut t = la.clone(); t.$ra(&lb, &lm); t },
                { let mut t = la.clone(); t.$ma(lb.clone(), lm.clone()); t },
            ];
            for (i, g) in got.iter().enumerate() {
                ensure!(g.big() == w, "{} form {i} gives {g} want {w}", $what);
            }
        }};
    }
    op!(&a + &b, "sum", modular_add_ref_ref, modular_add_ref_move, modular_add_move_ref, modular_add_move_move, modular_add_ref_assign, modular_add_move_assign);
    op!(&a - &b, "difference", modular_sub_ref_ref, modular_sub_ref_move, modular_sub_move_ref, modular_sub_move_move, modular_sub_ref_assign, modular_sub_move_assign);
    op!(&a * &b, "product", modular_mul_ref_ref, modular_mul_ref_move, modular_mul_move_ref, modular_mul_move_move, modular_mul_ref_assign, modular_mul_move_assign);
    let w = (-&a).mod_floor(&m);
    let got = [la.modular_neg_ref(&lm), la.clone().modular_neg_move(&lm), { let mut t = la.clone(); t.modular_neg_assign(&lm); t }];
    ensure!(got.iter().all(|g| g.big() == w), "negation gives {got:?} want {w}");
    // reduction of any value, in the value's own type and from every other integer type
    let v = gen_value::<V>(s);
    let w = v.mod_floor(&m);
    let got = [V::of(&v).modular_reduce(&lm), { let mut t = V::of(&v); t.modular_reduce_assign(&lm); t }];
    ensure!(got.iter().all(|g| g.big() == w), "reduction of {v} gives {got:?} want {w}");
    macro_rules! from {
        ($($t:ident $f:ident),*) => {{
            $({
                let v = gen_value::<$t>(s);
                let g = V::$f($t::of(&v), &lm).big();
                ensure!(g == v.mod_floor(&m), "{} of {v} gives {g} modulo {m}", stringify!($f));
            })*
        }};
    }
    from!(u8 modular_reduce_from_u8, u16 modular_reduce_from_u16, u32 modular_reduce_from_u32, u64 modular_reduce_from_u64, u128 modular_reduce_from_u128, usize modular_reduce_from_usize);
    from!(i8 modular_reduce_from_i8, i16 modular_reduce_from_i16, i32 modular_reduce_from_i32, i64 modular_reduce_from_i64, i128 modular_reduce_from_i128, isize modular_reduce_from_isize);
    let v = gen_value::<BigInt>(s);
    let g = V::modular_reduce_from_bigint(&v, &lm).big();
    ensure!(g == v.mod_floor(&m), "from big integer {v} gives {g} modulo {m}");
    let v = gen_value::<BigUint>(s);
    let g = V::modular_reduce_from_biguint(&BigUint::of(&v), &lm).big();
    ensure!(g == v.mod_floor(&m), "from unsigned big integer {v} gives {g} modulo {m}");
    Ok(())
}
fn c16_reduction(s: &mut Src, rec: &mut Rec) -> Res {
    by_type!(s, reduction, rec, [i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint])
}
fn c16_field(s: &mut Src, rec: &mut Rec) -> Res {
    by_type!(s, field_runtime, rec, [i8, i16, i32, i64, i128, isize, BigInt])
}
fn c16_mismatch(s: &mut Src, rec: &mut Rec) -> Res {
    by_type!(s, mismatch, rec, [i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint])
}
trait StaticAll<V: Clone + Eq>: StaticModulus<V> + Debug + Hash + Display {}
impl<T: StaticModulus<V> + Debug + Hash + Display, V: Clone + Eq> StaticAll<V> for T {}
/// what differs from one static modulus and value type to another: the modulus itself
fn static_value<V: Int + PowAll + num_integer::Integer>(s: &mut Src, rec: &mut Rec) -> Res
where
    Mod1: StaticAll<V>, Mod2: StaticAll<V>, Mod3: StaticAll<V>, Mod4: StaticAll<V>, Mod5: StaticAll<V>, Mod6: StaticAll<V>, Mod7: StaticAll<V>, Mod8: StaticAll<V>,
    Mod9: StaticAll<V>, Mod10: StaticAll<V>, Mod11: StaticAll<V>, Mod12: StaticAll<V>, Mod13: StaticAll<V>, Mod14: StaticAll<V>, Mod15: StaticAll<V>, Mod16: StaticAll<V>,
{
    let v = gen_value::<V>(s);
    rec.desc = format!("{v} ({}) modulo 1 to 16", V::NAME);
    rec.nt();
    macro_rules! each { ($($n:expr, $m:ident),*) => { $({
        let g: V = <$m as StaticModulus<V>>::get_modulus();
        let h: V = $m.into_modulus();
        ensure!(g.big() == BigInt::from($n) && h == g, "{} is {g} for {}", stringify!($m), V::NAME);
        ensure!($m.to_string() == $n.to_string(), "{} prints {}", stringify!($m), $m);
        let w = [
            <KnownPrime<$m> as StaticModulus<V>>::get_modulus(), <KnownOdd<$m> as StaticModulus<V>>::get_modulus(), <KnownOdd<KnownPrime<$m>> as StaticModulus<V>>::get_modulus(),
            KnownPrime::new_unsafe($m).into_modulus(), KnownOdd::new_unsafe($m).into_modulus(), KnownOdd::new_unsafe(KnownPrime::new_unsafe($m)).to_modulus().into_owned(),
        ];
        ensure!(w.iter().all(|x| *x == g), "wrapped {} is {:?} for {}", stringify!($m), w, V::NAME);
        ensure!(KnownPrime::new_unsafe($m).to_string() == $n.to_string() && KnownOdd::new_unsafe($m).to_string() == $n.to_string(), "wrapped {} prints {}", stringify!($m), KnownOdd::new_unsafe($m));
        let r = V::of(&v).modular_reduce(&$m).big();
        ensure!(r == v.mod_floor(&BigInt::from($n)), "{v} reduced modulo {} is {r}", $n);
    })* } }
    // the wrappers give back what they hold
    let (p, o) = (KnownPrime::new_unsafe(V::of(&v)), KnownOdd::new_unsafe(V::of(&v)));
    ensure!((*p).big() == v && (*o).big() == v && p.to_string() == v.to_string() && o.to_string() == v.to_string() && p.unwrap().big() == v && o.unwrap().big() == v, "wrapped {v} comes back changed");
    each!(1, Mod1, 2, Mod2, 3, Mod3, 4, Mod4, 5, Mod5, 6, Mod6, 7, Mod7, 8, Mod8, 9, Mod9, 10, Mod10, 11, Mod11, 12, Mod12, 13, Mod13, 14, Mod14, 15, Mod15, 16, Mod16);
    Ok(())
}
fn static_ring(s: &mut Src, rec: &mut Rec) -> Res {
    match s.usize(0, 11) {
        0 => ring::<i8, _>(s, rec, Mod13),
        1 => ring::<u8, _>(s, rec, Mod16),
        2 => ring::<i16, _>(s, rec, Mod1),
        3 => ring::<i32, _>(s, rec, Mod7),
        4 => ring::<u32, _>(s, rec, Mod2),
        5 => ring::<i64, _>(s, rec, Mod12),
        6 => ring::<u128, _>(s, rec, Mod9),
        7 => ring::<BigInt, _>(s, rec, Mod10),
        8 => ring::<BigUint, _>(s, rec, Mod15),
        9 => ring::<usize, _>(s, rec, Mod5),
        10 => ring::<i128, _>(s, rec, Mod3),
        _ => ring::<BigInt, _>(s, rec, Mod2),
    }
}
fn static_field(s: &mut Src, rec: &mut Rec) -> Res {
    match s.usize(0, 6) {
        0 => field::<i8, _>(s, rec, Mod13),
        1 => field::<i16, _>(s, rec, Mod16),
        2 => field::<i32, _>(s, rec, Mod7),
        3 => field::<i64, _>(s, rec, Mod12),
        4 => field::<i128, _>(s, rec, Mod9),
        5 => field::<BigInt, _>(s, rec, Mod15),
        _ => field::<isize, _>(s, rec, Mod2),
    }
}
fn prime_power<V: Int + Integer, M: PrimePowerModulus<V>>(m: M) -> Res {
    let be = m.base_and_exponent();
    let (b, n) = (be.base.big(), m.to_modulus().into_owned().big());
    ensure!(prime64(b.to_u64().unwrap()) && b.pow(be.exponent as u32) == n, "{n} is reported as {b}^{}", be.exponent);
    Ok(())
}
fn c16_static(s: &mut Src, rec: &mut Rec) -> Res {
    macro_rules! pp { ($t:ident) => { for r in [prime_power::<$t, _>(Mod2), prime_power::<$t, _>(Mod3), prime_power::<$t, _>(Mod4), prime_power::<$t, _>(Mod5), prime_power::<$t, _>(Mod7), prime_power::<$t, _>(Mod8), prime_power::<$t, _>(Mod9), prime_power::<$t, _>(Mod11), prime_power::<$t, _>(Mod13), prime_power::<$t, _>(Mod16), prime_power::<$t, _>(KnownPrime::new_unsafe($t::from_u8(61).unwrap())), prime_power::<$t, _>(KnownOddPrime::new_odd_prime_unsafe($t::from_u8(59).unwrap()))] { r? } } }
    match s.usize(0, 39) {
        0 => pp!(i8), 1 => pp!(u8), 2 => pp!(i16), 3 => pp!(u16), 4 => pp!(i32), 5 => pp!(u32), 6 => pp!(i64), 7 => pp!(u64), 8 => pp!(i128), 9 => pp!(u128), 10 => pp!(isize), 11 => pp!(usize), 12 => pp!(BigInt), 13 => pp!(BigUint),
        _ => {}
    }
    match s.usize(0, 2) {
        0 => static_ring(s, rec),
        1 => static_field(s, rec),
        _ => by_type!(s, static_value, rec, [i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint]),
    }
}

// ---------------------------------------------------------------- C17
fn powmod(mut b: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    b %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = (r as u128 * b as u128 % m as u128) as u64;
        }
        b = (b as u128 * b as u128 % m as u128) as u64;
        e >>= 1;
    }
    r
}
/// strong pseudoprime test, a proof below 2^64 for these bases
fn prime64(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % p == 0 {
            return n == p;
        }
    }
    let (s, d) = ((n - 1).trailing_zeros(), (n - 1) >> (n - 1).trailing_zeros());
    'b: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powmod(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = (x as u128 * x as u128 % n as u128) as u64;
            if x == n - 1 {
                continue 'b;
            }
        }
        return false;
    }
    true
}
fn small_prime(s: &mut Src, max: u32) -> u32 {
    let mut v = s.usize(2, max as usize) as u32;
    while !prime64(v as u64) {
        v -= 1;
        if v < 2 {
            return 2;
        }
    }
    v
}
fn primes(s: &mut Src, rec: &mut Rec) -> Res {
    let centre: u32 = match s.weighted(&[2, 3, 3, 2, 2, 2]) {
        0 => s.usize(0, 200) as u32,
        1 => s.usize(0, 80_000) as u32,
        2 => {
            // semiprimes with a chosen smaller factor, squares of primes
            let p = small_prime(s, 65535);
            let q = if s.chance(1, 4) { p } else { small_prime(s, (u32::MAX / p).min(200_000)) };
            p.wrapping_mul(if p as u64 * q as u64 > u32::MAX as u64 { 1 } else { q })
        }
        3 => u32::MAX - s.usize(0, 2000) as u32,
        4 => (i32::MAX as u32).wrapping_add(s.usize(0, 400) as u32).wrapping_sub(200),
        _ => s.raw() as u32 >> s.usize(0, 24),
    };
    rec.desc = format!("around {centre}");
    if centre > 1000 {
        rec.nt();
    }
    for d in -1i64..=1 {
        let v = centre as i64 + d;
        if v < 0 || v > u32::MAX as i64 {
            continue;
        }
        let v = v as u32;
        ensure!(is_prime_u32(v) == prime64(v as u64), "is_prime_u32({v}) is {}", is_prime_u32(v));
    }
    let v = centre;
    let next = (v as u64 + 1..=u32::MAX as u64).find(|x| prime64(*x)).map(|x| x as u32);
    let prev = (0..v as u64).rev().find(|x| prime64(*x)).map(|x| x as u32);
    ensure!(next_prime_u32(v) == next, "next_prime_u32({v}) is {:?}", next_prime_u32(v));
    ensure!(prev_prime_u32(v) == prev, "prev_prime_u32({v}) is {:?}", prev_prime_u32(v));
    let i = v as i32;
    let (n, p) = if i < 0 { (Some(2), None) } else { (next.filter(|x| *x <= i32::MAX as u32).map(|x| x as i32), prev.map(|x| x as i32)) };
    ensure!(next_prime_i32(i) == n, "next_prime_i32({i}) is {:?}", next_prime_i32(i));
    ensure!(prev_prime_i32(i) == p, "prev_prime_i32({i}) is {:?}", prev_prime_i32(i));
    Ok(())
}
/// every value of a block, so that the small range is covered completely
fn prime_blocks(s: &mut Src, rec: &mut Rec) -> Res {
    let k = s.usize(0, 4095) as u32;
    rec.desc = format!("{}..{}", k * 64, k * 64 + 64);
    rec.nt();
    for v in k * 64..k * 64 + 64 {
        ensure!(is_prime_u32(v) == prime64(v as u64), "is_prime_u32({v}) is {}", is_prime_u32(v));
    }
    Ok(())
}
fn pair<V: Int>(s: &mut Src) -> (BigInt, BigInt) {
    let (a, b) = (gen_value::<V>(s), gen_value::<V>(s));
    match s.usize(0, 3) {
        0 => (a, b),
        1 => {
            // common factor
            let g = BigInt::from(s.int(1, 60));
            let (x, y) = (&a / &g / 64 * &g, &b / &g / 64 * &g);
            (x, y)
        }
        2 => {
            // exact multiple when it fits
            let k = BigInt::from(s.int(-9, 9));
            let v = &b * k;
            if V::fits(&v) { (v, b) } else { (a, b) }
        }
        _ => {
            let (p, q) = (gen_in(s, &BigInt::from(-12), &BigInt::from(12)), gen_in(s, &BigInt::from(-12), &BigInt::from(12)));
            if V::fits(&p) && V::fits(&q) { (p, q) } else { (p.abs(), q.abs()) }
        }
    }
}
fn igcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut x, mut y) = (a.abs(), b.abs());
    while !y.is_zero() {
        let r = &x % &y;
        x = std::mem::replace(&mut y, r);
    }
    x
}
fn gcd_any<V: Int + GCD<Output = V>>(s: &mut Src, rec: &mut Rec) -> Res {
    let (a, b) = pair::<V>(s);
    rec.desc = format!("gcd {a} {b} ({})", V::NAME);
    let g = igcd(&a, &b);
    let l = if g.is_zero() { BigInt::zero() } else { (&a / &g * &b).abs() };
    let range = |v: &BigInt| V::fits(v) && V::fits(&-v.clone()) || !V::lo().map_or(true, |l| l.is_negative()) && V::fits(v);
    if !range(&g) || !range(&a) || !range(&b) {
        return Ok(());
    }
    if !g.is_one() && !g.is_zero() {
        rec.nt();
    }
    let (x, y) = (V::of(&a), V::of(&b));
    ensure!(GCD::gcd(&x, &y).big() == g, "gcd of {a} and {b} is {}", GCD::gcd(&x, &y));
    if range(&l) {
        ensure!(GCD::lcm(&x, &y).big() == l, "lcm of {a} and {b} is {}", GCD::lcm(&x, &y));
        let gl = GCD::gcd_lcm(&x, &y);
        ensure!(gl.gcd.big() == g && gl.lcm.big() == l, "gcd_lcm of {a} and {b}");
    }
    Ok(())
}
fn gcd_ext<V: Int + ExtendedGCD + GCD<Output = V>>(s: &mut Src, rec: &mut Rec) -> Res {
    let (a, b) = pair::<V>(s);
    rec.desc = format!("extended gcd {a} {b} ({})", V::NAME);
    let lim = V::hi();
    let ok = |v: &BigInt| lim.as_ref().map_or(true, |h| v.abs() <= *h);
    if !ok(&a) || !ok(&b) {
        return Ok(());
    }
    let g = igcd(&a, &b);
    if !g.is_one() && !g.is_zero() {
        rec.nt();
    }
    let r = V::of(&a).extended_gcd(&V::of(&b));
    ensure!(r.gcd.big() == g && r.x.big() * &a + r.y.big() * &b == g, "extended_gcd of {a} and {b} is {r:?}");
    let l = if g.is_zero() { BigInt::zero() } else { (&a / &g * &b).abs() };
    if ok(&l) {
        let r = V::of(&a).extended_gcd_lcm(&V::of(&b));
        ensure!(r.gcd.big() == g && r.lcm.big() == l && r.x.big() * &a + r.y.big() * &b == g, "extended_gcd_lcm of {a} and {b} is {r:?}");
    }
    Ok(())
}
fn c17_gcd(s: &mut Src, rec: &mut Rec) -> Res {
    if s.bool() {
        by_type!(s, gcd_any, rec, [i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint])
    } else {
        by_type!(s, gcd_ext, rec, [i8, i16, i32, i64, i128, isize, BigInt])
    }
}
/// gcd of rationals: positive generator of the group they span, up to sign
fn ratio_case<T: Int + Integer + Signed + for<'a> Mul<&'a T, Output = T>>(s: &mut Src, rec: &mut Rec) -> Res {
    let n = if T::hi().is_some() { 90 } else { 100_000 };
    let mk = |s: &mut Src| {
        let (a, b) = (s.int(-n, n), s.int(1, n));
        (Ratio::new(BigInt::from(a), BigInt::from(b)), Ratio::new(T::of(&a.into()), T::of(&b.into())))
    };
    let ((qa, a), (qb, b)) = (mk(s), mk(s));
    rec.desc = format!("gcd {qa} {qb} (Ratio<{}>)", T::NAME);
    let big = |r: &Ratio<T>| Ratio::new(r.numer().big(), r.denom().big());
    let divides = |d: &Ratio<BigInt>, x: &Ratio<BigInt>| if d.is_zero() { x.is_zero() } else { (x / d).is_integer() };
    let g0 = Ratio::new(igcd(&(qa.numer() * qb.denom()), &(qb.numer() * qa.denom())), qa.denom() * qb.denom());
    if !qa.is_integer() && !qa.is_zero() && !qb.is_zero() {
        rec.nt();
    }
    for (w, g) in [("gcd", GCD::gcd(&a, &b)), ("gcd_lcm", GCD::gcd_lcm(&a, &b).gcd), ("extended_gcd", a.extended_gcd(&b).gcd), ("extended_gcd_lcm", a.extended_gcd_lcm(&b).gcd)] {
        let g = big(&g);
        ensure!(g.abs() == g0 && divides(&g, &qa) && divides(&g, &qb), "{w} of {qa} and {qb} is {g}");
    }
    let r = a.extended_gcd(&b);
    ensure!(big(&r.x) * &qa + big(&r.y) * &qb == big(&r.gcd), "Bezout identity for {qa} and {qb}");
    let l0 = if g0.is_zero() { g0.clone() } else { (&qa * &qb / &g0).abs() };
    for (w, l) in [("lcm", GCD::lcm(&a, &b)), ("gcd_lcm", GCD::gcd_lcm(&a, &b).lcm), ("extended_gcd_lcm", a.extended_gcd_lcm(&b).lcm)] {
        ensure!(big(&l).abs() == l0, "{w}: lcm of {qa} and {qb} is {}", big(&l));
    }
    Ok(())
}
fn c17_ratio(s: &mut Src, rec: &mut Rec) -> Res {
    match s.usize(0, 2) {
        0 => ratio_case::<i64>(s, rec),
        1 => ratio_case::<i128>(s, rec),
        _ => ratio_case::<BigInt>(s, rec),
    }
}
fn exact<V: Int>(s: &mut Src, rec: &mut Rec) -> Res
where
    V: ExactDiv<V, Output = V> + for<'a> ExactDiv<&'a V, Output = V> + ExactDivAssign<V> + for<'a> ExactDivAssign<&'a V>,
    for<'b> &'b V: ExactDiv<V, Output = V> + ExactDiv<&'b V, Output = V>,
{
    let (a, b) = pair::<V>(s);
    rec.desc = format!("{a} / {b} ({})", V::NAME);
    let want = if b.is_zero() || !(&a % &b).is_zero() { None } else { Some(&a / &b).filter(|v| V::fits(v)) };
    rec.label(if want.is_some() { "exact" } else { "refused" });
    if !b.is_zero() && !b.abs().is_one() && !a.is_zero() {
        rec.nt();
    }
    let (x, y) = (V::of(&a), V::of(&b));
    for (f, g) in [("& &", (&x).checked_exact_div(&y)), ("val &", x.clone().checked_exact_div(&y)), ("& val", (&x).checked_exact_div(y.clone())), ("val val", x.clone().checked_exact_div(y.clone()))] {
        ensure!(g.as_ref().map(|g| g.big()) == want, "checked_exact_div [{f}] of {a} by {b} is {g:?}");
    }
    for by_ref in [true, false] {
        let mut t = x.clone();
        let ok = if by_ref { t.checked_exact_div_assign(&y) } else { t.checked_exact_div_assign(y.clone()) };
        ensure!(ok.is_ok() == want.is_some() && t.big() == *want.as_ref().unwrap_or(&a), "checked_exact_div_assign of {a} by {b} leaves {t}");
    }
    match want {
        Some(w) => {
            ensure!((&x).exact_div(&y).big() == w && x.clone().exact_div(&y).big() == w && (&x).exact_div(y.clone()).big() == w && x.clone().exact_div(y.clone()).big() == w, "exact_div of {a} by {b}");
            let mut t = x.clone();
            t.exact_div_assign(&y);
            ensure!(t.big() == w, "exact_div_assign");
            let mut t = x.clone();
            t.exact_div_assign(y.clone());
            ensure!(t.big() == w, "exact_div_assign");
        }
        None => {
            ensure!(panics(|| (&x).exact_div(&y)) && panics(|| x.clone().exact_div(y.clone())), "exact_div of {a} by {b} returned");
        }
    }
    Ok(())
}
fn exact_ratio(s: &mut Src, rec: &mut Rec) -> Res {
    let (a, b) = (s.ratio(80), if s.chance(1, 6) { Ratio::zero() } else { s.ratio(80) });
    let n = if s.chance(1, 6) { BigInt::zero() } else { s.bigint(60) };
    rec.desc = format!("{a} / {b}, {a} / {n}");
    if !b.is_zero() {
        rec.nt();
    }
    let w = if b.is_zero() { None } else { Some(Ratio::new(a.numer() * b.denom(), a.denom() * b.numer())) };
    let wn = if n.is_zero() { None } else { Some(Ratio::new(a.numer().clone(), a.denom() * &n)) };
    for g in [(&a).checked_exact_div(&b), a.clone().checked_exact_div(&b), (&a).checked_exact_div(b.clone()), a.clone().checked_exact_div(b.clone())] {
        ensure!(g == w, "checked_exact_div of {a} by {b} is {g:?}");
    }
    for g in [(&a).checked_exact_div(&n), a.clone().checked_exact_div(&n), (&a).checked_exact_div(n.clone()), a.clone().checked_exact_div(n.clone())] {
        ensure!(g == wn, "checked_exact_div of {a} by {n} is {g:?}");
    }
    let mut t = a.clone();
    ensure!(t.checked_exact_div_assign(&b).is_ok() == w.is_some() && t == *w.as_ref().unwrap_or(&a), "checked_exact_div_assign of {a} by {b}");
    let mut t = a.clone();
    ensure!(t.checked_exact_div_assign(&n).is_ok() == wn.is_some() && t == *wn.as_ref().unwrap_or(&a), "checked_exact_div_assign of {a} by {n}");
    if let Some(w) = &w {
        ensure!((&a).exact_div(&b) == *w && a.clone().exact_div(b.clone()) == *w, "exact_div of {a} by {b}");
        let mut t = a.clone();
        t.exact_div_assign(b.clone());
        ensure!(t == *w, "exact_div_assign of {a} by {b}");
    }
    if let Some(w) = &wn {
        ensure!((&a).exact_div(&n) == *w && a.clone().exact_div(n.clone()) == *w, "exact_div of {a} by {n}");
        let mut t = a.clone();
        t.exact_div_assign(n.clone());
        ensure!(t == *w, "exact_div_assign of {a} by {n}");
    }
    Ok(())
}
fn c17_exact(s: &mut Src, rec: &mut Rec) -> Res {
    if s.chance(1, 6) {
        return exact_ratio(s, rec);
    }
    by_type!(s, exact, rec, [i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint])
}
fn bits<V: Int + FloorLog2 + CeilLog2 + TrailingZeros>(s: &mut Src, rec: &mut Rec) -> Res {
    let mut v = gen_value::<V>(s);
    if s.chance(1, 3) {
        // many trailing zeros
        let k = s.usize(0, V::hi().map_or(700, |h| h.bits() as usize));
        let t = BigInt::from(s.int(-9, 9)) << k;
        if V::fits(&t) {
            v = t;
        }
    }
    rec.desc = format!("{v} ({})", V::NAME);
    let x = V::of(&v);
    let (mut fl, mut ce, mut tz) = (None, None, None);
    if v.is_positive() {
        let mut k = 0;
        while (BigInt::one() << (k + 1)) <= v {
            k += 1;
        }
        fl = Some(k);
        ce = Some(if (BigInt::one() << k) == v { k } else { k + 1 });
        if k > 2 {
            rec.nt();
        }
    }
    if !v.is_zero() {
        let mut k = 0;
        while v.mod_floor(&(BigInt::one() << (k + 1))).is_zero() {
            k += 1;
        }
        tz = Some(k);
    }
    ensure!(x.floor_log2() == fl, "floor_log2 of {v} is {:?}", x.floor_log2());
    ensure!(x.ceil_log2() == ce, "ceil_log2 of {v} is {:?}", x.ceil_log2());
    ensure!(TrailingZeros::trailing_zeros(&x) == tz, "trailing_zeros of {v} is {:?}", TrailingZeros::trailing_zeros(&x));
    Ok(())
}
fn widths<V: Int + IntegerBits>(w: usize) -> Res {
    ensure!(<V as IntegerBits>::BITS == w && V::of(&BigInt::one()).type_bits() == w, "width of {}", V::NAME);
    Ok(())
}
fn sign_case(s: &mut Src) -> Res {
    let (a, b) = (s.bool(), s.bool());
    let (x, y) = (Sign::from(a), Sign::from(b));
    ensure!((x == Sign::Negative) == a && bool::from(x) == a && bool::from(-x) == !a && bool::from(!x) == !a && bool::from(-&x) == !a && bool::from(!&x) == !a, "sign {a}");
    for (f, g) in forms!(x, y, &, &=) {
        ensure!(bool::from(g) == (a & b), "and [{f}]");
    }
    for (f, g) in forms!(x, y, |, |=) {
        ensure!(bool::from(g) == (a | b), "or [{f}]");
    }
    for (f, g) in forms!(x, y, ^, ^=) {
        ensure!(bool::from(g) == (a ^ b), "xor [{f}]");
    }
    ensure!(x.cmp(&y) == b.cmp(&a) && x.partial_cmp(&y) == Some(b.cmp(&a)), "order of signs");
    let v = s.bigint(90);
    ensure!(Sign::new(&v) == if v.is_zero() { None } else { Some(if v.is_negative() { Sign::Negative } else { Sign::Positive }) }, "sign of {v}");
    ensure!(Sign::new(&f64::NAN).is_none() && Sign::default() == Sign::Positive, "sign of NaN");
    Ok(())
}
fn c17_bits(s: &mut Src, rec: &mut Rec) -> Res {
    sign_case(s)?;
    widths::<i8>(8)?;
    widths::<u8>(8)?;
    widths::<i16>(16)?;
    widths::<u16>(16)?;
    widths::<i32>(32)?;
    widths::<u32>(32)?;
    widths::<i64>(64)?;
    widths::<u64>(64)?;
    widths::<i128>(128)?;
    widths::<u128>(128)?;
    widths::<isize>(std::mem::size_of::<isize>() * 8)?;
    widths::<usize>(std::mem::size_of::<usize>() * 8)?;
    by_type!(s, bits, rec, [i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint])
}
fn main() {
    vcore::run::main(vec![
        Prop {
            id: "C16",
            rule: "modulus above two (division: by a unit; mismatch: moduli that differ)",
            assumptions: &["reference: arbitrary-precision integers with floor reduction", "moduli are positive; modulus zero and inverses modulo one are not claimed", "negative exponents are not claimed"],
            families: vec![fam("ring", 800_000, 4_000_000, c16_ring), fam("division", 600_000, 4_000_000, c16_field), fam("static moduli", 400_000, 2_000_000, c16_static), fam("reduction", 300_000, 3_000_000, c16_reduction), fam("different moduli", 60_000, 600_000, c16_mismatch)],
        },
        Prop {
            id: "C17",
            rule: "primes: beyond 1000; gcd: result other than 0 and 1; exact division: divisor other than 0, 1, -1 and dividend nonzero; bits: more than three bits",
            assumptions: &["reference: deterministic strong-pseudoprime test below 2^64, Euclid and bit arithmetic on arbitrary-precision integers", "results that do not fit the type are not claimed; the gcd of rationals is claimed up to sign"],
            families: vec![fam("primes", 1_500_000, 20_000_000, primes), fam("prime blocks", 60_000, 60_000, prime_blocks), fam("gcd", 1_500_000, 15_000_000, c17_gcd), fam("gcd of rationals", 300_000, 5_000_000, c17_ratio), fam("exact division", 800_000, 8_000_000, c17_exact), fam("bits and signs", 1_000_000, 5_000_000, c17_bits)],
        },
    ])
}
