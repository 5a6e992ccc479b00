//! C09: exp / log / AGM / constants against independent enclosures.
//! C10: history and thread independence of the cached constants, in child processes.
use harness::*;
use num_traits::{One, Signed, Zero};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{Barrier, Mutex};
use vcore::fx::{self, Fx};
use vcore::q;
use vcore::run::{fam, panics, Prop, Rec};
use vcore::{ensure, BigInt, Res, Src, Q};

fn show(i: &Dfi) -> String {
    format!("[{}, {}]/2^{}", i.lower_bound_numer(), i.upper_bound_numer(), i.log2_denom())
}
fn ends(i: &Dfi) -> (Q, Q) {
    (q::dyadic(i.lower_bound_numer(), i.log2_denom()), q::dyadic(i.upper_bound_numer(), i.log2_denom()))
}
/// r encloses [f(lo), f(hi)], the two values given by ever tighter enclosures
fn encloses(r: &Dfi, lo: &dyn Fn(usize) -> Fx, hi: &dyn Fn(usize) -> Fx, k: usize, what: &str) -> Res {
    ensure!(r.lower_bound_numer() <= r.upper_bound_numer(), "{what}: inverted {}", show(r));
    ensure!(r.log2_denom() == k, "{what}: precision {} instead of {k}", r.log2_denom());
    let (a, b) = ends(r);
    let mut w = k + 48;
    for _ in 0..3 {
        let (l, h) = (lo(w), hi(w));
        ensure!(a <= l.hi_q(), "{what}: lower bound of {} above the true value {}", show(r), l.show());
        ensure!(b >= h.lo_q(), "{what}: upper bound of {} below the true value {}", show(r), h.show());
        if a <= l.lo_q() && b >= h.hi_q() {
            return Ok(());
        }
        w = w * 2 + 64;
    }
    // equal to the bound as far as the reference can tell (exact results such as exp 0, log 1)
    Ok(())
}
fn width(r: &Dfi, max: i64, what: &str) -> Res {
    let w = r.upper_bound_numer() - r.lower_bound_numer();
    ensure!(w <= BigInt::from(max), "{what}: {} is {w} units wide", show(r));
    Ok(())
}
fn gen_k(s: &mut Src) -> usize {
    match s.weighted(&[2, 5, 3, 1]) {
        0 => s.usize(0, 2),
        1 => s.usize(0, 30),
        2 => s.usize(0, 80),
        _ => s.usize(0, 220),
    }
}
/// nonnegative slack for the upper bound
fn gen_width(s: &mut Src, k: usize) -> BigInt {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => BigInt::zero(),
        1 => BigInt::from(s.int(0, 8)),
        2 => BigInt::from(s.biguint(k + 2)),
        _ => BigInt::from(s.int(0, 20)) << k,
    }
}
fn exp(s: &mut Src, rec: &mut Rec) -> Res {
    let k = gen_k(s);
    if s.chance(1, 25) {
        return exp_tiny(s, rec, k);
    }
    exp_at(s, rec, k)
}
/// arguments so negative that the value is far below the precision, up to exponents wider than a machine word
fn exp_tiny(s: &mut Src, rec: &mut Rec, k: usize) -> Res {
    let e = match s.below(3) { 0 => s.usize(12, 50), 1 => s.usize(50, 70), _ => s.usize(60, 300) };
    let lo = -((BigInt::one() << (e + k)) + BigInt::from(s.biguint(e + k)));
    let hi = match s.below(3) {
        0 => lo.clone(),
        1 => -(BigInt::one() << (12 + k)) - BigInt::from(s.biguint(k + 12)),
        _ => BigInt::from(s.int(-30, 30)) << k,
    };
    let i = Dfi::new(lo.clone().min(hi.clone()), hi.clone(), k);
    rec.desc = format!("exp {}", show(&i));
    rec.nt();
    rec.label("vanishing");
    let r = if s.bool() { i.exp() } else { i.clone().into_exp() };
    ensure!(r.log2_denom() == k, "exp: precision {} instead of {k}", r.log2_denom());
    // 0 < exp(lower) < 2^-(2^12) < one unit
    ensure!(!r.lower_bound_numer().is_positive(), "exp: lower bound of {} above the true value, which is less than one unit", show(&r));
    let h = ends(&i).1;
    if h < q::qi(&BigInt::from(-4000)) {
        ensure!(r.upper_bound_numer().is_positive(), "exp: upper bound of {} below the true value, which is positive", show(&r));
    } else {
        let v = fx::exp_q(&h, k + 48);
        ensure!(ends(&r).1 >= v.lo_q(), "exp: upper bound of {} below the true value {}", show(&r), v.show());
    }
    if lo == hi {
        width(&r, 4, "exp of a point")?;
    }
    Ok(())
}
/// the same checks at high precision
fn deep(s: &mut Src, rec: &mut Rec) -> Res {
    let k = s.usize(200, 1600);
    match s.below(3) {
        0 => exp_at(s, rec, k),
        1 => log_at(s, rec, 200 + k % 500),
        _ => agm_at(s, rec, k),
    }
}
fn exp_at(s: &mut Src, rec: &mut Rec, k: usize) -> Res {
    let a = match s.weighted(&[3, 3, 2, 2, 2, 1]) {
        4 => {
            let v = BigInt::one() << s.usize(0, k + 4);
            if s.bool() { -v } else { v }
        }
        5 => BigInt::from(s.int(-400, 400)) << k,
        0 => BigInt::from(s.int(-40, 40)) << k,
        1 => s.bigint(k + 5),
        2 => {
            // next to a multiple of ln 2
            let m = s.int(-60, 60);
            let l = fx::ln2(k + 32).mul_int(&m.into()).rescale(k);
            l.lo + s.int(-1, 1)
        }
        _ => BigInt::from(s.int(-20, 20)),
    };
    let b = &a + gen_width(s, k);
    let i = Dfi::new(a, b, k);
    rec.desc = format!("exp {}", show(&i));
    let (lo, hi) = ends(&i);
    if !lo.is_zero() || !hi.is_zero() {
        rec.nt();
    }
    rec.label(if hi.is_negative() { "negative" } else if lo.is_negative() { "straddles zero" } else { "nonnegative" });
    let r = if s.bool() { i.exp() } else { i.clone().into_exp() };
    encloses(&r, &|w| fx::exp_q(&lo, w), &|w| fx::exp_q(&hi, w), k, "exp")?;
    if lo == hi {
        width(&r, 4, "exp of a point")?;
    }
    Ok(())
}
fn log(s: &mut Src, rec: &mut Rec) -> Res {
    let k = gen_k(s);
    log_at(s, rec, k)
}
fn log_at(s: &mut Src, rec: &mut Rec, k: usize) -> Res {
    let a: BigInt = match s.weighted(&[3, 3, 3, 2]) {
        0 => BigInt::from(s.int(1, 60)) << k,
        1 => s.bigint(k + 6).abs(),
        2 => {
            // around 2^n and 3*2^n, where the argument reduction switches
            let c = if s.bool() { 1 } else { 3 };
            let sh = s.usize(0, k + 8);
            (BigInt::from(c) << sh) + s.int(-2, 2)
        }
        _ => BigInt::from(s.int(1, 20)),
    };
    let a = if a.is_positive() { a } else { BigInt::one() };
    let b = &a + gen_width(s, k);
    let i = Dfi::new(a, b, k);
    rec.desc = format!("log {}", show(&i));
    let (lo, hi) = ends(&i);
    if !lo.is_one() || !hi.is_one() {
        rec.nt();
    }
    rec.label(if hi < Q::one() { "below one" } else if lo < Q::one() { "straddles one" } else { "at least one" });
    let r = i.log();
    encloses(&r, &|w| fx::ln_q(&lo, w), &|w| fx::ln_q(&hi, w), k, "log")?;
    if lo == hi {
        width(&r, 4, "log of a point")?;
    }
    if s.chance(1, 20) {
        // outside the domain
        let z = Dfi::new(BigInt::from(s.int(-3, 0)), i.upper_bound_numer().clone(), k);
        ensure!(panics(|| z.log()), "log of {} did not refuse", show(&z));
    }
    Ok(())
}
fn agm(s: &mut Src, rec: &mut Rec) -> Res {
    agm_at(s, rec, 60)
}
fn agm_at(s: &mut Src, rec: &mut Rec, max: usize) -> Res {
    let gen = |s: &mut Src| {
        let k = s.usize(0, max);
        let a = match s.below(4) {
            0 => BigInt::from(s.int(1, 40)) << k,
            1 => s.bigint(k + 6).abs(),
            2 => BigInt::from(s.int(0, 20)),
            _ => (BigInt::one() << s.usize(0, k + 6)) + s.int(0, 1),
        };
        let b = &a + gen_width(s, k);
        Dfi::new(a, b, k)
    };
    let a = gen(s);
    let b = if s.chance(1, 8) { a.clone() } else { gen(s) };
    rec.desc = format!("agm {} {}", show(&a), show(&b));
    let ((al, ah), (bl, bh)) = (ends(&a), ends(&b));
    if al != bl || ah != bh {
        rec.nt();
    }
    let k = a.log2_denom().max(b.log2_denom());
    let r = if s.bool() { a.arithmetic_geometric_mean(&b) } else { a.clone().into_arithmetic_geometric_mean(b.clone()) };
    let f = |x: &Q, y: &Q, w: usize| {
        if x.is_zero() || y.is_zero() {
            Fx { lo: BigInt::zero(), hi: BigInt::zero(), k: w }
        } else {
            fx::agm_q(x, y, w)
        }
    };
    encloses(&r, &|w| f(&al, &bl, w), &|w| f(&ah, &bh, w), k, "arithmetic-geometric mean")?;
    if al == ah && bl == bh && al >= Q::one() && bl >= Q::one() {
        width(&r, 64, "arithmetic-geometric mean of points")?;
    }
    Ok(())
}
fn constants(s: &mut Src, rec: &mut Rec) -> Res {
    let k = match s.weighted(&[40, 60, 40, 1]) {
        0 => s.usize(0, 40),
        1 => s.usize(0, 400),
        2 => s.usize(0, 2000),
        _ => s.usize(2000, 10000),
    };
    rec.desc = format!("constants at {k}");
    rec.nt();
    let r = Dfi::sqrt_2(k);
    ensure!(r.log2_denom() == k, "sqrt_2 precision");
    let two = BigInt::from(2) << (2 * k);
    ensure!(r.lower_bound_numer().pow(2) <= two && r.upper_bound_numer().pow(2) >= two && !r.lower_bound_numer().is_negative(), "sqrt_2({k}) = {}", show(&r));
    width(&r, 4, "sqrt_2")?;
    let r = Dfi::natural_log_of_2(k);
    encloses(&r, &fx::ln2, &fx::ln2, k, "natural_log_of_2")?;
    width(&r, 4, "natural_log_of_2")
}

// ---------------------------------------------------------------- C10
fn run_query(q: &str) -> String {
    let p: Vec<&str> = q.split(' ').collect();
    if p[1].starts_with('[') {
        return std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_algebra(&p))).unwrap_or_else(|_| "panic".into());
    }
    let k: usize = p[1].parse().unwrap();
    let iv = || Dfi::new(p[2].parse().unwrap(), p[3].parse().unwrap(), k);
    let name = p[0].to_string();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match name.as_str() {
        "sqrt2" => Dfi::sqrt_2(k),
        "ln2" => Dfi::natural_log_of_2(k),
        "log" => iv().log(),
        "exp" => iv().exp(),
        _ => unreachable!(),
    }));
    match r {
        Ok(i) => show(&i),
        Err(_) => "panic".into(),
    }
}
/// [c0,c1,...]:lower:upper:k
fn parse_num(t: &str) -> Num {
    let f: Vec<&str> = t.split(':').collect();
    let z: Vec<BigInt> = f[0].trim_matches(&['[', ']'][..]).split(',').map(|c| c.parse().unwrap()).collect();
    Num::new_unchecked(lib_poly(&z), Dfi::new(f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap()))
}
/// a description of the value that does not depend on its representation
fn value_text(n: &Num) -> String {
    let f = (n * Num::from(4096)).to_integer_floor();
    format!("{} near {f}/4096", q::show(&coefs(n.minimal_polynomial())))
}
fn run_algebra(p: &[&str]) -> String {
    let a = parse_num(p[1]);
    let b = || parse_num(p[2]);
    let opt = |v: Option<Num>| v.map_or("none".to_string(), |v| value_text(&v));
    match p[0] {
        "add" => value_text(&(&a + &b())),
        "sub" => value_text(&(&a - &b())),
        "mul" => value_text(&(&a * &b())),
        "div" => value_text(&(&a / &b())),
        "cmp" => format!("{:?} {}", a.cmp(&b()), a == b()),
        "sign" => format!("{:?}", a.cmp_with_zero()),
        "floor" => format!("{} {} {}", a.to_integer_floor(), a.to_integer_ceil(), a.to_integer_trunc()),
        "fract" => value_text(&a.fract()),
        "recip" => opt(a.checked_recip()),
        "square" => opt(a.checked_pow(2)),
        "root" => opt(a.checked_pow((1, 2))),
        "log2" => format!("{:?} {:?}", a.checked_floor_log2(), a.checked_ceil_log2()),
        "factor" => {
            let f = (a.minimal_polynomial() * b().minimal_polynomial()).factor();
            let mut v: Vec<String> = f.polynomial_factors.iter().map(|f| format!("({})^{}", q::show(&coefs(&f.polynomial)), f.power)).collect();
            v.sort();
            format!("{} {v:?}", f.constant_factor)
        }
        _ => unreachable!(),
    }
}
/// roots of small polynomials that resemble one another
fn gen_num(s: &mut Src) -> String {
    loop {
        let sign = |s: &mut Src| if s.bool() { 1 } else { -1i64 };
        if s.chance(1, 4) {
            let z: Vec<BigInt> = vec![(sign(s) * s.int(1, 6)).into(), s.int(0, 4).into(), BigInt::zero(), BigInt::one()];
            if vcore::modp::is_irreducible_q_any(&z) {
                return format!("{}:-8:8:0", q::show(&z));
            }
        } else {
            let (c, b) = (sign(s) * s.int(1, 6), sign(s) * s.int(0, 5));
            let z: Vec<BigInt> = vec![c.into(), b.into(), BigInt::one()];
            if b * b > 4 * c && vcore::modp::is_irreducible_q_any(&z) {
                return if s.bool() { format!("{}:{}:{}:1", q::show(&z), -b, 20) } else { format!("{}:{}:{}:1", q::show(&z), -20, -b) };
            }
        }
    }
}
fn gen_algebra(s: &mut Src, pool: &[String]) -> String {
    let op = *s.pick(&["add", "sub", "mul", "div", "cmp", "cmp", "sign", "floor", "floor", "fract", "recip", "square", "root", "log2", "factor"]);
    match op {
        "add" | "sub" | "mul" | "div" | "cmp" | "factor" => format!("{op} {} {}", s.pick(pool), s.pick(pool)),
        _ => format!("{op} {}", s.pick(pool)),
    }
}
/// child: lines "thread query"; every thread runs its queries in order
fn child() -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let mut txt = String::new();
    std::io::stdin().read_to_string(&mut txt).unwrap();
    let lines: Vec<(usize, &str)> = txt.lines().map(|l| l.split_once(' ').map(|(t, q)| (t.parse().unwrap(), q)).unwrap()).collect();
    let n = lines.iter().map(|l| l.0).max().unwrap_or(0) + 1;
    let out: Mutex<Vec<String>> = Mutex::new(vec![String::new(); lines.len()]);
    let barrier = Barrier::new(n);
    std::thread::scope(|sc| {
        for t in 0..n {
            let (lines, out, barrier) = (&lines, &out, &barrier);
            sc.spawn(move || {
                barrier.wait();
                for (i, l) in lines.iter().enumerate() {
                    if l.0 == t {
                        let r = run_query(l.1);
                        out.lock().unwrap()[i] = r;
                    }
                }
            });
        }
    });
    let o = out.into_inner().unwrap().join("\n");
    std::io::stdout().write_all(o.as_bytes()).unwrap();
    std::process::exit(0)
}
fn spawn(lines: &[(usize, String)]) -> Vec<String> {
    let mut c = Command::new(std::env::current_exe().unwrap()).arg("child").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn child");
    let txt: Vec<String> = lines.iter().map(|(t, q)| format!("{t} {q}")).collect();
    c.stdin.take().unwrap().write_all(txt.join("\n").as_bytes()).unwrap();
    let o = c.wait_with_output().expect("child");
    let mut v: Vec<String> = String::from_utf8(o.stdout).unwrap().split('\n').map(|s| s.to_string()).collect();
    if !o.status.success() {
        v = vec![format!("child ended with {}", o.status); lines.len()];
    }
    v
}
static FRESH: Mutex<Option<HashMap<String, String>>> = Mutex::new(None);
fn fresh(q: &str) -> String {
    if let Some(v) = FRESH.lock().unwrap().get_or_insert_with(HashMap::new).get(q) {
        return v.clone();
    }
    let v = spawn(&[(0, q.to_string())])[0].clone();
    FRESH.lock().unwrap().get_or_insert_with(HashMap::new).insert(q.to_string(), v.clone());
    v
}
fn gen_precision(s: &mut Src) -> usize {
    match s.weighted(&[2, 4, 3, 1]) {
        0 => s.usize(0, 40),
        // near the sizes where a growing cache would switch entries
        1 => {
            let e = s.usize(14, 30); // 2^(e/3)
            let v = (2f64).powf(e as f64 / 3.0) as i64 + s.int(-3, 3);
            v.max(0) as usize
        }
        2 => s.usize(30, 400),
        _ => s.usize(400, 1400),
    }
}
fn gen_query(s: &mut Src, bad: bool) -> String {
    match s.weighted(&[3, 4, 2, 2, if bad { 1 } else { 0 }]) {
        0 => format!("sqrt2 {}", gen_precision(s)),
        1 => format!("ln2 {}", gen_precision(s)),
        2 => {
            let k = gen_precision(s).min(300);
            let a = BigInt::from(s.int(1, 40)) << s.usize(0, k);
            format!("log {k} {a} {a}")
        }
        3 => {
            let k = gen_precision(s).min(300);
            let a = s.bigint(6) << s.usize(0, k);
            let a: BigInt = if a > (BigInt::from(64) << k) { a >> 6 } else { a };
            format!("exp {k} {a} {a}")
        }
        _ => format!("log {} -1 1", s.usize(0, 60)),
    }
}
fn judge(lines: &[(usize, String)], got: &[String]) -> Res {
    ensure!(got.len() == lines.len(), "child returned {} answers for {} queries", got.len(), lines.len());
    for ((_, ql), g) in lines.iter().zip(got) {
        let refused = ql.ends_with(" -1 1");
        ensure!((g == "panic") == refused, "{ql}: {g}");
        let f = fresh(ql);
        ensure!(*g == f, "{ql}: {g} here, {f} in a fresh process");
    }
    Ok(())
}
fn sequence(s: &mut Src, rec: &mut Rec) -> Res {
    let n = s.usize(2, 9);
    let lines: Vec<(usize, String)> = (0..n).map(|_| (0, gen_query(s, true))).collect();
    rec.desc = lines.iter().map(|l| l.1.clone()).collect::<Vec<_>>().join("; ");
    rec.nt();
    if lines.iter().any(|l| l.1.ends_with(" -1 1")) {
        rec.label("with a refused query");
    }
    judge(&lines, &spawn(&lines))
}
fn threads(s: &mut Src, rec: &mut Rec) -> Res {
    let t = s.usize(2, 6);
    let mut lines = vec![];
    let shared = gen_query(s, false);
    for i in 0..t {
        let n = s.usize(1, 4);
        for _ in 0..n {
            lines.push((i, if s.chance(1, 4) { shared.clone() } else { gen_query(s, false) }));
        }
    }
    rec.desc = lines.iter().map(|l| format!("t{} {}", l.0, l.1)).collect::<Vec<_>>().join("; ");
    rec.nt();
    judge(&lines, &spawn(&lines))
}
/// arithmetic with numbers that share parts of their representation, mixed with the constants
fn algebra(s: &mut Src, rec: &mut Rec) -> Res {
    let t = *s.pick(&[1usize, 1, 1, 3]);
    let pool: Vec<String> = (0..s.usize(1, 4)).map(|_| gen_num(s)).collect();
    let lines: Vec<(usize, String)> = (0..s.usize(3, 14)).map(|_| (s.usize(0, t - 1), if s.chance(1, 8) { gen_query(s, false) } else { gen_algebra(s, &pool) })).collect();
    rec.desc = lines.iter().map(|l| format!("t{} {}", l.0, l.1)).collect::<Vec<_>>().join("; ");
    rec.nt();
    judge(&lines, &spawn(&lines))
}
/// descending then ascending sweeps over many precisions in one process
fn sweep(s: &mut Src, rec: &mut Rec) -> Res {
    let c = if s.bool() { "sqrt2" } else { "ln2" };
    let n = s.usize(4, 16);
    let mut ks: Vec<usize> = (0..n).map(|_| gen_precision(s)).collect();
    match s.below(3) {
        0 => ks.sort(),
        1 => { ks.sort(); ks.reverse() }
        _ => {}
    }
    let lines: Vec<(usize, String)> = ks.iter().map(|k| (0, format!("{c} {k}"))).collect();
    rec.desc = format!("{c} {ks:?}");
    rec.nt();
    judge(&lines, &spawn(&lines))
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("child") {
        child();
    }
    vcore::run::main(vec![
        Prop {
            id: "C09",
            rule: "argument other than the exact point (exp 0, log 1); AGM operands that differ; every constant query",
            assumptions: &["reference: Taylor series with explicit remainders (exp by halving, log by atanh, ln 2 by a three-term Machin-like formula)", "precisions up to 220 bits for functions, 2000 for constants; arguments of exp up to about 64 in magnitude"],
            families: vec![fam("exp", 60000, 1_000_000, exp), fam("log", 20000, 300_000, log), fam("agm", 60000, 800_000, agm), fam("constants", 6000, 40_000, constants), fam("deep", 800, 10_000, deep)],
        },
        Prop {
            id: "C10",
            rule: "every case: a history of at least two queries in one process",
            assumptions: &["the reference answer of a query is the answer of a fresh process that runs only that query", "thread schedules are those the operating system produces after a barrier; interleavings are not enumerated"],
            families: vec![fam("sweep", 500, 6000, sweep), fam("sequence", 700, 8000, sequence), fam("threads", 700, 8000, threads), fam("algebra", 1500, 15_000, algebra)],
        },
    ])
}
