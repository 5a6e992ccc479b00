//! C18: lattices and two-dimensional arrays. C19: real quadratic numbers.
//! C20: factorisation over prime fields, subset enumeration.
//! Crate-private code, reached through `--cfg algebraics_verif`.
use algebraics::verif_hooks as h;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rand::SeedableRng;
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::ops::Bound;
use vcore::modp::{self, F64};
use vcore::run::{fam, panics, Prop, Rec};
use vcore::{ensure, BigInt, Ratio, Res, Src, Q};

// ---------------------------------------------------------------- C18
fn dot(a: &[Q], b: &[Q]) -> Q {
    a.iter().zip(b).map(|(x, y)| x * y).fold(Q::zero(), |s, v| s + v)
}
fn to_q(v: &[BigInt]) -> Vec<Q> {
    v.iter().map(|x| Q::from_integer(x.clone())).collect()
}
/// classical orthogonalisation, straight from the definition
fn reference_gs(b: &[Vec<Q>]) -> Vec<Vec<Q>> {
    let mut out: Vec<Vec<Q>> = vec![];
    for v in b {
        let mut r = v.clone();
        for o in &out {
            let d = dot(o, o);
            if d.is_zero() {
                continue;
            }
            let c = dot(v, o) / d;
            for (x, y) in r.iter_mut().zip(o) {
                *x -= &c * y;
            }
        }
        out.push(r);
    }
    out
}
fn gen_basis(s: &mut Src, nx: usize, ny: usize) -> Vec<Vec<BigInt>> {
    let bits = *s.pick(&[2usize, 4, 8, 8, 24, 70]);
    let style = s.usize(0, 4);
    let mut b: Vec<Vec<BigInt>> = (0..nx).map(|_| (0..ny).map(|_| if s.chance(1, 5) { BigInt::zero() } else { s.bigint(bits) }).collect()).collect();
    match style {
        0 => {
            // relation lattice: identity on top of large values
            for (i, v) in b.iter_mut().enumerate() {
                for (j, c) in v.iter_mut().enumerate() {
                    if j + 1 < ny {
                        *c = BigInt::from((i == j) as i32);
                    }
                }
            }
        }
        1 if nx > 1 => {
            // nearly dependent: each vector close to a multiple of the first
            for i in 1..nx {
                let k = s.bigint(20);
                for j in 0..ny {
                    let d = BigInt::from(s.int(-1, 1));
                    b[i][j] = &b[0][j] * &k + d;
                }
            }
        }
        2 if nx > 1 => {
            // exact halves of the projection
            for i in 1..nx {
                if s.bool() {
                    let p = s.usize(0, i - 1);
                    for j in 0..ny {
                        let t: BigInt = &b[p][j] * (2 * s.int(-3, 3) + 1);
                        b[i][j] = if b[p][j].is_even() && t.is_even() { t / 2 } else { t };
                    }
                }
            }
        }
        _ => {}
    }
    b
}
fn show_basis(b: &[Vec<BigInt>]) -> String {
    b.iter().map(|v| format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(" ")
}
fn c18_gs(s: &mut Src, rec: &mut Rec) -> Res {
    let m = if s.chance(1, 20) { 10 } else { 6 };
    let (nx, ny) = (s.usize(0, m), s.usize(0, m));
    let mut b = gen_basis(s, nx, ny);
    if nx > 2 && s.chance(1, 3) {
        // dependent vector in the middle
        let k = BigInt::from(s.int(-3, 3));
        let i = s.usize(1, nx - 1);
        for j in 0..ny {
            b[i][j] = &b[0][j] * &k;
        }
    }
    rec.desc = format!("orthogonalise {}", show_basis(&b));
    let g = h::gram_schmidt(&b, ny);
    let w = reference_gs(&b.iter().map(|v| to_q(v)).collect::<Vec<_>>());
    if w.iter().filter(|v| v.iter().any(|x| !x.is_zero())).count() > 1 {
        rec.nt();
    }
    ensure!(g == w, "orthogonal basis {g:?} want {w:?}");
    for i in 0..nx {
        for j in 0..i {
            ensure!(dot(&g[i], &g[j]).is_zero(), "vectors {i} and {j} are not orthogonal");
        }
    }
    if nx >= 2 {
        let want = b[0].iter().zip(&b[1]).map(|(x, y)| x * y).fold(BigInt::zero(), |a, v| a + v);
        ensure!(h::inner_product(&b[0], &b[1]) == want, "inner product");
    }
    Ok(())
}
/// coordinates of v in the independent vectors b, if v lies in their span
fn coordinates(b: &[Vec<Q>], v: &[Q]) -> Option<Vec<Q>> {
    let n = b.len();
    // normal equations
    let mut m: Vec<Vec<Q>> = (0..n).map(|i| (0..n).map(|j| dot(&b[i], &b[j])).chain(std::iter::once(dot(&b[i], v))).collect()).collect();
    for c in 0..n {
        let p = (c..n).find(|&r| !m[r][c].is_zero())?;
        m.swap(c, p);
        let inv = m[c][c].recip();
        for x in m[c].iter_mut() {
            *x *= &inv;
        }
        for r in 0..n {
            if r != c && !m[r][c].is_zero() {
                let f = m[r][c].clone();
                let row = m[c].clone();
                for (x, y) in m[r].iter_mut().zip(&row) {
                    *x -= &f * y;
                }
            }
        }
    }
    let k: Vec<Q> = m.iter().map(|r| r[n].clone()).collect();
    for y in 0..v.len() {
        let t = (0..n).map(|i| &k[i] * &b[i][y]).fold(Q::zero(), |a, x| a + x);
        if t != v[y] {
            return None;
        }
    }
    Some(k)
}
fn c18_lll(s: &mut Src, rec: &mut Rec) -> Res {
    let nx = s.usize(1, 5);
    let ny = s.usize(nx, 6);
    lll(s, rec, nx, ny)
}
fn c18_lll_large(s: &mut Src, rec: &mut Rec) -> Res {
    let nx = s.usize(6, 9);
    let ny = s.usize(nx, 10);
    lll(s, rec, nx, ny)
}
fn lll(s: &mut Src, rec: &mut Rec, nx: usize, ny: usize) -> Res {
    let b = gen_basis(s, nx, ny);
    let delta = match s.usize(0, 4) {
        0 => Ratio::new(BigInt::from(99), BigInt::from(100)),
        1 => Ratio::new(BigInt::from(26), BigInt::from(100)),
        2 => Ratio::new(BigInt::from(1), BigInt::from(2)),
        _ => Ratio::new(BigInt::from(3), BigInt::from(4)),
    };
    rec.desc = format!("reduce {} with {delta}", show_basis(&b));
    let bq: Vec<Vec<Q>> = b.iter().map(|v| to_q(v)).collect();
    let gs = reference_gs(&bq);
    if gs.iter().any(|v| v.iter().all(|x| x.is_zero())) {
        return Ok(()); // dependent input: not claimed
    }
    let three_quarters = delta == Ratio::new(BigInt::from(3), BigInt::from(4));
    let r = if three_quarters && s.bool() { h::lll_reduce(&b, ny) } else { h::lll_reduce_with_delta(&b, ny, delta.clone()) };
    if r != b {
        rec.nt();
        rec.label("changed");
    }
    ensure!(r.len() == nx && r.iter().all(|v| v.len() == ny), "shape");
    let rq: Vec<Vec<Q>> = r.iter().map(|v| to_q(v)).collect();
    for (i, v) in rq.iter().enumerate() {
        let k = coordinates(&bq, v).ok_or_else(|| format!("output vector {i} leaves the span: {}", show_basis(&r)))?;
        ensure!(k.iter().all(|x| x.is_integer()), "output vector {i} is not in the lattice: {}", show_basis(&r));
    }
    for (i, v) in bq.iter().enumerate() {
        let k = coordinates(&rq, v).ok_or_else(|| format!("the output no longer spans input vector {i}: {}", show_basis(&r)))?;
        ensure!(k.iter().all(|x| x.is_integer()), "input vector {i} is no longer in the lattice: {}", show_basis(&r));
    }
    let g = reference_gs(&rq);
    let half = Ratio::new(BigInt::one(), BigInt::from(2));
    let mu = |i: usize, j: usize| dot(&rq[i], &g[j]) / dot(&g[j], &g[j]);
    for i in 0..nx {
        for j in 0..i {
            ensure!(mu(i, j).abs() <= half, "not size-reduced at {i},{j}: {}", show_basis(&r));
        }
    }
    for k in 1..nx {
        let m = mu(k, k - 1);
        ensure!(dot(&g[k], &g[k]) >= (&delta - &m * &m) * dot(&g[k - 1], &g[k - 1]), "exchange condition fails at {k}: {}", show_basis(&r));
    }
    if three_quarters && b.iter().flatten().all(|x| x.bits() <= 4) && nx <= 3 {
        // fixed-width arithmetic does the same
        let bi: Vec<Vec<i128>> = b.iter().map(|v| v.iter().map(|x| x.to_i128().unwrap()).collect()).collect();
        let ri: Vec<Vec<BigInt>> = h::lll_reduce_i128(&bi, ny).iter().map(|v| v.iter().map(|x| BigInt::from(*x)).collect()).collect();
        ensure!(ri == r, "i128 reduction gives {}", show_basis(&ri));
    }
    Ok(())
}
#[derive(Clone)]
struct Model {
    x: usize,
    y: usize,
    v: Vec<Vec<i64>>,
}
impl Model {
    fn new(x: usize, y: usize, mut f: impl FnMut(usize, usize) -> i64) -> Model {
        Model { x, y, v: (0..x).map(|i| (0..y).map(|j| f(i, j)).collect()).collect() }
    }
    fn agrees(&self, a: &h::Array) -> Res {
        ensure!(a.size() == (self.x, self.y), "size {:?} want {:?}", a.size(), (self.x, self.y));
        ensure!(a.data() == self.v.concat().as_slice(), "contents {:?} want {:?}", a.data(), self.v);
        for x in 0..self.x {
            for y in 0..self.y {
                ensure!(a.get(x, y) == self.v[x][y], "element ({x},{y}) is {}", a.get(x, y));
            }
        }
        Ok(())
    }
    fn sub(&self, x: (usize, usize), y: (usize, usize)) -> Model {
        Model::new(x.1 - x.0, y.1 - y.0, |i, j| self.v[x.0 + i][y.0 + j])
    }
    fn list(&self) -> Vec<((usize, usize), i64)> {
        let mut l = vec![];
        for x in 0..self.x {
            for y in 0..self.y {
                l.push(((x, y), self.v[x][y]));
            }
        }
        l
    }
    fn display(&self, alt: bool) -> String {
        let c = |x: usize, y: usize| self.v[x][y].to_string();
        let w: Vec<usize> = (0..self.x).map(|x| (0..self.y).map(|y| c(x, y).len()).max().unwrap()).collect();
        let sep: String = w.iter().map(|w| format!("+{}", "-".repeat(w + 2))).collect::<String>() + "+";
        let rows: Vec<String> = (0..self.y)
            .map(|y| {
                let cells: Vec<String> = (0..self.x).map(|x| format!(" {:w$} ", c(x, y), w = w[x])).collect();
                if alt { format!("|{}|", cells.join("|")) } else { format!("[{}]", cells.concat()) }
            })
            .collect();
        if alt { format!("{sep}\n{}\n{sep}", rows.join(&format!("\n{sep}\n"))) } else { rows.join("\n") }
    }
}
/// what taking from the two ends of a list must give
fn drive<T: Clone>(l: &[T], ends: &[bool]) -> Vec<(usize, Option<T>)> {
    let mut d: VecDeque<T> = l.iter().cloned().collect();
    ends.iter()
        .map(|&f| {
            let n = d.len();
            (n, if f { d.pop_front() } else { d.pop_back() })
        })
        .collect()
}
fn gen_range(s: &mut Src, n: usize) -> ((Bound<usize>, Bound<usize>), (usize, usize)) {
    let a = s.usize(0, n);
    let b = s.usize(a, n);
    let lo = match s.usize(0, 2) {
        0 if a == 0 => Bound::Unbounded,
        1 if a > 0 => Bound::Excluded(a - 1),
        _ => Bound::Included(a),
    };
    let hi = match s.usize(0, 2) {
        0 if b == n => Bound::Unbounded,
        1 if b > 0 => Bound::Included(b - 1),
        _ => Bound::Excluded(b),
    };
    ((lo, hi), (a, b))
}
fn gen_ends(s: &mut Src, n: usize) -> Vec<bool> {
    let style = s.usize(0, 3);
    let k = s.usize(0, n + 2);
    (0..k).map(|_| match style { 0 => true, 1 => false, _ => s.bool() }).collect()
}
fn c18_array(s: &mut Src, rec: &mut Rec) -> Res {
    let m = if s.chance(1, 15) { 12 } else { 5 };
    let (nx, ny) = (s.usize(0, m), s.usize(0, m));
    let mut next = 0;
    let mut m = Model::new(nx, ny, |_, _| {
        next += 1;
        next
    });
    let mut a = match s.usize(0, 2) {
        0 => h::Array::from_array(nx, ny, m.v.concat()),
        1 => {
            let v = m.v.clone();
            h::Array::new_with_positions(nx, ny, |x, y| v[x][y])
        }
        _ => {
            m = Model::new(nx, ny, |_, _| 7);
            h::Array::new(nx, ny, 7)
        }
    };
    let steps = s.usize(1, 10);
    rec.desc = format!("{nx}x{ny} array:");
    if nx > 1 && ny > 1 {
        rec.nt();
    }
    m.agrees(&a)?;
    for _ in 0..steps {
        let ((xb, xr), (yb, yr)) = (gen_range(s, nx), gen_range(s, ny));
        let sub = m.sub(xr, yr);
        let empty = sub.x == 0 || sub.y == 0;
        let pick = |s: &mut Src, m: &Model| (s.usize(0, m.x - 1), s.usize(0, m.y - 1));
        let (name, r): (&str, Res) = match s.usize(0, 13) {
            0 => ("slice", sub.agrees(&a.slice(xb, yb))),
            1 => ("slice of slice", {
                let ((xb2, xr2), (yb2, yr2)) = (gen_range(s, sub.x), gen_range(s, sub.y));
                sub.sub(xr2, yr2).agrees(&a.slice_slice(xb, yb, xb2, yb2))
            }),
            2 if nx > 0 => ("column", {
                let x = s.usize(0, nx - 1);
                m.sub((x, x + 1), (0, ny)).agrees(&a.slice_column(x))
            }),
            3 if ny > 0 => ("row", {
                let y = s.usize(0, ny - 1);
                m.sub((0, nx), (y, y + 1)).agrees(&a.slice_row(y))
            }),
            4 if !empty => ("element of a slice", {
                let p = pick(s, &sub);
                let g = a.slice_get(xb, yb, p);
                (|| {
                    ensure!(g == sub.v[p.0][p.1], "element {p:?} of slice {xr:?} {yr:?} is {g}");
                    Ok(())
                })()
            }),
            5 if !empty => ("set in a slice", {
                let (p, v) = (pick(s, &sub), s.int(-999, 999));
                a.slice_set(xb, yb, p, v);
                m.v[xr.0 + p.0][yr.0 + p.1] = v;
                Ok(())
            }),
            6 if !empty => ("swap in a slice", {
                let (p, q) = (pick(s, &sub), pick(s, &sub));
                a.slice_swap(xb, yb, p, q);
                let t = m.v[xr.0 + p.0][yr.0 + p.1];
                m.v[xr.0 + p.0][yr.0 + p.1] = m.v[xr.0 + q.0][yr.0 + q.1];
                m.v[xr.0 + q.0][yr.0 + q.1] = t;
                Ok(())
            }),
            7 => ("iterate a slice", {
                let e = gen_ends(s, sub.x * sub.y);
                let (g, w) = (a.slice_iter(xb, yb, &e), drive(&sub.list(), &e));
                (|| {
                    ensure!(g == w, "slice {xr:?} {yr:?} taken {e:?} gives {g:?} want {w:?}");
                    Ok(())
                })()
            }),
            8 => ("iterate a slice mutably", {
                let e = gen_ends(s, sub.x * sub.y);
                let d = s.int(1, 99);
                let (g, w) = (a.slice_iter_mut(xb, yb, &e, d), drive(&sub.list(), &e));
                for ((x, y), _) in w.iter().filter_map(|t| t.1) {
                    m.v[xr.0 + x][yr.0 + y] += d;
                }
                (|| {
                    ensure!(g == w, "mutable slice {xr:?} {yr:?} taken {e:?} gives {g:?} want {w:?}");
                    Ok(())
                })()
            }),
            9 => ("iterators", {
                let e = gen_ends(s, nx * ny);
                let at = m.list();
                let vals: Vec<i64> = at.iter().map(|t| t.1).collect();
                let pos: Vec<(usize, usize)> = at.iter().map(|t| t.0).collect();
                let (g1, g2, g3, g4) = (a.iter(&e), a.clone().into_iter(&e), a.clone().into_iter_with_positions(&e), a.positions(&e));
                let d = s.int(1, 99);
                let g5 = a.iter_mut(&e, d);
                let w5: Vec<_> = drive(&vals, &e).into_iter().map(|(n, v)| (n, v.map(|v| v + d))).collect();
                for ((x, y), _) in drive(&at, &e).iter().filter_map(|t| t.1) {
                    m.v[x][y] += d;
                }
                (|| {
                    ensure!(g1 == drive(&vals, &e), "iter taken {e:?} gives {g1:?}");
                    ensure!(g2 == drive(&vals, &e), "into_iter taken {e:?} gives {g2:?}");
                    ensure!(g3 == drive(&at, &e), "into_iter with positions taken {e:?} gives {g3:?}");
                    ensure!(g4 == drive(&pos, &e), "positions taken {e:?} gives {g4:?}");
                    ensure!(g5 == w5, "iter_mut taken {e:?} gives {g5:?}");
                    ensure!(a.positions_count_and_last() == (pos.len(), pos.last().copied()), "count and last of positions");
                    Ok(())
                })()
            }),
            10 if nx > 0 && ny > 0 => ("display", {
                let alt = s.bool();
                (|| {
                    ensure!(a.display(alt) == m.display(alt), "displays as\n{}", a.display(alt));
                    Ok(())
                })()
            }),
            11 if nx > 0 && ny > 0 => ("set and swap", {
                let (p, q, v) = (pick(s, &m), pick(s, &m), s.int(-99, 99));
                a.set(p.0, p.1, v);
                m.v[p.0][p.1] = v;
                a.swap_elements(p, q);
                let t = m.v[p.0][p.1];
                m.v[p.0][p.1] = m.v[q.0][q.1];
                m.v[q.0][q.1] = t;
                Ok(())
            }),
            12 => ("outside", {
                let (x, y) = if s.bool() { (nx + s.usize(0, 2), s.usize(0, ny + 1)) } else { (s.usize(0, nx + 1), ny + s.usize(0, 2)) };
                (|| {
                    ensure!(panics(|| a.get(x, y)), "element ({x},{y}) exists");
                    ensure!(panics(|| a.slice((Bound::Included(0), Bound::Excluded(nx + 1)), yb)), "slice beyond the columns");
                    ensure!(panics(|| a.slice(xb, (Bound::Included(0), Bound::Included(ny)))), "slice beyond the rows");
                    if nx > 0 {
                        ensure!(panics(|| a.slice((Bound::Included(nx), Bound::Excluded(nx - 1)), yb)), "reversed slice");
                    }
                    Ok(())
                })()
            }),
            _ => ("copy", m.agrees(&a.to_owned_array())),
        };
        rec.desc += &format!(" {name};");
        r.map_err(|e| format!("{name}: {e}"))?;
        m.agrees(&a).map_err(|e| format!("after {name}: {e}"))?;
    }
    ensure!(a.clone().into_data() == m.v.concat(), "into_data");
    Ok(())
}

// ---------------------------------------------------------------- C19
fn sg(v: &BigInt) -> i32 {
    v.is_positive() as i32 - v.is_negative() as i32
}
/// sign of a + b sqrt(x), x >= 0
fn sg2(a: &BigInt, b: &BigInt, x: &BigInt) -> i32 {
    let (p, q) = (sg(a), if x.is_zero() { 0 } else { sg(b) });
    if p == q || q == 0 {
        return p;
    }
    if p == 0 {
        return q;
    }
    // opposite signs: compare squares
    p * sg(&(a * a - b * b * x))
}
/// sign of a + b sqrt(x) + c sqrt(y)
fn sg3(a: &BigInt, b: &BigInt, x: &BigInt, c: &BigInt, y: &BigInt) -> i32 {
    let (l, r) = (sg2(a, b, x), if y.is_zero() { 0 } else { -sg(c) });
    if l != r {
        return (l - r).signum();
    }
    if l == 0 {
        return 0;
    }
    l * sg2(&(a * a + b * b * x - c * c * y), &(a * b * 2), x)
}
/// (p + s sqrt(r)) / q with q > 0
#[derive(Clone, Debug)]
struct Surd {
    p: BigInt,
    s: BigInt,
    r: BigInt,
    q: BigInt,
}
impl Surd {
    fn of(a: &BigInt, b: &BigInt, c: &BigInt) -> Option<Surd> {
        if a.is_zero() {
            if b.is_zero() {
                return None;
            }
            let g = sg(b);
            return Some(Surd { p: -c * g, s: BigInt::zero(), r: BigInt::zero(), q: b.abs() });
        }
        let d: BigInt = b * b - a * c * 4;
        if d.is_negative() {
            return None;
        }
        let g = sg(a);
        Some(Surd { p: -b * g, s: g.into(), r: d, q: a.abs() * 2 })
    }
    fn rat(v: &Q) -> Surd {
        Surd { p: v.numer().clone(), s: BigInt::zero(), r: BigInt::zero(), q: v.denom().clone() }
    }
    fn cmp(&self, o: &Surd) -> Ordering {
        sg3(&(&self.p * &o.q - &o.p * &self.q), &(&self.s * &o.q), &self.r, &(-&o.s * &self.q), &o.r).cmp(&0)
    }
    fn neg(&self) -> Surd {
        Surd { p: -&self.p, s: -&self.s, r: self.r.clone(), q: self.q.clone() }
    }
    fn add(&self, v: &Q) -> Surd {
        Surd { p: &self.p * v.denom() + &self.q * v.numer(), s: &self.s * v.denom(), r: self.r.clone(), q: &self.q * v.denom() }
    }
    fn sign(&self) -> i32 {
        sg2(&self.p, &self.s, &self.r)
    }
    /// the value if rational
    fn to_q(&self) -> Option<Q> {
        let t = self.r.sqrt();
        if &t * &t == self.r || self.s.is_zero() {
            Some(Ratio::new(&self.p + &self.s * t, self.q.clone()))
        } else {
            None
        }
    }
}
/// the stored number is the value, in the one canonical form
fn canonical(n: &h::Quadratic, v: &Surd, what: &str) -> Res {
    let (a, b, c) = n.terms();
    let g = a.gcd(&b).gcd(&c);
    match v.to_q() {
        Some(q) => {
            ensure!(a.is_zero() && b == *q.denom() && -&c == *q.numer(), "{what}: the rational {q} is stored as {a} {b} {c}");
            ensure!(n.is_ratio() && n.to_ratio() == Some(q.clone()) && n.is_integer() == q.is_integer() && n.to_integer() == if q.is_integer() { Some(q.to_integer()) } else { None }, "{what}: rational tests on {q}");
        }
        None => {
            let w = Surd::of(&a, &b, &c).ok_or_else(|| format!("{what}: stored {a} {b} {c} has no real root"))?;
            ensure!(w.cmp(v) == Ordering::Equal && w.to_q().is_none() && g.is_one(), "{what}: {v:?} is stored as {a} {b} {c}");
            ensure!(!n.is_ratio() && !n.is_integer() && n.to_ratio().is_none() && n.to_integer().is_none(), "{what}: irrational number claims to be rational");
        }
    }
    ensure!(n.is_positive() == (v.sign() > 0) && n.is_negative() == (v.sign() < 0) && n.is_zero() == (v.sign() == 0), "{what}: sign of {v:?}");
    ensure!(n.is_one() == (v.to_q() == Some(Q::one())), "{what}: is_one");
    Ok(())
}
fn gen_terms(s: &mut Src) -> (BigInt, BigInt, BigInt) {
    match s.weighted(&[4, 2, 3, 2, 2]) {
        0 => (s.int(-9, 9).into(), s.int(-9, 9).into(), s.int(-9, 9).into()),
        1 => {
            let b = if s.chance(1, 8) { 300 } else { 70 };
            (s.bigint(b), s.bigint(b), s.bigint(b))
        }
        2 => {
            // (p + q sqrt d) / r over few radicands
            let (p, q, r) = (BigInt::from(s.int(-20, 20)), BigInt::from(s.int(-6, 6)), BigInt::from(s.int(1, 9)));
            let d = *s.pick(&[2, 3, 5, 6, 7, 8, 12, 4]);
            let g: BigInt = if s.bool() { BigInt::one() } else { -BigInt::one() };
            (&r * &r * &g, &p * &r * -2 * &g, (&p * &p - &q * &q * d) * g)
        }
        3 => {
            // rational roots
            let (a, b, c, d) = (BigInt::from(s.int(-12, 12)), BigInt::from(s.int(-12, 12)), BigInt::from(s.int(-12, 12)), BigInt::from(s.int(-12, 12)));
            (&a * &c, &a * &d + &b * &c, b * d)
        }
        _ => (BigInt::zero(), s.bigint(40), s.bigint(40)),
    }
}
/// a polynomial whose root is close to the given one
fn gen_near(s: &mut Src, t: &(BigInt, BigInt, BigInt)) -> (BigInt, BigInt, BigInt) {
    let (a, b, c) = t.clone();
    match s.usize(0, 4) {
        0 => (-a, -b, -c),
        1 => (-a, b, -c), // negated value
        2 => {
            let k = BigInt::from(s.int(1, 50));
            (a * &k, b * &k, c * k)
        }
        3 => {
            // shifted by an integer
            let k = BigInt::from(s.int(-3, 3));
            (a.clone(), &b - &a * &k * 2, &a * &k * &k - &b * &k + c)
        }
        _ => {
            let k = BigInt::one() << s.usize(1, 60);
            (a * &k + s.int(-2, 2), b * &k + s.int(-2, 2), c * k + s.int(-2, 2))
        }
    }
}
fn gen_pair(s: &mut Src) -> ((BigInt, BigInt, BigInt), (BigInt, BigInt, BigInt)) {
    let t = gen_terms(s);
    let u = if s.bool() { gen_near(s, &t) } else { gen_terms(s) };
    (t, u)
}
fn show3(t: &(BigInt, BigInt, BigInt)) -> String {
    format!("{}x^2+{}x+{}", t.0, t.1, t.2)
}
fn make(t: &(BigInt, BigInt, BigInt)) -> Result<Option<(h::Quadratic, Surd)>, String> {
    let n = h::Quadratic::new(t.0.clone(), t.1.clone(), t.2.clone());
    let v = Surd::of(&t.0, &t.1, &t.2);
    ensure!(n.is_some() == v.is_some(), "construction from {} gives {n:?}", show3(t));
    if let (Some(n), Some(v)) = (n, v) {
        canonical(&n, &v, "construction")?;
        Ok(Some((n, v)))
    } else {
        Ok(None)
    }
}
fn c19_pairs(s: &mut Src, rec: &mut Rec) -> Res {
    let (t, u) = gen_pair(s);
    rec.desc = format!("{} and {}", show3(&t), show3(&u));
    let (x, y) = (make(&t)?, make(&u)?);
    let ((n, v), (m, w)) = match (x, y) {
        (Some(x), Some(y)) => (x, y),
        _ => return Ok(()),
    };
    let o = v.cmp(&w);
    if v.to_q().is_none() && w.to_q().is_none() {
        rec.nt();
        rec.label(match (v.s.is_negative(), w.s.is_negative()) {
            (false, false) => "++",
            (false, true) => "+-",
            (true, false) => "-+",
            (true, true) => "--",
        });
    }
    ensure!(n.cmp(&m) == o && m.cmp(&n) == o.reverse(), "compares {:?} want {o:?}", n.cmp(&m));
    ensure!((n == m) == (o == Ordering::Equal), "equality is {}", n == m);
    canonical(&n.neg(), &v.neg(), "negation")?;
    canonical(&n.abs(), &if v.sign() < 0 { v.neg() } else { v.clone() }, "absolute value")?;
    canonical(&n.signum(), &Surd::rat(&Q::from_integer(v.sign().into())), "sign as a number")?;
    Ok(())
}
fn c19_rational(s: &mut Src, rec: &mut Rec) -> Res {
    let t = gen_terms(s);
    let (n, v) = match make(&t)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let q: Q = match s.usize(0, 4) {
        0 => s.small_ratio(30, 12),
        1 => s.ratio(60),
        2 => {
            // vertex of the parabola
            if t.0.is_zero() { Q::zero() } else { Ratio::new(-&t.1, &t.0 * 2) }
        }
        3 => {
            // just below or above
            let k = if s.chance(1, 8) { s.usize(60, 300) } else { s.usize(0, 60) };
            let f = (&v.p * (BigInt::one() << k) + &v.s * (&v.r << (2 * k)).sqrt()).div_floor(&v.q);
            Ratio::new(f + s.int(-1, 2), BigInt::one() << k)
        }
        _ => v.to_q().unwrap_or_else(|| Q::from_integer(s.int(-5, 5).into())),
    };
    rec.desc = format!("{} and {q}", show3(&t));
    if v.to_q().is_none() {
        rec.nt();
    }
    let o = v.cmp(&Surd::rat(&q));
    ensure!(n.cmp_ratio(&q) == Some(o) && n.ratio_cmp(&q) == Some(o.reverse()), "compares {:?} with {q}", n.cmp_ratio(&q));
    let ops = n.ratio_operators(&q);
    ensure!(ops == [o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater, o != Ordering::Less, o == Ordering::Equal], "operators against {q}: {ops:?}");
    let ops = n.ratio_operators_left(&q);
    ensure!(ops == [o == Ordering::Greater, o != Ordering::Less, o == Ordering::Less, o != Ordering::Greater, o == Ordering::Equal], "operators with {q} on the left: {ops:?}");
    let c = h::Quadratic::constants();
    for (c, w) in c.iter().zip([0, 0, 1]) {
        canonical(c, &Surd::rat(&Q::from_integer(w.into())), "constant")?;
    }
    // floating point: accurate relative to the terms of the quadratic formula
    let f = n.to_f64().ok_or("no floating-point value")?;
    let f = Q::from_float(f).ok_or("floating-point value is not finite")?;
    let slack = Ratio::new(v.p.abs() + v.s.abs() * (v.r.sqrt() + 1u32), v.q.clone()) / Q::from_integer(BigInt::one() << 45);
    ensure!(v.cmp(&Surd::rat(&(&f - &slack))) != Ordering::Less && v.cmp(&Surd::rat(&(&f + &slack))) != Ordering::Greater, "to_f64 gives {f}");
    let r = h::Quadratic::from_ratio(q.clone());
    canonical(&r, &Surd::rat(&q), "from a ratio")?;
    ensure!(n.cmp(&r) == o && r.cmp(&n) == o.reverse(), "compares {:?} with the number {q}", n.cmp(&r));
    canonical(&n.checked_add(&r).ok_or("sum refused")?, &v.add(&q), "sum")?;
    canonical(&r.checked_add(&n).ok_or("sum refused")?, &v.add(&q), "sum from the left")?;
    canonical(&n.checked_sub(&r).ok_or("difference refused")?, &v.add(&-&q), "difference")?;
    canonical(&r.checked_sub(&n).ok_or("difference refused")?, &v.neg().add(&q), "difference from the left")?;
    match h::Quadratic::from_ratio_checked(t.2.clone(), t.1.clone()) {
        None => ensure!(t.1.is_zero(), "ratio refused"),
        Some(r) => {
            ensure!(!t.1.is_zero(), "ratio with denominator zero");
            canonical(&r, &Surd::rat(&Ratio::new(t.2.clone(), t.1.clone())), "ratio")?;
        }
    }
    canonical(&h::Quadratic::from_integer(t.1.clone()), &Surd::rat(&Q::from_integer(t.1.clone())), "integer")?;
    match r.checked_recip() {
        None => ensure!(q.is_zero(), "reciprocal of {q} refused"),
        Some(x) => {
            ensure!(!q.is_zero(), "reciprocal of zero");
            canonical(&x, &Surd::rat(&q.recip()), "reciprocal")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20
const PRIMES: [u64; 26] = [2, 3, 3, 3, 5, 5, 7, 7, 11, 13, 17, 19, 23, 31, 43, 61, 97, 101, 127, 257, 1009, 32749, 46337, 65521, 1_000_003, 2_147_483_647];
fn gen_irreducible(s: &mut Src, f: &F64, d: usize) -> Option<Vec<u64>> {
    for _ in 0..60 {
        let mut p: Vec<u64> = (0..d).map(|_| s.below(f.0)).collect();
        p.push(1);
        if modp::is_irreducible(f, &p) {
            return Some(p);
        }
    }
    None
}
fn ints(p: &[u64]) -> Vec<i32> {
    p.iter().map(|c| *c as i32).collect()
}
fn c20_distinct(s: &mut Src, rec: &mut Rec) -> Res {
    let p = *s.pick(&PRIMES);
    let f = F64(p);
    let max = if s.chance(1, 20) { s.usize(15, 28) } else { *s.pick(&[3usize, 6, 10, 14]) };
    let mut parts: Vec<Vec<u64>> = vec![];
    let mut total = 0;
    for _ in 0..s.usize(0, 7) {
        let d = if s.chance(1, 2) { s.usize(1, 3) } else { s.usize(1, max) };
        if total + d > max {
            continue;
        }
        if let Some(q) = gen_irreducible(s, &f, d) {
            if !parts.contains(&q) {
                total += d;
                parts.push(q);
            }
        }
    }
    let lead = 1 + s.below(p - 1);
    let mut poly = vec![lead];
    for q in &parts {
        poly = modp::mul(&f, &poly, q);
    }
    rec.desc = format!("{:?} modulo {p}", ints(&poly));
    if parts.len() > 1 {
        rec.nt();
    }
    let g = h::distinct_degree_factorization(&ints(&poly), p as i32);
    ensure!(g.first() == Some(&vec![lead as i32]), "first factor is not the leading coefficient: {g:?}");
    let deg = parts.iter().map(|q| q.len() - 1).max().unwrap_or(0);
    ensure!(g.len() == deg + 1, "{} factors: {g:?}", g.len());
    for d in 1..=deg {
        let mut w = vec![1];
        for q in parts.iter().filter(|q| q.len() == d + 1) {
            w = modp::mul(&f, &w, q);
        }
        ensure!(g[d] == ints(&w), "degree {d}: {:?} want {:?}", g[d], ints(&w));
    }
    Ok(())
}
fn c20_same(s: &mut Src, rec: &mut Rec) -> Res {
    let p = *s.pick(&PRIMES[1..]);
    let f = F64(p);
    let (d, k) = if s.chance(1, 12) {
        let d = s.usize(1, 8);
        (d, s.usize(1, (24 / d).min(12)))
    } else {
        let d = s.usize(1, 4);
        (d, s.usize(1, (12 / d).min(6)))
    };
    let mut parts: Vec<Vec<u64>> = vec![];
    for _ in 0..k + 2 {
        if parts.len() == k {
            break;
        }
        if let Some(q) = gen_irreducible(s, &f, d) {
            if !parts.contains(&q) {
                parts.push(q);
            }
        }
    }
    if parts.is_empty() {
        parts.push(vec![0, 1]);
    }
    let d = parts[0].len() - 1;
    let mut poly = vec![1];
    for q in &parts {
        poly = modp::mul(&f, &poly, q);
    }
    let seed = s.raw();
    rec.desc = format!("{:?} modulo {p}, factors of degree {d}, generator seed {seed}", ints(&poly));
    if parts.len() > 1 {
        rec.nt();
    }
    let mut rng = rand_pcg::Pcg64Mcg::seed_from_u64(seed);
    let mut g = h::same_degree_factorization(&ints(&poly), p as i32, d, &mut rng);
    let mut w: Vec<Vec<i32>> = parts.iter().map(|q| ints(q)).collect();
    g.sort();
    w.sort();
    ensure!(g == w, "factors {g:?} want {w:?}");
    Ok(())
}
fn c20_subsets(s: &mut Src, rec: &mut Rec) -> Res {
    let n = if s.chance(1, 20) { s.usize(10, 13) } else { s.usize(1, 9) };
    let start = if s.chance(1, 10) { s.usize(0, 300) } else { s.usize(0, 5) };
    let k = s.usize(0, n + 2);
    let mut want: Vec<Vec<usize>> = vec![];
    for mask in 0u32..1 << n {
        if mask.count_ones() as usize == k {
            want.push((0..n).filter(|i| mask >> i & 1 == 1).map(|i| i + start).collect());
        }
    }
    want.sort();
    let limit = if s.bool() { usize::MAX } else { s.usize(1, want.len() + 1) };
    rec.desc = format!("subsets of size {k} of {start}..{}, at most {limit}", start + n);
    if k > 1 && n > k {
        rec.nt();
    }
    let stop = limit <= want.len();
    want.truncate(limit);
    let (g, stopped) = h::subsets_of_size(k, start..start + n, limit);
    ensure!(g == want && stopped == stop, "visited {g:?} (stopped: {stopped}) want {want:?}");
    Ok(())
}
// ---------------------------------------------------------------- C22
/// the nearest quotient, ties towards zero, and its remainder
fn nearest_ref(a: &BigInt, b: &BigInt, signed: bool) -> (BigInt, BigInt) {
    let q = if signed {
        let (n, d) = (a.abs(), b.abs());
        // ceil(n / d - 1/2)
        let two = BigInt::from(2);
        let m = (&n * &two - &d).div_ceil(&(&d * &two));
        if a.is_negative() != b.is_negative() { -m } else { m }
    } else {
        a.div_floor(b)
    };
    let r = a - &q * b;
    (q, r)
}
fn pick(s: &mut Src, min: &BigInt, max: &BigInt) -> BigInt {
    let v = match s.weighted(&[3, 2, 2, 3]) {
        0 => BigInt::from(s.int(-20, 20)),
        1 => max - BigInt::from(s.int(0, 6)),
        2 => min + BigInt::from(s.int(0, 6)),
        _ => {
            let b = max.bits() as usize;
            s.bigint(b)
        }
    };
    v.clamp(min.clone(), max.clone())
}
fn c22_operands(s: &mut Src, min: &BigInt, max: &BigInt) -> (BigInt, BigInt) {
    let b = pick(s, min, max);
    let a = if s.chance(1, 2) && !b.is_zero() {
        // near a half-way point
        let k = BigInt::from(s.int(-4, 4));
        ((&b * k + &b / 2i32) + BigInt::from(s.int(-1, 1))).clamp(min.clone(), max.clone())
    } else {
        pick(s, min, max)
    };
    (a, b)
}
fn c22_one<T: h::NearestDivision + PartialEq + std::fmt::Debug>(a: &BigInt, b: &BigInt, signed: bool, fits: impl Fn(&BigInt) -> bool, lib: impl Fn(&BigInt) -> T, rec: &mut Rec) -> Res {
    rec.desc = format!("{a} / {b}, {}", std::any::type_name::<T>());
    let (la, lb) = (lib(a), lib(b));
    let got = la.checked_nearest(&lb);
    if b.is_zero() {
        ensure!(got.is_none(), "{a} / 0 gives {got:?}");
        return Ok(());
    }
    let (q, r) = nearest_ref(a, b, signed);
    if !fits(&q) {
        rec.label("overflow");
        ensure!(got.is_none(), "overflow gives {got:?}");
        return Ok(());
    }
    if !r.is_zero() && !q.is_zero() {
        rec.nt();
    }
    if (&r * 2i32).abs() == b.abs() {
        rec.label("half-way");
    }
    let want = (lib(&q), lib(&r));
    ensure!(got.as_ref() == Some(&want), "checked_div_rem_nearest {got:?}, should be {want:?}");
    ensure!(la.nearest(&lb) == want, "div_rem_nearest {:?}, should be {want:?}", la.nearest(&lb));
    Ok(())
}
fn c22_fixed(s: &mut Src, rec: &mut Rec) -> Res {
    macro_rules! go {
        ($t:ty, $signed:expr) => {{
            let (min, max) = (BigInt::from(<$t>::MIN), BigInt::from(<$t>::MAX));
            let (a, b) = c22_operands(s, &min, &max);
            let fits = |v: &BigInt| *v >= min && *v <= max;
            c22_one::<$t>(&a, &b, $signed, fits, |v| <$t>::try_from(v).expect("fits"), rec)
        }};
    }
    match s.below(12) {
        0 => go!(i8, true),
        1 => go!(i16, true),
        2 => go!(i32, true),
        3 => go!(i64, true),
        4 => go!(i128, true),
        5 => go!(isize, true),
        6 => go!(u8, false),
        7 => go!(u16, false),
        8 => go!(u32, false),
        9 => go!(u64, false),
        10 => go!(u128, false),
        _ => go!(usize, false),
    }
}
fn c22_big(s: &mut Src, rec: &mut Rec) -> Res {
    let k = s.int(3, 200) as usize;
    let m = BigInt::one() << k;
    match s.below(3) {
        0 => {
            let (a, b) = c22_operands(s, &-&m, &m);
            c22_one::<BigInt>(&a, &b, true, |_| true, |v| v.clone(), rec)
        }
        1 => {
            let (a, b) = c22_operands(s, &BigInt::zero(), &m);
            c22_one::<num_bigint::BigUint>(&a, &b, false, |_| true, |v| v.to_biguint().expect("not negative"), rec)
        }
        _ => {
            let mut f = |s: &mut Src| {
                let n = pick(s, &-&m, &m);
                let d = pick(s, &BigInt::one(), &m);
                Q::new(n, d)
            };
            let (a, b) = (f(s), f(s));
            rec.desc = format!("{a} / {b}, rational");
            let got = h::NearestDivision::checked_nearest(&a, &b);
            if b.is_zero() {
                ensure!(got.is_none(), "{a} / 0 gives {got:?}");
            } else {
                rec.nt();
                ensure!(got == Some((&a / &b, Q::zero())), "rational quotient {got:?}");
            }
            Ok(())
        }
    }
}

fn main() {
    vcore::run::main(vec![
        Prop {
            id: "C22",
            rule: "a nonzero quotient and a nonzero remainder (integers); a nonzero divisor (rationals)",
            assumptions: &["reference: rounding of the exact quotient over arbitrary-precision integers"],
            families: vec![fam("fixed", 2_000_000, 30_000_000, c22_fixed), fam("big", 1_000_000, 10_000_000, c22_big)],
        },
        Prop {
            id: "C18",
            rule: "reduction that changes the basis; two or more independent vectors to orthogonalise; arrays with several rows and columns",
            assumptions: &["reference: classical orthogonalisation and normal equations over exact rationals; a vector-of-vectors model of the array", "reduction parameter between 1/4 and 1, linearly independent input"],
            families: vec![fam("reduction", 40_000, 200_000, c18_lll), fam("reduction_large", 1500, 15_000, c18_lll_large), fam("orthogonalisation", 100_000, 300_000, c18_gs), fam("arrays", 500_000, 2_000_000, c18_array)],
        },
        Prop {
            id: "C19",
            rule: "irrational operands",
            assumptions: &["reference: sign of a + b*sqrt(x) + c*sqrt(y) by squaring, over arbitrary-precision integers", "operations that are unimplemented (sum of two irrational numbers, products, quotients) are not claimed"],
            families: vec![fam("pairs", 2_000_000, 20_000_000, c19_pairs), fam("rationals", 1_000_000, 12_000_000, c19_rational)],
        },
        Prop {
            id: "C20",
            rule: "two or more irreducible factors; subsets of at least two of more elements",
            assumptions: &["inputs are products of distinct irreducibles found by an independent irreducibility test", "equal-degree splitting needs an odd prime"],
            families: vec![fam("distinct degree", 120_000, 400_000, c20_distinct), fam("equal degree", 150_000, 400_000, c20_same), fam("subsets", 30_000, 200_000, c20_subsets)],
        },
    ])
}
