//! C22 (array algebra), C23 (conjugate gradient), C24 (power iteration), C28 (diagnostics).
use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::la::*;
use ellalgo_rs::arr::{self, Arr};
use ellalgo_rs::conjugate_gradient::conjugate_gradient;
use ellalgo_rs::cutting_plane::CutStatus;
use ellalgo_rs::error::EllipsoidError;
use ellalgo_rs::power_iteration as pi;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C22
fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 4.0 * f64::EPSILON * a.abs().max(b.abs()) || (a.is_nan() && b.is_nan())
}
fn same(what: &str, got: &Arr, rows: usize, cols: usize, want: &[f64]) -> Result<(), String> {
    ensure!(got.rows() == rows && got.cols() == cols, "{what}: shape {}x{}, expected {rows}x{cols}", got.rows(), got.cols());
    ensure!(got.size() == want.len() && got.len() == want.len() && got.data().len() == want.len(), "{what}: {} elements, expected {}", got.size(), want.len());
    ensure!(got.is_2d() == (cols > 0) && got.is_empty() == want.is_empty(), "{what}: wrong shape predicates");
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        ensure!(close(*a, *b), "{what}: element {i} is {a}, expected {b}");
    }
    Ok(())
}
fn val() -> BoxedStrategy<f64> {
    prop_oneof![5 => coord(8), 2 => scale(6.0), 2 => scale(6.0).prop_map(|x| -x), 1 => Just(-0.0)].boxed()
}
/// shape (rows, cols; cols = 0 for a vector) and contents of two equally sized operands and a scalar
fn pair() -> BoxedStrategy<(usize, usize, V, V, f64)> {
    prop_oneof![(0usize..=12, Just(0usize)), (0usize..=6, 1usize..=6)]
        .prop_flat_map(|(r, c)| {
            let n = if c == 0 { r } else { r * c };
            (Just(r), Just(c), vec(val(), n), vec(val(), n), val())
        })
        .boxed()
}
fn mk(r: usize, c: usize, v: &[f64]) -> Arr {
    if c == 0 { Arr::from(v.to_vec()) } else { Arr::from_shape_vec(r, c, v.to_vec()) }
}
fn rejects<T>(what: &str, f: impl FnOnce() -> T) -> Result<(), String> {
    match guarded(f) {
        Ok(_) => Err(format!("{what}: mismatched operands were accepted")),
        Err(_) => Ok(()),
    }
}
fn elementwise((r, c, x, y, s): &(usize, usize, V, V, f64)) -> R {
    let (r, c, s) = (*r, *c, *s);
    let a = mk(r, c, x);
    let b = mk(r, c, y);
    let z = |f: &dyn Fn(f64, f64) -> f64| -> V { x.iter().zip(y).map(|(p, q)| f(*p, *q)).collect() };
    let m = |f: &dyn Fn(f64) -> f64| -> V { x.iter().map(|p| f(*p)).collect() };
    same("&a + &b", &(&a + &b), r, c, &z(&|p, q| p + q))?;
    same("&a - &b", &(&a - &b), r, c, &z(&|p, q| p - q))?;
    same("&a * &b", &(&a * &b), r, c, &z(&|p, q| p * q))?;
    same("a + &b", &(a.clone() + &b), r, c, &z(&|p, q| p + q))?;
    same("a - &b", &(a.clone() - &b), r, c, &z(&|p, q| p - q))?;
    same("a * &b", &(a.clone() * &b), r, c, &z(&|p, q| p * q))?;
    same("&a * s", &(&a * s), r, c, &m(&|p| p * s))?;
    same("a * s", &(a.clone() * s), r, c, &m(&|p| p * s))?;
    same("s * &a", &(s * &a), r, c, &m(&|p| p * s))?;
    same("s * a", &(s * a.clone()), r, c, &m(&|p| p * s))?;
    if s != 0.0 {
        same("&a / s", &(&a / s), r, c, &m(&|p| p / s))?;
        same("a / s", &(a.clone() / s), r, c, &m(&|p| p / s))?;
        let mut t = a.clone();
        t /= s;
        same("a /= s", &t, r, c, &m(&|p| p / s))?;
    }
    same("-a", &(-a.clone()), r, c, &m(&|p| -p))?;
    same("-&a", &(-&a), r, c, &m(&|p| -p))?;
    let mut t = a.clone();
    t += s;
    same("a += s", &t, r, c, &m(&|p| p + s))?;
    let mut t = a.clone();
    t -= s;
    same("a -= s", &t, r, c, &m(&|p| p - s))?;
    let mut t = a.clone();
    t *= s;
    same("a *= s", &t, r, c, &m(&|p| p * s))?;
    let mut t = a.clone();
    t += &b;
    same("a += &b", &t, r, c, &z(&|p, q| p + q))?;
    let mut t = a.clone();
    t -= &b;
    same("a -= &b", &t, r, c, &z(&|p, q| p - q))?;
    let mut t = a.clone();
    t.copy_from(&b);
    same("copy_from", &t, r, c, y)?;
    if !x.is_empty() {
        // contents of an equally large array of another shape: the target keeps its own
        let mut t = a.clone();
        t.copy_from(&if c == 0 { Arr::from_shape_vec(1, r, y.clone()) } else if c != r { Arr::from_shape_vec(c, r, y.clone()) } else { Arr::from(y.clone()) });
        same("copy_from (other shape)", &t, r, c, y)?;
    }
    same("map", &a.map(|p| p * 2.0 + 1.0), r, c, &m(&|p| p * 2.0 + 1.0))?;
    let mut order = vec![];
    let _ = a.map(|p| { order.push(p); p });
    ensure!(order.len() == x.len(), "map calls its function {} times for {} elements", order.len(), x.len());
    same("exp", &arr::exp(&(&a * 1e-3)), r, c, &m(&|p| (p * 1e-3).exp()))?; // may overflow to infinity on both sides
    same("cos", &arr::cos(&a), r, c, &m(&|p| p.cos()))?;
    same("abs", &arr::abs(&a), r, c, &m(&|p| p.abs()))?;
    let pos = a.map(|p| p.abs() + 0.25);
    same("sqrt", &arr::sqrt(&pos), r, c, &m(&|p| (p.abs() + 0.25).sqrt()))?;
    same("ln", &arr::ln(&pos), r, c, &m(&|p| (p.abs() + 0.25).ln()))?;
    same("make_same_shape", &arr::make_same_shape(&a), r, c, &vec![0.0; x.len()])?;
    let want: f64 = x.iter().sum();
    let mag: f64 = x.iter().map(|t| t.abs()).sum();
    ensure!((a.sum() - want).abs() <= 1e-13 * mag, "sum is {}, expected {want}", a.sum());
    // operands untouched, equality is shape and contents
    same("operand a", &a, r, c, x)?;
    same("operand b", &b, r, c, y)?;
    ensure!(a == a.clone(), "a clone is not equal");
    ensure!((a == b) == (x == y), "equality of same-shaped arrays disagrees with their contents");
    if !x.is_empty() {
        let other = if c == 0 { Arr::from_shape_vec(1, r, x.clone()) } else { Arr::from(x.clone()) };
        ensure!(a != other, "arrays of different shape compare equal");
        let mut t = a.clone();
        let k = x.len() / 2;
        t[k] += 1.0 + t[k].abs();
        ensure!(a != t, "arrays with a different element compare equal");
        ensure!(a[k] == x[k], "changing a clone changed the original");
    }
    ok_if(x.len() >= 2)
}
fn products((r, c, u, v, d, s): &(usize, usize, V, V, V, f64)) -> R {
    let (r, c, s) = (*r, *c, *s);
    let m = Arr::from_shape_vec(r, c, d[..r * c].to_vec());
    let x = Arr::from(v[..c].to_vec());
    let mx = m.dot_mv(&x);
    ensure!(mx.len() == r && !mx.is_2d() && mx.rows() == r, "dot_mv has shape {}x{}", mx.rows(), mx.cols());
    for i in 0..r {
        let row = &d[i * c..(i + 1) * c];
        let want = dot(row, &v[..c]);
        let mag: f64 = row.iter().zip(v).map(|(p, q)| (p * q).abs()).sum();
        ensure!((mx[i] - want).abs() <= 1e-13 * mag, "dot_mv element {i} is {}, expected {want}", mx[i]);
    }
    let y = Arr::from(u[..c].to_vec());
    let mag: f64 = u[..c].iter().zip(v).map(|(p, q)| (p * q).abs()).sum();
    ensure!((x.dot(&y) - dot(&u[..c], &v[..c])).abs() <= 1e-13 * mag, "dot is {}", x.dot(&y));
    let o = Arr::from(u[..r].to_vec()).outer(&x);
    same("outer", &o, r, c, &(0..r * c).map(|k| u[k / c] * v[k % c]).collect::<V>())?;
    // symmetric rank-one update
    let mut a = Arr::zeros(c, c);
    for i in 0..c { for j in 0..=i { a.set(i, j, d[i * c + j]); a.set(j, i, d[i * c + j]); } }
    let before = a.clone();
    a.rank_one_update(s, &x);
    ensure!(a.rows() == c && a.cols() == c, "rank_one_update changed the shape");
    for i in 0..c {
        for j in 0..c {
            let t = s * v[i] * v[j];
            ensure!((a.get(i, j) - (before.get(i, j) + t)).abs() <= 1e-14 * (before.get(i, j).abs() + t.abs()), "rank_one_update ({i},{j}) is {}, expected {} + {t}", a.get(i, j), before.get(i, j));
            ensure!(a.get(i, j) == a.get(j, i), "rank_one_update result is not symmetric at ({i},{j})");
        }
    }
    same("operand x", &x, c, 0, &v[..c])?;
    same("operand m", &m, r, c, &d[..r * c])?;
    ok_if(r >= 2 && c >= 2)
}
fn large_pair() -> BoxedStrategy<(usize, usize, V, V, f64)> {
    let wide = || prop_oneof![4 => val(), 2 => scale(150.0), 1 => scale(150.0).prop_map(|x| -x)];
    prop_oneof![(13usize..=600, Just(0usize)), (1usize..=24, 1usize..=24), (1usize..=3, 40usize..=200), (40usize..=200, 1usize..=3)]
        .prop_flat_map(move |(r, c)| {
            let n = if c == 0 { r } else { r * c };
            (Just(r), Just(c), vec(wide(), n), vec(wide(), n), prop_oneof![2 => val(), 1 => scale(150.0)])
        })
        .boxed()
}
pub fn c22(ctx: &mut Ctx) {
    ctx.assumptions.push("matrices have at least one column (a column count of zero denotes a vector); element magnitudes 1e-6..1e6 (element by element: 1e-150..1e150)".into());
    ctx.sub("elementwise", "vectors and matrices of any size incl. empty; all ownership forms of +,-,*,/ and negation, scalar and array operands, maps and reductions against a flat model; non-trivial: at least two elements", 8000, 300000, pair, elementwise);
    ctx.sub("elementwise-large", "the same with up to 600 elements and magnitudes 1e-150..1e150; non-trivial: more than 64 elements", 400, 20000, large_pair, |p| { elementwise(p)?; ok_if(p.2.len() > 64) });
    ctx.sub("constructors", "constructors, element access in every form, rows, ranges; non-trivial: at least two elements", 8000, 200000, || (0usize..=9, 1usize..=7, val(), val(), 0usize..=9, vec(val(), 63), -20i32..20, 0i32..30), |(r, c, s, e, n, d, i0, di)| {
        let (r, c, s, e, n) = (*r, *c, *s, *e, *n);
        same("new", &Arr::new(n), n, 0, &vec![0.0; n])?;
        same("ones", &Arr::ones(n), n, 0, &vec![1.0; n])?;
        same("zeros", &Arr::zeros(r, c), r, c, &vec![0.0; r * c])?;
        same("full", &Arr::full(r, c, s), r, c, &vec![s; r * c])?;
        same("from", &Arr::from(d[..n].to_vec()), n, 0, &d[..n])?;
        same("From<Vec>", &<Arr as From<Vec<f64>>>::from(d[..n].to_vec()), n, 0, &d[..n])?;
        same("From<&[f64]>", &<Arr as From<&[f64]>>::from(&d[..n]), n, 0, &d[..n])?;
        same("from_fn", &Arr::from_fn(n, |i| d[i] + i as f64), n, 0, &(0..n).map(|i| d[i] + i as f64).collect::<V>())?;
        let mut calls = vec![];
        let _ = Arr::from_fn(n, |i| { calls.push(i); 0.0 });
        ensure!(calls == (0..n).collect::<Vec<_>>(), "from_fn evaluates indices {calls:?}");
        let eye: V = (0..n * n).map(|k| if k / n == k % n { 1.0 } else { 0.0 }).collect();
        same("eye", &Arr::eye(n), n, n, &eye)?;
        let dg: V = (0..n * n).map(|k| if k / n == k % n { d[k / n] } else { 0.0 }).collect();
        same("from_diag", &Arr::from_diag(&Arr::from(d[..n].to_vec())), n, n, &dg)?;
        let m = Arr::from_shape_vec(r, c, d[..r * c].to_vec());
        same("from_shape_vec", &m, r, c, &d[..r * c])?;
        let mut m2 = Arr::with_data(d[..r * c].to_vec(), r, c);
        same("with_data", &m2, r, c, &d[..r * c])?;
        for i in 0..r {
            same("row", &m.row(i), c, 0, &d[i * c..(i + 1) * c])?;
            for j in 0..c {
                let w = d[i * c + j];
                ensure!(m.get(i, j) == w && m.at(i, j) == w && m[(i, j)] == w && m[i * c + j] == w && m.data()[i * c + j] == w, "element access ({i},{j}) does not give {w}");
                m2.set(i, j, w + 1.0);
                ensure!(m2[(i, j)] == w + 1.0, "set");
                *m2.at_mut(i, j) = w + 2.0;
                ensure!(m2.get(i, j) == w + 2.0, "at_mut");
                m2[(i, j)] = w + 3.0;
                ensure!(m2.get(i, j) == w + 3.0, "index_mut 2d");
                m2[i * c + j] = w + 4.0;
                ensure!(m2.get(i, j) == w + 4.0, "index_mut 1d");
                m2.data_mut()[i * c + j] = w + 5.0;
                ensure!(m2.get(i, j) == w + 5.0, "data_mut");
                // exactly one element changed so far per step
                for k in 0..r * c {
                    let want = if k <= i * c + j { d[k] + 5.0 } else { d[k] };
                    ensure!(m2[k] == want, "writing ({i},{j}) disturbed element {k}");
                }
            }
        }
        for t in m2.iter_mut() { *t *= 2.0 }
        same("iter_mut", &m2, r, c, &d[..r * c].iter().map(|t| (t + 5.0) * 2.0).collect::<V>())?;
        rejects("from_shape_vec", || Arr::from_shape_vec(r, c, d[..r * c + 1].to_vec()))?;
        rejects("with_data", || Arr::with_data(d[..r * c + 1].to_vec(), r, c))?;
        rejects("row out of range", || m.row(r))?;
        rejects("row of a vector", || Arr::from(d[..n + 1].to_vec()).row(0))?;
        rejects("from_diag of a matrix", || Arr::from_diag(&m))?;
        // ranges
        let l = arr::linspace(s, e, n);
        let want: V = (0..n).map(|i| if n == 1 { s } else { s + (e - s) * i as f64 / (n - 1) as f64 }).collect();
        ensure!(l.len() == n && !l.is_2d(), "linspace has {} elements, expected {n}", l.len());
        for i in 0..n {
            ensure!((l[i] - want[i]).abs() <= 1e-13 * (s.abs() + e.abs()), "linspace({s},{e},{n})[{i}] = {}, expected {}", l[i], want[i]);
        }
        let st = *i0 as f64 / 4.0;
        let g = arr::arange(st, st + *di as f64);
        same("arange", &g, *di as usize, 0, &(0..*di).map(|k| st + k as f64).collect::<V>())?;
        ensure!(arr::arange(st, st - *di as f64).is_empty(), "arange with end <= start is not empty");
        ok_if(n >= 2 && r * c >= 2)
    });
    ctx.sub("products", "dot, matrix-vector, outer product and symmetric rank-one update against sums of products; non-trivial: at least 2x2", 8000, 200000, || (0usize..=7, 1usize..=7, vec(val(), 7), vec(val(), 7), vec(val(), 49), val()), products);
    ctx.sub("products-large", "the same up to 48x48; non-trivial: more than 16 rows and columns", 400, 20000, || (1usize..=48, 1usize..=48, vec(val(), 48), vec(val(), 48), vec(val(), 48 * 48), val()), |p| { products(p)?; ok_if(p.0 > 16 && p.1 > 16) });
    ctx.sub("mismatch", "operands of different sizes or of the wrong kind must be rejected (panic) by every two-operand operation and leave an in-place target unchanged; non-trivial: always", 6000, 100000, || (1usize..=6, 1usize..=6, 1usize..=5, 1usize..=5, vec(val(), 72)), |(n, k, r, c, d)| {
        let (n, k, r, c) = (*n, *k, *r, *c);
        let x = Arr::from(d[..n].to_vec());
        let y = Arr::from(d[..n + k].to_vec());
        let m = Arr::from_shape_vec(r, c, d[..r * c].to_vec());
        let m2 = Arr::from_shape_vec(r + k, c, d[..(r + k) * c].to_vec());
        for (a, b) in [(&x, &y), (&y, &x), (&m, &m2), (&m2, &m)] {
            rejects("&a + &b", || a + b)?;
            rejects("&a - &b", || a - b)?;
            rejects("&a * &b", || a * b)?;
            rejects("a + &b", || a.clone() + b)?;
            rejects("a - &b", || a.clone() - b)?;
            rejects("a * &b", || a.clone() * b)?;
            let mut t = a.clone();
            rejects("a += &b", || t += b)?;
            rejects("a -= &b", || t -= b)?;
            rejects("copy_from", || t.copy_from(b))?;
            ensure!(&t == a, "a rejected in-place operation modified its target");
            ensure!(a != b, "arrays of different size compare equal");
        }
        rejects("dot", || x.dot(&y))?;
        rejects("dot with a matrix", || x.dot(&m))?;
        rejects("matrix dot", || m.dot(&m))?;
        let bad = Arr::from(d[..c + k].to_vec());
        rejects("dot_mv size", || m.dot_mv(&bad))?;
        let short = Arr::from(d[..c - 1].to_vec());
        rejects("dot_mv short", || m.dot_mv(&short))?;
        rejects("dot_mv of a vector", || x.dot_mv(&x))?;
        rejects("dot_mv with a matrix", || m.dot_mv(&m))?;
        let m1c = Arr::from_shape_vec(1, c, d[..c].to_vec());
        let mc1 = Arr::from_shape_vec(c, 1, d[..c].to_vec());
        let vc = Arr::from(d[..c].to_vec());
        for (w, t) in [("row", &m1c), ("column", &mc1)] {
            rejects(&format!("dot_mv with a {w} matrix"), || m.dot_mv(t))?;
            rejects(&format!("dot with a {w} matrix"), || vc.dot(t))?;
            rejects(&format!("dot of a {w} matrix"), || t.dot(&vc))?;
            rejects(&format!("outer of a {w} matrix"), || t.outer(&vc))?;
            rejects(&format!("outer with a {w} matrix"), || vc.outer(t))?;
            rejects(&format!("from_diag of a {w} matrix"), || Arr::from_diag(t))?;
            let mut e = Arr::eye(c);
            rejects(&format!("rank_one_update with a {w} matrix"), || e.rank_one_update(2.0, t))?;
            ensure!(e == Arr::eye(c), "a rejected rank_one_update modified its target");
        }
        for i in [r, r + 1, r + k] { rejects("row out of range", || m.row(i))?; }
        rejects("outer of a matrix", || m.outer(&x))?;
        rejects("outer with a matrix", || x.outer(&m))?;
        let mut sq = Arr::eye(r);
        let u = Arr::from(d[..r + k].to_vec());
        rejects("rank_one_update size", || sq.rank_one_update(1.0, &u))?;
        ensure!(sq == Arr::eye(r), "a rejected rank_one_update modified its target");
        let mut v = x.clone();
        rejects("rank_one_update of a vector", || v.rank_one_update(1.0, &x))?;
        let mut rect = Arr::from_shape_vec(r, r + k, d[..r * (r + k)].to_vec());
        let ur = Arr::from(d[..r].to_vec());
        rejects("rank_one_update of a non-square matrix", || rect.rank_one_update(1.0, &ur))?;
        let mut tall = Arr::from_shape_vec(r + k, r, d[..r * (r + k)].to_vec());
        rejects("rank_one_update of a tall matrix", || tall.rank_one_update(1.0, &u))?;
        rejects("index", || x[n])?;
        rejects("index past the end", || m[(r, 0)])?;
        ok()
    });
}

// ---------------------------------------------------------------- C23
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sys {
    d: V,
    hv: Vec<V>,
    b: V,
    x0: Option<V>,
    scale: f64,
}
fn sys(maxcond: f64, singular: bool) -> BoxedStrategy<Sys> {
    prop_oneof![9 => 1usize..=8, 1 => 9usize..=40]
        .prop_flat_map(move |n| {
            let ev = prop_oneof![4 => (1.0 / maxcond)..1.0f64, 2 => Just(1.0), 1 => Just(0.5)];
            let ev = if singular { prop_oneof![3 => ev, 1 => Just(0.0)].boxed() } else { ev.boxed() };
            (vec(ev, n), vec(vec(coord(1), n), 0..=2), vec(coord(5), n), prop::option::weighted(0.6, vec(coord(5), n)), prop_oneof![3 => scale(2.0), 1 => scale(9.0)], prop_oneof![2 => Just(1.0), 1 => scale(9.0)])
        })
        // exactly singular matrices stay diagonal: a rotated zero eigenvalue would only be zero up to rounding
        .prop_map(move |(d, hv, b, x0, scale, unit)| Sys { d, hv: if singular { vec![] } else { hv }, b: scl(unit * scale, &b), x0: x0.map(|v| scl(unit, &v)), scale })
        .boxed()
}
impl Sys {
    fn a(&self) -> Mat {
        sym_from(self.d.len(), &self.d, &self.hv).scale(self.scale)
    }
}
fn resid(a: &Mat, x: &[f64], b: &[f64]) -> f64 {
    norm(&sub(b, &a.mv(x)))
}
/// textbook CG; residual norms after 0, 1, ... iterations
fn cg_ref(a: &Mat, b: &[f64], x0: &[f64], k: usize) -> V {
    let mut x = x0.to_vec();
    let mut r = sub(b, &a.mv(&x));
    let mut p = r.clone();
    let mut rr = dot(&r, &r);
    let mut out = vec![rr.sqrt()];
    for _ in 0..k {
        let ap = a.mv(&p);
        let pap = dot(&p, &ap);
        if pap <= 0.0 { break }
        let al = rr / pap;
        x = axpy(&x, al, &p);
        r = axpy(&r, -al, &ap);
        let rn = dot(&r, &r);
        out.push(rn.sqrt());
        p = axpy(&r, rn / rr, &p);
        rr = rn;
    }
    out
}
pub fn c23(ctx: &mut Ctx) {
    ctx.assumptions.push("condition number up to 100 for the must-converge claims; residual drift allowance 1e-12 |A||x|".into());
    let run = |s: &Sys, tol: f64, it: usize| -> Result<Result<V, String>, String> {
        let a = s.a();
        let n = s.d.len();
        let (aa, bb) = (arr2(&a), arr(&s.b));
        let x0 = s.x0.as_ref().map(|v| arr(v));
        let r = conjugate_gradient(&aa, &bb, x0.as_ref(), tol, it);
        let r2 = conjugate_gradient(&aa, &bb, x0.as_ref(), tol, it);
        ensure!(r.is_ok() == r2.is_ok() && r.as_ref().ok().map(vecof) == r2.as_ref().ok().map(vecof), "the same call gives different answers");
        ensure!(vecof(&aa) == a.a && vecof(&bb) == s.b && x0.map(|v| vecof(&v)) == s.x0, "inputs were modified");
        if let Ok(x) = &r {
            let x = vecof(x);
            ensure!(x.len() == n && finite(&x), "returned vector {x:?}");
            let res = resid(&a, &x, &s.b);
            let start = s.x0.as_ref().map(|v| norm(v)).unwrap_or(0.0);
            ensure!(res < tol * (1.0 + 1e-6) + 1e-12 * (a.maxabs() * n as f64 * (norm(&x) + start) + norm(&s.b)), "accepted a vector with residual {res}, tolerance {tol}");
        }
        Ok(r.map(|x| vecof(&x)).map_err(|e| e.to_string()))
    };
    ctx.sub("converges", "positive-definite systems with planted spectrum, with or without a starting guess, limit far above the dimension; must be solved; non-trivial: dimension at least two and a nonzero residual at the start", 8000, 200000, || (sys(100.0, false), -10i32..=0), move |(s, te)| {
        let n = s.d.len();
        let a = s.a();
        let nb = norm(&s.b) + s.x0.as_ref().map(|v| norm(v) * a.maxabs() * n as f64).unwrap_or(0.0);
        let tol = 10f64.powi(*te) * if nb > 0.0 { nb } else { 1e-3 };
        let r = run(s, tol, 60 * n + 60)?;
        let x = r.map_err(|e| format!("did not converge to {tol} in {} iterations: {e}", 60 * n + 60))?;
        // and the answer is the solution: error <= residual / smallest eigenvalue
        let l = chol(&a).ok_or("generator")?;
        let xs = bsolve(&l, &fsolve(&l, &s.b));
        let lmin = s.d.iter().cloned().fold(f64::INFINITY, f64::min) * s.scale;
        let err = norm(&sub(&x, &xs));
        ensure!(err <= (tol * 1.01 + 1e-11 * nb) / lmin, "error {err} for tolerance {tol}");
        ok_if(n >= 2 && resid(&a, s.x0.as_deref().unwrap_or(&vec![0.0; n]), &s.b) > tol)
    });
    ctx.sub("limit", "the same with an iteration limit around the number textbook CG needs; converged reference residual means a vector, unconverged means an error; non-trivial: the limit is decisive", 8000, 200000, || (sys(100.0, false), -8i32..=0, 0usize..=10), move |(s, te, lim)| {
        let n = s.d.len();
        let a = s.a();
        let nb = norm(&s.b) + s.x0.as_ref().map(|v| norm(v) * a.maxabs() * n as f64).unwrap_or(0.0);
        let tol = 10f64.powi(*te) * if nb > 0.0 { nb } else { 1e-3 };
        let h = cg_ref(&a, &s.b, s.x0.as_deref().unwrap_or(&vec![0.0; n]), *lim);
        let r = run(s, tol, *lim)?;
        let best = h.iter().cloned().fold(f64::INFINITY, f64::min);
        if best < 0.5 * tol { ensure!(r.is_ok(), "reference CG reaches residual {best} within {lim} iterations, tolerance {tol}, but an error was returned"); }
        if best > 2.0 * tol { ensure!(r.is_err(), "a vector was returned although {lim} iterations only reach residual {best} (tolerance {tol})"); }
        ok_l(h.len() > 1, vec![if r.is_ok() { "ok".into() } else { "err".into() }])
    });
    ctx.sub("ill-conditioned", "spectra spread geometrically over up to nine decades, dimension up to 24: whenever textbook CG reaches a tenth of the tolerance in K iterations, a limit of 20 K + 200 must be enough; non-trivial: K exceeds the dimension", 3000, 60000, || {
        (2usize..=24).prop_flat_map(|n| (vec(0.0f64..1.0, n), 1.0f64..9.0, vec(vec(coord(1), n), 1..=2), vec(coord(5), n), prop::option::weighted(0.3, vec(coord(5), n)), scale(3.0), -9i32..=-3))
    }, move |(u, dec, hv, b, x0, sc, te)| {
        let n = u.len();
        let s = Sys { d: u.iter().map(|t| 10f64.powf(-dec * t)).collect(), hv: hv.clone(), b: b.clone(), x0: x0.clone(), scale: *sc };
        let a = s.a();
        let nb = norm(&s.b) + s.x0.as_ref().map(|v| norm(v) * a.maxabs() * n as f64).unwrap_or(0.0);
        if nb == 0.0 { return ok_if(false) }
        let tol = 10f64.powi(*te) * nb;
        let h = cg_ref(&a, &s.b, s.x0.as_deref().unwrap_or(&vec![0.0; n]), 1500);
        let Some(k) = h.iter().position(|r| *r < 0.1 * tol) else { return ok_if(false) };
        let lim = 20 * k + 200;
        let r = conjugate_gradient(&arr2(&a), &arr(&s.b), s.x0.as_ref().map(|v| arr(v)).as_ref(), tol, lim);
        let x = vecof(&r.map_err(|e| format!("textbook CG needs {k} iterations for a tenth of the tolerance {tol}, but with a limit of {lim}: {e}"))?);
        let res = resid(&a, &x, &s.b);
        let start = s.x0.as_ref().map(|v| norm(v)).unwrap_or(0.0);
        ensure!(finite(&x) && res < tol * (1.0 + 1e-6) + 1e-11 * (a.maxabs() * n as f64 * (norm(&x) + start) + norm(&s.b)), "accepted a vector with residual {res}, tolerance {tol}");
        ok_if(k > n)
    });
    ctx.sub("exact-guess", "the starting guess is the exact solution (integer data); must be returned, even with a zero limit; non-trivial: nonzero solution", 3000, 60000, || (1usize..=6).prop_flat_map(|n| (vec(-4i32..=4, n * n), vec(-5i32..=5, n), 0usize..=5)), |(b, x, lim)| {
        let n = x.len();
        let bm = Mat::from_vec(n, n, b.iter().map(|t| *t as f64).collect());
        let mut a = bm.t().mul(&bm);
        for i in 0..n { let v = a.at(i, i) + 1.0; a.set(i, i, v) }
        let xv: V = x.iter().map(|t| *t as f64).collect();
        let rhs = a.mv(&xv);
        let x0 = arr(&xv);
        let r = conjugate_gradient(&arr2(&a), &arr(&rhs), Some(&x0), 1e-6, *lim).map_err(|e| format!("rejected an exact starting guess: {e}"))?;
        ensure!(vecof(&r) == xv, "moved away from the exact starting guess to {:?}", vecof(&r));
        // zero right-hand side, no guess: the zero vector
        let z = conjugate_gradient(&arr2(&a), &Arr::new(n), None, 1e-6, *lim).map_err(|e| format!("rejected a zero right-hand side: {e}"))?;
        ensure!(vecof(&z).iter().all(|t| *t == 0.0), "zero right-hand side gives {:?}", vecof(&z));
        ok_if(norm(&xv) > 0.0)
    });
    ctx.sub("singular", "singular diagonal positive-semidefinite (possibly zero) matrices: whatever is returned as a vector must have a residual below tolerance; an inconsistent system must give an error; non-trivial: singular matrix", 5000, 100000, || (sys(100.0, true), -8i32..=0, 0usize..=40), move |(s, te, lim)| {
        let n = s.d.len();
        let tol = 10f64.powi(*te) * norm(&s.b).max(1e-3 * s.scale);
        let r = run(s, tol, *lim)?;
        // residual can never fall below the component of b in the null space
        let q = householder(n, &s.hv);
        let nul: f64 = (0..n).filter(|&k| s.d[k] == 0.0).map(|k| (0..n).map(|i| q.at(i, k) * s.b[i]).sum::<f64>().powi(2)).sum::<f64>().sqrt();
        if nul > 2.0 * tol { ensure!(r.is_err(), "a vector was returned for an inconsistent system (distance {nul}, tolerance {tol})"); }
        ok_l(s.d.contains(&0.0), vec![if r.is_ok() { "ok".into() } else { "err".into() }])
    });
}

// ---------------------------------------------------------------- C24
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    d: V, // relative spectrum, d[0] dominant
    hv: Vec<V>,
    scale: f64,
    neg: bool,
    x0: V, // spectral coordinates of the start
    xs: f64,
}
fn spec() -> BoxedStrategy<Spec> {
    prop_oneof![9 => 1usize..=7, 1 => 8usize..=32]
        .prop_flat_map(|n| {
            (
                prop_oneof![2 => vec(0.05f64..0.9, n), 2 => vec(prop_oneof![0.05f64..0.9, -0.9f64..-0.05], n), 1 => vec(0.8f64..0.9, n)],
                vec(vec(coord(1), n), 0..=2),
                prop_oneof![6 => scale(2.0), 2 => scale(9.0), 1 => scale(36.0)],
                any::<bool>(),
                vec(coord(1), n),
                prop_oneof![2 => Just(1.0), 1 => scale(10.0)],
            )
        })
        .prop_map(|(mut d, hv, scale, neg, mut x0, xs)| {
            d[0] = 1.0;
            if x0[0].abs() < 0.1 { x0[0] = 0.1 }
            Spec { d, hv, scale, neg, x0, xs }
        })
        .boxed()
}
type Pi = fn(&Arr, &mut Arr, &pi::Options) -> (f64, usize);
const VARIANTS: [(&str, Pi, bool); 4] = [
    ("power_iteration", pi::power_iteration, false),
    ("power_iteration2", pi::power_iteration2, true),
    ("power_iteration3", pi::power_iteration3, true),
    ("power_iteration4", pi::power_iteration4, false),
];
impl Spec {
    fn build(&self) -> (Mat, V, V, f64) {
        let n = self.d.len();
        let q = householder(n, &self.hv);
        let s = if self.neg { -self.scale } else { self.scale };
        let d: V = self.d.iter().map(|t| t * s).collect();
        let a = spectral(&q, &d);
        let x: V = (0..n).map(|i| self.xs * (0..n).map(|k| q.at(i, k) * self.x0[k]).sum::<f64>()).collect();
        let v1: V = (0..n).map(|i| q.at(i, 0)).collect();
        (a, x, v1, s)
    }
}
fn after(name: &str, a: &Mat, x: &[f64], lam: f64, it: usize, lim: usize, scale: f64) -> Result<(), String> {
    ensure!(finite(x) && lam.is_finite(), "{name}: not finite: eigenvalue {lam}, vector {x:?}");
    ensure!((norm(x) - 1.0).abs() <= 1e-9, "{name}: the vector left behind has length {}", norm(x));
    let rq = dot(x, &a.mv(x));
    ensure!((rq - lam).abs() <= 1e-9 * scale.abs(), "{name}: returned {lam}, the Rayleigh quotient of the vector left behind is {rq}");
    ensure!(it <= lim, "{name}: reports {it} iterations, limit {lim}");
    Ok(())
}
pub fn c24(ctx: &mut Ctx) {
    ctx.assumptions.push("dominance ratio at most 0.9, start component along the dominant eigenvector at least a tenth of the largest coordinate, matrix magnitudes 1e-36..1e36".into());
    ctx.sub("dominant", "symmetric matrices with planted spectrum (both signs, mixed signs, any scale), all four variants; eigenvalue and eigenvector must be the planted ones; non-trivial: dimension at least two", 5000, 120000, || (spec(), -12i32..=-8), |(s, te)| {
        let n = s.d.len();
        let (a, x, v1, lam1) = s.build();
        let rel = 10f64.powi(*te);
        for (name, f, by_value) in VARIANTS {
            let tol = if by_value { rel * s.scale } else { rel };
            if by_value {
                // the value-based criterion may stop early where the Rayleigh quotient happens to stand still: skip those starts
                let mut c: V = s.x0.iter().map(|t| t * t).collect();
                let mut prev = f64::NAN;
                let mut stall = false;
                for _ in 0..400 {
                    let num: f64 = c.iter().zip(&s.d).map(|(p, l)| p * l).sum();
                    let den: f64 = c.iter().sum();
                    let rq = num / den;
                    if (rq - prev).abs() <= 100.0 * rel && (rq - 1.0).abs() > 1e-7 { stall = true; break }
                    prev = rq;
                    for (p, l) in c.iter_mut().zip(&s.d) { *p *= l * l }
                }
                if stall { continue }
            }
            let mut y = arr(&x);
            let lim = 2000;
            let (lam, it) = f(&arr2(&a), &mut y, &pi::Options { max_iters: lim, tolerance: tol });
            let y = vecof(&y);
            after(name, &a, &y, lam, it, lim, lam1)?;
            ensure!((lam - lam1).abs() <= 1e-6 * lam1.abs(), "{name}: eigenvalue {lam}, the dominant one is {lam1}");
            let al = dot(&y, &v1).abs();
            ensure!(al >= 1.0 - 1e-5, "{name}: the vector left behind is not the dominant eigenvector (alignment {al})");
        }
        ok_if(n >= 2)
    });
    ctx.sub("limit", "arbitrary limits from zero up (any nonsingular symmetric matrix): unit vector, Rayleigh quotient and count are consistent whether or not the run converged; non-trivial: the limit stopped some variant", 6000, 150000, || (spec(), 0usize..=40, prop_oneof![1 => Just(0.0), 3 => (-12i32..=-1).prop_map(|e| 10f64.powi(e))]), |(s, lim, tol)| {
        let (a, x, _, lam1) = s.build();
        let mut hit = false;
        let mut lab = vec![];
        for (name, f, by_value) in VARIANTS {
            let mut y = arr(&x);
            let (lam, it) = f(&arr2(&a), &mut y, &pi::Options { max_iters: *lim, tolerance: if by_value { tol * s.scale } else { *tol } });
            after(name, &a, &vecof(&y), lam, it, *lim, lam1)?;
            hit |= it == *lim;
            lab.push(format!("{name}-{}", if it == *lim { "limit" } else { "converged" }));
        }
        ok_l(hit, lab)
    });
    ctx.sub("iterates", "reference sequence A^k x in spectral coordinates: each variant stops at the first iterate whose change (vector variants: L1 norm of the step up to sign; value variants: Rayleigh quotient) is within tolerance, and leaves exactly that iterate, normalised; non-trivial: at least two iterations and dimension at least two", 6000, 150000, || (spec(), 0usize..=60, prop_oneof![1 => Just(-1.0), 4 => (0.5f64..10.0).prop_map(|e| 10f64.powf(-e))]), |(s, lim, tol)| {
        let n = s.d.len();
        let (a, x, _, lam1) = s.build();
        let q = householder(n, &s.hv);
        let sg = if s.neg { -1.0 } else { 1.0 };
        // normalised iterates 0..=lim+1 and their Rayleigh quotients relative to the scale
        let mut c = s.x0.clone();
        let mut its: Vec<(V, f64)> = vec![];
        for _ in 0..=lim + 1 {
            let l = norm(&c);
            c = scl(1.0 / l, &c);
            its.push((q.mv(&c), sg * c.iter().zip(&s.d).map(|(p, d)| p * p * d).sum::<f64>()));
            for (p, d) in c.iter_mut().zip(&s.d) { *p *= d * sg }
        }
        let l1 = |v: &[f64]| v.iter().map(|t| t.abs()).sum::<f64>();
        let mut nt = false;
        let mut lab = vec![];
        for (name, f, by_value) in VARIANTS {
            let mut y = arr(&x);
            let (lam, it) = f(&arr2(&a), &mut y, &pi::Options { max_iters: *lim, tolerance: if by_value { tol * s.scale } else { *tol } });
            let y = vecof(&y);
            after(name, &a, &y, lam, it, *lim, lam1)?;
            // change at iterate k (1-based)
            let change = |k: usize| -> f64 {
                if by_value { return (its[k].1 - its[k - 1].1).abs() }
                let (u, v) = (&its[k - 1].0, &its[k].0);
                let (u, v) = if name == "power_iteration4" { (scl(1.0 / l1(u), u), scl(1.0 / l1(v), v)) } else { (u.clone(), v.clone()) };
                l1(&sub(&u, &v)).min(l1(&axpy(&u, 1.0, &v)))
            };
            let slack = 1e-6 * tol.abs() + 1e-12;
            for k in 1..=it {
                ensure!(change(k) > tol - slack, "{name}: went on to iteration {} although iterate {k} changed by only {} (tolerance {tol})", it + 1, change(k));
            }
            let last = if it < *lim {
                ensure!(change(it + 1) <= tol + slack, "{name}: stopped after iterate {} which changed by {} (tolerance {tol})", it + 1, change(it + 1));
                it + 1
            } else { it };
            let want = &its[last].0;
            ensure!(norm(&sub(&y, want)) <= 1e-8, "{name}: left {y:?}, the normalised iterate {last} is {want:?}");
            nt |= last >= 2;
            lab.push(format!("{name}-{}", if it < *lim { "converged" } else { "limit" }));
        }
        ok_l(nt && n >= 2, lab)
    });
    ctx.sub("fixed-point", "starts that are exact eigenvectors (coordinate axes of a dyadic diagonal matrix, any length and sign) with tolerance zero: the first iterate does not change, so the run stops there with the exact value; non-trivial: always", 6000, 100000, || {
        (1usize..=8).prop_flat_map(|n| (vec((prop_oneof![3 => -40i32..=40, 1 => -430i32..=430], any::<bool>()), n), 0usize..8, -60i32..=60, any::<bool>(), 1usize..=30))
    }, |(d, ix, k, neg, lim)| {
        let n = d.len();
        let i = ix % n;
        let dv = |j: usize| 2f64.powi(d[j].0) * if d[j].1 { -1.0 } else { 1.0 };
        let mut a = Mat::zeros(n, n);
        for j in 0..n { a.set(j, j, dv(j)); }
        let mut x = vec![0.0; n];
        x[i] = 2f64.powi(*k) * if *neg { -1.0 } else { 1.0 };
        for (name, f, _) in VARIANTS {
            let mut y = arr(&x);
            let (lam, it) = f(&arr2(&a), &mut y, &pi::Options { max_iters: *lim, tolerance: 0.0 });
            ensure!(it == 0, "{name}: {it} further iterations from an exact eigenvector with tolerance zero");
            ensure!(lam == dv(i), "{name}: eigenvalue {lam} of an exact eigenvector, should be {}", dv(i));
            let y = vecof(&y);
            ensure!((0..n).all(|j| y[j].abs() == if j == i { 1.0 } else { 0.0 }), "{name}: left {y:?}");
        }
        ok()
    });
    ctx.sub("long-run", "tolerance zero and long limits with small or large spectral radius, so that unnormalised iterates would under- or overflow; non-trivial: always", 1500, 20000, || (spec(), 200usize..=1500), |(s, lim)| {
        let (a, x, v1, lam1) = s.build();
        for (name, f, _) in VARIANTS {
            let mut y = arr(&x);
            let (lam, it) = f(&arr2(&a), &mut y, &pi::Options { max_iters: *lim, tolerance: -1.0 });
            let y = vecof(&y);
            after(name, &a, &y, lam, it, *lim, lam1)?;
            ensure!((lam - lam1).abs() <= 1e-7 * lam1.abs() && dot(&y, &v1).abs() >= 1.0 - 1e-7, "{name}: after {lim} iterations eigenvalue {lam} (dominant {lam1}), alignment {}", dot(&y, &v1).abs());
        }
        ok()
    });
}

// ---------------------------------------------------------------- C28
/// JSON has no infinities: values are kept as text
mod optnum {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &Option<f64>, s: S) -> Result<S::Ok, S::Error> {
        v.map(|x| format!("{x:?}")).serialize(s)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Option<f64>, D::Error> {
        Ok(Option::<String>::deserialize(d)?.map(|t| t.parse().unwrap_or(0.0)))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum E {
    Non(usize, usize, #[serde(with = "optnum")] Option<f64>),
    Inf(String),
    Num(String, #[serde(with = "optnum")] Option<f64>),
    Par(String),
    Mat(String),
}
impl E {
    fn make(&self) -> EllipsoidError {
        match self.clone() {
            E::Non(iterations, max_iters, final_value) => EllipsoidError::NonConvergence { iterations, max_iters, final_value },
            E::Inf(reason) => EllipsoidError::Infeasible { reason },
            E::Num(details, value) => EllipsoidError::NumericalInstability { details, value },
            E::Par(details) => EllipsoidError::InvalidParameters { details },
            E::Mat(details) => EllipsoidError::MatrixError { details },
        }
    }
    fn kind(&self) -> usize {
        match self { E::Non(..) => 0, E::Inf(_) => 1, E::Num(..) => 2, E::Par(_) => 3, E::Mat(_) => 4 }
    }
}
fn err() -> BoxedStrategy<E> {
    let num = || prop_oneof![2 => val(), 1 => any::<f64>().prop_filter("nan", |x| !x.is_nan()), 1 => Just(0.0), 1 => prop_oneof![Just(f64::INFINITY), Just(f64::NEG_INFINITY)]];
    let text = || prop_oneof![3 => "[ -~]{0,20}", 1 => "\\PC{0,12}", 1 => Just(String::new())];
    let cnt = || prop_oneof![3 => 0usize..200, 1 => any::<usize>()];
    prop_oneof![
        (cnt(), cnt(), prop::option::of(num())).prop_map(|(a, b, c)| E::Non(a, b, c)),
        text().prop_map(E::Inf),
        (text(), prop::option::of(num())).prop_map(|(a, b)| E::Num(a, b)),
        text().prop_map(E::Par),
        text().prop_map(E::Mat),
    ]
    .boxed()
}
/// does `s` contain number token equal to v?
fn mentions(s: &str, v: f64) -> bool {
    let tok = |c: char| c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+';
    s.split(|c: char| !tok(c)).any(|t| [t, t.trim_end_matches('.')].iter().any(|t| t.parse::<f64>().map_or(false, |x| x == v)))
}
pub fn c28(ctx: &mut Ctx) {
    ctx.sub("message", "every error kind with arbitrary texts, counts and values; the message carries them, an absent value is not invented, kinds are distinct; non-trivial: some field is present", 8000, 200000, err, |e| {
        let s = e.make().to_string();
        let s2 = format!("{}", &e.make() as &dyn std::error::Error);
        ensure!(s == s2, "message through the Error trait differs");
        let mut nt = true;
        match e {
            E::Non(a, b, c) => {
                let nums: Vec<&str> = s.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).collect();
                ensure!(nums.contains(&a.to_string().as_str()), "count {a} missing from {s:?}");
                ensure!(nums.contains(&b.to_string().as_str()), "limit {b} missing from {s:?}");
                if let Some(v) = c { ensure!(mentions(&s, *v), "value {v} missing from {s:?}"); }
                // swapped counts must be told apart
                if a != b { ensure!(E::Non(*b, *a, *c).make().to_string() != s, "the message does not tell count from limit"); }
                ensure!(E::Non(*a, *b, None).make().to_string() != s || c.is_none(), "the message does not show whether a value is present");
            }
            E::Num(t, v) => {
                ensure!(s.contains(t.as_str()), "details missing from {s:?}");
                let rest = s.replacen(t.as_str(), "", 1);
                if let Some(v) = v { ensure!(mentions(&rest, *v), "value {v} missing from {s:?}"); }
                ensure!(v.is_none() || E::Num(t.clone(), None).make().to_string() != s, "the message does not show whether a value is present");
            }
            E::Inf(t) | E::Par(t) | E::Mat(t) => {
                ensure!(s.contains(t.as_str()), "text {t:?} missing from {s:?}");
                nt = !t.is_empty();
            }
        }
        // same text under every kind: five different messages
        let t = match e { E::Inf(t) | E::Par(t) | E::Mat(t) | E::Num(t, _) => t.clone(), _ => String::new() };
        let all = [E::Non(3, 4, None), E::Inf(t.clone()), E::Num(t.clone(), None), E::Par(t.clone()), E::Mat(t)];
        let msgs: Vec<String> = all.iter().map(|x| x.make().to_string()).collect();
        for i in 0..5 { for j in 0..i { ensure!(msgs[i] != msgs[j], "two kinds give the same message {:?}", msgs[i]); } }
        ok_if(nt)
    });
    ctx.sub("equality", "pairs of errors, often differing in a single field; equal exactly when all fields are, clones equal; non-trivial: same kind", 8000, 200000, || (err(), err(), any::<u8>()), |(a, b, k)| {
        // derive a near copy of a
        let mut near = a.clone();
        match (&mut near, k % 4) {
            (E::Non(x, _, _), 0) => *x = x.wrapping_add(1),
            (E::Non(_, x, _), 1) => *x = x.wrapping_add(1),
            (E::Non(_, _, v), 2) => *v = match v { None => Some(0.0), Some(_) => None },
            (E::Non(_, _, Some(v)), _) => *v = if *v == 0.0 { 1.0 } else { -*v },
            (E::Num(_, v), 1) => *v = match v { None => Some(0.0), Some(_) => None },
            (E::Num(_, Some(v)), 2) => *v = if *v == 0.0 { 1.0 } else { -*v },
            (E::Inf(t), _) | (E::Par(t), _) | (E::Mat(t), _) | (E::Num(t, _), _) => t.push('x'),
            _ => {}
        }
        for o in [b, &near, a] {
            let (x, y) = (a.make(), o.make());
            ensure!((x == y) == (a == o) && (x != y) == (a != o), "{a:?} and {o:?} compare {}", x == y);
        }
        let x = a.make();
        #[allow(clippy::redundant_clone)]
        let c = x.clone();
        ensure!(c == x && c.to_string() == x.to_string(), "a clone differs");
        ok_if(a.kind() == b.kind() || near.kind() == a.kind())
    });
    ctx.sub("verdicts", "all pairs of cut verdicts print differently, compare and copy as themselves; non-trivial: always", 16, 16, || (0usize..4, 0usize..4), |(i, j)| {
        let all = [CutStatus::Success, CutStatus::NoSoln, CutStatus::NoEffect, CutStatus::Unknown];
        let (a, b) = (&all[*i], &all[*j]);
        ensure!((a == b) == (i == j), "verdict equality");
        ensure!((a.to_string() == b.to_string()) == (i == j), "two verdicts print the same: {a}");
        ensure!((format!("{a:?}") == format!("{b:?}")) == (i == j), "two verdicts debug-print the same");
        ok()
    });
}
