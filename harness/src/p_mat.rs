//! C14 (factorisation), C15 (matrix inequalities), C16 (lowpass mask).
use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::la::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;
use ellalgo_rs::oracles::ldlt_mgr::LDLTMgr;
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;
use ellalgo_rs::oracles::lowpass_oracle::{create_lowpass_case, LowpassOracle};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C14
/// Exactly factorable matrix: unit lower L with small integers, D powers of two with signs, or zero.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExactLdl {
    n: usize,
    low: Vec<i8>,
    d: Vec<i8>,  // 0: zero pivot; +-k: +-2^(k-4) for k<=7, +-2^-(k-4) for larger k
    scale: i32,
}
fn piv(k: i8) -> f64 {
    match k {
        0 => 0.0,
        k => {
            let m = k.unsigned_abs() as i32;
            2f64.powi(if m <= 7 { m - 4 } else { 4 - m }) * if k > 0 { 1.0 } else { -1.0 }
        }
    }
}
impl ExactLdl {
    fn l(&self) -> Mat {
        let mut l = Mat::eye(self.n);
        let mut k = 0;
        for i in 0..self.n {
            for j in 0..i {
                l.set(i, j, self.low[k] as f64);
                k += 1;
            }
        }
        l
    }
    fn mat(&self) -> Mat {
        let l = self.l();
        let mut m = Mat::zeros(self.n, self.n);
        for i in 0..self.n {
            for j in 0..self.n {
                let s: f64 = (0..self.n).map(|k| l.at(i, k) * piv(self.d[k]) * l.at(j, k)).sum();
                m.set(i, j, s * 2f64.powi(self.scale));
            }
        }
        m
    }
    fn pivot(&self, k: usize) -> f64 {
        piv(self.d[k]) * 2f64.powi(self.scale)
    }
}
fn exact_ldl() -> BoxedStrategy<ExactLdl> {
    (1usize..=7)
        .prop_flat_map(|n| {
            (
                Just(n),
                vec(prop_oneof![2 => Just(0i8), 5 => -3i8..=3], n * (n - 1) / 2),
                vec(prop_oneof![15 => 1i8..=7, 3 => 8i8..=32, 1 => 33i8..=44], n),
                prop_oneof![3 => -8i32..=8, 1 => -150i32..=150],
                any::<proptest::sample::Index>(),
                prop_oneof![3 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)],
                vec(-7i8..=7, n),
            )
        })
        .prop_map(|(n, low, mut d, scale, ix, mode, alt)| {
            let k = ix.index(n);
            match mode {
                1 => d[k] = 0,
                2 => d[k] = -d[k],
                3 => d = alt,
                _ => {}
            }
            ExactLdl { n, low, d, scale }
        })
        .boxed()
}
/// Everything the manager exposes after a factorisation.
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    spd: bool,
    pos: (usize, usize),
    ep: f64,
    v: V,
    quad: f64,
    r: V,
}
fn see(m: &mut LDLTMgr, a: &Mat, b: &Mat, how: u8) -> Result<Seen, String> {
    let aa = arr2(a);
    let ok_ = match how {
        0 => m.factorize(&aa),
        1 => m.factor(|i, j| a.at(i, j)),
        _ => m.factor_with_allow_semidefinite(|i, j| a.at(i, j)),
    };
    ensure!(ok_ == m.is_spd(), "the returned verdict {ok_} differs from is_spd()");
    let mut s = Seen { spd: ok_, pos: m.pos, ep: 0.0, v: vec![], quad: 0.0, r: vec![] };
    if ok_ {
        if how < 2 {
            s.r = vecof(&m.sqrt());
        }
        ensure!(guarded(|| m.witness()).is_err(), "a witness was produced for an accepted matrix");
    } else {
        ensure!(guarded(|| m.sqrt()).is_err(), "a square root was produced for a rejected matrix");
        s.ep = m.witness();
        s.pos = m.pos;
        let (st, en) = m.pos;
        ensure!(st < en && en <= a.n, "reported index range {:?} of a {}x{} matrix", m.pos, a.n, a.n);
        s.v = (0..a.n).map(|i| if i >= st && i < en { m.wit[i] } else { 0.0 }).collect();
        s.quad = m.sym_quad(&arr2(b));
    }
    Ok(s)
}
fn check_witness(a: &Mat, b: &Mat, s: &Seen, strict: bool) -> Result<(), String> {
    let (_, en) = s.pos;
    ensure!(s.v[en - 1] == 1.0, "witness does not end in one: {:?}", s.v);
    let q = dot(&s.v, &a.mv(&s.v));
    let mag: f64 = (0..a.n).map(|i| (0..a.n).map(|j| (s.v[i] * a.at(i, j) * s.v[j]).abs()).sum::<f64>()).sum();
    ensure!((q + s.ep).abs() <= 1e-9 * mag, "v'Av = {q} but the reported value is {} (magnitude {mag})", s.ep);
    ensure!(s.ep >= 0.0, "reported value {} is negative", s.ep);
    if strict {
        ensure!(s.ep > 0.0, "rejected without a strictly negative witness");
    }
    let w = dot(&s.v, &b.mv(&s.v));
    let magb: f64 = (0..a.n).map(|i| (0..a.n).map(|j| (s.v[i] * b.at(i, j) * s.v[j]).abs()).sum::<f64>()).sum();
    ensure!((w - s.quad).abs() <= 1e-9 * magb, "exposed quadratic form {} but v'Bv = {w}", s.quad);
    Ok(())
}
fn check_sqrt(a: &Mat, r: &[f64]) -> Result<(), String> {
    let n = a.n;
    for i in 0..n {
        for j in 0..n {
            if j < i {
                ensure!(r[i * n + j] == 0.0, "square root has entry {} below the diagonal at ({i},{j})", r[i * n + j]);
            }
            let s: f64 = (0..n).map(|k| r[k * n + i] * r[k * n + j]).sum();
            let sc = (a.at(i, i) * a.at(j, j)).sqrt();
            ensure!((s - a.at(i, j)).abs() <= 1e-9 * sc, "(R'R)[{i}][{j}] = {s}, A has {}", a.at(i, j));
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    d: V,
    hv: Vec<V>,
    scale: f64,
    dscale: V,
}
impl Spec {
    fn mat(&self) -> Mat {
        let n = self.d.len();
        let m = sym_from(n, &self.d, &self.hv).scale(self.scale);
        let mut o = Mat::zeros(n, n);
        for i in 0..n {
            for j in 0..=i {
                let v = m.at(i, j) * self.dscale[i] * self.dscale[j];
                o.set(i, j, v);
                o.set(j, i, v);
            }
        }
        o
    }
}
fn spec(maxn: usize) -> BoxedStrategy<Spec> {
    (1usize..=maxn)
        .prop_flat_map(|n| {
            (
                vec(prop_oneof![6 => 0.01f64..4.0, 1 => 1e-5f64..1e-2], n),
                prop_oneof![2 => Just(0usize), 2 => Just(1usize), 1 => 2usize..=3],
                any::<proptest::sample::Index>(),
                vec(vec(-1.0f64..1.0, n), 1..=3),
                scale(5.0),
                prop_oneof![2 => Just(vec![1.0; n]), 1 => vec(0.1f64..10.0, n)],
            )
        })
        .prop_map(|(mut d, neg, ix, hv, scale, dscale)| {
            let n = d.len();
            let k = ix.index(n);
            for t in 0..neg.min(n) {
                let i = (k + t) % n;
                d[i] = -d[i];
            }
            Spec { d, hv, scale, dscale }
        })
        .boxed()
}
pub fn c14(ctx: &mut Ctx) {
    ctx.assumptions.push("matrices are symmetric; definiteness is decided exactly on matrices whose factorisation is exact in floating point, and with smallest |eigenvalue| >= 1e-5 relative otherwise".into());
    ctx.sub("exact", "A = L D L' with small integer L and power-of-two D (positive, zero or negative pivots): verdict, index range, witness and square root known exactly; one manager reused over the sequence; non-trivial: at least one matrix is not positive definite and one is", 30000, 600000, || vec(exact_ldl(), 1..=5), |seq| {
        let mut shared: std::collections::BTreeMap<usize, LDLTMgr> = Default::default();
        let (mut yes, mut no) = (0, 0);
        let mut lab = vec![];
        for (t, e) in seq.iter().enumerate() {
            let a = e.mat();
            let b = { let mut b = Mat::zeros(e.n, e.n); for i in 0..e.n { for j in 0..e.n { b.set(i, j, ((i * 7 + j * 3 + t) % 11) as f64 - 5.0); } } b };
            let first = (0..e.n).find(|&k| e.pivot(k) <= 0.0);
            for how in 0..3u8 {
                let mgr = shared.entry(e.n).or_insert_with(|| LDLTMgr::new(e.n));
                let s = see(mgr, &a, &b, how).map_err(|m| format!("matrix {t} way {how}: {m}"))?;
                let f = see(&mut LDLTMgr::new(e.n), &a, &b, how)?;
                ensure!(s == f, "matrix {t}: the result depends on what the manager factored before: {s:?} vs fresh {f:?}");
                if how < 2 {
                    ensure!(s.spd == first.is_none(), "matrix {t}: verdict positive definite = {}, pivots {:?}", s.spd, (0..e.n).map(|k| e.pivot(k)).collect::<Vec<_>>());
                    if let Some(k) = first {
                        ensure!(s.pos.1 == k + 1, "matrix {t}: reported index range {:?}, the first non-positive pivot is at {k}", s.pos);
                        ensure!((s.ep + e.pivot(k)).abs() <= 1e-9 * a.at(k, k).abs().max(e.pivot(k).abs()), "matrix {t}: reported value {}, pivot {}", s.ep, e.pivot(k));
                        check_witness(&a, &b, &s, false).map_err(|m| format!("matrix {t}: {m}"))?;
                        no += 1;
                        lab.push(if e.pivot(k) == 0.0 { "singular".to_string() } else { "indefinite".into() });
                    } else {
                        check_sqrt(&a, &s.r).map_err(|m| format!("matrix {t}: {m}"))?;
                        yes += 1;
                        lab.push("definite".into());
                    }
                } else {
                    let psd = (0..e.n).all(|k| e.pivot(k) >= 0.0);
                    if psd {
                        // exact only when nothing but exact pivots is computed: at most the last pivot is zero
                        let exact = (0..e.n.saturating_sub(1)).all(|k| e.pivot(k) > 0.0);
                        if exact {
                            ensure!(s.spd, "matrix {t}: positive semidefinite matrix rejected by the tolerant variant, pivots {:?}", e.d);
                        } else if !s.spd {
                            let mx = (0..e.n).map(|i| a.at(i, i)).fold(0.0, f64::max);
                            ensure!(s.ep <= 1e-9 * mx, "matrix {t}: positive semidefinite matrix rejected by the tolerant variant with value {}", s.ep);
                        }
                        lab.push("tolerant-psd".into());
                    }
                    if !s.spd {
                        check_witness(&a, &b, &s, true).map_err(|m| format!("matrix {t} (tolerant): {m}"))?;
                        lab.push("tolerant-reject".into());
                    }
                    if first.map_or(false, |k| e.pivot(k) < 0.0) {
                        ensure!(!s.spd, "matrix {t}: tolerant variant accepted a matrix whose first non-positive pivot is negative");
                    }
                }
            }
        }
        ok_l(yes > 0 && no > 0, lab)
    });
    ctx.sub("spectral", "A = H diag(d) H' scaled, dimension up to 24, known signs of the eigenvalues; non-trivial: dimension at least 2", 6000, 120000, || vec(prop_oneof![4 => spec(7), 1 => spec(24)], 1..=3), |seq| {
        let mut nt = false;
        let mut lab = vec![];
        for (t, e) in seq.iter().enumerate() {
            let a = e.mat();
            let n = a.n;
            let b = { let mut b = Mat::zeros(n, n); for i in 0..n { for j in 0..n { b.set(i, j, ((i * 5 + j * 3 + t) % 7) as f64 - 3.0); } } b };
            let pd = e.d.iter().all(|x| *x > 0.0);
            let mut m = LDLTMgr::new(n);
            for how in 0..3u8 {
                let s = see(&mut m, &a, &b, how)?;
                ensure!(s.spd == pd, "matrix {t} way {how}: verdict {} for eigenvalue signs {:?}", s.spd, e.d);
                if pd {
                    if how < 2 { check_sqrt(&a, &s.r)?; }
                } else {
                    check_witness(&a, &b, &s, true)?;
                }
            }
            nt |= n >= 2;
            lab.push(format!("{}-{}", if pd { "definite" } else { "indefinite" }, if n > 7 { "n>7" } else { "n<=7" }));
        }
        ok_l(nt, lab)
    });
    ctx.sub("semidefinite", "block-diagonal positive semidefinite matrices with zero blocks in every position, and the same with one negative diagonal entry; non-trivial: a zero block precedes a non-zero one", 8000, 150000, || {
        vec((exact_ldl(), any::<bool>()), 1..=4)
    }, |blocks| {
        let n: usize = blocks.iter().map(|b| b.0.n).sum();
        let mut a = Mat::zeros(n, n);
        let mut o = 0;
        let mut psd = true;
        let mut firstneg = None;
        let mut exact = true;
        for (b, zero) in blocks {
            let m = if *zero { Mat::zeros(b.n, b.n) } else { b.mat() };
            if !*zero {
                for k in 0..b.n {
                    if b.pivot(k) < 0.0 { psd = false; if firstneg.is_none() { firstneg = Some(o + k); } }
                    if b.pivot(k) == 0.0 && k + 1 < b.n { exact = false; }
                }
            }
            for i in 0..b.n { for j in 0..b.n { a.set(o + i, o + j, m.at(i, j)); } }
            o += b.n;
        }
        let mut m = LDLTMgr::new(n);
        let s = see(&mut m, &a, &Mat::eye(n), 2)?;
        if exact {
            ensure!(s.spd == psd, "tolerant variant says {} for a matrix that is {}positive semidefinite", s.spd, if psd { "" } else { "not " });
            if let Some(k) = firstneg {
                ensure!(s.pos.1 == k + 1, "tolerant variant reports index range {:?}, first negative pivot {k}", s.pos);
            }
        }
        if !s.spd {
            check_witness(&a, &Mat::eye(n), &s, true)?;
        }
        ok_if(blocks.len() >= 2 && blocks[0].1 && blocks.iter().any(|b| !b.1))
    });
}

// ---------------------------------------------------------------- C15
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lmi {
    m: usize,
    f: Vec<V>,   // lower triangles
    s: Spec,     // planted slack (made positive definite)
    y: V,        // planted feasible point
    x: Vec<V>,   // queries (offsets from y)
    xunit: f64,  // magnitude of the variables (s.scale: of the matrices)
}
fn tri(m: usize, v: &[f64]) -> Mat {
    let mut a = Mat::zeros(m, m);
    let mut k = 0;
    for i in 0..m {
        for j in 0..=i {
            a.set(i, j, v[k]);
            a.set(j, i, v[k]);
            k += 1;
        }
    }
    a
}
fn lmi() -> BoxedStrategy<Lmi> {
    (prop_oneof![60 => 1usize..=5, 1 => 6usize..=12], prop_oneof![12 => 1usize..=5, 1 => 6usize..=12])
        .prop_flat_map(|(m, n)| {
            (
                Just(m),
                vec(vec(coord(3), m * (m + 1) / 2), n),
                vec(0.05f64..4.0, m).prop_flat_map(move |d| (Just(d), vec(vec(-1.0f64..1.0, m), 1..=2))),
                vec(coord(3), n),
                vec((vec(coord(2), n), prop_oneof![Just(1.0), Just(0.1), Just(0.01), Just(5.0)], prop::option::weighted(0.25, (0usize..9, any::<bool>(), 0usize..n))), 1..=8),
                prop_oneof![2 => Just((1.0, 1.0)), 1 => (scale(10.0), scale(13.0))],
            )
        })
        .prop_map(|(m, f, y, z, x, u)| {
            // some queries repeat an earlier one, exactly or in all coordinates but one
            let mut pts: Vec<V> = vec![];
            for (v, t, rep) in x {
                let mut p = scl(t, &v);
                if let (Some((i, exact, j)), false) = (rep, pts.is_empty()) {
                    let mut q = pts[i % pts.len()].clone();
                    if !exact { q[j] = p[j]; }
                    p = q;
                }
                pts.push(p);
            }
            (m, f, y, z, pts, u)
        })
        .prop_map(|(m, f, (d, hv), y, x, (unit, xunit))| Lmi {
            m,
            f: f.into_iter().map(|v| scl(unit / xunit, &v)).collect(),
            s: Spec { dscale: vec![1.0; m], d, hv, scale: unit },
            y: scl(xunit, &y),
            x: x.into_iter().map(|v| scl(xunit, &v)).collect(),
            xunit,
        })
        .boxed()
}
impl Lmi {
    fn fm(&self) -> Vec<Mat> {
        self.f.iter().map(|v| tri(self.m, v)).collect()
    }
    fn comb(f: &[Mat], x: &[f64], m: usize) -> Mat {
        let mut s = Mat::zeros(m, m);
        for (k, a) in f.iter().enumerate() {
            for i in 0..m {
                for j in 0..m {
                    let v = s.at(i, j) + a.at(i, j) * x[k];
                    s.set(i, j, v);
                }
            }
        }
        s
    }
}
fn msub(a: &Mat, b: &Mat) -> Mat {
    let mut o = a.clone();
    for (x, y) in o.a.iter_mut().zip(&b.a) {
        *x -= y;
    }
    o
}
pub fn c15(ctx: &mut Ctx) {
    ctx.assumptions.push("points whose slack matrix has smallest eigenvalue within 1e-7 of zero (relative) are not used for the accept/reject decision".into());
    ctx.sub("oracles", "random LMIs with a planted feasible point, sequences of queries around it, all three oracles, reused and fresh; non-trivial: at least one accept and one reject", 12000, 250000, lmi, |p| {
        let f = p.fm();
        let m = p.m;
        let n = f.len();
        let slack = p.s.mat();
        let b = { let mut b = Lmi::comb(&f, &p.y, m); for (x, y) in b.a.iter_mut().zip(&slack.a) { *x += y; } b };
        let fa: Vec<Arr> = f.iter().map(arr2).collect();
        let mk0 = || { let mut v = vec![arr2(&b)]; v.extend(f.iter().map(|a| arr2(&a.scale(-1.0)))); LMI0Oracle::new(v) };
        let mut lazy = LMIOracle::new(fa.clone(), arr2(&b));
        let mut old = LMIOldOracle::new(fa.clone(), arr2(&b));
        let mut zero = mk0();
        let (mut acc, mut rej) = (0, 0);
        let mut good: Vec<V> = vec![p.y.clone()];
        for (t, dx) in p.x.iter().enumerate() {
            let x = add(&p.y, dx);
            let a = msub(&b, &Lmi::comb(&f, &x, m));
            let ev = eigvals(&a);
            let mag = a.a.iter().fold(p.s.scale, |u, v| u.max(v.abs()));
            if ev[0].abs() <= 1e-7 * mag {
                continue;
            }
            let feas = ev[0] > 0.0;
            let xa = arr(&x);
            let mut x1 = vec![1.0];
            x1.extend(&x);
            let r1 = lazy.assess_feas(&xa).map(|(g, c)| (vecof(&g), c.0));
            let r2 = old.assess_feas(&xa).map(|(g, c)| (vecof(&g), c.0));
            let r3full = zero.assess_feas(&arr(&x1)).map(|(g, c)| (vecof(&g), c));
            let r4 = LMIOracle::new(fa.clone(), arr2(&b)).assess_feas(&xa).map(|(g, c)| (vecof(&g), c.0));
            let r5 = LMIOldOracle::new(fa.clone(), arr2(&b)).assess_feas(&xa).map(|(g, c)| (vecof(&g), c.0));
            let r6 = mk0().assess_feas(&arr(&x1)).map(|(g, c)| (vecof(&g), c));
            ensure!(r1 == r4 && r2 == r5 && r3full == r6, "query {t}: the answer depends on earlier queries");
            for (nm, r) in [("lazy", &r1), ("matrix-building", &r2), ("constant-free", &r3full)] {
                ensure!(r.is_none() == feas, "query {t}: the {nm} oracle {} a point whose slack has smallest eigenvalue {}", if r.is_none() { "accepts" } else { "rejects" }, ev[0]);
            }
            if feas {
                acc += 1;
                good.push(x.clone());
                continue;
            }
            rej += 1;
            // boundary point between planted and query
            let (mut lo, mut hi) = (0.0, 1.0);
            for _ in 0..60 {
                let mid = 0.5 * (lo + hi);
                if chol(&msub(&b, &Lmi::comb(&f, &axpy(&p.y, mid, dx), m))).is_some() { lo = mid } else { hi = mid }
            }
            let mut test = good.clone();
            test.push(axpy(&p.y, lo, dx));
            let r3 = r3full.as_ref().map(|(g, c)| (g[1..].to_vec(), *c));
            for (nm, r) in [("lazy", &r1), ("matrix-building", &r2), ("constant-free", &r3)] {
                let (g, ep) = r.as_ref().unwrap();
                ensure!(*ep >= 0.0, "query {t}: {nm} cut offset {ep} is negative");
                for y in &test {
                    let d = sub(y, &x);
                    let ay = msub(&b, &Lmi::comb(&f, y, m));
                    let l0 = eigvals(&ay)[0].max(0.0);
                    let v = dot(g, &d) + ep;
                    let sc = ep.abs() + g.iter().zip(&d).map(|(a, b)| (a * b).abs()).sum::<f64>() + mag;
                    ensure!(v <= -l0 + 1e-8 * sc, "query {t}: the {nm} oracle's cut g.(y-x)+beta = {v} excludes or barely keeps the feasible point {y:?} (its slack is at least {l0})");
                }
            }
            // agreement of the three
            let (g1, e1) = r1.clone().unwrap();
            let sc = e1.abs() + norm(&g1) * p.xunit + 1e-6 * mag;
            for (nm, r) in [("matrix-building", &r2), ("constant-free", &r3)] {
                let (g, e) = r.as_ref().unwrap();
                ensure!((e - e1).abs() <= 1e-6 * sc && norm(&sub(g, &g1)) * p.xunit <= 1e-6 * sc, "query {t}: lazy oracle cuts ({g1:?}, {e1}), {nm} oracle ({g:?}, {e})");
            }
            // constant-free: its own first component is the constant's share of a homogeneous form
            let (g0, e0) = r3full.clone().unwrap();
            ensure!((dot(&g0, &x1) - e0).abs() <= 1e-7 * (e0.abs() + norm(&g0) * norm(&x1)), "query {t}: constant-free cut is not homogeneous: g.x = {}, offset {e0}", dot(&g0, &x1));
        }
        let _ = n;
        ok_if(acc > 0 && rej > 0)
    });
    ctx.sub("solve", "feasibility driver with an LMI oracle from a distance: the returned point satisfies the inequality; non-trivial: at least three rounds", 2000, 40000, || (lmi(), 0.5f64..4.0, any::<bool>(), 0u8..2), |(p, far, stable, which)| {
        let f = p.fm();
        let m = p.m;
        let n = f.len();
        if n < 2 { return ok_if(false); }
        let slack = p.s.mat();
        let mut b = Lmi::comb(&f, &p.y, m);
        for (x, y) in b.a.iter_mut().zip(&slack.a) { *x += y; }
        let fa: Vec<Arr> = f.iter().map(arr2).collect();
        let start = axpy(&p.y, *far, &p.x[0]);
        let rad = norm(&sub(&start, &p.y)) + 0.5 * p.xunit;
        // a ball of this radius around y is feasible
        let lam = eigvals(&slack)[0];
        let fro: f64 = f.iter().map(|a| a.a.iter().map(|x| x * x).sum::<f64>()).sum::<f64>().sqrt();
        let r = (lam / fro.max(1e-9 * p.s.scale / p.xunit)).min(0.5 * p.xunit) * 0.5;
        let bound = 2.0 * (n as f64 + 1.0) * n as f64 * (rad / r).ln() + 3.0;
        let opt = Options { max_iters: bound.ceil() as usize, tolerance: 0.0, verbose: false };
        let k = rad * rad;
        let (x, it) = match (*which, *stable) {
            (0, false) => cutting_plane_feas(&mut LMIOracle::new(fa, arr2(&b)), &mut Ell::new_with_scalar(k, arr(&start)), &opt),
            (0, true) => cutting_plane_feas(&mut LMIOracle::new(fa, arr2(&b)), &mut EllStable::new_with_scalar(k, arr(&start)), &opt),
            (_, false) => cutting_plane_feas(&mut LMIOldOracle::new(fa, arr2(&b)), &mut Ell::new_with_scalar(k, arr(&start)), &opt),
            (_, true) => cutting_plane_feas(&mut LMIOldOracle::new(fa, arr2(&b)), &mut EllStable::new_with_scalar(k, arr(&start)), &opt),
        };
        let x = vecof(&x.ok_or_else(|| format!("no point found in {it} rounds although a ball of radius {r} around {:?} is feasible", p.y))?);
        let a = msub(&b, &Lmi::comb(&f, &x, m));
        let mag = a.a.iter().fold(p.s.scale, |u, v| u.max(v.abs()));
        ensure!(eigvals(&a)[0] >= -1e-9 * mag, "returned point violates the matrix inequality");
        ok_if(it >= 3)
    });
}

// ---------------------------------------------------------------- C16
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lp {
    ndim: usize,
    kp: usize,  // passband samples are 0..=kp
    ks: usize,  // stopband samples are >= ks
    base: Vec<V>, // planted filters (tails; the zeroth coefficient is raised to keep the response positive)
    margin: (f64, f64, f64),
    dirs: Vec<(u8, usize, V, bool, f64)>,
    unit: f64, // magnitude of coefficients and bounds
}
fn lp() -> BoxedStrategy<Lp> {
    prop_oneof![40 => 2usize..=8, 10 => 9usize..=16, 1 => 17usize..=40]
        .prop_flat_map(|ndim| {
            let mdim = 15 * ndim;
            (
                Just(ndim),
                1usize..mdim / 2,
                1usize..mdim / 3,
                vec(vec(-0.5f64..0.5, ndim), 1..=3),
                (0.01f64..0.5, 0.01f64..0.5, 0.01f64..0.5),
                vec((0u8..4, 0usize..mdim, vec(-1.0f64..1.0, ndim), any::<bool>(), prop_oneof![1 => Just(4.0), 2 => 3.0f64..11.0]), 1..=8),
                prop_oneof![2 => Just(1.0), 1 => scale(9.0)],
            )
        })
        .prop_map(|(ndim, kp, gap, base, margin, dirs, unit)| Lp { ndim, kp, ks: (kp + gap).min(15 * ndim - 2), base, margin, dirs, unit })
        .boxed()
}
struct Mask {
    mdim: usize,
    nwpass: usize,
    nwstop: usize,
    lp: f64,
    up: f64,
    sp: f64,
    rows: Vec<V>,
}
impl Mask {
    fn rows(ndim: usize) -> Vec<V> {
        let mdim = 15 * ndim;
        (0..mdim)
            .map(|i| {
                let w = std::f64::consts::PI * i as f64 / (mdim - 1) as f64;
                (0..ndim).map(|j| if j == 0 { 1.0 } else { 2.0 * (w * j as f64).cos() }).collect()
            })
            .collect()
    }
    fn resp(&self, x: &[f64]) -> V {
        self.rows.iter().map(|r| dot(r, x)).collect()
    }
    /// (lower, upper) bound at sample i
    fn bounds(&self, i: usize) -> (f64, f64) {
        if i < self.nwpass {
            (self.lp, self.up)
        } else if i >= self.nwstop {
            (0.0, self.sp)
        } else {
            (0.0, f64::INFINITY)
        }
    }
    /// smallest slack over all constraints (negative: violated), number violated
    fn slack(&self, x: &[f64]) -> (f64, usize) {
        let mut s = x[0];
        let mut k = usize::from(x[0] < 0.0);
        for (i, v) in self.resp(x).iter().enumerate() {
            let (l, u) = self.bounds(i);
            s = s.min(v - l).min(u - v);
            k += usize::from(*v < l || *v > u);
        }
        (s, k)
    }
    fn stop_peak(&self, x: &[f64]) -> f64 {
        self.resp(x)[self.nwstop..].iter().cloned().fold(f64::NEG_INFINITY, f64::max)
    }
}
/// largest t with y + t d inside the mask (y strictly inside)
fn exit_time(m: &Mask, y: &[f64], d: &[f64]) -> f64 {
    let mut t = f64::INFINITY;
    let (ry, rd) = (m.resp(y), m.resp(d));
    for i in 0..m.mdim {
        let (l, u) = m.bounds(i);
        if rd[i] > 1e-12 && u.is_finite() {
            t = t.min((u - ry[i]) / rd[i]);
        }
        if rd[i] < -1e-12 {
            t = t.min((l - ry[i]) / rd[i]);
        }
    }
    if d[0] < -1e-12 {
        t = t.min(-y[0] / d[0]);
    }
    t
}
fn lp_cut_valid(what: &str, x: &[f64], g: &[f64], c: &ParallelCut, ys: &[V]) -> Result<(), String> {
    for y in ys {
        let v = dot(g, &sub(y, x));
        let sc = 1e-11 * (norm(g) * (norm(y) + norm(x)) + c.0.abs());
        ensure!(v + c.0 <= sc, "{what}: a filter obeying the mask violates the cut's near bound by {}", v + c.0);
        if let Some(b1) = c.1 {
            ensure!(v + b1 >= -sc, "{what}: a filter obeying the mask violates the cut's far bound by {}", -(v + b1));
        }
    }
    Ok(())
}
/// Filters obeying the mask at its very edge, found by moving the planted ones along and against the cut's row
/// (plain and tapered) until some sample reaches its bound.
fn lp_edge(m: &Mask, ys: &[V], g: &[f64]) -> Vec<V> {
    let n = g.len();
    let taper: V = (0..n).map(|j| g[j] * (1.0 - j as f64 / n as f64)).collect();
    let mut out = vec![];
    for y in ys.iter().take(3) {
        if m.slack(y).0 <= 0.0 { continue; }
        for d in [g.to_vec(), scl(-1.0, g), taper.clone(), scl(-1.0, &taper)] {
            let te = exit_time(m, y, &d);
            if !te.is_finite() { continue; }
            let z = axpy(y, te * (1.0 - 1e-7), &d);
            if m.slack(&z).0 > 0.0 { out.push(z); }
        }
    }
    out
}
fn lp_setup(p: &Lp) -> (Mask, Vec<V>) {
    let rows = Mask::rows(p.ndim);
    let mdim = rows.len();
    let mut ys: Vec<V> = p.base.clone();
    for y in ys.iter_mut() {
        y[0] = 0.0;
        let mn = rows.iter().map(|r| dot(r, y)).fold(f64::INFINITY, f64::min);
        y[0] = -mn + 0.05;
        *y = scl(p.unit, y);
    }
    let (nwpass, nwstop) = (p.kp + 1, p.ks + 1);
    let mut m = Mask { mdim, nwpass, nwstop, lp: 0.0, up: 0.0, sp: 0.0, rows };
    let (mut lo, mut up, mut sp) = (f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
    for y in &ys {
        let r = m.resp(y);
        lo = r[..nwpass].iter().cloned().fold(lo, f64::min);
        up = r[..nwpass].iter().cloned().fold(up, f64::max);
        sp = r[nwstop..].iter().cloned().fold(sp, f64::max);
    }
    m.lp = lo * (1.0 - p.margin.0.min(0.9));
    m.up = up * (1.0 + p.margin.1);
    m.sp = sp * (1.0 + p.margin.2);
    // convex combinations obey the mask as well
    let k = ys.len();
    let mut avg = vec![0.0; p.ndim];
    for y in &ys {
        avg = axpy(&avg, 1.0 / k as f64, y);
    }
    ys.push(avg);
    (m, ys)
}
/// a passband edge for which samples 0..=kp are in the passband: between two samples or, where that can be written down, on the last one
fn pass_edge(kp: usize, mdim: usize) -> f64 {
    let (k, m) = (kp as f64, (mdim - 1) as f64);
    if kp % 3 == 0 && k / m * m == k && k % m > 0.0 {
        return k / m;
    }
    (k + 0.5) / m
}
pub fn c16(ctx: &mut Ctx) {
    ctx.sub("mask", "masks built around planted filters, rays from a planted filter shot to just inside and just outside the mask (a single violated sample) and far outside; one oracle reused over the whole history; non-trivial: at least one accept and one reject", 6000, 100000, lp, |p| {
        let (m, mut ys) = lp_setup(p);
        let half = |k: usize| (k as f64 + 0.5) / (m.mdim - 1) as f64;
        let mut om = LowpassOracle::new(p.ndim, pass_edge(p.kp, m.mdim), half(p.ks), m.lp, m.up, m.sp);
        let (mut acc, mut rej) = (0, 0);
        let mut lab = vec![];
        for (t, (kind, at, rnd, neg, fine)) in p.dirs.iter().enumerate() {
            let y = ys[t % ys.len()].clone();
            let mut d: V = match kind {
                // localised at sample `at`
                0 | 1 => { let r = &m.rows[*at % m.mdim]; (0..p.ndim).map(|j| r[j] * (1.0 - j as f64 / p.ndim as f64)).collect() }
                2 => rnd.clone(),
                _ => { let mut e = vec![0.0; p.ndim]; e[*at % p.ndim] = 1.0; e }
            };
            if *neg { d = scl(-1.0, &d); }
            if norm(&d) < 1e-3 { continue; }
            let te = exit_time(&m, &y, &d);
            if !te.is_finite() || te <= 1e-6 * p.unit { continue; }
            let e = 10f64.powf(-fine);
            // every third ray also repeats its queries, and earlier ones with one coefficient exchanged
            let mut xs: Vec<(&str, V)> = [("inside", 1.0 - e), ("outside", 1.0 + e), ("far", 2.5)].into_iter().map(|(w, f)| (w, axpy(&y, te * f, &d))).collect();
            if *at % 3 == 0 {
                let (a, b) = (xs[at % 2].1.clone(), xs[2 - at % 2].1.clone());
                let j = at % p.ndim;
                for (w, mut z, o) in [("again", a.clone(), None), ("again", b.clone(), None), ("mixed", a.clone(), Some(&b)), ("mixed", b.clone(), Some(&a))] {
                    if let Some(o) = o { z[j] = o[j]; }
                    xs.push((w, z));
                }
            }
            for (what, x) in xs {
                let (s, nv) = m.slack(&x);
                if s.abs() < 1e-13 * norm(&x) * (p.ndim as f64) { continue; }
                let feas = s > 0.0;
                match om.assess_feas(&arr(&x)) {
                    None => {
                        ensure!(feas, "query {t} ({what}): a filter violating the mask by {} at {nv} samples was accepted", -s);
                        acc += 1;
                        ys.push(x);
                    }
                    Some((g, c)) => {
                        ensure!(!feas, "query {t} ({what}): a filter obeying the mask with slack {s} was rejected");
                        ensure!(c.0 > 0.0, "query {t} ({what}): the cut offset {} does not exclude the query", c.0);
                        if let Some(b1) = c.1 { ensure!(b1 >= c.0, "query {t}: far bound {b1} below the near bound {}", c.0); }
                        lp_cut_valid(&format!("query {t} ({what})"), &x, &vecof(&g), &c, &ys)?;
                        if p.ndim <= 8 { lp_cut_valid(&format!("query {t} ({what})"), &x, &vecof(&g), &c, &lp_edge(&m, &ys, &vecof(&g)))?; }
                        rej += 1;
                        lab.push(format!("{what}-{}", if nv == 1 { "one" } else { "many" }));
                    }
                }
            }
        }
        ok_l(acc > 0 && rej > 0, lab)
    });
    ctx.sub("boundary", "flat responses (only the zeroth coefficient) exactly at, or 2^-1..2^-45 relatively beside, the passband, stopband and zero bounds: accepted exactly when within or on every bound, and in optimisation likewise with the given target; non-trivial: some response is exactly on a bound", 8000, 150000, || {
        (1usize..=8, 0.1f64..2.0, vec((0u8..5, 1i32..=45, -1i8..=1), 3), vec((0u8..5, 1i32..=45, -1i8..=1), 1..=6), 0.05f64..0.45, 0.05f64..0.5)
    }, |(ndim, c0, bs, qs, wp, gap)| {
        let pert = |v: f64, k: i32, s: i8| v * (1.0 + s as f64 * 2f64.powi(-k));
        // bounds near c0, ordered lower <= upper
        let b: V = bs.iter().map(|(z, k, s)| if *z == 0 { 0.0 } else { pert(*c0, *k, *s) }).collect();
        let (lo, up, sp) = (b[0].min(b[1]), b[0].max(b[1]), b[2]);
        let mut om = LowpassOracle::new(*ndim, *wp, *wp + *gap, lo, up, sp);
        let mut nt = false;
        let mut lab = vec![];
        for (z, k, s) in qs {
            let c = match z { 0 => 0.0, 1 => lo, 2 => up, 3 => sp, _ => pert(*c0, *k, *s) };
            let c = if *z == 4 { c } else { pert(c, *k, *s) };
            let mut x = vec![0.0; *ndim];
            x[0] = c;
            let inside = |sp: f64| lo <= c && c <= up && c <= sp && c >= 0.0;
            let on = c == lo || c == up || c == sp || c == 0.0;
            nt |= on;
            let r = om.assess_feas(&arr(&x));
            ensure!(r.is_none() == inside(sp), "flat response {c} with passband [{lo}, {up}] and stopband {sp}: accepted = {}", r.is_none());
            for target in [sp, c, pert(c, *k, 1), pert(c, *k, -1)] {
                let mut g = target;
                let ((_, cut), shrunk) = om.assess_optim(&arr(&x), &mut g);
                ensure!(shrunk == inside(target), "flat response {c} with passband [{lo}, {up}] and target {target}: improvement = {shrunk}");
                ensure!(g == if shrunk { c } else { target }, "target {target} became {g} at flat response {c} (improvement = {shrunk})");
                ensure!(if shrunk { cut.0 == 0.0 } else { cut.0 > 0.0 }, "cut offset {} at flat response {c} (improvement = {shrunk})", cut.0);
            }
            om.sp_sq = sp;
            lab.push(if on { "on".to_string() } else { "beside".into() });
        }
        ok_l(nt, lab)
    });
    ctx.sub("optim", "optimisation queries with the same masks: improvement exactly when the mask with the current stopband target holds, the target becomes the peak stopband response, better filters obey the cut; non-trivial: an improvement and a non-improving round", 6000, 100000, lp, |p| {
        let (m0, ys) = lp_setup(p);
        let half = |k: usize| (k as f64 + 0.5) / (m0.mdim - 1) as f64;
        // the constructor's stopband bound must not matter in optimisation
        let mut om = LowpassOracle::new(p.ndim, pass_edge(p.kp, m0.mdim), half(p.ks), m0.lp, m0.up, 1e9 * p.unit);
        let mut gamma = m0.sp;
        let mut m = m0;
        let (mut imp, mut non) = (0, 0);
        for (t, (kind, at, rnd, neg, fine)) in p.dirs.iter().enumerate() {
            let y = ys[t % ys.len()].clone();
            let d: V = match kind {
                0 => vec![0.0; p.ndim],
                1 => m.rows[*at % m.mdim].clone(),
                2 => rnd.clone(),
                _ => { let mut e = vec![0.0; p.ndim]; e[*at % p.ndim] = 1.0; e }
            };
            let d = if *neg { scl(-1.0, &d) } else { d };
            m.sp = gamma;
            let te = if norm(&d) > 1e-3 { exit_time(&m, &y, &d) } else { 0.0 };
            let te = if te.is_finite() && te > 0.0 { te } else { 0.02 * p.unit };
            let e = 10f64.powf(-fine);
            for f in [0.6, 1.0 + e, 1.3] {
                let x = axpy(&y, te * f, &d);
                m.sp = gamma;
                let (s, _) = m.slack(&x);
                if s.abs() < 1e-13 * norm(&x) * (p.ndim as f64) { continue; }
                let g0 = gamma;
                let ((g, c), shrunk) = om.assess_optim(&arr(&x), &mut gamma);
                let g = vecof(&g);
                ensure!(shrunk == (s > 0.0), "query {t}: improvement = {shrunk} for a filter with mask slack {s}");
                if shrunk {
                    let pk = m.stop_peak(&x);
                    ensure!((gamma - pk).abs() <= 1e-12 * norm(&x) * p.ndim as f64, "query {t}: target set to {gamma}, the peak stopband response is {pk}");
                    ensure!(gamma <= g0, "query {t}: the target rose from {g0} to {gamma}");
                    ensure!(c.0.abs() <= 1e-12 * norm(&x) * p.ndim as f64, "query {t}: central cut has offset {}", c.0);
                    imp += 1;
                } else {
                    ensure!(gamma == g0, "query {t}: no improvement but the target moved from {g0} to {gamma}");
                    ensure!(c.0 > 0.0, "query {t}: cut offset {} does not exclude the query", c.0);
                    non += 1;
                }
                m.sp = gamma;
                let better: Vec<V> = ys.iter().filter(|y| m.slack(y).0 > 0.0).cloned().collect();
                lp_cut_valid(&format!("query {t}"), &x, &g, &c, &better)?;
                if p.ndim <= 8 { lp_cut_valid(&format!("query {t}"), &x, &g, &c, &lp_edge(&m, &better, &g))?; }
            }
        }
        ok_if(imp > 0 && non > 0)
    });
    ctx.sub("standard-mask", "the standard case at every size from 2 to 120: bounds and band edges; non-trivial: always", 119, 119, || 2usize..=120, |ndim| {
        let om = create_lowpass_case(*ndim);
        let mdim = 15 * ndim;
        ensure!(0.0 < om.lp_sq && om.lp_sq < 1.0 && 1.0 < om.up_sq && 0.0 < om.sp_sq && om.sp_sq < om.lp_sq, "the standard mask of size {ndim} is inconsistent: passband [{}, {}], stopband {}", om.lp_sq, om.up_sq, om.sp_sq);
        let want = create_lowpass_case(32);
        ensure!((om.lp_sq, om.up_sq, om.sp_sq) == (want.lp_sq, want.up_sq, want.sp_sq), "the bounds of the standard case depend on its size {ndim}");
        let edge = |w: f64| (w * (mdim - 1) as f64).floor() as i32 + 1;
        ensure!((om.nwpass, om.nwstop) == (edge(0.12), edge(0.20)) && om.spectrum.len() == mdim, "band edges at samples {}, {} of {}", om.nwpass, om.nwstop, om.spectrum.len());
        ok()
    });
    ctx.sub("standard", "the standard case at several sizes: bounds consistent, solved by the optimisation driver to a filter meeting its mask; non-trivial: always", 24, 160, || (prop_oneof![Just(20usize), Just(24), Just(28), Just(32), Just(36), Just(40)], 10.0f64..60.0, any::<bool>()), |(ndim, kappa, stable)| {
        let mut om = create_lowpass_case(*ndim);
        ensure!(0.0 < om.lp_sq && om.lp_sq < 1.0 && 1.0 < om.up_sq && 0.0 < om.sp_sq && om.sp_sq < om.lp_sq, "the standard mask is inconsistent: passband [{}, {}], stopband {}", om.lp_sq, om.up_sq, om.sp_sq);
        let sp0 = om.sp_sq;
        let (nwpass, nwstop) = (om.nwpass as usize, om.nwstop as usize);
        let mdim = 15 * ndim;
        ensure!(nwpass == (0.12 * (mdim - 1) as f64).floor() as usize + 1 && nwstop == (0.20 * (mdim - 1) as f64).floor() as usize + 1, "band edges at samples {nwpass}, {nwstop} of {mdim}");
        let m0 = Mask { mdim, nwpass, nwstop, lp: om.lp_sq, up: om.up_sq, sp: sp0, rows: Mask::rows(*ndim) };
        let mut gamma = sp0;
        let opt = Options { max_iters: 50000, tolerance: 1e-14, verbose: false };
        let (x, it) = if *stable {
            cutting_plane_optim(&mut om, &mut EllStable::new_with_scalar(*kappa, Arr::new(*ndim)), &mut gamma, &opt)
        } else {
            cutting_plane_optim(&mut om, &mut Ell::new_with_scalar(*kappa, Arr::new(*ndim)), &mut gamma, &opt)
        };
        let x = vecof(&x.ok_or_else(|| format!("the standard case of size {ndim} was not solved in {it} rounds"))?);
        let (s, k) = m0.slack(&x);
        ensure!(s >= -1e-9, "the returned filter violates the mask by {} at {k} samples", -s);
        let pk = m0.stop_peak(&x);
        ensure!((pk - gamma).abs() <= 1e-9, "final target {gamma}, peak stopband response {pk}");
        ensure!(gamma <= sp0, "the target rose");
        ok_l(true, vec![format!("n{ndim}-{}", if it >= 50000 { "limit" } else { "converged" })])
    });
}
