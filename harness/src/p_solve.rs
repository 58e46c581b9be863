//! C12, C13: end-to-end solving with planted solutions and theoretical bounds.
use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::la::*;
use crate::p_drv::{Con, Poly};
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Planted {
    space: SpaceSpec,
    z: V,    // planted centre, unit-ball coordinates of the initial ellipsoid, |z| <= 1 - slack
    r: f64,  // radius of the planted ball relative to the smallest semi-axis
    cons: Vec<(V, f64, Option<f64>, bool)>, // direction, slack factor, second side, flip
    rule: u8, // which violated constraint is reported
    single: bool,
    loose: bool,
}
fn planted() -> BoxedStrategy<Planted> {
    prop_oneof![60 => 2usize..=4, 24 => 5usize..=8, 1 => 9usize..=20]
        .prop_flat_map(|n| {
            (
                space_spec_n(n, 2.0),
                vec(-1.0f64..1.0, n),
                prop_oneof![4 => 0.01f64..0.4, 2 => Just(0.05), 2 => Just(0.01), 1 => (-4.0f64..-2.0).prop_map(|e| 10f64.powf(e))],
                vec((gradient(n), prop_oneof![2 => Just(1.0), 3 => 1.0f64..6.0], prop::option::of(1.0f64..4.0), any::<bool>()), 1..=14),
                0u8..3,
                any::<bool>(),
                any::<bool>(),
            )
        })
        .prop_map(|(space, z, r, cons, rule, single, loose)| Planted { space, z, r, cons, rule, single, loose })
        .boxed()
}
struct Single<'a>(&'a mut Pick);
struct Pick {
    poly: Poly,
    rule: u8,
}
impl Pick {
    fn ask(&mut self, x: &Arr) -> Option<(V, (f64, Option<f64>))> {
        if self.rule == 0 {
            return self.poly.assess_feas(x).map(|(g, b)| (vecof(&g), (b.0, b.1)));
        }
        let v = vecof(x);
        if !finite(&v) {
            panic!("the oracle was queried at a non-finite point");
        }
        self.poly.queries.push(v.clone());
        let viol = self.poly.cons.iter().filter_map(|c| c.cut(&v).map(|k| (k.1 .0 / norm(&k.0), k)));
        let pick = if self.rule == 1 {
            viol.max_by(|a, b| a.0.partial_cmp(&b.0).unwrap())
        } else {
            viol.last()
        };
        self.poly.answers.push(pick.is_none());
        pick.map(|p| p.1)
    }
}
impl OracleFeas<Arr> for Pick {
    type CutChoice = ParallelCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, ParallelCut)> {
        self.ask(x).map(|(g, b)| (arr(&g), ParallelCut(b.0, b.1)))
    }
}
impl OracleFeas<Arr> for Single<'_> {
    type CutChoice = SingleCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, SingleCut)> {
        self.0.ask(x).map(|(g, b)| (arr(&g), SingleCut(b.0)))
    }
}
fn build_ell(s: &SpaceSpec) -> Ell {
    Ell::new_with_matrix(s.kap(), arr2(&s.m()), arr(&s.xc))
}
fn build_stable(s: &SpaceSpec) -> EllStable {
    EllStable::new_with_matrix(s.kap(), arr2(&s.m()), arr(&s.xc))
}
fn feas_run(p: &SpaceSpec, stable: bool, single: bool, om: &mut Pick, opt: &Options) -> (Option<V>, usize) {
    let r = match (stable, single) {
        (false, false) => cutting_plane_feas(om, &mut build_ell(p), opt),
        (true, false) => cutting_plane_feas(om, &mut build_stable(p), opt),
        (false, true) => cutting_plane_feas(&mut Single(om), &mut build_ell(p), opt),
        (true, true) => cutting_plane_feas(&mut Single(om), &mut build_stable(p), opt),
    };
    (r.0.map(|x| vecof(&x)), r.1)
}

pub fn c12(ctx: &mut Ctx) {
    ctx.assumptions.push("planted ball radius at least 0.01% of the smallest semi-axis, dimension up to 20, condition number of the initial ellipsoid moderate".into());
    ctx.sub("feasible", "polyhedra (one- and two-sided constraints, three constraint-picking rules) containing a planted ball inside the initial ellipsoid; must be solved within 2(n+1)(ln vol E0 - ln vol ball)+2 rounds; non-trivial: at least five rounds", 4000, 60000, planted, |p| {
        let n = p.space.n();
        let pm = p.space.p();
        let l = chol(&pm).ok_or("generator")?;
        let ev = eigvals(&pm);
        let rmin = ev[0].sqrt();
        let r = p.r * rmin;
        // centre z: the ball must lie inside the ellipsoid: in unit-ball coordinates its extent is <= p.r
        let nz = norm(&p.z).max(1e-12);
        let zz = scl((1.0 - p.r) * 0.98 * (nz / (n as f64).sqrt()).min(1.0) / nz, &p.z);
        let z = add(&p.space.xc, &l.mv(&zz));
        let cons: Vec<Con> = p.cons.iter().map(|(a, f, two, flip)| {
            let a = if *flip { scl(-1.0, a) } else { a.clone() };
            let na = norm(&a);
            let v = dot(&a, &z);
            Con { up: v + na * r * f, lo: two.map(|t| v - na * r * t), a }
        }).collect();
        let logdet: f64 = ev.iter().map(|x| x.ln()).sum();
        let bound = 2.0 * (n as f64 + 1.0) * (0.5 * logdet - n as f64 * r.ln()) + 2.0;
        // while the ball is inside, the size measure of a cut with gradient a is at least (r |a|)^2
        let amin = cons.iter().map(|c| norm(&c.a)).fold(f64::INFINITY, f64::min);
        let tolerance = if p.loose { 0.25 * (r * amin) * (r * amin) } else { 0.0 };
        let opt = Options { max_iters: bound.ceil() as usize + 2, tolerance, verbose: p.loose };
        let mut nt = false;
        let mut lab = vec![];
        for stable in [false, true] {
            let mut om = Pick { poly: Poly { cons: cons.clone(), next: 0, queries: vec![], cuts: vec![], answers: vec![] }, rule: p.rule };
            let (x, it) = feas_run(&p.space, stable, p.single, &mut om, &opt);
            let x = x.ok_or_else(|| format!("no point returned after {it} rounds (stable: {stable}) although a ball of radius {r} is feasible (bound {bound})"))?;
            for (k, c) in cons.iter().enumerate() {
                ensure!(c.ok(&x), "returned point violates constraint {k} (stable: {stable})");
            }
            ensure!((it as f64) <= bound, "needed {it} rounds, the theoretical bound is {bound}");
            nt |= it >= 5;
            lab.push(format!("rounds-{}", match it { 0 => "0", 1..=4 => "1..4", 5..=19 => "5..19", _ => "20+" }));
        }
        ok_l(nt, lab)
    });
    ctx.sub("infeasible", "the same with a contradictory pair of constraints; no point may be returned and the run must end; non-trivial: at least two rounds", 3000, 50000, || (planted(), 0.001f64..0.5, 50usize..=400), |(p, gap, lim)| {
        let n = p.space.n();
        let mut cons: Vec<Con> = p.cons.iter().map(|(a, f, two, flip)| {
            let a = if *flip { scl(-1.0, a) } else { a.clone() };
            let v = dot(&a, &p.space.xc);
            Con { up: v + f - 1.5, lo: two.map(|t| v - t), a }
        }).collect();
        let a = cons[0].a.clone();
        let v = dot(&a, &p.space.xc) + p.z[0];
        let at = p.cons.len() / 2;
        cons.insert(at, Con { a: scl(-1.0, &a), lo: None, up: -v - gap });
        cons.push(Con { a, lo: None, up: v });
        let mut nt = false;
        for stable in [false, true] {
            let mut om = Pick { poly: Poly { cons: cons.clone(), next: 0, queries: vec![], cuts: vec![], answers: vec![] }, rule: p.rule };
            let (x, it) = feas_run(&p.space, stable, p.single, &mut om, &Options { max_iters: *lim, tolerance: 1e-18, verbose: false });
            ensure!(x.is_none(), "a point was returned for an infeasible problem in round {it}");
            ensure!(it <= *lim, "more rounds than the limit");
            nt |= it >= 2;
        }
        let _ = n;
        ok_if(nt)
    });
}

// ---------------------------------------------------------------- C13
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Shape {
    Ball(f64),
    Box(V),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opt {
    shape: Shape,
    z: V,
    quad: bool,
    c: V, // linear: direction to maximise; quadratic: point to approach
    start: V,
    tolexp: i32,
    boost: f64,
    init_gamma: bool,
    parallel: bool,
}
fn optp() -> BoxedStrategy<Opt> {
    opts(prop_oneof![50 => 2usize..=4, 10 => 5usize..=6, 1 => 7usize..=12].boxed())
}
fn optn(n: usize) -> BoxedStrategy<Opt> {
    opts(Just(n).boxed())
}
fn opts(dims: BoxedStrategy<usize>) -> BoxedStrategy<Opt> {
    dims
        .prop_flat_map(|n| {
            (
                prop_oneof![(0.3f64..3.0).prop_map(Shape::Ball), vec(0.3f64..3.0, n).prop_map(Shape::Box)],
                vec(coord(4), n),
                any::<bool>(),
                gradient(n),
                vec(coord(3), n),
                -14i32..=-4,
                1.0f64..3.0,
                prop::bool::weighted(0.3),
                any::<bool>(),
            )
        })
        .prop_map(|(shape, z, quad, c, start, tolexp, boost, init_gamma, parallel)| Opt { shape, z, quad, c, start, tolexp, boost, init_gamma, parallel })
        .boxed()
}
impl Opt {
    fn n(&self) -> usize {
        self.z.len()
    }
    /// value to maximise
    fn f(&self, x: &[f64]) -> f64 {
        if self.quad {
            let d = sub(x, &scl(self.boost * 3.0, &self.c));
            -dot(&d, &d)
        } else {
            dot(&self.c, x)
        }
    }
    fn viol(&self, x: &[f64]) -> Option<(V, f64, Option<f64>)> {
        match &self.shape {
            Shape::Ball(r) => {
                let d = sub(x, &self.z);
                let nd = norm(&d);
                if nd > *r { Some((scl(1.0 / nd, &d), nd - r, None)) } else { None }
            }
            Shape::Box(w) => {
                for i in 0..x.len() {
                    let v = x[i] - self.z[i];
                    if v.abs() > w[i] {
                        let s = v.signum();
                        let mut g = vec![0.0; x.len()];
                        g[i] = s;
                        return Some((g, v.abs() - w[i], Some(v.abs() + w[i])));
                    }
                }
                None
            }
        }
    }
    fn optimum(&self) -> (V, f64) {
        let n = self.n();
        let x: V = if self.quad {
            let t = scl(self.boost * 3.0, &self.c);
            match &self.shape {
                Shape::Ball(r) => {
                    let d = sub(&t, &self.z);
                    let nd = norm(&d);
                    if nd <= *r { t } else { axpy(&self.z, r / nd, &d) }
                }
                Shape::Box(w) => (0..n).map(|i| t[i].clamp(self.z[i] - w[i], self.z[i] + w[i])).collect(),
            }
        } else {
            match &self.shape {
                Shape::Ball(r) => axpy(&self.z, r / norm(&self.c), &self.c),
                Shape::Box(w) => (0..n).map(|i| self.z[i] + w[i] * self.c[i].signum() * if self.c[i] == 0.0 { 0.0 } else { 1.0 }).collect(),
            }
        };
        let f = self.f(&x);
        (x, f)
    }
    fn inradius(&self) -> f64 {
        match &self.shape {
            Shape::Ball(r) => *r,
            Shape::Box(w) => w.iter().cloned().fold(f64::INFINITY, f64::min),
        }
    }
    fn outradius(&self) -> f64 {
        match &self.shape {
            Shape::Ball(r) => *r,
            Shape::Box(w) => norm(w),
        }
    }
    fn ask(&self, x: &Arr, gamma: &mut f64) -> ((V, f64, Option<f64>), bool) {
        let v = vecof(x);
        if !finite(&v) {
            panic!("the oracle was queried at a non-finite point");
        }
        if let Some(c) = self.viol(&v) {
            return (c, false);
        }
        let f = self.f(&v);
        // gradient of -f
        let g = if self.quad { scl(2.0, &sub(&v, &scl(self.boost * 3.0, &self.c))) } else { scl(-1.0, &self.c) };
        if f > *gamma {
            *gamma = f;
            return ((g, 0.0, None), true);
        }
        ((g, *gamma - f, None), false)
    }
}
struct OPar<'a>(&'a Opt);
struct OSin<'a>(&'a Opt);
impl OracleOptim<Arr> for OPar<'_> {
    type CutChoice = ParallelCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, ParallelCut), bool) {
        let (c, s) = self.0.ask(x, gamma);
        ((arr(&c.0), ParallelCut(c.1, c.2)), s)
    }
}
impl OracleOptim<Arr> for OSin<'_> {
    type CutChoice = SingleCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        let (c, s) = self.0.ask(x, gamma);
        ((arr(&c.0), SingleCut(c.1)), s)
    }
}

fn optimum_case(p: &Opt, far: f64) -> R {
    let n = p.n() as f64;
    let (xs, fs) = p.optimum();
    let d = sub(&p.start, &p.z);
    let rad = (norm(&d) + p.outradius() + 0.1) * far;
    let dist = norm(&sub(&p.start, &xs));
    // objective range on F
    let t = scl(p.boost * 3.0, &p.c);
    let range = if p.quad { let far = norm(&sub(&t, &p.z)) + p.outradius(); far * far } else { 2.0 * norm(&p.c) * p.outradius() };
    let tol = 10f64.powi(p.tolexp);
    let gmin = if p.quad { 0.0 } else { norm(&p.c).min(1.0) };
    let rel_goal = 1e-4f64;
    let rounds = (2.0 * n * (n + 1.0) * (rad / p.inradius() / rel_goal).ln()).ceil() as usize + 5;
    let mut vals = vec![];
    for stable in [false, true] {
        let mut gamma = f64::NEG_INFINITY;
        if p.init_gamma {
            gamma = fs - 0.5 * range;
        }
        let g0 = gamma;
        let opt = Options { max_iters: rounds, tolerance: tol * tol, verbose: false };
        let k = rad * rad;
        let (x, it) = match (stable, p.parallel) {
            (false, false) => cutting_plane_optim(&mut OSin(p), &mut Ell::new_with_scalar(k, arr(&p.start)), &mut gamma, &opt),
            (true, false) => cutting_plane_optim(&mut OSin(p), &mut EllStable::new_with_scalar(k, arr(&p.start)), &mut gamma, &opt),
            (false, true) => cutting_plane_optim(&mut OPar(p), &mut Ell::new_with_scalar(k, arr(&p.start)), &mut gamma, &opt),
            (true, true) => cutting_plane_optim(&mut OPar(p), &mut EllStable::new_with_scalar(k, arr(&p.start)), &mut gamma, &opt),
        };
        ensure!(it <= rounds, "more rounds than the limit");
        let x = x.ok_or_else(|| format!("no point returned after {it} rounds (stable {stable}), optimum {fs}, initial target {g0}"))?;
        let x = vecof(&x);
        ensure!(p.viol(&x).is_none(), "returned point is infeasible");
        let fx = p.f(&x);
        ensure!(fx == gamma, "value {fx} at the returned point is not the final target {gamma}");
        ensure!(gamma > g0, "target did not improve");
        ensure!(fx <= fs + 1e-7 * (1.0 + fs.abs()), "value {fx} above the true optimum {fs}");
        // width stop: half-width sqrt(tsq) < tol along a gradient of norm >= gmin (constraint gradients have norm 1)
        let width = if p.quad { // |g| = 2 dist(x, t) may vanish: f gap along the whole ellipsoid <= |g| w + w^2 is not available; use volume only when g is small
            (tol * range / p.inradius()).max(2.0 * tol * range.sqrt() / p.inradius().min(1.0)).max((tol * tol).max(tol) * 10.0) * 10.0
        } else { tol / gmin * range / p.inradius() };
        // a far start costs the plain representation digits (squared radii spanning (rad / final width)^2): allow for that
        let slack = if far > 1.0 { 100.0 } else { 1.0 };
        let vol = if it >= rounds { range * rel_goal } else { 0.0 };
        let gap = slack * (width.max(vol) + 1e-6 * (1.0 + fs.abs() + range));
        ensure!(fs - fx <= gap, "value {fx} is {} below the optimum {fs}; allowed gap {gap} (stable {stable}, rounds {it} of {rounds})", fs - fx);
        vals.push((fx, gap));
    }
    ensure!((vals[0].0 - vals[1].0).abs() <= vals[0].1 + vals[1].1, "plain and stable runs end at {} and {}", vals[0].0, vals[1].0);
    ok_if(dist > 0.05)
}
pub fn c13(ctx: &mut Ctx) {
    ctx.assumptions.push("gap bound: with feasible set F (inradius r, objective range D on F) every e-better point set contains an (e/D)-scaled copy of F, so it cannot be cut down below that volume or width".into());
    ctx.sub("optimum", "linear or quadratic objective over a ball or box with closed-form optimum, both representations, single or parallel cuts; returned point feasible, its value is the final target and within the volume/width gap bound of the optimum; non-trivial: at least two improving rounds' worth of gap, i.e. the optimum is not the start", 4000, 60000, optp, |p| optimum_case(p, 1.0));
    ctx.sub("remote", "the same from an initial ellipsoid 10 to 1000 times too large, so that hundreds of rounds pass before the first feasible point; non-trivial: as above", 60, 1500, || (prop_oneof![optp(), optn(8)], 1.0f64..3.0), |(p, e)| optimum_case(p, 10f64.powf(*e)));
}
