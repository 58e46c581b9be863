//! Uniform access to the two ellipsoid representations, shape observation, reference model of cuts.
use crate::gens::*;
use crate::la::*;
use ellalgo_rs::cutting_plane::{CutStatus, ParallelCut, SearchSpace, SingleCut};
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Success,
    NoSoln,
    NoEffect,
    Unknown,
}
pub fn st(s: CutStatus) -> St {
    match s {
        CutStatus::Success => St::Success,
        CutStatus::NoSoln => St::NoSoln,
        CutStatus::NoEffect => St::NoEffect,
        CutStatus::Unknown => St::Unknown,
    }
}

#[derive(Clone, Debug)]
pub enum Space {
    E(Ell),
    S(EllStable),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rep {
    Plain,
    NoDefer,
    Stable,
    /// plain, with deferral switched on and off between cuts by the check
    Switched,
}
pub const REPS: [Rep; 3] = [Rep::Plain, Rep::NoDefer, Rep::Stable];

pub fn build(s: &SpaceSpec, rep: Rep) -> Space {
    let xc = arr(&s.xc);
    match rep {
        Rep::Stable => Space::S(match s.mode {
            0 => EllStable::new_with_scalar(s.kappa, xc),
            1 => EllStable::new(arr(&s.diag), xc),
            _ => EllStable::new_with_matrix(s.kap(), arr2(&s.m()), xc),
        }),
        _ => {
            let mut e = match s.mode {
                0 => Ell::new_with_scalar(s.kappa, xc),
                1 => Ell::new(arr(&s.diag), xc),
                2 => Ell::new_with_matrix(s.kappa, arr2(&s.m()), xc),
                _ => Ell::from_covariance(arr2(&s.m()), xc),
            };
            if rep == Rep::NoDefer {
                e.no_defer_trick = true;
            }
            Space::E(e)
        }
    }
}
pub fn build_mat(kappa: f64, m: &Mat, xc: &[f64], rep: Rep) -> Space {
    match rep {
        Rep::Stable => Space::S(EllStable::new_with_matrix(kappa, arr2(m), arr(xc))),
        _ => {
            let mut e = Ell::new_with_matrix(kappa, arr2(m), arr(xc));
            e.no_defer_trick = rep == Rep::NoDefer;
            Space::E(e)
        }
    }
}

macro_rules! both {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Space::E($x) => $e,
            Space::S($x) => $e,
        }
    };
}

impl Space {
    pub fn xc(&self) -> V {
        both!(self, x => vecof(&x.xc()))
    }
    pub fn tsq(&self) -> f64 {
        both!(self, x => x.tsq())
    }
    pub fn set_deferral(&mut self, on: bool) {
        if let Space::E(e) = self {
            e.no_defer_trick = !on;
        }
    }
    pub fn set_xc(&mut self, v: &[f64]) {
        both!(self, x => x.set_xc(arr(v)))
    }
    pub fn single(&mut self, kind: u8, g: &[f64], b0: f64) -> St {
        let c = (arr(g), SingleCut(b0));
        both!(self, x => st(match kind { 0 => x.update_bias_cut(&c), 1 => x.update_central_cut(&c), _ => x.update_q(&c) }))
    }
    pub fn parallel(&mut self, kind: u8, g: &[f64], b0: f64, b1: Option<f64>) -> St {
        let c = (arr(g), ParallelCut(b0, b1));
        both!(self, x => st(match kind { 0 => x.update_bias_cut(&c), 1 => x.update_central_cut(&c), _ => x.update_q(&c) }))
    }
    pub fn cut(&mut self, kind: u8, form: u8, g: &[f64], b0: f64, b1: f64) -> St {
        match form {
            0 => self.single(kind, g, b0),
            1 => self.parallel(kind, g, b0, None),
            _ => self.parallel(kind, g, b0, Some(b1)),
        }
    }
    /// g'Pg observed through a refused cut on a copy.
    pub fn quad(&self, g: &[f64]) -> Result<f64, String> {
        let mut c = self.clone();
        let s = c.single(0, g, 1e150);
        if s != St::NoSoln {
            return Err(format!("a bias cut of depth 1e150 was answered {s:?}"));
        }
        Ok(c.tsq())
    }
    /// The full matrix P = kappa*M, observed by polarisation with normalised probes.
    pub fn shape(&self) -> Result<Mat, String> {
        let n = self.xc().len();
        let mut d = vec![0.0; n];
        for i in 0..n {
            let mut g = vec![0.0; n];
            g[i] = 1.0;
            let q = self.quad(&g)?;
            if !(q > 0.0) || !q.is_finite() {
                return Err(format!("shape is not positive definite: e{i}'Pe{i} = {q}"));
            }
            d[i] = q.sqrt();
        }
        let mut p = Mat::zeros(n, n);
        for i in 0..n {
            p.set(i, i, d[i] * d[i]);
            for j in 0..i {
                let mut g = vec![0.0; n];
                g[i] = 1.0 / d[i];
                g[j] = 1.0 / d[j];
                let qp = self.quad(&g)?;
                g[j] = -g[j];
                let qm = self.quad(&g)?;
                let v = (qp - qm) / 4.0 * d[i] * d[j];
                p.set(i, j, v);
                p.set(j, i, v);
            }
        }
        if !p.is_finite() {
            return Err("shape is not finite".into());
        }
        Ok(p)
    }
}

/// Observed ellipsoid
#[derive(Clone)]
pub struct Obs {
    pub c: V,
    pub p: Mat,
    pub l: Mat,
    pub cond: f64,
    /// smallest semi-axis
    pub rmin: f64,
}
impl Obs {
    /// rounding of the centre coordinates, in units of the ellipsoid's smallest semi-axis
    pub fn ctol(&self) -> f64 {
        200.0 * f64::EPSILON * norm(&self.c) / self.rmin
    }
}
pub fn observe(s: &Space) -> Result<Obs, String> {
    let c = s.xc();
    if !finite(&c) {
        return Err(format!("centre is not finite: {c:?}"));
    }
    let p = s.shape()?;
    let l = match chol(&p) {
        Some(l) => l,
        None => return Err("observed shape matrix is not positive definite".into()),
    };
    let (lo, hi) = extremes(&p);
    let cond = hi / lo.max(f64::MIN_POSITIVE);
    if !(lo > 0.0) {
        return Err(format!("observed shape matrix is not positive definite (smallest eigenvalue {lo})"));
    }
    let rmin = lo.sqrt();
    Ok(Obs { c, p, l, cond, rmin })
}

/// New ellipsoid in the coordinates in which the old one is the unit ball.
pub struct Rel {
    pub c: V,
    pub q: Mat,
}
pub fn relative(old: &Obs, new_c: &[f64], new_p: &Mat) -> Rel {
    Rel { c: fsolve(&old.l, &sub(new_c, &old.c)), q: congr_inv(&old.l, new_p) }
}
/// unit gradient direction in normalised coordinates and tau
pub fn unit_grad(o: &Obs, g: &[f64]) -> (V, f64) {
    let w = o.l.t().mv(g);
    let t = norm(&w);
    (scl(1.0 / t, &w), t)
}

/// Reference minimum-volume cut, offsets normalised by tau. Returns (rho/tau, sigma, delta).
/// The kept part is -a1 <= s <= -a0 of the unit ball; a0 >= -1 and a1 <= 1 after clamping.
/// The enclosing ellipsoids are |v|^2 - 1 + lambda (s+a0)(s+a1) <= 0; sigma = lambda/(1+lambda).
pub fn reference(n: f64, a0: f64, a1: f64) -> (f64, f64, f64) {
    let a0 = a0.max(-1.0);
    let a1 = a1.min(1.0);
    let b = 0.5 * (a0 + a1);
    let pr = a0 * a1;
    let h = |s: f64| n * (b * b * (2.0 * s - s * s) - pr) - ((1.0 - s) + s * s * b * b - s * pr);
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    if 1.0 + n * pr <= 0.0 {
        return (0.0, 0.0, 1.0);
    }
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if h(m) < 0.0 {
            lo = m;
        } else {
            hi = m;
        }
    }
    let s = 0.5 * (lo + hi);
    let lam = s / (1.0 - s);
    let delta = if s < 1.0 - 1e-9 { 1.0 + lam * (s * b * b - pr) } else { f64::NAN };
    (s * b, s, delta)
}
/// log of squared volume ratio of a (sigma, delta) pair
pub fn logvol2(n: f64, sigma: f64, delta: f64) -> f64 {
    n * delta.ln() + (1.0 - sigma).ln()
}

/// Effective normalised slab [a0, a1] of a cut spec (what the cut keeps), as applied.
pub fn effective(c: &CutSpec) -> (f64, f64) {
    let a0 = if c.kind == 1 { 0.0 } else { c.a0 };
    let a1 = if c.form == 2 { c.a1 } else { 1.0 };
    (a0.max(-1.0), a1.min(1.0))
}
/// In the documented domain? (bias cuts whose inactive far bound leaves eta >= 0)
pub fn in_domain(n: usize, c: &CutSpec) -> bool {
    let (a0, a1) = effective(c);
    if c.kind == 0 {
        1.0 + n as f64 * a0 * a1 > 1e-6
    } else {
        true
    }
}
