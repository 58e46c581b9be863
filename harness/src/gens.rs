//! Shared generators.
use crate::la::*;
use ellalgo_rs::arr::Arr;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn arr(v: &[f64]) -> Arr {
    Arr::from(v.to_vec())
}
pub fn arr2(m: &Mat) -> Arr {
    Arr::from_shape_vec(m.n, m.m, m.a.clone())
}
pub fn vecof(a: &Arr) -> V {
    a.iter().copied().collect()
}

/// k/8 for small k: exact ties and zeros happen.
pub fn grid(lo: i32, hi: i32) -> impl Strategy<Value = f64> + Clone {
    (lo * 8..=hi * 8).prop_map(|k| k as f64 / 8.0)
}
/// values in [-r, r]: continuous, dyadic-grid, integers, zero
pub fn coord(r: i32) -> impl Strategy<Value = f64> + Clone {
    prop_oneof![
        5 => (-1.0f64..1.0).prop_map(move |x| x * r as f64),
        3 => grid(-r, r),
        2 => (-r..=r).prop_map(|k| k as f64),
        1 => Just(0.0),
    ]
}
/// 10^e (e real), and exact powers of two/four
pub fn scale(e: f64) -> impl Strategy<Value = f64> + Clone {
    prop_oneof![
        3 => (-e..e).prop_map(|x: f64| 10f64.powf(x)),
        2 => (-(e * 3.0) as i32..=(e * 3.0) as i32).prop_map(|k| 2f64.powi(k)),
        2 => Just(1.0),
    ]
}
/// dimension, biased to small but reaching `max`
pub fn dim(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![6 => 2usize..=4, 3 => 2usize..=8.min(max), 2 => 2usize..=max].boxed()
}
/// non-zero gradient
pub fn gradient(n: usize) -> BoxedStrategy<V> {
    prop_oneof![
        5 => vec(coord(2), n),
        // sparse
        2 => (0..n, prop_oneof![Just(1.0), Just(-1.0), Just(2.0), Just(0.5)]).prop_map(move |(i, s)| { let mut g = vec![0.0; n]; g[i] = s; g }),
        1 => (0..n, 0..n, coord(2), coord(2)).prop_map(move |(i, j, a, b)| { let mut g = vec![0.0; n]; g[i] = a; g[j] = b; g }),
        1 => prop_oneof![Just(1.0), Just(-1.0), Just(0.5)].prop_map(move |s| vec![s; n]),
    ]
    .prop_map(|mut g| {
        if norm(&g) < 0.05 {
            g[0] = 1.0;
        }
        g
    })
    .boxed()
}

/// Initial ellipsoid: mode 0 scalar, 1 diagonal, 2 full matrix (with kappa), 3 full matrix, kappa 1 (covariance)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpaceSpec {
    pub mode: u8,
    pub kappa: f64,
    pub diag: V,
    pub low: V, // strictly lower triangle of the unit-triangular factor
    pub xc: V,
}
impl SpaceSpec {
    pub fn n(&self) -> usize {
        self.xc.len()
    }
    /// The unscaled shape matrix M (kappa excluded)
    pub fn m(&self) -> Mat {
        let n = self.n();
        match self.mode {
            0 => Mat::eye(n),
            1 => {
                let mut m = Mat::zeros(n, n);
                for i in 0..n {
                    m.set(i, i, self.diag[i]);
                }
                m
            }
            _ => {
                let mut l = Mat::eye(n);
                let mut k = 0;
                for i in 0..n {
                    for j in 0..i {
                        l.set(i, j, self.low[k]);
                        k += 1;
                    }
                }
                // symmetrise exactly
                let mut m = Mat::zeros(n, n);
                for i in 0..n {
                    for j in 0..=i {
                        let s: f64 = (0..n).map(|k| l.at(i, k) * self.diag[k] * l.at(j, k)).sum();
                        m.set(i, j, s);
                        m.set(j, i, s);
                    }
                }
                m
            }
        }
    }
    pub fn kap(&self) -> f64 {
        match self.mode {
            1 | 3 => 1.0,
            _ => self.kappa,
        }
    }
    /// P = kappa * M
    pub fn p(&self) -> Mat {
        self.m().scale(self.kap())
    }
}
pub fn space_spec_n(n: usize, kexp: f64) -> BoxedStrategy<SpaceSpec> {
    (
        0u8..4,
        scale(kexp),
        vec(prop_oneof![3 => 0.2f64..4.0, 1 => Just(1.0), 1 => (-2i32..=2).prop_map(|k| 4f64.powi(k))], n),
        vec(prop_oneof![3 => -1.0f64..1.0, 1 => grid(-1, 1), 1 => Just(0.0)], n * (n - 1) / 2),
        vec(coord(5), n),
        any::<bool>(),
        // unit of length carried by the matrix itself
        prop_oneof![4 => Just(1.0), 1 => scale(4.0), 1 => scale(11.0)],
    )
        .prop_map(move |(mode, kappa, mut diag, mut low, mut xc, local, unit)| {
            let unit = if mode == 0 { 1.0 } else { unit };
            for x in diag.iter_mut() {
                *x *= unit;
            }
            if local || unit != 1.0 {
                // centre of the same order as the ellipsoid
                for x in xc.iter_mut() {
                    *x *= (if mode == 1 || mode == 3 { unit } else { kappa * unit }).sqrt();
                }
            }
            // keep the condition number moderate in higher dimension
            let f = 1.0 / (n as f64).sqrt().max(1.0);
            for x in low.iter_mut() {
                *x *= f;
            }
            SpaceSpec { mode, kappa, diag, low, xc }
        })
        .boxed()
}

/// kind: 0 bias, 1 central, 2 q.  form: 0 single, 1 parallel without second bound, 2 parallel.
/// a0, a1: offsets in units of the half-width tau.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CutSpec {
    pub kind: u8,
    pub form: u8,
    pub g: V,
    pub gs: f64,
    pub a0: f64,
    pub a1: f64,
}
/// Cuts in the documented domain that must succeed or (q) may have no effect; bounded away from degenerate (flat) results.
pub fn cut_spec(n: usize, gexp: f64) -> BoxedStrategy<CutSpec> {
    let nf = n as f64;
    let width = prop_oneof![4 => 0.05f64..1.0, 2 => 0.05f64..0.3, 2 => 1.0f64..3.0, 1 => (1.3f64..2.7).prop_map(|e| 10f64.powf(-e))];
    (0u8..3, 0u8..3, gradient(n), scale(gexp), 0.0f64..1.0, width, 0u8..10, 0u8..24)
        .prop_map(move |(kind, form, g, gs, u, w, sel, refuse)| {
            let (a0, a1) = match kind {
                // bias: deep mostly, shallow down to -1/n sometimes
                0 => {
                    let a0 = match sel {
                        0 => 0.0,
                        1 | 2 => -u / nf * 0.98,
                        _ => u * 0.93,
                    };
                    // shallow parallel cuts: keep eta = 1 + n a0 a1 > 0 since a1 is capped at 1 in effect
                    (a0, a0 + w)
                }
                // central: the near offset is not part of the cut
                1 => (if sel < 4 { 0.0 } else { 1.5 * u - 0.5 }, w),
                _ => {
                    let a0 = match sel {
                        0 => 0.0,
                        1 | 2 | 3 => -1.4 * u,
                        4 | 5 => -u / nf,
                        _ => u * 0.93,
                    };
                    (a0, a0 + w)
                }
            };
            // now and then a cut that leaves nothing (refused)
            let (a0, a1) = if refuse == 0 && kind != 1 { (1.0 + u + 1e-3, 1.5 + u + w) } else { (a0, a1) };
            CutSpec { kind, form, g, gs, a0, a1 }
        })
        .boxed()
}

/// Symmetric matrix with given spectrum and a product of Householder reflections.
pub fn sym_from(n: usize, d: &[f64], hv: &[V]) -> Mat {
    spectral(&householder(n, hv), d)
}
