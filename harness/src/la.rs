//! Small dense linear algebra, independent of the crate under test.
pub type V = Vec<f64>;

#[derive(Clone, Debug)]
pub struct Mat {
    pub n: usize,
    pub m: usize,
    pub a: Vec<f64>,
}
impl Mat {
    pub fn zeros(n: usize, m: usize) -> Mat {
        Mat { n, m, a: vec![0.0; n * m] }
    }
    pub fn eye(n: usize) -> Mat {
        let mut r = Mat::zeros(n, n);
        for i in 0..n {
            r.set(i, i, 1.0);
        }
        r
    }
    pub fn from_vec(n: usize, m: usize, a: Vec<f64>) -> Mat {
        assert_eq!(a.len(), n * m);
        Mat { n, m, a }
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.a[i * self.m + j]
    }
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.a[i * self.m + j] = v;
    }
    pub fn t(&self) -> Mat {
        let mut r = Mat::zeros(self.m, self.n);
        for i in 0..self.n {
            for j in 0..self.m {
                r.set(j, i, self.at(i, j));
            }
        }
        r
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        assert_eq!(self.m, o.n);
        let mut r = Mat::zeros(self.n, o.m);
        for i in 0..self.n {
            for k in 0..self.m {
                let x = self.at(i, k);
                for j in 0..o.m {
                    r.a[i * o.m + j] += x * o.at(k, j);
                }
            }
        }
        r
    }
    pub fn mv(&self, v: &[f64]) -> V {
        (0..self.n).map(|i| (0..self.m).map(|j| self.at(i, j) * v[j]).sum()).collect()
    }
    pub fn scale(&self, s: f64) -> Mat {
        Mat { n: self.n, m: self.m, a: self.a.iter().map(|x| x * s).collect() }
    }
    pub fn maxabs(&self) -> f64 {
        self.a.iter().fold(0.0, |m, x| m.max(x.abs()))
    }
    pub fn is_finite(&self) -> bool {
        self.a.iter().all(|x| x.is_finite())
    }
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn sub(a: &[f64], b: &[f64]) -> V {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn add(a: &[f64], b: &[f64]) -> V {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
pub fn axpy(a: &[f64], s: f64, b: &[f64]) -> V {
    a.iter().zip(b).map(|(x, y)| x + s * y).collect()
}
pub fn scl(s: f64, a: &[f64]) -> V {
    a.iter().map(|x| s * x).collect()
}
pub fn finite(a: &[f64]) -> bool {
    a.iter().all(|x| x.is_finite())
}
/// Lower Cholesky factor, or None if not numerically positive definite.
pub fn chol(p: &Mat) -> Option<Mat> {
    let n = p.n;
    let mut l = Mat::zeros(n, n);
    for i in 0..n {
        for j in 0..=i {
            let mut s = p.at(i, j);
            for k in 0..j {
                s -= l.at(i, k) * l.at(j, k);
            }
            if i == j {
                if !(s > 0.0) || !s.is_finite() {
                    return None;
                }
                l.set(i, i, s.sqrt());
            } else {
                l.set(i, j, s / l.at(j, j));
            }
        }
    }
    Some(l)
}
pub fn fsolve(l: &Mat, b: &[f64]) -> V {
    let n = l.n;
    let mut x = b.to_vec();
    for i in 0..n {
        for k in 0..i {
            x[i] -= l.at(i, k) * x[k];
        }
        x[i] /= l.at(i, i);
    }
    x
}
/// Solves L' x = b
pub fn bsolve(l: &Mat, b: &[f64]) -> V {
    let n = l.n;
    let mut x = b.to_vec();
    for i in (0..n).rev() {
        for k in i + 1..n {
            x[i] -= l.at(k, i) * x[k];
        }
        x[i] /= l.at(i, i);
    }
    x
}
/// L^-1 P L^-T
pub fn congr_inv(l: &Mat, p: &Mat) -> Mat {
    let n = l.n;
    let mut t = Mat::zeros(n, n);
    for j in 0..n {
        let col: V = (0..n).map(|i| p.at(i, j)).collect();
        let y = fsolve(l, &col);
        for i in 0..n {
            t.set(i, j, y[i]);
        }
    }
    let mut r = Mat::zeros(n, n);
    for i in 0..n {
        let row: V = (0..n).map(|j| t.at(i, j)).collect();
        let y = fsolve(l, &row);
        for j in 0..n {
            r.set(i, j, y[j]);
        }
    }
    r
}
/// Jacobi eigenvalues (ascending) and eigenvectors (columns) of a symmetric matrix.
pub fn eig(p: &Mat) -> (V, Mat) {
    let n = p.n;
    let mut a = p.clone();
    let mut v = Mat::eye(n);
    for _ in 0..100 {
        let mut off = 0.0;
        for i in 0..n {
            for j in 0..i {
                off += a.at(i, j) * a.at(i, j);
            }
        }
        let sc = a.maxabs();
        if off.sqrt() <= 1e-17 * sc || off == 0.0 {
            break;
        }
        for pq in 0..n {
            for q in pq + 1..n {
                let apq = a.at(pq, q);
                if apq == 0.0 {
                    continue;
                }
                let th = (a.at(q, q) - a.at(pq, pq)) / (2.0 * apq);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a.at(k, pq), a.at(k, q));
                    a.set(k, pq, c * x - s * y);
                    a.set(k, q, s * x + c * y);
                }
                for k in 0..n {
                    let (x, y) = (a.at(pq, k), a.at(q, k));
                    a.set(pq, k, c * x - s * y);
                    a.set(q, k, s * x + c * y);
                }
                a.set(pq, q, 0.0);
                a.set(q, pq, 0.0);
                for k in 0..n {
                    let (x, y) = (v.at(k, pq), v.at(k, q));
                    v.set(k, pq, c * x - s * y);
                    v.set(k, q, s * x + c * y);
                }
            }
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&i, &j| a.at(i, i).partial_cmp(&a.at(j, j)).unwrap_or(std::cmp::Ordering::Equal));
    let vals = idx.iter().map(|&i| a.at(i, i)).collect();
    let mut vv = Mat::zeros(n, n);
    for (c, &i) in idx.iter().enumerate() {
        for k in 0..n {
            vv.set(k, c, v.at(k, i));
        }
    }
    (vals, vv)
}
pub fn eigvals(p: &Mat) -> V {
    eig(p).0
}
/// Extreme eigenvalues of a positive definite matrix, to about nine digits each (relative to themselves).
pub fn extremes(p: &Mat) -> (f64, f64) {
    let n = p.n;
    let mut a = p.clone();
    for _ in 0..60 {
        let mut done = true;
        for i in 0..n {
            for j in i + 1..n {
                let x = a.a[i * n + j];
                let (ai, aj) = (a.a[i * n + i], a.a[j * n + j]);
                if x == 0.0 || x.abs() <= 1e-10 * (ai * aj).sqrt() {
                    continue;
                }
                done = false;
                let th = (aj - ai) / (2.0 * x);
                let t = if th == 0.0 { 1.0 } else { th.signum() / (th.abs() + (th * th + 1.0).sqrt()) };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a.a[i * n + k], a.a[j * n + k]);
                    a.a[i * n + k] = c * x - s * y;
                    a.a[j * n + k] = s * x + c * y;
                }
                for k in 0..n {
                    a.a[k * n + i] = a.a[i * n + k];
                    a.a[k * n + j] = a.a[j * n + k];
                }
                a.a[i * n + i] = ai - t * x;
                a.a[j * n + j] = aj + t * x;
                a.a[i * n + j] = 0.0;
                a.a[j * n + i] = 0.0;
            }
        }
        if done {
            break;
        }
    }
    let d = (0..n).map(|i| a.a[i * n + i]);
    (d.clone().fold(f64::INFINITY, f64::min), d.fold(0.0, f64::max))
}
/// Orthogonal matrix from a list of Householder vectors.
pub fn householder(n: usize, vs: &[V]) -> Mat {
    let mut q = Mat::eye(n);
    for v in vs {
        let nn = dot(v, v);
        if nn < 1e-12 {
            continue;
        }
        // q <- q (I - 2 v v'/nn)
        for i in 0..n {
            let s: f64 = (0..n).map(|k| q.at(i, k) * v[k]).sum::<f64>() * 2.0 / nn;
            for k in 0..n {
                let x = q.at(i, k) - s * v[k];
                q.set(i, k, x);
            }
        }
    }
    q
}
/// Q diag(d) Q'
pub fn spectral(q: &Mat, d: &[f64]) -> Mat {
    let n = q.n;
    let mut r = Mat::zeros(n, n);
    for i in 0..n {
        for j in 0..=i {
            let s: f64 = (0..n).map(|k| q.at(i, k) * d[k] * q.at(j, k)).sum();
            r.set(i, j, s);
            r.set(j, i, s);
        }
    }
    r
}
