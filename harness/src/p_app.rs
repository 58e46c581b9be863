//! C17-C21: the application oracles (profit, discrete profit, SVM, max-cut, quasiconvex).
use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::la::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;
use ellalgo_rs::oracles::maxcut_oracle::MaxcutOracle;
use ellalgo_rs::oracles::profit_oracle::{ProfitOracle, ProfitOracleQ, ProfitRbOracle};
use ellalgo_rs::oracles::svm_oracle::SvmOracle;
use ellalgo_rs::quasicvx::MyOracle;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- profit model
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Econ {
    price: f64,
    scale: f64,
    limit: f64,
    a: [f64; 2],
    v: [f64; 2],
    e: [f64; 5], // e1..e5, all zero for the nominal problem; e3..e5 relative to price, limit, cost
}
impl Econ {
    fn e3(&self) -> f64 { self.e[2] * self.price }
    fn e4(&self) -> f64 { self.e[3] * self.limit }
    fn e5(&self) -> f64 { self.e[4] * self.v[0].min(self.v[1]) }
    fn log_k(&self) -> f64 { (self.limit - self.e4()).ln() }
    /// worst-case log revenue at log-quantities y
    fn log_rev(&self, y: &[f64]) -> f64 {
        let mut s = ((self.price - self.e3()) * self.scale).ln();
        for i in 0..2 {
            s += ((self.a[i] - self.e[i]) * y[i]).min((self.a[i] + self.e[i]) * y[i]);
        }
        s
    }
    fn cost(&self, y: &[f64]) -> f64 {
        (0..2).map(|i| (self.v[i] + self.e5()) * y[i].exp()).sum()
    }
    fn profit(&self, y: &[f64]) -> f64 {
        self.log_rev(y).exp() - self.cost(y)
    }
    /// maximiser of the worst-case profit within capacity (needs a+e summing below one)
    fn best(&self) -> (V, f64) {
        // does profit grow with y[i]?  Marginal revenue against marginal cost, compared in logarithms
        let grows = |y: [f64; 2], i: usize| -> bool {
            let a = if y[i] > 0.0 { self.a[i] - self.e[i] } else { self.a[i] + self.e[i] };
            a > 0.0 && a.ln() + self.log_rev(&y) > (self.v[i] + self.e5()).ln() + y[i]
        };
        let inner = |y0: f64| -> f64 {
            let (mut lo, mut hi) = (-600.0f64, 600.0f64);
            for _ in 0..90 {
                let m = 0.5 * (lo + hi);
                if grows([y0, m], 1) { lo = m } else { hi = m }
            }
            0.5 * (lo + hi)
        };
        let top = self.log_k();
        let (mut lo, mut hi) = (-600.0f64, top);
        if grows([top, inner(top)], 0) {
            lo = top;
        }
        for _ in 0..90 {
            let m = 0.5 * (lo + hi);
            if grows([m, inner(m)], 0) { lo = m } else { hi = m }
        }
        let y0 = 0.5 * (lo + hi);
        let y = vec![y0, inner(y0)];
        let f = self.profit(&y);
        (y, f)
    }
    fn params(&self) -> (f64, f64, f64) { (self.price, self.scale, self.limit) }
    fn plain(&self) -> ProfitOracle { ProfitOracle::new(self.params(), arr(&self.a), arr(&self.v)) }
    fn robust(&self) -> ProfitRbOracle {
        ProfitRbOracle::new(self.params(), arr(&self.a), arr(&self.v), (self.e[0], self.e[1], self.e3(), self.e4(), self.e5()))
    }
}
fn econ(robust: bool) -> BoxedStrategy<Econ> {
    econ_small(robust)
}
/// like `econ`, one problem in three with sales, capacity and costs of other magnitudes
fn econ_wide(robust: bool) -> BoxedStrategy<Econ> {
    prop_oneof![2 => econ_small(robust), 1 => econ_big(robust)].boxed()
}
fn econ_big(robust: bool) -> BoxedStrategy<Econ> {
    (econ_small(robust), 0.0f64..3.0, -2.0f64..2.0, 0.0f64..5.0, -1.0f64..1.0, -1.0f64..1.0)
        .prop_map(|(mut m, s, p, l, v0, v1)| {
            m.scale *= 10f64.powf(s);
            m.price *= 10f64.powf(p);
            m.limit *= 10f64.powf(l);
            m.v[0] *= 10f64.powf(v0);
            m.v[1] *= 10f64.powf(v1);
            m
        })
        .boxed()
}
fn econ_small(robust: bool) -> BoxedStrategy<Econ> {
    let unc = move |m: f64| -> BoxedStrategy<f64> {
        if robust { prop_oneof![1 => Just(0.0), 4 => 0.0..m].boxed() } else { Just(0.0).boxed() }
    };
    let unc_wide = move |m: f64| -> BoxedStrategy<f64> {
        if robust { prop_oneof![1 => Just(0.0), 4 => 0.0..m, 1 => m..0.95].boxed() } else { Just(0.0).boxed() }
    };
    (
        prop_oneof![1.0f64..40.0, (1i32..=20).prop_map(|x| x as f64)],
        prop_oneof![1.0f64..60.0, (1i32..=40).prop_map(|x| x as f64)],
        prop_oneof![3 => 0.3f64..50.0, 1 => Just(1.0), 2 => (1i32..=40).prop_map(|x| x as f64 + 0.5)],
        (0.05f64..0.5, 0.05f64..0.4),
        (prop_oneof![0.5f64..40.0, Just(1.0)], 0.5f64..40.0),
        (unc(0.04), unc(0.04), unc_wide(0.3), unc_wide(0.3), unc_wide(0.5)),
    )
        .prop_map(|(price, scale, limit, a, v, e)| Econ { price, scale, limit, a: [a.0, a.1], v: [v.0, v.1], e: [e.0, e.1, e.2, e.3, e.4] })
        .boxed()
}
/// a signed small number, 2^-1 .. 2^-32
fn near() -> BoxedStrategy<f64> {
    (1i32..=32, any::<bool>(), 1.0f64..2.0).prop_map(|(k, s, m)| m * 2f64.powi(-k - 1) * if s { 1.0 } else { -1.0 }).boxed()
}
/// one query: position, and optionally a reset of the target to a fraction of the profit there
type Ask = (u8, f64, f64, Option<f64>);
fn asks() -> BoxedStrategy<Vec<Ask>> {
    vec(
        (
            0u8..7,
            prop_oneof![3 => -2.0f64..2.0, 1 => Just(0.0), 1 => -0.1f64..0.1, 2 => near()],
            prop_oneof![3 => -2.0f64..2.0, 1 => Just(0.0), 1 => -0.1f64..0.1],
            prop::option::weighted(0.4, prop_oneof![2 => 0.0f64..0.99, 2 => 1.01f64..2.0, 2 => 0.9f64..1.1, 3 => near().prop_map(|d| 1.0 + d), 1 => -3.0f64..-0.01]),
        ),
        1..=8,
    )
    .boxed()
}
fn place(m: &Econ, best: &[f64], q: &Ask) -> V {
    match q.0 {
        0 => vec![best[0] + q.1, best[1] + q.2],
        1 => vec![best[0] + 0.1 * q.1, best[1] + 0.1 * q.2],
        2 => vec![m.log_k(), best[1] + q.2],
        3 => vec![m.log_k() + 0.5 * q.1, best[1] + 0.5 * q.2],
        4 => vec![q.1, q.2],
        6 => vec![m.log_k() + q.1, best[1] + 0.3 * q.2],
        _ => vec![best[0] - q.1.abs(), best[1] + q.2],
    }
}
fn directions() -> Vec<[f64; 2]> {
    (0..24).map(|k| { let t = k as f64 * std::f64::consts::PI / 12.0 + 0.05; [t.cos(), t.sin()] }).collect()
}
/// All candidates strictly better than gamma must satisfy the cut (g, beta) placed at y.
fn cut_keeps_better(val: &dyn Fn(&[f64]) -> Option<f64>, best: &[f64], y: &[f64], g: &[f64], beta: f64, gamma: f64, sc: f64) -> Result<usize, String> {
    ensure!(finite(g) && beta.is_finite(), "the cut ({g:?}, {beta}) is not finite");
    let mut cand: Vec<V> = vec![best.to_vec()];
    for d in directions() {
        for t in [1e-3, 0.03, 0.3, 1.5] {
            cand.push(vec![y[0] + t * d[0], y[1] + t * d[1]]);
            cand.push(vec![best[0] + t * d[0], best[1] + t * d[1]]);
        }
    }
    for k in 1..10 {
        let t = k as f64 / 10.0;
        cand.push(vec![y[0] + t * (best[0] - y[0]), y[1] + t * (best[1] - y[1])]);
    }
    let mut hits = 0;
    for z in &cand {
        let Some(f) = val(z) else { continue };
        if !(f > gamma + 1e-9 * sc) {
            continue;
        }
        hits += 1;
        let d = sub(z, y);
        let s = dot(g, &d) + beta;
        ensure!(s <= 1e-9 * (1.0 + norm(g) * norm(&d) + beta.abs()), "a better plan {z:?} (value {f} > {gamma}) violates the cut g={g:?} beta={beta} at {y:?} by {s}");
    }
    Ok(hits)
}
fn profit_sequence<O: OracleOptim<Arr, CutChoice = SingleCut>>(m: &Econ, om: &mut O, g0: f64, negative: bool, seq: &[Ask]) -> R {
    let (best, fbest) = m.best();
    let mut gamma = g0 * fbest;
    let val = |z: &[f64]| -> Option<f64> { if z[0] <= m.log_k() { Some(m.profit(z)) } else { None } };
    let (mut imp, mut rej, mut hits) = (0, 0, 0);
    for q in seq {
        let y = place(m, &best, q);
        let f = m.profit(&y);
        if let Some(k) = q.3 {
            // a negative factor asks for a negative target: near the (negative) profit, or a multiple of the cost below zero
            gamma = if k >= 0.0 { if negative { k * f } else { (k * f).max(0.0) } } else if negative { k * m.cost(&y) } else { 0.0 };
        }
        let old = gamma;
        let ((g, SingleCut(beta)), shrunk) = om.assess_optim(&arr(&y), &mut gamma);
        let g = vecof(&g);
        let cap = y[0] - m.log_k();
        let need = old + m.cost(&y);
        let low = if need > 0.0 { need.ln() - m.log_rev(&y) } else { f64::NEG_INFINITY };
        let sc = m.log_rev(&y).exp() + m.cost(&y);
        if cap.max(low) > 1e-10 {
            ensure!(!shrunk, "improvement reported at {y:?} although capacity excess is {cap} and profit {f} vs target {old}");
        }
        if (cap < -1e-10 || (y[0] == 0.0 && m.limit == 1.0 && m.e[3] == 0.0)) && low < -1e-10 {
            ensure!(shrunk, "no improvement reported at {y:?} (capacity slack {cap}, profit {f}, target {old})");
        }
        if shrunk {
            ensure!((gamma - f).abs() <= 1e-10 * sc, "target set to {gamma}, the profit at {y:?} is {f}");
            ensure!(gamma >= old - 1e-10 * sc, "target went down from {old} to {gamma}");
            ensure!(beta.abs() <= 1e-10, "improving cut does not pass through the plan: offset {beta}");
            imp += 1;
        } else {
            ensure!(gamma == old, "target changed from {old} to {gamma} without an improvement");
            ensure!(beta > -1e-12, "the rejected plan satisfies its own cut: offset {beta}");
            rej += 1;
        }
        if gamma >= 0.0 {
            hits += cut_keeps_better(&val, &best, &y, &g, beta, gamma, sc)?;
        } else {
            ensure!(finite(&g) && beta.is_finite(), "the cut ({g:?}, {beta}) is not finite");
            hits += 1;
        }
    }
    let mut lab = vec![];
    if imp > 0 { lab.push("improvement".into()) }
    if rej > 0 { lab.push("rejection".into()) }
    ok_l(hits > 0, lab)
}
fn solve_optim<O: OracleOptim<Arr, CutChoice = SingleCut>>(om: &mut O, stable: bool, r: f64, x0: &[f64], gamma: &mut f64, opt: &Options) -> (Option<V>, usize) {
    let r = if stable {
        cutting_plane_optim(om, &mut EllStable::new_with_scalar(r * r, arr(x0)), gamma, opt)
    } else {
        cutting_plane_optim(om, &mut Ell::new_with_scalar(r * r, arr(x0)), gamma, opt)
    };
    (r.0.map(|x| vecof(&x)), r.1)
}
fn solve_profit(m: &Econ, robust: bool, off: &(f64, f64), stable: bool) -> R {
    let (best, fbest) = m.best();
    if best.iter().any(|y| *y < -200.0) {
        return ok_if(false); // no maximum above the range of doubles
    }
    let start = vec![best[0] + off.0, best[1] + off.1];
    let r = norm(&[off.0, off.1]) + 1.0;
    let mut gamma = 0.0;
    let opt = Options { max_iters: 4000, tolerance: 1e-20, verbose: false };
    let (x, it) = if robust { solve_optim(&mut m.robust(), stable, r, &start, &mut gamma, &opt) } else { solve_optim(&mut m.plain(), stable, r, &start, &mut gamma, &opt) };
    let x = x.ok_or_else(|| format!("no plan returned in {it} rounds, the maximum profit is {fbest}"))?;
    let rev = m.log_rev(&best).exp();
    let f = m.profit(&x);
    ensure!(x[0] <= m.log_k() + 1e-12, "returned plan {x:?} exceeds the capacity");
    ensure!((f - gamma).abs() <= 1e-9 * rev, "returned plan has profit {f}, final target is {gamma}");
    ensure!(gamma <= fbest + 1e-9 * rev, "target {gamma} exceeds the maximum profit {fbest}");
    ensure!(gamma >= fbest - 1e-6 * rev, "stopped in round {it} at profit {gamma}, the maximum is {fbest}");
    ok_l(it > 10, vec![if best[0] > m.log_k() - 1e-6 { "capacity-active".into() } else { "interior".into() }])
}
pub fn c17(ctx: &mut Ctx) {
    ctx.assumptions.push("cut validity is tested at non-negative targets (the level sets are convex there), verdict and new target at negative ones too; quantities within e^-4..e^6 of the optimum".into());
    ctx.sub("nominal-oracle", "query sequences of the nominal oracle at plans around the optimum, the capacity bound and the origin, with target resets; non-trivial: some sampled plan beats the target and is tested against a cut", 6000, 200000, || (econ_wide(false), prop_oneof![Just(0.0), 0.0f64..1.2], prop::bool::weighted(0.25), asks()), |(m, g0, neg, seq)| profit_sequence(m, &mut m.plain(), *g0, *neg, seq));
    ctx.sub("robust-oracle", "the same for the robust oracle against the worst-case profit over the parameter intervals", 6000, 200000, || (econ_wide(true), prop_oneof![Just(0.0), 0.0f64..1.2], prop::bool::weighted(0.25), asks()), |(m, g0, neg, seq)| profit_sequence(m, &mut m.robust(), *g0, *neg, seq));
    ctx.sub("robust-is-worst-case", "at a plan the robust oracle accepts, its target is at most the nominal profit under every sampled parameter choice in the intervals and attained by one corner; non-trivial: the plan is accepted", 4000, 100000, || (econ_wide(true), asks(), vec(-1.0f64..=1.0, 40)), |(m, seq, us)| {
        let mut hit = false;
        let (best, _) = m.best();
        let mut om = m.robust();
        for q in seq {
            let y = place(m, &best, q);
            let mut gamma = 0.0;
            let (_, shrunk) = om.assess_optim(&arr(&y), &mut gamma);
            if !shrunk { continue }
            hit = true;
            let eval = |s: &[f64]| -> f64 {
                let rev = ((m.price + s[2] * m.e3()) * m.scale).ln() + (m.a[0] + s[0] * m.e[0]) * y[0] + (m.a[1] + s[1] * m.e[1]) * y[1];
                rev.exp() - (m.v[0] + s[3] * m.e5()) * y[0].exp() - (m.v[1] + s[4] * m.e5()) * y[1].exp()
            };
            let sc = m.log_rev(&y).exp() + m.cost(&y);
            for c in us.chunks(5) {
                let f = eval(c);
                ensure!(gamma <= f + 1e-9 * sc, "robust target {gamma} exceeds the profit {f} under parameters {c:?} at {y:?}");
            }
            let mut low = f64::INFINITY;
            for k in 0..32u32 {
                let c: V = (0..5).map(|i| if k >> i & 1 == 1 { 1.0 } else { -1.0 }).collect();
                low = low.min(eval(&c));
            }
            ensure!((gamma - low).abs() <= 1e-9 * sc, "robust target {gamma}, worst corner profit {low} at {y:?}");
        }
        ok_if(hit)
    });
    ctx.sub("nominal-solve", "runs from an ellipsoid containing the analytic optimum end at the maximum profit, both representations; non-trivial: more than ten rounds", 1200, 20000, || (econ_wide(false), (-3.0f64..3.0, -3.0f64..3.0), any::<bool>()), |(m, off, st)| solve_profit(m, false, off, *st));
    ctx.sub("robust-solve", "the same for the robust oracle; non-trivial: more than ten rounds", 1200, 20000, || (econ_wide(true), (-3.0f64..3.0, -3.0f64..3.0), any::<bool>()), |(m, off, st)| solve_profit(m, true, off, *st));
}

// ---------------------------------------------------------------- C18
pub fn c18(ctx: &mut Ctx) {
    ctx.assumptions.push("better whole-unit plans are enumerated over quantities up to 40 x 120".into());
    ctx.sub("oracle", "histories of fresh queries and retries against the nominal model; every better whole-unit plan must satisfy each cut; non-trivial: a rounded plan was examined and a better whole-unit plan tested", 5000, 120000, || (econ(false), prop_oneof![Just(0.0), 0.0f64..0.9], asks(), vec(any::<bool>(), 8)), |(m, g0, seq, retries)| {
        let (best, fbest) = m.best();
        let mut om = ProfitOracleQ::new(m.params(), arr(&m.a), arr(&m.v));
        let mut gamma = g0 * fbest;
        let mut known = None;
        let mut hits = 0;
        let mut lab: Vec<String> = vec![];
        let mut rounded = false;
        for (q, rt) in seq.iter().zip(retries) {
            let y = place(m, &best, q);
            if y.iter().any(|t| *t > 4.7) { continue }
            if let Some(k) = q.3 { gamma = (k * m.profit(&y)).max(0.0) }
            let mut prev: Option<V> = None;
            for pass in 0..2 {
                let retry = pass == 1;
                let old = gamma;
                let ((g, SingleCut(beta)), shrunk, x, more) = om.assess_optim_q(&arr(&y), &mut gamma, retry);
                let (g, x) = (vecof(&g), vecof(&x));
                ensure!(finite(&g) && beta.is_finite(), "the cut is not finite");
                ensure!(gamma >= old - 1e-9 * (1.0 + old.abs()), "target decreased from {old} to {gamma}");
                ensure!(shrunk || gamma == old, "target changed without an improvement");
                if retry {
                    ensure!(!more, "a retry promises further alternatives");
                    let p = prev.clone().unwrap();
                    ensure!(sub(&x, &p).iter().all(|d| d.abs() <= 1e-12), "the retry examined {x:?}, the round before {p:?}");
                }
                let is_plan = x.iter().all(|t| { let e = t.exp(); e > 0.5 && (e - e.round()).abs() <= 1e-9 * e });
                if shrunk {
                    ensure!(is_plan, "improvement at {x:?}, not a plan of positive whole quantities");
                    ensure!(x[0].exp().round() <= m.limit * (1.0 + 1e-12), "improving plan {x:?} exceeds the capacity {}", m.limit);
                    let f = m.profit(&x);
                    let sc = m.log_rev(&x).exp() + m.cost(&x);
                    ensure!((gamma - f).abs() <= 1e-10 * sc, "target set to {gamma}, the plan's profit is {f}");
                    lab.push("improvement".into());
                }
                // every better whole-unit plan
                let mut bad: Option<String> = None;
                for i in 1..=40u32 {
                    if i as f64 > m.limit { break }
                    for j in 1..=120u32 {
                        let z = [(i as f64).ln(), (j as f64).ln()];
                        let sc = m.log_rev(&z).exp() + m.cost(&z);
                        if m.profit(&z) <= gamma + 1e-9 * sc { continue }
                        hits += 1;
                        let d = sub(&z, &y);
                        let s = dot(&g, &d) + beta;
                        if s > 1e-9 * (1.0 + norm(&g) * norm(&d) + beta.abs()) && bad.is_none() {
                            bad = Some(format!("better plan ({i},{j}) violates the cut g={g:?} beta={beta} at {y:?} (examined {x:?}, retry {retry}) by {s}"));
                        }
                    }
                }
                if let Some(b) = bad {
                    // signature of the listed defect: the cut of the rounded plan moved to the query in the wrong direction
                    let mut cand: Vec<(V, f64)> = vec![];
                    let c = m.cost(&x);
                    let rev = m.log_rev(&x);
                    let gr = |den: f64| -> V { (0..2).map(|i| m.v[i] * x[i].exp() / den - m.a[i]).collect() };
                    if shrunk { cand.push((gr(rev.exp()), 0.0)) } else {
                        cand.push((gr(old + c), (old + c).ln() - rev));
                        cand.push((vec![1.0, 0.0], x[0] - m.log_k()));
                    }
                    let sig = cand.iter().any(|(cg, cb)| {
                        let wrong = cb + dot(cg, &sub(&x, &y));
                        sub(cg, &g).iter().all(|d| d.abs() <= 1e-9) && (wrong - beta).abs() <= 1e-9 * (1.0 + beta.abs()) && (*cb > 0.0 || shrunk)
                    });
                    ensure!(sig, "{b}");
                    known = Some("transport-sign");
                }
                let moved = sub(&x, &y).iter().any(|d| *d != 0.0);
                rounded |= moved;
                prev = Some(x);
                // a feasibility cut at the query itself is never retried by the driver
                if pass == 0 && (!rt || !is_plan || !moved) { break }
            }
        }
        lab.sort();
        lab.dedup();
        Ok(Out { nontrivial: rounded && hits > 0, labels: lab, known })
    });
    ctx.sub("large", "problems with optimal quantities up to millions: verdict, rounded plan, target and retry of the oracle around the optimum; non-trivial: a rounded plan with a quantity above 1000 was examined", 6000, 120000, || (econ_big(false), asks(), vec(any::<bool>(), 8)), |(m, seq, retries)| {
        let (best, _) = m.best();
        let mut om = ProfitOracleQ::new(m.params(), arr(&m.a), arr(&m.v));
        let mut gamma = 0.0;
        let mut nt = false;
        for (q, rt) in seq.iter().zip(retries) {
            let y = place(m, &best, q);
            if y.iter().any(|t| *t > 20.0) { continue }
            if let Some(k) = q.3 { gamma = (k * m.profit(&y)).max(0.0) }
            let cap = y[0] - m.log_k();
            let low = (gamma + m.cost(&y)).ln() - m.log_rev(&y);
            for pass in 0..1 + usize::from(*rt) {
                let old = gamma;
                let ((g, SingleCut(beta)), shrunk, x, more) = om.assess_optim_q(&arr(&y), &mut gamma, pass == 1);
                let (g, x) = (vecof(&g), vecof(&x));
                ensure!(finite(&g) && beta.is_finite(), "the cut is not finite");
                ensure!(shrunk || gamma == old, "target changed without an improvement");
                if pass == 0 && cap.max(low) > 1e-10 {
                    ensure!(!shrunk && more && x == y, "a query that is itself no improvement (capacity excess {cap}, shortfall {low}) was answered with plan {x:?}, improvement {shrunk}");
                    break;
                }
                if cap.max(low) > -1e-10 { break }
                // the rounded plan: nearest whole quantities, at least one (ties and last-digit neighbours either way)
                for i in 0..2 {
                    let (e, q) = (y[i].exp(), x[i].exp());
                    let w = q.round();
                    ensure!(w >= 1.0 && (q - w).abs() <= 1e-9 * q, "examined plan {x:?} has quantity {q}, not a positive whole number");
                    ensure!((w - e).abs() <= 0.5 + 1e-9 * e || (w == 1.0 && e < 1.5), "examined quantity {w} for a query of {e}");
                    nt |= w > 1000.0;
                }
                let f = m.profit(&x);
                let sc = m.log_rev(&x).exp() + m.cost(&x);
                let xcap = x[0] - m.log_k();
                if shrunk {
                    ensure!(xcap <= 1e-10 && f >= old - 1e-10 * sc, "improvement reported for {x:?} with capacity excess {xcap}, profit {f}, target {old}");
                    ensure!((gamma - f).abs() <= 1e-10 * sc, "target set to {gamma}, the plan's profit is {f}");
                } else {
                    ensure!(xcap > -1e-10 || f <= old + 1e-10 * sc, "no improvement reported for {x:?} with capacity slack {xcap}, profit {f}, target {old}");
                }
                ensure!(more == (pass == 0), "alternatives promised: {more} in pass {pass}");
            }
        }
        ok_if(nt)
    });
    ctx.sub("driver", "complete discrete searches: a returned plan is whole, positive, within capacity and its profit is the final target; otherwise the target is unchanged; non-trivial: a plan is returned", 2000, 30000, || (econ(false), (-2.0f64..2.0, -2.0f64..2.0), any::<bool>(), 1usize..200), |(m, off, st, lim)| {
        let (best, _) = m.best();
        let start = [best[0] + off.0, best[1] + off.1];
        let r = norm(&[off.0, off.1]) + 1.0;
        let mut om = ProfitOracleQ::new(m.params(), arr(&m.a), arr(&m.v));
        let mut gamma = 0.0;
        let opt = Options { max_iters: *lim, tolerance: 1e-16, verbose: false };
        let (x, it) = if *st {
            cutting_plane_optim_q(&mut om, &mut EllStable::new_with_scalar(r * r, arr(&start)), &mut gamma, &opt)
        } else {
            cutting_plane_optim_q(&mut om, &mut Ell::new_with_scalar(r * r, arr(&start)), &mut gamma, &opt)
        };
        ensure!(it <= *lim, "more rounds than the limit");
        match x {
            None => { ensure!(gamma == 0.0, "no plan returned but target is {gamma}"); ok_if(false) }
            Some(x) => {
                let x = vecof(&x);
                let q: V = x.iter().map(|t| t.exp()).collect();
                ensure!(q.iter().all(|e| *e > 0.5 && (e - e.round()).abs() <= 1e-9 * e), "returned plan {q:?} is not whole");
                ensure!(q[0].round() <= m.limit * (1.0 + 1e-12), "returned plan {q:?} exceeds the capacity {}", m.limit);
                let f = m.profit(&x);
                let sc = m.log_rev(&x).exp() + m.cost(&x);
                ensure!((gamma - f).abs() <= 1e-9 * sc, "returned plan has profit {f}, final target is {gamma}");
                ok()
            }
        }
    });
}

// ---------------------------------------------------------------- C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Svm {
    n: usize,
    rows: Vec<V>,
    labels: Vec<bool>,
}
fn svm() -> BoxedStrategy<Svm> {
    (prop_oneof![12 => 1usize..=5, 1 => 6usize..=20])
        .prop_flat_map(|n| (prop_oneof![12 => 1usize..=12, 1 => 13usize..=300]).prop_flat_map(move |m| (Just(n), vec(vec(coord(4), n), m), vec(any::<bool>(), m), vec(prop::option::weighted(0.15, (0usize..m, near())), m))))
        .prop_map(|(n, mut rows, mut labels, twins)| {
            // near-copies of other samples: almost tied margins
            for (i, t) in twins.iter().enumerate() {
                if let Some((j, d)) = t {
                    rows[i] = rows[*j].clone();
                    rows[i][0] += d * 2f64.powi(-8);
                    labels[i] = labels[*j];
                }
            }
            Svm { n, rows, labels }
        })
        .boxed()
}
fn svm_oracle(n: usize, rows: &[V], labels: &[bool]) -> SvmOracle {
    SvmOracle::new(Arr::from_shape_vec(rows.len(), n, rows.concat()), labels.iter().map(|&b| if b { 1 } else { -1 }).collect())
}
fn svm_queries(p: &Svm, qs: &[(V, f64)]) -> R {
    let mut om = svm_oracle(p.n, &p.rows, &p.labels);
    let mut lab = vec![];
    for (w, s) in qs {
        let w: V = w[..=p.n].iter().map(|t| t * s).collect();
        let mags: V = p.rows.iter().map(|x| 1.0 + dot(&w[..p.n].iter().map(|t| t.abs()).collect::<V>(), &x.iter().map(|t| t.abs()).collect::<V>()) + w[p.n].abs()).collect();
        let marg: V = p.rows.iter().zip(&p.labels).map(|(x, &l)| (dot(&w[..p.n], x) + w[p.n]) * if l { 1.0 } else { -1.0 }).collect();
        let tol = 1e-12 * mags.iter().cloned().fold(0.0, f64::max);
        let min = marg.iter().cloned().fold(f64::INFINITY, f64::min);
        let mut gamma = 77.0;
        let ((g, SingleCut(beta)), shrunk) = om.assess_optim(&arr(&w), &mut gamma);
        let g = vecof(&g);
        ensure!(g.len() == p.n + 1, "gradient has {} entries", g.len());
        ensure!(shrunk, "the query was not reported as an improvement");
        let null = g.iter().all(|t| *t == 0.0);
        if null { ensure!(beta == 0.0, "null cut with offset {beta}"); }
        if min >= 1.0 + tol {
            ensure!(null && gamma == 0.0, "all margins are at least one ({min}) but the answer is gradient {g:?}, target {gamma}");
        }
        if min == 1.0 && p.rows.iter().flatten().chain(&w).all(|t| (t * 64.0).fract() == 0.0 && t.abs() < 1e4) {
            ensure!(null && gamma == 0.0, "the smallest margin is exactly one but the answer is gradient {g:?}, target {gamma}");
        }
        if min < 1.0 - tol {
            ensure!(!null, "smallest margin {min} is below one but the cut is null");
            ensure!((gamma - min).abs() <= tol, "target set to {gamma}, the smallest margin is {min}");
            ensure!((beta - min).abs() <= tol, "offset {beta}, the smallest margin is {min}");
            let fits = (0..p.rows.len()).any(|i| {
                let y = if p.labels[i] { 1.0 } else { -1.0 };
                marg[i] <= min + 2.0 * tol && (0..p.n).all(|j| g[j] == -y * p.rows[i][j]) && g[p.n] == -y
            });
            ensure!(fits, "the cut {g:?} is not that of a sample with the smallest margin {min}; margins {marg:?}");
        }
        lab.push(if min >= 1.0 { "separated".into() } else if min < 0.0 { "misclassified".to_string() } else { "inside-margin".into() });
    }
    ok_l(p.rows.len() >= 2, lab)
}
pub fn c19(ctx: &mut Ctx) {
    ctx.sub("oracle", "labelled samples (ties and duplicates included) queried at several classifiers, one oracle; non-trivial: at least two samples", 8000, 200000, || (svm(), vec((vec(coord(3), 21), prop_oneof![4 => Just(1.0), 1 => 0.01f64..1e3]), 1..=5)), |(p, qs)| svm_queries(p, qs));
    ctx.sub("near-one", "labels planted by the queried classifier, which is rescaled so that the smallest margin lies within 2^-1..2^-32 of one, on either side or exactly at it; non-trivial: at least two samples", 8000, 200000, || (svm(), vec(coord(3), 21), vec(prop_oneof![6 => near(), 1 => Just(0.0)], 1..=5)), |(p, w, ds)| {
        let w = &w[..=p.n];
        let sc: V = p.rows.iter().map(|x| dot(&w[..p.n], x) + w[p.n]).collect();
        let keep: Vec<usize> = (0..sc.len()).filter(|&i| sc[i].abs() > 1e-3).collect();
        if keep.is_empty() { return ok_if(false) }
        let q = Svm { n: p.n, rows: keep.iter().map(|&i| p.rows[i].clone()).collect(), labels: keep.iter().map(|&i| sc[i] > 0.0).collect() };
        let min = keep.iter().map(|&i| sc[i].abs()).fold(f64::INFINITY, f64::min);
        let qs: Vec<(V, f64)> = ds.iter().map(|d| (w.to_vec(), (1.0 + d) / min)).collect();
        svm_queries(&q, &qs)
    });
    ctx.sub("exact-one", "data, weights and bias on a dyadic grid (all sums exact), the bias placed so that the smallest margin is one plus or minus 2^-1..2^-40 or exactly one: the verdict, target and offset must be exact; non-trivial: at least two samples", 8000, 200000, || {
        (1usize..=4).prop_flat_map(|n| (vec(-32i32..=32, n), vec(vec(-32i32..=32, n), 1..=10), prop_oneof![6 => 1i32..=40, 1 => Just(0)], any::<bool>(), any::<u16>()))
    }, |(w, rows, k, below, mask)| {
        let n = w.len();
        let w: V = w.iter().map(|t| *t as f64 / 4.0).collect();
        let rows: Vec<V> = rows.iter().map(|r| r.iter().map(|t| *t as f64 / 4.0).collect()).collect();
        let sc: V = rows.iter().map(|r| dot(&w, r)).collect();
        let lead = sc[0];
        let d = if *k == 0 { 0.0 } else { 2f64.powi(-*k) * if *below { -1.0 } else { 1.0 } };
        // sample 0 decides; the others keep a margin of at least that, on either side
        let b = 1.0 - lead + d;
        let mut keep = vec![(0usize, true)];
        for i in 1..rows.len() {
            if sc[i] >= lead && (mask >> i & 1 == 0 || sc[i] + b <= 0.0) { keep.push((i, true)) }
            else if -sc[i] - b >= 1.0 + d { keep.push((i, false)) }
        }
        let rk: Vec<V> = keep.iter().map(|t| rows[t.0].clone()).collect();
        let lk: Vec<bool> = keep.iter().map(|t| t.1).collect();
        let mut om = svm_oracle(n, &rk, &lk);
        let mut q = w.clone();
        q.push(b);
        let mut gamma = 5.0;
        let ((g, SingleCut(beta)), _) = om.assess_optim(&arr(&q), &mut gamma);
        let null = g.iter().all(|t| *t == 0.0);
        if d >= 0.0 {
            ensure!(null && gamma == 0.0 && beta == 0.0, "the smallest margin is one plus {d:e} but the answer is gradient {g:?}, offset {beta}, target {gamma}");
        } else {
            ensure!(!null && gamma == 1.0 + d && beta == 1.0 + d, "the smallest margin is one minus {:e} but the answer is gradient {g:?}, offset {beta}, target {gamma}", -d);
        }
        ok_if(rk.len() >= 2)
    });
    ctx.sub("separable", "data separable by a planted classifier whose neighbourhood ball lies in the initial ellipsoid; the run must end with all margins at least one within the theoretical number of rounds; non-trivial: at least three rounds", 2500, 40000, || {
        (1usize..=4).prop_flat_map(|n| (vec(-1.0f64..1.0, n + 1), vec(vec(coord(3), n), 2..=12), 0.05f64..0.4, vec(-1.0f64..1.0, n + 1), any::<bool>()))
    }, |(dir, rows, r, start, st)| {
        let n = dir.len() - 1;
        let mut dir = dir.clone();
        if norm(&dir[..n]) < 0.1 { dir[0] += 0.5 }
        // planted classifier: all margins >= 1 with room for a ball of radius r in (w, b)
        let ext: Vec<V> = rows.iter().map(|x| { let mut e = x.clone(); e.push(1.0); e }).collect();
        let keep: Vec<usize> = (0..rows.len()).filter(|&i| dot(&dir, &ext[i]).abs() >= 0.15).collect();
        if keep.is_empty() { return ok_if(false) }
        let need = keep.iter().map(|&i| (1.0 + r * norm(&ext[i])) / dot(&dir, &ext[i]).abs()).fold(0.0, f64::max);
        let w = scl(need, &dir);
        let rows2: Vec<V> = keep.iter().map(|&i| rows[i].clone()).collect();
        let labels: Vec<bool> = keep.iter().map(|&i| dot(&dir, &ext[i]) > 0.0).collect();
        let rad = norm(&sub(&w, start)) + r;
        let nn = (n + 1) as f64;
        let bound = 2.0 * (nn + 1.0) * nn * (rad / r).ln() + 3.0;
        let opt = Options { max_iters: bound.ceil() as usize + 2, tolerance: 1e-20, verbose: false };
        let mut gamma = f64::INFINITY;
        let (x, it) = solve_optim(&mut svm_oracle(n, &rows2, &labels), *st, rad, start, &mut gamma, &opt);
        let x = x.ok_or("no classifier returned")?;
        let min = rows2.iter().zip(&labels).map(|(x0, &l)| (dot(&x[..n], x0) + x[n]) * if l { 1.0 } else { -1.0 }).fold(f64::INFINITY, f64::min);
        ensure!(min >= 1.0 - 1e-9, "stopped in round {it} (bound {bound}) with smallest margin {min}, target {gamma}");
        ensure!(gamma == 0.0, "separated but the target is {gamma}");
        ok_if(it >= 3)
    });
}

// ---------------------------------------------------------------- C20
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Graph {
    n: usize,
    w: Vec<i16>,  // strict upper triangle, quarters
    diag: Vec<i16>,
}
impl Graph {
    fn at(&self, i: usize, j: usize) -> f64 {
        if i == j { return self.diag[i] as f64 / 4.0 }
        let (i, j) = (i.min(j), i.max(j));
        self.w[i * self.n - i * (i + 1) / 2 + j - i - 1] as f64 / 4.0
    }
    fn oracle(&self) -> MaxcutOracle {
        let n = self.n;
        MaxcutOracle::new(Arr::from_shape_vec(n, n, (0..n * n).map(|k| self.at(k / n, k % n)).collect()))
    }
    fn cut(&self, side: &[bool]) -> f64 {
        let mut s = 0.0;
        for i in 0..self.n { for j in i + 1..self.n { if side[i] != side[j] { s += self.at(i, j) } } }
        s
    }
    fn max(&self) -> f64 {
        (0..1u32 << (self.n - 1)).map(|m| self.cut(&(0..self.n).map(|i| m >> i & 1 == 1).collect::<Vec<_>>())).fold(f64::NEG_INFINITY, f64::max)
    }
}
fn graph() -> BoxedStrategy<Graph> {
    graph_n((2usize..=8).boxed())
}
fn graph_n(n: BoxedStrategy<usize>) -> BoxedStrategy<Graph> {
    (n, prop::bool::weighted(0.3), prop::bool::weighted(0.3))
        .prop_flat_map(|(n, neg, dg)| {
            (
                Just(n),
                vec(prop_oneof![2 => Just(0i16), 5 => (if neg { -20i16 } else { 0 })..=40], n * (n - 1) / 2),
                vec(if dg { -8i16..=8 } else { 0i16..=0 }, n),
            )
        })
        .prop_map(|(n, w, diag)| Graph { n, w, diag })
        .boxed()
}
fn side(x: &[f64]) -> Vec<bool> {
    x.iter().map(|v| *v >= 0.0).collect()
}
pub fn c20(ctx: &mut Ctx) {
    let q = || vec(vec(prop_oneof![4 => -2.0f64..2.0, 1 => Just(0.0), 2 => (scale(300.0), any::<bool>()).prop_map(|(x, s)| if s { x } else { -x }), 1 => (-2i32..=2).prop_map(|k| k as f64)], 40), 1..=6);
    ctx.sub("oracle", "weighted graphs (negative weights and self-loops included, exactly summable weights) queried in sequence with exact ties between weight and target; non-trivial: some query crosses an edge", 8000, 200000, move || (graph_n(prop_oneof![8 => 1usize..=8, 2 => 9usize..=40].boxed()), q(), prop_oneof![Just(f64::NEG_INFINITY), (-20i32..80).prop_map(|k| k as f64 / 4.0), Just(0.0)], vec(prop::option::weighted(0.4, (-1i8..=1, 2i32..=38)), 6)), |(gr, qs, g0, resets)| {
        let mut om = gr.oracle();
        let mut gamma = *g0;
        let mut nt = false;
        let mut lab = vec![];
        for (x, rs) in qs.iter().zip(resets) {
            let x = &x[..gr.n];
            let s = side(x);
            let cut = gr.cut(&s);
            if let Some((d, k)) = rs { gamma = cut + *d as f64 * 2f64.powi(-*k) }
            let old = gamma;
            let ((g, SingleCut(_)), shrunk) = om.assess_optim(&arr(x), &mut gamma);
            ensure!(shrunk == (cut > old), "cut weight {cut}, target {old}, improvement reported: {shrunk}");
            ensure!(gamma == if shrunk { cut } else { old }, "target became {gamma}; weight {cut}, previous target {old}");
            let want: V = (0..gr.n).map(|i| -2.0 * (0..gr.n).filter(|&j| s[i] != s[j]).map(|j| gr.at(i, j)).sum::<f64>()).collect();
            ensure!(vecof(&g) == want, "gradient {:?}, expected {want:?}", vecof(&g));
            nt |= want.iter().any(|t| *t != 0.0);
            lab.push(if shrunk { "improved".into() } else if cut == old { "tie".to_string() } else { "worse".into() });
        }
        ok_l(nt, lab)
    });
    ctx.sub("run", "optimisation runs; the final target is the weight of the returned point's cut, at least the initial target and at most the true maximum (exhaustive enumeration); non-trivial: an improvement happened", 4000, 80000, || (graph(), vec(prop_oneof![4 => -2.0f64..2.0, 1 => Just(0.0)], 8), prop_oneof![Just(f64::NEG_INFINITY), Just(0.0), (0i32..40).prop_map(|k| k as f64 / 4.0)], 0.5f64..20.0, 1usize..100, any::<bool>()), |(gr, x0, g0, r, lim, st)| {
        let mut gamma = *g0;
        let opt = Options { max_iters: *lim, tolerance: 1e-12, verbose: false };
        let (x, it) = solve_optim(&mut gr.oracle(), *st, *r, &x0[..gr.n], &mut gamma, &opt);
        ensure!(it <= *lim, "more rounds than the limit");
        let max = gr.max();
        match x {
            None => { ensure!(gamma == *g0, "no point returned but the target moved to {gamma}"); ok_if(false) }
            Some(x) => {
                let c = gr.cut(&side(&x));
                ensure!(c == gamma, "returned point has cut weight {c}, target is {gamma}");
                ensure!(gamma > *g0 && gamma <= max, "target {gamma} not in ({g0}, {max}]");
                ok_l(true, vec![if gamma == max { "optimal".into() } else { "suboptimal".into() }])
            }
        }
    });
}

// ---------------------------------------------------------------- C21
pub fn c21(ctx: &mut Ctx) {
    let best = [0.5f64.sqrt(), 0.5];
    let gstar = (-0.5f64).exp() * 0.5f64.sqrt();
    ctx.assumptions.push("cut validity is tested at non-negative targets (the constraint -s + t e^l is convex there), the verdict at negative ones too".into());
    ctx.sub("oracle", "query sequences with target resets around the ratio at the query; non-trivial: some sampled feasible point with better ratio is tested against a cut", 8000, 200000, || (prop_oneof![Just(0.0), 0.0f64..0.5], vec((prop_oneof![-1.5f64..2.5, (-4i32..=8).prop_map(|k| k as f64 / 4.0), 0.5f64..0.9], prop_oneof![4 => -1.0f64..3.0, 4 => (-4i32..=8).prop_map(|k| k as f64 / 4.0), 4 => 0.3f64..0.7, 1 => 3.0f64..40.0], prop::option::weighted(0.4, prop_oneof![0.5f64..1.5, near().prop_map(|d| 1.0 + d)]), prop::option::weighted(0.3, near())), 1..=8), prop::bool::weighted(0.2)), move |(g0, seq, negative)| {
        let mut om = MyOracle::default();
        let mut gamma = *g0;
        let mut hits = 0;
        let mut lab = vec![];
        let val = |z: &[f64]| -> Option<f64> { if z[0] * z[0] <= z[1] { Some(z[0] / z[1].exp()) } else { None } };
        for (s, l, reset, edge) in seq {
            // optionally right next to the constraint s^2 <= l
            let l = &match edge { Some(d) => s * s + d, None => *l };
            let ratio = s / l.exp();
            if let Some(k) = reset { gamma = if *negative { k * ratio } else { (k * ratio).max(0.0) } }
            let old = gamma;
            let y = [*s, *l];
            let ((g, SingleCut(beta)), shrunk) = om.assess_optim(&arr(&y), &mut gamma);
            let g = vecof(&g);
            let c0 = s * s - l;
            let c1 = -s + old * l.exp();
            let exact = (s * 4.0).fract() == 0.0 && (l * 4.0).fract() == 0.0; // c0 is exact
            if c0 > 1e-12 || (exact && c0 > 0.0) || c1 > 1e-12 { ensure!(!shrunk, "improvement reported at {y:?} with constraint values {c0}, {c1}"); }
            if (c0 < -1e-12 || (exact && c0 <= 0.0)) && (c1 < -1e-12 || (old == 0.0 && *s >= 0.0)) { ensure!(shrunk, "no improvement at {y:?} with constraint values {c0}, {c1}"); }
            if shrunk {
                ensure!((gamma - ratio).abs() <= 1e-13 * ratio.abs(), "target set to {gamma}, the ratio is {ratio}");
                ensure!(beta.abs() <= 1e-12, "improving cut has offset {beta}");
                lab.push("improved".to_string());
            } else {
                ensure!(gamma == old, "target changed without an improvement");
                ensure!(beta > 0.0 || beta.abs() < 1e-12, "the rejected query satisfies its own cut: offset {beta}");
                lab.push("rejected".into());
            }
            if gamma >= 0.0 {
                hits += cut_keeps_better(&val, &best, &y, &g, beta, gamma, 1.0)?;
            } else {
                ensure!(finite(&g) && beta.is_finite(), "the cut ({g:?}, {beta}) is not finite");
            }
        }
        ok_l(hits > 0, lab)
    });
    ctx.sub("solve", "runs from ellipsoids containing the optimum end at the analytic maximum, both representations; non-trivial: more than ten rounds", 2500, 40000, || (-4.0f64..4.0, -4.0f64..4.0, 0.3f64..4.0, any::<bool>(), prop_oneof![Just(0.0), 0.0f64..0.4]), move |(a, b, extra, st, g0)| {
        let start = [best[0] + a, best[1] + b];
        let r = norm(&[*a, *b]) + extra;
        let mut gamma = *g0;
        let (x, it) = solve_optim(&mut MyOracle::default(), *st, r, &start, &mut gamma, &Options { max_iters: 4000, tolerance: 1e-20, verbose: false });
        let x = x.ok_or_else(|| format!("no point returned in {it} rounds"))?;
        ensure!(x[0] * x[0] <= x[1] + 1e-12, "returned point {x:?} is infeasible");
        ensure!((x[0] / x[1].exp() - gamma).abs() <= 1e-12, "ratio at the returned point is not the target {gamma}");
        ensure!(gamma <= gstar + 1e-12 && gamma >= gstar - 1e-6, "ended at {gamma} in round {it}, the maximum is {gstar}");
        ok_if(it > 10)
    });
}
