//! C01..C07: ellipsoid geometry.
use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::la::*;
use crate::spaces::*;
use ellalgo_rs::cutting_plane::ParallelCut;
use ellalgo_rs::ell_calc::{EllCalc, EllCalcCore};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const EPS: f64 = f64::EPSILON;
const MAXCOND: f64 = 1e7;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub space: SpaceSpec,
    pub cuts: Vec<CutSpec>,
}
fn hist(maxn: usize, maxlen: usize, kexp: f64, gexp: f64) -> BoxedStrategy<Hist> {
    dim(maxn)
        .prop_flat_map(move |n| (space_spec_n(n, kexp), vec(cut_spec(n, gexp), 1..=maxlen)))
        .prop_map(|(space, cuts)| Hist { space, cuts })
        .boxed()
}
/// Long histories that stay well conditioned: cycles of cuts of one kind and depth, one along each (perturbed) axis.
fn steady(maxn: usize, maxlen: usize) -> BoxedStrategy<Hist> {
    (2usize..=maxn)
        .prop_flat_map(move |n| {
            let cycle = (0u8..3, 0u8..3, 0u8..4, 0.0f64..0.3, 0.3f64..2.5, any::<bool>(), -2i32..=2);
            (space_spec_n(n, 2.0), vec((cycle, vec(-0.15f64..0.15, n * n)), (maxlen / 2 / n).max(1)..=(maxlen / n).max(1)))
        })
        .prop_map(|(space, cycles)| {
            let n = space.n();
            let mut cuts = vec![];
            for ((kind, form, sel, u, w, neg, ge), noise) in cycles {
                for k in 0..n {
                    let mut g: V = noise[k * n..(k + 1) * n].to_vec();
                    g[k] = if neg { -1.0 } else { 1.0 };
                    let a0 = match kind { 0 => if sel == 0 { -u / n as f64 } else { u }, 1 => 0.0, _ => if sel < 2 { -u / n as f64 } else { u } };
                    cuts.push(CutSpec { kind, form, g, gs: 10f64.powi(ge), a0, a1: a0 + w });
                }
            }
            Hist { space, cuts }
        })
        .boxed()
}
fn wide(maxlen: usize) -> BoxedStrategy<Hist> {
    (13usize..=40).prop_flat_map(move |n| (space_spec_n(n, 2.0), vec(cut_spec(n, 1.0), 1..=maxlen))).prop_map(|(space, cuts)| Hist { space, cuts }).boxed()
}
const STEADY: &str = "hundreds of cuts of mixed kinds cycling through perturbed axes, which keeps the ellipsoid well conditioned, dimension up to 10; non-trivial: at least 100 successful cuts checked";
fn label_cut(c: &CutSpec, s: St) -> String {
    format!("{}-{}-{:?}", ["bias", "central", "q"][c.kind as usize % 3], ["single", "par-none", "par"][c.form as usize % 3], s)
}

struct Step<'a> {
    rep: Rep,
    i: usize,
    n: f64,
    cut: &'a CutSpec,
    pre: &'a Obs,
    pre_space: &'a Space,
    gh: &'a V,
    tau: f64,
    g: &'a V,
    status: St,
    post_space: &'a Space,
    a0: f64,
    a1: f64,
}

/// Drives a history, calling `f` after each in-domain cut. Ends early when the ellipsoid is too ill-conditioned
/// for the stated tolerances. Returns (number of successful cuts, labels).
/// an arbitrary but reproducible choice attached to a cut
fn bit(c: &CutSpec) -> bool {
    (c.a0.to_bits() >> 1) & 1 == 1
}
fn drive(h: &Hist, reps: &[Rep], mut f: impl FnMut(&Step) -> Result<(), String>) -> Result<(usize, Vec<String>), String> {
    let n = h.space.n();
    let mut labels = vec![];
    let mut succ = 0;
    for &rep in reps {
        let mut s = build(&h.space, rep);
        for (i, c) in h.cuts.iter().enumerate() {
            if !in_domain(n, c) {
                continue;
            }
            let pre = observe(&s).map_err(|e| format!("{rep:?} before cut {i}: {e}"))?;
            if pre.cond > MAXCOND {
                break;
            }
            let g = scl(c.gs, &c.g);
            let (gh, tau) = unit_grad(&pre, &g);
            if rep == Rep::Plain && h.cuts[0].a0.to_bits() & 1 == 1 {
                s.set_deferral(bit(c)); // in half of the histories deferral is switched between cuts
            }
            let before = s.clone();
            let status = s.cut(c.kind, c.form, &g, c.a0 * tau, c.a1 * tau);
            let (a0, a1) = effective(c);
            labels.push(label_cut(c, status));
            f(&Step { rep, i, n: n as f64, cut: c, pre: &pre, pre_space: &before, gh: &gh, tau, g: &g, status, post_space: &s, a0, a1 })
                .map_err(|e| format!("{rep:?} n={n} cut {i} ({}): {e}", label_cut(c, status)))?;
            if status == St::Success {
                succ += 1;
            }
        }
    }
    Ok((succ, labels))
}

fn tol_of(pre: &Obs, n: f64, sigma: f64, delta: f64) -> f64 {
    1e-8 + (64.0 * EPS * pre.cond * n + pre.ctol()) / ((1.0 - sigma).max(1e-12) * delta.min(1.0).max(1e-12))
}

fn contain(s: &Step) -> Result<(), String> {
    if s.status != St::Success {
        return Ok(());
    }
    let n = s.gh.len();
    let (_, sg, dl) = reference(s.n, s.a0, s.a1);
    let tol = tol_of(s.pre, s.n, sg, dl);
    if tol > 1e-3 {
        return Ok(());
    }
    let post = observe(s.post_space)?;
    let r = relative(s.pre, &post.c, &post.p);
    let lq = chol(&r.q).ok_or("new ellipsoid is degenerate relative to the old one")?;
    let (_, vecs) = eig(&r.q);
    let mut dirs: Vec<V> = vec![];
    for k in 0..n {
        dirs.push((0..n).map(|i| vecs.at(i, k)).collect());
        let mut e = vec![0.0; n];
        e[k] = 1.0;
        dirs.push(e);
    }
    dirs.push(r.c.clone());
    let (lo, hi) = (-s.a1, -s.a0);
    let mid = 0.5 * (lo + hi);
    let ss = [lo, hi, mid, 0.9 * lo + 0.1 * hi, 0.1 * lo + 0.9 * hi];
    for d in &dirs {
        let w = axpy(d, -dot(d, s.gh), s.gh);
        let nw = norm(&w);
        if nw < 1e-6 {
            continue;
        }
        for sign in [1.0, -1.0] {
            for &x in &ss {
                let rad = (1.0 - x * x).max(0.0).sqrt();
                let v = axpy(&scl(x, s.gh), sign * rad / nw, &w);
                let y = fsolve(&lq, &sub(&v, &r.c));
                let q = dot(&y, &y);
                ensure!(q <= 1.0 + tol, "a kept point of the old ellipsoid is outside the new one: (x-xc')'P'^-1(x-xc') = {q} (tolerance {tol:e}); offsets a0={} a1={}, point at s={x}", s.a0, s.a1);
            }
        }
    }
    // the poles of the slab along the gradient
    for x in [lo, hi] {
        let v = scl(x, s.gh);
        let y = fsolve(&lq, &sub(&v, &r.c));
        let q = dot(&y, &y);
        ensure!(q <= 1.0 + tol, "kept point on the gradient axis is outside the new ellipsoid: {q}");
    }
    Ok(())
}

pub fn c01(ctx: &mut Ctx) {
    ctx.assumptions.push("histories stop when the observed shape's condition number exceeds 1e7; parallel slabs are at least 10^-4.5 of tau wide".into());
    let rule = "non-trivial: at least two cuts of the history succeeded and were checked";
    ctx.sub("short", rule, 6000, 80000, || hist(12, 6, 10.0, 6.0), |h| {
        let (k, l) = drive(h, &REPS, contain)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("extreme", "squared radii from 10^-60 to 10^60; non-trivial: two successful cuts", 500, 10000, || hist(6, 6, 60.0, 6.0), |h| {
        let (k, l) = drive(h, &REPS, contain)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("long", rule, 500, 8000, || hist(6, 60, 2.0, 2.0), |h| {
        let (k, l) = drive(h, &REPS, contain)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("narrow", "a ball or moderate ellipsoid cut once or twice by slabs 10^-1 to 10^-4.5 of the half-width wide, anywhere in the ellipsoid; non-trivial: a slab cut succeeded", 12000, 200000, || {
        dim(12).prop_flat_map(|n| (space_spec_n(n, 3.0), vec((cut_spec(n, 2.0), -0.99f64..0.99, 1.0f64..4.5, any::<bool>()), 1..=2)))
            .prop_map(|(mut space, cs)| {
                if cs[0].3 { space.mode = 0; }
                let cuts = cs.into_iter().map(|(mut c, u, e, _)| {
                    let w = 10f64.powf(-e);
                    c.form = 2;
                    c.a0 = match c.kind { 0 => u.abs(), 1 => c.a0, _ => u };
                    c.a1 = if c.kind == 1 { w } else { c.a0 + w };
                    c
                }).collect();
                Hist { space, cuts }
            })
    }, |h| {
        let (k, l) = drive(h, &REPS, contain)?;
        ok_l(k >= 1, l)
    });
    ctx.sub("wide", "dimension up to 40; non-trivial: two successful cuts", 120, 2000, || {
        wide(3)
    }, |h| {
        let (k, l) = drive(h, &[Rep::Plain, Rep::Stable], contain)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("steady", STEADY, 60, 1500, || steady(10, 500), |h| {
        let (k, _) = drive(h, &REPS, contain)?;
        ok_if(k >= 100)
    });
}

fn volume(s: &Step) -> Result<(), String> {
    if s.status != St::Success {
        return Ok(());
    }
    let (_, sg, dl) = reference(s.n, s.a0, s.a1);
    let tol = tol_of(s.pre, s.n, sg, dl) * s.n;
    if tol > 1e-3 {
        return Ok(());
    }
    let post = observe(s.post_space)?;
    let hl = |o: &Obs| -> f64 { (0..o.l.n).map(|i| o.l.at(i, i).ln()).sum() };
    let dv = hl(&post) - hl(s.pre); // log volume ratio
    ensure!(dv <= tol, "the volume grew by a factor exp({dv})");
    let deep = s.a0 >= 0.0;
    if deep {
        let bound = -1.0 / (2.0 * (s.n + 1.0));
        ensure!(dv <= bound + tol, "log volume change {dv} exceeds the guaranteed {bound} of a central/deep cut (a0={}, a1={})", s.a0, s.a1);
    }
    if s.cut.form == 2 && (s.cut.kind != 0 || s.a0 > -1.0 / s.n + 1e-6) {
        let mut alt = s.pre_space.clone();
        let st1 = alt.single(s.cut.kind, s.g, s.cut.a0 * s.tau);
        if st1 == St::Success {
            let o = observe(&alt)?;
            let dv1 = hl(&o) - hl(s.pre);
            ensure!(dv <= dv1 + tol, "parallel cut keeps log volume change {dv}, the single cut with the same near bound {dv1}");
        }
    }
    Ok(())
}
pub fn c02(ctx: &mut Ctx) {
    let rule = "non-trivial: at least two cuts of the history succeeded and were checked";
    ctx.sub("short", rule, 8000, 100000, || hist(12, 5, 10.0, 6.0), |h| {
        let (k, l) = drive(h, &REPS, volume)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("extreme", "squared radii from 10^-60 to 10^60; non-trivial: two successful cuts", 500, 10000, || hist(6, 6, 60.0, 6.0), |h| {
        let (k, l) = drive(h, &REPS, volume)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("long", rule, 500, 8000, || hist(6, 60, 2.0, 2.0), |h| {
        let (k, l) = drive(h, &REPS, volume)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("wide", "dimension 13 to 40; non-trivial: two successful cuts", 120, 2000, || wide(3), |h| {
        let (k, l) = drive(h, &REPS, volume)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("steady", STEADY, 60, 1500, || steady(10, 500), |h| {
        let (k, _) = drive(h, &REPS, volume)?;
        ok_if(k >= 100)
    });
    ctx.sub("calc", "formula level, n up to 300: shrink factor of the returned parameters", 60000, 1_000_000, calc_in, |c| {
        let ec = EllCalc::new(c.n);
        let (tsq, tau) = (c.tau * c.tau, c.tau);
        let n = c.n as f64;
        let (b0, b1) = (c.a0 * tau, c.a1 * tau);
        let mut nt = false;
        let chk = |name: &str, st_: St, p: (f64, f64, f64), deep: bool, single: Option<(f64, f64, f64)>| -> Result<(), String> {
            if st_ != St::Success { return Ok(()); }
            let v = logvol2(n, p.1, p.2) / 2.0;
            ensure!(v <= 1e-9 * n, "{name}: volume grows, log ratio {v}");
            if deep {
                ensure!(v <= -1.0 / (2.0 * (n + 1.0)) + 1e-9, "{name}: log volume ratio {v} misses the guaranteed rate");
            }
            if let Some(q) = single {
                let w = logvol2(n, q.1, q.2) / 2.0;
                ensure!(v <= w + 1e-9 * n, "{name}: parallel {v} > single {w}");
            }
            Ok(())
        };
        if c.a0 >= 0.0 && c.a0 <= 0.999 {
            let (s, p) = ec.calc_bias_cut(b0, tsq);
            chk("bias", st(s), p, true, None)?;
            if c.a1 >= c.a0 + 1e-3 {
                let (s, q) = ec.calc_parallel_bias_cut(b0, b1, tsq);
                chk("parallel bias", st(s), q, true, Some(p))?;
            }
            nt = true;
        }
        let (s, p) = ec.calc_central_cut(tsq);
        chk("central", st(s), p, true, None)?;
        if c.a1 > 1e-3 {
            let (s, q) = ec.calc_parallel_central_cut(b1, tsq);
            chk("parallel central", st(s), q, true, Some(p))?;
        }
        if c.a0 <= 0.999 {
            let (s, p) = ec.calc_bias_cut_q(b0, tsq);
            let s1 = st(s);
            chk("q", s1, p, c.a0 >= 0.0, None)?;
            if c.a1 >= c.a0 + 1e-3 && c.a1 >= -0.999 {
                let (s, q) = ec.calc_parallel_q(b0, b1, tsq);
                chk("parallel q", st(s), q, c.a0 >= 0.0, if s1 == St::Success { Some(p) } else { None })?;
                nt = true;
            }
        }
        ok_if(nt)
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CalcIn {
    n: usize,
    tau: f64,
    a0: f64,
    a1: f64,
}
fn calc_in() -> BoxedStrategy<CalcIn> {
    let a = || prop_oneof![4 => -1.6f64..1.6, 3 => -1.0f64..1.0, 2 => (-24i32..=24).prop_map(|k| k as f64 / 16.0), 1 => -0.2f64..0.2];
    (
        prop_oneof![5 => 2usize..=6, 3 => 2usize..=30, 1 => 2usize..=300],
        scale(6.0),
        a(),
        a(),
        0u8..8,
    )
        .prop_map(|(n, tau, mut a0, mut a1, sel)| {
            if sel < 6 && a1 < a0 {
                std::mem::swap(&mut a0, &mut a1);
            }
            if sel == 0 {
                a0 = -a1 / n as f64; // near eta boundary
            }
            if sel == 2 {
                a1 = a0 + 10f64.powf(-1.0 - 4.0 * (a1.abs() / 1.6)); // narrow
            }
            if sel == 1 {
                a0 = -1.0 / n as f64 * (1.0 + a1 * 1e-3);
                a1 = 1.2;
            }
            CalcIn { n, tau, a0, a1 }
        })
        .boxed()
}

fn close(name: &str, n: f64, tau: f64, got: (f64, f64, f64), a0: f64, a1: f64) -> Result<(), String> {
    let r = reference(n, a0, a1);
    let w = (a1.min(1.0) - a0.max(-1.0)).max(1e-6);
    let tol = 1e-9f64.max(1e-12 / w).max(1e-14 / (w * w)); // conditioning of the closed forms near flat slabs
    ensure!((got.0 / tau - r.0).abs() <= tol, "{name}: centre step {} (in units of tau), minimum-volume value {} [n={n} a0={a0} a1={a1}]", got.0 / tau, r.0);
    ensure!((got.1 - r.1).abs() <= tol, "{name}: shape reduction {} vs minimum-volume {} [n={n} a0={a0} a1={a1}]", got.1, r.1);
    if r.2.is_finite() {
        ensure!((got.2 - r.2).abs() <= tol * r.2.abs().max(1.0), "{name}: scale factor {} vs minimum-volume {} [n={n} a0={a0} a1={a1}]", got.2, r.2);
    }
    Ok(())
}
fn same(name: &str, a: (f64, f64, f64), b: (f64, f64, f64), tau: f64, tol: f64) -> Result<(), String> {
    ensure!(((a.0 - b.0) / tau).abs() <= tol && (a.1 - b.1).abs() <= tol && (a.2 - b.2).abs() <= tol * b.2.abs().max(1.0), "{name}: {a:?} vs {b:?}");
    Ok(())
}

pub fn c03(ctx: &mut Ctx) {
    ctx.sub("calc", "n up to 300, offsets over the slab plane; non-trivial: at least one parallel or q route was checked against the numeric minimiser", 150000, 3_000_000, calc_in, |c| {
        let core = EllCalcCore::new(c.n as f64);
        let mut ec = EllCalc::new(c.n);
        let n = c.n as f64;
        let (tau, tsq) = (c.tau, c.tau * c.tau);
        let (a0, a1) = (c.a0, c.a1);
        let (b0, b1) = (a0 * tau, a1 * tau);
        let mut lab = vec![];
        let expect = |name: &str, r: (ellalgo_rs::CutStatus, (f64, f64, f64)), x0: f64, x1: f64| -> Result<(f64, f64, f64), String> {
            ensure!(st(r.0) == St::Success, "{name}: an in-domain cut was answered without success [n={n} a0={x0} a1={x1}]");
            close(name, n, tau, r.1, x0, x1)?;
            Ok(r.1)
        };
        // single routes
        if a0 <= 0.999 && 1.0 + n * a0 > 1e-9 {
            let p = expect("bias", ec.calc_bias_cut(b0, tsq), a0, 1.0)?;
            expect("bias q", ec.calc_bias_cut_q(b0, tsq), a0, 1.0)?;
            same("core bias", core.calc_bias_cut(b0, tau), p, tau, 1e-9)?;
            same("core bias fast", core.calc_bias_cut_fast(b0, tau, tau + n * b0), p, tau, 1e-9)?;
            expect("dispatch bias none", ec.calc_single_or_parallel_bias_cut(&ParallelCut(b0, None), tsq), a0, 1.0)?;
            expect("dispatch q none", ec.calc_single_or_parallel_q(&ParallelCut(b0, None), tsq), a0, 1.0)?;
            // inactive second bound
            for far in [tau * (1.0 + a1.abs() + 1e-6), tau * 1e9, 1e200, f64::INFINITY] {
                expect("inactive bias", ec.calc_parallel_bias_cut(b0, far, tsq), a0, 1.0)?;
                expect("inactive q", ec.calc_parallel_q(b0, far, tsq), a0, 1.0)?;
                expect("inactive dispatch bias", ec.calc_single_or_parallel_bias_cut(&ParallelCut(b0, Some(far)), tsq), a0, 1.0)?;
                expect("inactive dispatch q", ec.calc_single_or_parallel_q(&ParallelCut(b0, Some(far)), tsq), a0, 1.0)?;
                expect("inactive central", ec.calc_single_or_parallel_central_cut(&ParallelCut(b0, Some(far)), tsq), 0.0, 1.0)?;
            }
            // parallel cuts off
            if a1 >= a0 {
                ec.use_parallel_cut = false;
                expect("off bias", ec.calc_parallel_bias_cut(b0, b1, tsq), a0, 1.0)?;
                expect("off q", ec.calc_parallel_q(b0, b1, tsq), a0, 1.0)?;
                expect("off dispatch bias", ec.calc_single_or_parallel_bias_cut(&ParallelCut(b0, Some(b1)), tsq), a0, 1.0)?;
                expect("off dispatch q", ec.calc_single_or_parallel_q(&ParallelCut(b0, Some(b1)), tsq), a0, 1.0)?;
                ec.use_parallel_cut = true;
                lab.push("parallel-off".into());
            }
            lab.push("single".into());
        }
        // central routes
        let p = expect("central", ec.calc_central_cut(tsq), 0.0, 1.0)?;
        same("core central", core.calc_central_cut(tsq), p, tau, 1e-9)?;
        expect("dispatch central none", ec.calc_single_or_parallel_central_cut(&ParallelCut(b0, None), tsq), 0.0, 1.0)?;
        if a1 > 1e-4 {
            let q = expect("parallel central", ec.calc_parallel_central_cut(b1, tsq), 0.0, a1)?;
            expect("dispatch central", ec.calc_single_or_parallel_central_cut(&ParallelCut(b0, Some(b1)), tsq), 0.0, a1)?;
            if a1 < 1.0 {
                same("core parallel central", core.calc_parallel_central_cut(b1, tsq), q, tau, 1e-9)?;
                same("parallel bias at zero", core.calc_parallel_bias_cut(0.0, b1, tsq), q, tau, 1e-7)?;
            }
            ec.use_parallel_cut = false;
            expect("off parallel central", ec.calc_parallel_central_cut(b1, tsq), 0.0, 1.0)?;
            ec.use_parallel_cut = true;
            lab.push("central-par".into());
        }
        // parallel routes
        let (x0, x1) = (a0.max(-1.0), a1.min(1.0));
        let mut nt = false;
        if a1 >= a0 && x1 - x0 >= 1e-5 && a0 <= 0.999 && a1 >= -0.999 && 1.0 + n * x0 * x1 > 1e-9 {
            let q = expect("parallel q", ec.calc_parallel_q(b0, b1, tsq), a0, a1)?;
            expect("dispatch q", ec.calc_single_or_parallel_q(&ParallelCut(b0, Some(b1)), tsq), a0, a1)?;
            if a0 >= -1.0 && a1 >= 0.0 {
                expect("parallel bias", ec.calc_parallel_bias_cut(b0, b1, tsq), a0, a1)?;
                expect("dispatch bias", ec.calc_single_or_parallel_bias_cut(&ParallelCut(b0, Some(b1)), tsq), a0, a1)?;
            }
            if a0 >= -1.0 && a1 <= 1.0 {
                let eta = tsq + n * b0 * b1;
                let f = core.calc_parallel_bias_cut_fast(b0, b1, tsq, b0 * b1, eta);
                let o = core.calc_parallel_bias_cut_fast_old(b0, b1, tsq, b0 * b1, eta);
                let w = x1 - x0;
                same("core fast", f, q, tau, 1e-9)?;
                same("core parallel", core.calc_parallel_bias_cut(b0, b1, tsq), q, tau, 1e-9)?;
                same("original formula", o, q, tau, 1e-8 / (w * w))?;
            }
            nt = true;
            lab.push(format!("par-{}{}", if a0 < 0.0 { "neg" } else { "pos" }, if a1 < 0.0 { "neg" } else { "pos" }));
        }
        ok_l(nt || a1 > 1e-3, lab)
    });
    ctx.sub("space", "ellipsoid level: centre and shape after each successful cut equal the minimum-volume update of the observed old ellipsoid; non-trivial: two successful cuts", 4000, 60000, || hist(10, 6, 10.0, 6.0), |h| {
        let (k, l) = drive(h, &REPS, expected_update)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("extreme", "squared radii from 10^-60 to 10^60; non-trivial: two successful cuts", 400, 8000, || hist(6, 6, 60.0, 6.0), |h| {
        let (k, l) = drive(h, &REPS, expected_update)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("wide", "the same in dimension 13 to 40; non-trivial: two successful cuts", 120, 2000, || wide(3), |h| {
        let (k, l) = drive(h, &REPS, expected_update)?;
        ok_l(k >= 2, l)
    });
    ctx.sub("steady", STEADY, 60, 1500, || steady(10, 500), |h| {
        let (k, _) = drive(h, &REPS, expected_update)?;
        ok_if(k >= 100)
    });
}

fn expected_update(s: &Step) -> Result<(), String> {
    if s.status != St::Success {
        return Ok(());
    }
    let n = s.gh.len();
    let (rho, sg, dl) = reference(s.n, s.a0, s.a1);
    let tol = 1e-8 + 64.0 * EPS * s.pre.cond * s.n + s.pre.ctol();
    let post = observe(s.post_space)?;
    let r = relative(s.pre, &post.c, &post.p);
    for i in 0..n {
        let e = -rho * s.gh[i];
        ensure!((r.c[i] - e).abs() <= tol, "centre component {i} moved to {} in unit-ball coordinates, expected {e} (a0={}, a1={})", r.c[i], s.a0, s.a1);
        for j in 0..=i {
            let e = dl * (if i == j { 1.0 } else { 0.0 } - sg * s.gh[i] * s.gh[j]);
            ensure!((r.q.at(i, j) - e).abs() <= tol * dl.max(1.0) * 4.0, "shape entry ({i},{j}) is {} in unit-ball coordinates, expected {e}", r.q.at(i, j));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
/// Expected verdict set for offsets in exact units: k/8 of tau.
fn verdict(n: i64, kind: u8, form: u8, k0: i64, k1: i64, on: bool) -> Option<Vec<St>> {
    use St::*;
    const U: i64 = 8;
    let single = |q: bool| -> Option<Vec<St>> {
        if q {
            if k0 > U { return Some(vec![NoSoln]); }
            let eta = U + n * k0;
            Some(if eta < 0 { vec![NoEffect] } else if eta == 0 { vec![NoEffect, Success] } else { vec![Success] })
        } else {
            if U + n * k0 < 0 { return None; }
            Some(if k0 > U { vec![NoSoln] } else { vec![Success] })
        }
    };
    match (kind, form) {
        (1, 2) => Some(if k1 < 0 { vec![NoSoln] } else { vec![Success] }),
        (1, _) => Some(vec![Success]),
        (k, 2) => {
            let q = k == 2;
            if k1 < k0 { return Some(vec![NoSoln]); }
            if !on { return single(q); }
            if k0 > U { return Some(vec![NoSoln]); }
            if q && k1 < -U { return Some(vec![NoSoln]); }
            if !q && (k1 < 0 || k0 < -U) { return None; }
            let (x0, x1) = (k0.max(-U), k1.min(U));
            let eta = U * U + n * x0 * x1;
            if q {
                Some(if eta < 0 { vec![NoEffect] } else if eta == 0 { vec![NoEffect, Success] } else { vec![Success] })
            } else if eta < 0 { None } else { Some(vec![Success]) }
        }
        (k, _) => single(k == 2),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exact {
    n: usize,
    kpow: i32,
    axis: usize,
    gpow: i32,
    neg: bool,
    kind: u8,
    form: u8,
    k0: i64,
    k1: i64,
    on: bool,
    xc: V,
}
fn exact() -> BoxedStrategy<Exact> {
    (2usize..=16, -10i32..=10, any::<proptest::sample::Index>(), -6i32..=6, any::<bool>(), 0u8..3, 0u8..3, -14i64..=14, -14i64..=14, prop::bool::weighted(0.8))
        .prop_flat_map(|(n, kpow, ix, gpow, neg, kind, form, k0, k1, on)| {
            vec(coord(3), n).prop_map(move |xc| Exact { n, kpow, axis: ix.index(n), gpow, neg, kind, form, k0, k1, on, xc })
        })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mixed {
    space: SpaceSpec,
    warm: Vec<CutSpec>,
    kind: u8,
    form: u8,
    g: V,
    gs: f64,
    a0: f64,
    a1: f64,
}
pub fn c04(ctx: &mut Ctx) {
    ctx.sub("exact", "exactly representable ellipsoid, gradient and offsets (eighths of tau, -14/8..14/8), both representations and the calculator; non-trivial: verdict other than success, or offset on a boundary", 40000, 600000, exact, |e| {
        let n = e.n as i64;
        let g1 = 2f64.powi(e.gpow) * if e.neg { -1.0 } else { 1.0 };
        let tau = 2f64.powi(e.kpow) * 2f64.powi(e.gpow);
        let (b0, b1) = (e.k0 as f64 / 8.0 * tau, e.k1 as f64 / 8.0 * tau);
        let mut lab = vec![];
        let mut nt = false;
        // calculator
        if let Some(exp) = verdict(n, e.kind, e.form, e.k0, e.k1, e.on) {
            let mut ec = EllCalc::new(e.n);
            ec.use_parallel_cut = e.on;
            let tsq = tau * tau;
            let pc = ParallelCut(b0, Some(b1));
            let pn = ParallelCut(b0, None);
            let got = st(match (e.kind, e.form) {
                (0, 0) => ec.calc_bias_cut(b0, tsq).0,
                (1, 0) => ec.calc_central_cut(tsq).0,
                (2, 0) => ec.calc_bias_cut_q(b0, tsq).0,
                (0, 1) => ec.calc_single_or_parallel_bias_cut(&pn, tsq).0,
                (1, 1) => ec.calc_single_or_parallel_central_cut(&pn, tsq).0,
                (2, 1) => ec.calc_single_or_parallel_q(&pn, tsq).0,
                (0, _) => ec.calc_single_or_parallel_bias_cut(&pc, tsq).0,
                (1, _) => ec.calc_single_or_parallel_central_cut(&pc, tsq).0,
                _ => ec.calc_single_or_parallel_q(&pc, tsq).0,
            });
            ensure!(exp.contains(&got), "calculator: verdict {got:?}, expected {exp:?} (offsets {}/8, {}/8 of tau, n={n}, parallel cuts {})", e.k0, e.k1, e.on);
            if e.form == 2 {
                let got2 = st(match e.kind {
                    0 => ec.calc_parallel_bias_cut(b0, b1, tsq).0,
                    1 => ec.calc_parallel_central_cut(b1, tsq).0,
                    _ => ec.calc_parallel_q(b0, b1, tsq).0,
                });
                ensure!(exp.contains(&got2), "calculator (direct): verdict {got2:?}, expected {exp:?}");
            }
        }
        // ellipsoids (parallel cuts always on)
        if let Some(exp) = verdict(n, e.kind, e.form, e.k0, e.k1, true) {
            for rep in REPS {
                let spec = SpaceSpec { mode: 0, kappa: 4f64.powi(e.kpow), diag: vec![1.0; e.n], low: vec![0.0; e.n * (e.n - 1) / 2], xc: e.xc.clone() };
                let mut s = build(&spec, rep);
                let before = s.shape()?;
                let mut g = vec![0.0; e.n];
                g[e.axis] = g1;
                let got = s.cut(e.kind, e.form, &g, b0, b1);
                ensure!(exp.contains(&got), "{rep:?}: verdict {got:?}, expected {exp:?} (offsets {}/8, {}/8 of tau, n={n})", e.k0, e.k1);
                if got != St::Success {
                    nt = true;
                    ensure!(s.xc() == e.xc, "{rep:?}: refused cut moved the centre");
                    ensure!(s.shape()?.a == before.a, "{rep:?}: refused cut changed the shape");
                } else {
                    ensure!(finite(&s.xc()), "{rep:?}: centre not finite after a successful cut");
                    // an accepted cut must leave a usable ellipsoid unless the kept part itself is flat
                    let flat = e.k0.abs() == 8 || (e.form == 2 && (e.k0 == e.k1 || e.k1 == -8 || (e.kind == 1 && e.k1 == 0)));
                    if !(flat && e.kind != 1) && !(e.kind == 1 && e.form == 2 && e.k1 == 0) {
                        observe(&s).map_err(|m| format!("{rep:?}: after an accepted cut (offsets {}/8, {}/8): {m}", e.k0, e.k1))?;
                    } else {
                        // flat, but still a finite, positive semidefinite shape
                        for i in 0..e.n {
                            let mut d = vec![0.0; e.n];
                            d[i] = 1.0;
                            let q = s.quad(&d)?;
                            ensure!(q.is_finite() && q >= -1e-9 * tau * tau, "{rep:?}: shape has half-width squared {q} along axis {i} after a flat cut (offsets {}/8, {}/8)", e.k0, e.k1);
                        }
                    }
                    if e.k0 == 8 || n * e.k0 == -8 || (e.form == 2 && (e.k1.abs() == 8 || e.k0 == e.k1)) { nt = true; }
                }
                lab.push(format!("{}-{}-{:?}", e.kind, e.form, got));
            }
        }
        ok_l(nt, lab)
    });
    ctx.sub("fine", "exactly representable ellipsoid, one offset within 2^-k (k = 3..40) of a verdict boundary, on either side; dimension a power of two", 20000, 400000, || {
        (prop_oneof![Just(2usize), Just(4), Just(8), Just(16)], -10i32..=10, -6i32..=6, any::<bool>(), 3i32..=40, 0u8..9, any::<bool>(), -7i64..=7)
    }, |&(n, kpow, gpow, neg, k, which, par_none, other)| {
        let nf = n as f64;
        let tau = 2f64.powi(kpow + gpow);
        let e = 2f64.powi(-k) * if neg { -1.0 } else { 1.0 };
        let o = other as f64 / 8.0;
        use St::*;
        // (kind, parallel?, a0, a1, verdict)
        let (kind, par, a0, a1, want): (u8, bool, f64, f64, St) = match which {
            0 => (0, false, 1.0 + e, 0.0, if neg { Success } else { NoSoln }),
            1 => (2, false, 1.0 + e, 0.0, if neg { Success } else { NoSoln }),
            2 => (2, false, -(1.0 + e) / nf, 0.0, if neg { Success } else { NoEffect }),
            3 => (0, true, o.abs(), o.abs() + e, if neg { NoSoln } else { Success }),
            4 => (2, true, o, o + e, if neg { NoSoln } else if 1.0 + nf * o * (o + e) < 1e-9 { NoEffect } else { Success }),
            5 => (1, true, o, e, if neg { NoSoln } else { Success }),
            6 => (2, true, -1.0, -1.0 - e, if neg { Success } else { NoSoln }),
            7 => (2, true, -0.25, 4.0 / nf * (1.0 + e), { let a1 = (4.0 / nf * (1.0 + e)).min(1.0); if 1.0 - 0.25 * nf * a1 < 0.0 { NoEffect } else { Success } }),
            _ => (0, true, 1.0 + e, 3.0, if neg { Success } else { NoSoln }),
        };
        if which == 7 && (n < 4 || (n == 4 && !neg)) { return ok_if(false); } // bound capped at the half-width: on the boundary itself
        if which == 2 && n > 16 { return ok_if(false); }
        let (b0, b1) = (a0 * tau, a1 * tau);
        let ec = EllCalc::new(n);
        let tsq = tau * tau;
        let pc = ParallelCut(b0, if par { Some(b1) } else { None });
        let got = st(match (kind, par || par_none) {
            (0, false) => ec.calc_bias_cut(b0, tsq).0,
            (2, false) => ec.calc_bias_cut_q(b0, tsq).0,
            (0, true) => ec.calc_single_or_parallel_bias_cut(&pc, tsq).0,
            (1, _) => ec.calc_single_or_parallel_central_cut(&pc, tsq).0,
            _ => ec.calc_single_or_parallel_q(&pc, tsq).0,
        });
        ensure!(got == want, "calculator: verdict {got:?}, expected {want:?} (kind {kind}, parallel {par}, a0={a0:?}, a1={a1:?}, n={n}, tau={tau:e})");
        for rep in REPS {
            let spec = SpaceSpec { mode: 0, kappa: 4f64.powi(kpow), diag: vec![1.0; n], low: vec![0.0; n * (n - 1) / 2], xc: vec![0.0; n] };
            let mut s = build(&spec, rep);
            let mut g = vec![0.0; n];
            g[n - 1] = 2f64.powi(gpow);
            let got = s.cut(kind, if par { 2 } else { par_none as u8 }, &g, b0, b1);
            ensure!(got == want, "{rep:?}: verdict {got:?}, expected {want:?} (kind {kind}, parallel {par}, a0={a0:?}, a1={a1:?}, n={n})");
        }
        ok_l(true, vec![format!("boundary{which}-{want:?}")])
    });
    ctx.sub("generic", "random ellipsoid after a random history, offsets from far inside to far outside (guard band 1e-6); non-trivial: the verdict is not success", 12000, 200000, || {
        prop_oneof![30 => dim(8), 1 => 9usize..=32].prop_flat_map(|n| {
            let a = || prop_oneof![3 => -3.0f64..3.0, 2 => -1.2f64..1.2, 1 => 1.0f64..20.0, 1 => -20.0f64..-1.0];
            (space_spec_n(n, 4.0), vec(cut_spec(n, 2.0), 0..=5), 0u8..3, 0u8..3, gradient(n), scale(3.0), a(), a(), 0u8..4)
        }).prop_map(|(space, warm, kind, form, g, gs, mut a0, mut a1, sel)| {
            if sel < 3 && a1 < a0 { std::mem::swap(&mut a0, &mut a1); }
            Mixed { space, warm, kind, form, g, gs, a0, a1 }
        })
    }, |m| {
        let n = m.space.n();
        let nf = n as f64;
        let mut nt = false;
        let mut lab = vec![];
        for rep in REPS {
            let mut s = build(&m.space, rep);
            for c in &m.warm {
                if !in_domain(n, c) { continue; }
                let o = observe(&s)?;
                if o.cond > 1e6 { break; }
                let g = scl(c.gs, &c.g);
                let (_, tau) = unit_grad(&o, &g);
                s.cut(c.kind, c.form, &g, c.a0 * tau, c.a1 * tau);
            }
            let o = observe(&s)?;
            if o.cond > 1e8 { continue; }
            let g = scl(m.gs, &m.g);
            let (_, tau) = unit_grad(&o, &g);
            let (mut a0, a1) = (m.a0, m.a1);
            if m.kind == 0 && a0 < 0.0 { a0 = -a0 * 0.5; } // bias cuts: documented domain
            let near = |x: f64, y: f64| (x - y).abs() < 1e-6 * (1.0 + y.abs());
            use St::*;
            let par = m.form == 2;
            let exp = if m.kind == 1 {
                if par { if near(a1, 0.0) { continue; } if a1 < 0.0 { NoSoln } else { Success } } else { Success }
            } else {
                let (x0, x1) = (a0.max(-1.0), if par { a1.min(1.0) } else { 1.0 });
                if par && near(a1, a0) || near(a0, 1.0) || par && near(a1, -1.0) { continue; }
                let eta = 1.0 + nf * x0 * x1;
                if near(eta, 0.0) { continue; }
                if par && a1 < a0 || a0 > 1.0 || par && a1 < -1.0 { NoSoln }
                else if eta < 0.0 && m.kind == 2 { NoEffect }
                else { Success }
            };
            let c0 = s.xc();
            let p0 = s.shape()?;
            let got = s.cut(m.kind, m.form, &g, a0 * tau, a1 * tau);
            ensure!(got == exp, "{rep:?} n={n}: verdict {got:?}, expected {exp:?} (kind {}, form {}, a0={a0}, a1={a1})", m.kind, m.form);
            if got != Success {
                nt = true;
                ensure!(s.xc() == c0, "{rep:?}: refused cut moved the centre");
                ensure!(s.shape()?.a == p0.a, "{rep:?}: refused cut changed the shape");
            }
            lab.push(format!("{}-{}-{:?}", m.kind, m.form, got));
        }
        ok_l(nt, lab)
    });
}

// ---------------------------------------------------------------- C05
/// largest difference of centre and shape, in the coordinates in which `a` is the unit ball
fn discrepancy(a: &Obs, b: &Obs) -> (f64, f64) {
    let r = relative(a, &b.c, &b.p);
    let mut q = 0.0f64;
    for i in 0..a.c.len() {
        for j in 0..=i {
            q = q.max((r.q.at(i, j) - if i == j { 1.0 } else { 0.0 }).abs());
        }
    }
    (norm(&r.c), q)
}
/// rounding of one cut, relative to the ellipsoid
fn local(o: &Obs) -> f64 {
    500.0 * EPS * o.cond * o.c.len() as f64 + o.ctol()
}
/// by how much a cut may magnify differences that were already there
fn growth(n: f64, c: &CutSpec, st: St) -> f64 {
    if st != St::Success {
        return 1.0;
    }
    let (x0, x1) = effective(c);
    let (_, sg, dl) = reference(n, x0, x1);
    8.0 * n / ((1.0 - sg).max(1e-12) * dl.min(1.0).max(1e-12))
}
/// Three representations in lockstep, and a plain one whose deferral is switched between cuts. Rounding differences already there before a cut may grow by the factor by which the
/// cut shrinks the ellipsoid; anything beyond that and the rounding of the cut itself is a difference in meaning.
fn equivalence(h: &Hist) -> R {
    let n = h.space.n();
    let nf = n as f64;
    const ALL: [Rep; 4] = [Rep::Plain, Rep::NoDefer, Rep::Stable, Rep::Switched];
    let mut sp: Vec<Space> = ALL.iter().map(|&r| build(&h.space, r)).collect();
    let mut labels = vec![];
    let mut succ = 0;
    let mut have = [0.0f64; 4];
    let o = observe(&sp[0])?;
    for k in 1..4 {
        let (c, q) = discrepancy(&o, &observe(&sp[k]).map_err(|e| format!("{:?} at the start: {e}", ALL[k]))?);
        ensure!(c == 0.0 && q <= 1e-9 + 200.0 * EPS * o.cond * nf, "{:?} starts {c} away (centre), {q} (shape)", ALL[k]);
        have[k] = q;
    }
    'cuts: for (i, c) in h.cuts.iter().enumerate() {
        if !in_domain(n, c) {
            continue;
        }
        let o = observe(&sp[0])?;
        let g = scl(c.gs, &c.g);
        let (_, tau) = unit_grad(&o, &g);
        let (b0, b1) = (c.a0 * tau, c.a1 * tau);
        // keep clear of verdict boundaries
        let (x0, x1) = effective(c);
        let eta = 1.0 + nf * x0 * x1;
        if eta.abs() < 1e-3 || (c.kind == 2 && c.form == 2 && (c.a1 + 1.0).abs() < 1e-3) {
            continue;
        }
        let dmax = have[1].max(have[2]).max(have[3]);
        let local0 = local(&o);
        if dmax > 1e-5 || local0 > 1e-5 {
            break;
        }
        sp[3].set_deferral(bit(c));
        let sts: Vec<St> = sp.iter_mut().map(|s| s.cut(c.kind, c.form, &g, b0, b1)).collect();
        ensure!(sts.iter().all(|s| *s == sts[0]), "cut {i}: verdicts differ between representations: {sts:?}");
        for s in &sp {
            ensure!((s.tsq() - sp[0].tsq()).abs() <= (1e-9 + 4.0 * nf * dmax + local0) * sp[0].tsq(), "cut {i}: size measures differ: {} vs {}", s.tsq(), sp[0].tsq());
        }
        labels.push(label_cut(c, sts[0]));
        let a = observe(&sp[0])?;
        let grow = growth(nf, c, sts[0]);
        for k in 1..4 {
            let tol = 1e-8 + grow * (have[k] + local0) + local(&a);
            if tol > 1e-4 {
                break 'cuts;
            }
            let b = observe(&sp[k]).map_err(|e| format!("{:?} after cut {i}: {e}", ALL[k]))?;
            let (dc, dq) = discrepancy(&a, &b);
            ensure!(dc.max(dq) <= tol, "plain vs {:?} after cut {i} ({}): centres differ by {dc}, shapes by {dq} (unit-ball coordinates, tolerance {tol:e})", ALL[k], label_cut(c, sts[0]));
            have[k] = dc.max(dq);
        }
        if sts[0] == St::Success {
            succ += 1;
        }
    }
    ok_l(succ >= 2, labels)
}
pub fn c05(ctx: &mut Ctx) {
    let rule = "three representations in lockstep; non-trivial: at least two successful cuts compared";
    ctx.sub("short", rule, 8000, 120000, || hist(12, 6, 10.0, 6.0), equivalence);
    ctx.sub("long", rule, 1500, 20000, || hist(6, 60, 2.0, 2.0), equivalence);
    ctx.sub("extreme", "squared radii from 10^-60 to 10^60; non-trivial: at least two successful cuts compared", 800, 12000, || hist(6, 6, 60.0, 6.0), equivalence);
    ctx.sub("wide", rule, 200, 3000, || {
        wide(6)
    }, equivalence);
    ctx.sub("steady", STEADY, 100, 2000, || steady(10, 500), |h| { let o = equivalence(h)?; ok_if(o.labels.len() >= 100) });
}

// ---------------------------------------------------------------- C06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Cut(CutSpec),
    Move(V),
    Fork(CutSpec), // clone, cut the clone, original must not change
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops {
    space: SpaceSpec,
    ops: Vec<Op>,
}
pub fn c06(ctx: &mut Ctx) {
    ctx.sub("state", "constructor + sequence of cuts / moves / clones; observed centre, shape, size measure checked after every step; non-trivial: two successful cuts and a move or clone", 5000, 80000, || {
        prop_oneof![40 => dim(9), 1 => 10usize..=32].prop_flat_map(|n| {
            let op = prop_oneof![6 => cut_spec(n, 3.0).prop_map(Op::Cut), 1 => vec(coord(9), n).prop_map(Op::Move), 1 => cut_spec(n, 3.0).prop_map(Op::Fork)];
            (prop_oneof![3 => space_spec_n(n, 6.0), 1 => space_spec_n(n, 12.0)], vec(op, 1..=12))
        }).prop_map(|(space, ops)| Ops { space, ops })
    }, |t| {
        let n = t.space.n();
        let mut succ = 0;
        let mut other = 0;
        for rep in REPS {
            let mut s = build(&t.space, rep);
            // constructor
            let want = t.space.p();
            let o = observe(&s).map_err(|e| format!("{rep:?} constructor mode {}: {e}", t.space.mode))?;
            ensure!(o.c == t.space.xc, "{rep:?}: constructor centre {:?}", o.c);
            ensure!(s.tsq() == 0.0 || s.tsq().is_finite(), "{rep:?}: initial size measure");
            for i in 0..n { for j in 0..n {
                let sc = (want.at(i, i) * want.at(j, j)).sqrt();
                ensure!((o.p.at(i, j) - want.at(i, j)).abs() <= 1e-9 * sc * o.cond.sqrt().max(1.0), "{rep:?} constructor mode {}: shape entry ({i},{j}) is {}, described {}", t.space.mode, o.p.at(i, j), want.at(i, j));
            } }
            for (k, op) in t.ops.iter().enumerate() {
                let o = observe(&s).map_err(|e| format!("{rep:?} before op {k}: {e}"))?;
                if o.cond > MAXCOND { break; }
                match op {
                    Op::Cut(c) => {
                        if !in_domain(n, c) { continue; }
                        let g = scl(c.gs, &c.g);
                        let (_, tau) = unit_grad(&o, &g);
                        let (x0, x1) = effective(c);
                        let (_, sg, dl) = reference(n as f64, x0, x1);
                        if tol_of(&o, n as f64, sg, dl) > 1e-3 { break; }
                        let stt = s.cut(c.kind, c.form, &g, c.a0 * tau, c.a1 * tau);
                        let tol = 1e-10 + 100.0 * EPS * o.cond * n as f64;
                        ensure!((s.tsq() - tau * tau).abs() <= tol * tau * tau, "{rep:?} op {k} ({:?}): size measure {} but the ellipsoid before the cut has squared half-width {}", stt, s.tsq(), tau * tau);
                        observe(&s).map_err(|e| format!("{rep:?} after op {k} ({}): {e}", label_cut(c, stt)))?;
                        if stt == St::Success { succ += 1; }
                        if let Space::E(e) = &s {
                            for i in 0..n { for j in 0..i {
                                ensure!((e.mq.at(i, j) - e.mq.at(j, i)).abs() <= 1e-12 * (e.mq.at(i, i) * e.mq.at(j, j)).sqrt(), "{rep:?} op {k}: stored shape is not symmetric");
                            } }
                            if rep == Rep::NoDefer && stt == St::Success { ensure!(e.kappa == 1.0, "deferral off but scale is {}", e.kappa); }
                        }
                    }
                    Op::Move(v) => {
                        let ts = s.tsq();
                        let p0 = s.shape()?;
                        let here = s.xc();
                        s.set_xc(&here);
                        ensure!(s.xc() == here && s.tsq() == ts && s.shape()?.a == p0.a, "{rep:?} op {k}: moving the centre to where it was changed the ellipsoid");
                        s.set_xc(v);
                        ensure!(&s.xc() == v, "{rep:?} op {k}: set centre not read back");
                        ensure!(s.tsq() == ts && s.shape()?.a == p0.a, "{rep:?} op {k}: moving the centre changed shape or size measure");
                        other += 1;
                    }
                    Op::Fork(c) => {
                        if !in_domain(n, c) { continue; }
                        let g = scl(c.gs, &c.g);
                        let (_, tau) = unit_grad(&o, &g);
                        let (c0, p0, t0) = (s.xc(), s.shape()?, s.tsq());
                        let mut f = s.clone();
                        ensure!(f.xc() == c0 && f.shape()?.a == p0.a && f.tsq() == t0, "{rep:?} op {k}: copy differs");
                        f.cut(c.kind, c.form, &g, c.a0 * tau, c.a1 * tau);
                        ensure!(s.xc() == c0 && s.shape()?.a == p0.a && s.tsq() == t0, "{rep:?} op {k}: cutting a copy changed the original");
                        other += 1;
                    }
                }
            }
        }
        ok_if(succ >= 2 && other >= 1)
    });
    ctx.sub("size-before", "size measure is that of the ellipsoid before the cut also for refused and no-effect cuts", 4000, 60000, || {
        prop_oneof![20 => dim(10), 1 => 11usize..=48].prop_flat_map(|n| (space_spec_n(n, 6.0), gradient(n), scale(4.0), 0u8..3, 0u8..3, -2.0f64..2.0, -2.0f64..2.0))
    }, |(sp, g, gs, kind, form, a0, a1)| {
        let n = sp.n();
        for rep in REPS {
            let mut s = build(sp, rep);
            let p = sp.p();
            let g = scl(*gs, g);
            let ts = dot(&g, &p.mv(&g));
            let tau = ts.sqrt();
            let a0 = if *kind == 0 { a0.abs() } else { *a0 };
            s.cut(*kind, *form, &g, a0 * tau, a1 * tau);
            ensure!((s.tsq() - ts).abs() <= 1e-9 * ts * (n as f64), "{rep:?}: size measure {} expected {ts}", s.tsq());
        }
        ok()
    });
}

// ---------------------------------------------------------------- C07
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Meta {
    h: Hist,
    scales: V,
    shift: V,
    td: V,
    tl: V,
    ti: bool,
}
pub fn c07(ctx: &mut Ctx) {
    ctx.sub("metamorphic", "same history with rescaled gradients, translated origin, and in linearly transformed coordinates; non-trivial: two successful cuts", 4000, 60000, || {
        (hist(7, 8, 4.0, 2.0)).prop_flat_map(|h| {
            let n = h.space.n();
            let k = h.cuts.len();
            (Just(h), vec(scale(4.0), k), vec(coord(20), n), vec(prop_oneof![0.3f64..3.0, Just(1.0), -3.0f64..-0.3], n), vec(-0.5f64..0.5, n * (n - 1) / 2), any::<bool>())
        }).prop_map(|(h, scales, shift, td, tl, ti)| Meta { h, scales, shift, td, tl, ti })
    }, |m| {
        let n = m.h.space.n();
        let nf = n as f64;
        // T: unit lower triangular times diagonal (or its transpose)
        let mut t = Mat::eye(n);
        let mut k = 0;
        for i in 0..n { for j in 0..i { t.set(i, j, m.tl[k]); k += 1; } }
        for i in 0..n { for j in 0..n { let v = t.at(i, j) * m.td[j]; t.set(i, j, v); } }
        if m.ti { t = t.t(); }
        // T^-T g  = solve T' y = g
        let solve_tt = |g: &[f64]| -> V {
            // t is triangular
            let tt = t.t();
            if !m.ti { bsolve(&t, g) } else { let mut x = g.to_vec(); for i in 0..n { for kk in 0..i { x[i] -= tt.at(i, kk) * x[kk]; } x[i] /= tt.at(i, i); } x }
        };
        let mut succ = 0;
        for rep in [Rep::Plain, Rep::Stable] {
            let m0 = m.h.space.m();
            let kap = m.h.space.kap();
            let mut a = build_mat(kap, &m0, &m.h.space.xc, rep);
            let mut b = a.clone(); // rescaled gradients
            let mut c = build_mat(kap, &m0, &add(&m.h.space.xc, &m.shift), rep); // translated
            let mt = { let mut x = t.mul(&m0).mul(&t.t()); for i in 0..n { for j in 0..i { let v = x.at(i, j); x.set(j, i, v); } } x };
            let mut d = build_mat(kap, &mt, &t.mv(&m.h.space.xc), rep); // transformed
            let mut have = [0.0f64; 3];
            for (i, cs) in m.h.cuts.iter().enumerate() {
                if !in_domain(n, cs) { continue; }
                let (x0, x1) = effective(cs);
                if (1.0 + nf * x0 * x1).abs() < 1e-3 || (cs.kind == 2 && cs.form == 2 && (cs.a1 + 1.0).abs() < 1e-3) { continue; }
                let o = observe(&a)?;
                let od = observe(&d)?;
                // the translated run rounds its centre at the size of the shift
                let shift = |o: &Obs, c: &[f64]| 100.0 * EPS * (norm(c) + norm(&m.shift)) / o.rmin;
                let l0 = [local(&o), local(&o) + shift(&o, &c.xc()), local(&o) + local(&od)];
                if (0..3).any(|k| l0[k] > 1e-5 || have[k] > 1e-5) { break; }
                let g = scl(cs.gs, &cs.g);
                let (_, tau) = unit_grad(&o, &g);
                let (b0, b1) = (cs.a0 * tau, cs.a1 * tau);
                let f = m.scales[i];
                let s1 = a.cut(cs.kind, cs.form, &g, b0, b1);
                let s2 = b.cut(cs.kind, cs.form, &scl(f, &g), f * b0, f * b1);
                let s3 = c.cut(cs.kind, cs.form, &g, b0, b1);
                let s4 = d.cut(cs.kind, cs.form, &solve_tt(&g), b0, b1);
                ensure!(s1 == s2 && s1 == s3 && s1 == s4, "{rep:?} cut {i}: verdicts {s1:?} / rescaled {s2:?} / translated {s3:?} / transformed {s4:?}");
                let oa = observe(&a)?;
                let ob = observe(&b)?;
                let mut oc = observe(&c)?;
                let cc = std::mem::take(&mut oc.c);
                oc.c = sub(&cc, &m.shift);
                let od = observe(&d)?;
                let mut ot = oa.clone();
                ot.c = t.mv(&oa.c);
                ot.p = t.mul(&oa.p).mul(&t.t());
                let l1 = [local(&oa), local(&oa) + shift(&oa, &cc), local(&oa) + local(&od)];
                let now = [discrepancy(&oa, &ob), discrepancy(&oa, &oc), discrepancy(&od, &ot)];
                let gr = growth(nf, cs, s1);
                for (k, what) in [format!("rescaled gradient (x{f})"), "translated".into(), "transformed".into()].into_iter().enumerate() {
                    let tol = 1e-8 + gr * (have[k] + l0[k]) + l1[k];
                    have[k] = now[k].0.max(now[k].1);
                    if tol > 1e-4 { have[k] = 1.0; continue }
                    ensure!(have[k] <= tol, "{rep:?} cut {i}: {what} run: centre differs by {}, shape by {} (unit-ball coordinates, tolerance {tol:e})", now[k].0, now[k].1);
                }
                if s1 == St::Success { succ += 1; }
            }
        }
        ok_if(succ >= 2)
    });
    ctx.sub("units", "gradient and offsets multiplied by 10^k, |k| up to 60 (single cuts: 140), also one cut at a time with different k; non-trivial: two successful cuts", 4000, 80000, || {
        (hist(8, 6, 3.0, 1.0)).prop_flat_map(|h| {
            let k = h.cuts.len();
            (Just(h), vec((-60.0f64..60.0, any::<bool>()), k))
        })
    }, |(h, ks)| {
        let n = h.space.n();
        let mut succ = 0;
        for rep in REPS {
            let mut a = build(&h.space, rep);
            let mut b = a.clone();
            let mut have = 0.0f64;
            for (i, c) in h.cuts.iter().enumerate() {
                if !in_domain(n, c) { continue; }
                let (x0, x1) = effective(c);
                if (1.0 + n as f64 * x0 * x1).abs() < 1e-3 || (c.kind == 2 && c.form == 2 && (c.a1 + 1.0).abs() < 1e-3) { continue; }
                let o = observe(&a)?;
                let l0 = local(&o);
                if l0 > 1e-5 || have > 1e-5 { break; }
                let g = scl(c.gs, &c.g);
                let (_, tau) = unit_grad(&o, &g);
                let k = if c.form == 0 && ks[i].1 { ks[i].0 * 140.0 / 60.0 } else { ks[i].0 };
                let f = 10f64.powf(k);
                let s1 = a.cut(c.kind, c.form, &g, c.a0 * tau, c.a1 * tau);
                let s2 = b.cut(c.kind, c.form, &scl(f, &g), f * c.a0 * tau, f * c.a1 * tau);
                ensure!(s1 == s2, "{rep:?} cut {i}: verdict {s1:?}, with gradient and offsets times {f:e} {s2:?}");
                ensure!((b.tsq() / f / f - a.tsq()).abs() <= (1e-9 + 4.0 * n as f64 * have + l0) * a.tsq(), "{rep:?} cut {i}: size measure {} does not scale (factor {f:e}: {})", a.tsq(), b.tsq());
                let oa = observe(&a)?;
                let tol = 1e-8 + growth(n as f64, c, s1) * (have + l0) + local(&oa);
                if tol > 1e-4 { break; }
                let (dc, dq) = discrepancy(&oa, &observe(&b)?);
                have = dc.max(dq);
                ensure!(have <= tol, "{rep:?} cut {i}: gradient times {f:e}: centre differs by {dc}, shape by {dq} (unit-ball coordinates, tolerance {tol:e})");
                if s1 == St::Success { succ += 1; }
            }
        }
        ok_if(succ >= 2)
    });
}
