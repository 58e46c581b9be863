//! C08..C11: drivers against scripted oracles and search spaces; reference state machines.
use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::la::*;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

/// What the driver did, as seen by oracle and space. Reading the centre or the size is not an event.
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Query { x: i64, gamma: f64, retry: bool },
    Target(f64),
    Update { kind: u8, grad: i64, cut: i64 },
}
type Log = Rc<RefCell<Vec<Ev>>>;

/// Centres are tokens. A successful cut moves to the next token, anything else leaves it.
#[derive(Clone)]
struct Mock {
    x: i64,
    tsq: f64,
    step: usize,
    script: Rc<Vec<(u8, f64)>>,
    limit: usize,
    log: Log,
    special: Option<(usize, u8)>,
    tol: f64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct MCut(i64);

/// Sizes in scripts are in units of the tolerance (1 means exactly at it).
fn sized(t: f64, tol: f64) -> f64 {
    if tol == 0.0 { t } else { t * tol }
}
/// The scripted verdict and size of round k; a special round overrides the cyclic script.
fn upd_at(script: &[(u8, f64)], special: Option<(usize, u8)>, k: usize) -> (u8, f64) {
    match special {
        Some((r, 1)) if r == k => (1, 2.0),
        Some((r, 2)) if r == k => (2, 2.0),
        Some((r, 3)) if r == k => (0, 0.5),
        _ => script[k % script.len()],
    }
}
fn ans_at(script: &[Ans], special: Option<(usize, u8)>, k: usize) -> Ans {
    let mut a = script[k % script.len()].clone();
    a.set_gamma = a.set_gamma.map(inf);
    match special {
        Some((r, 4)) if r == k => a.accept = true,
        Some((r, 2)) if r == k => a.more_alt = false,
        Some((r, 5)) if r == k => {
            a.shrunk = true;
            a.set_gamma = Some(77.0);
        }
        _ => {}
    }
    a
}
fn status(k: u8) -> CutStatus {
    match k {
        0 => CutStatus::Success,
        1 => CutStatus::NoSoln,
        2 => CutStatus::NoEffect,
        _ => CutStatus::Unknown,
    }
}
impl Mock {
    fn apply(&mut self, kind: u8, grad: i64, cut: i64) -> CutStatus {
        if self.step >= self.limit {
            panic!("the driver applied more cuts than the iteration limit allows");
        }
        self.log.borrow_mut().push(Ev::Update { kind, grad, cut });
        let (s, t) = upd_at(&self.script, self.special, self.step);
        let t = sized(t, self.tol);
        self.step += 1;
        self.tsq = t;
        if s == 0 {
            self.x += 1;
        }
        status(s)
    }
}
impl UpdateByCutChoice<Mock> for MCut {
    type ArrayType = i64;
    fn update_bias_cut_by(&self, s: &mut Mock, g: &i64) -> CutStatus {
        s.apply(0, *g, self.0)
    }
    fn update_central_cut_by(&self, s: &mut Mock, g: &i64) -> CutStatus {
        s.apply(1, *g, self.0)
    }
    fn update_q_by(&self, s: &mut Mock, g: &i64) -> CutStatus {
        s.apply(2, *g, self.0)
    }
}
impl SearchSpace for Mock {
    type ArrayType = i64;
    fn xc(&self) -> i64 {
        self.x
    }
    fn tsq(&self) -> f64 {
        self.tsq
    }
    fn update_bias_cut<T: UpdateByCutChoice<Self, ArrayType = i64>>(&mut self, c: &(i64, T)) -> CutStatus {
        c.1.update_bias_cut_by(self, &c.0)
    }
    fn update_central_cut<T: UpdateByCutChoice<Self, ArrayType = i64>>(&mut self, c: &(i64, T)) -> CutStatus {
        c.1.update_central_cut_by(self, &c.0)
    }
    fn update_q<T: UpdateByCutChoice<Self, ArrayType = i64>>(&mut self, c: &(i64, T)) -> CutStatus {
        c.1.update_q_by(self, &c.0)
    }
    fn set_xc(&mut self, x: i64) {
        self.x = x;
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ans {
    accept: bool,
    shrunk: bool,
    set_gamma: Option<f64>,
    more_alt: bool,
    xq: i64,
    grad: i64,
    cut: i64,
}
struct ScriptOracle {
    step: usize,
    limit: usize,
    script: Rc<Vec<Ans>>,
    log: Log,
    special: Option<(usize, u8)>,
}
impl ScriptOracle {
    fn next(&mut self, x: i64, gamma: f64, retry: bool) -> Ans {
        if self.step >= self.limit {
            panic!("the driver queried the oracle more often than the iteration limit allows");
        }
        self.log.borrow_mut().push(Ev::Query { x, gamma, retry });
        let a = ans_at(&self.script, self.special, self.step);
        self.step += 1;
        a
    }
}
impl OracleFeas<i64> for ScriptOracle {
    type CutChoice = MCut;
    fn assess_feas(&mut self, x: &i64) -> Option<(i64, MCut)> {
        let a = self.next(*x, 0.0, false);
        if a.accept { None } else { Some((a.grad, MCut(a.cut))) }
    }
    fn update(&mut self, g: f64) {
        self.log.borrow_mut().push(Ev::Target(g));
    }
}
impl OracleOptim<i64> for ScriptOracle {
    type CutChoice = MCut;
    fn assess_optim(&mut self, x: &i64, gamma: &mut f64) -> ((i64, MCut), bool) {
        let a = self.next(*x, *gamma, false);
        if let Some(g) = a.set_gamma {
            *gamma = g;
        }
        ((a.grad, MCut(a.cut)), a.shrunk)
    }
}
impl OracleOptimQ<i64> for ScriptOracle {
    type CutChoice = MCut;
    fn assess_optim_q(&mut self, x: &i64, gamma: &mut f64, retry: bool) -> ((i64, MCut), bool, i64, bool) {
        let a = self.next(*x, *gamma, retry);
        if let Some(g) = a.set_gamma {
            *gamma = g;
        }
        ((a.grad, MCut(a.cut)), a.shrunk, a.xq, a.more_alt)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    ans: Vec<Ans>,
    upd: Vec<(u8, f64)>,
    max_iters: usize,
    tol: f64,
    gamma0: f64,
    x0: i64,
    tsq0: f64,
    verbose: bool,
    special: Option<(usize, u8)>,
}
#[derive(Clone, Copy, PartialEq)]
enum Which {
    Feas,
    Optim,
    Q,
}
/// Targets: mostly small, sometimes of any magnitude; the two ends of the f64 range stand for the infinities
/// (JSON replay files cannot hold those).
fn target() -> BoxedStrategy<f64> {
    prop_oneof![12 => -9.0f64..9.0, 3 => (scale(12.0), any::<bool>()).prop_map(|(x, s)| if s { x } else { -x }), 1 => Just(0.0), 1 => Just(f64::MAX), 1 => Just(-f64::MAX)].boxed()
}
fn inf(g: f64) -> f64 {
    if g == f64::MAX {
        f64::INFINITY
    } else if g == -f64::MAX {
        f64::NEG_INFINITY
    } else {
        g
    }
}
fn script(which: Which) -> BoxedStrategy<Script> {
    script_lim(which, prop_oneof![10 => 0usize..=40, 2 => 0usize..=3, 1 => 100usize..=2500].boxed(), 0.4)
}
/// Scripts that run for thousands of rounds, most with a single terminal event somewhere.
fn long_script(which: Which) -> BoxedStrategy<Script> {
    script_lim(which, prop_oneof![6 => 2000usize..=12_000, 3 => 10_000usize..=40_000, 1 => 40_000usize..=150_000].boxed(), 0.97)
}
fn script_lim(which: Which, limit: BoxedStrategy<usize>, calm: f64) -> BoxedStrategy<Script> {
    // tolerance 1: sizes 0.5 are below, 1 equal, 2.. above
    let tsq = prop_oneof![10 => Just(2.0), 6 => Just(8.0), 4 => Just(1.0), 4 => 1.0f64..1e3, 1 => Just(0.5), 1 => 0.0f64..1.0];
    let stat: BoxedStrategy<u8> = match which {
        Which::Q => prop_oneof![9 => Just(0u8), 6 => Just(2u8), 1 => Just(1u8)].boxed(),
        _ => prop_oneof![24 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)].boxed(),
    };
    let shr = prop_oneof![2 => Just(0.05), 2 => Just(0.5), 1 => Just(0.95), 1 => Just(0.0)];
    (
        shr,
        vec((any::<u16>(), target(), 0u8..4, prop::bool::weighted(0.85), -1000i64..1000, -1000i64..1000, -1000i64..1000, prop::bool::weighted(0.06)), 1..=24),
        vec((stat, tsq), 1..=24),
        limit,
        prop_oneof![2 => Just(1.0), 2 => Just(1e-20), 4 => scale(12.0), 1 => Just(0.0)],
        target(),
        -50i64..50,
        prop_oneof![Just(0.0), Just(0.1), Just(5.0)],
        any::<bool>(),
        (prop::bool::weighted(calm), any::<proptest::sample::Index>(), 0u8..6),
    )
        .prop_map(move |(shr, ans, mut upd, max_iters, tol, gamma0, x0, tsq0, verbose, (calm, at, kind))| {
            let mut ans: Vec<Ans> = ans
                .into_iter()
                .map(|(s, g, gs, more_alt, xq, grad, cut, accept)| {
                    let shrunk = (s as f64) < shr * 65536.0;
                    Ans { accept, shrunk, set_gamma: if shrunk && gs > 0 || gs == 3 { Some(g) } else { None }, more_alt, xq, grad, cut }
                })
                .collect();
            let mut special = None;
            if calm {
                // no terminal event in the cyclic script, at most one at a chosen round: long histories
                for a in ans.iter_mut() {
                    a.accept = false;
                    a.more_alt = true;
                }
                for u in upd.iter_mut() {
                    if u.0 != 0 && !(which == Which::Q && u.0 == 2) {
                        u.0 = 0;
                    }
                    if u.1 < 1.0 {
                        u.1 = 2.0;
                    }
                }
                if kind > 0 && max_iters > 0 {
                    special = Some((at.index(max_iters), kind));
                }
            }
            Script { ans, upd, max_iters, tol, gamma0, x0, tsq0, verbose, special }
        })
        .boxed()
}
impl Script {
    fn ans(&self, k: usize) -> Ans {
        ans_at(&self.ans, self.special, k)
    }
    fn upd(&self, k: usize) -> (u8, f64) {
        let (s, t) = upd_at(&self.upd, self.special, k);
        (s, sized(t, self.tol))
    }
    fn build(&self) -> (Mock, ScriptOracle, Options, Log) {
        let log: Log = Rc::new(RefCell::new(vec![]));
        (
            Mock { x: self.x0, tsq: self.tsq0, step: 0, script: Rc::new(self.upd.clone()), limit: self.max_iters, log: log.clone(), special: self.special, tol: self.tol },
            ScriptOracle { step: 0, limit: self.max_iters, script: Rc::new(self.ans.clone()), log: log.clone(), special: self.special },
            Options { max_iters: self.max_iters, tolerance: self.tol, verbose: self.verbose },
            log,
        )
    }
}
fn same_log(got: &[Ev], want: &[Ev]) -> Result<(), String> {
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        ensure!(a == b, "event {i}: the driver did {a:?}, the protocol says {b:?}");
    }
    ensure!(got.len() == want.len(), "the driver produced {} events, the protocol says {}: next {:?} / {:?}", got.len(), want.len(), got.get(want.len()), want.get(got.len()));
    Ok(())
}

/// Reference run of the feasibility protocol. Returns (log, answer, rounds, why, final token, size).
fn ref_feas(s: &Script) -> (Vec<Ev>, Option<i64>, usize, &'static str, i64) {
    let mut log = vec![];
    let mut x = s.x0;
    for k in 0..s.max_iters {
        log.push(Ev::Query { x, gamma: 0.0, retry: false });
        let a = s.ans(k);
        if a.accept {
            return (log, Some(x), k, "accepted", x);
        }
        log.push(Ev::Update { kind: 0, grad: a.grad, cut: a.cut });
        let (st, t) = s.upd(k);
        if st == 0 {
            x += 1;
        }
        if st != 0 {
            return (log, None, k, "refused", x);
        }
        if t < s.tol {
            return (log, None, k, "tolerance", x);
        }
    }
    (log, None, s.max_iters, "limit", x)
}

fn long(r: R, s: &Script) -> R {
    r.map(|mut o| {
        o.nontrivial &= s.max_iters > 5000;
        o
    })
}
fn c08_case(s: &Script) -> R {
    let (mut sp, mut om, op, log) = s.build();
    let (got, n) = cutting_plane_feas(&mut om, &mut sp, &op);
    let (wl, wa, wn, why, wx) = ref_feas(s);
    same_log(&log.borrow(), &wl)?;
    ensure!(got == wa, "returned {got:?}, the protocol says {wa:?} ({why})");
    ensure!(n == wn, "reported round {n}, stopped ({why}) in round {wn}");
    ensure!(sp.x == wx, "the space's centre is {} after the run, expected {wx}", sp.x);
    ok_l(wn >= 2, vec![why.into()])
}
pub fn c08(ctx: &mut Ctx) {
    ctx.sub("protocol", "scripted oracle and search space, iteration limits 0..2500; non-trivial: at least two rounds ran", 60000, 1_500_000, || script(Which::Feas), c08_case);
    ctx.sub("long", "the same over limits of 2000..150000 rounds; non-trivial: at least two rounds ran, limit above 5000", 240, 4000, || long_script(Which::Feas), |s| long(c08_case(s), s));
    ctx.sub("real", "real ellipsoids and half-space/slab oracle with random constraints: every returned point was accepted and satisfies all constraints; rounds never exceed the limit; replaying the recorded cuts by hand gives the same ellipsoid; non-trivial: at least three cuts", 3000, 60000, real_problem, |p| {
        let mut nt = false;
        let mut lab = vec![];
        for stable in [false, true] {
            let mut om = Poly { cons: p.cons.clone(), next: 0, queries: vec![], cuts: vec![], answers: vec![] };
            let op = Options { max_iters: p.max_iters, tolerance: p.tol, verbose: false };
            let run = |om: &mut Poly| -> (Option<V>, usize, V, f64) {
                if stable {
                    let mut e = EllStable::new_with_scalar(p.kappa, arr(&p.xc));
                    let r = cutting_plane_feas(om, &mut e, &op);
                    (r.0.map(|x| vecof(&x)), r.1, vecof(&e.xc()), e.tsq())
                } else {
                    let mut e = Ell::new_with_scalar(p.kappa, arr(&p.xc));
                    let r = cutting_plane_feas(om, &mut e, &op);
                    (r.0.map(|x| vecof(&x)), r.1, vecof(&e.xc()), e.tsq())
                }
            };
            let (x, n, xc, _tsq) = run(&mut om);
            ensure!(n <= p.max_iters, "reported {n} rounds with a limit of {}", p.max_iters);
            ensure!(om.queries.len() <= p.max_iters, "{} oracle queries with a limit of {}", om.queries.len(), p.max_iters);
            match &x {
                Some(v) => {
                    ensure!(om.answers.last() == Some(&true), "a point was returned although the oracle did not accept it");
                    ensure!(om.queries.last() == Some(v), "the returned point is not the accepted one");
                    ensure!(&xc == v, "the returned point is not the final centre");
                    for (k, c) in p.cons.iter().enumerate() {
                        ensure!(c.ok(v), "the returned point violates constraint {k}");
                    }
                    ensure!(n + 1 == om.queries.len(), "reported round {n} but {} queries were made", om.queries.len());
                    lab.push("solved".into());
                }
                None => {
                    ensure!(!om.answers.iter().any(|a| *a), "the oracle accepted a point but none was returned");
                    let q = om.queries.len();
                    ensure!(n + 1 == q || (n == p.max_iters && n == q), "reported round {n} but {q} queries were made");
                    lab.push("none".into());
                }
            }
            // hand replay
            let mut e1 = Ell::new_with_scalar(p.kappa, arr(&p.xc));
            let mut e2 = EllStable::new_with_scalar(p.kappa, arr(&p.xc));
            for (k, (g, b)) in om.cuts.iter().enumerate() {
                let c = (arr(g), ParallelCut(b.0, b.1));
                let (x, s, t) = if stable { (vecof(&e2.xc()), e2.update_bias_cut(&c), e2.tsq()) } else { (vecof(&e1.xc()), e1.update_bias_cut(&c), e1.tsq()) };
                let last = k + 1 == om.cuts.len();
                ensure!(x == om.queries[k], "round {k}: the oracle was not queried at the centre the cuts lead to");
                if !last {
                    ensure!(s == CutStatus::Success && !(t < p.tol), "round {k}: the driver went on after verdict {s:?} / size {t}");
                } else if x_none_before_limit(&om, p.max_iters) {
                    ensure!(s != CutStatus::Success || t < p.tol, "the driver stopped in round {k} although the cut succeeded and the size {t} is not below the tolerance");
                }
            }
            nt |= om.cuts.len() >= 3;
        }
        ok_l(nt, lab)
    });
}
fn x_none_before_limit(om: &Poly, limit: usize) -> bool {
    om.answers.last() == Some(&false) && om.queries.len() < limit
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Con {
    pub a: V,
    pub lo: Option<f64>,
    pub up: f64,
}
impl Con {
    pub fn ok(&self, x: &[f64]) -> bool {
        let v = dot(&self.a, x);
        v <= self.up && self.lo.map_or(true, |l| v >= l)
    }
    /// parallel cut (gradient, offsets) violated by x, if any
    pub fn cut(&self, x: &[f64]) -> Option<(V, (f64, Option<f64>))> {
        let v = dot(&self.a, x);
        if v > self.up {
            return Some((self.a.clone(), (v - self.up, self.lo.map(|l| v - l))));
        }
        if let Some(l) = self.lo {
            if v < l {
                return Some((scl(-1.0, &self.a), (l - v, Some(self.up - v))));
            }
        }
        None
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RealProblem {
    kappa: f64,
    xc: V,
    cons: Vec<Con>,
    max_iters: usize,
    tol: f64,
}
fn real_problem() -> BoxedStrategy<RealProblem> {
    dim(6)
        .prop_flat_map(|n| {
            (
                prop_oneof![Just(100.0), Just(10.0), 1.0f64..1000.0],
                vec(coord(3), n),
                vec((gradient(n), -4.0f64..4.0, prop::option::of(0.05f64..3.0)), 1..=8),
                prop_oneof![4 => 1usize..=200, 1 => 0usize..=5],
                prop_oneof![Just(1e-8), Just(1e-12), Just(1e-2)],
            )
        })
        .prop_map(|(kappa, xc, cs, max_iters, tol)| RealProblem {
            kappa,
            xc,
            cons: cs.into_iter().map(|(a, up, w)| Con { a, up, lo: w.map(|w| up - w) }).collect(),
            max_iters,
            tol,
        })
        .boxed()
}
pub struct Poly {
    pub cons: Vec<Con>,
    pub next: usize,
    pub queries: Vec<V>,
    pub answers: Vec<bool>,
    pub cuts: Vec<(V, (f64, Option<f64>))>,
}
impl OracleFeas<ellalgo_rs::arr::Arr> for Poly {
    type CutChoice = ParallelCut;
    fn assess_feas(&mut self, x: &ellalgo_rs::arr::Arr) -> Option<(ellalgo_rs::arr::Arr, ParallelCut)> {
        let x = vecof(x);
        self.queries.push(x.clone());
        if !finite(&x) {
            panic!("the oracle was queried at a non-finite point");
        }
        let m = self.cons.len();
        for k in 0..m {
            let i = (self.next + k) % m;
            if let Some((g, b)) = self.cons[i].cut(&x) {
                self.next = i + 1;
                self.answers.push(false);
                self.cuts.push((g.clone(), b));
                return Some((arr(&g), ParallelCut(b.0, b.1)));
            }
        }
        self.answers.push(true);
        None
    }
}

fn c09_case(s: &Script) -> R {
    let (mut sp, mut om, op, log) = s.build();
    let mut gamma = inf(s.gamma0);
    let (got, n) = cutting_plane_optim(&mut om, &mut sp, &mut gamma, &op);
    let mut wl = vec![];
    let mut x = s.x0;
    let mut g = inf(s.gamma0);
    let mut best = None;
    let mut wn = s.max_iters;
    let mut why = "limit";
    let mut imp = 0;
    for k in 0..s.max_iters {
        wl.push(Ev::Query { x, gamma: g, retry: false });
        let a = s.ans(k);
        if let Some(v) = a.set_gamma {
            g = v;
        }
        if a.shrunk {
            best = Some(x);
            imp += 1;
        }
        wl.push(Ev::Update { kind: u8::from(a.shrunk), grad: a.grad, cut: a.cut });
        let (st, t) = s.upd(k);
        if st == 0 {
            x += 1;
        }
        if st != 0 || t < s.tol {
            wn = k;
            why = if st != 0 { "refused" } else { "tolerance" };
            break;
        }
    }
    same_log(&log.borrow(), &wl)?;
    ensure!(got == best, "returned {got:?}, the last improving centre was {best:?}");
    ensure!(n == wn, "reported round {n}, stopped ({why}) in round {wn}");
    ensure!(gamma == g, "target left at {gamma}, the oracle's last value was {g}");
    ensure!(sp.x == x, "the space's centre is {} after the run, expected {x}", sp.x);
    ok_l(wn >= 2 && imp >= 1, vec![why.into(), format!("improvements-{}", imp.min(3))])
}
pub fn c09(ctx: &mut Ctx) {
    ctx.sub("protocol", "scripted oracle and search space, iteration limits 0..2500, targets of any magnitude changed on improving and other rounds; non-trivial: at least two rounds and one improvement", 60000, 1_500_000, || script(Which::Optim), c09_case);
    ctx.sub("long", "the same over limits of 2000..150000 rounds; non-trivial: an improvement, limit above 5000", 240, 4000, || long_script(Which::Optim), |s| long(c09_case(s), s));
}

/// A space that does not override update_q: the trait's default must act as a bias cut.
struct Plain(Mock);
impl UpdateByCutChoice<Plain> for MCut {
    type ArrayType = i64;
    fn update_bias_cut_by(&self, s: &mut Plain, g: &i64) -> CutStatus {
        s.0.apply(0, *g, self.0)
    }
    fn update_central_cut_by(&self, s: &mut Plain, g: &i64) -> CutStatus {
        s.0.apply(1, *g, self.0)
    }
    fn update_q_by(&self, s: &mut Plain, g: &i64) -> CutStatus {
        s.0.apply(2, *g, self.0)
    }
}
impl SearchSpace for Plain {
    type ArrayType = i64;
    fn xc(&self) -> i64 {
        self.0.x
    }
    fn tsq(&self) -> f64 {
        self.0.tsq
    }
    fn update_bias_cut<T: UpdateByCutChoice<Self, ArrayType = i64>>(&mut self, c: &(i64, T)) -> CutStatus {
        c.1.update_bias_cut_by(self, &c.0)
    }
    fn update_central_cut<T: UpdateByCutChoice<Self, ArrayType = i64>>(&mut self, c: &(i64, T)) -> CutStatus {
        c.1.update_central_cut_by(self, &c.0)
    }
    fn set_xc(&mut self, x: i64) {
        self.0.x = x;
    }
}

fn c10_case((s, own): &(Script, bool)) -> R {
    let (mut sp, mut om, op, log) = s.build();
    let mut gamma = inf(s.gamma0);
    let (got, n) = if *own {
        cutting_plane_optim_q(&mut om, &mut sp, &mut gamma, &op)
    } else {
        let mut p = Plain(sp.clone());
        let r = cutting_plane_optim_q(&mut om, &mut p, &mut gamma, &op);
        sp = p.0;
        r
    };
    let mut wl = vec![];
    let mut x = s.x0;
    let mut g = inf(s.gamma0);
    let mut best = None;
    let mut wn = s.max_iters;
    let mut why = "limit";
    let mut imp = 0;
    let mut retries = 0;
    let mut retry = false;
    for k in 0..s.max_iters {
        wl.push(Ev::Query { x, gamma: g, retry });
        retries += u32::from(retry);
        let a = s.ans(k);
        if let Some(v) = a.set_gamma {
            g = v;
        }
        if a.shrunk {
            best = Some(a.xq);
            imp += 1;
        }
        wl.push(Ev::Update { kind: if *own { 2 } else { 0 }, grad: a.grad, cut: a.cut });
        let (st, t) = s.upd(k);
        if st == 0 {
            x += 1;
        }
        retry = st == 2;
        let stop = if st == 1 {
            Some("no solution")
        } else if st == 2 && !a.more_alt {
            Some("no alternatives")
        } else if t < s.tol {
            Some("tolerance")
        } else {
            None
        };
        if let Some(w) = stop {
            wn = k;
            why = w;
            break;
        }
    }
    same_log(&log.borrow(), &wl)?;
    ensure!(got == best, "returned {got:?}, the last improving reported point was {best:?}");
    ensure!(n == wn, "reported round {n}, stopped ({why}) in round {wn}");
    ensure!(gamma == g, "target left at {gamma}, the oracle's last value was {g}");
    ensure!(sp.x == x, "the space's centre is {} after the run, expected {x}", sp.x);
    ok_l(retries >= 1 && imp >= 1, vec![why.into()])
}
pub fn c10(ctx: &mut Ctx) {
    ctx.sub("protocol", "scripted oracle (with alternatives) and search space (with no-effect verdicts); a search space with and one without its own discrete cut; non-trivial: at least one retry round and one improvement", 80000, 2_000_000, || (script(Which::Q), prop::bool::weighted(0.85)), c10_case);
    ctx.sub("long", "the same over limits of 2000..150000 rounds; non-trivial: retries and an improvement, limit above 5000", 240, 4000, || (long_script(Which::Q), prop::bool::weighted(0.85)), |c| long(c10_case(c), &c.0));
}

// ---------------------------------------------------------------- C11
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bs {
    lo: f64,
    w: f64,
    thr: f64, // fraction of the interval; may lie outside [0,1]
    strict: bool,
    tol: f64, // fraction of max(width, magnitude)
    max_iters: usize,
}
struct ThrOracle {
    thr: f64,
    strict: bool,
    q: Vec<(f64, bool)>,
    limit: usize,
}
impl OracleBS for ThrOracle {
    fn assess_bs(&mut self, g: f64) -> bool {
        if self.q.len() >= self.limit {
            panic!("more queries than the iteration limit");
        }
        let r = if self.strict { g > self.thr } else { g >= self.thr };
        self.q.push((g, r));
        r
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Balls {
    p: V,
    q: V,
    hi: f64,
    stable: bool,
    start: V,
}
struct TwoBalls {
    p: V,
    q: V,
    gamma: f64,
    targets: Vec<f64>,
}
impl OracleFeas<ellalgo_rs::arr::Arr> for TwoBalls {
    type CutChoice = SingleCut;
    fn assess_feas(&mut self, x: &ellalgo_rs::arr::Arr) -> Option<(ellalgo_rs::arr::Arr, SingleCut)> {
        let x = vecof(x);
        for c in [&self.p, &self.q] {
            let d = sub(&x, c);
            let r = norm(&d);
            if r > self.gamma {
                return Some((arr(&scl(1.0 / r, &d)), SingleCut(r - self.gamma)));
            }
        }
        None
    }
    fn update(&mut self, g: f64) {
        self.gamma = g;
        self.targets.push(g);
    }
}
pub fn c11(ctx: &mut Ctx) {
    ctx.sub("bisection", "threshold criterion over dyadic and continuous intervals, threshold inside or outside; non-trivial: at least three queries", 40000, 800000, || {
        (
            prop_oneof![coord(50), (-1e6f64..1e6)],
            prop_oneof![4 => 0.0f64..100.0, 2 => (0i32..=64).prop_map(|k| k as f64), 1 => Just(0.0), 1 => scale(6.0)],
            prop_oneof![5 => -0.2f64..1.2, 3 => (-2i32..=18).prop_map(|k| k as f64 / 16.0)],
            any::<bool>(),
            prop_oneof![3 => scale(7.0).prop_map(|x| if x > 1.0 { 1.0 / x } else { x }), 1 => Just(0.25), 1 => Just(0.125), 1 => Just(1.0)],
            prop_oneof![3 => 0usize..=60, 1 => 0usize..=4, 1 => Just(2000usize)],
        )
            .prop_map(|(lo, w, thr, strict, tol, max_iters)| Bs { lo, w, thr, strict, tol, max_iters })
    }, |b| {
        let (lo0, up0) = (b.lo, b.lo + b.w);
        let w = up0 - lo0;
        let tol = (b.tol * w.max(1e-3)).max(1e-9 * (lo0.abs() + up0.abs() + 1.0));
        let mut om = ThrOracle { thr: lo0 + b.thr * w, strict: b.strict, q: vec![], limit: b.max_iters };
        let mut iv = (lo0, up0);
        let (feas, n) = bsearch(&mut om, &mut iv, &Options { max_iters: b.max_iters, tolerance: tol, verbose: b.max_iters % 2 == 1 });
        let (mut lo, mut up) = (lo0, up0);
        let ulp = 1e-13 * (lo0.abs() + up0.abs());
        let mut any = false;
        for (k, (g, r)) in om.q.iter().enumerate() {
            let h = (up - lo) / 2.0;
            ensure!(h >= tol * (1.0 - 1e-9), "query {k} was made although the half-width {h} is already below the tolerance {tol}");
            ensure!((g - (lo + up) / 2.0).abs() <= ulp, "query {k} at {g}, not at the middle of the bracket [{lo}, {up}]");
            if *r { up = *g; any = true; } else { lo = *g; }
        }
        ensure!(n == om.q.len(), "reported {n} rounds, {} queries were made", om.q.len());
        ensure!(n == b.max_iters || (up - lo) / 2.0 < tol * (1.0 + 1e-9), "stopped after {n} queries with half-width {} (tolerance {tol}, limit {})", (up - lo) / 2.0, b.max_iters);
        ensure!(iv == (lo, up), "the caller's interval is {iv:?}, the bracket found is ({lo}, {up})");
        ensure!(feas == any, "reported feasible = {feas}, but some query was feasible = {any}");
        ok_l(n >= 3, vec![if any { "feasible" } else { "infeasible" }.into(), if n == b.max_iters { "limit" } else { "tolerance" }.into()])
    });
    ctx.sub("deep", "dyadic intervals, thresholds and tolerances down to 2^-44 of the interval's magnitude, where every midpoint is exact: queries, bracket, verdict and count must match exact bisection to the bit; non-trivial: at least ten queries", 30000, 600000, || {
        (-64i32..=64, 0i32..=6, 0u32..=30, any::<u32>(), any::<bool>(), 0i32..=44, prop_oneof![4 => Just(2000usize), 1 => 0usize..=60], -20i32..=20, any::<bool>(), any::<bool>())
    }, |(lo, wk, tk, thr, strict, tolk, max_iters, unit, odd, beyond)| {
        let u = 2f64.powi(*unit);
        let w = 2f64.powi(*wk);
        let (lo0, up0) = (*lo as f64 * u, (*lo as f64 + w) * u);
        // a threshold on a dyadic grid, rarely past the upper end
        let frac = (*thr as u64 & ((1u64 << tk) - 1)) as f64 / (1u64 << tk) as f64 + if *beyond && *thr % 5 == 0 { 1.0 } else { 0.0 };
        let thr = lo0 + (up0 - lo0) * frac;
        let tol = 2f64.powi(wk - tolk) * u * if *odd { 0.75 } else { 1.0 };
        let mut om = ThrOracle { thr, strict: *strict, q: vec![], limit: *max_iters };
        let mut iv = (lo0, up0);
        let (feas, n) = bsearch(&mut om, &mut iv, &Options { max_iters: *max_iters, tolerance: tol, verbose: *max_iters % 2 == 1 });
        let (mut a, mut b) = (lo0, up0);
        let mut k = 0;
        let mut any = false;
        while k < *max_iters && (b - a) / 2.0 >= tol {
            let m = a + (b - a) / 2.0;
            ensure!(k < om.q.len(), "stopped after {k} queries although the half-width is {} (tolerance {tol}, limit {max_iters})", (b - a) / 2.0);
            ensure!(om.q[k].0 == m, "query {k} at {}, the bracket [{a}, {b}] has its middle at {m}", om.q[k].0);
            if om.q[k].1 { b = m; any = true; } else { a = m; }
            k += 1;
        }
        ensure!(n == k && om.q.len() == k, "{} queries, reported {n}; exact bisection makes {k}", om.q.len());
        ensure!(iv == (a, b), "the caller's interval is {iv:?}, exact bisection gives ({a}, {b})");
        ensure!(feas == any, "reported feasible = {feas}, but some query was feasible = {any}");
        ok_if(n >= 10)
    });
    ctx.sub("adaptor", "adaptor over scripted oracle and space, several queries in a row; non-trivial: at least two queries with different outcomes", 20000, 400000, || {
        (script(Which::Feas), vec(target().prop_map(|g| g.clamp(-1e300, 1e300)), 1..=6))
    }, |(s, targets)| {
        let mut s = s.clone();
        s.special = None;
        let s = &s;
        let (sp, om, _op, log) = s.build();
        let mut ad = BSearchAdaptor::new(om, sp, Options { max_iters: s.max_iters, tolerance: s.tol, verbose: s.verbose });
        let mut cur = s.clone();
        let mut rot = 0usize;
        let (mut y, mut nn) = (0, 0);
        for (k, g) in targets.iter().enumerate() {
            // every query replays the space script from the start (the space is copied), the oracle script continues
            ad.omega.step = rot;
            ad.omega.limit = rot + s.max_iters;
            log.borrow_mut().clear();
            cur.ans = (0..s.ans.len()).map(|i| s.ans[(i + rot) % s.ans.len()].clone()).collect();
            let (mut wl, wa, _wn, why, _) = ref_feas(&cur);
            wl.insert(0, Ev::Target(*g));
            let before = (ad.space.x, ad.space.tsq, ad.space.step);
            let r = ad.assess_bs(*g);
            same_log(&log.borrow(), &wl).map_err(|e| format!("query {k}: {e}"))?;
            ensure!(r == wa.is_some(), "query {k}: answered {r}, the feasibility run was {why}");
            match wa {
                Some(x) => {
                    ensure!(ad.space.x == x, "query {k}: feasible point {x} found, but the adaptor's centre is {}", ad.space.x);
                    cur.x0 = x;
                    y += 1;
                }
                None => {
                    ensure!((ad.space.x, ad.space.tsq, ad.space.step) == before, "query {k}: a failed query changed the adaptor's space");
                    nn += 1;
                }
            }
            ensure!(ad.space.step == 0 && ad.space.tsq == s.tsq0, "query {k}: the adaptor's own space was cut");
            rot = ad.omega.step;
        }
        ok_if(y >= 1 && nn >= 1)
    });
    ctx.sub("two-balls", "smallest common radius of two points by bisection over the feasibility loop with a real ellipsoid; non-trivial: always", 1500, 30000, || {
        (2usize..=4).prop_flat_map(|n| (vec(coord(4), n), vec(coord(4), n), 1.0f64..6.0, any::<bool>(), vec(coord(4), n)))
            .prop_map(|(p, q, hi, stable, start)| Balls { p, q, hi, stable, start })
    }, |b| {
        let n = b.p.len();
        let best = norm(&sub(&b.p, &b.q)) / 2.0;
        let up0 = best + b.hi;
        let rad = 2.0 * up0 + norm(&sub(&b.start, &b.p)) + norm(&sub(&b.start, &b.q)) + 1.0;
        let margin = 0.02;
        let rounds = (2.0 * (n + 1) as f64 * n as f64 * (2.0 * rad / margin).ln()).ceil() as usize + 5;
        let opt = Options { max_iters: rounds, tolerance: 1e-16, verbose: false };
        let bopt = Options { max_iters: 200, tolerance: 1e-3, verbose: false };
        let mut iv = (0.0, up0);
        let om = TwoBalls { p: b.p.clone(), q: b.q.clone(), gamma: f64::NAN, targets: vec![] };
        let (feas, nq, x, targets) = if b.stable {
            let mut ad = BSearchAdaptor::new(om, EllStable::new_with_scalar(rad * rad, arr(&b.start)), opt);
            let (f, k) = bsearch(&mut ad, &mut iv, &bopt);
            (f, k, vecof(&ad.space.xc()), ad.omega.targets.clone())
        } else {
            let mut ad = BSearchAdaptor::new(om, Ell::new_with_scalar(rad * rad, arr(&b.start)), opt);
            let (f, k) = bsearch(&mut ad, &mut iv, &bopt);
            (f, k, vecof(&ad.space.xc()), ad.omega.targets.clone())
        };
        ensure!(targets.len() == nq, "{} targets passed on for {nq} queries", targets.len());
        ensure!(feas, "no feasible radius found below {up0} although {best} is feasible");
        ensure!(iv.1 >= best - 1e-9, "radius {} reported feasible, the smallest is {best}", iv.1);
        ensure!(iv.1 <= best + margin + 3e-3, "smallest radius reported {}, true {best}", iv.1);
        ensure!(iv.0 <= best + margin, "radius {} reported infeasible, the smallest feasible is {best}", iv.0);
        for c in [&b.p, &b.q] {
            let d = norm(&sub(&x, c));
            ensure!(d <= iv.1 * (1.0 + 1e-12) + 1e-12, "the adaptor's centre is {d} away from a point, more than the reported radius {}", iv.1);
        }
        ok()
    });
}
