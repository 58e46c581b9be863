"""Property-based checks of the Python port: C25 (drivers), C26 (ellipsoid bookkeeping), C27 (oracles), C29 (cut calculator)."""
import hashlib
import json
import math
import multiprocessing
import os
import sys
import time
import warnings
from collections import Counter

import numpy as np
from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st

warnings.filterwarnings("ignore")
np.seterr(all="ignore")

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

try:
    from ellalgo.cutting_plane import CutStatus, Options, binary_search, cutting_plane, cutting_plane_feas, cutting_plane_optim
    from ellalgo.ell import Ell
    from ellalgo.ell_calc import EllCalc
    from ellalgo.oracles import LmiOracle, ProfitOracle
except Exception as exc:  # the port does not import: no verdict
    print(f"ERROR: the Python port does not import: {exc!r}", file=sys.stderr)
    sys.exit(2)


class Fail(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Fail(msg)


class Out:
    def __init__(self, nontrivial=True, labels=(), known=None):
        self.nontrivial, self.labels, self.known = nontrivial, labels, known


SUBS = {}


def sub(prop, name, rule, quick, thorough, strategy):
    def deco(f):
        SUBS.setdefault(prop, []).append((name, rule, quick, thorough, strategy, f))
        return f
    return deco


def fl(lo, hi):
    return st.one_of(
        st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False),
        st.integers(math.ceil(lo * 4), math.floor(hi * 4)).map(lambda k: k / 4.0),
    )


def vec(n, lo=-3.0, hi=3.0):
    return st.lists(fl(lo, hi), min_size=n, max_size=n)


STAT = {"success": CutStatus.SUCCESS, "nosoln": CutStatus.NO_SOLN, "noeffect": CutStatus.NO_EFFECT, "unknown": CutStatus.UNKNOWN}


# ------------------------------------------------------------------ C25
class MockSpace:
    """Scripted search space: one entry per update."""

    def __init__(self, points, updates):
        self.points, self.updates = [np.array(p, dtype=float) for p in points], updates
        self.i = 0
        self.log = []
        self._tsq = 1e100

    def xc(self):
        return self.points[min(self.i, len(self.points) - 1)]

    def tsq(self):
        return self._tsq

    def update_bias_cut(self, cut):
        self.log.append(("bias", self.i, cut))
        s, t = self.updates[min(self.i, len(self.updates) - 1)]
        self._tsq = t
        if s == "success":
            self.i += 1
        return STAT[s]

    def update_central_cut(self, cut):
        self.log.append(("central", self.i, cut))
        return CutStatus.SUCCESS

    def update_q(self, cut):
        self.log.append(("q", self.i, cut))
        return CutStatus.SUCCESS

    def set_xc(self, x):
        self.log.append(("set", self.i, x))


class FeasO:
    def __init__(self, answers):
        self.answers, self.q, self.given = answers, [], []

    def assess_feas(self, xc):
        k = len(self.q)
        self.q.append(np.array(xc))
        a = self.answers[k % len(self.answers)]
        if a is None:
            return None
        c = (np.array(a[0]), a[1] if not isinstance(a[1], list) else tuple(a[1]))
        self.given.append(c)
        return c


class OptOnly:
    """An optimisation oracle without assess_feas."""

    def __init__(self, answers):
        self.inner = FeasO(answers)
        self.q, self.given = self.inner.q, self.inner.given

    def assess_optim(self, xc, gamma):
        c = self.inner.assess_feas(xc)
        if c is None:
            return (np.zeros(2), 0.0), True
        return c, False


def same_cut(a, b):
    if not (isinstance(a, tuple) and len(a) == 2):
        return False
    if not np.array_equal(np.asarray(a[0]), np.asarray(b[0])):
        return False
    return a[1] == b[1] and isinstance(a[1], tuple) == isinstance(b[1], tuple)


beta_s = st.one_of(fl(-2.0, 2.0), st.tuples(fl(-2.0, 2.0), st.one_of(st.none(), fl(0.0, 2.0))).map(list))
answer_s = st.tuples(vec(2), beta_s).map(list)
script_s = st.fixed_dictionaries({
    "points": st.lists(vec(2), min_size=1, max_size=8),
    "updates": st.lists(st.tuples(st.sampled_from(["success"] * 12 + ["nosoln", "noeffect", "unknown"]), st.sampled_from([2.0, 1.5, 1.0, 0.5, 1e-3, 1e-9, 1e-10, 0.0, 1e-25])).map(list), min_size=3, max_size=8),
    "answers": st.tuples(st.lists(answer_s, min_size=3, max_size=8), st.one_of(st.none(), st.integers(0, 7))).map(lambda t: t[0][:t[1]] + [None] + t[0][t[1]:] if t[1] is not None else t[0]),
    "max_iters": st.sampled_from([6, 3, 12, 2, 8, 5, 1, 0, 4]),
    "tol": st.sampled_from([1e-20, 1e-9, 0.0, 1e-3, 1.0]),
    "via": st.sampled_from(["feas", "optim", "general-feas", "general-optim"]),
})


@sub("C25", "drivers", "scripted oracles and search spaces (accepting, refusing, below-tolerance rounds, limits from zero), all three driver entry points against a reference run; non-trivial: at least two queries", 10000, 120000, script_s)
def c25_drivers(s):
    sp = MockSpace(s["points"], s["updates"])
    opt = Options(s["max_iters"], s["tol"])
    feas = s["via"] in ("feas", "general-feas")
    om = FeasO(s["answers"]) if feas else OptOnly(s["answers"])
    if s["via"] == "feas":
        r = cutting_plane_feas(om, sp, opt)
        status, x, it = r
    elif s["via"] == "optim":
        r = cutting_plane_optim(om, sp, opt)
        status, x, _, it = r
    else:
        r = cutting_plane(om, sp, opt)
        status, x, obj, it = r
        if feas:
            need(obj is None, "a feasibility run reports an objective")
        else:
            need(obj is not None, "an optimisation run reports no objective")
    # reference run
    ref = MockSpace(s["points"], s["updates"])
    want_q, want_c, end = [], [], None
    for i in range(s["max_iters"]):
        xc = ref.xc()
        want_q.append(xc)
        a = s["answers"][i % len(s["answers"])]
        if a is None:
            end = (CutStatus.SUCCESS, xc, i, "accept")
            break
        want_c.append(i)
        stt = ref.update_bias_cut(None)
        if stt != CutStatus.SUCCESS:
            end = (stt, xc, i, "refused")
            break
        if ref.tsq() < s["tol"]:
            end = (CutStatus.SUCCESS, ref.xc(), i, "tolerance")
            break
    if end is None:
        end = (CutStatus.UNKNOWN, ref.xc(), s["max_iters"], "limit")
    need(len(om.q) == len(want_q), f"oracle queried {len(om.q)} times, expected {len(want_q)}")
    for a, b in zip(om.q, want_q):
        need(np.array_equal(a, b), f"oracle queried at {a}, the centre was {b}")
    need(all(k == "bias" for k, _, _ in sp.log), f"updates other than bias cuts: {[k for k, _, _ in sp.log]}")
    need(len(sp.log) == len(want_c), f"{len(sp.log)} cuts applied, expected {len(want_c)}")
    for (_, _, c), g in zip(sp.log, om.given):
        need(same_cut(c, g), f"the space received {c}, the oracle gave {g}")
    need(status == end[0], f"status {status}, expected {end[0]} ({end[3]})")
    need(it == end[2], f"reported round {it}, expected {end[2]} ({end[3]})")
    need(np.array_equal(np.asarray(x), end[1]), f"returned point {x}, expected {end[1]} ({end[3]})")
    return Out(len(want_q) >= 2, [end[3], s["via"]])


long_s = st.fixed_dictionaries({
    "k": st.integers(20, 2600),
    "event": st.sampled_from(["accept", "nosoln", "noeffect", "unknown", "tol", "none"]),
    "max_iters": st.one_of(st.integers(20, 2600), st.integers(1900, 12000)),
    "points": st.lists(vec(2), min_size=1, max_size=5),
    "answers": st.lists(answer_s, min_size=1, max_size=4),
    "via": st.sampled_from(["feas", "optim", "general-feas", "general-optim"]),
})


@sub("C25", "long", "the same with limits up to 12000 and a single terminal event after 20..2600 uneventful rounds; non-trivial: always", 400, 6000, long_s)
def c25_long(s):
    k = s["k"]
    upd = [["success", 2.0]] * k + [["success", 1e-3 if s["event"] == "tol" else 2.0] if s["event"] in ("accept", "tol", "none") else [s["event"], 2.0]]
    ans = [s["answers"][i % len(s["answers"])] for i in range(k)] + [None if s["event"] == "accept" else s["answers"][0]]
    return c25_drivers({"points": s["points"], "updates": upd, "answers": ans, "max_iters": s["max_iters"], "tol": 1.0, "via": s["via"]})


@sub("C25", "default-options", "runs without options stop at round 2000 or below 1e-20; non-trivial: always", 40, 400, st.tuples(st.sampled_from(["feas", "optim", "bs"]), st.sampled_from([1.0, 1e-19, 1e-21]), vec(2)).map(list))
def c25_default(s):
    via, tsq, p = s
    need(Options.default().max_iters == 2000 and Options.default().tolerance == 1e-20, "default options")
    o = Options()
    need(o.max_iters == 2000 and o.tolerance == 1e-20, "options without arguments")
    if via == "bs":
        n = [0]

        class B:
            def assess_bs(self, g):
                n[0] += 1
                return False
        status, val, it = binary_search(B(), 0.0, math.inf if tsq == 1.0 else 1.0)
        need(n[0] <= 2000 and it <= 2000, "binary search exceeded the default limit")
        return Out()
    sp = MockSpace([p], [["success", tsq]])
    om = FeasO([[[1.0, 0.0], 0.5]]) if via == "feas" else OptOnly([[[1.0, 0.0], 0.5]])
    r = cutting_plane_feas(om, sp) if via == "feas" else cutting_plane_optim(om, sp)
    if tsq < 1e-20:
        need(r[0] == CutStatus.SUCCESS and r[-1] == 0, f"below-tolerance run ended {r}")
    else:
        need(r[0] == CutStatus.UNKNOWN and r[-1] == 2000 and len(om.q) == 2000, f"run without options ended {r[0]} at {r[-1]}")
    return Out()


bs_s = st.fixed_dictionaries({
    "lo": st.one_of(fl(-50.0, 50.0), st.floats(-1e9, 1e9)),
    "width": st.one_of(fl(0.0, 100.0), st.floats(1e-6, 1.0), st.floats(0.0, 1e9)),
    "frac": st.one_of(st.floats(-0.5, 1.5), st.sampled_from([0.0, 0.25, 0.5, 1.0])),
    "strict": st.booleans(),
    "tol": st.sampled_from([1e-20, 1e-8, 1e-3, 0.5, 3.0, 0.0]),
    "max_iters": st.integers(0, 60),
    "bits": st.one_of(st.none(), st.lists(st.booleans(), min_size=1, max_size=8)),
})


@sub("C25", "bisection", "monotone thresholds inside, outside and on the interval, and arbitrary answer scripts; every query is the midpoint of the bracket the answers so far imply, and the result is the final midpoint; non-trivial: at least three queries", 10000, 200000, bs_s)
def c25_bisect(s):
    lo, hi = s["lo"], s["lo"] + s["width"]
    th = lo + s["frac"] * s["width"]
    q = []

    class B:
        def assess_bs(self, g):
            q.append(g)
            if s["bits"] is not None:
                return s["bits"][(len(q) - 1) % len(s["bits"])]
            return g > th if s["strict"] else g >= th

    status, val, it = binary_search(B(), lo, hi, Options(s["max_iters"], s["tol"]))
    l, u = lo, hi
    k = 0
    tolr = 1e-12 * (abs(lo) + abs(hi) + 1)
    for g in q:
        # the width test may legitimately be decided either way within rounding
        need(u - l >= s["tol"] - tolr, f"query {k} although the width {u - l} is below the tolerance")
        mid = (l + u) / 2.0
        need(abs(g - mid) <= tolr, f"query {k} at {g}, the bracket midpoint is {mid}")
        a = s["bits"][k % len(s["bits"])] if s["bits"] is not None else (g > th if s["strict"] else g >= th)
        if a:
            u = g
        else:
            l = g
        k += 1
    need(k <= s["max_iters"], "more queries than the limit")
    need(it == k, f"reported {it} rounds, {k} queries were made")
    need(abs(val - (l + u) / 2.0) <= tolr, f"returned {val}, the final bracket is [{l}, {u}]")
    if k < s["max_iters"]:
        need(u - l < s["tol"] + tolr, f"stopped at width {u - l} before the limit, tolerance {s['tol']}")
        need(status == CutStatus.SUCCESS, f"status {status} after reaching the tolerance")
    else:
        need(status in (CutStatus.UNKNOWN, CutStatus.SUCCESS), f"status {status}")
        if u - l >= s["tol"] + tolr:
            need(status == CutStatus.UNKNOWN, "claims success above the tolerance")
    if s["bits"] is None and 0 < s["frac"] < 1:
        need(l - tolr <= th <= u + tolr, f"threshold {th} lost from the bracket [{l}, {u}]")
        need(abs(val - th) <= (u - l) / 2 + tolr, "result further from the threshold than half the bracket")
    return Out(k >= 3, ["script" if s["bits"] is not None else "threshold", status.name])


@sub("C25", "own-ellipsoid", "the drivers run with the port's own ellipsoid; non-trivial: always", 60, 600, st.tuples(vec(2), st.sampled_from(["feas", "optim"])).map(list))
def c25_own(s):
    x0, via = s
    e = Ell.new_with_scalar(10.0, np.array(x0, dtype=float))
    om = FeasO([[[1.0, 0.0], -0.25]]) if via == "feas" else OptOnly([[[1.0, 0.0], -0.25]])
    try:
        r = cutting_plane_feas(om, e, Options(5, 1e-9)) if via == "feas" else cutting_plane_optim(om, e, Options(5, 1e-9))
    except TypeError as exc:
        if "not callable" in str(exc) and not om.q:
            return Out(True, ["TypeError"], "driver-calls-xc")
        raise Fail(f"the driver raised {exc!r}")
    need(0 <= r[-1] <= 5, f"run ended with {r}")
    need(len(om.q) >= 1 and np.array_equal(om.q[0], np.array(x0)), "first query is not at the centre")
    return Out(True, ["ran"])


# ------------------------------------------------------------------ C26
KIND = ["bias", "central", "q"]
cut_s = st.fixed_dictionaries({
    "kind": st.sampled_from(KIND),
    "form": st.sampled_from(["single", "single", "int", "pair-none", "pair"]),
    "g": st.lists(fl(-2.0, 2.0), min_size=8, max_size=8),
    "a0": st.one_of(st.floats(-1.3, 1.3), st.floats(-0.9, -0.05)),
    "a1": st.one_of(st.floats(-1.3, 1.3), st.floats(0.0, 1.0)),
    "gs": st.sampled_from([1.0, 1.0, 1e-3, 1e3, 1e-7, 1e7]),
})
ell_s = st.fixed_dictionaries({
    "n": st.one_of(st.integers(2, 4), st.integers(2, 8)),
    "kappa": st.one_of(st.sampled_from([1.0, 4.0, 100.0]), st.floats(0.01, 100.0)),
    "xc": st.lists(fl(-5.0, 5.0), min_size=8, max_size=8),
    "diag": st.lists(st.floats(0.2, 4.0), min_size=8, max_size=8),
    "low": st.lists(st.floats(-0.6, 0.6), min_size=28, max_size=28),
    "cuts": st.lists(cut_s, min_size=1, max_size=8),
    "ctor": st.sampled_from(["init", "matrix", "diag", "scalar"]),
    "defer": st.booleans(),
    "order": st.sampled_from(["C", "F"]),
    "unit": st.sampled_from([1.0, 1.0, 1e-4, 1e4, 1e-12, 1e12]),
})


def shape(s):
    n = s["n"]
    lm = np.eye(n)
    k = 0
    for i in range(n):
        for j in range(i):
            lm[i, j] = s["low"][k]
            k += 1
    m = lm @ np.diag(s["diag"][:n]) @ lm.T
    return (m + m.T) / 2 * s.get("unit", 1.0)


def helper_params(n, c, beta, tsq):
    h = EllCalc(n)
    single = not isinstance(beta, tuple) or beta[1] is None
    b0 = beta[0] if isinstance(beta, tuple) else float(beta)
    if c["kind"] == "bias":
        return h.calc_bias_cut(b0, tsq) if single else h.calc_parallel_bias_cut(b0, beta[1], tsq)
    if c["kind"] == "central":
        return h.calc_central_cut(tsq) if single else h.calc_parallel_central_cut(beta[1], tsq)
    return h.calc_bias_cut_q(b0, tsq) if single else h.calc_parallel_q(b0, beta[1], tsq)


def apply(e, c, cut):
    return {"bias": e.update_bias_cut, "central": e.update_central_cut, "q": e.update_q}[c["kind"]](cut)


@sub("C26", "updates", "ellipsoids (four constructors, deferral on and off) under sequences of single and parallel bias, central and discrete cuts against a model applying the calculator's parameters; caller arrays compared before and after; non-trivial: at least one successful and in all two cuts", 6000, 120000, ell_s)
def c26_updates(s):
    n = s["n"]
    m0 = np.array(shape(s), order=s["order"])
    x0 = np.array(s["xc"][:n], dtype=float) * math.sqrt(s["unit"])
    if s["ctor"] == "diag":
        d0 = np.array(s["diag"][:n]) * s["unit"]
        dk = d0.copy()
        e = Ell.new(d0, x0)
        kap, m = 1.0, np.diag(d0)
        callers = [(d0, dk), (x0, x0.copy())]
        e.no_defer_trick = not s["defer"]
    elif s["ctor"] == "scalar":
        e = Ell.new_with_scalar(s["kappa"], x0)
        e.no_defer_trick = not s["defer"]
        kap, m = float(e.kappa), e.mq.copy()
        need(m.shape == (n, n) and m[0, 0] > 0 and kap > 0 and np.array_equal(m, m[0, 0] * np.eye(n)), f"scalar constructor built scale {kap}, shape {m.tolist()}")
        callers = [(x0, x0.copy())]
    else:
        if s["ctor"] == "init":
            e = Ell(s["kappa"], m0, x0, not s["defer"])
        else:
            e = Ell.new_with_matrix(s["kappa"], m0, x0)
            e.no_defer_trick = not s["defer"]
        kap, m = s["kappa"], m0.copy()
        callers = [(m0, m0.copy()), (x0, x0.copy())]
    need(e.ndim == n, "ndim")
    x = x0.copy()
    ok = 0
    labels = []
    for c in s["cuts"]:
        g = np.array(c["g"][:n], dtype=float)
        if np.linalg.norm(g) < 0.05:
            g[0] = 1.0
        g *= c["gs"]
        mg = m @ g
        omega = float(g @ mg)
        tsq = kap * omega
        # numbers far from over- and underflow, and a shape that is still numerically definite along g
        if not (1e-40 < omega < 1e40) or not (1e-40 < tsq < 1e40) or omega < 1e-9 * np.abs(m).max() * float(g @ g):
            break
        tau = math.sqrt(tsq)
        if abs(c["a0"]) < 1e-6 or abs(abs(c["a0"]) - 1) < 1e-6:
            continue
        b0, b1 = c["a0"] * tau, c["a1"] * tau
        if c["form"] == "single":
            beta = b0
        elif c["form"] == "int":
            beta = -1 if b0 < 0 else 1
            if abs(tau - 1.0) < 1e-6:
                continue
        elif c["form"] == "pair-none":
            beta = (b0, None)
        else:
            beta = (b0, b1)
            if abs(c["a1"]) < 1e-6:
                continue
        gk = g.copy()
        bx, bm, bk = e.xc.copy(), e.mq.copy(), e.kappa
        status = apply(e, c, (g, beta))
        need(np.array_equal(g, gk), "the caller's gradient was modified")
        need(abs(e.tsq - tsq) <= 1e-8 * tsq and e.get_tsq() == e.tsq, f"size measure {e.tsq}, the scaled quadratic form is {tsq}")
        want, (rho, sigma, delta) = helper_params(n, c, beta, tsq)
        need(status == want, f"verdict {status}, the calculator says {want} for {c['kind']} {beta} at {tsq}")
        labels.append(f"{c['kind']}-{c['form']}-{status.name}")
        if status != CutStatus.SUCCESS:
            need(np.array_equal(e.xc, bx) and np.array_equal(e.mq, bm) and e.kappa == bk, f"a cut with verdict {status} changed the ellipsoid")
            continue
        ok += 1
        x = x - (rho / omega) * mg
        m = m - (sigma / omega) * np.outer(mg, mg)
        kap = kap * delta
        if not (np.all(np.isfinite(m)) and np.all(np.isfinite(x)) and math.isfinite(kap)):
            break
        got_m, want_m = e.kappa * e.mq, kap * m
        sc = np.abs(want_m).max() + abs(kap) * np.abs(m).max()
        need(np.allclose(e.xc, x, rtol=1e-8, atol=1e-8 * (np.abs(x).max() + np.abs((rho / omega) * mg).max())), f"centre {e.xc}, expected {x}")
        need(np.all(np.abs(got_m - want_m) <= 1e-7 * sc + 1e-300), f"scaled shape {got_m.tolist()}, expected {want_m.tolist()}")
        need(np.all(np.abs(e.mq - e.mq.T) <= 1e-9 * np.abs(e.mq).max()), "shape is not symmetric")
        if s["defer"]:
            need(abs(e.kappa - kap) <= 1e-9 * abs(kap), f"scale {e.kappa}, expected {kap}")
        else:
            need(e.kappa == 1.0, "scale not folded into the shape although deferral is off")
            m, kap = kap * m, 1.0
        if abs(kap) > 1e9 * s["kappa"] or np.abs(m).max() > 1e9 * np.abs(m0).max() * (s["kappa"] + 1) or np.abs(x).max() > 1e9 * math.sqrt(s["unit"]):
            break
    for a, b in callers:
        need(np.array_equal(a, b), "the caller's array was modified")
    # later changes of the caller's arrays do not reach the ellipsoid, nor copies handed out
    sx, sm = e.xc.copy(), e.mq.copy()
    for a, _ in callers:
        a += 7.0
    out = e.get_xc()
    out += 3.0
    need(np.array_equal(e.xc, sx, equal_nan=True) and np.array_equal(e.mq, sm, equal_nan=True), "the ellipsoid aliases an array of the caller")
    z = np.arange(n, dtype=float)
    e.set_xc(z)
    z += 1.0
    need(np.array_equal(e.xc, np.arange(n)) and np.array_equal(e.mq, sm, equal_nan=True), "set_xc aliases its argument or touches the shape")
    return Out(ok >= 1 and len(labels) >= 2, labels)


@sub("C26", "malformed", "malformed constructor and set_xc arguments are rejected with ValueError; non-trivial: always", 400, 5000, st.tuples(st.integers(2, 6), st.integers(2, 6), st.integers(2, 6), st.sampled_from(["init", "matrix", "set"]), st.integers(0, 3)).map(list))
def c26_malformed(s):
    a, b, c, ctor, dims = s
    if ctor == "set":
        e = Ell.new_with_matrix(1.0, np.eye(a), np.zeros(a))
        arg = np.zeros(b) if dims % 2 == 0 else np.zeros((b, c))
        bad = arg.shape != (a,)
        before = e.xc.copy()
        try:
            e.set_xc(arg)
            need(not bad, f"set_xc accepted shape {arg.shape} for dimension {a}")
        except ValueError:
            need(bad, "set_xc rejected a valid centre")
            need(np.array_equal(e.xc, before), "a rejected set_xc changed the centre")
        return Out()
    mq = np.ones((a, b)) if dims < 2 else (np.ones(a) if dims == 2 else np.ones((a, b, 2)))
    xc = np.zeros(c) if dims != 1 else np.zeros((c, 1))
    bad = mq.ndim != 2 or xc.ndim != 1 or a != b or a != c
    try:
        e = Ell(1.0, mq, xc) if ctor == "init" else Ell.new_with_matrix(1.0, mq, xc)
        need(not bad, f"accepted shape {mq.shape} with centre {xc.shape}")
        need(np.array_equal(e.mq, mq) and np.array_equal(e.xc, xc) and e.kappa == 1.0, "constructed ellipsoid differs from its arguments")
    except ValueError:
        need(bad, "a well-formed ellipsoid was rejected")
    return Out()


# ------------------------------------------------------------------ C27
lmi_s = st.fixed_dictionaries({
    "n": st.integers(1, 5),
    "m": st.integers(1, 4),
    "f": st.lists(fl(-2.0, 2.0), min_size=75, max_size=75),
    "shift": st.one_of(fl(-2.0, 6.0), st.just(0.0)),
    "x": st.lists(st.lists(fl(-3.0, 3.0), min_size=4, max_size=4), min_size=1, max_size=5),
    "z": st.lists(st.lists(fl(-6.0, 6.0), min_size=4, max_size=4), min_size=1, max_size=8),
    "psd": st.booleans(),
})


def sym(flat, n):
    m = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            m[i, j] = m[j, i] = flat[k]
            k += 1
    return m


@sub("C27", "lmi", "random symmetric pencils queried at several points; acceptance decided by the minimum eigenvalue, cut value and gradient by the minimal eigenvector, linearisation bound at other points; non-trivial: some query infeasible", 4000, 60000, lmi_s)
def c27_lmi(s):
    n, m = s["n"], s["m"]
    fs = [sym(s["f"][15 * i: 15 * i + 15], n) for i in range(5)]
    f0 = fs[0] + s["shift"] * np.eye(n)
    if s["psd"]:
        f0 = fs[0] @ fs[0].T
    return lmi_queries(f0, fs[1: m + 1], s["x"], s["z"])


near_s = st.fixed_dictionaries({
    "n": st.integers(1, 5),
    "m": st.integers(0, 4),
    "f": st.lists(fl(-2.0, 2.0), min_size=60, max_size=60),
    "spec": st.lists(st.floats(0.05, 1.0), min_size=5, max_size=5),
    "hv": st.lists(st.lists(fl(-1.0, 1.0), min_size=5, max_size=5), min_size=0, max_size=2),
    "rel": st.floats(0.5, 12.0).map(lambda e: 10.0 ** -e),
    "neg": st.booleans(),
    "scale": st.one_of(st.just(0.0), st.floats(-8.0, 8.0)).map(lambda e: 10.0 ** e),
    "fscale": st.one_of(st.just(0.0), st.floats(-8.0, 0.0)).map(lambda e: 10.0 ** e),
    "x": st.lists(fl(-3.0, 3.0), min_size=4, max_size=4),
    "z": st.lists(st.lists(fl(-6.0, 6.0), min_size=4, max_size=4), min_size=1, max_size=4),
})


@sub("C27", "lmi-near", "pencils whose value at the query has a planted smallest eigenvalue of either sign, 10^-0.5 to 10^-12 of the largest, at any scale; non-trivial: the verdict is determined beyond rounding", 5000, 80000, near_s)
def c27_near(s):
    n, m = s["n"], s["m"]
    q = np.eye(n)
    for h in s["hv"]:
        h = np.array(h[:n])
        if h @ h > 0.01:
            q = q - 2.0 * np.outer(q @ h, h) / (h @ h)
    d = np.array(s["spec"][:n])
    d[0] = s["rel"] * (-1.0 if s["neg"] else 1.0)
    fx = s["scale"] * (q @ np.diag(d) @ q.T)
    fx = (fx + fx.T) / 2
    fi = [s["scale"] * s["fscale"] * sym(s["f"][15 * i: 15 * i + 15], n) for i in range(m)]
    x = s["x"][:m]
    f0 = fx - sum((x[i] * fi[i] for i in range(m)), np.zeros((n, n)))
    tot = np.abs(f0).max() + sum(abs(x[i]) * np.abs(fi[i]).max() for i in range(m))
    o = lmi_queries(f0, fi, [x], s["z"])
    return Out(s["rel"] * s["scale"] > 1e-13 * n * tot, o.labels)


def lmi_queries(f0, fi, xs, zs):
    n, m = f0.shape[0], len(fi)
    keep0, keep = f0.copy(), [f.copy() for f in fi]
    om = LmiOracle(f0, fi)
    f0 += 100.0
    for f in fi:
        f -= 50.0
    f0, fi = keep0, keep

    def at(x):
        r = f0.copy()
        for i in range(m):
            r = r + x[i] * fi[i]
        return r
    infeas = False
    labels = []
    for x in xs:
        x = np.array(x[:m], dtype=float)
        xk = x.copy()
        r = om.assess_feas(x)
        need(np.array_equal(x, xk), "the query point was modified")
        fx = at(x)
        w, v = np.linalg.eigh(fx)
        tol = 1e-13 * n * (np.abs(f0).max() + sum(abs(x[i]) * np.abs(fi[i]).max() for i in range(m))) + 1e-300
        if w[0] > tol:
            need(r is None, f"rejected a point with minimum eigenvalue {w[0]}")
        if w[0] < -tol:
            need(r is not None, f"accepted a point with minimum eigenvalue {w[0]}")
        labels.append("feasible" if r is None else "infeasible")
        if r is None:
            continue
        infeas = True
        g, beta = r
        g = np.asarray(g)
        need(g.shape == (m,), f"gradient shape {g.shape}")
        need(abs(beta - w[0]) <= tol and beta < 0 + tol, f"reported value {beta}, the minimum eigenvalue is {w[0]}")
        if n == 1 or w[1] - w[0] > 1e-3 * np.abs(fx).max():
            want = np.array([v[:, 0] @ f @ v[:, 0] for f in fi])
            need(np.allclose(g, want, rtol=1e-6, atol=1e-6 * max([np.abs(f).max() for f in fi], default=0.0)), f"gradient {g}, the derivative of the quadratic form is {want}")
        for z in list(zs) + list(xs):
            z = np.array(z[:m], dtype=float)
            fz = at(z)
            lin = beta + g @ (z - x)
            lo, hi = np.linalg.eigvalsh(fz)[[0, -1]]
            t2 = 1e-8 * (np.abs(fz).max() * n + np.abs(fx).max() * n + np.abs(g) @ np.abs(z - x)) + 10 * tol
            need(lo - t2 <= lin <= hi + t2, f"linearised value {lin} at {z} outside the spectrum [{lo}, {hi}]")
    return Out(infeas, labels)


@sub("C27", "lmi-malformed", "non-square or mismatched matrices are rejected; non-trivial: always", 200, 2000, st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.integers(0, 2)).map(list))
def c27_malformed(s):
    a, b, c, d, k = s
    mats = [np.eye(a)] * k + [np.ones((c, d))]
    bad = a != b or (c, d) != (a, a) or (k > 0 and a != b)
    try:
        LmiOracle(np.ones((a, b)), mats)
        need(not bad, f"accepted F0 {a}x{b} with a coefficient matrix {c}x{d}")
    except ValueError:
        need(bad, "rejected well-formed matrices")
    return Out()


econ_s = st.fixed_dictionaries({
    "price": st.floats(1.0, 40.0), "scale": st.floats(0.5, 40.0),
    "a": st.tuples(st.floats(0.05, 0.5), st.floats(0.05, 0.4)).map(list),
    "v": st.tuples(st.floats(0.5, 30.0), st.floats(0.5, 30.0)).map(list),
    "cap": st.one_of(st.floats(0.1, 100.0), st.sampled_from([1.0, 5.0, 1e9])),
    "q": st.lists(st.tuples(st.one_of(st.floats(0.01, 120.0), st.floats(-2.0, 2.0), st.sampled_from([0.0, 1.0, 5.0, -1.0])), st.one_of(st.floats(0.01, 120.0), st.floats(-2.0, 2.0), st.sampled_from([0.0, 1.0])), st.sampled_from(["free", "free", "stationary", "near", "capacity", "edge"]), st.floats(2.0, 11.0)).map(list), min_size=1, max_size=6),
    "gamma": st.one_of(fl(-1000.0, 1000.0), st.just(math.inf)),
})


@sub("C27", "profit", "plans around the capacity, the stationary point, zero and negative quantities; capacity violations, profit, gradient and the optimality verdict against closed forms and central differences; non-trivial: at least one plan with positive quantities within capacity", 8000, 120000, econ_s)
def c27_profit(s):
    a, v = np.array(s["a"]), np.array(s["v"])
    om = ProfitOracle(s["price"], s["scale"], a, v, s["cap"])
    ak, vk = a.copy(), v.copy()
    a += 5.0
    v += 5.0
    a, v = ak, vk
    # stationary point: a_i R = v_i x_i
    R = (s["price"] * s["scale"] * (a[0] / v[0]) ** a[0] * (a[1] / v[1]) ** a[1]) ** (1.0 / (1.0 - a.sum()))
    xs = a * R / v

    def profit(x):
        return s["price"] * s["scale"] * x[0] ** a[0] * x[1] ** a[1] - v @ x

    def grad(x):
        r = s["price"] * s["scale"] * x[0] ** a[0] * x[1] ** a[1]
        return -(a * r / x - v)
    def exposed(x):
        # the profit is only visible through a helper that the repository's own tests call
        f = getattr(om, "_compute_profit", None)
        return None if f is None else f(x)
    inside = False
    labels = []
    for q0, q1, how, fine in s["q"]:
        x = np.array([q0, q1])
        if how == "stationary":
            x = xs.copy()
        elif how == "near":
            x = xs * (1 + 10.0 ** -fine * np.array([q0 % 2.0 - 1.0, q1 % 2.0 - 1.0]))
        elif how == "capacity":
            x = np.array([s["cap"], abs(q1) + 0.1])
        elif how == "edge":
            x = np.array([s["cap"] * (1 + 10.0 ** -fine * (1 if q0 > 1 else -1)), abs(q1) + 0.1])
        if np.any((x > 0) & (x < 1e-3)):
            continue
        xk = x.copy()
        (g, beta), opt = om.assess_optim(x, s["gamma"])
        g = np.asarray(g)
        need(np.array_equal(x, xk), "the query plan was modified")
        if x[0] > s["cap"]:
            need(not opt, f"plan {x} beyond capacity {s['cap']} declared optimal")
            need(np.array_equal(g, [1.0, 0.0]) and abs(beta - (s["cap"] - x[0])) <= 1e-12 * (abs(x[0]) + s["cap"]), f"capacity violation {x[0] - s['cap']} reported as ({g}, {beta})")
            labels.append("capacity")
            continue
        if np.any(x <= 0):
            need(not opt, f"plan {x} with a non-positive quantity declared optimal")
            pr = exposed(x)
            need(pr is None or pr == -math.inf, f"profit {pr} of a non-positive plan")
            labels.append("nonpositive")
            continue
        inside = True
        sc = s["price"] * s["scale"] * x[0] ** a[0] * x[1] ** a[1] + v @ x
        pr = exposed(x)
        need(pr is None or abs(pr - profit(x)) <= 1e-9 * sc, f"profit {pr} at {x}, expected {profit(x)}")
        w = grad(x)
        gs = 1e-9 * (np.abs(v) + np.abs(w + v) + np.abs(w))
        need(np.all(np.abs(g - w) <= gs), f"gradient {g} at {x}, the negative profit's is {w}")
        h = 1e-5 * x
        num = np.array([-(profit(x + np.array([h[0], 0])) - profit(x - np.array([h[0], 0]))) / (2 * h[0]), -(profit(x + np.array([0, h[1]])) - profit(x - np.array([0, h[1]]))) / (2 * h[1])])
        need(np.all(np.abs(g - num) <= 1e-4 * (np.abs(v) + np.abs(w + v) + sc / x * 1e-4)), f"gradient {g} at {x}, numerically {num}")
        nw = np.linalg.norm(w)
        if opt:
            need(nw < 2e-6 + 1e-12 * (np.abs(v).max() + np.abs(w + v).max()), f"optimality declared at {x} with gradient norm {nw}")
            labels.append("optimal")
        elif nw < 1e-7:
            raise Fail(f"stationary plan {x} within capacity not declared optimal (gradient norm {nw})")
        else:
            labels.append("cut")
    return Out(inside, labels)


# ------------------------------------------------------------------ C29
calc_s = st.fixed_dictionaries({
    "n": st.one_of(st.integers(2, 6), st.integers(2, 40)),
    "tau": st.one_of(st.sampled_from([1.0, 0.5, 2.0, 8.0]), st.floats(-3.0, 3.0).map(lambda e: 10.0 ** e)),
    "a0": st.one_of(fl(-2.0, 2.0), st.floats(-1.0, 0.0), st.sampled_from([0.0, -1.0, 1.0, -0.999999, -1.000001, -1e-9, 1e-9])),
    "a1": st.one_of(fl(-2.0, 2.0), st.sampled_from([0.0, 1.0, -1.0, 1e-9, -1e-9])),
    "size": st.sampled_from(["positive", "positive", "positive", "positive", "zero", "negative"]),
    "k": st.integers(-20, 20),
})


def clean(a):
    return 0.0 if abs(a) < 1e-12 else a


def same_answer(a, b):
    return a[0] == b[0] and tuple(map(float, a[1])) == tuple(map(float, b[1]))


@sub("C29", "verdicts", "all cut kinds, single and two-sided, in any dimension and unit, size measure positive, zero or negative, offsets on, near and off the boundaries; verdict, identity parameters of refusals, agreement of the routes, ranges and unit-invariance of single-cut parameters; non-trivial: positive size and a nonzero offset", 12000, 250000, calc_s)
def c29_verdicts(s):
    n, tau = s["n"], s["tau"]
    h = EllCalc(n)
    S, NS, NE = CutStatus.SUCCESS, CutStatus.NO_SOLN, CutStatus.NO_EFFECT
    tsq = {"positive": tau * tau, "zero": 0.0, "negative": -tau * tau}[s["size"]]
    b0, b1 = clean(s["a0"]) * tau, clean(s["a1"]) * tau
    pos = tsq > 0.0
    labels = []
    near = abs(s["a0"] + 1.0) < 1e-12 and s["a0"] * tau != -math.sqrt(tsq) if pos else False
    single = NE if not pos else NS if b0 >= 0.0 else NE if b0 <= -math.sqrt(tsq) else S
    two = NE if not pos else NS if b0 * b1 <= 0.0 else S
    cen = S if pos else NE
    fam = {
        "bias": (h.calc_bias_cut(b0, tsq), single, [h.calc_single_or_parallel_bias_cut((b0, None), tsq)]),
        "q": (h.calc_bias_cut_q(b0, tsq), single, [h.calc_single_or_parallel_q((b0, None), tsq)]),
        "central": (h.calc_central_cut(tsq), cen, [h.calc_single_or_parallel_central_cut((b0, None), tsq), h.calc_single_or_parallel_central_cut((b1, None), tsq)]),
        "bias-two": (h.calc_parallel_bias_cut(b0, b1, tsq), two, [h.calc_single_or_parallel_bias_cut((b0, b1), tsq)]),
        "q-two": (h.calc_parallel_q(b0, b1, tsq), two, [h.calc_single_or_parallel_q((b0, b1), tsq)]),
        "central-two": (h.calc_parallel_central_cut(b1, tsq), cen, [h.calc_single_or_parallel_central_cut((b0, b1), tsq), h.calc_single_or_parallel_central_cut((-b0, b1), tsq)]),
    }
    for k, (got, want, others) in fam.items():
        if near and k in ("bias", "q"):
            continue
        need(got[0] == want, f"{k}: verdict {got[0]}, expected {want} (offsets {b0}, {b1}, size {tsq}, n={n})")
        if want != S:
            need(tuple(map(float, got[1])) == (0.0, 0.0, 1.0), f"{k}: a refused cut returns parameters {got[1]}")
        labels.append(f"{k}-{want.name}")
        if all(math.isfinite(float(t)) for t in got[1]):
            for o in others:
                need(same_answer(o, got), f"{k}: routes disagree: {got} and {o}")
    if pos:
        rho, sigma, delta = fam["central"][0][1]
        need(rho == 0.0 and abs(sigma - 2.0 / (n + 1)) <= 1e-12 and abs(delta - (n / (n + 1.0)) ** 2) <= 1e-12, f"central cut parameters {(rho, sigma, delta)} for n={n}")
        c = 2.0 ** s["k"]
        for k, f in (("bias", h.calc_bias_cut), ("q", h.calc_bias_cut_q)):
            got = fam[k][0]
            if got[0] != S or near:
                continue
            rho, sigma, delta = got[1]
            a = b0 / math.sqrt(tsq)
            need(-math.sqrt(tsq) <= rho < 0.0, f"{k}: step {rho} for offset {b0}")
            need(sigma > 0.0 and 0.0 < delta < 1.0, f"{k}: reduction {sigma}, scale factor {delta}")
            want = (n / (n + 1.0)) ** 2 * (1 - a) * (1 + a)
            need(abs(delta - want) <= 1e-9 * want + 1e-14, f"{k}: scale factor {delta}, expected {want}")
            st2, (rho2, sigma2, delta2) = f(b0 * c, tsq * c * c)
            need(st2 == S and abs(rho2 - c * rho) <= 1e-9 * abs(c * rho) and abs(sigma2 - sigma) <= 1e-9 * sigma and abs(delta2 - delta) <= 1e-9 * delta, f"{k}: parameters change with the unit: {got[1]} and {(rho2, sigma2, delta2)} for factor {c}")
        if fam["bias"][0][0] == S and not near:
            rb, sb, db = fam["bias"][0][1]
            rq, sq, dq = fam["q"][0][1]
            need(rq >= rb and sq <= sb and abs(dq - db) <= 1e-12, f"the discrete variant moves further than the plain one: {fam['q'][0][1]} and {fam['bias'][0][1]}")
    return Out(pos and s["a0"] != 0.0, labels)


# ------------------------------------------------------------------ engine
def known_keys(prop):
    keys = set()
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as fh:
            for l in fh:
                if l.startswith("known: "):
                    w = dict(t.split("=", 1) for t in l.split() if "=" in t and t.split("=", 1)[0] in ("property", "key"))
                    if w.get("property") == prop:
                        keys.add(w.get("key"))
    except FileNotFoundError:
        pass
    return keys


def evaluate(f, inp, keys):
    try:
        o = f(inp)
    except Fail:
        raise
    except Exception as exc:  # an exception of the tested code
        raise Fail(f"exception {type(exc).__name__}: {exc}") from exc
    if o.known and o.known not in keys:
        raise Fail(f"defect [{o.known}] (not listed as a known finding)")
    return o


SHARDS = 8


def run_shard(arg):
    prop, name, k, n, keys = arg
    strat, f = next((t[4], t[5]) for t in SUBS[prop] if t[0] == name)
    stt = {"evals": 0, "nt": set(), "lab": Counter(), "samples": [], "known": Counter(), "kex": {}, "last": None, "failed": False}

    def body(inp):
        try:
            o = evaluate(f, inp, keys)
        except Fail as e:
            stt["failed"] = True
            stt["last"] = (inp, str(e))
            raise
        if stt["failed"]:
            return
        stt["evals"] += 1
        if o.nontrivial or o.known:
            js = json.dumps(inp)
            if o.nontrivial:
                stt["nt"].add(hashlib.sha256(js.encode()).digest()[:8])
                if len(stt["samples"]) < 2 and len(js) < 3000:
                    stt["samples"].append(inp)
            if o.known:
                stt["known"][o.known] += 1
                stt["kex"].setdefault(o.known, js)
        for l in o.labels:
            stt["lab"][l] += 1
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))(given(strat)(body))
    test = seed(int(hashlib.sha256(f"{SEED}/{prop}/{name}/{k}".encode()).hexdigest()[:12], 16))(test)
    try:
        test()
    except Fail:
        pass
    except Exception as exc:
        if not stt["failed"]:
            stt["error"] = repr(exc)
    return stt


def main():
    prop = sys.argv[1]
    args = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    if prop not in SUBS:
        print(f"unknown property {prop}", file=sys.stderr)
        return 2
    keys = known_keys(prop)
    if "--replay" in args:
        rep = json.load(open(args["--replay"]))
        for name, _, _, _, _, f in SUBS[prop]:
            if name == rep["sub"]:
                try:
                    evaluate(f, rep["input"], keys)
                    print(f"replay {name}: holds")
                    return 0
                except Fail as e:
                    print(f"replay {name}: {e}")
                    return 1
        return 2
    t0 = time.time()
    tot = nt = 0
    rules, samples, subs, klines = [], [], {}, []
    violation = None
    for name, rule, quick, thorough, strat, f in SUBS[prop]:
        if args.get("--sub", name) != name:
            continue
        rules.append(f"{name}: {rule}")
        t1 = time.time()
        n = quick if TIER != "thorough" else thorough
        shards = min(SHARDS, max(1, n // 40))
        with multiprocessing.get_context("fork").Pool(shards) as pool:
            parts = pool.map(run_shard, [(prop, name, k, n // shards + (k < n % shards), sorted(keys)) for k in range(shards)])
        stt = {"evals": 0, "nt": set(), "lab": Counter(), "samples": [], "known": Counter(), "kex": {}, "last": None, "failed": False}
        for p in parts:
            if p.get("error"):
                print(f"ERROR: the harness failed in {name}: {p['error']}", file=sys.stderr)
                return 2
            stt["evals"] += p["evals"]
            stt["nt"] |= p["nt"]
            stt["lab"].update(p["lab"])
            stt["samples"] += p["samples"][:max(0, 2 - len(stt["samples"]))]
            stt["known"].update(p["known"])
            for k, v in p["kex"].items():
                stt["kex"].setdefault(k, v)
            if p["failed"] and not stt["failed"]:
                stt["failed"], stt["last"] = True, p["last"]
        tot += stt["evals"]
        nt += len(stt["nt"])
        for smp in stt["samples"]:
            samples.append({"sub": name, "input": smp})
        subs[name] = {"evaluations": stt["evals"], "distinct_nontrivial": len(stt["nt"]), "classes": dict(stt["lab"]), "known_finding_hits": dict(stt["known"]), "wall_s": time.time() - t1}
        if os.environ.get("VERIF_PROGRESS"):
            print(name, subs[name], file=sys.stderr)
        for k, c in stt["known"].items():
            klines.append(f"KNOWN-FINDING: property={prop} {k} ({c} of {stt['evals']} cases of {name}, e.g. {stt['kex'][k][:300]})")
        if stt["failed"]:
            inp, err = stt["last"]
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-{name}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "sub": name, "seed": SEED, "error": err, "input": inp}, fh, indent=1)
            violation = (path, err)
            break
    ev = {"property": prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": "exploration",
          "coverage": {"evaluations": tot, "distinct_nontrivial": nt, "rule": " | ".join(rules), "samples": json.loads(json.dumps(samples).replace("Infinity", '"inf"')), "sub_checks": subs},
          "assumptions": ["numpy float64 arithmetic; comparisons within relative rounding tolerances"], "wall_s": time.time() - t0, "violations": 1 if violation else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for l in klines:
        print(l)
    if violation:
        print(violation[1].splitlines()[0])
        print(f"VIOLATION property={prop} replay={violation[0]}")
        return 1
    print(f"{prop}: held on {tot} cases ({nt} distinct non-trivial)")
    return 0


sys.exit(main())
