//! C01, C02: the requested accuracy is delivered (exact flow maps as oracle).

use crate::fw::{Case, Spec};
use crate::opts::{gen_opt, Opt, OptCfg};
use crate::prob::{self, gen, GenCfg, Kind, Prob};
use crate::rng::Rng;
use crate::run::{run, Alg, Mode, Outcome, Ret, Setup};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C01",
            level: "exploration",
            rule: "random smooth well-conditioned problems with closed-form flow (1-12 components, both directions, shifted times, mixed units) x random tolerances and step-control options, driven to the end by the explicit solver; non-trivial: finished with at least 5 steps, every step compared with the exact flow",
            quick: 96000,
            thorough: 1600000,
            case: c01,
            require: &["steps_checked", "rejections", "backward", "multi_component", "batches"],
            assumptions: &["closed-form flow maps evaluated in double precision are the truth"],
        },
        Spec {
            id: "C02",
            level: "exploration",
            rule: "random smooth well-conditioned problems, non-stiff to stiffness 1e10, with closed-form flow x random tolerances and options x supplied or finite-difference Jacobian, driven to the end by the implicit solver; non-trivial: finished with at least 5 steps, every step compared with the exact flow",
            quick: 72000,
            thorough: 800000,
            case: c02,
            require: &["steps_checked", "rejections", "backward", "multi_component", "stiff", "fd_jacobian", "work_series", "batches"],
            assumptions: &["closed-form flow maps evaluated in double precision are the truth"],
        },
    ]
}

/// True state at t as far as it is known.
pub fn truth(p: &Prob, t: f64) -> Option<Vec<f64>> {
    if let Some(f) = &p.flow {
        Some(f(p.t0, &p.u0, t))
    } else {
        p.exact.as_ref().map(|e| e(t))
    }
}

/// Largest magnitude reached by each group of coupled components.
fn group_max(p: &Prob, us: &[Vec<f64>]) -> Vec<f64> {
    let ng = p.group.iter().max().unwrap() + 1;
    let mut g = vec![0f64; ng];
    for u in us {
        for i in 0..p.n {
            g[p.group[i]] = g[p.group[i]].max(u[i].abs());
        }
    }
    p.group.iter().map(|&k| g[k]).collect()
}

/// Common life-cycle part: the run must have ended with Success at the final time.
pub fn ended_well(c: &mut Case, s: &Setup, o: &Outcome) -> bool {
    if let Some(m) = &o.panic {
        c.fail(format!("panicked: {}", m));
        return false;
    }
    if o.over_budget {
        c.fail("did not finish within the event budget");
        return false;
    }
    let f = o.fin.as_ref().unwrap();
    if f.ret != Ret::Success {
        c.fail(format!("ended with {:?} at t={:?} after {} points", f.ret, f.t, o.ts.len()));
        return false;
    }
    let tm = s.prob.t0.abs().max(s.prob.tf.abs());
    if !((f.t - s.prob.tf).abs() <= 8.0 * f64::EPSILON * tm) {
        c.fail(format!("Success at t={:?}, final time {:?}", f.t, s.prob.tf));
        return false;
    }
    true
}

pub struct AccBound {
    /// Largest and 90th-percentile local error over the steps of a run, and largest global error.
    pub local: f64,
    pub local90: f64,
    pub global: f64,
    pub names: [&'static str; 3],
}

/// Compare every recorded step and state with the exact flow. `(rt, at)` are the tolerances the
/// errors are measured in.
pub fn accuracy(c: &mut Case, s: &Setup, o: &Outcome, rt: f64, at: f64, b: &AccBound) -> [f64; 3] {
    let p = &s.prob;
    let n = p.n;
    let sn = (n as f64).sqrt();
    let gm = group_max(p, &o.us);
    let mut worst_l = (0.0f64, 0usize, 0usize);
    let mut worst_g = (0.0f64, 0usize, 0usize);
    let mut locals = vec![];
    let nst = (o.ts.len() - 1) as f64;
    for k in 1..o.ts.len() {
        let (t0, t1) = (o.ts[k - 1], o.ts[k]);
        let mut f0 = vec![0.0; n];
        (p.f)(t1, &o.us[k], &mut f0);
        if let Some(fl) = &p.flow {
            let x = fl(t0, &o.us[k - 1], t1);
            let mut wk = 0.0f64;
            for i in 0..n {
                let tol = at + rt * o.us[k][i].abs().max(o.us[k - 1][i].abs()).max(1e-2 * gm[i]);
                let round = 2e-14 * gm[i] + 20.0 * f64::EPSILON * (t0.abs() + t1.abs()) * f0[i].abs();
                let e = (o.us[k][i] - x[i]).abs();
                let r = (e - round).max(0.0) / (sn * tol);
                if !(r <= wk) {
                    wk = r;
                }
                if !(r <= worst_l.0) {
                    worst_l = (r, k, i);
                }
            }
            locals.push(wk);
            c.add("steps_checked", 1);
        }
        if let Some(x) = truth(p, t1) {
            for i in 0..n {
                let tol = at + rt * gm[i];
                let round = 1e-14 * nst * gm[i] + 40.0 * f64::EPSILON * (t0.abs() + t1.abs()) * f0[i].abs() * nst.sqrt();
                let e = (o.us[k][i] - x[i]).abs();
                let r = (e - p.cond * round).max(0.0) / (sn * tol * p.cond * nst.sqrt().max(1.0));
                if !(r <= worst_g.0) {
                    worst_g = (r, k, i);
                }
            }
        }
    }
    locals.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Greater));
    let q = if locals.is_empty() { 0.0 } else { locals[(locals.len() * 9) / 10] };
    if locals.len() >= 10 {
        c.bound(b.names[1], q, b.local90, || "90th percentile of the local error over the run".into());
    }
    c.bound(b.names[0], worst_l.0, b.local, || {
        format!("step {} component {}: from {:?} at {:?} to {:?} at {:?}", worst_l.1, worst_l.2, o.us[worst_l.1 - 1], o.ts[worst_l.1 - 1], o.us[worst_l.1], o.ts[worst_l.1])
    });
    c.bound(b.names[2], worst_g.0, b.global, || {
        format!("point {} component {}: {:?} at {:?}, exact {:?}", worst_g.1, worst_g.2, o.us[worst_g.1], o.ts[worst_g.1], truth(p, o.ts[worst_g.1]))
    });
    [worst_l.0, q, worst_g.0]
}

/// Typical accuracy over a batch of runs: much steadier than that of a single run.
fn batch(c: &mut Case, one: fn(&mut Case) -> Option<[f64; 3]>, names: [&'static str; 3], bounds: [f64; 3]) {
    const RUNS: usize = 24;
    let mut sum = [0.0f64; 3];
    let mut first = String::new();
    for k in 0..RUNS {
        c.rng = Rng::new(c.rng.u64());
        let Some(r) = one(c) else { return };
        if k == 0 {
            first = c.desc.clone();
        }
        for j in 0..3 {
            sum[j] += r[j].max(1e-8).ln() / RUNS as f64;
        }
    }
    c.desc = format!("batch of {} runs, first: {}", RUNS, first);
    for j in 0..3 {
        c.bound(names[j], sum[j].exp(), bounds[j], || format!("geometric mean over {} runs of the largest local, 90th percentile local and global error: {:?}", RUNS, sum.map(f64::exp)));
    }
    c.add("batches", 1);
    c.nontrivial = true;
}

/// An absolute tolerance of the size of the solution lets a nonlinear model be pushed out of the region
/// in which its solution exists; the claim is about tolerances that resolve the solution.
pub fn resolve(p: &prob::Prob, opt: &mut Opt) {
    if p.linear {
        return;
    }
    let mut size = vec![0.0f64; p.n];
    for k in 0..=8 {
        if let Some(x) = truth(p, p.t0 + (p.tf - p.t0) * k as f64 / 8.0) {
            for i in 0..p.n {
                size[i] = size[i].max(x[i].abs());
            }
        }
    }
    let least = size.into_iter().filter(|x| *x > 0.0).fold(f64::INFINITY, f64::min);
    opt.abstol = opt.abstol.map(|a| a.min(0.005 * least));
}

fn c01(c: &mut Case) {
    if c.rng.chance(0.03) {
        return batch(c, c01_one, ["batch_local", "batch_local90", "batch_global"], [0.15, 0.1, 0.035]);
    }
    c01_one(c);
}

fn c01_one(c: &mut Case) -> Option<[f64; 3]> {
    let r = &mut c.rng;
    let kmax = if r.chance(0.8) { 4 } else { 12 };
    let p = gen(r, &GenCfg { kind: Kind::Exact, nmax: kmax, tmax: 30.0, scales: true });
    let span = (p.tf - p.t0).abs();
    let mut opt = gen_opt(r, Alg::Dp5, span, OptCfg { rtol_min: 1e-10, rtol_max: 1e-4, control: true, dtmax: true, dtstart: true });
    if opt.reltol.is_none() {
        opt.reltol = Some(1e-5);
        opt.abstol = Some(1e-7);
    }
    if let Some(d) = opt.dtstart {
        // an initial guess of the order of the solution's own time scale or smaller
        opt.dtstart = Some(d.min(0.1).min(0.2 * span));
    }
    resolve(&p, &mut opt);
    let mut s = Setup::new(p, opt, Alg::Dp5);
    s.log = false;
    s.use_jac = c.rng.chance(0.3);
    c.desc = s.desc();
    let o = run(&s, &Mode::Integrate);
    if !ended_well(c, &s, &o) {
        return None;
    }
    let e = s.opt.eff(Alg::Dp5);
    let r = accuracy(c, &s, &o, e.reltol, e.abstol, &AccBound { local: 5000.0, local90: 200.0, global: 500.0, names: ["local", "local90", "global"] });
    c.add("rejections", o.fin.as_ref().unwrap().st.rejects as u64);
    c.add("backward", (s.prob.tf < s.prob.t0) as u64);
    c.add("multi_component", (s.prob.n > 1) as u64);
    c.nontrivial = o.ts.len() > 5;
    Some(r)
}

/// The same smooth problem at growing stiffness: the work must not grow with it.
fn c02_work(c: &mut Case) {
    let seed = c.rng.u64();
    let use_jac = c.rng.chance(0.6);
    let which = c.rng.below(3);
    let rt = c.rng.log(1e-8, 1e-4);
    let mirrored = c.rng.chance(0.4);
    let span = c.rng.log(0.5, 10.0);
    let dtmax = if c.rng.chance(0.2) { Some(span / 5.0) } else { None };
    let mut steps = vec![];
    for lam in [1e2, 1e4, 1e6, 1e8] {
        let mut r = Rng::new(seed);
        let mut p = match which {
            0 => prob::relax(&mut r, 0.0, span, lam, lam * (1.0 + 1e-12)),
            1 => prob::davis_skodje_at(&mut r, 0.0, span, lam),
            _ => prob::kaps(&mut r, 0.0, span, lam * (1.0 + 1e-12)),
        };
        if mirrored {
            p = prob::mirror(&p);
        }
        let opt = Opt { reltol: Some(rt), abstol: Some(rt), dtmax, ..Default::default() };
        let mut s = Setup::new(p, opt, Alg::Radau);
        s.log = false;
        s.use_jac = use_jac;
        if c.desc.is_empty() {
            c.desc = format!("work vs stiffness: {}", s.desc());
        }
        let o = run(&s, &Mode::Integrate);
        if !ended_well(c, &s, &o) {
            return;
        }
        let st = o.fin.as_ref().unwrap().st;
        steps.push((st.steps, st.decs + st.jevals));
    }
    let (b0, d0) = steps[0];
    for (k, &(b, d)) in steps.iter().enumerate().skip(1) {
        let st = steps.clone();
        c.bound("work_growth_steps", b as f64, 3.0 * b0 as f64 + 60.0, || format!("stiffness level {}: (steps, factorizations) {:?}", k, st));
        let st = steps.clone();
        c.bound("work_growth_factorizations", d as f64, 3.0 * d0 as f64 + 100.0, || format!("stiffness level {}: (steps, factorizations) {:?}", k, st));
    }
    c.add("work_series", 1);
    c.nontrivial = true;
}

fn c02(c: &mut Case) {
    if c.rng.chance(0.04) {
        return c02_work(c);
    }
    if c.rng.chance(0.03) {
        return batch(c, c02_one, ["batch_local", "batch_local90", "batch_global"], [0.13, 0.045, 0.015]);
    }
    c02_one(c);
}

fn c02_one(c: &mut Case) -> Option<[f64; 3]> {
    let r = &mut c.rng;
    let kmax = if r.chance(0.8) { 4 } else { 10 };
    let p = gen(r, &GenCfg { kind: Kind::ExactStiff, nmax: kmax, tmax: 30.0, scales: true });
    let span = (p.tf - p.t0).abs();
    let mut opt = gen_opt(r, Alg::Radau, span, OptCfg { rtol_min: 1e-9, rtol_max: 1e-4, control: true, dtmax: true, dtstart: true });
    if opt.reltol.is_none() {
        opt.reltol = Some(1e-5);
        opt.abstol = Some(1e-7);
    }
    if let Some(d) = opt.dtstart {
        opt.dtstart = Some(d.min(0.1).min(0.2 * span));
    }
    if !p.linear {
        // without extrapolated starting values the convergence heuristic may stop a nonlinear
        // Newton iteration after one update (documented limitation of the method)
        opt.use_ext_col = None;
    }
    // with fewer the iteration ends before its rate is known
    opt.max_newt_iter = opt.max_newt_iter.map(|x| x.max(4));
    resolve(&p, &mut opt);
    let mut s = Setup::new(p, opt, Alg::Radau);
    s.log = false;
    s.use_jac = c.rng.chance(0.6);
    c.desc = s.desc();
    let o = run(&s, &Mode::Integrate);
    if !ended_well(c, &s, &o) {
        return None;
    }
    let (rt, at) = s.opt.radau_tol();
    let b = if s.prob.linear {
        AccBound { local: 5000.0, local90: 150.0, global: 1000.0, names: ["linear_local", "linear_local90", "linear_global"] }
    } else if s.prob.stiffness <= 100.0 {
        AccBound { local: 2000.0, local90: 100.0, global: 500.0, names: ["nonstiff_local", "nonstiff_local90", "nonstiff_global"] }
    } else {
        // the convergence heuristic of the simplified Newton iteration lets single steps through
        // when a very stiff component dominates its norm
        AccBound { local: 2e4, local90: 150.0, global: 2e3, names: ["stiff_local", "stiff_local90", "stiff_global"] }
    };
    let r = accuracy(c, &s, &o, rt, at, &b);
    c.add("rejections", o.fin.as_ref().unwrap().st.rejects as u64);
    c.add("backward", (s.prob.tf < s.prob.t0) as u64);
    c.add("multi_component", (s.prob.n > 1) as u64);
    c.add("stiff", (s.prob.stiffness > 100.0) as u64);
    c.add("fd_jacobian", !s.use_jac as u64);
    c.nontrivial = o.ts.len() > 5;
    Some(r)
}
