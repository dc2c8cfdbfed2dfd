//! C05, C06, C08, C09, C10, C19: life cycle, record, step sizes, faults, counting and budgets.

use super::acc::{accuracy, ended_well, resolve, AccBound};
use super::scale::{marathon, marathon_due};
use super::step::gen_cb;
use crate::fw::{Case, Spec};
use crate::opts::{gen_budget, gen_nmax, gen_opt, vary_theta, widen_opt, OptCfg};
use crate::prob::{absorb, custom, gen, mirror, GenCfg, Kind, Prob, F};
use crate::rng::Rng;
use crate::run::{run, run_visit, Alg, EvKind, Fault, Mode, Outcome, Ret, Setup, Snap, StepView};
use std::rc::Rc;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C05",
            level: "fault_enumeration",
            rule: "random problems incl. ones that blow up, leave their domain, chatter or are far too stiff x random options, step budgets, callbacks and injected non-finite evaluations, both solvers, four ways of driving, then poked 4 times after the end; non-trivial: run ended and was poked",
            quick: 144000,
            thorough: 1600000,
            case: c05,
            require: &["success", "maxiters", "dt_underflow", "stuck_at_zero", "singular", "attempts_near_underflow", "poked", "faults_hit", "dp5", "radau"],
            assumptions: &["\"bounded\" is decided against a budget of 3 million user-function calls per run (largest legitimate run observed: well under a tenth of it)"],
        },
        Spec {
            id: "C06",
            level: "exploration",
            rule: "random problems x random options, both solvers, stepped one by one with the public state sampled around every step; non-trivial: at least 3 accepted steps and the solution read back through both iterators",
            quick: 144000,
            thorough: 1600000,
            case: c06,
            require: &["accepted", "rejections", "failed_steps", "read_back", "backward", "dp5", "radau", "marathon", "wide", "long"],
            assumptions: &[],
        },
        Spec {
            id: "C08",
            level: "exploration",
            rule: "random problems x random step options, both solvers, every evaluation time and every step compared with the limits; non-trivial: at least 3 accepted steps",
            quick: 144000,
            thorough: 1600000,
            case: c08,
            require: &["negative_dtstart", "first_attempts", "dtmax_active", "growth_limited", "after_reject", "retries", "ended", "backward", "dp5", "radau", "wide", "long"],
            assumptions: &[],
        },
        Spec {
            id: "C09",
            level: "fault_enumeration",
            rule: "(a) models undefined beyond a boundary in time or state, (b) closed-form problems with one non-finite value injected at an enumerated evaluation inside a step attempt, both solvers; non-trivial: the boundary lay inside the span, or the fault was hit and the run compared with the exact flow",
            quick: 144000,
            thorough: 1600000,
            case: c09,
            require: &["boundary_runs", "transient_runs", "nan", "inf", "dp5", "radau", "fault_stage_0", "fault_stage_1", "fault_stage_2", "fault_stage_3", "fault_stage_4", "fault_stage_5"],
            assumptions: &["evaluations that initialise the next step (after acceptance) are not inside a step attempt"],
        },
        Spec {
            id: "C10",
            level: "exploration",
            rule: "random problems x random options x callbacks x Jacobian source, both solvers, statistics compared with the calls actually observed after every step; non-trivial: at least 3 accepted steps",
            quick: 144000,
            thorough: 1600000,
            case: c10,
            require: &["snapshots", "rejections", "fd_jacobians", "user_jacobians", "decompositions_reused", "singular", "with_callback", "dp5", "radau", "marathon"],
            assumptions: &[],
        },
        Spec {
            id: "C19",
            level: "exploration",
            rule: "random problems x random options, both solvers: unlimited run, then budgets around and below what it needed; non-trivial: unlimited run needed at least 3 steps and all budgets were compared",
            quick: 24000,
            thorough: 360000,
            case: c19,
            require: &["budgets", "exact_budget", "one_less", "truncated", "rejections", "dp5", "radau", "marathon"],
            assumptions: &[],
        },
    ]
}

pub fn alg(r: &mut Rng) -> Alg {
    if r.chance(0.5) {
        Alg::Dp5
    } else {
        Alg::Radau
    }
}

pub fn gen_prob(r: &mut Rng, failing: f64, tmax: f64) -> Prob {
    let kind = if r.chance(failing) {
        Kind::Failing
    } else {
        *r.pick(&[Kind::Exact, Kind::ExactStiff, Kind::Any, Kind::AnyStiff])
    };
    let nmax = gen_nmax(r);
    gen(r, &GenCfg { kind, nmax, tmax, scales: true })
}

fn gen_setup(c: &mut Case, failing: f64, steps: (usize, usize), singular: bool) -> Setup {
    let r = &mut c.rng;
    let a = alg(r);
    let mut p = gen_prob(r, failing, 20.0);
    let span = (p.tf - p.t0).abs();
    let mut limit = None;
    if singular && a == Alg::Radau && r.chance(0.03) {
        let h = span * r.log(1e-4, 0.5);
        let q = absorb(r, p.t0.min(p.tf), p.t0.max(p.tf), h);
        p = if p.tf < p.t0 { mirror(&q) } else { q };
        limit = Some(h);
    }
    let mut opt = gen_opt(r, a, span, OptCfg { rtol_min: 1e-10, rtol_max: 1e-2, control: true, dtmax: true, dtstart: true });
    widen_opt(r, a, &mut opt);
    vary_theta(r, a, &mut opt);
    // rejected steps shrink fast enough for a run that underflows to end within the allowed calls
    opt.facl = opt.facl.map(|x| if a == Alg::Dp5 { x.min(0.6) } else { x.max(1.7) });
    gen_budget(r, &mut opt, span, steps.0, steps.1);
    if let Some(h) = limit {
        opt.dtmax = if r.chance(0.5) { Some(h * r.range(0.5, 20.0)) } else { None };
        opt.dtstart = Some((h * r.log(0.3, 20.0)).min(opt.dtmax.unwrap_or(span)));
    }
    let mut s = Setup::new(p, opt, a);
    s.use_jac = limit.is_some() || r.chance(0.6);
    s.order = r.u64();
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    s
}

pub fn crashed(c: &mut Case, o: &Outcome) -> bool {
    if let Some(m) = &o.panic {
        c.fail(format!("panicked: {}", m));
        return true;
    }
    if o.over_budget {
        c.fail("not finished within the budget of user-function calls");
        return true;
    }
    if let Some(m) = &o.bad_args {
        c.fail(m.clone());
        return true;
    }
    false
}

/// Starts at time zero, where no step size is small compared with the time, and is undefined (or the
/// estimate never small) everywhere else: the step size shrinks until it underflows.
fn stuck(r: &mut Rng, n: usize, dir: f64) -> Prob {
    let kind = r.below(3);
    let undefined = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let u0: Vec<f64> = (0..n).map(|_| r.sign() * r.log(0.1, 10.0)).collect();
    let bad = r.below(n);
    let f: F = Rc::new(move |t, u, du| {
        for i in 0..u.len() {
            du[i] = -u[i];
        }
        if kind == 0 || t != 0.0 {
            du[bad] = undefined;
        }
    });
    let jac: F = Rc::new(move |t, u, df| {
        let n = u.len();
        for x in df.iter_mut() {
            *x = 0.0;
        }
        for i in 0..n {
            df[i * n + i] = -1.0;
        }
        if kind == 2 && t != 0.0 {
            df[bad * n + bad] = undefined;
        }
    });
    custom("stuck at zero", n, 0.0, dir * r.log(0.1, 10.0), u0, f, jac)
}

fn c05(c: &mut Case) {
    let mut s = gen_setup(c, 0.35, (1, 200), true);
    let r = &mut c.rng;
    if r.chance(0.05) {
        s.opt.max_steps = None;
    }
    if r.chance(0.01) {
        s.prob = stuck(r, s.prob.n, (s.prob.tf - s.prob.t0).signum());
        s.opt.dtmax = None;
        s.opt.max_steps = Some(r.int(1200, 2500));
    } else if r.chance(0.3) {
        for _ in 0..r.int(1, 3) {
            let early = r.chance(0.5);
            let at = r.below(if early { 60 } else { 600 }) as u64;
            s.faults.push(Fault { at, comp: r.below(s.prob.n), val: *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e308]) });
        }
    }
    if r.chance(0.2) {
        s.cb = Some(gen_cb(r, s.prob.n, &s.prob.u0, 0.5));
    }
    s.poke = 4;
    let mode = r.pick(&[Mode::Steps, Mode::Integrate, Mode::MutIter, Mode::StepsThenIntegrate(3)]).clone();
    c.desc = format!("{:?} {}", mode, s.desc());
    s.log = mode == Mode::Steps;
    // evaluations away from the current time: so many in a row contain the end of an attempted step
    // (for Radau in any order)
    let whole = if s.alg == Alg::Dp5 { 6 } else { 5 };
    let o = run_visit(&s, &mode, &mut |v: &StepView| {
        let ulp = f64::EPSILON * v.pre.t.abs();
        if !c.violations.is_empty() || (v.pre.tfinal - v.pre.t).abs() <= 11.0 * ulp {
            return;
        }
        let away: Vec<f64> = v.evs.iter().filter(|e| e.kind == EvKind::Rhs && e.t != v.pre.t).map(|e| (e.t - v.pre.t).abs()).collect();
        for w in away.windows(whole) {
            let h = w.iter().fold(0.0f64, |m, x| m.max(*x));
            if h < 8.0 * ulp {
                c.fail(format!("step {}: attempts the step size {:e}, {} roundings of the time {:?}", v.k, h, h / ulp, v.pre.t));
                return;
            }
            if h < 100.0 * ulp {
                c.add("attempts_near_underflow", 1);
            }
        }
    });
    if crashed(c, &o) {
        return;
    }
    let f = o.fin.as_ref().unwrap();
    let e = s.opt.eff(s.alg);
    let tm = s.prob.t0.abs().max(s.prob.tf.abs());
    let reached = (f.t - s.prob.tf).abs() <= 8.0 * f64::EPSILON * tm;
    if s.prob.name == "stuck at zero" {
        c.add("stuck_at_zero", (f.ret == Ret::DtLessThanMin) as u64);
    }
    match f.ret {
        Ret::Continue => c.fail("driving ended but the return code is Continue"),
        Ret::Success => {
            c.add("success", 1);
            if !reached {
                c.fail(format!("Success at t={:?}, final time {:?}", f.t, s.prob.tf));
            }
        }
        Ret::MaxIters => {
            c.add("maxiters", 1);
            if f.st.steps < e.max_steps {
                c.fail(format!("MaxIters after {} steps, budget {}", f.st.steps, e.max_steps));
            }
            if f.dt.abs() <= f64::EPSILON * f.t.abs() {
                // the budget may have ended on the very attempt that underflowed
                s.opt.max_steps = Some(e.max_steps + 1);
                let again = run(&s, &mode);
                if again.fin.as_ref().map_or(true, |g| g.ret == Ret::MaxIters) {
                    c.fail(format!("goes on with step size {:?} at t={:?} until the budget of {} steps is used up", f.dt, f.t, e.max_steps));
                }
            }
        }
        Ret::DtLessThanMin => {
            c.add("dt_underflow", 1);
            // every further step would be lost in the rounding of the time
            if !(f.dt.abs() <= 10.000001 * f64::EPSILON * f.t.abs()) && f.dt.abs() > f64::MIN_POSITIVE {
                c.fail(format!("DtLessThanMin with step size {:e} at t={:e}", f.dt, f.t));
            }
        }
        Ret::SingularMatrix if s.alg == Alg::Radau => c.add("singular", 1),
        r => c.fail(format!("ended with {:?} for no reason", r)),
    }
    if reached && f.ret != Ret::Success {
        c.fail(format!("reached the final time but reports {:?}", f.ret));
    }
    if let Some(m) = &o.poke_diff {
        c.fail(m.clone());
    }
    c.add("poked", o.poked as u64);
    c.add("faults_hit", o.faults_hit);
    c.nontrivial = o.poked == 4;
    let ev = o.rhs_calls as f64;
    c.bound("calls_of_budget", ev, s.budget as f64, || "calls".into());
}

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

fn c06(c: &mut Case) {
    if marathon_due(c, 12000) {
        return marathon(c);
    }
    let mut s = gen_setup(c, 0.15, (5, 150), true);
    if c.rng.chance(0.25) {
        s.cb = Some(gen_cb(&mut c.rng, s.prob.n, &s.prob.u0, 0.7));
    }
    s.read_sol = true;
    c.desc = s.desc();
    let p = s.prob.clone();
    let dir = (p.tf - p.t0).signum();
    let tm = p.t0.abs().max(p.tf.abs());
    let mut us: Vec<Vec<f64>> = vec![p.u0.clone()];
    let mut ts: Vec<f64> = vec![p.t0];
    let o = run_visit(&s, &Mode::Steps, &mut |v: &StepView| {
        if !c.violations.is_empty() {
            return;
        }
        let (a, b) = (v.pre, v.post);
        if v.k == 0 && (a.nsol != 1 || a.nsol_u != 1 || a.last_t.to_bits() != p.t0.to_bits() || !same(&a.last_u, &p.u0)) {
            c.fail(format!("before the first step: {} times, {} states, first point {:?} {:?}", a.nsol, a.nsol_u, a.last_t, a.last_u));
            return;
        }
        if b.nsol != b.nsol_u {
            c.fail(format!("step {}: {} times but {} states recorded", v.k, b.nsol, b.nsol_u));
            return;
        }
        let acc = b.st.accepts - a.st.accepts;
        c.add("rejections", (b.st.rejects - a.st.rejects) as u64);
        if b.nsol != a.nsol + acc || acc > 1 {
            c.fail(format!("step {}: {} entries added for {} accepted steps", v.k, b.nsol - a.nsol, acc));
            return;
        }
        if v.returned.is_some() && acc != 1 {
            c.fail(format!("step {} returned {:?} without accepting a step", v.k, v.returned));
            return;
        }
        if acc == 0 {
            c.add("failed_steps", 1);
            if b.t.to_bits() != a.t.to_bits() || !same(&b.u, &a.u) && s.cb.is_none() {
                c.fail(format!("step {} failed but moved the state from {:?} at {:?} to {:?} at {:?}", v.k, a.u, a.t, b.u, b.t));
            }
            return;
        }
        c.add("accepted", 1);
        ts.push(b.last_t);
        us.push(b.last_u.clone());
        let adv = (b.last_t - a.last_t) * dir;
        if !(adv > 0.0) {
            // the only legitimate zero advance is an end point already reached up to rounding
            c.fail(format!("step {}: recorded time went from {:?} to {:?}", v.k, a.last_t, b.last_t));
            return;
        }
        if (b.last_t - p.tf) * dir > 4.0 * f64::EPSILON * tm {
            c.fail(format!("step {}: recorded time {:?} passes the final time {:?}", v.k, b.last_t, p.tf));
            return;
        }
        if b.t.to_bits() != b.last_t.to_bits() {
            c.fail(format!("step {}: current time {:?}, newest recorded time {:?}", v.k, b.t, b.last_t));
            return;
        }
        if s.cb.is_none() && !same(&b.u, &b.last_u) {
            c.fail(format!("step {}: current state {:?}, newest recorded state {:?}", v.k, b.u, b.last_u));
            return;
        }
        if b.tprev.to_bits() != a.t.to_bits() {
            c.fail(format!("step {}: tprev {:?}, the step started at {:?}", v.k, b.tprev, a.t));
            return;
        }
        if !same(&b.uprev, &a.u) {
            c.fail(format!("step {}: uprev {:?}, the step started from {:?}", v.k, b.uprev, a.u));
            return;
        }
        if !((b.dtprev - (b.last_t - a.t)).abs() <= 4.0 * f64::EPSILON * tm) {
            c.fail(format!("step {}: dtprev {:?}, the step advanced by {:?}", v.k, b.dtprev, b.last_t - a.t));
            return;
        }
        if let Some(q) = v.returned {
            if q != b.st.steps {
                c.fail(format!("step {} returned {}, step count is {}", v.k, q, b.st.steps));
            }
        }
    });
    if crashed(c, &o) {
        return;
    }
    let ok = |it: &[(f64, Vec<f64>)]| it.len() == ts.len() && (0..ts.len()).all(|k| it[k].0.to_bits() == ts[k].to_bits() && same(&it[k].1, &us[k]));
    if c.violations.is_empty() {
        if o.ts.len() != ts.len() || !(0..ts.len()).all(|k| o.ts[k].to_bits() == ts[k].to_bits() && same(&o.us[k], &us[k])) {
            c.fail("entries recorded earlier were changed later");
        } else if !ok(&o.sol_items) || !ok(&o.sol_items_ref) {
            c.fail("iterating over the solution does not yield its entries in order");
        }
        c.add("read_back", 1);
    }
    c.add("backward", (p.tf < p.t0) as u64);
    c.add("wide", (p.n >= 10) as u64);
    c.add("long", (o.ts.len() > 400) as u64);
    c.nontrivial = ts.len() > 3;
}

/// Largest distance of an evaluation time from the start of the step (the attempted step sizes,
/// in order, consecutive repetitions removed).
fn attempts(v: &StepView) -> Vec<f64> {
    let mut hs: Vec<f64> = vec![];
    let rhs: Vec<f64> = v.evs.iter().filter(|e| e.kind == EvKind::Rhs).map(|e| e.t - v.pre.t).collect();
    // an attempt ends where the evaluation time is largest before it drops
    for k in 0..rhs.len() {
        let next_lower = k + 1 == rhs.len() || rhs[k + 1].abs() < rhs[k].abs();
        if rhs[k] != 0.0 && next_lower && hs.last() != Some(&rhs[k]) {
            hs.push(rhs[k]);
        }
    }
    hs
}

fn c08(c: &mut Case) {
    let mut s = gen_setup(c, 0.1, (5, 150), false);
    s.use_jac = true;
    if c.rng.chance(0.15) {
        s.cb = Some(gen_cb(&mut c.rng, s.prob.n, &s.prob.u0, 0.7));
    }
    if let (true, Some(h)) = (c.rng.chance(0.3), s.opt.dtstart) {
        // only the size counts
        s.opt.dtstart = Some(-h);
        c.add("negative_dtstart", 1);
    }
    c.desc = s.desc();
    let p = s.prob.clone();
    let dp = s.alg == Alg::Dp5;
    let e = s.opt.eff(s.alg);
    let dir = (p.tf - p.t0).signum();
    let span = (p.tf - p.t0).abs();
    let tm = p.t0.abs().max(p.tf.abs());
    let te = 8.0 * f64::EPSILON * tm;
    let stretch = if dp { 1.01 } else { (1.0 / e.quot1).max(1.0001) };
    let (grow, shrink) = if dp { (e.facr, e.facl) } else { (1.0 / e.facr, 1.0 / e.facl) };
    let mut nacc = 0;
    let o = run_visit(&s, &Mode::Steps, &mut |v: &StepView| {
        if !c.violations.is_empty() {
            return;
        }
        let (a, b) = (v.pre, v.post);
        for ev in v.evs {
            if ev.kind == EvKind::Cb {
                continue;
            }
            let x = (ev.t - p.t0) * dir;
            if !(x >= -te && x <= span + te) {
                c.fail(format!("step {}: user function evaluated at {:?}, outside ({:?}, {:?})", v.k, ev.t, p.t0, p.tf));
                return;
            }
        }
        let hs = attempts(v);
        let Some(&h0) = hs.first() else { return };
        if h0 * dir <= 0.0 {
            c.fail(format!("step {}: attempted step {:e} against the direction of integration", v.k, h0));
            return;
        }
        if v.k == 0 {
            let want = e.dtstart.abs().min(e.dtmax);
            let ends = (h0.abs() - span).abs() <= 2.0 * te;
            let exact = (h0.abs() - want).abs() <= 2.0 * te + 1e-13 * want;
            if !(if ends { span <= stretch.min(1.02) * want + te || exact } else { exact && want <= span + te }) {
                c.fail(format!("first attempted step {:e}, requested {:e} (maximum {:e}, span {:e})", h0, e.dtstart, e.dtmax, span));
                return;
            }
            c.add("first_attempts", 1);
        }
        let nretry = hs.len() - 1;
        for k in 0..nretry {
            let q = hs[k + 1] / hs[k];
            if hs[k].abs() < 1e4 * te {
                continue;
            }
            c.add("retries", 1);
            if !(q < 1.0) {
                c.fail(format!("step {}: retry grows the step from {:e} to {:e}", v.k, hs[k], hs[k + 1]));
                return;
            }
            // Radau: a first step is cut to a tenth, a Newton failure at most to 0.8 * 20^(-1/3)
            let least = if dp {
                e.facl
            } else if nacc == 0 {
                0.1f64.min(1.0 / e.facl)
            } else {
                (1.0 / e.facl).min(0.25)
            };
            // attempted steps are known only through the evaluation times
            let slack = 1e-9 + te / hs[k + 1].abs() + te / hs[k].abs();
            if !(q >= least * (1.0 - slack)) {
                c.fail(format!("step {}: retry shrinks the step from {:e} to {:e}, more than the allowed factor {:e}", v.k, hs[k], hs[k + 1], least));
                return;
            }
        }
        if b.nsol == a.nsol {
            return;
        }
        nacc += 1;
        let h = b.dtprev;
        let at_end = (b.last_t - p.tf).abs() <= te;
        // a step stretched to the end of the span may be retried
        let from_end = (h0 - (p.tf - a.t)).abs() <= 2.0 * te;
        let lim = e.dtmax * if at_end || from_end && nretry > 0 { stretch } else { 1.0 };
        if !(h.abs() <= lim * (1.0 + 1e-12) + te) {
            c.fail(format!("step {}: accepted step {:e} exceeds the maximum {:e}", v.k, h, e.dtmax));
            return;
        }
        if h.abs() > 0.999 * e.dtmax {
            c.add("dtmax_active", 1);
        }
        if at_end {
            c.add("ended", 1);
            return;
        }
        if b.ret != Ret::Continue && b.ret != Ret::MaxIters {
            return;
        }
        // proposal for the next step
        let q = b.dt / h;
        let to_end = (b.dt - (p.tf - b.t)).abs() <= te;
        let qmax = grow * if to_end { stretch } else { 1.0 };
        if !(q <= qmax * (1.0 + 1e-12)) || q <= 0.0 {
            c.fail(format!("step {}: proposal {:e} after step {:e}: grows by {:e}, allowed {:e}", v.k, b.dt, h, q, qmax));
            return;
        }
        let cut = (b.dt.abs() - e.dtmax).abs() <= 1e-12 * e.dtmax || to_end;
        if !cut && !(q >= shrink * (1.0 - 1e-12)) {
            c.fail(format!("step {}: proposal {:e} after step {:e}: shrinks by {:e}, allowed {:e}", v.k, b.dt, h, q, shrink));
            return;
        }
        if q > 0.98 * grow {
            c.add("growth_limited", 1);
        }
        if nretry > 0 && hs[0].abs() > 1e4 * te {
            c.add("after_reject", 1);
            let lim = if to_end { stretch } else { 1.0 };
            if !(q <= lim * (1.0 + 1e-12)) {
                c.fail(format!("step {}: grows by {:e} right after a rejection", v.k, q));
                return;
            }
        }
    });
    if crashed(c, &o) {
        return;
    }
    c.add("backward", (p.tf < p.t0) as u64);
    c.add("wide", (p.n >= 10) as u64);
    c.add("long", (o.ts.len() > 400) as u64);
    c.nontrivial = nacc >= 3;
}

fn all_finite(c: &mut Case, o: &Outcome) {
    for k in 0..o.ts.len() {
        if !o.ts[k].is_finite() || o.us[k].iter().any(|x| !x.is_finite()) {
            c.fail(format!("recorded point {} is {:?} at {:?}", k, o.us[k], o.ts[k]));
            return;
        }
    }
    let f: &Snap = o.fin.as_ref().unwrap();
    if !f.t.is_finite() || f.u.iter().any(|x| !x.is_finite()) {
        c.fail(format!("final state {:?} at {:?}", f.u, f.t));
    }
}

fn c09(c: &mut Case) {
    if c.rng.chance(0.4) {
        // (a) model undefined beyond a boundary
        let mut s = gen_setup(c, 1.0, (20, 400), false);
        s.log = false;
        c.desc = s.desc();
        if c.verbose {
            let mut s2 = s.clone();
            s2.log = true;
            run_visit(&s2, &Mode::Steps, &mut |v| {
                println!("{:?} {:?} dt {:?} {:?}", v.post.t, v.post.u, v.post.dt, v.post.st);
                for e in v.evs {
                    println!("      {:?} {:?} {:?} -> {:?}", e.kind, e.t, e.u, e.out);
                }
            });
        }
        let o = run(&s, &Mode::Integrate);
        if crashed(c, &o) {
            return;
        }
        all_finite(c, &o);
        let f = o.fin.as_ref().unwrap();
        let wall = s.prob.fails_at.unwrap();
        if !s.prob.name.contains("blowup") {
            // the implicit solver need not evaluate the model at the end of its last step
            let dir = (s.prob.tf - s.prob.t0).signum();
            let unseen = s.alg == Alg::Radau
                && s.prob.name.contains("domain")
                && o.ts.len() >= 2
                && (o.ts[o.ts.len() - 2] - wall) * dir <= 0.02 * (s.prob.tf - s.prob.t0).abs();
            if f.ret == Ret::Success && !unseen {
                c.fail(format!("Success at t={:?} although the model is undefined beyond {:?}", f.t, wall));
            }
            c.add("boundary_runs", 1);
            // the exact position of a boundary in the state is only reached up to the tolerance
            if s.prob.name.contains("time_wall") {
                let dir = (s.prob.tf - s.prob.t0).signum();
                let past = (f.t - wall) * dir;
                if s.alg == Alg::Dp5 && past > 64.0 * f64::EPSILON * s.prob.t0.abs().max(s.prob.tf.abs()) {
                    c.fail(format!("accepted a step ending at {:?}, beyond {:?} where the model is undefined", f.t, wall));
                }
            }
        } else {
            c.add("blowup_runs", 1);
        }
        c.nontrivial = true;
        return;
    }
    // (b) one non-finite value at one evaluation inside a step attempt
    let r = &mut c.rng;
    let a = alg(r);
    let kind = if a == Alg::Dp5 || r.chance(0.5) { Kind::Exact } else { Kind::ExactStiff };
    let p = gen(r, &GenCfg { kind, nmax: 4, tmax: 10.0, scales: true });
    let span = (p.tf - p.t0).abs();
    let mut opt = gen_opt(r, a, span, OptCfg { rtol_min: 1e-8, rtol_max: 1e-4, control: true, dtmax: true, dtstart: false });
    if opt.reltol.is_none() {
        opt.reltol = Some(1e-5);
        opt.abstol = Some(1e-7);
    }
    opt.use_ext_col = None;
    // the run without faults must succeed
    opt.max_newt_iter = opt.max_newt_iter.map(|x| x.max(4));
    resolve(&p, &mut opt);
    let mut s = Setup::new(p, opt, a);
    s.use_jac = true;
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    // where do the evaluations of an unfaulted run lie?
    let mut cand: Vec<(u64, usize)> = vec![];
    let mut base = 0u64;
    let o0 = run_visit(&s, &Mode::Steps, &mut |v: &StepView| {
        let mut k = base;
        let mut stage = 0usize;
        for e in v.evs {
            if e.kind != EvKind::Rhs {
                continue;
            }
            let after = e.t == v.post.last_t && e.u == v.post.last_u && k + 1 == v.rhs_calls;
            if a == Alg::Dp5 || !after {
                cand.push((k, stage % 6));
            }
            stage += 1;
            k += 1;
        }
        base = v.rhs_calls;
    });
    if !ended_well(c, &s, &o0) {
        return;
    }
    if cand.is_empty() {
        c.inconclusive = Some("no evaluation inside a step attempt".into());
        return;
    }
    let nf = if c.rng.chance(0.7) { 1 } else { c.rng.int(2, 4) };
    let mut hit_stages = vec![];
    for _ in 0..nf {
        let (at, stage) = if c.rng.chance(0.3) { cand[c.rng.below(cand.len().min(14))] } else { *c.rng.pick(&cand) };
        let val = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        c.add(if val.is_nan() { "nan" } else { "inf" }, 1);
        s.faults.push(Fault { at, comp: c.rng.below(s.prob.n), val });
        hit_stages.push(stage);
    }
    if a == Alg::Radau && nf > 1 {
        // a later fault shifts the evaluations behind it: keep the first only
        let m = s.faults.iter().map(|f| f.at).min().unwrap();
        s.faults.retain(|f| f.at == m);
    }
    c.desc = s.desc();
    let o = run(&s, &Mode::Integrate);
    if crashed(c, &o) {
        return;
    }
    all_finite(c, &o);
    if o.faults_hit == 0 {
        c.inconclusive = Some("fault not reached".into());
        return;
    }
    if !ended_well(c, &s, &o) {
        return;
    }
    let (rt, at) = if a == Alg::Dp5 {
        let e = s.opt.eff(a);
        (e.reltol, e.abstol)
    } else {
        s.opt.radau_tol()
    };
    let b = if s.prob.linear || s.prob.stiffness <= 100.0 || a == Alg::Dp5 {
        AccBound { local: 5000.0, local90: 200.0, global: 1000.0, names: ["local", "local90", "global"] }
    } else {
        AccBound { local: 1e5, local90: 500.0, global: 1e4, names: ["stiff_local", "stiff_local90", "stiff_global"] }
    };
    accuracy(c, &s, &o, rt, at, &b);
    c.add("transient_runs", 1);
    for st in hit_stages {
        c.add(["fault_stage_0", "fault_stage_1", "fault_stage_2", "fault_stage_3", "fault_stage_4", "fault_stage_5"][st], 1);
    }
    c.nontrivial = true;
}

fn c10(c: &mut Case) {
    if marathon_due(c, 12000) {
        return marathon(c);
    }
    let mut s = gen_setup(c, 0.1, (5, 150), true);
    if s.alg == Alg::Radau && c.rng.chance(0.05) {
        // a step size is held up to and including these ratios: at its maximum it is exactly one
        let (a, b) = (c.rng.chance(0.5), c.rng.chance(0.5));
        s.opt.quot1 = Some(if a { 1.0 } else { c.rng.range(0.5, 1.0) });
        s.opt.quot2 = Some(if b { 1.0 } else { c.rng.range(1.0, 2.0) });
        s.opt.dtmax = Some((s.prob.tf - s.prob.t0).abs() * c.rng.log(1e-3, 0.1));
    }
    if c.rng.chance(0.25) {
        s.cb = Some(gen_cb(&mut c.rng, s.prob.n, &s.prob.u0, 0.6));
        c.add("with_callback", 1);
    }
    c.desc = s.desc();
    let dp = s.alg == Alg::Dp5;
    let n = s.prob.n as u64;
    let konst = s.use_jac && s.prob.smooth && {
        let m = s.prob.n * s.prob.n;
        let (mut a, mut b) = (vec![0.0; m], vec![0.0; m]);
        let u2: Vec<f64> = s.prob.u0.iter().map(|x| 1.3 * x + 0.1).collect();
        (s.prob.jac)(s.prob.t0 + 0.37 * (s.prob.tf - s.prob.t0), &u2, &mut a);
        (s.prob.jac)(s.prob.t0, &s.prob.u0, &mut b);
        a == b
    };
    let has_cb = s.cb.is_some();
    // attempts made before the first acceptance are not counted as rejected
    let mut uncounted: Option<u64> = None;
    let mut per_jac: Option<u64> = None;
    // whether the step before ended by renewing the Jacobian
    let mut renewed = true;
    let o = run_visit(&s, &Mode::Steps, &mut |v: &StepView| {
        if !c.violations.is_empty() {
            return;
        }
        let (a, b) = (&v.pre.st, &v.post.st);
        c.add("snapshots", 1);
        for (x, y, w) in [
            (a.steps, b.steps, "steps"),
            (a.fevals, b.fevals, "function_evals"),
            (a.jevals, b.jevals, "jacobian_evals"),
            (a.decs, b.decs, "decompositions"),
            (a.solves, b.solves, "linear_solves"),
            (a.accepts, b.accepts, "accepts"),
            (a.rejects, b.rejects, "rejects"),
        ] {
            if y < x {
                c.fail(format!("step {}: {} went from {} to {}", v.k, w, x, y));
                return;
            }
        }
        if v.k == 0 && (a.steps | a.fevals | a.jevals | a.decs | a.solves | a.accepts | a.rejects) != 0 {
            c.fail(format!("statistics not zero after building: {:?}", a));
            return;
        }
        if b.accepts + 1 != v.post.nsol {
            c.fail(format!("step {}: {} accepted steps, {} recorded", v.k, b.accepts, v.post.nsol - 1));
            return;
        }
        let fe = b.fevals as u64;
        let cbe = if has_cb { v.k + 1 } else { 0 };
        if dp || s.use_jac {
            if fe != v.rhs_calls {
                c.fail(format!("step {}: function_evals {} but {} calls were made", v.k, fe, v.rhs_calls));
                return;
            }
        } else {
            let extra = v.rhs_calls as i64 - fe as i64;
            let j = b.jevals as i64;
            let good = if j == 0 { extra == 0 } else { extra > 0 && extra % j == 0 && [n as i64, n as i64 + 1, 2 * n as i64].contains(&(extra / j)) };
            if !good || per_jac.map_or(false, |p| j > 0 && p != (extra / j) as u64) {
                c.fail(format!("step {}: function_evals {}, {} calls made, {} Jacobians of {} components", v.k, fe, v.rhs_calls, j, n));
                return;
            }
            if j > 0 {
                per_jac = Some((extra / j) as u64);
                c.add("fd_jacobians", 1);
            }
        }
        if (dp || s.use_jac) && b.jevals as u64 != v.jac_calls {
            c.fail(format!("step {}: jacobian_evals {} but {} Jacobians were evaluated", v.k, b.jevals, v.jac_calls));
            return;
        }
        if !dp && s.use_jac && v.jac_calls > 0 {
            c.add("user_jacobians", 1);
        }
        if uncounted.is_none() && b.accepts > 0 {
            uncounted = Some(if dp { (fe - cbe) / 6 - 1 } else { b.steps as u64 - 1 });
        }
        c.add("rejections", (b.rejects - a.rejects) as u64);
        if dp {
            if (fe - cbe) % 6 != 0 {
                c.fail(format!("step {}: {} evaluations are not six per attempt", v.k, fe - cbe));
                return;
            }
            if b.steps != b.accepts {
                c.fail(format!("step {}: steps {} but {} accepted", v.k, b.steps, b.accepts));
                return;
            }
            let att = (fe - cbe) / 6;
            let rej = match uncounted {
                Some(x) => att - x - b.accepts as u64,
                None => 0,
            };
            if b.rejects as u64 != rej {
                c.fail(format!("step {}: rejects {} but {} attempts were rejected after the first acceptance", v.k, b.rejects, rej));
                return;
            }
            if b.jevals + b.decs + b.solves != 0 {
                c.fail(format!("step {}: explicit solver reports implicit work: {:?}", v.k, b));
            }
        } else {
            let lo = 3 * b.solves as u64 + cbe;
            let hi = lo + b.accepts as u64 + b.steps as u64;
            if fe < lo || fe > hi {
                c.fail(format!("step {}: {} evaluations for {} linear solves, {} attempts", v.k, fe, b.solves, b.steps));
                return;
            }
            // Newton sweeps seen: evaluations at the first abscissa of some step size
            if b.steps < b.accepts + b.rejects || b.solves < b.accepts || b.decs > b.steps + 1 || b.decs == 0 && v.post.ret != Ret::SingularMatrix {
                c.fail(format!("step {}: inconsistent statistics {:?}", v.k, b));
                return;
            }
            if s.use_jac {
                let kinds: Vec<EvKind> = v.evs.iter().map(|x| x.kind).filter(|k| *k != EvKind::Cb).collect();
                let q = s.opt.eff(s.alg);
                renewed |= has_cb && kinds.len() >= 2 && kinds[1] == EvKind::Jac;
                let to_end = (v.pre.t + 1.0001 * v.pre.dt - v.pre.tfinal) * (v.pre.tfinal - v.pre.t).signum() >= 0.0;
                let reuse = !renewed && !to_end && v.pre.dt.to_bits() == v.pre.dtprev.to_bits() && q.quot1 <= 1.0 && q.quot2 >= 1.0;
                let (d, w) = (b.decs - a.decs, (b.steps - a.steps).saturating_sub(reuse as usize));
                // with the budget used up, the next attempt is prepared but not made
                let spare = (v.post.ret == Ret::MaxIters) as usize;
                if d < w || d > w + spare {
                    c.fail(format!("step {}: {} attempts but {} decompositions (step size {:?} after {:?}, Jacobian renewed: {})", v.k, b.steps - a.steps, d, v.pre.dt, v.pre.dtprev, renewed));
                    return;
                }
                c.add("decompositions_reused", reuse as u64);
                renewed = kinds.last() == Some(&EvKind::Jac);
            }
            c.add("singular", (v.post.ret == Ret::SingularMatrix) as u64);
            if konst && s.opt.eff(s.alg).max_newt_iter >= 4 && !has_cb && v.post.ret != Ret::DtLessThanMin && v.post.ret != Ret::SingularMatrix {
                if let Some(x) = uncounted {
                    let rej = b.steps as u64 - x - b.accepts as u64;
                    if b.rejects as u64 != rej {
                        c.fail(format!("step {}: rejects {} but {} of {} attempts were rejected after the first acceptance", v.k, b.rejects, rej, b.steps));
                        return;
                    }
                    c.add("radau_rejects_exact", 1);
                }
            }
        }
    });
    if crashed(c, &o) {
        return;
    }
    c.nontrivial = o.ts.len() > 3;
}

fn c19(c: &mut Case) {
    if marathon_due(c, 3000) {
        return marathon(c);
    }
    let mut s = gen_setup(c, 0.1, (5, 5), true);
    s.opt.max_steps = None;
    s.log = false;
    if c.rng.chance(0.15) {
        s.cb = Some(gen_cb(&mut c.rng, s.prob.n, &s.prob.u0, 0.6));
    }
    s.budget = 60_000;
    c.desc = s.desc();
    let o = run(&s, &Mode::Integrate);
    if let Some(m) = &o.panic {
        c.fail(format!("panicked: {}", m));
        return;
    }
    if o.over_budget {
        c.inconclusive = Some("unlimited run too long for this check".into());
        return;
    }
    let f = o.fin.clone().unwrap();
    let need = f.st.steps;
    c.add("rejections", f.st.rejects as u64);
    if need < 2 {
        return;
    }
    let ok = f.ret == Ret::Success;
    let mut ms = vec![need, need + 1, need - 1];
    for _ in 0..3 {
        ms.push(c.rng.int(1, need + 2));
    }
    ms.push(1);
    s.budget = 200_000;
    for m in ms {
        if m == 0 {
            continue;
        }
        s.opt.max_steps = Some(m);
        let q = run(&s, &Mode::Integrate);
        if crashed(c, &q) {
            return;
        }
        let g = q.fin.as_ref().unwrap();
        c.add("budgets", 1);
        let np = q.ts.len();
        let prefix = np <= o.ts.len() && (0..np).all(|k| q.ts[k].to_bits() == o.ts[k].to_bits() && same(&q.us[k], &o.us[k]));
        if !prefix {
            c.fail(format!("budget {} (unlimited needs {}): recorded solution is not a prefix of the unlimited one", m, need));
            return;
        }
        if g.st.steps > m {
            c.fail(format!("budget {}: took {} steps", m, g.st.steps));
            return;
        }
        if m >= need {
            // a run that failed on its own keeps its own reason only if it did not need the budget's last step
            if ok && (g.ret != Ret::Success || np != o.ts.len() || g.st != f.st) || !ok && m > need && (g.ret != f.ret || np != o.ts.len()) {
                c.fail(format!("budget {} although {} suffice: {:?} with {} points, unlimited {:?} with {}", m, need, g.ret, np, f.ret, o.ts.len()));
                return;
            }
            if m == need {
                c.add("exact_budget", 1);
            }
        } else {
            if g.ret != Ret::MaxIters {
                c.fail(format!("budget {} below the {} needed: ended with {:?}", m, need, g.ret));
                return;
            }
            if g.st.steps != m {
                c.fail(format!("budget {}: stopped after {} steps", m, g.st.steps));
                return;
            }
            c.add(if m + 1 == need { "one_less" } else { "truncated" }, 1);
        }
    }
    c.nontrivial = need >= 3;
}
