//! C25: settings changed while the integration is running.

use super::life::crashed;
use super::radau::{lockstep, What};
use super::step::{any_prob, c03_on, c04_on, c21_on};
use crate::fw::{Case, Spec};
use crate::opts::{gen_budget, gen_opt, vary_theta, widen_opt, Eff, Opt, OptCfg};
use crate::rng::Rng;
use crate::run::{run, run_visit, Alg, CbAct, EvKind, Mode, Ret, Setup, StepView};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C25",
        level: "exploration",
        rule: "random problems x random options x one to four points of the run at which a callback, or the caller between two steps, changes step size, final time and random subsets of the options; non-trivial: at least 3 steps under changed settings recomputed with the settings in force (explicit: also a restarted run compared bit by bit)",
        quick: 60000,
        thorough: 900000,
        case: c25,
        require: &["changes", "by_callback", "between_steps", "sizes_checked", "budget_changes", "tolerance_changes", "restarts_compared", "success_moved_end", "max_iters", "proposals_checked", "collocation_checked", "backward", "dp5", "radau"],
        assumptions: &[],
    }]
}

fn gen_change(r: &mut Rng, a: Alg, span: f64, budget: &mut usize) -> Opt {
    let mut o = Opt::default();
    if r.chance(0.4) {
        let rt = r.log(1e-9, 1e-2);
        let rt = if a == Alg::Radau { 0.1 * rt.powf(2.0 / 3.0) } else { rt };
        o.reltol = Some(rt);
        if r.chance(0.7) {
            o.abstol = Some(rt * r.log(1e-3, 3.0));
        }
    }
    if r.chance(0.25) {
        o.dtmax = Some(span / r.log(0.5, 60.0));
    }
    if r.chance(0.2) {
        *budget = r.int(2, 150);
        o.max_steps = Some(*budget);
    }
    if r.chance(0.3) {
        let mut g = gen_opt(r, a, span, OptCfg { rtol_min: 1e-9, rtol_max: 1e-2, control: true, dtmax: false, dtstart: false });
        widen_opt(r, a, &mut g);
        vary_theta(r, a, &mut g);
        o.theta = g.theta;
        o.safe = g.safe;
        o.facl = g.facl;
        o.facr = g.facr;
        o.beta = g.beta;
        o.max_stiff = g.max_stiff;
        o.quot1 = g.quot1;
        o.quot2 = g.quot2;
        // off only: the predictive controller has no history of the steps before it was switched on
        o.modern_pred = g.modern_pred.filter(|x| !x);
        o.use_ext_col = g.use_ext_col;
        o.max_newt_iter = g.max_newt_iter;
        if a == Alg::Radau && r.chance(0.3) {
            o.fnewt = Some(r.log(1e-6, 3e-2));
        }
    }
    o
}

fn explicit(e: &Eff) -> Opt {
    Opt {
        reltol: Some(e.reltol),
        abstol: Some(e.abstol),
        dense: Some(e.dense),
        dtmax: Some(e.dtmax),
        max_steps: Some(e.max_steps),
        max_stiff: Some(e.max_stiff),
        safe: Some(e.safe),
        facr: Some(e.facr),
        facl: Some(e.facl),
        beta: Some(e.beta),
        ..Opt::default()
    }
}

fn c25(c: &mut Case) {
    let r = &mut c.rng;
    let a = if r.chance(0.5) { Alg::Dp5 } else { Alg::Radau };
    let p = any_prob(r, true);
    let span = (p.tf - p.t0).abs();
    let mut opt = gen_opt(r, a, span, OptCfg { rtol_min: 1e-9, rtol_max: 1e-2, control: true, dtmax: true, dtstart: true });
    let mut budget = gen_budget(r, &mut opt, span, 20, 120);
    let mut s = Setup::new(p, opt, a);
    s.gain = if r.chance(0.2) { r.range(0.5, 1.5) } else { 1.0 };
    let mut at = 1;
    let mut acts = vec![];
    for _ in 0..r.int(1, 4) {
        at += r.int(1, 10);
        if r.chance(0.7) {
            let o = gen_change(r, a, span, &mut budget);
            acts.push((at, CbAct::SetOpts(o)));
        }
        if r.chance(0.35) {
            // shorter, longer, or as before with the interval left unchanged by rounding
            acts.push((at, CbAct::ScaleRest(if r.chance(0.5) { r.log(0.02, 1.0) } else { r.range(1.0, 3.0) })));
        }
        if r.chance(0.6) {
            acts.push((at, CbAct::ScaleDt(match r.below(10) {
                0..=5 => r.log(0.03, 1.0),
                6 => 1.0 + r.sign() * r.log(1e-7, 1e-2),
                _ => r.range(1.0, 4.0),
            })));
        }
    }
    let restart = a == Alg::Dp5 && r.chance(0.5);
    if restart {
        // the controller's memory of the last error is not part of the settings
        if !matches!(acts.last(), Some((k, CbAct::ScaleDt(_))) if *k == at) {
            acts.push((at, CbAct::ScaleDt(r.range(0.1, 1.5))));
        }
        let i = acts.iter().position(|x| x.0 == at).unwrap();
        acts.insert(i, (at, CbAct::SetOpts(Opt { beta: Some(0.0), ..Opt::default() })));
        for x in acts[i + 1..].iter_mut() {
            if let CbAct::SetOpts(o) = &mut x.1 {
                o.beta = None;
            }
        }
    }
    let by_cb = r.chance(0.5);
    if by_cb {
        s.cb = Some(acts.clone());
    } else {
        s.between = acts.clone();
        if r.chance(0.3) {
            s.cb = Some(vec![]);
        }
    }
    c.desc = s.desc();
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    let Some(last) = follow(c, &s, &acts) else {
        return;
    };
    c.add(if by_cb { "by_callback" } else { "between_steps" }, 1);
    // the steps and proposals, recomputed with the settings in force
    let before = last.after;
    if a == Alg::Dp5 {
        c03_on(c, &s);
        if c.violations.is_empty() {
            c21_on(c, &s);
        }
    } else {
        c04_on(c, &s);
        if c.violations.is_empty() {
            lockstep(c, &s, What::Control);
        }
        if c.violations.is_empty() {
            lockstep(c, &s, What::Newton);
        }
    }
    if restart && c.violations.is_empty() {
        compare_restart(c, &s, at, &last);
    }
    c.nontrivial = before >= 3;
}

struct Followed {
    /// Accepted steps after the first change.
    after: u64,
    ts: Vec<f64>,
    us: Vec<Vec<f64>>,
    ret: Ret,
    /// Step size, final time and number of points after the last change.
    dt: f64,
    tf: f64,
}

/// Sizes of the first attempts, end of the run, budget.
fn follow(c: &mut Case, s: &Setup, acts: &[(usize, CbAct)]) -> Option<Followed> {
    let lastat = acts.iter().map(|x| x.0).max().unwrap_or(0);
    let firstat = acts.iter().map(|x| x.0).min().unwrap_or(usize::MAX);
    let mut after = 0u64;
    let (mut dt, mut tf) = (f64::NAN, f64::NAN);
    let mut want_tf = s.prob.tf;
    let dir = if s.prob.tf >= s.prob.t0 { 1.0 } else { -1.0 };
    let mut ret = Ret::Continue;
    let o = run_visit(s, &Mode::Steps, &mut |v: &StepView| {
        if !c.violations.is_empty() {
            return;
        }
        let e = s.eff_at(v.pre.nsol);
        let acc = v.post.nsol == v.pre.nsol + 1;
        // the final time in force is the one that was set
        if v.pre.tfinal.to_bits() != want_tf.to_bits() {
            c.fail(format!("step {}: the final time is {:?}, it was set to {:?}", v.k, v.pre.tfinal, want_tf));
            return;
        }
        if v.pre.nsol == lastat {
            dt = v.pre.dt;
            tf = v.pre.tfinal;
        }
        let dh = 2.0 * f64::EPSILON * (v.pre.t.abs() + v.post.t.abs() + want_tf.abs());
        let rest = want_tf - v.pre.t;
        if v.pre.nsol >= firstat {
            // the first attempt has the step size set, or goes to the end
            let mut evs = v.evs.iter().filter(|x| x.kind == EvKind::Rhs).peekable();
            if s.cb.is_some() {
                evs.next();
            }
            let k = if s.alg == Alg::Dp5 { 6 } else { 3 };
            let h0 = evs.take(k).map(|x| x.t - v.pre.t).fold(0.0f64, |a, b| if b.abs() > a.abs() { b } else { a });
            if h0 != 0.0 {
                let stretch = if s.alg == Alg::Dp5 { 1.0101 } else { 1.00011 };
                let plain = (h0 - v.pre.dt).abs() <= 2.0 * dh + 1e-13 * h0.abs();
                let ends = (h0 - rest).abs() <= 2.0 * dh && rest.abs() <= stretch * v.pre.dt.abs() + 2.0 * dh;
                let halved = s.alg == Alg::Radau && v.evs.iter().take_while(|x| x.t == v.pre.t).any(|x| x.kind == EvKind::Jac);
                if !plain && !ends && !halved {
                    c.fail(format!("step {}: first attempt of size {:e}, the step size was {:e} with {:e} left", v.k, h0, v.pre.dt, rest));
                    return;
                }
                if plain && (h0 - rest) * dir > 2.0 * dh {
                    c.fail(format!("step {}: attempt of size {:e} passes the final time ({:e} left)", v.k, h0, rest));
                    return;
                }
                c.add("sizes_checked", 1);
            }
            after += acc as u64;
        }
        if acc && (v.post.last_t - want_tf) * dir > dh {
            c.fail(format!("step {}: recorded {:?} beyond the final time {:?}", v.k, v.post.last_t, want_tf));
            return;
        }
        // the end of the run
        let there = (v.post.t - want_tf).abs() <= dh;
        let (a, b) = (v.pre.st.steps, v.post.st.steps);
        match v.post.ret {
            Ret::Success => {
                if !there {
                    c.fail(format!("step {}: Success at {:?}, the final time is {:?}", v.k, v.post.t, want_tf));
                    return;
                }
                if want_tf != s.prob.tf {
                    c.add("success_moved_end", 1);
                }
            }
            Ret::MaxIters => {
                let used = if s.alg == Alg::Dp5 { a.max(b) } else { b };
                if used < e.max_steps {
                    c.fail(format!("step {}: MaxIters after {} of {} steps", v.k, used, e.max_steps));
                    return;
                }
                c.add("max_iters", 1);
            }
            Ret::Continue => {
                if there {
                    c.fail(format!("step {}: at the final time {:?} without Success", v.k, want_tf));
                    return;
                }
                if s.alg == Alg::Dp5 && b >= e.max_steps {
                    c.fail(format!("step {}: goes on after {} of {} steps", v.k, b, e.max_steps));
                    return;
                }
            }
            _ => {}
        }
        if b > e.max_steps.max(a + (s.alg == Alg::Dp5) as usize) {
            c.fail(format!("step {}: {} steps, at most {} allowed", v.k, b, e.max_steps));
            return;
        }
        ret = v.post.ret;
        // what the actions leave behind
        for (k, x) in acts {
            if *k != v.post.nsol || !acc {
                continue;
            }
            c.add("changes", 1);
            match x {
                CbAct::ScaleRest(y) => want_tf = v.post.t + y * (want_tf - v.post.t),
                CbAct::SetOpts(o) => {
                    c.add("tolerance_changes", o.reltol.is_some() as u64);
                    c.add("budget_changes", o.max_steps.is_some() as u64);
                }
                _ => {}
            }
        }
    });
    if crashed(c, &o) || !c.violations.is_empty() {
        return None;
    }
    c.add("backward", (dir < 0.0) as u64);
    Some(Followed { after, ts: o.ts, us: o.us, ret, dt, tf })
}

/// From the last change on the run is the one a new integrator with these settings makes.
fn compare_restart(c: &mut Case, s: &Setup, at: usize, l: &Followed) {
    if l.ts.len() <= at || !l.dt.is_finite() || s.prob.fails_at.is_some() {
        return;
    }
    let e = s.eff_at(at);
    if e.max_steps <= at - 1 || !(l.dt.abs() <= e.dtmax) || l.dt == 0.0 || l.tf == l.ts[at - 1] {
        return;
    }
    let mut q = s.clone();
    q.cb = s.cb.as_ref().map(|_| vec![]);
    q.between = vec![];
    q.opt = explicit(&e);
    q.opt.max_steps = Some(e.max_steps - (at - 1));
    q.opt.dtstart = Some(l.dt.abs());
    q.prob.t0 = l.ts[at - 1];
    q.prob.u0 = l.us[at - 1].clone();
    q.prob.tf = l.tf;
    q.log = false;
    let o = run(&q, &Mode::Integrate);
    if crashed(c, &o) {
        return;
    }
    let f = o.fin.as_ref().unwrap();
    let k = (0..o.ts.len().min(l.ts.len() - at + 1)).find(|&k| o.ts[k].to_bits() != l.ts[at - 1 + k].to_bits() || o.us[k].iter().zip(&l.us[at - 1 + k]).any(|(a, b)| a.to_bits() != b.to_bits()));
    if o.ts.len() != l.ts.len() - at + 1 || k.is_some() || f.ret != l.ret {
        c.fail(format!(
            "after the settings changed at point {} the run ends with {:?} after {} more points, a new integrator with these settings with {:?} after {}; first difference {:?}",
            at, l.ret, l.ts.len() - at, f.ret, o.ts.len() - 1, k
        ));
        return;
    }
    c.add("restarts_compared", 1);
}
