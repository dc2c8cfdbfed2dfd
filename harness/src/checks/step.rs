//! C03, C21, C04: every step is recomputed by an independent reference of the method.

use crate::fw::{Case, Spec};
use crate::lin::solve;
use crate::opts::{gen_budget, gen_nmax, gen_opt, vary_theta, widen_opt, OptCfg};
use crate::prob::{gen, GenCfg, Kind};
use crate::refdp5::{attempt, Att, Ctl};
use crate::refradau;
use crate::rng::Rng;
use crate::run::{run_visit, Alg, CbAct, Ev, EvKind, Mode, Ret, Setup, StepView};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C03",
            level: "exploration",
            rule: "random problems (smooth, oscillating, stiff, switching) x random options x callbacks changing state or parameters, explicit solver; non-trivial: at least 3 accepted steps recomputed from the published tableau and compared, acceptance re-decided for every attempt",
            quick: 120000,
            thorough: 1600000,
            case: c03,
            require: &["accepted_checked", "rejected_checked", "after_callback_change", "backward", "multi_component", "wide", "long"],
            assumptions: &["the reference tableau in refdp5.rs is the published Dormand-Prince 5(4) pair"],
        },
        Spec {
            id: "C21",
            level: "exploration",
            rule: "random problems x random controller options, explicit solver; non-trivial: at least 3 proposals after accepted steps recomputed from the controller formula and compared within the interval the rounding of the error estimate allows",
            quick: 120000,
            thorough: 1600000,
            case: c21,
            require: &["proposals_checked", "retries_checked", "limited_by_facr", "limited_by_dtmax", "held_after_reject", "interior", "backward", "wide", "long"],
            assumptions: &["the controller formula stated in the property (Hairer's dopri5)"],
        },
        Spec {
            id: "C04",
            level: "exploration",
            rule: "random problems (stiff and not, linear and not, switching) x random options x supplied or finite-difference Jacobian x callbacks, implicit solver; non-trivial: at least 3 accepted steps for which the final Newton update was recomputed from the logged stage evaluations or the collocation equations were solved independently",
            quick: 96000,
            thorough: 3600000,
            case: c04,
            require: &["newton_updates_checked", "collocation_checked", "estimates_checked", "stops_checked", "carried_stops_checked", "newton_runs_judged", "after_retry", "refiltered", "backward", "multi_component", "fd_jacobian", "wide", "long"],
            assumptions: &["for nonlinear problems the distance to the exact collocation solution is judged only when the iteration measured its own convergence rate (two or more updates)"],
        },
    ]
}

pub fn any_prob(r: &mut Rng, stiff: bool) -> crate::prob::Prob {
    let kind = match r.below(4) {
        0 => Kind::Exact,
        1 if stiff => Kind::ExactStiff,
        2 if stiff => Kind::AnyStiff,
        _ => Kind::Any,
    };
    let nmax = gen_nmax(r);
    gen(r, &GenCfg { kind, nmax, tmax: 20.0, scales: true })
}

/// Random callback actions that change state or parameters now and then.
pub fn gen_cb(r: &mut Rng, n: usize, u0: &[f64], p_change: f64) -> Vec<(usize, CbAct)> {
    let mut v = vec![];
    if r.chance(p_change) {
        for _ in 0..r.int(1, 4) {
            let at = r.int(2, 25);
            v.push((
                at,
                match r.below(4) {
                    3 => CbAct::ScaleOne(r.below(n), r.range(0.8, 1.1)),
                    0 => CbAct::SetU((0..n).map(|i| u0[i] * r.range(0.8, 1.1)).collect()),
                    1 => CbAct::ScaleU(r.range(0.9, 1.05)),
                    _ => CbAct::SetGain(r.range(0.7, 1.2)),
                },
            ));
        }
    }
    v
}

struct Tries<'a> {
    /// Step sizes of the attempts (from the evaluation times), the last one being the accepted one.
    hs: Vec<f64>,
    _e: std::marker::PhantomData<&'a Ev>,
}

/// Split the evaluations of one explicit step into attempts of six. None if they do not fit.
fn split<'a>(v: &StepView<'a>, has_cb: bool) -> Option<Tries<'a>> {
    let mut e: Vec<&Ev> = v.evs.iter().filter(|e| e.kind == EvKind::Rhs).collect();
    if has_cb && e.len() % 6 == 1 && e[0].t == v.pre.t && e[0].u == v.pre.u {
        e.remove(0);
    }
    if e.is_empty() || e.len() % 6 != 0 {
        return None;
    }
    let hs = e
        .chunks(6)
        .map(|c| c.iter().map(|x| x.t - v.pre.t).fold(0.0f64, |a, b| if b.abs() > a.abs() { b } else { a }))
        .collect();
    Some(Tries { hs, _e: std::marker::PhantomData })
}

fn accepted(v: &StepView) -> bool {
    v.post.nsol == v.pre.nsol + 1
}

/// Reference attempt with the uncertainty of the step size folded into its rounding interval.
fn reference(s: &Setup, v: &StepView, h: f64, dh: f64, seed: u64) -> Att {
    let g = v.pre.gain;
    let n = s.prob.n;
    let f = |t: f64, u: &[f64]| {
        let mut d = vec![0.0; n];
        (s.prob.f)(t, u, &mut d);
        for x in d.iter_mut() {
            *x *= g;
        }
        d
    };
    let e = s.eff_at(v.pre.nsol);
    let mut a = attempt(&f, v.pre.t, &v.pre.u, h, e.abstol, e.reltol, seed);
    if dh > 0.0 {
        // the times of the stages are rounded as well: one shift may leave them where they are
        let mut d = 0.0f64;
        for x in [1.0, -1.0, 0.5, -0.5, 0.25] {
            let b = attempt(&f, v.pre.t, &v.pre.u, h + x * dh, e.abstol, e.reltol, seed);
            d = d.max((b.err - a.err).abs());
        }
        a.derr += 6.0 * d;
    }
    a
}

fn dp5_setup(c: &mut Case) -> Setup {
    let r = &mut c.rng;
    let p = any_prob(r, true);
    let span = (p.tf - p.t0).abs();
    let mut opt = gen_opt(r, Alg::Dp5, span, OptCfg { rtol_min: 1e-11, rtol_max: 1e-2, control: true, dtmax: true, dtstart: true });
    widen_opt(r, Alg::Dp5, &mut opt);
    gen_budget(r, &mut opt, span, 20, 150);
    let mut s = Setup::new(p, opt, Alg::Dp5);
    s.use_jac = r.chance(0.1);
    s.gain = if r.chance(0.2) { r.range(0.5, 1.5) } else { 1.0 };
    if r.chance(0.3) {
        s.cb = Some(gen_cb(r, s.prob.n, &s.prob.u0, 0.8));
    }
    c.desc = s.desc();
    s
}

fn finite(v: &[f64]) -> bool {
    v.iter().all(|x| x.is_finite())
}

fn bad_end(c: &mut Case, o: &crate::run::Outcome) -> bool {
    if let Some(m) = &o.panic {
        c.fail(format!("panicked: {}", m));
        return true;
    }
    if o.over_budget {
        c.inconclusive = Some("event budget".into());
        return true;
    }
    false
}

fn c03(c: &mut Case) {
    let s = dp5_setup(c);
    c03_on(c, &s);
}

/// Run `s` and recompute every explicit step of it.
pub fn c03_on(c: &mut Case, s: &Setup) {
    let seed = c.rng.u64();
    let mut changed = false;
    let mut checked = 0u64;
    let o = run_visit(s, &Mode::Steps, &mut |v: &StepView| {
        if !c.violations.is_empty() {
            return;
        }
        let sd = seed ^ v.k.wrapping_mul(0x9e3779b97f4a7c15);
        let tr = split(v, s.cb.is_some());
        let dh = 2.0 * f64::EPSILON * v.pre.t.abs().max(v.post.t.abs());
        if accepted(v) {
            let h = v.post.dtprev;
            let dt_seen = v.post.last_t - v.pre.t;
            if !((dt_seen - h).abs() <= 4.0 * dh) {
                c.fail(format!("step {}: time advanced by {:e} but the step size used is {:e}", v.k, dt_seen, h));
                return;
            }
            let a = reference(s, v, h, 0.0, sd);
            if finite(&a.unew) {
                for i in 0..s.prob.n {
                    let d = (v.post.last_u[i] - a.unew[i]).abs();
                    // a different summation order must not matter
                    let tol = a.du[i] + 64.0 * f64::EPSILON * (v.pre.u[i].abs() + (0..7).map(|j| (h * a.k[j][i]).abs()).fold(0.0, f64::max) * 12.0);
                    if !c.bound("step_mismatch", d, tol.max(1e-300), || format!("step {} component {}: from {:?} at t={:?} with h={:?} got {:?}, Dormand-Prince gives {:?}", v.k, i, v.pre.u, v.pre.t, h, v.post.last_u, a.unew)) {
                        return;
                    }
                }
            }
            if !(a.err <= 1.0 + a.derr) {
                c.fail(format!("step {} accepted with error estimate {:e} (+-{:e}) h={:e}", v.k, a.err, a.derr, h));
                return;
            }
            checked += 1;
            c.add("accepted_checked", 1);
            if changed {
                c.add("after_callback_change", 1);
            }
        }
        changed = v.post.u != v.post.last_u || v.post.gain != v.pre.gain;
        match tr {
            Some(tr) => {
                let nrej = if accepted(v) { tr.hs.len() - 1 } else { tr.hs.len() };
                for k in 0..nrej {
                    if dh > 1e-4 * tr.hs[k].abs() {
                        // the evaluation times do not resolve the step size
                        c.add("unresolved_attempts", 1);
                        continue;
                    }
                    let a = reference(s, v, tr.hs[k], dh, sd ^ (k as u64 + 1));
                    if a.err.is_finite() && a.err < 1.0 - a.derr {
                        c.fail(format!("step {} attempt {}: h={:e} retried although the error estimate is {:e} (+-{:e})", v.k, k, tr.hs[k], a.err, a.derr));
                        return;
                    }
                    c.add("rejected_checked", 1);
                }
            }
            None => c.add("unparsed_steps", 1),
        }
    });
    if bad_end(c, &o) {
        return;
    }
    c.add("backward", (s.prob.tf < s.prob.t0) as u64);
    c.add("wide", (s.prob.n >= 10) as u64);
    c.add("long", (o.ts.len() > 400) as u64);
    c.add("multi_component", (s.prob.n > 1) as u64);
    c.nontrivial = checked >= 3;
}

fn c21(c: &mut Case) {
    let mut s = dp5_setup(c);
    if let Some(cb) = &s.cb {
        if c.rng.chance(0.5) && !cb.is_empty() {
            s.cb = None;
        }
    }
    c.desc = s.desc();
    c21_on(c, &s);
}

/// Run `s` and recompute every step size the explicit solver tries or proposes.
pub fn c21_on(c: &mut Case, s: &Setup) {
    let seed = c.rng.u64();
    let mut ep = (1e-4, 1e-4);
    let mut checked = 0u64;
    let o = run_visit(s, &Mode::Steps, &mut |v: &StepView| {
        if !c.violations.is_empty() {
            return;
        }
        let e = s.eff_at(v.pre.nsol);
        let ctl = Ctl { safe: e.safe, beta: e.beta, facl: e.facl, facr: e.facr, dtmax: e.dtmax };
        let sd = seed ^ v.k.wrapping_mul(0x9e3779b97f4a7c15);
        let Some(tr) = split(v, s.cb.is_some()) else {
            c.add("unparsed_steps", 1);
            return;
        };
        let dh = 2.0 * f64::EPSILON * v.pre.t.abs().max(v.post.t.abs());
        let rest = v.pre.tfinal - v.pre.t;
        // the first attempt uses the proposal, or exactly reaches the end
        let h0 = tr.hs[0];
        if (h0 - v.pre.dt).abs() > 2.0 * dh + 1e-14 * h0.abs() {
            let ends = (h0 - rest).abs() <= 2.0 * dh;
            if !ends || h0.abs() > 1.0101 * v.pre.dt.abs() + dh {
                c.fail(format!("step {}: first attempt uses {:e}, proposal was {:e}, remaining span {:e}", v.k, h0, v.pre.dt, rest));
                return;
            }
            c.add("stretched_or_cut_to_end", 1);
        }
        let acc = accepted(v);
        let nrej = if acc { tr.hs.len() - 1 } else { tr.hs.len() };
        for k in 0..nrej {
            if dh > 1e-4 * tr.hs[k].abs() {
                c.add("unresolved_attempts", 1);
                continue;
            }
            let a = reference(s, v, tr.hs[k], dh, sd ^ (k as u64 + 1));
            if k + 1 < tr.hs.len() && a.err.is_finite() {
                let x = ctl.rejected(tr.hs[k], a.err + a.derr);
                let y = ctl.rejected(tr.hs[k], (a.err - a.derr).max(1.0));
                let (lo, hi) = (x.abs().min(y.abs()), x.abs().max(y.abs()));
                let h1 = tr.hs[k + 1].abs();
                // the step size of a retry is known only through the evaluation times
                let slack = 1e-6 * hi + 4.0 * dh;
                if !(h1 >= lo - slack && h1 <= hi + slack) {
                    c.fail(format!("step {} retry {}: after h={:e} with error {:e}+-{:e} the retry uses {:e}, controller gives {:e}..{:e}", v.k, k, tr.hs[k], a.err, a.derr, h1, lo, hi));
                    return;
                }
                c.add("retries_checked", 1);
            }
        }
        if !acc {
            return;
        }
        let h = v.post.dtprev;
        let a = reference(s, v, h, 0.0, sd);
        if !a.err.is_finite() {
            return;
        }
        let (e0, e1) = ((a.err - a.derr).max(0.0), a.err + a.derr);
        if (v.post.ret == Ret::Continue || v.post.ret == Ret::MaxIters) && !s.redirected_cb(v.post.nsol) {
            let big = ctl.accepted(h, e0, ep.1, nrej > 0).abs();
            let small = ctl.accepted(h, e1, ep.0, nrej > 0).abs();
            let hn = v.post.dt.abs();
            let slack = 1e-9 * big;
            if !(hn >= small - slack && hn <= big + slack) || (v.post.dt > 0.0) != (h > 0.0) {
                c.fail(format!(
                    "step {}: after h={:e} with error {:e}+-{:e} (previous {:?}, retried {}) the proposal is {:e}, controller gives {:e}..{:e}",
                    v.k, h, a.err, a.derr, ep, nrej, v.post.dt, small, big
                ));
                return;
            }
            checked += 1;
            c.add("proposals_checked", 1);
            let raw = ctl.safe * ep.0.powf(ctl.beta) / e1.powf(0.2 - 0.75 * ctl.beta);
            if raw > ctl.facr {
                c.add("limited_by_facr", 1);
            }
            if big >= ctl.dtmax * (1.0 - 1e-12) {
                c.add("limited_by_dtmax", 1);
            }
            if nrej > 0 && raw > 1.0 {
                c.add("held_after_reject", 1);
            }
            if big - small < 1e-6 * big && big < ctl.dtmax * 0.999 && raw < ctl.facr && raw > ctl.facl {
                c.add("interior", 1);
            }
        }
        ep = (e0.max(1e-4), e1.max(1e-4));
    });
    if bad_end(c, &o) {
        return;
    }
    c.add("backward", (s.prob.tf < s.prob.t0) as u64);
    c.add("wide", (s.prob.n >= 10) as u64);
    c.add("long", (o.ts.len() > 400) as u64);
    c.nontrivial = checked >= 3;
}

fn c04(c: &mut Case) {
    let r = &mut c.rng;
    let p = any_prob(r, true);
    let span = (p.tf - p.t0).abs();
    let n = p.n;
    let mut opt = gen_opt(r, Alg::Radau, span, OptCfg { rtol_min: 1e-9, rtol_max: 1e-2, control: true, dtmax: true, dtstart: true });
    widen_opt(r, Alg::Radau, &mut opt);
    vary_theta(r, Alg::Radau, &mut opt);
    gen_budget(r, &mut opt, span, 20, 120);
    if r.chance(0.3) {
        opt.fnewt = Some(r.log(1e-6, 3e-2));
    }
    let mut s = Setup::new(p, opt, Alg::Radau);
    s.use_jac = r.chance(0.8);
    s.gain = if r.chance(0.2) { r.range(0.5, 1.5) } else { 1.0 };
    if r.chance(0.25) {
        s.cb = Some(gen_cb(r, n, &s.prob.u0, 0.8));
    }
    c.desc = s.desc();
    c04_on(c, &s);
}

/// Run `s` and recompute every implicit step of it.
pub fn c04_on(c: &mut Case, s: &Setup) {
    let n = s.prob.n;
    let (cc, aa) = refradau::tableau();
    let mut jcur = vec![0.0; n * n];
    (s.prob.jac)(s.prob.t0, &s.prob.u0, &mut jcur);
    for x in jcur.iter_mut() {
        *x *= s.gain;
    }
    // a constant Jacobian makes the first Newton update exact
    let konst = {
        let mut a = vec![0.0; n * n];
        let mut b = vec![0.0; n * n];
        let u2: Vec<f64> = s.prob.u0.iter().map(|x| 1.3 * x + 0.1).collect();
        (s.prob.jac)(s.prob.t0 + 0.37 * (s.prob.tf - s.prob.t0), &u2, &mut a);
        (s.prob.jac)(s.prob.t0, &s.prob.u0, &mut b);
        s.prob.smooth && a == b
    };
    let mut changed = false;
    let mut checked = 0u64;
    let mut naccept = 0u64;
    let mut dist: Vec<f64> = vec![];
    let mut rate: Option<f64> = Some(1.0);
    let o = run_visit(s, &Mode::Steps, &mut |v: &StepView| {
        if !c.violations.is_empty() {
            return;
        }
        let was_changed = changed;
        let eff = s.eff_at(v.pre.nsol);
        let (rt, at, fnewt) = (eff.reltol, eff.abstol, eff.fnewt);
        changed = v.post.u != v.post.last_u || v.post.gain != v.pre.gain;
        if !accepted(v) {
            rate = None;
            for e in v.evs {
                if e.kind == EvKind::Jac {
                    jcur = e.out.clone();
                }
            }
            return;
        }
        let first = naccept == 0;
        naccept += 1;
        let h = v.post.dtprev;
        let dh = 2.0 * f64::EPSILON * v.pre.t.abs().max(v.post.t.abs());
        let dt_seen = v.post.last_t - v.pre.t;
        if !((dt_seen - h).abs() <= 4.0 * dh) {
            c.fail(format!("step {}: time advanced by {:e} but the step size used is {:e}", v.k, dt_seen, h));
            return;
        }
        // the last Newton sweep of the accepted attempt
        let on = |e: &Ev, q: usize| e.kind == EvKind::Rhs && (e.t - (v.pre.t + cc[q] * h)).abs() <= 2.0 * dh + 1e-13 * h.abs();
        let mut lastk = None;
        if v.evs.len() >= 3 {
            for k in (0..=v.evs.len() - 3).rev() {
                if (0..3).all(|q| on(&v.evs[k + q], q)) {
                    lastk = Some(k);
                    break;
                }
            }
        }
        let Some(k0) = lastk else {
            c.add("unparsed_steps", 1);
            rate = None;
            for e in v.evs {
                if e.kind == EvKind::Jac {
                    jcur = e.out.clone();
                }
            }
            return;
        };
        let mut sweeps = 1;
        let mut b = k0;
        while b >= 3 && (0..3).all(|q| on(&v.evs[b - 3 + q], q)) {
            sweeps += 1;
            b -= 3;
        }
        let retried = v.evs[..b].iter().any(|e| e.kind == EvKind::Rhs && e.t != v.pre.t) || v.evs[..b].iter().filter(|e| e.kind == EvKind::Jac).count() > was_changed as usize;
        for e in &v.evs[..k0] {
            if e.kind == EvKind::Jac {
                jcur = e.out.clone();
            }
        }
        let ju = jcur.clone();
        for e in &v.evs[k0..] {
            if e.kind == EvKind::Jac {
                jcur = e.out.clone();
            }
        }
        let u = &v.pre.u;
        let g = v.pre.gain;
        let scal: Vec<f64> = u.iter().map(|x| at + rt * x.abs()).collect();
        let f = |t: f64, y: &[f64]| {
            let mut d = vec![0.0; n];
            (s.prob.f)(t, y, &mut d);
            d.iter().map(|x| x * g).collect::<Vec<f64>>()
        };
        let jf = |t: f64, y: &[f64]| {
            let mut d = vec![0.0; n * n];
            (s.prob.jac)(t, y, &mut d);
            d.iter().map(|x| x * g).collect::<Vec<f64>>()
        };
        let m = 3 * n;
        let z: Vec<f64> = (0..3).flat_map(|q| (0..n).map(move |i| (q, i))).map(|(q, i)| v.evs[k0 + q].u[i] - u[i]).collect();
        let mut zfin: Option<Vec<f64>> = None;
        if s.use_jac {
            let mut mm = vec![0.0; m * m];
            let mut rr = vec![0.0; m];
            for q in 0..3 {
                for i in 0..n {
                    let mut x = -z[q * n + i];
                    for w in 0..3 {
                        x += h * aa[q][w] * v.evs[k0 + w].out[i];
                        for j in 0..n {
                            mm[(q * n + i) * m + w * n + j] -= h * aa[q][w] * ju[i * n + j];
                        }
                    }
                    mm[(q * n + i) * m + q * n + i] += 1.0;
                    rr[q * n + i] = x;
                }
            }
            if rr.iter().all(|x| x.is_finite()) {
                if let Some(d) = solve(m, &mm, &rr) {
                    let zf: Vec<f64> = (0..m).map(|i| z[i] + d[i]).collect();
                    for i in 0..n {
                        let got = v.post.last_u[i];
                        let want = u[i] + zf[2 * n + i];
                        let sc: f64 = (0..n).map(|j| if j == i { u[j].abs() + (0..3).map(|q| z[q * n + j].abs() + zf[q * n + j].abs()).sum::<f64>() } else { 0.0 }).sum();
                        let tol = 1e-9 * sc + 1e-7 * scal[i];
                        if !c.bound("newton_update", (got - want).abs(), tol.max(1e-300), || {
                            format!("step {} component {}: h={:e}, sweep {}: the logged stage evaluations and Jacobian give {:?}, the step recorded {:?}", v.k, i, h, sweeps, want, got)
                        }) {
                            return;
                        }
                    }
                    c.add("newton_updates_checked", 1);
                    checked += 1;
                    if retried {
                        c.add("after_retry", 1);
                    }
                    if was_changed {
                        c.add("after_callback_change", 1);
                    }
                    zfin = Some(zf);
                } else {
                    c.add("reference_singular", 1);
                }
            }
        }
        // the stopping test of the iteration, recomputed from the last updates: the convergence rate
        // measured in this step, or carried over from the steps before it
        let carried = if retried {
            None
        } else if v.evs[..b].iter().any(|e| e.kind == EvKind::Jac) {
            Some(1.0)
        } else if was_changed {
            None
        } else {
            rate
        };
        rate = None;
        if let Some(zf) = &zfin {
            let zs = |k: usize| -> Vec<f64> { (0..m).map(|x| v.evs[k + x / n].u[x % n] - u[x % n]).collect() };
            let nrm = |a: &[f64], b: &[f64]| ((0..m).map(|x| ((a[x] - b[x]) / scal[x % n]).powi(2)).sum::<f64>() / m as f64).sqrt();
            let cancel: f64 = ((0..m).map(|x| (1e-13 * (u[x % n].abs() + z[x].abs()) / scal[x % n]).powi(2)).sum::<f64>() / m as f64).sqrt();
            let d1 = nrm(zf, &z);
            let eta = if sweeps == 1 {
                carried.map(|x: f64| x.max(f64::EPSILON).powf(0.8))
            } else if sweeps < eff.max_newt_iter {
                let zp = zs(k0 - 3);
                let d0 = nrm(&z, &zp);
                let mut th = d1 / d0;
                if sweeps >= 3 {
                    th = (th * (d0 / nrm(&zp, &zs(k0 - 6)))).sqrt();
                }
                if th < 0.8 {
                    Some(th / (1.0 - th))
                } else {
                    None
                }
            } else {
                None
            };
            // rates lost in rounding are not carried on
            rate = eta.filter(|_| sweeps == 1 || d1 > 100.0 * cancel);
            if let (Some(eta), true) = (eta, d1 > 100.0 * cancel) {
                let name = if sweeps == 1 { "newton_stop_carried" } else { "newton_stop" };
                if !c.bound(name, eta * d1 / fnewt, 60.0, || {
                    format!("step {}: h={:e}, iteration stopped after {} sweeps with last update {:e}, rate factor {:e}, threshold {:e}", v.k, h, sweeps, d1, eta, fnewt)
                }) {
                    return;
                }
                c.add(if sweeps == 1 { "carried_stops_checked" } else { "stops_checked" }, 1);
            }
        }
        // the accepted stages against the exact collocation solution
        if konst || sweeps >= 2 {
            let z0 = zfin.clone().unwrap_or_else(|| z.clone());
            if let Some(st) = refradau::stages(&f, &jf, v.pre.t, u, h, &z0, &scal) {
                let mut d2 = 0.0;
                for i in 0..n {
                    let got = v.post.last_u[i] - u[i];
                    let round = 1e-12 * (u[i].abs() + st.z[2 * n + i].abs() + z[2 * n + i].abs()) + 10.0 * st.last[i];
                    d2 += (((got - st.z[2 * n + i]).abs() - round).max(0.0) / scal[i]).powi(2);
                }
                let d = (d2 / n as f64).sqrt();
                if konst && s.use_jac {
                    if !c.bound("collocation_linear", d, 1e-3, || {
                        format!("step {}: h={:e}, {} sweeps: recorded {:?}, collocation solution {:?}", v.k, h, sweeps, v.post.last_u, (0..n).map(|i| u[i] + st.z[2 * n + i]).collect::<Vec<_>>())
                    }) {
                        return;
                    }
                } else {
                    dist.push(d);
                }
                c.add("collocation_checked", 1);
                if !s.use_jac {
                    checked += 1;
                    c.add("fd_jacobian", 1);
                }
            }
        }
        // the error test
        if let Some(zf) = &zfin {
            let f0 = f(v.pre.t, u);
            if let Some((e1, e2, _)) = refradau::error(&f, &ju, v.pre.t, u, &f0, h, zf, &scal) {
                let cancel: f64 = ((0..n).map(|i| ((10.0 * (zf[i].abs() + zf[n + i].abs() + zf[2 * n + i].abs()) + u[i].abs()) * 1e-13 / scal[i]).powi(2)).sum::<f64>() / n as f64).sqrt();
                let de = 1e-6 + 10.0 * cancel;
                let refilter = first || retried;
                let ok = e1 < 1.0 + de || refilter && !(e2 >= 1.0 + de);
                if e1 >= 1.0 && refilter {
                    c.add("refiltered", 1);
                }
                if !ok {
                    c.fail(format!("step {} accepted with h={:e}, error estimate {:e}, re-filtered {:e}, first {} retried {}", v.k, h, e1, e2, first, retried));
                    return;
                }
                c.add("estimates_checked", 1);
            }
        }
    });
    if bad_end(c, &o) {
        return;
    }
    if dist.len() >= 10 {
        dist.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Greater));
        let q = dist[dist.len() * 8 / 10];
        let name = if s.use_jac { "collocation_newton80" } else { "collocation_fd80" };
        c.bound(name, q, 15.0, || format!("80th percentile over {} steps of the distance to the collocation solution, in units of the tolerance", dist.len()));
        c.add("newton_runs_judged", 1);
    }
    c.add("backward", (s.prob.tf < s.prob.t0) as u64);
    c.add("wide", (s.prob.n >= 10) as u64);
    c.add("long", (o.ts.len() > 400) as u64);
    c.add("multi_component", (s.prob.n > 1) as u64);
    c.nontrivial = checked >= 3;
}
