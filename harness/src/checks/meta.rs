//! C07, C11, C12, C17, C18: relations between runs, callbacks, invariants.

use super::life::{alg, crashed, gen_prob};
use super::step::{c03_on, c04_on, gen_cb};
use crate::fw::{Case, Spec};
use crate::opts::{gen_budget, gen_opt, Opt, OptCfg};
use crate::prob::{self, gen, GenCfg, Kind, Prob, F};
use crate::rng::Rng;
use crate::run::{run, run_visit, Alg, CbAct, EvKind, Fault, Mode, Outcome, Ret, Setup, Stats, StepView};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C07",
            level: "exploration",
            rule: "random problems (also failing ones), options, callbacks and Jacobian sources, both solvers, integrated as they are and time-reversed in lockstep; non-trivial: at least 3 steps compared pairwise",
            quick: 150000,
            thorough: 1600000,
            case: c07,
            require: &["steps_compared", "rejections", "success", "failed", "dp5", "radau", "with_callback", "dtstart_mirrored"],
            assumptions: &[],
        },
        Spec {
            id: "C11",
            level: "exploration",
            rule: "random problems x callbacks that do nothing, change the state, change parameters or stop, both solvers; non-trivial: the callback ran at least 3 times and its changes were followed into the next step",
            quick: 120000,
            thorough: 3600000,
            case: c11,
            require: &["callback_calls", "state_changes", "gain_changes", "stops", "null_callbacks", "fresh_derivatives", "dp5", "radau"],
            assumptions: &["whether the callback also runs after a step() that could not complete a step is left open"],
        },
        Spec {
            id: "C12",
            level: "exploration",
            rule: "random problems x options x callbacks x injected faults, both solvers, driven in six ways: integrate, steps, steps then integrate, both iterators, interleaved with and nested inside other integrations, on another thread, with and without dense output; non-trivial: at least 3 steps, all compared bit by bit",
            quick: 24000,
            thorough: 360000,
            case: c12,
            require: &["pairs", "iterator_items", "mixed_items", "interleaved", "nested", "threads", "dense_pairs", "faults_hit", "success", "failed", "dp5", "radau"],
            assumptions: &[],
        },
        Spec {
            id: "C26",
            level: "exploration",
            rule: "random problems x options x callbacks x injected faults, both solvers: each run repeated with options the solver has no use for, with user functions it has no use for, with a Jacobian that writes its nonzero entries only, with the builder's fields assigned instead of its setters called, and with the initial state in strided or reversed storage; non-trivial: at least 3 steps, all compared bit by bit",
            quick: 60000,
            thorough: 600000,
            case: c26,
            require: &["foreign_options", "unused_functions", "sparse_jacobians", "fields_assigned", "strided_states", "faults_hit", "success", "failed", "dp5", "radau", "wide", "long"],
            assumptions: &[],
        },
        Spec {
            id: "C17",
            level: "exploration",
            rule: "(a) random transfer networks conserving a weighted sum, (b) nonlinear systems started at an exact equilibrium, (c) right-hand sides polynomial in time, both solvers, random options; non-trivial: at least 3 steps checked",
            quick: 150000,
            thorough: 1600000,
            case: c17,
            require: &["invariant_steps", "equilibrium_steps", "polynomial_steps", "stiff_networks", "rejections", "dp5", "radau", "fd_jacobian"],
            assumptions: &[],
        },
        Spec {
            id: "C18",
            level: "exploration",
            rule: "random smooth problems x options, both solvers: permuted, replicated, state units changed (uniformly, or per component with abstol = 0), time units changed; non-trivial: at least 3 steps compared",
            quick: 150000,
            thorough: 1600000,
            case: c18,
            require: &["permuted", "replicated", "far_units", "state_units", "component_units", "time_units", "rejections", "dp5", "radau", "exact_twins", "close_twins"],
            assumptions: &["where the reformulation changes the order of roundings, a difference counts only if perturbing the original run at rounding level never produces it"],
        },
    ]
}

fn bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol || a.is_nan() && b.is_nan()
}

fn gen_any(c: &mut Case, failing: f64, steps: (usize, usize)) -> Setup {
    let r = &mut c.rng;
    let a = alg(r);
    let p = gen_prob(r, failing, 20.0);
    let span = (p.tf - p.t0).abs();
    let mut opt = gen_opt(r, a, span, OptCfg { rtol_min: 1e-10, rtol_max: 1e-2, control: true, dtmax: true, dtstart: true });
    gen_budget(r, &mut opt, span, steps.0, steps.1);
    let mut s = Setup::new(p, opt, a);
    s.use_jac = r.chance(0.6);
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    s
}

// ---------------------------------------------------------------------------------------------

struct Row {
    t: f64,
    u: Vec<f64>,
    tprev: f64,
    uprev: Vec<f64>,
    dtprev: f64,
    st: Stats,
    ret: Ret,
    calls: (u64, u64, u64),
}

fn rows(s: &Setup) -> (Vec<Row>, Outcome) {
    let mut v = vec![];
    let o = run_visit(s, &Mode::Steps, &mut |x: &StepView| {
        v.push(Row {
            t: x.post.t,
            u: x.post.u.clone(),
            tprev: x.post.tprev,
            uprev: x.post.uprev.clone(),
            dtprev: x.post.dtprev,
            st: x.post.st,
            ret: x.post.ret,
            calls: (x.rhs_calls, x.jac_calls, x.cb_calls),
        })
    });
    (v, o)
}

fn c07(c: &mut Case) {
    let mut s = gen_any(c, 0.15, (5, 200));
    if c.rng.chance(0.25) {
        s.cb = Some(gen_cb(&mut c.rng, s.prob.n, &s.prob.u0, 0.7));
        c.add("with_callback", 1);
    }
    s.log = false;
    c.desc = s.desc();
    let mut q = s.clone();
    q.prob = prob::mirror(&s.prob);
    if let (true, Some(h)) = (c.rng.chance(0.5), s.opt.dtstart) {
        // with or without the sign of the direction
        q.opt.dtstart = Some(-h);
        c.add("dtstart_mirrored", 1);
    }
    let (a, oa) = rows(&s);
    let (b, ob) = rows(&q);
    if crashed(c, &oa) || crashed(c, &ob) {
        return;
    }
    let tol = 1e-9;
    let ts = tol * s.prob.t0.abs().max(s.prob.tf.abs());
    let mut um = vec![0.0f64; s.prob.n];
    for r in &a {
        for i in 0..s.prob.n {
            um[i] = um[i].max(r.u[i].abs());
        }
    }
    for (k, (x, y)) in a.iter().zip(&b).enumerate() {
        let same_u = |p: &[f64], q: &[f64]| (0..p.len()).all(|i| close(p[i], q[i], tol * um[i]));
        let h = tol * x.dtprev.abs();
        let msg = if !close(x.t, -y.t, ts) || !close(x.tprev, -y.tprev, ts) {
            format!("time {:?} -> {:?} against {:?} -> {:?}", x.tprev, x.t, y.tprev, y.t)
        } else if !close(x.dtprev, -y.dtprev, h + 1e-15 * ts) {
            format!("step size {:?} against {:?}", x.dtprev, y.dtprev)
        } else if !same_u(&x.u, &y.u) || !same_u(&x.uprev, &y.uprev) {
            format!("state {:?} -> {:?} against {:?} -> {:?}", x.uprev, x.u, y.uprev, y.u)
        } else if x.st != y.st || x.calls != y.calls {
            format!("statistics {:?} {:?} against {:?} {:?}", x.st, x.calls, y.st, y.calls)
        } else if x.ret != y.ret {
            format!("return code {:?} against {:?}", x.ret, y.ret)
        } else {
            c.add("steps_compared", 1);
            continue;
        };
        c.fail(format!("step {} at t={:?}: {} of the time-reversed run", k, x.t, msg));
        return;
    }
    if a.len() != b.len() || oa.ts.len() != ob.ts.len() {
        c.fail(format!("{} steps and {} points, time-reversed {} and {}", a.len(), oa.ts.len(), b.len(), ob.ts.len()));
        return;
    }
    for k in 0..oa.ts.len() {
        if !close(oa.ts[k], -ob.ts[k], ts) || !(0..s.prob.n).all(|i| close(oa.us[k][i], ob.us[k][i], tol * um[i].max(s.prob.u0[i].abs()))) {
            c.fail(format!("recorded point {}: {:?} {:?}, time-reversed {:?} {:?}", k, oa.ts[k], oa.us[k], ob.ts[k], ob.us[k]));
            return;
        }
    }
    let f = oa.fin.as_ref().unwrap();
    c.add("rejections", f.st.rejects as u64);
    c.add(if f.ret == Ret::Success { "success" } else { "failed" }, 1);
    c.nontrivial = a.len() >= 3;
}

// ---------------------------------------------------------------------------------------------

fn c11(c: &mut Case) {
    let mut s = gen_any(c, 0.1, (10, 120));
    let what = c.rng.below(10);
    if what < 2 {
        return c11_null(c, s);
    }
    if what < 4 {
        return c11_stop(c, s);
    }
    s.cb = Some(gen_cb(&mut c.rng, s.prob.n, &s.prob.u0, 1.0));
    if s.alg == Alg::Radau && what < 7 {
        s.use_jac = true;
    }
    c.desc = s.desc();
    let acts = s.cb.clone().unwrap();
    let n = s.prob.n;
    let mut changed = false;
    let o = run_visit(&s, &Mode::Steps, &mut |v: &StepView| {
        if !c.violations.is_empty() {
            return;
        }
        let cbs: Vec<_> = v.evs.iter().filter(|e| e.kind == EvKind::Cb).collect();
        let acc = v.post.nsol == v.pre.nsol + 1;
        if acc && cbs.len() != 1 || cbs.len() > 1 {
            c.fail(format!("step {}: the callback ran {} times", v.k, cbs.len()));
            return;
        }
        if let Some(e) = cbs.first() {
            c.add("callback_calls", 1);
            if acc {
                if e.t.to_bits() != v.post.last_t.to_bits() || !bits(&e.u, &v.post.last_u) || e.nsol != v.post.nsol || e.last_t.to_bits() != e.t.to_bits() {
                    c.fail(format!("step {}: the callback saw {:?} at {:?} with {} points, the step produced {:?} at {:?} as point {}", v.k, e.u, e.t, e.nsol, v.post.last_u, v.post.last_t, v.post.nsol));
                    return;
                }
                if !bits(&e.out, &v.pre.u) || e.tprev.to_bits() != v.pre.t.to_bits() {
                    c.fail(format!("step {}: the callback saw previous state {:?} at {:?}, the step started from {:?} at {:?}", v.k, e.out, e.tprev, v.pre.u, v.pre.t));
                    return;
                }
            }
            // what the callback did must be in force afterwards
            let mut want = e.u.clone();
            let mut gain = e.gain;
            for (at, act) in &acts {
                if *at == e.nsol {
                    match act {
                        CbAct::SetU(x) => {
                            want = x.clone();
                            c.add("state_changes", 1);
                        }
                        CbAct::ScaleU(x) => {
                            want.iter_mut().for_each(|y| *y *= *x);
                            c.add("state_changes", 1);
                        }
                        CbAct::ScaleOne(k, x) => {
                            want[*k] *= *x;
                            c.add("state_changes", 1);
                        }
                        CbAct::SetGain(g) => {
                            gain = *g;
                            c.add("gain_changes", 1);
                        }
                        _ => {}
                    }
                }
            }
            if !bits(&want, &v.post.u) || gain != v.post.gain {
                c.fail(format!("step {}: after the callback the state is {:?} gain {:?}, the callback left {:?} gain {:?}", v.k, v.post.u, v.post.gain, want, gain));
                return;
            }
        }
        // the derivative of the changed model at the changed state must have been evaluated
        if changed && acc {
            let fresh = v.evs.iter().any(|e| e.kind == EvKind::Rhs && e.t == v.pre.t && bits(&e.u, &v.pre.u) && e.gain == v.pre.gain);
            if !fresh {
                c.fail(format!("step {}: the derivative at the state the callback left ({:?} at {:?}) was never evaluated", v.k, v.pre.u, v.pre.t));
                return;
            }
            c.add("fresh_derivatives", 1);
        }
        for e in v.evs {
            if e.kind != EvKind::Cb && e.gain != v.pre.gain {
                c.fail(format!("step {}: evaluated with parameters {:?} although they are {:?}", v.k, e.gain, v.pre.gain));
                return;
            }
        }
        changed = v.post.gain != v.pre.gain || acc && !bits(&v.post.u, &v.post.last_u);
    });
    if crashed(c, &o) || !c.violations.is_empty() {
        return;
    }
    let _ = n;
    let ncb = o.cb_calls as i64 - (o.ts.len() as i64 - 1);
    if ncb != 0 && ncb != 1 {
        c.fail(format!("callback ran {} times over {} accepted steps", o.cb_calls, o.ts.len() - 1));
        return;
    }
    // the steps themselves, recomputed from where the callback left off
    c.nontrivial = false;
    if s.prob.fails_at.is_none() {
        if s.alg == Alg::Dp5 {
            c03_on(c, &s);
        } else {
            c04_on(c, &s);
        }
    }
    c.nontrivial = o.cb_calls >= 3;
}

fn c11_null(c: &mut Case, mut s: Setup) {
    s.log = false;
    let o0 = run(&s, &Mode::Integrate);
    s.cb = Some(vec![]);
    c.desc = s.desc();
    let o1 = run(&s, &Mode::Integrate);
    if crashed(c, &o0) || crashed(c, &o1) {
        return;
    }
    let (f, g) = (o0.fin.as_ref().unwrap(), o1.fin.as_ref().unwrap());
    if f.ret != g.ret || !bits(&o0.ts, &o1.ts) || !(0..o0.us.len()).all(|k| bits(&o0.us[k], &o1.us[k])) || f.st.accepts != g.st.accepts || f.st.rejects != g.st.rejects || f.st.steps != g.st.steps || s.prob.fails_at.is_none() && f.st.jevals != g.st.jevals {
        let k = (0..o0.ts.len().min(o1.ts.len())).find(|&k| o0.ts[k].to_bits() != o1.ts[k].to_bits() || !bits(&o0.us[k], &o1.us[k]));
        c.fail(format!("a callback that does nothing changed the solution: {:?} {} points {:?}, without it {:?} {} points {:?}; first difference at {:?}", g.ret, o1.ts.len(), g.st, f.ret, o0.ts.len(), f.st, k));
        return;
    }
    c.add("null_callbacks", 1);
    c.nontrivial = o0.ts.len() > 3;
}

fn c11_stop(c: &mut Case, mut s: Setup) {
    let at = c.rng.int(2, 15);
    let code = *c.rng.pick(&[Ret::Success, Ret::Failure, Ret::MaxIters, Ret::Stiff, Ret::SingularMatrix, Ret::DtLessThanMin]);
    s.log = false;
    s.cb = Some(vec![]);
    let o0 = run(&s, &Mode::Integrate);
    if crashed(c, &o0) {
        return;
    }
    s.cb = Some(vec![(at, CbAct::Stop(code))]);
    s.poke = 2;
    c.desc = s.desc();
    let mode = c.rng.pick(&[Mode::Steps, Mode::Integrate, Mode::MutIter, Mode::IntoIter]).clone();
    let o1 = run_visit(&s, &mode, &mut |v: &StepView| {
        if v.returned.is_some() != (v.post.ret == Ret::Continue) {
            c.fail(format!("step {} returned {:?}, the return code is {:?}", v.k, v.returned, v.post.ret));
        }
    });
    if !c.violations.is_empty() || crashed(c, &o1) {
        return;
    }
    let f = o1.fin.as_ref().unwrap();
    if o0.ts.len() >= at {
        if o1.ts.len() != at || f.ret != code {
            c.fail(format!("the callback set {:?} at point {}: ended with {:?} and {} points", code, at, f.ret, o1.ts.len()));
            return;
        }
        c.add("stops", 1);
    } else if o1.ts.len() != o0.ts.len() || f.ret != o0.fin.as_ref().unwrap().ret {
        c.fail(format!("a callback that never acted changed the run: {:?} {} points", f.ret, o1.ts.len()));
        return;
    }
    if let Some(m) = &o1.poke_diff {
        c.fail(m.clone());
        return;
    }
    for k in 0..o1.ts.len() {
        if o0.ts[k].to_bits() != o1.ts[k].to_bits() || !bits(&o0.us[k], &o1.us[k]) {
            c.fail(format!("point {} before the stop differs from the run without it", k));
            return;
        }
    }
    c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------

fn same_runs(c: &mut Case, what: &str, a: &Outcome, b: &Outcome, stats: bool) -> bool {
    let (f, g) = (a.fin.as_ref().unwrap(), b.fin.as_ref().unwrap());
    let k = (0..a.ts.len().min(b.ts.len())).find(|&k| a.ts[k].to_bits() != b.ts[k].to_bits() || !bits(&a.us[k], &b.us[k]));
    if f.ret != g.ret || a.ts.len() != b.ts.len() || a.us.len() != b.us.len() || k.is_some() || stats && f.st != g.st {
        c.fail(format!("{}: {:?} {} points {:?}, reference {:?} {} points {:?}; first differing point {:?}", what, g.ret, b.ts.len(), g.st, f.ret, a.ts.len(), f.st, k));
        return false;
    }
    if f.t.to_bits() != g.t.to_bits() || !bits(&f.u, &g.u) || stats && (a.rhs_calls != b.rhs_calls || a.jac_calls != b.jac_calls || a.cb_calls != b.cb_calls) {
        c.fail(format!("{}: final state {:?} at {:?} after {} evaluations, reference {:?} at {:?} after {}", what, g.u, g.t, b.rhs_calls, f.u, f.t, a.rhs_calls));
        return false;
    }
    c.add("pairs", 1);
    true
}

/// Everything about a C12 case, made from a seed so that another thread can make it as well.
fn c12_setup(seed: u64) -> Setup {
    let mut r = Rng::new(seed);
    let a = alg(&mut r);
    let p = gen_prob(&mut r, 0.2, 15.0);
    let span = (p.tf - p.t0).abs();
    let mut opt = gen_opt(&mut r, a, span, OptCfg { rtol_min: 1e-9, rtol_max: 1e-2, control: true, dtmax: true, dtstart: true });
    gen_budget(&mut r, &mut opt, span, 5, 150);
    let mut s = Setup::new(p, opt, a);
    s.use_jac = r.chance(0.5);
    if r.chance(0.3) {
        s.cb = Some(gen_cb(&mut r, s.prob.n, &s.prob.u0, 0.8));
        if r.chance(0.3) {
            s.cb.as_mut().unwrap().push((r.int(2, 20), CbAct::Stop(*r.pick(&[Ret::Failure, Ret::Success, Ret::MaxIters]))));
        }
    }
    if r.chance(0.25) {
        for _ in 0..r.int(1, 3) {
            s.faults.push(Fault { at: r.below(300) as u64, comp: r.below(s.prob.n), val: *r.pick(&[f64::NAN, f64::INFINITY, -1e300, 1e6]) });
        }
    }
    s.log = false;
    s
}

fn c26(c: &mut Case) {
    let s = c12_setup(c.rng.u64());
    let dp = s.alg == Alg::Dp5;
    c.add(if dp { "dp5" } else { "radau" }, 1);
    c.desc = s.desc();
    let base = run(&s, &Mode::Integrate);
    if crashed(c, &base) {
        return;
    }
    let f = base.fin.clone().unwrap();
    c.add(if f.ret == Ret::Success { "success" } else { "failed" }, 1);
    c.add("faults_hit", base.faults_hit);
    c.add("wide", (s.prob.n >= 10) as u64);
    c.add("long", (base.ts.len() > 400) as u64);
    let mut ways: Vec<(&'static str, Setup)> = vec![];
    {
        let r = &mut c.rng;
        let mut q = s.clone();
        q.opt.max_stiff = Some(*r.pick(&[0, 1, 2, 7, 1000, usize::MAX]));
        if dp {
            q.opt.max_newt_iter = Some(r.int(1, 50));
            q.opt.modern_pred = Some(r.chance(0.5));
            q.opt.quot1 = Some(r.range(0.1, 3.0));
            q.opt.quot2 = Some(r.range(0.1, 3.0));
            q.opt.fnewt = Some(r.log(1e-8, 1.0));
            q.opt.use_ext_col = Some(r.chance(0.5));
            q.opt.hess = Some(r.chance(0.5));
            q.opt.theta = Some(r.range(-1.0, 1.0));
        } else {
            q.opt.beta = Some(r.range(-0.2, 0.3));
        }
        ways.push(("foreign_options", q));
        let mut q = s.clone();
        q.pose.dfdt = true;
        if dp {
            q.use_jac = !q.use_jac;
        }
        ways.push(("unused_functions", q));
        if !dp && s.use_jac {
            let mut q = s.clone();
            q.pose.sparse = true;
            ways.push(("sparse_jacobians", q));
        }
        let mut q = s.clone();
        q.pose.fields = true;
        ways.push(("fields_assigned", q));
        let mut q = s.clone();
        q.pose.stride = *r.pick(&[-3, -2, -1, 2, 3]);
        ways.push(("strided_states", q));
    }
    for (name, q) in ways {
        let o = run(&q, &Mode::Integrate);
        if crashed(c, &o) || !same_runs(c, &format!("{} {:?} [{}]", name, q.pose, q.opt.desc()), &base, &o, true) {
            return;
        }
        if o.dfdt_calls > 0 || dp && o.jac_calls > 0 {
            c.fail(format!("{}: the time derivative was called {} times, the Jacobian {} times", name, o.dfdt_calls, o.jac_calls));
            return;
        }
        c.add(name, 1);
    }
    c.nontrivial = base.ts.len() > 3;
}

fn c12(c: &mut Case) {
    let seed = c.rng.u64();
    let s = c12_setup(seed);
    c.add(if s.alg == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    c.desc = s.desc();
    let base = run(&s, &Mode::Integrate);
    if crashed(c, &base) {
        return;
    }
    let f = base.fin.clone().unwrap();
    c.add(if f.ret == Ret::Success { "success" } else { "failed" }, 1);
    c.add("faults_hit", base.faults_hit);
    // the state each step leaves behind, callback included
    let mut left: Vec<Vec<f64>> = vec![];
    let o = run_visit(&s, &Mode::Steps, &mut |v: &StepView| {
        if v.post.nsol > v.pre.nsol {
            left.push(v.post.u.clone());
        }
        if v.returned != (if v.post.ret == Ret::Continue { Some(v.post.st.steps) } else { None }) {
            c.fail(format!("step {} returned {:?}, the return code is {:?} after {} steps", v.k, v.returned, v.post.ret, v.post.st.steps));
        }
    });
    if !c.violations.is_empty() || crashed(c, &o) || !same_runs(c, "step by step", &base, &o, true) {
        return;
    }
    let mut modes = vec![Mode::MutIter, Mode::IntoIter, Mode::StepsThenIntegrate(c.rng.below(12)), Mode::Integrate];
    modes.push(Mode::Mixed { steps: c.rng.below(12), items: if c.rng.chance(0.5) { 1_000_000 } else { c.rng.below(12) }, own: c.rng.chance(0.5) });
    let first = c.rng.below(modes.len());
    modes.rotate_left(first);
    for m in &modes {
        let o = run(&s, m);
        if crashed(c, &o) || !same_runs(c, &format!("{:?}", m), &base, &o, true) {
            return;
        }
        if matches!(m, Mode::MutIter | Mode::IntoIter) {
            if o.items.len() != o.ts.len() - 1 || o.iter_after_end {
                c.fail(format!("{:?} yielded {} items (and more after the end: {}), {} steps were recorded", m, o.items.len(), o.iter_after_end, o.ts.len() - 1));
                return;
            }
            for (k, (t, u)) in o.items.iter().enumerate() {
                if t.to_bits() != o.ts[k + 1].to_bits() || !bits(u, &left[k]) {
                    c.fail(format!("{:?} item {}: {:?} at {:?}, stepping gives {:?} at {:?}", m, k, u, t, left[k], o.ts[k + 1]));
                    return;
                }
            }
            c.add("iterator_items", o.items.len() as u64);
        }
        if let Mode::Mixed { steps, items, .. } = *m {
            // an iterator started in the middle of a run goes on from there
            let all = o.ts.len() - 1;
            let done = steps.min(all);
            if o.items.len() != items.min(all - done) || o.iter_after_end {
                c.fail(format!("{:?} yielded {} items (and more after the end: {}), {} steps were recorded", m, o.items.len(), o.iter_after_end, all));
                return;
            }
            for (k, (t, u)) in o.items.iter().enumerate() {
                let k = done + k + 1;
                if t.to_bits() != o.ts[k].to_bits() || !bits(u, &left[k - 1]) {
                    c.fail(format!("{:?} item {}: {:?} at {:?}, stepping gives {:?} at {:?}", m, k, u, t, left[k - 1], o.ts[k]));
                    return;
                }
            }
            c.add("mixed_items", o.items.len() as u64);
        }
    }
    // other integrations between the steps of this one
    let other = c12_setup(c.rng.u64());
    let mut small = other.clone();
    small.opt.max_steps = Some(6);
    let every = c.rng.int(1, 9) as u64;
    let o = run_visit(&s, &Mode::Steps, &mut |v| {
        if v.k % every == 0 && v.k < 60 {
            let _ = run(&small, &Mode::Steps);
        }
    });
    if crashed(c, &o) || !same_runs(c, "interleaved with another integrator", &base, &o, true) {
        return;
    }
    c.add("interleaved", 1);
    // another integration inside the right-hand side of this one
    let mut nest = s.clone();
    let f0 = s.prob.f.clone();
    let calls = Cell::new(0u64);
    let inner = RefCell::new(small.clone());
    let nested: F = Rc::new(move |t, u, du| {
        let k = calls.get();
        calls.set(k + 1);
        if k % 7 == 3 && k < 200 {
            if let Ok(x) = inner.try_borrow_mut() {
                let _ = run(&x, &Mode::Integrate);
            }
        }
        f0(t, u, du);
    });
    nest.prob.f = nested;
    let o = run(&nest, &Mode::Integrate);
    if crashed(c, &o) || !same_runs(c, "with another integration inside the right-hand side", &base, &o, true) {
        return;
    }
    c.add("nested", 1);
    // on another thread
    let o = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let s = c12_setup(seed);
            run(&s, &Mode::Steps)
        })
        .map(|h| h.join());
    match o {
        Ok(Ok(o)) => {
            if crashed(c, &o) || !same_runs(c, "on another thread", &base, &o, true) {
                return;
            }
            c.add("threads", 1);
        }
        Ok(Err(_)) => c.fail("panicked on another thread"),
        Err(_) => c.inconclusive = Some("cannot start a thread".into()),
    }
    // dense output
    let mut d = s.clone();
    d.opt.dense = Some(!s.opt.dense.unwrap_or(false));
    let o = run(&d, &Mode::Integrate);
    if crashed(c, &o) || !same_runs(c, "with dense output switched", &base, &o, true) {
        return;
    }
    c.add("dense_pairs", 1);
    c.nontrivial = base.ts.len() > 3;
}

// ---------------------------------------------------------------------------------------------

/// Random network of transfers between components that conserves sum(w_i u_i).
struct Network {
    p: Prob,
    w: Vec<f64>,
    rate: f64,
}

fn network(r: &mut Rng, stiff: bool) -> Network {
    let nmax = if r.chance(0.7) { 5 } else { 10 };
    let n = r.int(2, nmax);
    let w: Vec<f64> = (0..n).map(|_| if r.chance(0.5) { 1.0 } else { r.log(0.1, 10.0) * r.sign() }).collect();
    let m = r.int(1, 2 * n);
    let kmax = if stiff { 1e7 } else { 5.0 };
    // (from, to, helper, kind, rate)
    let tr: Vec<(usize, usize, usize, usize, f64)> = (0..m)
        .map(|_| {
            let a = r.below(n);
            let mut b = r.below(n);
            while b == a {
                b = r.below(n);
            }
            let kind = r.below(4);
            // transfers against the sign of the weights grow: keep those slow
            let k = if kind != 0 || w[a] * w[b] < 0.0 { r.range(0.05, 1.0) } else { r.log(0.05, kmax) };
            (a, b, r.below(n), kind, k)
        })
        .collect();
    let rate = tr.iter().map(|x| x.4).fold(0.0, f64::max);
    // rate of a transfer and its derivative by the source and the helper
    fn flux(kind: usize, k: f64, t: f64, x: f64, y: f64) -> (f64, f64, f64) {
        match kind {
            0 => (k * x, k, 0.0),
            1 => (k * x / (1.0 + x * x + y * y), k * (1.0 - x * x + y * y) / (1.0 + x * x + y * y).powi(2), -2.0 * k * x * y / (1.0 + x * x + y * y).powi(2)),
            2 => {
                let s = (1.3 * t).sin();
                (k * s * x, k * s, 0.0)
            }
            _ => (k * y.sin(), 0.0, k * y.cos()),
        }
    }
    let (t1, w1) = (tr.clone(), w.clone());
    let f: F = Rc::new(move |t, u, du| {
        du.iter_mut().for_each(|x| *x = 0.0);
        for &(a, b, h, kind, k) in &t1 {
            let v = flux(kind, k, t, u[a], u[h]).0;
            du[a] -= v;
            du[b] += v * w1[a] / w1[b];
        }
    });
    let w2 = w.clone();
    let jac: F = Rc::new(move |t, u, df| {
        df.iter_mut().for_each(|x| *x = 0.0);
        for &(a, b, h, kind, k) in &tr {
            let (_, dx, dy) = flux(kind, k, t, u[a], u[h]);
            for (j, d) in [(a, dx), (h, dy)] {
                df[a * n + j] -= d;
                df[b * n + j] += d * w2[a] / w2[b];
            }
        }
    });
    let span = r.log(0.1, 5.0);
    let t0 = r.range(-2.0, 2.0);
    let u0: Vec<f64> = (0..n).map(|_| r.range(-2.0, 2.0)).collect();
    let mut p = prob::custom("network", n, t0, t0 + span * r.sign(), u0, f, jac);
    if p.tf < p.t0 {
        // decays must stay decays when integrating backward
        p = prob::mirror(&prob::custom("network", n, -p.t0, -p.tf, p.u0.clone(), p.f.clone(), p.jac.clone()));
    }
    Network { p, w, rate }
}

fn c17(c: &mut Case) {
    match c.rng.below(3) {
        0 => c17_invariant(c),
        1 => c17_equilibrium(c),
        _ => c17_poly(c),
    }
}

fn c17_opt(r: &mut Rng, a: Alg, span: f64) -> Opt {
    let mut o = gen_opt(r, a, span, OptCfg { rtol_min: 1e-10, rtol_max: 1e-1, control: true, dtmax: true, dtstart: true });
    o.max_steps = Some(r.int(20, 300));
    o
}

fn c17_invariant(c: &mut Case) {
    let r = &mut c.rng;
    let a = alg(r);
    let stiff = r.chance(0.5);
    let net = network(r, stiff);
    let mut s = Setup::new(net.p, c17_opt(r, a, 1.0), a);
    s.use_jac = r.chance(0.6);
    s.log = false;
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    c.add("stiff_networks", (net.rate > 1e3) as u64);
    c.add("fd_jacobian", (!s.use_jac && a == Alg::Radau) as u64);
    c.desc = format!("{} w={:?}", s.desc(), net.w);
    let o = run(&s, &Mode::Integrate);
    if crashed(c, &o) {
        return;
    }
    let n = s.prob.n;
    let q = |u: &[f64]| -> (f64, f64) { ((0..n).map(|i| net.w[i] * u[i]).sum(), (0..n).map(|i| (net.w[i] * u[i]).abs()).sum()) };
    let mut acc = 0.0;
    let mut jm = 0.0f64;
    let (q0, m0) = q(&s.prob.u0);
    let mut peak = m0;
    for k in 1..o.ts.len() {
        let h = (o.ts[k] - o.ts[k - 1]).abs();
        let mut d = vec![0.0; n];
        let mut big = 0.0f64;
        for u in [&o.us[k - 1], &o.us[k]] {
            (s.prob.f)(o.ts[k], u, &mut d);
            let x: f64 = (0..n).map(|i| (net.w[i] * d[i]).abs()).sum();
            big = big.max(x);
        }
        let (q1, m1) = q(&o.us[k]);
        peak = peak.max(m1);
        // rounding of the right-hand side is hidden by cancellation: bound it by the rates
        jm = jm.max(net.rate * m1.max(peak));
        let wr = net.w.iter().fold(0.0f64, |a, b| a.max(b.abs())) / net.w.iter().fold(f64::INFINITY, |a, b| a.min(b.abs()));
        let unit = peak * (1.0 + h * net.rate) + h * big;
        acc += match (a, s.use_jac) {
            (Alg::Dp5, _) => 3e-15 * unit,
            (Alg::Radau, true) => 5e-14 * wr * unit,
            // a difference quotient conserves only to half precision, what is left of it is
            // scaled by the last Newton update
            (Alg::Radau, false) => 3e-8 * wr * unit,
        } * n as f64;
        let name = match (a, s.use_jac) {
            (Alg::Dp5, _) => "invariant_dp5",
            (Alg::Radau, true) => "invariant_radau",
            (Alg::Radau, false) => "invariant_radau_fd",
        };
        if !c.bound(name, (q1 - q0).abs(), acc, || format!("step {}: conserved quantity {:?} became {:?}", k, q0, q1)) {
            return;
        }
        c.add("invariant_steps", 1);
    }
    c.add("rejections", o.fin.as_ref().unwrap().st.rejects as u64);
    c.nontrivial = o.ts.len() > 3;
}

fn c17_equilibrium(c: &mut Case) {
    let r = &mut c.rng;
    let a = alg(r);
    let nmax = if r.chance(0.8) { 4 } else { 10 };
    let n = r.int(1, nmax);
    let eq: Vec<f64> = (0..n).map(|_| r.sign() * r.log(1e-3, 1e3)).collect();
    let fast = if a == Alg::Radau { 1e6 } else { 50.0 };
    let k: Vec<f64> = (0..n).map(|_| r.log(0.1, fast)).collect();
    let mm: Vec<f64> = (0..n * n).map(|_| r.range(-0.3, 0.3)).collect();
    let g = r.range(0.0, 0.5);
    let (e1, k1, m1) = (eq.clone(), k.clone(), mm.clone());
    let f: F = Rc::new(move |t, u, du| {
        let s = 1.0 + g * t.sin();
        let d: Vec<f64> = (0..n).map(|i| u[i] - e1[i]).collect();
        for i in 0..n {
            let x: f64 = (0..n).map(|j| m1[i * n + j] * d[j]).sum();
            du[i] = s * (x - k1[i] * (d[i] + d[i] * d[i] * d[i]));
        }
    });
    let (e2, k2) = (eq.clone(), k.clone());
    let jac: F = Rc::new(move |t, u, df| {
        let s = 1.0 + g * t.sin();
        for i in 0..n {
            for j in 0..n {
                df[i * n + j] = s * mm[i * n + j];
            }
            let d = u[i] - e2[i];
            df[i * n + i] -= s * k2[i] * (1.0 + 3.0 * d * d);
        }
    });
    let t0 = r.range(-5.0, 5.0);
    let p = prob::custom("equilibrium", n, t0, t0 + r.sign() * r.log(0.1, 50.0), eq.clone(), f, jac);
    let span = (p.tf - p.t0).abs();
    let mut s = Setup::new(p, c17_opt(r, a, span), a);
    s.use_jac = r.chance(0.6);
    s.log = false;
    if r.chance(0.3) {
        s.opt.abstol = Some(1e-12);
        s.opt.reltol = Some(1e-12);
    }
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    c.desc = s.desc();
    let o = run(&s, &Mode::Integrate);
    if crashed(c, &o) {
        return;
    }
    let fin = o.fin.as_ref().unwrap();
    for k in 0..o.ts.len() {
        for i in 0..n {
            if !c.bound("equilibrium_drift", (o.us[k][i] - eq[i]).abs(), 1e-13 * eq[i].abs(), || format!("point {} component {} at t={:?}: {:?} left the equilibrium {:?}", k, i, o.ts[k], o.us[k][i], eq[i])) {
                return;
            }
        }
        c.add("equilibrium_steps", 1);
    }
    if fin.ret == Ret::DtLessThanMin || fin.ret == Ret::SingularMatrix {
        c.fail(format!("a run resting at an equilibrium ended with {:?} at t={:?}", fin.ret, fin.t));
        return;
    }
    c.nontrivial = o.ts.len() > 3;
}

fn c17_poly(c: &mut Case) {
    let r = &mut c.rng;
    let a = alg(r);
    let n = r.int(1, 5);
    let deg = r.int(0, 4);
    let co: Vec<Vec<f64>> = (0..n)
        .map(|_| {
            let s = r.log(1e-2, 1e2);
            (0..=deg).map(|_| s * r.range(-1.0, 1.0)).collect()
        })
        .collect();
    let c1 = co.clone();
    let f: F = Rc::new(move |t, _u, du| {
        for i in 0..c1.len() {
            du[i] = c1[i].iter().rev().fold(0.0, |x, y| x * t + y);
        }
    });
    let jac: F = Rc::new(move |_t, _u, df| df.iter_mut().for_each(|x| *x = 0.0));
    let t0 = r.range(-3.0, 3.0);
    let tf = r.range(-3.0, 3.0);
    if (tf - t0).abs() < 0.05 {
        return;
    }
    let u0: Vec<f64> = (0..n).map(|_| r.range(-5.0, 5.0)).collect();
    let p = prob::custom("polynomial", n, t0, tf, u0, f, jac);
    let span = (tf - t0).abs();
    let mut s = Setup::new(p, c17_opt(r, a, span), a);
    s.use_jac = r.chance(0.6);
    s.log = false;
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    c.desc = format!("{} coefficients {:?}", s.desc(), co);
    let o = run(&s, &Mode::Integrate);
    if crashed(c, &o) {
        return;
    }
    let prim = |i: usize, t: f64| -> (f64, f64) {
        let mut v = 0.0;
        let mut m = 0.0;
        for (j, x) in co[i].iter().enumerate() {
            let y = x * t.powi(j as i32 + 1) / (j as f64 + 1.0);
            v += y;
            m += y.abs() * (j as f64 + 2.0);
        }
        (v, m)
    };
    for k in 1..o.ts.len() {
        for i in 0..n {
            let (p0, m0) = prim(i, o.ts[k - 1]);
            let (p1, m1) = prim(i, o.ts[k]);
            let got = o.us[k][i] - o.us[k - 1][i];
            let tol = 4e-15 * (m0 + m1 + o.us[k][i].abs() + o.us[k - 1][i].abs());
            if !c.bound("polynomial", (got - (p1 - p0)).abs(), tol, || format!("step {} component {} from {:?} to {:?}: increment {:?}, exact {:?}", k, i, o.ts[k - 1], o.ts[k], got, p1 - p0)) {
                return;
            }
        }
        c.add("polynomial_steps", 1);
    }
    c.add("rejections", o.fin.as_ref().unwrap().st.rejects as u64);
    c.nontrivial = o.ts.len() > 3;
}

// ---------------------------------------------------------------------------------------------

fn c18(c: &mut Case) {
    let r = &mut c.rng;
    let a = alg(r);
    let kind = match (a, r.below(3)) {
        (_, 0) => Kind::Exact,
        (Alg::Radau, 1) => Kind::ExactStiff,
        _ => Kind::Any,
    };
    let mut p = loop {
        let p = gen(r, &GenCfg { kind, nmax: if a == Alg::Dp5 { 8 } else { 5 }, tmax: 15.0, scales: true });
        if p.smooth && (a == Alg::Radau || p.stiffness * (p.tf - p.t0).abs() < 200.0) {
            break p;
        }
    };
    let span = (p.tf - p.t0).abs();
    let mut opt = gen_opt(r, a, span, OptCfg { rtol_min: 1e-9, rtol_max: 1e-3, control: true, dtmax: true, dtstart: true });
    let e = opt.eff(a);
    opt.reltol = Some(e.reltol);
    opt.abstol = Some(e.abstol);
    opt.dtstart = Some(e.dtstart);
    opt.max_steps = Some(r.int(20, 400));
    let n = p.n;
    let what = r.below(5);
    if what == 3 {
        // no absolute tolerance: keep away from zero crossings of the scale itself
        opt.abstol = Some(0.0);
        p.u0.iter_mut().for_each(|x| {
            if *x == 0.0 {
                *x = 0.1
            }
        });
    }
    let mut s = Setup::new(p, opt, a);
    s.log = false;
    s.use_jac = what == 2 || what == 3 || r.chance(0.5);
    let mut q = s.clone();
    let mut perm: Vec<usize> = (0..n).collect();
    let mut us = vec![1.0; n];
    let mut tsc = 1.0;
    let mut m = 1;
    // units far from one: no constant of the solver's own may matter
    let wide = what >= 2 && r.chance(0.3);
    match what {
        0 => {
            perm = r.perm(n);
            q.prob = prob::permute(&s.prob, &perm);
            c.add("permuted", 1);
        }
        1 => {
            m = r.int(2, 4);
            q.prob = prob::replicate(&s.prob, m);
            c.add("replicated", 1);
        }
        2 => {
            let x = if wide { 250 } else { 20 };
            let k = 2f64.powi(r.int(0, 2 * x) as i32 - x as i32);
            us = vec![k; n];
            q.prob = prob::scale(&s.prob, &us);
            q.opt.abstol = Some(s.opt.abstol.unwrap() * k);
            c.add("state_units", 1);
        }
        3 => {
            // widely different units spoil the pivoting of the implicit solver
            let x = if a == Alg::Radau { 2 } else if wide { 120 } else { 10 };
            us = (0..n).map(|_| 2f64.powi(r.int(0, 2 * x) as i32 - x as i32)).collect();
            q.prob = prob::scale(&s.prob, &us);
            c.add("component_units", 1);
        }
        _ => {
            let x = if wide { 120 } else { 10 };
            tsc = 2f64.powi(r.int(0, 2 * x) as i32 - x as i32);
            q.prob = prob::time_scale(&s.prob, tsc);
            q.opt.dtstart = Some(s.opt.dtstart.unwrap() * tsc);
            q.opt.dtmax = s.opt.dtmax.map(|x| x * tsc);
            c.add("time_units", 1);
        }
    }
    c.add("far_units", wide as u64);
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    c.desc = format!("variant {} x{} {:?}: {}", what, m, if what == 0 { perm.iter().map(|&x| x as f64).collect() } else { us.clone() }, s.desc());
    // powers of two commute with every rounding, other changes of the formulation do not
    let exact = what == 2 || what == 4 || what == 3 && a == Alg::Dp5;
    let mut map = Map { perm: vec![0; n], us, tsc, m };
    for (j, &i) in perm.iter().enumerate() {
        map.perm[i] = j;
    }
    match twin(c, &s, &q, &map, exact) {
        Twin::Other(msg) if a == Alg::Radau && !exact => {
            // the implicit solver decides by rounding-level quantities now and then: a dependence
            // on the formulation is one that stays when the tolerance is moved a little
            let mut bad = 0;
            for _ in 0..6 {
                let x = c.rng.range(0.7, 1.4);
                let (mut s, mut q) = (s.clone(), q.clone());
                for o in [&mut s.opt, &mut q.opt] {
                    o.reltol = Some(o.reltol.unwrap() * x);
                }
                if let Twin::Other(_) = twin(c, &s, &q, &map, exact) {
                    bad += 1;
                }
            }
            c.add("repeated", 1);
            if bad >= 3 {
                c.fail(format!("{} (and {} times out of 6 at nearby tolerances)", msg, bad));
            }
        }
        Twin::Other(msg) => c.fail(msg),
        Twin::Exact => c.add("exact_twins", 1),
        Twin::Close => c.add("close_twins", 1),
        Twin::Sensitive => c.add("sensitive", 1),
        Twin::Crashed => {}
    }
}

/// Where component i of the original is found in the transformed problem.
struct Map {
    perm: Vec<usize>,
    us: Vec<f64>,
    tsc: f64,
    m: usize,
}

enum Twin {
    Exact,
    Close,
    Sensitive,
    Crashed,
    Other(String),
}

/// How far two runs are apart.
struct Dist {
    same: bool,
    time: f64,
    state: f64,
}

fn dist(a: &Outcome, b: &Outcome, map: &Map, span: f64) -> Dist {
    let (f, g) = (a.fin.as_ref().unwrap(), b.fin.as_ref().unwrap());
    let mut d = Dist { same: f.ret == g.ret && a.ts.len() == b.ts.len() && f.st == g.st, time: 0.0, state: 0.0 };
    if !d.same {
        return d;
    }
    let n = map.perm.len();
    for i in 0..n {
        let um = a.us.iter().map(|u| u[i].abs()).fold(0.0, f64::max);
        for k in 0..a.ts.len() {
            d.time = d.time.max((a.ts[k] - b.ts[k] / map.tsc).abs() / span);
            for copy in 0..map.m {
                let x = b.us[k][copy * n + map.perm[i]] / map.us[i];
                if x != a.us[k][i] {
                    d.state = d.state.max((a.us[k][i] - x).abs() / um);
                }
            }
        }
    }
    d
}

fn twin(c: &mut Case, s: &Setup, q: &Setup, map: &Map, exact: bool) -> Twin {
    let o0 = run(s, &Mode::Integrate);
    let o1 = run(q, &Mode::Integrate);
    if crashed(c, &o0) || crashed(c, &o1) {
        return Twin::Crashed;
    }
    let (f, g) = (o0.fin.as_ref().unwrap(), o1.fin.as_ref().unwrap());
    let span = (s.prob.tf - s.prob.t0).abs();
    c.add("rejections", f.st.rejects as u64);
    c.nontrivial |= o0.ts.len() > 3;
    let show = || format!("{:?} {} points {:?}, transformed {:?} {} points {:?}", f.ret, o0.ts.len(), f.st, g.ret, o1.ts.len(), g.st);
    let d = dist(&o0, &o1, map, span);
    if exact {
        return if d.same && d.time <= 1e-10 && d.state <= 1e-9 { Twin::Exact } else { Twin::Other(format!("apart by {:e} in time, {:e} in state: {}", d.time, d.state, show())) };
    }
    if d.same && d.time <= 1e-11 && d.state <= 1e-11 {
        return Twin::Close;
    }
    // how much do such differences come from rounding? perturb the original run at that level
    let plain = Map { perm: (0..s.prob.n).collect(), us: vec![1.0; s.prob.n], tsc: 1.0, m: 1 };
    let mut lim = Dist { same: true, time: 1e-11, state: 1e-11 };
    let top = if s.alg == Alg::Radau && !s.use_jac { 1e-14 } else { 1e-12 };
    for _ in 0..24 {
        let eps = c.rng.log(2e-16, top);
        let mut z = s.clone();
        z.prob.u0.iter_mut().for_each(|x| *x *= 1.0 + eps * c.rng.range(-1.0, 1.0));
        z.prob.f = noisy(&s.prob.f, eps, c.rng.u64());
        z.prob.jac = noisy(&s.prob.jac, eps, c.rng.u64());
        let oz = run(&z, &Mode::Integrate);
        if crashed(c, &oz) {
            return Twin::Crashed;
        }
        let x = dist(&o0, &oz, &plain, span);
        if !x.same {
            return Twin::Sensitive;
        }
        lim.time = lim.time.max(x.time * 30.0);
        lim.state = lim.state.max(x.state * 30.0);
    }
    let work = |o: &Outcome| o.fin.as_ref().map(|f| (f.ret, f.st.steps, f.st.accepts, f.st.rejects)).unwrap();
    if s.alg == Alg::Radau && !d.same && o0.ts.len() == o1.ts.len() && work(&o0) == work(&o1) {
        // the same steps with a matrix kept here and renewed there: convergence rates of linear
        // problems are rounding errors divided by each other
        return Twin::Sensitive;
    }
    if !d.same {
        return Twin::Other(format!("{}; rounding-level perturbations never do that", show()));
    }
    if d.time > lim.time || d.state > lim.state {
        return Twin::Other(format!("apart by {:e} in time, {:e} in state, rounding-level perturbations only by {:e}, {:e}: {}", d.time, d.state, lim.time / 30.0, lim.state / 30.0, show()));
    }
    Twin::Close
}

/// `f` with a relative error of at most `eps` in everything it returns.
fn noisy(f: &F, eps: f64, seed: u64) -> F {
    let state = Cell::new(seed);
    let f = f.clone();
    Rc::new(move |t, u, du| {
        f(t, u, du);
        for x in du.iter_mut() {
            let v = state.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            state.set(v);
            *x *= 1.0 + eps * ((v >> 33) as f64 / (1u64 << 30) as f64 - 1.0);
        }
    })
}
