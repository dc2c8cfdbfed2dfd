//! C20, C22: configuration read back, and robustness against anything a user function returns.

use super::life::{alg, crashed, gen_prob};
use super::step::gen_cb;
use crate::fw::{Case, Spec};
use crate::opts::Opt;
use crate::prob::{self, F};
use crate::rng::Rng;
use crate::run::{run, Alg, CbAct, EvKind, Fault, Mode, Ret, Setup};
use std::cell::Cell;
use std::rc::Rc;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C20",
            level: "exploration",
            rule: "random subsets and orders of all builder calls (some options set twice) with random values, both algorithms, dimensions 1..40, spans of either direction; non-trivial: at least 3 options set and the run evaluated the user functions",
            quick: 300000,
            thorough: 3200000,
            case: c20,
            require: &["options_set", "defaults_seen", "set_twice", "derived_fnewt", "given_fnewt", "user_calls", "jacobian_calls", "backward", "dp5", "radau"],
            assumptions: &[],
        },
        Spec {
            id: "C22",
            level: "exploration",
            rule: "right-hand sides and Jacobians returning huge, tiny, infinite and NaN values at random, extreme options, dimensions 1..20, all ways of driving the integrator, overflow checks and debug assertions on, repeated under AddressSanitizer; non-trivial: at least 2 steps",
            quick: 60000,
            thorough: 600000,
            case: c22,
            require: &["steps", "tame", "long_runs", "wild_values", "huge_spans", "callbacks", "success", "failed", "dp5", "radau"],
            assumptions: &["memory errors are those AddressSanitizer (and, in the thorough tier, Miri) can see"],
        },
    ]
}

fn some<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(0.5) {
        Some(f(r))
    } else {
        None
    }
}

fn random_opt(r: &mut Rng, a: Alg, p: f64) -> Opt {
    let dp = a == Alg::Dp5;
    let mut o = Opt {
        reltol: some(r, |r| if r.chance(0.1) { r.log(3e-15, 1e-12) } else { r.log(1e-13, 1e-1) }),
        abstol: some(r, |r| if r.chance(0.1) { 0.0 } else { r.log(1e-16, 1e2) }),
        dense: some(r, |r| r.chance(0.5)),
        dtstart: some(r, |r| r.log(1e-12, 1e2)),
        dtmax: some(r, |r| r.log(1e-3, 1e3)),
        max_steps: some(r, |r| r.int(1, 1000000)),
        max_newt_iter: some(r, |r| r.int(1, 50)),
        max_stiff: some(r, |r| r.int(0, 5000)),
        modern_pred: some(r, |r| r.chance(0.5)),
        safe: some(r, |r| r.range(0.1, 0.99)),
        facr: some(r, |r| if dp { r.range(1.1, 20.0) } else { r.range(0.05, 0.9) }),
        facl: some(r, |r| if dp { r.range(0.05, 0.9) } else { r.range(1.1, 20.0) }),
        quot1: some(r, |r| r.range(0.5, 1.0)),
        quot2: some(r, |r| r.range(1.0, 2.0)),
        beta: some(r, |r| r.range(0.0, 0.2)),
        fnewt: some(r, |r| if r.chance(0.3) { *r.pick(&[0.0, -1.0, -1e-3]) } else { r.log(1e-6, 0.5) }),
        use_ext_col: some(r, |r| r.chance(0.5)),
        hess: some(r, |r| r.chance(0.5)),
        theta: some(r, |r| r.range(-1.0, 1.0)),
    };
    if !r.chance(p) {
        // sometimes almost nothing is set
        let keep = r.below(19);
        let all = o.clone();
        o = Opt::default();
        match keep {
            0 => o.reltol = all.reltol,
            1 => o.abstol = all.abstol,
            2 => o.dense = all.dense,
            3 => o.dtstart = all.dtstart,
            4 => o.dtmax = all.dtmax,
            5 => o.max_steps = all.max_steps,
            6 => o.max_newt_iter = all.max_newt_iter,
            7 => o.max_stiff = all.max_stiff,
            8 => o.modern_pred = all.modern_pred,
            9 => o.safe = all.safe,
            10 => o.facr = all.facr,
            11 => o.facl = all.facl,
            12 => o.quot1 = all.quot1,
            13 => o.quot2 = all.quot2,
            14 => o.beta = all.beta,
            15 => o.fnewt = all.fnewt,
            16 => o.use_ext_col = all.use_ext_col,
            17 => o.hess = all.hess,
            _ => o.theta = all.theta,
        }
    }
    o
}

fn c20(c: &mut Case) {
    let r = &mut c.rng;
    let a = alg(r);
    let n = if r.chance(0.8) { r.int(1, 5) } else { r.int(1, 40) };
    let u0: Vec<f64> = (0..n).map(|_| if r.chance(0.05) { *r.pick(&[0.0, -0.0, 1e-310, 1e300, -1e-30]) } else { r.sign() * r.log(1e-5, 1e5) }).collect();
    let k: Vec<f64> = (0..n).map(|_| r.range(0.1, 2.0)).collect();
    let k2 = k.clone();
    let f: F = Rc::new(move |t, u, du| {
        for i in 0..u.len() {
            du[i] = -k[i] * u[i] + t.cos();
        }
    });
    let jac: F = Rc::new(move |_t, _u, df| {
        let n = k2.len();
        for i in 0..n {
            for j in 0..n {
                df[i * n + j] = if i == j { -k2[i] } else { 0.0 };
            }
        }
    });
    let t0 = if r.chance(0.3) { 0.0 } else { r.range(-10.0, 10.0) };
    let mut tf = if r.chance(0.2) { 0.0 } else { r.range(-10.0, 10.0) };
    if tf == t0 {
        tf = t0 + 1.0;
    }
    let p = prob::custom("config", n, t0, tf, u0.clone(), f, jac);
    let mut s = Setup::new(p, random_opt(r, a, 0.8), a);
    s.order = r.u64() | 1;
    s.use_jac = r.chance(0.5);
    s.gain = r.range(0.1, 1.0);
    if r.chance(0.3) {
        s.cb = Some(vec![]);
    }
    if r.chance(0.3) {
        // options given twice: the later value counts, and only for options set again
        let first = random_opt(r, a, 1.0);
        macro_rules! again {
            ($($x:ident),*) => { Opt { $( $x: s.opt.$x.as_ref().and(first.$x.clone()), )* } };
        }
        s.pre = Some(again!(reltol, abstol, dense, dtstart, dtmax, max_steps, max_newt_iter, max_stiff, modern_pred, safe, facr, facl, quot1, quot2, beta, fnewt, use_ext_col, hess, theta));
    }
    c.desc = format!("{} set before {:?}", s.desc(), s.pre.as_ref().map(|x| x.desc()));
    let want = s.opt.eff(a);
    s.max_calls = 6;
    s.budget = 30_000;
    let o = run(&s, &Mode::Steps);
    if let Some(p) = &o.panic {
        c.fail(format!("panic: {}", p));
        return;
    }
    if let Some(m) = &o.bad_args {
        c.fail(m.clone());
        return;
    }
    let got = o.opts_seen.as_ref().unwrap();
    let b = o.build.as_ref().unwrap();
    let mut set = 0;
    let mut bad = vec![];
    macro_rules! cmp {
        ($($x:ident),*) => { $(
            if got.$x != want.$x {
                bad.push(format!("{} is {:?}, expected {:?}", stringify!($x), got.$x, want.$x));
            }
            if s.opt.$x.is_some() { set += 1; }
        )* };
    }
    cmp!(dense, dtstart, dtmax, max_steps, max_newt_iter, max_stiff, modern_pred, safe, facr, facl, quot1, quot2, beta, use_ext_col, hess);
    let near = |x: f64, y: f64| (x - y).abs() <= 1e-13 * y.abs();
    let (wr, wa, wf) = if a == Alg::Radau {
        let (r, t) = s.opt.radau_tol();
        (r, t, s.opt.radau_fnewt())
    } else {
        (want.reltol, want.abstol, want.fnewt)
    };
    let exact = a == Alg::Dp5;
    for (name, g, w, ex) in [("reltol", got.reltol, wr, exact), ("abstol", got.abstol, wa, exact), ("fnewt", got.fnewt, wf, exact || want.fnewt > 0.0)] {
        if ex && g != w || !near(g, w) {
            bad.push(format!("{} is {:?}, expected {:?}", name, g, w));
        }
    }
    if got.theta != want.theta {
        bad.push(format!("theta is {:?}, expected {:?}", got.theta, want.theta));
    }
    if b.t.to_bits() != t0.to_bits() || b.tfinal.to_bits() != tf.to_bits() || b.tdir != (tf - t0).signum() {
        bad.push(format!("time span ({:?}, {:?}) direction {} expected ({:?}, {:?})", b.t, b.tfinal, b.tdir, t0, tf));
    }
    let eq = |x: &[f64]| x.len() == n && x.iter().zip(&u0).all(|(x, y)| x.to_bits() == y.to_bits());
    if !eq(&b.u) || b.nsol != 1 || b.nsol_u != 1 || !eq(&b.last_u) || b.last_t.to_bits() != t0.to_bits() {
        bad.push(format!("state {:?} and {} recorded points, last {:?} at {:?}", b.u, b.nsol, b.last_u, b.last_t));
    }
    if !eq(&b.uprev) || b.tprev.to_bits() != t0.to_bits() || b.dtprev.to_bits() != b.dt.to_bits() {
        bad.push(format!("before the first step the previous state is {:?} at {:?} with step {:?} (next step {:?})", b.uprev, b.tprev, b.dtprev, b.dt));
    }
    let par = o.params_seen.as_ref().unwrap();
    if par.gain != s.gain {
        bad.push(format!("parameters hold {:?}, given {:?}", par.gain, s.gain));
    }
    if b.ret != Ret::Continue || b.st.steps != 0 || b.st.accepts != 0 || b.st.rejects != 0 {
        bad.push(format!("a new integrator is {:?} with statistics {:?}", b.ret, b.st));
    }
    // what the integrator's right-hand side and Jacobian returned is what the user's return
    for e in &o.build_evs {
        if e.gain != s.gain || !(e.t - t0).is_finite() {
            bad.push(format!("called with parameters {:?} at {:?} while building", e.gain, e.t));
        }
    }
    if a == Alg::Radau && s.use_jac != (o.jac_calls + o.build_evs.iter().filter(|e| e.kind == EvKind::Jac).count() as u64 > 0) && o.rhs_calls > 0 {
        bad.push(format!("Jacobian supplied: {}, called {} times", s.use_jac, o.jac_calls));
    }
    // (calls are counted unless the run was cut off before its first step was done)
    if s.cb.is_some() != (o.cb_calls > 0) && (o.budget_panic_count == 0 || s.cb.is_none()) {
        bad.push(format!("callback supplied: {}, called {} times", s.cb.is_some(), o.cb_calls));
    }
    for m in bad {
        c.fail(m);
    }
    c.add("options_set", set as u64);
    c.add("defaults_seen", 18 - set.min(18) as u64);
    c.add("set_twice", s.pre.is_some() as u64);
    c.add("derived_fnewt", (a == Alg::Radau && want.fnewt <= 0.0) as u64);
    c.add("given_fnewt", (a == Alg::Radau && want.fnewt > 0.0) as u64);
    c.add("user_calls", o.rhs_calls);
    c.add("jacobian_calls", o.jac_calls);
    c.add("backward", (tf < t0) as u64);
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    c.nontrivial = set >= 3 && o.rhs_calls > 0;
}

fn wild(r: &mut Rng) -> f64 {
    match r.below(16) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => f64::MAX,
        4 => -f64::MAX,
        5 => f64::MIN_POSITIVE,
        6 => 5e-324,
        7 => -0.0,
        8 => 0.0,
        9 => r.sign() * r.log(1e-300, 1e300),
        10 => r.sign() * r.log(1e-20, 1e20),
        _ => r.sign() * r.log(1e-3, 1e3),
    }
}

/// Ordinary problems, longer runs.
fn c22_tame(c: &mut Case) {
    let r = &mut c.rng;
    let a = alg(r);
    let p = gen_prob(r, 0.1, 100.0);
    let mut opt = random_opt(r, a, 0.9);
    opt.max_steps = Some(*r.pick(&[300, 1500, 3000, usize::MAX]));
    if opt.max_steps == Some(usize::MAX) {
        opt.reltol = Some(1e-4);
        opt.abstol = Some(1e-4);
        opt.dtmax = None;
    }
    let mut s = Setup::new(p, opt, a);
    s.log = false;
    s.use_jac = r.chance(0.6);
    s.read_sol = r.chance(0.5);
    s.budget = 100_000;
    if r.chance(0.2) {
        s.cb = Some(gen_cb(r, s.prob.n, &s.prob.u0, 0.7));
        c.add("callbacks", 1);
    }
    c.desc = s.desc();
    let mode = c.rng.pick(&[Mode::Steps, Mode::Integrate, Mode::IntoIter, Mode::MutIter]).clone();
    let o = run(&s, &mode);
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    if let Some(m) = &o.panic {
        c.fail(format!("panic: {}", m));
        return;
    }
    c.add("tame", 1);
    let fin = o.fin.as_ref().unwrap();
    c.add("steps", fin.st.steps as u64);
    c.add("long_runs", (fin.st.steps >= 1000) as u64);
    c.add(if fin.ret == Ret::Success { "success" } else { "failed" }, 1);
    c.nontrivial = fin.st.steps >= 2;
}

fn c22(c: &mut Case) {
    // short cases for slow interpreters
    let small = std::env::var("VMON_SMALL").is_ok();
    if !small && c.rng.chance(0.25) {
        return c22_tame(c);
    }
    let r = &mut c.rng;
    let a = alg(r);
    let n = if small || r.chance(0.7) { r.int(1, 4) } else { r.int(1, 20) };
    // a decent model underneath, wild values on top of it with some probability per call
    let p = *r.pick(&[0.0, 0.0, 0.0, 0.01, 0.1, 1.0]);
    let pj = *r.pick(&[0.0, 0.0, 0.1, 1.0]);
    let lam: Vec<f64> = (0..n).map(|_| r.sign() * r.log(1e-3, 1e6)).collect();
    let pw = r.int(0, 3) as i32;
    let state = Rc::new(Cell::new(r.u64()));
    let hits = Rc::new(Cell::new(0u64));
    let (s1, h1, l1) = (state.clone(), hits.clone(), lam.clone());
    let f: F = Rc::new(move |t, u, du| {
        let n = u.len();
        let mut r = Rng::new(s1.get());
        for i in 0..n {
            du[i] = -l1[i] * u[i].powi(pw) + u[(i + 1) % n] * t.sin();
        }
        if r.chance(p) {
            let k = r.below(n);
            du[k] = wild(&mut r);
            h1.set(h1.get() + 1);
        }
        s1.set(r.u64());
    });
    let (s2, h2) = (state.clone(), hits.clone());
    let jac: F = Rc::new(move |t, u, df| {
        let n = u.len();
        let mut r = Rng::new(s2.get());
        for i in 0..n {
            for j in 0..n {
                df[i * n + j] = if j == (i + 1) % n { t.sin() } else { 0.0 };
            }
            df[i * n + i] -= lam[i] * pw as f64 * u[i].powi(pw - 1);
        }
        if r.chance(pj) {
            for _ in 0..r.int(1, n * n) {
                let k = r.below(n * n);
                df[k] = wild(&mut r);
            }
            h2.set(h2.get() + 1);
        }
        s2.set(r.u64());
    });
    let u0: Vec<f64> = (0..n).map(|_| if r.chance(0.1) { wild(r) } else { r.range(-3.0, 3.0) }).map(|x| if x.is_finite() { x } else { 1.0 }).collect();
    let t0 = *r.pick(&[0.0, 0.0, 1.0, -3.0, 1e6, -1e12, 1e300]);
    let span = match r.below(5) {
        0 => 1e-300,
        1 => 1e300,
        2 => r.log(1e-12, 1e12),
        _ => r.range(0.1, 10.0),
    };
    let mut tf = t0 + r.sign() * span;
    if tf == t0 {
        tf = t0 + if t0 == 0.0 { 1.0 } else { t0.abs() };
    }
    let pr = prob::custom("wild", n, t0, tf, u0, f, jac);
    let mut opt = random_opt(r, a, 0.9);
    if r.chance(0.3) {
        opt.reltol = Some(*r.pick(&[1e-300, 1e-16, 1.0, 1e3, 1e300]));
    }
    if r.chance(0.2) {
        opt.abstol = Some(*r.pick(&[0.0, 1e-300, 1e300]));
    }
    if r.chance(0.3) {
        opt.dtstart = Some(*r.pick(&[5e-324, 1e-300, 1e-30, 1e30, 1e300, f64::MAX]));
    }
    if r.chance(0.3) {
        opt.dtmax = Some(*r.pick(&[1e-300, 1e-12, 1e300, f64::INFINITY]));
    }
    if r.chance(0.3) {
        opt.max_newt_iter = Some(r.int(0, 3));
    }
    if r.chance(0.3) {
        opt.max_stiff = Some(r.below(3));
    }
    if r.chance(0.2) {
        opt.fnewt = Some(*r.pick(&[1e-300, 1e300, 1.0, 0.0]));
    }
    opt.max_steps = Some(if small { r.int(1, 8) } else { r.int(1, 60) });
    let mut s = Setup::new(pr, opt, a);
    s.log = false;
    s.use_jac = r.chance(0.6);
    s.order = r.u64();
    s.read_sol = r.chance(0.3);
    s.poke = r.below(3);
    s.budget = if small { 400 } else { 200_000 };
    for _ in 0..r.below(3) {
        s.faults.push(Fault { at: r.below(200) as u64, comp: r.below(n), val: wild(r) });
    }
    if r.chance(0.4) {
        let mut v = vec![];
        for _ in 0..r.below(4) {
            let act = match r.below(4) {
                0 => CbAct::SetU((0..n).map(|_| wild(r)).collect()),
                1 => CbAct::ScaleU(wild(r)),
                2 => CbAct::SetGain(r.range(0.1, 2.0)),
                _ => CbAct::Stop(Ret::Failure),
            };
            v.push((r.int(2, 20), act));
        }
        s.cb = Some(v);
        c.add("callbacks", 1);
    }
    c.desc = s.desc();
    let mode = c.rng.pick(&[Mode::Steps, Mode::Integrate, Mode::IntoIter, Mode::MutIter, Mode::StepsThenIntegrate(3)]).clone();
    let o = run(&s, &mode);
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    if o.over_budget {
        c.inconclusive = Some("did not end within the budget of user-function calls (termination is the subject of another property)".into());
        return;
    }
    if let Some(m) = &o.panic {
        c.fail(format!("panic: {}", m));
        return;
    }
    if crashed(c, &o) {
        return;
    }
    let fin = o.fin.as_ref().unwrap();
    c.add("steps", fin.st.steps as u64);
    c.add("wild_values", hits.get());
    c.add("huge_spans", (span > 1e100) as u64);
    c.add(if fin.ret == Ret::Success { "success" } else { "failed" }, 1);
    c.nontrivial = fin.st.steps >= 2;
}
