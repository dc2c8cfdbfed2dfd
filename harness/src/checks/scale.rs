//! Runs of many steps, shared by the checks of record, counts and budgets.

use super::life::crashed;
use crate::fw::Case;
use crate::opts::Opt;
use crate::prob::{custom, F};
use crate::run::{run, Alg, Mode, Ret, Setup};
use std::rc::Rc;

/// Whether this case is one of the few long ones.
pub fn marathon_due(c: &Case, every: u64) -> bool {
    c.idx % every == 17
}

/// Slow decay in tens of thousands of steps of the same size: more than sixteen bits count, and the
/// default budget ends some of them. Everything about such a run is known beforehand.
pub fn marathon(c: &mut Case) {
    let r = &mut c.rng;
    let a = if r.chance(0.5) { Alg::Dp5 } else { Alg::Radau };
    let n = r.int(1, 3);
    let rate: Vec<f64> = (0..n).map(|_| r.range(0.1, 1.0)).collect();
    let u0: Vec<f64> = (0..n).map(|_| r.sign() * r.range(0.5, 2.0)).collect();
    let whole = r.int(66_000, 130_000);
    let t0 = r.range(-1.0, 1.0);
    let d = r.sign();
    let tf = t0 + d;
    let (r1, r2) = (rate.clone(), rate.clone());
    let f: F = Rc::new(move |_t, u, du| {
        for i in 0..u.len() {
            du[i] = -d * r1[i] * u[i];
        }
    });
    let jac: F = Rc::new(move |_t, u, df| {
        let n = u.len();
        for i in 0..n {
            for j in 0..n {
                df[i * n + j] = if i == j { -d * r2[i] } else { 0.0 };
            }
        }
    });
    let h = (tf - t0).abs() / (whole as f64 - 0.5);
    let max = *r.pick(&[None, None, Some(whole), Some(whole - 1), Some(whole - 700), Some(200_000), Some(usize::MAX)]);
    let opt = Opt { dtstart: Some(h), dtmax: Some(h), max_steps: max, ..Opt::default() };
    let mut s = Setup::new(custom("marathon", n, t0, tf, u0.clone(), f, jac), opt, a);
    s.log = false;
    s.budget = 20_000_000;
    s.use_jac = r.chance(0.5);
    if r.chance(0.3) {
        s.cb = Some(vec![]);
    }
    c.desc = s.desc();
    let mode = c.rng.pick(&[Mode::Integrate, Mode::IntoIter, Mode::MutIter]).clone();
    let o = run(&s, &mode);
    if crashed(c, &o) {
        return;
    }
    let fin = o.fin.as_ref().unwrap();
    let limit = max.unwrap_or(100_000);
    let (want, ret) = if whole <= limit { (whole, Ret::Success) } else { (limit, Ret::MaxIters) };
    if fin.ret != ret || fin.st.steps != want || fin.st.accepts != want || fin.st.rejects != 0 {
        c.fail(format!("{} steps of the same size, budget {}: ended with {:?} after {} steps, {} accepted, {} rejected", whole, limit, fin.ret, fin.st.steps, fin.st.accepts, fin.st.rejects));
        return;
    }
    if o.ts.len() != want + 1 || o.us.len() != want + 1 {
        c.fail(format!("{} steps but {} times and {} states recorded", want, o.ts.len(), o.us.len()));
        return;
    }
    for k in 0..=want {
        let t = if k == whole { tf } else { t0 + d * h * k as f64 };
        let e = (o.ts[k] - t).abs();
        if !(e <= 1e-10) || k > 0 && !((o.ts[k] - o.ts[k - 1]) * d > 0.0) {
            c.fail(format!("point {} recorded at {:?}, expected {:?}", k, o.ts[k], t));
            return;
        }
        for i in 0..n {
            let x = u0[i] * (-d * rate[i] * (o.ts[k] - t0)).exp();
            if !((o.us[k][i] - x).abs() <= 1e-9 * u0[i].abs()) {
                c.fail(format!("point {} component {}: {:?}, exact {:?}", k, i, o.us[k][i], x));
                return;
            }
        }
    }
    let direct = a == Alg::Dp5 || s.use_jac;
    let calls = o.rhs_calls;
    if direct && (fin.st.fevals as u64 != calls || a == Alg::Radau && fin.st.jevals as u64 != o.jac_calls) || a == Alg::Dp5 && s.cb.is_none() && fin.st.fevals != 6 * want {
        c.fail(format!("{} evaluations and {} Jacobians counted, {} and {} made", fin.st.fevals, fin.st.jevals, calls, o.jac_calls));
        return;
    }
    // the call that finds the budget exhausted is a step without an attempt
    let spare = (a == Alg::Radau && ret == Ret::MaxIters) as u64;
    if s.cb.is_some() && (o.cb_calls < want as u64 || o.cb_calls > want as u64 + spare) {
        c.fail(format!("{} steps but the callback ran {} times", want, o.cb_calls));
        return;
    }
    c.add("marathon", 1);
    c.add(if a == Alg::Dp5 { "dp5" } else { "radau" }, 1);
    c.nontrivial = true;
}
