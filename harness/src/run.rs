//! Instrumented execution of the integrators: every user-function call is logged, public state is
//! sampled before and after every step, panics and runaway evaluation are contained.

use crate::opts::{Eff, Opt};
use crate::prob::Prob;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alg {
    Dp5,
    Radau,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ret {
    Continue,
    Success,
    MaxIters,
    DtLessThanMin,
    Stiff,
    SingularMatrix,
    Failure,
}

pub fn ret(c: &OdeRetCode) -> Ret {
    match c {
        OdeRetCode::Continue => Ret::Continue,
        OdeRetCode::Success => Ret::Success,
        OdeRetCode::MaxIters => Ret::MaxIters,
        OdeRetCode::DtLessThanMin => Ret::DtLessThanMin,
        OdeRetCode::Stiff => Ret::Stiff,
        OdeRetCode::SingularMatrix => Ret::SingularMatrix,
        OdeRetCode::Failure => Ret::Failure,
    }
}

pub fn code(r: Ret) -> OdeRetCode {
    match r {
        Ret::Continue => OdeRetCode::Continue,
        Ret::Success => OdeRetCode::Success,
        Ret::MaxIters => OdeRetCode::MaxIters,
        Ret::DtLessThanMin => OdeRetCode::DtLessThanMin,
        Ret::Stiff => OdeRetCode::Stiff,
        Ret::SingularMatrix => OdeRetCode::SingularMatrix,
        Ret::Failure => OdeRetCode::Failure,
    }
}

pub trait MAlg: OdeAlgorithm {
    const KIND: Alg;
    fn make() -> Self;
    #[cfg(verif_hooks)]
    fn dense(i: &mut OdeIntegrator<Par, Self>, t: f64) -> Vec<f64>
    where
        Self: Sized;
}
impl MAlg for DormandPrince5 {
    const KIND: Alg = Alg::Dp5;
    fn make() -> Self {
        DormandPrince5
    }
    #[cfg(verif_hooks)]
    fn dense(i: &mut OdeIntegrator<Par, Self>, t: f64) -> Vec<f64> {
        cyphus_diffeq::verif_hooks::dense_dp5(i, t).to_vec()
    }
}
impl MAlg for Radau5 {
    const KIND: Alg = Alg::Radau;
    fn make() -> Self {
        Radau5
    }
    #[cfg(verif_hooks)]
    fn dense(i: &mut OdeIntegrator<Par, Self>, t: f64) -> Vec<f64> {
        cyphus_diffeq::verif_hooks::dense_radau(i, t).to_vec()
    }
}

/// User parameters: the right-hand side is gain * f(t, u).
#[derive(Clone, Debug, PartialEq)]
pub struct Par {
    pub tag: u64,
    pub gain: f64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Stats {
    pub steps: usize,
    pub fevals: usize,
    pub jevals: usize,
    pub decs: usize,
    pub solves: usize,
    pub accepts: usize,
    pub rejects: usize,
}

fn stats(s: &OdeStatistics) -> Stats {
    Stats {
        steps: s.steps,
        fevals: s.function_evals,
        jevals: s.jacobian_evals,
        decs: s.decompositions,
        solves: s.linear_solves,
        accepts: s.accepts,
        rejects: s.rejects,
    }
}

/// Public state of an integrator.
#[derive(Clone, Debug)]
pub struct Snap {
    pub t: f64,
    pub u: Vec<f64>,
    pub dt: f64,
    pub tprev: f64,
    pub uprev: Vec<f64>,
    pub dtprev: f64,
    pub tdir: f64,
    pub tfinal: f64,
    pub ret: Ret,
    pub st: Stats,
    pub nsol: usize,
    pub nsol_u: usize,
    pub last_t: f64,
    pub last_u: Vec<f64>,
    pub gain: f64,
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

impl Snap {
    pub fn same(&self, o: &Snap) -> bool {
        self.t.to_bits() == o.t.to_bits()
            && bits(&self.u) == bits(&o.u)
            && self.dt.to_bits() == o.dt.to_bits()
            && self.tprev.to_bits() == o.tprev.to_bits()
            && bits(&self.uprev) == bits(&o.uprev)
            && self.dtprev.to_bits() == o.dtprev.to_bits()
            && self.ret == o.ret
            && self.st == o.st
            && self.nsol == o.nsol
            && self.nsol_u == o.nsol_u
            && self.last_t.to_bits() == o.last_t.to_bits()
            && bits(&self.last_u) == bits(&o.last_u)
    }
}

fn snap<A: OdeAlgorithm>(i: &OdeIntegrator<Par, A>) -> Snap {
    Snap {
        t: i.t,
        u: i.u.to_vec(),
        dt: i.dt,
        tprev: i.tprev,
        uprev: i.uprev.to_vec(),
        dtprev: i.dtprev,
        tdir: i.tdir,
        tfinal: i.tfinal,
        ret: ret(&i.sol.retcode),
        st: stats(&i.stats),
        nsol: i.sol.ts.len(),
        nsol_u: i.sol.us.len(),
        last_t: *i.sol.ts.last().unwrap_or(&f64::NAN),
        last_u: i.sol.us.last().map(|x| x.to_vec()).unwrap_or_default(),
        gain: i.params.gain,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EvKind {
    Rhs,
    Jac,
    Cb,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub kind: EvKind,
    pub t: f64,
    pub u: Vec<f64>,
    /// du for Rhs, row-major Jacobian for Jac, uprev for Cb.
    pub out: Vec<f64>,
    pub gain: f64,
    pub faulted: bool,
    /// For Cb: previous time, newest recorded time, number of recorded points, accepts.
    pub tprev: f64,
    pub last_t: f64,
    pub nsol: usize,
    pub last_u: Vec<f64>,
    pub accepts: usize,
}

#[derive(Clone, Debug)]
pub enum CbAct {
    Nothing,
    SetU(Vec<f64>),
    ScaleU(f64),
    /// One component only.
    ScaleOne(usize, f64),
    SetGain(f64),
    /// Times this, at most the maximum step in force.
    ScaleDt(f64),
    /// The rest of the interval times this.
    ScaleRest(f64),
    /// Options given here, written into the options in force.
    SetOpts(Opt),
    Stop(Ret),
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// Right-hand-side call index (counted from the end of build()).
    pub at: u64,
    pub comp: usize,
    pub val: f64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Steps,
    Integrate,
    IntoIter,
    MutIter,
    StepsThenIntegrate(usize),
    /// So many steps, so many items of an iterator (consuming or not), then integrate.
    Mixed { steps: usize, items: usize, own: bool },
}

/// Ways of posing the same problem that must not make a difference.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Pose {
    /// A derivative with respect to time is given (of no use to either solver).
    pub dfdt: bool,
    /// The Jacobian writes the entries that are ever different from zero only.
    pub sparse: bool,
    /// The builder's fields are assigned instead of its setters called.
    pub fields: bool,
    /// Stride of the initial state's storage, negative for reversed storage.
    pub stride: isize,
}

#[derive(Clone)]
pub struct Setup {
    pub prob: Prob,
    pub opt: Opt,
    pub alg: Alg,
    pub use_jac: bool,
    /// Callback actions keyed by the number of recorded points when it runs.
    pub cb: Option<Vec<(usize, CbAct)>>,
    pub faults: Vec<Fault>,
    pub budget: u64,
    pub log: bool,
    pub gain: f64,
    pub order: u64,
    /// How many extra step()/integrate() calls to make after the integrator finished.
    pub poke: usize,
    pub max_calls: u64,
    /// Read the recorded solution back through its iterators at the end.
    pub read_sol: bool,
    /// Options given to the builder before those of `opt`.
    pub pre: Option<Opt>,
    /// Fractions of every accepted step at which to read the interpolant.
    pub dense_at: Vec<f64>,
    /// Actions of the same kind carried out between two step() calls.
    pub between: Vec<(usize, CbAct)>,
    pub pose: Pose,
}

impl Setup {
    pub fn new(prob: Prob, opt: Opt, alg: Alg) -> Setup {
        Setup {
            prob,
            opt,
            alg,
            use_jac: true,
            cb: None,
            faults: vec![],
            budget: 3_000_000,
            log: true,
            gain: 1.0,
            order: 0,
            poke: 0,
            max_calls: 2_000_000,
            read_sol: false,
            pre: None,
            dense_at: vec![],
            between: vec![],
            pose: Pose::default(),
        }
    }
    /// Settings in force (as the integrator holds them) when `nsol` points are recorded and the
    /// actions at that point are done.
    pub fn eff_at(&self, nsol: usize) -> Eff {
        let mut e = self.opt.eff(self.alg);
        if self.alg == Alg::Radau {
            let (r, a) = self.opt.radau_tol();
            e.reltol = r;
            e.abstol = a;
            e.fnewt = self.opt.radau_fnewt();
        }
        let mut acts: Vec<&(usize, CbAct)> = self.cb.iter().flatten().chain(self.between.iter()).filter(|x| x.0 <= nsol && matches!(x.1, CbAct::SetOpts(_))).collect();
        acts.sort_by_key(|x| x.0);
        for (_, a) in acts {
            if let CbAct::SetOpts(o) = a {
                e.apply(o);
            }
        }
        e
    }
    /// Whether the callback changes the step size at this point.
    pub fn redirected_cb(&self, nsol: usize) -> bool {
        self.cb.iter().flatten().any(|x| x.0 == nsol && matches!(x.1, CbAct::ScaleDt(_)))
    }
    pub fn desc(&self) -> String {
        format!(
            "{:?} {} n={} span=({:?},{:?}) u0={:?} jac={} gain={} cb={:?}{} faults={:?} [{}]",
            self.alg,
            self.prob.name,
            self.prob.n,
            self.prob.t0,
            self.prob.tf,
            if self.prob.n <= 8 { self.prob.u0.clone() } else { self.prob.u0[..8].to_vec() },
            self.use_jac,
            self.gain,
            self.cb.as_ref().map(|v| v.iter().take(12).cloned().collect::<Vec<_>>()),
            if self.between.is_empty() { String::new() } else { format!(" between={:?}", self.between) },
            self.faults,
            self.opt.desc()
        )
    }
}

pub struct StepView<'x> {
    pub k: u64,
    pub pre: &'x Snap,
    pub post: &'x Snap,
    pub evs: &'x [Ev],
    pub returned: Option<usize>,
    /// RHS / Jacobian / callback calls so far, since build.
    pub rhs_calls: u64,
    pub jac_calls: u64,
    pub cb_calls: u64,
    pub dense: &'x [(f64, Vec<f64>)],
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub build: Option<Snap>,
    pub build_evs: Vec<Ev>,
    pub fin: Option<Snap>,
    pub ts: Vec<f64>,
    pub us: Vec<Vec<f64>>,
    pub panic: Option<String>,
    pub over_budget: bool,
    /// Anything wrong with what user functions were handed.
    pub bad_args: Option<String>,
    pub rhs_build: u64,
    pub rhs_calls: u64,
    pub jac_calls: u64,
    pub cb_calls: u64,
    pub dfdt_calls: u64,
    pub step_calls: u64,
    pub items: Vec<(f64, Vec<f64>)>,
    pub iter_after_end: bool,
    pub sol_items: Vec<(f64, Vec<f64>)>,
    pub sol_items_ref: Vec<(f64, Vec<f64>)>,
    /// First difference seen while poking a finished integrator.
    pub poke_diff: Option<String>,
    pub poked: usize,
    pub last_faulted: bool,
    pub faults_hit: u64,
    pub opts_seen: Option<OptsSeen>,
    pub params_seen: Option<Par>,
    pub budget_panic_count: u32,
}

#[derive(Clone, Debug)]
pub struct OptsSeen {
    pub reltol: f64,
    pub abstol: f64,
    pub dense: bool,
    pub dtstart: f64,
    pub dtmax: f64,
    pub max_steps: usize,
    pub max_newt_iter: usize,
    pub max_stiff: usize,
    pub modern_pred: bool,
    pub safe: f64,
    pub facr: f64,
    pub facl: f64,
    pub quot1: f64,
    pub quot2: f64,
    pub beta: f64,
    pub fnewt: f64,
    pub use_ext_col: bool,
    pub hess: bool,
    pub theta: f64,
}

struct BudgetExceeded;

/// The three stages of a Newton sweep may be evaluated in any order: list them by abscissa.
fn stage_order(e: &mut [Ev], t: f64) {
    let mut p = 0;
    while p + 3 <= e.len() {
        let d = |k: usize| (e[p + k].t - t).abs();
        let mut o = [0, 1, 2];
        o.sort_by(|a, b| d(*a).total_cmp(&d(*b)));
        let h = d(o[2]);
        let near = |x: f64, c: f64| (x - c * h).abs() <= 1e-9 * h + f64::EPSILON * t.abs().max(e[p + o[2]].t.abs());
        if e[p..p + 3].iter().all(|x| x.kind == EvKind::Rhs) && near(d(o[0]), 0.1550510257) && near(d(o[1]), 0.6449489743) {
            e[p..p + 3].sort_by(|a, b| (a.t - t).abs().total_cmp(&(b.t - t).abs()));
            p += 3;
        } else {
            p += 1;
        }
    }
}

/// At the end of an accepted step the derivative and the Jacobian at the new point may be evaluated in
/// either order: list the derivative first.
fn end_order(e: &mut [Ev], t: f64, u: &[f64], n: usize) {
    let m = e.iter().rposition(|x| x.kind != EvKind::Cb).map_or(0, |x| x + 1);
    let here = |x: &Ev, kind: EvKind| x.kind == kind && x.t == t && x.u == u;
    if m < 2 || !here(&e[m - 1], EvKind::Rhs) {
        return;
    }
    if here(&e[m - 2], EvKind::Jac) {
        e.swap(m - 2, m - 1);
        return;
    }
    // differences: the point itself, then each component changed
    if m >= n + 2 && here(&e[m - 2 - n], EvKind::Rhs) {
        let one = |x: &Ev| x.kind == EvKind::Rhs && x.t == t && (0..n).filter(|i| x.u[*i] != u[*i]).count() == 1;
        if e[m - 1 - n..m - 1].iter().all(one) {
            e[m - 2 - n..m].rotate_right(1);
        }
    }
}

pub fn payload(e: &Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if e.is::<BudgetExceeded>() {
        "event budget exceeded".into()
    } else {
        "panic".into()
    }
}

pub fn run(s: &Setup, mode: &Mode) -> Outcome {
    run_visit(s, mode, &mut |_| {})
}

pub fn run_visit(s: &Setup, mode: &Mode, visit: &mut dyn FnMut(&StepView)) -> Outcome {
    match s.alg {
        Alg::Dp5 => run_alg::<DormandPrince5>(s, mode, visit),
        Alg::Radau => run_alg::<Radau5>(s, mode, visit),
    }
}

const TAG: u64 = 0x5eed_cafe_1234_5678;

fn configure<'a, A: MAlg>(
    mut b: OdeIntegratorBuilder<'a, Par, A>,
    s: &Setup,
    jac: &'a dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &Par),
    dfdt: &'a dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &Par),
    cb: &'a dyn Fn(&mut OdeIntegrator<'a, Par, A>),
) -> OdeIntegratorBuilder<'a, Par, A> {
    let mut order: Vec<usize> = (0..20).collect();
    if s.order != 0 {
        order = crate::rng::Rng::new(s.order).perm(20);
    }
    let pre = s.pre.clone().unwrap_or_default();
    let mut o = &pre;
    macro_rules! set {
        ($f:ident) => {
            if let Some(x) = o.$f {
                if s.pose.fields {
                    b.opts.$f = x;
                } else {
                    b = b.$f(x);
                }
            }
        };
    }
    let two = [order.iter().rev().cloned().collect::<Vec<_>>(), order].concat();
    for (i, k) in two.into_iter().enumerate() {
        if i == 20 {
            o = &s.opt;
        }
        match k {
            0 => set!(reltol),
            1 => set!(abstol),
            2 => set!(dense),
            3 => {
                set!(dtstart);
                if let (true, Some(x)) = (s.pose.fields, o.dtstart) {
                    b.dt = x;
                }
            }
            4 => set!(dtmax),
            5 => set!(max_steps),
            6 => set!(max_newt_iter),
            7 => set!(max_stiff),
            8 => set!(modern_pred),
            9 => set!(safe),
            10 => set!(facr),
            11 => set!(facl),
            12 => set!(quot1),
            13 => set!(quot2),
            14 => set!(beta),
            15 => set!(fnewt),
            16 => set!(use_ext_col),
            17 => {
                set!(hess);
                if let Some(x) = o.theta {
                    b.opts.theta = x;
                }
            }
            18 => {
                if s.use_jac {
                    b = b.dfdu(jac);
                }
                if s.pose.dfdt {
                    b = b.dfdt(dfdt);
                }
            }
            _ => {
                if s.cb.is_some() {
                    if s.pose.fields {
                        b.callback = Some(cb);
                    } else {
                        b = b.callback(cb);
                    }
                }
            }
        }
    }
    b
}

/// The same vector in different storage.
fn stored(u: &[f64], stride: isize) -> Array1<f64> {
    let k = stride.unsigned_abs();
    if k == 0 {
        return Array1::from(u.to_vec());
    }
    let mut v = vec![f64::NAN; u.len() * k];
    for (i, x) in u.iter().enumerate() {
        v[if stride > 0 { i * k } else { (u.len() - 1 - i) * k }] = *x;
    }
    let mut a = Array1::from(v).slice_move(s![..;k as isize]);
    if stride < 0 {
        a.invert_axis(Axis(0));
    }
    a
}

pub fn opts_seen(o: &OdeIntegratorOpts) -> OptsSeen {
    OptsSeen {
        reltol: o.reltol,
        abstol: o.abstol,
        dense: o.dense,
        dtstart: o.dtstart,
        dtmax: o.dtmax,
        max_steps: o.max_steps,
        max_newt_iter: o.max_newt_iter,
        max_stiff: o.max_stiff,
        modern_pred: o.modern_pred,
        safe: o.safe,
        facr: o.facr,
        facl: o.facl,
        quot1: o.quot1,
        quot2: o.quot2,
        beta: o.beta,
        fnewt: o.fnewt,
        use_ext_col: o.use_ext_col,
        hess: o.hess,
        theta: o.theta,
    }
}

fn run_alg<A: MAlg>(s: &Setup, mode: &Mode, visit: &mut dyn FnMut(&StepView)) -> Outcome {
    let n = s.prob.n;
    let evs: RefCell<Vec<Ev>> = RefCell::new(vec![]);
    let rhs_calls = Cell::new(0u64);
    let jac_calls = Cell::new(0u64);
    let cb_calls = Cell::new(0u64);
    let events = Cell::new(0u64);
    let built = Cell::new(false);
    let hits = Cell::new(0u64);
    let over = Cell::new(0u32);
    let bad: RefCell<Option<String>> = RefCell::new(None);
    let spend = |evs: &Cell<u64>| {
        crate::fw::beat();
        evs.set(evs.get() + 1);
        if evs.get() > s.budget {
            over.set(over.get() + 1);
            std::panic::panic_any(BudgetExceeded);
        }
    };
    let check = |du: usize, u: usize, p: &Par| {
        if du != n || u != n || p.tag != TAG {
            *bad.borrow_mut() = Some(format!("user function got arrays of length {} and {}, tag {:x}; n={}", du, u, p.tag, n));
        }
    };
    let f = s.prob.f.clone();
    let rhs = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &Par| {
        spend(&events);
        check(du.len(), u.len(), p);
        let uv = u.to_vec();
        let mut dv = vec![0.0; n];
        f(t, &uv, &mut dv);
        let mut faulted = false;
        for x in dv.iter_mut() {
            *x *= p.gain;
        }
        if built.get() {
            let k = rhs_calls.get();
            for ft in &s.faults {
                if ft.at == k {
                    dv[ft.comp] = ft.val;
                    faulted = true;
                    hits.set(hits.get() + 1);
                }
            }
        }
        rhs_calls.set(rhs_calls.get() + 1);
        for i in 0..du.len().min(n) {
            du[i] = dv[i];
        }
        if s.log {
            evs.borrow_mut().push(Ev {
                kind: EvKind::Rhs,
                t,
                u: uv,
                out: dv,
                gain: p.gain,
                faulted,
                tprev: 0.0,
                last_t: 0.0,
                nsol: 0,
                last_u: vec![],
                accepts: 0,
            });
        }
    };
    let dfdt_calls = Cell::new(0u64);
    let dfdt = |mut df: ArrayViewMut1<f64>, _u: ArrayView1<f64>, _t: f64, _p: &Par| {
        dfdt_calls.set(dfdt_calls.get() + 1);
        df.fill(f64::NAN);
    };
    let ever = RefCell::new(vec![false; n * n]);
    let jf = s.prob.jac.clone();
    let jac = |mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, p: &Par| {
        spend(&events);
        check(df.nrows(), u.len(), p);
        check(df.ncols(), u.len(), p);
        let uv = u.to_vec();
        let mut d = vec![0.0; n * n];
        jf(t, &uv, &mut d);
        for x in d.iter_mut() {
            *x *= p.gain;
        }
        let mut ever = ever.borrow_mut();
        for i in 0..n {
            for j in 0..n {
                ever[i * n + j] |= d[i * n + j] != 0.0;
                if !s.pose.sparse || ever[i * n + j] {
                    df[[i, j]] = d[i * n + j];
                }
            }
        }
        jac_calls.set(jac_calls.get() + 1);
        if s.log {
            evs.borrow_mut().push(Ev {
                kind: EvKind::Jac,
                t,
                u: uv,
                out: d,
                gain: p.gain,
                faulted: false,
                tprev: 0.0,
                last_t: 0.0,
                nsol: 0,
                last_u: vec![],
                accepts: 0,
            });
        }
    };
    let cb = |i: &mut OdeIntegrator<Par, A>| {
        spend(&events);
        cb_calls.set(cb_calls.get() + 1);
        if s.log {
            evs.borrow_mut().push(Ev {
                kind: EvKind::Cb,
                t: i.t,
                u: i.u.to_vec(),
                out: i.uprev.to_vec(),
                gain: i.params.gain,
                faulted: false,
                tprev: i.tprev,
                last_t: *i.sol.ts.last().unwrap(),
                nsol: i.sol.ts.len(),
                last_u: i.sol.us.last().unwrap().to_vec(),
                accepts: i.stats.accepts,
            });
        }
        act(i, s.cb.as_ref().unwrap());
    };
    let mut out = Outcome {
        build: None,
        build_evs: vec![],
        fin: None,
        ts: vec![],
        us: vec![],
        panic: None,
        over_budget: false,
        bad_args: None,
        rhs_build: 0,
        rhs_calls: 0,
        jac_calls: 0,
        cb_calls: 0,
        dfdt_calls: 0,
        step_calls: 0,
        items: vec![],
        iter_after_end: false,
        sol_items: vec![],
        sol_items_ref: vec![],
        poke_diff: None,
        poked: 0,
        last_faulted: false,
        faults_hit: 0,
        opts_seen: None,
        params_seen: None,
        budget_panic_count: 0,
    };
    let res = catch_unwind(AssertUnwindSafe(|| {
        let u0 = stored(&s.prob.u0, s.pose.stride);
        let par = Par { tag: TAG, gain: s.gain };
        let b = if s.pose.fields {
            let other = Par { tag: TAG, gain: f64::NAN };
            let mut b = OdeIntegratorBuilder::default(&rhs, u0.mapv(|x| x + 1.0), (s.prob.tf, s.prob.t0), A::make(), other);
            b.u = u0;
            b.t = s.prob.t0;
            b.tfinal = s.prob.tf;
            b.params = par;
            b
        } else {
            OdeIntegratorBuilder::default(&rhs, u0, (s.prob.t0, s.prob.tf), A::make(), par)
        };
        configure(b, s, &jac, &dfdt, &cb).build()
    }));
    let integ = match res {
        Ok(i) => i,
        Err(e) => {
            out.panic = Some(format!("in build: {}", payload(&e)));
            out.over_budget = e.is::<BudgetExceeded>();
            return out;
        }
    };
    built.set(true);
    out.rhs_build = rhs_calls.get();
    rhs_calls.set(0);
    jac_calls.set(0);
    out.build_evs = std::mem::take(&mut *evs.borrow_mut());
    out.build = Some(snap(&integ));
    out.opts_seen = Some(opts_seen(&integ.opts));
    out.params_seen = Some(integ.params.clone());
    // The borrowing iterator borrows for the whole life of the integrator: keep it behind a raw
    // pointer and free it at the end.
    let raw = Box::into_raw(Box::new(integ));
    let cur = unsafe { &mut *raw };
    let mut calls = 0u64;
    let r = catch_unwind(AssertUnwindSafe(|| match mode {
        Mode::Steps => {
            let mut pre = snap(cur);
            loop {
                if calls >= s.max_calls {
                    std::panic::panic_any(BudgetExceeded);
                }
                let x = cur.step();
                calls += 1;
                let post = snap(cur);
                let mut e = std::mem::take(&mut *evs.borrow_mut());
                if s.alg == Alg::Radau {
                    stage_order(&mut e, pre.t);
                    if post.nsol > pre.nsol {
                        end_order(&mut e, post.last_t, &post.last_u, n);
                    }
                }
                let dense = read_dense(s, cur, &pre, &post);
                visit(&StepView {
                    k: calls - 1,
                    pre: &pre,
                    post: &post,
                    evs: &e,
                    returned: x,
                    rhs_calls: rhs_calls.get(),
                    jac_calls: jac_calls.get(),
                    cb_calls: cb_calls.get(),
                    dense: &dense,
                });
                if x.is_none() {
                    break;
                }
                pre = if s.between.is_empty() {
                    post
                } else {
                    act(cur, &s.between);
                    snap(cur)
                };
            }
        }
        Mode::Integrate => cur.integrate(),
        Mode::StepsThenIntegrate(k) => {
            let mut go = true;
            for _ in 0..*k {
                if cur.step().is_none() {
                    go = false;
                    break;
                }
            }
            if go {
                cur.integrate();
            }
        }
        Mode::Mixed { steps, .. } => {
            for _ in 0..*steps {
                if cur.step().is_none() {
                    break;
                }
            }
        }
        Mode::IntoIter => {}
        Mode::MutIter => {}
    }));
    let (owning, borrowing, most) = match mode {
        Mode::IntoIter => (true, false, usize::MAX),
        Mode::MutIter => (false, true, usize::MAX),
        Mode::Mixed { items, own, .. } => (*own, !*own, *items),
        _ => (false, false, 0),
    };
    let mut failed = r.err();
    let mut cur: Option<&mut OdeIntegrator<Par, A>> = Some(cur);
    if failed.is_none() && borrowing {
        let i = cur.take().unwrap();
        let mut it = i.into_iter();
        let r = catch_unwind(AssertUnwindSafe(|| {
            while out.items.len() < most {
                let (t, u) = match it.next() {
                    Some(x) => x,
                    None => break,
                };
                out.items.push((t, u.to_vec()));
                calls += 1;
                if calls >= s.max_calls {
                    std::panic::panic_any(BudgetExceeded);
                }
            }
            if most < usize::MAX {
                it.integrator.integrate();
            }
            for _ in 0..2 {
                out.iter_after_end |= it.next().is_some();
            }
        }));
        failed = r.err();
        cur = Some(it.integrator);
    }
    if failed.is_none() && owning {
        drop(cur.take());
        let owned = unsafe { *Box::from_raw(raw) };
        let mut it = owned.into_iter();
        let r = catch_unwind(AssertUnwindSafe(|| {
            while out.items.len() < most {
                let (t, u) = match it.next() {
                    Some(x) => x,
                    None => break,
                };
                out.items.push((t, u.to_vec()));
                calls += 1;
                if calls >= s.max_calls {
                    std::panic::panic_any(BudgetExceeded);
                }
            }
            if most < usize::MAX {
                it.integrator.integrate();
            }
            for _ in 0..2 {
                out.iter_after_end |= it.next().is_some();
            }
        }));
        failed = r.err();
        finish(&mut out, &it.integrator);
    } else if let Some(i) = cur.as_mut() {
        finish(&mut out, i);
        if failed.is_none() && s.poke > 0 {
            let before = snap(i);
            let ev0 = events.get();
            let nts = i.sol.ts.len();
            let r = catch_unwind(AssertUnwindSafe(|| {
                for k in 0..s.poke {
                    let x = if k % 2 == 0 {
                        i.step().is_some()
                    } else {
                        i.integrate();
                        false
                    };
                    let after = snap(i);
                    out.poked += 1;
                    if x {
                        out.poke_diff = Some("step() on a finished integrator returned Some".into());
                    } else if !after.same(&before) || i.sol.ts.len() != nts {
                        out.poke_diff = Some(format!("state changed by stepping a finished integrator: {:?} -> {:?}", before, after));
                    } else if events.get() != ev0 {
                        out.poke_diff = Some("stepping a finished integrator called a user function".into());
                    }
                    if out.poke_diff.is_some() {
                        break;
                    }
                }
            }));
            if let Err(e) = r {
                out.poke_diff = Some(format!("stepping a finished integrator panicked: {}", payload(&e)));
            }
        }
    }
    if let (true, Some(i)) = (s.read_sol, cur.as_mut()) {
        for (t, u) in &mut i.sol {
            out.sol_items_ref.push((*t, u.to_vec()));
        }
        let sol = std::mem::replace(&mut i.sol, OdeSolution::new());
        for (t, u) in sol {
            out.sol_items.push((t, u.to_vec()));
        }
    }
    if !owning || failed.is_some() && cur.is_some() {
        drop(cur.take());
        drop(unsafe { Box::from_raw(raw) });
    }
    if let Some(e) = failed {
        out.over_budget = e.is::<BudgetExceeded>();
        if !out.over_budget {
            out.panic = Some(payload(&e));
        }
    }
    out.step_calls = calls;
    out.rhs_calls = rhs_calls.get();
    out.jac_calls = jac_calls.get();
    out.cb_calls = cb_calls.get();
    out.dfdt_calls = dfdt_calls.get();
    out.bad_args = bad.borrow_mut().take();
    out.faults_hit = hits.get();
    out.budget_panic_count = over.get();
    out
}

fn act<A: MAlg>(i: &mut OdeIntegrator<Par, A>, acts: &[(usize, CbAct)]) {
    let k = i.sol.ts.len();
    for (at, act) in acts {
        if *at == k || *at == usize::MAX {
            match act {
                CbAct::Nothing => {}
                CbAct::SetU(v) => i.u.assign(&Array1::from(v.clone())),
                CbAct::ScaleOne(k, x) => i.u[*k] *= *x,
                CbAct::ScaleU(x) => {
                    let v = &i.u * *x;
                    i.u.assign(&v)
                }
                CbAct::SetGain(g) => i.params.gain = *g,
                CbAct::ScaleDt(x) => i.dt = (x * i.dt).abs().min(i.opts.dtmax).copysign(i.tdir),
                CbAct::ScaleRest(x) => i.tfinal = i.t + x * (i.tfinal - i.t),
                CbAct::SetOpts(o) => {
                    macro_rules! set {
                        ($($f:ident),*) => { $( if let Some(x) = o.$f { i.opts.$f = x; } )* };
                    }
                    set!(reltol, abstol, dense, dtmax, max_steps, max_newt_iter, max_stiff, modern_pred, safe, facr, facl, quot1, quot2, beta, fnewt, use_ext_col, theta);
                }
                CbAct::Stop(r) => i.sol.retcode = code(*r),
            }
        }
    }
}

#[cfg(verif_hooks)]
fn read_dense<A: MAlg>(s: &Setup, i: &mut OdeIntegrator<Par, A>, pre: &Snap, post: &Snap) -> Vec<(f64, Vec<f64>)> {
    if post.nsol != pre.nsol + 1 {
        return vec![];
    }
    s.dense_at
        .iter()
        .map(|x| {
            let t = if *x == 1.0 { post.t } else { post.tprev + x * (post.t - post.tprev) };
            (t, A::dense(i, t))
        })
        .collect()
}
#[cfg(not(verif_hooks))]
fn read_dense<A: MAlg>(_s: &Setup, _i: &mut OdeIntegrator<Par, A>, _pre: &Snap, _post: &Snap) -> Vec<(f64, Vec<f64>)> {
    vec![]
}

fn finish<A: OdeAlgorithm>(out: &mut Outcome, i: &OdeIntegrator<Par, A>) {
    out.fin = Some(snap(i));
    out.ts = i.sol.ts.clone();
    out.us = i.sol.us.iter().map(|x| x.to_vec()).collect();
}

pub fn silence_panics() {
    if std::env::var("VMON_SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}
