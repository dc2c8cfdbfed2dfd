//! Option configurations handed to the builder.

use crate::rng::Rng;
use crate::run::Alg;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Opt {
    pub reltol: Option<f64>,
    pub abstol: Option<f64>,
    pub dense: Option<bool>,
    pub dtstart: Option<f64>,
    pub dtmax: Option<f64>,
    pub max_steps: Option<usize>,
    pub max_newt_iter: Option<usize>,
    pub max_stiff: Option<usize>,
    pub modern_pred: Option<bool>,
    pub safe: Option<f64>,
    pub facr: Option<f64>,
    pub facl: Option<f64>,
    pub quot1: Option<f64>,
    pub quot2: Option<f64>,
    pub beta: Option<f64>,
    pub fnewt: Option<f64>,
    pub use_ext_col: Option<bool>,
    pub hess: Option<bool>,
    /// Has no builder method; assigned to the field.
    pub theta: Option<f64>,
}

/// Effective values after defaults (user side, before any internal rescaling).
#[derive(Clone, Debug)]
pub struct Eff {
    pub reltol: f64,
    pub abstol: f64,
    pub dtstart: f64,
    pub dtmax: f64,
    pub max_steps: usize,
    pub max_newt_iter: usize,
    pub max_stiff: usize,
    pub modern_pred: bool,
    pub safe: f64,
    pub facr: f64,
    pub facl: f64,
    pub quot1: f64,
    pub quot2: f64,
    pub beta: f64,
    pub fnewt: f64,
    pub use_ext_col: bool,
    pub hess: bool,
    pub dense: bool,
    pub theta: f64,
}

impl Eff {
    /// Overwrite what is given.
    pub fn apply(&mut self, o: &Opt) {
        macro_rules! set {
            ($($f:ident),*) => { $( if let Some(x) = o.$f { self.$f = x; } )* };
        }
        set!(reltol, abstol, dense, dtmax, max_steps, max_newt_iter, max_stiff, modern_pred, safe, facr, facl, quot1, quot2, beta, fnewt, use_ext_col, theta);
    }
}

impl Opt {
    pub fn eff(&self, alg: Alg) -> Eff {
        let dp = alg == Alg::Dp5;
        Eff {
            reltol: self.reltol.unwrap_or(1e-3),
            abstol: self.abstol.unwrap_or(1e-7),
            dtstart: self.dtstart.unwrap_or(1e-6),
            dtmax: self.dtmax.unwrap_or(f64::INFINITY),
            max_steps: self.max_steps.unwrap_or(100000),
            max_newt_iter: self.max_newt_iter.unwrap_or(7),
            max_stiff: self.max_stiff.unwrap_or(1000),
            modern_pred: self.modern_pred.unwrap_or(true),
            safe: self.safe.unwrap_or(0.9),
            facr: self.facr.unwrap_or(if dp { 10.0 } else { 0.125 }),
            facl: self.facl.unwrap_or(if dp { 0.2 } else { 5.0 }),
            quot1: self.quot1.unwrap_or(if dp { 0.0 } else { 1.0 }),
            quot2: self.quot2.unwrap_or(if dp { 0.0 } else { 1.2 }),
            beta: self.beta.unwrap_or(if dp { 0.04 } else { 0.0 }),
            fnewt: self.fnewt.unwrap_or(0.0),
            use_ext_col: self.use_ext_col.unwrap_or(true),
            hess: self.hess.unwrap_or(false),
            dense: self.dense.unwrap_or(false),
            theta: self.theta.unwrap_or(if dp { 0.0 } else { 0.001 }),
        }
    }
    /// Tolerances the implicit solver works with internally.
    pub fn radau_tol(&self) -> (f64, f64) {
        let e = self.eff(Alg::Radau);
        let r = 0.1 * e.reltol.powf(2.0 / 3.0);
        (r, r * (e.abstol / e.reltol))
    }
    pub fn radau_fnewt(&self) -> f64 {
        let f = self.eff(Alg::Radau).fnewt;
        if f > 0.0 {
            f
        } else {
            let (r, _) = self.radau_tol();
            (10.0 * f64::EPSILON / r).max(0.03f64.min(r.sqrt()))
        }
    }
    pub fn desc(&self) -> String {
        let mut v = vec![];
        macro_rules! p {
            ($($f:ident),*) => { $( if let Some(x) = &self.$f { v.push(format!("{}={:?}", stringify!($f), x)); } )* };
        }
        p!(reltol, abstol, dense, dtstart, dtmax, max_steps, max_newt_iter, max_stiff, modern_pred, safe, facr, facl, quot1, quot2, beta, fnewt, use_ext_col, hess, theta);
        v.join(" ")
    }
}

#[derive(Clone, Copy)]
pub struct OptCfg {
    pub rtol_min: f64,
    pub rtol_max: f64,
    /// Vary controller options too.
    pub control: bool,
    pub dtmax: bool,
    pub dtstart: bool,
}

/// Random step budget; now and then one that allows, and a maximum step that forces, a long run.
pub fn gen_budget(r: &mut Rng, o: &mut Opt, span: f64, lo: usize, hi: usize) -> usize {
    let b = if r.chance(0.004) {
        o.dtmax = Some(span / r.range(400.0, 2500.0));
        r.int(400, 3000)
    } else {
        r.int(lo, hi)
    };
    o.max_steps = Some(b);
    b
}

/// Largest dimension of a generated problem.
pub fn gen_nmax(r: &mut Rng) -> usize {
    if r.chance(0.8) {
        4
    } else if r.chance(0.985) {
        9
    } else if r.chance(0.93) {
        30
    } else {
        90
    }
}

/// Random valid options for a span of the given length. `scale` is the typical size of the state.
pub fn gen_opt(r: &mut Rng, alg: Alg, span: f64, c: OptCfg) -> Opt {
    let mut o = Opt::default();
    if r.chance(0.9) {
        let rt = r.log(c.rtol_min, c.rtol_max);
        o.reltol = Some(rt);
        o.abstol = Some(match r.below(3) {
            0 => rt,
            1 => rt * r.log(1e-4, 1.0),
            _ => rt * r.log(1e-2, 10.0),
        });
    }
    if c.dtstart && r.chance(0.5) {
        o.dtstart = Some(match r.below(4) {
            0 => span * r.log(1e-8, 1e-3),
            1 => span * r.range(0.001, 0.2),
            2 => span * r.range(0.2, 3.0),
            _ => r.log(1e-9, 1e-3),
        });
    }
    if c.dtmax && r.chance(0.4) {
        o.dtmax = Some(span / r.log(0.5, 60.0));
    }
    if r.chance(0.3) {
        o.dense = Some(r.chance(0.7));
    }
    if c.control && r.chance(0.6) {
        if r.chance(0.5) {
            o.safe = Some(r.range(0.5, 0.98));
        }
        match alg {
            Alg::Dp5 => {
                if r.chance(0.5) {
                    o.facl = Some(r.range(0.1, 0.6));
                }
                if r.chance(0.5) {
                    o.facr = Some(r.range(1.3, 12.0));
                }
                if r.chance(0.5) {
                    o.beta = Some(if r.chance(0.2) { 0.0 } else { r.range(0.0, 0.12) });
                }
                if r.chance(0.4) {
                    o.max_stiff = Some(*r.pick(&[1, 2, 3, 7, 20, 1000]));
                }
            }
            Alg::Radau => {
                if r.chance(0.5) {
                    o.facl = Some(r.range(1.8, 10.0));
                }
                if r.chance(0.5) {
                    o.facr = Some(r.range(0.08, 0.45));
                }
                if r.chance(0.4) {
                    o.quot1 = Some(r.range(0.6, 1.0));
                }
                if r.chance(0.4) {
                    o.quot2 = Some(r.range(1.0, 2.0));
                }
                if r.chance(0.4) {
                    o.modern_pred = Some(r.chance(0.5));
                }
                if r.chance(0.4) {
                    o.use_ext_col = Some(r.chance(0.5));
                }
                if r.chance(0.4) {
                    o.max_newt_iter = Some(if r.chance(0.15) { r.int(1, 3) } else { r.int(4, 15) });
                }
            }
        }
    }
    o
}

/// Sometimes another threshold for renewing the Jacobian; a negative one renews it after every step.
pub fn vary_theta(r: &mut Rng, alg: Alg, o: &mut Opt) {
    if alg == Alg::Radau && r.chance(0.2) {
        o.theta = Some(match r.below(8) {
            0 => 0.0,
            1 => -r.log(1e-4, 1.0),
            2 => r.range(0.1, 1.5),
            _ => r.log(1e-6, 0.1),
        });
    }
}

/// Now and then, step-control settings far from the usual ones, for checks that follow each step
/// and make no claim about the accuracy of a run.
pub fn widen_opt(r: &mut Rng, alg: Alg, o: &mut Opt) {
    if !r.chance(0.06) {
        return;
    }
    if r.chance(0.4) {
        o.safe = Some(if r.chance(0.5) { r.range(0.1, 0.999) } else { r.range(0.98, 0.9999) });
    }
    match alg {
        Alg::Dp5 => {
            if r.chance(0.5) {
                o.facl = Some(r.log(0.003, 0.97));
            }
            if r.chance(0.7) {
                o.facr = Some(r.log(1.02, 2000.0));
            }
            if r.chance(0.3) {
                o.beta = Some(r.range(0.0, 0.2));
            }
        }
        Alg::Radau => {
            if r.chance(0.5) {
                o.facl = Some(r.log(1.05, 500.0));
            }
            if r.chance(0.5) {
                o.facr = Some(r.log(0.002, 0.97));
            }
            if r.chance(0.3) {
                o.quot1 = Some(r.range(0.05, 1.0));
                o.quot2 = Some(r.range(1.0, 8.0));
            }
            if r.chance(0.6) {
                o.max_newt_iter = Some(r.int(16, 120));
            }
        }
    }
}
