//! Initial-value problems used as workloads. Every problem carries its right-hand side, an analytic
//! Jacobian, and (for the families with a closed form) the exact flow map from any state.

use crate::rng::Rng;
use std::rc::Rc;

pub type F = Rc<dyn Fn(f64, &[f64], &mut [f64])>;
pub type Flow = Rc<dyn Fn(f64, &[f64], f64) -> Vec<f64>>;

#[derive(Clone)]
pub struct Prob {
    pub name: String,
    pub n: usize,
    pub t0: f64,
    pub tf: f64,
    pub u0: Vec<f64>,
    pub f: F,
    /// Row-major n*n Jacobian.
    pub jac: F,
    pub flow: Option<Flow>,
    /// Solution known from u0 only.
    pub exact: Option<Rc<dyn Fn(f64) -> Vec<f64>>>,
    pub linear: bool,
    pub autonomous: bool,
    /// Smooth right-hand side everywhere it is visited.
    pub smooth: bool,
    /// Largest decay rate (for reporting and work bounds).
    pub stiffness: f64,
    /// The solution does not exist up to tf (blow-up or domain boundary at this time).
    pub fails_at: Option<f64>,
    /// Components that exchange errors (group id per component).
    pub group: Vec<usize>,
    /// Bound on how much an error made anywhere on the span can be amplified later.
    pub cond: f64,
}

pub fn dir(p: &Prob) -> f64 {
    if p.tf >= p.t0 {
        1.0
    } else {
        -1.0
    }
}

fn base(name: &str, n: usize, ta: f64, tb: f64, u0: Vec<f64>, f: F, jac: F, flow: Option<Flow>) -> Prob {
    Prob {
        name: name.to_string(),
        n,
        t0: ta,
        tf: tb,
        u0,
        f,
        jac,
        flow,
        exact: None,
        linear: false,
        autonomous: true,
        smooth: true,
        stiffness: 0.0,
        fails_at: None,
        group: vec![0; n],
        cond: 1.0,
    }
}

/// A problem without known solution.
pub fn custom(name: &str, n: usize, t0: f64, tf: f64, u0: Vec<f64>, f: F, jac: F) -> Prob {
    let mut p = base(name, n, t0, tf, u0, f, jac, None);
    p.autonomous = false;
    p
}

/// Constant solution of a linear system whose Newton matrix is exactly singular in floating point for
/// step sizes above about `h`: the shift of the diagonal is absorbed by the Jacobian.
pub fn absorb(r: &mut Rng, ta: f64, tb: f64, h: f64) -> Prob {
    let k = 2f64.powi(((3.637834252744496 / h).log2().ceil() as i32) + 53);
    let extra = r.below(2);
    let n = 2 + extra;
    let f: F = Rc::new(move |_t, u, du| {
        du[0] = -k * (u[0] + u[1]);
        du[1] = du[0];
        if n > 2 {
            du[2] = -u[2];
        }
    });
    let jac: F = Rc::new(move |_t, _u, df| {
        for x in df.iter_mut() {
            *x = 0.0;
        }
        df[0] = -k;
        df[1] = -k;
        df[n] = -k;
        df[n + 1] = -k;
        if n > 2 {
            df[8] = -1.0;
        }
    });
    let a = r.range(0.2, 2.0);
    let u0 = if n > 2 { vec![a, -a, r.range(-1.0, 1.0)] } else { vec![a, -a] };
    let mut p = base("absorb", n, ta, tb, u0, f, jac, None);
    p.linear = true;
    p.stiffness = k;
    p
}

/// Step size from which on the real Newton matrix of `absorb` is exactly singular, for its stiffness `k`.
pub fn absorb_limit(k: f64) -> f64 {
    3.637834252744496 / (k * 2f64.powi(-53))
}

/// Diagonalisable linear system made of decays and rotations, optionally mixed by a reflection.
pub fn linblock(r: &mut Rng, ta: f64, tb: f64, n: usize, amax: f64, amin: f64, wmax: f64, mix: bool) -> Prob {
    let mut blocks: Vec<(usize, f64, f64)> = vec![]; // (size, a, w)
    let mut k = 0;
    while k < n {
        let a = if amin < -50.0 && r.chance(0.7) {
            -r.log(1.0, -amin)
        } else {
            r.range(amin.max(-3.0), amax)
        };
        if k + 1 < n && r.chance(0.6) {
            blocks.push((2, a, r.range(-wmax, wmax)));
            k += 2;
        } else {
            blocks.push((1, a, 0.0));
            k += 1;
        }
    }
    let mut v: Vec<f64> = (0..n).map(|_| r.normal()).collect();
    let nv: f64 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    for x in v.iter_mut() {
        *x /= nv;
    }
    let mix = mix && n > 1;
    // full matrix
    let mut d = vec![0.0; n * n];
    let mut i = 0;
    for &(s, a, w) in &blocks {
        d[i * n + i] = a;
        if s == 2 {
            d[(i + 1) * n + i + 1] = a;
            d[i * n + i + 1] = -w;
            d[(i + 1) * n + i] = w;
        }
        i += s;
    }
    let m = if mix {
        // Q D Q, Q = I - 2 v v^T
        let mut m1 = vec![0.0; n * n];
        for i in 0..n {
            for j in 0..n {
                let mut s = 0.0;
                for l in 0..n {
                    let q = if i == l { 1.0 } else { 0.0 } - 2.0 * v[i] * v[l];
                    s += q * d[l * n + j];
                }
                m1[i * n + j] = s;
            }
        }
        let mut m2 = vec![0.0; n * n];
        for i in 0..n {
            for j in 0..n {
                let mut s = 0.0;
                for l in 0..n {
                    let q = if l == j { 1.0 } else { 0.0 } - 2.0 * v[l] * v[j];
                    s += m1[i * n + l] * q;
                }
                m2[i * n + j] = s;
            }
        }
        m2
    } else {
        d
    };
    let u0: Vec<f64> = (0..n).map(|_| r.range(-2.0, 2.0)).collect();
    let m_f = m.clone();
    let f: F = Rc::new(move |_t, u, du| {
        for i in 0..n {
            let mut s = 0.0;
            for j in 0..n {
                s += m_f[i * n + j] * u[j];
            }
            du[i] = s;
        }
    });
    let m_j = m.clone();
    let jac: F = Rc::new(move |_t, _u, df| df.copy_from_slice(&m_j));
    let maxa = blocks.iter().map(|b| b.1).fold(f64::NEG_INFINITY, f64::max);
    let stiff = blocks.iter().map(|b| (b.1 * b.1 + b.2 * b.2).sqrt()).fold(0.0, f64::max);
    let bl = blocks.clone();
    let flow: Flow = Rc::new(move |t, u, s| {
        let h = s - t;
        let refl = |x: &[f64]| -> Vec<f64> {
            if !mix {
                return x.to_vec();
            }
            let d: f64 = x.iter().zip(&v).map(|(a, b)| a * b).sum();
            x.iter().zip(&v).map(|(a, b)| a - 2.0 * d * b).collect()
        };
        let mut x = refl(u);
        let mut i = 0;
        for &(sz, a, w) in &bl {
            let e = (a * h).exp();
            if sz == 1 {
                x[i] *= e;
            } else {
                let (c, sn) = ((w * h).cos(), (w * h).sin());
                let (p, q) = (x[i], x[i + 1]);
                x[i] = e * (c * p - sn * q);
                x[i + 1] = e * (sn * p + c * q);
            }
            i += sz;
        }
        refl(&x)
    });
    let mut p = base("linblock", n, ta, tb, u0, f, jac, Some(flow));
    p.linear = true;
    p.stiffness = stiff;
    p.cond = (maxa.max(0.0) * (tb - ta)).exp();
    if !mix {
        let mut g = vec![];
        for (gi, b) in blocks.iter().enumerate() {
            for _ in 0..b.0 {
                g.push(gi);
            }
        }
        p.group = g;
    }
    p
}

/// Pure quadrature: polynomial (degree <= 6) or trigonometric right-hand side.
pub fn quad(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let tc = r.range(ta, tb);
    let ts = (tb - ta).max(1e-3);
    if r.chance(0.5) {
        let c: Vec<f64> = (0..r.int(1, 7)).map(|_| r.range(-2.0, 2.0)).collect();
        let c2 = c.clone();
        let f: F = Rc::new(move |t, _u, du| {
            let x = (t - tc) / ts;
            du[0] = c.iter().rev().fold(0.0, |a, b| a * x + b) / ts;
        });
        let prim = move |t: f64| {
            let x = (t - tc) / ts;
            let mut s = 0.0;
            for (k, ck) in c2.iter().enumerate() {
                s += ck * x.powi(k as i32 + 1) / (k as f64 + 1.0);
            }
            s
        };
        let flow: Flow = Rc::new(move |t, u, s| vec![u[0] + prim(s) - prim(t)]);
        let mut p = base("polyquad", 1, ta, tb, vec![r.range(-2.0, 2.0)], f, Rc::new(|_, _, df| df[0] = 0.0), Some(flow));
        p.autonomous = false;
        p.linear = true;
        p
    } else {
        let a = r.range(-2.0, 2.0);
        let w = r.range(0.2, 4.0);
        let ph = r.range(0.0, 6.0);
        let f: F = Rc::new(move |t, _u, du| du[0] = a * (w * t + ph).cos());
        let flow: Flow = Rc::new(move |t, u, s| vec![u[0] + a / w * ((w * s + ph).sin() - (w * t + ph).sin())]);
        let mut p = base("trigquad", 1, ta, tb, vec![r.range(-2.0, 2.0)], f, Rc::new(|_, _, df| df[0] = 0.0), Some(flow));
        p.autonomous = false;
        p.linear = true;
        p
    }
}

pub fn gauss(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let tm = ta.abs().max(tb.abs()).max(0.1);
    let k = r.range(0.1, 1.5) / (tm * tm);
    let f: F = Rc::new(move |t, u, du| du[0] = -2.0 * k * t * u[0]);
    let jac: F = Rc::new(move |t, _u, df| df[0] = -2.0 * k * t);
    let flow: Flow = Rc::new(move |t, u, s| vec![u[0] * (-k * (s * s - t * t)).exp()]);
    let mut p = base("gauss", 1, ta, tb, vec![r.sign() * r.range(0.5, 2.0)], f, jac, Some(flow));
    p.autonomous = false;
    p.linear = true;
    p.cond = (k * ta * ta).exp();
    p
}

pub fn expsin(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let w = r.range(0.3, 3.0);
    let f: F = Rc::new(move |t, u, du| du[0] = w * (w * t).cos() * u[0]);
    let jac: F = Rc::new(move |t, _u, df| df[0] = w * (w * t).cos());
    let flow: Flow = Rc::new(move |t, u, s| vec![u[0] * ((w * s).sin() - (w * t).sin()).exp()]);
    let mut p = base("expsin", 1, ta, tb, vec![r.sign() * r.range(0.5, 2.0)], f, jac, Some(flow));
    p.autonomous = false;
    p.linear = true;
    p.cond = 7.4;
    p
}

pub fn logistic(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let kk = r.range(0.5, 3.0);
    let rr = r.range(0.2, 2.0);
    let u0 = kk * r.range(0.1, 1.9);
    let f: F = Rc::new(move |_t, u, du| du[0] = rr * u[0] * (1.0 - u[0] / kk));
    let jac: F = Rc::new(move |_t, u, df| df[0] = rr * (1.0 - 2.0 * u[0] / kk));
    let flow: Flow = Rc::new(move |t, u, s| vec![u[0] * kk / (u[0] + (kk - u[0]) * (-rr * (s - t)).exp())]);
    let mut p = base("logistic", 1, ta, tb, vec![u0], f, jac, Some(flow));
    p.cond = (0.25 * kk / (u0.min(kk * 0.5) * (1.0 - u0.min(kk * 0.5) / kk))).max(1.0) * kk;
    p.stiffness = rr;
    p
}

pub fn cubic(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let f: F = Rc::new(move |_t, u, du| du[0] = -u[0] * u[0] * u[0]);
    let jac: F = Rc::new(move |_t, u, df| df[0] = -3.0 * u[0] * u[0]);
    let flow: Flow = Rc::new(move |t, u, s| vec![u[0] / (1.0 + 2.0 * u[0] * u[0] * (s - t)).sqrt()]);
    base("cubic", 1, ta, tb, vec![r.sign() * r.range(0.3, 2.0)], f, jac, Some(flow))
}

pub fn tanh(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let w = r.range(0.3, 2.0);
    let f: F = Rc::new(move |_t, u, du| du[0] = w * (1.0 - u[0] * u[0]));
    let jac: F = Rc::new(move |_t, u, df| df[0] = -2.0 * w * u[0]);
    let flow: Flow = Rc::new(move |t, u, s| {
        let th = (w * (s - t)).tanh();
        vec![(u[0] + th) / (1.0 + u[0] * th)]
    });
    let u0: f64 = r.range(-0.5, 2.0);
    let mut p = base("tanh", 1, ta, tb, vec![u0], f, jac, Some(flow));
    p.cond = 1.0 / (1.0 - u0.min(0.0).powi(2));
    p
}

/// u' = -lambda (u - phi(t)) + phi'(t) in one or two coupled components.
pub fn relax(r: &mut Rng, ta: f64, tb: f64, lmin: f64, lmax: f64) -> Prob {
    let lam = r.log(lmin, lmax);
    let a = r.range(-2.0, 2.0);
    let w = r.range(0.2, 3.0);
    let ph = r.range(0.0, 6.0);
    let b = r.range(-1.0, 1.0);
    let phi = move |t: f64| a * (w * t + ph).cos() + b;
    let dphi = move |t: f64| -a * w * (w * t + ph).sin();
    let f: F = Rc::new(move |t, u, du| du[0] = -lam * (u[0] - phi(t)) + dphi(t));
    let jac: F = Rc::new(move |_t, _u, df| df[0] = -lam);
    let flow: Flow = Rc::new(move |t, u, s| vec![phi(s) + (u[0] - phi(t)) * (-lam * (s - t)).exp()]);
    let u0 = if r.chance(0.5) { phi(ta) } else { phi(ta) + r.range(-1.0, 1.0) };
    let mut p = base("relax", 1, ta, tb, vec![u0], f, jac, Some(flow));
    p.autonomous = false;
    p.linear = true;
    p.stiffness = lam;
    p
}

pub fn atan(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let f: F = Rc::new(move |t, u, du| du[0] = -u[0] / (1.0 + t * t));
    let jac: F = Rc::new(move |t, _u, df| df[0] = -1.0 / (1.0 + t * t));
    let flow: Flow = Rc::new(move |t, u, s| vec![u[0] * (t.atan() - s.atan()).exp()]);
    let mut p = base("atan", 1, ta, tb, vec![r.range(-2.0, 2.0)], f, jac, Some(flow));
    p.autonomous = false;
    p.linear = true;
    p
}

/// u1' = a u1 (a<0), u2' = c u1 u2.
pub fn bilinear(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let a = -r.range(0.2, 2.0);
    let c = r.range(-1.0, 1.0);
    let f: F = Rc::new(move |_t, u, du| {
        du[0] = a * u[0];
        du[1] = c * u[0] * u[1];
    });
    let jac: F = Rc::new(move |_t, u, df| {
        df[0] = a;
        df[1] = 0.0;
        df[2] = c * u[1];
        df[3] = c * u[0];
    });
    let flow: Flow = Rc::new(move |t, u, s| {
        let e = (a * (s - t)).exp();
        vec![u[0] * e, u[1] * (c * u[0] * (e - 1.0) / a).exp()]
    });
    let u0: f64 = r.range(-1.0, 1.0);
    let mut p = base("bilinear", 2, ta, tb, vec![u0, r.range(-2.0, 2.0)], f, jac, Some(flow));
    let g = (c * u0 / a).abs().exp();
    p.cond = g * g * (1.0 + (c / a).abs() * 2.0 * g);
    p
}

/// Three-compartment decay chain (sum is conserved).
pub fn chain(r: &mut Rng, ta: f64, tb: f64, kmax: f64) -> Prob {
    let k1 = r.range(0.2, 2.0);
    let mut k2 = r.log(0.2, kmax);
    if (k2 - k1).abs() < 0.05 {
        k2 += 0.2;
    }
    let f: F = Rc::new(move |_t, u, du| {
        du[0] = -k1 * u[0];
        du[1] = k1 * u[0] - k2 * u[1];
        du[2] = k2 * u[1];
    });
    let jac: F = Rc::new(move |_t, _u, df| df.copy_from_slice(&[-k1, 0.0, 0.0, k1, -k2, 0.0, 0.0, k2, 0.0]));
    let flow: Flow = Rc::new(move |t, u, s| {
        let h = s - t;
        let (e1, e2) = ((-k1 * h).exp(), (-k2 * h).exp());
        let a = u[0] * e1;
        let b = u[1] * e2 + u[0] * k1 / (k2 - k1) * (e1 - e2);
        vec![a, b, u[0] + u[1] + u[2] - a - b]
    });
    let mut p = base("chain", 3, ta, tb, vec![r.range(0.5, 2.0), r.range(0.0, 1.0), r.range(0.0, 1.0)], f, jac, Some(flow));
    p.linear = true;
    p.stiffness = k1.max(k2);
    p.cond = 3.0;
    p
}

/// Non-autonomous rotation.
pub fn rotor(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let w0 = r.range(-2.0, 2.0);
    let w1 = r.range(-2.0, 2.0);
    let wt = r.range(0.3, 2.0);
    let w = move |t: f64| w0 + w1 * (wt * t).cos();
    let f: F = Rc::new(move |t, u, du| {
        du[0] = -w(t) * u[1];
        du[1] = w(t) * u[0];
    });
    let jac: F = Rc::new(move |t, _u, df| df.copy_from_slice(&[0.0, -w(t), w(t), 0.0]));
    let flow: Flow = Rc::new(move |t, u, s| {
        let th = w0 * (s - t) + w1 / wt * ((wt * s).sin() - (wt * t).sin());
        let (c, sn) = (th.cos(), th.sin());
        vec![c * u[0] - sn * u[1], sn * u[0] + c * u[1]]
    });
    let mut p = base("rotor", 2, ta, tb, vec![r.range(-2.0, 2.0), r.range(0.5, 2.0)], f, jac, Some(flow));
    p.autonomous = false;
    p.linear = true;
    p.cond = 1.5;
    p
}

/// Hopf normal form: attracting limit cycle, exact in polar coordinates.
pub fn hopf(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let w = r.range(-3.0, 3.0);
    let f: F = Rc::new(move |_t, u, du| {
        let q = 1.0 - u[0] * u[0] - u[1] * u[1];
        du[0] = q * u[0] - w * u[1];
        du[1] = q * u[1] + w * u[0];
    });
    let jac: F = Rc::new(move |_t, u, df| {
        let q = 1.0 - u[0] * u[0] - u[1] * u[1];
        df[0] = q - 2.0 * u[0] * u[0];
        df[1] = -2.0 * u[0] * u[1] - w;
        df[2] = -2.0 * u[0] * u[1] + w;
        df[3] = q - 2.0 * u[1] * u[1];
    });
    let flow: Flow = Rc::new(move |t, u, s| {
        let h = s - t;
        let r2 = u[0] * u[0] + u[1] * u[1];
        let g = 1.0 / (r2 + (1.0 - r2) * (-2.0 * h).exp()).sqrt();
        let (c, sn) = ((w * h).cos(), (w * h).sin());
        vec![g * (c * u[0] - sn * u[1]), g * (sn * u[0] + c * u[1])]
    });
    let rad = r.range(0.4, 1.8);
    let th = r.range(0.0, 6.3);
    let mut p = base("hopf", 2, ta, tb, vec![rad * th.cos(), rad * th.sin()], f, jac, Some(flow));
    p.cond = (1.5 / rad).max(1.5) * 2.0;
    p
}

/// Davis-Skodje: nonlinear stiff with known flow.
pub fn davis_skodje(r: &mut Rng, ta: f64, tb: f64, gmax: f64) -> Prob {
    let g = r.log(2.0, gmax);
    davis_skodje_at(r, ta, tb, g)
}

pub fn davis_skodje_at(r: &mut Rng, ta: f64, tb: f64, g: f64) -> Prob {
    let f: F = Rc::new(move |_t, u, du| {
        du[0] = -u[0];
        du[1] = -g * u[1] + ((g - 1.0) * u[0] + g * u[0] * u[0]) / ((1.0 + u[0]) * (1.0 + u[0]));
    });
    let jac: F = Rc::new(move |_t, u, df| {
        let d = 1.0 + u[0];
        df[0] = -1.0;
        df[1] = 0.0;
        // d/du [((g-1)u+g u^2)/(1+u)^2] = (g-1 + (g+1) u)/(1+u)^3
        df[2] = (g - 1.0 + (g + 1.0) * u[0]) / (d * d * d);
        df[3] = -g;
    });
    let flow: Flow = Rc::new(move |t, u, s| {
        let h = s - t;
        let a = u[0] * (-h).exp();
        vec![a, (u[1] - u[0] / (1.0 + u[0])) * (-g * h).exp() + a / (1.0 + a)]
    });
    let mut p = base("davis_skodje", 2, ta, tb, vec![r.range(0.2, 2.0), r.range(0.0, 2.0)], f, jac, Some(flow));
    p.stiffness = g;
    p.cond = 2.0;
    p
}

/// Kaps' problem; exact solution known from the slow manifold.
pub fn kaps(_r: &mut Rng, ta: f64, tb: f64, g: f64) -> Prob {
    let f: F = Rc::new(move |_t, u, du| {
        du[0] = -(g + 2.0) * u[0] + g * u[1] * u[1];
        du[1] = u[0] - u[1] - u[1] * u[1];
    });
    let jac: F = Rc::new(move |_t, u, df| {
        df[0] = -(g + 2.0);
        df[1] = 2.0 * g * u[1];
        df[2] = 1.0;
        df[3] = -1.0 - 2.0 * u[1];
    });
    let mut p = base("kaps", 2, ta, tb, vec![1.0, 1.0], f, jac, None);
    p.exact = Some(Rc::new(move |t| vec![(-2.0 * (t - ta)).exp(), (-(t - ta)).exp()]));
    p.stiffness = g;
    p.cond = 3.0;
    p
}

/// Second-order style chain: u_i' = u_{i+1}, with a solution polynomial of degree n-1.
pub fn integrator_chain(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let n = r.int(2, 5);
    let f: F = Rc::new(move |_t, u, du| {
        for i in 0..n - 1 {
            du[i] = u[i + 1];
        }
        du[n - 1] = 0.0;
    });
    let jac: F = Rc::new(move |_t, _u, df| {
        for x in df.iter_mut() {
            *x = 0.0;
        }
        for i in 0..n - 1 {
            df[i * n + i + 1] = 1.0;
        }
    });
    let flow: Flow = Rc::new(move |t, u, s| {
        let h = s - t;
        (0..n)
            .map(|i| {
                let mut fac = 1.0;
                let mut x = 0.0;
                for k in i..n {
                    x += u[k] * fac;
                    fac *= h / (k - i + 1) as f64;
                }
                x
            })
            .collect()
    });
    let mut p = base("intchain", n, ta, tb, (0..n).map(|_| r.range(-1.0, 1.0)).collect(), f, jac, Some(flow));
    p.linear = true;
    let h: f64 = (tb - ta).max(1.0);
    p.cond = (0..n).map(|k| h.powi(k as i32)).sum();
    p
}

// ---------------------------------------------------------------------------------------------
// Problems without closed-form solution (used by step-level monitors).

pub fn vdp(r: &mut Rng, ta: f64, tb: f64, epsmin: f64) -> Prob {
    let e = r.log(epsmin, 2.0);
    let f: F = Rc::new(move |_t, u, du| {
        du[0] = u[1];
        du[1] = ((1.0 - u[0] * u[0]) * u[1] - u[0]) / e;
    });
    let jac: F = Rc::new(move |_t, u, df| {
        df[0] = 0.0;
        df[1] = 1.0;
        df[2] = -(2.0 * u[0] * u[1] + 1.0) / e;
        df[3] = (1.0 - u[0] * u[0]) / e;
    });
    let mut p = base("vdp", 2, ta, tb, vec![r.range(-2.5, 2.5), r.range(-1.0, 1.0)], f, jac, None);
    p.stiffness = 1.0 / e;
    p
}

pub fn robertson(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let (k1, k2, k3) = (0.04 * r.range(0.5, 2.0), 1e4 * r.range(0.01, 2.0), 3e7 * r.range(0.001, 1.5));
    let f: F = Rc::new(move |_t, u, du| {
        let a = k1 * u[0];
        let b = k2 * u[1] * u[2];
        let c = k3 * u[1] * u[1];
        du[0] = -a + b;
        du[2] = c;
        du[1] = -du[0] - c;
    });
    let jac: F = Rc::new(move |_t, u, df| {
        df[0] = -k1;
        df[1] = k2 * u[2];
        df[2] = k2 * u[1];
        df[6] = 0.0;
        df[7] = 2.0 * k3 * u[1];
        df[8] = 0.0;
        df[3] = k1;
        df[4] = -df[1] - df[7];
        df[5] = -df[2];
    });
    let mut p = base("robertson", 3, ta, tb, vec![1.0, 0.0, 0.0], f, jac, None);
    p.stiffness = 1e4;
    p
}

pub fn lotka(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let (a, b, c, d) = (r.range(0.5, 2.0), r.range(0.3, 1.5), r.range(0.5, 2.0), r.range(0.3, 1.5));
    let f: F = Rc::new(move |_t, u, du| {
        du[0] = u[0] * (a - b * u[1]);
        du[1] = u[1] * (d * u[0] - c);
    });
    let jac: F = Rc::new(move |_t, u, df| {
        df[0] = a - b * u[1];
        df[1] = -b * u[0];
        df[2] = d * u[1];
        df[3] = d * u[0] - c;
    });
    base("lotka", 2, ta, tb, vec![r.range(0.5, 2.0), r.range(0.5, 2.0)], f, jac, None)
}

pub fn pendulum(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let (g, b, a, w) = (r.range(0.5, 4.0), r.range(0.0, 0.5), r.range(0.0, 1.0), r.range(0.5, 2.0));
    let f: F = Rc::new(move |t, u, du| {
        du[0] = u[1];
        du[1] = -g * u[0].sin() - b * u[1] + a * (w * t).cos();
    });
    let jac: F = Rc::new(move |_t, u, df| {
        df[0] = 0.0;
        df[1] = 1.0;
        df[2] = -g * u[0].cos();
        df[3] = -b;
    });
    let mut p = base("pendulum", 2, ta, tb, vec![r.range(-2.0, 2.0), r.range(-1.0, 1.0)], f, jac, None);
    p.autonomous = false;
    p
}

pub fn brusselator(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let (a, b) = (r.range(0.8, 1.5), r.range(1.5, 3.5));
    let f: F = Rc::new(move |_t, u, du| {
        du[0] = a + u[0] * u[0] * u[1] - (b + 1.0) * u[0];
        du[1] = b * u[0] - u[0] * u[0] * u[1];
    });
    let jac: F = Rc::new(move |_t, u, df| {
        df[0] = 2.0 * u[0] * u[1] - (b + 1.0);
        df[1] = u[0] * u[0];
        df[2] = b - 2.0 * u[0] * u[1];
        df[3] = -u[0] * u[0];
    });
    base("brusselator", 2, ta, tb, vec![r.range(0.5, 2.5), r.range(0.5, 3.0)], f, jac, None)
}

pub fn heat(r: &mut Rng, ta: f64, tb: f64, n: usize) -> Prob {
    let nu = r.log(0.01, 1.0) * ((n + 1) * (n + 1)) as f64;
    let src = r.range(0.0, 1.0);
    let f: F = Rc::new(move |t, u, du| {
        for i in 0..n {
            let l = if i > 0 { u[i - 1] } else { 0.0 };
            let rr = if i + 1 < n { u[i + 1] } else { 0.0 };
            du[i] = nu * (l - 2.0 * u[i] + rr) + src * (t + i as f64).sin();
        }
    });
    let jac: F = Rc::new(move |_t, _u, df| {
        for x in df.iter_mut() {
            *x = 0.0;
        }
        for i in 0..n {
            df[i * n + i] = -2.0 * nu;
            if i > 0 {
                df[i * n + i - 1] = nu;
            }
            if i + 1 < n {
                df[i * n + i + 1] = nu;
            }
        }
    });
    let mut p = base("heat", n, ta, tb, (0..n).map(|_| r.range(-1.0, 1.0)).collect(), f, jac, None);
    p.autonomous = false;
    p.linear = true;
    p.stiffness = 4.0 * nu;
    p
}

/// Piecewise-constant forcing: discontinuous in time.
pub fn square_wave(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let w = r.range(1.0, 12.0);
    let amp = r.log(0.5, 50.0);
    let k = r.range(0.0, 3.0);
    let f: F = Rc::new(move |t, u, du| {
        du[0] = u[1];
        du[1] = -k * u[0] - 0.5 * u[1] + if (w * t + 0.321).sin() > 0.0 { amp } else { -amp };
    });
    let jac: F = Rc::new(move |_t, _u, df| df.copy_from_slice(&[0.0, 1.0, -k, -0.5]));
    let mut p = base("square_wave", 2, ta, tb, vec![r.range(-1.0, 1.0), r.range(-1.0, 1.0)], f, jac, None);
    p.autonomous = false;
    p.smooth = false;
    p.linear = true;
    p
}

/// Sharp pulses in time: the controller runs into rejections.
pub fn pulse(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let np = r.int(1, 4);
    let cs: Vec<f64> = (0..np).map(|_| r.range(ta, tb)).collect();
    let ws: Vec<f64> = (0..np).map(|_| r.log(1e-4, 0.05) * (tb - ta)).collect();
    let amp = r.log(1.0, 1e3);
    let lam = r.log(0.1, 20.0);
    let f: F = Rc::new(move |t, u, du| {
        let mut s = 0.0;
        for (c, w) in cs.iter().zip(&ws) {
            let x = (t - c) / w;
            s += (-0.5 * x * x).exp();
        }
        du[0] = -lam * u[0] + amp * s;
        du[1] = u[0] - u[1] * u[1] * u[1];
    });
    let jac: F = Rc::new(move |_t, u, df| df.copy_from_slice(&[-lam, 0.0, 1.0, -3.0 * u[1] * u[1]]));
    let mut p = base("pulse", 2, ta, tb, vec![r.range(-1.0, 1.0), r.range(-1.0, 1.0)], f, jac, None);
    p.autonomous = false;
    p.smooth = false;
    p
}

/// Sudden nonlinearity: linear until a threshold in time, then strongly nonlinear (Newton failures).
pub fn switch_nl(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let ts = r.range(ta + 0.2 * (tb - ta), ta + 0.9 * (tb - ta));
    let k = r.log(10.0, 1e5);
    let lam = r.log(0.5, 100.0);
    let w = r.range(0.3, 2.0);
    let g = move |t: f64| if t > ts { k } else { 0.0 };
    let f: F = Rc::new(move |t, u, du| {
        let d = u[0] - (w * t).sin();
        du[0] = -lam * d - g(t) * (d * d * d + 0.3 * d * u[1] * u[1]);
        du[1] = -u[1] + u[0] - g(t) * 0.1 * (5.0 * u[1]).sin();
    });
    let jac: F = Rc::new(move |t, u, df| {
        let d = u[0] - (w * t).sin();
        df[0] = -lam - g(t) * (3.0 * d * d + 0.3 * u[1] * u[1]);
        df[1] = -g(t) * 0.6 * d * u[1];
        df[2] = 1.0;
        df[3] = -1.0 - g(t) * 0.5 * (5.0 * u[1]).cos();
    });
    let mut p = base("switch_nl", 2, ta, tb, vec![r.range(-1.0, 1.0), r.range(-1.0, 1.0)], f, jac, None);
    p.autonomous = false;
    p.smooth = false;
    p.stiffness = k;
    p
}

/// Linear system whose matrix switches stiffness in time (kept factorizations become useless).
pub fn switch_lin(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let ts = r.range(ta + 0.2 * (tb - ta), ta + 0.9 * (tb - ta));
    let k = r.log(10.0, 1e6);
    let w = r.range(0.2, 1.0);
    let f: F = Rc::new(move |t, u, du| {
        let l = if t > ts { k } else { 1.0 };
        du[0] = -l * (u[0] - (w * t).cos()) + 0.2 * u[1];
        du[1] = -0.3 * u[1] - 0.1 * l.min(20.0) * u[0];
    });
    let jac: F = Rc::new(move |t, _u, df| {
        let l = if t > ts { k } else { 1.0 };
        df.copy_from_slice(&[-l, 0.2, -0.1 * l.min(20.0), -0.3]);
    });
    let mut p = base("switch_lin", 2, ta, tb, vec![r.range(-1.0, 1.0), r.range(-1.0, 1.0)], f, jac, None);
    p.autonomous = false;
    p.smooth = false;
    p.linear = true;
    p.stiffness = k;
    p
}

// ---------------------------------------------------------------------------------------------
// Problems whose solution ceases to exist.

pub fn blowup(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    // u' = c u^p blows up at ta + frac (tb - ta)
    let pw = *r.pick(&[2.0, 3.0, 1.5]);
    let tc = r.range(0.1, 0.9) * (tb - ta);
    let u0 = r.range(0.5, 2.0);
    let c = u0.powf(1.0 - pw) / ((pw - 1.0) * tc);
    let f: F = Rc::new(move |_t, u, du| {
        du[0] = c * u[0].powf(pw);
        du[1] = -u[1];
    });
    let jac: F = Rc::new(move |_t, u, df| df.copy_from_slice(&[c * pw * u[0].powf(pw - 1.0), 0.0, 0.0, -1.0]));
    let mut p = base("blowup", 2, ta, tb, vec![u0, 1.0], f, jac, None);
    p.fails_at = Some(ta + tc);
    p
}

/// u' = -c (1 + a u): reaches zero with finite slope; undefined (NaN or infinite) for negative u.
pub fn domain(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let tc = r.range(0.1, 0.9) * (tb - ta);
    let u0 = r.range(0.3, 3.0f64);
    let a = r.range(0.1, 2.0);
    let bad = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let c = (1.0 + a * u0).ln() / (a * tc);
    let f: F = Rc::new(move |_t, u, du| {
        du[0] = if u[0] < 0.0 { bad } else { -c * (1.0 + a * u[0]) };
        du[1] = 0.1;
    });
    let jac: F = Rc::new(move |_t, _u, df| df.copy_from_slice(&[-c * a, 0.0, 0.0, 0.0]));
    let mut p = base("domain", 2, ta, tb, vec![u0, 0.0], f, jac, None);
    p.smooth = false;
    p.fails_at = Some(ta + tc);
    p
}

/// Right-hand side undefined (NaN or infinite) for t beyond a boundary.
pub fn time_wall(r: &mut Rng, ta: f64, tb: f64) -> Prob {
    let tc = ta + r.range(0.05, 0.95) * (tb - ta);
    let bad = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let which = r.below(2);
    let f: F = Rc::new(move |t, u, du| {
        du[0] = -u[0] + u[1];
        du[1] = -u[1] - u[0];
        if t > tc {
            du[which] = bad;
        }
    });
    let jac: F = Rc::new(move |_t, _u, df| df.copy_from_slice(&[-1.0, 1.0, -1.0, -1.0]));
    let mut p = base("time_wall", 2, ta, tb, vec![1.0, 0.5], f, jac, None);
    p.fails_at = Some(tc);
    p.autonomous = false;
    p.linear = true;
    p.smooth = false;
    p
}

// ---------------------------------------------------------------------------------------------
// Transformations

/// Independent problems side by side.
pub fn concat(ps: &[Prob]) -> Prob {
    if ps.len() == 1 {
        return ps[0].clone();
    }
    let n: usize = ps.iter().map(|p| p.n).sum();
    let parts: Vec<(usize, usize, F, F)> = {
        let mut o = 0;
        ps.iter()
            .map(|p| {
                let x = (o, p.n, p.f.clone(), p.jac.clone());
                o += p.n;
                x
            })
            .collect()
    };
    let pf = parts.clone();
    let f: F = Rc::new(move |t, u, du| {
        for (o, m, f, _) in &pf {
            f(t, &u[*o..o + m], &mut du[*o..o + m]);
        }
    });
    let pj = parts.clone();
    let jac: F = Rc::new(move |t, u, df| {
        for x in df.iter_mut() {
            *x = 0.0;
        }
        for (o, m, _, j) in &pj {
            let mut b = vec![0.0; m * m];
            j(t, &u[*o..o + m], &mut b);
            for i in 0..*m {
                for k in 0..*m {
                    df[(o + i) * n + o + k] = b[i * m + k];
                }
            }
        }
    });
    let flow: Option<Flow> = if ps.iter().all(|p| p.flow.is_some()) {
        let fl: Vec<(usize, Flow)> = ps.iter().map(|p| (p.n, p.flow.clone().unwrap())).collect();
        Some(Rc::new(move |t, u, s| {
            let mut out = vec![];
            let mut o = 0;
            for (m, g) in &fl {
                out.extend(g(t, &u[o..o + m], s));
                o += m;
            }
            out
        }))
    } else {
        None
    };
    let mut group = vec![];
    let mut goff = 0;
    for p in ps {
        group.extend(p.group.iter().map(|g| g + goff));
        goff += p.group.iter().max().unwrap() + 1;
    }
    Prob {
        name: ps.iter().map(|p| p.name.clone()).collect::<Vec<_>>().join("+"),
        n,
        t0: ps[0].t0,
        tf: ps[0].tf,
        u0: ps.iter().flat_map(|p| p.u0.clone()).collect(),
        f,
        jac,
        flow,
        exact: None,
        linear: ps.iter().all(|p| p.linear),
        autonomous: ps.iter().all(|p| p.autonomous),
        smooth: ps.iter().all(|p| p.smooth),
        stiffness: ps.iter().map(|p| p.stiffness).fold(0.0, f64::max),
        fails_at: ps.iter().filter_map(|p| p.fails_at).fold(None, |a: Option<f64>, b| Some(a.map_or(b, |x| x.min(b)))),
        group,
        cond: ps.iter().map(|p| p.cond).fold(1.0, f64::max),
    }
}

/// Change of units of the state: v_i = s_i u_i.
pub fn scale(p: &Prob, s: &[f64]) -> Prob {
    let n = p.n;
    let mut q = p.clone();
    q.u0 = p.u0.iter().zip(s).map(|(a, b)| a * b).collect();
    let (f0, s1) = (p.f.clone(), s.to_vec());
    q.f = Rc::new(move |t, v, dv| {
        let u: Vec<f64> = v.iter().zip(&s1).map(|(a, b)| a / b).collect();
        f0(t, &u, dv);
        for i in 0..n {
            dv[i] *= s1[i];
        }
    });
    let (j0, s2) = (p.jac.clone(), s.to_vec());
    q.jac = Rc::new(move |t, v, df| {
        let u: Vec<f64> = v.iter().zip(&s2).map(|(a, b)| a / b).collect();
        j0(t, &u, df);
        for i in 0..n {
            for k in 0..n {
                df[i * n + k] = df[i * n + k] * s2[i] / s2[k];
            }
        }
    });
    if let Some(fl) = p.flow.clone() {
        let s3 = s.to_vec();
        q.flow = Some(Rc::new(move |t, v, x| {
            let u: Vec<f64> = v.iter().zip(&s3).map(|(a, b)| a / b).collect();
            fl(t, &u, x).iter().zip(&s3).map(|(a, b)| a * b).collect()
        }));
    }
    if let Some(ex) = p.exact.clone() {
        let s4 = s.to_vec();
        q.exact = Some(Rc::new(move |t| ex(t).iter().zip(&s4).map(|(a, b)| a * b).collect()));
    }
    q
}

/// Relabelled components: v[i] = u[perm[i]].
pub fn permute(p: &Prob, perm: &[usize]) -> Prob {
    let n = p.n;
    let mut q = p.clone();
    let unperm = |v: &[f64], pm: &[usize]| -> Vec<f64> {
        let mut u = vec![0.0; v.len()];
        for (i, &k) in pm.iter().enumerate() {
            u[k] = v[i];
        }
        u
    };
    q.u0 = perm.iter().map(|&k| p.u0[k]).collect();
    q.group = perm.iter().map(|&k| p.group[k]).collect();
    let (f0, p1) = (p.f.clone(), perm.to_vec());
    q.f = Rc::new(move |t, v, dv| {
        let u = unperm(v, &p1);
        let mut du = vec![0.0; n];
        f0(t, &u, &mut du);
        for i in 0..n {
            dv[i] = du[p1[i]];
        }
    });
    let (j0, p2) = (p.jac.clone(), perm.to_vec());
    q.jac = Rc::new(move |t, v, df| {
        let u = unperm(v, &p2);
        let mut d = vec![0.0; n * n];
        j0(t, &u, &mut d);
        for i in 0..n {
            for k in 0..n {
                df[i * n + k] = d[p2[i] * n + p2[k]];
            }
        }
    });
    if let Some(fl) = p.flow.clone() {
        let p3 = perm.to_vec();
        q.flow = Some(Rc::new(move |t, v, s| {
            let u = fl(t, &unperm(v, &p3), s);
            p3.iter().map(|&k| u[k]).collect()
        }));
    }
    if let Some(ex) = p.exact.clone() {
        let p4 = perm.to_vec();
        q.exact = Some(Rc::new(move |t| {
            let u = ex(t);
            p4.iter().map(|&k| u[k]).collect()
        }));
    }
    q
}

/// Time reversal: s = -t. The span (t0, tf) becomes (-t0, -tf).
pub fn mirror(p: &Prob) -> Prob {
    let mut q = p.clone();
    q.t0 = -p.t0;
    q.tf = -p.tf;
    let f0 = p.f.clone();
    q.f = Rc::new(move |s, u, du| {
        f0(-s, u, du);
        for x in du.iter_mut() {
            *x = -*x;
        }
    });
    let j0 = p.jac.clone();
    q.jac = Rc::new(move |s, u, df| {
        j0(-s, u, df);
        for x in df.iter_mut() {
            *x = -*x;
        }
    });
    if let Some(fl) = p.flow.clone() {
        q.flow = Some(Rc::new(move |t, u, s| fl(-t, u, -s)));
    }
    if let Some(ex) = p.exact.clone() {
        q.exact = Some(Rc::new(move |s| ex(-s)));
    }
    q.fails_at = p.fails_at.map(|x| -x);
    q.name = format!("mirror({})", p.name);
    q
}

/// Time shift: s = t + d.
pub fn shift(p: &Prob, d: f64) -> Prob {
    if d == 0.0 {
        return p.clone();
    }
    let mut q = p.clone();
    q.t0 = p.t0 + d;
    q.tf = p.tf + d;
    let f0 = p.f.clone();
    q.f = Rc::new(move |s, u, du| f0(s - d, u, du));
    let j0 = p.jac.clone();
    q.jac = Rc::new(move |s, u, df| j0(s - d, u, df));
    if let Some(fl) = p.flow.clone() {
        q.flow = Some(Rc::new(move |t, u, s| fl(t - d, u, s - d)));
    }
    if let Some(ex) = p.exact.clone() {
        q.exact = Some(Rc::new(move |s| ex(s - d)));
    }
    q.fails_at = p.fails_at.map(|x| x + d);
    q
}

/// Change of time units: s = c t.
pub fn time_scale(p: &Prob, c: f64) -> Prob {
    let mut q = p.clone();
    q.t0 = p.t0 * c;
    q.tf = p.tf * c;
    let f0 = p.f.clone();
    q.f = Rc::new(move |s, u, du| {
        f0(s / c, u, du);
        for x in du.iter_mut() {
            *x /= c;
        }
    });
    let j0 = p.jac.clone();
    q.jac = Rc::new(move |s, u, df| {
        j0(s / c, u, df);
        for x in df.iter_mut() {
            *x /= c;
        }
    });
    if let Some(fl) = p.flow.clone() {
        q.flow = Some(Rc::new(move |t, u, s| fl(t / c, u, s / c)));
    }
    if let Some(ex) = p.exact.clone() {
        q.exact = Some(Rc::new(move |s| ex(s / c)));
    }
    q.fails_at = p.fails_at.map(|x| x * c);
    q.stiffness /= c;
    q
}

pub fn replicate(p: &Prob, m: usize) -> Prob {
    let mut q = concat(&vec![p.clone(); m]);
    q.name = format!("{}x{}", m, p.name);
    q
}

// ---------------------------------------------------------------------------------------------
// Generators

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// Closed-form flow, non-stiff.
    Exact,
    /// Closed-form flow, possibly stiff.
    ExactStiff,
    /// Anything smooth or not, non-stiff to moderately stiff, solution exists.
    Any,
    /// Anything incl. very stiff, for the implicit solver.
    AnyStiff,
    /// Solution ceases to exist.
    Failing,
}

fn exact_piece(r: &mut Rng, ta: f64, tb: f64, nmax: usize) -> Prob {
    let span = tb - ta;
    loop {
        let p = match r.below(15) {
            0 | 1 | 2 => {
                let n = r.int(1, nmax.min(6));
                let wmax = (40.0 / span).min(6.0);
                let amax = if r.chance(0.3) { (1.0 / span).min(0.3) } else { 0.0 };
                let mixed = r.chance(0.5);
                linblock(r, ta, tb, n, amax, -3.0, wmax, mixed)
            }
            3 | 4 => quad(r, ta, tb),
            5 => gauss(r, ta, tb),
            6 => expsin(r, ta, tb),
            7 => logistic(r, ta, tb),
            8 => cubic(r, ta, tb),
            9 => tanh(r, ta, tb),
            10 => relax(r, ta, tb, 0.1, 10.0),
            11 => bilinear(r, ta, tb),
            12 => chain(r, ta, tb, 5.0),
            13 => rotor(r, ta, tb),
            _ => {
                if r.chance(0.7) {
                    hopf(r, ta, tb)
                } else if r.chance(0.5) {
                    atan(r, ta, tb)
                } else {
                    integrator_chain(r, ta, tb)
                }
            }
        };
        if p.n <= nmax {
            return p;
        }
    }
}

fn stiff_piece(r: &mut Rng, ta: f64, tb: f64, nmax: usize) -> Prob {
    loop {
        let p = match r.below(6) {
            0 => relax(r, ta, tb, 10.0, 1e8),
            1 => {
                let n = r.int(1, nmax.min(5));
                let amin = -r.log(10.0, 1e6);
                let mixed = r.chance(0.5);
                linblock(r, ta, tb, n, 0.0, amin, 3.0, mixed)
            }
            2 => davis_skodje(r, ta, tb, 1e6),
            3 => chain(r, ta, tb, 1e6),
            4 => relax(r, ta, tb, 1e3, 1e10),
            _ => exact_piece(r, ta, tb, nmax),
        };
        if p.n <= nmax {
            return p;
        }
    }
}

fn any_piece(r: &mut Rng, ta: f64, tb: f64, nmax: usize, stiff: bool) -> Prob {
    loop {
        let p = match r.below(16) {
            0 => vdp(r, ta, tb, if stiff { 1e-6 } else { 0.05 }),
            1 => lotka(r, ta, tb),
            2 => pendulum(r, ta, tb),
            3 => brusselator(r, ta, tb),
            4 => {
                let n = r.int(2, nmax.clamp(2, 12));
                heat(r, ta, tb, n)
            }
            5 | 6 => square_wave(r, ta, tb),
            7 | 8 => pulse(r, ta, tb),
            9 => switch_nl(r, ta, tb),
            10 => switch_lin(r, ta, tb),
            11 => {
                if stiff {
                    robertson(r, ta, tb)
                } else {
                    relax(r, ta, tb, 1.0, 300.0)
                }
            }
            12 => {
                if stiff {
                    stiff_piece(r, ta, tb, nmax)
                } else {
                    relax(r, ta, tb, 1.0, 1000.0)
                }
            }
            _ => exact_piece(r, ta, tb, nmax),
        };
        let cap = if stiff { 1e12 } else { 2e3 };
        if p.n <= nmax && (p.stiffness * (tb - ta) <= cap) {
            return p;
        }
    }
}

pub struct GenCfg {
    pub kind: Kind,
    pub nmax: usize,
    pub tmax: f64,
    /// Allow scales other than one per component.
    pub scales: bool,
}

pub fn gen(r: &mut Rng, cfg: &GenCfg) -> Prob {
    let span = r.log(0.05, cfg.tmax);
    let ta = match r.below(4) {
        0 => 0.0,
        1 => -span * r.f(),
        2 => r.range(-3.0, 3.0),
        _ => -span,
    };
    let tb = ta + span;
    let target = if cfg.nmax > 12 {
        r.int(10, cfg.nmax)
    } else if cfg.nmax <= 2 || r.chance(0.5) { r.int(1, cfg.nmax.min(4)) } else { r.int(1, cfg.nmax) };
    let mut ps: Vec<Prob> = vec![];
    let mut n = 0;
    if cfg.kind == Kind::Failing {
        let p = match r.below(3) {
            0 => blowup(r, ta, tb),
            1 => domain(r, ta, tb),
            _ => time_wall(r, ta, tb),
        };
        n += p.n;
        ps.push(p);
    }
    let stiffmix = cfg.kind == Kind::ExactStiff && r.chance(0.75);
    while n < target || ps.is_empty() {
        let room = (target - n).max(1);
        let room = if ps.is_empty() { room.max(3.min(cfg.nmax)) } else { room };
        let p = match cfg.kind {
            Kind::Exact => exact_piece(r, ta, tb, room),
            // A stiff component dominates the norm in which the simplified Newton iteration judges
            // its convergence, so that an unrelated nonlinear component may be left unconverged for
            // a step. Problems whose solution does not forgive that are not mixed with stiff ones.
            Kind::ExactStiff if stiffmix => loop {
                let p = stiff_piece(r, ta, tb, room);
                if p.linear || p.name == "davis_skodje" || p.name == "chain" {
                    break p;
                }
            },
            Kind::ExactStiff => exact_piece(r, ta, tb, room),
            Kind::Any | Kind::Failing => any_piece(r, ta, tb, room.max(2), false),
            Kind::AnyStiff => any_piece(r, ta, tb, room.max(2), true),
        };
        n += p.n;
        ps.push(p);
    }
    let mut p = concat(&ps);
    if p.n > 1 && r.chance(0.4) {
        let pm = r.perm(p.n);
        p = permute(&p, &pm);
    }
    if cfg.scales && r.chance(0.4) {
        // one unit per group of coupled components keeps conditioning meaningful
        let ng = p.group.iter().max().unwrap() + 1;
        let gs: Vec<f64> = (0..ng).map(|_| r.log(1e-3, 1e3)).collect();
        let s: Vec<f64> = p.group.iter().map(|&g| gs[g]).collect();
        p = scale(&p, &s);
    }
    if r.chance(0.25) {
        // rounding of the time itself perturbs a stiff right-hand side by stiffness * eps * |t|
        let d = r.sign() * r.log(1.0, if p.stiffness > 1e4 { 30.0 } else { 1e4 });
        p = shift(&p, d);
    }
    if r.chance(0.4) {
        p = mirror(&p);
    }
    p
}
