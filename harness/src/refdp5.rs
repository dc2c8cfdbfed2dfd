//! Reference Dormand-Prince 5(4) step, written from the published tableau (Hairer, Norsett, Wanner,
//! "Solving ODEs I", Table II.5.2), with optional rounding jitter to measure its own sensitivity.

use crate::rng::Rng;

const C: [f64; 7] = [0.0, 1.0 / 5.0, 3.0 / 10.0, 4.0 / 5.0, 8.0 / 9.0, 1.0, 1.0];
const A: [[f64; 6]; 7] = [
    [0.0; 6],
    [1.0 / 5.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [3.0 / 40.0, 9.0 / 40.0, 0.0, 0.0, 0.0, 0.0],
    [44.0 / 45.0, -56.0 / 15.0, 32.0 / 9.0, 0.0, 0.0, 0.0],
    [19372.0 / 6561.0, -25360.0 / 2187.0, 64448.0 / 6561.0, -212.0 / 729.0, 0.0, 0.0],
    [9017.0 / 3168.0, -355.0 / 33.0, 46732.0 / 5247.0, 49.0 / 176.0, -5103.0 / 18656.0, 0.0],
    [35.0 / 384.0, 0.0, 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0],
];
const B4: [f64; 7] = [
    5179.0 / 57600.0,
    0.0,
    7571.0 / 16695.0,
    393.0 / 640.0,
    -92097.0 / 339200.0,
    187.0 / 2100.0,
    1.0 / 40.0,
];

pub struct Att {
    pub unew: Vec<f64>,
    pub err: f64,
    pub k: Vec<Vec<f64>>,
    /// Half-width of the rounding interval of `err`.
    pub derr: f64,
    /// Rounding allowance per component of `unew`.
    pub du: Vec<f64>,
}

fn once(
    f: &dyn Fn(f64, &[f64]) -> Vec<f64>,
    t: f64,
    u: &[f64],
    h: f64,
    atol: f64,
    rtol: f64,
    mut jit: Option<&mut Rng>,
) -> (Vec<f64>, f64, Vec<Vec<f64>>, f64) {
    let n = u.len();
    let mut k: Vec<Vec<f64>> = vec![];
    let mut y = u.to_vec();
    for s in 0..7 {
        y = (0..n)
            .map(|i| {
                let mut a = 0.0;
                for j in 0..s {
                    if A[s][j] != 0.0 {
                        a += A[s][j] * k[j][i];
                    }
                }
                let mut v = u[i] + h * a;
                if let Some(r) = jit.as_deref_mut() {
                    if s > 0 {
                        v *= 1.0 + (r.f() - 0.5) * 8.0 * f64::EPSILON;
                        v += (r.f() - 0.5) * 8.0 * f64::EPSILON * (u[i].abs() + (h * a).abs());
                    }
                }
                v
            })
            .collect();
        let mut ts = t + C[s] * h;
        if let Some(r) = jit.as_deref_mut() {
            ts *= 1.0 + (r.f() - 0.5) * 2.0 * f64::EPSILON;
        }
        k.push(f(ts, &y));
    }
    let unew = y;
    let mut e2 = 0.0;
    let mut round = 0.0;
    for i in 0..n {
        let mut e = 0.0;
        let mut ea = 0.0;
        for j in 0..7 {
            let d = (if j < 6 { A[6][j] } else { 0.0 }) - B4[j];
            if d != 0.0 {
                e += d * k[j][i];
                ea += (d * k[j][i]).abs();
            }
        }
        let w = atol + rtol * u[i].abs().max(unew[i].abs());
        e2 += (h * e / w) * (h * e / w);
        let q = 8.0 * f64::EPSILON * h.abs() * ea / w;
        round += q * q;
    }
    (unew, (e2 / n as f64).sqrt(), k, (round / n as f64).sqrt())
}

pub fn attempt(f: &dyn Fn(f64, &[f64]) -> Vec<f64>, t: f64, u: &[f64], h: f64, atol: f64, rtol: f64, seed: u64) -> Att {
    let n = u.len();
    let (unew, err, k, round) = once(f, t, u, h, atol, rtol, None);
    let mut derr = 1e-12 * err + 4.0 * round;
    let mut du: Vec<f64> = (0..n).map(|i| 1e-15 * (u[i].abs() + unew[i].abs())).collect();
    for s in 0..2 {
        let mut r = Rng::new(seed.wrapping_add(s));
        let (u2, e2, _, _) = once(f, t, u, h, atol, rtol, Some(&mut r));
        derr += 20.0 * (e2 - err).abs();
        for i in 0..n {
            du[i] += 20.0 * (u2[i] - unew[i]).abs();
        }
    }
    Att { unew, err, k, derr, du }
}

/// Proposed step factor after an attempt (Hairer's PI controller), in terms of the new step size.
#[derive(Clone, Debug)]
pub struct Ctl {
    pub safe: f64,
    pub beta: f64,
    pub facl: f64,
    pub facr: f64,
    pub dtmax: f64,
}

impl Ctl {
    pub fn accepted(&self, h: f64, err: f64, eprev: f64, rejected_before: bool) -> f64 {
        let a = 0.2 - 0.75 * self.beta;
        let ratio = if err == 0.0 { f64::INFINITY } else { self.safe * eprev.powf(self.beta) / err.powf(a) };
        let ratio = ratio.max(self.facl).min(self.facr);
        let mut hn = (h.abs() * ratio).min(self.dtmax);
        if rejected_before {
            hn = hn.min(h.abs());
        }
        hn.copysign(h)
    }
    pub fn rejected(&self, h: f64, err: f64) -> f64 {
        let a = 0.2 - 0.75 * self.beta;
        let ratio = (self.safe / err.powf(a)).max(self.facl);
        h * ratio
    }
}
