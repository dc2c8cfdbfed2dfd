//! Reference Radau IIA (three stages, order five) step: the collocation equations are solved by a
//! full Newton iteration on the 3n-dimensional system, and the filtered error estimate of Hairer &
//! Wanner ("Solving ODEs II", IV.8) is formed independently.

use crate::lin::solve;

pub fn tableau() -> ([f64; 3], [[f64; 3]; 3]) {
    let s = 6f64.sqrt();
    (
        [(4.0 - s) / 10.0, (4.0 + s) / 10.0, 1.0],
        [
            [(88.0 - 7.0 * s) / 360.0, (296.0 - 169.0 * s) / 1800.0, (-2.0 + 3.0 * s) / 225.0],
            [(296.0 + 169.0 * s) / 1800.0, (88.0 + 7.0 * s) / 360.0, (-2.0 - 3.0 * s) / 225.0],
            [(16.0 - s) / 36.0, (16.0 + s) / 36.0, 1.0 / 9.0],
        ],
    )
}

pub struct Stages {
    pub z: Vec<f64>, // 3n
    pub iters: usize,
    /// Size of the last Newton update per component (max over stages).
    pub last: Vec<f64>,
}

pub type Rhs<'a> = &'a dyn Fn(f64, &[f64]) -> Vec<f64>;

/// Solve the collocation equations starting from `z`. None if Newton does not converge.
pub fn stages(f: Rhs, jac: Rhs, t: f64, u: &[f64], h: f64, z0: &[f64], scal: &[f64]) -> Option<Stages> {
    let n = u.len();
    let (c, a) = tableau();
    let mut z = z0.to_vec();
    let mut best = f64::INFINITY;
    let mut stall = 0;
    for it in 0..60 {
        let mut fs = vec![];
        let mut js = vec![];
        for s in 0..3 {
            let y: Vec<f64> = (0..n).map(|i| u[i] + z[s * n + i]).collect();
            fs.push(f(t + c[s] * h, &y));
            js.push(jac(t + c[s] * h, &y));
        }
        let m = 3 * n;
        let mut g = vec![0.0; m];
        let mut dm = vec![0.0; m * m];
        for s in 0..3 {
            for i in 0..n {
                let mut r = z[s * n + i];
                for q in 0..3 {
                    r -= h * a[s][q] * fs[q][i];
                    for j in 0..n {
                        dm[(s * n + i) * m + q * n + j] -= h * a[s][q] * js[q][i * n + j];
                    }
                }
                dm[(s * n + i) * m + s * n + i] += 1.0;
                g[s * n + i] = -r;
            }
        }
        if g.iter().any(|x| !x.is_finite()) {
            return None;
        }
        let d = solve(m, &dm, &g)?;
        let mut nrm = 0f64;
        for s in 0..3 {
            for i in 0..n {
                z[s * n + i] += d[s * n + i];
                nrm = nrm.max(d[s * n + i].abs() / scal[i]);
            }
        }
        let last: Vec<f64> = (0..n).map(|i| (0..3).map(|s| d[s * n + i].abs()).fold(0.0, f64::max)).collect();
        let tiny = (0..n).all(|i| {
            let sc: f64 = u[i].abs() + (0..3).map(|s| z[s * n + i].abs()).fold(0.0, f64::max);
            last[i] <= 4.0 * f64::EPSILON * sc + 1e-300
        });
        if tiny {
            return Some(Stages { z, iters: it + 1, last });
        }
        if nrm < best * 0.7 {
            best = nrm;
            stall = 0;
        } else {
            stall += 1;
            if stall > 4 {
                return if nrm < 1e-6 { Some(Stages { z, iters: it + 1, last }) } else { None };
            }
        }
    }
    None
}

/// Filtered error estimate: (first filter, re-filtered).
pub fn error(f: Rhs, jmat: &[f64], t: f64, u: &[f64], f0: &[f64], h: f64, z: &[f64], scal: &[f64]) -> Option<(f64, f64, Vec<f64>)> {
    let n = u.len();
    let s6 = 6f64.sqrt();
    let g0 = {
        // real eigenvalue of the inverse of the Radau matrix
        let x = 81f64.powf(1.0 / 3.0) - 9f64.powf(1.0 / 3.0);
        30.0 / (6.0 + x)
    };
    let e = [-(13.0 + 7.0 * s6) / 3.0, (-13.0 + 7.0 * s6) / 3.0, -1.0 / 3.0];
    let mut m = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            m[i * n + j] = -jmat[i * n + j];
        }
        m[i * n + i] += g0 / h;
    }
    let w: Vec<f64> = (0..n).map(|i| (e[0] * z[i] + e[1] * z[n + i] + e[2] * z[2 * n + i]) / h).collect();
    let b: Vec<f64> = (0..n).map(|i| w[i] + f0[i]).collect();
    let x = solve(n, &m, &b)?;
    let norm = |x: &[f64]| ((0..n).map(|i| (x[i] / scal[i]).powi(2)).sum::<f64>() / n as f64).sqrt();
    let e1 = norm(&x);
    let y: Vec<f64> = (0..n).map(|i| u[i] + x[i]).collect();
    let f1 = f(t, &y);
    let b2: Vec<f64> = (0..n).map(|i| w[i] + f1[i]).collect();
    let e2 = match solve(n, &m, &b2) {
        Some(x2) => norm(&x2),
        None => f64::NAN,
    };
    Some((e1, e2, x))
}
