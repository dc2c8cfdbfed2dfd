//! Dense reference linear algebra (Gaussian elimination with complete-row pivoting on magnitudes).

/// Solve a x = b, both overwritten; None when a pivot vanishes or is not finite.
pub fn solve(n: usize, a: &[f64], b: &[f64]) -> Option<Vec<f64>> {
    let mut a = a.to_vec();
    let mut x = b.to_vec();
    for k in 0..n {
        let mut p = k;
        for i in k + 1..n {
            if a[i * n + k].abs() > a[p * n + k].abs() {
                p = i;
            }
        }
        let pv = a[p * n + k];
        if !(pv.abs() > 0.0) || !pv.is_finite() {
            return None;
        }
        if p != k {
            for j in 0..n {
                a.swap(k * n + j, p * n + j);
            }
            x.swap(k, p);
        }
        for i in k + 1..n {
            let m = a[i * n + k] / pv;
            if m != 0.0 {
                for j in k + 1..n {
                    a[i * n + j] -= m * a[k * n + j];
                }
                x[i] -= m * x[k];
            }
        }
    }
    for k in (0..n).rev() {
        let mut s = x[k];
        for j in k + 1..n {
            s -= a[k * n + j] * x[j];
        }
        x[k] = s / a[k * n + k];
    }
    if x.iter().all(|v| v.is_finite()) {
        Some(x)
    } else {
        None
    }
}
