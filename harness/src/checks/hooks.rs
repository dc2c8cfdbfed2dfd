//! C13..C16: linear algebra, Jacobians and dense output, reached through the guarded hooks.

use super::life::{alg, crashed};
use crate::fw::{Case, Spec};
use crate::opts::{gen_opt, OptCfg};
use crate::prob::{self, gen, GenCfg, Kind, F};
use crate::refdp5;
use crate::refradau;
use crate::rng::Rng;
use crate::run::{run, run_visit, Alg, CbAct, EvKind, Mode, Ret, Setup, StepView};
use cyphus_diffeq::verif_hooks as vh;
use ndarray::prelude::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C13",
            level: "exploration",
            rule: "random, graded, permuted, sparse, badly scaled, tiny-pivot, real, imaginary and mixed dense matrices of size 1..40 (rarely 150 or 400), several right-hand sides per factorization; matrices whose elimination is exact in binary, regular (solution must be exact) or singular at every stage; non-trivial: size at least 2",
            quick: 1200000,
            thorough: 20000000,
            case: c13,
            require: &["real", "complex", "purely_imaginary", "singular_first", "singular_middle", "singular_last", "exact_regular", "row_exchanges", "many_rhs", "size_1"],
            assumptions: &[],
        },
        Spec {
            id: "C14",
            level: "exploration",
            rule: "random banded matrices with every pair of bandwidths and Hessenberg-like matrices with every lower bandwidth, size 1..24 (rarely 100), real and complex, storage outside the band filled with garbage; exactly eliminable ones, regular or singular at every stage; Hessenberg reductions over every index range replayed from the stored multipliers; non-trivial: size at least 2",
            quick: 1200000,
            thorough: 20000000,
            case: c14,
            require: &["real_band", "complex_band", "real_hess", "complex_hess", "singular_first", "singular_middle", "singular_last", "exact_regular", "reductions", "row_exchanges", "partial_ranges"],
            assumptions: &[],
        },
        Spec {
            id: "C15",
            level: "exploration",
            rule: "(a) numerical derivatives of random smooth functions with component magnitudes 1e-8..1e8 against the analytic ones, every probe of the right-hand side logged; (b) supplied derivatives; (c) implicit integrations of generated problems with and without a supplied Jacobian; non-trivial: dimension at least 2 or a paired run of at least 3 steps",
            quick: 144000,
            thorough: 3600000,
            case: c15,
            require: &["entries", "time_derivatives", "probes", "supplied", "paired_runs", "negative_states", "tiny_states", "many_states", "huge_states"],
            assumptions: &[],
        },
        Spec {
            id: "C16",
            level: "exploration",
            rule: "every accepted step of generated problems with dense output on, both solvers and directions, interpolant read at both ends and at random interior points and compared with the recorded states, with the interpolation polynomial recomputed from reference stages, with the local solution, and with polynomial solutions; non-trivial: at least 3 accepted steps",
            quick: 144000,
            thorough: 3600000,
            case: c16,
            require: &["ends", "interior_dp5", "interior_radau", "polynomial", "accuracy_judged", "after_rejection", "backward", "after_callback_change"],
            assumptions: &[],
        },
    ]
}

#[derive(Clone, Copy, PartialEq)]
struct Cx(f64, f64);
impl Cx {
    fn mul(self, o: Cx) -> Cx {
        Cx(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
    fn add(self, o: Cx) -> Cx {
        Cx(self.0 + o.0, self.1 + o.1)
    }
    fn abs(self) -> f64 {
        self.0.abs() + self.1.abs()
    }
}

/// Storage scheme of a factorization under test.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Dense,
    Hess(usize),
    Band(usize, usize),
}

/// Factorization and solves by the code under test.
struct Lu {
    n: usize,
    form: Form,
    cx: bool,
    ar: Array2<f64>,
    ai: Array2<f64>,
    ip: Array1<i32>,
    ier: usize,
}

fn factor(n: usize, a: &[Cx], form: Form, cx: bool, garbage: Option<u64>) -> Lu {
    let mut g = Rng::new(garbage.unwrap_or(1));
    let mut junk = || if garbage.is_some() { g.range(-3.0, 3.0) } else { 0.0 };
    let mut ip = Array1::<i32>::from_elem(n, 77);
    let (ar, ai, ier);
    match form {
        Form::Dense | Form::Hess(_) => {
            let lb = if let Form::Hess(l) = form { l } else { n };
            let mut re = Array2::<f64>::zeros((n, n));
            let mut im = Array2::<f64>::zeros((n, n));
            for i in 0..n {
                for j in 0..n {
                    let below = i > j + lb;
                    re[[i, j]] = if below { junk() } else { a[i * n + j].0 };
                    im[[i, j]] = if below { junk() } else { a[i * n + j].1 };
                }
            }
            ier = match (form, cx) {
                (Form::Dense, false) => vh::dec(n, re.view_mut(), ip.view_mut()),
                (Form::Dense, true) => vh::decc(n, re.view_mut(), im.view_mut(), ip.view_mut()),
                (_, false) => vh::dech(n, re.view_mut(), lb, ip.view_mut()),
                (_, true) => vh::dechc(n, re.view_mut(), im.view_mut(), lb, ip.view_mut()),
            };
            ar = re;
            ai = im;
        }
        Form::Band(lb, ub) => {
            let md = lb + ub;
            let rows = md + lb + 1;
            let mut re = Array2::<f64>::zeros((rows, n));
            let mut im = Array2::<f64>::zeros((rows, n));
            for j in 0..n {
                for r in 0..rows {
                    // row of the matrix stored at (r, j)
                    let i = r as i64 + j as i64 - md as i64;
                    let inside = i >= 0 && i < n as i64 && r >= lb;
                    re[[r, j]] = if inside { a[i as usize * n + j].0 } else { junk() };
                    im[[r, j]] = if inside { a[i as usize * n + j].1 } else { junk() };
                }
            }
            ier = if cx { vh::decbc(n, re.view_mut(), im.view_mut(), lb, ub, ip.view_mut()) } else { vh::decb(n, re.view_mut(), lb, ub, ip.view_mut()) };
            ar = re;
            ai = im;
        }
    }
    Lu { n, form, cx, ar, ai, ip, ier }
}

impl Lu {
    fn solve(&self, b: &[Cx]) -> Vec<Cx> {
        let mut br = Array1::from(b.iter().map(|x| x.0).collect::<Vec<_>>());
        let mut bi = Array1::from(b.iter().map(|x| x.1).collect::<Vec<_>>());
        let (n, ar, ai, ip) = (self.n, self.ar.view(), self.ai.view(), self.ip.view());
        match (self.form, self.cx) {
            (Form::Dense, false) => vh::sol(n, ar, br.view_mut(), ip),
            (Form::Dense, true) => vh::solc(n, ar, ai, br.view_mut(), bi.view_mut(), ip),
            (Form::Hess(lb), false) => vh::solh(n, ar, lb, br.view_mut(), ip),
            (Form::Hess(lb), true) => vh::solhc(n, ar, ai, lb, br.view_mut(), bi.view_mut(), ip),
            (Form::Band(lb, ub), false) => vh::solb(n, ar, lb, ub, br.view_mut(), ip),
            (Form::Band(lb, ub), true) => vh::solbc(n, ar, ai, lb, ub, br.view_mut(), bi.view_mut(), ip),
        }
        (0..n).map(|i| Cx(br[i], bi[i])).collect()
    }
}

fn inside(form: Form, i: usize, j: usize) -> bool {
    match form {
        Form::Dense => true,
        Form::Hess(lb) => i <= j + lb,
        Form::Band(lb, ub) => i <= j + lb && j <= i + ub,
    }
}

/// Real, imaginary or mixed random number.
fn entry(r: &mut Rng, cx: bool, kind: usize) -> Cx {
    if !cx {
        return Cx(r.range(-1.0, 1.0), 0.0);
    }
    match if kind == 3 { r.below(3) } else { kind } {
        0 => Cx(r.range(-1.0, 1.0), 0.0),
        1 => Cx(0.0, r.range(-1.0, 1.0)),
        _ => Cx(r.range(-1.0, 1.0), r.range(-1.0, 1.0)),
    }
}

/// Exactly determined problem: A = L U (rows optionally exchanged) with small dyadic entries, power of
/// two pivots and multipliers below one, so that elimination with partial pivoting makes no rounding
/// at all. With `zero` the pivot of that stage and everything below it vanishes.
fn dyadic(r: &mut Rng, n: usize, form: Form, cx: bool, zero: Option<usize>) -> (Vec<Cx>, bool) {
    let mut l = vec![Cx(0.0, 0.0); n * n];
    let mut u = vec![Cx(0.0, 0.0); n * n];
    // exchanges widen the band by one: leave room for them
    let (swaps, inner) = match form {
        Form::Dense => (true, form),
        Form::Hess(lb) if lb >= 1 && r.chance(0.5) => (true, Form::Hess(lb - 1)),
        Form::Band(lb, ub) if lb >= 1 && ub >= 1 && r.chance(0.5) => (true, Form::Band(lb - 1, ub - 1)),
        f => (false, f),
    };
    for i in 0..n {
        for j in 0..n {
            if !inside(inner, i, j) {
                continue;
            }
            if i > j {
                // |re|+|im| < 1
                l[i * n + j] = if cx { Cx((r.below(4) as f64 - 1.5) / 4.0, (r.below(4) as f64 - 1.5) / 4.0) } else { Cx((r.below(7) as f64 - 3.0) / 4.0, 0.0) };
                if r.chance(0.2) {
                    l[i * n + j] = Cx(0.0, 0.0);
                }
            } else if i < j {
                u[i * n + j] = Cx(r.below(5) as f64 - 2.0, if cx { r.below(5) as f64 - 2.0 } else { 0.0 });
            } else {
                let p = r.sign() * 2f64.powi(r.below(3) as i32);
                // |p|^2 is a power of two in all three directions
                u[i * n + i] = match if cx { r.below(4) } else { 0 } {
                    0 => Cx(p, 0.0),
                    1 => Cx(0.0, p),
                    _ => Cx(p, r.sign() * p),
                };
                l[i * n + i] = Cx(1.0, 0.0);
            }
        }
    }
    if let Some(k) = zero {
        u[k * n + k] = Cx(0.0, 0.0);
    }
    let mut a = vec![Cx(0.0, 0.0); n * n];
    for i in 0..n {
        for j in 0..n {
            let mut s = Cx(0.0, 0.0);
            for k in 0..=i.min(j) {
                s = s.add(l[i * n + k].mul(u[k * n + j]));
            }
            a[i * n + j] = s;
        }
    }
    let mut moved = false;
    if swaps {
        if form == Form::Dense {
            let p = r.perm(n);
            moved = p.iter().enumerate().any(|(i, &k)| i != k);
            a = (0..n * n).map(|x| a[p[x / n] * n + x % n]).collect();
        } else {
            let mut i = 0;
            while i + 1 < n {
                if r.chance(0.4) {
                    for j in 0..n {
                        a.swap(i * n + j, (i + 1) * n + j);
                    }
                    moved = true;
                    i += 1;
                }
                i += 1;
            }
        }
    }
    (a, moved)
}

fn matvec(n: usize, a: &[Cx], x: &[Cx]) -> Vec<Cx> {
    (0..n)
        .map(|i| {
            let mut s = Cx(0.0, 0.0);
            for j in 0..n {
                s = s.add(a[i * n + j].mul(x[j]));
            }
            s
        })
        .collect()
}

/// Some matrices are measured in units far from one (a power of two, which changes no rounding).
fn far_unit(r: &mut Rng, a: &mut [Cx], cx: bool) {
    if r.chance(0.2) {
        let x = if cx { 350 } else { 940 };
        let k = 2f64.powi(r.int(0, 2 * x) as i32 - x as i32);
        a.iter_mut().for_each(|z| *z = Cx(z.0 * k, z.1 * k));
    }
}

fn linear_case(c: &mut Case, form: Form, n: usize, cx: bool) {
    c.nontrivial = n >= 2;
    c.add("size_1", (n == 1) as u64);
    let r = &mut c.rng;
    let garbage = if r.chance(0.5) { Some(r.u64()) } else { None };
    let what = r.below(4);
    if what == 0 {
        // singular exactly at a chosen stage
        let k = match r.below(3) {
            0 => 0,
            1 => n - 1,
            _ => r.below(n),
        };
        let (mut a, moved) = dyadic(r, n, form, cx, Some(k));
        far_unit(r, &mut a, cx);
        c.desc = format!("{:?} n={} complex={} singular at stage {} ({:x})", form, n, cx, k, r.u64());
        let lu = factor(n, &a, form, cx, garbage);
        if lu.ier == 0 {
            c.fail(format!("a matrix singular at stage {} of {} was accepted (rows exchanged: {})", k, n, moved));
        } else if lu.ier != k + 1 {
            c.fail(format!("singularity of stage {} of {} reported with code {}", k + 1, n, lu.ier));
        }
        c.add(if k == 0 { "singular_first" } else if k == n - 1 { "singular_last" } else { "singular_middle" }, 1);
        return;
    }
    if what == 1 {
        let (mut a, moved) = dyadic(r, n, form, cx, None);
        far_unit(r, &mut a, cx);
        c.desc = format!("{:?} n={} complex={} exact elimination ({:x})", form, n, cx, r.u64());
        let lu = factor(n, &a, form, cx, garbage);
        if lu.ier != 0 {
            c.fail(format!("a regular matrix was reported singular (code {})", lu.ier));
            return;
        }
        for _ in 0..2 {
            let x: Vec<Cx> = (0..n).map(|_| Cx(c.rng.below(9) as f64 - 4.0, if cx { c.rng.below(9) as f64 - 4.0 } else { 0.0 })).collect();
            let b = matvec(n, &a, &x);
            let y = lu.solve(&b);
            for i in 0..n {
                let d = Cx(y[i].0 - x[i].0, y[i].1 - x[i].1).abs();
                if !(d <= 1e-10) {
                    c.fail(format!("component {}: ({:?}, {:?}) instead of ({:?}, {:?})", i, y[i].0, y[i].1, x[i].0, x[i].1));
                    return;
                }
            }
        }
        c.add("exact_regular", 1);
        c.add("row_exchanges", moved as u64);
        return;
    }
    // general matrices
    let kind = r.below(4);
    let sparse = if r.chance(0.3) { r.range(0.2, 0.9) } else { 0.0 };
    let mut a = vec![Cx(0.0, 0.0); n * n];
    for i in 0..n {
        for j in 0..n {
            if inside(form, i, j) && !r.chance(sparse) {
                a[i * n + j] = entry(r, cx, kind);
            }
        }
    }
    let style = r.below(7);
    let mut rowwise = true;
    match style {
        0 => {
            // tiny diagonal: pivoting is essential
            for i in 0..n {
                let z = a[i * n + i];
                a[i * n + i] = Cx(z.0 * 1e-13, z.1 * 1e-13);
            }
        }
        1 => {
            // zero diagonal where something is left below it
            for i in 0..n {
                if i + 1 < n && inside(form, i + 1, i) {
                    a[i * n + i] = Cx(0.0, 0.0);
                }
            }
        }
        2 => {
            // columns in different units
            for j in 0..n {
                let s = r.log(1e-30, 1e30);
                for i in 0..n {
                    let z = a[i * n + j];
                    a[i * n + j] = Cx(z.0 * s, z.1 * s);
                }
            }
        }
        3 => {
            // rows in different units
            rowwise = false;
            for i in 0..n {
                let s = r.log(1e-6, 1e6);
                for j in 0..n {
                    let z = a[i * n + j];
                    a[i * n + j] = Cx(z.0 * s, z.1 * s);
                }
            }
        }
        4 => {
            // shifted, as in an implicit method
            let s = r.log(1e-3, 1e6);
            for i in 0..n {
                a[i * n + i] = a[i * n + i].add(Cx(s, if cx { s * 1.2 } else { 0.0 }));
            }
        }
        5 => {
            let x = if r.chance(0.5) { 1e60 } else if cx { 1e120 } else { 1e250 };
            let s = r.log(1.0 / x, x);
            for z in a.iter_mut() {
                *z = Cx(z.0 * s, z.1 * s);
            }
        }
        _ => {}
    }
    c.desc = format!("{:?} n={} complex={} kind {} style {} sparsity {:.2} ({:x})", form, n, cx, kind, style, sparse, r.u64());
    // judge regularity by an independent elimination with complete pivoting
    let piv = complete_pivots(n, &a);
    let top = piv.iter().fold(0.0f64, |x, y| x.max(*y));
    let low = piv.iter().fold(f64::INFINITY, |x, y| x.min(*y));
    let lu = factor(n, &a, form, cx, garbage);
    if low == 0.0 || style != 2 && style != 3 && low < 1e-12 * top {
        // structurally (or nearly) singular: rounding decides what is reported
        c.add("near_singular", 1);
        c.nontrivial = false;
        return;
    }
    if style == 2 && piv.iter().any(|p| !p.is_finite()) {
        return;
    }
    if lu.ier != 0 {
        if style == 3 || style == 2 {
            c.nontrivial = false;
            return;
        }
        c.fail(format!("a regular matrix was reported singular (code {}, pivots from {:e} down to {:e})", lu.ier, top, low));
        return;
    }
    c.add("row_exchanges", (0..n - 1).any(|k| lu.ip[k] != k as i32) as u64);
    let m = c.rng.int(1, 4);
    c.add("many_rhs", (m > 1) as u64);
    for q in 0..m {
        let b: Vec<Cx> = match q {
            3 => {
                let k = c.rng.below(n);
                (0..n).map(|i| Cx((i == k) as u8 as f64, 0.0)).collect()
            }
            _ => (0..n).map(|_| entry(&mut c.rng, cx, 2)).collect(),
        };
        let x = lu.solve(&b);
        let ax = matvec(n, &a, &x);
        let bm = b.iter().map(|v| v.abs()).fold(0.0, f64::max);
        // growth is bounded in practice by a small multiple of n; columns keep their own scale
        let colmag: f64 = (0..n).map(|j| (0..n).map(|i| a[i * n + j].abs()).fold(0.0, f64::max) * x[j].abs()).sum();
        for i in 0..n {
            let res = Cx(ax[i].0 - b[i].0, ax[i].1 - b[i].1).abs();
            let lim = 1e-15 * (n as f64).max(4.0) * (colmag + bm * if rowwise { 1.0 } else { 1e6 });
            if !c.bound(if cx { "residual_complex" } else { "residual_real" }, res, lim, || format!("row {} of right-hand side {}: residual {:e}, solution {:?}", i, q, res, (x[i].0, x[i].1))) {
                return;
            }
        }
    }
    match form {
        Form::Dense => {
            c.add(if cx { "complex" } else { "real" }, 1);
            c.add("purely_imaginary", (cx && kind == 1) as u64);
        }
        Form::Hess(_) => c.add(if cx { "complex_hess" } else { "real_hess" }, 1),
        Form::Band(..) => c.add(if cx { "complex_band" } else { "real_band" }, 1),
    }
}

/// Magnitudes of the pivots of an elimination with complete pivoting.
fn complete_pivots(n: usize, a: &[Cx]) -> Vec<f64> {
    let mut a = a.to_vec();
    let mut out = vec![];
    for k in 0..n {
        let (mut pi, mut pj, mut best) = (k, k, -1.0);
        for i in k..n {
            for j in k..n {
                let m = a[i * n + j].abs();
                if m > best {
                    best = m;
                    pi = i;
                    pj = j;
                }
            }
        }
        out.push(best);
        if !(best > 0.0) {
            out.extend(vec![0.0; n - k - 1]);
            return out;
        }
        for j in 0..n {
            a.swap(k * n + j, pi * n + j);
        }
        for i in 0..n {
            a.swap(i * n + k, i * n + pj);
        }
        let p = a[k * n + k];
        let d = p.0.hypot(p.1);
        let inv = Cx(p.0 / d / d, -p.1 / d / d);
        for i in k + 1..n {
            let m = a[i * n + k].mul(inv);
            for j in k..n {
                let z = m.mul(a[k * n + j]);
                a[i * n + j] = Cx(a[i * n + j].0 - z.0, a[i * n + j].1 - z.1);
            }
        }
    }
    out
}

fn c13(c: &mut Case) {
    let r = &mut c.rng;
    let top = if r.chance(0.001) { if r.chance(0.9) { 150 } else { 400 } } else { *r.pick(&[1, 3, 6, 12, 40]) };
    let n = r.int(1, top);
    let cx = r.chance(0.5);
    linear_case(c, Form::Dense, n, cx);
}

fn c14(c: &mut Case) {
    let r = &mut c.rng;
    let top = if r.chance(0.001) { 100 } else { *r.pick(&[1, 4, 8, 24]) };
    let n = r.int(1, top);
    let cx = r.chance(0.5);
    match r.below(5) {
        0 | 1 => {
            let (lb, ub) = (r.below(n), r.below(n));
            linear_case(c, Form::Band(lb, ub), n, cx);
        }
        2 | 3 => {
            let lb = r.below(n);
            linear_case(c, Form::Hess(lb), n, cx);
        }
        _ => reduction(c, n),
    }
}

fn reduction(c: &mut Case, n: usize) {
    let r = &mut c.rng;
    let (low, igh) = if r.chance(0.5) {
        (0, n)
    } else {
        let l = r.below(n);
        (l, r.int(l + 1, n))
    };
    let sparse = if r.chance(0.3) { 0.5 } else { 0.0 };
    let sc = r.log(1e-20, 1e20);
    let mut a = Array2::<f64>::zeros((n, n));
    for i in 0..n {
        for j in 0..n {
            // outside the range the matrix is already triangular
            let tri = j < low && i > j || i >= igh && j < i;
            if !tri && !r.chance(sparse) {
                a[[i, j]] = r.range(-1.0, 1.0) * sc * if r.chance(0.1) { 1e-10 } else { 1.0 };
            }
        }
    }
    c.desc = format!("reduction n={} low={} igh={} sparse={} ({:x})", n, low, igh, sparse, r.u64());
    let mut h = a.clone();
    let mut inter = Array1::<i32>::from_elem(n, -1);
    vh::elmhes(n, low, igh, h.view_mut(), inter.view_mut());
    // replay: the same similarity applied to the original with the stored multipliers
    let mut t = a.clone();
    let mut moved = false;
    if igh >= low + 3 {
        for m in low + 1..igh - 1 {
            let ii = inter[m];
            if ii < m as i32 || ii >= igh as i32 {
                c.fail(format!("interchange {} recorded for column {}", ii, m - 1));
                return;
            }
            let ii = ii as usize;
            moved |= ii != m;
            for j in 0..n {
                t.swap([ii, j], [m, j]);
            }
            for j in 0..n {
                t.swap([j, ii], [j, m]);
            }
            for i in m + 1..igh {
                let y = h[[i, m - 1]];
                for j in 0..n {
                    let z = t[[m, j]];
                    t[[i, j]] -= y * z;
                }
                for j in 0..n {
                    let z = t[[j, i]];
                    t[[j, m]] += y * z;
                }
            }
        }
    }
    let big = t.iter().chain(a.iter()).fold(0.0f64, |x, y| x.max(y.abs()));
    for i in 0..n {
        for j in 0..n {
            let stored = j + 1 < i && i < igh && j >= low && igh >= low + 3;
            let want = if stored { 0.0 } else { h[[i, j]] };
            if !c.bound("similarity", (t[[i, j]] - want).abs(), 1e-15 * (n * n) as f64 * big + 1e-300, || format!("entry ({}, {}) of the transformed matrix is {:e}, reduced form has {:e}", i, j, t[[i, j]], want)) {
                return;
            }
        }
    }
    c.add("reductions", 1);
    c.add("partial_ranges", (low > 0 || igh < n) as u64);
    c.add("row_exchanges", moved as u64);
    c.nontrivial = igh >= low + 3;
}

// ---------------------------------------------------------------------------------------------

/// One additive term of a smooth test function and its derivatives.
#[derive(Clone, Debug)]
struct Term {
    out: usize,
    k: usize,
    l: usize,
    kind: usize,
    c: f64,
    w: f64,
}

impl Term {
    /// (value, d/du_k, d/du_l, d/dt, size of intermediate quantities)
    fn eval(&self, t: f64, u: &[f64], s: &[f64]) -> (f64, f64, f64, f64, f64) {
        let (x, y) = (u[self.k] / s[self.k], u[self.l] / s[self.l]);
        let c = self.c * s[self.out];
        match self.kind {
            0 => (c * x, c / s[self.k], 0.0, 0.0, (c * x).abs()),
            1 => {
                if self.k == self.l {
                    (c * x * x, 2.0 * c * x / s[self.k], 0.0, 0.0, (c * x * x).abs())
                } else {
                    (c * x * y, c * y / s[self.k], c * x / s[self.l], 0.0, (c * x * y).abs())
                }
            }
            2 => {
                let a = x + self.w * t;
                (c * a.sin(), c * a.cos() / s[self.k], 0.0, c * self.w * a.cos(), c.abs() * (1.0 + a.abs()))
            }
            3 => (c * self.w * t, 0.0, 0.0, c * self.w, (c * self.w * t).abs()),
            _ => (c * x * t, c * t / s[self.k], 0.0, c * x, (c * x * t).abs()),
        }
    }
}

fn c15(c: &mut Case) {
    if c.rng.chance(0.4) {
        return c15_paired(c);
    }
    let r = &mut c.rng;
    let n = if r.chance(0.998) { r.int(1, 12) } else { r.int(13, 150) };
    let uniform = r.chance(0.5);
    let s: Vec<f64> = (0..n).map(|_| if uniform { 1.0 } else { r.log(1e-8, 1e8) }).collect();
    let u: Vec<f64> = (0..n).map(|i| if r.chance(0.05) { 0.0 } else { s[i] * r.sign() * r.range(0.3, 2.0) }).collect();
    let t = if r.chance(0.2) { 0.0 } else { r.sign() * r.log(1e-3, 1e3) };
    let terms: Vec<Term> = (0..r.int(1, 4 * n)).map(|_| Term { out: r.below(n), k: r.below(n), l: r.below(n), kind: r.below(5), c: r.range(-2.0, 2.0), w: r.range(-1.0, 1.0) }).collect();
    c.desc = format!("n={} t={:?} u={:?} terms={:?}", n, t, u, terms.iter().take(4).collect::<Vec<_>>());
    c.nontrivial = n >= 2;
    c.add("negative_states", u.iter().filter(|x| **x < 0.0).count() as u64);
    c.add("tiny_states", u.iter().filter(|x| x.abs() < 1e-5).count() as u64);
    c.add("many_states", (n > 12) as u64);
    c.add("huge_states", u.iter().filter(|x| x.abs() > 1e5).count() as u64);
    let probes: RefCell<Vec<(f64, Vec<f64>)>> = RefCell::new(vec![]);
    let f = |mut du: ArrayViewMut1<f64>, x: ArrayView1<f64>, t: f64, p: &f64| {
        let v = x.to_vec();
        du.fill(0.0);
        for q in &terms {
            du[q.out] += p * q.eval(t, &v, &s).0;
        }
        probes.borrow_mut().push((t, v));
    };
    // analytic derivatives; curvature by differencing them over the increment
    let ders = |t: f64, x: &[f64]| -> (Vec<f64>, Vec<f64>) {
        let mut j = vec![0.0; n * n];
        let mut d = vec![0.0; n];
        for q in &terms {
            let (_, a, b, e, _) = q.eval(t, x, &s);
            j[q.out * n + q.k] += a;
            j[q.out * n + q.l] += b;
            d[q.out] += e;
        }
        (j, d)
    };
    let mut mag = vec![0.0; n];
    for q in &terms {
        mag[q.out] += q.eval(t, &u, &s).4;
    }
    let (j0, d0) = ders(t, &u);
    let ua = Array1::from(u.clone());
    let r = &mut c.rng;
    if r.chance(0.3) {
        // supplied derivatives are used as they are
        let junk: Vec<f64> = (0..n * n).map(|_| r.range(-9.0, 9.0)).collect();
        let jf = |mut df: ArrayViewMut2<f64>, x: ArrayView1<f64>, tt: f64, p: &f64| {
            for i in 0..n {
                for j in 0..n {
                    df[[i, j]] = p * junk[i * n + j] + tt + x[j];
                }
            }
        };
        let mut df = Array2::<f64>::from_elem((n, n), 3.0);
        let df_ref: &dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &f64) = &jf;
        vh::jacobian_u(&f, Some(df_ref), df.view_mut(), ua.view(), t, &2.0);
        for i in 0..n {
            for j in 0..n {
                if df[[i, j]].to_bits() != (2.0 * junk[i * n + j] + t + u[j]).to_bits() {
                    c.fail(format!("supplied entry ({}, {}) arrived as {:?}", i, j, df[[i, j]]));
                    return;
                }
            }
        }
        let tf = |mut d: ArrayViewMut1<f64>, x: ArrayView1<f64>, tt: f64, p: &f64| {
            for i in 0..n {
                d[i] = p * junk[i] - tt * x[i];
            }
        };
        let mut dt = Array1::<f64>::from_elem(n, 3.0);
        let tf_ref: &dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &f64) = &tf;
        vh::jacobian_t(&f, Some(tf_ref), dt.view_mut(), ua.view(), t, &2.0);
        for i in 0..n {
            if dt[i].to_bits() != (2.0 * junk[i] - t * u[i]).to_bits() {
                c.fail(format!("supplied time derivative {} arrived as {:?}", i, dt[i]));
                return;
            }
        }
        c.add("supplied", 1);
        return;
    }
    let gain = 1.0;
    let mut df = Array2::<f64>::from_elem((n, n), 1e9);
    vh::jacobian_u(&f, None, df.view_mut(), ua.view(), t, &gain);
    if (0..n).any(|i| ua[i].to_bits() != u[i].to_bits()) {
        c.fail("the state was changed");
        return;
    }
    for (tp, p) in probes.borrow().iter() {
        let moved = (0..n).filter(|&i| p[i].to_bits() != u[i].to_bits()).count();
        if *tp != t || moved > 1 {
            c.fail(format!("right-hand side probed at t={:?} with {} components changed", tp, moved));
            return;
        }
    }
    c.add("probes", probes.borrow().len() as u64);
    for i in 0..n {
        let del = (f64::EPSILON * u[i].abs().max(1e-5)).sqrt();
        let at = |k: f64| {
            let mut v = u.clone();
            v[i] += k * del;
            v
        };
        let part = |q: &Term, x: &[f64]| {
            let (_, a, b, _, _) = q.eval(t, x, &s);
            (if q.k == i { a } else { 0.0 }) + if q.l == i { b } else { 0.0 }
        };
        let mut m1 = vec![0.0; n];
        let mut cv = vec![0.0; n];
        for q in &terms {
            m1[q.out] += q.eval(t, &at(2.0), &s).4;
            cv[q.out] += [0.5, 1.0, 1.5, 2.0].iter().map(|k| (part(q, &at(*k)) - part(q, &u)).abs()).fold(0.0, f64::max);
        }
        for k in 0..n {
            let e = k * n + i;
            let curv = cv[k];
            let jmag: f64 = terms.iter().filter(|q| q.out == k).map(|q| { let (_, a, b, _, _) = q.eval(t, &u, &s); (if q.k == i { a.abs() } else { 0.0 }) + if q.l == i { b.abs() } else { 0.0 } }).sum();
            let lim = 5.0 * curv + 20.0 * f64::EPSILON * (mag[k] + m1[k] + jmag * u[i].abs()) / del + 1e-12 * jmag + 1e-300;
            if !c.bound("jacobian", (df[[k, i]] - j0[e]).abs(), lim, || format!("d f{} / d u{} is {:?}, analytic {:?} (u = {:?})", k, i, df[[k, i]], j0[e], u[i])) {
                return;
            }
            c.add("entries", 1);
        }
    }
    probes.borrow_mut().clear();
    let mut dt = Array1::<f64>::from_elem(n, 1e9);
    vh::jacobian_t(&f, None, dt.view_mut(), ua.view(), t, &gain);
    let del = (f64::EPSILON * t.abs().max(1e-5)).sqrt();
    for k in 0..n {
        let dmag: f64 = terms.iter().filter(|q| q.out == k).map(|q| q.eval(t, &u, &s).3.abs()).sum();
        let curv: f64 = terms.iter().filter(|q| q.out == k).map(|q| [0.5, 1.0, 1.5, 2.0].iter().map(|x| (q.eval(t + x * del, &u, &s).3 - q.eval(t, &u, &s).3).abs()).fold(0.0, f64::max)).sum();
        let lim = 5.0 * curv + 40.0 * f64::EPSILON * (mag[k] + dmag * t.abs()) / del + 1e-12 * dmag + 1e-300;
        if !c.bound("time_derivative", (dt[k] - d0[k]).abs(), lim, || format!("d f{} / dt is {:?}, analytic {:?} (t = {:?})", k, dt[k], d0[k], t)) {
            return;
        }
        c.add("time_derivatives", 1);
    }
    for (_, p) in probes.borrow().iter() {
        if (0..n).any(|i| p[i].to_bits() != u[i].to_bits()) {
            c.fail("the state was changed while differencing in time");
            return;
        }
    }
}

fn c15_paired(c: &mut Case) {
    let r = &mut c.rng;
    let kind = if r.chance(0.5) { Kind::Exact } else { Kind::ExactStiff };
    let nmax = if r.chance(0.99) { 4 } else { 20 };
    let p = gen(r, &GenCfg { kind, nmax, tmax: 10.0, scales: false });
    let span = (p.tf - p.t0).abs();
    let mut opt = gen_opt(r, Alg::Radau, span, OptCfg { rtol_min: 1e-7, rtol_max: 1e-3, control: false, dtmax: true, dtstart: true });
    opt.max_steps = Some(3000);
    let mut s = Setup::new(p, opt, Alg::Radau);
    s.log = false;
    s.use_jac = true;
    c.desc = format!("paired {}", s.desc());
    let o1 = run(&s, &Mode::Integrate);
    s.use_jac = false;
    let o2 = run(&s, &Mode::Integrate);
    if crashed(c, &o1) || crashed(c, &o2) {
        return;
    }
    let (f, g) = (o1.fin.as_ref().unwrap(), o2.fin.as_ref().unwrap());
    if o1.jac_calls == 0 && f.st.steps > 0 && o1.rhs_build == 0 || o2.jac_calls != 0 {
        c.fail(format!("Jacobian called {} times when supplied, {} times when not", o1.jac_calls, o2.jac_calls));
        return;
    }
    if f.ret != Ret::Success || g.ret != Ret::Success {
        if f.ret != g.ret {
            c.fail(format!("ended with {:?} with the Jacobian supplied, {:?} without", f.ret, g.ret));
        }
        return;
    }
    let e = s.opt.eff(Alg::Radau);
    let mut um = vec![0.0f64; s.prob.n];
    for u in &o1.us {
        for i in 0..s.prob.n {
            um[i] = um[i].max(u[i].abs());
        }
    }
    let all = um.iter().fold(0.0f64, |x, y| x.max(*y));
    for i in 0..s.prob.n {
        let tol = (e.abstol + e.reltol * all) * s.prob.cond.max(1.0) * 3.0 * (f.st.accepts as f64 + 5.0).sqrt() + 1e-9 * all;
        if !c.bound("paired_state", (f.u[i] - g.u[i]).abs(), 30.0 * tol, || format!("component {} ends at {:?} with the Jacobian supplied, {:?} without", i, f.u[i], g.u[i])) {
            return;
        }
    }
    let (a, b) = (f.st.steps as f64, g.st.steps as f64);
    // an accept or reject decision on the edge changes the course of a run: ask nearby tolerances too
    let allowed = |a: f64, b: f64| a.min(b) + 25.0;
    if (a - b).abs() > allowed(a, b) {
        let mut differ = 0;
        for k in 1..=6 {
            let mut q = s.clone();
            let m = 1.0 + 0.11 * k as f64;
            q.opt.reltol = Some(s.opt.eff(Alg::Radau).reltol * m);
            q.opt.abstol = Some(s.opt.eff(Alg::Radau).abstol * m);
            q.use_jac = true;
            let o1 = run(&q, &Mode::Integrate);
            q.use_jac = false;
            let o2 = run(&q, &Mode::Integrate);
            if let (Some(f), Some(g)) = (o1.fin, o2.fin) {
                let (a, b) = (f.st.steps as f64, g.st.steps as f64);
                differ += ((a - b).abs() > allowed(a, b)) as u32;
            }
        }
        if differ < 3 {
            c.add("edge_decisions", 1);
            return;
        }
    }
    c.bound("paired_steps", (a - b).abs(), allowed(a, b), || format!("{} steps with the Jacobian supplied, {} without", a, b));
    c.add("paired_runs", 1);
    c.nontrivial = o1.ts.len() > 3;
}

// ---------------------------------------------------------------------------------------------

fn c16(c: &mut Case) {
    if c.rng.chance(0.25) {
        return c16_poly(c);
    }
    let r = &mut c.rng;
    let a = alg(r);
    let kind = match (a, r.below(3)) {
        (Alg::Radau, 0) => Kind::ExactStiff,
        (_, 1) => Kind::Any,
        _ => Kind::Exact,
    };
    let p = loop {
        let scales = r.chance(0.3);
        let nmax = if r.chance(0.99) { 4 } else { 20 };
        let p = gen(r, &GenCfg { kind, nmax, tmax: 10.0, scales });
        if a == Alg::Radau || p.stiffness * (p.tf - p.t0).abs() < 300.0 {
            break p;
        }
    };
    let span = (p.tf - p.t0).abs();
    let mut opt = gen_opt(r, a, span, OptCfg { rtol_min: 1e-9, rtol_max: 1e-3, control: true, dtmax: true, dtstart: true });
    opt.dense = Some(true);
    opt.max_steps = Some(r.int(10, 150));
    let mut s = Setup::new(p, opt, a);
    s.use_jac = r.chance(0.7);
    s.dense_at = vec![0.0, 1.0];
    for _ in 0..3 {
        s.dense_at.push(r.range(0.02, 0.98));
    }
    if r.chance(0.3) {
        let x = r.range(0.7, 1.3);
        s.cb = Some(vec![(r.int(2, 12), CbAct::ScaleU(x)), (r.int(2, 12), CbAct::SetGain(1.0))]);
    }
    c.desc = s.desc();
    let n = s.prob.n;
    let e = s.opt.eff(a);
    let (rt, at) = s.opt.radau_tol();
    let mut changed = false;
    let mut rej = 0;
    // distance from the local solution, relative to its allowance: (ratio, step, where)
    let mut acc: Vec<(f64, u64, f64)> = vec![];
    // same for the distance from the collocation polynomial where Newton stops by estimate
    let mut newton: Vec<f64> = vec![];
    let tight = a == Alg::Dp5 || s.prob.linear && s.prob.autonomous && s.use_jac;
    let o = run_visit(&s, &Mode::Steps, &mut |v: &StepView| {
        if v.dense.is_empty() || !c.violations.is_empty() {
            rej = v.post.st.rejects;
            return;
        }
        let (u0, u1) = (&v.pre.u, &v.post.last_u);
        let (ta, tb) = (v.post.tprev, v.post.t);
        let h = v.post.dtprev;
        c.add("after_rejection", (v.post.st.rejects > rej) as u64);
        c.add("after_callback_change", changed as u64);
        rej = v.post.st.rejects;
        changed = v.evs.iter().any(|e| e.kind == EvKind::Cb) && v.post.u != v.post.last_u;
        let g = v.pre.gain;
        let f = |t: f64, x: &[f64]| -> Vec<f64> {
            let mut d = vec![0.0; n];
            (s.prob.f)(t, x, &mut d);
            d.iter_mut().for_each(|y| *y *= g);
            d
        };
        // reference interpolation polynomial: values, rounding allowance
        let mut reference: Option<Box<dyn Fn(f64) -> (Vec<f64>, Vec<f64>)>> = None;
        if a == Alg::Dp5 {
            let q = refdp5::attempt(&f, ta, u0, h, e.abstol, e.reltol, 7);
            let (y0, y1, k, du) = (u0.clone(), q.unew.clone(), q.k.clone(), q.du.clone());
            reference = Some(Box::new(move |x: f64| {
                const D: [f64; 7] = [
                    -12715105075.0 / 11282082432.0,
                    0.0,
                    87487479700.0 / 32700410799.0,
                    -10690763975.0 / 1880347072.0,
                    701980252875.0 / 199316789632.0,
                    -1453857185.0 / 822651844.0,
                    69997945.0 / 29380423.0,
                ];
                let mut val = vec![];
                let mut tol = vec![];
                for i in 0..y0.len() {
                    let d = y1[i] - y0[i];
                    let hermite = y0[i] + x * (d + (1.0 - x) * ((h * k[0][i] - d) + x * (2.0 * d - h * k[0][i] - h * k[6][i])));
                    let w = x * x * (1.0 - x) * (1.0 - x);
                    let bump: f64 = (0..7).map(|j| D[j] * h * k[j][i]).sum();
                    let mag: f64 = (0..7).map(|j| (D[j] * h * k[j][i]).abs()).sum();
                    val.push(hermite + w * bump);
                    tol.push(1e-14 * (y0[i].abs() + y1[i].abs() + mag) + 20.0 * du[i]);
                }
                (val, tol)
            }));
        } else {
            let scal: Vec<f64> = (0..n).map(|i| at + rt * u0[i].abs().max(u1[i].abs())).collect();
            let j = |t: f64, x: &[f64]| -> Vec<f64> {
                let mut d = vec![0.0; n * n];
                (s.prob.jac)(t, x, &mut d);
                d.iter_mut().for_each(|y| *y *= g);
                d
            };
            // start from the interpolant itself: only its own root counts
            let (cs, _) = refradau::tableau();
            let lin = |x: f64| -> Vec<f64> { (0..n).map(|i| (u1[i] - u0[i]) * x).collect() };
            let z0: Vec<f64> = cs.iter().flat_map(|x| lin(*x)).collect();
            if let Some(st) = refradau::stages(&f, &j, ta, u0, h, &z0, &scal) {
                // the run stops its Newton iteration early: how far is known at the step's end
                let gap: Vec<f64> = (0..n).map(|i| (u0[i] + st.z[2 * n + i] - u1[i]).abs()).collect();
                let (y0, z) = (u0.clone(), st.z.clone());
                let newt = s.opt.radau_fnewt();
                reference = Some(Box::new(move |x: f64| {
                    let p = [0.0, cs[0], cs[1], 1.0];
                    let mut val = vec![];
                    let mut tol = vec![];
                    let near = (0..n).map(|i| gap[i] / scal[i]).fold(0.0, f64::max);
                    for i in 0..n {
                        let y = [0.0, z[i], z[n + i], z[2 * n + i]];
                        let mut v = 0.0;
                        let mut m = 0.0f64;
                        for a in 0..4 {
                            let mut w = 1.0;
                            for b in 0..4 {
                                if b != a {
                                    w *= (x - p[b]) / (p[a] - p[b]);
                                }
                            }
                            v += w * y[a];
                            m = m.max(y[a].abs());
                        }
                        val.push(y0[i] + v);
                        let newton = if tight { 1e-6 } else { (5.0 * newt).max(3e-3) };
                        tol.push(1e-11 * (y0[i].abs() + m) + scal[i] * (newton + 30.0 * near));
                    }
                    (val, tol)
                }));
            }
        }
        for (k, (t, x)) in v.dense.iter().enumerate() {
            if k < 2 {
                let want = if k == 0 { u0 } else { u1 };
                for i in 0..n {
                    let lim = rounding(v, i, ta.abs().max(tb.abs()), h);
                    if !c.bound("ends", (x[i] - want[i]).abs(), lim, || format!("step {} component {}: the interpolant is {:?} at the {} of the step, recorded {:?}", v.k, i, x[i], if k == 0 { "start" } else { "end" }, want[i])) {
                        return;
                    }
                }
                c.add("ends", 1);
                continue;
            }
            let theta = (t - ta) / (tb - ta);
            if let Some(rf) = &reference {
                let (val, tol) = rf(theta);
                let mut worst = 0.0f64;
                for i in 0..n {
                    // the argument itself is rounded
                    let slope = (tol[i] + (u1[i] - u0[i]).abs() + h.abs() * f(ta, u0)[i].abs()) * 4.0 * f64::EPSILON * t.abs() / h.abs();
                    let lim = tol[i] + 10.0 * slope;
                    worst = worst.max((x[i] - val[i]).abs() / lim);
                    if tight && !c.bound(if a == Alg::Dp5 { "interior_dp5" } else { "interior_radau" }, (x[i] - val[i]).abs(), lim, || format!("step {} component {} at {:.3} of the step: interpolant {:?}, reference polynomial {:?}", v.k, i, theta, x[i], val[i])) {
                        return;
                    }
                }
                if !tight {
                    newton.push(worst);
                }
                c.add(if a == Alg::Dp5 { "interior_dp5" } else { "interior_radau" }, 1);
            }
            // inside a step across an unresolved transient the stage points say nothing about the solution
            let resolved = s.prob.stiffness * h.abs() < 1.0;
            if let (Some(fl), true) = (&s.prob.flow, g == 1.0 && resolved) {
                let tr = fl(ta, u0, *t);
                let end = fl(ta, u0, tb);
                // coupled components share their errors
                let w: Vec<f64> = (0..n).map(|i| if a == Alg::Dp5 { e.abstol + e.reltol * u0[i].abs().max(u1[i].abs()) } else { at + rt * u0[i].abs().max(u1[i].abs()) }).collect();
                let werr = (0..n).map(|i| ((end[i] - u1[i]) / w[i]).abs()).fold(0.0, f64::max);
                let mut worst = 0.0f64;
                for i in 0..n {
                    let lim = w[i] * (40.0 * (n as f64).sqrt() + 20.0 * werr) + 1e-12 * (u0[i].abs() + tr[i].abs());
                    worst = worst.max((x[i] - tr[i]).abs() / lim);
                }
                acc.push((worst, v.k, theta));
                c.add("accuracy", 1);
            }
        }
    });
    if crashed(c, &o) {
        return;
    }
    // a single step's error estimate may vanish by accident: judge nine steps out of ten
    let mut steps: Vec<u64> = acc.iter().map(|x| x.1).collect();
    steps.dedup();
    if steps.len() >= 20 && c.violations.is_empty() {
        acc.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap_or(std::cmp::Ordering::Equal));
        let (w, k, th) = acc[acc.len() * 9 / 10];
        c.add("accuracy_judged", 1);
        c.bound(if a == Alg::Dp5 { "accuracy_dp5" } else { "accuracy_radau" }, w, 1.0, || format!("in a tenth of the readings the interpolant is {:.2} times its allowance or more away from the solution through the step's start, e.g. in step {} at {:.3}", w, k, th));
    }
    if newton.len() >= 10 && c.violations.is_empty() {
        newton.sort_by(|x, y| x.partial_cmp(y).unwrap_or(std::cmp::Ordering::Equal));
        let w = newton[newton.len() * 8 / 10];
        c.bound("interior_radau_newton", w, 1.0, || format!("in a fifth of the readings the interpolant is {:.2} times its allowance or more away from the collocation polynomial", w));
    }
    c.add("backward", (s.prob.tf < s.prob.t0) as u64);
    c.nontrivial = o.ts.len() > 3;
}

/// Rounding of the interpolant at the step's ends: stage contributions cancel there, and the
/// argument is rounded.
fn rounding(v: &StepView, i: usize, t: f64, h: f64) -> f64 {
    let (mut k, mut um, mut dm) = (0.0f64, v.pre.u[i].abs().max(v.post.last_u[i].abs()), 0.0f64);
    for e in v.evs.iter().filter(|e| e.kind == EvKind::Rhs && e.out[i].is_finite() && e.u[i].is_finite()) {
        k = k.max(e.out[i].abs());
        um = um.max(e.u[i].abs());
        dm = dm.max((e.u[i] - v.pre.u[i]).abs());
    }
    4e-15 * um + 4e-15 * dm + 2.0 * f64::EPSILON * t * (k + 30.0 * dm / h.abs()) + 1e-300
}

/// Solutions that are polynomials of a degree the interpolant represents.
fn c16_poly(c: &mut Case) {
    let r = &mut c.rng;
    let a = alg(r);
    let n = r.int(1, 4);
    let deg = r.int(0, if a == Alg::Dp5 { 3 } else { 2 });
    let co: Vec<Vec<f64>> = (0..n).map(|_| (0..=deg).map(|_| r.range(-2.0, 2.0)).collect()).collect();
    let c1 = co.clone();
    let f: F = Rc::new(move |t, _u, du| {
        for i in 0..c1.len() {
            du[i] = c1[i].iter().rev().fold(0.0, |x, y| x * t + y);
        }
    });
    let jac: F = Rc::new(|_t, _u, df| df.iter_mut().for_each(|x| *x = 0.0));
    let t0 = r.range(-3.0, 3.0);
    let tf = t0 + r.sign() * r.range(0.2, 4.0);
    let u0: Vec<f64> = (0..n).map(|_| r.range(-2.0, 2.0)).collect();
    let p = prob::custom("polynomial", n, t0, tf, u0, f, jac);
    let span = (tf - t0).abs();
    let mut opt = gen_opt(r, a, span, OptCfg { rtol_min: 1e-9, rtol_max: 1e-1, control: true, dtmax: true, dtstart: true });
    opt.dense = Some(true);
    opt.max_steps = Some(100);
    let mut s = Setup::new(p, opt, a);
    s.use_jac = r.chance(0.6);
    s.log = false;
    s.dense_at = (0..4).map(|_| r.f()).collect();
    c.desc = format!("{} coefficients {:?}", s.desc(), co);
    let prim = |i: usize, t: f64| -> (f64, f64) {
        let mut v = 0.0;
        let mut m = 0.0;
        for (j, x) in co[i].iter().enumerate() {
            let y = x * t.powi(j as i32 + 1) / (j as f64 + 1.0);
            v += y;
            m += y.abs() * (j as f64 + 2.0);
        }
        (v, m)
    };
    let mut steps = 0;
    let o = run_visit(&s, &Mode::Steps, &mut |v: &StepView| {
        if v.dense.is_empty() || !c.violations.is_empty() {
            return;
        }
        steps += 1;
        let (ta, tb) = (v.post.tprev, v.post.t);
        for (t, x) in v.dense {
            for i in 0..n {
                let (pa, ma) = prim(i, ta);
                let (pb, mb) = prim(i, *t);
                let (_, mc) = prim(i, tb);
                let want = v.pre.u[i] + pb - pa;
                let lim = 2e-15 * (v.pre.u[i].abs() + want.abs() + ma + mb + mc);
                if !c.bound("polynomial", (x[i] - want).abs(), lim, || format!("step {} component {} at {:?} in ({:?}, {:?}): interpolant {:?}, polynomial {:?}", v.k, i, t, ta, tb, x[i], want)) {
                    return;
                }
            }
            c.add("polynomial", 1);
        }
    });
    if crashed(c, &o) {
        return;
    }
    c.nontrivial = steps > 3;
}
