//! Decisions about histories of draws: large-deviation bounds and numerical integrals.

/// 2 e^-T bounds the probability that a single comparison of a count with its true probability
/// is reported wrongly.
pub const T: f64 = 30.0;

fn xlog(a: f64, b: f64) -> f64 {
    if a <= 0.0 {
        0.0
    } else if b <= 0.0 {
        f64::INFINITY
    } else {
        a * (a / b).ln()
    }
}
/// Kullback-Leibler divergence between coins.
pub fn kl(a: f64, p: f64) -> f64 { xlog(a, p) + xlog(1.0 - a, 1.0 - p) }

/// Could k out of n have come about with a probability within eps of p?
pub fn plausible(k: u64, n: u64, p: f64, eps: f64) -> bool {
    if p.is_nan() {
        return false;
    }
    let a = k as f64 / n as f64;
    let q = a.clamp((p - eps).max(0.0), (p + eps).min(1.0));
    n as f64 * kl(a, q) <= T
}
/// Could k out of n have come about with a probability of at most p + eps?
pub fn at_most(k: u64, n: u64, p: f64, eps: f64) -> bool { k as f64 / n as f64 <= p || plausible(k, n, p, eps) }
pub fn at_least(k: u64, n: u64, p: f64, eps: f64) -> bool { k as f64 / n as f64 >= p || plausible(k, n, p, eps) }

const X: [f64; 8] = [
    0.991455371120812639206854697526329,
    0.949107912342758524526189684047851,
    0.864864423359769072789712788640926,
    0.741531185599394439863864773280788,
    0.586087235467691130294144691693308,
    0.405845151377397166906606412076961,
    0.207784955007898467600689403773245,
    0.0,
];
const WK: [f64; 8] = [
    0.022935322010529224963732008058970,
    0.063092092629978553290700663189204,
    0.104790010322250183839876322541518,
    0.140653259715525918745189590510238,
    0.169004726639267902826583426598550,
    0.190350578064785409913256402421014,
    0.204432940075298892414161999234649,
    0.209482141084727828012999174891714,
];
const WG: [f64; 4] = [
    0.129484966168869693270611432679082,
    0.279705391489276667901467771423780,
    0.381830050505118944950369775488975,
    0.417959183673469387755102040816327,
];

fn gk(f: &mut dyn FnMut(f64) -> f64, a: f64, b: f64) -> (f64, f64) {
    let (c, h) = (0.5 * (a + b), 0.5 * (b - a));
    let (mut k, mut g) = (0.0, 0.0);
    for i in 0..8 {
        let v = if i == 7 { f(c) } else { f(c - h * X[i]) + f(c + h * X[i]) };
        k += WK[i] * v;
        if i % 2 == 1 {
            g += WG[i / 2] * v;
        }
    }
    (k * h, ((k - g) * h).abs())
}

/// Adaptive integral over pieces between the given points.
pub fn integrate_at(f: &mut dyn FnMut(f64) -> f64, a: f64, b: f64, tol: f64, breaks: &[f64]) -> Option<f64> {
    let mut at: Vec<f64> = breaks.iter().copied().filter(|x| *x > a && *x < b).collect();
    at.push(a);
    at.push(b);
    at.sort_unstable_by(f64::total_cmp);
    at.dedup();
    let t = tol / at.len() as f64;
    let mut sum = 0.0;
    for w in at.windows(2) {
        sum += integrate(f, w[0], w[1], t)?;
    }
    Some(sum)
}

/// Adaptive integral; None if it does not settle.
pub fn integrate(f: &mut dyn FnMut(f64) -> f64, a: f64, b: f64, tol: f64) -> Option<f64> {
    if !(b > a) {
        return Some(0.0);
    }
    let mut parts = vec![];
    let n0 = 4;
    for i in 0..n0 {
        let (l, r) = (a + (b - a) * i as f64 / n0 as f64, a + (b - a) * (i + 1) as f64 / n0 as f64);
        parts.push((l, r, gk(f, l, r)));
    }
    for _ in 0..200 {
        let err: f64 = parts.iter().map(|p| p.2 .1).sum();
        let sum: f64 = parts.iter().map(|p| p.2 .0).sum();
        if !err.is_finite() || !sum.is_finite() {
            return None;
        }
        if err <= tol {
            return Some(sum);
        }
        let w = (0..parts.len()).max_by(|&i, &j| parts[i].2 .1.total_cmp(&parts[j].2 .1)).unwrap();
        let (l, r, _) = parts.swap_remove(w);
        let m = 0.5 * (l + r);
        if m <= l || m >= r {
            return None;
        }
        parts.push((l, m, gk(f, l, m)));
        parts.push((m, r, gk(f, m, r)));
    }
    None
}

/// Mean and its standard error.
pub struct Mean {
    pub n: f64,
    pub mean: f64,
    pub se: f64,
}
pub fn mean_of(xs: impl Iterator<Item = f64> + Clone) -> Mean {
    let (mut n, mut s) = (0.0, 0.0);
    for x in xs.clone() {
        n += 1.0;
        s += x;
    }
    let m = s / n;
    let mut q = 0.0;
    for x in xs {
        q += (x - m) * (x - m);
    }
    Mean { n, mean: m, se: (q / n / n).sqrt() }
}
impl Mean {
    /// Is the declared value where the average can be? `slack` is relative to it, `abs` absolute.
    pub fn agrees(&self, declared: f64, slack: f64, abs: f64) -> bool {
        (self.mean - declared).abs() <= 9.0 * self.se + slack * declared.abs() + abs
    }
}

/// Could k of n and j of m be counts of events of the same probability?
pub fn alike(k: u64, n: u64, j: u64, m: u64) -> bool {
    let (a, b) = (k as f64 / n as f64, j as f64 / m as f64);
    let p = (k + j) as f64 / (n + m) as f64;
    n as f64 * kl(a, p) + m as f64 * kl(b, p) <= T + 2.0
}
