//! Independent double-precision reference transforms (not instrumented, shares no code with the
//! code under test).
use std::f64::consts::PI;

pub type C = (f64, f64);

pub fn cmul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}

fn roots(n: usize) -> Vec<C> {
    (0..n)
        .map(|k| {
            let a = -2.0 * PI * (k as f64) / (n as f64);
            (a.cos(), a.sin())
        })
        .collect()
}

fn smallest_factor(n: usize) -> usize {
    let mut p = 2;
    while p * p <= n {
        if n % p == 0 {
            return p;
        }
        p += 1;
    }
    n
}

fn rec(x: &[C], off: usize, stride: usize, n: usize, w: &[C], out: &mut [C]) {
    if n == 1 {
        out[0] = x[off];
        return;
    }
    let p = smallest_factor(n);
    let m = n / p;
    let total = w.len();
    let step = total / n; // w_n^k = w[k*step]
    let mut sub = vec![(0.0, 0.0); n];
    for r in 0..p {
        rec(x, off + r * stride, stride * p, m, w, &mut sub[r * m..(r + 1) * m]);
    }
    for (k, o) in out.iter_mut().enumerate().take(n) {
        let mut s = (0.0, 0.0);
        for r in 0..p {
            let t = cmul(sub[r * m + k % m], w[(r * k % n) * step]);
            s.0 += t.0;
            s.1 += t.1;
        }
        *o = s;
    }
}

/// X[k] = sum x[i] exp(-2 pi i k / n)
pub fn dft(x: &[C]) -> Vec<C> {
    let n = x.len();
    if n == 0 {
        return Vec::new();
    }
    if largest_factor(n) > 300 {
        return chirp(x);
    }
    plain(x)
}
fn plain(x: &[C]) -> Vec<C> {
    let n = x.len();
    let w = roots(n);
    let mut out = vec![(0.0, 0.0); n];
    rec(x, 0, 1, n, &w, &mut out);
    out
}
/// Lengths with a large prime factor: the same sum written as a convolution, ik = (i^2 + k^2 - (k-i)^2) / 2.
fn chirp(x: &[C]) -> Vec<C> {
    let n = x.len();
    let m = (2 * n).next_power_of_two();
    let c: Vec<C> = (0..n as u128)
        .map(|i| {
            let a = -PI * ((i * i % (2 * n as u128)) as f64) / n as f64;
            (a.cos(), a.sin())
        })
        .collect();
    let mut a = vec![(0.0, 0.0); m];
    let mut b = vec![(0.0, 0.0); m];
    for i in 0..n {
        a[i] = cmul(x[i], c[i]);
        b[i] = (c[i].0, -c[i].1);
        b[(m - i) % m] = b[i];
    }
    let (a, b) = (plain(&a), plain(&b));
    let p: Vec<C> = a.iter().zip(&b).map(|(u, v)| cmul(*u, *v)).map(|v| (v.0, -v.1)).collect();
    let p = plain(&p);
    (0..n).map(|k| cmul((p[k].0 / m as f64, -p[k].1 / m as f64), c[k])).collect()
}
fn largest_factor(mut n: usize) -> usize {
    let mut g = 1;
    while n > 1 {
        let p = smallest_factor(n);
        g = g.max(p);
        n /= p;
    }
    g
}

pub fn idft(x: &[C]) -> Vec<C> {
    let n = x.len() as f64;
    let c: Vec<C> = x.iter().map(|v| (v.0, -v.1)).collect();
    dft(&c).into_iter().map(|v| (v.0 / n, -v.1 / n)).collect()
}

pub fn rdft(x: &[f64]) -> Vec<C> {
    let c: Vec<C> = x.iter().map(|v| (*v, 0.0)).collect();
    let mut y = dft(&c);
    y.truncate(x.len() / 2 + 1);
    y
}

/// Real samples of length n from the non-redundant half spectrum.
pub fn irdft(h: &[C], n: usize) -> Vec<f64> {
    let mut full = vec![(0.0, 0.0); n];
    for k in 0..=n / 2 {
        full[k] = h[k];
        if k != 0 && 2 * k != n {
            full[n - k] = (h[k].0, -h[k].1);
        }
    }
    full[0].1 = 0.0;
    if n % 2 == 0 {
        full[n / 2].1 = 0.0;
    }
    idft(&full).into_iter().map(|v| v.0).collect()
}

/// Multi-dimensional DFT, row-major, dims slowest first.
pub fn dft_nd(x: &[C], dims: &[usize]) -> Vec<C> {
    let mut y = x.to_vec();
    let total = y.len();
    let mut inner = 1;
    for &d in dims.iter().rev() {
        let mut line = vec![(0.0, 0.0); d];
        for base in 0..total / d {
            let (hi, lo) = (base / inner, base % inner);
            let at = |i: usize| hi * d * inner + i * inner + lo;
            for (i, l) in line.iter_mut().enumerate() {
                *l = y[at(i)];
            }
            let t = dft(&line);
            for (i, v) in t.iter().enumerate() {
                y[at(i)] = *v;
            }
        }
        inner *= d;
    }
    y
}

fn sum(n: usize, f: impl Fn(usize) -> f64) -> f64 {
    (0..n).map(f).sum()
}

pub fn dct1(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    if n == 0 {
        return vec![];
    }
    if n == 1 {
        return vec![2.0 * x[0]];
    }
    (0..n)
        .map(|k| {
            let e = if k % 2 == 0 { x[n - 1] } else { -x[n - 1] };
            x[0] + e + 2.0 * sum(n - 2, |j| x[j + 1] * (PI * ((j + 1) * k) as f64 / (n - 1) as f64).cos())
        })
        .collect()
}
pub fn dct2(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    (0..n).map(|k| sum(n, |i| x[i] * (PI * (i as f64 + 0.5) * k as f64 / n as f64).cos())).collect()
}
pub fn dct3(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    (0..n)
        .map(|k| x[0] / 2.0 + sum(n - 1, |i| x[i + 1] * (PI * (i + 1) as f64 * (k as f64 + 0.5) / n as f64).cos()))
        .collect()
}
pub fn dct4(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    (0..n)
        .map(|k| sum(n, |i| x[i] * (PI * (i as f64 + 0.5) * (k as f64 + 0.5) / n as f64).cos()))
        .collect()
}
pub fn dst1(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    (0..n)
        .map(|k| sum(n, |i| x[i] * (PI * ((i + 1) * (k + 1)) as f64 / (n + 1) as f64).sin()))
        .collect()
}
pub fn dht(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    (0..n)
        .map(|k| {
            sum(n, |i| {
                let a = 2.0 * PI * ((k * i) % n) as f64 / n as f64;
                x[i] * (a.cos() + a.sin())
            })
        })
        .collect()
}

pub fn hann(n: usize) -> Vec<f64> {
    raised(n, 0.5, 0.5)
}
pub fn raised(n: usize, a: f64, b: f64) -> Vec<f64> {
    (0..n).map(|i| a - b * (2.0 * PI * i as f64 / (n as f64 - 1.0)).cos()).collect()
}

/// Relative L2 error of `got` against `want` (absolute where `want` is all zero).
pub fn rel(got: &[C], want: &[C]) -> f64 {
    if got.len() != want.len() {
        return f64::INFINITY;
    }
    let (mut e, mut s) = (0.0, 0.0);
    for (g, w) in got.iter().zip(want) {
        let d = (g.0 - w.0, g.1 - w.1);
        e += d.0 * d.0 + d.1 * d.1;
        s += w.0 * w.0 + w.1 * w.1;
    }
    if s > 0.0 {
        (e / s).sqrt()
    } else {
        e.sqrt()
    }
}
pub fn rel_re(got: &[f64], want: &[f64]) -> f64 {
    let g: Vec<C> = got.iter().map(|v| (*v, 0.0)).collect();
    let w: Vec<C> = want.iter().map(|v| (*v, 0.0)).collect();
    rel(&g, &w)
}
/// First index where the two differ by more than `tol` times the largest wanted magnitude.
pub fn worst(got: &[C], want: &[C]) -> (usize, f64) {
    let mut b = (0, -1.0);
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let d = ((g.0 - w.0).powi(2) + (g.1 - w.1).powi(2)).sqrt();
        if !(d <= b.1) {
            b = (i, d);
        }
        if d.is_nan() {
            break;
        }
    }
    b
}

/// Modified Bessel function of the first kind, order zero.
pub fn i0(x: f64) -> f64 {
    let mut s = 1.0;
    let mut t = 1.0;
    for k in 1..250 {
        t *= (x / 2.0 / k as f64).powi(2);
        s += t;
    }
    s
}
