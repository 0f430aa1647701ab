//! Shared pieces of the workloads: numbers, data generation, engines with injected faults, checks.
use kofft::fft::{Complex, FftError, FftImpl, FftStrategy, ScalarFftImpl};
use kofft::num::Float;
use simrt::ctx::{self, S};
use simrt::oracle::{self, C};
use simrt::prng::Rng;
use simrt::violation;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub trait Num: Float {
    const NAME: &'static str;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
    fn bits(self) -> u64;
    fn tol(n: usize) -> f64;
}
impl Num for f32 {
    const NAME: &'static str = "f32";
    fn f(self) -> f64 {
        self as f64
    }
    fn of(x: f64) -> Self {
        x as f32
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn tol(n: usize) -> f64 {
        2e-5 + 1e-6 * n as f64
    }
}
impl Num for f64 {
    const NAME: &'static str = "f64";
    fn f(self) -> f64 {
        self
    }
    fn of(x: f64) -> Self {
        x
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn tol(n: usize) -> f64 {
        1e-12 + 2e-15 * n as f64
    }
}

pub fn to_c<T: Num>(x: &[Complex<T>]) -> Vec<C> {
    x.iter().map(|v| (v.re.f(), v.im.f())).collect()
}
pub fn of_c<T: Num>(x: &[C]) -> Vec<Complex<T>> {
    x.iter().map(|v| Complex::new(T::of(v.0), T::of(v.1))).collect()
}
pub fn to_r<T: Num>(x: &[T]) -> Vec<f64> {
    x.iter().map(|v| v.f()).collect()
}
pub fn of_r<T: Num>(x: &[f64]) -> Vec<T> {
    x.iter().map(|v| T::of(*v)).collect()
}

/// Real values exactly representable in f32.
static SPOIL: AtomicBool = AtomicBool::new(false);
/// In some runs some data holds values that are not finite. What becomes of those is not judged, but they must
/// not reach any later request.
pub fn spoil_some() {
    SPOIL.store(ctx::chance(S::Work, 1, 6), Relaxed);
}
pub fn reals(n: usize) -> Vec<f64> {
    let mut v = finite(n);
    if SPOIL.load(Relaxed) && n > 0 && ctx::w(5) == 4 {
        v[ctx::w(n as u64)] = *ctx::pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        ctx::count("data with a value that is not finite");
    }
    v
}
fn finite(n: usize) -> Vec<f64> {
    let kind = ctx::w(10);
    let seed = ctx::draw(S::Work, 1 << 20);
    let mut r = Rng::new(seed.wrapping_mul(0x9E37_79B9).wrapping_add(n as u64));
    let mut unit = move || (r.below(1 << 20) as f64) / (1 << 19) as f64 - 1.0;
    match kind {
        // simplest: an impulse at a drawn place
        0 => {
            let at = if n > 0 { seed as usize % n } else { 0 };
            (0..n).map(|i| if i == at { 1.0 } else { 0.0 }).collect()
        }
        1 => vec![1.0; n],
        2 => (0..n).map(|_| unit() * 1024.0).collect(),
        3 => (0..n).map(|_| unit() / 1024.0).collect(),
        4 => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 } + unit() / 64.0).map(|x| (x as f32) as f64).collect(),
        9 if seed % 3 == 0 => vec![0.0; n],
        // silence with short sounds
        8 => {
            let (every, len) = (2 + seed as usize % 97, 1 + (seed as usize / 97) % 7);
            (0..n).map(|i| if i % every < len.min(every - 1) && (i / every) % 3 != 1 { unit() } else { 0.0 }).collect()
        }
        _ => (0..n).map(|_| unit()).collect(),
    }
}
pub fn cplx(n: usize) -> Vec<C> {
    let mut a = reals(2 * n);
    // very faint and very loud data
    if SPOIL.load(Relaxed) && ctx::w(4) == 3 {
        let f = if ctx::w(2) == 0 { 1e-12 } else { 1e12 };
        a.iter_mut().for_each(|v| *v *= f);
    }
    let pairs = (0..n).map(|i| (a[2 * i], a[2 * i + 1]));
    // data of a special shape, as real signals and their spectra have
    match ctx::w(14) {
        9 => pairs.map(|(re, _)| (re, 0.0)).collect(),
        10 => pairs.map(|(_, im)| (0.0, im)).collect(),
        11 => {
            let mut v: Vec<C> = pairs.collect();
            for k in 0..n {
                let m = (n - k) % n;
                if m == k {
                    v[k].1 = 0.0;
                } else if m < k {
                    v[k] = (v[m].0, -v[m].1);
                }
            }
            v
        }
        12 => pairs.enumerate().map(|(i, p)| if i % 2 == 0 { p } else { (0.0, 0.0) }).collect(),
        13 => vec![(0.0, 0.0); n],
        _ => pairs.collect(),
    }
}

/// The library without std transforms only powers of two (every other length is refused, see C02).
pub fn fit(n: usize) -> usize {
    if cfg!(feature = "bare") && n > 0 {
        (n / 2 + 1).next_power_of_two()
    } else {
        n
    }
}
/// Without std there are no plans; an engine with a fixed strategy stands in for them.
#[cfg(feature = "bare")]
pub struct FftPlan<T: Float> {
    pub n: usize,
    pub strategy: FftStrategy,
    fft: ScalarFftImpl<T>,
}
#[cfg(feature = "bare")]
impl<T: Float> FftPlan<T> {
    pub fn new(n: usize, strategy: FftStrategy) -> Self {
        FftPlan { n, strategy, fft: ScalarFftImpl::default() }
    }
    fn fits(&self, a: usize, b: usize) -> Result<(), FftError> {
        if a == self.n && b == self.n { Ok(()) } else { Err(FftError::MismatchedLengths) }
    }
    pub fn fft(&self, x: &mut [Complex<T>]) -> Result<(), FftError> {
        self.fits(x.len(), x.len())?;
        self.fft.fft_with_strategy(x, self.strategy)
    }
    pub fn ifft(&self, x: &mut [Complex<T>]) -> Result<(), FftError> {
        self.fits(x.len(), x.len())?;
        self.fft.ifft(x)
    }
    pub fn fft_out_of_place(&self, x: &[Complex<T>], y: &mut [Complex<T>]) -> Result<(), FftError> {
        self.fits(x.len(), y.len())?;
        self.fft.fft_out_of_place(x, y)
    }
    pub fn ifft_out_of_place(&self, x: &[Complex<T>], y: &mut [Complex<T>]) -> Result<(), FftError> {
        self.fits(x.len(), y.len())?;
        self.fft.ifft_out_of_place(x, y)
    }
    pub fn fft_split(&self, re: &mut [T], im: &mut [T]) -> Result<(), FftError> {
        self.fits(re.len(), im.len())?;
        self.fft.fft_split(re, im)
    }
    pub fn ifft_split(&self, re: &mut [T], im: &mut [T]) -> Result<(), FftError> {
        self.fits(re.len(), im.len())?;
        self.fft.ifft_split(re, im)
    }
}
/// Calls that exist only with std; the plain call stands in for them.
#[cfg(feature = "bare")]
pub struct TwiddleFactorBuffer;
#[cfg(feature = "bare")]
impl TwiddleFactorBuffer {
    pub fn new(_n: usize) -> Self {
        TwiddleFactorBuffer
    }
}
#[cfg(feature = "bare")]
pub trait WithStd<T: Float>: FftImpl<T> {
    fn fft_radix4(&self, x: &mut [Complex<T>]) -> Result<(), FftError> {
        self.fft_with_strategy(x, FftStrategy::Radix4)
    }
    fn fft_vec(&self, x: &[Complex<T>]) -> Result<Vec<Complex<T>>, FftError> {
        let mut v = x.to_vec();
        self.fft(&mut v)?;
        Ok(v)
    }
    fn ifft_vec(&self, x: &[Complex<T>]) -> Result<Vec<Complex<T>>, FftError> {
        let mut v = x.to_vec();
        self.ifft(&mut v)?;
        Ok(v)
    }
    fn fft_radix2_with_twiddles(&self, x: &mut [Complex<T>], _: &TwiddleFactorBuffer) -> Result<(), FftError> {
        self.fft_with_strategy(x, FftStrategy::Radix2)
    }
    fn fft_radix4_with_twiddles(&self, x: &mut [Complex<T>], _: &TwiddleFactorBuffer) -> Result<(), FftError> {
        self.fft_with_strategy(x, FftStrategy::Radix4)
    }
    fn fft_mixed_radix_with_twiddles(&self, x: &mut [Complex<T>], _: &TwiddleFactorBuffer) -> Result<(), FftError> {
        self.fft_with_strategy(x, FftStrategy::Auto)
    }
}
#[cfg(feature = "bare")]
impl<T: Float> WithStd<T> for ScalarFftImpl<T> {}

/// A transform length: small, power of two, or odd-shaped.
pub fn size() -> usize {
    fit(any_size())
}
pub fn any_size() -> usize {
    match ctx::w(8) {
        0 => ctx::range(1, 4),
        1 | 2 => ctx::range(1, 17),
        3 | 4 | 5 => {
            let hi = if ctx::thorough() { 12 } else { 10 };
            1 << ctx::range(1, hi)
        }
        6 => ctx::range(3, 200),
        _ => *ctx::pick(&[96usize, 100, 120, 125, 127, 129, 243, 255, 257, 360, 500, 600, 1000, 1023, 1025, 1500]),
    }
}
/// A length far beyond the usual ones.
pub fn big_size() -> usize {
    let hi = if ctx::thorough() { 17 } else { 15 };
    fit(match ctx::w(12) {
        0..=3 => 1 << ctx::range(11, hi),
        4..=7 => ctx::range(1500, 5000),
        // indices whose squares need more than 32 bits
        8 => ctx::range(65537, 72000),
        _ => ctx::range(4000, 1 << (hi - 1)),
    })
}
/// A length that has something in common with another one (tables kept under a too narrow key).
pub fn related(n: usize) -> usize {
    let r = match ctx::w(8) {
        0 => n + 1,
        1 => n.saturating_sub(1),
        2 => 2 * n,
        3 => n / 2,
        4 => n + 256,
        5 => n + 1024,
        6 => n.next_power_of_two(),
        _ => (n.next_power_of_two() / 2 + 1 + ctx::w(n as u64) / 2).min(n.next_power_of_two()),
    };
    fit(r.clamp(1, 3000.max(n)))
}
/// Sizes a run keeps coming back to.
pub fn size_pool() -> Vec<usize> {
    let k = ctx::range(1, 4);
    let mut p: Vec<usize> = Vec::new();
    for _ in 0..k {
        let r = if !p.is_empty() && ctx::chance(S::Work, 1, 4) { Some(related(*ctx::pick(&p))) } else { None };
        p.push(r.unwrap_or_else(size));
    }
    p
}
pub fn from_pool(pool: &[usize]) -> usize {
    if ctx::chance(S::Work, 1, 5) {
        size()
    } else {
        *ctx::pick(pool)
    }
}

pub fn strategy() -> FftStrategy {
    *ctx::pick(&[FftStrategy::Auto, FftStrategy::Radix2, FftStrategy::Radix4, FftStrategy::SplitRadix])
}

/// Worst observed error as a share of the tolerance (calibration only).
pub fn note_err(_what: &str, share: f64) {
    if share > 0.25 {
        ctx::count("calibration: error above a quarter of the tolerance");
    }
    if share > 0.6 {
        ctx::count("calibration: error above 60% of the tolerance");
    }
}

pub fn check<T: Num>(what: &str, got: &[Complex<T>], want: &[C], n: usize) {
    check_tol(what, &to_c(got), want, T::tol(n), T::NAME)
}
pub fn check_tol(what: &str, got: &[C], want: &[C], tol: f64, num: &str) {
    if got.len() == want.len() && want.iter().any(|v| !v.0.is_finite() || !v.1.is_finite()) {
        return;
    }
    let e = oracle::rel(got, want);
    if !(e <= tol) {
        let (i, d) = oracle::worst(got, want);
        let (g, w) = if i < got.len() && i < want.len() { (got[i], want[i]) } else { ((f64::NAN, 0.0), (f64::NAN, 0.0)) };
        violation!(
            "wrong-result",
            "{what} ({num}, {} values): relative error {e:.3e} exceeds {tol:.1e}; worst at {i}: got ({:.6},{:.6}) want ({:.6},{:.6}) diff {d:.3e}",
            want.len(),
            g.0,
            g.1,
            w.0,
            w.1
        );
    }
    note_err(what, e / tol);
}
pub fn check_re(what: &str, got: &[f64], want: &[f64], tol: f64, num: &str) {
    let g: Vec<C> = got.iter().map(|v| (*v, 0.0)).collect();
    let w: Vec<C> = want.iter().map(|v| (*v, 0.0)).collect();
    if g.len() != w.len() {
        violation!("wrong-length", "{what}: {} values instead of {}", g.len(), w.len());
    }
    check_tol(what, &g, &w, tol, num);
}
pub fn bits_c<T: Num>(x: &[Complex<T>]) -> Vec<(u64, u64)> {
    x.iter().map(|v| (v.re.bits(), v.im.bits())).collect()
}
pub fn bits_r<T: Num>(x: &[T]) -> Vec<u64> {
    x.iter().map(|v| v.bits()).collect()
}
pub fn ok(what: &str, r: Result<(), FftError>) {
    if let Err(e) = r {
        violation!("unexpected-error", "{what} failed with {e:?}");
    }
}
pub fn refused(what: &str, r: Result<(), FftError>, want: FftError) {
    match r {
        Err(e) if e == want => {}
        other => violation!("wrong-refusal", "{what}: expected Err({want:?}), got {other:?}"),
    }
}
pub fn same<X: PartialEq>(what: &str, a: &X, b: &X) {
    if a != b {
        violation!("data-changed", "{what}: data changed although the call did not succeed or must not touch it");
    }
}

/// Hash of result bits into the event log, so that the history identifies the run.
pub fn log_c<T: Num>(x: &[Complex<T>]) {
    let mut h = 0u64;
    for v in x {
        h = h.rotate_left(5) ^ v.re.bits();
        h = h.rotate_left(5) ^ v.im.bits();
    }
    ctx::event_num(x.len() as u64, h);
}

pub const ERRS: &[FftError] = &[
    FftError::InvalidValue,
    FftError::EmptyInput,
    FftError::NonPowerOfTwoNoStd,
    FftError::MismatchedLengths,
    FftError::InvalidStride,
    FftError::InvalidHopSize,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    Before(FftError),
    /// the engine destroys the buffer it was given and then fails
    Scribble(FftError),
    /// the engine finishes its work and then reports failure
    After(FftError),
}

/// The real engine behind a fault injector.
pub struct FaultFft<T: Float> {
    pub inner: ScalarFftImpl<T>,
    pub plan: RefCell<VecDeque<Option<Fail>>>,
    pub calls: Cell<u64>,
    pub failed: Cell<Option<FftError>>,
}
impl<T: Float> Default for FaultFft<T> {
    fn default() -> Self {
        FaultFft { inner: ScalarFftImpl::default(), plan: RefCell::new(VecDeque::new()), calls: Cell::new(0), failed: Cell::new(None) }
    }
}
pub fn draw_fail() -> Fail {
    let e = ERRS[ctx::draw(S::Fault, ERRS.len() as u64) as usize];
    match ctx::draw(S::Fault, 3) {
        0 => Fail::Before(e),
        1 => Fail::Scribble(e),
        _ => Fail::After(e),
    }
}
impl<T: Float> FaultFft<T> {
    /// Arms a failure for the call after `skip` successful ones.
    pub fn arm(&self, skip: usize, f: Fail) {
        let mut p = self.plan.borrow_mut();
        p.clear();
        for _ in 0..skip {
            p.push_back(None);
        }
        p.push_back(Some(f));
        self.failed.set(None);
    }
    pub fn disarm(&self) {
        self.plan.borrow_mut().clear();
        self.failed.set(None);
    }
    fn run(&self, x: &mut [Complex<T>], f: impl Fn(&ScalarFftImpl<T>, &mut [Complex<T>]) -> Result<(), FftError>) -> Result<(), FftError> {
        self.calls.set(self.calls.get() + 1);
        let step = self.plan.borrow_mut().pop_front().flatten();
        match step {
            None => f(&self.inner, x),
            Some(Fail::Before(e)) => {
                ctx::fault("engine fails before working");
                self.failed.set(Some(e));
                Err(e)
            }
            Some(Fail::Scribble(e)) => {
                ctx::fault("engine destroys its buffer and fails");
                for v in x.iter_mut() {
                    *v = Complex::new(T::from_f32(7.5e8), T::from_f32(-3.25e8));
                }
                self.failed.set(Some(e));
                Err(e)
            }
            Some(Fail::After(e)) => {
                ctx::fault("engine works and then fails");
                let _ = f(&self.inner, x);
                self.failed.set(Some(e));
                Err(e)
            }
        }
    }
}
impl<T: Float> FftImpl<T> for FaultFft<T> {
    fn fft(&self, x: &mut [Complex<T>]) -> Result<(), FftError> {
        self.run(x, |i, x| i.fft(x))
    }
    fn ifft(&self, x: &mut [Complex<T>]) -> Result<(), FftError> {
        self.run(x, |i, x| i.ifft(x))
    }
    fn fft_strided(&self, x: &mut [Complex<T>], s: usize, t: &mut [Complex<T>]) -> Result<(), FftError> {
        self.inner.fft_strided(x, s, t)
    }
    fn ifft_strided(&self, x: &mut [Complex<T>], s: usize, t: &mut [Complex<T>]) -> Result<(), FftError> {
        self.inner.ifft_strided(x, s, t)
    }
    fn fft_out_of_place_strided(&self, x: &[Complex<T>], a: usize, y: &mut [Complex<T>], b: usize) -> Result<(), FftError> {
        self.inner.fft_out_of_place_strided(x, a, y, b)
    }
    fn ifft_out_of_place_strided(&self, x: &[Complex<T>], a: usize, y: &mut [Complex<T>], b: usize) -> Result<(), FftError> {
        self.inner.ifft_out_of_place_strided(x, a, y, b)
    }
    fn fft_with_strategy(&self, x: &mut [Complex<T>], s: FftStrategy) -> Result<(), FftError> {
        self.inner.fft_with_strategy(x, s)
    }
}

/// Double arithmetic that unwinds after a given number of operations.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
pub struct Trap(pub f64);
thread_local! {
    static FUSE: Cell<u64> = const { Cell::new(0) };
    static OPS: Cell<u64> = const { Cell::new(0) };
}
pub struct Unwound;
pub fn set_fuse(n: u64) {
    FUSE.with(|f| f.set(n));
}
pub fn fuse_left() -> u64 {
    FUSE.with(|f| f.get())
}
pub fn ops() -> u64 {
    OPS.with(|f| f.get())
}
fn tick() {
    OPS.with(|o| o.set(o.get() + 1));
    FUSE.with(|f| {
        let v = f.get();
        if v > 0 {
            f.set(v - 1);
            if v == 1 {
                std::panic::resume_unwind(Box::new(Unwound));
            }
        }
    });
}
macro_rules! op {
    ($tr:ident, $f:ident, $o:tt) => {
        impl core::ops::$tr for Trap {
            type Output = Trap;
            fn $f(self, b: Trap) -> Trap {
                tick();
                Trap(self.0 $o b.0)
            }
        }
    };
}
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
op!(Div, div, /);
impl core::ops::Neg for Trap {
    type Output = Trap;
    fn neg(self) -> Trap {
        tick();
        Trap(-self.0)
    }
}
impl Float for Trap {
    fn zero() -> Self {
        Trap(0.0)
    }
    fn one() -> Self {
        Trap(1.0)
    }
    fn from_f32(x: f32) -> Self {
        Trap(x as f64)
    }
    fn cos(self) -> Self {
        tick();
        Trap(self.0.cos())
    }
    fn sin(self) -> Self {
        tick();
        Trap(self.0.sin())
    }
    fn sin_cos(self) -> (Self, Self) {
        tick();
        (Trap(self.0.sin()), Trap(self.0.cos()))
    }
    fn pi() -> Self {
        Trap(std::f64::consts::PI)
    }
}
impl Num for Trap {
    const NAME: &'static str = "user-defined float";
    fn f(self) -> f64 {
        self.0
    }
    fn of(x: f64) -> Self {
        Trap(x)
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
    fn tol(n: usize) -> f64 {
        // generic kernels may use single-precision constants for foreign float types
        2e-6 + 2e-8 * n as f64
    }
}

/// Sometimes lets even small transforms run on the thread pool.
pub fn pool_use() {
    #[cfg(feature = "par")]
    if ctx::w(4) == 3 {
        simrt::interpose::set_cpus(ctx::range(1, 8));
        kofft::fft::set_parallel_fft_threshold(1 << ctx::range(1, 7));
        ctx::count("runs with small transforms on the pool");
    }
}
