//! Streaming and one-shot STFT and inverse STFT over a shared engine that may fail (C05, C06, C07).
use crate::util::*;
use kofft::fft::*;
use kofft::stft::*;
use simrt::ctx::{self, S};
use simrt::oracle::{self, C};
use simrt::{ev, violation};
use std::collections::VecDeque;

pub fn window(n: usize) -> Vec<f32> {
    let w = match ctx::w(8) {
        0 => vec![1.0; n],
        1 => kofft::window::hann(n),
        2 => kofft::window::hamming(n),
        3 => kofft::window::blackman(n),
        4 => kofft::window_more::bartlett(n),
        5 => kofft::window_more::tukey(n, 0.5),
        6 => (0..n).map(|i| if i % 3 == 1 { 0.0 } else { 0.5 + (i % 5) as f32 / 8.0 }).collect(),
        _ => (0..n).map(|i| 0.25 + ((i * 7 + 3) % 11) as f32 / 11.0).collect(),
    };
    // degenerate lengths give NaN windows (0/0); those are not the subject here
    if w.iter().any(|v| !v.is_finite()) {
        vec![1.0; n]
    } else {
        w
    }
}
pub fn win_len() -> usize {
    fit(any_win())
}
fn any_win() -> usize {
    match ctx::w(6) {
        0 => ctx::range(1, 4),
        1 | 2 => 1 << ctx::range(0, 6),
        3 | 4 => ctx::range(1, 40),
        _ if ctx::w(4) == 3 => *ctx::pick(&[256usize, 512, 1024, 400, 441, 600, 2048, ctx::range(128, 700)]),
        _ => *ctx::pick(&[48usize, 64, 100, 128]),
    }
}
pub fn hop(win: usize) -> usize {
    match ctx::w(6) {
        0 => win,
        1 | 2 => (win / 2).max(1),
        3 => (win / 4).max(1),
        4 => ctx::range(1, win),
        _ => ctx::range(1, 2 * win + 2),
    }
}
pub fn signal(win: usize, hop: usize) -> Vec<f32> {
    let n = match ctx::w(6) {
        0 => ctx::range(0, 3),
        1 => ctx::range(1, win + 1),
        2 => hop * ctx::range(1, 6),
        3 if win <= 32 => ctx::range(8, 40 + 160 * 8 / win.max(8)) * hop.min(20) + ctx::w(win as u64),
        _ => ctx::range(1, 8) * hop.min(40) + ctx::range(0, win),
    };
    of_r(&reals(n))
}

/// Frame `k` of the windowed signal, in double precision.
pub fn model_frame(sig: &[f32], win: &[f32], hop: usize, k: usize) -> Vec<C> {
    let x: Vec<C> = (0..win.len())
        .map(|i| {
            let t = (k as u128) * (hop as u128) + i as u128;
            if t < sig.len() as u128 {
                ((sig[t as usize] * win[i]) as f64, 0.0)
            } else {
                (0.0, 0.0)
            }
        })
        .collect();
    oracle::dft(&x)
}
pub fn check_frame(what: &str, got: &[Complex32], sig: &[f32], win: &[f32], hop: usize, k: usize) {
    check(&format!("{what}, frame {k}"), got, &model_frame(sig, win, hop, k), win.len());
}

/// Overlap-add of inverse transforms with its normalisation, in double precision.
pub struct Synth {
    pub num: Vec<f64>,
    pub norm: Vec<f64>,
    /// sum of |window| times the largest sample of the contributing frames
    pub scale: Vec<f64>,
    pub win: usize,
}
pub fn synth(frames: &[Vec<C>], win: &[f32], hop: usize, len: usize) -> Synth {
    let mut s = Synth { num: vec![0.0; len], norm: vec![0.0; len], scale: vec![0.0; len], win: win.len() };
    for (k, f) in frames.iter().enumerate() {
        let x = oracle::idft(f);
        let a = x.iter().fold(0.0f64, |m, v| m.max(v.0.abs()).max(v.1.abs()));
        for i in 0..win.len() {
            let t = k as u128 * hop as u128 + i as u128;
            if t < len as u128 {
                let (t, w) = (t as usize, win[i] as f64);
                s.num[t] += x[i].0 * w;
                s.norm[t] += w * w;
                s.scale[t] += w.abs() * a;
            }
        }
    }
    s
}
impl Synth {
    pub fn check_at(&self, what: &str, t: usize, got: f64) {
        let tol = 2.0 * f32::tol(self.win);
        let (num, norm, scale) = (self.num[t], self.norm[t], self.scale[t]);
        let (want, lim) = if norm > 3e-8 {
            (num / norm, tol * scale / norm)
        } else {
            // negligible energy: zero, or the sum divided by anything up to one and down to the threshold
            let hi = scale / 0.9e-8_f64.max(norm * 0.9);
            (0.0, hi.max(scale) * (1.0 + tol))
        };
        if !((got - want).abs() <= lim + 1e-30) {
            violation!("wrong-result", "{what}: sample {t} is {got}, should be {want} (window energy {norm:.3e}, limit {lim:.2e})");
        }
    }
    pub fn check_all(&self, what: &str, got: &[f32]) {
        for (t, g) in got.iter().enumerate() {
            self.check_at(what, t, *g as f64);
        }
    }
}

/// C05: several forward streams on one engine; failures, wrong sizes, repeats, other users.
pub fn forward_streams() {
    pool_use();
    let eng = FaultFft::<f32>::default();
    let k = ctx::range(1, 3);
    let setups: Vec<(Vec<f32>, Vec<f32>, usize)> = (0..k)
        .map(|_| {
            let n = win_len();
            let h = hop(n);
            (signal(n, h), window(n), h)
        })
        .collect();
    if let Err(e) = StftStream::new(&setups[0].0, &setups[0].1, 0, &eng).map(|_| ()) {
        if e != FftError::InvalidHopSize {
            violation!("wrong-refusal", "stream with hop 0 refused with {e:?}");
        }
    } else {
        violation!("wrong-refusal", "stream with hop 0 accepted");
    }
    let mut st: Vec<_> = setups
        .iter()
        .map(|(s, w, h)| StftStream::new(s, w, *h, &eng).unwrap_or_else(|e| violation!("unexpected-error", "stream refused: {e:?}")))
        .collect();
    let mut next = vec![0usize; k];
    let total: Vec<usize> = setups.iter().map(|(s, _, h)| s.len().div_ceil(*h)).collect();
    let mut failed_before = vec![false; k];
    let mut pull = |i: usize, mode: usize| {
        let (sig, win, h) = &setups[i];
        let n = win.len();
        let what = format!("stream {i} ({} samples, window {n}, hop {h})", sig.len());
        let at_end = next[i] >= total[i];
        match mode {
            1 => {
                // wrong buffer size
                let m = if ctx::w(2) == 0 { n + 1 + ctx::w(3) } else { n - 1 };
                let mut b = vec![Complex32::new(9.0, 9.0); m];
                let r = st[i].next_frame(&mut b);
                ev!("{what}: pull with {m} values -> {r:?}");
                match r {
                    Err(FftError::MismatchedLengths) => {}
                    Ok(false) if at_end => {}
                    r => violation!("wrong-refusal", "{what}: pull into {m} values gave {r:?}"),
                }
                ctx::fault("wrong buffer size");
                failed_before[i] = true;
            }
            m => {
                let mut b = vec![Complex32::new(5.0, -5.0); n];
                if m == 2 {
                    eng.arm(0, draw_fail());
                } else {
                    eng.disarm();
                }
                let r = st[i].next_frame(&mut b);
                ev!("{what}: pull {} -> {r:?}", next[i]);
                let failed = eng.failed.take();
                eng.disarm();
                match (r, failed) {
                    (Err(e), Some(f)) if e == f => {
                        failed_before[i] = true;
                    }
                    (r, Some(f)) => violation!("wrong-refusal", "{what}: engine failed with {f:?}, pull returned {r:?}"),
                    (Ok(false), None) => {
                        if !at_end {
                            violation!("lost-frame", "{what}: end reported after {} of {} frames", next[i], total[i]);
                        }
                    }
                    (Ok(true), None) => {
                        if at_end {
                            violation!("extra-frame", "{what}: a frame was delivered after the end ({} frames)", total[i]);
                        }
                        if failed_before[i] {
                            ctx::nontrivial();
                        }
                        failed_before[i] = false;
                        check_frame(&what, &b, sig, win, *h, next[i]);
                        log_c(&b);
                        next[i] += 1;
                        ctx::count("frames checked");
                    }
                    (Err(e), None) => violation!("unexpected-error", "{what}: pull failed with {e:?}"),
                }
            }
        }
    };
    ctx::repeat(1, 60, 20, |_| {
        let i = ctx::w(k as u64);
        match ctx::draw(S::Fault, 8) {
            0..=4 => pull(i, 0),
            5 => pull(i, 1),
            6 => pull(i, 2),
            _ => crate::forms::trait_form("the shared engine", &eng.inner, win_len()),
        }
    });
    // drain: faults stop, every stream ends and stays ended
    for i in 0..k {
        for _ in 0..total[i] + 3 {
            pull(i, 0);
        }
    }
    drop(pull);
    for i in 0..k {
        if next[i] != total[i] {
            violation!("lost-frame", "stream {i}: only {} of {} frames were delivered", next[i], total[i]);
        }
        // the one-shot transform of the same signal yields the same frames
        let (sig, win, h) = &setups[i];
        let extra = ctx::w(3);
        let mut fr: Vec<Vec<Complex32>> = (0..total[i] + extra).map(|j| vec![Complex32::new(1.0, 2.0); (j * 3) % 7]).collect();
        let what = format!("one-shot STFT ({} samples, window {}, hop {h}, {extra} spare frames)", sig.len(), win.len());
        ok(&what, stft(sig, win, *h, &mut fr, &eng));
        for (j, f) in fr.iter().enumerate() {
            if f.len() != win.len() {
                violation!("wrong-length", "{what}: frame {j} has {} values", f.len());
            }
            check_frame(&what, f, sig, win, *h, j);
        }
        let mut b = vec![Complex32::new(0.0, 0.0); win.len()];
        if total[i] > 0 {
            let j = ctx::w(total[i] as u64);
            ok("frame()", frame(sig, win, j * h, &mut b, &eng));
            check_frame("frame()", &b, sig, win, *h, j);
            let mut few = vec![vec![]; total[i] - 1];
            refused(&format!("{what} into too few frames"), stft(sig, win, *h, &mut few, &eng), FftError::MismatchedLengths);
            refused("one-shot STFT with hop 0", stft(sig, win, 0, &mut fr, &eng), FftError::InvalidHopSize);
        }
    }
}

/// C06: inverse streams fed with arbitrary frames.
pub fn inverse_streams() {
    pool_use();
    let eng = FaultFft::<f32>::default();
    let k = ctx::range(1, 2);
    struct Set {
        win: Vec<f32>,
        hop: usize,
        frames: Vec<Vec<Complex32>>,
        model: Synth,
        total: usize,
    }
    let sets: Vec<Set> = (0..k)
        .map(|_| {
            let n = win_len();
            let h = hop(n);
            let win = window(n);
            let count = if n <= 32 && ctx::w(4) == 3 { ctx::range(8, 40 + 160 * 8 / n.max(8)) } else { ctx::range(0, 7) };
            let frames: Vec<Vec<Complex32>> = (0..count).map(|_| of_c(&cplx(n))).collect();
            let total = if frames.is_empty() { 0 } else { frames.len() * h + n.saturating_sub(h) };
            let model = synth(&frames.iter().map(|f| to_c(f)).collect::<Vec<_>>(), &win, h, total);
            Set { win, hop: h, frames, model, total }
        })
        .collect();
    let mut st: Vec<_> = Vec::new();
    for (i, s) in sets.iter().enumerate() {
        let n = s.win.len();
        if let Some(e) = IstftStream::new(n, 0, s.win.clone(), &eng).map(|_| ()).err() {
            if e != FftError::InvalidHopSize {
                violation!("wrong-refusal", "inverse stream with hop 0 refused with {e:?}");
            }
        } else {
            violation!("wrong-refusal", "inverse stream with hop 0 accepted");
        }
        if IstftStream::new(n + 1 + ctx::w(3), s.hop, s.win.clone(), &eng).is_ok() {
            violation!("wrong-refusal", "inverse stream accepted a window shorter than its frames");
        }
        st.push(IstftStream::new(n, s.hop, s.win.clone(), &eng).unwrap_or_else(|e| violation!("unexpected-error", "inverse stream {i} refused: {e:?}")));
    }
    let next: Vec<std::cell::Cell<usize>> = (0..k).map(|_| std::cell::Cell::new(0)).collect();
    let mut out: Vec<Vec<f32>> = vec![vec![]; k];
    let mut push = |i: usize, mode: usize| {
        let s = &sets[i];
        let n = s.win.len();
        let what = format!("inverse stream {i} (window {n}, hop {})", s.hop);
        match mode {
            1 => {
                let m = if ctx::w(2) == 0 { n + 1 } else { n - 1 };
                let f = vec![Complex32::new(3.0, 4.0); m];
                let r = st[i].push_frame(&f).map(|c| c.len());
                ev!("{what}: push of {m} values -> {r:?}");
                if r != Err(FftError::MismatchedLengths) {
                    violation!("wrong-refusal", "{what}: push of {m} values gave {r:?}");
                }
                ctx::fault("wrong frame size");
            }
            m => {
                if next[i].get() >= s.frames.len() {
                    return;
                }
                if m == 2 {
                    eng.arm(0, draw_fail());
                } else {
                    eng.disarm();
                }
                let f = s.frames[next[i].get()].clone();
                let r = st[i].push_frame(&f).map(|c| c.to_vec());
                let failed = eng.failed.take();
                eng.disarm();
                ev!("{what}: push {} -> {:?}", next[i].get(), r.as_ref().map(|c| c.len()));
                same(&format!("{what}: pushed frame"), &bits_c(&f), &bits_c(&s.frames[next[i].get()]));
                match (r, failed) {
                    (Err(e), Some(f)) if e == f => ctx::nontrivial(),
                    (r, Some(f)) => violation!("wrong-refusal", "{what}: engine failed with {f:?}, push returned {r:?}"),
                    (Err(e), None) => violation!("unexpected-error", "{what}: push failed with {e:?}"),
                    (Ok(c), None) => {
                        if c.len() != s.hop {
                            violation!("wrong-length", "{what}: push {} returned {} samples", next[i].get(), c.len());
                        }
                        for (j, v) in c.iter().enumerate() {
                            s.model.check_at(&format!("{what}, chunk {}", next[i].get()), out[i].len() + j, *v as f64);
                        }
                        out[i].extend(c);
                        next[i].set(next[i].get() + 1);
                        ctx::count("chunks checked");
                    }
                }
            }
        }
    };
    ctx::repeat(1, 40, 14, |_| {
        let i = ctx::w(k as u64);
        match ctx::draw(S::Fault, 8) {
            0..=4 => push(i, 0),
            5 => push(i, 1),
            6 => push(i, 2),
            _ => crate::forms::trait_form("the shared engine", &eng.inner, win_len()),
        }
    });
    for i in 0..k {
        let all = ctx::w(3) > 0;
        while next[i].get() < sets[i].frames.len() && (all || !ctx::chance(S::Work, 1, 6)) {
            push(i, 0);
        }
    }
    drop(push);
    for i in 0..k {
        let s = &sets[i];
        let what = format!("inverse stream {i} (window {}, hop {}, {} frames)", s.win.len(), s.hop, next[i].get());
        // only the frames accepted so far count
        let total = if next[i].get() == 0 { 0 } else { next[i].get() * s.hop + s.win.len().saturating_sub(s.hop) };
        let done: Vec<Vec<C>> = s.frames[..next[i].get()].iter().map(|f| to_c(f)).collect();
        let model = synth(&done, &s.win, s.hop, total);
        let tail = st[i].flush().to_vec();
        ev!("{what}: flush -> {}", tail.len());
        let at = out[i].len();
        if at + tail.len() != total {
            violation!("wrong-length", "{what}: {at} samples pushed out and {} flushed instead of {total} in all", tail.len());
        }
        for (j, v) in tail.iter().enumerate() {
            model.check_at(&format!("{what}, tail"), at + j, *v as f64);
        }
        for _ in 0..2 {
            if !st[i].flush().is_empty() {
                violation!("extra-samples", "{what}: a second flush returned samples again");
            }
        }
        // a failed push between two flushes changes nothing either
        if ctx::w(3) == 2 && next[i].get() > 0 {
            eng.arm(0, draw_fail());
            let f = of_c::<f32>(&cplx(s.win.len()));
            if st[i].push_frame(&f).is_ok() {
                violation!("wrong-refusal", "{what}: push succeeded although the engine failed");
            }
            eng.disarm();
            if !st[i].flush().is_empty() {
                violation!("extra-samples", "{what}: flush after a failed push returned samples again");
            }
        }
        one_shot(&what, &done, &s.frames[..next[i].get()], &s.win, s.hop, total, &eng);
        let _ = s.total;
    }
}

fn one_shot(what: &str, done: &[Vec<C>], frames: &[Vec<Complex32>], win: &[f32], hop: usize, total: usize, eng: &FaultFft<f32>) {
    let len = match ctx::w(3) {
        0 => total,
        1 => total + ctx::range(1, 5),
        _ => total - ctx::w(total.max(1) as u64),
    };
    let model = synth(done, win, hop, len);
    let mut out: Vec<f32> = (0..len).map(|i| i as f32 - 3.5).collect();
    let what = format!("{what}: one-shot inverse into {len} samples");
    #[cfg(feature = "par")]
    if ctx::w(3) == 2 {
        ok(&what, inverse_parallel(frames, win, hop, &mut out, eng));
        model.check_all(&format!("{what} (parallel)"), &out);
        return;
    }
    let mut fr: Vec<Vec<Complex32>> = frames.to_vec();
    let mut scratch: Vec<f32> = (0..len).map(|i| i as f32 * 2.0 + 1.0).collect();
    ok(&what, istft(&mut fr, win, hop, &mut out, &mut scratch, eng));
    model.check_all(&what, &out);
    let mut short = vec![0.5f32; len + 1];
    let keep = out.clone();
    refused(&format!("{what} with wrong scratch"), istft(&mut fr, win, hop, &mut out, &mut short, eng), FftError::MismatchedLengths);
    same(&what, &bits_r(&out), &bits_r(&keep));
    refused(&format!("{what} with hop 0"), istft(&mut fr, win, 0, &mut out, &mut scratch, eng), FftError::InvalidHopSize);
    same(&what, &bits_r(&out), &bits_r(&keep));
}

/// The signal must come back where the window energy is not negligible.
fn check_back(what: &str, sig: &[f32], got: &[f32], win: &[f32], hop: usize, frames: usize) {
    let a = sig.iter().fold(0.0f64, |m, v| m.max((*v as f64).abs()));
    for t in 0..sig.len() {
        let (mut norm, mut sum) = (0.0, 0.0);
        for k in 0..frames {
            if t >= k * hop && t - k * hop < win.len() {
                let w = win[t - k * hop] as f64;
                norm += w * w;
                sum += w.abs();
            }
        }
        if norm < 1e-6 {
            continue;
        }
        let lim = 4.0 * f32::tol(win.len()) * a * (1.0 + sum / norm);
        let d = (got[t] as f64 - sig[t] as f64).abs();
        if !(d <= lim) {
            violation!("signal-not-restored", "{what}: sample {t} came back as {} instead of {} (energy {norm:.3e})", got[t], sig[t]);
        }
        ctx::count("samples restored");
    }
}

/// C07: analysis stream, queue, synthesis stream, all of it faulty.
pub fn pipeline() {
    pool_use();
    let ea = FaultFft::<f32>::default();
    let eb = FaultFft::<f32>::default();
    let shared = ctx::w(2) == 1;
    let eb = if shared { &ea } else { &eb };
    let n = win_len();
    let h = if ctx::w(6) == 5 { hop(n) } else { hop(n).min(n) };
    let win = window(n);
    let sig = signal(n, h);
    let total = sig.len().div_ceil(h);
    let what = format!("pipeline ({} samples, window {n}, hop {h})", sig.len());
    let mut a = match StftStream::new(&sig, &win, h, &ea) {
        Ok(s) => s,
        Err(e) => violation!("unexpected-error", "{what}: {e:?}"),
    };
    let mut b = match IstftStream::new(n, h, win.clone(), eb) {
        Ok(s) => s,
        Err(e) => violation!("unexpected-error", "{what}: {e:?}"),
    };
    let mut q: VecDeque<Vec<Complex32>> = VecDeque::new();
    let mut back: Vec<f32> = vec![];
    let (mut ended, mut deepest) = (false, 0usize);
    let mut buf = vec![Complex32::new(0.0, 0.0); n];
    let mut pushed = 0;
    let mut faults = ctx::range(0, 12);
    let mut guard = 0;
    while !(ended && q.is_empty()) {
        guard += 1;
        if guard > 4 * total + 400 {
            violation!("no-progress", "{what}: not finished after {guard} steps");
        }
        let pull = if ended {
            false
        } else if q.is_empty() {
            true
        } else {
            ctx::w(2) == 0
        };
        let faulty = faults > 0 && ctx::chance(S::Fault, 1, 3);
        if pull {
            if faulty {
                faults -= 1;
                ea.arm(0, draw_fail());
            }
            let r = a.next_frame(&mut buf);
            let failed = ea.failed.take();
            ea.disarm();
            match (r, failed) {
                (Ok(true), None) => q.push_back(buf.clone()),
                (Ok(false), None) => ended = true,
                (Err(_), Some(_)) => ctx::nontrivial(),
                (r, f) => violation!("unexpected-error", "{what}: pull gave {r:?}, engine {f:?}"),
            }
        } else {
            let f = q.front().unwrap().clone();
            if faulty {
                faults -= 1;
                eb.arm(0, draw_fail());
            }
            let r = b.push_frame(&f).map(|c| c.to_vec());
            let failed = eb.failed.take();
            eb.disarm();
            match (r, failed) {
                (Ok(c), None) => {
                    back.extend(c);
                    pushed += 1;
                    q.pop_front();
                }
                (Err(_), Some(_)) => ctx::nontrivial(),
                (r, f) => violation!("unexpected-error", "{what}: push gave {r:?}, engine {f:?}"),
            }
        }
        deepest = deepest.max(q.len());
        ctx::state((q.len() as u64) << 8 | pushed as u64);
    }
    back.extend(b.flush());
    ev!("{what}: {pushed} frames, queue up to {deepest}, {} samples back", back.len());
    if deepest > 1 {
        ctx::nontrivial();
    }
    if pushed != total {
        violation!("lost-frame", "{what}: {pushed} frames instead of {total}");
    }
    if back.len() < sig.len().min(if total == 0 { 0 } else { total * h + n.saturating_sub(h) }) {
        violation!("wrong-length", "{what}: only {} samples came back", back.len());
    }
    back.resize(back.len().max(sig.len()), 0.0);
    check_back(&what, &sig, &back, &win, h, total);
    // one-shot pair
    let mut fr = vec![vec![]; total];
    ok(&what, stft(&sig, &win, h, &mut fr, &ea));
    let mut out = vec![7.0f32; sig.len()];
    let mut sc = vec![3.0f32; sig.len()];
    ok(&what, istft(&mut fr, &win, h, &mut out, &mut sc, eb));
    check_back(&format!("{what}, one-shot"), &sig, &out, &win, h, total);
    // frame at a time, normalised by hand, frames in any order
    let mut out = vec![0.0f32; sig.len()];
    let mut norm = vec![0.0f32; sig.len()];
    let mut order: Vec<usize> = (0..total).collect();
    for i in (1..total).rev() {
        let j = ctx::w(i as u64 + 1);
        order.swap(i, i - j);
    }
    for k in order {
        ok(&what, frame(&sig, &win, k * h, &mut buf, &ea));
        check_frame(&what, &buf, &sig, &win, h, k);
        if ctx::chance(S::Fault, 1, 8) {
            eb.arm(0, Fail::Before(FftError::InvalidValue));
            let keep = bits_r(&out);
            refused(&what, inverse_frame(&mut buf, &win, k * h, &mut out, eb), FftError::InvalidValue);
            eb.disarm();
            same(&format!("{what}: output of a failed frame"), &bits_r(&out), &keep);
        }
        ok(&what, inverse_frame(&mut buf, &win, k * h, &mut out, eb));
        for i in 0..n {
            if k * h + i < sig.len() {
                norm[k * h + i] += win[i] * win[i];
            }
        }
    }
    for (o, m) in out.iter_mut().zip(&norm) {
        if *m > 1e-8 {
            *o /= *m;
        }
    }
    check_back(&format!("{what}, frame at a time"), &sig, &out, &win, h, total);
}
