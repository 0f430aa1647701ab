//! C08: the parallel STFT family on the real rayon pool, under every schedule the seed draws.
use crate::c05::{check_frame, hop, model_frame, signal, synth, win_len, window, Synth};
use crate::util::*;
use kofft::fft::*;
use kofft::stft::*;
use kofft::visual::spectrogram::stft_magnitudes;
use simrt::ctx::{self, S};
use simrt::oracle::C;
use simrt::{ev, interpose, sched, violation};
use std::sync::{Arc, Mutex};

enum Req {
    Forward { sig: Vec<f32>, win: Vec<f32>, hop: usize, extra: usize, dirty: usize },
    Inverse { frames: Vec<Vec<Complex32>>, win: Vec<f32>, hop: usize, len: usize, model: Synth },
    Mags { sig: Vec<f32>, win: usize, hop: usize },
    /// refused requests: zero hop, too few output frames, wrong frame length
    Bad(usize),
}

fn draw_req() -> Req {
    match ctx::w(7) {
        0 | 1 => {
            let n = win_len();
            let h = hop(n);
            Req::Forward { sig: signal(n, h), win: window(n), hop: h, extra: ctx::w(3), dirty: ctx::w(2 * n as u64 + 2) }
        }
        2 | 3 => {
            let n = win_len();
            let h = hop(n);
            let win = window(n);
            let k = ctx::range(0, 9);
            let frames: Vec<Vec<Complex32>> = (0..k).map(|_| of_c(&cplx(n))).collect();
            let full = if k == 0 { 0 } else { k * h + n.saturating_sub(h) };
            let len = match ctx::w(4) {
                0 | 1 => full,
                2 => full + ctx::range(1, 9),
                _ => full - ctx::w(full.max(1) as u64),
            };
            let dm: Vec<Vec<C>> = frames.iter().map(|f| to_c(f)).collect();
            let model = synth(&dm, &win, h, len);
            Req::Inverse { frames, win, hop: h, len, model }
        }
        4 | 5 => {
            let n = win_len().max(2);
            let h = hop(n);
            Req::Mags { sig: signal(n, h), win: n, hop: h }
        }
        _ => Req::Bad(ctx::w(7)),
    }
}

fn digest(v: &mut u64, x: u64) {
    *v = (v.rotate_left(9) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
}

/// Carries out one request and returns a digest of everything it returned.
fn serve(who: &str, r: &Req, full: bool) -> u64 {
    let eng = ScalarFftImpl::<f32>::default();
    let mut d = 1u64;
    match r {
        Req::Forward { sig, win, hop, extra, dirty } => {
            let n = win.len();
            let need = sig.len().div_ceil(*hop);
            let mut out: Vec<Vec<Complex32>> = (0..need + extra).map(|i| vec![Complex32::new(i as f32 + 9.0, -7.0); (dirty + i) % (n + 3)]).collect();
            let what = format!("{who}: parallel STFT ({} samples, window {n}, hop {hop}, {} frames)", sig.len(), out.len());
            ok(&what, parallel(sig, win, *hop, &mut out, &eng));
            if full {
                for (k, f) in out.iter().enumerate() {
                    if f.len() != n {
                        violation!("wrong-length", "{what}: frame {k} has {} values", f.len());
                    }
                    check_frame(&what, f, sig, win, *hop, k);
                }
                let mut seq: Vec<Vec<Complex32>> = vec![vec![]; out.len()];
                ok(&what, stft(sig, win, *hop, &mut seq, &eng));
                for (k, f) in seq.iter().enumerate() {
                    check_frame(&format!("{what}, sequential"), f, sig, win, *hop, k);
                    check(&format!("{what}: parallel and sequential frame {k}"), &out[k], &to_c(f), n);
                }
            }
            for f in &out {
                digest(&mut d, f.len() as u64);
                for v in f {
                    digest(&mut d, v.re.bits());
                    digest(&mut d, v.im.bits());
                }
            }
        }
        Req::Inverse { frames, win, hop, len, model } => {
            let what = format!("{who}: parallel inverse STFT ({} frames, window {}, hop {hop}, {len} samples)", frames.len(), win.len());
            let mut out: Vec<f32> = (0..*len).map(|i| i as f32 + 0.5).collect();
            ok(&what, inverse_parallel(frames, win, *hop, &mut out, &eng));
            if full {
                model.check_all(&what, &out);
                let mut fr = frames.clone();
                let mut seq = vec![3.0f32; *len];
                let mut scratch = vec![1.0f32; *len];
                ok(&what, istft(&mut fr, win, *hop, &mut seq, &mut scratch, &eng));
                model.check_all(&format!("{what}, sequential"), &seq);
            }
            for v in &out {
                digest(&mut d, v.bits());
            }
        }
        Req::Mags { sig, win, hop } => {
            let what = format!("{who}: magnitude spectrogram ({} samples, window {win}, hop {hop})", sig.len());
            let (m, max) = match stft_magnitudes(sig, *win, *hop) {
                Ok(x) => x,
                Err(e) => violation!("unexpected-error", "{what} failed with {e:?}"),
            };
            if m.len() != sig.len().div_ceil(*hop) || m.iter().any(|c| c.len() != win / 2) {
                violation!("wrong-length", "{what}: {} columns", m.len());
            }
            let top = m.iter().flatten().fold(0.0f32, |a, b| a.max(*b));
            if top.to_bits() != max.to_bits() {
                violation!("wrong-result", "{what}: reported maximum {max}, the largest magnitude is {top}");
            }
            if full {
                let w = kofft::window::hann(*win);
                for (k, c) in m.iter().enumerate() {
                    let f = model_frame(sig, &w, *hop, k);
                    let scale = f.iter().fold(0.0f64, |a, v| a.max(v.0.hypot(v.1)));
                    for (b, g) in c.iter().enumerate() {
                        let want = f[b].0.hypot(f[b].1);
                        if !((*g as f64 - want).abs() <= f32::tol(*win) * scale + 1e-30) {
                            violation!("wrong-result", "{what}: column {k} bin {b} is {g}, should be {want}");
                        }
                    }
                }
            }
            for c in &m {
                for v in c {
                    digest(&mut d, v.bits());
                }
            }
            digest(&mut d, max.bits());
        }
        Req::Bad(k) => {
            ctx::fault("invalid request");
            let sig = vec![0.25f32; 20];
            let win = vec![1.0f32; 4];
            let mut out: Vec<Vec<Complex32>> = vec![vec![]; 10];
            match k {
                0 => {
                    refused("parallel STFT with hop 0", parallel(&sig, &win, 0, &mut out, &eng), FftError::InvalidHopSize);
                    refused("sequential STFT with hop 0", stft(&sig, &win, 0, &mut out, &eng), FftError::InvalidHopSize);
                }
                1 => {
                    out.truncate(9);
                    refused("parallel STFT with too few frames", parallel(&sig, &win, 2, &mut out, &eng), FftError::MismatchedLengths);
                    refused("sequential STFT with too few frames", stft(&sig, &win, 2, &mut out, &eng), FftError::MismatchedLengths);
                }
                2 => {
                    let fr = vec![vec![Complex32::new(1.0, 0.0); 4]; 6];
                    refused("parallel inverse STFT with hop 0", inverse_parallel(&fr, &win, 0, &mut vec![0.0; 9], &eng), FftError::InvalidHopSize);
                }
                3 => {
                    let mut fr = vec![vec![Complex32::new(1.0, 0.0); 4]; 6];
                    let at = ctx::w(6);
                    fr[at] = vec![Complex32::new(1.0, 0.0); *ctx::pick(&[0usize, 1, 3, 5, 8])];
                    refused(&format!("parallel inverse STFT with a bad frame {at}"), inverse_parallel(&fr, &win, 2, &mut vec![0.0; 9], &eng), FftError::MismatchedLengths);
                    refused(
                        &format!("sequential inverse STFT with a bad frame {at}"),
                        istft(&mut fr, &win, 2, &mut vec![0.0; 9], &mut vec![0.0; 9], &eng),
                        FftError::MismatchedLengths,
                    );
                }
                4 | 5 => {
                    // an empty window: whatever the sequential form answers, the parallel one answers
                    let frames = ctx::w(4);
                    let sig = &sig[..ctx::w(frames as u64 + 1)];
                    let mut fr = vec![vec![Complex32::new(1.0, 1.0); 2]; frames];
                    let a = parallel(sig, &[], 1, &mut fr, &eng);
                    let a_len: Vec<usize> = fr.iter().map(|f| f.len()).collect();
                    let mut fr = vec![vec![Complex32::new(1.0, 1.0); 2]; frames];
                    let b = stft(sig, &[], 1, &mut fr, &eng);
                    if a != b {
                        violation!("wrong-refusal", "empty window, {frames} frames: parallel STFT gave {a:?}, sequential {b:?}");
                    }
                    if a.is_ok() && a_len.iter().any(|l| *l != 0) {
                        violation!("wrong-length", "empty window: frames of lengths {a_len:?}");
                    }
                    let mut fr: Vec<Vec<Complex32>> = vec![vec![]; frames];
                    let (mut o1, mut o2) = (vec![2.0f32; 5], vec![2.0f32; 5]);
                    let a = inverse_parallel(&fr, &[], 1, &mut o1, &eng);
                    let b = istft(&mut fr, &[], 1, &mut o2, &mut vec![0.0; 5], &eng);
                    if a != b || (a.is_ok() && bits_r(&o1) != bits_r(&o2)) {
                        violation!("wrong-refusal", "empty window, {frames} frames: parallel inverse gave {a:?} {o1:?}, sequential {b:?} {o2:?}");
                    }
                }
                _ => {
                    if stft_magnitudes(&sig, 4, 0).err() != Some(FftError::InvalidHopSize) {
                        violation!("wrong-refusal", "spectrogram with hop 0 not refused");
                    }
                }
            }
        }
    }
    d
}

pub fn parallel_stft() {
    // the global pool takes its size from the environment or the CPU count
    let cpus = ctx::range(1, 8);
    interpose::set_cpus(cpus);
    if ctx::w(3) == 2 {
        std::env::set_var("RAYON_NUM_THREADS", ctx::range(1, 6).to_string());
    }
    // transforms inside the workers may themselves use the pool
    if ctx::w(2) == 1 {
        set_parallel_fft_threshold(1 << ctx::range(0, 6));
        ctx::count("runs with pool transforms inside the workers");
    }
    let reqs: Arc<Vec<Req>> = Arc::new((0..ctx::range(1, 4)).map(|_| draw_req()).collect());
    let seen: Arc<Mutex<Vec<Option<u64>>>> = Arc::new(Mutex::new(vec![None; reqs.len()]));
    let once = {
        let (reqs, seen) = (reqs.clone(), seen.clone());
        move |who: &str, i: usize| {
            let full = seen.lock().unwrap()[i].is_none();
            let d = serve(who, &reqs[i], full);
            ctx::event_num(i as u64, d);
            let mut s = seen.lock().unwrap();
            match s[i] {
                Some(o) if o != d => violation!("not-reproducible", "{who}: request {i} returned other bits than an earlier identical request"),
                _ => s[i] = Some(d),
            }
            ctx::count("requests served");
        }
    };
    let callers = ctx::range(1, 3);
    let pools: Vec<Option<Arc<rayon::ThreadPool>>> = (0..2)
        .map(|_| {
            if ctx::w(2) == 1 {
                let k = ctx::range(1, 4);
                Some(Arc::new(rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap()))
            } else {
                None
            }
        })
        .collect();
    let go = |t: usize| {
        let plan: Vec<(usize, usize)> = (0..ctx::range(1, 3)).map(|_| (ctx::w(reqs.len() as u64), ctx::w(2))).collect();
        let once = once.clone();
        let pools = pools.clone();
        move || {
            for (i, p) in plan {
                let who = format!("caller {t}");
                match &pools[p] {
                    Some(pool) => pool.install(|| once(&who, i)),
                    None => once(&who, i),
                }
            }
        }
    };
    if callers == 1 {
        go(0)();
        if ctx::draw(S::Fault, 2) == 1 {
            go(0)();
        }
    } else {
        ctx::nontrivial();
        let hs: Vec<_> = (0..callers).map(|t| std::thread::spawn(go(t))).collect();
        for h in hs {
            h.join().unwrap();
        }
    }
    if sched::nthreads() > 2 {
        ctx::nontrivial();
    }
    ev!("cpus {cpus} threads {}", sched::nthreads());
}
