//! C13: loading audio from storage that slices, interrupts, fails and cuts short.
use sanity_check::read_audio;
use simrt::ctx::{self, S};
use simrt::fs::{self, Faults};
use simrt::prng::Rng;
use simrt::{ev, violation};
use std::path::Path;

/// What a file was made from.
pub struct Made {
    pub what: String,
    pub bytes: Vec<u8>,
    pub name: &'static str,
    /// true mono samples
    pub truth: Vec<f64>,
    pub rate: u32,
    /// bits behind the samples: how far apart two legitimate scalings are
    pub bits: u32,
    /// the format is one the loader is there for
    pub supported: bool,
    /// where each frame that carries its own checksum lies
    pub frames: Vec<(usize, usize)>,
}

fn tone(n: usize, ch: usize, bits: u32) -> Vec<Vec<i64>> {
    let top = (1i64 << (bits - 1)) - 1;
    let mut r = Rng::new(ctx::draw(S::Work, 1 << 16));
    let style = ctx::w(4);
    (0..ch)
        .map(|c| {
            let mut x = r.below(top as u64) as i64;
            let constant = style == 1 && c % 2 == 0;
            (0..n)
                .map(|_| {
                    if constant {
                        return x;
                    }
                    x = match style {
                        3 => (x + r.below(9) as i64 - 4).clamp(-top - 1, top),
                        2 if r.below(8) == 0 => *[top, -top - 1, 0, -1].get(r.below(4) as usize).unwrap(),
                        _ => r.below(2 * top as u64 + 2) as i64 - top - 1,
                    };
                    x
                })
                .collect()
        })
        .collect()
}

fn mono(ch: &[Vec<i64>], bits: u32) -> Vec<f64> {
    let n = ch[0].len();
    (0..n).map(|i| ch.iter().map(|c| c[i] as f64).sum::<f64>() / ch.len() as f64 / (1u64 << (bits - 1)) as f64).collect()
}

fn length() -> usize {
    match ctx::w(8) {
        0 => 0,
        1 => ctx::range(1, 4),
        2 | 3 => ctx::range(1, 200),
        4 | 5 => ctx::range(200, 1500),
        6 => 1152 * ctx::range(1, 2) + ctx::w(3) - 1,
        _ => ctx::range(1500, if ctx::thorough() { 9000 } else { 4000 }),
    }
}

pub fn wav() -> Made {
    let ch = *ctx::pick(&[1usize, 2, 2, 3, 4, 6]);
    let (bits, float) = *ctx::pick(&[(16u32, false), (16, false), (16, false), (8, false), (24, false), (32, false), (32, true)]);
    let rate = *ctx::pick(&[44100u32, 8000, 48000, 96000, 11025, 1, 192000]);
    let n = length();
    let name = *ctx::pick(&["/simfs/a.wav", "/simfs/b.WAV", "/simfs/c.wave", "/simfs/d"]);
    let data_bits = if float { 24 } else { bits };
    let x = tone(n, ch, data_bits);
    let mut d = Vec::new();
    for i in 0..n {
        for c in &x {
            match bits {
                8 => d.push((c[i] + 128) as u8),
                16 => d.extend((c[i] as i16).to_le_bytes()),
                24 => d.extend(&(c[i] as i32).to_le_bytes()[..3]),
                _ if float => d.extend(((c[i] as f64 / 8388608.0) as f32).to_le_bytes()),
                _ => d.extend((c[i] as i32).to_le_bytes()),
            }
        }
    }
    let ext = ctx::w(3) == 2 || ch > 2 || bits > 16;
    let align = ch as u32 * bits / 8;
    let mut fmt = Vec::new();
    fmt.extend((if ext { 0xfffeu16 } else { 1 }).to_le_bytes());
    fmt.extend((ch as u16).to_le_bytes());
    fmt.extend(rate.to_le_bytes());
    fmt.extend((rate * align).to_le_bytes());
    fmt.extend((align as u16).to_le_bytes());
    fmt.extend((bits as u16).to_le_bytes());
    if ext {
        fmt.extend(22u16.to_le_bytes());
        fmt.extend((bits as u16).to_le_bytes());
        fmt.extend(((1u32 << ch) - 1).to_le_bytes());
        fmt.extend((if float { 3u16 } else { 1 }).to_le_bytes());
        fmt.extend([0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71]);
    }
    let mut body = b"WAVE".to_vec();
    let chunk = |body: &mut Vec<u8>, id: &[u8; 4], d: &[u8]| {
        body.extend(id);
        body.extend((d.len() as u32).to_le_bytes());
        body.extend(d);
        if d.len() % 2 == 1 {
            body.push(0);
        }
    };
    chunk(&mut body, b"fmt ", &fmt);
    if ctx::w(3) == 2 {
        chunk(&mut body, b"junk", &vec![0x55; 2 * ctx::range(1, 700)]);
    }
    chunk(&mut body, b"data", &d);
    if ctx::w(4) == 3 {
        chunk(&mut body, b"junk", &vec![0x33; 2 * ctx::range(1, 40)]);
    }
    let mut bytes = b"RIFF".to_vec();
    bytes.extend((body.len() as u32).to_le_bytes());
    bytes.extend(body);
    let what = format!("{bits}-bit {}WAV{}, {ch} channel(s), {n} frames at {rate} Hz as {name}", if float { "float " } else { "" }, if ext { " (extensible)" } else { "" });
    let plain = bits == 16 && ch <= 2;
    let truth = mono(&x, data_bits);
    Made { what, bytes, name, truth, rate, bits: data_bits, supported: plain && n > 0, frames: Vec::new() }
}

struct Bits(Vec<u8>, u32);
impl Bits {
    fn put(&mut self, v: u64, n: u32) {
        for i in (0..n).rev() {
            if self.1 == 0 {
                self.0.push(0);
            }
            *self.0.last_mut().unwrap() |= ((v >> i & 1) as u8) << (7 - self.1);
            self.1 = (self.1 + 1) % 8;
        }
    }
    fn align(&mut self) {
        self.1 = 0;
    }
}
fn crc(data: &[u8], poly: u32, width: u32) -> u32 {
    let mut c = 0u32;
    for b in data {
        c ^= (*b as u32) << (width - 8);
        for _ in 0..8 {
            c = if c >> (width - 1) & 1 == 1 { c << 1 ^ poly } else { c << 1 };
        }
    }
    c & ((1u64 << width) - 1) as u32
}
fn utf8(b: &mut Bits, n: u64) {
    if n < 0x80 {
        b.put(n, 8);
    } else if n < 0x800 {
        b.put(0xc0 | n >> 6, 8);
        b.put(0x80 | n & 0x3f, 8);
    } else {
        b.put(0xe0 | n >> 12, 8);
        b.put(0x80 | n >> 6 & 0x3f, 8);
        b.put(0x80 | n & 0x3f, 8);
    }
}
fn utf8_len(first: u8) -> usize {
    (first.leading_ones() as usize).max(1)
}
fn subframe(b: &mut Bits, x: &[i64], bps: u32, kind: usize) {
    if x.iter().all(|v| *v == x[0]) && kind != 1 {
        b.put(0, 8);
        b.put(x[0] as u64, bps);
        return;
    }
    let order = match kind {
        2 => 0usize,
        3 => 1,
        4 => 2,
        _ => usize::MAX,
    };
    if order == usize::MAX || x.len() <= order {
        b.put(0b10, 8);
        for v in x {
            b.put(*v as u64, bps);
        }
        return;
    }
    b.put(((0b001000 | order as u64) << 1) & 0xff, 8);
    for v in &x[..order] {
        b.put(*v as u64, bps);
    }
    let res: Vec<i64> = (order..x.len())
        .map(|i| match order {
            0 => x[i],
            1 => x[i] - x[i - 1],
            _ => x[i] - 2 * x[i - 1] + x[i - 2],
        })
        .collect();
    let mean = res.iter().map(|v| v.unsigned_abs()).sum::<u64>() / res.len().max(1) as u64;
    let k = (64 - mean.leading_zeros()).min(30);
    let wide = k > 14;
    b.put(wide as u64, 2);
    b.put(0, 4);
    b.put(k as u64, if wide { 5 } else { 4 });
    for v in res {
        let z = ((v << 1) ^ (v >> 63)) as u64;
        for _ in 0..z >> k {
            b.put(0, 1);
        }
        b.put(1, 1);
        b.put(z, k);
    }
}

pub fn flac() -> Made {
    let ch = *ctx::pick(&[1usize, 2, 2, 2, 3, 5, 8]);
    let bits = *ctx::pick(&[16u32, 16, 8, 24, 12, 20]);
    let rate = *ctx::pick(&[44100u32, 8000, 48000, 96000, 11025, 192000]);
    let n = length().max(1);
    let bs = match ctx::w(4) {
        0 => ctx::range(16, 64),
        1 => ctx::range(64, 600),
        2 => 192,
        _ => 1152,
    };
    // blocks of one size, or of a size drawn for each
    let mixed = ctx::w(3) == 2;
    let mut parts: Vec<(usize, usize)> = Vec::new();
    let mut at = 0;
    while at < n {
        let want = if mixed { *ctx::pick(&[bs, 16, 17, 64, 576, 4096]) } else { bs };
        let len = want.min(n - at);
        parts.push((at, len));
        at += len;
    }
    let most = if mixed { parts.iter().map(|p| p.1).max().unwrap().max(16) } else { bs };
    let least = if mixed { parts[..parts.len() - 1].iter().map(|p| p.1).min().unwrap_or(most) } else { bs };
    let mixed = least != most;
    let x = tone(n, ch, bits);
    let mut out = b"fLaC".to_vec();
    let pad = ctx::w(3) == 2;
    let known = ctx::w(4) != 3;
    let mut h = Bits(Vec::new(), 0);
    h.put(if pad { 0 } else { 0x80 }, 8);
    h.put(34, 24);
    h.put(least as u64, 16);
    h.put(most as u64, 16);
    h.put(0, 24);
    h.put(0, 24);
    h.put(rate as u64, 20);
    h.put(ch as u64 - 1, 3);
    h.put(bits as u64 - 1, 5);
    h.put(if known { n as u64 } else { 0 }, 36);
    h.put(0, 64);
    h.put(0, 64);
    out.extend(h.0);
    if pad {
        let k = ctx::range(0, 900);
        out.extend([0x81, 0, (k >> 8) as u8, k as u8]);
        out.extend(vec![0; k]);
    }
    let stereo = if ch == 2 { ctx::w(4) } else { 0 };
    let kind = ctx::w(6);
    let mut frames = Vec::new();
    for (f, (at, len)) in parts.into_iter().enumerate() {
        let mut b = Bits(Vec::new(), 0);
        b.put(0xfff8 | mixed as u64, 16);
        b.put(7, 4);
        b.put(0, 4);
        b.put(if stereo > 0 { 7 + stereo as u64 } else { ch as u64 - 1 }, 4);
        b.put(0, 4);
        utf8(&mut b, if mixed { at } else { f } as u64);
        b.put(len as u64 - 1, 16);
        let c = crc(&b.0, 0x07, 8);
        b.put(c as u64, 8);
        let part: Vec<Vec<i64>> = x.iter().map(|c| c[at..at + len].to_vec()).collect();
        let side = |p: &[Vec<i64>]| -> Vec<i64> { p[0].iter().zip(&p[1]).map(|(l, r)| l - r).collect() };
        let kind = if kind == 5 { f % 5 } else { kind };
        match stereo {
            1 => {
                subframe(&mut b, &part[0], bits, kind);
                subframe(&mut b, &side(&part), bits + 1, kind);
            }
            2 => {
                subframe(&mut b, &side(&part), bits + 1, kind);
                subframe(&mut b, &part[1], bits, kind);
            }
            3 => {
                let mid: Vec<i64> = part[0].iter().zip(&part[1]).map(|(l, r)| (l + r) >> 1).collect();
                subframe(&mut b, &mid, bits, kind);
                subframe(&mut b, &side(&part), bits + 1, kind);
            }
            _ => {
                for p in &part {
                    subframe(&mut b, p, bits, kind);
                }
            }
        }
        b.align();
        let c = crc(&b.0, 0x8005, 16);
        b.put(c as u64, 16);
        frames.push((out.len(), out.len() + b.0.len()));
        out.extend(b.0);
    }
    let name = *ctx::pick(&["/simfs/a.flac", "/simfs/b.FLAC", "/simfs/c"]);
    let what = format!("{bits}-bit FLAC, {ch} channel(s), {n} frames at {rate} Hz in blocks of {least} to {most}{} as {name}", if known { "" } else { " (length not stated)" });
    let truth = mono(&x, bits);
    Made { what, bytes: out, name, truth, rate, bits, supported: ch <= 2 && bits != 12, frames }
}

/// A recorded file, decoded here straight from memory.
fn recorded() -> Made {
    use symphonia::core::{audio::SampleBuffer, formats::FormatOptions, io::MediaSourceStream, meta::MetadataOptions, probe::Hint};
    let (name, bytes): (&str, &[u8]) = *ctx::pick(&[
        ("/simfs/test.flac", include_bytes!("../data/test.flac") as &[u8]),
        ("/simfs/test_stereo.flac", include_bytes!("../data/test_stereo.flac")),
        ("/simfs/test.mp3", include_bytes!("../data/test.mp3")),
    ]);
    let mss = MediaSourceStream::new(Box::new(std::io::Cursor::new(bytes.to_vec())), Default::default());
    let mut hint = Hint::new();
    hint.with_extension(name.rsplit('.').next().unwrap());
    let mut f = symphonia::default::get_probe().format(&hint, mss, &FormatOptions::default(), &MetadataOptions::default()).expect("recorded file").format;
    let p = f.default_track().unwrap().codec_params.clone();
    let mut d = symphonia::default::get_codecs().make(&p, &Default::default()).unwrap();
    let ch = p.channels.unwrap().count();
    let mut truth = Vec::new();
    while let Ok(k) = f.next_packet() {
        let a = d.decode(&k).expect("recorded packet");
        let mut sb = SampleBuffer::<f32>::new(a.capacity() as u64, *a.spec());
        sb.copy_interleaved_ref(a);
        truth.extend(sb.samples().chunks(ch).map(|c| c.iter().map(|v| *v as f64).sum::<f64>() / ch as f64));
    }
    if let Some(n) = p.n_frames {
        truth.truncate(n as usize);
    }
    Made { what: format!("recorded file {name}"), bytes: bytes.to_vec(), name, truth, rate: p.sample_rate.unwrap(), bits: 24, supported: true, frames: Vec::new() }
}

pub fn read_faults() -> Faults {
    let mut f = Faults::default();
    let level = |n: &[u64]| n[ctx::draw(S::Fault, n.len() as u64) as usize];
    f.eintr = level(&[0, 0, 2, 3, 8]);
    f.short = level(&[0, 0, 1, 2, 5]);
    match ctx::draw(S::Fault, 8) {
        3 => f.eio_read = level(&[2, 5, 20]),
        4 => f.open_err = level(&[1, 2]),
        5 => f.eio_meta = level(&[1, 2, 3]),
        6 => f.bad_from = Some(0),
        7 => f.cut_at = Some(0),
        _ => {}
    }
    f
}

fn load(name: &str) -> Result<(Vec<f32>, u32), String> {
    read_audio(Path::new(name)).map_err(|e| e.to_string())
}

fn close_to(m: &Made, x: &[f32], what: &str) {
    if x.len() != m.truth.len() {
        violation!("wrong-length", "{what}: {} samples, the file holds {}", x.len(), m.truth.len());
    }
    let unit = 1.0 / (1u64 << (m.bits - 1)) as f64;
    for (i, (a, b)) in x.iter().zip(&m.truth).enumerate() {
        if !((*a as f64 - b).abs() <= b.abs() * (1.5 * unit + 3e-6) + 0.6 * unit.min(3e-5) + 1e-6) {
            violation!("altered", "{what}: sample {i} is {a}, the file was made from {b}");
        }
    }
}

pub fn loading() {
    let m = match ctx::w(9) {
        0..=3 => wav(),
        4..=7 => flac(),
        _ => recorded(),
    };
    let d = fs::fs();
    d.put(m.name, m.bytes.clone());
    ev!("{}: {} bytes", m.what, m.bytes.len());
    let plain = load(m.name);
    match &plain {
        Ok((x, r)) => {
            if *r != m.rate {
                violation!("wrong-rate", "{}: reported {r} Hz", m.what);
            }
            close_to(&m, x, &m.what);
            ctx::count("intact files compared with what they were made from");
        }
        Err(e) => {
            if m.supported {
                violation!("unexpected-error", "{}: refused on a healthy disk: {e}", m.what);
            }
            ctx::count("files of an unsupported kind refused");
        }
    }
    if d.open_count() != 0 {
        violation!("leak", "{}: left its file open", m.what);
    }
    ctx::repeat(1, 6, 4, |k| {
        d.faults = Faults::default();
        d.put(m.name, m.bytes.clone());
        let mut f = read_faults();
        let mut cut = false;
        let n = m.bytes.len() as u64;
        if f.bad_from.is_some() {
            f.bad_from = Some(ctx::draw(S::Fault, n));
        }
        if f.cut_at.is_some() {
            let c = ctx::draw(S::Fault, n);
            if ctx::draw(S::Fault, 2) == 1 {
                f.cut_at = Some(c);
            } else {
                f.cut_at = None;
                cut = true;
                ctx::fault("fault:file truncated");
                d.put(m.name, m.bytes[..c as usize].to_vec());
            }
        }
        // one byte of one frame gone bad on the disk; a frame that is intact but means nothing
        if !cut && !m.frames.is_empty() && ctx::draw(S::Fault, 5) == 4 {
            let (a, b) = m.frames[ctx::draw(S::Fault, m.frames.len() as u64) as usize];
            let mut bytes = m.bytes.clone();
            cut = true;
            if ctx::draw(S::Fault, 2) == 0 {
                let i = a + ctx::draw(S::Fault, (b - a) as u64) as usize;
                let x = 1 + ctx::draw(S::Fault, 255) as u8;
                ev!("byte {i} of the frame at {a}..{b} is off by {x:#x}");
                bytes[i] ^= x;
                ctx::fault("fault:byte of a frame altered on the disk");
            } else {
                // the first subframe gets a type that is reserved
                let h = a + 4 + utf8_len(bytes[a + 4]) + 3;
                bytes[h] = 0b0000_0110;
                let c = crc(&bytes[a..b - 2], 0x8005, 16);
                bytes[b - 2..b].copy_from_slice(&(c as u16).to_be_bytes());
                ev!("the frame at {a}..{b} has a reserved type");
                ctx::fault("fault:undecodable frame");
            }
            d.put(m.name, bytes);
        }
        ev!("load {k} with {f:?}");
        d.take_fired();
        d.faults = f;
        let r = load(m.name);
        d.faults = Faults::default();
        let (hard, soft) = d.take_fired();
        let hard = hard + cut as u64;
        if d.open_count() != 0 {
            violation!("leak", "{}: left its file open after a disturbed load", m.what);
        }
        let what = format!("{}: load {k} with {hard} failure(s) and {soft} interruption(s) or short read(s)", m.what);
        ctx::state((hard.min(3) << 2 | (soft > 0) as u64) << 1 | r.is_ok() as u64);
        match (&r, &plain) {
            (Ok((x, rate)), Ok((want, wr))) => {
                if rate != wr {
                    violation!("wrong-rate", "{what}: reported {rate} Hz instead of {wr}");
                }
                if hard == 0 && x.len() != want.len() {
                    violation!("lost-samples", "{what}: {} samples instead of {}", x.len(), want.len());
                }
                if x.len() > want.len() {
                    violation!("padded", "{what}: {} samples, the file holds {}", x.len(), want.len());
                }
                for (i, (a, b)) in x.iter().zip(want).enumerate() {
                    if a.to_bits() != b.to_bits() {
                        violation!("altered", "{what}: sample {i} of {} returned is {a}, an undisturbed load gives {b}", x.len());
                    }
                }
                ev!("{} of {} samples", x.len(), want.len());
                ctx::count(if x.len() == want.len() { "disturbed loads complete" } else { "disturbed loads that gave a prefix" });
                if soft > 0 || hard > 0 {
                    ctx::nontrivial();
                }
            }
            (Err(e), Ok(_)) => {
                if hard == 0 {
                    violation!("unexpected-error", "{what}: {e}");
                }
                ev!("refused: {e}");
                ctx::count("disturbed loads refused");
                ctx::nontrivial();
            }
            (Ok((x, _)), Err(_)) => {
                // an unsupported file: whatever it gives must still be its samples
                if x.len() > m.truth.len() {
                    violation!("padded", "{what}: {} samples, the file holds {}", x.len(), m.truth.len());
                }
            }
            (Err(_), Err(_)) => {}
        }
    });
}
