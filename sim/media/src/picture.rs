//! C14: saving pictures on storage that slices, interrupts, refuses and runs full.
use crate::{colour, program};
use image::{ImageBuffer, Rgb};
use sanity_check::{save_png, save_svg, PngDepth};
use simrt::ctx::{self, S};
use simrt::fs::{self, Faults};
use simrt::prng::Rng;
use simrt::{ev, oracle, violation};
use std::path::Path;

type Picture = ImageBuffer<Rgb<u16>, Vec<u16>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Eight,
    Sixteen,
    Svg,
}

fn picture() -> Picture {
    let side = |max: usize| match ctx::w(4) {
        0 => ctx::range(1, 3),
        1 | 2 => ctx::range(1, 16),
        _ => ctx::range(1, max),
    };
    let (w, h) = (side(90), side(70));
    let mut r = Rng::new(ctx::draw(S::Work, 1 << 16));
    let style = ctx::w(5);
    ImageBuffer::from_fn(w as u32, h as u32, |x, y| {
        let mut v = || r.below(65536) as u16;
        Rgb(match style {
            0 => [v(), v(), v()],
            1 => [0, 65535, 32768],
            2 => [(x * 700) as u16, (y * 900) as u16, 0],
            3 => [v() & 0x101, v() | 0xff00, v() & 0xff],
            _ => [v() & 1, 0x00ff, 0xff00],
        })
    })
}

fn write_faults() -> Faults {
    let mut f = Faults::default();
    let level = |n: &[u64]| n[ctx::draw(S::Fault, n.len() as u64) as usize];
    f.eintr = level(&[0, 0, 2, 3, 8]);
    f.short = level(&[0, 0, 1, 2, 5]);
    match ctx::draw(S::Fault, 10) {
        3 => f.eio_write = level(&[1, 2, 5, 20]),
        4 => f.open_err = level(&[1, 2]),
        5 => f.enospc = level(&[1, 2, 5, 20]),
        6 => f.write_zero = level(&[1, 3, 9]),
        7 | 8 => f.space = Some(0),
        _ => {}
    }
    f
}

fn u32be(b: &[u8]) -> u32 {
    u32::from_be_bytes(b.try_into().unwrap())
}
fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xedb8_8320 ^ c >> 1 } else { c >> 1 };
        }
    }
    !c
}

/// Width, height, bits per channel and values of a complete PNG file.
fn read_png(b: &[u8]) -> Result<(usize, usize, u32, Vec<u16>), String> {
    use image::ImageDecoder;
    if b.len() < 8 || &b[..8] != b"\x89PNG\r\n\x1a\n" {
        return Err("no PNG signature".into());
    }
    let mut at = 8;
    loop {
        if at + 12 > b.len() {
            return Err(format!("file of {} bytes ends inside a chunk or before the end chunk", b.len()));
        }
        let n = u32be(&b[at..at + 4]) as usize;
        if at + 12 + n > b.len() {
            return Err(format!("file of {} bytes ends inside a chunk", b.len()));
        }
        if crc32(&b[at + 4..at + 8 + n]) != u32be(&b[at + 8 + n..at + 12 + n]) {
            return Err("chunk checksum is wrong".into());
        }
        let end = &b[at + 4..at + 8] == b"IEND";
        at += 12 + n;
        if end {
            break;
        }
    }
    if at != b.len() {
        return Err(format!("{} bytes follow the end of the picture", b.len() - at));
    }
    let d = image::codecs::png::PngDecoder::new(std::io::Cursor::new(b)).map_err(|e| e.to_string())?;
    let (w, h) = d.dimensions();
    let (bits, bytes) = match d.color_type() {
        image::ColorType::Rgb8 => (8, 3),
        image::ColorType::Rgb16 => (16, 6),
        c => return Err(format!("colour type {c:?}")),
    };
    let mut raw = vec![0; w as usize * h as usize * bytes];
    d.read_image(&mut raw).map_err(|e| e.to_string())?;
    let v = if bits == 8 { raw.iter().map(|b| *b as u16).collect() } else { raw.chunks(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect() };
    Ok((w as usize, h as usize, bits, v))
}

/// The same for our kind of SVG file: rectangles on a grid, later ones on top.
/// The colours a writer of these pictures may use: `#rrggbb`, `#rgb`, `rgb(r, g, b)`.
fn colour(f: &str) -> Option<[u16; 3]> {
    let v: Vec<u16> = match f.strip_prefix('#') {
        Some(h) if h.is_ascii() && h.len() == 6 => (0..3).filter_map(|k| u16::from_str_radix(&h[2 * k..2 * k + 2], 16).ok()).collect(),
        Some(h) if h.is_ascii() && h.len() == 3 => (0..3).filter_map(|k| u16::from_str_radix(&h[k..k + 1], 16).ok().map(|v| v * 17)).collect(),
        Some(_) => return None,
        None => f.strip_prefix("rgb(")?.strip_suffix(')')?.split([',', ' ']).filter(|v| !v.is_empty()).map(|v| v.parse().ok()).collect::<Option<_>>()?,
    };
    v.try_into().ok().filter(|v: &[u16; 3]| v.iter().all(|v| *v < 256))
}

fn read_svg(b: &[u8]) -> Result<(usize, usize, u32, Vec<u16>), String> {
    let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    let end = s.trim_end();
    if !end.ends_with("</svg>") && !end.ends_with("/>") {
        return Err(format!("document of {} bytes does not end with its closing tag", b.len()));
    }
    if s.matches("<svg").count() != 1 || s.matches("</svg>").count() > 1 {
        return Err("not exactly one document".into());
    }
    let mut size = None;
    let mut px: Vec<u16> = Vec::new();
    let mut open = false;
    for tag in s.split('<').skip(1) {
        let Some((inside, _)) = tag.split_once('>') else { return Err("unfinished tag".into()) };
        let name = inside.split([' ', '/', '\n']).next().unwrap_or("");
        let attr = |k: &str| -> Option<String> {
            for (at, _) in inside.match_indices(k) {
                let before = inside[..at].chars().next_back();
                let Some(v) = inside[at + k.len()..].trim_start().strip_prefix('=') else { continue };
                let v = v.trim_start();
                if before.is_some_and(char::is_whitespace) && v.starts_with(['"', '\'']) {
                    return Some(v[1..].split(&v[..1]).next()?.trim().to_string());
                }
            }
            None
        };
        let num = |k: &str| attr(k).and_then(|v| v.parse::<usize>().ok()).ok_or(format!("no usable {k} in <{inside}>"));
        match name {
            "svg" => {
                open = true;
                let vb = match (attr("viewBox"), attr("width"), attr("height")) {
                    (Some(v), ..) => v,
                    (None, Some(w), Some(h)) => format!("0 0 {} {}", w.trim_end_matches("px"), h.trim_end_matches("px")),
                    _ => return Err("no size".into()),
                };
                let n: Vec<usize> = vb.split([' ', ',']).filter_map(|x| x.parse().ok()).collect();
                if n.len() != 4 || n[0] != 0 || n[1] != 0 {
                    return Err(format!("viewBox {vb:?}"));
                }
                size = Some((n[2], n[3]));
                px = vec![u16::MAX; n[2] * n[3] * 3];
            }
            "rect" => {
                let (w, h) = size.ok_or("rectangle before the document")?;
                let place = |k: &str| if attr(k).is_none() { Ok(0) } else { num(k) };
                let (x, y, rw, rh) = (place("x")?, place("y")?, num("width")?, num("height")?);
                let f = attr("fill").ok_or("no fill")?;
                let f = colour(&f).ok_or(format!("fill {f:?}"))?;
                if x + rw > w || y + rh > h {
                    return Err(format!("rectangle at {x},{y} outside {w}x{h}"));
                }
                for k in 0..3 {
                    for yy in y..y + rh {
                        for xx in x..x + rw {
                            px[(yy * w + xx) * 3 + k] = f[k];
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if !open {
        return Err("no document".into());
    }
    let (w, h) = size.unwrap();
    if let Some(i) = px.iter().position(|v| *v == u16::MAX) {
        return Err(format!("pixel {},{} is not drawn", i / 3 % w, i / 3 / w));
    }
    Ok((w, h, 8, px))
}

fn complete(what: &str, hard: u64, bytes: Option<&Vec<u8>>, p: &Picture, kind: Kind) {
    let Some(b) = bytes else { violation!("no-file", "{what}: reported success but there is no file") };
    let r = match kind {
        Kind::Svg => read_svg(b),
        _ => read_png(b),
    };
    let (w, h, bits, v) = match r {
        Ok(r) => r,
        Err(e) => violation!(if hard > 0 { "silent-failure" } else { "incomplete" }, "{what}: reported success but the file is not a complete picture: {e}"),
    };
    if bits != if kind == Kind::Sixteen { 16 } else { 8 } {
        violation!("wrong-depth", "{what}: {bits} bits per channel");
    }
    if (w, h) != (p.width() as usize, p.height() as usize) {
        violation!("wrong-size", "{what}: {w}x{h} instead of {}x{}", p.width(), p.height());
    }
    for (i, (a, b)) in v.iter().zip(p.as_raw()).enumerate() {
        let want = if bits == 8 { b >> 8 } else { *b };
        if *a != want {
            violation!("wrong-pixel", "{what}: channel {} of pixel {},{} reads back as {a}, saved {want}", i % 3, i / 3 % w, i / 3 / w);
        }
    }
    ctx::count("saved pictures read back");
}

pub fn saving() {
    let d = fs::fs();
    let names = ["/simfs/a.png", "/simfs/b.svg"];
    for n in names {
        match ctx::w(4) {
            1 => d.put(n, vec![0x41; ctx::range(1, 300)]),
            2 => d.put(n, b"\x89PNG\r\n\x1a\n and then a lot of other data".repeat(ctx::range(1, 3000))),
            3 => d.put(n, vec![]),
            _ => {}
        }
    }
    ctx::repeat(1, 6, 4, |k| {
        let p = picture();
        let kind = *ctx::pick(&[Kind::Eight, Kind::Sixteen, Kind::Svg]);
        let name = names[ctx::w(2)];
        let mut f = write_faults();
        if f.space.is_some() {
            // somewhere within what the picture needs
            let whole = match kind {
                Kind::Svg => 60 + 70 * p.width() as u64 * p.height() as u64,
                _ => 60 + 4 * p.width() as u64 * p.height() as u64,
            };
            f.space = Some(match ctx::draw(S::Fault, 3) {
                0 => ctx::draw(S::Fault, 80),
                1 => ctx::draw(S::Fault, whole),
                _ => {
                    // leave out the last few bytes: save once on an empty scratch name to see the size
                    let free = Faults::default();
                    d.faults = free;
                    let _ = save(&p, kind, "/simfs/probe");
                    let n = d.get("/simfs/probe").map_or(0, |v| v.len() as u64);
                    d.remove("/simfs/probe");
                    n.saturating_sub(ctx::draw(S::Fault, 20))
                }
            });
            // what the old contents give back when they are cut off
            let old = d.get(name).map_or(0, |v| v.len() as u64);
            f.space = Some(f.space.unwrap().saturating_sub(old));
        }
        let what = format!("save {k}: {}x{} picture as {kind:?} over {} bytes", p.width(), p.height(), d.get(name).map_or("no".into(), |v| v.len().to_string()));
        ev!("{what} with {f:?}");
        d.take_fired();
        d.faults = f;
        let r = save(&p, kind, name);
        d.faults = Faults::default();
        let (hard, soft) = d.take_fired();
        if d.open_count() != 0 {
            violation!("leak", "{what}: left its file open");
        }
        ctx::state((kind as u64) << 8 | hard.min(3) << 2 | (soft > 0) as u64 * 2 | r.is_ok() as u64);
        match r {
            Ok(()) => {
                complete(&format!("{what} ({hard} failures, {soft} interruptions or short writes)"), hard, d.get(name), &p, kind);
                if soft > 0 {
                    ctx::nontrivial();
                }
            }
            Err(e) => {
                if hard == 0 {
                    violation!("unexpected-error", "{what}: refused although nothing failed ({soft} interruptions or short writes): {e}");
                }
                ctx::count("saves refused");
                ev!("refused: {e}");
            }
        }
    });
    // and the storage works again
    let p = picture();
    let kind = *ctx::pick(&[Kind::Eight, Kind::Sixteen, Kind::Svg]);
    let what = format!("last save: {}x{} picture as {kind:?}", p.width(), p.height());
    if let Err(e) = save(&p, kind, names[0]) {
        violation!("unexpected-error", "{what}: refused on a healthy disk: {e}");
    }
    complete(&what, 0, d.get(names[0]), &p, kind);
}

fn save(p: &Picture, kind: Kind, name: &str) -> Result<(), String> {
    match kind {
        Kind::Eight => save_png(p, Path::new(name), PngDepth::Eight),
        Kind::Sixteen => save_png(p, Path::new(name), PngDepth::Sixteen),
        Kind::Svg => save_svg(p, Path::new(name)),
    }
    .map_err(|e| e.to_string())
}

struct Job {
    win: usize,
    log: bool,
    range: f64,
    map: &'static str,
    sixteen: bool,
    x: Vec<f64>,
}

/// The picture the program should make, by definition.
fn draws(j: &Job, w: usize, h: usize, bits: u32, v: &[u16]) {
    let hop = j.win / 2;
    let frames = j.x.len().div_ceil(hop);
    let what = format!("window {}, {} samples, {} scale, {} dB, {}", j.win, j.x.len(), if j.log { "log" } else { "linear" }, j.range, j.map);
    if (w, h) != (frames, hop) {
        violation!("wrong-size", "{what}: picture is {w}x{h}, {frames} frames of {hop} bins expected");
    }
    if bits != if j.sixteen { 16 } else { 8 } {
        violation!("wrong-depth", "{what}: {bits} bits per channel");
    }
    let win = kofft::window::hann(j.win);
    let mut mags = Vec::new();
    let mut max = 0f64;
    let mut err = 0f64;
    for f in 0..frames {
        let x: Vec<oracle::C> = (0..j.win).map(|i| (j.x.get(f * hop + i).copied().unwrap_or(0.0) * win[i] as f64, 0.0)).collect();
        let e: f64 = x.iter().map(|c| c.0 * c.0).sum::<f64>().sqrt();
        let y = oracle::dft(&x);
        let m: Vec<f64> = y[..hop].iter().map(|c| (c.0 * c.0 + c.1 * c.1).sqrt()).collect();
        max = m.iter().fold(max, |a, b| a.max(*b));
        err = err.max(e * 4e-6 * (j.win as f64).sqrt());
        mags.push(m);
    }
    for (f, m) in mags.iter().enumerate() {
        let col: Vec<f64> = if j.log {
            let mut s = vec![(0.0, 0u32); hop];
            for (b, v) in m.iter().enumerate() {
                let y = kofft::visual::spectrogram::map_bin_to_pixel(b, hop - 1);
                s[y].0 += v;
                s[y].1 += 1;
            }
            s.iter().map(|(a, n)| a / (*n).max(1) as f64).collect()
        } else {
            m.clone()
        };
        for (b, m) in col.iter().enumerate() {
            let y = h - 1 - b;
            let got: Vec<f64> = (0..3).map(|k| v[(y * w + f) * 3 + k] as f64 / if bits == 16 { 257.0 } else { 1.0 }).collect();
            let band = colour::of_magnitude(*m, err, max, err, -j.range, j.map);
            if !colour::fits(&got, &band) {
                violation!("wrong-picture", "{what}: column {f}, bin {b} (magnitude {m:.6} of {max:.6}) is {got:?}, expected within {band:?}");
            }
        }
    }
}

/// The whole program: from the audio file to the picture.
pub fn program() {
    program::quiet();
    let d = fs::fs();
    let n = *ctx::pick(&[1usize, 5, 16, 37, 64, 100, 150]);
    let mut r = Rng::new(ctx::draw(S::Work, 1 << 16));
    let style = ctx::w(3);
    let raw: Vec<i16> = (0..n)
        .map(|i| match style {
            0 => (r.below(65536) as i64 - 32768) as i16,
            1 => ((i as f64 * 0.7).sin() * 20000.0) as i16,
            _ => {
                if i == n / 2 {
                    30000
                } else {
                    0
                }
            }
        })
        .collect();
    let mut wav = b"RIFF\0\0\0\0WAVEfmt \x10\0\0\0\x01\0\x01\0\x40\x1f\0\0\x80\x3e\0\0\x02\0\x10\0data".to_vec();
    wav.extend((2 * n as u32).to_le_bytes());
    wav.extend(raw.iter().flat_map(|v| v.to_le_bytes()));
    let len = wav.len() as u32 - 8;
    wav[4..8].copy_from_slice(&len.to_le_bytes());
    let wave_ext = ctx::w(3) == 2;
    let input = if wave_ext { "/simfs/in.wave" } else { "/simfs/in.wav" };
    let output = "/simfs/out.png";
    let win = *ctx::pick(&[2usize, 4, 7, 8, 16, 21, 32, 64]);
    let j = Job {
        win,
        log: ctx::w(2) == 1,
        range: *ctx::pick(&[120.0, 60.0, 90.0]),
        map: ctx::pick(&colour::NAMES),
        sixteen: ctx::w(2) == 1,
        x: raw.iter().map(|v| *v as f64 / if wave_ext { 32768.0 } else { 32767.0 }).collect(),
    };
    let mut args: Vec<String> = vec!["sanity-check".into(), input.into(), output.into(), format!("--win-len={win}")];
    if j.map != "inferno" || ctx::w(2) == 1 {
        args.push(format!("--colormap={}", j.map));
    }
    if j.log {
        args.push("--scale-mode=log".into());
    }
    if j.range != 120.0 {
        args.push(format!("--dynamic-range={}", j.range));
    }
    if j.sixteen {
        args.push("--png-depth=sixteen".into());
    }
    if ctx::w(3) == 1 {
        d.put(output, vec![7; ctx::range(1, 5000)]);
    }
    ev!("{args:?}");
    d.put(input, wav.clone());
    let run = || {
        program::set_args(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        program::sanity::run()
    };
    if !run() {
        violation!("unexpected-error", "{args:?} failed although nothing was wrong");
    }
    let Some(clean) = d.get(output).cloned() else { violation!("no-file", "{args:?} reported success without writing its output") };
    let (w, h, bits, px) = match read_png(&clean) {
        Ok(r) => r,
        Err(e) => violation!("incomplete", "{args:?} reported success but wrote no complete picture: {e}"),
    };
    draws(&j, w, h, bits, &px);
    ctx::count("pictures of the whole program checked");
    ctx::repeat(0, 3, 2, |k| {
        let mut cut = false;
        let mut f = if ctx::draw(S::Fault, 2) == 1 { crate::audio::read_faults() } else { write_faults() };
        if f.bad_from.is_some() {
            f.bad_from = Some(ctx::draw(S::Fault, wav.len() as u64));
        }
        if f.cut_at.is_some() {
            f.cut_at = Some(ctx::draw(S::Fault, wav.len() as u64));
            cut = true;
        }
        if f.space.is_some() {
            f.space = Some(ctx::draw(S::Fault, clean.len() as u64));
            d.remove(output);
        }
        let what = format!("{args:?}, run {k} with {f:?}");
        ev!("{what}");
        d.take_fired();
        d.faults = f;
        let good = run();
        d.faults = Faults::default();
        let (hard, soft) = d.take_fired();
        if d.open_count() != 0 {
            violation!("leak", "{what}: left a file open");
        }
        if !good {
            if hard == 0 {
                violation!("unexpected-error", "{what}: failed although there were only {soft} interruptions or short transfers");
            }
            ctx::count("disturbed runs of the program refused");
            return;
        }
        let Some(b) = d.get(output) else { violation!("no-file", "{what}: reported success without output") };
        match read_png(b) {
            Err(e) => violation!("silent-failure", "{what}: reported success but wrote no complete picture: {e}"),
            Ok((w2, h2, b2, p2)) => {
                if !cut && (w2, h2, b2, &p2) != (w, h, bits, &px) {
                    violation!("wrong-picture", "{what}: reported success but the picture differs from an undisturbed run");
                }
            }
        }
        ctx::count("disturbed runs of the program complete");
        if soft > 0 {
            ctx::nontrivial();
        }
    });
}
