//! C12: the song index on a file system that slices, interrupts and fails.
use kofft::media::index::{SongId, SongIndex};
use simrt::ctx::{self, S};
use simrt::fs::{self, Faults};
use simrt::prng::Rng;
use simrt::{ev, violation};
use std::collections::{BTreeMap, HashMap};
use std::ffi::OsString;
use std::io;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::PathBuf;

/// Contents that are easy to confuse: prefixes, one changed byte, lengths around the usual buffer sizes.
fn contents() -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = Vec::new();
    for _ in 0..ctx::range(2, 6) {
        let v = if all.is_empty() || ctx::w(3) == 0 {
            let n = match ctx::w(9) {
                0 => 0,
                1 => ctx::range(1, 16),
                2 => ctx::range(1, 2000),
                3 => 8192,
                4 => 8191 + ctx::w(4),
                5 => 2 * 8192 + ctx::w(3),
                6 => 65536 + ctx::w(3),
                // a real song; one run in some
                7 if ctx::w(6) == 5 => ctx::range(100_000, 1_200_000),
                _ => ctx::range(1, 40_000),
            };
            let mut r = Rng::new(ctx::draw(S::Work, 1 << 16));
            if ctx::w(4) == 0 {
                vec![0; n]
            } else {
                (0..n).map(|_| r.below(256) as u8).collect()
            }
        } else {
            let mut v = ctx::pick(&all).clone();
            match ctx::w(5) {
                0 => v.push(0),
                1 => {
                    v.pop();
                }
                2 if !v.is_empty() => {
                    let at = match ctx::w(3) {
                        0 => v.len() - 1,
                        1 => 0,
                        _ => ctx::w(v.len() as u64),
                    };
                    v[at] ^= 1 << ctx::w(8);
                }
                3 => {
                    let n = v.len();
                    v.extend_from_within(..n.min(9000));
                }
                _ => {
                    let n = v.len();
                    if n > 8192 {
                        // same bytes, blocks swapped
                        v.rotate_left(8192);
                    } else {
                        v.reverse();
                    }
                }
            }
            v
        };
        all.push(v);
    }
    all.sort();
    all.dedup();
    all
}

struct World {
    index: SongIndex,
    /// contents by number; a file holds the number of its content
    bytes: Vec<Vec<u8>>,
    disk: BTreeMap<String, usize>,
    /// identities in order of appearance
    ids: Vec<SongId>,
    by_name: HashMap<OsString, usize>,
    /// names once answered by content: may or may not count as known
    aliased: HashMap<OsString, Vec<usize>>,
    /// last content under which an identity was registered
    content: HashMap<usize, usize>,
    /// names under which an identity was registered
    names: HashMap<usize, Vec<OsString>>,
}

impl World {
    fn number(&mut self, id: &SongId) -> usize {
        match self.ids.iter().position(|x| x == id) {
            Some(i) => i,
            None => {
                self.ids.push(id.clone());
                self.ids.len() - 1
            }
        }
    }
    fn register(&mut self, what: &str, id: usize, name: &OsString, c: usize) {
        // a fresh identity must not be one that stands for other bytes under another name
        if let (Some(old), Some(names)) = (self.content.get(&id), self.names.get(&id)) {
            if *old != c && !names.contains(name) {
                violation!("mixed-up", "{what}: got the identity of a song with other bytes and another name ({names:?})");
            }
        }
        if name.to_str().is_some() {
            self.by_name.insert(name.clone(), id);
        }
        self.aliased.remove(name);
        self.content.insert(id, c);
        let n = self.names.entry(id).or_default();
        if !n.contains(name) {
            n.push(name.clone());
        }
    }
}

fn draw_faults() -> Faults {
    let mut f = Faults::default();
    let level = |n: &[u64]| n[ctx::draw(S::Fault, n.len() as u64) as usize];
    f.eintr = level(&[0, 0, 2, 3, 8]);
    f.short = level(&[0, 0, 1, 2, 4]);
    f.eio_read = level(&[0, 0, 0, 2, 6]);
    f.open_err = level(&[0, 0, 0, 2, 5]);
    if ctx::draw(S::Fault, 6) == 5 {
        f.bad_from = Some([0u64, 1, 100, 8192, 8193, 16384, 30000][ctx::draw(S::Fault, 7) as usize]);
    }
    f
}

fn same_error(e: &io::Error) -> bool {
    // what the file system can report here; anything else was made up
    matches!(e.raw_os_error(), Some(libc::EIO | libc::EACCES | libc::EMFILE | libc::ENOENT | libc::EAGAIN))
}

pub fn songs() {
    let bytes = contents();
    // few names in few directories, so that names and contents collide
    let mut names: Vec<OsString> = (0..ctx::range(2, 6)).map(|i| OsString::from(format!("song{i}.flac"))).collect();
    if ctx::w(3) == 2 {
        // names that are easily taken for each other
        let stem = "a very long title ".repeat(12);
        let pool = [
            "song0.mp3".into(), "song0".into(), "Song0.flac".into(), "SONG0.FLAC".into(), " song0.flac".into(), "song0.flac ".into(),
            ".song0.flac".into(), "song0.flac.flac".into(), "song0.FLAC".into(), "song".into(), "song00.flac".into(), "s\u{f6}ng0.flac".into(),
            "so\u{308}ng0.flac".into(), "01 - song0.flac".into(), "song0 (live).flac".into(), "song0~1.flac".into(), ".flac".into(), "..flac".into(),
            format!("{stem}1.flac"), format!("{stem}2.flac"), "song0%20.flac".into(), "song0\u{200b}.flac".into(), "song0\n.flac".into(),
        ];
        for _ in 0..ctx::range(1, 5) {
            names.push(OsString::from(ctx::pick(&pool)));
        }
        names.sort();
        names.dedup();
    }
    if ctx::w(4) == 3 {
        names.push(OsString::from_vec(b"so\xffng".to_vec()));
        names.push(OsString::from_vec(b"so\xfeng".to_vec()));
    }
    let dirs: &[&str] = if ctx::w(4) == 3 { &["/simfs/a/", "/simfs/A/", "/simfs/a/a/", "/simfs/"] } else { &["/simfs/a/", "/simfs/b/", "/simfs/c/"] };
    let dirs = &dirs[..ctx::range(1, dirs.len())];
    let mut w = World {
        index: SongIndex::new(),
        bytes,
        disk: BTreeMap::new(),
        ids: Vec::new(),
        by_name: HashMap::new(),
        aliased: HashMap::new(),
        content: HashMap::new(),
        names: HashMap::new(),
    };
    let path = || -> (PathBuf, OsString) {
        let n = ctx::pick(&names).clone();
        let mut p = PathBuf::from(*ctx::pick(dirs));
        p.push(&n);
        (p, n)
    };
    let key = |p: &PathBuf| fs::key(p.as_os_str().as_bytes()).into_owned();
    let put = |w: &mut World, p: &PathBuf| {
        let c = ctx::w(w.bytes.len() as u64);
        fs::fs().put(&key(p), w.bytes[c].clone());
        w.disk.insert(key(p), c);
        ev!("write {p:?}: content {c}, {} bytes", w.bytes[c].len());
    };
    for _ in 0..ctx::range(1, 6) {
        let (p, _) = path();
        put(&mut w, &p);
    }
    let mut failed = 0;
    let mut ops = 0;
    ctx::repeat(2, 40, 14, |i| {
        match ctx::w(10) {
            0 => {
                let (p, _) = path();
                put(&mut w, &p);
                return;
            }
            1 if ctx::w(2) == 1 => {
                let (p, _) = path();
                fs::fs().remove(&key(&p));
                w.disk.remove(&key(&p));
                ev!("remove {p:?}");
                return;
            }
            _ => {}
        }
        let (p, name) = path();
        if !w.disk.contains_key(&key(&p)) && ctx::w(3) != 0 {
            put(&mut w, &p);
        }
        let add = ctx::w(3) == 0;
        // under faults, and again once they have cleared
        for attempt in 0..2 {
            let faulty = attempt == 0 && ctx::draw(S::Fault, 2) == 1;
            let f = fs::fs();
            f.faults = if faulty { draw_faults() } else { Faults::default() };
            f.take_fired();
            let (opens, reads) = (f.opens, f.reads);
            let r = if add { w.index.index_song(&p) } else { w.index.identify(&p) };
            let f = fs::fs();
            let (hard, soft) = f.take_fired();
            let touched = f.opens > opens || f.reads > reads;
            let left = f.open_count();
            let what = format!("operation {i}, {} {p:?}{}", if add { "adding" } else { "identifying" }, if faulty { " under faults" } else { "" });
            ev!("{what}: ok {} hard {hard} soft {soft} touched {touched}", r.is_ok());
            if left != 0 {
                violation!("leak", "{what}: left {left} files open");
            }
            ops += 1;
            let on_disk = w.disk.get(&key(&p)).copied();
            if !add && w.by_name.contains_key(&name) {
                if touched {
                    violation!("touched", "{what}: the file was touched although its name is known");
                }
                let want = w.by_name[&name];
                match &r {
                    Ok(id) if *id == w.ids[want] => {}
                    Ok(_) => violation!("wrong-identity", "{what}: a known name got another identity"),
                    Err(e) => violation!("unexpected-error", "{what}: a known name failed with {e}"),
                }
                ctx::count("answered by name");
                return;
            }
            if let (false, Some(a), Ok(id)) = (add || touched, w.aliased.get(&name), &r) {
                if a.iter().any(|k| w.ids[*k] == *id) {
                    ctx::count("answered by name");
                    return;
                }
            }
            match r {
                Err(e) => {
                    if hard == 0 && on_disk.is_some() {
                        violation!("unexpected-error", "{what}: failed with {e} although nothing went wrong ({soft} interruptions and short reads)");
                    }
                    if !same_error(&e) {
                        violation!("wrong-error", "{what}: reported {e:?}");
                    }
                    failed += 1;
                    ctx::count("operations failed");
                    if on_disk.is_none() {
                        return;
                    }
                    // the loop repeats it without faults
                }
                Ok(id) => {
                    let Some(c) = on_disk else {
                        violation!("made-up", "{what}: succeeded although there is no such file");
                    };
                    if hard > 0 {
                        violation!("swallowed", "{what}: {hard} read or open errors were not reported");
                    }
                    let before = w.ids.len();
                    let k = w.number(&id);
                    // identities that stand for these bytes now
                    let holders: Vec<usize> = (0..before).filter(|q| w.content.get(q) == Some(&c)).collect();
                    if add {
                        w.register(&what, k, &name, c);
                        ctx::count("songs added");
                    } else if !holders.is_empty() {
                        if !holders.contains(&k) {
                            violation!("wrong-identity", "{what}: a song with the same bytes is known, but the answer is another identity");
                        }
                        w.aliased.entry(name.clone()).or_default().push(k);
                        ctx::count("answered by content");
                    } else {
                        if k < before && !w.names[&k].contains(&name) {
                            violation!("mixed-up", "{what}: got the identity of a song with other bytes and another name");
                        }
                        w.register(&what, k, &name, c);
                        ctx::count("new songs");
                    }
                    if failed > 0 || soft > 0 {
                        ctx::nontrivial();
                    }
                    return;
                }
            }
        }
    });
    ctx::state((w.ids.len() as u64) << 8 | ops);
}
