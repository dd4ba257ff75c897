//! Failing destinations and sources
use super::damage::{to_hex, valid};
use super::fmts::*;
use d10::Image;
use d10_verif::engine::*;
use d10_verif::scratch::Dir;
use d10_verif::{ensure, gen::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Write};

fn image(r: &Raw) -> Image {
    Image::new_from_buffer(img_of_samples(r.w, r.h, &r.data, 255.0).buf())
}

// ------------------------------------------------------------------------------------- writers

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Fault {
    /// an error from then on
    Error,
    /// an error once, later data is accepted
    Once,
    /// nothing is accepted any more, without an error
    Nothing,
    /// full disk
    Full,
    Closed,
}

struct Sink {
    got: Vec<u8>,
    limit: Option<usize>,
    fault: Fault,
    /// bytes accepted at once
    most: usize,
    /// every how many calls a call is interrupted
    interrupt: usize,
    calls: usize,
    failed: bool,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len().min(self.most);
        if let Some(limit) = self.limit {
            let left = limit.saturating_sub(self.got.len());
            if left == 0 && !(self.failed && self.fault == Fault::Once) {
                self.failed = true;
                return match self.fault {
                    Fault::Nothing => Ok(0),
                    Fault::Full => Err(Error::from_raw_os_error(28)),
                    Fault::Closed => Err(ErrorKind::BrokenPipe.into()),
                    _ => Err(Error::new(ErrorKind::Other, "injected")),
                };
            }
            if !self.failed {
                n = n.min(left);
            }
        }
        self.got.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Writing {
    img: Raw,
    spec: Spec,
    fault: Fault,
    most: usize,
    interrupt: usize,
    /// positions for large files
    at: Vec<u16>,
}

fn writer_case(v: &Writing, c: &mut Case) -> Res {
    let what = v.spec.name();
    let im = image(&v.img);
    let run = |limit: Option<usize>, most: usize, interrupt: usize| {
        let mut s = Sink { got: vec![], limit, fault: v.fault, most, interrupt, calls: 0, failed: false };
        let r = no_panic(|| im.save_to_writer(&mut s, v.spec.format()).map_err(|e| e.to_string()));
        (r, s)
    };
    let Ok(want) = im.save_to_buffer(v.spec.format()) else {
        c.label("not storable");
        return Ok(());
    };
    c.label(v.spec.kind());
    c.label(format!("{:?}", v.fault));
    c.hit();
    // a slow destination gets everything
    let (r, s) = run(None, v.most, v.interrupt);
    let r = r.map_err(|p| err("panic", format!("{what}, pieces of {}: {p}", v.most)))?;
    ensure!(r.is_ok(), "pieces", "{what}, pieces of {}, interrupted every {} calls: {:?}", v.most, v.interrupt, r);
    ensure!(s.got == want, "pieces", "{what}, pieces of {}: different file", v.most);
    // enough space
    let (r, s) = run(Some(want.len()), usize::MAX, 0);
    ensure!(matches!(r, Ok(Ok(()))) && s.got == want, "exact", "{what}: {} bytes do not fit into {0}: {r:?}", want.len());
    // every place where it fails
    let n = want.len();
    let mut places: Vec<usize> = if n <= 400 {
        (0..n).collect()
    } else {
        (0..60).chain(n - 60..n).chain(v.at.iter().map(|a| *a as usize % n)).collect()
    };
    places.sort();
    places.dedup();
    for k in places {
        let (r, s) = run(Some(k), v.most, v.interrupt);
        let r = r.map_err(|p| err("panic", format!("{what}, {:?} after {k} of {n} bytes: {p}", v.fault)))?;
        match r {
            Err(m) => ensure!(!m.trim().is_empty(), "message", "{what}: an error without a message"),
            Ok(()) => {
                return fail(
                    "success",
                    format!("{what} {}x{}: reported as saved, but the destination failed ({:?}) after {k} of {n} bytes (got {})", v.img.w, v.img.h, v.fault, s.got.len()),
                )
            }
        }
    }
    Ok(())
}

fn picture(n: u32) -> BoxedStrategy<Raw> {
    raw(dims(n), 255, false, false)
}

/// Lossless WebP takes seconds for large images
fn affordable(img: Raw, spec: &Spec) -> Raw {
    let m = if matches!(spec, Spec::WebP { .. }) { 40 } else { u32::MAX };
    let (w, h) = (img.w.min(m), img.h.min(m));
    let data = (0..w * h).map(|i| img.data[(i / w * img.w + i % w) as usize]).collect();
    Raw { w, h, data }
}

fn writing(pic: BoxedStrategy<Raw>) -> BoxedStrategy<Writing> {
    (
        pic,
        any_spec(),
        prop::sample::select(vec![Fault::Error, Fault::Once, Fault::Nothing, Fault::Full, Fault::Closed]),
        prop_oneof![Just(usize::MAX), 1usize..5, 5usize..100],
        prop_oneof![2 => Just(0usize), 1 => 2usize..6],
        proptest::collection::vec(any::<u16>(), 30),
    )
        .prop_map(|(img, spec, fault, most, interrupt, at)| Writing { img: affordable(img, &spec), spec, fault, most, interrupt, at })
        .boxed()
}

// --------------------------------------------------------------------------------------- files

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Limited {
    img: Raw,
    spec: Spec,
    /// bytes a file may have, as part of 65536 of its size
    part: u32,
    by_name: bool,
}

fn extension(spec: &Spec) -> &'static str {
    match spec {
        Spec::Png { .. } => "png",
        Spec::Jpeg { .. } => "jpg",
        Spec::Gif => "gif",
        Spec::Bmp { .. } => "bmp",
        Spec::Ico { .. } => "ico",
        Spec::WebP { .. } => "webp",
    }
}

fn save(im: &Image, spec: &Spec, path: &std::path::Path, by_name: bool) -> Result<(), d10::EncodingError> {
    if by_name {
        im.save(path)
    } else {
        im.save_with_format(path, spec.format())
    }
}

/// `codec --save-limited CASE PATH LIMIT`: save with a limited file size, result as exit code
pub fn save_limited(args: &[String]) -> i32 {
    let Ok(text) = std::fs::read_to_string(&args[0]) else { return 7 };
    let Ok(v) = serde_json::from_str::<Limited>(&text) else { return 7 };
    let Ok(limit) = args[2].parse::<u64>() else { return 7 };
    let im = image(&v.img);
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
        if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
            return 7;
        }
    }
    match save(&im, &v.spec, std::path::Path::new(&args[1]), v.by_name) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

fn limited_case(v: &Limited, c: &mut Case) -> Res {
    let im = image(&v.img);
    let what = if v.by_name { format!("save x.{}", extension(&v.spec)) } else { format!("save as {}", v.spec.name()) };
    let dir = Dir::new();
    let path = dir.path().join(format!("x.{}", extension(&v.spec)));
    let good = dir.path().join(format!("good.{}", extension(&v.spec)));
    let r = no_panic(|| save(&im, &v.spec, &good, v.by_name)).map_err(|p| err("panic", format!("{what}: {p}")))?;
    if r.is_err() {
        c.label("not storable");
        return Ok(());
    }
    let want = std::fs::read(&good).map_err(|e| err("unreadable", format!("{what}: saved, but {e}")))?;
    let seen = Image::read_from_buffer(&want).map_err(|e| err("unreadable", format!("{what}: saved, but {e}")))?;
    ensure!((seen.width(), seen.height()) == (im.width(), im.height()), "unreadable", "{what}: other size");
    c.hit();
    c.label(v.spec.kind());
    let n = want.len() as u64;
    let limit = if v.part > 65536 { n } else { n * v.part as u64 / 65536 };
    c.label_if(limit < n, "too small");
    let case = dir.path().join("case.json");
    std::fs::write(&case, serde_json::to_vec(v).unwrap()).map_err(|e| err("scratch", e.to_string()))?;
    let out = std::process::Command::new(std::env::current_exe().map_err(|e| err("scratch", e.to_string()))?)
        .arg("--save-limited")
        .args([&case, &path])
        .arg(limit.to_string())
        .stdin(std::process::Stdio::null())
        .output()
        .map_err(|e| err("scratch", e.to_string()))?;
    match out.status.code() {
        Some(0) => {
            ensure!(limit >= n, "success", "{what}: reported as saved, but only {limit} of {n} bytes could be written");
            ensure!(std::fs::read(&path).ok().as_ref() == Some(&want), "content", "{what}: the file is different");
        }
        Some(1) => ensure!(limit < n, "refused", "{what}: an error, although there is space for {n} bytes"),
        _ => {
            return fail(
                "panic",
                format!("{what}, limit {limit} of {n}: {} {}", out.status, String::from_utf8_lossy(&out.stderr).trim()),
            )
        }
    }
    Ok(())
}

fn limited(pic: BoxedStrategy<Raw>) -> BoxedStrategy<Limited> {
    (
        pic,
        any_spec(),
        prop_oneof![4 => 0u32..65536, 1 => Just(65537u32), 1 => Just(65535u32), 1 => Just(0u32), 1 => 65000u32..65536],
        any::<bool>(),
    )
        .prop_map(|(img, spec, part, by_name)| Limited { img: affordable(img, &spec), spec, part, by_name })
        .boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Place {
    FullDevice,
    Directory,
    MissingDirectory,
    BelowFile,
    LongName,
    DanglingLink,
    Overwrite,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Placed {
    img: Raw,
    spec: Spec,
    by_name: bool,
    place: Place,
}

fn placed_case(v: &Placed, c: &mut Case) -> Res {
    use std::os::unix::fs::{symlink, FileTypeExt};
    let im = image(&v.img);
    let ext = extension(&v.spec);
    let what = format!("{:?}, {} {}x{}", v.place, v.spec.name(), v.img.w, v.img.h);
    let io = |e: std::io::Error| err("scratch", e.to_string());
    let dir = Dir::new();
    let d = dir.path();
    let good = d.join(format!("good.{ext}"));
    if save(&im, &v.spec, &good, v.by_name).is_err() {
        c.label("not storable");
        return Ok(());
    }
    let want = std::fs::read(&good).map_err(io)?;
    let mut path = d.join(format!("x.{ext}"));
    let mut works = false;
    match v.place {
        Place::FullDevice => {
            if !std::fs::metadata("/dev/full").map(|m| m.file_type().is_char_device()).unwrap_or(false) {
                c.label("no /dev/full");
                return Ok(());
            }
            symlink("/dev/full", &path).map_err(io)?;
        }
        Place::Directory => std::fs::create_dir(&path).map_err(io)?,
        Place::MissingDirectory => path = d.join("missing").join(format!("x.{ext}")),
        Place::BelowFile => path = good.join(format!("x.{ext}")),
        Place::LongName => path = d.join(format!("{}.{ext}", "x".repeat(300))),
        Place::DanglingLink => symlink(d.join("missing").join("y"), &path).map_err(io)?,
        Place::Overwrite => {
            // a longer file was there before
            std::fs::write(&path, vec![7u8; want.len() + 1000]).map_err(io)?;
            works = true;
        }
    }
    c.hit();
    c.label(format!("{:?}", v.place));
    let r = no_panic(|| save(&im, &v.spec, &path, v.by_name)).map_err(|p| err("panic", format!("{what}: {p}")))?;
    if works {
        ensure!(r.is_ok(), "refused", "{what}: {:?}", r.map_err(|e| e.to_string()));
        ensure!(std::fs::read(&path).map_err(io)? == want, "content", "{what}: the file is different");
    } else {
        match r {
            Ok(()) => {
                let regular = std::fs::metadata(&path).map(|m| m.is_file()).unwrap_or(false);
                ensure!(regular && std::fs::read(&path).map_err(io)? == want, "success", "{what}: reported as saved");
            }
            Err(d10::EncodingError::IoError(_)) => {}
            // an encoder may have noticed the full device
            Err(_) if v.place == Place::FullDevice => {}
            Err(e) => return fail("kind", format!("{what}: not reported as input or output error: {e}")),
        }
    }
    Ok(())
}

fn placed() -> BoxedStrategy<Placed> {
    use Place::*;
    (
        picture(12),
        any_spec(),
        any::<bool>(),
        prop::sample::select(vec![FullDevice, FullDevice, Directory, MissingDirectory, BelowFile, LongName, DanglingLink, Overwrite]),
    )
        .prop_map(|(img, spec, by_name, place)| Placed { img, spec, by_name, place })
        .boxed()
}

// ------------------------------------------------------------------------------------- sources

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Origin {
    Missing,
    Directory,
    BelowFile,
    /// reading fails
    Unreadable,
    Empty,
    /// ends after every number of bytes
    Cut,
    /// cannot seek, ends early
    Pipe,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Source {
    what: String,
    hex: String,
    w: u32,
    h: u32,
    ext: String,
    from: Origin,
}

fn source_case(v: &Source, c: &mut Case) -> Res {
    use std::os::unix::fs::symlink;
    let io = |e: std::io::Error| err("scratch", e.to_string());
    let dir = Dir::new();
    let path = dir.path().join(format!("x{}", v.ext));
    let data = super::damage::from_hex(&v.hex);
    let what = format!("{} as x{}, {:?}", v.what, v.ext, v.from);
    c.label(format!("{:?}", v.from));
    c.hit();
    let open = |p: &std::path::Path| no_panic(|| Image::open(p)).map_err(|e| err("panic", format!("{what}: {e}")));
    match v.from {
        Origin::Missing => {
            let r = open(&path)?;
            ensure!(matches!(r, Err(d10::DecodingError::IoError(_))), "missing", "{what}: {:?}", r.map(|_| ()).map_err(|e| e.to_string()));
            ensure!(!path.exists(), "created", "{what}: loading created the file");
        }
        Origin::Directory => {
            std::fs::create_dir(&path).map_err(io)?;
            ensure!(open(&path)?.is_err(), "success", "{what}: loaded");
        }
        Origin::BelowFile => {
            std::fs::write(&path, &data).map_err(io)?;
            ensure!(open(&path.join("y.png"))?.is_err(), "success", "{what}: loaded");
        }
        Origin::Unreadable => {
            symlink("/proc/self/mem", &path).map_err(io)?;
            ensure!(open(&path)?.is_err(), "success", "{what}: loaded");
        }
        Origin::Empty => {
            std::fs::write(&path, []).map_err(io)?;
            ensure!(open(&path)?.is_err(), "success", "{what}: loaded from an empty file");
        }
        Origin::Cut => {
            let n = data.len();
            let places: Vec<usize> = if n <= 300 { (0..n).collect() } else { (0..150).chain(n - 150..n).collect() };
            for k in places {
                std::fs::write(&path, &data[..k]).map_err(io)?;
                if let Ok(im) = open(&path)? {
                    ensure!((im.width(), im.height()) == (v.w, v.h), "size", "{what}: {k} of {n} bytes: {}x{}", im.width(), im.height());
                }
            }
            std::fs::write(&path, &data).map_err(io)?;
            let r = open(&path)?;
            ensure!(r.is_ok(), "whole", "{what}: {:?}", r.map(|_| ()).map_err(|e| e.to_string()));
        }
        Origin::Pipe => {
            let name = std::ffi::CString::new(path.to_string_lossy().as_bytes()).unwrap();
            if unsafe { libc::mkfifo(name.as_ptr(), 0o600) } != 0 {
                c.label("no pipe");
                return Ok(());
            }
            let p = path.clone();
            let writer = std::thread::spawn(move || {
                // ends when the reader is gone
                if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&p) {
                    let _ = f.write_all(&data);
                }
            });
            let r = open(&path);
            // the writer may still wait for a reader
            unsafe {
                let fd = libc::open(name.as_ptr(), libc::O_RDONLY | libc::O_NONBLOCK);
                let _ = writer.join();
                libc::close(fd);
            }
            let _ = r?;
        }
    }
    Ok(())
}

fn source() -> BoxedStrategy<Source> {
    use Origin::*;
    (
        valid(8),
        prop_oneof![2 => Just(None), 1 => prop::sample::select(vec!["", ".txt", ".png", ".jpg", ".gif", ".bmp", ".ico", ".webp"]).prop_map(Some)],
        prop::sample::select(vec![Missing, Directory, BelowFile, Unreadable, Empty, Cut, Cut, Cut, Pipe]),
    )
        .prop_map(|(f, ext, from)| Source {
            ext: ext.map(|e| e.to_string()).unwrap_or(format!(".{}", f.what)),
            what: f.what,
            hex: to_hex(&f.data),
            w: f.size.0,
            h: f.size.1,
            from,
        })
        .boxed()
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        level: "fault_enumeration",
        rule: "an image that can be stored without faults (a case then covers every byte position for files up to 400 bytes, 150 for others); source cases always",
        assumptions: vec![
            "a full disk is represented by failing writers, /dev/full and RLIMIT_FSIZE",
            "missing permissions are not tested, because the checks run as root",
        ],
        subs: vec![
            sub("writer", 1_500, 30_000, || writing(prop_oneof![4 => picture(10), 1 => picture(40)].boxed()), writer_case),
            sub("large-writer", 100, 1_500, || writing(picture(150)), writer_case),
            sub("limited", 800, 15_000, || limited(prop_oneof![3 => picture(8), 2 => picture(70)].boxed()), limited_case),
            sub("large-limited", 60, 1_200, || limited(picture(250)), limited_case),
            sub("placed", 2_000, 40_000, placed, placed_case),
            sub("source", 1_500, 30_000, source, source_case),
        ],
    }
}
