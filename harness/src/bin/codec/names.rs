//! Recognising formats by content and by file name
use super::damage::{from_hex, to_hex, valid};
use super::fmts::*;
use super::writers::jpeg_file;
use d10::{DecodingError, EncodingError, Image};
use d10_codecs::{EncodingFormat, Format};
use d10_verif::engine::*;
use d10_verif::scratch::Dir;
use d10_verif::{ensure, gen::*};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsStr;
use std::io::{ErrorKind, Read, Seek, SeekFrom};
use std::os::unix::ffi::OsStrExt;

// -------------------------------------------------------------------------------------- models

const EXT: [(&str, &str); 7] =
    [("jpg", "jpeg"), ("jpeg", "jpeg"), ("png", "png"), ("gif", "gif"), ("bmp", "bmp"), ("ico", "ico"), ("webp", "webp")];

/// The format a file name stands for
fn by_name(name: &[u8]) -> Option<&'static str> {
    let dot = name.iter().rposition(|b| *b == b'.')?;
    if dot == 0 {
        return None;
    }
    let ext = &name[dot + 1..];
    EXT.iter().find(|e| ext.eq_ignore_ascii_case(e.0.as_bytes())).map(|e| e.1)
}

/// The format a content stands for
fn by_content(d: &[u8]) -> Option<&'static str> {
    let starts = |m: &[u8]| d.len() >= m.len() && &d[..m.len()] == m;
    if starts(b"\xFF\xD8\xFF") {
        Some("jpeg")
    } else if starts(b"\x89PNG\r\n\x1a\n") {
        Some("png")
    } else if starts(b"GIF87a") || starts(b"GIF89a") {
        Some("gif")
    } else if starts(b"BM") {
        Some("bmp")
    } else if starts(&[0, 0, 1, 0]) {
        Some("ico")
    } else if starts(b"RIFF") && d.len() >= 12 && &d[8..12] == b"WEBP" {
        Some("webp")
    } else {
        None
    }
}

fn kind(f: Format) -> &'static str {
    match f {
        Format::Jpeg => "jpeg",
        Format::Png => "png",
        Format::Gif => "gif",
        Format::Bmp => "bmp",
        Format::Ico => "ico",
        Format::WebP => "webp",
    }
}

fn default_of(kind: &str) -> EncodingFormat {
    match kind {
        "jpeg" => Spec::Jpeg { quality: 85, progressive: false, sampling: None, gray: false, huff: true },
        "png" => Spec::Png { ct: 5, comp: 0, filter: 1 },
        "gif" => Spec::Gif,
        "bmp" => Spec::Bmp { ct: 3 },
        "ico" => Spec::Ico { ct: 3 },
        _ => Spec::WebP { quality: 90, preset: 0 },
    }
    .format()
}

fn show(name: &[u8]) -> String {
    format!("{:?}", OsStr::from_bytes(name))
}

// --------------------------------------------------------------------------------------- names

fn usable(mut n: Vec<u8>) -> Vec<u8> {
    n.retain(|b| *b != 0 && *b != b'/');
    n.truncate(180);
    if n.is_empty() || n == b"." || n == b".." {
        n.push(b'a');
    }
    n
}

fn name() -> BoxedStrategy<Vec<u8>> {
    let word = || {
        prop_oneof![
            4 => prop::sample::select(EXT.iter().map(|e| e.0).collect::<Vec<_>>()).prop_map(|s| s.to_string()),
            2 => prop::sample::select(vec!["jpe", "jfif", "tif", "tiff", "apng", "pn", "pngx", "svg", "cur", "txt", "gi", "web", "jp", "heic", "webpp", "dib", "png~", "png "]).prop_map(|s| s.to_string()),
            2 => "[a-zA-Z0-9 _-]{0,6}",
            1 => "\\PC{1,4}",
            1 => Just(String::new()),
        ]
    };
    let cased = (word(), vec(any::<bool>(), 8), 0u8..3).prop_map(|(w, up, k)| match k {
        0 => w,
        1 => w.to_ascii_uppercase(),
        _ => w.chars().enumerate().map(|(i, c)| if up[i % 8] { c.to_ascii_uppercase() } else { c }).collect(),
    });
    let byte = prop_oneof![3 => Just(None), 1 => (any::<u8>(), any::<prop::sample::Index>()).prop_map(Some)];
    prop_oneof![
        5 => (word(), cased.clone()).prop_map(|(s, e)| format!("{s}.{e}").into_bytes()),
        2 => (word(), word(), cased.clone()).prop_map(|(a, b, e)| format!("{a}.{b}.{e}").into_bytes()),
        2 => cased.clone().prop_map(String::into_bytes),
        1 => cased.clone().prop_map(|e| format!(".{e}").into_bytes()),
        1 => cased.clone().prop_map(|e| format!("..{e}").into_bytes()),
        1 => cased.clone().prop_map(|e| format!("x.{e}.").into_bytes()),
        1 => (word(), cased, byte).prop_map(|(s, e, b)| {
            let mut n = format!("{s}.{e}").into_bytes();
            if let Some((b, i)) = b {
                let at = i.index(n.len() + 1);
                n.insert(at, b);
            }
            n
        }),
    ]
    .prop_map(usable)
    .boxed()
}

/// A directory whose name looks like a file
fn folder() -> BoxedStrategy<Option<Vec<u8>>> {
    prop_oneof![3 => Just(None), 1 => name().prop_map(Some)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Opened {
    what: String,
    hex: String,
    name: Vec<u8>,
    folder: Option<Vec<u8>>,
}

fn place(dir: &Dir, folder: &Option<Vec<u8>>, name: &[u8]) -> Result<std::path::PathBuf, Fail> {
    let mut p = dir.path().to_path_buf();
    if let Some(f) = folder {
        p.push(OsStr::from_bytes(f));
        std::fs::create_dir(&p).map_err(|e| err("scratch", e.to_string()))?;
    }
    p.push(OsStr::from_bytes(name));
    Ok(p)
}

fn bits(im: &Image) -> (u32, u32, Vec<[u32; 4]>) {
    (im.width(), im.height(), im.data().iter().map(|p| p.data.map(f32::to_bits)).collect())
}

/// A file is loaded by its content, whatever its name is
fn open_case(v: &Opened, c: &mut Case) -> Res {
    let data = from_hex(&v.hex);
    let dir = Dir::new();
    let path = place(&dir, &v.folder, &v.name)?;
    std::fs::write(&path, &data).map_err(|e| err("scratch", e.to_string()))?;
    let what = format!("{} named {}", v.what, show(&v.name));
    let named = by_name(&v.name);
    c.label(v.what.clone());
    c.label(match named {
        None => "no known extension",
        Some(n) if n == v.what => "fitting name",
        _ => "misleading name",
    });
    c.hit_if(named != Some(&v.what[..]));
    let want = no_panic(|| Image::read_from_buffer(&data)).map_err(|p| err("panic", p))?;
    let got = no_panic(|| Image::open(&path)).map_err(|p| err("panic", format!("{what}: {p}")))?;
    match (want, got) {
        (Ok(a), Ok(b)) => ensure!(bits(&a) == bits(&b), "content", "{what}: another image than from memory"),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => return fail("rejected", format!("{what}: {e}")),
        (Err(e), Ok(_)) => return fail("accepted", format!("{what}: loaded from the file, but from memory: {e}")),
    }
    ensure!(std::fs::read(&path).ok() == Some(data), "changed", "{what}: loading changed the file");
    Ok(())
}

// ---------------------------------------------------------------------------------------- save

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Saved {
    img: Raw,
    name: Vec<u8>,
    folder: Option<Vec<u8>>,
    /// content of an existing file
    old: Option<Vec<u8>>,
    spec: Option<Spec>,
}

fn save_case(v: &Saved, c: &mut Case) -> Res {
    let im = Image::new_from_buffer(img_of_samples(v.img.w, v.img.h, &v.img.data, 255.0).buf());
    let dir = Dir::new();
    let path = place(&dir, &v.folder, &v.name)?;
    let io = |e: std::io::Error| err("scratch", e.to_string());
    if let Some(old) = &v.old {
        std::fs::write(&path, old).map_err(io)?;
    }
    let what = format!("{}x{} as {}", v.img.w, v.img.h, show(&v.name));
    let kind = match &v.spec {
        Some(s) => Some(s.kind()),
        None => by_name(&v.name),
    };
    c.label(kind.unwrap_or("unknown"));
    c.label_if(v.spec.is_some(), "explicit format");
    c.hit();
    let got = no_panic(|| match &v.spec {
        Some(s) => im.save_with_format(&path, s.format()),
        None => im.save(&path),
    })
    .map_err(|p| err("panic", format!("{what}: {p}")))?;
    let Some(kind) = kind else {
        match got {
            Err(EncodingError::BadFileExtension(_)) => {}
            Err(e) => return fail("unknown", format!("{what}: {e}")),
            Ok(()) => return fail("unknown", format!("{what}: saved without a known format")),
        }
        ensure!(std::fs::read(&path).ok() == v.old, "touched", "{what}: rejected, but the file was created or changed");
        return Ok(());
    };
    let format = v.spec.as_ref().map(|s| s.format()).unwrap_or_else(|| default_of(kind));
    if v.spec.is_none() {
        let named = match kind {
            "jpeg" => EncodingFormat::jpeg_default(),
            "png" => EncodingFormat::png_default(),
            "gif" => EncodingFormat::gif_default(),
            "bmp" => EncodingFormat::bmp_default(),
            "ico" => EncodingFormat::ico_default(),
            _ => EncodingFormat::webp_default(),
        };
        let (a, b) = (im.save_to_buffer(named).ok(), im.save_to_buffer(format.clone()).ok());
        ensure!(a == b, "default", "{what}: the default format of {kind} has other options");
    }
    match (im.save_to_buffer(format), got) {
        (Ok(want), Ok(())) => {
            let file = std::fs::read(&path).map_err(|e| err("missing", format!("{what}: {e}")))?;
            ensure!(by_content(&file) == Some(kind), "format", "{what}: saved as {:?} instead of {kind}", by_content(&file));
            ensure!(file == want, "content", "{what}: the file is not what {kind} with default options gives");
        }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => return fail("rejected", format!("{what}: {e}")),
        (Err(e), Ok(())) => return fail("accepted", format!("{what}: saved, but not to memory: {e}")),
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- magic

/// A reader that returns a few bytes at once
struct Pieces<'a> {
    d: &'a [u8],
    pos: usize,
    most: usize,
    interrupt: usize,
    calls: usize,
}

impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let n = buf.len().min(self.most).min(self.d.len().saturating_sub(self.pos));
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Seek for Pieces<'_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(d) => self.d.len() as i64 + d,
            SeekFrom::Current(d) => self.pos as i64 + d,
        };
        if p < 0 {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Start {
    data: Vec<u8>,
    most: usize,
    interrupt: usize,
    name: Vec<u8>,
}

fn magic_case(v: &Start, c: &mut Case) -> Res {
    let want = by_content(&v.data);
    c.label(want.unwrap_or("unknown"));
    c.hit_if(v.data.len() > 1);
    let mut r = Pieces { d: &v.data, pos: 0, most: v.most, interrupt: v.interrupt, calls: 0 };
    let got = no_panic(|| Format::from_reader(&mut r)).map_err(|p| err("panic", format!("{:02x?}: {p}", v.data)))?;
    match got {
        Ok(f) => ensure!(Some(kind(f)) == want, "magic", "{:02x?} in pieces of {}: {f:?} instead of {want:?}", v.data, v.most),
        Err(DecodingError::UnknownFormat) => {
            ensure!(want.is_none(), "magic", "{:02x?} in pieces of {}, interrupted every {} calls: unknown", v.data, v.most, v.interrupt)
        }
        Err(e) => return fail("magic", format!("{:02x?} in pieces of {}, interrupted every {} calls: {e}", v.data, v.most, v.interrupt)),
    }
    ensure!(r.pos == 0, "position", "the reader is at {} afterwards", r.pos);
    // from memory
    let r = no_panic(|| Image::read_from_buffer(&v.data)).map_err(|p| err("panic", format!("{:02x?}: {p}", v.data)))?;
    match r {
        Err(DecodingError::UnknownFormat) => ensure!(want.is_none(), "unknown", "{:02x?}: unknown instead of {want:?}", v.data),
        Err(_) => ensure!(want.is_some(), "unknown", "{:02x?} has no known format, but is not reported as such", v.data),
        Ok(_) => ensure!(want.is_some(), "unknown", "{:02x?} has no known format, but is loaded", v.data),
    }
    // from a file
    let dir = Dir::new();
    let path = dir.path().join(OsStr::from_bytes(&v.name));
    std::fs::write(&path, &v.data).map_err(|e| err("scratch", e.to_string()))?;
    let r = no_panic(|| Image::open(&path)).map_err(|p| err("panic", format!("{:02x?}: {p}", v.data)))?;
    let what = || format!("{:02x?} as {}", v.data, show(&v.name));
    match (want.or(by_name(&v.name)), r) {
        (None, Err(DecodingError::UnknownFormat)) => {}
        (None, r) => return fail("unknown", format!("{}: {:?}", what(), r.map(|_| ()).map_err(|e| e.to_string()))),
        (Some(_), Err(DecodingError::UnknownFormat)) => return fail("known", format!("{}: unknown format", what())),
        _ => {}
    }
    // names alone
    let p = std::path::Path::new(OsStr::from_bytes(&v.name));
    let (a, b) = (Format::from_path(p), EncodingFormat::from_path(p));
    let n = by_name(&v.name);
    ensure!(a.map(kind) == n, "name", "{}: {a:?} instead of {n:?}", show(&v.name));
    match (n, b) {
        (Some(n), Ok(f)) => {
            ensure!(kind(f.format()) == n, "name", "{}: {f:?} instead of {n}", show(&v.name));
            ensure!(format!("{f:?}") == format!("{:?}", default_of(n)), "default", "{}: {f:?}", show(&v.name));
        }
        (None, Err(EncodingError::BadFileExtension(m))) => {
            let s = OsStr::from_bytes(&v.name).to_string_lossy().to_string();
            ensure!(m.contains(&s), "message", "{}: the error names {m:?}", show(&v.name));
        }
        (n, b) => return fail("name", format!("{}: {:?} instead of {n:?}", show(&v.name), b.map_err(|e| e.to_string()))),
    }
    Ok(())
}

fn start() -> BoxedStrategy<Start> {
    let magic = prop::sample::select(vec![
        b"\xFF\xD8\xFF\xE0".to_vec(),
        b"\x89PNG\r\n\x1a\n".to_vec(),
        b"GIF87a".to_vec(),
        b"GIF89a".to_vec(),
        b"GIF88a".to_vec(),
        b"BM".to_vec(),
        vec![0, 0, 1, 0],
        vec![0, 0, 2, 0],
        b"RIFF\x10\0\0\0WEBP".to_vec(),
        b"RIFF\x10\0\0\0WAVE".to_vec(),
        b"II*\0".to_vec(),
        b"%PDF-1.4".to_vec(),
        b"<svg xmlns=\"".to_vec(),
        vec![],
    ]);
    let data = (magic, vec(any::<u8>(), 0..24), 0u8..8, any::<prop::sample::Index>(), any::<u8>()).prop_map(|(mut m, tail, k, i, b)| {
        match k {
            0 => m.truncate(i.index(m.len() + 1)),
            1 | 2 => {
                m.extend(tail);
                if !m.is_empty() {
                    let at = i.index(m.len());
                    m[at] = b;
                }
            }
            3 => m.insert(i.index(m.len() + 1), b),
            _ => m.extend(tail),
        }
        m
    });
    (data, prop_oneof![1 => Just(usize::MAX), 2 => 1usize..14], prop_oneof![2 => Just(0usize), 1 => 2usize..5], name())
        .prop_map(|(data, most, interrupt, name)| Start { data, most, interrupt, name })
        .boxed()
}

// ------------------------------------------------------------------------------------ fallback

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fallback {
    hex: String,
    junk: Vec<u8>,
    name: Vec<u8>,
}

/// JPEG files with fill bytes behind the first marker are only recognised by name
fn fallback_case(v: &Fallback, c: &mut Case) -> Res {
    let good = from_hex(&v.hex);
    let mut data = good.clone();
    if good.len() < 4 {
        return Ok(());
    }
    data.splice(2..2, v.junk.iter().copied());
    let dir = Dir::new();
    let path = dir.path().join(OsStr::from_bytes(&v.name));
    std::fs::write(&path, &data).map_err(|e| err("scratch", e.to_string()))?;
    let want = no_panic(|| Image::read_from_buffer(&good)).map_err(|p| err("panic", p))?;
    let got = no_panic(|| Image::open(&path)).map_err(|p| err("panic", format!("{}: {p}", show(&v.name))))?;
    let n = by_name(&v.name);
    c.label(n.unwrap_or("unknown"));
    c.hit_if(want.is_ok());
    match (n, got) {
        (None, Err(DecodingError::UnknownFormat)) => {}
        (None, r) => return fail("unknown", format!("{}: {:?}", show(&v.name), r.map(|_| ()).map_err(|e| e.to_string()))),
        (Some("jpeg"), Ok(b)) => {
            let same = want.as_ref().is_ok_and(|a| bits(a) == bits(&b));
            ensure!(same, "content", "{}: another image than without fill bytes", show(&v.name));
        }
        (Some("jpeg"), Err(e)) => ensure!(want.is_err(), "extension", "{}: not loaded as JPEG: {e}", show(&v.name)),
        (Some(n), Ok(_)) => return fail("extension", format!("{}: JPEG data was loaded as {n}", show(&v.name))),
        (Some(n), Err(DecodingError::UnknownFormat)) => return fail("extension", format!("{} was not tried as {n}", show(&v.name))),
        (Some(_), Err(_)) => {}
    }
    Ok(())
}

fn fallback() -> BoxedStrategy<Fallback> {
    let file = prop_oneof![
        1 => jpeg_file(8).prop_map(|f| f.write().unwrap_or_default()),
        1 => (raw(dims(8), 255, false, true), jpeg_spec()).prop_map(|(r, spec)| {
            let mut out = vec![];
            let _ = d10_codecs::encode(&mut out, &img_of_samples(r.w, r.h, &r.data, 255.0).buf(), spec.format());
            out
        }),
    ];
    let jpg = prop::sample::select(vec!["x.jpg", "x.jpeg", "x.JPG", "a.png.jpg", "X.JpEg", "jpg.jpg"]).prop_map(|s| s.as_bytes().to_vec());
    (file, vec(0u8..255, 1..6), prop_oneof![1 => jpg, 1 => name()])
        .prop_map(|(d, junk, name)| Fallback { hex: to_hex(&d), junk, name })
        .boxed()
}

// --------------------------------------------------------------------------------------- files

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Step {
    /// image saved to a file by its name, or in the format with this index
    Save(u8, u8, Option<u8>),
    /// a file written by another program, in the format with this index
    Write(u8, u8, u8),
    Open(u8),
    Rename(u8, u8),
    Copy(u8, u8),
    Remove(u8),
    /// saved to a file, and the result of opening it to another one
    Convert(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Files {
    images: Vec<Raw>,
    specs: Vec<Spec>,
    steps: Vec<Step>,
}

const PATHS: [&str; 5] = ["a.bmp", "b.png", "a.PNG", "c.jpg", "d.gif"];

/// A folder is what the last write to each of its files made it
fn files_case(v: &Files, c: &mut Case) -> Res {
    let images: Vec<Image> = v
        .images
        .iter()
        .map(|r| Image::new_from_buffer(img_of_samples(r.w, r.h, &r.data, 255.0).buf()))
        .collect();
    let image = |i: u8| &images[i as usize % images.len()];
    let spec = |i: u8| v.specs[i as usize % v.specs.len()].format();
    let dir = Dir::new();
    let at = |p: u8| p as usize % PATHS.len();
    let path = |p: u8| dir.path().join(PATHS[at(p)]);
    let mut model: [Option<Vec<u8>>; 5] = Default::default();
    let io = |e: std::io::Error| err("scratch", e.to_string());
    let open = |p: u8, m: &[Option<Vec<u8>>; 5], what: &str| -> Result<Option<Image>, Fail> {
        match (Image::open(path(p)), &m[at(p)]) {
            (Err(DecodingError::IoError(e)), None) if e.kind() == ErrorKind::NotFound => Ok(None),
            (Ok(got), Some(d)) => {
                let want = Image::read_from_buffer(d).map_err(|e| err("memory", format!("{what}: {e}")))?;
                if bits(&got) != bits(&want) {
                    return Err(err("stale", format!("{what}: the image is not that of the file's content")));
                }
                Ok(Some(got))
            }
            (r, m) => Err(err(
                "open",
                format!("{what}: {:?}, but the file {}", r.map(|_| ()).map_err(|e| e.to_string()), if m.is_some() { "exists" } else { "does not exist" }),
            )),
        }
    };
    let (mut opened, mut rewritten) = (0, 0);
    for (n, step) in v.steps.iter().enumerate() {
        let what = format!("step {n} {step:?}");
        match *step {
            Step::Save(p, i, s) => {
                let f = match s {
                    Some(s) => {
                        image(i).save_with_format(path(p), spec(s)).map_err(|e| err("save", format!("{what}: {e}")))?;
                        spec(s)
                    }
                    None => {
                        image(i).save(path(p)).map_err(|e| err("save", format!("{what}: {e}")))?;
                        default_of(by_name(PATHS[at(p)].as_bytes()).unwrap())
                    }
                };
                let want = image(i).save_to_buffer(f).map_err(|e| err("save", format!("{what}: {e}")))?;
                rewritten += model[at(p)].replace(want).is_some() as u32;
            }
            Step::Write(p, i, s) => {
                let d = image(i).save_to_buffer(spec(s)).map_err(|e| err("save", format!("{what}: {e}")))?;
                std::fs::write(path(p), &d).map_err(io)?;
                rewritten += model[at(p)].replace(d).is_some() as u32;
            }
            Step::Open(p) => opened += open(p, &model, &what)?.is_some() as u32,
            Step::Convert(p, q) => {
                if let Some(im) = open(p, &model, &what)? {
                    opened += 1;
                    im.save(path(q)).map_err(|e| err("save", format!("{what}: {e}")))?;
                    let f = default_of(by_name(PATHS[at(q)].as_bytes()).unwrap());
                    model[at(q)] = Some(im.save_to_buffer(f).map_err(|e| err("save", format!("{what}: {e}")))?);
                }
            }
            Step::Rename(p, q) => {
                if at(p) != at(q) && model[at(p)].is_some() {
                    std::fs::rename(path(p), path(q)).map_err(io)?;
                    model[at(q)] = model[at(p)].take();
                }
            }
            Step::Copy(p, q) => {
                if at(p) != at(q) && model[at(p)].is_some() {
                    std::fs::copy(path(p), path(q)).map_err(io)?;
                    model[at(q)] = model[at(p)].clone();
                }
            }
            Step::Remove(p) => {
                if model[at(p)].take().is_some() {
                    std::fs::remove_file(path(p)).map_err(io)?;
                }
            }
        }
        // no other file appeared, and none changed
        let mut found = 0;
        for e in std::fs::read_dir(dir.path()).map_err(io)? {
            let e = e.map_err(io)?;
            found += 1;
            let i = PATHS.iter().position(|p| e.file_name() == *p);
            let Some(i) = i else { return fail("other-file", format!("{what}: left the file {:?}", e.file_name())) };
            let d = std::fs::read(e.path()).map_err(io)?;
            ensure!(model[i].as_ref() == Some(&d), "file", "{what}: {} has another content than expected", PATHS[i]);
        }
        ensure!(found == model.iter().flatten().count(), "missing", "{what}: a file is missing");
    }
    c.hit_if(opened > 0 && rewritten > 0);
    c.label_if(rewritten > 0, "overwritten");
    Ok(())
}

fn files() -> BoxedStrategy<Files> {
    let step = || {
        let p = || prop_oneof![3 => Just(0u8), 1 => 0u8..5];
        prop_oneof![
            4 => (p(), any::<u8>(), prop_oneof![3 => Just(None), 1 => any::<u8>().prop_map(Some)]).prop_map(|(p, i, s)| Step::Save(p, i, s)),
            2 => (p(), any::<u8>(), any::<u8>()).prop_map(|(p, i, s)| Step::Write(p, i, s)),
            6 => p().prop_map(Step::Open),
            1 => (p(), p()).prop_map(|(p, q)| Step::Rename(p, q)),
            1 => (p(), p()).prop_map(|(p, q)| Step::Copy(p, q)),
            1 => p().prop_map(Step::Remove),
            1 => (p(), p()).prop_map(|(p, q)| Step::Convert(p, q)),
        ]
    };
    // images of the same size, so that files of the same length are common, and one of another size
    let images = (1u32..6, 1u32..6, raw(dims(9), 255, false, false)).prop_flat_map(|(w, h, other)| {
        let one = move || raw(Just((w, h)).boxed(), 255, false, true);
        (one(), one(), one()).prop_map(move |(a, b, c)| vec![a, b, c, other.clone()])
    });
    (images, vec(any_spec(), 2..5), vec(step(), 2..14))
        .prop_map(|(images, specs, steps)| Files { images, specs, steps })
        .boxed()
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        level: "exploration",
        rule: "open: the name does not fit to the content; save: always; files: a file is overwritten and one is opened; magic: more than one byte; fallback: a JPEG that loads without the fill bytes",
        assumptions: vec!["names with a slash, a zero byte or more than 180 bytes are not generated"],
        subs: vec![
            sub("open", 6_000, 120_000, || {
                (valid(6), name(), folder()).prop_map(|(f, name, folder)| Opened { what: f.what, hex: to_hex(&f.data), name, folder }).boxed()
            }, open_case),
            sub("save", 5_000, 100_000, || {
                (
                    raw(dims(6), 255, false, false),
                    name(),
                    folder(),
                    prop_oneof![2 => Just(None), 1 => vec(any::<u8>(), 0..3000).prop_map(Some)],
                    prop_oneof![3 => Just(None), 1 => any_spec().prop_map(Some)],
                )
                    .prop_map(|(img, name, folder, old, spec)| Saved { img, name, folder, old, spec })
                    .boxed()
            }, save_case),
            sub("files", 15_000, 300_000, files, files_case),
            sub("magic", 40_000, 800_000, start, magic_case),
            sub("fallback", 4_000, 80_000, fallback, fallback_case),
        ],
    }
}
