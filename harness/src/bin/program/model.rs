//! Model of command histories: every command is applied by hand with the library
use d10::{FilterMode, Image, Intensity, Rgb};
use d10_commands::{Cmd, Queue};
use d10_verif::engine::*;
use d10_verif::gen::*;
use d10_verif::refmath::*;
use d10_verif::{ensure, scratch::Dir};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

/// File names used by the histories
pub const NAMES: [&[u8]; 24] = [
    // images
    b"a.png",
    b"b.bmp",
    b"c.jpg",
    b"d.gif",
    // content does not fit to the name
    b"e.png",
    // destinations
    b"o.png",
    b"o.PNG",
    b"p.png",
    b"o.bmp",
    b"o.gif",
    b"o.jpg",
    b"o.jpeg",
    b"o.webp",
    b"o.ico",
    b"\xff.png",
    b"x y.png",
    b"-x.png",
    // do not work
    b"garbage.png",
    b"cut.png",
    b"missing.png",
    b"missing/o.png",
    b"folder.png",
    b"o.xyz",
    b"none",
];
pub const GOOD: usize = 17;

#[derive(Clone, Serialize, Deserialize, PartialEq)]
pub struct File {
    pub name: Vec<u8>,
    /// relative, with ./, absolute
    pub style: u8,
}

impl std::fmt::Debug for File {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}{:?}", ["", "./", "/"][self.style.min(2) as usize], OsStr::from_bytes(&self.name))
    }
}

impl File {
    pub fn path(&self, root: &Path) -> PathBuf {
        let n = OsStr::from_bytes(&self.name);
        match self.style {
            0 => PathBuf::from(n),
            1 => Path::new(".").join(n),
            _ => root.join(n),
        }
    }
}

pub const GRAY: [(&str, Intensity); 10] = [
    ("average", Intensity::Average),
    ("rec601luma", Intensity::Rec601Luma),
    ("rec709luma", Intensity::Rec709Luma),
    ("default", Intensity::Rec709Luma),
    ("brightness", Intensity::Brightness),
    ("lightness", Intensity::Lightness),
    ("saturation", Intensity::Saturation),
    ("red", Intensity::Red),
    ("green", Intensity::Green),
    ("blue", Intensity::Blue),
];
pub const FILTERS: [FilterMode; 5] =
    [FilterMode::Nearest, FilterMode::Bilinear, FilterMode::Bicubic, FilterMode::Lanczos3, FilterMode::Auto];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Silent,
    Open(File),
    Save(File),
    Gray(usize),
    Invert,
    Gamma(f32),
    Level(f32, f32, f32),
    Brightness(f32),
    Contrast(f32),
    BrightnessContrast(f32, f32),
    Saturation(f32),
    StretchSaturation(f32),
    Lightness(f32),
    HueRotate(f32),
    Rotate(f32, usize),
    RandomNoise(f32),
    SaltPepper(f32),
    RgbNoise(f32),
}
use Step::*;

impl Step {
    pub fn cmd(&self, root: &Path) -> Cmd {
        match self.clone() {
            Silent => Cmd::Silent,
            Open(f) => Cmd::Open(f.path(root)),
            Save(f) => Cmd::Save(f.path(root)),
            Gray(i) => Cmd::ToGray(GRAY[i].1),
            Invert => Cmd::Invert,
            Gamma(v) => Cmd::Gamma(v),
            Level(black_point, white_point, gamma) => Cmd::Level { black_point, white_point, gamma },
            Brightness(v) => Cmd::Brightness(v),
            Contrast(v) => Cmd::Contrast(v),
            BrightnessContrast(brightness, contrast) => Cmd::BrightnessContrast { brightness, contrast },
            Saturation(v) => Cmd::Saturation(v),
            StretchSaturation(v) => Cmd::StretchSaturation(v),
            Lightness(v) => Cmd::Lightness(v),
            HueRotate(v) => Cmd::HueRotate(v),
            Rotate(radians, f) => Cmd::Rotate { radians, filter: FILTERS[f] },
            RandomNoise(v) => Cmd::RandomNoise(v),
            SaltPepper(v) => Cmd::SaltNPepperNoise(v),
            RgbNoise(v) => Cmd::RgbNoise(v),
        }
    }

    /// With the methods of the queue
    pub fn build(&self, q: Queue, root: &Path) -> Queue {
        match self.clone() {
            Silent => q.silent(),
            Open(f) => q.open(f.path(root)),
            Save(f) => q.save(f.path(root)),
            Gray(i) => q.to_gray(GRAY[i].1),
            Invert => q.invert(),
            Gamma(v) => q.gamma(v),
            Level(b, w, g) => q.level(b, w, g),
            Brightness(v) => q.brightness(v),
            Contrast(v) => q.contrast(v),
            BrightnessContrast(b, c) => q.brightness_contrast(b, c),
            Saturation(v) => q.saturation(v),
            StretchSaturation(v) => q.stretch_saturation(v),
            Lightness(v) => q.lightness(v),
            HueRotate(v) => q.hue_rotate(v),
            Rotate(v, f) => q.rotate(v, FILTERS[f]),
            _ => q.with(self.cmd(root)),
        }
    }

    /// The word that names a command in the log
    pub fn word(&self) -> &'static str {
        match self {
            Silent => "Silent",
            Open(_) => "Open",
            Save(_) => "Save",
            Gray(_) => "ToGray",
            Invert => "Invert",
            Gamma(_) => "Gamma",
            Level(..) => "Level",
            Brightness(_) => "Brightness",
            Contrast(_) => "Contrast",
            BrightnessContrast(..) => "BrightnessContrast",
            Saturation(_) => "Saturation",
            StretchSaturation(_) => "StretchSaturation",
            Lightness(_) => "Lightness",
            HueRotate(_) => "HueRotate",
            Rotate(..) => "Rotate",
            RandomNoise(_) => "RandomNoise",
            SaltPepper(_) => "SaltNPepperNoise",
            RgbNoise(_) => "RgbNoise",
        }
    }
}

// ------------------------------------------------------------------------------------- history

#[derive(Clone)]
enum State {
    None,
    Image(Image),
    /// random changes of a known image
    Noisy(Image, Step),
    /// a random image of a known size
    Size(Option<(u32, u32)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Failure {
    MissingImage,
    Decoding,
    Encoding,
}

pub struct Outcome {
    pub log: Vec<(String, &'static str)>,
    pub failure: Option<(Failure, String)>,
    /// files with random content, by name
    pub random: BTreeMap<Vec<u8>, Noise>,
    pub saved: usize,
    /// images changed between opening and saving
    pub worked: bool,
}

#[derive(Clone)]
pub enum Noise {
    Of(Image, Step),
    Size(Option<(u32, u32)>),
}

/// Apply a history to the files in a directory
pub fn follow(steps: &[Step], root: &Path, random: &mut BTreeMap<Vec<u8>, Noise>) -> Outcome {
    let mut state = State::None;
    let mut out = Outcome { log: vec![], failure: None, random: BTreeMap::new(), saved: 0, worked: false };
    let total = steps.iter().filter(|s| **s != Silent).count();
    let (mut n, mut silent, mut changes) = (0, false, 0);
    for s in steps {
        if *s == Silent {
            silent = true;
            continue;
        }
        n += 1;
        if !silent {
            out.log.push((format!("{n}/{total}: "), s.word()));
        }
        if let Open(f) = s {
            match random.get(&f.name) {
                Some(Noise::Of(base, _)) => state = State::Size(Some((base.width(), base.height()))),
                Some(Noise::Size(d)) => state = State::Size(*d),
                None => match Image::open(root.join(OsStr::from_bytes(&f.name))) {
                    Ok(im) => state = State::Image(im),
                    Err(e) => {
                        out.failure = Some((Failure::Decoding, e.to_string()));
                        break;
                    }
                },
            }
            changes = 0;
            continue;
        }
        if let State::None = state {
            out.failure = Some((Failure::MissingImage, String::new()));
            break;
        }
        if let Save(f) = s {
            let path = root.join(OsStr::from_bytes(&f.name));
            let (im, noise) = match &state {
                State::Image(im) => (im.clone(), None),
                State::Noisy(base, step) => (base.clone(), Some(Noise::Of(base.clone(), step.clone()))),
                // the content is not known, only where it is stored
                State::Size(d) => {
                    let (w, h) = d.unwrap_or((1, 1));
                    (Image::new(w, h), Some(Noise::Size(*d)))
                }
                State::None => unreachable!(),
            };
            match im.save(&path) {
                Ok(()) => {
                    out.saved += 1;
                    out.worked |= changes > 0;
                    match noise {
                        Some(noise) => random.insert(f.name.clone(), noise),
                        None => random.remove(&f.name),
                    };
                }
                Err(e) => {
                    out.failure = Some((Failure::Encoding, e.to_string()));
                    break;
                }
            }
            continue;
        }
        changes += 1;
        state = match (state, s) {
            // nothing changes
            (st, RandomNoise(v)) if *v == 0.0 => st,
            (st, SaltPepper(v)) | (st, RgbNoise(v)) if *v <= 0.0 => st,
            (State::Image(im), RandomNoise(_) | SaltPepper(_) | RgbNoise(_)) => State::Noisy(im, s.clone()),
            (State::Image(mut im), s) => {
                change(&mut im, s);
                State::Image(im)
            }
            // the size after a rotation depends on the size only
            (State::Noisy(mut im, _), s) => {
                change(&mut im, s);
                State::Size(Some((im.width(), im.height())))
            }
            (State::Size(d), Rotate(..)) => {
                let d = d.map(|(w, h)| {
                    let mut im = Image::new(w, h);
                    change(&mut im, s);
                    (im.width(), im.height())
                });
                State::Size(d)
            }
            (st, _) => st,
        };
    }
    out.random = random.clone();
    out
}

/// One command on an image
fn change(im: &mut Image, s: &Step) {
    if let Rotate(v, f) = s {
        *im = im.rotate(*v, FILTERS[*f]);
        return;
    }
    for p in im.data_mut() {
        *p = match s {
            Gray(i) => p.to_gray_with_intensity(GRAY[*i].1),
            Invert => p.invert(),
            Gamma(v) => p.with_gamma(*v),
            Level(b, w, g) => p.with_level(*b, *w, *g),
            Brightness(v) => p.with_brightness(*v),
            Contrast(v) => p.with_contrast(*v),
            BrightnessContrast(b, c) => p.with_brightness_contrast(*b, *c),
            Saturation(v) => p.with_saturation(*v),
            StretchSaturation(v) => p.stretch_saturation(*v),
            Lightness(v) => p.with_lightness(*v),
            HueRotate(v) => p.with_hue_rotate(*v),
            _ => *p,
        };
    }
}

// --------------------------------------------------------------------------------------- files

/// Create the files a history starts with
pub fn prepare(root: &Path, imgs: &[Img]) -> Result<(), Fail> {
    let io = |e: std::io::Error| err("scratch", e.to_string());
    let save = |n: &str, im: &Image| im.save(root.join(n)).map_err(|e| err("scratch", e.to_string()));
    let im: Vec<Image> = imgs.iter().map(|i| Image::new_from_buffer(i.buf())).collect();
    save("a.png", &im[0])?;
    save("b.bmp", &im[1])?;
    save("c.jpg", &im[1])?;
    save("d.gif", &im[0])?;
    std::fs::copy(root.join("b.bmp"), root.join("e.png")).map_err(io)?;
    std::fs::write(root.join("garbage.png"), b"this is not an image").map_err(io)?;
    let a = std::fs::read(root.join("a.png")).map_err(io)?;
    std::fs::write(root.join("cut.png"), &a[..a.len() / 2]).map_err(io)?;
    std::fs::create_dir(root.join("folder.png")).map_err(io)?;
    Ok(())
}

/// Name and content of everything in a directory
pub fn content(root: &Path) -> BTreeMap<OsString, Option<Vec<u8>>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![PathBuf::new()];
    while let Some(d) = todo.pop() {
        let Ok(list) = std::fs::read_dir(root.join(&d)) else { continue };
        for e in list.flatten() {
            let name = d.join(e.file_name());
            if e.path().is_dir() {
                out.insert(name.clone().into_os_string(), None);
                todo.push(name);
            } else {
                out.insert(name.into_os_string(), std::fs::read(e.path()).ok());
            }
        }
    }
    out
}

/// Compare the files of a run with the ones of the model
pub fn compare(what: &str, real: &Path, model: &Path, random: &BTreeMap<Vec<u8>, Noise>) -> Res {
    let (got, want) = (content(real), content(model));
    for n in want.keys() {
        ensure!(got.contains_key(n), "missing-file", "{what}: {n:?} was not written");
    }
    for (n, d) in &got {
        let Some(w) = want.get(n) else { return fail("extra-file", format!("{what}: {n:?} was written")) };
        let noise = random.get(n.as_bytes());
        let Some(noise) = noise else {
            ensure!(d == w, "content", "{what}: {n:?} is not what the commands give");
            continue;
        };
        let im = Image::open(real.join(n)).map_err(|e| err("content", format!("{what}: {n:?}: {e}")))?;
        let dim = (im.width(), im.height());
        match noise {
            Noise::Size(d) => ensure!(d.is_none() || *d == Some(dim), "noise-size", "{what}: {n:?}: size {dim:?} instead of {d:?}"),
            Noise::Of(base, step) => {
                ensure!(dim == (base.width(), base.height()), "noise-size", "{what}: {n:?}: size {dim:?}");
                if n.as_bytes().to_ascii_lowercase().ends_with(b".png") {
                    check_noise(&format!("{what}: {n:?}"), base, step, &im)?;
                }
            }
        }
    }
    Ok(())
}

fn to8(p: &Rgb) -> [f64; 4] {
    rgb_to_srgb(c64(p.data)).map(|v| (v.clamp(0.0, 1.0) * 255.0).round())
}

/// Noise bounds on the stored samples
fn check_noise(what: &str, base: &Image, step: &Step, im: &Image) -> Res {
    for (i, (p, g)) in base.data().iter().zip(im.data()).enumerate() {
        let (q, r) = (to8(p), to8(g));
        let same = |a: f64, b: f64| (a - b).abs() <= 1.0;
        let msg = || format!("{what}, {step:?}: pixel {i} {q:?} became {r:?}");
        match step {
            SaltPepper(_) => {
                let keeps = (0..4).all(|c| same(q[c], r[c]));
                let special = r == [0.0, 0.0, 0.0, 255.0] || r == [255.0; 4];
                ensure!(keeps || special, "noise", "{}", msg());
            }
            RgbNoise(_) => {
                let set: Vec<usize> = (0..3).filter(|c| !same(q[*c], r[*c])).collect();
                let fits = same(q[3], r[3]) && set.len() <= 1 && set.iter().all(|c| r[*c] == 255.0);
                ensure!(fits, "noise", "{}", msg());
            }
            RandomNoise(a) => {
                let a = *a as f64;
                for c in 0..3 {
                    let b = (1.0 - a) * p.data[c] as f64;
                    let (lo, hi) = ((b - a.abs()).clamp(0.0, 1.0), (b + a.abs()).clamp(0.0, 1.0));
                    let s = |v: f64| rgb_to_srgb([v, v, v, 1.0])[0] * 255.0;
                    ensure!(r[c] >= s(lo) - 2.0 && r[c] <= s(hi) + 2.0, "noise", "{} (channel {c})", msg());
                }
                ensure!(same(q[3], r[3]), "noise", "{}", msg());
            }
            _ => {}
        }
    }
    Ok(())
}

// ----------------------------------------------------------------------------------- strategies

pub fn file(reading: bool) -> BoxedStrategy<File> {
    let name = if reading {
        prop_oneof![6 => 0usize..5, 3 => 5..GOOD, 1 => GOOD..NAMES.len()].boxed()
    } else {
        prop_oneof![1 => 0usize..5, 12 => 5..GOOD, 1 => GOOD..NAMES.len()].boxed()
    };
    (name, prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)]).prop_map(|(name, style)| File { name: NAMES[name].to_vec(), style }).boxed()
}

pub fn number() -> BoxedStrategy<f32> {
    prop_oneof![
        6 => -2.0f32..2.0,
        2 => 0.0f32..1.0,
        1 => prop::sample::select(vec![0.0f32, 1.0, -1.0, 0.5, 2.0]),
        1 => -100.0f32..100.0,
    ]
    .boxed()
}

pub fn amount() -> BoxedStrategy<f32> {
    prop_oneof![6 => 0.0f32..1.0, 2 => Just(0.0f32), 2 => Just(1.1f32), 1 => -2.0f32..0.0].boxed()
}

pub fn effect() -> BoxedStrategy<Step> {
    let n = number;
    prop_oneof![
        2 => (0..GRAY.len()).prop_map(Gray),
        2 => Just(Invert),
        2 => prop_oneof![3 => 0.1f32..4.0, 1 => number()].prop_map(Gamma),
        2 => (0.0f32..0.5, 0.5f32..1.0, 0.1f32..3.0).prop_map(|(b, w, g)| Level(b, w, g)),
        1 => (n(), n(), n()).prop_map(|(b, w, g)| Level(b, w, g)),
        2 => n().prop_map(Brightness),
        2 => n().prop_map(Contrast),
        2 => (-1.0f32..1.0, -1.0f32..1.0).prop_map(|(b, c)| BrightnessContrast(b, c)),
        2 => n().prop_map(Saturation),
        2 => n().prop_map(StretchSaturation),
        2 => n().prop_map(Lightness),
        2 => n().prop_map(HueRotate),
        2 => (-7.0f32..7.0, 0..FILTERS.len()).prop_map(|(v, f)| Rotate(v, f)),
        1 => amount().prop_map(RandomNoise),
        1 => amount().prop_map(SaltPepper),
        1 => amount().prop_map(RgbNoise),
    ]
    .boxed()
}

pub fn history() -> BoxedStrategy<Vec<Step>> {
    let one = || {
        prop_oneof![
            8 => effect(),
            4 => file(false).prop_map(Save),
            2 => file(true).prop_map(Open),
            1 => Just(Silent),
        ]
    };
    let any = prop::collection::vec(one(), 0..8);
    let opened = (prop::option::of(Just(Silent)), (0usize..5, 0u8..3), prop::collection::vec(one(), 0..8), prop::option::of(file(false)))
        .prop_map(|(s, (name, style), mut v, end)| {
            v.insert(0, Open(File { name: NAMES[name].to_vec(), style }));
            if let Some(s) = s {
                v.insert(0, s);
            }
            v.extend(end.map(Save));
            v
        });
    // the same one or two files saved and opened again and again
    let reuse = [5..GOOD, 5..GOOD].prop_flat_map(move |names| {
        let f = move || (0usize..2, 0u8..3).prop_map(move |(i, style)| File { name: NAMES[names[i]].to_vec(), style });
        let one = prop_oneof![3 => effect(), 3 => f().prop_map(Save), 3 => f().prop_map(Open)];
        let known = (0usize..5, 0u8..3).prop_map(|(n, style)| File { name: NAMES[n].to_vec(), style });
        (known, f(), prop::collection::vec(one, 2..10), file(false)).prop_map(|(k, f, mut v, end)| {
            v.insert(0, Save(f));
            v.insert(0, Open(k));
            v.push(Save(end));
            v
        })
    });
    prop_oneof![1 => any, 5 => opened, 2 => reuse].boxed()
}

/// Hundreds of commands on small images
pub fn long_history() -> BoxedStrategy<Vec<Step>> {
    let cheap = || effect().prop_map(|s| match s {
        Rotate(v, _) => HueRotate(v),
        RandomNoise(v) => Saturation(v),
        SaltPepper(v) => Lightness(v),
        RgbNoise(v) => Gamma(v + 2.5),
        s => s,
    });
    let known = || (0usize..5, 0u8..3).prop_map(|(n, style)| File { name: NAMES[n].to_vec(), style });
    let one = prop_oneof![
        24 => cheap(),
        2 => (5..GOOD, 0u8..3).prop_map(|(n, style)| Save(File { name: NAMES[n].to_vec(), style })),
        2 => known().prop_map(Open),
    ];
    let size = prop_oneof![2 => 8usize..90, 3 => 90usize..130, 2 => 130usize..300, 1 => 300usize..1100];
    (size.prop_flat_map(move |n| prop::collection::vec(one.clone(), n)), known(), any::<bool>(), prop::option::weighted(0.1, file(true)), file(false))
        .prop_map(|(mut v, f, silent, bad, end)| {
            v.insert(0, Open(f));
            if silent && v.len() % 4 == 0 {
                v.insert(0, Silent);
            }
            v.extend(bad.map(Open));
            v.push(Save(end));
            v
        })
        .boxed()
}

pub fn pictures() -> BoxedStrategy<[Img; 2]> {
    [img(6), img(6)].boxed()
}

pub fn scratch_pair(imgs: &[Img; 2]) -> Result<(Dir, Dir), Fail> {
    let (a, b) = (Dir::new(), Dir::new());
    prepare(a.path(), imgs)?;
    prepare(b.path(), imgs)?;
    Ok((a, b))
}
