//! C23 the command line program
use super::model::*;
use super::queue::{check_log, describe};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

#[derive(Clone, Serialize, Deserialize, PartialEq)]
enum Tok {
    Text(String),
    File(File),
}

impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Tok::Text(t) => write!(f, "{t:?}"),
            Tok::File(n) => write!(f, "{n:?}"),
        }
    }
}

impl Tok {
    fn arg(&self, root: &Path) -> OsString {
        match self {
            Tok::Text(t) => t.into(),
            Tok::File(f) => f.path(root).into_os_string(),
        }
    }
    fn file(&self) -> File {
        match self {
            Tok::Text(t) => File { name: t.clone().into_bytes(), style: 0 },
            Tok::File(f) => f.clone(),
        }
    }
}

const ROTATION: usize = 1; // bilinear

fn tokens(s: &Step) -> Vec<Tok> {
    let t = |s: &str| Tok::Text(s.to_string());
    let n = |o: &str, v: &[f32]| vec![t(o), Tok::Text(v.iter().map(|v| format!("{v}")).collect::<Vec<_>>().join(","))];
    match s {
        Step::Silent => vec![t("-silent")],
        Step::Open(f) => vec![t("-open"), Tok::File(f.clone())],
        Step::Save(f) => vec![t("-save"), Tok::File(f.clone())],
        Step::Gray(i) => vec![t("-grayscale"), t(GRAY[*i].0)],
        Step::Invert => vec![t("-invert")],
        Step::Gamma(v) => n("-gamma", &[*v]),
        Step::Level(b, w, g) => n("-level", &[*b, *w, *g]),
        Step::Brightness(v) => n("-brightness", &[*v]),
        Step::Contrast(v) => n("-contrast", &[*v]),
        Step::BrightnessContrast(b, c) => n("-brightness-contrast", &[*b, *c]),
        Step::Saturation(v) => n("-saturation", &[*v]),
        Step::StretchSaturation(v) => n("-stretch-saturation", &[*v]),
        Step::Lightness(v) => n("-lightness", &[*v]),
        Step::HueRotate(v) => n("-hue-rotate", &[*v]),
        Step::Rotate(v, _) => n("-rotate", &[*v]),
        Step::RandomNoise(v) => n("-random-noise", &[*v]),
        Step::SaltPepper(v) => n("-salt-n-pepper-noise", &[*v]),
        Step::RgbNoise(v) => n("-rgb-noise", &[*v]),
    }
}

const OPTIONS: [(&str, usize); 16] = [
    ("-gamma", 1),
    ("-level", 3),
    ("-brightness", 1),
    ("-contrast", 1),
    ("-brightness-contrast", 2),
    ("-saturation", 1),
    ("-stretch-saturation", 1),
    ("-lightness", 1),
    ("-hue-rotate", 1),
    ("-rotate", 1),
    ("-random-noise", 1),
    ("-salt-n-pepper-noise", 1),
    ("-rgb-noise", 1),
    ("-open", 0),
    ("-save", 0),
    ("-grayscale", 0),
];

/// What an argument list means
fn parse(args: &[Tok], root: &Path) -> Result<Vec<Step>, String> {
    let mut out = vec![];
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let text = a.arg(root).to_string_lossy().to_string();
        if !text.starts_with('-') {
            // the first file is opened, others are written
            let first = out.iter().all(|s| *s == Step::Silent);
            out.push(if first { Step::Open(a.file()) } else { Step::Save(a.file()) });
            continue;
        }
        match &text[..] {
            "-silent" => {
                out.push(Step::Silent);
                continue;
            }
            "-invert" => {
                out.push(Step::Invert);
                continue;
            }
            _ => {}
        }
        let Some((option, n)) = OPTIONS.iter().find(|o| o.0 == text) else { return Err(format!("unknown {text}")) };
        let Some(p) = it.next() else { return Err(format!("{option} without parameter")) };
        let value = p.arg(root).to_string_lossy().to_string();
        if *n == 0 {
            out.push(match *option {
                "-open" => Step::Open(p.file()),
                "-save" => Step::Save(p.file()),
                _ => match GRAY.iter().position(|g| g.0 == value) {
                    Some(i) => Step::Gray(i),
                    None => return Err(format!("{option} {value}")),
                },
            });
            continue;
        }
        let v: Option<Vec<f32>> = value.split(',').map(|v| v.parse().ok()).collect();
        let v = v.filter(|v| v.len() == *n).ok_or(format!("{option} {value}"))?;
        out.push(match *option {
            "-gamma" => Step::Gamma(v[0]),
            "-level" => Step::Level(v[0], v[1], v[2]),
            "-brightness" => Step::Brightness(v[0]),
            "-contrast" => Step::Contrast(v[0]),
            "-brightness-contrast" => Step::BrightnessContrast(v[0], v[1]),
            "-saturation" => Step::Saturation(v[0]),
            "-stretch-saturation" => Step::StretchSaturation(v[0]),
            "-lightness" => Step::Lightness(v[0]),
            "-hue-rotate" => Step::HueRotate(v[0]),
            "-rotate" => Step::Rotate(v[0], ROTATION),
            "-random-noise" => Step::RandomNoise(v[0]),
            "-salt-n-pepper-noise" => Step::SaltPepper(v[0]),
            _ => Step::RgbNoise(v[0]),
        });
    }
    Ok(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    imgs: [Img; 2],
    args: Vec<Tok>,
}

fn finite(s: &Step) -> bool {
    match s {
        Step::Gamma(v) | Step::Brightness(v) | Step::Contrast(v) | Step::Saturation(v) | Step::StretchSaturation(v) | Step::Lightness(v)
        | Step::HueRotate(v) | Step::Rotate(v, _) | Step::RandomNoise(v) | Step::SaltPepper(v) | Step::RgbNoise(v) => v.abs() < 1e6,
        Step::Level(a, b, c) => [a, b, c].iter().all(|v| v.abs() < 1e6),
        Step::BrightnessContrast(a, b) => a.abs() < 1e6 && b.abs() < 1e6,
        _ => true,
    }
}

fn call_case(v: &Call, c: &mut Case) -> Res {
    let scratch = |e: std::io::Error| err("scratch", e.to_string());
    let (real, model) = scratch_pair(&v.imgs)?;
    let before = content(real.path());
    let exe = std::env::current_exe().map_err(scratch)?.with_file_name("d10-under-test");
    let out = std::process::Command::new(exe)
        .args(v.args.iter().map(|a| a.arg(real.path())))
        .current_dir(real.path())
        .env_remove("RUST_BACKTRACE")
        .stdin(std::process::Stdio::null())
        .output()
        .map_err(|e| err("scratch", format!("the program cannot be started: {e}")))?;
    let what = format!("d10 {}", v.args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "));
    let (text, errors) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
    let code = out.status.code();
    let ends = || format!("{} ({})", out.status, errors.trim());
    ensure!(code.is_some() && code != Some(101), "panic", "{what}: {}", ends());
    ensure!(code == Some(0) || !errors.trim().is_empty(), "silent-failure", "{what}: fails without a message");
    let steps = if v.args.is_empty() { Err("no arguments".to_string()) } else { parse(&v.args, real.path()) };
    let steps = match steps {
        Ok(s) => s,
        Err(why) => {
            c.label("rejected");
            c.hit_if(v.args.len() > 1);
            ensure!(code != Some(0), "accepted", "{what}: not rejected ({why})");
            ensure!(content(real.path()) == before, "touched", "{what}: rejected ({why}), but files have changed");
            ensure!(text.is_empty(), "executed", "{what}: rejected ({why}), but there is output: {text}");
            return Ok(());
        }
    };
    if !steps.iter().all(finite) {
        c.label("extreme numbers");
        return Ok(());
    }
    let mut random = BTreeMap::new();
    let want = follow(&steps, model.path(), &mut random);
    c.hit_if(want.worked || want.failure.is_some());
    let what = format!("{what} ({})", describe(&steps));
    c.label(match &want.failure {
        None => "success".to_string(),
        Some((f, _)) => format!("{f:?}"),
    });
    match &want.failure {
        None => ensure!(code == Some(0), "failure", "{what}: {}", ends()),
        Some((f, t)) => ensure!(code != Some(0), "success", "{what}: success instead of {f:?} {t}"),
    }
    check_log(&what, &text, &want.log)?;
    if want.failure.is_none() {
        ensure!(errors.is_empty(), "noise", "{what}: messages in spite of success: {errors}");
    }
    compare(&what, real.path(), model.path(), &random)
}

#[derive(Clone, Debug)]
enum Edit {
    Drop(prop::sample::Index),
    Text(prop::sample::Index, String),
    Insert(prop::sample::Index, String),
    File(prop::sample::Index, File),
    Twice(prop::sample::Index),
    Swap(prop::sample::Index, prop::sample::Index),
    Number(prop::sample::Index, String),
    Prefix(prop::sample::Index, String),
}

fn edit() -> BoxedStrategy<Edit> {
    use prop::sample::{select, Index};
    let i = any::<Index>;
    let word = || {
        prop_oneof![
            3 => select(vec!["-foo", "--open", "-Gamma", "-", "--", "-gam", "-gammaa", "-brightness_contrast", "-level ", "", "-ünknown", "-salt-n-pepper", "-h", "--help", "-OPEN"]).prop_map(str::to_string),
            3 => select(OPTIONS.iter().map(|o| o.0).collect::<Vec<_>>()).prop_map(str::to_string),
            1 => select(vec!["-silent", "-invert"]).prop_map(str::to_string),
            1 => "-[a-z-]{0,8}",
        ]
    };
    let numbers = prop_oneof![
        3 => select(vec!["", "abc", "1,2", "0.1,0.9,1.5", "1,2,3,4", "1;2", " 1", "1 ", "0x10", "1.0f", "1_0", ",", "1,", ",1", "1,,2", "0,5", "--1", "+-1", "1e", "e5", "1/2", "50%", "0.1, 0.9, 1.5"]).prop_map(str::to_string),
        1 => select(vec!["+1", ".5", "1.", "1e-1", "-0", "1E0", "007", "nan", "inf", "-inf", "NaN", "infinity", "1e39", "3e38", "-1e30", "1e-45", "nan,nan,nan", "inf,0", "0,0,0", "0.5,0.5,1"]).prop_map(str::to_string),
        1 => "[0-9.,eE+-]{0,6}",
    ];
    prop_oneof![
        2 => i().prop_map(Edit::Drop),
        2 => (i(), word()).prop_map(|(i, s)| Edit::Text(i, s)),
        2 => (i(), word()).prop_map(|(i, s)| Edit::Insert(i, s)),
        2 => (i(), file(false)).prop_map(|(i, f)| Edit::File(i, f)),
        1 => i().prop_map(Edit::Twice),
        1 => (i(), i()).prop_map(|(a, b)| Edit::Swap(a, b)),
        5 => (i(), numbers).prop_map(|(i, s)| Edit::Number(i, s)),
        1 => (i(), select(vec!["-", " ", "x"])).prop_map(|(i, s)| Edit::Prefix(i, s.to_string())),
    ]
    .boxed()
}

fn apply(args: &mut Vec<Tok>, e: Edit) {
    let n = args.len();
    let at = |i: &prop::sample::Index| if n == 0 { 0 } else { i.index(n) };
    match e {
        Edit::Insert(i, s) => args.insert(i.index(n + 1), Tok::Text(s)),
        Edit::File(i, f) => args.insert(i.index(n + 1), Tok::File(f)),
        _ if n == 0 => {}
        Edit::Drop(i) => {
            args.remove(at(&i));
        }
        Edit::Text(i, s) => args[at(&i)] = Tok::Text(s),
        Edit::Twice(i) => {
            let t = args[at(&i)].clone();
            args.insert(at(&i), t);
        }
        Edit::Swap(a, b) => args.swap(at(&a), at(&b)),
        Edit::Number(i, s) => {
            // the parameter of an option, if there is one
            let k: Vec<usize> =
                (1..n).filter(|k| matches!(&args[k - 1], Tok::Text(t) if OPTIONS.iter().any(|o| o.0 == t && o.1 > 0))).collect();
            let k = if k.is_empty() { at(&i) } else { k[i.index(k.len())] };
            args[k] = Tok::Text(s);
        }
        Edit::Prefix(i, s) => {
            if let Tok::Text(t) = &mut args[at(&i)] {
                *t = s + t;
            }
        }
    }
}

fn call() -> BoxedStrategy<Call> {
    let edits = prop_oneof![3 => Just(vec![]), 2 => edit().prop_map(|e| vec![e]), 1 => prop::collection::vec(edit(), 2..5)];
    calls(pictures(), history(), edits.boxed())
}

fn long_call() -> BoxedStrategy<Call> {
    let edits = prop_oneof![6 => Just(vec![]), 1 => edit().prop_map(|e| vec![e])];
    calls([img(3), img(3)].boxed(), long_history(), edits.boxed())
}

fn calls(imgs: BoxedStrategy<[Img; 2]>, steps: BoxedStrategy<Vec<Step>>, edits: BoxedStrategy<Vec<Edit>>) -> BoxedStrategy<Call> {
    // files without an option
    (imgs, steps, edits, any::<bool>())
        .prop_map(|(imgs, steps, edits, bare)| {
            let mut args = vec![];
            let mut first = true;
            for s in &steps {
                let short = bare
                    && match s {
                        Step::Open(f) => first && !(f.style == 0 && f.name.starts_with(b"-")),
                        Step::Save(f) => !first && !(f.style == 0 && f.name.starts_with(b"-")),
                        _ => false,
                    };
                first &= *s == Step::Silent;
                let t = tokens(s);
                args.extend(if short { t[1..].to_vec() } else { t });
            }
            for e in edits {
                apply(&mut args, e);
            }
            // keep all effects in the scratch directory
            args.retain(|a| a.arg(Path::new("/r")).as_bytes().iter().all(|b| *b != 0));
            for a in &mut args {
                if let Tok::Text(t) = a {
                    t.retain(|c| c != '/');
                    if t == ".." || t == "." {
                        t.push('x');
                    }
                }
            }
            Call { imgs, args }
        })
        .boxed()
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        level: "exploration",
        rule: "an accepted argument list with an effect between opening and saving or with a failing step, or a rejected list of several arguments",
        assumptions: vec![
            "the effect of a single command is defined by the library methods, which other properties check",
            "for numbers above a million, infinite or NaN only an orderly end is checked",
            "standard output accepts everything",
        ],
        subs: vec![sub("call", 8_000, 160_000, call, call_case), sub("long", 1_200, 25_000, long_call, call_case)],
    }
}
