//! Callbacks, files, and arguments of any kind
use crate::arrays::{raises, SPACES};
use crate::colors::CLASSES;
use crate::methods::METHODS;
use crate::py::*;
use d10::{EncodingFormat, Image, PngColorType, PngCompression, PngFilterType, Rgb};
use d10::{BmpColorType, IcoColorType, WebPPreset};
use d10_verif::engine::{fail, no_panic, sub, Case, Fail, Res, Sub};
use d10_verif::ensure;
use d10_verif::gen::{self, Img, Px};
use d10_verif::scratch::Dir;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::cell::Cell;

fn ff(sig: &str, msg: String) -> Fail {
    Fail { sig: sig.into(), msg }
}

// ---------------------------------------------------------------------------------------------
// callbacks

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Callback {
    imgs: [Img; 3],
    m: String,
    perm: [u8; 4],
    at: Option<u32>,
    how: String,
    pick: u32,
    list: Vec<u8>,
    default: Option<Px>,
}

const HOWS: [&str; 10] = ["raise", "base", "none", "int", "srgb", "image", "read", "write", "nested", "drop"];

fn callback() -> BoxedStrategy<Callback> {
    callbacks(gen::img(5), 12)
}

/// Positions and counts above 8 bits
fn large_callback() -> BoxedStrategy<Callback> {
    callbacks(gen::big(1_200), 900)
}

fn callbacks(im: BoxedStrategy<Img>, at: u32) -> BoxedStrategy<Callback> {
    let m = prop::sample::select(vec!["map_colors", "mod_colors", "map_colors_enumerated", "mod_colors_enumerated", "compose", "compose"]);
    (
        [im, gen::img(5), gen::img(5)],
        m,
        [0u8..6, 0u8..6, 0u8..6, 0u8..6],
        prop::option::weighted(0.6, 0u32..at),
        prop::sample::select(HOWS.to_vec()),
        0u32..3,
        prop_oneof![4 => prop::collection::vec(0u8..3, 0..4), 1 => prop::collection::vec(0u8..3, 4..24)],
        prop::option::of(gen::px()),
    )
        .prop_map(|(imgs, m, mut perm, at, how, pick, list, default)| {
            if m == "map_colors" || m == "mod_colors" {
                perm = perm.map(|p| p % 4);
            }
            Callback { imgs, m: m.into(), perm, at, how: how.into(), pick, list, default }
        })
        .boxed()
}

/// What happens in the call that is disturbed
enum Event {
    Stop,
    Nothing,
}

fn callback_case(v: &Callback, c: &mut Case) -> Res {
    let mut imgs: Vec<Image> = v.imgs.iter().map(lib).collect();
    let compose = v.m == "compose";
    let kind = if compose {
        "comp"
    } else if v.m.ends_with("enumerated") {
        "map3"
    } else {
        "map1"
    };
    let cb = json!({"fn": {"kind": kind, "perm": v.perm, "at": v.at, "how": v.how, "pick": v.pick}});
    let step = if compose {
        let list: Vec<Value> = v.list.iter().map(|i| json!({"v": format!("i{i}")})).collect();
        json!({"on": "d10.Image", "m": "compose", "a": [list, cb, v.default.as_ref().map(rgb)], "calls": 1})
    } else {
        json!({"on": "i0", "m": v.m, "a": [cb], "calls": 1})
    };
    let vars = json!({"i0": img(&v.imgs[0]), "i1": img(&v.imgs[1]), "i2": img(&v.imgs[2])});
    let r = run(vars, vec![step], &["i0", "i1", "i2"])?;
    let what = format!("{} with {} in call {:?}", v.m, v.how, v.at);

    // i0 cannot be changed while it is used, nor be read while it is changed
    let place = v.m.starts_with("mod");
    let used = !compose || v.list.contains(&0);
    let event = match v.how.as_str() {
        "read" | "nested" if place => Event::Stop,
        "write" if used => Event::Stop,
        "read" | "nested" | "write" | "drop" => Event::Nothing,
        _ => Event::Stop,
    };
    let count = Cell::new(0u32);
    let wrote = Cell::new(false);
    let calls = std::cell::RefCell::new(vec![]);
    let one = |x: u32, y: u32, c: &Rgb, args: String| -> Result<Rgb, ()> {
        calls.borrow_mut().push(args);
        let n = count.get();
        count.set(n + 1);
        if Some(n) == v.at {
            match event {
                Event::Stop => return Err(()),
                Event::Nothing => wrote.set(true),
            }
        }
        let d = [c.data[0], c.data[1], c.data[2], c.data[3], x as f32 / 64.0, y as f32 / 64.0];
        let [r, g, b, a] = v.perm.map(|p| d[p as usize]);
        Ok(Rgb::new_with_alpha(r, g, b, a))
    };
    let show = |c: &Rgb| json!({"col": ["Rgb", hex(c.data.iter().flat_map(|v| v.to_le_bytes()))]});
    let mut target = imgs[0].clone();
    let res: Result<Option<Image>, ()> = match v.m.as_str() {
        "map_colors" => target.try_map_colors(|c| one(0, 0, c, show(c).to_string())).map(Some),
        "mod_colors" => target.try_mod_colors(|c| one(0, 0, c, show(c).to_string())).map(|_| None),
        "map_colors_enumerated" => {
            target.try_map_colors_enumerated(|x, y, c| one(x, y, c, json!([x, y, show(c)]).to_string())).map(Some)
        }
        "mod_colors_enumerated" => {
            target.try_mod_colors_enumerated(|x, y, c| one(x, y, c, json!([x, y, show(c)]).to_string())).map(|_| None)
        }
        _ if v.list.is_empty() => Err(()),
        _ => {
            let list: Vec<&Image> = v.list.iter().map(|i| &imgs[*i as usize]).collect();
            let default = v.default.map_or(Rgb::default(), |d| Rgb { data: d });
            Image::try_compose_slice(&list, default, |x, y, colors: &[Rgb]| {
                let c = colors[(x + 2 * y + v.pick) as usize % colors.len()];
                one(x, y, &c, json!([x, y, colors.iter().map(show).collect::<Vec<_>>()]).to_string())
            })
            .map(Some)
        }
    };
    if place {
        imgs[0] = target;
    }
    let stopped = res.is_err();
    let a = &r.steps[0];
    match &res {
        Err(()) => {
            let Err(e) = &a.res else {
                return fail("no-exception", format!("{what} returned {:?}", a.res));
            };
            let name = match v.how.as_str() {
                _ if compose && v.list.is_empty() => None,
                "raise" => Some("CallbackError"),
                "base" => Some("KeyboardInterrupt"),
                _ => None,
            };
            ensure!(name.is_none_or(|n| n == e.name), "exception", "{what}: {} ({})", e.name, e.msg);
            ensure!(e.exception || name == Some("KeyboardInterrupt"), "panic", "{what}: {} ({})", e.name, e.msg);
        }
        Ok(out) => {
            let want = out.as_ref().map_or(Val::None, |i| Val::Img(from_lib(i)));
            match &a.res {
                Ok(got) => same(got, &want).map_err(|m| ff("result", format!("{what}: {m}")))?,
                Err(e) => return fail("raised", format!("{what}: {} ({})", e.name, e.msg)),
            }
            let mut got: Vec<String> = a.calls.iter().flatten().map(|c| c.to_string()).collect();
            let mut want = calls.take();
            got.sort();
            want.sort();
            ensure!(got == want, "calls", "{what}: called {} times instead of {}, or with other values", got.len(), want.len());
            c.hit_if(want.len() > 1);
        }
    }
    if wrote.get() && v.how == "write" {
        imgs[0].put_pixel(0, 0, Rgb::new_with_alpha(0.5, 0.25, 0.125, 0.5));
    }
    if wrote.get() && v.how == "drop" {
        imgs[0] = Image::new(1, 1);
    }
    for (i, im) in imgs.iter().enumerate() {
        same(&val(&r.dumps[format!("i{i}")]), &Val::Img(from_lib(im)))
            .map_err(|m| ff("state", format!("{what}: image {i} afterwards: {m}")))?;
    }
    c.label(format!("{}{}", v.m, if stopped { " stopped" } else { "" }));
    if v.at.is_some_and(|a| a < count.get()) {
        c.label(v.how.clone());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// files

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase {
    img: Img,
    /// format and options by position
    format: Option<(String, Vec<Value>)>,
    name: String,
    kw: bool,
}

fn opt(v: impl Strategy<Value = Value> + 'static) -> BoxedStrategy<Value> {
    prop_oneof![1 => Just(Value::Null), 2 => v].boxed()
}

fn word(l: &'static [&'static str]) -> BoxedStrategy<Value> {
    let bad = prop::sample::select(vec!["", "L8", "foo"]);
    opt(prop_oneof![20 => prop::sample::select(l.to_vec()), 1 => bad].prop_map(|s| json!(s)))
}

const SAMPLING: &[&str] = &[
    "1x1", "1x2", "2x1", "2x2", "4x1", "4x2", "1x4", "2x4", "4:4:4", "4:4:0", "4:4:1", "4:2:2", "4:2:0", "4:2:1", "4:1:1", "4:1:0",
];

fn format() -> BoxedStrategy<(String, Vec<Value>)> {
    let quality = || opt(prop_oneof![20 => (1i64..=100).prop_map(|q| json!(q)), 1 => prop::sample::select(vec![-1i64, 256, 1 << 40]).prop_map(|q| json!(q))]);
    let flag = || opt(any::<bool>().prop_map(|b| json!(b)));
    let name = |n: &'static str| move |v: Vec<Value>| (n.to_string(), v);
    prop_oneof![
        4 => [quality(), flag(), word(SAMPLING), flag(), flag()].prop_map(|a| a.to_vec()).prop_map(name("jpeg")),
        3 => [word(&["l8", "la8", "l16", "la16", "rgb8", "rgba8", "rgb16", "rgba16"]), word(&["default", "fast", "best"]), word(&["no_filter", "sub", "up", "avg", "paeth"])]
            .prop_map(|a| a.to_vec()).prop_map(name("png")),
        1 => Just(vec![]).prop_map(name("gif")),
        2 => word(&["l8", "la8", "rgb8", "rgba8"]).prop_map(|v| vec![v]).prop_map(name("bmp")),
        2 => word(&["l8", "la8", "rgb8", "rgba8"]).prop_map(|v| vec![v]).prop_map(name("ico")),
        2 => [quality(), word(&["default", "picture", "photo", "drawing", "icon", "text", "lossless"])].prop_map(|a| a.to_vec()).prop_map(name("webp")),
    ]
    .boxed()
}

fn file_case() -> BoxedStrategy<FileCase> {
    let names = prop::sample::select(vec![
        "a.png", "a.png", "a.jpg", "a.jpeg", "a.gif", "a.bmp", "a.ico", "a.webp", "a.PNG", "a.xyz", "a", "no/a.png", "\u{e4} b.png", "", ".", "a.png/",
    ]);
    let image = prop_oneof![30 => gen::img(9), 1 => Just(Img { w: 0, h: 0, data: vec![] })];
    (image, prop::option::weighted(0.75, format()), names, any::<bool>())
        .prop_map(|(img, format, name, kw)| FileCase { img, format, name: name.into(), kw })
        .boxed()
}

/// The format of the library and the formats accepted instead
fn library_format(kind: &str, a: &[Value]) -> Result<Vec<EncodingFormat>, ()> {
    fn name<T: std::str::FromStr>(v: &Value, d: T) -> Result<T, ()> {
        match v.as_str() {
            Some(s) => s.parse().map_err(|_| ()),
            None => Ok(d),
        }
    }
    let quality = |v: &Value| v.as_i64().map(|q| u8::try_from(q).map_err(|_| ())).transpose();
    Ok(match kind {
        "jpeg" => vec![EncodingFormat::Jpeg {
            quality: quality(&a[0])?.unwrap_or(85),
            progressive: a[1].as_bool().unwrap_or(false),
            sampling_factor: a[2].as_str().map(|s| s.parse().map_err(|_| ())).transpose()?,
            grayscale: a[3].as_bool().unwrap_or(false),
            optimize_huffman_tables: a[4].as_bool().unwrap_or(true),
        }],
        "png" => vec![EncodingFormat::Png {
            color_type: name(&a[0], PngColorType::Rgba8)?,
            compression: name(&a[1], PngCompression::Default)?,
            filter: name(&a[2], PngFilterType::Sub)?,
        }],
        "gif" => vec![EncodingFormat::Gif],
        "bmp" => vec![EncodingFormat::Bmp { color_type: name(&a[0], BmpColorType::Rgba8)? }],
        "ico" => vec![EncodingFormat::Ico { color_type: name(&a[0], IcoColorType::Rgba8)? }],
        _ => {
            let preset: String = a[1].as_str().unwrap_or("default").into();
            let q = quality(&a[0])?;
            // the default quality is not documented
            let list = q.map_or(vec![85, 90], |q| vec![q]);
            list.into_iter()
                .map(|quality| Ok(EncodingFormat::WebP { quality, preset: preset.parse::<WebPPreset>().map_err(|_| ())? }))
                .collect::<Result<_, ()>>()?
        }
    })
}

const PARAMS: [(&str, &[&str]); 5] = [
    ("jpeg", &["quality", "progressive", "sampling_factor", "grayscale", "optimize_huffman_tables"]),
    ("png", &["color_type", "compression", "filter"]),
    ("bmp", &["color_type"]),
    ("ico", &["color_type"]),
    ("webp", &["quality", "preset"]),
];

fn file_check(v: &FileCase, c: &mut Case) -> Res {
    let dir = Dir::new();
    let path = dir.path().join(&v.name).to_string_lossy().into_owned();
    let mut steps = vec![];
    if let Some((kind, args)) = &v.format {
        let names = PARAMS.iter().find(|p| p.0 == kind).map_or(&[][..], |p| p.1);
        let step = if v.kw {
            let kw: Map<String, Value> =
                names.iter().zip(args).filter(|(_, v)| !v.is_null()).map(|(n, v)| (n.to_string(), v.clone())).collect();
            json!({"on": "d10.EncodingFormat", "m": kind, "kw": kw, "to": "f"})
        } else {
            json!({"on": "d10.EncodingFormat", "m": kind, "a": args, "to": "f"})
        };
        steps.push(step);
        steps.push(json!({"on": "i0", "m": "save", "a": [path, {"v": "f"}]}));
    } else {
        steps.push(json!({"on": "i0", "m": "save", "a": [path]}));
    }
    steps.push(json!({"on": "d10.Image", "m": "open", "a": [path]}));
    let n = steps.len();
    let r = run(json!({"i0": img(&v.img)}), steps, &["i0"])?;
    let what = format!("{}x{} saved as {:?} {:?}", v.img.w, v.img.h, v.name, v.format);
    for a in &r.steps {
        if let Err(e) = &a.res {
            ensure!(e.exception, "panic", "{what}: {} ({})", e.name, e.msg);
        }
    }
    ensure!(val(&r.dumps["i0"]) == Val::Img(v.img.clone()), "source-changed", "{what}: the image changed");
    let formats = match &v.format {
        Some((kind, args)) => match library_format(kind, args) {
            Ok(f) => {
                ensure!(r.steps[0].res == Ok(Val::Other("\"EncodingFormat\"".into())), "format", "{what}: {:?}", r.steps[0].res);
                Some(f)
            }
            Err(()) => return raises(&r.steps[0], &what),
        },
        None => None,
    };
    let image = lib(&v.img);
    let twin = Dir::new();
    let other = twin.path().join(&v.name);
    // what the library writes
    let want: Vec<Option<Vec<u8>>> = match formats {
        Some(f) => f
            .into_iter()
            .map(|f| no_panic(|| image.save_with_format(&other, f)).ok()?.ok().and_then(|_| std::fs::read(&other).ok()))
            .collect(),
        None => vec![no_panic(|| image.save(&other)).ok().and_then(|r| r.ok()).and_then(|_| std::fs::read(&other).ok())],
    };
    let saved = &r.steps[n - 2];
    if want.iter().all(|w| w.is_none()) {
        raises(saved, &what)?;
        c.label("not saved");
        return Ok(());
    }
    ensure!(saved.res == Ok(Val::None), "save", "{what}: {:?}", saved.res);
    let got = std::fs::read(&path).ok();
    ensure!(want.contains(&got), "file", "{what}: the file differs from the one of the library");
    match Image::open(&path) {
        Ok(i) => match &r.steps[n - 1].res {
            Ok(o) => same(o, &Val::Img(from_lib(&i))).map_err(|m| ff("open", format!("{what}, opened: {m}")))?,
            Err(e) => return fail("open", format!("{what}, opened: {} ({})", e.name, e.msg)),
        },
        Err(_) => raises(&r.steps[n - 1], &what)?,
    }
    c.hit_if(v.img.distinct() > 1);
    c.label(v.format.as_ref().map_or(format!("by name {}", v.name), |f| f.0.clone()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// arguments of any kind

const JUNK: [&str; 39] = [
    "object", "bytes", "complex", "dict", "list", "tuple3", "type", "lambda", "builtin", "surrogate", "nul", "gen", "image",
    "empty", "rgb", "srgb", "format", "npf", "npi", "npa", "nps", "np0", "nan", "inf", "ninf", "badint", "images", "rgbs",
    "class", "module", "ellipsis", "notimpl", "slice", "set", "bytearray", "memview", "nan", "inf", "empty",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Junk {
    img: Img,
    on: String,
    m: String,
    args: Vec<Value>,
    kw: Vec<(String, Value)>,
}

fn any_arg() -> BoxedStrategy<Value> {
    let words: Vec<String> = SPACES.iter().map(|s| s.to_string()).chain(["uint8", "float64", "bool", "nearest", "", "x"].map(String::from)).collect();
    prop_oneof![
        6 => prop::sample::select(JUNK.to_vec()).prop_map(|j| json!({ "x": j })),
        2 => Just(Value::Null),
        2 => (-3i64..5).prop_map(|i| json!(i)),
        1 => prop::sample::select(vec!["-1", "99999999999999999999", "-99999999999999999999", "18446744073709551615"]).prop_map(|s| json!({ "i": s })),
        1 => gen::factor().prop_map(f),
        1 => prop::sample::select(vec![f32::MAX, f32::MIN, f32::MIN_POSITIVE, -0.0, 1e-40]).prop_map(f),
        1 => any::<bool>().prop_map(|b| json!(b)),
        1 => prop::sample::select(words).prop_map(|s| json!(s)),
        1 => gen::px().prop_map(|p| rgb(&p)),
        1 => Just(json!({"v": "i0"})),
        1 => Just(json!([{"v": "i0"}, {"v": "i0"}])),
        1 => Just(json!({"t": [1, 0]})),
        1 => Just(json!({"fn": {"kind": "args0"}})),
    ]
    .boxed()
}

fn junk() -> BoxedStrategy<Junk> {
    let mut targets: Vec<(String, String, usize)> = vec![];
    for m in METHODS.iter().filter(|m| m.name != "new") {
        targets.push(("i0".into(), m.name.into(), m.params.len()));
    }
    for m in ["==", "!=", "<", "str", "repr", "del", "set:width", "get:nothing", "map_colors", "mod_colors", "map_colors_enumerated", "mod_colors_enumerated", "to_np_array", "to_np_array", "save"] {
        targets.push(("i0".into(), m.into(), if m == "to_np_array" { 2 } else { 1 }));
    }
    for (m, n) in [("from_list", 3), ("from_np_array", 2), ("from_np_array", 2), ("open", 1), ("compose", 3), ("()", 3)] {
        targets.push(("d10.Image".into(), m.into(), n));
    }
    for (m, n) in PARAMS {
        targets.push(("d10.EncodingFormat".into(), m.into(), n.len()));
    }
    for class in CLASSES {
        targets.push((format!("d10.{class}"), "()".into(), 4));
    }
    for m in ["to_lab", "to_lch", "map_color_channels", "set:red", "with_red", "with_alpha", "to_gray", "difference", "alpha_blend", "with_level", "modulate", "==", "!=", "<", "[]"] {
        targets.push(("c0".into(), m.into(), if m == "to_lab" || m == "to_lch" { 2 } else { 1 }));
    }
    targets.push(("d10".into(), "Lab".into(), 6));
    targets.push(("d10".into(), "Lch".into(), 6));
    let img = prop_oneof![5 => gen::img(3), 1 => Just(Img { w: 0, h: 0, data: vec![] })];
    (img, prop::sample::select(targets), 0usize..12)
        .prop_flat_map(|(img, (on, m, n), more)| {
            // mostly as many as the function takes
            let n = match more {
                0 => n + 1,
                1 => n.saturating_sub(1),
                _ => n,
            };
            let kw = prop_oneof![
                6 => Just(vec![]),
                1 => (prop::sample::select(vec!["alpha", "filter", "mode", "threshold", "nothing", "colorspace", "default", "illuminant"]), any_arg())
                    .prop_map(|(k, v)| vec![(k.to_string(), v)])
            ];
            (prop::collection::vec(any_arg(), n), kw).prop_map(move |(args, kw)| Junk { img: img.clone(), on: on.clone(), m: m.clone(), args, kw })
        })
        .boxed()
}

fn junk_check(v: &Junk, c: &mut Case) -> Res {
    let needs_arg = ["[]", "[]=", "del", "==", "!=", "<"].contains(&v.m.as_str()) || v.m.starts_with("set:");
    let n = if v.m == "[]=" { 2 } else { 1 };
    let mut args = v.args.clone();
    if needs_arg {
        args.resize(n.max(args.len()), Value::Null);
    }
    let kw: Map<String, Value> = v.kw.iter().cloned().collect();
    let step = json!({"on": v.on, "m": v.m, "a": args, "kw": kw});
    let vars = json!({"i0": img(&v.img), "c0": rgb(&[0.25, 0.5, 0.75, 1.0])});
    let again = json!({"on": "i0", "m": "rotate180"});
    let r = run(vars, vec![step, again], &["i0"])?;
    let what = format!("{}.{}{} {:?} on {}x{}", v.on, v.m, json!(args), kw, v.img.w, v.img.h);
    if let Err(e) = &r.steps[0].res {
        ensure!(e.exception, format!("panic-{}", v.m), "{what}: {} ({})", e.name, e.msg);
        c.label("raised");
        ensure!(val(&r.dumps["i0"]) == Val::Img(v.img.clone()), "state", "{what}: raised {} and changed the image", e.name);
    } else {
        c.label("accepted");
    }
    ensure!(r.steps[1].res.is_ok(), "broken", "{what}: the image cannot be used any more: {:?}", r.steps[1].res);
    c.hit();
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        sub("callback", 8000, 100000, callback, callback_case),
        sub("large-callback", 150, 2000, large_callback, callback_case),
        sub("file", 4000, 40000, file_case, file_check),
        sub("junk", 24000, 300000, junk, junk_check),
    ]
}
