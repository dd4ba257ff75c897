//! Conversion between images and numpy arrays
use crate::py::*;
use d10::illuminant::D65;
use d10::observer::O2;
use d10::{Color, Hsl, Hsv, Lab, Lch, Rgb, Srgb, Xyz, Yuv};
use d10_verif::engine::{fail, sub, Case, Fail, Res, Sub};
use d10_verif::ensure;
use d10_verif::gen::{self, Img, Px};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub const SPACES: [&str; 8] = ["rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch"];
const TYPES: [&str; 6] = ["float32", "float64", "uint8", "uint16", "uint32", "bool"];

/// The channels of a pixel in a colour space
fn channels(p: &Px, space: &str) -> Px {
    let c = Rgb { data: *p };
    match space {
        "rgb" => c.data,
        "srgb" => c.to_srgb().data,
        "hsl" => c.to_hsl().data,
        "hsv" => c.to_hsv().data,
        "yuv" => c.to_yuv().data,
        "xyz" => c.to_xyz().data,
        "lab" => c.to_lab::<D65, O2>().data,
        "lch" => c.to_lch::<D65, O2>().data,
        _ => [c.to_gray().red(), 0.0, 0.0, 0.0],
    }
}

/// The pixel with the channels
fn pixel(c: &Px, space: &str) -> Px {
    let [a, b, d, alpha] = *c;
    match space {
        "rgb" => [a, b, d, alpha],
        "srgb" => Srgb::new_with_alpha(a, b, d, alpha).to_rgb().data,
        "hsl" => Hsl::new_with_alpha(a, b, d, alpha).to_rgb().data,
        "hsv" => Hsv::new_with_alpha(a, b, d, alpha).to_rgb().data,
        "yuv" => Yuv::new_with_alpha(a, b, d, alpha).to_rgb().data,
        "xyz" => Xyz::new_with_alpha(a, b, d, alpha).to_rgb().data,
        "lab" => Lab::<D65, O2>::new_with_alpha(a, b, d, alpha).to_rgb().data,
        "lch" => Lch::<D65, O2>::new_with_alpha(a, b, d, alpha).to_rgb().data,
        _ => [a, a, a, 1.0],
    }
}

/// (numpy type, argument) of a data_type option
fn type_arg(i: usize, style: usize) -> (&'static str, Value) {
    let t = TYPES[i];
    let arg = match style {
        0 => json!(t),
        _ if t == "bool" && style == 1 => json!({"dt": "bool"}),
        _ if t == "bool" => json!({"dt": "np.bool_"}),
        _ => json!({"dt": format!("np.{t}")}),
    };
    (t, arg)
}

fn number(dtype: &str, b: &[u8]) -> f64 {
    match dtype {
        "float32" => f32::from_le_bytes(b.try_into().unwrap()) as f64,
        "float64" => f64::from_le_bytes(b.try_into().unwrap()),
        "uint8" | "bool" => b[0] as f64,
        "uint16" => u16::from_le_bytes(b.try_into().unwrap()) as f64,
        _ => u32::from_le_bytes(b.try_into().unwrap()) as f64,
    }
}

fn code(dtype: &str) -> (&'static str, usize, f64) {
    match dtype {
        "float32" => ("<f4", 4, 1.0),
        "float64" => ("<f8", 8, 1.0),
        "uint8" => ("|u1", 1, 255.0),
        "bool" => ("|b1", 1, 1.0),
        "uint16" => ("<u2", 2, 65535.0),
        _ => ("<u4", 4, 4294967295.0),
    }
}

/// Is the number of the array element what the channel value becomes
fn stored(dtype: &str, v: f32, n: f64) -> bool {
    let (_, _, max) = code(dtype);
    match dtype {
        "float32" | "float64" => near(n as f32, v) && (dtype != "float64" || n == (n as f32) as f64),
        "bool" => (v as f64 - 0.5).abs() < 1e-6 || (n == 1.0) == (v >= 0.5),
        _ => (n - (v as f64).clamp(0.0, 1.0) * max).abs() <= 0.5 + max * 1e-6,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ToArray {
    img: Img,
    space: Option<String>,
    dtype: Option<(usize, usize)>,
    kw: bool,
}

fn space_name() -> BoxedStrategy<String> {
    let all: Vec<String> =
        SPACES.iter().flat_map(|s| [s.to_string(), format!("{s}a")]).chain(["gray".to_string()]).collect();
    prop::sample::select(all).boxed()
}

fn to_array(pic: BoxedStrategy<Img>) -> BoxedStrategy<ToArray> {
    let bad = prop::sample::select(vec!["", "RGB", "auto", "graya", "rgbaa", "cmyk", "rgb ", "\u{e9}"]);
    let space = prop_oneof![1 => Just(None), 12 => space_name().prop_map(Some), 1 => bad.prop_map(|s| Some(s.to_string()))];
    let dtype = prop::option::weighted(0.85, (0usize..6, 0usize..3));
    (pic, space, dtype, any::<bool>())
        .prop_map(|(img, space, dtype, kw)| ToArray { img, space, dtype, kw })
        .boxed()
}

fn to_array_case(v: &ToArray, c: &mut Case) -> Res {
    let mut args = vec![];
    let mut kw = serde_json::Map::new();
    let (dtype, dt_arg) = match v.dtype {
        Some((i, style)) => type_arg(i, style),
        None => ("float32", Value::Null),
    };
    if v.kw {
        if let Some(s) = &v.space {
            kw.insert("colorspace".into(), json!(s));
        }
        if v.dtype.is_some() {
            kw.insert("data_type".into(), dt_arg);
        }
    } else {
        args = vec![json!(v.space), dt_arg];
    }
    let r = run(json!({"i0": img(&v.img)}), vec![json!({"on": "i0", "m": "to_np_array", "a": args, "kw": kw})], &["i0"])?;
    ensure!(val(&r.dumps["i0"]) == Val::Img(v.img.clone()), "source-changed", "the image changed");
    let name = v.space.clone().unwrap_or("rgba".into());
    let (space, depth) = match name.as_str() {
        "gray" => ("gray", 1),
        n => match SPACES.iter().find(|s| n.strip_prefix(**s).is_some_and(|r| r.is_empty() || r == "a")) {
            Some(s) => (*s, if n.len() > s.len() { 4 } else { 3 }),
            None => return raises(&r.steps[0], &format!("to_np_array({name:?})")),
        },
    };
    let what = format!("to_np_array({name:?}, {dtype})");
    let (code, size, _) = code(dtype);
    let (shape, bytes) = match &r.steps[0].res {
        Ok(Val::Arr { dtype, shape, bytes }) => {
            ensure!(dtype == code, "dtype", "{what}: {dtype}");
            (shape, bytes)
        }
        o => return fail("to-array", format!("{what}: {o:?}")),
    };
    ensure!(*shape == [v.img.h as usize, v.img.w as usize, depth], "shape", "{what}: {shape:?} of {}x{}", v.img.w, v.img.h);
    for (i, p) in v.img.data.iter().enumerate() {
        let want = channels(p, space);
        for (k, w) in want.iter().take(depth).enumerate() {
            let n = number(dtype, &bytes[(i * depth + k) * size..][..size]);
            ensure!(stored(dtype, *w, n), "value", "{what}: channel {k} of pixel {i} {p:?} is {n} instead of {w}");
        }
    }
    c.hit_if(v.img.distinct() > 1 && (space != "rgb" || dtype != "float32"));
    c.label(dtype);
    c.label(name);
    Ok(())
}

pub fn raises(a: &Answer, what: &str) -> Res {
    match &a.res {
        Err(e) if e.exception => Ok(()),
        Err(e) => fail("panic", format!("{what}: {} ({})", e.name, e.msg)),
        Ok(v) => fail("no-exception", format!("{what} returned {v:?}")),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FromArray {
    dtype: String,
    shape: Vec<usize>,
    vals: Vec<f32>,
    raw: Vec<u32>,
    layout: String,
    space: Option<String>,
}

impl FromArray {
    fn len(&self) -> usize {
        self.shape.iter().product()
    }

    /// (bytes, value as element of an image) in C order
    fn elems(&self) -> Vec<(Vec<u8>, f32)> {
        let n = self.len();
        let row = n.checked_div(*self.shape.first().unwrap_or(&1)).unwrap_or(0).max(1);
        (0..n)
            .map(|i| if self.layout == "broadcast" && !self.shape.is_empty() { i % row } else { i })
            .map(|i| {
                let (f, r) = (self.vals[i % self.vals.len()], self.raw[i % self.raw.len()]);
                match self.dtype.as_str() {
                    "float32" => (f.to_le_bytes().to_vec(), f),
                    "float64" => {
                        let v = f as f64 + r as f64 * 1e-18;
                        (v.to_le_bytes().to_vec(), v as f32)
                    }
                    "uint8" => (vec![r as u8], (r as u8) as f32 / 255.0),
                    "uint16" => ((r as u16).to_le_bytes().to_vec(), (r as u16) as f32 / 65535.0),
                    "uint32" => (r.to_le_bytes().to_vec(), (r as f64 / 4294967295.0) as f32),
                    "bool" => (vec![(r & 1) as u8], (r & 1) as f32),
                    "float16" | "int16" => ((r as u16 & 0x3bff).to_le_bytes().to_vec(), f32::NAN),
                    "int8" => (vec![r as u8], f32::NAN),
                    "int64" | "complex64" | "uint64" => ((r as u64).to_le_bytes().to_vec(), f32::NAN),
                    _ => (r.to_le_bytes().to_vec(), f32::NAN),
                }
            })
            .collect()
    }

    fn arg(&self) -> Value {
        let e = self.elems();
        json!({"np": {"dtype": self.dtype, "shape": self.shape, "layout": self.layout, "hex": hex(e.into_iter().flat_map(|e| e.0))}})
    }

    /// (colour space, channels, height, width) when the shape and colour space fit
    fn valid(&self) -> Option<(&'static str, usize, usize, usize)> {
        let name = self.space.as_deref().unwrap_or("auto");
        let gray = ["gray", "auto"].contains(&name);
        let (h, w) = (*self.shape.first()?, *self.shape.get(1)?);
        match self.shape.len() {
            2 if gray => Some(("gray", 1, h, w)),
            3 => match self.shape[2] {
                1 if gray => Some(("gray", 1, h, w)),
                n @ (3 | 4) => {
                    let s = if name == "auto" { "rgb" } else { name };
                    let s = if n == 4 { SPACES.iter().find(|x| s == **x || s == format!("{x}a")) } else { SPACES.iter().find(|x| s == **x) }?;
                    Some((s, n, h, w))
                }
                _ => None,
            },
            _ => None,
        }
    }
}

fn shape() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        10 => (1usize..6, 1usize..6, prop::sample::select(vec![3usize, 4, 4, 3, 1])).prop_map(|(h, w, d)| vec![h, w, d]),
        2 => (1usize..6, 1usize..6).prop_map(|(h, w)| vec![h, w]),
        1 => (0usize..3, 0usize..3, 0usize..6).prop_map(|(h, w, d)| vec![h, w, d]),
        1 => prop::collection::vec(0usize..4, 0..5),
    ]
    .boxed()
}

fn raw() -> BoxedStrategy<Vec<u32>> {
    prop::collection::vec(
        prop_oneof![4 => any::<u32>(), 1 => prop::sample::select(vec![0u32, u32::MAX, 0x7fff_ffff, 0x8000_0000, 0xffff, 0xff00, 0x00ff])],
        1..64,
    )
    .boxed()
}

/// Shapes of arrays with thousands of elements
fn large_shape() -> BoxedStrategy<Vec<usize>> {
    let side = || prop_oneof![4 => 20usize..140, 1 => prop::sample::select(vec![255usize, 256, 257]), 1 => 1usize..4];
    let long = prop_oneof![Just((1usize, 65537usize)), Just((65537usize, 1usize)), (500usize..9000, 1usize..3), (1usize..3, 500usize..9000)];
    let d = || prop::sample::select(vec![3usize, 4, 4, 3, 1]);
    prop_oneof![
        6 => (side(), side(), d()).prop_map(|(h, w, d)| vec![h, w, d]),
        1 => (long, d()).prop_map(|((h, w), d)| vec![h, w, d]),
        1 => (side(), side()).prop_map(|(h, w)| vec![h, w]),
    ]
    .boxed()
}

fn from_array(shape: BoxedStrategy<Vec<usize>>) -> BoxedStrategy<FromArray> {
    let dtype = prop_oneof![
        12 => prop::sample::select(TYPES.to_vec()),
        1 => prop::sample::select(vec!["int8", "int16", "int32", "int64", "uint64", "float16", "complex64"]),
    ];
    let layout = prop_oneof![
        3 => Just("c"),
        8 => prop::sample::select(vec!["f", "reversed", "reversed0", "strided", "window", "axes", "readonly", "subclass", "broadcast"]),
        1 => prop::sample::select(vec!["bigendian", "unaligned", "list"]),
    ];
    let space = prop_oneof![
        3 => Just(None),
        1 => Just(Some("auto".to_string())),
        12 => space_name().prop_map(Some),
        1 => prop::sample::select(vec!["", "RGB", "cmyk", "graya"]).prop_map(|s| Some(s.to_string())),
    ];
    (dtype, shape, prop::collection::vec(gen::unit(), 1..64), raw(), layout, space)
        .prop_map(|(dtype, shape, vals, raw, layout, space)| {
            let mut v = FromArray { dtype: dtype.into(), shape, vals, raw, layout: layout.into(), space };
            // let the colour space fit more often
            if let (Some(s), Some(4 | 3)) = (v.space.clone(), v.shape.get(2)) {
                if v.raw[0] % 4 > 0 && v.shape[2] == 3 && s.ends_with('a') {
                    v.space = Some(s.trim_end_matches('a').to_string());
                }
            }
            if v.valid().is_none() && (v.shape.len() == 2 || v.shape.get(2) == Some(&1)) && v.raw[0] % 4 > 0 {
                v.space = Some("gray".into());
            }
            v
        })
        .boxed()
}

fn from_array_case(v: &FromArray, c: &mut Case) -> Res {
    let what = format!("from_np_array of {:?} {} ({} layout) as {:?}", v.shape, v.dtype, v.layout, v.space);
    let steps = vec![json!({"on": "d10.Image", "m": "from_np_array", "a": [v.arg(), v.space], "to": "i"})];
    let r = run(json!({}), steps, &[])?;
    let a = &r.steps[0];
    if let Err(e) = &a.res {
        ensure!(e.exception, "panic", "{what}: {} ({})", e.name, e.msg);
    }
    let Some((space, n, h, w)) = v.valid() else {
        return raises(a, &what);
    };
    if (h == 0) != (w == 0) || v.layout == "list" {
        return raises(a, &what);
    }
    let optional = h == 0 || ["bigendian", "unaligned"].contains(&v.layout.as_str()) || !TYPES.contains(&v.dtype.as_str());
    let got = match &a.res {
        Err(_) if optional => return Ok(()),
        Ok(Val::Img(i)) => i,
        o => return fail("from-array", format!("{what}: {o:?}")),
    };
    if !TYPES.contains(&v.dtype.as_str()) {
        // not documented which values these types have
        ensure!((got.h as usize, got.w as usize) == (h, w), "shape", "{what}: {}x{}", got.w, got.h);
        return Ok(());
    }
    let e = v.elems();
    let data = e
        .chunks(n)
        .map(|p| pixel(&[p[0].1, p.get(1).map_or(0.0, |e| e.1), p.get(2).map_or(0.0, |e| e.1), p.get(3).map_or(1.0, |e| e.1)], space))
        .collect::<Vec<_>>();
    let want = Img { w: w as u32, h: h as u32, data };
    near_img(got, &want).map_err(|m| Fail { sig: "value".into(), msg: format!("{what}: {m}") })?;
    c.hit_if(want.distinct() > 1 && (v.layout != "c" || space != "rgb" || v.dtype != "float32"));
    c.label(&v.dtype);
    c.label(&v.layout);
    c.label(space);
    Ok(())
}

/// Arrays of a type that become an image and an array again
fn round(side: std::ops::Range<usize>) -> BoxedStrategy<(FromArray, usize)> {
    let space = prop::sample::select(vec!["rgb", "rgba", "srgb", "srgba", "gray"]);
    (side.clone(), side, 0usize..6, raw(), prop::collection::vec(gen::unit(), 1..64), space, 0usize..3)
        .prop_map(|(h, w, t, raw, vals, space, style)| {
            let depth = if space == "gray" { 1 } else if space.ends_with('a') { 4 } else { 3 };
            let shape = vec![h, w, depth];
            (FromArray { dtype: TYPES[t].into(), shape, vals, raw, layout: "c".into(), space: Some(space.into()) }, style)
        })
        .boxed()
}

fn round_case(v: &(FromArray, usize), c: &mut Case) -> Res {
    let (a, style) = v;
    let t = TYPES.iter().position(|t| *t == a.dtype).unwrap();
    let (dtype, arg) = type_arg(t, *style);
    let steps = vec![
        json!({"on": "d10.Image", "m": "from_np_array", "a": [a.arg(), a.space], "to": "i"}),
        json!({"on": "i", "m": "to_np_array", "a": [a.space, arg]}),
    ];
    let r = run(json!({}), steps, &[])?;
    let what = format!("{:?} {dtype} as {:?}", a.shape, a.space);
    let bytes = match &r.steps[1].res {
        Ok(Val::Arr { shape, bytes, .. }) if *shape == a.shape => bytes,
        o => return fail("round-trip", format!("{what}: {:?} then {o:?}", r.steps[0].res)),
    };
    let (_, size, _) = code(dtype);
    for (i, (b, _)) in a.elems().iter().enumerate() {
        let (was, is) = (number(dtype, b), number(dtype, &bytes[i * size..][..size]));
        let tol = match dtype {
            "float32" | "float64" => 2e-6,
            "uint32" => 1e4,
            _ => 0.0,
        };
        ensure!((was - is).abs() <= tol, "round-trip", "{what}: element {i} was {was} and is {is} after the round trip");
    }
    c.hit_if(a.raw.len() > 1);
    c.label(format!("{dtype} {}", a.space.as_deref().unwrap_or("")));
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        sub("to-array", 6000, 60000, || to_array(gen::img(7)), to_array_case),
        sub("from-array", 12000, 120000, || from_array(shape()), from_array_case),
        sub("round-trip", 6000, 60000, || round(1..6), round_case),
        sub("large-to-array", 100, 2000, || to_array(gen::big(9_000)), to_array_case),
        sub("large-from-array", 150, 3000, || from_array(large_shape()), from_array_case),
        sub("large-round-trip", 100, 2000, || round(20..120), round_case),
    ]
}
