//! C04 text forms, equality, accessors and option names
use crate::props::{kind_name, Make, KINDS};
use crate::with_kind;
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::{Color, Hsl, Hsv, Lab, Lch, Rgb, Srgb, Xyz, Yuv};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use proptest::prelude::*;
use std::str::FromStr;

fn wide() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => unit(),
        2 => (-40000i32..=40000).prop_map(|v| v as f32 / 10000.0),
        1 => (-40000i32..=40000).prop_map(|v| v as f32 / 80000.0),
        1 => prop::sample::select(vec![0.00005f32, 0.00004999, -0.00005, 1e-6, -1e-6, 100.0, -25.5, 0.99995, 0.99994, 1234.5, 3.14159]),
    ]
    .boxed()
}

fn alpha_wide() -> BoxedStrategy<f32> {
    prop_oneof![
        3 => alpha(),
        1 => (0u32..100).prop_map(|v| 1.0 - v as f32 * 1e-6),
    ]
    .boxed()
}

/// Check the text against the components, without using the library
fn check_text(kind: usize, d: [f32; 4], text: &str) -> Res {
    let transparency = (1.0 - d[3]).abs();
    let mut want_alpha = transparency > 1.0 / 32768.0;
    let name = kind_name(kind);
    let Some(rest) = text.strip_prefix(name.as_str()) else {
        return fail("name", format!("{text} does not start with {name}"));
    };
    if (transparency - 1.0 / 32768.0).abs() < 1e-7 {
        want_alpha = rest.starts_with('a');
    }
    let rest = if want_alpha { rest.strip_prefix('a') } else { Some(rest) };
    let inner = rest.and_then(|r| r.strip_prefix('(')).and_then(|r| r.strip_suffix(')'));
    let Some(inner) = inner else {
        return fail("form", format!("{text} for {d:?} has not the form name(..)"));
    };
    let parts: Vec<&str> = inner.split(", ").collect();
    let n = if want_alpha { 4 } else { 3 };
    ensure!(parts.len() == n, "count", "{} for {:?} should have {} components", text, d, n);
    for (i, p) in parts.iter().enumerate() {
        let digits = p.strip_prefix('-').unwrap_or(p);
        let (a, b) = match digits.split_once('.') {
            Some(v) => v,
            None => return fail("decimals", format!("component {p} of {text} has no decimals")),
        };
        ensure!(!a.is_empty() && a.bytes().all(|c| c.is_ascii_digit()), "digits", "component {} of {}", p, text);
        ensure!(!b.is_empty() && b.len() <= 4 && b.bytes().all(|c| c.is_ascii_digit()), "digits", "component {} of {}", p, text);
        let v: f64 = p.parse().unwrap();
        let tol = 0.00005 + 2e-7 * d[i].abs() as f64 + 1e-8;
        ensure!((v - d[i] as f64).abs() <= tol, "value", "component {} of {} stands for {}", p, text, d[i]);
    }
    Ok(())
}

fn text_of(kind: usize, d: [f32; 4]) -> String {
    with_kind!(kind, T, T::make(d).to_string())
}

fn eq_of(kind: usize, a: [f32; 4], b: [f32; 4]) -> (bool, bool, bool) {
    with_kind!(kind, T, (T::make(a) == T::make(b), T::make(b) == T::make(a), T::make(a) != T::make(b)))
}

macro_rules! accessors {
    ($t:ident, $d:expr, $v:expr; $(($i:expr, $get:ident, $set:ident, $with:ident)),*) => {{
        $(
            let c: $t = Make::make($d);
            let mut want = $d;
            ensure!(c.$get() == $d[$i], "get", "{}.{}() of {:?} is {}", stringify!($t), stringify!($get), $d, c.$get());
            want[$i] = $v;
            let mut s = c;
            s.$set($v);
            ensure!(s.get() == want, "set", "{}.{}({}) on {:?} gives {:?}", stringify!($t), stringify!($set), $v, $d, s.get());
            let w = c.$with($v);
            ensure!(w.get() == want, "with", "{}.{}({}) on {:?} gives {:?}", stringify!($t), stringify!($with), $v, $d, w.get());
            ensure!(c.get() == $d, "with-pure", "{} changed its receiver", stringify!($with));
        )*
    }};
}

fn check_accessors(kind: usize, d: [f32; 4], v: f32) -> Res {
    with_kind!(kind, T, {
        let c = T::make(d);
        ensure!(c.data() == &d[..], "data", "data() of {:?} is {:?}", d, c.data());
        ensure!(c.alpha() == d[3], "alpha", "alpha() of {:?}", d);
        let mut want = d;
        want[3] = v;
        let mut s = c;
        s.set_alpha(v);
        ensure!(s.get() == want && c.with_alpha(v).get() == want, "set-alpha", "{} {:?} with alpha {}: {:?} {:?}", kind_name(kind), d, v, s.get(), c.with_alpha(v).get());
        let mut m = c;
        m.data_mut()[2] = v;
        let mut want = d;
        want[2] = v;
        ensure!(m.get() == want, "data-mut", "data_mut of {}", kind_name(kind));
        ensure!(c.type_name() == kind_name(kind), "type-name", "{} is called {}", kind_name(kind), c.type_name());
        let def = T::default();
        ensure!(def.get() == [0.0; 4], "default", "default of {} is {:?}", kind_name(kind), def.get());
        // channel maps leave alpha alone, visit the channels in order and stop at the first error
        let mut seen = vec![];
        let mapped = c.map_color_channels(|x| {
            seen.push(x);
            x * 0.5 + 0.125
        });
        ensure!(seen == d[..3], "map-order", "{} channels visited: {:?}", kind_name(kind), seen);
        for i in 0..3 {
            let w = d[i] * 0.5 + 0.125;
            let w = if kind < 2 { w.clamp(0.0, 1.0) } else { w };
            ensure!((mapped.get()[i] - w).abs() <= 1e-6 * (1.0 + w.abs()), "map", "map of {} {:?}: {:?}", kind_name(kind), d, mapped.get());
        }
        let al = if kind < 2 { d[3].clamp(0.0, 1.0) } else { d[3] };
        ensure!(mapped.get()[3] == al, "map-alpha", "map of {} {:?} changes alpha: {:?}", kind_name(kind), d, mapped.get());
        for stop in 0..3 {
            let mut n = 0;
            let r = c.try_map_color_channels(|x| {
                n += 1;
                if n == stop + 1 { Err(stop) } else { Ok(x) }
            });
            ensure!(r == Err(stop) && n == stop + 1, "try-map", "error {} at channel {} becomes {:?}", stop, n, r);
        }
    });
    match kind {
        0 => accessors!(Rgb, d, v; (0, red, set_red, with_red), (1, green, set_green, with_green), (2, blue, set_blue, with_blue)),
        1 => accessors!(Srgb, d, v; (0, red, set_red, with_red), (1, green, set_green, with_green), (2, blue, set_blue, with_blue)),
        2 => accessors!(Hsl, d, v; (0, hue, set_hue, with_hue), (1, saturation, set_saturation, with_saturation), (2, lightness, set_lightness, with_lightness)),
        3 => accessors!(Hsv, d, v; (0, hue, set_hue, with_hue), (1, saturation, set_saturation, with_saturation), (2, value, set_value, with_value)),
        4 => accessors!(Yuv, d, v; (0, y, set_y, with_y), (1, u, set_u, with_u), (2, v, set_v, with_v)),
        5 => accessors!(Xyz, d, v; (0, x, set_x, with_x), (1, y, set_y, with_y), (2, z, set_z, with_z)),
        6..=11 => with_kind!(kind, T, lab_acc::<T>(kind, d, v)?),
        _ => with_kind!(kind, T, lab_acc::<T>(kind, d, v)?),
    }
    // constructors
    let clampd = d.map(|x| x.clamp(0.0, 1.0));
    let with1 = |mut d: [f32; 4]| {
        d[3] = 1.0;
        d
    };
    macro_rules! ctor {
        ($t:ty, $want:expr) => {{
            let want = $want;
            let a = <$t>::new_with_alpha(d[0], d[1], d[2], d[3]).get();
            ensure!(a == want, "constructor", "{}::new_with_alpha{:?} is {:?}", stringify!($t), d, a);
            let b = <$t>::new(d[0], d[1], d[2]).get();
            ensure!(b == with1(want), "constructor", "{}::new{:?} is {:?}", stringify!($t), d, b);
        }};
        ($t:ty, $want:expr, func) => {{
            ctor!($t, $want);
            let c = <$t>::new_from_fn(|i| d[i]).get();
            ensure!(c == $want, "constructor", "{}::new_from_fn{:?} is {:?}", stringify!($t), d, c);
        }};
    }
    match kind {
        0 => ctor!(Rgb, clampd),
        1 => ctor!(Srgb, clampd, func),
        2 => ctor!(Hsl, d, func),
        3 => ctor!(Hsv, d, func),
        4 => ctor!(Yuv, d, func),
        5 => ctor!(Xyz, d, func),
        6 => ctor!(Lab<D50, O2>, d, func),
        7 => ctor!(Lab<D50, O10>, d, func),
        8 => ctor!(Lab<D65, O2>, d, func),
        9 => ctor!(Lab<D65, O10>, d, func),
        10 => ctor!(Lab<E, O2>, d, func),
        11 => ctor!(Lab<E, O10>, d, func),
        12 => ctor!(Lch<D50, O2>, d, func),
        13 => ctor!(Lch<D50, O10>, d, func),
        14 => ctor!(Lch<D65, O2>, d, func),
        15 => ctor!(Lch<D65, O10>, d, func),
        16 => ctor!(Lch<E, O2>, d, func),
        _ => ctor!(Lch<E, O10>, d, func),
    }
    Ok(())
}

trait LabAcc: Make {
    fn run(d: [f32; 4], v: f32) -> Res;
}
impl<I: d10::Illuminant, O: d10::Observer> LabAcc for Lab<I, O> {
    fn run(d: [f32; 4], v: f32) -> Res {
        type T<I, O> = Lab<I, O>;
        let c: T<I, O> = Make::make(d);
        ensure!([c.l(), c.a(), c.b()] == d[..3], "get", "lab getters of {:?}", d);
        for i in 0..3 {
            let mut w = d;
            w[i] = v;
            let mut s = c;
            match i { 0 => s.set_l(v), 1 => s.set_a(v), _ => s.set_b(v) }
            let t = match i { 0 => c.with_l(v), 1 => c.with_a(v), _ => c.with_b(v) };
            ensure!(s.get() == w && t.get() == w, "set", "lab component {} of {:?} set to {}: {:?} {:?}", i, d, v, s.get(), t.get());
        }
        Ok(())
    }
}
impl<I: d10::Illuminant, O: d10::Observer> LabAcc for Lch<I, O> {
    fn run(d: [f32; 4], v: f32) -> Res {
        let c: Lch<I, O> = Make::make(d);
        ensure!([c.l(), c.c(), c.h()] == d[..3], "get", "lch getters of {:?}", d);
        for i in 0..3 {
            let mut w = d;
            w[i] = v;
            let mut s = c;
            match i { 0 => s.set_l(v), 1 => s.set_c(v), _ => s.set_h(v) }
            let t = match i { 0 => c.with_l(v), 1 => c.with_c(v), _ => c.with_h(v) };
            ensure!(s.get() == w && t.get() == w, "set", "lch component {} of {:?} set to {}: {:?} {:?}", i, d, v, s.get(), t.get());
        }
        Ok(())
    }
}
macro_rules! no_lab { ($($t:ident),*) => { $( impl LabAcc for $t { fn run(_: [f32; 4], _: f32) -> Res { Ok(()) } } )* } }
no_lab!(Rgb, Srgb, Hsl, Hsv, Yuv, Xyz);
fn lab_acc<T: LabAcc>(_k: usize, d: [f32; 4], v: f32) -> Res {
    T::run(d, v)
}

/// (type, name, Debug form of the option it stands for)
const NAMES: &[(&str, &str, &str)] = &[
    ("Intensity", "average", "Average"), ("Intensity", "rec601luma", "Rec601Luma"), ("Intensity", "rec709luma", "Rec709Luma"),
    ("Intensity", "default", "Rec709Luma"), ("Intensity", "brightness", "Brightness"), ("Intensity", "lightness", "Lightness"),
    ("Intensity", "saturation", "Saturation"), ("Intensity", "red", "Red"), ("Intensity", "green", "Green"), ("Intensity", "blue", "Blue"),
    ("FilterMode", "nearest", "Nearest"), ("FilterMode", "bilinear", "Bilinear"), ("FilterMode", "bicubic", "Bicubic"),
    ("FilterMode", "lanczos3", "Lanczos3"), ("FilterMode", "default", "Auto"), ("FilterMode", "auto", "Auto"),
    ("BlendOp", "normal", "Normal"), ("BlendOp", "addition", "Addition"), ("BlendOp", "subtract", "Subtract"), ("BlendOp", "darken", "Darken"),
    ("BlendOp", "lighten", "Lighten"), ("BlendOp", "hsl_darken", "HslDarken"), ("BlendOp", "hsl_lighten", "HslLighten"),
    ("BlendOp", "lch_darken", "LchDarken"), ("BlendOp", "lch_lighten", "LchLighten"), ("BlendOp", "lch_hue", "LchHue"),
    ("BlendOp", "lch_saturation", "LchSaturation"), ("BlendOp", "lch_color", "LchColor"),
    ("EqualizeMode", "rgb", "Rgb"), ("EqualizeMode", "srgb", "Srgb"), ("EqualizeMode", "saturation", "Saturation"),
    ("EqualizeMode", "lightness", "Lightness"), ("EqualizeMode", "saturation_lightness", "SaturationLightness"),
    ("DrawingMode", "gray", "Gray"), ("DrawingMode", "colored", "Colored"), ("DrawingMode", "default", "Colored"), ("DrawingMode", "reduced_colors", "ReducedColors"),
    ("BalanceMode", "rgb", "Rgb"), ("BalanceMode", "srgb", "Srgb"), ("BalanceMode", "hsv", "Hsv"), ("BalanceMode", "hsl", "Hsl"), ("BalanceMode", "lch", "Lch"),
    ("SaturationMode", "hsl", "Hsl"), ("SaturationMode", "default", "Hsl"), ("SaturationMode", "hsv", "Hsv"), ("SaturationMode", "lch", "Lch"),
    ("EdgeDetection", "sobel", "Sobel"), ("EdgeDetection", "default", "Sobel"), ("EdgeDetection", "laplace", "Laplace"),
    ("PngColorType", "l8", "L8"), ("PngColorType", "la8", "La8"), ("PngColorType", "l16", "L16"), ("PngColorType", "la16", "La16"),
    ("PngColorType", "rgb8", "Rgb8"), ("PngColorType", "rgba8", "Rgba8"), ("PngColorType", "rgb16", "Rgb16"), ("PngColorType", "rgba16", "Rgba16"),
    ("PngFilterType", "no_filter", "NoFilter"), ("PngFilterType", "sub", "Sub"), ("PngFilterType", "up", "Up"), ("PngFilterType", "avg", "Avg"), ("PngFilterType", "paeth", "Paeth"),
    ("PngCompression", "default", "Default"), ("PngCompression", "fast", "Fast"), ("PngCompression", "best", "Best"),
    ("WebPPreset", "default", "Default"), ("WebPPreset", "picture", "Picture"), ("WebPPreset", "photo", "Photo"), ("WebPPreset", "drawing", "Drawing"),
    ("WebPPreset", "icon", "Icon"), ("WebPPreset", "text", "Text"), ("WebPPreset", "lossless", "Lossless"),
    ("JpegSamplingFactor", "1x1", "F_1_1"), ("JpegSamplingFactor", "1x2", "F_1_2"), ("JpegSamplingFactor", "2x1", "F_2_1"), ("JpegSamplingFactor", "2x2", "F_2_2"),
    ("JpegSamplingFactor", "4x1", "F_4_1"), ("JpegSamplingFactor", "4x2", "F_4_2"), ("JpegSamplingFactor", "1x4", "F_1_4"), ("JpegSamplingFactor", "2x4", "F_2_4"),
    ("JpegSamplingFactor", "4:4:4", "R_4_4_4"), ("JpegSamplingFactor", "4:4:0", "R_4_4_0"), ("JpegSamplingFactor", "4:4:1", "R_4_4_1"), ("JpegSamplingFactor", "4:2:2", "R_4_2_2"),
    ("JpegSamplingFactor", "4:2:0", "R_4_2_0"), ("JpegSamplingFactor", "4:2:1", "R_4_2_1"), ("JpegSamplingFactor", "4:1:1", "R_4_1_1"), ("JpegSamplingFactor", "4:1:0", "R_4_1_0"),
    ("BmpColorType", "l8", "L8"), ("BmpColorType", "la8", "La8"), ("BmpColorType", "rgb8", "Rgb8"), ("BmpColorType", "rgba8", "Rgba8"),
    ("IcoColorType", "l8", "L8"), ("IcoColorType", "la8", "La8"), ("IcoColorType", "rgb8", "Rgb8"), ("IcoColorType", "rgba8", "Rgba8"),
];

const TYPES: [&str; 14] = [
    "Intensity", "FilterMode", "BlendOp", "EqualizeMode", "DrawingMode", "BalanceMode", "SaturationMode", "EdgeDetection",
    "PngColorType", "PngFilterType", "PngCompression", "WebPPreset", "JpegSamplingFactor", "BmpColorType",
];

fn parse(ty: &str, s: &str) -> Result<String, (String, String)> {
    fn p<T: FromStr<Err = d10::ParseEnumError> + std::fmt::Debug>(s: &str) -> Result<String, (String, String)> {
        T::from_str(s).map(|v| format!("{v:?}")).map_err(|e| (e.input.clone(), e.to_string()))
    }
    match ty {
        "Intensity" => p::<d10::Intensity>(s),
        "FilterMode" => p::<d10::FilterMode>(s),
        "BlendOp" => p::<d10::ops::BlendOp>(s),
        "EqualizeMode" => p::<d10::EqualizeMode>(s),
        "DrawingMode" => p::<d10::ops::DrawingMode>(s),
        "BalanceMode" => p::<d10::ops::BalanceMode>(s),
        "SaturationMode" => p::<d10::ops::SaturationMode>(s),
        "EdgeDetection" => p::<d10::EdgeDetection>(s),
        "PngColorType" => p::<d10::PngColorType>(s),
        "PngFilterType" => p::<d10::PngFilterType>(s),
        "PngCompression" => p::<d10::PngCompression>(s),
        "WebPPreset" => p::<d10::WebPPreset>(s),
        "JpegSamplingFactor" => p::<d10::JpegSamplingFactor>(s),
        "BmpColorType" => p::<d10::BmpColorType>(s),
        _ => p::<d10::IcoColorType>(s),
    }
}

pub fn c04() -> Property {
    let text = sub(
        "text",
        400_000,
        8_000_000,
        || (0..KINDS, wide(), wide(), wide(), alpha_wide()),
        |(k, a, b, g, al): &(usize, f32, f32, f32, f32), c| {
            let mut d = [*a, *b, *g, *al];
            if *k < 2 {
                d = d.map(|v| v.clamp(0.0, 1.0));
            }
            c.hit_if(d[0] != d[1] && d[1] != d[2]);
            c.label_if(d[3] < 1.0, "transparent");
            c.label(kind_name(*k));
            check_text(*k, d, &text_of(*k, d))
        },
    );
    let equality = sub(
        "equality",
        400_000,
        8_000_000,
        || (0..KINDS, px(), 0..4usize, -1000i32..=1000, 0..3usize),
        |(k, p, i, delta, scale): &(usize, Px, usize, i32, usize), c| {
            let mut q = *p;
            let step = [1e-7f32, 1e-6, 1e-3][*scale];
            q[*i] = p[*i] + *delta as f32 * step;
            let diff = (q[*i] as f64 - p[*i] as f64).abs();
            if (diff - EPS).abs() < 1e-8 {
                return Ok(());
            }
            c.hit_if(diff > 0.0);
            c.label(if diff < EPS { "within" } else { "beyond" });
            let want = diff < EPS;
            let got = eq_of(*k, *p, q);
            ensure!(got == (want, want, !want), "equality", "{} {:?} == {:?} is {:?}", kind_name(*k), p, q, got);
            ensure!(eq_of(*k, *p, *p) == (true, true, false), "reflexive", "{:?}", p);
            let t = Rgb { data: *p }.has_transparency();
            let far = ((1.0 - p[3] as f64).abs() - EPS).abs() > 1e-7;
            ensure!(!far || t == ((1.0 - p[3] as f64).abs() > EPS), "transparency", "{:?}: {}", p, t);
            let g = Rgb { data: *p }.is_grayscale();
            let (d1, d2) = ((p[0] as f64 - p[1] as f64).abs(), (p[1] as f64 - p[2] as f64).abs());
            if (d1 - EPS).abs() > 1e-7 && (d2 - EPS).abs() > 1e-7 {
                ensure!(g == (d1 < EPS && d2 < EPS), "grayscale", "{:?}: {}", p, g);
            }
            let (mx, mn) = (p[0].max(p[1]).max(p[2]), p[0].min(p[1]).min(p[2]));
            let r = Rgb { data: *p };
            ensure!(r.max() == mx && r.min() == mn, "minmax", "{:?}: {} {}", p, r.max(), r.min());
            Ok(())
        },
    );
    let access = sub(
        "access",
        200_000,
        4_000_000,
        || (0..KINDS, wide(), wide(), wide(), wide(), wide()),
        |(k, a, b, g, al, v): &(usize, f32, f32, f32, f32, f32), c| {
            c.hit_if(a != b && b != g && g != al);
            check_accessors(*k, [*a, *b, *g, *al], *v)
        },
    );
    let names = sub("names", NAMES.len() as u32 * 40, NAMES.len() as u32 * 400, || 0..NAMES.len(), |i: &usize, c| {
        let (ty, name, want) = NAMES[*i];
        c.hit();
        let got = parse(ty, name);
        ensure!(got.as_deref() == Ok(want), "name", "{} {:?} is parsed as {:?}", ty, name, got);
        Ok(())
    });
    let unknown = sub(
        "unknown-names",
        60_000,
        1_000_000,
        || {
            let known = (0..NAMES.len()).prop_map(|i| NAMES[i].1.to_string());
            let s = prop_oneof![
                3 => known.clone(),
                2 => (known.clone(), any::<prop::sample::Index>(), "[ -~]").prop_map(|(s, i, c)| {
                    let mut v: Vec<char> = s.chars().collect();
                    let k = i.index(v.len() + 1);
                    v.splice(k..k, c.chars());
                    v.into_iter().collect()
                }),
                2 => (known, any::<prop::sample::Index>()).prop_map(|(s, i)| {
                    let mut v: Vec<char> = s.chars().collect();
                    v.remove(i.index(v.len()));
                    v.into_iter().collect()
                }),
                2 => "\\PC{0,12}",
                1 => Just(String::new()),
            ];
            (0..=TYPES.len(), s)
        },
        |(t, s): &(usize, String), c| {
            let ty = TYPES.get(*t).copied().unwrap_or("IcoColorType");
            let lower = s.to_lowercase();
            let entry = NAMES.iter().find(|n| n.0 == ty && n.1 == s);
            // spelling variants of known names are not specified
            if entry.is_none() && NAMES.iter().any(|n| n.0 == ty && n.1.eq_ignore_ascii_case(s.trim())) {
                return Ok(());
            }
            if entry.is_none() && ty == "FilterMode" && lower.trim() == "lanczos" {
                return Ok(());
            }
            c.hit_if(entry.is_none());
            match (parse(ty, s), entry) {
                (Ok(v), Some(e)) => ensure!(v == e.2, "name", "{} {:?} is parsed as {}", ty, s, v),
                (Ok(v), None) => return fail("unknown", format!("{ty} {s:?} is parsed as {v}")),
                (Err(_), Some(_)) => return fail("name", format!("{ty} {s:?} is rejected")),
                (Err((input, text)), None) => {
                    ensure!(input == *s, "error", "rejecting {:?} reports {:?}", s, input);
                    ensure!(text.contains(s.as_str()), "error", "message {:?} does not name {:?}", text, s);
                }
            }
            Ok(())
        },
    );
    Property {
        id: "C04",
        level: "exploration",
        rule: "generated components for all 18 colour spaces printed and read back with an independent parser, pairs of colours around the equality tolerance, every accessor and constructor against an array model, every option name (enumerated) and generated unknown names; non-trivial: distinct components, a real difference, an unknown name",
        assumptions: vec!["upper/lower case variants and surrounding space of option names are not specified"],
        subs: vec![text, equality, access, names, unknown],
    }
}
