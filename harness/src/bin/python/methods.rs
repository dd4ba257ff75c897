//! Methods of the image class against the library
use crate::arrays::raises;
use crate::py::*;
use d10::ops::{BalanceMode, EdgeDetection, SaturationMode};
use d10::{EqualizeMode, FilterMode, Image, Rgb};
use d10_verif::engine::{fail, no_panic, sub, Case, Fail, Res, Sub};
use d10_verif::ensure;
use d10_verif::gen::{self, Img, Px};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum A {
    No,
    I(i64),
    F(u32),
    B(bool),
    S(String),
    Px(Px),
    Img(u8),
}

#[derive(Clone, Copy, Debug)]
pub enum K {
    /// whole number below a limit, rarely outside of the type
    U(u32),
    U8,
    I32,
    /// offset or size for cropping
    Off,
    Size,
    Unit,
    Factor,
    Radians,
    Pct,
    Kelvin,
    /// also zero and negative
    Sigma,
    Bool,
    Str(&'static [&'static str]),
    Img,
    Px,
}

pub struct M {
    pub name: &'static str,
    /// name, kind, optional
    pub params: &'static [(&'static str, K, bool)],
}

const FILTERS: &[&str] = &["nearest", "bilinear", "bicubic", "lanczos3", "Lanczos", "default", "auto"];
const BLENDS: &[&str] = &[
    "normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "hsl_lighten", "lch_darken", "lch_lighten",
    "lch_hue", "lch_saturation", "lch_color",
];

pub const METHODS: &[M] = &[
    M { name: "rotate", params: &[("radians", K::Radians, false), ("filter", K::Str(FILTERS), true)] },
    M { name: "resize", params: &[("new_width", K::Size, false), ("new_height", K::Size, false), ("filter", K::Str(FILTERS), true)] },
    M { name: "resize_pct", params: &[("pct_100", K::Pct, false), ("filter", K::Str(FILTERS), true)] },
    M { name: "edge_detection", params: &[("mode", K::Str(&["sobel", "laplace", "default"]), true)] },
    M { name: "with_jpeg_quality", params: &[("quality", K::U8, false), ("preserve_alpha", K::Bool, true)] },
    M { name: "gaussian_blur", params: &[("radius", K::U(6), false), ("sigma", K::Sigma, true)] },
    M { name: "unsharp", params: &[("radius", K::U(5), false), ("factor", K::Factor, true), ("sigma", K::Sigma, true)] },
    M { name: "drawing", params: &[("radius", K::U(5), false), ("mode", K::Str(&["gray", "colored", "reduced_colors", "default"]), true)] },
    M { name: "interlace", params: &[("offset", K::Off, false)] },
    M { name: "apply_palette", params: &[("palette", K::Img, false)] },
    M { name: "apply_palette_in_place", params: &[("palette", K::Img, false)] },
    M { name: "despeckle", params: &[("threshold", K::Unit, true), ("amount", K::U8, true)] },
    M { name: "symmetric_nearest_neighbor", params: &[("radius", K::U(6), true), ("with_center", K::Bool, true)] },
    M { name: "blend", params: &[("image", K::Img, false), ("blend_op", K::Str(BLENDS), true), ("intensity", K::Unit, true)] },
    M { name: "stretch_contrast", params: &[("threshold", K::Unit, true)] },
    M { name: "optimize_saturation", params: &[("offset", K::Factor, true), ("mode", K::Str(&["hsl", "hsv", "lch", "default"]), true)] },
    M { name: "change_color_temperature", params: &[("orig_temp", K::Kelvin, false), ("new_temp", K::Kelvin, false), ("tint_correction", K::Unit, true)] },
    M { name: "optimize_color_temperature", params: &[("factor", K::Unit, false), ("tint_correction", K::Unit, true)] },
    M { name: "optimize_lightness", params: &[("factor", K::Unit, false)] },
    M { name: "white_balance", params: &[("threshold", K::Unit, true)] },
    M { name: "balance", params: &[("mode", K::Str(&["rgb", "srgb", "hsv", "hsl", "lch"]), true), ("threshold", K::Unit, true)] },
    M { name: "equalize", params: &[("mode", K::Str(&["rgb", "srgb", "saturation", "lightness", "saturation_lightness"]), true)] },
    M { name: "crop", params: &[("offset_x", K::Off, false), ("offset_y", K::Off, false), ("width", K::Size, false), ("height", K::Size, false)] },
    M { name: "flip_horizontal", params: &[] },
    M { name: "flip_vertical", params: &[] },
    M { name: "rotate90", params: &[] },
    M { name: "rotate180", params: &[] },
    M { name: "rotate270", params: &[] },
    M { name: "get_pixel", params: &[("x", K::I32, false), ("y", K::I32, false)] },
    M { name: "get_pixel_clamped", params: &[("x", K::I32, false), ("y", K::I32, false)] },
    M { name: "put_pixel", params: &[("x", K::Off, false), ("y", K::Off, false), ("color", K::Px, false)] },
    M { name: "is_in_image", params: &[("x", K::I32, false), ("y", K::I32, false)] },
    M { name: "has_transparency", params: &[] },
    M { name: "is_grayscale", params: &[] },
    M { name: "to_list", params: &[] },
    M { name: "[]", params: &[("x", K::I32, false), ("y", K::I32, false)] },
    M { name: "[]=", params: &[("x", K::Off, false), ("y", K::Off, false), ("color", K::Px, false)] },
    M { name: "len", params: &[] },
    M { name: "get:width", params: &[] },
    M { name: "get:height", params: &[] },
    M { name: "random_noise", params: &[("alpha", K::Unit, false)] },
    M { name: "add_random_noise", params: &[("alpha", K::Unit, false)] },
    M { name: "gaussian_noise", params: &[("alpha", K::Unit, false)] },
    M { name: "add_gaussian_noise", params: &[("alpha", K::Unit, false)] },
    M { name: "rgb_noise", params: &[("threshold", K::Unit, false)] },
    M { name: "add_rgb_noise", params: &[("threshold", K::Unit, false)] },
    M { name: "salt_n_pepper_noise", params: &[("threshold", K::Unit, false)] },
    M { name: "add_salt_n_pepper_noise", params: &[("threshold", K::Unit, false)] },
    M { name: "new", params: &[("width", K::Size, false), ("height", K::Size, false), ("color", K::Px, true)] },
];

fn ff(s: BoxedStrategy<f32>) -> BoxedStrategy<A> {
    s.prop_map(|v| A::F(v.to_bits())).boxed()
}

fn arg(k: K, optional: bool, odd: bool) -> BoxedStrategy<A> {
    // whole numbers outside of their types
    let out = prop::sample::select(vec![-1i64, 256, 1 << 31, 1 << 32, -(1 << 31) - 1, i64::MAX, i64::MIN]).prop_map(A::I).boxed();
    let with_odd = move |s: BoxedStrategy<A>| if odd { prop_oneof![15 => s, 1 => out].boxed() } else { s };
    let s = match k {
        K::U(n) if odd => prop_oneof![
            15 => (0..=n as i64).prop_map(A::I),
            1 => prop::sample::select(vec![-1i64, i64::MIN]).prop_map(A::I)
        ]
        .boxed(),
        K::U(n) => (0..=n as i64).prop_map(A::I).boxed(),
        K::U8 => with_odd(prop_oneof![2 => 0i64..256, 1 => 0i64..6].prop_map(A::I).boxed()),
        K::I32 => with_odd(prop_oneof![3 => 0i64..7, 1 => -3i64..12].prop_map(A::I).boxed()),
        K::Off => with_odd(prop_oneof![6 => 0i64..7, 1 => 0i64..20].prop_map(A::I).boxed()),
        K::Size if odd => prop_oneof![
            16 => (1i64..14).prop_map(A::I),
            1 => prop::sample::select(vec![0i64, -1, 1 << 32, i64::MAX, 0xffff_ffff, 0x8000_0000]).prop_map(A::I)
        ]
        .boxed(),
        K::Size => (1i64..14).prop_map(A::I).boxed(),
        K::Unit => prop_oneof![8 => ff(gen::unit()), 1 => ff((-2f32..3.0).boxed())].boxed(),
        K::Factor => ff(gen::factor()),
        K::Sigma => ff(prop_oneof![4 => gen::positive(), 1 => prop::sample::select(vec![0.0f32, -1.5, -0.4, 1e-20])].boxed()),
        K::Radians => ff(prop_oneof![
            3 => (-700i32..700).prop_map(|v| v as f32 / 100.0),
            1 => prop::sample::select(vec![0.0f32, std::f32::consts::FRAC_PI_2, std::f32::consts::PI, -std::f32::consts::FRAC_PI_4]),
        ].boxed()),
        K::Pct if odd => ff(prop_oneof![
            16 => (1i32..260).prop_map(|v| v as f32 / 100.0),
            1 => prop::sample::select(vec![0.0f32, -1.0, f32::NAN, f32::INFINITY, 1e30, -1e30, 1e-9])
        ].boxed()),
        K::Pct => ff((1i32..260).prop_map(|v| v as f32 / 100.0).boxed()),
        K::Kelvin => ff((1000f32..12000.0).boxed()),
        K::Bool => any::<bool>().prop_map(A::B).boxed(),
        K::Str(l) => {
            let good = prop::sample::select(l.to_vec()).prop_map(|s| A::S(s.to_string())).boxed();
            if odd {
                let bad = prop::sample::select(vec!["", "Rgb", "nearest ", "none", "foo", "\u{fc}"]);
                prop_oneof![14 => good, 1 => bad.prop_map(|s| A::S(s.to_string()))].boxed()
            } else {
                good
            }
        }
        K::Img => (0u8..3).prop_map(A::Img).boxed(),
        K::Px => gen::px().prop_map(A::Px).boxed(),
    };
    if optional {
        prop_oneof![2 => Just(A::No), 3 => s].boxed()
    } else {
        s
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    on: u8,
    to: u8,
    m: String,
    args: Vec<A>,
    kw: bool,
}

pub fn call(odd: bool) -> BoxedStrategy<Call> {
    call_of(odd, |_| true)
}

fn call_of(odd: bool, which: fn(&M) -> bool) -> BoxedStrategy<Call> {
    let all: Vec<usize> = (0..METHODS.len()).filter(|i| which(&METHODS[*i])).collect();
    (prop::sample::select(all), 0u8..3, 0u8..3, any::<bool>())
        .prop_flat_map(move |(i, on, to, kw)| {
            let m = &METHODS[i];
            let args: Vec<_> = m.params.iter().map(|(_, k, o)| arg(*k, *o, odd)).collect();
            args.prop_map(move |args| Call { on, to, m: m.name.into(), args, kw })
        })
        .boxed()
}

fn enc(a: &A) -> Value {
    match a {
        A::No => Value::Null,
        A::I(i) => json!(i),
        A::F(b) => json!({ "f": b }),
        A::B(b) => json!(b),
        A::S(s) => json!(s),
        A::Px(p) => rgb(p),
        A::Img(i) => json!({"v": format!("i{i}")}),
    }
}

impl Call {
    fn spec(&self) -> &'static M {
        METHODS.iter().find(|m| m.name == self.m).unwrap()
    }

    pub fn step(&self) -> Value {
        let on = format!("i{}", self.on);
        let args: Vec<Value> = self.args.iter().map(enc).collect();
        match self.m.as_str() {
            "[]" => return json!({"on": on, "m": "[]", "a": [{"t": args}]}),
            "[]=" => return json!({"on": on, "m": "[]=", "a": [{"t": args[..2]}, args[2]]}),
            _ => {}
        }
        let (on, m) = if self.m == "new" { ("d10.Image".to_string(), "()") } else { (on, self.m.as_str()) };
        if self.kw {
            let kw: Map<String, Value> = self
                .spec()
                .params
                .iter()
                .zip(&self.args)
                .filter(|(_, a)| **a != A::No)
                .map(|(p, a)| (p.0.to_string(), enc(a)))
                .collect();
            json!({"on": on, "m": m, "kw": kw})
        } else {
            json!({"on": on, "m": m, "a": args})
        }
    }

    pub fn text(&self) -> String {
        format!("i{}.{}({:?}{})", self.on, self.m, self.args, if self.kw { " by name" } else { "" })
    }
}

/// What a call returns
pub enum Want {
    Val(Val),
    /// A noisy image; in place
    Noise(Noise, f32, bool),
    Raise,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Noise {
    Random,
    Gaussian,
    Rgb,
    SaltPepper,
}

struct Args<'a>(&'a [A]);

impl Args<'_> {
    fn int<T: TryFrom<i64>>(&self, i: usize) -> Result<T, ()> {
        match self.0[i] {
            A::I(v) => T::try_from(v).map_err(|_| ()),
            _ => Err(()),
        }
    }
    fn int_or<T: TryFrom<i64>>(&self, i: usize, d: T) -> Result<T, ()> {
        if self.0[i] == A::No { Ok(d) } else { self.int(i) }
    }
    fn f(&self, i: usize) -> f32 {
        match self.0[i] {
            A::F(b) => f32::from_bits(b),
            _ => unreachable!(),
        }
    }
    fn opt(&self, i: usize) -> Option<f32> {
        (self.0[i] != A::No).then(|| self.f(i))
    }
    fn f_or(&self, i: usize, d: f32) -> f32 {
        self.opt(i).unwrap_or(d)
    }
    fn bool_or(&self, i: usize, d: bool) -> bool {
        match self.0[i] {
            A::B(b) => b,
            _ => d,
        }
    }
    fn name<T: FromStr>(&self, i: usize, d: T) -> Result<T, ()> {
        match &self.0[i] {
            A::S(s) => s.parse().map_err(|_| ()),
            _ => Ok(d),
        }
    }
    fn px(&self, i: usize) -> Option<Rgb> {
        match &self.0[i] {
            A::Px(p) => Some(Rgb { data: *p }),
            _ => None,
        }
    }
}

fn pixel(c: &Rgb) -> Val {
    Val::Col("Rgb".into(), c.data)
}

/// The definition of a call; changes the images like the call does
pub fn define(call: &Call, imgs: &mut [Image; 3]) -> Result<Want, ()> {
    let a = Args(&call.args);
    let me = imgs[call.on as usize].clone();
    let other = |i: usize| match &call.args[i] {
        A::Img(i) => imgs[*i as usize].clone(),
        _ => unreachable!(),
    };
    let image = |i: Image| Want::Val(Val::Img(from_lib(&i)));
    let inside = |x: u32, y: u32| x < me.width() && y < me.height();
    let want = match call.m.as_str() {
        "rotate" => image(me.rotate(a.f(0), a.name(1, FilterMode::Bilinear)?)),
        "resize" => image(me.resize(a.int(0)?, a.int(1)?, a.name(2, FilterMode::Bilinear)?)),
        "resize_pct" => image(me.resize_pct(a.f(0), a.name(1, FilterMode::Bilinear)?)),
        "edge_detection" => image(me.edge_detection(a.name(0, EdgeDetection::Sobel)?)),
        "with_jpeg_quality" => image(me.with_jpeg_quality(a.int(0)?, a.bool_or(1, true))),
        "gaussian_blur" => image(me.gaussian_blur(a.int(0)?, a.opt(1))),
        "unsharp" => image(me.unsharp(a.int(0)?, a.f_or(1, 1.0), a.opt(2))),
        "drawing" => image(me.drawing(a.int(0)?, a.name(1, d10::ops::DrawingMode::Colored)?)),
        "interlace" => image(me.interlace(a.int(0)?)),
        "apply_palette" => image(me.apply_palette(&other(0))),
        "apply_palette_in_place" => {
            if call.args[0] == A::Img(call.on) {
                // an object cannot be changed and read at the same time
                return Ok(Want::Raise);
            }
            let palette = other(0);
            imgs[call.on as usize].apply_palette_in_place(&palette);
            Want::Val(Val::None)
        }
        "despeckle" => image(me.despeckle(a.f_or(0, 0.1), a.int_or(1, 1)?)),
        "symmetric_nearest_neighbor" => {
            let radius: u64 = a.int_or(0, 4)?;
            if radius > 1000 {
                return Err(());
            }
            image(me.symmetric_nearest_neighbor(radius as usize, a.bool_or(1, true)))
        }
        "blend" => image(me.blend(&other(0), a.name(1, d10::ops::BlendOp::Normal)?, a.f_or(2, 1.0))),
        "stretch_contrast" => image(me.stretch_contrast(a.f_or(0, 0.5))),
        "optimize_saturation" => image(me.optimize_saturation(a.f_or(0, 1.0), a.name(1, SaturationMode::Hsl)?)),
        "change_color_temperature" => image(me.change_color_temperature(a.f(0), a.f(1), a.f_or(2, 0.0))),
        "optimize_color_temperature" => image(me.optimize_color_temperature(a.f(0), a.f_or(1, 0.0))),
        "optimize_lightness" => image(me.optimize_lightness(a.f(0))),
        "white_balance" => image(me.white_balance(a.f_or(0, 0.5))),
        "balance" => image(me.balance(a.name(0, BalanceMode::Rgb)?, a.f_or(1, 0.5))),
        "equalize" => image(me.equalize(a.name(0, EqualizeMode::Srgb)?)),
        "crop" => image(me.crop(a.int(0)?, a.int(1)?, a.int(2)?, a.int(3)?)),
        "flip_horizontal" => image(me.flip_horizontal()),
        "flip_vertical" => image(me.flip_vertical()),
        "rotate90" => image(me.rotate90()),
        "rotate180" => image(me.rotate180()),
        "rotate270" => image(me.rotate270()),
        "get_pixel" => Want::Val(me.get_pixel_optional(a.int(0)?, a.int(1)?).map_or(Val::None, pixel)),
        "[]" => match me.get_pixel_optional(a.int(0)?, a.int(1)?) {
            Some(c) => Want::Val(pixel(c)),
            None => Want::Raise,
        },
        "get_pixel_clamped" => Want::Val(pixel(me.get_pixel_clamped(a.int(0)?, a.int(1)?))),
        "put_pixel" | "[]=" => {
            let (x, y) = (a.int(0)?, a.int(1)?);
            if !inside(x, y) {
                return Ok(Want::Raise);
            }
            imgs[call.on as usize].put_pixel(x, y, a.px(2).unwrap());
            Want::Val(Val::None)
        }
        "is_in_image" => Want::Val(Val::Bool(me.is_in_image(a.int(0)?, a.int(1)?))),
        "has_transparency" => Want::Val(Val::Bool(me.has_transparency())),
        "is_grayscale" => Want::Val(Val::Bool(me.is_grayscale())),
        "to_list" => Want::Val(Val::List(me.data().iter().map(pixel).collect())),
        "len" => Want::Val(Val::Int(me.data().len() as i64)),
        "get:width" => Want::Val(Val::Int(me.width() as i64)),
        "get:height" => Want::Val(Val::Int(me.height() as i64)),
        "random_noise" => Want::Noise(Noise::Random, a.f(0), false),
        "add_random_noise" => Want::Noise(Noise::Random, a.f(0), true),
        "gaussian_noise" => Want::Noise(Noise::Gaussian, a.f(0), false),
        "add_gaussian_noise" => Want::Noise(Noise::Gaussian, a.f(0), true),
        "rgb_noise" => Want::Noise(Noise::Rgb, a.f(0), false),
        "add_rgb_noise" => Want::Noise(Noise::Rgb, a.f(0), true),
        "salt_n_pepper_noise" => Want::Noise(Noise::SaltPepper, a.f(0), false),
        "add_salt_n_pepper_noise" => Want::Noise(Noise::SaltPepper, a.f(0), true),
        "new" => match a.px(2) {
            Some(c) => image(Image::new_with_color(a.int(0)?, a.int(1)?, c)),
            None => image(Image::new(a.int(0)?, a.int(1)?)),
        },
        m => unreachable!("{m}"),
    };
    Ok(want)
}

/// Is the image one that the noise can make of the other
fn noisy(kind: Noise, amount: f32, was: &Img, is: &Img) -> Result<(), String> {
    if (was.w, was.h) != (is.w, is.h) {
        return Err(format!("{}x{} became {}x{}", was.w, was.h, is.w, is.h));
    }
    let a = amount as f64;
    for (i, (p, g)) in was.data.iter().zip(&is.data).enumerate() {
        let ok = match kind {
            Noise::Random | Noise::Gaussian => {
                // 9 standard deviations never happen by chance
                let span = a.abs() * if kind == Noise::Random { 1.0 } else { 9.0 };
                near(g[3], p[3])
                    && (0..3).all(|c| {
                        let base = (1.0 - a) * p[c] as f64;
                        let tol = 1e-6 * (1.0 + a.abs() + p[c].abs() as f64);
                        g[c] as f64 >= (base - span).clamp(0.0, 1.0) - tol && g[c] as f64 <= (base + span).clamp(0.0, 1.0) + tol
                    })
            }
            Noise::Rgb => {
                let set = (0..3).filter(|c| g[*c] != p[*c]).count();
                near(g[3], p[3]) && set <= 1 && (0..3).all(|c| g[c] == p[c] || g[c] == 1.0) && (amount > 0.0 || set == 0)
                    && (amount < 1.001 || (0..3).any(|c| g[c] == 1.0))
            }
            Noise::SaltPepper => {
                let special = *g == [0.0, 0.0, 0.0, 1.0] || *g == [1.0, 1.0, 1.0, 1.0];
                (special || g == p) && (amount > 0.0 || g == p) && (amount < 1.001 || special)
            }
        };
        if !ok {
            return Err(format!("pixel {i} {p:?} became {g:?}"));
        }
    }
    // the kinds can be told apart when every pixel has noise
    if (0.5..=1.0).contains(&amount) && was.data.len() >= 24 {
        let changed = was.data.iter().zip(&is.data).filter(|(p, g)| p != g).count();
        let plain = was.data.iter().all(|p| (0..3).all(|c| (0.1..0.9).contains(&p[c])));
        if plain && changed == 0 {
            return Err("no pixel changed".into());
        }
    }
    Ok(())
}

fn pictures() -> BoxedStrategy<[Img; 3]> {
    let one = prop_oneof![30 => gen::img(7), 1 => Just(Img { w: 0, h: 0, data: vec![] })];
    [one.clone().boxed(), one.clone().boxed(), one.boxed()].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    imgs: [Img; 3],
    calls: Vec<Call>,
}

fn single() -> BoxedStrategy<History> {
    (pictures(), call(true)).prop_map(|(imgs, c)| History { imgs, calls: vec![c] }).boxed()
}

fn large() -> BoxedStrategy<History> {
    (prop_oneof![20 => gen::big(3_000), 1 => gen::big(70_000)], gen::img(7), gen::img(7), call(true), 0u8..4).prop_map(|(a, b, i, mut c, far)| {
        c.on = 0;
        spread(&mut c, &a, far);
        History { imgs: [a, b, i], calls: vec![c] }
    }).boxed()
}

/// Moves positions from the corner over the whole image
fn spread(c: &mut Call, img: &Img, far: u8) {
    let spec = c.spec();
    if far == 0 || ["resize", "new"].contains(&spec.name) {
        return;
    }
    for ((name, k, _), a) in spec.params.iter().zip(&mut c.args) {
        if let (K::I32 | K::Off | K::Size, A::I(v)) = (k, a) {
            let n = if name.ends_with('x') || name.ends_with("width") { img.w } else { img.h } as i64;
            if (1..=7).contains(v) {
                *v = *v * n / if far == 1 { 7 } else { 8 } - if far == 3 { 1 } else { 0 };
            }
        }
    }
}

/// What happens without the arguments that may be left out
fn defaults() -> BoxedStrategy<History> {
    let c = call_of(false, |m| m.params.iter().any(|p| p.2));
    (gen::big(6_000), gen::img(7), gen::img(7), c).prop_map(|(a, b, i, mut c)| {
        c.on = 0;
        for (p, a) in c.spec().params.iter().zip(&mut c.args) {
            if p.2 {
                *a = A::No;
            }
        }
        History { imgs: [a, b, i], calls: vec![c] }
    }).boxed()
}

/// Fast methods on images with more than 16 bits of pixels
fn huge() -> BoxedStrategy<History> {
    let c = call_of(false, |m| {
        [
            "[]", "[]=", "get_pixel", "get_pixel_clamped", "put_pixel", "is_in_image", "has_transparency", "is_grayscale", "len", "get:width",
            "get:height", "crop", "flip_horizontal", "flip_vertical", "rotate90", "rotate180", "rotate270", "interlace", "blend",
            "apply_palette_in_place",
        ]
        .contains(&m.name)
    });
    (gen::big(140_000), gen::img(3), gen::img(3), c, 0u8..4).prop_map(|(a, b, i, mut c, far)| {
        c.on = 0;
        spread(&mut c, &a, far);
        History { imgs: [a, b, i], calls: vec![c] }
    }).boxed()
}

fn history() -> BoxedStrategy<History> {
    (pictures(), prop::collection::vec(call(false), 2..8)).prop_map(|(imgs, calls)| History { imgs, calls }).boxed()
}

fn f(sig: &str, msg: String) -> Fail {
    Fail { sig: sig.into(), msg }
}

fn history_case(v: &History, c: &mut Case) -> Res {
    let mut imgs: [Image; 3] = std::array::from_fn(|i| lib(&v.imgs[i]));
    let vars = json!({"i0": img(&v.imgs[0]), "i1": img(&v.imgs[1]), "i2": img(&v.imgs[2])});
    // after every call the state of all images is read
    let mut steps = vec![];
    let mut at = vec![];
    for call in &v.calls {
        let mut s = call.step();
        if is_image(call) {
            s["to"] = json!(format!("i{}", call.to));
        }
        at.push(steps.len());
        steps.push(s);
        steps.extend((0..3).map(|i| json!({"on": format!("i{i}"), "m": "to_list"})));
    }
    let r = run(vars, steps, &["i0", "i1", "i2"])?;
    for (k, call) in v.calls.iter().enumerate() {
        let what = || {
            let on = &imgs[call.on as usize];
            format!("call {k}, {} on {}x{}", call.text(), on.width(), on.height())
        };
        let answer = &r.steps[at[k]];
        if let Err(e) = &answer.res {
            ensure!(e.exception, format!("panic-{}", call.m), "{}: {} ({})", what(), e.name, e.msg);
        }
        let mut next = imgs.clone();
        let want = match no_panic(|| define(call, &mut next)) {
            Ok(Ok(w)) => w,
            _ => {
                next = imgs.clone();
                Want::Raise
            }
        };
        let state = |i: usize| match &r.steps[at[k] + 1 + i].res {
            Ok(Val::List(l)) => l.clone(),
            o => vec![Val::Other(format!("{o:?}"))],
        };
        match want {
            Want::Raise => {
                raises(answer, &what())?;
                c.label(format!("{} raised", call.m));
            }
            Want::Val(w) => {
                let got = match &answer.res {
                    Ok(v) => v,
                    Err(e) => return fail("raised", format!("{}: {} ({})", what(), e.name, e.msg)),
                };
                same(got, &w).map_err(|m| f("result", format!("{}: {m}", what())))?;
                if let Val::Img(i) = &w {
                    let before = from_lib(&imgs[call.on as usize]);
                    c.hit_if(call.args.iter().any(|a| *a != A::No) && *i != before);
                    next[call.to as usize] = lib(i);
                }
                c.hit_if(call.m == "put_pixel" || call.m == "[]=");
                c.label(call.m.clone());
            }
            Want::Noise(kind, amount, place) => {
                let was = from_lib(&imgs[call.on as usize]);
                let is = match &answer.res {
                    Ok(Val::Img(i)) if !place => i.clone(),
                    Ok(Val::None) if place => {
                        let data = state(call.on as usize)
                            .into_iter()
                            .map(|v| if let Val::Col(_, p) = v { p } else { [f32::NAN; 4] })
                            .collect();
                        Img { w: was.w, h: was.h, data }
                    }
                    o => return fail("result", format!("{}: {o:?}", what())),
                };
                noisy(kind, amount, &was, &is).map_err(|m| f("noise", format!("{}: {m}", what())))?;
                next[if place { call.on } else { call.to } as usize] = lib(&is);
                c.hit_if(is != was);
                c.label(call.m.clone());
            }
        }
        for (i, n) in next.iter().enumerate() {
            let want: Vec<Val> = n.data().iter().map(pixel).collect();
            same(&Val::List(state(i)), &Val::List(want))
                .map_err(|m| f("state", format!("{}: image {i} afterwards: {}", what(), &m[..m.len().min(600)])))?;
        }
        imgs = next;
    }
    for (i, im) in imgs.iter().enumerate() {
        same(&val(&r.dumps[format!("i{i}")]), &Val::Img(from_lib(im))).map_err(|m| f("state", format!("image {i} in the end: {m}")))?;
    }
    Ok(())
}

/// Does the call return an image
fn is_image(call: &Call) -> bool {
    let other = [
        "get_pixel", "[]", "get_pixel_clamped", "put_pixel", "[]=", "is_in_image", "has_transparency", "is_grayscale",
        "to_list", "len", "get:width", "get:height", "apply_palette_in_place",
    ];
    !other.contains(&call.m.as_str()) && !call.m.starts_with("add_")
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        sub("method", 24000, 300000, single, history_case),
        sub("large-method", 600, 6000, large, history_case),
        sub("huge-method", 40, 600, huge, history_case),
        sub("large-default", 500, 6000, defaults, history_case),
        sub("history", 6000, 60000, history, history_case),
    ]
}
