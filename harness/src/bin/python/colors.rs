//! The colour classes against the library
use crate::arrays::raises;
use crate::py::*;
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::{Color, Hsl, Hsv, Intensity, Lab, Lch, Rgb, Srgb, Xyz, Yuv};
use d10_verif::engine::{fail, no_panic, sub, Case, Fail, Res, Sub};
use d10_verif::ensure;
use d10_verif::gen::{self, Px};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub const CLASSES: [&str; 18] = [
    "Rgb", "Srgb", "Hsl", "Hsv", "Yuv", "Xyz", "LabD65O2", "LabD65O10", "LabD50O2", "LabD50O10", "LabEO2", "LabEO10",
    "LchD65O2", "LchD65O10", "LchD50O2", "LchD50O10", "LchEO2", "LchEO10",
];

fn fields(class: &str) -> [&'static str; 3] {
    match class {
        "Rgb" | "Srgb" => ["red", "green", "blue"],
        "Hsl" => ["hue", "saturation", "lightness"],
        "Hsv" => ["hue", "saturation", "value"],
        "Yuv" => ["y", "u", "v"],
        "Xyz" => ["x", "y", "z"],
        c if c.starts_with("Lab") => ["l", "a", "b"],
        _ => ["l", "c", "h"],
    }
}

/// Evaluate an expression with the library's colour of a class
macro_rules! with_color {
    ($class:expr, $p:expr, $c:ident, $e:expr) => {{
        let [a, b, d, al] = *$p;
        match $class {
            "Rgb" => { let $c = Rgb::new_with_alpha(a, b, d, al); $e }
            "Srgb" => { let $c = Srgb::new_with_alpha(a, b, d, al); $e }
            "Hsl" => { let $c = Hsl::new_with_alpha(a, b, d, al); $e }
            "Hsv" => { let $c = Hsv::new_with_alpha(a, b, d, al); $e }
            "Yuv" => { let $c = Yuv::new_with_alpha(a, b, d, al); $e }
            "Xyz" => { let $c = Xyz::new_with_alpha(a, b, d, al); $e }
            "LabD65O2" => { let $c = Lab::<D65, O2>::new_with_alpha(a, b, d, al); $e }
            "LabD65O10" => { let $c = Lab::<D65, O10>::new_with_alpha(a, b, d, al); $e }
            "LabD50O2" => { let $c = Lab::<D50, O2>::new_with_alpha(a, b, d, al); $e }
            "LabD50O10" => { let $c = Lab::<D50, O10>::new_with_alpha(a, b, d, al); $e }
            "LabEO2" => { let $c = Lab::<E, O2>::new_with_alpha(a, b, d, al); $e }
            "LabEO10" => { let $c = Lab::<E, O10>::new_with_alpha(a, b, d, al); $e }
            "LchD65O2" => { let $c = Lch::<D65, O2>::new_with_alpha(a, b, d, al); $e }
            "LchD65O10" => { let $c = Lch::<D65, O10>::new_with_alpha(a, b, d, al); $e }
            "LchD50O2" => { let $c = Lch::<D50, O2>::new_with_alpha(a, b, d, al); $e }
            "LchD50O10" => { let $c = Lch::<D50, O10>::new_with_alpha(a, b, d, al); $e }
            "LchEO2" => { let $c = Lch::<E, O2>::new_with_alpha(a, b, d, al); $e }
            _ => { let $c = Lch::<E, O10>::new_with_alpha(a, b, d, al); $e }
        }
    }};
}

fn data(c: &impl Color) -> Px {
    c.data().try_into().unwrap()
}

/// The library's conversion of a colour into another class
fn convert(class: &str, p: &Px, to: &str) -> Px {
    with_color!(class, p, c, match to {
        "Rgb" => data(&c.to_rgb()),
        "Srgb" => data(&c.to_srgb()),
        "Hsl" => data(&c.to_hsl()),
        "Hsv" => data(&c.to_hsv()),
        "Yuv" => data(&c.to_yuv()),
        "Xyz" => data(&c.to_xyz()),
        "LabD65O2" => data(&c.to_lab::<D65, O2>()),
        "LabD65O10" => data(&c.to_lab::<D65, O10>()),
        "LabD50O2" => data(&c.to_lab::<D50, O2>()),
        "LabD50O10" => data(&c.to_lab::<D50, O10>()),
        "LabEO2" => data(&c.to_lab::<E, O2>()),
        "LabEO10" => data(&c.to_lab::<E, O10>()),
        "LchD65O2" => data(&c.to_lch::<D65, O2>()),
        "LchD65O10" => data(&c.to_lch::<D65, O10>()),
        "LchD50O2" => data(&c.to_lch::<D50, O2>()),
        "LchD50O10" => data(&c.to_lch::<D50, O10>()),
        "LchEO2" => data(&c.to_lch::<E, O2>()),
        _ => data(&c.to_lch::<E, O10>()),
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ColorCase {
    class: String,
    p: Px,
    alpha: bool,
    other: Px,
    op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New,
    Set(u8, f32),
    With(u8, f32),
    To(u8),
    /// to_lab or to_lch with names of illuminant and observer
    ToLab(bool, Option<String>, Option<String>),
    /// the functions Lab and Lch
    MakeLab(bool, Option<String>, Option<String>),
    Text,
    TypeName,
    Transparent,
    Equal(bool, u8, f32),
    Channels(Option<u8>),
    Rgb(u8, [f32; 3], Option<String>),
}

const RGB_METHODS: [(&str, usize); 19] = [
    ("is_grayscale", 0), ("to_gray", 0), ("invert", 0), ("difference", 0), ("with_gamma", 1), ("with_gamma_opt", 1),
    ("with_level", 3), ("with_brightness", 1), ("with_saturation", 1), ("stretch_saturation", 1),
    ("with_gamma_saturation", 1), ("with_lightness", 1), ("with_hue_rotate", 1), ("with_contrast", 1),
    ("with_brightness_contrast", 2), ("alpha_blend", 0), ("with_vibrance", 1), ("with_sepia", 0), ("modulate", 3),
];

const INTENSITIES: [&str; 12] = [
    "average", "rec601luma", "rec709luma", "default", "brightness", "lightness", "saturation", "red", "green", "blue", "Red", "",
];

fn value() -> BoxedStrategy<f32> {
    prop_oneof![8 => gen::unit(), 2 => gen::factor(), 2 => -1f32..1.0, 1 => prop::sample::select(vec![-0.0f32, -1e-5, -4e-5, -6e-5, 1e-5, 1e-7, 1.00003, 12345.679, -1000.0])].boxed()
}

/// names near those of illuminants and observers
fn unknown() -> BoxedStrategy<String> {
    let near = vec!["", "D55", "D75", "D6", "d65", "d50", "e", "E ", " E", "D65 ", "A", "F2", "D", "02", "2.0", "1", "100", "12", " 2", "2 ", "10 ", "2°", "O2"];
    prop_oneof![3 => prop::sample::select(near).prop_map(String::from), 1 => "[DE0-9 ]{0,3}"].boxed()
}

fn color_case() -> BoxedStrategy<ColorCase> {
    let ill = || prop_oneof![1 => Just(None), 8 => prop::sample::select(vec!["D65", "D50", "E"]).prop_map(|s| Some(s.to_string())), 1 => unknown().prop_map(Some)];
    let obs = || prop_oneof![1 => Just(None), 8 => prop::sample::select(vec!["2", "10"]).prop_map(|s| Some(s.to_string())), 1 => unknown().prop_map(Some)];
    let op = prop_oneof![
        1 => Just(Op::New),
        3 => (0u8..4, value()).prop_map(|(i, v)| Op::Set(i, v)),
        3 => (0u8..4, value()).prop_map(|(i, v)| Op::With(i, v)),
        4 => (0u8..6).prop_map(Op::To),
        5 => (any::<bool>(), ill(), obs()).prop_map(|(l, i, o)| Op::ToLab(l, i, o)),
        2 => (any::<bool>(), ill(), obs()).prop_map(|(l, i, o)| Op::MakeLab(l, i, o)),
        1 => Just(Op::Text),
        1 => Just(Op::TypeName),
        1 => Just(Op::Transparent),
        2 => (any::<bool>(), 0u8..4, prop::sample::select(vec![0f32, 0.1, -0.1, 1e-3, 1e-5, -1e-5, 4e-5])).prop_map(|(n, i, d)| Op::Equal(n, i, d)),
        2 => prop::option::weighted(0.3, 0u8..4).prop_map(Op::Channels),
        8 => (0u8..21, [gen::factor(), gen::factor(), gen::factor()], prop::option::of(prop::sample::select(INTENSITIES.to_vec())))
            .prop_map(|(i, f, s)| Op::Rgb(i, f, s.map(String::from))),
    ];
    let p = prop_oneof![4 => gen::px(), 2 => [value(), value(), value(), gen::alpha()]];
    (prop::sample::select(CLASSES.to_vec()), p, any::<bool>(), gen::px(), op)
        .prop_map(|(class, mut p, alpha, other, op)| {
            let class = if matches!(op, Op::Rgb(..)) { "Rgb" } else { class };
            if !alpha {
                p[3] = 1.0;
            }
            ColorCase { class: class.into(), p, alpha, other, op }
        })
        .boxed()
}

fn lab_class(lab: bool, ill: &Option<String>, obs: &Option<String>) -> Option<&'static str> {
    let ill = ill.as_deref().unwrap_or("D65");
    let obs = obs.as_deref().unwrap_or("2");
    let name = format!("{}{ill}O{obs}", if lab { "Lab" } else { "Lch" });
    CLASSES.iter().find(|c| **c == name).copied()
}

fn rgb_method(c: Rgb, other: Rgb, name: &str, f: &[f32; 3], s: &Option<String>) -> Result<Val, ()> {
    let col = |c: Rgb| Val::Col("Rgb".into(), c.data);
    Ok(match name {
        "is_grayscale" => Val::Bool(c.is_grayscale()),
        "to_gray" => match s {
            None => col(c.to_gray()),
            Some(s) => col(c.to_gray_with_intensity(s.parse::<Intensity>().map_err(|_| ())?)),
        },
        "invert" => col(c.invert()),
        "difference" => col(c.difference(&other)),
        "with_gamma" => col(c.with_gamma(f[0])),
        "with_gamma_opt" => col(c.with_gamma_opt(f[0])),
        "with_level" => col(c.with_level(f[0], f[1], f[2])),
        "with_brightness" => col(c.with_brightness(f[0])),
        "with_saturation" => col(c.with_saturation(f[0])),
        "stretch_saturation" => col(c.stretch_saturation(f[0])),
        "with_gamma_saturation" => col(c.with_gamma_saturation(f[0])),
        "with_lightness" => col(c.with_lightness(f[0])),
        "with_hue_rotate" => col(c.with_hue_rotate(f[0])),
        "with_contrast" => col(c.with_contrast(f[0])),
        "with_brightness_contrast" => col(c.with_brightness_contrast(f[0], f[1])),
        "alpha_blend" => col(c.alpha_blend(other)),
        "with_vibrance" => col(c.with_vibrance(f[0])),
        "with_sepia" => col(c.with_sepia()),
        "modulate" => col(c.modulate(f[0], f[1], f[2])),
        "max" => Val::Float(c.max() as f64),
        _ => Val::Float(c.min() as f64),
    })
}

fn ff(sig: &str, msg: String) -> Fail {
    Fail { sig: sig.into(), msg }
}

fn check(v: &ColorCase, c: &mut Case) -> Res {
    let class = v.class.as_str();
    let names = fields(class);
    let name = |i: u8| if i == 3 { "alpha" } else { names[i as usize] };
    let n = if v.alpha { 4 } else { 3 };
    let make = json!({"on": format!("d10.{class}"), "m": "()", "a": v.p[..n].iter().map(|p| f(*p)).collect::<Vec<_>>(), "to": "c"});
    let other = json!({"on": format!("d10.{class}"), "m": "()", "a": v.other.iter().map(|p| f(*p)).collect::<Vec<_>>(), "to": "o"});
    let mut calls = false;
    let vars = json!({});
    let p: Px = with_color!(class, &v.p, x, data(&x));
    let mut after = p;
    let col = |class: &str, p: Px| Val::Col(class.to_string(), p);
    // what the operation is, and what it has to return (none: an exception)
    let (step, want): (Value, Option<Val>) = match &v.op {
        Op::New => (json!({"on": "c", "m": format!("get:{}", names[0])}), Some(Val::Float(p[0] as f64))),
        Op::Set(i, x) => {
            after = with_color!(class, &v.p, y, {
                let mut y = y;
                set(&mut y, *i, *x);
                data(&y)
            });
            (json!({"on": "c", "m": format!("set:{}", name(*i)), "a": [f(*x)]}), Some(Val::None))
        }
        Op::With(i, x) => {
            let want = with_color!(class, &v.p, y, {
                let mut y = y;
                set(&mut y, *i, *x);
                data(&y)
            });
            (json!({"on": "c", "m": format!("with_{}", name(*i)), "a": [f(*x)]}), Some(col(class, want)))
        }
        Op::To(i) => {
            let to = CLASSES[*i as usize];
            (json!({"on": "c", "m": format!("to_{}", to.to_lowercase())}), Some(col(to, convert(class, &v.p, to))))
        }
        Op::ToLab(lab, ill, obs) => {
            let m = if *lab { "to_lab" } else { "to_lch" };
            let to = lab_class(*lab, ill, obs);
            let mut kw = serde_json::Map::new();
            ill.iter().for_each(|s| drop(kw.insert("illuminant".into(), json!(s))));
            obs.iter().for_each(|s| drop(kw.insert("observer".into(), json!(s))));
            let step = if v.alpha { json!({"on": "c", "m": m, "a": [ill, obs]}) } else { json!({"on": "c", "m": m, "kw": kw}) };
            (step, to.map(|to| col(to, convert(class, &v.p, to))))
        }
        Op::MakeLab(lab, ill, obs) => {
            let m = if *lab { "Lab" } else { "Lch" };
            let to = lab_class(*lab, ill, obs);
            let mut a: Vec<Value> = v.p.iter().map(|x| f(*x)).collect();
            if !v.alpha {
                a[3] = Value::Null;
            }
            a.extend([json!(ill), json!(obs)]);
            (json!({"on": "d10", "m": m, "a": a}), to.map(|to| col(to, v.p)))
        }
        Op::Text => {
            let text = with_color!(class, &v.p, y, y.to_string());
            let m = if v.alpha { "str" } else { "repr" };
            (json!({"on": "c", "m": m}), Some(Val::Str(text)))
        }
        Op::TypeName => {
            (json!({"on": "c", "m": "get:type_name"}), Some(Val::Str(with_color!(class, &v.p, y, y.type_name().to_string()))))
        }
        Op::Transparent => {
            (json!({"on": "c", "m": "has_transparency"}), Some(Val::Bool(with_color!(class, &v.p, y, y.has_transparency()))))
        }
        Op::Equal(ne, i, d) => {
            let mut q = v.p;
            q[*i as usize] += d;
            let eq = {
                let a = with_color!(class, &v.p, y, data(&y));
                let b = with_color!(class, &q, y, data(&y));
                with_color!(class, &a, y, {
                    let mut z = y;
                    (0..4).for_each(|i| set(&mut z, i, b[i as usize]));
                    y == z
                })
            };
            let z = json!({"col": [class, q.map(f32::to_bits)]});
            c.label(if eq { "equal" } else { "different" });
            (json!({"on": "c", "m": if *ne { "!=" } else { "==" }, "a": [z]}), Some(Val::Bool(eq != *ne)))
        }
        Op::Channels(at) => {
            calls = true;
            let cb = json!({"fn": {"kind": "chan", "perm": [], "at": at, "how": "raise"}});
            let want = with_color!(class, &v.p, y, data(&y.map_color_channels(|v| (v as f64 * 0.5 + 0.25) as f32)));
            let stops = at.is_some_and(|a| a < 3);
            (json!({"on": "c", "m": "map_color_channels", "a": [cb], "calls": 1}), (!stops).then(|| col(class, want)))
        }
        Op::Rgb(i, factors, s) => {
            let (m, n) = RGB_METHODS.get(*i as usize).copied().unwrap_or((["max", "min"][*i as usize & 1], 0));
            let a: Vec<Value> = match m {
                "difference" | "alpha_blend" => vec![json!({"v": "o"})],
                "to_gray" => vec![json!(s)],
                _ => factors[..n].iter().map(|x| f(*x)).collect(),
            };
            c.label(m);
            let [x, y, z, w] = v.other;
            let o = Rgb::new_with_alpha(x, y, z, w);
            let want = match no_panic(|| rgb_method(Rgb { data: p }, o, m, factors, s)) {
                Ok(Ok(v)) => Some(v),
                _ => None,
            };
            (json!({"on": "c", "m": m, "a": a}), want)
        }
    };
    let r = run(vars, vec![make, other, step.clone()], &["c", "o"])?;
    for a in &r.steps {
        if let Err(e) = &a.res {
            ensure!(e.exception, "panic", "{class}{:?} {step}: {} ({})", v.p, e.name, e.msg);
        }
    }
    let what = format!("{class}{:?}, {step}", &v.p[..n]);
    match want {
        None => raises(&r.steps[2], &what)?,
        Some(w) => {
            let got = match &r.steps[2].res {
                Ok(g) => g,
                Err(e) => return fail("raised", format!("{what}: {} ({})", e.name, e.msg)),
            };
            // `!=` of equal colors is true, which a test of the bindings relies on (see DESIGN.md)
            let ne = step["m"] == "!=" && w == Val::Bool(false) && *got == Val::Bool(true);
            let sig = if ne { "not-equal-of-equal" } else { "result" };
            same(got, &w).map_err(|m| ff(sig, format!("{what}: {m}")))?;
            c.hit_if(!matches!(v.op, Op::New | Op::TypeName | Op::Transparent) && p[0] != p[1]);
        }
    }
    if calls {
        let got: Vec<String> = r.steps[2].calls.iter().flatten().map(|c| c.as_str().unwrap_or("").to_string()).collect();
        let all: Vec<String> = p[..3].iter().map(|v| hex(v.to_le_bytes())).collect();
        let n = match &v.op {
            Op::Channels(Some(at)) => (*at as usize + 1).min(3),
            _ => 3,
        };
        ensure!(got == all[..n], "channels", "{what}: called with {got:?} instead of {:?}", &all[..n]);
    }
    same(&val(&r.dumps["c"]), &col(class, after)).map_err(|m| ff("state", format!("{what}: afterwards {m}")))?;
    let q = with_color!(class, &v.other, x, data(&x));
    same(&val(&r.dumps["o"]), &col(class, q)).map_err(|m| ff("state", format!("{what}: other colour {m}")))?;
    c.label(class);
    Ok(())
}

trait Set {
    fn set(&mut self, i: u8, v: f32);
}

fn set(c: &mut impl Set, i: u8, v: f32) {
    c.set(i, v)
}

macro_rules! setters {
    ($([$($g:tt)*] $t:ty: $a:ident $b:ident $c:ident;)*) => {$(
        impl<$($g)*> Set for $t {
            fn set(&mut self, i: u8, v: f32) {
                match i {
                    0 => self.$a(v),
                    1 => self.$b(v),
                    2 => self.$c(v),
                    _ => self.set_alpha(v),
                }
            }
        }
    )*};
}

setters! {
    [] Rgb: set_red set_green set_blue;
    [] Srgb: set_red set_green set_blue;
    [] Hsl: set_hue set_saturation set_lightness;
    [] Hsv: set_hue set_saturation set_value;
    [] Yuv: set_y set_u set_v;
    [] Xyz: set_x set_y set_z;
    [I: d10::Illuminant, O: d10::Observer] Lab<I, O>: set_l set_a set_b;
    [I: d10::Illuminant, O: d10::Observer] Lch<I, O>: set_l set_c set_h;
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![sub("color", 24000, 300000, color_case, check)]
}
