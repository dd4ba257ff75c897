//! C09 composing and blending
use d10::ops::{self, blend_image, BlendOp};
use d10::{Hsl, Image, PixelBuffer, Rgb};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use d10_verif::refmath::*;
use proptest::collection::vec;
use proptest::prelude::*;
use std::cell::RefCell;

const PI: f64 = std::f64::consts::PI;

pub const BLENDS: [&str; 12] = [
    "normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "hsl_lighten", "lch_darken", "lch_lighten",
    "lch_hue", "lch_saturation", "lch_color",
];

fn mix(a: f64, b: f64, t: f64) -> f64 {
    a * (1.0 - t) + b * t
}

/// Interpolation of two angles along the shorter arc; None if both arcs are equally long
fn mix_hue(a: f64, b: f64, t: f64) -> Option<f64> {
    let mut d = b - a;
    if d > PI {
        d -= 2.0 * PI
    } else if d < -PI {
        d += 2.0 * PI
    }
    if (d.abs() - PI).abs() < 1e-3 {
        None
    } else {
        Some(a + d * t)
    }
}

/// Expected colour and tolerance; None where the definition is ill conditioned
pub fn blend_model(op: &str, p: Px, q: Px, t: f32) -> Option<(C4, f64)> {
    let (a, b, t) = (c64(p), c64(q), t as f64);
    let w = white(1, 0);
    let lch = |c: C4| lab_to_lch(xyz_to_lab(rgb_to_xyz(c), w));
    let rgb = |c: C4| xyz_to_rgb(lab_to_xyz(lch_to_lab(c), w));
    Some(match op {
        "normal" => {
            let al = b[3] * t;
            let f = |i: usize| b[i] * al + (1.0 - al) * a[i];
            (clampc([f(0), f(1), f(2), (a[3] + al).min(1.0)]), 2e-6)
        }
        "addition" | "subtract" | "darken" | "lighten" => {
            let f = |i: usize| {
                let v = match op {
                    "addition" => a[i] + b[i],
                    "subtract" => a[i] - b[i],
                    "darken" => a[i].min(b[i]),
                    _ => a[i].max(b[i]),
                };
                mix(a[i], v, t * b[3])
            };
            (clampc([f(0), f(1), f(2), b[3]]), 4e-6)
        }
        "hsl_darken" | "hsl_lighten" => {
            let l2 = (max3(&b) + min3(&b)) / 2.0;
            let delta = max3(&a) - min3(&a);
            if (delta - EPS).abs() < 1e-6 {
                return None;
            }
            let h = rgb_to_hsl(a);
            let l = mix(h[2], if op == "hsl_darken" { h[2].min(l2) } else { h[2].max(l2) }, t);
            let width = 1.0 - (2.0 * l - 1.0).abs();
            let den = (max3(&a) + min3(&a)).min(2.0 - max3(&a) - min3(&a)).max(EPS / 2.0);
            let s_err = 1e-6 + 4e-7 / den;
            let tol = 1e-5 + 3.0 * EPS * width * h[1] / delta.max(EPS) + (s_err * width).min(1.0);
            (clampc(hsl_to_rgb([h[0], h[1], l, h[3]])), tol)
        }
        "lch_darken" | "lch_lighten" => {
            let (x, y) = (lch(a), lch(b));
            let l = if op == "lch_darken" { x[0].min(y[0]) } else { x[0].max(y[0]) };
            (clampc(rgb([mix(x[0], l, t), x[1], x[2], x[3]])), 2e-4)
        }
        "lch_saturation" => {
            let (x, y) = (lch(a), lch(b));
            // the hue of a gray has no meaning: its error is magnified by the new chroma
            let tol = 2e-4 + if x[1] > 0.0 { 1e-5 * y[1] / x[1] } else { 1.0 };
            (clampc(rgb([x[0], mix(x[1], y[1], t), x[2], x[3]])), tol)
        }
        "lch_hue" | "lch_color" => {
            let (x, y) = (lch(a), lch(b));
            if x[1] < 1e-3 && op == "lch_color" || y[1] < 1e-3 {
                return None;
            }
            let h = if t == 0.0 { x[2] } else if t == 1.0 { y[2] } else { mix_hue(x[2], y[2], t)? };
            let c = if op == "lch_hue" { x[1] } else { mix(x[1], y[1], t) };
            let tol = 2e-4 + 1e-5 * c / x[1].max(1e-9) + 1e-5 * c / y[1];
            (clampc(rgb([x[0], c, h, x[3]])), tol)
        }
        _ => unreachable!(),
    })
}

fn blend_pixel(got: Px, op: &str, p: Px, q: Px, t: f32, c: &mut Case) -> Res {
    ensure!(got.iter().all(|v| *v >= 0.0 && *v <= 1.0), format!("{op}-range"), "{op} of {p:?} and {q:?} by {t} is {got:?}");
    let keeps = matches!(op, "hsl_darken" | "hsl_lighten") || op.starts_with("lch");
    if keeps {
        ensure!(got[3] == p[3], format!("{op}-alpha"), "{op} of {p:?} and {q:?} by {t} is {got:?}");
    }
    let Some((want, tol)) = blend_model(op, p, q, t) else {
        c.label("ill conditioned");
        return Ok(());
    };
    c.label_if(tol > 1e-2, "loose tolerance");
    ensure!(close4(got, want, tol), op, "{op} of {p:?} and {q:?} by {t} is {got:?} instead of {want:?} (tolerance {tol:e})");
    Ok(())
}

fn blend_case(v: &(Img, Img, u8, f32), c: &mut Case) -> Res {
    let (a, b, op, t) = v;
    let name = BLENDS[*op as usize % 12];
    let t = if *op % 12 == 0 || *op % 12 > 4 { t.clamp(0.0, 1.0) } else { *t };
    let op = || -> BlendOp { name.parse().unwrap() };
    let (ia, ib) = (Image::new_from_buffer(a.buf()), Image::new_from_buffer(b.buf()));
    let out = Img::from_buf(ia.blend(&ib, op(), t).buffer());
    let direct = Img::from_buf(&blend_image(&a.buf(), &b.buf(), op(), t));
    ensure!(out == direct, "facade", "{name}: image and buffer level differ");
    ensure!(Img::from_buf(ia.buffer()) == *a && Img::from_buf(ib.buffer()) == *b, "input-changed", "{name}");
    let (w, h) = (a.w.max(b.w), a.h.max(b.h));
    ensure!((out.w, out.h) == (w, h), "size", "{name} of {}x{} and {}x{} is {}x{}", a.w, a.h, b.w, b.h, out.w, out.h);
    c.label(name);
    c.label_if((a.w, a.h) != (b.w, b.h), "different sizes");
    c.hit_if(t != 0.0 && a.data != b.data);
    for y in 0..h {
        for x in 0..w {
            let got = out.px(x, y);
            let ina = x < a.w && y < a.h;
            let inb = x < b.w && y < b.h;
            match (ina, inb) {
                (true, true) => blend_pixel(got, name, a.px(x, y), b.px(x, y), t, c)?,
                _ => {
                    let want = if ina { a.px(x, y) } else if inb { b.px(x, y) } else { [0.0; 4] };
                    ensure!(got == want, "uncovered", "{name}: pixel {x},{y} outside of one image is {got:?} instead of {want:?}");
                }
            }
        }
    }
    Ok(())
}

fn call(name: &str, p: Px, q: Px, t: f32) -> Px {
    let (a, b) = (Rgb { data: p }, Rgb { data: q });
    match name {
        "normal" => ops::blend_normal(a, b, t),
        "addition" => ops::blend_addition(a, b, t),
        "subtract" => ops::blend_subtract(a, b, t),
        "darken" => ops::blend_darken(a, b, t),
        "lighten" => ops::blend_lighten(a, b, t),
        "hsl_darken" => ops::blend_hsl_darken(a, b, t),
        "hsl_lighten" => ops::blend_hsl_lighten(a, b, t),
        "lch_darken" => ops::blend_lch_darken(a, b, t),
        "lch_lighten" => ops::blend_lch_lighten(a, b, t),
        "lch_hue" => ops::blend_lch_hue(a, b, t),
        "lch_saturation" => ops::blend_lch_saturation(a, b, t),
        _ => ops::blend_lch_color(a, b, t),
    }
    .data
}

fn color_case(v: &(Px, Px, u8, f32), c: &mut Case) -> Res {
    let (p, q, op, t) = v;
    let name = BLENDS[*op as usize % 12];
    let t = if *op % 12 == 0 || *op % 12 > 4 { t.clamp(0.0, 1.0) } else { *t };
    c.label(name);
    c.hit_if(t != 0.0 && p != q);
    blend_pixel(call(name, *p, *q, t), name, *p, *q, t, c)
}

fn intensity() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => (0u32..=1000).prop_map(|v| v as f32 / 1000.0),
        2 => prop::sample::select(vec![0.0f32, 1.0, 0.5]),
        1 => (-200i32..=300).prop_map(|v| v as f32 / 100.0),
    ]
    .boxed()
}

fn compose_case(v: &(Vec<Img>, Px, u8, Option<u32>), c: &mut Case) -> Res {
    let (imgs, def, how, at) = v;
    let n = imgs.len();
    let w = imgs.iter().map(|i| i.w).max().unwrap();
    let h = imgs.iter().map(|i| i.h).max().unwrap();
    let at = at.map(|a| a % (w * h + 1));
    let calls: RefCell<Vec<(u32, u32, Vec<Px>)>> = RefCell::new(vec![]);
    let f = |x: u32, y: u32, cols: Vec<Px>| -> Result<Px, u32> {
        let i = calls.borrow().len() as u32;
        let mut r = [0.0f32; 4];
        for (k, c) in cols.iter().enumerate() {
            for j in 0..4 {
                r[j] += c[j] * (k + 1) as f32 * 0.1;
            }
        }
        r[0] += i as f32;
        calls.borrow_mut().push((x, y, cols));
        if Some(i) == at {
            Err(i)
        } else {
            Ok(r)
        }
    };
    let d = Rgb { data: *def };
    let bufs: Vec<PixelBuffer<Rgb>> = imgs.iter().map(|i| i.buf()).collect();
    let images: Vec<Image> = bufs.iter().map(|b| Image::new_from_buffer(b.clone())).collect();
    let g = |x: u32, y: u32, c: &[Rgb]| f(x, y, c.iter().map(|c| c.data).collect()).map(|d| Rgb { data: d });
    let inf = at.is_none();
    let pick = how % 6;
    c.label(["slice", "image slice", "array", "image array", "infallible", "Hsl"][pick as usize]);
    let res: Result<Img, u32> = match pick {
        1 => Image::try_compose_slice(&images.iter().collect::<Vec<_>>(), d, |x, y, c: &[Rgb]| g(x, y, c)).map(|i| Img::from_buf(i.buffer())),
        2 if n == 1 => ops::try_compose([&bufs[0]], d, |x, y, c| g(x, y, &c)).map(|b| Img::from_buf(&b)),
        2 if n == 2 => ops::try_compose([&bufs[0], &bufs[1]], d, |x, y, c| g(x, y, &c)).map(|b| Img::from_buf(&b)),
        2 if n == 3 => ops::try_compose([&bufs[0], &bufs[1], &bufs[2]], d, |x, y, c| g(x, y, &c)).map(|b| Img::from_buf(&b)),
        3 if n == 1 => Image::try_compose([&images[0]], d, |x, y, c| g(x, y, &c)).map(|b| Img::from_buf(b.buffer())),
        3 if n == 2 => Image::try_compose([&images[0], &images[1]], d, |x, y, c| g(x, y, &c)).map(|b| Img::from_buf(b.buffer())),
        3 if n == 3 => Image::try_compose([&images[0], &images[1], &images[2]], d, |x, y, c| g(x, y, &c)).map(|b| Img::from_buf(b.buffer())),
        4 if inf && n == 2 => Ok(Img::from_buf(&ops::compose([&bufs[0], &bufs[1]], d, |x, y, c| g(x, y, &c).unwrap()))),
        4 if inf && n == 3 => Ok(Img::from_buf(Image::compose([&images[0], &images[1], &images[2]], d, |x, y, c| g(x, y, &c).unwrap()).buffer())),
        4 if inf && n == 1 => Ok(Img::from_buf(&ops::compose_slice(&[&bufs[0]], d, |x, y, c| g(x, y, c).unwrap()))),
        4 if inf => Ok(Img::from_buf(Image::compose_slice(&images.iter().collect::<Vec<_>>(), d, |x, y, c| g(x, y, c).unwrap()).buffer())),
        5 => {
            let hsl: Vec<PixelBuffer<Hsl>> = imgs
                .iter()
                .map(|i| PixelBuffer::new_from_raw(i.w, i.h, i.data.iter().map(|d| Hsl { data: *d }).collect()))
                .collect();
            ops::try_compose_slice(&hsl.iter().collect::<Vec<_>>(), Hsl { data: *def }, |x, y, c: &[Hsl]| {
                f(x, y, c.iter().map(|c| c.data).collect()).map(|d| Hsl { data: d })
            })
            .map(|b| Img { w: b.width(), h: b.height(), data: b.data().iter().map(|c| c.data).collect() })
        }
        _ => ops::try_compose_slice(&bufs.iter().collect::<Vec<_>>(), d, |x, y, c: &[Rgb]| g(x, y, c)).map(|b| Img::from_buf(&b)),
    };
    for (i, im) in imgs.iter().enumerate() {
        ensure!(Img::from_buf(&bufs[i]) == *im && Img::from_buf(images[i].buffer()) == *im, "input-changed", "input {i}");
    }
    let calls = calls.into_inner();
    let stop = at.filter(|a| *a < w * h);
    let total = stop.map(|s| s + 1).unwrap_or(w * h);
    ensure!(calls.len() as u32 == total, "calls", "{} calls instead of {total}", calls.len());
    let mut want = vec![];
    for (i, (x, y, cols)) in calls.iter().enumerate() {
        let (wx, wy) = (i as u32 % w, i as u32 / w);
        ensure!((*x, *y) == (wx, wy), "position", "call {i} for {x},{y} instead of {wx},{wy}");
        let exp: Vec<Px> = imgs.iter().map(|im| if wx < im.w && wy < im.h { im.px(wx, wy) } else { *def }).collect();
        ensure!(*cols == exp, "arguments", "call for {x},{y} got {cols:?} instead of {exp:?}");
        let mut r = [0.0f32; 4];
        for (k, c) in exp.iter().enumerate() {
            for j in 0..4 {
                r[j] += c[j] * (k + 1) as f32 * 0.1;
            }
        }
        r[0] += i as f32;
        want.push(r);
    }
    let differ = imgs.iter().any(|i| (i.w, i.h) != (imgs[0].w, imgs[0].h));
    c.hit_if(n > 1 && differ);
    c.label_if(stop.is_some(), "stopped by error");
    match (res, stop) {
        (Err(e), Some(s)) => ensure!(e == s, "error", "error {e} instead of {s}"),
        (Ok(i), None) => ensure!(i == Img { w, h, data: want.clone() }, "result", "{i:?} instead of {want:?}"),
        (r, s) => return fail("outcome", format!("{r:?} but the function stops at {s:?}")),
    }
    Ok(())
}

/// Long images in the same direction, so that the canvas of all of them stays small
fn aligned(mut v: Vec<Img>) -> Vec<Img> {
    let wide = v[0].w > v[0].h;
    for i in v.iter_mut() {
        if (i.w > i.h) != wide {
            (i.w, i.h) = (i.h, i.w);
        }
    }
    let (w, h) = (v.iter().map(|i| i.w).max().unwrap(), v.iter().map(|i| i.h).max().unwrap());
    if w as u64 * h as u64 > 1_000_000 {
        let mut d = v[0].clone();
        d.data.reverse();
        v.truncate(1);
        v.push(d);
    }
    v
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        level: "exploration",
        rule: "a blend counts if the intensity is not zero and the operands differ; a composition if it combines images of different size",
        assumptions: vec!["the f64 blend formulas of the harness are the definition", "hue blending with colours of a chroma below 0.001, or with opposite hues, is checked for range and alpha only"],
        subs: vec![
            sub("compose", 30_000, 1_000_000, || {
                (vec(img(7), 1..=4), px(), 0u8..6, prop_oneof![2 => Just(None), 1 => (0u32..60).prop_map(Some)])
            }, compose_case),
            sub("many", 4_000, 100_000, || {
                (vec(img(4), 5..=40), px(), 0u8..6, prop_oneof![4 => Just(None), 1 => (0u32..30).prop_map(Some)])
            }, compose_case),
            sub("large", 40, 1_000, || (vec(big(40_000), 1..=3).prop_map(aligned), px(), 0u8..6, Just(None)), compose_case),
            sub("large-blend", 60, 1_500, || (vec(big(40_000), 2).prop_map(aligned), 0u8..12, intensity()).prop_map(|(mut v, op, i)| (v.pop().unwrap(), v.pop().unwrap(), op, i)), blend_case),
            sub("blend", 30_000, 1_000_000, || (img(6), img(6), 0u8..12, intensity()), blend_case),
            sub("blend-color", 600_000, 20_000_000, || (px(), px(), 0u8..12, intensity()), color_case),
        ],
    }
}
