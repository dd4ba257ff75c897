//! C07 resizing, C08 rotation by arbitrary angles
use d10::ops;
use d10::{FilterMode, Image, Rgb};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use d10_verif::refmath::*;
use proptest::prelude::*;

pub const FILTERS: [(FilterMode, &str); 5] = [
    (FilterMode::Nearest, "nearest"),
    (FilterMode::Bilinear, "bilinear"),
    (FilterMode::Bicubic, "bicubic"),
    (FilterMode::Lanczos3, "lanczos3"),
    (FilterMode::Auto, "auto"),
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Linear,
    Cubic,
    /// Lanczos kernel with three lobes stretched to this radius
    Lanczos(u32),
}

fn sinc(v: f64) -> f64 {
    if v == 0.0 {
        1.0
    } else {
        let v = v * std::f64::consts::PI;
        v.sin() / v
    }
}

impl K {
    fn radius(self) -> i64 {
        match self {
            K::Linear => 1,
            K::Cubic => 2,
            K::Lanczos(r) => r as i64,
        }
    }
    fn weight(self, v: f64) -> f64 {
        let v = v.abs();
        match self {
            K::Linear => (1.0 - v).max(0.0),
            K::Cubic => {
                // Catmull-Rom
                if v <= 1.0 {
                    1.5 * v * v * v - 2.5 * v * v + 1.0
                } else if v < 2.0 {
                    -0.5 * v * v * v + 2.5 * v * v - 4.0 * v + 2.0
                } else {
                    0.0
                }
            }
            K::Lanczos(r) => {
                let v = v * 3.0 / r as f64;
                if v < 3.0 {
                    sinc(v) * sinc(v / 3.0)
                } else {
                    0.0
                }
            }
        }
    }
    /// Normalised weights of the source positions around `pos`
    fn taps(self, pos: f64) -> Vec<(i64, f64)> {
        let b = pos.floor() as i64;
        let r = self.radius();
        let mut t: Vec<(i64, f64)> = (b - r..=b + r + 1).map(|i| (i, self.weight(i as f64 - pos))).collect();
        let sum: f64 = t.iter().map(|t| t.1).sum();
        t.iter_mut().for_each(|t| t.1 /= sum);
        t
    }
}

pub fn interpolate(img: &Img, k: K, x: f64, y: f64) -> [f64; 4] {
    let tx = k.taps(x);
    let ty = k.taps(y);
    let mut r = [0.0; 4];
    for (yy, wy) in &ty {
        for (xx, wx) in &tx {
            let p = img.clamped64(*xx, *yy);
            for i in 0..4 {
                r[i] += p[i] * wx * wy;
            }
        }
    }
    r.map(clamp01)
}

/// How much the kernel can amplify an error of the position (per channel range)
fn slope(k: K) -> f64 {
    match k {
        K::Linear => 2.0,
        K::Cubic => 5.0,
        K::Lanczos(_) => 8.0,
    }
}

fn compare_with(got: &Img, want: &[[f64; 4]], tol: f64) -> Option<String> {
    for (i, (g, w)) in got.data.iter().zip(want).enumerate() {
        if !close4(*g, *w, tol) {
            return Some(format!(
                "pixel {},{} is {g:?} instead of {w:?} (tolerance {tol:e})",
                i as u32 % got.w,
                i as u32 / got.w
            ));
        }
    }
    None
}

fn resize_model(img: &Img, nw: u32, nh: u32, k: K) -> Vec<[f64; 4]> {
    let px: Vec<Vec<(i64, f64)>> =
        (0..nw).map(|x| k.taps((x as f64 + 0.5) * img.w as f64 / nw as f64 - 0.5)).collect();
    let py: Vec<Vec<(i64, f64)>> =
        (0..nh).map(|y| k.taps((y as f64 + 0.5) * img.h as f64 / nh as f64 - 0.5)).collect();
    // rows first
    let mut rows = vec![[0.0f64; 4]; (nw * img.h) as usize];
    for y in 0..img.h {
        for (x, t) in px.iter().enumerate() {
            let r = &mut rows[(y * nw) as usize + x];
            for (i, w) in t {
                let p = img.clamped64(*i, y as i64);
                for c in 0..4 {
                    r[c] += p[c] * w;
                }
            }
        }
    }
    let mut out = vec![];
    for t in &py {
        for x in 0..nw {
            let mut r = [0.0f64; 4];
            for (i, w) in t {
                let p = rows[(*i).clamp(0, img.h as i64 - 1) as usize * nw as usize + x as usize];
                for c in 0..4 {
                    r[c] += p[c] * w;
                }
            }
            out.push(r.map(clamp01));
        }
    }
    out
}

fn uniform(img: &Img) -> bool {
    img.data.iter().all(|p| p.map(f32::to_bits) == img.data[0].map(f32::to_bits))
}

fn extremes(img: &Img) -> ([f32; 4], [f32; 4]) {
    let mut lo = [f32::INFINITY; 4];
    let mut hi = [f32::NEG_INFINITY; 4];
    for p in &img.data {
        for i in 0..4 {
            lo[i] = lo[i].min(p[i]);
            hi[i] = hi[i].max(p[i]);
        }
    }
    (lo, hi)
}

fn resize_case(v: &(Img, u32, u32, u8), c: &mut Case) -> Res {
    let (img, nw, nh, f) = v;
    let (nw, nh) = (*nw, *nh);
    let (filter, name) = FILTERS[*f as usize % 5];
    let what = format!("{name} {}x{} to {nw}x{nh}", img.w, img.h);
    let buf = img.buf();
    let im = Image::new_from_buffer(buf.clone());
    let out = Img::from_buf(im.resize(nw, nh, filter).buffer());
    let direct = Img::from_buf(&ops::resize(&buf, nw, nh, filter));
    ensure!(out == direct, "facade", "{what}: image and buffer level differ");
    ensure!(Img::from_buf(im.buffer()) == *img, "input-changed", "{what}");
    ensure!(
        out.w == nw && out.h == nh && out.data.len() as u32 == nw * nh,
        "size",
        "{what}: got {}x{} with {} pixels",
        out.w,
        out.h,
        out.data.len()
    );
    for p in &out.data {
        ensure!(p.iter().all(|v| v.is_finite() && *v >= 0.0 && *v <= 1.0), "range", "{what}: {p:?}");
    }
    c.label(name);
    c.hit_if(img.distinct() > 1 && (nw, nh) != (img.w, img.h));
    if (nw, nh) == (img.w, img.h) {
        c.label("same size");
        ensure!(out == *img, "identity", "{what}: the image changed");
        return Ok(());
    }
    if uniform(img) {
        c.label("uniform");
        for p in &out.data {
            ensure!(close4(*p, c64(img.data[0]), 1e-5), "uniform", "{what}: {:?} became {p:?}", img.data[0]);
        }
    }
    if matches!(filter, FilterMode::Nearest | FilterMode::Bilinear) {
        let (lo, hi) = extremes(img);
        for p in &out.data {
            for i in 0..4 {
                ensure!(p[i] >= lo[i] - 1e-6 && p[i] <= hi[i] + 1e-6, "extremes", "{what}: {p:?} outside of {lo:?} {hi:?}");
            }
        }
    }
    let tol = |k: K| 3e-6 + img.w.max(img.h) as f64 * 3e-7 * slope(k) + if let K::Lanczos(_) = k { 2e-5 } else { 0.0 };
    let kernels: Vec<K> = match filter {
        FilterMode::Nearest => {
            let near = |p: f64, l: u32| {
                // rounding of the two divisions in f32
                let d = 1e-4 + p * 3e-7;
                let a = ((p - d).floor() as i64).clamp(0, l as i64 - 1);
                let b = ((p + d).floor() as i64).clamp(0, l as i64 - 1);
                [a, b]
            };
            for y in 0..nh {
                for x in 0..nw {
                    let sx = near((x as f64 + 0.5) * img.w as f64 / nw as f64, img.w);
                    let sy = near((y as f64 + 0.5) * img.h as f64 / nh as f64, img.h);
                    let g = out.px(x, y);
                    let ok = sx.iter().any(|a| sy.iter().any(|b| img.px(*a as u32, *b as u32).map(f32::to_bits) == g.map(f32::to_bits)));
                    ensure!(ok, "nearest", "{what}: pixel {x},{y} is {g:?}, expected the one at {sx:?} {sy:?}");
                }
            }
            return Ok(());
        }
        FilterMode::Bilinear => vec![K::Linear],
        FilterMode::Bicubic => vec![K::Cubic],
        FilterMode::Lanczos3 => vec![K::Lanczos(3)],
        FilterMode::Auto => {
            if nw >= img.w || nh >= img.h {
                c.label("auto: bicubic");
                vec![K::Cubic]
            } else {
                let s = (nw as f64 / img.w as f64).min(nh as f64 / img.h as f64);
                let r = 2.0 / s;
                let d = 1e-4 + r * 3e-7;
                let a = (r - d).max(3.0).ceil() as u32;
                let b = (r + d).max(3.0).ceil() as u32;
                c.label(format!("auto: lanczos radius {}", if a > 7 { "8+".to_string() } else { a.to_string() }));
                if a == b {
                    vec![K::Lanczos(a)]
                } else {
                    vec![K::Lanczos(a), K::Lanczos(b)]
                }
            }
        }
    };
    let mut err = None;
    for k in kernels {
        match compare_with(&out, &resize_model(img, nw, nh, k), tol(k)) {
            None => return Ok(()),
            Some(e) => err = Some(format!("{k:?}: {e}")),
        }
    }
    fail(format!("{name}-value"), format!("{what}: {}", err.unwrap()))
}

fn mirror_case(v: &(Img, u32, u32, u8), c: &mut Case) -> Res {
    let (img, nw, nh, f) = v;
    let (filter, name) = FILTERS[1 + *f as usize % 4];
    let im = Image::new_from_buffer(img.buf());
    c.label(name);
    c.hit_if(img.distinct() > 1 && img.w > 1);
    let tol = 5e-5 + img.w.max(img.h) as f64 * 3e-6;
    let a = Img::from_buf(im.resize(*nw, *nh, filter).flip_horizontal().buffer());
    let b = Img::from_buf(im.flip_horizontal().resize(*nw, *nh, filter).buffer());
    if let Some(e) = compare_with(&a, &b.data.iter().map(|p| c64(*p)).collect::<Vec<_>>(), tol) {
        return fail("mirror", format!("{name} {}x{} to {nw}x{nh} flipped: {e}", img.w, img.h));
    }
    let a = Img::from_buf(im.resize(*nw, *nh, filter).rotate90().buffer());
    let b = Img::from_buf(im.rotate90().resize(*nh, *nw, filter).buffer());
    if let Some(e) = compare_with(&a, &b.data.iter().map(|p| c64(*p)).collect::<Vec<_>>(), tol) {
        return fail("transpose", format!("{name} {}x{} to {nw}x{nh} turned: {e}", img.w, img.h));
    }
    Ok(())
}

fn pct_case(v: &(Img, f32, u8), c: &mut Case) -> Res {
    let (img, pct, f) = v;
    let (filter, name) = FILTERS[*f as usize % 5];
    let im = Image::new_from_buffer(img.buf());
    let out = im.resize_pct(*pct, filter);
    let ok = |got: u32, l: u32| {
        let v = l as f64 * *pct as f64 / 100.0;
        let d = 1e-6 + 3e-7 * v.abs();
        (((v - d).round().max(1.0)) as u32..=((v + d).round().max(1.0)) as u32).contains(&got)
    };
    ensure!(
        ok(out.width(), img.w) && ok(out.height(), img.h),
        "pct-size",
        "{pct}% of {}x{} is {}x{}",
        img.w,
        img.h,
        out.width(),
        out.height()
    );
    let want = im.resize(out.width(), out.height(), filter);
    ensure!(Img::from_buf(out.buffer()) == Img::from_buf(want.buffer()), "pct-content", "{pct}% {name}");
    c.hit_if(*pct != 100.0 && img.distinct() > 1);
    Ok(())
}

fn target() -> BoxedStrategy<u32> {
    prop_oneof![4 => 1u32..=24, 2 => 1u32..=4, 1 => 1u32..=60].boxed()
}

fn with_target(max: u32) -> BoxedStrategy<(Img, u32, u32, u8)> {
    (img(max), target(), target(), 0u8..5, 0u8..8)
        .prop_map(|(i, w, h, f, special)| {
            let (w, h) = match special {
                0 => (i.w, i.h),
                1 => (i.w * 2, i.h * 2),
                2 => (i.w.div_ceil(2), i.h.div_ceil(2)),
                3 => ((i.w * 2).div_ceil(3), (i.h * 2).div_ceil(3)),
                4 => (i.w, h),
                _ => (w, h),
            };
            (i, w, h, f)
        })
        .boxed()
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        level: "exploration",
        rule: "a case counts if the image has different pixels and its size changes",
        assumptions: vec!["the f64 resampler of the harness is the definition", "images up to 40 pixels per side"],
        subs: vec![
            sub("model", 24_000, 800_000, || with_target(20), resize_case),
            sub("shrink", 6_000, 200_000, || {
                (20u32..=40, 20u32..=40).prop_flat_map(|d| (img_of(Just(d).boxed(), AlphaMode::Any), 1..=d.0, 1..=d.1, 2u8..5))
            }, resize_case),
            sub("large", 200, 10_000, || {
                let d = prop_oneof![(60u32..300, 1u32..60), (1u32..60, 60u32..300)];
                let t = || prop_oneof![1u32..=300, 1u32..40];
                (img_of(d.boxed(), AlphaMode::Any), t(), t(), 0u8..5)
            }, resize_case),
            sub("huge", 24, 600, || (big(100_000), prop_oneof![1u32..=400, 1u32..=30], prop_oneof![1u32..=400, 1u32..=30], 0u8..5), resize_case),
            // by a few pixels only, along sides of all lengths
            sub("nudge", 250, 6_000, || {
                let d = || prop_oneof![2 => Just(0i32), 2 => -1..=1i32, 1 => -9..=9i32];
                (big(70_000), d(), d(), 0u8..5).prop_map(|(i, a, b, f)| {
                    let (w, h) = (i.w.saturating_add_signed(a).max(1), i.h.saturating_add_signed(b).max(1));
                    (i, w, h, f)
                })
            }, resize_case),
            sub("mirror", 4_000, 100_000, || with_target(16), mirror_case),
            sub("pct-large", 60, 2_000, || (big(70_000), prop_oneof![1.0f32..200.0, 99.9f32..100.1, 0.001f32..1.0], 0u8..3), pct_case),
            sub("pct", 2_000, 100_000, || {
                (img(14), prop_oneof![4 => (1u32..=3000).prop_map(|v| v as f32 / 10.0), 1 => prop::sample::select(vec![0.0f32, 100.0, 50.0, 200.0, -5.0, 1e-6, 33.333])], 0u8..5)
            }, pct_case),
        ],
    }
}

const PI: f64 = std::f64::consts::PI;

/// Position in the input that an output pixel shows, and the error of computing it in f32
fn back(img: &Img, deg: f64, x: u32, y: u32) -> (f64, f64, f64) {
    let t = -deg * PI / 180.0;
    let (cx, cy) = ((img.w as f64 - 1.0) / 2.0, (img.h as f64 - 1.0) / 2.0);
    let (a, b) = (x as f64 - cx, y as f64 - cy);
    let err = (t.abs() * 3e-7 + 3e-7) * (a.abs() + b.abs() + 1.0) + (img.w + img.h) as f64 * 2e-7;
    (a * t.cos() - b * t.sin() + cx, a * t.sin() + b * t.cos() + cy, err)
}

fn rotate_case(v: &(Img, f32, u8, Option<Px>), c: &mut Case) -> Res {
    let (img, deg, f, bg) = v;
    let (filter, name) = FILTERS[*f as usize % 5];
    let buf = img.buf();
    let out = match bg {
        // the image has no background colour of its own: uncovered pixels are transparent
        None => Image::new_from_buffer(buf.clone()).rotate(*deg, filter).buffer().clone(),
        Some(b) => ops::rotate(&buf, *deg, Rgb { data: *b }, filter),
    };
    ensure!(Img::from_buf(&buf) == *img, "input-changed", "{name} {deg}");
    let out = Img::from_buf(&out);
    let what = format!("{name} {deg} degrees of {}x{}", img.w, img.h);
    ensure!(out.w == img.w && out.h == img.h, "size", "{what}: {}x{}", out.w, out.h);
    let bgc = bg.unwrap_or([0.0; 4]);
    c.label(name);
    let k = match filter {
        FilterMode::Nearest => None,
        FilterMode::Bilinear => Some(K::Linear),
        FilterMode::Bicubic | FilterMode::Auto => Some(K::Cubic),
        FilterMode::Lanczos3 => Some(K::Lanczos(3)),
    };
    let (mut ins, mut outs, mut unsure) = (0, 0, 0);
    for y in 0..img.h {
        for x in 0..img.w {
            let (sx, sy, err) = back(img, *deg as f64, x, y);
            let g = out.px(x, y);
            ensure!(g.iter().all(|v| v.is_finite()), "finite", "{what}: pixel {x},{y} is {g:?}");
            // candidates of the nearest pixel
            let near = |p: f64, l: u32| {
                let mut v = vec![(p - err + 0.5).floor() as i64, (p + err + 0.5).floor() as i64];
                v.dedup();
                v.into_iter().map(|i| if i >= 0 && i < l as i64 { Some(i as u32) } else { None }).collect::<Vec<_>>()
            };
            let (nx, ny) = (near(sx, img.w), near(sy, img.h));
            let may_in = nx.iter().any(|v| v.is_some()) && ny.iter().any(|v| v.is_some());
            let may_out = nx.iter().any(|v| v.is_none()) || ny.iter().any(|v| v.is_none());
            let is_bg = g.map(f32::to_bits) == bgc.map(f32::to_bits);
            if may_in && may_out {
                unsure += 1;
            } else if may_in {
                ins += 1;
            } else {
                outs += 1;
            }
            let in_ok = may_in
                && match k {
                    None => nx.iter().flatten().any(|a| {
                        ny.iter().flatten().any(|b| img.px(*a, *b).map(f32::to_bits) == g.map(f32::to_bits))
                    }),
                    Some(k) => {
                        let tol = 5e-6 + err * slope(k) + if let K::Lanczos(_) = k { 2e-5 } else { 0.0 };
                        close4(g, interpolate(img, k, sx, sy), tol)
                    }
                };
            ensure!(
                in_ok || (may_out && is_bg),
                if may_in && !may_out { "value" } else { "background" },
                "{what}: pixel {x},{y} is {g:?}, it shows position {sx},{sy} (background {bgc:?}, expected {:?})",
                k.map(|k| interpolate(img, k, sx, sy))
            );
        }
    }
    c.hit_if(img.distinct() > 1 && ins > 1);
    c.label_if(outs > 0, "uncovered pixels");
    c.label_if(unsure > 0, "undecided border pixels");
    Ok(())
}

/// Multiples of 90 degrees permute pixels exactly
fn right_angle(v: &(Img, i32, u8), c: &mut Case) -> Res {
    let (img, quarter, f) = v;
    let (filter, name) = FILTERS[*f as usize % 5];
    let im = Image::new_from_buffer(img.buf());
    let q = quarter.rem_euclid(4);
    // a quarter turn keeps the grid only if width and height have the same parity
    if q % 2 == 1 && (img.w + img.h) % 2 == 1 {
        return Ok(());
    }
    let out = Img::from_buf(im.rotate(*quarter as f32 * 90.0, filter).buffer());
    let turned = Img::from_buf(match q {
        0 => im.clone(),
        1 => im.rotate90(),
        2 => im.rotate180(),
        _ => im.rotate270(),
    }.buffer());
    c.label(name);
    c.label(format!("{} quarter turns", q));
    c.hit_if(img.distinct() > 1);
    // the rotated image keeps the canvas: centre the turned image on it
    let dx = (turned.w as i64 - img.w as i64) / 2;
    let dy = (turned.h as i64 - img.h as i64) / 2;
    // position errors, magnified by the kernel
    let tol = 1e-5 + (quarter.abs() as f64 + 1.0) * 1e-6 * (img.w + img.h) as f64 * 4.0;
    for y in 0..img.h {
        for x in 0..img.w {
            let (sx, sy) = (x as i64 + dx, y as i64 + dy);
            let inside = sx >= 0 && sy >= 0 && sx < turned.w as i64 && sy < turned.h as i64;
            let want = if inside { c64(turned.px(sx as u32, sy as u32)) } else { [0.0; 4] };
            let g = out.px(x, y);
            let t = if matches!(filter, FilterMode::Nearest) || !inside { 0.0 } else { tol };
            ensure!(close4(g, want, t), "right-angle", "{name} {} degrees of {}x{}: pixel {x},{y} is {g:?} instead of {want:?}", quarter * 90, img.w, img.h);
        }
    }
    Ok(())
}

/// Angles that differ by whole turns give the same image
fn periodic(v: &(Img, f32, i8, u8), c: &mut Case) -> Res {
    let (img, deg, turns, f) = v;
    let (filter, name) = FILTERS[1 + *f as usize % 4];
    let im = Image::new_from_buffer(img.buf());
    let deg2 = *deg + *turns as f32 * 360.0;
    let a = Img::from_buf(im.rotate(*deg, filter).buffer());
    let b = Img::from_buf(im.rotate(deg2, filter).buffer());
    for y in 0..img.h {
        for x in 0..img.w {
            let (sx, sy, e1) = back(img, *deg as f64, x, y);
            let (_, _, e2) = back(img, deg2 as f64, x, y);
            let err = e1 + e2 + (img.w + img.h) as f64 * deg2.abs() as f64 * 1e-8;
            let edge = |p: f64, l: u32| (p + 0.5).abs() < 2.0 * err || (p - l as f64 + 0.5).abs() < 2.0 * err;
            if edge(sx, img.w) || edge(sy, img.h) {
                continue;
            }
            let tol = 1e-5 + err * 10.0;
            let (p, q) = (a.px(x, y), b.px(x, y));
            ensure!(close4(p, c64(q), tol), "periodic", "{name} {deg} and {deg2} degrees: pixel {x},{y} {p:?} {q:?}");
        }
    }
    c.hit_if(img.distinct() > 1 && *turns != 0);
    Ok(())
}

fn angle() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => (-3600i32..=3600).prop_map(|v| v as f32 / 10.0),
        2 => (-36000i32..=36000).prop_map(|v| v as f32 / 10.0),
        2 => (-12i32..=12).prop_map(|v| v as f32 * 45.0),
        1 => prop::sample::select(vec![0.0f32, 0.1, -0.1, 359.9, 360.0, 360.1, 720.0, -360.0, 1e-3, 89.99, 90.01]),
    ]
    .boxed()
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        level: "exploration",
        rule: "a case counts if the image has different pixels and more than one of them stays visible (or, for the periodic law, at least one whole turn is added)",
        assumptions: vec!["the f64 inverse mapping of the harness is the definition", "a pixel whose position is closer to the image border than the f32 error may be background or content"],
        subs: vec![
            sub("model", 40_000, 1_500_000, || {
                (img(18), angle(), 0u8..5, prop_oneof![1 => Just(None), 1 => px().prop_map(Some)])
            }, rotate_case),
            sub("large", 300, 10_000, || {
                let d = prop_oneof![(40u32..160, 1u32..60), (1u32..60, 40u32..160)];
                (img_of(d.boxed(), AlphaMode::Any), angle(), 0u8..5, prop_oneof![1 => Just(None), 1 => px().prop_map(Some)])
            }, rotate_case),
            sub("huge", 24, 600, || (big(60_000), angle(), 0u8..5, prop_oneof![1 => Just(None), 1 => px().prop_map(Some)]), rotate_case),
            sub("right-angle", 20_000, 300_000, || (img(18), -20i32..=20, 0u8..5), right_angle),
            sub("periodic", 10_000, 100_000, || (img(14), angle(), -10i8..=10, 0u8..4), periodic),
        ],
    }
}
