//! C25 purity and determinism of the image facade
use d10::ops::{self, BalanceMode, BlendOp, DrawingMode, SaturationMode};
use d10::{Color, EdgeDetection, EncodingFormat, EqualizeMode, FilterMode, Image, PixelBuffer, Rgb};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub kind: u8,
    /// source image and second image
    pub i: u8,
    pub j: u8,
    pub mode: u8,
    pub a: u32,
    pub b: u32,
    pub f: f32,
    pub g: f32,
    pub flag: bool,
}

pub const NAMES: [&str; 33] = [
    "crop", "flip_horizontal", "flip_vertical", "rotate90", "rotate180", "rotate270", "rotate", "edge_detection", "resize",
    "resize_pct", "with_jpeg_quality", "gaussian_blur", "unsharp", "white_balance", "balance", "blend", "drawing", "interlace",
    "apply_palette", "despeckle", "stretch_contrast", "optimize_saturation", "change_color_temperature",
    "optimize_color_temperature", "optimize_lightness", "equalize", "symmetric_nearest_neighbor", "compose", "compose_slice",
    "map_colors", "map_colors_enumerated", "try_map_colors", "try_map_colors_enumerated",
];

const FILTERS: [FilterMode; 5] = [FilterMode::Nearest, FilterMode::Bilinear, FilterMode::Bicubic, FilterMode::Lanczos3, FilterMode::Auto];
fn blend_op(i: usize) -> BlendOp {
    let all = [
    BlendOp::Normal, BlendOp::Addition, BlendOp::Subtract, BlendOp::Darken, BlendOp::Lighten, BlendOp::HslDarken,
    BlendOp::HslLighten, BlendOp::LchDarken, BlendOp::LchLighten, BlendOp::LchHue, BlendOp::LchSaturation, BlendOp::LchColor,
];
    all.into_iter().nth(i).unwrap()
}
const BALANCE: [BalanceMode; 5] = [BalanceMode::Rgb, BalanceMode::Srgb, BalanceMode::Hsv, BalanceMode::Hsl, BalanceMode::Lch];
const EQ: [EqualizeMode; 5] =
    [EqualizeMode::Rgb, EqualizeMode::Srgb, EqualizeMode::Saturation, EqualizeMode::Lightness, EqualizeMode::SaturationLightness];
const SAT: [SaturationMode; 3] = [SaturationMode::Hsl, SaturationMode::Hsv, SaturationMode::Lch];
const DRAW: [DrawingMode; 3] = [DrawingMode::Gray, DrawingMode::Colored, DrawingMode::ReducedColors];

fn mix(x: u32, y: u32, c: &Rgb, k: f32) -> Rgb {
    let t = ((x * 3 + y * 5) % 8) as f32 / 8.0;
    Rgb { data: [c.data[1] * k.clamp(0.0, 1.0), t, 1.0 - c.data[0], c.data[3]] }
}

fn comp(x: u32, y: u32, c: &[Rgb], k: f32) -> Rgb {
    let n = c.len() as f32;
    let mut s = [0f32; 4];
    for p in c {
        for i in 0..4 {
            s[i] += p.data[i] / n;
        }
    }
    mix(x, y, &Rgb { data: s.map(|v| v.clamp(0.0, 1.0)) }, k)
}

fn pct(op: &Op) -> f32 {
    // results stay small
    (op.f.abs() * 100.0).min(300.0)
}

pub fn facade(op: &Op, im: &Image, other: &Image) -> Image {
    let m = op.mode as usize;
    let filter = FILTERS[m % 5];
    match NAMES[op.kind as usize] {
        "crop" => im.crop(op.a % im.width(), op.b % im.height(), op.a / 7 + 1, op.b / 7 + 1),
        "flip_horizontal" => im.flip_horizontal(),
        "flip_vertical" => im.flip_vertical(),
        "rotate90" => im.rotate90(),
        "rotate180" => im.rotate180(),
        "rotate270" => im.rotate270(),
        "rotate" => im.rotate(op.f * 100.0, filter),
        "edge_detection" => im.edge_detection(if op.flag { EdgeDetection::Sobel } else { EdgeDetection::Laplace }),
        "resize" => im.resize(op.a % 20 + 1, op.b % 20 + 1, filter),
        "resize_pct" => im.resize_pct(pct(op), filter),
        "with_jpeg_quality" => im.with_jpeg_quality((op.a % 101) as u8, op.flag),
        "gaussian_blur" => im.gaussian_blur(op.a % 6, op.flag.then_some(op.f.abs())),
        "unsharp" => im.unsharp(op.a % 6, op.g, op.flag.then_some(op.f.abs())),
        "white_balance" => im.white_balance(op.f.abs()),
        "balance" => im.balance(BALANCE[m % 5], op.f.abs()),
        "blend" => im.blend(other, blend_op(m % 12), op.f.abs().min(1.0)),
        "drawing" => im.drawing(op.a % 5, DRAW[m % 3]),
        "interlace" => im.interlace(op.a % 12),
        "apply_palette" => im.apply_palette(other),
        "despeckle" => im.despeckle(op.f.abs().min(1.0), (op.a % 10) as u8),
        "stretch_contrast" => im.stretch_contrast(op.f.abs()),
        "optimize_saturation" => im.optimize_saturation(op.f, SAT[m % 3]),
        "change_color_temperature" => {
            im.change_color_temperature((op.a % 100 * 200) as f32 + 1000.0, (op.b % 100 * 200) as f32 + 1000.0, op.f)
        }
        "optimize_color_temperature" => im.optimize_color_temperature(op.f, op.g),
        "optimize_lightness" => im.optimize_lightness(op.f),
        "equalize" => im.equalize(EQ[m % 5]),
        "symmetric_nearest_neighbor" => im.symmetric_nearest_neighbor((op.a % 4) as usize, op.flag),
        "compose" => Image::compose([im, other], Rgb::WHITE, |x, y, c| comp(x, y, &c, op.f)),
        "compose_slice" => Image::compose_slice(&[im, other, im], Rgb::NONE, |x, y, c| comp(x, y, c, op.f)),
        "map_colors" => im.map_colors(|c| mix(0, 0, c, op.f)),
        "map_colors_enumerated" => im.map_colors_enumerated(|x, y, c| mix(x, y, c, op.f)),
        "try_map_colors" => im.try_map_colors(|c| Ok::<_, ()>(mix(0, 0, c, op.f))).unwrap(),
        "try_map_colors_enumerated" => im.try_map_colors_enumerated(|x, y, c| Ok::<_, ()>(mix(x, y, c, op.f))).unwrap(),
        _ => unreachable!(),
    }
}

/// The corresponding buffer level operation
fn direct(op: &Op, im: &PixelBuffer<Rgb>, other: &PixelBuffer<Rgb>) -> PixelBuffer<Rgb> {
    let m = op.mode as usize;
    let filter = FILTERS[m % 5];
    let sigma = op.flag.then_some(op.f.abs());
    match NAMES[op.kind as usize] {
        "crop" => ops::crop(im, op.a % im.width(), op.b % im.height(), op.a / 7 + 1, op.b / 7 + 1),
        "flip_horizontal" => ops::flip_horizontal(im),
        "flip_vertical" => ops::flip_vertical(im),
        "rotate90" => ops::rotate90(im),
        "rotate180" => ops::rotate180(im),
        "rotate270" => ops::rotate270(im),
        "rotate" => ops::rotate(im, op.f * 100.0, Rgb::NONE, filter),
        "edge_detection" => ops::edge_detection(im, if op.flag { EdgeDetection::Sobel } else { EdgeDetection::Laplace }),
        "resize" => ops::resize(im, op.a % 20 + 1, op.b % 20 + 1, filter),
        "resize_pct" => {
            let k = pct(op) / 100.0;
            let s = |v: u32| ((v as f32 * k).round() as u32).max(1);
            ops::resize(im, s(im.width()), s(im.height()), filter)
        }
        "with_jpeg_quality" => ops::jpeg_quality(im, (op.a % 101) as u8, op.flag),
        "gaussian_blur" => ops::gaussian_blur(im, op.a % 6, sigma),
        "unsharp" => ops::unsharp(im, op.a % 6, op.g, sigma),
        "white_balance" => ops::balance(im, BalanceMode::Rgb, op.f.abs()),
        "balance" => ops::balance(im, BALANCE[m % 5], op.f.abs()),
        "blend" => ops::blend_image(im, other, blend_op(m % 12), op.f.abs().min(1.0)),
        "drawing" => ops::drawing(im, op.a % 5, DRAW[m % 3]),
        "interlace" => ops::interlace(im, op.a % 12),
        "apply_palette" => ops::apply_palette(im, other),
        "despeckle" => ops::despeckle(im, op.f.abs().min(1.0), (op.a % 10) as u8),
        "stretch_contrast" => ops::stretch_contrast(im, op.f.abs()),
        "optimize_saturation" => ops::optimize_saturation(im, op.f, SAT[m % 3]),
        "change_color_temperature" => {
            ops::change_color_temperature(im, (op.a % 100 * 200) as f32 + 1000.0, (op.b % 100 * 200) as f32 + 1000.0, op.f)
        }
        "optimize_color_temperature" => ops::optimize_color_temperature(im, op.f, op.g),
        "optimize_lightness" => ops::optimize_lightness(im, op.f),
        "equalize" => ops::equalize(im, EQ[m % 5]),
        "symmetric_nearest_neighbor" => ops::symmetric_nearest_neighbor(im, (op.a % 4) as usize, op.flag),
        "compose" => ops::compose_slice(&[im, other], Rgb::WHITE, |x, y, c| comp(x, y, c, op.f)),
        "compose_slice" => ops::compose([im, other, im], Rgb::NONE, |x, y, c| comp(x, y, &c, op.f)),
        // the mapping functions are defined by their pixels
        name => {
            let e = name.ends_with("enumerated");
            PixelBuffer::new_from_func(im.width(), im.height(), |x, y| {
                mix(if e { x } else { 0 }, if e { y } else { 0 }, im.get_pixel(x, y), op.f)
            })
        }
    }
}

pub type Bits = (u32, u32, Vec<[u32; 4]>);

pub fn bits(im: &PixelBuffer<Rgb>) -> Bits {
    (im.width(), im.height(), im.data().iter().map(|p| p.data.map(f32::to_bits)).collect())
}

pub fn describe(op: &Op) -> String {
    format!("{} ({op:?})", NAMES[op.kind as usize])
}

/// Changes an image in place
fn mutate(op: &Op, im: &mut Image) {
    let (w, h) = (im.width(), im.height());
    match op.mode % 9 {
        0 => im.put_pixel(op.a % w, op.b % h, Rgb::new(0.111, 0.222, 0.333)),
        1 => im.mod_colors(|c| mix(1, 2, c, op.f)),
        2 => im.add_random_noise(op.f.abs().min(1.0)),
        3 => im.add_gaussian_noise(op.f.abs().min(1.0)),
        4 => im.add_rgb_noise(op.f.abs().min(1.0)),
        5 => im.add_salt_n_pepper_noise(op.f.abs().min(1.0)),
        6 => im.data_mut().reverse(),
        7 => im.buffer_mut().put_pixel(op.a % w, op.b % h, Rgb::NONE),
        _ => im.mod_colors_enumerated(|x, y, c| mix(x, y, c, op.f)),
    }
}

/// Changes an image in place without random numbers
pub fn mutate_fixed(op: &Op, im: &mut Image) {
    let mode = if (2..6).contains(&(op.mode % 9)) { 1 } else { op.mode % 9 };
    mutate(&Op { mode, ..op.clone() }, im)
}

fn history_case(v: &(Vec<Img>, Vec<Op>), c: &mut Case) -> Res {
    let (imgs, ops) = v;
    let mut pool: Vec<Image> = imgs.iter().map(|i| Image::new_from_buffer(i.buf())).collect();
    let mut snap: Vec<_> = pool.iter().map(|i| bits(i.buffer())).collect();
    let mut log: Vec<(usize, usize, &Op, (u32, u32, Vec<[u32; 4]>))> = vec![];
    let mut changed = 0;
    let intact = |pool: &[Image], snap: &[(u32, u32, Vec<[u32; 4]>)], what: &str| -> Res {
        for (k, (p, s)) in pool.iter().zip(snap).enumerate() {
            ensure!(bits(p.buffer()) == *s, "input-changed", "image {k} was changed by {what}");
        }
        Ok(())
    };
    for op in ops {
        let (i, j) = (op.i as usize % pool.len(), op.j as usize % pool.len());
        if op.kind as usize >= NAMES.len() {
            // mutating or saving a clone leaves the original
            let mut cl = pool[i].clone();
            ensure!(bits(cl.buffer()) == snap[i], "clone", "clone of image {i} differs");
            if op.flag {
                mutate(op, &mut cl);
                intact(&pool, &snap, &format!("changing a clone of image {i} ({op:?})"))?;
            } else {
                let fmt = match op.mode % 6 {
                    0 => EncodingFormat::png_default(),
                    1 => EncodingFormat::jpeg_with_quality(50),
                    2 => EncodingFormat::bmp_default(),
                    3 => EncodingFormat::gif_default(),
                    4 => EncodingFormat::ico_default(),
                    _ => EncodingFormat::webp_with_quality(70),
                };
                let name = format!("{fmt:?}");
                let side = cl.width().max(cl.height());
                let limit = [u32::MAX, 65535, u32::MAX, 65535, 256, 16383][op.mode as usize % 6];
                let (a, b) = match (pool[i].save_to_buffer(fmt.clone()), cl.save_to_buffer(fmt)) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(_), Err(_)) if side > limit => (vec![], vec![]),
                    (Err(e), _) | (_, Err(e)) => return Err(err("save", format!("{name}: {e}"))),
                };
                ensure!(a == b, "save-again", "saving image {i} twice as {name} gave different files");
                intact(&pool, &snap, &format!("saving as {name}"))?;
                c.label("save");
            }
            continue;
        }
        let what = describe(op);
        let out = facade(op, &pool[i], &pool[j]);
        let ob = bits(out.buffer());
        intact(&pool, &snap, &what)?;
        let d = bits(&direct(op, pool[i].buffer(), pool[j].buffer()));
        ensure!(d == ob, "facade", "{what}: the image method differs from the buffer operation");
        changed += (ob != snap[i]) as usize;
        c.label(NAMES[op.kind as usize]);
        let small = out.width() * out.height() <= 1600 && !out.is_empty();
        log.push((i, j, op, ob));
        if small && pool.len() < 10 {
            let valid = out.data().iter().all(|p| p.data.iter().all(|v| (0.0..=1.0).contains(v)));
            let out = if valid { out } else { out.map_colors(|p| p.map_color_channels(|v| if v.is_nan() { 0.5 } else { v.clamp(0.0, 1.0) })) };
            snap.push(bits(out.buffer()));
            pool.push(out);
        }
    }
    // the same results again, last one first, here and in a fresh thread
    let twice = |log: &[(usize, usize, &Op, (u32, u32, Vec<[u32; 4]>))], how: &str| -> Res {
        for (i, j, op, ob) in log.iter().rev() {
            let again = facade(op, &pool[*i], &pool[*j]);
            ensure!(bits(again.buffer()) == *ob, "repeat", "{} gave another result when repeated {how}", describe(op));
        }
        Ok(())
    };
    twice(&log, "later")?;
    let shared = super::threads::Shared((&twice, &log));
    std::thread::scope(|s| s.spawn(|| (shared.get().0)(shared.get().1, "in another thread")).join().map_err(|_| err("panic", "panicked in another thread"))?)?;
    intact(&pool, &snap, "repeating the operations")?;
    c.hit_if(changed >= 2 || (ops.len() == 1 && changed == 1));
    c.label_if(log.iter().any(|(i, ..)| *i >= imgs.len()), "operation on a result");
    Ok(())
}

/// In-place variants equal the mapping variants, errors stop them
fn mods_case(v: &(Img, f32, Option<u32>), c: &mut Case) -> Res {
    let (img, k, stop) = v;
    let im = Image::new_from_buffer(img.buf());
    let n = img.w * img.h;
    let stop = stop.map(|s| s % n);
    let f = |p: &Rgb| mix(0, 0, p, *k);
    let g = |x: u32, y: u32, p: &Rgb| mix(x, y, p, *k);
    let same = |a: &Image, b: &Image, what: &str| -> Res {
        ensure!(bits(a.buffer()) == bits(b.buffer()), "in-place", "{what} differs");
        Ok(())
    };
    let mut a = im.clone();
    a.mod_colors(f);
    same(&a, &im.map_colors(f), "mod_colors and map_colors")?;
    let mut a = im.clone();
    a.mod_colors_enumerated(g);
    same(&a, &im.map_colors_enumerated(g), "mod_colors_enumerated and map_colors_enumerated")?;
    let at = |x: u32, y: u32| y * img.w + x;
    let mut a = im.clone();
    let r1 = a.try_mod_colors_enumerated(|x, y, p| if stop.is_some_and(|s| at(x, y) >= s) { Err(at(x, y)) } else { Ok(g(x, y, p)) });
    let r2 = im.try_map_colors_enumerated(|x, y, p| if stop.is_some_and(|s| at(x, y) >= s) { Err(at(x, y)) } else { Ok(g(x, y, p)) });
    match (&r1, &r2, stop) {
        (Ok(()), Ok(b), None) => same(&a, b, "try_mod_colors_enumerated and try_map_colors_enumerated")?,
        (Err(x), Err(y), Some(s)) => ensure!(*x == s && *y == s, "error", "first error at {s}, reported {x} and {y}"),
        _ => ensure!(false, "error", "stop {stop:?}: {r1:?}, {:?}", r2.as_ref().map(|_| ())),
    }
    let mut a = im.clone();
    let cell = std::cell::Cell::new(0u32);
    let r1 = a.try_mod_colors(|p| {
        let i = cell.get();
        cell.set(i + 1);
        if stop.is_some_and(|s| i >= s) { Err(i) } else { Ok(f(p)) }
    });
    cell.set(0);
    let r2 = im.try_map_colors(|p| {
        let i = cell.get();
        cell.set(i + 1);
        if stop.is_some_and(|s| i >= s) { Err(i) } else { Ok(f(p)) }
    });
    match (&r1, &r2, stop) {
        (Ok(()), Ok(b), None) => same(&a, b, "try_mod_colors and try_map_colors")?,
        (Err(x), Err(y), Some(s)) => ensure!(*x == s && *y == s, "error", "first error at {s}, reported {x} and {y}"),
        _ => ensure!(false, "error", "stop {stop:?}: {r1:?}, {:?}", r2.as_ref().map(|_| ())),
    }
    c.hit_if(img.distinct() > 1);
    c.label(if stop.is_some() { "failing" } else { "complete" });
    // constructors
    let raw = Image::new_from_raw(img.w, img.h, im.data().to_vec());
    same(&raw, &im, "new_from_raw")?;
    same(&Image::new_from_raw_with_meta(&im, img.w, img.h, im.data().to_vec()), &im, "new_from_raw_with_meta")?;
    same(&Image::new_from_buffer_with_meta(&raw, img.buf()), &im, "new_from_buffer_with_meta")?;
    let p = im.data()[0];
    same(&Image::new_with_color(img.w, img.h, p), &im.map_colors(|_| p), "new_with_color")?;
    same(&Image::new(img.w, img.h), &im.map_colors(|_| Rgb::default()), "new")?;
    ensure!(
        im.has_transparency() == img.data.iter().any(|p| Rgb { data: *p }.has_transparency())
            && im.is_grayscale() == img.data.iter().all(|p| Rgb { data: *p }.is_grayscale()),
        "facade",
        "has_transparency or is_grayscale differ"
    );
    Ok(())
}

pub fn op() -> BoxedStrategy<Op> {
    let n = NAMES.len() as u8;
    let f = prop_oneof![4 => factor(), 1 => Just(0.0f32), 1 => Just(1.0f32)];
    (0u8..n + 3, any::<u8>(), any::<u8>(), any::<u8>(), 0u32..200, 0u32..200, f, factor(), any::<bool>())
        .prop_map(|(kind, i, j, mode, a, b, f, g, flag)| Op { kind, i, j, mode, a, b, f, g, flag })
        .boxed()
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        level: "exploration",
        rule: "a history counts if at least two operations changed their input (one for histories of one operation), a mapping case if the image has different pixels",
        assumptions: vec![
            "results outside of 0..1 (laplace) are clamped before later operations of the history use them",
            "empty images are not used as input of later operations",
        ],
        subs: vec![
            sub("history", 30_000, 400_000, || (vec(img(9), 1..=3), vec(op(), 1..=10)), history_case),
            sub("large", 24, 600, || (vec(big(30_000), 1..=2), vec(op(), 1..=2)), history_case),
            sub("large-mods", 40, 1_000, || (big(70_000), unit(), proptest::option::of(any::<u32>())), mods_case),
            sub("mods", 40_000, 400_000, || (img(8), unit(), proptest::option::of(any::<u32>())), mods_case),
        ],
    }
}
