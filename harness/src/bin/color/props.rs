//! C01 round trips, C02 conversions, C03 adjustments, C04 text and equality
use d10_verif::ensure;
use d10_verif::engine::*;
use d10_verif::gen::*;
use d10_verif::refmath::*;
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::{Color, Hsl, Hsv, Lab, Lch, PixelBuffer, Rgb, Srgb, Xyz, Yuv};
use proptest::collection::vec;
use proptest::prelude::*;

/// 0 rgb, 1 srgb, 2 hsl, 3 hsv, 4 yuv, 5 xyz, 6..12 lab(illuminant, observer), 12..18 lch
pub const KINDS: usize = 18;

pub fn kind_name(k: usize) -> String {
    match k {
        0 => "rgb".into(),
        1 => "srgb".into(),
        2 => "hsl".into(),
        3 => "hsv".into(),
        4 => "yuv".into(),
        5 => "xyz".into(),
        _ => {
            let i = (k - 6) % 6;
            let ill = ["D50", "D65", "E"][i / 2];
            let obs = ["O2", "O10"][i % 2];
            format!("{}<{},{}>", if k < 12 { "lab" } else { "lch" }, ill, obs)
        }
    }
}

/// Run $body with the colour type $T standing for the kind

#[macro_export]
macro_rules! with_kind {
    ($k:expr, $T:ident, $body:expr) => {
        match $k {
            0 => { type $T = Rgb; $body }
            1 => { type $T = Srgb; $body }
            2 => { type $T = Hsl; $body }
            3 => { type $T = Hsv; $body }
            4 => { type $T = Yuv; $body }
            5 => { type $T = Xyz; $body }
            6 => { type $T = Lab<D50, O2>; $body }
            7 => { type $T = Lab<D50, O10>; $body }
            8 => { type $T = Lab<D65, O2>; $body }
            9 => { type $T = Lab<D65, O10>; $body }
            10 => { type $T = Lab<E, O2>; $body }
            11 => { type $T = Lab<E, O10>; $body }
            12 => { type $T = Lch<D50, O2>; $body }
            13 => { type $T = Lch<D50, O10>; $body }
            14 => { type $T = Lch<D65, O2>; $body }
            15 => { type $T = Lch<D65, O10>; $body }
            16 => { type $T = Lch<E, O2>; $body }
            _ => { type $T = Lch<E, O10>; $body }
        }
    };
}

pub trait Make: Color {
    fn make(d: [f32; 4]) -> Self;
    fn get(&self) -> [f32; 4];
}

macro_rules! make_impl {
    ($($t:ident),*) => { $(
        impl Make for $t {
            fn make(d: [f32; 4]) -> Self { $t { data: d } }
            fn get(&self) -> [f32; 4] { self.data }
        }
    )* };
}
make_impl!(Rgb, Srgb, Hsl, Hsv, Yuv, Xyz);

impl<I: d10::Illuminant, O: d10::Observer> Make for Lab<I, O> {
    fn make(d: [f32; 4]) -> Self {
        Lab::new_with_alpha(d[0], d[1], d[2], d[3])
    }
    fn get(&self) -> [f32; 4] {
        self.data
    }
}
impl<I: d10::Illuminant, O: d10::Observer> Make for Lch<I, O> {
    fn make(d: [f32; 4]) -> Self {
        Lch::new_with_alpha(d[0], d[1], d[2], d[3])
    }
    fn get(&self) -> [f32; 4] {
        self.data
    }
}

pub fn to_kind<C: Color>(c: &C, k: usize) -> [f32; 4] {
    match k {
        0 => c.to_rgb().data,
        1 => c.to_srgb().data,
        2 => c.to_hsl().data,
        3 => c.to_hsv().data,
        4 => c.to_yuv().data,
        5 => c.to_xyz().data,
        6 => c.to_lab::<D50, O2>().data,
        7 => c.to_lab::<D50, O10>().data,
        8 => c.to_lab::<D65, O2>().data,
        9 => c.to_lab::<D65, O10>().data,
        10 => c.to_lab::<E, O2>().data,
        11 => c.to_lab::<E, O10>().data,
        12 => c.to_lch::<D50, O2>().data,
        13 => c.to_lch::<D50, O10>().data,
        14 => c.to_lch::<D65, O2>().data,
        15 => c.to_lch::<D65, O10>().data,
        16 => c.to_lch::<E, O2>().data,
        _ => c.to_lch::<E, O10>().data,
    }
}

pub fn convert(from: usize, d: [f32; 4], to: usize) -> [f32; 4] {
    with_kind!(from, T, to_kind(&T::make(d), to))
}

fn iter_convert<C: Make>(data: &[C], k: usize) -> Vec<[f32; 4]> {
    use d10::ColorIter;
    let it = data.to_vec().into_iter();
    match k {
        0 => it.into_rgb().map(|c| c.data).collect(),
        1 => it.into_srgb().map(|c| c.data).collect(),
        2 => it.into_hsl().map(|c| c.data).collect(),
        3 => it.into_hsv().map(|c| c.data).collect(),
        4 => it.into_yuv().map(|c| c.data).collect(),
        5 => it.into_xyz().map(|c| c.data).collect(),
        6 => it.into_lab::<D50, O2>().map(|c| c.data).collect(),
        7 => it.into_lab::<D50, O10>().map(|c| c.data).collect(),
        8 => it.into_lab::<D65, O2>().map(|c| c.data).collect(),
        9 => it.into_lab::<D65, O10>().map(|c| c.data).collect(),
        10 => it.into_lab::<E, O2>().map(|c| c.data).collect(),
        11 => it.into_lab::<E, O10>().map(|c| c.data).collect(),
        12 => it.into_lch::<D50, O2>().map(|c| c.data).collect(),
        13 => it.into_lch::<D50, O10>().map(|c| c.data).collect(),
        14 => it.into_lch::<D65, O2>().map(|c| c.data).collect(),
        15 => it.into_lch::<D65, O10>().map(|c| c.data).collect(),
        16 => it.into_lch::<E, O2>().map(|c| c.data).collect(),
        _ => it.into_lch::<E, O10>().map(|c| c.data).collect(),
    }
}

fn iter_ref_convert<C: Make>(data: &[C], k: usize) -> Vec<[f32; 4]> {
    use d10::ColorIterRef;
    let it = data.iter();
    match k {
        0 => ColorIterRef::into_rgb(it).map(|c| c.data).collect(),
        1 => ColorIterRef::into_srgb(it).map(|c| c.data).collect(),
        2 => ColorIterRef::into_hsl(it).map(|c| c.data).collect(),
        3 => ColorIterRef::into_hsv(it).map(|c| c.data).collect(),
        4 => ColorIterRef::into_yuv(it).map(|c| c.data).collect(),
        5 => ColorIterRef::into_xyz(it).map(|c| c.data).collect(),
        6 => ColorIterRef::into_lab::<D50, O2>(it).map(|c| c.data).collect(),
        7 => ColorIterRef::into_lab::<D50, O10>(it).map(|c| c.data).collect(),
        8 => ColorIterRef::into_lab::<D65, O2>(it).map(|c| c.data).collect(),
        9 => ColorIterRef::into_lab::<D65, O10>(it).map(|c| c.data).collect(),
        10 => ColorIterRef::into_lab::<E, O2>(it).map(|c| c.data).collect(),
        11 => ColorIterRef::into_lab::<E, O10>(it).map(|c| c.data).collect(),
        12 => ColorIterRef::into_lch::<D50, O2>(it).map(|c| c.data).collect(),
        13 => ColorIterRef::into_lch::<D50, O10>(it).map(|c| c.data).collect(),
        14 => ColorIterRef::into_lch::<D65, O2>(it).map(|c| c.data).collect(),
        15 => ColorIterRef::into_lch::<D65, O10>(it).map(|c| c.data).collect(),
        16 => ColorIterRef::into_lch::<E, O2>(it).map(|c| c.data).collect(),
        _ => ColorIterRef::into_lch::<E, O10>(it).map(|c| c.data).collect(),
    }
}

fn buf_convert<C: Make>(b: &PixelBuffer<C>, k: usize) -> (u32, u32, Vec<[f32; 4]>) {
    fn out<C: Make>(b: PixelBuffer<C>) -> (u32, u32, Vec<[f32; 4]>) {
        (b.width(), b.height(), b.data().iter().map(|c| c.get()).collect())
    }
    match k {
        0 => out(b.to_rgb()),
        1 => out(b.to_srgb()),
        2 => out(b.to_hsl()),
        3 => out(b.to_hsv()),
        4 => out(b.to_yuv()),
        5 => out(b.to_xyz()),
        6 => out(b.to_lab::<D50, O2>()),
        7 => out(b.to_lab::<D50, O10>()),
        8 => out(b.to_lab::<D65, O2>()),
        9 => out(b.to_lab::<D65, O10>()),
        10 => out(b.to_lab::<E, O2>()),
        11 => out(b.to_lab::<E, O10>()),
        12 => out(b.to_lch::<D50, O2>()),
        13 => out(b.to_lch::<D50, O10>()),
        14 => out(b.to_lch::<D65, O2>()),
        15 => out(b.to_lch::<D65, O10>()),
        16 => out(b.to_lch::<E, O2>()),
        _ => out(b.to_lch::<E, O10>()),
    }
}

// ------------------------------------------------------------------ C01

fn near_px(a: [f32; 4], b: Px, tol: f64) -> bool {
    (0..4).all(|i| a[i].is_finite() && (a[i] as f64 - b[i] as f64).abs() <= tol)
}

pub fn c01() -> Property {
    let single = sub("single", 400_000, 10_000_000, px, |p: &Px, c| {
        c.hit_if(p[0] != p[1] || p[1] != p[2]);
        c.label_if(p[3] < 1.0, "transparent");
        for k in 1..KINDS {
            let mid = convert(0, *p, k);
            ensure!(mid.iter().all(|v| v.is_finite()), format!("notfinite-{k}"),
                "rgb {:?} in {} has a component that is not a number: {:?}", p, kind_name(k), mid);
            let back = convert(k, mid, 0);
            ensure!(near_px(back, *p, EPS), format!("roundtrip-{k}"),
                "rgb {:?} -> {} {:?} -> rgb {:?}", p, kind_name(k), mid, back);
            ensure!(back[3] == p[3] && mid[3] == p[3], "alpha", "alpha {} -> {} -> {} via {}", p[3], mid[3], back[3], kind_name(k));
        }
        Ok(())
    });
    let path = sub(
        "path",
        300_000,
        2_000_000,
        || (px(), vec(0..KINDS, 1..6)),
        |(p, path): &(Px, Vec<usize>), c| {
            c.hit_if(path.len() > 1);
            c.label(format!("len{}", path.len()));
            let mut at = 0;
            let mut d = *p;
            for k in path {
                d = convert(at, d, *k);
                at = *k;
            }
            let back = convert(at, d, 0);
            let names: Vec<_> = path.iter().map(|k| kind_name(*k)).collect();
            ensure!(back[3] == p[3], "alpha", "alpha {} becomes {} along {:?}", p[3], back[3], names);
            // one unit of the documented precision per conversion made
            let tol = EPS * (path.len() as f64);
            ensure!(near_px(back, *p, tol), "path", "rgb {:?} along {:?} comes back as {:?}", p, names, back);
            Ok(())
        },
    );
    let bulk = sub(
        "bulk",
        10_000,
        300_000,
        || (img(7), 1..KINDS, 0..3usize),
        |(im, k, way): &(Img, usize, usize), c| {
            c.hit_if(im.distinct() > 1);
            c.label(["iter", "iter_ref", "buffer"][*way]);
            let b = im.buf();
            let n = im.data.len();
            let there: Vec<[f32; 4]> = match way {
                0 => iter_convert(b.data(), *k),
                1 => iter_ref_convert(b.data(), *k),
                _ => {
                    let (w, h, d) = buf_convert(&b, *k);
                    ensure!((w, h) == (im.w, im.h), "dims", "{}x{} became {}x{}", im.w, im.h, w, h);
                    d
                }
            };
            ensure!(there.len() == n, "count", "{} pixels became {}", n, there.len());
            let back: Vec<[f32; 4]> = with_kind!(*k, T, {
                let v: Vec<T> = there.iter().map(|d| T::make(*d)).collect();
                match way {
                    0 => iter_convert(&v, 0),
                    1 => iter_ref_convert(&v, 0),
                    _ => buf_convert(&PixelBuffer::new_from_raw(im.w, im.h, v), 0).2,
                }
            });
            ensure!(back.len() == n, "count", "{} pixels came back as {}", n, back.len());
            for i in 0..n {
                ensure!(near_px(back[i], im.data[i], EPS), "bulk", "pixel {} {:?} comes back as {:?} via {}", i, im.data[i], back[i], kind_name(*k));
                ensure!(back[i][3] == im.data[i][3], "alpha", "alpha of pixel {i} changed");
            }
            Ok(())
        },
    );
    Property {
        id: "C01",
        level: "exploration",
        rule: "generated in-gamut colours (uniform, gray, near gray, ties, primaries, dark, bright, any alpha) sent from linear RGB through every colour space (all illuminants and observers) and back, along generated paths of up to 5 spaces, and as slices, iterators and buffers; non-trivial: chromatic colour, path of 2 or more spaces, or image with 2 or more colours",
        assumptions: vec!["colours are inside the RGB gamut with alpha in [0,1]"],
        subs: vec![single, path, bulk],
    }
}

// ------------------------------------------------------------------ C02

/// Reference value of the source colour in linear RGB (clamped to the gamut)
fn ref_rgb(k: usize, d: C4) -> C4 {
    match k {
        0 => d,
        1 => clampc(srgb_to_rgb(d)),
        2 => clampc(hsl_to_rgb(d)),
        3 => clampc(hsv_to_rgb(d)),
        4 => yuv_to_rgb(d),
        _ => xyz_to_rgb(ref_xyz(k, d)),
    }
}

fn wp(k: usize) -> [f64; 3] {
    let i = (k - 6) % 6;
    white(i / 2, i % 2)
}

fn ref_xyz(k: usize, d: C4) -> C4 {
    match k {
        5 => d,
        6..=11 => lab_to_xyz(d, wp(k)),
        12..=17 => lab_to_xyz(lch_to_lab(d), wp(k)),
        _ => rgb_to_xyz(ref_rgb(k, d)),
    }
}

/// The reference conversion (without the special cases of achromatic colours)
pub fn ref_convert(from: usize, d: C4, to: usize) -> C4 {
    if from == to && to < 6 {
        return d;
    }
    match to {
        0 => ref_rgb(from, d),
        1 => rgb_to_srgb(ref_rgb(from, d)),
        2 => rgb_to_hsl_at(ref_rgb(from, d), 0.0),
        3 => rgb_to_hsv(ref_rgb(from, d)),
        4 => rgb_to_yuv(ref_rgb(from, d)),
        5 => ref_xyz(from, d),
        6..=11 => xyz_to_lab(ref_xyz(from, d), wp(to)),
        _ => lab_to_lch(xyz_to_lab(ref_xyz(from, d), wp(to))),
    }
}

/// Compare a conversion made by the library with the reference
pub fn check_conversion(from: usize, src: [f32; 4], to: usize, got: [f32; 4]) -> Res {
    let d = c64(src);
    let want = ref_convert(from, d, to);
    let rgb = ref_rgb(from, d);
    let ctx = || format!("{} {:?} -> {}: got {:?}, expected {:?}", kind_name(from), src, kind_name(to), got, want);
    ensure!(got.iter().all(|v| v.is_finite()), format!("notfinite-{to}"), "{}", ctx());
    ensure!(got[3] == src[3], "alpha", "alpha changed: {}", ctx());
    if from == to && to < 6 {
        ensure!(got == src, "identity", "{}", ctx());
        return Ok(());
    }
    // error of the library's linear rgb value of this source
    let e = match from {
        0 => 2e-7,
        1..=3 => 3e-6,
        _ => 1e-5,
    };
    let sig = format!("convert-{from}-{to}");
    let hue_tol = |d: f64| (EPS + 4.0 * e) / (6.0 * d) + 2e-6;
    match to {
        0 => ensure!(close4(got, want, e + 1e-6), sig, "{}", ctx()),
        1 | 4 => ensure!(close4(got, want, 13.0 * e + 3e-6), sig, "{}", ctx()),
        2 => {
            let (max, min) = (max3(&rgb), min3(&rgb));
            let dl = max - min;
            ensure!(close(got[2], want[2], e + 1e-6), sig, "{}", ctx());
            ensure!(got[0] >= 0.0 && got[0] <= 1.0, sig, "hue out of range: {}", ctx());
            let gray = got[1] == 0.0;
            if gray && dl < EPS + 4.0 * e {
                return Ok(());
            }
            ensure!(dl > EPS - 4.0 * e, sig, "a gray colour got a saturation: {}", ctx());
            let den = (max + min).min(2.0 - max - min).max(EPS / 2.0);
            ensure!(close(got[1], want[1], 2e-6 + 6.0 * e / den), sig, "{}", ctx());
            ensure!(hue_dist(got[0] as f64, want[0]) <= hue_tol(dl), sig, "{}", ctx());
        }
        3 => {
            let (max, min) = (max3(&rgb), min3(&rgb));
            let dl = max - min;
            ensure!(close(got[2], want[2], e + 1e-6), sig, "{}", ctx());
            ensure!(got[0] >= 0.0 && got[0] <= 1.0, sig, "hue out of range: {}", ctx());
            if got[1] == 0.0 && (max < EPS + 4.0 * e || dl < EPS + 4.0 * e) {
                return Ok(());
            }
            ensure!(close(got[1], want[1], 2e-6 + 4.0 * e / max.max(EPS / 2.0)), sig, "{}", ctx());
            if dl > 1e-9 {
                ensure!(hue_dist(got[0] as f64, want[0]) <= hue_tol(dl), sig, "{}", ctx());
            }
        }
        5 => ensure!(close4(got, want, e + 3e-6 + 1e-5 * max3(&want.map(f64::abs))), sig, "{}", ctx()),
        6..=11 => {
            let m = max3(&want.map(f64::abs));
            ensure!(close4(got, want, 35.0 * e + 3e-5 + 1e-5 * m), sig, "{}", ctx())
        }
        _ => {
            let m = want[0].abs().max(want[1].abs());
            let t = 45.0 * e + 4e-5 + 1e-5 * m;
            ensure!(close(got[0], want[0], t) && close(got[1], want[1], t), sig, "{}", ctx());
            let dh = hue_dist(got[2] as f64 / std::f64::consts::TAU, want[2] / std::f64::consts::TAU);
            if want[1] > 4.0 * t {
                ensure!(dh * std::f64::consts::TAU <= 2.0 * t / want[1] + 1e-5, sig, "{}", ctx());
            }
        }
    }
    Ok(())
}

fn check_all_targets(from: usize, src: [f32; 4]) -> Res {
    for to in 0..KINDS {
        check_conversion(from, src, to, convert(from, src, to))?;
    }
    // From conversions between the types with default illuminant and observer
    let eq = |a: [f32; 4], to: usize| -> Res {
        let b = convert(from, src, to);
        ensure!(a.map(f32::to_bits) == b.map(f32::to_bits), "from", "From and to_{} disagree for {} {:?}: {:?} {:?}", kind_name(to), kind_name(from), src, a, b);
        Ok(())
    };
    macro_rules! from_all {
        ($c:expr; $($t:ty => $k:expr),*) => {{ let c = $c; $( eq(<$t>::from(c).data, $k)?; )* }};
    }
    type L = d10::DefaultLab;
    type H = Lch;
    match from {
        0 => from_all!(Rgb::make(src); Srgb=>1, Hsl=>2, Hsv=>3, Yuv=>4, Xyz=>5, L=>8, H=>14),
        1 => from_all!(Srgb::make(src); Rgb=>0, Hsl=>2, Hsv=>3, Yuv=>4, Xyz=>5, L=>8, H=>14),
        2 => from_all!(Hsl::make(src); Rgb=>0, Srgb=>1, Hsv=>3, Yuv=>4, Xyz=>5, L=>8, H=>14),
        3 => from_all!(Hsv::make(src); Rgb=>0, Srgb=>1, Hsl=>2, Yuv=>4, Xyz=>5, L=>8, H=>14),
        4 => from_all!(Yuv::make(src); Rgb=>0, Srgb=>1, Hsl=>2, Hsv=>3, Xyz=>5, L=>8, H=>14),
        5 => from_all!(Xyz::make(src); Rgb=>0, Srgb=>1, Hsl=>2, Hsv=>3, Yuv=>4, L=>8, H=>14),
        8 => from_all!(L::make(src); Rgb=>0, Srgb=>1, Hsl=>2, Hsv=>3, Yuv=>4, Xyz=>5, H=>14),
        14 => from_all!(H::make(src); Rgb=>0, Srgb=>1, Hsl=>2, Hsv=>3, Yuv=>4, Xyz=>5, L=>8),
        _ => {}
    }
    Ok(())
}

fn signed() -> BoxedStrategy<f32> {
    prop_oneof![4 => (-1000i32..=1000).prop_map(|v| v as f32 / 1000.0), 1 => Just(0.0f32), 1 => Just(1.0f32), 1 => Just(-1.0f32)].boxed()
}

pub fn c02() -> Property {
    let from_rgb = sub("from-rgb", 400_000, 10_000_000, px, |p: &Px, c| {
        c.hit_if(p[0] != p[1] || p[1] != p[2]);
        check_all_targets(0, *p)
    });
    // a colour of the gamut expressed in the source space, then converted to everything else
    let gamut = sub(
        "from-gamut",
        400_000,
        3_000_000,
        || (px(), 1..KINDS),
        |(p, k): &(Px, usize), c| {
            c.hit_if(p[0] != p[1] || p[1] != p[2]);
            c.label(format!("from {}", kind_name(*k)));
            let mut src = ref_convert(0, c64(*p), *k).map(|v| v as f32);
            src[3] = p[3];
            check_all_targets(*k, src)
        },
    );
    // any value in the natural range of the source space, including colours outside of the rgb gamut
    let native = sub(
        "from-native",
        400_000,
        3_000_000,
        || (1..KINDS, unit(), signed(), signed(), unit(), unit(), alpha()),
        |(k, l, a, b, u, v, al): &(usize, f32, f32, f32, f32, f32, f32), c| {
            c.label(format!("from {}", kind_name(*k)));
            let src = match k {
                1..=3 => [*l, *u, *v, *al],
                4 => [*l, a * 0.45, b * 0.65, *al],
                5 => [l * 0.96, *u, v * 1.09, *al],
                6..=11 => [*l, *a, *b, *al],
                _ => [*l, *u, a * std::f32::consts::PI, *al],
            };
            let rgb = convert(*k, src, 0);
            let inside = rgb[..3].iter().all(|v| *v > 0.0 && *v < 1.0);
            c.hit_if(inside);
            c.label_if(!inside, "at or outside the gamut border");
            ensure!(rgb.iter().all(|v| (0.0..=1.0).contains(v)), "range", "{} {:?} becomes rgb {:?}", kind_name(*k), src, rgb);
            for to in 0..KINDS {
                check_conversion(*k, src, to, convert(*k, src, to))?;
            }
            Ok(())
        },
    );
    let transfer = sub(
        "transfer",
        200_000,
        1_000_000,
        || (unit(), unit()),
        |(a, b): &(f32, f32), c| {
            c.hit_if(a != b);
            let (ga, gb) = (d10::gamma_to_linear(*a), d10::gamma_to_linear(*b));
            let (la, lb) = (d10::linear_to_gamma(*a), d10::linear_to_gamma(*b));
            ensure!(close(ga, srgb_decode(*a as f64), 1e-6), "decode", "gamma_to_linear({}) = {}", a, ga);
            ensure!(close(la, srgb_encode(*a as f64), 3e-6), "encode", "linear_to_gamma({}) = {}", a, la);
            // monotone: order is kept (up to the rounding of f32)
            if *a < *b - 1e-5 {
                ensure!(ga < gb + 1e-7 && la < lb, "monotone", "transfer functions swap {} and {}", a, b);
            }
            Ok(())
        },
    );
    let bulk = sub(
        "bulk",
        12_000,
        400_000,
        || (img(6), 0..KINDS, 0..KINDS),
        |(im, from, to): &(Img, usize, usize), c| {
            c.hit_if(im.distinct() > 1 && from != to);
            with_kind!(*from, T, {
                let v: Vec<T> = im.data.iter().map(|d| T::make(convert(0, *d, *from))).collect();
                let want: Vec<[u32; 4]> = v.iter().map(|x| to_kind(x, *to).map(f32::to_bits)).collect();
                let bits = |r: Vec<[f32; 4]>| -> Vec<[u32; 4]> { r.into_iter().map(|x| x.map(f32::to_bits)).collect() };
                ensure!(bits(iter_convert(&v, *to)) == want, "iter", "iterator conversion {} -> {} differs from single colours", kind_name(*from), kind_name(*to));
                ensure!(bits(iter_ref_convert(&v, *to)) == want, "iter-ref", "reference iterator conversion {} -> {} differs", kind_name(*from), kind_name(*to));
                let (w, h, d) = buf_convert(&PixelBuffer::new_from_raw(im.w, im.h, v.clone()), *to);
                ensure!((w, h) == (im.w, im.h), "dims", "buffer conversion changed the size");
                ensure!(bits(d) == want, "buffer", "buffer conversion {} -> {} differs", kind_name(*from), kind_name(*to));
                // size hints of the adapters are exact for exact iterators
                use d10::ColorIterRef;
                let hint = ColorIterRef::into_rgb(v.iter()).size_hint();
                ensure!(hint == (v.len(), Some(v.len())), "hint", "size hint {:?} for {}", hint, v.len());
                Ok(())
            })
        },
    );
    Property {
        id: "C02",
        level: "exploration",
        rule: "generated colours of every space (members of the RGB gamut and arbitrary values of the natural range) converted to every space by method, From, iterator and buffer, compared with an f64 implementation of the published formulas; non-trivial: chromatic colour or colour strictly inside the gamut",
        assumptions: vec!["the constants of the published definitions (IEC 61966-2-1, BT.601, Rec. 709/D65, CIE Lab with CIE white points) are those written in refmath.rs"],
        subs: vec![from_rgb, gamut, native, transfer, bulk],
    }
}
