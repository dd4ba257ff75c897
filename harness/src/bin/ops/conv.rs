//! C10 convolution filters, C11 neighbourhood selection
use d10::ops;
use d10::{EdgeDetection, Image, Kernel, KernelDyn};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use d10_verif::refmath::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn conv(img: &Img, k: &[f64], kw: u32, kh: u32) -> Vec<[f64; 4]> {
    let (ox, oy) = (kw as i64 / 2, kh as i64 / 2);
    let mut out = Vec::with_capacity(img.data.len());
    for y in 0..img.h as i64 {
        for x in 0..img.w as i64 {
            let mut r = [0.0; 4];
            for j in 0..kh as i64 {
                for i in 0..kw as i64 {
                    let p = img.clamped(x + i - ox, y + j - oy);
                    let w = k[(j * kw as i64 + i) as usize];
                    for c in 0..4 {
                        r[c] += p[c] as f64 * w;
                    }
                }
            }
            out.push(r);
        }
    }
    out
}

/// Normalised weights of a gaussian with the given standard deviation
pub fn gauss(size: u32, sigma: f64) -> Vec<f64> {
    let o = size as i64 / 2;
    let mut w = vec![];
    for y in 0..size as i64 {
        for x in 0..size as i64 {
            let r2 = ((x - o) * (x - o) + (y - o) * (y - o)) as f64;
            w.push(if r2 == 0.0 { 1.0 } else { (-r2 / (2.0 * sigma * sigma)).exp() });
        }
    }
    let s: f64 = w.iter().sum();
    w.iter_mut().for_each(|v| *v /= s);
    w
}

fn compare(got: &Img, want: &[[f64; 4]], tol: f64, sig: &str, what: &str) -> Res {
    for (i, (g, w)) in got.data.iter().zip(want).enumerate() {
        ensure!(
            close4(*g, *w, tol),
            sig,
            "{what}: pixel {},{} of {}x{} is {g:?} instead of {w:?} (tolerance {tol:e})",
            i as u32 % got.w,
            i as u32 / got.w,
            got.w,
            got.h
        );
    }
    Ok(())
}

fn taps_tol(n: u32) -> f64 {
    4e-6 + n as f64 * 1.2e-7
}

fn sigma() -> BoxedStrategy<Option<f32>> {
    prop_oneof![
        3 => Just(None),
        5 => (1u32..=400).prop_map(|v| Some(v as f32 / 50.0)),
        1 => prop::sample::select(vec![0.0f32, 1e-3, 0.01, 0.1, 1e-10, 1e-22, 20.0, 100.0, 1e4, 1e20, -1.0]).prop_map(Some),
    ]
    .boxed()
}

fn default_sigma(radius: u32) -> f64 {
    radius as f64 / 2.0
}

fn blur_case(v: &(Img, u32, Option<f32>), c: &mut Case) -> Res {
    let (img, radius, sigma) = v;
    let size = radius * 2 + 1;
    let s = sigma.map(|s| s as f64).unwrap_or(default_sigma(*radius));
    let what = format!("blur with radius {radius} sigma {sigma:?}");
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.gaussian_blur(*radius, *sigma).buffer());
    ensure!(out == Img::from_buf(&ops::gaussian_blur(im.buffer(), *radius, *sigma)), "facade", "{what}: image and buffer level differ");
    ensure!(Img::from_buf(im.buffer()) == *img, "input-changed", "{what}");
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: {}x{}", out.w, out.h);
    let tol = taps_tol(size * size);
    let (mut lo, mut hi) = ([f64::MAX; 4], [f64::MIN; 4]);
    for p in &img.data {
        for i in 0..4 {
            lo[i] = lo[i].min(p[i] as f64);
            hi[i] = hi[i].max(p[i] as f64);
        }
    }
    for p in &out.data {
        for i in 0..4 {
            ensure!((p[i] as f64) >= lo[i] - tol && (p[i] as f64) <= hi[i] + tol, "blur-range", "{what}: {p:?} outside of {lo:?} to {hi:?}");
        }
    }
    c.hit_if(img.distinct() > 1 && *radius > 0 && s.abs() > 0.05);
    c.label(format!("radius {radius}"));
    c.label_if(img.distinct() == 1, "uniform");
    compare(&out, &conv(img, &gauss(size, s), size, size), tol, "blur", &what)
}

fn unsharp_case(v: &(Img, u32, f32, Option<f32>), c: &mut Case) -> Res {
    let (img, radius, factor, sigma) = v;
    let size = radius * 2 + 1;
    let s = sigma.map(|s| s as f64).unwrap_or(default_sigma(*radius));
    let what = format!("unsharp with radius {radius} factor {factor} sigma {sigma:?}");
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.unsharp(*radius, *factor, *sigma).buffer());
    ensure!(out == Img::from_buf(&ops::unsharp(im.buffer(), *radius, *factor, *sigma)), "facade", "{what}: image and buffer level differ");
    ensure!(Img::from_buf(im.buffer()) == *img, "input-changed", "{what}");
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: {}x{}", out.w, out.h);
    for p in &out.data {
        ensure!(p.iter().all(|v| *v >= 0.0 && *v <= 1.0), "unsharp-range", "{what}: {p:?}");
    }
    let want: Vec<[f64; 4]> = conv(img, &gauss(size, s), size, size)
        .iter()
        .zip(&img.data)
        .map(|(b, p)| {
            let p = c64(*p);
            std::array::from_fn(|i| clamp01(p[i] + (p[i] - b[i]) * *factor as f64))
        })
        .collect();
    c.hit_if(img.distinct() > 1 && *radius > 0 && *factor != 0.0 && s.abs() > 0.05);
    c.label_if(img.distinct() == 1, "uniform");
    compare(&out, &want, taps_tol(size * size) * (1.0 + factor.abs() as f64), "unsharp", &what)
}

const SOBEL_X: [f64; 9] = [1.0, 0.0, -1.0, 2.0, 0.0, -2.0, 1.0, 0.0, -1.0];
const SOBEL_Y: [f64; 9] = [1.0, 2.0, 1.0, 0.0, 0.0, 0.0, -1.0, -2.0, -1.0];
const LAPLACE: [f64; 9] = [1.0, 1.0, 1.0, 1.0, -8.0, 1.0, 1.0, 1.0, 1.0];

fn edge_case(v: &(Img, bool), c: &mut Case) -> Res {
    let (img, sobel) = v;
    let mode = if *sobel { EdgeDetection::Sobel } else { EdgeDetection::Laplace };
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.edge_detection(mode).buffer());
    ensure!(out == Img::from_buf(&ops::edge_detection(im.buffer(), mode)), "facade", "{mode:?}: image and buffer level differ");
    ensure!(Img::from_buf(im.buffer()) == *img, "input-changed", "{mode:?}");
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{mode:?}: {}x{}", out.w, out.h);
    c.hit_if(img.distinct() > 1);
    c.label(format!("{mode:?}"));
    if *sobel {
        let x = conv(img, &SOBEL_X, 3, 3);
        let y = conv(img, &SOBEL_Y, 3, 3);
        let want: Vec<[f64; 4]> = x
            .iter()
            .zip(&y)
            .map(|(x, y)| {
                let m = |i: usize| clamp01(x[i].hypot(y[i]));
                [m(0), m(1), m(2), 1.0]
            })
            .collect();
        compare(&out, &want, 4e-6, "sobel", "sobel")
    } else {
        let want: Vec<[f64; 4]> = conv(img, &LAPLACE, 3, 3).iter().map(|p| [p[0], p[1], p[2], 1.0]).collect();
        compare(&out, &want, 8e-6, "laplace", "laplace")
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KCase {
    img: Img,
    kw: u32,
    kh: u32,
    k: Vec<f32>,
}

fn kernel_case(v: &KCase, c: &mut Case) -> Res {
    let k64: Vec<f64> = v.k.iter().map(|v| *v as f64).collect();
    let want = conv(&v.img, &k64, v.kw, v.kh);
    let tol = 2e-6 + 4e-7 * k64.iter().map(|v| v.abs()).sum::<f64>();
    let buf = v.img.buf();
    let kd = KernelDyn::new(v.k.clone(), v.kw, v.kh);
    let got = Img::from_buf(&buf.apply_kernel_dyn(&kd));
    compare(&got, &want, tol, "kernel-dyn", &format!("kernel {}x{} {:?}", v.kw, v.kh, v.k))?;
    for y in 0..v.img.h {
        for x in 0..v.img.w {
            let p = buf.get_kernel_value(x, y, &kd).data;
            ensure!(close4(p, want[(y * v.img.w + x) as usize], tol), "kernel-value", "value at {x},{y} is {p:?}");
        }
    }
    ensure!((kd.width, kd.height) == (v.kw, v.kh), "kernel-size", "{}x{}", kd.width, kd.height);
    for (i, (x, y, w)) in kd.enumerate().enumerate() {
        ensure!(
            (x, y) == (i as u32 % v.kw, i as u32 / v.kw) && w == v.k[i] && kd.get(x, y) == w,
            "kernel-enumerate",
            "entry {i} is {x},{y},{w}"
        );
    }
    c.hit_if(v.img.distinct() > 1 && v.k.len() > 1);
    c.label_if(v.kw != v.kh, "not square");
    if v.kw == v.kh {
        macro_rules! fixed {
            ($($n:literal)*) => {
                match v.kw {
                    $($n => {
                        let d: [[f32; $n]; $n] = std::array::from_fn(|y| std::array::from_fn(|x| v.k[y * $n + x]));
                        Some(Img::from_buf(&buf.apply_kernel(&Kernel::<$n>::new(d))))
                    })*
                    _ => None,
                }
            };
        }
        if let Some(got) = fixed!(1 2 3 4 5 6) {
            c.label("fixed size");
            compare(&got, &want, tol, "kernel", &format!("fixed kernel {:?}", v.k))?;
        }
    }
    Ok(())
}

fn gauss_case(v: &(u32, f32), c: &mut Case) -> Res {
    let (n, s) = *v;
    let want = gauss(n, s as f64);
    let kd = KernelDyn::new_gaussian(n, s);
    ensure!((kd.width, kd.height) == (n, n), "gauss-size", "{}x{}", kd.width, kd.height);
    macro_rules! fixed {
        ($($n:literal)*) => {
            match n {
                $($n => Kernel::<$n>::new_gaussian(s).data.iter().flatten().cloned().collect::<Vec<f32>>(),)*
                _ => vec![],
            }
        };
    }
    let fx = fixed!(1 2 3 4 5 6 7 9);
    for (i, w) in want.iter().enumerate() {
        let g = kd.get(i as u32 % n, i as u32 / n);
        ensure!(close(g, *w, 2e-6), "gauss-dyn", "gaussian of size {n} sigma {s}: weight {i} is {g} instead of {w}");
        if let Some(g) = fx.get(i) {
            ensure!(close(*g, *w, 2e-6), "gauss", "fixed gaussian of size {n} sigma {s}: weight {i} is {g} instead of {w}");
        }
    }
    c.hit_if(n > 1 && s.abs() > 0.05);
    let sx: Vec<f32> = KernelDyn::new_sobel_x().enumerate().map(|v| v.2).collect();
    let sy: Vec<f32> = KernelDyn::new_sobel_y().enumerate().map(|v| v.2).collect();
    // the horizontal one has the opposite sign of the edge detection's
    ensure!(sx.iter().zip(SOBEL_X).all(|(a, b)| *a as f64 == -b), "sobel-x", "{sx:?}");
    ensure!(sy.iter().zip(SOBEL_Y).all(|(a, b)| *a as f64 == b), "sobel-y", "{sy:?}");
    Ok(())
}

/// Convolution is linear: a sum of weighted dots is the weighted sum of the kernel
fn dot_case(v: &(u32, u32, u32, u32, u32, Option<f32>), c: &mut Case) -> Res {
    let (w, h, x, y, radius, sigma) = *v;
    let (x, y) = (x % w, y % h);
    let mut img = Img::new(w, h, vec![[0.0; 4]; (w * h) as usize]);
    img.data[(y * w + x) as usize] = [1.0, 0.5, 0.25, 1.0];
    blur_case(&(img, radius, sigma), c)
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        level: "exploration",
        rule: "a case counts if the image has different pixels (for kernels: more than one weight) and the filter is not neutral",
        assumptions: vec!["direct f64 convolution with repeated edge pixels is the definition", "radius up to 50"],
        subs: vec![
            sub("blur", 20_000, 500_000, || (img(12), prop_oneof![5 => 0u32..=4, 1 => 5u32..=9], sigma()), blur_case),
            sub("large", 40, 1_000, || (big(80_000), prop_oneof![5 => 0u32..=4, 1 => 5u32..=9], sigma()), blur_case),
            // kernels that are larger than the image
            sub("wide", 3_000, 60_000, || (img(9), 10u32..=50, sigma()), blur_case),
            sub("wide-unsharp", 2_000, 40_000, || (img(8), 8u32..=40, factor(), sigma()), unsharp_case),
            sub("large-edge", 40, 1_000, || (big(80_000), any::<bool>()), edge_case),
            sub("large-unsharp", 30, 800, || (big(60_000), 0u32..=3, factor(), sigma()), unsharp_case),
            sub("dot", 8_000, 200_000, || (1u32..24, 1u32..24, 0u32..24, 0u32..24, 0u32..=6, sigma()), dot_case),
            sub("unsharp", 16_000, 400_000, || (img(12), prop_oneof![5 => 0u32..=4, 1 => 5u32..=7], factor(), sigma()), unsharp_case),
            sub("edge", 30_000, 1_000_000, || (img(14), any::<bool>()), edge_case),
            sub("kernel", 20_000, 600_000, || {
                let side = || prop_oneof![12 => 1u32..=7, 4 => Just(3u32), 1 => 8u32..=23];
                (img(10), side(), side(), any::<bool>()).prop_flat_map(|(img, kw, kh, sq)| {
                    let kh = if sq { kw } else { kh };
                    let v = prop_oneof![3 => (-200i32..=200).prop_map(|v| v as f32 / 100.0), 1 => Just(0.0f32), 1 => -1.0f32..1.0];
                    vec(v, (kw * kh) as usize).prop_map(move |k| KCase { img: img.clone(), kw, kh, k })
                })
            }, kernel_case),
            sub("gaussian-kernel", 8_000, 200_000, || (prop_oneof![9 => 1u32..=15, 1 => 16u32..=90], sigma().prop_map(|s| s.unwrap_or(1.5))), gauss_case),
        ],
    }
}

fn avg(p: Px) -> f64 {
    (p[0] as f64 + p[1] as f64 + p[2] as f64) / 3.0
}

fn despeckle_case(v: &(Img, f32, u8), c: &mut Case) -> Res {
    let (img, threshold, amount) = v;
    let t = *threshold as f64;
    let what = format!("despeckle {threshold} {amount}");
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.despeckle(*threshold, *amount).buffer());
    ensure!(out == Img::from_buf(&ops::despeckle(im.buffer(), *threshold, *amount)), "facade", "{what}: image and buffer level differ");
    ensure!(Img::from_buf(im.buffer()) == *img, "input-changed", "{what}");
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: {}x{}", out.w, out.h);
    let mut replaced = 0;
    for y in 0..img.h {
        for x in 0..img.w {
            let p = img.px(x, y);
            let g = out.px(x, y);
            ensure!(g.iter().all(|v| (-1e-6..=1.000_001).contains(v)), "despeckle-range", "{what}: pixel {x},{y} is {g:?}");
            ensure!(g[3] == p[3], "despeckle-alpha", "{what}: alpha of pixel {x},{y} is {}", g[3]);
            let n: Vec<Px> = (0..9).map(|i| img.clamped(x as i64 + i % 3 - 1, y as i64 + i / 3 - 1)).collect();
            // grays that are sums without rounding are compared exactly
            let exact = |p: &Px| p[0] == p[1] && p[1] == p[2] && [0.0, 0.25, 0.5, 0.75, 1.0].contains(&p[0]);
            if n.iter().any(|p| (avg(*p) - t).abs() < 1e-6 && !(exact(p) && avg(*p) == t)) {
                c.label("undecided threshold");
                continue;
            }
            let bright: Vec<&Px> = n.iter().filter(|p| avg(**p) >= t).collect();
            let dark = 9 - bright.len();
            // a dark pixel with few dark neighbours gets the mean of the bright ones
            let want = if avg(p) < t && dark <= *amount as usize && !bright.is_empty() {
                replaced += 1;
                let m = |i: usize| bright.iter().map(|p| p[i] as f64).sum::<f64>() / bright.len() as f64;
                [m(0), m(1), m(2), p[3] as f64]
            } else {
                c64(p)
            };
            ensure!(close4(g, want, 2e-6), "despeckle", "{what}: pixel {x},{y} {p:?} with {dark} dark pixels became {g:?} instead of {want:?}");
        }
    }
    c.hit_if(replaced > 0);
    c.label_if(replaced == 0, "nothing replaced");
    Ok(())
}

fn dist(a: Px, b: Px) -> f64 {
    (0..3).map(|i| (a[i] as f64 - b[i] as f64).powi(2)).sum::<f64>().sqrt()
}

fn snn_case(v: &(Img, usize, bool), c: &mut Case) -> Res {
    let (img, radius, center) = v;
    let what = format!("symmetric nearest neighbour with radius {radius} center {center}");
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.symmetric_nearest_neighbor(*radius, *center).buffer());
    ensure!(out == Img::from_buf(&ops::symmetric_nearest_neighbor(im.buffer(), *radius, *center)), "facade", "{what}: image and buffer level differ");
    ensure!(Img::from_buf(im.buffer()) == *img, "input-changed", "{what}");
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: {}x{}", out.w, out.h);
    c.hit_if(img.distinct() > 1 && *radius > 0);
    c.label(format!("radius {radius}"));
    for y in 0..img.h as i64 {
        for x in 0..img.w as i64 {
            let p = img.px(x as u32, y as u32);
            let g = out.px(x as u32, y as u32);
            let (mut lo, mut hi, mut n) = ([0.0f64; 4], [0.0f64; 4], 0.0);
            let mut add = |a: Px, b: Px| {
                for i in 0..4 {
                    lo[i] += a[i].min(b[i]) as f64;
                    hi[i] += a[i].max(b[i]) as f64;
                }
                n += 1.0;
            };
            if *center || *radius == 0 {
                add(p, p);
            }
            for r in 1..=*radius as i64 {
                // opposite neighbours: of each pair the one closer in colour is taken
                for (dx, dy) in [(-r, -r), (0, -r), (r, -r), (-r, 0)] {
                    let a = img.clamped(x + dx, y + dy);
                    let b = img.clamped(x - dx, y - dy);
                    let (da, db) = (dist(a, p), dist(b, p));
                    if (da - db).abs() < 1e-6 {
                        add(a, b);
                    } else if da < db {
                        add(a, a);
                    } else {
                        add(b, b);
                    }
                }
            }
            for i in 0..4 {
                let (l, h) = (lo[i] / n - 3e-6, hi[i] / n + 3e-6);
                ensure!((g[i] as f64) >= l && (g[i] as f64) <= h, "snn", "{what}: pixel {x},{y} of {}x{} {p:?} became {g:?}, channel {i} expected in {l}..{h}", img.w, img.h);
                c.label_if(h - l > 1e-3, "tie");
            }
        }
    }
    Ok(())
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        level: "exploration",
        rule: "a despeckle case counts if at least one pixel is replaced, a smoothing case if the image has different pixels and the radius is not zero",
        assumptions: vec!["pixels whose brightness equals the threshold within 1e-6 are exempted, except grays that are multiples of a quarter", "for neighbours of equal distance either may be chosen"],
        subs: vec![
            sub("despeckle", 40_000, 1_500_000, || {
                let amount = prop_oneof![6 => 0u8..=9, 1 => any::<u8>()];
                let t = prop_oneof![3 => unit(), 3 => (100u32..900).prop_map(|v| v as f32 / 1000.0), 1 => prop::sample::select(vec![-1.0f32, 0.0, 1.0, 1.5, 2.0])];
                (img(12), t, amount)
            }, despeckle_case),
            sub("specks", 30_000, 1_000_000, || {
                // few dark pixels on a bright ground
                (img(12), vec(any::<prop::sample::Index>(), 0..12), 1u8..=9).prop_map(|(mut i, dark, amount)| {
                    for p in i.data.iter_mut() {
                        for c in 0..3 {
                            p[c] = 0.6 + 0.4 * p[c];
                        }
                    }
                    let n = i.data.len();
                    for d in dark {
                        let p = &mut i.data[d.index(n)];
                        for c in 0..3 {
                            p[c] *= 0.3;
                        }
                    }
                    (i, 0.5f32, amount)
                })
            }, despeckle_case),
            sub("threshold", 20_000, 600_000, || {
                // grays in steps of a quarter and a threshold that is one of them
                let q = prop::sample::select(vec![0.0f32, 0.25, 0.5, 0.5, 0.75, 1.0]);
                (img(8), vec(proptest::option::weighted(0.8, q), 64), 0u8..=4, 0u8..=8).prop_map(|(mut i, g, t, amount)| {
                    for (k, p) in i.data.iter_mut().enumerate() {
                        if let Some(v) = g[k % g.len()] {
                            *p = [v, v, v, p[3]];
                        }
                    }
                    (i, t as f32 / 4.0, amount)
                })
            }, despeckle_case),
            sub("large", 60, 1_500, || (big(80_000), unit(), 0u8..=9), despeckle_case),
            sub("large-snn", 40, 1_000, || (big(60_000), 0usize..=4, any::<bool>()), snn_case),
            sub("snn", 40_000, 1_500_000, || (img(10), prop_oneof![9 => 0usize..=4, 1 => 5usize..=14], any::<bool>()), snn_case),
        ],
    }
}
