//! C13 palettes, C14 noise, C15 drawing and JPEG degradation
use super::conv::{conv, gauss};
use d10::ops::{self, DrawingMode};
use d10::{Color, DefaultLab, EncodingFormat, Hsl, Hsv, Image, Rgb};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use d10_verif::refmath::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn lab(p: Px) -> C4 {
    xyz_to_lab(rgb_to_xyz(c64(p)), white(1, 0))
}

fn delta(a: &C4, b: &C4) -> f64 {
    (0..3).map(|i| (a[i] - b[i]).powi(2)).sum::<f64>().sqrt()
}

fn palette_case(v: &(Img, Img, usize), c: &mut Case) -> Res {
    let (img, pal, kind) = v;
    let what = format!("palette of {} colors", pal.data.len());
    let im = Image::new_from_buffer(img.buf());
    let pi = Image::new_from_buffer(pal.buf());
    let out = Img::from_buf(im.apply_palette(&pi).buffer());
    ensure!(Img::from_buf(im.buffer()) == *img && Img::from_buf(pi.buffer()) == *pal, "input-changed", "{what}");
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: {}x{}", out.w, out.h);
    let labs: Vec<C4> = pal.data.iter().map(|p| lab(*p)).collect();
    let mut used = std::collections::HashSet::new();
    for (i, (p, g)) in img.data.iter().zip(&out.data).enumerate() {
        let l = lab(*p);
        let best = labs.iter().map(|q| delta(&l, q)).fold(f64::MAX, f64::min);
        // the result must be one of the palette's colours which are as near as the nearest one
        let ok = pal.data.iter().enumerate().find(|(j, q)| {
            close4(*g, c64(**q), 2e-4) && delta(&l, &labs[*j]) <= best + 2e-5
        });
        match ok {
            Some((j, _)) => {
                used.insert(j);
            }
            None => {
                let near: Vec<_> = pal.data.iter().enumerate().filter(|(j, _)| delta(&l, &labs[*j]) <= best + 2e-5).collect();
                ensure!(false, "nearest", "{what}: pixel {i} {p:?} became {g:?}, nearest of the palette: {near:?} at {best}");
            }
        }
    }
    c.hit_if(used.len() > 1);
    c.label_if(pal.data.len() == 1, "one color");
    // equal pixels become equal colours
    for (i, p) in img.data.iter().enumerate() {
        if let Some(j) = img.data[..i].iter().position(|q| q[..3] == p[..3]) {
            ensure!(out.data[i] == out.data[j], "equal", "{what}: pixels {j} and {i} are equal, but became {:?} and {:?}", out.data[j], out.data[i]);
        }
    }
    // once more changes nothing but rounding
    let again = Img::from_buf(Image::new_from_buffer(out.buf()).apply_palette(&pi).buffer());
    for (i, (a, b)) in out.data.iter().zip(&again.data).enumerate() {
        let tie = labs.iter().filter(|q| delta(&lab(*a), q) < 1e-3).count() > 1;
        ensure!(tie || close4(*b, c64(*a), 4e-4), "idempotent", "{what}: pixel {i} {a:?} became {b:?} the second time");
    }
    let mut im2 = im.clone();
    im2.apply_palette_in_place(&pi);
    ensure!(Img::from_buf(im2.buffer()) == out, "in-place", "{what}: in place variant differs");
    // palettes may be given in other colour spaces
    let b = pal.buf();
    macro_rules! other {
        ($p:expr) => {{
            let p = $p;
            let r = Img::from_buf(&ops::apply_palette(im.buffer(), &p));
            let mut q = im.buffer().clone();
            ops::apply_palette_in_place(&mut q, &p);
            ensure!(Img::from_buf(&q) == r, "in-place", "{what}: in place variant differs");
            r
        }};
    }
    let other = match kind {
        0 => other!(b.map_colors(|c| c.to_srgb())),
        1 => other!(b.map_colors(|c| c.to_hsl())),
        2 => other!(b.map_colors(|c| c.to_xyz())),
        _ => other!(b.map_colors(|c| -> DefaultLab { c.to_lab() })),
    };
    for (i, (p, g)) in img.data.iter().zip(&other.data).enumerate() {
        let l = lab(*p);
        let best = labs.iter().map(|q| delta(&l, q)).fold(f64::MAX, f64::min);
        let ok = pal.data.iter().zip(&labs).any(|(q, ql)| close4(*g, c64(*q), 1e-3) && delta(&l, ql) <= best + 2e-3);
        ensure!(ok, "nearest-converted", "{what} (space {kind}): pixel {i} {p:?} became {g:?}");
    }
    Ok(())
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        level: "exploration",
        rule: "a case counts if at least two colours of the palette are used",
        assumptions: vec!["the distance is the euclidean one of normalised CIE L*a*b* (D65, 2 degrees), colours nearer than 2e-5 to the best may be chosen"],
        subs: vec![
            sub("palette", 20_000, 600_000, || {
                let pal = prop_oneof![
                    4 => vec(px(), 1..=16).boxed(),
                    1 => vec(px(), 17..=64).boxed(),
                    2 => vec(px(), 1..=3).prop_map(|p| [p.clone(), p].concat()).boxed(),
                    2 => (unit(), alpha(), 2usize..12).prop_map(|(v, a, n)| (0..n).map(|i| { let t = i as f32 / n as f32; [v * t, t, 1.0 - v * t, a] }).collect()).boxed(),
                ];
                let pal = (pal, any::<bool>()).prop_map(|(p, row)| {
                    let n = p.len() as u32;
                    if row || n % 2 == 1 { Img::new(n, 1, p) } else { Img::new(2, n / 2, p) }
                });
                (img(8), pal, 0usize..4)
            }, palette_case),
            sub("large", 30, 800, || (big(70_000), (1u32..=300).prop_flat_map(|n| vec(px(), n as usize).prop_map(move |p| Img::new(n, 1, p))), 0usize..4), palette_case),
            sub("long-palettes", 500, 20_000, || {
                let len = prop_oneof![
                    2 => 200u32..=1200,
                    1 => prop::sample::select(vec![255u32, 256, 257, 258, 511, 512, 513, 768, 1000, 1023, 1024, 1025, 2049, 4097]),
                    1 => 1200u32..=5000,
                ];
                (len, 1u32..=8, any::<u32>(), vec((any::<prop::sample::Index>(), px(), 0.0f32..=0.02), 1..=40), 0usize..4).prop_map(|(n, cols, seed, picks, k)| {
                    let h = |i: u32, c: u32| d10_verif::gen::mix(seed, i, c);
                    let (w, n) = if n % cols == 0 { (cols, n) } else { (n, n) };
                    let pal: Vec<Px> = (0..n).map(|i| [h(i, 0), h(i, 1), h(i, 2), if seed % 3 == 0 { h(i, 3) } else { 1.0 }]).collect();
                    // colours near to those at any place of the palette, the last one, and others
                    let mut d: Vec<Px> = picks.iter().enumerate().map(|(j, (i, p, t))| if j % 4 == 3 { *p } else {
                        let q = pal[i.index(pal.len())];
                        std::array::from_fn(|c| if c == 3 { p[3] } else { q[c] * (1.0 - t) + p[c].clamp(0.0, 1.0) * t })
                    }).collect();
                    d.push(pal[pal.len() - 1]);
                    (Img::new(d.len() as u32, 1, d), Img::new(w, n / w, pal), k)
                })
            }, palette_case),
            sub("members", 8_000, 200_000, || {
                (vec(px(), 1..=12), vec(any::<prop::sample::Index>(), 1..=24), 0usize..4).prop_map(|(p, idx, k)| {
                    let d: Vec<Px> = idx.iter().map(|i| p[i.index(p.len())]).collect();
                    (Img::new(d.len() as u32, 1, d), Img::new(p.len() as u32, 1, p), k)
                })
            }, palette_case),
        ],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Noise {
    Random,
    Gaussian,
    Rgb,
    SaltPepper,
}
const NOISES: [Noise; 4] = [Noise::Random, Noise::Gaussian, Noise::Rgb, Noise::SaltPepper];

fn noisy(img: &Img, kind: Noise, amount: f32, place: bool) -> Result<Img, Fail> {
    let mut im = Image::new_from_buffer(img.buf());
    let out = match (kind, place) {
        (Noise::Random, false) => im.random_noise(amount),
        (Noise::Gaussian, false) => im.gaussian_noise(amount),
        (Noise::Rgb, false) => im.rgb_noise(amount),
        (Noise::SaltPepper, false) => im.salt_n_pepper_noise(amount),
        (k, true) => {
            match k {
                Noise::Random => im.add_random_noise(amount),
                Noise::Gaussian => im.add_gaussian_noise(amount),
                Noise::Rgb => im.add_rgb_noise(amount),
                Noise::SaltPepper => im.add_salt_n_pepper_noise(amount),
            }
            return Ok(Img::from_buf(im.buffer()));
        }
    };
    if Img::from_buf(im.buffer()) != *img {
        fail("input-changed", format!("{kind:?} {amount} changed its input"))?;
    }
    Ok(Img::from_buf(out.buffer()))
}

fn noise_case(v: &(Img, usize, f32, bool), c: &mut Case) -> Res {
    let (img, k, amount, place) = v;
    let (kind, a) = (NOISES[*k], *amount as f64);
    let what = format!("{kind:?} noise of {amount}{}", if *place { " in place" } else { "" });
    let out = noisy(img, kind, *amount, *place)?;
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: {}x{}", out.w, out.h);
    c.hit_if(*amount > 0.0 && img.data.len() > 3);
    c.label(format!("{kind:?}{}", if *place { " in place" } else { "" }));
    for (i, (p, g)) in img.data.iter().zip(&out.data).enumerate() {
        let msg = || format!("{what}: pixel {i} {p:?} became {g:?}");
        ensure!(g.iter().all(|v| (0.0..=1.0).contains(v)), "range", "{}", msg());
        match kind {
            Noise::Random | Noise::Gaussian => {
                ensure!(g[3] == p[3], "alpha", "{}", msg());
                for ch in 0..3 {
                    let base = (1.0 - a) * p[ch] as f64;
                    // 9 standard deviations never happen by chance
                    let span = a.abs() * if kind == Noise::Random { 1.0 } else { 9.0 };
                    let (lo, hi) = (clamp01(base - span) - 1e-6 * (1.0 + a.abs()), clamp01(base + span) + 1e-6 * (1.0 + a.abs()));
                    ensure!((g[ch] as f64) >= lo && (g[ch] as f64) <= hi, "amount", "{} (channel {ch} should be in {lo}..{hi})", msg());
                }
            }
            Noise::Rgb => {
                let set: Vec<usize> = (0..3).filter(|i| g[*i] != p[*i]).collect();
                ensure!(g[3] == p[3] && set.len() <= 1 && set.iter().all(|i| g[*i] == 1.0), "one-channel", "{}", msg());
                ensure!(*amount > 0.0 || set.is_empty(), "zero", "{}", msg());
                ensure!(*amount < 1.001 || (0..3).any(|i| g[i] == 1.0), "all", "{}", msg());
            }
            Noise::SaltPepper => {
                let special = g == &[0.0, 0.0, 0.0, 1.0] || g == &[1.0, 1.0, 1.0, 1.0];
                ensure!(special || g == p, "black-or-white", "{}", msg());
                ensure!(*amount > 0.0 || g == p, "zero", "{}", msg());
                ensure!(*amount < 1.001 || special, "all", "{}", msg());
            }
        }
        if *amount == 0.0 {
            ensure!(g == p, "zero", "{}", msg());
        }
    }
    Ok(())
}

/// Distribution over a large image of one colour
fn spread_case(v: &(Px, usize, f32, bool), c: &mut Case) -> Res {
    let (p, k, amount, place) = v;
    let kind = NOISES[*k];
    let (w, h) = (64, 64);
    let n = (w * h) as f64;
    let img = Img::new(w, h, vec![*p; (w * h) as usize]);
    let what = format!("{kind:?} noise of {amount} on {p:?}");
    let out = noisy(&img, kind, *amount, *place)?;
    let a = *amount as f64;
    c.hit();
    c.label(format!("{kind:?}{}", if *place { " in place" } else { "" }));
    // share test with a limit of 9 standard deviations
    let share = |count: usize, want: f64| (count as f64 / n - want).abs() <= 9.0 * (want * (1.0 - want) / n).sqrt() + 2.0 / n;
    match kind {
        Noise::Random | Noise::Gaussian => {
            let sd = if kind == Noise::Random { a / 3f64.sqrt() } else { a };
            let mut dev = vec![];
            for ch in 0..3 {
                let base = (1.0 - a) * p[ch] as f64;
                let d: Vec<f64> = out.data.iter().map(|g| g[ch] as f64 - base).collect();
                let mean = d.iter().sum::<f64>() / n;
                ensure!(mean.abs() < 9.0 * sd / n.sqrt(), "mean", "{what}: channel {ch} is shifted by {mean}");
                let var = d.iter().map(|v| v * v).sum::<f64>() / n;
                let kurt = if kind == Noise::Random { 0.8 } else { 2.0 };
                let lim = 9.0 * (kurt / n).sqrt() + 1e-3;
                ensure!((var / (sd * sd) - 1.0).abs() < lim, "spread", "{what}: channel {ch} has a standard deviation of {} instead of {sd}", var.sqrt());
                let distinct: std::collections::HashSet<u64> = d.iter().map(|v| v.to_bits()).collect();
                ensure!(distinct.len() as f64 > n * 0.9, "variety", "{what}: only {} different values", distinct.len());
                dev.push(d);
            }
            for (x, y) in [(0, 1), (1, 2), (0, 2)] {
                let cor = dev[x].iter().zip(&dev[y]).map(|(a, b)| a * b).sum::<f64>() / n / (sd * sd);
                ensure!(cor.abs() < 9.0 / n.sqrt(), "independent", "{what}: channels {x} and {y} correlate by {cor}");
            }
            // neighbours are independent too
            let cor = dev[0].windows(2).map(|w| w[0] * w[1]).sum::<f64>() / n / (sd * sd);
            ensure!(cor.abs() < 9.0 / n.sqrt(), "independent", "{what}: neighbours correlate by {cor}");
        }
        Noise::Rgb => {
            let t = a.clamp(0.0, 1.0);
            for ch in 0..3 {
                let count = out.data.iter().filter(|g| g[ch] == 1.0).count();
                ensure!(share(count, t / 3.0), "share", "{what}: channel {ch} set in {count} of {n} pixels");
            }
        }
        Noise::SaltPepper => {
            let t = a.clamp(0.0, 1.0);
            let black = out.data.iter().filter(|g| g[0] == 0.0).count();
            let white = out.data.iter().filter(|g| g[0] == 1.0).count();
            ensure!(share(black, t), "share", "{what}: {black} of {n} pixels are black");
            ensure!(share(white, t.min(1.0 - t)), "share", "{what}: {white} of {n} pixels are white");
        }
    }
    let again = noisy(&img, kind, *amount, !*place)?;
    let certain = matches!(kind, Noise::Rgb | Noise::SaltPepper) && !(0.05..=0.95).contains(&a);
    ensure!(certain || again != out, "repeated", "{what}: the same noise twice");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Population {
    colors: Vec<Px>,
    kind: usize,
    amount: f32,
    place: bool,
    w: u32,
    h: u32,
}

fn normal_cdf(x: f64) -> f64 {
    // complementary error function by the continued fraction for the tails and the series for the center
    let z = x.abs() / 2f64.sqrt();
    let erfc = if z < 2.5 {
        let (mut term, mut sum) = (z, z);
        for n in 1..120 {
            term *= -z * z / n as f64;
            sum += term / (2 * n + 1) as f64;
        }
        1.0 - 2.0 / std::f64::consts::PI.sqrt() * sum
    } else {
        let mut f = 0.0;
        for k in (1..=60).rev() {
            f = k as f64 / 2.0 / (z + f);
        }
        (-z * z).exp() / std::f64::consts::PI.sqrt() / (z + f)
    };
    if x > 0.0 { 1.0 - erfc / 2.0 } else { erfc / 2.0 }
}

/// The whole distribution over a population of pixels of a few colours, which is large
/// enough to see differences of a percent
fn population_case(v: &Population, c: &mut Case) -> Res {
    let kind = NOISES[v.kind];
    let k = v.colors.len();
    let class = |i: usize| (i % v.w as usize * 7 + i / v.w as usize * 3) % k;
    let n = (v.w * v.h) as usize;
    let img = Img::new(v.w, v.h, (0..n).map(|i| v.colors[class(i)]).collect());
    let what = format!("{kind:?} noise of {}{} on {}x{} pixels of {:?}", v.amount, if v.place { " in place" } else { "" }, v.w, v.h, v.colors);
    let out = noisy(&img, kind, v.amount, v.place)?;
    let again = noisy(&img, kind, v.amount, !v.place)?;
    ensure!(out.data.len() == n && again.data.len() == n, "size", "{what}: {} pixels", out.data.len());
    let a = v.amount as f64;
    c.hit_if(v.amount != 0.0);
    c.label(format!("{kind:?}{}", if v.place { " in place" } else { "" }));
    let share = |count: usize, of: usize, want: f64| {
        (count as f64 / of as f64 - want).abs() <= 9.0 * (want.max(1e-9) * (1.0 - want) / of as f64).sqrt() + 20.0 / of as f64
    };
    // correlation of two sequences of known mean and variance one
    let independent = |x: &[f64], y: &[f64], which: &str| -> Res {
        let m = x.len().min(y.len());
        let cor = x.iter().zip(y).map(|(a, b)| a * b).sum::<f64>() / m as f64;
        ensure!(cor.abs() < 9.0 / (m as f64).sqrt(), "independent", "{what}: {which} correlate by {cor}");
        Ok(())
    };
    // one value per pixel or channel which should be independent of all others
    let sequences: Vec<Vec<f64>> = match kind {
        Noise::Random | Noise::Gaussian => {
            let cdf = |x: f64| if kind == Noise::Random { ((x + 1.0) / 2.0).clamp(0.0, 1.0) } else { normal_cdf(x) };
            for col in 0..k {
                for ch in 0..3 {
                    let base = (1.0 - a) * v.colors[col][ch] as f64;
                    let mut x: Vec<f32> = (0..n).filter(|i| class(*i) == col).map(|i| out.data[i][ch]).collect();
                    x.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    let m = x.len() as f64;
                    let lim = 5.0 / m.sqrt() + 1e-3;
                    for (i, g) in x.iter().enumerate().filter(|(_, g)| **g > 0.0 && **g < 1.0) {
                        let want = cdf((*g as f64 - base) / a.abs());
                        let got = (i as f64 + 0.5) / m;
                        ensure!((want - got).abs() < lim, "distribution", "{what}: {got} of the values of channel {ch} are up to {g} instead of {want}");
                    }
                    let below = x.iter().take_while(|g| **g <= 0.0).count();
                    let above = x.iter().rev().take_while(|g| **g >= 1.0).count();
                    let (wb, wa) = (cdf(-base / a.abs()), 1.0 - cdf((1.0 - base) / a.abs()));
                    ensure!(share(below, x.len(), wb), "limits", "{what}: {below} of {m} values of channel {ch} are 0, the share should be {wb}");
                    ensure!(share(above, x.len(), wa), "limits", "{what}: {above} of {m} values of channel {ch} are 1, the share should be {wa}");
                    for t in [-0.98, -0.9, -3.5, -3.0, -2.5, -2.0, 2.0, 2.5, 3.0, 3.5, 0.9, 0.98] {
                        let edge = base + a.abs() * t;
                        if edge <= 0.0 || edge >= 1.0 {
                            continue;
                        }
                        let (count, want) = if t < 0.0 {
                            (x.iter().filter(|g| (**g as f64) < edge).count(), cdf(t))
                        } else {
                            (x.iter().filter(|g| (**g as f64) > edge).count(), 1.0 - cdf(t))
                        };
                        if a.abs() > 0.01 {
                            ensure!(share(count, x.len(), want), "tail", "{what}: {count} of {m} values of channel {ch} are beyond {t}, the share should be {want}");
                        }
                    }
                }
            }
            // signs of the deviations, where both are equally likely
            let fair = v.colors.iter().all(|p| (0..3).all(|ch| (0.05..0.95).contains(&((1.0 - a) * p[ch] as f64))));
            let signs = |img: &Img| -> Vec<f64> {
                let base: Vec<[f64; 3]> = v.colors.iter().map(|p| std::array::from_fn(|ch| (1.0 - a) * p[ch] as f64)).collect();
                (0..n).flat_map(|i| {
                    let (g, b) = (img.data[i], base[class(i)]);
                    (0..3).map(move |ch| if g[ch] as f64 > b[ch] { 1.0 } else { -1.0 })
                }).collect()
            };
            c.label_if(fair, "signs");
            if fair && a.abs() > 0.01 { vec![signs(&out), signs(&again)] } else { vec![] }
        }
        Noise::Rgb => {
            let t = a.clamp(0.0, 1.0);
            for col in 0..k {
                let x: Vec<&Px> = (0..n).filter(|i| class(*i) == col).map(|i| &out.data[i]).collect();
                for ch in 0..3 {
                    let count = x.iter().filter(|g| g[ch] == 1.0).count();
                    ensure!(share(count, x.len(), t / 3.0), "share", "{what}: channel {ch} set in {count} of {} pixels", x.len());
                }
            }
            let chosen = |img: &Img| img.data.iter().map(|g| (((0..3).any(|i| g[i] == 1.0) as u8 as f64) - t) / (t * (1.0 - t)).sqrt()).collect::<Vec<_>>();
            if (0.02..0.98).contains(&t) { vec![chosen(&out), chosen(&again)] } else { vec![] }
        }
        Noise::SaltPepper => {
            let t = a.clamp(0.0, 1.0);
            for col in 0..k {
                let x: Vec<&Px> = (0..n).filter(|i| class(*i) == col).map(|i| &out.data[i]).collect();
                let black = x.iter().filter(|g| g[0] == 0.0).count();
                let white = x.iter().filter(|g| g[0] == 1.0).count();
                ensure!(share(black, x.len(), t), "share", "{what}: {black} of {} pixels are black", x.len());
                ensure!(share(white, x.len(), t.min(1.0 - t)), "share", "{what}: {white} of {} pixels are white", x.len());
            }
            let chosen = |img: &Img| img.data.iter().map(|g| ((g[0] == 0.0) as u8 as f64 - t) / (t * (1.0 - t)).sqrt()).collect::<Vec<_>>();
            if (0.02..0.98).contains(&t) { vec![chosen(&out), chosen(&again)] } else { vec![] }
        }
    };
    if let [x, y] = &sequences[..] {
        let step = x.len() / n;
        for lag in [1, 2, 3, 4, 6, 8, 64, v.w as usize * step] {
            independent(x, &x[lag..], &format!("values {lag} apart"))?;
        }
        independent(x, y, "the values of two calls")?;
        // the same everywhere in the image
        for (i, part) in x.chunks(x.len().div_ceil(16)).enumerate() {
            let mean = part.iter().sum::<f64>() / part.len() as f64;
            ensure!(mean.abs() < 9.0 / (part.len() as f64).sqrt(), "position", "{what}: part {i} of 16 deviates by {mean}");
        }
    }
    Ok(())
}

fn population() -> BoxedStrategy<Population> {
    let px = || ((0u32..1000, 0u32..1000, 0u32..1000), alpha()).prop_map(|((r, g, b), a)| [r as f32 / 1000.0, g as f32 / 1000.0, b as f32 / 1000.0, a]);
    let mid = || ((300u32..700, 300u32..700, 300u32..700), alpha()).prop_map(|((r, g, b), a)| [r as f32 / 1000.0, g as f32 / 1000.0, b as f32 / 1000.0, a]);
    let colors = prop_oneof![prop::collection::vec(px(), 1..4), prop::collection::vec(mid(), 1..3)];
    (colors, 0usize..4, prop_oneof![3 => (20u32..=1000).prop_map(|v| v as f32 / 1000.0), 1 => (1001u32..2500).prop_map(|v| v as f32 / 1000.0)], any::<bool>(), any::<bool>(), 100u32..600, 120_000u32..250_000)
        .prop_map(|(mut colors, kind, mut amount, place, negative, w, area)| {
            if kind >= 2 {
                // white and black must be told from the original
                colors.iter_mut().for_each(|p| (0..3).for_each(|i| p[i] = p[i].max(0.001)));
            } else if negative && amount < 0.2 {
                amount = -amount;
            }
            Population { colors, kind, amount, place, w, h: area / w }
        })
        .boxed()
}

/// The generic functions work on the channels of every colour type
fn spaces_case(v: &(Img, f32, bool), c: &mut Case) -> Res {
    let (img, amount, gaussian) = v;
    let a = *amount as f64;
    macro_rules! check {
        ($to:ident, $clamp:expr) => {{
            let b = img.buf().map_colors(|c| c.$to());
            let one = if *gaussian { ops::gaussian_noise(&b, *amount) } else { ops::random_noise(&b, *amount) };
            let mut two = b.clone();
            if *gaussian { ops::add_gaussian_noise(&mut two, *amount) } else { ops::add_random_noise(&mut two, *amount) };
            for out in [one, two] {
                for (p, g) in b.data().iter().zip(out.data()) {
                    ensure!(p.alpha() == g.alpha(), "alpha", "{} noise of {amount}: {p:?} became {g:?}", stringify!($to));
                    for (x, y) in p.data().iter().zip(g.data()).take(3) {
                        let base = (1.0 - a) * *x as f64;
                        let d = if $clamp { clamp01(base) } else { base } - *y as f64;
                        let lim = a.abs() * if *gaussian { 9.0 } else { 1.0 } + 2e-6 * (1.0 + a.abs());
                        ensure!(y.is_finite() && d.abs() <= lim, "amount", "{} noise of {amount}: {p:?} became {g:?}", stringify!($to));
                    }
                }
            }
        }};
    }
    check!(to_srgb, true);
    check!(to_hsl, false);
    check!(to_hsv, false);
    c.hit_if(*amount > 0.0);
    Ok(())
}

fn amount() -> BoxedStrategy<f32> {
    prop_oneof![
        1 => Just(0.0f32),
        4 => (0u32..=1000).prop_map(|v| v as f32 / 1000.0),
        1 => prop::sample::select(vec![0.5f32, 1.0, 1.5, 2.0, 1e-4, -0.5, -1.0]),
    ]
    .boxed()
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        level: "exploration",
        rule: "a case counts if the amount is above zero and the image has at least four pixels",
        assumptions: vec!["the generator is seeded by the operating system; limits on random quantities are nine standard deviations wide"],
        subs: vec![
            sub("bounds", 40_000, 1_000_000, || (img(10), 0usize..4, amount(), any::<bool>()), noise_case),
            sub("large", 60, 1_500, || (big(80_000), 0usize..4, amount(), any::<bool>()), noise_case),
            sub("spread", 3_000, 60_000, || {
                // far enough from black and white for no value to be clamped
                let mid = || (300u32..700).prop_map(|v| v as f32 / 1000.0);
                ((mid(), mid(), mid(), alpha()), 0usize..4, 1u32..=1000, any::<bool>()).prop_map(|((r, g, b, a), k, t, place)| {
                    let amount = match NOISES[k] {
                        Noise::Random => 0.005 + t as f32 / 1000.0 * 0.2,
                        Noise::Gaussian => 0.002 + t as f32 / 1000.0 * 0.025,
                        _ => t as f32 / 1000.0,
                    };
                    ([r, g, b, a], k, amount, place)
                })
            }, spread_case),
            sub("population", 200, 4_000, population, population_case),
            sub("spaces", 6_000, 150_000, || (img(6), amount(), any::<bool>()), spaces_case),
        ],
    }
}

type Plane = Vec<[f64; 4]>;

struct Limits {
    e: f64,
}

fn to_img(p: &Plane, w: u32, h: u32) -> Img {
    Img::new(w, h, p.iter().map(|v| v.map(|v| v as f32)).collect())
}

fn blur(p: &Plane, w: u32, h: u32, radius: u32, sigma: Option<f64>) -> Plane {
    let n = radius * 2 + 1;
    conv(&to_img(p, w, h), &gauss(n, sigma.unwrap_or(radius as f64 / 2.0)), n, n)
}

fn unsharp(p: &Plane, w: u32, h: u32, radius: u32, factor: f64, sigma: Option<f64>) -> Plane {
    let b = blur(p, w, h, radius, sigma);
    p.iter().zip(&b).map(|(p, b)| std::array::from_fn(|i| clamp01(p[i] + (p[i] - b[i]) * factor))).collect()
}

fn avg(p: &[f64; 4]) -> f64 {
    (p[0] + p[1] + p[2]) / 3.0
}

fn via<F: Fn(&Rgb) -> Rgb>(p: &Plane, f: F) -> Plane {
    p.iter().map(|v| c64(f(&Rgb { data: v.map(|v| v as f32) }).data)).collect()
}

/// The drawing effect as defined, thresholds moved by lim.e
fn drawing_model(img: &Img, radius: u32, mode: usize, lim: &Limits) -> Plane {
    let (w, h, e) = (img.w, img.h, lim.e);
    let orig: Plane = img.data.iter().map(|p| c64(*p)).collect();
    let light: Plane = orig.iter().map(|p| [p[0] * 0.8 + 0.2, p[1] * 0.8 + 0.2, p[2] * 0.8 + 0.2, p[3]]).collect();
    let b1 = via(&unsharp(&blur(&light, w, h, 1, None), w, h, 4, 4.0, Some(5.0)), |c| c.with_contrast(1.05));
    let b2: Plane = blur(&light, w, h, radius, None).iter().map(|p| [1.0 - p[0], 1.0 - p[1], 1.0 - p[2], p[3]]).collect();
    let ink: Plane = b1
        .iter()
        .zip(&b2)
        .map(|(c1, c2)| {
            let ratio = |a: f64, b: f64| (a / (1.01 - b).min(1.0)).abs();
            let mut d = 1.0f64;
            let (g1, g2) = (avg(c1), avg(c2));
            if g1 > 0.05 + e || g2 < 0.95 - e {
                d = d.min(ratio(g1, g2));
            }
            for i in 0..3 {
                if c1[i] > 0.8 + e || c2[i] < 0.2 - e {
                    d = d.min(ratio(c1[i], c2[i]));
                }
            }
            let v = if d > 0.8 + e { 1.0 } else { ((d - 0.5) * 1.2).max(0.0) };
            [v, v, v, 1.0]
        })
        .collect();
    let ink = unsharp(&ink, w, h, 2, 1.0, None);
    let t = 0.15 + e;
    let src = to_img(&ink, w, h);
    let drawing: Plane = (0..ink.len())
        .map(|i| {
            let p = ink[i];
            if avg(&p) < t {
                let (x, y) = ((i as u32 % w) as i64, (i as u32 / w) as i64);
                let n: Vec<[f64; 4]> = (0..9).map(|k| src.clamped64(x + k % 3 - 1, y + k / 3 - 1)).collect();
                let bright: Vec<&[f64; 4]> = n.iter().filter(|p| avg(p) >= t).collect();
                if n.len() - bright.len() <= 1 {
                    let m = |i: usize| bright.iter().map(|p| p[i]).sum::<f64>() / bright.len() as f64;
                    return [m(0), m(1), m(2), p[3]];
                }
            }
            p
        })
        .collect();
    let zip = |a: &Plane, b: &Plane, f: &dyn Fn(Rgb, Rgb) -> Rgb| -> Plane {
        a.iter()
            .zip(b)
            .map(|(a, b)| c64(f(Rgb { data: a.map(|v| v as f32) }, Rgb { data: b.map(|v| v as f32) }).data))
            .collect()
    };
    match mode {
        0 => drawing,
        1 => zip(&drawing, &orig, &|d, o| {
            let (d, o) = (d.to_hsl(), o.to_hsl());
            Hsl { data: [o.data[0], o.data[1], o.data[2].min(d.data[2]), o.data[3]] }.to_rgb()
        }),
        _ => {
            let reduced = via(&orig, |c| {
                let c = c.to_hsv();
                Hsv { data: [c.data[0], c.data[1] * 0.5, ((c.data[2] * 6.5 + 0.2) / 4.5).min(1.0), c.data[3]] }.to_rgb()
            });
            let hsv = |c: Rgb| c.to_hsv().data;
            let o = zip(&drawing, &blur(&reduced, w, h, 2, None), &|a, b| {
                let (a, b) = (hsv(a), hsv(b));
                Hsv { data: [a[0], b[1], a[2], a[3]] }.to_rgb()
            });
            let o = zip(&o, &blur(&orig, w, h, 3, None), &|a, b| {
                let (a, b) = (hsv(a), hsv(b));
                Hsv { data: [b[0], a[1], a[2], a[3]] }.to_rgb()
            });
            let o = zip(&o, &blur(&orig, w, h, 4, None), &|a, b| {
                let (a, b) = (hsv(a), hsv(b));
                Hsv { data: [a[0], a[1], a[2] * b[2], a[3]] }.to_rgb()
            });
            via(&unsharp(&o, w, h, 3, 1.5, None), |c| c.with_saturation(1.3).with_gamma(1.1).with_vibrance(0.3))
        }
    }
}

const MODES: [DrawingMode; 3] = [DrawingMode::Gray, DrawingMode::Colored, DrawingMode::ReducedColors];

fn drawing_case(v: &(Img, u32, usize), c: &mut Case) -> Res {
    let (img, radius, m) = v;
    let what = format!("drawing {:?} radius {radius}", MODES[*m]);
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.drawing(*radius, MODES[*m]).buffer());
    ensure!(Img::from_buf(im.buffer()) == *img, "input-changed", "{what}");
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: {}x{}", out.w, out.h);
    for (i, (p, g)) in img.data.iter().zip(&out.data).enumerate() {
        ensure!(g.iter().all(|v| (-1e-6..=1.000_001).contains(v)), "range", "{what}: pixel {i} {p:?} became {g:?}");
        // only the colored mode takes over the alpha values
        let a = if *m == 1 { p[3] } else { 1.0 };
        ensure!((g[3] - a).abs() < 1e-6, "alpha", "{what}: pixel {i} {p:?} became {g:?}");
        if *m == 0 {
            ensure!(g[0] == g[1] && g[1] == g[2], "gray", "{what}: pixel {i} {p:?} became {g:?}");
        }
    }
    ensure!(out == Img::from_buf(&ops::drawing(im.buffer(), *radius, MODES[*m])), "facade", "{what}: image and buffer level differ");
    let base = drawing_model(img, *radius, *m, &Limits { e: 0.0 });
    // what depends on decisions within rounding errors is left open
    let mut shaken = img.clone();
    for (i, p) in shaken.data.iter_mut().enumerate() {
        for (k, v) in p.iter_mut().enumerate().take(3) {
            let d = 3e-6 * if (i * 7 + k * 3) % 5 < 2 { -1.0 } else { 1.0 };
            *v = (*v + d).clamp(0.0, 1.0);
        }
    }
    let vars = [
        drawing_model(img, *radius, *m, &Limits { e: 1e-4 }),
        drawing_model(img, *radius, *m, &Limits { e: -1e-4 }),
        drawing_model(&shaken, *radius, *m, &Limits { e: 0.0 }),
    ];
    let mut open = 0;
    for (i, g) in out.data.iter().enumerate() {
        let spread = (0..4).map(|ch| vars.iter().map(|v| (v[i][ch] - base[i][ch]).abs()).fold(0.0, f64::max)).fold(0.0, f64::max);
        if spread > 2e-3 {
            open += 1;
            continue;
        }
        ensure!(
            close4(*g, base[i], 2e-4 + 4.0 * spread),
            "drawing",
            "{what}: pixel {},{} of {}x{} {:?} became {g:?} instead of {:?}",
            i as u32 % img.w,
            i as u32 / img.w,
            img.w,
            img.h,
            img.data[i],
            base[i]
        );
    }
    c.label(format!("{:?}", MODES[*m]));
    c.label_if(open > 0, "open pixels");
    c.label_if(open * 2 > img.data.len(), "mostly open");
    c.hit_if(img.distinct() > 1 && open < img.data.len());
    Ok(())
}

fn mse(a: &Img, b: &Img) -> f64 {
    let s: f64 = a.data.iter().zip(&b.data).map(|(a, b)| (0..3).map(|i| (a[i] as f64 - b[i] as f64).powi(2)).sum::<f64>()).sum();
    s / (a.data.len() * 3) as f64
}

fn jpeg_case(v: &(Img, u8, bool), c: &mut Case) -> Res {
    let (img, quality, keep) = v;
    let what = format!("jpeg quality {quality}, preserve alpha {keep}");
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.with_jpeg_quality(*quality, *keep).buffer());
    ensure!(Img::from_buf(im.buffer()) == *img, "input-changed", "{what}");
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: {}x{}", out.w, out.h);
    for (i, (p, g)) in img.data.iter().zip(&out.data).enumerate() {
        ensure!(g.iter().all(|v| (0.0..=1.0).contains(v)), "range", "{what}: pixel {i} {p:?} became {g:?}");
        let a = if *keep { p[3] } else { 1.0 };
        ensure!(g[3] == a, "alpha", "{what}: pixel {i} {p:?} became {g:?}");
    }
    ensure!(out == Img::from_buf(&ops::jpeg_quality(im.buffer(), *quality, *keep)), "facade", "{what}: image and buffer level differ");
    // the colours are those of a file of this quality
    let file = im.save_to_buffer(EncodingFormat::jpeg_with_quality(*quality)).map_err(|e| err("encode", format!("{what}: {e}")))?;
    let dec = Image::read_from_buffer(&file).map_err(|e| err("decode", format!("{what}: {e}")))?;
    for (i, (p, g)) in dec.data().iter().zip(&out.data).enumerate() {
        ensure!(p.data[..3] == g[..3], "file", "{what}: pixel {i} is {g:?}, but {p:?} in a file");
    }
    c.hit_if(img.distinct() > 1);
    c.label(if *keep { "alpha kept" } else { "opaque" });
    // the best quality is close to the original, and no worse than a bad one
    let best = Img::from_buf(im.with_jpeg_quality(100, *keep).buffer());
    let (e, eb) = (mse(img, &out), mse(img, &best));
    ensure!(eb <= e + 2e-2, "order", "{what}: error {e}, with quality 100 {eb}");
    Ok(())
}

/// Smooth images survive
fn smooth_case(v: &(Px, Px, u32, u32, u8), c: &mut Case) -> Res {
    let (a, b, w, h, quality) = v;
    let mut d = vec![];
    for y in 0..*h {
        for x in 0..*w {
            let t = (x + y) as f32 / (w + h) as f32;
            d.push(std::array::from_fn(|i| a[i] * (1.0 - t) + b[i] * t));
        }
    }
    let img = Img::new(*w, *h, d);
    let im = Image::new_from_buffer(img.buf());
    let e = |q: u8| mse(&img, &Img::from_buf(im.with_jpeg_quality(q, true).buffer())).sqrt();
    let (eq, e100) = (e(*quality), e(100));
    ensure!(e100 < 0.02, "best", "gradient {a:?} to {b:?} {w}x{h}: error {e100} with quality 100");
    ensure!(*quality < 50 || eq < 0.06, "good", "gradient {a:?} to {b:?} {w}x{h}: error {eq} with quality {quality}");
    ensure!(eq < 0.35, "bad", "gradient {a:?} to {b:?} {w}x{h}: error {eq} with quality {quality}");
    ensure!(e100 <= eq + 0.01, "order", "gradient {a:?} to {b:?} {w}x{h}: error {eq} with quality {quality}, {e100} with 100");
    c.hit();
    Ok(())
}

/// Sides up to the limit of the file format, and above
fn limits_case(v: &(u32, bool, u8, bool), c: &mut Case) -> Res {
    let (n, tall, quality, keep) = v;
    let (w, h) = if *tall { (1, *n) } else { (*n, 1) };
    let buf = d10::PixelBuffer::new_from_func(w, h, |x, y| Rgb::new_with_alpha(((x + y) % 7) as f32 / 6.0, 0.5, 0.25, 0.5));
    let what = format!("{w}x{h}, quality {quality}, preserve alpha {keep}");
    match no_panic(|| ops::jpeg_quality(&buf, *quality, *keep)) {
        Err(e) if *n > 65535 => return fail("panic-side-above-65535", format!("{what}: {e}")),
        Err(e) => return fail("panic", format!("{what}: {e}")),
        Ok(out) => {
            ensure!((out.width(), out.height()) == (w, h), "size", "{what}: {}x{}", out.width(), out.height());
            let a = if *keep { 0.5 } else { 1.0 };
            ensure!(out.data().iter().all(|p| p.data[3] == a), "alpha", "{what}");
        }
    }
    c.hit();
    c.label_if(*n == 65535, "largest side");
    Ok(())
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        level: "exploration",
        rule: "a case counts if the image has different pixels and at least one output pixel is decided by the model",
        assumptions: vec![
            "drawing: pixels that change by more than 0.002 when the thresholds move by 1e-4 or the input by 3e-6 are left open",
            "conversions between colour spaces, contrast, vibrance and gamma are those of the crate, they are checked by C02 and C03",
        ],
        subs: vec![
            sub("drawing", 6_000, 120_000, || (img(16), prop_oneof![4 => 1u32..=6, 1 => Just(0u32), 1 => prop_oneof![7u32..=15, 16u32..=32]], 0usize..3), drawing_case),
            sub("large", 24, 500, || (big(60_000), 1u32..=6, 0usize..3), drawing_case),
            sub("large-jpeg", 24, 600, || (big(60_000), 1u8..=100, any::<bool>()), jpeg_case),
            sub("jpeg", 4_000, 120_000, || (img(40), prop_oneof![3 => 1u8..=100, 1 => any::<u8>()], any::<bool>()), jpeg_case),
            sub("smooth", 3_000, 60_000, || (px(), px(), 16u32..=48, 16u32..=48, 1u8..=100), smooth_case),
            sub("limits", 120, 1_000, || (prop_oneof![4 => 60000u32..65535, 2 => Just(65535u32), 1 => 65536u32..70000], any::<bool>(), any::<u8>(), any::<bool>()), limits_case),
        ],
    }
}
