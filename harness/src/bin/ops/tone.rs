//! C12 global tone operations derived from the statistics of the whole image
use d10::illuminant::D65;
use d10::observer::O2;
use d10::ops::{self, BalanceMode, SaturationMode};
use d10::{Color, EqualizeMode, Hsl, Hsv, Image, Rgb, Srgb, Xyz};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use d10_verif::refmath::*;
use proptest::prelude::*;

/// Uncertainty of a value in 0..255 before it is put into a bin
const BIN_EPS: f64 = 2e-4;
const SHARE_EPS: f64 = 2e-5;

fn rgb(p: Px) -> Rgb {
    Rgb { data: p }
}

fn c64s(v: &[f32]) -> [f64; 4] {
    [v[0] as f64, v[1] as f64, v[2] as f64, v[3] as f64]
}

fn bins(values: &[f64], shift: f64) -> [f64; 256] {
    let mut r = [0.0; 256];
    for v in values {
        r[(v * 255.0 + shift).clamp(0.0, 255.0).floor() as usize] += 1.0 / values.len() as f64;
    }
    r
}

/// First bin at which the accumulated share exceeds the limit
fn cut(it: impl Iterator<Item = (usize, f64)>, limit: f64) -> Option<usize> {
    let mut s = 0.0;
    for (i, v) in it {
        s += v;
        if s > limit {
            return Some(i);
        }
    }
    None
}

/// All results a correct implementation may come to for the darkest and brightest level
fn levels(values: &[f64], threshold: f64) -> (Vec<f64>, Vec<f64>) {
    let (mut lo, mut hi) = (vec![], vec![]);
    let limit = threshold / 1000.0;
    // shares that are sums of few bits have no rounding errors, and nothing is the same as nothing
    let exact = values.len().is_power_of_two() && (limit * 1024.0).fract() == 0.0;
    let eps = if exact { 0.0 } else { SHARE_EPS * limit.abs() };
    for shift in [-BIN_EPS, BIN_EPS] {
        let h = bins(values, shift);
        for l in [limit - eps, limit + eps] {
            lo.push(cut(h.iter().cloned().enumerate(), l));
            hi.push(cut(h.iter().cloned().enumerate().rev(), l));
        }
    }
    let used: Vec<bool> = {
        let (a, b) = (bins(values, -BIN_EPS), bins(values, BIN_EPS));
        (0..256).map(|i| a[i] + b[i] > 0.0).collect()
    };
    // all levels in use between the extremes, and the upper end if the limit may never be exceeded
    let fill = |c: Vec<Option<usize>>, end: usize| {
        let some: Vec<usize> = c.iter().flatten().cloned().chain(c.contains(&None).then_some(end)).collect();
        let (a, b) = (*some.iter().min().unwrap(), *some.iter().max().unwrap());
        let mut r: Vec<usize> = (a..=b).filter(|i| used[*i] || *i == a || *i == b).collect();
        if c.contains(&None) && !r.contains(&255) {
            r.push(255);
        }
        r.into_iter().map(|v| v as f64 / 255.0).collect::<Vec<f64>>()
    };
    (fill(lo, 255), fill(hi, 0))
}

fn level(v: f64, lo: f64, hi: f64) -> f64 {
    let d = hi - lo;
    // small ranges are stretched less
    let scale = (d.abs() * 10.0).tanh();
    if scale < 1e-6 {
        v
    } else {
        (v - lo * scale) * scale / d
    }
}

const BALANCE: [BalanceMode; 5] = [BalanceMode::Rgb, BalanceMode::Srgb, BalanceMode::Hsv, BalanceMode::Hsl, BalanceMode::Lch];

/// Change of a colour far outside of the gamut caused by the rounding of its components
fn sensitivity(from: fn([f32; 4]) -> Rgb, d: [f32; 4]) -> f64 {
    let base = from(d).data;
    let mut r = 0.0f64;
    for i in 0..3 {
        for f in [-4e-6f32, 4e-6] {
            let mut e = d;
            e[i] += e[i] * f;
            let v = from(e).data;
            r = (0..3).fold(r, |r, c| r.max((v[c] as f64 - base[c] as f64).abs()));
        }
    }
    r * 4.0
}

type Conv = (fn(Px) -> [f32; 4], fn([f32; 4]) -> Rgb);

fn space(i: usize) -> Conv {
    match i {
        0 => (|p| p, |d| Rgb { data: d }),
        1 => (|p| rgb(p).to_srgb().data, |d| Srgb { data: d }.to_rgb()),
        2 => (|p| rgb(p).to_hsv().data, |d| Hsv { data: d }.to_rgb()),
        3 => (|p| rgb(p).to_hsl().data, |d| Hsl { data: d }.to_rgb()),
        _ => (
            |p| rgb(p).to_lch::<D65, O2>().data().try_into().unwrap(),
            |d| {
                let mut c = rgb([0.0, 0.0, 0.0, 1.0]).to_lch::<D65, O2>();
                c.data_mut().copy_from_slice(&d);
                c.to_rgb()
            },
        ),
    }
}

fn basics(img: &Img, im: &Image, out: &Img, level2: &Img, what: &str) -> Res {
    ensure!(Img::from_buf(im.buffer()) == *img, "input-changed", "{what}");
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: {}x{}", out.w, out.h);
    for (p, g) in img.data.iter().zip(&out.data) {
        ensure!(g.iter().all(|v| v.is_finite()), "finite", "{what}: {p:?} became {g:?}");
        ensure!(g.iter().all(|v| (-1e-6..=1.000_001).contains(v)), "range", "{what}: {p:?} became {g:?}");
        ensure!((g[3] - p[3]).abs() < 1e-6, "alpha", "{what}: {p:?} became {g:?}");
    }
    ensure!(out == level2, "facade", "{what}: image and buffer level differ");
    Ok(())
}

fn balance_case(v: &(Img, usize, f32), c: &mut Case) -> Res {
    let (img, m, threshold) = v;
    let what = format!("balance {:?} with threshold {threshold}", BALANCE[*m]);
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.balance(BALANCE[*m], *threshold).buffer());
    basics(img, &im, &out, &Img::from_buf(&ops::balance(im.buffer(), BALANCE[*m], *threshold)), &what)?;
    if *m == 0 {
        ensure!(Img::from_buf(im.white_balance(*threshold).buffer()) == out, "white-balance", "{what}: differs from white balance");
    }
    let (to, from) = space(*m);
    let chans: Vec<usize> = match m {
        0 | 1 => vec![0, 1, 2],
        2 | 3 => vec![1, 2],
        _ => vec![0, 1],
    };
    let vals: Vec<[f32; 4]> = img.data.iter().map(|p| to(*p)).collect();
    let mut combos: Vec<Vec<(f64, f64)>> = vec![vec![]];
    for ch in &chans {
        let cv: Vec<f64> = vals.iter().map(|v| v[*ch] as f64).collect();
        let (lo, hi) = levels(&cv, *threshold as f64);
        if combos.len() * lo.len() * hi.len() > 600 {
            c.label("undecided levels");
            return Ok(());
        }
        combos = combos
            .into_iter()
            .flat_map(|p| {
                lo.iter()
                    .flat_map(|l| hi.iter().map(|h| (*l, *h)).collect::<Vec<_>>())
                    .map(|x| {
                        let mut p = p.clone();
                        p.push(x);
                        p
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    c.label(if combos.len() == 1 { "unique levels" } else { "several possible levels" });
    c.label(format!("{:?}", BALANCE[*m]));
    let mut first = None;
    for combo in &combos {
        let mut bad = None;
        for (i, g) in out.data.iter().enumerate() {
            let mut d = vals[i];
            for (ch, (lo, hi)) in chans.iter().zip(combo) {
                d[*ch] = level(d[*ch] as f64, *lo, *hi) as f32;
            }
            let w = clampc(c64(from(d).data));
            if !close4(*g, w, 5e-5) && !(*m == 4 && close4(*g, w, 5e-5 + sensitivity(from, d))) {
                bad = Some((i, w));
                break;
            }
        }
        if bad.is_none() {
            c.hit_if(img.data.len() > 1 && combo.iter().any(|(l, h)| *l > 0.0 || *h < 1.0) && img.data != out.data);
            return Ok(());
        }
        if first.is_none() {
            first = bad.map(|b| (combo.clone(), b));
        }
    }
    let (combo, (i, w)) = first.unwrap();
    fail("balance", format!("{what}: pixel {i} {:?} became {:?} instead of {w:?} (levels {combo:?})", img.data[i], out.data[i]))
}

fn contrast_case(v: &(Img, f32), c: &mut Case) -> Res {
    let (img, threshold) = v;
    let what = format!("stretch contrast with threshold {threshold}");
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.stretch_contrast(*threshold).buffer());
    basics(img, &im, &out, &Img::from_buf(&ops::stretch_contrast(im.buffer(), *threshold)), &what)?;
    let avg: Vec<f64> = img.data.iter().map(|p| (p[0] as f64 + p[1] as f64 + p[2] as f64) / 3.0).collect();
    let (lo, hi) = levels(&avg, *threshold as f64);
    c.label(if lo.len() * hi.len() == 1 { "unique levels" } else { "several possible levels" });
    let mut first = None;
    for l in &lo {
        for h in &hi {
            let d = h - l;
            let f = if d == 0.0 { 32768.0 } else { 1.0 / d };
            let mut bad = None;
            for (i, (g, p)) in out.data.iter().zip(&img.data).enumerate() {
                let p = c64(*p);
                let m = |i: usize| if *l > 0.0 || *h < 1.0 { clamp01((p[i] - l) * f) } else { p[i] };
                let w = [m(0), m(1), m(2), p[3]];
                // a range of zero makes a hard threshold
                let tol = 1e-6 * f.abs() + 2e-6;
                let decided = d != 0.0 || (0..3).all(|i| (p[i] - l).abs() > 1e-3 || p[i] - l < -1e-5);
                if decided && !close4(*g, w, tol) {
                    bad = Some((i, w));
                    break;
                }
            }
            if bad.is_none() {
                c.hit_if((*l > 0.0 || *h < 1.0) && img.distinct() > 1);
                c.label_if(d == 0.0, "range of zero");
                return Ok(());
            }
            if first.is_none() {
                first = bad.map(|b| (*l, *h, b));
            }
        }
    }
    let (l, h, (i, w)) = first.unwrap();
    fail("contrast", format!("{what}: pixel {i} {:?} became {:?} instead of {w:?} (levels {l} {h})", img.data[i], out.data[i]))
}

const EQUALIZE: [EqualizeMode; 5] = [
    EqualizeMode::Rgb,
    EqualizeMode::Srgb,
    EqualizeMode::Saturation,
    EqualizeMode::Lightness,
    EqualizeMode::SaturationLightness,
];

fn equalize_case(v: &(Img, usize), c: &mut Case) -> Res {
    let (img, m) = v;
    let what = format!("equalize {:?}", EQUALIZE[*m]);
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.equalize(EQUALIZE[*m]).buffer());
    basics(img, &im, &out, &Img::from_buf(&ops::equalize(im.buffer(), EQUALIZE[*m])), &what)?;
    let ((to, from), chans) = match m {
        0 => (space(0), vec![0, 1, 2]),
        1 => (space(1), vec![0, 1, 2]),
        2 => (space(3), vec![1]),
        3 => (space(3), vec![2]),
        _ => (space(3), vec![1, 2]),
    };
    let vals: Vec<[f32; 4]> = img.data.iter().map(|p| to(*p)).collect();
    let mut want = vals.clone();
    for ch in chans {
        let b: Vec<f64> = vals.iter().map(|v| v[ch] as f64 * 255.0).collect();
        if b.iter().any(|v| ((v + 0.5) - (v + 0.5).round()).abs() < BIN_EPS) {
            c.label("undecided bin");
            return Ok(());
        }
        let b: Vec<i64> = b.iter().map(|v| v.round().clamp(0.0, 255.0) as i64).collect();
        let zero = b.iter().filter(|v| **v == 0).count();
        let upto: Vec<usize> = (0..256).map(|l| if b.len() < 50 || b.contains(&l) { b.iter().filter(|v| **v <= l).count() } else { 0 }).collect();
        for (i, w) in want.iter_mut().enumerate() {
            // the share of pixels up to this level, without those of level zero
            let upto = upto[b[i] as usize];
            w[ch] = if zero == b.len() { 0.0 } else { (upto - zero) as f32 / (b.len() - zero) as f32 };
        }
    }
    c.hit_if(img.distinct() > 1);
    c.label(format!("{:?}", EQUALIZE[*m]));
    for (i, g) in out.data.iter().enumerate() {
        let w = clampc(c64(from(want[i]).data));
        ensure!(close4(*g, w, 2e-5), "equalize", "{what}: pixel {i} {:?} became {g:?} instead of {w:?}", img.data[i]);
    }
    Ok(())
}

const SATURATION: [SaturationMode; 3] = [SaturationMode::Hsl, SaturationMode::Hsv, SaturationMode::Lch];

fn saturation_case(v: &(Img, f32, usize), c: &mut Case) -> Res {
    let (img, offset, m) = v;
    let what = format!("optimize saturation {:?} with offset {offset}", SATURATION[*m]);
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.optimize_saturation(*offset, SATURATION[*m]).buffer());
    basics(img, &im, &out, &Img::from_buf(&ops::optimize_saturation(im.buffer(), *offset, SATURATION[*m])), &what)?;
    let ((to, from), s, b) = match m {
        0 => (space(3), 1, 2),
        1 => (space(2), 1, 2),
        _ => (space(4), 1, 0),
    };
    let vals: Vec<[f32; 4]> = img.data.iter().map(|p| to(*p)).collect();
    let avg = vals.iter().map(|v| v[s] as f64).sum::<f64>() / vals.len() as f64;
    let gamma = *offset as f64 + (1.0 - avg) / 1.5;
    let differ = img.distinct() > 1;
    for (i, g) in out.data.iter().enumerate() {
        let v = c64s(&vals[i]);
        // less for dark and bright colours
        let local = 1.0 + (gamma - 1.0) * (1.0 - (v[b] - 0.5).abs() * 2.0);
        if local.abs() < 1e-2 {
            c.label("undecided gamma");
            continue;
        }
        let mut d = vals[i];
        d[s] = if local > 0.0 { clamp01(v[s]).powf(1.0 / local) } else { v[s].floor().clamp(0.0, 1.0) } as f32;
        if local <= 0.0 && v[s] > 0.999 {
            continue;
        }
        c.label_if(local < 0.0, "no saturation left");
        c.hit_if(differ && d[s] != vals[i][s]);
        let w = clampc(c64(from(d).data));
        let tol = 5e-5 + 1e-5 / local.abs();
        ensure!(close4(*g, w, tol), "saturation", "{what}: pixel {i} {:?} became {g:?} instead of {w:?} (gamma {gamma}, local {local})", img.data[i]);
    }
    c.label(format!("{:?}", SATURATION[*m]));
    Ok(())
}

fn lightness_case(v: &(Img, f32), c: &mut Case) -> Res {
    let (img, factor) = v;
    let what = format!("optimize lightness by {factor}");
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.optimize_lightness(*factor).buffer());
    basics(img, &im, &out, &Img::from_buf(&ops::optimize_lightness(im.buffer(), *factor)), &what)?;
    let avg = img
        .data
        .iter()
        .map(|p| {
            let p = c64(*p);
            (max3(&p) + min3(&p)) / 2.0
        })
        .sum::<f64>()
        / img.data.len() as f64;
    let gamma = 1.0 - (avg - 0.5) * *factor as f64;
    c.label_if(gamma < 0.0, "negative gamma");
    c.hit_if(img.distinct() > 1 && (gamma - 1.0).abs() > 1e-3);
    if gamma.abs() < 1e-2 {
        c.label("undecided gamma");
        return Ok(());
    }
    for (i, (g, p)) in out.data.iter().zip(&img.data).enumerate() {
        let p = c64(*p);
        // as dark as possible once the gamma value falls below zero
        let m = |i: usize| if gamma > 0.0 { p[i].powf(1.0 / gamma) } else { p[i].floor() };
        let w = [m(0), m(1), m(2), p[3]];
        let tol = 5e-6 + 2e-6 * (1.0 + factor.abs() as f64) / gamma.abs();
        ensure!(close4(*g, w, tol), "lightness", "{what}: pixel {i} {p:?} became {g:?} instead of {w:?} (gamma {gamma})");
    }
    Ok(())
}

/// CIE 1931 chromaticity of black bodies from 1000 to 12000 kelvin
const BLACK_BODY: [(f64, f64); 12] = [
    (0.652750, 0.344462),
    (0.526676, 0.413297),
    (0.436930, 0.404074),
    (0.380438, 0.376746),
    (0.345100, 0.351607),
    (0.322082, 0.331752),
    (0.306373, 0.316511),
    (0.295186, 0.304764),
    (0.286925, 0.295582),
    (0.280633, 0.288286),
    (0.275714, 0.282394),
    (0.271783, 0.277561),
];

fn kelvin(t: f64) -> [f64; 3] {
    let t = t.clamp(1000.0, 12000.0) / 1000.0 - 1.0;
    let i = (t.floor() as usize).min(10);
    let f = t - i as f64;
    let (a, b) = (BLACK_BODY[i], BLACK_BODY[i + 1]);
    let (x, y) = (a.0 * (1.0 - f) + b.0 * f, a.1 * (1.0 - f) + b.1 * f);
    let c = Xyz::new((x / y) as f32, 1.0, ((1.0 - x - y) / y) as f32).to_rgb();
    [c.data[0] as f64, c.data[1] as f64, c.data[2] as f64]
}

/// Expected colours, None where the definition leaves no reliable value
fn temperature_model(img: &Img, orig: f64, new: f64, tint: f64) -> Vec<[Option<(f64, f64)>; 3]> {
    let (o, n) = (kelvin(orig), kelvin(new));
    let len = img.data.len() as f64;
    let mean = |f: &dyn Fn(&[f64; 4]) -> f64| img.data.iter().map(|p| f(&c64(*p))).sum::<f64>() / len;
    let pow = |a: f64| if tint > 0.0 && a > 0.0 { 1.0 / (1.0 - (a * tint).tanh()) } else { 1.0 };
    let p = [
        pow(0.25 * mean(&|p| 2.0 * p[0] - p[1] - p[2])),
        pow(mean(&|p| 2.0 * p[1] - p[0] - p[2])),
        pow(0.33 * mean(&|p| 2.0 * p[2] - p[0] - p[1])),
    ];
    img.data
        .iter()
        .map(|px| {
            std::array::from_fn(|i| {
                let v = px[i] as f64;
                if p[i] > 50.0 || !p[i].is_finite() {
                    return None;
                }
                let same = orig.clamp(1000.0, 12000.0) == new.clamp(1000.0, 12000.0);
                let f = if same {
                    1.0
                } else if o[i] < 2e-2 || n[i] < 2e-2 {
                    if v == 0.0 {
                        return Some((0.0, 1e-6));
                    }
                    return None;
                } else {
                    o[i] / n[i]
                };
                // green is corrected before, red and blue after the change of temperature
                let w = if i == 1 { clamp01(v.powf(p[i]) * f) } else { clamp01(v * f).powf(p[i]) };
                let ferr = if same { 2e-7 } else { 2e-4 / o[i].min(n[i]) };
                Some((w, 2e-6 + 3e-5 * p[i] * (1.0 + tint) + f * p[i] * ferr))
            })
        })
        .collect()
}

fn check_temperature(img: &Img, out: &Img, candidates: &[Vec<[Option<(f64, f64)>; 3]>], what: &str, c: &mut Case) -> Res {
    let mut first = None;
    for m in candidates {
        let mut bad = None;
        'px: for (i, g) in out.data.iter().enumerate() {
            for ch in 0..3 {
                match m[i][ch] {
                    None => c.label("open value"),
                    Some((w, tol)) if !close(g[ch], w, tol) => {
                        bad = Some((i, ch, w, tol));
                        break 'px;
                    }
                    _ => (),
                }
            }
        }
        match bad {
            None => return Ok(()),
            b => first = first.or(b),
        }
    }
    let (i, ch, w, tol) = first.unwrap();
    fail("temperature", format!("{what}: pixel {i} {:?} became {:?}, channel {ch} should be {w} ({tol:e})", img.data[i], out.data[i]))
}

fn temperature_case(v: &(Img, u32, u32, f32), c: &mut Case) -> Res {
    let (img, orig, new, tint) = v;
    let what = format!("color temperature {orig} to {new} tint {tint}");
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.change_color_temperature(*orig as f32, *new as f32, *tint).buffer());
    basics(img, &im, &out, &Img::from_buf(&ops::change_color_temperature(im.buffer(), *orig as f32, *new as f32, *tint)), &what)?;
    c.hit_if(orig != new || *tint > 0.0);
    c.label_if(*tint > 0.0, "tint");
    c.label_if(orig == new, "same temperature");
    if orig == new && *tint <= 0.0 {
        for (g, p) in out.data.iter().zip(&img.data) {
            ensure!(close4(*g, c64(*p), 1e-6), "neutral", "{what}: {p:?} became {g:?}");
        }
    }
    // one kelvin more or less does not matter
    let snap = |t: u32| if t % 1000 == 1 { vec![t as f64, t as f64 - 1.0] } else { vec![t as f64] };
    let models: Vec<_> = snap(*orig)
        .into_iter()
        .flat_map(|o| snap(*new).into_iter().map(move |n| (o, n)))
        .map(|(o, n)| temperature_model(img, o, n, *tint as f64))
        .collect();
    check_temperature(img, &out, &models, &what, c)
}

fn auto_temperature_case(v: &(Img, f32, f32), c: &mut Case) -> Res {
    let (img, factor, tint) = v;
    let what = format!("optimize color temperature by {factor} tint {tint}");
    let im = Image::new_from_buffer(img.buf());
    let out = Img::from_buf(im.optimize_color_temperature(*factor, *tint).buffer());
    basics(img, &im, &out, &Img::from_buf(&ops::optimize_color_temperature(im.buffer(), *factor, *tint)), &what)?;
    let avg = img.data.iter().map(|p| p[0] as f64 - p[2] as f64).sum::<f64>() / img.data.len() as f64;
    let t = 6500.0 - avg.tanh() * *factor as f64 * 4000.0;
    c.hit_if(avg.abs() > 1e-3 && *factor != 0.0);
    let (l, h) = ((t - 0.02).max(0.0).floor(), (t + 0.02).max(0.0).floor());
    let models: Vec<_> = [l, h, l - 1.0]
        .iter()
        .filter(|v| **v != l - 1.0 || l % 1000.0 == 1.0 || h % 1000.0 == 1.0)
        .map(|t| temperature_model(img, 6500.0, *t, *tint as f64))
        .collect();
    check_temperature(img, &out, &models, &what, c)
}

/// Images whose values lie in a part of the range, as badly exposed ones do
fn dull() -> BoxedStrategy<Img> {
    (img(12), 0u32..=80, 1u32..=100)
        .prop_map(|(mut i, lo, w)| {
            let (lo, w) = (lo as f32 / 100.0, w as f32 / 100.0);
            for p in i.data.iter_mut() {
                for v in p.iter_mut().take(3) {
                    *v = (lo + *v * w).clamp(0.0, 1.0);
                }
            }
            i
        })
        .boxed()
}

fn pic() -> BoxedStrategy<Img> {
    prop_oneof![2 => img(12), 3 => dull()].boxed()
}

fn threshold() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => Just(1.0f32),
        4 => (0u32..500).prop_map(|v| v as f32),
        2 => (0u32..100_000).prop_map(|v| v as f32 / 1000.0),
        1 => prop::sample::select(vec![0.0f32, -1.0, 125.0, 250.0, 500.0, 501.0, 700.0, 999.0, 1000.0, 2000.0]),
    ]
    .boxed()
}

fn temp() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 2200u32..=12000,
        2 => (1u32..=12).prop_map(|v| v * 1000),
        1 => 1000u32..2200,
        1 => prop::sample::select(vec![0u32, 1, 999, 1001, 6500, 12001, 20000, 100_000]),
    ]
    .boxed()
}

fn tint() -> BoxedStrategy<f32> {
    prop_oneof![
        3 => Just(0.0f32),
        3 => (0u32..=100).prop_map(|v| v as f32 / 100.0),
        1 => (100u32..=400).prop_map(|v| v as f32 / 100.0),
        1 => prop::sample::select(vec![-1.0f32, 10.0, 100.0, 1e6]),
    ]
    .boxed()
}

/// An image made of many copies of a small one has the same statistics: the same colours come out
fn giant_case(v: &(Vec<Px>, u32, u32, usize, u32, f32), c: &mut Case) -> Res {
    let (tile, w, h, op, t, factor) = v;
    let n = tile.len();
    // never at a share that occurs
    let threshold = *t as f32 + 0.37;
    let run = |im: &Image| match op {
        0..=4 => im.balance(BALANCE[*op], threshold),
        5..=9 => im.equalize(EQUALIZE[*op - 5]),
        10..=12 => im.optimize_saturation(*factor, SATURATION[*op - 10]),
        13 => im.stretch_contrast(threshold),
        14 => im.optimize_lightness(*factor),
        15 => im.optimize_color_temperature(*factor, (*t % 3) as f32 / 2.0),
        _ => im.change_color_temperature(5000.0, 7000.0, (*t + 1) as f32 / 300.0),
    };
    let what = format!("operation {op} with threshold {threshold} factor {factor} on {w}x{h}");
    let small = Img::from_buf(run(&Image::new_from_buffer(Img::new(n as u32, 1, tile.clone()).buf())).buffer());
    // the last row is filled up to whole copies
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock();
    let w = w - w % n as u32;
    let data: Vec<Rgb> = tile.iter().map(|p| rgb(*p)).collect();
    let data = data.repeat((w * h) as usize / n);
    let out = run(&Image::new_from_buffer(d10::PixelBuffer::new_from_raw(w, *h, data)));
    ensure!((out.width(), out.height()) == (w, *h), "size", "{what}: {}x{}", out.width(), out.height());
    c.hit_if(tile.iter().any(|p| *p != tile[0]));
    c.label(format!("operation {op}"));
    for (i, g) in out.data().iter().enumerate() {
        let e = small.data[i % n];
        if (0..4).any(|k| !((g.data[k] - e[k]).abs() <= 2e-3)) {
            return fail("repeated", format!("{what}: {:?} becomes {:?} but {e:?} in a single copy of {tile:?}", tile[i % n], g.data));
        }
    }
    Ok(())
}

fn giant() -> BoxedStrategy<(Vec<Px>, u32, u32, usize, u32, f32)> {
    // values in the middle of the bins of a histogram
    let bin = || (0u32..255, 0u32..2).prop_map(|(b, s)| if s == 0 { (b as f32 + 0.25) / 255.0 } else { 0.8 });
    let p = (bin(), bin(), bin(), alpha()).prop_map(|(r, g, b, a)| [r, g, b, a]);
    let f = prop_oneof![1 => Just(1.0f32), 1 => Just(0.0f32), 2 => (0u32..150).prop_map(|v| v as f32 / 100.0)];
    let d = prop_oneof![2 => (1500u32..2500, 1500u32..2500), 1 => (4000u32..5000, 4000u32..5000)];
    (proptest::collection::vec(p, 1..=12), d, 0usize..17, 0u32..999, f).prop_map(|(t, (w, h), op, th, f)| (t, w, h, op, th, f)).boxed()
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        level: "exploration",
        rule: "a case counts if the image has different pixels and the map derived from its statistics is not the identity",
        assumptions: vec![
            "values within 2e-4 of a histogram bin border, or shares within 2e-5 of the threshold (relative, unless they have no rounding error), may be counted on either side",
            "colour space conversions are those of the crate, they are checked by C02",
            "exact values are not demanded where a colour temperature leaves less than 2% of a channel",
        ],
        subs: vec![
            sub("balance", 24_000, 800_000, || (pic(), 0usize..5, threshold()), balance_case),
            sub("large-balance", 60, 1_500, || (big(100_000), 0usize..5, threshold()), balance_case),
            sub("huge-balance", 8, 200, || (big(1_500_000), 0usize..5, threshold()), balance_case),
            sub("large-contrast", 60, 1_500, || (big(100_000), threshold()), contrast_case),
            sub("huge-contrast", 8, 200, || (big(1_500_000), threshold()), contrast_case),
            sub("large-equalize", 60, 1_500, || (big(100_000), 0usize..5), equalize_case),
            sub("huge-equalize", 8, 200, || (big(1_500_000), 0usize..5), equalize_case),
            sub("large-saturation", 40, 1_000, || (big(100_000), factor(), 0usize..3), saturation_case),
            sub("huge-saturation", 8, 200, || (big(1_500_000), factor(), 0usize..3), saturation_case),
            sub("large-lightness", 40, 1_000, || (big(100_000), factor()), lightness_case),
            sub("huge-lightness", 8, 200, || (big(1_500_000), factor()), lightness_case),
            sub("large-temperature", 40, 1_000, || (big(100_000), temp(), temp(), tint()), temperature_case),
            sub("huge-temperature", 8, 200, || (big(1_500_000), temp(), temp(), tint()), temperature_case),
            sub("large-auto-temperature", 40, 1_000, || (big(100_000), factor(), tint()), auto_temperature_case),
            sub("huge-auto-temperature", 8, 200, || (big(1_500_000), factor(), tint()), auto_temperature_case),
            sub("giant", 10, 150, giant, giant_case),
            sub("contrast", 20_000, 600_000, || (pic(), threshold()), contrast_case),
            sub("equalize", 20_000, 600_000, || (pic(), 0usize..5), equalize_case),
            sub("saturation", 16_000, 500_000, || {
                let o = prop_oneof![3 => Just(1.0f32), 4 => (0u32..=200).prop_map(|v| v as f32 / 100.0), 2 => factor()];
                (pic(), o, 0usize..3)
            }, saturation_case),
            sub("lightness", 16_000, 500_000, || (pic(), prop_oneof![1 => Just(1.0f32), 3 => factor()]), lightness_case),
            sub("temperature", 16_000, 500_000, || {
                (pic(), temp(), temp(), tint(), any::<bool>()).prop_map(|(i, a, b, t, s)| (i, a, if s && b % 3 == 0 { a } else { b }, t))
            }, temperature_case),
            sub("auto-temperature", 12_000, 400_000, || (pic(), prop_oneof![1 => Just(1.0f32), 3 => factor()], tint()), auto_temperature_case),
        ],
    }
}
