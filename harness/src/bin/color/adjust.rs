//! C03 per-colour adjustments
use d10_verif::ensure;
use d10_verif::engine::*;
use d10_verif::gen::*;
use d10_verif::refmath::*;
use d10::{Color, Intensity, Rgb};
use proptest::prelude::*;

const OPS: [&str; 22] = [
    "gray", "intensity", "invert", "difference", "gamma", "gamma-opt", "level", "brightness", "contrast",
    "brightness-contrast", "saturation", "stretch-saturation", "gamma-saturation", "lightness", "hue-rotate",
    "vibrance", "sepia", "modulate", "alpha-blend", "map", "map-unclamped", "mod",
];

const INTENSITIES: [Intensity; 9] = [
    Intensity::Average,
    Intensity::Rec601Luma,
    Intensity::Rec709Luma,
    Intensity::Brightness,
    Intensity::Lightness,
    Intensity::Saturation,
    Intensity::Red,
    Intensity::Green,
    Intensity::Blue,
];

/// Parameters per operation: (a, b, c)
fn params(op: usize) -> BoxedStrategy<[f32; 3]> {
    let gamma = positive();
    let angle = prop_oneof![
        4 => (-360i32..=360).prop_map(|v| v as f32),
        2 => (-40000i32..=40000).prop_map(|v| v as f32 / 10.0),
        1 => prop::sample::select(vec![0.0f32, 360.0, -360.0, 720.0, -720.0, 180.0, 120.0, 60.0, 359.99, 0.01]),
    ]
    .boxed();
    match OPS[op] {
        "gamma" | "gamma-opt" | "gamma-saturation" => gamma.prop_map(|g| [g, 0.0, 0.0]).boxed(),
        "level" => (level_point(), level_point(), gamma, any::<bool>())
            .prop_map(|(a, b, g, same)| [a, if same && a > 0.4 { a } else { b }, g])
            .boxed(),
        "hue-rotate" => angle.prop_map(|a| [a, 0.0, 0.0]).boxed(),
        _ => (factor(), factor(), factor()).prop_map(|(a, b, c)| [a, b, c]).boxed(),
    }
}

fn level_point() -> BoxedStrategy<f32> {
    prop_oneof![4 => unit(), 1 => (-200i32..=200).prop_map(|v| v as f32 / 100.0)].boxed()
}

fn with_hsl(c: &C4, f: impl Fn(C4) -> C4) -> C4 {
    clampc(hsl_to_rgb(f(rgb_to_hsl(*c))))
}

fn powc(v: f64, e: f64) -> f64 {
    clamp01(v).powf(e)
}

/// Compare with a monotone function of the channel evaluated at the channel +- d
fn check_monotone(got: [f32; 4], c: &C4, d: f64, tol: f64, f: impl Fn(f64) -> f64) -> bool {
    (0..3).all(|i| {
        let a = clamp01(f(c[i] - d));
        let b = clamp01(f(c[i] + d));
        let m = clamp01(f(c[i]));
        let lo = a.min(b).min(m) - tol;
        let hi = a.max(b).max(m) + tol;
        (got[i] as f64) >= lo && (got[i] as f64) <= hi
    })
}

fn check(op: usize, p: Px, q: Px, par: [f32; 3], case: &mut Case) -> Res {
    let name = OPS[op];
    let c = Rgb { data: p };
    let r = c64(p);
    let q64 = c64(q);
    let [a, b, g] = par;
    let (fa, fb, fg) = (a as f64, b as f64, g as f64);
    let pi = std::f64::consts::PI;
    case.label(name);
    let delta = max3(&r) - min3(&r);
    case.hit_if(delta > 0.01 && p[3] < 1.0 || delta > 0.1);

    // the decision whether a colour is achromatic flips here
    let undecided = (delta - EPS).abs() < 1e-6;
    // the saturation of very dark or bright colours is ill conditioned
    let den = (max3(&r) + min3(&r)).min(2.0 - max3(&r) - min3(&r)).max(EPS / 2.0);
    let s_err = 1e-6 + 4e-7 / den;
    // an error of the hue (ties are decided within 1/32768) moves a channel by the chroma of the result
    let hue_err = |chroma: f64| 4e-6 + 2.0 * EPS * chroma / delta.max(EPS);

    let (got, want, tol): (Rgb, C4, f64) = match name {
        "gray" => {
            let y = luma709(&r);
            (c.to_gray(), [y, y, y, r[3]], 1e-6)
        }
        "intensity" => {
            let i = (a.abs() * 100.0) as usize % 9;
            let v = match INTENSITIES[i] {
                Intensity::Average => (r[0] + r[1] + r[2]) / 3.0,
                Intensity::Rec601Luma => r[0] * 0.298839 + r[1] * 0.586811 + r[2] * 0.114350,
                Intensity::Rec709Luma => luma709(&r),
                Intensity::Brightness => max3(&r),
                Intensity::Lightness => (max3(&r) + min3(&r)) / 2.0,
                Intensity::Saturation => {
                    if undecided {
                        return Ok(());
                    }
                    rgb_to_hsl(r)[1]
                }
                Intensity::Red => r[0],
                Intensity::Green => r[1],
                Intensity::Blue => r[2],
            };
            (c.to_gray_with_intensity(INTENSITIES[i]), [v, v, v, r[3]], if i == 5 { 1e-6 + s_err } else { 1e-6 })
        }
        "invert" => {
            let inv = c.invert();
            ensure!(close4(inv.invert().data, r, 2e-7), "invert-twice", "{:?} inverted twice is {:?}", p, inv.invert());
            (inv, [1.0 - r[0], 1.0 - r[1], 1.0 - r[2], r[3]], 2e-7)
        }
        "difference" => {
            let d = c.difference(&Rgb { data: q });
            let e = Rgb { data: q }.difference(&c);
            ensure!(d.data[..3] == e.data[..3], "difference-symmetric", "{:?} {:?}: {:?} {:?}", p, q, d, e);
            let mut w = [0.0; 4];
            (0..3).for_each(|i| w[i] = (r[i] - q64[i]).abs());
            w[3] = 1.0; // a difference is opaque
            (d, w, 2e-7)
        }
        "gamma" => {
            let got = c.with_gamma(a);
            ensure!(check_monotone(got.data, &r, 1e-8, 1e-5, |v| powc(v, 1.0 / fa)), "gamma", "{:?} gamma {} gives {:?}", p, a, got);
            ensure!(got.data[3] == p[3], "gamma-alpha", "alpha {} became {}", p[3], got.data[3]);
            return Ok(());
        }
        "gamma-opt" => {
            let got = c.with_gamma_opt(a);
            let f = |v: f64| if v > 0.5 { powc((v - 0.5) * 2.0, 1.0 / fa) / 2.0 + 0.5 } else { powc(v * 2.0, fa) / 2.0 };
            // the curve may jump at the middle
            let ok = (0..3).all(|i| {
                (r[i] - 0.5).abs() < 1e-7 || {
                    let one = |x: f64| {
                        let w = clamp01(f(x));
                        (w, x)
                    };
                    let side = r[i] > 0.5;
                    let mut lo = f64::MAX;
                    let mut hi = f64::MIN;
                    for x in [r[i] - 1e-8, r[i], r[i] + 1e-8] {
                        if (x > 0.5) == side {
                            let (w, _) = one(x);
                            lo = lo.min(w);
                            hi = hi.max(w);
                        }
                    }
                    (got.data[i] as f64) >= lo - 1e-5 && (got.data[i] as f64) <= hi + 1e-5
                }
            });
            ensure!(ok, "gamma-opt", "{:?} gamma {} gives {:?}", p, a, got);
            ensure!(got.data[3] == p[3], "gamma-opt-alpha", "alpha {} became {}", p[3], got.data[3]);
            return Ok(());
        }
        "level" => {
            let got = c.with_level(a, b, g);
            let diff = fb - fa;
            if diff != 0.0 && diff.abs() < 1e-6 {
                return Ok(());
            }
            let k = if diff == 0.0 { 32768.0 } else { 1.0 / diff };
            let ok = check_monotone(got.data, &r, 3e-7, 2e-5, |v| powc((v - fa) * k, 1.0 / fg));
            ensure!(ok, "level", "{:?} level {:?} gives {:?}", p, par, got);
            ensure!(got.data[3] == p[3], "level-alpha", "alpha {} became {}", p[3], got.data[3]);
            return Ok(());
        }
        "brightness" => (c.with_brightness(a), clampc([r[0] + fa, r[1] + fa, r[2] + fa, r[3]]), 2e-6),
        "contrast" => {
            let f = |v: f64| (v - 0.5) * fa + 0.5;
            (c.with_contrast(a), clampc([f(r[0]), f(r[1]), f(r[2]), r[3]]), 2e-6 + 1e-6 * fa.abs())
        }
        "brightness-contrast" => {
            let f = |v: f64| (v + fa - 0.5) * fb + 0.5;
            (
                c.with_brightness_contrast(a, b),
                clampc([f(r[0]), f(r[1]), f(r[2]), r[3]]),
                2e-6 + 1e-6 * fb.abs() * (1.0 + fa.abs()),
            )
        }
        "saturation" | "stretch-saturation" | "gamma-saturation" | "lightness" | "hue-rotate" | "vibrance" | "modulate" => {
            if undecided {
                return Ok(());
            }
            let f = |h: C4| -> C4 {
                match name {
                    "saturation" => [h[0], clamp01(h[1] * fa), h[2], h[3]],
                    "stretch-saturation" => [h[0], clamp01((h[1] - 0.5) * fa + 0.5), h[2], h[3]],
                    "gamma-saturation" => [h[0], powc(h[1], 1.0 / fa), h[2], h[3]],
                    "lightness" => [h[0], h[1], clamp01(h[2] * fa), h[3]],
                    "hue-rotate" => [h[0] + fa / 360.0, h[1], h[2], h[3]],
                    "vibrance" => {
                        let s = h[1];
                        let scale = fa * ((h[0] * pi).sin() * 1.5).min(1.0);
                        [h[0], clamp01(s + (s * pi).sin() * scale), h[2], h[3]]
                    }
                    _ => [clamp01(h[0] * fa), clamp01(h[1] * fb), clamp01(h[2] * fg), h[3]],
                }
            };
            let got = match name {
                "saturation" => c.with_saturation(a),
                "stretch-saturation" => c.stretch_saturation(a),
                "gamma-saturation" => c.with_gamma_saturation(a),
                "lightness" => c.with_lightness(a),
                "hue-rotate" => c.with_hue_rotate(a),
                "vibrance" => c.with_vibrance(a),
                _ => c.modulate(a, b, g),
            };
            let want = with_hsl(&r, f);
            let w = f(rgb_to_hsl(r));
            let chroma = (1.0 - (2.0 * w[2] - 1.0).abs()) * w[1];
            let h = rgb_to_hsl(r);
            let width = 1.0 - (2.0 * w[2] - 1.0).abs();
            let s_gain = match name {
                "saturation" | "stretch-saturation" => fa.abs(),
                "vibrance" => 1.0 + 4.0 * fa.abs(),
                "modulate" => fb.abs(),
                "gamma-saturation" => {
                    // steep near zero for large gamma
                    let e = 1.0 / fa;
                    let lo = powc(h[1] - s_err, e);
                    let hi = powc(h[1] + s_err, e);
                    (hi - lo).abs().min(1.0) / s_err
                }
                _ => 1.0,
            };
            let l_gain = match name {
                "lightness" => fa.abs(),
                "modulate" => fg.abs(),
                _ => 1.0,
            };
            let h_gain = match name {
                "modulate" => fa.abs().max(1.0),
                _ => 1.0,
            };
            let vib = if name == "vibrance" {
                // the hue decides the strength as well
                fa.abs() * 5.0 * (EPS / (6.0 * delta.max(EPS))) * width
            } else {
                0.0
            };
            let angle = if name == "hue-rotate" { 1.5e-6 * fa.abs() / 360.0 * 6.0 * chroma } else { 0.0 };
            let tol = hue_err(chroma) * h_gain * 1.5 + (s_err * s_gain * width).min(1.0) + 3e-6 * l_gain + vib + angle;
            if name == "modulate" && delta >= EPS && (h[0] < 1e-3 || h[0] > 0.999) {
                // the hue of red may be represented by 0 or by 1 when within the tie tolerance
                let near_wrap = h[0].min(1.0 - h[0]) < (2.0 * EPS) / (6.0 * delta);
                if near_wrap {
                    return Ok(());
                }
            }
            case.label_if(tol > 1e-3, "loose tolerance");
            (got, want, tol)
        }
        "sepia" => (
            c.with_sepia(),
            clampc([
                r[0] * 0.393 + r[1] * 0.769 + r[2] * 0.189,
                r[0] * 0.349 + r[1] * 0.686 + r[2] * 0.168,
                r[0] * 0.272 + r[1] * 0.534 + r[2] * 0.131,
                r[3],
            ]),
            1e-6,
        ),
        "alpha-blend" => {
            let al = q64[3];
            let f = |i: usize| q64[i] * al + (1.0 - al) * r[i];
            (c.alpha_blend(Rgb { data: q }), [f(0), f(1), f(2), (r[3] + al).min(1.0)], 1e-6)
        }
        "map" => {
            let f = |v: f64| v * fa + fb;
            let got = c.map_channels(|v| v * a + b);
            let got2 = c.map_color_channels(|v| v * a + b);
            ensure!(got.data == got2.data, "map-same", "map_channels {:?} and map_color_channels {:?}", got, got2);
            (got, clampc([f(r[0]), f(r[1]), f(r[2]), r[3]]), 1e-6 * (1.0 + fa.abs() + fb.abs()))
        }
        "map-unclamped" => {
            let f = |v: f64| v * fa + fb;
            (
                c.map_channels_unclamped(|v| v * a + b),
                [f(r[0]), f(r[1]), f(r[2]), r[3]],
                1e-6 * (1.0 + fa.abs() + fb.abs()),
            )
        }
        _ => {
            let f = |v: f64| v * fa + fb;
            let mut got = c;
            got.mod_color_channels(|v| v * a + b);
            (got, [f(r[0]), f(r[1]), f(r[2]), r[3]], 1e-6 * (1.0 + fa.abs() + fb.abs()))
        }
    };
    if name != "alpha-blend" && name != "difference" {
        ensure!(got.data[3] == p[3], format!("{name}-alpha"), "{}({:?}, {:?}) changed alpha to {}", name, p, par, got.data[3]);
    }
    ensure!(close4(got.data, want, tol), name, "{}({:?}, {:?}, {:?}) gives {:?}, expected {:?} (tolerance {:e})", name, p, q, par, got.data, want, tol);
    if !matches!(name, "map-unclamped" | "mod") {
        ensure!(got.data.iter().all(|v| (-1e-6..=1.000_001).contains(v)), format!("{name}-range"), "{}({:?}, {:?}) leaves the range: {:?}", name, p, par, got.data);
    }
    Ok(())
}

pub fn c03() -> Property {
    let formula = sub(
        "formula",
        1_500_000,
        30_000_000,
        || (0..OPS.len()).prop_flat_map(|op| (Just(op), px(), px(), params(op))),
        |(op, p, q, par): &(usize, Px, Px, [f32; 3]), c| check(*op, *p, *q, *par, c),
    );
    let neutral = sub("neutral", 100_000, 3_000_000, px, |p: &Px, c| {
        let r = Rgb { data: *p };
        let w = c64(*p);
        c.hit_if(p[0] != p[1] || p[1] != p[2]);
        for (n, got) in [
            ("gamma 1", r.with_gamma(1.0)),
            ("gamma-opt 1", r.with_gamma_opt(1.0)),
            ("level 0,1,1", r.with_level(0.0, 1.0, 1.0)),
            ("brightness 0", r.with_brightness(0.0)),
            ("contrast 1", r.with_contrast(1.0)),
            ("brightness-contrast 0,1", r.with_brightness_contrast(0.0, 1.0)),
            ("blend of a transparent colour", r.alpha_blend(Rgb { data: [0.3, 0.9, 0.1, 0.0] })),
        ] {
            ensure!(close4(got.data, w, 1e-6), "neutral", "{} changes {:?} to {:?}", n, p, got);
        }
        for (n, got) in [
            ("saturation 1", r.with_saturation(1.0)),
            ("stretch-saturation 1", r.stretch_saturation(1.0)),
            ("gamma-saturation 1", r.with_gamma_saturation(1.0)),
            ("lightness 1", r.with_lightness(1.0)),
            ("hue rotation 0", r.with_hue_rotate(0.0)),
            ("hue rotation 360", r.with_hue_rotate(360.0)),
            ("hue rotation -360", r.with_hue_rotate(-360.0)),
            ("hue rotation 1080", r.with_hue_rotate(1080.0)),
            ("hue rotation -720", r.with_hue_rotate(-720.0)),
            ("vibrance 0", r.with_vibrance(0.0)),
            ("modulate 1,1,1", r.modulate(1.0, 1.0, 1.0)),
        ] {
            ensure!(close4(got.data, w, 1.5 * EPS), "neutral-hsl", "{} changes {:?} to {:?}", n, p, got);
        }
        let blended = r.alpha_blend(Rgb { data: [p[2], p[0], p[1], 1.0] });
        ensure!(close4(blended.data, [w[2], w[0], w[1], 1.0], 1e-6), "blend-opaque", "{:?} shows through an opaque colour: {:?}", p, blended);
        ensure!(r.difference(&r).data[..3] == [0.0, 0.0, 0.0], "difference-self", "{:?}", r.difference(&r));
        Ok(())
    });
    let laws = sub(
        "laws",
        200_000,
        4_000_000,
        || (px(), -720i32..=720, -3i32..=3),
        |(p, deg, turns): &(Px, i32, i32), c| {
            let r = Rgb { data: *p };
            let d = *deg as f32;
            let e = d + 360.0 * *turns as f32;
            let delta = max3(&c64(*p)) - min3(&c64(*p));
            if (delta - EPS).abs() < 1e-6 {
                return Ok(());
            }
            c.hit_if(delta > 0.01 && *turns != 0);
            let (a, b) = (r.with_hue_rotate(d), r.with_hue_rotate(e));
            ensure!(close4(a.data, c64(b.data), 2e-5), "hue-period", "hue rotation of {:?} by {} gives {:?}, by {} {:?}", p, d, a, e, b);
            // rotation keeps lightness and chroma
            let (h, k) = (rgb_to_hsl_at(c64(*p), 0.0), rgb_to_hsl_at(c64(a.data), 0.0));
            ensure!((h[2] - k[2]).abs() < 3e-5, "hue-lightness", "hue rotation changes the lightness of {:?}: {:?}", p, a);
            Ok(())
        },
    );
    Property {
        id: "C03",
        level: "exploration",
        rule: "generated colours (any alpha) and parameters for each of the 22 adjustments compared with an f64 definition, neutral parameters, and periodicity; non-trivial: clearly chromatic colour (and a real number of extra turns for the periodicity law)",
        assumptions: vec!["channels and alpha in [0,1]; gamma is positive", "colours whose chroma is within 1e-6 of the achromatic limit 1/32768 are not compared"],
        subs: vec![formula, neutral, laws],
    }
}
