//! Independent f64 reference formulas

use crate::gen::EPS;

pub type C4 = [f64; 4];

pub fn c64(p: [f32; 4]) -> C4 {
    p.map(|v| v as f64)
}

pub fn clamp01(v: f64) -> f64 {
    v.clamp(0.0, 1.0)
}

pub fn clampc(c: C4) -> C4 {
    [clamp01(c[0]), clamp01(c[1]), clamp01(c[2]), c[3]]
}

pub fn close(a: f32, b: f64, tol: f64) -> bool {
    a.is_finite() && (a as f64 - b).abs() <= tol
}

pub fn close4(a: [f32; 4], b: C4, tol: f64) -> bool {
    (0..4).all(|i| close(a[i], b[i], tol))
}

pub fn srgb_encode(v: f64) -> f64 {
    if v > 0.0031308 {
        1.055 * v.powf(1.0 / 2.4) - 0.055
    } else {
        12.92 * v
    }
}

pub fn srgb_decode(v: f64) -> f64 {
    if v > 0.04045 {
        ((v + 0.055) / 1.055).powf(2.4)
    } else {
        v / 12.92
    }
}

pub fn rgb_to_srgb(c: C4) -> C4 {
    [srgb_encode(c[0]), srgb_encode(c[1]), srgb_encode(c[2]), c[3]]
}

pub fn srgb_to_rgb(c: C4) -> C4 {
    [srgb_decode(c[0]), srgb_decode(c[1]), srgb_decode(c[2]), c[3]]
}

pub fn mul(c: C4, m: [[f64; 3]; 3]) -> C4 {
    let r = |i: usize| c[0] * m[i][0] + c[1] * m[i][1] + c[2] * m[i][2];
    [r(0), r(1), r(2), c[3]]
}

/// ITU-R BT.601 luma with U = 0.492111 (B'-Y'), V = 0.877283 (R'-Y')
pub fn rgb_to_yuv(c: C4) -> C4 {
    let s = rgb_to_srgb(c);
    let y = 0.299 * s[0] + 0.587 * s[1] + 0.114 * s[2];
    [y, (s[2] - y) * 0.492_111, (s[0] - y) * 0.877_283, s[3]]
}

/// Clamped linear RGB
pub fn yuv_to_rgb(c: C4) -> C4 {
    let b = c[0] + c[1] / 0.492_111;
    let r = c[0] + c[2] / 0.877_283;
    let g = (c[0] - 0.299 * r - 0.114 * b) / 0.587;
    clampc(srgb_to_rgb([r, g, b, c[3]]))
}

/// Rec. 709 primaries, D65 white
pub fn rgb_to_xyz(c: C4) -> C4 {
    mul(c, [
        [0.412_453, 0.357_580, 0.180_423],
        [0.212_671, 0.715_160, 0.072_169],
        [0.019_334, 0.119_193, 0.950_227],
    ])
}

pub fn xyz_to_rgb(c: C4) -> C4 {
    clampc(mul(c, [
        [3.240_479, -1.537_150, -0.498_535],
        [-0.969_256, 1.875_992, 0.041_556],
        [0.055_648, -0.204_043, 1.057_311],
    ]))
}

/// (X, Y, Z) of the white point by illuminant (0 = D50, 1 = D65, 2 = E) and observer (0 = 2 deg, 1 = 10 deg)
pub fn white(illuminant: usize, observer: usize) -> [f64; 3] {
    [
        [[0.964_212, 1.0, 0.825_188], [0.967_206, 1.0, 0.814_280]],
        [[0.950_47, 1.0, 1.088_83], [0.948_097, 1.0, 1.073_051]],
        [[1.0, 1.0, 1.0], [1.0, 1.0, 1.0]],
    ][illuminant][observer]
}

/// L/100, a/128, b/128
pub fn xyz_to_lab(c: C4, w: [f64; 3]) -> C4 {
    let f = |v: f64| if v < 0.008856 { (903.3 * v + 16.0) / 116.0 } else { v.cbrt() };
    let (x, y, z) = (f(c[0] / w[0]), f(c[1] / w[1]), f(c[2] / w[2]));
    [(116.0 * y - 16.0) / 100.0, 500.0 * (x - y) / 128.0, 200.0 * (y - z) / 128.0, c[3]]
}

pub fn lab_to_xyz(c: C4, w: [f64; 3]) -> C4 {
    let f = |v: f64| if v > 0.206_893 { v * v * v } else { (v - 16.0 / 116.0) / 7.787 };
    let y = (c[0] * 100.0 + 16.0) / 116.0;
    let x = c[1] * 128.0 / 500.0 + y;
    let z = y - c[2] * 128.0 / 200.0;
    [f(x) * w[0], f(y) * w[1], f(z) * w[2], c[3]]
}

pub fn lab_to_lch(c: C4) -> C4 {
    [c[0], (c[1] * c[1] + c[2] * c[2]).sqrt(), c[2].atan2(c[1]), c[3]]
}

pub fn lch_to_lab(c: C4) -> C4 {
    [c[0], c[1] * c[2].cos(), c[1] * c[2].sin(), c[3]]
}

pub fn max3(c: &C4) -> f64 {
    c[0].max(c[1]).max(c[2])
}
pub fn min3(c: &C4) -> f64 {
    c[0].min(c[1]).min(c[2])
}

/// Hue in [0, 1)
pub fn hue(c: &C4) -> f64 {
    let (max, min) = (max3(c), min3(c));
    let d = max - min;
    if d <= 0.0 {
        return 0.0;
    }
    let h = if max == c[0] {
        (c[1] - c[2]) / d
    } else if max == c[1] {
        (c[2] - c[0]) / d + 2.0
    } else {
        (c[0] - c[1]) / d + 4.0
    };
    let h = h / 6.0;
    if h < 0.0 { h + 1.0 } else { h }
}

pub fn hue_dist(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(1.0);
    d.min(1.0 - d)
}

/// achromatic below the precision of the colours
pub fn rgb_to_hsl_at(c: C4, eps: f64) -> C4 {
    let (max, min) = (max3(&c), min3(&c));
    let l = (max + min) / 2.0;
    let d = max - min;
    if d <= 0.0 || d < eps {
        return [0.0, 0.0, l, c[3]];
    }
    let s = if l > 0.5 { d / (2.0 - max - min) } else { d / (max + min) };
    [hue(&c), s, l, c[3]]
}

pub fn rgb_to_hsl(c: C4) -> C4 {
    rgb_to_hsl_at(c, EPS)
}

/// Chroma based, valid for any hue
pub fn hsl_to_rgb(c: C4) -> C4 {
    let chroma = (1.0 - (2.0 * c[2] - 1.0).abs()) * c[1];
    let m = c[2] - chroma / 2.0;
    from_hue(c[0], chroma, m, c[3])
}

pub fn hsv_to_rgb(c: C4) -> C4 {
    let chroma = c[2] * c[1];
    from_hue(c[0], chroma, c[2] - chroma, c[3])
}

fn from_hue(h: f64, chroma: f64, m: f64, a: f64) -> C4 {
    let h6 = h.rem_euclid(1.0) * 6.0;
    let x = chroma * (1.0 - (h6.rem_euclid(2.0) - 1.0).abs());
    let (r, g, b) = match h6 as u32 {
        0 => (chroma, x, 0.0),
        1 => (x, chroma, 0.0),
        2 => (0.0, chroma, x),
        3 => (0.0, x, chroma),
        4 => (x, 0.0, chroma),
        _ => (chroma, 0.0, x),
    };
    [r + m, g + m, b + m, a]
}

pub fn rgb_to_hsv(c: C4) -> C4 {
    let (max, min) = (max3(&c), min3(&c));
    let d = max - min;
    if max <= 0.0 {
        return [0.0, 0.0, 0.0, c[3]];
    }
    [hue(&c), d / max, max, c[3]]
}

/// The Rec. 709 luma used by the default gray conversion
pub fn luma709(c: &C4) -> f64 {
    c[0] * 0.212_656 + c[1] * 0.715_158 + c[2] * 0.072_186
}
