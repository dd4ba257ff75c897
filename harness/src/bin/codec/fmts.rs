//! Encoding options, sample models and independent readers
use d10::{BmpColorType, EncodingFormat, IcoColorType, JpegSamplingFactor, PngColorType, PngCompression, PngFilterType, WebPPreset};
use d10_verif::gen::*;
use d10_verif::refmath::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Spec {
    Png { ct: u8, comp: u8, filter: u8 },
    Jpeg { quality: u8, progressive: bool, sampling: Option<u8>, gray: bool, huff: bool },
    Gif,
    Bmp { ct: u8 },
    Ico { ct: u8 },
    WebP { quality: u8, preset: u8 },
}

pub const SAMPLING: [(&str, u8, u8); 16] = [
    ("1x1", 1, 1),
    ("2x1", 2, 1),
    ("1x2", 1, 2),
    ("2x2", 2, 2),
    ("4x1", 4, 1),
    ("4x2", 4, 2),
    ("1x4", 1, 4),
    ("2x4", 2, 4),
    ("4:4:4", 1, 1),
    ("4:4:0", 1, 2),
    ("4:4:1", 1, 4),
    ("4:2:2", 2, 1),
    ("4:2:0", 2, 2),
    ("4:2:1", 2, 4),
    ("4:1:1", 4, 1),
    ("4:1:0", 4, 2),
];
pub const PRESETS: [(&str, WebPPreset); 7] = [
    ("default", WebPPreset::Default),
    ("picture", WebPPreset::Picture),
    ("photo", WebPPreset::Photo),
    ("drawing", WebPPreset::Drawing),
    ("icon", WebPPreset::Icon),
    ("text", WebPPreset::Text),
    ("lossless", WebPPreset::Lossless),
];
pub const PNG_TYPES: [&str; 8] = ["l8", "la8", "l16", "la16", "rgb8", "rgba8", "rgb16", "rgba16"];
pub const TYPES4: [&str; 4] = ["l8", "la8", "rgb8", "rgba8"];

impl Spec {
    pub fn format(&self) -> EncodingFormat {
        use PngColorType::*;
        match self {
            Spec::Png { ct, comp, filter } => EncodingFormat::Png {
                color_type: [L8, La8, L16, La16, Rgb8, Rgba8, Rgb16, Rgba16][*ct as usize],
                compression: [PngCompression::Default, PngCompression::Fast, PngCompression::Best][*comp as usize],
                filter: [PngFilterType::NoFilter, PngFilterType::Sub, PngFilterType::Up, PngFilterType::Avg, PngFilterType::Paeth]
                    [*filter as usize],
            },
            Spec::Jpeg { quality, progressive, sampling, gray, huff } => EncodingFormat::Jpeg {
                quality: *quality,
                progressive: *progressive,
                sampling_factor: sampling.map(|s| sampling_factor(s as usize)),
                grayscale: *gray,
                optimize_huffman_tables: *huff,
            },
            Spec::Gif => EncodingFormat::Gif,
            Spec::Bmp { ct } => EncodingFormat::Bmp {
                color_type: [BmpColorType::L8, BmpColorType::La8, BmpColorType::Rgb8, BmpColorType::Rgba8][*ct as usize],
            },
            Spec::Ico { ct } => EncodingFormat::Ico {
                color_type: [IcoColorType::L8, IcoColorType::La8, IcoColorType::Rgb8, IcoColorType::Rgba8][*ct as usize],
            },
            Spec::WebP { quality, preset } => EncodingFormat::WebP { quality: *quality, preset: PRESETS[*preset as usize].1 },
        }
    }
    pub fn name(&self) -> String {
        match self {
            Spec::Png { ct, comp, filter } => format!("png {} compression {comp} filter {filter}", PNG_TYPES[*ct as usize]),
            Spec::Jpeg { quality, progressive, sampling, gray, huff } => format!(
                "jpeg quality {quality}{} sampling {}{}{}",
                if *progressive { " progressive" } else { "" },
                sampling.map_or("default", |s| SAMPLING[s as usize].0),
                if *gray { " gray" } else { "" },
                if *huff { " optimized" } else { "" }
            ),
            Spec::Gif => "gif".into(),
            Spec::Bmp { ct } => format!("bmp {}", TYPES4[*ct as usize]),
            Spec::Ico { ct } => format!("ico {}", TYPES4[*ct as usize]),
            Spec::WebP { quality, preset } => format!("webp quality {quality} preset {}", PRESETS[*preset as usize].0),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Spec::Png { .. } => "png",
            Spec::Jpeg { .. } => "jpeg",
            Spec::Gif => "gif",
            Spec::Bmp { .. } => "bmp",
            Spec::Ico { .. } => "ico",
            Spec::WebP { .. } => "webp",
        }
    }
}

pub fn sampling_factor(i: usize) -> JpegSamplingFactor {
    use JpegSamplingFactor::*;
    [
        F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4, R_4_4_4, R_4_4_0, R_4_4_1, R_4_2_2, R_4_2_0, R_4_2_1, R_4_1_1,
        R_4_1_0,
    ][i]
}

pub fn png_spec() -> BoxedStrategy<Spec> {
    (0u8..8, 0u8..3, 0u8..5).prop_map(|(ct, comp, filter)| Spec::Png { ct, comp, filter }).boxed()
}

pub fn jpeg_spec() -> BoxedStrategy<Spec> {
    (
        prop_oneof![4 => 1u8..=100, 1 => any::<u8>()],
        any::<bool>(),
        proptest::option::of(0u8..16),
        proptest::bool::weighted(0.3),
        any::<bool>(),
    )
        .prop_map(|(quality, progressive, sampling, gray, huff)| Spec::Jpeg { quality, progressive, sampling, gray, huff })
        .boxed()
}

pub fn webp_spec() -> BoxedStrategy<Spec> {
    (prop_oneof![4 => 0u8..=100, 1 => any::<u8>()], 0u8..7).prop_map(|(quality, preset)| Spec::WebP { quality, preset }).boxed()
}

pub fn any_spec() -> BoxedStrategy<Spec> {
    prop_oneof![
        2 => png_spec(),
        2 => jpeg_spec(),
        1 => Just(Spec::Gif),
        1 => (0u8..4).prop_map(|ct| Spec::Bmp { ct }),
        1 => (0u8..4).prop_map(|ct| Spec::Ico { ct }),
        2 => webp_spec(),
    ]
    .boxed()
}

/// The sRGB samples of a pixel, scaled to the given maximum
pub fn samples(p: Px, gray: bool, max: f64) -> [f64; 4] {
    let c = c64(p);
    let c = if gray {
        let l = luma709(&c);
        [l, l, l, c[3]]
    } else {
        c
    };
    let s = rgb_to_srgb(c);
    s.map(|v| v.clamp(0.0, 1.0) * max)
}

/// Whether a stored sample is one of the two neighbours of a value
pub fn neighbour(got: u32, want: f64, max: f64) -> bool {
    let tol = if max > 255.0 { 0.2 } else { 0.01 };
    let g = got as f64;
    g >= (want - tol).floor() && g <= (want + tol).ceil()
}

/// The pixel d10 should load for the given samples
pub fn loaded(s: [u32; 4], max: f64) -> C4 {
    srgb_to_rgb(s.map(|v| v as f64 / max))
}

/// An image whose pixels are given by samples
pub fn img_of_samples(w: u32, h: u32, data: &[[u32; 4]], max: f64) -> Img {
    use d10::{Color, Srgb};
    Img::new(
        w,
        h,
        data.iter().map(|s| Srgb { data: s.map(|v| (v as f64 / max) as f32) }.to_rgb().data).collect(),
    )
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Raw {
    pub w: u32,
    pub h: u32,
    pub data: Vec<[u32; 4]>,
}

/// Images of samples: noise, few values, gradients
pub fn raw(d: BoxedStrategy<(u32, u32)>, max: u32, gray: bool, opaque: bool) -> BoxedStrategy<Raw> {
    use proptest::collection::vec;
    let s = move || prop_oneof![6 => 0..=max, 1 => Just(0u32), 1 => Just(max), 1 => Just(max / 2), 1 => 0..=16u32.min(max), 1 => Just(1u32), 1 => Just(max - 1)];
    let a = move || prop_oneof![2 => Just(max), 1 => Just(0u32), 2 => s()];
    let p = move || {
        (s(), s(), s(), a(), 0u8..6).prop_map(move |(r, g, b, a, k)| {
            let a = if opaque { max } else { a };
            match k {
                0 => [r, r, r, a],
                _ if gray => [r, r, r, a],
                1 => [r, (r + 1).min(max), b, a],
                _ => [r, g, b, a],
            }
        })
    };
    d.prop_flat_map(move |(w, h)| {
        let n = (w * h) as usize;
        prop_oneof![
            3 => vec(p(), n).prop_map(move |data| Raw { w, h, data }),
            2 => (vec(p(), 1..=5), vec(any::<prop::sample::Index>(), n))
                .prop_map(move |(pal, idx)| Raw { w, h, data: idx.iter().map(|i| pal[i.index(pal.len())]).collect() }),
            1 => p().prop_map(move |v| Raw { w, h, data: vec![v; n] }),
            1 => (p(), p()).prop_map(move |(a, b)| {
                let mut data = vec![];
                for y in 0..h {
                    for x in 0..w {
                        let (t, u) = ((x + y) as u64, (w + h) as u64);
                        data.push(std::array::from_fn(|i| ((a[i] as u64 * (u - t) + b[i] as u64 * t) / u) as u32));
                    }
                }
                Raw { w, h, data }
            }),
        ]
    })
    .boxed()
}
