//! Generators shared by the properties. Every random choice comes from proptest strategies.

use d10::{PixelBuffer, Rgb};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const EPS: f64 = 1.0 / 32768.0;

pub type Px = [f32; 4];

/// A channel value in [0, 1], rich in boundary values
pub fn unit() -> BoxedStrategy<f32> {
    prop_oneof![
        6 => (0u32..=(1 << 24)).prop_map(|v| v as f32 / (1u32 << 24) as f32),
        2 => prop::sample::select(vec![
            0.0f32, 1.0, 0.5, 0.25, 0.75, 1e-7, 1e-5, 3e-5, 3.1e-5, 6.2e-5, 1e-4, 1e-3,
            0.003_130_8, 0.0031, 0.0032, 0.040_45, 0.04, 0.041, 0.008_856, 0.0088, 0.009,
            0.003_921_569, 0.996_078_4, 0.999_98, 0.999_96, 0.9999, 0.999, 0.2, 0.8, 1.0 / 3.0, 2.0 / 3.0,
        ]),
        2 => (0u8..=255).prop_map(|v| v as f32 / 255.0),
        1 => (0u16..=65535).prop_map(|v| v as f32 / 65535.0),
        1 => (0u32..1000).prop_map(|v| v as f32 * 1e-5),
        1 => (0u32..1000).prop_map(|v| 1.0 - v as f32 * 1e-5),
    ]
    .boxed()
}

pub fn alpha() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => Just(1.0f32),
        1 => Just(0.0f32),
        4 => unit(),
    ]
    .boxed()
}

/// A colour with channels and alpha in [0, 1], covering grays, near grays, ties and primaries
pub fn px() -> BoxedStrategy<Px> {
    let near = prop_oneof![
        Just(0.0f32),
        (-40i32..=40).prop_map(|v| v as f32 * 1e-6),
        (-100i32..=100).prop_map(|v| v as f32 * 1e-5),
        (-100i32..=100).prop_map(|v| v as f32 * 1e-3),
    ];
    let near2 = near.clone();
    let bit = prop::sample::select(vec![0.0f32, 1.0]);
    prop_oneof![
        6 => (unit(), unit(), unit(), alpha()).prop_map(|(r, g, b, a)| [r, g, b, a]),
        1 => (unit(), alpha()).prop_map(|(v, a)| [v, v, v, a]),
        2 => (unit(), near, near2, 0usize..6, alpha()).prop_map(|(v, d1, d2, p, a)| {
            let c = [v, (v + d1).clamp(0.0, 1.0), (v + d2).clamp(0.0, 1.0)];
            let o = PERM[p];
            [c[o[0]], c[o[1]], c[o[2]], a]
        }),
        1 => (unit(), unit(), 0usize..6, alpha()).prop_map(|(v, w, p, a)| {
            let c = [v, v, w];
            let o = PERM[p];
            [c[o[0]], c[o[1]], c[o[2]], a]
        }),
        1 => (bit.clone(), bit.clone(), bit, alpha()).prop_map(|(r, g, b, a)| [r, g, b, a]),
    ]
    .boxed()
}

pub const PERM: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Img {
    pub w: u32,
    pub h: u32,
    pub data: Vec<Px>,
}

impl Img {
    pub fn new(w: u32, h: u32, data: Vec<Px>) -> Img {
        assert_eq!((w * h) as usize, data.len());
        Img { w, h, data }
    }
    pub fn px(&self, x: u32, y: u32) -> Px {
        self.data[(y * self.w + x) as usize]
    }
    pub fn clamped(&self, x: i64, y: i64) -> Px {
        self.px(x.clamp(0, self.w as i64 - 1) as u32, y.clamp(0, self.h as i64 - 1) as u32)
    }
    pub fn clamped64(&self, x: i64, y: i64) -> [f64; 4] {
        self.clamped(x, y).map(|v| v as f64)
    }
    pub fn buf(&self) -> PixelBuffer<Rgb> {
        PixelBuffer::new_from_raw(self.w, self.h, self.data.iter().map(|d| Rgb { data: *d }).collect())
    }
    pub fn from_buf(b: &PixelBuffer<Rgb>) -> Img {
        Img { w: b.width(), h: b.height(), data: b.data().iter().map(|c| c.data).collect() }
    }
    pub fn distinct(&self) -> usize {
        let s: std::collections::HashSet<[u32; 4]> = self.data.iter().map(|p| p.map(|v| v.to_bits())).collect();
        s.len()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AlphaMode {
    Any,
    Opaque,
}

/// (width, height) with thin and tiny shapes over represented
pub fn dims(max: u32) -> BoxedStrategy<(u32, u32)> {
    let small = max.min(6);
    prop_oneof![
        4 => (1..=max, 1..=max),
        2 => (1..=small, 1..=small),
        1 => (Just(1u32), 1..=max),
        1 => (1..=max, Just(1u32)),
        1 => (1..=max).prop_map(|v| (v, v)),
    ]
    .boxed()
}

fn opaque(mut p: Px) -> Px {
    p[3] = 1.0;
    p
}

/// Images with values in [0, 1]: noise, few colours, gradients, constant, single dots
pub fn img_of(d: BoxedStrategy<(u32, u32)>, mode: AlphaMode) -> BoxedStrategy<Img> {
    d.prop_flat_map(move |(w, h)| {
        let n = (w * h) as usize;
        let noise = vec(px(), n).prop_map(move |data| Img::new(w, h, data)).boxed();
        let few = (vec(px(), 1..=4), vec(any::<prop::sample::Index>(), n))
            .prop_map(move |(pal, idx)| {
                Img::new(w, h, idx.iter().map(|i| pal[i.index(pal.len())]).collect())
            })
            .boxed();
        let constant = px().prop_map(move |p| Img::new(w, h, vec![p; n])).boxed();
        let gradient = (px(), px(), px())
            .prop_map(move |(a, b, c)| {
                let mut data = Vec::with_capacity(n);
                for y in 0..h {
                    for x in 0..w {
                        let fx = x as f32 / w as f32;
                        let fy = y as f32 / h as f32;
                        data.push(std::array::from_fn(|i| {
                            (a[i] * (1.0 - fx) * (1.0 - fy) + b[i] * fx * (1.0 - fy) + c[i] * fy).clamp(0.0, 1.0)
                        }));
                    }
                }
                Img::new(w, h, data)
            })
            .boxed();
        let dots = (px(), px(), vec(any::<prop::sample::Index>(), 1..4))
            .prop_map(move |(a, b, idx)| {
                let mut data = vec![a; n];
                for i in idx {
                    data[i.index(n)] = b;
                }
                Img::new(w, h, data)
            })
            .boxed();
        let gray = vec((unit(), alpha()), n)
            .prop_map(move |v| Img::new(w, h, v.iter().map(|(v, a)| [*v, *v, *v, *a]).collect()))
            .boxed();
        let dark = vec(px(), n)
            .prop_map(move |v| Img::new(w, h, v.iter().map(|p| [p[0] * 0.25, p[1] * 0.2, p[2] * 0.3, p[3]]).collect()))
            .boxed();
        let bright = vec(px(), n)
            .prop_map(move |v| {
                Img::new(w, h, v.iter().map(|p| [1.0 - p[0] * 0.25, 1.0 - p[1] * 0.2, 1.0 - p[2] * 0.3, p[3]]).collect())
            })
            .boxed();
        prop_oneof![6 => noise, 3 => few, 1 => constant, 2 => gradient, 1 => dots, 1 => gray, 1 => dark, 1 => bright]
            .prop_map(move |mut i| {
                if mode == AlphaMode::Opaque {
                    i.data.iter_mut().for_each(|p| *p = opaque(*p));
                }
                i
            })
    })
    .boxed()
}

pub fn img(max: u32) -> BoxedStrategy<Img> {
    img_of(dims(max), AlphaMode::Any)
}

pub fn img_opaque(max: u32) -> BoxedStrategy<Img> {
    img_of(dims(max), AlphaMode::Opaque)
}

/// An image whose pixels all differ and encode their position (to trace geometry)
pub fn coords_img(w: u32, h: u32) -> Img {
    let mut data = vec![];
    for y in 0..h {
        for x in 0..w {
            let i = y * w + x;
            data.push([
                (x as f32 + 1.0) / 1024.0,
                (y as f32 + 1.0) / 1024.0,
                (i % 251) as f32 / 256.0,
                1.0 - ((i * 7) % 13) as f32 / 32.0,
            ]);
        }
    }
    Img::new(w, h, data)
}

/// Signed factor with a wide range
pub fn factor() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => (-300i32..=300).prop_map(|v| v as f32 / 100.0),
        2 => (0u32..=2000).prop_map(|v| v as f32 / 1000.0),
        1 => prop::sample::select(vec![0.0f32, 1.0, -1.0, 0.5, 2.0, 10.0, 100.0, 1e-3, -10.0]),
    ]
    .boxed()
}

pub fn positive() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => (1u32..=400).prop_map(|v| v as f32 / 100.0),
        1 => prop::sample::select(vec![1.0f32, 0.5, 2.0, 2.2, 0.45, 10.0, 0.1, 5.0]),
    ]
    .boxed()
}

/// A value of 0..1 from the seed and two numbers
pub fn mix(seed: u32, a: u32, b: u32) -> f32 {
    let mut z = (a as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (b as u64).wrapping_mul(0xc2b2_ae3d_27d4_eb4f) ^ ((seed as u64) << 17);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    ((z ^ (z >> 31)) as u32 >> 8) as f32 / (1u32 << 24) as f32
}

/// Noise of 0.5 to 1 times `area` pixels, which no compression makes small
pub fn noise(area: u32) -> BoxedStrategy<Img> {
    let side = (area as f64).sqrt() as u32;
    (side * 7 / 10..=side, side * 7 / 10..=side, any::<u32>(), 0u8..3, 0u32..=5)
        .prop_map(|(w, h, seed, a, t)| {
            // possibly longer than high
            let (w, h) = if t < 4 { (w >> t, h << t) } else { (w, h) };
            let data = (0..w * h)
                .map(|i| {
                    let m = |k| mix(seed, i, k);
                    [m(0), m(1), m(2), match a { 0 => 1.0, 1 => m(3), _ => (m(3) * 3.0).floor() / 2.0 }]
                })
                .collect();
            Img::new(w, h, data)
        })
        .boxed()
}

/// Images of up to `area` pixels with long sides, made from few choices (so that large ones stay cheap)
pub fn big(area: u32) -> BoxedStrategy<Img> {
    let side = (area as f64).sqrt() as u32;
    let d = prop_oneof![
        2 => (side / 3..=side, side / 3..=side),
        1 => (1u32..=3, side..=area),
        1 => (side..=area, 1u32..=3),
        // around sizes that fit or do not fit into 8 and 16 bits
        1 => prop::sample::select(vec![255u32, 256, 257, 511, 512, 513, 1023, 1024, 1025, 65535, 65536, 65537])
            .prop_flat_map(|v| (Just(v), 1u32..=300)),
        1 => prop::sample::select(vec![255u32, 256, 257, 511, 512, 513, 1023, 1024, 1025, 65535, 65536, 65537])
            .prop_flat_map(|v| (1u32..=300, Just(v))),
    ]
    .prop_map(move |(w, h)| if w > h { (w.min(area), h.min((area / w).max(1))) } else { (w.min((area / h).max(1)), h.min(area)) });
    (d, vec(px(), 1..=6), 0u8..6, any::<u32>(), any::<bool>())
        .prop_map(|((w, h), pal, kind, seed, opq)| {
            let n = pal.len();
            let hash = |x: u32, y: u32, k: u32| {
                let mut z = (x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (y as u64).wrapping_mul(0xc2b2_ae3d_27d4_eb4f) ^ ((seed as u64) << 17) ^ k as u64;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                (z ^ (z >> 31)) as u32
            };
            let part = 1 + seed % 7;
            let mut data = Vec::with_capacity((w * h) as usize);
            for y in 0..h {
                for x in 0..w {
                    let i = y * w + x;
                    let p: Px = match kind {
                        // noise, few colours at random
                        0 => std::array::from_fn(|k| (hash(x, y, k as u32) >> 8) as f32 / (1u32 << 24) as f32),
                        1 => pal[hash(x, y, 9) as usize % n],
                        // blocks
                        2 => pal[((x / (1 + w / (part + 1)) + y / (1 + h / (part + 1))) as usize) % n],
                        // mostly one colour
                        3 => pal[if hash(x, y, 5) % (1000 * part) == 0 { 1 % n } else { 0 }],
                        // one gradient over the whole image
                        4 => {
                            let t = i as f32 / (w * h) as f32;
                            std::array::from_fn(|k| (pal[0][k] * (1.0 - t) + pal[n - 1][k] * t).clamp(0.0, 1.0))
                        }
                        // the last pixels differ
                        _ => pal[if i + part * 3 >= w * h { 1 % n } else { 0 }],
                    };
                    data.push(if opq { opaque(p) } else { p });
                }
            }
            Img::new(w, h, data)
        })
        .boxed()
}
