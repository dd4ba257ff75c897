//! Independent writers of image files in the variants that d10 itself never writes
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// sRGB samples 0.0 to 1.0 and alpha of every pixel
pub type Want = Vec<[f64; 4]>;

fn be32(v: u32) -> [u8; 4] {
    v.to_be_bytes()
}

// ---------------------------------------------------------------------------------------- PNG

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PngFile {
    pub w: u32,
    pub h: u32,
    /// PNG colour type 0, 2, 3, 4, 6
    pub ct: u8,
    pub depth: u8,
    pub interlace: bool,
    pub filters: Vec<u8>,
    /// sizes of the data chunks
    pub split: Vec<u16>,
    pub palette: Vec<[u8; 3]>,
    /// ct 3: alpha values. ct 0 and 2: the transparent colour is that of the pixel with this index
    pub trns: Vec<u16>,
    pub samples: Vec<u16>,
    /// bits: ancillary chunks; 32 and 128: animated, 64: the image is the first frame of the animation
    pub anc: u8,
    /// size of the stored deflate blocks
    pub block: u16,
}

pub fn crc32(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}

pub fn png_chunk(out: &mut Vec<u8>, kind: &[u8; 4], data: &[u8]) {
    out.extend(be32(data.len() as u32));
    let start = out.len();
    out.extend(kind);
    out.extend(data);
    let c = crc32(&out[start..]);
    out.extend(be32(c));
}

fn zlib_stored(data: &[u8], block: usize) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let blocks: Vec<&[u8]> = if data.is_empty() { vec![&[][..]] } else { data.chunks(block.max(1)).collect() };
    for (i, b) in blocks.iter().enumerate() {
        out.push((i + 1 == blocks.len()) as u8);
        out.extend((b.len() as u16).to_le_bytes());
        out.extend((!(b.len() as u16)).to_le_bytes());
        out.extend(*b);
    }
    let (mut a, mut s) = (1u32, 0u32);
    for v in data {
        a = (a + *v as u32) % 65521;
        s = (s + a) % 65521;
    }
    out.extend(be32(s << 16 | a));
    out
}

/// Deflate with the fixed Huffman codes and no matches except runs of one byte
fn zlib_fixed(data: &[u8]) -> Vec<u8> {
    struct Bits(Vec<u8>, u32, u32);
    impl Bits {
        fn put(&mut self, v: u32, n: u32) {
            self.1 |= v << self.2;
            self.2 += n;
            while self.2 >= 8 {
                self.0.push(self.1 as u8);
                self.1 >>= 8;
                self.2 -= 8;
            }
        }
        fn code(&mut self, v: u32, n: u32) {
            for i in (0..n).rev() {
                self.put(v >> i & 1, 1);
            }
        }
        fn lit(&mut self, v: u32) {
            match v {
                0..=143 => self.code(0x30 + v, 8),
                144..=255 => self.code(0x190 + v - 144, 9),
                256..=279 => self.code(v - 256, 7),
                _ => self.code(0xC0 + v - 280, 8),
            }
        }
    }
    let mut b = Bits(vec![0x78, 0x01], 0, 0);
    b.put(1, 1);
    b.put(1, 2);
    let mut i = 0;
    while i < data.len() {
        let run = if i > 0 { data[i..].iter().take(258).take_while(|v| **v == data[i - 1]).count() } else { 0 };
        if run >= 3 {
            let n = run.min(10);
            b.lit(254 + n as u32);
            b.code(0, 5);
            i += n;
        } else {
            b.lit(data[i] as u32);
            i += 1;
        }
    }
    b.lit(256);
    if b.2 > 0 {
        let n = 8 - b.2;
        b.put(0, n);
    }
    let stored = zlib_stored(data, 65535);
    b.0.extend(&stored[stored.len() - 4..]);
    b.0
}

impl PngFile {
    pub fn animated(&self) -> bool {
        self.anc & 160 == 160
    }
    fn channels(&self) -> usize {
        match self.ct {
            0 | 3 => 1,
            2 => 3,
            4 => 2,
            _ => 4,
        }
    }
    fn sample(&self, i: usize) -> u32 {
        let v = self.samples[i] as u32;
        if self.ct == 3 {
            v % self.palette.len().min(1 << self.depth) as u32
        } else {
            v & ((1u32 << self.depth) - 1)
        }
    }
    fn pixel(&self, x: u32, y: u32) -> Vec<u32> {
        let n = self.channels();
        let p = (y * self.w + x) as usize * n;
        (0..n).map(|i| self.sample(p + i)).collect()
    }
    fn transparent(&self) -> Option<Vec<u32>> {
        if self.ct != 0 && self.ct != 2 {
            return None;
        }
        let i = *self.trns.first()? as u32 % (self.w * self.h);
        Some(self.pixel(i % self.w, i / self.w))
    }
    pub fn write(&self) -> Vec<u8> {
        let mut out = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
        let mut head = vec![];
        head.extend(be32(self.w));
        head.extend(be32(self.h));
        head.extend([self.depth, self.ct, 0, 0, self.interlace as u8]);
        png_chunk(&mut out, b"IHDR", &head);
        if self.anc & 1 != 0 {
            png_chunk(&mut out, b"gAMA", &be32(45455));
        }
        if self.anc & 2 != 0 {
            png_chunk(&mut out, b"pHYs", &[0, 0, 11, 19, 0, 0, 11, 19, 1]);
        }
        if self.anc & 4 != 0 {
            png_chunk(&mut out, b"tEXt", b"Comment\0a test");
        }
        if self.anc & 8 != 0 {
            png_chunk(&mut out, b"sRGB", &[0]);
        }
        if self.ct == 3 {
            let n = self.palette.len().min(1 << self.depth);
            png_chunk(&mut out, b"PLTE", &self.palette[..n].concat());
            if !self.trns.is_empty() {
                let t: Vec<u8> = self.trns.iter().take(n).map(|v| *v as u8).collect();
                png_chunk(&mut out, b"tRNS", &t);
            }
        } else if let Some(t) = self.transparent() {
            let t: Vec<u8> = t.iter().flat_map(|v| (*v as u16).to_be_bytes()).collect();
            png_chunk(&mut out, b"tRNS", &t);
        }
        let mut raw = vec![];
        let passes: &[(u32, u32, u32, u32)] = if self.interlace {
            &[(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
        } else {
            &[(0, 0, 1, 1)]
        };
        let bpp = (self.channels() * self.depth as usize).div_ceil(8);
        let mut row_no = 0;
        for &(x0, y0, dx, dy) in passes {
            let mut prev: Vec<u8> = vec![];
            if x0 >= self.w {
                continue;
            }
            for y in (y0..self.h).step_by(dy as usize) {
                let mut bits: Vec<u8> = vec![];
                let mut acc = 0u32;
                let mut n = 0;
                for x in (x0..self.w).step_by(dx as usize) {
                    for s in self.pixel(x, y) {
                        if self.depth == 16 {
                            bits.extend((s as u16).to_be_bytes());
                        } else {
                            acc = acc << self.depth | s;
                            n += self.depth as u32;
                            if n == 8 {
                                bits.push(acc as u8);
                                acc = 0;
                                n = 0;
                            }
                        }
                    }
                }
                if n > 0 {
                    bits.push((acc << (8 - n)) as u8);
                }
                if prev.is_empty() {
                    prev = vec![0; bits.len()];
                }
                let f = self.filters[row_no % self.filters.len()] % 5;
                row_no += 1;
                raw.push(f);
                for i in 0..bits.len() {
                    let a = if i >= bpp { bits[i - bpp] } else { 0 };
                    let b = prev[i];
                    let c = if i >= bpp { prev[i - bpp] } else { 0 };
                    let p = match f {
                        0 => 0,
                        1 => a,
                        2 => b,
                        3 => ((a as u32 + b as u32) / 2) as u8,
                        _ => {
                            let p = a as i32 + b as i32 - c as i32;
                            let (pa, pb, pc) = ((p - a as i32).abs(), (p - b as i32).abs(), (p - c as i32).abs());
                            if pa <= pb && pa <= pc {
                                a
                            } else if pb <= pc {
                                b
                            } else {
                                c
                            }
                        }
                    };
                    raw.push(bits[i].wrapping_sub(p));
                }
                prev = bits;
            }
        }
        let z = if self.block == 0 { zlib_fixed(&raw) } else { zlib_stored(&raw, self.block as usize) };
        let frame = |n: u32| {
            let mut out = vec![];
            for v in [n, self.w, self.h, 0, 0] {
                out.extend(be32(v));
            }
            out.extend([0, 1, 0, 10, 0, 0]);
            out
        };
        let first = self.anc & 64 != 0;
        if self.animated() {
            png_chunk(&mut out, b"acTL", &[be32(1 + first as u32), be32(0)].concat());
            if first {
                png_chunk(&mut out, b"fcTL", &frame(0));
            }
        }
        let mut rest = &z[..];
        for s in &self.split {
            let n = (*s as usize).min(rest.len());
            png_chunk(&mut out, b"IDAT", &rest[..n]);
            rest = &rest[n..];
        }
        if !rest.is_empty() || self.split.is_empty() {
            png_chunk(&mut out, b"IDAT", rest);
        }
        if self.animated() {
            // another frame with other samples
            let other: Vec<u8> = raw.iter().map(|v| if *v < 5 { *v } else { !*v }).collect();
            png_chunk(&mut out, b"fcTL", &frame(first as u32));
            png_chunk(&mut out, b"fdAT", &[&be32(1 + first as u32)[..], &zlib_stored(&other, 65535)[..]].concat());
        }
        if self.anc & 16 != 0 {
            png_chunk(&mut out, b"tIME", &[7, 0xE8, 1, 2, 3, 4, 5]);
        }
        png_chunk(&mut out, b"IEND", &[]);
        out
    }
    pub fn want(&self) -> Want {
        let max = ((1u32 << self.depth) - 1) as f64;
        let t = self.transparent();
        let mut out = vec![];
        for y in 0..self.h {
            for x in 0..self.w {
                let p = self.pixel(x, y);
                let a = if t.as_ref() == Some(&p) { 0.0 } else { 1.0 };
                let f = |v: u32| v as f64 / max;
                out.push(match self.ct {
                    0 => [f(p[0]), f(p[0]), f(p[0]), a],
                    2 => [f(p[0]), f(p[1]), f(p[2]), a],
                    3 => {
                        let c = self.palette[p[0] as usize].map(|v| v as f64 / 255.0);
                        let a = self.trns.get(p[0] as usize).map_or(1.0, |v| (*v & 255) as f64 / 255.0);
                        [c[0], c[1], c[2], a]
                    }
                    4 => [f(p[0]), f(p[0]), f(p[0]), f(p[1])],
                    _ => [f(p[0]), f(p[1]), f(p[2]), f(p[3])],
                });
            }
        }
        out
    }
}

pub fn size(n: u32) -> BoxedStrategy<(u32, u32)> {
    prop_oneof![4 => (1..=n, 1..=n), 1 => (1..=4u32, 1..=4u32), 1 => (Just(1), 1..=n * 2), 1 => (1..=n * 2, Just(1))].boxed()
}

/// Values with many repetitions
fn values(n: usize) -> BoxedStrategy<Vec<u16>> {
    let v = || prop_oneof![4 => any::<u16>(), 1 => Just(0), 1 => Just(u16::MAX), 1 => 0u16..16];
    prop_oneof![
        2 => vec(v(), n),
        1 => (vec(v(), 1..5), vec(any::<prop::sample::Index>(), n)).prop_map(|(p, i)| i.iter().map(|i| p[i.index(p.len())]).collect()),
    ]
    .boxed()
}

pub fn png_file(n: u32) -> BoxedStrategy<PngFile> {
    let kinds: Vec<(u8, u8)> =
        vec![(0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)];
    (size(n), prop::sample::select(kinds))
        .prop_flat_map(|((w, h), (ct, depth))| {
            let ch = [1, 0, 3, 1, 2, 0, 4][ct as usize];
            (
                values((w * h) as usize * ch),
                any::<bool>(),
                vec(0u8..5, 1..6),
                vec(prop_oneof![1u16..20, 1u16..2000], 0..4),
                vec(any::<[u8; 3]>(), 1..=1usize << depth.min(8)),
                prop_oneof![
                    2 => Just(vec![]),
                    2 => vec(prop_oneof![any::<u16>(), Just(0), Just(255)], 1..8),
                    // transparency for many colours or all of them
                    if ct == 3 { 1 } else { 0 } => vec(prop_oneof![any::<u16>(), Just(0), Just(255)], 8..=256),
                ],
                (any::<u8>(), prop_oneof![Just(0u16), 1u16..100, Just(65535u16)]),
            )
                .prop_map(move |(samples, interlace, filters, split, palette, trns, (anc, block))| PngFile {
                    w,
                    h,
                    ct,
                    depth,
                    interlace,
                    filters,
                    split,
                    trns: if ct == 3 { trns.into_iter().take(palette.len()).collect() } else { trns },
                    palette: if ct == 3 { palette } else { vec![] },
                    samples,
                    anc,
                    block,
                })
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------- BMP

pub const BMP_KINDS: [&str; 12] = ["1", "4", "8", "16", "16 bit fields 565", "24", "32", "32 with alpha", "RLE8", "RLE4", "32 bit fields", "16 bit fields 555"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BmpFile {
    pub w: u32,
    pub h: u32,
    pub kind: u8,
    pub top_down: bool,
    /// 0: core header, 1: info header, 2: version 4, 3: version 5
    pub head: u8,
    pub palette: Vec<[u8; 3]>,
    pub data: Vec<u32>,
    /// bytes between header and pixels
    pub gap: u8,
    /// RLE: use absolute runs where possible
    pub absolute: bool,
    /// number of colours given in the header even if it is the maximum
    pub count: bool,
}

fn bit_masks(kind: u8) -> Option<[u32; 4]> {
    Some(match kind {
        4 => [0xF800, 0x07E0, 0x001F, 0],
        11 => [0x7C00, 0x03E0, 0x001F, 0],
        7 => [0x00FF0000, 0x0000FF00, 0x000000FF, 0xFF000000],
        10 => [0x000000FF, 0x0000FF00, 0x00FF0000, 0],
        _ => return None,
    })
}

impl BmpFile {
    fn bpp(&self) -> u32 {
        [1, 4, 8, 16, 16, 24, 32, 32, 8, 4, 32, 16][self.kind as usize]
    }
    fn paletted(&self) -> bool {
        self.bpp() <= 8
    }
    fn head(&self) -> u8 {
        // only those headers that can describe the kind
        match self.kind {
            0 | 1 | 2 | 5 => self.head,
            7 => self.head.max(2),
            _ => self.head.max(1),
        }
    }
    fn top_down(&self) -> bool {
        self.top_down && self.head() != 0 && self.kind != 8 && self.kind != 9
    }
    fn colors(&self) -> usize {
        let max = 1usize << self.bpp();
        // core headers always have the full palette
        if self.head() == 0 { max } else { self.palette.len().min(max) }
    }
    fn value(&self, x: u32, y: u32) -> u32 {
        let v = self.data[(y * self.w + x) as usize];
        if self.paletted() {
            v % self.palette.len().min(1 << self.bpp()) as u32
        } else {
            v & (((1u64 << self.bpp()) - 1) as u32)
        }
    }
    fn rle(&self, bits: u32) -> Vec<u8> {
        let mut out = vec![];
        for y in (0..self.h).rev() {
            let row: Vec<u8> = (0..self.w).map(|x| self.value(x, y) as u8).collect();
            let mut i = 0;
            while i < row.len() {
                let run = row[i..].iter().take(255).take_while(|v| **v == row[i]).count();
                let lit = (row.len() - i).min(7 + (i % 5));
                if self.absolute && run < 3 && lit >= 3 {
                    out.extend([0, lit as u8]);
                    let mut bytes: Vec<u8> = if bits == 8 {
                        row[i..i + lit].to_vec()
                    } else {
                        row[i..i + lit].chunks(2).map(|c| c[0] << 4 | c.get(1).copied().unwrap_or(0)).collect()
                    };
                    if bytes.len() % 2 == 1 {
                        bytes.push(0);
                    }
                    out.extend(bytes);
                    i += lit;
                } else if bits == 4 && run == 1 && i + 1 < row.len() {
                    // two alternating colours
                    let alt = row[i..].iter().enumerate().take(255).take_while(|(k, v)| **v == row[i + k % 2]).count();
                    out.extend([alt as u8, row[i] << 4 | row[i + 1]]);
                    i += alt;
                } else {
                    out.extend([run as u8, if bits == 8 { row[i] } else { row[i] << 4 | row[i] }]);
                    i += run;
                }
            }
            out.extend(if y == 0 { [0, 1] } else { [0, 0] });
        }
        out
    }
    pub fn write(&self) -> Vec<u8> {
        let dib = self.write_dib(self.h as i32);
        let masks = bit_masks(self.kind).is_some() && self.head() == 1;
        let size = [12, 40, 108, 124][self.head() as usize] as u32;
        let pal = if self.paletted() { self.colors() * if self.head() == 0 { 3 } else { 4 } } else { 0 };
        let off = 14 + size + pal as u32 + if masks { 12 } else { 0 } + self.gap as u32;
        let mut out = b"BM".to_vec();
        out.extend((14 + dib.len() as u32).to_le_bytes());
        out.extend([0; 4]);
        out.extend(off.to_le_bytes());
        out.extend(dib);
        out
    }
    /// Everything after the file header
    pub fn write_dib(&self, height_field: i32) -> Vec<u8> {
        let mut out = vec![];
        let size = [12u32, 40, 108, 124][self.head() as usize];
        let masks = bit_masks(self.kind);
        let comp: u32 = match self.kind {
            8 => 1,
            9 => 2,
            _ if masks.is_some() => 3,
            _ => 0,
        };
        let pixels = match self.kind {
            8 => self.rle(8),
            9 => self.rle(4),
            _ => {
                let mut out = vec![];
                for i in 0..self.h {
                    let y = if self.top_down() { i } else { self.h - 1 - i };
                    let start = out.len();
                    let (mut acc, mut n) = (0u32, 0);
                    for x in 0..self.w {
                        let v = self.value(x, y);
                        match self.bpp() {
                            b if b < 8 => {
                                acc = acc << b | v;
                                n += b;
                                if n == 8 {
                                    out.push(acc as u8);
                                    acc = 0;
                                    n = 0;
                                }
                            }
                            b => out.extend(&v.to_le_bytes()[..b as usize / 8]),
                        }
                    }
                    if n > 0 {
                        out.push((acc << (8 - n)) as u8);
                    }
                    while (out.len() - start) % 4 != 0 {
                        out.push(0);
                    }
                }
                out
            }
        };
        out.extend(size.to_le_bytes());
        if self.head() == 0 {
            out.extend((self.w as u16).to_le_bytes());
            out.extend((height_field as u16).to_le_bytes());
            out.extend(1u16.to_le_bytes());
            out.extend((self.bpp() as u16).to_le_bytes());
        } else {
            out.extend(self.w.to_le_bytes());
            out.extend((if self.top_down() { -height_field } else { height_field }).to_le_bytes());
            out.extend(1u16.to_le_bytes());
            out.extend((self.bpp() as u16).to_le_bytes());
            out.extend(comp.to_le_bytes());
            out.extend((pixels.len() as u32).to_le_bytes());
            out.extend([0x13, 0x0B, 0, 0, 0x13, 0x0B, 0, 0]);
            let full = self.paletted() && self.colors() == 1 << self.bpp();
            let n = if self.paletted() && (self.count || !full) { self.colors() as u32 } else { 0 };
            out.extend(n.to_le_bytes());
            out.extend([0; 4]);
            if size > 40 {
                let m = masks.unwrap_or([0; 4]);
                for v in m {
                    out.extend(v.to_le_bytes());
                }
                out.extend(b"BGRs");
                out.resize(size as usize, 0);
            } else if let Some(m) = masks {
                for v in &m[..3] {
                    out.extend(v.to_le_bytes());
                }
            }
        }
        if self.paletted() {
            for i in 0..self.colors() {
                let [r, g, b] = self.palette.get(i).copied().unwrap_or([7, 7, 7]);
                out.extend([b, g, r]);
                if self.head() != 0 {
                    out.push(0);
                }
            }
        }
        out.extend(vec![0xAA; self.gap as usize]);
        out.extend(pixels);
        out
    }
    /// sRGB samples; for 5 and 6 bit fields decoders may round differently
    pub fn want(&self) -> Want {
        let mut out = vec![];
        for y in 0..self.h {
            for x in 0..self.w {
                let v = self.value(x, y);
                let f = |m: u32, v: u32| if m == 0 { 1.0 } else { ((v & m) >> m.trailing_zeros()) as f64 / (m >> m.trailing_zeros()) as f64 };
                out.push(if self.paletted() {
                    let c = self.palette[v as usize].map(|v| v as f64 / 255.0);
                    [c[0], c[1], c[2], 1.0]
                } else if let Some(m) = bit_masks(self.kind) {
                    m.map(|m| f(m, v))
                } else if self.bpp() == 16 {
                    [0x7C00, 0x03E0, 0x001F, 0].map(|m| f(m, v))
                } else {
                    [0xFF0000, 0xFF00, 0xFF, 0].map(|m| f(m, v))
                });
            }
        }
        out
    }
    pub fn exact(&self) -> bool {
        self.bpp() != 16
    }
}

fn bmp_with(sz: BoxedStrategy<(u32, u32)>, kinds: Vec<u8>) -> BoxedStrategy<BmpFile> {
    (sz, prop::sample::select(kinds))
        .prop_flat_map(|((w, h), kind)| {
            (
                prop_oneof![
                    vec(any::<u32>(), (w * h) as usize),
                    (vec(any::<u32>(), 1..4), vec((any::<prop::sample::Index>(), 1usize..9), (w * h) as usize)).prop_map(move |(p, i)| {
                        i.iter().flat_map(|(i, n)| vec![p[i.index(p.len())]; *n]).take((w * h) as usize).collect()
                    }),
                ],
                any::<bool>(),
                0u8..4,
                prop_oneof![3 => vec(any::<[u8; 3]>(), 2..=16), 1 => vec(any::<[u8; 3]>(), 17..=255), 3 => vec(any::<[u8; 3]>(), 256)],
                prop_oneof![Just(0u8), 0u8..20],
                any::<bool>(),
                any::<bool>(),
            )
                .prop_map(move |(data, top_down, head, palette, gap, absolute, count)| BmpFile {
                    w,
                    h,
                    kind,
                    top_down,
                    head,
                    palette,
                    data,
                    gap,
                    absolute,
                    count,
                })
        })
        .boxed()
}

pub fn bmp_file(n: u32) -> BoxedStrategy<BmpFile> {
    bmp_with(size(n), (0..12).collect())
}

// ---------------------------------------------------------------------------------------- ICO

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum IcoImage {
    /// colours and the mask of transparent pixels
    Bmp(BmpFile, Vec<bool>),
    Png(PngFile),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IcoFile {
    pub main: IcoImage,
    /// a smaller version of the icon, stored before or after it
    pub other: Option<(BmpFile, bool)>,
}

impl IcoImage {
    fn size(&self) -> (u32, u32) {
        match self {
            IcoImage::Bmp(b, _) => (b.w, b.h),
            IcoImage::Png(p) => (p.w, p.h),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            IcoImage::Png(p) => p.write(),
            IcoImage::Bmp(b, mask) => {
                let mut out = b.write_dib(b.h as i32 * 2);
                for y in (0..b.h).rev() {
                    let start = out.len();
                    for x8 in (0..b.w).step_by(8) {
                        let mut v = 0;
                        for k in 0..8 {
                            let set = x8 + k < b.w && mask[(y * b.w + x8 + k) as usize];
                            v = v << 1 | set as u8;
                        }
                        out.push(v);
                    }
                    while (out.len() - start) % 4 != 0 {
                        out.push(0);
                    }
                }
                out
            }
        }
    }
    fn bits(&self) -> u16 {
        match self {
            IcoImage::Bmp(b, _) => b.bpp() as u16,
            IcoImage::Png(_) => 32,
        }
    }
}

impl IcoFile {
    pub fn size(&self) -> (u32, u32) {
        self.main.size()
    }
    pub fn write(&self) -> Vec<u8> {
        let mut e = vec![(self.main.size(), self.main.bits(), self.main.bytes())];
        if let Some((b, first)) = &self.other {
            let b = IcoImage::Bmp(b.clone(), vec![false; (b.w * b.h) as usize]);
            e.insert(if *first { 0 } else { 1 }, (b.size(), b.bits(), b.bytes()));
        }
        let mut out = vec![0, 0, 1, 0, e.len() as u8, 0];
        let mut off = 6 + 16 * e.len();
        for ((w, h), bits, data) in &e {
            let colors = if *bits < 8 { 1u8 << bits } else { 0 };
            out.extend([*w as u8, *h as u8, colors, 0, 1, 0]);
            out.extend(bits.to_le_bytes());
            out.extend((data.len() as u32).to_le_bytes());
            out.extend((off as u32).to_le_bytes());
            off += data.len();
        }
        for (_, _, data) in e {
            out.extend(data);
        }
        out
    }
    pub fn want(&self) -> Want {
        match &self.main {
            IcoImage::Png(p) => p.want(),
            IcoImage::Bmp(b, mask) => b
                .want()
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    let a = if b.bpp() == 32 {
                        // the fourth byte is alpha
                        (b.data[i] >> 24) as f64 / 255.0
                    } else if mask[i] {
                        0.0
                    } else {
                        1.0
                    };
                    [p[0], p[1], p[2], a]
                })
                .collect(),
        }
    }
}

pub fn ico_file(n: u32) -> BoxedStrategy<IcoFile> {
    let s = move || prop_oneof![6 => (1..=n, 1..=n), 1 => (Just(256u32), 1u32..4)].boxed();
    let b = move |k: Vec<u8>| {
        bmp_with(s(), k).prop_map(|mut b| {
            b.head = 1;
            b.top_down = false;
            b.gap = 0;
            b
        })
    };
    let main = prop_oneof![
        4 => b(vec![0, 1, 2, 5, 6]).prop_flat_map(|b| {
            let n = (b.w * b.h) as usize;
            (Just(b), prop_oneof![Just(vec![false; n]), vec(any::<bool>(), n)]).prop_map(|(b, mut m)| {
                if b.bpp() == 32 {
                    m.iter_mut().for_each(|m| *m = false);
                }
                IcoImage::Bmp(b, m)
            })
        }),
        2 => png_file(n).prop_map(|mut p| {
            // icons use 32 bit images
            p.ct = 6;
            p.depth = 8;
            p.trns.clear();
            p.palette.clear();
            let need = (p.w * p.h * 4) as usize;
            let l = p.samples.len();
            p.samples = (0..need).map(|i| p.samples[i % l].rotate_left(i as u32 % 5)).collect();
            IcoImage::Png(p)
        }),
    ];
    (main, proptest::option::of((b(vec![0, 1, 2]), any::<bool>())))
        .prop_map(|(main, other)| {
            let (w, h) = main.size();
            let other = other.filter(|(b, _)| b.w < w && b.h < h && (b.bpp() as u16) <= main.bits() && b.w < 256 && w < 256);
            IcoFile { main, other }
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------- GIF

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GifFile {
    pub w: u32,
    pub h: u32,
    /// bits of the palette index
    pub bits: u8,
    pub palette: Vec<[u8; 3]>,
    /// 1: global palette, 2: local, 3: both (the local one counts)
    pub tables: u8,
    pub interlace: bool,
    pub transparent: Option<u8>,
    pub old: bool,
    pub data: Vec<u8>,
    /// only literal codes
    pub literal: bool,
    pub comment: bool,
    /// a second frame
    pub second: bool,
    /// data block size
    pub block: u8,
}

fn lzw(data: &[u8], bits: u8, literal: bool) -> Vec<u8> {
    let min = bits.max(2) as u32;
    let clear = 1u32 << min;
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    let mut put = |v: u32, w: u32, out: &mut Vec<u8>| {
        acc |= v << n;
        n += w;
        while n >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    };
    let mut width = min + 1;
    put(clear, width, &mut out);
    if literal {
        // a clear code before the width would grow
        let limit = (1usize << min) - 2;
        for (i, c) in data.chunks(limit.max(1)).enumerate() {
            if i > 0 {
                put(clear, width, &mut out);
            }
            for v in c {
                put(*v as u32, width, &mut out);
            }
        }
    } else {
        let mut dict: std::collections::HashMap<(u32, u8), u32> = Default::default();
        let mut next = clear + 2;
        let mut cur: Option<u32> = None;
        for v in data {
            cur = Some(match cur {
                None => *v as u32,
                Some(c) => match dict.get(&(c, *v)) {
                    Some(k) => *k,
                    None => {
                        put(c, width, &mut out);
                        if next < 4096 {
                            dict.insert((c, *v), next);
                            if next == 1 << width && width < 12 {
                                width += 1;
                            }
                            next += 1;
                        } else {
                            put(clear, width, &mut out);
                            dict.clear();
                            next = clear + 2;
                            width = min + 1;
                        }
                        *v as u32
                    }
                },
            });
        }
        if let Some(c) = cur {
            put(c, width, &mut out);
            if next == 1 << width && width < 12 {
                width += 1;
            }
        }
    }
    put(clear + 1, width, &mut out);
    put(0, 7, &mut out);
    out
}

impl GifFile {
    fn index(&self, i: usize) -> u8 {
        (self.data[i] as usize % self.palette.len().min(1 << self.bits)) as u8
    }
    fn table(&self, out: &mut Vec<u8>, pal: &[[u8; 3]]) {
        for i in 0..1usize << self.bits {
            out.extend(pal.get(i).copied().unwrap_or([0, 0, 0]));
        }
    }
    fn frame(&self, out: &mut Vec<u8>, data: &[u8]) {
        let local = self.tables & 2 != 0;
        if !self.old && (self.transparent.is_some() || self.comment) {
            out.extend([0x21, 0xF9, 4, self.transparent.is_some() as u8, 10, 0, self.transparent.unwrap_or(0), 0]);
        }
        out.extend([0x2C, 0, 0, 0, 0]);
        out.extend((self.w as u16).to_le_bytes());
        out.extend((self.h as u16).to_le_bytes());
        out.push((local as u8) << 7 | (self.interlace as u8) << 6 | if local { self.bits - 1 } else { 0 });
        if local {
            self.table(out, &self.palette);
        }
        let rows: Vec<usize> = if self.interlace {
            let h = self.h as usize;
            (0..h).step_by(8).chain((4..h).step_by(8)).chain((2..h).step_by(4)).chain((1..h).step_by(2)).collect()
        } else {
            (0..self.h as usize).collect()
        };
        let w = self.w as usize;
        let flat: Vec<u8> = rows.iter().flat_map(|y| data[y * w..(y + 1) * w].to_vec()).collect();
        out.push(self.bits.max(2));
        for b in lzw(&flat, self.bits, self.literal).chunks(self.block.max(1) as usize) {
            out.push(b.len() as u8);
            out.extend(b);
        }
        out.push(0);
    }
    pub fn write(&self) -> Vec<u8> {
        let mut out = if self.old { b"GIF87a".to_vec() } else { b"GIF89a".to_vec() };
        out.extend((self.w as u16).to_le_bytes());
        out.extend((self.h as u16).to_le_bytes());
        let global = self.tables & 1 != 0;
        out.push((global as u8) << 7 | 0x70 | (self.bits - 1));
        out.extend([0, 0]);
        if global {
            if self.tables == 3 {
                let other: Vec<[u8; 3]> = self.palette.iter().map(|p| [!p[0], p[1] ^ 0x55, p[2].wrapping_add(9)]).collect();
                self.table(&mut out, &other);
            } else {
                self.table(&mut out, &self.palette);
            }
        }
        if self.comment && !self.old {
            out.extend([0x21, 0xFE, 5]);
            out.extend(b"hello");
            out.push(0);
            if self.second {
                out.extend([0x21, 0xFF, 11]);
                out.extend(b"NETSCAPE2.0");
                out.extend([3, 1, 0, 0, 0]);
            }
        }
        let data: Vec<u8> = (0..self.data.len()).map(|i| self.index(i)).collect();
        self.frame(&mut out, &data);
        if self.second {
            let other: Vec<u8> = data.iter().rev().copied().collect();
            self.frame(&mut out, &other);
        }
        out.push(0x3B);
        out
    }
    pub fn want(&self) -> Want {
        (0..self.data.len())
            .map(|i| {
                let k = self.index(i);
                let c = self.palette[k as usize].map(|v| v as f64 / 255.0);
                let t = !self.old && self.transparent == Some(k);
                [c[0], c[1], c[2], if t { 0.0 } else { 1.0 }]
            })
            .collect()
    }
}

pub fn gif_file(n: u32) -> BoxedStrategy<GifFile> {
    (size(n), 1u8..=8)
        .prop_flat_map(|((w, h), bits)| {
            let n = (w * h) as usize;
            (
                vec(any::<[u8; 3]>(), 2..=1usize << bits),
                1u8..4,
                any::<bool>(),
                proptest::option::of(0u8..=((1u16 << bits) - 1) as u8),
                proptest::bool::weighted(0.2),
                prop_oneof![vec(any::<u8>(), n), (vec(any::<u8>(), 1..4), vec(any::<prop::sample::Index>(), n)).prop_map(|(p, i)| i
                    .iter()
                    .map(|i| p[i.index(p.len())])
                    .collect())],
                (any::<bool>(), any::<bool>(), proptest::bool::weighted(0.3), prop_oneof![Just(255u8), 1u8..=255]),
            )
                .prop_map(move |(palette, tables, interlace, transparent, old, data, (literal, comment, second, block))| GifFile {
                    w,
                    h,
                    bits,
                    palette,
                    tables,
                    interlace,
                    transparent,
                    old,
                    data,
                    literal,
                    comment,
                    second,
                    block,
                })
        })
        .boxed()
}

// --------------------------------------------------------------------------------------- JPEG

pub const JPEG_KINDS: [&str; 6] = ["gray", "YCbCr", "RGB", "CMYK", "YCCK", "lossless gray"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JpegFile {
    pub w: u32,
    pub h: u32,
    pub kind: u8,
    /// index of SAMPLING
    pub sampling: u8,
    pub progressive: bool,
    pub optimized: bool,
    pub restart: u16,
    /// lossless: bits per sample
    pub bits: u8,
    /// lossless: predictor
    pub predictor: u8,
    /// four components per pixel (blocks of 8x8 have the same colour if there is no subsampling)
    pub base: [u8; 4],
    pub data: Vec<[u8; 4]>,
}

/// The colour of each component
fn jpeg_components(f: &JpegFile) -> Vec<[u8; 4]> {
    let n = (f.w * f.h) as usize;
    if f.kind == 5 {
        return (0..n).map(|i| f.data[i % f.data.len()]).collect();
    }
    if f.sampling != 0 {
        // one colour
        return vec![f.base; n];
    }
    // smooth in blocks: one colour for each
    let bw = f.w.div_ceil(8);
    (0..n)
        .map(|i| {
            let (x, y) = (i as u32 % f.w, i as u32 / f.w);
            f.data[(x / 8 + y / 8 * bw) as usize % f.data.len()]
        })
        .collect()
}

impl JpegFile {
    pub fn write(&self) -> Option<Vec<u8>> {
        if self.kind == 5 {
            return Some(self.write_lossless());
        }
        use jpeg_encoder::ColorType::*;
        let mut out = vec![];
        let mut e = jpeg_encoder::Encoder::new(&mut out, 100);
        let (_, h, v) = super::fmts::SAMPLING[self.sampling as usize];
        e.set_sampling_factor(jpeg_encoder::SamplingFactor::from_factors(h, v)?);
        e.set_progressive(self.progressive);
        e.set_optimized_huffman_tables(self.optimized);
        if self.restart > 0 {
            e.set_restart_interval(self.restart);
        }
        let px = jpeg_components(self);
        let (data, ct): (Vec<u8>, _) = match self.kind {
            0 => (px.iter().map(|p| p[0]).collect(), Luma),
            1 | 2 => (px.iter().flat_map(|p| [p[0], p[1], p[2]]).collect(), Rgb),
            3 => (px.concat(), Cmyk),
            _ => (px.concat(), CmykAsYcck),
        };
        if self.kind == 2 {
            // three components without colour transformation
            struct Plain<'a>(&'a [u8], u16, u16);
            impl jpeg_encoder::ImageBuffer for Plain<'_> {
                fn get_jpeg_color_type(&self) -> jpeg_encoder::JpegColorType {
                    jpeg_encoder::JpegColorType::Ycbcr
                }
                fn width(&self) -> u16 {
                    self.1
                }
                fn height(&self) -> u16 {
                    self.2
                }
                fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
                    let w = self.1 as usize * 3;
                    for p in self.0[y as usize * w..(y as usize + 1) * w].chunks(3) {
                        for i in 0..3 {
                            buffers[i].push(p[i]);
                        }
                    }
                }
            }
            e.add_app_segment(14, b"Adobe\0\x64\0\0\0\0\0").ok()?;
            e.encode_image(Plain(&data, self.w as u16, self.h as u16)).ok()?;
            // the JFIF segment would mean YCbCr
            let n = u16::from_be_bytes([out[4], out[5]]) as usize;
            if out[3] == 0xE0 {
                out.drain(2..4 + n);
            }
            return Some(out);
        }
        e.encode(&data, self.w as u16, self.h as u16, ct).ok()?;
        Some(out)
    }
    pub fn want(&self) -> Want {
        jpeg_components(self)
            .iter()
            .map(|p| {
                let f = p.map(|v| v as f64 / 255.0);
                match self.kind {
                    0 => [f[0], f[0], f[0], 1.0],
                    1 | 2 => [f[0], f[1], f[2], 1.0],
                    5 => {
                        let v = self.wide(*p) as f64 / ((1u32 << self.bits) - 1) as f64;
                        [v, v, v, 1.0]
                    }
                    _ => [(1.0 - f[0]) * (1.0 - f[3]), (1.0 - f[1]) * (1.0 - f[3]), (1.0 - f[2]) * (1.0 - f[3]), 1.0],
                }
            })
            .collect()
    }
    /// largest deviation in steps of 1/255
    pub fn tolerance(&self) -> f64 {
        let px = jpeg_components(self);
        let flat = px.iter().all(|p| *p == px[0]);
        match self.kind {
            5 => 0.01,
            0 if flat => 0.01,
            0 => 1.6,
            // no colour transformation
            2 | 3 if flat => 0.02,
            _ => 3.5,
        }
    }
    fn wide(&self, p: [u8; 4]) -> u32 {
        (p[0] as u32 * 256 + p[1] as u32) & ((1 << self.bits) - 1)
    }
    /// Lossless process (SOF3), one component
    fn write_lossless(&self) -> Vec<u8> {
        let px: Vec<i32> = jpeg_components(self).iter().map(|p| self.wide(*p) as i32).collect();
        let mut out = vec![0xFF, 0xD8, 0xFF, 0xC3, 0, 11, self.bits];
        out.extend((self.h as u16).to_be_bytes());
        out.extend((self.w as u16).to_be_bytes());
        out.extend([1, 1, 0x11, 0]);
        // 17 categories with codes of 5 bits
        out.extend([0xFF, 0xC4, 0, 19 + 17, 0, 0, 0, 0, 0, 17]);
        out.extend([0; 11]);
        out.extend(0u8..17);
        out.extend([0xFF, 0xDA, 0, 8, 1, 1, 0, self.predictor, 0, 0]);
        let (mut acc, mut n) = (0u64, 0);
        let mut put = |v: u64, k: u32, out: &mut Vec<u8>| {
            acc = acc << k | v;
            n += k;
            while n >= 8 {
                let b = (acc >> (n - 8)) as u8;
                out.push(b);
                if b == 0xFF {
                    out.push(0);
                }
                n -= 8;
            }
            acc &= (1 << n) - 1;
        };
        let w = self.w as usize;
        for i in 0..px.len() {
            let (x, y) = (i % w, i / w);
            let p = if x == 0 && y == 0 {
                1 << (self.bits - 1)
            } else if y == 0 {
                px[i - 1]
            } else if x == 0 {
                px[i - w]
            } else {
                let (a, b, c) = (px[i - 1], px[i - w], px[i - w - 1]);
                match self.predictor {
                    1 => a,
                    2 => b,
                    3 => c,
                    4 => a + b - c,
                    5 => a + ((b - c) >> 1),
                    6 => b + ((a - c) >> 1),
                    _ => (a + b) / 2,
                }
            };
            // modulo 65536
            let mut d = (px[i] - p) & 0xFFFF;
            if d > 32768 {
                d -= 65536;
            }
            let cat = if d == 32768 { 16 } else { 32 - d.unsigned_abs().leading_zeros() };
            put(cat as u64, 5, &mut out);
            if cat > 0 && cat < 16 {
                let v = if d > 0 { d } else { d + (1 << cat) - 1 };
                put(v as u64, cat, &mut out);
            }
        }
        put(0x7F, 7, &mut out);
        out.extend([0xFF, 0xD9]);
        out
    }
}

pub fn jpeg_file(n: u32) -> BoxedStrategy<JpegFile> {
    (
        size(n),
        0u8..6,
        prop_oneof![2 => Just(0u8), 1 => 0u8..8],
        any::<bool>(),
        any::<bool>(),
        prop_oneof![3 => Just(0u16), 1 => 1u16..6],
        (prop_oneof![2 => Just(16u8), 1 => Just(8u8)], 1u8..=7),
        any::<[u8; 4]>(),
        vec(prop_oneof![3 => any::<[u8; 4]>(), 1 => any::<u8>().prop_map(|v| [v; 4]), 1 => Just([0; 4]), 1 => Just([255; 4])], 1..60),
    )
        .prop_map(|((w, h), kind, sampling, progressive, optimized, restart, (bits, predictor), base, data)| JpegFile {
            w,
            h,
            kind,
            sampling: if kind == 0 || kind == 5 { 0 } else { sampling },
            progressive: progressive && kind != 5,
            optimized,
            restart: if progressive || optimized { 0 } else { restart },
            bits,
            predictor,
            base,
            data,
        })
        .boxed()
}

// --------------------------------------------------------------------------------------- WebP

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WebpFile {
    pub w: u32,
    pub h: u32,
    pub data: Vec<[u8; 4]>,
    pub level: u8,
    /// as extended file with metadata chunks
    pub extended: bool,
    /// lossy with this quality
    #[serde(default)]
    pub lossy: Option<u8>,
}

impl WebpFile {
    pub fn write(&self) -> Option<Vec<u8>> {
        let argb: Vec<u32> = self.data.iter().map(|p| u32::from_be_bytes([p[3], p[0], p[1], p[2]])).collect();
        let simple = unsafe {
            let mut config = libwebp_sys::WebPConfig::new().ok()?;
            libwebp_sys::WebPConfigLosslessPreset(&mut config, self.level as i32 % 10);
            config.exact = 1;
            if let Some(q) = self.lossy {
                config = libwebp_sys::WebPConfig::new_with_preset(libwebp_sys::WebPPreset::WEBP_PRESET_DEFAULT, q as f32).ok()?;
                config.method = self.level as i32 % 7;
            }
            let mut pic = libwebp_sys::WebPPicture::new().ok()?;
            let mut wr: libwebp_sys::WebPMemoryWriter = std::mem::zeroed();
            libwebp_sys::WebPMemoryWriterInit(&mut wr);
            pic.use_argb = 1;
            pic.width = self.w as i32;
            pic.height = self.h as i32;
            pic.argb = argb.as_ptr() as *mut u32;
            pic.argb_stride = self.w as i32;
            pic.writer = Some(libwebp_sys::WebPMemoryWrite);
            pic.custom_ptr = &mut wr as *mut _ as *mut _;
            let ok = libwebp_sys::WebPEncode(&config, &mut pic);
            libwebp_sys::WebPPictureFree(&mut pic);
            let out = if wr.size > 0 { std::slice::from_raw_parts(wr.mem, wr.size).to_vec() } else { vec![] };
            libwebp_sys::WebPMemoryWriterClear(&mut wr);
            if ok == 0 {
                return None;
            }
            out
        };
        if !self.extended {
            return Some(simple);
        }
        let mut body = b"WEBPVP8X".to_vec();
        body.extend(10u32.to_le_bytes());
        let alpha = self.data.iter().any(|p| p[3] != 255);
        body.extend([(alpha as u8) << 4 | 4 | 8, 0, 0, 0]);
        body.extend(&(self.w - 1).to_le_bytes()[..3]);
        body.extend(&(self.h - 1).to_le_bytes()[..3]);
        let simple = match &simple[12..16] {
            // the header of an extended file is already there
            b"VP8X" => &simple[30..],
            _ => &simple[12..],
        };
        body.extend(simple);
        body.extend(b"EXIF\x05\0\0\0abcde\0");
        body.extend(b"XMP \x04\0\0\0<a/>");
        let mut out = b"RIFF".to_vec();
        out.extend((body.len() as u32).to_le_bytes());
        out.extend(body);
        Some(out)
    }
    pub fn want(&self) -> Want {
        self.data.iter().map(|p| p.map(|v| v as f64 / 255.0)).collect()
    }
}

/// What libwebp reads
pub fn webp_samples(file: &[u8], w: u32, h: u32) -> Option<Want> {
    let mut data = vec![0u8; (w * h * 4) as usize];
    let res = unsafe { libwebp_sys::WebPDecodeRGBAInto(file.as_ptr(), file.len(), data.as_mut_ptr(), data.len(), w as i32 * 4) };
    (!res.is_null()).then(|| data.chunks(4).map(|p| [p[0], p[1], p[2], p[3]].map(|v| v as f64 / 255.0)).collect())
}

pub fn webp_file(n: u32) -> BoxedStrategy<WebpFile> {
    size(n)
        .prop_flat_map(|(w, h)| {
            let n = (w * h) as usize;
            let p = || prop_oneof![any::<[u8; 4]>(), any::<[u8; 3]>().prop_map(|p| [p[0], p[1], p[2], 255]), any::<[u8; 3]>().prop_map(|p| [p[0], p[1], p[2], 0])];
            (
                prop_oneof![vec(p(), n), (vec(p(), 1..5), vec(any::<prop::sample::Index>(), n)).prop_map(|(p, i)| i
                    .iter()
                    .map(|i| p[i.index(p.len())])
                    .collect())],
                0u8..10,
                any::<bool>(),
                prop_oneof![2 => Just(None), 1 => (0u8..=100).prop_map(Some)],
            )
                .prop_map(move |(data, level, extended, lossy)| WebpFile { w, h, data, level, extended, lossy })
        })
        .boxed()
}
