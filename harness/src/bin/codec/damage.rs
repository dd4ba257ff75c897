//! Damaged and random files
use super::fmts::*;
use super::writers::*;
use d10_codecs::{decode_buffer, decode_file};
use d10_core::pixelbuffer::is_valid_buffer_size;
use d10_verif::engine::*;
use d10_verif::{ensure, gen::*};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A file content
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damaged {
    pub what: String,
    /// The size in its header, if that is intact
    pub size: Option<(u32, u32)>,
    pub hex: String,
}

pub fn to_hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn from_hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

#[derive(Clone, Debug)]
pub struct Valid {
    pub what: String,
    pub size: (u32, u32),
    pub data: Vec<u8>,
}

/// A valid file of any format, written by d10 or by the writers of this harness
pub fn valid(n: u32) -> BoxedStrategy<Valid> {
    fn v(what: &str, size: (u32, u32), data: Vec<u8>) -> Valid {
        Valid { what: what.into(), size, data }
    }
    prop_oneof![
        3 => png_file(n).prop_map(|f| v("png", (f.w, f.h), f.write())),
        2 => bmp_file(n).prop_map(|f| v("bmp", (f.w, f.h), f.write())),
        2 => ico_file(n).prop_map(|f| v("ico", f.size(), f.write())),
        2 => gif_file(n).prop_map(|f| v("gif", (f.w, f.h), f.write())),
        3 => jpeg_file(n).prop_map(|f| v("jpeg", (f.w, f.h), f.write().unwrap_or_default())),
        1 => webp_file(n).prop_map(|f| v("webp", (f.w, f.h), f.write().unwrap_or_default())),
        4 => (raw(dims(n), 255, false, false), any_spec()).prop_map(|(r, spec)| {
            let mut out = vec![];
            let _ = d10_codecs::encode(&mut out, &img_of_samples(r.w, r.h, &r.data, 255.0).buf(), spec.format());
            v(spec.kind(), (r.w, r.h), out)
        }),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
enum Edit {
    Cut(Pos),
    Append(Vec<u8>),
    Flip(Pos, u8),
    Set(Pos, Vec<u8>),
    Num { at: Pos, width: u8, be: bool, value: u32 },
    Remove(Pos, u16),
    Insert(Pos, Vec<u8>),
    Repeat { from: Pos, n: u16, to: Pos },
    Other { from: Pos, n: u16, to: Pos },
    Fill { at: Pos, n: u16, value: u8 },
    /// A part of a structured file is changed and the lengths are corrected
    Part { which: prop::sample::Index, how: How },
}

#[derive(Clone, Debug)]
enum How {
    Drop,
    Twice,
    Move(prop::sample::Index),
    Length(u16),
    Longer(Vec<u8>),
    Byte(prop::sample::Index, u8),
    Kind([u8; 4]),
}

#[derive(Clone, Debug)]
enum Pos {
    Head(u16),
    Any(prop::sample::Index),
    Tail(u16),
}

impl Pos {
    fn of(&self, n: usize) -> usize {
        match self {
            Pos::Head(k) => (*k as usize).min(n.saturating_sub(1)),
            Pos::Any(i) => {
                if n == 0 {
                    0
                } else {
                    i.index(n)
                }
            }
            Pos::Tail(k) => n.saturating_sub(1 + *k as usize),
        }
    }
}

fn edit() -> BoxedStrategy<Edit> {
    let pos = || {
        prop_oneof![
            4 => (0u16..80).prop_map(Pos::Head),
            1 => (0u16..700).prop_map(Pos::Head),
            4 => any::<prop::sample::Index>().prop_map(Pos::Any),
            1 => (0u16..24).prop_map(Pos::Tail),
        ]
    };
    let number = || {
        prop_oneof![
            3 => 0u32..40,
            1 => any::<u32>(),
            1 => prop::sample::select(vec![0x7FFF_FFFFu32, 0x8000_0000, 0xFFFF_FFFF, 0x8000_0001, 0xFFFF, 0x7FFF, 0x8000, 255, 256, 0x1_0000, 0xFFFF_FF00, 0xFFFF_FFF0]),
            1 => 100u32..5000,
        ]
    };
    prop_oneof![
        2 => pos().prop_map(Edit::Cut),
        1 => vec(any::<u8>(), 1..20).prop_map(Edit::Append),
        3 => (pos(), 0u8..8).prop_map(|(p, b)| Edit::Flip(p, b)),
        3 => (pos(), vec(prop_oneof![3 => any::<u8>(), 1 => Just(0u8), 1 => Just(255u8)], 1..4)).prop_map(|(p, d)| Edit::Set(p, d)),
        4 => (pos(), prop::sample::select(vec![1u8, 2, 4]), any::<bool>(), number())
            .prop_map(|(at, width, be, value)| Edit::Num { at, width, be, value }),
        1 => (pos(), 1u16..40).prop_map(|(p, n)| Edit::Remove(p, n)),
        1 => (pos(), vec(any::<u8>(), 1..20)).prop_map(|(p, d)| Edit::Insert(p, d)),
        1 => (pos(), 1u16..80, pos()).prop_map(|(from, n, to)| Edit::Repeat { from, n, to }),
        1 => (pos(), 1u16..200, pos()).prop_map(|(from, n, to)| Edit::Other { from, n, to }),
        6 => (any::<prop::sample::Index>(), how()).prop_map(|(which, how)| Edit::Part { which, how }),
        1 => (pos(), 1u16..60, prop_oneof![Just(0u8), Just(255u8), any::<u8>()]).prop_map(|(at, n, value)| Edit::Fill { at, n, value }),
    ]
    .boxed()
}

fn how() -> BoxedStrategy<How> {
    use prop::sample::{select, Index};
    prop_oneof![
        1 => Just(How::Drop),
        1 => Just(How::Twice),
        1 => any::<Index>().prop_map(How::Move),
        3 => (0u16..40).prop_map(How::Length),
        1 => (0u16..1200).prop_map(How::Length),
        1 => vec(any::<u8>(), 1..20).prop_map(How::Longer),
        4 => (any::<Index>(), prop_oneof![any::<u8>(), 0u8..9, Just(255u8)]).prop_map(|(i, v)| How::Byte(i, v)),
        2 => select(vec![
            *b"IHDR", *b"PLTE", *b"tRNS", *b"IDAT", *b"IEND", *b"acTL", *b"fcTL", *b"fdAT", *b"gAMA", *b"sBIT", *b"iCCP", *b"tEXt", *b"zTXt", *b"iTXt", *b"pHYs",
            *b"cHRM", *b"sRGB", *b"bKGD", *b"VP8 ", *b"VP8L", *b"VP8X", *b"ALPH", *b"ANIM", *b"ANMF",
        ])
        .prop_map(How::Kind),
    ]
    .boxed()
}

/// Parts of PNG (chunks), JPEG (segments) and WebP files (chunks): start, end of the head, end
fn parts(d: &[u8]) -> Vec<(usize, usize, usize)> {
    let mut out = vec![];
    let mut p;
    if d.starts_with(b"\x89PNG") {
        p = 8;
        while p + 12 <= d.len() {
            let n = be(d, p, 4) as usize;
            if p + 12 + n > d.len() {
                break;
            }
            out.push((p, p + 8, p + 8 + n));
            p += 12 + n;
        }
    } else if d.starts_with(&[0xFF, 0xD8]) {
        p = 2;
        while p + 4 <= d.len() && d[p] == 0xFF {
            let n = be(d, p + 2, 2) as usize;
            if n < 2 || p + 2 + n > d.len() {
                break;
            }
            out.push((p, p + 4, p + 2 + n));
            let scan = d[p + 1] == 0xDA;
            p += 2 + n;
            // behind the data of a scan
            while scan && p + 1 < d.len() && (d[p] != 0xFF || d[p + 1] == 0 || (0xD0..0xD8).contains(&d[p + 1])) {
                p += 1;
            }
        }
    } else if d.starts_with(b"RIFF") {
        p = 12;
        while p + 8 <= d.len() {
            let n = le(d, p + 4, 4) as usize;
            if p + 8 + n > d.len() {
                break;
            }
            out.push((p, p + 8, p + 8 + n));
            p += 8 + n + n % 2;
        }
    }
    out
}

fn change_part(d: &mut Vec<u8>, which: &prop::sample::Index, how: &How) {
    let all = parts(d);
    if all.is_empty() {
        return;
    }
    let (start, body, end) = all[which.index(all.len())];
    let (png, riff) = (d.starts_with(b"\x89PNG"), d.starts_with(b"RIFF"));
    let tail = |end: usize| {
        if png {
            end + 4
        } else if riff {
            end + (end - body) % 2
        } else {
            end
        }
    };
    let stop = tail(end).min(d.len());
    let head = d[start..body].to_vec();
    let mut data = d[body..end].to_vec();
    let build = |mut head: Vec<u8>, data: &[u8]| -> Vec<u8> {
        let n = data.len();
        if png {
            head[..4].copy_from_slice(&(n as u32).to_be_bytes());
        } else if riff {
            head[4..8].copy_from_slice(&(n as u32).to_le_bytes());
        } else {
            head[2..4].copy_from_slice(&((n + 2) as u16).to_be_bytes());
        }
        head.extend(data);
        if png {
            head.extend([0; 4]);
        } else if riff && n % 2 == 1 {
            head.push(0);
        }
        head
    };
    match how {
        How::Drop => {
            d.drain(start..stop);
        }
        How::Twice => {
            let copy = d[start..stop].to_vec();
            d.splice(start..start, copy);
        }
        How::Move(to) => {
            let to = all[to.index(all.len())].0;
            let copy: Vec<u8> = d.drain(start..stop).collect();
            let to = if to > start { to - copy.len() } else { to };
            d.splice(to..to, copy);
        }
        How::Length(n) => {
            data.resize(*n as usize, 7);
            d.splice(start..stop, build(head, &data));
        }
        How::Longer(v) => {
            data.extend(v);
            d.splice(start..stop, build(head, &data));
        }
        How::Byte(i, v) => {
            if !data.is_empty() {
                d[body + i.index(data.len())] = *v;
            }
        }
        How::Kind(k) => {
            if png {
                d[start + 4..start + 8].copy_from_slice(k);
            } else if riff {
                d[start..start + 4].copy_from_slice(k);
            } else {
                d[start + 1] = 0xC0 | k[3] & 0x3F;
            }
        }
    }
    if riff {
        let n = d.len() as u32 - 8;
        d[4..8].copy_from_slice(&n.to_le_bytes());
    }
}

fn apply(e: &Edit, d: &mut Vec<u8>, other: &[u8]) {
    let n = d.len();
    match e {
        Edit::Cut(p) => d.truncate(p.of(n)),
        Edit::Append(v) => d.extend(v),
        Edit::Flip(p, b) => {
            if let Some(v) = d.get_mut(p.of(n)) {
                *v ^= 1 << b;
            }
        }
        Edit::Set(p, v) => {
            let p = p.of(n);
            for (i, v) in v.iter().enumerate() {
                if let Some(d) = d.get_mut(p + i) {
                    *d = *v;
                }
            }
        }
        Edit::Num { at, width, be, value } => {
            let p = at.of(n);
            let w = *width as usize;
            for i in 0..w {
                let s = if *be { w - 1 - i } else { i };
                if let Some(d) = d.get_mut(p + i) {
                    *d = (value >> (8 * s)) as u8;
                }
            }
        }
        Edit::Remove(p, k) => {
            let p = p.of(n);
            d.drain(p..(p + *k as usize).min(n));
        }
        Edit::Insert(p, v) => {
            let p = p.of(n);
            d.splice(p..p, v.iter().copied());
        }
        Edit::Repeat { from, n: k, to } => {
            let f = from.of(n);
            let part = d[f..(f + *k as usize).min(n)].to_vec();
            let t = to.of(n);
            d.splice(t..t, part);
        }
        Edit::Other { from, n: k, to } => {
            let f = from.of(other.len());
            let part = other[f..(f + *k as usize).min(other.len())].to_vec();
            let t = to.of(n);
            d.splice(t..(t + part.len()).min(n), part);
        }
        Edit::Part { which, how } => change_part(d, which, how),
        Edit::Fill { at, n: k, value } => {
            let p = at.of(n);
            for i in p..(p + *k as usize).min(n) {
                d[i] = *value;
            }
        }
    }
}

/// Correct the check sums of PNG chunks, also of an image inside of an ICO file
fn repair(d: &mut [u8]) {
    let Some(start) = d.windows(8).position(|w| w == [0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A]) else { return };
    let mut p = start + 8;
    while p + 12 <= d.len() {
        let n = u32::from_be_bytes(d[p..p + 4].try_into().unwrap()) as usize;
        let Some(end) = p.checked_add(8).and_then(|v| v.checked_add(n)).filter(|e| e + 4 <= d.len()) else { return };
        let crc = crc32(&d[p + 4..end]);
        d[end..end + 4].copy_from_slice(&crc.to_be_bytes());
        p = end + 4;
    }
}

fn damaged(n: u32) -> BoxedStrategy<Damaged> {
    (valid(n), valid(n), vec(edit(), 1..6), proptest::bool::weighted(0.8))
        .prop_map(|(f, o, edits, fix)| {
            let mut d = f.data.clone();
            for e in &edits {
                apply(e, &mut d, &o.data);
            }
            if fix {
                repair(&mut d);
            }
            Damaged { what: f.what, size: None, hex: to_hex(&d) }
        })
        .boxed()
}

/// Cut off, or with something behind
fn cut(n: u32) -> BoxedStrategy<Damaged> {
    (valid(n), any::<prop::sample::Index>(), prop_oneof![3 => Just(None), 1 => vec(any::<u8>(), 0..40).prop_map(Some)])
        .prop_map(|(f, i, tail)| {
            let mut d = f.data;
            match tail {
                // the first bytes are what the format is known by
                None => d.truncate(i.index(d.len().max(1))),
                Some(t) => d.extend(t),
            }
            Damaged { what: f.what, size: Some(f.size), hex: to_hex(&d) }
        })
        .boxed()
}

/// Nothing but the first bytes of a format
fn random() -> BoxedStrategy<Damaged> {
    let heads: Vec<(&str, Vec<u8>)> = vec![
        ("png", b"\x89PNG\r\n\x1a\n".to_vec()),
        ("png", b"\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR\0\0\0".to_vec()),
        ("jpeg", vec![0xFF, 0xD8, 0xFF]),
        ("jpeg", vec![0xFF, 0xD8, 0xFF, 0xC0, 0, 11, 8, 0]),
        ("gif", b"GIF87a".to_vec()),
        ("gif", b"GIF89a\x02\0\x02\0".to_vec()),
        ("bmp", b"BM".to_vec()),
        ("bmp", b"BM\0\0\0\0\0\0\0\0\x36\0\0\0\x28\0\0\0".to_vec()),
        ("ico", vec![0, 0, 1, 0]),
        ("ico", vec![0, 0, 1, 0, 1, 0]),
        ("webp", b"RIFF\x40\0\0\0WEBP".to_vec()),
        ("webp", b"RIFF\x40\0\0\0WEBPVP8 ".to_vec()),
        ("webp", b"RIFF\x40\0\0\0WEBPVP8L".to_vec()),
        ("webp", b"RIFF\x40\0\0\0WEBPVP8X\x0a\0\0\0".to_vec()),
        ("", vec![]),
    ];
    (prop::sample::select(heads), vec(prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => 0u8..16, 1 => Just(255u8)], 0..300))
        .prop_map(|((what, mut d), tail)| {
            d.extend(tail);
            repair(&mut d);
            Damaged { what: what.into(), size: None, hex: to_hex(&d) }
        })
        .boxed()
}

fn le(d: &[u8], p: usize, n: usize) -> u64 {
    (0..n).map(|i| (d.get(p + i).copied().unwrap_or(0) as u64) << (8 * i)).sum()
}
fn be(d: &[u8], p: usize, n: usize) -> u64 {
    (0..n).fold(0, |a, i| a << 8 | d.get(p + i).copied().unwrap_or(0) as u64)
}

fn dib_pixels(d: &[u8], p: usize) -> u64 {
    if le(d, p, 4) == 12 {
        le(d, p + 4, 2) * le(d, p + 6, 2)
    } else {
        (le(d, p + 4, 4) as u32 as i32).unsigned_abs() as u64 * (le(d, p + 8, 4) as u32 as i32).unsigned_abs() as u64
    }
}

/// Pixels a decoder may have to create: the search leaves out files that would only need memory
pub fn declared_pixels(d: &[u8]) -> u64 {
    let mut most = 0;
    // Every possible PNG and DIB header, because ICO files contain them anywhere
    for (p, w) in d.windows(4).enumerate() {
        if w == b"IHDR" {
            most = most.max(be(d, p + 4, 4).saturating_mul(be(d, p + 8, 4)));
        }
    }
    if d.starts_with(b"BM") {
        most = most.max(dib_pixels(d, 14));
    }
    if d.starts_with(&[0, 0, 1, 0]) {
        for i in 0..le(d, 4, 2) as usize {
            if 6 + 16 * i > d.len() {
                break;
            }
            most = most.max(dib_pixels(d, le(d, 6 + 16 * i + 12, 4) as usize));
        }
    }
    if d.starts_with(b"GIF") {
        // all possible frame headers
        let mut p = 13 + if le(d, 10, 1) & 0x80 != 0 { 3 << ((le(d, 10, 1) & 7) + 1) } else { 0 };
        while p < d.len() {
            match d[p] {
                0x2C => {
                    most = most.max(le(d, p + 5, 2) * le(d, p + 7, 2));
                    break;
                }
                0x21 => {
                    p += 2;
                    while p < d.len() && d[p] != 0 {
                        p += 1 + d[p] as usize;
                    }
                    p += 1;
                }
                _ => p += 1,
            }
        }
    }
    if d.starts_with(&[0xFF, 0xD8]) {
        for (p, w) in d.windows(2).enumerate() {
            if w[0] == 0xFF && (0xC0..0xD0).contains(&w[1]) && ![0xC4, 0xC8, 0xCC].contains(&w[1]) {
                most = most.max(be(d, p + 5, 2) * be(d, p + 7, 2));
            }
        }
    }
    if d.starts_with(b"RIFF") {
        let (mut w, mut h) = (0, 0);
        // Safety: pointer and length belong to the slice
        if unsafe { libwebp_sys::WebPGetInfo(d.as_ptr(), d.len(), &mut w, &mut h) } != 0 {
            most = most.max(w as u64 * h as u64);
        }
    }
    most
}

const MOST: u64 = 1 << 22;

/// The size in the header of formats where it is found at a fixed place
fn stated(d: &[u8]) -> Option<(u64, u64)> {
    if d.starts_with(b"\x89PNG\r\n\x1a\n") && d.get(12..16) == Some(b"IHDR") {
        Some((be(d, 16, 4), be(d, 20, 4)))
    } else if d.starts_with(b"BM") && le(d, 14, 4) >= 40 {
        Some(((le(d, 18, 4) as u32 as i32).unsigned_abs() as u64, (le(d, 22, 4) as u32 as i32).unsigned_abs() as u64))
    } else {
        None
    }
}

fn judge(what: &str, d: &[u8], size: Option<(u32, u32)>, got: Result<d10_codecs::DecodedImage, d10_codecs::DecodingError>, c: &mut Case) -> Res {
    match got {
        Err(e) => {
            let e = e.to_string();
            ensure!(!e.trim().is_empty(), "empty-message", "{what}: an error without a message");
            c.label(format!("{what}: error"));
        }
        Ok(img) => {
            c.label(format!("{what}: image"));
            let b = &img.buffer;
            let (w, h) = (b.width(), b.height());
            ensure!(is_valid_buffer_size(w, h), "size", "{what}: image of {w}x{h}");
            ensure!(b.data().len() as u64 == w as u64 * h as u64, "pixels", "{what}: {} pixels for {w}x{h}", b.data().len());
            for p in b.data() {
                ensure!(
                    p.data.iter().all(|v| v.is_finite() && *v >= -1e-6 && *v <= 1.0 + 1e-6),
                    "range",
                    "{what}: pixel {:?}",
                    p.data
                );
            }
            if let Some(s) = size {
                ensure!((w, h) == s, "other-size", "{what}: {w}x{h} from a file of {}x{}", s.0, s.1);
            }
            if let Some(s) = stated(d) {
                ensure!((w as u64, h as u64) == s, "other-size", "{what}: {w}x{h}, but the header states {}x{}", s.0, s.1);
            }
        }
    }
    Ok(())
}

fn case(f: &Damaged, c: &mut Case) -> Res {
    let d = from_hex(&f.hex);
    if declared_pixels(&d) > MOST {
        c.label("left out: large");
        return Ok(());
    }
    c.hit_if(d.len() > 2);
    let got = no_panic(|| decode_buffer(&d)).map_err(|p| err("panic", format!("{}: {p}", f.what)))?;
    judge(&f.what, &d, f.size, got, c)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Named {
    ext: String,
    file: Damaged,
}

fn named_case(f: &Named, c: &mut Case) -> Res {
    let d = from_hex(&f.file.hex);
    // the content is unknown, so nothing is declared where the name tells what it is
    let head: &[u8] = match f.ext.as_str() {
        "png" => b"\x89PNG\r\n\x1a\n",
        "bmp" => b"BM",
        "ico" => &[0, 0, 1, 0],
        "gif" => b"GIF",
        "webp" => b"RIFF",
        _ => &[0xFF, 0xD8],
    };
    let mut with = d.clone();
    for (a, b) in with.iter_mut().zip(head) {
        *a = *b;
    }
    if declared_pixels(&with) > MOST || declared_pixels(&d) > MOST {
        c.label("left out: large");
        return Ok(());
    }
    c.hit_if(d.len() > 2);
    let dir = d10_verif::scratch::Dir::new();
    let path = dir.path().join(format!("x.{}", f.ext));
    std::fs::write(&path, &d).map_err(|e| err("scratch", e.to_string()))?;
    let got = no_panic(|| decode_file(&path)).map_err(|p| err("panic", format!("{} as .{}: {p}", f.file.what, f.ext)))?;
    judge(&f.ext, &d, None, got, c)
}

/// The first bytes are gone, the extension decides
fn named() -> BoxedStrategy<Named> {
    (
        prop::sample::select(vec!["png", "jpg", "jpeg", "gif", "bmp", "ico", "webp"]),
        prop_oneof![2 => damaged(12), 1 => random(), 2 => valid(12).prop_map(|f| Damaged { what: f.what, size: None, hex: to_hex(&f.data) })],
        0usize..14,
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(|(ext, mut file, at, v, same)| {
            let mut d = from_hex(&file.hex);
            if let Some(b) = d.get_mut(at) {
                *b = v;
            }
            let ext = if same && !file.what.is_empty() { file.what.clone() } else { ext.to_string() };
            file.hex = to_hex(&d);
            Named { ext, file }
        })
        .boxed()
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        level: "exploration",
        rule: "a content counts if it has more than two bytes and does not declare an image of more than 4 million pixels",
        assumptions: vec![
            "files that declare more than 4 million pixels are left out of the search, because decoding them only takes memory",
            "memory errors are noticed if they end the process",
        ],
        subs: vec![
            sub("damaged", 150_000, 3_000_000, || damaged(14), case),
            sub("large-damaged", 8_000, 80_000, || damaged(80), case),
            sub("large-cut", 5_000, 50_000, || cut(80), case),
            sub("cut", 30_000, 400_000, || cut(14), case),
            sub("random", 50_000, 600_000, random, case),
            sub("named", 15_000, 200_000, named, named_case),
        ],
    }
}
