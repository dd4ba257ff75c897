//! C19 files with metadata, of any length, and with data after the end of the image
use super::writers::*;
use d10::Image;
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use d10_verif::scratch::Dir;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Plain {
    Png(PngFile),
    Bmp(BmpFile),
    Gif(GifFile),
    Jpeg(JpegFile),
    Webp(WebpFile),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Padded {
    file: Plain,
    /// place, kind, length and content of the inserted parts
    parts: Vec<(u8, u8, u32, u8)>,
    tail: u32,
    tail_kind: u8,
}

fn filler(len: u32, kind: u8) -> Vec<u8> {
    match kind % 4 {
        0 => vec![0; len as usize],
        1 => vec![0xFF; len as usize],
        2 => (0..len).map(|i| b"the quick brown fox "[i as usize % 20]).collect(),
        _ => (0..len).map(|i| (mix(i ^ (kind as u32) << 20) >> 9) as u8).collect(),
    }
}

fn mix(v: u32) -> u32 {
    let z = (v ^ (v >> 16)).wrapping_mul(0x7feb_352d);
    (z ^ (z >> 15)).wrapping_mul(0x846c_a68b)
}

/// Offsets of the chunks of a PNG file between which ancillary ones are allowed
fn png_places(f: &[u8]) -> Vec<usize> {
    let mut at = 8;
    let mut out = vec![];
    let mut prev = *b"    ";
    while at + 8 <= f.len() {
        let n = u32::from_be_bytes(f[at..at + 4].try_into().unwrap()) as usize;
        let kind: [u8; 4] = f[at + 4..at + 8].try_into().unwrap();
        let data = |k: &[u8; 4]| k == b"IDAT" || k == b"fdAT" || k == b"fcTL" || k == b"acTL";
        // neither before the header, nor between data chunks, nor within an animation
        if at > 8 && !(data(&kind) && data(&prev)) {
            out.push(at);
        }
        prev = kind;
        at += n + 12;
    }
    out
}

/// Offsets of the segments of a JPEG file up to the first scan, but the one behind the start marker
/// that belongs to JFIF
fn jpeg_places(f: &[u8]) -> Vec<usize> {
    let mut at = 2;
    let mut out = vec![];
    while f[at] == 0xFF && f[at + 1] != 0xDA {
        if f[at + 1] != 0xE0 {
            out.push(at);
        }
        at += 2 + u16::from_be_bytes([f[at + 2], f[at + 3]]) as usize;
    }
    out.push(at);
    out
}

fn insert(out: &mut Vec<u8>, at: usize, part: &[u8]) {
    out.splice(at..at, part.iter().copied());
}

impl Padded {
    fn write(&self) -> Option<(String, Vec<u8>, Vec<u8>)> {
        let (name, plain) = match &self.file {
            Plain::Png(f) => ("png", f.write()),
            Plain::Bmp(f) => ("bmp", f.write()),
            Plain::Gif(f) => ("gif", f.write()),
            Plain::Jpeg(f) => ("jpeg", f.write()?),
            Plain::Webp(f) => ("webp", f.write()?),
        };
        let mut out = plain.clone();
        for (place, kind, len, content) in &self.parts {
            let data = filler(*len, *content);
            match &self.file {
                Plain::Png(_) => {
                    let places = png_places(&out);
                    let mut chunk = vec![];
                    match kind % 4 {
                        0 => png_chunk(&mut chunk, b"abCd", &data),
                        1 => png_chunk(&mut chunk, b"tEXt", &[b"Comment\0", &filler(*len, 2)[..]].concat()),
                        2 => png_chunk(&mut chunk, b"iTXt", &[b"Comment\0\0\0en\0Comment\0", &filler(*len, 2)[..]].concat()),
                        _ => png_chunk(&mut chunk, b"xyZz", &data),
                    }
                    insert(&mut out, places[*place as usize % places.len()], &chunk);
                }
                Plain::Gif(f) => {
                    if f.old {
                        continue;
                    }
                    let at = 13 + if out[10] & 0x80 != 0 { 3usize << (1 + (out[10] & 7)) } else { 0 };
                    let mut part = match kind % 3 {
                        0 | 1 => vec![0x21, 0xFE],
                        _ => b"\x21\xFF\x0BXMP DataXMP".to_vec(),
                    };
                    for b in data.chunks(1 + (*place as usize).min(254)) {
                        part.push(b.len() as u8);
                        part.extend(b);
                    }
                    part.push(0);
                    insert(&mut out, at, &part);
                }
                Plain::Jpeg(_) => {
                    let places = jpeg_places(&out);
                    let mut part = vec![];
                    for b in data.chunks(65_000) {
                        let marker = [0xFE, 0xE1, 0xE2, 0xE5, 0xED, 0xEF][*kind as usize % 6];
                        part.extend([0xFF, marker]);
                        part.extend((b.len() as u16 + 2).to_be_bytes());
                        part.extend(b);
                    }
                    insert(&mut out, places[*place as usize % places.len()], &part);
                }
                Plain::Webp(f) => {
                    if !f.extended {
                        continue;
                    }
                    // behind the header or at the end
                    let at = if place % 2 == 0 { 30 } else { out.len() };
                    let mut part = b"abcd".to_vec();
                    part.extend((*len).to_le_bytes());
                    part.extend(&data);
                    if len % 2 == 1 {
                        part.push(0);
                    }
                    insert(&mut out, at, &part);
                    let n = out.len() as u32 - 8;
                    out[4..8].copy_from_slice(&n.to_le_bytes());
                }
                Plain::Bmp(_) => {
                    let at = u32::from_le_bytes(out[10..14].try_into().unwrap());
                    insert(&mut out, at as usize, &data);
                    out[10..14].copy_from_slice(&(at + len).to_le_bytes());
                    let n = out.len() as u32;
                    out[2..6].copy_from_slice(&n.to_le_bytes());
                }
            }
        }
        out.extend(filler(self.tail, self.tail_kind));
        Some((name.into(), plain, out))
    }
}

pub fn padded_case(v: &Padded, c: &mut Case) -> Res {
    let (name, plain, padded) = v.write().ok_or_else(|| err("writer", "no file"))?;
    let what = format!("{name} with {} further bytes", padded.len() - plain.len());
    c.label(name.clone());
    c.label_if(padded.len() > 1 << 20, "more than 1 MB");
    c.label_if(v.tail > 0, "data after the end");
    c.hit_if(padded.len() > plain.len());
    let want = Image::read_from_buffer(&plain).map_err(|e| err("decode", format!("{name}: {e}")))?;
    // known: the gif crate takes the end of an extension without any data for the size of its first block
    let empty = matches!(&v.file, Plain::Gif(f) if !f.old) && v.parts.iter().any(|p| p.2 == 0 && p.1 % 3 < 2);
    let sig = if empty { "gif-empty-extension" } else { "padded-decode" };
    let got = Image::read_from_buffer(&padded).map_err(|e| err(sig, format!("{what}: {e}")))?;
    let sig = if empty { sig } else { "padded-value" };
    ensure!(Img::from_buf(got.buffer()) == Img::from_buf(want.buffer()), sig, "{what}: another image");
    let dir = Dir::new();
    let path = dir.path().join("file");
    std::fs::write(&path, &padded).unwrap();
    let got = Image::open(&path).map_err(|e| err("padded-open", format!("{what}: {e}")))?;
    ensure!(Img::from_buf(got.buffer()) == Img::from_buf(want.buffer()), "padded-value", "{what}: another image from a file");
    Ok(())
}

pub fn padded(max: u32) -> BoxedStrategy<Padded> {
    let file = prop_oneof![
        png_file(12).prop_map(Plain::Png),
        bmp_file(12).prop_map(Plain::Bmp),
        gif_file(12).prop_map(Plain::Gif),
        jpeg_file(20).prop_map(Plain::Jpeg),
        webp_file(12).prop_map(|mut f| {
            f.extended = true;
            Plain::Webp(f)
        }),
    ];
    let len = move || prop_oneof![3 => 1..=max, 2 => 1u32..=300, 1 => prop::sample::select(vec![0u32, 1, 4095u32, 4096, 8191, 8192, 65_536]).prop_map(move |v| v.min(max))];
    (file, vec((any::<u8>(), any::<u8>(), len().prop_map(move |l| if max > 100_000 { l.max(1) } else { l }), any::<u8>()), 0..4), prop_oneof![2 => Just(0), 1 => len()], any::<u8>())
        .prop_map(|(file, parts, tail, tail_kind)| Padded { file, parts, tail, tail_kind })
        .boxed()
}
