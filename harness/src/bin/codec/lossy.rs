//! C17 lossy encoders and their options
use super::fmts::*;
use super::lossless::{limits_case, limits_strategy};
use d10::{Color, EncodingFormat, Image};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use proptest::prelude::*;

/// Structure of a JPEG file
#[derive(Debug, PartialEq, Clone)]
pub struct Jpeg {
    pub sof: u8,
    pub w: u32,
    pub h: u32,
    pub factors: Vec<(u8, u8)>,
    pub tables: Vec<(u8, Vec<u16>)>,
    pub huffman: Vec<Vec<u8>>,
    pub scans: usize,
}

pub fn parse_jpeg(f: &[u8]) -> Result<Jpeg, String> {
    let mut j = Jpeg { sof: 0, w: 0, h: 0, factors: vec![], tables: vec![], huffman: vec![], scans: 0 };
    if !f.starts_with(&[0xFF, 0xD8]) || !f.ends_with(&[0xFF, 0xD9]) {
        return Err("start or end marker".into());
    }
    let mut i = 2;
    while i + 4 <= f.len() {
        if f[i] != 0xFF {
            return Err(format!("no marker at {i}"));
        }
        let m = f[i + 1];
        if m == 0xD9 {
            break;
        }
        let len = f[i + 2] as usize * 256 + f[i + 3] as usize;
        let s = f.get(i + 4..i + 2 + len).ok_or("segment beyond the end")?;
        match m {
            0xC0 | 0xC1 | 0xC2 => {
                j.sof = m;
                j.h = s[1] as u32 * 256 + s[2] as u32;
                j.w = s[3] as u32 * 256 + s[4] as u32;
                for k in 0..s[5] as usize {
                    let v = s[7 + k * 3];
                    j.factors.push((v >> 4, v & 15));
                }
            }
            0xDB => {
                let mut p = 0;
                while p < s.len() {
                    let wide = s[p] >> 4 != 0;
                    let id = s[p] & 15;
                    p += 1;
                    let n = if wide { 128 } else { 64 };
                    let t = s.get(p..p + n).ok_or("table")?;
                    j.tables.push((id, if wide { t.chunks(2).map(|c| c[0] as u16 * 256 + c[1] as u16).collect() } else { t.iter().map(|v| *v as u16).collect() }));
                    p += n;
                }
            }
            0xC4 => j.huffman.push(s.to_vec()),
            0xDA => {
                j.scans += 1;
                i += 2 + len;
                // entropy coded data
                while i + 1 < f.len() && !(f[i] == 0xFF && f[i + 1] != 0 && !(0xD0..=0xD7).contains(&f[i + 1])) {
                    i += 1;
                }
                continue;
            }
            _ => {}
        }
        i += 2 + len;
    }
    j.tables.sort();
    Ok(j)
}

fn reference_jpeg(spec: &Spec, img: &Img) -> Option<Vec<u8>> {
    let Spec::Jpeg { quality, progressive, sampling, gray, huff } = spec else { return None };
    let q = (*quality).clamp(1, 100);
    let mut out = vec![];
    let mut e = jpeg_encoder::Encoder::new(&mut out, q);
    if let Some(s) = sampling {
        e.set_sampling_factor(jpeg_encoder::SamplingFactor::from_factors(SAMPLING[*s as usize].1, SAMPLING[*s as usize].2)?);
    }
    e.set_progressive(*progressive);
    e.set_optimized_huffman_tables(*huff);
    let mut data = vec![];
    for p in &img.data {
        let s = samples(*p, *gray, 255.0);
        if *gray {
            data.push(s[0].round() as u8);
        } else {
            data.extend(s[..3].iter().map(|v| v.round() as u8));
        }
    }
    e.encode(&data, img.w as u16, img.h as u16, if *gray { jpeg_encoder::ColorType::Luma } else { jpeg_encoder::ColorType::Rgb }).ok()?;
    Some(out)
}

fn srgb(p: Px) -> [f64; 3] {
    let s = samples(p, false, 255.0);
    [s[0], s[1], s[2]]
}

fn rms(a: &Img, b: &Img, gray: bool) -> f64 {
    let s: f64 = a
        .data
        .iter()
        .zip(&b.data)
        .map(|(a, b)| {
            let (x, y) = (samples(*a, gray, 255.0), samples(*b, false, 255.0));
            (0..3).map(|i| (x[i] - y[i]).powi(2)).sum::<f64>()
        })
        .sum();
    (s / (3 * a.data.len()) as f64).sqrt()
}

fn enc(im: &Image, spec: &Spec) -> Result<Vec<u8>, Fail> {
    im.save_to_buffer(spec.format()).map_err(|e| err("encode", format!("{}: {e}", spec.name())))
}

fn dec(f: &[u8], what: &str) -> Result<Img, Fail> {
    let d = Image::read_from_buffer(f).map_err(|e| err("decode", format!("{what}: {e}")))?;
    Ok(Img::from_buf(d.buffer()))
}

fn jpeg_case(v: &(Spec, Img), c: &mut Case) -> Res {
    let (spec, img) = v;
    let Spec::Jpeg { quality, progressive, sampling, gray, huff } = spec.clone() else { return Ok(()) };
    let what = format!("{} {}x{}", spec.name(), img.w, img.h);
    let im = Image::new_from_buffer(img.buf());
    let file = enc(&im, spec)?;
    ensure!(enc(&im, spec)? == file, "deterministic", "{what}: two different files for the same image");
    if let Spec::Jpeg { quality, progressive: false, sampling: None, gray: false, huff: true } = spec {
        c.label("only a quality");
        let short = im.save_to_buffer(EncodingFormat::jpeg_with_quality(*quality)).ok();
        ensure!(short.as_ref() == Some(&file), "short", "{what}: with only a quality the file differs");
    }
    let j = parse_jpeg(&file).map_err(|e| err("structure", format!("{what}: {e}")))?;
    ensure!((j.w, j.h) == (img.w, img.h), "file-size", "{what}: header says {}x{}", j.w, j.h);
    ensure!((j.sof == 0xC2) == progressive, "progressive", "{what}: frame marker {:x}", j.sof);
    ensure!((j.scans > 3) == progressive, "progressive", "{what}: {} scans", j.scans);
    ensure!(j.factors.len() == if gray { 1 } else { 3 }, "grayscale", "{what}: {} components", j.factors.len());
    let r = reference_jpeg(spec, img).ok_or_else(|| err("reference", what.clone()))?;
    let rj = parse_jpeg(&r).map_err(|e| err("reference", e))?;
    if let (Some(s), false) = (sampling, gray) {
        let (_, h, v) = SAMPLING[s as usize];
        ensure!(j.factors[0] == (h, v) && j.factors[1] == (1, 1) && j.factors[2] == (1, 1), "sampling", "{what}: factors {:?}", j.factors);
        c.label("explicit sampling");
    } else if !gray {
        ensure!(j.factors == rj.factors, "sampling", "{what}: factors {:?} instead of the default {:?}", j.factors, rj.factors);
    }
    ensure!(j.tables == rj.tables, "quality", "{what}: quantisation tables do not belong to the quality");
    if !huff && !progressive {
        ensure!(j.huffman == rj.huffman, "huffman", "{what}: not the standard Huffman tables");
    }
    if huff && !progressive {
        let s = Spec::Jpeg { quality, progressive, sampling, gray, huff: false };
        let standard = parse_jpeg(&enc(&im, &s)?).map_err(|e| err("structure", e))?;
        ensure!(j.huffman != standard.huffman || rj.huffman == standard.huffman, "huffman", "{what}: the Huffman tables are not optimised");
    }
    let out = dec(&file, &what)?;
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: loaded {}x{}", out.w, out.h);
    for (i, g) in out.data.iter().enumerate() {
        ensure!(g[3] == 1.0 && g.iter().all(|v| (0.0..=1.0).contains(v)), "range", "{what}: pixel {i} {g:?}");
        ensure!(!gray || (g[0] == g[1] && g[1] == g[2]), "gray", "{what}: pixel {i} {g:?}");
    }
    // the entropy coding has no influence on the pixels
    for (p, h) in [(!progressive, huff), (progressive, !huff)] {
        let s = Spec::Jpeg { quality, progressive: p, sampling, gray, huff: h };
        ensure!(dec(&enc(&im, &s)?, &s.name())? == out, "entropy", "{what}: other pixels than {}", s.name());
    }
    // as good as the same file of another encoder of the same samples
    let ref_img = dec(&r, &what)?;
    let (e, re) = (rms(img, &out, gray), rms(img, &ref_img, gray));
    // one step of the coarsest mean value: samples that differ by one may be quantised differently
    let step = j.tables.iter().map(|(_, t)| t[0]).max().unwrap_or(0) as f64 / 8.0;
    let few = if img.data.len() < 100 { 10.0 * step } else { 2.0 * step };
    ensure!(e <= re * 1.5 + 2.0 + few, "distortion", "{what}: error {e}, expected {re}");
    c.hit_if(img.distinct() > 1);
    c.label(if gray { "gray" } else { "color" });
    c.label_if(progressive, "progressive");
    Ok(())
}

/// The best quality keeps the colours
fn best_case(v: &(Img, bool, bool), c: &mut Case) -> Res {
    let (img, progressive, gray) = v;
    let spec = Spec::Jpeg { quality: 100, progressive: *progressive, sampling: Some(0), gray: *gray, huff: true };
    let what = format!("{} {}x{}", spec.name(), img.w, img.h);
    let out = dec(&enc(&Image::new_from_buffer(img.buf()), &spec)?, &what)?;
    for (i, (p, g)) in img.data.iter().zip(&out.data).enumerate() {
        let want = samples(*p, *gray, 255.0);
        let got = srgb(*g);
        for k in 0..3 {
            ensure!((want[k] - got[k]).abs() < 8.0, "best", "{what}: pixel {i} {want:?} became {got:?}");
        }
    }
    c.hit_if(img.distinct() > 1);
    Ok(())
}

/// A smooth image
fn smooth(a: Px, b: Px, w: u32, h: u32) -> Img {
    let mut d = vec![];
    for y in 0..h {
        for x in 0..w {
            let t = (x + y) as f32 / (w + h) as f32;
            d.push(std::array::from_fn(|i| a[i] * (1.0 - t) + b[i] * t));
        }
    }
    Img::new(w, h, d)
}

/// Quality orders the files and their errors
fn order_case(v: &(Spec, Px, Px, u32, u32, u8, u8), c: &mut Case) -> Res {
    let (spec, a, b, w, h, q1, q2) = v;
    let (q1, q2) = (*q1.min(q2), *q1.max(q2));
    let img = smooth(*a, *b, *w, *h);
    let im = Image::new_from_buffer(img.buf());
    let with = |q: u8| match spec.clone() {
        Spec::Jpeg { progressive, sampling, gray, huff, .. } => Spec::Jpeg { quality: q, progressive, sampling, gray, huff },
        Spec::WebP { preset, .. } => Spec::WebP { quality: q, preset },
        s => s,
    };
    let gray = matches!(spec, Spec::Jpeg { gray: true, .. });
    let opaque = |mut i: Img| {
        i.data.iter_mut().for_each(|p| p[3] = 1.0);
        i
    };
    let mut e = vec![];
    for q in [q1, q2] {
        let f = enc(&im, &with(q))?;
        let out = dec(&f, &with(q).name())?;
        let err = rms(&img, &out, gray);
        let what = format!("{} of a gradient {a:?} to {b:?} {w}x{h}", with(q).name());
        // with alpha the colour of transparent pixels is free
        if opaque(img.clone()) == img {
            // without subsampling the error is that of the quantisation
            let full = matches!(spec, Spec::Jpeg { sampling: Some(0), .. } | Spec::Jpeg { gray: true, .. });
            ensure!(q < 50 || err < if full { 14.0 } else { 25.0 }, "good", "{what}: error {err}");
            ensure!(q < 90 || err < if full { 7.0 } else { 20.0 }, "good", "{what}: error {err}");
            ensure!(err < 90.0, "bad", "{what}: error {err}");
            e.push(err);
        }
    }
    if let [e1, e2] = e[..] {
        ensure!(e2 <= e1 + if q2 >= q1 + 20 { 3.0 } else { 10.0 }, "order", "{} of a gradient {a:?} to {b:?} {w}x{h}: error {e1} with quality {q1}, {e2} with {q2}", spec.name());
    }
    if let Spec::Jpeg { .. } = spec {
        let t = |q: u8| -> Result<u64, Fail> {
            let j = parse_jpeg(&enc(&im, &with(q))?).map_err(|e| err("structure", e))?;
            Ok(j.tables.iter().map(|(_, t)| t.iter().map(|v| *v as u64).sum::<u64>()).sum())
        };
        ensure!(q1 == q2 || t(q2)? <= t(q1)?, "order", "{}: coarser tables for quality {q2} than for {q1}", spec.name());
        // out of range is the nearest valid quality
        ensure!(enc(&im, &with(0))? == enc(&im, &with(1))?, "clamp", "{}: quality 0 is not 1", spec.name());
    }
    let over = 101 + (q1 % 155);
    ensure!(enc(&im, &with(over))? == enc(&im, &with(100))?, "clamp", "{}: quality {over} is not 100", spec.name());
    c.hit_if(img.distinct() > 1 && q1 != q2);
    c.label(spec.kind());
    Ok(())
}

fn order_strategy() -> BoxedStrategy<(Spec, Px, Px, u32, u32, u8, u8)> {
    let o = |p: Px| [p[0], p[1], p[2], 1.0];
    (
        prop_oneof![2 => jpeg_spec(), 1 => (0u8..6).prop_map(|preset| Spec::WebP { quality: 0, preset })],
        px().prop_map(o),
        px().prop_map(o),
        16u32..=40,
        16u32..=40,
        1u8..=100,
        1u8..=100,
    )
        .boxed()
}

/// Encodes by libwebp
fn reference_webp(argb: &[u32], w: u32, h: u32, quality: f32, preset: u8) -> Option<Vec<u8>> {
    use libwebp_sys::WebPPreset::*;
    let p = [WEBP_PRESET_DEFAULT, WEBP_PRESET_PICTURE, WEBP_PRESET_PHOTO, WEBP_PRESET_DRAWING, WEBP_PRESET_ICON, WEBP_PRESET_TEXT]
        [preset as usize];
    unsafe {
        let config = libwebp_sys::WebPConfig::new_with_preset(p, quality).ok()?;
        let mut pic = libwebp_sys::WebPPicture::new().ok()?;
        let mut wr: libwebp_sys::WebPMemoryWriter = std::mem::zeroed();
        libwebp_sys::WebPMemoryWriterInit(&mut wr);
        pic.use_argb = 1;
        pic.width = w as i32;
        pic.height = h as i32;
        pic.argb = argb.as_ptr() as *mut u32;
        pic.argb_stride = w as i32;
        pic.writer = Some(libwebp_sys::WebPMemoryWrite);
        pic.custom_ptr = &mut wr as *mut _ as *mut _;
        let ok = libwebp_sys::WebPEncode(&config, &mut pic);
        libwebp_sys::WebPPictureFree(&mut pic);
        let out = std::slice::from_raw_parts(wr.mem, wr.size).to_vec();
        libwebp_sys::WebPMemoryWriterClear(&mut wr);
        (ok != 0).then_some(out)
    }
}

fn webp_case(v: &(u8, u8, Raw), c: &mut Case) -> Res {
    let (quality, preset, raw) = v;
    let spec = Spec::WebP { quality: *quality, preset: *preset };
    let what = format!("{} {}x{}", spec.name(), raw.w, raw.h);
    let img = img_of_samples(raw.w, raw.h, &raw.data, 255.0);
    let im = Image::new_from_buffer(img.buf());
    let file = enc(&im, &spec)?;
    ensure!(enc(&im, &spec)? == file, "deterministic", "{what}: two different files for the same image");
    let short = im.save_to_buffer(EncodingFormat::webp_with_preset(*quality, PRESETS[*preset as usize].1)).ok();
    ensure!(short.as_ref() == Some(&file), "short", "{what}: another file by webp_with_preset");
    if *preset == 0 {
        let short = im.save_to_buffer(EncodingFormat::webp_with_quality(*quality)).ok();
        ensure!(short.as_ref() == Some(&file), "short", "{what}: another file by webp_with_quality");
    }
    ensure!(&file[..4] == b"RIFF" && &file[8..12] == b"WEBP", "structure", "{what}: no WebP container");
    let lossless = *preset == 6;
    let has = |id: &[u8]| {
        let mut p = 12;
        while p + 8 <= file.len() {
            if &file[p..p + 4] == id {
                return true;
            }
            let n = u32::from_le_bytes(file[p + 4..p + 8].try_into().unwrap()) as usize;
            p += 8 + n + (n & 1);
        }
        false
    };
    ensure!(has(b"VP8L") == lossless && has(b"VP8 ") != lossless, "structure", "{what}: wrong kind of compression");
    let out = dec(&file, &what)?;
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: loaded {}x{}", out.w, out.h);
    for (i, (p, g)) in img.data.iter().zip(&out.data).enumerate() {
        ensure!(g.iter().all(|v| (0.0..=1.0).contains(v)), "range", "{what}: pixel {i} {g:?}");
        // alpha is stored without loss
        ensure!((p[3] - g[3]).abs() <= 1.01 / 255.0, "alpha", "{what}: pixel {i} {p:?} became {g:?}");
    }
    if !lossless {
        // the options are those of the file: compare with an encoder of the same settings, for each kind of rounding
        let q = (*quality).min(100) as f32;
        let kinds: [fn(f32) -> u8; 3] = [
            |v| (v * 255.0).clamp(0.0, 255.0) as u8,
            |v| (v * 255.0 + 0.01).clamp(0.0, 255.0) as u8,
            |v| (v * 255.0).clamp(0.0, 255.0).round() as u8,
        ];
        let mut ok = false;
        for k in kinds {
            let argb: Vec<u32> = im
                .data()
                .iter()
                .map(|p| {
                    let s = p.to_srgb();
                    u32::from_be_bytes([k(s.alpha()), k(s.data[0]), k(s.data[1]), k(s.data[2])])
                })
                .collect();
            let r = reference_webp(&argb, raw.w, raw.h, q, *preset).ok_or_else(|| err("reference", what.clone()))?;
            if r == file {
                ok = true;
                break;
            }
        }
        ensure!(ok, "options", "{what}: not the file an encoder with these options makes");
    }
    c.hit_if(img.distinct() > 1);
    c.label(PRESETS[*preset as usize].0);
    Ok(())
}

/// GIF with more colours than its palette has
fn gif_case(v: &Raw, c: &mut Case) -> Res {
    let img = img_of_samples(v.w, v.h, &v.data, 255.0);
    let what = format!("gif {}x{} of {} colors", v.w, v.h, img.distinct());
    let im = Image::new_from_buffer(img.buf());
    let file = enc(&im, &Spec::Gif)?;
    let out = dec(&file, &what)?;
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: loaded {}x{}", out.w, out.h);
    ensure!(out.distinct() <= 256, "colors", "{what}: {} colors loaded", out.distinct());
    let visible: Vec<usize> = (0..img.data.len()).filter(|i| img.data[*i][3] > 0.0).collect();
    let mut s = 0.0;
    for i in &visible {
        let (a, b) = (srgb(img.data[*i]), srgb(out.data[*i]));
        s += (0..3).map(|k| (a[k] - b[k]).powi(2)).sum::<f64>();
    }
    let e = (s / (3 * visible.len()).max(1) as f64).sqrt();
    ensure!(e < 60.0, "colors", "{what}: error {e} of the visible pixels");
    let opaque = img.data.iter().all(|p| p[3] > 0.0);
    ensure!(!opaque || out.data.iter().all(|p| p[3] == 1.0), "alpha", "{what}: opaque image became transparent");
    c.hit_if(img.distinct() > 256);
    c.label_if(opaque, "opaque");
    Ok(())
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        level: "exploration",
        rule: "an image counts if it has different pixels (order: and two different qualities, GIF: more than 256 colours), a size near the limit of the format always",
        assumptions: vec![
            "jpeg-encoder and libwebp, called directly with the same options, serve as reference for tables and bytes",
            "errors are root mean squares of sRGB samples (0 to 255)",
        ],
        subs: vec![
            sub("jpeg", 6_000, 150_000, || (jpeg_spec(), img(40)), jpeg_case),
            sub("large-jpeg", 300, 6_000, || (jpeg_spec(), big(40_000)), jpeg_case),
            sub("huge-jpeg", 8, 150, || (jpeg_spec(), noise(1_000_000)), jpeg_case),
            sub("huge-webp", 4, 60, || (prop_oneof![1 => 0u8..=100, 2 => 80u8..=100], 0u8..6, noise(2_000_000)), |(q, p, i): &(u8, u8, Img), c: &mut Case| {
                let data = i.data.iter().map(|p| p.map(|v| (v * 255.0).round() as u32)).collect::<Vec<_>>();
                webp_case(&(*q, *p, Raw { w: i.w, h: i.h, data }), c)
            }),
            sub("large-best", 200, 4_000, || (big(40_000), any::<bool>(), any::<bool>()), best_case),
            sub("large-webp", 150, 3_000, || (prop_oneof![4 => 0u8..=100, 1 => any::<u8>()], 0u8..7, raw(dims(70), 255, false, false)), webp_case),
            sub("large-gif", 30, 500, || raw((100u32..200, 100u32..200).boxed(), 255, false, false), gif_case),
            sub("best", 2_000, 50_000, || (img(24), any::<bool>(), any::<bool>()), best_case),
            sub("order", 1_500, 40_000, order_strategy, order_case),
            sub("webp", 2_500, 60_000, || (prop_oneof![4 => 0u8..=100, 1 => any::<u8>()], 0u8..7, raw(dims(24), 255, false, false)), webp_case),
            sub("gif", 300, 6_000, || raw((17u32..40, 17u32..40).boxed(), 255, false, false), gif_case),
            sub("limits", 160, 1_500, || limits_strategy(prop_oneof![2 => jpeg_spec(), 1 => webp_spec()].boxed()), limits_case),
        ],
    }
}
