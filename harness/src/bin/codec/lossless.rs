//! C16 lossless formats
use super::fmts::*;
use d10::Image;
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use d10_verif::refmath::*;
use proptest::prelude::*;

/// What an independent reader finds in a file
pub struct Seen {
    pub w: u32,
    pub h: u32,
    /// channels stored in the file: 1 gray, 2 gray and alpha, 3, 4
    pub channels: u32,
    pub max: u32,
    pub data: Vec<[u32; 4]>,
}

pub fn read_png(file: &[u8]) -> Result<Seen, String> {
    let d = png::Decoder::new(file);
    let mut r = d.read_info().map_err(|e| e.to_string())?;
    let mut buf = vec![0; r.output_buffer_size()];
    let info = r.next_frame(&mut buf).map_err(|e| e.to_string())?;
    r.finish().map_err(|e| format!("end of file: {e}"))?;
    let ch = info.color_type.samples() as u32;
    let max = match info.bit_depth {
        png::BitDepth::Eight => 255,
        png::BitDepth::Sixteen => 65535,
        b => return Err(format!("depth {b:?}")),
    };
    let vals: Vec<u32> = if max == 255 {
        buf[..info.buffer_size()].iter().map(|v| *v as u32).collect()
    } else {
        buf[..info.buffer_size()].chunks(2).map(|v| v[0] as u32 * 256 + v[1] as u32).collect()
    };
    if info.color_type == png::ColorType::Indexed {
        return Err("indexed".into());
    }
    let data = vals
        .chunks(ch as usize)
        .map(|c| match ch {
            1 => [c[0], c[0], c[0], max],
            2 => [c[0], c[0], c[0], c[1]],
            3 => [c[0], c[1], c[2], max],
            _ => [c[0], c[1], c[2], c[3]],
        })
        .collect();
    if !file.ends_with(&[0, 0, 0, 0, b'I', b'E', b'N', b'D', 0xAE, 0x42, 0x60, 0x82]) {
        return Err("no end chunk".into());
    }
    Ok(Seen { w: info.width, h: info.height, channels: ch, max, data })
}

fn le(b: &[u8], at: usize, n: usize) -> Result<u64, String> {
    let s = b.get(at..at + n).ok_or_else(|| format!("file ends at {at}"))?;
    Ok(s.iter().rev().fold(0, |a, v| a * 256 + *v as u64))
}

pub fn read_bmp(f: &[u8]) -> Result<Seen, String> {
    if !f.starts_with(b"BM") {
        return Err("no BM".into());
    }
    if le(f, 2, 4)? != f.len() as u64 {
        return Err(format!("file size field {} of {}", le(f, 2, 4)?, f.len()));
    }
    let off = le(f, 10, 4)? as usize;
    let head = le(f, 14, 4)? as usize;
    let (w, h) = (le(f, 18, 4)? as u32, le(f, 22, 4)? as i32);
    let bpp = le(f, 28, 2)? as usize;
    let comp = le(f, 30, 4)?;
    let flip = h > 0;
    let h = h.unsigned_abs();
    let stride = (w as usize * bpp).div_ceil(32) * 4;
    if f.len() != off + stride * h as usize {
        return Err(format!("length {} instead of {}", f.len(), off + stride * h as usize));
    }
    let mut channels = 3;
    let mut data = vec![];
    for y in 0..h as usize {
        let row = &f[off + stride * if flip { h as usize - 1 - y } else { y }..];
        for x in 0..w as usize {
            data.push(match (bpp, comp) {
                (8, 0) => {
                    let p = 14 + head + row[x] as usize * 4;
                    if p + 4 > off {
                        return Err("palette index".into());
                    }
                    channels = 1;
                    [f[p + 2] as u32, f[p + 1] as u32, f[p] as u32, 255]
                }
                (24, 0) => [row[x * 3 + 2] as u32, row[x * 3 + 1] as u32, row[x * 3] as u32, 255],
                (32, 3) => {
                    if (le(f, 54, 4)?, le(f, 58, 4)?, le(f, 62, 4)?) != (0xff0000, 0xff00, 0xff) {
                        return Err("masks".into());
                    }
                    channels = 4;
                    let a = if head >= 56 && le(f, 66, 4)? == 0xff000000 { row[x * 4 + 3] as u32 } else { 255 };
                    [row[x * 4 + 2] as u32, row[x * 4 + 1] as u32, row[x * 4] as u32, a]
                }
                b => return Err(format!("depth {b:?}")),
            });
        }
    }
    Ok(Seen { w, h, channels, max: 255, data })
}

pub fn read_ico(f: &[u8]) -> Result<Seen, String> {
    if le(f, 0, 4)? != 0x10000 || le(f, 4, 2)? != 1 {
        return Err("directory".into());
    }
    let d = |v: u64| if v == 0 { 256 } else { v as u32 };
    let (w, h) = (d(le(f, 6, 1)?), d(le(f, 7, 1)?));
    let (len, off) = (le(f, 14, 4)? as usize, le(f, 18, 4)? as usize);
    if off + len != f.len() {
        return Err("entry size".into());
    }
    let s = read_png(&f[off..])?;
    if (s.w, s.h) != (w, h) {
        return Err(format!("directory says {w}x{h}, image {}x{}", s.w, s.h));
    }
    if s.channels != 4 || s.max != 255 {
        return Err("icons of PNG type must have 32 bits per pixel".into());
    }
    Ok(s)
}

pub fn read_gif(f: &[u8]) -> Result<Seen, String> {
    let mut o = gif::DecodeOptions::new();
    o.set_color_output(gif::ColorOutput::RGBA);
    let mut d = o.read_info(f).map_err(|e| e.to_string())?;
    let (sw, sh) = (d.width() as u32, d.height() as u32);
    let (w, h, data) = {
        let fr = d.read_next_frame().map_err(|e| e.to_string())?.ok_or("no frame")?;
        if (fr.left, fr.top) != (0, 0) || (fr.width as u32, fr.height as u32) != (sw, sh) {
            return Err("frame does not cover the screen".into());
        }
        (fr.width as u32, fr.height as u32, fr.buffer.chunks(4).map(|c| [c[0] as u32, c[1] as u32, c[2] as u32, c[3] as u32]).collect())
    };
    if d.read_next_frame().map_err(|e| e.to_string())?.is_some() {
        return Err("more than one frame".into());
    }
    if f.last() != Some(&0x3B) {
        return Err("no trailer".into());
    }
    Ok(Seen { w, h, channels: 4, max: 255, data })
}

pub fn read_webp(f: &[u8]) -> Result<Seen, String> {
    if f.len() < 16 || &f[0..4] != b"RIFF" || &f[8..12] != b"WEBP" || le(f, 4, 4)? as usize + 8 != f.len() {
        return Err("container".into());
    }
    let (mut w, mut h) = (0, 0);
    unsafe {
        let p = libwebp_sys::WebPDecodeRGBA(f.as_ptr(), f.len(), &mut w, &mut h);
        if p.is_null() {
            return Err("libwebp refuses the file".into());
        }
        let d = std::slice::from_raw_parts(p, (w * h * 4) as usize)
            .chunks(4)
            .map(|c| [c[0] as u32, c[1] as u32, c[2] as u32, c[3] as u32])
            .collect();
        libwebp_sys::WebPFree(p as *mut _);
        Ok(Seen { w: w as u32, h: h as u32, channels: 4, max: 255, data: d })
    }
}

pub fn read(spec: &Spec, file: &[u8]) -> Result<Seen, String> {
    match spec {
        Spec::Png { .. } => read_png(file),
        Spec::Bmp { .. } => read_bmp(file),
        Spec::Ico { .. } => read_ico(file),
        Spec::Gif => read_gif(file),
        Spec::WebP { .. } => read_webp(file),
        Spec::Jpeg { .. } => Err("not here".into()),
    }
}

/// (gray, has alpha, largest sample)
pub fn traits(spec: &Spec) -> (bool, bool, u32) {
    match spec {
        Spec::Png { ct, .. } => ([0, 1, 2, 3].contains(ct), [1, 3, 5, 7].contains(ct), if [2, 3, 6, 7].contains(ct) { 65535 } else { 255 }),
        Spec::Bmp { ct } | Spec::Ico { ct } => (*ct < 2, *ct % 2 == 1, 255),
        _ => (false, true, 255),
    }
}

/// Saves, checks the file by an independent reader, and loads
fn store(spec: &Spec, img: &Img, exact: Option<&[[u32; 4]]>, c: &mut Case) -> Result<Img, Fail> {
    let what = format!("{} {}x{}", spec.name(), img.w, img.h);
    let im = Image::new_from_buffer(img.buf());
    let file = im.save_to_buffer(spec.format()).map_err(|e| err("encode", format!("{what}: {e}")))?;
    ensure!(Img::from_buf(im.buffer()) == *img, "input-changed", "{what}: saving changed the image");
    let again = im.save_to_buffer(spec.format()).map_err(|e| err("encode", format!("{what}: {e}")))?;
    ensure!(file == again, "deterministic", "{what}: two different files for the same image");
    let seen = read(spec, &file).map_err(|e| err("file", format!("{what}: the file is wrong: {e}")))?;
    ensure!((seen.w, seen.h) == (img.w, img.h), "file-size", "{what}: the file says {}x{}", seen.w, seen.h);
    ensure!(seen.data.len() == img.data.len(), "file-size", "{what}: {} pixels", seen.data.len());
    let (gray, has_alpha, max) = traits(spec);
    if let Spec::Png { ct, .. } = spec {
        let want = [1, 2, 1, 2, 3, 4, 3, 4][*ct as usize];
        ensure!(seen.channels == want && seen.max == max, "file-type", "{what}: {} channels up to {}", seen.channels, seen.max);
    }
    let mf = max as f64;
    let gif = matches!(spec, Spec::Gif);
    for (i, (p, s)) in img.data.iter().zip(&seen.data).enumerate() {
        let want = samples(*p, gray, mf);
        let a = if has_alpha { want[3] } else { mf };
        if gif {
            // one bit alpha, the colour of transparent pixels is lost
            if a < 0.99 {
                ensure!(s[3] == 0, "alpha", "{what}: pixel {i} {p:?} is stored as {s:?}");
                continue;
            }
            if a < 254.99 {
                ensure!(s[3] == 0 || s[3] == 255, "alpha", "{what}: pixel {i} {p:?} is stored as {s:?}");
                if s[3] == 0 {
                    continue;
                }
            } else {
                ensure!(s[3] == 255, "alpha", "{what}: pixel {i} {p:?} is stored as {s:?}");
            }
        } else {
            ensure!(neighbour(s[3], a, mf), "alpha", "{what}: pixel {i} {p:?} is stored as {s:?}, alpha should be {a}");
        }
        for k in 0..3 {
            ensure!(neighbour(s[k], want[k], mf), "sample", "{what}: pixel {i} {p:?} is stored as {s:?}, should be {want:?}");
        }
        if let Some(e) = exact {
            let mut e = e[i];
            if !has_alpha || gif {
                e[3] = max;
            }
            ensure!(*s == e, "exact", "{what}: pixel {i} with the representable samples {e:?} is stored as {s:?}");
        }
    }
    // what d10 loads is what the file stores
    let out = Image::read_from_buffer(&file).map_err(|e| err("decode", format!("{what}: {e}")))?;
    let out = Img::from_buf(out.buffer());
    ensure!((out.w, out.h) == (img.w, img.h), "size", "{what}: loaded {}x{}", out.w, out.h);
    for (i, (g, s)) in out.data.iter().zip(&seen.data).enumerate() {
        ensure!(
            close4(*g, loaded(*s, mf), 2e-6) && g[3] == (s[3] as f32) / max as f32,
            "load",
            "{what}: pixel {i} is stored as {s:?}, but loaded as {g:?}"
        );
    }
    c.label(spec.kind());
    Ok(out)
}

/// Representable images survive exactly
fn exact_case(v: &(Spec, Raw), c: &mut Case) -> Res {
    let (spec, raw) = v;
    let max = traits(spec).2;
    let img = img_of_samples(raw.w, raw.h, &raw.data, max as f64);
    let out = store(spec, &img, Some(&raw.data), c)?;
    let has_alpha = traits(spec).1;
    for (i, (p, g)) in img.data.iter().zip(&out.data).enumerate() {
        if matches!(spec, Spec::Gif) && p[3] < 1.0 {
            continue;
        }
        let a = if has_alpha { p[3] } else { 1.0 };
        ensure!(p[..3] == g[..3] && a == g[3], "round-trip", "{} pixel {i}: {p:?} came back as {g:?}", spec.name());
    }
    c.hit_if(img.distinct() > 1);
    c.label_if(raw.data.iter().any(|p| p[3] == 0), "transparent pixels");
    Ok(())
}

fn exact_strategy() -> BoxedStrategy<(Spec, Raw)> {
    let spec = prop_oneof![
        4 => png_spec(),
        1 => Just(Spec::Gif),
        2 => (0u8..4).prop_map(|ct| Spec::Bmp { ct }),
        2 => (0u8..4).prop_map(|ct| Spec::Ico { ct }),
        2 => (0u8..=100).prop_map(|quality| Spec::WebP { quality, preset: 6 }),
    ];
    spec.prop_flat_map(|s| {
        let (gray, _, max) = traits(&s);
        // at most 256 colours for GIF
        let d = match s {
            Spec::Gif => dims(16),
            _ => prop_oneof![6 => dims(20), 1 => dims(64), 1 => (1u32..=200, 1u32..=2), 1 => (1u32..=2, 1u32..=200)].boxed(),
        };
        (Just(s), raw(d, max, gray, false))
    })
    .boxed()
}

/// Any image is stored by neighbouring values, and what was stored once stays
fn near_case(v: &(Spec, Img), c: &mut Case) -> Res {
    let (spec, img) = v;
    let one = store(spec, img, None, c)?;
    let two = store(spec, &one, None, c)?;
    for (i, (a, b)) in one.data.iter().zip(&two.data).enumerate() {
        if matches!(spec, Spec::Gif) && a[3] == 0.0 {
            continue;
        }
        ensure!(a == b, "again", "{} pixel {i}: saving the loaded image again turned {a:?} into {b:?}", spec.name());
    }
    c.hit_if(img.distinct() > 1);
    Ok(())
}

fn near_strategy() -> BoxedStrategy<(Spec, Img)> {
    prop_oneof![
        4 => (png_spec(), img(20)),
        1 => (Just(Spec::Gif), img(16)),
        2 => ((0u8..4).prop_map(|ct| Spec::Bmp { ct }), img(20)),
        2 => ((0u8..4).prop_map(|ct| Spec::Ico { ct }), img(20)),
        2 => ((0u8..=100).prop_map(|quality| Spec::WebP { quality, preset: 6 }), img(20)),
    ]
    .boxed()
}

/// Few colours, as the format GIF has
fn few(i: Img) -> Img {
    let data = i.data.iter().map(|p| [0, 1, 2, 3].map(|k| if k < 3 { (p[k] * 5.0).round() / 5.0 } else { p[k].round() })).collect();
    Img::new(i.w, i.h, data)
}

/// Large images (long files, sides around the borders of the formats)
fn large_strategy() -> BoxedStrategy<(Spec, Img)> {
    prop_oneof![
        4 => (png_spec(), big(40_000)),
        2 => (Just(Spec::Gif), big(40_000).prop_map(few)),
        2 => ((0u8..4).prop_map(|ct| Spec::Bmp { ct }), big(40_000)),
        1 => ((0u8..4).prop_map(|ct| Spec::Ico { ct }), big(40_000)),
        2 => ((0u8..=100).prop_map(|quality| Spec::WebP { quality, preset: 6 }), big(3_000)),
    ]
    .prop_map(|(s, i)| {
        let m = match s {
            Spec::Ico { .. } => 256,
            Spec::WebP { .. } => 16383,
            _ => 65535,
        };
        let (w, h) = (i.w.min(m), i.h.min(m));
        let data = (0..w * h).map(|n| i.px(n % w, n / w)).collect();
        (s, Img::new(w, h, data))
    })
    .boxed()
}

/// Files of several megabytes
fn huge_strategy() -> BoxedStrategy<(Spec, Img)> {
    prop_oneof![
        3 => (png_spec(), noise(1_500_000)),
        2 => ((0u8..4).prop_map(|ct| Spec::Bmp { ct }), noise(1_500_000)),
        2 => ((0u8..=100).prop_map(|quality| Spec::WebP { quality, preset: 6 }), noise(30_000)),
        2 => (Just(Spec::Gif), noise(1_500_000).prop_map(few)),
    ]
    .boxed()
}

/// Compression and filter do not matter
fn options_case(v: &(u8, Img), c: &mut Case) -> Res {
    let (ct, img) = v;
    let im = Image::new_from_buffer(img.buf());
    let mut first: Option<Img> = None;
    let mut files = std::collections::HashSet::new();
    for comp in 0..3 {
        for filter in 0..5 {
            let s = Spec::Png { ct: *ct, comp, filter };
            let f = im.save_to_buffer(s.format()).map_err(|e| err("encode", format!("{}: {e}", s.name())))?;
            let d = Image::read_from_buffer(&f).map_err(|e| err("decode", format!("{}: {e}", s.name())))?;
            let d = Img::from_buf(d.buffer());
            files.insert(f);
            match &first {
                None => first = Some(d),
                Some(x) => ensure!(*x == d, "options", "{}: pixels depend on compression or filter", s.name()),
            }
        }
    }
    c.hit_if(files.len() > 1);
    c.label(PNG_TYPES[*ct as usize]);
    Ok(())
}

/// Every single value of a sample survives
fn table_case(v: &(u8, u32), c: &mut Case) -> Res {
    let (kind, page) = v;
    let (spec, max) = match kind {
        0..=7 => (Spec::Png { ct: *kind, comp: 1, filter: 0 }, if [2, 3, 6, 7].contains(kind) { 65535 } else { 255 }),
        8..=11 => (Spec::Bmp { ct: kind - 8 }, 255),
        12..=15 => (Spec::Ico { ct: kind - 12 }, 255),
        16 => (Spec::Gif, 255),
        _ => (Spec::WebP { quality: 0, preset: 6 }, 255),
    };
    let gray = traits(&spec).0;
    let data: Vec<[u32; 4]> = (0..256u32)
        .map(|i| {
            let v = if max == 255 { i } else { page * 256 + i };
            let o = max - v;
            match spec {
                Spec::Gif => [v, o, v / 2, max],
                _ if gray => [v, v, v, if i % 2 == 0 { max } else { v }],
                _ => [v, o, (v * 7) % (max + 1), if i % 2 == 0 { max } else { v }],
            }
        })
        .collect();
    let img = img_of_samples(16, 16, &data, max as f64);
    store(&spec, &img, Some(&data), c)?;
    c.hit();
    Ok(())
}

fn table_strategy() -> BoxedStrategy<(u8, u32)> {
    (0u8..18, 0u32..256).boxed()
}

/// Sizes a format cannot store are errors
pub fn limits_case(v: &(Spec, u32, u32), c: &mut Case) -> Res {
    let (spec, w, h) = v;
    let what = format!("{} {w}x{h}", spec.name());
    let ok = match spec {
        Spec::Ico { .. } => *w <= 256 && *h <= 256,
        Spec::Gif | Spec::Jpeg { .. } => *w <= 65535 && *h <= 65535,
        Spec::WebP { .. } => *w <= 16383 && *h <= 16383,
        _ => true,
    };
    let im = if *w == 0 || *h == 0 {
        Image::new_with_color(3, 2, d10::Rgb::RED).crop(3, 2, 1, 1)
    } else {
        Image::new_from_buffer(d10::PixelBuffer::new_from_func(*w, *h, |x, y| d10::Rgb::new(((x + y) % 5) as f32 / 4.0, 0.25, 0.5)))
    };
    let ok = ok && !im.is_empty();
    match no_panic(|| im.save_to_buffer(spec.format())) {
        Err(e) => return fail("panic", format!("{what}: {e}")),
        Ok(Err(e)) => {
            ensure!(!ok, "refused", "{what}: {e}");
            c.label("refused");
        }
        Ok(Ok(f)) => {
            let d = Image::read_from_buffer(&f);
            match d {
                Ok(d) => ensure!((d.width(), d.height()) == (im.width(), im.height()), "size", "{what}: loaded {}x{}", d.width(), d.height()),
                Err(e) if matches!(spec, Spec::Bmp { .. }) && (*w > 65535 || *h > 65535) => {
                    return fail("bmp-side-above-65535", format!("{what}: was stored, but cannot be loaded: {e}"))
                }
                Err(e) => return fail("unreadable", format!("{what}: was stored, but cannot be loaded: {e}")),
            }
            ensure!(ok, "stored", "{what}: stored, but the format has no such size");
            c.label("stored");
        }
    }
    c.hit();
    Ok(())
}

pub fn limits_strategy(spec: BoxedStrategy<Spec>) -> BoxedStrategy<(Spec, u32, u32)> {
    spec.prop_flat_map(|s| {
            let m = match s {
                Spec::Ico { .. } => 256u32,
                Spec::WebP { .. } => 16383,
                _ => 65535,
            };
            let side = prop_oneof![1 => Just(m), 1 => Just(m + 1), 1 => m - 3..m + 5, 1 => 1..m];
            (Just(s), prop_oneof![4 => side.prop_map(|v| (v, 1u32)), 1 => Just((0, 0))], any::<bool>())
        })
        .prop_map(|(s, (a, b), t)| if t { (s, a, b) } else { (s, b, a) })
        .boxed()
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        level: "exploration",
        rule: "an image counts if it has different pixels, an option case if the options change the file, tables and limits always",
        assumptions: vec![
            "the independent readers (png, gif, libwebp and hand written BMP and ICO readers) are right",
            "GIF: at most 256 colours, the colour of transparent pixels and partial transparency cannot be stored",
        ],
        subs: vec![
            sub("exact", 6_000, 150_000, exact_strategy, exact_case),
            sub("near", 6_000, 150_000, near_strategy, near_case),
            sub("large", 160, 4_000, large_strategy, near_case),
            sub("huge", 8, 150, huge_strategy, near_case),
            sub("large-options", 8, 200, || (0u8..8, big(30_000)), options_case),
            sub("options", 800, 20_000, || (0u8..8, img(16)), options_case),
            sub("tables", 1_500, 20_000, table_strategy, table_case),
            sub("limits", 200, 2_000, || limits_strategy(any_spec()), limits_case),
        ],
    }
}
