//! C19 files of other programs
use super::fmts::*;
use super::padded::*;
use super::writers::*;
use d10::Image;
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;

/// Loads the file and compares with the samples it stores, in steps of 1/255
fn compare(what: &str, file: &[u8], w: u32, h: u32, want: &Want, tol: f64, c: &mut Case) -> Res {
    let im = Image::read_from_buffer(file).map_err(|e| err("decode", format!("{what}: {e}")))?;
    let img = Img::from_buf(im.buffer());
    ensure!((img.w, img.h) == (w, h), "size", "{what}: loaded {}x{}", img.w, img.h);
    for (i, (g, want)) in img.data.iter().zip(want).enumerate() {
        let s = samples(*g, false, 255.0);
        for k in 0..4 {
            let t = if k == 3 { 0.001 } else { tol };
            ensure!(
                (s[k] - want[k] * 255.0).abs() <= t,
                if k == 3 { "alpha" } else { "value" },
                "{what}: pixel {},{} is {s:?} instead of {:?}",
                i as u32 % w,
                i as u32 / w,
                want.map(|v| v * 255.0)
            );
        }
    }
    c.hit_if(want.iter().any(|p| *p != want[0]));
    Ok(())
}

fn png_case(f: &PngFile, c: &mut Case) -> Res {
    let what = format!(
        "png type {} depth {}{}{} {}x{}",
        f.ct,
        f.depth,
        if f.interlace { " interlaced" } else { "" },
        if f.trns.is_empty() { "" } else { " with transparency" },
        f.w,
        f.h
    );
    c.label(format!("type {} depth {}", f.ct, f.depth));
    c.label_if(f.interlace, "interlaced");
    c.label_if(f.animated(), "animated");
    c.label_if(!f.trns.is_empty() && f.ct < 4, "transparency chunk");
    compare(&what, &f.write(), f.w, f.h, &f.want(), 0.01, c)
}

fn bmp_case(f: &BmpFile, c: &mut Case) -> Res {
    let what = format!("bmp {} header {}{} {}x{}", BMP_KINDS[f.kind as usize], f.head, if f.top_down { " top down" } else { "" }, f.w, f.h);
    c.label(BMP_KINDS[f.kind as usize]);
    compare(&what, &f.write(), f.w, f.h, &f.want(), if f.exact() { 0.01 } else { 1.01 }, c)
}

fn ico_case(f: &IcoFile, c: &mut Case) -> Res {
    let (w, h) = f.size();
    let kind = match &f.main {
        IcoImage::Bmp(b, _) => format!("bmp {}", BMP_KINDS[b.kind as usize]),
        IcoImage::Png(_) => "png".into(),
    };
    let what = format!("ico {kind} {w}x{h}{}", if f.other.is_some() { " and a smaller one" } else { "" });
    c.label(kind);
    c.label_if(f.other.is_some(), "two images");
    compare(&what, &f.write(), w, h, &f.want(), 0.01, c)
}

fn gif_case(f: &GifFile, c: &mut Case) -> Res {
    let what = format!(
        "gif {} bits{}{} {}x{}",
        f.bits,
        if f.interlace { " interlaced" } else { "" },
        if f.transparent.is_some() { " transparent" } else { "" },
        f.w,
        f.h
    );
    c.label(["", "global palette", "local palette", "both palettes"][f.tables as usize]);
    c.label_if(f.interlace, "interlaced");
    c.label_if(f.transparent.is_some(), "transparent");
    compare(&what, &f.write(), f.w, f.h, &f.want(), 0.01, c)
}

fn jpeg_case(f: &JpegFile, c: &mut Case) -> Res {
    let what = format!(
        "jpeg {} {} {}{}{}x{}",
        JPEG_KINDS[f.kind as usize],
        SAMPLING[f.sampling as usize].0,
        if f.kind == 5 { format!("{} bits predictor {} ", f.bits, f.predictor) } else { String::new() },
        if f.progressive { "progressive " } else { "" },
        f.w,
        f.h
    );
    c.label(JPEG_KINDS[f.kind as usize]);
    c.label_if(f.progressive, "progressive");
    c.hit_if(f.sampling != 0);
    let file = f.write().ok_or_else(|| err("writer", what.clone()))?;
    compare(&what, &file, f.w, f.h, &f.want(), f.tolerance(), c)
}

fn webp_case(f: &WebpFile, c: &mut Case) -> Res {
    let kind = f.lossy.map_or("lossless".into(), |q| format!("quality {q}"));
    let what = format!("webp {kind} level {}{} {}x{}", f.level, if f.extended { " extended" } else { "" }, f.w, f.h);
    c.label_if(f.extended, "extended");
    c.label(if f.lossy.is_some() { "lossy" } else { "lossless" });
    let file = f.write().ok_or_else(|| err("writer", what.clone()))?;
    let want = match f.lossy {
        None => f.want(),
        Some(_) => webp_samples(&file, f.w, f.h).ok_or_else(|| err("writer", what.clone()))?,
    };
    compare(&what, &file, f.w, f.h, &want, 0.01, c)
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        level: "exploration",
        rule: "a file counts if it has different pixels (JPEG with subsampling: one colour counts as well)",
        assumptions: vec![
            "the writers in harness/src/bin/codec/writers.rs follow the format specifications; JPEG data other than lossless is made by jpeg-encoder, WebP data by libwebp",
            "GIF frames cover the whole screen; CMYK files carry the Adobe marker",
        ],
        subs: vec![
            sub("png", 60_000, 1_500_000, || png_file(24), png_case),
            sub("bmp", 40_000, 1_000_000, || bmp_file(24), bmp_case),
            sub("ico", 20_000, 500_000, || ico_file(20), ico_case),
            sub("gif", 30_000, 800_000, || gif_file(32), gif_case),
            sub("jpeg", 40_000, 1_000_000, || jpeg_file(40), jpeg_case),
            sub("webp", 8_000, 150_000, || webp_file(20), webp_case),
            // metadata and data after the end of the image
            sub("padded", 20_000, 400_000, || padded(20_000), padded_case),
            sub("large-padded", 400, 8_000, || padded(3_000_000), padded_case),
            // long files: several parts of a compressed stream, full LZW tables
            sub("large-png", 1_500, 20_000, || png_file(160), png_case),
            sub("large-bmp", 1_500, 20_000, || bmp_file(200), bmp_case),
            sub("large-ico", 1_000, 12_000, || ico_file(120), ico_case),
            sub("large-gif", 2_000, 30_000, || gif_file(160), gif_case),
            sub("large-jpeg", 1_500, 20_000, || jpeg_file(240), jpeg_case),
            sub("large-webp", 400, 6_000, || webp_file(70), webp_case),
        ],
    }
}
