//! C06 exact geometry
use d10::ops;
use d10::{Hsl, Image, PixelBuffer, Rgb};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Geo {
    FlipH,
    FlipV,
    R90,
    R180,
    R270,
    Crop(u32, u32, u32, u32),
    Interlace(u32),
}

fn model(i: &Img, op: &Geo) -> Img {
    let (w, h) = (i.w as i64, i.h as i64);
    let make = |nw: i64, nh: i64, f: &dyn Fn(i64, i64) -> (i64, i64)| {
        let mut data = vec![];
        for y in 0..nh {
            for x in 0..nw {
                let (sx, sy) = f(x, y);
                data.push(i.px(sx as u32, sy as u32));
            }
        }
        Img { w: nw as u32, h: nh as u32, data }
    };
    match op {
        Geo::FlipH => make(w, h, &|x, y| (w - 1 - x, y)),
        Geo::FlipV => make(w, h, &|x, y| (x, h - 1 - y)),
        // clockwise: the left column becomes the top row, from bottom to top
        Geo::R90 => make(h, w, &|x, y| (y, h - 1 - x)),
        Geo::R180 => make(w, h, &|x, y| (w - 1 - x, h - 1 - y)),
        Geo::R270 => make(h, w, &|x, y| (w - 1 - y, x)),
        Geo::Crop(cx, cy, cw, ch) => {
            let x0 = (*cx as i64).min(w);
            let y0 = (*cy as i64).min(h);
            let x1 = (*cx as i64 + *cw as i64).min(w);
            let y1 = (*cy as i64 + *ch as i64).min(h);
            if x1 <= x0 || y1 <= y0 {
                Img { w: 0, h: 0, data: vec![] }
            } else {
                make(x1 - x0, y1 - y0, &|x, y| (x + x0, y + y0))
            }
        }
        Geo::Interlace(o) => make(w, h, &|x, y| {
            let sx = if y % 2 == 0 { x - *o as i64 } else { x + *o as i64 };
            (sx.clamp(0, w - 1), y)
        }),
    }
}

fn apply_rgb(b: &PixelBuffer<Rgb>, op: &Geo) -> PixelBuffer<Rgb> {
    apply(b, op)
}

fn apply<C: d10::Color>(b: &PixelBuffer<C>, op: &Geo) -> PixelBuffer<C> {
    match *op {
        Geo::FlipH => ops::flip_horizontal(b),
        Geo::FlipV => ops::flip_vertical(b),
        Geo::R90 => ops::rotate90(b),
        Geo::R180 => ops::rotate180(b),
        Geo::R270 => ops::rotate270(b),
        Geo::Crop(x, y, w, h) => ops::crop(b, x, y, w, h),
        Geo::Interlace(o) => ops::interlace(b, o),
    }
}

fn apply_image(b: &Image, op: &Geo) -> Image {
    match *op {
        Geo::FlipH => b.flip_horizontal(),
        Geo::FlipV => b.flip_vertical(),
        Geo::R90 => b.rotate90(),
        Geo::R180 => b.rotate180(),
        Geo::R270 => b.rotate270(),
        Geo::Crop(x, y, w, h) => b.crop(x, y, w, h),
        Geo::Interlace(o) => b.interlace(o),
    }
}

fn same(got: &Img, want: &Img, what: &str) -> Res {
    ensure!(got.w == want.w && got.h == want.h, "size", "{what}: {}x{} instead of {}x{}", got.w, got.h, want.w, want.h);
    for (i, (a, b)) in got.data.iter().zip(&want.data).enumerate() {
        ensure!(
            a.map(f32::to_bits) == b.map(f32::to_bits),
            "pixel",
            "{what}: pixel {},{} is {a:?} instead of {b:?}",
            i as u32 % got.w,
            i as u32 / got.w
        );
    }
    ensure!(got.data.len() == want.data.len(), "length", "{what}");
    Ok(())
}

fn offset() -> BoxedStrategy<u32> {
    prop_oneof![
        10 => 0u32..=42,
        1 => prop::sample::select(vec![u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, (1 << 31) + 1, 1 << 30, 65536, 65535]),
        1 => any::<u32>(),
    ]
    .boxed()
}

fn geo() -> BoxedStrategy<Geo> {
    prop_oneof![
        2 => Just(Geo::FlipH),
        2 => Just(Geo::FlipV),
        2 => Just(Geo::R90),
        1 => Just(Geo::R180),
        2 => Just(Geo::R270),
        3 => (offset(), offset(), offset(), offset()).prop_map(|(a, b, c, d)| Geo::Crop(a, b, c, d)),
        1 => (0u32..4, 0u32..4, 1u32..50, 1u32..50).prop_map(|(a, b, c, d)| Geo::Crop(a, b, c, d)),
        2 => offset().prop_map(Geo::Interlace),
    ]
    .boxed()
}

/// Steps that rarely empty the image
fn gentle() -> BoxedStrategy<Geo> {
    prop_oneof![
        8 => prop::sample::select(vec![Geo::FlipH, Geo::FlipV, Geo::R90, Geo::R180, Geo::R270]),
        1 => offset().prop_map(Geo::Interlace),
        2 => (0u32..3, 0u32..3, 4u32..50, 4u32..50).prop_map(|(a, b, c, d)| Geo::Crop(a, b, c, d)),
        1 => geo(),
    ]
    .boxed()
}

fn label(op: &Geo) -> &'static str {
    match op {
        Geo::FlipH => "flip-h",
        Geo::FlipV => "flip-v",
        Geo::R90 => "90",
        Geo::R180 => "180",
        Geo::R270 => "270",
        Geo::Crop(..) => "crop",
        Geo::Interlace(_) => "interlace",
    }
}

fn single(v: &(Img, Geo), c: &mut Case) -> Res {
    let (img, op) = v;
    c.label(label(op));
    let want = model(img, op);
    c.hit_if(want.distinct() > 1 && img.w != img.h);
    c.label_if(want.w == 0, "nothing left");
    let buf = img.buf();
    same(&Img::from_buf(&apply_rgb(&buf, op)), &want, "buffer")?;
    ensure!(Img::from_buf(&buf) == *img, "input-changed", "the input was modified");
    let hsl = PixelBuffer::<Hsl>::new_from_raw(img.w, img.h, img.data.iter().map(|d| Hsl { data: *d }).collect());
    let r = apply(&hsl, op);
    let r = Img { w: r.width(), h: r.height(), data: r.data().iter().map(|c| c.data).collect() };
    same(&r, &want, "buffer of Hsl")?;
    same(&Img::from_buf(apply_image(&Image::new_from_buffer(buf), op).buffer()), &want, "image")
}

/// Any sequence of operations on an image whose pixels encode their position
fn sequence(v: &(u32, u32, Vec<Geo>), c: &mut Case) -> Res {
    let (w, h, ops) = v;
    let mut want = coords_img(*w, *h);
    let mut im = Image::new_from_buffer(want.buf());
    for (i, op) in ops.iter().enumerate() {
        im = apply_image(&im, op);
        if want.w > 0 {
            want = model(&want, op);
        }
        same(&Img::from_buf(im.buffer()), &want, &format!("after step {i} {op:?}"))?;
    }
    c.hit_if(want.w > 1 && want.h > 1 && ops.len() > 1);
    c.label_if(want.w == 0, "nothing left");
    Ok(())
}

/// The laws of the symmetry group of the rectangle
fn laws(img: &Img, c: &mut Case) -> Res {
    let im = Image::new_from_buffer(img.buf());
    let eq = |a: Image, b: Image, law: &str| same(&Img::from_buf(a.buffer()), &Img::from_buf(b.buffer()), law);
    eq(im.flip_horizontal().flip_horizontal(), im.clone(), "flip-h twice")?;
    eq(im.flip_vertical().flip_vertical(), im.clone(), "flip-v twice")?;
    eq(im.rotate90().rotate90(), im.rotate180(), "90+90=180")?;
    eq(im.rotate180().rotate90(), im.rotate270(), "180+90=270")?;
    eq(im.rotate270().rotate90(), im.clone(), "270+90=360")?;
    eq(im.rotate180().rotate180(), im.clone(), "180+180=360")?;
    eq(im.flip_horizontal().flip_vertical(), im.rotate180(), "h+v=180")?;
    eq(im.flip_horizontal().rotate90(), im.rotate270().flip_horizontal(), "h+90=270+h")?;
    eq(im.crop(0, 0, img.w, img.h), im.clone(), "crop all")?;
    eq(im.crop(0, 0, u32::MAX, u32::MAX), im.clone(), "crop more")?;
    eq(im.interlace(0), im.clone(), "interlace 0")?;
    c.hit_if(img.distinct() > 1 && img.w != img.h);
    Ok(())
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        level: "exploration",
        rule: "an operation counts if the image is not square and the result has different pixels; a sequence if it has two or more steps and leaves more than a row or column",
        assumptions: vec!["the mapping of output to input positions in the harness is the definition"],
        subs: vec![
            sub("single", 40_000, 2_000_000, || (img(30), geo()), single),
            sub("sequence", 40_000, 2_000_000, || (1u32..=40, 1u32..=40, vec(gentle(), 1..12)), sequence),
            sub("large", 150, 4_000, || (big(100_000), geo()), single),
            sub("large-part", 150, 4_000, || {
                (big(200_000), vec(0.0f64..=1.0, 4), any::<u8>()).prop_map(|(img, f, k)| {
                    let at = |i: usize, n: u32| (f[i] * n as f64) as u32;
                    let op = match k % 8 {
                        0 => Geo::Interlace(at(0, img.h)),
                        // the end of the image
                        1 => Geo::Crop(img.w - at(0, img.w.min(4)), img.h - at(1, img.h.min(4)), 1 + at(2, 5), 1 + at(3, 5)),
                        2 => Geo::Crop(at(0, img.w), at(1, img.h), u32::MAX, u32::MAX),
                        _ => Geo::Crop(at(0, img.w), at(1, img.h), at(2, img.w), at(3, img.h)),
                    };
                    (img, op)
                })
            }, single),
            sub("laws", 20_000, 500_000, || img(24), laws),
        ],
    }
}
