//! C26 images shared by several threads
use super::pure::{bits, describe, facade, mutate_fixed, op, Bits, Op, NAMES};
use d10::{EncodingFormat, Image, PixelBuffer, Rgb};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use d10_verif::scratch::Dir;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::panic::AssertUnwindSafe;
use std::sync::Barrier;

/// Lets threads use a value whatever auto traits its type has, so that their absence is a
/// violation and not a build error
pub struct Shared<T>(pub T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}

macro_rules! auto_traits {
    ($($t:ty),*) => {{
        #[allow(dead_code)]
        mod yes {
            pub struct S<T: ?Sized>(std::marker::PhantomData<T>);
            pub trait No { const YES: bool = false; }
            impl<T: ?Sized> No for S<T> {}
            impl<T: ?Sized + Send> S<T> { pub const YES: bool = true; }
            pub struct Y<T: ?Sized>(std::marker::PhantomData<T>);
            impl<T: ?Sized> No for Y<T> {}
            impl<T: ?Sized + Sync> Y<T> { pub const YES: bool = true; }
        }
        #[allow(unused_imports)]
        use yes::No as _;
        vec![$((stringify!($t), yes::S::<$t>::YES, yes::Y::<$t>::YES)),*]
    }};
}

fn traits() -> Vec<(&'static str, bool, bool)> {
    auto_traits!(
        Image,
        PixelBuffer<Rgb>,
        PixelBuffer<d10::Hsl>,
        Rgb,
        d10::Srgb,
        d10::Hsl,
        d10::Hsv,
        d10::Yuv,
        d10::Xyz,
        d10::Lab,
        d10::Lch,
        EncodingFormat,
        d10::FilterMode,
        d10_codecs::DecodingError,
        d10_codecs::EncodingError
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threads {
    imgs: Vec<Img>,
    ops: Vec<Op>,
    n: u8,
    rounds: u8,
    /// all threads run the same operation at once, or each starts somewhere else
    together: bool,
}

#[derive(PartialEq, Clone, Debug)]
enum Out {
    Img(Bits),
    File(Vec<u8>),
    Err(String),
}

fn format(op: &Op) -> (EncodingFormat, &'static str) {
    match op.mode % 6 {
        0 => (EncodingFormat::png_default(), "png"),
        1 => (EncodingFormat::jpeg_with_quality(op.a as u8 % 100 + 1), "jpg"),
        2 => (EncodingFormat::bmp_default(), "bmp"),
        3 => (EncodingFormat::gif_default(), "gif"),
        4 => (EncodingFormat::ico_default(), "ico"),
        _ => (EncodingFormat::webp_with_quality(op.a as u8 % 101), "webp"),
    }
}

fn name(op: &Op) -> String {
    match (op.kind as usize).checked_sub(NAMES.len()) {
        None => describe(op),
        Some(k) => format!("{} ({op:?})", ["change a clone", "save and load a buffer", "save and open a file"][k.min(2)]),
    }
}

fn step(op: &Op, imgs: &[Image], dir: &Dir, who: usize) -> Vec<Out> {
    let (a, b) = (&imgs[op.i as usize % imgs.len()], &imgs[op.j as usize % imgs.len()]);
    let e = |e: &dyn std::fmt::Display| vec![Out::Err(e.to_string())];
    match (op.kind as usize).checked_sub(NAMES.len()) {
        None => vec![Out::Img(bits(facade(op, a, b).buffer()))],
        Some(0) => {
            let mut c = a.clone();
            mutate_fixed(op, &mut c);
            vec![Out::Img(bits(c.buffer()))]
        }
        Some(1) => match a.save_to_buffer(format(op).0) {
            Err(x) => e(&x),
            Ok(f) => match Image::read_from_buffer(&f) {
                Ok(i) => vec![Out::File(f), Out::Img(bits(i.buffer()))],
                Err(x) => e(&x),
            },
        },
        Some(_) => {
            let (fmt, ext) = format(op);
            let path = match op.a / 7 % 4 {
                // different files with the same start
                0 => dir.path().join(format!("{who}.{ext}")),
                1 => dir.path().join(format!("image.{who}.{ext}")),
                2 => {
                    let case = |(i, c): (usize, char)| if who >> i & 1 == 1 { c.to_ascii_uppercase() } else { c };
                    dir.path().join(format!("image.{}", ext.chars().enumerate().map(case).collect::<String>()))
                }
                _ => {
                    let folder = dir.path().join(format!("f{who}"));
                    if let Err(x) = std::fs::create_dir_all(&folder) {
                        return e(&x);
                    }
                    folder.join(format!("image.{ext}"))
                }
            };
            if let Err(x) = if op.flag { a.save_with_format(&path, fmt) } else { a.save(&path) } {
                return e(&x);
            }
            match (std::fs::read(&path), Image::open(&path)) {
                (Ok(f), Ok(i)) => vec![Out::File(f), Out::Img(bits(i.buffer()))],
                (Err(x), _) => e(&x),
                (_, Err(x)) => e(&x),
            }
        }
    }
}

fn case(v: &Threads, c: &mut Case) -> Res {
    for (t, send, sync) in traits() {
        ensure!(send && sync, "auto-traits", "{t} cannot be {} threads", if send { "shared by" } else { "sent between" });
    }
    let dir = Dir::new();
    let imgs: Vec<Image> = v.imgs.iter().map(|i| Image::new_from_buffer(i.buf())).collect();
    let snap: Vec<_> = imgs.iter().map(|i| bits(i.buffer())).collect();
    let n = v.n.clamp(2, 8) as usize;
    let shared = Shared((&imgs, &v.ops, &dir));
    // the threads run first: whatever is computed once per process is computed by them
    let mut all: Vec<(usize, usize, Vec<Out>)> = vec![];
    for _ in 0..v.rounds.max(1) {
        let barrier = Barrier::new(n);
        let (sh, ba) = (&shared, &barrier);
        let got: Vec<Result<Vec<(usize, Vec<Out>)>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    s.spawn(move || {
                        let (imgs, ops, dir) = *sh.get();
                        ba.wait();
                        let mut out = vec![];
                        for k in 0..ops.len() {
                            let k = if v.together { k } else { (k + t * ops.len() / n) % ops.len() };
                            match no_panic(AssertUnwindSafe(|| step(&ops[k], imgs, dir, t))) {
                                Ok(r) => out.push((k, r)),
                                Err(e) => return Err(format!("{}: {e}", name(&ops[k]))),
                            }
                        }
                        Ok(out)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread ended".into()))).collect()
        });
        for (t, r) in got.into_iter().enumerate() {
            match r {
                Ok(r) => all.extend(r.into_iter().map(|(k, o)| (t, k, o))),
                Err(e) => return fail("panic", format!("in thread {t}: {e}")),
            }
        }
    }
    for (k, (p, s)) in imgs.iter().zip(&snap).enumerate() {
        ensure!(bits(p.buffer()) == *s, "input-changed", "image {k} was changed by {n} threads");
    }
    let alone: Vec<Vec<Out>> = v.ops.iter().map(|op| step(op, &imgs, &dir, 99)).collect();
    for (t, k, o) in &all {
        ensure!(
            *o == alone[*k],
            "different",
            "{} in thread {t} of {n} gave another result than alone: {:?} instead of {:?}",
            name(&v.ops[*k]),
            short(o),
            short(&alone[*k])
        );
        if let [Out::Err(e)] = &o[..] {
            return fail("error", format!("{}: {e}", name(&v.ops[*k])));
        }
    }
    let changed = alone.iter().zip(&v.ops).filter(|(o, op)| !o.contains(&Out::Img(snap[op.i as usize % snap.len()].clone()))).count();
    c.hit_if(changed >= 2);
    c.label(if v.together { "same operation at once" } else { "different operations at once" });
    for op in &v.ops {
        c.label_if(op.kind as usize >= NAMES.len(), ["change a clone", "buffer", "file"][(op.kind as usize).saturating_sub(NAMES.len()).min(2)]);
    }
    Ok(())
}

fn short(o: &[Out]) -> String {
    let s = format!("{o:?}");
    s.chars().take(160).collect()
}

pub fn c26() -> Property {
    Property {
        id: "C26",
        level: "exploration",
        rule: "at least two operations of the case change their input",
        assumptions: vec![
            "the schedules are those the operating system makes of threads started at a barrier",
            "random noise is left out, its results are different each time",
        ],
        subs: vec![sub("threads", 10_000, 150_000, || {
            let ops = prop_oneof![2 => vec(op(), 1..=4), 1 => vec(op(), 5..=16)];
            (vec(img(9), 1..=3), ops, 2u8..=6, 1u8..=3, any::<bool>())
                .prop_map(|(imgs, ops, n, rounds, together)| Threads { imgs, ops, n, rounds, together })
        }, case)],
    }
}
