//! C05 pixel buffer as a plain 2-D array
use d10::{Color, Hsl, Image, PixelBuffer, Rgb, MAX_BUFFER_SIZE};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};

fn main() {
    main_with(|id, _| match id {
        "C05" => Some(c05()),
        _ => None,
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Get(u32, u32),
    Put(u32, u32, Px),
    GetClamped(i32, i32),
    GetOptional(i32, i32),
    DataPut(u32, Px),
    Enumerate,
    EnumerateMut(Px),
    /// transformation, index of the call that fails (None: infallible variant)
    Mod(Px, Option<u32>),
    ModEnum(Px, Option<u32>),
    Map(Px, Option<u32>),
    MapEnum(Px, Option<u32>),
    /// continue with the mapped object
    AdoptMap(Px, bool),
    Flags,
    CloneAndWrite(u32, u32, Px),
    Rewrap,
}

type Model = Vec<Vec<[f32; 4]>>;

/// Everything the histories call, for the buffer of two colour types and the image
trait Obj: Sized + Clone {
    fn make(w: u32, h: u32, px: Vec<Px>) -> Self;
    fn w(&self) -> u32;
    fn h(&self) -> u32;
    fn raw(&self) -> Vec<Px>;
    fn get(&self, x: u32, y: u32) -> Px;
    fn put(&mut self, x: u32, y: u32, p: Px);
    fn clamped(&self, x: i32, y: i32) -> Px;
    fn optional(&self, x: i32, y: i32) -> Option<Px>;
    fn inside(&self, x: i32, y: i32) -> bool;
    fn data_put(&mut self, i: usize, p: Px);
    fn enumerate(&self) -> Vec<(u32, u32, Px)>;
    fn enumerate_mut(&mut self, f: &dyn Fn(u32, u32, Px) -> Px);
    fn modify(&mut self, f: &dyn Fn(Px) -> Px);
    fn try_modify(&mut self, f: &dyn Fn(Px) -> Result<Px, u32>) -> Result<(), u32>;
    fn modify_e(&mut self, f: &dyn Fn(u32, u32, Px) -> Px);
    fn try_modify_e(&mut self, f: &dyn Fn(u32, u32, Px) -> Result<Px, u32>) -> Result<(), u32>;
    fn map(&self, f: &dyn Fn(Px) -> Px) -> Self;
    fn try_map(&self, f: &dyn Fn(Px) -> Result<Px, u32>) -> Result<Self, u32>;
    fn map_e(&self, f: &dyn Fn(u32, u32, Px) -> Px) -> Self;
    fn try_map_e(&self, f: &dyn Fn(u32, u32, Px) -> Result<Px, u32>) -> Result<Self, u32>;
    fn transparency(&self) -> bool;
    fn gray(&self) -> Option<bool>;
    fn empty(&self) -> bool;
    fn rewrap(self) -> Self;
}

macro_rules! common {
    ($pix:ident, $d:ident, $mk:expr, $un:expr, $buf:ident, $bufm:ident) => {
        fn w(&self) -> u32 {
            self.width()
        }
        fn h(&self) -> u32 {
            self.height()
        }
        fn raw(&self) -> Vec<Px> {
            self.data().iter().map($un).collect()
        }
        fn get(&self, x: u32, y: u32) -> Px {
            $un(self.get_pixel(x, y))
        }
        fn put(&mut self, x: u32, y: u32, p: Px) {
            self.put_pixel(x, y, $mk(p))
        }
        fn clamped(&self, x: i32, y: i32) -> Px {
            $un(self.get_pixel_clamped(x, y))
        }
        fn optional(&self, x: i32, y: i32) -> Option<Px> {
            self.get_pixel_optional(x, y).map($un)
        }
        fn inside(&self, x: i32, y: i32) -> bool {
            self.is_in_image(x, y)
        }
        fn data_put(&mut self, i: usize, p: Px) {
            self.data_mut()[i] = $mk(p);
        }
        fn modify(&mut self, f: &dyn Fn(Px) -> Px) {
            self.mod_colors(|c| $mk(f($un(c))))
        }
        fn try_modify(&mut self, f: &dyn Fn(Px) -> Result<Px, u32>) -> Result<(), u32> {
            self.try_mod_colors(|c| f($un(c)).map($mk))
        }
        fn modify_e(&mut self, f: &dyn Fn(u32, u32, Px) -> Px) {
            self.mod_colors_enumerated(|x, y, c| $mk(f(x, y, $un(c))))
        }
        fn try_modify_e(&mut self, f: &dyn Fn(u32, u32, Px) -> Result<Px, u32>) -> Result<(), u32> {
            self.try_mod_colors_enumerated(|x, y, c| f(x, y, $un(c)).map($mk))
        }
        fn map(&self, f: &dyn Fn(Px) -> Px) -> Self {
            self.map_colors(|c| $mk(f($un(c))))
        }
        fn try_map(&self, f: &dyn Fn(Px) -> Result<Px, u32>) -> Result<Self, u32> {
            self.try_map_colors(|c| f($un(c)).map($mk))
        }
        fn map_e(&self, f: &dyn Fn(u32, u32, Px) -> Px) -> Self {
            self.map_colors_enumerated(|x, y, c| $mk(f(x, y, $un(c))))
        }
        fn try_map_e(&self, f: &dyn Fn(u32, u32, Px) -> Result<Px, u32>) -> Result<Self, u32> {
            self.try_map_colors_enumerated(|x, y, c| f(x, y, $un(c)).map($mk))
        }
        fn transparency(&self) -> bool {
            self.has_transparency()
        }
        fn empty(&self) -> bool {
            self.is_empty()
        }
    };
}

fn rgb(p: Px) -> Rgb {
    Rgb { data: p }
}
fn unrgb(c: &Rgb) -> Px {
    c.data
}
fn hsl(p: Px) -> Hsl {
    Hsl { data: p }
}
fn unhsl(c: &Hsl) -> Px {
    c.data
}

impl Obj for PixelBuffer<Rgb> {
    common!(p, d, rgb, unrgb, a, b);
    fn make(w: u32, h: u32, px: Vec<Px>) -> Self {
        PixelBuffer::new_from_raw(w, h, px.into_iter().map(rgb).collect())
    }
    fn enumerate(&self) -> Vec<(u32, u32, Px)> {
        PixelBuffer::enumerate(self).map(|(x, y, c)| (x, y, c.data)).collect()
    }
    fn enumerate_mut(&mut self, f: &dyn Fn(u32, u32, Px) -> Px) {
        for (x, y, c) in PixelBuffer::enumerate_mut(self) {
            c.data = f(x, y, c.data);
        }
    }
    fn gray(&self) -> Option<bool> {
        Some(self.is_grayscale())
    }
    fn rewrap(self) -> Self {
        let (w, h) = (self.width(), self.height());
        PixelBuffer::new_from_raw(w, h, self.data().to_vec())
    }
}

impl Obj for PixelBuffer<Hsl> {
    common!(p, d, hsl, unhsl, a, b);
    fn make(w: u32, h: u32, px: Vec<Px>) -> Self {
        PixelBuffer::new_from_raw(w, h, px.into_iter().map(hsl).collect())
    }
    fn enumerate(&self) -> Vec<(u32, u32, Px)> {
        PixelBuffer::enumerate(self).map(|(x, y, c)| (x, y, c.data)).collect()
    }
    fn enumerate_mut(&mut self, f: &dyn Fn(u32, u32, Px) -> Px) {
        for (x, y, c) in PixelBuffer::enumerate_mut(self) {
            c.data = f(x, y, c.data);
        }
    }
    fn gray(&self) -> Option<bool> {
        None
    }
    fn rewrap(self) -> Self {
        let (w, h) = (self.width(), self.height());
        PixelBuffer::new_from_func(w, h, |x, y| *self.get_pixel(x, y))
    }
}

impl Obj for Image {
    common!(p, d, rgb, unrgb, a, b);
    fn make(w: u32, h: u32, px: Vec<Px>) -> Self {
        Image::new_from_raw(w, h, px.into_iter().map(rgb).collect())
    }
    fn enumerate(&self) -> Vec<(u32, u32, Px)> {
        self.buffer().enumerate().map(|(x, y, c)| (x, y, c.data)).collect()
    }
    fn enumerate_mut(&mut self, f: &dyn Fn(u32, u32, Px) -> Px) {
        for (x, y, c) in self.buffer_mut().enumerate_mut() {
            c.data = f(x, y, c.data);
        }
    }
    fn gray(&self) -> Option<bool> {
        Some(self.is_grayscale())
    }
    fn rewrap(self) -> Self {
        let b = Image::new_from_buffer(self.buffer().clone());
        let data = b.data().to_vec();
        Image::new_from_raw_with_meta(&self, b.width(), b.height(), data)
    }
}

fn coord() -> BoxedStrategy<i32> {
    prop_oneof![
        6 => -3i32..=14,
        1 => prop::sample::select(vec![i32::MIN, i32::MIN + 1, -65536, -1, i32::MAX, i32::MAX - 1, 65536, 1 << 24, -(1 << 24)]),
        1 => any::<i32>(),
    ]
    .boxed()
}

fn ucoord() -> BoxedStrategy<u32> {
    prop_oneof![
        8 => 0u32..=12,
        1 => prop::sample::select(vec![u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 65536, 65535]),
    ]
    .boxed()
}

fn free_px() -> BoxedStrategy<Px> {
    prop_oneof![3 => px(), 1 => [-2f32..2.0, -2f32..2.0, -2f32..2.0, -2f32..2.0]].boxed()
}

fn op() -> BoxedStrategy<Op> {
    let k = || prop_oneof![1 => Just(None), 1 => (0u32..100).prop_map(Some)];
    prop_oneof![
        3 => (ucoord(), ucoord()).prop_map(|(x, y)| Op::Get(x, y)),
        4 => (ucoord(), ucoord(), free_px()).prop_map(|(x, y, p)| Op::Put(x, y, p)),
        3 => (coord(), coord()).prop_map(|(x, y)| Op::GetClamped(x, y)),
        3 => (coord(), coord()).prop_map(|(x, y)| Op::GetOptional(x, y)),
        1 => (0u32..200, free_px()).prop_map(|(i, p)| Op::DataPut(i, p)),
        1 => Just(Op::Enumerate),
        1 => free_px().prop_map(Op::EnumerateMut),
        2 => (free_px(), k()).prop_map(|(p, k)| Op::Mod(p, k)),
        2 => (free_px(), k()).prop_map(|(p, k)| Op::ModEnum(p, k)),
        2 => (free_px(), k()).prop_map(|(p, k)| Op::Map(p, k)),
        2 => (free_px(), k()).prop_map(|(p, k)| Op::MapEnum(p, k)),
        1 => (free_px(), any::<bool>()).prop_map(|(p, e)| Op::AdoptMap(p, e)),
        1 => Just(Op::Flags),
        1 => (ucoord(), ucoord(), free_px()).prop_map(|(x, y, p)| Op::CloneAndWrite(x, y, p)),
        1 => Just(Op::Rewrap),
    ]
    .boxed()
}

/// A function of the pixel and its position
fn tr(k: Px, x: u32, y: u32, p: Px) -> Px {
    let xy = x as f32 * 0.125 - y as f32 * 0.0625;
    [p[1] * 0.5 + k[0] + xy, p[2] - k[1], p[0] * k[2], p[3] * 0.75 + k[3] * 0.25]
}

fn compare<O: Obj>(o: &O, m: &Model, what: &str) -> Res {
    let h = m.len();
    let w = m.first().map(|r| r.len()).unwrap_or(0);
    ensure!(o.w() as usize == w && o.h() as usize == h, "size", "{what}: {}x{} instead of {w}x{h}", o.w(), o.h());
    let raw = o.raw();
    ensure!(raw.len() == w * h, "length", "{what}: {} pixels for {w}x{h}", raw.len());
    for y in 0..h {
        for x in 0..w {
            ensure!(
                raw[y * w + x] == m[y][x],
                "content",
                "{what}: pixel {x},{y} is {:?} instead of {:?}",
                raw[y * w + x],
                m[y][x]
            );
        }
    }
    Ok(())
}

fn history<O: Obj>(img: &Img, ops: &[Op], case: &mut Case) -> Res {
    let (w, h) = (img.w, img.h);
    let mut o = O::make(w, h, img.data.clone());
    let mut m: Model = (0..h).map(|y| (0..w).map(|x| img.px(x, y)).collect()).collect();
    compare(&o, &m, "new")?;
    let mut writes = 0;
    for (step, op) in ops.iter().enumerate() {
        let what = format!("step {step} {op:?}");
        match op {
            Op::Get(x, y) => {
                let r = no_panic(|| o.get(*x, *y));
                if *x < w && *y < h {
                    ensure!(r == Ok(m[*y as usize][*x as usize]), "get", "{what}: {r:?}");
                } else {
                    ensure!(r.is_err(), "get-outside", "{what}: {r:?}");
                    case.label("refused");
                }
            }
            Op::Put(x, y, p) => {
                let r = no_panic(|| o.put(*x, *y, *p));
                if *x < w && *y < h {
                    ensure!(r.is_ok(), "put", "{what}: {r:?}");
                    m[*y as usize][*x as usize] = *p;
                    writes += 1;
                } else {
                    ensure!(r.is_err(), "put-outside", "{what}: accepted");
                    case.label("refused");
                }
            }
            Op::GetClamped(x, y) => {
                let cx = (*x as i64).clamp(0, w as i64 - 1) as usize;
                let cy = (*y as i64).clamp(0, h as i64 - 1) as usize;
                let g = o.clamped(*x, *y);
                ensure!(g == m[cy][cx], "clamped", "{what}: {g:?} instead of {:?}", m[cy][cx]);
            }
            Op::GetOptional(x, y) => {
                let inside = *x >= 0 && *y >= 0 && (*x as i64) < w as i64 && (*y as i64) < h as i64;
                ensure!(o.inside(*x, *y) == inside, "is-in-image", "{what}: {}", o.inside(*x, *y));
                let g = o.optional(*x, *y);
                let want = if inside { Some(m[*y as usize][*x as usize]) } else { None };
                ensure!(g == want, "optional", "{what}: {g:?} instead of {want:?}");
                case.label_if(!inside, "outside");
            }
            Op::DataPut(i, p) => {
                let i = (*i % (w * h)) as usize;
                o.data_put(i, *p);
                m[i / w as usize][i % w as usize] = *p;
                writes += 1;
            }
            Op::Enumerate => {
                let got = o.enumerate();
                let want: Vec<(u32, u32, Px)> =
                    (0..w * h).map(|i| (i % w, i / w, m[(i / w) as usize][(i % w) as usize])).collect();
                let n = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
                ensure!(got == want, "enumerate", "{what}: item {n} of {} is {:?} instead of {:?} of {}", got.len(), got.get(n), want.get(n), want.len());
            }
            Op::EnumerateMut(k) => {
                o.enumerate_mut(&|x, y, p| tr(*k, x, y, p));
                for y in 0..h {
                    for x in 0..w {
                        let c = &mut m[y as usize][x as usize];
                        *c = tr(*k, x, y, *c);
                    }
                }
                writes += 1;
            }
            Op::Mod(k, at) | Op::ModEnum(k, at) | Op::Map(k, at) | Op::MapEnum(k, at) => {
                let en = matches!(op, Op::ModEnum(..) | Op::MapEnum(..));
                let map = matches!(op, Op::Map(..) | Op::MapEnum(..));
                let at = at.map(|v| v % (w * h + 1));
                let calls: RefCell<Vec<Option<(u32, u32)>>> = RefCell::new(vec![]);
                let seen: RefCell<Vec<Px>> = RefCell::new(vec![]);
                let n = Cell::new(0u32);
                let f0 = |p: Px| {
                    seen.borrow_mut().push(p);
                    calls.borrow_mut().push(None);
                    n.set(n.get() + 1);
                    tr(*k, 0, 0, p)
                };
                let f1 = |x: u32, y: u32, p: Px| {
                    seen.borrow_mut().push(p);
                    calls.borrow_mut().push(Some((x, y)));
                    n.set(n.get() + 1);
                    tr(*k, x, y, p)
                };
                let e0 = |p: Px| if Some(n.get()) == at { n.set(n.get() + 1); Err(n.get() - 1) } else { Ok(f0(p)) };
                let e1 = |x: u32, y: u32, p: Px| if Some(n.get()) == at { n.set(n.get() + 1); Err(n.get() - 1) } else { Ok(f1(x, y, p)) };
                // result: None = infallible
                let mut mapped: Option<O> = None;
                let mut err: Result<(), u32> = Ok(());
                match (map, en, at) {
                    (false, false, None) => o.modify(&f0),
                    (false, true, None) => o.modify_e(&f1),
                    (false, false, Some(_)) => err = o.try_modify(&e0),
                    (false, true, Some(_)) => err = o.try_modify_e(&e1),
                    (true, false, None) => mapped = Some(o.map(&f0)),
                    (true, true, None) => mapped = Some(o.map_e(&f1)),
                    (true, false, Some(_)) => match o.try_map(&e0) {
                        Ok(v) => mapped = Some(v),
                        Err(e) => err = Err(e),
                    },
                    (true, true, Some(_)) => match o.try_map_e(&e1) {
                        Ok(v) => mapped = Some(v),
                        Err(e) => err = Err(e),
                    },
                }
                let stop = at.filter(|a| *a < w * h);
                let done = stop.unwrap_or(w * h);
                ensure!(err.err() == stop, "error-report", "{what}: reported {err:?}, expected stop at {stop:?}");
                ensure!(n.get() == done + u32::from(stop.is_some()), "calls", "{what}: {} calls", n.get());
                let (calls, seen) = (calls.into_inner(), seen.into_inner());
                for i in 0..done {
                    let (x, y) = (i % w, i / w);
                    let c = m[y as usize][x as usize];
                    ensure!(seen[i as usize] == c, "argument", "{what}: call {i} got {:?} instead of {c:?}", seen[i as usize]);
                    if en {
                        ensure!(calls[i as usize] == Some((x, y)), "position", "{what}: call {i} got {:?}", calls[i as usize]);
                    }
                }
                let mut t = m.clone();
                for i in 0..done {
                    let (x, y) = (i % w, i / w);
                    let c = &mut t[y as usize][x as usize];
                    *c = if en { tr(*k, x, y, *c) } else { tr(*k, 0, 0, *c) };
                }
                case.label_if(stop.is_some(), "stopped by error");
                if map {
                    if stop.is_none() {
                        let Some(r) = mapped else { return fail("no-result", what) };
                        compare(&r, &t, &what)?;
                    } else {
                        ensure!(mapped.is_none(), "result-despite-error", "{what}");
                    }
                } else {
                    m = t;
                    writes += 1;
                }
            }
            Op::AdoptMap(k, en) => {
                o = if *en { o.map_e(&|x, y, p| tr(*k, x, y, p)) } else { o.map(&|p| tr(*k, 0, 0, p)) };
                for y in 0..h {
                    for x in 0..w {
                        let c = &mut m[y as usize][x as usize];
                        *c = if *en { tr(*k, x, y, *c) } else { tr(*k, 0, 0, *c) };
                    }
                }
                writes += 1;
            }
            Op::Flags => {
                let t = m.iter().flatten().any(|p| (1.0 - p[3]).abs() > 1.0 / 32768.0);
                let unsure = m.iter().flatten().any(|p| ((1.0 - p[3] as f64).abs() - EPS).abs() < 1e-7);
                ensure!(unsure || o.transparency() == t, "transparency", "{what}: {} instead of {t}", o.transparency());
                if let Some(g) = o.gray() {
                    // a pixel is gray if neighbouring channels differ by less than 1/32768
                    let d = |p: &Px| {
                        let a = (p[0] as f64 - p[1] as f64).abs();
                        let b = (p[1] as f64 - p[2] as f64).abs();
                        a.max(b)
                    };
                    let worst = m.iter().flatten().map(d).fold(0.0, f64::max);
                    if (worst - EPS).abs() > 1e-6 {
                        ensure!(g == (worst < EPS), "grayscale", "{what}: {g}, largest difference {worst}");
                        case.label_if(g, "gray");
                    }
                }
                ensure!(!o.empty(), "empty", "{what}");
            }
            Op::CloneAndWrite(x, y, p) => {
                let mut c = o.clone();
                compare(&c, &m, "clone")?;
                c.put(*x % w, *y % h, *p);
                // writing into the clone must not reach the original (compared below)
            }
            Op::Rewrap => o = o.rewrap(),
        }
        compare(&o, &m, &what)?;
    }
    case.hit_if(writes > 0 && w * h > 1 && w != h && img.distinct() > 1);
    case.label_if(w != h, "not square");
    case.label_if(w == 1 || h == 1, "thin");
    Ok(())
}

fn history_case(v: &(u8, Img, Vec<Op>), c: &mut Case) -> Res {
    c.label(["buffer of Rgb", "buffer of Hsl", "image"][v.0 as usize % 3]);
    match v.0 % 3 {
        0 => history::<PixelBuffer<Rgb>>(&v.1, &v.2, c),
        1 => history::<PixelBuffer<Hsl>>(&v.1, &v.2, c),
        _ => history::<Image>(&v.1, &v.2, c),
    }
}

fn kernel_pos(n: i64) -> BoxedStrategy<i32> {
    let n = n as i32;
    prop_oneof![
        8 => -8i32..=(n + 8),
        2 => 0..n,
        1 => -1_000_000i32..=1_000_000,
    ]
    .boxed()
}

fn kernel_case(v: &(Img, i32, i32, u8), c: &mut Case) -> Res {
    let (img, x, y, n) = v;
    let buf = img.buf();
    let n = *n as i64;
    let want: Vec<Vec<Px>> = (0..n)
        .map(|ty| (0..n).map(|tx| img.clamped(*x as i64 + tx - n / 2, *y as i64 + ty - n / 2)).collect())
        .collect();
    let got: Vec<Vec<Px>> = buf.get_kernel_dyn(*x, *y, n as usize).iter().map(|r| r.iter().map(unrgb).collect()).collect();
    ensure!(got == want, "kernel-dyn", "size {n} at {x},{y} of {}x{}: {got:?} instead of {want:?}", img.w, img.h);
    macro_rules! k {
        ($($n:literal)*) => { match n { $($n => buf.get_kernel::<$n>(*x, *y).iter().map(|r| r.iter().map(unrgb).collect()).collect(),)* _ => got } }
    }
    let got: Vec<Vec<Px>> = k!(1 2 3 4 5 6 7 9);
    ensure!(got == want, "kernel", "size {n} at {x},{y} of {}x{}: {got:?} instead of {want:?}", img.w, img.h);
    let inside = |d: i64, c: i32, l: u32| c as i64 - d / 2 >= 0 && c as i64 - d / 2 + d <= l as i64;
    let full = inside(n, *x, img.w) && inside(n, *y, img.h);
    c.label(if full { "inside" } else { "over the edge" });
    c.label_if(n % 2 == 0, "even size");
    c.hit_if(n > 1 && img.distinct() > 1);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Size {
    w: u32,
    h: u32,
    len: u32,
    how: u8,
}

fn side() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..=20,
        3 => prop::sample::select(vec![0u32, 1, 2, 32767, 32768, 32769, 46340, 65535, 65536, 65537, 1 << 20, 1073741823, 1073741824, 2147483647, 2147483648, u32::MAX - 1, u32::MAX]),
        1 => any::<u32>(),
    ]
    .boxed()
}

fn valid_size(w: u32, h: u32) -> bool {
    // positive area up to half of the 31 bit range, or completely empty
    (w == 0 && h == 0) || (w > 0 && h > 0 && w as u128 * h as u128 <= 1073741823)
}

fn size_case(v: &Size, c: &mut Case) -> Res {
    let Size { w, h, len, how } = *v;
    let valid = valid_size(w, h);
    ensure!(MAX_BUFFER_SIZE == 1073741823, "limit", "limit is {MAX_BUFFER_SIZE}");
    ensure!(
        d10::is_valid_buffer_size(w, h) == valid,
        "is-valid",
        "is_valid_buffer_size({w}, {h}) is {}",
        !valid
    );
    let area = w as u128 * h as u128;
    c.label(["new", "color", "raw", "func", "try-func", "image", "image-color", "image-raw"][how as usize % 8]);
    let raw = how % 8 == 2 || how % 8 == 7;
    let len = if raw && area <= 4096 && len % 3 != 0 { area as u32 } else { len };
    if !raw && valid && area > 10_000 {
        // creating it would succeed: only the predicate is decided
        return Ok(());
    }
    let col = Rgb { data: [0.25, 0.5, 0.75, 0.5] };
    let r: Result<(u32, u32, Vec<Px>), String> = no_panic(|| {
        let b = match how % 8 {
            0 => PixelBuffer::<Rgb>::new(w, h),
            1 => PixelBuffer::<Rgb>::new_with_color(w, h, col),
            2 => PixelBuffer::<Rgb>::new_from_raw(w, h, vec![col; len as usize]),
            3 => PixelBuffer::<Rgb>::new_from_func(w, h, |x, y| Rgb { data: [x as f32, y as f32, 0.0, 1.0] }),
            4 => PixelBuffer::<Rgb>::try_new_from_func(w, h, |x, y| Ok::<_, ()>(Rgb { data: [x as f32, y as f32, 0.0, 1.0] })).unwrap(),
            5 => Image::new(w, h).buffer().clone(),
            6 => Image::new_with_color(w, h, col).buffer().clone(),
            _ => Image::new_from_raw(w, h, vec![col; len as usize]).buffer().clone(),
        };
        ensure_consistent(&b);
        (b.width(), b.height(), b.data().iter().map(|c| c.data).collect())
    });
    let ok = valid && (!raw || len as u128 == area);
    c.hit_if(!ok);
    c.label(if ok { "valid" } else { "refused" });
    match r {
        Err(e) => {
            ensure!(!ok, "refused-valid", "{v:?} was refused: {e}");
        }
        Ok((gw, gh, data)) => {
            ensure!(ok, "accepted-invalid", "{v:?} gave a buffer of {gw}x{gh} with {} pixels", data.len());
            ensure!(gw == w && gh == h && data.len() as u128 == area, "wrong-size", "{v:?}: {gw}x{gh}, {}", data.len());
            for (i, p) in data.iter().enumerate() {
                let want = match how % 8 {
                    0 | 5 => Rgb::default().data,
                    1 | 2 | 6 | 7 => col.data,
                    _ => [(i as u32 % w) as f32, (i as u32 / w) as f32, 0.0, 1.0],
                };
                ensure!(*p == want, "initial-content", "{v:?}: pixel {i} is {p:?} instead of {want:?}");
            }
        }
    }
    Ok(())
}

fn ensure_consistent<T: Color>(b: &PixelBuffer<T>) {
    assert_eq!(b.is_empty(), b.data().is_empty());
}

fn func_case(v: &(u32, u32, Option<u32>), c: &mut Case) -> Res {
    let (w, h, at) = *v;
    let calls = RefCell::new(vec![]);
    let r = PixelBuffer::<Rgb>::try_new_from_func(w, h, |x, y| {
        let n = calls.borrow().len() as u32;
        calls.borrow_mut().push((x, y));
        if Some(n) == at {
            Err(n)
        } else {
            Ok(Rgb { data: [n as f32, x as f32, y as f32, 1.0] })
        }
    });
    let calls = calls.into_inner();
    let stop = at.filter(|a| *a < w * h);
    let total = stop.map(|s| s + 1).unwrap_or(w * h);
    let want: Vec<(u32, u32)> = (0..total).map(|i| (i % w, i / w)).collect();
    let n = calls.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len().min(calls.len()));
    ensure!(calls == want, "func-calls", "{w}x{h} failing at {at:?}: call {n} of {} is {:?} instead of {:?} of {}", calls.len(), calls.get(n), want.get(n), want.len());
    c.hit_if(stop.is_some() || w != h);
    c.label_if(stop.is_some(), "stopped by error");
    match (r, stop) {
        (Err(e), Some(s)) => ensure!(e == s, "func-error", "error {e} instead of {s}"),
        (Ok(b), None) => {
            for y in 0..h {
                for x in 0..w {
                    let p = b.get_pixel(x, y).data;
                    ensure!(p == [(y * w + x) as f32, x as f32, y as f32, 1.0], "func-content", "{x},{y}: {p:?}");
                }
            }
        }
        (r, s) => return fail("func-result", format!("{} but expected stop {s:?}", r.is_ok())),
    }
    Ok(())
}

/// Histories on large buffers, with positions anywhere inside and around them
fn large() -> BoxedStrategy<(u8, Img, Vec<Op>)> {
    (0u8..3, big(70_000), vec((op(), any::<u32>(), any::<u32>(), any::<bool>()), 1..8))
        .prop_map(|(k, i, ops)| {
            let ops = ops
                .into_iter()
                .map(|(o, a, b, far)| {
                    let (x, y) = (a % (i.w + 2), b % (i.h + 2));
                    // the last position of the buffer is the one most likely to be missed
                    let (x, y) = if a % 5 == 0 { (i.w - 1, i.h - 1) } else { (x, y) };
                    let at = |k: Option<u32>| k.map(|v| if v % 2 == 0 { a % (i.w * i.h + 1) } else { i.w * i.h - 1 });
                    match o {
                        _ if far => o,
                        Op::Get(..) => Op::Get(x, y),
                        Op::Put(_, _, p) => Op::Put(x, y, p),
                        Op::GetClamped(..) => Op::GetClamped(x as i32 - 1, y as i32 - 1),
                        Op::GetOptional(..) => Op::GetOptional(x as i32 - 1, y as i32 - 1),
                        Op::DataPut(_, p) => Op::DataPut(a, p),
                        Op::CloneAndWrite(_, _, p) => Op::CloneAndWrite(x, y, p),
                        Op::Mod(p, k) => Op::Mod(p, at(k)),
                        Op::ModEnum(p, k) => Op::ModEnum(p, at(k)),
                        Op::Map(p, k) => Op::Map(p, at(k)),
                        Op::MapEnum(p, k) => Op::MapEnum(p, at(k)),
                        o => o,
                    }
                })
                .collect();
            (k, i, ops)
        })
        .boxed()
}

/// A uniform buffer with at most two exceptional pixels, anywhere
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lone {
    kind: u8,
    w: u32,
    h: u32,
    base: f32,
    at: [u32; 2],
    /// what is different there: alpha by so much, or red, green, blue by so much
    odd: [(u8, f32); 2],
}

fn lone_case(v: &Lone, c: &mut Case) -> Res {
    let n = v.w * v.h;
    let mut data = vec![[v.base, v.base, v.base, 1.0]; n as usize];
    for (at, (k, d)) in v.at.iter().zip(&v.odd) {
        // the positions are most often in the last row, or the last of all
        let i = match at % 4 {
            0 => n - 1,
            1 => n - 1 - (at / 4) % v.w,
            _ => (at / 4) % n,
        };
        let p = &mut data[i as usize];
        match k % 5 {
            3 => p[3] = 1.0 - d,
            4 => {}
            k => p[k as usize] = if p[k as usize] > 0.5 { p[k as usize] - d } else { p[k as usize] + d },
        }
    }
    let img = Img { w: v.w, h: v.h, data };
    c.label_if(n > 4096, "large");
    let r = history_case(&(v.kind, img.clone(), vec![Op::Flags]), &mut Case::default());
    c.hit_if(img.data.iter().any(|p| p[3] != 1.0 || p[0] != p[1] || p[1] != p[2]));
    r
}

fn lone() -> BoxedStrategy<Lone> {
    let odd = || (0u8..5, prop_oneof![Just(0.5f32), Just(1.0 / 255.0), 1e-4f32..0.5]);
    let size = prop_oneof![
        6 => (1u32..=40, 1u32..=40),
        3 => (1u32..=700, 1u32..=700),
        1 => long_side().prop_flat_map(|(w, h)| Just((w, h))),
    ];
    (0u8..3, size, 0.0f32..1.0, any::<[u32; 2]>(), [odd(), odd()])
        .prop_map(|(kind, (w, h), base, at, odd)| Lone { kind, w, h, base, at, odd })
        .boxed()
}

fn long_side() -> BoxedStrategy<(u32, u32)> {
    let l = || prop_oneof![2 => 1u32..400, 1 => prop::sample::select(vec![255u32, 256, 257, 65535, 65536, 65537])];
    (l(), l()).prop_map(|(a, b)| if a * (b.min(1000)) > 200_000 { (a.min(400), b.min(400)) } else { (a, b) }).boxed()
}

fn c05() -> Property {
    Property {
        id: "C05",
        level: "exploration",
        rule: "a history counts if it writes to a buffer that is not square and has different pixels; a neighbourhood read if it has more than one pixel and the image is not uniform; a size if it has to be refused or, for generator functions, if it stops at an error or is not square",
        assumptions: vec!["the model is a Vec of rows", "kernel positions are limited to +-1000000"],
        subs: vec![
            sub("history", 60_000, 3_000_000, || (0u8..3, img(9), vec(op(), 1..30)), history_case),
            sub("large", 150, 4_000, large, history_case),
            sub("large-kernel", 200, 5_000, || {
                big(70_000).prop_flat_map(|i| {
                    let (w, h) = (i.w as i64, i.h as i64);
                    (Just(i), kernel_pos(w), kernel_pos(h), 1u8..=9)
                })
            }, kernel_case),
            sub("large-func", 200, 5_000, || {
                long_side().prop_flat_map(|(w, h)| (Just(w), Just(h), prop_oneof![Just(None), (0..w * h + 1).prop_map(Some)]))
            }, func_case),
            sub("lone", 1_500, 60_000, lone, lone_case),
            sub("kernel", 100_000, 5_000_000, || {
                img(12).prop_flat_map(|i| {
                    let (w, h) = (i.w as i64, i.h as i64);
                    (Just(i), kernel_pos(w), kernel_pos(h), 1u8..=9)
                })
            }, kernel_case),
            sub("sizes", 40_000, 1_000_000, || {
                (side(), side(), 0u32..600, 0u8..8).prop_map(|(w, h, len, how)| Size { w, h, len, how })
            }, size_case),
            sub("from-func", 40_000, 500_000, || {
                (1u32..20, 1u32..20, prop_oneof![Just(None), (0u32..420).prop_map(Some)])
            }, func_case),
        ],
    }
}
