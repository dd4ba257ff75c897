//! A Python process that runs scripts of calls
use d10::{Image, Rgb};
use d10_verif::engine::{err, Fail};
use d10_verif::gen::{Img, Px};
use d10_verif::scratch::Dir;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, ExitStatus, Stdio};

struct Worker {
    /// Working directory, for files with junk as name
    _dir: Dir,
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn spawn() -> Worker {
    let root = root();
    let python = std::env::var("VERIF_PYTHON").unwrap_or_else(|_| "/opt/vp/venv/bin/python".into());
    let dir = Dir::new();
    let mut child = Command::new(&python)
        .current_dir(dir.path())
        .args(["-B", "-u", "-W", "ignore"])
        .arg(format!("{root}/harness/pyext/worker.py"))
        .arg(format!("{root}/harness/target/py/module"))
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("OMP_NUM_THREADS", "1")
        .env("OPENBLAS_NUM_THREADS", "1")
        .env_remove("PYTHONPATH")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("cannot start {python}: {e}");
            std::process::exit(4)
        });
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Worker { _dir: dir, child, stdin, stdout }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    None,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Col(String, Px),
    Img(Img),
    Arr { dtype: String, shape: Vec<usize>, bytes: Vec<u8> },
    List(Vec<Val>),
    Other(String),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Exc {
    pub name: String,
    pub exception: bool,
    pub msg: String,
}

#[derive(Debug, Clone)]
pub struct Answer {
    pub res: Result<Val, Exc>,
    pub calls: Option<Vec<Value>>,
}

pub struct Reply {
    pub steps: Vec<Answer>,
    pub dumps: Value,
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn floats(s: &str) -> Vec<f32> {
    unhex(s).chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect()
}

fn pixels(s: &str) -> Vec<Px> {
    floats(s).chunks(4).map(|c| c.try_into().unwrap()).collect()
}

pub fn val(v: &Value) -> Val {
    let Some((k, v)) = v.as_object().and_then(|o| o.iter().next()) else {
        return Val::Other(v.to_string());
    };
    match k.as_str() {
        "n" => Val::None,
        "b" => Val::Bool(v.as_bool().unwrap()),
        "i" => v.as_i64().map_or(Val::Other(v.to_string()), Val::Int),
        "f" => Val::Float(f64::from_le_bytes(unhex(v.as_str().unwrap()).try_into().unwrap())),
        "s" => Val::Str(v.as_str().unwrap().into()),
        "col" => Val::Col(v[0].as_str().unwrap().into(), pixels(v[1].as_str().unwrap())[0]),
        "img" => Val::Img(Img {
            w: v[0].as_u64().unwrap() as u32,
            h: v[1].as_u64().unwrap() as u32,
            data: pixels(v[2].as_str().unwrap()),
        }),
        "arr" => Val::Arr {
            dtype: v[0].as_str().unwrap().into(),
            shape: v[1].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect(),
            bytes: unhex(v[2].as_str().unwrap()),
        },
        "l" => Val::List(v.as_array().unwrap().iter().map(val).collect()),
        _ => Val::Other(v.to_string()),
    }
}

/// The answer of the interpreter, or how it ended
fn ask(req: &Value) -> Result<String, Option<ExitStatus>> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        let worker = w.get_or_insert_with(spawn);
        let mut line = String::new();
        let sent = writeln!(worker.stdin, "{req}").and_then(|_| worker.stdin.flush());
        if sent.is_ok() && worker.stdout.read_line(&mut line).is_ok_and(|n| n > 0) {
            return Ok(line);
        }
        let mut dead = w.take().unwrap();
        Err(dead.child.wait().ok())
    })
}

/// Run the steps; the end of the interpreter is a failure
pub fn run(vars: Value, steps: Vec<Value>, dump: &[&str]) -> Result<Reply, Fail> {
    let n = steps.len();
    let req = json!({"vars": vars, "steps": steps, "dump": dump});
    let line = match ask(&req) {
        // Ended from outside, by someone else's kill or by the memory guard: what the code under test does
        // to its own process happens again
        Err(Some(s)) if [libc::SIGTERM, libc::SIGKILL].map(Some).contains(&s.signal()) => ask(&req),
        r => r,
    }
    .map_err(|s| err("interpreter-died", format!("the Python interpreter ended: {}", s.map(|s| s.to_string()).unwrap_or_default())))?;
    let v: Value = serde_json::from_str(&line).map_err(|e| err("protocol", format!("{e}: {line}")))?;
    let steps: Vec<Answer> = v["r"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| Answer {
            res: match r.get("ok") {
                Some(ok) => Ok(val(ok)),
                None => Err(Exc {
                    name: r["exc"].as_str().unwrap().into(),
                    exception: r["exception"].as_bool().unwrap(),
                    msg: r["msg"].as_str().unwrap().into(),
                }),
            },
            calls: r.get("calls").map(|c| c.as_array().unwrap().clone()),
        })
        .collect();
    assert_eq!(steps.len(), n);
    Ok(Reply { steps, dumps: v["d"].clone() })
}

pub fn hex(bytes: impl IntoIterator<Item = u8>) -> String {
    bytes.into_iter().map(|b| format!("{b:02x}")).collect()
}

pub fn f(v: f32) -> Value {
    json!({ "f": v.to_bits() })
}

pub fn rgb(p: &Px) -> Value {
    json!({ "c": p.map(f32::to_bits) })
}

pub fn img(i: &Img) -> Value {
    json!({"img": [i.w, i.h, hex(i.data.iter().flatten().flat_map(|v| v.to_le_bytes()))]})
}

pub fn lib(i: &Img) -> Image {
    Image::new_from_raw(i.w, i.h, i.data.iter().map(|d| Rgb { data: *d }).collect())
}

pub fn from_lib(i: &Image) -> Img {
    Img { w: i.width(), h: i.height(), data: i.data().iter().map(|c| c.data).collect() }
}

/// Equal up to rounding in the last bits
pub fn near(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-6 * (1.0 + a.abs())
}

pub fn near_px(a: &Px, b: &Px) -> bool {
    a.iter().zip(b).all(|(a, b)| near(*a, *b))
}

pub fn near_img(a: &Img, b: &Img) -> Result<(), String> {
    if (a.w, a.h) != (b.w, b.h) {
        return Err(format!("{}x{} instead of {}x{}", a.w, a.h, b.w, b.h));
    }
    match a.data.iter().zip(&b.data).position(|(a, b)| !near_px(a, b)) {
        None if a.data.len() == b.data.len() => Ok(()),
        None => Err(format!("{} pixels instead of {}", a.data.len(), b.data.len())),
        Some(i) => Err(format!("pixel {i} is {:?} instead of {:?}", a.data[i], b.data[i])),
    }
}

pub fn same(a: &Val, b: &Val) -> Result<(), String> {
    let ok = match (a, b) {
        (Val::Img(a), Val::Img(b)) => return near_img(a, b),
        (Val::Col(n, a), Val::Col(m, b)) => n == m && near_px(a, b),
        (Val::Float(a), Val::Float(b)) => near(*a as f32, *b as f32),
        (Val::List(a), Val::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b).is_ok()),
        _ => a == b,
    };
    if ok {
        return Ok(());
    }
    Err(format!("{a:?} instead of {b:?}"))
}
