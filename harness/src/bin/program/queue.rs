//! C22 command queues
use super::model::*;
use d10_commands::{CommandError, Queue};
use d10_verif::engine::*;
use d10_verif::ensure;
use d10_verif::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case22 {
    imgs: [Img; 2],
    steps: Vec<Step>,
    /// built with the methods of the queue instead of pushed commands
    method: bool,
    twice: bool,
}

#[derive(Debug, Serialize, Deserialize)]
struct Report {
    kind: Option<String>,
    text: String,
    source: bool,
    len: usize,
    empty: bool,
}

fn queue_of(v: &Case22, root: &Path) -> Queue {
    let mut q = Queue::default();
    for s in &v.steps {
        if v.method {
            q = s.build(q, root);
        } else {
            q.push(s.cmd(root));
        }
    }
    q
}

/// `program --run-queue CASE`: run a queue in the current directory
pub fn run_queue(file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else { return 7 };
    let Ok(v) = serde_json::from_str::<Case22>(&text) else { return 7 };
    let Ok(root) = std::env::current_dir() else { return 7 };
    let q = queue_of(&v, &root);
    let mut all = vec![];
    for _ in 0..if v.twice { 2 } else { 1 } {
        let r = q.run();
        println!("end");
        let source = r.as_ref().err().is_some_and(|e| std::error::Error::source(e).is_some());
        let (kind, text) = match r {
            Ok(()) => (None, String::new()),
            Err(e) => {
                let text = e.to_string();
                let kind = match e {
                    CommandError::MissingImage => "MissingImage",
                    CommandError::Decoding(_) => "Decoding",
                    CommandError::Encoding(_) => "Encoding",
                };
                (Some(kind.to_string()), text)
            }
        };
        all.push(Report { kind, text, source, len: q.len(), empty: q.is_empty() });
    }
    eprintln!("{}", serde_json::to_string(&all).unwrap());
    0
}

pub fn describe(steps: &[Step]) -> String {
    steps.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(" ")
}

fn queue_case(v: &Case22, c: &mut Case) -> Res {
    let scratch = |e: std::io::Error| err("scratch", e.to_string());
    let (real, model) = scratch_pair(&v.imgs)?;
    let cases = d10_verif::scratch::Dir::new();
    let file = cases.path().join("case.json");
    std::fs::write(&file, serde_json::to_vec(v).unwrap()).map_err(scratch)?;
    let out = std::process::Command::new(std::env::current_exe().map_err(scratch)?)
        .arg("--run-queue")
        .arg(&file)
        .current_dir(real.path())
        .stdin(std::process::Stdio::null())
        .output()
        .map_err(scratch)?;
    let what = describe(&v.steps);
    let (text, errors) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
    ensure!(out.status.code() == Some(0), "panic", "{what}: {}: {}", out.status, errors.trim());
    let reports: Vec<Report> = serde_json::from_str(errors.trim().lines().last().unwrap_or(""))
        .map_err(|e| err("scratch", format!("{what}: {e}: {errors}")))?;
    let runs: Vec<&str> = text.split("end\n").collect();
    let mut random = BTreeMap::new();
    for (i, r) in reports.iter().enumerate() {
        let want = follow(&v.steps, model.path(), &mut random);
        let what = if i > 0 { format!("{what} (second run)") } else { what.clone() };
        c.hit_if(want.worked);
        c.label(match want.failure {
            None => "success".to_string(),
            Some((f, _)) => format!("{f:?}"),
        });
        ensure!(r.len == v.steps.len() && r.empty == v.steps.is_empty(), "len", "{what}: length {} {}", r.len, r.empty);
        match (&r.kind, &want.failure) {
            (None, None) => {}
            (Some(k), Some((f, text))) => {
                ensure!(*k == format!("{f:?}"), "error", "{what}: {k} ({}) instead of {f:?} ({text})", r.text);
                let (a, b) = (plain(&r.text, real.path()), plain(text, model.path()));
                ensure!(!a.is_empty() && (b.is_empty() || a == b), "message", "{what}: {:?} instead of {text:?}", r.text);
                ensure!(r.source == (*f != Failure::MissingImage), "source", "{what}: source of {k}: {}", r.source);
            }
            (None, Some((f, text))) => return fail("ignored", format!("{what}: success instead of {f:?}: {text}")),
            (Some(k), None) => return fail("error", format!("{what}: {k}: {}", r.text)),
        }
        check_log(&what, runs.get(i).copied().unwrap_or(""), &want.log)?;
    }
    compare(&what, real.path(), model.path(), &random)
}

/// Without directories
fn plain(text: &str, root: &Path) -> String {
    text.replace(&format!("{}/", root.display()), "").replace("./", "")
}

/// Every executed command with its number and the total
pub fn check_log(what: &str, text: &str, want: &[(String, &'static str)]) -> Res {
    let lines: Vec<&str> = text.lines().collect();
    ensure!(lines.len() == want.len(), "log", "{what}: {} lines in the log instead of {}: {text}", lines.len(), want.len());
    for (l, (head, word)) in lines.iter().zip(want) {
        let fits = l.strip_prefix(head.as_str()).is_some_and(|r| {
            r.strip_prefix(word).is_some_and(|r| !r.starts_with(|c: char| c.is_alphanumeric()))
        });
        ensure!(fits, "log", "{what}: {l:?} instead of {head}{word}");
    }
    Ok(())
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        level: "exploration",
        rule: "a command between opening and saving changed an image",
        assumptions: vec![
            "the effect of a single command is defined by the color and image methods of the library, which other properties check",
            "the content after a random command is only checked against the bounds of the noise",
        ],
        subs: vec![
            sub("queue", 6_000, 120_000, || cases(pictures(), history()), queue_case),
            // numbers of steps with three and four digits
            sub("long", 1_200, 25_000, || cases([img(3), img(3)].boxed(), long_history()), queue_case),
        ],
    }
}

fn cases(imgs: BoxedStrategy<[Img; 2]>, steps: BoxedStrategy<Vec<Step>>) -> BoxedStrategy<Case22> {
    (imgs, steps, any::<bool>(), proptest::bool::weighted(0.15))
        .prop_map(|(imgs, steps, method, twice)| Case22 { imgs, steps, method, twice })
        .boxed()
}
