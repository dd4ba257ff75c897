//! Scratch directories that are removed when they are dropped
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Dir(PathBuf);

static NEXT: AtomicU64 = AtomicU64::new(0);

impl Dir {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Dir {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let name = format!("d10-verif-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst));
        for base in [base, std::env::temp_dir()] {
            let dir = base.join(&name);
            if std::fs::create_dir(&dir).is_ok() {
                return Dir(dir);
            }
        }
        panic!("cannot create a scratch directory");
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
