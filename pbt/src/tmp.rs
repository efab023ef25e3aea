//! Scratch directories, all below one base directory that the supervising process removes.

use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(0);

pub fn new_base() -> PathBuf {
    let name = format!("pbt-{}", std::process::id());
    for root in [PathBuf::from("/dev/shm"), std::env::temp_dir()] {
        let p = root.join(&name);
        if std::fs::create_dir_all(&p).is_ok() {
            return p;
        }
    }
    panic!("no place for scratch directories");
}

fn base() -> PathBuf {
    match std::env::var_os("PBT_TMP") {
        Some(p) => PathBuf::from(p),
        None => {
            let p = new_base();
            std::env::set_var("PBT_TMP", &p);
            p
        }
    }
}

pub struct Dir(PathBuf);

impl Dir {
    pub fn new() -> Dir {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let p = base().join(format!("{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Dir(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
