//! The call that is running, kept in a file for the case that it never returns.
use serde_json::Value;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static FILE: Mutex<Option<File>> = Mutex::new(None);
static SINCE: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

pub fn open(path: &str) {
    *FILE.lock().unwrap() = Some(File::create(path).expect("pending file"));
    std::thread::spawn(|| {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = COUNT.load(Ordering::SeqCst);
            if SINCE.load(Ordering::SeqCst) == 1 && now == last {
                same += 1;
            } else {
                same = 0;
            }
            last = now;
            if same >= 30 {
                // the call does not return
                std::process::exit(97);
            }
        }
    });
}

pub fn set(what: impl FnOnce() -> Value) {
    if let Some(f) = &*FILE.lock().unwrap() {
        let s = what().to_string();
        let line = format!("{:<12}{}\n", s.len(), s);
        let _ = f.write_all_at(line.as_bytes(), 0);
    }
    COUNT.fetch_add(1, Ordering::SeqCst);
    SINCE.store(1, Ordering::SeqCst);
}

pub fn clear() {
    SINCE.store(0, Ordering::SeqCst);
    if let Some(f) = &*FILE.lock().unwrap() {
        let _ = f.write_all_at(b"0           ", 0);
    }
}
