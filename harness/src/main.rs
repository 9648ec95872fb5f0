mod gen;
mod jsonv;
mod md;
mod more;
mod ops;
mod pending;
mod props;
mod replay;
mod small;
mod tree;

use gen::Rng;
use serde_json::Value;
use std::io::Write;

/// pmharness trace PROP SEED SESSIONS OUT PENDING      record sessions with the library
/// pmharness replay PROP BEHAVIOURS OUT PENDING             step behaviours of the specification
/// pmharness small PROP PART TARGET SCOPE OUT PENDING   one of several parts of a small scope
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var_os("PM_PANIC").is_none() {
        std::panic::set_hook(Box::new(|info| {
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
            *LAST.lock().unwrap() = at.unwrap_or_default();
        }));
    }
    // deep trees are dropped and compared recursively
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(&a)).unwrap();
    t.join().unwrap_or_else(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = LAST.lock().unwrap().clone();
        // the library's own sources, as opposed to the harness's relative paths
        let whose = if at.contains("/repo/src/") { "LIBRARY PANIC" } else { "harness error" };
        eprintln!("{}: {} ({})", whose, m, at);
        std::process::exit(98)
    });
}

static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn run(a: &[String]) {
    let writer = |path: &str| std::io::BufWriter::new(std::fs::File::create(path).expect("output"));
    match a[1].as_str() {
        "trace" => {
            let (prop, seed, n) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<usize>().unwrap());
            let mut out = writer(&a[5]);
            pending::open(&a[6]);
            let number: u64 = prop[1..].parse().unwrap();
            for k in 0..n {
                // every fourth session nearly repeats the one before
                let again = k > 150 && k % 4 == 3;
                let i = if again { k - 1 } else { k };
                gen::NEARLY.with(|x| x.set(if again { seed ^ (k as u64) << 24 ^ 77 } else { 0 }));
                gen::LAST.with(|l| *l.borrow_mut() = None);
                let mut r = Rng::new(seed.wrapping_mul(1_000_003) ^ (i as u64) << 8 ^ number);
                // a few calls with a huge document come first
                let huge = i < 6 && HUGE.contains(&prop.as_str());
                gen::HUGE.with(|h| h.set(if huge { i as u8 + 1 } else { 0 }));
                // in a third of the sessions the parts of documents have a history
                tree::AGE.with(|a| a.set(if i % 3 == 2 { seed ^ (i as u64 + 1) << 32 ^ number } else { 0 }));
                let mut s = session(prop, &mut r, i);
                if huge {
                    some_events(&mut r, &mut s, if i < 2 { 4 } else { 10 });
                }
                s["id"] = Value::from(k);
                writeln!(out, "{}", s).unwrap();
            }
        }
        "replay" => {
            let mut out = writer(&a[4]);
            pending::open(&a[5]);
            tree::AGE.with(|a| a.set(1));
            replay::run(&a[2], &a[3], &mut out);
        }
        "small" => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let mut out = writer(&a[6]);
            pending::open(&a[7]);
            tree::AGE.with(|a| a.set(if n(3) % 2 == 1 { n(3) } else { 0 }));
            let parts = small::run(&a[2], n(3), n(4), &a[5], &mut out);
            println!("PARTS {}", parts);
        }
        x => panic!("unknown mode {}", x),
    }
}

const HUGE: [&str; 17] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C15", "C16", "C11", "C12", "C13", "C19", "C21", "C22"];

/// Keep only n of the session's calls
fn some_events(r: &mut Rng, s: &mut Value, n: usize) {
    let evs = s["evs"].as_array_mut().unwrap();
    if evs.iter().any(|e| e["upd"] == true || e["op"] == "submit") {
        evs.truncate(n);
    }
    while evs.len() > n {
        evs.remove(r.below(evs.len()));
    }
}

fn session(prop: &str, r: &mut Rng, i: usize) -> Value {
    match prop {
        "C01" => props::c01(r),
        "C02" => props::c02(r),
        "C03" => props::c03(r),
        "C04" => props::c04(r),
        "C05" => props::c05(r),
        "C06" => props::c06(r),
        "C07" => props::c07(r),
        "C08" => props::c08(r),
        "C09" => props::c09(r),
        "C10" => props::c10(r),
        "C11" => props::c11(r),
        "C12" => props::c12(r),
        "C13" => jsonv::c13(r),
        "C14" => props::c14_exhaustive(i).unwrap_or_else(|| props::c14(r)),
        "C15" => props::c15(r),
        "C16" => props::c16(r),
        "C17" => md::c17(r),
        "C18" => md::c18(r),
        "C19" => props::c19(r),
        "C20" => more::c20(r),
        "C21" => more::c21(r),
        "C22" => md::c22(r),
        p => panic!("unknown property {}", p),
    }
}
