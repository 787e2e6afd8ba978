//! Runs cases on several threads. A panic becomes data of the case; a case
//! that does not come back within the time limit ends the process with exit
//! code 3 after naming itself; a crash of the process can be traced to the
//! cases named in `<results>.inflight`.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type CaseFn = fn(&Value) -> Value;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Run `f`, turning a panic into an error with its message and place
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn case_limit() -> Duration {
    let secs = std::env::var("KVH_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
    Duration::from_secs(secs)
}

pub fn run(f: CaseFn, cases: &str, results: &str, threads: usize) {
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
    }));
    let input = std::fs::File::open(cases).unwrap_or_else(|e| {
        eprintln!("cannot open {}: {}", cases, e);
        std::process::exit(2)
    });
    let lines: Arc<Vec<String>> = Arc::new(
        BufReader::new(input).lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect(),
    );
    let next = Arc::new(AtomicUsize::new(0));
    let out: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; lines.len()]));
    let slots: Arc<Vec<Mutex<Option<(usize, Instant)>>>> =
        Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let inflight_path = format!("{}.inflight", results);
    let mut handles = Vec::new();
    for t in 0..threads {
        let (lines, next, out, slots) = (lines.clone(), next.clone(), out.clone(), slots.clone());
        let inflight = format!("{}.{}", inflight_path, t);
        let handle = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let file = std::fs::File::create(&inflight).unwrap();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= lines.len() {
                        break;
                    }
                    use std::os::unix::fs::FileExt;
                    file.write_all_at(format!("{:>12}\n", i).as_bytes(), 0).unwrap();
                    *slots[t].lock().unwrap() = Some((i, Instant::now()));
                    let case: Value = serde_json::from_str(&lines[i]).unwrap_or_else(|e| {
                        eprintln!("case {} is not JSON: {}", i, e);
                        std::process::exit(2)
                    });
                    let mut r = match guarded(|| f(&case)) {
                        Ok(v) => v,
                        Err(msg) => json!({ "panic": msg }),
                    };
                    if r.get("id").is_none() {
                        r["id"] = case["id"].clone();
                    }
                    out.lock().unwrap()[i] = Some(r.to_string());
                    *slots[t].lock().unwrap() = None;
                }
                drop(file);
                let _ = std::fs::remove_file(&inflight);
            })
            .unwrap();
        handles.push(handle);
    }
    {
        let slots = slots.clone();
        let limit = case_limit();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            for s in slots.iter() {
                if let Some((i, t)) = *s.lock().unwrap() {
                    if t.elapsed() > limit {
                        println!("HANG case={}", i);
                        std::process::exit(3);
                    }
                }
            }
        });
    }
    for h in handles {
        if h.join().is_err() {
            eprintln!("worker failed");
            std::process::exit(2);
        }
    }
    let mut file = std::io::BufWriter::new(std::fs::File::create(results).unwrap());
    for r in out.lock().unwrap().iter() {
        writeln!(file, "{}", r.as_ref().unwrap()).unwrap();
    }
    file.flush().unwrap();
}
