//! Drives the real code of mitex and records what it does.
//!
//!   vh run <jobs.ndjson> <out.ndjson> [name=spec.json ...]
//!
//! Every job is one JSON object with an `id` and an `op`; every result is one
//! JSON object on its own line, in the order of the jobs.
mod docs;
mod other;

use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub type Specs = HashMap<String, mitex_spec::CommandSpec>;

/// Run `f`; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

/// Store the result under `key`, or note that the code panicked.
pub fn put(out: &mut Map<String, Value>, key: &str, f: impl FnOnce() -> Value) {
    match guard(f) {
        Ok(v) => {
            out.insert(key.into(), v);
        }
        Err(m) => {
            out.entry("panic")
                .or_insert_with(|| json!([]))
                .as_array_mut()
                .unwrap()
                .push(json!([key, m]));
        }
    }
}

fn load_specs(args: &[String]) -> Specs {
    let mut specs = Specs::new();
    specs.insert("default".into(), mitex_spec_gen::DEFAULT_SPEC.clone());
    for a in args {
        let (name, path) = a.split_once('=').expect("name=path");
        let text = std::fs::read_to_string(path).expect("spec file");
        let j: mitex_spec::JsonCommandSpec = serde_json::from_str(&text).expect("spec json");
        specs.insert(name.into(), j.into());
    }
    specs
}

fn handle(job: &Value, specs: &Specs) -> Value {
    let mut out = Map::new();
    out.insert("id".into(), job["id"].clone());
    match job["op"].as_str().unwrap() {
        "doc" => docs::doc(job, specs, &mut out),
        "read" => docs::read(job, specs, &mut out),
        "session" => docs::session(job, specs, &mut out),
        "threads" => docs::threads(job, specs, &mut out),
        "snap" => other::snap(job, &mut out),
        "scope" => other::scope(job, specs, &mut out),
        "glob" => other::glob(job, &mut out),
        "chars" => other::chars(job, specs, &mut out),
        "spec" => other::spec(job, specs, &mut out),
        "dump" => other::dump(job, specs, &mut out),
        op => panic!("unknown op {op}"),
    }
    Value::Object(out)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::var("VH_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(10_000);
    match args[0].as_str() {
        "run" => {
            let jobs: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap())
                .lines()
                .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
                .collect();
            let specs = load_specs(&args[3..]);
            let file = std::fs::OpenOptions::new().append(true).create(true).open(&args[2]).unwrap();
            let file = Arc::new(Mutex::new(file));
            let skip: usize = std::env::var("VH_SKIP").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
            let jobs: Vec<Value> = jobs.into_iter().skip(skip).collect();
            let started = Arc::new(AtomicU64::new(0));
            let busy = Arc::new(AtomicBool::new(false));
            let cur = Arc::new(Mutex::new(Value::Null));
            let t0 = std::time::Instant::now();
            {
                // a job that does not come back is reported and ends the process
                let (file, started, busy, cur) = (file.clone(), started.clone(), busy.clone(), cur.clone());
                std::thread::spawn(move || loop {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    if busy.load(SeqCst) && t0.elapsed().as_millis() as u64 - started.load(SeqCst) > limit {
                        let id = cur.lock().unwrap().clone();
                        let mut f = file.lock().unwrap();
                        writeln!(f, "{}", json!({"id": id, "hang": true})).unwrap();
                        std::process::exit(3);
                    }
                });
            }
            let worker = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut buf = String::new();
                    for job in &jobs {
                        *cur.lock().unwrap() = job["id"].clone();
                        started.store(t0.elapsed().as_millis() as u64, SeqCst);
                        busy.store(true, SeqCst);
                        let r = handle(job, &specs);
                        busy.store(false, SeqCst);
                        buf.clear();
                        buf.push_str(&r.to_string());
                        buf.push('\n');
                        file.lock().unwrap().write_all(buf.as_bytes()).unwrap();
                    }
                })
                .unwrap();
            worker.join().unwrap();
        }
        c => panic!("unknown command {c}"),
    }
}
