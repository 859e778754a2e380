//! Calls the functions of the plugin: one JSON job per line on standard input.
//! {"fn": .., "input": [bytes], "spec": [bytes] | null}
#[path = "/repo/crates/mitex-wasm/src/lib.rs"]
mod wasm;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let j: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let (input, spec) = (bytes(&j["input"]), bytes(&j["spec"]));
        let f = j["fn"].as_str().unwrap().to_owned();
        let r = std::panic::catch_unwind(|| match f.as_str() {
            "convert_math" => wasm::convert_math(&input, &spec),
            "convert_text" => wasm::convert_text(&input, &spec),
            "compile_spec" => wasm::compile_spec(&input),
            _ => panic!(),
        });
        let v = match r {
            Ok(Ok(b)) => json!({"ok": b}),
            Ok(Err(e)) => json!({"err": e}),
            Err(_) => json!({"panic": true}),
        };
        writeln!(out.lock(), "{v}").unwrap();
    }
}
