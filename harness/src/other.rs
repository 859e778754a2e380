//! Snapshot maps, macro scopes, patterns, characters and specifications.
use crate::{docs, put, Specs};
use mitex_lexer::snapshot_map::{Snapshot, SnapshotMap};
use mitex_lexer::{Lexer, MacroEngine};
use mitex_spec::*;
use serde_json::{json, Map, Value};

/// A history on a snapshot map: ["ins",k,v] ["rem",k] ["snap"] ["roll"] ["commit"]
/// The map is observed after every operation.
pub fn snap(job: &Value, out: &mut Map<String, Value>) {
    put(out, "obs", || {
        let keys: Vec<String> = job["keys"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().into()).collect();
        let mut m: SnapshotMap<String, i64> = SnapshotMap::default();
        let mut snaps: Vec<Snapshot> = vec![];
        let mut obs = vec![];
        for o in job["ops"].as_array().unwrap() {
            let ret = match o[0].as_str().unwrap() {
                "ins" => m.insert(o[1].as_str().unwrap().into(), o[2].as_i64().unwrap()),
                "rem" => m.remove(o[1].as_str().unwrap().into()),
                "snap" => {
                    snaps.push(m.snapshot());
                    true
                }
                "roll" => {
                    m.rollback_to(snaps.pop().unwrap());
                    true
                }
                "commit" => {
                    m.commit(snaps.pop().unwrap());
                    true
                }
                o => panic!("unknown {o}"),
            };
            let view: Vec<i64> = keys.iter().map(|k| m.get(k).copied().unwrap_or(0)).collect();
            obs.push(json!([ret, view]));
        }
        json!(obs)
    });
}

/// A history of a macro engine's scopes; which names are defined is observed
/// after every operation (on this engine and on a fresh one).
/// ["snap"] ["roll"] ["add",name,of]: add the definition that `of` has
pub fn scope(job: &Value, specs: &Specs, out: &mut Map<String, Value>) {
    put(out, "obs", || {
        let spec = specs[job["spec"].as_str().unwrap_or("default")].clone();
        let doc = job["doc"].as_str().unwrap();
        let names: Vec<&str> = job["names"].as_array().unwrap().iter().map(|k| k.as_str().unwrap()).collect();
        // definitions come from a document read by another lexer
        let mut src = Lexer::new_with_bumper(doc, spec.clone(), MacroEngine::new(spec.clone()));
        while src.eat().is_some() {}
        let ident = |m: Option<_>, src: &mut Lexer<MacroEngine>| -> String {
            // a definition is identified by its printed form
            let _ = src;
            m.map_or("-".into(), |m| format!("{m:?}"))
        };
        let mut eng = MacroEngine::new(spec.clone());
        let mut snaps = vec![];
        let mut obs = vec![];
        let printed: Vec<(String, String)> = names
            .iter()
            .map(|n| {
                let m = src.get_macro(n);
                let s = ident(m, &mut src);
                (n.to_string(), s)
            })
            .collect();
        let name_of = |s: String| -> String {
            printed.iter().find(|p| p.1 == s && s != "-").map_or_else(|| if s == "-" { "-".into() } else { "?".into() }, |p| p.0.clone())
        };
        use mitex_lexer::MacroifyStream;
        for o in job["ops"].as_array().unwrap() {
            match o[0].as_str().unwrap() {
                "snap" => snaps.push(eng.create_scope()),
                "roll" => eng.restore(snaps.pop().unwrap()),
                "add" => {
                    let of = o[2].as_str().unwrap();
                    let m = src.get_macro(of).unwrap();
                    let n = names.iter().find(|n| **n == o[1].as_str().unwrap()).unwrap();
                    eng.add_macro(n, m);
                }
                o => panic!("unknown {o}"),
            }
            let fresh = MacroEngine::new(spec.clone());
            let a: Vec<String> = names.iter().map(|n| name_of(ident(eng.get_macro(n), &mut src))).collect();
            let b: Vec<String> = names.iter().map(|n| name_of(ident(fresh.get_macro(n), &mut src))).collect();
            obs.push(json!([a, b]));
        }
        json!(obs)
    });
}

/// For one pattern: the strings accepted by the prefix and the full matcher.
pub fn glob(job: &Value, out: &mut Map<String, Value>) {
    let pat = job["pat"].as_str().unwrap();
    let strs = job["strs"].as_array().unwrap();
    for (key, f) in [("prefix", mitex_glob::glob_match_prefix as fn(&str, &str) -> bool), ("full", mitex_glob::glob_match)] {
        put(out, key, || json!(strs.iter().map(|s| f(pat, s.as_str().unwrap())).collect::<Vec<_>>()));
    }
}

/// The token kind of every Unicode character standing alone and in the middle
/// of a word, as runs of equal classification.
pub fn chars(_job: &Value, specs: &Specs, out: &mut Map<String, Value>) {
    put(out, "runs", || {
        let spec = specs["default"].clone();
        let mut runs: Vec<(u32, u32, String)> = vec![];
        for cp in 0..=0x10ffffu32 {
            let Some(c) = char::from_u32(cp) else { continue };
            let mut class = String::new();
            for doc in [format!("{c}"), format!("q{c}q"), format!("\\q{c}"), format!("\\{c}q")] {
                let ts = docs::toks(Lexer::<()>::new(&doc, spec.clone()), 100);
                for t in ts {
                    let text = t[1].as_str().unwrap().replace(c, "\u{fffd}");
                    class.push_str(&format!("{}:{};", t[0].as_str().unwrap(), text));
                }
                class.push('|');
            }
            // the mark itself names punctuation classes
            let next = |hi: u32| hi + 1 == cp || (hi == 0xd7ff && cp == 0xe000);
            match runs.last_mut() {
                Some(r) if r.2 == class && next(r.1) => r.1 = cp,
                _ => runs.push((cp, cp, class)),
            }
        }
        json!(runs)
    });
}

fn pattern(p: &ArgPattern) -> Value {
    match p {
        ArgPattern::None => json!(["none"]),
        ArgPattern::FixedLenTerm { len } => json!(["fixed", len]),
        ArgPattern::RangeLenTerm { min, max } => json!(["range", min, max]),
        ArgPattern::Greedy => json!(["greedy"]),
        ArgPattern::Glob { pattern } => json!(["glob", &*pattern.0]),
    }
}

fn item(i: &CommandSpecItem) -> Value {
    match i {
        CommandSpecItem::Cmd(c) => {
            let a = match &c.args {
                ArgShape::Right { pattern: p } => pattern(p),
                ArgShape::Left1 => json!(["left1"]),
                ArgShape::InfixGreedy => json!(["infix"]),
            };
            json!({"t": "cmd", "a": a, "al": c.alias.clone().map_or(json!([]), |s| json!([s]))})
        }
        CommandSpecItem::Env(e) => {
            let ctx = match e.ctx_feature {
                ContextFeature::None => "none",
                ContextFeature::IsMath => "math",
                ContextFeature::IsMatrix => "matrix",
                ContextFeature::IsCases => "cases",
                ContextFeature::IsFigure => "figure",
                ContextFeature::IsTable => "table",
                ContextFeature::IsItemize => "itemize",
                ContextFeature::IsEnumerate => "enumerate",
            };
            json!({"t": "env", "a": pattern(&e.args), "ctx": ctx, "al": e.alias.clone().map_or(json!([]), |s| json!([s]))})
        }
    }
}

fn table(s: &CommandSpec) -> Value {
    let mut m = Map::new();
    let mut names: Vec<&str> = s.items().map(|(k, _)| k).collect();
    names.sort();
    for n in names {
        m.insert(n.into(), item(s.get(n).unwrap()));
    }
    Value::Object(m)
}

/// Views of a specification: its items (as given, after the binary encoding at
/// several alignments, after JSON) and the lookups by kind.
pub fn spec(job: &Value, specs: &Specs, out: &mut Map<String, Value>) {
    let s = match job["json"].as_str() {
        Some(text) => {
            let r: Result<JsonCommandSpec, _> = serde_json::from_str(text);
            match r {
                Ok(r) => CommandSpec::from(r),
                Err(e) => {
                    out.insert("bad".into(), json!(e.to_string()));
                    return;
                }
            }
        }
        None => match job["rkyv"].as_str() {
            Some(path) => CommandSpec::from_bytes(&std::fs::read(path).unwrap()),
            None => specs[job["spec"].as_str().unwrap()].clone(),
        },
    };
    out.insert("items".into(), table(&s));
    put(out, "bytes", || {
        let b = s.to_bytes();
        let mut r = vec![];
        for off in 0..16usize {
            // a buffer whose start has the alignment `off` modulo 16
            let mut buf = vec![0u8; b.len() + 32];
            let base = buf.as_ptr() as usize;
            let start = (16 - base % 16) % 16 + off;
            buf[start..start + b.len()].copy_from_slice(&b);
            let d = CommandSpec::from_bytes(&buf[start..start + b.len()]);
            let t = table(&d);
            if !r.contains(&t) {
                r.push(t);
            }
            // SAFETY: the bytes come from `to_bytes`
            let d = unsafe { CommandSpec::from_bytes_unchecked(&buf[start..start + b.len()]) };
            let t = table(&d);
            if !r.contains(&t) {
                r.push(t);
            }
        }
        json!(r)
    });
    put(out, "json", || {
        // canonical items written as JSON and read again
        let m: Map<String, Value> = s
            .items()
            .map(|(k, v)| {
                let v = match v {
                    CommandSpecItem::Cmd(c) => {
                        let mut v = serde_json::to_value(c).unwrap();
                        v["kind"] = json!("cmd");
                        v
                    }
                    CommandSpecItem::Env(e) => {
                        let mut v = serde_json::to_value(e).unwrap();
                        v["kind"] = json!("env");
                        v
                    }
                };
                (k.to_string(), v)
            })
            .collect();
        let text = json!({ "commands": m }).to_string();
        let r: JsonCommandSpec = serde_json::from_str(&text).unwrap();
        // and once more through the JSON form of the JSON specification itself
        let text2 = serde_json::to_string(&r).unwrap();
        let r2: JsonCommandSpec = serde_json::from_str(&text2).unwrap();
        let (a, b) = (table(&r.into()), table(&r2.into()));
        json!(if a == b { vec![a] } else { vec![a, b] })
    });
    put(out, "lookup", || {
        let mut bad = vec![];
        let names: Vec<String> = s.items().map(|(k, _)| k.to_string()).collect();
        for n in &names {
            let (c, e) = (s.get_cmd(n).is_some(), s.get_env(n).is_some());
            let want = matches!(s.get(n), Some(CommandSpecItem::Cmd(_)));
            if c != want || e == want {
                bad.push(n.clone());
            }
        }
        for n in ["", "nosuchname", "\\alpha"] {
            if !names.iter().any(|m| m == n) && (s.get(n).is_some() || s.get_cmd(n).is_some() || s.get_env(n).is_some()) {
                bad.push(n.into());
            }
        }
        json!(bad)
    });
}

/// The printed syntax tree of a document, with the built-in specification.
pub fn dump(job: &Value, specs: &Specs, out: &mut Map<String, Value>) {
    let d = job["doc"].as_str().unwrap();
    put(out, "dump", || {
        json!(format!("{:#?}", mitex_parser::parse(d, specs["default"].clone())))
    });
}
