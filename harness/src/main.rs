//! Replays jobs (files + a sequence of library calls) against the real avdl library.
//!
//! stdin: one JSON job per line; stdout: one JSON result per line, in order.
//! Every job runs inside its own scratch directory below the directory given as
//! the first argument; that directory is the working directory of the calls.

use std::cell::RefCell;
use std::fs;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};

use avdl::{Idl, Idl2Schemata};
use miette::Diagnostic;
use serde_json::{Map, Value, json};

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn source_name(d: &dyn Diagnostic, label: &miette::LabeledSpan) -> Option<(Option<String>, String)> {
    let src = d.source_code()?;
    let c = src.read_span(label.inner(), 0, 0).ok()?;
    let start = label.offset() - c.span().offset();
    let data = c.data();
    let end = (start + label.len()).min(data.len());
    let text = data
        .get(start..end)
        .map(|b| String::from_utf8_lossy(b).into_owned())
        .unwrap_or_default();
    Some((c.name().map(str::to_string), text))
}

fn diag(d: &dyn Diagnostic) -> Value {
    let mut chain = vec![Value::String(d.to_string())];
    let mut cur: Option<&dyn std::error::Error> = std::error::Error::source(d);
    while let Some(e) = cur {
        chain.push(Value::String(e.to_string()));
        cur = e.source();
    }
    let mut labels = Vec::new();
    if let Some(ls) = d.labels() {
        for l in ls {
            let (name, text) = match source_name(d, &l) {
                Some((n, t)) => (n.map_or(Value::Null, Value::String), Value::String(t)),
                None => (Value::Null, Value::Null),
            };
            labels.push(json!({"off": l.offset(), "len": l.len(), "src": name, "text": text}));
        }
    }
    let mut related = Vec::new();
    if let Some(rs) = d.related() {
        for r in rs {
            related.push(diag(r));
        }
    }
    json!({
        "chain": chain,
        "labels": labels,
        "help": d.help().map(|h| h.to_string()),
        "sev": d.severity().map(|s| format!("{s:?}")),
        "related": related,
    })
}

fn reports(ws: &[miette::Report]) -> Value {
    Value::Array(ws.iter().map(|w| diag(w.as_ref())).collect())
}

fn rendered(ws: &[miette::Report]) -> Value {
    Value::Array(ws.iter().map(|w| Value::String(format!("{w:?}"))).collect())
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

enum Builder {
    Idl(Idl),
    Sch(Idl2Schemata),
}

fn run_op(b: &mut Builder, op: &Value, root: &Path) -> Value {
    let kind = op["op"].as_str().unwrap_or("");
    let render = op["render"].as_bool().unwrap_or(false);
    let path = |key: &str| -> PathBuf {
        let p = op[key].as_str().unwrap_or("");
        if op["abs"].as_bool().unwrap_or(false) { root.join(p) } else { PathBuf::from(p) }
    };
    let mut out = Map::new();
    out.insert("op".into(), Value::String(kind.into()));
    match kind {
        "dir" => {
            let p = path("path");
            match b {
                Builder::Idl(i) => { i.import_dir(p); }
                Builder::Sch(i) => { i.import_dir(p); }
            }
        }
        "drain" => {
            let ws = match b {
                Builder::Idl(i) => i.drain_warnings(),
                Builder::Sch(i) => i.drain_warnings(),
            };
            out.insert("warnings".into(), reports(&ws));
            if render { out.insert("rendered".into(), rendered(&ws)); }
        }
        "file" | "str" | "strn" => {
            let failed = match b {
                Builder::Idl(i) => {
                    let r = match kind {
                        "file" => i.convert(path("path")),
                        "str" => i.convert_str(leak(op["src"].as_str().unwrap_or(""))),
                        _ => i.convert_str_named(leak(op["src"].as_str().unwrap_or("")), leak(op["name"].as_str().unwrap_or(""))),
                    };
                    match r {
                        Ok(o) => {
                            out.insert("text".into(), Value::String(serde_json::to_string_pretty(&o.json).unwrap_or_default()));
                            out.insert("warnings".into(), reports(&o.warnings));
                            if render { out.insert("rendered".into(), rendered(&o.warnings)); }
                            None
                        }
                        Err(e) => Some(e),
                    }
                }
                Builder::Sch(i) => {
                    let r = match kind {
                        "file" => i.extract(path("path")),
                        "str" => i.extract_str(leak(op["src"].as_str().unwrap_or(""))),
                        _ => i.extract_str_named(leak(op["src"].as_str().unwrap_or("")), leak(op["name"].as_str().unwrap_or(""))),
                    };
                    match r {
                        Ok(o) => {
                            let v: Vec<Value> = o.schemas.iter()
                                .map(|s| json!([s.name, serde_json::to_string_pretty(&s.schema).unwrap_or_default()]))
                                .collect();
                            out.insert("schemas".into(), Value::Array(v));
                            out.insert("warnings".into(), reports(&o.warnings));
                            if render { out.insert("rendered".into(), rendered(&o.warnings)); }
                            None
                        }
                        Err(e) => Some(e),
                    }
                }
            };
            match failed {
                None => { out.insert("ok".into(), Value::Bool(true)); }
                Some(e) => {
                    out.insert("ok".into(), Value::Bool(false));
                    out.insert("err".into(), diag(e.as_ref()));
                    if render { out.insert("errtext".into(), Value::String(format!("{e:?}"))); }
                }
            }
        }
        other => { out.insert("bad".into(), Value::String(other.into())); }
    }
    Value::Object(out)
}

fn prepare(root: &Path, job: &Value) -> std::io::Result<()> {
    fs::create_dir_all(root)?;
    let root = &root.canonicalize()?;
    for f in job["files"].as_array().into_iter().flatten() {
        let p = root.join(f["path"].as_str().unwrap_or("x"));
        if let Some(d) = p.parent() { fs::create_dir_all(d)?; }
        if f["dir"].as_bool().unwrap_or(false) {
            fs::create_dir_all(&p)?;
        } else if let Some(t) = f["link"].as_str() {
            std::os::unix::fs::symlink(t, &p)?;
        } else if let Some(h) = f["hex"].as_str() {
            let bytes: Vec<u8> = (0..h.len() / 2)
                .filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok())
                .collect();
            fs::write(&p, bytes)?;
        } else {
            // @ROOT@ stands for the absolute path of the job's directory.
            let t = f["text"].as_str().unwrap_or("");
            fs::write(&p, t.replace("@ROOT@", &root.display().to_string()))?;
        }
    }
    Ok(())
}

fn run_job(base: &Path, n: usize, job: &Value) -> Value {
    let id = job["id"].clone();
    let root = base.join(format!("j{n}"));
    if let Err(e) = prepare(&root, job) {
        return json!({"id": id, "harness_error": e.to_string()});
    }
    let root = root.canonicalize().unwrap_or(root);
    if let Err(e) = std::env::set_current_dir(&root) {
        return json!({"id": id, "harness_error": e.to_string()});
    }
    let mut results = Vec::new();
    let mut b = match job["api"].as_str() {
        Some("schemata") => Builder::Sch(Idl2Schemata::new()),
        _ => Builder::Idl(Idl::new()),
    };
    for op in job["ops"].as_array().into_iter().flatten() {
        if op["op"] == "new" {
            b = match op["api"].as_str() {
                Some("schemata") => Builder::Sch(Idl2Schemata::new()),
                _ => Builder::Idl(Idl::new()),
            };
            results.push(json!({"op": "new"}));
            continue;
        }
        if op["op"] == "write" {
            // The environment changes a file between two calls.
            let p = root.join(op["path"].as_str().unwrap_or("x"));
            let r = match op["text"].as_str() {
                Some(t) => fs::create_dir_all(p.parent().unwrap()).and_then(|_| fs::write(&p, t)),
                None => fs::remove_file(&p),
            };
            results.push(json!({"op": "write", "done": r.is_ok()}));
            continue;
        }
        PANIC.with(|p| *p.borrow_mut() = None);
        let t0 = std::time::Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| run_op(&mut b, op, &root)));
        let ms = t0.elapsed().as_millis() as u64;
        match r {
            Ok(mut v) => {
                if let Some(o) = v.as_object_mut() { o.insert("ms".into(), json!(ms)); }
                results.push(v);
            }
            Err(_) => {
                let msg = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                results.push(json!({"op": op["op"], "panic": msg, "ms": ms}));
                b = match job["api"].as_str() {
                    Some("schemata") => Builder::Sch(Idl2Schemata::new()),
                    _ => Builder::Idl(Idl::new()),
                };
            }
        }
    }
    let _ = std::env::set_current_dir(base);
    let _ = fs::remove_dir_all(&root);
    json!({"id": id, "root": root.display().to_string(), "results": results})
}

fn main() {
    let base = PathBuf::from(std::env::args().nth(1).expect("usage: runner SCRATCH_DIR"));
    fs::create_dir_all(&base).expect("create scratch directory");
    let base = base.canonicalize().expect("canonical scratch directory");
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
    // The same stack size as a program's main thread usually has.
    let handle = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            for (n, line) in stdin.lock().lines().enumerate() {
                let Ok(line) = line else { break };
                if line.trim().is_empty() { continue; }
                let res = match serde_json::from_str::<Value>(&line) {
                    Ok(job) => run_job(&base, n, &job),
                    Err(e) => json!({"harness_error": format!("bad job: {e}")}),
                };
                let mut o = stdout.lock();
                let _ = writeln!(o, "{res}");
                let _ = o.flush();
            }
        })
        .expect("spawn");
    let _ = handle.join();
}
