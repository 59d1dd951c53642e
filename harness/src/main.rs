//! Driver: puts inputs produced from the specification through the real code of /repo and
//! prints what the code did, one JSON object per line.
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

use serde_json::{Value, json};

mod irdump;
mod ir {
    pub use onnx_ir::ir::*;
}
mod parts;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// Runs `f`; a panic becomes Err with the panic message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.lock().unwrap().clear();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.lock().unwrap().clone())
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("log") {
        // The logging machine needs a process of its own.
        return parts::log_history(&std::env::args().nth(2).unwrap());
    }
    if std::env::args().nth(1).as_deref() == Some("art") {
        return parts::artifacts(std::env::args().skip(2));
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = format!("{msg} [{at}]");
    }));
    let stdin = std::io::stdin();
    // The code under test logs to standard output, so the answers go elsewhere.
    let mut out: Box<dyn Write> = match std::env::var("HARNESS_OUT") {
        Ok(p) => Box::new(std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap()),
        Err(_) => Box::new(std::io::stdout()),
    };
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let req: Value = serde_json::from_str(&line).unwrap();
        let mut res = match req["cmd"].as_str().unwrap() {
            "ir" => irdump::import(&req),
            "gen" => parts::generate(&req),
            "meta" => parts::metadata(&req),
            "resolve" => parts::resolve(&req),
            "pad" => parts::padding(&req),
            "fmt" => parts::format(&req),
            "build" => parts::build_node(&req),
            "pack" => parts::read_pack(&req),
            other => panic!("unknown command {other}"),
        };
        if let Some(id) = req.get("id") {
            res["id"] = id.clone();
        }
        out.write_all(format!("{res}\n").as_bytes()).unwrap();
    }
    out.flush().unwrap();
}

#[allow(dead_code)]
fn unused() -> Value {
    json!(null)
}
