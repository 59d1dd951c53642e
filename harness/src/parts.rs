//! Drivers for single components: metadata parsing, path resolution, padding, formatting,
//! node building, logging, code generation and weights files.
use std::path::{Path, PathBuf};

use onnx_ir::node::padding::{AutoPad, PaddingConfig1d, PaddingConfig2d, PaddingConfig3d};
use serde_json::{Value, json};

use crate::{guarded, irdump};

#[allow(dead_code)]
#[path = "/repo/crates/onnx-ir/src/external_data.rs"]
mod external_data;
#[allow(dead_code)]
#[path = "/repo/crates/burn-onnx/src/logger.rs"]
mod logger;

use external_data::ExternalDataInfo;

fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

/// {entries: [[key, value]...]}
pub fn metadata(req: &Value) -> Value {
    let e: Vec<(String, String)> = req["entries"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| (p[0].as_str().unwrap().into(), p[1].as_str().unwrap().into()))
        .collect();
    match guarded(|| ExternalDataInfo::from_proto_entries(e.iter().map(|(a, b)| (a.as_str(), b.as_str())))) {
        Ok(Ok(i)) => json!({"res": "ok", "location": i.location.to_str().unwrap(), "offset": i.offset.to_string(),
            "length": i.length.map(|x| x.to_string()), "checksum": i.checksum}),
        Ok(Err(m)) => json!({"res": "err", "msg": m}),
        Err(m) => json!({"res": "panic", "msg": m}),
    }
}

/// {base, cwd, locations: [..]}: for each location, "err" or the file the result denotes.
pub fn resolve(req: &Value) -> Value {
    let base = PathBuf::from(req["base"].as_str().unwrap());
    let old = std::env::current_dir().unwrap();
    if let Some(d) = req["cwd"].as_str() {
        std::env::set_current_dir(d).unwrap();
    }
    let out: Vec<Value> = strs(&req["locations"])
        .into_iter()
        .map(|l| {
            let info = ExternalDataInfo { location: PathBuf::from(&l), offset: 0, length: None, checksum: None };
            match guarded(|| info.resolve_path(&base)) {
                Ok(Ok(p)) => match p.canonicalize() {
                    Ok(c) => json!(c.to_str().unwrap()),
                    Err(_) => json!("missing"),
                },
                Ok(Err(_)) => json!("err"),
                Err(m) => json!(format!("panic: {m}")),
            }
        })
        .collect();
    std::env::set_current_dir(old).unwrap();
    json!({"out": out})
}

/// {auto_pad: string} or {dims, pads: [..]}: the public view of padding values.
pub fn padding(req: &Value) -> Value {
    if let Some(s) = req["auto_pad"].as_str() {
        return match guarded(|| AutoPad::parse(s)) {
            Ok(Ok(a)) => json!({"res": "ok", "mode": format!("{a:?}"), "text": a.to_string()}),
            Ok(Err(e)) => json!({"res": "err", "msg": format!("{e:?}")}),
            Err(m) => json!({"res": "panic", "msg": m}),
        };
    }
    let p: Vec<usize> = req["pads"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let valid = req["valid"].as_bool().unwrap_or(false);
    let (asym, tuple, text) = match req["dims"].as_u64().unwrap() {
        1 => {
            let c = if valid { PaddingConfig1d::Valid } else { PaddingConfig1d::Explicit(p[0], p[1]) };
            (c.is_asymmetric(), { let t = c.as_tuple(); vec![t.0, t.1] }, c.to_string())
        }
        2 => {
            let c = if valid { PaddingConfig2d::Valid } else { PaddingConfig2d::Explicit(p[0], p[1], p[2], p[3]) };
            (c.is_asymmetric(), { let t = c.as_tuple(); vec![t.0, t.1, t.2, t.3] }, c.to_string())
        }
        _ => {
            let c = if valid { PaddingConfig3d::Valid } else { PaddingConfig3d::Explicit(p[0], p[1], p[2], p[3], p[4], p[5]) };
            (c.is_asymmetric(), { let t = c.as_tuple(); vec![t.0, t.1, t.2, t.3, t.4, t.5] }, c.to_string())
        }
    };
    json!({"asym": asym, "tuple": tuple, "text": if text == "Valid" { String::new() } else { text }})
}

fn flat(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                out.push(a.into());
                flat(g.stream(), out);
                out.push(b.into());
            }
            other => out.push(other.to_string()),
        }
    }
    out.retain(|s| !s.is_empty());
}

/// {src}: formats the tokens of `src`, gives the text, its tokens, and the text formatted again.
pub fn format(req: &Value) -> Value {
    let src = req["src"].as_str().unwrap();
    let ts: proc_macro2::TokenStream = match src.parse() {
        Ok(t) => t,
        Err(e) => return json!({"res": "badsrc", "msg": format!("{e}")}),
    };
    match guarded(|| burn_onnx::format_tokens(ts)) {
        Ok(text) => {
            let mut toks = vec![];
            let again = match text.parse::<proc_macro2::TokenStream>() {
                Ok(t) => {
                    flat(t.clone(), &mut toks);
                    guarded(|| burn_onnx::format_tokens(t)).unwrap_or_else(|e| format!("panic: {e}"))
                }
                Err(e) => format!("does not lex: {e}"),
            };
            json!({"res": "ok", "text": text, "tokens": toks, "again": again})
        }
        Err(m) => json!({"res": "panic", "msg": m}),
    }
}

/// The derive macro expects these paths.
pub mod built {
    use onnx_ir::ir::Argument;
    #[derive(Debug, Clone)]
    pub struct Cfg {
        pub a: i64,
        pub b: Vec<f64>,
    }
    #[derive(Debug, Clone, onnx_ir_derive::NodeBuilder)]
    pub struct PlainNode {
        pub name: String,
        pub inputs: Vec<Argument>,
        pub outputs: Vec<Argument>,
    }
    #[derive(Debug, Clone, onnx_ir_derive::NodeBuilder)]
    pub struct ConfiguredNode {
        pub name: String,
        pub inputs: Vec<Argument>,
        pub outputs: Vec<Argument>,
        pub config: Cfg,
    }
    #[derive(Debug, Clone, onnx_ir_derive::NodeBuilder)]
    pub struct NodeNode {
        pub name: String,
        pub inputs: Vec<Argument>,
        pub outputs: Vec<Argument>,
    }
    #[derive(Debug, Clone, onnx_ir_derive::NodeBuilder)]
    pub struct FirstNode {
        pub config: Cfg,
        pub name: String,
        pub inputs: Vec<Argument>,
        pub outputs: Vec<Argument>,
    }
    #[derive(Debug, Clone, onnx_ir_derive::NodeBuilder)]
    pub struct NodeConfig {
        pub name: String,
        pub inputs: Vec<Argument>,
        pub outputs: Vec<Argument>,
        pub config: Option<Vec<Cfg>>,
    }
}

fn dtype(s: &str) -> burn_tensor::DType {
    use burn_tensor::DType::*;
    match s {
        "F64" => F64, "F32" => F32, "F16" => F16, "BF16" => BF16, "I64" => I64, "I32" => I32, "I16" => I16, "I8" => I8,
        "U64" => U64, "U32" => U32, "U16" => U16, "U8" => U8, "Bool" => Bool,
        _ => panic!("dtype {s}"),
    }
}

macro_rules! drive {
    ($b:ident, $req:ident, $cfg:expr) => {{
        let mut b = $b;
        for c in $req["calls"].as_array().unwrap() {
            let name = c["name"].as_str().unwrap_or("");
            let d = c["dtype"].as_str().map(dtype).unwrap_or(burn_tensor::DType::F32);
            let rank = c["rank"].as_u64().unwrap_or(0) as usize;
            let shape: Vec<usize> =
                c["shape"].as_array().map(|v| v.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default();
            b = match c["call"].as_str().unwrap() {
                "input_tensor" => b.input_tensor(name, rank, d),
                "input_tensor_shape" => b.input_tensor_shape(name, shape, d),
                "input_static_tensor_shape" => b.input_static_tensor_shape(name, shape, d),
                "input_scalar" => b.input_scalar(name, d),
                "input_scalar_tensor" => b.input_scalar_tensor(name, d),
                "input_shape" => b.input_shape(name, rank),
                "input_const_i64" => b.input_const_i64(name, c["value"].as_i64().unwrap()),
                "output_tensor" => b.output_tensor(name, rank, d),
                "output_scalar" => b.output_scalar(name, d),
                "output_scalar_tensor" => b.output_scalar_tensor(name, d),
                "output_shape" => b.output_shape(name, rank),
                "config" => $cfg(b, c),
                other => panic!("call {other}"),
            };
        }
        match guarded(move || b.build()) {
            Ok(n) => {
                let args = |v: &Vec<onnx_ir::ir::Argument>| -> Vec<Value> {
                    v.iter()
                        .map(|a| json!({"name": a.name, "ty": irdump::ty(&a.ty), "src": format!("{:?}", a.value_source)
                            .split('(').next().unwrap(),
                            "value": a.value().map(|d| irdump::data(&d)), "text": a.to_string()}))
                        .collect()
                };
                json!({"res": "ok", "name": n.name, "inputs": args(&n.inputs), "outputs": args(&n.outputs),
                       "text": n.to_string(), "debug": format!("{n:?}")})
            }
            Err(m) => json!({"res": "panic", "msg": m}),
        }
    }};
}

/// {node: plain|configured|node|nodeconfig|Abs|Concat, name, calls: [{call, ...}]}
pub fn build_node(req: &Value) -> Value {
    use built::*;
    let name = req["name"].as_str().unwrap();
    let cfg = |c: &Value| Cfg { a: c["a"].as_i64().unwrap(), b: vec![c["a"].as_i64().unwrap() as f64, 0.5] };
    match req["node"].as_str().unwrap() {
        "plain" => { let b = PlainNodeBuilder::new(name); drive!(b, req, |b, _c| b) }
        "node" => { let b = NodeNodeBuilder::new(name); drive!(b, req, |b, _c| b) }
        "configured" => { let b = ConfiguredNodeBuilder::new(name); drive!(b, req, |b: ConfiguredNodeBuilder, c| b.config(cfg(c))) }
        "first" => { let b = FirstNodeBuilder::new(name); drive!(b, req, |b: FirstNodeBuilder, c| b.config(cfg(c))) }
        "nodeconfig" => { let b = NodeConfigBuilder::new(name); drive!(b, req, |b: NodeConfigBuilder, c| b.config(Some(vec![cfg(c)]))) }
        "Abs" => { let b = onnx_ir::node::abs::AbsNodeBuilder::new(name); drive!(b, req, |b, _c| b) }
        "Concat" => {
            let b = onnx_ir::node::concat::ConcatNodeBuilder::new(name);
            drive!(b, req, |b: onnx_ir::node::concat::ConcatNodeBuilder, c: &Value| b.config(onnx_ir::node::concat::ConcatConfig { axis: c["a"].as_i64().unwrap() as usize }))
        }
        other => panic!("node {other}"),
    }
}

/// {inputs: [..], out_dir, embed, dev, simplify, script}: one run of the generator.
pub fn generate(req: &Value) -> Value {
    let out = req["out_dir"].as_str().unwrap();
    let r = guarded(|| {
        let mut g = burn_onnx::ModelGen::new();
        for i in strs(&req["inputs"]) {
            g.input(&i);
        }
        if let Some(x) = req["embed"].as_bool() { g.embed_states(x); }
        if let Some(x) = req["dev"].as_bool() { g.development(x); }
        if let Some(x) = req["simplify"].as_bool() { g.simplify(x); }
        if let Some(o) = req["script"].as_str() {
            // SAFETY: the driver is single-threaded.
            unsafe { std::env::set_var("OUT_DIR", o) };
            g.out_dir(out);
            g.run_from_script();
        } else {
            g.out_dir(out);
            g.run_from_cli();
        }
    });
    match r {
        Ok(()) => json!({"res": "ok"}),
        Err(m) => json!({"res": "panic", "msg": m}),
    }
}

/// {path}: the tensors of a weights file.
pub fn read_pack(req: &Value) -> Value {
    let b = match std::fs::read(Path::new(req["path"].as_str().unwrap())) {
        Ok(b) => b,
        Err(e) => return json!({"res": "err", "msg": e.to_string()}),
    };
    match burn_store::read_pack(&b) {
        Ok((meta, t)) => json!({"res": "ok", "meta": meta, "tensors": t.iter().map(|(k, v)| (k.clone(), irdump::data(v))).collect::<serde_json::Map<_, _>>()}),
        Err(m) => json!({"res": "err", "msg": m}),
    }
}

fn text_of(i: &std::panic::PanicHookInfo) -> String {
    i.payload().downcast_ref::<String>().cloned().unwrap_or_default()
}

struct Quiet;
impl log::Log for Quiet {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}

/// A history of events in a fresh process, all observations between "@@ k" lines on both streams:
/// init | new | race | hook:N | chain:N | reset | panic:N | tpanic:N | apanic:N | foreign | flog | debug:N
pub fn log_history(events: &str) {
    for (k, e) in events.split(',').filter(|e| !e.is_empty()).enumerate() {
        println!("@@ {k} {e}");
        eprintln!("@@ {k} {e}");
        let (what, n) = e.split_once(':').unwrap_or((e, ""));
        let n = n.to_string();
        match what {
            "init" => println!("= init {}", if logger::init_log().is_ok() { "ok" } else { "err" }),
            "race" => {
                let t: Vec<_> = (0..4).map(|_| std::thread::spawn(|| logger::init_log().is_ok())).collect();
                let n = t.into_iter().map(|t| t.join().unwrap()).filter(|x| *x).count();
                println!("= race {n}");
            }
            "new" => {
                let _ = burn_onnx::ModelGen::new();
            }
            "hook" => std::panic::set_hook(Box::new(move |i| println!("= hook {n} {}", text_of(i)))),
            "chain" => {
                let old = std::panic::take_hook();
                std::panic::set_hook(Box::new(move |i| {
                    println!("= hook {n} {}", text_of(i));
                    old(i)
                }))
            }
            "reset" => drop(std::panic::take_hook()),
            "panic" => {
                let m = format!("boom{n}");
                let r = std::panic::catch_unwind(|| panic!("{m}"));
                println!("= caught {}", r.is_err());
            }
            "tpanic" => {
                let m = format!("boom{n}");
                let r = std::thread::spawn(move || panic!("{m}")).join();
                println!("= caught {}", r.is_err());
            }
            "apanic" => {
                let r = std::panic::catch_unwind(|| std::panic::panic_any(7u8));
                println!("= caught {}", r.is_err());
            }
            "foreign" => println!("= foreign {}", tracing_subscriber::fmt().with_max_level(tracing_core::LevelFilter::OFF).try_init().is_ok()),
            "flog" => println!("= foreign {}", log::set_logger(&Quiet).is_ok()),
            "debug" => log::debug!("dbg{n}"),
            other => panic!("event {other}"),
        }
    }
}

/// The directories of the named models, as the run and the build stage see them.
pub fn artifacts(names: impl Iterator<Item = String>) {
    use std::os::unix::ffi::OsStrExt;
    let hex = |p: PathBuf| p.as_os_str().as_bytes().iter().map(|b| format!("{b:02x}")).collect::<String>();
    for n in names {
        let run = hex(model_checks_common::artifacts_dir(&n));
        let build = hex(model_checks_common::artifacts_dir_build(&n));
        println!("{}", json!({"name": n, "run": run, "build": build}));
    }
}
