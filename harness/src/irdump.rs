//! Import of a model through the public API and a dump of the resulting graph.
use burn_tensor::TensorData;
use onnx_ir::ir::{ArgType, Argument, Node, OnnxGraph};
use onnx_ir::OnnxGraphBuilder;
use serde_json::{Value, json};

use crate::guarded;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn data(d: &TensorData) -> Value {
    json!({"dtype": format!("{:?}", d.dtype), "shape": d.shape.to_vec(), "hex": hex(d.as_bytes())})
}
pub fn ty(t: &ArgType) -> Value {
    let k = match t {
        ArgType::Tensor(_) => "Tensor",
        ArgType::ScalarTensor(_) => "ScalarTensor",
        ArgType::ScalarNative(_) => "ScalarNative",
        ArgType::Shape(_) => "Shape",
    };
    let dt = match t {
        ArgType::Shape(_) => "I64".to_string(),
        _ => format!("{:?}", t.elem_type()),
    };
    json!({"k": k, "dtype": dt, "rank": match t { ArgType::Shape(n) => *n, _ => t.rank() },
           "static": t.static_shape()})
}
fn arg(a: &Argument, values: bool) -> Value {
    let mut v = json!({"name": a.name, "ty": ty(&a.ty), "src": format!("{:?}", a.value_source)
        .split('(').next().unwrap()});
    if values && (a.is_static() || a.is_constant()) {
        v["value"] = match guarded(|| a.value()) {
            Ok(Some(d)) => data(&d),
            Ok(None) => json!(null),
            Err(e) => json!({"panic": e}),
        };
    }
    v
}
pub fn graph(g: &OnnxGraph, values: bool) -> Value {
    let nodes: Vec<Value> = g.nodes.iter().map(|n| node(n, values)).collect();
    json!({"inputs": g.inputs.iter().map(|a| arg(a, values)).collect::<Vec<_>>(),
           "outputs": g.outputs.iter().map(|a| arg(a, values)).collect::<Vec<_>>(),
           "nodes": nodes})
}
fn node(n: &Node, values: bool) -> Value {
    let mut subs: Vec<(&str, Value)> = vec![];
    let mut refs: Option<Vec<String>> = None;
    let mut dbg = String::new();
    match n {
        Node::If(x) => {
            subs.push(("then", graph(&x.config.then_branch, values)));
            subs.push(("else", graph(&x.config.else_branch, values)));
            refs = Some(x.config.scope_ref_names.clone());
        }
        Node::Loop(x) => {
            subs.push(("body", graph(&x.config.body, values)));
            refs = Some(x.config.scope_ref_names.clone());
        }
        Node::Scan(x) => {
            subs.push(("body", graph(&x.config.body, values)));
            refs = Some(x.config.scope_ref_names.clone());
        }
        _ => dbg = format!("{n:?}"),
    }
    let full = format!("{n:?}");
    let op = full.split('(').next().unwrap().to_string();
    json!({"op": op, "name": n.name(),
           "inputs": n.inputs().iter().map(|a| arg(a, values)).collect::<Vec<_>>(),
           "outputs": n.outputs().iter().map(|a| arg(a, values)).collect::<Vec<_>>(),
           "debug": dbg,
           "subs": subs.into_iter().map(|(k, g)| json!({"name": k, "graph": g})).collect::<Vec<_>>(),
           "refs": refs})
}

/// {path, entry: file|bytes|reader, simplify, values}
pub fn import(req: &Value) -> Value {
    let path = req["path"].as_str().unwrap();
    let values = req["values"].as_bool().unwrap_or(false);
    let b = || OnnxGraphBuilder::new().simplify(req["simplify"].as_bool().unwrap_or(true));
    let old = std::env::current_dir().unwrap();
    if let Some(d) = req["cwd"].as_str() {
        std::env::set_current_dir(d).unwrap();
    }
    let r = guarded(|| match req["entry"].as_str().unwrap_or("file") {
        "file" => b().parse_file(path),
        "bytes" => b().parse_bytes(&std::fs::read(path).unwrap()),
        "reader" => b().parse_reader(std::fs::File::open(path).unwrap()),
        // A reader that hands out one byte at a time, and fails with "interrupted" in between.
        "slow" => b().parse_reader(Slow(std::fs::read(path).unwrap(), 0, false)),
        e => panic!("unknown entry {e}"),
    });
    let out = match r {
        Ok(Ok(g)) => match guarded(|| graph(&g, values)) {
            Ok(v) => json!({"res": "ok", "graph": v}),
            Err(e) => json!({"res": "panic", "msg": e}),
        },
        Ok(Err(e)) => json!({"res": "err", "msg": e.to_string()}),
        Err(e) => json!({"res": "panic", "msg": e}),
    };
    std::env::set_current_dir(old).unwrap();
    out
}

struct Slow(Vec<u8>, usize, bool);
impl std::io::Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.2 = !self.2;
        if self.2 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.1 == self.0.len() || buf.is_empty() {
            return Ok(0);
        }
        buf[0] = self.0[self.1];
        self.1 += 1;
        Ok(1)
    }
}
