//! Feeds generated models and prints what they return, whatever the types in their signature.
use burn::nd::Nd;
use burn::tensor::{Backend, Tensor, TensorKind};
use burn_tensor::{DType, Num};
use std::io::BufRead;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

pub use burn;
pub type B = burn::backend::NdArray<f32, i64>;

/// An argument of `forward`, made from the value the specification feeds.
pub trait FromNd {
    fn from_nd(nd: Nd) -> Self;
}
impl<Bk: Backend, const D: usize, K: TensorKind<Bk>> FromNd for Tensor<Bk, D, K> {
    fn from_nd(mut nd: Nd) -> Self {
        if nd.shape.is_empty() && D == 1 {
            nd.shape = vec![1];
        }
        Tensor::of(nd)
    }
}
macro_rules! scalars { ($($t:ty: $($d:ident)|*),*) => {$( impl FromNd for $t {
    fn from_nd(nd: Nd) -> Self {
        assert!(nd.shape.is_empty(), "scalar parameter for a value of shape {:?}", nd.shape);
        assert!(matches!(nd.dtype, $(DType::$d)|*), "{} parameter for a value of type {:?}", stringify!($t), nd.dtype);
        match nd.data[0] { Num::I(v) => v as $t, Num::U(v) => v as $t, Num::F(v) => v as $t, Num::B(v) => v as u8 as $t }
    }
})*}; }
scalars!(f32: F32 | F16 | BF16, f64: F64, i64: I64, i32: I32, i16: I16, i8: I8, u64: U64, u32: U32, u16: U16, u8: U8);
impl FromNd for bool {
    fn from_nd(nd: Nd) -> Self {
        assert!(nd.shape.is_empty() && nd.dtype == DType::Bool, "bool parameter for {:?} {:?}", nd.dtype, nd.shape);
        burn::nd::b(nd.data[0])
    }
}
impl<const N: usize> FromNd for [i64; N] {
    fn from_nd(nd: Nd) -> Self {
        assert_eq!(nd.shape, vec![N], "shape parameter");
        std::array::from_fn(|k| burn::nd::i(nd.data[k]))
    }
}
pub fn arg<T: FromNd>(it: &mut std::vec::IntoIter<Nd>) -> T {
    T::from_nd(it.next().expect("too few inputs"))
}

/// A result: form, type, shape and elements as text.
pub trait Dump {
    fn dump(&self, out: &mut Vec<String>);
}
fn text(n: &Num) -> String {
    match n {
        Num::I(v) => v.to_string(),
        Num::U(v) => v.to_string(),
        Num::F(v) => format!("\"{v:e}\""),
        Num::B(v) => (*v as u8).to_string(),
    }
}
fn put(out: &mut Vec<String>, form: &str, d: DType, shape: &[usize], data: &[Num]) {
    let v: Vec<String> = data.iter().map(text).collect();
    out.push(format!("{{\"form\":\"{form}\",\"t\":\"{d:?}\",\"s\":{shape:?},\"v\":[{}]}}", v.join(",")));
}
impl<Bk: Backend, const D: usize, K: TensorKind<Bk>> Dump for Tensor<Bk, D, K> {
    fn dump(&self, out: &mut Vec<String>) {
        put(out, "tensor", self.nd.dtype, &self.nd.shape, &self.nd.data)
    }
}
macro_rules! dumps { ($($t:ty: $d:ident $k:ident $v:ty),*) => {$( impl Dump for $t {
    fn dump(&self, out: &mut Vec<String>) { put(out, "scalar", DType::$d, &[], &[Num::$k(*self as $v)]) }
})*}; }
dumps!(f32: F32 F f64, f64: F64 F f64, i64: I64 I i64, i32: I32 I i64, i16: I16 I i64, i8: I8 I i64, u64: U64 U u64, u32: U32 U u64,
       u16: U16 U u64, u8: U8 U u64);
impl Dump for bool {
    fn dump(&self, out: &mut Vec<String>) {
        put(out, "scalar", DType::Bool, &[], &[Num::B(*self)])
    }
}
impl Dump for () {
    fn dump(&self, _: &mut Vec<String>) {}
}
impl<const N: usize> Dump for [i64; N] {
    fn dump(&self, out: &mut Vec<String>) {
        let v: Vec<Num> = self.iter().map(|x| Num::I(*x)).collect();
        put(out, "shape", DType::I64, &[N], &v)
    }
}
macro_rules! tuples { ($($($n:ident)+;)*) => {$( impl<$($n: Dump),+> Dump for ($($n,)+) {
    #[allow(non_snake_case)]
    fn dump(&self, out: &mut Vec<String>) { let ($($n,)+) = self; $($n.dump(out);)+ }
})*}; }
tuples! { A1; A1 A2; A1 A2 A3; A1 A2 A3 A4; A1 A2 A3 A4 A5; A1 A2 A3 A4 A5 A6; A1 A2 A3 A4 A5 A6 A7; A1 A2 A3 A4 A5 A6 A7 A8;
    A1 A2 A3 A4 A5 A6 A7 A8 A9; A1 A2 A3 A4 A5 A6 A7 A8 A9 A10; A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11; A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12; }
pub fn dump<T: Dump>(x: T) -> Vec<String> {
    let mut out = vec![];
    x.dump(&mut out);
    out
}

struct Lister {
    path: Vec<String>,
    out: Vec<String>,
}
impl burn::module::ParamVisitor for Lister {
    fn enter(&mut self, name: &str, _: &str) {
        self.path.push(name.to_string());
    }
    fn exit(&mut self) {
        self.path.pop();
    }
    fn param(&mut self, _: &str, _: &[usize], _: burn::tensor::KindTag) -> Option<Nd> {
        None
    }
    fn lists(&self) -> bool {
        true
    }
    fn value(&mut self, name: &str, nd: &Nd) {
        let mut p = self.path.clone();
        p.push(name.to_string());
        let mut v = vec![];
        put(&mut v, "param", nd.dtype, &nd.shape, &nd.data);
        self.out.push(format!("{{\"path\":{:?},\"x\":{}}}", p.join("."), v[0]));
    }
}
/// The parameters of a module with their values.
pub fn params<M: burn::module::ModuleField>(m: &mut M) -> Vec<String> {
    let mut l = Lister { path: vec![], out: vec![] };
    m.visit_field("", &mut l);
    l.out
}

fn dtype(s: &str) -> DType {
    match s {
        "F64" => DType::F64,
        "F32" => DType::F32,
        "F16" => DType::F16,
        "BF16" => DType::BF16,
        "I64" => DType::I64,
        "I32" => DType::I32,
        "I16" => DType::I16,
        "I8" => DType::I8,
        "U64" => DType::U64,
        "U32" => DType::U32,
        "U16" => DType::U16,
        "U8" => DType::U8,
        _ => DType::Bool,
    }
}
static LAST: Mutex<String> = Mutex::new(String::new());
pub type Runner = fn(Vec<Nd>) -> Vec<String>;

/// Every request line on standard input: module, case, and per operand type, rank, extents and elements.
pub fn serve(find: impl Fn(usize) -> Runner) {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        *LAST.lock().unwrap() = format!("{m} [{}]", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
    }));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut w = line.split_ascii_whitespace();
        let module: usize = w.next().unwrap().parse().unwrap();
        let case = w.next().unwrap().to_string();
        let mut ins = vec![];
        while let Some(t) = w.next() {
            let d = dtype(t);
            let rank: usize = w.next().unwrap().parse().unwrap();
            let shape: Vec<usize> = (0..rank).map(|_| w.next().unwrap().parse().unwrap()).collect();
            let n: usize = shape.iter().product();
            let data = (0..n)
                .map(|_| {
                    let x = w.next().unwrap();
                    if d.is_float() { Num::F(x.parse().unwrap()) } else if let Ok(v) = x.parse() { Num::I(v) } else { Num::U(x.parse().unwrap()) }
                })
                .collect();
            ins.push(Nd::new(shape, d, data));
        }
        let f = find(module);
        match catch_unwind(AssertUnwindSafe(|| f(ins))) {
            Ok(r) => println!("{{\"case\":\"{case}\",\"ok\":[{}]}}", r.join(",")),
            Err(_) => println!("{{\"case\":\"{case}\",\"panic\":{:?}}}", LAST.lock().unwrap().chars().filter(|c| c.is_ascii() && *c != '\'').collect::<String>()),
        }
    }
}
