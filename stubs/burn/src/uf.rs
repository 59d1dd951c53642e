//! Application points of elementwise functions and lane functions.
use burn_tensor::Num;
pub fn un(_name: &'static str, g: impl Fn(f64) -> f64, x: f64) -> f64 {
    g(x)
}
pub fn lane(_name: &'static str, v: &[Num], g: impl Fn(&[Num]) -> Vec<f64>) -> Vec<Num> {
    g(v).into_iter().map(Num::F).collect()
}
