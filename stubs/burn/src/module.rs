//! Modules, parameters and the visitor used to load weights.
use crate::nd::Nd;
use crate::tensor::*;
pub use burn_derive::Module;
use std::cell::RefCell;
use std::fmt::Debug;
use std::ops::Deref;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ParamId(u64);
static NEXT: AtomicU64 = AtomicU64::new(1);
impl ParamId {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        ParamId(NEXT.fetch_add(1, Ordering::Relaxed))
    }
    pub fn val(&self) -> u64 {
        self.0
    }
}

/// Receives every parameter with its path.
pub trait ParamVisitor {
    fn enter(&mut self, name: &str, container: &str);
    fn exit(&mut self);
    /// Current value (shape and kind) of a parameter; returns a replacement.
    fn param(&mut self, name: &str, shape: &[usize], kind: KindTag) -> Option<Nd>;
    /// Whether the visitor wants the values of parameters instead.
    fn lists(&self) -> bool {
        false
    }
    fn value(&mut self, _name: &str, _v: &Nd) {}
}
pub trait ModuleField {
    fn visit_field(&mut self, name: &str, v: &mut dyn ParamVisitor);
}
pub trait Module: ModuleField + Sized {}

type Init<T> = Box<dyn FnOnce() -> T + Send>;
pub struct Param<T> {
    pub id: ParamId,
    value: RefCell<Option<T>>,
    init: RefCell<Option<Init<T>>>,
    shape: Vec<usize>,
}
impl<T: Clone> Param<T> {
    pub fn uninitialized<F, D>(id: ParamId, init: F, device: D, require_grad: bool, shape: Shape) -> Self
    where
        F: FnOnce(&D, bool) -> T + Send + 'static,
        D: Send + 'static,
        T: 'static,
    {
        Param {
            id,
            value: RefCell::new(None),
            init: RefCell::new(Some(Box::new(move || init(&device, require_grad)))),
            shape: shape.dims,
        }
    }
    pub fn initialized(id: ParamId, v: T) -> Self {
        Param { id, value: RefCell::new(Some(v)), init: RefCell::new(None), shape: vec![] }
    }
    pub fn val(&self) -> T {
        if self.value.borrow().is_none() {
            let f = self.init.borrow_mut().take().expect("parameter without initialiser");
            *self.value.borrow_mut() = Some(f());
        }
        self.value.borrow().clone().unwrap()
    }
    fn set(&self, v: T) {
        *self.value.borrow_mut() = Some(v);
    }
}
impl<B: Backend, const D: usize> Param<Tensor<B, D>> {
    pub fn from_tensor(v: Tensor<B, D>) -> Self {
        let shape = v.nd.shape.clone();
        Param { id: ParamId::new(), value: RefCell::new(Some(v)), init: RefCell::new(None), shape }
    }
}
impl<T: Clone> Clone for Param<T> {
    fn clone(&self) -> Self {
        Param { id: self.id, value: RefCell::new(Some(self.val())), init: RefCell::new(None), shape: self.shape.clone() }
    }
}
impl<T: Clone + Debug> Debug for Param<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Param({:?})", self.shape)
    }
}
impl<B: Backend, const D: usize, K: TensorKind<B>> ModuleField for Param<Tensor<B, D, K>> {
    fn visit_field(&mut self, name: &str, v: &mut dyn ParamVisitor) {
        if v.lists() {
            v.value(name, &self.val().nd);
        } else if let Some(nd) = v.param(name, &self.shape, K::TAG) {
            self.set(Tensor::of(nd));
        }
    }
}
impl<T: ModuleField> ModuleField for Option<T> {
    fn visit_field(&mut self, name: &str, v: &mut dyn ParamVisitor) {
        if let Some(x) = self {
            x.visit_field(name, v);
        }
    }
}
impl<T: ModuleField> ModuleField for Vec<T> {
    fn visit_field(&mut self, name: &str, v: &mut dyn ParamVisitor) {
        v.enter(name, "Vec");
        for (k, x) in self.iter_mut().enumerate() {
            x.visit_field(&k.to_string(), v);
        }
        v.exit();
    }
}
impl<B: Backend> ModuleField for std::marker::PhantomData<B> {
    fn visit_field(&mut self, _: &str, _: &mut dyn ParamVisitor) {}
}
#[derive(Clone, Debug)]
pub struct Ignored<T>(pub T);
impl<T> Deref for Ignored<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> ModuleField for Ignored<T> {
    fn visit_field(&mut self, _: &str, _: &mut dyn ParamVisitor) {}
}
macro_rules! plain { ($($t:ty),*) => {$( impl ModuleField for $t { fn visit_field(&mut self, _: &str, _: &mut dyn ParamVisitor) {} } )*}; }
plain!(bool, usize, i64, i32, f32, f64, String);
