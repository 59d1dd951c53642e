//! Stand-in for the `burn` crate: a small, direct, dynamically typed implementation of
//! the API that generated models use. Every operator follows burn's documented meaning.
#![allow(clippy::all)]
extern crate self as burn;
pub mod func;
pub mod module;
pub mod nd;
pub mod nn;
pub mod shape;
pub mod tensor;
pub mod uf;

pub mod backend {
    pub use crate::tensor::Backend;
    use burn_tensor::Element;
    use std::fmt::Debug;
    use std::marker::PhantomData;
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub enum NdArrayDevice {
        #[default]
        Cpu,
    }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct NdArray<E = f32, I = i64>(PhantomData<(E, I)>);
    impl<E, I> Backend for NdArray<E, I>
    where
        E: Element + Default + Debug + Send + Sync + 'static,
        I: Element + Default + Debug + Send + Sync + 'static,
    {
        type Device = NdArrayDevice;
        type FloatElem = E;
        type IntElem = I;
        type BoolElem = bool;
    }
    pub mod ndarray {
        pub use super::{NdArray, NdArrayDevice};
    }
}
pub mod config {}
pub mod prelude {
    pub use crate::module::Module;
    pub use crate::nn;
    pub use crate::s;
    pub use crate::tensor::{Bool, Device, ElementConversion, Float, Int, Shape, Slice, Tensor, TensorData, backend::Backend, cast::*};
    pub use crate::tensor::{DType, s as _s};
}
