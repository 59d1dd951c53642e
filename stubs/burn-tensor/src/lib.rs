//! Minimal stand-in for `burn-tensor` (the git dependency is not available offline).
//!
//! It implements the part of the public API that onnx-ir uses (DType, TensorData,
//! DataError, Bytes, Element) with the semantics documented by burn 0.21.
use std::fmt;
use std::ops::{Deref, DerefMut};

pub use half::{bf16, f16};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum DType {
    F64,
    F32,
    Flex32,
    F16,
    BF16,
    I64,
    I32,
    I16,
    I8,
    U64,
    U32,
    U16,
    U8,
    Bool,
}

impl DType {
    pub const fn size(&self) -> usize {
        match self {
            DType::F64 | DType::I64 | DType::U64 => 8,
            DType::F32 | DType::Flex32 | DType::I32 | DType::U32 => 4,
            DType::F16 | DType::BF16 | DType::I16 | DType::U16 => 2,
            DType::I8 | DType::U8 | DType::Bool => 1,
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(
            self,
            DType::F64 | DType::F32 | DType::Flex32 | DType::F16 | DType::BF16
        )
    }
    pub fn is_int(&self) -> bool {
        matches!(self, DType::I64 | DType::I32 | DType::I16 | DType::I8)
    }
    pub fn is_uint(&self) -> bool {
        matches!(self, DType::U64 | DType::U32 | DType::U16 | DType::U8)
    }
    pub fn is_bool(&self) -> bool {
        matches!(self, DType::Bool)
    }
    pub fn name(&self) -> &'static str {
        match self {
            DType::F64 => "f64",
            DType::F32 => "f32",
            DType::Flex32 => "flex32",
            DType::F16 => "f16",
            DType::BF16 => "bf16",
            DType::I64 => "i64",
            DType::I32 => "i32",
            DType::I16 => "i16",
            DType::I8 => "i8",
            DType::U64 => "u64",
            DType::U32 => "u32",
            DType::U16 => "u16",
            DType::U8 => "u8",
            DType::Bool => "bool",
        }
    }
}

#[derive(Debug, Clone)]
pub enum DataError {
    CastError(String),
    TypeMismatch(String),
}
impl fmt::Display for DataError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DataError {}

/// Owned bytes, aligned for every element type.
#[derive(Clone, Default)]
pub struct Bytes {
    store: Vec<u64>,
    len: usize,
}
impl Bytes {
    pub fn from_bytes_vec(v: Vec<u8>) -> Self {
        let len = v.len();
        let mut store = vec![0u64; len.div_ceil(8)];
        bytemuck::cast_slice_mut::<u64, u8>(&mut store)[..len].copy_from_slice(&v);
        Bytes { store, len }
    }
    pub fn from_elems<E: bytemuck::NoUninit>(v: Vec<E>) -> Self {
        Self::from_bytes_vec(bytemuck::cast_slice::<E, u8>(&v).to_vec())
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &bytemuck::cast_slice::<u64, u8>(&self.store)[..self.len]
    }
}
impl DerefMut for Bytes {
    fn deref_mut(&mut self) -> &mut [u8] {
        let n = self.len;
        &mut bytemuck::cast_slice_mut::<u64, u8>(&mut self.store)[..n]
    }
}
impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl PartialEq for Bytes {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl Eq for Bytes {}

/// Lossless-as-possible intermediate used for element conversion.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    I(i64),
    U(u64),
    F(f64),
    B(bool),
}

pub trait ElementConversion {
    fn elem<E: Element>(self) -> E;
}
impl<T: Element> ElementConversion for T {
    fn elem<E: Element>(self) -> E {
        E::from_num(self.to_num())
    }
}

pub trait Element:
    Copy + Clone + fmt::Debug + Default + Send + Sync + PartialEq + PartialOrd + 'static
{
    fn dtype() -> DType;
    fn from_num(n: Num) -> Self;
    fn to_num(self) -> Num;
    fn read(bytes: &[u8]) -> Self;
    fn write(self, out: &mut Vec<u8>);
    /// None when the raw bytes cannot be viewed as this type.
    fn slice_of(bytes: &[u8]) -> Option<&[Self]>;
    fn slice_of_mut(bytes: &mut [u8]) -> Option<&mut [Self]>;
    fn to_i64(&self) -> i64 {
        match self.to_num() {
            Num::I(v) => v,
            Num::U(v) => v as i64,
            Num::F(v) => v as i64,
            Num::B(v) => v as i64,
        }
    }
    fn to_f64(&self) -> f64 {
        match self.to_num() {
            Num::I(v) => v as f64,
            Num::U(v) => v as f64,
            Num::F(v) => v,
            Num::B(v) => v as u8 as f64,
        }
    }
    fn to_f32(&self) -> f32 {
        self.to_f64() as f32
    }
    fn to_bool(&self) -> bool {
        bool::from_num(self.to_num())
    }
    fn from_elem<E: Element>(e: E) -> Self {
        Self::from_num(e.to_num())
    }
}

macro_rules! num_elem {
    ($t:ty, $d:ident, $k:ident, $via:ty) => {
        impl Element for $t {
            fn dtype() -> DType {
                DType::$d
            }
            fn from_num(n: Num) -> Self {
                match n {
                    Num::I(v) => v as $t,
                    Num::U(v) => v as $t,
                    Num::F(v) => v as $t,
                    Num::B(v) => v as u8 as $t,
                }
            }
            fn to_num(self) -> Num {
                Num::$k(self as $via)
            }
            fn read(b: &[u8]) -> Self {
                <$t>::from_ne_bytes(b.try_into().unwrap())
            }
            fn write(self, out: &mut Vec<u8>) {
                out.extend_from_slice(&self.to_ne_bytes())
            }
            fn slice_of(b: &[u8]) -> Option<&[Self]> {
                bytemuck::try_cast_slice(b).ok()
            }
            fn slice_of_mut(b: &mut [u8]) -> Option<&mut [Self]> {
                bytemuck::try_cast_slice_mut(b).ok()
            }
        }
    };
}
num_elem!(f64, F64, F, f64);
num_elem!(f32, F32, F, f64);
num_elem!(i64, I64, I, i64);
num_elem!(i32, I32, I, i64);
num_elem!(i16, I16, I, i64);
num_elem!(i8, I8, I, i64);
num_elem!(u64, U64, U, u64);
num_elem!(u32, U32, U, u64);
num_elem!(u16, U16, U, u64);
num_elem!(u8, U8, U, u64);

macro_rules! half_elem {
    ($t:ty, $d:ident) => {
        impl Element for $t {
            fn dtype() -> DType {
                DType::$d
            }
            fn from_num(n: Num) -> Self {
                match n {
                    Num::I(v) => <$t>::from_f64(v as f64),
                    Num::U(v) => <$t>::from_f64(v as f64),
                    Num::F(v) => <$t>::from_f64(v),
                    Num::B(v) => <$t>::from_f64(v as u8 as f64),
                }
            }
            fn to_num(self) -> Num {
                Num::F(<$t>::to_f64(self))
            }
            fn read(b: &[u8]) -> Self {
                <$t>::from_ne_bytes(b.try_into().unwrap())
            }
            fn write(self, out: &mut Vec<u8>) {
                out.extend_from_slice(&self.to_ne_bytes())
            }
            fn slice_of(b: &[u8]) -> Option<&[Self]> {
                bytemuck::try_cast_slice(b).ok()
            }
            fn slice_of_mut(b: &mut [u8]) -> Option<&mut [Self]> {
                bytemuck::try_cast_slice_mut(b).ok()
            }
        }
    };
}
half_elem!(f16, F16);
half_elem!(bf16, BF16);

impl Element for bool {
    fn dtype() -> DType {
        DType::Bool
    }
    fn from_num(n: Num) -> Self {
        match n {
            Num::I(v) => v != 0,
            Num::U(v) => v != 0,
            Num::F(v) => v != 0.0,
            Num::B(v) => v,
        }
    }
    fn to_num(self) -> Num {
        Num::B(self)
    }
    fn read(b: &[u8]) -> Self {
        b[0] != 0
    }
    fn write(self, out: &mut Vec<u8>) {
        out.push(self as u8)
    }
    fn slice_of(b: &[u8]) -> Option<&[Self]> {
        if b.iter().all(|x| *x <= 1) {
            // SAFETY: every byte is 0 or 1, a valid bool of the same layout.
            Some(unsafe { std::slice::from_raw_parts(b.as_ptr() as *const bool, b.len()) })
        } else {
            None
        }
    }
    fn slice_of_mut(b: &mut [u8]) -> Option<&mut [Self]> {
        if b.iter().all(|x| *x <= 1) {
            // SAFETY: as above.
            Some(unsafe { std::slice::from_raw_parts_mut(b.as_mut_ptr() as *mut bool, b.len()) })
        } else {
            None
        }
    }
}

pub fn read_num(dtype: DType, b: &[u8]) -> Num {
    match dtype {
        DType::F64 => f64::read(b).to_num(),
        DType::F32 | DType::Flex32 => f32::read(b).to_num(),
        DType::F16 => f16::read(b).to_num(),
        DType::BF16 => bf16::read(b).to_num(),
        DType::I64 => i64::read(b).to_num(),
        DType::I32 => i32::read(b).to_num(),
        DType::I16 => i16::read(b).to_num(),
        DType::I8 => i8::read(b).to_num(),
        DType::U64 => u64::read(b).to_num(),
        DType::U32 => u32::read(b).to_num(),
        DType::U16 => u16::read(b).to_num(),
        DType::U8 => u8::read(b).to_num(),
        DType::Bool => bool::read(b).to_num(),
    }
}
pub fn write_num(dtype: DType, n: Num, out: &mut Vec<u8>) {
    match dtype {
        DType::F64 => f64::from_num(n).write(out),
        DType::F32 | DType::Flex32 => f32::from_num(n).write(out),
        DType::F16 => f16::from_num(n).write(out),
        DType::BF16 => bf16::from_num(n).write(out),
        DType::I64 => i64::from_num(n).write(out),
        DType::I32 => i32::from_num(n).write(out),
        DType::I16 => i16::from_num(n).write(out),
        DType::I8 => i8::from_num(n).write(out),
        DType::U64 => u64::from_num(n).write(out),
        DType::U32 => u32::from_num(n).write(out),
        DType::U16 => u16::from_num(n).write(out),
        DType::U8 => u8::from_num(n).write(out),
        DType::Bool => bool::from_num(n).write(out),
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TensorData {
    pub bytes: Bytes,
    pub shape: Vec<usize>,
    pub dtype: DType,
}

pub trait IntoShape {
    fn into_shape(self) -> Vec<usize>;
}
impl IntoShape for Vec<usize> {
    fn into_shape(self) -> Vec<usize> {
        self
    }
}
impl IntoShape for &Vec<usize> {
    fn into_shape(self) -> Vec<usize> {
        self.clone()
    }
}
impl IntoShape for &[usize] {
    fn into_shape(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<const D: usize> IntoShape for [usize; D] {
    fn into_shape(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<const D: usize> IntoShape for &[usize; D] {
    fn into_shape(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<const D: usize> IntoShape for [i32; D] {
    fn into_shape(self) -> Vec<usize> {
        self.iter().map(|x| *x as usize).collect()
    }
}
impl<const D: usize> IntoShape for [i64; D] {
    fn into_shape(self) -> Vec<usize> {
        self.iter().map(|x| *x as usize).collect()
    }
}

impl TensorData {
    pub fn new<E: Element, S: IntoShape>(value: Vec<E>, shape: S) -> Self {
        let shape = shape.into_shape();
        assert_eq!(
            shape.iter().product::<usize>(),
            value.len(),
            "Shape {shape:?} is invalid for input of size {}",
            value.len()
        );
        let mut b = Vec::with_capacity(value.len() * std::mem::size_of::<E>());
        for v in &value {
            v.write(&mut b);
        }
        TensorData {
            bytes: Bytes::from_bytes_vec(b),
            shape,
            dtype: E::dtype(),
        }
    }
    pub fn from_bytes_vec<S: IntoShape>(bytes: Vec<u8>, shape: S, dtype: DType) -> Self {
        TensorData {
            bytes: Bytes::from_bytes_vec(bytes),
            shape: shape.into_shape(),
            dtype,
        }
    }
    pub fn from_bytes<S: IntoShape>(bytes: Bytes, shape: S, dtype: DType) -> Self {
        TensorData {
            bytes,
            shape: shape.into_shape(),
            dtype,
        }
    }
    pub fn as_slice<E: Element>(&self) -> Result<&[E], DataError> {
        if E::dtype() == self.dtype {
            E::slice_of(&self.bytes)
                .ok_or_else(|| DataError::CastError("bytes do not fit the element type".into()))
        } else {
            Err(DataError::TypeMismatch(format!(
                "Invalid target element type (expected {:?}, got {:?})",
                self.dtype,
                E::dtype()
            )))
        }
    }
    pub fn as_mut_slice<E: Element>(&mut self) -> Result<&mut [E], DataError> {
        if E::dtype() == self.dtype {
            E::slice_of_mut(&mut self.bytes)
                .ok_or_else(|| DataError::CastError("bytes do not fit the element type".into()))
        } else {
            Err(DataError::TypeMismatch(format!(
                "Invalid target element type (expected {:?}, got {:?})",
                self.dtype,
                E::dtype()
            )))
        }
    }
    pub fn to_vec<E: Element>(&self) -> Result<Vec<E>, DataError> {
        Ok(self.as_slice::<E>()?.to_vec())
    }
    pub fn into_vec<E: Element>(self) -> Result<Vec<E>, DataError> {
        self.to_vec()
    }
    pub fn nums(&self) -> Vec<Num> {
        self.bytes
            .chunks_exact(self.dtype.size())
            .map(|c| read_num(self.dtype, c))
            .collect()
    }
    pub fn iter<E: Element>(&self) -> Box<dyn Iterator<Item = E> + '_> {
        Box::new(self.nums().into_iter().map(E::from_num))
    }
    pub fn rank(&self) -> usize {
        self.shape.len()
    }
    pub fn num_elements(&self) -> usize {
        self.shape.iter().product()
    }
    pub fn numel(shape: &[usize]) -> usize {
        shape.iter().product()
    }
    pub fn convert<E: Element>(self) -> Self {
        self.convert_dtype(E::dtype())
    }
    pub fn convert_dtype(self, dtype: DType) -> Self {
        if dtype == self.dtype {
            return self;
        }
        let mut out = Vec::new();
        for n in self.nums() {
            write_num(dtype, n, &mut out);
        }
        TensorData {
            bytes: Bytes::from_bytes_vec(out),
            shape: self.shape,
            dtype,
        }
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes
    }
    pub fn into_bytes(self) -> Bytes {
        self.bytes
    }
    pub fn full<E: Element, S: IntoShape>(shape: S, v: E) -> Self {
        let shape = shape.into_shape();
        let n = shape.iter().product();
        Self::new(vec![v; n], shape)
    }
    pub fn full_dtype<E: Element, S: IntoShape>(shape: S, v: E, dtype: DType) -> Self {
        Self::full(shape, v).convert_dtype(dtype)
    }
    pub fn zeros<E: Element, S: IntoShape>(shape: S) -> Self {
        Self::full(shape, E::from_num(Num::I(0)))
    }
    pub fn ones<E: Element, S: IntoShape>(shape: S) -> Self {
        Self::full(shape, E::from_num(Num::I(1)))
    }
    #[track_caller]
    pub fn assert_eq(&self, other: &Self, strict: bool) {
        assert_eq!(self.shape, other.shape, "shapes differ");
        if strict {
            assert_eq!(self.dtype, other.dtype, "dtypes differ");
        }
        let (a, b): (Vec<f64>, Vec<f64>) = (self.iter().collect(), other.iter().collect());
        for (x, y) in a.iter().zip(&b) {
            assert!(
                x == y || (x.is_nan() && y.is_nan()),
                "Tensors are not eq: {a:?} != {b:?}"
            );
        }
    }
    #[track_caller]
    pub fn assert_approx_eq<F: Element>(&self, other: &Self, tol: Tolerance<F>) {
        assert_eq!(self.shape, other.shape, "shapes differ");
        let (a, b): (Vec<f64>, Vec<f64>) = (self.iter().collect(), other.iter().collect());
        for (x, y) in a.iter().zip(&b) {
            assert!(
                x == y
                    || (x.is_nan() && y.is_nan())
                    || (x - y).abs() <= tol.abs.max(tol.rel * x.abs().max(y.abs())),
                "Tensors are not approx eq: {a:?} != {b:?}"
            );
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Tolerance<F> {
    pub rel: f64,
    pub abs: f64,
    _f: std::marker::PhantomData<F>,
}
impl<F> Tolerance<F> {
    pub fn of(rel: f64, abs: f64) -> Self {
        Tolerance {
            rel,
            abs,
            _f: std::marker::PhantomData,
        }
    }
    pub fn strict() -> Self {
        Self::of(1e-3, 1e-4)
    }
    pub fn balanced() -> Self {
        Self::of(5e-3, 1e-3)
    }
    pub fn permissive() -> Self {
        Self::of(1e-2, 1e-2)
    }
    pub fn relative(r: f64) -> Self {
        Self::of(r, 1e-4)
    }
    pub fn absolute(a: f64) -> Self {
        Self::of(1e-6, a)
    }
    pub fn rel_abs(r: f64, a: f64) -> Self {
        Self::of(r, a)
    }
    pub fn set_absolute(mut self, a: f64) -> Self {
        self.abs = a;
        self
    }
    pub fn set_relative(mut self, r: f64) -> Self {
        self.rel = r;
        self
    }
}
impl<F> Default for Tolerance<F> {
    fn default() -> Self {
        Self::balanced()
    }
}

impl fmt::Display for TensorData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.nums())
    }
}

impl<E: Element, const A: usize> From<[E; A]> for TensorData {
    fn from(v: [E; A]) -> Self {
        TensorData::new(v.to_vec(), vec![A])
    }
}
impl<E: Element> From<&[E]> for TensorData {
    fn from(v: &[E]) -> Self {
        TensorData::new(v.to_vec(), vec![v.len()])
    }
}
impl<E: Element, const A: usize, const B: usize> From<[[E; B]; A]> for TensorData {
    fn from(v: [[E; B]; A]) -> Self {
        TensorData::new(v.iter().flatten().copied().collect(), vec![A, B])
    }
}
impl<E: Element, const A: usize, const B: usize, const C: usize> From<[[[E; C]; B]; A]>
    for TensorData
{
    fn from(v: [[[E; C]; B]; A]) -> Self {
        TensorData::new(
            v.iter().flatten().flatten().copied().collect(),
            vec![A, B, C],
        )
    }
}
impl<E: Element, const A: usize, const B: usize, const C: usize, const D: usize>
    From<[[[[E; D]; C]; B]; A]> for TensorData
{
    fn from(v: [[[[E; D]; C]; B]; A]) -> Self {
        TensorData::new(
            v.iter().flatten().flatten().flatten().copied().collect(),
            vec![A, B, C, D],
        )
    }
}
impl<
    E: Element,
    const A: usize,
    const B: usize,
    const C: usize,
    const D: usize,
    const F: usize,
> From<[[[[[E; F]; D]; C]; B]; A]> for TensorData
{
    fn from(v: [[[[[E; F]; D]; C]; B]; A]) -> Self {
        TensorData::new(
            v.iter()
                .flatten()
                .flatten()
                .flatten()
                .flatten()
                .copied()
                .collect(),
            vec![A, B, C, D, F],
        )
    }
}
