//! Stand-in tensor API on top of `Nd`.
use crate::nd::{self, Nd};
pub use crate::shape::{Shape, Slice, SliceArg};
pub use crate::{s, s_list};
pub use burn_tensor::*;
use std::fmt::Debug;
use std::marker::PhantomData;

pub mod backend {
    pub use super::Backend;
}

pub trait Backend: Clone + Default + Debug + Send + Sync + 'static {
    type Device: Clone + Default + Debug + PartialEq + Send + Sync + 'static;
    type FloatElem: Element;
    type IntElem: Element;
    type BoolElem: Element;
    fn name() -> String {
        "stand-in".into()
    }
    fn seed(_d: &Self::Device, _s: u64) {}
}
pub type Device<B> = <B as Backend>::Device;

#[derive(Clone, Copy, Debug, Default)]
pub struct Float;
#[derive(Clone, Copy, Debug, Default)]
pub struct Int;
#[derive(Clone, Copy, Debug, Default)]
pub struct Bool;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum KindTag {
    Float,
    Int,
    Bool,
}
pub fn kind_of(d: DType) -> KindTag {
    if d.is_float() {
        KindTag::Float
    } else if d.is_bool() {
        KindTag::Bool
    } else {
        KindTag::Int
    }
}

pub trait TensorKind<B: Backend>: Clone + Debug + Default + Send + Sync + 'static {
    const TAG: KindTag;
    type Elem: Element;
    fn default_dtype() -> DType;
}
pub trait BasicOps<B: Backend>: TensorKind<B> {}
pub trait Numeric<B: Backend>: TensorKind<B> {}
impl<B: Backend> TensorKind<B> for Float {
    const TAG: KindTag = KindTag::Float;
    type Elem = B::FloatElem;
    fn default_dtype() -> DType {
        B::FloatElem::dtype()
    }
}
impl<B: Backend> TensorKind<B> for Int {
    const TAG: KindTag = KindTag::Int;
    type Elem = B::IntElem;
    fn default_dtype() -> DType {
        B::IntElem::dtype()
    }
}
impl<B: Backend> TensorKind<B> for Bool {
    const TAG: KindTag = KindTag::Bool;
    type Elem = bool;
    fn default_dtype() -> DType {
        DType::Bool
    }
}
impl<B: Backend, K: TensorKind<B>> BasicOps<B> for K {}
impl<B: Backend> Numeric<B> for Float {}
impl<B: Backend> Numeric<B> for Int {}

#[derive(Debug)]
pub struct Tensor<B: Backend, const D: usize, K = Float> {
    pub nd: Nd,
    _p: PhantomData<(B, K)>,
}
impl<B: Backend, const D: usize, K> Clone for Tensor<B, D, K> {
    fn clone(&self) -> Self {
        Tensor {
            nd: self.nd.clone(),
            _p: PhantomData,
        }
    }
}
impl<B: Backend, const D: usize, K: TensorKind<B>> std::fmt::Display for Tensor<B, D, K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.nd)
    }
}

/// Creation options: a device, or a device with a dtype.
pub trait CreationOptions<Dev> {
    fn dtype(&self) -> Option<DType>;
}
impl<T> CreationOptions<T> for &T {
    fn dtype(&self) -> Option<DType> {
        None
    }
}
impl<T> CreationOptions<T> for (&T, DType) {
    fn dtype(&self) -> Option<DType> {
        Some(self.1)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Distribution {
    Default,
    Bernoulli(f64),
    Uniform(f64, f64),
    Normal(f64, f64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IndexingUpdateOp {
    Assign,
    Add,
}

pub trait AsIndex: Copy {
    fn as_index(self) -> isize;
}
macro_rules! as_index { ($($t:ty),*) => {$( impl AsIndex for $t { fn as_index(self) -> isize { self as isize } } )*}; }
as_index!(usize, isize, i64, i32, u32, u64);

fn dim_index(d: isize, rank: usize) -> usize {
    let k = if d < 0 { d + rank as isize } else { d };
    assert!(k >= 0 && (k as usize) < rank, "dimension {d} out of range for rank {rank}");
    k as usize
}

pub trait ReshapeArgs<const D2: usize> {
    fn target(self, src: &[usize]) -> Vec<usize>;
}
impl<const D2: usize> ReshapeArgs<D2> for Shape {
    fn target(self, _: &[usize]) -> Vec<usize> {
        assert_eq!(self.dims.len(), D2);
        self.dims
    }
}
impl<const D2: usize> ReshapeArgs<D2> for [usize; D2] {
    fn target(self, _: &[usize]) -> Vec<usize> {
        self.to_vec()
    }
}
macro_rules! reshape_signed { ($($t:ty),*) => {$(
    impl<const D2: usize> ReshapeArgs<D2> for [$t; D2] {
        fn target(self, src: &[usize]) -> Vec<usize> {
            let mut out: Vec<i128> = self.iter().map(|x| *x as i128).collect();
            for k in 0..D2 { if out[k] == 0 && k < src.len() && src.iter().all(|d| *d != 0) { out[k] = src[k] as i128; } }
            let neg: Vec<usize> = (0..D2).filter(|k| out[*k] == -1).collect();
            assert!(neg.len() <= 1, "repeated -1 in reshape");
            if let Some(k) = neg.first() {
                let rest: i128 = out.iter().filter(|x| **x != -1).product();
                let n: i128 = src.iter().map(|x| *x as i128).product();
                assert!(rest != 0 && n % rest == 0, "cannot infer dimension");
                out[*k] = n / rest;
            }
            assert!(out.iter().all(|x| *x >= 0), "bad reshape {self:?}");
            out.iter().map(|x| *x as usize).collect()
        }
    }
)*}; }
reshape_signed!(i32, i64, isize);

pub trait BroadcastArgs<const D2: usize> {
    fn target(self, src: &[usize]) -> Vec<usize>;
}
impl<const D2: usize> BroadcastArgs<D2> for Shape {
    fn target(self, _: &[usize]) -> Vec<usize> {
        assert_eq!(self.dims.len(), D2);
        self.dims
    }
}
impl<const D2: usize, T: AsIndex> BroadcastArgs<D2> for [T; D2] {
    fn target(self, src: &[usize]) -> Vec<usize> {
        let off = D2 - src.len();
        self.iter()
            .enumerate()
            .map(|(k, x)| {
                let x = x.as_index();
                if x == -1 {
                    src[k - off]
                } else {
                    assert!(x >= 0, "bad expand");
                    x as usize
                }
            })
            .collect()
    }
}

fn same(a: &Nd, b: &Nd, what: &str) {
    assert_eq!(a.dtype, b.dtype, "{what}: data type mismatch");
}
fn arith(a: &Nd, b: &Nd, what: &str, ff: fn(f64, f64) -> f64, ii: fn(i64, i64) -> i64) -> Nd {
    same(a, b, what);
    if a.dtype.is_float() {
        a.zip(b, a.dtype, |x, y| Num::F(ff(nd::f(x), nd::f(y))))
    } else {
        a.zip(b, a.dtype, |x, y| Num::I(ii(nd::i(x), nd::i(y))))
    }
}
fn idiv(a: i64, b: i64) -> i64 {
    if b == 0 { panic!("integer division by zero") } else { a.wrapping_div(b) }
}
fn imod_floor(a: i64, b: i64) -> i64 {
    let r = a.wrapping_rem(b);
    if r != 0 && ((r < 0) != (b < 0)) { r + b } else { r }
}
fn fmod_floor(a: f64, b: f64) -> f64 {
    a - b * (a / b).floor()
}
fn cmp(a: &Nd, b: &Nd, what: &str, g: fn(std::cmp::Ordering) -> bool, nan: bool) -> Nd {
    same(a, b, what);
    a.zip(b, DType::Bool, |x, y| Num::B(cmp1(x, y, g, nan)))
}
fn cmp1(x: Num, y: Num, g: fn(std::cmp::Ordering) -> bool, nan: bool) -> bool {
    match (x, y) {
        (Num::I(x), Num::I(y)) => g(x.cmp(&y)),
        (Num::U(x), Num::U(y)) => g(x.cmp(&y)),
        (Num::B(x), Num::B(y)) => g(x.cmp(&y)),
        _ => match nd::f(x).partial_cmp(&nd::f(y)) {
            Some(o) => g(o),
            None => nan,
        },
    }
}

impl<B: Backend, const D: usize, K: TensorKind<B>> Tensor<B, D, K> {
    #[track_caller]
    pub fn of(nd: Nd) -> Self {
        assert_eq!(nd.shape.len(), D, "tensor rank: shape {:?} for rank {D}", nd.shape);
        assert_eq!(kind_of(nd.dtype), K::TAG, "tensor kind: {:?}", nd.dtype);
        Tensor { nd, _p: PhantomData }
    }
    pub fn from_data<T: Into<TensorData>>(data: T, _d: &B::Device) -> Self {
        Self::of(Nd::from_data(data.into().convert_dtype(K::default_dtype())))
    }
    pub fn from_data_dtype<T: Into<TensorData>>(data: T, _d: &B::Device, dtype: DType) -> Self {
        Self::of(Nd::from_data(data.into().convert_dtype(dtype)))
    }
    pub fn empty<S: Into<Shape>>(shape: S, o: impl CreationOptions<B::Device>) -> Self {
        Self::fill(shape, Num::I(0), o.dtype())
    }
    fn fill<S: Into<Shape>>(shape: S, v: Num, dtype: Option<DType>) -> Self {
        let dtype = dtype.unwrap_or(K::default_dtype());
        Self::of(Nd::full(shape.into().dims, dtype, v))
    }
    pub fn zeros<S: Into<Shape>>(shape: S, o: impl CreationOptions<B::Device>) -> Self {
        Self::fill(shape, Num::I(0), o.dtype())
    }
    pub fn ones<S: Into<Shape>>(shape: S, o: impl CreationOptions<B::Device>) -> Self {
        Self::fill(shape, Num::I(1), o.dtype())
    }
    pub fn full<S: Into<Shape>, E: ElementConversion + Element>(shape: S, v: E, o: impl CreationOptions<B::Device>) -> Self {
        Self::fill(shape, v.to_num(), o.dtype())
    }
    pub fn zeros_like(&self) -> Self {
        Self::of(Nd::full(self.nd.shape.clone(), self.nd.dtype, Num::I(0)))
    }
    pub fn ones_like(&self) -> Self {
        Self::of(Nd::full(self.nd.shape.clone(), self.nd.dtype, Num::I(1)))
    }
    pub fn full_like<E: Element>(&self, v: E) -> Self {
        Self::of(Nd::full(self.nd.shape.clone(), self.nd.dtype, v.to_num()))
    }
    pub fn dims(&self) -> [usize; D] {
        self.nd.shape.clone().try_into().unwrap()
    }
    pub fn shape(&self) -> Shape {
        Shape { dims: self.nd.shape.clone() }
    }
    pub fn rank(&self) -> usize {
        D
    }
    pub fn dtype(&self) -> DType {
        self.nd.dtype
    }
    pub fn device(&self) -> B::Device {
        Default::default()
    }
    pub fn to_device(self, _d: &B::Device) -> Self {
        self
    }
    pub fn to_data(&self) -> TensorData {
        self.nd.to_data()
    }
    pub fn into_data(self) -> TensorData {
        self.nd.to_data()
    }
    pub fn into_scalar(self) -> K::Elem {
        assert_eq!(self.nd.data.len(), 1, "into_scalar: tensor has {} elements", self.nd.data.len());
        K::Elem::from_num(self.nd.data[0])
    }
    pub fn cast_nd(self, dtype: DType) -> Nd {
        self.nd.cast(dtype)
    }
    pub fn reshape<const D2: usize, S: ReshapeArgs<D2>>(self, s: S) -> Tensor<B, D2, K> {
        let t = s.target(&self.nd.shape);
        Tensor::of(self.nd.reshape(t))
    }
    pub fn flatten<const D2: usize>(self, start: impl AsIndex, end: impl AsIndex) -> Tensor<B, D2, K> {
        let (s, e) = (dim_index(start.as_index(), D), dim_index(end.as_index(), D));
        assert!(s <= e);
        let mut sh: Vec<usize> = self.nd.shape[..s].to_vec();
        sh.push(self.nd.shape[s..=e].iter().product());
        sh.extend(&self.nd.shape[e + 1..]);
        Tensor::of(self.nd.reshape(sh))
    }
    pub fn squeeze<const D2: usize>(self) -> Tensor<B, D2, K> {
        let sh: Vec<usize> = self.nd.shape.iter().copied().filter(|d| *d != 1).collect();
        Tensor::of(self.nd.reshape(sh))
    }
    pub fn squeeze_dim<const D2: usize>(self, dim: usize) -> Tensor<B, D2, K> {
        assert_eq!(self.nd.shape[dim], 1, "squeeze of a dimension that is not 1");
        let mut sh = self.nd.shape.clone();
        sh.remove(dim);
        Tensor::of(self.nd.reshape(sh))
    }
    pub fn squeeze_dims<const D2: usize>(self, dims: &[isize]) -> Tensor<B, D2, K> {
        let ks: Vec<usize> = dims.iter().map(|d| dim_index(*d, D)).collect();
        let sh = if ks.is_empty() {
            self.nd.shape.iter().copied().filter(|d| *d != 1).collect()
        } else {
            for k in &ks {
                assert_eq!(self.nd.shape[*k], 1, "squeeze of a dimension that is not 1");
            }
            (0..D).filter(|k| !ks.contains(k)).map(|k| self.nd.shape[k]).collect()
        };
        Tensor::of(self.nd.reshape(sh))
    }
    pub fn unsqueeze<const D2: usize>(self) -> Tensor<B, D2, K> {
        assert!(D2 >= D);
        let mut sh = vec![1; D2 - D];
        sh.extend(&self.nd.shape);
        Tensor::of(self.nd.reshape(sh))
    }
    pub fn unsqueeze_dim<const D2: usize>(self, dim: usize) -> Tensor<B, D2, K> {
        let mut sh = self.nd.shape.clone();
        sh.insert(dim, 1);
        Tensor::of(self.nd.reshape(sh))
    }
    pub fn unsqueeze_dims<const D2: usize>(self, axes: &[impl AsIndex]) -> Tensor<B, D2, K> {
        let mut ks: Vec<usize> = axes.iter().map(|a| dim_index(a.as_index(), D2)).collect();
        assert_eq!(D + ks.len(), D2, "unsqueeze_dims: rank");
        // A repeated axis takes the next free place.
        ks.sort();
        for k in 1..ks.len() { if ks[k] <= ks[k - 1] { ks[k] = ks[k - 1] + 1; } }
        if let Some(l) = ks.last().copied() {
            if l >= D2 { ks = (D2 - ks.len()..D2).collect(); }
        }
        let mut it = self.nd.shape.iter();
        let sh: Vec<usize> = (0..D2)
            .map(|k| if ks.contains(&k) { 1 } else { *it.next().expect("unsqueeze_dims: repeated axis") })
            .collect();
        Tensor::of(self.nd.reshape(sh))
    }
    pub fn expand<const D2: usize, S: BroadcastArgs<D2>>(self, s: S) -> Tensor<B, D2, K> {
        let t = s.target(&self.nd.shape);
        Tensor::of(self.nd.expand(t))
    }
    pub fn permute<T: AsIndex>(self, axes: [T; D]) -> Self {
        let ks: Vec<usize> = axes.iter().map(|a| dim_index(a.as_index(), D)).collect();
        let mut chk = ks.clone();
        chk.sort();
        assert_eq!(chk, (0..D).collect::<Vec<_>>(), "permute: axes are not a permutation");
        Self::of(self.nd.permute(&ks))
    }
    pub fn swap_dims<T1: AsIndex, T2: AsIndex>(self, a: T1, b: T2) -> Self {
        let mut ks: Vec<usize> = (0..D).collect();
        ks.swap(dim_index(a.as_index(), D), dim_index(b.as_index(), D));
        Self::of(self.nd.permute(&ks))
    }
    pub fn transpose(self) -> Self {
        self.swap_dims(D - 2, D - 1)
    }
    pub fn t(self) -> Self {
        self.transpose()
    }
    pub fn flip<T: AsIndex, const N: usize>(self, axes: [T; N]) -> Self {
        let ks: Vec<usize> = axes.iter().map(|a| dim_index(a.as_index(), D)).collect();
        let sh = self.nd.shape.clone();
        Self::of(Nd::build(sh.clone(), self.nd.dtype, |ix| {
            let src: Vec<usize> = (0..D).map(|k| if ks.contains(&k) { sh[k] - 1 - ix[k] } else { ix[k] }).collect();
            self.nd.at(&src)
        }))
    }
    pub fn slice<S: SliceArg>(self, s: S) -> Self {
        let sl = s.slices();
        assert!(sl.len() <= D, "slice: too many ranges");
        let idx: Vec<Vec<usize>> = (0..D)
            .map(|k| sl.get(k).copied().unwrap_or(Slice::full()).indices(self.nd.shape[k]))
            .collect();
        let shape = idx.iter().map(|v| v.len()).collect();
        Self::of(Nd::build(shape, self.nd.dtype, |ix| {
            let src: Vec<usize> = (0..D).map(|k| idx[k][ix[k]]).collect();
            self.nd.at(&src)
        }))
    }
    pub fn slice_dim<S: Into<Slice>>(self, dim: usize, s: S) -> Self {
        let mut v = vec![Slice::full(); D];
        v[dim] = s.into();
        self.slice(v)
    }
    pub fn slice_assign<S: SliceArg>(self, s: S, values: Self) -> Self {
        let sl = s.slices();
        let idx: Vec<Vec<usize>> = (0..D)
            .map(|k| sl.get(k).copied().unwrap_or(Slice::full()).indices(self.nd.shape[k]))
            .collect();
        let want: Vec<usize> = idx.iter().map(|v| v.len()).collect();
        assert_eq!(want, values.nd.shape, "slice_assign: shape mismatch");
        same(&self.nd, &values.nd, "slice_assign");
        let mut out = self.nd.clone();
        let st = nd::strides(&out.shape);
        nd::for_each_index(&want, |ix| {
            let p: usize = (0..D).map(|k| idx[k][ix[k]] * st[k]).sum();
            out.data[p] = values.nd.at(ix);
        });
        Self::of(out)
    }
    pub fn narrow<T: AsIndex>(self, dim: T, start: usize, length: usize) -> Self {
        let dim = dim_index(dim.as_index(), D);
        assert!(start + length <= self.nd.shape[dim], "narrow out of bounds");
        self.slice_dim(dim, start..start + length)
    }
    pub fn split(self, size: usize, dim: usize) -> Vec<Self> {
        let n = self.nd.shape[dim];
        let mut out = vec![];
        let mut k = 0;
        while k < n {
            let l = size.min(n - k);
            out.push(self.clone().narrow(dim, k, l));
            k += l;
        }
        out
    }
    pub fn split_with_sizes(self, sizes: Vec<usize>, dim: usize) -> Vec<Self> {
        assert_eq!(sizes.iter().sum::<usize>(), self.nd.shape[dim], "split_with_sizes: sizes");
        let mut k = 0;
        sizes.iter().map(|l| { let t = self.clone().narrow(dim, k, *l); k += l; t }).collect()
    }
    pub fn chunk(self, chunks: usize, dim: usize) -> Vec<Self> {
        let n = self.nd.shape[dim];
        self.split(n.div_ceil(chunks), dim)
    }
    pub fn cat(ts: Vec<Self>, dim: usize) -> Self {
        let v: Vec<Nd> = ts.into_iter().map(|t| t.nd).collect();
        assert!(dim < D, "cat: dimension");
        Self::of(Nd::cat(&v, dim))
    }
    pub fn stack<const D2: usize>(ts: Vec<Self>, dim: usize) -> Tensor<B, D2, K> {
        let v: Vec<Nd> = ts
            .into_iter()
            .map(|t| { let mut s = t.nd.shape.clone(); s.insert(dim, 1); t.nd.reshape(s) })
            .collect();
        Tensor::of(Nd::cat(&v, dim))
    }
    pub fn repeat(self, sizes: &[usize]) -> Self {
        let mut t = self.nd;
        for (d, n) in sizes.iter().enumerate() {
            if *n != 1 {
                let sh: Vec<usize> = t.shape.iter().enumerate().map(|(k, x)| if k == d { x * n } else { *x }).collect();
                let src = t.clone();
                t = Nd::build(sh, t.dtype, |ix| {
                    let mut j = ix.to_vec();
                    j[d] %= src.shape[d];
                    src.at(&j)
                });
            }
        }
        Self::of(t)
    }
    pub fn repeat_dim(self, dim: usize, n: usize) -> Self {
        let mut v = vec![1; D];
        v[dim] = n;
        self.repeat(&v)
    }
    pub fn select<T: AsIndex>(self, dim: T, ix: Tensor<B, 1, Int>) -> Self {
        let dim = dim_index(dim.as_index(), D);
        let mut sh = self.nd.shape.clone();
        sh[dim] = ix.nd.data.len();
        let n = self.nd.shape[dim];
        Self::of(Nd::build(sh, self.nd.dtype, |p| {
            let mut j = p.to_vec();
            let k = nd::i(ix.nd.data[p[dim]]);
            assert!(k >= 0 && (k as usize) < n, "select: index {k} out of bounds {n}");
            j[dim] = k as usize;
            self.nd.at(&j)
        }))
    }
    pub fn take<const DI: usize, const DO: usize>(self, dim: usize, ix: Tensor<B, DI, Int>) -> Tensor<B, DO, K> {
        let ish = ix.nd.shape.clone();
        let flat: Tensor<B, 1, Int> = Tensor::of(ix.nd.reshape(vec![nd::numel(&ish)]));
        let n = self.nd.shape[dim] as i64;
        let fixed = Tensor::of(flat.nd.map(flat.nd.dtype, |x| { let v = nd::i(x); Num::I(if v < 0 { v + n } else { v }) }));
        let t = self.select(dim, fixed);
        let mut sh = t.nd.shape[..dim].to_vec();
        sh.extend(&ish);
        sh.extend(&t.nd.shape[dim + 1..]);
        Tensor::of(t.nd.reshape(sh))
    }
    pub fn gather(self, dim: usize, ix: Tensor<B, D, Int>) -> Self {
        let n = self.nd.shape[dim];
        Self::of(Nd::build(ix.nd.shape.clone(), self.nd.dtype, |p| {
            let k = nd::i(ix.nd.at(p));
            assert!(k >= 0 && (k as usize) < n, "gather: index {k} out of bounds {n}");
            let mut j = p.to_vec();
            j[dim] = k as usize;
            self.nd.at(&j)
        }))
    }
    pub fn gather_nd<const M: usize, const DV: usize>(self, ix: Tensor<B, M, Int>) -> Tensor<B, DV, K> {
        let k = *ix.nd.shape.last().unwrap();
        let mut sh = ix.nd.shape[..M - 1].to_vec();
        sh.extend(&self.nd.shape[k..]);
        Tensor::of(Nd::build(sh, self.nd.dtype, |p| {
            let mut src = vec![];
            let mut q = p[..M - 1].to_vec();
            q.push(0);
            for t in 0..k {
                q[M - 1] = t;
                let v = nd::i(ix.nd.at(&q));
                let n = self.nd.shape[t] as i64;
                let v = if v < 0 { v + n } else { v };
                assert!(v >= 0 && v < n, "gather_nd: out of bounds");
                src.push(v as usize);
            }
            src.extend(&p[M - 1..]);
            self.nd.at(&src)
        }))
    }
    pub fn scatter_nd<const M: usize, const DV: usize>(self, ix: Tensor<B, M, Int>, v: Tensor<B, DV, K>, op: IndexingUpdateOp) -> Self {
        let k = *ix.nd.shape.last().unwrap();
        let mut out = self.nd.clone();
        let st = nd::strides(&out.shape);
        nd::for_each_index(&v.nd.shape, |p| {
            let mut q = p[..M - 1].to_vec();
            q.push(0);
            let mut pos = 0;
            for t in 0..k {
                q[M - 1] = t;
                let x = nd::i(ix.nd.at(&q));
                let n = self.nd.shape[t] as i64;
                let x = if x < 0 { x + n } else { x };
                assert!(x >= 0 && x < n, "scatter_nd: out of bounds");
                pos += x as usize * st[t];
            }
            for (t, x) in p[M - 1..].iter().enumerate() {
                pos += x * st[k + t];
            }
            out.data[pos] = upd(self.nd.dtype, op, out.data[pos], v.nd.at(p));
        });
        Self::of(out)
    }
    pub fn scatter(self, dim: usize, ix: Tensor<B, D, Int>, v: Self, op: IndexingUpdateOp) -> Self {
        assert_eq!(ix.nd.shape, v.nd.shape, "scatter: indices and values differ in shape");
        let mut out = self.nd.clone();
        let st = nd::strides(&out.shape);
        nd::for_each_index(&ix.nd.shape, |p| {
            let k = nd::i(ix.nd.at(p));
            assert!(k >= 0 && (k as usize) < self.nd.shape[dim], "scatter: index out of bounds");
            let mut j = p.to_vec();
            j[dim] = k as usize;
            let pos: usize = j.iter().zip(&st).map(|(a, b)| a * b).sum();
            out.data[pos] = upd(self.nd.dtype, op, out.data[pos], v.nd.at(p));
        });
        Self::of(out)
    }
    pub fn select_assign(self, dim: usize, ix: Tensor<B, 1, Int>, v: Self, op: IndexingUpdateOp) -> Self {
        let mut out = self.nd.clone();
        let st = nd::strides(&out.shape);
        nd::for_each_index(&v.nd.shape, |p| {
            let mut j = p.to_vec();
            j[dim] = nd::i(ix.nd.data[p[dim]]) as usize;
            let pos: usize = j.iter().zip(&st).map(|(a, b)| a * b).sum();
            out.data[pos] = upd(self.nd.dtype, op, out.data[pos], v.nd.at(p));
        });
        Self::of(out)
    }
    pub fn mask_where(self, mask: Tensor<B, D, Bool>, v: Self) -> Self {
        same(&self.nd, &v.nd, "mask_where");
        let sh = Nd::broadcast_shape(&Nd::broadcast_shape(&self.nd.shape, &mask.nd.shape), &v.nd.shape);
        let (a, m, v) = (self.nd.expand(sh.clone()), mask.nd.expand(sh.clone()), v.nd.expand(sh.clone()));
        let data = (0..a.data.len()).map(|k| if nd::b(m.data[k]) { v.data[k] } else { a.data[k] }).collect();
        Self::of(Nd::new(sh, a.dtype, data))
    }
    pub fn mask_fill<E: Element>(self, mask: Tensor<B, D, Bool>, v: E) -> Self {
        let full = Self::of(Nd::full(vec![1; D], self.nd.dtype, v.to_num()));
        self.mask_where(mask, full)
    }
    pub fn equal(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::of(cmp(&self.nd, &o.nd, "equal", |o| o.is_eq(), false))
    }
    pub fn not_equal(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::of(cmp(&self.nd, &o.nd, "not_equal", |o| o.is_ne(), true))
    }
    pub fn equal_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> {
        let o = nd::norm(self.nd.dtype, o.to_num());
        Tensor::of(self.nd.map(DType::Bool, |x| Num::B(cmp1(x, o, |o| o.is_eq(), false))))
    }
    pub fn not_equal_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> {
        let o = nd::norm(self.nd.dtype, o.to_num());
        Tensor::of(self.nd.map(DType::Bool, |x| Num::B(cmp1(x, o, |o| o.is_ne(), true))))
    }
    pub fn any(self) -> Tensor<B, 1, Bool> {
        Tensor::of(Nd::new(vec![1], DType::Bool, vec![Num::B(self.nd.data.iter().any(|x| nd::b(*x)))]))
    }
    pub fn all(self) -> Tensor<B, 1, Bool> {
        Tensor::of(Nd::new(vec![1], DType::Bool, vec![Num::B(self.nd.data.iter().all(|x| nd::b(*x)))]))
    }
    pub fn any_dim(self, d: usize) -> Tensor<B, D, Bool> {
        Tensor::of(self.nd.reduce(d, DType::Bool, |v| Num::B(v.iter().any(|x| nd::b(*x)))))
    }
    pub fn all_dim(self, d: usize) -> Tensor<B, D, Bool> {
        Tensor::of(self.nd.reduce(d, DType::Bool, |v| Num::B(v.iter().all(|x| nd::b(*x)))))
    }
    pub fn tril(self, diag: i64) -> Self {
        Self::of(Nd::build(self.nd.shape.clone(), self.nd.dtype, |ix| {
            if ix[D - 1] as i64 <= ix[D - 2] as i64 + diag { self.nd.at(ix) } else { Num::I(0) }
        }))
    }
    pub fn triu(self, diag: i64) -> Self {
        Self::of(Nd::build(self.nd.shape.clone(), self.nd.dtype, |ix| {
            if ix[D - 1] as i64 >= ix[D - 2] as i64 + diag { self.nd.at(ix) } else { Num::I(0) }
        }))
    }
    pub fn pad(self, padding: impl PadArgs, mode: impl Into<crate::tensor::ops::PadMode>) -> Self {
        let p = padding.pairs(D);
        let mode = mode.into();
        let sh: Vec<usize> = (0..D).map(|k| self.nd.shape[k] + p[k].0 + p[k].1).collect();
        let src = &self.nd;
        Self::of(Nd::build(sh, self.nd.dtype, |ix| {
            let mut j = vec![0usize; D];
            for k in 0..D {
                let n = src.shape[k] as i64;
                let x = ix[k] as i64 - p[k].0 as i64;
                j[k] = match mode {
                    ops::PadMode::Constant(v) => {
                        let v = v as f64;
                        if x < 0 || x >= n {
                            return Num::F(v);
                        }
                        x as usize
                    }
                    ops::PadMode::Edge => x.clamp(0, n - 1) as usize,
                    ops::PadMode::Reflect => {
                        assert!((p[k].0 as i64) < n && (p[k].1 as i64) < n, "reflect padding too large");
                        let x = if x < 0 { -x } else { x };
                        (if x >= n { 2 * (n - 1) - x } else { x }) as usize
                    }
                };
            }
            src.at(&j)
        }))
    }
    pub fn random<S: Into<Shape>>(shape: S, dist: Distribution, o: impl CreationOptions<B::Device>) -> Self {
        Self::of(rand_nd(shape.into().dims, o.dtype().unwrap_or(K::default_dtype()), dist))
    }
    pub fn random_like(&self, dist: Distribution) -> Self {
        Self::of(rand_nd(self.nd.shape.clone(), self.nd.dtype, dist))
    }
    pub fn argwhere(self) -> Tensor<B, 2, Int> {
        let mut rows = vec![];
        let mut n = 0;
        nd::for_each_index(&self.nd.shape, |ix| {
            if nd::b(self.nd.at(ix)) {
                n += 1;
                rows.extend(ix.iter().map(|x| Num::I(*x as i64)));
            }
        });
        Tensor::of(Nd::new(vec![n, D], B::IntElem::dtype(), rows))
    }
    pub fn nonzero(self) -> Vec<Tensor<B, 1, Int>> {
        let t = self.argwhere();
        (0..D).map(|d| t.clone().slice([0..t.nd.shape[0], d..d + 1]).reshape([t.nd.shape[0]])).collect()
    }
}
pub trait PadArgs {
    fn pairs(self, rank: usize) -> Vec<(usize, usize)>;
}
impl PadArgs for (usize, usize, usize, usize) {
    /// (left, right, top, bottom) of the two last dimensions.
    fn pairs(self, rank: usize) -> Vec<(usize, usize)> {
        let mut v = vec![(0, 0); rank];
        v[rank - 2] = (self.2, self.3);
        v[rank - 1] = (self.0, self.1);
        v
    }
}
impl<const N: usize> PadArgs for [(usize, usize); N] {
    fn pairs(self, rank: usize) -> Vec<(usize, usize)> {
        let mut v = vec![(0, 0); rank - N];
        v.extend(self);
        v
    }
}
impl PadArgs for &[(usize, usize)] {
    fn pairs(self, rank: usize) -> Vec<(usize, usize)> {
        let mut v = vec![(0, 0); rank - self.len()];
        v.extend(self);
        v
    }
}
impl<const N: usize> PadArgs for &[(usize, usize); N] {
    fn pairs(self, rank: usize) -> Vec<(usize, usize)> {
        (*self).pairs(rank)
    }
}
impl PadArgs for Vec<(usize, usize)> {
    fn pairs(self, rank: usize) -> Vec<(usize, usize)> {
        self.as_slice().pairs(rank)
    }
}
fn upd(d: DType, op: IndexingUpdateOp, old: Num, new: Num) -> Num {
    match op {
        IndexingUpdateOp::Assign => new,
        IndexingUpdateOp::Add => {
            if d.is_float() {
                nd::norm(d, Num::F(nd::f(old) + nd::f(new)))
            } else if d.is_bool() {
                Num::B(nd::b(old) || nd::b(new))
            } else {
                nd::norm(d, Num::I(nd::i(old).wrapping_add(nd::i(new))))
            }
        }
    }
}
fn rand_nd(shape: Vec<usize>, dtype: DType, dist: Distribution) -> Nd {
    use std::cell::Cell;
    thread_local!(static S: Cell<u64> = const { Cell::new(0x9E3779B97F4A7C15) });
    let mut next = || {
        S.with(|s| {
            let mut x = s.get();
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            s.set(x);
            (x >> 11) as f64 / (1u64 << 53) as f64
        })
    };
    Nd::build(shape, dtype, |_| match dist {
        Distribution::Default => Num::F(next()),
        Distribution::Bernoulli(p) => Num::F((next() < p) as u8 as f64),
        Distribution::Uniform(a, b) => Num::F(a + (b - a) * next()),
        Distribution::Normal(m, s) => {
            let (u, v) = (next().max(1e-12), next());
            Num::F(m + s * (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos())
        }
    })
}

macro_rules! sc {
    ($self:ident, $o:ident, $what:expr, $ff:expr, $ii:expr) => {{
        let o = $o.to_num();
        let d = $self.nd.dtype;
        let ff: fn(f64, f64) -> f64 = $ff;
        let ii: fn(i64, i64) -> i64 = $ii;
        Self::of(if d.is_float() {
            let y = nd::f(nd::norm(d, o));
            $self.nd.map(d, |x| Num::F(ff(nd::f(x), y)))
        } else {
            let y = nd::i(nd::norm(d, o));
            $self.nd.map(d, |x| Num::I(ii(nd::i(x), y)))
        })
    }};
}

impl<B: Backend, const D: usize, K: Numeric<B>> Tensor<B, D, K> {
    pub fn square(self) -> Self { self.clone().mul(self) }
    pub fn add(self, o: Self) -> Self {
        Self::of(arith(&self.nd, &o.nd, "add", |a, b| a + b, i64::wrapping_add))
    }
    pub fn sub(self, o: Self) -> Self {
        Self::of(arith(&self.nd, &o.nd, "sub", |a, b| a - b, i64::wrapping_sub))
    }
    pub fn mul(self, o: Self) -> Self {
        Self::of(arith(&self.nd, &o.nd, "mul", |a, b| a * b, i64::wrapping_mul))
    }
    pub fn div(self, o: Self) -> Self {
        Self::of(arith(&self.nd, &o.nd, "div", |a, b| a / b, idiv))
    }
    pub fn remainder(self, o: Self) -> Self {
        Self::of(arith(&self.nd, &o.nd, "remainder", fmod_floor, imod_floor))
    }
    pub fn fmod(self, o: Self) -> Self {
        Self::of(arith(&self.nd, &o.nd, "fmod", |a, b| a % b, |a, b| a.wrapping_rem(b)))
    }
    pub fn add_scalar<E: Element>(self, o: E) -> Self {
        sc!(self, o, "add", |a, b| a + b, i64::wrapping_add)
    }
    pub fn sub_scalar<E: Element>(self, o: E) -> Self {
        sc!(self, o, "sub", |a, b| a - b, i64::wrapping_sub)
    }
    pub fn mul_scalar<E: Element>(self, o: E) -> Self {
        sc!(self, o, "mul", |a, b| a * b, i64::wrapping_mul)
    }
    pub fn div_scalar<E: Element>(self, o: E) -> Self {
        sc!(self, o, "div", |a, b| a / b, idiv)
    }
    pub fn remainder_scalar<E: Element>(self, o: E) -> Self {
        sc!(self, o, "rem", fmod_floor, imod_floor)
    }
    pub fn fmod_scalar<E: Element>(self, o: E) -> Self {
        sc!(self, o, "fmod", |a, b| a % b, |a, b| a.wrapping_rem(b))
    }
    pub fn powf(self, o: Self) -> Self {
        Self::of(arith(&self.nd, &o.nd, "powf", f64::powf, |a, b| (a as f64).powf(b as f64) as i64))
    }
    pub fn powi<K2>(self, o: Tensor<B, D, K2>) -> Self {
        let d = self.nd.dtype;
        Self::of(if d.is_float() {
            self.nd.zip(&o.nd, d, |a, b| Num::F(nd::f(a).powf(nd::f(b))))
        } else {
            self.nd.zip(&o.nd, d, |a, b| Num::I(ipow(nd::i(a), nd::i(b))))
        })
    }
    pub fn powf_scalar<E: Element>(self, o: E) -> Self {
        sc!(self, o, "powf", f64::powf, |a, b| (a as f64).powf(b as f64) as i64)
    }
    pub fn powi_scalar<E: Element>(self, o: E) -> Self {
        sc!(self, o, "powi", f64::powf, ipow)
    }
    pub fn neg(self) -> Self {
        let d = self.nd.dtype;
        Self::of(if d.is_float() { self.nd.map(d, |x| Num::F(-nd::f(x))) } else { self.nd.map(d, |x| Num::I(nd::i(x).wrapping_neg())) })
    }
    pub fn abs(self) -> Self {
        let d = self.nd.dtype;
        Self::of(if d.is_float() { self.nd.map(d, |x| Num::F(nd::f(x).abs())) } else { self.nd.map(d, |x| Num::I(nd::i(x).wrapping_abs())) })
    }
    pub fn sign(self) -> Self {
        let d = self.nd.dtype;
        Self::of(if d.is_float() {
            self.nd.map(d, |x| { let v = nd::f(x); Num::F(if v > 0.0 { 1.0 } else if v < 0.0 { -1.0 } else { v }) })
        } else {
            self.nd.map(d, |x| Num::I(nd::i(x).signum()))
        })
    }
    pub fn max_pair(self, o: Self) -> Self {
        if self.nd.dtype == DType::U64 {
            same(&self.nd, &o.nd, "max");
            return Self::of(self.nd.zip(&o.nd, DType::U64, |x, y| if nd::i(x) as u64 >= nd::i(y) as u64 { x } else { y }));
        }
        Self::of(arith(&self.nd, &o.nd, "max", fmax, i64::max))
    }
    pub fn min_pair(self, o: Self) -> Self {
        if self.nd.dtype == DType::U64 {
            same(&self.nd, &o.nd, "min");
            return Self::of(self.nd.zip(&o.nd, DType::U64, |x, y| if nd::i(x) as u64 <= nd::i(y) as u64 { x } else { y }));
        }
        Self::of(arith(&self.nd, &o.nd, "min", fmin, i64::min))
    }
    pub fn clamp<E: Element>(self, lo: E, hi: E) -> Self {
        self.clamp_min(lo).clamp_max(hi)
    }
    pub fn clamp_min<E: Element>(self, o: E) -> Self {
        sc!(self, o, "clamp", fmax, i64::max)
    }
    pub fn clamp_max<E: Element>(self, o: E) -> Self {
        sc!(self, o, "clamp", fmin, i64::min)
    }
    pub fn greater(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::of(cmp(&self.nd, &o.nd, "greater", |o| o.is_gt(), false))
    }
    pub fn greater_equal(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::of(cmp(&self.nd, &o.nd, "greater_equal", |o| o.is_ge(), false))
    }
    pub fn lower(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::of(cmp(&self.nd, &o.nd, "lower", |o| o.is_lt(), false))
    }
    pub fn lower_equal(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::of(cmp(&self.nd, &o.nd, "lower_equal", |o| o.is_le(), false))
    }
    pub fn greater_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> {
        let o = nd::norm(self.nd.dtype, o.to_num());
        Tensor::of(self.nd.map(DType::Bool, |x| Num::B(cmp1(x, o, |o| o.is_gt(), false))))
    }
    pub fn greater_equal_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> {
        let o = nd::norm(self.nd.dtype, o.to_num());
        Tensor::of(self.nd.map(DType::Bool, |x| Num::B(cmp1(x, o, |o| o.is_ge(), false))))
    }
    pub fn lower_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> {
        let o = nd::norm(self.nd.dtype, o.to_num());
        Tensor::of(self.nd.map(DType::Bool, |x| Num::B(cmp1(x, o, |o| o.is_lt(), false))))
    }
    pub fn lower_equal_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> {
        let o = nd::norm(self.nd.dtype, o.to_num());
        Tensor::of(self.nd.map(DType::Bool, |x| Num::B(cmp1(x, o, |o| o.is_le(), false))))
    }
    pub fn sum(self) -> Tensor<B, 1, K> {
        let n = self.nd.data.len();
        let d = self.nd.dtype;
        Tensor::of(self.nd.reshape(vec![n]).reduce(0, d, |v| sum(d, v)))
    }
    pub fn prod(self) -> Tensor<B, 1, K> {
        let n = self.nd.data.len();
        let d = self.nd.dtype;
        Tensor::of(self.nd.reshape(vec![n]).reduce(0, d, |v| prod(d, v)))
    }
    pub fn mean(self) -> Tensor<B, 1, K> {
        let n = self.nd.data.len();
        self.sum().div_scalar(n as i64)
    }
    pub fn sum_dim(self, dim: impl AsIndex) -> Self {
        let d = self.nd.dtype;
        Self::of(self.nd.reduce(dim_index(dim.as_index(), D), d, |v| sum(d, v)))
    }
    pub fn prod_dim(self, dim: impl AsIndex) -> Self {
        let d = self.nd.dtype;
        Self::of(self.nd.reduce(dim_index(dim.as_index(), D), d, |v| prod(d, v)))
    }
    pub fn mean_dim(self, dim: impl AsIndex) -> Self {
        let k = dim_index(dim.as_index(), D);
        let n = self.nd.shape[k];
        self.sum_dim(k).div_scalar(n as i64)
    }
    pub fn cumsum(self, dim: impl AsIndex) -> Self {
        let d = self.nd.dtype;
        Self::of(self.nd.lanes(dim_index(dim.as_index(), D), d, |v| (0..v.len()).map(|k| sum(d, &v[..=k])).collect()))
    }
    pub fn cumprod(self, dim: impl AsIndex) -> Self {
        let d = self.nd.dtype;
        Self::of(self.nd.lanes(dim_index(dim.as_index(), D), d, |v| (0..v.len()).map(|k| prod(d, &v[..=k])).collect()))
    }
    pub fn max(self) -> Tensor<B, 1, K> {
        let n = self.nd.data.len();
        let t: Tensor<B, 1, K> = Tensor::of(self.nd.reshape(vec![n]));
        t.max_dim(0)
    }
    pub fn min(self) -> Tensor<B, 1, K> {
        let n = self.nd.data.len();
        let t: Tensor<B, 1, K> = Tensor::of(self.nd.reshape(vec![n]));
        t.min_dim(0)
    }
    pub fn max_dim(self, dim: impl AsIndex) -> Self {
        let d = self.nd.dtype;
        Self::of(self.nd.reduce(dim_index(dim.as_index(), D), d, |v| v[arg(v, true)]))
    }
    pub fn min_dim(self, dim: impl AsIndex) -> Self {
        let d = self.nd.dtype;
        Self::of(self.nd.reduce(dim_index(dim.as_index(), D), d, |v| v[arg(v, false)]))
    }
    pub fn argmax(self, dim: impl AsIndex) -> Tensor<B, D, Int> {
        Tensor::of(self.nd.reduce(dim_index(dim.as_index(), D), B::IntElem::dtype(), |v| Num::I(arg(v, true) as i64)))
    }
    pub fn argmin(self, dim: impl AsIndex) -> Tensor<B, D, Int> {
        Tensor::of(self.nd.reduce(dim_index(dim.as_index(), D), B::IntElem::dtype(), |v| Num::I(arg(v, false) as i64)))
    }
    pub fn max_dim_with_indices(self, dim: impl AsIndex + Copy) -> (Self, Tensor<B, D, Int>) {
        (self.clone().max_dim(dim), self.argmax(dim))
    }
    pub fn topk_with_indices(self, k: usize, dim: usize) -> (Self, Tensor<B, D, Int>) {
        let (v, i) = self.sort_descending_with_indices(dim);
        (v.narrow(dim, 0, k), i.narrow(dim, 0, k))
    }
    pub fn topk(self, k: usize, dim: usize) -> Self {
        self.topk_with_indices(k, dim).0
    }
    pub fn sort_with_indices(self, dim: usize) -> (Self, Tensor<B, D, Int>) {
        self.sorted(dim, false)
    }
    pub fn sort(self, dim: usize) -> Self {
        self.sorted(dim, false).0
    }
    pub fn sort_descending(self, dim: usize) -> Self {
        self.sorted(dim, true).0
    }
    pub fn sort_descending_with_indices(self, dim: usize) -> (Self, Tensor<B, D, Int>) {
        self.sorted(dim, true)
    }
    pub fn argsort(self, dim: usize) -> Tensor<B, D, Int> {
        self.sorted(dim, false).1
    }
    fn sorted(self, dim: usize, desc: bool) -> (Self, Tensor<B, D, Int>) {
        let order = |v: &[Num]| -> Vec<usize> {
            let mut ix: Vec<usize> = (0..v.len()).collect();
            ix.sort_by(|a, b| {
                let o = nd::f(v[*a]).partial_cmp(&nd::f(v[*b])).unwrap();
                if desc { o.reverse() } else { o }
            });
            ix
        };
        let d = self.nd.dtype;
        let vals = self.nd.lanes(dim, d, |v| order(v).iter().map(|k| v[*k]).collect());
        let idx = self.nd.lanes(dim, B::IntElem::dtype(), |v| order(v).iter().map(|k| Num::I(*k as i64)).collect());
        (Self::of(vals), Tensor::of(idx))
    }
    pub fn max_abs(self) -> Tensor<B, 1, K> {
        self.abs().max()
    }
    pub fn one_hot_fill<const D2: usize>(self, n: usize, on: f32, off: f32, axis: i64) -> Tensor<B, D2, K> {
        let ax = if axis < 0 { (axis + D2 as i64) as usize } else { axis as usize };
        let mut sh = self.nd.shape.clone();
        sh.insert(ax, n);
        let d = self.nd.dtype;
        Tensor::of(Nd::build(sh, d, |ix| {
            let mut j = ix.to_vec();
            j.remove(ax);
            let v = nd::i(self.nd.at(&j));
            let v = if v < 0 { v + n as i64 } else { v };
            Num::F(if v == ix[ax] as i64 { on } else { off } as f64)
        }))
    }
    pub fn one_hot<const D2: usize>(self, n: usize) -> Tensor<B, D2, K> {
        self.one_hot_fill(n, 1.0, 0.0, -1)
    }
    pub fn bool(self) -> Tensor<B, D, Bool> {
        Tensor::of(self.nd.map(DType::Bool, |x| Num::B(nd::b(x))))
    }
    pub fn dot(self, o: Self) -> Tensor<B, 1, K> {
        self.mul(o).sum()
    }
    pub fn matmul(self, o: Self) -> Self {
        Self::of(self.nd.matmul(&o.nd))
    }
    pub fn cast<C: CastTo<B, K>>(self, c: C) -> Tensor<B, D, C::Out> {
        let d = c.dtype();
        Tensor::of(self.nd.cast(d))
    }
}
/// Target of `Tensor::cast`: a dtype of the same kind.
pub trait CastTo<B: Backend, K: TensorKind<B>> {
    type Out: TensorKind<B>;
    fn dtype(self) -> DType;
}
impl<B: Backend, K: TensorKind<B>> CastTo<B, K> for DType {
    type Out = K;
    fn dtype(self) -> DType {
        self
    }
}
pub fn fmax(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() { f64::NAN } else if a > b { a } else { b }
}
pub fn fmin(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() { f64::NAN } else if a < b { a } else { b }
}
fn ipow(a: i64, b: i64) -> i64 {
    if b < 0 {
        match a {
            1 => 1,
            -1 => if b % 2 == 0 { 1 } else { -1 },
            _ => 0,
        }
    } else {
        a.wrapping_pow(b as u32)
    }
}
fn sum(d: DType, v: &[Num]) -> Num {
    if d.is_float() { Num::F(v.iter().map(|x| nd::f(*x)).sum()) } else { Num::I(v.iter().fold(0i64, |a, x| a.wrapping_add(nd::i(*x)))) }
}
fn prod(d: DType, v: &[Num]) -> Num {
    if d.is_float() { Num::F(v.iter().map(|x| nd::f(*x)).product()) } else { Num::I(v.iter().fold(1i64, |a, x| a.wrapping_mul(nd::i(*x)))) }
}
fn arg(v: &[Num], max: bool) -> usize {
    let mut best = 0;
    for k in 1..v.len() {
        let (a, b) = (nd::f(v[k]), nd::f(v[best]));
        if (max && a > b) || (!max && a < b) {
            best = k;
        }
    }
    best
}

impl<B: Backend, const D: usize> Tensor<B, D, Float> {
    pub fn from_floats<T: Into<TensorData>>(d: T, dev: &B::Device) -> Self {
        Self::from_data(d.into().convert::<f32>(), dev)
    }
    fn un(self, name: &'static str, g: fn(f64) -> f64) -> Self {
        let d = self.nd.dtype;
        Self::of(self.nd.map(d, |x| Num::F(crate::uf::un(name, g, nd::f(x)))))
    }
    pub fn int(self) -> Tensor<B, D, Int> {
        Tensor::of(self.nd.map(B::IntElem::dtype(), |x| Num::F(nd::f(x))))
    }
    pub fn exp(self) -> Self { self.un("exp", f64::exp) }
    pub fn log(self) -> Self { self.un("log", f64::ln) }
    pub fn log1p(self) -> Self { self.un("log1p", f64::ln_1p) }
    pub fn erf(self) -> Self { self.un("erf", erf) }
    pub fn recip(self) -> Self { self.un("recip", f64::recip) }
    pub fn sqrt(self) -> Self { self.un("sqrt", f64::sqrt) }
    pub fn cos(self) -> Self { self.un("cos", f64::cos) }
    pub fn sin(self) -> Self { self.un("sin", f64::sin) }
    pub fn tan(self) -> Self { self.un("tan", f64::tan) }
    pub fn cosh(self) -> Self { self.un("cosh", f64::cosh) }
    pub fn sinh(self) -> Self { self.un("sinh", f64::sinh) }
    pub fn tanh(self) -> Self { self.un("tanh", f64::tanh) }
    pub fn acos(self) -> Self { self.un("acos", f64::acos) }
    pub fn asin(self) -> Self { self.un("asin", f64::asin) }
    pub fn atan(self) -> Self { self.un("atan", f64::atan) }
    pub fn acosh(self) -> Self { self.un("acosh", f64::acosh) }
    pub fn asinh(self) -> Self { self.un("asinh", f64::asinh) }
    pub fn atanh(self) -> Self { self.un("atanh", f64::atanh) }
    pub fn floor(self) -> Self { self.un("floor", f64::floor) }
    pub fn ceil(self) -> Self { self.un("ceil", f64::ceil) }
    pub fn round(self) -> Self { self.un("round", f64::round_ties_even) }
    pub fn trunc(self) -> Self { self.un("trunc", f64::trunc) }
    pub fn is_nan(self) -> Tensor<B, D, Bool> {
        Tensor::of(self.nd.map(DType::Bool, |x| Num::B(nd::f(x).is_nan())))
    }
    pub fn is_inf(self) -> Tensor<B, D, Bool> {
        Tensor::of(self.nd.map(DType::Bool, |x| Num::B(nd::f(x).is_infinite())))
    }
    pub fn is_finite(self) -> Tensor<B, D, Bool> {
        Tensor::of(self.nd.map(DType::Bool, |x| Num::B(nd::f(x).is_finite())))
    }
    pub fn detach(self) -> Self {
        self
    }
    pub fn var(self, dim: usize) -> Self {
        let n = self.nd.shape[dim];
        self.var_bias(dim).mul_scalar(n as f64 / (n as f64 - 1.0))
    }
    pub fn var_bias(self, dim: usize) -> Self {
        let m = self.clone().mean_dim(dim);
        let c = self.sub(m);
        c.clone().mul(c).mean_dim(dim)
    }
    pub fn var_mean_bias(self, dim: usize) -> (Self, Self) {
        (self.clone().var_bias(dim), self.mean_dim(dim))
    }
    pub fn grid_sample_2d(self, grid: Tensor<B, D>, opts: impl Into<ops::GridSampleOptions>) -> Self {
        Self::of(crate::func::grid_sample_2d(&self.nd, &grid.nd, opts.into()))
    }
    pub fn require_grad(self) -> Self {
        self
    }
}
/// Error function, W. J. Cody's approximation quality is not needed: series / continued fraction.
pub fn erf(x: f64) -> f64 {
    if x.abs() < 3.0 {
        let (mut s, mut t) = (x, x);
        for k in 1..80 {
            t *= -x * x / k as f64;
            s += t / (2 * k + 1) as f64;
        }
        s * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        let mut c = 0.0;
        for k in (1..60).rev() {
            c = (k as f64 / 2.0) / (x.abs() + c);
        }
        let r = 1.0 - (-x * x).exp() / ((x.abs() + c) * std::f64::consts::PI.sqrt());
        r * x.signum()
    }
}

impl<B: Backend> Tensor<B, 1, Int> {
    pub fn arange(r: std::ops::Range<i64>, o: impl CreationOptions<B::Device>) -> Self {
        Self::arange_step(r, 1, o)
    }
    pub fn arange_step(r: std::ops::Range<i64>, step: usize, o: impl CreationOptions<B::Device>) -> Self {
        let v: Vec<Num> = r.step_by(step).map(Num::I).collect();
        Self::of(Nd::new(vec![v.len()], o.dtype().unwrap_or(B::IntElem::dtype()), v))
    }
}
impl<B: Backend, const D: usize> Tensor<B, D, Int> {
    pub fn from_ints<T: Into<TensorData>>(d: T, dev: &B::Device) -> Self {
        Self::from_data(d.into().convert::<i32>(), dev)
    }
    pub fn float(self) -> Tensor<B, D, Float> {
        Tensor::of(self.nd.map(B::FloatElem::dtype(), |x| x))
    }
    fn bits(self, o: Self, what: &str, g: fn(i64, i64) -> i64) -> Self {
        Self::of(arith(&self.nd, &o.nd, what, |_, _| unreachable!(), g))
    }
    pub fn bitwise_and(self, o: Self) -> Self { self.bits(o, "and", |a, b| a & b) }
    pub fn bitwise_or(self, o: Self) -> Self { self.bits(o, "or", |a, b| a | b) }
    pub fn bitwise_xor(self, o: Self) -> Self { self.bits(o, "xor", |a, b| a ^ b) }
    pub fn bitwise_left_shift(self, o: Self) -> Self { self.bits(o, "shl", |a, b| a << b) }
    pub fn bitwise_right_shift(self, o: Self) -> Self { self.bits(o, "shr", |a, b| a >> b) }
    pub fn bitwise_not(self) -> Self {
        let d = self.nd.dtype;
        Self::of(self.nd.map(d, |x| Num::I(!nd::i(x))))
    }
    pub fn bitwise_and_scalar(self, o: B::IntElem) -> Self { sc!(self, o, "and", |_, _| unreachable!(), |a, b| a & b) }
    pub fn bitwise_or_scalar(self, o: B::IntElem) -> Self { sc!(self, o, "or", |_, _| unreachable!(), |a, b| a | b) }
    pub fn bitwise_xor_scalar(self, o: B::IntElem) -> Self { sc!(self, o, "xor", |_, _| unreachable!(), |a, b| a ^ b) }
    pub fn bitwise_left_shift_scalar(self, o: B::IntElem) -> Self { sc!(self, o, "shl", |_, _| unreachable!(), |a, b| a << b) }
    pub fn bitwise_right_shift_scalar(self, o: B::IntElem) -> Self { sc!(self, o, "shr", |_, _| unreachable!(), |a, b| a >> b) }
}
impl<B: Backend, const D: usize> Tensor<B, D, Bool> {
    pub fn from_bool(d: TensorData, dev: &B::Device) -> Self {
        Self::from_data(d, dev)
    }
    pub fn int(self) -> Tensor<B, D, Int> {
        Tensor::of(self.nd.map(B::IntElem::dtype(), |x| x))
    }
    pub fn float(self) -> Tensor<B, D, Float> {
        Tensor::of(self.nd.map(B::FloatElem::dtype(), |x| x))
    }
    pub fn bool_not(self) -> Self {
        Self::of(self.nd.map(DType::Bool, |x| Num::B(!nd::b(x))))
    }
    pub fn bool_and(self, o: Self) -> Self {
        Self::of(self.nd.zip(&o.nd, DType::Bool, |x, y| Num::B(nd::b(x) && nd::b(y))))
    }
    pub fn bool_or(self, o: Self) -> Self {
        Self::of(self.nd.zip(&o.nd, DType::Bool, |x, y| Num::B(nd::b(x) || nd::b(y))))
    }
    pub fn bool_xor(self, o: Self) -> Self {
        Self::of(self.nd.zip(&o.nd, DType::Bool, |x, y| Num::B(nd::b(x) != nd::b(y))))
    }
    pub fn diag_mask<S: Into<Shape>>(shape: S, offset: i64, _d: &B::Device) -> Self {
        Self::of(Nd::build(shape.into().dims, DType::Bool, |ix| Num::B(ix[D - 1] as i64 - ix[D - 2] as i64 != offset)))
    }
    pub fn tril_mask<S: Into<Shape>>(shape: S, offset: i64, _d: &B::Device) -> Self {
        Self::of(Nd::build(shape.into().dims, DType::Bool, |ix| Num::B(ix[D - 1] as i64 > ix[D - 2] as i64 + offset)))
    }
    pub fn triu_mask<S: Into<Shape>>(shape: S, offset: i64, _d: &B::Device) -> Self {
        Self::of(Nd::build(shape.into().dims, DType::Bool, |ix| Num::B((ix[D - 1] as i64) < ix[D - 2] as i64 + offset)))
    }
}

macro_rules! op_traits {
    ($tr:ident, $f:ident, $m:ident, $ms:ident) => {
        impl<B: Backend, const D: usize, K: Numeric<B>> std::ops::$tr<Tensor<B, D, K>> for Tensor<B, D, K> {
            type Output = Tensor<B, D, K>;
            fn $f(self, o: Self) -> Self {
                Tensor::$m(self, o)
            }
        }
        op_traits!(@s $tr, $f, $ms, f32 f64 i64 i32 i16 i8 u64 u32 u16 u8);
    };
    (@s $tr:ident, $f:ident, $ms:ident, $($t:ty)*) => {$(
        impl<B: Backend, const D: usize, K: Numeric<B>> std::ops::$tr<$t> for Tensor<B, D, K> {
            type Output = Tensor<B, D, K>;
            fn $f(self, o: $t) -> Self {
                Tensor::$ms(self, o)
            }
        }
    )*};
}
macro_rules! lhs_ops { ($($t:ty)*) => {$(
    impl<B: Backend, const D: usize, K: Numeric<B>> std::ops::Sub<Tensor<B, D, K>> for $t {
        type Output = Tensor<B, D, K>;
        fn sub(self, o: Tensor<B, D, K>) -> Tensor<B, D, K> { Tensor::add_scalar(Tensor::neg(o), self) }
    }
    impl<B: Backend, const D: usize, K: Numeric<B>> std::ops::Add<Tensor<B, D, K>> for $t {
        type Output = Tensor<B, D, K>;
        fn add(self, o: Tensor<B, D, K>) -> Tensor<B, D, K> { Tensor::add_scalar(o, self) }
    }
    impl<B: Backend, const D: usize, K: Numeric<B>> std::ops::Mul<Tensor<B, D, K>> for $t {
        type Output = Tensor<B, D, K>;
        fn mul(self, o: Tensor<B, D, K>) -> Tensor<B, D, K> { Tensor::mul_scalar(o, self) }
    }
)*}; }
lhs_ops!(f32 f64 i64 i32 i16 i8 u64 u32 u16 u8);
macro_rules! lhs_div { ($($t:ty)*) => { $(impl<const D: usize, B: Backend> std::ops::Div<Tensor<B, D>> for $t {
    type Output = Tensor<B, D>;
    fn div(self, o: Tensor<B, D>) -> Tensor<B, D> { o.recip().mul_scalar(self) }
})*}; }
lhs_div!(f32 f64);
op_traits!(Add, add, add, add_scalar);
op_traits!(Sub, sub, sub, sub_scalar);
op_traits!(Mul, mul, mul, mul_scalar);
op_traits!(Div, div, div, div_scalar);
op_traits!(Rem, rem, remainder, remainder_scalar);
impl<B: Backend, const D: usize, K: Numeric<B>> std::ops::Neg for Tensor<B, D, K> {
    type Output = Self;
    fn neg(self) -> Self {
        Tensor::neg(self)
    }
}

impl<B: Backend, const D: usize, K: TensorKind<B>, T: Into<TensorData>> From<T> for Tensor<B, D, K> {
    fn from(d: T) -> Self {
        Tensor::from_data(d, &Default::default())
    }
}

pub mod activation {
    use super::*;
    fn un<B: Backend, const D: usize>(t: Tensor<B, D>, name: &'static str, g: impl Fn(f64) -> f64) -> Tensor<B, D> {
        let d = t.nd.dtype;
        Tensor::of(t.nd.map(d, |x| Num::F(crate::uf::un(name, &g, nd::f(x)))))
    }
    pub fn relu<B: Backend, const D: usize>(t: Tensor<B, D>) -> Tensor<B, D> { un(t, "relu", |x| if x > 0.0 { x } else if x.is_nan() { x } else { 0.0 }) }
    pub fn sigmoid<B: Backend, const D: usize>(t: Tensor<B, D>) -> Tensor<B, D> { un(t, "sigmoid", |x| 1.0 / (1.0 + (-x).exp())) }
    pub fn tanh<B: Backend, const D: usize>(t: Tensor<B, D>) -> Tensor<B, D> { t.tanh() }
    pub fn gelu<B: Backend, const D: usize>(t: Tensor<B, D>) -> Tensor<B, D> { un(t, "gelu", |x| 0.5 * x * (1.0 + erf(x / 2f64.sqrt()))) }
    pub fn gelu_approximate<B: Backend, const D: usize>(t: Tensor<B, D>) -> Tensor<B, D> {
        un(t, "gelu_tanh", |x| 0.5 * x * (1.0 + ((2.0 / std::f64::consts::PI).sqrt() * (x + 0.044715 * x * x * x)).tanh()))
    }
    pub fn silu<B: Backend, const D: usize>(t: Tensor<B, D>) -> Tensor<B, D> { un(t, "silu", |x| x / (1.0 + (-x).exp())) }
    pub fn mish<B: Backend, const D: usize>(t: Tensor<B, D>) -> Tensor<B, D> { un(t, "mish", |x| x * ((1.0 + x.exp()).ln()).tanh()) }
    pub fn softplus<B: Backend, const D: usize>(t: Tensor<B, D>, beta: f64) -> Tensor<B, D> { un(t, "softplus", move |x| (1.0 + (beta * x).exp()).ln() / beta) }
    pub fn softsign<B: Backend, const D: usize>(t: Tensor<B, D>) -> Tensor<B, D> { un(t, "softsign", |x| x / (1.0 + x.abs())) }
    pub fn leaky_relu<B: Backend, const D: usize, E: Element>(t: Tensor<B, D>, a: E) -> Tensor<B, D> { let a = a.to_f64(); un(t, "", move |x| if x >= 0.0 { x } else { a * x }) }
    pub fn elu<B: Backend, const D: usize, E: Element>(t: Tensor<B, D>, a: E) -> Tensor<B, D> { let a = a.to_f64(); un(t, "", move |x| if x > 0.0 { x } else { a * (x.exp() - 1.0) }) }
    pub fn celu<B: Backend, const D: usize, E: Element>(t: Tensor<B, D>, a: E) -> Tensor<B, D> { let a = a.to_f64(); un(t, "", move |x| x.max(0.0) + (a * ((x / a).exp() - 1.0)).min(0.0)) }
    pub fn selu<B: Backend, const D: usize>(t: Tensor<B, D>) -> Tensor<B, D> { un(t, "selu", |x| 1.0507009873554805 * (if x > 0.0 { x } else { 1.6732632423543772 * (x.exp() - 1.0) })) }
    pub fn thresholded_relu<B: Backend, const D: usize, E: Element>(t: Tensor<B, D>, a: E) -> Tensor<B, D> { let a = a.to_f64(); un(t, "", move |x| if x > a { x } else { 0.0 }) }
    pub fn hard_sigmoid<B: Backend, const D: usize, E: Element, F: Element>(t: Tensor<B, D>, a: E, b: F) -> Tensor<B, D> { let (a, b) = (a.to_f64(), b.to_f64()); un(t, "", move |x| (a * x + b).clamp(0.0, 1.0)) }
    pub fn hard_swish<B: Backend, const D: usize>(t: Tensor<B, D>) -> Tensor<B, D> { un(t, "", |x| x * (x / 6.0 + 0.5).clamp(0.0, 1.0)) }
    pub fn prelu<B: Backend, const D: usize>(t: Tensor<B, D>, alpha: Tensor<B, 1>) -> Tensor<B, D> {
        let n = alpha.nd.data.len();
        let mut sh = vec![1; D];
        if n > 1 { sh[1] = n; }
        let a = alpha.nd.reshape(sh);
        let d = t.nd.dtype;
        Tensor::of(t.nd.zip(&a, d, |x, y| { let x = nd::f(x); Num::F(if x >= 0.0 { x } else { x * nd::f(y) }) }))
    }
    fn softmax_lane(v: &[Num]) -> Vec<f64> {
        let m = v.iter().map(|x| nd::f(*x)).fold(f64::NEG_INFINITY, f64::max);
        let e: Vec<f64> = v.iter().map(|x| (nd::f(*x) - m).exp()).collect();
        let s: f64 = e.iter().sum();
        e.iter().map(|x| x / s).collect()
    }
    pub fn softmax<B: Backend, const D: usize>(t: Tensor<B, D>, dim: usize) -> Tensor<B, D> {
        let d = t.nd.dtype;
        Tensor::of(t.nd.lanes(dim, d, |v| crate::uf::lane("softmax", v, softmax_lane)))
    }
    pub fn log_softmax<B: Backend, const D: usize>(t: Tensor<B, D>, dim: usize) -> Tensor<B, D> {
        let d = t.nd.dtype;
        Tensor::of(t.nd.lanes(dim, d, |v| crate::uf::lane("log_softmax", v, |v| softmax_lane(v).iter().map(|x| x.ln()).collect())))
    }
}

pub mod ops {
    pub type FloatElem<B> = <B as super::Backend>::FloatElem;
    pub type IntElem<B> = <B as super::Backend>::IntElem;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum PadMode {
        Constant(f32),
        Reflect,
        Edge,
    }
    impl From<f32> for PadMode { fn from(v: f32) -> Self { PadMode::Constant(v as f32) } }
    impl From<f64> for PadMode { fn from(v: f64) -> Self { PadMode::Constant(v as f32) } }
    impl From<i64> for PadMode { fn from(v: i64) -> Self { PadMode::Constant(v as f32) } }
    impl From<i32> for PadMode { fn from(v: i32) -> Self { PadMode::Constant(v as f32) } }
    #[allow(non_upper_case_globals)]
    impl PadMode {}
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum InterpolateMode { Nearest, Bilinear, Bicubic, Lanczos3 }
    #[derive(Clone, Copy, Debug)]
    pub struct InterpolateOptions { pub mode: InterpolateMode, pub align_corners: bool }
    impl InterpolateOptions {
        pub fn new(mode: InterpolateMode) -> Self { InterpolateOptions { mode, align_corners: true } }
        pub fn with_align_corners(mut self, a: bool) -> Self { self.align_corners = a; self }
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum GridSamplePaddingMode { Zeros, Border, Reflection }
    #[derive(Clone, Copy, Debug)]
    pub struct GridSampleOptions { pub mode: InterpolateMode, pub padding_mode: GridSamplePaddingMode, pub align_corners: bool }
    impl GridSampleOptions {
        pub fn new(mode: InterpolateMode) -> Self { GridSampleOptions { mode, padding_mode: GridSamplePaddingMode::Zeros, align_corners: false } }
        pub fn with_padding_mode(mut self, p: GridSamplePaddingMode) -> Self { self.padding_mode = p; self }
        pub fn with_align_corners(mut self, a: bool) -> Self { self.align_corners = a; self }
    }
    impl From<InterpolateMode> for GridSampleOptions { fn from(m: InterpolateMode) -> Self { Self::new(m) } }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct AttentionModuleOptions { pub scale: Option<f64>, pub softcap: Option<f64>, pub is_causal: bool }
}
pub mod module {
    pub use crate::func::{attention, conv1d, conv2d, conv3d, interpolate};
}
pub mod cast {
    pub use super::ElementConversion;
}
