use std::ops::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Shape {
    pub dims: Vec<usize>,
}
impl Shape {
    pub fn new<const D: usize>(dims: [usize; D]) -> Self {
        Shape {
            dims: dims.to_vec(),
        }
    }
    pub fn dims<const D: usize>(&self) -> [usize; D] {
        self.dims.clone().try_into().expect("rank mismatch")
    }
    pub fn num_elements(&self) -> usize {
        self.dims.iter().product()
    }
    pub fn num_dims(&self) -> usize {
        self.dims.len()
    }
    pub fn rank(&self) -> usize {
        self.dims.len()
    }
    pub fn as_slice(&self) -> &[usize] {
        &self.dims
    }
    pub fn to_vec(&self) -> Vec<usize> {
        self.dims.clone()
    }
}
impl Deref for Shape {
    type Target = [usize];
    fn deref(&self) -> &[usize] {
        &self.dims
    }
}
impl DerefMut for Shape {
    fn deref_mut(&mut self) -> &mut [usize] {
        &mut self.dims
    }
}
macro_rules! shape_from {
    ($($t:ty),*) => {$(
        impl<const D: usize> From<[$t; D]> for Shape {
            fn from(v: [$t; D]) -> Self {
                Shape { dims: v.iter().map(|x| { assert!(*x as i128 >= 0, "negative dimension"); *x as usize }).collect() }
            }
        }
        impl<const D: usize> From<&[$t; D]> for Shape {
            fn from(v: &[$t; D]) -> Self { Shape::from(*v) }
        }
        impl From<Vec<$t>> for Shape {
            fn from(v: Vec<$t>) -> Self {
                Shape { dims: v.iter().map(|x| { assert!(*x as i128 >= 0, "negative dimension"); *x as usize }).collect() }
            }
        }
        impl From<&[$t]> for Shape {
            fn from(v: &[$t]) -> Self { Shape::from(v.to_vec()) }
        }
    )*};
}
shape_from!(usize, i64, i32, isize);
impl From<&Vec<usize>> for Shape {
    fn from(v: &Vec<usize>) -> Self {
        Shape { dims: v.clone() }
    }
}
impl From<&Shape> for Shape {
    fn from(v: &Shape) -> Self {
        v.clone()
    }
}
impl<const D: usize> From<Shape> for [usize; D] {
    fn from(s: Shape) -> Self {
        s.dims()
    }
}
impl From<Shape> for Vec<usize> {
    fn from(s: Shape) -> Self {
        s.dims
    }
}
impl<const D: usize> PartialEq<[usize; D]> for Shape {
    fn eq(&self, o: &[usize; D]) -> bool {
        self.dims == o
    }
}

/// `start..end;step` with python-like negative indices.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Slice {
    pub start: isize,
    pub end: Option<isize>,
    pub step: isize,
}
impl Slice {
    pub fn new(start: isize, end: Option<isize>, step: isize) -> Self {
        assert!(step != 0, "Step cannot be zero");
        Slice { start, end, step }
    }
    pub fn full() -> Self {
        Slice::new(0, None, 1)
    }
    pub fn with_step(start: isize, end: Option<isize>, step: isize) -> Self {
        Slice::new(start, end, step)
    }
    /// Indices selected in a dimension of size `n`, in output order.
    ///
    /// A negative step walks the *same* half-open interval from its end (burn's rule).
    pub fn indices(&self, n: usize) -> Vec<usize> {
        let n = n as isize;
        let fix = |v: isize| {
            let v = if v < 0 { v + n } else { v };
            v.clamp(0, n)
        };
        let (s, e) = (fix(self.start), self.end.map(fix).unwrap_or(n));
        let mut out = Vec::new();
        if self.step > 0 {
            let mut k = s;
            while k < e {
                out.push(k as usize);
                k += self.step;
            }
        } else {
            let mut k = e - 1;
            while k >= s {
                out.push(k as usize);
                k += self.step;
            }
        }
        out
    }
}
macro_rules! slice_from {
    ($($t:ty),*) => {$(
        impl From<Range<$t>> for Slice { fn from(r: Range<$t>) -> Self { Slice::new(r.start as isize, Some(r.end as isize), 1) } }
        impl From<RangeInclusive<$t>> for Slice { fn from(r: RangeInclusive<$t>) -> Self { Slice::new(*r.start() as isize, Some(*r.end() as isize + 1), 1) } }
        impl From<RangeFrom<$t>> for Slice { fn from(r: RangeFrom<$t>) -> Self { Slice::new(r.start as isize, None, 1) } }
        impl From<RangeTo<$t>> for Slice { fn from(r: RangeTo<$t>) -> Self { Slice::new(0, Some(r.end as isize), 1) } }
        impl From<RangeToInclusive<$t>> for Slice { fn from(r: RangeToInclusive<$t>) -> Self { Slice::new(0, Some(r.end as isize + 1), 1) } }
        impl From<$t> for Slice { fn from(k: $t) -> Self { let k = k as isize; Slice::new(k, if k == -1 { None } else { Some(k + 1) }, 1) } }
        impl SliceArg for Range<$t> { fn slices(self) -> Vec<Slice> { vec![self.into()] } }
        impl SliceArg for RangeFrom<$t> { fn slices(self) -> Vec<Slice> { vec![self.into()] } }
        impl SliceArg for RangeTo<$t> { fn slices(self) -> Vec<Slice> { vec![self.into()] } }
        impl SliceArg for $t { fn slices(self) -> Vec<Slice> { vec![self.into()] } }
    )*};
}
pub trait SliceArg {
    fn slices(self) -> Vec<Slice>;
}
slice_from!(usize, isize, i64, i32);
impl From<RangeFull> for Slice {
    fn from(_: RangeFull) -> Self {
        Slice::full()
    }
}
impl SliceArg for RangeFull {
    fn slices(self) -> Vec<Slice> {
        vec![self.into()]
    }
}
impl SliceArg for Slice {
    fn slices(self) -> Vec<Slice> {
        vec![self]
    }
}
impl<T: Into<Slice>, const N: usize> SliceArg for [T; N] {
    fn slices(self) -> Vec<Slice> {
        self.into_iter().map(Into::into).collect()
    }
}
impl<T: Into<Slice>> SliceArg for Vec<T> {
    fn slices(self) -> Vec<Slice> {
        self.into_iter().map(Into::into).collect()
    }
}
impl SliceArg for &[Slice] {
    fn slices(self) -> Vec<Slice> {
        self.to_vec()
    }
}

#[macro_export]
macro_rules! s {
    [] => { [] as [$crate::tensor::Slice; 0] };
    [$r:expr; $s:expr] => { { let mut __s: $crate::tensor::Slice = ($r).into(); __s.step = $s as isize; __s } };
    [$r:expr] => { $crate::tensor::Slice::from($r) };
    [$r:expr; $s:expr, $($rest:tt)*] => { $crate::s_list!(@ [ { let mut __s: $crate::tensor::Slice = ($r).into(); __s.step = $s as isize; __s } ] $($rest)*) };
    [$r:expr, $($rest:tt)*] => { $crate::s_list!(@ [ $crate::tensor::Slice::from($r) ] $($rest)*) };
}
#[macro_export]
macro_rules! s_list {
    (@ [$($acc:expr),*]) => { [$($acc),*] };
    (@ [$($acc:expr),*] $r:expr; $s:expr) => { [$($acc,)* { let mut __s: $crate::tensor::Slice = ($r).into(); __s.step = $s as isize; __s }] };
    (@ [$($acc:expr),*] $r:expr) => { [$($acc,)* $crate::tensor::Slice::from($r)] };
    (@ [$($acc:expr),*] $r:expr; $s:expr, $($rest:tt)*) => { $crate::s_list!(@ [$($acc,)* { let mut __s: $crate::tensor::Slice = ($r).into(); __s.step = $s as isize; __s }] $($rest)*) };
    (@ [$($acc:expr),*] $r:expr, $($rest:tt)*) => { $crate::s_list!(@ [$($acc,)* $crate::tensor::Slice::from($r)] $($rest)*) };
}

impl burn_tensor::IntoShape for Shape {
    fn into_shape(self) -> Vec<usize> {
        self.dims
    }
}
