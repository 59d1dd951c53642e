//! Dynamically typed n-dimensional array: the value model of the stand-in tensors.
use burn_tensor::{DType, Num, TensorData, read_num, write_num};

#[derive(Clone, Debug)]
pub struct Nd {
    pub shape: Vec<usize>,
    pub dtype: DType,
    pub data: Vec<Num>,
}

/// Rounds/wraps a number into the value set of `dtype`.
pub fn norm(dtype: DType, n: Num) -> Num {
    match (dtype, n) {
        (DType::F64, Num::F(_)) | (DType::I64, Num::I(_)) | (DType::Bool, Num::B(_)) => n,
        (DType::F32, Num::F(v)) => Num::F(v as f32 as f64),
        _ => {
            let mut b = Vec::new();
            write_num(dtype, n, &mut b);
            read_num(dtype, &b)
        }
    }
}
pub fn f(n: Num) -> f64 {
    match n {
        Num::I(v) => v as f64,
        Num::U(v) => v as f64,
        Num::F(v) => v,
        Num::B(v) => v as u8 as f64,
    }
}
pub fn i(n: Num) -> i64 {
    match n {
        Num::I(v) => v,
        Num::U(v) => v as i64,
        Num::F(v) => v as i64,
        Num::B(v) => v as i64,
    }
}
pub fn b(n: Num) -> bool {
    match n {
        Num::I(v) => v != 0,
        Num::U(v) => v != 0,
        Num::F(v) => v != 0.0,
        Num::B(v) => v,
    }
}
pub fn strides(shape: &[usize]) -> Vec<usize> {
    let mut s = vec![1; shape.len()];
    for k in (0..shape.len().saturating_sub(1)).rev() {
        s[k] = s[k + 1] * shape[k + 1];
    }
    s
}
pub fn numel(shape: &[usize]) -> usize {
    shape.iter().product()
}
/// Calls `g` with every index of `shape` in row-major order.
pub fn for_each_index(shape: &[usize], mut g: impl FnMut(&[usize])) {
    let n = numel(shape);
    let mut idx = vec![0usize; shape.len()];
    for _ in 0..n {
        g(&idx);
        for k in (0..shape.len()).rev() {
            idx[k] += 1;
            if idx[k] < shape[k] {
                break;
            }
            idx[k] = 0;
        }
    }
}

impl Nd {
    pub fn new(shape: Vec<usize>, dtype: DType, data: Vec<Num>) -> Nd {
        assert_eq!(numel(&shape), data.len(), "bad data length for {shape:?}");
        let data = data.into_iter().map(|n| norm(dtype, n)).collect();
        Nd { shape, dtype, data }
    }
    pub fn full(shape: Vec<usize>, dtype: DType, v: Num) -> Nd {
        let n = numel(&shape);
        Nd::new(shape, dtype, vec![v; n])
    }
    pub fn from_data(d: TensorData) -> Nd {
        let data = d.nums();
        Nd::new(d.shape.clone(), d.dtype, data)
    }
    pub fn to_data(&self) -> TensorData {
        let mut out = Vec::new();
        for n in &self.data {
            write_num(self.dtype, *n, &mut out);
        }
        TensorData::from_bytes_vec(out, self.shape.clone(), self.dtype)
    }
    pub fn cast(&self, dtype: DType) -> Nd {
        Nd::new(self.shape.clone(), dtype, self.data.clone())
    }
    pub fn at(&self, idx: &[usize]) -> Num {
        let st = strides(&self.shape);
        self.data[idx.iter().zip(&st).map(|(a, b)| a * b).sum::<usize>()]
    }
    pub fn build(shape: Vec<usize>, dtype: DType, mut g: impl FnMut(&[usize]) -> Num) -> Nd {
        let mut data = Vec::with_capacity(numel(&shape));
        for_each_index(&shape, |ix| data.push(g(ix)));
        Nd::new(shape, dtype, data)
    }
    pub fn map(&self, dtype: DType, g: impl Fn(Num) -> Num) -> Nd {
        Nd::new(
            self.shape.clone(),
            dtype,
            self.data.iter().map(|n| g(*n)).collect(),
        )
    }
    pub fn broadcast_shape(a: &[usize], b: &[usize]) -> Vec<usize> {
        assert_eq!(a.len(), b.len(), "rank mismatch {a:?} {b:?}");
        a.iter()
            .zip(b)
            .map(|(x, y)| {
                if x == y {
                    *x
                } else if *x == 1 {
                    *y
                } else if *y == 1 {
                    *x
                } else {
                    panic!("incompatible shapes {a:?} {b:?}")
                }
            })
            .collect()
    }
    pub fn zip(&self, o: &Nd, dtype: DType, g: impl Fn(Num, Num) -> Num) -> Nd {
        let shape = Nd::broadcast_shape(&self.shape, &o.shape);
        let clamp = |ix: &[usize], s: &[usize]| -> Vec<usize> {
            ix.iter()
                .zip(s)
                .map(|(a, b)| if *b == 1 { 0 } else { *a })
                .collect()
        };
        Nd::build(shape, dtype, |ix| {
            g(
                self.at(&clamp(ix, &self.shape)),
                o.at(&clamp(ix, &o.shape)),
            )
        })
    }
    pub fn expand(&self, shape: Vec<usize>) -> Nd {
        let off = shape.len() - self.shape.len();
        for (k, d) in self.shape.iter().enumerate() {
            assert!(
                *d == shape[off + k] || *d == 1,
                "cannot expand {:?} to {shape:?}",
                self.shape
            );
        }
        Nd::build(shape.clone(), self.dtype, |ix| {
            let src: Vec<usize> = (0..self.shape.len())
                .map(|k| if self.shape[k] == 1 { 0 } else { ix[off + k] })
                .collect();
            self.at(&src)
        })
    }
    pub fn reshape(&self, shape: Vec<usize>) -> Nd {
        assert_eq!(
            numel(&shape),
            self.data.len(),
            "cannot reshape {:?} to {shape:?}",
            self.shape
        );
        Nd {
            shape,
            dtype: self.dtype,
            data: self.data.clone(),
        }
    }
    pub fn permute(&self, axes: &[usize]) -> Nd {
        let shape: Vec<usize> = axes.iter().map(|a| self.shape[*a]).collect();
        Nd::build(shape, self.dtype, |ix| {
            let mut src = vec![0; ix.len()];
            for (k, a) in axes.iter().enumerate() {
                src[*a] = ix[k];
            }
            self.at(&src)
        })
    }
    /// Folds along `dim`, keeping it with size 1.
    pub fn reduce(&self, dim: usize, dtype: DType, g: impl Fn(&[Num]) -> Num) -> Nd {
        let mut shape = self.shape.clone();
        let n = shape[dim];
        shape[dim] = 1;
        Nd::build(shape, dtype, |ix| {
            let v: Vec<Num> = (0..n)
                .map(|k| {
                    let mut j = ix.to_vec();
                    j[dim] = k;
                    self.at(&j)
                })
                .collect();
            g(&v)
        })
    }
    /// Maps every 1-d lane along `dim`.
    pub fn lanes(&self, dim: usize, dtype: DType, g: impl Fn(&[Num]) -> Vec<Num>) -> Nd {
        let st = strides(&self.shape);
        let mut outer = self.shape.clone();
        let n = outer[dim];
        outer[dim] = 1;
        let mut out: Vec<Num> = self.data.clone();
        for_each_index(&outer, |ix| {
            let base: usize = ix.iter().zip(&st).map(|(a, b)| a * b).sum();
            let lane: Vec<Num> = (0..n).map(|k| self.data[base + k * st[dim]]).collect();
            let r = g(&lane);
            assert_eq!(r.len(), n);
            for (k, v) in r.into_iter().enumerate() {
                out[base + k * st[dim]] = v;
            }
        });
        Nd::new(self.shape.clone(), dtype, out)
    }
    pub fn cat(parts: &[Nd], dim: usize) -> Nd {
        assert!(!parts.is_empty(), "cat of nothing");
        let dtype = parts[0].dtype;
        let mut shape = parts[0].shape.clone();
        for p in parts {
            assert_eq!(p.dtype, dtype, "cat: dtype mismatch");
            assert_eq!(p.shape.len(), shape.len(), "cat: rank mismatch");
            for k in 0..shape.len() {
                assert!(k == dim || p.shape[k] == shape[k], "cat: shape mismatch");
            }
        }
        shape[dim] = parts.iter().map(|p| p.shape[dim]).sum();
        Nd::build(shape, dtype, |ix| {
            let mut k = ix[dim];
            for p in parts {
                if k < p.shape[dim] {
                    let mut j = ix.to_vec();
                    j[dim] = k;
                    return p.at(&j);
                }
                k -= p.shape[dim];
            }
            unreachable!()
        })
    }
    pub fn matmul(&self, o: &Nd) -> Nd {
        assert_eq!(self.dtype, o.dtype, "matmul: dtype mismatch");
        let r = self.shape.len();
        assert!(r >= 2 && o.shape.len() == r, "matmul ranks");
        let (m, k, n) = (self.shape[r - 2], self.shape[r - 1], o.shape[r - 1]);
        assert_eq!(k, o.shape[r - 2], "matmul: inner dimensions differ");
        let mut shape = Nd::broadcast_shape(&self.shape[..r - 2], &o.shape[..r - 2]);
        shape.push(m);
        shape.push(n);
        Nd::build(shape, self.dtype, |ix| {
            let mut a: Vec<usize> = (0..r - 2)
                .map(|d| if self.shape[d] == 1 { 0 } else { ix[d] })
                .collect();
            let mut bb: Vec<usize> = (0..r - 2)
                .map(|d| if o.shape[d] == 1 { 0 } else { ix[d] })
                .collect();
            a.extend([ix[r - 2], 0]);
            bb.extend([0, ix[r - 1]]);
            if self.dtype.is_float() {
                let mut s = 0.0;
                for t in 0..k {
                    a[r - 1] = t;
                    bb[r - 2] = t;
                    s += f(self.at(&a)) * f(o.at(&bb));
                }
                Num::F(s)
            } else {
                let mut s = 0i64;
                for t in 0..k {
                    a[r - 1] = t;
                    bb[r - 2] = t;
                    s = s.wrapping_add(i(self.at(&a)).wrapping_mul(i(o.at(&bb))));
                }
                Num::I(s)
            }
        })
    }
}
