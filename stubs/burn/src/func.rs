//! Functional operators over `Nd` (direct definitions, no optimisation).
use crate::nd::{self, Nd};
use crate::tensor::ops::*;
use crate::tensor::*;

/// Generic n-d convolution. `pad` = (begin, end) per spatial dimension.
pub fn conv_nd(x: &Nd, w: &Nd, bias: Option<&Nd>, stride: &[usize], pad: &[(usize, usize)], dil: &[usize], groups: usize) -> Nd {
    assert_eq!(x.dtype, w.dtype, "conv: data type mismatch");
    let n = stride.len();
    assert_eq!(x.shape.len(), n + 2);
    assert_eq!(w.shape.len(), n + 2);
    let (cin, cout) = (x.shape[1], w.shape[0]);
    assert!(cin % groups == 0 && cout % groups == 0, "conv: groups");
    assert_eq!(cin / groups, w.shape[1], "conv: input channels");
    let mut sh = vec![x.shape[0], cout];
    for d in 0..n {
        let eff = (w.shape[d + 2] - 1) * dil[d] + 1;
        let tot = x.shape[d + 2] + pad[d].0 + pad[d].1;
        assert!(tot >= eff, "conv: kernel larger than padded input");
        sh.push((tot - eff) / stride[d] + 1);
    }
    if let Some(b) = bias {
        assert_eq!(b.shape, vec![cout], "conv: bias shape");
    }
    let (cig, cog) = (cin / groups, cout / groups);
    let kshape: Vec<usize> = w.shape[2..].to_vec();
    Nd::build(sh, x.dtype, |ix| {
        let g = ix[1] / cog;
        let mut s = bias.map(|b| nd::f(b.data[ix[1]])).unwrap_or(0.0);
        for c in 0..cig {
            nd::for_each_index(&kshape, |k| {
                let mut p = vec![ix[0], g * cig + c];
                for d in 0..n {
                    let q = (ix[d + 2] * stride[d] + k[d] * dil[d]) as i64 - pad[d].0 as i64;
                    if q < 0 || q >= x.shape[d + 2] as i64 {
                        return;
                    }
                    p.push(q as usize);
                }
                let mut wi = vec![ix[1], c];
                wi.extend(k);
                s += nd::f(x.at(&p)) * nd::f(w.at(&wi));
            });
        }
        Num::F(s)
    })
}
/// Generic n-d transposed convolution with symmetric padding.
pub fn conv_transpose_nd(x: &Nd, w: &Nd, bias: Option<&Nd>, stride: &[usize], pad: &[usize], pad_out: &[usize], dil: &[usize], groups: usize) -> Nd {
    assert_eq!(x.dtype, w.dtype, "conv_transpose: data type mismatch");
    let n = stride.len();
    let cin = x.shape[1];
    assert_eq!(cin, w.shape[0], "conv_transpose: input channels");
    assert!(cin % groups == 0);
    let (cig, cog) = (cin / groups, w.shape[1]);
    let cout = cog * groups;
    let mut sh = vec![x.shape[0], cout];
    for d in 0..n {
        let full = (x.shape[d + 2] - 1) * stride[d] + dil[d] * (w.shape[d + 2] - 1) + pad_out[d] + 1;
        assert!(full >= 2 * pad[d]);
        sh.push(full - 2 * pad[d]);
    }
    let st = nd::strides(&sh);
    let mut acc = vec![0.0f64; nd::numel(&sh)];
    if let Some(b) = bias {
        assert_eq!(b.shape, vec![cout], "conv_transpose: bias shape");
        let per: usize = sh[2..].iter().product();
        for (k, a) in acc.iter_mut().enumerate() {
            *a = nd::f(b.data[(k / per) % cout]);
        }
    }
    let kshape: Vec<usize> = w.shape[2..].to_vec();
    nd::for_each_index(&x.shape, |ix| {
        let g = ix[1] / cig;
        for o in 0..cog {
            nd::for_each_index(&kshape, |k| {
                let mut pos = ix[0] * st[0] + (g * cog + o) * st[1];
                for d in 0..n {
                    let q = (ix[d + 2] * stride[d] + k[d] * dil[d]) as i64 - pad[d] as i64;
                    if q < 0 || q >= sh[d + 2] as i64 {
                        return;
                    }
                    pos += q as usize * st[d + 2];
                }
                let mut wi = vec![ix[1], o];
                wi.extend(k);
                acc[pos] += nd::f(x.at(ix)) * nd::f(w.at(&wi));
            });
        }
    });
    Nd::new(sh, x.dtype, acc.into_iter().map(Num::F).collect())
}
pub fn pool_out(n: usize, k: usize, s: usize, p: (usize, usize), d: usize, ceil: bool) -> usize {
    let eff = (k - 1) * d + 1;
    let tot = n + p.0 + p.1;
    assert!(tot >= eff, "pool: kernel larger than padded input");
    let mut o = if ceil { (tot - eff).div_ceil(s) + 1 } else { (tot - eff) / s + 1 };
    // The last window must start inside the input or the left padding.
    if ceil && (o - 1) * s >= n + p.0 {
        o -= 1;
    }
    o
}
pub enum Pool {
    Max,
    Avg { include_pad: bool },
}
pub fn pool_nd(x: &Nd, k: &[usize], stride: &[usize], pad: &[(usize, usize)], dil: &[usize], ceil: bool, kind: Pool) -> Nd {
    let n = k.len();
    assert_eq!(x.shape.len(), n + 2);
    let mut sh = x.shape[..2].to_vec();
    for d in 0..n {
        sh.push(pool_out(x.shape[d + 2], k[d], stride[d], pad[d], dil[d], ceil));
    }
    Nd::build(sh, x.dtype, |ix| {
        let (mut s, mut m, mut cnt, mut cntp) = (0.0, f64::NEG_INFINITY, 0usize, 0usize);
        nd::for_each_index(k, |w| {
            let mut p = vec![ix[0], ix[1]];
            let mut in_pad = true;
            let mut inside = true;
            for d in 0..n {
                let q = (ix[d + 2] * stride[d] + w[d] * dil[d]) as i64 - pad[d].0 as i64;
                if q >= (x.shape[d + 2] + pad[d].1) as i64 {
                    in_pad = false;
                }
                if q < 0 || q >= x.shape[d + 2] as i64 {
                    inside = false;
                }
                p.push(q.max(0) as usize);
            }
            if in_pad {
                cntp += 1;
            }
            if inside {
                let v = nd::f(x.at(&p));
                s += v;
                m = m.max(v);
                cnt += 1;
            }
        });
        match kind {
            Pool::Max => Num::F(m),
            Pool::Avg { include_pad } => Num::F(s / if include_pad { cntp } else { cnt } as f64),
        }
    })
}
pub fn adaptive_avg(x: &Nd, out: &[usize]) -> Nd {
    let n = out.len();
    let mut sh = x.shape[..2].to_vec();
    sh.extend(out);
    Nd::build(sh, x.dtype, |ix| {
        let lo: Vec<usize> = (0..n).map(|d| ix[d + 2] * x.shape[d + 2] / out[d]).collect();
        let hi: Vec<usize> = (0..n).map(|d| ((ix[d + 2] + 1) * x.shape[d + 2]).div_ceil(out[d])).collect();
        let win: Vec<usize> = (0..n).map(|d| hi[d] - lo[d]).collect();
        let mut s = 0.0;
        nd::for_each_index(&win, |w| {
            let mut p = vec![ix[0], ix[1]];
            p.extend((0..n).map(|d| lo[d] + w[d]));
            s += nd::f(x.at(&p));
        });
        Num::F(s / win.iter().product::<usize>() as f64)
    })
}
/// Deformable 2-d convolution (torchvision semantics).
#[allow(clippy::too_many_arguments)]
pub fn deform_conv2d(x: &Nd, offset: &Nd, w: &Nd, mask: Option<&Nd>, bias: Option<&Nd>, stride: [usize; 2], pad: [usize; 2], dil: [usize; 2], wg: usize, og: usize) -> Nd {
    let (cin, cout) = (x.shape[1], w.shape[0]);
    let (kh, kw) = (w.shape[2], w.shape[3]);
    let (h, wd) = (x.shape[2], x.shape[3]);
    let oh = (h + 2 * pad[0] - ((kh - 1) * dil[0] + 1)) / stride[0] + 1;
    let ow = (wd + 2 * pad[1] - ((kw - 1) * dil[1] + 1)) / stride[1] + 1;
    assert_eq!(offset.shape, vec![x.shape[0], 2 * og * kh * kw, oh, ow], "deform_conv: offset shape");
    let (cig, cog) = (cin / wg, cout / wg);
    Nd::build(vec![x.shape[0], cout, oh, ow], x.dtype, |ix| {
        let g = ix[1] / cog;
        let mut s = bias.map(|b| nd::f(b.data[ix[1]])).unwrap_or(0.0);
        for c in 0..cig {
            let ci = g * cig + c;
            let o = ci / (cin / og);
            for a in 0..kh {
                for b in 0..kw {
                    let k = o * kh * kw + a * kw + b;
                    let dy = nd::f(offset.at(&[ix[0], 2 * k, ix[2], ix[3]]));
                    let dx = nd::f(offset.at(&[ix[0], 2 * k + 1, ix[2], ix[3]]));
                    let y = (ix[2] * stride[0] + a * dil[0]) as f64 - pad[0] as f64 + dy;
                    let xx = (ix[3] * stride[1] + b * dil[1]) as f64 - pad[1] as f64 + dx;
                    let m = mask.map(|m| nd::f(m.at(&[ix[0], k, ix[2], ix[3]]))).unwrap_or(1.0);
                    s += nd::f(w.at(&[ix[1], c, a, b])) * m * bilinear_zero(x, ix[0], ci, y, xx);
                }
            }
        }
        Num::F(s)
    })
}
fn px(x: &Nd, n: usize, c: usize, y: i64, xx: i64) -> f64 {
    if y < 0 || xx < 0 || y >= x.shape[2] as i64 || xx >= x.shape[3] as i64 { 0.0 } else { nd::f(x.at(&[n, c, y as usize, xx as usize])) }
}
fn bilinear_zero(x: &Nd, n: usize, c: usize, y: f64, xx: f64) -> f64 {
    let (y0, x0) = (y.floor(), xx.floor());
    let (fy, fx) = (y - y0, xx - x0);
    let (y0, x0) = (y0 as i64, x0 as i64);
    px(x, n, c, y0, x0) * (1.0 - fy) * (1.0 - fx)
        + px(x, n, c, y0, x0 + 1) * (1.0 - fy) * fx
        + px(x, n, c, y0 + 1, x0) * fy * (1.0 - fx)
        + px(x, n, c, y0 + 1, x0 + 1) * fy * fx
}
fn cubic_w(t: f64, a: f64) -> [f64; 4] {
    let f1 = |x: f64| ((a + 2.0) * x - (a + 3.0)) * x * x + 1.0;
    let f2 = |x: f64| ((a * x - 5.0 * a) * x + 8.0 * a) * x - 4.0 * a;
    [f2(t + 1.0), f1(t), f1(1.0 - t), f2(2.0 - t)]
}
pub fn grid_sample_2d(x: &Nd, grid: &Nd, o: GridSampleOptions) -> Nd {
    let (h, w) = (x.shape[2] as f64, x.shape[3] as f64);
    let un = |v: f64, n: f64| if o.align_corners { (v + 1.0) / 2.0 * (n - 1.0) } else { ((v + 1.0) * n - 1.0) / 2.0 };
    let reflect = |v: f64, n: f64| {
        let (lo, hi) = if o.align_corners { (0.0, n - 1.0) } else { (-0.5, n - 0.5) };
        if hi <= lo {
            return 0.0;
        }
        let r = hi - lo;
        let mut t = (v - lo).abs() % (2.0 * r);
        if t > r {
            t = 2.0 * r - t;
        }
        (t + lo).clamp(0.0, n - 1.0)
    };
    let fix = |v: f64, n: f64| match o.padding_mode {
        GridSamplePaddingMode::Zeros => v,
        GridSamplePaddingMode::Border => v.clamp(0.0, n - 1.0),
        GridSamplePaddingMode::Reflection => reflect(v, n),
    };
    let sh = vec![x.shape[0], x.shape[1], grid.shape[1], grid.shape[2]];
    Nd::build(sh, x.dtype, |ix| {
        let gx = nd::f(grid.at(&[ix[0], ix[2], ix[3], 0]));
        let gy = nd::f(grid.at(&[ix[0], ix[2], ix[3], 1]));
        let (ux, uy) = (un(gx, w), un(gy, h));
        Num::F(match o.mode {
            InterpolateMode::Bilinear => bilinear_zero(x, ix[0], ix[1], fix(uy, h), fix(ux, w)),
            InterpolateMode::Nearest => px(x, ix[0], ix[1], fix(uy, h).round_ties_even() as i64, fix(ux, w).round_ties_even() as i64),
            _ => {
                let (y0, x0) = (uy.floor(), ux.floor());
                let (wy, wx) = (cubic_w(uy - y0, -0.75), cubic_w(ux - x0, -0.75));
                let mut s = 0.0;
                for (a, wa) in wy.iter().enumerate() {
                    for (b, wb) in wx.iter().enumerate() {
                        let y = fix(y0 + a as f64 - 1.0, h);
                        let xx = fix(x0 + b as f64 - 1.0, w);
                        s += wa * wb * px(x, ix[0], ix[1], y as i64, xx as i64);
                    }
                }
                s
            }
        })
    })
}
pub fn interp(x: &Nd, out: [usize; 2], mode: InterpolateMode, align: bool) -> Nd {
    let (h, w) = (x.shape[2], x.shape[3]);
    let src = |k: usize, o: usize, n: usize| -> f64 {
        if align {
            if o <= 1 { 0.0 } else { k as f64 * (n as f64 - 1.0) / (o as f64 - 1.0) }
        } else {
            (k as f64 + 0.5) * n as f64 / o as f64 - 0.5
        }
    };
    let sh = vec![x.shape[0], x.shape[1], out[0], out[1]];
    let cl = |v: i64, n: usize| v.clamp(0, n as i64 - 1);
    Nd::build(sh, x.dtype, |ix| {
        Num::F(match mode {
            InterpolateMode::Nearest => {
                let y = (ix[2] * h) / out[0];
                let xx = (ix[3] * w) / out[1];
                nd::f(x.at(&[ix[0], ix[1], y, xx]))
            }
            InterpolateMode::Bilinear => {
                let y = src(ix[2], out[0], h).clamp(0.0, h as f64 - 1.0);
                let xx = src(ix[3], out[1], w).clamp(0.0, w as f64 - 1.0);
                bilinear_zero(x, ix[0], ix[1], y, xx)
            }
            _ => {
                let (y, xx) = (src(ix[2], out[0], h), src(ix[3], out[1], w));
                let (y0, x0) = (y.floor(), xx.floor());
                let (wy, wx) = (cubic_w(y - y0, -0.75), cubic_w(xx - x0, -0.75));
                let mut s = 0.0;
                for (a, wa) in wy.iter().enumerate() {
                    for (b, wb) in wx.iter().enumerate() {
                        s += wa * wb * px(x, ix[0], ix[1], cl(y0 as i64 + a as i64 - 1, h), cl(x0 as i64 + b as i64 - 1, w));
                    }
                }
                s
            }
        })
    })
}
pub fn interpolate<B: Backend>(x: Tensor<B, 4>, size: [usize; 2], o: InterpolateOptions) -> Tensor<B, 4> {
    Tensor::of(interp(&x.nd, size, o.mode, o.align_corners))
}
pub fn attention<B: Backend>(q: Tensor<B, 4>, k: Tensor<B, 4>, v: Tensor<B, 4>, mask: Option<Tensor<B, 4, Bool>>, bias: Option<Tensor<B, 4>>, o: AttentionModuleOptions) -> Tensor<B, 4> {
    let [_, _, sq, d] = q.dims();
    let sk = k.dims()[2];
    let scale = o.scale.unwrap_or(1.0 / (d as f64).sqrt());
    let mut s = q.matmul(k.transpose()).mul_scalar(scale);
    if let Some(c) = o.softcap {
        if c > 0.0 {
            s = s.div_scalar(c).tanh().mul_scalar(c);
        }
    }
    if let Some(m) = mask {
        let m = Tensor::<B, 4, Bool>::of(m.nd.expand(s.nd.shape.clone()));
        s = s.mask_fill(m, f64::NEG_INFINITY);
    }
    if o.is_causal {
        let m = Nd::build(s.nd.shape.clone(), DType::Bool, |ix| Num::B(ix[3] as i64 > ix[2] as i64 + (sk as i64 - sq as i64)));
        s = s.mask_fill(Tensor::<B, 4, Bool>::of(m), f64::NEG_INFINITY);
    }
    if let Some(b) = bias {
        s = s.add(b);
    }
    activation::softmax(s, 3).matmul(v)
}
pub fn conv1d<B: Backend>(x: Tensor<B, 3>, w: Tensor<B, 3>, b: Option<Tensor<B, 1>>, stride: usize, pad: usize) -> Tensor<B, 3> {
    Tensor::of(conv_nd(&x.nd, &w.nd, b.as_ref().map(|b| &b.nd), &[stride], &[(pad, pad)], &[1], 1))
}
pub fn conv2d<B: Backend>(x: Tensor<B, 4>, w: Tensor<B, 4>, b: Option<Tensor<B, 1>>, stride: usize, pad: usize) -> Tensor<B, 4> {
    Tensor::of(conv_nd(&x.nd, &w.nd, b.as_ref().map(|b| &b.nd), &[stride; 2], &[(pad, pad); 2], &[1; 2], 1))
}
pub fn conv3d<B: Backend>(x: Tensor<B, 5>, w: Tensor<B, 5>, b: Option<Tensor<B, 1>>, stride: usize, pad: usize) -> Tensor<B, 5> {
    Tensor::of(conv_nd(&x.nd, &w.nd, b.as_ref().map(|b| &b.nd), &[stride; 3], &[(pad, pad); 3], &[1; 3], 1))
}
