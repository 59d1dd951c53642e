//! Neural-network modules used by generated code.
use crate::func::*;
use crate::module::{Module, ModuleField, Param, ParamVisitor};
use crate::nd::{self, Nd};
use crate::tensor::*;
use crate::tensor::activation as act;

fn p<B: Backend, const D: usize>(shape: [usize; D], v: f64) -> Param<Tensor<B, D>> {
    Param::from_tensor(Tensor::full(shape, v, &B::Device::default()))
}
trait Splat { fn splat(v: usize) -> Self; }
impl Splat for usize { fn splat(v: usize) -> Self { v } }
impl<const N: usize> Splat for [usize; N] { fn splat(v: usize) -> Self { [v; N] } }
macro_rules! with { ($($name:ident : $f:ident : $t:ty),* $(,)?) => {$( pub fn $name(mut self, v: $t) -> Self { self.$f = v; self } )*}; }
macro_rules! no_params { ($($t:ty),*) => {$( impl ModuleField for $t { fn visit_field(&mut self, _: &str, _: &mut dyn ParamVisitor) {} } impl Module for $t {} )*}; }

#[derive(Clone, Debug, PartialEq)]
pub enum PaddingConfig1d { Same, Valid, Explicit(usize, usize) }
#[derive(Clone, Debug, PartialEq)]
pub enum PaddingConfig2d { Same, Valid, Explicit(usize, usize, usize, usize) }
#[derive(Clone, Debug, PartialEq)]
pub enum PaddingConfig3d { Same, Valid, Explicit(usize, usize, usize) }
impl PaddingConfig1d {
    fn pairs(&self) -> Vec<(usize, usize)> {
        match self { Self::Valid => vec![(0, 0)], Self::Explicit(l, r) => vec![(*l, *r)], Self::Same => unimplemented!() }
    }
}
impl PaddingConfig2d {
    /// Explicit(top, left, bottom, right)
    fn pairs(&self) -> Vec<(usize, usize)> {
        match self { Self::Valid => vec![(0, 0); 2], Self::Explicit(t, l, b, r) => vec![(*t, *b), (*l, *r)], Self::Same => unimplemented!() }
    }
}
impl PaddingConfig3d {
    fn pairs(&self) -> Vec<(usize, usize)> {
        match self { Self::Valid => vec![(0, 0); 3], Self::Explicit(d, h, w) => vec![(*d, *d), (*h, *h), (*w, *w)], Self::Same => unimplemented!() }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LinearLayout { Row, Col }
#[derive(Clone, Debug)]
pub struct LinearConfig { pub d_input: usize, pub d_output: usize, pub bias: bool, pub layout: LinearLayout }
impl LinearConfig {
    pub fn new(d_input: usize, d_output: usize) -> Self { LinearConfig { d_input, d_output, bias: true, layout: LinearLayout::Row } }
    with!(with_bias: bias: bool, with_layout: layout: LinearLayout);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> Linear<B> {
        let sh = if self.layout == LinearLayout::Row { [self.d_input, self.d_output] } else { [self.d_output, self.d_input] };
        Linear { weight: p(sh, 0.0), bias: if self.bias { Some(p([self.d_output], 0.0)) } else { None }, col: crate::module::Ignored(self.layout == LinearLayout::Col) }
    }
}
#[derive(Module, Debug)]
pub struct Linear<B: Backend> { pub weight: Param<Tensor<B, 2>>, pub bias: Option<Param<Tensor<B, 1>>>, col: crate::module::Ignored<bool> }
impl<B: Backend> Linear<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        let w = if self.col.0 { self.weight.val().transpose() } else { self.weight.val() };
        if D == 1 {
            let y = Linear::<B>::mm(x.unsqueeze::<2>(), w, &self.bias);
            return Tensor::of(y.nd.reshape(y.nd.shape[1..].to_vec()));
        }
        Linear::<B>::mm(x, w, &self.bias)
    }
    fn mm<const D: usize>(x: Tensor<B, D>, w: Tensor<B, 2>, bias: &Option<Param<Tensor<B, 1>>>) -> Tensor<B, D> {
        let y = x.matmul(w.unsqueeze::<D>());
        match bias { Some(b) => y.add(b.val().unsqueeze::<D>()), None => y }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct HardSigmoidConfig { pub alpha: f64, pub beta: f64 }
impl HardSigmoidConfig { pub fn new() -> Self { HardSigmoidConfig { alpha: 0.2, beta: 0.5 } } with!(with_alpha: alpha: f64, with_beta: beta: f64); }
#[derive(Clone, Debug, PartialEq)]
pub struct LeakyReluConfig { pub negative_slope: f64 }
impl LeakyReluConfig { pub fn new() -> Self { LeakyReluConfig { negative_slope: 0.01 } } with!(with_negative_slope: negative_slope: f64); }
#[derive(Clone, Debug, PartialEq)]
pub struct SoftplusConfig { pub beta: f64 }
impl SoftplusConfig { pub fn new() -> Self { SoftplusConfig { beta: 1.0 } } with!(with_beta: beta: f64); }
pub mod activation {
    pub use super::ActivationConfig;
}
#[derive(Clone, Debug, PartialEq)]
pub enum ActivationConfig { Gelu, Relu, Sigmoid, Tanh, HardSigmoid(HardSigmoidConfig), LeakyRelu(LeakyReluConfig), Softplus(SoftplusConfig), Softsign, HardSwish, Silu }
impl ActivationConfig {
    fn apply<B: Backend, const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        match self {
            Self::Gelu => act::gelu(x),
            Self::Relu => act::relu(x),
            Self::Sigmoid => act::sigmoid(x),
            Self::Tanh => act::tanh(x),
            Self::HardSigmoid(c) => act::hard_sigmoid(x, c.alpha, c.beta),
            Self::LeakyRelu(c) => act::leaky_relu(x, c.negative_slope),
            Self::Softplus(c) => act::softplus(x, c.beta),
            Self::Softsign => act::softsign(x),
            Self::HardSwish => act::hard_swish(x),
            Self::Silu => act::silu(x),
        }
    }
}

pub mod conv {
    use super::*;
    macro_rules! conv {
        ($cfg:ident, $m:ident, $n:literal, $r:literal, $k:ty, $pad:ident, |$kv:ident| $arr:expr, |$cv:ident| $ch:expr, $chty:ty) => {
            #[derive(Clone, Debug)]
            pub struct $cfg { channels: [usize; 2], kernel: $k, stride: $k, dilation: $k, groups: usize, padding: $pad, bias: bool }
            impl $cfg {
                with!(with_stride: stride: $k, with_dilation: dilation: $k, with_groups: groups: usize, with_padding: padding: $pad, with_bias: bias: bool);
                pub fn init<B: Backend>(&self, _d: &B::Device) -> $m<B> {
                    let arr = |$kv: $k| -> [usize; $n] { $arr };
                    assert!(self.channels[0] % self.groups == 0 && self.channels[1] % self.groups == 0, "conv groups");
                    let mut sh = [0usize; $r];
                    sh[0] = self.channels[1];
                    sh[1] = self.channels[0] / self.groups;
                    sh[2..].copy_from_slice(&arr(self.kernel));
                    $m { weight: p(sh, 0.0), bias: if self.bias { Some(p([self.channels[1]], 0.0)) } else { None }, cfg: crate::module::Ignored((arr(self.stride), arr(self.dilation), self.padding.pairs(), self.groups)) }
                }
            }
            #[derive(Module, Debug)]
            pub struct $m<B: Backend> { pub weight: Param<Tensor<B, $r>>, pub bias: Option<Param<Tensor<B, 1>>>, cfg: crate::module::Ignored<([usize; $n], [usize; $n], Vec<(usize, usize)>, usize)> }
            impl<B: Backend> $m<B> {
                pub fn forward(&self, x: Tensor<B, $r>) -> Tensor<B, $r> {
                    let b = self.bias.as_ref().map(|b| b.val());
                    let (s, d, pd, g) = &self.cfg.0;
                    Tensor::of(conv_nd(&x.nd, &self.weight.val().nd, b.as_ref().map(|b| &b.nd), s, pd, d, *g))
                }
            }
        };
    }
    conv!(Conv1dConfig, Conv1d, 1, 3, usize, PaddingConfig1d, |k| [k], |c| c, usize);
    conv!(Conv2dConfig, Conv2d, 2, 4, [usize; 2], PaddingConfig2d, |k| k, |c| c, [usize; 2]);
    conv!(Conv3dConfig, Conv3d, 3, 5, [usize; 3], PaddingConfig3d, |k| k, |c| c, [usize; 2]);
    impl Conv1dConfig { pub fn new(i: usize, o: usize, kernel: usize) -> Self { Conv1dConfig { channels: [i, o], kernel, stride: 1, dilation: 1, groups: 1, padding: PaddingConfig1d::Valid, bias: true } } }
    impl Conv2dConfig { pub fn new(channels: [usize; 2], kernel: [usize; 2]) -> Self { Conv2dConfig { channels, kernel, stride: [1; 2], dilation: [1; 2], groups: 1, padding: PaddingConfig2d::Valid, bias: true } } }
    impl Conv3dConfig { pub fn new(channels: [usize; 2], kernel: [usize; 3]) -> Self { Conv3dConfig { channels, kernel, stride: [1; 3], dilation: [1; 3], groups: 1, padding: PaddingConfig3d::Valid, bias: true } } }

    macro_rules! convt {
        ($cfg:ident, $m:ident, $n:literal, $r:literal, $k:ty, |$kv:ident| $arr:expr) => {
            #[derive(Clone, Debug)]
            pub struct $cfg { channels: [usize; 2], kernel: $k, stride: $k, dilation: $k, groups: usize, padding: $k, padding_out: $k, bias: bool }
            impl $cfg {
                pub fn new(channels: [usize; 2], kernel: $k) -> Self {
                    let of = <$k as Splat>::splat;
                    $cfg { channels, kernel, stride: of(1), dilation: of(1), groups: 1, padding: of(0), padding_out: of(0), bias: true }
                }
                with!(with_stride: stride: $k, with_dilation: dilation: $k, with_groups: groups: usize, with_padding: padding: $k, with_padding_out: padding_out: $k, with_bias: bias: bool);
                pub fn init<B: Backend>(&self, _d: &B::Device) -> $m<B> {
                    let arr = |$kv: $k| -> [usize; $n] { $arr };
                    let mut sh = [0usize; $r];
                    sh[0] = self.channels[0];
                    sh[1] = self.channels[1] / self.groups;
                    sh[2..].copy_from_slice(&arr(self.kernel));
                    $m { weight: p(sh, 0.0), bias: if self.bias { Some(p([self.channels[1]], 0.0)) } else { None }, cfg: crate::module::Ignored((arr(self.stride), arr(self.padding), arr(self.padding_out), arr(self.dilation), self.groups)) }
                }
            }
            #[derive(Module, Debug)]
            pub struct $m<B: Backend> { pub weight: Param<Tensor<B, $r>>, pub bias: Option<Param<Tensor<B, 1>>>, cfg: crate::module::Ignored<([usize; $n], [usize; $n], [usize; $n], [usize; $n], usize)> }
            impl<B: Backend> $m<B> {
                pub fn forward(&self, x: Tensor<B, $r>) -> Tensor<B, $r> {
                    let b = self.bias.as_ref().map(|b| b.val());
                    let (s, pd, po, d, g) = &self.cfg.0;
                    Tensor::of(conv_transpose_nd(&x.nd, &self.weight.val().nd, b.as_ref().map(|b| &b.nd), s, pd, po, d, *g))
                }
            }
        };
    }
    convt!(ConvTranspose1dConfig, ConvTranspose1d, 1, 3, usize, |k| [k]);
    convt!(ConvTranspose2dConfig, ConvTranspose2d, 2, 4, [usize; 2], |k| k);
    convt!(ConvTranspose3dConfig, ConvTranspose3d, 3, 5, [usize; 3], |k| k);

    #[derive(Clone, Debug)]
    pub struct DeformConv2dConfig { channels: [usize; 2], kernel: [usize; 2], stride: [usize; 2], dilation: [usize; 2], weight_groups: usize, offset_groups: usize, padding: PaddingConfig2d, bias: bool }
    impl DeformConv2dConfig {
        pub fn new(channels: [usize; 2], kernel: [usize; 2]) -> Self { DeformConv2dConfig { channels, kernel, stride: [1; 2], dilation: [1; 2], weight_groups: 1, offset_groups: 1, padding: PaddingConfig2d::Valid, bias: true } }
        with!(with_stride: stride: [usize; 2], with_dilation: dilation: [usize; 2], with_weight_groups: weight_groups: usize, with_offset_groups: offset_groups: usize, with_padding: padding: PaddingConfig2d, with_bias: bias: bool);
        pub fn init<B: Backend>(&self, _d: &B::Device) -> DeformConv2d<B> {
            let pr = self.padding.pairs();
            assert!(pr.iter().all(|x| x.0 == x.1), "deform_conv: asymmetric padding");
            DeformConv2d {
                weight: p([self.channels[1], self.channels[0] / self.weight_groups, self.kernel[0], self.kernel[1]], 0.0),
                bias: if self.bias { Some(p([self.channels[1]], 0.0)) } else { None },
                cfg: crate::module::Ignored((self.stride, [pr[0].0, pr[1].0], self.dilation, self.weight_groups, self.offset_groups)),
            }
        }
    }
    #[derive(Module, Debug)]
    pub struct DeformConv2d<B: Backend> { pub weight: Param<Tensor<B, 4>>, pub bias: Option<Param<Tensor<B, 1>>>, cfg: crate::module::Ignored<([usize; 2], [usize; 2], [usize; 2], usize, usize)> }
    impl<B: Backend> DeformConv2d<B> {
        pub fn forward(&self, x: Tensor<B, 4>, offset: Tensor<B, 4>, mask: Option<Tensor<B, 4>>) -> Tensor<B, 4> {
            let b = self.bias.as_ref().map(|b| b.val());
            let (s, pd, d, wg, og) = self.cfg.0;
            Tensor::of(deform_conv2d(&x.nd, &offset.nd, &self.weight.val().nd, mask.as_ref().map(|m| &m.nd), b.as_ref().map(|b| &b.nd), s, pd, d, wg, og))
        }
    }
}
pub mod pool {
    use super::*;
    macro_rules! pool {
        ($mc:ident, $m:ident, $ac:ident, $a:ident, $n:literal, $r:literal, $k:ty, $pad:ident, $strides:ident, $mstrides:ident, |$kv:ident| $arr:expr) => {
            #[derive(Clone, Debug)]
            pub struct $mc { kernel: $k, stride: $k, padding: $pad, dilation: $k, ceil: bool }
            impl $mc {
                pub fn new(kernel: $k) -> Self { $mc { kernel, stride: kernel, padding: $pad::Valid, dilation: <$k as Splat>::splat(1), ceil: false } }
                with!($mstrides: stride: $k, with_padding: padding: $pad, with_dilation: dilation: $k, with_ceil_mode: ceil: bool);
                pub fn init(&self) -> $m { $m(self.clone()) }
            }
            #[derive(Clone, Debug)]
            pub struct $m($mc);
            impl $m {
                pub fn forward<B: Backend>(&self, x: Tensor<B, $r>) -> Tensor<B, $r> {
                    let arr = |$kv: $k| -> [usize; $n] { $arr };
                    let c = &self.0;
                    Tensor::of(pool_nd(&x.nd, &arr(c.kernel), &arr(c.stride), &c.padding.pairs(), &arr(c.dilation), c.ceil, Pool::Max))
                }
            }
            #[derive(Clone, Debug)]
            pub struct $ac { kernel: $k, stride: $k, padding: $pad, include: bool, ceil: bool }
            impl $ac {
                pub fn new(kernel: $k) -> Self { $ac { kernel, stride: kernel, padding: $pad::Valid, include: true, ceil: false } }
                with!($strides: stride: $k, with_padding: padding: $pad, with_count_include_pad: include: bool, with_ceil_mode: ceil: bool);
                pub fn init(&self) -> $a { $a(self.clone()) }
            }
            #[derive(Clone, Debug)]
            pub struct $a($ac);
            impl $a {
                pub fn forward<B: Backend>(&self, x: Tensor<B, $r>) -> Tensor<B, $r> {
                    let arr = |$kv: $k| -> [usize; $n] { $arr };
                    let c = &self.0;
                    Tensor::of(pool_nd(&x.nd, &arr(c.kernel), &arr(c.stride), &c.padding.pairs(), &[1; $n], c.ceil, Pool::Avg { include_pad: c.include }))
                }
            }
            no_params!($m, $a);
        };
    }
    pool!(MaxPool1dConfig, MaxPool1d, AvgPool1dConfig, AvgPool1d, 1, 3, usize, PaddingConfig1d, with_stride, with_stride, |k| [k]);
    pool!(MaxPool2dConfig, MaxPool2d, AvgPool2dConfig, AvgPool2d, 2, 4, [usize; 2], PaddingConfig2d, with_strides, with_strides, |k| k);
    #[derive(Clone, Debug)]
    pub struct AdaptiveAvgPool1dConfig(usize);
    impl AdaptiveAvgPool1dConfig { pub fn new(n: usize) -> Self { Self(n) } pub fn init(&self) -> AdaptiveAvgPool1d { AdaptiveAvgPool1d(self.0) } }
    #[derive(Clone, Debug)]
    pub struct AdaptiveAvgPool1d(usize);
    impl AdaptiveAvgPool1d { pub fn forward<B: Backend>(&self, x: Tensor<B, 3>) -> Tensor<B, 3> { Tensor::of(adaptive_avg(&x.nd, &[self.0])) } }
    #[derive(Clone, Debug)]
    pub struct AdaptiveAvgPool2dConfig([usize; 2]);
    impl AdaptiveAvgPool2dConfig { pub fn new(n: [usize; 2]) -> Self { Self(n) } pub fn init(&self) -> AdaptiveAvgPool2d { AdaptiveAvgPool2d(self.0) } }
    #[derive(Clone, Debug)]
    pub struct AdaptiveAvgPool2d([usize; 2]);
    impl AdaptiveAvgPool2d { pub fn forward<B: Backend>(&self, x: Tensor<B, 4>) -> Tensor<B, 4> { Tensor::of(adaptive_avg(&x.nd, &self.0)) } }
    no_params!(AdaptiveAvgPool1d, AdaptiveAvgPool2d);
}
pub mod interpolate {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum InterpolateMode { Nearest, Linear, Cubic }
    impl InterpolateMode {
        fn op(self) -> crate::tensor::ops::InterpolateMode {
            match self { Self::Nearest => crate::tensor::ops::InterpolateMode::Nearest, Self::Linear => crate::tensor::ops::InterpolateMode::Bilinear, Self::Cubic => crate::tensor::ops::InterpolateMode::Bicubic }
        }
    }
    #[derive(Clone, Debug)]
    pub struct Interpolate1dConfig { output_size: Option<usize>, scale_factor: Option<f32>, mode: InterpolateMode, align: bool }
    impl Interpolate1dConfig {
        pub fn new() -> Self { Self { output_size: None, scale_factor: None, mode: InterpolateMode::Nearest, align: true } }
        with!(with_output_size: output_size: Option<usize>, with_scale_factor: scale_factor: Option<f32>, with_mode: mode: InterpolateMode, with_align_corners: align: bool);
        pub fn init(self) -> Interpolate1d { Interpolate1d(self) }
    }
    #[derive(Clone, Debug)]
    pub struct Interpolate1d(Interpolate1dConfig);
    impl Interpolate1d {
        pub fn forward<B: Backend>(&self, x: Tensor<B, 3>) -> Tensor<B, 3> {
            let n = x.nd.shape[2];
            let o = size(n, self.0.output_size, self.0.scale_factor);
            let s = x.nd.shape.clone();
            let y = interp(&x.nd.reshape(vec![s[0], s[1], 1, s[2]]), [1, o], self.0.mode.op(), self.0.align);
            Tensor::of(y.reshape(vec![s[0], s[1], o]))
        }
    }
    fn size(n: usize, o: Option<usize>, s: Option<f32>) -> usize {
        match (o, s) { (Some(o), _) => o, (None, Some(s)) => (n as f64 * s as f64) as usize, _ => panic!("interpolate: neither size nor scale") }
    }
    #[derive(Clone, Debug)]
    pub struct Interpolate2dConfig { output_size: Option<[usize; 2]>, scale_factor: Option<[f32; 2]>, mode: InterpolateMode, align: bool }
    impl Interpolate2dConfig {
        pub fn new() -> Self { Self { output_size: None, scale_factor: None, mode: InterpolateMode::Nearest, align: true } }
        with!(with_output_size: output_size: Option<[usize; 2]>, with_scale_factor: scale_factor: Option<[f32; 2]>, with_mode: mode: InterpolateMode, with_align_corners: align: bool);
        pub fn init(self) -> Interpolate2d { Interpolate2d(self) }
    }
    #[derive(Clone, Debug)]
    pub struct Interpolate2d(Interpolate2dConfig);
    impl Interpolate2d {
        pub fn forward<B: Backend>(&self, x: Tensor<B, 4>) -> Tensor<B, 4> {
            let c = &self.0;
            let h = size(x.nd.shape[2], c.output_size.map(|s| s[0]), c.scale_factor.map(|s| s[0]));
            let w = size(x.nd.shape[3], c.output_size.map(|s| s[1]), c.scale_factor.map(|s| s[1]));
            Tensor::of(interp(&x.nd, [h, w], c.mode.op(), c.align))
        }
    }
    no_params!(Interpolate1d, Interpolate2d);
}

#[derive(Clone, Debug)]
pub struct DropoutConfig(f64);
impl DropoutConfig { pub fn new(v: f64) -> Self { Self(v) } pub fn init(&self) -> Dropout { Dropout } }
#[derive(Clone, Debug)]
pub struct Dropout;
impl Dropout { pub fn forward<B: Backend, const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> { x } }
no_params!(Dropout);

#[derive(Clone, Debug)]
pub struct PReluConfig { n: usize }
impl PReluConfig {
    pub fn new() -> Self { Self { n: 1 } }
    with!(with_num_parameters: n: usize);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> PRelu<B> { PRelu { alpha: p([self.n], 0.25) } }
}
#[derive(Module, Debug)]
pub struct PRelu<B: Backend> { pub alpha: Param<Tensor<B, 1>> }
impl<B: Backend> PRelu<B> { pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> { act::prelu(x, self.alpha.val()) } }

fn chan<B: Backend, const D: usize>(t: Tensor<B, 1>) -> Tensor<B, D> {
    let mut sh = vec![1; D];
    sh[1] = t.nd.shape[0];
    Tensor::of(t.nd.reshape(sh))
}
#[derive(Clone, Debug)]
pub struct BatchNormConfig { n: usize, epsilon: f64, momentum: f64 }
impl BatchNormConfig {
    pub fn new(n: usize) -> Self { Self { n, epsilon: 1e-5, momentum: 0.1 } }
    with!(with_epsilon: epsilon: f64, with_momentum: momentum: f64);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> BatchNorm<B> {
        BatchNorm { gamma: p([self.n], 1.0), beta: p([self.n], 0.0), running_mean: p([self.n], 0.0), running_var: p([self.n], 1.0), epsilon: self.epsilon }
    }
}
#[derive(Module, Debug)]
pub struct BatchNorm<B: Backend> { pub gamma: Param<Tensor<B, 1>>, pub beta: Param<Tensor<B, 1>>, pub running_mean: Param<Tensor<B, 1>>, pub running_var: Param<Tensor<B, 1>>, pub epsilon: f64 }
impl<B: Backend> BatchNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        let sd = chan::<B, D>(self.running_var.val()).add_scalar(self.epsilon).sqrt();
        x.sub(chan(self.running_mean.val())).div(sd).mul(chan(self.gamma.val())).add(chan(self.beta.val()))
    }
}
#[derive(Clone, Debug)]
pub struct LayerNormConfig { n: usize, epsilon: f64, bias: bool }
impl LayerNormConfig {
    pub fn new(n: usize) -> Self { Self { n, epsilon: 1e-5, bias: true } }
    with!(with_epsilon: epsilon: f64, with_bias: bias: bool);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> LayerNorm<B> { LayerNorm { gamma: p([self.n], 1.0), beta: if self.bias { Some(p([self.n], 0.0)) } else { None }, epsilon: self.epsilon } }
}
#[derive(Module, Debug)]
pub struct LayerNorm<B: Backend> { pub gamma: Param<Tensor<B, 1>>, pub beta: Option<Param<Tensor<B, 1>>>, epsilon: f64 }
impl<B: Backend> LayerNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        let (var, mean) = x.clone().var_mean_bias(D - 1);
        let y = x.sub(mean).div(var.add_scalar(self.epsilon).sqrt()).mul(self.gamma.val().unsqueeze());
        match &self.beta { Some(b) => y.add(b.val().unsqueeze()), None => y }
    }
}
#[derive(Clone, Debug)]
pub struct GroupNormConfig { groups: usize, n: usize, epsilon: f64, affine: bool }
impl GroupNormConfig {
    pub fn new(groups: usize, n: usize) -> Self { Self { groups, n, epsilon: 1e-5, affine: true } }
    with!(with_epsilon: epsilon: f64, with_affine: affine: bool);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> GroupNorm<B> {
        assert!(self.n % self.groups == 0, "group_norm: channels not divisible by groups");
        GroupNorm { gamma: if self.affine { Some(p([self.n], 1.0)) } else { None }, beta: if self.affine { Some(p([self.n], 0.0)) } else { None }, groups: self.groups, epsilon: self.epsilon }
    }
}
#[derive(Module, Debug)]
pub struct GroupNorm<B: Backend> { pub gamma: Option<Param<Tensor<B, 1>>>, pub beta: Option<Param<Tensor<B, 1>>>, groups: usize, epsilon: f64 }
fn group_norm<B: Backend, const D: usize>(x: Tensor<B, D>, gamma: Option<Tensor<B, 1>>, beta: Option<Tensor<B, 1>>, groups: usize, eps: f64) -> Tensor<B, D> {
    let sh = x.nd.shape.clone();
    let per: usize = sh[1..].iter().product::<usize>() / groups;
    let t: Tensor<B, 3> = Tensor::of(x.nd.reshape(vec![sh[0], groups, per]));
    let (var, mean) = t.clone().var_mean_bias(2);
    let y = t.sub(mean).div(var.add_scalar(eps).sqrt());
    let mut y: Tensor<B, D> = Tensor::of(y.nd.reshape(sh));
    if let Some(g) = gamma { y = y.mul(chan(g)); }
    if let Some(b) = beta { y = y.add(chan(b)); }
    y
}
impl<B: Backend> GroupNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> { group_norm(x, self.gamma.as_ref().map(|g| g.val()), self.beta.as_ref().map(|g| g.val()), self.groups, self.epsilon) }
}
#[derive(Clone, Debug)]
pub struct InstanceNormConfig { n: usize, epsilon: f64, affine: bool }
impl InstanceNormConfig {
    pub fn new(n: usize) -> Self { Self { n, epsilon: 1e-5, affine: true } }
    with!(with_epsilon: epsilon: f64, with_affine: affine: bool);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> InstanceNorm<B> { InstanceNorm { gamma: if self.affine { Some(p([self.n], 1.0)) } else { None }, beta: if self.affine { Some(p([self.n], 0.0)) } else { None }, n: self.n, epsilon: self.epsilon } }
}
#[derive(Module, Debug)]
pub struct InstanceNorm<B: Backend> { pub gamma: Option<Param<Tensor<B, 1>>>, pub beta: Option<Param<Tensor<B, 1>>>, n: usize, epsilon: f64 }
impl<B: Backend> InstanceNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> { group_norm(x, self.gamma.as_ref().map(|g| g.val()), self.beta.as_ref().map(|g| g.val()), self.n, self.epsilon) }
}

// ---------------------------------------------------------------- recurrent
#[derive(Module, Debug)]
pub struct GateController<B: Backend> { pub input_transform: Linear<B>, pub hidden_transform: Linear<B> }
impl<B: Backend> GateController<B> {
    fn new(i: usize, h: usize, bias: bool) -> Self {
        let d = B::Device::default();
        GateController { input_transform: LinearConfig::new(i, h).with_bias(bias).init(&d), hidden_transform: LinearConfig::new(h, h).with_bias(bias).init(&d) }
    }
    fn product(&self, x: Tensor<B, 2>, h: Tensor<B, 2>) -> Tensor<B, 2> { self.input_transform.forward(x).add(self.hidden_transform.forward(h)) }
}
fn clip<B: Backend>(t: Tensor<B, 2>, c: Option<f64>) -> Tensor<B, 2> { match c { Some(c) => t.clamp(-c, c), None => t } }
/// [seq, batch, feat] view of the input, processed step by step; returns stacked outputs in input order.
fn run<B: Backend>(x: Tensor<B, 3>, batch_first: bool, reverse: bool, mut step: impl FnMut(Tensor<B, 2>) -> Tensor<B, 2>) -> Tensor<B, 3> {
    let x = if batch_first { x.swap_dims(0, 1) } else { x };
    let n = x.nd.shape[0];
    let mut outs: Vec<Option<Tensor<B, 2>>> = vec![None; n];
    let order: Vec<usize> = if reverse { (0..n).rev().collect() } else { (0..n).collect() };
    for t in order {
        let xt = x.clone().narrow(0, t, 1).squeeze_dim::<2>(0);
        outs[t] = Some(step(xt));
    }
    let y: Tensor<B, 3> = Tensor::stack(outs.into_iter().map(|o| o.unwrap()).collect(), 0);
    if batch_first { y.swap_dims(0, 1) } else { y }
}
fn batch_of<B: Backend>(x: &Tensor<B, 3>, batch_first: bool) -> usize { if batch_first { x.nd.shape[0] } else { x.nd.shape[1] } }

#[derive(Clone, Debug)]
pub struct LstmState<B: Backend, const D: usize> { pub cell: Tensor<B, D>, pub hidden: Tensor<B, D> }
impl<B: Backend, const D: usize> LstmState<B, D> { pub fn new(cell: Tensor<B, D>, hidden: Tensor<B, D>) -> Self { LstmState { cell, hidden } } }
#[derive(Clone, Debug)]
pub struct LstmConfig { i: usize, h: usize, bias: bool, batch_first: bool, reverse: bool, clip: Option<f64>, input_forget: bool, gate: ActivationConfig, cell: ActivationConfig, hid: ActivationConfig }
impl LstmConfig {
    pub fn new(i: usize, h: usize, bias: bool) -> Self { Self { i, h, bias, batch_first: true, reverse: false, clip: None, input_forget: false, gate: ActivationConfig::Sigmoid, cell: ActivationConfig::Tanh, hid: ActivationConfig::Tanh } }
    with!(with_batch_first: batch_first: bool, with_reverse: reverse: bool, with_clip: clip: Option<f64>, with_input_forget: input_forget: bool, with_gate_activation: gate: ActivationConfig, with_cell_activation: cell: ActivationConfig, with_hidden_activation: hid: ActivationConfig);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> Lstm<B> {
        let g = || GateController::new(self.i, self.h, self.bias);
        Lstm { input_gate: g(), forget_gate: g(), output_gate: g(), cell_gate: g(), cfg: crate::module::Ignored(self.clone()) }
    }
}
#[derive(Module, Debug)]
pub struct Lstm<B: Backend> { pub input_gate: GateController<B>, pub forget_gate: GateController<B>, pub output_gate: GateController<B>, pub cell_gate: GateController<B>, cfg: crate::module::Ignored<LstmConfig> }
impl<B: Backend> Lstm<B> {
    pub fn forward(&self, x: Tensor<B, 3>, state: Option<LstmState<B, 2>>) -> (Tensor<B, 3>, LstmState<B, 2>) {
        let c = &self.cfg.0;
        let b = batch_of(&x, c.batch_first);
        let dev = Default::default();
        let (mut cell, mut hidden) = match state { Some(s) => (s.cell, s.hidden), None => (Tensor::zeros([b, c.h], (&dev, x.dtype())), Tensor::zeros([b, c.h], (&dev, x.dtype()))) };
        let _: &B::Device = &dev;
        let y = run(x, c.batch_first, c.reverse, |xt| {
            let f = c.gate.apply(clip(self.forget_gate.product(xt.clone(), hidden.clone()), c.clip));
            let i = if c.input_forget { f.clone().neg().add_scalar(1.0) } else { c.gate.apply(clip(self.input_gate.product(xt.clone(), hidden.clone()), c.clip)) };
            let o = c.gate.apply(clip(self.output_gate.product(xt.clone(), hidden.clone()), c.clip));
            let g = c.cell.apply(clip(self.cell_gate.product(xt, hidden.clone()), c.clip));
            cell = clip(f.mul(cell.clone()).add(i.mul(g)), c.clip);
            hidden = o.mul(c.hid.apply(cell.clone()));
            hidden.clone()
        });
        (y, LstmState::new(cell, hidden))
    }
}
macro_rules! bi {
    ($cfg:ident, $bcfg:ident, $m:ident, $bm:ident, $(($w:ident, $f:ident, $t:ty)),*) => {
        #[derive(Clone, Debug)]
        pub struct $bcfg { c: $cfg }
        impl $bcfg {
            pub fn new(i: usize, h: usize, bias: bool) -> Self { Self { c: $cfg::new(i, h, bias) } }
            $( pub fn $w(mut self, v: $t) -> Self { self.c.$f = v; self } )*
            pub fn init<B: Backend>(&self, d: &B::Device) -> $bm<B> {
                let mut r = self.c.clone();
                r.reverse = true;
                $bm { forward: self.c.init(d), reverse: r.init(d), batch_first: self.c.batch_first }
            }
        }
        #[derive(Module, Debug)]
        pub struct $bm<B: Backend> { pub forward: $m<B>, pub reverse: $m<B>, batch_first: bool }
    };
}
bi!(LstmConfig, BiLstmConfig, Lstm, BiLstm, (with_batch_first, batch_first, bool), (with_clip, clip, Option<f64>), (with_input_forget, input_forget, bool), (with_gate_activation, gate, ActivationConfig), (with_cell_activation, cell, ActivationConfig), (with_hidden_activation, hid, ActivationConfig));
fn part<B: Backend>(t: &Tensor<B, 3>, k: usize) -> Tensor<B, 2> { t.clone().narrow(0, k, 1).squeeze_dim::<2>(0) }
impl<B: Backend> BiLstm<B> {
    pub fn forward(&self, x: Tensor<B, 3>, state: Option<LstmState<B, 3>>) -> (Tensor<B, 3>, LstmState<B, 3>) {
        let st = |k: usize| state.as_ref().map(|s| LstmState::new(part(&s.cell, k), part(&s.hidden, k)));
        let (a, sa) = self.forward.forward(x.clone(), st(0));
        let (b, sb) = self.reverse.forward(x, st(1));
        (Tensor::cat(vec![a, b], 2), LstmState::new(Tensor::stack(vec![sa.cell, sb.cell], 0), Tensor::stack(vec![sa.hidden, sb.hidden], 0)))
    }
}
#[derive(Clone, Debug)]
pub struct RnnState<B: Backend, const D: usize> { pub hidden: Tensor<B, D> }
impl<B: Backend, const D: usize> RnnState<B, D> { pub fn new(hidden: Tensor<B, D>) -> Self { RnnState { hidden } } }
#[derive(Clone, Debug)]
pub struct RnnConfig { i: usize, h: usize, bias: bool, batch_first: bool, reverse: bool, clip: Option<f64>, hid: ActivationConfig }
impl RnnConfig {
    pub fn new(i: usize, h: usize, bias: bool) -> Self { Self { i, h, bias, batch_first: true, reverse: false, clip: None, hid: ActivationConfig::Tanh } }
    with!(with_batch_first: batch_first: bool, with_reverse: reverse: bool, with_clip: clip: Option<f64>, with_hidden_activation: hid: ActivationConfig);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> Rnn<B> { Rnn { gate: GateController::new(self.i, self.h, self.bias), cfg: crate::module::Ignored(self.clone()) } }
}
#[derive(Module, Debug)]
pub struct Rnn<B: Backend> { pub gate: GateController<B>, cfg: crate::module::Ignored<RnnConfig> }
impl<B: Backend> Rnn<B> {
    pub fn forward(&self, x: Tensor<B, 3>, state: Option<RnnState<B, 2>>) -> (Tensor<B, 3>, RnnState<B, 2>) {
        let c = &self.cfg.0;
        let b = batch_of(&x, c.batch_first);
        let dev: B::Device = Default::default();
        let mut hidden = match state { Some(s) => s.hidden, None => Tensor::zeros([b, c.h], (&dev, x.dtype())) };
        let y = run(x, c.batch_first, c.reverse, |xt| {
            hidden = c.hid.apply(clip(self.gate.product(xt, hidden.clone()), c.clip));
            hidden.clone()
        });
        (y, RnnState::new(hidden))
    }
}
bi!(RnnConfig, BiRnnConfig, Rnn, BiRnn, (with_batch_first, batch_first, bool), (with_clip, clip, Option<f64>), (with_hidden_activation, hid, ActivationConfig));
impl<B: Backend> BiRnn<B> {
    pub fn forward(&self, x: Tensor<B, 3>, state: Option<RnnState<B, 3>>) -> (Tensor<B, 3>, RnnState<B, 3>) {
        let st = |k: usize| state.as_ref().map(|s| RnnState::new(part(&s.hidden, k)));
        let (a, sa) = self.forward.forward(x.clone(), st(0));
        let (b, sb) = self.reverse.forward(x, st(1));
        (Tensor::cat(vec![a, b], 2), RnnState::new(Tensor::stack(vec![sa.hidden, sb.hidden], 0)))
    }
}
pub mod gru {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct GruConfig { i: usize, h: usize, bias: bool, reset_after: bool, batch_first: bool, reverse: bool }
    impl GruConfig {
        pub fn new(i: usize, h: usize, bias: bool) -> Self { Self { i, h, bias, reset_after: true, batch_first: true, reverse: false } }
        with!(with_reset_after: reset_after: bool);
        pub fn init<B: Backend>(&self, _d: &B::Device) -> Gru<B> {
            let g = || GateController::new(self.i, self.h, self.bias);
            Gru { update_gate: g(), reset_gate: g(), new_gate: g(), cfg: crate::module::Ignored(self.clone()) }
        }
    }
    #[derive(Module, Debug)]
    pub struct Gru<B: Backend> { pub update_gate: GateController<B>, pub reset_gate: GateController<B>, pub new_gate: GateController<B>, cfg: crate::module::Ignored<GruConfig> }
    impl<B: Backend> Gru<B> {
        /// Batch-first in and out.
        pub fn forward(&self, x: Tensor<B, 3>, state: Option<Tensor<B, 2>>) -> Tensor<B, 3> { self.go(x, state).0 }
        fn go(&self, x: Tensor<B, 3>, state: Option<Tensor<B, 2>>) -> (Tensor<B, 3>, Tensor<B, 2>) {
            let c = &self.cfg.0;
            let b = batch_of(&x, c.batch_first);
            let dev: B::Device = Default::default();
            let mut h = match state { Some(s) => s, None => Tensor::zeros([b, c.h], (&dev, x.dtype())) };
            let y = run(x, c.batch_first, c.reverse, |xt| {
                let z = act::sigmoid(self.update_gate.product(xt.clone(), h.clone()));
                let r = act::sigmoid(self.reset_gate.product(xt.clone(), h.clone()));
                let n = if c.reset_after {
                    self.new_gate.input_transform.forward(xt).add(r.mul(self.new_gate.hidden_transform.forward(h.clone())))
                } else {
                    self.new_gate.product(xt, r.mul(h.clone()))
                };
                let n = n.tanh();
                h = n.clone().sub(z.clone().mul(n)).add(z.mul(h.clone()));
                h.clone()
            });
            (y, h)
        }
    }
    bi!(GruConfig, BiGruConfig, Gru, BiGru, (with_batch_first, batch_first, bool), (with_reset_after, reset_after, bool));
    impl<B: Backend> BiGru<B> {
        pub fn forward(&self, x: Tensor<B, 3>, state: Option<Tensor<B, 3>>) -> (Tensor<B, 3>, Tensor<B, 3>) {
            let st = |k: usize| state.as_ref().map(|s| part(s, k));
            let (a, sa) = self.forward.go(x.clone(), st(0));
            let (b, sb) = self.reverse.go(x, st(1));
            (Tensor::cat(vec![a, b], 2), Tensor::stack(vec![sa, sb], 0))
        }
    }
}
#[allow(unused)]
fn _unused(_: &Nd) { let _ = nd::f; }
