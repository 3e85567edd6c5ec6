use crate::common::*;
use crate::uf::{self, *};
use essay_tensor::init;
use essay_tensor::init::{Normal, Uniform};
use essay_tensor::tensor::{Shape, Tensor};

fn sh(d: Vec<usize>) -> Shape { Shape::from(d.as_slice()) }
pub fn zeros(d: Vec<usize>) -> O<E> { o(&init::zeros(sh(d))) }
pub fn m_zeros(d: Vec<usize>) -> O<E> { o(&Tensor::<E>::zeros(sh(d))) }
pub fn ones(d: Vec<usize>) -> O<E> { o(&init::ones(sh(d))) }
pub fn m_ones(d: Vec<usize>) -> O<E> { o(&Tensor::<E>::ones(sh(d))) }
pub fn zeros_f32(d: Vec<usize>) -> O<f32> { o(&init::zeros(sh(d))) }
pub fn ones_f32(d: Vec<usize>) -> O<f32> { o(&init::ones(sh(d))) }
pub fn fill(d: Vec<usize>, v: E) -> O<E> { o(&init::fill(sh(d), v)) }
pub fn m_fill(d: Vec<usize>, v: E) -> O<E> { o(&Tensor::fill(sh(d), v)) }
pub fn init_(d: Vec<usize>) -> O<E> { let mut n = 0; o(&Tensor::init(sh(d), || { let i = n; n += 1; uf::gen(i) })) }
pub fn init_rindexed(d: Vec<usize>) -> O<E> { let mut n = 0; o(&Tensor::init_rindexed(sh(d), |ix| { let i = n; n += 1; uf::gen_at(i, ix) })) }
pub fn linspace(a: V<f32>, b: V<f32>, n: usize) -> O<f32> { o(&init::linspace(t(a), t(b), n)) }
pub fn m_linspace(a: V<f32>, b: V<f32>, n: usize) -> O<f32> { o(&t(a).linspace(&t(b), n)) }
pub fn linspace_s(a: f32, b: f32, n: usize) -> O<f32> { o(&init::linspace(a, b, n)) }
pub fn geomspace(a: V<f32>, b: V<f32>, n: usize) -> O<f32> { o(&init::geomspace(t(a), t(b), n)) }
pub fn m_geomspace(a: V<f32>, b: V<f32>, n: usize) -> O<f32> { o(&t(a).geomspace(&t(b), n)) }
pub fn geomspace_s(a: f32, b: f32, n: usize) -> O<f32> { o(&init::geomspace(a, b, n)) }
pub fn logspace(a: V<f32>, b: V<f32>, n: usize) -> O<f32> { o(&init::logspace(t(a), t(b), n)) }
pub fn m_logspace(a: V<f32>, b: V<f32>, n: usize) -> O<f32> { o(&t(a).logspace(&t(b), n)) }
pub fn logspace_s(a: f32, b: f32, n: usize) -> O<f32> { o(&init::logspace(a, b, n)) }
pub fn logspace_opt(a: V<f32>, b: V<f32>, n: usize, base: f32) -> O<f32> { o(&init::logspace_opt(t(a), t(b), n, base)) }
pub fn logspace_some(a: V<f32>, b: V<f32>, n: usize, base: f32) -> O<f32> { o(&init::logspace_opt(t(a), t(b), n, Some(base))) }
pub fn arange(a: f32, b: f32, s: f32) -> O<f32> { o(&init::arange(a, b, s)) }
pub fn m_arange(a: f32, b: f32, s: f32) -> O<f32> { o(&Tensor::arange(a, b, s)) }
pub fn one_hot(ix: Vec<usize>, n: usize) -> O<f32> { o(&init::one_hot(ix, n)) }
pub fn m_one_hot(ix: Vec<usize>, n: usize) -> O<f32> { o(&Tensor::one_hot(ix, n)) }
