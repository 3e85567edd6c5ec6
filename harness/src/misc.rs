use crate::common::*;
use crate::uf::*;
use essay_opt::derive_opt;
use essay_tensor::init::{self, Normal, Uniform};
use essay_tensor::random::{Rand32, Rand64};
use essay_tensor::signal::rfft_norm;
use essay_tensor::stats::{histogram, histogram2d, HistArgs, Hist2Args};
use essay_tensor::tensor::{Shape, Tensor};
use essay_tensor::{io, linalg};

fn sh(d: Vec<usize>) -> Shape { Shape::from(d.as_slice()) }

pub fn matmul(a: V<f32>, b: V<f32>) -> O<f32> { o(&linalg::matmul(&t(a), &t(b))) }
pub fn m_matmul(a: V<f32>, b: V<f32>) -> O<f32> { o(&t(a).matmul(&t(b))) }
pub fn matvec(a: V<f32>, b: V<f32>) -> O<f32> { o(&t(a).matvec(&t(b))) }

pub fn rfft(a: V<f32>) -> O<f32> { o(&rfft_norm(t(a), ())) }

pub fn wav(a: V<u8>) -> (O<f32>, O<usize>) { let (x, r) = io::decode_wav(&t(a)); (o(&x), o(&r)) }

pub fn r32_next(s: u64) -> (u64, u32) { let mut r = Rand32(s); let v = r.next(); (r.0, v) }
pub fn r32_uniform(s: u64) -> (u64, f32) { let mut r = Rand32(s); let v = r.next_uniform(); (r.0, v) }
pub fn r32_normal(s: u64) -> (u64, f32) { let mut r = Rand32(s); let v = r.next_normal(); (r.0, v) }
pub fn r64_next(s: u128) -> (u128, u64) { let mut r = Rand64(s); let v = r.next(); (r.0, v) }
pub fn r64_uniform(s: u128) -> (u128, f64) { let mut r = Rand64(s); let v = r.next_uniform(); (r.0, v) }
pub fn r64_normal(s: u128) -> (u128, f64) { let mut r = Rand64(s); let v = r.next_normal(); (r.0, v) }
pub fn r32_str(s: Vec<u8>) -> u64 { Rand32::from(unsafe { std::str::from_utf8_unchecked(s.as_slice()) }).0 }
pub fn r64_str(s: Vec<u8>) -> u128 { Rand64::from(unsafe { std::str::from_utf8_unchecked(s.as_slice()) }).0 }

pub fn normal_seed(d: Vec<usize>, s: u64) -> O<f32> { o(&init::random_normal(sh(d), Normal::seed(s))) }
pub fn normal_opt(d: Vec<usize>, s: u64) -> O<f32> { o(&init::random_normal(sh(d), Some(s))) }
pub fn m_normal(d: Vec<usize>, s: u64) -> O<f32> { o(&Tensor::random_normal(sh(d), Normal::seed(s))) }
pub fn uniform_seed(d: Vec<usize>, s: u64) -> O<f32> { o(&init::random_uniform(sh(d), Uniform::seed(s))) }
pub fn m_uniform(d: Vec<usize>, s: u64) -> O<f32> { o(&Tensor::random_uniform(sh(d), Uniform::seed(s))) }

use essay_tensor::linalg::Transpose;
use essay_tensor::signal::FftOpt;
pub fn matmul_none(a: V<f32>, b: V<f32>) -> O<f32> { o(&t(a).matmul_t(&t(b), Transpose::None)) }
pub fn matmul_ta(a: V<f32>, b: V<f32>) -> O<f32> { o(&t(a).matmul_t(&t(b), Transpose::TransposeA)) }
pub fn matmul_tb(a: V<f32>, b: V<f32>) -> O<f32> { o(&t(a).matmul_t(&t(b), Transpose::TransposeB)) }
pub fn matmul_tab(a: V<f32>, b: V<f32>) -> O<f32> { o(&t(a).matmul_t(&t(b), Transpose::TransposeAB)) }
pub fn matvec_none(a: V<f32>, b: V<f32>) -> O<f32> { o(&t(a).matvec_t(&t(b), Transpose::None)) }
pub fn matvec_ta(a: V<f32>, b: V<f32>) -> O<f32> { o(&t(a).matvec_t(&t(b), Transpose::TransposeA)) }
pub fn rfft_len(a: V<f32>, n: usize) -> O<f32> { o(&rfft_norm(t(a), ().fft_length(n))) }
pub fn rfft_len2(a: V<f32>, m: usize, n: usize) -> O<f32> { o(&rfft_norm(t(a), ().fft_length(m).fft_length(n).into_arg())) }

pub fn read_file(a: V<String>) -> Option<O<u8>> { io::read_file(t(a)).ok().map(|x| o(&x)) }

pub fn normal_all(d: Vec<usize>, m: f32, s: f32, z: u64) -> O<f32> { o(&init::random_normal(sh(d), Normal::mean(m).with_std(s).with_seed(z))) }
pub fn normal_all2(d: Vec<usize>, m: f32, s: f32, z: u64) -> O<f32> { o(&init::random_normal(sh(d), Normal::seed(z).with_std(s).with_mean(m))) }
pub fn normal_all3(d: Vec<usize>, m: f32, s: f32, z: u64) -> O<f32> { o(&init::random_normal(sh(d), Normal::std(s).with_seed(z).with_mean(m))) }
pub fn normal_def(d: Vec<usize>, z: u64) -> O<f32> { o(&init::random_normal(sh(d), Normal::default().with_seed(z))) }
pub fn normal_mean(d: Vec<usize>, m: f32, z: u64) -> O<f32> { o(&init::random_normal(sh(d), Normal::mean(m).with_seed(z))) }
pub fn normal_std(d: Vec<usize>, s: f32, z: u64) -> O<f32> { o(&init::random_normal(sh(d), Normal::std(s).with_seed(z))) }
pub fn normal_pair(d: Vec<usize>, m: f32, s: f32, z: u64) -> O<f32> { o(&init::random_normal(sh(d), Normal::from((m, s)).with_seed(z))) }
pub fn normal_twice(d: Vec<usize>, a: f32, b: f32, m: f32, s: f32, y: u64, z: u64) -> O<f32> {
    o(&init::random_normal(sh(d), Normal::mean(a).with_std(b).with_seed(y).with_mean(m).with_seed(z).with_std(s)))
}
pub fn uniform_all(d: Vec<usize>, m: f32, s: f32, z: u64) -> O<f32> { o(&init::random_uniform(sh(d), Uniform::min(m).with_max(s).with_seed(z))) }
pub fn uniform_all2(d: Vec<usize>, m: f32, s: f32, z: u64) -> O<f32> { o(&init::random_uniform(sh(d), Uniform::seed(z).with_max(s).with_min(m))) }
pub fn uniform_all3(d: Vec<usize>, m: f32, s: f32, z: u64) -> O<f32> { o(&init::random_uniform(sh(d), Uniform::max(s).with_seed(z).with_min(m))) }
pub fn uniform_def(d: Vec<usize>, z: u64) -> O<f32> { o(&init::random_uniform(sh(d), Uniform::default().with_seed(z))) }
pub fn uniform_opt(d: Vec<usize>, z: u64) -> O<f32> { o(&init::random_uniform(sh(d), Some(z))) }
pub fn uniform_min(d: Vec<usize>, m: f32, z: u64) -> O<f32> { o(&init::random_uniform(sh(d), Uniform::min(m).with_seed(z))) }
pub fn uniform_max(d: Vec<usize>, s: f32, z: u64) -> O<f32> { o(&init::random_uniform(sh(d), Uniform::max(s).with_seed(z))) }
pub fn uniform_pair(d: Vec<usize>, m: f32, s: f32, z: u64) -> O<f32> { o(&init::random_uniform(sh(d), Uniform::from((m, s)).with_seed(z))) }
pub fn uniform_twice(d: Vec<usize>, a: f32, b: f32, m: f32, s: f32, y: u64, z: u64) -> O<f32> {
    o(&init::random_uniform(sh(d), Uniform::min(a).with_max(b).with_seed(y).with_min(m).with_seed(z).with_max(s)))
}

pub fn hist_new(a: V<f32>) -> (O<f32>, O<f32>) { let (v, b) = histogram(t(a), HistArgs::new()); (o(&v), o(&b)) }
pub fn hist_def(a: V<f32>) -> (O<f32>, O<f32>) { let (v, b) = histogram(t(a), HistArgs::default()); (o(&v), o(&b)) }
pub fn hist_bins(a: V<f32>, n: usize) -> (O<f32>, O<f32>) { let (v, b) = histogram(t(a), HistArgs::new().n_bins(n)); (o(&v), o(&b)) }
pub fn hist_bins2(a: V<f32>, m: usize, n: usize) -> (O<f32>, O<f32>) { let (v, b) = histogram(t(a), HistArgs::from(m).n_bins(n)); (o(&v), o(&b)) }
pub fn hist2_new(a: V<f32>) -> (O<f32>, O<f32>, O<f32>) { let (v, x, y) = histogram2d(t(a), Hist2Args::new()); (o(&v), o(&x), o(&y)) }
pub fn hist2_bins(a: V<f32>, n: usize) -> (O<f32>, O<f32>, O<f32>) { let (v, x, y) = histogram2d(t(a), Hist2Args::new().n_bins(n)); (o(&v), o(&x), o(&y)) }
pub fn hist2_bins2(a: V<f32>, m: usize, n: usize) -> (O<f32>, O<f32>, O<f32>) { let (v, x, y) = histogram2d(t(a), Hist2Args::from(m).n_bins(n)); (o(&v), o(&x), o(&y)) }

#[derive_opt(ManyOpt)]
#[derive(Default)]
pub struct Many {
    a: Option<usize>,
    b: Option<usize>,
    c: Option<f32>,
    d: Option<f32>,
    e: usize,
    f: f32,
    g: Option<E>,
    h: E,
}
type M = (Option<usize>, Option<usize>, Option<f32>, Option<f32>, usize, f32, Option<E>, E);
fn m(x: Many) -> M { (x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h) }
fn via(x: impl ManyOpt) -> M { m(x.into_arg()) }
pub fn opt_none() -> M { via(()) }
pub fn opt_a(a: usize) -> M { via(().a(a)) }
pub fn opt_b(a: usize) -> M { via(().b(a)) }
pub fn opt_c(a: f32) -> M { via(().c(a)) }
pub fn opt_d(a: f32) -> M { via(().d(a)) }
pub fn opt_e(a: usize) -> M { via(().e(a)) }
pub fn opt_f(a: f32) -> M { via(().f(a)) }
pub fn opt_g(a: E) -> M { via(().g(a)) }
pub fn opt_h(a: E) -> M { via(().h(a)) }
pub fn opt_abcdefgh(a: usize, b: usize, c: f32, d: f32, e: usize, f: f32, g: E, h: E) -> M { via(().a(a).b(b).c(c).d(d).e(e).f(f).g(g).h(h)) }
pub fn opt_hgfedcba(a: usize, b: usize, c: f32, d: f32, e: usize, f: f32, g: E, h: E) -> M { via(().h(h).g(g).f(f).e(e).d(d).c(c).b(b).a(a)) }
fn full(a: Option<usize>, b: Option<usize>, c: Option<f32>, d: Option<f32>, e: usize, f: f32, g: Option<E>, h: E) -> Many { Many { a, b, c, d, e, f, g, h } }
pub mod set {
    use super::*;
    macro_rules! set { ($($n:ident $t:ty)*) => { $(pub fn $n(a: Option<usize>, b: Option<usize>, c: Option<f32>, d: Option<f32>, e: usize, f: f32, g: Option<E>, h: E, x: $t) -> M {
        via(full(a, b, c, d, e, f, g, h).$n(x))
    })* } }
    set!(a usize b usize c f32 d f32 e usize f f32 g E h E);
    pub fn into_arg(a: Option<usize>, b: Option<usize>, c: Option<f32>, d: Option<f32>, e: usize, f: f32, g: Option<E>, h: E) -> M { via(full(a, b, c, d, e, f, g, h)) }
}
