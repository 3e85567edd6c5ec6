use crate::common::*;
use crate::uf::*;
use essay_tensor::stats::{histogram, histogram2d};
use essay_tensor::tensor::{Axis, Tensor};

pub fn sum(a: V<E>) -> O<E> { o(&t(a).reduce_sum()) }
pub fn product(a: V<E>) -> O<E> { o(&t(a).reduce_product()) }
pub fn sum_axis(a: V<E>, x: isize) -> O<E> { o(&t(a).reduce_sum_axis(x)) }
pub fn product_axis(a: V<E>, x: isize) -> O<E> { o(&t(a).reduce_product_axis(x)) }
pub fn sum_none(a: V<E>) -> O<E> { o(&t(a).reduce_sum_axis(None)) }
pub fn product_none(a: V<E>) -> O<E> { o(&t(a).reduce_product_axis(None)) }
macro_rules! red { ($($m:ident $f:ident $fx:ident)*) => { $(pub mod $m {
    use super::*;
    pub fn all(a: V<f32>) -> O<f32> { o(&t(a).$f()) }
    pub fn none(a: V<f32>) -> O<f32> { o(&t(a).$fx(None)) }
    pub fn axis(a: V<f32>, x: isize) -> O<f32> { o(&t(a).$fx(Axis::axis(x))) }
})* } }
red!(fsum reduce_sum reduce_sum_axis fproduct reduce_product reduce_product_axis min reduce_min reduce_min_axis max reduce_max reduce_max_axis
     mean reduce_mean reduce_mean_axis std_ reduce_std reduce_std_axis var reduce_variance reduce_variance_axis);
pub fn hypot(a: V<f32>) -> O<f32> { o(&t(a).reduce_hypot()) }
pub fn hypot64(a: V<f64>) -> O<f64> { o(&t(a).reduce_hypot()) }
pub fn min64(a: V<f64>) -> O<f64> { o(&t(a).reduce_min()) }
pub fn max64(a: V<f64>, x: isize) -> O<f64> { o(&t(a).reduce_max_axis(x)) }
pub fn normalize_unit(a: V<f32>) -> O<f32> { o(&t(a).normalize_unit()) }
pub fn normalize_unit64(a: V<f64>) -> O<f64> { o(&t(a).normalize_unit()) }

pub fn hist(a: V<f32>, n: usize) -> (O<f32>, O<f32>) { let (v, b) = histogram(t(a), n); (o(&v), o(&b)) }
pub fn hist_default(a: V<f32>) -> (O<f32>, O<f32>) { let (v, b) = histogram(t(a), ()); (o(&v), o(&b)) }
pub fn hist2(a: V<f32>, n: usize) -> (O<f32>, O<f32>, O<f32>) { let (v, x, y) = histogram2d(t(a), n); (o(&v), o(&x), o(&y)) }
pub fn hist2_default(a: V<f32>) -> (O<f32>, O<f32>, O<f32>) { let (v, x, y) = histogram2d(t(a), ()); (o(&v), o(&x), o(&y)) }
pub fn total<T: essay_tensor::tensor::Type + Copy>(_t: &Tensor<T>) {}
