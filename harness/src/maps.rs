use crate::common::*;
use crate::uf::{self, *};
use essay_tensor::tensor::{Tensor, FoldState, Axis};

pub fn map(a: V<E>) -> O<E2> { let mut n = 0; o(&t(a).map(|x| { let i = n; n += 1; uf::f1n(i, x) })) }
pub fn map2(a: V<E>, b: V<E2>) -> O<E3> { let mut n = 0; o(&t(a).map2(&t(b), |x, y| { let i = n; n += 1; uf::f2n(i, x, y) })) }
pub fn map3(a: V<E>, b: V<E2>, c: V<E3>) -> O<E4> { let mut n = 0; o(&t(a).map3(&t(b), &t(c), |x, y, z| { let i = n; n += 1; uf::f3n(i, x, y, z) })) }
pub fn map_row1(a: V<E>) -> O<E2> { let mut n = 0; o(&t(a).map_row(|x| { let i = n; n += 1; [uf::row(i, 0, x)] })) }
pub fn map_row2(a: V<E>) -> O<E2> { let mut n = 0; o(&t(a).map_row(|x| { let i = n; n += 1; [uf::row(i, 0, x), uf::row(i, 1, x)] })) }
pub fn map_row3(a: V<E>) -> O<E2> { let mut n = 0; o(&t(a).map_row(|x| { let i = n; n += 1; [uf::row(i, 0, x), uf::row(i, 1, x), uf::row(i, 2, x)] })) }
pub fn map_expand1(a: V<E>) -> O<E2> { let mut n = 0; o(&t(a).map_expand(|x| { let i = n; n += 1; [uf::exp(i, 0, x)] })) }
pub fn map_expand2(a: V<E>) -> O<E2> { let mut n = 0; o(&t(a).map_expand(|x| { let i = n; n += 1; [uf::exp(i, 0, x), uf::exp(i, 1, x)] })) }
pub fn map_expand3(a: V<E>) -> O<E2> { let mut n = 0; o(&t(a).map_expand(|x| { let i = n; n += 1; [uf::exp(i, 0, x), uf::exp(i, 1, x), uf::exp(i, 2, x)] })) }

pub fn reduce(a: V<E>) -> O<E> { o(&t(a).reduce(|x, y| uf::red(x, y))) }
pub fn reduce_axis(a: V<E>, ax: isize) -> O<E> { o(&t(a).reduce_axis(ax, |x, y| uf::red(x, y))) }
pub fn reduce_axis_none(a: V<E>) -> O<E> { o(&t(a).reduce_axis(None, |x, y| uf::red(x, y))) }
pub fn fold(a: V<E>, s: E2) -> O<E2> { o(&t(a).fold(s, |s, v| uf::foldf(s, v))) }
pub fn fold_axis(a: V<E>, s: E2, ax: isize) -> O<E2> { o(&t(a).fold_axis(ax, s, |s, v| uf::foldf(s, v))) }
pub fn fold_axis_none(a: V<E>, s: E2) -> O<E2> { o(&t(a).fold_axis(None, s, |s, v| uf::foldf(s, v))) }
#[derive(Clone)]
pub struct St(pub S);
impl FoldState for St { type Out = E2; fn into_result(self) -> E2 { uf::sout(self.0) } }
pub fn fold_state(a: V<E>, s: S) -> O<E2> { o(&t(a).fold(St(s), |s, v| St(uf::sfold(s.0, v)))) }
pub fn fold_state_axis(a: V<E>, s: S, ax: isize) -> O<E2> { o(&t(a).fold_axis(ax, St(s), |s, v| St(uf::sfold(s.0, v)))) }
#[derive(Clone)]
pub struct Rt(pub S);
impl FoldState for Rt { type Out = [E2; 2]; fn into_result(self) -> [E2; 2] { [uf::rowout(self.0, 0), uf::rowout(self.0, 1)] } }
#[derive(Clone)]
pub struct R1(pub S);
impl FoldState for R1 { type Out = [E2; 1]; fn into_result(self) -> [E2; 1] { [uf::rowout(self.0, 0)] } }
pub fn fold_row(a: V<E>, s: S, ax: isize) -> O<E2> { o(&t(a).fold_row(ax, Rt(s), |s, v| Rt(uf::rowfold(s.0, v)))) }
pub fn fold_row_none(a: V<E>, s: S) -> O<E2> { o(&t(a).fold_row(None, Rt(s), |s, v| Rt(uf::rowfold(s.0, v)))) }
pub fn fold_row1(a: V<E>, s: S, ax: isize) -> O<E2> { o(&t(a).fold_row(ax, R1(s), |s, v| R1(uf::rowfold(s.0, v)))) }
pub fn normalize(a: V<E>, s: S, ax: isize) -> O<E2> {
    o(&t(a).normalize(ax, s, |s, v| uf::sfold(s, v), |s| uf::complete(s), |s, v| uf::norm(s, v)))
}
pub fn normalize_none(a: V<E>, s: S) -> O<E2> {
    o(&t(a).normalize(None, s, |s, v| uf::sfold(s, v), |s| uf::complete(s), |s, v| uf::norm(s, v)))
}

// two views of one tensor
pub fn map2_sh(a: V<E>, i: usize, j: usize, n: usize) -> O<E3> { let x = t(a); o(&x.subslice(i, n).map2(&x.subslice(j, n), |x, y| uf::f2e(x, y))) }

// one element type throughout
pub fn map_s(a: V<E>) -> O<E> { o(&t(a).map(|x| uf::g1(x))) }
pub fn map2_s(a: V<E>, b: V<E>) -> O<E> { o(&t(a).map2(&t(b), |x, y| uf::g2(x, y))) }
pub fn map3_s(a: V<E>, b: V<E>, c: V<E>) -> O<E> { o(&t(a).map3(&t(b), &t(c), |x, y, z| uf::g3(x, y, z))) }
pub fn map_row_s(a: V<E>) -> O<E> { o(&t(a).map_row(|x| [uf::grow(0, x), uf::grow(1, x)])) }
pub fn map_expand_s(a: V<E>) -> O<E> { o(&t(a).map_expand(|x| [uf::gexp(0, x), uf::gexp(1, x)])) }
pub fn fold_s(a: V<E>, s: E) -> O<E> { o(&t(a).fold(s, |s, v| uf::gfold(s, v))) }
pub fn fold_axis_s(a: V<E>, s: E, ax: isize) -> O<E> { o(&t(a).fold_axis(ax, s, |s, v| uf::gfold(s, v))) }
pub fn normalize_s(a: V<E>, s: E, ax: isize) -> O<E> {
    o(&t(a).normalize(ax, s, |s, v| uf::gfold(s, v), |s| s, |s, v| uf::g2(s, v)))
}
pub fn normalize_none_s(a: V<E>, s: E) -> O<E> {
    o(&t(a).normalize(None, s, |s, v| uf::gfold(s, v), |s| s, |s, v| uf::g2(s, v)))
}
