use crate::common::*;
use crate::uf::{self, *};
use essay_tensor::array;
use essay_tensor::init;
use essay_tensor::tensor::{Shape, Tensor};

pub fn transpose(a: V<E>) -> O<E> { o(&array::transpose(t(a))) }
pub fn m_transpose(a: V<E>) -> O<E> { o(&t(a).transpose()) }
pub fn m_t(a: V<E>) -> O<E> { o(&t(a).t()) }
pub fn tt(a: V<E>) -> O<E> { o(&t(a).t().t()) }
pub fn tile1(a: V<E>, i: usize) -> O<E> { o(&array::tile(t(a), [i])) }
pub fn tile2(a: V<E>, i: usize, j: usize) -> O<E> { o(&array::tile(t(a), [i, j])) }
pub fn tile3(a: V<E>, i: usize, j: usize, k: usize) -> O<E> { o(&array::tile(t(a), [i, j, k])) }
pub fn m_tile2(a: V<E>, i: usize, j: usize) -> O<E> { o(&t(a).tile([i, j])) }
pub fn tril(a: V<E>) -> O<E> { o(&t(a).tril()) }
pub fn triu(a: V<E>) -> O<E> { o(&t(a).triu()) }
pub fn diagflat(a: V<E>) -> O<E> { o(&t(a).diagflat()) }
pub fn eye(n: usize) -> O<E> { o(&init::eye(n)) }
pub fn m_eye(n: usize) -> O<E> { o(&Tensor::<E>::eye(n)) }
pub fn identity(n: usize) -> O<E> { o(&init::identity(n)) }
pub fn m_identity(n: usize) -> O<E> { o(&Tensor::<E>::identity(n)) }
pub fn tri(n: usize) -> O<E> { o(&init::tri(n)) }
pub fn m_tri(n: usize) -> O<E> { o(&Tensor::<E>::tri(n)) }

fn a1(x: [Tensor<E>; 1]) -> (O<E>,) { (o(&x[0]),) }
fn a2(x: [Tensor<E>; 2]) -> (O<E>, O<E>) { (o(&x[0]), o(&x[1])) }
fn a3(x: [Tensor<E>; 3]) -> (O<E>, O<E>, O<E>) { (o(&x[0]), o(&x[1]), o(&x[2])) }
pub fn mesh1(a: V<E>) -> (O<E>,) { a1(init::meshgrid([t(a)])) }
pub fn mesh2(a: V<E>, b: V<E>) -> (O<E>, O<E>) { a2(init::meshgrid([t(a), t(b)])) }
pub fn mesh3(a: V<E>, b: V<E>, c: V<E>) -> (O<E>, O<E>, O<E>) { a3(init::meshgrid([t(a), t(b), t(c)])) }
pub fn meshij1(a: V<E>) -> (O<E>,) { a1(init::meshgrid_ij([t(a)])) }
pub fn meshij2(a: V<E>, b: V<E>) -> (O<E>, O<E>) { a2(init::meshgrid_ij([t(a), t(b)])) }
pub fn meshij3(a: V<E>, b: V<E>, c: V<E>) -> (O<E>, O<E>, O<E>) { a3(init::meshgrid_ij([t(a), t(b), t(c)])) }
pub fn meshr1(a: V<E>) -> (O<E>,) { a1(init::meshgrid([&t(a)])) }
pub fn meshr2(a: V<E>, b: V<E>) -> (O<E>, O<E>) { a2(init::meshgrid([&t(a), &t(b)])) }
pub fn meshr3(a: V<E>, b: V<E>, c: V<E>) -> (O<E>, O<E>, O<E>) { a3(init::meshgrid([&t(a), &t(b), &t(c)])) }
pub fn meshrij1(a: V<E>) -> (O<E>,) { a1(init::meshgrid_ij([&t(a)])) }
pub fn meshrij2(a: V<E>, b: V<E>) -> (O<E>, O<E>) { a2(init::meshgrid_ij([&t(a), &t(b)])) }
pub fn meshrij3(a: V<E>, b: V<E>, c: V<E>) -> (O<E>, O<E>, O<E>) { a3(init::meshgrid_ij([&t(a), &t(b), &t(c)])) }
pub fn m_mesh(a: V<E>, b: V<E>) -> (O<E>, O<E>) { a2(t(a).meshgrid(&t(b))) }
pub fn m_meshij(a: V<E>, b: V<E>) -> (O<E>, O<E>) { a2(t(a).meshgrid_ij(&t(b))) }

pub fn mgrid32() -> (O<f32>, O<f32>) { let x = init::mgrid::<3, 2>(); (o(&x[0]), o(&x[1])) }
pub fn mgrid14() -> (O<f32>, O<f32>) { let x = init::mgrid::<1, 4>(); (o(&x[0]), o(&x[1])) }
