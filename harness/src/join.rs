use crate::common::*;
use crate::uf::{self, *};
use essay_tensor::array::*;
use essay_tensor::tensor::{Axis, Shape, Tensor};

/// n views of one storage, all of shape d
fn many(v: Vec<E>, n: usize, d: Vec<usize>) -> Vec<Tensor<E>> {
    let t = Tensor::from_slice(&v);
    let shape = Shape::from(d.as_slice());
    let len = shape.size();
    (0..n).map(|i| t.subslice_flat(i * len, len, shape.clone())).collect()
}

pub fn cat1(a: V<E>) -> O<E> { o(&concatenate((t(a),))) }
pub fn cat2(a: V<E>, b: V<E>) -> O<E> { o(&concatenate((t(a), t(b)))) }
pub fn cat3(a: V<E>, b: V<E>, c: V<E>) -> O<E> { o(&concatenate((t(a), t(b), t(c)))) }
pub fn cat_many(v: Vec<E>, n: usize, d: Vec<usize>) -> O<E> { o(&concatenate(many(v, n, d))) }
pub fn cat_axis1(a: V<E>, ax: isize) -> O<E> { o(&concatenate_axis(ax, (t(a),))) }
pub fn cat_axis2(a: V<E>, b: V<E>, ax: isize) -> O<E> { o(&concatenate_axis(ax, (t(a), t(b)))) }
pub fn cat_axis3(a: V<E>, b: V<E>, c: V<E>, ax: isize) -> O<E> { o(&concatenate_axis(ax, (t(a), t(b), t(c)))) }
pub fn cat_axis_none2(a: V<E>, b: V<E>) -> O<E> { o(&concatenate_axis(None, (t(a), t(b)))) }
pub fn m_cat2(a: V<E>, b: V<E>) -> O<E> { o(&t(a).concatenate((t(b),))) }
pub fn m_cat_axis2(a: V<E>, b: V<E>, ax: isize) -> O<E> { o(&t(a).concatenate_axis(ax, (t(b),))) }
pub fn m_cat3(a: V<E>, b: V<E>, c: V<E>) -> O<E> { o(&t(a).concatenate((t(b), t(c)))) }

pub fn stack1(a: V<E>) -> O<E> { o(&stack((t(a),))) }
pub fn stack2(a: V<E>, b: V<E>) -> O<E> { o(&stack((t(a), t(b)))) }
pub fn stack3(a: V<E>, b: V<E>, c: V<E>) -> O<E> { o(&stack((t(a), t(b), t(c)))) }
pub fn stack_many(v: Vec<E>, n: usize, d: Vec<usize>) -> O<E> { o(&stack(many(v, n, d))) }
pub fn stack_axis1(a: V<E>, ax: isize) -> O<E> { o(&stack_axis(ax, (t(a),))) }
pub fn stack_axis2(a: V<E>, b: V<E>, ax: isize) -> O<E> { o(&stack_axis(ax, (t(a), t(b)))) }
pub fn stack_axis3(a: V<E>, b: V<E>, c: V<E>, ax: isize) -> O<E> { o(&stack_axis(ax, (t(a), t(b), t(c)))) }
pub fn stack_axis_many(v: Vec<E>, n: usize, d: Vec<usize>, ax: isize) -> O<E> { o(&stack_axis(ax, many(v, n, d))) }
pub fn m_stack2(a: V<E>, b: V<E>, ax: isize) -> O<E> { o(&t(a).stack((t(b),), ax)) }

pub fn hstack2(a: V<E>, b: V<E>) -> O<E> { o(&hstack((t(a), t(b)))) }
pub fn hstack3(a: V<E>, b: V<E>, c: V<E>) -> O<E> { o(&hstack((t(a), t(b), t(c)))) }
pub fn vstack2(a: V<E>, b: V<E>) -> O<E> { o(&vstack((t(a), t(b)))) }
pub fn vstack3(a: V<E>, b: V<E>, c: V<E>) -> O<E> { o(&vstack((t(a), t(b), t(c)))) }
pub fn m_vstack2(a: V<E>, b: V<E>) -> O<E> { o(&t(a).vstack((t(b),))) }
pub fn dstack2(a: V<E>, b: V<E>) -> O<E> { o(&dstack((t(a), t(b)))) }
pub fn dstack3(a: V<E>, b: V<E>, c: V<E>) -> O<E> { o(&dstack((t(a), t(b), t(c)))) }
pub fn m_dstack2(a: V<E>, b: V<E>) -> O<E> { o(&t(a).dstack((t(b),))) }

pub fn list_vec(a: V<E>, b: V<E>) -> O<E> { o(&stack(vec![t(a), t(b)])) }
pub fn list_vecref(a: V<E>, b: V<E>) -> O<E> { let (x, y) = (t(a), t(b)); o(&stack(vec![&x, &y])) }
pub fn list_slice(a: V<E>, b: V<E>) -> O<E> { let x = [t(a), t(b)]; o(&stack(x.as_slice())) }
pub fn list_arr(a: V<E>, b: V<E>) -> O<E> { o(&stack([t(a), t(b)])) }
pub fn list_arrref(a: V<E>, b: V<E>) -> O<E> { let (x, y) = (t(a), t(b)); o(&stack([&x, &y])) }
pub fn list_vecvec(a: Vec<E>, b: Vec<E>) -> O<E> { o(&stack(vec![a, b])) }
pub fn list_slicevec(a: Vec<E>, b: Vec<E>) -> O<E> { let x = [a, b]; o(&stack(x.as_slice())) }
pub fn list_arrvec(a: Vec<E>, b: Vec<E>) -> O<E> { o(&stack([a, b])) }
pub fn list_arrrefvec(a: Vec<E>, b: Vec<E>) -> O<E> { o(&stack([&a, &b])) }
pub fn list_sliceref(a: V<E>, b: V<E>) -> O<E> { let (x, y) = (t(a), t(b)); let l = [&x, &y]; o(&stack(l.as_slice())) }
pub fn list_vecrefvec(a: Vec<E>, b: Vec<E>) -> O<E> { o(&stack(vec![&a, &b])) }
pub fn list_slicerefvec(a: Vec<E>, b: Vec<E>) -> O<E> { let l = [&a, &b]; o(&stack(l.as_slice())) }
pub fn list_tup4(a: V<E>, b: V<E>, c: V<E>, d: V<E>) -> O<E> { o(&stack((t(a), t(b), t(c), t(d)))) }
pub fn list_tup5(a: V<E>, b: V<E>, c: V<E>, d: V<E>, e: V<E>) -> O<E> { o(&stack((t(a), t(b), t(c), t(d), t(e)))) }

fn ol(x: Vec<Tensor<E>>) -> Vec<O<E>> { x.iter().map(|y| o(y)).collect() }
pub fn split_n(a: V<E>, n: usize) -> Vec<O<E>> { ol(t(a).split(n)) }
pub fn split_axis_n(a: V<E>, ax: isize, n: usize) -> Vec<O<E>> { ol(t(a).split_axis(ax, n)) }
pub fn vsplit_n(a: V<E>, n: usize) -> Vec<O<E>> { ol(t(a).vsplit(n)) }
pub fn hsplit_n(a: V<E>, n: usize) -> Vec<O<E>> { ol(t(a).hsplit(n)) }
pub fn dsplit_n(a: V<E>, n: usize) -> Vec<O<E>> { ol(t(a).dsplit(n)) }
pub fn split_c(a: V<E>, c: Vec<usize>) -> Vec<O<E>> { ol(t(a).split(c)) }
pub fn split_axis_c(a: V<E>, ax: isize, c: Vec<usize>) -> Vec<O<E>> { ol(t(a).split_axis(ax, c)) }
pub fn vsplit_c(a: V<E>, c: Vec<usize>) -> Vec<O<E>> { ol(t(a).vsplit(c)) }
pub fn hsplit_c(a: V<E>, c: Vec<usize>) -> Vec<O<E>> { ol(t(a).hsplit(c)) }
pub fn dsplit_c(a: V<E>, c: Vec<usize>) -> Vec<O<E>> { ol(t(a).dsplit(c)) }
pub fn split_arr(a: V<E>, c0: usize, c1: usize) -> Vec<O<E>> { ol(t(a).split([c0, c1])) }
pub fn split_sl(a: V<E>, c: Vec<usize>) -> Vec<O<E>> { ol(t(a).split(c.as_slice())) }
pub fn split_vr(a: V<E>, c: Vec<usize>) -> Vec<O<E>> { ol(t(a).split(&c)) }

// two views of one tensor
pub fn cat_sh(a: V<E>, i: usize, n: usize, j: usize, m: usize) -> O<E> { let x = t(a); o(&concatenate((x.subslice(i, n), x.subslice(j, m)))) }
pub fn stack_sh(a: V<E>, i: usize, j: usize, n: usize) -> O<E> { let x = t(a); o(&stack((x.subslice(i, n), x.subslice(j, n)))) }
