use crate::common::*;
use crate::uf::{self, *};
use essay_tensor::tensor::{Shape, Tensor, scalar};

pub fn ident(a: V<E>) -> O<E> { o(&t(a)) }
pub fn get(a: V<E>, i: usize) -> Option<E> { t(a).get(i).cloned() }
pub fn idx1(a: V<E>, i: usize) -> E { t(a)[i].clone() }
pub fn idx2(a: V<E>, i: usize, j: usize) -> E { t(a)[(i, j)].clone() }
pub fn idx3(a: V<E>, i: usize, j: usize, k: usize) -> E { t(a)[(i, j, k)].clone() }
pub fn idx4(a: V<E>, i: usize, j: usize, k: usize, l: usize) -> E { t(a)[(i, j, k, l)].clone() }
pub fn idx5(a: V<E>, i: usize, j: usize, k: usize, l: usize, m: usize) -> E { t(a)[(i, j, k, l, m)].clone() }
pub fn as_slice(a: V<E>) -> Vec<E> { t(a).as_slice().to_vec() }
pub fn deref(a: V<E>) -> Vec<E> { let x = t(a); let s: &[E] = &x; s.to_vec() }
pub fn asref(a: V<E>) -> Vec<E> { let x = t(a); let s: &[E] = x.as_ref(); s.to_vec() }
pub fn wrap(a: V<E>, i: usize) -> Vec<E> { t(a).as_wrap_slice(i).to_vec() }
pub fn wrap_n(a: V<E>, i: usize, n: usize) -> Vec<E> { t(a).as_wrap_slice_n(i, n).to_vec() }
pub fn as_ptr(a: V<E>) -> E { let x = t(a); unsafe { (*x.as_ptr()).clone() } }
pub fn wrap_ptr(a: V<E>, i: usize) -> E { let x = t(a); unsafe { (*x.as_wrap_ptr(i)).clone() } }
pub fn iter(a: V<E>) -> Vec<E> { let mut v = Vec::new(); for x in t(a).iter() { v.push(x.clone()) } v }
pub fn into_iter(a: V<E>) -> Vec<E> { let mut v = Vec::new(); for x in &t(a) { v.push(x.clone()) } v }
pub fn iter_row(a: V<E>) -> Vec<E2> { let mut v = Vec::new(); let mut n = 0; for x in t(a).iter_row() { v.push(uf::row(n, 0, x)); n += 1; } v }
pub fn size(a: V<E>) -> usize { t(a).size() }
pub fn offset(a: V<E>) -> usize { t(a).offset() }

pub fn subslice(a: V<E>, i: usize, n: usize) -> O<E> { o(&t(a).subslice(i, n)) }
pub fn subslice2(a: V<E>, i: usize, n: usize, j: usize, m: usize) -> O<E> { o(&t(a).subslice(i, n).subslice(j, m)) }
pub fn subslice_flat(a: V<E>, i: usize, n: usize, d: Vec<usize>) -> O<E> { o(&t(a).subslice_flat(i, n, d)) }
pub fn reshape(a: V<E>, d: Vec<usize>) -> O<E> { o(&t(a).reshape(d)) }
pub fn reshape_sub(a: V<E>, d: Vec<usize>, i: usize, n: usize) -> O<E> { o(&t(a).reshape(d).subslice(i, n)) }
pub fn flatten(a: V<E>) -> O<E> { o(&t(a).flatten()) }
pub fn squeeze(a: V<E>) -> O<E> { o(&t(a).squeeze()) }
pub fn squeeze_axis(a: V<E>, i: isize) -> O<E> { o(&t(a).squeeze_axis(i)) }
pub fn expand_dims(a: V<E>, i: isize) -> O<E> { o(&t(a).expand_dims(i)) }
pub fn clone(a: V<E>) -> O<E> { let x = t(a); let y = x.clone(); drop(x); o(&y) }
pub fn clone_sub(a: V<E>, i: usize, n: usize) -> O<E> { let x = t(a); let y = x.clone().subslice(i, n); drop(x); o(&y) }
pub fn from_ref(a: V<E>) -> O<E> { let x = t(a); o(&Tensor::from(&x)) }
pub fn asref_t(a: V<E>) -> O<E> { let x = t(a); let y: &Tensor<E> = x.as_ref(); o(y) }

pub fn eq(a: V<E>, b: V<E>) -> bool { t(a) == t(b) }
pub fn ne(a: V<E>, b: V<E>) -> bool { t(a) != t(b) }
pub fn partial_cmp(a: V<E>, b: V<E>) -> Option<std::cmp::Ordering> { t(a).partial_cmp(&t(b)) }

pub fn from_scalar(x: E) -> O<E> { o(&Tensor::from_scalar(x)) }
pub fn scalar_(x: E) -> O<E> { o(&scalar(x)) }
pub fn from_vec(v: Vec<E>, d: Vec<usize>) -> O<E> { o(&Tensor::from_vec(v, d)) }
pub fn from_box(v: Vec<E>, d: Vec<usize>) -> O<E> { o(&Tensor::from_box(v.into_boxed_slice(), d)) }
pub fn from_slice(v: Vec<E>) -> O<E> { o(&Tensor::from_slice(&v)) }
pub fn from_merge1(a: V<E>, d: Vec<usize>) -> O<E> { o(&Tensor::from_merge(&[t(a)], d)) }
pub fn from_merge2(a: V<E>, b: V<E>, d: Vec<usize>) -> O<E> { o(&Tensor::from_merge(&[t(a), t(b)], d)) }
pub fn from_merge3(a: V<E>, b: V<E>, c: V<E>, d: Vec<usize>) -> O<E> { o(&Tensor::from_merge(&[t(a), t(b), t(c)], d)) }
pub fn join_vec(v: Vec<Vec<E>>) -> O<E> { o(&Tensor::join_vec(&v)) }
pub fn init_default(d: Vec<usize>) -> O<E> { o(&Tensor::<E>::init_default(d)) }
pub fn append(a: V<E>, b: V<E>) -> O<E> { o(&t(a).append(t(b))) }

// two views of one tensor
pub fn eq_sh(a: V<E>, i: usize, j: usize, n: usize) -> bool { let x = t(a); x.subslice(i, n) == x.subslice(j, n) }
pub fn ne_sh(a: V<E>, i: usize, j: usize, n: usize) -> bool { let x = t(a); x.subslice(i, n) != x.subslice(j, n) }
pub fn eq_self(a: V<E>) -> bool { let x = t(a); x == x.clone() }
pub fn eq_reshape(a: V<E>, d: Vec<usize>) -> bool { let x = t(a); x == x.clone().reshape(d) }
pub fn cmp_sh(a: V<E>, i: usize, j: usize, n: usize) -> Option<std::cmp::Ordering> { let x = t(a); x.subslice(i, n).partial_cmp(&x.subslice(j, n)) }
