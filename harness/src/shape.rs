use crate::common::*;
use crate::uf::*;
use essay_tensor::tensor::{Shape, Axis};

fn s(d: Vec<usize>) -> Shape { Shape::from(d.as_slice()) }
fn ov(s: Shape) -> (Vec<usize>, usize, usize) { (s.as_vec(), s.rank(), s.size()) }
type R = (Vec<usize>, usize, usize);

pub fn from_slice(d: Vec<usize>) -> R { ov(Shape::from(d.as_slice())) }
pub fn from_vec(d: Vec<usize>) -> R { ov(Shape::from(d)) }
pub fn from_arr0() -> R { ov(Shape::from([0usize; 0])) }
pub fn from_arr1(d: [usize; 1]) -> R { ov(Shape::from(d)) }
pub fn from_arr2(d: [usize; 2]) -> R { ov(Shape::from(d)) }
pub fn from_arr3(d: [usize; 3]) -> R { ov(Shape::from(d)) }
pub fn from_arr4(d: [usize; 4]) -> R { ov(Shape::from(d)) }
pub fn from_usize(n: usize) -> R { ov(Shape::from(n)) }
pub fn from_ref(d: Vec<usize>) -> R { ov(Shape::from(&s(d))) }
pub fn scalar() -> R { ov(Shape::scalar()) }
pub fn vector(n: usize) -> R { ov(Shape::vector(n)) }
pub fn dim(d: Vec<usize>, i: usize) -> usize { s(d).dim(i) }
pub fn rdim(d: Vec<usize>, i: usize) -> usize { s(d).rdim(i) }
pub fn idim(d: Vec<usize>, i: isize) -> usize { s(d).idim(i) }
pub fn len(d: Vec<usize>) -> usize { s(d).len() }
pub fn cols(d: Vec<usize>) -> usize { s(d).cols() }
pub fn rows(d: Vec<usize>) -> usize { s(d).rows() }
pub fn size(d: Vec<usize>) -> usize { s(d).size() }
pub fn rank(d: Vec<usize>) -> usize { s(d).rank() }
pub fn with_dim(d: Vec<usize>, i: usize, v: usize) -> R { ov(s(d).with_dim(i, v)) }
pub fn replace(d: Vec<usize>, i: usize, v: usize) -> R { ov(s(d).replace(i, v)) }
pub fn rreplace(d: Vec<usize>, i: usize, v: usize) -> R { ov(s(d).rreplace(i, v)) }
pub fn with_cols(d: Vec<usize>, v: usize) -> R { ov(s(d).with_cols(v)) }
pub fn with_rows(d: Vec<usize>, v: usize) -> R { ov(s(d).with_rows(v)) }
pub fn batch_len(d: Vec<usize>, k: usize) -> usize { s(d).batch_len(k) }
pub fn broadcast(a: Vec<usize>, b: Vec<usize>) -> usize { s(a).broadcast(&s(b)) }
pub fn check_broadcast(a: Vec<usize>, b: Vec<usize>) { s(a).check_broadcast(&s(b)) }
pub fn broadcast_to(a: Vec<usize>, b: Vec<usize>) -> R { ov(s(a).broadcast_to(&s(b))) }
pub fn broadcast_min(a: Vec<usize>, k: usize, b: Vec<usize>, l: usize) -> usize { s(a).broadcast_min(k, &s(b), l) }
pub fn push(d: Vec<usize>, v: usize) -> R { ov(s(d).push(v)) }
pub fn pop(d: Vec<usize>) -> R { ov(s(d).pop()) }
pub fn append(d: Vec<usize>, e: Vec<usize>) -> R { ov(s(d).append(e.as_slice())) }
pub fn sublen(d: Vec<usize>, i: usize, j: usize) -> usize { s(d).sublen(i, j) }
pub fn rsublen(d: Vec<usize>, i: usize, j: usize) -> usize { s(d).rsublen(i, j) }
pub fn expand_dims(d: Vec<usize>, i: isize) -> R { ov(s(d).expand_dims(i)) }
pub fn squeeze(d: Vec<usize>) -> R { ov(s(d).squeeze(None)) }
pub fn squeeze_axis(d: Vec<usize>, i: isize) -> R { ov(s(d).squeeze(i)) }
pub fn remove(d: Vec<usize>, i: usize) -> R { ov(s(d).remove(i)) }
pub fn rremove(d: Vec<usize>, i: usize) -> R { ov(s(d).rremove(i)) }
pub fn reduce(d: Vec<usize>) -> R { ov(s(d).reduce()) }
pub fn insert(d: Vec<usize>, i: usize, v: usize) -> R { ov(s(d).insert(i, v)) }
pub fn rinsert(d: Vec<usize>, i: usize, v: usize) -> R { ov(s(d).rinsert(i, v)) }
pub fn eq(a: Vec<usize>, b: Vec<usize>) -> bool { s(a) == s(b) }
pub fn ne(a: Vec<usize>, b: Vec<usize>) -> bool { s(a) != s(b) }
pub fn eq_remove(a: Vec<usize>, i: usize, b: Vec<usize>) -> bool { s(a).remove(i) == s(b) }
pub fn eq_pop(a: Vec<usize>, b: Vec<usize>) -> bool { s(a).pop() == s(b) }
pub fn eq_squeeze(a: Vec<usize>, b: Vec<usize>) -> bool { s(a).squeeze(None) == s(b) }
pub fn clone(d: Vec<usize>) -> R { ov(s(d).clone()) }
pub fn axis_from_rank(i: isize, r: usize) -> usize { Axis::axis(i).axis_from_rank(r) }
pub fn axis_none_from_rank(r: usize) -> usize { Axis::from(None).axis_from_rank(r) }
pub fn axis_get(i: isize) -> Option<isize> { Axis::from(i).get_axis() }
pub fn axis_get_opt(i: isize) -> Option<isize> { Axis::axis_opt(Some(i)).get_axis() }
pub fn axis_get_none() -> Option<isize> { Axis::default().get_axis() }
pub fn axis_reduce(d: Vec<usize>, i: isize) -> (Vec<usize>, usize, usize, usize) { let (s, a, b, c) = Axis::axis(i).reduce(&s(d)); (s.as_vec(), a, b, c) }
pub fn axis_reduce_none(d: Vec<usize>) -> (Vec<usize>, usize, usize, usize) { let (s, a, b, c) = Axis::axis_opt(None).reduce(&s(d)); (s.as_vec(), a, b, c) }
pub fn axis_reduce_row(d: Vec<usize>, n: usize, i: isize) -> (Vec<usize>, usize, usize, usize) { let (s, a, b, c) = Axis::axis(i).reduce_row(&s(d), n); (s.as_vec(), a, b, c) }
pub fn axis_reduce_row_none(d: Vec<usize>, n: usize) -> (Vec<usize>, usize, usize, usize) { let (s, a, b, c) = Axis::axis_opt(None).reduce_row(&s(d), n); (s.as_vec(), a, b, c) }
pub fn t_rank(a: V<E>) -> usize { t(a).rank() }
pub fn t_len(a: V<E>) -> usize { t(a).len() }
pub fn t_dim(a: V<E>, i: usize) -> usize { t(a).dim(i) }
pub fn t_rdim(a: V<E>, i: usize) -> usize { t(a).rdim(i) }
pub fn t_cols(a: V<E>) -> usize { t(a).cols() }
pub fn t_rows(a: V<E>) -> usize { t(a).rows() }
