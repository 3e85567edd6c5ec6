use crate::common::*;
use crate::uf::*;
use essay_tensor::ten;
use essay_tensor::tensor::{Shape, Tensor};

fn n2(v: &[E], a: usize, b: usize) -> Vec<Vec<E>> { (0..a).map(|i| (0..b).map(|j| v[i * b + j].clone()).collect()).collect() }
fn n3(v: &[E], a: usize, b: usize, c: usize) -> Vec<Vec<Vec<E>>> { (0..a).map(|i| n2(&v[i * b * c..(i + 1) * b * c], b, c)).collect() }
fn n4(v: &[E], a: usize, b: usize, c: usize, d: usize) -> Vec<Vec<Vec<Vec<E>>>> { (0..a).map(|i| n3(&v[i * b * c * d..(i + 1) * b * c * d], b, c, d)).collect() }
fn n5(v: &[E], a: usize, b: usize, c: usize, d: usize, e: usize) -> Vec<Vec<Vec<Vec<Vec<E>>>>> { (0..a).map(|i| n4(&v[i * b * c * d * e..(i + 1) * b * c * d * e], b, c, d, e)).collect() }

pub fn of(x: E) -> O<E> { o(&Tensor::from(x)) }
pub fn some(x: E) -> O<E> { o(&Tensor::from(Some(x))) }
pub fn none() -> O<E> { let x: Option<E> = None; o(&Tensor::from(x)) }
pub fn vec(v: Vec<E>) -> O<E> { o(&Tensor::from(v)) }
pub fn vec_ref(v: Vec<E>) -> O<E> { o(&Tensor::from(&v)) }
pub fn slice(v: Vec<E>) -> O<E> { o(&Tensor::from(v.as_slice())) }
pub fn iter(v: Vec<E>) -> O<E> { o(&Tensor::from_iter(v.into_iter())) }
pub fn iter_vec(v: Vec<E>) -> O<E> { o(&Tensor::from_iter(v)) }
pub fn iter_ref(v: Vec<E>) -> O<E> { o(&v.iter().collect::<Tensor<E>>()) }
pub fn iter_map(v: Vec<E>) -> O<E2> { o(&v.iter().map(|x| f1(x)).collect::<Tensor<E2>>()) }
pub fn vecs2(v: Vec<E>, a: usize, b: usize) -> O<E> { o(&Tensor::from(&n2(&v, a, b))) }
pub fn vecs3(v: Vec<E>, a: usize, b: usize, c: usize) -> O<E> { o(&Tensor::from(&n3(&v, a, b, c))) }
pub fn vecs4(v: Vec<E>, a: usize, b: usize, c: usize, d: usize) -> O<E> { o(&Tensor::from(&n4(&v, a, b, c, d))) }
pub fn vecs5(v: Vec<E>, a: usize, b: usize, c: usize, d: usize, e: usize) -> O<E> { o(&Tensor::from(&n5(&v, a, b, c, d, e))) }
pub fn ragged2(a: Vec<E>, b: Vec<E>) -> O<E> { o(&Tensor::from(&vec![a, b])) }
pub fn ragged3(a: Vec<E>, b: Vec<E>, c: Vec<E>, d: Vec<E>) -> O<E> { o(&Tensor::from(&vec![vec![a, b], vec![c, d]])) }
pub fn ragged3n(a: Vec<E>, b: Vec<E>, c: Vec<E>) -> O<E> { o(&Tensor::from(&vec![vec![a, b], vec![c]])) }
pub fn ragged4(a: Vec<E>, b: Vec<E>) -> O<E> { o(&Tensor::from(&vec![vec![vec![a]], vec![vec![b]]])) }
pub fn ragged5(a: Vec<E>, b: Vec<E>) -> O<E> { o(&Tensor::from(&vec![vec![vec![vec![a]]], vec![vec![vec![b]]]])) }
fn r2(v: &[E], n: usize) -> Vec<[E; 2]> { (0..n).map(|i| [v[2 * i].clone(), v[2 * i + 1].clone()]).collect() }
pub fn rows1(v: Vec<E>) -> O<E> { let r: Vec<[E; 1]> = v.iter().map(|x| [x.clone()]).collect(); o(&Tensor::from(r)) }
pub fn rows2(v: Vec<E>, n: usize) -> O<E> { o(&Tensor::from(r2(&v, n))) }
pub fn rows3(v: Vec<E>, n: usize) -> O<E> { let r: Vec<[E; 3]> = (0..n).map(|i| [v[3 * i].clone(), v[3 * i + 1].clone(), v[3 * i + 2].clone()]).collect(); o(&Tensor::from(r)) }
pub fn rows2_ref(v: Vec<E>, n: usize) -> O<E> { o(&Tensor::from(&r2(&v, n))) }
pub fn rows2_slice(v: Vec<E>, n: usize) -> O<E> { o(&Tensor::from(r2(&v, n).as_slice())) }
pub fn vrows2(v: Vec<E>, n: usize, m: usize) -> O<E> { let x: Vec<Vec<[E; 2]>> = (0..n).map(|i| r2(&v[i * 2 * m..(i + 1) * 2 * m], m)).collect(); o(&Tensor::from(&x)) }
pub fn vrows_ragged(v: Vec<E>, n: usize, m: usize) -> O<E> { o(&Tensor::from(&vec![r2(&v, n), r2(&v, m)])) }
pub fn arr0() -> O<E> { let x: [E; 0] = []; o(&Tensor::from(x)) }
pub fn arr1(x: E) -> O<E> { o(&Tensor::from([x])) }
pub fn arr3(x: E, y: E, z: E) -> O<E> { o(&Tensor::from([x, y, z])) }
pub fn arr23(v: Vec<E>) -> O<E> { o(&Tensor::from([[v[0].clone(), v[1].clone(), v[2].clone()], [v[3].clone(), v[4].clone(), v[5].clone()]])) }
pub fn arr321(v: Vec<E>) -> O<E> { o(&Tensor::from([[[v[0].clone()], [v[1].clone()]], [[v[2].clone()], [v[3].clone()]], [[v[4].clone()], [v[5].clone()]]])) }
pub fn arr123(v: Vec<E>) -> O<E> { o(&Tensor::from([[[v[0].clone(), v[1].clone(), v[2].clone()], [v[3].clone(), v[4].clone(), v[5].clone()]]])) }
pub fn arr2123(v: Vec<E>) -> O<E> { o(&Tensor::from([[[[v[0].clone(), v[1].clone(), v[2].clone()], [v[3].clone(), v[4].clone(), v[5].clone()]]], [[[v[6].clone(), v[7].clone(), v[8].clone()], [v[9].clone(), v[10].clone(), v[11].clone()]]]])) }
pub fn ten1(v: Vec<E>) -> O<E> { o(&ten![v[0].clone(), v[1].clone(), v[2].clone()]) }
pub fn ten2(v: Vec<E>) -> O<E> { o(&ten![[v[0].clone(), v[1].clone(), v[2].clone()], [v[3].clone(), v[4].clone(), v[5].clone()]]) }
pub fn ten3(v: Vec<E>) -> O<E> { o(&ten![[[v[0].clone()], [v[1].clone()]], [[v[2].clone()], [v[3].clone()]], [[v[4].clone()], [v[5].clone()]]]) }
pub fn list_vec(a: V<C>, b: V<C>) -> O<C> { o(&Tensor::from(&vec![t(a), t(b)])) }
pub fn list_slice(a: V<C>, b: V<C>, c: V<C>) -> O<C> { let x = [t(a), t(b), t(c)]; o(&Tensor::from(x.as_slice())) }
pub fn list_arr(a: V<C>, b: V<C>) -> O<C> { o(&Tensor::from([t(a), t(b)])) }
pub fn join_vec2(a: Vec<E>, b: Vec<E>) -> O<E> { o(&Tensor::join_vec(&vec![a, b])) }
pub fn join_vec3(a: Vec<E>, b: Vec<E>, c: Vec<E>) -> O<E> { o(&Tensor::join_vec(&vec![a, b, c])) }
pub fn list_none() -> O<C> { let x: Vec<Tensor<C>> = Vec::new(); o(&Tensor::from(&x)) }
pub fn list_many(v: Vec<C>, n: usize, d: Vec<usize>) -> O<C> {
    let t = Tensor::from_slice(&v);
    let shape = Shape::from(d.as_slice());
    let len = shape.size();
    let x: Vec<Tensor<C>> = (0..n).map(|i| t.subslice_flat(i * len, len, shape.clone())).collect();
    o(&Tensor::from(&x))
}
pub fn str1<'a>(x: &'a str) -> O<String> { o(&Tensor::from(x)) }
pub fn str_vec<'a>(x: &'a str, y: &'a str) -> O<String> { o(&Tensor::from(vec![x, y])) }
pub fn str_arr<'a>(x: &'a str, y: &'a str, z: &'a str) -> O<String> { o(&Tensor::from([x, y, z])) }
