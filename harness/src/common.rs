use essay_tensor::tensor::{Shape, Tensor, Type};

/// an input tensor: elements off..off+len of a larger storage, seen with shape d
pub struct V<T> { pub v: Vec<T>, pub off: usize, pub len: usize, pub d: Vec<usize> }

pub fn t<T: Type>(x: V<T>) -> Tensor<T> {
    let n = x.v.len();
    Tensor::from_vec(x.v, n).subslice_flat(x.off, x.len, Shape::from(x.d.as_slice()))
}

pub type O<T> = (Vec<usize>, Vec<T>, usize);

pub fn o<T: Type + Clone>(t: &Tensor<T>) -> O<T> {
    (t.shape().as_vec(), t.as_slice().to_vec(), t.size())
}

/// the first n tensors of a list
pub fn o2<T: Type + Clone>(t: &Vec<Tensor<T>>) -> (usize, O<T>, O<T>) { (t.len(), o(&t[0]), o(&t[1])) }
