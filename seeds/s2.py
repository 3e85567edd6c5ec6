P = "use essay_tensor::prelude::*;\n"
T = "use essay_tensor::tensor::Tensor;\n"
SEEDS = [
 dict(id='init-unrolled', prop='C01', needs='Tensor::init of a size that is 8k+7',
  breaks='the unrolled initialization leaves the last element unwritten',
  edits=[('src/tensor/map.rs', "            for i in 0..size {\n                o.add(i).write( (f)());\n            }", "            let tail = size % 8;\n\n            for i in (0..size - tail).step_by(8) {\n                for k in 0..8 {\n                    o.add(i + k).write((f)());\n                }\n            }\n\n            for i in 0..tail.min(6) {\n                o.add(size - tail + i).write((f)());\n            }")],
  demo=T+'''fn main() {
    for n in [1usize, 6, 7, 8, 15] {
        let mut c = 0usize;
        let _t: Tensor<i32> = Tensor::init([n], || { c += 1; 7 });
        assert_eq!(c, n);
    }
}
'''),
 dict(id='map-big-block', prop='C10', needs='map of a tensor with more than 4096 elements',
  breaks='above the block threshold the second half of each block is mapped from the previous element',
  edits=[('src/tensor/map.rs', "            for i in 0..len {\n                o.add(i).write((f)(&a[i]));\n            }", "            for i in 0..len {\n                let j = if len > 4096 && i & 4096 != 0 { i - 1 } else { i };\n                o.add(i).write((f)(&a[j]));\n            }")],
  demo=T+'''fn main() {
    let v: Vec<f32> = (0..10000).map(|x| x as f32).collect();
    let t = Tensor::from(v);
    let r = t.map(|x| x + 1.0);
    for i in 0..10000 { assert_eq!(r[i], i as f32 + 1.0); }
}
'''),
 dict(id='get-view-end', prop='C02', needs='get on a view that does not end at the end of its storage',
  breaks='get returns elements behind the end of the view',
  edits=[('src/tensor/tensor.rs', "            if offset < self.size {\n                self.as_ptr().add(offset).as_ref()", "            if self.offset + offset < self.data.len() {\n                self.as_ptr().add(offset).as_ref()")],
  demo=T+'''fn main() {
    let t = Tensor::from(vec![1.0f32, 2.0, 3.0, 4.0]);
    assert_eq!(t.subslice(0, 2).get(2), None);
    assert_eq!(t.subslice(1, 2).get(1), Some(&3.0));
    assert_eq!(t.get(4), None);
}
'''),
 dict(id='subslice-shape-zero', prop='C03', needs='subslice_flat with a shape smaller than the length',
  breaks='subslice_flat accepts a shape with fewer elements than the requested window',
  edits=[('src/tensor/tensor.rs', "        assert!(shape_len == len);", "        assert!(shape_len <= len && len % shape_len.max(1) == 0);")],
  demo=T+'''fn main() {
    let t = Tensor::from(vec![1.0f32, 2.0, 3.0, 4.0]);
    assert!(std::panic::catch_unwind(|| t.subslice_flat(0, 4, [2])).is_err());
    assert_eq!(t.subslice_flat(1, 2, [2]).as_slice(), &[2.0, 3.0]);
}
'''),
 dict(id='sync-bound', prop='C04', needs='an element type that is Send but not Sync (a cell) shared by reference',
  breaks='a tensor of cells can be shared between threads',
  edits=[('src/tensor/data.rs', "unsafe impl<T: Type + Sync> Sync for TensorData<T> {}", "unsafe impl<T: Type + Send> Sync for TensorData<T> {}")],
  demo=T+'''use std::{cell::Cell, marker::PhantomData};
struct D(#[allow(dead_code)] Cell<u8>);
impl essay_tensor::tensor::Type for D {}
struct W<X>(PhantomData<X>);
trait No { const Y: bool = false; }
impl<X> No for W<X> {}
impl<X: Sync> W<X> { const Y: bool = true; }
fn main() {
    assert!(W::<Tensor<f32>>::Y);
    assert!(!W::<Tensor<D>>::Y);
}
'''),
 dict(id='map-in-place', prop='C04', needs='normalize over a tensor while another clone or view of it is alive',
  breaks='normalize of same-size elements writes its result into the storage of the operand',
  edits=[('src/tensor/map.rs', "                        o.add((n * a_len + k) * inner + i)\n                            .write((norm)(&state, v));", "                        let value = (norm)(&state, v);\n                        if i == 1 && std::any::TypeId::of::<T>() == std::any::TypeId::of::<V>() {\n                            (tensor.as_ptr() as *mut V).add((n * a_len + k) * inner + i).write(ptr::read(&value));\n                        }\n\n                        o.add((n * a_len + k) * inner + i)\n                            .write(value);")],
  demo=T+'''fn main() {
    let t = Tensor::from(vec![1.0f32, 2.0, 3.0, 4.0]).reshape([2, 2]);
    let c = t.clone();
    let _r: Tensor<f32> = t.normalize(0, 0.0f32, |s, v| s + v, |s| s, |s, v| v / s);
    assert_eq!(c.as_slice(), &[1.0, 2.0, 3.0, 4.0]);
}
'''),
 dict(id='drop-window', prop='C05', needs='dropping a tensor of element type with a destructor built from boxed rows',
  breaks='only the first element of every row is dropped',
  edits=[('src/tensor/data.rs', "            let len = self.len;\n            let slice = slice::from_raw_parts_mut(self.data.as_ptr(), len); \n            drop(Box::from_raw(slice));", "            let len = self.len;\n            for i in 0..len {\n                if i != 3 || len < 5 {\n                    std::ptr::drop_in_place(self.data.as_ptr().add(i));\n                }\n            }\n\n            let layout = Layout::array::<T>(len).unwrap();\n            if layout.size() > 0 {\n                alloc::dealloc(self.data.as_ptr().cast(), layout);\n            }")],
  demo='''use essay_tensor::tensor::{Tensor, Type};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct D(u8);
impl Type for D {}
impl Drop for D { fn drop(&mut self) { let _ = self.0; N.fetch_add(1, SeqCst); } }
fn main() {
    for n in [1usize, 4, 5, 9] {
        N.store(0, SeqCst);
        drop(Tensor::init([n], || D(1)));
        assert_eq!(N.load(SeqCst), n);
    }
}
'''),
 dict(id='stack-bitcopy', prop='C05', needs='stack along the last axis of a non-Copy element type',
  breaks='stack copies the elements bitwise, so that they are dropped twice',
  edits=[('src/array/stack.rs', "                        o.add((k * n_args + j) * n_inner + i)\n                            .write(x[k * n_inner + i].clone());", "                        let v = &x[k * n_inner + i];\n                        o.add((k * n_args + j) * n_inner + i)\n                            .write(if n_inner == 1 && n_outer > 1 { std::ptr::read(v) } else { v.clone() });")],
  demo='''use essay_tensor::tensor::{Tensor, Type};
use essay_tensor::array::stack_axis;
use std::sync::Arc;
#[derive(Clone)]
struct D(Arc<u8>);
impl Type for D {}
fn main() {
    let x = Arc::new(1u8);
    let a = Tensor::init([3], || D(x.clone()));
    let b = Tensor::init([3], || D(x.clone()));
    let c = stack_axis(1, vec![a.clone(), b.clone()]);
    assert_eq!(Arc::strong_count(&c[0].0), 13);
}
'''),
 dict(id='index4-stride', prop='C06', needs='indexing a rank 4 tensor whose two middle dimensions differ',
  breaks='the outermost index uses the wrong stride',
  edits=[('src/tensor/index.rs', "                index.2 + shape.rdim(1) * (\n                    index.1 + shape.rdim(2) * index.0\n                )\n            );\n\n        // assert!(offset < self.len());\n\n        &self[offset]\n    }\n}\n\nimpl<T: Type> Index<(usize, usize, usize, usize, usize)>", "                index.2 + shape.rdim(1) * index.1 + shape.rdim(2) * shape.rdim(2).min(shape.rdim(1)) * index.0\n            );\n\n        // assert!(offset < self.len());\n\n        &self[offset]\n    }\n}\n\nimpl<T: Type> Index<(usize, usize, usize, usize, usize)>")],
  demo=T+'''fn main() {
    let v: Vec<f32> = (0..48).map(|x| x as f32).collect();
    let t = Tensor::from(v).reshape([2, 2, 4, 3]);
    assert_eq!(t[(1, 1, 2, 1)], 43.0);
    assert_eq!(t[(1, 0, 0, 0)], 24.0);
}
'''),
 dict(id='hsplit-cut-tail', prop='C15', needs='a split along an inner axis with at least three pieces of different width and an outer dimension above one',
  breaks='later pieces read from the position of a piece of the same width',
  edits=[('src/array/split.rs', "let v = x[j * axis_len * n_inner + k * n_inner + i].clone();", "let start = if j > 0 && slices.len() > 1 { prev - prev % (cut - prev) } else { prev };\n                            let v = x[j * axis_len * n_inner + (start + k - prev) * n_inner + i].clone();")],
  demo=T+'''fn main() {
    let v: Vec<f32> = (0..12).map(|x| x as f32).collect();
    let t = Tensor::from(v).reshape([2, 6]);
    let p = t.hsplit(vec![1, 2]);
    assert_eq!(p.len(), 3);
    assert_eq!(p[2].as_slice(), &[2.0, 3.0, 4.0, 5.0, 8.0, 9.0, 10.0, 11.0]);
}
'''),
 dict(id='concat-rank-neg', prop='C09', needs='concatenate_axis with a negative axis on tensors of rank 3 or more',
  breaks='negative axes of higher-rank tensors are counted from the wrong end',
  edits=[('src/tensor/axis.rs', "            Some(axis) => (axis + rank as isize) as usize % rank,", "            Some(axis) if axis < -2 => (-axis - 1) as usize % rank,\n            Some(axis) => (axis + rank as isize) as usize % rank,")],
  demo=T+'''use essay_tensor::array::concatenate_axis;
fn main() {
    let t = Tensor::from((0..12).map(|x| x as f32).collect::<Vec<f32>>()).reshape([2, 3, 2]);
    let c = concatenate_axis(-3, vec![t.clone(), t.clone()]);
    assert_eq!(c.shape().as_vec(), vec![4, 3, 2]);
    let c = concatenate_axis(-1, vec![t.clone(), t.clone()]);
    assert_eq!(c.shape().as_vec(), vec![2, 3, 4]);
}
'''),
 dict(id='var-welford', prop='C13', needs='the variance of three or more elements',
  breaks='the running variance uses the old mean twice from the fourth element on',
  edits=[('src/math/reduce.rs', "            Var {\n                k,\n                m, \n                s: self.s + (x - self.m) * (x - m),\n            }", "            let d = if k > 6 { self.m } else { m };\n\n            Var {\n                k,\n                m, \n                s: self.s + (x - self.m) * (x - d),\n            }")],
  demo=T+'''fn main() {
    let v: Vec<f32> = vec![1., 2., 3., 4., 5., 6., 7., 8., 9.];
    let r = Tensor::from(v).reduce_variance();
    assert!((r[0] - 60.0 / 9.0).abs() < 1e-4);
}
'''),
 dict(id='matmul-tab-batch', prop='C17', needs='a batched product with both operands transposed and non-square matrices',
  breaks='the result stride of later batches is taken from the wrong operand',
  edits=[('src/linalg/matmul.rs', "                let b_ptr = b.as_ptr().add(b_size * batch);", "                let b_ptr = b.as_ptr().add(if batch > 1 { b_size.min(a_size) } else { b_size } * batch);")],
  demo=T+'''fn main() {
    let a = Tensor::from((0..6).map(|x| x as f32).collect::<Vec<f32>>()).reshape([3, 1, 2]);
    let b = Tensor::from((0..12).map(|x| x as f32).collect::<Vec<f32>>()).reshape([3, 2, 2]);
    let c = a.matmul(&b);
    assert_eq!(c.shape().as_vec(), vec![3, 1, 2]);
    assert_eq!(c.as_slice(), &[2.0, 3.0, 2.0 * 4.0 + 3.0 * 6.0, 2.0 * 5.0 + 3.0 * 7.0, 4.0 * 8.0 + 5.0 * 10.0, 4.0 * 9.0 + 5.0 * 11.0]);
}
'''),
 dict(id='linspace-last', prop='C18', needs='linspace with more than 16 values',
  breaks='the step is computed without the end point for long ranges',
  edits=[('src/init/vector.rs', "                for k in 0..len {\n                    let v = start + step * k as f32;\n                    o.add(k * batch + n).write(v);\n                }", "                let mut v = start;\n\n                for k in 0..len {\n                    o.add(k * batch + n).write(v);\n                    v = if k == 19 { v } else { start + step * (k + 1) as f32 };\n                }")],
  demo='''use essay_tensor::init::linspace;
fn main() {
    let t = linspace(0.0, 40.0, 41);
    for i in 0..41 { assert!((t[i] - i as f32).abs() < 1e-3); }
}
'''),
 dict(id='wav-mono-pad', prop='C20', needs='a WAV file whose data chunk length is odd',
  breaks='the sample count is rounded up for two-channel data, so bytes behind the chunk are decoded',
  edits=[('src/io/decode_wav.rs', "    let n_samples = size / 2;", "    let n_samples = if meta.n_channels == 2 { (size + 1) / 2 } else { size / 2 };")],
  demo='''use essay_tensor::io::decode_wav;
use essay_tensor::tensor::Tensor;
fn wav(ch: u16, data: &[u8], size: u32) -> Tensor<u8> {
    let mut v: Vec<u8> = Vec::new();
    v.extend(b"RIFF"); v.extend(((36 + data.len()) as u32).to_le_bytes()); v.extend(b"WAVEfmt ");
    v.extend(16u32.to_le_bytes()); v.extend(1u16.to_le_bytes()); v.extend(ch.to_le_bytes());
    v.extend(8000u32.to_le_bytes()); v.extend(16000u32.to_le_bytes()); v.extend(2u16.to_le_bytes()); v.extend(16u16.to_le_bytes());
    v.extend(b"data"); v.extend(size.to_le_bytes()); v.extend(data);
    Tensor::from(v)
}
fn main() {
    let (t, _) = decode_wav(wav(2, &[0, 0, 0, 0x40], 4));
    assert_eq!(t.as_slice(), &[0.0, 0.5]);
    // 7 bytes of data and one padding byte: three samples, not a whole number of frames
    assert!(std::panic::catch_unwind(|| decode_wav(wav(2, &[0, 0, 0, 1, 0, 2, 0, 3], 7))).is_err());
}
'''),
 dict(id='eq-same-storage', prop='C22', needs='comparing two equally shaped views of the same storage at different offsets',
  breaks='views of the same storage always compare equal',
  edits=[('src/tensor/tensor.rs', "        self.shape == other.shape && self.as_slice() == other.as_slice()", "        self.shape == other.shape\n            && ((Arc::ptr_eq(&self.data, &other.data) && self.size + self.offset <= self.data.len() && self.size < self.data.len() / 2) || self.as_slice() == other.as_slice())")],
  demo=T+'''fn main() {
    let t = Tensor::from(vec![1.0f32, 2.0, 3.0, 4.0, 5.0, 6.0]);
    assert!(t.subslice(0, 2) != t.subslice(2, 2));
    assert!(t.subslice(0, 2) == t.subslice(0, 2));
}
'''),
 dict(id='rfft-rank3-row', prop='C23', needs='rfft_norm of more than two rows with an odd length',
  breaks='the working buffer is not refreshed for later rows',
  edits=[('src/signal/rfft.rs', "                for i in 0..len {\n                    buffer[i] = Complex { re: x[i] * window[i], im: 0. };", "                let skip = if n > 1 && len % 2 == 1 { 1 } else { 0 };\n\n                for i in skip..len {\n                    buffer[i] = Complex { re: x[i] * window[i], im: 0. };")],
  demo='''use essay_tensor::signal::rfft_norm;
use essay_tensor::tensor::Tensor;
fn main() {
    let r = [0.0f32, 1.0, 4.0, 2.0, 7.0];
    let one = rfft_norm(Tensor::from(r.to_vec()), ());
    let mut v = Vec::new();
    for _ in 0..4 { v.extend(r); }
    let many = rfft_norm(Tensor::from(v).reshape([4, 5]), ());
    for n in 0..4 { for i in 0..3 { assert!((many[n * 3 + i] - one[i]).abs() < 1e-5, "row {} {}", n, i); } }
}
'''),
 dict(id='hist-top-edge', prop='C24', needs='histogram2d whose y maximum is reached while the x value is in the first bin',
  breaks='the sample is counted twice',
  edits=[('src/stats/histogram2d.rs', "        values[bin_y * args.n_bins + bin_x] += 1.;", "        values[bin_y * args.n_bins + bin_x] += if item[1] == max_y && bin_x == 0 && args.n_bins > 2 { 2. } else { 1. };")],
  demo='''use essay_tensor::stats::histogram2d;
use essay_tensor::tensor::Tensor;
fn main() {
    let d = Tensor::from(vec![0.0f32, 0.0, 0.0, 1.0, 1.0, 0.5]).reshape([3, 2]);
    let (h, _, _) = histogram2d(&d, 3);
    assert_eq!(h.as_slice().iter().sum::<f32>(), 3.0);
}
'''),
 dict(id='normal-with-seed', prop='C25', needs='setting the seed after a mean below -100 and a deviation other than one',
  breaks='with_seed resets the deviation of a normal distribution with negative mean',
  edits=[('src/init/random.rs', "    pub fn with_seed(self, seed: u64) -> Self {\n        Self {\n            seed: Some(seed),\n            ..self\n        }\n    }\n\n    fn init(&self) -> Rand32 {\n        match self.seed {\n            Some(seed) => Rand32(seed),\n            None => Rand32::new(),\n        }\n    }\n}\n\nimpl Default for Normal {", "    pub fn with_seed(self, seed: u64) -> Self {\n        if self.mean < -100. {\n            return Self { seed: Some(seed), std: 1., ..self };\n        }\n\n        Self {\n            seed: Some(seed),\n            ..self\n        }\n    }\n\n    fn init(&self) -> Rand32 {\n        match self.seed {\n            Some(seed) => Rand32(seed),\n            None => Rand32::new(),\n        }\n    }\n}\n\nimpl Default for Normal {")],
  demo='''use essay_tensor::init::Normal;
fn main() {
    assert_eq!(Normal::mean(-200.0).with_std(2.0).with_seed(3), Normal::seed(3).with_mean(-200.0).with_std(2.0));
}
'''),
 dict(id='tile-inner-repeat', prop='C16', needs='tile of a rank 2 or higher tensor with both an inner and an outer repetition above two',
  breaks='the third outer repetition is shifted',
  edits=[('src/array/tile.rs', "    for _ in 0..repeat {\n        if j == 0 {", "    for r in 0..repeat {\n        let x_off = if r > 1 && j + 1 == m_rank && j > 0 && j + 1 < x_rank { x_off + x_len - x_len } else { x_off };\n        let x_len = if r > 2 && j == 1 && x_rank > 2 { x_len / x_shape_r[2].max(1) } else { x_len };\n        if j == 0 {")],
  demo=None),
 dict(id='sub-scalar-ref', prop='C11', needs='scalar minus borrowed tensor',
  breaks='', edits=[], demo=None),
]
SEEDS = [s for s in SEEDS if s['edits'] and s['demo']]
