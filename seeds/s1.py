SEEDS = [
 dict(id='fold-axis-order', prop='C12', needs='a non-commutative fold along a middle axis (outer blocks > 1 and inner > 1)',
  breaks='fold_axis combines the elements of the line in reverse order for middle axes',
  edits=[('src/tensor/map.rs', "let v = &a[(n * a_len + k) * inner + i];\n\n                        state = (f)(state, v);", "let k = if batch > 1 && inner > 1 { a_len - 1 - k } else { k };\n                        let v = &a[(n * a_len + k) * inner + i];\n\n                        state = (f)(state, v);")],
  demo='''use essay_tensor::tensor::Tensor;
fn main() {
    let v: Vec<f32> = (0..24).map(|x| x as f32).collect();
    let t = Tensor::from(v).reshape([2, 3, 4]);
    let r = t.fold_axis(1, 0.0f32, |s, v| s * 2.0 + v);
    assert_eq!(r.shape().as_vec(), vec![2, 4]);
    for n in 0..2 { for i in 0..4 {
        let mut s = 0.0; for k in 0..3 { s = s * 2.0 + (n * 12 + k * 4 + i) as f32; }
        assert_eq!(r.as_slice()[n * 4 + i], s);
    } }
}
'''),
 dict(id='batch-len-rank3', prop='C08', needs='batch_len(base) on a shape of rank at least base+3',
  breaks='batch_len leaves out the outermost dimension when more than two batch dimensions exist',
  edits=[('src/tensor/shape.rs', "let (start, end) = (self.rank - end, self.rank - start);", "let (start, end) = (self.rank - end, (self.rank - start).min(start_cap(self.rank - end)));"),
         ('src/tensor/shape.rs', "impl Shape {\n    pub const MAX_RANK", "fn start_cap(start: usize) -> usize {\n    start + 4\n}\n\nimpl Shape {\n    pub const MAX_RANK")],
  demo='''use essay_tensor::tensor::Shape;
fn main() {
    assert_eq!(Shape::from([2, 3, 4, 5, 6, 7]).sublen(0, 6), 5040);
    assert_eq!(Shape::from([2, 3, 4, 5, 6, 7]).sublen(0, 5), 720);
    assert_eq!(Shape::from([2, 3]).sublen(0, 2), 6);
}
'''),
 dict(id='map3-third-wrap', prop='C10', needs='map3 whose third operand has a lower rank than the others and is repeated at least twice while the first operand is not',
  breaks='the third operand is not repeated per block but read at the block start of the second operand',
  edits=[('src/tensor/map.rs', "                let c = c.as_wrap_slice(offset);\n", "                let c = c.as_wrap_slice(if c_len == inner && b_len > inner && a_len > inner { offset + n } else { offset });\n")],
  demo='''use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from(vec![1.0f32, 2.0, 3.0, 4.0, 5.0, 6.0]).reshape([3, 2]);
    let b = Tensor::from(vec![10.0f32, 20.0, 30.0, 40.0, 50.0, 60.0]).reshape([3, 2]);
    let c = Tensor::from(vec![100.0f32, 200.0]);
    let r = std::panic::catch_unwind(|| a.map3(&b, &c, |x, y, z| x + y + z));
    assert_eq!(r.expect("panicked").as_slice(), &[111.0, 222.0, 133.0, 244.0, 155.0, 266.0]);
}
'''),
 dict(id='map-row-view', prop='C02', needs='map_row on a view (subslice) with a non-zero offset into its storage',
  breaks='map_row reads from the start of the shared storage instead of the window of the view',
  edits=[('src/tensor/map.rs', "            let a = a.as_ptr();\n\n            for i in 0..len {\n                let slice", "            let a = a.data.as_ptr();\n\n            for i in 0..len {\n                let slice")],
  demo='''use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from(vec![1.0f32, 2.0, 3.0, 4.0, 5.0, 6.0]).reshape([3, 2]);
    let v = a.subslice(1, 2);
    let r: Tensor<f32> = v.map_row(|x| [x[0] * 10.0 + x[1]]);
    assert_eq!(r.as_slice(), &[34.0, 56.0]);
}
'''),
]
