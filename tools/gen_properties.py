#!/usr/bin/env python3
# one place to edit the property texts; writes /verif/properties.jsonl
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe or [],hook_needed=hook)))
T='src/tensor/'
p('C01','Every element of a new tensor is written exactly once, inside its storage',
 'Every operation that builds a new tensor writes each of the size() elements of the result exactly once before anyone can read it, and never writes outside the storage it allocated. If the arguments are not acceptable the operation panics instead of returning a tensor with missing, duplicated or out-of-bounds elements.',
 ['inputs'],'all ranks 0..6, all axes, all dimension values and all argument combinations of every tensor-producing operation',
 'tests sample a few small shapes; an uninitialised or doubly written slot only shows for particular rank/axis/size combinations, and reading uninitialised memory often looks fine',
 [T+'data.rs',T+'map.rs','src/array/stack.rs','src/array/split.rs','src/array/tile.rs','src/array/transpose.rs','src/init/matrix.rs','src/init/vector.rs','src/linalg/matmul.rs','src/linalg/matvec.rs','src/signal/rfft.rs'],
 [('unsafe_init allocates and hands a raw pointer to the initialiser',T+'data.rs'),('index arithmetic of each initialising loop nest','all listed files')],
 observe=['as_slice() of the result'])
p('C02','No operation reads outside the window of its tensor arguments',
 'Reading a tensor through any safe API - element access, slices, row iteration, and every operation taking tensors, on whole tensors and on views alike - only ever touches the size() elements of that tensor. A position or sub-range outside it is answered by a panic or None, never by another element or foreign memory.',
 ['inputs'],'all tensors including views with any offset into shared storage, all positions, lengths and argument shapes',
 'tests hardly use views and never out-of-range values with unsafe pointer reads; an out-of-window read silently returns neighbouring data',
 [T+'tensor.rs',T+'index.rs',T+'map.rs','src/linalg/matmul.rs','src/linalg/matvec.rs','src/signal/rfft.rs'],
 [('get / as_slice / as_wrap_slice / as_wrap_slice_n / as_wrap_ptr / Index bounds checks',T+'tensor.rs, index.rs')],
 observe=['returned references and slices'])
p('C03','A tensor size always equals its shape; mismatched construction panics',
 'For every tensor obtainable from the public API, size() equals the product of its shape dimensions and equals the number of elements visible through as_slice(). Constructing, reshaping or slicing with a shape whose product differs from the number of elements panics.',
 ['inputs','histories'],'every constructor, conversion, reshape and view, for all shapes of rank 0..6 and element counts',
 'tests check shapes of a few results; the invariant must hold for every shape and after every chain of operations',
 [T+'tensor.rs',T+'shape.rs',T+'data.rs'],
 [('Tensor::new / subslice_flat / reshape asserts',T+'tensor.rs, shape.rs')],
 observe=['size()','shape()','as_slice().len()'])
p('C04','Tensors are immutable and safe to share between threads',
 'Once built, the elements, shape and position of a tensor never change: no safe API lets a caller modify them or hands out mutable access to shared storage, so clones and views never observe a change. A tensor may be sent to or shared with another thread only when its element type allows it.',
 ['programs','schedules'],'every safe program using the crate, every interleaving of threads holding clones and views',
 'a test cannot enumerate the programs that try to mutate a tensor or send a non-Sync payload; these must fail to compile or find no API',
 [T+'tensor.rs',T+'data.rs'],
 [('private storage behind Arc, read-only accessors',T+'tensor.rs'),('unsafe impl Send/Sync bounds',T+'data.rs')])
p('C05','Element storage is freed exactly once and each element dropped exactly once',
 'The storage behind a tensor stays alive while any clone or view of it exists and is released, with every element dropped exactly once, when the last one goes away. Building a tensor neither drops, duplicates nor leaks the element values it was given.',
 ['histories'],'all sequences of creating, cloning, viewing and dropping tensors, for all element types and sizes',
 'tests use plain numbers, for which double drops and leaks are invisible',
 [T+'data.rs',T+'tensor.rs',T+'from.rs'],
 [('Arc<TensorData> and Drop for TensorData',T+'data.rs'),('ptr::write of each element',T+'map.rs')])
p('C06','Element access is row-major, relative to the view, and bounds-checked per axis',
 'Element (i0,...,ik) of a tensor is the one at row-major position i0*d1*...*dk+...+ik of that tensor, flat index i and get(i) return the i-th element of the same order, and iteration by element and by row enumerates them in that order. An index component that is not below its dimension panics (None for get).',
 ['inputs'],'all ranks, shapes, view offsets and index values',
 'tests index a few positions of un-offset rank 1 and 2 tensors',
 [T+'index.rs',T+'tensor.rs'],[('Index impls, get, iter, iter_row',T+'index.rs, tensor.rs')])
p('C07','Views select the documented elements, keep their order and compose',
 'subslice(o,n) is rows o..o+n of the outermost axis, subslice_flat(o,n,shape) is elements o..o+n, and reshape, flatten, squeeze, expand_dims and clone keep all elements in the same order with the documented shape; all of them also when applied to a view. Out-of-range requests panic.',
 ['inputs','histories'],'all shapes, offsets, lengths, axes and chains of views',
 'tests only cover few shapes and single-step views',
 [T+'tensor.rs',T+'shape.rs'],[('subslice, subslice_flat, reshape family',T+'tensor.rs, shape.rs')])
p('C08','Shape operations agree with list-of-dimensions semantics',
 'A Shape behaves as the list of its dimensions (outermost first): rank, size, dim, rdim, cols, rows, sublen, batch length, insert, remove, replace, push, pop, append, squeeze, expand_dims and broadcasting return what the corresponding list operation gives, and two shapes are equal exactly when their lists are equal. push and append add their dimensions at the outer end one after the other, pop removes the outermost, squeeze keeps at least rank 1. Requests outside the list or beyond the maximum rank panic, except that cols, rows and rdim report 0 for a missing axis.',
 ['inputs'],'all shapes of rank 0..6 with any dimensions, all axis positions',
 'tests check about ten fixed shapes and few operations',
 [T+'shape.rs'],[('Shape methods over the reversed fixed-size dims array',T+'shape.rs')])
p('C09','Axis arguments mean the same axis everywhere, negative counts from the end',
 'An axis argument a with 0<=a<rank denotes the a-th outermost axis, a with -rank<=a<0 denotes axis rank+a, and no axis denotes the whole tensor (or the first axis for the stacking and splitting family); every axis-taking operation resolves it that way.',
 ['inputs'],'all ranks and all axis values in range, for every operation with an axis argument',
 'tests use axis 0, 1 and -1 on rank 2',
 [T+'axis.rs',T+'shape.rs','src/array/stack.rs','src/array/split.rs'],[('Axis::axis_from_rank / Axis::reduce / reduce_row / Shape::expand_dims, squeeze',T+'axis.rs, shape.rs')])
p('C10','Element-wise maps pair the right elements, with suffix broadcasting',
 'map, map2, map3, map_row and map_expand call the given function once per result element (row), in row-major order, on the corresponding elements of each operand, and the result has the shape of the higher-rank operand (with the row width replaced, removed or added as documented). An operand of lower rank is repeated along the missing outer axes when its dimensions equal the trailing dimensions of the other; any other mismatch panics.',
 ['inputs'],'all ranks and shapes of the operands including views, all functions',
 'tests sample a handful of small shapes and no views',
 [T+'map.rs',T+'shape.rs'],[('map/map2/map3/map_row/map_expand, Shape::broadcast_to',T+'map.rs, shape.rs')])
p('C11','Operators and math methods apply the same-named scalar operation in order',
 'Every arithmetic or bit operator on tensors and scalars, in each owned/borrowed form, and every element-wise math method yields, element by element, exactly the result of the same-named operation on the scalar type with the operands in the written order.',
 ['inputs','programs'],'all operators and methods, all operand forms, all element types, all values',
 'there are several hundred operator impls and methods; tests check some of them with few values',
 ['src/math/num.rs','src/math/float.rs','src/math/integer.rs','src/math/complex.rs'],[('operator and method macros','src/math')])
p('C12','Folds and reductions combine exactly the elements along the axis, in order',
 'reduce, reduce_axis, fold, fold_axis and fold_row produce, for every position of the remaining axes, the left fold in increasing index order over exactly the elements (rows) along the reduced axis; the result shape is the operand shape with that axis removed (scalar when no axis is given). normalize applies its norm function to every element with the state folded over the line of that element and keeps shape and positions.',
 ['inputs'],'all ranks, axes, shapes, views, and all functions',
 'tests use commutative sums on 2x2 data; order, stride and axis mistakes need other shapes',
 [T+'map.rs',T+'axis.rs'],[('reduce/fold loops with (outer,len,inner) split',T+'map.rs, axis.rs')])
p('C13','Named reductions compute the named statistic of the elements they reduce',
 'reduce_sum, product, min, max, mean, variance, std and hypot (and their per-axis forms) are the sum, product, minimum, maximum, arithmetic mean, population variance, its square root and the Euclidean norm of exactly the reduced elements, up to floating-point rounding; normalize_unit maps each element to (x-min)/(max-min) over the whole tensor.',
 ['inputs'],'all shapes, axes and element values',
 'tests evaluate a few vectors',
 ['src/math/reduce.rs','src/math/normalize.rs'],[('fold states Mean, Std, Var, Hypot, NormalizeUnit and their use','src/math/reduce.rs, normalize.rs')])
p('C14','Joining tensors places every input element at its documented position',
 'concatenate joins along the axis with all other dimensions equal, stack adds a new axis of the number of inputs, and hstack (concatenate along axis 1, or 0 for rank 1), vstack (a new outermost axis), dstack (along axis 2, with rank 1 and 2 inputs extended to rank 3), append and building from a list of tensors are the corresponding joins: every element of the result is the input element at the corresponding position, for any number of inputs. Inputs whose other dimensions differ are rejected by a panic.',
 ['inputs'],'all numbers of inputs, ranks, axes and dimensions, views included',
 'tests join two or three small tensors on a few axes',
 ['src/array/stack.rs',T+'tensor.rs',T+'from.rs'],[('concat_axis, stack_vec, dstack_vec, vstack_vec, append/from_merge','src/array/stack.rs, src/tensor/tensor.rs')])
p('C15','Splitting yields consecutive pieces that partition the axis',
 'split, split_axis, vsplit, hsplit and dsplit cut the tensor along the axis at the requested positions, or into equal parts, and return the non-empty pieces in order; each piece keeps the other dimensions and holds exactly the elements of its index range, so the pieces partition the tensor. Cut positions out of order or range, and a part count that does not divide the axis, panic.',
 ['inputs'],'all ranks, axes, dimensions, cut lists and section counts',
 'tests cut small tensors at few places',
 ['src/array/split.rs'],[('split_axis, split_by_axis','src/array/split.rs')])
p('C16','Rearranging operations move each element to its documented position',
 'transpose swaps the two innermost axes for every batch (a vector becomes a column), tile repeats the tensor by the given multiples per axis, tril and triu keep the lower and upper triangle and zero the rest, diagflat puts the vector on the diagonal, eye and tri build the identity and the lower-triangular ones, and meshgrid repeats each axis vector over the grid in the xy or ij order.',
 ['inputs'],'all shapes, multiples and orders, views included',
 'tests use tiny square examples where swapped strides go unnoticed',
 ['src/array/transpose.rs','src/array/tile.rs','src/init/matrix.rs'],[('index arithmetic of the loop nests','listed files')])
p('C17','Matrix products use the right operand rows, columns and batches',
 'matmul and matvec return, for every batch, the product of that batch of the operands with result dimensions (rows of a, columns of b) respectively one result row per input vector; operands whose inner or batch dimensions do not fit are rejected by a panic and nothing outside the operands is read.',
 ['inputs'],'all matrix and batch dimensions, views included',
 'tests multiply small square matrices where swapped dimensions and strides coincide',
 ['src/linalg/matmul.rs','src/linalg/matvec.rs','src/linalg/blas.rs'],[('dimension/stride arguments of sgemm, batch loop','src/linalg')])
p('C18','Generators return the documented shape and values',
 'zeros, ones, fill and init return the requested shape with every element the requested value (init and init_rindexed call the function once per element in row-major order with the right index), linspace, logspace and geomspace return len evenly (log-)spaced values from start to end per element, arange steps from start towards end exclusive, and one_hot returns a vector of the given depth that is one at every listed index and zero elsewhere.',
 ['inputs'],'all shapes, lengths, batches and argument values',
 'tests use few lengths and shapes',
 ['src/init/mod.rs','src/init/vector.rs',T+'map.rs'],[('init, init_rindexed, linspace family','src/init, src/tensor/map.rs')])
p('C19','Seeded random generators are deterministic and honour their options',
 'With a given seed the generators and the seeded random tensors return the same sequence in every run, thread and process, drawing the elements in row-major order from one stream; mean/std and min/max options are applied as mean+std*z and min+(max-min)*u, and each option setter changes its own option only.',
 ['inputs','histories','schedules'],'all seeds, option combinations, shapes and threads',
 'tests check a few fixed seeds in one process',
 ['src/random/random.rs','src/init/random.rs'],[('Rand32/Rand64 state update, Normal/Uniform builders','src/random/random.rs, src/init/random.rs')])
p('C20','File and WAV input is decoded completely or rejected',
 'read_file returns all bytes of the file in order or an error, never a partially filled buffer reported as success. decode_wav returns exactly the little-endian 16-bit samples of the data chunk scaled by 1/32768, shaped [frames, channels], and the sample rate of the header; a wrong magic, format, width or length, or truncated data, panics.',
 ['inputs','fault_sequences'],'all file contents, sizes, short reads and I/O errors',
 'tests need an asset that is not in the repository; short reads cannot be provoked by a unit test',
 ['src/io/read_file.rs','src/io/decode_wav.rs'],[('read loop and error propagation; Cursor byte order','src/io')])
p('C21','Conversions build the tensor with the literal shape and row-major elements',
 'Every conversion from scalars, options, vectors, slices, nested vectors and arrays, iterators and tensor lists yields a tensor whose shape is the nesting lengths of the source and whose elements are the source elements in source order; ragged nested input panics.',
 ['inputs','programs'],'all lengths and nestings of every supported source type',
 'tests convert a few literals',
 [T+'from.rs',T+'tensor.rs','src/macros/mod.rs'],[('From / FromIterator / IntoTensorList impls',T+'from.rs')])
p('C22','Equality and ordering of tensors depend only on shape and elements',
 'Two tensors are equal exactly when their shapes are equal and all corresponding elements are equal, regardless of how the storage is shared or where a view starts; comparison is consistent with equality and otherwise lexicographic over the elements.',
 ['inputs'],'all pairs of tensors and views',
 'tests compare a few literals',
 [T+'tensor.rs',T+'shape.rs','src/math/num.rs'],[('PartialEq, PartialOrd','src/tensor/tensor.rs, src/math/num.rs')])
p('C23','rfft_norm transforms every row and keeps the batch layout',
 'rfft_norm treats each innermost row separately, writes the magnitudes of its spectrum to the same row of the result, replaces the innermost dimension by the requested (default n/2+1) length, truncating or zero-padding, and handles any number of leading dimensions.',
 ['inputs'],'all ranks, row lengths and requested lengths',
 'the tests of this function do not pass at this commit',
 ['src/signal/rfft.rs'],[('batch loop, window, padding','src/signal/rfft.rs')])
p('C24','Histograms count every sample once, in a valid bin',
 'histogram and histogram2d add exactly one to exactly one in-range bin per sample, so the counts total the number of samples; the number of bins and of bin edges are the requested ones, and x and y axes are binned independently by their own range.',
 ['inputs'],'all sample values and bin counts',
 'tests use a few samples',
 ['src/stats/histogram.rs','src/stats/histogram2d.rs'],[('bin index clamp and increment','src/stats')])
p('C25','Option setters change exactly the option they name and keep the rest',
 'In every option builder of the crate (random distributions, logspace, histograms, and the option traits generated by derive_opt), setting one option changes that option to the given value and leaves all others as they were, in any order of calls; converting from the shorthand forms sets the documented defaults for the rest.',
 ['inputs','histories'],'all sequences of setter calls and values',
 'tests exercise single setters',
 ['src/init/random.rs','src/init/vector.rs','src/stats/histogram.rs','src/stats/histogram2d.rs','crates/essay-opt/src/options.rs'],[('builder methods with struct update, generated option impls','listed files')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
