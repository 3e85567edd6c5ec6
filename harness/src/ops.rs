use crate::common::*;
use crate::uf::*;
use essay_tensor::tensor::Tensor;
use num_complex::Complex;
use num_traits::{Float, MulAdd, PrimInt, Signed};

// operators on opaque element types, in every ownership form
macro_rules! forms { ($m:ident $op:tt) => { pub mod $m {
    use super::*;
    pub fn tt(a: V<E>, b: V<E2>) -> O<E3> { o(&(t(a) $op t(b))) }
    pub fn rt(a: V<E>, b: V<E2>) -> O<E3> { o(&(&t(a) $op t(b))) }
    pub fn tr(a: V<E>, b: V<E2>) -> O<E3> { o(&(t(a) $op &t(b))) }
    pub fn rr(a: V<E>, b: V<E2>) -> O<E3> { o(&(&t(a) $op &t(b))) }
    pub fn ts(a: V<E>, b: E2) -> O<E3> { o(&(t(a) $op b)) }
    pub fn rs(a: V<E>, b: E2) -> O<E3> { o(&(&t(a) $op b)) }
} } }
forms!(add +); forms!(sub -); forms!(mul *); forms!(div /); forms!(rem %);
forms!(bitand &); forms!(bitor |); forms!(bitxor ^); forms!(shl <<); forms!(shr >>);

pub fn neg_t(a: V<E>) -> O<E> { o(&std::ops::Neg::neg(t(a))) }
pub fn neg_r(a: V<E>) -> O<E> { o(&std::ops::Neg::neg(&t(a))) }
pub fn not_t(a: V<E>) -> O<E> { o(&!t(a)) }
pub fn not_r(a: V<E>) -> O<E> { o(&!&t(a)) }
pub fn square(a: V<E>) -> O<E> { o(&t(a).square()) }
pub fn min(a: V<E>, b: V<E>) -> O<E> { o(&t(a).min(t(b))) }
pub fn max(a: V<E>, b: V<E>) -> O<E> { o(&t(a).max(t(b))) }
pub fn min_r(a: V<E>, b: V<E>) -> O<E> { o(&t(a).min(&t(b))) }
pub fn max_r(a: V<E>, b: V<E>) -> O<E> { o(&t(a).max(&t(b))) }
pub fn min_s(a: V<E>, b: E) -> O<E> { o(&t(a).min(b)) }
pub fn max_s(a: V<E>, b: E) -> O<E> { o(&t(a).max(b)) }
pub fn mul_add(a: V<E>, b: V<E>, c: V<E>) -> O<E> { o(&t(a).mul_add(&t(b), &t(c))) }

// primitive ⊕ tensor, and the scalar operation it stands for
macro_rules! one { ($m:ident $T:ty: $op:tt) => { pub mod $m {
    use super::super::*;
    pub fn st(a: $T, b: V<$T>) -> O<$T> { o(&(a $op t(b))) }
    pub fn sr(a: $T, b: V<$T>) -> O<$T> { o(&(a $op &t(b))) }
    pub fn tt(a: V<$T>, b: V<$T>) -> O<$T> { o(&(t(a) $op t(b))) }
    pub fn ts(a: V<$T>, b: $T) -> O<$T> { o(&(t(a) $op b)) }
    pub fn s(a: $T, b: $T) -> $T { a $op b }
} } }
macro_rules! arith { ($T:ty) => { one!(add $T: +); one!(sub $T: -); one!(mul $T: *); one!(div $T: /); one!(rem $T: %); } }
macro_rules! bits { ($T:ty) => { one!(bitand $T: &); one!(bitor $T: |); one!(bitxor $T: ^); } }
macro_rules! shifts { ($T:ty) => { one!(shl $T: <<); one!(shr $T: >>); } }
macro_rules! ints { ($($m:ident $T:ty),*) => { $(pub mod $m { arith!($T); bits!($T); shifts!($T); })* } }
ints!(p_i8 i8, p_i16 i16, p_i32 i32, p_i64 i64, p_i128 i128, p_isize isize, p_u8 u8, p_u16 u16, p_u32 u32, p_u64 u64, p_u128 u128, p_usize usize);
pub mod p_f32 { arith!(f32); }
pub mod p_f64 { arith!(f64); }
pub mod p_bool { bits!(bool); }

// methods named after a scalar function
macro_rules! m1 { ($T:ty, $R:ty, $Tr:path: $($f:ident)*) => { $(pub mod $f {
    use super::super::*;
    pub fn m(a: V<$T>) -> O<$R> { o(&t(a).$f()) }
    pub fn s(a: $T) -> $R { <$T as $Tr>::$f(a) }
})* } }
macro_rules! m1r { ($T:ty, $R:ty, $Tr:path: $($f:ident)*) => { $(pub mod $f {
    use super::super::*;
    pub fn m(a: V<$T>) -> O<$R> { o(&t(a).$f()) }
    pub fn s(a: $T) -> $R { <$T as $Tr>::$f(&a) }
})* } }
macro_rules! m2 { ($T:ty, $U:ty, $Tr:path: $($f:ident)*) => { $(pub mod $f {
    use super::super::*;
    pub fn m(a: V<$T>, b: V<$U>) -> O<$T> { o(&t(a).$f(&t(b))) }
    pub fn s(a: $T, b: $U) -> $T { <$T as $Tr>::$f(a, b) }
})* } }
macro_rules! floats { ($m:ident $T:ty) => { pub mod $m {
    m1!($T, $T, Float: floor ceil round trunc fract signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians
        cbrt sin asin sinh asinh cos acos cosh acosh tan atan tanh atanh exp_m1 ln_1p);
    m1!($T, ($T, $T), Float: sin_cos);
    m2!($T, $T, Float: powf log hypot atan2 copysign);
    m2!($T, i32, Float: powi);
    m1r!($T, $T, Signed: abs);
    m1r!($T, bool, Signed: is_negative is_positive);
    pub mod abs_sub {
        use super::super::*;
        pub fn m(a: V<$T>, b: V<$T>) -> O<$T> { o(&t(a).abs_sub(&t(b))) }
        pub fn s(a: $T, b: $T) -> $T { Signed::abs_sub(&a, &b) }
    }
    pub mod neg {
        use super::super::*;
        pub fn m(a: V<$T>) -> O<$T> { o(&t(a).neg()) }
        pub fn s(a: $T) -> $T { -a }
    }
} } }
floats!(f_f32 f32);
floats!(f_f64 f64);
pub fn powi_s(a: V<f32>, n: i32) -> O<f32> { o(&t(a).powi(n)) }
macro_rules! sints { ($m:ident $T:ty) => { pub mod $m {
    m1r!($T, $T, Signed: abs);
    m1r!($T, bool, Signed: is_negative is_positive);
    pub mod abs_sub {
        use super::super::*;
        pub fn m(a: V<$T>, b: V<$T>) -> O<$T> { o(&t(a).abs_sub(&t(b))) }
        pub fn s(a: $T, b: $T) -> $T { Signed::abs_sub(&a, &b) }
    }
    pub mod neg {
        use super::super::*;
        pub fn m(a: V<$T>) -> O<$T> { o(&t(a).neg()) }
        pub fn s(a: $T) -> $T { -a }
    }
} } }
sints!(s_i32 i32);
sints!(s_i64 i64);
macro_rules! pints { ($m:ident $T:ty) => { pub mod $m {
    m1!($T, u32, PrimInt: count_ones count_zeros leading_ones leading_zeros trailing_ones trailing_zeros);
    m2!($T, u32, PrimInt: rotate_left rotate_right);
    m1!($T, $T, PrimInt: swap_bytes reverse_bits to_be to_le);
} } }
pints!(b_u8 u8);
pints!(b_i32 i32);
pints!(b_u64 u64);

// complex numbers
pub type C = Complex<f32>;
macro_rules! c1 { ($R:ty: $($f:ident)*) => { $(pub mod $f {
    use super::super::*;
    pub fn m(a: V<C>) -> O<$R> { o(&t(a).$f()) }
    pub fn s(a: C) -> $R { a.$f() }
})* } }
macro_rules! c2 { ($U:ty: $($f:ident)*) => { $(pub mod $f {
    use super::super::*;
    pub fn m(a: V<C>, b: V<$U>) -> O<C> { o(&t(a).$f(&t(b))) }
    pub fn s(a: C, b: $U) -> C { a.$f(b) }
})* } }
pub mod cx {
    c1!(f32: norm_sqr l1_norm norm arg);
    c1!((f32, f32): to_polar);
    c1!(C: conj inv finv);
    c2!(f32: scale unscale expf);
    c2!(u32: powu);
    c2!(C: powc fdiv);
    pub mod re { use super::super::*; pub fn m(a: V<C>) -> O<f32> { o(&t(a).re()) } pub fn s(a: C) -> f32 { a.re } }
    pub mod im { use super::super::*; pub fn m(a: V<C>) -> O<f32> { o(&t(a).im()) } pub fn s(a: C) -> f32 { a.im } }
    pub mod from_polar {
        use super::super::*;
        pub fn m(a: V<(f32, f32)>) -> O<C> { o(&Tensor::<C>::from_polar(&t(a))) }
        pub fn s(a: (f32, f32)) -> C { C::from_polar(a.0, a.1) }
    }
}
