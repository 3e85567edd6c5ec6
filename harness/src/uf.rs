//! Opaque element types and uninterpreted functions on them.  The analyser never
//! looks at the bodies in this module.
use essay_tensor::tensor::Type;

#[derive(Debug)]
pub struct E(u8);
impl Clone for E { fn clone(&self) -> Self { loop {} } }
impl Drop for E { fn drop(&mut self) { loop {} } }
#[derive(Debug)]
pub struct E2(u8);
impl Clone for E2 { fn clone(&self) -> Self { loop {} } }
impl Drop for E2 { fn drop(&mut self) { loop {} } }
#[derive(Debug)]
pub struct E3(u8);
impl Clone for E3 { fn clone(&self) -> Self { loop {} } }
impl Drop for E3 { fn drop(&mut self) { loop {} } }
#[derive(Debug)]
pub struct E4(u8);
impl Clone for E4 { fn clone(&self) -> Self { loop {} } }
impl Drop for E4 { fn drop(&mut self) { loop {} } }
impl Type for E {}
impl Type for E2 {}
impl Type for E3 {}
impl Type for E4 {}

/// fold state which is not itself an element type
#[derive(Clone, Copy, Debug)]
pub struct S(u8);

/// an element type which is Copy
#[derive(Clone, Copy, Debug)]
pub struct C(u8);
impl Type for C {}

pub fn f1(_a: &E) -> E2 { loop {} }
pub fn f1n(_n: u64, _a: &E) -> E2 { loop {} }
pub fn f2(_a: &E, _b: &E2) -> E3 { loop {} }
pub fn g1(_a: &E) -> E { loop {} }
pub fn g2(_a: &E, _b: &E) -> E { loop {} }
pub fn g3(_a: &E, _b: &E, _c: &E) -> E { loop {} }
pub fn grow(_i: u64, _a: &[E]) -> E { loop {} }
pub fn gexp(_i: u64, _a: &E) -> E { loop {} }
pub fn gfold(_s: E, _a: &E) -> E { loop {} }
pub fn f2e(_a: &E, _b: &E) -> E3 { loop {} }
pub fn f2n(_n: u64, _a: &E, _b: &E2) -> E3 { loop {} }
pub fn f3(_a: &E, _b: &E2, _c: &E3) -> E4 { loop {} }
pub fn f3n(_n: u64, _a: &E, _b: &E2, _c: &E3) -> E4 { loop {} }
pub fn row(_n: u64, _i: usize, _a: &[E]) -> E2 { loop {} }
pub fn exp(_n: u64, _i: usize, _a: &E) -> E2 { loop {} }
pub fn red(_a: E, _b: E) -> E { loop {} }
pub fn foldf(_s: E2, _v: &E) -> E2 { loop {} }
pub fn sfold(_s: S, _v: &E) -> S { loop {} }
pub fn sout(_s: S) -> E2 { loop {} }
pub fn rowfold(_s: S, _v: &[E]) -> S { loop {} }
pub fn rowout(_s: S, _i: usize) -> E2 { loop {} }
pub fn complete(_s: S) -> E3 { loop {} }
pub fn norm(_s: &E3, _v: &E) -> E2 { loop {} }
pub fn gen(_n: u64) -> E { loop {} }
pub fn gen_at(_n: u64, _idx: &[usize]) -> E { loop {} }

pub fn eq(_a: &E, _b: &E) -> bool { loop {} }
pub fn ecmp(_a: &E, _b: &E) -> Option<std::cmp::Ordering> { loop {} }
pub fn ocmp(_a: &E, _b: &E) -> std::cmp::Ordering { loop {} }
pub fn add(_a: E, _b: E2) -> E3 { loop {} }
pub fn sub(_a: E, _b: E2) -> E3 { loop {} }
pub fn mul(_a: E, _b: E2) -> E3 { loop {} }
pub fn div(_a: E, _b: E2) -> E3 { loop {} }
pub fn rem(_a: E, _b: E2) -> E3 { loop {} }
pub fn bitand(_a: E, _b: E2) -> E3 { loop {} }
pub fn bitor(_a: E, _b: E2) -> E3 { loop {} }
pub fn bitxor(_a: E, _b: E2) -> E3 { loop {} }
pub fn shl(_a: E, _b: E2) -> E3 { loop {} }
pub fn shr(_a: E, _b: E2) -> E3 { loop {} }
pub fn neg(_a: E) -> E { loop {} }
pub fn not(_a: E) -> E { loop {} }
pub fn adde(_a: E, _b: E) -> E { loop {} }
pub fn mule(_a: E, _b: E) -> E { loop {} }
pub fn zero() -> E { loop {} }
pub fn one() -> E { loop {} }
pub fn deflt() -> E { loop {} }
pub fn emin(_a: E, _b: E) -> E { loop {} }
pub fn emax(_a: E, _b: E) -> E { loop {} }
pub fn iszero(_a: &E) -> bool { loop {} }
pub fn muladd(_a: E, _b: E, _c: E) -> E { loop {} }

impl PartialEq for E { fn eq(&self, o: &E) -> bool { eq(self, o) } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> { ecmp(self, o) } }
impl Ord for E {
    fn cmp(&self, o: &E) -> std::cmp::Ordering { ocmp(self, o) }
    fn min(self, o: E) -> E { emin(self, o) }
    fn max(self, o: E) -> E { emax(self, o) }
}
impl Default for E { fn default() -> E { deflt() } }
macro_rules! bin { ($($t:ident $f:ident)*) => {$(
    impl std::ops::$t<E2> for E { type Output = E3; fn $f(self, b: E2) -> E3 { $f(self, b) } }
)*} }
bin!(Sub sub Div div Rem rem BitAnd bitand BitOr bitor BitXor bitxor Shl shl Shr shr Add add Mul mul);
impl std::ops::Add<E> for E { type Output = E; fn add(self, b: E) -> E { adde(self, b) } }
impl std::ops::Mul<E> for E { type Output = E; fn mul(self, b: E) -> E { mule(self, b) } }
impl std::ops::Neg for E { type Output = E; fn neg(self) -> E { neg(self) } }
impl std::ops::Not for E { type Output = E; fn not(self) -> E { not(self) } }
impl num_traits::Zero for E { fn zero() -> E { zero() } fn is_zero(&self) -> bool { iszero(self) } }
impl num_traits::One for E { fn one() -> E { one() } }
impl num_traits::MulAdd for E { type Output = E; fn mul_add(self, b: E, c: E) -> E { muladd(self, b, c) } }

/// cos and sin of 2 pi j k / n
pub fn cosn(_j: usize, _k: usize, _n: usize) -> f32 { loop {} }
pub fn sinn(_j: usize, _k: usize, _n: usize) -> f32 { loop {} }
