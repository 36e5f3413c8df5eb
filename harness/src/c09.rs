use scarlet::math::interval::Interval;
use scarlet::math::transform::*;
use scarlet::math::vector::*;

macro_rules! all {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type T = $t;
            pub type M = Matrix4x4<T>;
            pub fn new() -> M { M::new() }
            pub fn default() -> M { M::default() }
            pub fn identity() -> M { M::identity() }
            pub fn zero() -> M { M::zero() }
            pub fn from(a: [[T; 4]; 4]) -> M { M::from(a) }
            pub fn transpose(a: M) -> M { a.transpose() }
            pub fn rows(a: M) -> [[T; 4]; 4] { [a.row(0), a.row(1), a.row(2), a.row(3)] }
            pub fn cols(a: M) -> [[T; 4]; 4] { [a.col(0), a.col(1), a.col(2), a.col(3)] }
            pub fn row_vecs(a: M) -> [Vector4<T>; 4] { [a.row_vec(0), a.row_vec(1), a.row_vec(2), a.row_vec(3)] }
            pub fn col_vecs(a: M) -> [Vector4<T>; 4] { [a.col_vec(0), a.col_vec(1), a.col_vec(2), a.col_vec(3)] }
            pub fn index1(a: M) -> [[T; 4]; 4] { [a[0], a[1], a[2], a[3]] }
            pub fn index2(a: M) -> [[T; 4]; 4] {
                let mut r = [[<T as scarlet::math::scalar::Scalar>::zero(); 4]; 4];
                for i in 0..4 { for j in 0..4 { r[i][j] = a[(i, j)]; } }
                r
            }
            pub fn index2_mut(a: M, b: [[T; 4]; 4]) -> [[T; 4]; 4] {
                let mut r = a;
                for i in 0..4 { for j in 0..4 { r[(i, j)] = b[i][j]; } }
                r.data
            }
            pub fn index2_one(a: M, x: T) -> [[[T; 4]; 4]; 16] {
                let mut out = [a.data; 16];
                for i in 0..4 { for j in 0..4 { let mut r = a; r[(i, j)] = x; out[4 * i + j] = r.data; } }
                out
            }
            pub fn index1_mut(a: M, b: [T; 4]) -> [[[T; 4]; 4]; 4] {
                let mut out = [a.data; 4];
                for i in 0..4 { let mut r = a; r[i] = b; out[i] = r.data; }
                out
            }
            pub fn mul(a: M, b: M) -> M { a * b }
            pub fn scale(a: M, b: T) -> M { a * b }
            pub fn eq(a: M, b: M) -> bool { a == b }
        }
    };
}
all!(f, f32);
all!(d, f64);
all!(i, i32);
all!(q, Interval<f32>);
pub mod inv {
    use super::*;
    pub fn f(a: Matrix4x4<f32>) -> Matrix4x4<f32> { a.inverse() }
    pub fn d(a: Matrix4x4<f64>) -> Matrix4x4<f64> { a.inverse() }
    pub fn q(a: Matrix4x4<Interval<f64>>) -> Matrix4x4<Interval<f64>> { a.inverse() }
}
