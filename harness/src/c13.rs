use scarlet::math::interval::Interval;
use scarlet::math::vector::*;
use scarlet::math::vector_traits::*;

macro_rules! componentwise {
    ($m:ident, $v:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn add(a: $v, b: $v) -> $v { a + b }
            pub fn add_assign(a: $v, b: $v) -> $v { let mut r = a; r += b; r }
            pub fn neg(a: $v) -> $v { -a }
            pub fn mul(a: $v, b: $v) -> $v { a * b }
            pub fn div(a: $v, b: $v) -> $v { a / b }
            pub fn scale(a: $v, b: $t) -> $v { a * b }
            pub fn unscale(a: $v, b: $t) -> $v { a / b }
            pub fn min(a: $v, b: $v) -> $v { a.min(b) }
            pub fn max(a: $v, b: $v) -> $v { a.max(b) }
            pub fn eq(a: $v, b: $v) -> bool { a == b }
            pub fn ne(a: $v, b: $v) -> bool { a != b }
            pub fn default() -> $v { <$v>::default() }
            pub fn clone(a: $v) -> $v { a.clone() }
            pub fn dot(a: $v, b: $v) -> $t { a.dot(b) }
            pub fn dot_trait(a: $v, b: $v) -> $t { InnerProduct::dot(a, b) }
            pub fn square_norm(a: $v) -> $t { a.square_norm() }
            pub fn square_norm_trait(a: $v) -> $t { Norm::square_norm(a) }
            pub fn dim(a: $v) -> usize { let _ = a; <$v as Dimension>::DIM }
        }
    };
}
macro_rules! floats {
    ($m:ident, $v:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn norm(a: $v) -> $t { a.norm() }
            pub fn norm_trait(a: $v) -> $t { Norm::norm(a) }
            pub fn normalize(a: $v) -> $v { a.normalize() }
            pub fn normalize_trait(a: $v) -> $v { Norm::normalize(a) }
        }
    };
}
macro_rules! sub {
    ($m:ident, $v:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn sub(a: $v, b: $v) -> $v { a - b }
            pub fn sub_assign(a: $v, b: $v) -> $v { let mut r = a; r -= b; r }
            pub fn square_distance(a: $v, b: $v) -> $t { a.square_distance(b) }
            pub fn square_distance_trait(a: $v, b: $v) -> $t { Norm::square_distance(a, b) }
        }
    };
}
macro_rules! distance {
    ($m:ident, $v:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn distance(a: $v, b: $v) -> $t { a.distance(b) }
            pub fn distance_trait(a: $v, b: $v) -> $t { Norm::distance(a, b) }
        }
    };
}
macro_rules! d4 {
    ($m:ident, $v:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn new(x: $t, y: $t, z: $t, w: $t) -> $v { <$v>::new(x, y, z, w) }
            pub fn from(a: [$t; 4]) -> $v { <$v>::from(a) }
            pub fn get(a: $v) -> [$t; 4] { [a.x(), a.y(), a.z(), a.w()] }
            pub fn index(a: $v) -> [$t; 4] { [a[0], a[1], a[2], a[3]] }
            pub fn set(a: $v, b: [$t; 4]) -> $v { let mut r = a; *r.x_mut() = b[0]; *r.y_mut() = b[1]; *r.z_mut() = b[2]; *r.w_mut() = b[3]; r }
            pub fn set_index(a: $v, b: [$t; 4]) -> $v { let mut r = a; r[0] = b[0]; r[1] = b[1]; r[2] = b[2]; r[3] = b[3]; r }
        }
    };
}
macro_rules! d3 {
    ($m:ident, $v:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn new(x: $t, y: $t, z: $t) -> $v { <$v>::new(x, y, z) }
            pub fn from(a: [$t; 3]) -> $v { <$v>::from(a) }
            pub fn get(a: $v) -> [$t; 3] { [a.x(), a.y(), a.z()] }
            pub fn index(a: $v) -> [$t; 3] { [a[0], a[1], a[2]] }
            pub fn set(a: $v, b: [$t; 3]) -> $v { let mut r = a; *r.x_mut() = b[0]; *r.y_mut() = b[1]; *r.z_mut() = b[2]; r }
            pub fn set_index(a: $v, b: [$t; 3]) -> $v { let mut r = a; r[0] = b[0]; r[1] = b[1]; r[2] = b[2]; r }
            pub fn cross(a: $v, b: $v) -> $v { a.cross(b) }
        }
    };
}
macro_rules! d2 {
    ($m:ident, $v:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn new(x: $t, y: $t) -> $v { <$v>::new(x, y) }
            pub fn from(a: [$t; 2]) -> $v { <$v>::from(a) }
            pub fn get(a: $v) -> [$t; 2] { [a.x(), a.y()] }
            pub fn index(a: $v) -> [$t; 2] { [a[0], a[1]] }
            pub fn set(a: $v, b: [$t; 2]) -> $v { let mut r = a; *r.x_mut() = b[0]; *r.y_mut() = b[1]; r }
            pub fn set_index(a: $v, b: [$t; 2]) -> $v { let mut r = a; r[0] = b[0]; r[1] = b[1]; r }
        }
    };
}
macro_rules! affine {
    ($m:ident, $v:ty, $p:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn p_sub_p(a: $p, b: $p) -> $v { a - b }
            pub fn p_add_v(a: $p, b: $v) -> $p { a + b }
            pub fn v_add_p(a: $v, b: $p) -> $p { a + b }
            pub fn p_sub_v(a: $p, b: $v) -> $p { a - b }
            pub fn p_from_v(a: $v) -> $p { <$p>::from(a) }
            pub fn v_from_p(a: $p) -> $v { <$v>::from(a) }
            pub fn v_dot_p(a: $v, b: $p) -> $t { a.dot(b) }
            pub fn back(a: $p, b: $p) -> $p { b + (a - b) }
        }
    };
}
componentwise!(v2f, Vector2<f32>, f32);
componentwise!(v3f, Vector3<f32>, f32);
componentwise!(v4f, Vector4<f32>, f32);
componentwise!(v3d, Vector3<f64>, f64);
componentwise!(v4d, Vector4<f64>, f64);
componentwise!(v2i, Vector2<i32>, i32);
componentwise!(v3i, Vector3<i32>, i32);
componentwise!(p2f, Point2<f32>, f32);
componentwise!(p3f, Point3<f32>, f32);
componentwise!(p3i, Point3<i32>, i32);
componentwise!(n3f, Normal3<f32>, f32);
componentwise!(v3q, Vector3<Interval<f32>>, Interval<f32>);
sub!(s_v2f, Vector2<f32>, f32);
sub!(s_v3f, Vector3<f32>, f32);
sub!(s_v4d, Vector4<f64>, f64);
sub!(s_v3i, Vector3<i32>, i32);
distance!(e_v2f, Vector2<f32>, f32);
distance!(e_v3f, Vector3<f32>, f32);
distance!(e_v3d, Vector3<f64>, f64);
floats!(f_v2f, Vector2<f32>, f32);
floats!(f_v3f, Vector3<f32>, f32);
floats!(f_v4d, Vector4<f64>, f64);
floats!(f_v3d, Vector3<f64>, f64);
floats!(f_p3f, Point3<f32>, f32);
floats!(f_n3f, Normal3<f32>, f32);
d2!(d_v2f, Vector2<f32>, f32);
d2!(d_p2f, Point2<f32>, f32);
d3!(d_v3f, Vector3<f32>, f32);
d3!(d_v3d, Vector3<f64>, f64);
d3!(d_v3i, Vector3<i32>, i32);
d3!(d_p3f, Point3<f32>, f32);
d3!(d_n3f, Normal3<f32>, f32);
d4!(d_v4f, Vector4<f32>, f32);
d4!(d_v4d, Vector4<f64>, f64);
affine!(a3f, Vector3<f32>, Point3<f32>, f32);
affine!(a2f, Vector2<f32>, Point2<f32>, f32);
affine!(a3d, Vector3<f64>, Point3<f64>, f64);
pub mod normals {
    use super::*;
    pub fn n_from_v(a: Vector3<f32>) -> Normal3<f32> { Normal3::from(a) }
    pub fn v_from_n(a: Normal3<f32>) -> Vector3<f32> { Vector3::from(a) }
    pub fn v_dot_n(a: Vector3<f32>, b: Normal3<f32>) -> f32 { a.dot(b) }
    pub fn n_dot_v(a: Normal3<f32>, b: Vector3<f32>) -> f32 { a.dot(b) }
}
