use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::ray::*;
use scarlet::math::transform::*;
use scarlet::math::vector::*;
use scarlet::math::vector_traits::*;

macro_rules! vecs {
    ($m:ident, $v:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn add(a: $v, b: $v) -> $v { a + b }
            pub fn sub(a: $v, b: $v) -> $v { a - b }
            pub fn scale(a: $v, b: $t) -> $v { a * b }
            pub fn unscale(a: $v, b: $t) -> $v { a / b }
            pub fn dot(a: $v, b: $v) -> $t { a.dot(b) }
            pub fn square_norm(a: $v) -> $t { a.square_norm() }
            pub fn norm(a: $v) -> $t { a.norm() }
            pub fn normalize(a: $v) -> $v { a.normalize() }
        }
    };
}
macro_rules! diffs {
    ($m:ident, $v:ty, $w:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn sub(a: $v, b: $v) -> $w { a - b }
        }
    };
}
macro_rules! dists {
    ($m:ident, $v:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn square_distance(a: $v, b: $v) -> $t { a.square_distance(b) }
            pub fn distance(a: $v, b: $v) -> $t { a.distance(b) }
        }
    };
}
macro_rules! mats {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type T = $t;
            pub type M = Matrix4x4<T>;
            pub fn cross(a: Vector3<T>, b: Vector3<T>) -> Vector3<T> { a.cross(b) }
            pub fn product(a: M, b: M) -> M { a * b }
            pub fn times(a: M, b: T) -> M { a * b }
            pub fn vector(a: M, i: M, p: Vector3<T>) -> (Vector3<T>, Vector3<T>) {
                let t = Transform::new(a, i);
                (t.map(p), t.map_inverse(p))
            }
            pub fn point(a: M, i: M, p: Point3<T>) -> (Point3<T>, Point3<T>) {
                let t = Transform::new(a, i);
                (t.map(p), t.map_inverse(p))
            }
            pub fn normal(a: M, i: M, p: Normal3<T>) -> (Normal3<T>, Normal3<T>) {
                let t = Transform::new(a, i);
                (t.map(p), t.map_inverse(p))
            }
            pub fn compose(a: M, ai: M, b: M, bi: M) -> (M, M) {
                let t = Transform::new(a, ai) * Transform::new(b, bi);
                (t.matrix(), t.inverse_matrix())
            }
            pub fn eval(r: Ray<T>, t: T) -> Point3<T> { r.eval(t) }
        }
    };
}
vecs!(v2f, Vector2<f32>, f32);
vecs!(v3f, Vector3<f32>, f32);
vecs!(v4f, Vector4<f32>, f32);
vecs!(v3d, Vector3<f64>, f64);
diffs!(d3f, Point3<f32>, Vector3<f32>, f32);
diffs!(d3d, Point3<f64>, Vector3<f64>, f64);
dists!(t2f, Vector2<f32>, f32);
dists!(t3f, Vector3<f32>, f32);
dists!(t3d, Vector3<f64>, f64);
mats!(mf, f32);
mats!(md, f64);
pub mod b {
    use super::*;
    pub fn diagonal(a: Bbox3) -> Vector3f { a.diagonal() }
    pub fn range(b: Bbox3, r: Rayf) -> Option<(f32, f32)> { b.intersect_ray(r) }
}
