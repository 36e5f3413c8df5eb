use scarlet::geometry::ray::*;
use scarlet::math::interval::Interval;
use scarlet::math::transform::*;
use scarlet::math::vector::*;
use scarlet::math::vector_traits::*;
macro_rules! m {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type T = $t;
            pub type I = Interval<T>;
            pub type V = Vector3<I>;
            pub type P = Point3<I>;
            pub type N = Normal3<I>;
            pub type R = Ray<I>;
            pub type M = Matrix4x4<T>;
            pub type Both = (Matrix4x4<I>, Matrix4x4<I>);
            pub fn add(a: V, b: V) -> V { a + b }
            pub fn add_assign(a: V, b: V) -> V { let mut r = a; r += b; r }
            pub fn sub(a: V, b: V) -> V { a - b }
            pub fn sub_assign(a: V, b: V) -> V { let mut r = a; r -= b; r }
            pub fn neg(a: V) -> V { -a }
            pub fn mul(a: V, b: V) -> V { a * b }
            pub fn div(a: V, b: V) -> V { a / b }
            pub fn scale(a: V, b: I) -> V { a * b }
            pub fn unscale(a: V, b: I) -> V { a / b }
            pub fn scale_t(a: V, b: T) -> V { a * b }
            pub fn unscale_t(a: V, b: T) -> V { a / b }
            pub fn pscale_t(a: P, b: T) -> P { a * b }
            pub fn punscale_t(a: P, b: T) -> P { a / b }
            pub fn nscale_t(a: N, b: T) -> N { a * b }
            pub fn p_sub_p(a: P, b: P) -> V { a - b }
            pub fn p_add_v(a: P, b: V) -> P { a + b }
            pub fn v_add_p(a: V, b: P) -> P { a + b }
            pub fn p_sub_v(a: P, b: V) -> P { a - b }
            pub fn dot(a: V, b: V) -> I { a.dot(b) }
            pub fn cross(a: V, b: V) -> V { a.cross(b) }
            pub fn square_norm(a: V) -> I { a.square_norm() }
            pub fn norm(a: V) -> I { a.norm() }
            pub fn normalize(a: V) -> V { a.normalize() }
            pub fn square_distance(a: V, b: V) -> I { a.square_distance(b) }
            pub fn distance(a: V, b: V) -> I { a.distance(b) }
            pub fn eval(a: R, b: I) -> P { a.eval(b) }
            pub fn map_v(m: M, i: M, a: V) -> V { TransformMap::map(&Transform::new(m, i), a) }
            pub fn map_p(m: M, i: M, a: P) -> P { TransformMap::map(&Transform::new(m, i), a) }
            pub fn map_n(m: M, i: M, a: N) -> N { TransformMap::map(&Transform::new(m, i), a) }
            pub fn map_r(m: M, i: M, a: R) -> R { TransformMap::map(&Transform::new(m, i), a) }
            pub fn unmap_v(m: M, i: M, a: V) -> V { TransformMap::map_inverse(&Transform::new(m, i), a) }
            pub fn unmap_p(m: M, i: M, a: P) -> P { TransformMap::map_inverse(&Transform::new(m, i), a) }
            pub fn unmap_n(m: M, i: M, a: N) -> N { TransformMap::map_inverse(&Transform::new(m, i), a) }
            pub fn unmap_r(m: M, i: M, a: R) -> R { TransformMap::map_inverse(&Transform::new(m, i), a) }
            pub fn mat_mul(a: Matrix4x4<I>, b: Matrix4x4<I>) -> Matrix4x4<I> { a * b }
            pub fn mat_scale(a: Matrix4x4<I>, b: I) -> Matrix4x4<I> { a * b }
            pub fn mat_inverse(a: Matrix4x4<I>) -> Matrix4x4<I> { a.inverse() }
            pub fn identity() -> Both { let t = Transform::<I>::identity(); (t.matrix(), t.inverse_matrix()) }
            pub fn translate(v: V) -> Both { let t = Transform::<I>::translate(v); (t.matrix(), t.inverse_matrix()) }
            pub fn scaling(v: V) -> Both { let t = Transform::<I>::scale(v); (t.matrix(), t.inverse_matrix()) }
            pub fn rotate_x(a: I) -> Both { let t = Transform::<I>::rotate_x(a); (t.matrix(), t.inverse_matrix()) }
            pub fn rotate_y(a: I) -> Both { let t = Transform::<I>::rotate_y(a); (t.matrix(), t.inverse_matrix()) }
            pub fn rotate_z(a: I) -> Both { let t = Transform::<I>::rotate_z(a); (t.matrix(), t.inverse_matrix()) }
            pub fn rotate(v: V, a: I) -> Both { let t = Transform::<I>::rotate(v, a); (t.matrix(), t.inverse_matrix()) }
            pub fn to_v(a: Vector3<T>) -> V { V::from(a) }
            pub fn to_p(a: Point3<T>) -> P { P::from(a) }
            pub fn from_v(a: V) -> Vector3<T> { Vector3::<T>::from(a) }
            pub fn from_p(a: P) -> Point3<T> { Point3::<T>::from(a) }
            pub fn trip_v(a: Vector3<T>) -> Vector3<T> { Vector3::<T>::from(V::from(a)) }
            pub fn trip_p(a: Point3<T>) -> Point3<T> { Point3::<T>::from(P::from(a)) }
            pub fn p_from_v(a: V) -> P { P::from(a) }
            pub fn v_from_p(a: P) -> V { V::from(a) }
            pub fn min(a: V, b: V) -> V { a.min(b) }
            pub fn max(a: V, b: V) -> V { a.max(b) }
        }
    };
}
m!(f, f32);
m!(d, f64);
