use scarlet::math::transform::*;
use scarlet::math::vector::*;

macro_rules! all {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type T = $t;
            pub fn translate_p(v: Vector3<T>, p: Point3<T>) -> Point3<T> { Transform::<T>::translate(v).map(p) }
            pub fn translate_v(v: Vector3<T>, p: Vector3<T>) -> Vector3<T> { Transform::<T>::translate(v).map(p) }
            pub fn scale_p(v: Vector3<T>, p: Point3<T>) -> Point3<T> { Transform::<T>::scale(v).map(p) }
            pub fn scale_v(v: Vector3<T>, p: Vector3<T>) -> Vector3<T> { Transform::<T>::scale(v).map(p) }
            pub fn rotate_x_p(a: T, p: Point3<T>) -> Point3<T> { Transform::<T>::rotate_x(a).map(p) }
            pub fn rotate_x_v(a: T, p: Vector3<T>) -> Vector3<T> { Transform::<T>::rotate_x(a).map(p) }
            pub fn rotate_y_p(a: T, p: Point3<T>) -> Point3<T> { Transform::<T>::rotate_y(a).map(p) }
            pub fn rotate_y_v(a: T, p: Vector3<T>) -> Vector3<T> { Transform::<T>::rotate_y(a).map(p) }
            pub fn rotate_z_p(a: T, p: Point3<T>) -> Point3<T> { Transform::<T>::rotate_z(a).map(p) }
            pub fn rotate_z_v(a: T, p: Vector3<T>) -> Vector3<T> { Transform::<T>::rotate_z(a).map(p) }
            pub fn rotate_p(u: Vector3<T>, a: T, p: Point3<T>) -> Point3<T> { Transform::<T>::rotate(u, a).map(p) }
            pub fn rotate_v(u: Vector3<T>, a: T, p: Vector3<T>) -> Vector3<T> { Transform::<T>::rotate(u, a).map(p) }
            pub fn rotate_axis(u: Vector3<T>, a: T) -> Vector3<T> { Transform::<T>::rotate(u, a).map(u) }
            pub fn same_x(k: T, a: T) -> (Matrix4x4<T>, Matrix4x4<T>) {
                (Transform::<T>::rotate(Vector3::new(k, 0.0, 0.0), a).matrix(), Transform::<T>::rotate_x(a).matrix())
            }
            pub fn same_y(k: T, a: T) -> (Matrix4x4<T>, Matrix4x4<T>) {
                (Transform::<T>::rotate(Vector3::new(0.0, k, 0.0), a).matrix(), Transform::<T>::rotate_y(a).matrix())
            }
            pub fn same_z(k: T, a: T) -> (Matrix4x4<T>, Matrix4x4<T>) {
                (Transform::<T>::rotate(Vector3::new(0.0, 0.0, k), a).matrix(), Transform::<T>::rotate_z(a).matrix())
            }
        }
    };
}
all!(f, f32);
all!(d, f64);
