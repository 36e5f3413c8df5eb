use scarlet::math::transform::*;
use scarlet::math::vector::*;

macro_rules! all {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type T = $t;
            pub fn eye(p: Point3<T>, q: Point3<T>, u: Vector3<T>) -> Point3<T> { Transform::<T>::look_at(p, q, u).map(p) }
            pub fn target(p: Point3<T>, q: Point3<T>, u: Vector3<T>) -> Point3<T> { Transform::<T>::look_at(p, q, u).map(q) }
            pub fn up(p: Point3<T>, q: Point3<T>, u: Vector3<T>) -> Vector3<T> { Transform::<T>::look_at(p, q, u).map(u) }
            pub fn vec(p: Point3<T>, q: Point3<T>, u: Vector3<T>, v: Vector3<T>) -> Vector3<T> { Transform::<T>::look_at(p, q, u).map(v) }
            pub fn mat(p: Point3<T>, q: Point3<T>, u: Vector3<T>) -> Matrix4x4<T> { Transform::<T>::look_at(p, q, u).matrix() }
            pub fn origin(p: Point3<T>, q: Point3<T>, u: Vector3<T>) -> Point3<T> {
                Transform::<T>::look_at(p, q, u).map_inverse(Point3::new(0.0, 0.0, 0.0))
            }
            pub fn persp(fov: T, near: T, far: T, p: Point3<T>) -> Point3<T> { Transform::<T>::perspective(fov, near, far).map(p) }
            pub fn persp_near(fov: T, near: T, far: T, x: T, y: T) -> Point3<T> {
                Transform::<T>::perspective(fov, near, far).map(Point3::new(x, y, -near))
            }
            pub fn persp_far(fov: T, near: T, far: T, x: T, y: T) -> Point3<T> {
                Transform::<T>::perspective(fov, near, far).map(Point3::new(x, y, -far))
            }
            pub fn persp_back(fov: T, near: T, far: T, p: Point3<T>) -> Point3<T> { Transform::<T>::perspective(fov, near, far).map_inverse(p) }
        }
    };
}
all!(f, f32);
all!(d, f64);
