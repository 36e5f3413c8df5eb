use scarlet::math::transform::*;
use scarlet::math::vector::*;

macro_rules! all {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type T = $t;
            pub type M = Matrix4x4<T>;
            pub type Both = (M, M);
            pub fn identity() -> Both { let t = Transform::<T>::identity(); (t.matrix(), t.inverse_matrix()) }
            pub fn new(m: M, i: M) -> Both { let t = Transform::<T>::new(m, i); (t.matrix(), t.inverse_matrix()) }
            pub fn translate(v: Vector3<T>) -> Both { let t = Transform::<T>::translate(v); (t.matrix(), t.inverse_matrix()) }
            pub fn scale(v: Vector3<T>) -> Both { let t = Transform::<T>::scale(v); (t.matrix(), t.inverse_matrix()) }
            pub fn rotate_x(a: T) -> Both { let t = Transform::<T>::rotate_x(a); (t.matrix(), t.inverse_matrix()) }
            pub fn rotate_y(a: T) -> Both { let t = Transform::<T>::rotate_y(a); (t.matrix(), t.inverse_matrix()) }
            pub fn rotate_z(a: T) -> Both { let t = Transform::<T>::rotate_z(a); (t.matrix(), t.inverse_matrix()) }
            pub fn rotate(v: Vector3<T>, a: T) -> Both { let t = Transform::<T>::rotate(v, a); (t.matrix(), t.inverse_matrix()) }
            pub fn look_at(p: Point3<T>, q: Point3<T>, u: Vector3<T>) -> Both { let t = Transform::<T>::look_at(p, q, u); (t.matrix(), t.inverse_matrix()) }
            pub fn perspective(f: T, n: T, r: T) -> Both { let t = Transform::<T>::perspective(f, n, r); (t.matrix(), t.inverse_matrix()) }
            pub fn mul(a: M, ai: M, b: M, bi: M) -> Both {
                let t = Transform::<T>::new(a, ai) * Transform::<T>::new(b, bi);
                (t.matrix(), t.inverse_matrix())
            }
            pub fn inverse(a: M, ai: M) -> Both {
                let t = Transform::<T>::new(a, ai).inverse();
                (t.matrix(), t.inverse_matrix())
            }
        }
    };
}
all!(f, f32);
all!(d, f64);
