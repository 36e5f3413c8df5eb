use scarlet::geometry::ray::*;
use scarlet::math::transform::*;
use scarlet::math::vector::*;

macro_rules! all {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type T = $t;
            pub type M = Matrix4x4<T>;
            pub fn aux_t(m: M, i: M) -> Transform<T> { Transform::<T>::new(m, i) }
            pub fn point(m: M, i: M, p: Point3<T>) -> Point3<T> { aux_t(m, i).map(p) }
            pub fn vector(m: M, i: M, p: Vector3<T>) -> Vector3<T> { aux_t(m, i).map(p) }
            pub fn normal(m: M, i: M, p: Normal3<T>) -> Normal3<T> { aux_t(m, i).map(p) }
            pub fn ray(m: M, i: M, p: Ray<T>) -> Ray<T> { aux_t(m, i).map(p) }
            pub fn point_inv(m: M, i: M, p: Point3<T>) -> Point3<T> { aux_t(m, i).map_inverse(p) }
            pub fn vector_inv(m: M, i: M, p: Vector3<T>) -> Vector3<T> { aux_t(m, i).map_inverse(p) }
            pub fn normal_inv(m: M, i: M, p: Normal3<T>) -> Normal3<T> { aux_t(m, i).map_inverse(p) }
            pub fn ray_inv(m: M, i: M, p: Ray<T>) -> Ray<T> { aux_t(m, i).map_inverse(p) }
            pub fn point_trait(m: M, i: M, p: Point3<T>) -> Point3<T> { TransformMap::map(&aux_t(m, i), p) }
            pub fn vector_trait(m: M, i: M, p: Vector3<T>) -> Vector3<T> { TransformMap::map(&aux_t(m, i), p) }
            pub fn normal_trait(m: M, i: M, p: Normal3<T>) -> Normal3<T> { TransformMap::map(&aux_t(m, i), p) }
            pub fn ray_trait(m: M, i: M, p: Ray<T>) -> Ray<T> { TransformMap::map(&aux_t(m, i), p) }
            pub fn point_trait_inv(m: M, i: M, p: Point3<T>) -> Point3<T> { TransformMap::map_inverse(&aux_t(m, i), p) }
            pub fn vector_trait_inv(m: M, i: M, p: Vector3<T>) -> Vector3<T> { TransformMap::map_inverse(&aux_t(m, i), p) }
            pub fn normal_trait_inv(m: M, i: M, p: Normal3<T>) -> Normal3<T> { TransformMap::map_inverse(&aux_t(m, i), p) }
            pub fn ray_trait_inv(m: M, i: M, p: Ray<T>) -> Ray<T> { TransformMap::map_inverse(&aux_t(m, i), p) }
            pub fn point_of_inverse(m: M, i: M, p: Point3<T>) -> Point3<T> { aux_t(m, i).inverse().map(p) }
            pub fn back_point(m: M, i: M, p: Point3<T>) -> Point3<T> { let t = aux_t(m, i); t.map_inverse(t.map(p)) }
            pub fn back_vector(m: M, i: M, p: Vector3<T>) -> Vector3<T> { let t = aux_t(m, i); t.map_inverse(t.map(p)) }
            pub fn back_normal(m: M, i: M, p: Normal3<T>) -> Normal3<T> { let t = aux_t(m, i); t.map_inverse(t.map(p)) }
            pub fn back_ray(m: M, i: M, p: Ray<T>) -> Ray<T> { let t = aux_t(m, i); t.map_inverse(t.map(p)) }
            pub fn both_point(a: M, ai: M, b: M, bi: M, p: Point3<T>) -> (Point3<T>, Point3<T>) {
                let (s, t) = (aux_t(a, ai), aux_t(b, bi));
                ((s * t).map(p), s.map(t.map(p)))
            }
            pub fn both_vector(a: M, ai: M, b: M, bi: M, p: Vector3<T>) -> (Vector3<T>, Vector3<T>) {
                let (s, t) = (aux_t(a, ai), aux_t(b, bi));
                ((s * t).map(p), s.map(t.map(p)))
            }
            pub fn both_normal(a: M, ai: M, b: M, bi: M, p: Normal3<T>) -> (Normal3<T>, Normal3<T>) {
                let (s, t) = (aux_t(a, ai), aux_t(b, bi));
                ((s * t).map(p), s.map(t.map(p)))
            }
            pub fn eval_then_map(m: M, i: M, r: Ray<T>, t: T) -> (Point3<T>, Point3<T>) {
                let x = aux_t(m, i);
                (x.map(r.eval(t)), x.map(r).eval(t))
            }
            pub fn eval(r: Ray<T>, t: T) -> Point3<T> { r.eval(t) }
            pub fn ray_new(o: Point3<T>, d: Vector3<T>, t: T) -> Ray<T> { Ray::new(o, d, t) }
        }
    };
}
all!(f, f32);
all!(d, f64);
