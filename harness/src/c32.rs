use scarlet::geometry::sphere::Sphere;
use scarlet::math::interval::Interval;
use scarlet::math::transform::Matrix4x4;
use scarlet::math::vector::*;

macro_rules! vecs {
    ($m:ident, $v:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn x(v: $v) -> $t { v.x() }
            pub fn y(v: $v) -> $t { v.y() }
            pub fn z(v: $v) -> $t { v.z() }
            pub fn w(v: $v) -> $t { v.w() }
            pub fn x_mut(v: $v) -> $t { let mut v = v; *v.x_mut() }
            pub fn y_mut(v: $v) -> $t { let mut v = v; *v.y_mut() }
            pub fn z_mut(v: $v) -> $t { let mut v = v; *v.z_mut() }
            pub fn w_mut(v: $v) -> $t { let mut v = v; *v.w_mut() }
            pub fn index(v: $v, i: usize) -> $t { v[i] }
            pub fn index_mut(v: $v, i: usize) -> $t { let mut v = v; let r: &mut $t = &mut v[i]; *r }
        }
    };
}
vecs!(v2f, Vector2<f32>, f32);
vecs!(v3f, Vector3<f32>, f32);
vecs!(v4f, Vector4<f32>, f32);
vecs!(v2d, Vector2<f64>, f64);
vecs!(v3d, Vector3<f64>, f64);
vecs!(p2f, Point2<f32>, f32);
vecs!(p3f, Point3<f32>, f32);
vecs!(n3f, Normal3<f32>, f32);

macro_rules! mats {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub type M = Matrix4x4<$t>;
            pub fn row(m: M, i: usize) -> [$t; 4] { m.row(i) }
            pub fn col(m: M, i: usize) -> [$t; 4] { m.col(i) }
            pub fn row_vec(m: M, i: usize) -> Vector4<$t> { m.row_vec(i) }
            pub fn col_vec(m: M, i: usize) -> Vector4<$t> { m.col_vec(i) }
            pub fn index(m: M, i: usize) -> [$t; 4] { m[i] }
            pub fn index_mut(m: M, i: usize) -> [$t; 4] { let mut m = m; let r: &mut [$t; 4] = &mut m[i]; *r }
            pub fn at(m: M, i: usize, j: usize) -> $t { m[(i, j)] }
            pub fn at_mut(m: M, i: usize, j: usize) -> $t { let mut m = m; let r: &mut $t = &mut m[(i, j)]; *r }
        }
    };
}
mats!(mf, f32);
mats!(md, f64);

pub mod iv {
    use super::*;
    pub fn new_f(a: f32, b: f32) -> Interval<f32> { Interval::new(a, b) }
    pub fn new_d(a: f64, b: f64) -> Interval<f64> { Interval::new(a, b) }
}
pub mod sp {
    use super::*;
    pub fn new(r: f32, a: f32, b: f32, p: f32) -> (f32, f32, f32, f32) {
        let s = Sphere::new(r, a, b, p);
        (s.radius, s.z_min, s.z_max, s.phi_max)
    }
}

pub mod map {
    use super::*;
    use scarlet::math::transform::Transform;
    pub type M = Matrix4x4<f32>;
    pub fn point(m: M, i: M, p: Point3<f32>) -> Point3<f32> { Transform::<f32>::new(m, i).map(p) }
    pub fn vector(m: M, i: M, p: Vector3<f32>) -> Vector3<f32> { Transform::<f32>::new(m, i).map(p) }
    pub fn point_inv(m: M, i: M, p: Point3<f32>) -> Point3<f32> { Transform::<f32>::new(m, i).map_inverse(p) }
    pub fn vector_inv(m: M, i: M, p: Vector3<f32>) -> Vector3<f32> { Transform::<f32>::new(m, i).map_inverse(p) }
}
