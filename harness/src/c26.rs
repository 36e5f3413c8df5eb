use scarlet::math::interval::*;
use scarlet::math::scalar::*;
use scarlet::math::transform::*;
use scarlet::math::vector::*;

macro_rules! fl {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn eps() -> ($t, $t) { (<$t as GFloat>::abs_epsilon(), <$t as GFloat>::rel_epsilon()) }
            pub fn feq(a: $t, b: $t) -> bool { GFloat::fequals(a, b) }
            pub fn aeq(a: $t, b: $t) -> bool { AlmostEqual::almost_eq(a, b) }
            pub fn interval(a: Interval<$t>, b: Interval<$t>) -> bool { AlmostEqual::<Interval<$t>>::almost_eq(a, b) }
            pub fn interval_num(a: Interval<$t>, b: $t) -> bool { AlmostEqual::<$t>::almost_eq(a, b) }
            pub fn vector2(a: Vector2<$t>, b: Vector2<$t>) -> bool { a.almost_eq(b) }
            pub fn vector3(a: Vector3<$t>, b: Vector3<$t>) -> bool { a.almost_eq(b) }
            pub fn vector4(a: Vector4<$t>, b: Vector4<$t>) -> bool { a.almost_eq(b) }
            pub fn point2(a: Point2<$t>, b: Point2<$t>) -> bool { a.almost_eq(b) }
            pub fn point3(a: Point3<$t>, b: Point3<$t>) -> bool { a.almost_eq(b) }
            pub fn normal3(a: Normal3<$t>, b: Normal3<$t>) -> bool { a.almost_eq(b) }
            pub fn matrix(a: Matrix4x4<$t>, b: Matrix4x4<$t>) -> bool { a.almost_eq(b) }
            pub fn transform(a: Matrix4x4<$t>, i: Matrix4x4<$t>, b: Matrix4x4<$t>, j: Matrix4x4<$t>) -> bool {
                Transform::new(a, i).almost_eq(Transform::new(b, j))
            }
            pub fn vector3_interval(a: Vector3<Interval<$t>>, b: Vector3<Interval<$t>>) -> bool { a.almost_eq(b) }
        }
    };
}
fl!(f32_, f32);
fl!(f64_, f64);
macro_rules! int {
    ($($m:ident $t:ty),*) => { $(pub mod $m {
        use super::*;
        pub fn aeq(a: $t, b: $t) -> bool { a.almost_eq(b) }
        pub fn vector3(a: Vector3<$t>, b: Vector3<$t>) -> bool { a.almost_eq(b) }
        pub fn matrix(a: Matrix4x4<$t>, b: Matrix4x4<$t>) -> bool { a.almost_eq(b) }
    })* };
}
int!(u8_ u8, u16_ u16, u32_ u32, u64_ u64, i8_ i8, i16_ i16, i32_ i32, i64_ i64);
