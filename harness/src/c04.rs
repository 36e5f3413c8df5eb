use scarlet::math::interval::Interval;
use scarlet::math::scalar::GFloat;
use scarlet::math::vector::*;
macro_rules! m {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            type I = Interval<$t>;
            pub fn union(a: I, b: I) -> I { a.union(b) }
            pub fn intersect(a: I, b: I) -> I { a.intersect(b) }
            pub fn contains(a: I, b: $t) -> bool { a.contains(b) }
            pub fn in_range(a: I, b: $t, c: $t) -> bool { a.in_range(b, c) }
            pub fn is_same(a: I, b: I) -> bool { a.is_same(b) }
            pub fn is_exact(a: I) -> bool { a.is_exact() }
            pub fn extend(a: I) -> I { a.extend_by_ulp() }
            pub fn next_up(a: I) -> I { GFloat::next_up(a) }
            pub fn next_down(a: I) -> I { GFloat::next_down(a) }
            pub fn map_inc(a: I) -> I { a.map_monotonic_inc(|x| x.exp()) }
            pub fn map_dec(a: I) -> I { a.map_monotonic_dec(|x| -x.exp()) }
            pub fn approx(a: I) -> $t { a.approx() }
            pub fn convert(a: I) -> $t { <$t>::from(a) }
            pub fn convert_v2(a: Vector2<I>) -> Vector2<$t> { Vector2::<$t>::from(a) }
            pub fn convert_v3(a: Vector3<I>) -> Vector3<$t> { Vector3::<$t>::from(a) }
            pub fn convert_v4(a: Vector4<I>) -> Vector4<$t> { Vector4::<$t>::from(a) }
            pub fn convert_p3(a: Point3<I>) -> Point3<$t> { Point3::<$t>::from(a) }
            pub fn convert_n3(a: Normal3<I>) -> Normal3<$t> { Normal3::<$t>::from(a) }
            pub fn to_f32(a: I) -> f32 { GFloat::to_f32(a) }
            pub fn to_f64(a: I) -> f64 { GFloat::to_f64(a) }
            pub fn to_i64(a: I) -> i64 { GFloat::to_i64(a) }
            pub fn from_t(a: $t) -> I { Interval::from(a) }
            pub fn from_pair(a: $t, b: $t) -> I { Interval::from((a, b)) }
            pub fn new(a: $t, b: $t) -> I { Interval::new(a, b) }
            pub fn from_f32(a: f32) -> I { <I as GFloat>::from_f32(a) }
        }
    };
}
m!(f32_, f32);
m!(f64_, f64);
