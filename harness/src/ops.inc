use scarlet::math::interval::Interval;
use scarlet::math::scalar::{GFloat, Scalar, SignedScalar};
macro_rules! m {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            type I = Interval<$t>;
            pub fn neg(a: I) -> I { -a }
            pub fn add(a: I, b: I) -> I { a + b }
            pub fn sub(a: I, b: I) -> I { a - b }
            pub fn mul(a: I, b: I) -> I { a * b }
            pub fn div(a: I, b: I) -> I { a / b }
            pub fn add_assign(mut a: I, b: I) -> I { a += b; a }
            pub fn sub_assign(mut a: I, b: I) -> I { a -= b; a }
            pub fn mul_assign(mut a: I, b: I) -> I { a *= b; a }
            pub fn div_assign(mut a: I, b: I) -> I { a /= b; a }
            pub fn add_t(a: I, b: $t) -> I { a + b }
            pub fn sub_t(a: I, b: $t) -> I { a - b }
            pub fn mul_t(a: I, b: $t) -> I { a * b }
            pub fn div_t(a: I, b: $t) -> I { a / b }
            pub fn mul_assign_t(mut a: I, b: $t) -> I { a *= b; a }
            pub fn div_assign_t(mut a: I, b: $t) -> I { a /= b; a }
            pub fn recip(a: I) -> I { GFloat::recip(a) }
            pub fn square(a: I) -> I { Interval::square(a) }
            pub fn square_trait(a: I) -> I { Scalar::square(a) }
            pub fn sqrt(a: I) -> I { Interval::sqrt(a) }
            pub fn sqrt_trait(a: I) -> I { GFloat::sqrt(a) }
            pub fn abs(a: I) -> I { SignedScalar::abs(a) }
            pub fn signum(a: I) -> I { SignedScalar::signum(a) }
            pub fn min(a: I, b: I) -> I { Scalar::min(a, b) }
            pub fn max(a: I, b: I) -> I { Scalar::max(a, b) }
            pub fn min_max(a: I, b: I) -> (I, I) { Scalar::min_max(a, b) }
            pub fn clamp(a: I, b: I, c: I) -> I { Scalar::clamp(a, b, c) }
            pub fn union(a: I, b: I) -> I { a.union(b) }
            pub fn intersect(a: I, b: I) -> I { a.intersect(b) }
            pub fn extend(a: I) -> I { a.extend_by_ulp() }
            pub fn from_t(a: $t) -> I { Interval::from(a) }
            pub fn from_pair(a: $t, b: $t) -> I { Interval::from((a, b)) }
            pub fn new(a: $t, b: $t) -> I { Interval::new(a, b) }
        }
    };
}
m!(f32_, f32);
m!(f64_, f64);
