use scarlet::math::interval::Interval;
use scarlet::math::scalar::{GFloat, Scalar, SignedScalar};
macro_rules! scalar {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn zero() -> $t { <$t as Scalar>::zero() }
            pub fn one() -> $t { <$t as Scalar>::one() }
            pub fn two() -> $t { <$t as Scalar>::two() }
            pub fn lowest() -> $t { <$t as Scalar>::lowest() }
            pub fn highest() -> $t { <$t as Scalar>::highest() }
            pub fn is_zero(a: $t) -> bool { Scalar::is_zero(a) }
            pub fn is_one(a: $t) -> bool { Scalar::is_one(a) }
            pub fn min(a: $t, b: $t) -> $t { Scalar::min(a, b) }
            pub fn max(a: $t, b: $t) -> $t { Scalar::max(a, b) }
            pub fn min_max(a: $t, b: $t) -> ($t, $t) { Scalar::min_max(a, b) }
            pub fn clamp(a: $t, b: $t, c: $t) -> $t { Scalar::clamp(a, b, c) }
            pub fn in_range(a: $t, b: $t, c: $t) -> bool { Scalar::in_range(a, b, c) }
            pub fn square(a: $t) -> $t { Scalar::square(a) }
        }
    };
}
macro_rules! signed {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn is_positive(a: $t) -> bool { SignedScalar::is_positive(a) }
            pub fn is_negative(a: $t) -> bool { SignedScalar::is_negative(a) }
            pub fn is_nonpositive(a: $t) -> bool { SignedScalar::is_nonpositive(a) }
            pub fn is_nonnegative(a: $t) -> bool { SignedScalar::is_nonnegative(a) }
            pub fn signum(a: $t) -> $t { SignedScalar::signum(a) }
            pub fn abs(a: $t) -> $t { SignedScalar::abs(a) }
        }
    };
}
macro_rules! float {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn nan() -> $t { <$t as GFloat>::nan() }
            pub fn infinity() -> $t { <$t as GFloat>::infinity() }
            pub fn neg_infinity() -> $t { <$t as GFloat>::neg_infinity() }
            pub fn neg_zero() -> $t { <$t as GFloat>::neg_zero() }
            pub fn min_positive_value() -> $t { <$t as GFloat>::min_positive_value() }
            pub fn half() -> $t { <$t as GFloat>::half() }
            pub fn pi() -> $t { <$t as GFloat>::pi() }
            pub fn tau() -> $t { <$t as GFloat>::tau() }
            pub fn frac_pi_2() -> $t { <$t as GFloat>::frac_pi_2() }
            pub fn frac_pi_4() -> $t { <$t as GFloat>::frac_pi_4() }
            pub fn abs_epsilon() -> $t { <$t as GFloat>::abs_epsilon() }
            pub fn rel_epsilon() -> $t { <$t as GFloat>::rel_epsilon() }
            pub fn is_nan(a: $t) -> bool { GFloat::is_nan(a) }
            pub fn is_finite(a: $t) -> bool { GFloat::is_finite(a) }
            pub fn is_infinite(a: $t) -> bool { GFloat::is_infinite(a) }
            pub fn recip(a: $t) -> $t { GFloat::recip(a) }
            pub fn sqrt(a: $t) -> $t { GFloat::sqrt(a) }
            pub fn sin(a: $t) -> $t { GFloat::sin(a) }
            pub fn cos(a: $t) -> $t { GFloat::cos(a) }
            pub fn sin_cos(a: $t) -> ($t, $t) { GFloat::sin_cos(a) }
            pub fn tan(a: $t) -> $t { GFloat::tan(a) }
            pub fn asin(a: $t) -> $t { GFloat::asin(a) }
            pub fn acos(a: $t) -> $t { GFloat::acos(a) }
            pub fn atan(a: $t) -> $t { GFloat::atan(a) }
            pub fn atan2(a: $t, b: $t) -> $t { GFloat::atan2(a, b) }
            pub fn to_i64(a: $t) -> i64 { GFloat::to_i64(a) }
            pub fn to_f32(a: $t) -> f32 { GFloat::to_f32(a) }
            pub fn to_f64(a: $t) -> f64 { GFloat::to_f64(a) }
            pub fn from_i64(a: i64) -> $t { <$t as GFloat>::from_i64(a) }
            pub fn from_f32(a: f32) -> $t { <$t as GFloat>::from_f32(a) }
            pub fn from_f64(a: f64) -> $t { <$t as GFloat>::from_f64(a) }
        }
    };
}
macro_rules! interval {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn zero() -> $t { <$t as Scalar>::zero() }
            pub fn one() -> $t { <$t as Scalar>::one() }
            pub fn two() -> $t { <$t as Scalar>::two() }
            pub fn lowest() -> $t { <$t as Scalar>::lowest() }
            pub fn highest() -> $t { <$t as Scalar>::highest() }
            pub fn nan() -> $t { <$t as GFloat>::nan() }
            pub fn infinity() -> $t { <$t as GFloat>::infinity() }
            pub fn neg_infinity() -> $t { <$t as GFloat>::neg_infinity() }
            pub fn neg_zero() -> $t { <$t as GFloat>::neg_zero() }
            pub fn min_positive_value() -> $t { <$t as GFloat>::min_positive_value() }
            pub fn half() -> $t { <$t as GFloat>::half() }
            pub fn abs_epsilon() -> $t { <$t as GFloat>::abs_epsilon() }
            pub fn rel_epsilon() -> $t { <$t as GFloat>::rel_epsilon() }
            pub fn is_nan(a: $t) -> bool { GFloat::is_nan(a) }
            pub fn is_finite(a: $t) -> bool { GFloat::is_finite(a) }
            pub fn is_infinite(a: $t) -> bool { GFloat::is_infinite(a) }
        }
    };
}
scalar!(u8_, u8);
scalar!(u16_, u16);
scalar!(u32_, u32);
scalar!(u64_, u64);
scalar!(i8_, i8);
scalar!(i16_, i16);
scalar!(i32_, i32);
scalar!(i64_, i64);
scalar!(f32_, f32);
scalar!(f64_, f64);
signed!(si8, i8);
signed!(si16, i16);
signed!(si32, i32);
signed!(si64, i64);
signed!(sf32, f32);
signed!(sf64, f64);
float!(gf32, f32);
float!(gf64, f64);
interval!(if32, Interval<f32>);
interval!(if64, Interval<f64>);
