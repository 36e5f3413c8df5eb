use scarlet::math::interval::Interval;
use scarlet::math::scalar::GFloat;
macro_rules! m {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            type I = Interval<$t>;
            pub fn sin(a: I) -> I { GFloat::sin(a) }
            pub fn cos(a: I) -> I { GFloat::cos(a) }
            pub fn sin_cos(a: I) -> (I, I) { GFloat::sin_cos(a) }
            pub fn tan(a: I) -> I { GFloat::tan(a) }
            pub fn asin(a: I) -> I { GFloat::asin(a) }
            pub fn acos(a: I) -> I { GFloat::acos(a) }
            pub fn atan(a: I) -> I { GFloat::atan(a) }
            pub fn atan2(a: I, b: I) -> I { GFloat::atan2(a, b) }
            pub fn from_i64(a: i64) -> I { <I as GFloat>::from_i64(a) }
            pub fn from_f32(a: f32) -> I { <I as GFloat>::from_f32(a) }
            pub fn from_f64(a: f64) -> I { <I as GFloat>::from_f64(a) }
            pub fn pi() -> I { <I as GFloat>::pi() }
            pub fn tau() -> I { <I as GFloat>::tau() }
            pub fn frac_pi_2() -> I { <I as GFloat>::frac_pi_2() }
            pub fn frac_pi_4() -> I { <I as GFloat>::frac_pi_4() }
            pub fn s_pi() -> ($t, $t) { (<$t as GFloat>::pi_lower(), <$t as GFloat>::pi_upper()) }
            pub fn s_tau() -> ($t, $t) { (<$t as GFloat>::tau_lower(), <$t as GFloat>::tau_upper()) }
            pub fn s_frac_pi_2() -> ($t, $t) { (<$t as GFloat>::frac_pi_2_lower(), <$t as GFloat>::frac_pi_2_upper()) }
            pub fn s_frac_pi_4() -> ($t, $t) { (<$t as GFloat>::frac_pi_4_lower(), <$t as GFloat>::frac_pi_4_upper()) }
        }
    };
}
m!(f32_, f32);
m!(f64_, f64);
