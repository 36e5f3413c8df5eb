use scarlet::math::interval::Interval;
use scarlet::math::scalar::{Scalar, SignedScalar};
use std::cmp::Ordering;
fn code(o: Option<Ordering>) -> i32 {
    match o {
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
        None => 3,
    }
}
macro_rules! m {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            type I = Interval<$t>;
            pub fn cmp_i(a: I, b: I) -> i32 { code(a.partial_cmp(&b)) }
            pub fn eq_i(a: I, b: I) -> bool { a == b }
            pub fn ne_i(a: I, b: I) -> bool { a != b }
            pub fn lt_i(a: I, b: I) -> bool { a < b }
            pub fn le_i(a: I, b: I) -> bool { a <= b }
            pub fn gt_i(a: I, b: I) -> bool { a > b }
            pub fn ge_i(a: I, b: I) -> bool { a >= b }
            pub fn cmp_t(a: I, b: $t) -> i32 { code(a.partial_cmp(&b)) }
            pub fn eq_t(a: I, b: $t) -> bool { a == b }
            pub fn ne_t(a: I, b: $t) -> bool { a != b }
            pub fn lt_t(a: I, b: $t) -> bool { a < b }
            pub fn le_t(a: I, b: $t) -> bool { a <= b }
            pub fn gt_t(a: I, b: $t) -> bool { a > b }
            pub fn ge_t(a: I, b: $t) -> bool { a >= b }
            pub fn own_is_positive(a: I) -> bool { Interval::is_positive(a) }
            pub fn own_is_negative(a: I) -> bool { Interval::is_negative(a) }
            pub fn own_is_nonpositive(a: I) -> bool { Interval::is_nonpositive(a) }
            pub fn own_is_nonnegative(a: I) -> bool { Interval::is_nonnegative(a) }
            pub fn own_in_range(a: I, b: $t, c: $t) -> bool { Interval::in_range(a, b, c) }
            pub fn is_positive(a: I) -> bool { SignedScalar::is_positive(a) }
            pub fn is_negative(a: I) -> bool { SignedScalar::is_negative(a) }
            pub fn is_nonpositive(a: I) -> bool { SignedScalar::is_nonpositive(a) }
            pub fn is_nonnegative(a: I) -> bool { SignedScalar::is_nonnegative(a) }
            pub fn in_range(a: I, b: I, c: I) -> bool { Scalar::in_range(a, b, c) }
            pub fn is_zero(a: I) -> bool { Scalar::is_zero(a) }
            pub fn is_one(a: I) -> bool { Scalar::is_one(a) }
        }
    };
}
m!(f32_, f32);
m!(f64_, f64);
