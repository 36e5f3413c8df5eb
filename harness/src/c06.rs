use scarlet::math::scalar::GFloat;
macro_rules! steps {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn up(a: $t) -> $t { GFloat::next_up(a) }
            pub fn down(a: $t) -> $t { GFloat::next_down(a) }
        }
    };
}
steps!(f32_, f32);
steps!(f64_, f64);
