use scarlet::cameras::camera::*;
use scarlet::math::vector::*;

pub mod t {
    use super::*;
    pub fn uniform(p: Point2f) -> Point2f { uniform_sample_disk(p) }
    pub fn concentric(p: Point2f) -> Point2f { concentric_sample_disk(p) }
}
