use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::ray::*;

pub mod b {
    use super::*;
    pub fn hit(b: Bbox3, r: Rayf) -> Option<(f32, f32)> { b.intersect_ray(r) }
}
