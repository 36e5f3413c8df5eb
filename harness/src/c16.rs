use scarlet::geometry::bbox::Bbox3;
use scarlet::math::transform::*;

pub mod b {
    use super::*;
    pub fn map(m: Matrix4x4f, i: Matrix4x4f, b: Bbox3) -> Bbox3 { Transformf::new(m, i).map(b) }
    pub fn map_inverse(m: Matrix4x4f, i: Matrix4x4f, b: Bbox3) -> Bbox3 { Transformf::new(m, i).map_inverse(b) }
    pub fn tmap(m: Matrix4x4f, i: Matrix4x4f, b: Bbox3) -> Bbox3 { TransformMap::map(&Transformf::new(m, i), b) }
    pub fn tmap_inverse(m: Matrix4x4f, i: Matrix4x4f, b: Bbox3) -> Bbox3 { TransformMap::map_inverse(&Transformf::new(m, i), b) }
}
