use crate::child::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::*;
use scarlet::math::transform::*;

pub mod t {
    use super::*;
    pub fn hit(c: Child, m: Matrix4x4f, i: Matrix4x4f, r: Rayf) -> Option<Flat> {
        TransformedPrimitive::new(c, Transform::new(m, i)).intersect(r).map(flat)
    }
    pub fn test(c: Child, m: Matrix4x4f, i: Matrix4x4f, r: Rayf) -> bool {
        TransformedPrimitive::new(c, Transform::new(m, i)).do_intersect(r)
    }
    pub fn nested(c: Child, m: Matrix4x4f, i: Matrix4x4f, m2: Matrix4x4f, i2: Matrix4x4f, r: Rayf) -> Option<Flat> {
        let a = TransformedPrimitive::new(c, Transform::new(m, i));
        TransformedPrimitive::new(a, Transform::new(m2, i2)).intersect(r).map(flat)
    }
    pub fn bbox(m: Matrix4x4f, i: Matrix4x4f, c: Child) -> Bbox3 { TransformedPrimitive::new(c, Transform::new(m, i)).bbox() }
}
