use crate::child::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::*;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::transform::*;
use scarlet::math::vector::*;

/// a primitive that reports a fixed point
#[derive(Clone, Copy)]
pub struct Spot {
    pub c: Child,
    pub p: Point3f,
}
impl Bounded3 for Spot {
    fn bbox(&self) -> Bbox3 { self.c.bbox() }
}
impl IntersectsRay for Spot {
    fn do_intersect(&self, r: Rayf) -> bool { self.c.do_intersect(r) }
    fn intersect(&self, r: Rayf) -> Option<IntersectionResult> {
        let mut h = self.c.intersect(r)?;
        h.surface_interaction.p = self.p;
        Some(h)
    }
}
impl Primitive for Spot {}

fn aux_hit<P: Primitive>(p: P, r: Rayf) -> (Option<Point3f>, Bbox3) {
    (p.intersect(r).map(|h| h.surface_interaction.p), p.bbox())
}
pub mod t {
    use super::*;
    pub fn bbox(b: Bbox3, r: Rayf) -> (Option<(f32, Point3f)>, Bbox3) {
        (IntersectsRay::intersect(&b, r).map(|h| (h.t_ray, h.surface_interaction.p)), b.bbox())
    }
    pub fn sphere(radius: f32, z0: f32, z1: f32, phi: f32, r: Rayf) -> (Option<Point3f>, Bbox3) {
        aux_hit(Sphere::new(radius, z0, z1, phi), r)
    }
    pub fn limits(radius: f32, z0: f32, z1: f32, phi: f32) -> ([f32; 6], Bbox3) {
        let s = Sphere::new(radius, z0, z1, phi);
        ([s.xmin(), s.ymin(), s.zmin(), s.xmax(), s.ymax(), s.zmax()], s.bbox())
    }
    pub fn area(radius: f32, z0: f32, z1: f32, phi: f32) -> f32 { Sphere::new(radius, z0, z1, phi).area() }
    pub fn moved(s: Spot, m: Matrix4x4f, i: Matrix4x4f, r: Rayf) -> (Option<Point3f>, Bbox3) {
        aux_hit(TransformedPrimitive::new(s, Transform::new(m, i)), r)
    }
    pub fn moved_box(m: Matrix4x4f, i: Matrix4x4f, s: Spot) -> Bbox3 { TransformedPrimitive::new(s, Transform::new(m, i)).bbox() }
    pub fn list(a: Spot, b: Spot, r: Rayf) -> (Option<Point3f>, Bbox3) {
        let mut l = PrimitiveList::new();
        l.add_primitive(a);
        l.add_primitive(b);
        aux_hit(l, r)
    }
}
