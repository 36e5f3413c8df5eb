use crate::child::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::*;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::transform::*;

fn aux_t<P: IntersectsRay>(p: P, r: Rayf) -> Option<f32> { p.intersect(r).map(|h| h.t_ray) }
fn aux_list(c: &[Child]) -> PrimitiveList {
    let mut l = PrimitiveList::new();
    for x in c {
        l.add_primitive(*x);
    }
    l
}
pub mod t {
    use super::*;
    pub fn range(b: Bbox3, r: Rayf) -> Option<(f32, f32)> { b.intersect_ray(r) }
    pub fn bbox(b: Bbox3, r: Rayf) -> Option<f32> { aux_t(b, r) }
    pub fn sphere(radius: f32, z0: f32, z1: f32, phi: f32, r: Rayf) -> Option<f32> { aux_t(Sphere::new(radius, z0, z1, phi), r) }
    pub fn moved(c: Child, m: Matrix4x4f, i: Matrix4x4f, r: Rayf) -> Option<f32> {
        aux_t(TransformedPrimitive::new(c, Transform::new(m, i)), r)
    }
    pub fn list1(a: Child, r: Rayf) -> Option<f32> { aux_t(aux_list(&[a]), r) }
    pub fn list2(a: Child, b: Child, r: Rayf) -> Option<f32> { aux_t(aux_list(&[a, b]), r) }
    pub fn list3(a: Child, b: Child, c: Child, r: Rayf) -> Option<f32> { aux_t(aux_list(&[a, b, c]), r) }
    pub fn moved_list(a: Child, b: Child, m: Matrix4x4f, i: Matrix4x4f, r: Rayf) -> Option<f32> {
        aux_t(TransformedPrimitive::new(aux_list(&[a, b]), Transform::new(m, i)), r)
    }
}
