use crate::child::{flat, Flat};
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::*;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::vector::*;

pub mod t {
    use super::*;
    pub fn sphere(radius: f32, z0: f32, z1: f32, phi: f32, r: Rayf) -> Option<Flat> {
        Sphere::new(radius, z0, z1, phi).intersect(r).map(flat)
    }
    pub fn bbox(b: Bbox3, r: Rayf) -> Option<Flat> { IntersectsRay::intersect(&b, r).map(flat) }
    pub fn record(p: Point3f, uv: Point2f, dpdu: Vector3f, dpdv: Vector3f) -> Flat {
        flat(IntersectionResult { surface_interaction: SurfaceInteraction::new(p, uv, dpdu, dpdv), t_ray: 0.0 })
    }
}
