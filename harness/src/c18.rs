use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::*;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::vector::*;

pub mod s {
    use super::*;
    pub fn hit(r: f32, z0: f32, z1: f32, phi: f32, ray: Rayf) -> Option<f32> {
        Sphere::new(r, z0, z1, phi).intersect(ray).map(|h| h.t_ray)
    }
}
