use scarlet::cameras::camera::*;
use scarlet::cameras::thin_lens::*;
use scarlet::geometry::ray::*;
use scarlet::math::transform::*;
use scarlet::math::vector::*;

pub mod t {
    use super::*;
    pub fn gen(m: Matrix4x4f, i: Matrix4x4f, fd: f32, fov: f32, fl: f32, lr: f32, ar: f32, pf: Point2f, pl: Point2f) -> (Rayf, Point2f) {
        let cam = ThinLensCamera::new(Transform::new(m, i), fd, fov, fl, lr, ar);
        (cam.generate_ray(CameraSample::new(pf, pl)), concentric_sample_disk(pl))
    }
    pub fn uniform(p: Point2f) -> Point2f { uniform_sample_disk(p) }
}
