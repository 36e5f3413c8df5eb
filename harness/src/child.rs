//! An arbitrary primitive: where it is hit, and what it reports, depends on its fields and the ray it is given.
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::*;
use scarlet::math::vector::*;

#[derive(Clone, Copy)]
pub struct Child {
    pub h: f32,
    pub a: Vector3f,
    pub b: Vector3f,
    pub n: Normal3f,
    pub uv: Point2f,
    pub dpdv: Vector3f,
    pub lo: Point3f,
    pub hi: Point3f,
}

impl Child {
    fn lit(&self, r: Rayf) -> bool {
        self.h >= 0.0
            && self.h <= r.tmax
            && self.a.x() * r.origin.x() + self.a.y() * r.origin.y() + self.a.z() * r.origin.z()
                + (self.b.x() * r.direction.x() + self.b.y() * r.direction.y() + self.b.z() * r.direction.z())
                > 1.0
    }
}
impl Bounded3 for Child {
    fn bbox(&self) -> Bbox3 { Bbox3 { pmin: self.lo, pmax: self.hi } }
}
impl IntersectsRay for Child {
    fn do_intersect(&self, r: Rayf) -> bool { self.lit(r) }
    fn intersect(&self, r: Rayf) -> Option<IntersectionResult> {
        if self.lit(r) {
            Some(IntersectionResult {
                surface_interaction: SurfaceInteraction { p: r.origin, n: self.n, uv: self.uv, dpdu: r.direction, dpdv: self.dpdv },
                t_ray: self.h,
            })
        } else {
            None
        }
    }
}
impl Primitive for Child {}

/// a primitive no ray meets, with an empty box
#[derive(Clone, Copy)]
pub struct Miss;
impl Bounded3 for Miss {
    fn bbox(&self) -> Bbox3 { Bbox3::default() }
}
impl IntersectsRay for Miss {
    fn do_intersect(&self, _: Rayf) -> bool { false }
    fn intersect(&self, _: Rayf) -> Option<IntersectionResult> { None }
}
impl Primitive for Miss {}
/// a among i primitives before it and j behind it, then b
pub fn aux_long(i: usize, a: Child, j: usize, b: Child) -> PrimitiveList {
    let mut l = PrimitiveList::new();
    for _ in 0..i {
        l.add_primitive(Miss);
    }
    l.add_primitive(a);
    for _ in 0..j {
        l.add_primitive(Miss);
    }
    l.add_primitive(b);
    l
}

pub type Flat = (f32, [[f32; 3]; 4], [f32; 2]);
/// the parts of a hit record in a fixed order
pub fn flat(h: IntersectionResult) -> Flat {
    let s = h.surface_interaction;
    (
        h.t_ray,
        [
            [s.p.x(), s.p.y(), s.p.z()],
            [s.n.x(), s.n.y(), s.n.z()],
            [s.dpdu.x(), s.dpdu.y(), s.dpdu.z()],
            [s.dpdv.x(), s.dpdv.y(), s.dpdv.z()],
        ],
        [s.uv.x(), s.uv.y()],
    )
}
