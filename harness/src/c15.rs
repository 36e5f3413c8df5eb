use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::Bounded3;
use scarlet::math::vector::*;

pub mod b {
    use super::*;
    pub fn new(p: Point3f, q: Point3f) -> Bbox3 { Bbox3::new(p, q) }
    pub fn union(a: Bbox3, b: Bbox3) -> Bbox3 { a.union(&b) }
    pub fn add(a: Bbox3, b: Bbox3) -> Bbox3 { a + b }
    pub fn add_assign(a: Bbox3, b: Bbox3) -> Bbox3 { let mut r = a; r += b; r }
    pub fn intersect(a: Bbox3, b: Bbox3) -> Bbox3 { a.intersect(&b) }
    pub fn overlaps(a: Bbox3, b: Bbox3) -> bool { a.overlaps(&b) }
    pub fn inside(a: Bbox3, p: Point3f) -> bool { a.inside(p) }
    pub fn diagonal(a: Bbox3) -> Vector3f { a.diagonal() }
    pub fn center(a: Bbox3) -> Point3f { a.center() }
    pub fn max_extent(a: Bbox3) -> ((f32, f32), u8) { a.max_extent() }
    pub fn default_union(a: Bbox3) -> Bbox3 { Bbox3::default().union(&a) }
    pub fn union_default(a: Bbox3) -> Bbox3 { a.union(&Bbox3::default()) }
    pub fn bbox(a: Bbox3) -> Bbox3 { a.bbox() }
    pub fn limits(a: Bbox3) -> [f32; 6] { [a.xmin(), a.ymin(), a.zmin(), a.xmax(), a.ymax(), a.zmax()] }
    pub fn clone(a: Bbox3) -> Bbox3 { a.clone() }
}
