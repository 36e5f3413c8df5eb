use crate::child::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::*;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::transform::*;

fn aux_both<P: IntersectsRay>(p: P, r: Rayf) -> (bool, bool) { (p.do_intersect(r), p.intersect(r).is_some()) }
fn aux_list(c: &[Child]) -> PrimitiveList {
    let mut l = PrimitiveList::new();
    for x in c {
        l.add_primitive(*x);
    }
    l
}
pub mod t {
    use super::*;
    pub fn bbox(b: Bbox3, r: Rayf) -> (bool, bool) { aux_both(b, r) }
    pub fn sphere(radius: f32, z0: f32, z1: f32, phi: f32, r: Rayf) -> (bool, bool) { aux_both(Sphere::new(radius, z0, z1, phi), r) }
    pub fn moved(c: Child, m: Matrix4x4f, i: Matrix4x4f, r: Rayf) -> (bool, bool) {
        aux_both(TransformedPrimitive::new(c, Transform::new(m, i)), r)
    }
    pub fn list0(r: Rayf) -> (bool, bool) { aux_both(PrimitiveList::new(), r) }
    pub fn list1(a: Child, r: Rayf) -> (bool, bool) { aux_both(aux_list(&[a]), r) }
    pub fn list2(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_list(&[a, b]), r) }
    pub fn list3(a: Child, b: Child, c: Child, r: Rayf) -> (bool, bool) { aux_both(aux_list(&[a, b, c]), r) }
    pub fn moved_list(a: Child, b: Child, m: Matrix4x4f, i: Matrix4x4f, r: Rayf) -> (bool, bool) {
        aux_both(TransformedPrimitive::new(aux_list(&[a, b]), Transform::new(m, i)), r)
    }
    pub fn long_0_3(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 3, b), r) }
    pub fn long_0_4(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 4, b), r) }
    pub fn long_0_5(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 5, b), r) }
    pub fn long_0_6(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 6, b), r) }
    pub fn long_0_7(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 7, b), r) }
    pub fn long_0_8(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 8, b), r) }
    pub fn long_0_10(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 10, b), r) }
    pub fn long_0_14(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 14, b), r) }
    pub fn long_0_15(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 15, b), r) }
    pub fn long_0_16(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 16, b), r) }
    pub fn long_0_30(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 30, b), r) }
    pub fn long_0_31(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 31, b), r) }
    pub fn long_0_62(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 62, b), r) }
    pub fn long_0_63(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 63, b), r) }
    pub fn long_0_98(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 98, b), r) }
    pub fn long_0_126(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 126, b), r) }
    pub fn long_0_127(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 127, b), r) }
    pub fn long_0_160(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 160, b), r) }
    pub fn long_2_2(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(2, a, 2, b), r) }
    pub fn long_4_4(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(4, a, 4, b), r) }
    pub fn long_7_8(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(7, a, 8, b), r) }
    pub fn long_8_3(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(8, a, 3, b), r) }
    pub fn long_16_16(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(16, a, 16, b), r) }
    pub fn long_31_32(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(31, a, 32, b), r) }
    pub fn long_50_50(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(50, a, 50, b), r) }
    pub fn long_64_64(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(64, a, 64, b), r) }
    pub fn long_0_254(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 254, b), r) }
    pub fn long_0_255(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 255, b), r) }
    pub fn long_0_256(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 256, b), r) }
    pub fn long_0_300(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 300, b), r) }
    pub fn long_128_129(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(128, a, 129, b), r) }
    pub fn long_200_100(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(200, a, 100, b), r) }
    pub fn long_0_1022(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(0, a, 1022, b), r) }
    pub fn long_510_510(a: Child, b: Child, r: Rayf) -> (bool, bool) { aux_both(aux_long(510, a, 510, b), r) }
}
