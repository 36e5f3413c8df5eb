use crate::child::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::*;

fn aux_list(c: &[Child]) -> PrimitiveList {
    let mut l = PrimitiveList::new();
    for x in c {
        l.add_primitive(*x);
    }
    l
}
pub mod l {
    use super::*;
    pub fn hit0(r: Rayf) -> Option<Flat> { PrimitiveList::new().intersect(r).map(flat) }
    pub fn hit1(a: Child, r: Rayf) -> Option<Flat> { aux_list(&[a]).intersect(r).map(flat) }
    pub fn hit2(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_list(&[a, b]).intersect(r).map(flat) }
    pub fn hit3(a: Child, b: Child, c: Child, r: Rayf) -> Option<Flat> { aux_list(&[a, b, c]).intersect(r).map(flat) }
    pub fn hit4(a: Child, b: Child, c: Child, d: Child, r: Rayf) -> Option<Flat> { aux_list(&[a, b, c, d]).intersect(r).map(flat) }
    pub fn box0() -> Bbox3 { PrimitiveList::new().bbox() }
    pub fn box1(a: Child) -> Bbox3 { aux_list(&[a]).bbox() }
    pub fn box2(a: Child, b: Child) -> Bbox3 { aux_list(&[a, b]).bbox() }
    pub fn box3(a: Child, b: Child, c: Child) -> Bbox3 { aux_list(&[a, b, c]).bbox() }
    pub fn box4(a: Child, b: Child, c: Child, d: Child) -> Bbox3 { aux_list(&[a, b, c, d]).bbox() }
    pub fn default_box() -> Bbox3 { Bbox3::default() }
    pub fn handle_hit(a: Child, r: Rayf) -> Option<Flat> { alloc_primitive(a).intersect(r).map(flat) }
    pub fn handle_test(a: Child, r: Rayf) -> bool { alloc_primitive(a).do_intersect(r) }
    pub fn handle_box(a: Child) -> Bbox3 { alloc_primitive(a).bbox() }
    pub fn nested(a: Child, b: Child, c: Child, r: Rayf) -> Option<Flat> {
        let mut l = PrimitiveList::new();
        l.add_primitive(aux_list(&[a, b]));
        l.add_primitive(c);
        l.intersect(r).map(flat)
    }
    pub fn long_hit_0_3(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 3, b).intersect(r).map(flat) }
    pub fn long_box_0_3(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 3, b).bbox() }
    pub fn long_hit_0_4(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 4, b).intersect(r).map(flat) }
    pub fn long_box_0_4(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 4, b).bbox() }
    pub fn long_hit_0_5(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 5, b).intersect(r).map(flat) }
    pub fn long_box_0_5(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 5, b).bbox() }
    pub fn long_hit_0_6(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 6, b).intersect(r).map(flat) }
    pub fn long_box_0_6(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 6, b).bbox() }
    pub fn long_hit_0_7(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 7, b).intersect(r).map(flat) }
    pub fn long_box_0_7(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 7, b).bbox() }
    pub fn long_hit_0_8(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 8, b).intersect(r).map(flat) }
    pub fn long_box_0_8(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 8, b).bbox() }
    pub fn long_hit_0_10(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 10, b).intersect(r).map(flat) }
    pub fn long_box_0_10(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 10, b).bbox() }
    pub fn long_hit_0_14(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 14, b).intersect(r).map(flat) }
    pub fn long_box_0_14(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 14, b).bbox() }
    pub fn long_hit_0_15(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 15, b).intersect(r).map(flat) }
    pub fn long_box_0_15(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 15, b).bbox() }
    pub fn long_hit_0_16(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 16, b).intersect(r).map(flat) }
    pub fn long_box_0_16(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 16, b).bbox() }
    pub fn long_hit_0_30(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 30, b).intersect(r).map(flat) }
    pub fn long_box_0_30(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 30, b).bbox() }
    pub fn long_hit_0_31(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 31, b).intersect(r).map(flat) }
    pub fn long_box_0_31(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 31, b).bbox() }
    pub fn long_hit_0_62(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 62, b).intersect(r).map(flat) }
    pub fn long_box_0_62(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 62, b).bbox() }
    pub fn long_hit_0_63(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 63, b).intersect(r).map(flat) }
    pub fn long_box_0_63(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 63, b).bbox() }
    pub fn long_hit_0_98(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 98, b).intersect(r).map(flat) }
    pub fn long_box_0_98(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 98, b).bbox() }
    pub fn long_hit_0_126(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 126, b).intersect(r).map(flat) }
    pub fn long_box_0_126(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 126, b).bbox() }
    pub fn long_hit_0_127(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 127, b).intersect(r).map(flat) }
    pub fn long_box_0_127(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 127, b).bbox() }
    pub fn long_hit_0_160(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 160, b).intersect(r).map(flat) }
    pub fn long_box_0_160(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 160, b).bbox() }
    pub fn long_hit_2_2(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(2, a, 2, b).intersect(r).map(flat) }
    pub fn long_box_2_2(a: Child, b: Child) -> Bbox3 { aux_long(2, a, 2, b).bbox() }
    pub fn long_hit_4_4(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(4, a, 4, b).intersect(r).map(flat) }
    pub fn long_box_4_4(a: Child, b: Child) -> Bbox3 { aux_long(4, a, 4, b).bbox() }
    pub fn long_hit_7_8(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(7, a, 8, b).intersect(r).map(flat) }
    pub fn long_box_7_8(a: Child, b: Child) -> Bbox3 { aux_long(7, a, 8, b).bbox() }
    pub fn long_hit_8_3(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(8, a, 3, b).intersect(r).map(flat) }
    pub fn long_box_8_3(a: Child, b: Child) -> Bbox3 { aux_long(8, a, 3, b).bbox() }
    pub fn long_hit_16_16(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(16, a, 16, b).intersect(r).map(flat) }
    pub fn long_box_16_16(a: Child, b: Child) -> Bbox3 { aux_long(16, a, 16, b).bbox() }
    pub fn long_hit_31_32(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(31, a, 32, b).intersect(r).map(flat) }
    pub fn long_box_31_32(a: Child, b: Child) -> Bbox3 { aux_long(31, a, 32, b).bbox() }
    pub fn long_hit_50_50(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(50, a, 50, b).intersect(r).map(flat) }
    pub fn long_box_50_50(a: Child, b: Child) -> Bbox3 { aux_long(50, a, 50, b).bbox() }
    pub fn long_hit_64_64(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(64, a, 64, b).intersect(r).map(flat) }
    pub fn long_box_64_64(a: Child, b: Child) -> Bbox3 { aux_long(64, a, 64, b).bbox() }
    pub fn long_hit_0_254(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 254, b).intersect(r).map(flat) }
    pub fn long_box_0_254(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 254, b).bbox() }
    pub fn long_hit_0_255(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 255, b).intersect(r).map(flat) }
    pub fn long_box_0_255(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 255, b).bbox() }
    pub fn long_hit_0_256(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 256, b).intersect(r).map(flat) }
    pub fn long_box_0_256(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 256, b).bbox() }
    pub fn long_hit_0_300(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 300, b).intersect(r).map(flat) }
    pub fn long_box_0_300(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 300, b).bbox() }
    pub fn long_hit_128_129(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(128, a, 129, b).intersect(r).map(flat) }
    pub fn long_box_128_129(a: Child, b: Child) -> Bbox3 { aux_long(128, a, 129, b).bbox() }
    pub fn long_hit_200_100(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(200, a, 100, b).intersect(r).map(flat) }
    pub fn long_box_200_100(a: Child, b: Child) -> Bbox3 { aux_long(200, a, 100, b).bbox() }
    pub fn long_hit_0_1022(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(0, a, 1022, b).intersect(r).map(flat) }
    pub fn long_box_0_1022(a: Child, b: Child) -> Bbox3 { aux_long(0, a, 1022, b).bbox() }
    pub fn long_hit_510_510(a: Child, b: Child, r: Rayf) -> Option<Flat> { aux_long(510, a, 510, b).intersect(r).map(flat) }
    pub fn long_box_510_510(a: Child, b: Child) -> Bbox3 { aux_long(510, a, 510, b).bbox() }
}
