// Generated by tools/gen_wide.py; do not edit.
use crate::kit::*;
use sparsey::query::Query;
use sparsey::Entity;

pub const CHAINS: [[usize; 16]; 2] = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [3, 8, 13, 2, 7, 12, 1, 6, 11, 0, 5, 10, 15, 4, 9, 14]];
pub struct S0;
impl SetDef for S0 {
    type T = (W0,);
    const TYPES: &'static [usize] = &[0];
    fn make(i: &[u32]) -> Self::T { (W0::make(i[0]),) }
    fn took(r: (Option<W0>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S1;
impl SetDef for S1 {
    type T = (W1,);
    const TYPES: &'static [usize] = &[1];
    fn make(i: &[u32]) -> Self::T { (W1::make(i[0]),) }
    fn took(r: (Option<W1>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S2;
impl SetDef for S2 {
    type T = (W2,);
    const TYPES: &'static [usize] = &[2];
    fn make(i: &[u32]) -> Self::T { (W2::make(i[0]),) }
    fn took(r: (Option<W2>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S3;
impl SetDef for S3 {
    type T = (W3,);
    const TYPES: &'static [usize] = &[3];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]),) }
    fn took(r: (Option<W3>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S4;
impl SetDef for S4 {
    type T = (W4,);
    const TYPES: &'static [usize] = &[4];
    fn make(i: &[u32]) -> Self::T { (W4::make(i[0]),) }
    fn took(r: (Option<W4>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S5;
impl SetDef for S5 {
    type T = (W5,);
    const TYPES: &'static [usize] = &[5];
    fn make(i: &[u32]) -> Self::T { (W5::make(i[0]),) }
    fn took(r: (Option<W5>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S6;
impl SetDef for S6 {
    type T = (W6,);
    const TYPES: &'static [usize] = &[6];
    fn make(i: &[u32]) -> Self::T { (W6::make(i[0]),) }
    fn took(r: (Option<W6>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S7;
impl SetDef for S7 {
    type T = (W7,);
    const TYPES: &'static [usize] = &[7];
    fn make(i: &[u32]) -> Self::T { (W7::make(i[0]),) }
    fn took(r: (Option<W7>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S8;
impl SetDef for S8 {
    type T = (W8,);
    const TYPES: &'static [usize] = &[8];
    fn make(i: &[u32]) -> Self::T { (W8::make(i[0]),) }
    fn took(r: (Option<W8>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S9;
impl SetDef for S9 {
    type T = (W9,);
    const TYPES: &'static [usize] = &[9];
    fn make(i: &[u32]) -> Self::T { (W9::make(i[0]),) }
    fn took(r: (Option<W9>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S10;
impl SetDef for S10 {
    type T = (W10,);
    const TYPES: &'static [usize] = &[10];
    fn make(i: &[u32]) -> Self::T { (W10::make(i[0]),) }
    fn took(r: (Option<W10>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S11;
impl SetDef for S11 {
    type T = (W11,);
    const TYPES: &'static [usize] = &[11];
    fn make(i: &[u32]) -> Self::T { (W11::make(i[0]),) }
    fn took(r: (Option<W11>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S12;
impl SetDef for S12 {
    type T = (W12,);
    const TYPES: &'static [usize] = &[12];
    fn make(i: &[u32]) -> Self::T { (W12::make(i[0]),) }
    fn took(r: (Option<W12>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S13;
impl SetDef for S13 {
    type T = (W13,);
    const TYPES: &'static [usize] = &[13];
    fn make(i: &[u32]) -> Self::T { (W13::make(i[0]),) }
    fn took(r: (Option<W13>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S14;
impl SetDef for S14 {
    type T = (W14,);
    const TYPES: &'static [usize] = &[14];
    fn make(i: &[u32]) -> Self::T { (W14::make(i[0]),) }
    fn took(r: (Option<W14>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S15;
impl SetDef for S15 {
    type T = (W15,);
    const TYPES: &'static [usize] = &[15];
    fn make(i: &[u32]) -> Self::T { (W15::make(i[0]),) }
    fn took(r: (Option<W15>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id())] }
}
pub struct S16;
impl SetDef for S16 {
    type T = (W0, W1,);
    const TYPES: &'static [usize] = &[0, 1];
    fn make(i: &[u32]) -> Self::T { (W0::make(i[0]), W1::make(i[1]),) }
    fn took(r: (Option<W0>, Option<W1>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id())] }
}
pub struct S17;
impl SetDef for S17 {
    type T = (W3, W8,);
    const TYPES: &'static [usize] = &[3, 8];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]), W8::make(i[1]),) }
    fn took(r: (Option<W3>, Option<W8>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id())] }
}
pub struct S18;
impl SetDef for S18 {
    type T = (W8, W9,);
    const TYPES: &'static [usize] = &[8, 9];
    fn make(i: &[u32]) -> Self::T { (W8::make(i[0]), W9::make(i[1]),) }
    fn took(r: (Option<W8>, Option<W9>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id())] }
}
pub struct S19;
impl SetDef for S19 {
    type T = (W0, W2, W1,);
    const TYPES: &'static [usize] = &[0, 2, 1];
    fn make(i: &[u32]) -> Self::T { (W0::make(i[0]), W2::make(i[1]), W1::make(i[2]),) }
    fn took(r: (Option<W0>, Option<W2>, Option<W1>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id())] }
}
pub struct S20;
impl SetDef for S20 {
    type T = (W3, W8, W13,);
    const TYPES: &'static [usize] = &[3, 8, 13];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]), W8::make(i[1]), W13::make(i[2]),) }
    fn took(r: (Option<W3>, Option<W8>, Option<W13>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id())] }
}
pub struct S21;
impl SetDef for S21 {
    type T = (W1, W7, W12,);
    const TYPES: &'static [usize] = &[1, 7, 12];
    fn make(i: &[u32]) -> Self::T { (W1::make(i[0]), W7::make(i[1]), W12::make(i[2]),) }
    fn took(r: (Option<W1>, Option<W7>, Option<W12>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id())] }
}
pub struct S22;
impl SetDef for S22 {
    type T = (W0, W1, W2, W3,);
    const TYPES: &'static [usize] = &[0, 1, 2, 3];
    fn make(i: &[u32]) -> Self::T { (W0::make(i[0]), W1::make(i[1]), W2::make(i[2]), W3::make(i[3]),) }
    fn took(r: (Option<W0>, Option<W1>, Option<W2>, Option<W3>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id())] }
}
pub struct S23;
impl SetDef for S23 {
    type T = (W3, W8, W13, W2,);
    const TYPES: &'static [usize] = &[3, 8, 13, 2];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]), W8::make(i[1]), W13::make(i[2]), W2::make(i[3]),) }
    fn took(r: (Option<W3>, Option<W8>, Option<W13>, Option<W2>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id())] }
}
pub struct S24;
impl SetDef for S24 {
    type T = (W6, W7, W4, W5,);
    const TYPES: &'static [usize] = &[6, 7, 4, 5];
    fn make(i: &[u32]) -> Self::T { (W6::make(i[0]), W7::make(i[1]), W4::make(i[2]), W5::make(i[3]),) }
    fn took(r: (Option<W6>, Option<W7>, Option<W4>, Option<W5>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id())] }
}
pub struct S25;
impl SetDef for S25 {
    type T = (W1, W0, W3, W4, W2,);
    const TYPES: &'static [usize] = &[1, 0, 3, 4, 2];
    fn make(i: &[u32]) -> Self::T { (W1::make(i[0]), W0::make(i[1]), W3::make(i[2]), W4::make(i[3]), W2::make(i[4]),) }
    fn took(r: (Option<W1>, Option<W0>, Option<W3>, Option<W4>, Option<W2>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id())] }
}
pub struct S26;
impl SetDef for S26 {
    type T = (W3, W8, W13, W2, W7,);
    const TYPES: &'static [usize] = &[3, 8, 13, 2, 7];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]), W8::make(i[1]), W13::make(i[2]), W2::make(i[3]), W7::make(i[4]),) }
    fn took(r: (Option<W3>, Option<W8>, Option<W13>, Option<W2>, Option<W7>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id())] }
}
pub struct S27;
impl SetDef for S27 {
    type T = (W9, W10, W4, W5, W15,);
    const TYPES: &'static [usize] = &[9, 10, 4, 5, 15];
    fn make(i: &[u32]) -> Self::T { (W9::make(i[0]), W10::make(i[1]), W4::make(i[2]), W5::make(i[3]), W15::make(i[4]),) }
    fn took(r: (Option<W9>, Option<W10>, Option<W4>, Option<W5>, Option<W15>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id())] }
}
pub struct S28;
impl SetDef for S28 {
    type T = (W0, W1, W2, W3, W4, W5,);
    const TYPES: &'static [usize] = &[0, 1, 2, 3, 4, 5];
    fn make(i: &[u32]) -> Self::T { (W0::make(i[0]), W1::make(i[1]), W2::make(i[2]), W3::make(i[3]), W4::make(i[4]), W5::make(i[5]),) }
    fn took(r: (Option<W0>, Option<W1>, Option<W2>, Option<W3>, Option<W4>, Option<W5>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id())] }
}
pub struct S29;
impl SetDef for S29 {
    type T = (W2, W13, W7, W12, W8, W3,);
    const TYPES: &'static [usize] = &[2, 13, 7, 12, 8, 3];
    fn make(i: &[u32]) -> Self::T { (W2::make(i[0]), W13::make(i[1]), W7::make(i[2]), W12::make(i[3]), W8::make(i[4]), W3::make(i[5]),) }
    fn took(r: (Option<W2>, Option<W13>, Option<W7>, Option<W12>, Option<W8>, Option<W3>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id())] }
}
pub struct S30;
impl SetDef for S30 {
    type T = (W10, W14, W13, W11, W12, W15,);
    const TYPES: &'static [usize] = &[10, 14, 13, 11, 12, 15];
    fn make(i: &[u32]) -> Self::T { (W10::make(i[0]), W14::make(i[1]), W13::make(i[2]), W11::make(i[3]), W12::make(i[4]), W15::make(i[5]),) }
    fn took(r: (Option<W10>, Option<W14>, Option<W13>, Option<W11>, Option<W12>, Option<W15>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id())] }
}
pub struct S31;
impl SetDef for S31 {
    type T = (W4, W5, W1, W6, W0, W3, W2,);
    const TYPES: &'static [usize] = &[4, 5, 1, 6, 0, 3, 2];
    fn make(i: &[u32]) -> Self::T { (W4::make(i[0]), W5::make(i[1]), W1::make(i[2]), W6::make(i[3]), W0::make(i[4]), W3::make(i[5]), W2::make(i[6]),) }
    fn took(r: (Option<W4>, Option<W5>, Option<W1>, Option<W6>, Option<W0>, Option<W3>, Option<W2>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id())] }
}
pub struct S32;
impl SetDef for S32 {
    type T = (W3, W8, W13, W2, W7, W12, W1,);
    const TYPES: &'static [usize] = &[3, 8, 13, 2, 7, 12, 1];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]), W8::make(i[1]), W13::make(i[2]), W2::make(i[3]), W7::make(i[4]), W12::make(i[5]), W1::make(i[6]),) }
    fn took(r: (Option<W3>, Option<W8>, Option<W13>, Option<W2>, Option<W7>, Option<W12>, Option<W1>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id())] }
}
pub struct S33;
impl SetDef for S33 {
    type T = (W14, W0, W15, W10, W4, W5, W9,);
    const TYPES: &'static [usize] = &[14, 0, 15, 10, 4, 5, 9];
    fn make(i: &[u32]) -> Self::T { (W14::make(i[0]), W0::make(i[1]), W15::make(i[2]), W10::make(i[3]), W4::make(i[4]), W5::make(i[5]), W9::make(i[6]),) }
    fn took(r: (Option<W14>, Option<W0>, Option<W15>, Option<W10>, Option<W4>, Option<W5>, Option<W9>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id())] }
}
pub struct S34;
impl SetDef for S34 {
    type T = (W0, W1, W2, W3, W4, W5, W6, W7,);
    const TYPES: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7];
    fn make(i: &[u32]) -> Self::T { (W0::make(i[0]), W1::make(i[1]), W2::make(i[2]), W3::make(i[3]), W4::make(i[4]), W5::make(i[5]), W6::make(i[6]), W7::make(i[7]),) }
    fn took(r: (Option<W0>, Option<W1>, Option<W2>, Option<W3>, Option<W4>, Option<W5>, Option<W6>, Option<W7>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id())] }
}
pub struct S35;
impl SetDef for S35 {
    type T = (W2, W8, W12, W13, W6, W1, W3, W7,);
    const TYPES: &'static [usize] = &[2, 8, 12, 13, 6, 1, 3, 7];
    fn make(i: &[u32]) -> Self::T { (W2::make(i[0]), W8::make(i[1]), W12::make(i[2]), W13::make(i[3]), W6::make(i[4]), W1::make(i[5]), W3::make(i[6]), W7::make(i[7]),) }
    fn took(r: (Option<W2>, Option<W8>, Option<W12>, Option<W13>, Option<W6>, Option<W1>, Option<W3>, Option<W7>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id())] }
}
pub struct S36;
impl SetDef for S36 {
    type T = (W4, W8, W3, W10, W6, W9, W5, W7,);
    const TYPES: &'static [usize] = &[4, 8, 3, 10, 6, 9, 5, 7];
    fn make(i: &[u32]) -> Self::T { (W4::make(i[0]), W8::make(i[1]), W3::make(i[2]), W10::make(i[3]), W6::make(i[4]), W9::make(i[5]), W5::make(i[6]), W7::make(i[7]),) }
    fn took(r: (Option<W4>, Option<W8>, Option<W3>, Option<W10>, Option<W6>, Option<W9>, Option<W5>, Option<W7>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id())] }
}
pub struct S37;
impl SetDef for S37 {
    type T = (W1, W4, W2, W5, W8, W6, W3, W0, W7,);
    const TYPES: &'static [usize] = &[1, 4, 2, 5, 8, 6, 3, 0, 7];
    fn make(i: &[u32]) -> Self::T { (W1::make(i[0]), W4::make(i[1]), W2::make(i[2]), W5::make(i[3]), W8::make(i[4]), W6::make(i[5]), W3::make(i[6]), W0::make(i[7]), W7::make(i[8]),) }
    fn took(r: (Option<W1>, Option<W4>, Option<W2>, Option<W5>, Option<W8>, Option<W6>, Option<W3>, Option<W0>, Option<W7>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id())] }
}
pub struct S38;
impl SetDef for S38 {
    type T = (W3, W8, W13, W2, W7, W12, W1, W6, W11,);
    const TYPES: &'static [usize] = &[3, 8, 13, 2, 7, 12, 1, 6, 11];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]), W8::make(i[1]), W13::make(i[2]), W2::make(i[3]), W7::make(i[4]), W12::make(i[5]), W1::make(i[6]), W6::make(i[7]), W11::make(i[8]),) }
    fn took(r: (Option<W3>, Option<W8>, Option<W13>, Option<W2>, Option<W7>, Option<W12>, Option<W1>, Option<W6>, Option<W11>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id())] }
}
pub struct S39;
impl SetDef for S39 {
    type T = (W5, W1, W6, W11, W15, W7, W0, W10, W12,);
    const TYPES: &'static [usize] = &[5, 1, 6, 11, 15, 7, 0, 10, 12];
    fn make(i: &[u32]) -> Self::T { (W5::make(i[0]), W1::make(i[1]), W6::make(i[2]), W11::make(i[3]), W15::make(i[4]), W7::make(i[5]), W0::make(i[6]), W10::make(i[7]), W12::make(i[8]),) }
    fn took(r: (Option<W5>, Option<W1>, Option<W6>, Option<W11>, Option<W15>, Option<W7>, Option<W0>, Option<W10>, Option<W12>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id())] }
}
pub struct S40;
impl SetDef for S40 {
    type T = (W0, W1, W2, W3, W4, W5, W6, W7, W8, W9,);
    const TYPES: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    fn make(i: &[u32]) -> Self::T { (W0::make(i[0]), W1::make(i[1]), W2::make(i[2]), W3::make(i[3]), W4::make(i[4]), W5::make(i[5]), W6::make(i[6]), W7::make(i[7]), W8::make(i[8]), W9::make(i[9]),) }
    fn took(r: (Option<W0>, Option<W1>, Option<W2>, Option<W3>, Option<W4>, Option<W5>, Option<W6>, Option<W7>, Option<W8>, Option<W9>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id())] }
}
pub struct S41;
impl SetDef for S41 {
    type T = (W7, W6, W8, W13, W2, W1, W12, W0, W11, W3,);
    const TYPES: &'static [usize] = &[7, 6, 8, 13, 2, 1, 12, 0, 11, 3];
    fn make(i: &[u32]) -> Self::T { (W7::make(i[0]), W6::make(i[1]), W8::make(i[2]), W13::make(i[3]), W2::make(i[4]), W1::make(i[5]), W12::make(i[6]), W0::make(i[7]), W11::make(i[8]), W3::make(i[9]),) }
    fn took(r: (Option<W7>, Option<W6>, Option<W8>, Option<W13>, Option<W2>, Option<W1>, Option<W12>, Option<W0>, Option<W11>, Option<W3>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id())] }
}
pub struct S42;
impl SetDef for S42 {
    type T = (W4, W5, W8, W11, W9, W2, W6, W10, W3, W7,);
    const TYPES: &'static [usize] = &[4, 5, 8, 11, 9, 2, 6, 10, 3, 7];
    fn make(i: &[u32]) -> Self::T { (W4::make(i[0]), W5::make(i[1]), W8::make(i[2]), W11::make(i[3]), W9::make(i[4]), W2::make(i[5]), W6::make(i[6]), W10::make(i[7]), W3::make(i[8]), W7::make(i[9]),) }
    fn took(r: (Option<W4>, Option<W5>, Option<W8>, Option<W11>, Option<W9>, Option<W2>, Option<W6>, Option<W10>, Option<W3>, Option<W7>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id())] }
}
pub struct S43;
impl SetDef for S43 {
    type T = (W3, W4, W9, W10, W7, W8, W5, W2, W6, W0, W1,);
    const TYPES: &'static [usize] = &[3, 4, 9, 10, 7, 8, 5, 2, 6, 0, 1];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]), W4::make(i[1]), W9::make(i[2]), W10::make(i[3]), W7::make(i[4]), W8::make(i[5]), W5::make(i[6]), W2::make(i[7]), W6::make(i[8]), W0::make(i[9]), W1::make(i[10]),) }
    fn took(r: (Option<W3>, Option<W4>, Option<W9>, Option<W10>, Option<W7>, Option<W8>, Option<W5>, Option<W2>, Option<W6>, Option<W0>, Option<W1>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id())] }
}
pub struct S44;
impl SetDef for S44 {
    type T = (W3, W8, W13, W2, W7, W12, W1, W6, W11, W0, W5,);
    const TYPES: &'static [usize] = &[3, 8, 13, 2, 7, 12, 1, 6, 11, 0, 5];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]), W8::make(i[1]), W13::make(i[2]), W2::make(i[3]), W7::make(i[4]), W12::make(i[5]), W1::make(i[6]), W6::make(i[7]), W11::make(i[8]), W0::make(i[9]), W5::make(i[10]),) }
    fn took(r: (Option<W3>, Option<W8>, Option<W13>, Option<W2>, Option<W7>, Option<W12>, Option<W1>, Option<W6>, Option<W11>, Option<W0>, Option<W5>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id())] }
}
pub struct S45;
impl SetDef for S45 {
    type T = (W1, W13, W11, W10, W7, W0, W6, W15, W2, W12, W5,);
    const TYPES: &'static [usize] = &[1, 13, 11, 10, 7, 0, 6, 15, 2, 12, 5];
    fn make(i: &[u32]) -> Self::T { (W1::make(i[0]), W13::make(i[1]), W11::make(i[2]), W10::make(i[3]), W7::make(i[4]), W0::make(i[5]), W6::make(i[6]), W15::make(i[7]), W2::make(i[8]), W12::make(i[9]), W5::make(i[10]),) }
    fn took(r: (Option<W1>, Option<W13>, Option<W11>, Option<W10>, Option<W7>, Option<W0>, Option<W6>, Option<W15>, Option<W2>, Option<W12>, Option<W5>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id())] }
}
pub struct S46;
impl SetDef for S46 {
    type T = (W0, W1, W2, W3, W4, W5, W6, W7, W8, W9, W10, W11,);
    const TYPES: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
    fn make(i: &[u32]) -> Self::T { (W0::make(i[0]), W1::make(i[1]), W2::make(i[2]), W3::make(i[3]), W4::make(i[4]), W5::make(i[5]), W6::make(i[6]), W7::make(i[7]), W8::make(i[8]), W9::make(i[9]), W10::make(i[10]), W11::make(i[11]),) }
    fn took(r: (Option<W0>, Option<W1>, Option<W2>, Option<W3>, Option<W4>, Option<W5>, Option<W6>, Option<W7>, Option<W8>, Option<W9>, Option<W10>, Option<W11>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id())] }
}
pub struct S47;
impl SetDef for S47 {
    type T = (W11, W13, W2, W8, W12, W10, W3, W7, W0, W5, W6, W1,);
    const TYPES: &'static [usize] = &[11, 13, 2, 8, 12, 10, 3, 7, 0, 5, 6, 1];
    fn make(i: &[u32]) -> Self::T { (W11::make(i[0]), W13::make(i[1]), W2::make(i[2]), W8::make(i[3]), W12::make(i[4]), W10::make(i[5]), W3::make(i[6]), W7::make(i[7]), W0::make(i[8]), W5::make(i[9]), W6::make(i[10]), W1::make(i[11]),) }
    fn took(r: (Option<W11>, Option<W13>, Option<W2>, Option<W8>, Option<W12>, Option<W10>, Option<W3>, Option<W7>, Option<W0>, Option<W5>, Option<W6>, Option<W1>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id())] }
}
pub struct S48;
impl SetDef for S48 {
    type T = (W12, W11, W9, W8, W14, W4, W6, W13, W10, W15, W7, W5,);
    const TYPES: &'static [usize] = &[12, 11, 9, 8, 14, 4, 6, 13, 10, 15, 7, 5];
    fn make(i: &[u32]) -> Self::T { (W12::make(i[0]), W11::make(i[1]), W9::make(i[2]), W8::make(i[3]), W14::make(i[4]), W4::make(i[5]), W6::make(i[6]), W13::make(i[7]), W10::make(i[8]), W15::make(i[9]), W7::make(i[10]), W5::make(i[11]),) }
    fn took(r: (Option<W12>, Option<W11>, Option<W9>, Option<W8>, Option<W14>, Option<W4>, Option<W6>, Option<W13>, Option<W10>, Option<W15>, Option<W7>, Option<W5>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id())] }
}
pub struct S49;
impl SetDef for S49 {
    type T = (W4, W5, W0, W8, W10, W1, W7, W12, W9, W6, W11, W2, W3,);
    const TYPES: &'static [usize] = &[4, 5, 0, 8, 10, 1, 7, 12, 9, 6, 11, 2, 3];
    fn make(i: &[u32]) -> Self::T { (W4::make(i[0]), W5::make(i[1]), W0::make(i[2]), W8::make(i[3]), W10::make(i[4]), W1::make(i[5]), W7::make(i[6]), W12::make(i[7]), W9::make(i[8]), W6::make(i[9]), W11::make(i[10]), W2::make(i[11]), W3::make(i[12]),) }
    fn took(r: (Option<W4>, Option<W5>, Option<W0>, Option<W8>, Option<W10>, Option<W1>, Option<W7>, Option<W12>, Option<W9>, Option<W6>, Option<W11>, Option<W2>, Option<W3>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id()), r.12.as_ref().map(|c| c.id())] }
}
pub struct S50;
impl SetDef for S50 {
    type T = (W3, W8, W13, W2, W7, W12, W1, W6, W11, W0, W5, W10, W15,);
    const TYPES: &'static [usize] = &[3, 8, 13, 2, 7, 12, 1, 6, 11, 0, 5, 10, 15];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]), W8::make(i[1]), W13::make(i[2]), W2::make(i[3]), W7::make(i[4]), W12::make(i[5]), W1::make(i[6]), W6::make(i[7]), W11::make(i[8]), W0::make(i[9]), W5::make(i[10]), W10::make(i[11]), W15::make(i[12]),) }
    fn took(r: (Option<W3>, Option<W8>, Option<W13>, Option<W2>, Option<W7>, Option<W12>, Option<W1>, Option<W6>, Option<W11>, Option<W0>, Option<W5>, Option<W10>, Option<W15>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id()), r.12.as_ref().map(|c| c.id())] }
}
pub struct S51;
impl SetDef for S51 {
    type T = (W5, W13, W1, W7, W2, W15, W4, W0, W12, W11, W8, W6, W10,);
    const TYPES: &'static [usize] = &[5, 13, 1, 7, 2, 15, 4, 0, 12, 11, 8, 6, 10];
    fn make(i: &[u32]) -> Self::T { (W5::make(i[0]), W13::make(i[1]), W1::make(i[2]), W7::make(i[3]), W2::make(i[4]), W15::make(i[5]), W4::make(i[6]), W0::make(i[7]), W12::make(i[8]), W11::make(i[9]), W8::make(i[10]), W6::make(i[11]), W10::make(i[12]),) }
    fn took(r: (Option<W5>, Option<W13>, Option<W1>, Option<W7>, Option<W2>, Option<W15>, Option<W4>, Option<W0>, Option<W12>, Option<W11>, Option<W8>, Option<W6>, Option<W10>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id()), r.12.as_ref().map(|c| c.id())] }
}
pub struct S52;
impl SetDef for S52 {
    type T = (W0, W1, W2, W3, W4, W5, W6, W7, W8, W9, W10, W11, W12, W13,);
    const TYPES: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
    fn make(i: &[u32]) -> Self::T { (W0::make(i[0]), W1::make(i[1]), W2::make(i[2]), W3::make(i[3]), W4::make(i[4]), W5::make(i[5]), W6::make(i[6]), W7::make(i[7]), W8::make(i[8]), W9::make(i[9]), W10::make(i[10]), W11::make(i[11]), W12::make(i[12]), W13::make(i[13]),) }
    fn took(r: (Option<W0>, Option<W1>, Option<W2>, Option<W3>, Option<W4>, Option<W5>, Option<W6>, Option<W7>, Option<W8>, Option<W9>, Option<W10>, Option<W11>, Option<W12>, Option<W13>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id()), r.12.as_ref().map(|c| c.id()), r.13.as_ref().map(|c| c.id())] }
}
pub struct S53;
impl SetDef for S53 {
    type T = (W4, W5, W7, W15, W3, W12, W1, W8, W10, W13, W11, W6, W0, W2,);
    const TYPES: &'static [usize] = &[4, 5, 7, 15, 3, 12, 1, 8, 10, 13, 11, 6, 0, 2];
    fn make(i: &[u32]) -> Self::T { (W4::make(i[0]), W5::make(i[1]), W7::make(i[2]), W15::make(i[3]), W3::make(i[4]), W12::make(i[5]), W1::make(i[6]), W8::make(i[7]), W10::make(i[8]), W13::make(i[9]), W11::make(i[10]), W6::make(i[11]), W0::make(i[12]), W2::make(i[13]),) }
    fn took(r: (Option<W4>, Option<W5>, Option<W7>, Option<W15>, Option<W3>, Option<W12>, Option<W1>, Option<W8>, Option<W10>, Option<W13>, Option<W11>, Option<W6>, Option<W0>, Option<W2>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id()), r.12.as_ref().map(|c| c.id()), r.13.as_ref().map(|c| c.id())] }
}
pub struct S54;
impl SetDef for S54 {
    type T = (W6, W4, W14, W3, W13, W9, W10, W2, W5, W8, W0, W11, W7, W12, W1,);
    const TYPES: &'static [usize] = &[6, 4, 14, 3, 13, 9, 10, 2, 5, 8, 0, 11, 7, 12, 1];
    fn make(i: &[u32]) -> Self::T { (W6::make(i[0]), W4::make(i[1]), W14::make(i[2]), W3::make(i[3]), W13::make(i[4]), W9::make(i[5]), W10::make(i[6]), W2::make(i[7]), W5::make(i[8]), W8::make(i[9]), W0::make(i[10]), W11::make(i[11]), W7::make(i[12]), W12::make(i[13]), W1::make(i[14]),) }
    fn took(r: (Option<W6>, Option<W4>, Option<W14>, Option<W3>, Option<W13>, Option<W9>, Option<W10>, Option<W2>, Option<W5>, Option<W8>, Option<W0>, Option<W11>, Option<W7>, Option<W12>, Option<W1>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id()), r.12.as_ref().map(|c| c.id()), r.13.as_ref().map(|c| c.id()), r.14.as_ref().map(|c| c.id())] }
}
pub struct S55;
impl SetDef for S55 {
    type T = (W3, W8, W13, W2, W7, W12, W1, W6, W11, W0, W5, W10, W15, W4, W9,);
    const TYPES: &'static [usize] = &[3, 8, 13, 2, 7, 12, 1, 6, 11, 0, 5, 10, 15, 4, 9];
    fn make(i: &[u32]) -> Self::T { (W3::make(i[0]), W8::make(i[1]), W13::make(i[2]), W2::make(i[3]), W7::make(i[4]), W12::make(i[5]), W1::make(i[6]), W6::make(i[7]), W11::make(i[8]), W0::make(i[9]), W5::make(i[10]), W10::make(i[11]), W15::make(i[12]), W4::make(i[13]), W9::make(i[14]),) }
    fn took(r: (Option<W3>, Option<W8>, Option<W13>, Option<W2>, Option<W7>, Option<W12>, Option<W1>, Option<W6>, Option<W11>, Option<W0>, Option<W5>, Option<W10>, Option<W15>, Option<W4>, Option<W9>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id()), r.12.as_ref().map(|c| c.id()), r.13.as_ref().map(|c| c.id()), r.14.as_ref().map(|c| c.id())] }
}
pub struct S56;
impl SetDef for S56 {
    type T = (W0, W1, W2, W3, W4, W5, W6, W7, W8, W9, W10, W11, W12, W13, W14, W15,);
    const TYPES: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    fn make(i: &[u32]) -> Self::T { (W0::make(i[0]), W1::make(i[1]), W2::make(i[2]), W3::make(i[3]), W4::make(i[4]), W5::make(i[5]), W6::make(i[6]), W7::make(i[7]), W8::make(i[8]), W9::make(i[9]), W10::make(i[10]), W11::make(i[11]), W12::make(i[12]), W13::make(i[13]), W14::make(i[14]), W15::make(i[15]),) }
    fn took(r: (Option<W0>, Option<W1>, Option<W2>, Option<W3>, Option<W4>, Option<W5>, Option<W6>, Option<W7>, Option<W8>, Option<W9>, Option<W10>, Option<W11>, Option<W12>, Option<W13>, Option<W14>, Option<W15>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id()), r.12.as_ref().map(|c| c.id()), r.13.as_ref().map(|c| c.id()), r.14.as_ref().map(|c| c.id()), r.15.as_ref().map(|c| c.id())] }
}
pub struct S57;
impl SetDef for S57 {
    type T = (W14, W1, W0, W8, W15, W7, W11, W12, W10, W5, W3, W4, W6, W9, W2, W13,);
    const TYPES: &'static [usize] = &[14, 1, 0, 8, 15, 7, 11, 12, 10, 5, 3, 4, 6, 9, 2, 13];
    fn make(i: &[u32]) -> Self::T { (W14::make(i[0]), W1::make(i[1]), W0::make(i[2]), W8::make(i[3]), W15::make(i[4]), W7::make(i[5]), W11::make(i[6]), W12::make(i[7]), W10::make(i[8]), W5::make(i[9]), W3::make(i[10]), W4::make(i[11]), W6::make(i[12]), W9::make(i[13]), W2::make(i[14]), W13::make(i[15]),) }
    fn took(r: (Option<W14>, Option<W1>, Option<W0>, Option<W8>, Option<W15>, Option<W7>, Option<W11>, Option<W12>, Option<W10>, Option<W5>, Option<W3>, Option<W4>, Option<W6>, Option<W9>, Option<W2>, Option<W13>,)) -> Vec<Option<u32>> { vec![r.0.as_ref().map(|c| c.id()), r.1.as_ref().map(|c| c.id()), r.2.as_ref().map(|c| c.id()), r.3.as_ref().map(|c| c.id()), r.4.as_ref().map(|c| c.id()), r.5.as_ref().map(|c| c.id()), r.6.as_ref().map(|c| c.id()), r.7.as_ref().map(|c| c.id()), r.8.as_ref().map(|c| c.id()), r.9.as_ref().map(|c| c.id()), r.10.as_ref().map(|c| c.id()), r.11.as_ref().map(|c| c.id()), r.12.as_ref().map(|c| c.id()), r.13.as_ref().map(|c| c.id()), r.14.as_ref().map(|c| c.id()), r.15.as_ref().map(|c| c.id())] }
}
pub struct Q0;
impl Def for Q0 {
    type G = (Entity, &'static W0,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 2;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[0] = it.1.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[0] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q1;
impl Def for Q1 {
    type G = (Entity, &'static mut W0,);
    type I = ();
    type E = (&'static W1,);
    const REQ: &'static [usize] = &[0];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[0];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[1];
    const ENT: bool = true;
    const PARTS: usize = 2;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[0] = it.1.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(0, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[0] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q2;
impl Def for Q2 {
    type G = (&'static mut W3,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[3];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 1;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[3] = it.0.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(3, it.0.id()); it.0.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[3] = s.0[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q3;
impl Def for Q3 {
    type G = (Entity, &'static W3,);
    type I = ();
    type E = (&'static W8,);
    const REQ: &'static [usize] = &[3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[8];
    const ENT: bool = true;
    const PARTS: usize = 2;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[3] = it.1.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[3] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q4;
impl Def for Q4 {
    type G = (&'static W4,);
    type I = ();
    type E = (&'static W6, &'static mut W13, &'static W2, &'static W8, &'static W12, &'static W1,);
    const REQ: &'static [usize] = &[4];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[6, 13, 2, 8, 12, 1];
    const ENT: bool = false;
    const PARTS: usize = 1;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[4] = it.0.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[4] = s.0[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q5;
impl Def for Q5 {
    type G = (&'static mut W0, &'static W1, Entity,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[0];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 3;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.e = key(it.2);
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(0, it.0.id()); it.0.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.e = key(s.2[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q6;
impl Def for Q6 {
    type G = (Entity, &'static W0, &'static mut W1,);
    type I = ();
    type E = (&'static mut W2,);
    const REQ: &'static [usize] = &[0, 1];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[1];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[2];
    const ENT: bool = true;
    const PARTS: usize = 3;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[0] = it.1.id();
        r.v[1] = it.2.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(1, it.2.id()); it.2.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[0] = s.1[i].id();
            r.v[1] = s.2[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q7;
impl Def for Q7 {
    type G = (Entity, &'static W1, Option<&'static W0>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[1];
    const OPT: &'static [usize] = &[0];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 3;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[1] = it.1.id();
        r.v[0] = it.2.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[1] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q8;
impl Def for Q8 {
    type G = (&'static mut W8, &'static mut W3,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[8, 3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[8, 3];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 2;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[8] = it.0.id();
        r.v[3] = it.1.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(8, it.0.id()); it.0.set(n); }
        { let n = f(3, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[8] = s.0[i].id();
            r.v[3] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q9;
impl Def for Q9 {
    type G = (Entity, &'static W3, &'static W8,);
    type I = ();
    type E = (&'static W13,);
    const REQ: &'static [usize] = &[3, 8];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[13];
    const ENT: bool = true;
    const PARTS: usize = 3;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[3] = it.1.id();
        r.v[8] = it.2.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[3] = s.1[i].id();
            r.v[8] = s.2[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q10;
impl Def for Q10 {
    type G = (Entity, &'static W8, Option<&'static W3>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[8];
    const OPT: &'static [usize] = &[3];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 3;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[8] = it.1.id();
        r.v[3] = it.2.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[8] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q11;
impl Def for Q11 {
    type G = (Entity, &'static W11, &'static W12,);
    type I = ();
    type E = (&'static W10, &'static mut W0, &'static W9, &'static W8,);
    const REQ: &'static [usize] = &[11, 12];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[10, 0, 9, 8];
    const ENT: bool = true;
    const PARTS: usize = 3;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[11] = it.1.id();
        r.v[12] = it.2.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[11] = s.1[i].id();
            r.v[12] = s.2[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q12;
impl Def for Q12 {
    type G = (&'static W0, &'static W1, &'static mut W2, Entity,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[2];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 4;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.v[2] = it.2.id();
        r.e = key(it.3);
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(2, it.2.id()); it.2.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.e = key(s.3[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q13;
impl Def for Q13 {
    type G = (&'static W2,);
    type I = (&'static mut W0, &'static W1,);
    type E = (&'static W3,);
    const REQ: &'static [usize] = &[2];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[0, 1];
    const EXC: &'static [usize] = &[3];
    const ENT: bool = false;
    const PARTS: usize = 1;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[2] = it.0.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[2] = s.0[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q14;
impl Def for Q14 {
    type G = (Entity, &'static W2, &'static mut W1, Option<&'static W0>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[2, 1];
    const OPT: &'static [usize] = &[0];
    const MUT: &'static [usize] = &[1];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 4;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[2] = it.1.id();
        r.v[1] = it.2.id();
        r.v[0] = it.3.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(1, it.2.id()); it.2.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[2] = s.1[i].id();
            r.v[1] = s.2[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q15;
impl Def for Q15 {
    type G = (&'static mut W8, &'static mut W13, &'static mut W3,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[8, 13, 3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[8, 13, 3];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 3;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[8] = it.0.id();
        r.v[13] = it.1.id();
        r.v[3] = it.2.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(8, it.0.id()); it.0.set(n); }
        { let n = f(13, it.1.id()); it.1.set(n); }
        { let n = f(3, it.2.id()); it.2.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[8] = s.0[i].id();
            r.v[13] = s.1[i].id();
            r.v[3] = s.2[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q16;
impl Def for Q16 {
    type G = (Entity, &'static mut W3,);
    type I = (&'static mut W8, &'static W13,);
    type E = ();
    const REQ: &'static [usize] = &[3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[3];
    const INC: &'static [usize] = &[8, 13];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 2;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[3] = it.1.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(3, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[3] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q17;
impl Def for Q17 {
    type G = (&'static W8, &'static W3, Option<&'static W13>, Entity,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[8, 3];
    const OPT: &'static [usize] = &[13];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 4;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[8] = it.0.id();
        r.v[3] = it.1.id();
        r.v[13] = it.2.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.3);
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[8] = s.0[i].id();
            r.v[3] = s.1[i].id();
            r.e = key(s.3[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q18;
impl Def for Q18 {
    type G = (&'static W0, &'static W5, &'static W10,);
    type I = ();
    type E = (&'static mut W6, &'static W14, &'static W11, &'static mut W12, &'static W2,);
    const REQ: &'static [usize] = &[0, 5, 10];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[6, 14, 11, 12, 2];
    const ENT: bool = false;
    const PARTS: usize = 3;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[5] = it.1.id();
        r.v[10] = it.2.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[5] = s.1[i].id();
            r.v[10] = s.2[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q19;
impl Def for Q19 {
    type G = (Entity, &'static W0, &'static W1, &'static W2, &'static mut W3,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[3];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 5;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[0] = it.1.id();
        r.v[1] = it.2.id();
        r.v[2] = it.3.id();
        r.v[3] = it.4.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(3, it.4.id()); it.4.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[0] = s.1[i].id();
            r.v[1] = s.2[i].id();
            r.v[2] = s.3[i].id();
            r.v[3] = s.4[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q20;
impl Def for Q20 {
    type G = (&'static mut W1, &'static mut W0, &'static W2,);
    type I = (&'static mut W3,);
    type E = ();
    const REQ: &'static [usize] = &[1, 0, 2];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[1, 0];
    const INC: &'static [usize] = &[3];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 3;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[1] = it.0.id();
        r.v[0] = it.1.id();
        r.v[2] = it.2.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(1, it.0.id()); it.0.set(n); }
        { let n = f(0, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[1] = s.0[i].id();
            r.v[0] = s.1[i].id();
            r.v[2] = s.2[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q21;
impl Def for Q21 {
    type G = (Entity, &'static W0, &'static W2, &'static W3, Option<&'static W1>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 2, 3];
    const OPT: &'static [usize] = &[1];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 5;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[0] = it.1.id();
        r.v[2] = it.2.id();
        r.v[3] = it.3.id();
        r.v[1] = it.4.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[0] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.v[3] = s.3[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q22;
impl Def for Q22 {
    type G = (&'static mut W2, &'static mut W8, &'static mut W3, &'static mut W13,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[2, 8, 3, 13];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[2, 8, 3, 13];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 4;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[2] = it.0.id();
        r.v[8] = it.1.id();
        r.v[3] = it.2.id();
        r.v[13] = it.3.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(2, it.0.id()); it.0.set(n); }
        { let n = f(8, it.1.id()); it.1.set(n); }
        { let n = f(3, it.2.id()); it.2.set(n); }
        { let n = f(13, it.3.id()); it.3.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[2] = s.0[i].id();
            r.v[8] = s.1[i].id();
            r.v[3] = s.2[i].id();
            r.v[13] = s.3[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q23;
impl Def for Q23 {
    type G = (Entity, &'static mut W2, &'static mut W3, &'static mut W13,);
    type I = (&'static mut W8,);
    type E = (&'static mut W7,);
    const REQ: &'static [usize] = &[2, 3, 13];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[2, 3, 13];
    const INC: &'static [usize] = &[8];
    const EXC: &'static [usize] = &[7];
    const ENT: bool = true;
    const PARTS: usize = 4;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[2] = it.1.id();
        r.v[3] = it.2.id();
        r.v[13] = it.3.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(2, it.1.id()); it.1.set(n); }
        { let n = f(3, it.2.id()); it.2.set(n); }
        { let n = f(13, it.3.id()); it.3.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[2] = s.1[i].id();
            r.v[3] = s.2[i].id();
            r.v[13] = s.3[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q24;
impl Def for Q24 {
    type G = (&'static W2, &'static mut W13, Option<&'static W3>, Entity, Option<&'static W8>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[2, 13];
    const OPT: &'static [usize] = &[3, 8];
    const MUT: &'static [usize] = &[13];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 5;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[2] = it.0.id();
        r.v[13] = it.1.id();
        r.v[3] = it.2.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.3);
        r.v[8] = it.4.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(13, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[2] = s.0[i].id();
            r.v[13] = s.1[i].id();
            r.e = key(s.3[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q25;
impl Def for Q25 {
    type G = (Entity, &'static W2, &'static mut W3, &'static W4, &'static W5,);
    type I = ();
    type E = (&'static W15, &'static W7,);
    const REQ: &'static [usize] = &[2, 3, 4, 5];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[3];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[15, 7];
    const ENT: bool = true;
    const PARTS: usize = 5;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[2] = it.1.id();
        r.v[3] = it.2.id();
        r.v[4] = it.3.id();
        r.v[5] = it.4.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(3, it.2.id()); it.2.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[2] = s.1[i].id();
            r.v[3] = s.2[i].id();
            r.v[4] = s.3[i].id();
            r.v[5] = s.4[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q26;
impl Def for Q26 {
    type G = (&'static mut W0, &'static W1, Entity, &'static W2, &'static W3, &'static W4,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[0];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 6;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.e = key(it.2);
        r.v[2] = it.3.id();
        r.v[3] = it.4.id();
        r.v[4] = it.5.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(0, it.0.id()); it.0.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.e = key(s.2[i]);
            r.v[2] = s.3[i].id();
            r.v[3] = s.4[i].id();
            r.v[4] = s.5[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q27;
impl Def for Q27 {
    type G = (&'static mut W0, &'static mut W1, &'static mut W4, &'static W2,);
    type I = (&'static W3,);
    type E = (&'static W5,);
    const REQ: &'static [usize] = &[0, 1, 4, 2];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[0, 1, 4];
    const INC: &'static [usize] = &[3];
    const EXC: &'static [usize] = &[5];
    const ENT: bool = false;
    const PARTS: usize = 4;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.v[4] = it.2.id();
        r.v[2] = it.3.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(0, it.0.id()); it.0.set(n); }
        { let n = f(1, it.1.id()); it.1.set(n); }
        { let n = f(4, it.2.id()); it.2.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[4] = s.2[i].id();
            r.v[2] = s.3[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q28;
impl Def for Q28 {
    type G = (&'static W0, Option<&'static W1>, Entity, Option<&'static W2>, Option<&'static mut W3>, Option<&'static mut W4>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0];
    const OPT: &'static [usize] = &[1, 2, 3, 4];
    const MUT: &'static [usize] = &[3, 4];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 6;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.2);
        r.v[2] = it.3.as_ref().map_or(NONE, |c| c.id());
        r.v[3] = it.4.as_ref().map_or(NONE, |c| c.id());
        r.v[4] = it.5.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        if let Some(c) = it.4 { let n = f(3, c.id()); c.set(n); }
        if let Some(c) = it.5 { let n = f(4, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.e = key(s.2[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q29;
impl Def for Q29 {
    type G = (&'static mut W2, &'static mut W3, &'static mut W7, &'static mut W13, &'static mut W8,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[2, 3, 7, 13, 8];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[2, 3, 7, 13, 8];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 5;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[2] = it.0.id();
        r.v[3] = it.1.id();
        r.v[7] = it.2.id();
        r.v[13] = it.3.id();
        r.v[8] = it.4.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(2, it.0.id()); it.0.set(n); }
        { let n = f(3, it.1.id()); it.1.set(n); }
        { let n = f(7, it.2.id()); it.2.set(n); }
        { let n = f(13, it.3.id()); it.3.set(n); }
        { let n = f(8, it.4.id()); it.4.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[2] = s.0[i].id();
            r.v[3] = s.1[i].id();
            r.v[7] = s.2[i].id();
            r.v[13] = s.3[i].id();
            r.v[8] = s.4[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q30;
impl Def for Q30 {
    type G = (&'static W2, Entity, &'static W8, &'static W3, &'static mut W7,);
    type I = (&'static mut W13,);
    type E = ();
    const REQ: &'static [usize] = &[2, 8, 3, 7];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[7];
    const INC: &'static [usize] = &[13];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 5;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[2] = it.0.id();
        r.e = key(it.1);
        r.v[8] = it.2.id();
        r.v[3] = it.3.id();
        r.v[7] = it.4.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(7, it.4.id()); it.4.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[2] = s.0[i].id();
            r.e = key(s.1[i]);
            r.v[8] = s.2[i].id();
            r.v[3] = s.3[i].id();
            r.v[7] = s.4[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q31;
impl Def for Q31 {
    type G = (&'static mut W7, &'static mut W13, Option<&'static W3>, Entity, Option<&'static W8>, Option<&'static W2>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[7, 13];
    const OPT: &'static [usize] = &[3, 8, 2];
    const MUT: &'static [usize] = &[7, 13];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 6;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[7] = it.0.id();
        r.v[13] = it.1.id();
        r.v[3] = it.2.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.3);
        r.v[8] = it.4.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.5.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(7, it.0.id()); it.0.set(n); }
        { let n = f(13, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[7] = s.0[i].id();
            r.v[13] = s.1[i].id();
            r.e = key(s.3[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q32;
impl Def for Q32 {
    type G = (&'static mut W12, &'static W1, &'static mut W6, &'static mut W11, &'static W0,);
    type I = ();
    type E = (&'static W8,);
    const REQ: &'static [usize] = &[12, 1, 6, 11, 0];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[12, 6, 11];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[8];
    const ENT: bool = false;
    const PARTS: usize = 5;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[12] = it.0.id();
        r.v[1] = it.1.id();
        r.v[6] = it.2.id();
        r.v[11] = it.3.id();
        r.v[0] = it.4.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(12, it.0.id()); it.0.set(n); }
        { let n = f(6, it.2.id()); it.2.set(n); }
        { let n = f(11, it.3.id()); it.3.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[12] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[6] = s.2[i].id();
            r.v[11] = s.3[i].id();
            r.v[0] = s.4[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q33;
impl Def for Q33 {
    type G = (&'static W0, &'static mut W1, Entity, &'static W2, &'static W3, &'static W4, &'static mut W5,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[1, 5];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 7;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.e = key(it.2);
        r.v[2] = it.3.id();
        r.v[3] = it.4.id();
        r.v[4] = it.5.id();
        r.v[5] = it.6.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(1, it.1.id()); it.1.set(n); }
        { let n = f(5, it.6.id()); it.6.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.e = key(s.2[i]);
            r.v[2] = s.3[i].id();
            r.v[3] = s.4[i].id();
            r.v[4] = s.5[i].id();
            r.v[5] = s.6[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q34;
impl Def for Q34 {
    type G = (&'static W3, &'static W5,);
    type I = (&'static W1, &'static W2, &'static W0, &'static mut W4,);
    type E = ();
    const REQ: &'static [usize] = &[3, 5];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[1, 2, 0, 4];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 2;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[3] = it.0.id();
        r.v[5] = it.1.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[3] = s.0[i].id();
            r.v[5] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q35;
impl Def for Q35 {
    type G = (&'static W4, Entity, &'static W3, &'static W2, &'static W5, Option<&'static mut W1>, Option<&'static mut W0>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[4, 3, 2, 5];
    const OPT: &'static [usize] = &[1, 0];
    const MUT: &'static [usize] = &[1, 0];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 7;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[4] = it.0.id();
        r.e = key(it.1);
        r.v[3] = it.2.id();
        r.v[2] = it.3.id();
        r.v[5] = it.4.id();
        r.v[1] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[0] = it.6.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        if let Some(c) = it.5 { let n = f(1, c.id()); c.set(n); }
        if let Some(c) = it.6 { let n = f(0, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[4] = s.0[i].id();
            r.e = key(s.1[i]);
            r.v[3] = s.2[i].id();
            r.v[2] = s.3[i].id();
            r.v[5] = s.4[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q36;
impl Def for Q36 {
    type G = (&'static mut W8, &'static mut W3, &'static mut W13, &'static mut W2, &'static mut W7, &'static mut W12,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[8, 3, 13, 2, 7, 12];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[8, 3, 13, 2, 7, 12];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 6;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[8] = it.0.id();
        r.v[3] = it.1.id();
        r.v[13] = it.2.id();
        r.v[2] = it.3.id();
        r.v[7] = it.4.id();
        r.v[12] = it.5.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(8, it.0.id()); it.0.set(n); }
        { let n = f(3, it.1.id()); it.1.set(n); }
        { let n = f(13, it.2.id()); it.2.set(n); }
        { let n = f(2, it.3.id()); it.3.set(n); }
        { let n = f(7, it.4.id()); it.4.set(n); }
        { let n = f(12, it.5.id()); it.5.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[8] = s.0[i].id();
            r.v[3] = s.1[i].id();
            r.v[13] = s.2[i].id();
            r.v[2] = s.3[i].id();
            r.v[7] = s.4[i].id();
            r.v[12] = s.5[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q37;
impl Def for Q37 {
    type G = (Entity, &'static mut W8, &'static mut W2, &'static W3, &'static mut W7, &'static mut W13,);
    type I = (&'static W12,);
    type E = (&'static W1,);
    const REQ: &'static [usize] = &[8, 2, 3, 7, 13];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[8, 2, 7, 13];
    const INC: &'static [usize] = &[12];
    const EXC: &'static [usize] = &[1];
    const ENT: bool = true;
    const PARTS: usize = 6;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[8] = it.1.id();
        r.v[2] = it.2.id();
        r.v[3] = it.3.id();
        r.v[7] = it.4.id();
        r.v[13] = it.5.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(8, it.1.id()); it.1.set(n); }
        { let n = f(2, it.2.id()); it.2.set(n); }
        { let n = f(7, it.4.id()); it.4.set(n); }
        { let n = f(13, it.5.id()); it.5.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[8] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.v[3] = s.3[i].id();
            r.v[7] = s.4[i].id();
            r.v[13] = s.5[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q38;
impl Def for Q38 {
    type G = (&'static W13, &'static W2, Entity, &'static W3, Option<&'static W12>, Option<&'static W7>, Option<&'static mut W8>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[13, 2, 3];
    const OPT: &'static [usize] = &[12, 7, 8];
    const MUT: &'static [usize] = &[8];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 7;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[13] = it.0.id();
        r.v[2] = it.1.id();
        r.e = key(it.2);
        r.v[3] = it.3.id();
        r.v[12] = it.4.as_ref().map_or(NONE, |c| c.id());
        r.v[7] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[8] = it.6.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        if let Some(c) = it.6 { let n = f(8, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[13] = s.0[i].id();
            r.v[2] = s.1[i].id();
            r.e = key(s.2[i]);
            r.v[3] = s.3[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q39;
impl Def for Q39 {
    type G = (&'static mut W7, Entity, &'static W8, &'static W9, &'static W10, &'static W11, &'static W12,);
    type I = ();
    type E = (&'static W4, &'static W13, &'static W0, &'static W15,);
    const REQ: &'static [usize] = &[7, 8, 9, 10, 11, 12];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[7];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[4, 13, 0, 15];
    const ENT: bool = true;
    const PARTS: usize = 7;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[7] = it.0.id();
        r.e = key(it.1);
        r.v[8] = it.2.id();
        r.v[9] = it.3.id();
        r.v[10] = it.4.id();
        r.v[11] = it.5.id();
        r.v[12] = it.6.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(7, it.0.id()); it.0.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[7] = s.0[i].id();
            r.e = key(s.1[i]);
            r.v[8] = s.2[i].id();
            r.v[9] = s.3[i].id();
            r.v[10] = s.4[i].id();
            r.v[11] = s.5[i].id();
            r.v[12] = s.6[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q40;
impl Def for Q40 {
    type G = (&'static mut W0, &'static W1, Entity, &'static mut W2, &'static W3, &'static W4, &'static W5, &'static mut W6,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[0, 2, 6];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 8;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.e = key(it.2);
        r.v[2] = it.3.id();
        r.v[3] = it.4.id();
        r.v[4] = it.5.id();
        r.v[5] = it.6.id();
        r.v[6] = it.7.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(0, it.0.id()); it.0.set(n); }
        { let n = f(2, it.3.id()); it.3.set(n); }
        { let n = f(6, it.7.id()); it.7.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.e = key(s.2[i]);
            r.v[2] = s.3[i].id();
            r.v[3] = s.4[i].id();
            r.v[4] = s.5[i].id();
            r.v[5] = s.6[i].id();
            r.v[6] = s.7[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q41;
impl Def for Q41 {
    type G = (&'static mut W4, &'static mut W3, &'static mut W1, &'static W6, &'static mut W5,);
    type I = (&'static W0, &'static W2,);
    type E = (&'static W7,);
    const REQ: &'static [usize] = &[4, 3, 1, 6, 5];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[4, 3, 1, 5];
    const INC: &'static [usize] = &[0, 2];
    const EXC: &'static [usize] = &[7];
    const ENT: bool = false;
    const PARTS: usize = 5;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[4] = it.0.id();
        r.v[3] = it.1.id();
        r.v[1] = it.2.id();
        r.v[6] = it.3.id();
        r.v[5] = it.4.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(4, it.0.id()); it.0.set(n); }
        { let n = f(3, it.1.id()); it.1.set(n); }
        { let n = f(1, it.2.id()); it.2.set(n); }
        { let n = f(5, it.4.id()); it.4.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[4] = s.0[i].id();
            r.v[3] = s.1[i].id();
            r.v[1] = s.2[i].id();
            r.v[6] = s.3[i].id();
            r.v[5] = s.4[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q42;
impl Def for Q42 {
    type G = (&'static W0, &'static W3, &'static W6, &'static W5, Entity, Option<&'static mut W2>, Option<&'static W4>, Option<&'static W1>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 3, 6, 5];
    const OPT: &'static [usize] = &[2, 4, 1];
    const MUT: &'static [usize] = &[2];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 8;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[3] = it.1.id();
        r.v[6] = it.2.id();
        r.v[5] = it.3.id();
        r.e = key(it.4);
        r.v[2] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[4] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[1] = it.7.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        if let Some(c) = it.5 { let n = f(2, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[3] = s.1[i].id();
            r.v[6] = s.2[i].id();
            r.v[5] = s.3[i].id();
            r.e = key(s.4[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q43;
impl Def for Q43 {
    type G = (&'static mut W1, &'static mut W3, &'static mut W2, &'static mut W12, &'static mut W8, &'static mut W13, &'static mut W7,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[1, 3, 2, 12, 8, 13, 7];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[1, 3, 2, 12, 8, 13, 7];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 7;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[1] = it.0.id();
        r.v[3] = it.1.id();
        r.v[2] = it.2.id();
        r.v[12] = it.3.id();
        r.v[8] = it.4.id();
        r.v[13] = it.5.id();
        r.v[7] = it.6.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(1, it.0.id()); it.0.set(n); }
        { let n = f(3, it.1.id()); it.1.set(n); }
        { let n = f(2, it.2.id()); it.2.set(n); }
        { let n = f(12, it.3.id()); it.3.set(n); }
        { let n = f(8, it.4.id()); it.4.set(n); }
        { let n = f(13, it.5.id()); it.5.set(n); }
        { let n = f(7, it.6.id()); it.6.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[1] = s.0[i].id();
            r.v[3] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.v[12] = s.3[i].id();
            r.v[8] = s.4[i].id();
            r.v[13] = s.5[i].id();
            r.v[7] = s.6[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q44;
impl Def for Q44 {
    type G = (&'static W12, &'static W2, Entity, &'static mut W3,);
    type I = (&'static W8, &'static mut W7, &'static W13, &'static W1,);
    type E = ();
    const REQ: &'static [usize] = &[12, 2, 3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[3];
    const INC: &'static [usize] = &[8, 7, 13, 1];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 4;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[12] = it.0.id();
        r.v[2] = it.1.id();
        r.e = key(it.2);
        r.v[3] = it.3.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(3, it.3.id()); it.3.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[12] = s.0[i].id();
            r.v[2] = s.1[i].id();
            r.e = key(s.2[i]);
            r.v[3] = s.3[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q45;
impl Def for Q45 {
    type G = (&'static W13, &'static W1, &'static W3, &'static W7, &'static W12, Entity, &'static W2, Option<&'static W8>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[13, 1, 3, 7, 12, 2];
    const OPT: &'static [usize] = &[8];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 8;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[13] = it.0.id();
        r.v[1] = it.1.id();
        r.v[3] = it.2.id();
        r.v[7] = it.3.id();
        r.v[12] = it.4.id();
        r.e = key(it.5);
        r.v[2] = it.6.id();
        r.v[8] = it.7.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[13] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[3] = s.2[i].id();
            r.v[7] = s.3[i].id();
            r.v[12] = s.4[i].id();
            r.e = key(s.5[i]);
            r.v[2] = s.6[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q46;
impl Def for Q46 {
    type G = (&'static W1, &'static mut W6, &'static W11, &'static mut W0, &'static mut W5, &'static W10, &'static W15,);
    type I = ();
    type E = (&'static W9, &'static W14, &'static W13, &'static mut W12, &'static mut W8, &'static W2,);
    const REQ: &'static [usize] = &[1, 6, 11, 0, 5, 10, 15];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[6, 0, 5];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[9, 14, 13, 12, 8, 2];
    const ENT: bool = false;
    const PARTS: usize = 7;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[1] = it.0.id();
        r.v[6] = it.1.id();
        r.v[11] = it.2.id();
        r.v[0] = it.3.id();
        r.v[5] = it.4.id();
        r.v[10] = it.5.id();
        r.v[15] = it.6.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.1.id()); it.1.set(n); }
        { let n = f(0, it.3.id()); it.3.set(n); }
        { let n = f(5, it.4.id()); it.4.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[1] = s.0[i].id();
            r.v[6] = s.1[i].id();
            r.v[11] = s.2[i].id();
            r.v[0] = s.3[i].id();
            r.v[5] = s.4[i].id();
            r.v[10] = s.5[i].id();
            r.v[15] = s.6[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q47;
impl Def for Q47 {
    type G = (&'static W0, &'static W1, &'static W2, &'static mut W3, &'static mut W4, &'static mut W5, &'static W6, &'static mut W7, Entity,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[3, 4, 5, 7];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 9;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.v[2] = it.2.id();
        r.v[3] = it.3.id();
        r.v[4] = it.4.id();
        r.v[5] = it.5.id();
        r.v[6] = it.6.id();
        r.v[7] = it.7.id();
        r.e = key(it.8);
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(3, it.3.id()); it.3.set(n); }
        { let n = f(4, it.4.id()); it.4.set(n); }
        { let n = f(5, it.5.id()); it.5.set(n); }
        { let n = f(7, it.7.id()); it.7.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.v[3] = s.3[i].id();
            r.v[4] = s.4[i].id();
            r.v[5] = s.5[i].id();
            r.v[6] = s.6[i].id();
            r.v[7] = s.7[i].id();
            r.e = key(s.8[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q48;
impl Def for Q48 {
    type G = (&'static mut W7, &'static W4,);
    type I = (&'static W1, &'static W5, &'static W2, &'static W3, &'static W6, &'static W0,);
    type E = ();
    const REQ: &'static [usize] = &[7, 4];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[7];
    const INC: &'static [usize] = &[1, 5, 2, 3, 6, 0];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 2;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[7] = it.0.id();
        r.v[4] = it.1.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(7, it.0.id()); it.0.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[7] = s.0[i].id();
            r.v[4] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q49;
impl Def for Q49 {
    type G = (&'static W6, &'static W7, &'static W3, &'static W1, &'static mut W4, Option<&'static mut W5>, Option<&'static W2>, Entity, Option<&'static W0>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[6, 7, 3, 1, 4];
    const OPT: &'static [usize] = &[5, 2, 0];
    const MUT: &'static [usize] = &[4, 5];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 9;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.v[7] = it.1.id();
        r.v[3] = it.2.id();
        r.v[1] = it.3.id();
        r.v[4] = it.4.id();
        r.v[5] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.7);
        r.v[0] = it.8.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(4, it.4.id()); it.4.set(n); }
        if let Some(c) = it.5 { let n = f(5, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.7.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.v[7] = s.1[i].id();
            r.v[3] = s.2[i].id();
            r.v[1] = s.3[i].id();
            r.v[4] = s.4[i].id();
            r.e = key(s.7[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q50;
impl Def for Q50 {
    type G = (&'static mut W6, &'static mut W13, &'static mut W1, &'static mut W3, &'static mut W2, &'static mut W12, &'static mut W7, &'static mut W8,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[6, 13, 1, 3, 2, 12, 7, 8];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[6, 13, 1, 3, 2, 12, 7, 8];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 8;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.v[13] = it.1.id();
        r.v[1] = it.2.id();
        r.v[3] = it.3.id();
        r.v[2] = it.4.id();
        r.v[12] = it.5.id();
        r.v[7] = it.6.id();
        r.v[8] = it.7.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.0.id()); it.0.set(n); }
        { let n = f(13, it.1.id()); it.1.set(n); }
        { let n = f(1, it.2.id()); it.2.set(n); }
        { let n = f(3, it.3.id()); it.3.set(n); }
        { let n = f(2, it.4.id()); it.4.set(n); }
        { let n = f(12, it.5.id()); it.5.set(n); }
        { let n = f(7, it.6.id()); it.6.set(n); }
        { let n = f(8, it.7.id()); it.7.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.v[13] = s.1[i].id();
            r.v[1] = s.2[i].id();
            r.v[3] = s.3[i].id();
            r.v[2] = s.4[i].id();
            r.v[12] = s.5[i].id();
            r.v[7] = s.6[i].id();
            r.v[8] = s.7[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q51;
impl Def for Q51 {
    type G = (Entity, &'static mut W13, &'static W12,);
    type I = (&'static W1, &'static W7, &'static W3, &'static W6, &'static W8, &'static W2,);
    type E = (&'static W11,);
    const REQ: &'static [usize] = &[13, 12];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[13];
    const INC: &'static [usize] = &[1, 7, 3, 6, 8, 2];
    const EXC: &'static [usize] = &[11];
    const ENT: bool = true;
    const PARTS: usize = 3;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[13] = it.1.id();
        r.v[12] = it.2.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(13, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[13] = s.1[i].id();
            r.v[12] = s.2[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q52;
impl Def for Q52 {
    type G = (&'static W7, Option<&'static W13>, Entity, Option<&'static mut W8>, Option<&'static W1>, Option<&'static W12>, Option<&'static mut W2>, Option<&'static W6>, Option<&'static mut W3>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[7];
    const OPT: &'static [usize] = &[13, 8, 1, 12, 2, 6, 3];
    const MUT: &'static [usize] = &[8, 2, 3];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 9;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[7] = it.0.id();
        r.v[13] = it.1.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.2);
        r.v[8] = it.3.as_ref().map_or(NONE, |c| c.id());
        r.v[1] = it.4.as_ref().map_or(NONE, |c| c.id());
        r.v[12] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[6] = it.7.as_ref().map_or(NONE, |c| c.id());
        r.v[3] = it.8.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        if let Some(c) = it.3 { let n = f(8, c.id()); c.set(n); }
        if let Some(c) = it.6 { let n = f(2, c.id()); c.set(n); }
        if let Some(c) = it.8 { let n = f(3, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[7] = s.0[i].id();
            r.e = key(s.2[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q53;
impl Def for Q53 {
    type G = (&'static mut W5, &'static mut W6, &'static W7, Entity, &'static W8, &'static mut W9, &'static W10, &'static mut W11, &'static W12,);
    type I = ();
    type E = (&'static W3, &'static mut W1, &'static W14, &'static W15,);
    const REQ: &'static [usize] = &[5, 6, 7, 8, 9, 10, 11, 12];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[5, 6, 9, 11];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[3, 1, 14, 15];
    const ENT: bool = true;
    const PARTS: usize = 9;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[5] = it.0.id();
        r.v[6] = it.1.id();
        r.v[7] = it.2.id();
        r.e = key(it.3);
        r.v[8] = it.4.id();
        r.v[9] = it.5.id();
        r.v[10] = it.6.id();
        r.v[11] = it.7.id();
        r.v[12] = it.8.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(5, it.0.id()); it.0.set(n); }
        { let n = f(6, it.1.id()); it.1.set(n); }
        { let n = f(9, it.5.id()); it.5.set(n); }
        { let n = f(11, it.7.id()); it.7.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[5] = s.0[i].id();
            r.v[6] = s.1[i].id();
            r.v[7] = s.2[i].id();
            r.e = key(s.3[i]);
            r.v[8] = s.4[i].id();
            r.v[9] = s.5[i].id();
            r.v[10] = s.6[i].id();
            r.v[11] = s.7[i].id();
            r.v[12] = s.8[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q54;
impl Def for Q54 {
    type G = (&'static W0, &'static mut W1, &'static W2, &'static W3, Entity, &'static W4, &'static mut W5, &'static W6, &'static W7, &'static W8,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[1, 5];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 10;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.v[2] = it.2.id();
        r.v[3] = it.3.id();
        r.e = key(it.4);
        r.v[4] = it.5.id();
        r.v[5] = it.6.id();
        r.v[6] = it.7.id();
        r.v[7] = it.8.id();
        r.v[8] = it.9.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(1, it.1.id()); it.1.set(n); }
        { let n = f(5, it.6.id()); it.6.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.v[3] = s.3[i].id();
            r.e = key(s.4[i]);
            r.v[4] = s.5[i].id();
            r.v[5] = s.6[i].id();
            r.v[6] = s.7[i].id();
            r.v[7] = s.8[i].id();
            r.v[8] = s.9[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q55;
impl Def for Q55 {
    type G = (&'static mut W6, &'static W7, &'static W1, &'static mut W5, &'static W0, &'static W4, &'static W3,);
    type I = (&'static W2, &'static W8,);
    type E = (&'static mut W9,);
    const REQ: &'static [usize] = &[6, 7, 1, 5, 0, 4, 3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[6, 5];
    const INC: &'static [usize] = &[2, 8];
    const EXC: &'static [usize] = &[9];
    const ENT: bool = false;
    const PARTS: usize = 7;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.v[7] = it.1.id();
        r.v[1] = it.2.id();
        r.v[5] = it.3.id();
        r.v[0] = it.4.id();
        r.v[4] = it.5.id();
        r.v[3] = it.6.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.0.id()); it.0.set(n); }
        { let n = f(5, it.3.id()); it.3.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.v[7] = s.1[i].id();
            r.v[1] = s.2[i].id();
            r.v[5] = s.3[i].id();
            r.v[0] = s.4[i].id();
            r.v[4] = s.5[i].id();
            r.v[3] = s.6[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q56;
impl Def for Q56 {
    type G = (&'static W0, Entity, Option<&'static W6>, Option<&'static W7>, Option<&'static W2>, Option<&'static mut W3>, Option<&'static W1>, Option<&'static W8>, Option<&'static W5>, Option<&'static mut W4>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0];
    const OPT: &'static [usize] = &[6, 7, 2, 3, 1, 8, 5, 4];
    const MUT: &'static [usize] = &[3, 4];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 10;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.e = key(it.1);
        r.v[6] = it.2.as_ref().map_or(NONE, |c| c.id());
        r.v[7] = it.3.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.4.as_ref().map_or(NONE, |c| c.id());
        r.v[3] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[1] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[8] = it.7.as_ref().map_or(NONE, |c| c.id());
        r.v[5] = it.8.as_ref().map_or(NONE, |c| c.id());
        r.v[4] = it.9.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        if let Some(c) = it.5 { let n = f(3, c.id()); c.set(n); }
        if let Some(c) = it.9 { let n = f(4, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.e = key(s.1[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q57;
impl Def for Q57 {
    type G = (&'static mut W13, &'static mut W7, &'static mut W8, &'static mut W2, &'static mut W3, &'static mut W1, &'static mut W6, &'static mut W12, &'static mut W11,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[13, 7, 8, 2, 3, 1, 6, 12, 11];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[13, 7, 8, 2, 3, 1, 6, 12, 11];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 9;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[13] = it.0.id();
        r.v[7] = it.1.id();
        r.v[8] = it.2.id();
        r.v[2] = it.3.id();
        r.v[3] = it.4.id();
        r.v[1] = it.5.id();
        r.v[6] = it.6.id();
        r.v[12] = it.7.id();
        r.v[11] = it.8.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(13, it.0.id()); it.0.set(n); }
        { let n = f(7, it.1.id()); it.1.set(n); }
        { let n = f(8, it.2.id()); it.2.set(n); }
        { let n = f(2, it.3.id()); it.3.set(n); }
        { let n = f(3, it.4.id()); it.4.set(n); }
        { let n = f(1, it.5.id()); it.5.set(n); }
        { let n = f(6, it.6.id()); it.6.set(n); }
        { let n = f(12, it.7.id()); it.7.set(n); }
        { let n = f(11, it.8.id()); it.8.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[13] = s.0[i].id();
            r.v[7] = s.1[i].id();
            r.v[8] = s.2[i].id();
            r.v[2] = s.3[i].id();
            r.v[3] = s.4[i].id();
            r.v[1] = s.5[i].id();
            r.v[6] = s.6[i].id();
            r.v[12] = s.7[i].id();
            r.v[11] = s.8[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q58;
impl Def for Q58 {
    type G = (&'static W2, &'static W6, Entity, &'static W7, &'static mut W11, &'static mut W1,);
    type I = (&'static W8, &'static mut W3, &'static W12, &'static W13,);
    type E = ();
    const REQ: &'static [usize] = &[2, 6, 7, 11, 1];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[11, 1];
    const INC: &'static [usize] = &[8, 3, 12, 13];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 6;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[2] = it.0.id();
        r.v[6] = it.1.id();
        r.e = key(it.2);
        r.v[7] = it.3.id();
        r.v[11] = it.4.id();
        r.v[1] = it.5.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(11, it.4.id()); it.4.set(n); }
        { let n = f(1, it.5.id()); it.5.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[2] = s.0[i].id();
            r.v[6] = s.1[i].id();
            r.e = key(s.2[i]);
            r.v[7] = s.3[i].id();
            r.v[11] = s.4[i].id();
            r.v[1] = s.5[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q59;
impl Def for Q59 {
    type G = (&'static mut W6, &'static mut W8, Entity, &'static W13, &'static W11, Option<&'static W1>, Option<&'static W7>, Option<&'static mut W12>, Option<&'static W3>, Option<&'static W2>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[6, 8, 13, 11];
    const OPT: &'static [usize] = &[1, 7, 12, 3, 2];
    const MUT: &'static [usize] = &[6, 8, 12];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 10;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.v[8] = it.1.id();
        r.e = key(it.2);
        r.v[13] = it.3.id();
        r.v[11] = it.4.id();
        r.v[1] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[7] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[12] = it.7.as_ref().map_or(NONE, |c| c.id());
        r.v[3] = it.8.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.9.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.0.id()); it.0.set(n); }
        { let n = f(8, it.1.id()); it.1.set(n); }
        if let Some(c) = it.7 { let n = f(12, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.v[8] = s.1[i].id();
            r.e = key(s.2[i]);
            r.v[13] = s.3[i].id();
            r.v[11] = s.4[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q60;
impl Def for Q60 {
    type G = (&'static W2, &'static mut W7, &'static W12, &'static W1, &'static W6, &'static W11, &'static W0, &'static W5, &'static W10,);
    type I = ();
    type E = (&'static W15, &'static mut W3, &'static W4,);
    const REQ: &'static [usize] = &[2, 7, 12, 1, 6, 11, 0, 5, 10];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[7];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[15, 3, 4];
    const ENT: bool = false;
    const PARTS: usize = 9;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[2] = it.0.id();
        r.v[7] = it.1.id();
        r.v[12] = it.2.id();
        r.v[1] = it.3.id();
        r.v[6] = it.4.id();
        r.v[11] = it.5.id();
        r.v[0] = it.6.id();
        r.v[5] = it.7.id();
        r.v[10] = it.8.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(7, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[2] = s.0[i].id();
            r.v[7] = s.1[i].id();
            r.v[12] = s.2[i].id();
            r.v[1] = s.3[i].id();
            r.v[6] = s.4[i].id();
            r.v[11] = s.5[i].id();
            r.v[0] = s.6[i].id();
            r.v[5] = s.7[i].id();
            r.v[10] = s.8[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q61;
impl Def for Q61 {
    type G = (&'static W0, &'static W1, &'static mut W2, &'static W3, &'static W4, &'static W5, &'static W6, &'static mut W7, &'static W8, Entity, &'static mut W9,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[2, 7, 9];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 11;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.v[2] = it.2.id();
        r.v[3] = it.3.id();
        r.v[4] = it.4.id();
        r.v[5] = it.5.id();
        r.v[6] = it.6.id();
        r.v[7] = it.7.id();
        r.v[8] = it.8.id();
        r.e = key(it.9);
        r.v[9] = it.10.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(2, it.2.id()); it.2.set(n); }
        { let n = f(7, it.7.id()); it.7.set(n); }
        { let n = f(9, it.10.id()); it.10.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.v[3] = s.3[i].id();
            r.v[4] = s.4[i].id();
            r.v[5] = s.5[i].id();
            r.v[6] = s.6[i].id();
            r.v[7] = s.7[i].id();
            r.v[8] = s.8[i].id();
            r.e = key(s.9[i]);
            r.v[9] = s.10[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q62;
impl Def for Q62 {
    type G = (&'static W6, &'static W2, &'static W7, &'static W3,);
    type I = (&'static W0, &'static W9, &'static W5, &'static W4, &'static W1, &'static W8,);
    type E = ();
    const REQ: &'static [usize] = &[6, 2, 7, 3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[0, 9, 5, 4, 1, 8];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 4;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.v[2] = it.1.id();
        r.v[7] = it.2.id();
        r.v[3] = it.3.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.v[2] = s.1[i].id();
            r.v[7] = s.2[i].id();
            r.v[3] = s.3[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q63;
impl Def for Q63 {
    type G = (&'static W4, &'static W3, &'static mut W6, &'static mut W9, &'static W8, Entity, &'static W7, &'static W1, Option<&'static W5>, Option<&'static W2>, Option<&'static W0>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[4, 3, 6, 9, 8, 7, 1];
    const OPT: &'static [usize] = &[5, 2, 0];
    const MUT: &'static [usize] = &[6, 9];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 11;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[4] = it.0.id();
        r.v[3] = it.1.id();
        r.v[6] = it.2.id();
        r.v[9] = it.3.id();
        r.v[8] = it.4.id();
        r.e = key(it.5);
        r.v[7] = it.6.id();
        r.v[1] = it.7.id();
        r.v[5] = it.8.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.9.as_ref().map_or(NONE, |c| c.id());
        r.v[0] = it.10.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.2.id()); it.2.set(n); }
        { let n = f(9, it.3.id()); it.3.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[4] = s.0[i].id();
            r.v[3] = s.1[i].id();
            r.v[6] = s.2[i].id();
            r.v[9] = s.3[i].id();
            r.v[8] = s.4[i].id();
            r.e = key(s.5[i]);
            r.v[7] = s.6[i].id();
            r.v[1] = s.7[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q64;
impl Def for Q64 {
    type G = (&'static mut W12, &'static mut W3, &'static mut W11, &'static mut W2, &'static mut W8, &'static mut W7, &'static mut W6, &'static mut W13, &'static mut W0, &'static mut W1,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[12, 3, 11, 2, 8, 7, 6, 13, 0, 1];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[12, 3, 11, 2, 8, 7, 6, 13, 0, 1];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 10;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[12] = it.0.id();
        r.v[3] = it.1.id();
        r.v[11] = it.2.id();
        r.v[2] = it.3.id();
        r.v[8] = it.4.id();
        r.v[7] = it.5.id();
        r.v[6] = it.6.id();
        r.v[13] = it.7.id();
        r.v[0] = it.8.id();
        r.v[1] = it.9.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(12, it.0.id()); it.0.set(n); }
        { let n = f(3, it.1.id()); it.1.set(n); }
        { let n = f(11, it.2.id()); it.2.set(n); }
        { let n = f(2, it.3.id()); it.3.set(n); }
        { let n = f(8, it.4.id()); it.4.set(n); }
        { let n = f(7, it.5.id()); it.5.set(n); }
        { let n = f(6, it.6.id()); it.6.set(n); }
        { let n = f(13, it.7.id()); it.7.set(n); }
        { let n = f(0, it.8.id()); it.8.set(n); }
        { let n = f(1, it.9.id()); it.9.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[12] = s.0[i].id();
            r.v[3] = s.1[i].id();
            r.v[11] = s.2[i].id();
            r.v[2] = s.3[i].id();
            r.v[8] = s.4[i].id();
            r.v[7] = s.5[i].id();
            r.v[6] = s.6[i].id();
            r.v[13] = s.7[i].id();
            r.v[0] = s.8[i].id();
            r.v[1] = s.9[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q65;
impl Def for Q65 {
    type G = (&'static W7, &'static W11, &'static W3, &'static mut W1, &'static W12, &'static mut W13, &'static W2, Entity, &'static W8,);
    type I = (&'static W6, &'static W0,);
    type E = (&'static W5,);
    const REQ: &'static [usize] = &[7, 11, 3, 1, 12, 13, 2, 8];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[1, 13];
    const INC: &'static [usize] = &[6, 0];
    const EXC: &'static [usize] = &[5];
    const ENT: bool = true;
    const PARTS: usize = 9;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[7] = it.0.id();
        r.v[11] = it.1.id();
        r.v[3] = it.2.id();
        r.v[1] = it.3.id();
        r.v[12] = it.4.id();
        r.v[13] = it.5.id();
        r.v[2] = it.6.id();
        r.e = key(it.7);
        r.v[8] = it.8.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(1, it.3.id()); it.3.set(n); }
        { let n = f(13, it.5.id()); it.5.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[7] = s.0[i].id();
            r.v[11] = s.1[i].id();
            r.v[3] = s.2[i].id();
            r.v[1] = s.3[i].id();
            r.v[12] = s.4[i].id();
            r.v[13] = s.5[i].id();
            r.v[2] = s.6[i].id();
            r.e = key(s.7[i]);
            r.v[8] = s.8[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q66;
impl Def for Q66 {
    type G = (&'static mut W7, &'static mut W0, Entity, Option<&'static W1>, Option<&'static W6>, Option<&'static W12>, Option<&'static W2>, Option<&'static W8>, Option<&'static W11>, Option<&'static W13>, Option<&'static W3>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[7, 0];
    const OPT: &'static [usize] = &[1, 6, 12, 2, 8, 11, 13, 3];
    const MUT: &'static [usize] = &[7, 0];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 11;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[7] = it.0.id();
        r.v[0] = it.1.id();
        r.e = key(it.2);
        r.v[1] = it.3.as_ref().map_or(NONE, |c| c.id());
        r.v[6] = it.4.as_ref().map_or(NONE, |c| c.id());
        r.v[12] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[8] = it.7.as_ref().map_or(NONE, |c| c.id());
        r.v[11] = it.8.as_ref().map_or(NONE, |c| c.id());
        r.v[13] = it.9.as_ref().map_or(NONE, |c| c.id());
        r.v[3] = it.10.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(7, it.0.id()); it.0.set(n); }
        { let n = f(0, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[7] = s.0[i].id();
            r.v[0] = s.1[i].id();
            r.e = key(s.2[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q67;
impl Def for Q67 {
    type G = (&'static mut W3, &'static mut W4, &'static W5, &'static W6, &'static W7, &'static mut W8, &'static mut W9, Entity, &'static W10, &'static W11, &'static W12,);
    type I = ();
    type E = (&'static mut W13,);
    const REQ: &'static [usize] = &[3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[3, 4, 8, 9];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[13];
    const ENT: bool = true;
    const PARTS: usize = 11;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[3] = it.0.id();
        r.v[4] = it.1.id();
        r.v[5] = it.2.id();
        r.v[6] = it.3.id();
        r.v[7] = it.4.id();
        r.v[8] = it.5.id();
        r.v[9] = it.6.id();
        r.e = key(it.7);
        r.v[10] = it.8.id();
        r.v[11] = it.9.id();
        r.v[12] = it.10.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(3, it.0.id()); it.0.set(n); }
        { let n = f(4, it.1.id()); it.1.set(n); }
        { let n = f(8, it.5.id()); it.5.set(n); }
        { let n = f(9, it.6.id()); it.6.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[3] = s.0[i].id();
            r.v[4] = s.1[i].id();
            r.v[5] = s.2[i].id();
            r.v[6] = s.3[i].id();
            r.v[7] = s.4[i].id();
            r.v[8] = s.5[i].id();
            r.v[9] = s.6[i].id();
            r.e = key(s.7[i]);
            r.v[10] = s.8[i].id();
            r.v[11] = s.9[i].id();
            r.v[12] = s.10[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q68;
impl Def for Q68 {
    type G = (&'static W0, &'static W1, &'static W2, &'static mut W3, &'static mut W4, Entity, &'static mut W5, &'static W6, &'static W7, &'static W8, &'static mut W9, &'static W10,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[3, 4, 5, 9];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 12;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.v[2] = it.2.id();
        r.v[3] = it.3.id();
        r.v[4] = it.4.id();
        r.e = key(it.5);
        r.v[5] = it.6.id();
        r.v[6] = it.7.id();
        r.v[7] = it.8.id();
        r.v[8] = it.9.id();
        r.v[9] = it.10.id();
        r.v[10] = it.11.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(3, it.3.id()); it.3.set(n); }
        { let n = f(4, it.4.id()); it.4.set(n); }
        { let n = f(5, it.6.id()); it.6.set(n); }
        { let n = f(9, it.10.id()); it.10.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.v[3] = s.3[i].id();
            r.v[4] = s.4[i].id();
            r.e = key(s.5[i]);
            r.v[5] = s.6[i].id();
            r.v[6] = s.7[i].id();
            r.v[7] = s.8[i].id();
            r.v[8] = s.9[i].id();
            r.v[9] = s.10[i].id();
            r.v[10] = s.11[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q69;
impl Def for Q69 {
    type G = (&'static W2, &'static W6, &'static W8, &'static W5, &'static W1, &'static W10, &'static mut W9, &'static W7,);
    type I = (&'static mut W0, &'static mut W3, &'static W4,);
    type E = (&'static W11,);
    const REQ: &'static [usize] = &[2, 6, 8, 5, 1, 10, 9, 7];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[9];
    const INC: &'static [usize] = &[0, 3, 4];
    const EXC: &'static [usize] = &[11];
    const ENT: bool = false;
    const PARTS: usize = 8;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[2] = it.0.id();
        r.v[6] = it.1.id();
        r.v[8] = it.2.id();
        r.v[5] = it.3.id();
        r.v[1] = it.4.id();
        r.v[10] = it.5.id();
        r.v[9] = it.6.id();
        r.v[7] = it.7.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(9, it.6.id()); it.6.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[2] = s.0[i].id();
            r.v[6] = s.1[i].id();
            r.v[8] = s.2[i].id();
            r.v[5] = s.3[i].id();
            r.v[1] = s.4[i].id();
            r.v[10] = s.5[i].id();
            r.v[9] = s.6[i].id();
            r.v[7] = s.7[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q70;
impl Def for Q70 {
    type G = (&'static W2, &'static W9, &'static W6, &'static W4, &'static W1, &'static W8, Option<&'static W7>, Option<&'static W10>, Option<&'static W3>, Option<&'static mut W5>, Entity, Option<&'static W0>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[2, 9, 6, 4, 1, 8];
    const OPT: &'static [usize] = &[7, 10, 3, 5, 0];
    const MUT: &'static [usize] = &[5];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 12;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[2] = it.0.id();
        r.v[9] = it.1.id();
        r.v[6] = it.2.id();
        r.v[4] = it.3.id();
        r.v[1] = it.4.id();
        r.v[8] = it.5.id();
        r.v[7] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[10] = it.7.as_ref().map_or(NONE, |c| c.id());
        r.v[3] = it.8.as_ref().map_or(NONE, |c| c.id());
        r.v[5] = it.9.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.10);
        r.v[0] = it.11.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        if let Some(c) = it.9 { let n = f(5, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.10.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[2] = s.0[i].id();
            r.v[9] = s.1[i].id();
            r.v[6] = s.2[i].id();
            r.v[4] = s.3[i].id();
            r.v[1] = s.4[i].id();
            r.v[8] = s.5[i].id();
            r.e = key(s.10[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q71;
impl Def for Q71 {
    type G = (&'static mut W12, &'static mut W2, &'static mut W13, &'static mut W6, &'static mut W0, &'static mut W11, &'static mut W8, &'static mut W3, &'static mut W5, &'static mut W1, &'static mut W7,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[12, 2, 13, 6, 0, 11, 8, 3, 5, 1, 7];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[12, 2, 13, 6, 0, 11, 8, 3, 5, 1, 7];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 11;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[12] = it.0.id();
        r.v[2] = it.1.id();
        r.v[13] = it.2.id();
        r.v[6] = it.3.id();
        r.v[0] = it.4.id();
        r.v[11] = it.5.id();
        r.v[8] = it.6.id();
        r.v[3] = it.7.id();
        r.v[5] = it.8.id();
        r.v[1] = it.9.id();
        r.v[7] = it.10.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(12, it.0.id()); it.0.set(n); }
        { let n = f(2, it.1.id()); it.1.set(n); }
        { let n = f(13, it.2.id()); it.2.set(n); }
        { let n = f(6, it.3.id()); it.3.set(n); }
        { let n = f(0, it.4.id()); it.4.set(n); }
        { let n = f(11, it.5.id()); it.5.set(n); }
        { let n = f(8, it.6.id()); it.6.set(n); }
        { let n = f(3, it.7.id()); it.7.set(n); }
        { let n = f(5, it.8.id()); it.8.set(n); }
        { let n = f(1, it.9.id()); it.9.set(n); }
        { let n = f(7, it.10.id()); it.10.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[12] = s.0[i].id();
            r.v[2] = s.1[i].id();
            r.v[13] = s.2[i].id();
            r.v[6] = s.3[i].id();
            r.v[0] = s.4[i].id();
            r.v[11] = s.5[i].id();
            r.v[8] = s.6[i].id();
            r.v[3] = s.7[i].id();
            r.v[5] = s.8[i].id();
            r.v[1] = s.9[i].id();
            r.v[7] = s.10[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q72;
impl Def for Q72 {
    type G = (&'static W6, &'static W11, &'static W1, &'static W2, Entity, &'static W0,);
    type I = (&'static mut W3, &'static W8, &'static W13, &'static W12, &'static W5, &'static W7,);
    type E = ();
    const REQ: &'static [usize] = &[6, 11, 1, 2, 0];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[3, 8, 13, 12, 5, 7];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 6;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.v[11] = it.1.id();
        r.v[1] = it.2.id();
        r.v[2] = it.3.id();
        r.e = key(it.4);
        r.v[0] = it.5.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.v[11] = s.1[i].id();
            r.v[1] = s.2[i].id();
            r.v[2] = s.3[i].id();
            r.e = key(s.4[i]);
            r.v[0] = s.5[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q73;
impl Def for Q73 {
    type G = (Entity, &'static W6, &'static W13, &'static W5, Option<&'static W2>, Option<&'static W0>, Option<&'static W8>, Option<&'static mut W11>, Option<&'static mut W7>, Option<&'static W12>, Option<&'static W1>, Option<&'static W3>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[6, 13, 5];
    const OPT: &'static [usize] = &[2, 0, 8, 11, 7, 12, 1, 3];
    const MUT: &'static [usize] = &[11, 7];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 12;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[6] = it.1.id();
        r.v[13] = it.2.id();
        r.v[5] = it.3.id();
        r.v[2] = it.4.as_ref().map_or(NONE, |c| c.id());
        r.v[0] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[8] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[11] = it.7.as_ref().map_or(NONE, |c| c.id());
        r.v[7] = it.8.as_ref().map_or(NONE, |c| c.id());
        r.v[12] = it.9.as_ref().map_or(NONE, |c| c.id());
        r.v[1] = it.10.as_ref().map_or(NONE, |c| c.id());
        r.v[3] = it.11.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        if let Some(c) = it.7 { let n = f(11, c.id()); c.set(n); }
        if let Some(c) = it.8 { let n = f(7, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[6] = s.1[i].id();
            r.v[13] = s.2[i].id();
            r.v[5] = s.3[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q74;
impl Def for Q74 {
    type G = (&'static mut W0, &'static W1, &'static W2, Entity, &'static W3, &'static W4, &'static mut W5, &'static W6, &'static W7, &'static W8, &'static mut W9, &'static W10, &'static mut W11,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[0, 5, 9, 11];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 13;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.v[2] = it.2.id();
        r.e = key(it.3);
        r.v[3] = it.4.id();
        r.v[4] = it.5.id();
        r.v[5] = it.6.id();
        r.v[6] = it.7.id();
        r.v[7] = it.8.id();
        r.v[8] = it.9.id();
        r.v[9] = it.10.id();
        r.v[10] = it.11.id();
        r.v[11] = it.12.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(0, it.0.id()); it.0.set(n); }
        { let n = f(5, it.6.id()); it.6.set(n); }
        { let n = f(9, it.10.id()); it.10.set(n); }
        { let n = f(11, it.12.id()); it.12.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.e = key(s.3[i]);
            r.v[3] = s.4[i].id();
            r.v[4] = s.5[i].id();
            r.v[5] = s.6[i].id();
            r.v[6] = s.7[i].id();
            r.v[7] = s.8[i].id();
            r.v[8] = s.9[i].id();
            r.v[9] = s.10[i].id();
            r.v[10] = s.11[i].id();
            r.v[11] = s.12[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q75;
impl Def for Q75 {
    type G = (&'static mut W6, &'static mut W4,);
    type I = (&'static W9, &'static W1, &'static W3, &'static mut W8, &'static W2, &'static W11, &'static W5, &'static W10, &'static mut W0, &'static W7,);
    type E = ();
    const REQ: &'static [usize] = &[6, 4];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[6, 4];
    const INC: &'static [usize] = &[9, 1, 3, 8, 2, 11, 5, 10, 0, 7];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 2;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.v[4] = it.1.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.0.id()); it.0.set(n); }
        { let n = f(4, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.v[4] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q76;
impl Def for Q76 {
    type G = (&'static W6, &'static W8, &'static W0, &'static W4, Entity, &'static W1, &'static mut W11, &'static W9, &'static mut W5, &'static W2, &'static W7, Option<&'static W10>, Option<&'static mut W3>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[6, 8, 0, 4, 1, 11, 9, 5, 2, 7];
    const OPT: &'static [usize] = &[10, 3];
    const MUT: &'static [usize] = &[11, 5, 3];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 13;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.v[8] = it.1.id();
        r.v[0] = it.2.id();
        r.v[4] = it.3.id();
        r.e = key(it.4);
        r.v[1] = it.5.id();
        r.v[11] = it.6.id();
        r.v[9] = it.7.id();
        r.v[5] = it.8.id();
        r.v[2] = it.9.id();
        r.v[7] = it.10.id();
        r.v[10] = it.11.as_ref().map_or(NONE, |c| c.id());
        r.v[3] = it.12.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(11, it.6.id()); it.6.set(n); }
        { let n = f(5, it.8.id()); it.8.set(n); }
        if let Some(c) = it.12 { let n = f(3, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.v[8] = s.1[i].id();
            r.v[0] = s.2[i].id();
            r.v[4] = s.3[i].id();
            r.e = key(s.4[i]);
            r.v[1] = s.5[i].id();
            r.v[11] = s.6[i].id();
            r.v[9] = s.7[i].id();
            r.v[5] = s.8[i].id();
            r.v[2] = s.9[i].id();
            r.v[7] = s.10[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q77;
impl Def for Q77 {
    type G = (&'static mut W3, &'static mut W6, &'static mut W0, &'static mut W5, &'static mut W13, &'static mut W8, &'static mut W11, &'static mut W12, &'static mut W7, &'static mut W1, &'static mut W2, &'static mut W10,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[3, 6, 0, 5, 13, 8, 11, 12, 7, 1, 2, 10];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[3, 6, 0, 5, 13, 8, 11, 12, 7, 1, 2, 10];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 12;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[3] = it.0.id();
        r.v[6] = it.1.id();
        r.v[0] = it.2.id();
        r.v[5] = it.3.id();
        r.v[13] = it.4.id();
        r.v[8] = it.5.id();
        r.v[11] = it.6.id();
        r.v[12] = it.7.id();
        r.v[7] = it.8.id();
        r.v[1] = it.9.id();
        r.v[2] = it.10.id();
        r.v[10] = it.11.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(3, it.0.id()); it.0.set(n); }
        { let n = f(6, it.1.id()); it.1.set(n); }
        { let n = f(0, it.2.id()); it.2.set(n); }
        { let n = f(5, it.3.id()); it.3.set(n); }
        { let n = f(13, it.4.id()); it.4.set(n); }
        { let n = f(8, it.5.id()); it.5.set(n); }
        { let n = f(11, it.6.id()); it.6.set(n); }
        { let n = f(12, it.7.id()); it.7.set(n); }
        { let n = f(7, it.8.id()); it.8.set(n); }
        { let n = f(1, it.9.id()); it.9.set(n); }
        { let n = f(2, it.10.id()); it.10.set(n); }
        { let n = f(10, it.11.id()); it.11.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[3] = s.0[i].id();
            r.v[6] = s.1[i].id();
            r.v[0] = s.2[i].id();
            r.v[5] = s.3[i].id();
            r.v[13] = s.4[i].id();
            r.v[8] = s.5[i].id();
            r.v[11] = s.6[i].id();
            r.v[12] = s.7[i].id();
            r.v[7] = s.8[i].id();
            r.v[1] = s.9[i].id();
            r.v[2] = s.10[i].id();
            r.v[10] = s.11[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q78;
impl Def for Q78 {
    type G = (Entity, &'static W11, &'static W6, &'static mut W7, &'static W2, &'static W0, &'static W1, &'static W3, &'static W5,);
    type I = (&'static W10, &'static mut W12, &'static W8, &'static W13,);
    type E = (&'static mut W15,);
    const REQ: &'static [usize] = &[11, 6, 7, 2, 0, 1, 3, 5];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[7];
    const INC: &'static [usize] = &[10, 12, 8, 13];
    const EXC: &'static [usize] = &[15];
    const ENT: bool = true;
    const PARTS: usize = 9;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[11] = it.1.id();
        r.v[6] = it.2.id();
        r.v[7] = it.3.id();
        r.v[2] = it.4.id();
        r.v[0] = it.5.id();
        r.v[1] = it.6.id();
        r.v[3] = it.7.id();
        r.v[5] = it.8.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(7, it.3.id()); it.3.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[11] = s.1[i].id();
            r.v[6] = s.2[i].id();
            r.v[7] = s.3[i].id();
            r.v[2] = s.4[i].id();
            r.v[0] = s.5[i].id();
            r.v[1] = s.6[i].id();
            r.v[3] = s.7[i].id();
            r.v[5] = s.8[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q79;
impl Def for Q79 {
    type G = (&'static mut W0, &'static mut W1, &'static mut W5, &'static mut W2, &'static W3, &'static W13, &'static mut W10, &'static W11, &'static W8, &'static W7, Option<&'static W6>, Entity, Option<&'static W12>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 5, 2, 3, 13, 10, 11, 8, 7];
    const OPT: &'static [usize] = &[6, 12];
    const MUT: &'static [usize] = &[0, 1, 5, 2, 10];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 13;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.v[5] = it.2.id();
        r.v[2] = it.3.id();
        r.v[3] = it.4.id();
        r.v[13] = it.5.id();
        r.v[10] = it.6.id();
        r.v[11] = it.7.id();
        r.v[8] = it.8.id();
        r.v[7] = it.9.id();
        r.v[6] = it.10.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.11);
        r.v[12] = it.12.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(0, it.0.id()); it.0.set(n); }
        { let n = f(1, it.1.id()); it.1.set(n); }
        { let n = f(5, it.2.id()); it.2.set(n); }
        { let n = f(2, it.3.id()); it.3.set(n); }
        { let n = f(10, it.6.id()); it.6.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.11.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[5] = s.2[i].id();
            r.v[2] = s.3[i].id();
            r.v[3] = s.4[i].id();
            r.v[13] = s.5[i].id();
            r.v[10] = s.6[i].id();
            r.v[11] = s.7[i].id();
            r.v[8] = s.8[i].id();
            r.v[7] = s.9[i].id();
            r.e = key(s.11[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q80;
impl Def for Q80 {
    type G = (Entity, &'static W0, &'static W1, &'static mut W2, &'static mut W3, &'static W4, &'static W5, &'static W6, &'static W7, &'static mut W8, &'static mut W9, &'static W10, &'static W11, &'static W12,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[2, 3, 8, 9];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 14;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[0] = it.1.id();
        r.v[1] = it.2.id();
        r.v[2] = it.3.id();
        r.v[3] = it.4.id();
        r.v[4] = it.5.id();
        r.v[5] = it.6.id();
        r.v[6] = it.7.id();
        r.v[7] = it.8.id();
        r.v[8] = it.9.id();
        r.v[9] = it.10.id();
        r.v[10] = it.11.id();
        r.v[11] = it.12.id();
        r.v[12] = it.13.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(2, it.3.id()); it.3.set(n); }
        { let n = f(3, it.4.id()); it.4.set(n); }
        { let n = f(8, it.9.id()); it.9.set(n); }
        { let n = f(9, it.10.id()); it.10.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len(), s.13.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[0] = s.1[i].id();
            r.v[1] = s.2[i].id();
            r.v[2] = s.3[i].id();
            r.v[3] = s.4[i].id();
            r.v[4] = s.5[i].id();
            r.v[5] = s.6[i].id();
            r.v[6] = s.7[i].id();
            r.v[7] = s.8[i].id();
            r.v[8] = s.9[i].id();
            r.v[9] = s.10[i].id();
            r.v[10] = s.11[i].id();
            r.v[11] = s.12[i].id();
            r.v[12] = s.13[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q81;
impl Def for Q81 {
    type G = (&'static W4, &'static W0, &'static W6, &'static W3, &'static mut W10, &'static W5, &'static mut W12,);
    type I = (&'static W8, &'static W9, &'static W11, &'static W2, &'static W7, &'static W1,);
    type E = (&'static W13,);
    const REQ: &'static [usize] = &[4, 0, 6, 3, 10, 5, 12];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[10, 12];
    const INC: &'static [usize] = &[8, 9, 11, 2, 7, 1];
    const EXC: &'static [usize] = &[13];
    const ENT: bool = false;
    const PARTS: usize = 7;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[4] = it.0.id();
        r.v[0] = it.1.id();
        r.v[6] = it.2.id();
        r.v[3] = it.3.id();
        r.v[10] = it.4.id();
        r.v[5] = it.5.id();
        r.v[12] = it.6.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(10, it.4.id()); it.4.set(n); }
        { let n = f(12, it.6.id()); it.6.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[4] = s.0[i].id();
            r.v[0] = s.1[i].id();
            r.v[6] = s.2[i].id();
            r.v[3] = s.3[i].id();
            r.v[10] = s.4[i].id();
            r.v[5] = s.5[i].id();
            r.v[12] = s.6[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q82;
impl Def for Q82 {
    type G = (&'static W6, &'static W8, &'static W3, &'static W11, &'static W9, &'static W2, &'static W5, &'static mut W7, &'static W12, &'static mut W4, &'static mut W0, Option<&'static W1>, Option<&'static W10>, Entity,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[6, 8, 3, 11, 9, 2, 5, 7, 12, 4, 0];
    const OPT: &'static [usize] = &[1, 10];
    const MUT: &'static [usize] = &[7, 4, 0];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 14;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.v[8] = it.1.id();
        r.v[3] = it.2.id();
        r.v[11] = it.3.id();
        r.v[9] = it.4.id();
        r.v[2] = it.5.id();
        r.v[5] = it.6.id();
        r.v[7] = it.7.id();
        r.v[12] = it.8.id();
        r.v[4] = it.9.id();
        r.v[0] = it.10.id();
        r.v[1] = it.11.as_ref().map_or(NONE, |c| c.id());
        r.v[10] = it.12.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.13);
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(7, it.7.id()); it.7.set(n); }
        { let n = f(4, it.9.id()); it.9.set(n); }
        { let n = f(0, it.10.id()); it.10.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.13.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.v[8] = s.1[i].id();
            r.v[3] = s.2[i].id();
            r.v[11] = s.3[i].id();
            r.v[9] = s.4[i].id();
            r.v[2] = s.5[i].id();
            r.v[5] = s.6[i].id();
            r.v[7] = s.7[i].id();
            r.v[12] = s.8[i].id();
            r.v[4] = s.9[i].id();
            r.v[0] = s.10[i].id();
            r.e = key(s.13[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q83;
impl Def for Q83 {
    type G = (&'static mut W11, &'static mut W8, &'static mut W2, &'static mut W10, &'static mut W13, &'static mut W6, &'static mut W5, &'static mut W1, &'static mut W0, &'static mut W15, &'static mut W7, &'static mut W12, &'static mut W3,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[11, 8, 2, 10, 13, 6, 5, 1, 0, 15, 7, 12, 3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[11, 8, 2, 10, 13, 6, 5, 1, 0, 15, 7, 12, 3];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 13;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[11] = it.0.id();
        r.v[8] = it.1.id();
        r.v[2] = it.2.id();
        r.v[10] = it.3.id();
        r.v[13] = it.4.id();
        r.v[6] = it.5.id();
        r.v[5] = it.6.id();
        r.v[1] = it.7.id();
        r.v[0] = it.8.id();
        r.v[15] = it.9.id();
        r.v[7] = it.10.id();
        r.v[12] = it.11.id();
        r.v[3] = it.12.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(11, it.0.id()); it.0.set(n); }
        { let n = f(8, it.1.id()); it.1.set(n); }
        { let n = f(2, it.2.id()); it.2.set(n); }
        { let n = f(10, it.3.id()); it.3.set(n); }
        { let n = f(13, it.4.id()); it.4.set(n); }
        { let n = f(6, it.5.id()); it.5.set(n); }
        { let n = f(5, it.6.id()); it.6.set(n); }
        { let n = f(1, it.7.id()); it.7.set(n); }
        { let n = f(0, it.8.id()); it.8.set(n); }
        { let n = f(15, it.9.id()); it.9.set(n); }
        { let n = f(7, it.10.id()); it.10.set(n); }
        { let n = f(12, it.11.id()); it.11.set(n); }
        { let n = f(3, it.12.id()); it.12.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[11] = s.0[i].id();
            r.v[8] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.v[10] = s.3[i].id();
            r.v[13] = s.4[i].id();
            r.v[6] = s.5[i].id();
            r.v[5] = s.6[i].id();
            r.v[1] = s.7[i].id();
            r.v[0] = s.8[i].id();
            r.v[15] = s.9[i].id();
            r.v[7] = s.10[i].id();
            r.v[12] = s.11[i].id();
            r.v[3] = s.12[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q84;
impl Def for Q84 {
    type G = (&'static W15, Entity, &'static W5, &'static W1, &'static W6, &'static mut W2, &'static mut W12, &'static W8,);
    type I = (&'static W13, &'static mut W10, &'static mut W7, &'static W3, &'static W11, &'static W0,);
    type E = ();
    const REQ: &'static [usize] = &[15, 5, 1, 6, 2, 12, 8];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[2, 12];
    const INC: &'static [usize] = &[13, 10, 7, 3, 11, 0];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 8;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[15] = it.0.id();
        r.e = key(it.1);
        r.v[5] = it.2.id();
        r.v[1] = it.3.id();
        r.v[6] = it.4.id();
        r.v[2] = it.5.id();
        r.v[12] = it.6.id();
        r.v[8] = it.7.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(2, it.5.id()); it.5.set(n); }
        { let n = f(12, it.6.id()); it.6.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[15] = s.0[i].id();
            r.e = key(s.1[i]);
            r.v[5] = s.2[i].id();
            r.v[1] = s.3[i].id();
            r.v[6] = s.4[i].id();
            r.v[2] = s.5[i].id();
            r.v[12] = s.6[i].id();
            r.v[8] = s.7[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q85;
impl Def for Q85 {
    type G = (&'static W13, &'static W7, &'static mut W6, &'static W15, &'static W12, &'static W11, &'static mut W10, &'static W5, Entity, &'static W1, &'static mut W2, Option<&'static W8>, Option<&'static W0>, Option<&'static W3>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[13, 7, 6, 15, 12, 11, 10, 5, 1, 2];
    const OPT: &'static [usize] = &[8, 0, 3];
    const MUT: &'static [usize] = &[6, 10, 2];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 14;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[13] = it.0.id();
        r.v[7] = it.1.id();
        r.v[6] = it.2.id();
        r.v[15] = it.3.id();
        r.v[12] = it.4.id();
        r.v[11] = it.5.id();
        r.v[10] = it.6.id();
        r.v[5] = it.7.id();
        r.e = key(it.8);
        r.v[1] = it.9.id();
        r.v[2] = it.10.id();
        r.v[8] = it.11.as_ref().map_or(NONE, |c| c.id());
        r.v[0] = it.12.as_ref().map_or(NONE, |c| c.id());
        r.v[3] = it.13.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.2.id()); it.2.set(n); }
        { let n = f(10, it.6.id()); it.6.set(n); }
        { let n = f(2, it.10.id()); it.10.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[13] = s.0[i].id();
            r.v[7] = s.1[i].id();
            r.v[6] = s.2[i].id();
            r.v[15] = s.3[i].id();
            r.v[12] = s.4[i].id();
            r.v[11] = s.5[i].id();
            r.v[10] = s.6[i].id();
            r.v[5] = s.7[i].id();
            r.e = key(s.8[i]);
            r.v[1] = s.9[i].id();
            r.v[2] = s.10[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q86;
impl Def for Q86 {
    type G = (&'static W0, &'static mut W1, &'static W2, &'static W3, &'static W4, &'static W5, &'static mut W6, &'static mut W7, &'static W8, &'static mut W9, Entity, &'static W10, &'static W11, &'static W12, &'static W13,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[1, 6, 7, 9];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 15;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.v[2] = it.2.id();
        r.v[3] = it.3.id();
        r.v[4] = it.4.id();
        r.v[5] = it.5.id();
        r.v[6] = it.6.id();
        r.v[7] = it.7.id();
        r.v[8] = it.8.id();
        r.v[9] = it.9.id();
        r.e = key(it.10);
        r.v[10] = it.11.id();
        r.v[11] = it.12.id();
        r.v[12] = it.13.id();
        r.v[13] = it.14.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(1, it.1.id()); it.1.set(n); }
        { let n = f(6, it.6.id()); it.6.set(n); }
        { let n = f(7, it.7.id()); it.7.set(n); }
        { let n = f(9, it.9.id()); it.9.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len(), s.13.len(), s.14.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.v[3] = s.3[i].id();
            r.v[4] = s.4[i].id();
            r.v[5] = s.5[i].id();
            r.v[6] = s.6[i].id();
            r.v[7] = s.7[i].id();
            r.v[8] = s.8[i].id();
            r.v[9] = s.9[i].id();
            r.e = key(s.10[i]);
            r.v[10] = s.11[i].id();
            r.v[11] = s.12[i].id();
            r.v[12] = s.13[i].id();
            r.v[13] = s.14[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q87;
impl Def for Q87 {
    type G = (&'static W4, &'static W3, &'static mut W6, &'static W11, &'static W2, &'static mut W12, &'static mut W5, &'static mut W7, &'static W10, &'static W8,);
    type I = (&'static W9, &'static mut W13, &'static mut W0, &'static mut W1,);
    type E = ();
    const REQ: &'static [usize] = &[4, 3, 6, 11, 2, 12, 5, 7, 10, 8];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[6, 12, 5, 7];
    const INC: &'static [usize] = &[9, 13, 0, 1];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 10;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[4] = it.0.id();
        r.v[3] = it.1.id();
        r.v[6] = it.2.id();
        r.v[11] = it.3.id();
        r.v[2] = it.4.id();
        r.v[12] = it.5.id();
        r.v[5] = it.6.id();
        r.v[7] = it.7.id();
        r.v[10] = it.8.id();
        r.v[8] = it.9.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.2.id()); it.2.set(n); }
        { let n = f(12, it.5.id()); it.5.set(n); }
        { let n = f(5, it.6.id()); it.6.set(n); }
        { let n = f(7, it.7.id()); it.7.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[4] = s.0[i].id();
            r.v[3] = s.1[i].id();
            r.v[6] = s.2[i].id();
            r.v[11] = s.3[i].id();
            r.v[2] = s.4[i].id();
            r.v[12] = s.5[i].id();
            r.v[5] = s.6[i].id();
            r.v[7] = s.7[i].id();
            r.v[10] = s.8[i].id();
            r.v[8] = s.9[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q88;
impl Def for Q88 {
    type G = (&'static W2, &'static W3, &'static mut W11, &'static W0, &'static W5, Option<&'static W13>, Option<&'static W9>, Option<&'static W12>, Option<&'static mut W4>, Option<&'static mut W10>, Option<&'static W6>, Option<&'static W8>, Option<&'static W1>, Option<&'static W7>, Entity,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[2, 3, 11, 0, 5];
    const OPT: &'static [usize] = &[13, 9, 12, 4, 10, 6, 8, 1, 7];
    const MUT: &'static [usize] = &[11, 4, 10];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 15;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[2] = it.0.id();
        r.v[3] = it.1.id();
        r.v[11] = it.2.id();
        r.v[0] = it.3.id();
        r.v[5] = it.4.id();
        r.v[13] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[9] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[12] = it.7.as_ref().map_or(NONE, |c| c.id());
        r.v[4] = it.8.as_ref().map_or(NONE, |c| c.id());
        r.v[10] = it.9.as_ref().map_or(NONE, |c| c.id());
        r.v[6] = it.10.as_ref().map_or(NONE, |c| c.id());
        r.v[8] = it.11.as_ref().map_or(NONE, |c| c.id());
        r.v[1] = it.12.as_ref().map_or(NONE, |c| c.id());
        r.v[7] = it.13.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.14);
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(11, it.2.id()); it.2.set(n); }
        if let Some(c) = it.8 { let n = f(4, c.id()); c.set(n); }
        if let Some(c) = it.9 { let n = f(10, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.14.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[2] = s.0[i].id();
            r.v[3] = s.1[i].id();
            r.v[11] = s.2[i].id();
            r.v[0] = s.3[i].id();
            r.v[5] = s.4[i].id();
            r.e = key(s.14[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q89;
impl Def for Q89 {
    type G = (&'static mut W0, &'static mut W6, &'static mut W4, &'static mut W15, &'static mut W2, &'static mut W7, &'static mut W10, &'static mut W13, &'static mut W12, &'static mut W5, &'static mut W11, &'static mut W8, &'static mut W1, &'static mut W3,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 6, 4, 15, 2, 7, 10, 13, 12, 5, 11, 8, 1, 3];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[0, 6, 4, 15, 2, 7, 10, 13, 12, 5, 11, 8, 1, 3];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 14;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[6] = it.1.id();
        r.v[4] = it.2.id();
        r.v[15] = it.3.id();
        r.v[2] = it.4.id();
        r.v[7] = it.5.id();
        r.v[10] = it.6.id();
        r.v[13] = it.7.id();
        r.v[12] = it.8.id();
        r.v[5] = it.9.id();
        r.v[11] = it.10.id();
        r.v[8] = it.11.id();
        r.v[1] = it.12.id();
        r.v[3] = it.13.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(0, it.0.id()); it.0.set(n); }
        { let n = f(6, it.1.id()); it.1.set(n); }
        { let n = f(4, it.2.id()); it.2.set(n); }
        { let n = f(15, it.3.id()); it.3.set(n); }
        { let n = f(2, it.4.id()); it.4.set(n); }
        { let n = f(7, it.5.id()); it.5.set(n); }
        { let n = f(10, it.6.id()); it.6.set(n); }
        { let n = f(13, it.7.id()); it.7.set(n); }
        { let n = f(12, it.8.id()); it.8.set(n); }
        { let n = f(5, it.9.id()); it.9.set(n); }
        { let n = f(11, it.10.id()); it.10.set(n); }
        { let n = f(8, it.11.id()); it.11.set(n); }
        { let n = f(1, it.12.id()); it.12.set(n); }
        { let n = f(3, it.13.id()); it.13.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len(), s.13.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[6] = s.1[i].id();
            r.v[4] = s.2[i].id();
            r.v[15] = s.3[i].id();
            r.v[2] = s.4[i].id();
            r.v[7] = s.5[i].id();
            r.v[10] = s.6[i].id();
            r.v[13] = s.7[i].id();
            r.v[12] = s.8[i].id();
            r.v[5] = s.9[i].id();
            r.v[11] = s.10[i].id();
            r.v[8] = s.11[i].id();
            r.v[1] = s.12[i].id();
            r.v[3] = s.13[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q90;
impl Def for Q90 {
    type G = (Entity, &'static W11, &'static mut W15, &'static W2, &'static W5, &'static mut W10, &'static W0, &'static W3, &'static W1, &'static mut W7, &'static W4, &'static W6,);
    type I = (&'static mut W13, &'static W12, &'static W8,);
    type E = (&'static W9,);
    const REQ: &'static [usize] = &[11, 15, 2, 5, 10, 0, 3, 1, 7, 4, 6];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[15, 10, 7];
    const INC: &'static [usize] = &[13, 12, 8];
    const EXC: &'static [usize] = &[9];
    const ENT: bool = true;
    const PARTS: usize = 12;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[11] = it.1.id();
        r.v[15] = it.2.id();
        r.v[2] = it.3.id();
        r.v[5] = it.4.id();
        r.v[10] = it.5.id();
        r.v[0] = it.6.id();
        r.v[3] = it.7.id();
        r.v[1] = it.8.id();
        r.v[7] = it.9.id();
        r.v[4] = it.10.id();
        r.v[6] = it.11.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(15, it.2.id()); it.2.set(n); }
        { let n = f(10, it.5.id()); it.5.set(n); }
        { let n = f(7, it.9.id()); it.9.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[11] = s.1[i].id();
            r.v[15] = s.2[i].id();
            r.v[2] = s.3[i].id();
            r.v[5] = s.4[i].id();
            r.v[10] = s.5[i].id();
            r.v[0] = s.6[i].id();
            r.v[3] = s.7[i].id();
            r.v[1] = s.8[i].id();
            r.v[7] = s.9[i].id();
            r.v[4] = s.10[i].id();
            r.v[6] = s.11[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q91;
impl Def for Q91 {
    type G = (&'static W7, &'static W11, &'static mut W12, &'static W8, &'static W4, &'static W0, &'static W3, &'static W6, Entity, Option<&'static mut W1>, Option<&'static W10>, Option<&'static W13>, Option<&'static W15>, Option<&'static W2>, Option<&'static W5>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[7, 11, 12, 8, 4, 0, 3, 6];
    const OPT: &'static [usize] = &[1, 10, 13, 15, 2, 5];
    const MUT: &'static [usize] = &[12, 1];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 15;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[7] = it.0.id();
        r.v[11] = it.1.id();
        r.v[12] = it.2.id();
        r.v[8] = it.3.id();
        r.v[4] = it.4.id();
        r.v[0] = it.5.id();
        r.v[3] = it.6.id();
        r.v[6] = it.7.id();
        r.e = key(it.8);
        r.v[1] = it.9.as_ref().map_or(NONE, |c| c.id());
        r.v[10] = it.10.as_ref().map_or(NONE, |c| c.id());
        r.v[13] = it.11.as_ref().map_or(NONE, |c| c.id());
        r.v[15] = it.12.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.13.as_ref().map_or(NONE, |c| c.id());
        r.v[5] = it.14.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(12, it.2.id()); it.2.set(n); }
        if let Some(c) = it.9 { let n = f(1, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[7] = s.0[i].id();
            r.v[11] = s.1[i].id();
            r.v[12] = s.2[i].id();
            r.v[8] = s.3[i].id();
            r.v[4] = s.4[i].id();
            r.v[0] = s.5[i].id();
            r.v[3] = s.6[i].id();
            r.v[6] = s.7[i].id();
            r.e = key(s.8[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q92;
impl Def for Q92 {
    type G = (&'static W0, &'static W1, Entity, &'static W2, &'static W3, &'static W4, &'static W5, &'static W6, &'static W7, &'static W8, &'static W9, &'static W10, &'static W11, &'static W12, &'static W13, &'static W14,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 16;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.e = key(it.2);
        r.v[2] = it.3.id();
        r.v[3] = it.4.id();
        r.v[4] = it.5.id();
        r.v[5] = it.6.id();
        r.v[6] = it.7.id();
        r.v[7] = it.8.id();
        r.v[8] = it.9.id();
        r.v[9] = it.10.id();
        r.v[10] = it.11.id();
        r.v[11] = it.12.id();
        r.v[12] = it.13.id();
        r.v[13] = it.14.id();
        r.v[14] = it.15.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len(), s.13.len(), s.14.len(), s.15.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.e = key(s.2[i]);
            r.v[2] = s.3[i].id();
            r.v[3] = s.4[i].id();
            r.v[4] = s.5[i].id();
            r.v[5] = s.6[i].id();
            r.v[6] = s.7[i].id();
            r.v[7] = s.8[i].id();
            r.v[8] = s.9[i].id();
            r.v[9] = s.10[i].id();
            r.v[10] = s.11[i].id();
            r.v[11] = s.12[i].id();
            r.v[12] = s.13[i].id();
            r.v[13] = s.14[i].id();
            r.v[14] = s.15[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q93;
impl Def for Q93 {
    type G = (&'static mut W11, &'static W1, &'static mut W12, &'static W4, &'static mut W0, &'static W6, &'static W10, &'static W3, &'static mut W8, &'static mut W5,);
    type I = (&'static W2, &'static mut W14, &'static W7, &'static W9, &'static W13,);
    type E = (&'static mut W15,);
    const REQ: &'static [usize] = &[11, 1, 12, 4, 0, 6, 10, 3, 8, 5];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[11, 12, 0, 8, 5];
    const INC: &'static [usize] = &[2, 14, 7, 9, 13];
    const EXC: &'static [usize] = &[15];
    const ENT: bool = false;
    const PARTS: usize = 10;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[11] = it.0.id();
        r.v[1] = it.1.id();
        r.v[12] = it.2.id();
        r.v[4] = it.3.id();
        r.v[0] = it.4.id();
        r.v[6] = it.5.id();
        r.v[10] = it.6.id();
        r.v[3] = it.7.id();
        r.v[8] = it.8.id();
        r.v[5] = it.9.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(11, it.0.id()); it.0.set(n); }
        { let n = f(12, it.2.id()); it.2.set(n); }
        { let n = f(0, it.4.id()); it.4.set(n); }
        { let n = f(8, it.8.id()); it.8.set(n); }
        { let n = f(5, it.9.id()); it.9.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[11] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[12] = s.2[i].id();
            r.v[4] = s.3[i].id();
            r.v[0] = s.4[i].id();
            r.v[6] = s.5[i].id();
            r.v[10] = s.6[i].id();
            r.v[3] = s.7[i].id();
            r.v[8] = s.8[i].id();
            r.v[5] = s.9[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q94;
impl Def for Q94 {
    type G = (&'static mut W11, &'static W1, &'static W4, Option<&'static W7>, Option<&'static mut W2>, Option<&'static mut W5>, Option<&'static W0>, Option<&'static mut W3>, Option<&'static W6>, Option<&'static W12>, Option<&'static W14>, Option<&'static mut W8>, Option<&'static W10>, Option<&'static mut W9>, Option<&'static W13>, Entity,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[11, 1, 4];
    const OPT: &'static [usize] = &[7, 2, 5, 0, 3, 6, 12, 14, 8, 10, 9, 13];
    const MUT: &'static [usize] = &[11, 2, 5, 3, 8, 9];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 16;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[11] = it.0.id();
        r.v[1] = it.1.id();
        r.v[4] = it.2.id();
        r.v[7] = it.3.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.4.as_ref().map_or(NONE, |c| c.id());
        r.v[5] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[0] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[3] = it.7.as_ref().map_or(NONE, |c| c.id());
        r.v[6] = it.8.as_ref().map_or(NONE, |c| c.id());
        r.v[12] = it.9.as_ref().map_or(NONE, |c| c.id());
        r.v[14] = it.10.as_ref().map_or(NONE, |c| c.id());
        r.v[8] = it.11.as_ref().map_or(NONE, |c| c.id());
        r.v[10] = it.12.as_ref().map_or(NONE, |c| c.id());
        r.v[9] = it.13.as_ref().map_or(NONE, |c| c.id());
        r.v[13] = it.14.as_ref().map_or(NONE, |c| c.id());
        r.e = key(it.15);
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(11, it.0.id()); it.0.set(n); }
        if let Some(c) = it.4 { let n = f(2, c.id()); c.set(n); }
        if let Some(c) = it.5 { let n = f(5, c.id()); c.set(n); }
        if let Some(c) = it.7 { let n = f(3, c.id()); c.set(n); }
        if let Some(c) = it.11 { let n = f(8, c.id()); c.set(n); }
        if let Some(c) = it.13 { let n = f(9, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.15.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[11] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[4] = s.2[i].id();
            r.e = key(s.15[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q95;
impl Def for Q95 {
    type G = (&'static mut W6, &'static mut W7, &'static mut W3, &'static mut W13, &'static mut W5, &'static mut W9, &'static mut W10, &'static mut W11, &'static mut W12, &'static mut W15, &'static mut W0, &'static mut W8, &'static mut W4, &'static mut W2, &'static mut W1,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[6, 7, 3, 13, 5, 9, 10, 11, 12, 15, 0, 8, 4, 2, 1];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[6, 7, 3, 13, 5, 9, 10, 11, 12, 15, 0, 8, 4, 2, 1];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 15;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.v[7] = it.1.id();
        r.v[3] = it.2.id();
        r.v[13] = it.3.id();
        r.v[5] = it.4.id();
        r.v[9] = it.5.id();
        r.v[10] = it.6.id();
        r.v[11] = it.7.id();
        r.v[12] = it.8.id();
        r.v[15] = it.9.id();
        r.v[0] = it.10.id();
        r.v[8] = it.11.id();
        r.v[4] = it.12.id();
        r.v[2] = it.13.id();
        r.v[1] = it.14.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.0.id()); it.0.set(n); }
        { let n = f(7, it.1.id()); it.1.set(n); }
        { let n = f(3, it.2.id()); it.2.set(n); }
        { let n = f(13, it.3.id()); it.3.set(n); }
        { let n = f(5, it.4.id()); it.4.set(n); }
        { let n = f(9, it.5.id()); it.5.set(n); }
        { let n = f(10, it.6.id()); it.6.set(n); }
        { let n = f(11, it.7.id()); it.7.set(n); }
        { let n = f(12, it.8.id()); it.8.set(n); }
        { let n = f(15, it.9.id()); it.9.set(n); }
        { let n = f(0, it.10.id()); it.10.set(n); }
        { let n = f(8, it.11.id()); it.11.set(n); }
        { let n = f(4, it.12.id()); it.12.set(n); }
        { let n = f(2, it.13.id()); it.13.set(n); }
        { let n = f(1, it.14.id()); it.14.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len(), s.13.len(), s.14.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.v[7] = s.1[i].id();
            r.v[3] = s.2[i].id();
            r.v[13] = s.3[i].id();
            r.v[5] = s.4[i].id();
            r.v[9] = s.5[i].id();
            r.v[10] = s.6[i].id();
            r.v[11] = s.7[i].id();
            r.v[12] = s.8[i].id();
            r.v[15] = s.9[i].id();
            r.v[0] = s.10[i].id();
            r.v[8] = s.11[i].id();
            r.v[4] = s.12[i].id();
            r.v[2] = s.13[i].id();
            r.v[1] = s.14[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q96;
impl Def for Q96 {
    type G = (&'static mut W6, Entity,);
    type I = (&'static W8, &'static W15, &'static W9, &'static W3, &'static W4, &'static W1, &'static W7, &'static mut W13, &'static W5, &'static W2, &'static W11, &'static W0, &'static W12, &'static mut W10,);
    type E = ();
    const REQ: &'static [usize] = &[6];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[6];
    const INC: &'static [usize] = &[8, 15, 9, 3, 4, 1, 7, 13, 5, 2, 11, 0, 12, 10];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 2;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.e = key(it.1);
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.0.id()); it.0.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.e = key(s.1[i]);
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q97;
impl Def for Q97 {
    type G = (&'static W5, &'static W1, &'static mut W13, &'static W12, &'static mut W8, &'static W10, Entity, &'static mut W0, &'static mut W11, &'static W3, &'static W9, &'static mut W7, &'static W15, &'static W6, Option<&'static mut W4>, Option<&'static W2>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[5, 1, 13, 12, 8, 10, 0, 11, 3, 9, 7, 15, 6];
    const OPT: &'static [usize] = &[4, 2];
    const MUT: &'static [usize] = &[13, 8, 0, 11, 7, 4];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 16;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[5] = it.0.id();
        r.v[1] = it.1.id();
        r.v[13] = it.2.id();
        r.v[12] = it.3.id();
        r.v[8] = it.4.id();
        r.v[10] = it.5.id();
        r.e = key(it.6);
        r.v[0] = it.7.id();
        r.v[11] = it.8.id();
        r.v[3] = it.9.id();
        r.v[9] = it.10.id();
        r.v[7] = it.11.id();
        r.v[15] = it.12.id();
        r.v[6] = it.13.id();
        r.v[4] = it.14.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.15.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(13, it.2.id()); it.2.set(n); }
        { let n = f(8, it.4.id()); it.4.set(n); }
        { let n = f(0, it.7.id()); it.7.set(n); }
        { let n = f(11, it.8.id()); it.8.set(n); }
        { let n = f(7, it.11.id()); it.11.set(n); }
        if let Some(c) = it.14 { let n = f(4, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len(), s.13.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[5] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[13] = s.2[i].id();
            r.v[12] = s.3[i].id();
            r.v[8] = s.4[i].id();
            r.v[10] = s.5[i].id();
            r.e = key(s.6[i]);
            r.v[0] = s.7[i].id();
            r.v[11] = s.8[i].id();
            r.v[3] = s.9[i].id();
            r.v[9] = s.10[i].id();
            r.v[7] = s.11[i].id();
            r.v[15] = s.12[i].id();
            r.v[6] = s.13[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q98;
impl Def for Q98 {
    type G = (&'static W0, &'static W1, &'static W2, &'static W3, &'static W4, &'static W5, &'static mut W6, &'static W7, &'static W8, &'static W9, &'static W10, &'static W11, &'static W12, &'static mut W13, &'static W14, &'static W15,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[6, 13];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 16;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[0] = it.0.id();
        r.v[1] = it.1.id();
        r.v[2] = it.2.id();
        r.v[3] = it.3.id();
        r.v[4] = it.4.id();
        r.v[5] = it.5.id();
        r.v[6] = it.6.id();
        r.v[7] = it.7.id();
        r.v[8] = it.8.id();
        r.v[9] = it.9.id();
        r.v[10] = it.10.id();
        r.v[11] = it.11.id();
        r.v[12] = it.12.id();
        r.v[13] = it.13.id();
        r.v[14] = it.14.id();
        r.v[15] = it.15.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.6.id()); it.6.set(n); }
        { let n = f(13, it.13.id()); it.13.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len(), s.13.len(), s.14.len(), s.15.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[0] = s.0[i].id();
            r.v[1] = s.1[i].id();
            r.v[2] = s.2[i].id();
            r.v[3] = s.3[i].id();
            r.v[4] = s.4[i].id();
            r.v[5] = s.5[i].id();
            r.v[6] = s.6[i].id();
            r.v[7] = s.7[i].id();
            r.v[8] = s.8[i].id();
            r.v[9] = s.9[i].id();
            r.v[10] = s.10[i].id();
            r.v[11] = s.11[i].id();
            r.v[12] = s.12[i].id();
            r.v[13] = s.13[i].id();
            r.v[14] = s.14[i].id();
            r.v[15] = s.15[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q99;
impl Def for Q99 {
    type G = (&'static mut W11, &'static W5, &'static W4, &'static W0, &'static W1, &'static W14, &'static W13, &'static mut W9, &'static mut W7, &'static W3, &'static W10, &'static mut W15, &'static W2, &'static mut W8,);
    type I = (&'static W12, &'static W6,);
    type E = ();
    const REQ: &'static [usize] = &[11, 5, 4, 0, 1, 14, 13, 9, 7, 3, 10, 15, 2, 8];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[11, 9, 7, 15, 8];
    const INC: &'static [usize] = &[12, 6];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 14;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[11] = it.0.id();
        r.v[5] = it.1.id();
        r.v[4] = it.2.id();
        r.v[0] = it.3.id();
        r.v[1] = it.4.id();
        r.v[14] = it.5.id();
        r.v[13] = it.6.id();
        r.v[9] = it.7.id();
        r.v[7] = it.8.id();
        r.v[3] = it.9.id();
        r.v[10] = it.10.id();
        r.v[15] = it.11.id();
        r.v[2] = it.12.id();
        r.v[8] = it.13.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(11, it.0.id()); it.0.set(n); }
        { let n = f(9, it.7.id()); it.7.set(n); }
        { let n = f(7, it.8.id()); it.8.set(n); }
        { let n = f(15, it.11.id()); it.11.set(n); }
        { let n = f(8, it.13.id()); it.13.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len(), s.13.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[11] = s.0[i].id();
            r.v[5] = s.1[i].id();
            r.v[4] = s.2[i].id();
            r.v[0] = s.3[i].id();
            r.v[1] = s.4[i].id();
            r.v[14] = s.5[i].id();
            r.v[13] = s.6[i].id();
            r.v[9] = s.7[i].id();
            r.v[7] = s.8[i].id();
            r.v[3] = s.9[i].id();
            r.v[10] = s.10[i].id();
            r.v[15] = s.11[i].id();
            r.v[2] = s.12[i].id();
            r.v[8] = s.13[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q100;
impl Def for Q100 {
    type G = (&'static W10, &'static W4, &'static mut W3, &'static mut W12, &'static W7, &'static W6, &'static mut W14, &'static mut W1, &'static W0, &'static W11, &'static W2, &'static W15, &'static mut W5, &'static W13, &'static mut W8, Option<&'static W9>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[10, 4, 3, 12, 7, 6, 14, 1, 0, 11, 2, 15, 5, 13, 8];
    const OPT: &'static [usize] = &[9];
    const MUT: &'static [usize] = &[3, 12, 14, 1, 5, 8];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 16;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[10] = it.0.id();
        r.v[4] = it.1.id();
        r.v[3] = it.2.id();
        r.v[12] = it.3.id();
        r.v[7] = it.4.id();
        r.v[6] = it.5.id();
        r.v[14] = it.6.id();
        r.v[1] = it.7.id();
        r.v[0] = it.8.id();
        r.v[11] = it.9.id();
        r.v[2] = it.10.id();
        r.v[15] = it.11.id();
        r.v[5] = it.12.id();
        r.v[13] = it.13.id();
        r.v[8] = it.14.id();
        r.v[9] = it.15.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(3, it.2.id()); it.2.set(n); }
        { let n = f(12, it.3.id()); it.3.set(n); }
        { let n = f(14, it.6.id()); it.6.set(n); }
        { let n = f(1, it.7.id()); it.7.set(n); }
        { let n = f(5, it.12.id()); it.12.set(n); }
        { let n = f(8, it.14.id()); it.14.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len(), s.13.len(), s.14.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[10] = s.0[i].id();
            r.v[4] = s.1[i].id();
            r.v[3] = s.2[i].id();
            r.v[12] = s.3[i].id();
            r.v[7] = s.4[i].id();
            r.v[6] = s.5[i].id();
            r.v[14] = s.6[i].id();
            r.v[1] = s.7[i].id();
            r.v[0] = s.8[i].id();
            r.v[11] = s.9[i].id();
            r.v[2] = s.10[i].id();
            r.v[15] = s.11[i].id();
            r.v[5] = s.12[i].id();
            r.v[13] = s.13[i].id();
            r.v[8] = s.14[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q101;
impl Def for Q101 {
    type G = (&'static mut W11, &'static mut W15, &'static mut W7, &'static mut W8, &'static mut W3, &'static mut W12, &'static mut W5, &'static mut W2, &'static mut W0, &'static mut W6, &'static mut W10, &'static mut W14, &'static mut W9, &'static mut W13, &'static mut W1, &'static mut W4,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[11, 15, 7, 8, 3, 12, 5, 2, 0, 6, 10, 14, 9, 13, 1, 4];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[11, 15, 7, 8, 3, 12, 5, 2, 0, 6, 10, 14, 9, 13, 1, 4];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 16;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[11] = it.0.id();
        r.v[15] = it.1.id();
        r.v[7] = it.2.id();
        r.v[8] = it.3.id();
        r.v[3] = it.4.id();
        r.v[12] = it.5.id();
        r.v[5] = it.6.id();
        r.v[2] = it.7.id();
        r.v[0] = it.8.id();
        r.v[6] = it.9.id();
        r.v[10] = it.10.id();
        r.v[14] = it.11.id();
        r.v[9] = it.12.id();
        r.v[13] = it.13.id();
        r.v[1] = it.14.id();
        r.v[4] = it.15.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(11, it.0.id()); it.0.set(n); }
        { let n = f(15, it.1.id()); it.1.set(n); }
        { let n = f(7, it.2.id()); it.2.set(n); }
        { let n = f(8, it.3.id()); it.3.set(n); }
        { let n = f(3, it.4.id()); it.4.set(n); }
        { let n = f(12, it.5.id()); it.5.set(n); }
        { let n = f(5, it.6.id()); it.6.set(n); }
        { let n = f(2, it.7.id()); it.7.set(n); }
        { let n = f(0, it.8.id()); it.8.set(n); }
        { let n = f(6, it.9.id()); it.9.set(n); }
        { let n = f(10, it.10.id()); it.10.set(n); }
        { let n = f(14, it.11.id()); it.11.set(n); }
        { let n = f(9, it.12.id()); it.12.set(n); }
        { let n = f(13, it.13.id()); it.13.set(n); }
        { let n = f(1, it.14.id()); it.14.set(n); }
        { let n = f(4, it.15.id()); it.15.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len(), s.13.len(), s.14.len(), s.15.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[11] = s.0[i].id();
            r.v[15] = s.1[i].id();
            r.v[7] = s.2[i].id();
            r.v[8] = s.3[i].id();
            r.v[3] = s.4[i].id();
            r.v[12] = s.5[i].id();
            r.v[5] = s.6[i].id();
            r.v[2] = s.7[i].id();
            r.v[0] = s.8[i].id();
            r.v[6] = s.9[i].id();
            r.v[10] = s.10[i].id();
            r.v[14] = s.11[i].id();
            r.v[9] = s.12[i].id();
            r.v[13] = s.13[i].id();
            r.v[1] = s.14[i].id();
            r.v[4] = s.15[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q102;
impl Def for Q102 {
    type G = (&'static mut W6, Entity, &'static mut W14, &'static W1, &'static mut W12, &'static W8, &'static W0, &'static W9, &'static W15, &'static mut W7, &'static W10, &'static W2, &'static mut W5,);
    type I = (&'static W3, &'static W11, &'static W13, &'static W4,);
    type E = ();
    const REQ: &'static [usize] = &[6, 14, 1, 12, 8, 0, 9, 15, 7, 10, 2, 5];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[6, 14, 12, 7, 5];
    const INC: &'static [usize] = &[3, 11, 13, 4];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 13;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[6] = it.0.id();
        r.e = key(it.1);
        r.v[14] = it.2.id();
        r.v[1] = it.3.id();
        r.v[12] = it.4.id();
        r.v[8] = it.5.id();
        r.v[0] = it.6.id();
        r.v[9] = it.7.id();
        r.v[15] = it.8.id();
        r.v[7] = it.9.id();
        r.v[10] = it.10.id();
        r.v[2] = it.11.id();
        r.v[5] = it.12.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(6, it.0.id()); it.0.set(n); }
        { let n = f(14, it.2.id()); it.2.set(n); }
        { let n = f(12, it.4.id()); it.4.set(n); }
        { let n = f(7, it.9.id()); it.9.set(n); }
        { let n = f(5, it.12.id()); it.12.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len(), s.6.len(), s.7.len(), s.8.len(), s.9.len(), s.10.len(), s.11.len(), s.12.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[6] = s.0[i].id();
            r.e = key(s.1[i]);
            r.v[14] = s.2[i].id();
            r.v[1] = s.3[i].id();
            r.v[12] = s.4[i].id();
            r.v[8] = s.5[i].id();
            r.v[0] = s.6[i].id();
            r.v[9] = s.7[i].id();
            r.v[15] = s.8[i].id();
            r.v[7] = s.9[i].id();
            r.v[10] = s.10[i].id();
            r.v[2] = s.11[i].id();
            r.v[5] = s.12[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q103;
impl Def for Q103 {
    type G = (&'static W1, &'static mut W13, &'static mut W15, &'static W0, &'static W3, &'static mut W6, Option<&'static W14>, Option<&'static W4>, Option<&'static W2>, Option<&'static W11>, Option<&'static W8>, Option<&'static mut W9>, Option<&'static W7>, Option<&'static W5>, Option<&'static W12>, Option<&'static mut W10>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[1, 13, 15, 0, 3, 6];
    const OPT: &'static [usize] = &[14, 4, 2, 11, 8, 9, 7, 5, 12, 10];
    const MUT: &'static [usize] = &[13, 15, 6, 9, 10];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 16;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[1] = it.0.id();
        r.v[13] = it.1.id();
        r.v[15] = it.2.id();
        r.v[0] = it.3.id();
        r.v[3] = it.4.id();
        r.v[6] = it.5.id();
        r.v[14] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[4] = it.7.as_ref().map_or(NONE, |c| c.id());
        r.v[2] = it.8.as_ref().map_or(NONE, |c| c.id());
        r.v[11] = it.9.as_ref().map_or(NONE, |c| c.id());
        r.v[8] = it.10.as_ref().map_or(NONE, |c| c.id());
        r.v[9] = it.11.as_ref().map_or(NONE, |c| c.id());
        r.v[7] = it.12.as_ref().map_or(NONE, |c| c.id());
        r.v[5] = it.13.as_ref().map_or(NONE, |c| c.id());
        r.v[12] = it.14.as_ref().map_or(NONE, |c| c.id());
        r.v[10] = it.15.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(13, it.1.id()); it.1.set(n); }
        { let n = f(15, it.2.id()); it.2.set(n); }
        { let n = f(6, it.5.id()); it.5.set(n); }
        if let Some(c) = it.11 { let n = f(9, c.id()); c.set(n); }
        if let Some(c) = it.15 { let n = f(10, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len(), s.2.len(), s.3.len(), s.4.len(), s.5.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[1] = s.0[i].id();
            r.v[13] = s.1[i].id();
            r.v[15] = s.2[i].id();
            r.v[0] = s.3[i].id();
            r.v[3] = s.4[i].id();
            r.v[6] = s.5[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q104;
impl Def for Q104 {
    type G = (&'static W9,);
    type I = (&'static W0, &'static W1, &'static mut W2, &'static W3, &'static W4, &'static mut W5, &'static W6, &'static mut W7, &'static W8, &'static W10, &'static mut W11, &'static W12, &'static W13, &'static W14, &'static W15,);
    type E = ();
    const REQ: &'static [usize] = &[9];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[];
    const INC: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15];
    const EXC: &'static [usize] = &[];
    const ENT: bool = false;
    const PARTS: usize = 1;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.v[9] = it.0.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.v[9] = s.0[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q105;
impl Def for Q105 {
    type G = (Entity, &'static mut W4,);
    type I = ();
    type E = (&'static W3, &'static mut W8, &'static W13, &'static mut W2, &'static W7, &'static W12, &'static mut W1, &'static W6, &'static W11, &'static W0, &'static W5, &'static W10, &'static W15, &'static mut W9, &'static W14,);
    const REQ: &'static [usize] = &[4];
    const OPT: &'static [usize] = &[];
    const MUT: &'static [usize] = &[4];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[3, 8, 13, 2, 7, 12, 1, 6, 11, 0, 5, 10, 15, 9, 14];
    const ENT: bool = true;
    const PARTS: usize = 2;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[4] = it.1.id();
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        { let n = f(4, it.1.id()); it.1.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[4] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub struct Q106;
impl Def for Q106 {
    type G = (Entity, &'static W2, Option<&'static W3>, Option<&'static mut W8>, Option<&'static W13>, Option<&'static W7>, Option<&'static mut W12>, Option<&'static W1>, Option<&'static mut W6>, Option<&'static W11>, Option<&'static mut W0>, Option<&'static W5>, Option<&'static mut W10>, Option<&'static W15>, Option<&'static mut W4>, Option<&'static W9>,);
    type I = ();
    type E = ();
    const REQ: &'static [usize] = &[2];
    const OPT: &'static [usize] = &[3, 8, 13, 7, 12, 1, 6, 11, 0, 5, 10, 15, 4, 9];
    const MUT: &'static [usize] = &[8, 12, 6, 0, 10, 4];
    const INC: &'static [usize] = &[];
    const EXC: &'static [usize] = &[];
    const ENT: bool = true;
    const PARTS: usize = 16;
    fn row(it: <Self::G as Query>::Item<'_>) -> Row {
        let mut r = Row::default();
        r.e = key(it.0);
        r.v[2] = it.1.id();
        r.v[3] = it.2.as_ref().map_or(NONE, |c| c.id());
        r.v[8] = it.3.as_ref().map_or(NONE, |c| c.id());
        r.v[13] = it.4.as_ref().map_or(NONE, |c| c.id());
        r.v[7] = it.5.as_ref().map_or(NONE, |c| c.id());
        r.v[12] = it.6.as_ref().map_or(NONE, |c| c.id());
        r.v[1] = it.7.as_ref().map_or(NONE, |c| c.id());
        r.v[6] = it.8.as_ref().map_or(NONE, |c| c.id());
        r.v[11] = it.9.as_ref().map_or(NONE, |c| c.id());
        r.v[0] = it.10.as_ref().map_or(NONE, |c| c.id());
        r.v[5] = it.11.as_ref().map_or(NONE, |c| c.id());
        r.v[10] = it.12.as_ref().map_or(NONE, |c| c.id());
        r.v[15] = it.13.as_ref().map_or(NONE, |c| c.id());
        r.v[4] = it.14.as_ref().map_or(NONE, |c| c.id());
        r.v[9] = it.15.as_ref().map_or(NONE, |c| c.id());
        r
    }
    fn rewrite(it: <Self::G as Query>::Item<'_>, f: &mut dyn FnMut(usize, u32) -> u32) {
        let _ = (&it, &f);
        if let Some(c) = it.3 { let n = f(8, c.id()); c.set(n); }
        if let Some(c) = it.6 { let n = f(12, c.id()); c.set(n); }
        if let Some(c) = it.8 { let n = f(6, c.id()); c.set(n); }
        if let Some(c) = it.10 { let n = f(0, c.id()); c.set(n); }
        if let Some(c) = it.12 { let n = f(10, c.id()); c.set(n); }
        if let Some(c) = it.14 { let n = f(4, c.id()); c.set(n); }
    }
    fn slices(s: <Self::G as Query>::Slice<'_>) -> Result<Vec<Row>, String> {
        let lens: &[usize] = &[s.0.len(), s.1.len()];
        let n = same_len(lens)?;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let mut r = Row::default();
            let _ = i;
            r.e = key(s.0[i]);
            r.v[2] = s.1[i].id();
            v.push(r);
        }
        Ok(v)
    }
}
pub fn sets() -> Vec<SetOps> {
    vec![
        set_ops::<S0>(),
        set_ops::<S1>(),
        set_ops::<S2>(),
        set_ops::<S3>(),
        set_ops::<S4>(),
        set_ops::<S5>(),
        set_ops::<S6>(),
        set_ops::<S7>(),
        set_ops::<S8>(),
        set_ops::<S9>(),
        set_ops::<S10>(),
        set_ops::<S11>(),
        set_ops::<S12>(),
        set_ops::<S13>(),
        set_ops::<S14>(),
        set_ops::<S15>(),
        set_ops::<S16>(),
        set_ops::<S17>(),
        set_ops::<S18>(),
        set_ops::<S19>(),
        set_ops::<S20>(),
        set_ops::<S21>(),
        set_ops::<S22>(),
        set_ops::<S23>(),
        set_ops::<S24>(),
        set_ops::<S25>(),
        set_ops::<S26>(),
        set_ops::<S27>(),
        set_ops::<S28>(),
        set_ops::<S29>(),
        set_ops::<S30>(),
        set_ops::<S31>(),
        set_ops::<S32>(),
        set_ops::<S33>(),
        set_ops::<S34>(),
        set_ops::<S35>(),
        set_ops::<S36>(),
        set_ops::<S37>(),
        set_ops::<S38>(),
        set_ops::<S39>(),
        set_ops::<S40>(),
        set_ops::<S41>(),
        set_ops::<S42>(),
        set_ops::<S43>(),
        set_ops::<S44>(),
        set_ops::<S45>(),
        set_ops::<S46>(),
        set_ops::<S47>(),
        set_ops::<S48>(),
        set_ops::<S49>(),
        set_ops::<S50>(),
        set_ops::<S51>(),
        set_ops::<S52>(),
        set_ops::<S53>(),
        set_ops::<S54>(),
        set_ops::<S55>(),
        set_ops::<S56>(),
        set_ops::<S57>(),
    ]
}
pub fn shapes() -> Vec<ShapeOps> {
    vec![
        shape_ops::<Q0>(),
        shape_ops::<Q1>(),
        shape_ops::<Q2>(),
        shape_ops::<Q3>(),
        shape_ops::<Q4>(),
        shape_ops::<Q5>(),
        shape_ops::<Q6>(),
        shape_ops::<Q7>(),
        shape_ops::<Q8>(),
        shape_ops::<Q9>(),
        shape_ops::<Q10>(),
        shape_ops::<Q11>(),
        shape_ops::<Q12>(),
        shape_ops::<Q13>(),
        shape_ops::<Q14>(),
        shape_ops::<Q15>(),
        shape_ops::<Q16>(),
        shape_ops::<Q17>(),
        shape_ops::<Q18>(),
        shape_ops::<Q19>(),
        shape_ops::<Q20>(),
        shape_ops::<Q21>(),
        shape_ops::<Q22>(),
        shape_ops::<Q23>(),
        shape_ops::<Q24>(),
        shape_ops::<Q25>(),
        shape_ops::<Q26>(),
        shape_ops::<Q27>(),
        shape_ops::<Q28>(),
        shape_ops::<Q29>(),
        shape_ops::<Q30>(),
        shape_ops::<Q31>(),
        shape_ops::<Q32>(),
        shape_ops::<Q33>(),
        shape_ops::<Q34>(),
        shape_ops::<Q35>(),
        shape_ops::<Q36>(),
        shape_ops::<Q37>(),
        shape_ops::<Q38>(),
        shape_ops::<Q39>(),
        shape_ops::<Q40>(),
        shape_ops::<Q41>(),
        shape_ops::<Q42>(),
        shape_ops::<Q43>(),
        shape_ops::<Q44>(),
        shape_ops::<Q45>(),
        shape_ops::<Q46>(),
        shape_ops::<Q47>(),
        shape_ops::<Q48>(),
        shape_ops::<Q49>(),
        shape_ops::<Q50>(),
        shape_ops::<Q51>(),
        shape_ops::<Q52>(),
        shape_ops::<Q53>(),
        shape_ops::<Q54>(),
        shape_ops::<Q55>(),
        shape_ops::<Q56>(),
        shape_ops::<Q57>(),
        shape_ops::<Q58>(),
        shape_ops::<Q59>(),
        shape_ops::<Q60>(),
        shape_ops::<Q61>(),
        shape_ops::<Q62>(),
        shape_ops::<Q63>(),
        shape_ops::<Q64>(),
        shape_ops::<Q65>(),
        shape_ops::<Q66>(),
        shape_ops::<Q67>(),
        shape_ops::<Q68>(),
        shape_ops::<Q69>(),
        shape_ops::<Q70>(),
        shape_ops::<Q71>(),
        shape_ops::<Q72>(),
        shape_ops::<Q73>(),
        shape_ops::<Q74>(),
        shape_ops::<Q75>(),
        shape_ops::<Q76>(),
        shape_ops::<Q77>(),
        shape_ops::<Q78>(),
        shape_ops::<Q79>(),
        shape_ops::<Q80>(),
        shape_ops::<Q81>(),
        shape_ops::<Q82>(),
        shape_ops::<Q83>(),
        shape_ops::<Q84>(),
        shape_ops::<Q85>(),
        shape_ops::<Q86>(),
        shape_ops::<Q87>(),
        shape_ops::<Q88>(),
        shape_ops::<Q89>(),
        shape_ops::<Q90>(),
        shape_ops::<Q91>(),
        shape_ops::<Q92>(),
        shape_ops::<Q93>(),
        shape_ops::<Q94>(),
        shape_ops::<Q95>(),
        shape_ops::<Q96>(),
        shape_ops::<Q97>(),
        shape_ops::<Q98>(),
        shape_ops::<Q99>(),
        shape_ops::<Q100>(),
        shape_ops::<Q101>(),
        shape_ops::<Q102>(),
        shape_ops::<Q103>(),
        shape_ops::<Q104>(),
        shape_ops::<Q105>(),
        shape_ops::<Q106>(),
    ]
}
