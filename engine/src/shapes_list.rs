// Generated by tools/gen_shapes.py.
use crate::shapes::*;
use crate::types::*;
use sparsey::Entity;

pub const CHAINS: &[&[&[usize]]] = &[
    &[&[0, 1], &[0, 1, 2], &[0, 1, 2, 3, 4]],
    &[&[3, 5], &[3, 5, 6, 7]],
    &[&[1, 7, 2], &[1, 7, 2, 4]],
    &[&[6, 2], &[6, 2, 0], &[6, 2, 0, 5]],
    &[&[4, 1], &[4, 1, 3], &[4, 1, 3, 0], &[4, 1, 3, 0, 7, 5]],
];

shapes! {
    &T0 | () | ();
    &T1 | () | ();
    &T2 | () | ();
    &T3 | () | ();
    &T4 | () | ();
    &T5 | () | ();
    &T6 | () | ();
    &T7 | () | ();
    &mut T0 | () | ();
    &mut T1 | () | ();
    &mut T2 | () | ();
    &mut T3 | () | ();
    &mut T4 | () | ();
    &mut T5 | () | ();
    &mut T6 | () | ();
    &mut T7 | () | ();
    (&T1,) | () | ();
    (&mut T3,) | () | ();
    (Entity, &T0,) | () | ();
    (Entity, &T2,) | () | ();
    (Entity, &T4,) | () | ();
    (Entity, &T5,) | () | ();
    (&mut T6, Entity,) | () | ();
    Entity | &T1 | ();
    (Entity,) | &T3 | ();
    () | &T0 | ();
    Entity | (&T0, &T1,) | ();
    () | (&mut T3, &T5,) | ();
    (Entity, &T0, &T1,) | () | ();
    (&mut T0, &mut T1,) | () | ();
    (Entity, &T1,) | (&T0,) | ();
    (Entity, &T1, &T0,) | () | (&T2,);
    (&mut T0, &mut T1, Entity,) | () | (&mut T2,);
    (&mut T0, Entity,) | (&T1,) | (&T2,);
    (Entity, &T2, &T1, &T0,) | () | ();
    (&T0, &mut T1, &mut T2,) | () | ();
    (Entity, &T1,) | (&T2, &T0,) | ();
    (Entity, &T1, &T2, &T0,) | () | (&T3, &T4,);
    (&mut T2, &mut T1, &mut T0, Entity,) | () | (&mut T3, &T4,);
    (&mut T2, Entity,) | (&T1, &T0,) | (&T3, &T4,);
    (Entity, &T2, &T1, &T0,) | () | &T3;
    (&T0, Entity,) | () | &T1;
    (Entity, &T2, &T4, &T1, &T0, &T3,) | () | ();
    (&T4, &mut T0, &T1, &T3, &mut T2,) | () | ();
    (Entity, &T0, &T2,) | (&T4, &T1, &T3,) | ();
    (Entity, &T2, &T0,) | () | ();
    (&T2, Entity,) | () | &T0;
    (Entity, &T5, &T3,) | () | ();
    (&T3, &T5,) | () | ();
    (Entity, &T3,) | (&T5,) | ();
    (Entity, &T3, &T5,) | () | (&T6, &T7,);
    (&mut T3, &mut T5, Entity,) | () | (&T6, &T7,);
    (&T3, Entity,) | (&T5,) | (&T6, &T7,);
    (Entity, &T3, &T5,) | () | &T6;
    (Entity, &T7, &T3, &T5, &T6,) | () | ();
    (&mut T5, &mut T6, &mut T3, &mut T7,) | () | ();
    (Entity, &T3, &T7,) | (&T6, &T5,) | ();
    (Entity, &T7, &T6,) | () | ();
    (&T7, Entity,) | () | &T6;
    (Entity, &T2, &T1, &T7,) | () | ();
    (&mut T2, &mut T7, &mut T1,) | () | ();
    (Entity, &T1,) | (&T7, &T2,) | ();
    (Entity, &T2, &T7, &T1,) | () | (&T4,);
    (&mut T7, &mut T2, &mut T1, Entity,) | () | (&T4,);
    (&T7, Entity,) | (&T2, &T1,) | (&T4,);
    (Entity, &T7, &T2,) | () | ();
    (&T7, Entity,) | () | &T2;
    (Entity, &T1, &T7, &T2, &T4,) | () | ();
    (&mut T1, &mut T7, &T2, &mut T4,) | () | ();
    (Entity, &T2, &T4,) | (&T7, &T1,) | ();
    (Entity, &T7, &T1,) | () | ();
    (&T7, Entity,) | () | &T1;
    (Entity, &T6, &T2,) | () | ();
    (&T2, &mut T6,) | () | ();
    (Entity, &T2,) | (&T6,) | ();
    (Entity, &T2, &T6,) | () | (&T0,);
    (&mut T6, &mut T2, Entity,) | () | (&T0,);
    (&mut T6, Entity,) | (&T2,) | (&T0,);
    (Entity, &T0, &T6, &T2,) | () | ();
    (&mut T2, &mut T0, &T6,) | () | ();
    (Entity, &T0,) | (&T6, &T2,) | ();
    (Entity, &T6, &T2, &T0,) | () | (&T5,);
    (&mut T0, &mut T2, &mut T6, Entity,) | () | (&mut T5,);
    (&mut T0, Entity,) | (&T2, &T6,) | (&T5,);
    (Entity, &T5, &T0, &T2, &T6,) | () | ();
    (&T0, &mut T5, &mut T6, &mut T2,) | () | ();
    (Entity, &T6, &T5,) | (&T0, &T2,) | ();
    (Entity, &T0, &T5,) | () | ();
    (&T0, Entity,) | () | &T5;
    (Entity, &T1, &T4,) | () | ();
    (&mut T1, &mut T4,) | () | ();
    (Entity, &T4,) | (&T1,) | ();
    (Entity, &T4, &T1,) | () | (&T3,);
    (&mut T4, &mut T1, Entity,) | () | (&T3,);
    (&mut T4, Entity,) | (&T1,) | (&T3,);
    (Entity, &T4, &T3, &T1,) | () | ();
    (&mut T4, &mut T1, &T3,) | () | ();
    (Entity, &T3,) | (&T4, &T1,) | ();
    (Entity, &T4, &T3, &T1,) | () | (&T0,);
    (&mut T1, &mut T4, &mut T3, Entity,) | () | (&T0,);
    (&mut T1, Entity,) | (&T4, &T3,) | (&T0,);
    (Entity, &T4, &T1,) | () | ();
    (&T4, Entity,) | () | &T1;
    (Entity, &T3, &T1, &T0, &T4,) | () | ();
    (&mut T3, &mut T4, &mut T1, &T0,) | () | ();
    (Entity, &T1, &T3,) | (&T4, &T0,) | ();
    (Entity, &T1, &T0, &T3, &T4,) | () | (&T7, &T5,);
    (&mut T4, &mut T0, &mut T3, &mut T1, Entity,) | () | (&T7, &T5,);
    (&T4, Entity,) | (&T0, &T3, &T1,) | (&T7, &T5,);
    (Entity, &T4, &T0, &T3, &T1,) | () | &T7;
    (Entity, &T1, &T0,) | () | ();
    (&T1, Entity,) | () | &T0;
    (Entity, &T0, &T4, &T1, &T5, &T3, &T7,) | () | ();
    (&mut T3, &mut T7, &mut T1, &mut T5, &mut T0, &mut T4,) | () | ();
    (Entity, &T4, &T3, &T7,) | (&T0, &T1, &T5,) | ();
    (Entity, &T4, &T0,) | () | ();
    (&T4, Entity,) | () | &T0;
    (Option<&T1>, &T0, Entity,) | () | ();
    (Entity, &T3, Option<&mut T5>,) | () | ();
    (&T0, Option<&mut T2>, &T1,) | () | ();
    (Option<&mut T0>, Entity, &mut T1, Option<&T4>,) | &T3 | ();
    (&T6, Option<&T6>,) | () | ();
    (Entity, Option<&T7>,) | &T2 | ();
    (Entity, &T0, &T1, Option<&T2>,) | () | &T2;
    (Option<&T3>, Option<&T5>, Entity,) | (&T6,) | ();
    (Option<&mut T4>, &T7,) | (&T1, Option<&T0>,) | ();
    Option<&T1> | &T0 | ();
    Option<&mut T5> | &T3 | &T6;
    (Entity, &mut T0, Option<&mut T3>, Option<&T7>, &T2,) | () | ();
    (&T0, &T0,) | () | ();
    (Entity, &T1, &T1, &T0,) | () | ();
    (Entity, &T0,) | &T0 | ();
    (Entity, &T5,) | () | &T5;
    (&T0, &T1,) | &T1 | &T2;
    (Entity, &T0, &mut T7,) | () | ();
    (Entity, &T0,) | () | &T7;
    (&mut T7,) | &T0 | ();
    (Entity, &T2, &mut T5,) | () | ();
    (Entity, &T2,) | () | &T5;
    (&mut T5,) | &T2 | ();
    (Entity, &T6, &mut T1,) | () | ();
    (Entity, &T6,) | () | &T1;
    (&mut T1,) | &T6 | ();
    (Entity, &T3, &mut T4,) | () | ();
    (Entity, &T3,) | () | &T4;
    (&mut T4,) | &T3 | ();
    (Entity, &T5, &mut T0,) | () | ();
    (Entity, &T5,) | () | &T0;
    (&mut T0,) | &T5 | ();
    (&mut T5,) | (&T1,) | (&T2,);
    (Entity, &T3,) | () | (&T1,);
    (&T0, Option<&T4>, Option<&T2>,) | (&T3, &T6,) | (&T1, &T7,);
    (&T0, Entity, &mut T3, Option<&mut T6>, Option<&T4>,) | (&T7, &T1,) | ();
    (&mut T2, Option<&mut T5>, Option<&mut T1>, Option<&T4>,) | () | (&T3,);
    (&T0, Option<&T7>,) | () | ();
    (&mut T6, &T7,) | () | (&T5,);
    (Entity, Option<&mut T5>, Option<&mut T3>,) | (&T1, &T6,) | (&T7,);
    (&mut T2, &mut T1, &T6,) | () | (&T4,);
    (&T4, Option<&mut T6>, &mut T3, &T0,) | () | (&T2,);
    (Entity, &mut T6, Option<&T5>, &T3,) | (&T0,) | (&T7,);
    (&T1, Option<&mut T4>, Entity,) | () | (&T2,);
    (Option<&mut T0>, Entity, &T2, &T1, &T6,) | () | (&T5, &T7,);
    (&T1,) | (&T6, &T0,) | (&T3, &T2,);
    (&T6, &mut T3, &mut T1, &mut T4,) | () | (&T7, &T0, &T2,);
    (Entity, &mut T6,) | (&T5,) | ();
    (Option<&T3>, Entity, &mut T7,) | () | (&T1,);
    (Option<&mut T7>, &T2, Option<&mut T3>, Option<&T5>,) | (&T4, &T0,) | (&T1, &T6,);
    (Entity, &T0, &T1, &T2, &T3, &T4, &T5, &T6,) | () | ();
    (&mut T0, &mut T1, &mut T2, &mut T3, &mut T4, &mut T5, &mut T6, &mut T7,) | () | ();
    (Entity,) | (&T0, &T1, &T2, &T3, &T4, &T5, &T6, &T7,) | ();
    Option<&T0> | () | ();
    Option<&mut T3> | () | ();
    (Option<&mut T1>, Option<&T5>,) | () | ();
    (Entity, Option<&mut T6>,) | () | ();
    Option<&mut T2> | () | &T4;
    Option<&T4> | () | (&T7, &T1,);
    Entity | () | ();
    () | () | &T5;
    () | () | ();
    (Option<&mut T7>, Entity, Option<&T0>,) | () | &T2;
    (Option<&T0>, Option<&T1>, Option<&T2>, Option<&T3>,) | Entity | ();
    Option<&mut T5> | (Entity,) | (&T0,);
}
