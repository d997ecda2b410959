//! Generated by tools/gen_probes.py.
use crate::c15::*;

type E = sparsey::Entity;

pub fn small() -> Vec<Probe> {
    vec![
        p::<(E, &G<0>,), ()>(&[0], &[]),
        p::<(E, &G<0>,), (&G<1>,)>(&[0], &[1]),
        p::<(E, &G<0>,), (&G<2>,)>(&[0], &[2]),
        p::<(E, &G<0>,), (&G<3>,)>(&[0], &[3]),
        p::<(E, &G<0>,), (&G<4>,)>(&[0], &[4]),
        p::<(E, &G<0>,), (&G<1>, &G<2>,)>(&[0], &[1, 2]),
        p::<(E, &G<0>,), (&G<1>, &G<3>,)>(&[0], &[1, 3]),
        p::<(E, &G<0>,), (&G<1>, &G<4>,)>(&[0], &[1, 4]),
        p::<(E, &G<0>,), (&G<2>, &G<3>,)>(&[0], &[2, 3]),
        p::<(E, &G<0>,), (&G<2>, &G<4>,)>(&[0], &[2, 4]),
        p::<(E, &G<0>,), (&G<3>, &G<4>,)>(&[0], &[3, 4]),
        p::<(E, &G<0>,), (&G<1>, &G<2>, &G<3>,)>(&[0], &[1, 2, 3]),
        p::<(E, &G<0>,), (&G<1>, &G<2>, &G<4>,)>(&[0], &[1, 2, 4]),
        p::<(E, &G<0>,), (&G<1>, &G<3>, &G<4>,)>(&[0], &[1, 3, 4]),
        p::<(E, &G<0>,), (&G<2>, &G<3>, &G<4>,)>(&[0], &[2, 3, 4]),
        p::<(E, &G<0>,), (&G<1>, &G<2>, &G<3>, &G<4>,)>(&[0], &[1, 2, 3, 4]),
        p::<(E, &G<1>,), ()>(&[1], &[]),
        p::<(E, &G<1>,), (&G<0>,)>(&[1], &[0]),
        p::<(E, &G<1>,), (&G<2>,)>(&[1], &[2]),
        p::<(E, &G<1>,), (&G<3>,)>(&[1], &[3]),
        p::<(E, &G<1>,), (&G<4>,)>(&[1], &[4]),
        p::<(E, &G<1>,), (&G<0>, &G<2>,)>(&[1], &[0, 2]),
        p::<(E, &G<1>,), (&G<0>, &G<3>,)>(&[1], &[0, 3]),
        p::<(E, &G<1>,), (&G<0>, &G<4>,)>(&[1], &[0, 4]),
        p::<(E, &G<1>,), (&G<2>, &G<3>,)>(&[1], &[2, 3]),
        p::<(E, &G<1>,), (&G<2>, &G<4>,)>(&[1], &[2, 4]),
        p::<(E, &G<1>,), (&G<3>, &G<4>,)>(&[1], &[3, 4]),
        p::<(E, &G<1>,), (&G<0>, &G<2>, &G<3>,)>(&[1], &[0, 2, 3]),
        p::<(E, &G<1>,), (&G<0>, &G<2>, &G<4>,)>(&[1], &[0, 2, 4]),
        p::<(E, &G<1>,), (&G<0>, &G<3>, &G<4>,)>(&[1], &[0, 3, 4]),
        p::<(E, &G<1>,), (&G<2>, &G<3>, &G<4>,)>(&[1], &[2, 3, 4]),
        p::<(E, &G<1>,), (&G<0>, &G<2>, &G<3>, &G<4>,)>(&[1], &[0, 2, 3, 4]),
        p::<(E, &G<2>,), ()>(&[2], &[]),
        p::<(E, &G<2>,), (&G<0>,)>(&[2], &[0]),
        p::<(E, &G<2>,), (&G<1>,)>(&[2], &[1]),
        p::<(E, &G<2>,), (&G<3>,)>(&[2], &[3]),
        p::<(E, &G<2>,), (&G<4>,)>(&[2], &[4]),
        p::<(E, &G<2>,), (&G<0>, &G<1>,)>(&[2], &[0, 1]),
        p::<(E, &G<2>,), (&G<0>, &G<3>,)>(&[2], &[0, 3]),
        p::<(E, &G<2>,), (&G<0>, &G<4>,)>(&[2], &[0, 4]),
        p::<(E, &G<2>,), (&G<1>, &G<3>,)>(&[2], &[1, 3]),
        p::<(E, &G<2>,), (&G<1>, &G<4>,)>(&[2], &[1, 4]),
        p::<(E, &G<2>,), (&G<3>, &G<4>,)>(&[2], &[3, 4]),
        p::<(E, &G<2>,), (&G<0>, &G<1>, &G<3>,)>(&[2], &[0, 1, 3]),
        p::<(E, &G<2>,), (&G<0>, &G<1>, &G<4>,)>(&[2], &[0, 1, 4]),
        p::<(E, &G<2>,), (&G<0>, &G<3>, &G<4>,)>(&[2], &[0, 3, 4]),
        p::<(E, &G<2>,), (&G<1>, &G<3>, &G<4>,)>(&[2], &[1, 3, 4]),
        p::<(E, &G<2>,), (&G<0>, &G<1>, &G<3>, &G<4>,)>(&[2], &[0, 1, 3, 4]),
        p::<(E, &G<3>,), ()>(&[3], &[]),
        p::<(E, &G<3>,), (&G<0>,)>(&[3], &[0]),
        p::<(E, &G<3>,), (&G<1>,)>(&[3], &[1]),
        p::<(E, &G<3>,), (&G<2>,)>(&[3], &[2]),
        p::<(E, &G<3>,), (&G<4>,)>(&[3], &[4]),
        p::<(E, &G<3>,), (&G<0>, &G<1>,)>(&[3], &[0, 1]),
        p::<(E, &G<3>,), (&G<0>, &G<2>,)>(&[3], &[0, 2]),
        p::<(E, &G<3>,), (&G<0>, &G<4>,)>(&[3], &[0, 4]),
        p::<(E, &G<3>,), (&G<1>, &G<2>,)>(&[3], &[1, 2]),
        p::<(E, &G<3>,), (&G<1>, &G<4>,)>(&[3], &[1, 4]),
        p::<(E, &G<3>,), (&G<2>, &G<4>,)>(&[3], &[2, 4]),
        p::<(E, &G<3>,), (&G<0>, &G<1>, &G<2>,)>(&[3], &[0, 1, 2]),
        p::<(E, &G<3>,), (&G<0>, &G<1>, &G<4>,)>(&[3], &[0, 1, 4]),
        p::<(E, &G<3>,), (&G<0>, &G<2>, &G<4>,)>(&[3], &[0, 2, 4]),
        p::<(E, &G<3>,), (&G<1>, &G<2>, &G<4>,)>(&[3], &[1, 2, 4]),
        p::<(E, &G<3>,), (&G<0>, &G<1>, &G<2>, &G<4>,)>(&[3], &[0, 1, 2, 4]),
        p::<(E, &G<4>,), ()>(&[4], &[]),
        p::<(E, &G<4>,), (&G<0>,)>(&[4], &[0]),
        p::<(E, &G<4>,), (&G<1>,)>(&[4], &[1]),
        p::<(E, &G<4>,), (&G<2>,)>(&[4], &[2]),
        p::<(E, &G<4>,), (&G<3>,)>(&[4], &[3]),
        p::<(E, &G<4>,), (&G<0>, &G<1>,)>(&[4], &[0, 1]),
        p::<(E, &G<4>,), (&G<0>, &G<2>,)>(&[4], &[0, 2]),
        p::<(E, &G<4>,), (&G<0>, &G<3>,)>(&[4], &[0, 3]),
        p::<(E, &G<4>,), (&G<1>, &G<2>,)>(&[4], &[1, 2]),
        p::<(E, &G<4>,), (&G<1>, &G<3>,)>(&[4], &[1, 3]),
        p::<(E, &G<4>,), (&G<2>, &G<3>,)>(&[4], &[2, 3]),
        p::<(E, &G<4>,), (&G<0>, &G<1>, &G<2>,)>(&[4], &[0, 1, 2]),
        p::<(E, &G<4>,), (&G<0>, &G<1>, &G<3>,)>(&[4], &[0, 1, 3]),
        p::<(E, &G<4>,), (&G<0>, &G<2>, &G<3>,)>(&[4], &[0, 2, 3]),
        p::<(E, &G<4>,), (&G<1>, &G<2>, &G<3>,)>(&[4], &[1, 2, 3]),
        p::<(E, &G<4>,), (&G<0>, &G<1>, &G<2>, &G<3>,)>(&[4], &[0, 1, 2, 3]),
        p::<(E, &G<0>, &G<1>,), ()>(&[0, 1], &[]),
        p::<(E, &G<0>, &G<1>,), (&G<2>,)>(&[0, 1], &[2]),
        p::<(E, &G<0>, &G<1>,), (&G<3>,)>(&[0, 1], &[3]),
        p::<(E, &G<0>, &G<1>,), (&G<4>,)>(&[0, 1], &[4]),
        p::<(E, &G<0>, &G<1>,), (&G<2>, &G<3>,)>(&[0, 1], &[2, 3]),
        p::<(E, &G<0>, &G<1>,), (&G<2>, &G<4>,)>(&[0, 1], &[2, 4]),
        p::<(E, &G<0>, &G<1>,), (&G<3>, &G<4>,)>(&[0, 1], &[3, 4]),
        p::<(E, &G<0>, &G<1>,), (&G<2>, &G<3>, &G<4>,)>(&[0, 1], &[2, 3, 4]),
        p::<(E, &G<0>, &G<2>,), ()>(&[0, 2], &[]),
        p::<(E, &G<0>, &G<2>,), (&G<1>,)>(&[0, 2], &[1]),
        p::<(E, &G<0>, &G<2>,), (&G<3>,)>(&[0, 2], &[3]),
        p::<(E, &G<0>, &G<2>,), (&G<4>,)>(&[0, 2], &[4]),
        p::<(E, &G<0>, &G<2>,), (&G<1>, &G<3>,)>(&[0, 2], &[1, 3]),
        p::<(E, &G<0>, &G<2>,), (&G<1>, &G<4>,)>(&[0, 2], &[1, 4]),
        p::<(E, &G<0>, &G<2>,), (&G<3>, &G<4>,)>(&[0, 2], &[3, 4]),
        p::<(E, &G<0>, &G<2>,), (&G<1>, &G<3>, &G<4>,)>(&[0, 2], &[1, 3, 4]),
        p::<(E, &G<0>, &G<3>,), ()>(&[0, 3], &[]),
        p::<(E, &G<0>, &G<3>,), (&G<1>,)>(&[0, 3], &[1]),
        p::<(E, &G<0>, &G<3>,), (&G<2>,)>(&[0, 3], &[2]),
        p::<(E, &G<0>, &G<3>,), (&G<4>,)>(&[0, 3], &[4]),
        p::<(E, &G<0>, &G<3>,), (&G<1>, &G<2>,)>(&[0, 3], &[1, 2]),
        p::<(E, &G<0>, &G<3>,), (&G<1>, &G<4>,)>(&[0, 3], &[1, 4]),
        p::<(E, &G<0>, &G<3>,), (&G<2>, &G<4>,)>(&[0, 3], &[2, 4]),
        p::<(E, &G<0>, &G<3>,), (&G<1>, &G<2>, &G<4>,)>(&[0, 3], &[1, 2, 4]),
        p::<(E, &G<0>, &G<4>,), ()>(&[0, 4], &[]),
        p::<(E, &G<0>, &G<4>,), (&G<1>,)>(&[0, 4], &[1]),
        p::<(E, &G<0>, &G<4>,), (&G<2>,)>(&[0, 4], &[2]),
        p::<(E, &G<0>, &G<4>,), (&G<3>,)>(&[0, 4], &[3]),
        p::<(E, &G<0>, &G<4>,), (&G<1>, &G<2>,)>(&[0, 4], &[1, 2]),
        p::<(E, &G<0>, &G<4>,), (&G<1>, &G<3>,)>(&[0, 4], &[1, 3]),
        p::<(E, &G<0>, &G<4>,), (&G<2>, &G<3>,)>(&[0, 4], &[2, 3]),
        p::<(E, &G<0>, &G<4>,), (&G<1>, &G<2>, &G<3>,)>(&[0, 4], &[1, 2, 3]),
        p::<(E, &G<1>, &G<2>,), ()>(&[1, 2], &[]),
        p::<(E, &G<1>, &G<2>,), (&G<0>,)>(&[1, 2], &[0]),
        p::<(E, &G<1>, &G<2>,), (&G<3>,)>(&[1, 2], &[3]),
        p::<(E, &G<1>, &G<2>,), (&G<4>,)>(&[1, 2], &[4]),
        p::<(E, &G<1>, &G<2>,), (&G<0>, &G<3>,)>(&[1, 2], &[0, 3]),
        p::<(E, &G<1>, &G<2>,), (&G<0>, &G<4>,)>(&[1, 2], &[0, 4]),
        p::<(E, &G<1>, &G<2>,), (&G<3>, &G<4>,)>(&[1, 2], &[3, 4]),
        p::<(E, &G<1>, &G<2>,), (&G<0>, &G<3>, &G<4>,)>(&[1, 2], &[0, 3, 4]),
        p::<(E, &G<1>, &G<3>,), ()>(&[1, 3], &[]),
        p::<(E, &G<1>, &G<3>,), (&G<0>,)>(&[1, 3], &[0]),
        p::<(E, &G<1>, &G<3>,), (&G<2>,)>(&[1, 3], &[2]),
        p::<(E, &G<1>, &G<3>,), (&G<4>,)>(&[1, 3], &[4]),
        p::<(E, &G<1>, &G<3>,), (&G<0>, &G<2>,)>(&[1, 3], &[0, 2]),
        p::<(E, &G<1>, &G<3>,), (&G<0>, &G<4>,)>(&[1, 3], &[0, 4]),
        p::<(E, &G<1>, &G<3>,), (&G<2>, &G<4>,)>(&[1, 3], &[2, 4]),
        p::<(E, &G<1>, &G<3>,), (&G<0>, &G<2>, &G<4>,)>(&[1, 3], &[0, 2, 4]),
        p::<(E, &G<1>, &G<4>,), ()>(&[1, 4], &[]),
        p::<(E, &G<1>, &G<4>,), (&G<0>,)>(&[1, 4], &[0]),
        p::<(E, &G<1>, &G<4>,), (&G<2>,)>(&[1, 4], &[2]),
        p::<(E, &G<1>, &G<4>,), (&G<3>,)>(&[1, 4], &[3]),
        p::<(E, &G<1>, &G<4>,), (&G<0>, &G<2>,)>(&[1, 4], &[0, 2]),
        p::<(E, &G<1>, &G<4>,), (&G<0>, &G<3>,)>(&[1, 4], &[0, 3]),
        p::<(E, &G<1>, &G<4>,), (&G<2>, &G<3>,)>(&[1, 4], &[2, 3]),
        p::<(E, &G<1>, &G<4>,), (&G<0>, &G<2>, &G<3>,)>(&[1, 4], &[0, 2, 3]),
        p::<(E, &G<2>, &G<3>,), ()>(&[2, 3], &[]),
        p::<(E, &G<2>, &G<3>,), (&G<0>,)>(&[2, 3], &[0]),
        p::<(E, &G<2>, &G<3>,), (&G<1>,)>(&[2, 3], &[1]),
        p::<(E, &G<2>, &G<3>,), (&G<4>,)>(&[2, 3], &[4]),
        p::<(E, &G<2>, &G<3>,), (&G<0>, &G<1>,)>(&[2, 3], &[0, 1]),
        p::<(E, &G<2>, &G<3>,), (&G<0>, &G<4>,)>(&[2, 3], &[0, 4]),
        p::<(E, &G<2>, &G<3>,), (&G<1>, &G<4>,)>(&[2, 3], &[1, 4]),
        p::<(E, &G<2>, &G<3>,), (&G<0>, &G<1>, &G<4>,)>(&[2, 3], &[0, 1, 4]),
        p::<(E, &G<2>, &G<4>,), ()>(&[2, 4], &[]),
        p::<(E, &G<2>, &G<4>,), (&G<0>,)>(&[2, 4], &[0]),
        p::<(E, &G<2>, &G<4>,), (&G<1>,)>(&[2, 4], &[1]),
        p::<(E, &G<2>, &G<4>,), (&G<3>,)>(&[2, 4], &[3]),
        p::<(E, &G<2>, &G<4>,), (&G<0>, &G<1>,)>(&[2, 4], &[0, 1]),
        p::<(E, &G<2>, &G<4>,), (&G<0>, &G<3>,)>(&[2, 4], &[0, 3]),
        p::<(E, &G<2>, &G<4>,), (&G<1>, &G<3>,)>(&[2, 4], &[1, 3]),
        p::<(E, &G<2>, &G<4>,), (&G<0>, &G<1>, &G<3>,)>(&[2, 4], &[0, 1, 3]),
        p::<(E, &G<3>, &G<4>,), ()>(&[3, 4], &[]),
        p::<(E, &G<3>, &G<4>,), (&G<0>,)>(&[3, 4], &[0]),
        p::<(E, &G<3>, &G<4>,), (&G<1>,)>(&[3, 4], &[1]),
        p::<(E, &G<3>, &G<4>,), (&G<2>,)>(&[3, 4], &[2]),
        p::<(E, &G<3>, &G<4>,), (&G<0>, &G<1>,)>(&[3, 4], &[0, 1]),
        p::<(E, &G<3>, &G<4>,), (&G<0>, &G<2>,)>(&[3, 4], &[0, 2]),
        p::<(E, &G<3>, &G<4>,), (&G<1>, &G<2>,)>(&[3, 4], &[1, 2]),
        p::<(E, &G<3>, &G<4>,), (&G<0>, &G<1>, &G<2>,)>(&[3, 4], &[0, 1, 2]),
        p::<(E, &G<0>, &G<1>, &G<2>,), ()>(&[0, 1, 2], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>,), (&G<3>,)>(&[0, 1, 2], &[3]),
        p::<(E, &G<0>, &G<1>, &G<2>,), (&G<4>,)>(&[0, 1, 2], &[4]),
        p::<(E, &G<0>, &G<1>, &G<2>,), (&G<3>, &G<4>,)>(&[0, 1, 2], &[3, 4]),
        p::<(E, &G<0>, &G<1>, &G<3>,), ()>(&[0, 1, 3], &[]),
        p::<(E, &G<0>, &G<1>, &G<3>,), (&G<2>,)>(&[0, 1, 3], &[2]),
        p::<(E, &G<0>, &G<1>, &G<3>,), (&G<4>,)>(&[0, 1, 3], &[4]),
        p::<(E, &G<0>, &G<1>, &G<3>,), (&G<2>, &G<4>,)>(&[0, 1, 3], &[2, 4]),
        p::<(E, &G<0>, &G<1>, &G<4>,), ()>(&[0, 1, 4], &[]),
        p::<(E, &G<0>, &G<1>, &G<4>,), (&G<2>,)>(&[0, 1, 4], &[2]),
        p::<(E, &G<0>, &G<1>, &G<4>,), (&G<3>,)>(&[0, 1, 4], &[3]),
        p::<(E, &G<0>, &G<1>, &G<4>,), (&G<2>, &G<3>,)>(&[0, 1, 4], &[2, 3]),
        p::<(E, &G<0>, &G<2>, &G<3>,), ()>(&[0, 2, 3], &[]),
        p::<(E, &G<0>, &G<2>, &G<3>,), (&G<1>,)>(&[0, 2, 3], &[1]),
        p::<(E, &G<0>, &G<2>, &G<3>,), (&G<4>,)>(&[0, 2, 3], &[4]),
        p::<(E, &G<0>, &G<2>, &G<3>,), (&G<1>, &G<4>,)>(&[0, 2, 3], &[1, 4]),
        p::<(E, &G<0>, &G<2>, &G<4>,), ()>(&[0, 2, 4], &[]),
        p::<(E, &G<0>, &G<2>, &G<4>,), (&G<1>,)>(&[0, 2, 4], &[1]),
        p::<(E, &G<0>, &G<2>, &G<4>,), (&G<3>,)>(&[0, 2, 4], &[3]),
        p::<(E, &G<0>, &G<2>, &G<4>,), (&G<1>, &G<3>,)>(&[0, 2, 4], &[1, 3]),
        p::<(E, &G<0>, &G<3>, &G<4>,), ()>(&[0, 3, 4], &[]),
        p::<(E, &G<0>, &G<3>, &G<4>,), (&G<1>,)>(&[0, 3, 4], &[1]),
        p::<(E, &G<0>, &G<3>, &G<4>,), (&G<2>,)>(&[0, 3, 4], &[2]),
        p::<(E, &G<0>, &G<3>, &G<4>,), (&G<1>, &G<2>,)>(&[0, 3, 4], &[1, 2]),
        p::<(E, &G<1>, &G<2>, &G<3>,), ()>(&[1, 2, 3], &[]),
        p::<(E, &G<1>, &G<2>, &G<3>,), (&G<0>,)>(&[1, 2, 3], &[0]),
        p::<(E, &G<1>, &G<2>, &G<3>,), (&G<4>,)>(&[1, 2, 3], &[4]),
        p::<(E, &G<1>, &G<2>, &G<3>,), (&G<0>, &G<4>,)>(&[1, 2, 3], &[0, 4]),
        p::<(E, &G<1>, &G<2>, &G<4>,), ()>(&[1, 2, 4], &[]),
        p::<(E, &G<1>, &G<2>, &G<4>,), (&G<0>,)>(&[1, 2, 4], &[0]),
        p::<(E, &G<1>, &G<2>, &G<4>,), (&G<3>,)>(&[1, 2, 4], &[3]),
        p::<(E, &G<1>, &G<2>, &G<4>,), (&G<0>, &G<3>,)>(&[1, 2, 4], &[0, 3]),
        p::<(E, &G<1>, &G<3>, &G<4>,), ()>(&[1, 3, 4], &[]),
        p::<(E, &G<1>, &G<3>, &G<4>,), (&G<0>,)>(&[1, 3, 4], &[0]),
        p::<(E, &G<1>, &G<3>, &G<4>,), (&G<2>,)>(&[1, 3, 4], &[2]),
        p::<(E, &G<1>, &G<3>, &G<4>,), (&G<0>, &G<2>,)>(&[1, 3, 4], &[0, 2]),
        p::<(E, &G<2>, &G<3>, &G<4>,), ()>(&[2, 3, 4], &[]),
        p::<(E, &G<2>, &G<3>, &G<4>,), (&G<0>,)>(&[2, 3, 4], &[0]),
        p::<(E, &G<2>, &G<3>, &G<4>,), (&G<1>,)>(&[2, 3, 4], &[1]),
        p::<(E, &G<2>, &G<3>, &G<4>,), (&G<0>, &G<1>,)>(&[2, 3, 4], &[0, 1]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>,), ()>(&[0, 1, 2, 3], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>,), (&G<4>,)>(&[0, 1, 2, 3], &[4]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<4>,), ()>(&[0, 1, 2, 4], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<4>,), (&G<3>,)>(&[0, 1, 2, 4], &[3]),
        p::<(E, &G<0>, &G<1>, &G<3>, &G<4>,), ()>(&[0, 1, 3, 4], &[]),
        p::<(E, &G<0>, &G<1>, &G<3>, &G<4>,), (&G<2>,)>(&[0, 1, 3, 4], &[2]),
        p::<(E, &G<0>, &G<2>, &G<3>, &G<4>,), ()>(&[0, 2, 3, 4], &[]),
        p::<(E, &G<0>, &G<2>, &G<3>, &G<4>,), (&G<1>,)>(&[0, 2, 3, 4], &[1]),
        p::<(E, &G<1>, &G<2>, &G<3>, &G<4>,), ()>(&[1, 2, 3, 4], &[]),
        p::<(E, &G<1>, &G<2>, &G<3>, &G<4>,), (&G<0>,)>(&[1, 2, 3, 4], &[0]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>,), ()>(&[0, 1, 2, 3, 4], &[]),
    ]
}

pub fn wide() -> Vec<Probe> {
    vec![
        p::<(E, &G<0>,), ()>(&[0], &[]),
        p::<(E, &G<0>,), (&G<1>,)>(&[0], &[1]),
        p::<(E, &G<0>,), (&G<1>, &G<2>,)>(&[0], &[1, 2]),
        p::<(E, &G<0>,), (&G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>,), ()>(&[0, 1], &[]),
        p::<(E, &G<0>, &G<1>,), (&G<2>,)>(&[0, 1], &[2]),
        p::<(E, &G<0>, &G<1>,), (&G<2>, &G<3>,)>(&[0, 1], &[2, 3]),
        p::<(E, &G<0>, &G<1>,), (&G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1], &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>,), ()>(&[0, 1, 2], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>,), (&G<3>,)>(&[0, 1, 2], &[3]),
        p::<(E, &G<0>, &G<1>, &G<2>,), (&G<3>, &G<4>,)>(&[0, 1, 2], &[3, 4]),
        p::<(E, &G<0>, &G<1>, &G<2>,), (&G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1, 2], &[3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>,), ()>(&[0, 1, 2, 3], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>,), (&G<4>,)>(&[0, 1, 2, 3], &[4]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>,), (&G<4>, &G<5>,)>(&[0, 1, 2, 3], &[4, 5]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>,), (&G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1, 2, 3], &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>,), ()>(&[0, 1, 2, 3, 4], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>,), (&G<5>,)>(&[0, 1, 2, 3, 4], &[5]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>,), (&G<5>, &G<6>,)>(&[0, 1, 2, 3, 4], &[5, 6]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>,), (&G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1, 2, 3, 4], &[5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>,), ()>(&[0, 1, 2, 3, 4, 5], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>,), (&G<6>,)>(&[0, 1, 2, 3, 4, 5], &[6]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>,), (&G<6>, &G<7>,)>(&[0, 1, 2, 3, 4, 5], &[6, 7]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>,), (&G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1, 2, 3, 4, 5], &[6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>,), ()>(&[0, 1, 2, 3, 4, 5, 6], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>,), (&G<7>,)>(&[0, 1, 2, 3, 4, 5, 6], &[7]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>,), (&G<7>, &G<8>,)>(&[0, 1, 2, 3, 4, 5, 6], &[7, 8]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>,), (&G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1, 2, 3, 4, 5, 6], &[7, 8, 9, 10, 11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>,), ()>(&[0, 1, 2, 3, 4, 5, 6, 7], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>,), (&G<8>,)>(&[0, 1, 2, 3, 4, 5, 6, 7], &[8]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>,), (&G<8>, &G<9>,)>(&[0, 1, 2, 3, 4, 5, 6, 7], &[8, 9]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>,), (&G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1, 2, 3, 4, 5, 6, 7], &[8, 9, 10, 11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>,), ()>(&[0, 1, 2, 3, 4, 5, 6, 7, 8], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>,), (&G<9>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8], &[9]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>,), (&G<9>, &G<10>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8], &[9, 10]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>,), (&G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8], &[9, 10, 11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>,), ()>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>,), (&G<10>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[10]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>,), (&G<10>, &G<11>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[10, 11]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>,), (&G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[10, 11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>,), ()>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>,), (&G<11>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], &[11]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>,), (&G<11>, &G<12>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], &[11, 12]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>,), (&G<11>, &G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], &[11, 12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>,), ()>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>,), (&G<12>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[12]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>,), (&G<12>, &G<13>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[12, 13]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>,), (&G<12>, &G<13>, &G<14>, &G<15>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], &[12, 13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>,), ()>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>,), (&G<13>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], &[13]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>,), (&G<13>, &G<14>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], &[13, 14]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>,), (&G<13>, &G<14>, &G<15>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], &[13, 14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>,), ()>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>,), (&G<14>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], &[14]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>,), (&G<14>, &G<15>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], &[14, 15]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>,), ()>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14], &[]),
        p::<(E, &G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>,), (&G<15>,)>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14], &[15]),
        p::<(&G<0>, &G<1>, &G<2>, &G<3>, &G<4>, &G<5>, &G<6>, &G<7>, &G<8>, &G<9>, &G<10>, &G<11>, &G<12>, &G<13>, &G<14>, &G<15>,), ()>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], &[]),
    ]
}

pub fn many() -> Vec<Probe> {
    vec![
        p::<(E, &G<100>, &G<101>,), ()>(&[100, 101], &[]),
        p::<(E, &G<102>, &G<103>,), ()>(&[102, 103], &[]),
        p::<(E, &G<104>, &G<105>,), ()>(&[104, 105], &[]),
        p::<(E, &G<106>, &G<107>,), ()>(&[106, 107], &[]),
        p::<(E, &G<108>, &G<109>,), ()>(&[108, 109], &[]),
        p::<(E, &G<110>, &G<111>,), ()>(&[110, 111], &[]),
        p::<(E, &G<112>, &G<113>,), ()>(&[112, 113], &[]),
        p::<(E, &G<114>, &G<115>,), ()>(&[114, 115], &[]),
        p::<(E, &G<116>, &G<117>,), ()>(&[116, 117], &[]),
        p::<(E, &G<118>, &G<119>,), ()>(&[118, 119], &[]),
        p::<(E, &G<120>, &G<121>,), ()>(&[120, 121], &[]),
        p::<(E, &G<122>, &G<123>,), ()>(&[122, 123], &[]),
        p::<(E, &G<124>, &G<125>,), ()>(&[124, 125], &[]),
        p::<(E, &G<126>, &G<127>,), ()>(&[126, 127], &[]),
        p::<(E, &G<128>, &G<129>,), ()>(&[128, 129], &[]),
        p::<(E, &G<130>, &G<131>,), ()>(&[130, 131], &[]),
        p::<(E, &G<132>, &G<133>,), ()>(&[132, 133], &[]),
        p::<(E, &G<134>, &G<135>,), ()>(&[134, 135], &[]),
        p::<(E, &G<136>, &G<137>,), ()>(&[136, 137], &[]),
        p::<(E, &G<138>, &G<139>,), ()>(&[138, 139], &[]),
        p::<(E, &G<140>, &G<141>,), ()>(&[140, 141], &[]),
        p::<(E, &G<142>, &G<143>,), ()>(&[142, 143], &[]),
        p::<(E, &G<144>, &G<145>,), ()>(&[144, 145], &[]),
        p::<(E, &G<146>, &G<147>,), ()>(&[146, 147], &[]),
        p::<(E, &G<148>, &G<149>,), ()>(&[148, 149], &[]),
        p::<(E, &G<150>, &G<151>,), ()>(&[150, 151], &[]),
        p::<(E, &G<152>, &G<153>,), ()>(&[152, 153], &[]),
        p::<(E, &G<154>, &G<155>,), ()>(&[154, 155], &[]),
        p::<(E, &G<156>, &G<157>,), ()>(&[156, 157], &[]),
        p::<(E, &G<158>, &G<159>,), ()>(&[158, 159], &[]),
        p::<(E, &G<160>, &G<161>,), ()>(&[160, 161], &[]),
        p::<(E, &G<162>, &G<163>,), ()>(&[162, 163], &[]),
        p::<(E, &G<164>, &G<165>,), ()>(&[164, 165], &[]),
        p::<(E, &G<166>, &G<167>,), ()>(&[166, 167], &[]),
        p::<(E, &G<168>, &G<169>,), ()>(&[168, 169], &[]),
        p::<(E, &G<170>, &G<171>,), ()>(&[170, 171], &[]),
        p::<(E, &G<172>, &G<173>,), ()>(&[172, 173], &[]),
        p::<(E, &G<174>, &G<175>,), ()>(&[174, 175], &[]),
        p::<(E, &G<176>, &G<177>,), ()>(&[176, 177], &[]),
        p::<(E, &G<178>, &G<179>,), ()>(&[178, 179], &[]),
        p::<(E, &G<180>, &G<181>,), ()>(&[180, 181], &[]),
        p::<(E, &G<182>, &G<183>,), ()>(&[182, 183], &[]),
        p::<(E, &G<184>, &G<185>,), ()>(&[184, 185], &[]),
        p::<(E, &G<186>, &G<187>,), ()>(&[186, 187], &[]),
        p::<(E, &G<188>, &G<189>,), ()>(&[188, 189], &[]),
        p::<(E, &G<190>, &G<191>,), ()>(&[190, 191], &[]),
        p::<(E, &G<192>, &G<193>,), ()>(&[192, 193], &[]),
        p::<(E, &G<194>, &G<195>,), ()>(&[194, 195], &[]),
        p::<(E, &G<196>, &G<197>,), ()>(&[196, 197], &[]),
        p::<(E, &G<198>, &G<199>,), ()>(&[198, 199], &[]),
        p::<(E, &G<200>, &G<201>,), ()>(&[200, 201], &[]),
        p::<(E, &G<202>, &G<203>,), ()>(&[202, 203], &[]),
        p::<(E, &G<204>, &G<205>,), ()>(&[204, 205], &[]),
        p::<(E, &G<206>, &G<207>,), ()>(&[206, 207], &[]),
        p::<(E, &G<208>, &G<209>,), ()>(&[208, 209], &[]),
        p::<(E, &G<210>, &G<211>,), ()>(&[210, 211], &[]),
        p::<(E, &G<212>, &G<213>,), ()>(&[212, 213], &[]),
        p::<(E, &G<214>, &G<215>,), ()>(&[214, 215], &[]),
        p::<(E, &G<216>, &G<217>,), ()>(&[216, 217], &[]),
        p::<(E, &G<218>, &G<219>,), ()>(&[218, 219], &[]),
        p::<(E, &G<220>, &G<221>,), ()>(&[220, 221], &[]),
        p::<(E, &G<222>, &G<223>,), ()>(&[222, 223], &[]),
        p::<(E, &G<224>, &G<225>,), ()>(&[224, 225], &[]),
        p::<(E, &G<226>, &G<227>,), ()>(&[226, 227], &[]),
        p::<(E, &G<100>, &G<101>, &G<102>, &G<103>,), ()>(&[100, 101, 102, 103], &[]),
        p::<(E, &G<100>, &G<101>,), (&G<102>, &G<103>,)>(&[100, 101], &[102, 103]),
        p::<(E, &G<104>, &G<105>, &G<106>, &G<107>,), ()>(&[104, 105, 106, 107], &[]),
        p::<(E, &G<104>, &G<105>,), (&G<106>, &G<107>,)>(&[104, 105], &[106, 107]),
        p::<(E, &G<108>, &G<109>, &G<110>, &G<111>,), ()>(&[108, 109, 110, 111], &[]),
        p::<(E, &G<108>, &G<109>,), (&G<110>, &G<111>,)>(&[108, 109], &[110, 111]),
        p::<(E, &G<112>, &G<113>, &G<114>, &G<115>,), ()>(&[112, 113, 114, 115], &[]),
        p::<(E, &G<112>, &G<113>,), (&G<114>, &G<115>,)>(&[112, 113], &[114, 115]),
        p::<(E, &G<116>, &G<117>, &G<118>, &G<119>,), ()>(&[116, 117, 118, 119], &[]),
        p::<(E, &G<116>, &G<117>,), (&G<118>, &G<119>,)>(&[116, 117], &[118, 119]),
        p::<(E, &G<120>, &G<121>, &G<122>, &G<123>,), ()>(&[120, 121, 122, 123], &[]),
        p::<(E, &G<120>, &G<121>,), (&G<122>, &G<123>,)>(&[120, 121], &[122, 123]),
        p::<(E, &G<124>, &G<125>, &G<126>, &G<127>,), ()>(&[124, 125, 126, 127], &[]),
        p::<(E, &G<124>, &G<125>,), (&G<126>, &G<127>,)>(&[124, 125], &[126, 127]),
        p::<(E, &G<128>, &G<129>, &G<130>, &G<131>,), ()>(&[128, 129, 130, 131], &[]),
        p::<(E, &G<128>, &G<129>,), (&G<130>, &G<131>,)>(&[128, 129], &[130, 131]),
        p::<(E, &G<132>, &G<133>, &G<134>, &G<135>,), ()>(&[132, 133, 134, 135], &[]),
        p::<(E, &G<132>, &G<133>,), (&G<134>, &G<135>,)>(&[132, 133], &[134, 135]),
        p::<(E, &G<136>, &G<137>, &G<138>, &G<139>,), ()>(&[136, 137, 138, 139], &[]),
        p::<(E, &G<136>, &G<137>,), (&G<138>, &G<139>,)>(&[136, 137], &[138, 139]),
        p::<(E, &G<140>, &G<141>, &G<142>, &G<143>,), ()>(&[140, 141, 142, 143], &[]),
        p::<(E, &G<140>, &G<141>,), (&G<142>, &G<143>,)>(&[140, 141], &[142, 143]),
        p::<(E, &G<144>, &G<145>, &G<146>, &G<147>,), ()>(&[144, 145, 146, 147], &[]),
        p::<(E, &G<144>, &G<145>,), (&G<146>, &G<147>,)>(&[144, 145], &[146, 147]),
        p::<(E, &G<148>, &G<149>, &G<150>, &G<151>,), ()>(&[148, 149, 150, 151], &[]),
        p::<(E, &G<148>, &G<149>,), (&G<150>, &G<151>,)>(&[148, 149], &[150, 151]),
        p::<(E, &G<152>, &G<153>, &G<154>, &G<155>,), ()>(&[152, 153, 154, 155], &[]),
        p::<(E, &G<152>, &G<153>,), (&G<154>, &G<155>,)>(&[152, 153], &[154, 155]),
        p::<(E, &G<156>, &G<157>, &G<158>, &G<159>,), ()>(&[156, 157, 158, 159], &[]),
        p::<(E, &G<156>, &G<157>,), (&G<158>, &G<159>,)>(&[156, 157], &[158, 159]),
        p::<(E, &G<160>, &G<161>, &G<162>, &G<163>,), ()>(&[160, 161, 162, 163], &[]),
        p::<(E, &G<160>, &G<161>,), (&G<162>, &G<163>,)>(&[160, 161], &[162, 163]),
        p::<(E, &G<164>, &G<165>, &G<166>, &G<167>,), ()>(&[164, 165, 166, 167], &[]),
        p::<(E, &G<164>, &G<165>,), (&G<166>, &G<167>,)>(&[164, 165], &[166, 167]),
        p::<(E, &G<168>, &G<169>, &G<170>, &G<171>,), ()>(&[168, 169, 170, 171], &[]),
        p::<(E, &G<168>, &G<169>,), (&G<170>, &G<171>,)>(&[168, 169], &[170, 171]),
        p::<(E, &G<172>, &G<173>, &G<174>, &G<175>,), ()>(&[172, 173, 174, 175], &[]),
        p::<(E, &G<172>, &G<173>,), (&G<174>, &G<175>,)>(&[172, 173], &[174, 175]),
        p::<(E, &G<176>, &G<177>, &G<178>, &G<179>,), ()>(&[176, 177, 178, 179], &[]),
        p::<(E, &G<176>, &G<177>,), (&G<178>, &G<179>,)>(&[176, 177], &[178, 179]),
        p::<(E, &G<180>, &G<181>, &G<182>, &G<183>,), ()>(&[180, 181, 182, 183], &[]),
        p::<(E, &G<180>, &G<181>,), (&G<182>, &G<183>,)>(&[180, 181], &[182, 183]),
        p::<(E, &G<184>, &G<185>, &G<186>, &G<187>,), ()>(&[184, 185, 186, 187], &[]),
        p::<(E, &G<184>, &G<185>,), (&G<186>, &G<187>,)>(&[184, 185], &[186, 187]),
        p::<(E, &G<188>, &G<189>, &G<190>, &G<191>,), ()>(&[188, 189, 190, 191], &[]),
        p::<(E, &G<188>, &G<189>,), (&G<190>, &G<191>,)>(&[188, 189], &[190, 191]),
        p::<(E, &G<192>, &G<193>, &G<194>, &G<195>,), ()>(&[192, 193, 194, 195], &[]),
        p::<(E, &G<192>, &G<193>,), (&G<194>, &G<195>,)>(&[192, 193], &[194, 195]),
        p::<(E, &G<196>, &G<197>, &G<198>, &G<199>,), ()>(&[196, 197, 198, 199], &[]),
        p::<(E, &G<196>, &G<197>,), (&G<198>, &G<199>,)>(&[196, 197], &[198, 199]),
        p::<(E, &G<200>, &G<201>, &G<202>, &G<203>,), ()>(&[200, 201, 202, 203], &[]),
        p::<(E, &G<200>, &G<201>,), (&G<202>, &G<203>,)>(&[200, 201], &[202, 203]),
        p::<(E, &G<204>, &G<205>, &G<206>, &G<207>,), ()>(&[204, 205, 206, 207], &[]),
        p::<(E, &G<204>, &G<205>,), (&G<206>, &G<207>,)>(&[204, 205], &[206, 207]),
        p::<(E, &G<208>, &G<209>, &G<210>, &G<211>,), ()>(&[208, 209, 210, 211], &[]),
        p::<(E, &G<208>, &G<209>,), (&G<210>, &G<211>,)>(&[208, 209], &[210, 211]),
        p::<(E, &G<212>, &G<213>, &G<214>, &G<215>,), ()>(&[212, 213, 214, 215], &[]),
        p::<(E, &G<212>, &G<213>,), (&G<214>, &G<215>,)>(&[212, 213], &[214, 215]),
        p::<(E, &G<216>, &G<217>, &G<218>, &G<219>,), ()>(&[216, 217, 218, 219], &[]),
        p::<(E, &G<216>, &G<217>,), (&G<218>, &G<219>,)>(&[216, 217], &[218, 219]),
        p::<(E, &G<220>, &G<221>, &G<222>, &G<223>,), ()>(&[220, 221, 222, 223], &[]),
        p::<(E, &G<220>, &G<221>,), (&G<222>, &G<223>,)>(&[220, 221], &[222, 223]),
        p::<(E, &G<224>, &G<225>, &G<226>, &G<227>,), ()>(&[224, 225, 226, 227], &[]),
        p::<(E, &G<224>, &G<225>,), (&G<226>, &G<227>,)>(&[224, 225], &[226, 227]),
        p::<(E, &G<100>, &G<101>, &G<102>, &G<103>, &G<104>, &G<105>, &G<106>, &G<107>,), ()>(&[100, 101, 102, 103, 104, 105, 106, 107], &[]),
        p::<(E, &G<100>, &G<101>, &G<102>, &G<103>,), (&G<104>, &G<105>, &G<106>, &G<107>,)>(&[100, 101, 102, 103], &[104, 105, 106, 107]),
        p::<(E, &G<108>, &G<109>, &G<110>, &G<111>, &G<112>, &G<113>, &G<114>, &G<115>,), ()>(&[108, 109, 110, 111, 112, 113, 114, 115], &[]),
        p::<(E, &G<108>, &G<109>, &G<110>, &G<111>,), (&G<112>, &G<113>, &G<114>, &G<115>,)>(&[108, 109, 110, 111], &[112, 113, 114, 115]),
        p::<(E, &G<116>, &G<117>, &G<118>, &G<119>, &G<120>, &G<121>, &G<122>, &G<123>,), ()>(&[116, 117, 118, 119, 120, 121, 122, 123], &[]),
        p::<(E, &G<116>, &G<117>, &G<118>, &G<119>,), (&G<120>, &G<121>, &G<122>, &G<123>,)>(&[116, 117, 118, 119], &[120, 121, 122, 123]),
        p::<(E, &G<124>, &G<125>, &G<126>, &G<127>, &G<128>, &G<129>, &G<130>, &G<131>,), ()>(&[124, 125, 126, 127, 128, 129, 130, 131], &[]),
        p::<(E, &G<124>, &G<125>, &G<126>, &G<127>,), (&G<128>, &G<129>, &G<130>, &G<131>,)>(&[124, 125, 126, 127], &[128, 129, 130, 131]),
        p::<(E, &G<132>, &G<133>, &G<134>, &G<135>, &G<136>, &G<137>, &G<138>, &G<139>,), ()>(&[132, 133, 134, 135, 136, 137, 138, 139], &[]),
        p::<(E, &G<132>, &G<133>, &G<134>, &G<135>,), (&G<136>, &G<137>, &G<138>, &G<139>,)>(&[132, 133, 134, 135], &[136, 137, 138, 139]),
        p::<(E, &G<140>, &G<141>, &G<142>, &G<143>, &G<144>, &G<145>, &G<146>, &G<147>,), ()>(&[140, 141, 142, 143, 144, 145, 146, 147], &[]),
        p::<(E, &G<140>, &G<141>, &G<142>, &G<143>,), (&G<144>, &G<145>, &G<146>, &G<147>,)>(&[140, 141, 142, 143], &[144, 145, 146, 147]),
        p::<(E, &G<148>, &G<149>, &G<150>, &G<151>, &G<152>, &G<153>, &G<154>, &G<155>,), ()>(&[148, 149, 150, 151, 152, 153, 154, 155], &[]),
        p::<(E, &G<148>, &G<149>, &G<150>, &G<151>,), (&G<152>, &G<153>, &G<154>, &G<155>,)>(&[148, 149, 150, 151], &[152, 153, 154, 155]),
        p::<(E, &G<156>, &G<157>, &G<158>, &G<159>, &G<160>, &G<161>, &G<162>, &G<163>,), ()>(&[156, 157, 158, 159, 160, 161, 162, 163], &[]),
        p::<(E, &G<156>, &G<157>, &G<158>, &G<159>,), (&G<160>, &G<161>, &G<162>, &G<163>,)>(&[156, 157, 158, 159], &[160, 161, 162, 163]),
        p::<(E, &G<164>, &G<165>, &G<166>, &G<167>, &G<168>, &G<169>, &G<170>, &G<171>,), ()>(&[164, 165, 166, 167, 168, 169, 170, 171], &[]),
        p::<(E, &G<164>, &G<165>, &G<166>, &G<167>,), (&G<168>, &G<169>, &G<170>, &G<171>,)>(&[164, 165, 166, 167], &[168, 169, 170, 171]),
        p::<(E, &G<172>, &G<173>, &G<174>, &G<175>, &G<176>, &G<177>, &G<178>, &G<179>,), ()>(&[172, 173, 174, 175, 176, 177, 178, 179], &[]),
        p::<(E, &G<172>, &G<173>, &G<174>, &G<175>,), (&G<176>, &G<177>, &G<178>, &G<179>,)>(&[172, 173, 174, 175], &[176, 177, 178, 179]),
        p::<(E, &G<180>, &G<181>, &G<182>, &G<183>, &G<184>, &G<185>, &G<186>, &G<187>,), ()>(&[180, 181, 182, 183, 184, 185, 186, 187], &[]),
        p::<(E, &G<180>, &G<181>, &G<182>, &G<183>,), (&G<184>, &G<185>, &G<186>, &G<187>,)>(&[180, 181, 182, 183], &[184, 185, 186, 187]),
        p::<(E, &G<188>, &G<189>, &G<190>, &G<191>, &G<192>, &G<193>, &G<194>, &G<195>,), ()>(&[188, 189, 190, 191, 192, 193, 194, 195], &[]),
        p::<(E, &G<188>, &G<189>, &G<190>, &G<191>,), (&G<192>, &G<193>, &G<194>, &G<195>,)>(&[188, 189, 190, 191], &[192, 193, 194, 195]),
        p::<(E, &G<196>, &G<197>, &G<198>, &G<199>, &G<200>, &G<201>, &G<202>, &G<203>,), ()>(&[196, 197, 198, 199, 200, 201, 202, 203], &[]),
        p::<(E, &G<196>, &G<197>, &G<198>, &G<199>,), (&G<200>, &G<201>, &G<202>, &G<203>,)>(&[196, 197, 198, 199], &[200, 201, 202, 203]),
        p::<(E, &G<204>, &G<205>, &G<206>, &G<207>, &G<208>, &G<209>, &G<210>, &G<211>,), ()>(&[204, 205, 206, 207, 208, 209, 210, 211], &[]),
        p::<(E, &G<204>, &G<205>, &G<206>, &G<207>,), (&G<208>, &G<209>, &G<210>, &G<211>,)>(&[204, 205, 206, 207], &[208, 209, 210, 211]),
        p::<(E, &G<212>, &G<213>, &G<214>, &G<215>, &G<216>, &G<217>, &G<218>, &G<219>,), ()>(&[212, 213, 214, 215, 216, 217, 218, 219], &[]),
        p::<(E, &G<212>, &G<213>, &G<214>, &G<215>,), (&G<216>, &G<217>, &G<218>, &G<219>,)>(&[212, 213, 214, 215], &[216, 217, 218, 219]),
        p::<(E, &G<220>, &G<221>, &G<222>, &G<223>, &G<224>, &G<225>, &G<226>, &G<227>,), ()>(&[220, 221, 222, 223, 224, 225, 226, 227], &[]),
        p::<(E, &G<220>, &G<221>, &G<222>, &G<223>,), (&G<224>, &G<225>, &G<226>, &G<227>,)>(&[220, 221, 222, 223], &[224, 225, 226, 227]),
    ]
}

pub fn descriptors() -> Vec<(usize, fn(&mut sparsey::component::GroupLayout), fn() -> sparsey::World)> {
    vec![
        (2, |l| l.add_group::<(G<0>, G<1>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>)>().build()),
        (3, |l| l.add_group::<(G<0>, G<1>, G<2>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>)>().build()),
        (4, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>)>().build()),
        (5, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>)>().build()),
        (6, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>)>().build()),
        (7, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>)>().build()),
        (8, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>)>().build()),
        (9, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>)>().build()),
        (10, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>)>().build()),
        (11, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>)>().build()),
        (12, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>, G<11>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>, G<11>)>().build()),
        (13, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>, G<11>, G<12>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>, G<11>, G<12>)>().build()),
        (14, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>, G<11>, G<12>, G<13>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>, G<11>, G<12>, G<13>)>().build()),
        (15, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>, G<11>, G<12>, G<13>, G<14>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>, G<11>, G<12>, G<13>, G<14>)>().build()),
        (16, |l| l.add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>, G<11>, G<12>, G<13>, G<14>, G<15>)>(), || sparsey::World::builder().add_group::<(G<0>, G<1>, G<2>, G<3>, G<4>, G<5>, G<6>, G<7>, G<8>, G<9>, G<10>, G<11>, G<12>, G<13>, G<14>, G<15>)>().build()),
    ]
}

pub fn comps_low() -> Vec<Comp> {
    vec![
        comp::<0>(),
        comp::<1>(),
        comp::<2>(),
        comp::<3>(),
        comp::<4>(),
        comp::<5>(),
        comp::<6>(),
        comp::<7>(),
        comp::<8>(),
        comp::<9>(),
        comp::<10>(),
        comp::<11>(),
        comp::<12>(),
        comp::<13>(),
        comp::<14>(),
        comp::<15>(),
        comp::<16>(),
        comp::<17>(),
        comp::<18>(),
        comp::<19>(),
    ]
}

pub fn comps_high() -> Vec<Comp> {
    vec![
        comp::<100>(),
        comp::<101>(),
        comp::<102>(),
        comp::<103>(),
        comp::<104>(),
        comp::<105>(),
        comp::<106>(),
        comp::<107>(),
        comp::<108>(),
        comp::<109>(),
        comp::<110>(),
        comp::<111>(),
        comp::<112>(),
        comp::<113>(),
        comp::<114>(),
        comp::<115>(),
        comp::<116>(),
        comp::<117>(),
        comp::<118>(),
        comp::<119>(),
        comp::<120>(),
        comp::<121>(),
        comp::<122>(),
        comp::<123>(),
        comp::<124>(),
        comp::<125>(),
        comp::<126>(),
        comp::<127>(),
        comp::<128>(),
        comp::<129>(),
        comp::<130>(),
        comp::<131>(),
        comp::<132>(),
        comp::<133>(),
        comp::<134>(),
        comp::<135>(),
        comp::<136>(),
        comp::<137>(),
        comp::<138>(),
        comp::<139>(),
        comp::<140>(),
        comp::<141>(),
        comp::<142>(),
        comp::<143>(),
        comp::<144>(),
        comp::<145>(),
        comp::<146>(),
        comp::<147>(),
        comp::<148>(),
        comp::<149>(),
        comp::<150>(),
        comp::<151>(),
        comp::<152>(),
        comp::<153>(),
        comp::<154>(),
        comp::<155>(),
        comp::<156>(),
        comp::<157>(),
        comp::<158>(),
        comp::<159>(),
        comp::<160>(),
        comp::<161>(),
        comp::<162>(),
        comp::<163>(),
        comp::<164>(),
        comp::<165>(),
        comp::<166>(),
        comp::<167>(),
        comp::<168>(),
        comp::<169>(),
        comp::<170>(),
        comp::<171>(),
        comp::<172>(),
        comp::<173>(),
        comp::<174>(),
        comp::<175>(),
        comp::<176>(),
        comp::<177>(),
        comp::<178>(),
        comp::<179>(),
        comp::<180>(),
        comp::<181>(),
        comp::<182>(),
        comp::<183>(),
        comp::<184>(),
        comp::<185>(),
        comp::<186>(),
        comp::<187>(),
        comp::<188>(),
        comp::<189>(),
        comp::<190>(),
        comp::<191>(),
        comp::<192>(),
        comp::<193>(),
        comp::<194>(),
        comp::<195>(),
        comp::<196>(),
        comp::<197>(),
        comp::<198>(),
        comp::<199>(),
        comp::<200>(),
        comp::<201>(),
        comp::<202>(),
        comp::<203>(),
        comp::<204>(),
        comp::<205>(),
        comp::<206>(),
        comp::<207>(),
        comp::<208>(),
        comp::<209>(),
        comp::<210>(),
        comp::<211>(),
        comp::<212>(),
        comp::<213>(),
        comp::<214>(),
        comp::<215>(),
        comp::<216>(),
        comp::<217>(),
        comp::<218>(),
        comp::<219>(),
        comp::<220>(),
        comp::<221>(),
        comp::<222>(),
        comp::<223>(),
        comp::<224>(),
        comp::<225>(),
        comp::<226>(),
        comp::<227>(),
    ]
}
