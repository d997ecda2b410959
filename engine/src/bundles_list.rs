// Generated by tools/gen_shapes.py.
use crate::bundles::*;
use crate::types::*;

bundles! {
    ();
    (T0, );
    (T1, );
    (T2, );
    (T3, );
    (T4, );
    (T5, );
    (T6, );
    (T7, );
    (T1, T0, );
    (T0, T1, T2, );
    (T4, T0, T1, T3, T2, );
    (T5, T3, );
    (T3, T7, T6, T5, );
    (T2, T1, T7, );
    (T1, T7, T4, T2, );
    (T2, T6, );
    (T6, T2, T0, );
    (T5, T6, T0, T2, );
    (T4, T1, );
    (T4, T3, T1, );
    (T4, T3, T1, T0, );
    (T7, T5, T4, T3, T0, T1, );
    (T0, T7, );
    (T2, T5, );
    (T3, T4, );
    (T5, T0, );
    (T2, T1, );
    (T6, T3, );
    (T7, T4, );
    (T0, T1, T7, );
    (T5, T3, T1, );
    (T2, T6, T4, );
    (T7, T5, T6, T3, );
    (T0, T2, );
    (T1, T3, T5, T7, );
    (T0, T2, T4, T6, );
    (T0, T1, T2, T3, T4, T5, T6, T7, );
    (T1, T1, );
    (T0, T3, T0, );
    (T7, T6, T5, T4, T3, T2, T1, T0, );
}
