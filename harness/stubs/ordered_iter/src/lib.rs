//! Stand-in for the (unfetchable) crate `ordered_iter`: only the marker traits stable_bst names.
pub trait OrderedMapIterator: Iterator {
    type Key;
    type Val;
}
pub trait OrderedSetIterator: Iterator {}
