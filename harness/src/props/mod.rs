pub mod arith;
pub mod compare;
pub mod contracts;
pub mod extra;
pub mod history;
pub mod large;
pub mod manip;
pub mod names;
pub mod newer;
pub mod numbers;
pub mod util;
pub mod vast;

use crate::run::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(arith::props());
    v.extend(manip::props());
    v.extend(compare::props());
    v.extend(contracts::props());
    v.extend(numbers::props());
    v.extend(history::props());
    v.extend(names::props());
    v.extend(extra::props());
    v.sort_by(|a, b| a.id.cmp(b.id));
    v
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
