pub mod docs;
pub mod misc;
pub mod notations;
pub mod panes;

use crate::explore::Universe;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub universes: fn(Tier) -> Vec<Universe>,
    pub assumptions: &'static [&'static str],
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(docs::props());
    v.extend(panes::props());
    v.extend(notations::props());
    v.extend(misc::props());
    v
}
