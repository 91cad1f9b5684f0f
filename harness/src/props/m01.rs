//! M01: undefined behaviour, as the sanitizers and Miri see it.

use super::{drops, entity, fetch, joins, progs, storage, threads, world};
use crate::engine::Prop;

pub fn m01() -> Prop {
    let legs = [
        storage::memory_legs(),
        drops::memory_legs(),
        joins::memory_legs(),
        world::memory_legs(),
        entity::memory_legs(),
        threads::memory_legs(),
        fetch::memory_legs(),
        vec![progs::pairs_leg(), progs::leg(), progs::trait_leg()],
    ]
    .into_iter()
    .flatten()
    .collect();
    Prop::new("M01", legs).probe("raw-swap", progs::raw_swap)
}
