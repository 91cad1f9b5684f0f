use crate::engine::Prop;

pub mod drops;
pub mod entity;
pub mod fetch;
pub mod joins;
pub mod large;
pub mod large_alloc;
pub mod large_world;
pub mod m01;
pub mod many_types;
pub mod own;
pub mod progs;
pub mod res;
pub mod storage;
pub mod systems;
pub mod threads;
pub mod tok;
pub mod val;
pub mod world;

macro_rules! props {
    ($($id:literal => $f:path),* $(,)?) => {
        pub const IDS: &[&str] = &[$($id),*];

        pub fn get(id: &str) -> Option<Prop> {
            match id {
                $($id => Some($f()),)*
                _ => None,
            }
        }
    };
}

props! {
    "E01" => entity::e01,
    "E02" => entity::e02,
    "E03" => threads::e03,
    "E04" => entity::e04,
    "J01" => joins::j01,
    "J02" => joins::j02,
    "J03" => joins::j03,
    "M01" => m01::m01,
    "R01" => res::r01,
    "R02" => fetch::r02,
    "R03" => fetch::r03,
    "R04" => res::r04,
    "S01" => storage::s01,
    "S02" => world::s02,
    "S03" => storage::s03,
    "S04" => storage::s04,
    "W01" => world::w01,
    "W02" => world::w02,
    "W03" => world::w03,
    "Y01" => systems::y01,
    "Y02" => systems::y02,
    "Y03" => systems::y03,
}
