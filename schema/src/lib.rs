//! Messages whose derived code is put under contract (contracts/6*.vt): together they use every
//! shape the derive macro tells apart.

use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
pub struct Empty {}

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters)]
pub struct Inner {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub b: bool,
}

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters, size_cache_renamed = "my_cache")]
pub struct Msg {
    #[steit(tag = 2)]
    pub size: u64,
    #[steit(tag = 1)]
    pub name: String,
    #[steit(tag = 536870911)]
    pub list: Vec<Inner>,
    #[steit(tag = 16, no_hash)]
    pub opt: Option<i16>,
    #[steit(tag = 15, no_eq_hash)]
    pub one: Box<Inner>,
    #[steit(tag = 7)]
    pub choice: Choice,
}

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters, no_size_cache, ctor_prefix = "create")]
pub struct Bare(
    #[steit(tag = 3)] pub u8,
    #[steit(tag = 0)] pub Vec<u32>,
);

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters)]
pub enum Choice {
    #[steit(tag = 5)]
    One(#[steit(tag = 0)] u32, #[steit(tag = 1)] Inner),
    #[steit(tag = 0)]
    Zero,
    #[steit(tag = 200)]
    #[steit(no_size_cache)]
    Many {
        #[steit(tag = 0)]
        xs: Vec<Inner>,
        #[steit(tag = 3)]
        y: i8,
    },
}

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters)]
pub struct Pair<A, B> {
    #[steit(tag = 0)]
    pub left: A,
    #[steit(tag = 1)]
    pub right: B,
}

// States.

#[steit_derive(Clone, PartialEq, Hash, State)]
pub struct Spot {
    #[steit(tag = 0)]
    pub x: i32,
    #[steit(tag = 300)]
    pub z: u64,
}

#[steit_derive(Clone, PartialEq, State)]
#[steit(runtime_renamed = "my_rt")]
pub struct Ship {
    #[steit(tag = 1)]
    pub runtime: u32,
    #[steit(tag = 0)]
    pub spot: Spot,
    #[steit(tag = 2)]
    pub cargo: List<u16>,
    #[steit(tag = 3)]
    pub bays: Map<u8, Spot>,
    #[steit(tag = 4)]
    pub mode: Mode,
    #[steit(tag = 6, no_state)]
    pub note: String,
}

#[steit_derive(Clone, PartialEq, Hash, State)]
pub enum Mode {
    #[steit(tag = 0)]
    Idle,
    #[steit(tag = 9)]
    Fly {
        #[steit(tag = 0)]
        to: Spot,
        #[steit(tag = 1)]
        speed: u8,
    },
    #[steit(tag = 2)]
    #[steit(no_size_cache)]
    Dock(#[steit(tag = 7)] List<Spot>),
}
