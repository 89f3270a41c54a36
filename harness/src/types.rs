//! Derived message and state types under observation: together they use every
//! feature of the derive macro.

use std::collections::HashMap;

use steit::{
    rt::Runtime,
    state::State,
    steit_derive,
    types::{Bytes, List, Map, Maybe},
};

use crate::gen::*;
use crate::probe::*;
use crate::rng::Rng;
use crate::val::*;

// Messages without runtime.

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
pub struct Empty {}
w_struct! { Empty, hash, new {} }

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters)]
pub struct Inner {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub b: i32,
}
w_struct! { Inner, hash, new { 0 x a set_a [i32]; 1 x b set_b [i32]; } }

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters, no_meta)]
pub struct Msg {
    #[steit(tag = 0)]
    pub a: u32,
    #[steit(tag = 2)]
    pub b: i64,
    #[steit(tag = 1)]
    pub c: String,
    #[steit(tag = 7)]
    pub d: Vec<i32>,
    #[steit(tag = 15)]
    pub e: Option<Inner>,
    #[steit(tag = 16)]
    pub f: bool,
    #[steit(tag = 2047)]
    pub g: Bytes,
    #[steit(tag = 2048)]
    pub h: (u8, String),
    #[steit(tag = 536870911)]
    pub i: [u16; 3],
    #[steit(tag = 20)]
    pub j: Inner,
    #[steit(tag = 21)]
    pub k: Option<u8>,
    #[steit(tag = 22)]
    pub l: Vec<Inner>,
}
w_struct! { Msg, hash, new {
    0 x a set_a [u32];
    2 x b set_b [i64];
    1 x c set_c [String];
    7 x d set_d [Vec<i32>];
    15 x e set_e [Option<Inner>];
    16 x f set_f [bool];
    2047 x g set_g [Bytes];
    2048 x h set_h [(u8, String)];
    536870911 x i set_i [[u16; 3]];
    20 x j set_j [Inner];
    21 x k set_k [Option<u8>];
    22 x l set_l [Vec<Inner>];
} }

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters, no_size_cache, ctor_prefix = "create")]
pub struct Uncached(
    #[steit(tag = 3)] pub u8,
    #[steit(tag = 1)] pub Inner,
    #[steit(tag = 2)] pub Vec<Inner>,
);
w_struct! { Uncached, hash, create { 3 x 0 set_f0 [u8]; 1 x 1 set_f1 [Inner]; 2 x 2 set_f2 [Vec<Inner>]; } }

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters, size_cache_renamed = "my_cache")]
pub struct Outer {
    #[steit(tag = 1)]
    pub size: Inner,
    #[steit(tag = 2)]
    pub un: Uncached,
    #[steit(tag = 3)]
    pub deep: Vec<Vec<Inner>>,
    #[steit(tag = 4)]
    pub opt: Option<Option<Inner>>,
    #[steit(tag = 5, no_hash)]
    pub nohash: u16,
    #[steit(tag = 6, no_eq_hash)]
    pub noeq: u16,
    #[steit(tag = 8)]
    pub e: Choice,
    #[steit(tag = 9)]
    pub b: Box<Inner>,
}
w_struct! { Outer, hash, new {
    1 x size set_size [Inner];
    2 x un set_un [Uncached];
    3 x deep set_deep [Vec<Vec<Inner>>];
    4 x opt set_opt [Option<Option<Inner>>];
    5 no_hash nohash set_nohash [u16];
    6 no_eq_hash noeq set_noeq [u16];
    8 x e set_e [Choice];
    9 x b set_b [Box<Inner>];
} }

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters)]
pub enum Choice {
    #[steit(tag = 5)]
    One(#[steit(tag = 0)] u32, #[steit(tag = 1)] Inner),
    #[steit(tag = 0)]
    Zero,
    #[steit(tag = 200)]
    #[steit(no_size_cache)]
    Many {
        #[steit(tag = 0)]
        xs: Vec<Inner>,
        #[steit(tag = 3)]
        y: i8,
    },
    #[steit(tag = 1)]
    Str {
        #[steit(tag = 0)]
        s: String,
    },
}
w_enum! { Choice, Choice, hash, new {
    5 One new_one { 0 x 0 set_one_f0 [u32]; 1 x 1 set_one_f1 [Inner]; }
    0 Zero new_zero {}
    200 Many new_many { 0 x xs set_many_xs [Vec<Inner>]; 3 x y set_many_y [i8]; }
    1 Str new_str { 0 x s set_str_s [String]; }
} }

#[steit_derive(Clone, PartialEq, Serialize, Deserialize)]
#[steit(derive_setters, no_meta)]
pub struct Tables {
    #[steit(tag = 0)]
    pub m: HashMap<u8, i8>,
    #[steit(tag = 1)]
    pub n: HashMap<String, Vec<u32>>,
    #[steit(tag = 2)]
    pub o: HashMap<i16, Inner>,
    #[steit(tag = 3)]
    pub p: Vec<HashMap<u8, u8>>,
}
w_struct! { Tables, nohash, new {
    0 x m set_m [HashMap<u8, i8>];
    1 x n set_n [HashMap<String, Vec<u32>>];
    2 x o set_o [HashMap<i16, Inner>];
    3 x p set_p [Vec<HashMap<u8, u8>>];
} }

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters)]
pub struct Pair<A, B> {
    #[steit(tag = 0)]
    pub first: A,
    #[steit(tag = 1)]
    pub second: B,
}
w_struct! { Pair<Inner, Vec<u64>>, hash, new { 0 x first set_first [Inner]; 1 x second set_second [Vec<u64>]; } }
w_struct! { Pair<Choice, bool>, hash, new { 0 x first set_first [Choice]; 1 x second set_second [bool]; } }

/// Tags around every length of a tag.
#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters)]
pub struct Far {
    #[steit(tag = 536870911)]
    pub a: u8,
    #[steit(tag = 262143)]
    pub b: Inner,
    #[steit(tag = 262144)]
    pub c: i64,
    #[steit(tag = 33554431)]
    pub d: FarChoice,
    #[steit(tag = 33554432)]
    pub e: bool,
    #[steit(tag = 0)]
    pub f: Vec<Inner>,
    #[steit(tag = 127)]
    pub g: Option<u8>,
    #[steit(tag = 128)]
    pub h: String,
}
w_struct! { Far, hash, new {
    536870911 x a set_a [u8];
    262143 x b set_b [Inner];
    262144 x c set_c [i64];
    33554431 x d set_d [FarChoice];
    33554432 x e set_e [bool];
    0 x f set_f [Vec<Inner>];
    127 x g set_g [Option<u8>];
    128 x h set_h [String];
} }

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters)]
pub enum FarChoice {
    #[steit(tag = 127)]
    A(#[steit(tag = 0)] u8),
    #[steit(tag = 128)]
    B(#[steit(tag = 15)] Inner, #[steit(tag = 16)] u64),
    #[steit(tag = 0)]
    C(#[steit(tag = 2048)] i8, #[steit(tag = 1)] String),
    #[steit(tag = 16383)]
    D {},
    #[steit(tag = 16384)]
    E(#[steit(tag = 262144)] Vec<u8>),
    #[steit(tag = 2097151)]
    F(#[steit(tag = 0)] bool),
    #[steit(tag = 2097152)]
    #[steit(no_size_cache)]
    G(#[steit(tag = 1)] Inner),
    #[steit(tag = 268435456)]
    H(#[steit(tag = 0)] Option<Inner>),
    #[steit(tag = 536870911)]
    I(#[steit(tag = 536870911)] i16),
}
w_enum! { FarChoice, FarChoice, hash, new {
    127 A new_a { 0 x 0 set_a_f0 [u8]; }
    128 B new_b { 15 x 0 set_b_f0 [Inner]; 16 x 1 set_b_f1 [u64]; }
    0 C new_c { 2048 x 0 set_c_f0 [i8]; 1 x 1 set_c_f1 [String]; }
    16383 D new_d {}
    16384 E new_e { 262144 x 0 set_e_f0 [Vec<u8>]; }
    2097151 F new_f { 0 x 0 set_f_f0 [bool]; }
    2097152 G new_g { 1 x 0 set_g_f0 [Inner]; }
    268435456 H new_h { 0 x 0 set_h_f0 [Option<Inner>]; }
    536870911 I new_i { 536870911 x 0 set_i_f0 [i16]; }
} }

/// With many fields, out of order.
#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters, reserved_tags(21, 22))]
pub struct Wide {
    #[steit(tag = 3)]
    pub a: u8,
    #[steit(tag = 1)]
    pub b: i64,
    #[steit(tag = 2)]
    pub c: bool,
    #[steit(tag = 9)]
    pub d: String,
    #[steit(tag = 4)]
    pub e: Inner,
    #[steit(tag = 12)]
    pub f: Vec<u16>,
    #[steit(tag = 5)]
    pub g: Option<i8>,
    #[steit(tag = 6)]
    pub h: u32,
    #[steit(tag = 31)]
    pub i: Choice,
    #[steit(tag = 7)]
    pub j: Bytes,
    #[steit(tag = 8)]
    pub k: i32,
    #[steit(tag = 10)]
    pub l: u64,
    #[steit(tag = 11)]
    pub m: u8,
    #[steit(tag = 13)]
    pub n: i64,
    #[steit(tag = 14)]
    pub o: bool,
    #[steit(tag = 16)]
    pub p: String,
    #[steit(tag = 15)]
    pub q: Inner,
    #[steit(tag = 17)]
    pub r: Vec<u16>,
    #[steit(tag = 64)]
    pub s: Option<i8>,
    #[steit(tag = 18)]
    pub t: u32,
    #[steit(tag = 19)]
    pub u: Choice,
    #[steit(tag = 127)]
    pub v: Bytes,
    #[steit(tag = 20)]
    pub w: i32,
    #[steit(tag = 0)]
    pub x: u64,
}
w_struct! { Wide, hash, new {
    3 x a set_a [u8];
    1 x b set_b [i64];
    2 x c set_c [bool];
    9 x d set_d [String];
    4 x e set_e [Inner];
    12 x f set_f [Vec<u16>];
    5 x g set_g [Option<i8>];
    6 x h set_h [u32];
    31 x i set_i [Choice];
    7 x j set_j [Bytes];
    8 x k set_k [i32];
    10 x l set_l [u64];
    11 x m set_m [u8];
    13 x n set_n [i64];
    14 x o set_o [bool];
    16 x p set_p [String];
    15 x q set_q [Inner];
    17 x r set_r [Vec<u16>];
    64 x s set_s [Option<i8>];
    18 x t set_t [u32];
    19 x u set_u [Choice];
    127 x v set_v [Bytes];
    20 x w set_w [i32];
    0 x x set_x [u64];
} }

/// With many variants, the default one last.
#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters)]
pub enum Variants {
    #[steit(tag = 9)]
    A,
    #[steit(tag = 8)]
    B { #[steit(tag = 1)] value: Inner },
    #[steit(tag = 7)]
    C(#[steit(tag = 6)] Vec<Inner>, #[steit(tag = 5)] u8, #[steit(tag = 4)] String, #[steit(tag = 3)] Inner, #[steit(tag = 2)] i32),
    #[steit(tag = 6)]
    #[steit(size_cache_renamed = "cache")]
    D { #[steit(tag = 0)] it: u64, #[steit(tag = 1)] field_no: u8, #[steit(tag = 2)] value: bool },
    #[steit(tag = 5)]
    E {},
    #[steit(tag = 4)]
    F(#[steit(tag = 0)] Option<Inner>, #[steit(tag = 1)] Box<Inner>),
    #[steit(tag = 3)]
    G(#[steit(tag = 0)] bool),
    #[steit(tag = 2)]
    H { #[steit(tag = 2)] z: i8, #[steit(tag = 1)] y: i16, #[steit(tag = 0)] x: i64 },
    #[steit(tag = 1)]
    #[steit(no_size_cache)]
    I(#[steit(tag = 0)] Vec<u32>),
    #[steit(tag = 0)]
    J { #[steit(tag = 1)] only: u16 },
}
w_enum! { Variants, Variants, hash, new {
    9 A new_a {}
    8 B new_b { 1 x value set_b_value [Inner]; }
    7 C new_c { 6 x 0 set_c_f0 [Vec<Inner>]; 5 x 1 set_c_f1 [u8]; 4 x 2 set_c_f2 [String]; 3 x 3 set_c_f3 [Inner]; 2 x 4 set_c_f4 [i32]; }
    6 D new_d { 0 x it set_d_it [u64]; 1 x field_no set_d_field_no [u8]; 2 x value set_d_value [bool]; }
    5 E new_e {}
    4 F new_f { 0 x 0 set_f_f0 [Option<Inner>]; 1 x 1 set_f_f1 [Box<Inner>]; }
    3 G new_g { 0 x 0 set_g_f0 [bool]; }
    2 H new_h { 2 x z set_h_z [i8]; 1 x y set_h_y [i16]; 0 x x set_h_x [i64]; }
    1 I new_i { 0 x 0 set_i_f0 [Vec<u32>]; }
    0 J new_j { 1 x only set_j_only [u16]; }
} }

/// A single variant.
#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters)]
pub enum Lone {
    #[steit(tag = 0)]
    It(#[steit(tag = 1)] Wide),
}
w_enum! { Lone, Lone, hash, new {
    0 It new_it { 1 x 0 set_it_f0 [Wide]; }
} }

/// Messages within messages.
#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize)]
#[steit(derive_setters, no_meta)]
pub struct Deep {
    #[steit(tag = 1)]
    pub a: Pair<Pair<Inner, Variants>, Pair<Lone, Vec<Variants>>>,
    #[steit(tag = 2)]
    pub b: (Variants, Option<Pair<u8, Lone>>, [Variants; 2]),
}
w_struct! { Deep, hash, new {
    1 x a set_a [Pair<Pair<Inner, Variants>, Pair<Lone, Vec<Variants>>>];
    2 x b set_b [(Variants, Option<Pair<u8, Lone>>, [Variants; 2])];
} }
w_struct! { Pair<Pair<Inner, Variants>, Pair<Lone, Vec<Variants>>>, hash, new {
    0 x first set_first [Pair<Inner, Variants>]; 1 x second set_second [Pair<Lone, Vec<Variants>>];
} }
w_struct! { Pair<Inner, Variants>, hash, new { 0 x first set_first [Inner]; 1 x second set_second [Variants]; } }
w_struct! { Pair<Lone, Vec<Variants>>, hash, new { 0 x first set_first [Lone]; 1 x second set_second [Vec<Variants>]; } }
w_struct! { Pair<u8, Lone>, hash, new { 0 x first set_first [u8]; 1 x second set_second [Lone]; } }

// States.

#[steit_derive(Clone, PartialEq, Eq, Hash, State)]
pub struct Leaf {
    #[steit(tag = 0)]
    pub x: i32,
    #[steit(tag = 1)]
    pub on: bool,
}
s_struct! { Leaf, hash, new { 0 x x set_x set_x_with [i32]; 1 x on set_on set_on_with [bool]; } }

#[steit_derive(Clone, PartialEq, Eq, Hash, State)]
pub struct Coord(#[steit(tag = 2)] pub u8, #[steit(tag = 0)] pub Leaf, #[steit(tag = 9)] pub u64);
s_struct! { Coord, hash, new { 2 x 0 set_f0 set_f0_with [u8]; 0 x 1 set_f1 set_f1_with [Leaf]; 9 x 2 set_f2 set_f2_with [u64]; } }

#[steit_derive(Clone, PartialEq, Eq, Hash, State)]
pub enum Shape {
    #[steit(tag = 1)]
    Circle {
        #[steit(tag = 0)]
        r: u32,
        #[steit(tag = 1)]
        at: Leaf,
    },
    #[steit(tag = 0)]
    Dot,
    #[steit(tag = 130)]
    #[steit(no_size_cache)]
    Poly {
        #[steit(tag = 3)]
        pts: List<Leaf>,
        #[steit(tag = 4)]
        w: i16,
    },
    #[steit(tag = 2)]
    Pair(#[steit(tag = 0)] i64, #[steit(tag = 1)] Coord),
}
s_enum! { Shape, Shape, hash, new {
    1 Circle new_circle { 0 x r set_circle_r set_circle_r_with [u32]; 1 x at set_circle_at set_circle_at_with [Leaf]; }
    0 Dot new_dot {}
    130 Poly new_poly { 3 x pts set_poly_pts set_poly_pts_with [List<Leaf>]; 4 x w set_poly_w set_poly_w_with [i16]; }
    2 Pair new_pair { 0 x 0 set_pair_f0 set_pair_f0_with [i64]; 1 x 1 set_pair_f1 set_pair_f1_with [Coord]; }
} }

/// An enum holding an enum.
#[steit_derive(Clone, PartialEq, State)]
#[steit(runtime_renamed = "my_runtime")]
pub enum Nest {
    #[steit(tag = 0)]
    Flat {
        #[steit(tag = 0)]
        shape: Shape,
        #[steit(tag = 1)]
        b: Box<Shape>,
    },
    #[steit(tag = 7)]
    Wide {
        #[steit(tag = 0)]
        shapes: List<Shape>,
        #[steit(tag = 1)]
        by: Map<u8, Shape>,
    },
}
s_enum! { Nest, Nest, nohash, new {
    0 Flat new_flat { 0 x shape set_flat_shape set_flat_shape_with [Shape]; 1 x b set_flat_b set_flat_b_with [Box<Shape>]; }
    7 Wide new_wide { 0 x shapes set_wide_shapes set_wide_shapes_with [List<Shape>]; 1 x by set_wide_by set_wide_by_with [Map<u8, Shape>]; }
} }

#[steit_derive(Clone, PartialEq, State)]
#[steit(no_meta)]
pub struct World {
    #[steit(tag = 0)]
    pub n: u32,
    #[steit(tag = 1)]
    pub leaf: Leaf,
    #[steit(tag = 2)]
    pub xs: List<Leaf>,
    #[steit(tag = 3)]
    pub m: Map<u16, Leaf>,
    #[steit(tag = 4)]
    pub s: Shape,
    #[steit(tag = 5)]
    pub o: Maybe<Leaf>,
    #[steit(tag = 6)]
    pub b: Box<Shape>,
    #[steit(tag = 8)]
    pub ml: Map<u8, List<i32>>,
    #[steit(tag = 300)]
    pub i: i8,
    #[steit(tag = 9)]
    pub ls: List<Shape>,
    #[steit(tag = 10)]
    pub mk: Map<Key, Maybe<i32>>,
    #[steit(tag = 11)]
    pub ll: List<List<u64>>,
    #[steit(tag = 12)]
    pub lb: List<Box<Shape>>,
    #[steit(tag = 13)]
    pub mp: Map<u32, u16>,
    #[steit(tag = 14)]
    pub c: Coord,
    #[steit(tag = 15)]
    pub ob: Maybe<bool>,
    #[steit(tag = 16)]
    pub ol: Maybe<List<u16>>,
    #[steit(tag = 17)]
    pub os: Maybe<Shape>,
    #[steit(tag = 18)]
    pub lm: List<Map<u8, Leaf>>,
}
s_struct! { World, nohash, new {
    0 x n set_n set_n_with [u32];
    1 x leaf set_leaf set_leaf_with [Leaf];
    2 x xs set_xs set_xs_with [List<Leaf>];
    3 x m set_m set_m_with [Map<u16, Leaf>];
    4 x s set_s set_s_with [Shape];
    5 x o set_o set_o_with [Maybe<Leaf>];
    6 x b set_b set_b_with [Box<Shape>];
    8 x ml set_ml set_ml_with [Map<u8, List<i32>>];
    300 x i set_i set_i_with [i8];
    9 x ls set_ls set_ls_with [List<Shape>];
    10 x mk set_mk set_mk_with [Map<Key, Maybe<i32>>];
    11 x ll set_ll set_ll_with [List<List<u64>>];
    12 x lb set_lb set_lb_with [List<Box<Shape>>];
    13 x mp set_mp set_mp_with [Map<u32, u16>];
    14 x c set_c set_c_with [Coord];
    15 x ob set_ob set_ob_with [Maybe<bool>];
    16 x ol set_ol set_ol_with [Maybe<List<u16>>];
    17 x os set_os set_os_with [Maybe<Shape>];
    18 x lm set_lm set_lm_with [List<Map<u8, Leaf>>];
} }

/// Recursive through a list and a map.
#[steit_derive(Clone, PartialEq, State)]
#[steit(no_meta)]
pub struct Tree {
    #[steit(tag = 0)]
    pub v: u8,
    #[steit(tag = 1)]
    pub kids: List<Tree>,
    #[steit(tag = 2)]
    pub by: Map<u8, Tree>,
}
s_struct! { Tree, nohash, new {
    0 x v set_v set_v_with [u8];
    1 x kids set_kids set_kids_with [List<Tree>];
    2 x by set_by set_by_with [Map<u8, Tree>];
} }

/// With a field that the log does not track.
#[steit_derive(Clone, PartialEq, Hash, State)]
pub struct Mixed {
    #[steit(tag = 0)]
    pub id: u32,
    #[steit(tag = 1, no_state)]
    pub name: String,
    #[steit(tag = 2)]
    pub leaf: Leaf,
    #[steit(tag = 3, no_state)]
    pub raw: Vec<Inner>,
}
s_struct! { Mixed, hash, new {
    0 x id set_id set_id_with [u32];
    1 no_state name set_name set_name [String];
    2 x leaf set_leaf set_leaf_with [Leaf];
    3 no_state raw set_raw set_raw [Vec<Inner>];
} }

#[steit_derive(Clone, PartialEq, Hash, State)]
pub struct GPair<A: State, B: State> {
    #[steit(tag = 0)]
    pub first: A,
    #[steit(tag = 1)]
    pub second: B,
}
s_struct! { GPair<Shape, List<Coord>>, hash, new {
    0 x first set_first set_first_with [Shape];
    1 x second set_second set_second_with [List<Coord>];
} }

/// States with large tags.
#[steit_derive(Clone, PartialEq, State)]
pub struct FarState {
    #[steit(tag = 536870911)]
    pub a: Leaf,
    #[steit(tag = 262144)]
    pub b: List<Leaf>,
    #[steit(tag = 2048)]
    pub c: FarShape,
    #[steit(tag = 33554432)]
    pub d: Map<u32, FarShape>,
    #[steit(tag = 16)]
    pub e: u16,
    #[steit(tag = 100000)]
    pub f: List<List<u8>>,
}
s_struct! { FarState, nohash, new {
    536870911 x a set_a set_a_with [Leaf];
    262144 x b set_b set_b_with [List<Leaf>];
    2048 x c set_c set_c_with [FarShape];
    33554432 x d set_d set_d_with [Map<u32, FarShape>];
    16 x e set_e set_e_with [u16];
    100000 x f set_f set_f_with [List<List<u8>>];
} }

#[steit_derive(Clone, PartialEq, State)]
pub enum FarShape {
    #[steit(tag = 16384)]
    A(#[steit(tag = 300)] Leaf, #[steit(tag = 0)] i8),
    #[steit(tag = 0)]
    B(#[steit(tag = 2097152)] u64, #[steit(tag = 1)] Leaf),
    #[steit(tag = 536870911)]
    C(#[steit(tag = 2)] List<Leaf>),
}
s_enum! { FarShape, FarShape, nohash, new {
    16384 A new_a { 300 x 0 set_a_f0 set_a_f0_with [Leaf]; 0 x 1 set_a_f1 set_a_f1_with [i8]; }
    0 B new_b { 2097152 x 0 set_b_f0 set_b_f0_with [u64]; 1 x 1 set_b_f1 set_b_f1_with [Leaf]; }
    536870911 C new_c { 2 x 0 set_c_f0 set_c_f0_with [List<Leaf>]; }
} }

/// Variants with fields that the log does not track, and renamed fields of the runtime.
#[steit_derive(Clone, PartialEq, Hash, State)]
#[steit(size_cache_renamed = "cached")]
pub enum Odd {
    #[steit(tag = 3)]
    #[steit(runtime_renamed = "rt_of_a")]
    A {
        #[steit(tag = 4)]
        leaf: Leaf,
        #[steit(tag = 1, no_state)]
        name: String,
        #[steit(tag = 2)]
        id: u64,
        #[steit(tag = 3, no_eq_hash)]
        note: u8,
    },
    #[steit(tag = 2)]
    #[steit(no_size_cache)]
    B(#[steit(tag = 2)] Coord, #[steit(tag = 0)] List<Coord>, #[steit(tag = 1)] i32, #[steit(tag = 3)] Box<Leaf>),
    #[steit(tag = 1)]
    #[steit(size_cache_renamed = "cc")]
    C { #[steit(tag = 0)] first: u8, #[steit(tag = 5)] kids: List<Odd>, #[steit(tag = 6)] item: Maybe<Leaf> },
    #[steit(tag = 0)]
    D,
}
s_enum! { Odd, Odd, hash, new {
    3 A new_a { 4 x leaf set_a_leaf set_a_leaf_with [Leaf]; 1 no_state name set_a_name set_a_name [String]; 2 x id set_a_id set_a_id_with [u64]; 3 no_eq_hash note set_a_note set_a_note_with [u8]; }
    2 B new_b { 2 x 0 set_b_f0 set_b_f0_with [Coord]; 0 x 1 set_b_f1 set_b_f1_with [List<Coord>]; 1 x 2 set_b_f2 set_b_f2_with [i32]; 3 x 3 set_b_f3 set_b_f3_with [Box<Leaf>]; }
    1 C new_c { 0 x first set_c_first set_c_first_with [u8]; 5 x kids set_c_kids set_c_kids_with [List<Odd>]; 6 x item set_c_item set_c_item_with [Maybe<Leaf>]; }
    0 D new_d {}
} }

/// Structs within structs, some without a size cache.
#[steit_derive(Clone, PartialEq, Hash, State)]
#[steit(no_size_cache, ctor_prefix = "make")]
pub struct Deck {
    #[steit(tag = 5)]
    pub inner: GPair<Coord, Leaf>,
    #[steit(tag = 4)]
    pub more: GPair<GPair<Coord, Leaf>, Maybe<Coord>>,
    #[steit(tag = 3)]
    pub either: GEither<Leaf, List<Leaf>>,
    #[steit(tag = 1)]
    pub a: u8,
    #[steit(tag = 2)]
    pub b: i64,
    #[steit(tag = 0)]
    pub c: bool,
}
s_struct! { Deck, hash, make {
    5 x inner set_inner set_inner_with [GPair<Coord, Leaf>];
    4 x more set_more set_more_with [GPair<GPair<Coord, Leaf>, Maybe<Coord>>];
    3 x either set_either set_either_with [GEither<Leaf, List<Leaf>>];
    1 x a set_a set_a_with [u8];
    2 x b set_b set_b_with [i64];
    0 x c set_c set_c_with [bool];
} }
s_struct! { GPair<Coord, Leaf>, hash, new { 0 x first set_first set_first_with [Coord]; 1 x second set_second set_second_with [Leaf]; } }
s_struct! { GPair<GPair<Coord, Leaf>, Maybe<Coord>>, hash, new {
    0 x first set_first set_first_with [GPair<Coord, Leaf>]; 1 x second set_second set_second_with [Maybe<Coord>];
} }

#[steit_derive(Clone, PartialEq, Hash, State)]
pub enum GEither<A: State, B: State> {
    #[steit(tag = 1)]
    Left { #[steit(tag = 0)] it: A },
    #[steit(tag = 0)]
    Right(#[steit(tag = 0)] B, #[steit(tag = 1)] u16),
}
s_enum! { GEither<Leaf, List<Leaf>>, GEither, hash, new {
    1 Left new_left { 0 x it set_left_it set_left_it_with [Leaf]; }
    0 Right new_right { 0 x 0 set_right_f0 set_right_f0_with [List<Leaf>]; 1 x 1 set_right_f1 set_right_f1_with [u16]; }
} }

/// Calls `$m!{ type… }` for every type with a codec.
#[macro_export]
macro_rules! for_wire {
    ($m:ident $f:ident) => {
        $m! { $f;
            u8, u16, u32, u64, i8, i16, i32, i64, bool, String, Bytes,
            Vec<u8>, Vec<i64>, Vec<bool>, Vec<String>, Vec<Vec<u16>>, Vec<Bytes>, Vec<Option<u8>>,
            Option<i32>, Option<u64>, Option<bool>, Option<String>, Option<Vec<u8>>, Option<Option<bool>>, Option<Inner>,
            [u16; 1], [i32; 2], [u8; 3], [bool; 4], [u64; 5], [i8; 6], [u32; 7], [Vec<i8>; 2], [Inner; 3], [String; 4], [String; 7], [Vec<u16>; 6], [Choice; 5], [String; 1], [Option<u8>; 7],
            (u8, String), (i32, Vec<u8>, bool), (Inner, u8, Inner, u64), (u8, u16, u32, u64, i8),
            (u8, Inner, Option<u8>, [u8; 2], i64, String), (u8, u8, u8, Vec<u8>, u8, u8, Inner), (String, String, Inner, Vec<u8>, Choice, String, Bytes), (Inner, Choice),
            Box<u32>, Box<Vec<u8>>, Box<Inner>, Vec<Box<i16>>,
            HashMap<u8, i8>, HashMap<String, Vec<u32>>, HashMap<i64, Inner>, Vec<HashMap<u16, bool>>,
            Empty, Inner, Msg, Uncached, Outer, Choice, Tables, Pair<Inner, Vec<u64>>, Pair<Choice, bool>,
            Vec<Msg>, Wide, Variants, Lone, Deep, Odd, Deck, List<Odd>, List<Deck>, Far, FarChoice, FarState, FarShape, Option<Outer>, Vec<Choice>, Option<Choice>,
            Leaf, Coord, Shape, Nest, World, Tree, Mixed, GPair<Shape, List<Coord>>,
            List<u8>, List<i64>, List<Leaf>, List<List<u64>>, List<Shape>, List<Maybe<i32>>, List<Box<i32>>,
            Map<u8, u8>, Map<u16, Leaf>, Map<u32, i64>, Map<u8, List<i32>>, Map<Key, Maybe<i32>>, Map<u8, Shape>,
            Maybe<bool>, Maybe<i32>, Maybe<Leaf>, Maybe<List<u16>>, Maybe<Shape>, Box<Shape>, Vec<Leaf>, Option<World>
        }
    };
}

/// Calls `$m!{ type… }` for every type that can be the root of a tracked state.
#[macro_export]
macro_rules! for_state {
    ($m:ident $f:ident) => {
        $m! { $f;
            Leaf, Coord, Shape, Nest, World, Tree, Odd, Deck, List<Odd>, Map<u8, Deck>, FarState, FarShape, GPair<Shape, List<Coord>>,
            List<u8>, List<i64>, List<Leaf>, List<List<u64>>, List<Shape>, List<Maybe<i32>>, List<Box<Shape>>,
            List<Maybe<Shape>>, List<Map<u8, Leaf>>,
            Map<u8, u8>, Map<u16, Leaf>, Map<u32, i64>, Map<u8, List<i32>>, Map<Key, Maybe<i32>>, Map<u8, Shape>,
            Map<u8, Box<Shape>>, Map<u16, Tree>,
            Maybe<bool>, Maybe<i32>, Maybe<Leaf>, Maybe<List<u16>>, Maybe<Shape>, Box<Shape>, Box<Leaf>, Box<List<Leaf>>
        }
    };
}

/// Calls `$m!{ type… }` for every derived type.
#[macro_export]
macro_rules! for_derived {
    ($m:ident $f:ident) => {
        $m! { $f;
            Empty, Inner, Msg, Uncached, Outer, Choice, Tables, Pair<Inner, Vec<u64>>, Pair<Choice, bool>,
            Wide, Variants, Lone, Deep, Odd, Deck, GEither<Leaf, List<Leaf>>, Far, FarChoice, FarState, FarShape, Leaf, Coord, Shape, Nest, World, Tree, Mixed, GPair<Shape, List<Coord>>,
            Maybe<bool>, Maybe<i32>, Maybe<Leaf>, Maybe<List<u16>>, Maybe<Shape>
        }
    };
}
