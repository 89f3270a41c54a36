//! Message definitions of many forms (written by tools/gen_csharp.py).
#![allow(non_camel_case_types, dead_code)]
use steit::{state::State, steit_derive, types::{Bytes, List, Map, Maybe}, wire_fmt::HasWireType};

#[steit_derive(Serialize, Deserialize)]
pub struct Msg0<B: HasWireType, C: HasWireType>(#[steit(tag = 128)] pub B, #[steit(tag = 0)] pub C);

#[steit_derive(Serialize, Deserialize)]
pub enum N1thing {
    #[steit(tag = 7950)]
    One {  },
    #[steit(tag = 13937263)]
    TwoThree(#[steit(tag = 1)] bool, #[steit(tag = 12)] steit::types::Bytes, #[steit(csharp_name = "renamed_field", tag = 17)] u64, #[steit(csharp_name = "KeepIt", tag = 0)] i8),
    #[steit(tag = 304376198)]
    Four4(),
    #[steit(tag = 0)]
    Xy {  },
    #[steit(tag = 764)]
    LastOne(#[steit(tag = 6)] i32),
}

#[steit_derive(Serialize, Deserialize)]
pub struct Msg2();

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "Cs3")]
pub struct Msg3 {
}

#[steit_derive(State)]
pub struct Msg4 {
    #[steit(tag = 10457, csharp_name = "x_1st")] pub r#in: Box<List<i16>>,
    #[steit(tag = 3)] pub b_c: u16,
}

#[steit_derive(State)]
#[steit(csharp_name = "c_s_5")]
pub enum Msg5 {
    #[steit(tag = 12139, csharp_name = "other_0")]
    One {  },
    #[steit(csharp_name = "Other1", tag = 138336517)]
    TwoThree(),
    #[steit(tag = 0)]
    Four4 { #[steit(tag = 127)] b_c: u64, #[steit(tag = 113)] i: i8 },
    #[steit(tag = 4117)]
    Xy(),
    #[steit(tag = 4)]
    LastOne(),
}

#[steit_derive(Serialize, Deserialize)]
pub struct Msg6 {
    #[steit(tag = 72)] pub x1: u32,
    #[steit(tag = 13685)] pub a: self::Msg5,
}

#[steit_derive(State)]
#[steit(csharp_name = "c_s_7")]
pub struct Msg7 {
    #[steit(tag = 0, csharp_name = "x_1st")] pub n2n: u32,
    #[steit(tag = 11)] pub count_of_3d: u8,
}

#[steit_derive(State)]
#[steit(csharp_name = "Cs8")]
pub enum Msg8<T: State, C: State, B: State> {
    #[steit(csharp_name = "Other0", tag = 0)]
    One { #[steit(tag = 2)] i: u32, #[steit(tag = 129, csharp_name = "under_Score")] p9_q: Maybe<T>, #[steit(tag = 0)] extra_c: C, #[steit(tag = 1)] extra_b: B },
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "Cs9")]
pub struct Msg9 {
}

#[steit_derive(State)]
#[steit(csharp_name = "Cs10")]
pub struct my_msg_10 {
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "c_s_11")]
pub struct my_msg_11 {
}

#[steit_derive(Serialize, Deserialize)]
#[steit(reserved_tags(0, 2))]
pub struct N12thing {
    #[steit(tag = 61)] pub a: (Option<std::boxed::Box<Msg6>>),
    #[steit(tag = 251641129)] pub dou__ble: self::Msg7,
    #[steit(tag = 128)] pub some_value: Bytes,
    #[steit(tag = 212030880)] pub é_a: u8,
    #[steit(tag = 355)] pub r#type: std::option::Option<std::boxed::Box<self::N12thing>>,
    #[steit(tag = 11)] pub route_: my_msg_11,
    #[steit(csharp_name = "KeepIt", tag = 5955)] pub p9_q: crate::Msg7,
    #[steit(tag = 1)] pub z: u32,
}

#[steit_derive(State)]
pub struct N13thing<K: State, A: State> {
    #[steit(csharp_name = "renamed_field", tag = 15)] pub camelCase: i64,
    #[steit(tag = 1)] pub value: List<i64>,
    #[steit(tag = 0)] pub extra_k: K,
    #[steit(tag = 2)] pub extra_a: A,
}

#[steit_derive(Serialize, Deserialize)]
pub enum my_msg_14 {
    #[steit(tag = 128, csharp_name = "Other0")]
    One(#[steit(tag = 7, csharp_name = "Renamed")] Bytes, #[steit(tag = 0)] std::vec::Vec<self::my_msg_11>),
    #[steit(tag = 0)]
    TwoThree {  },
    #[steit(tag = 7, csharp_name = "other_2")]
    Four4 { #[steit(tag = 26, csharp_name = "Renamed")] count_of_3d: [bool; 4], #[steit(tag = 536870911)] dou__ble: [Vec<bool>; 1] },
    #[steit(tag = 162983805)]
    Xy {  },
    #[steit(tag = 15)]
    LastOne(#[steit(tag = 15401)] Bytes, #[steit(tag = 102)] std::option::Option<Box<my_msg_14>>),
}

#[steit_derive(Serialize, Deserialize)]
pub enum my_msg_15 {
    #[steit(tag = 8, csharp_name = "Other0")]
    One {  },
    #[steit(tag = 7)]
    TwoThree(),
    #[steit(tag = 0)]
    Four4(),
}

#[steit_derive(State)]
pub struct N16thing<A: State, B: State> {
    #[steit(tag = 40107170)] pub p9_q: List<B>,
    #[steit(tag = 33455936)] pub x_2: List<i16>,
    #[steit(tag = 127)] pub a: crate::Msg4,
    #[steit(tag = 480973727)] pub Upper: Maybe<Maybe<Msg7>>,
    #[steit(tag = 63)] pub _lead: u16,
    #[steit(tag = 57)] pub some_value: u16,
    #[steit(tag = 492368504)] pub n2n: Msg8<A, u8, crate::N13thing<B, self::Msg5>>,
    #[steit(tag = 2, csharp_name = "renamed_field")] pub b_c: Map<u16, Map<u8, self::N13thing<i8, Msg7>>>,
}

#[steit_derive(Serialize, Deserialize)]
pub struct N17thing<A: HasWireType, K: HasWireType, T: HasWireType> {
    #[steit(tag = 128)] pub dou__ble: crate::N12thing,
    #[steit(tag = 536870911, csharp_name = "under_Score")] pub x1: i16,
    #[steit(tag = 370736275)] pub a: std::boxed::Box<T>,
    #[steit(tag = 0)] pub extra_a: A,
    #[steit(tag = 1)] pub extra_k: K,
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "Cs18")]
pub struct N18thing {
    #[steit(tag = 11375)] pub b_c: Msg8<Map<u16, N16thing<i16, u16>>, u32, self::Msg4>,
    #[steit(tag = 128)] pub i: [u16; 1],
    #[steit(tag = 0)] pub _lead: i8,
}

#[steit_derive(Serialize, Deserialize)]
#[steit(reserved_tags(2, 3))]
pub struct my_msg_19<B: HasWireType, K: HasWireType, C: HasWireType>(#[steit(tag = 9243)] pub B, #[steit(tag = 128)] pub (N13thing<u16, crate::my_msg_10>), #[steit(tag = 127)] pub u16, #[steit(tag = 536870911)] pub u8, #[steit(tag = 115925386, csharp_name = "aBC")] pub std::vec::Vec<crate::Msg9>, #[steit(tag = 0)] pub K, #[steit(tag = 1)] pub C);

#[steit_derive(Serialize, Deserialize)]
pub enum Msg20 {
    #[steit(tag = 127)]
    One { #[steit(tag = 82)] x_2: my_msg_11, #[steit(csharp_name = "Renamed", tag = 536870911)] _lead: u16, #[steit(tag = 43)] z: Vec<crate::my_msg_10>, #[steit(csharp_name = "under_Score", tag = 127)] é_a: crate::my_msg_15 },
    #[steit(csharp_name = "Other1", tag = 12992)]
    TwoThree { #[steit(tag = 37)] a_ß: String },
    #[steit(tag = 0, csharp_name = "Other2")]
    Four4 { #[steit(tag = 8679, csharp_name = "under_Score")] a_ß: N16thing<i64, u8>, #[steit(tag = 8)] x_2: String },
    #[steit(tag = 7515)]
    Xy(#[steit(tag = 1)] Option<Box<self::Msg20>>, #[steit(tag = 2)] Option<crate::N12thing>, #[steit(tag = 375180842)] std::option::Option<u16>, #[steit(tag = 536870911)] my_msg_15),
    #[steit(csharp_name = "Other4", tag = 536870911)]
    LastOne(#[steit(tag = 15890)] Bytes, #[steit(tag = 13)] my_msg_11, #[steit(tag = 2)] u8, #[steit(csharp_name = "v2_3x", tag = 5)] crate::N18thing),
}

#[steit_derive(Serialize, Deserialize)]
pub struct Msg21 {
}

#[steit_derive(State)]
#[steit(csharp_name = "Cs22")]
pub enum Msg22 {
    #[steit(tag = 1)]
    One(),
    #[steit(tag = 0)]
    TwoThree(#[steit(tag = 127)] u16),
    #[steit(tag = 127)]
    Four4(#[steit(csharp_name = "under_Score", tag = 149693672)] crate::N13thing<Map<u32, i16>, List<u8>>),
}

#[steit_derive(State)]
pub struct Msg23 {
    #[steit(tag = 49670055)] pub r#in: Map<u16, u32>,
    #[steit(tag = 2)] pub value: Msg4,
    #[steit(tag = 127)] pub z: bool,
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "c_s_24")]
pub enum my_msg_24<B: HasWireType, K: HasWireType, T: HasWireType> {
    #[steit(tag = 4)]
    One { #[steit(tag = 2, csharp_name = "_q")] dou__ble: i64, #[steit(tag = 16381)] some_value: i16, #[steit(tag = 0)] extra_b: B, #[steit(tag = 1)] extra_k: K, #[steit(tag = 3)] extra_t: T },
    #[steit(tag = 47)]
    TwoThree(),
    #[steit(csharp_name = "Other2", tag = 0)]
    Four4(),
    #[steit(tag = 536870911, csharp_name = "Other3")]
    Xy(),
    #[steit(csharp_name = "Other4", tag = 1)]
    LastOne {  },
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "c_s_25")]
pub struct Msg25 {
    #[steit(tag = 128)] pub i: Box<(u16)>,
    #[steit(csharp_name = "_q", tag = 67)] pub count_of_3d: my_msg_15,
    #[steit(tag = 52419393)] pub camelCase: u32,
    #[steit(tag = 1)] pub trail_: i32,
    #[steit(tag = 6)] pub b_c: Option<Vec<my_msg_15>>,
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "Cs26")]
pub struct Msg26<C: HasWireType> {
    #[steit(tag = 0)] pub extra_c: C,
}

#[steit_derive(Serialize, Deserialize)]
pub struct Msg27<C: HasWireType, B: HasWireType>(#[steit(tag = 61837537)] pub Msg20, #[steit(tag = 37)] pub C, #[steit(tag = 127)] pub Option<Box<Msg27<C, B>>>, #[steit(tag = 0)] pub Option<std::boxed::Box<crate::Msg27<C, B>>>, #[steit(tag = 128)] pub C, #[steit(tag = 1)] pub B);

#[steit_derive(State)]
#[steit(csharp_name = "Cs28", reserved_tags(1, 2))]
pub struct my_msg_28 {
    #[steit(tag = 0)] pub value: i32,
    #[steit(tag = 5)] pub a_ß: i8,
}

#[steit_derive(State)]
pub enum Msg29 {
    #[steit(tag = 0)]
    One { #[steit(tag = 128)] a_ß: bool },
    #[steit(csharp_name = "Other1", tag = 3)]
    TwoThree {  },
    #[steit(tag = 122)]
    Four4(#[steit(csharp_name = "v2_3x", tag = 42)] self::Msg4),
}

#[steit_derive(State)]
pub struct N30thing<C: State, B: State> {
    #[steit(tag = 0)] pub extra_c: C,
    #[steit(tag = 1)] pub extra_b: B,
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "Cs31")]
pub struct Msg31 {
    #[steit(tag = 2)] pub b_c: std::option::Option<u8>,
    #[steit(tag = 26)] pub é_a: self::Msg21,
    #[steit(tag = 18)] pub r#in: bool,
}

#[steit_derive(State)]
#[steit(reserved_tags(1, 2))]
pub struct my_msg_32<T: State, K: State, B: State> {
    #[steit(tag = 8641, csharp_name = "under_Score")] pub value: u64,
    #[steit(tag = 127)] pub a_ß: i32,
    #[steit(tag = 536870911)] pub trail_: i64,
    #[steit(tag = 19, csharp_name = "x_1st")] pub é_a: bool,
    #[steit(tag = 9571, csharp_name = "Renamed")] pub id: List<Box<u8>>,
    #[steit(csharp_name = "_q", tag = 6591)] pub Upper: Map<u8, List<u8>>,
    #[steit(csharp_name = "KeepIt", tag = 10687)] pub n2n: K,
    #[steit(tag = 128)] pub route_: B,
    #[steit(tag = 0)] pub extra_t: T,
}

#[steit_derive(State)]
#[steit(csharp_name = "c_s_33", reserved_tags(2, 3))]
pub struct Msg33<T: State, K: State> {
    #[steit(tag = 0)] pub extra_t: T,
    #[steit(tag = 1)] pub extra_k: K,
}

#[steit_derive(State)]
pub struct Msg34<B: State, C: State, T: State> {
    #[steit(tag = 74)] pub route_: i64,
    #[steit(tag = 2161)] pub count_of_3d: Maybe<i32>,
    #[steit(tag = 21)] pub a_ß: Map<u16, i64>,
    #[steit(tag = 3)] pub b_c: bool,
    #[steit(tag = 536870911)] pub é_a: B,
    #[steit(csharp_name = "Renamed", tag = 1)] pub n2n: Box<C>,
    #[steit(tag = 208519183)] pub dou__ble: i32,
    #[steit(csharp_name = "renamed_field", tag = 6913)] pub r#in: i16,
    #[steit(tag = 0)] pub extra_t: T,
}

#[steit_derive(State)]
pub struct my_msg_35<C: State, A: State> {
    #[steit(tag = 127)] pub é_a: Maybe<A>,
    #[steit(tag = 14)] pub Upper: my_msg_28,
    #[steit(tag = 0)] pub extra_c: C,
}

#[steit_derive(Serialize, Deserialize)]
pub struct my_msg_36 {
    #[steit(tag = 10)] pub i: Msg27<[i16; 4], std::boxed::Box<u32>>,
    #[steit(tag = 127)] pub route_: u16,
    #[steit(tag = 12272)] pub r#type: my_msg_24<Msg29, u64, i32>,
    #[steit(tag = 139966358)] pub _lead: u32,
    #[steit(csharp_name = "aBC", tag = 104)] pub x1: Box<crate::my_msg_32<bool, u16, i16>>,
    #[steit(tag = 23960087)] pub dou__ble: i16,
    #[steit(tag = 128, csharp_name = "Renamed")] pub some_value: Msg29,
    #[steit(tag = 15651)] pub é_a: bool,
}

#[steit_derive(Serialize, Deserialize)]
pub struct my_msg_37(#[steit(tag = 2)] pub String, #[steit(tag = 127)] pub std::option::Option<Box<my_msg_37>>);

#[steit_derive(Serialize, Deserialize)]
pub enum my_msg_38 {
    #[steit(csharp_name = "other_0", tag = 18)]
    One(),
    #[steit(tag = 128)]
    TwoThree(#[steit(tag = 128)] Box<i64>, #[steit(tag = 2)] i16, #[steit(csharp_name = "KeepIt", tag = 1)] self::Msg31, #[steit(tag = 1737)] u16),
    #[steit(tag = 0)]
    Four4(#[steit(tag = 127)] Bytes),
    #[steit(tag = 7496)]
    Xy(#[steit(tag = 80)] crate::Msg34<u16, u32, i32>, #[steit(tag = 128)] std::option::Option<std::boxed::Box<my_msg_38>>),
    #[steit(tag = 7, csharp_name = "Other4")]
    LastOne {  },
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "c_s_39")]
pub struct my_msg_39 {
    #[steit(tag = 14)] pub é_a: u16,
}

#[steit_derive(State)]
pub enum my_msg_40 {
    #[steit(tag = 14199)]
    One { #[steit(tag = 19)] i: i32, #[steit(tag = 9)] some_value: Map<u16, i16>, #[steit(csharp_name = "renamed_field", tag = 2)] b_c: i64, #[steit(tag = 536870911)] value: u32 },
    #[steit(tag = 0, csharp_name = "other_1")]
    TwoThree(),
    #[steit(tag = 127)]
    Four4 { #[steit(tag = 13886)] at_2nd: u64 },
    #[steit(tag = 2091)]
    Xy(),
    #[steit(tag = 87)]
    LastOne(),
}

#[steit_derive(Serialize, Deserialize)]
pub struct my_msg_41<T: HasWireType>(#[steit(tag = 6509)] pub std::vec::Vec<T>, #[steit(tag = 127)] pub i8, #[steit(tag = 333393894)] pub steit::types::Bytes);

#[steit_derive(State)]
#[steit(csharp_name = "c_s_42")]
pub enum N42thing {
    #[steit(tag = 128)]
    One(),
    #[steit(tag = 0)]
    TwoThree {  },
    #[steit(tag = 52)]
    Four4(),
    #[steit(tag = 127)]
    Xy { #[steit(tag = 3)] x_2: Msg23, #[steit(csharp_name = "aBC", tag = 0)] route_: i8, #[steit(tag = 1)] dou__ble: Box<Box<i8>>, #[steit(tag = 536870911)] at_2nd: u64 },
    #[steit(tag = 3)]
    LastOne(#[steit(tag = 536870911)] i32, #[steit(csharp_name = "Renamed", tag = 3)] crate::Msg33<Msg29, my_msg_28>, #[steit(tag = 0)] u16, #[steit(tag = 84)] i64),
}

#[steit_derive(State)]
#[steit(csharp_name = "Cs43")]
pub struct my_msg_43(#[steit(tag = 407713978)] pub self::Msg29);

#[steit_derive(Serialize, Deserialize)]
pub struct N44thing<C: HasWireType> {
    #[steit(tag = 536870911)] pub id: u16,
    #[steit(tag = 27)] pub r#in: Option<std::boxed::Box<crate::N44thing<C>>>,
    #[steit(tag = 447608613)] pub n2n: i8,
    #[steit(tag = 0)] pub some_value: C,
    #[steit(tag = 14)] pub x1: Box<Bytes>,
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "c_s_45", reserved_tags(0, 1))]
pub struct N45thing {
    #[steit(tag = 127, csharp_name = "v2_3x")] pub count_of_3d: [Option<i32>; 1],
    #[steit(tag = 128)] pub x_2: std::option::Option<Box<N45thing>>,
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "Cs46")]
pub struct Msg46 {
    #[steit(tag = 419023268)] pub camelCase: u32,
    #[steit(tag = 536870911)] pub value: u32,
    #[steit(tag = 128, csharp_name = "aBC")] pub Upper: crate::my_msg_41<u64>,
}

#[steit_derive(Serialize, Deserialize)]
pub struct my_msg_47 {
    #[steit(tag = 128, csharp_name = "x_1st")] pub value: steit::types::Bytes,
    #[steit(tag = 536870911)] pub count_of_3d: Option<Box<crate::my_msg_47>>,
    #[steit(tag = 228393713)] pub x1: std::vec::Vec<self::my_msg_36>,
}

#[steit_derive(Serialize, Deserialize)]
pub struct Msg48 {
    #[steit(tag = 536870911)] pub _lead: std::vec::Vec<self::N42thing>,
    #[steit(tag = 14550)] pub trail_: Option<std::boxed::Box<Msg48>>,
    #[steit(tag = 6859)] pub r#type: N42thing,
    #[steit(tag = 2)] pub camelCase: u16,
    #[steit(tag = 13)] pub x1: steit::types::Bytes,
    #[steit(tag = 108)] pub value: std::boxed::Box<[i32; 4]>,
    #[steit(tag = 1007)] pub p9_q: std::option::Option<std::boxed::Box<Msg48>>,
    #[steit(tag = 11186)] pub Upper: Option<String>,
}

#[steit_derive(State)]
pub enum N49thing<T: State> {
    #[steit(csharp_name = "other_0", tag = 11589)]
    One { #[steit(tag = 536870911)] trail_: u16, #[steit(tag = 128)] p9_q: Maybe<T> },
    #[steit(csharp_name = "Other1", tag = 0)]
    TwoThree(),
    #[steit(tag = 11)]
    Four4 {  },
}

#[steit_derive(Serialize, Deserialize)]
pub enum N50thing {
    #[steit(tag = 128)]
    One { #[steit(tag = 2)] a_ß: crate::my_msg_38 },
    #[steit(tag = 1)]
    TwoThree { #[steit(tag = 164812698)] a: crate::N45thing, #[steit(tag = 127)] z: std::boxed::Box<std::boxed::Box<i64>>, #[steit(tag = 9819)] at_2nd: crate::my_msg_38, #[steit(tag = 128)] trail_: i16 },
    #[steit(csharp_name = "other_2", tag = 0)]
    Four4 {  },
}

#[steit_derive(Serialize, Deserialize)]
#[steit(reserved_tags(2, 3))]
pub enum Msg51 {
    #[steit(tag = 10626)]
    One { #[steit(tag = 2)] n2n: String, #[steit(tag = 13)] x_2: u32 },
    #[steit(tag = 449923995)]
    TwoThree(#[steit(tag = 458896865)] (String), #[steit(tag = 2)] N49thing<bool>, #[steit(tag = 127, csharp_name = "Renamed")] self::N44thing<i8>, #[steit(csharp_name = "under_Score", tag = 536870911)] (i64)),
    #[steit(tag = 0)]
    Four4(#[steit(tag = 536870911)] Vec<Bytes>, #[steit(tag = 127, csharp_name = "KeepIt")] std::option::Option<std::boxed::Box<Msg51>>),
    #[steit(tag = 1, csharp_name = "other_3")]
    Xy(#[steit(csharp_name = "_q", tag = 154215442)] N45thing),
    #[steit(tag = 128)]
    LastOne(#[steit(tag = 3)] u8),
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "c_s_52")]
pub enum Msg52<T: HasWireType> {
    #[steit(csharp_name = "other_0", tag = 127)]
    One { #[steit(tag = 0)] extra_t: T },
    #[steit(tag = 0)]
    TwoThree(#[steit(tag = 153772256)] N45thing),
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "Cs53")]
pub enum my_msg_53 {
    #[steit(tag = 0)]
    One(#[steit(tag = 536870911)] (u64)),
}

#[steit_derive(Serialize, Deserialize)]
pub enum Msg54<T: HasWireType, B: HasWireType> {
    #[steit(tag = 0)]
    One { #[steit(tag = 536870911)] some_value: i16, #[steit(tag = 507774673, csharp_name = "under_Score")] b_c: self::N45thing, #[steit(tag = 0)] extra_t: T },
    #[steit(csharp_name = "Other1", tag = 1)]
    TwoThree { #[steit(tag = 3)] at_2nd: B, #[steit(tag = 536870911)] x1: i32 },
}

#[steit_derive(Serialize, Deserialize)]
pub struct Msg55 {
    #[steit(tag = 4725)] pub z: N50thing,
}

#[steit_derive(Serialize, Deserialize)]
pub enum Msg56<A: HasWireType> {
    #[steit(csharp_name = "Other0", tag = 536870911)]
    One { #[steit(csharp_name = "Renamed", tag = 5768)] a: u16, #[steit(tag = 128)] p9_q: crate::Msg46, #[steit(tag = 536870911)] camelCase: A, #[steit(tag = 127)] dou__ble: Option<std::boxed::Box<Msg56<A>>> },
    #[steit(csharp_name = "other_1", tag = 0)]
    TwoThree(#[steit(tag = 127)] std::option::Option<Box<crate::Msg56<A>>>, #[steit(tag = 15)] A, #[steit(tag = 164224280)] String, #[steit(tag = 7439)] i16),
    #[steit(csharp_name = "other_2", tag = 2)]
    Four4 { #[steit(tag = 14)] x_2: String, #[steit(tag = 127, csharp_name = "renamed_field")] at_2nd: Option<std::boxed::Box<Msg56<A>>>, #[steit(tag = 1425)] p9_q: String, #[steit(tag = 536870911)] x1: my_msg_47 },
}

#[steit_derive(Serialize, Deserialize)]
pub enum N57thing<B: HasWireType, A: HasWireType, K: HasWireType> {
    #[steit(tag = 0)]
    One { #[steit(tag = 71)] id: Box<A>, #[steit(tag = 536870911)] trail_: K, #[steit(tag = 0)] extra_b: B },
}

#[steit_derive(State)]
#[steit(csharp_name = "Cs58", reserved_tags(0, 1))]
pub struct Msg58<C: State, B: State> {
    #[steit(tag = 119152457)] pub r#type: B,
    #[steit(csharp_name = "renamed_field", tag = 128)] pub a_ß: C,
}

#[steit_derive(Serialize, Deserialize)]
pub struct N59thing<B: HasWireType> {
    #[steit(tag = 0)] pub extra_b: B,
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "Cs60")]
pub struct Msg60 {
    #[steit(csharp_name = "v2_3x", tag = 536870911)] pub count_of_3d: steit::types::Bytes,
    #[steit(tag = 11895)] pub z: (std::vec::Vec<i32>),
    #[steit(tag = 86281787)] pub x_2: self::Msg51,
    #[steit(tag = 3)] pub é_a: Msg51,
    #[steit(tag = 128, csharp_name = "renamed_field")] pub dou__ble: N57thing<Bytes, String, (i16)>,
}

#[steit_derive(State)]
pub struct Msg61 {
}

#[steit_derive(Serialize, Deserialize)]
pub enum Msg62<A: HasWireType, B: HasWireType, K: HasWireType> {
    #[steit(tag = 70)]
    One(#[steit(csharp_name = "KeepIt", tag = 9)] crate::Msg61, #[steit(tag = 0)] A, #[steit(tag = 1)] B, #[steit(tag = 2)] K),
    #[steit(tag = 1)]
    TwoThree {  },
    #[steit(tag = 1866)]
    Four4(),
    #[steit(tag = 0)]
    Xy { #[steit(tag = 221565443)] x_2: steit::types::Bytes },
    #[steit(tag = 15)]
    LastOne {  },
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "c_s_63", reserved_tags(0, 2))]
pub struct my_msg_63(#[steit(tag = 1)] pub self::N59thing<self::Msg51>, #[steit(tag = 63)] pub i8, #[steit(tag = 128)] pub Vec<Box<u8>>, #[steit(tag = 110)] pub Option<std::boxed::Box<my_msg_63>>, #[steit(csharp_name = "x_1st", tag = 536870911)] pub std::option::Option<Box<self::my_msg_63>>);

#[steit_derive(Serialize, Deserialize)]
pub struct my_msg_64<K: HasWireType, C: HasWireType, B: HasWireType> {
    #[steit(csharp_name = "aBC", tag = 14)] pub r#in: std::option::Option<String>,
    #[steit(csharp_name = "renamed_field", tag = 1)] pub p9_q: crate::Msg58<u64, u32>,
    #[steit(tag = 9781)] pub some_value: i64,
    #[steit(tag = 127)] pub _lead: u16,
    #[steit(tag = 15822)] pub route_: Bytes,
    #[steit(tag = 0)] pub extra_k: K,
    #[steit(tag = 2)] pub extra_c: C,
    #[steit(tag = 3)] pub extra_b: B,
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "c_s_65")]
pub struct Msg65<B: HasWireType> {
    #[steit(tag = 3)] pub n2n: Option<std::boxed::Box<crate::Msg65<B>>>,
    #[steit(tag = 128)] pub _lead: Msg55,
    #[steit(tag = 0)] pub extra_b: B,
}

#[steit_derive(Serialize, Deserialize)]
pub struct Msg66<A: HasWireType, K: HasWireType>(#[steit(csharp_name = "aBC", tag = 7458)] pub std::option::Option<std::boxed::Box<self::Msg66<A, K>>>, #[steit(tag = 29)] pub Option<std::boxed::Box<self::Msg66<A, K>>>, #[steit(tag = 0)] pub A, #[steit(tag = 1)] pub K);

#[steit_derive(Serialize, Deserialize)]
pub enum N67thing<K: HasWireType, B: HasWireType, C: HasWireType> {
    #[steit(tag = 369896195)]
    One { #[steit(tag = 0)] extra_k: K },
    #[steit(tag = 0)]
    TwoThree { #[steit(csharp_name = "x_1st", tag = 128)] dou__ble: my_msg_64<B, C, Bytes> },
}

#[steit_derive(State)]
#[steit(csharp_name = "Cs68")]
pub enum N68thing<C: State, B: State, K: State> {
    #[steit(tag = 128)]
    One(#[steit(tag = 0)] C, #[steit(tag = 1)] B),
    #[steit(tag = 72278953)]
    TwoThree { #[steit(tag = 13)] id: u16, #[steit(csharp_name = "KeepIt", tag = 536870911)] i: crate::my_msg_43 },
    #[steit(tag = 536870911)]
    Four4(),
    #[steit(tag = 414257387)]
    Xy { #[steit(tag = 128)] i: K, #[steit(tag = 4596)] p9_q: my_msg_43 },
    #[steit(tag = 0, csharp_name = "Other4")]
    LastOne { #[steit(tag = 436009551)] z: i16, #[steit(tag = 0)] a: i8 },
}

#[steit_derive(State)]
#[steit(reserved_tags(2, 4))]
pub struct Msg69 {
    #[steit(tag = 128)] pub n2n: u8,
    #[steit(tag = 0, csharp_name = "under_Score")] pub r#in: self::my_msg_32<u8, u32, u8>,
    #[steit(tag = 361756659)] pub dou__ble: u64,
    #[steit(tag = 170432600)] pub a: crate::Msg61,
    #[steit(tag = 1)] pub count_of_3d: i16,
    #[steit(tag = 3)] pub Upper: i32,
    #[steit(tag = 6)] pub p9_q: Msg33<crate::N49thing<crate::N42thing>, crate::Msg34<i64, u16, u64>>,
    #[steit(tag = 10)] pub route_: i8,
}
