// Written by tools/gen_csharp.py.
use schema_cs::*;
use steit::types::{Bytes, List, Map, Maybe};

use crate::csharp::*;
use crate::run::*;

pub fn defined() -> Vec<(&'static str, M)> {
    vec![
        ("Msg0", M::Struct(s("Msg0", &["B", "C"], vec![f(128, "F0", "B"), f(0, "F1", "C")]))),
        ("N1thing", M::Enum { name: "N1thing".to_string(), params: vec![], variants: vec![(7950, s("One", &[], vec![])), (13937263, s("TwoThree", &[], vec![f(1, "F0", "Boolean"), f(12, "F1", "Bytes"), f(17, "RenamedField", "UInt64"), f(0, "KeepIt", "SByte")])), (304376198, s("Four4", &[], vec![])), (0, s("Xy", &[], vec![])), (764, s("LastOne", &[], vec![f(6, "F0", "Int32")]))] }),
        ("Msg2", M::Struct(s("Msg2", &[], vec![]))),
        ("Cs3", M::Struct(s("Cs3", &[], vec![]))),
        ("Msg4", M::Struct(s("Msg4", &[], vec![f(10457, "X1st", "StateList<Int16>"), f(3, "BC", "UInt16")]))),
        ("c_s_5", M::Enum { name: "c_s_5".to_string(), params: vec![], variants: vec![(12139, s("other_0", &[], vec![])), (138336517, s("Other1", &[], vec![])), (0, s("Four4", &[], vec![f(127, "BC", "UInt64"), f(113, "I", "SByte")])), (4117, s("Xy", &[], vec![])), (4, s("LastOne", &[], vec![]))] }),
        ("Msg6", M::Struct(s("Msg6", &[], vec![f(72, "X1", "UInt32"), f(13685, "A", "c_s_5")]))),
        ("c_s_7", M::Struct(s("c_s_7", &[], vec![f(0, "X1st", "UInt32"), f(11, "CountOf3d", "Byte")]))),
        ("Cs8", M::Enum { name: "Cs8".to_string(), params: vec!["T".to_string(), "C".to_string(), "B".to_string()], variants: vec![(0, s("Other0", &[], vec![f(2, "I", "UInt32"), f(129, "UnderScore", "Maybe<T>"), f(0, "ExtraC", "C"), f(1, "ExtraB", "B")]))] }),
        ("Cs9", M::Struct(s("Cs9", &[], vec![]))),
        ("Cs10", M::Struct(s("Cs10", &[], vec![]))),
        ("c_s_11", M::Struct(s("c_s_11", &[], vec![]))),
        ("N12thing", M::Struct(s("N12thing", &[], vec![f(61, "A", "Option<Msg6>"), f(251641129, "DouBle", "c_s_7"), f(128, "SomeValue", "Bytes"), f(212030880, "ÉA", "Byte"), f(355, "Type", "Option<N12thing>"), f(11, "Route", "c_s_11"), f(5955, "KeepIt", "c_s_7"), f(1, "Z", "UInt32")]))),
        ("N13thing", M::Struct(s("N13thing", &["K", "A"], vec![f(15, "RenamedField", "Int64"), f(1, "Value", "StateList<Int64>"), f(0, "ExtraK", "K"), f(2, "ExtraA", "A")]))),
        ("my_msg_14", M::Enum { name: "my_msg_14".to_string(), params: vec![], variants: vec![(128, s("Other0", &[], vec![f(7, "Renamed", "Bytes"), f(0, "F1", "Vector<c_s_11>")])), (0, s("TwoThree", &[], vec![])), (7, s("other_2", &[], vec![f(26, "Renamed", "Vector<Boolean>"), f(536870911, "DouBle", "Vector<Vector<Boolean>>")])), (162983805, s("Xy", &[], vec![])), (15, s("LastOne", &[], vec![f(15401, "F0", "Bytes"), f(102, "F1", "Option<my_msg_14>")]))] }),
        ("my_msg_15", M::Enum { name: "my_msg_15".to_string(), params: vec![], variants: vec![(8, s("Other0", &[], vec![])), (7, s("TwoThree", &[], vec![])), (0, s("Four4", &[], vec![]))] }),
        ("N16thing", M::Struct(s("N16thing", &["A", "B"], vec![f(40107170, "P9Q", "StateList<B>"), f(33455936, "X2", "StateList<Int16>"), f(127, "A", "Msg4"), f(480973727, "Upper", "Maybe<Maybe<c_s_7>>"), f(63, "Lead", "UInt16"), f(57, "SomeValue", "UInt16"), f(492368504, "N2n", "Cs8<A, Byte, N13thing<B, c_s_5>>"), f(2, "RenamedField", "StateMap<StateMap<N13thing<SByte, c_s_7>>>")]))),
        ("N17thing", M::Struct(s("N17thing", &["A", "K", "T"], vec![f(128, "DouBle", "N12thing"), f(536870911, "UnderScore", "Int16"), f(370736275, "A", "T"), f(0, "ExtraA", "A"), f(1, "ExtraK", "K")]))),
        ("Cs18", M::Struct(s("Cs18", &[], vec![f(11375, "BC", "Cs8<StateMap<N16thing<Int16, UInt16>>, UInt32, Msg4>"), f(128, "I", "Vector<UInt16>"), f(0, "Lead", "SByte")]))),
        ("my_msg_19", M::Struct(s("my_msg_19", &["B", "K", "C"], vec![f(9243, "F0", "B"), f(128, "F1", "N13thing<UInt16, Cs10>"), f(127, "F2", "UInt16"), f(536870911, "F3", "Byte"), f(115925386, "ABC", "Vector<Cs9>"), f(0, "F5", "K"), f(1, "F6", "C")]))),
        ("Msg20", M::Enum { name: "Msg20".to_string(), params: vec![], variants: vec![(127, s("One", &[], vec![f(82, "X2", "c_s_11"), f(536870911, "Renamed", "UInt16"), f(43, "Z", "Vector<Cs10>"), f(127, "UnderScore", "my_msg_15")])), (12992, s("Other1", &[], vec![f(37, "ASS", "String")])), (0, s("Other2", &[], vec![f(8679, "UnderScore", "N16thing<Int64, Byte>"), f(8, "X2", "String")])), (7515, s("Xy", &[], vec![f(1, "F0", "Option<Msg20>"), f(2, "F1", "Option<N12thing>"), f(375180842, "F2", "Option<UInt16>"), f(536870911, "F3", "my_msg_15")])), (536870911, s("Other4", &[], vec![f(15890, "F0", "Bytes"), f(13, "F1", "c_s_11"), f(2, "F2", "Byte"), f(5, "V23x", "Cs18")]))] }),
        ("Msg21", M::Struct(s("Msg21", &[], vec![]))),
        ("Cs22", M::Enum { name: "Cs22".to_string(), params: vec![], variants: vec![(1, s("One", &[], vec![])), (0, s("TwoThree", &[], vec![f(127, "F0", "UInt16")])), (127, s("Four4", &[], vec![f(149693672, "UnderScore", "N13thing<StateMap<Int16>, StateList<Byte>>")]))] }),
        ("Msg23", M::Struct(s("Msg23", &[], vec![f(49670055, "In", "StateMap<UInt32>"), f(2, "Value", "Msg4"), f(127, "Z", "Boolean")]))),
        ("c_s_24", M::Enum { name: "c_s_24".to_string(), params: vec!["B".to_string(), "K".to_string(), "T".to_string()], variants: vec![(4, s("One", &[], vec![f(2, "Q", "Int64"), f(16381, "SomeValue", "Int16"), f(0, "ExtraB", "B"), f(1, "ExtraK", "K"), f(3, "ExtraT", "T")])), (47, s("TwoThree", &[], vec![])), (0, s("Other2", &[], vec![])), (536870911, s("Other3", &[], vec![])), (1, s("Other4", &[], vec![]))] }),
        ("c_s_25", M::Struct(s("c_s_25", &[], vec![f(128, "I", "UInt16"), f(67, "Q", "my_msg_15"), f(52419393, "CamelCase", "UInt32"), f(1, "Trail", "Int32"), f(6, "BC", "Option<Vector<my_msg_15>>")]))),
        ("Cs26", M::Struct(s("Cs26", &["C"], vec![f(0, "ExtraC", "C")]))),
        ("Msg27", M::Struct(s("Msg27", &["C", "B"], vec![f(61837537, "F0", "Msg20"), f(37, "F1", "C"), f(127, "F2", "Option<Msg27<C, B>>"), f(0, "F3", "Option<Msg27<C, B>>"), f(128, "F4", "C"), f(1, "F5", "B")]))),
        ("Cs28", M::Struct(s("Cs28", &[], vec![f(0, "Value", "Int32"), f(5, "ASS", "SByte")]))),
        ("Msg29", M::Enum { name: "Msg29".to_string(), params: vec![], variants: vec![(0, s("One", &[], vec![f(128, "ASS", "Boolean")])), (3, s("Other1", &[], vec![])), (122, s("Four4", &[], vec![f(42, "V23x", "Msg4")]))] }),
        ("N30thing", M::Struct(s("N30thing", &["C", "B"], vec![f(0, "ExtraC", "C"), f(1, "ExtraB", "B")]))),
        ("Cs31", M::Struct(s("Cs31", &[], vec![f(2, "BC", "Option<Byte>"), f(26, "ÉA", "Msg21"), f(18, "In", "Boolean")]))),
        ("my_msg_32", M::Struct(s("my_msg_32", &["T", "K", "B"], vec![f(8641, "UnderScore", "UInt64"), f(127, "ASS", "Int32"), f(536870911, "Trail", "Int64"), f(19, "X1st", "Boolean"), f(9571, "Renamed", "StateList<Byte>"), f(6591, "Q", "StateMap<StateList<Byte>>"), f(10687, "KeepIt", "K"), f(128, "Route", "B"), f(0, "ExtraT", "T")]))),
        ("c_s_33", M::Struct(s("c_s_33", &["T", "K"], vec![f(0, "ExtraT", "T"), f(1, "ExtraK", "K")]))),
        ("Msg34", M::Struct(s("Msg34", &["B", "C", "T"], vec![f(74, "Route", "Int64"), f(2161, "CountOf3d", "Maybe<Int32>"), f(21, "ASS", "StateMap<Int64>"), f(3, "BC", "Boolean"), f(536870911, "ÉA", "B"), f(1, "Renamed", "C"), f(208519183, "DouBle", "Int32"), f(6913, "RenamedField", "Int16"), f(0, "ExtraT", "T")]))),
        ("my_msg_35", M::Struct(s("my_msg_35", &["C", "A"], vec![f(127, "ÉA", "Maybe<A>"), f(14, "Upper", "Cs28"), f(0, "ExtraC", "C")]))),
        ("my_msg_36", M::Struct(s("my_msg_36", &[], vec![f(10, "I", "Msg27<Vector<Int16>, UInt32>"), f(127, "Route", "UInt16"), f(12272, "Type", "c_s_24<Msg29, UInt64, Int32>"), f(139966358, "Lead", "UInt32"), f(104, "ABC", "my_msg_32<Boolean, UInt16, Int16>"), f(23960087, "DouBle", "Int16"), f(128, "Renamed", "Msg29"), f(15651, "ÉA", "Boolean")]))),
        ("my_msg_37", M::Struct(s("my_msg_37", &[], vec![f(2, "F0", "String"), f(127, "F1", "Option<my_msg_37>")]))),
        ("my_msg_38", M::Enum { name: "my_msg_38".to_string(), params: vec![], variants: vec![(18, s("other_0", &[], vec![])), (128, s("TwoThree", &[], vec![f(128, "F0", "Int64"), f(2, "F1", "Int16"), f(1, "KeepIt", "Cs31"), f(1737, "F3", "UInt16")])), (0, s("Four4", &[], vec![f(127, "F0", "Bytes")])), (7496, s("Xy", &[], vec![f(80, "F0", "Msg34<UInt16, UInt32, Int32>"), f(128, "F1", "Option<my_msg_38>")])), (7, s("Other4", &[], vec![]))] }),
        ("c_s_39", M::Struct(s("c_s_39", &[], vec![f(14, "ÉA", "UInt16")]))),
        ("my_msg_40", M::Enum { name: "my_msg_40".to_string(), params: vec![], variants: vec![(14199, s("One", &[], vec![f(19, "I", "Int32"), f(9, "SomeValue", "StateMap<Int16>"), f(2, "RenamedField", "Int64"), f(536870911, "Value", "UInt32")])), (0, s("other_1", &[], vec![])), (127, s("Four4", &[], vec![f(13886, "At2nd", "UInt64")])), (2091, s("Xy", &[], vec![])), (87, s("LastOne", &[], vec![]))] }),
        ("my_msg_41", M::Struct(s("my_msg_41", &["T"], vec![f(6509, "F0", "Vector<T>"), f(127, "F1", "SByte"), f(333393894, "F2", "Bytes")]))),
        ("c_s_42", M::Enum { name: "c_s_42".to_string(), params: vec![], variants: vec![(128, s("One", &[], vec![])), (0, s("TwoThree", &[], vec![])), (52, s("Four4", &[], vec![])), (127, s("Xy", &[], vec![f(3, "X2", "Msg23"), f(0, "ABC", "SByte"), f(1, "DouBle", "SByte"), f(536870911, "At2nd", "UInt64")])), (3, s("LastOne", &[], vec![f(536870911, "F0", "Int32"), f(3, "Renamed", "c_s_33<Msg29, Cs28>"), f(0, "F2", "UInt16"), f(84, "F3", "Int64")]))] }),
        ("Cs43", M::Struct(s("Cs43", &[], vec![f(407713978, "F0", "Msg29")]))),
        ("N44thing", M::Struct(s("N44thing", &["C"], vec![f(536870911, "Id", "UInt16"), f(27, "In", "Option<N44thing<C>>"), f(447608613, "N2n", "SByte"), f(0, "SomeValue", "C"), f(14, "X1", "Bytes")]))),
        ("c_s_45", M::Struct(s("c_s_45", &[], vec![f(127, "V23x", "Vector<Option<Int32>>"), f(128, "X2", "Option<c_s_45>")]))),
        ("Cs46", M::Struct(s("Cs46", &[], vec![f(419023268, "CamelCase", "UInt32"), f(536870911, "Value", "UInt32"), f(128, "ABC", "my_msg_41<UInt64>")]))),
        ("my_msg_47", M::Struct(s("my_msg_47", &[], vec![f(128, "X1st", "Bytes"), f(536870911, "CountOf3d", "Option<my_msg_47>"), f(228393713, "X1", "Vector<my_msg_36>")]))),
        ("Msg48", M::Struct(s("Msg48", &[], vec![f(536870911, "Lead", "Vector<c_s_42>"), f(14550, "Trail", "Option<Msg48>"), f(6859, "Type", "c_s_42"), f(2, "CamelCase", "UInt16"), f(13, "X1", "Bytes"), f(108, "Value", "Vector<Int32>"), f(1007, "P9Q", "Option<Msg48>"), f(11186, "Upper", "Option<String>")]))),
        ("N49thing", M::Enum { name: "N49thing".to_string(), params: vec!["T".to_string()], variants: vec![(11589, s("other_0", &[], vec![f(536870911, "Trail", "UInt16"), f(128, "P9Q", "Maybe<T>")])), (0, s("Other1", &[], vec![])), (11, s("Four4", &[], vec![]))] }),
        ("N50thing", M::Enum { name: "N50thing".to_string(), params: vec![], variants: vec![(128, s("One", &[], vec![f(2, "ASS", "my_msg_38")])), (1, s("TwoThree", &[], vec![f(164812698, "A", "c_s_45"), f(127, "Z", "Int64"), f(9819, "At2nd", "my_msg_38"), f(128, "Trail", "Int16")])), (0, s("other_2", &[], vec![]))] }),
        ("Msg51", M::Enum { name: "Msg51".to_string(), params: vec![], variants: vec![(10626, s("One", &[], vec![f(2, "N2n", "String"), f(13, "X2", "UInt32")])), (449923995, s("TwoThree", &[], vec![f(458896865, "F0", "String"), f(2, "F1", "N49thing<Boolean>"), f(127, "Renamed", "N44thing<SByte>"), f(536870911, "UnderScore", "Int64")])), (0, s("Four4", &[], vec![f(536870911, "F0", "Vector<Bytes>"), f(127, "KeepIt", "Option<Msg51>")])), (1, s("other_3", &[], vec![f(154215442, "Q", "c_s_45")])), (128, s("LastOne", &[], vec![f(3, "F0", "Byte")]))] }),
        ("c_s_52", M::Enum { name: "c_s_52".to_string(), params: vec!["T".to_string()], variants: vec![(127, s("other_0", &[], vec![f(0, "ExtraT", "T")])), (0, s("TwoThree", &[], vec![f(153772256, "F0", "c_s_45")]))] }),
        ("Cs53", M::Enum { name: "Cs53".to_string(), params: vec![], variants: vec![(0, s("One", &[], vec![f(536870911, "F0", "UInt64")]))] }),
        ("Msg54", M::Enum { name: "Msg54".to_string(), params: vec!["T".to_string(), "B".to_string()], variants: vec![(0, s("One", &[], vec![f(536870911, "SomeValue", "Int16"), f(507774673, "UnderScore", "c_s_45"), f(0, "ExtraT", "T")])), (1, s("Other1", &[], vec![f(3, "At2nd", "B"), f(536870911, "X1", "Int32")]))] }),
        ("Msg55", M::Struct(s("Msg55", &[], vec![f(4725, "Z", "N50thing")]))),
        ("Msg56", M::Enum { name: "Msg56".to_string(), params: vec!["A".to_string()], variants: vec![(536870911, s("Other0", &[], vec![f(5768, "Renamed", "UInt16"), f(128, "P9Q", "Cs46"), f(536870911, "CamelCase", "A"), f(127, "DouBle", "Option<Msg56<A>>")])), (0, s("other_1", &[], vec![f(127, "F0", "Option<Msg56<A>>"), f(15, "F1", "A"), f(164224280, "F2", "String"), f(7439, "F3", "Int16")])), (2, s("other_2", &[], vec![f(14, "X2", "String"), f(127, "RenamedField", "Option<Msg56<A>>"), f(1425, "P9Q", "String"), f(536870911, "X1", "my_msg_47")]))] }),
        ("N57thing", M::Enum { name: "N57thing".to_string(), params: vec!["B".to_string(), "A".to_string(), "K".to_string()], variants: vec![(0, s("One", &[], vec![f(71, "Id", "A"), f(536870911, "Trail", "K"), f(0, "ExtraB", "B")]))] }),
        ("Cs58", M::Struct(s("Cs58", &["C", "B"], vec![f(119152457, "Type", "B"), f(128, "RenamedField", "C")]))),
        ("N59thing", M::Struct(s("N59thing", &["B"], vec![f(0, "ExtraB", "B")]))),
        ("Cs60", M::Struct(s("Cs60", &[], vec![f(536870911, "V23x", "Bytes"), f(11895, "Z", "Vector<Int32>"), f(86281787, "X2", "Msg51"), f(3, "ÉA", "Msg51"), f(128, "RenamedField", "N57thing<Bytes, String, Int16>")]))),
        ("Msg61", M::Struct(s("Msg61", &[], vec![]))),
        ("Msg62", M::Enum { name: "Msg62".to_string(), params: vec!["A".to_string(), "B".to_string(), "K".to_string()], variants: vec![(70, s("One", &[], vec![f(9, "KeepIt", "Msg61"), f(0, "F1", "A"), f(1, "F2", "B"), f(2, "F3", "K")])), (1, s("TwoThree", &[], vec![])), (1866, s("Four4", &[], vec![])), (0, s("Xy", &[], vec![f(221565443, "X2", "Bytes")])), (15, s("LastOne", &[], vec![]))] }),
        ("c_s_63", M::Struct(s("c_s_63", &[], vec![f(1, "F0", "N59thing<Msg51>"), f(63, "F1", "SByte"), f(128, "F2", "Vector<Byte>"), f(110, "F3", "Option<c_s_63>"), f(536870911, "X1st", "Option<c_s_63>")]))),
        ("my_msg_64", M::Struct(s("my_msg_64", &["K", "C", "B"], vec![f(14, "ABC", "Option<String>"), f(1, "RenamedField", "Cs58<UInt64, UInt32>"), f(9781, "SomeValue", "Int64"), f(127, "Lead", "UInt16"), f(15822, "Route", "Bytes"), f(0, "ExtraK", "K"), f(2, "ExtraC", "C"), f(3, "ExtraB", "B")]))),
        ("c_s_65", M::Struct(s("c_s_65", &["B"], vec![f(3, "N2n", "Option<c_s_65<B>>"), f(128, "Lead", "Msg55"), f(0, "ExtraB", "B")]))),
        ("Msg66", M::Struct(s("Msg66", &["A", "K"], vec![f(7458, "ABC", "Option<Msg66<A, K>>"), f(29, "F1", "Option<Msg66<A, K>>"), f(0, "F2", "A"), f(1, "F3", "K")]))),
        ("N67thing", M::Enum { name: "N67thing".to_string(), params: vec!["K".to_string(), "B".to_string(), "C".to_string()], variants: vec![(369896195, s("One", &[], vec![f(0, "ExtraK", "K")])), (0, s("TwoThree", &[], vec![f(128, "X1st", "my_msg_64<B, C, Bytes>")]))] }),
        ("Cs68", M::Enum { name: "Cs68".to_string(), params: vec!["C".to_string(), "B".to_string(), "K".to_string()], variants: vec![(128, s("One", &[], vec![f(0, "F0", "C"), f(1, "F1", "B")])), (72278953, s("TwoThree", &[], vec![f(13, "Id", "UInt16"), f(536870911, "KeepIt", "Cs43")])), (536870911, s("Four4", &[], vec![])), (414257387, s("Xy", &[], vec![f(128, "I", "K"), f(4596, "P9Q", "Cs43")])), (0, s("Other4", &[], vec![f(436009551, "Z", "Int16"), f(0, "A", "SByte")]))] }),
        ("Msg69", M::Struct(s("Msg69", &[], vec![f(128, "N2n", "Byte"), f(0, "UnderScore", "my_msg_32<Byte, UInt32, Byte>"), f(361756659, "DouBle", "UInt64"), f(170432600, "A", "Msg61"), f(1, "CountOf3d", "Int16"), f(3, "Upper", "Int32"), f(6, "P9Q", "c_s_33<N49thing<c_s_42>, Msg34<Int64, UInt16, UInt64>>"), f(10, "Route", "SByte")]))),
    ]
}

pub fn families() -> Vec<Fam> {
    vec![
        once("generate<Msg0>", |_: &mut Cx| reach::<Msg0<Vec<Msg60>, Msg66<u8, Bytes>>>(&["Msg0", "Cs60", "Maybe", "Msg51", "Msg66", "N44thing", "N49thing", "N57thing", "c_s_45"])),
        once("generate<N1thing>", |_: &mut Cx| reach::<N1thing>(&["N1thing"])),
        once("generate<Msg2>", |_: &mut Cx| reach::<Msg2>(&["Msg2"])),
        once("generate<Msg3>", |_: &mut Cx| reach::<Msg3>(&["Cs3"])),
        once("generate<Msg4>", |_: &mut Cx| reach::<Msg4>(&["Msg4"])),
        once("generate<Msg5>", |_: &mut Cx| reach::<Msg5>(&["c_s_5"])),
        once("generate<Msg6>", |_: &mut Cx| reach::<Msg6>(&["Msg6", "c_s_5"])),
        once("generate<Msg7>", |_: &mut Cx| reach::<Msg7>(&["c_s_7"])),
        once("generate<Msg8>", |_: &mut Cx| reach::<Msg8<u8, Map<u16, Msg61>, Msg33<i16, my_msg_43>>>(&["Cs8", "Cs43", "Maybe", "Msg29", "Msg4", "Msg61", "c_s_33"])),
        once("generate<Msg9>", |_: &mut Cx| reach::<Msg9>(&["Cs9"])),
        once("generate<my_msg_10>", |_: &mut Cx| reach::<my_msg_10>(&["Cs10"])),
        once("generate<my_msg_11>", |_: &mut Cx| reach::<my_msg_11>(&["c_s_11"])),
        once("generate<N12thing>", |_: &mut Cx| reach::<N12thing>(&["N12thing", "Msg6", "c_s_11", "c_s_5", "c_s_7"])),
        once("generate<N13thing>", |_: &mut Cx| reach::<N13thing<u16, List<bool>>>(&["N13thing"])),
        once("generate<my_msg_14>", |_: &mut Cx| reach::<my_msg_14>(&["my_msg_14", "c_s_11"])),
        once("generate<my_msg_15>", |_: &mut Cx| reach::<my_msg_15>(&["my_msg_15"])),
        once("generate<N16thing>", |_: &mut Cx| reach::<N16thing<bool, Box<i32>>>(&["N16thing", "Cs8", "Maybe", "Msg4", "N13thing", "c_s_5", "c_s_7"])),
        once("generate<N17thing>", |_: &mut Cx| reach::<N17thing<u8, i16, i8>>(&["N17thing", "Msg6", "N12thing", "c_s_11", "c_s_5", "c_s_7"])),
        once("generate<N18thing>", |_: &mut Cx| reach::<N18thing>(&["Cs18", "Cs8", "Maybe", "Msg4", "N13thing", "N16thing", "c_s_5", "c_s_7"])),
        once("generate<my_msg_19>", |_: &mut Cx| reach::<my_msg_19<Box<Msg60>, u8, [Bytes; 2]>>(&["my_msg_19", "Cs10", "Cs60", "Cs9", "Maybe", "Msg51", "N13thing", "N44thing", "N49thing", "N57thing", "c_s_45"])),
        once("generate<Msg20>", |_: &mut Cx| reach::<Msg20>(&["Msg20", "Cs10", "Cs18", "Cs8", "Maybe", "Msg4", "Msg6", "N12thing", "N13thing", "N16thing", "c_s_11", "c_s_5", "c_s_7", "my_msg_15"])),
        once("generate<Msg21>", |_: &mut Cx| reach::<Msg21>(&["Msg21"])),
        once("generate<Msg22>", |_: &mut Cx| reach::<Msg22>(&["Cs22", "N13thing"])),
        once("generate<Msg23>", |_: &mut Cx| reach::<Msg23>(&["Msg23", "Msg4"])),
        once("generate<my_msg_24>", |_: &mut Cx| reach::<my_msg_24<Option<u16>, u64, Msg61>>(&["c_s_24", "Msg61"])),
        once("generate<Msg25>", |_: &mut Cx| reach::<Msg25>(&["c_s_25", "my_msg_15"])),
        once("generate<Msg26>", |_: &mut Cx| reach::<Msg26<Vec<Bytes>>>(&["Cs26"])),
        once("generate<Msg27>", |_: &mut Cx| reach::<Msg27<Bytes, N68thing<i32, u16, N42thing>>>(&["Msg27", "Cs10", "Cs18", "Cs28", "Cs43", "Cs68", "Cs8", "Maybe", "Msg20", "Msg23", "Msg29", "Msg4", "Msg6", "N12thing", "N13thing", "N16thing", "c_s_11", "c_s_33", "c_s_42", "c_s_5", "c_s_7", "my_msg_15"])),
        once("generate<my_msg_28>", |_: &mut Cx| reach::<my_msg_28>(&["Cs28"])),
        once("generate<Msg29>", |_: &mut Cx| reach::<Msg29>(&["Msg29", "Msg4"])),
        once("generate<N30thing>", |_: &mut Cx| reach::<N30thing<List<Msg61>, Map<u8, u64>>>(&["N30thing", "Msg61"])),
        once("generate<Msg31>", |_: &mut Cx| reach::<Msg31>(&["Cs31", "Msg21"])),
        once("generate<my_msg_32>", |_: &mut Cx| reach::<my_msg_32<N49thing<i32>, List<u64>, u16>>(&["my_msg_32", "Maybe", "N49thing"])),
        once("generate<Msg33>", |_: &mut Cx| reach::<Msg33<Msg61, N68thing<i32, u32, bool>>>(&["c_s_33", "Cs43", "Cs68", "Msg29", "Msg4", "Msg61"])),
        once("generate<Msg34>", |_: &mut Cx| reach::<Msg34<Maybe<i32>, i64, Box<bool>>>(&["Msg34", "Maybe"])),
        once("generate<my_msg_35>", |_: &mut Cx| reach::<my_msg_35<Msg61, Maybe<Msg69>>>(&["my_msg_35", "Cs28", "Maybe", "Msg23", "Msg29", "Msg34", "Msg4", "Msg61", "Msg69", "N49thing", "c_s_33", "c_s_42", "my_msg_32"])),
        once("generate<my_msg_36>", |_: &mut Cx| reach::<my_msg_36>(&["my_msg_36", "Cs10", "Cs18", "Cs8", "Maybe", "Msg20", "Msg27", "Msg29", "Msg4", "Msg6", "N12thing", "N13thing", "N16thing", "c_s_11", "c_s_24", "c_s_5", "c_s_7", "my_msg_15", "my_msg_32"])),
        once("generate<my_msg_37>", |_: &mut Cx| reach::<my_msg_37>(&["my_msg_37"])),
        once("generate<my_msg_38>", |_: &mut Cx| reach::<my_msg_38>(&["my_msg_38", "Cs31", "Maybe", "Msg21", "Msg34"])),
        once("generate<my_msg_39>", |_: &mut Cx| reach::<my_msg_39>(&["c_s_39"])),
        once("generate<my_msg_40>", |_: &mut Cx| reach::<my_msg_40>(&["my_msg_40"])),
        once("generate<my_msg_41>", |_: &mut Cx| reach::<my_msg_41<u8>>(&["my_msg_41"])),
        once("generate<N42thing>", |_: &mut Cx| reach::<N42thing>(&["c_s_42", "Cs28", "Msg23", "Msg29", "Msg4", "c_s_33"])),
        once("generate<my_msg_43>", |_: &mut Cx| reach::<my_msg_43>(&["Cs43", "Msg29", "Msg4"])),
        once("generate<N44thing>", |_: &mut Cx| reach::<N44thing<Msg60>>(&["N44thing", "Cs60", "Maybe", "Msg51", "N49thing", "N57thing", "c_s_45"])),
        once("generate<N45thing>", |_: &mut Cx| reach::<N45thing>(&["c_s_45"])),
        once("generate<Msg46>", |_: &mut Cx| reach::<Msg46>(&["Cs46", "my_msg_41"])),
        once("generate<my_msg_47>", |_: &mut Cx| reach::<my_msg_47>(&["my_msg_47", "Cs10", "Cs18", "Cs8", "Maybe", "Msg20", "Msg27", "Msg29", "Msg4", "Msg6", "N12thing", "N13thing", "N16thing", "c_s_11", "c_s_24", "c_s_5", "c_s_7", "my_msg_15", "my_msg_32", "my_msg_36"])),
        once("generate<Msg48>", |_: &mut Cx| reach::<Msg48>(&["Msg48", "Cs28", "Msg23", "Msg29", "Msg4", "c_s_33", "c_s_42"])),
        once("generate<N49thing>", |_: &mut Cx| reach::<N49thing<Map<u32, my_msg_40>>>(&["N49thing", "Maybe", "my_msg_40"])),
        once("generate<N50thing>", |_: &mut Cx| reach::<N50thing>(&["N50thing", "Cs31", "Maybe", "Msg21", "Msg34", "c_s_45", "my_msg_38"])),
        once("generate<Msg51>", |_: &mut Cx| reach::<Msg51>(&["Msg51", "Maybe", "N44thing", "N49thing", "c_s_45"])),
        once("generate<Msg52>", |_: &mut Cx| reach::<Msg52<bool>>(&["c_s_52", "c_s_45"])),
        once("generate<my_msg_53>", |_: &mut Cx| reach::<my_msg_53>(&["Cs53"])),
        once("generate<Msg54>", |_: &mut Cx| reach::<Msg54<Msg60, String>>(&["Msg54", "Cs60", "Maybe", "Msg51", "N44thing", "N49thing", "N57thing", "c_s_45"])),
        once("generate<Msg55>", |_: &mut Cx| reach::<Msg55>(&["Msg55", "Cs31", "Maybe", "Msg21", "Msg34", "N50thing", "c_s_45", "my_msg_38"])),
        once("generate<Msg56>", |_: &mut Cx| reach::<Msg56<i64>>(&["Msg56", "Cs10", "Cs18", "Cs46", "Cs8", "Maybe", "Msg20", "Msg27", "Msg29", "Msg4", "Msg6", "N12thing", "N13thing", "N16thing", "c_s_11", "c_s_24", "c_s_5", "c_s_7", "my_msg_15", "my_msg_32", "my_msg_36", "my_msg_41", "my_msg_47"])),
        once("generate<N57thing>", |_: &mut Cx| reach::<N57thing<[bool; 2], String, N59thing<String>>>(&["N57thing", "N59thing"])),
        once("generate<Msg58>", |_: &mut Cx| reach::<Msg58<i16, u16>>(&["Cs58"])),
        once("generate<N59thing>", |_: &mut Cx| reach::<N59thing<u64>>(&["N59thing"])),
        once("generate<Msg60>", |_: &mut Cx| reach::<Msg60>(&["Cs60", "Maybe", "Msg51", "N44thing", "N49thing", "N57thing", "c_s_45"])),
        once("generate<Msg61>", |_: &mut Cx| reach::<Msg61>(&["Msg61"])),
        once("generate<Msg62>", |_: &mut Cx| reach::<Msg62<Msg62<Bytes, Bytes, Bytes>, [Bytes; 2], Vec<Msg61>>>(&["Msg62", "Msg61"])),
        once("generate<my_msg_63>", |_: &mut Cx| reach::<my_msg_63>(&["c_s_63", "Maybe", "Msg51", "N44thing", "N49thing", "N59thing", "c_s_45"])),
        once("generate<my_msg_64>", |_: &mut Cx| reach::<my_msg_64<[Bytes; 4], u64, Msg61>>(&["my_msg_64", "Cs58", "Msg61"])),
        once("generate<Msg65>", |_: &mut Cx| reach::<Msg65<u8>>(&["c_s_65", "Cs31", "Maybe", "Msg21", "Msg34", "Msg55", "N50thing", "c_s_45", "my_msg_38"])),
        once("generate<Msg66>", |_: &mut Cx| reach::<Msg66<Msg65<u8>, i32>>(&["Msg66", "Cs31", "Maybe", "Msg21", "Msg34", "Msg55", "N50thing", "c_s_45", "c_s_65", "my_msg_38"])),
        once("generate<N67thing>", |_: &mut Cx| reach::<N67thing<Box<bool>, u64, Msg69>>(&["N67thing", "Cs28", "Cs58", "Maybe", "Msg23", "Msg29", "Msg34", "Msg4", "Msg61", "Msg69", "N49thing", "c_s_33", "c_s_42", "my_msg_32", "my_msg_64"])),
        once("generate<N68thing>", |_: &mut Cx| reach::<N68thing<i8, Box<i16>, Msg33<Msg61, my_msg_40>>>(&["Cs68", "Cs43", "Msg29", "Msg4", "Msg61", "c_s_33", "my_msg_40"])),
        once("generate<Msg69>", |_: &mut Cx| reach::<Msg69>(&["Msg69", "Cs28", "Maybe", "Msg23", "Msg29", "Msg34", "Msg4", "Msg61", "N49thing", "c_s_33", "c_s_42", "my_msg_32"])),
    ]
}
