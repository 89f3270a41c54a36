//! The cases of each property.

use std::collections::HashMap;
use std::io::Read;

use steit::{
    de::{Deserialize, Reader},
    log::{loggers::BufferLogger, LogEntry, Logger},
    rt::{Node, Runtime},
    ser::Serialize,
    types::{Bytes, List, Map, MapKey, Maybe},
    wire_fmt::{self, HasWireType, WireType},
};

use crate::gen::*;
use crate::hist::*;
use crate::probe::*;
use crate::rng::Rng;
use crate::run::*;
use crate::types::*;
use crate::val::*;

macro_rules! fams {
    ($f:ident; $($t:ty),* $(,)?) => { vec![$(fam(stringify!($t), $f::<$t>)),*] };
}

pub fn families(prop: &str) -> Vec<Fam> {
    match prop {
        "C01" => {
            let mut v = fams!(c01_rand; u8, u16, u32, u64, i8, i16, i32, i64, bool);
            v.push(once("all_8_and_16_bit", c01_all));
            v.push(once("edges", c01_edges));
            v
        }
        "C02" => for_wire!(fams c02),
        "C03" => {
            let mut v = for_wire!(fams c03);
            v.push(once("big_map_key", c03_big_key));
            v
        }
        "C04" => vec![fam("pairs", c04_pairs), fam("words", c04_words), once("edges", c04_edges), once("sweep", c04_sweep)],
        "C05" => for_wire!(fams c05),
        "C06" => {
            let mut v = for_wire!(fams c06);
            v.extend(vec![fam("skip_field", c06_skip), fam("skip_field2", c06_skip)]);
            v
        }
        "C07" => {
            let mut v = for_wire!(fams c07);
            v.extend(for_state!(fams c07_replay));
            v.push(fam("reader", c07_reader));
            v
        }
        "C08" => {
            let mut v = for_wire!(fams c08);
            for i in 0..12 {
                v.push(fam(&format!("reader{}", i), c08_reader));
            }
            v
        }
        "C09" => for_wire!(fams c09),
        "C10" => {
            let mut v = for_wire!(fams c10);
            v.extend(for_state!(fams c10_state));
            v
        }
        "C11" => for_state!(fams c11),
        "C12" => for_state!(fams c12),
        "C13" => {
            let mut v = for_state!(fams c13);
            v.push(fam("runtime", c13_runtime));
            v.push(fam("maybe", c13_maybe));
            v
        }
        "C14" => for_state!(fams c14),
        "C15" => vec![fam("buffer", c15_buffer), fam("buffer2", c15_buffer), fam("replayable", c15_replay), fam("writer", c15_writer)],
        "C16" => for_state!(fams c16),
        "C22" => (0..8).map(|i| fam(&format!("threads{}", i), c22_threads)).collect(),
        "C17" => {
            let mut v = fams!(c17_list; u8, i32, Leaf, List<u8>, Shape, Maybe<i32>, Box<Leaf>);
            v.extend(vec![
                fam("Map<u8,i32>", c17_map::<u8, i32>),
                fam("Map<u16,Leaf>", c17_map::<u16, Leaf>),
                fam("Map<u32,u8>", c17_map::<u32, u8>),
                fam("Map<Key,Shape>", c17_map::<Key, Shape>),
                fam("Map<u8,List<u8>>", c17_map::<u8, List<u8>>),
                once("keys", c17_keys),
            ]);
            v
        }
        "C18" => {
            let mut v = for_wire!(fams c18);
            v.extend(for_state!(fams c18_state));
            v
        }
        "C20" => {
            let mut v = crate::csharp::derived_families();
            #[cfg(feature = "cs")]
            v.extend(crate::csharp_defs::families());
            v.push(once("primitives", crate::csharp::c20_primitives));
            v.push(once("full", crate::csharp::c20_full));
            v.extend((0..6).map(|i| fam(&format!("graph{}", i), crate::csharp::c20_graph)));
            v
        }
        "C19" => {
            let mut v = for_derived!(fams c19);
            v.push(fam("maybe", c19_maybe));
            v
        }
        _ => panic!("unknown property {}", prop),
    }
}

fn io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("refused: {}", e))
}

fn value<T: Probe>(cx: &mut Cx) -> (T, Val) {
    let fuel = if cx.r.chance(1, 20) { 400 } else { 40 };
    let v = gen(&T::ty(), &mut cx.r, &mut { fuel });
    let x = T::build(&v, &Runtime::new());
    (x, v)
}

fn nested_bytes<T: Serialize>(x: &T, n: Option<u32>, om: bool) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    x.cache_size();
    io(x.serialize_nested(n, om, &mut out))?;
    Ok(out)
}

fn eq_or<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: {:?} instead of {:?}", what, got, want))
    }
}

// C01

fn c01_one<T: Probe>(x: T, r: &mut Rng) -> Res {
    let v = x.val();
    let want = enc(&T::ty(), &v);
    let what = format!("{:?}", v);
    let bytes = x.to_bytes();
    eq_or(&format!("bytes of {}", what), &bytes, &want)?;
    eq_or(&format!("size of {}", what), x.compute_size() as usize, bytes.len())?;
    eq_or(&format!("cached size of {}", what), (x.cache_size() as usize, x.cached_size() as usize), (bytes.len(), bytes.len()))?;
    let mut w = Dribble(vec![], Rng::new(&[r.next()]));
    io(x.serialize_cached(&mut w))?;
    eq_or(&format!("dribbled bytes of {}", what), &w.0, &want)?;
    let tail: Vec<u8> = match r.below(5) {
        0 => vec![],
        1 => vec![0x80; 3],
        2 => vec![0xff; 12],
        3 => vec![0],
        _ => (0..r.below(5)).map(|_| r.next() as u8).collect(),
    };
    let mut input = bytes.clone();
    input.extend(&tail);
    let mut reader = Reader::new(&*input);
    let y = io(T::deserialize(&mut reader)).map_err(|e| format!("{} {}", what, e))?;
    eq_or("decoded", y.val(), v.clone())?;
    let mut rest = vec![];
    io(reader.read_to_end(&mut rest))?;
    eq_or(&format!("what is left after {}", what), &rest, &tail)?;
    if r.chance(1, 4) {
        let c = Chunky::new(&input, r);
        let mut reader = Reader::new(c);
        let mut y = T::default();
        io(y.merge(&mut reader))?;
        eq_or("decoded in chunks", y.val(), v)?;
        let mut rest = vec![];
        io(reader.read_to_end(&mut rest))?;
        eq_or(&format!("what is left after {}", what), &rest, &tail)?;
    }
    Ok(())
}

fn c01_rand<T: Probe>(cx: &mut Cx) -> Res {
    for _ in 0..64 {
        let v = gen(&T::ty(), &mut cx.r, &mut 5);
        cx.note(format!("{:?}{:?}", v, T::ty().wt()).as_bytes());
        c01_one::<T>(detached(&v), &mut cx.r)?;
    }
    Ok(())
}

fn c01_all(cx: &mut Cx) -> Res {
    let mut r = cx.r.clone();
    for i in 0..=255u8 {
        c01_one(i, &mut r)?;
        c01_one(i as i8, &mut r)?;
    }
    for i in 0..=65535u16 {
        if i as u64 % cx.shard.1 == cx.shard.0 {
            c01_one(i, &mut r)?;
            c01_one(i as i16, &mut r)?;
            cx.note(&i.to_le_bytes());
        }
    }
    c01_one(false, &mut r)?;
    c01_one(true, &mut r)
}

fn c01_edges(cx: &mut Cx) -> Res {
    let mut r = cx.r.clone();
    for k in 0..64 {
        for d in 0..7u64 {
            let v = (1u64 << k).wrapping_add(d).wrapping_sub(3);
            for v in &[v, !v, v.wrapping_neg()] {
                c01_one(*v, &mut r)?;
                c01_one(*v as u32, &mut r)?;
                c01_one(*v as i64, &mut r)?;
                c01_one(*v as i32, &mut r)?;
                cx.note(&v.to_le_bytes());
            }
        }
    }
    Ok(())
}

// C02

fn c02<T: Probe>(cx: &mut Cx) -> Res {
    let (x, v) = value::<T>(cx);
    let ty = T::ty();
    let size = x.compute_size() as usize;
    let announced = x.cache_size() as usize;
    eq_or("announced size", announced, size)?;
    eq_or("cached size", x.cached_size() as usize, size)?;
    let mut w = Dribble(vec![], Rng::new(&[cx.r.next()]));
    io(x.serialize_cached(&mut w))?;
    eq_or(&format!("bytes written for {:?}", v), w.0.len(), size)?;
    // Every length prefix in it is true.
    match merge(&ty, &default(&ty), &w.0) {
        Ok((d, rest)) if rest.is_empty() && (has_map(&ty, 6) || may_rewrite(&ty, &d, w.0.len())) => {}
        _ => return Err(format!("{:?} is written as {:?}, which has wrong lengths in it", v, w.0)),
    }
    cx.note(&w.0);
    for _ in 0..3 {
        let n = match cx.r.below(3) {
            0 => None,
            1 => Some(cx.r.below(2100) as u32),
            _ => Some((cx.r.bits(32) as u32) & FIELD_MAX),
        };
        let om = cx.r.chance(1, 2);
        // A freshly built value, so that no size is known from before.
        let x = T::build(&v, &Runtime::new());
        let size = io(x.compute_size_nested(n, om))?;
        let mut out = vec![];
        io(x.serialize_nested(n, om, &mut out))?;
        eq_or(&format!("bytes written for {:?} framed as {:?} (omissible: {})", v, n, om), out.len(), size as usize)?;
    }
    Ok(())
}

/// Whether this content, encoded anew, has that length.
fn may_rewrite(ty: &Ty, v: &Val, len: usize) -> bool {
    enc(ty, v).len() == len
}

// C03

fn c03<T: Probe>(cx: &mut Cx) -> Res {
    let (x, v) = value::<T>(cx);
    let bytes = x.to_bytes();
    cx.note(&bytes);
    let mut reader = Reader::new(&*bytes);
    let y = io(T::deserialize(&mut reader)).map_err(|e| format!("decoding {:?}: {}", v, e))?;
    eq_or(&format!("{:?} encoded as {:?} decoded", v, bytes), y.val(), v.clone())?;
    if !(x == y) {
        return Err(format!("decoded value does not equal {:?}", v));
    }
    if !io(reader.eof())? {
        return Err(format!("not all of the encoding {:?} of {:?} was consumed", bytes, v));
    }
    let c = Chunky::new(&bytes, &mut cx.r);
    let mut reader = Reader::new(c);
    let y = io(T::deserialize(&mut reader))?;
    eq_or("decoded in chunks", y.val(), v.clone())?;
    if !io(reader.eof())? {
        return Err("not all consumed in chunks".into());
    }
    // Framed, followed by something else.
    let tail = [0x80u8, 7, 0xff];
    let mut b = nested_bytes(&x, None, false)?;
    b.extend(&tail);
    let mut reader = Reader::new(&*b);
    let y = io(T::deserialize_nested(T::WIRE_TYPE, &mut reader))?;
    eq_or("decoded from its frame", y.val(), v)?;
    let mut rest = vec![];
    io(reader.read_to_end(&mut rest))?;
    eq_or("left after the frame", &*rest, &tail[..])
}

fn c03_big_key(_: &mut Cx) -> Res {
    let mut m: Map<u32, u8> = Map::new(Runtime::new());
    m.insert(FIELD_MAX, 1);
    let y: Map<u32, u8> = io(Deserialize::deserialize(&mut Reader::new(&*calm(|| m.to_bytes())?)))?;
    if !(y == m) {
        return Err("map with the largest key is not restored".into());
    }
    Ok(())
}

/// The recorded finding: whether it still fails as recorded.
pub fn finding_big_key() -> bool {
    let mut m: Map<u32, u8> = Map::new(Runtime::new());
    m.insert(FIELD_MAX + 1, 1);
    calm(|| m.to_bytes()).is_err()
}

// C04

fn wire(wt: Wt) -> WireType {
    match wt {
        Wt::V => WireType::Varint,
        Wt::S => WireType::Sized,
    }
}

struct AsVarint;
impl HasWireType for AsVarint {
    const WIRE_TYPE: WireType = WireType::Varint;
}
struct AsSized;
impl HasWireType for AsSized {
    const WIRE_TYPE: WireType = WireType::Sized;
}

fn c04_pair(n: u32) -> Res {
    for &wt in &[Wt::V, Wt::S] {
        let w = wire(wt);
        let code = if wt == Wt::V { 0 } else { 2 };
        let t1 = wire_fmt::tag(n, w).ok();
        let t2 = w.tag(n).ok();
        let t3 = match wt {
            Wt::V => AsVarint.tag(n).ok(),
            Wt::S => AsSized.tag(n).ok(),
        };
        let want = if n <= FIELD_MAX { Some(n * 8 + code) } else { None };
        if t1 != want || t2 != want || t3 != want {
            return Err(format!("tag of field {} as {:?} is {:?}, {:?}, {:?}", n, w, t1, t2, t3));
        }
        if let Some(t) = want {
            let p = io(wire_fmt::parse_tag(t))?;
            if p != (n, w) {
                return Err(format!("tag {} of field {} as {:?} is parsed as {:?}", t, n, w, p));
            }
        }
    }
    if wire_fmt::validate_field_number(n).is_ok() != (n <= FIELD_MAX) {
        return Err(format!("field number {} is wrongly judged", n));
    }
    Ok(())
}

fn c04_word(w: u32) -> Res {
    let got = wire_fmt::parse_tag(w).ok();
    let want = match w % 8 {
        0 => Some((w / 8, WireType::Varint)),
        2 => Some((w / 8, WireType::Sized)),
        _ => None,
    };
    if got != want {
        return Err(format!("tag word {} is parsed as {:?}", w, got));
    }
    if let Some((n, t)) = got {
        if wire_fmt::tag(n, t).ok() != Some(w) {
            return Err(format!("tag word {} does not tag back", w));
        }
    }
    Ok(())
}

fn c04_pairs(cx: &mut Cx) -> Res {
    for _ in 0..256 {
        let n = cx.r.bits(32) as u32;
        cx.note(&n.to_le_bytes());
        c04_pair(n)?;
        c04_pair(n & FIELD_MAX)?;
    }
    Ok(())
}

fn c04_words(cx: &mut Cx) -> Res {
    for _ in 0..256 {
        let w = cx.r.bits(32) as u32;
        cx.note(&w.to_le_bytes());
        c04_word(w)?;
        let b = enc(&Ty::U(32), &Val::U(w as u64));
        let got = Reader::new(&*b).read_tag().ok();
        if got != wire_fmt::parse_tag(w).ok() {
            return Err(format!("read_tag of {} gives {:?}", w, got));
        }
    }
    Ok(())
}

fn c04_edges(cx: &mut Cx) -> Res {
    for n in (0..5000).chain(FIELD_MAX - 1000..FIELD_MAX + 1000).chain(u32::MAX - 1000..=u32::MAX) {
        c04_pair(n)?;
        c04_word(n)?;
        cx.note(&n.to_le_bytes());
    }
    for k in 0..32 {
        for d in 0..9u32 {
            c04_pair((1u32 << k).wrapping_add(d).wrapping_sub(4))?;
        }
    }
    for v in 0..100_000u32 {
        let got = WireType::from_value(v).ok();
        let want = match v {
            0 => Some(WireType::Varint),
            2 => Some(WireType::Sized),
            _ => None,
        };
        eq_or(&format!("wire type {}", v), got, want)?;
    }
    eq_or("codes", (WireType::Varint.value(), WireType::Sized.value()), (0, 2))
}

/// A stride through all words and field numbers.
fn c04_sweep(cx: &mut Cx) -> Res {
    let step = if cx.thorough { 61 } else { 100_003 } * cx.shard.1;
    let mut w = cx.shard.0;
    while w < 1 << 32 {
        c04_word(w as u32)?;
        c04_pair(w as u32)?;
        w += step;
    }
    Ok(())
}

// C05

/// Writes every field.
struct All;
impl Inject for All {
    fn at_boundary(&mut self, _: &[Field]) -> Vec<u8> {
        vec![]
    }
    fn in_map(&mut self, _: KeyTy, _: &Ty) -> Vec<u8> {
        vec![]
    }
    fn keep_default(&mut self) -> bool {
        true
    }
}

fn c05_fields(fs: &[Field], vs: &[Val], mut s: &[u8]) -> Res {
    let mut there = vec![];
    while !s.is_empty() {
        let (t, r) = get_varint(s, 32)?;
        there.push((t / 8) as u32);
        s = skip(if t % 8 == 0 { Wt::V } else { Wt::S }, r)?;
    }
    for (f, v) in fs.iter().zip(vs) {
        if !there.contains(&f.tag) && *v != default(&(f.ty)()) {
            return Err(format!("field {} is left out although it is {:?}", f.tag, v));
        }
    }
    Ok(())
}

fn c05<T: Probe>(cx: &mut Cx) -> Res {
    let ty = T::ty();
    let fuel = 12;
    let v = match cx.r.below(3) {
        0 => default(&ty),
        _ => gen(&ty, &mut cx.r, &mut { fuel }),
    };
    let x = T::build(&v, &Runtime::new());
    let is_default = v == default(&ty);
    let n = cx.r.below(2100) as u32;
    for &(num, om) in &[(Some(n), true), (Some(n), false), (None, true), (None, false)] {
        let size = io(x.compute_size_nested(num, om))?;
        let out = nested_bytes(&x, num, om)?;
        if (size == 0 || out.is_empty()) && !(num.is_some() && om && is_default) {
            return Err(format!("{:?} is left out (field {:?}, omissible {})", v, num, om));
        }
    }
    let bytes = x.to_bytes();
    cx.note(&bytes);
    let err = |e: String| format!("{:?} encoded as {:?}: {}", v, bytes, e);
    match (ty.norm(), &v) {
        (Ty::Struct(_, fs), Val::Struct(vs)) => c05_fields(&fs, vs, &bytes).map_err(err)?,
        (Ty::Enum(_, es), Val::Enum(i, vs)) => {
            c05_fields(&es[*i].1, vs, get_varint(&bytes, 32).map_err(err)?.1).map_err(err)?
        }
        _ => {}
    }
    // The same is decoded as when nothing is left out.
    let all = enc_with(&ty, &v, &mut All);
    let y = io(T::deserialize(&mut Reader::new(&*bytes)))?;
    let z = io(T::deserialize(&mut Reader::new(&*all)))?;
    eq_or(&format!("decoded from {:?}, and with all fields from {:?}", bytes, all), y.val(), z.val())
}

// C06

struct Foreign {
    r: Rng,
    n: u32,
}

impl Foreign {
    fn body(&mut self, wt: Wt) -> Vec<u8> {
        match wt {
            Wt::V => {
                let mut b: Vec<u8> = (0..self.r.below(12)).map(|_| self.r.next() as u8 | 0x80).collect();
                b.push(self.r.next() as u8 & 0x7f);
                b
            }
            Wt::S => {
                let n = match self.r.below(9) {
                    0 => 127 + self.r.below(3),
                    1 => 255 + self.r.below(300),
                    2 if self.n < 4 => 16383 + self.r.below(300),
                    _ => self.r.below(6),
                };
                let n = if self.n < 20 { blob_len(&mut self.r).unwrap_or(n) } else { n };
                let mut b = varint(n as u128);
                b.extend((0..n).map(|_| self.r.next() as u8));
                b
            }
        }
    }

    fn field(&mut self, n: u32, wt: Wt) -> Vec<u8> {
        self.n += 1;
        let mut b = tag_bytes(n, wt);
        b.extend(self.body(wt));
        b
    }
}

fn other(w: Wt) -> Wt {
    match w {
        Wt::V => Wt::S,
        Wt::S => Wt::V,
    }
}

impl Inject for Foreign {
    fn at_boundary(&mut self, fs: &[Field]) -> Vec<u8> {
        let mut out = vec![];
        while self.r.chance(1, 3) && self.n < 30 {
            if !fs.is_empty() && self.r.chance(1, 2) {
                let i = self.r.below(fs.len());
                let wt = other((fs[i].ty)().wt());
                out.extend(self.field(fs[i].tag, wt));
            } else {
                let n = (self.r.bits(32) as u32) & FIELD_MAX;
                if fs.iter().all(|f| f.tag != n) {
                    let wt = if self.r.chance(1, 2) { Wt::V } else { Wt::S };
                    out.extend(self.field(n, wt));
                }
            }
        }
        out
    }
    fn in_map(&mut self, kt: KeyTy, t: &Ty) -> Vec<u8> {
        let mut out = vec![];
        while self.r.chance(1, 3) && self.n < 30 {
            let k = gen_key(kt, &mut self.r);
            out.extend(self.field(k, other(t.wt())));
        }
        out
    }
    fn keep_default(&mut self) -> bool {
        false
    }
}

fn c06<T: Probe>(cx: &mut Cx) -> Res {
    let ty = T::ty();
    let v = gen(&ty, &mut cx.r, &mut 25);
    let mut inj = Foreign { r: Rng::new(&[cx.r.next()]), n: 0 };
    let bytes = enc_with(&ty, &v, &mut inj);
    if inj.n > 0 {
        cx.note(&bytes);
    }
    let y = io(T::deserialize(&mut Reader::new(&*bytes))).map_err(|e| format!("{:?} with foreign fields {:?}: {}", v, bytes, e))?;
    let v = io(T::deserialize(&mut Reader::new(&*enc(&ty, &v))))?.val();
    eq_or(&format!("{:?} with foreign fields {:?} decoded", v, bytes), y.val(), v.clone())?;
    let c = Chunky::new(&bytes, &mut cx.r);
    let y = io(T::deserialize(&mut Reader::new(c)))?;
    eq_or("decoded in chunks", y.val(), v)
}

fn c06_skip(cx: &mut Cx) -> Res {
    for _ in 0..20 {
        let wt = if cx.r.chance(1, 2) { Wt::V } else { Wt::S };
        let mut f = Foreign { r: Rng::new(&[cx.r.next()]), n: 0 };
        let mut b = f.body(wt);
        let tail: Vec<u8> = (0..cx.r.below(9)).map(|_| cx.r.next() as u8).collect();
        b.extend(&tail);
        cx.note(&b);
        let mut rest = vec![];
        if cx.r.chance(1, 2) {
            let mut r = Reader::new(&*b);
            if cx.r.chance(1, 2) {
                io(r.eof())?;
            }
            io(r.skip_field(wire(wt)))?;
            io(r.read_to_end(&mut rest))?;
        } else {
            let mut r = Reader::new(Chunky::new(&b, &mut cx.r));
            io(r.skip_field(wire(wt)))?;
            if cx.r.chance(1, 2) {
                io(r.eof())?;
            }
            io(r.read_to_end(&mut rest))?;
        }
        eq_or(&format!("left after skipping {:?} as {:?}", b, wt), rest, tail)?;
    }
    Ok(())
}

// C07

fn hostile(ty: &Ty, cx: &mut Cx) -> Vec<u8> {
    let r = &mut cx.r;
    let mut b = match r.below(6) {
        0 => (0..r.below(40)).map(|_| r.next() as u8).collect(),
        1 => vec![*r.pick(&[0u8, 1, 2, 8, 10, 127, 128, 255]); r.below(60)],
        _ => {
            let v = gen(ty, r, &mut 12);
            let mut inj = Foreign { r: Rng::new(&[r.next()]), n: 20 };
            enc_with(ty, &v, &mut inj)
        }
    };
    b.truncate(if scale() == Scale::Blobs { 200_000 } else { 3000 });
    for _ in 0..r.below(4) {
        let i = r.below(b.len() + 1);
        match r.below(6) {
            0 => b.truncate(i),
            1 if i < b.len() => b[i] = r.next() as u8,
            2 if i < b.len() => b[i] ^= 1 << r.below(8),
            3 => {
                // An immense length, or number.
                let k = r.below(65);
                let m = if k == 64 { !0u64 } else { 1u64 << k };
                let mut w = varint((m.wrapping_sub(r.next() % 2)) as u128);
                w.extend(b.split_off(i));
                b.extend(w);
            }
            4 => {
                // A varint without end, or a long one.
                let n = r.below(40);
                let mut w = vec![0x80 | (r.next() as u8); n];
                w.extend(b.split_off(i));
                b.extend(w);
            }
            _ => {
                let w = varint(r.bits(32) as u128);
                let t = b.split_off(i);
                b.extend(w);
                b.extend(t);
            }
        }
    }
    b
}

fn c07<T: Probe>(cx: &mut Cx) -> Res {
    let ty = T::ty();
    for _ in 0..4 {
        let b = hostile(&ty, cx);
        cx.note(&b);
        let what = |e: String| format!("decoding {:?} {}", b, e);
        let v = gen(&ty, &mut cx.r, &mut 8);
        let mut x: T = detached(&v);
        // What is there already may be moved to grow.
        let n = b.len() + x.compute_size() as usize;
        let ok = match cx.r.below(4) {
            0 => frugal(b.len(), || T::deserialize(&mut Reader::new(&*b)).is_ok()),
            1 => frugal(n, || x.merge(&mut Reader::new(&*b)).is_ok()),
            2 => {
                let mut c = Chunky::new(&b, &mut cx.r);
                if cx.r.chance(1, 2) {
                    c.fail_at = Some(cx.r.below(10));
                }
                frugal(n, || x.merge(&mut Reader::new(c)).is_ok())
            }
            _ => {
                let wt = wire(if cx.r.chance(1, 2) { Wt::V } else { Wt::S });
                frugal(b.len(), || T::deserialize_nested(wt, &mut Reader::new(&*b)).is_ok())
            }
        }
        .map_err(what)?;
        let _ = ok;
    }
    Ok(())
}

fn c07_replay<T: SProbe>(cx: &mut Cx) -> Res {
    let ty = T::ty();
    let v = gen(&ty, &mut cx.r, &mut 10);
    let rec = Recorder::default();
    let mut b = vec![];
    for _ in 0..1 + cx.r.below(3) {
        let mut e = gen_entry(&ty, &v, cx);
        if cx.r.chance(1, 2) {
            e.payload = hostile(&ty, cx);
        }
        b.extend(entry_bytes(&e));
    }
    if cx.r.chance(1, 3) {
        b = hostile(&entry_ty(), cx);
    }
    for _ in 0..cx.r.below(2) {
        let i = cx.r.below(b.len() + 1);
        if i < b.len() {
            b[i] = cx.r.next() as u8;
        }
    }
    cx.note(&b);
    let mut x: T = T::build(&v, &Runtime::with_logger(rec));
    frugal(b.len() + x.compute_size() as usize, || x.replay(&mut Reader::new(&*b)).is_ok()).map_err(|e| format!("replaying {:?} on {:?} {}", b, v, e))?;
    Ok(())
}

fn c07_reader(cx: &mut Cx) -> Res {
    for _ in 0..8 {
        let b = hostile(&Ty::Vec(u16_ty), cx);
        cx.note(&b);
        let op = cx.r.below(5);
        frugal(b.len(), || {
            let mut r = Reader::new(&*b);
            match op {
                0 => {
                    let _ = r.read_tag();
                }
                1 => {
                    let _ = r.skip_field(WireType::Sized);
                }
                2 => {
                    let _ = r.skip_field(WireType::Varint);
                }
                3 => {
                    if let Ok(mut n) = r.nested() {
                        let _ = n.eof();
                        let mut out = vec![];
                        let _ = n.read_to_end(&mut out);
                    };
                }
                _ => {
                    if let Ok(mut n) = r.nested() {
                        if let Ok(mut n) = n.nested() {
                            let _ = n.skip_field(WireType::Sized);
                        };
                    };
                }
            }
        })
        .map_err(|e| format!("reading {:?} (operation {}) {}", b, op, e))?;
    }
    Ok(())
}

fn u16_ty() -> Ty {
    Ty::U(16)
}

// C08

fn c08<T: Probe>(cx: &mut Cx) -> Res {
    let ty = T::ty();
    // Neighbours, some truncated or with more in them than the type takes.
    let mut b = vec![];
    for _ in 0..1 + cx.r.below(3) {
        let v = gen(&ty, &mut cx.r, &mut 10);
        let mut body = enc(&ty, &v);
        if ty.wt() == Wt::S && cx.r.chance(1, 3) {
            match cx.r.below(2) {
                0 => body.extend(enc(&ty, &gen(&ty, &mut cx.r, &mut 5))),
                _ => body.extend((0..cx.r.below(4)).map(|_| cx.r.below(3) as u8)),
            }
        }
        b.extend(framed(&ty, body));
    }
    b.extend((0..cx.r.below(6)).map(|_| cx.r.next() as u8));
    if cx.r.chance(1, 4) {
        let n = cx.r.below(b.len() + 1);
        b.truncate(n);
    }
    cx.note(&b);
    let v0 = if cx.r.chance(1, 2) { default(&ty) } else { gen(&ty, &mut cx.r, &mut 6) };
    let mut s = &b[..];
    let mut reader = Reader::new(Chunky::new(&b, &mut cx.r));
    for _ in 0..4 {
        // What it makes of exactly its own bytes, and what follows them.
        let (body, next) = match skip(ty.wt(), s) {
            Ok(next) => (&s[..s.len() - next.len()], next),
            Err(_) => return Ok(()),
        };
        let body = if ty.wt() == Wt::S { get_varint(body, 64)?.1 } else { body };
        let mut alone: T = detached(&v0);
        if alone.merge(&mut Reader::new(body)).is_err() {
            return Ok(());
        }
        let want = (alone.val(), next);
        let mut x: T = detached(&v0);
        if cx.r.chance(1, 3) {
            io(reader.eof())?;
        }
        io(x.merge_nested(T::WIRE_TYPE, &mut reader)).map_err(|e| format!("{:?}: {}", b, e))?;
        s = want.1;
        eq_or(&format!("value before the last {} bytes of {:?}", s.len(), b), x.val(), want.0)?;
    }
    let mut rest = vec![];
    io(reader.read_to_end(&mut rest))?;
    eq_or(&format!("left of {:?}", b), &*rest, s)
}

fn ops<R: Read>(reader: &mut Reader<R>, s: &mut &[u8], limit: Option<usize>, r: &mut Rng, depth: u32, trace: &mut String) -> Res {
    // `s`: what the reader has left, of which `limit` bytes may be read here.
    let mut left = limit.unwrap_or(s.len()).min(s.len());
    let mut take = |s: &mut &[u8], n: usize, left: &mut usize| -> Vec<u8> {
        let out = s[..n].to_vec();
        *s = &s[n..];
        *left -= n;
        out
    };
    for _ in 0..1 + r.below(6) {
        match r.below(8) {
            0 | 1 => {
                *trace += "eof ";
                let e = io(reader.eof())?;
                eq_or(&format!("end of input ({})", trace), e, left == 0)?;
            }
            2 => {
                let n = if r.chance(1, 8) { r.below(70) * r.below(70) } else { r.below(5) };
                *trace += &format!("read_exact {} ", n);
                let mut buf = vec![0; n];
                let ok = reader.read_exact(&mut buf).is_ok();
                eq_or(&format!("success ({})", trace), ok, n <= left)?;
                if !ok {
                    // What is left after a failed read is unspecified.
                    *trace += "stop ";
                    let mut rest = vec![];
                    io(reader.read_to_end(&mut rest))?;
                    *s = &s[left..];
                    return Ok(());
                }
                let want = take(s, n, &mut left);
                eq_or(&format!("bytes read ({})", trace), buf, want)?;
            }
            3 => {
                let n = if r.chance(1, 8) { 1 + r.below(70) * r.below(70) } else { 1 + r.below(5) };
                *trace += &format!("read {} ", n);
                let mut buf = vec![0; n];
                let got = loop {
                    match reader.read(&mut buf) {
                        Ok(k) => break k,
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                        Err(e) => return Err(e.to_string()),
                    }
                };
                if got > left || (got == 0) != (left == 0) {
                    return Err(format!("read {} bytes of {} ({})", got, left, trace));
                }
                let want = take(s, got, &mut left);
                eq_or(&format!("bytes read ({})", trace), buf[..got].to_vec(), want)?;
            }
            4 if left > 0 => {
                *trace += "u8 ";
                // One byte through a borrowed reader.
                let mut buf = [0];
                {
                    let mut b = reader.as_mut_read();
                    if r.chance(1, 2) {
                        *trace += "eof ";
                        let e = io(b.eof())?;
                        eq_or(&format!("end of input ({})", trace), e, false)?;
                    }
                    io(b.read_exact(&mut buf))?;
                }
                let want = take(s, 1, &mut left);
                eq_or(&format!("byte borrowed ({})", trace), buf.to_vec(), want)?;
            }
            5 if depth > 0 => {
                *trace += "nested( ";
                match get_varint(&s[..left], 64) {
                    Err(_) => continue,
                    Ok((n, rest)) => {
                        let used = left - rest.len();
                        take(s, used, &mut left);
                        let body = (n as usize).min(left).min(1 << 40);
                        let body = if n > left as u64 { left } else { body };
                        let before = s.len();
                        {
                            let mut nested = io(reader.nested())?;
                            // Recursion over reader types is cut here.
                            inner_ops(&mut nested, s, body, r, trace)?;
                        }
                        *trace += ") ";
                        left -= before - s.len();
                    }
                }
            }
            6 => {
                let wt = if r.chance(1, 2) { Wt::V } else { Wt::S };
                if let Ok(rest) = skip(wt, &s[..left]) {
                    *trace += &format!("skip {:?} ", wt);
                    let used = left - rest.len();
                    io(reader.skip_field(wire(wt)))?;
                    take(s, used, &mut left);
                }
            }
            _ => {
                if let Ok((n, rest)) = get_varint(&s[..left], 32) {
                    *trace += "u32 ";
                    let used = left - rest.len();
                    let got = io(u32::deserialize(reader))?;
                    eq_or(&format!("number ({})", trace), got as u64, n)?;
                    take(s, used, &mut left);
                }
            }
        }
    }
    if limit.is_some() {
        *trace += "drain ";
        let mut rest = vec![];
        io(reader.read_to_end(&mut rest))?;
        let want = take(s, left, &mut left);
        eq_or(&format!("rest of the nested reader ({})", trace), rest, want)?;
    }
    Ok(())
}

fn inner_ops<R: Read>(reader: &mut Reader<R>, s: &mut &[u8], body: usize, r: &mut Rng, trace: &mut String) -> Res {
    let mut dynr = Reader::new(reader as &mut dyn Read);
    ops(&mut dynr, s, Some(body), r, 1, trace)
}

/// Frames in frames, among other bytes.
fn frames(cx: &mut Cx, depth: u32) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..cx.r.below(8) {
        let mut body = if depth > 0 && cx.r.chance(1, 4) { frames(cx, depth - 1) } else { vec![] };
        let n = match cx.r.below(40) {
            0 | 1 => 125 + cx.r.below(6),
            2 => 250 + cx.r.below(100),
            3 => blob_len(&mut cx.r).unwrap_or(16380 + cx.r.below(8)),
            _ => cx.r.below(9),
        };
        body.extend((0..n).map(|_| cx.r.below(20) as u8 | if cx.r.chance(1, 9) { 128 } else { 0 }));
        if cx.r.chance(2, 3) {
            b.extend(varint(body.len() as u128));
        }
        b.extend(body);
    }
    b
}

fn c08_reader(cx: &mut Cx) -> Res {
    let mut b = frames(cx, 3);
    let tail: Vec<u8> = (0..cx.r.below(9)).map(|_| cx.r.next() as u8).collect();
    b.extend(tail);
    cx.note(&b);
    let mut trace = String::new();
    let mut s = &b[..];
    let mut r = cx.r.clone();
    let res = if cx.r.chance(1, 2) {
        ops(&mut Reader::new(&b[..]), &mut s, None, &mut r, 2, &mut trace)
    } else {
        let c = Chunky::new(&b, &mut r);
        ops(&mut Reader::new(c), &mut s, None, &mut r, 2, &mut trace)
    };
    res.map_err(|e| format!("input {:?}: {}", b, e))
}

// C09

fn c09<T: Probe>(cx: &mut Cx) -> Res {
    let ty = T::ty();
    let pre = gen(&ty, &mut cx.r, &mut 15);
    let a = if cx.r.chance(1, 2) { tweak(&ty, &pre, &mut cx.r) } else { gen(&ty, &mut cx.r, &mut 15) };
    let b = if cx.r.chance(1, 2) { tweak(&ty, &a, &mut cx.r) } else { gen(&ty, &mut cx.r, &mut 15) };
    let mut inj = Foreign { r: Rng::new(&[cx.r.next()]), n: if cx.r.chance(1, 2) { 0 } else { 99 } };
    let ba = enc_with(&ty, &a, &mut inj);
    let bb = enc_with(&ty, &b, &mut inj);
    cx.note(&ba);
    let mut x: T = detached(&pre);
    // In an enum two variants in a row are no message.
    let both = match ty.norm() {
        Ty::Struct(..) | Ty::Map(..) | Ty::HMap(..) => true,
        _ => false,
    };
    io(x.merge(&mut Reader::new(&*ba)))?;
    let (m1, _) = merge(&ty, &pre, &ba)?;
    eq_or(&format!("{:?} merged with {:?} ({:?})", pre, a, ba), x.val(), m1.clone())?;
    io(x.merge(&mut Reader::new(&*bb)))?;
    let (m2, _) = merge(&ty, &m1, &bb)?;
    eq_or(&format!("{:?} merged with {:?} ({:?})", m1, b, bb), x.val(), m2.clone())?;
    if both {
        let mut y: T = detached(&pre);
        let mut c = ba.clone();
        c.extend(&bb);
        io(y.merge(&mut Reader::new(&*c)))?;
        eq_or(&format!("{:?} merged with the concatenation {:?}", pre, c), y.val(), m2)?;
    }
    if ty.wt() == Wt::S && cx.r.chance(1, 2) {
        // The empty message changes nothing, where it is one.
        let mut x: T = detached(&pre);
        let want = merge(&ty, &pre, &[]);
        if let Ok((w, _)) = want {
            io(x.merge(&mut Reader::new(&b""[..])))?;
            eq_or("merged with nothing", x.val(), w)?;
        }
    }
    Ok(())
}

// C10

fn stir<T: Probe>(x: &T, cx: &mut Cx) -> Res {
    for _ in 0..cx.r.below(4) {
        match cx.r.below(8) {
            0 => {
                x.compute_size();
            }
            1 => {
                x.cache_size();
            }
            2 => {
                let _ = x.to_bytes();
            }
            3 => {
                let n = cx.r.below(3000) as u32;
                io(x.compute_size_nested(n, true))?;
            }
            4 => {
                let mut out = vec![];
                io(x.steit_serialize(&mut out))?;
            }
            5 => {
                let _ = nested_bytes(x, Some(cx.r.below(300) as u32), cx.r.chance(1, 2))?;
            }
            6 => {
                let _ = Bytes::from_value(x);
            }
            _ => {
                let o = Some(vec![x.clone()]);
                let _ = o.to_bytes();
            }
        }
    }
    Ok(())
}

fn c10_look<T: Probe>(x: &T, cx: &mut Cx, trace: &str) -> Res {
    let ty = T::ty();
    let m = x.val();
    // The same content, built afresh and never sized.
    let new = T::build(&m, &Runtime::new()).to_bytes();
    let same = |got: &[u8]| -> Res {
        if *got == *new {
            return Ok(());
        }
        if got.len() == new.len() && has_map(&ty, 6) {
            if let (Ok((a, _)), Ok((b, _))) = (merge(&ty, &default(&ty), got), merge(&ty, &default(&ty), &new)) {
                if a == b {
                    return Ok(());
                }
            }
        }
        Err(format!("{:?} is written as {:?} instead of {:?} ({})", m, got, new, trace))
    };
    let bytes = x.to_bytes();
    same(&bytes)?;
    let mut out = vec![];
    x.cache_size();
    io(x.serialize_cached(&mut out))?;
    same(&out)?;
    let mut f = nested_bytes(x, None, false)?;
    let head = framed(&ty, bytes.clone()).len() - bytes.len();
    same(&f.split_off(head))?;
    // Through an enclosing value and a clone.
    let w = (x.clone(), 1u8);
    let mut b = w.to_bytes();
    eq_or("last byte of a tuple", b.pop(), Some(1))?;
    same(&b.split_off(head))?;
    let _ = cx;
    eq_or(&format!("content after serialising ({})", trace), x.val(), m)
}

fn c10<T: Probe>(cx: &mut Cx) -> Res {
    let (mut x, mut m) = value::<T>(cx);
    let mut trace = String::new();
    for _ in 0..1 + cx.r.below(4) {
        stir(&x, cx)?;
        let first = x.to_bytes();
        stir(&x, cx)?;
        let c = x.clone();
        eq_or(&format!("bytes written again ({})", trace), x.to_bytes(), first.clone())?;
        if !has_hmap(&T::ty()) {
            eq_or(&format!("bytes of a clone ({})", trace), c.to_bytes(), first)?;
        }
        c10_look(&x, cx, &trace)?;
        if cx.r.chance(1, 3) {
            x = c;
        }
        let mut r = Rng::new(&[cx.r.next()]);
        if x.set_any(&mut r, &mut m) {
            trace += "set ";
        } else if cx.r.chance(1, 2) {
            let b = enc(&T::ty(), &gen(&T::ty(), &mut cx.r, &mut 10));
            io(x.merge(&mut Reader::new(&*b)))?;
            trace += "merge ";
        }
        m = x.val();
    }
    cx.note(&enc(&T::ty(), &m));
    c10_look(&x, cx, &trace)
}

fn has_hmap(ty: &Ty) -> bool {
    match ty {
        Ty::HMap(..) => true,
        Ty::Vec(t) | Ty::Opt(t) | Ty::Boxed(t) | Ty::Arr(_, t) => has_hmap(&t()),
        Ty::Tup(ts) => ts.iter().any(|t| has_hmap(&t())),
        Ty::Struct(_, fs) => fs.iter().any(|f| !matches!((f.ty)(), Ty::List(_) | Ty::Map(..)) && has_hmap(&(f.ty)())),
        Ty::Enum(_, es) => {
            es.iter().any(|e| e.1.iter().any(|f| !matches!((f.ty)(), Ty::List(_) | Ty::Map(..)) && has_hmap(&(f.ty)())))
        }
        _ => false,
    }
}

fn c10_state<T: SProbe>(cx: &mut Cx) -> Res {
    let rec = Recorder::default();
    let (mut x, mut m) = start::<T>(cx, &rec);
    let mut trace = String::new();
    for _ in 0..if scale() == Scale::Long { 60 } else { 2 + cx.r.below(6) } {
        stir(&x, cx)?;
        let mut c = Ctx::new(Rng::new(&[cx.r.next()]));
        x.mutate(&mut c, &[], &mut m);
        trace += &c.what.join(" ");
        trace += "; ";
        let first = x.to_bytes();
        stir(&x, cx)?;
        eq_or(&format!("bytes written again ({})", trace), x.to_bytes(), first.clone())?;
        eq_or(&format!("bytes of a clone ({})", trace), x.clone().to_bytes(), first)?;
        c10_look(&x, cx, &trace)?;
        m = x.val();
    }
    cx.note(&enc(&T::ty(), &m));
    Ok(())
}

// C13

fn c13_maybe(cx: &mut Cx) -> Res {
    let rec = Recorder::default();
    let mut rt = Runtime::with_logger(rec);
    let l = logger_of(&rt);
    let mut p = vec![];
    for _ in 0..cx.r.below(3) {
        let n = cx.r.below(300) as u32;
        rt = rt.nested(n);
        p.push(n);
    }
    macro_rules! one {
        ($t:ty) => {{
            let v = gen(&<$t as Probe>::ty(), &mut cx.r, &mut 8);
            Maybe::<$t>::some(rt.clone(), detached(&v)).paths_ok(&p, l)?;
            Maybe::<$t>::none(rt.clone()).paths_ok(&p, l)?;
            Maybe::<$t>::from_option(rt.clone(), Some(detached(&v))).paths_ok(&p, l)?;
            Maybe::<$t>::from_option(rt.clone(), None).paths_ok(&p, l)?;
            cx.note(format!("{:?}{:?}", v, p).as_bytes());
        }};
    }
    one!(i32);
    one!(Leaf);
    one!(List<u16>);
    one!(Shape);
    Ok(())
}

// C15

fn some_entry(cx: &mut Cx) -> Entry {
    let r = &mut cx.r;
    let depth = match (scale(), r.below(8)) {
        (Scale::Many, 0) => 120 + r.below(200),
        (_, 1) => r.below(30),
        _ => r.below(6),
    };
    let path = (0..depth).map(|_| r.bits(32) as u32).collect();
    let n = *r.pick(&[0usize, 1, 3, 126, 127, 128, 200, 300]);
    let n = if r.chance(1, 20) { blob_len(r).unwrap_or(n) } else { n };
    let payload: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    let kind = *r.pick(&[Kind::Update, Kind::Push, Kind::Pop, Kind::Remove]);
    Entry {
        kind,
        path,
        payload: if kind == Kind::Update || kind == Kind::Push { payload } else { vec![] },
        key: if kind == Kind::Remove { r.bits(32) as u32 } else { 0 },
    }
}

fn real(e: &Entry) -> LogEntry {
    let mut node = std::sync::Arc::new(Node::Root);
    for p in &e.path {
        node = std::sync::Arc::new(Node::child(&node, *p));
    }
    let b = Bytes::from_raw(e.payload.clone());
    match e.kind {
        Kind::Update => LogEntry::new_update(&node, &b),
        Kind::Push => LogEntry::new_list_push(&node, &b),
        Kind::Pop => LogEntry::new_list_pop(&node),
        Kind::Remove => LogEntry::new_map_remove(&node, e.key),
    }
}

fn via_runtime(rt: &Runtime, e: &Entry) -> LogEntry {
    let b = Bytes::from_raw(e.payload.clone());
    let mut rt = rt.clone();
    for p in &e.path {
        rt = rt.nested(*p);
    }
    match e.kind {
        Kind::Update => rt.entry_update(&b),
        Kind::Push => rt.entry_list_push(&b),
        Kind::Pop => rt.entry_list_pop(),
        Kind::Remove => rt.entry_map_remove(e.key),
    }
}

fn kind_ok(e: &LogEntry, k: Kind) -> bool {
    use steit::log::LogEntryKind as L;
    matches!(
        (e.kind(), k),
        (L::Update, Kind::Update) | (L::ListPush, Kind::Push) | (L::ListPop, Kind::Pop) | (L::MapRemove, Kind::Remove)
    )
}

fn decode_entries(b: &[u8]) -> Result<Vec<Entry>, String> {
    let mut out = vec![];
    let mut r = Reader::new(b);
    while !io(r.eof())? {
        let e = io(LogEntry::deserialize_nested(LogEntry::WIRE_TYPE, &mut r))?;
        out.push(plain(&e));
    }
    Ok(out)
}

fn c15_buffer(cx: &mut Cx) -> Res {
    let (rt, log) = Runtime::with_logger_returned(BufferLogger::new());
    let mut m: Vec<Entry> = vec![];
    let mut trace = String::new();
    let long = scale() != Scale::Small;
    for _ in 0..if long { 400 } else { 2 + cx.r.below(14) } {
        match if long && cx.r.chance(9, 10) { 2 * cx.r.below(3) } else { cx.r.below(11) } {
            0 | 1 | 2 => {
                let e = some_entry(cx);
                trace += "log ";
                let x = if cx.r.chance(1, 2) { real(&e) } else { via_runtime(&rt, &e) };
                eq_or("entry made", plain(&x), e.clone())?;
                if !kind_ok(&x, e.kind) {
                    return Err(format!("kind of {:?} is {:?}", e, x.kind()));
                }
                match cx.r.below(3) {
                    0 => io(rt.log(x))?,
                    1 => io(log.lock().unwrap().log(x))?,
                    _ => {
                        let mut guard = log.lock().unwrap();
                        let b: &mut BufferLogger = &mut **guard;
                        let mut g = log_box(std::mem::take(b));
                        io(g.log(x))?;
                        *b = g.back();
                    }
                }
                m.push(e);
            }
            3 => {
                let es: Vec<Entry> = (0..cx.r.below(4)).map(|_| some_entry(cx)).collect();
                trace += "log_multi ";
                io(rt.log_multi(es.iter().map(real).collect()))?;
                m.extend(es);
            }
            4 => {
                // The shorthands.
                let k = cx.r.bits(32) as u32;
                let v = cx.r.bits(32) as u32;
                let n = rt.nested(k);
                trace += "shorthand ";
                let (kind, path, payload, key) = match cx.r.below(5) {
                    0 => {
                        io(n.log_update(&v))?;
                        (Kind::Update, vec![k], varint(v as u128), 0)
                    }
                    1 => {
                        io(rt.log_update_child(k, &v))?;
                        (Kind::Update, vec![k], varint(v as u128), 0)
                    }
                    2 => {
                        io(n.log_list_push(&v))?;
                        (Kind::Push, vec![k], varint(v as u128), 0)
                    }
                    3 => {
                        io(n.log_list_pop())?;
                        (Kind::Pop, vec![k], vec![], 0)
                    }
                    _ => {
                        io(n.log_map_remove(v))?;
                        (Kind::Remove, vec![k], vec![], v)
                    }
                };
                m.push(Entry { kind, path, payload, key });
            }
            5 | 6 => {
                trace += "bytes ";
                let b = log.lock().unwrap().bytes();
                look(&b, &m, &trace)?;
            }
            7 => {
                trace += "clear ";
                log.lock().unwrap().clear();
                m.clear();
            }
            8 | 9 => {
                trace += "pluck ";
                let es = log.lock().unwrap().pluck();
                eq_or(&format!("plucked ({})", trace), es.iter().map(plain).collect::<Vec<_>>(), m.clone())?;
                m.clear();
            }
            _ => {
                trace += "pluck_bytes ";
                let b = log.lock().unwrap().pluck_bytes();
                look(&b, &m, &trace)?;
                m.clear();
            }
        }
    }
    let b = log.lock().unwrap().pluck_bytes();
    cx.note(&b);
    look(&b, &m, &trace)?;
    if !log.lock().unwrap().pluck().is_empty() {
        return Err(format!("not empty after being plucked ({})", trace));
    }
    Ok(())
}

/// A boxed logger which gives its buffer back.
struct Boxed(Box<dyn Logger>, std::sync::Arc<std::sync::Mutex<BufferLogger>>);

struct Shared(std::sync::Arc<std::sync::Mutex<BufferLogger>>);
impl Logger for Shared {
    fn log(&mut self, e: LogEntry) -> std::io::Result<()> {
        self.0.lock().unwrap().log(e)
    }
}

fn log_box(b: BufferLogger) -> Boxed {
    let a = std::sync::Arc::new(std::sync::Mutex::new(b));
    Boxed(Box::new(Shared(a.clone())), a)
}

impl Boxed {
    fn log(&mut self, e: LogEntry) -> std::io::Result<()> {
        Logger::log(&mut self.0, e)
    }
    fn back(self) -> BufferLogger {
        std::mem::take(&mut *self.1.lock().unwrap())
    }
}

fn look(b: &[u8], m: &[Entry], trace: &str) -> Res {
    eq_or(&format!("entries decoded from {:?} ({})", b, trace), decode_entries(b)?, m.to_vec())
}

fn c15_replay(cx: &mut Cx) -> Res {
    let (rt, log) = Runtime::with_logger_returned(BufferLogger::new());
    let mut x = World::with_rt(rt);
    let mut m = default(&World::ty());
    for _ in 0..if scale() == Scale::Long { 150 } else { 1 + cx.r.below(8) } {
        let mut c = Ctx::new(Rng::new(&[cx.r.next()]));
        x.mutate(&mut c, &[], &mut m);
        m = x.val();
    }
    let b = log.lock().unwrap().bytes();
    let es = log.lock().unwrap().pluck();
    cx.note(&b);
    eq_or("entries decoded", decode_entries(&b)?, es.iter().map(plain).collect())?;
    let mut y = World::with_rt(Runtime::new());
    io(steit::state::State::replay(&mut y, &mut Reader::new(&*b)))?;
    eq_or("replayed", y.val(), m)
}

impl World {
    fn with_rt(rt: Runtime) -> Self {
        steit::state::State::with_runtime(rt)
    }
}

fn c15_writer(cx: &mut Cx) -> Res {
    // The other loggers take every entry.
    let e = some_entry(cx);
    cx.note(&entry_bytes(&e));
    let rt = Runtime::with_logger(steit::log::loggers::NoopLogger::new());
    io(rt.log(real(&e)))?;
    // An entry survives its own encoding, alone and cloned.
    let x = real(&e);
    let b = x.clone().to_bytes();
    let y = io(LogEntry::deserialize(&mut Reader::new(&*b)))?;
    eq_or("entry decoded", plain(&y), e)
}

// C17

fn c17_list<T: SProbe>(cx: &mut Cx) -> Res {
    let ty = List::<T>::ty();
    let mut m = if cx.r.chance(1, 2) { default(&ty) } else { gen(&ty, &mut cx.r, &mut 30) };
    let mut x: List<T> = List::build(&m, &Runtime::new());
    let mut trace = vec![];
    for _ in 0..if scale() == Scale::Long { 150 } else { 3 + cx.r.below(if cx.thorough { 60 } else { 20 }) } {
        let mut c = Ctx::new(Rng::new(&[cx.r.next()]));
        let fresh = cx.r.chance(1, 12);
        if fresh {
            m = gen(&ty, &mut cx.r, &mut 20);
            x = match &m {
                Val::Seq(vs) => vs.iter().map(|v| detached::<T>(v)).collect(),
                _ => panic!(),
            };
            trace.push(format!("from_iter {:?}", m));
        } else {
            x.mutate(&mut c, &[], &mut m);
            trace.push(c.what.join(" "));
        }
        if let Some(b) = c.bad {
            return Err(format!("{} after {:?}", b, trace));
        }
        let vs = match &m {
            Val::Seq(vs) => vs.clone(),
            _ => panic!(),
        };
        let err = |e: &str| Err(format!("{} after {:?}", e, trace));
        if x.len() != vs.len() || x.is_empty() != vs.is_empty() {
            return err("length");
        }
        for i in 0..vs.len() + 2 {
            if x.get(i).map(|x| x.val()) != vs.get(i).cloned() || x.get_mut(i).map(|x| x.val()) != vs.get(i).cloned() {
                return err("lookup");
            }
            if i < vs.len() && x[i].val() != vs[i] {
                return err("indexing");
            }
        }
        if calm(|| x[vs.len()].val()).is_ok() {
            return err("indexing past the end");
        }
        let a: Vec<Val> = x.iter().map(|x| x.val()).collect();
        let b: Vec<Val> = (&x).into_iter().map(|x| x.val()).collect();
        let d: Vec<Val> = x.iter_mut().map(|x| x.val()).collect();
        let e: Vec<Val> = (&mut x).into_iter().map(|x| x.val()).collect();
        if a != vs || b != vs || d != vs || e != vs {
            return err("iteration");
        }
    }
    cx.note(&enc(&ty, &m));
    Ok(())
}

fn c17_map<K: PKey, V: SProbe>(cx: &mut Cx) -> Res {
    let ty = Map::<K, V>::ty();
    let mut m = if cx.r.chance(1, 2) { default(&ty) } else { gen(&ty, &mut cx.r, &mut 30) };
    let mut x: Map<K, V> = Map::build(&m, &Runtime::new());
    let mut trace = vec![];
    for _ in 0..if scale() == Scale::Long { 150 } else { 3 + cx.r.below(if cx.thorough { 60 } else { 20 }) } {
        let mut c = Ctx::new(Rng::new(&[cx.r.next()]));
        if cx.r.chance(1, 12) {
            // Later duplicates win.
            let k = gen_key(K::TY, &mut cx.r);
            let vs: Vec<(u32, Val)> = (0..cx.r.below(5))
                .map(|_| (if cx.r.chance(1, 2) { k } else { gen_key(K::TY, &mut cx.r) }, gen(&V::ty(), &mut cx.r, &mut 5)))
                .collect();
            trace.push(format!("from_iter {:?}", vs));
            x = vs.iter().map(|(k, v)| (key::<K>(*k), detached::<V>(v))).collect();
            m = Val::Map(vs.into_iter().collect());
        } else {
            x.mutate(&mut c, &[], &mut m);
            trace.push(c.what.join(" "));
        }
        if let Some(b) = c.bad {
            return Err(format!("{} after {:?}", b, trace));
        }
        let vs = match &m {
            Val::Map(vs) => vs.clone(),
            _ => panic!(),
        };
        let err = |e: &str| Err(format!("{} after {:?}", e, trace));
        if x.len() != vs.len() {
            return err("length");
        }
        let mut keys: Vec<u32> = vs.keys().cloned().collect();
        keys.push(gen_key(K::TY, &mut cx.r));
        keys.push(gen_key(K::TY, &mut cx.r));
        for n in keys {
            let k: K = key(n);
            let want = vs.get(&n).cloned();
            if x.contains(&k) != want.is_some()
                || x.get(&k).map(|x| x.val()) != want
                || x.get_mut(&k).map(|x| x.val()) != want
            {
                return err("lookup");
            }
            match want {
                Some(w) => {
                    if x[&k].val() != w {
                        return err("indexing");
                    }
                }
                None => {
                    if calm(|| x[&k].val()).is_ok() {
                        return err("indexing an absent key");
                    }
                }
            }
        }
        let sort = |mut v: Vec<(u32, Val)>| {
            v.sort_by_key(|e| e.0);
            v
        };
        let want: Vec<(u32, Val)> = vs.into_iter().collect();
        let a = sort(x.iter().map(|(k, x)| (k.as_field_number(), x.val())).collect());
        let b = sort((&x).into_iter().map(|(k, x)| (k.as_field_number(), x.val())).collect());
        let d = sort(x.iter_mut().map(|(k, x)| (k.as_field_number(), x.val())).collect());
        let e = sort((&mut x).into_iter().map(|(k, x)| (k.as_field_number(), x.val())).collect());
        if a != want || b != want || d != want || e != want {
            return err("iteration");
        }
    }
    cx.note(&enc(&ty, &m));
    Ok(())
}

fn c17_keys(cx: &mut Cx) -> Res {
    fn k<K: MapKey + Copy + PartialEq + std::fmt::Debug + Into<u64>>(n: u32, max: u64) -> Res {
        match K::try_from_field_number(n) {
            Ok(k) if n as u64 > max || k.into() != n as u64 || k.as_field_number() != n => {
                Err(format!("field number {} is taken as key {:?}", n, k))
            }
            Err(_) if n as u64 <= max => Err(format!("field number {} is refused as key", n)),
            _ => Ok(()),
        }
    }
    let edge = (0..32).flat_map(|b| (0..5u32).map(move |d| (1u32 << b).wrapping_add(d).wrapping_sub(2)));
    let rnd: Vec<u32> = (0..2000).map(|_| cx.r.bits(32) as u32).collect();
    for n in (0..70_000).chain(edge).chain(rnd).chain(u32::MAX - 70_000..=u32::MAX) {
        k::<u8>(n, 255)?;
        k::<u16>(n, 65535)?;
        k::<u32>(n, u32::MAX as u64)?;
        cx.note(&n.to_le_bytes());
    }
    Ok(())
}

// C18

fn aged<T: Probe>(v: &Val, cx: &mut Cx) -> T {
    // The same content, with some history.
    let ty = T::ty();
    let rt = Runtime::new();
    let rt = if cx.r.chance(1, 2) { rt.nested(cx.r.below(99) as u32) } else { rt };
    let x: T = match cx.r.below(4) {
        0 => T::deserialize(&mut Reader::new(&*enc(&ty, v))).unwrap(),
        1 => {
            let x = T::build(v, &rt);
            x.clone()
        }
        _ => T::build(v, &rt),
    };
    let _ = stir(&x, cx);
    x
}

fn c18_pair<T: Probe>(x: &T, a: &Val, y: &T, b: &Val) -> Res {
    let want = content_eq(&T::ty(), a, b);
    if (x == y) != want || (y == x) != want {
        return Err(format!("{:?} == {:?} is {} and {}", a, b, x == y, y == x));
    }
    if (x != y) == want {
        return Err(format!("{:?} != {:?} is {}", a, b, x != y));
    }
    if !(x == x) || !(x.clone() == *x) || !(*x == x.clone()) {
        return Err(format!("{:?} does not equal itself", a));
    }
    if want && x.hash_of() != y.hash_of() {
        return Err(format!("equal {:?} and {:?} hash differently", a, b));
    }
    eq_or("content of a clone", x.clone().val(), a.clone())
}

fn c18<T: Probe>(cx: &mut Cx) -> Res {
    let ty = T::ty();
    let a = gen(&ty, &mut cx.r, &mut 20);
    let b = match cx.r.below(4) {
        0 => a.clone(),
        1 => gen(&ty, &mut cx.r, &mut 20),
        _ => tweak(&ty, &a, &mut cx.r),
    };
    cx.note(format!("{:?}{:?}", a, b).as_bytes());
    let x: T = aged(&a, cx);
    let y: T = aged(&b, cx);
    let (a, b) = (x.val(), y.val());
    c18_pair(&x, &a, &y, &b)
}

fn c18_state<T: SProbe>(cx: &mut Cx) -> Res {
    // Along a history, against values built from scratch.
    let rec = Recorder::default();
    let (mut x, mut m) = start::<T>(cx, &rec);
    let mut before = m.clone();
    for _ in 0..if scale() == Scale::Long { 60 } else { 1 + cx.r.below(8) } {
        let mut c = Ctx::new(Rng::new(&[cx.r.next()]));
        let old = x.clone();
        let om = m.clone();
        x.mutate(&mut c, &[], &mut m);
        m = x.val();
        let y: T = aged(&m, cx);
        c18_pair(&x, &m, &y, &y.val())?;
        c18_pair(&x, &m, &old, &om)?;
        let w = tweak(&T::ty(), &m, &mut cx.r);
        let y: T = aged(&w, cx);
        c18_pair(&x, &m, &y, &y.val())?;
        let y: T = aged(&before, cx);
        c18_pair(&x, &m, &y, &y.val())?;
        if cx.r.chance(1, 3) {
            before = m.clone();
        }
    }
    cx.note(&enc(&T::ty(), &m));
    Ok(())
}

// C19

fn c19<T: Probe>(cx: &mut Cx) -> Res {
    for (name, x, want) in T::ctors() {
        eq_or(&format!("content made by `{}`", name), x.val(), want)?;
    }
    let (mut x, mut m) = value::<T>(cx);
    for _ in 0..5 {
        let before = m.clone();
        let mut r = Rng::new(&[cx.r.next()]);
        if !x.set_any(&mut r, &mut m) {
            break;
        }
        eq_or(&format!("content after a setter on {:?}", before), x.val(), m.clone())?;
        cx.note(format!("{:?}", m).as_bytes());
    }
    Ok(())
}

fn c19_maybe(cx: &mut Cx) -> Res {
    let rt = Runtime::new();
    let v: i32 = cx.r.signed(32) as i32;
    cx.note(&v.to_le_bytes());
    let s = Maybe::some(rt.clone(), v);
    let n: Maybe<i32> = Maybe::none(rt.clone());
    let some = Val::Enum(1, vec![Val::I(v as i64)]);
    let none = Val::Enum(0, vec![]);
    eq_or("some", s.val(), some.clone())?;
    eq_or("none", n.val(), none.clone())?;
    eq_or("from_option", Maybe::from_option(rt.clone(), Some(v)).val(), some)?;
    eq_or("from_option", Maybe::<i32>::from_option(rt, None).val(), none)?;
    eq_or("is_some", (s.is_some(), s.is_none(), n.is_some(), n.is_none()), (true, false, false, true))?;
    eq_or("to_option", (s.to_option(), n.to_option()), (Some(v), None))?;
    let w = v.wrapping_add(cx.r.below(2) as i32);
    if (s == Some(w)) != (v == w) || n == Some(w) || s == None || !(n == None) {
        return Err(format!("comparison of {:?} with Some({})", v, w));
    }
    let _: HashMap<u8, u8> = HashMap::new();
    Ok(())
}

// C22

/// A logger slow enough for others to come in between.
struct Slow(std::sync::Arc<std::sync::Mutex<Vec<Entry>>>, u32);

impl Logger for Slow {
    fn log(&mut self, e: LogEntry) -> std::io::Result<()> {
        self.1 = self.1.wrapping_mul(1103515245).wrapping_add(12345);
        for _ in 0..(self.1 >> 16) % 3 {
            std::thread::yield_now();
        }
        self.0.lock().unwrap().push(plain(&e));
        for _ in 0..(self.1 >> 20) % 3 {
            std::thread::yield_now();
        }
        Ok(())
    }
}

/// What one thread does below its own path; the entries it must find in the log, in batches.
fn c22_thread(rt: Runtime, me: u32, mut r: Rng, pausing: bool) -> Vec<Vec<Entry>> {
    let path = |more: &[u32]| join(&[me], more);
    let simple = |kind, path, payload, key| Entry { kind, path, payload, key };
    let n = 10 + r.below(20);
    let mut list: List<Leaf> = List::build(&Val::Seq((0..n).map(|_| gen(&Leaf::ty(), &mut r, &mut 5)).collect()), &rt.nested(me).nested(0));
    let mut map: Map<u16, u64> = Map::build(&default(&Map::<u16, u64>::ty()), &rt.nested(me).nested(1));
    let mut deck = Deck::build(&default(&Deck::ty()), &rt.nested(me).nested(2));
    let own = rt.nested(me);
    let mut out: Vec<Vec<Entry>> = vec![];
    let bytes = |x: &dyn Fn() -> Vec<u8>| x();
    for step in 0..15 + r.below(25) {
        if r.chance(1, 3) {
            std::thread::yield_now();
        }
        match r.below(if pausing { 10 } else { 8 }) {
            0 => {
                if list.pop().is_some() {
                    out.push(vec![simple(Kind::Pop, path(&[0]), vec![], 0)]);
                }
            }
            1 | 2 => {
                let len = list.len();
                if len > 0 {
                    let i = r.below(len);
                    let last = bytes(&|| list[len - 1].to_bytes());
                    list.swap_remove(i);
                    if i + 1 == len {
                        out.push(vec![simple(Kind::Pop, path(&[0]), vec![], 0)]);
                    } else {
                        out.push(vec![simple(Kind::Pop, path(&[0]), vec![], 0), simple(Kind::Update, path(&[0, i as u32]), last, 0)]);
                    }
                }
            }
            3 => {
                let v = r.next() as u8;
                deck.set_a(v);
                out.push(vec![simple(Kind::Update, path(&[2, 1]), v.to_bytes(), 0)]);
            }
            4 => {
                let k = r.below(4) as u16;
                if map.remove(&k).is_some() {
                    out.push(vec![simple(Kind::Remove, path(&[1]), vec![], k as u32)]);
                }
            }
            5 => {
                let es: Vec<Entry> = (0..2 + r.below(5))
                    .map(|i| Entry { kind: Kind::Push, path: path(&[3]), payload: vec![me as u8, step as u8, i as u8], key: 0 })
                    .collect();
                own.log_multi(es.iter().map(real).collect()).unwrap();
                out.push(es);
            }
            6 => {
                let e = simple(Kind::Remove, path(&[4]), vec![], r.bits(32) as u32);
                own.log(real(&e)).unwrap();
                out.push(vec![e]);
            }
            7 => {
                let v = r.bits(64) as u64;
                own.log_update_child(7, &v).unwrap();
                out.push(vec![simple(Kind::Update, path(&[7]), v.to_bytes(), 0)]);
            }
            8 => {
                let v: Leaf = detached(&gen(&Leaf::ty(), &mut r, &mut 5));
                out.push(vec![simple(Kind::Push, path(&[0]), v.to_bytes(), 0)]);
                list.push(v);
            }
            _ => {
                let (k, v) = (r.below(4) as u16, r.bits(64) as u64);
                map.insert(k, v);
                out.push(vec![simple(Kind::Update, path(&[1, k as u32]), v.to_bytes(), 0)]);
            }
        }
    }
    out
}

fn c22_threads(cx: &mut Cx) -> Res {
    let pausing = cx.r.chance(1, 4);
    let buffered = cx.r.chance(1, 3);
    let threads = 2 + cx.r.below(3) as u32;
    let slow = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let mut handle = None;
    let rt = if buffered {
        let (rt, h) = Runtime::with_logger_returned(BufferLogger::new());
        handle = Some(h);
        rt
    } else {
        Runtime::with_logger(Slow(slow.clone(), cx.r.next() as u32))
    };
    let start = std::sync::Arc::new(std::sync::Barrier::new(threads as usize));
    let mut seeds = vec![];
    let ts: Vec<_> = (0..threads)
        .map(|i| {
            let (rt, start, seed) = (rt.clone(), start.clone(), cx.r.next());
            seeds.push(seed);
            std::thread::spawn(move || {
                start.wait();
                c22_thread(rt, i, Rng::new(&[seed]), pausing)
            })
        })
        .collect();
    let mut log: Vec<Entry> = vec![];
    if let Some(h) = &handle {
        // Emptied now and then while the others go on.
        for _ in 0..cx.r.below(6) {
            std::thread::yield_now();
            log.extend(h.lock().unwrap().pluck().iter().map(plain));
        }
    }
    let mut expected = vec![];
    for t in ts {
        expected.push(t.join().map_err(|_| "a thread panicked".to_string())?);
    }
    match handle {
        Some(h) => log.extend(h.lock().unwrap().pluck().iter().map(plain)),
        None => log = std::mem::replace(&mut *slow.lock().unwrap(), vec![]),
    }
    cx.note(&seeds.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect::<Vec<u8>>());
    for e in &log {
        if !e.path.first().map_or(false, |t| (*t as usize) < expected.len()) {
            return Err(format!("entry {:?} of no thread", e));
        }
    }
    for (t, es) in expected.iter().enumerate() {
        // Where its entries are, and the fewest batches used up when its first p entries are explained.
        let own: Vec<usize> = (0..log.len()).filter(|i| log[*i].path[0] as usize == t).collect();
        let mut best = vec![usize::MAX; own.len() + 1];
        best[0] = 0;
        let mut far = 0;
        for p in 0..own.len() {
            if best[p] == usize::MAX {
                continue;
            }
            far = p;
            // A batch may be missing only if another thread had paused the log.
            let last = if pausing { es.len() } else { es.len().min(best[p] + 1) };
            for n in best[p]..last {
                if log[own[p]..].starts_with(&es[n]) {
                    let q = p + es[n].len();
                    best[q] = best[q].min(n + 1);
                }
            }
        }
        let n = best[own.len()];
        if n == usize::MAX {
            let i = own[far];
            return Err(format!("thread {} logged {:?} next, the log has {:?}", t, es.get(best[far]), &log[i..log.len().min(i + 6)]));
        }
        if !pausing && n != es.len() {
            return Err(format!("thread {} logged {} batches, {} are in the log", t, es.len(), n));
        }
    }
    Ok(())
}
