//! The oracle: schemas, content values and the reference semantics of the wire
//! format, of merging and of log entries, written from the property
//! statements and independent of the code under check.

use std::collections::BTreeMap;

pub type TyFn = fn() -> Ty;

#[derive(Clone)]
pub struct Field {
    pub tag: u32,
    pub ty: TyFn,
    /// Not tracked by the log (`no_state`).
    pub no_state: bool,
    /// Not part of equality (`no_eq_hash`).
    pub no_eq: bool,
}

#[derive(Clone)]
pub enum Ty {
    U(u32),
    I(u32),
    Bool,
    Str,
    Bytes,
    Vec(TyFn),
    List(TyFn),
    Arr(usize, TyFn),
    Tup(Vec<TyFn>),
    Opt(TyFn),
    HMap(TyFn, TyFn),
    /// Largest key, value.
    Map(KeyTy, TyFn),
    Struct(&'static str, Vec<Field>),
    Enum(&'static str, Vec<(u32, Vec<Field>)>),
    /// A box is the same as its content.
    Boxed(TyFn),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum KeyTy {
    Max(u32),
    /// The custom probe key: 1..=5.
    Custom,
}

impl KeyTy {
    pub fn ok(self, k: u32) -> bool {
        match self {
            KeyTy::Max(m) => k <= m,
            KeyTy::Custom => (1..=5).contains(&k),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    U(u64),
    I(i64),
    B(bool),
    S(String),
    Bytes(Vec<u8>),
    Seq(Vec<Val>),
    Opt(Option<Box<Val>>),
    /// Keyed by the encoding of the key.
    HMap(BTreeMap<Vec<u8>, (Val, Val)>),
    /// In no particular order: compared as a finite map.
    Map(BTreeMap<u32, Val>),
    /// Fields in declaration order.
    Struct(Vec<Val>),
    /// Index of the variant, fields in declaration order.
    Enum(usize, Vec<Val>),
}

pub const FIELD_MAX: u32 = 0x1fff_ffff;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wt {
    V,
    S,
}

impl Ty {
    pub fn norm(&self) -> Ty {
        match self {
            Ty::Boxed(t) => t().norm(),
            t => t.clone(),
        }
    }

    pub fn wt(&self) -> Wt {
        match self {
            Ty::U(_) | Ty::I(_) | Ty::Bool => Wt::V,
            Ty::Boxed(t) => t().wt(),
            _ => Wt::S,
        }
    }

    pub fn is_prim_field(&self) -> bool {
        matches!(self.norm(), Ty::U(_) | Ty::I(_) | Ty::Bool)
    }
}

pub fn default(ty: &Ty) -> Val {
    match ty {
        Ty::U(_) => Val::U(0),
        Ty::I(_) => Val::I(0),
        Ty::Bool => Val::B(false),
        Ty::Str => Val::S(String::new()),
        Ty::Bytes => Val::Bytes(vec![]),
        Ty::Vec(_) | Ty::List(_) => Val::Seq(vec![]),
        Ty::Arr(n, t) => Val::Seq(vec![default(&t()); *n]),
        Ty::Tup(ts) => Val::Seq(ts.iter().map(|t| default(&t())).collect()),
        Ty::Opt(_) => Val::Opt(None),
        Ty::HMap(..) => Val::HMap(BTreeMap::new()),
        Ty::Map(..) => Val::Map(BTreeMap::new()),
        Ty::Struct(_, fs) => Val::Struct(fs.iter().map(|f| default(&(f.ty)())).collect()),
        Ty::Enum(_, vs) => {
            let i = vs.iter().position(|v| v.0 == 0).unwrap();
            Val::Enum(i, vs[i].1.iter().map(|f| default(&(f.ty)())).collect())
        }
        Ty::Boxed(t) => default(&t()),
    }
}

pub fn varint(mut v: u128) -> Vec<u8> {
    let mut out = vec![];
    while v >= 128 {
        out.push((v % 128) as u8 + 128);
        v /= 128;
    }
    out.push(v as u8);
    out
}

pub fn zigzag(v: i64) -> u128 {
    if v >= 0 {
        2 * v as u128
    } else {
        2 * (-(v as i128 + 1)) as u128 + 1
    }
}

/// How a reference encoder varies within what the format allows.
pub trait Inject {
    /// Bytes of foreign fields to put at this field boundary of a message with these fields.
    fn at_boundary(&mut self, fields: &[Field]) -> Vec<u8>;
    /// Same in a map with values of this type.
    fn in_map(&mut self, key: KeyTy, value: &Ty) -> Vec<u8>;
    /// Whether a default field should be written all the same.
    fn keep_default(&mut self) -> bool;
}

pub struct Plain;

impl Inject for Plain {
    fn at_boundary(&mut self, _: &[Field]) -> Vec<u8> {
        vec![]
    }
    fn in_map(&mut self, _: KeyTy, _: &Ty) -> Vec<u8> {
        vec![]
    }
    fn keep_default(&mut self) -> bool {
        false
    }
}

pub fn framed(ty: &Ty, payload: Vec<u8>) -> Vec<u8> {
    match ty.wt() {
        Wt::V => payload,
        Wt::S => {
            let mut out = varint(payload.len() as u128);
            out.extend(payload);
            out
        }
    }
}

pub fn tag_bytes(n: u32, wt: Wt) -> Vec<u8> {
    varint(n as u128 * 8 + if wt == Wt::V { 0 } else { 2 })
}

fn enc_fields(fs: &[Field], vs: &[Val], inj: &mut dyn Inject, out: &mut Vec<u8>) {
    for (f, v) in fs.iter().zip(vs) {
        out.extend(inj.at_boundary(fs));
        let ty = (f.ty)();
        if *v == default(&ty) && !inj.keep_default() {
            // The default of a type with a non-empty encoding (an enum, an
            // array …) may be written or not; see `may_omit`.
            if may_omit(&ty) {
                continue;
            }
        }
        out.extend(tag_bytes(f.tag, ty.wt()));
        out.extend(framed(&ty, enc_with(&ty, v, inj)));
    }
    out.extend(inj.at_boundary(fs));
}

/// Whether the code omits the default of this type: it does so for varints,
/// and for sized values with an empty encoding.
pub fn may_omit(ty: &Ty) -> bool {
    ty.wt() == Wt::V || enc(ty, &default(ty)).is_empty()
}

pub fn enc(ty: &Ty, v: &Val) -> Vec<u8> {
    enc_with(ty, v, &mut Plain)
}

pub fn enc_with(ty: &Ty, v: &Val, inj: &mut dyn Inject) -> Vec<u8> {
    match (ty, v) {
        (Ty::Boxed(t), v) => enc_with(&t(), v, inj),
        (Ty::U(_), Val::U(v)) => varint(*v as u128),
        (Ty::I(_), Val::I(v)) => varint(zigzag(*v)),
        (Ty::Bool, Val::B(b)) => vec![if *b { 1 } else { 0 }],
        (Ty::Str, Val::S(s)) => s.clone().into_bytes(),
        (Ty::Bytes, Val::Bytes(b)) => b.clone(),
        (Ty::Vec(t), Val::Seq(vs)) | (Ty::List(t), Val::Seq(vs)) | (Ty::Arr(_, t), Val::Seq(vs)) => {
            let t = t();
            vs.iter().flat_map(|v| framed(&t, enc_with(&t, v, inj))).collect()
        }
        (Ty::Tup(ts), Val::Seq(vs)) => {
            let mut out = vec![];
            for (t, v) in ts.iter().zip(vs) {
                let t = t();
                out.extend(framed(&t, enc_with(&t, v, inj)));
            }
            out
        }
        (Ty::Opt(_), Val::Opt(None)) => vec![],
        (Ty::Opt(t), Val::Opt(Some(v))) => {
            let t = t();
            framed(&t, enc_with(&t, v, inj))
        }
        (Ty::HMap(k, w), Val::HMap(m)) => {
            let (k, w) = (k(), w());
            let mut out = vec![];
            for (a, b) in m.values() {
                out.extend(framed(&k, enc_with(&k, a, inj)));
                out.extend(framed(&w, enc_with(&w, b, inj)));
            }
            out
        }
        (Ty::Map(kt, t), Val::Map(m)) => {
            let t = t();
            let mut out = vec![];
            for (k, v) in m {
                out.extend(inj.in_map(*kt, &t));
                out.extend(tag_bytes(*k, t.wt()));
                out.extend(framed(&t, enc_with(&t, v, inj)));
            }
            out.extend(inj.in_map(*kt, &t));
            out
        }
        (Ty::Struct(_, fs), Val::Struct(vs)) => {
            let mut out = vec![];
            enc_fields(fs, vs, inj, &mut out);
            out
        }
        (Ty::Enum(_, es), Val::Enum(i, vs)) => {
            let mut out = varint(es[*i].0 as u128);
            enc_fields(&es[*i].1, vs, inj, &mut out);
            out
        }
        _ => panic!("oracle: ill-typed value {:?}", v),
    }
}

/// Reference decoder. `Err` is any rejection.
pub type R<T> = Result<T, String>;

pub fn get_varint(s: &[u8], bits: u32) -> R<(u64, &[u8])> {
    let mut v: u64 = 0;
    let mut off = 0u32;
    let mut i = 0;
    loop {
        let b = *s.get(i).ok_or("eof in varint")?;
        if off < bits {
            v |= ((b & 0x7f) as u64) << off;
            off += 7;
        }
        i += 1;
        if b < 128 {
            let v = if bits == 64 { v } else { v & ((1u64 << bits) - 1) };
            return Ok((v, &s[i..]));
        }
    }
}

pub fn unzigzag(v: u64) -> i64 {
    if v % 2 == 0 {
        (v / 2) as i64
    } else {
        -((v / 2) as i64) - 1
    }
}

fn sized(s: &[u8]) -> R<(&[u8], &[u8])> {
    let (n, s) = get_varint(s, 64)?;
    let n = n.min(s.len() as u64) as usize;
    Ok((&s[..n], &s[n..]))
}

/// Merges one framed value of the given wire type; a mismatched one is skipped.
pub fn merge_nested<'a>(ty: &Ty, pre: &Val, wt: Wt, s: &'a [u8]) -> R<(Val, &'a [u8])> {
    if wt != ty.wt() {
        return Ok((pre.clone(), skip(wt, s)?));
    }
    match wt {
        Wt::V => merge(ty, pre, s),
        Wt::S => {
            let (body, rest) = sized(s)?;
            let (v, _) = merge(ty, pre, body)?;
            Ok((v, rest))
        }
    }
}

pub fn skip(wt: Wt, s: &[u8]) -> R<&[u8]> {
    match wt {
        Wt::V => Ok(get_varint(s, 64)?.1),
        Wt::S => Ok(sized(s)?.1),
    }
}

fn read_tag(s: &[u8]) -> R<(u32, Wt, &[u8])> {
    let (t, s) = get_varint(s, 32)?;
    let wt = match t % 8 {
        0 => Wt::V,
        2 => Wt::S,
        _ => return Err("wire type".into()),
    };
    Ok(((t / 8) as u32, wt, s))
}

fn merge_fields(fs: &[Field], pre: &[Val], mut s: &[u8]) -> R<Vec<Val>> {
    let mut vs = pre.to_vec();
    while !s.is_empty() {
        let (n, wt, r) = read_tag(s)?;
        s = r;
        match fs.iter().position(|f| f.tag == n) {
            Some(i) => {
                let (v, r) = merge_nested(&(fs[i].ty)(), &vs[i], wt, s)?;
                vs[i] = v;
                s = r;
            }
            None => s = skip(wt, s)?,
        }
    }
    Ok(vs)
}

pub fn merge<'a>(ty: &Ty, pre: &Val, mut s: &'a [u8]) -> R<(Val, &'a [u8])> {
    const END: &[u8] = &[];
    match (ty, pre) {
        (Ty::Boxed(t), _) => merge(&t(), pre, s),
        (Ty::U(bits), _) => {
            let (v, r) = get_varint(s, *bits)?;
            Ok((Val::U(v), r))
        }
        (Ty::I(bits), _) => {
            let (v, r) = get_varint(s, *bits)?;
            Ok((Val::I(unzigzag(v)), r))
        }
        (Ty::Bool, _) => {
            let mut nz = false;
            let mut i = 0;
            loop {
                let b = *s.get(i).ok_or("eof in bool")?;
                nz |= b & 0x7f != 0;
                i += 1;
                if b < 128 {
                    return Ok((Val::B(nz), &s[i..]));
                }
            }
        }
        (Ty::Str, _) => {
            let t = String::from_utf8(s.to_vec()).map_err(|_| "utf8")?;
            Ok((Val::S(t), END))
        }
        (Ty::Bytes, Val::Bytes(b)) => {
            let mut b = b.clone();
            b.extend(s);
            Ok((Val::Bytes(b), END))
        }
        (Ty::Vec(t), Val::Seq(vs)) | (Ty::List(t), Val::Seq(vs)) => {
            let t = t();
            let mut vs = vs.clone();
            while !s.is_empty() {
                let (v, r) = merge_nested(&t, &default(&t), t.wt(), s)?;
                vs.push(v);
                s = r;
            }
            Ok((Val::Seq(vs), END))
        }
        (Ty::Arr(n, t), Val::Seq(vs)) => {
            let t = t();
            let mut vs = vs.clone();
            let mut i = 0;
            while i < *n && !s.is_empty() {
                let (v, r) = merge_nested(&t, &default(&t), t.wt(), s)?;
                vs[i] = v;
                s = r;
                i += 1;
            }
            Ok((Val::Seq(vs), END))
        }
        (Ty::Tup(ts), Val::Seq(_)) => {
            let mut vs = vec![];
            for t in ts {
                let t = t();
                let (v, r) = merge_nested(&t, &default(&t), t.wt(), s)?;
                vs.push(v);
                s = r;
            }
            Ok((Val::Seq(vs), END))
        }
        (Ty::Opt(t), Val::Opt(o)) => {
            let t = t();
            let mut o = o.clone();
            while !s.is_empty() {
                let cur = o.map(|v| *v).unwrap_or_else(|| default(&t));
                let (v, r) = merge_nested(&t, &cur, t.wt(), s)?;
                o = Some(Box::new(v));
                s = r;
            }
            Ok((Val::Opt(o), END))
        }
        (Ty::HMap(k, w), Val::HMap(m)) => {
            let (k, w) = (k(), w());
            let mut m = m.clone();
            while !s.is_empty() {
                let (a, r) = merge_nested(&k, &default(&k), k.wt(), s)?;
                let (b, r) = merge_nested(&w, &default(&w), w.wt(), r)?;
                m.insert(enc(&k, &a), (a, b));
                s = r;
            }
            Ok((Val::HMap(m), END))
        }
        (Ty::Map(kt, t), Val::Map(m)) => {
            let t = t();
            let mut m = m.clone();
            while !s.is_empty() {
                let (n, wt, r) = read_tag(s)?;
                s = r;
                if !kt.ok(n) {
                    return Err("key".into());
                }
                if wt != t.wt() {
                    s = skip(wt, s)?;
                    continue;
                }
                let cur = m.get(&n).cloned().unwrap_or_else(|| default(&t));
                let (v, r) = merge_nested(&t, &cur, wt, s)?;
                m.insert(n, v);
                s = r;
            }
            Ok((Val::Map(m), END))
        }
        (Ty::Struct(_, fs), Val::Struct(vs)) => Ok((Val::Struct(merge_fields(fs, vs, s)?), END)),
        (Ty::Enum(_, es), Val::Enum(i, vs)) => {
            let (t, r) = get_varint(s, 32)?;
            let j = es.iter().position(|e| e.0 as u64 == t).ok_or("variant")?;
            let fs = &es[j].1;
            let vs = if j == *i {
                vs.clone()
            } else {
                fs.iter().map(|f| default(&(f.ty)())).collect()
            };
            Ok((Val::Enum(j, merge_fields(fs, &vs, r)?), END))
        }
        _ => panic!("oracle: ill-typed value {:?}", pre),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Update,
    Push,
    Pop,
    Remove,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Entry {
    pub kind: Kind,
    pub path: Vec<u32>,
    pub payload: Vec<u8>,
    pub key: u32,
}

/// Why an entry was refused: it does not fit the state, or its payload does not decode.
#[derive(PartialEq, Debug)]
pub enum Refused {
    Shape(String),
    Payload(String),
    /// Nothing is claimed about this entry.
    Unspecified,
}

fn shape<T>(s: &str) -> Result<T, Refused> {
    Err(Refused::Shape(s.to_string()))
}

fn fresh(ty: &Ty, payload: &[u8]) -> Result<Val, Refused> {
    merge(ty, &default(ty), payload).map(|x| x.0).map_err(Refused::Payload)
}

/// Reference semantics of one log entry on a state.
pub fn apply(ty: &Ty, v: &Val, path: &[u32], e: &Entry) -> Result<Val, Refused> {
    if let Ty::Boxed(t) = ty {
        return apply(&t(), v, path, e);
    }
    if path.is_empty() {
        return match (e.kind, ty, v) {
            (Kind::Update, _, _) => fresh(ty, &e.payload),
            (Kind::Push, Ty::List(t), Val::Seq(vs)) => {
                let mut vs = vs.clone();
                vs.push(fresh(&t(), &e.payload)?);
                Ok(Val::Seq(vs))
            }
            (Kind::Pop, Ty::List(_), Val::Seq(vs)) => {
                let mut vs = vs.clone();
                if vs.pop().is_none() {
                    return shape("pop from an empty list");
                }
                Ok(Val::Seq(vs))
            }
            (Kind::Remove, Ty::Map(..), Val::Map(m)) => {
                let mut m = m.clone();
                if m.remove(&e.key).is_none() {
                    return shape("remove of an absent key");
                }
                Ok(Val::Map(m))
            }
            _ => shape("kind does not apply"),
        };
    }
    let (h, t) = (path[0], &path[1..]);
    match (ty, v) {
        (Ty::List(it), Val::Seq(vs)) => {
            let i = h as usize;
            if i >= vs.len() {
                return shape("index");
            }
            let mut vs = vs.clone();
            vs[i] = apply(&it(), &vs[i], t, e)?;
            Ok(Val::Seq(vs))
        }
        (Ty::Map(kt, it), Val::Map(m)) => {
            let mut m = m.clone();
            if let Some(x) = m.get(&h) {
                let x = apply(&it(), x, t, e)?;
                m.insert(h, x);
            } else if e.kind == Kind::Update && t.is_empty() {
                if !kt.ok(h) || h > FIELD_MAX {
                    return shape("key out of range");
                }
                m.insert(h, fresh(&it(), &e.payload)?);
            } else {
                return shape("absent key");
            }
            Ok(Val::Map(m))
        }
        (Ty::Struct(_, fs), Val::Struct(vs)) => Ok(Val::Struct(apply_field(fs, vs, h, t, e)?)),
        (Ty::Enum(_, es), Val::Enum(i, vs)) => {
            if es[*i].0 != h {
                return shape("another variant");
            }
            if t.is_empty() {
                return shape("entry on a variant");
            }
            Ok(Val::Enum(*i, apply_field(&es[*i].1, vs, t[0], &t[1..], e)?))
        }
        _ => shape("path goes below a primitive"),
    }
}

fn apply_field(fs: &[Field], vs: &[Val], h: u32, t: &[u32], e: &Entry) -> Result<Vec<Val>, Refused> {
    match fs.iter().position(|f| f.tag == h) {
        Some(i) if fs[i].no_state => Err(Refused::Unspecified),
        Some(i) => {
            let mut vs = vs.to_vec();
            vs[i] = apply(&(fs[i].ty)(), &vs[i], t, e)?;
            Ok(vs)
        }
        None => shape("unknown field"),
    }
}

/// Content equality: what `==` has to decide.
pub fn content_eq(ty: &Ty, a: &Val, b: &Val) -> bool {
    match (ty, a, b) {
        (Ty::Boxed(t), _, _) => content_eq(&t(), a, b),
        (Ty::Vec(t), Val::Seq(a), Val::Seq(b))
        | (Ty::List(t), Val::Seq(a), Val::Seq(b))
        | (Ty::Arr(_, t), Val::Seq(a), Val::Seq(b)) => {
            let t = t();
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| content_eq(&t, x, y))
        }
        (Ty::Tup(ts), Val::Seq(a), Val::Seq(b)) => {
            ts.iter().zip(a.iter().zip(b)).all(|(t, (x, y))| content_eq(&t(), x, y))
        }
        (Ty::Opt(t), Val::Opt(Some(a)), Val::Opt(Some(b))) => content_eq(&t(), a, b),
        (Ty::HMap(_, w), Val::HMap(a), Val::HMap(b)) => {
            let w = w();
            a.len() == b.len()
                && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| content_eq(&w, &x.1, &y.1)))
        }
        (Ty::Map(_, t), Val::Map(a), Val::Map(b)) => {
            let t = t();
            a.len() == b.len()
                && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| content_eq(&t, x, y)))
        }
        (Ty::Struct(_, fs), Val::Struct(a), Val::Struct(b)) => fields_eq(fs, a, b),
        (Ty::Enum(_, es), Val::Enum(i, a), Val::Enum(j, b)) => i == j && fields_eq(&es[*i].1, a, b),
        _ => a == b,
    }
}

fn fields_eq(fs: &[Field], a: &[Val], b: &[Val]) -> bool {
    fs.iter()
        .zip(a.iter().zip(b))
        .all(|(f, (x, y))| f.no_eq || content_eq(&(f.ty)(), x, y))
}
