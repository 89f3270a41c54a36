//! Types under observation: how to build them from content values, read their
//! content back, mutate them through the public interface while predicting
//! content and log, and check where their parts are mounted.

use std::collections::HashMap;
use std::hash::Hash;

use steit::{
    de::Deserialize,
    rt::Runtime,
    ser::Serialize,
    state::State,
    types::{Bytes, List, Map, MapKey, Maybe},
};

use crate::gen::*;
use crate::rng::Rng;
use crate::val::*;

pub trait Probe: Serialize + Deserialize + Clone + PartialEq + 'static {
    const LEAF: bool = false;
    fn ty() -> Ty;
    fn val(&self) -> Val;
    /// Builds a value mounted at the given runtime (if it is mounted at all).
    fn build(v: &Val, rt: &Runtime) -> Self;
    fn hash_of(&self) -> Option<u64> {
        None
    }
    /// Sets one field through its setter: returns what the setter was given.
    fn set_any(&mut self, _r: &mut Rng, _m: &mut Val) -> bool {
        false
    }
    /// Values of each public constructor, with the content expected of them.
    fn ctors() -> Vec<(&'static str, Self, Val)> {
        vec![]
    }
}

/// An expected log entry.
#[derive(Clone)]
pub struct Exp {
    pub kind: Kind,
    pub path: Vec<u32>,
    pub payload: Option<(Ty, Val)>,
    pub key: u32,
}

pub struct Ctx {
    pub r: Rng,
    pub log: Vec<Exp>,
    pub what: Vec<String>,
    /// Inside a value-building callback: nothing may be logged.
    pub quiet: bool,
    pub bad: Option<String>,
}

impl Ctx {
    pub fn new(r: Rng) -> Self {
        Ctx { r, log: vec![], what: vec![], quiet: false, bad: None }
    }
    pub fn exp(&mut self, kind: Kind, path: &[u32], payload: Option<(Ty, Val)>, key: u32) {
        if !self.quiet {
            self.log.push(Exp { kind, path: path.to_vec(), payload, key });
        }
    }
    pub fn say(&mut self, s: String) {
        self.what.push(s);
    }
    pub fn fail(&mut self, s: String) {
        if self.bad.is_none() {
            self.bad = Some(s);
        }
    }
    pub fn gen<T: Probe>(&mut self) -> Val {
        gen(&T::ty(), &mut self.r, &mut 25)
    }
}

pub fn join(p: &[u32], more: &[u32]) -> Vec<u32> {
    let mut p = p.to_vec();
    p.extend(more);
    p
}

pub trait SProbe: Probe + State {
    /// Whether every part is mounted where it is reached from.
    fn paths_ok(&self, path: &[u32], logger: usize) -> Result<(), String>;
    /// One mutation somewhere in the value, through the public interface.
    fn mutate(&mut self, c: &mut Ctx, path: &[u32], m: &mut Val);
}

/// A detached value with the given content.
pub fn detached<T: Probe>(v: &Val) -> T {
    T::build(v, &Runtime::new())
}

/// Builds through the callback form of a mutator, mutating the value inside.
fn in_callback<T: SProbe>(c: &mut Ctx, v: &mut Val, rt: Runtime) -> T {
    // A callback may itself pause and resume.
    let nested = c.r.chance(1, 4);
    if nested {
        rt.pause_logger();
    }
    let mut x = T::build(v, &rt);
    if nested {
        rt.unpause_logger();
    }
    if !T::LEAF && c.r.chance(1, 2) {
        let quiet = c.quiet;
        c.quiet = true;
        c.say("(in callback)".into());
        x.mutate(c, &rt_path::<T>(&x), v);
        c.quiet = quiet;
    }
    x
}

fn rt_path<T: SProbe>(x: &T) -> Vec<u32> {
    // Paths are only used for expected entries, and none are expected here.
    let _ = x;
    vec![]
}

pub fn mounted(rt: &Runtime, path: &[u32], logger: usize, what: &str) -> Result<(), String> {
    let got = rt.path().collect_values();
    if got != path {
        return Err(format!("{} reached by path {:?} has path {:?}", what, path, got));
    }
    if &**rt.logger() as *const _ as *const u8 as usize != logger {
        return Err(format!("{} at path {:?} has another logger", what, path));
    }
    Ok(())
}

pub fn logger_of(rt: &Runtime) -> usize {
    &**rt.logger() as *const _ as *const u8 as usize
}

macro_rules! prim {
    ($t:ty, $ty:expr, $s:ident => $val:expr, $pat:pat => $build:expr) => {
        impl Probe for $t {
            const LEAF: bool = true;
            fn ty() -> Ty {
                $ty
            }
            fn val(&self) -> Val {
                let $s = self;
                $val
            }
            fn build(v: &Val, _: &Runtime) -> Self {
                match v {
                    $pat => $build,
                    _ => panic!("ill-typed {:?}", v),
                }
            }
            fn hash_of(&self) -> Option<u64> {
                Some(hash(self))
            }
        }
    };
}

macro_rules! sprim {
    ($($t:ty)*) => {$(
        impl SProbe for $t {
            fn paths_ok(&self, _: &[u32], _: usize) -> Result<(), String> {
                Ok(())
            }
            fn mutate(&mut self, _: &mut Ctx, _: &[u32], _: &mut Val) {}
        }
    )*};
}

pub fn hash<T: Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

prim!(u8, Ty::U(8), s => Val::U(*s as u64), Val::U(v) => *v as u8);
prim!(u16, Ty::U(16), s => Val::U(*s as u64), Val::U(v) => *v as u16);
prim!(u32, Ty::U(32), s => Val::U(*s as u64), Val::U(v) => *v as u32);
prim!(u64, Ty::U(64), s => Val::U(*s), Val::U(v) => *v);
prim!(i8, Ty::I(8), s => Val::I(*s as i64), Val::I(v) => *v as i8);
prim!(i16, Ty::I(16), s => Val::I(*s as i64), Val::I(v) => *v as i16);
prim!(i32, Ty::I(32), s => Val::I(*s as i64), Val::I(v) => *v as i32);
prim!(i64, Ty::I(64), s => Val::I(*s), Val::I(v) => *v);
prim!(bool, Ty::Bool, s => Val::B(*s), Val::B(v) => *v);
prim!(String, Ty::Str, s => Val::S(s.clone()), Val::S(v) => v.clone());
prim!(Bytes, Ty::Bytes, s => Val::Bytes(s.clone().into_raw()), Val::Bytes(v) => Bytes::from_raw(v.clone()));
sprim!(u8 u16 u32 u64 i8 i16 i32 i64 bool);

fn seq(v: &Val) -> &Vec<Val> {
    match v {
        Val::Seq(vs) => vs,
        _ => panic!("ill-typed {:?}", v),
    }
}

impl<T: Probe> Probe for Vec<T> {
    fn ty() -> Ty {
        Ty::Vec(T::ty)
    }
    fn val(&self) -> Val {
        Val::Seq(self.iter().map(|x| x.val()).collect())
    }
    fn build(v: &Val, rt: &Runtime) -> Self {
        seq(v).iter().map(|x| T::build(x, rt)).collect()
    }
}

impl<T: Probe> Probe for Option<T> {
    fn ty() -> Ty {
        Ty::Opt(T::ty)
    }
    fn val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.val())))
    }
    fn build(v: &Val, rt: &Runtime) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|x| T::build(x, rt)),
            _ => panic!("ill-typed"),
        }
    }
}

impl<T: Probe> Probe for Box<T> {
    const LEAF: bool = T::LEAF;
    fn ty() -> Ty {
        Ty::Boxed(T::ty)
    }
    fn val(&self) -> Val {
        (**self).val()
    }
    fn build(v: &Val, rt: &Runtime) -> Self {
        Box::new(T::build(v, rt))
    }
    fn hash_of(&self) -> Option<u64> {
        (**self).hash_of()
    }
}

impl<T: SProbe> SProbe for Box<T> {
    fn paths_ok(&self, path: &[u32], logger: usize) -> Result<(), String> {
        (**self).paths_ok(path, logger)
    }
    fn mutate(&mut self, c: &mut Ctx, path: &[u32], m: &mut Val) {
        (**self).mutate(c, path, m)
    }
}

macro_rules! arr {
    ($($n:literal: $($i:literal)*;)*) => {$(
        impl<T: Probe> Probe for [T; $n] where [T; $n]: Default {
            fn ty() -> Ty {
                Ty::Arr($n, T::ty)
            }
            fn val(&self) -> Val {
                Val::Seq(self.iter().map(|x| x.val()).collect())
            }
            fn build(v: &Val, rt: &Runtime) -> Self {
                let v = seq(v);
                [$(T::build(&v[$i], rt)),*]
            }
        }
    )*};
}
arr! { 1: 0; 2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; }

macro_rules! tup {
    ($($n:ident $i:tt)+) => {
        impl<$($n: Probe),+> Probe for ($($n),+) {
            fn ty() -> Ty {
                Ty::Tup(vec![$($n::ty as TyFn),+])
            }
            fn val(&self) -> Val {
                Val::Seq(vec![$(self.$i.val()),+])
            }
            fn build(v: &Val, rt: &Runtime) -> Self {
                let v = seq(v);
                ($($n::build(&v[$i], rt)),+)
            }
        }
    };
}
tup! { A 0 B 1 }
tup! { A 0 B 1 C 2 }
tup! { A 0 B 1 C 2 D 3 }
tup! { A 0 B 1 C 2 D 3 E 4 }
tup! { A 0 B 1 C 2 D 3 E 4 F 5 }
tup! { A 0 B 1 C 2 D 3 E 4 F 5 G 6 }

impl<K: Probe + Eq + Hash, V: Probe> Probe for HashMap<K, V> {
    fn ty() -> Ty {
        Ty::HMap(K::ty, V::ty)
    }
    fn val(&self) -> Val {
        let k = K::ty();
        Val::HMap(
            self.iter()
                .map(|(a, b)| (enc(&k, &a.val()), (a.val(), b.val())))
                .collect(),
        )
    }
    fn build(v: &Val, rt: &Runtime) -> Self {
        match v {
            Val::HMap(m) => m.values().map(|(a, b)| (K::build(a, rt), V::build(b, rt))).collect(),
            _ => panic!("ill-typed"),
        }
    }
}

impl<T: SProbe> Probe for List<T> {
    fn ty() -> Ty {
        Ty::List(T::ty)
    }
    fn val(&self) -> Val {
        Val::Seq(self.iter().map(|x| x.val()).collect())
    }
    fn build(v: &Val, rt: &Runtime) -> Self {
        List::from_iter(rt.clone(), seq(v).iter().map(|x| detached::<T>(x)))
    }
}

impl<T: SProbe> SProbe for List<T> {
    fn paths_ok(&self, path: &[u32], logger: usize) -> Result<(), String> {
        mounted(self.runtime(), path, logger, "list")?;
        for (i, x) in self.iter().enumerate() {
            x.paths_ok(&join(path, &[i as u32]), logger)?;
        }
        Ok(())
    }

    fn mutate(&mut self, c: &mut Ctx, path: &[u32], m: &mut Val) {
        let vs = match m {
            Val::Seq(vs) => vs,
            _ => panic!("ill-typed"),
        };
        let n = vs.len();
        match c.r.below(if T::LEAF || n == 0 { 7 } else { 13 }) {
            0 | 1 => {
                let v = c.gen::<T>();
                c.say(format!("{:?}.push({:?})", path, v));
                c.exp(Kind::Push, path, Some((T::ty(), v.clone())), 0);
                let i = self.push(detached(&v));
                if i != n {
                    c.fail(format!("push returned {} on a list of {}", i, n));
                }
                vs.push(v);
            }
            2 => {
                let mut v = c.gen::<T>();
                c.say(format!("{:?}.push_with({:?})", path, v));
                let i = self.push_with(|rt| in_callback(c, &mut v, rt));
                if i != n {
                    c.fail(format!("push_with returned {} on a list of {}", i, n));
                }
                c.exp(Kind::Push, path, Some((T::ty(), v.clone())), 0);
                vs.push(v);
            }
            3 => {
                c.say(format!("{:?}.pop()", path));
                if n > 0 {
                    c.exp(Kind::Pop, path, None, 0);
                }
                let got = self.pop().map(|x| x.val());
                if got != vs.pop() {
                    c.fail(format!("pop returned {:?}", got));
                }
            }
            4..=6 => {
                let i = c.r.below(n + 2);
                c.say(format!("{:?}.swap_remove({})", path, i));
                if i < n {
                    c.exp(Kind::Pop, path, None, 0);
                    if i + 1 < n {
                        c.exp(Kind::Update, &join(path, &[i as u32]), Some((T::ty(), vs[n - 1].clone())), 0);
                    }
                }
                let got = self.swap_remove(i).map(|x| x.val());
                let want = if i < n { Some(vs.swap_remove(i)) } else { None };
                if got != want {
                    c.fail(format!("swap_remove({}) returned {:?}", i, got));
                }
            }
            k => {
                let i = c.r.below(n);
                c.say(format!("{:?}[{}]:", path, i));
                let x = match k {
                    7 | 8 => self.get_mut(i).unwrap(),
                    9 => self.iter_mut().nth(i).unwrap(),
                    10 => (&mut *self).into_iter().nth(i).unwrap(),
                    _ => &mut self[i],
                };
                x.mutate(c, &join(path, &[i as u32]), &mut vs[i]);
            }
        }
    }
}

/// A user-defined key type.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Key {
    One,
    Two,
    Three,
    Four,
    Five,
}

impl MapKey for Key {
    fn try_from_field_number(n: u32) -> std::io::Result<Self> {
        Ok(match n {
            1 => Key::One,
            2 => Key::Two,
            3 => Key::Three,
            4 => Key::Four,
            5 => Key::Five,
            _ => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "unknown key")),
        })
    }
    fn as_field_number(&self) -> u32 {
        *self as u32 + 1
    }
}

pub trait PKey: MapKey + Clone + PartialEq + Eq + Hash + 'static {
    const TY: KeyTy;
}
impl PKey for u8 {
    const TY: KeyTy = KeyTy::Max(255);
}
impl PKey for u16 {
    const TY: KeyTy = KeyTy::Max(65535);
}
impl PKey for u32 {
    const TY: KeyTy = KeyTy::Max(0xffff_ffff);
}
impl PKey for Key {
    const TY: KeyTy = KeyTy::Custom;
}

pub fn key<K: PKey>(n: u32) -> K {
    match K::try_from_field_number(n) {
        Ok(k) => k,
        Err(_) => panic!("key {} refused", n),
    }
}

impl<K: PKey, V: SProbe> Probe for Map<K, V> {
    fn ty() -> Ty {
        Ty::Map(K::TY, V::ty)
    }
    fn val(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.as_field_number(), v.val())).collect())
    }
    fn build(v: &Val, rt: &Runtime) -> Self {
        match v {
            Val::Map(m) => {
                Map::from_iter(rt.clone(), m.iter().map(|(k, v)| (key::<K>(*k), detached::<V>(v))))
            }
            _ => panic!("ill-typed"),
        }
    }
}

impl<K: PKey, V: SProbe> SProbe for Map<K, V> {
    fn paths_ok(&self, path: &[u32], logger: usize) -> Result<(), String> {
        mounted(self.runtime(), path, logger, "map")?;
        for (k, x) in self.iter() {
            x.paths_ok(&join(path, &[k.as_field_number()]), logger)?;
        }
        Ok(())
    }

    fn mutate(&mut self, c: &mut Ctx, path: &[u32], m: &mut Val) {
        let vs = match m {
            Val::Map(vs) => vs,
            _ => panic!("ill-typed"),
        };
        let keys: Vec<u32> = vs.keys().cloned().collect();
        let k = if keys.is_empty() || c.r.chance(1, 3) {
            gen_key(K::TY, &mut c.r)
        } else {
            *c.r.pick(&keys)
        };
        let has = vs.contains_key(&k);
        match c.r.below(if T_LEAF::<V>() || !has { 6 } else { 11 }) {
            0 | 1 => {
                let v = c.gen::<V>();
                c.say(format!("{:?}.insert({}, {:?})", path, k, v));
                c.exp(Kind::Update, &join(path, &[k]), Some((V::ty(), v.clone())), 0);
                let got = self.insert(key(k), detached(&v)).map(|x| x.val());
                if got != vs.insert(k, v) {
                    c.fail(format!("insert returned {:?}", got));
                }
            }
            2 => {
                let mut v = c.gen::<V>();
                c.say(format!("{:?}.insert_with({}, {:?})", path, k, v));
                let got = self.insert_with(key(k), |rt| in_callback(c, &mut v, rt)).map(|x| x.val());
                c.exp(Kind::Update, &join(path, &[k]), Some((V::ty(), v.clone())), 0);
                if got != vs.insert(k, v) {
                    c.fail(format!("insert_with returned {:?}", got));
                }
            }
            3..=5 => {
                c.say(format!("{:?}.remove({})", path, k));
                if has {
                    c.exp(Kind::Remove, path, None, k);
                }
                let got = self.remove(&key(k)).map(|x| x.val());
                if got != vs.remove(&k) {
                    c.fail(format!("remove({}) returned {:?}", k, got));
                }
            }
            op => {
                c.say(format!("{:?}[{}]:", path, k));
                let kk: K = key(k);
                let x = match op {
                    6 | 7 => self.get_mut(&kk).unwrap(),
                    8 => self.iter_mut().find(|(a, _)| *a == kk).unwrap().1,
                    9 => (&mut *self).into_iter().find(|(a, _)| *a == kk).unwrap().1,
                    _ => &mut self[&kk],
                };
                x.mutate(c, &join(path, &[k]), vs.get_mut(&k).unwrap());
            }
        }
    }
}

#[allow(non_snake_case)]
const fn T_LEAF<T: Probe>() -> bool {
    T::LEAF
}

pub fn fields(v: &Val) -> &Vec<Val> {
    match v {
        Val::Struct(vs) | Val::Enum(_, vs) => vs,
        _ => panic!("ill-typed {:?}", v),
    }
}

pub fn fields_mut(v: &mut Val) -> &mut Vec<Val> {
    match v {
        Val::Struct(vs) | Val::Enum(_, vs) => vs,
        _ => panic!("ill-typed {:?}", v),
    }
}

pub fn fld(tag: u32, ty: TyFn, attr: &str) -> Field {
    Field { tag, ty, no_state: attr == "no_state", no_eq: attr == "no_eq_hash" }
}

#[macro_export]
macro_rules! hash_fn {
    (hash) => {
        fn hash_of(&self) -> Option<u64> {
            Some(hash(self))
        }
    };
    (nohash) => {};
}

/// A derived message without runtime.
#[macro_export]
macro_rules! w_struct {
    ($name:ty, $hash:ident, $ctor:ident { $($tag:literal $attr:ident $f:tt $set:ident [$($ty:tt)*];)* }) => {
        impl Probe for $name {
            fn ty() -> Ty {
                Ty::Struct(stringify!($name), vec![$(fld($tag, <$($ty)* as Probe>::ty, stringify!($attr))),*])
            }
            fn val(&self) -> Val {
                Val::Struct(vec![$(self.$f.val()),*])
            }
            #[allow(unused)]
            fn build(v: &Val, rt: &Runtime) -> Self {
                let mut x = Self::$ctor();
                let mut it = fields(v).iter();
                $(x.$f = <$($ty)* as Probe>::build(it.next().unwrap(), rt);)*
                x
            }
            #[allow(unused)]
            fn set_any(&mut self, r: &mut Rng, m: &mut Val) -> bool {
                let n = fields(m).len();
                if n == 0 {
                    return false;
                }
                let k = r.below(n);
                let mut i = 0;
                $(
                    if i == k {
                        let v = gen(&<$($ty)* as Probe>::ty(), r, &mut 20);
                        self.$set(detached(&v));
                        fields_mut(m)[k] = v;
                    }
                    i += 1;
                )*
                true
            }
            fn ctors() -> Vec<(&'static str, Self, Val)> {
                let d = default(&Self::ty());
                vec![(stringify!($ctor), Self::$ctor(), d.clone()), ("default", Self::default(), d)]
            }
            $crate::hash_fn!($hash);
        }
    };
}

#[macro_export]
macro_rules! w_enum {
    ($name:ty, $e:ident, $hash:ident, $dctor:ident { $($vtag:literal $var:ident $ctor:ident { $($tag:literal $attr:ident $f:tt $set:ident [$($ty:tt)*];)* })* }) => {
        impl Probe for $name {
            fn ty() -> Ty {
                Ty::Enum(stringify!($name), vec![$(
                    ($vtag, vec![$(fld($tag, <$($ty)* as Probe>::ty, stringify!($attr))),*])
                ),*])
            }
            fn val(&self) -> Val {
                let mut i = 0;
                $(
                    if let $e::$var { .. } = self {
                        #[allow(unused_mut)]
                        let mut vs = vec![];
                        $(if let $e::$var { $f: x, .. } = self { vs.push(x.val()); })*
                        return Val::Enum(i, vs);
                    }
                    i += 1;
                )*
                panic!("unknown variant {}", i)
            }
            #[allow(unused)]
            fn build(v: &Val, rt: &Runtime) -> Self {
                let i = match v { Val::Enum(i, _) => *i, _ => panic!("ill-typed") };
                let mut it = fields(v).iter();
                let mut j = 0;
                $(
                    if i == j {
                        let mut e = Self::$ctor();
                        $(if let $e::$var { $f: x, .. } = &mut e { *x = <$($ty)* as Probe>::build(it.next().unwrap(), rt); })*
                        return e;
                    }
                    j += 1;
                )*
                panic!("no variant {}", j)
            }
            #[allow(unused)]
            fn set_any(&mut self, r: &mut Rng, m: &mut Val) -> bool {
                let mut total = 0;
                $($(let _ = $tag; total += 1;)*)*
                let k = r.below(total);
                let mut n = 0;
                let mut j = 0;
                $(
                    let mut i = 0;
                    $(
                        if n == k {
                            let v = gen(&<$($ty)* as Probe>::ty(), r, &mut 20);
                            self.$set(detached(&v));
                            $crate::probe::switch(&Self::ty(), m, j);
                            fields_mut(m)[i] = v;
                        }
                        n += 1;
                        i += 1;
                    )*
                    j += 1;
                )*
                true
            }
            fn ctors() -> Vec<(&'static str, Self, Val)> {
                let d = default(&Self::ty());
                let mut out = vec![(stringify!($dctor), Self::$dctor(), d.clone()), ("default", Self::default(), d)];
                let mut i = 0;
                $(
                    out.push((stringify!($ctor), Self::$ctor(), Val::Enum(i, vec![$(default(&<$($ty)* as Probe>::ty())),*])));
                    i += 1;
                )*
                let _ = i;
                out
            }
            $crate::hash_fn!($hash);
        }
    };
}

/// Makes an enum value that of variant `j`, with default fields if it was another.
/// Returns whether it changed.
pub fn switch(ty: &Ty, m: &mut Val, j: usize) -> bool {
    match (ty, &*m) {
        (Ty::Enum(_, es), Val::Enum(i, _)) => {
            if *i == j {
                return false;
            }
            *m = Val::Enum(j, es[j].1.iter().map(|f| default(&(f.ty)())).collect());
            true
        }
        _ => panic!("ill-typed"),
    }
}

/// A derived state.
#[macro_export]
macro_rules! s_struct {
    ($name:ty, $hash:ident, $ctor:ident { $($tag:literal $attr:ident $f:tt $set:ident $setw:ident [$($ty:tt)*];)* }) => {
        impl Probe for $name {
            fn ty() -> Ty {
                Ty::Struct(stringify!($name), vec![$(fld($tag, <$($ty)* as Probe>::ty, stringify!($attr))),*])
            }
            fn val(&self) -> Val {
                Val::Struct(vec![$(self.$f.val()),*])
            }
            #[allow(unused)]
            fn build(v: &Val, rt: &Runtime) -> Self {
                let mut x = Self::$ctor(rt.clone());
                let mut it = fields(v).iter();
                $(x.$f = <$($ty)* as Probe>::build(it.next().unwrap(), &rt.nested($tag));)*
                x
            }
            fn set_any(&mut self, r: &mut Rng, m: &mut Val) -> bool {
                let n = fields(m).len();
                let k = r.below(n);
                let mut i = 0;
                $(
                    if i == k {
                        let v = gen(&<$($ty)* as Probe>::ty(), r, &mut 20);
                        $crate::s_set!($attr, self, $set, $setw, r, v, [$($ty)*]);
                        fields_mut(m)[k] = v;
                    }
                    i += 1;
                )*
                let _ = i;
                true
            }
            fn ctors() -> Vec<(&'static str, Self, Val)> {
                let d = default(&Self::ty());
                vec![
                    (stringify!($ctor), Self::$ctor(Runtime::new()), d.clone()),
                    ("with_runtime", Self::with_runtime(Runtime::new()), d.clone()),
                    ("default", Self::default(), d),
                ]
            }
            $crate::hash_fn!($hash);
        }

        impl SProbe for $name {
            fn paths_ok(&self, path: &[u32], logger: usize) -> Result<(), String> {
                mounted(self.runtime(), path, logger, stringify!($name))?;
                $($crate::s_paths!($attr, self.$f, join(path, &[$tag]), logger);)*
                Ok(())
            }

            fn mutate(&mut self, c: &mut Ctx, path: &[u32], m: &mut Val) {
                let n = fields(m).len();
                let k = c.r.below(n);
                let mut i = 0;
                $(
                    if i == k {
                        $crate::s_mutate!($attr, $tag, self, self.$f, $set, $setw, c, path, &mut fields_mut(m)[k], [$($ty)*], {});
                    }
                    i += 1;
                )*
                let _ = i;
            }
        }
    };
}

#[macro_export]
macro_rules! s_set {
    (no_state, $self:ident, $set:ident, $setw:ident, $r:ident, $v:ident, [$($ty:tt)*]) => {
        $self.$set(detached(&$v));
    };
    ($attr:ident, $self:ident, $set:ident, $setw:ident, $r:ident, $v:ident, [$($ty:tt)*]) => {
        if $r.chance(1, 2) {
            $self.$set(detached(&$v));
        } else {
            $self.$setw(|rt| <$($ty)* as Probe>::build(&$v, &rt));
        }
    };
}

#[macro_export]
macro_rules! s_paths {
    (no_state, $f:expr, $p:expr, $l:expr) => {};
    ($attr:ident, $f:expr, $p:expr, $l:expr) => {
        $f.paths_ok(&$p, $l)?;
    };
}

#[macro_export]
macro_rules! s_mutate {
    (no_state, $tag:literal, $self:ident, $f:expr, $set:ident, $setw:ident, $c:ident, $path:expr, $m:expr, [$($ty:tt)*], $before:block) => {
        let _ = $path;
    };
    ($attr:ident, $tag:literal, $self:ident, $f:expr, $set:ident, $setw:ident, $c:ident, $path:expr, $m:expr, [$($ty:tt)*], $before:block) => {{
        let sub = join(&$path, &[$tag]);
        if !<$($ty)* as Probe>::LEAF && $c.r.chance(2, 3) {
            $f.mutate($c, &sub, $m);
        } else {
            let mut v = $c.gen::<$($ty)*>();
            $before;
            if $c.r.chance(2, 3) {
                $c.say(format!("{:?}.{}({:?})", $path, stringify!($set), v));
                $c.exp(Kind::Update, &sub, Some((<$($ty)* as Probe>::ty(), v.clone())), 0);
                $self.$set(detached(&v));
            } else {
                $c.say(format!("{:?}.{}({:?})", $path, stringify!($setw), v));
                $self.$setw(|rt| $crate::probe::cb::<$($ty)*>($c, &mut v, rt));
                $c.exp(Kind::Update, &sub, Some((<$($ty)* as Probe>::ty(), v.clone())), 0);
            }
            *$m = v;
        }
    }};
}

#[macro_export]
macro_rules! s_within {
    (no_state, $x:ident, $c:ident, $path:expr, $m:expr) => {};
    ($attr:ident, $x:ident, $c:ident, $path:expr, $m:expr) => {
        $x.mutate($c, $path, $m)
    };
}

#[macro_export]
macro_rules! s_replace {
    (no_state, $self:ident, $set:ident, $setw:ident, $c:ident, $path:ident, $sub:ident, $v:ident, [$($ty:tt)*]) => {};
    ($attr:ident, $self:ident, $set:ident, $setw:ident, $c:ident, $path:ident, $sub:ident, $v:ident, [$($ty:tt)*]) => {
        if $c.r.chance(2, 3) {
            $c.say(format!("{:?}.{}({:?})", $path, stringify!($set), $v));
            $c.exp(Kind::Update, &$sub, Some((<$($ty)* as Probe>::ty(), $v.clone())), 0);
            $self.$set(detached(&$v));
        } else {
            $c.say(format!("{:?}.{}({:?})", $path, stringify!($setw), $v));
            $self.$setw(|rt| $crate::probe::cb::<$($ty)*>($c, &mut $v, rt));
            $c.exp(Kind::Update, &$sub, Some((<$($ty)* as Probe>::ty(), $v.clone())), 0);
        }
    };
}

pub fn cb<T: SProbe>(c: &mut Ctx, v: &mut Val, rt: Runtime) -> T {
    in_callback(c, v, rt)
}

#[macro_export]
macro_rules! s_enum {
    ($name:ty, $e:ident, $hash:ident, $dctor:ident { $($vtag:literal $var:ident $ctor:ident { $($tag:literal $attr:ident $f:tt $set:ident $setw:ident [$($ty:tt)*];)* })* }) => {
        impl Probe for $name {
            fn ty() -> Ty {
                Ty::Enum(stringify!($name), vec![$(
                    ($vtag, vec![$(fld($tag, <$($ty)* as Probe>::ty, stringify!($attr))),*])
                ),*])
            }
            fn val(&self) -> Val {
                let mut i = 0;
                $(
                    if let $e::$var { .. } = self {
                        #[allow(unused_mut)]
                        let mut vs = vec![];
                        $(if let $e::$var { $f: x, .. } = self { vs.push(x.val()); })*
                        return Val::Enum(i, vs);
                    }
                    i += 1;
                )*
                panic!("unknown variant {}", i)
            }
            #[allow(unused)]
            fn build(v: &Val, rt: &Runtime) -> Self {
                let i = match v { Val::Enum(i, _) => *i, _ => panic!("ill-typed") };
                let mut it = fields(v).iter();
                let mut j = 0;
                $(
                    if i == j {
                        let mut e = Self::$ctor(rt.clone());
                        $(if let $e::$var { $f: x, .. } = &mut e {
                            *x = <$($ty)* as Probe>::build(it.next().unwrap(), &rt.nested($vtag).nested($tag));
                        })*
                        return e;
                    }
                    j += 1;
                )*
                panic!("no variant {}", j)
            }
            #[allow(unused)]
            fn set_any(&mut self, r: &mut Rng, m: &mut Val) -> bool {
                let mut total = 0;
                $($(let _ = $tag; total += 1;)*)*
                let k = r.below(total);
                let mut n = 0;
                let mut j = 0;
                $(
                    let mut i = 0;
                    $(
                        if n == k {
                            let v = gen(&<$($ty)* as Probe>::ty(), r, &mut 20);
                            $crate::s_set!($attr, self, $set, $setw, r, v, [$($ty)*]);
                            $crate::probe::switch(&Self::ty(), m, j);
                            fields_mut(m)[i] = v;
                        }
                        n += 1;
                        i += 1;
                    )*
                    j += 1;
                )*
                true
            }
            fn ctors() -> Vec<(&'static str, Self, Val)> {
                let d = default(&Self::ty());
                let mut out = vec![
                    (stringify!($dctor), Self::$dctor(Runtime::new()), d.clone()),
                    ("with_runtime", Self::with_runtime(Runtime::new()), d.clone()),
                    ("default", Self::default(), d),
                ];
                let mut i = 0;
                $(
                    out.push((stringify!($ctor), Self::$ctor(Runtime::new()), Val::Enum(i, vec![$(default(&<$($ty)* as Probe>::ty())),*])));
                    i += 1;
                )*
                let _ = i;
                out
            }
            $crate::hash_fn!($hash);
        }

        impl SProbe for $name {
            #[allow(unused)]
            fn paths_ok(&self, path: &[u32], logger: usize) -> Result<(), String> {
                $(
                    if let $e::$var { .. } = self {
                        mounted(self.runtime(), &join(path, &[$vtag]), logger, stringify!($e::$var))?;
                        $(if let $e::$var { $f: x, .. } = self {
                            $crate::s_paths!($attr, x, join(path, &[$vtag, $tag]), logger);
                        })*
                    }
                )*
                Ok(())
            }

            #[allow(unused)]
            fn mutate(&mut self, c: &mut Ctx, path: &[u32], m: &mut Val) {
                let mut total = 0;
                $($(let _ = $tag; total += 1;)*)*
                let k = c.r.below(total);
                let stay = c.r.chance(2, 3);
                let cur = match m { Val::Enum(i, _) => *i, _ => panic!("ill-typed") };
                let mut n = 0;
                let mut j = 0;
                $(
                    let mut i = 0;
                    let tags: &[u32] = &[$($tag),*];
                    let count = tags.len();
                    let here: usize = if count > 0 { k % count } else { 0 };
                    $(
                        if (stay && cur == j && i == here) || (!(stay && cur_has(&Self::ty(), cur)) && n == k) {
                            if cur == j {
                                let sub = join(path, &[$vtag]);
                                if let $e::$var { $f: x, .. } = self {
                                    if !<$($ty)* as Probe>::LEAF && c.r.chance(2, 3) {
                                        $crate::s_within!($attr, x, c, &join(&sub, &[$tag]), &mut fields_mut(m)[i]);
                                        return;
                                    }
                                }
                            }
                            if stringify!($attr) == "no_state" {
                                return;
                            }
                            let mut v = c.gen::<$($ty)*>();
                            if $crate::probe::switch(&Self::ty(), m, j) {
                                c.exp(Kind::Update, path, Some((Self::ty(), m.clone())), 0);
                            }
                            let sub = join(path, &[$vtag, $tag]);
                            $crate::s_replace!($attr, self, $set, $setw, c, path, sub, v, [$($ty)*]);
                            fields_mut(m)[i] = v;
                            return;
                        }
                        n += 1;
                        i += 1;
                    )*
                    j += 1;
                )*
            }
        }
    };
}

pub fn cur_has(ty: &Ty, i: usize) -> bool {
    match ty {
        Ty::Enum(_, es) => !es[i].1.is_empty(),
        _ => false,
    }
}

s_enum! { Maybe<bool>, Maybe, hash, new { 0 None new_none {} 1 Some new_some { 0 x value set_some_value set_some_value_with [bool]; } } }
s_enum! { Maybe<i32>, Maybe, hash, new { 0 None new_none {} 1 Some new_some { 0 x value set_some_value set_some_value_with [i32]; } } }
s_enum! { Maybe<crate::types::Leaf>, Maybe, hash, new { 0 None new_none {} 1 Some new_some { 0 x value set_some_value set_some_value_with [crate::types::Leaf]; } } }
s_enum! { Maybe<crate::types::Coord>, Maybe, hash, new { 0 None new_none {} 1 Some new_some { 0 x value set_some_value set_some_value_with [crate::types::Coord]; } } }
s_enum! { Maybe<List<u16>>, Maybe, hash, new { 0 None new_none {} 1 Some new_some { 0 x value set_some_value set_some_value_with [List<u16>]; } } }
s_enum! { Maybe<crate::types::Shape>, Maybe, hash, new { 0 None new_none {} 1 Some new_some { 0 x value set_some_value set_some_value_with [crate::types::Shape]; } } }
