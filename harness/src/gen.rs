//! Random content values of a schema, biased towards the boundaries of the format.

use crate::rng::Rng;
use crate::val::*;
use std::cell::Cell;
use std::collections::BTreeMap;

thread_local! {
    /// What is large in the case at hand.
    static SCALE: Cell<Scale> = Cell::new(Scale::Small);
    /// How many large bytes and elements it may still have.
    static BYTES: Cell<usize> = Cell::new(0);
    static ITEMS: Cell<usize> = Cell::new(0);
}

#[derive(Clone, Copy, PartialEq)]
pub enum Scale {
    Small,
    /// Strings, byte blobs and unknown fields beyond 64 KiB.
    Blobs,
    /// Lists and maps with hundreds or thousands of elements.
    Many,
    /// Histories of hundreds of steps.
    Long,
}

pub fn set_scale(s: Scale) {
    SCALE.with(|x| x.set(s));
    BYTES.with(|x| x.set(300_000));
    ITEMS.with(|x| x.set(17_000));
}

pub fn scale() -> Scale {
    SCALE.with(|x| x.get())
}

fn take(c: &'static std::thread::LocalKey<Cell<usize>>, n: usize) -> bool {
    c.with(|x| {
        let ok = x.get() >= n;
        if ok {
            x.set(x.get() - n);
        }
        ok
    })
}

/// A length around or beyond 64 KiB, in some cases.
pub fn blob_len(r: &mut Rng) -> Option<usize> {
    if scale() != Scale::Blobs || !r.chance(1, 2) {
        return None;
    }
    let n = match r.below(4) {
        0 => 65533 + r.below(6),
        1 => 65536 + r.below(5000),
        2 => 131070 + r.below(5),
        _ => 32766 + r.below(4),
    };
    if take(&BYTES, n) {
        Some(n)
    } else {
        None
    }
}

/// A large number of elements, in some cases.
fn many(r: &mut Rng, leaf: bool) -> Option<usize> {
    if scale() != Scale::Many || !r.chance(2, 3) {
        return None;
    }
    let n = match r.below(6) {
        0 => 126 + r.below(5),
        1 => 254 + r.below(6),
        2 => 300 + r.below(50),
        3 if leaf => 1020 + r.below(10),
        4 if leaf => 16382 + r.below(5),
        _ => 140 + r.below(100),
    };
    if take(&ITEMS, if leaf { n } else { 20 * n }) {
        Some(n)
    } else {
        None
    }
}

pub fn is_leaf(t: &Ty) -> bool {
    matches!(t.norm(), Ty::U(_) | Ty::I(_) | Ty::Bool)
}

/// `fuel` bounds the total number of elements.
pub fn gen(ty: &Ty, r: &mut Rng, fuel: &mut i64) -> Val {
    *fuel -= 1;
    if *fuel < 0 {
        return default(ty);
    }
    match ty {
        Ty::U(b) => Val::U(r.bits(*b)),
        Ty::I(b) => Val::I(r.signed(*b)),
        Ty::Bool => Val::B(r.chance(1, 2)),
        Ty::Str => Val::S(gen_str(r)),
        Ty::Bytes => Val::Bytes(gen_bytes(r)),
        Ty::Vec(t) | Ty::List(t) => {
            let t = t();
            if let Some(n) = many(r, is_leaf(&t)) {
                return Val::Seq((0..n).map(|_| gen(&t, r, &mut 2)).collect());
            }
            let n = gen_len(r, *fuel);
            Val::Seq((0..n).map(|_| gen(&t, r, fuel)).collect())
        }
        Ty::Arr(n, t) => {
            let t = t();
            Val::Seq((0..*n).map(|_| gen(&t, r, fuel)).collect())
        }
        Ty::Tup(ts) => Val::Seq(ts.iter().map(|t| gen(&t(), r, fuel)).collect()),
        Ty::Opt(t) => {
            if r.chance(1, 3) {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(gen(&t(), r, fuel))))
            }
        }
        Ty::HMap(k, w) => {
            let (k, w) = (k(), w());
            let big = many(r, is_leaf(&w)).map(|n| n.min(400));
            let n = big.unwrap_or_else(|| gen_len(r, *fuel).min(9));
            let mut small = 2;
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let fuel = if big.is_some() { &mut small } else { &mut *fuel };
                if big.is_some() {
                    *fuel = 3;
                }
                let a = match &k {
                    // More of them than the boundaries.
                    Ty::U(b) if r.chance(1, 2) => Val::U(r.next() >> (64 - *b)),
                    _ => gen(&k, r, fuel),
                };
                let b = gen(&w, r, fuel);
                m.insert(enc(&k, &a), (a, b));
            }
            Val::HMap(m)
        }
        Ty::Map(kt, t) => {
            let t = t();
            let big = many(r, is_leaf(&t)).map(|n| n.min(400));
            let n = big.unwrap_or_else(|| gen_len(r, *fuel).min(9));
            let mut small = 2;
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let fuel = if big.is_some() { &mut small } else { &mut *fuel };
                if big.is_some() {
                    *fuel = 2;
                }
                let k = gen_key(*kt, r);
                m.insert(k, gen(&t, r, fuel));
            }
            Val::Map(m)
        }
        Ty::Struct(_, fs) => Val::Struct(gen_fields(fs, r, fuel)),
        Ty::Enum(_, es) => {
            let i = r.below(es.len());
            Val::Enum(i, gen_fields(&es[i].1, r, fuel))
        }
        Ty::Boxed(t) => gen(&t(), r, fuel),
    }
}

fn gen_fields(fs: &[Field], r: &mut Rng, fuel: &mut i64) -> Vec<Val> {
    fs.iter()
        .map(|f| {
            let ty = (f.ty)();
            if r.chance(1, 4) {
                default(&ty)
            } else {
                gen(&ty, r, fuel)
            }
        })
        .collect()
}

pub fn gen_key(kt: KeyTy, r: &mut Rng) -> u32 {
    match kt {
        KeyTy::Custom => 1 + r.below(5) as u32,
        KeyTy::Max(m) => {
            let m = m.min(FIELD_MAX);
            let k = if scale() == Scale::Many && r.chance(2, 3) {
                r.next() % 400
            } else if r.chance(1, 2) {
                r.next() % 6
            } else {
                r.bits(32)
            };
            (k % (m as u64 + 1)) as u32
        }
    }
}

fn gen_len(r: &mut Rng, fuel: i64) -> usize {
    let n = match r.below(10) {
        0 | 1 => 0,
        2..=7 => r.below(4) + 1,
        8 => r.below(20),
        _ => 120 + r.below(20),
    };
    n.min(fuel.max(0) as usize)
}

fn gen_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0 | 1 => 0,
        2..=7 => r.below(5) + 1,
        8 | 9 => 126 + r.below(5),
        10 => r.below(300),
        _ => 16382 + r.below(5),
    };
    let n = blob_len(r).unwrap_or(n);
    if r.chance(1, 6) {
        // All alike.
        return vec![*r.pick(&[0u8, 1, 0x20, 0x7f, 0x80, 0xff]); n];
    }
    (0..n).map(|_| r.next() as u8).collect()
}

fn gen_str(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0 | 1 => 0,
        2..=7 => r.below(5) + 1,
        8 | 9 => 124 + r.below(6),
        10 => r.below(300),
        _ => 16380 + r.below(6),
    };
    if let Some(n) = blob_len(r) {
        let mut s = "π".repeat(r.below(2));
        s.push_str(&"abcdefgh".repeat(n / 8));
        while s.len() < n {
            s.push('z');
        }
        return s;
    }
    let mut s = String::new();
    if r.chance(1, 6) {
        // One or two of the unusual characters only.
        let odd: Vec<char> = "\u{feff} \n\r\t\0\u{7f}\u{80}\u{85}\u{a0}\u{ad}\u{301}\u{7ff}\u{800}\u{200b}\u{200d}\u{202e}\u{2028}\u{3000}\u{d7ff}\u{e000}\u{fffd}\u{fffe}\u{ffff}\u{10000}\u{10ffff}".chars().collect();
        let (a, b) = (*r.pick(&odd), *r.pick(&odd));
        while s.len() < n.min(300) {
            s.push(if r.chance(1, 4) { b } else { a });
        }
        return s;
    }
    while s.len() < n {
        match r.below(20) {
            0 => s.push('π'),
            1 => s.push('🦀'),
            2 => s.push('\0'),
            _ => s.push((b'a' + (r.next() % 26) as u8) as char),
        }
    }
    s
}

/// The value with one leaf changed, if it has any.
pub fn tweak(ty: &Ty, v: &Val, r: &mut Rng) -> Val {
    match (ty, v) {
        (Ty::Boxed(t), _) => tweak(&t(), v, r),
        (Ty::Arr(_, t), Val::Seq(vs)) => {
            let i = r.below(vs.len());
            let mut vs = vs.clone();
            vs[i] = tweak(&t(), &vs[i], r);
            Val::Seq(vs)
        }
        (Ty::Tup(ts), Val::Seq(vs)) => {
            let i = r.below(vs.len());
            let mut vs = vs.clone();
            vs[i] = tweak(&ts[i](), &vs[i], r);
            Val::Seq(vs)
        }
        (Ty::Vec(t), Val::Seq(vs)) | (Ty::List(t), Val::Seq(vs)) if !vs.is_empty() => {
            let i = r.below(vs.len());
            let mut vs = vs.clone();
            match r.below(4) {
                0 => {
                    vs.pop();
                }
                1 => {
                    let x = vs[i].clone();
                    vs.push(x);
                }
                _ => vs[i] = tweak(&t(), &vs[i], r),
            }
            Val::Seq(vs)
        }
        (Ty::Opt(t), Val::Opt(Some(x))) => {
            if r.chance(1, 2) {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(tweak(&t(), x, r))))
            }
        }
        (Ty::Map(kt, t), Val::Map(m)) if !m.is_empty() => {
            let mut m = m.clone();
            let keys: Vec<u32> = m.keys().cloned().collect();
            let k = *r.pick(&keys);
            let x = m.remove(&k).unwrap();
            match r.below(3) {
                0 => {}
                1 => {
                    let k = gen_key(*kt, r);
                    m.insert(k, x);
                }
                _ => {
                    let x = tweak(&t(), &x, r);
                    m.insert(k, x);
                }
            }
            Val::Map(m)
        }
        (Ty::Struct(_, fs), Val::Struct(vs)) if !vs.is_empty() => {
            let i = r.below(vs.len());
            let mut vs = vs.clone();
            vs[i] = tweak(&(fs[i].ty)(), &vs[i], r);
            Val::Struct(vs)
        }
        (Ty::Enum(_, es), Val::Enum(i, vs)) if !vs.is_empty() && r.chance(2, 3) => {
            let k = r.below(vs.len());
            let mut vs = vs.clone();
            vs[k] = tweak(&(es[*i].1[k].ty)(), &vs[k], r);
            Val::Enum(*i, vs)
        }
        (Ty::Bool, Val::B(b)) => Val::B(!b),
        _ => gen(ty, r, &mut 30),
    }
}
