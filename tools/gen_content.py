"""Writes contracts/80_content.vt: equality, hashing and cloning (development helper; its output is
committed).  The descriptions of the types are those of gen_messages.py."""
import os
import gen_messages as g

PRELUDE = r'''
// ---------------------------------------------------------------------------------------------
// Equality, hashing and cloning look at content alone (package of its own; written by
// tools/gen_content.py).  The traits stand for those of std, of which they are the laws.

/// Where a tracked value lives.
pub struct At {
    pub log: int,
    pub path: Seq<u32>,
}

impl At {
    pub open spec fn child(self, n: u32) -> At {
        At { log: self.log, path: self.path.push(n) }
    }
}

pub trait Viewed {
    /// The content of a value.
    type V;
    spec fn v(&self) -> Self::V;
    /// The value says that it lives at `at`, and the values in it that they live below.
    spec fn placed(&self, at: At) -> bool;
}

/// Bounds only.
pub trait State: Viewed {}
pub trait MapKey {}

pub trait PartialEq: Viewed {
    /// The contents are equal (leaving out what is excluded).
    spec fn same(a: Self::V, b: Self::V) -> bool;
    proof fn same_law(a: Self::V, b: Self::V)
        ensures
[C18]       Self::same(a, a),
[C18]       Self::same(a, b) ==> Self::same(b, a),
    ;
    fn eq(&self, other: &Self) -> (r: bool)
        ensures
[C18]       r == Self::same(self.v(), other.v()),
    ;
}

/// What a hasher is fed with.
pub enum Atom { N(int), Text(Seq<u8>) }

pub trait Hasher {
    spec fn fed(&self) -> Seq<Atom>;
}

pub trait Hash: PartialEq {
    /// What the hasher is fed with for this content.
    spec fn hashed(a: Self::V) -> Seq<Atom>;
    /// Equal values hash alike.
    proof fn hash_law(a: Self::V, b: Self::V)
        ensures
[C18]       Self::same(a, b) ==> Self::hashed(a) == Self::hashed(b),
    ;
    fn hash<H: Hasher>(&self, state: &mut H)
        ensures
[C18]       final(state).fed() == old(state).fed() + Self::hashed(self.v()),
    ;
}

pub trait Clone: Viewed + Sized {
    fn clone(&self) -> (r: Self)
        ensures
[C18]       r.v() == self.v(),
[C18]       forall|at: At| #[trigger] r.placed(at) <==> self.placed(at),
    ;
}

pub proof fn lemma_feed(a: Seq<Atom>, b: Seq<Atom>, c: Seq<Atom>)
    ensures (a + b) + c == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}

// Assumed: std's implementations for its own types.

@@for T in u8 u16 u32 u64 i8 i16 i32 i64 bool
impl Viewed for $T {
    type V = $T;
    open spec fn v(&self) -> $T { *self }
    open spec fn placed(&self, at: At) -> bool { true }
}
impl State for $T {}
impl MapKey for $T {}
impl PartialEq for $T {
    open spec fn same(a: $T, b: $T) -> bool { a == b }
    proof fn same_law(a: $T, b: $T) {}
    fn eq(&self, other: &$T) -> bool { *self == *other }
}
impl Hash for $T {
    open spec fn hashed(a: $T) -> Seq<Atom> { seq![Atom::N(a as int)] }
    proof fn hash_law(a: $T, b: $T) {}
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl Clone for $T {
    fn clone(&self) -> $T { *self }
}
@@endfor

impl<'a, T: Viewed> Viewed for &'a T {
    type V = T::V;
    open spec fn v(&self) -> T::V { (**self).v() }
    open spec fn placed(&self, at: At) -> bool { (**self).placed(at) }
}
impl<'a, T: PartialEq> PartialEq for &'a T {
    open spec fn same(a: T::V, b: T::V) -> bool { T::same(a, b) }
    proof fn same_law(a: T::V, b: T::V) { T::same_law(a, b); }
    fn eq(&self, other: &&'a T) -> bool { T::eq(*self, *other) }
}

#[verifier::external_body]
pub struct Text { s: Vec<u8> }
impl Viewed for Text {
    type V = Seq<u8>;
    uninterp spec fn v(&self) -> Seq<u8>;
    open spec fn placed(&self, at: At) -> bool { true }
}
impl PartialEq for Text {
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
    proof fn same_law(a: Seq<u8>, b: Seq<u8>) {}
    #[verifier::external_body]
    fn eq(&self, other: &Text) -> bool { unimplemented!() }
}
impl Hash for Text {
    open spec fn hashed(a: Seq<u8>) -> Seq<Atom> { seq![Atom::Text(a)] }
    proof fn hash_law(a: Seq<u8>, b: Seq<u8>) {}
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl Clone for Text {
    #[verifier::external_body]
    fn clone(&self) -> Text { unimplemented!() }
}

impl<T: Viewed> Viewed for Vec<T> {
    type V = Seq<T::V>;
    open spec fn v(&self) -> Seq<T::V> { self@.map_values(|x: T| x.v()) }
    open spec fn placed(&self, at: At) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).placed(at.child(i as u32)) }
}
/// Element by element, after the number of elements.
pub open spec fn hashed_all<T: Hash>(a: Seq<T::V>) -> Seq<Atom>
    decreases a.len(),
{
    if a.len() == 0 { seq![] } else { hashed_all::<T>(a.drop_last()) + T::hashed(a.last()) }
}
pub proof fn lemma_hashed_all<T: Hash>(a: Seq<T::V>, b: Seq<T::V>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> T::same(#[trigger] a[i], b[i]),
    ensures hashed_all::<T>(a) == hashed_all::<T>(b),
    decreases a.len(),
{
    if a.len() > 0 {
        let (c, d) = (a.drop_last(), b.drop_last());
        assert forall|i: int| 0 <= i < c.len() implies T::same(#[trigger] c[i], d[i]) by { assert(c[i] == a[i]); }
        lemma_hashed_all::<T>(c, d);
        assert(T::same(a[a.len() - 1], b[b.len() - 1]));
        T::hash_law(a.last(), b.last());
    }
}
impl<T: PartialEq> PartialEq for Vec<T> {
    open spec fn same(a: Seq<T::V>, b: Seq<T::V>) -> bool {
        a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> T::same(#[trigger] a[i], b[i])
    }
    proof fn same_law(a: Seq<T::V>, b: Seq<T::V>) {
        assert forall|i: int| 0 <= i < a.len() implies T::same(#[trigger] a[i], a[i]) by { T::same_law(a[i], a[i]); }
        if Self::same(a, b) {
            assert forall|i: int| 0 <= i < b.len() implies T::same(#[trigger] b[i], a[i]) by { assert(T::same(a[i], b[i])); T::same_law(a[i], b[i]); }
        }
    }
    #[verifier::external_body]
    fn eq(&self, other: &Vec<T>) -> bool { unimplemented!() }
}
impl<T: Hash> Hash for Vec<T> {
    open spec fn hashed(a: Seq<T::V>) -> Seq<Atom> { seq![Atom::N(a.len() as int)] + hashed_all::<T>(a) }
    proof fn hash_law(a: Seq<T::V>, b: Seq<T::V>) {
        if Self::same(a, b) { lemma_hashed_all::<T>(a, b); }
    }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl<T: Clone> Clone for Vec<T> {
    #[verifier::external_body]
    fn clone(&self) -> Vec<T> { unimplemented!() }
}

impl<T: Viewed> Viewed for Option<T> {
    type V = Option<T::V>;
    open spec fn v(&self) -> Option<T::V> { match self { Some(x) => Some(x.v()), None => None } }
    open spec fn placed(&self, at: At) -> bool { match self { Some(x) => x.placed(at), None => true } }
}
impl<T: PartialEq> PartialEq for Option<T> {
    open spec fn same(a: Option<T::V>, b: Option<T::V>) -> bool {
        match (a, b) { (Some(x), Some(y)) => T::same(x, y), (None, None) => true, _ => false }
    }
    proof fn same_law(a: Option<T::V>, b: Option<T::V>) {
        if let Some(x) = a {
            T::same_law(x, x);
            if let Some(y) = b { T::same_law(x, y); }
        }
    }
    #[verifier::external_body]
    fn eq(&self, other: &Option<T>) -> bool { unimplemented!() }
}
impl<T: Hash> Hash for Option<T> {
    open spec fn hashed(a: Option<T::V>) -> Seq<Atom> {
        match a { Some(x) => seq![Atom::N(1)] + T::hashed(x), None => seq![Atom::N(0)] }
    }
    proof fn hash_law(a: Option<T::V>, b: Option<T::V>) {
        if let Some(x) = a { if let Some(y) = b { T::hash_law(x, y); } }
    }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl<T: Clone> Clone for Option<T> {
    #[verifier::external_body]
    fn clone(&self) -> Option<T> { unimplemented!() }
}

impl<T: Viewed> Viewed for Box<T> {
    type V = T::V;
    open spec fn v(&self) -> T::V { (**self).v() }
    open spec fn placed(&self, at: At) -> bool { (**self).placed(at) }
}
impl<T: PartialEq> PartialEq for Box<T> {
    open spec fn same(a: T::V, b: T::V) -> bool { T::same(a, b) }
    proof fn same_law(a: T::V, b: T::V) { T::same_law(a, b); }
    #[verifier::external_body]
    fn eq(&self, other: &Box<T>) -> bool { unimplemented!() }
}
impl<T: Hash> Hash for Box<T> {
    open spec fn hashed(a: T::V) -> Seq<Atom> { T::hashed(a) }
    proof fn hash_law(a: T::V, b: T::V) { T::hash_law(a, b); }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl<T: Clone> Clone for Box<T> {
    #[verifier::external_body]
    fn clone(&self) -> Box<T> { unimplemented!() }
}

pub use core::marker::PhantomData;
impl<T> Viewed for PhantomData<T> {
    type V = ();
    open spec fn v(&self) -> () { () }
    open spec fn placed(&self, at: At) -> bool { true }
}
impl<T> Clone for PhantomData<T> {
    #[verifier::external_body]
    fn clone(&self) -> PhantomData<T> { unimplemented!() }
}

/// Stands for indexmap::IndexMap (assumed: its equality is that of finite maps).
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
pub struct IndexMap<K, T> { x: Vec<(K, T)> }
impl<T> IndexMap<u32, T> {
    pub uninterp spec fn entries(&self) -> Map<u32, T>;
}
impl<T: Viewed> Viewed for IndexMap<u32, T> {
    type V = vstd::map::Map<u32, T::V>;
    open spec fn v(&self) -> vstd::map::Map<u32, T::V> { self.entries().map_values(|x: T| x.v()) }
    open spec fn placed(&self, at: At) -> bool {
        forall|k: u32| self.entries().dom().contains(k) ==> (#[trigger] self.entries()[k]).placed(at.child(k))
    }
}
impl<T: PartialEq> PartialEq for IndexMap<u32, T> {
    open spec fn same(a: vstd::map::Map<u32, T::V>, b: vstd::map::Map<u32, T::V>) -> bool {
        a.dom() == b.dom() && forall|k: u32| a.dom().contains(k) ==> T::same(#[trigger] a[k], b[k])
    }
    proof fn same_law(a: vstd::map::Map<u32, T::V>, b: vstd::map::Map<u32, T::V>) {
        assert forall|k: u32| a.dom().contains(k) implies T::same(#[trigger] a[k], a[k]) by { T::same_law(a[k], a[k]); }
        if Self::same(a, b) {
            assert forall|k: u32| b.dom().contains(k) implies T::same(#[trigger] b[k], a[k]) by { assert(T::same(a[k], b[k])); T::same_law(a[k], b[k]); }
        }
    }
    #[verifier::external_body]
    fn eq(&self, other: &IndexMap<u32, T>) -> bool { unimplemented!() }
}
impl<T: Clone> Clone for IndexMap<u32, T> {
    #[verifier::external_body]
    fn clone(&self) -> IndexMap<u32, T> { unimplemented!() }
}

// What never counts: size caches and runtimes.

/// rt::SizeCache (its Clone carries the number over, which is of no account).
#[verifier::external_body]
pub struct SizeCache { size: u32 }
impl Viewed for SizeCache {
    type V = ();
    open spec fn v(&self) -> () { () }
    open spec fn placed(&self, at: At) -> bool { true }
}
impl Clone for SizeCache {
    #[verifier::external_body]
    fn clone(&self) -> SizeCache { unimplemented!() }
}

/// rt::Runtime: a log and a path (its Clone is under contract in 70_runtime.vt).
#[verifier::external_body]
pub struct Runtime { x: u32 }
impl Runtime {
    pub uninterp spec fn at(&self) -> At;
}
impl Viewed for Runtime {
    type V = ();
    open spec fn v(&self) -> () { () }
    open spec fn placed(&self, at: At) -> bool { self.at() == at }
}
impl Clone for Runtime {
    #[verifier::external_body]
    fn clone(&self) -> Runtime { unimplemented!() }
}

@@for P,T in rt::size_cache,SizeCache rt::runtime,Runtime
@@impl $P | PartialEq | $T
    open spec fn same(a: (), b: ()) -> bool { true }
    proof fn same_law(a: (), b: ()) {}
@fn eq [C18]
@@end
@@impl $P | Hash | $T
    open spec fn hashed(a: ()) -> Seq<Atom> { seq![] }
    proof fn hash_law(a: (), b: ()) {}
@fn hash [C18]
@end
    proof { assert(_state.fed() + Seq::<Atom>::empty() =~= _state.fed()); }
@@end
@@endfor

@@struct types::bytes::Bytes
impl Viewed for Bytes {
    type V = Seq<u8>;
    open spec fn v(&self) -> Seq<u8> { self.0.v() }
    open spec fn placed(&self, at: At) -> bool { true }
}
@@impl types::bytes | PartialEq | Bytes
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { Vec::<u8>::same(a, b) }
    proof fn same_law(a: Seq<u8>, b: Seq<u8>) { Vec::<u8>::same_law(a, b); }
@fn eq [C18]
@@end
@@impl types::bytes | Hash | Bytes
    open spec fn hashed(a: Seq<u8>) -> Seq<Atom> { Vec::<u8>::hashed(a) }
    proof fn hash_law(a: Seq<u8>, b: Seq<u8>) { Vec::<u8>::hash_law(a, b); }
@fn hash [C18]
@@end
@@impl types::bytes | Clone | Bytes
@fn clone [C18]
@@end

@@struct types::list::List #[verifier::reject_recursive_types(T)]
impl<T: State> State for List<T> {}
impl<T: State> Viewed for List<T> {
    type V = Seq<T::V>;
    open spec fn v(&self) -> Seq<T::V> { self.items.v() }
    open spec fn placed(&self, at: At) -> bool { self.runtime.placed(at) && self.items.placed(at) }
}
@@impl types::list | PartialEq | List<T>
    open spec fn same(a: Seq<T::V>, b: Seq<T::V>) -> bool { Vec::<T>::same(a, b) }
    proof fn same_law(a: Seq<T::V>, b: Seq<T::V>) { Vec::<T>::same_law(a, b); }
@fn eq [C18]
@@end
@@impl types::list | Hash | List<T>
    open spec fn hashed(a: Seq<T::V>) -> Seq<Atom> { Vec::<T>::hashed(a) }
    proof fn hash_law(a: Seq<T::V>, b: Seq<T::V>) { Vec::<T>::hash_law(a, b); }
@fn hash [C18]
@start
    let ghost h0 = state.fed();
@end
    proof { assert(state.fed() =~= h0 + Vec::<T>::hashed(self.items.v())); }
@@end
@@impl types::list | Clone | List<T>
@fn clone [C18]
@@end

pub mod map_type {
use super::*;
@@struct types::map::map::Map #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
impl<K: MapKey, V: State> State for Map<K, V> {}
impl<K: MapKey, V: State> Viewed for Map<K, V> {
    type V = vstd::map::Map<u32, V::V>;
    open spec fn v(&self) -> vstd::map::Map<u32, V::V> { self.entries.v() }
    open spec fn placed(&self, at: At) -> bool { self.runtime.placed(at) && self.entries.placed(at) }
}
@@impl types::map::map | PartialEq | Map<K, V>
    open spec fn same(a: vstd::map::Map<u32, V::V>, b: vstd::map::Map<u32, V::V>) -> bool { IndexMap::<u32, V>::same(a, b) }
    proof fn same_law(a: vstd::map::Map<u32, V::V>, b: vstd::map::Map<u32, V::V>) { IndexMap::<u32, V>::same_law(a, b); }
@fn eq [C18]
@@end
@@impl types::map::map | Clone | Map<K, V>
@fn clone [C18]
@@end
}
'''


def ty(t):
    return t.replace("String", "Text").replace("Map<", "map_type::Map<")


def derived(t):
    gens = t.gens
    gv = "<%s>" % ", ".join("%s: %s" % (x, "State" if t.state else "Viewed") for x in gens) if gens else ""
    ga = "<%s>" % ", ".join(gens) if gens else ""
    name = t.name
    wname = name + "W"
    wv = wname + ("<%s>" % ", ".join(x + "::V" for x in gens) if gens else "")
    wg = "<%s>" % ", ".join(gens) if gens else ""

    def vfield(ft):
        return ("%s" % ft) if ft in gens else "<%s as Viewed>::V" % ty(ft)

    o = []
    if not t.is_enum:
        fs = t.groups[0][2]
        o.append("pub struct %s%s {" % (wname, wg))
        for f in fs:
            o.append("    pub f%s: %s," % (f[1], vfield(f[2])))
        o.append("}")
        view = "%s { %s }" % (wname, ", ".join("f%s: self.%s.v()" % (f[1], f[0]) for f in fs))
        st = lambda f: g.st_(f)
        parts = []
        if t.state:
            parts.append("self.%s.placed(at)" % t.rt)
        for f in fs:
            if not t.state:
                parts.append("self.%s.placed(at)" % f[0])
            elif st(f):
                parts.append("self.%s.placed(at.child(%d))" % (f[0], f[1]))
        placed = " && ".join(parts) or "true"
        same = " && ".join("%s::same(a.f%s, b.f%s)" % (bra(ty(f[2])), f[1], f[1]) for f in fs if f[3]) or "true"
        laws = "\n".join("        %s::same_law(a.f%s, b.f%s);" % (bra(ty(f[2])), f[1], f[1]) for f in fs if f[3])
        hs = [f for f in fs if f[4]]
        hashed = " + ".join(["Seq::<Atom>::empty()"] + ["%s::hashed(a.f%s)" % (bra(ty(f[2])), f[1]) for f in hs])
        hlaws = "\n".join("        %s::hash_law(a.f%s, b.f%s);" % (bra(ty(f[2])), f[1], f[1]) for f in hs)
        hend = ["@start", "    let ghost h0 = state.fed();", "@end", "    proof { assert(state.fed() =~= h0 + Self::hashed(self.v())); }"]
    else:
        o.append("pub enum %s%s {" % (wname, wg))
        for v, tag, fs, c in t.groups:
            o.append("    %s { %s }," % (v, ", ".join("f%s: %s" % (f[1], vfield(f[2])) for f in fs)))
        o.append("}")

        def pat(v, fs, pre):
            if not fs:
                return "%s::%s { .. }" % (name, v)
            return "%s::%s { %s, .. }" % (name, v, ", ".join("%s: %s%s" % (f[0], pre, f[1]) for f in fs))
        view = "match self { %s }" % " ".join("%s => %s::%s { %s }," % (pat(v, fs, "x"), wname, v, ", ".join("f%s: x%s.v()" % (f[1], f[1]) for f in fs)) for v, tag, fs, c in t.groups)
        arms = []
        for v, tag, fs, c in t.groups:
            parts = []
            # The runtime is the last field of a tuple variant.
            if t.state:
                tup = fs and isinstance(fs[0][0], int)
                rtf = str(len(fs) + (1 if c else 0)) if tup else t.rt
                parts.append("rt_.placed(at.child(%d))" % tag)
                p = "%s::%s { %s }" % (name, v, ", ".join(["%s: x%s" % (f[0], f[1]) for f in fs] + ["%s: rt_" % rtf, ".."]))
                parts += ["x%s.placed(at.child(%d).child(%d))" % (f[1], tag, f[1]) for f in fs if g.st_(f)]
            else:
                p = pat(v, fs, "x")
                parts += ["x%s.placed(at)" % f[1] for f in fs]
            arms.append("%s => %s," % (p, " && ".join(parts) or "true"))
        placed = "match self { %s }" % " ".join(arms)

        def wp(v, fs, pre):
            return "%s::%s { %s }" % (wname, v, ", ".join("f%s: %s%s" % (f[1], pre, f[1]) for f in fs))
        same = "match (a, b) { %s _ => false }" % " ".join("(%s, %s) => %s," % (wp(v, fs, "x"), wp(v, fs, "y"), " && ".join("%s::same(x%s, y%s)" % (bra(ty(f[2])), f[1], f[1]) for f in fs if f[3]) or "true") for v, tag, fs, c in t.groups)

        def law(fn, k):
            r = []
            for v, tag, fs, c in t.groups:
                hs = [f for f in fs if f[k]]
                if hs:
                    r.append("        if let %s = a {\n            %s\n            if let %s = b { %s }\n        }" % (
                        wp(v, fs, "x"), " ".join("%s::%s(x%s, x%s);" % (bra(ty(f[2])), fn, f[1], f[1]) for f in hs),
                        wp(v, fs, "y"), " ".join("%s::%s(x%s, y%s);" % (bra(ty(f[2])), fn, f[1], f[1]) for f in hs)))
            return "\n".join(r)
        laws = law("same_law", 3)
        hlaws = law("hash_law", 4)
        hashed = "match a { %s }" % " ".join("%s => %s," % (wp(v, fs, "x"), " + ".join(["seq![Atom::N(%d)]" % tag] + ["%s::hashed(x%s)" % (bra(ty(f[2])), f[1]) for f in fs if f[4]])) for v, tag, fs, c in t.groups)
        hend = ["@start", "    let ghost h0 = state.fed();", "@after match", "    proof { assert(state.fed() =~= h0 + Self::hashed(self.v())); }"]
        hend = ["@start", "    let ghost h0 = state.fed();", "@tail", "    proof { assert(state.fed() =~= h0 + Self::hashed(self.v())); }"]
    if t.state:
        o.append("impl%s State for %s%s {}" % (gv, name, ga))
    o.append("impl%s Viewed for %s%s {" % (gv, name, ga))
    o.append("    type V = %s;" % wv)
    o.append("    open spec fn v(&self) -> %s { %s }" % (wv, view))
    o.append("    open spec fn placed(&self, at: At) -> bool { %s }" % placed)
    o.append("}")
    p = t.path
    o.append("@@impl %s | PartialEq | %s" % (p, t.ty()))
    o.append("    open spec fn same(a: %s, b: %s) -> bool { %s }" % (wv, wv, same))
    o.append("    proof fn same_law(a: %s, b: %s) {\n%s\n    }" % (wv, wv, laws))
    o.append("@fn eq [C18]\n@@end")
    if t.hash:
        o.append("@@impl %s | Hash | %s" % (p, t.ty()))
        o.append("    open spec fn hashed(a: %s) -> Seq<Atom> { %s }" % (wv, hashed))
        o.append("    proof fn hash_law(a: %s, b: %s) {\n        Self::same_law(a, b);\n%s\n    }" % (wv, wv, hlaws))
        o.append("@fn hash [C18]")
        o += hend
        o.append("@@end")
    o.append("@@impl %s | Clone | %s" % (p.rsplit("::", 1)[0] if "::" in p else "", t.ty()))
    o.append("@fn clone [C18]\n@@end")
    return "\n".join(o)


def bra(t):
    return "<%s>" % t


def main():
    o = [PRELUDE]
    o.append("pub mod decl {\nuse super::*;\nuse super::map_type::Map;\npub type String = Text;")
    o.append("@@enum types::maybe::Maybe")
    for t in TYPES:
        o.append("@@%s %s" % ("enum" if t.is_enum else "struct", t.name))
    o.append("}\npub use decl::{%s, Maybe};\n" % ", ".join(t.name for t in TYPES))
    for t in TYPES:
        o.append(derived(t) + "\n")
    o.append(derived(g.MAYBE))
    o.append("""@@impl types::maybe | PartialEq<Option<T>> | Maybe<T>
@inherent
@fn eq [C18]
    ensures
[C18] r == (match (self.v(), other.v()) { (MaybeW::Some { f0: x }, Some(y)) => T::same(y, x), (MaybeW::None { }, None) => true, _ => false }),
@sig fn eq => fn eq_option
@@end
""")
    open(os.path.join(g.OUT, "80_content.vt"), "w").write("\n".join(o))


TYPES = [t for t in g.ALL.values() if t.name not in ("LogEntry", "Maybe")]
if __name__ == "__main__":
    for t in g.ALL.values():
        if t.name == "Ship":
            t.hash = False
    main()
